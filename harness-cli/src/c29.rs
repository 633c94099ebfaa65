//! Runs of the command line tool on files.
use anyhow::{anyhow, bail, Result};
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use std::path::PathBuf;
use std::process::{Command, Stdio};
use vharness::io::Scratch;
use vharness::*;

type T = TropicalWeight;
type V = VectorFst<T>;

fn tool() -> PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join("rustfst-cli")
}
fn spawn(args: &[String]) -> Result<i32> {
    let st = Command::new(tool()).args(args).env("RUST_LOG", "off").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status()?;
    match st.code() {
        None => panic!("killed by a signal"),
        Some(101) => panic!("the tool panicked"),
        Some(c) => Ok(c),
    }
}
fn run(log: &mut Log, r: &mut Rng, _c: u64, o: &Opts) {
    let dir = Scratch::new(o, log.case);
    let pin = |i: usize| dir.path.join(format!("in{}.fst", i)).to_str().unwrap().to_string();
    let pout = dir.path.join("out.fst").to_str().unwrap().to_string();
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(5);
    g.min_states = g.min_states.min(g.max_states);
    let cmd = *[
        "determinize", "minimize", "connect", "tr_sort", "project", "invert", "topsort", "optimize", "reverse", "map", "map", "shortestpath", "rmfinalepsilon", "push", "compose", "compose", "bad",
    ]
    .choose(r)
    .unwrap();
    match cmd {
        "determinize" | "minimize" | "optimize" | "push" => g.acyclic = true,
        "compose" => {
            g.max_states = g.max_states.min(4);
            g.min_states = g.min_states.min(g.max_states);
        }
        _ => {}
    }
    let l = pick_l(g.labels);
    let mut fs: Vec<V> = vec![gen_fst(r, &g)];
    if cmd == "compose" {
        fs.push(gen_fst(r, &g));
        if r.gen_bool(0.4) {
            tr_sort(&mut fs[0], OLabelCompare {});
        } else if r.gen_bool(0.8) {
            tr_sort(&mut fs[1], ILabelCompare {});
        }
    }
    for f in fs.iter_mut() {
        maybe_props(r, f);
    }
    for (i, f) in fs.iter().enumerate() {
        f.write(pin(i)).unwrap();
        log.new_reg(i, f);
    }
    let mut opts: Vec<String> = vec![];
    let mut op = cmd.to_string();
    let mut args = format!("\"L\":{}", l);
    let sflag = |v: &mut Vec<String>, s: &str| v.push(s.to_string());
    match cmd {
        "bad" => {
            // unreadable input, unknown options: a failure status and nothing written
            let how = *["missing", "truncated", "text", "const", "unwritable", "option"].choose(r).unwrap();
            let sub = *["connect", "invert", "topsort", "map", "reverse", "minimize"].choose(r).unwrap();
            let mut a = vec![sub.to_string(), pin(0), pout.clone()];
            match how {
                "missing" => std::fs::remove_file(pin(0)).unwrap(),
                "truncated" => {
                    let b = std::fs::read(pin(0)).unwrap();
                    std::fs::write(pin(0), &b[..r.gen_range(0..b.len())]).unwrap();
                }
                "text" => std::fs::write(pin(0), "0 1 1 1\n1\n").unwrap(),
                "const" => ConstFst::<T>::from(fs[0].clone()).write(pin(0)).unwrap(),
                "unwritable" => a[2] = dir.path.join("no/such/dir/out.fst").to_str().unwrap().to_string(),
                _ => a.push("--no-such-option".into()),
            }
            let out = a[2].clone();
            log.call(
                &hdr("cli.bad", "trop", &[], -1, sub, &format!("\"how\":\"{}\"", how)),
                || Ok(format!("{{\"code\":{},\"written\":{}}}", spawn(&a)?, std::path::Path::new(&out).exists())),
                |s| Out::Val(s.clone()),
            );
            return;
        }
        "determinize" => {
            let (n, d) = *[("fun", "functional"), ("nonfun", "nonfunctional"), ("dis", "disambiguate")].choose(r).unwrap();
            if n != "fun" || r.gen_bool(0.5) {
                sflag(&mut opts, "--det_type");
                sflag(&mut opts, d);
            }
            // what the tool knows about the machine once it has read it back
            let known = V::read(pin(0)).map(|f| f.properties().contains(FstProperties::ACCEPTOR)).unwrap_or(false);
            args += &format!(",\"ty\":\"{}\",\"acc\":{}", n, known);
        }
        "minimize" => {
            let nd = r.gen_bool(0.5);
            if nd {
                sflag(&mut opts, "--allow-nondet");
            }
            args += &format!(",\"nd\":{}", nd);
        }
        "tr_sort" => {
            let side = r.gen_bool(0.5);
            if !side || r.gen_bool(0.5) {
                opts.push(format!("--sort_type={}", if side { "ilabel" } else { "olabel" }));
            }
            args = format!("\"side\":\"{}\"", if side { "in" } else { "out" });
        }
        "project" => {
            let side = r.gen_bool(0.5);
            if !side {
                sflag(&mut opts, "--project-output");
            }
            args = format!("\"side\":\"{}\"", if side { "in" } else { "out" });
        }
        "topsort" => op = "top_sort".into(),
        "optimize" => op = "keep".into(),
        "rmfinalepsilon" => op = "rm_final_eps".into(),
        "map" => {
            let m = *["arc_sum", "arc_unique", "tr_sum", "tr_unique", "identity", "input_epsilon", "invert", "output_epsilon", "plus", "quantize", "rmweight", "times"].choose(r).unwrap();
            if m != "identity" || r.gen_bool(0.5) {
                sflag(&mut opts, "--map_type");
                sflag(&mut opts, m);
            }
            let w = T::rnd(r);
            if m == "plus" || m == "times" {
                opts.push(format!("--weight={}", w.value()));
            }
            match m {
                "arc_sum" | "tr_sum" => op = "tr_sum".into(),
                "arc_unique" | "tr_unique" => op = "tr_unique".into(),
                _ => {
                    op = "tr_map".into();
                    let n = match m {
                        "input_epsilon" => "ieps",
                        "output_epsilon" => "oeps",
                        "invert" => "invertw",
                        x => x,
                    };
                    args = format!("\"m\":\"{}\",\"w\":{},\"lab\":0", n, w.enc());
                }
            }
        }
        "shortestpath" => {
            op = "shortest_path".into();
            let n: usize = *[1, 1, 2, 3, 4].choose(r).unwrap();
            if n != 1 || r.gen_bool(0.5) {
                opts.push(format!("--nshortest={}", n));
            }
            args = format!("\"n\":{},\"uniq\":false", n);
        }
        "push" => {
            let (fin, w, lb) = (r.gen_bool(0.5), r.gen_bool(0.7), r.gen_bool(0.6));
            let rt = w && r.gen_bool(0.4);
            let ra = lb && r.gen_bool(0.4);
            for (b, s) in [(fin, "--to_final"), (w, "--push_weights"), (lb, "--push_labels"), (rt, "--remove_total_weight"), (ra, "--remove_common_affix")] {
                if b {
                    sflag(&mut opts, s);
                }
            }
            if !w && !lb {
                op = "keep".into();
            } else {
                args += &format!(",\"to\":\"{}\",\"rt\":{},\"ra\":{},\"lb\":{},\"wt\":{}", if fin { "final" } else { "initial" }, rt, ra, lb, w);
            }
        }
        "compose" => {
            if r.gen_bool(0.4) {
                sflag(&mut opts, "--compose_type");
                sflag(&mut opts, "lookahead");
                op = "lacompose".into();
                args += ",\"la\":\"cli\",\"stack\":0";
            } else {
                args += ",\"flt\":\"auto\",\"conn\":true";
            }
        }
        _ => {}
    }
    let mut a = vec![cmd.to_string()];
    let mut paths: Vec<String> = (0..fs.len()).map(pin).collect();
    paths.push(pout.clone());
    if r.gen_bool(0.5) {
        a.extend(opts);
        a.extend(paths);
    } else {
        a.extend(paths);
        a.extend(opts);
    }
    let ins: Vec<usize> = (0..fs.len()).collect();
    let before: Vec<Vec<u8>> = (0..fs.len()).map(|i| std::fs::read(pin(i)).unwrap()).collect();
    log.call(
        &hdr(&op, "trop", &ins, fs.len() as i64, "cli", &args),
        || {
            let c = spawn(&a)?;
            for (i, b) in before.iter().enumerate() {
                assert!(std::fs::read(pin(i)).ok().as_ref() == Some(b), "an input file changed");
            }
            if c != 0 {
                assert!(!std::path::Path::new(&pout).exists(), "failed but wrote an output");
                bail!("exit status {}", c);
            }
            V::read(&pout).map_err(|e| anyhow!("{}", e)).map_err(|_| panic!("success without a readable output"))
        },
        fst_out,
    );
}
fn main() {
    drive(run)
}
