//! Histories of symbol tables.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::prelude::*;
use rustfst::symt;
use std::sync::Arc;
use vharness::io::*;
use vharness::*;

const POOL: &[&str] = &["a", "b", "c", "<eps>", "", " ", "é", "a b", "0", "日本", "a\tb", "\n"];
fn js(t: &SymbolTable) -> String {
    format!("[{}]", (0..t.len()).map(|l| jstr(t.get_symbol(l as Label).unwrap_or("<<none>>"))).collect::<Vec<_>>().join(","))
}
fn strs<'a>(it: impl Iterator<Item = &'a str>) -> String {
    format!("[{}]", it.map(jstr).collect::<Vec<_>>().join(","))
}
fn view(t: &SymbolTable) -> String {
    let q: Vec<String> = POOL
        .iter()
        .map(|s| format!("[{},{},{}]", jstr(s), t.get_label(s).map(|x| x as i64).unwrap_or(-1), t.contains_symbol(s) as i64))
        .collect();
    let n = t.len() as Label;
    let l: Vec<String> = (0..n + 2)
        .chain([100, u32::MAX - 1])
        .map(|l| format!("[{},{},{}]", lab(l), t.contains_label(l) as i64, t.get_symbol(l).map(|s| format!("[{}]", jstr(s))).unwrap_or("[]".into())))
        .collect();
    format!(
        "{{\"len\":{},\"empty\":{},\"labels\":{:?},\"symbols\":{},\"iter\":[{}],\"q\":[{}],\"l\":[{}]}}",
        t.len(),
        t.is_empty(),
        t.labels().collect::<Vec<_>>(),
        strs(t.symbols()),
        t.iter().map(|(l, s)| format!("[{},{}]", l, jstr(s))).collect::<Vec<_>>().join(","),
        q.join(","),
        l.join(",")
    )
}
fn run(log: &mut Log, r: &mut Rng, _c: u64, o: &Opts) {
    let mut ts: Vec<SymbolTable> = vec![];
    let dir = Scratch::new(o, log.case);
    let p = dir.path.join("s");
    for _ in 0..r.gen_range(4..16) {
        let n = ts.len();
        if n == 0 || (n < 3 && r.gen_bool(0.25)) {
            let k = r.gen_range(0..5);
            let h = hdr("y.new", "sym", &[], n as i64, ["new", "empty", "default", "symt", "hasher"][k], "");
            if let Some(t) = log.call(
                &h,
                || {
                    Ok(match k {
                        0 => SymbolTable::new(),
                        1 => SymbolTable::empty(),
                        2 => SymbolTable::default(),
                        3 => symt!["a", "b", "a"],
                        _ => SymbolTable::with_hasher(std::collections::hash_map::RandomState::new()),
                    })
                },
                |t| Out::Fst(js(t)),
            ) {
                ts.push(t);
            }
            continue;
        }
        let i = r.gen_range(0..n);
        let j = r.gen_range(0..n);
        let s = *POOL.choose(r).unwrap();
        match r.gen_range(0..12) {
            0..=3 => {
                let t = &mut ts[i];
                let h = hdr("y.add", "sym", &[i], i as i64, "add_symbol", &format!("\"x\":{}", jstr(s)));
                log.call(
                    &h,
                    || {
                        let l = t.add_symbol(s);
                        Ok((l, js(t)))
                    },
                    |(l, x)| Out::Fst(format!("{},\"ret\":{}", x, l)),
                );
            }
            4 => {
                let xs: Vec<&str> = (0..r.gen_range(0..4)).map(|_| *POOL.choose(r).unwrap()).collect();
                let t = &mut ts[i];
                let h = hdr("y.addall", "sym", &[i], i as i64, "add_symbols", &format!("\"x\":{}", strs(xs.iter().copied())));
                log.call(
                    &h,
                    || {
                        t.add_symbols(xs.clone());
                        Ok(js(t))
                    },
                    |x| Out::Fst(x.clone()),
                );
            }
            5 | 6 => {
                let u = ts[j].clone();
                let t = &mut ts[i];
                let h = hdr("y.merge", "sym", &[i, j], i as i64, "add_table", "");
                log.call(
                    &h,
                    || {
                        t.add_table(&u);
                        Ok(js(t))
                    },
                    |x| Out::Fst(x.clone()),
                );
            }
            7 => {
                let (a, b) = (&ts[i], &ts[j]);
                let h = hdr("y.eq", "sym", &[i, j], -1, "eq", "");
                log.call(&h, || Ok(a == b), |x| Out::Val(format!("{}", x)));
            }
            8 => {
                // copy over another register: by clone or through a file
                let k = r.gen_range(0..4);
                let t = &ts[i];
                let plain = t.symbols().all(|s| !s.is_empty() && !s.contains([' ', '\t', '\n']));
                let k = if plain { k } else { k % 2 };
                let h = hdr("y.copy", "sym", &[i], j as i64, ["clone", "binary", "text", "textfile"][k], "");
                if let Some(u) = log.call(
                    &h,
                    || {
                        Ok(match k {
                            0 => t.clone(),
                            1 => {
                                t.write(&p)?;
                                SymbolTable::read(&p)?
                            }
                            2 => SymbolTable::from_text_string(&t.text()?)?,
                            _ => {
                                t.write_text(&p)?;
                                SymbolTable::read_text(&p)?
                            }
                        })
                    },
                    |t| Out::Fst(js(t)),
                ) {
                    ts[j] = u;
                }
            }
            9 => {
                // as the table of a machine
                let t = Arc::new(ts[i].clone());
                let h = hdr("y.copy", "sym", &[i], j as i64, "attached", "");
                if let Some(u) = log.call(
                    &h,
                    || {
                        let mut f = VectorFst::<TropicalWeight>::new();
                        f.set_output_symbols(t.clone());
                        f.set_input_symbols(f.output_symbols().unwrap().clone());
                        f.add_state();
                        anyhow::ensure!(f.input_symbols() == f.output_symbols(), "tables differ");
                        f.take_output_symbols();
                        anyhow::ensure!(f.output_symbols().is_none(), "table not taken");
                        Ok((**f.input_symbols().unwrap()).clone())
                    },
                    |t| Out::Fst(js(t)),
                ) {
                    ts[j] = u;
                }
            }
            10 => ts[i].reserve(r.gen_range(0..10)),
            _ => {
                let t = &ts[i];
                let h = hdr("y.view", "sym", &[i], -1, "all", "");
                log.call(&h, || Ok(view(t)), |x| Out::Val(x.clone()));
            }
        }
    }
    for (i, t) in ts.iter().enumerate() {
        let h = hdr("y.view", "sym", &[i], -1, "all", "");
        log.call(&h, || Ok(view(t)), |x| Out::Val(x.clone()));
    }
}
fn main() {
    drive(run)
}
