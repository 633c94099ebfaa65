//! Path iteration, membership of a path, strings, and label sequences to machines and back.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::prelude::*;
use rustfst::utils::*;
use rustfst::{check_path_in_fst, FstPath, SymbolTable};
use vharness::*;
type V<W> = VectorFst<W>;

fn ls(v: &[Label]) -> String {
    format!("[{}]", v.iter().map(|x| lab(*x).to_string()).collect::<Vec<_>>().join(","))
}
fn pj<W: Semiring>(p: &FstPath<W>, e: &dyn Fn(&W) -> String) -> String {
    format!("[{},{},{}]", ls(&p.ilabels), ls(&p.olabels), e(&p.weight))
}
fn many<T>(v: Vec<T>, f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
fn mach<W: Semiring>(f: &V<W>, e: &dyn Fn(&W) -> String) -> String {
    let n = f.num_states();
    let fs: Vec<String> = (0..n).map(|q| f.final_weight(q as StateId).unwrap().map(|w| format!("[{}]", e(&w))).unwrap_or("[]".into())).collect();
    let aa: Vec<String> = (0..n)
        .map(|q| many(f.get_trs(q as StateId).unwrap().trs().to_vec(), |t| format!("[{},{},{},{}]", t.ilabel, t.olabel, e(&t.weight), t.nextstate)))
        .collect();
    format!("{{\"s\":{},\"f\":[{}],\"a\":[{}]}}", opt(f.start()), fs.join(","), aa.join(","))
}
fn iter_and_decode<W: Semiring>(log: &mut Log, f: &V<W>, sr: &str, e: &dyn Fn(&W) -> String, how: u8) {
    let x = format!("\"x\":{}", mach(f, e));
    log.call(
        &hdr("p.iter", sr, &[], -1, ["vec", "const", "dec"][how as usize], &x),
        || {
            Ok(match how {
                0 => many(f.paths_iter().collect(), |p| pj(p, e)),
                1 => many(ConstFst::<W>::from(f.clone()).paths_iter().collect(), |p| pj(p, e)),
                _ => {
                    // element by element, continuing after the end
                    let mut it = f.paths_iter();
                    let mut v = vec![];
                    while let Some(p) = it.next() {
                        v.push(p);
                    }
                    if it.next().is_some() {
                        anyhow::bail!("path after the end")
                    }
                    many(v, |p| pj(p, e))
                }
            })
        },
        |s| Out::Val(s.clone()),
    );
    log.call(&hdr("p.decode", sr, &[], -1, "s", &x), || Ok(pj(&decode_linear_fst(f)?, e)), |s| Out::Val(s.clone()));
}
fn labels(r: &mut Rng, n: usize) -> Vec<Label> {
    (0..r.gen_range(0..=n)).map(|_| r.gen_range(0..=4)).collect()
}
fn table(r: &mut Rng, g: &Gen) -> (SymbolTable, String) {
    let mut t = if r.gen_bool(0.5) { SymbolTable::new() } else { SymbolTable::empty() };
    let mut v = vec![];
    for l in 0..=(g.labels + 1) {
        if r.gen_bool(0.85) {
            let s = ["a", "b b", "<x>", "é", "dd", "q\"", "\\"].choose(r).unwrap().to_string() + &l.to_string();
            t.add_symbol(&s);
        }
    }
    for (l, s) in t.iter() {
        v.push(format!("[{},{}]", l, jstr(s)));
    }
    (t, format!("[{}]", v.join(",")))
}
fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let e = |w: &W| w.enc().to_string();
    let mut g = Gen::random(r);
    match r.gen_range(0..8) {
        0..=2 => {
            g.acyclic = true;
            if r.gen_bool(0.4) {
                g.max_arcs = 1;
            }
            let mut f: V<W> = gen_fst(r, &g);
            maybe_props(r, &mut f);
            iter_and_decode(log, &f, W::NAME, &e, r.gen_range(0..3));
        }
        3 => {
            g.acyclic = true;
            let mut f: V<W> = gen_fst(r, &g);
            let (it, ij) = table(r, &g);
            let (ot, oj) = table(r, &g);
            let (hi, ho) = (r.gen_bool(0.9), r.gen_bool(0.9));
            if hi {
                f.set_input_symbols(arc(it));
            }
            if ho {
                f.set_output_symbols(arc(ot));
            }
            let mut st = Store::new(log, vec![f]);
            let o = |x: anyhow::Result<String>| x.map(|s| format!("[{}]", jstr(&s))).unwrap_or("[]".into());
            st.query(log, "p.strings", &[0], "s", &format!("\"hi\":{},\"ho\":{},\"it\":{},\"ot\":{}", hi, ho, ij, oj), |fs| {
                Ok(many(fs[0].string_paths_iter()?.collect(), |p| {
                    format!("[{},{},{},{},{}]", ls(p.ilabels()), ls(p.olabels()), p.weight().enc(), o(p.istring()), o(p.ostring()))
                }))
            });
        }
        4 | 5 => {
            // membership of a path; no cycle consumes nothing
            g.acyclic = r.gen_bool(0.6);
            if !g.acyclic {
                g.peps_i = 0.0;
            }
            let f: V<W> = gen_fst(r, &g);
            if !g.acyclic {
                for q in f.states_iter() {
                    if f.get_trs(q).unwrap().trs().iter().any(|t| t.ilabel == 0) {
                        return;
                    }
                }
            }
            let mut cand: Vec<FstPath<W>> = f.paths_iter().take(12).collect_limited(&f, g.acyclic);
            for _ in 0..2 {
                cand.push(FstPath::new(labels(r, 3), labels(r, 3).into_iter().filter(|x| *x != 0).collect(), W::rnd(r)));
            }
            let mut st = Store::new(log, vec![f]);
            for _ in 0..4 {
                let mut p = cand.choose(r).unwrap().clone();
                p.ilabels.retain(|x| *x != 0);
                match r.gen_range(0..8) {
                    0 => p.weight = W::rnd(r),
                    1 => {
                        p.olabels.pop();
                    }
                    2 => p.olabels.push(r.gen_range(1..=3)),
                    3 if !p.ilabels.is_empty() => {
                        let i = r.gen_range(0..p.ilabels.len());
                        p.ilabels[i] = r.gen_range(1..=3);
                    }
                    4 if !p.olabels.is_empty() => {
                        let i = r.gen_range(0..p.olabels.len());
                        p.olabels[i] = r.gen_range(1..=3);
                    }
                    _ => {}
                }
                st.query(log, "p.check", &[0], "s", &format!("\"pi\":{},\"po\":{},\"w\":{}", ls(&p.ilabels), ls(&p.olabels), p.weight.enc()), |fs| {
                    Ok(format!("{}", check_path_in_fst(&fs[0], &p)))
                });
            }
        }
        6 => {
            let (a, b) = (labels(r, 5), labels(r, 5));
            let w = W::rnd(r);
            let mut st: Store<W> = Store::new(log, vec![]);
            let acc = r.gen_bool(0.5);
            st.regs.push(V::new());
            log.new_reg(0, &st.regs[0]);
            if acc {
                st.apply(log, "p.acceptor", &[0], 0, "s", &format!("\"li\":{},\"w\":{}", ls(&a), w.enc()), |_| Ok(acceptor(&a, w.clone())));
            } else {
                st.apply(log, "p.transducer", &[0], 0, "s", &format!("\"li\":{},\"lo\":{},\"w\":{}", ls(&a), ls(&b), w.enc()), |_| Ok(transducer(&a, &b, w.clone())));
            }
            let f = st.regs[0].clone();
            iter_and_decode(log, &f, W::NAME, &e, 0);
        }
        _ => {
            let p = FstPath::new(labels(r, 3), labels(r, 3), W::rnd(r));
            let q = FstPath::new(labels(r, 3), labels(r, 3), W::rnd(r));
            let h = hdr("p.concat", W::NAME, &[], -1, "s", &format!("\"p\":{},\"q\":{}", pj(&p, &e), pj(&q, &e)));
            log.call(
                &h,
                || {
                    let mut x = p.clone();
                    x.concat(q.clone())?;
                    Ok(pj(&x, &e))
                },
                |s| Out::Val(s.clone()),
            );
        }
    }
}
/// At most a dozen paths; for cyclic machines only if the iterator cannot run away.
trait CollectLimited<W: Semiring> {
    fn collect_limited(self, f: &V<W>, acyclic: bool) -> Vec<FstPath<W>>;
}
impl<W: Semiring, I: Iterator<Item = FstPath<W>>> CollectLimited<W> for I {
    fn collect_limited(self, f: &V<W>, acyclic: bool) -> Vec<FstPath<W>> {
        let mut g = f.clone();
        rustfst::algorithms::connect(&mut g).unwrap();
        if acyclic {
            self.collect()
        } else {
            g.paths_iter().take(6).collect()
        }
    }
}
fn strings(log: &mut Log, r: &mut Rng) {
    type S = StringWeightLeft;
    let mut g = Gen::random(r);
    g.acyclic = true;
    let b: V<BooleanWeight> = gen_fst(r, &g);
    let mut f = V::<S>::new();
    for q in b.states_iter() {
        f.add_state();
        let _ = q;
    }
    if let Some(s) = b.start() {
        f.set_start(s).unwrap();
    }
    let sw = |r: &mut Rng| -> S { S::from((0..r.gen_range(0..=2)).map(|_| r.gen_range(1..=5) as Label).collect::<Vec<_>>()) };
    for q in b.states_iter() {
        for t in b.get_trs(q).unwrap().trs() {
            f.add_tr(q, Tr::new(t.ilabel, t.olabel, sw(r), t.nextstate)).unwrap();
        }
        if b.is_final(q).unwrap() {
            f.set_final(q, sw(r)).unwrap();
        }
    }
    let e = |w: &S| if w.value().is_infinity() { "[999]".to_string() } else { ls(w.value().unwrap_labels()) };
    iter_and_decode(log, &f, "str", &e, r.gen_range(0..3));
    let p = FstPath::new(labels(r, 3), labels(r, 3), sw(r));
    let q = FstPath::new(labels(r, 3), labels(r, 3), sw(r));
    let h = hdr("p.concat", "str", &[], -1, "s", &format!("\"p\":{},\"q\":{}", pj(&p, &e), pj(&q, &e)));
    log.call(
        &h,
        || {
            let mut x = p.clone();
            x.concat(q.clone())?;
            Ok(pj(&x, &e))
        },
        |s| Out::Val(s.clone()),
    );
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 6 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 | 3 => go::<IntegerWeight>(log, r),
        4 => go::<BooleanWeight>(log, r),
        _ => strings(log, r),
    }
}
fn main() {
    drive(run)
}
