//! Shortest path, n-best, unique n-best (tropical).
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type W = TropicalWeight;
type V = VectorFst<W>;

fn run(log: &mut Log, r: &mut Rng, _c: u64, _o: &Opts) {
    let mut g = Gen::random(r);
    if r.gen_bool(0.3) {
        g.max_states = 6;
        g.min_states = 3;
    }
    let uniq_case = r.gen_bool(0.35);
    if uniq_case {
        g.acceptor = true;
        g.acyclic = true;
        g.peps_i = 0.0;
        g.modes = false;
        g.max_states = g.max_states.min(5);
    }
    let mut f: V = gen_fst(r, &g);
    maybe_props(r, &mut f);
    if r.gen_bool(0.15) {
        let _ = top_sort(&mut f);
    }
    let mut st = Store::new(log, vec![f]);
    for _ in 0..2 {
        let n: usize = *[1, 1, 2, 2, 3, 4, 7].choose(r).unwrap();
        let uniq = uniq_case && n > 1 && r.gen_bool(0.7);
        let asconst = r.gen_bool(0.2);
        st.apply(log, "shortest_path", &[0], 1, if asconst { "const" } else { "vec" }, &format!("\"n\":{},\"uniq\":{}", n, uniq), |x| {
            let cfg = ShortestPathConfig::default().with_nshortest(n).with_unique(uniq);
            if asconst {
                let c: ConstFst<W> = x[0].clone().into();
                shortest_path_with_config::<W, _, V>(&c, cfg)
            } else if n == 1 {
                shortest_path::<W, _, V>(&x[0])
            } else {
                shortest_path_with_config::<W, _, V>(&x[0], cfg)
            }
        });
        st.regs.truncate(1);
    }
}
fn main() {
    drive(run)
}
