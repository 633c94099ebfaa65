//! Epsilon removal, in place and lazy.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::rm_epsilon::{rm_epsilon, RmEpsilonFst};
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.peps_i = *[0.3, 0.5, 0.7].choose(r).unwrap();
    g.peps_o = *[0.5, 0.8].choose(r).unwrap();
    g.acceptor = r.gen_bool(0.4);
    if r.gen_bool(0.3) {
        g.max_states = 6;
        g.min_states = 3;
    }
    if W::NAME == "real" {
        g.small = true;
        g.unweighted = false;
    } else if !W::cyc_ok() {
        g.eps_acyclic = true;
    }
    let l = if g.max_states > 5 { pick_l(g.labels).min(3) } else { pick_l(g.labels) };
    let mut f: V<W> = gen_fst(r, &g);
    if r.gen_bool(0.2) && g.acyclic {
        let _ = top_sort(&mut f);
    }
    maybe_props(r, &mut f);
    let mut st = Store::new(log, vec![f]);
    let la = format!("\"L\":{}", l);
    st.apply(log, "rm_epsilon", &[0], 1, "static", &la, |x| {
        let mut x = x[0].clone();
        rm_epsilon(&mut x)?;
        Ok(x)
    });
    if st.regs.len() == 2 {
        st.apply(log, "rm_epsilon", &[0], 2, "lazy", &la, |x| {
            let lz = RmEpsilonFst::<W, V<W>, V<W>>::new(x[0].clone())?;
            lz.compute()
        });
        if r.gen_bool(0.2) {
            // removal on an already epsilon-free machine
            st.apply(log, "rm_epsilon", &[1], 1, "static", &la, |x| {
                let mut x = x[1].clone();
                rm_epsilon(&mut x)?;
                Ok(x)
            });
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
