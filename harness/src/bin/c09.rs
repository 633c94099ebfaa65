//! Minimization.
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::semirings::{WeaklyDivisibleSemiring, WeightQuantize};
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr + WeaklyDivisibleSemiring + WeightQuantize>(log: &mut Log, r: &mut Rng)
where
    W::ReverseWeight: WeightQuantize,
{
    let mut g = Gen::random(r);
    g.max_states = r.gen_range(1..=6);
    g.min_states = 1;
    g.acceptor = r.gen_bool(0.7);
    g.unweighted = r.gen_bool(0.4) && W::NAME == "trop";
    g.acyclic = r.gen_bool(0.5);
    g.labels = *[1, 2, 2, 3][..].get(r.gen_range(0..4)).unwrap();
    g.small = W::NAME == "real" && !g.acyclic;
    let nondet = r.gen_bool(0.25);
    let mut f: V<W> = if nondet && r.gen_bool(0.6) {
        g.max_states = g.max_states.min(4);
        g.min_states = 0;
        gen_fst(r, &g)
    } else {
        let d = gen_det::<W>(r, &g);
        let k = r.gen_range(0..=4);
        split_states(r, &d, k, !(nondet && W::NAME == "trop"))
    };
    if g.acceptor && !g.unweighted && r.gen_bool(0.1) {
        // weighted by its final weights only
        for q in 0..f.num_states() {
            let ts: Vec<_> = f.pop_trs(q as StateId).unwrap();
            for t in ts {
                f.add_tr(q as StateId, Tr::new(t.ilabel, t.olabel, W::one(), t.nextstate)).unwrap();
            }
        }
        if W::NAME == "real" && !g.acyclic {
            return;
        }
    }
    if r.gen_bool(0.3) {
        let _ = f.compute_and_update_properties_all();
    }
    let l = if f.num_states() > 6 && g.labels == 1 { 7 } else { pick_l(g.labels) };
    let allow = r.gen_bool(0.5);
    let dflt = !allow && W::NAME == "trop" && r.gen_bool(0.5);
    let a = format!("\"L\":{},\"nd\":{}", l, allow);
    let mut st = Store::new(log, vec![f]);
    st.apply(log, "minimize", &[0], 1, "s", &a, |x| {
        let mut y = x[0].clone();
        if dflt {
            minimize(&mut y)?;
        } else {
            let d = if W::NAME == "real" { 1e-4 } else { 1e-6 };
            minimize_with_config(&mut y, MinimizeConfig::new(d, allow))?;
        }
        Ok(y)
    });
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 5 {
        0..=3 => go::<TropicalWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
