//! Pushing and reweighting.
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::semirings::{WeaklyDivisibleSemiring, WeightQuantize};
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr + WeaklyDivisibleSemiring + WeightQuantize>(log: &mut Log, r: &mut Rng)
where
    <W as Semiring>::ReverseWeight: 'static,
{
    let mut g = Gen::random(r);
    convergent::<W>(r, &mut g);
    let l = pick_l(g.labels);
    let mut f: V<W> = gen_fst(r, &g);
    maybe_props(r, &mut f);
    let mut st = Store::new(log, vec![f]);
    for _ in 0..r.gen_range(1..=3) {
        let ini = r.gen_bool(0.5);
        let ty = || if ini { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal };
        let to = if ini { "initial" } else { "final" };
        let rt = r.gen_bool(0.35);
        match r.gen_range(0..7) {
            0..=2 => {
                let a = format!("\"L\":{},\"to\":\"{}\",\"rt\":{}", l, to, rt);
                st.apply(log, "push_weights", &[0], 1, "s", &a, |x| {
                    let mut x = x[0].clone();
                    push_weights_with_config(&mut x, ty(), PushWeightsConfig::default().with_remove_total_weight(rt).with_delta(1e-6))?;
                    Ok(x)
                });
            }
            3..=5 => {
                let lb = r.gen_bool(0.75);
                let w = !lb || (W::NAME == "real" && !g.acyclic) || r.gen_bool(0.5);
                let ra = lb && r.gen_bool(0.35);
                let rt = w && rt;
                let mut t = PushType::empty();
                if lb { t |= PushType::PUSH_LABELS }
                if w { t |= PushType::PUSH_WEIGHTS }
                if ra { t |= PushType::REMOVE_COMMON_AFFIX }
                if rt { t |= PushType::REMOVE_TOTAL_WEIGHT }
                let a = format!("\"L\":{},\"to\":\"{}\",\"rt\":{},\"ra\":{},\"lb\":{},\"wt\":{}", l, to, rt, ra, lb, w);
                st.apply(log, "push", &[0], 1, "s", &a, |x| push_with_config::<W, V<W>, V<W>>(&x[0], ty(), t, PushConfig::new(1e-6)));
            }
            _ => {
                let n = st.regs[0].num_states();
                let pots: Vec<W> = (0..n).map(|_| if r.gen_bool(0.3) { W::one() } else { W::rndf(r) }).collect();
                st.apply(log, "reweight", &[0], 1, "s", &format!("\"L\":{},\"to\":\"{}\"", l, to), |x| {
                    let mut x = x[0].clone();
                    reweight(&mut x, &pots, ty())?;
                    Ok(x)
                });
            }
        }
        if st.regs.len() < 2 {
            break;
        }
        if r.gen_bool(0.3) && st.regs[1].num_states() < 8 {
            // push a pushed machine
            st.apply(log, "push_weights", &[1], 1, "s", &format!("\"L\":{},\"to\":\"{}\",\"rt\":false", l, to), |x| {
                let mut x = x[1].clone();
                push_weights_with_config(&mut x, ty(), PushWeightsConfig::default().with_delta(1e-6))?;
                Ok(x)
            });
        }
        st.regs.truncate(1);
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
