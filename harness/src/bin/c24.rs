//! Random path generation with seeded and scripted selectors.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::randgen::{randgen, randgen_with_config, RandGenConfig, TrSelector, UniformTrSelector};
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type W = LogWeight;
type V = VectorFst<W>;

/// Selector whose choices follow a script: last option, first option, round robin or a seeded mix.
#[derive(Debug, Clone)]
struct Script {
    mode: u8,
    k: usize,
}
impl TrSelector for Script {
    fn select_tr<W2: Semiring, F: Fst<W2>>(&mut self, fst: &F, state: StateId) -> anyhow::Result<usize> {
        let n = fst.num_trs(state)? + fst.is_final(state)? as usize;
        self.k = self.k.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        Ok(match self.mode {
            0 => n - 1,
            1 => 0,
            2 => (self.k >> 33) % n,
            _ => {
                // mostly leave, so that cyclic machines end
                if (self.k >> 40) % 3 > 0 { n - 1 } else { (self.k >> 33) % n }
            }
        })
    }
}
fn cfg<S: TrSelector>(s: S, n: usize, max: Option<usize>, weighted: bool, total: bool) -> RandGenConfig<S> {
    let c = RandGenConfig::new(s).with_npath(n).with_weighted(weighted).with_remove_total_weight(total);
    match max {
        Some(m) => c.with_max_length(m),
        None => c,
    }
}
fn full(r: &mut Rng) -> V {
    let mut f = V::new();
    f.add_states(4);
    f.set_start(0).unwrap();
    f.set_final(1, W::one()).unwrap();
    f.set_final(2, W::rndf(r)).unwrap();
    for i in 0..r.gen_range(1..=3) {
        f.add_tr(0, Tr::new(i, i, W::rnd(r), if r.gen_bool(0.8) { 1 } else { 2 })).unwrap();
    }
    for i in 0..r.gen_range(0..=2) {
        f.add_tr(1, Tr::new(i, i + 1, W::rnd(r), 2)).unwrap();
    }
    f.del_states(vec![3]).unwrap();
    f
}
fn run(log: &mut Log, r: &mut Rng, _c: u64, _o: &Opts) {
    let isfull = r.gen_bool(0.04);
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(5);
    g.min_states = g.min_states.min(g.max_states);
    let bounded = r.gen_bool(0.4);
    let mut f: V = if isfull { full(r) } else { gen_fst(r, &g) };
    let seeded = isfull || r.gen_bool(0.6);
    let mut max = None;
    if !isfull {
        if bounded {
            max = Some(r.gen_range(0..6usize));
        } else if r.gen_bool(0.6) {
            connect(&mut f).unwrap();
        } else {
            g.acyclic = true;
            f = gen_fst(r, &g);
        }
    }
    maybe_props(r, &mut f);
    let cyclic = !f.compute_and_update_properties(rustfst::fst_properties::FstProperties::ACYCLIC).unwrap().contains(rustfst::fst_properties::FstProperties::ACYCLIC);
    let n = if isfull { 200 } else { *[0usize, 1, 1, 2, 3, 5, 8, 16].choose(r).unwrap() };
    let weighted = r.gen_bool(0.4) && !isfull;
    let total = r.gen_bool(0.4);
    let mut st = Store::new(log, vec![f]);
    let seed: u64 = r.gen();
    let mode = if max.is_none() && cyclic { 3 } else { r.gen_range(0..4) };
    let simple = !isfull && max.is_none() && r.gen_bool(0.05);
    let (n, weighted, total) = if simple { (1, false, false) } else { (n, weighted, total) };
    let args = |again: &str| {
        format!(
            "\"n\":{},\"max\":{},\"weighted\":{},\"total\":{},\"full\":{},\"again\":\"{}\"",
            n,
            max.map(|x| x as i64).unwrap_or(-1),
            weighted,
            total,
            isfull,
            again
        )
    };
    let f = st.regs[0].clone();
    let once = || -> anyhow::Result<V> {
        if simple {
            randgen(&f)
        } else if seeded {
            randgen_with_config(&f, cfg(UniformTrSelector::from_seed(seed), n, max, weighted, total))
        } else {
            randgen_with_config(&f, cfg(Script { mode, k: seed as usize }, n, max, weighted, total))
        }
    };
    // the second run is compared with the first before the event is logged
    let again = if simple {
        ""
    } else {
        match guarded(|| Ok((once()?, once()?))) {
            Ok((a, b)) => {
                if a == b && proj(&a) == proj(&b) {
                    "same"
                } else {
                    "differs"
                }
            }
            Err(_) => "",
        }
    };
    st.apply(log, "randgen", &[0], 1, if simple { "default" } else if seeded { "uniform" } else { "script" }, &args(again), |_| once());
}
fn main() {
    drive(run)
}
