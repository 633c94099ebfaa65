//! Determinization.
use rand::Rng as _;
use rustfst::algorithms::determinize::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::semirings::{WeaklyDivisibleSemiring, WeightQuantize};
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr + WeaklyDivisibleSemiring + WeightQuantize>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(5);
    let kind = r.gen_range(0..6);
    g.acceptor = kind <= 2;
    let mut f: V<W> = match kind {
        0 | 3 => {
            g.acyclic = true;
            gen_fst(r, &g)
        }
        1 => {
            g.unweighted = W::NAME == "trop";
            g.acyclic = W::NAME != "trop";
            gen_fst(r, &g)
        }
        4 => {
            // ambiguity in outputs only: few inputs
            g.acyclic = true;
            g.labels = 2;
            g.peps_i = 0.0;
            gen_fst(r, &g)
        }
        _ => {
            g.max_states = g.max_states.clamp(2, 4);
            g.min_states = 2;
            g.acyclic = W::NAME != "trop";
            let d = gen_det::<W>(r, &g);
            let k = r.gen_range(1..=2);
            split_states(r, &d, k, W::NAME != "trop")
        }
    };
    if r.gen_bool(0.6) {
        let _ = f.compute_and_update_properties_all();
    }
    let l = pick_l(g.labels);
    let mut st = Store::new(log, vec![f]);
    let isacc = st.regs[0].properties().contains(FstProperties::ACCEPTOR);
    let tys: &[(&str, DeterminizeType)] = &[
        ("fun", DeterminizeType::DeterminizeFunctional),
        ("nonfun", DeterminizeType::DeterminizeNonFunctional),
        ("dis", DeterminizeType::DeterminizeDisambiguate),
    ];
    for (name, ty) in tys {
        if *name == "dis" && W::NAME != "trop" {
            continue;
        }
        let a = format!("\"L\":{},\"ty\":\"{}\",\"acc\":{}", l, name, isacc);
        st.apply(log, "determinize", &[0], 1, "s", &a, |x| {
            let mut cfg = DeterminizeConfig::default().with_det_type(*ty);
            if W::NAME == "real" {
                cfg = cfg.with_delta(1e-5);
            }
            if *name == "fun" && W::NAME != "real" {
                determinize::<W, V<W>, V<W>>(&x[0])
            } else {
                determinize_with_config::<W, V<W>, V<W>>(&x[0], cfg)
            }
        });
        st.regs.truncate(1);
    }
    if isacc {
        // the distances to the final states are carried over to the result
        let a = format!("\"L\":{}", l);
        st.query(log, "det_dist", &[0], "s", &a, |x| {
            let d = shortest_distance(&x[0], true)?;
            let (m, od): (V<W>, Vec<W>) = determinize_with_distance(&x[0], &d, if W::NAME == "real" { 1e-5 } else { KDELTA })?;
            let ds: Vec<String> = od.iter().map(|w| w.enc().to_string()).collect();
            Ok(format!("{{\"m\":{},\"d\":[{}]}}", proj(&m), ds.join(",")))
        });
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0..=2 => go::<TropicalWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
