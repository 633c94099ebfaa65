//! Weight factoring of gallic and string weighted machines.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::factor_weight::factor_iterators::*;
use rustfst::algorithms::factor_weight::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::semirings::*;
use vharness::alts::*;
use vharness::*;

fn go<A: Alts, FI: FactorIterator<A>>(log: &mut Log, r: &mut Rng) {
    let n = r.gen_range(1..=4);
    let mut f = VectorFst::<A>::new();
    f.add_states(n);
    if r.gen_bool(0.97) {
        f.set_start(0).unwrap();
    }
    let acyclic = r.gen_bool(0.6);
    for q in 0..n {
        if r.gen_bool(0.4) || q == n - 1 {
            let w = A::make(r, 3);
            f.set_final(q as StateId, w).unwrap();
        }
        for _ in 0..r.gen_range(0..=2) {
            let ns = if acyclic {
                if q + 1 == n {
                    break;
                }
                r.gen_range(q + 1..n)
            } else {
                r.gen_range(0..n)
            };
            let il = r.gen_range(0..=2);
            let w = A::make(r, if acyclic { 3 } else { 1 });
            f.add_tr(q as StateId, Tr::new(il, il, w, ns as StateId)).unwrap();
        }
    }
    if r.gen_bool(0.3) {
        let _ = f.compute_and_update_properties_all();
    }
    for (name, mode) in [
        ("f", FactorWeightType::FACTOR_FINAL_WEIGHTS),
        ("a", FactorWeightType::FACTOR_ARC_WEIGHTS),
        ("af", FactorWeightType::FACTOR_FINAL_WEIGHTS | FactorWeightType::FACTOR_ARC_WEIGHTS),
        ("", FactorWeightType::empty()),
    ] {
        if name.is_empty() && r.gen_bool(0.9) {
            continue;
        }
        let mut opts = FactorWeightOptions::new(mode);
        if r.gen_bool(0.4) {
            // labels of the final transitions, none of which occurs in the machine
            opts.final_ilabel = *[0, 20].choose(r).unwrap();
            opts.final_olabel = *[0, 20, 40].choose(r).unwrap();
            opts.increment_final_ilabel = opts.final_ilabel > 0 && r.gen();
            opts.increment_final_olabel = opts.final_olabel > 0 && r.gen();
        }
        let h = format!(
            "\"op\":\"factor_weight\",\"sr\":\"trop\",\"in\":[],\"out\":-1,\"L\":3,\"mode\":\"{}\",\"kind\":\"{}\",\"fin\":[{},{},{},{}],\"src\":{}",
            name, A::KIND, opts.final_ilabel, opts.final_olabel, opts.increment_final_ilabel as u8, opts.increment_final_olabel as u8, gproj(&f)
        );
        let fr = &f;
        log.call(
            &h,
            || factor_weight::<A, VectorFst<A>, _, VectorFst<A>, FI>(fr, opts),
            |y| Out::Val(format!("{{\"m\":{},\"acc\":{}}}", gproj(y), y.properties().contains(FstProperties::ACCEPTOR))),
        );
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 8 {
        0 => go::<GallicWeightLeft<T>, GallicFactorLeft<T>>(log, r),
        1 => go::<GallicWeightRight<T>, GallicFactorRight<T>>(log, r),
        2 => go::<GallicWeightRestrict<T>, GallicFactorRestrict<T>>(log, r),
        3 => go::<GallicWeightMin<T>, GallicFactorMin<T>>(log, r),
        4 => go::<StringWeightLeft, StringFactorLeft>(log, r),
        5 => go::<StringWeightRight, StringFactorRight>(log, r),
        6 => go::<StringWeightRestrict, StringFactorRestrict>(log, r),
        _ => go::<GallicWeight<T>, GallicFactor<T>>(log, r),
    }
}
fn main() {
    drive(run)
}
