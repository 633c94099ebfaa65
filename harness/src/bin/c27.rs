//! Pipelines of meaning-preserving operations on one machine, with whatever property
//! knowledge the previous steps left behind.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use rustfst::semirings::{SerializableSemiring, WeaklyDivisibleSemiring, WeightQuantize};
use vharness::*;
type V<W> = VectorFst<W>;

fn has<W: Sr>(f: &V<W>, p: FstProperties) -> bool {
    let mut g = f.clone();
    g.compute_and_update_properties_all().map(|x| x.contains(p)).unwrap_or(false)
}
/// determinizable for sure: acyclic, deterministic already, or unweighted over an idempotent semiring
fn can_det<W: Sr>(f: &V<W>) -> bool {
    has(f, FstProperties::ACYCLIC) || has(f, FstProperties::I_DETERMINISTIC) || (W::NAME == "trop" && has(f, FstProperties::UNWEIGHTED))
}
fn go<W>(log: &mut Log, r: &mut Rng, rev2: fn(&V<W>) -> anyhow::Result<V<W>>)
where
    W: Sr + WeaklyDivisibleSemiring + WeightQuantize + SerializableSemiring,
    W::ReverseWeight: WeightQuantize,
{
    let real = W::NAME == "real";
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(5);
    g.acceptor = r.gen_bool(0.5);
    if real {
        g.small = true;
        g.unweighted = false;
        if r.gen_bool(0.6) {
            g.acyclic = true;
        }
    } else if r.gen_bool(0.3) {
        g.unweighted = true;
    }
    let l = if g.max_states > 4 { pick_l(g.labels).min(3) } else { pick_l(g.labels) };
    let mut f: V<W> = if r.gen_bool(0.25) {
        g.min_states = g.min_states.max(1);
        g.max_states = g.max_states.max(1);
        let d = gen_det(r, &g);
        let k = r.gen_range(0..=2);
        split_states(r, &d, k, true)
    } else {
        gen_fst(r, &g)
    };
    maybe_props(r, &mut f);
    let mut st = Store::new(log, vec![f.clone(), f]);
    let la = format!("\"L\":{}", l);
    let eps = if real { 1e-5f32 } else { 1e-6 };
    for _ in 0..r.gen_range(2..=6) {
        if st.regs[1].num_states() > 16 {
            break;
        }
        let x = st.regs[1].clone();
        let ok = match r.gen_range(0..18) {
            0 => st.apply(log, "connect", &[1], 1, "s", &la, |_| {
                let mut x = x;
                connect(&mut x)?;
                Ok(x)
            }),
            1 | 2 => st.apply(log, "rm_epsilon", &[1], 1, "s", &la, |_| {
                let mut x = x;
                rm_epsilon(&mut x)?;
                Ok(x)
            }),
            3 => {
                let side = r.gen_bool(0.5);
                st.apply(log, "tr_sort", &[1], 1, "s", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |_| {
                    let mut x = x;
                    if side {
                        tr_sort(&mut x, ILabelCompare {});
                    } else {
                        tr_sort(&mut x, OLabelCompare {});
                    }
                    Ok(x)
                })
            }
            4 => st.apply(log, "top_sort", &[1], 1, "s", &la, |_| {
                let mut x = x;
                top_sort(&mut x)?;
                Ok(x)
            }),
            5 => st.apply(log, "tr_sum", &[1], 1, "s", &la, |_| {
                let mut x = x;
                tr_sum(&mut x);
                Ok(x)
            }),
            6 => {
                let ini = r.gen_bool(0.5);
                st.apply(log, "push_weights", &[1], 1, "s", &format!("\"L\":{},\"to\":\"{}\",\"rt\":false", l, if ini { "initial" } else { "final" }), |_| {
                    let mut x = x;
                    push_weights_with_config(
                        &mut x,
                        if ini { ReweightType::ReweightToInitial } else { ReweightType::ReweightToFinal },
                        PushWeightsConfig::default().with_delta(1e-6),
                    )?;
                    Ok(x)
                })
            }
            7 | 8 => {
                if !can_det(&x) || !has(&x, FstProperties::ACCEPTOR) {
                    continue;
                }
                let isacc = x.properties().contains(FstProperties::ACCEPTOR);
                st.apply(log, "determinize", &[1], 1, "s", &format!("\"L\":{},\"ty\":\"fun\",\"acc\":{}", l, isacc), |_| {
                    determinize_with_config::<W, V<W>, V<W>>(&x, DeterminizeConfig::default().with_delta(eps))
                })
            }
            9 | 10 => {
                let nd = W::NAME == "trop" && has(&x, FstProperties::ACCEPTOR);
                if !nd && !has(&x, FstProperties::I_DETERMINISTIC) {
                    continue;
                }
                st.apply(log, "minimize", &[1], 1, "s", &format!("\"L\":{},\"nd\":{}", l, nd), |_| {
                    let mut x = x;
                    minimize_with_config(&mut x, MinimizeConfig::new(eps, nd))?;
                    Ok(x)
                })
            }
            11 | 12 => {
                if real && r.gen_bool(0.5) {
                    continue;
                }
                st.apply(log, "keep", &[1], 1, "optimize", &la, |_| {
                    let mut x = x;
                    optimize(&mut x)?;
                    Ok(x)
                })
            }
            13 | 14 => {
                // a detour through an encoding
                let ty = *[EncodeType::EncodeLabels, EncodeType::EncodeWeights, EncodeType::EncodeWeightsAndLabels].choose(r).unwrap();
                let k = r.gen_range(0..5);
                // encoded weights may only be merged where adding a weight to itself changes nothing
                let ty = if real && k != 2 && k != 4 { EncodeType::EncodeLabels } else { ty };
                st.apply(log, "keep", &[1], 1, ["enc-det", "enc-min", "enc-connect", "enc-sum", "enc-sort"][k], &la, |_| {
                    let mut x = x;
                    let t = encode(&mut x, ty)?;
                    match k {
                        0 => {
                            if can_det(&x) && (has(&x, FstProperties::ACCEPTOR) || has(&x, FstProperties::ACYCLIC)) {
                                x = determinize_with_config::<W, V<W>, V<W>>(&x, DeterminizeConfig::default().with_det_type(DeterminizeType::DeterminizeNonFunctional).with_delta(eps))?;
                            }
                        }
                        1 => {
                            if has(&x, FstProperties::I_DETERMINISTIC) {
                                minimize_with_config(&mut x, MinimizeConfig::new(eps, false))?;
                            }
                        }
                        2 => connect(&mut x)?,
                        3 => tr_sum(&mut x),
                        _ => tr_sort(&mut x, ILabelCompare {}),
                    }
                    decode(&mut x, t)?;
                    Ok(x)
                })
            }
            15 => st.apply(log, "keep", &[1], 1, "reverse-twice", &la, |_| rev2(&x)),
            16 => {
                let k = r.gen_range(0..3);
                st.apply(log, "keep", &[1], 1, ["binary", "const", "invert-twice"][k], &la, |_| {
                    Ok(match k {
                        0 => {
                            let mut b = vec![];
                            x.store(&mut b)?;
                            V::<W>::load(&b)?
                        }
                        1 => {
                            let c: ConstFst<W> = x.into();
                            let mut b = vec![];
                            c.store(&mut b)?;
                            let c = ConstFst::<W>::load(&b)?;
                            fst_convert_from_ref::<W, ConstFst<W>, V<W>>(&c)
                        }
                        _ => {
                            let mut x = x;
                            invert(&mut x);
                            invert(&mut x);
                            x
                        }
                    })
                })
            }
            _ => {
                // the client edits the machine: a new baseline with the property bits the edits left
                if real {
                    continue;
                }
                let mut x = x;
                let _ = x.compute_and_update_properties_all();
                for _ in 0..r.gen_range(1..=3) {
                    let n = x.num_states();
                    if n == 0 {
                        break;
                    }
                    let q = r.gen_range(0..n) as StateId;
                    match r.gen_range(0..5) {
                        0 | 1 => {
                            let il = r.gen_range(0..=g.labels) as Label;
                            let ol = if g.acceptor { il } else { r.gen_range(0..=g.labels) as Label };
                            let w = if r.gen_bool(0.5) { W::one() } else { W::rnd(r) };
                            let _ = x.add_tr(q, Tr::new(il, ol, w, r.gen_range(0..n) as StateId));
                        }
                        2 => {
                            let _ = x.set_final(q, W::rndf(r));
                        }
                        3 => {
                            let _ = x.delete_final_weight(q);
                        }
                        _ => {
                            let _ = x.set_start(q);
                        }
                    }
                }
                st.regs[0] = x.clone();
                st.regs[1] = x;
                log.new_reg(0, &st.regs[0]);
                log.new_reg(1, &st.regs[1]);
                true
            }
        };
        if !ok {
            return;
        }
        if r.gen_bool(0.25) {
            let _ = st.regs[1].compute_and_update_properties_all();
        }
    }
    st.query(log, "pipe", &[0, 1], "s", &la, |_| Ok("0".into()));
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 5 {
        0..=3 => go::<TropicalWeight>(log, r, |f| {
            let a: V<TropicalWeight> = reverse(f)?;
            reverse(&a)
        }),
        _ => go::<LogWeight>(log, r, |f| {
            let a: V<LogWeight> = reverse(f)?;
            reverse(&a)
        }),
    }
}
fn main() {
    drive(run)
}
