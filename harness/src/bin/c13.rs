//! Meaning-preserving reorganisation: connect, sorts, tr_sum, tr_unique, condense, rm_final_epsilon, superfinal.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.dup = *[0.0, 0.2, 0.6].choose(r).unwrap();
    if r.gen_bool(0.3) {
        g.chain = false;
    }
    if r.gen_bool(0.3) {
        g.max_states = 2;
        g.max_arcs = 6;
        g.labels = 1;
    }
    if r.gen_bool(0.4) {
        // graph-heavy: larger, few finals, many cycles
        g.max_states = r.gen_range(4..=8);
        g.min_states = 4;
        g.max_arcs = r.gen_range(1..=3);
        g.labels = 2;
        g.pfinal = *[0.0, 0.05, 0.2].choose(r).unwrap();
        g.acyclic = r.gen_bool(0.2);
    }
    let l = if g.max_states > 5 { 2 } else { pick_l(g.labels) };
    let mut f: V<W> = gen_fst(r, &g);
    maybe_props(r, &mut f);
    let mut st = Store::new(log, vec![f]);
    for _ in 0..r.gen_range(1..=3) {
        let x = st.regs[0].clone();
        let la = format!("\"L\":{}", l);
        let ok = match r.gen_range(0..11) {
            0 | 1 => st.apply(log, "connect", &[0], 0, "s", &la, |_| {
                let mut x = x;
                connect(&mut x)?;
                Ok(x)
            }),
            2 => {
                let side = r.gen_bool(0.5);
                st.apply(log, "tr_sort", &[0], 0, "s", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |_| {
                    let mut x = x;
                    if side {
                        tr_sort(&mut x, ILabelCompare {})
                    } else {
                        tr_sort(&mut x, OLabelCompare {})
                    }
                    Ok(x)
                })
            }
            3 => {
                let mut ord: Vec<StateId> = (0..x.num_states() as StateId).collect();
                ord.shuffle(r);
                if r.gen_bool(0.1) {
                    ord.push(0);
                }
                st.apply(log, "state_sort", &[0], 0, "s", &format!("\"ord\":{:?}", ord), |_| {
                    let mut x = x;
                    state_sort(&mut x, &ord)?;
                    Ok(x)
                })
            }
            4 | 5 => st.apply(log, "top_sort", &[0], 0, "s", &la, |_| {
                let mut x = x;
                top_sort(&mut x)?;
                Ok(x)
            }),
            6 => st.apply(log, "tr_sum", &[0], 0, "s", &la, |_| {
                let mut x = x;
                tr_sum(&mut x);
                Ok(x)
            }),
            7 => st.apply(log, "tr_unique", &[0], 0, "s", &la, |_| {
                let mut x = x;
                tr_unique(&mut x);
                Ok(x)
            }),
            8 => st
                .query(log, "condense", &[0], "s", &la, |_| {
                    let (scc, o): (Vec<i32>, V<W>) = condense(&x)?;
                    Ok(format!("{{\"scc\":{:?},\"fst\":{}}}", scc, proj(&o)))
                })
                .is_some(),
            9 => st.apply(log, "rm_final_eps", &[0], 0, "s", &la, |_| {
                let mut x = x;
                rm_final_epsilon(&mut x)?;
                Ok(x)
            }),
            _ => st
                .query(log, "superfinal", &[0], "s", &la, |_| {
                    let mut x = x;
                    let q = add_super_final_state(&mut x);
                    Ok(format!("{{\"q\":{},\"fst\":{}}}", q, proj(&x)))
                })
                .is_some(),
        };
        if !ok {
            break;
        }
    }
}
/// Many small graphs, one DFS-based operation each.
fn graphs<W: Sr>(log: &mut Log, r: &mut Rng) {
    for _ in 0..6 {
        let mut g = Gen::default();
        g.max_states = r.gen_range(4..=7);
        g.min_states = 4;
        g.max_arcs = 3;
        g.labels = 2;
        g.pfinal = 0.0;
        g.live = 0.0;
        g.chain = r.gen_bool(0.3);
        g.acyclic = r.gen_bool(0.15);
        let mut f: V<W> = gen_fst(r, &g);
        let n = f.num_states() as StateId;
        for q in 0..n {
            f.delete_final_weight(q).unwrap();
        }
        f.set_final(r.gen_range(0..n), W::one()).unwrap();
        let mut st = Store::new(log, vec![f]);
        let x = st.regs[0].clone();
        match r.gen_range(0..6) {
            0..=3 => {
                st.apply(log, "connect", &[0], 0, "s", "\"L\":1", |_| {
                    let mut x = x;
                    connect(&mut x)?;
                    Ok(x)
                });
            }
            4 => {
                st.apply(log, "top_sort", &[0], 0, "s", "\"L\":1", |_| {
                    let mut x = x;
                    top_sort(&mut x)?;
                    Ok(x)
                });
            }
            _ => {
                st.query(log, "condense", &[0], "s", "\"L\":1", |_| {
                    let (scc, o): (Vec<i32>, V<W>) = condense(&x)?;
                    Ok(format!("{{\"scc\":{:?},\"fst\":{}}}", scc, proj(&o)))
                });
            }
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    if c % 5 == 4 {
        return graphs::<TropicalWeight>(log, r);
    }
    match c % 4 {
        0 => go::<TropicalWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        2 => go::<LogWeight>(log, r),
        _ => go::<ProbabilityWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
