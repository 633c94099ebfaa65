//! Operations on machines over non-commutative weights (strings, gallic weights): weights multiply in path order.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::rm_epsilon::rm_epsilon;
use rustfst::algorithms::*;
use rustfst::prelude::closure::{closure, ClosureFst, ClosureType};
use rustfst::prelude::concat::{concat, ConcatFst};
use rustfst::prelude::determinize::determinize;
use rustfst::prelude::rm_epsilon::RmEpsilonFst;
use rustfst::prelude::union::{union, UnionFst};
use rustfst::prelude::*;
use rustfst::semirings::*;
use vharness::alts::*;
use vharness::*;

struct Shape {
    n: usize,
    acyclic: bool,
    eps_forward: bool,
    len: usize,
}
fn gen<A: Alts>(r: &mut Rng, s: &Shape) -> VectorFst<A> {
    let mut f = VectorFst::<A>::new();
    f.add_states(s.n);
    if r.gen_bool(0.97) {
        let q = if s.acyclic { 0 } else { r.gen_range(0..s.n) };
        f.set_start(q as StateId).unwrap();
    }
    for q in 0..s.n {
        if r.gen_bool(0.35) || q == s.n - 1 {
            f.set_final(q as StateId, A::make(r, s.len)).unwrap();
        }
        for _ in 0..r.gen_range(0..=2) {
            let mut il = r.gen_range(0..=2);
            let lo = if s.acyclic { q + 1 } else { 0 };
            if lo >= s.n {
                break;
            }
            let ns = r.gen_range(lo..s.n);
            if s.eps_forward && ns <= q && il == 0 {
                il = 1;
            }
            f.add_tr(q as StateId, Tr::new(il, il, A::make(r, s.len), ns as StateId)).unwrap();
        }
    }
    if r.gen_bool(0.4) {
        let _ = f.compute_and_update_properties_all();
    }
    f
}
fn shape(r: &mut Rng) -> Shape {
    let acyclic = r.gen_bool(0.6);
    Shape { n: r.gen_range(1..=4), acyclic, eps_forward: false, len: if acyclic { 2 } else { 1 } }
}
fn head<A: Alts>(op: &str, via: &str, l: usize, xs: &[&VectorFst<A>], more: &str) -> String {
    let v: Vec<String> = xs.iter().map(|x| gproj(*x)).collect();
    format!("\"op\":\"{}\",\"sr\":\"trop\",\"in\":[],\"out\":-1,\"L\":{},\"via\":\"{}\",\"kind\":\"{}\",\"x\":[{}]{}", op, l, via, A::KIND, v.join(","), more)
}
fn keep<A: Alts>(log: &mut Log, f: &VectorFst<A>, via: &str, l: usize, op: impl FnOnce(&mut VectorFst<A>) -> anyhow::Result<()>) {
    log.call(
        &head("n.same", via, l, &[f], ""),
        || {
            let mut x = f.clone();
            op(&mut x)?;
            Ok(x)
        },
        |y| Out::Val(gproj(y)),
    );
}
/// operations that never add weights
fn plain<A: Alts>(log: &mut Log, r: &mut Rng)
where
    A::ReverseWeight: Alts,
{
    let s = shape(r);
    let f = gen::<A>(r, &s);
    match r.gen_range(0..8) {
        0 => keep(log, &f, "connect", 4, |x| connect(x)),
        1 => keep(log, &f, "tr_sort", 4, |x| {
            tr_sort(x, ILabelCompare {});
            Ok(())
        }),
        2 => {
            let mut ord: Vec<StateId> = (0..s.n as StateId).collect();
            ord.shuffle(r);
            keep(log, &f, "state_sort", 4, |x| state_sort(x, &ord))
        }
        3 => keep(log, &f, "superfinal", 4, |x| {
            add_super_final_state(x);
            Ok(())
        }),
        4 => {
            let lazy = r.gen_bool(0.4);
            let star = r.gen_bool(0.5);
            let ty = if star { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
            let k = format!(",\"star\":{}", star);
            log.call(
                &head("n.closure", if lazy { "lazy" } else { "static" }, 4, &[&f], &k),
                || {
                    if lazy {
                        ClosureFst::new(f.clone(), ty)?.compute()
                    } else {
                        let mut x = f.clone();
                        closure(&mut x, ty);
                        Ok(x)
                    }
                },
                |y: &VectorFst<A>| Out::Val(gproj(y)),
            );
        }
        5 => {
            let t = shape(r);
            let g = gen::<A>(r, &t);
            let lazy = r.gen_bool(0.4);
            log.call(
                &head("n.concat", if lazy { "lazy" } else { "static" }, 4, &[&f, &g], ""),
                || {
                    if lazy {
                        ConcatFst::new(f.clone(), g.clone())?.compute()
                    } else {
                        let mut x = f.clone();
                        concat(&mut x, &g)?;
                        Ok(x)
                    }
                },
                |y: &VectorFst<A>| Out::Val(gproj(y)),
            );
        }
        6 => {
            let t = shape(r);
            let g = gen::<A>(r, &t);
            let lazy = r.gen_bool(0.4);
            log.call(
                &head("n.union", if lazy { "lazy" } else { "static" }, 4, &[&f, &g], ""),
                || {
                    if lazy {
                        UnionFst::new(f.clone(), g.clone())?.compute()
                    } else {
                        let mut x = f.clone();
                        union(&mut x, &g)?;
                        Ok(x)
                    }
                },
                |y: &VectorFst<A>| Out::Val(gproj(y)),
            );
        }
        _ => {
            log.call(&head("n.reverse", "", 4, &[&f], ""), || reverse::<A, _, VectorFst<A::ReverseWeight>>(&f), |y| Out::Val(gproj(y)));
        }
    }
    if s.acyclic {
        log.call(
            &head("n.paths", "", 4, &[&f], ""),
            || Ok(f.paths_iter().map(|p| format!("[{:?},{}]", p.ilabels, txt(&p.weight))).collect::<Vec<_>>()),
            |v| Out::Val(format!("[{}]", v.join(","))),
        );
    }
}
/// operations that add weights, over the gallic semiring proper (distributive on both sides)
fn sums(log: &mut Log, r: &mut Rng) {
    type A = GallicWeight<T>;
    let mut s = shape(r);
    let w = r.gen_range(0..5);
    s.acyclic |= w == 4;
    s.eps_forward = true;
    if s.acyclic {
        s.n = r.gen_range(2..=5);
        s.len = r.gen_range(1..=2);
    }
    let f = gen::<A>(r, &s);
    match w {
        0 => keep(log, &f, "rm_final_epsilon", 4, |x| rm_final_epsilon(x)),
        1 => keep(log, &f, "tr_sum", 4, |x| {
            tr_sum(x);
            Ok(())
        }),
        2 => keep(log, &f, "tr_unique", 4, |x| {
            tr_unique(x);
            Ok(())
        }),
        3 => {
            let lazy = r.gen_bool(0.4);
            log.call(
                &head("n.rmeps", if lazy { "lazy" } else { "static" }, 4, &[&f], ""),
                || {
                    if lazy {
                        RmEpsilonFst::new(f.clone())?.compute()
                    } else {
                        let mut x = f.clone();
                        rm_epsilon(&mut x)?;
                        Ok(x)
                    }
                },
                |y: &VectorFst<A>| Out::Val(gproj(y)),
            );
        }
        _ => dist(log, r, &f),
    }
}
fn dist<A: Alts>(log: &mut Log, r: &mut Rng, f: &VectorFst<A>) {
    let rev = match A::KIND {
        "sleft" | "left" => true,
        "sright" | "right" => false,
        _ => r.gen(),
    };
    log.call(
        &head("n.dist", "", 4, &[f], &format!(",\"rev\":{}", rev)),
        || shortest_distance(f, rev),
        |v| Out::Val(format!("[{}]", v.iter().map(txt).collect::<Vec<_>>().join(","))),
    );
}
/// right-distributive weights: pushing towards the final states, distances from the start
fn right<A: Alts + WeaklyDivisibleSemiring>(log: &mut Log, r: &mut Rng)
where
    <A as Semiring>::ReverseWeight: 'static,
{
    let n = r.gen_range(1..=5);
    let acyclic = r.gen_bool(0.7);
    let f = gen::<A>(r, &Shape { n, acyclic, eps_forward: false, len: if acyclic { 2 } else { 1 } });
    push_to(log, r, &f, acyclic, ReweightType::ReweightToFinal);
    if acyclic {
        dist(log, r, &f)
    }
}
fn push_to<A: Alts + WeaklyDivisibleSemiring>(log: &mut Log, r: &mut Rng, f: &VectorFst<A>, acyclic: bool, to: ReweightType) {
    let total = r.gen_bool(0.3);
    log.call(
        &head("n.push", "", 5, &[f], &format!(",\"total\":{},\"acyclic\":{}", total, acyclic)),
        || {
            let mut x = f.clone();
            if total {
                push_weights_with_config(&mut x, to, PushWeightsConfig::default().with_remove_total_weight(true))?;
            } else {
                push_weights(&mut x, to)?;
            }
            Ok(x)
        },
        |y| Out::Val(gproj(y)),
    );
}
/// left-distributive weights: pushing towards the initial state, determinization, distances to the final states
fn left<A: Alts + WeaklyDivisibleSemiring>(log: &mut Log, r: &mut Rng)
where
    <A as Semiring>::ReverseWeight: 'static,
{
    let acyclic = r.gen_bool(0.7);
    let n = r.gen_range(1..=5);
    let f = gen::<A>(r, &Shape { n, acyclic, eps_forward: false, len: if acyclic { 2 } else { 1 } });
    push_to(log, r, &f, acyclic, ReweightType::ReweightToInitial);
    if acyclic {
        dist(log, r, &f);
        log.call(&head("n.det", "", 7, &[&f], ""), || determinize::<A, _, VectorFst<A>>(&f), |y| Out::Val(gproj(y)));
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 16 {
        0 => plain::<GallicWeightLeft<T>>(log, r),
        1 => plain::<GallicWeightRight<T>>(log, r),
        2 => plain::<GallicWeightRestrict<T>>(log, r),
        3 => plain::<GallicWeightMin<T>>(log, r),
        4 => plain::<StringWeightLeft>(log, r),
        5 => plain::<StringWeightRight>(log, r),
        6 => plain::<StringWeightRestrict>(log, r),
        7 => plain::<GallicWeight<T>>(log, r),
        8..=11 => sums(log, r),
        12 => left::<StringWeightLeft>(log, r),
        13 => left::<GallicWeightLeft<T>>(log, r),
        14 => right::<StringWeightRight>(log, r),
        _ => right::<GallicWeightRight<T>>(log, r),
    }
}
fn main() {
    drive(run)
}
