//! Sessions on lazy machines: random access orders, repeated queries, several threads, every cache.
use rand::Rng as _;
use rustfst::algorithms::closure::{ClosureFst, ClosureType};
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::ConcatFst;
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::replace::ReplaceFst;
use rustfst::algorithms::rm_epsilon::RmEpsilonFst;
use rustfst::algorithms::union::UnionFst;
use rustfst::algorithms::*;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::{Trs, TrsVec};
use std::sync::{Arc, Barrier};
use vharness::session::*;
use vharness::*;
type V<W> = VectorFst<W>;
type A<W> = Arc<V<W>>;

fn single<W: Sr, F: Fst<W>>(f: &F, seed: u64, m: usize) -> anyhow::Result<Ans> {
    client(f, seed, m)
}
fn multi<W: Sr, F: Fst<W> + Sync>(f: &F, seed: u64, m: usize) -> anyhow::Result<Ans> {
    let t = (seed % 3) as usize + 1;
    if t == 1 {
        return client(f, seed, m);
    }
    let bar = Barrier::new(t);
    let mut all = Ans::new();
    let rs: Vec<_> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..t)
            .map(|i| {
                let bar = &bar;
                sc.spawn(move || {
                    bar.wait();
                    client(f, seed.wrapping_add(i as u64 * 7919), m)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    for x in rs {
        match x {
            Ok(a) => all.extend(a?),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    Ok(all)
}
#[derive(Debug, Clone)]
struct TableOp<W: Semiring>(V<W>);
impl<W: Sr> FstOp<W> for TableOp<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> {
        std::thread::yield_now();
        Ok(self.0.start())
    }
    fn compute_trs(&self, id: StateId) -> anyhow::Result<TrsVec<W>> {
        std::thread::yield_now();
        Ok(TrsVec(Arc::new(self.0.get_trs(id)?.trs().to_vec())))
    }
    fn compute_final_weight(&self, id: StateId) -> anyhow::Result<Option<W>> {
        std::thread::yield_now();
        self.0.final_weight(id)
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}
impl<W: Sr> FstOp2<W> for TableOp<W> {
    fn compute_start(&self) -> anyhow::Result<Option<StateId>> {
        Ok(self.0.start())
    }
    fn compute_trs_and_final_weight(&self, id: StateId) -> anyhow::Result<(TrsVec<W>, Option<W>)> {
        std::thread::yield_now();
        Ok((TrsVec(Arc::new(self.0.get_trs(id)?.trs().to_vec())), self.0.final_weight(id)?))
    }
    fn properties(&self) -> FstProperties {
        FstProperties::empty()
    }
}
/// Logs one session: the queries, then the machine materialised from the same instance and from a fresh one.
macro_rules! session {
    ($log:expr, $r:expr, $W:ty, $of:expr, $ins:expr, $args:expr, $via:expr, $may:expr, $run:ident, $mk:expr) => {{
        let seed: u64 = $r.gen();
        let m = $r.gen_range(0..40usize);
        let early = $r.gen_bool(0.2);
        let a = format!("\"of\":\"{}\",\"mayfail\":{},{}", $of, $may, $args);
        let h = hdr("lazy", <$W>::NAME, $ins, -1, $via, &a);
        $log.call(
            &h,
            || {
                let f = ($mk)()?;
                if early {
                    // materialised before anyone asks
                    let _: V<$W> = f.compute()?;
                }
                let mut ans = $run(&f, seed, m)?;
                if $of != "table" && $of != "rm_epsilon" && seed % 4 < 2 {
                    ans.extend(enumerate(&f, seed % 4 == 0));
                }
                let v: V<$W> = f.compute()?;
                let g = ($mk)()?;
                let w: V<$W> = g.compute()?;
                // reading by walking a third instance depth first gives the same table up to numbering
                Ok(format!("{},\"seq\":{},\"ans\":{}", proj(&v), if early { proj_walk(&($mk)()?, 5000, true)? } else { proj(&w) }, ans_json(&ans)))
            },
            |s| Out::Fst(s.clone()),
        );
    }};
}
type Sm<W> = SortedMatcher<W, V<W>, A<W>>;
type Seq<W> = SequenceComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Alt<W> = AltSequenceComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Mat<W> = MatchComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Cf<W, B, C> = ComposeFst<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>, B, C>;

fn go<W: Sr + Sync + Send>(log: &mut Log, r: &mut Rng) {
    let mk = |r: &mut Rng, small: bool| {
        let mut g = Gen::random(r);
        if small {
            g.max_states = g.max_states.min(3);
            g.min_states = g.min_states.min(g.max_states);
            g.max_arcs = g.max_arcs.min(2);
            g.labels = g.labels.min(2);
        }
        convergent::<W>(r, &mut g);
        gen_fst::<W>(r, &g)
    };
    match r.gen_range(0..10) {
        0..=3 => {
            let f: V<W> = mk(r, false);
            log.new_reg(0, &f);
            macro_rules! t {
                ($L:ident, $C:ty, $n:expr) => {
                    session!(log, r, W, "table", &[0], "\"L\":2", $n, false, multi, || Ok::<_, anyhow::Error>($L::<W, TableOp<W>, $C>::from_op_and_cache(TableOp(f.clone()), <$C>::default(), None, None)))
                };
            }
            match r.gen_range(0..8) {
                0 => t!(LazyFst, SimpleHashMapCache<W>, "hash"),
                1 => t!(LazyFst, SimpleVecCache<W>, "vec"),
                2 => t!(LazyFst, FirstCache<W, SimpleHashMapCache<W>>, "first-hash"),
                3 => t!(LazyFst, FirstCache<W, SimpleVecCache<W>>, "first-vec"),
                4 => t!(LazyFst, Arc<SimpleHashMapCache<W>>, "arc-hash"),
                5 => t!(LazyFst2, SimpleHashMapCache<W>, "hash2"),
                6 => t!(LazyFst2, SimpleVecCache<W>, "vec2"),
                _ => t!(LazyFst2, FirstCache<W, SimpleVecCache<W>>, "first-vec2"),
            }
        }
        4 | 5 => {
            let mut a: V<W> = mk(r, true);
            let mut b: V<W> = mk(r, true);
            tr_sort(&mut a, OLabelCompare {});
            tr_sort(&mut b, ILabelCompare {});
            log.new_reg(0, &a);
            log.new_reg(1, &b);
            let (a, b) = (Arc::new(a), Arc::new(b));
            macro_rules! c {
                ($B:ty, $n:expr, $C:ty, $v:expr) => {
                    session!(log, r, W, "compose", &[0, 1], format!("\"L\":3,\"flt\":\"{}\",\"conn\":false", $n), $v, false, multi, || Cf::<W, $B, $C>::new(a.clone(), b.clone()))
                };
            }
            match r.gen_range(0..5) {
                0 => c!(Seq<W>, "sequence", SimpleVecCache<W>, "vec"),
                1 => c!(Seq<W>, "sequence", SimpleHashMapCache<W>, "hash"),
                2 => c!(Alt<W>, "altsequence", FirstCache<W, SimpleVecCache<W>>, "first"),
                3 => c!(Mat<W>, "match", SimpleVecCache<W>, "vec"),
                _ => c!(Mat<W>, "match", Arc<SimpleHashMapCache<W>>, "arc"),
            }
        }
        6 => {
            let f: V<W> = mk(r, false);
            log.new_reg(0, &f);
            session!(log, r, W, "rm_epsilon", &[0], "\"L\":3", "lazy", false, single, || RmEpsilonFst::<W, V<W>, V<W>>::new(f.clone()));
        }
        7 => {
            let f: V<W> = mk(r, true);
            log.new_reg(0, &f);
            // epsilon cycles of the star must converge
            let ok = W::cyc_ok();
            let star = r.gen_bool(0.5);
            if ok {
                session!(log, r, W, "closure", &[0], format!("\"L\":3,\"kind\":\"{}\"", if star { "star" } else { "plus" }), "lazy", false, multi, || ClosureFst::new(f.clone(), if star { ClosureType::ClosureStar } else { ClosureType::ClosurePlus }));
            }
        }
        8 => {
            let a: V<W> = mk(r, true);
            let b: V<W> = mk(r, true);
            log.new_reg(0, &a);
            log.new_reg(1, &b);
            if r.gen_bool(0.5) {
                session!(log, r, W, "union", &[0, 1], "\"L\":3", "lazy", false, multi, || UnionFst::new(a.clone(), b.clone()));
            } else {
                session!(log, r, W, "concat", &[0, 1], "\"L\":3", "lazy", false, multi, || ConcatFst::new(a.clone(), b.clone()));
            }
        }
        _ => {
            // a root calling one rule several times
            let mut a: V<W> = mk(r, true);
            let b: V<W> = mk(r, true);
            for q in 0..a.num_states() as StateId {
                let n = a.num_trs(q).unwrap();
                if n > 0 && r.gen_bool(0.5) {
                    let t = a.get_trs(q).unwrap().trs()[0].clone();
                    a.tr_iter_mut(q).unwrap().set_tr(0, Tr::new(t.ilabel, 10, t.weight, t.nextstate)).unwrap();
                }
            }
            log.new_reg(0, &a);
            log.new_reg(1, &b);
            let (a, b) = (Arc::new(a), Arc::new(b));
            session!(log, r, W, "replace", &[0, 1], "\"L\":3,\"eps\":true,\"labs\":[9,10],\"root\":9", "lazy", false, multi, || {
                ReplaceFst::<W, V<W>, A<W>>::new(vec![(9, a.clone()), (10, b.clone())], 9, true)
            });
        }
    }
}
fn main() {
    drive(|log, r, c, _| match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    })
}
