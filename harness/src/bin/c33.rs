//! Saving a partly explored lazy composition (cache and state table) and carrying on from the files.
use rand::Rng as _;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::lookahead_selector::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::semirings::{SerializableSemiring, WeaklyDivisibleSemiring, WeightQuantize};
use std::sync::Arc;
use vharness::session::*;
use vharness::*;
type V<W> = VectorFst<W>;
type A<W> = Arc<V<W>>;
type Sm<W> = SortedMatcher<W, V<W>, A<W>>;
macro_rules! flags {
    ($n:ident, $e:expr) => {
        #[derive(Debug, Clone, PartialEq)]
        struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                $e
            }
        }
    };
}
flags!(FOut, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX);
type TrF<W> = TrLookAheadMatcher<W, V<W>, A<W>, Sm<W>, FOut>;
type B<W, X> = AltSequenceComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>>;
type La<W, X> = LookAheadComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>, B<W, X>, SMatchOutput>;
type Pw<W, X> = PushWeightsComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>, La<W, X>, SMatchOutput>;
type Pl<W, X> = PushLabelsComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>, La<W, X>, SMatchOutput>;
type Pwl<W, X> = PushLabelsComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>, Pw<W, X>, SMatchOutput>;
type Seq<W> = SequenceComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Mat<W> = MatchComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type NoM<W> = NoMatchComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Nul<W> = NullComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;
type Tri<W> = TrivialComposeFilterBuilder<W, V<W>, V<W>, A<W>, A<W>, Sm<W>, Sm<W>>;

macro_rules! resume {
    ($W:ty, $X:ty, $FB:ty, $C:ty, $g1:expr, $g2:expr, $seed:expr, $m:expr) => {{
        let opts = |st| -> anyhow::Result<_> {
            let m1 = <$X>::new($g1.clone(), MatchType::MatchOutput)?;
            let m2 = Sm::<$W>::new($g2.clone(), MatchType::MatchInput)?;
            let filter = <$FB>::new($g1.clone(), $g2.clone(), Some(m1), Some(m2))?;
            Ok(ComposeFstOpOptions::<_, _, $FB, _>::new(None, None, filter, st))
        };
        type L<W, X, FB, C> = ComposeFst<W, V<W>, V<W>, A<W>, A<W>, X, Sm<W>, FB, C>;
        let dir = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
        let (pc, po) = (dir.with_extension("cache"), dir.with_extension("ops"));
        let mut f = L::<$W, $X, $FB, $C>::new_with_options($g1.clone(), $g2.clone(), opts(None)?)?;
        let mut ans = client(&f, $seed, $m)?;
        for k in 0..($seed % 3) {
            SerializableLazyFst::write(&f, pc.clone(), po.clone())?;
            let cache = <$C as SerializableCache>::read(&pc)?;
            let ops = SerializableOpState::read(&po)?;
            let _ = std::fs::remove_file(&pc);
            let _ = std::fs::remove_file(&po);
            f = L::<$W, $X, $FB, $C>::new_with_options_and_cache($g1.clone(), $g2.clone(), opts(Some(ops))?, cache)?;
            ans.extend(client(&f, $seed.wrapping_add(k + 1), $m)?);
        }
        let v: V<$W> = f.compute()?;
        let w: V<$W> = L::<$W, $X, $FB, $C>::new_with_options($g1.clone(), $g2.clone(), opts(None)?)?.compute()?;
        Ok(format!("{},\"seq\":{},\"ans\":{}", proj(&v), proj(&w), ans_json(&ans)))
    }};
}
macro_rules! cached {
    ($W:ty, $X:ty, $FB:ty, $vec:expr, $g1:expr, $g2:expr, $seed:expr, $m:expr) => {
        if $vec {
            resume!($W, $X, $FB, SimpleVecCache<$W>, $g1, $g2, $seed, $m)
        } else {
            resume!($W, $X, $FB, SimpleHashMapCache<$W>, $g1, $g2, $seed, $m)
        }
    };
}
fn go<W: Sr + SerializableSemiring + WeaklyDivisibleSemiring + WeightQuantize>(log: &mut Log, r: &mut Rng) {
    let mut mk = || {
        let mut g = Gen::random(r);
        g.max_states = g.max_states.min(4);
        g.min_states = g.min_states.min(g.max_states);
        g.labels = g.labels.min(2);
        convergent::<W>(r, &mut g);
        gen_fst::<W>(r, &g)
    };
    let (mut a, mut b) = (mk(), mk());
    tr_sort(&mut a, OLabelCompare {});
    tr_sort(&mut b, ILabelCompare {});
    log.new_reg(0, &a);
    log.new_reg(1, &b);
    let (a, b) = (Arc::new(a), Arc::new(b));
    for _ in 0..2 {
        let (seed, m, vec): (u64, usize, bool) = (r.gen::<u64>() >> 8, r.gen_range(0..20), r.gen());
        let k = r.gen_range(0..9);
        let args = match k {
            0..=4 => format!("\"of\":\"compose\",\"mayfail\":false,\"L\":3,\"conn\":false,\"flt\":\"{}\"", ["sequence", "match", "nomatch", "null", "trivial"][k]),
            _ => format!("\"of\":\"lacompose\",\"mayfail\":false,\"L\":3,\"la\":\"trpout\",\"stack\":{}", k - 5),
        };
        let h = hdr("lazy", W::NAME, &[0, 1], -1, if vec { "vec" } else { "hash" }, &args);
        log.call(
            &h,
            || match k {
                0 => cached!(W, Sm<W>, Seq<W>, vec, a, b, seed, m),
                1 => cached!(W, Sm<W>, Mat<W>, vec, a, b, seed, m),
                2 => cached!(W, Sm<W>, NoM<W>, vec, a, b, seed, m),
                3 => cached!(W, Sm<W>, Nul<W>, vec, a, b, seed, m),
                4 => cached!(W, Sm<W>, Tri<W>, vec, a, b, seed, m),
                5 => cached!(W, TrF<W>, La<W, TrF<W>>, vec, a, b, seed, m),
                6 => cached!(W, TrF<W>, Pw<W, TrF<W>>, vec, a, b, seed, m),
                7 => cached!(W, TrF<W>, Pl<W, TrF<W>>, vec, a, b, seed, m),
                _ => cached!(W, TrF<W>, Pwl<W, TrF<W>>, vec, a, b, seed, m),
            },
            |s: &String| Out::Fst(s.clone()),
        );
    }
}
fn main() {
    drive(|log, r, c, _| match c % 3 {
        2 => go::<LogWeight>(log, r),
        _ => go::<TropicalWeight>(log, r),
    })
}
