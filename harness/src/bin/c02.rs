//! Look-ahead composition: label, transition and trivial look-ahead matchers,
//! with and without weight and label pushing, on the output side of the first
//! machine or the input side of the second.
use rand::Rng as _;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::lookahead_filters::*;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::lazy::{SimpleHashMapCache, SimpleVecCache};
use rustfst::prelude::*;
use rustfst::semirings::{SerializableSemiring, WeaklyDivisibleSemiring, WeightQuantize};
use std::sync::Arc;
use vharness::*;

type V<W> = VectorFst<W>;
macro_rules! flags {
    ($n:ident, $e:expr) => {
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                $e
            }
        }
    };
}
flags!(FOlabel, MatcherFlags::OLABEL_LOOKAHEAD_FLAGS);
flags!(
    FAll,
    MatcherFlags::OLABEL_LOOKAHEAD_FLAGS | MatcherFlags::LOOKAHEAD_NON_EPSILONS
);
flags!(FNonEps, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_NON_EPSILONS | MatcherFlags::LOOKAHEAD_WEIGHT);
flags!(FEps, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_PREFIX | MatcherFlags::LOOKAHEAD_NON_EPSILON_PREFIX);
flags!(FIlabel, MatcherFlags::ILABEL_LOOKAHEAD_FLAGS);
flags!(FIAll, MatcherFlags::ILABEL_LOOKAHEAD_FLAGS | MatcherFlags::LOOKAHEAD_NON_EPSILONS);
flags!(
    FTr,
    MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_NON_EPSILONS
);

type LM<W, FL> = LabelLookAheadMatcher<W, V<W>, Arc<V<W>>, SortedMatcher<W, V<W>, Arc<V<W>>>, FL>;
type LaFst<W, FL> = MatcherFst<W, V<W>, Arc<V<W>>, LM<W, FL>, LabelReachableData>;
type M1<W, FL> = LabelLookAheadMatcher<
    W,
    LaFst<W, FL>,
    Arc<LaFst<W, FL>>,
    SortedMatcher<W, LaFst<W, FL>, Arc<LaFst<W, FL>>>,
    FL,
>;
type SM<W, F> = SortedMatcher<W, F, Arc<F>>;
type AltB<W, F1, F2, MA, MB> = AltSequenceComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, MA, MB>;
type LaB<W, F1, F2, MA, MB, CF, S> = LookAheadComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, MA, MB, CF, S>;
type PwB<W, F1, F2, MA, MB, CF, S> = PushWeightsComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, MA, MB, CF, S>;
type PlB<W, F1, F2, MA, MB, CF, S> = PushLabelsComposeFilterBuilder<W, F1, F2, Arc<F1>, Arc<F2>, MA, MB, CF, S>;

trait LaSr: Sr + SerializableSemiring + WeaklyDivisibleSemiring + WeightQuantize {}
impl LaSr for TropicalWeight {}
impl LaSr for LogWeight {}

macro_rules! finish {
    ($FB:ty, $g1:expr, $g2:expr, $m1:expr, $m2:expr, $vec:expr) => {{
        let filter = <$FB>::new(Arc::clone(&$g1), Arc::clone(&$g2), Some($m1), Some($m2))?;
        let opts = ComposeFstOpOptions::<_, _, $FB, _>::new(None, None, filter, None);
        let r: V<W> = if $vec {
            ComposeFst::<_, _, _, _, _, _, _, _, SimpleVecCache<_>>::new_with_options($g1, $g2, opts)?.compute()?
        } else {
            ComposeFst::<_, _, _, _, _, _, _, _, SimpleHashMapCache<_>>::new_with_options($g1, $g2, opts)?.compute()?
        };
        Ok(r)
    }};
}

/// label look-ahead on the output side of the first machine
fn label<W: LaSr, FL: MatcherFlagsTrait + PartialEq>(
    a: &V<W>, b: &V<W>, stack: usize, vec: bool,
) -> anyhow::Result<V<W>> {
    let mut b = b.clone();
    let g1 = Arc::new(LaFst::<W, FL>::new_with_relabeling(a.clone(), &mut b, true)?);
    tr_sort(&mut b, ILabelCompare {});
    let g2 = Arc::new(b);
    let m1 = M1::<W, FL>::new_with_data(
        Arc::clone(&g1),
        MatchType::MatchOutput,
        g1.data(MatchType::MatchOutput).cloned(),
    )?;
    let m2 = SM::<W, V<W>>::new(Arc::clone(&g2), MatchType::MatchInput)?;
    type Alt<W, FL> = AltB<W, LaFst<W, FL>, V<W>, M1<W, FL>, SM<W, V<W>>>;
    type La<W, FL> = LaB<W, LaFst<W, FL>, V<W>, M1<W, FL>, SM<W, V<W>>, Alt<W, FL>, SMatchOutput>;
    type Pw<W, FL> = PwB<W, LaFst<W, FL>, V<W>, M1<W, FL>, SM<W, V<W>>, La<W, FL>, SMatchOutput>;
    type Pl<W, FL> = PlB<W, LaFst<W, FL>, V<W>, M1<W, FL>, SM<W, V<W>>, La<W, FL>, SMatchOutput>;
    type Pwl<W, FL> = PlB<W, LaFst<W, FL>, V<W>, M1<W, FL>, SM<W, V<W>>, Pw<W, FL>, SMatchOutput>;
    match stack {
        0 => finish!(La::<W, FL>, g1, g2, m1, m2, vec),
        1 => finish!(Pw::<W, FL>, g1, g2, m1, m2, vec),
        2 => finish!(Pl::<W, FL>, g1, g2, m1, m2, vec),
        _ => finish!(Pwl::<W, FL>, g1, g2, m1, m2, vec),
    }
}
/// label look-ahead on the input side of the second machine
fn ilabel<W: LaSr, FL: MatcherFlagsTrait + PartialEq>(
    a: &V<W>, b: &V<W>, stack: usize, vec: bool,
) -> anyhow::Result<V<W>> {
    let mut a = a.clone();
    let g2 = Arc::new(LaFst::<W, FL>::new_with_relabeling(b.clone(), &mut a, false)?);
    tr_sort(&mut a, OLabelCompare {});
    let g1 = Arc::new(a);
    let m1 = SM::<W, V<W>>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
    let m2 = M1::<W, FL>::new_with_data(
        Arc::clone(&g2),
        MatchType::MatchInput,
        g2.data(MatchType::MatchInput).cloned(),
    )?;
    type Alt<W, FL> = AltB<W, V<W>, LaFst<W, FL>, SM<W, V<W>>, M1<W, FL>>;
    type La<W, FL> = LaB<W, V<W>, LaFst<W, FL>, SM<W, V<W>>, M1<W, FL>, Alt<W, FL>, SMatchInput>;
    type Pw<W, FL> = PwB<W, V<W>, LaFst<W, FL>, SM<W, V<W>>, M1<W, FL>, La<W, FL>, SMatchInput>;
    type Pl<W, FL> = PlB<W, V<W>, LaFst<W, FL>, SM<W, V<W>>, M1<W, FL>, La<W, FL>, SMatchInput>;
    type Pwl<W, FL> = PlB<W, V<W>, LaFst<W, FL>, SM<W, V<W>>, M1<W, FL>, Pw<W, FL>, SMatchInput>;
    match stack {
        0 => finish!(La::<W, FL>, g1, g2, m1, m2, vec),
        1 => finish!(Pw::<W, FL>, g1, g2, m1, m2, vec),
        2 => finish!(Pl::<W, FL>, g1, g2, m1, m2, vec),
        _ => finish!(Pwl::<W, FL>, g1, g2, m1, m2, vec),
    }
}
type TrM<W> = TrLookAheadMatcher<W, V<W>, Arc<V<W>>, SM<W, V<W>>, FTr>;
flags!(FTrOut, MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX);
flags!(FTrIn, MatcherFlags::INPUT_LOOKAHEAD_MATCHER | MatcherFlags::LOOKAHEAD_EPSILONS | MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX);
type TrF<W, FL> = TrLookAheadMatcher<W, V<W>, Arc<V<W>>, SM<W, V<W>>, FL>;
macro_rules! stacked {
    ($X:ty, $Y:ty, $S:ty, $stack:expr, $g1:expr, $g2:expr, $m1:expr, $m2:expr, $vec:expr) => {
        match $stack {
            0 => finish!(LaB<W, V<W>, V<W>, $X, $Y, AltB<W, V<W>, V<W>, $X, $Y>, $S>, $g1, $g2, $m1, $m2, $vec),
            1 => finish!(PwB<W, V<W>, V<W>, $X, $Y, LaB<W, V<W>, V<W>, $X, $Y, AltB<W, V<W>, V<W>, $X, $Y>, $S>, $S>, $g1, $g2, $m1, $m2, $vec),
            2 => finish!(PlB<W, V<W>, V<W>, $X, $Y, LaB<W, V<W>, V<W>, $X, $Y, AltB<W, V<W>, V<W>, $X, $Y>, $S>, $S>, $g1, $g2, $m1, $m2, $vec),
            _ => finish!(PlB<W, V<W>, V<W>, $X, $Y, PwB<W, V<W>, V<W>, $X, $Y, LaB<W, V<W>, V<W>, $X, $Y, AltB<W, V<W>, V<W>, $X, $Y>, $S>, $S>, $S>, $g1, $g2, $m1, $m2, $vec),
        }
    };
}
/// transition look-ahead that also computes prefixes and weights, with every stack of filters
fn trpush<W: LaSr>(a: &V<W>, b: &V<W>, out: bool, stack: usize, vec: bool) -> anyhow::Result<V<W>> {
    let (mut a, mut b) = (a.clone(), b.clone());
    tr_sort(&mut a, OLabelCompare {});
    tr_sort(&mut b, ILabelCompare {});
    let (g1, g2) = (Arc::new(a), Arc::new(b));
    if out {
        let m1 = TrF::<W, FTrOut>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
        let m2 = SM::<W, V<W>>::new(Arc::clone(&g2), MatchType::MatchInput)?;
        stacked!(TrF<W, FTrOut>, SM<W, V<W>>, SMatchOutput, stack, g1, g2, m1, m2, vec)
    } else {
        let m1 = SM::<W, V<W>>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
        let m2 = TrF::<W, FTrIn>::new(Arc::clone(&g2), MatchType::MatchInput)?;
        stacked!(SM<W, V<W>>, TrF<W, FTrIn>, SMatchInput, stack, g1, g2, m1, m2, vec)
    }
}
type TvM<W> = TrivialLookAheadMatcher<W, SM<W, V<W>>>;
/// transition look-ahead on either side, trivial look-ahead
fn trla<W: LaSr>(a: &V<W>, b: &V<W>, kind: usize, vec: bool) -> anyhow::Result<V<W>> {
    let (mut a, mut b) = (a.clone(), b.clone());
    tr_sort(&mut a, OLabelCompare {});
    tr_sort(&mut b, ILabelCompare {});
    let (g1, g2) = (Arc::new(a), Arc::new(b));
    type L<W, X, Y, S> = LaB<W, V<W>, V<W>, X, Y, AltB<W, V<W>, V<W>, X, Y>, S>;
    match kind {
        0 => {
            let m1 = TrM::<W>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
            let m2 = SM::<W, V<W>>::new(Arc::clone(&g2), MatchType::MatchInput)?;
            finish!(L::<W, TrM<W>, SM<W, V<W>>, SMatchOutput>, g1, g2, m1, m2, vec)
        }
        1 => {
            let m1 = SM::<W, V<W>>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
            let m2 = TrM::<W>::new(Arc::clone(&g2), MatchType::MatchInput)?;
            finish!(L::<W, SM<W, V<W>>, TrM<W>, SMatchInput>, g1, g2, m1, m2, vec)
        }
        2 => {
            let m1 = TrM::<W>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
            let m2 = TrM::<W>::new(Arc::clone(&g2), MatchType::MatchInput)?;
            finish!(L::<W, TrM<W>, TrM<W>, SMatchBoth>, g1, g2, m1, m2, vec)
        }
        _ => {
            let m1 = TvM::<W>::new(Arc::clone(&g1), MatchType::MatchOutput)?;
            let m2 = TvM::<W>::new(Arc::clone(&g2), MatchType::MatchInput)?;
            finish!(L::<W, TvM<W>, TvM<W>, SMatchOutput>, g1, g2, m1, m2, vec)
        }
    }
}

fn go<W: LaSr>(log: &mut Log, r: &mut Rng) {
    let mut g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g1.max_states = g1.max_states.min(4);
    g2.max_states = g2.max_states.min(4);
    g2.labels = g1.labels;
    let broad = r.gen_bool(0.12);
    let (l, mut a, mut b): (usize, V<W>, V<W>) = if broad {
        // many labels: the sets of readable labels fall into many intervals
        g2.labels = r.gen_range(12..=28);
        g2.max_arcs = 3;
        let a = wide(r, g2.labels);
        (2, a, gen_fst(r, &g2))
    } else {
        (pick_l(g1.labels), gen_fst(r, &g1), gen_fst(r, &g2))
    };
    maybe_props(r, &mut a);
    maybe_props(r, &mut b);
    if r.gen_bool(0.2) {
        // more labels in the second machine than in the first, larger gaps
        let sh = r.gen_range(1..4);
        a = shift(&a, sh);
    }
    let mut st = Store::new(log, vec![a, b]);
    for _ in 0..r.gen_range(2..=4) {
        let vec = r.gen_bool(0.3);
        let stack = r.gen_range(0..4);
        let k = r.gen_range(0..18);
        let via = if vec { "vec" } else { "hash" };
        // looking ahead after a non-epsilon match takes no account of input
        // epsilons of the second machine (as in OpenFst): not asked for there
        let eps2 = (0..st.regs[1].num_states() as StateId)
            .any(|q| st.regs[1].get_trs(q).unwrap().trs().iter().any(|t| t.ilabel == 0));
        let eps1 = (0..st.regs[0].num_states() as StateId)
            .any(|q| st.regs[0].get_trs(q).unwrap().trs().iter().any(|t| t.olabel == 0));
        let which = match k {
            3..=4 if !eps2 => "all",
            5 if !eps2 => "noneps",
            0..=5 => "olabel",
            6 => "eps",
            7 => "trout",
            8 => "trin",
            // the only base filter reads the epsilons of the second machine first, so input
            // look-ahead takes no account of output epsilons of the first one
            10..=11 if !eps1 => "ilabel",
            12..=13 if !eps1 => "iall",
            10..=13 => "olabel",
            14..=15 => "trpout",
            16..=17 if !eps1 => "trpin",
            16..=17 => "trpout",
            _ => if stack < 2 { "trboth" } else { "trivial" },
        };
        let args = format!("\"L\":{},\"la\":\"{}\",\"stack\":{}", l, which, stack);
        st.apply(log, "lacompose", &[0, 1], 2, via, &args, |x| match which {
            "olabel" => label::<W, FOlabel>(&x[0], &x[1], stack, vec),
            "all" => label::<W, FAll>(&x[0], &x[1], stack, vec),
            "noneps" => label::<W, FNonEps>(&x[0], &x[1], stack, vec),
            "eps" => label::<W, FEps>(&x[0], &x[1], stack, vec),
            "ilabel" => ilabel::<W, FIlabel>(&x[0], &x[1], stack, vec),
            "iall" => ilabel::<W, FIAll>(&x[0], &x[1], stack, vec),
            "trpout" => trpush(&x[0], &x[1], true, stack, vec),
            "trpin" => trpush(&x[0], &x[1], false, stack, vec),
            "trout" => trla(&x[0], &x[1], 0, vec),
            "trin" => trla(&x[0], &x[1], 1, vec),
            "trboth" => trla(&x[0], &x[1], 2, vec),
            _ => trla(&x[0], &x[1], 3, vec),
        });
        st.regs.truncate(2);
    }
}
/// rename the output labels of a machine upwards
fn shift<W: Sr>(a: &V<W>, k: Label) -> V<W> {
    let mut v = a.clone();
    for s in 0..v.num_states() as StateId {
        let trs: Vec<Tr<W>> = v.get_trs(s).unwrap().trs().to_vec();
        v.delete_trs(s).unwrap();
        for mut t in trs {
            if t.olabel != 0 {
                t.olabel += k;
            }
            v.add_tr(s, t).unwrap();
        }
    }
    v
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 3 {
        2 => go::<LogWeight>(log, r),
        _ => go::<TropicalWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
