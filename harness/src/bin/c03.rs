//! Composition with a sigma matcher on one side.
use rand::Rng as _;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::*;

type V<W> = VectorFst<W>;
const FILTERS: [(&str, ComposeFilterEnum); 6] = [
    ("sequence", ComposeFilterEnum::SequenceFilter),
    ("altsequence", ComposeFilterEnum::AltSequenceFilter),
    ("match", ComposeFilterEnum::MatchFilter),
    ("null", ComposeFilterEnum::NullFilter),
    ("trivial", ComposeFilterEnum::TrivialFilter),
    ("nomatch", ComposeFilterEnum::NoMatchFilter),
];

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g1.max_states = g1.max_states.min(4);
    g2.max_states = g2.max_states.min(4);
    g1.labels = g1.labels.min(3);
    g2.labels = g1.labels;
    let sigma = g1.labels + 1;
    let side = r.gen_range(1..=2);
    let l = pick_l(sigma);
    if side == 1 {
        g1.labels = sigma;
    } else {
        g2.labels = sigma;
    }
    let mut a: V<W> = gen_fst(r, &g1);
    let mut b: V<W> = gen_fst(r, &g2);
    // the side with the sigma label has to be sorted; the other one may be
    if side == 1 || r.gen_bool(0.5) {
        tr_sort(&mut a, OLabelCompare {});
    }
    if side == 2 || r.gen_bool(0.5) {
        tr_sort(&mut b, ILabelCompare {});
    }
    maybe_props(r, &mut a);
    maybe_props(r, &mut b);
    let mut st = Store::new(log, vec![a, b]);
    for _ in 0..r.gen_range(1..=4) {
        let (fname, filt) = FILTERS[if r.gen_bool(0.5) { 0 } else { r.gen_range(0..6) }];
        let connect = r.gen_bool(0.7);
        let (mname, mode) = match r.gen_range(0..3) {
            0 => ("auto", MatcherRewriteMode::MatcherRewriteAuto),
            1 => ("always", MatcherRewriteMode::MatcherRewriteAlways),
            _ => ("never", MatcherRewriteMode::MatcherRewriteNever),
        };
        let allowed: Option<Vec<Label>> = if r.gen_bool(0.5) {
            None
        } else {
            Some((1..sigma as Label).filter(|_| r.gen_bool(0.6)).collect())
        };
        let cst = r.gen_bool(0.2);
        let args = format!(
            "\"L\":{},\"flt\":\"{}\",\"conn\":{},\"side\":{},\"sig\":{},\"mode\":\"{}\",\"allow\":{},\"lim\":{}",
            l, fname, connect, side, sigma, mname,
            jlist(allowed.as_deref().unwrap_or(&[])), allowed.is_some()
        );
        let sc = SigmaMatcherConfig {
            sigma_label: sigma as Label,
            rewrite_mode: mode,
            sigma_allowed_matches: allowed.clone(),
        };
        let lazy = r.gen_bool(0.25) && fname == "sequence" && side == 2;
        let via = if lazy { "lazy" } else if cst { "const" } else { "vec" };
        let args = if lazy { args.replace("\"conn\":true", "\"conn\":false") } else { args };
        st.apply(log, "sigcompose", &[0, 1], 2, via, &args, |x| {
            if lazy {
                type SM<W> = SortedMatcher<W, V<W>, Arc<V<W>>>;
                type GM<W> = SigmaMatcher<W, V<W>, Arc<V<W>>, SM<W>>;
                let (f0, f1) = (Arc::new(x[0].clone()), Arc::new(x[1].clone()));
                let m2 = GM::<W>::new(
                    MatchType::MatchInput,
                    sigma as Label,
                    mode,
                    Arc::new(SM::<W>::new(Arc::clone(&f1), MatchType::MatchInput)?),
                    allowed.clone().map(|v| v.into_iter().collect()),
                )?;
                let opts = ComposeFstOpOptions::new(None, m2, None, None);
                return ComposeFst::<
                    W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, SM<W>, GM<W>,
                    SequenceComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, SM<W>, GM<W>>,
                >::new_with_options(f0, f1, opts)?
                .compute();
            }
            let mut c = ComposeConfig::default();
            c.compose_filter = filt;
            c.connect = connect;
            let m = MatcherConfig { sigma_matcher_config: Some(sc.clone()) };
            if side == 1 {
                c.matcher1_config = m;
            } else {
                c.matcher2_config = m;
            }
            if cst {
                let c0: ConstFst<W> = x[0].clone().into();
                let c1: ConstFst<W> = x[1].clone().into();
                compose_with_config::<W, ConstFst<W>, ConstFst<W>, _, _, V<W>>(&c0, &c1, c)
            } else {
                compose_with_config::<W, V<W>, V<W>, _, _, V<W>>(&x[0], &x[1], c)
            }
        });
        st.regs.truncate(2);
    }
}
fn jlist(v: &[Label]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 3 {
        0 => go::<TropicalWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
