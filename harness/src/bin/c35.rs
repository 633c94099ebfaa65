//! Matchers asked directly: sorted, sigma and multi-epsilon matchers, and the
//! look-ahead matchers used as plain ones, on either side of a machine.
use rand::Rng as _;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::*;

type V<W> = VectorFst<W>;
type A<W> = Arc<V<W>>;
type SM<W> = SortedMatcher<W, V<W>, A<W>>;
type GM<W> = SigmaMatcher<W, V<W>, A<W>, SM<W>>;
type MM<W, M> = MultiEpsMatcher<W, V<W>, A<W>, M>;
#[derive(Debug, Clone, PartialEq, PartialOrd)]
struct FL {}
impl MatcherFlagsTrait for FL {
    fn flags() -> MatcherFlags {
        MatcherFlags::OLABEL_LOOKAHEAD_FLAGS | MatcherFlags::ILABEL_LOOKAHEAD_FLAGS
    }
}
fn ints(v: &[Label]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn tr<W: Sr>(t: &Tr<W>) -> String {
    format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), t.nextstate)
}
/// the questions (state, label) put to one matcher
fn ask<W: Sr, M: Matcher<W, V<W>, A<W>>>(m: &M, n: usize, qs: &[(usize, i64)], mt: MatchType) -> anyhow::Result<String> {
    let mut out = vec![];
    for &(q, l) in qs {
        let label = if l < 0 { NO_LABEL } else { l as Label };
        let (mut loops, mut trs) = (0, vec![]);
        for x in m.iter(q as StateId, label)?.take(200) {
            let isloop = matches!(x, IterItemMatcher::EpsLoop);
            let t = x.into_tr(q as StateId, mt)?;
            if isloop {
                // the loop stays in place and consumes nothing of its own machine
                let (own, oth) = if mt == MatchType::MatchInput { (t.ilabel, t.olabel) } else { (t.olabel, t.ilabel) };
                anyhow::ensure!(own == NO_LABEL && oth == 0 && t.nextstate == q as StateId && t.weight.is_one(), "bad loop");
                loops += 1;
            } else {
                trs.push(tr(&t));
            }
        }
        out.push(format!("[{},{},{},[{}]]", q, l, loops, trs.join(",")));
    }
    let mut f = vec![];
    let mut p = vec![];
    for q in 0..n {
        f.push(match m.final_weight(q as StateId)? {
            Some(w) => format!("[{}]", w.enc()),
            None => "[]".into(),
        });
        let x = m.priority(q as StateId)?;
        p.push(if x == REQUIRE_PRIORITY { "-1".to_string() } else { x.to_string() });
    }
    Ok(format!("{{\"a\":[{}],\"f\":[{}],\"p\":[{}]}}", out.join(","), f.join(","), p.join(",")))
}
fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.labels = r.gen_range(1..=6);
    let mut f: V<W> = gen_fst(r, &g);
    let side = r.gen_range(1..=2);
    let mt = if side == 1 { MatchType::MatchOutput } else { MatchType::MatchInput };
    if r.gen_bool(0.15) {
        maybe_props(r, &mut f);
        let mut st = Store::new(log, vec![f]);
        let args = format!("\"side\":{}", side);
        st.query(log, "matchtype", &[0], "vec", &args, |x| {
            let m = SM::<W>::new(Arc::new(x[0].clone()), mt)?;
            let name = |t: MatchType| if t == mt { "yes" } else if t == MatchType::MatchNone { "no" } else if t == MatchType::MatchUnknown { "unknown" } else { "other" };
            let (a, b) = (m.match_type(false)?, m.match_type(true)?);
            Ok(format!("[\"{}\",\"{}\"]", name(a), name(b)))
        });
        return;
    }
    if side == 1 {
        tr_sort(&mut f, OLabelCompare {});
    } else {
        tr_sort(&mut f, ILabelCompare {});
    }
    maybe_props(r, &mut f);
    let n = f.num_states();
    let k = g.labels;
    let mut st = Store::new(log, vec![f]);
    for _ in 0..r.gen_range(1..=3) {
        let kind = r.gen_range(0..8);
        let sigma: Label = if kind == 1 || kind == 3 || kind == 4 { r.gen_range(1..=k) as Label } else { 0 };
        let (mname, mode) = match r.gen_range(0..3) {
            0 => ("auto", MatcherRewriteMode::MatcherRewriteAuto),
            1 => ("always", MatcherRewriteMode::MatcherRewriteAlways),
            _ => ("never", MatcherRewriteMode::MatcherRewriteNever),
        };
        let allowed: Option<Vec<Label>> = if r.gen_bool(0.6) { None } else { Some((1..=k as Label).filter(|_| r.gen_bool(0.6)).collect()) };
        let multi = (2..=5).contains(&kind);
        let fl = if !multi { 0 } else { r.gen_range(0..4) };
        // the history of the set of extra epsilons: insertions, removals, clearing
        let mut hist: Vec<(u8, Label)> = vec![];
        let mut meps: Vec<Label> = vec![];
        if multi {
            for _ in 0..r.gen_range(0..=6) {
                let l = r.gen_range(1..=k as Label + 1);
                match r.gen_range(0..8) {
                    0..=4 if l != sigma => {
                        hist.push((0, l));
                        if !meps.contains(&l) {
                            meps.push(l);
                        }
                    }
                    7 if r.gen_bool(0.3) => {
                        hist.push((2, 0));
                        meps.clear();
                    }
                    _ => {
                        hist.push((1, l));
                        meps.retain(|x| *x != l);
                    }
                }
            }
        }
        let mut qs: Vec<(usize, i64)> = vec![];
        for _ in 0..10 {
            if n == 0 {
                break;
            }
            let l = r.gen_range(-1..=k as i64 + 2);
            if sigma != 0 && l == sigma as i64 {
                continue;
            }
            qs.push((r.gen_range(0..n), l));
        }
        let args = format!(
            "\"side\":{},\"sig\":{},\"mode\":\"{}\",\"lim\":{},\"allow\":{},\"meps\":{},\"loop\":{},\"list\":{}",
            side, sigma, mname, sigma != 0 && allowed.is_some(), ints(allowed.as_deref().unwrap_or(&[])), ints(&meps), fl & 1 != 0, fl & 2 != 0
        );
        let via = ["sorted", "sigma", "multi", "multisigma", "multisigma", "multi", "label", "tr"][kind];
        st.query(log, "match", &[0], via, &args, |x| {
            let a = Arc::new(x[0].clone());
            let sm = SM::<W>::new(Arc::clone(&a), mt)?;
            let gm = |sm: SM<W>| GM::<W>::new(mt, sigma, mode, Arc::new(sm), allowed.clone().map(|v| v.into_iter().collect()));
            let mut flags = MultiEpsMatcherFlags::empty();
            if fl & 1 != 0 {
                flags |= MultiEpsMatcherFlags::MULTI_EPS_LOOP;
            }
            if fl & 2 != 0 {
                flags |= MultiEpsMatcherFlags::MULTI_EPS_LIST;
            }
            macro_rules! replay {
                ($m:expr) => {{
                    let mut m = $m;
                    for (o, l) in &hist {
                        match o {
                            0 => m.add_multi_eps_label(*l)?,
                            1 => m.remove_multi_eps_label(*l)?,
                            _ => m.clear_multi_eps_labels(),
                        }
                    }
                    ask(&m, n, &qs, mt)
                }};
            }
            match kind {
                0 => ask(&sm, n, &qs, mt),
                1 => ask(&gm(sm)?, n, &qs, mt),
                3 | 4 => replay!(MM::<W, GM<W>>::new_with_opts(Arc::clone(&a), mt, flags, Arc::new(gm(sm)?))?),
                2 | 5 => replay!(MM::<W, SM<W>>::new_with_opts(Arc::clone(&a), mt, flags, if kind == 2 { None } else { Some(Arc::new(sm)) })?),
                6 => ask(&LabelLookAheadMatcher::<W, V<W>, A<W>, SM<W>, FL>::new(a, mt)?, n, &qs, mt),
                _ => ask(&TrLookAheadMatcher::<W, V<W>, A<W>, SM<W>, FL>::new(a, mt)?, n, &qs, mt),
            }
        });
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 3 {
        0 => go::<TropicalWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
