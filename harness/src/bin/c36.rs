//! The reachability questions behind look-ahead: interval sets, reachable final
//! states, readable labels, and looking ahead into the other machine.
use rand::Rng as _;
use rustfst::algorithms::compose::lookahead_matchers::*;
use rustfst::algorithms::compose::matchers::*;
use rustfst::algorithms::compose::*;
use rustfst::prelude::*;
use std::collections::HashMap;
use std::sync::Arc;
use vharness::*;

type V<W> = VectorFst<W>;
type A<W> = Arc<V<W>>;
type SM<W> = SortedMatcher<W, V<W>, A<W>>;
macro_rules! flags {
    ($n:ident, $e:expr) => {
        #[derive(Debug, Clone, PartialEq, PartialOrd)]
        struct $n {}
        impl MatcherFlagsTrait for $n {
            fn flags() -> MatcherFlags {
                MatcherFlags::OUTPUT_LOOKAHEAD_MATCHER | MatcherFlags::INPUT_LOOKAHEAD_MATCHER | $e
            }
        }
    };
}
flags!(FPlain, MatcherFlags::LOOKAHEAD_EPSILONS);
flags!(FWeight, MatcherFlags::LOOKAHEAD_WEIGHT);
flags!(FPrefix, MatcherFlags::LOOKAHEAD_PREFIX);
flags!(FBoth, MatcherFlags::LOOKAHEAD_WEIGHT | MatcherFlags::LOOKAHEAD_PREFIX);

fn tr<W: Sr>(t: &Tr<W>) -> String {
    format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), t.nextstate)
}
fn iset(log: &mut Log, r: &mut Rng) {
    let mx = *[6usize, 12, 24].get(r.gen_range(0..3)).unwrap();
    let empty = r.gen_bool(0.2);
    let iv = |r: &mut Rng| {
        let a = r.gen_range(0..mx);
        let b = if empty && r.gen_bool(0.2) { a } else { r.gen_range(a + 1..=mx.min(a + 6)) };
        (a, b)
    };
    let mut ops = vec![];
    for _ in 0..r.gen_range(1..=10) {
        match r.gen_range(0..10) {
            0..=4 => ops.push((0, vec![iv(r)], 0)),
            5 => ops.push((1, (0..r.gen_range(0..4)).map(|_| iv(r)).collect(), 0)),
            6 if r.gen_bool(0.2) => ops.push((2, vec![], 0)),
            6 | 7 => ops.push((3, vec![], 0)),
            8 => ops.push((4, vec![], r.gen_range(0..mx + 1))),
            _ => ops.push((5, vec![], 0)),
        }
    }
    ops.push((3, vec![], 0));
    ops.push((5, vec![], 0));
    for v in 0..=mx + 1 {
        ops.push((4, vec![], v));
    }
    let h = hdr("iset", "trop", &[], -1, "vec", "");
    log.call(
        &h,
        || {
            let mut s = IntervalSet::default();
            let mut out = vec![];
            let js = |v: &[(usize, usize)]| format!("[{}]", v.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","));
            for (o, ivs, x) in &ops {
                match o {
                    0 => {
                        s.push(IntInterval::new(ivs[0].0, ivs[0].1));
                        out.push(format!("[\"push\",{},{}]", ivs[0].0, ivs[0].1));
                    }
                    1 => {
                        let mut t = IntervalSet::default();
                        for (a, b) in ivs {
                            t.push(IntInterval::new(*a, *b));
                        }
                        s.union(t);
                        out.push(format!("[\"union\",{}]", js(ivs)));
                    }
                    2 => {
                        s.clear();
                        out.push("[\"clear\"]".into());
                    }
                    3 => {
                        s.normalize();
                        out.push("[\"norm\"]".into());
                        out.push(format!("[\"count\",{}]", s.count().map(|x| x as i64).unwrap_or(-2)));
                    }
                    4 => out.push(format!("[\"member\",{},{}]", x, s.member(*x))),
                    _ => {
                        let l: Vec<(usize, usize)> = s.iter().map(|i| (i.begin, i.end)).collect();
                        out.push(format!("[\"list\",{}]", js(&l)));
                        out.push(format!("[\"single\",{}]", s.singleton()));
                        if s.is_empty() != l.is_empty() || s.len() != l.len() {
                            anyhow::bail!("len");
                        }
                    }
                }
            }
            Ok(format!("[{}]", out.join(",")))
        },
        |s: &String| Out::Val(s.clone()),
    );
}
/// original labels of a relabelled transition
fn back(m: &HashMap<Label, Label>, l: Label) -> Label {
    if l == 0 {
        0
    } else {
        *m.get(&l).unwrap_or(&1_999_999)
    }
}
fn look<W: Sr, FL: MatcherFlagsTrait>(f: &V<W>, g: &V<W>, side: usize, raw: bool) -> anyhow::Result<String> {
    let mt = if side == 1 { MatchType::MatchOutput } else { MatchType::MatchInput };
    let fa = Arc::new(f.clone());
    // the data built for one matcher serve another one
    let mut m = LabelLookAheadMatcher::<W, V<W>, A<W>, SM<W>, FL>::new(Arc::clone(&fa), mt)?;
    let mut data = (**m.data().ok_or_else(|| anyhow::anyhow!("no data"))?).clone();
    let mut g = g.clone();
    data.relabel_fst(&mut g, side == 1)?;
    let inv: HashMap<Label, Label> = data.label2index().iter().map(|(a, b)| (*b, *a)).collect();
    let mut lr = LabelReachable::new_from_data(Arc::new(data));
    lr.reach_init(&g, side == 1)?;
    let g = Arc::new(g);
    m.init_lookahead_fst::<V<W>, A<W>>(&g)?;
    let mut rows = vec![];
    for s in 0..f.num_states() {
        for q in 0..g.num_states() {
            let trs = g.get_trs(q as StateId)?;
            let orig = |t: &Tr<W>| {
                let mut t = t.clone();
                if side == 1 {
                    t.ilabel = back(&inv, t.ilabel)
                } else {
                    t.olabel = back(&inv, t.olabel)
                }
                tr(&t)
            };
            let ts: Vec<String> = trs.trs().iter().map(|t| orig(t)).collect();
            let none = "[0,0,0,0]".to_string();
            let (found, b, e, w, pre, pt) = if raw {
                match lr.reach::<W, _>(s as StateId, g.get_trs(q as StateId)?, 0, trs.len(), true)? {
                    Some((b, e, w)) => (true, b, e, w.enc(), false, none),
                    None => (false, 0, 0, 0, false, none),
                }
            } else {
                match m.lookahead_fst::<V<W>, A<W>>(s as StateId, &g, q as StateId)? {
                    Some(d) => {
                        let mut t = Tr::new(0, 0, W::one(), 0);
                        let p = m.lookahead_prefix(&mut t, &d);
                        (true, 0, 0, d.lookahead_weight.enc(), p, if p { orig(&t) } else { none })
                    }
                    None => (false, 0, 0, 0, false, none),
                }
            };
            rows.push(format!("[{},{},{},{},{},{},{},{},[{}]]", s, q, found, b, e, w, pre, pt, ts.join(",")));
        }
    }
    Ok(format!("[{}]", rows.join(",")))
}
fn look_tr<W: Sr, FL: MatcherFlagsTrait>(f: &V<W>, g: &V<W>, side: usize) -> anyhow::Result<String> {
    let mt = if side == 1 { MatchType::MatchOutput } else { MatchType::MatchInput };
    let m = TrLookAheadMatcher::<W, V<W>, A<W>, SM<W>, FL>::new(Arc::new(f.clone()), mt)?;
    let g = Arc::new(g.clone());
    let mut rows = vec![];
    for s in 0..f.num_states() {
        for q in 0..g.num_states() {
            let ts: Vec<String> = g.get_trs(q as StateId)?.trs().iter().map(tr).collect();
            let none = "[0,0,0,0]".to_string();
            let (found, w, pre, pt) = match m.lookahead_fst::<V<W>, A<W>>(s as StateId, &g, q as StateId)? {
                Some(d) => {
                    let mut t = Tr::new(0, 0, W::one(), 0);
                    let p = m.lookahead_prefix(&mut t, &d);
                    (true, d.lookahead_weight.enc(), p, if p { tr(&t) } else { none })
                }
                None => (false, 0, false, none),
            };
            rows.push(format!("[{},{},{},0,0,{},{},{},[{}]]", s, q, found, w, pre, pt, ts.join(",")));
        }
    }
    Ok(format!("[{}]", rows.join(",")))
}
fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.labels = r.gen_range(1..=5);
    g.max_states = g.max_states.min(5);
    let broad = r.gen_bool(0.25);
    let mut f: V<W> = if broad {
        g.labels = r.gen_range(12..=32);
        wide(r, g.labels)
    } else {
        gen_fst(r, &g)
    };
    maybe_props(r, &mut f);
    let side = r.gen_range(1..=2);
    let n = f.num_states();
    match r.gen_range(0..5) {
        0 => {
            // cyclicity has to be known
            let _ = f.compute_and_update_properties_all();
            let mut st = Store::new(log, vec![f]);
            st.query(log, "sreach", &[0], "vec", "", |x| {
                let sr = StateReachable::new(&x[0])?;
                let mut v = vec![];
                for s in 0..n {
                    for t in 0..n {
                        if x[0].is_final(t as StateId)? {
                            v.push(format!("[{},{},{}]", s, t, sr.reach(s as StateId, t as StateId)?));
                        }
                    }
                }
                Ok(format!("[{}]", v.join(",")))
            });
        }
        1 | 2 => {
            let mut st = Store::new(log, vec![f]);
            let k = g.labels;
            let lam = r.gen_bool(0.4);
            let args = format!("\"side\":{}", side);
            st.query(log, "lreach", &[0], if lam { "matcher" } else { "reach" }, &args, |x| {
                let mt = if side == 1 { MatchType::MatchOutput } else { MatchType::MatchInput };
                let (mut v, mut fi, mut map) = (vec![], vec![], vec![]);
                let m;
                let lr = if lam {
                    m = Some(LabelLookAheadMatcher::<W, V<W>, A<W>, SM<W>, FBoth>::new(Arc::new(x[0].clone()), mt)?);
                    LabelReachable::new_from_data(Arc::clone(m.as_ref().unwrap().data().unwrap()))
                } else {
                    m = None;
                    LabelReachable::new(&x[0], side == 2)?
                };
                anyhow::ensure!(lr.reach_input() == (side == 2), "side");
                let mut data = (**lr.data()).clone();
                for l in 1..=k as Label + 2 {
                    map.push(format!("[{},{}]", l, data.relabel(l)));
                }
                for s in 0..n {
                    for l in 1..=k as Label + 2 {
                        let i = data.relabel(l);
                        let a = match &m {
                            Some(m) => m.lookahead_label(s as StateId, i)?,
                            None => lr.reach_label(s as StateId, i)?,
                        };
                        v.push(format!("[{},{},{}]", s, l, a));
                    }
                    fi.push(format!("[{},{}]", s, lr.reach_final(s as StateId)?));
                }
                Ok(format!("{{\"labels\":[{}],\"finals\":[{}],\"map\":[{}]}}", v.join(","), fi.join(","), map.join(",")))
            });
        }
        _ => {
            let mut g2 = Gen::random(r);
            g2.labels = if broad { g.labels } else { (g.labels + r.gen_range(0..2)).min(6) };
            g2.max_states = 3;
            if broad {
                g2.max_arcs = 3;
                g2.peps_i = 0.1;
                g2.peps_o = 0.1;
                g2.modes = false;
            }
            let mut h: V<W> = gen_fst(r, &g2);
            maybe_props(r, &mut h);
            // a matcher wants its machine sorted on the matched side
            if side == 1 {
                tr_sort(&mut f, OLabelCompare {});
            } else {
                tr_sort(&mut f, ILabelCompare {});
            }
            let mut st = Store::new(log, vec![f, h]);
            for _ in 0..2 {
                let fl = r.gen_range(0..8);
                let args = format!("\"side\":{},\"kind\":\"{}\",\"wt\":{}", side, if fl == 4 { "reach" } else if fl > 4 { "tr" } else { "label" }, [false, true, false, true, true, false, false, false][fl]);
                st.query(log, "lafst", &[0, 1], ["plain", "weight", "prefix", "both", "reach", "tr", "trprefix", "trboth"][fl], &args, |x| match fl {
                    0 => look::<W, FPlain>(&x[0], &x[1], side, false),
                    1 => look::<W, FWeight>(&x[0], &x[1], side, false),
                    2 => look::<W, FPrefix>(&x[0], &x[1], side, false),
                    3 => look::<W, FBoth>(&x[0], &x[1], side, false),
                    4 => look::<W, FPlain>(&x[0], &x[1], side, true),
                    5 => look_tr::<W, FPlain>(&x[0], &x[1], side),
                    6 => look_tr::<W, FPrefix>(&x[0], &x[1], side),
                    _ => look_tr::<W, FBoth>(&x[0], &x[1], side),
                });
            }
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 6 {
        0 => iset(log, r),
        1 | 2 => go::<IntegerWeight>(log, r),
        _ => go::<TropicalWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
