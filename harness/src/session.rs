//! A client of a lazy machine: questions in random order about states it has heard of.
use crate::*;
use rand::seq::SliceRandom;
use rand::SeedableRng;
use std::collections::BTreeSet;
fn tsj<W: Sr>(t: &[Tr<W>]) -> String {
    format!("[{}]", t.iter().map(|t| format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), t.nextstate)).collect::<Vec<_>>().join(","))
}
pub type Ans = BTreeSet<(i64, &'static str, String)>;
/// One client: asks `m` questions about states it has heard of.
pub fn client<W: Sr, F: Fst<W>>(f: &F, seed: u64, m: usize) -> anyhow::Result<Ans> {
    let mut r = Rng::seed_from_u64(seed);
    let mut out = Ans::new();
    let mut known: Vec<StateId> = vec![];
    let s = f.start();
    out.insert((-1, "s", format!("[{}]", opt(s))));
    known.extend(s);
    let lifo = r.gen_bool(0.5);
    for _ in 0..m {
        if known.is_empty() {
            break;
        }
        let q = if lifo && r.gen_bool(0.5) { *known.last().unwrap() } else { *known.choose(&mut r).unwrap() };
        let one = |x: usize| format!("[{}]", x);
        let er = || "[-888]".to_string();
        let unch = r.gen_bool(0.2);
        let (k, a) = match r.gen_range(0..12) {
            0 => ("s", format!("[{}]", opt(f.start()))),
            1 | 2 => {
                let w = if unch { Ok(unsafe { f.final_weight_unchecked(q) }) } else { f.final_weight(q) };
                ("f", w.map(|w| w.map(|w| format!("[{}]", w.enc())).unwrap_or("[]".into())).unwrap_or_else(|_| er()))
            }
            3 => ("nt", if unch { one(unsafe { f.num_trs_unchecked(q) }) } else { f.num_trs(q).map(one).unwrap_or_else(|_| er()) }),
            4 => ("ni", f.num_input_epsilons(q).map(one).unwrap_or_else(|_| er())),
            5 => ("no", f.num_output_epsilons(q).map(one).unwrap_or_else(|_| er())),
            6 => ("fin", f.is_final(q).map(|b| one(b as usize)).unwrap_or_else(|_| er())),
            7 => ("st", one(f.is_start(q) as usize)),
            _ => {
                let t = if unch { unsafe { f.get_trs_unchecked(q) } } else { f.get_trs(q)? };
                for x in t.trs() {
                    if !known.contains(&x.nextstate) {
                        known.push(x.nextstate);
                    }
                }
                ("t", tsj(t.trs()))
            }
        };
        out.insert((if k == "s" { -1 } else { q as i64 }, k, a));
    }
    Ok(out)
}
/// Enumerates the whole machine with its iterators (densely numbered machines only).
pub fn enumerate<W: Sr, F: Fst<W>>(f: &F, whole: bool) -> Ans {
    let mut out = Ans::new();
    let ids: Vec<StateId> = if whole {
        f.fst_iter()
            .take(5000)
            .map(|d| {
                let q = d.state_id as i64;
                out.insert((q, "t", tsj(d.trs.trs())));
                out.insert((q, "nt", format!("[{}]", d.num_trs)));
                out.insert((q, "f", d.final_weight.map(|w| format!("[{}]", w.enc())).unwrap_or("[]".into())));
                d.state_id
            })
            .collect()
    } else {
        f.states_iter().take(5000).collect()
    };
    out.insert((-1, "it", format!("{:?}", ids)));
    out
}
pub fn ans_json(a: &Ans) -> String {
    format!("[{}]", a.iter().map(|(q, k, r)| format!("{{\"q\":{},\"k\":\"{}\",\"r\":{}}}", q, k, r)).collect::<Vec<_>>().join(","))
}
