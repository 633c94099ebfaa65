//! Histories of mutations and reads on several machines that may share storage (clones, handed out
//! transition lists), through every mutator and accessor family.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::fst_properties::FstProperties;
use rustfst::prelude::*;
use rustfst::{Trs, TrsVec};
use std::sync::Arc;
use vharness::*;
type V<W> = VectorFst<W>;

fn tj<W: Sr>(t: &Tr<W>) -> String {
    format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), t.nextstate)
}
fn tsj<W: Sr>(t: &[Tr<W>]) -> String {
    format!("[{}]", t.iter().map(tj).collect::<Vec<_>>().join(","))
}
fn arr<T: std::fmt::Display>(v: impl Iterator<Item = T>) -> String {
    format!("[{}]", v.map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn fj<W: Sr>(w: Option<W>) -> String {
    w.map(|w| format!("[{}]", w.enc())).unwrap_or("[]".into())
}
fn read_core<W: Sr, F: ExpandedFst<W>>(f: &F) -> anyhow::Result<String> {
    let n = f.num_states() as StateId;
    let qs: Vec<StateId> = f.states_iter().collect();
    anyhow::ensure!(qs == f.states_range().collect::<Vec<_>>() && qs.len() == n as usize, "states_iter");
    let mut c = [vec![], vec![], vec![], vec![], vec![], vec![], vec![]];
    for q in qs {
        c[0].push(fj(f.final_weight(q)?));
        c[1].push(tsj(f.get_trs(q)?.trs()));
        c[2].push(f.num_trs(q)?.to_string());
        c[3].push(f.num_input_epsilons(q)?.to_string());
        c[4].push(f.num_output_epsilons(q)?.to_string());
        c[5].push((f.is_final(q)? as i32).to_string());
        c[6].push((f.is_start(q) as i32).to_string());
    }
    let mut oob = true;
    for q in [n, n + 1, n + 7] {
        oob &= f.final_weight(q).is_err()
            && f.get_trs(q).is_err()
            && f.num_trs(q).is_err()
            && f.num_input_epsilons(q).is_err()
            && f.num_output_epsilons(q).is_err()
            && f.is_final(q).is_err();
    }
    let [a, b, nt, ni, no, fi, st] = c.map(|v| arr(v.into_iter()));
    Ok(format!(
        "{{\"n\":{},\"s\":{},\"f\":{},\"a\":{},\"nt\":{},\"ni\":{},\"no\":{},\"fin\":{},\"st\":{},\"oob\":{}}}",
        n, opt(f.start()), a, b, nt, ni, no, fi, st, oob as i32
    ))
}
fn read_un<W: Sr, F: ExpandedFst<W>>(f: &F) -> String {
    let qs = 0..f.num_states() as StateId;
    unsafe {
        format!(
            "{{\"f\":{},\"a\":{},\"nt\":{},\"fin\":{}}}",
            arr(qs.clone().map(|q| fj(f.final_weight_unchecked(q)))),
            arr(qs.clone().map(|q| tsj(f.get_trs_unchecked(q).trs()))),
            arr(qs.clone().map(|q| f.num_trs_unchecked(q))),
            arr(qs.clone().map(|q| f.is_final_unchecked(q) as i32)),
        )
    }
}
fn read_iter<W: Sr, F: ExpandedFst<W>>(f: &F) -> anyhow::Result<String> {
    let d: Vec<_> = f.fst_iter().collect();
    anyhow::ensure!(d.iter().enumerate().all(|(i, x)| x.state_id as usize == i), "fst_iter state ids");
    let mut fin = vec![0; f.num_states()];
    for x in f.final_states_iter() {
        fin[x as usize] = 1;
    }
    Ok(format!(
        "{{\"f\":{},\"a\":{},\"nt\":{},\"fin\":{}}}",
        arr(d.iter().map(|x| fj(x.final_weight.clone()))),
        arr(d.iter().map(|x| tsj(x.trs.trs()))),
        arr(d.iter().map(|x| x.num_trs)),
        arr(fin.iter()),
    ))
}
fn read_into<W: Sr, F: ExpandedFst<W>>(f: F) -> anyhow::Result<String> {
    let mut fs = vec![];
    let mut ar = vec![];
    let mut nt = vec![];
    for (i, x) in f.fst_into_iter().enumerate() {
        anyhow::ensure!(x.state_id as usize == i, "fst_into_iter state ids");
        fs.push(fj(x.final_weight));
        nt.push(x.num_trs);
        ar.push(tsj(&x.trs.collect::<Vec<_>>()));
    }
    Ok(format!("{{\"f\":{},\"a\":{},\"nt\":{}}}", arr(fs.iter()), arr(ar.iter()), arr(nt.iter())))
}
fn read_vec<W: Sr, F: ExpandedFst<W>>(f: &F) -> anyhow::Result<String> {
    let mut ar = vec![];
    for q in f.states_iter() {
        let t = f.get_trs(q)?;
        let c = t.shallow_clone();
        anyhow::ensure!(tsj(c.trs()) == tsj(t.trs()) && t.len() == c.trs().len(), "shallow_clone");
        ar.push(tsj(t.to_trs_vec().trs()));
    }
    Ok(format!("{{\"a\":{}}}", arr(ar.iter())))
}
fn read_core_arc<W: Sr>(f: &Arc<V<W>>) -> anyhow::Result<String> {
    let n = f.num_states() as StateId;
    fn g<W: Sr, F: Fst<W>>(f: &F, n: StateId) -> anyhow::Result<String> {
        let qs: Vec<StateId> = f.states_iter().collect();
        anyhow::ensure!(qs == (0..n).collect::<Vec<_>>(), "states_iter");
        let mut c = [vec![], vec![], vec![], vec![], vec![], vec![]];
        for q in 0..n {
            c[0].push(fj(f.final_weight(q)?));
            c[1].push(tsj(f.get_trs(q)?.trs()));
            c[2].push(f.num_trs(q)?.to_string());
            c[3].push(f.num_input_epsilons(q)?.to_string());
            c[4].push(f.num_output_epsilons(q)?.to_string());
            c[5].push((f.is_final(q)? as i32).to_string());
        }
        let [a, b, nt, ni, no, fi] = c.map(|v| arr(v.into_iter()));
        Ok(format!(
            "{{\"s\":{},\"f\":{},\"a\":{},\"nt\":{},\"ni\":{},\"no\":{},\"fin\":{},\"oob\":{}}}",
            opt(f.start()), a, b, nt, ni, no, fi, (f.get_trs(n).is_err() && f.final_weight(n).is_err()) as i32
        ))
    }
    g(f, n)
}
fn rtr<W: Sr>(r: &mut Rng, n: usize) -> Tr<W> {
    let m = r.gen_range(1..=3);
    let il = r.gen_range(0..=m);
    let ol = if r.gen_bool(0.5) { il } else { r.gen_range(0..=m) };
    let w = if r.gen_bool(0.6) { W::one() } else { W::rnd(r) };
    Tr::new(il, ol, w, r.gen_range(0..n.max(1)) as StateId)
}
struct S<W: Sr> {
    regs: Vec<V<W>>,
    held: Vec<(TrsVec<W>, String)>,
}
impl<W: Sr> S<W> {
    fn mutate<T>(&mut self, log: &mut Log, op: &str, i: usize, via: &str, args: &str, f: impl FnOnce(&mut V<W>) -> anyhow::Result<T>, ret: impl FnOnce(&T) -> String) -> Option<T> {
        let h = hdr(op, W::NAME, &[i], i as i64, via, args);
        let g = &mut self.regs[i];
        let mut p = String::new();
        let res = log.call(
            &h,
            || {
                let x = f(g)?;
                Ok((x, proj(g)))
            },
            |(x, q)| {
                p = q.clone();
                Out::Fst(format!("{},\"ret\":{}", q, ret(x)))
            },
        );
        if res.is_some() {
            log.set_last(i, p);
        }
        for j in 0..self.regs.len() {
            log.observe(j, &self.regs[j]);
        }
        res.map(|x| x.0)
    }
}
fn nothing<T>(_: &T) -> String {
    "[]".into()
}

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let k = r.gen_range(1..=2);
    let mut s = S::<W> { regs: vec![], held: vec![] };
    for i in 0..k {
        let mut g = Gen::random(r);
        if r.gen_bool(0.3) {
            g.max_states = 0;
            g.min_states = 0;
        }
        let mut f: V<W> = gen_fst(r, &g);
        maybe_props(r, &mut f);
        log.new_reg(i, &f);
        s.regs.push(f);
    }
    let zf = r.gen_bool(0.1);
    let eager = r.gen_bool(0.5);
    let bad = if r.gen_bool(0.5) { 0.0 } else { 0.05 };
    for _ in 0..r.gen_range(6..24) {
        let i = r.gen_range(0..s.regs.len());
        let n = s.regs[i].num_states();
        if eager && r.gen_bool(0.6) {
            let _ = s.regs[i].compute_and_update_properties_all();
        }
        let q = if n == 0 || r.gen_bool(bad) { n + r.gen_range(0..2) } else { r.gen_range(0..n) };
        let ok = q < n;
        let q = q as StateId;
        let un = ok && r.gen_bool(0.3);
        let via = if un { "u" } else { "c" };
        let nt = if ok { s.regs[i].num_trs(q).unwrap() } else { 0 };
        let qa = format!("\"q\":{}", q);
        match r.gen_range(0..30) {
            0 | 1 => {
                s.mutate(log, "m.set_start", i, via, &qa, |f| if un { unsafe { f.set_start_unchecked(q); Ok(()) } } else { f.set_start(q) }, nothing);
            }
            2 | 3 => {
                let w = if zf && r.gen_bool(0.4) { W::zero() } else if r.gen_bool(0.5) { W::one() } else { W::rndf(r) };
                let a = format!("{},\"w\":{}", qa, w.enc());
                s.mutate(log, "m.set_final", i, via, &a, |f| if un { unsafe { f.set_final_unchecked(q, w); Ok(()) } } else { f.set_final(q, w) }, nothing);
            }
            4 | 5 => {
                if n < 7 {
                    s.mutate(log, "m.add_state", i, "", "\"q\":0", |f| Ok(f.add_state()), |x| format!("[{}]", x));
                }
            }
            6 => {
                let m = r.gen_range(0..=3);
                if n + m < 8 {
                    s.mutate(log, "m.add_states", i, "", &format!("\"n\":{}", m), |f| { f.add_states(m); Ok(()) }, nothing);
                }
            }
            7..=11 => {
                if n > 0 {
                    let t: Tr<W> = rtr(r, n);
                    let a = format!("{},\"t\":{}", qa, tj(&t));
                    let em = r.gen_bool(0.3);
                    s.mutate(log, "m.add_tr", i, via, &a, |f| unsafe {
                        match (un, em) {
                            (true, false) => f.add_tr_unchecked(q, t),
                            (true, true) => f.emplace_tr_unchecked(q, t.ilabel, t.olabel, t.weight, t.nextstate),
                            (false, false) => return f.add_tr(q, t),
                            (false, true) => return f.emplace_tr(q, t.ilabel, t.olabel, t.weight, t.nextstate),
                        }
                        Ok(())
                    }, nothing);
                }
            }
            12 => {
                s.mutate(log, "m.del_state", i, "", &qa, |f| f.del_state(q), nothing);
            }
            13 => {
                let mut qs: Vec<StateId> = (0..n as StateId).filter(|_| r.gen_bool(0.3)).collect();
                qs.shuffle(r);
                if !ok {
                    qs.push(q);
                }
                if r.gen_bool(0.1) && !qs.is_empty() {
                    qs.push(qs[0]);
                }
                s.mutate(log, "m.del_states", i, "", &format!("\"qs\":{:?}", qs), |f| f.del_states(qs), nothing);
            }
            14 => {
                if r.gen_bool(0.2) {
                    s.mutate(log, "m.del_all", i, "", "\"q\":0", |f| { f.del_all_states(); Ok(()) }, nothing);
                }
            }
            15 => {
                s.mutate(log, "m.del_final", i, via, &qa, |f| if un { unsafe { f.delete_final_weight_unchecked(q); Ok(()) } } else { f.delete_final_weight(q) }, nothing);
            }
            16 => {
                s.mutate(log, "m.take_final", i, via, &qa, |f| if un { unsafe { Ok(f.take_final_weight_unchecked(q)) } } else { f.take_final_weight(q) }, |x| fj(x.clone()));
            }
            17 => {
                s.mutate(log, "m.del_trs", i, "", &qa, |f| f.delete_trs(q), nothing);
            }
            18 => {
                s.mutate(log, "m.pop_trs", i, via, &qa, |f| if un { unsafe { Ok(f.pop_trs_unchecked(q)) } } else { f.pop_trs(q) }, |x| tsj(x));
            }
            19 => {
                if ok {
                    let ids: Vec<usize> = (0..nt).filter(|_| r.gen_bool(0.5)).collect();
                    s.mutate(log, "m.del_trs_ids", i, "", &format!("{},\"ids\":{:?}", qa, ids), |f| unsafe { f.del_trs_id_sorted_unchecked(q, &ids); Ok(()) }, nothing);
                }
            }
            20 => {
                if ok && r.gen_bool(0.5) {
                    let ts: Vec<Tr<W>> = (0..r.gen_range(0..4)).map(|_| rtr(r, n)).collect();
                    // documented not to keep the properties up to date
                    s.mutate(log, "m.set_trs", i, "", &format!("{},\"ts\":{}", qa, tsj(&ts)), |f| unsafe {
                        f.set_trs_unchecked(q, ts);
                        f.set_properties(FstProperties::empty());
                        Ok(())
                    }, nothing);
                }
            }
            21..=24 => {
                let idx = if nt == 0 || r.gen_bool(bad) { nt } else { r.gen_range(0..nt) };
                let un = un && idx < nt;
                let via = if un { "u" } else { "c" };
                let mut t: Tr<W> = rtr(r, n);
                if zf && r.gen_bool(0.2) {
                    t.weight = W::zero();
                }
                let fld = *["i", "o", "io", "w", "n", "t", "t"].choose(r).unwrap();
                let fld = if fld == "io" && !un { "i" } else { fld };
                let a = format!("{},\"i\":{},\"fld\":\"{}\",\"t\":{}", qa, idx, fld, tj(&t));
                s.mutate(log, "m.iter", i, via, &a, |f| unsafe {
                    let mut it = if un { f.tr_iter_unchecked_mut(q) } else { f.tr_iter_mut(q)? };
                    match (fld, un) {
                        ("i", true) => it.set_ilabel_unchecked(idx, t.ilabel),
                        ("o", true) => it.set_olabel_unchecked(idx, t.olabel),
                        ("io", _) => it.set_labels_unchecked(idx, t.ilabel, t.olabel),
                        ("w", true) => it.set_weight_unchecked(idx, t.weight),
                        ("n", true) => it.set_nextstate_unchecked(idx, t.nextstate),
                        ("t", true) => it.set_tr_unchecked(idx, t),
                        ("i", false) => return it.set_ilabel(idx, t.ilabel),
                        ("o", false) => return it.set_olabel(idx, t.olabel),
                        ("w", false) => return it.set_weight(idx, t.weight),
                        ("n", false) => return it.set_nextstate(idx, t.nextstate),
                        _ => return it.set_tr(idx, t),
                    }
                    Ok(())
                }, nothing);
            }
            25 => {
                // which properties does the machine have?
                let mask = if r.gen_bool(0.5) {
                    FstProperties::all()
                } else {
                    // whole pairs
                    let mut m = 0u64;
                    for p in 0..16 {
                        if r.gen_bool(0.3) {
                            m |= 3 << (16 + 2 * p);
                        }
                    }
                    FstProperties::from_bits_truncate(m)
                };
                let mj = props_json(mask.bits());
                let all = mask == FstProperties::all();
                s.mutate(log, "m.props", i, "", &format!("\"mask\":{}", mj), |f| if all { f.compute_and_update_properties_all() } else { f.compute_and_update_properties(mask) }, |x| props_json(x.bits()));
            }
            26 => {
                if ok {
                    let op = *["m.sort", "m.unique", "m.sum"].choose(r).unwrap();
                    let by = *["i", "o"].choose(r).unwrap();
                    s.mutate(log, op, i, "", &format!("{},\"by\":\"{}\"", qa, by), |f| unsafe {
                        match op {
                            "m.sort" if by == "i" => f.sort_trs_unchecked(q, |a, b| a.ilabel.cmp(&b.ilabel)),
                            "m.sort" => f.sort_trs_unchecked(q, |a, b| a.olabel.cmp(&b.olabel)),
                            "m.unique" => f.unique_trs_unchecked(q),
                            _ => f.sum_trs_unchecked(q),
                        }
                        f.set_properties(FstProperties::empty());
                        Ok(())
                    }, nothing);
                }
            }
            27 => {
                if s.regs.len() < 4 {
                    let c = s.regs[i].clone();
                    let d = s.regs.len();
                    let h = hdr("m.clone", W::NAME, &[i], d as i64, "", "\"q\":0");
                    log.call(&h, || Ok(()), |_| Out::Fst(format!("{},\"ret\":[]", proj(&c))));
                    log.set_last(d, proj(&c));
                    s.regs.push(c);
                } else {
                    s.mutate(log, "m.alloc", i, "", "\"q\":0", |f| {
                        f.reserve_states(3);
                        if ok { f.reserve_trs(q, 2)?; f.shrink_to_fit_trs(q)?; }
                        f.shrink_to_fit_states();
                        f.shrink_to_fit();
                        Ok(())
                    }, nothing);
                }
            }
            _ => {
                if ok && s.held.len() < 6 {
                    let t = s.regs[i].get_trs(q).unwrap();
                    let was = tsj(t.trs());
                    s.held.push((t, was));
                }
            }
        }
        if r.gen_bool(0.12) {
            let h = hdr("m.read", W::NAME, &[i], -1, "", "\"q\":0");
            let f = &s.regs[i];
            log.call(&h, || {
                let c: ConstFst<W> = f.clone().into();
                let a = Arc::new(f.clone());
                Ok(format!(
                    "{{\"core\":{},\"unchecked\":{},\"iter\":{},\"into\":{},\"vec\":{},\"const\":{},\"const-unchecked\":{},\"const-iter\":{},\"const-into\":{},\"const-vec\":{},\"arc\":{}}}",
                    read_core(f)?, read_un(f), read_iter(f)?, read_into(f.clone())?, read_vec(f)?,
                    read_core(&c)?, read_un(&c), read_iter(&c)?, read_into(c.clone())?, read_vec(&c)?, read_core_arc(&a)?
                ))
            }, |s| Out::Val(s.clone()));
        }
        if r.gen_bool(0.05) {
            let c: ConstFst<W> = s.regs[i].clone().into();
            let h = hdr("m.const", W::NAME, &[i], -1, "", "\"q\":0");
            log.call(&h, || Ok(()), |_| Out::Fst(format!("{},\"ret\":[]", proj(&c))));
        }
        if r.gen_bool(0.08) {
            let j = r.gen_range(0..s.regs.len());
            let (a, b) = (&s.regs[i], &s.regs[j]);
            let h = hdr("m.eq", W::NAME, &[i, j], -1, "", "\"q\":0");
            log.call(&h, || Ok((a == b) as i32), |v| Out::Val(v.to_string()));
        }
    }
    for (t, was) in &s.held {
        let h = hdr("m.held", W::NAME, &[0], -1, "", &format!("\"was\":{}", was));
        log.call(&h, || Ok(tsj(t.trs())), |v| Out::Val(v.clone()));
    }
}
fn main() {
    drive(|log, r, c, _| match c % 5 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<LogWeight>(log, r),
        3 => go::<IntegerWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    })
}
