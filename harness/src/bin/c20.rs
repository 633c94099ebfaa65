//! Damaged files: every loader is given truncated, overwritten and spliced bytes and texts.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::fst_impls::ConstFst;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::io::*;
use vharness::*;

fn sy(r: &mut Rng) -> Arc<SymbolTable> {
    let mut t = if r.gen_bool(0.8) { SymbolTable::new() } else { SymbolTable::empty() };
    for _ in 0..r.gen_range(0..4) {
        t.add_symbol(symbol(r, false));
    }
    Arc::new(t)
}
/// (what was done, first damaged offset)
fn damage(r: &mut Rng, b: &mut Vec<u8>, other: &[u8]) -> (&'static str, usize) {
    let n = b.len();
    let at = if r.gen_bool(0.3) { r.gen_range(0..n.min(70)) } else { r.gen_range(0..n) };
    match r.gen_range(0..10) {
        0 | 1 => {
            b.truncate(at);
            ("trunc", at)
        }
        2 => {
            b[at] ^= 1 << r.gen_range(0..8);
            ("flip", at)
        }
        3 | 4 => {
            let v: i32 = *[-1, -2, 0, 1, 2, 3, 7, 1000, i32::MAX, i32::MIN, 65536, 0x7fff_ffff - 3].choose(r).unwrap();
            let mut ch = n;
            for (i, x) in v.to_le_bytes().iter().enumerate() {
                if at + i < n && b[at + i] != *x {
                    ch = ch.min(at + i);
                    b[at + i] = *x;
                }
            }
            (if ch == n { "same" } else { "int" }, ch)
        }
        5 => {
            let v: i64 = *[-1, -2, 0, 1, 2, 5, i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 1].choose(r).unwrap();
            let mut ch = n;
            for (i, x) in v.to_le_bytes().iter().enumerate() {
                if at + i < n && b[at + i] != *x {
                    ch = ch.min(at + i);
                    b[at + i] = *x;
                }
            }
            (if ch == n { "same" } else { "int" }, ch)
        }
        6 => {
            b.insert(at, r.gen());
            ("splice", at)
        }
        7 => {
            b.remove(at);
            ("splice", at)
        }
        8 => {
            let k = r.gen_range(0..=other.len());
            b.truncate(at);
            b.extend_from_slice(&other[k..]);
            ("splice", at)
        }
        _ => {
            b[at] = r.gen();
            ("splice", at)
        }
    }
}
/// Half of the integers of a binary file are at fixed places: aim at them.
fn aimed(r: &mut Rng, b: &mut [u8], n: usize, vec: bool) -> Option<&'static str> {
    // header without symbol tables: 4 + (4+t) + (4+a) + 4 + 4 + 8 + 8 + 8 + 8
    let t = i32::from_le_bytes(b.get(4..8)?.try_into().ok()?) as usize;
    let a = i32::from_le_bytes(b.get(8 + t..12 + t)?.try_into().ok()?) as usize;
    let h = 12 + t + a;
    let small = r.gen_range(-2i64..(n as i64 + 3));
    let (at, w) = match r.gen_range(0..6) {
        0 => (h + 16, 8),                         // start
        1 => (h + 24, 8),                         // number of states
        2 => (h + 32, 8),                         // number of transitions
        _ if vec => (h + 40 + r.gen_range(0..6usize) * 4, if r.gen_bool(0.5) { 4 } else { 8 }),
        _ => (h + 40 + r.gen_range(0..(5 * n + 8)) * 4, 4), // a field of some state
    };
    if at + w > b.len() {
        return None;
    }
    b[at..at + w].copy_from_slice(&small.to_le_bytes()[..w]);
    Some("aimed")
}
fn binary<W: IoW>(log: &mut Log, r: &mut Rng, o: &Opts) {
    let d = Scratch::new(o, log.case);
    let g = Gen::random(r);
    let mut f = machine::<W>(r, &g);
    let f2 = machine::<W>(r, &g);
    if r.gen_bool(0.25) {
        f.set_input_symbols(sy(r));
    }
    if r.gen_bool(0.15) {
        f.set_output_symbols(sy(r));
    }
    let vec = r.gen_bool(0.5);
    let bytes = |f: &VectorFst<W>| {
        let mut b = vec![];
        if vec {
            f.store(&mut b).unwrap();
        } else {
            let c: ConstFst<W> = f.clone().into();
            c.store(&mut b).unwrap();
        }
        b
    };
    let (b1, b2) = (bytes(&f), bytes(&f2));
    for _ in 0..8 {
        let mut b = b1.clone();
        let mut it = Intern::new::<W>();
        let (how, off) = match r.gen_bool(0.5) {
            true if f.input_symbols().is_none() && f.output_symbols().is_none() => match aimed(r, &mut b, f.num_states(), vec) {
                Some(h) => (h, 100000),
                None => damage(r, &mut b, &b2),
            },
            _ => damage(r, &mut b, &b2),
        };
        let ty = if vec { "vec" } else { "const" };
        let through = !vec && r.gen_bool(0.4);
        let p = d.path.join("m");
        if through {
            std::fs::write(&p, &b).unwrap();
        }
        let h = hdr("io.load", "opq", &[], -1, W::NAME, &format!("\"fmt\":\"{}\",\"how\":\"{}\",\"off\":{},\"len\":{}", ty, how, off, b.len()));
        log.call(
            &h,
            || {
                Ok(if through { proj_o(&VectorFst::<W>::read_from_const(&p)?, &mut it) } else if vec { proj_o(&VectorFst::<W>::load(&b)?, &mut it) } else { proj_o(&ConstFst::<W>::load(&b)?, &mut it) })
            },
            |s| Out::Fst(s.clone()),
        );
    }
}
fn symt(log: &mut Log, r: &mut Rng, o: &Opts) {
    let d = Scratch::new(o, log.case);
    let p = d.path.join("s");
    let (t, t2) = (sy(r), sy(r));
    t2.write(&p).unwrap();
    let b2 = std::fs::read(&p).unwrap();
    t.write(&p).unwrap();
    let b1 = std::fs::read(&p).unwrap();
    for _ in 0..6 {
        let mut b = b1.clone();
        let (how, off) = damage(r, &mut b, &b2);
        std::fs::write(&p, &b).unwrap();
        let h = hdr("io.load", "opq", &[], -1, "symt", &format!("\"fmt\":\"symt\",\"how\":\"{}\",\"off\":{},\"len\":{}", how, off, b.len()));
        log.call(
            &h,
            || {
                let t = SymbolTable::read(&p)?;
                Ok(format!(
                    "{{\"n\":{},\"back\":[{}],\"it\":[{}]}}",
                    t.len(),
                    (0..t.len()).map(|l| t.get_symbol(l as Label).and_then(|s| t.get_label(s)).map(|x| x as i64).unwrap_or(-1).to_string()).collect::<Vec<_>>().join(","),
                    t.labels().map(|l| l.to_string()).collect::<Vec<_>>().join(",")
                ))
            },
            |s| Out::Fst(s.clone()),
        );
    }
}
const CH: &[u8] = b"0123456789\t\t\n\n -.ax\r+";
fn scramble(r: &mut Rng, t: &mut Vec<u8>) {
    for _ in 0..r.gen_range(0..3) {
        if t.is_empty() {
            t.push(*CH.choose(r).unwrap());
        }
        let at = r.gen_range(0..t.len());
        match r.gen_range(0..7) {
            0 => t.truncate(at),
            1 => t.insert(at, *CH.choose(r).unwrap()),
            2 => {
                t.remove(at);
            }
            3 => t[at] = *CH.choose(r).unwrap(),
            4 => {
                let mut ls: Vec<Vec<u8>> = t.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                ls.shuffle(r);
                *t = ls.join(&b'\n');
            }
            5 => {
                let ls: Vec<Vec<u8>> = t.split(|c| *c == b'\n').map(|x| x.to_vec()).collect();
                let x = ls.choose(r).unwrap().clone();
                t.push(b'\n');
                t.extend(x);
            }
            _ => {
                if t.last() == Some(&b'\n') {
                    t.pop();
                }
            }
        }
    }
}
fn long_run(t: &[u8]) -> bool {
    t.split(|c| !c.is_ascii_digit()).any(|d| d.len() > 6)
}
fn text(log: &mut Log, r: &mut Rng, o: &Opts) {
    let g = Gen::random(r);
    let f = gen_fst::<IntegerWeight>(r, &g);
    let t0 = if r.gen_bool(0.9) { f.text().unwrap().into_bytes() } else { b"3\tInfinity\n0\t3\t1\t1\n2\n".to_vec() };
    let d = Scratch::new(o, log.case);
    let p = d.path.join("t");
    for _ in 0..6 {
        let mut t = t0.clone();
        scramble(r, &mut t);
        if long_run(&t) {
            continue;
        }
        let (cst, file) = (r.gen_bool(0.4), r.gen_bool(0.2));
        std::fs::write(&p, &t).unwrap();
        let s = String::from_utf8(t.clone()).unwrap();
        let h = hdr("io.text", "int", &[], -1, if cst { "const" } else { "vec" }, &format!("\"t\":{:?}", t));
        log.call(
            &h,
            || {
                Ok(match (cst, file) {
                    (false, false) => proj(&VectorFst::<IntegerWeight>::from_text_string(&s)?),
                    (false, true) => proj(&VectorFst::<IntegerWeight>::read_text(&p)?),
                    (true, false) => proj(&ConstFst::<IntegerWeight>::from_text_string(&s)?),
                    (true, true) => proj(&ConstFst::<IntegerWeight>::read_text(&p)?),
                })
            },
            |s| Out::Fst(s.clone()),
        );
    }
}
fn symtext(log: &mut Log, r: &mut Rng, o: &Opts) {
    let mut t0 = String::new();
    let n = r.gen_range(0..5);
    for i in 0..n {
        let s = *["a", "b", "c", "dd", "<eps>", "é"].choose(r).unwrap();
        t0.push_str(&if r.gen_bool(0.7) { format!("s{}\t{}\n", i, i) } else { format!("{}{}{}\n", s, [" ", "\t", " \t "].choose(r).unwrap(), i) });
    }
    let d = Scratch::new(o, log.case);
    let p = d.path.join("t");
    for _ in 0..6 {
        let mut t = t0.clone().into_bytes();
        scramble(r, &mut t);
        if long_run(&t) {
            continue;
        }
        let file = r.gen_bool(0.3);
        std::fs::write(&p, &t).unwrap();
        let s = String::from_utf8(t.clone());
        let h = hdr("io.symtext", "opq", &[], -1, "symt", &format!("\"u\":{},\"t\":{:?}", s.is_ok(), t));
        log.call(
            &h,
            || {
                let x = match (&s, file) {
                    (Ok(s), false) => SymbolTable::from_text_string(s)?,
                    _ => SymbolTable::read_text(&p)?,
                };
                Ok(format!("{:?}", (0..x.len()).map(|l| x.get_symbol(l as Label).unwrap().as_bytes().to_vec()).collect::<Vec<_>>()))
            },
            |s| Out::Fst(s.clone()),
        );
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, o: &Opts) {
    match c % 10 {
        0 | 1 | 2 => binary::<TropicalWeight>(log, r, o),
        3 => binary::<StringWeightLeft>(log, r, o),
        4 => binary::<GallicWeight<TropicalWeight>>(log, r, o),
        5 => symt(log, r, o),
        6 | 7 => text(log, r, o),
        8 => symtext(log, r, o),
        _ => binary::<IntegerWeight>(log, r, o),
    }
}
fn main() {
    drive(run)
}
