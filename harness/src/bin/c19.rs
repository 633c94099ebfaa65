//! Files: writing and reading machines in every format, for every serialisable weight type.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::fst_impls::ConstFst;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::io::*;
use vharness::*;

fn sy(r: &mut Rng, text: bool) -> Arc<SymbolTable> {
    let mut t = if r.gen_bool(0.8) { SymbolTable::new() } else { SymbolTable::empty() };
    for _ in 0..r.gen_range(0..5) {
        t.add_symbol(symbol(r, text));
    }
    Arc::new(t)
}
/// The older layout of the same file: states and transitions start at multiples of 16.
fn aligned<W: IoW>(f: &ConstFst<W>, b: Vec<u8>) -> anyhow::Result<Vec<u8>> {
    let len = |w: &W| {
        let mut v = vec![];
        w.write_binary(&mut v).map(|_| v.len())
    };
    let (mut ss, mut ts) = (0, 0);
    for s in f.states_iter() {
        ss += 16 + len(&f.final_weight(s)?.unwrap_or_else(W::zero))?;
        for t in f.get_trs(s)?.trs() {
            ts += 12 + len(&t.weight)?;
        }
    }
    let h = b.len() - ss - ts;
    let mut o = b[..h].to_vec();
    let n = |i: usize| i32::from_le_bytes(b[i..i + 4].try_into().unwrap()) as usize;
    let v = 8 + n(4);
    let v = v + 4 + n(v);
    o[v..v + 4].copy_from_slice(&1i32.to_le_bytes());
    let pad = |o: &mut Vec<u8>| {
        while o.len() % 16 > 0 {
            o.push(0);
        }
    };
    if ss > 0 {
        pad(&mut o);
    }
    o.extend_from_slice(&b[h..h + ss]);
    if ts > 0 {
        pad(&mut o);
    }
    o.extend_from_slice(&b[h + ss..]);
    Ok(o)
}
fn one<W: IoW>(log: &mut Log, r: &mut Rng, o: &Opts) {
    let g = Gen::random(r);
    let mut it = Intern::new::<W>();
    let mut f = machine::<W>(r, &g);
    if r.gen_bool(0.3) {
        f.set_input_symbols(sy(r, false));
    }
    if r.gen_bool(0.3) {
        f.set_output_symbols(sy(r, false));
    }
    if r.gen_bool(0.3) {
        let _ = f.compute_and_update_properties_all();
    }
    let x = proj_o(&f, &mut it);
    let dir = Scratch::new(o, log.case);
    for _ in 0..3 {
        let fmt = *["vec", "vecfile", "const", "constfile", "cross", "text", "textfile", "textvc", "textcv", "textcc", "textccfile", "hop", "wrongtype", "full", "twice", "constvec", "aligned", "alignedvec"]
            .choose(r)
            .unwrap();
        let p = dir.path.join("a.fst");
        let args = format!("\"fmt\":\"{}\",\"x\":{}", fmt, x);
        let op = match fmt {
            "wrongtype" => "io.reject",
            "full" => "io.reject",
            _ => "io.roundtrip",
        };
        if fmt == "full" && (!dev_full() || f.start().is_none()) {
            continue;
        }
        let h = hdr(op, "opq", &[], -1, W::NAME, &args);
        let k = r.gen_range(0..6);
        let cf = || -> ConstFst<W> { f.clone().into() };
        let store = |f: &VectorFst<W>| -> anyhow::Result<Vec<u8>> {
            let mut b = vec![];
            f.store(&mut b)?;
            Ok(b)
        };
        let cstore = |f: &ConstFst<W>| -> anyhow::Result<Vec<u8>> {
            let mut b = vec![];
            f.store(&mut b)?;
            Ok(b)
        };
        let mut it2 = it.clone();
        log.call(
            &h,
            || {
                let it = &mut it2;
                Ok(match fmt {
                    "vec" => proj_o(&VectorFst::<W>::load(&store(&f)?)?, it),
                    "vecfile" => {
                        f.write(&p)?;
                        proj_o(&VectorFst::<W>::read(&p)?, it)
                    }
                    // a longer file with the same name is replaced, not overlaid
                    "twice" => {
                        let mut big = f.clone();
                        for _ in 0..20 {
                            big.add_state();
                        }
                        big.write(&p)?;
                        f.write(&p)?;
                        anyhow::ensure!(std::fs::read(&p)? == store(&f)?, "file differs from store()");
                        proj_o(&VectorFst::<W>::read(&p)?, it)
                    }
                    "const" => proj_o(&ConstFst::<W>::load(&cstore(&cf())?)?, it),
                    "constfile" => {
                        cf().write(&p)?;
                        proj_o(&ConstFst::<W>::read(&p)?, it)
                    }
                    "cross" => {
                        let c = ConstFst::<W>::load(&cstore(&cf())?)?;
                        let v: VectorFst<W> = rustfst::algorithms::fst_convert_from_ref(&c);
                        proj_o(&VectorFst::<W>::load(&store(&v)?)?, it)
                    }
                    // the file of a constant machine, read as a modifiable one
                    "constvec" => {
                        cf().write(&p)?;
                        proj_o(&VectorFst::<W>::read_from_const(&p)?, it)
                    }
                    "aligned" => proj_o(&ConstFst::<W>::load(&aligned(&cf(), cstore(&cf())?)?)?, it),
                    "alignedvec" => {
                        std::fs::write(&p, aligned(&cf(), cstore(&cf())?)?)?;
                        proj_o(&VectorFst::<W>::read_from_const(&p)?, it)
                    }
                    "text" => proj_o(&VectorFst::<W>::from_text_string(&f.text()?)?, it),
                    "textfile" => {
                        f.write_text(&p)?;
                        proj_o(&VectorFst::<W>::read_text(&p)?, it)
                    }
                    "textvc" => proj_o(&ConstFst::<W>::from_text_string(&f.text()?)?, it),
                    "textcv" => proj_o(&VectorFst::<W>::from_text_string(&cf().text()?)?, it),
                    "textcc" => proj_o(&ConstFst::<W>::from_text_string(&cf().text()?)?, it),
                    "textccfile" => {
                        cf().write_text(&p)?;
                        proj_o(&ConstFst::<W>::read_text(&p)?, it)
                    }
                    "hop" => {
                        let v = VectorFst::<W>::load(&store(&f)?)?;
                        let c = ConstFst::<W>::from_text_string(&v.text()?)?;
                        let c = ConstFst::<W>::load(&cstore(&c)?)?;
                        let v = VectorFst::<W>::from_text_string(&c.text()?)?;
                        proj_o(&VectorFst::<W>::load(&store(&v)?)?, it)
                    }
                    "wrongtype" if k == 5 && r.gen_bool(0.5) => {
                        f.write(&p)?;
                        proj_o(&VectorFst::<W>::read_from_const(&p)?, it)
                    }
                    "wrongtype" => match k {
                        0 => proj_o(&ConstFst::<W>::load(&store(&f)?)?, it),
                        1 => proj_o(&VectorFst::<W>::load(&cstore(&cf())?)?, it),
                        2 => {
                            VectorFst::<W::Other>::load(&store(&f)?)?;
                            "0".into()
                        }
                        3 => {
                            ConstFst::<W::Other>::load(&cstore(&cf())?)?;
                            "0".into()
                        }
                        4 => {
                            VectorFst::<W>::read(dir.path.join("missing"))?;
                            "0".into()
                        }
                        _ => {
                            VectorFst::<W>::read_text(dir.path.join("missing"))?;
                            "0".into()
                        }
                    },
                    "full" => {
                        match k {
                            0 => cf().write("/dev/full")?,
                            1 | 2 => f.write_text("/dev/full")?,
                            3 => cf().write_text("/dev/full")?,
                            _ => f.write("/dev/full")?,
                        }
                        "0".into()
                    }
                    _ => unreachable!(),
                })
            },
            |s| Out::Fst(s.clone()),
        );
        it = it2;
    }
    // the byte layout is the OpenFst one
    if W::NAME == "standard" || W::NAME == "log" {
        let vec = r.gen_bool(0.5);
        let args = format!("\"fmt\":\"{}\",\"x\":{},\"isyb\":{},\"osyb\":{}", if vec { "vec" } else { "const" }, x, symb(f.input_symbols()), symb(f.output_symbols()));
        let h = hdr("io.layout", "opq", &[], -1, W::NAME, &args);
        log.call(
            &h,
            || {
                let mut b = vec![];
                if vec {
                    f.store(&mut b)?;
                } else {
                    let c: ConstFst<W> = f.clone().into();
                    c.store(&mut b)?;
                }
                Ok(format!("{{\"b\":{:?},\"wb\":{}}}", b, it.bytes_json()))
            },
            |s| Out::Val(s.clone()),
        );
    }
}
fn symt(log: &mut Log, r: &mut Rng, o: &Opts) {
    let dir = Scratch::new(o, log.case);
    for _ in 0..3 {
        let fmt = *["bin", "text", "textfile", "full", "layout"].choose(r).unwrap();
        let t = sy(r, fmt != "bin" && fmt != "full" && fmt != "layout");
        let p = dir.path.join("s");
        if fmt == "full" && !dev_full() {
            continue;
        }
        if fmt == "layout" {
            let h = hdr("io.layout", "opq", &[], -1, "symt", &format!("\"fmt\":\"symt\",\"isyb\":{}", symb(Some(&t))));
            log.call(
                &h,
                || {
                    t.write(&p)?;
                    Ok(format!("{{\"b\":{:?}}}", std::fs::read(&p)?))
                },
                |s| Out::Val(s.clone()),
            );
            continue;
        }
        let h = hdr(
            if fmt == "full" { "io.reject" } else { "io.symt" },
            "opq",
            &[],
            -1,
            "symt",
            &format!("\"fmt\":\"{}\",\"x\":{}", fmt, symj(Some(&t))),
        );
        let k = r.gen_bool(0.5);
        log.call(
            &h,
            || {
                let u = match fmt {
                    "bin" => {
                        t.write(&p)?;
                        SymbolTable::read(&p)?
                    }
                    "text" => SymbolTable::from_text_string(&t.text()?)?,
                    "full" => {
                        if k {
                            if t.is_empty() {
                                anyhow::bail!("nothing to write");
                            }
                            t.write_text("/dev/full")?
                        } else {
                            t.write("/dev/full")?
                        }
                        SymbolTable::empty()
                    }
                    _ => {
                        t.write_text(&p)?;
                        SymbolTable::read_text(&p)?
                    }
                };
                anyhow::ensure!(fmt == "full" || u == *t, "read table compares unequal");
                Ok(symj(Some(&Arc::new(u))))
            },
            |s| Out::Fst(s.clone()),
        );
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, o: &Opts) {
    match c % 14 {
        0 | 1 | 2 | 3 => one::<TropicalWeight>(log, r, o),
        4 => one::<LogWeight>(log, r, o),
        5 => one::<ProbabilityWeight>(log, r, o),
        6 => one::<IntegerWeight>(log, r, o),
        7 => one::<StringWeightLeft>(log, r, o),
        8 => one::<StringWeightRight>(log, r, o),
        9 => one::<ProductWeight<TropicalWeight, LogWeight>>(log, r, o),
        10 => one::<GallicWeightLeft<TropicalWeight>>(log, r, o),
        11 => one::<GallicWeight<TropicalWeight>>(log, r, o),
        12 => one::<StringWeightRestrict>(log, r, o),
        _ => symt(log, r, o),
    }
}
fn main() {
    drive(run)
}
