//! Histories of calls through the C interface.  Every register is a C handle; what it holds is read back
//! through the C accessors only.
use anyhow::{anyhow, ensure, Result};
use ffi_convert::{AsRust, CArray, CReprOf, RawPointerConverter};
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::prelude::*;
use rustfst_ffi::algorithms::compose::*;
use rustfst_ffi::algorithms::concat::*;
use rustfst_ffi::algorithms::connect::*;
use rustfst_ffi::algorithms::determinize::*;
use rustfst_ffi::algorithms::isomorphic::*;
use rustfst_ffi::algorithms::optimize::*;
use rustfst_ffi::algorithms::project::*;
use rustfst_ffi::algorithms::randgen::*;
use rustfst_ffi::algorithms::replace::*;
use rustfst_ffi::algorithms::reverse::*;
use rustfst_ffi::algorithms::rm_epsilon::*;
use rustfst_ffi::algorithms::shortest_path::*;
use rustfst_ffi::algorithms::top_sort::*;
use rustfst_ffi::algorithms::tr_sort::*;
use rustfst_ffi::algorithms::tr_unique::*;
use rustfst_ffi::algorithms::union::*;
use rustfst_ffi::fst::concat_fst::*;
use rustfst_ffi::fst::const_fst::*;
use rustfst_ffi::fst::utils::*;
use rustfst_ffi::fst::vector_fst::*;
use rustfst_ffi::fst::*;
use rustfst_ffi::iterators::*;
use rustfst_ffi::string_path::*;
use rustfst_ffi::string_paths_iterator::*;
use rustfst_ffi::symbol_table::*;
use rustfst_ffi::tr::*;
use rustfst_ffi::trs::*;
use rustfst_ffi::*;
use std::ffi::{CStr, CString};
use std::ptr::null;
use vharness::io::Scratch;
use vharness::*;

type T = TropicalWeight;
type V = VectorFst<T>;
type H = *const CFst;
enum CMinimizeConfig {}
extern "C" {
    fn fst_minimize_config_new(delta: f32, allow_nondet: bool, ptr: *mut *const CMinimizeConfig) -> RUSTFST_FFI_RESULT;
    fn fst_minimize(ptr: *mut CFst) -> RUSTFST_FFI_RESULT;
    fn fst_minimize_with_config(ptr: *mut CFst, config: *const CMinimizeConfig) -> RUSTFST_FFI_RESULT;
}

fn ck(x: RUSTFST_FFI_RESULT) -> Result<()> {
    if x == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_OK {
        return Ok(());
    }
    unsafe {
        let mut p: *mut libc::c_char = std::ptr::null_mut();
        assert!(rustfst_ffi_get_last_error(&mut p) == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_OK);
        let m = CStr::from_ptr(p).to_string_lossy().into_owned();
        rustfst_destroy_string(p);
        assert!(!m.is_empty() && m != "No error message", "failure without a message");
        Err(anyhow!("{}", m.chars().take(80).collect::<String>()))
    }
}
fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}
unsafe fn rs(p: *const libc::c_char) -> String {
    let s = CStr::from_ptr(p).to_str().unwrap().to_string();
    rustfst_destroy_string(p as _);
    s
}
unsafe fn rd_tr(p: *const CTr) -> Result<Tr<T>> {
    let (mut i, mut o, mut n, mut w) = (0, 0, 0, 0.0);
    ck(tr_ilabel(p, &mut i))?;
    ck(tr_olabel(p, &mut o))?;
    ck(tr_weight(p, &mut w))?;
    ck(tr_next_state(p, &mut n))?;
    ck(tr_delete(p as _))?;
    Ok(Tr::new(i, o, T::new(w), n))
}
unsafe fn mk_tr(t: &Tr<T>, edit: bool) -> Result<*const CTr> {
    let mut p = null();
    if edit {
        ck(tr_new(7, 8, 0.25, 9, &mut p))?;
        let m = p as *mut CTr;
        ck(tr_set_weight(m, *t.weight.value()))?;
        ck(tr_set_next_state(m, t.nextstate as usize as *const _))?;
        ck(tr_set_ilabel(m, t.ilabel as usize as *const _))?;
        ck(tr_set_olabel(m, t.olabel as usize as *const _))?;
    } else {
        ck(tr_new(t.ilabel, t.olabel, *t.weight.value(), t.nextstate, &mut p))?;
    }
    Ok(p)
}
unsafe fn rd_trs(h: H, q: u32) -> Result<Vec<Tr<T>>> {
    let mut it = null();
    ck(trs_iterator_new(h as _, q, &mut it))?;
    ensure!(!it.is_null(), "no such state");
    let mut v = vec![];
    for pass in 0..2 {
        v.clear();
        loop {
            let mut d = 2;
            ck(trs_iterator_done(it, &mut d))?;
            let mut t = null();
            if d != 0 {
                break;
            }
            ck(trs_iterator_next(it as _, &mut t))?;
            assert!(!t.is_null(), "not done but nothing next");
            v.push(rd_tr(t)?);
        }
        if pass == 0 {
            ck(trs_iterator_reset(it as _))?;
        }
    }
    ck(trs_iterator_destroy(it as _))?;
    Ok(v)
}
/// The transitions as a list handle: its length, and its content by removing from a clone.
unsafe fn rd_trs_vec(h: H, q: u32) -> Result<Vec<Tr<T>>> {
    let (mut a, mut b) = (null(), null());
    ck(fst_get_trs(h, q, &mut a))?;
    ck(trs_vec_shallow_clone(a, &mut b))?;
    let (mut n, mut m) = (0, 0);
    ck(trs_vec_len(a, &mut n))?;
    let mut v = vec![];
    for _ in 0..n {
        let mut t = null();
        ck(trs_vec_remove(b as _, 0, &mut t))?;
        v.push(rd_tr(t)?);
    }
    ck(trs_vec_len(b, &mut m))?;
    assert!(m == 0);
    let p = mk_tr(&Tr::new(1, 2, T::one(), 3), true)?;
    ck(trs_vec_push(b as _, p))?;
    ck(trs_vec_len(b, &mut m))?;
    let mut t = null();
    assert!(m == 1 && trs_vec_remove(b as _, 1, &mut t) == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO, "removal past the end");
    ck(tr_delete(p as _))?;
    // the list of the machine is not affected
    ck(trs_vec_len(a, &mut m))?;
    assert!(m == n, "a handed out list changed with its clone");
    ck(trs_vec_delete(b as _))?;
    ck(trs_vec_delete(a as _))?;
    Ok(v)
}
/// Reads a machine with `n` states through the C accessors.
unsafe fn snap_n(h: H, n: usize) -> Result<V> {
    let mut f = V::new();
    f.add_states(n);
    let mut s = u32::MAX;
    ck(fst_start(h, &mut s))?;
    if s != u32::MAX {
        f.set_start(s)?;
    }
    for q in 0..n as u32 {
        let (mut fi, mut st, mut nt) = (9, 9, 0);
        let mut w = f32::NAN;
        ck(fst_is_final(h, q, &mut fi))?;
        ck(fst_is_start(h, q, &mut st))?;
        ck(fst_final_weight(h, q, &mut w))?;
        ck(fst_num_trs(h, q, &mut nt))?;
        assert!(fi == !w.is_nan() as usize, "is_final and final_weight disagree");
        assert!(st == (s == q) as usize, "is_start and start disagree");
        if fi == 1 {
            f.set_final(q, T::new(w))?;
        }
        let a = rd_trs(h, q)?;
        let b = rd_trs_vec(h, q)?;
        assert!(a == b && a.len() == nt, "transition accessors disagree");
        for t in a {
            f.add_tr(q, t)?;
        }
    }
    for q in [n as u32, n as u32 + 3] {
        let (mut x, mut w, mut p, mut it) = (5, 0.5, null(), null());
        let ko = RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO;
        assert!(fst_is_final(h, q, &mut x) == ko && fst_num_trs(h, q, &mut x) == ko, "unknown state accepted");
        assert!(fst_final_weight(h, q, &mut w) == ko && fst_get_trs(h, q, &mut p) == ko, "unknown state accepted");
        let _ = trs_iterator_new(h as _, q, &mut it);
        assert!(it.is_null(), "iterator over an unknown state");
    }
    Ok(f)
}
unsafe fn snap(h: H) -> Result<V> {
    let mut n = 0;
    ck(vec_fst_num_states(h, &mut n))?;
    let mut it = null();
    ck(state_iterator_new(h as *mut CVecFst, &mut it))?;
    let mut k = 0;
    loop {
        let (mut d, mut q) = (9, u32::MAX);
        ck(state_iterator_done(it as _, &mut d))?;
        if d != 0 {
            break;
        }
        ck(state_iterator_next(it as _, &mut q))?;
        assert!(q == k, "state iterator");
        k += 1;
    }
    assert!(k as usize == n);
    ck(state_iterator_destroy(it as _))?;
    snap_n(h, n)
}
fn new_handle(f: V) -> H {
    CFst(Box::new(f)).into_raw_pointer()
}
/// Builds the machine with C calls only.
unsafe fn build(r: &mut Rng, f: &V) -> Result<H> {
    let mut h = null();
    ck(vec_fst_new(&mut h))?;
    let m = h as *mut CFst;
    for q in 0..f.num_states() {
        let mut x = u32::MAX;
        ck(vec_fst_add_state(m, &mut x))?;
        assert!(x as usize == q);
    }
    for q in f.states_iter() {
        for t in f.get_trs(q)?.trs() {
            let p = mk_tr(t, r.gen_bool(0.3))?;
            ck(vec_fst_add_tr(m, q, p))?;
            ck(tr_delete(p as _))?;
        }
        if let Some(w) = f.final_weight(q)? {
            ck(vec_fst_set_final(m, q, *w.value()))?;
        }
    }
    if let Some(s) = f.start() {
        ck(vec_fst_set_start(m, s))?;
    }
    Ok(h)
}
struct S {
    regs: Vec<H>,
}
impl S {
    fn add(&mut self, log: &mut Log, r: &mut Rng, f: V) -> usize {
        let i = self.regs.len();
        log.new_reg(i, &f);
        let by_c = r.gen_bool(0.5);
        log.announce(&hdr("convert", "trop", &[i], -1, "ffi-build", "\"kind\":0"));
        let h = if by_c { unsafe { build(r, &f).expect("building") } } else { new_handle(f) };
        self.regs.push(h);
        self.obs(log);
        i
    }
    fn obs(&self, log: &mut Log) {
        log.announce(&hdr("convert", "trop", &[0], -1, "ffi-read", "\"kind\":0"));
        for (i, h) in self.regs.iter().enumerate() {
            log.observe(i, &unsafe { snap(*h).expect("reading a handle") });
        }
    }
    fn get(&self, i: usize) -> V {
        unsafe { snap(self.regs[i]).expect("reading a handle") }
    }
    /// Runs a call on the handles; the machine behind `dst` afterwards is its result.
    fn apply(&mut self, log: &mut Log, op: &str, ins: &[usize], dst: usize, via: &str, args: &str, f: impl FnOnce(&mut Vec<H>) -> Result<()>) -> bool {
        self.mutate(log, op, ins, dst, via, args, |x| f(x).map(|_| String::new()))
    }
    fn mutate(&mut self, log: &mut Log, op: &str, ins: &[usize], dst: usize, via: &str, args: &str, f: impl FnOnce(&mut Vec<H>) -> Result<String>) -> bool {
        let h = hdr(op, "trop", ins, dst as i64, via, args);
        let regs = &mut self.regs;
        let mut p = String::new();
        let ok = log
            .call(
                &h,
                || {
                    let ret = f(regs)?;
                    Ok((proj(&unsafe { snap(regs[dst])? }), ret))
                },
                |(q, ret)| {
                    p = q.clone();
                    Out::Fst(if ret.is_empty() { q.clone() } else { format!("{},\"ret\":{}", q, ret) })
                },
            )
            .is_some();
        if ok {
            log.set_last(dst, p);
        }
        self.obs(log);
        ok
    }
    fn query(&mut self, log: &mut Log, op: &str, ins: &[usize], via: &str, args: &str, f: impl FnOnce(&[H]) -> Result<String>) -> Option<String> {
        let h = hdr(op, "trop", ins, -1, via, args);
        let regs = &self.regs;
        let res = log.call(&h, || f(regs), |s| Out::Val(s.clone()));
        self.obs(log);
        res
    }
    fn done(self) {
        for h in self.regs {
            unsafe { fst_destroy(h as _) };
        }
    }
}
fn tj(t: &Tr<T>) -> String {
    format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), t.nextstate)
}
fn mutators(log: &mut Log, r: &mut Rng) {
    let mut s = S { regs: vec![] };
    for _ in 0..r.gen_range(1..=2) {
        let mut g = Gen::random(r);
        if r.gen_bool(0.4) {
            g.max_states = 0;
            g.min_states = 0;
        }
        let mut f: V = gen_fst(r, &g);
        maybe_props(r, &mut f);
        s.add(log, r, f);
    }
    let bad = if r.gen_bool(0.5) { 0.0 } else { 0.08 };
    for _ in 0..r.gen_range(5..18) {
        let i = r.gen_range(0..s.regs.len());
        let f = s.get(i);
        let n = f.num_states();
        let q = if n == 0 || r.gen_bool(bad) { n + r.gen_range(0..2) } else { r.gen_range(0..n) };
        let nt = if q < n { f.num_trs(q as u32).unwrap() } else { 0 };
        let q = q as StateId;
        let qa = format!("\"q\":{}", q);
        let nx = r.gen_range(0..n.max(1)) as StateId;
        let t: Tr<T> = Tr::new(r.gen_range(0..4), r.gen_range(0..4), T::rnd(r), nx);
        let edit = r.gen_bool(0.4);
        match r.gen_range(0..14) {
            0 | 1 => {
                s.mutate(log, "m.set_start", &[i], i, "ffi", &qa, |x| unsafe { ck(vec_fst_set_start(x[i] as _, q)).map(|_| "[]".into()) });
            }
            2 | 3 => {
                let w = T::rndf(r);
                s.mutate(log, "m.set_final", &[i], i, "ffi", &format!("{},\"w\":{}", qa, w.enc()), |x| unsafe { ck(vec_fst_set_final(x[i] as _, q, *w.value())).map(|_| "[]".into()) });
            }
            4 | 5 => {
                if n < 7 {
                    s.mutate(log, "m.add_state", &[i], i, "ffi", "\"q\":0", |x| unsafe {
                        let mut k = u32::MAX;
                        ck(vec_fst_add_state(x[i] as _, &mut k))?;
                        Ok(format!("[{}]", k))
                    });
                }
            }
            6..=8 => {
                if n > 0 {
                    s.mutate(log, "m.add_tr", &[i], i, "ffi", &format!("{},\"t\":{}", qa, tj(&t)), |x| unsafe {
                        let p = mk_tr(&t, edit)?;
                        let k = ck(vec_fst_add_tr(x[i] as _, q, p));
                        ck(tr_delete(p as _))?;
                        k.map(|_| "[]".into())
                    });
                }
            }
            9 => {
                if r.gen_bool(0.2) {
                    s.mutate(log, "m.del_all", &[i], i, "ffi", "\"q\":0", |x| unsafe { ck(vec_fst_delete_states(x[i] as _)).map(|_| "[]".into()) });
                }
            }
            10 => {
                s.mutate(log, "m.del_final", &[i], i, "ffi", &qa, |x| unsafe { ck(vec_fst_del_final_weight(x[i] as _, q)).map(|_| "[]".into()) });
            }
            11 | 12 => {
                let idx = if nt == 0 || r.gen_bool(bad) { nt } else { r.gen_range(0..nt) };
                s.mutate(log, "m.iter", &[i], i, "ffi", &format!("{},\"i\":{},\"fld\":\"t\",\"t\":{}", qa, idx, tj(&t)), |x| unsafe {
                    let mut it = null();
                    ck(mut_trs_iterator_new(x[i] as *mut CVecFst, q, &mut it))?;
                    ensure!(!it.is_null(), "no such state");
                    let m = it as *mut _;
                    for k in 0..idx {
                        let (mut d, mut p) = (9, null());
                        ck(mut_trs_iterator_done(it, &mut d))?;
                        ck(mut_trs_iterator_value(m, &mut p))?;
                        assert!(d == 0 && rd_tr(p)? == f.get_trs(q)?.trs()[k], "mutable iteration");
                        ck(mut_trs_iterator_next(m))?;
                    }
                    let mut d = 9;
                    ck(mut_trs_iterator_done(it, &mut d))?;
                    assert!(d == (idx == nt) as usize);
                    let p = mk_tr(&t, edit)?;
                    let k = ck(mut_trs_iterator_set_value(m, p));
                    ck(tr_delete(p as _))?;
                    ck(mut_trs_iterator_reset(m))?;
                    ck(mut_trs_iterator_destroy(m))?;
                    k.map(|_| "[]".into())
                });
            }
            _ => {
                if s.regs.len() < 3 {
                    let j = s.regs.len();
                    copy(log, r, &mut s, i, j, None);
                }
            }
        }
    }
    s.done();
}
/// Some way to get an equal machine behind a new handle.
fn copy(log: &mut Log, r: &mut Rng, s: &mut S, i: usize, j: usize, dir: Option<&Scratch>) -> bool {
    let k = if dir.is_some() { r.gen_range(0..3) } else { r.gen_range(0..2) };
    let path = dir.map(|d| cs(d.path.join("m.fst").to_str().unwrap()));
    s.apply(log, "convert", &[i], j, ["ffi-copy", "ffi-bytes", "ffi-file"][k], "\"kind\":0", |x| unsafe {
        let mut h = null();
        match k {
            0 => ck(vec_fst_copy(x[i], &mut h))?,
            1 => {
                let mut b = null();
                ck(vec_fst_to_bytes(x[i], &mut b))?;
                ck(vec_fst_from_bytes(b, &mut h))?;
                // a truncated array is refused
                let mut t: Vec<u8> = (*b).as_rust()?;
                t.truncate(r.gen_range(0..t.len()));
                let c = CArray::<u8>::c_repr_of(t)?.into_raw_pointer();
                let mut g = null();
                let res = vec_fst_from_bytes(c, &mut g);
                assert!(res == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO && g.is_null(), "truncated machine accepted");
            }
            _ => {
                let p = path.unwrap();
                ck(vec_fst_write_file(x[i], p.as_ptr()))?;
                ck(vec_fst_from_path(&mut h, p.as_ptr()))?;
                let mut g = null();
                let res = const_fst_from_path(&mut g, p.as_ptr());
                assert!(res == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO && g.is_null(), "wrong kind of machine accepted");
            }
        }
        put(x, j, h);
        Ok(())
    })
}
fn put(x: &mut Vec<H>, j: usize, h: H) {
    assert!(!h.is_null(), "success without a result");
    if j < x.len() {
        unsafe { fst_destroy(x[j] as _) };
        x[j] = h;
    } else {
        assert!(j == x.len());
        x.push(h);
    }
}
const FLT: [&str; 7] = ["auto", "null", "trivial", "sequence", "altsequence", "match", "nomatch"];
fn algos(log: &mut Log, r: &mut Rng, o: &Opts) {
    let dir = Scratch::new(o, log.case);
    let mut g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g1.max_states = g1.max_states.min(4);
    g2.max_states = g2.max_states.min(4);
    g2.labels = g1.labels;
    let acyclic = r.gen_bool(0.5);
    g1.acyclic |= acyclic;
    g2.acyclic |= acyclic;
    let l = pick_l(g1.labels);
    let la = format!("\"L\":{}", l);
    let mut s = S { regs: vec![] };
    for g in [&g1, &g2] {
        let mut f: V = gen_fst(r, g);
        maybe_props(r, &mut f);
        s.add(log, r, f);
    }
    for _ in 0..r.gen_range(2..=5) {
        let i = r.gen_range(0..2);
        let j = r.gen_range(0..2);
        let f = s.get(i);
        let isacyc = {
            let mut f = f.clone();
            f.compute_and_update_properties_all().unwrap().contains(rustfst::fst_properties::FstProperties::ACYCLIC)
        };
        if s.regs.len() > 2 {
            let h = s.regs.pop().unwrap();
            unsafe { fst_destroy(h as _) };
        }
        let small = f.num_states() <= 8 && s.get(j).num_states() <= 8;
        match r.gen_range(0..20) {
            0 => {
                if i != j && small {
                    s.apply(log, "union", &[i, j], i, "ffi", &la, |x| unsafe { ck(fst_union(x[i] as _, x[j])) });
                }
            }
            1 => {
                if i != j && small {
                    s.apply(log, "concat", &[i, j], i, "ffi", &la, |x| unsafe { ck(fst_concat(x[i] as _, x[j])) });
                }
            }
            2 => {
                if small {
                    s.apply(log, "concat", &[i, j], 2, "ffi-lazy", &la, |x| unsafe {
                        let mut h = null();
                        ck(concat_fst_new(&mut h, x[i], x[j]))?;
                        let lazy = h;
                        ck(concat_fst_compute(&mut h))?;
                        fst_destroy(lazy as _);
                        put(x, 2, h);
                        Ok(())
                    });
                }
            }
            3 => {
                s.apply(log, "connect", &[i], i, "ffi", &la, |x| unsafe { ck(fst_connect(x[i] as _)) });
            }
            4 => {
                let side = r.gen_bool(0.5);
                s.apply(log, "project", &[i], i, "ffi", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |x| unsafe {
                    let mut p = null();
                    ck(fst_project_type_new(!side as usize, &mut p))?;
                    ck(fst_project(x[i] as _, p))
                });
            }
            5 => {
                s.apply(log, "reverse", &[i], 2, "ffi", &la, |x| unsafe {
                    let mut h = null();
                    ck(fst_reverse(x[i], &mut h))?;
                    put(x, 2, h);
                    Ok(())
                });
            }
            6 => {
                s.apply(log, "rm_epsilon", &[i], i, "ffi", &la, |x| unsafe { ck(fst_rm_epsilon(x[i] as _)) });
            }
            7 => {
                s.apply(log, "top_sort", &[i], i, "ffi", &la, |x| unsafe { ck(fst_top_sort(x[i] as _)) });
            }
            8 => {
                let side = r.gen_bool(0.5);
                s.apply(log, "tr_sort", &[i], i, "ffi", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |x| unsafe { ck(fst_tr_sort(x[i] as _, side)) });
            }
            9 => {
                s.apply(log, "tr_unique", &[i], i, "ffi", &la, |x| unsafe { ck(fst_tr_unique(x[i] as _)) });
            }
            10 | 11 => {
                let n: usize = *[1, 1, 2, 3].choose(r).unwrap();
                let dflt = r.gen_bool(0.3);
                let n = if dflt { 1 } else { n };
                s.apply(log, "shortest_path", &[i], 2, "ffi", &format!("\"n\":{},\"uniq\":false", n), |x| unsafe {
                    let mut h = null();
                    if dflt {
                        ck(fst_shortest_path(x[i], &mut h))?;
                    } else {
                        let mut c = null();
                        ck(fst_shortest_path_config_new(1e-6, n, false, &mut c))?;
                        ck(fst_shortest_path_with_config(x[i], c, &mut h))?;
                    }
                    put(x, 2, h);
                    Ok(())
                });
            }
            12..=14 => {
                if f.num_states() > 5 || s.get(1).num_states() > 5 {
                    continue;
                }
                // Composition refuses machines whose sortedness is not known, and the C interface
                // cannot tell whether it is: both are sorted here.
                for which in 0..2usize {
                    let side = which == 1;
                    s.apply(log, "tr_sort", &[which], which, "ffi", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |x| unsafe { ck(fst_tr_sort(x[which] as _, side)) });
                }
                let k = r.gen_range(0..7);
                let dflt = r.gen_bool(0.3);
                let conn = dflt || r.gen_bool(0.6);
                let k = if dflt { 0 } else { k };
                s.apply(log, "compose", &[0, 1], 2, "ffi", &format!("\"L\":{},\"flt\":\"{}\",\"conn\":{}", l, FLT[k], conn), |x| unsafe {
                    let mut h = null();
                    if dflt {
                        ck(fst_compose(x[0], x[1], &mut h))?;
                    } else {
                        let mut c = null();
                        ck(fst_compose_config_new(k, conn, null(), null(), &mut c))?;
                        let res = ck(fst_compose_with_config(x[0], x[1], c, &mut h));
                        ck(fst_compose_config_destroy(c as _))?;
                        res?;
                    }
                    put(x, 2, h);
                    Ok(())
                });
            }
            15 => {
                if isacyc && f.num_states() <= 6 {
                    let ty = r.gen_range(0..3);
                    let acc = f.states_iter().all(|q| f.get_trs(q).unwrap().trs().iter().all(|t| t.ilabel == t.olabel));
                    let dflt = ty == 0 && r.gen_bool(0.5);
                    s.apply(log, "determinize", &[i], 2, "ffi", &format!("\"L\":{},\"ty\":\"{}\",\"acc\":{}", l, ["fun", "nonfun", "dis"][ty], acc), |x| unsafe {
                        let mut h = null();
                        if dflt {
                            ck(fst_determinize(x[i], &mut h))?;
                        } else {
                            let mut c = null();
                            ck(fst_determinize_config_new(1e-6, ty, &mut c))?;
                            ck(fst_determinize_with_config(x[i], c, &mut h))?;
                        }
                        put(x, 2, h);
                        Ok(())
                    });
                }
            }
            16 => {
                if isacyc && f.num_states() <= 6 {
                    let nd = r.gen_bool(0.5);
                    let dflt = !nd && r.gen_bool(0.5);
                    s.apply(log, "minimize", &[i], i, "ffi", &format!("\"L\":{},\"nd\":{}", l, nd), |x| unsafe {
                        if dflt {
                            return ck(fst_minimize(x[i] as _));
                        }
                        let mut c = null();
                        ck(fst_minimize_config_new(1e-6, nd, &mut c))?;
                        ck(fst_minimize_with_config(x[i] as _, c))
                    });
                }
            }
            17 => {
                if isacyc && f.num_states() <= 6 {
                    s.apply(log, "keep", &[i], i, "ffi-optimize", &la, |x| unsafe { ck(fst_optimize(x[i] as _)) });
                }
            }
            18 => {
                s.query(log, "equal", &[i, j], "ffi", "", |x| unsafe {
                    let mut e = 9;
                    ck(vec_fst_equals(x[i], x[j], &mut e))?;
                    Ok(["false", "true", "2", "3"][e.min(3)].into())
                });
                s.query(log, "isomorphic", &[i, j], "ffi", "\"tol\":0", |x| unsafe {
                    let mut e = 9;
                    ck(fst_isomorphic(x[i], x[j], &mut e))?;
                    Ok(["false", "true", "2", "3"][e.min(3)].into())
                });
            }
            _ => {
                if copy(log, r, &mut s, i, 2, Some(&dir)) {
                    s.query(log, "equal", &[i, 2], "ffi", "", |x| unsafe {
                        let mut e = 9;
                        ck(vec_fst_equals(x[i], x[2], &mut e))?;
                        Ok(["false", "true", "2", "3"][e.min(3)].into())
                    });
                }
            }
        }
        if s.regs[..2].iter().any(|h| unsafe { snap(*h).unwrap() }.num_states() > 14) {
            break;
        }
    }
    s.done();
}
fn sigma(log: &mut Log, r: &mut Rng) {
    let mut g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g1.max_states = g1.max_states.min(4);
    g2.max_states = g2.max_states.min(4);
    g1.labels = g1.labels.min(3);
    g2.labels = g1.labels;
    let sg = g1.labels + 1;
    let side = r.gen_range(1..=2);
    let l = pick_l(sg);
    if side == 1 {
        g1.labels = sg;
    } else {
        g2.labels = sg;
    }
    let mut a: V = gen_fst(r, &g1);
    let mut b: V = gen_fst(r, &g2);
    tr_sort(&mut a, OLabelCompare {});
    tr_sort(&mut b, ILabelCompare {});
    let mut s = S { regs: vec![] };
    s.add(log, r, a);
    s.add(log, r, b);
    let k = r.gen_range(1..7);
    let conn = r.gen_bool(0.6);
    let mode = r.gen_range(0..3);
    let mut allow: Vec<u32> = if r.gen_bool(0.5) { vec![] } else { (1..sg as Label).filter(|_| r.gen_bool(0.6)).collect() };
    allow.reserve(1);
    let args = format!(
        "\"L\":{},\"flt\":\"{}\",\"conn\":{},\"side\":{},\"sig\":{},\"mode\":\"{}\",\"allow\":{:?},\"lim\":{}",
        l, FLT[k], conn, side, sg, ["auto", "always", "never"][mode], allow, !allow.is_empty()
    );
    s.apply(log, "sigcompose", &[0, 1], 2, "ffi", &args, |x| unsafe {
        let (mut m, mut c, mut h) = (null(), null(), null());
        ck(fst_matcher_config_new(sg, mode, CIntArray { data: allow.as_ptr(), size: allow.len() }, &mut m))?;
        let (m1, m2) = if side == 1 { (m, null()) } else { (null(), m) };
        ck(fst_compose_config_new(k, conn, m1, m2, &mut c))?;
        ck(fst_matcher_config_destroy(m as _))?;
        let res = ck(fst_compose_with_config(x[0], x[1], c, &mut h));
        ck(fst_compose_config_destroy(c as _))?;
        res?;
        put(x, 2, h);
        Ok(())
    });
    s.done();
}
fn grammar(log: &mut Log, r: &mut Rng) {
    let k = r.gen_range(1..=3);
    let nts: Vec<Label> = vec![11, 12, 13];
    let mut s = S { regs: vec![] };
    for i in 0..k {
        let mut g = Gen::random(r);
        g.max_states = g.max_states.min(4);
        g.labels = g.labels.min(3);
        g.acyclic = true;
        let mut f: V = gen_fst(r, &g);
        if i + 1 < k {
            for q in 0..f.num_states() as StateId {
                let n = f.num_trs(q).unwrap();
                if n > 0 && r.gen_bool(0.4) {
                    let j = r.gen_range(0..n);
                    let t = f.get_trs(q).unwrap().trs()[j].clone();
                    f.tr_iter_mut(q).unwrap().set_tr(j, Tr::new(t.ilabel, nts[r.gen_range(i + 1..k)], t.weight, t.nextstate)).unwrap();
                    break;
                }
            }
        }
        s.add(log, r, f);
    }
    let mut order: Vec<usize> = (0..k).collect();
    order.shuffle(r);
    let labs: Vec<u32> = order.iter().map(|i| nts[*i]).collect();
    let eps = r.gen_bool(0.5);
    let root = if r.gen_bool(0.05) { 77 } else { nts[0] };
    s.apply(log, "replace", &order, k, "ffi", &format!("\"L\":3,\"eps\":{},\"labs\":{:?},\"root\":{}", eps, labs, root), |x| unsafe {
        let mut ps: Vec<CLabelFstPair> = order.iter().map(|i| CLabelFstPair { label: nts[*i], fst: x[*i] }).collect();
        let mut h = null();
        ck(fst_replace(root, ps.as_mut_ptr(), ps.len(), eps, &mut h))?;
        put(x, k, h);
        Ok(())
    });
    s.done();
}
fn draws(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(5);
    g.min_states = g.min_states.min(g.max_states);
    let f: VectorFst<LogWeight> = gen_fst(r, &g);
    log.new_reg(0, &f);
    let h0 = new_handle(to_trop(&f));
    let n = *[0usize, 1, 2, 3, 5, 8].choose(r).unwrap();
    let max = r.gen_range(0..6usize);
    let (weighted, total) = (r.gen_bool(0.4), r.gen_bool(0.4));
    let seed: usize = r.gen_range(0..1000);
    let a = format!("\"n\":{},\"max\":{},\"weighted\":{},\"total\":{},\"full\":false,\"again\":", n, max, weighted, total);
    let once = |h: H| -> Result<H> { unsafe {
        let mut o = null();
        ck(fst_randgen(h, n, seed, max, weighted, total, &mut o))?;
        Ok(o)
    }};
    let again = match guarded(|| unsafe {
        let (a, b) = (once(h0)?, once(h0)?);
        let mut e = 9;
        ck(vec_fst_equals(a, b, &mut e))?;
        fst_destroy(a as _);
        fst_destroy(b as _);
        Ok(e)
    }) {
        Ok(1) => "same",
        Ok(_) => "differs",
        Err(_) => "",
    };
    log.call(&hdr("randgen", LogWeight::NAME, &[0], 1, "ffi", &format!("{}\"{}\"", a, again)), || unsafe {
        let h = once(h0)?;
        let f = snap(h)?;
        fst_destroy(h as _);
        Ok(to_log(&f))
    }, fst_out);
    log.observe(0, &to_log(&unsafe { snap(h0) }.expect("reading a handle")));
    unsafe { fst_destroy(h0 as _) };
}
unsafe fn table_of(t: &[String]) -> Result<*const CSymbolTable> {
    let mut p = null();
    ck(symt_new(&mut p))?;
    for x in t {
        let mut k = usize::MAX;
        ck(symt_add_symbol(p as _, cs(x).as_ptr(), &mut k))?;
    }
    Ok(p)
}
fn strings(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.acyclic = true;
    g.max_states = g.max_states.min(4);
    let f: V = gen_fst(r, &g);
    let mut s = S { regs: vec![] };
    s.add(log, r, f);
    let names = ["a", "b", "<x>", "é", "dd", "q\"", "\\"];
    let mut tab = || -> Vec<String> {
        let mut v = vec![];
        for i in 1..=g.labels {
            if r.gen_bool(0.85) {
                v.push(format!("{}{}", names.choose(r).unwrap(), i));
            }
        }
        v
    };
    let (it, ot) = (tab(), tab());
    let tj = |t: &[String]| {
        let mut v = vec!["[0,\"<eps>\"]".to_string()];
        v.extend(t.iter().enumerate().map(|(i, x)| format!("[{},{}]", i + 1, jstr(x))));
        format!("[{}]", v.join(","))
    };
    let (hi, ho) = (r.gen_bool(0.85), r.gen_bool(0.85));
    unsafe {
        let (pi, po) = (table_of(&it).unwrap(), table_of(&ot).unwrap());
        let h = s.regs[0] as *mut CFst;
        if hi || r.gen_bool(0.5) {
            ck(fst_set_input_symbols(h, pi)).unwrap();
        }
        if !hi {
            ck(fst_unset_input_symbols(h)).unwrap();
        }
        if ho || r.gen_bool(0.5) {
            ck(fst_set_output_symbols(h, po)).unwrap();
        }
        if !ho {
            ck(fst_unset_output_symbols(h)).unwrap();
        }
        let cstr = |p: *const CStringPath, w: bool| -> String {
            let mut q = null();
            let res = if w { string_path_istring(p, &mut q) } else { string_path_ostring(p, &mut q) };
            match ck(res) {
                Ok(()) => format!("[{}]", jstr(&rs(q))),
                Err(_) => "[]".into(),
            }
        };
        s.query(log, "p.strings", &[0], "ffi", &format!("\"hi\":{},\"ho\":{},\"it\":{},\"ot\":{}", hi, ho, tj(&it), tj(&ot)), |x| {
            let mut iter = null();
            ck(string_paths_iterator_new(x[0], &mut iter))?;
            let mut v = vec![];
            loop {
                let mut d = 9;
                ck(string_paths_iterator_done(iter as _, &mut d))?;
                let mut p = null();
                ck(string_paths_iterator_next(iter as _, &mut p))?;
                assert!((d == 1) == p.is_null(), "done and next disagree");
                if p.is_null() {
                    break;
                }
                let mut w = f32::NAN;
                ck(string_path_weight(p, &mut w))?;
                v.push(format!("[{},{},{}]", T::new(w).enc(), cstr(p, true), cstr(p, false)));
                ck(string_path_destroy(p as _))?;
            }
            ck(string_paths_iterator_destroy(iter as _))?;
            Ok(format!("[{}]", v.join(",")))
        });
        // machines made from strings
        let mut words = |t: &[String]| -> Vec<String> {
            (0..r.gen_range(1..=3)).map(|_| if t.is_empty() || r.gen_bool(0.06) { ["zz", "<eps>", ""].choose(r).unwrap().to_string() } else { t.choose(r).unwrap().clone() }).collect()
        };
        let (xs, ys) = (words(&it), words(&ot));
        let w = T::rnd(r);
        let acc = r.gen_bool(0.5);
        let js = |v: &[String]| format!("[{}]", v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","));
        let a = if acc {
            format!("\"it\":{},\"ot\":{},\"xs\":{},\"ys\":{},\"w\":{}", tj(&it), tj(&it), js(&xs), js(&xs), w.enc())
        } else {
            format!("\"it\":{},\"ot\":{},\"xs\":{},\"ys\":{},\"w\":{}", tj(&it), tj(&ot), js(&xs), js(&ys), w.enc())
        };
        s.apply(log, "p.fromstr", &[0], 0, "ffi", &a, |x| {
            let mut h = null();
            let (a, b) = (cs(&xs.join(" ")), cs(&ys.join(" ")));
            if acc {
                ck(utils_string_to_acceptor(a.as_ptr(), pi as _, *w.value(), &mut h))?;
            } else {
                ck(utils_string_to_transducer(a.as_ptr(), b.as_ptr(), pi as _, po as _, *w.value(), &mut h))?;
            }
            put(x, 0, h);
            Ok(())
        });
        symt_destroy(pi as _);
        symt_destroy(po as _);
    }
    s.done();
}
fn tables(log: &mut Log, r: &mut Rng, o: &Opts) {
    const SYMS: [&str; 8] = ["<eps>", "a", "b", "A", "é", "x\\y", "\"", "long-symbol"];
    let dir = Scratch::new(o, log.case);
    let path = cs(dir.path.join("s").to_str().unwrap());
    let mut ts: Vec<*const CSymbolTable> = vec![];
    unsafe fn js(p: *const CSymbolTable) -> Result<String> {
        let mut n = 0;
        ck(symt_num_symbols(p, &mut n))?;
        let mut v = vec![];
        for i in 0..n {
            let mut s = null();
            ck(symt_find_index(p, i as u32, &mut s))?;
            v.push(jstr(&rs(s)));
        }
        Ok(format!("[{}]", v.join(",")))
    }
    unsafe fn view(p: *const CSymbolTable) -> Result<String> {
        let mut n = 0;
        ck(symt_num_symbols(p, &mut n))?;
        let all = js(p)?;
        let mut q = vec![];
        for s in SYMS.iter().chain(["nope", ""].iter()) {
            let (mut k, mut m) = (usize::MAX, 9);
            let l = match ck(symt_find_symbol(p, cs(s).as_ptr(), &mut k)) {
                Ok(()) => k as i64,
                Err(_) => -1,
            };
            ck(symt_member_symbol(p, cs(s).as_ptr(), &mut m))?;
            q.push(format!("[{},{},{}]", jstr(s), l, m));
        }
        let mut l = vec![];
        let mut iter = vec![];
        for i in (0..n + 2).chain([100]) {
            let (mut s, mut m) = (null(), 9);
            let x = match ck(symt_find_index(p, i as u32, &mut s)) {
                Ok(()) => format!("[{}]", jstr(&rs(s))),
                Err(_) => "[]".into(),
            };
            ck(symt_member_index(p, i as u32, &mut m))?;
            l.push(format!("[{},{},{}]", i, m, x));
            if i < n {
                iter.push(format!("[{},{}]", i, x.trim_matches(|c| c == '[' || c == ']')));
            }
        }
        Ok(format!(
            "{{\"len\":{},\"empty\":{},\"labels\":{:?},\"symbols\":{},\"iter\":[{}],\"q\":[{}],\"l\":[{}]}}",
            n, n == 0, (0..n).collect::<Vec<_>>(), all, iter.join(","), q.join(","), l.join(",")
        ))
    }
    for _ in 0..r.gen_range(4..14) {
        let n = ts.len();
        unsafe {
            if n == 0 || (n < 3 && r.gen_bool(0.25)) {
                let mut p = null();
                if log.call(&hdr("y.new", "sym", &[], n as i64, "new", ""), || { ck(symt_new(&mut p))?; js(p) }, |t| Out::Fst(t.clone())).is_some() {
                    ts.push(p);
                }
                continue;
            }
            let i = r.gen_range(0..n);
            let j = r.gen_range(0..n);
            let ti = ts[i];
            let tj = ts[j];
            match r.gen_range(0..9) {
                0..=3 => {
                    let s = *SYMS.choose(r).unwrap();
                    let h = hdr("y.add", "sym", &[i], i as i64, "ffi", &format!("\"x\":{}", jstr(s)));
                    log.call(&h, || {
                        let mut k = usize::MAX;
                        ck(symt_add_symbol(ti as _, cs(s).as_ptr(), &mut k))?;
                        Ok((k, js(ti)?))
                    }, |(k, t)| Out::Fst(format!("{},\"ret\":{}", t, k)));
                }
                4 => {
                    if i != j {
                        log.call(&hdr("y.merge", "sym", &[i, j], i as i64, "ffi", ""), || { ck(symt_add_table(ti as _, tj))?; js(ti) }, |t| Out::Fst(t.clone()));
                    }
                }
                5 => {
                    log.call(&hdr("y.eq", "sym", &[i, j], -1, "ffi", ""), || {
                        let mut e = 9;
                        ck(symt_equals(ti, tj, &mut e))?;
                        Ok(["false", "true", "2", "3"][e.min(3)].to_string())
                    }, |t| Out::Val(t.clone()));
                }
                6 | 7 => {
                    let k = r.gen_range(0..4);
                    let mut p = null();
                    let h = hdr("y.copy", "sym", &[i], n as i64, ["ffi-copy", "ffi-binary", "ffi-text", "ffi-attached"][k], "");
                    let ok = n < 4 && log.call(&h, || {
                        match k {
                            0 => ck(symt_copy(ti, &mut p))?,
                            1 | 2 => {
                                let b = (k == 1) as usize as *const usize;
                                ck(symt_write_file(ti, path.as_ptr(), b))?;
                                ck(symt_from_path(&mut p, path.as_ptr(), b))?;
                            }
                            _ => {
                                let mut h = null();
                                ck(vec_fst_new(&mut h))?;
                                let mut c = null();
                                ck(symt_copy(ti, &mut c))?;
                                let mut q = null();
                                if k == 3 {
                                    ck(fst_set_input_symbols(h as _, c))?;
                                    symt_destroy(c as _);
                                    ck(fst_input_symbols(h, &mut q))?;
                                    let mut no = null();
                                    ck(fst_output_symbols(h, &mut no))?;
                                    assert!(no.is_null(), "output symbols appeared");
                                }
                                ck(symt_copy(q, &mut p))?;
                                // a table that is in use elsewhere refuses changes
                                let mut x = 0;
                                let res = symt_add_symbol(q as _, cs("fresh").as_ptr(), &mut x);
                                assert!(res == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO, "shared table changed");
                                symt_destroy(q as _);
                                fst_destroy(h as _);
                            }
                        }
                        js(p)
                    }, |t| Out::Fst(t.clone())).is_some();
                    if ok {
                        ts.push(p);
                    }
                }
                _ => {
                    log.call(&hdr("y.view", "sym", &[i], -1, "ffi", ""), || view(ti), |t| Out::Val(t.clone()));
                }
            }
        }
    }
    for (i, t) in ts.iter().enumerate() {
        log.call(&hdr("y.view", "sym", &[i], -1, "ffi", ""), || unsafe { view(*t) }, |t| Out::Val(t.clone()));
        unsafe { symt_destroy(*t as _) };
    }
}
/// Read-only machines, reached through files.
fn constant(log: &mut Log, r: &mut Rng, o: &Opts) {
    let dir = Scratch::new(o, log.case);
    let path = cs(dir.path.join("c.fst").to_str().unwrap());
    let g = Gen::random(r);
    let f: V = gen_fst(r, &g);
    let f2: V = if r.gen_bool(0.5) { f.clone() } else { gen_fst(r, &g) };
    let (n, m) = (f.num_states(), f2.num_states());
    log.new_reg(0, &f);
    log.new_reg(1, &f2);
    let how = r.gen_range(0..3);
    let c: H = CFst(Box::new(ConstFst::<T>::from(f))).into_raw_pointer();
    let c2: H = CFst(Box::new(ConstFst::<T>::from(f2))).into_raw_pointer();
    let h = hdr("convert", "trop", &[0], 2, ["ffi-const", "ffi-constcopy", "ffi-constfile"][how], "\"kind\":0");
    log.call(&h, || unsafe {
        let mut d = c;
        match how {
            0 => {}
            1 => ck(const_fst_copy(c, &mut d))?,
            _ => {
                ck(const_fst_write_file(c, path.as_ptr()))?;
                ck(const_fst_from_path(&mut d, path.as_ptr()))?;
                let mut g = null();
                let res = vec_fst_from_path(&mut g, path.as_ptr());
                assert!(res == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO && g.is_null(), "wrong kind of machine accepted");
            }
        }
        // operations on machines of another kind are refused
        let mut x = 0;
        assert!(vec_fst_num_states(d, &mut x) == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO, "wrong kind of machine accepted");
        assert!(fst_connect(d as _) == RUSTFST_FFI_RESULT::RUSTFST_FFI_RESULT_KO, "wrong kind of machine accepted");
        let f = snap_n(d, n)?;
        if how > 0 {
            fst_destroy(d as _);
        }
        Ok(f)
    }, fst_out);
    let h = hdr("equal", "trop", &[0, 1], -1, "ffi-const", "");
    log.call(&h, || unsafe {
        let mut e = 9;
        ck(const_fst_equals(c, c2, &mut e))?;
        snap_n(c2, m)?;
        Ok(["false", "true", "2", "3"][e.min(3)].to_string())
    }, |s| Out::Val(s.clone()));
    unsafe {
        fst_destroy(c as _);
        fst_destroy(c2 as _);
    }
}
fn to_trop(f: &VectorFst<LogWeight>) -> V {
        let mut o = V::new();
        o.add_states(f.num_states());
        if let Some(s) = f.start() {
            o.set_start(s).unwrap();
        }
        for q in f.states_iter() {
            if let Some(w) = f.final_weight(q).unwrap() {
                o.set_final(q, T::new(*w.value())).unwrap();
            }
            for t in f.get_trs(q).unwrap().trs() {
                o.add_tr(q, Tr::new(t.ilabel, t.olabel, T::new(*t.weight.value()), t.nextstate)).unwrap();
            }
        }
        o
    }
fn to_log(f: &V) -> VectorFst<LogWeight> {
        let mut o = VectorFst::<LogWeight>::new();
        o.add_states(f.num_states());
        if let Some(s) = f.start() {
            o.set_start(s).unwrap();
        }
        for q in f.states_iter() {
            if let Some(w) = f.final_weight(q).unwrap() {
                o.set_final(q, LogWeight::new(*w.value())).unwrap();
            }
            for t in f.get_trs(q).unwrap().trs() {
                o.add_tr(q, Tr::new(t.ilabel, t.olabel, LogWeight::new(*t.weight.value()), t.nextstate)).unwrap();
            }
        }
        o
    }
/// Optimisation with the weights read as log probabilities.
fn in_log(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.acyclic = true;
    g.max_states = g.max_states.min(4);
    let f: VectorFst<LogWeight> = gen_fst(r, &g);
    let l = pick_l(g.labels);
    log.new_reg(0, &f);
    let h0 = new_handle(to_trop(&f));
    let h = hdr("keep", LogWeight::NAME, &[0], 1, "ffi-optimize-log", &format!("\"L\":{}", l));
    log.call(&h, || unsafe {
        let mut p = h0;
        ck(fst_optimize_in_log(&mut p))?;
        ensure!(!p.is_null());
        let x = snap(p)?;
        Ok(to_log(&x))
    }, fst_out);
}
fn run(log: &mut Log, r: &mut Rng, c: u64, o: &Opts) {
    match c % 12 {
        0 | 1 => mutators(log, r),
        2 => sigma(log, r),
        3 => grammar(log, r),
        4 => draws(log, r),
        5 => strings(log, r),
        6 => tables(log, r, o),
        7 => constant(log, r, o),
        8 => in_log(log, r),
        _ => algos(log, r, o),
    }
}
fn main() {
    drive(run)
}
