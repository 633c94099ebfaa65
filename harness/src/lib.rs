//! Conformance driver: runs the real rustfst API on generated histories and
//! records every call (arguments, result, projected state) as one JSON line.
use rand::seq::SliceRandom;
use rand::{Rng as _, SeedableRng};
use rand_chacha::ChaCha8Rng;
pub mod alts;
pub mod dot;
pub mod io;
pub mod session;
use rustfst::fst_impls::VectorFst;
use rustfst::fst_traits::*;
use rustfst::semirings::*;
use rustfst::{Label, StateId, Tr, Trs};
use std::fmt::Write as _;
use std::fs::{File, OpenOptions};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Instant;

pub type Rng = ChaCha8Rng;
pub const TINF: i64 = 1_000_000_000;
pub const RS: f64 = 1048576.0;

pub trait Sr: Semiring + 'static {
    const NAME: &'static str;
    fn enc(&self) -> i64;
    fn rnd(r: &mut Rng) -> Self;
    fn rndf(r: &mut Rng) -> Self {
        Self::rnd(r)
    }
    /// small enough for row sums below one
    fn rnd_small(r: &mut Rng) -> Self {
        Self::rnd(r)
    }
    /// idempotent semirings have closures of every cycle
    fn cyc_ok() -> bool {
        Self::NAME == "trop" || Self::NAME == "bool"
    }
}
impl Sr for TropicalWeight {
    const NAME: &'static str = "trop";
    fn enc(&self) -> i64 {
        let v = *self.value() as f64;
        if v.is_nan() {
            -777777777
        } else if v == f64::INFINITY {
            TINF
        } else if v.abs() > 4.0e6 {
            -777777778
        } else {
            (v * 64.0).round() as i64
        }
    }
    fn rnd(r: &mut Rng) -> Self {
        TropicalWeight::new(*[0.0, 0.5, 1.0, 1.0, 2.0, 3.5, 4.0].choose(r).unwrap() as f32)
    }
}
fn enc_real(p: f64) -> i64 {
    if p.is_nan() {
        -7
    } else if p > 900.0 {
        -1999999999
    } else if p < 0.0 {
        -8
    } else {
        (p * RS).round() as i64
    }
}
impl Sr for LogWeight {
    const NAME: &'static str = "real";
    fn enc(&self) -> i64 {
        enc_real((-(*self.value() as f64)).exp())
    }
    fn rnd(r: &mut Rng) -> Self {
        let p: f64 = *[0.25, 0.125, 0.5, 0.0625].choose(r).unwrap();
        LogWeight::new((-p.ln()) as f32)
    }
    fn rndf(r: &mut Rng) -> Self {
        let p: f64 = *[1.0, 0.5, 0.25].choose(r).unwrap();
        LogWeight::new((-p.ln()) as f32)
    }
    fn rnd_small(r: &mut Rng) -> Self {
        let p: f64 = *[0.125, 0.0625, 0.03125].choose(r).unwrap();
        LogWeight::new((-p.ln()) as f32)
    }
}
impl Sr for ProbabilityWeight {
    const NAME: &'static str = "real";
    fn enc(&self) -> i64 {
        enc_real(*self.value() as f64)
    }
    fn rnd(r: &mut Rng) -> Self {
        ProbabilityWeight::new(*[0.25, 0.125, 0.5, 0.0625].choose(r).unwrap() as f32)
    }
    fn rndf(r: &mut Rng) -> Self {
        ProbabilityWeight::new(*[1.0, 0.5, 0.25].choose(r).unwrap() as f32)
    }
    fn rnd_small(r: &mut Rng) -> Self {
        ProbabilityWeight::new(*[0.125, 0.0625, 0.03125].choose(r).unwrap() as f32)
    }
}
impl Sr for IntegerWeight {
    const NAME: &'static str = "int";
    fn enc(&self) -> i64 {
        (*self.value() as i64).clamp(-1_000_000_000, 1_000_000_000)
    }
    fn rnd(r: &mut Rng) -> Self {
        IntegerWeight::new(*[1, 1, 2, 3].choose(r).unwrap())
    }
}
impl Sr for BooleanWeight {
    const NAME: &'static str = "bool";
    fn enc(&self) -> i64 {
        *self.value() as i64
    }
    fn rnd(_r: &mut Rng) -> Self {
        BooleanWeight::new(true)
    }
}

// ---------------------------------------------------------------- projection
pub fn opt(s: Option<StateId>) -> i64 {
    s.map(|x| x as i64).unwrap_or(-1)
}
pub fn lab(l: Label) -> i64 {
    if l as u64 >= 2_000_000_000 {
        2_000_000_000
    } else {
        l as i64
    }
}
fn push_arc<W: Sr>(o: &mut String, t: &Tr<W>) {
    let ns = if t.nextstate as u64 >= 2_000_000_000 { 2_000_000_000i64 } else { t.nextstate as i64 };
    let _ = write!(o, "[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), t.weight.enc(), ns);
}
pub fn props_json(bits: u64) -> String {
    format!("[{},{}]", (bits >> 16) & 0xffff, (bits >> 32) & 0xffff)
}
/// Projection of an expanded FST to the specification's FST value.
pub fn proj<W: Sr, F: ExpandedFst<W>>(f: &F) -> String {
    proj_n(f, f.num_states())
}
pub fn proj_n<W: Sr, F: Fst<W>>(f: &F, n: usize) -> String {
    let mut o = String::with_capacity(64);
    let _ = write!(o, "{{\"s\":{},\"f\":[", opt(f.start()));
    for q in 0..n {
        if q > 0 {
            o.push(',')
        }
        match f.final_weight(q as StateId) {
            Ok(Some(w)) => {
                let _ = write!(o, "[{}]", w.enc());
            }
            Ok(None) => o.push_str("[]"),
            Err(_) => o.push_str("[-888,-888]"),
        }
    }
    o.push_str("],\"a\":[");
    for q in 0..n {
        if q > 0 {
            o.push(',')
        }
        o.push('[');
        match f.get_trs(q as StateId) {
            Ok(ts) => {
                for (i, t) in ts.trs().iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    push_arc(&mut o, t);
                }
            }
            Err(_) => o.push_str("[-888,-888,-888,-888]"),
        }
        o.push(']');
    }
    let _ = write!(o, "],\"p\":{}}}", props_json(f.properties().bits()));
    o
}

/// Projection of any FST by visiting it from its start state (states renumbered in visiting order;
/// `order` decides in which order pending states are expanded).
pub fn proj_walk<W: Sr, F: Fst<W>>(f: &F, limit: usize, lifo: bool) -> anyhow::Result<String> {
    let mut ids: std::collections::HashMap<StateId, usize> = Default::default();
    let mut todo: std::collections::VecDeque<StateId> = Default::default();
    let mut fin: Vec<String> = vec![];
    let mut arcs: Vec<String> = vec![];
    let st = f.start();
    if let Some(s) = st {
        ids.insert(s, 0);
        todo.push_back(s);
    }
    while let Some(q) = if lifo { todo.pop_back() } else { todo.pop_front() } {
        let me = ids[&q];
        while fin.len() <= me {
            fin.push("[]".into());
            arcs.push("[]".into());
        }
        if let Some(w) = f.final_weight(q)? {
            fin[me] = format!("[{}]", w.enc());
        }
        let ts = f.get_trs(q)?;
        let mut o = String::from("[");
        for (i, t) in ts.trs().iter().enumerate() {
            let n = ids.len();
            let ns = *ids.entry(t.nextstate).or_insert_with(|| {
                todo.push_back(t.nextstate);
                n
            });
            if n > limit {
                anyhow::bail!("too many states");
            }
            let _ = write!(o, "{}[{},{},{},{}]", if i > 0 { "," } else { "" }, lab(t.ilabel), lab(t.olabel), t.weight.enc(), ns);
        }
        o.push(']');
        arcs[me] = o;
    }
    while fin.len() < ids.len() {
        fin.push("[]".into());
        arcs.push("[]".into());
    }
    Ok(format!(
        "{{\"s\":{},\"f\":[{}],\"a\":[{}],\"p\":{}}}",
        if st.is_some() { 0 } else { -1 },
        fin.join(","),
        arcs.join(","),
        // bits that depend on the numbering of states do not survive the renumbering
        props_json(f.properties().bits() & !0x30c0_0000_0000)
    ))
}

// ---------------------------------------------------------------- generator
#[derive(Clone, Debug)]
pub struct Gen {
    pub min_states: usize,
    pub max_states: usize,
    pub max_arcs: usize,
    pub labels: usize,
    pub peps_i: f64,
    pub peps_o: f64,
    pub acceptor: bool,
    pub acyclic: bool,
    pub eps_acyclic: bool,
    pub unweighted: bool,
    pub pfinal: f64,
    pub pstart_none: f64,
    pub chain: bool,
    pub dup: f64,
    /// per-state epsilon modes (all-epsilon / no-epsilon / mixed states)
    pub modes: bool,
    /// make some accessible state final if there is none
    pub live: f64,
    /// transition weights with row sums below one
    pub small: bool,
}
impl Default for Gen {
    fn default() -> Self {
        Gen {
            min_states: 0,
            max_states: 5,
            max_arcs: 3,
            labels: 2,
            peps_i: 0.2,
            peps_o: 0.2,
            acceptor: false,
            acyclic: false,
            eps_acyclic: false,
            unweighted: false,
            pfinal: 0.4,
            pstart_none: 0.02,
            chain: true,
            dup: 0.1,
            modes: false,
            live: 0.85,
            small: false,
        }
    }
}
impl Gen {
    /// Random configuration: mixes shapes so that every branch class is visited.
    pub fn random(r: &mut Rng) -> Gen {
        let mut g = Gen::default();
        g.max_states = *[1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 5].choose(r).unwrap();
        g.min_states = if r.gen_bool(0.85) { g.max_states.min(2) } else { 0 };
        g.max_arcs = r.gen_range(1..=3);
        if r.gen_bool(0.08) {
            g.max_arcs = 7;
            g.max_states = g.max_states.min(3);
        }
        g.labels = *[1, 1, 2, 2, 3].choose(r).unwrap();
        if g.max_arcs == 7 {
            g.labels = 4;
        }
        g.modes = r.gen_bool(0.35);
        g.acceptor = r.gen_bool(0.3);
        g.acyclic = r.gen_bool(0.4);
        g.unweighted = r.gen_bool(0.15);
        match r.gen_range(0..4) {
            0 => {
                g.peps_i = 0.0;
                g.peps_o = 0.0;
            }
            1 => {
                g.peps_i = 0.5;
                g.peps_o = 0.5;
            }
            2 => {
                g.peps_i = 0.0;
                g.peps_o = 0.4;
            }
            _ => {}
        }
        g.pfinal = *[0.15, 0.4, 0.8].choose(r).unwrap();
        g
    }
}
/// Restricts the shape so that all sums over paths converge in W.
pub fn convergent<W: Sr>(r: &mut Rng, g: &mut Gen) {
    if W::NAME == "real" {
        if !g.acyclic || r.gen_bool(0.5) {
            g.small = true;
            g.unweighted = false;
        }
    } else if !W::cyc_ok() {
        g.acyclic = true;
    }
}
/// A machine whose states read many labels, in pieces that do not nest.
pub fn wide<W: Sr>(r: &mut Rng, labels: usize) -> VectorFst<W> {
    let mut f: VectorFst<W> = VectorFst::new();
    let n = r.gen_range(2..=4);
    f.add_states(n + 1);
    f.set_start(0).unwrap();
    f.set_final(n as StateId, W::one()).unwrap();
    for q in 0..n {
        let p = [0.3, 0.5, 0.7][r.gen_range(0..3)];
        for l in 1..=labels as Label {
            if r.gen_bool(p) {
                let to = if q + 1 < n && r.gen_bool(0.2) { r.gen_range(q + 1..=n) } else { n };
                f.add_tr(q as StateId, Tr::new(l, l, W::rnd(r), to as StateId)).unwrap();
            }
        }
        if q + 1 < n && r.gen_bool(0.4) {
            f.add_tr(q as StateId, Tr::new(0, 0, W::rnd(r), r.gen_range(q + 1..=n) as StateId)).unwrap();
        }
    }
    f
}
pub fn gen_fst<W: Sr>(r: &mut Rng, g: &Gen) -> VectorFst<W> {
    let mut f = VectorFst::<W>::new();
    let n = r.gen_range(g.min_states..=g.max_states);
    for _ in 0..n {
        f.add_state();
    }
    if n == 0 {
        return f;
    }
    if !r.gen_bool(g.pstart_none) {
        let s = if r.gen_bool(0.7) || g.acyclic { 0 } else { r.gen_range(0..n) };
        f.set_start(s as StateId).unwrap();
    }
    for q in 0..n {
        if r.gen_bool(g.pfinal) || (q == n - 1 && r.gen_bool(0.7)) {
            let w = if g.unweighted || r.gen_bool(0.25) { W::one() } else { W::rndf(r) };
            f.set_final(q as StateId, w).unwrap();
        }
        let mode = if g.modes { r.gen_range(0..5) } else { 4 };
        let k = r.gen_range(0..=g.max_arcs);
        let k = if g.chain && q + 1 < n && k == 0 && r.gen_bool(0.8) { 1 } else { k };
        for j in 0..k {
            let mut ns = if g.acyclic {
                if q + 1 >= n {
                    break;
                }
                r.gen_range(q + 1..n)
            } else {
                r.gen_range(0..n)
            };
            if g.chain && j == 0 && q + 1 < n && r.gen_bool(0.7) {
                ns = q + 1;
            }
            let pi = match mode { 0 | 1 => 1.0, 2 => 0.0, _ => g.peps_i };
            let po = match mode { 0 | 2 => 1.0, 1 => 0.0, _ => g.peps_o };
            let mut il = if r.gen_bool(pi) { 0 } else { r.gen_range(1..=g.labels) };
            let mut ol = if g.acceptor {
                il
            } else if r.gen_bool(po) {
                0
            } else {
                r.gen_range(1..=g.labels)
            };
            if g.eps_acyclic && ns <= q {
                if il == 0 {
                    il = 1;
                }
                if ol == 0 {
                    ol = 1;
                }
            }
            let w = if g.small {
                W::rnd_small(r)
            } else if g.unweighted || r.gen_bool(0.15) && W::NAME != "real" { W::one() } else { W::rnd(r) };
            f.add_tr(q as StateId, Tr::new(il as Label, ol as Label, w.clone(), ns as StateId)).unwrap();
            if r.gen_bool(g.dup) {
                f.add_tr(q as StateId, Tr::new(il as Label, ol as Label, w, ns as StateId)).unwrap();
            }
        }
    }
    if let (true, Some(s)) = (r.gen_bool(g.live), f.start()) {
        let mut acc = vec![s];
        let mut i = 0;
        while i < acc.len() {
            for t in f.get_trs(acc[i]).unwrap().trs() {
                if !acc.contains(&t.nextstate) {
                    acc.push(t.nextstate);
                }
            }
            i += 1;
        }
        if !acc.iter().any(|q| f.is_final(*q).unwrap()) {
            let q = *acc.last().unwrap();
            let w = if g.unweighted { W::one() } else { W::rndf(r) };
            f.set_final(q, w).unwrap();
        }
    }
    f
}

// ---------------------------------------------------------------- log
pub static OP_START: AtomicU64 = AtomicU64::new(0);
pub enum Out {
    Fst(String),
    Val(String),
    Err(String),
    Panic(String),
}
pub struct Log {
    out: File,
    cur: File,
    buf: String,
    pub case: u64,
    t0: Instant,
    last: Vec<(usize, String)>,
    limit: u64,
}
pub fn jstr(s: &str) -> String {
    serde_json::to_string(&s.chars().take(200).collect::<String>()).unwrap()
}
pub fn guarded<T>(f: impl FnOnce() -> anyhow::Result<T>) -> Result<T, Out> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(Out::Err(format!("{:#}", e))),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            Err(Out::Panic(m))
        }
    }
}
impl Log {
    pub fn line(&mut self, s: &str) {
        self.buf.push_str(s);
        self.buf.push('\n');
        if self.buf.len() > 1 << 16 {
            self.flush();
        }
    }
    pub fn flush(&mut self) {
        let _ = self.out.write_all(self.buf.as_bytes());
        self.buf.clear();
    }
    pub fn reset(&mut self) {
        self.last.clear();
        let c = self.case;
        self.line(&format!("{{\"op\":\"reset\",\"c\":{}}}", c));
    }
    /// A fresh register content, constructed by the driver.
    pub fn new_reg<W: Sr, F: ExpandedFst<W>>(&mut self, r: usize, f: &F) {
        let p = proj(f);
        let c = self.case;
        self.line(&format!("{{\"op\":\"new\",\"c\":{},\"sr\":\"{}\",\"r\":{},\"v\":{}}}", c, W::NAME, r, p));
        self.set_last(r, p);
    }
    pub fn set_last(&mut self, r: usize, p: String) {
        self.last.retain(|x| x.0 != r);
        self.last.push((r, p));
    }
    /// Emits an observation if the register no longer projects to its last logged value.
    pub fn observe<W: Sr, F: ExpandedFst<W>>(&mut self, r: usize, f: &F) {
        let p = proj(f);
        if let Some((_, q)) = self.last.iter().find(|x| x.0 == r) {
            // property bits may be refined by a read-only call; structure may not change
            let cut = |s: &str| s.split("],\"p\":").next().unwrap().to_string();
            if cut(q) != cut(&p) {
                let c = self.case;
                self.line(&format!("{{\"op\":\"obs\",\"c\":{},\"sr\":\"{}\",\"r\":{},\"v\":{}}}", c, W::NAME, r, p));
                self.set_last(r, p);
            }
        }
    }
    /// Names what runs next, for crash attribution only.
    pub fn announce(&mut self, hdr: &str) {
        self.flush();
        let head = format!("{{\"c\":{},{}", self.case, hdr);
        let _ = self.cur.seek(SeekFrom::Start(0));
        let _ = self.cur.write_all(format!("{:<4000}\n", head).as_bytes());
    }
    /// Announces a call (for crash and hang attribution), runs it and records the outcome.
    pub fn call<T>(
        &mut self,
        hdr: &str, // "op":..,"sr":..,"in":[..],"out":r,...  (no braces)
        f: impl FnOnce() -> anyhow::Result<T>,
        enc: impl FnOnce(&T) -> Out,
    ) -> Option<T> {
        let c = self.case;
        let head = format!("{{\"c\":{},{}", c, hdr);
        self.flush();
        let _ = self.cur.seek(SeekFrom::Start(0));
        let _ = self.cur.write_all(format!("{:<4000}\n", head).as_bytes());
        OP_START.store(self.t0.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        let mut ret = None;
        let res = match guarded(f) {
            Ok(v) => {
                let o = match catch_unwind(AssertUnwindSafe(|| enc(&v))) {
                    Ok(o) => o,
                    Err(_) => Out::Panic("panic while reading the result".into()),
                };
                ret = Some(v);
                o
            }
            Err(o) => o,
        };
        OP_START.store(0, Ordering::SeqCst);
        let tail = match res {
            Out::Fst(s) => format!(",\"k\":\"ok\",\"v\":{}}}", s),
            Out::Val(s) => format!(",\"k\":\"val\",\"v\":{}}}", s),
            Out::Err(m) => format!(",\"k\":\"err\",\"m\":{}}}", jstr(&m)),
            Out::Panic(m) => format!(",\"k\":\"panic\",\"m\":{}}}", jstr(&m)),
        };
        self.line(&(head + &tail));
        self.idle();
        ret
    }
    /// Between calls: only the driver's own use of primitives runs, with a generous limit.
    fn idle(&mut self) {
        self.announce("\"op\":\"primitive\",\"sr\":\"trop\",\"in\":[],\"out\":-1");
        OP_START.store(self.t0.elapsed().as_millis() as u64 + 1 + 2 * self.limit, Ordering::SeqCst);
    }
}
pub fn fst_out<W: Sr, F: ExpandedFst<W>>(f: &F) -> Out {
    Out::Fst(proj(f))
}

// ---------------------------------------------------------------- main loop
pub struct Opts {
    pub seed: u64,
    pub cases: u64,
    pub tier: String,
    pub only: Option<u64>,
}
pub fn case_rng(seed: u64, c: u64) -> Rng {
    ChaCha8Rng::seed_from_u64(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(c.wrapping_mul(0xD1B5_4A32_D192_ED03)))
}
/// Standard driver entry: executes the cases of one shard.
pub fn drive(run: fn(&mut Log, &mut Rng, u64, &Opts)) {
    let mut seed = 1u64;
    let mut cases = 100u64;
    let mut shard = 0u64;
    let mut nshards = 1u64;
    let mut from = 0u64;
    let mut out = String::from("/dev/stdout");
    let mut tier = String::from("quick");
    let mut only = None;
    let mut limit = 20_000u64;
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < a.len() {
        let v = &a[i + 1];
        match a[i].as_str() {
            "--seed" => seed = v.parse().unwrap(),
            "--cases" => cases = v.parse().unwrap(),
            "--shard" => shard = v.parse().unwrap(),
            "--nshards" => nshards = v.parse().unwrap(),
            "--from" => from = v.parse().unwrap(),
            "--out" => out = v.clone(),
            "--tier" => tier = v.clone(),
            "--limit-ms" => limit = v.parse().unwrap(),
            "--only" => only = Some(v.parse().unwrap()),
            _ => panic!("bad arg {}", a[i]),
        }
        i += 2;
    }
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(100));
        let s = OP_START.load(Ordering::SeqCst);
        let now = t0.elapsed().as_millis() as u64;
        let rss = std::fs::read_to_string("/proc/self/statm")
            .ok()
            .and_then(|x| x.split_whitespace().nth(1).and_then(|y| y.parse::<u64>().ok()))
            .unwrap_or(0)
            * 4096;
        if s != 0 && (now > s + limit || rss > 2_500_000_000) {
            unsafe { libc_exit(77) }
        }
    });
    let curp = format!("{}.cur", if out.starts_with("/dev/") { "/tmp/vharness" } else { &out });
    let mut log = Log {
        out: OpenOptions::new().create(true).append(true).open(&out).unwrap(),
        cur: OpenOptions::new().create(true).write(true).truncate(true).open(&curp).unwrap(),
        buf: String::new(),
        case: 0,
        t0,
        last: vec![],
        limit,
    };
    let opts = Opts { seed, cases, tier, only };
    let h = std::thread::Builder::new()
        .stack_size(32 << 20)
        .spawn(move || {
            for c in from..opts.cases {
                if opts.only.map(|o| o != c).unwrap_or(c % nshards != shard) {
                    continue;
                }
                log.case = c;
                log.reset();
                log.idle();
                let mut r = case_rng(opts.seed, c);
                // a panic here comes from a primitive (accessor, mutator) used by the driver itself
                if let Err(o) = guarded(|| {
                    run(&mut log, &mut r, c, &opts);
                    Ok(())
                }) {
                    OP_START.store(0, Ordering::SeqCst);
                    let m = match o {
                        Out::Panic(m) | Out::Err(m) => m,
                        _ => String::new(),
                    };
                    log.line(&format!("{{\"c\":{},\"op\":\"primitive\",\"sr\":\"trop\",\"in\":[],\"out\":-1,\"k\":\"panic\",\"m\":{}}}", c, jstr(&m)));
                }
            }
            OP_START.store(0, Ordering::SeqCst);
            log.flush();
            let _ = log.cur.set_len(0);
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("driver panicked outside an API call");
        std::process::exit(3);
    }
}
unsafe fn libc_exit(code: i32) -> ! {
    extern "C" {
        fn _exit(code: i32) -> !;
    }
    _exit(code)
}
pub fn hdr(op: &str, sr: &str, ins: &[usize], out: i64, via: &str, args: &str) -> String {
    // an argument must not shadow a field of the event itself
    let (mut depth, mut start, mut esc, mut instr) = (0, 0usize, false, false);
    for (i, ch) in args.char_indices() {
        if instr {
            if esc {
                esc = false
            } else if ch == '\\' {
                esc = true
            } else if ch == '"' {
                instr = false;
                if depth == 0 && args[i + 1..].starts_with(':') {
                    assert!(!["c", "op", "in", "out", "k", "v"].contains(&&args[start..i]), "reserved argument name in {}", args);
                }
            }
            continue;
        }
        match ch {
            '"' => {
                instr = true;
                start = i + 1
            }
            '[' | '{' => depth += 1,
            ']' | '}' => depth -= 1,
            _ => {}
        }
    }
    format!(
        "\"op\":\"{}\",\"sr\":\"{}\",\"in\":{:?},\"out\":{},\"via\":\"{}\"{}{}",
        op,
        sr,
        ins,
        out,
        via,
        if args.is_empty() { "" } else { "," },
        args
    )
}
pub fn arc<T>(t: T) -> Arc<T> {
    Arc::new(t)
}
pub fn pick_l(labels: usize) -> usize {
    match labels {
        0 | 1 => 5,
        2 => 4,
        _ => 3,
    }
}

/// A store of registers holding VectorFsts, mirrored by the specification's store.
pub struct Store<W: Sr> {
    pub regs: Vec<VectorFst<W>>,
}
impl<W: Sr> Store<W> {
    pub fn new(log: &mut Log, fs: Vec<VectorFst<W>>) -> Self {
        for (i, f) in fs.iter().enumerate() {
            log.new_reg(i, f);
        }
        Store { regs: fs }
    }
    pub fn add(&mut self, log: &mut Log, f: VectorFst<W>) -> usize {
        log.new_reg(self.regs.len(), &f);
        self.regs.push(f);
        self.regs.len() - 1
    }
    /// Runs `f` as one call that produces an FST for register `dst`; then re-reads every register.
    pub fn apply(
        &mut self,
        log: &mut Log,
        op: &str,
        ins: &[usize],
        dst: usize,
        via: &str,
        args: &str,
        f: impl FnOnce(&[VectorFst<W>]) -> anyhow::Result<VectorFst<W>>,
    ) -> bool {
        let h = hdr(op, W::NAME, ins, dst as i64, via, args);
        let regs = &self.regs;
        let res = log.call(&h, || f(regs), fst_out);
        let ok = res.is_some();
        if let Some(x) = res {
            log.set_last(dst, proj(&x));
            if dst < self.regs.len() {
                self.regs[dst] = x;
            } else {
                assert_eq!(dst, self.regs.len());
                self.regs.push(x);
            }
        }
        for i in 0..self.regs.len() {
            log.observe(i, &self.regs[i]);
        }
        ok
    }
    /// Runs `f` as a call that produces an FST value already projected (lazy machines).
    pub fn apply_txt(
        &mut self,
        log: &mut Log,
        op: &str,
        ins: &[usize],
        via: &str,
        args: &str,
        f: impl FnOnce(&[VectorFst<W>]) -> anyhow::Result<String>,
    ) -> bool {
        let h = hdr(op, W::NAME, ins, -1, via, args);
        let regs = &self.regs;
        let res = log.call(&h, || f(regs), |s| Out::Fst(s.clone()));
        for i in 0..self.regs.len() {
            log.observe(i, &self.regs[i]);
        }
        res.is_some()
    }
    /// Runs `f` as a call returning a plain value (JSON text).
    pub fn query(
        &mut self,
        log: &mut Log,
        op: &str,
        ins: &[usize],
        via: &str,
        args: &str,
        f: impl FnOnce(&[VectorFst<W>]) -> anyhow::Result<String>,
    ) -> Option<String> {
        let h = hdr(op, W::NAME, ins, -1, via, args);
        let regs = &self.regs;
        let res = log.call(&h, || f(regs), |s| Out::Val(s.clone()));
        for i in 0..self.regs.len() {
            log.observe(i, &self.regs[i]);
        }
        res
    }
}
/// Sometimes makes the property bits of a register fully known.
pub fn maybe_props<W: Sr>(r: &mut Rng, f: &mut VectorFst<W>) {
    if r.gen_bool(0.35) {
        let _ = f.compute_and_update_properties_all();
    }
}

/// Input-deterministic machine (acceptor or transducer).
pub fn gen_det<W: Sr>(r: &mut Rng, g: &Gen) -> VectorFst<W> {
    let mut f = VectorFst::<W>::new();
    let n = r.gen_range(g.min_states.max(1)..=g.max_states.max(1));
    for _ in 0..n {
        f.add_state();
    }
    f.set_start(0).unwrap();
    for q in 0..n {
        if r.gen_bool(g.pfinal) || q == n - 1 {
            f.set_final(q as StateId, if g.unweighted || r.gen_bool(0.4) { W::one() } else { W::rndf(r) }).unwrap();
        }
        let mut ls: Vec<usize> = (1..=g.labels).collect();
        ls.shuffle(r);
        for il in ls {
            if r.gen_bool(0.25) {
                continue;
            }
            let ns = if g.acyclic {
                if q + 1 >= n {
                    break;
                }
                r.gen_range(q + 1..n)
            } else {
                r.gen_range(0..n)
            };
            let ol = if g.acceptor { il } else if r.gen_bool(g.peps_o) { 0 } else { r.gen_range(1..=g.labels) };
            let w = if g.small { W::rnd_small(r) } else if g.unweighted || (r.gen_bool(0.4) && W::NAME != "real") { W::one() } else { W::rnd(r) };
            f.add_tr(q as StateId, Tr::new(il as Label, ol as Label, w, ns as StateId)).unwrap();
        }
    }
    f
}
/// Duplicates states (same outgoing transitions, some incoming ones redirected or copied):
/// same language per state, so nothing new is ambiguous but everything may be non-deterministic.
pub fn split_states<W: Sr>(r: &mut Rng, f: &VectorFst<W>, copies: usize, redirect_only: bool) -> VectorFst<W> {
    let mut f = f.clone();
    for _ in 0..copies {
        let n = f.num_states() as StateId;
        let q = r.gen_range(0..n);
        let c = f.add_state();
        if let Some(w) = f.final_weight(q).unwrap() {
            f.set_final(c, w).unwrap();
        }
        for t in f.get_trs(q).unwrap().trs().to_vec() {
            f.add_tr(c, t).unwrap();
        }
        for p in 0..=n {
            for (i, t) in f.get_trs(p).unwrap().trs().to_vec().into_iter().enumerate() {
                if t.nextstate == q && r.gen_bool(0.5) {
                    if redirect_only {
                        let mut it = f.tr_iter_mut(p).unwrap();
                        it.set_tr(i, Tr::new(t.ilabel, t.olabel, t.weight.clone(), c)).unwrap();
                    } else {
                        f.add_tr(p, Tr::new(t.ilabel, t.olabel, t.weight.clone(), c)).unwrap();
                    }
                }
            }
        }
    }
    f
}
