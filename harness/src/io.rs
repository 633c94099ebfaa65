//! Machines over any serialisable weight, with weights interned by their exact printed value.
use crate::{gen_fst, jstr, lab, opt, Gen, Opts, Rng};
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::prelude::*;
use rustfst::Trs;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::path::PathBuf;
use std::sync::Arc;

pub trait IoW: SerializableSemiring + 'static {
    const NAME: &'static str;
    type Other: IoW;
    fn rw(r: &mut Rng) -> Self;
}
fn fl(r: &mut Rng) -> f32 {
    match r.gen_range(0..8) {
        0 => 0.0,
        1 => f32::from_bits(r.gen_range(0..0x7f00_0000)),
        2 => *[0.1, 1.0e-20, 3.3e37, 1.0 / 3.0, -2.5, 16777217.0, 1.0e-40, -0.75].choose(r).unwrap(),
        _ => r.gen_range(0..40) as f32 / 8.0,
    }
}
impl IoW for TropicalWeight {
    const NAME: &'static str = "standard";
    type Other = LogWeight;
    fn rw(r: &mut Rng) -> Self {
        if r.gen_bool(0.04) {
            Self::zero()
        } else {
            Self::new(fl(r))
        }
    }
}
impl IoW for LogWeight {
    const NAME: &'static str = "log";
    type Other = TropicalWeight;
    fn rw(r: &mut Rng) -> Self {
        if r.gen_bool(0.04) {
            Self::zero()
        } else {
            Self::new(fl(r))
        }
    }
}
impl IoW for ProbabilityWeight {
    const NAME: &'static str = "probability";
    type Other = LogWeight;
    fn rw(r: &mut Rng) -> Self {
        // weights closer to zero than the library's equality tolerance are zero for the library
        Self::new(if r.gen_bool(0.04) { 0.0 } else { r.gen_range(1..200) as f32 / 64.0 + r.gen_range(0..3) as f32 / 3.0e3 })
    }
}
impl IoW for IntegerWeight {
    const NAME: &'static str = "integer";
    type Other = TropicalWeight;
    fn rw(r: &mut Rng) -> Self {
        Self::new(*[0, 1, 2, 3, 7, -1, -5, i32::MAX, i32::MIN].choose(r).unwrap())
    }
}
fn labels(r: &mut Rng) -> Vec<Label> {
    (0..r.gen_range(0..4)).map(|_| *[1u32, 2, 3, 10, 70000].choose(r).unwrap()).collect()
}
macro_rules! strw {
    ($t:ty, $n:expr, $o:ty) => {
        impl IoW for $t {
            const NAME: &'static str = $n;
            type Other = $o;
            fn rw(r: &mut Rng) -> Self {
                if r.gen_bool(0.05) {
                    Self::zero()
                } else {
                    labels(r).into()
                }
            }
        }
    };
}
strw!(StringWeightLeft, "left_string", StringWeightRight);
strw!(StringWeightRight, "right_string", StringWeightLeft);
strw!(StringWeightRestrict, "restricted_string", StringWeightLeft);
impl IoW for ProductWeight<TropicalWeight, LogWeight> {
    const NAME: &'static str = "product";
    type Other = LogWeight;
    fn rw(r: &mut Rng) -> Self {
        Self::new((TropicalWeight::rw(r), LogWeight::rw(r)))
    }
}
impl IoW for GallicWeightLeft<TropicalWeight> {
    const NAME: &'static str = "left_gallic";
    type Other = LogWeight;
    fn rw(r: &mut Rng) -> Self {
        if r.gen_bool(0.05) {
            return Self::zero();
        }
        (StringWeightLeft::from(labels(r)), TropicalWeight::new(fl(r))).into()
    }
}
impl IoW for GallicWeight<TropicalWeight> {
    const NAME: &'static str = "gallic";
    type Other = LogWeight;
    fn rw(r: &mut Rng) -> Self {
        if r.gen_bool(0.05) {
            return Self::zero();
        }
        let mut x = Self::one();
        x.times_assign(GallicWeightRestrict::<TropicalWeight>::from((StringWeightRestrict::from(labels(r)), TropicalWeight::new(fl(r)))).into_g()).unwrap();
        x
    }
}
trait IntoG {
    fn into_g(self) -> GallicWeight<TropicalWeight>;
}
impl IntoG for GallicWeightRestrict<TropicalWeight> {
    fn into_g(self) -> GallicWeight<TropicalWeight> {
        (self.value1().clone(), self.value2().clone()).into()
    }
}

#[derive(Clone)]
pub struct Intern {
    ids: HashMap<String, i64>,
    bytes: Vec<Vec<u8>>,
}
impl Intern {
    pub fn new<W: SerializableSemiring>() -> Self {
        let mut i = Intern { ids: HashMap::new(), bytes: vec![] };
        i.id(&W::zero());
        i.id(&W::one());
        i
    }
    pub fn id<W: SerializableSemiring>(&mut self, w: &W) -> i64 {
        let k = format!("{:?}", w);
        if let Some(x) = self.ids.get(&k) {
            return *x;
        }
        let n = self.ids.len() as i64;
        self.ids.insert(k, n);
        let mut b = vec![];
        let _ = w.write_binary(&mut b);
        self.bytes.push(b);
        n
    }
    pub fn bytes_json(&self) -> String {
        format!("{:?}", self.bytes)
    }
}
/// Exact table of a machine, its per-state counters and its symbol tables.
pub fn proj_o<W: SerializableSemiring, F: ExpandedFst<W>>(f: &F, it: &mut Intern) -> String {
    let n = f.num_states();
    let mut fs = String::new();
    let mut ar = String::new();
    let mut co = String::new();
    for q in 0..n as StateId {
        let c = if q > 0 { "," } else { "" };
        match f.final_weight(q).unwrap() {
            Some(w) => write!(fs, "{}[{}]", c, it.id(&w)).unwrap(),
            None => write!(fs, "{}[]", c).unwrap(),
        }
        let v: Vec<String> = f
            .get_trs(q)
            .unwrap()
            .trs()
            .iter()
            .map(|t| format!("[{},{},{},{}]", lab(t.ilabel), lab(t.olabel), it.id(&t.weight), (t.nextstate as u64).min(2_000_000_000)))
            .collect();
        write!(ar, "{}[{}]", c, v.join(",")).unwrap();
        write!(co, "{}[{},{},{}]", c, f.num_trs(q).unwrap(), f.num_input_epsilons(q).unwrap(), f.num_output_epsilons(q).unwrap()).unwrap();
    }
    let s = opt(f.start()).min(2_000_000_000);
    format!("{{\"s\":{},\"f\":[{}],\"a\":[{}],\"c\":[{}],\"isy\":{},\"osy\":{}}}", s, fs, ar, co, symj(f.input_symbols()), symj(f.output_symbols()))
}
pub fn symj(s: Option<&Arc<SymbolTable>>) -> String {
    match s {
        None => "[]".into(),
        Some(t) => format!("[[{}]]", (0..t.len()).map(|l| jstr(t.get_symbol(l as Label).unwrap_or("<<missing>>"))).collect::<Vec<_>>().join(",")),
    }
}
pub fn symb(s: Option<&Arc<SymbolTable>>) -> String {
    match s {
        None => "[]".into(),
        Some(t) => format!("[{:?}]", (0..t.len()).map(|l| t.get_symbol(l as Label).unwrap_or("").as_bytes().to_vec()).collect::<Vec<_>>()),
    }
}
pub fn symbol(r: &mut Rng, text: bool) -> String {
    let pool: &[&str] = if text {
        &["a", "b", "<eps>", "é", "日本", "a-b", "x\"y", "\\n", "#0", "1", "{}", "a.b,c"]
    } else {
        &["a", "b", "", " ", "a b", "tab\there", "nl\n", "é", "日本", "\u{0}", "0", "-1"]
    };
    let mut s = pool.choose(r).unwrap().to_string();
    if r.gen_bool(0.3) {
        s.push_str(pool.choose(r).unwrap());
    }
    if text && s.is_empty() {
        s.push('z');
    }
    s
}
pub fn machine<W: IoW>(r: &mut Rng, g: &Gen) -> VectorFst<W> {
    let t = gen_fst::<TropicalWeight>(r, g);
    let mut f = VectorFst::<W>::new();
    f.add_states(t.num_states());
    if let Some(s) = t.start() {
        f.set_start(s).unwrap();
    }
    let big = r.gen_bool(0.15);
    for q in 0..t.num_states() as StateId {
        if t.final_weight(q).unwrap().is_some() {
            f.set_final(q, W::rw(r)).unwrap();
        }
        for x in t.get_trs(q).unwrap().trs() {
            let l = |r: &mut Rng, l: Label| if big && l > 0 { *[70000u32, 1_999_999_999, 256].choose(r).unwrap() } else { l };
            let (i, o) = (l(r, x.ilabel), l(r, x.olabel));
            f.add_tr(q, Tr::new(i, o, W::rw(r), x.nextstate)).unwrap();
        }
    }
    f
}
pub struct Scratch {
    pub path: PathBuf,
}
impl Scratch {
    pub fn new(_o: &Opts, case: u64) -> Self {
        let path = std::env::temp_dir().join(format!("vharness-{}-{}", std::process::id(), case));
        std::fs::create_dir_all(&path).unwrap();
        Scratch { path }
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}
pub fn dev_full() -> bool {
    use std::os::unix::fs::FileTypeExt;
    std::fs::metadata("/dev/full").map(|m| m.file_type().is_char_device()).unwrap_or(false)
}
