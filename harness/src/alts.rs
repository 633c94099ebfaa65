//! Non-commutative weights (strings, gallic) as lists of (string, tropical weight) alternatives.
use crate::*;
use rand::Rng as _;
use rustfst::semirings::*;
use std::fmt::Write as _;

pub type T = TropicalWeight;
/// A weight as a list of (output string, tropical weight) alternatives.
pub trait Alts: WeightQuantize + 'static {
    const KIND: &'static str;
    fn alts(&self) -> Vec<(Vec<Label>, i64)>;
    fn make(r: &mut Rng, n: usize) -> Self;
}
macro_rules! labels {
    ($s:expr) => {
        if $s.value().is_infinity() {
            None
        } else {
            Some($s.value().unwrap_labels().clone())
        }
    };
}
pub fn rstr(r: &mut Rng, n: usize) -> Vec<Label> {
    (0..r.gen_range(0..=n)).map(|_| r.gen_range(1..=2)).collect()
}
macro_rules! gal {
    ($t:ty, $k:expr) => {
        impl Alts for $t {
            const KIND: &'static str = $k;
            fn alts(&self) -> Vec<(Vec<Label>, i64)> {
                match labels!(self.value1()) {
                    None => vec![],
                    Some(l) => vec![(l, self.value2().enc())],
                }
            }
            fn make(r: &mut Rng, n: usize) -> Self {
                (rstr(r, n), T::rnd(r)).into()
            }
        }
    };
}
gal!(GallicWeightLeft<T>, "left");
gal!(GallicWeightRight<T>, "right");
gal!(GallicWeightRestrict<T>, "restrict");
gal!(GallicWeightMin<T>, "min");
macro_rules! strw {
    ($t:ty, $k:expr) => {
        impl Alts for $t {
            const KIND: &'static str = $k;
            fn alts(&self) -> Vec<(Vec<Label>, i64)> {
                labels!(self).map(|l| vec![(l, 0)]).unwrap_or_default()
            }
            fn make(r: &mut Rng, n: usize) -> Self {
                rstr(r, n).into()
            }
        }
    };
}
strw!(StringWeightLeft, "sleft");
strw!(StringWeightRight, "sright");
strw!(StringWeightRestrict, "srestrict");
impl Alts for GallicWeight<T> {
    const KIND: &'static str = "union";
    fn alts(&self) -> Vec<(Vec<Label>, i64)> {
        self.iter().flat_map(|w| labels!(w.value1()).map(|l| (l, w.value2().enc()))).collect()
    }
    fn make(r: &mut Rng, n: usize) -> Self {
        let mut w: Self = GallicWeightRestrict::<T>::make(r, n).into();
        if r.gen_bool(0.4) {
            let o: Self = GallicWeightRestrict::<T>::make(r, n).into();
            w = w.plus(&o).unwrap();
        }
        w
    }
}
pub fn txt<A: Alts>(w: &A) -> String {
    let v: Vec<String> = w.alts().iter().map(|(s, w)| format!("[{:?},{}]", s, w)).collect();
    format!("[{}]", v.join(","))
}
pub fn gproj<A: Alts>(f: &VectorFst<A>) -> String {
    let mut o = format!("{{\"s\":{},\"f\":[", opt(f.start()));
    for q in 0..f.num_states() {
        if q > 0 {
            o.push(',')
        }
        match f.final_weight(q as StateId).unwrap() {
            Some(w) => o.push_str(&txt(&w)),
            None => o.push_str("[]"),
        }
    }
    o.push_str("],\"a\":[");
    for q in 0..f.num_states() {
        let ts = f.get_trs(q as StateId).unwrap();
        let v: Vec<String> = ts.trs().iter().map(|t| format!("[{},{},{},{}]", t.ilabel, t.olabel, txt(&t.weight), t.nextstate)).collect();
        let _ = write!(o, "{}[{}]", if q > 0 { "," } else { "" }, v.join(","));
    }
    o.push_str("]}");
    o
}
