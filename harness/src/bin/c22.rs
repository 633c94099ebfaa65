//! Arithmetic of every weight type: operations on random triples, recorded for the algebra in the specification.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::prelude::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use vharness::*;

trait Wt: Semiring + WeightQuantize {
    const T: &'static str;
    fn e(&self) -> String;
    fn g(r: &mut Rng) -> Self;
    fn er(x: &Self::ReverseWeight) -> String;
    fn div(&self, _b: &Self, _t: DivideType) -> Option<anyhow::Result<Self>> {
        None
    }
    fn star(&self) -> Option<Self> {
        None
    }
}
macro_rules! sv {
    ($v:expr) => {{
        let v = $v;
        if v.is_infinity() {
            String::from("[]")
        } else {
            format!("[{:?}]", v.unwrap_labels())
        }
    }};
}
fn gs(r: &mut Rng) -> Vec<Label> {
    (0..r.gen_range(0..4)).map(|_| r.gen_range(1..3)).collect()
}
macro_rules! num {
    ($w:ty, $t:expr, $g:expr, star) => {
        impl Wt for $w {
            const T: &'static str = $t;
            fn e(&self) -> String {
                self.enc().to_string()
            }
            fn er(x: &Self) -> String {
                x.enc().to_string()
            }
            fn g(r: &mut Rng) -> Self {
                $g(r)
            }
            fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
                Some(self.divide(b, t))
            }
            fn star(&self) -> Option<Self> {
                Some(self.closure())
            }
        }
    };
}
fn neglog(p: f64) -> f32 {
    (-p.ln()) as f32
}
num!(TropicalWeight, "trop", |r: &mut Rng| if r.gen_bool(0.1) { TropicalWeight::zero() } else { TropicalWeight::new(*[0.0f32, 0.5, 1.0, 2.25, 3.0, -1.5, 10.0, 100.0].choose(r).unwrap()) }, star);
num!(LogWeight, "log", |r: &mut Rng| if r.gen_bool(0.1) { LogWeight::zero() } else { LogWeight::new(neglog(*[1.0f64, 0.5, 0.25, 0.3, 0.001, 2.0, 0.9].choose(r).unwrap())) }, star);
impl Wt for ProbabilityWeight {
    const T: &'static str = "prob";
    fn e(&self) -> String {
        self.enc().to_string()
    }
    fn er(x: &Self) -> String {
        x.enc().to_string()
    }
    fn g(r: &mut Rng) -> Self {
        ProbabilityWeight::new(*[0.0f32, 1.0, 0.5, 0.25, 0.3, 0.125, 2.0].choose(r).unwrap())
    }
    fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
        Some(self.divide(b, t))
    }
    fn star(&self) -> Option<Self> {
        Some(self.closure())
    }
}
macro_rules! strw {
    ($w:ident, $t:expr) => {
        impl Wt for $w {
            const T: &'static str = $t;
            fn e(&self) -> String {
                sv!(self.value())
            }
            fn er(x: &Self::ReverseWeight) -> String {
                sv!(x.value())
            }
            fn g(r: &mut Rng) -> Self {
                if r.gen_bool(0.1) {
                    Self::zero()
                } else {
                    gs(r).into()
                }
            }
            fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
                Some(self.divide(b, t))
            }
        }
    };
}
strw!(StringWeightLeft, "strL");
strw!(StringWeightRight, "strR");
strw!(StringWeightRestrict, "strX");
type P = ProductWeight<TropicalWeight, LogWeight>;
impl Wt for P {
    const T: &'static str = "prod";
    fn e(&self) -> String {
        format!("[{},{}]", self.value1().enc(), self.value2().enc())
    }
    fn er(x: &Self::ReverseWeight) -> String {
        format!("[{},{}]", x.value1().enc(), x.value2().enc())
    }
    fn g(r: &mut Rng) -> Self {
        Self::new((TropicalWeight::g(r), LogWeight::g(r)))
    }
    fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
        Some(self.divide(b, t))
    }
}
macro_rules! gal {
    ($w:ident, $t:expr) => {
        impl Wt for $w<TropicalWeight> {
            const T: &'static str = $t;
            fn e(&self) -> String {
                format!("[{},{}]", sv!(self.value1().value()), self.value2().enc())
            }
            fn er(x: &Self::ReverseWeight) -> String {
                format!("[{},{}]", sv!(x.value1().value()), x.value2().enc())
            }
            fn g(r: &mut Rng) -> Self {
                if r.gen_bool(0.1) {
                    Self::zero()
                } else {
                    // distinct weights almost always: ties between different strings are left open for "min"
                    (gs(r), TropicalWeight::new(r.gen_range(0..400) as f32 / 16.0)).into()
                }
            }
            fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
                Some(self.divide(b, t))
            }
        }
    };
}
gal!(GallicWeightLeft, "galL");
gal!(GallicWeightRight, "galR");
gal!(GallicWeightRestrict, "galX");
gal!(GallicWeightMin, "galM");
type G = GallicWeight<TropicalWeight>;
fn ge<W: Sr>(x: &GallicWeight<W>) -> String {
    format!("[{}]", x.iter().map(|y| format!("[{},{}]", sv!(y.value1().value()), y.value2().enc())).collect::<Vec<_>>().join(","))
}
impl Wt for G {
    const T: &'static str = "gal";
    fn e(&self) -> String {
        ge(self)
    }
    fn er(x: &Self::ReverseWeight) -> String {
        ge(x)
    }
    fn g(r: &mut Rng) -> Self {
        let mut x = Self::zero();
        for _ in 0..r.gen_range(0..4) {
            let y: G = (gs(r), TropicalWeight::new(r.gen_range(0..100) as f32 / 16.0)).into();
            x.plus_assign(&y).unwrap();
        }
        x
    }
    fn div(&self, b: &Self, t: DivideType) -> Option<anyhow::Result<Self>> {
        Some(self.divide(b, t))
    }
}
// integers and booleans have no quantisation: wrap
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Hash)]
struct Nq<W: Semiring>(W);
impl<W: Semiring<ReverseWeight = W> + ReverseBack<W>> Semiring for Nq<W> {
    type Type = W::Type;
    type ReverseWeight = Nq<W>;
    fn zero() -> Self {
        Nq(W::zero())
    }
    fn one() -> Self {
        Nq(W::one())
    }
    fn new(v: W::Type) -> Self {
        Nq(W::new(v))
    }
    fn plus_assign<B: std::borrow::Borrow<Self>>(&mut self, r: B) -> anyhow::Result<()> {
        self.0.plus_assign(&r.borrow().0)
    }
    fn times_assign<B: std::borrow::Borrow<Self>>(&mut self, r: B) -> anyhow::Result<()> {
        self.0.times_assign(&r.borrow().0)
    }
    fn approx_equal<B: std::borrow::Borrow<Self>>(&self, r: B, d: f32) -> bool {
        self.0.approx_equal(&r.borrow().0, d)
    }
    fn value(&self) -> &W::Type {
        self.0.value()
    }
    fn take_value(self) -> W::Type {
        self.0.take_value()
    }
    fn set_value(&mut self, v: W::Type) {
        self.0.set_value(v)
    }
    fn is_one(&self) -> bool {
        self.0.is_one()
    }
    fn is_zero(&self) -> bool {
        self.0.is_zero()
    }
    fn reverse(&self) -> anyhow::Result<Self> {
        Ok(Nq(self.0.reverse()?))
    }
    fn properties() -> SemiringProperties {
        W::properties()
    }
}
impl<W: Semiring<ReverseWeight = W> + ReverseBack<W>> ReverseBack<Nq<W>> for Nq<W> {
    fn reverse_back(&self) -> anyhow::Result<Nq<W>> {
        Ok(Nq(self.0.reverse_back()?))
    }
}
impl<W: Semiring<ReverseWeight = W> + ReverseBack<W>> WeightQuantize for Nq<W> {
    fn quantize_assign(&mut self, _: f32) -> anyhow::Result<()> {
        Ok(())
    }
}
impl Wt for Nq<IntegerWeight> {
    const T: &'static str = "int";
    fn e(&self) -> String {
        self.0.enc().to_string()
    }
    fn er(x: &Self) -> String {
        x.e()
    }
    fn g(r: &mut Rng) -> Self {
        Nq(IntegerWeight::new(*[0, 1, 2, 3, -1, -7, 50].choose(r).unwrap()))
    }
    fn star(&self) -> Option<Self> {
        if self.0.is_zero() {
            Some(Nq(self.0.closure()))
        } else {
            None
        }
    }
}
impl Wt for Nq<BooleanWeight> {
    const T: &'static str = "bool";
    fn e(&self) -> String {
        self.0.enc().to_string()
    }
    fn er(x: &Self) -> String {
        x.e()
    }
    fn g(r: &mut Rng) -> Self {
        Nq(BooleanWeight::new(r.gen_bool(0.5)))
    }
    fn star(&self) -> Option<Self> {
        Some(Nq(self.0.closure()))
    }
}
fn hash<H: Hash>(x: &H) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
fn laws<W: Wt>(log: &mut Log, r: &mut Rng) {
    let pool: Vec<W> = (0..4).map(|_| W::g(r)).collect();
    let pick = |r: &mut Rng| -> W {
        match r.gen_range(0..10) {
            0 => W::one(),
            1 => W::zero(),
            _ => pool.choose(r).unwrap().clone(),
        }
    };
    let (a, b, c) = (pick(r), pick(r), pick(r));
    let h = hdr("w.laws", W::T, &[], -1, W::T, &format!("\"wa\":{},\"wb\":{},\"wc\":{},\"props\":{}", a.e(), b.e(), c.e(), W::properties().bits()));
    let refused = || Err::<W, anyhow::Error>(anyhow::anyhow!("skip"));
    log.call(
        &h,
        || {
            // results: [] when refused, [value] otherwise
            let o = |x: anyhow::Result<W>| x.map(|w| format!("[{}]", w.e())).unwrap_or("[]".into());
            let ro = |x: anyhow::Result<W::ReverseWeight>| x.map(|w| format!("[{}]", W::er(&w))).unwrap_or("[]".into());
            let plus = |x: anyhow::Result<W>, y: anyhow::Result<W>| x.and_then(|x| y.and_then(|y| x.plus(y)));
            let times = |x: anyhow::Result<W>, y: anyhow::Result<W>| x.and_then(|x| y.and_then(|y| x.times(y)));
            let (ka, kb, kc) = (|| Ok(a.clone()), || Ok(b.clone()), || Ok(c.clone()));
            let (z, u) = (|| Ok(W::zero()), || Ok(W::one()));
            let mut m: Vec<(&str, String)> = vec![
                ("ab", o(plus(ka(), kb()))),
                ("ba", o(plus(kb(), ka()))),
                ("p1", o(plus(plus(ka(), kb()), kc()))),
                ("p2", o(plus(ka(), plus(kb(), kc())))),
                ("aa", o(plus(ka(), ka()))),
                ("za", o(plus(z(), ka()))),
                ("az", o(plus(ka(), z()))),
                ("tab", o(times(ka(), kb()))),
                ("tba", o(times(kb(), ka()))),
                ("t1", o(times(times(ka(), kb()), kc()))),
                ("t2", o(times(ka(), times(kb(), kc())))),
                ("ua", o(times(u(), ka()))),
                ("au", o(times(ka(), u()))),
                ("tza", o(times(z(), ka()))),
                ("taz", o(times(ka(), z()))),
                ("dl1", o(times(ka(), plus(kb(), kc())))),
                ("dl2", o(plus(times(ka(), kb()), times(ka(), kc())))),
                ("dr1", o(times(plus(kb(), kc()), ka()))),
                ("dr2", o(plus(times(kb(), ka()), times(kc(), ka())))),
                ("ra", ro(a.reverse())),
                ("rb", ro(b.reverse())),
                ("rback", o(a.reverse().and_then(|x| x.reverse_back()))),
                ("rt1", ro(times(ka(), kb()).and_then(|x| x.reverse()))),
                ("rt2", ro(b.reverse().and_then(|y| a.reverse().and_then(|x| y.times(x))))),
                ("rp1", ro(plus(ka(), kb()).and_then(|x| x.reverse()))),
                ("rp2", ro(b.reverse().and_then(|y| a.reverse().and_then(|x| x.plus(y))))),
                ("zero", o(z())),
                ("one", o(u())),
                ("q", o(a.quantize(1.0 / 16.0))),
                ("q2", o(a.quantize(1.0 / 16.0).and_then(|x| x.quantize(1.0 / 16.0)))),
            ];
            let mut s = a.clone();
            m.push(("set", {
                s.set_value(b.value().clone());
                o(Ok(s))
            }));
            m.push(("new", o(Ok(W::new(a.clone().take_value())))));
            let prod = a.times(&b);
            for (k, t) in [("divl", DivideType::DivideLeft), ("divr", DivideType::DivideRight), ("diva", DivideType::DivideAny)] {
                // (a b) / a from the left, (a b) / b from the right or anyhow
                let den = if k == "divl" { &a } else { &b };
                let v = match &prod {
                    Ok(p) if !den.is_zero() => p.div(den, t),
                    _ => None,
                };
                m.push((k, o(v.unwrap_or_else(refused))));
            }
            // a zero divided by anything but zero
            let zd = if b.is_zero() { None } else { W::zero().div(&b, if W::T == "strR" || W::T == "galR" { DivideType::DivideRight } else { DivideType::DivideLeft }) };
            m.push(("zdiv", o(zd.unwrap_or_else(refused))));
            let st = a.star();
            m.push(("star", st.as_ref().map(|x| format!("[{}]", x.e())).unwrap_or("[]".into())));
            let flags = format!(
                "\"isz\":{},\"iso\":{},\"eqab\":{},\"eqba\":{},\"apx\":{},\"apxaa\":{},\"eqaa\":{},\"hash\":{}",
                a.is_zero(),
                a.is_one(),
                a == b,
                b == a,
                a.approx_equal(&b, 1.0 / 1024.0),
                a.approx_equal(&a, 1.0 / 1024.0),
                a == a.clone(),
                a != b || hash(&a) == hash(&b)
            );
            Ok(format!("{{{},{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), flags))
        },
        |s| Out::Val(s.clone()),
    );
}
/// Weights that are equal within the tolerance of the library but not the same number.
fn near<W: Semiring>(log: &mut Log, t: &str, a: W, b: W) {
    let h = hdr("w.near", t, &[], -1, t, "\"d\":\"1/2048\"");
    log.call(&h, || Ok(format!("{{\"eq\":{},\"hash\":{}}}", a == b, hash(&a) == hash(&b))), |s| Out::Val(s.clone()));
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    if c % 500 == 7 {
        let d = 1.0 / 2048.0;
        near(log, "trop", TropicalWeight::new(1.0), TropicalWeight::new(1.0 + d));
        near(log, "log", LogWeight::new(1.0), LogWeight::new(1.0 + d));
        near(log, "prob", ProbabilityWeight::new(1.0), ProbabilityWeight::new(1.0 + d));
    }
    for _ in 0..3 {
        match r.gen_range(0..15) {
            0 | 1 => laws::<TropicalWeight>(log, r),
            2 => laws::<LogWeight>(log, r),
            3 => laws::<ProbabilityWeight>(log, r),
            4 => laws::<Nq<IntegerWeight>>(log, r),
            5 => laws::<Nq<BooleanWeight>>(log, r),
            6 => laws::<StringWeightLeft>(log, r),
            7 => laws::<StringWeightRight>(log, r),
            8 => laws::<StringWeightRestrict>(log, r),
            9 => laws::<P>(log, r),
            10 => laws::<GallicWeightLeft<TropicalWeight>>(log, r),
            11 => laws::<GallicWeightRight<TropicalWeight>>(log, r),
            12 => laws::<GallicWeightRestrict<TropicalWeight>>(log, r),
            13 => laws::<GallicWeightMin<TropicalWeight>>(log, r),
            _ => laws::<G>(log, r),
        }
    }
}
fn main() {
    drive(run)
}
