//! Encode / decode.
use rand::Rng as _;
use rustfst::algorithms::encode::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    if !W::cyc_ok() {
        g.acyclic = true;
    }
    g.pstart_none = 0.05;
    let mut f: V<W> = gen_fst(r, &g);
    maybe_props(r, &mut f);
    let l = pick_l(g.labels);
    let mut st = Store::new(log, vec![f]);
    for (name, ty) in [("w", EncodeType::EncodeWeights), ("l", EncodeType::EncodeLabels), ("wl", EncodeType::EncodeWeightsAndLabels)] {
        let a = format!("\"L\":{},\"mode\":\"{}\"", l, name);
        let mut table = None;
        let tr = &mut table;
        let mut enc: Option<V<W>> = None;
        let er = &mut enc;
        st.query(log, "encode", &[0], "s", &a, |x| {
            let mut y = x[0].clone();
            let t = encode(&mut y, ty)?;
            let mut o = String::new();
            let mut i = 1;
            while let Some(e) = t.0.borrow_mut().decode(i) {
                o.push_str(&format!("{}[{},{},{}]", if i > 1 { "," } else { "" }, e.ilabel, e.olabel, e.weight.enc()));
                i += 1;
            }
            let s = format!("{{\"fst\":{},\"table\":[{}]}}", proj(&y), o);
            *er = Some(y);
            *tr = Some(t);
            Ok(s)
        });
        if let (Some(y), Some(t)) = (enc, table) {
            st.apply(log, "decode", &[0], 1, "s", &a, |_| {
                let mut y = y;
                decode(&mut y, t)?;
                Ok(y)
            });
            st.regs.truncate(1);
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        _ => go::<LogWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
