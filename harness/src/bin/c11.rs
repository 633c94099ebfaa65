//! Shortest distances: forward, reverse, all pairs.
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

fn wvec<W: Sr>(d: &[W]) -> String {
    let v: Vec<String> = d.iter().map(|w| w.enc().to_string()).collect();
    format!("[{}]", v.join(","))
}
fn go<W: Sr + StarSemiring>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    if r.gen_bool(0.4) {
        g.max_states = r.gen_range(3..=7);
        g.min_states = 3;
    }
    convergent::<W>(r, &mut g);
    let mut f: V<W> = gen_fst(r, &g);
    maybe_props(r, &mut f);
    if r.gen_bool(0.15) {
        let _ = top_sort(&mut f);
    }
    let mut st = Store::new(log, vec![f]);
    let x = st.regs[0].clone();
    let asconst = r.gen_bool(0.3);
    for rev in [false, true] {
        st.query(log, "shortest_distance", &[0], if asconst { "const" } else { "vec" }, &format!("\"rev\":{}", rev), |_| {
            let d: Vec<W> = if asconst {
                let c: ConstFst<W> = x.clone().into();
                shortest_distance(&c, rev)?
            } else {
                shortest_distance(&x, rev)?
            };
            Ok(wvec(&d))
        });
    }
    st.query(log, "all_pairs", &[0], "s", "\"L\":1", |_| {
        let d = all_pairs_shortest_distance(&x)?;
        let v: Vec<String> = d.iter().map(|x| wvec(x)).collect();
        Ok(format!("[{}]", v.join(",")))
    });
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 6 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        3 => go::<LogWeight>(log, r),
        4 => go::<ProbabilityWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
