//! Isomorphism and equality tests on related pairs of machines.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use rustfst::SymbolTable;
use vharness::*;
type V<W> = VectorFst<W>;

type T<W> = (usize, Label, Label, W, usize);
struct M<W> {
    n: usize,
    s: Option<usize>,
    f: Vec<Option<W>>,
    a: Vec<T<W>>,
}
fn take<W: Sr>(f: &V<W>) -> M<W> {
    let n = f.num_states();
    let mut a = vec![];
    for q in 0..n {
        for t in f.get_trs(q as StateId).unwrap().trs() {
            a.push((q, t.ilabel, t.olabel, t.weight.clone(), t.nextstate as usize));
        }
    }
    M { n, s: f.start().map(|x| x as usize), f: (0..n).map(|q| f.final_weight(q as StateId).unwrap()).collect(), a }
}
fn make<W: Sr>(m: &M<W>) -> V<W> {
    let mut f = V::<W>::new();
    for _ in 0..m.n {
        f.add_state();
    }
    if let Some(s) = m.s {
        f.set_start(s as StateId).unwrap();
    }
    for q in 0..m.n {
        if let Some(w) = &m.f[q] {
            f.set_final(q as StateId, w.clone()).unwrap();
        }
    }
    for (q, i, o, w, t) in &m.a {
        f.add_tr(*q as StateId, Tr::new(*i, *o, w.clone(), *t as StateId)).unwrap();
    }
    f
}
fn permute<W: Sr>(r: &mut Rng, m: &mut M<W>) {
    let mut p: Vec<usize> = (0..m.n).collect();
    p.shuffle(r);
    m.s = m.s.map(|s| p[s]);
    let mut f = vec![None; m.n];
    for q in 0..m.n {
        f[p[q]] = m.f[q].clone();
    }
    m.f = f;
    for t in m.a.iter_mut() {
        t.0 = p[t.0];
        t.4 = p[t.4];
    }
    if r.gen_bool(0.8) {
        m.a.shuffle(r);
    }
}
fn mutate<W: Sr>(r: &mut Rng, m: &mut M<W>, labels: usize) {
    if m.n == 0 {
        return;
    }
    let k = r.gen_range(0..9);
    match k {
        0 => {
            let q = r.gen_range(0..m.n);
            m.f[q] = if m.f[q].is_some() && r.gen_bool(0.5) { None } else { Some(W::rndf(r)) };
        }
        1 => m.s = if r.gen_bool(0.3) { None } else { Some(r.gen_range(0..m.n)) },
        2 => {
            let t = (r.gen_range(0..m.n), r.gen_range(0..=labels) as Label, r.gen_range(0..=labels) as Label, W::rnd(r), r.gen_range(0..m.n));
            m.a.push(t);
        }
        _ if m.a.is_empty() => {}
        3 => {
            let i = r.gen_range(0..m.a.len());
            m.a.remove(i);
        }
        4 => {
            let i = r.gen_range(0..m.a.len());
            m.a[i].1 = r.gen_range(0..=labels) as Label;
        }
        5 => {
            let i = r.gen_range(0..m.a.len());
            m.a[i].2 = r.gen_range(0..=labels) as Label;
        }
        6 => {
            let i = r.gen_range(0..m.a.len());
            m.a[i].3 = W::rnd(r);
        }
        7 => {
            let i = r.gen_range(0..m.a.len());
            m.a[i].4 = r.gen_range(0..m.n);
        }
        _ => {
            // two transitions exchange their targets
            let (i, j) = (r.gen_range(0..m.a.len()), r.gen_range(0..m.a.len()));
            let x = m.a[i].4;
            m.a[i].4 = m.a[j].4;
            m.a[j].4 = x;
        }
    }
}

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(4);
    g.min_states = g.min_states.min(g.max_states);
    let a: V<W> = if r.gen_bool(0.6) { gen_det(r, &g) } else { gen_fst(r, &g) };
    let ro = r.gen_bool(0.5);
    let mut m = if a.num_states() > 0 && r.gen_bool(0.15) { take(&split_states(r, &a, 1, ro)) } else { take(&a) };
    if r.gen_bool(0.15) && m.n > 1 {
        // fold one state into another
        let (x, y) = (r.gen_range(0..m.n), r.gen_range(0..m.n));
        for t in m.a.iter_mut() {
            if t.4 == x {
                t.4 = y;
            }
        }
    }
    for _ in 0..*[0, 0, 0, 1, 1, 2].choose(r).unwrap() {
        mutate(r, &mut m, g.labels);
    }
    if r.gen_bool(0.7) {
        permute(r, &mut m);
    }
    let mut b = make(&m);
    let mut a = a;
    if r.gen_bool(0.15) {
        connect(&mut a).unwrap();
        connect(&mut b).unwrap();
    }
    maybe_props(r, &mut a);
    if r.gen_bool(0.3) {
        let _ = b.compute_and_update_properties_all();
        let mut t = SymbolTable::new();
        t.add_symbol("a");
        b.set_input_symbols(arc(t));
    }
    let mut st = Store::new(log, vec![a, b]);
    for (x, y) in [(0usize, 1usize), (1, 0)] {
        let (d, tol) = if W::NAME == "trop" { *[(None, 0), (None, 0), (Some(0.5f32), 32), (Some(1.0), 64), (Some(0.0), 0)].choose(r).unwrap() } else { (None, 0) };
        st.query(log, "isomorphic", &[x, y], if d.is_some() { "cfg" } else { "default" }, &format!("\"tol\":{}", tol), |f| {
            Ok(format!("{}", match d {
                None => isomorphic(&f[x], &f[y])?,
                Some(d) => isomorphic_with_config(&f[x], &f[y], IsomorphicConfig::new(d))?,
            }))
        });
        st.query(log, "equal", &[x, y], "vec", "", |f| Ok(format!("{}", f[x] == f[y])));
        st.query(log, "equal", &[x, y], "const", "", |f| Ok(format!("{}", ConstFst::<W>::from(f[x].clone()) == ConstFst::<W>::from(f[y].clone()))));
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
