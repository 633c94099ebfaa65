//! Recursive replacement of non-terminals.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::replace::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let k = r.gen_range(1..=4);
    // non-terminal labels: dense or with gaps
    let low = r.gen_bool(0.2);
    let mut nts: Vec<u32> = match r.gen_range(0..3) {
        // the non-terminals come before every terminal
        _ if low => (1..=k as u32).chain(21..=24).take(4).collect(),
        0 => vec![10, 11, 12, 13],
        1 => vec![3, 5, 9, 14],
        _ => vec![3, 4, 6, 7],
    };
    if low { nts[..k].shuffle(r) } else { nts.shuffle(r) }
    let mut fs: Vec<V<W>> = vec![];
    let mut unreachable_rec = vec![];
    for i in 0..k {
        let mut g = Gen::random(r);
        g.max_states = g.max_states.min(if i == 0 { 4 } else { 3 });
        g.min_states = g.min_states.min(g.max_states);
        g.max_arcs = g.max_arcs.min(3);
        g.labels = 2;
        if !W::cyc_ok() {
            g.acyclic = true;
        }
        g.pstart_none = 0.04;
        let mut f: V<W> = gen_fst(r, &g);
        if low {
            for q in 0..f.num_states() as StateId {
                let ts: Vec<Tr<W>> = f.get_trs(q).unwrap().trs().to_vec();
                let mut it = f.tr_iter_mut(q).unwrap();
                for (j, t) in ts.into_iter().enumerate() {
                    let up = |l: u32| if l == 0 { 0 } else { l + 4 };
                    it.set_tr(j, Tr::new(up(t.ilabel), up(t.olabel), t.weight, t.nextstate)).unwrap();
                }
            }
        }
        let calls = if i + 1 < k { r.gen_range(1..=2) } else { 0 };
        let mut ncall = 0;
        let mut qs: Vec<usize> = (0..f.num_states()).collect();
        qs.shuffle(r);
        for q in qs {
            let q = q as StateId;
            let n = f.num_trs(q).unwrap();
            if n > 0 && ncall < calls && r.gen_bool(0.7) {
                let j = r.gen_range(0..n);
                let t = f.get_trs(q).unwrap().trs()[j].clone();
                let nt = nts[r.gen_range(i + 1..k)];
                let il = if g.acceptor || r.gen_bool(0.3) { nt } else { t.ilabel };
                let mut it = f.tr_iter_mut(q).unwrap();
                it.set_tr(j, Tr::new(il, nt, t.weight.clone(), t.nextstate)).unwrap();
                ncall += 1;
            }
        }
        maybe_props(r, &mut f);
        if r.gen_bool(0.15) {
            if r.gen_bool(0.5) { tr_sort(&mut f, ILabelCompare {}) } else { tr_sort(&mut f, OLabelCompare {}) }
        }
        fs.push(f);
    }
    if r.gen_bool(0.05) && k < 4 {
        // recursive rule that the root never calls
        let mut f = V::<W>::new();
        f.add_states(2);
        f.set_start(0).unwrap();
        f.set_final(1, W::one()).unwrap();
        f.add_tr(0, Tr::new(1, nts[k], W::one(), 1)).unwrap();
        fs.push(f);
        unreachable_rec.push(k);
    }
    // rule order in the list
    let mut order: Vec<usize> = (0..fs.len()).collect();
    if r.gen_bool(0.4) {
        order.shuffle(r);
    }
    let root = if r.gen_bool(0.03) { 77 } else { nts[0] };
    let n = fs.len();
    let st_fs = fs;
    let mut st = Store::new(log, st_fs);
    let labs: Vec<u32> = order.iter().map(|i| nts[*i]).collect();
    for eps in [true, false] {
        let lazy = r.gen_bool(0.3);
        let lifo = r.gen_bool(0.5);
        let a = format!("\"L\":3,\"eps\":{},\"labs\":{:?},\"root\":{}", eps, labs, root);
        if lazy {
            st.apply_txt(log, "replace", &order, "l", &a, |x| {
                let list: Vec<(Label, std::sync::Arc<V<W>>)> = order.iter().map(|i| (nts[*i], arc(x[*i].clone()))).collect();
                let f = ReplaceFst::<W, V<W>, std::sync::Arc<V<W>>>::new(list, root, eps)?;
                proj_walk(&f, 3000, lifo)
            });
        } else {
            st.apply(log, "replace", &order, n, "s", &a, |x| {
                let list: Vec<(Label, V<W>)> = order.iter().map(|i| (nts[*i], x[*i].clone())).collect();
                replace::<W, V<W>, V<W>, _>(list, root, eps)
            });
            st.regs.truncate(n);
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 | 1 => go::<TropicalWeight>(log, r),
        2 => go::<IntegerWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
