//! Drawings: the DOT file shows the states, transitions, labels and weights of the machine.
use rand::Rng as _;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use rustfst::semirings::SerializableSemiring;
use rustfst::DrawingConfig;
use std::sync::Arc;
use vharness::*;
fn table(p: &str, n: usize) -> Arc<SymbolTable> {
    let mut t = SymbolTable::new();
    for i in 1..=n {
        t.add_symbol(format!("{}{}", p, i));
    }
    Arc::new(t)
}
fn go<W: Sr + SerializableSemiring>(log: &mut Log, r: &mut Rng) {
    let g = Gen::random(r);
    let f: VectorFst<W> = gen_fst(r, &g);
    let mut st = Store::new(log, vec![f]);
    for _ in 0..2 {
        // 0: no table, otherwise a table with that many symbols
        let (it, ot) = (sz(r), sz(r));
        let cfg = DrawingConfig {
            vertical: r.gen(),
            size: if r.gen() { Some((8.5, 11.0)) } else { None },
            title: if r.gen() { "title".into() } else { "".into() },
            portrait: r.gen(),
            ranksep: if r.gen() { Some(0.5) } else { None },
            nodesep: if r.gen() { Some(0.25) } else { None },
            fontsize: r.gen_range(8..20),
            acceptor: r.gen(),
            show_weight_one: r.gen(),
            print_weight: r.gen_bool(0.8),
        };
        let c = r.gen_bool(0.3);
        let args = format!("\"it\":{},\"ot\":{},\"acc\":{},\"sone\":{},\"pw\":{},\"lay\":[{},{},{:?},{:?},{:?},{:?},{:?}]", it, ot, cfg.acceptor, cfg.show_weight_one, cfg.print_weight,
            cfg.vertical, cfg.portrait, cfg.title, if cfg.size.is_some() { "8.5,11" } else { "" }, if cfg.ranksep.is_some() { "0.5" } else { "" }, if cfg.nodesep.is_some() { "0.25" } else { "" }, cfg.fontsize.to_string());
        let path = std::env::temp_dir().join(format!("vharness-{}.dot", std::process::id()));
        st.query(log, "draw", &[0], if c { "const" } else { "vec" }, &args, |v| {
            let mut x = v[0].clone();
            if it > 0 {
                x.set_input_symbols(table("a", it));
            }
            if ot > 0 {
                x.set_output_symbols(table("b", ot));
            }
            let _ = std::fs::remove_file(&path);
            let res = if c { ConstFst::<W>::from(x).draw(&path, &cfg) } else { x.draw(&path, &cfg) };
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let _ = std::fs::remove_file(&path);
            res?;
            Ok(dot::picture(&text, |s| W::parse_text(s).map(|w| w.1.enc()).unwrap_or(-99)))
        });
    }
}
fn sz(r: &mut Rng) -> usize {
    match r.gen_range(0..10) {
        0..=3 => 0,
        4 => 1,
        _ => 9,
    }
}
fn run(log: &mut Log, r: &mut Rng, _c: u64, _o: &Opts) {
    match r.gen_range(0..4) {
        0 => go::<LogWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        _ => go::<TropicalWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
