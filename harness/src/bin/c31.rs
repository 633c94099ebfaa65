//! Symbol tables attached to operands and results.
use rand::Rng as _;
use rustfst::algorithms::closure::*;
use rustfst::algorithms::compose::*;
use rustfst::algorithms::concat::*;
use rustfst::algorithms::determinize::*;
use rustfst::algorithms::encode::*;
use rustfst::algorithms::lazy::*;
use rustfst::algorithms::randgen::randgen;
use rustfst::algorithms::replace::*;
use rustfst::algorithms::rm_epsilon::*;
use rustfst::algorithms::tr_mappers::*;
use rustfst::algorithms::union::*;
use rustfst::algorithms::*;
use rustfst::fst_impls::ConstFst;
use rustfst::fst_traits::SerializableFst;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::*;
type W = TropicalWeight;
type V = VectorFst<W>;
type C = ConstFst<W>;

/// Table k: the same symbols for every label used, told apart by one extra symbol.
fn table(k: usize) -> Arc<SymbolTable> {
    let mut t = SymbolTable::new();
    for i in 1..12 {
        t.add_symbol(format!("s{}", i));
    }
    t.add_symbol(format!("table{}", k));
    Arc::new(t)
}
fn code(t: Option<&Arc<SymbolTable>>) -> i64 {
    match t {
        None => 0,
        Some(t) => (1..=6).find(|&k| *table(k) == **t).map(|k| k as i64).unwrap_or(-1),
    }
}
fn codes<F: Fst<W>>(f: &F) -> String {
    format!("[{},{}]", code(f.input_symbols()), code(f.output_symbols()))
}
fn attach(f: &mut V, i: usize, o: usize) {
    if i > 0 {
        f.set_input_symbols(table(i));
    }
    if o > 0 {
        f.set_output_symbols(table(o));
    }
}
fn run(log: &mut Log, r: &mut Rng, _c: u64, _o: &Opts) {
    let mut g = Gen::random(r);
    g.max_states = g.max_states.min(4);
    g.labels = 2;
    g.acyclic = true;
    g.acceptor = r.gen_bool(0.5);
    let mut a: V = gen_fst(r, &g);
    let mut b: V = gen_fst(r, &g);
    tr_sort(&mut a, OLabelCompare {});
    tr_sort(&mut b, ILabelCompare {});
    let t: Vec<usize> = (0..4).map(|k| if r.gen_bool(0.8) { k + 1 } else { 0 }).collect();
    attach(&mut a, t[0], t[1]);
    attach(&mut b, t[2], t[3]);
    for _ in 0..6 {
        let (op, fam): (&str, &str) = OPS[r.gen_range(0..OPS.len())];
        let (old, at): ([usize; 2], [bool; 2]) = (std::array::from_fn(|_| r.gen_range(0..2) * r.gen_range(1..5)), std::array::from_fn(|_| r.gen_bool(0.5)));
        let args = format!("\"f\":\"{}\",\"fam\":\"{}\",\"t\":[[{},{}],[{},{}]],\"old\":[{},{}],\"at\":[{},{}]", op, fam, t[0], t[1], t[2], t[3], old[0], old[1], at[0] as u8, at[1] as u8);
        let h = hdr("tape", "trop", &[], -1, "s", &args);
        log.call(&h, || go(op, &a, &b, &old, &at), |s: &String| Out::Val(s.clone()));
    }
}
const OPS: &[(&str, &str)] = &[
    ("clone", "same"), ("connect", "same"), ("rm_epsilon", "same"), ("tr_sort", "same"), ("top_sort", "same"), ("tr_sum", "same"),
    ("tr_unique", "same"), ("push_weights", "same"), ("push", "same"), ("minimize", "same"), ("optimize", "same"), ("closure", "same"), ("rm_final_epsilon", "same"),
    ("super_final", "same"), ("state_sort", "same"), ("tr_map", "same"), ("encdec", "same"), ("del_states", "same"), ("clear", "same"),
    ("relabel_pairs", "same"), ("reverse", "same"), ("determinize", "same"), ("shortest_path", "same"), ("n_best", "same"), ("weight_convert", "same"), ("fst_convert", "same"), ("fst_convert_ref", "same"),
    ("const", "same"), ("const_back", "same"), ("binary", "same"), ("const_binary", "same"), ("randgen", "same"), ("lazy_rmeps", "same"), ("lazy_closure", "same"),
    ("closure_compute", "same"), ("rmeps_compute", "same"),
    ("union", "first"), ("concat", "first"), ("lazy_union", "first"), ("lazy_concat", "first"), ("union_compute", "first"), ("concat_compute", "first"),
    ("replace", "first"), ("replace_lazy", "first"),
    ("compose", "outer"), ("compose_cfg", "outer"), ("lazy_compose", "outer"), ("compose_compute", "outer"),
    ("invert", "swap"), ("project_in", "in"), ("project_out", "out"),
    ("relabel_tables", "new"), ("relabel_tables", "new"), ("relabel_tables", "new"),
];
fn go(op: &str, a: &V, b: &V, old: &[usize; 2], at: &[bool; 2]) -> anyhow::Result<String> {
    let mut x = a.clone();
    let cl = |x: &V| -> Vec<StateId> { (0..x.num_states() as StateId).collect() };
    match op {
        "clone" => (),
        "connect" => connect(&mut x)?,
        "rm_epsilon" => rm_epsilon(&mut x)?,
        "tr_sort" => tr_sort(&mut x, ILabelCompare {}),
        "top_sort" => top_sort(&mut x)?,
        "tr_sum" => tr_sum(&mut x),
        "tr_unique" => tr_unique(&mut x),
        "push_weights" => push_weights(&mut x, ReweightType::ReweightToInitial)?,
        "push" => x = push(&x, ReweightType::ReweightToInitial, PushType::PUSH_WEIGHTS | PushType::PUSH_LABELS)?,
        "minimize" => minimize_with_config(&mut x, MinimizeConfig::new(1e-6, true))?,
        "optimize" => optimize(&mut x)?,
        "closure" => closure(&mut x, ClosureType::ClosureStar),
        "rm_final_epsilon" => rm_final_epsilon(&mut x)?,
        "super_final" => drop(add_super_final_state(&mut x)),
        "state_sort" => {
            let o = cl(&x);
            state_sort(&mut x, &o)?
        }
        "tr_map" => tr_map(&mut x, &mut InvertWeightMapper {})?,
        "encdec" => {
            let t = encode(&mut x, EncodeType::EncodeLabels)?;
            decode(&mut x, t)?
        }
        "del_states" => {
            let o = cl(&x);
            x.del_states(o.into_iter().take(1))?
        }
        "clear" => x.del_all_states(),
        "relabel_pairs" => relabel_pairs(&mut x, vec![(1, 2)], vec![(2, 1)])?,
        "reverse" => return Ok(codes::<VectorFst<<W as Semiring>::ReverseWeight>>(&reverse(&x)?)),
        "determinize" => x = determinize_with_config(&x, DeterminizeConfig::default().with_det_type(DeterminizeType::DeterminizeNonFunctional))?,
        "shortest_path" => x = shortest_path(&x)?,
        "n_best" => x = shortest_path_with_config(&x, ShortestPathConfig::default().with_nshortest(2))?,
        "weight_convert" => x = weight_convert(&x, &mut IdentityTrMapper {})?,
        "fst_convert" => x = fst_convert::<W, V, V>(x),
        "fst_convert_ref" => x = fst_convert_from_ref::<W, V, V>(&x),
        "const" => return Ok(codes(&C::from(x))),
        "const_back" => {
            let c = C::from(x);
            x = fst_convert_from_ref::<W, C, V>(&c)
        }
        "binary" => {
            let mut buf = vec![];
            x.store(&mut buf)?;
            x = V::load(&buf)?
        }
        "const_binary" => {
            let mut buf = vec![];
            C::from(x).store(&mut buf)?;
            return Ok(codes(&C::load(&buf)?));
        }
        "randgen" => x = randgen(&x)?,
        "lazy_rmeps" => return Ok(codes(&RmEpsilonFst::<_, V, _>::new(x)?)),
        "rmeps_compute" => x = RmEpsilonFst::<_, V, _>::new(x)?.compute()?,
        "lazy_closure" => return Ok(codes(&ClosureFst::<_, V>::new(x, ClosureType::ClosurePlus)?)),
        "closure_compute" => x = ClosureFst::<_, V>::new(x, ClosureType::ClosurePlus)?.compute()?,
        "union" => union(&mut x, b)?,
        "concat" => concat(&mut x, b)?,
        "lazy_union" => return Ok(codes(&UnionFst::<_, V>::new(x, b.clone())?)),
        "union_compute" => x = UnionFst::<_, V>::new(x, b.clone())?.compute()?,
        "lazy_concat" => return Ok(codes(&ConcatFst::<_, V>::new(x, b.clone())?)),
        "concat_compute" => x = ConcatFst::<_, V>::new(x, b.clone())?.compute()?,
        "replace" => x = replace::<W, V, V, V>(vec![(40, x), (41, b.clone())], 40, false)?,
        "replace_lazy" => return Ok(codes(&ReplaceFst::<_, V, V>::new(vec![(40, x), (41, b.clone())], 40, false)?)),
        "compose" => x = compose::compose::<W, V, V, V, _, _>(x, b.clone())?,
        "compose_cfg" => x = compose_with_config::<W, V, V, _, _, V>(x, b.clone(), ComposeConfig { compose_filter: ComposeFilterEnum::SequenceFilter, ..Default::default() })?,
        "lazy_compose" => return Ok(codes(&lazyc(x, b.clone())?)),
        "compose_compute" => x = lazyc(x, b.clone())?.compute()?,
        "invert" => invert(&mut x),
        "project_in" => project(&mut x, ProjectType::ProjectInput),
        "project_out" => project(&mut x, ProjectType::ProjectOutput),
        "relabel_tables" => {
            let (n, m) = (table(5), table(6));
            let (p, q) = (table(old[0]), table(old[1]));
            x.relabel_tables(Some(&p).filter(|_| old[0] > 0), &n, at[0], Some(&q).filter(|_| old[1] > 0), &m, at[1])?
        }
        _ => unreachable!(),
    };
    Ok(codes(&x))
}
fn lazyc(a: V, b: V) -> anyhow::Result<ComposeFst<W, V, V, Arc<V>, Arc<V>, matchers::SortedMatcher<W, V, Arc<V>>, matchers::SortedMatcher<W, V, Arc<V>>, compose_filters::SequenceComposeFilterBuilder<W, V, V, Arc<V>, Arc<V>, matchers::SortedMatcher<W, V, Arc<V>>, matchers::SortedMatcher<W, V, Arc<V>>>, SimpleHashMapCache<W>>> {
    ComposeFst::new(Arc::new(a), Arc::new(b))
}
fn main() {
    drive(run)
}
