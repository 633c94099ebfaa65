//! Relation morphisms: invert, project, reverse, relabel, tr_map, weight_convert, fst_convert.
use rand::Rng as _;
use rustfst::algorithms::*;
use rustfst::prelude::*;
use vharness::*;
type V<W> = VectorFst<W>;

struct Custom {
    require: bool,
    lab: Label,
}
impl<W: Sr> TrMapper<W> for Custom {
    fn tr_map(&self, _tr: &mut Tr<W>) -> anyhow::Result<()> {
        Ok(())
    }
    fn final_tr_map(&self, f: &mut FinalTr<W>) -> anyhow::Result<()> {
        if self.require || !f.weight.is_one() {
            f.ilabel = self.lab;
            f.olabel = self.lab;
        }
        Ok(())
    }
    fn final_action(&self) -> MapFinalAction {
        if self.require {
            MapFinalAction::MapRequireSuperfinal
        } else {
            MapFinalAction::MapAllowSuperfinal
        }
    }
    fn properties(&self, _p: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}
use rustfst::fst_properties::FstProperties;
struct CustomConv(Custom);
impl<W: Sr> WeightConverter<W, W> for CustomConv {
    fn tr_map(&mut self, tr: &Tr<W>) -> anyhow::Result<Tr<W>> {
        Ok(tr.clone())
    }
    fn final_tr_map(&mut self, f: &FinalTr<W>) -> anyhow::Result<FinalTr<W>> {
        let mut g = f.clone();
        self.0.final_tr_map(&mut g)?;
        Ok(g)
    }
    fn final_action(&self) -> MapFinalAction {
        TrMapper::<W>::final_action(&self.0)
    }
    fn properties(&self, _p: FstProperties) -> FstProperties {
        FstProperties::empty()
    }
}

fn pairs(r: &mut Rng, labels: usize) -> Vec<(Label, Label)> {
    let n = r.gen_range(0..=3);
    (0..n).map(|_| (r.gen_range(0..=labels) as Label, r.gen_range(0..=labels + 1) as Label)).collect()
}
fn js(p: &[(Label, Label)]) -> String {
    format!("[{}]", p.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","))
}

fn go<W: Sr>(log: &mut Log, r: &mut Rng, rev: fn(&V<W>) -> anyhow::Result<V<W>>, extra: fn(&V<W>, &str) -> anyhow::Result<V<W>>) {
    let g = Gen::random(r);
    let l = pick_l(g.labels);
    let mut f: V<W> = gen_fst(r, &g);
    maybe_props(r, &mut f);
    let mut st = Store::new(log, vec![f]);
    for _ in 0..r.gen_range(1..=3) {
        let x = st.regs[0].clone();
        let la = format!("\"L\":{}", l);
        let ok = match r.gen_range(0..8) {
            0 => st.apply(log, "invert", &[0], 0, "s", "", |_| {
                let mut x = x;
                invert(&mut x);
                Ok(x)
            }),
            1 => {
                let side = r.gen_bool(0.5);
                st.apply(log, "project", &[0], 0, "s", if side { "\"side\":\"in\"" } else { "\"side\":\"out\"" }, |_| {
                    let mut x = x;
                    project(&mut x, if side { ProjectType::ProjectInput } else { ProjectType::ProjectOutput });
                    Ok(x)
                })
            }
            2 | 3 => st.apply(log, "reverse", &[0], 0, "s", &la, |_| rev(&x)),
            4 if r.gen_bool(0.3) => {
                // through symbol tables: old table spells label i, new table permutes the spelling
                let (ip, op) = (perm(r, 9), perm(r, 9));
                st.apply(log, "relabel", &[0], 0, "s", &format!("\"ip\":{},\"op2\":{}", js(&ip), js(&op)), |_| {
                    let mut x = x;
                    let (oi, oo) = (spell(&ip, true), spell(&op, true));
                    if ip.len() % 2 == op.len() % 2 && ip[0].1 % 2 == 0 {
                        x.set_input_symbols(oi);
                        x.set_output_symbols(oo);
                        x.relabel_tables(None, &spell(&ip, false), true, None, &spell(&op, false), false)?;
                        x.take_input_symbols();
                    } else {
                        x.relabel_tables(Some(&oi), &spell(&ip, false), false, Some(&oo), &spell(&op, false), false)?;
                    }
                    Ok(x)
                })
            }
            4 => {
                let (ip, op) = (pairs(r, g.labels), pairs(r, g.labels));
                st.apply(log, "relabel", &[0], 0, "s", &format!("\"ip\":{},\"op2\":{}", js(&ip), js(&op)), |_| {
                    let mut x = x;
                    relabel_pairs(&mut x, ip.clone(), op.clone())?;
                    Ok(x)
                })
            }
            5 => {
                let w = W::rnd(r);
                let lab = r.gen_range(1..=3) as Label;
                let m = ["identity", "ieps", "oeps", "rmweight", "times", "plus", "allow", "require", "quantize", "invertw"][r.gen_range(0..10)];
                if m == "invertw" && W::NAME != "trop" || m == "quantize" && W::NAME == "int" || (m == "quantize" || m == "invertw") && W::NAME == "bool" {
                    continue;
                }
                st.apply(log, "tr_map", &[0], 0, "s", &format!("\"m\":\"{}\",\"w\":{},\"lab\":{}", m, w.enc(), lab), |_| {
                    let mut x = x;
                    match m {
                        "identity" => tr_map(&mut x, &IdentityTrMapper {})?,
                        "ieps" => tr_map(&mut x, &InputEpsilonMapper {})?,
                        "oeps" => tr_map(&mut x, &OutputEpsilonMapper {})?,
                        "rmweight" => tr_map(&mut x, &RmWeightMapper {})?,
                        "times" => tr_map(&mut x, &TimesMapper::from_weight(w))?,
                        "plus" => tr_map(&mut x, &PlusMapper::from_weight(w))?,
                        "quantize" | "invertw" => return extra(&x, m),
                        _ => tr_map(&mut x, &Custom { require: m == "require", lab })?,
                    }
                    Ok(x)
                })
            }
            6 => {
                let lab = r.gen_range(1..=3) as Label;
                let w = W::rnd(r);
                let m = ["identity", "ieps", "oeps", "rmweight", "times", "plus", "allow", "require"][r.gen_range(0..8)];
                st.apply(log, "wconvert", &[0], 0, "s", &format!("\"m\":\"{}\",\"w\":{},\"lab\":{}", m, w.enc(), lab), |_| match m {
                    "identity" => weight_convert(&x, &mut IdentityTrMapper {}),
                    "ieps" => weight_convert(&x, &mut InputEpsilonMapper {}),
                    "oeps" => weight_convert(&x, &mut OutputEpsilonMapper {}),
                    "rmweight" => weight_convert(&x, &mut RmWeightMapper {}),
                    "times" => weight_convert(&x, &mut TimesMapper::from_weight(w)),
                    "plus" => weight_convert(&x, &mut PlusMapper::from_weight(w)),
                    _ => weight_convert(&x, &mut CustomConv(Custom { require: m == "require", lab })),
                })
            }
            _ => {
                let k = r.gen_range(0..4);
                st.apply(log, "convert", &[0], 0, "s", &format!("\"kind\":{}", k), |_| {
                    let c: ConstFst<W> = x.clone().into();
                    match k {
                        0 => Ok(fst_convert_from_ref::<W, ConstFst<W>, V<W>>(&c)),
                        1 => Ok(fst_convert::<W, ConstFst<W>, V<W>>(c)),
                        2 => Ok(fst_convert_from_ref::<W, V<W>, V<W>>(&x)),
                        _ => Ok(fst_convert::<W, V<W>, V<W>>(x)),
                    }
                })
            }
        };
        if !ok {
            break;
        }
    }
}
fn ex<W: Sr + WeaklyDivisibleSemiring + WeightQuantize>(x: &V<W>, m: &str) -> anyhow::Result<V<W>> {
    let mut x = x.clone();
    if m == "quantize" {
        tr_map(&mut x, &QuantizeMapper::default())?;
    } else {
        tr_map(&mut x, &InvertWeightMapper {})?;
    }
    Ok(x)
}
fn noex<W: Sr>(_x: &V<W>, _m: &str) -> anyhow::Result<V<W>> {
    unreachable!()
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 => go::<TropicalWeight>(log, r, |x| reverse(x), ex),
        1 => go::<IntegerWeight>(log, r, |x| reverse(x), noex),
        2 => go::<LogWeight>(log, r, |x| reverse(x), ex),
        _ => go::<BooleanWeight>(log, r, |x| reverse(x), noex),
    }
}
fn perm(r: &mut Rng, n: u32) -> Vec<(Label, Label)> {
    let mut v: Vec<Label> = (1..=n).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.gen_range(0..=i));
    }
    (1..=n).zip(v).collect()
}
/// Table of a permutation: symbol "i" carries label i (old) or its image (new).
fn spell(p: &[(Label, Label)], old: bool) -> std::sync::Arc<SymbolTable> {
    let mut t = SymbolTable::new();
    for l in 1..=p.len() as Label {
        let s = if old { l } else { p.iter().find(|x| x.1 == l).unwrap().0 };
        t.add_symbol(format!("x{}", s));
    }
    std::sync::Arc::new(t)
}
fn main() {
    drive(run)
}
