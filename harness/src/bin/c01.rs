//! Composition, all filters, static and lazy, VectorFst and ConstFst operands.
use rand::Rng as _;
use rustfst::algorithms::compose::compose_filters::*;
use rustfst::algorithms::compose::matchers::SortedMatcher;
use rustfst::algorithms::compose::*;
use rustfst::prelude::*;
use std::sync::Arc;
use vharness::*;

type V<W> = VectorFst<W>;
const FILTERS: [(&str, ComposeFilterEnum); 7] = [
    ("auto", ComposeFilterEnum::AutoFilter),
    ("sequence", ComposeFilterEnum::SequenceFilter),
    ("altsequence", ComposeFilterEnum::AltSequenceFilter),
    ("match", ComposeFilterEnum::MatchFilter),
    ("null", ComposeFilterEnum::NullFilter),
    ("trivial", ComposeFilterEnum::TrivialFilter),
    ("nomatch", ComposeFilterEnum::NoMatchFilter),
];

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let mut g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g1.max_states = g1.max_states.min(4);
    g2.max_states = g2.max_states.min(4);
    g2.labels = g1.labels;
    let l = pick_l(g1.labels);
    let mut a: V<W> = gen_fst(r, &g1);
    let mut b: V<W> = gen_fst(r, &g2);
    match r.gen_range(0..8) {
        0..=2 => tr_sort(&mut a, OLabelCompare {}),
        3..=4 => tr_sort(&mut b, ILabelCompare {}),
        5..=6 => {
            tr_sort(&mut a, OLabelCompare {});
            tr_sort(&mut b, ILabelCompare {});
        }
        _ => {}
    }
    maybe_props(r, &mut a);
    maybe_props(r, &mut b);
    let mut st = Store::new(log, vec![a, b]);
    for _ in 0..r.gen_range(2..=4) {
        one(log, r, &mut st, &g2, l);
        st.regs.truncate(2);
    }
}
fn one<W: Sr>(log: &mut Log, r: &mut Rng, st: &mut Store<W>, g2: &Gen, l: usize) {
    let (fname, filt) = FILTERS[if r.gen_bool(0.5) { 0 } else { r.gen_range(0..7) }];
    let connect = r.gen_bool(0.7);
    let mode = r.gen_range(0..9);
    let args = |c: bool| format!("\"L\":{},\"flt\":\"{}\",\"conn\":{}", l, fname, c);
    let mk = || {
        let mut c = ComposeConfig::default();
        c.compose_filter = filt;
        c.connect = connect;
        c
    };
    match mode {
        0..=3 => {
            st.apply(log, "compose", &[0, 1], 2, "vec", &args(connect), |x| {
                if fname == "auto" && connect {
                    compose::<W, V<W>, V<W>, V<W>, _, _>(x[0].clone(), x[1].clone())
                } else {
                    compose_with_config::<W, V<W>, V<W>, _, _, V<W>>(&x[0], &x[1], mk())
                }
            });
        }
        4 => {
            st.apply(log, "compose", &[0, 1], 2, "const", &args(connect), |x| {
                let c0: ConstFst<W> = x[0].clone().into();
                let c1: ConstFst<W> = x[1].clone().into();
                compose_with_config::<W, ConstFst<W>, ConstFst<W>, _, _, V<W>>(&c0, &c1, mk())
            });
        }
        5..=7 => {
            // lazy, read through the cache and materialised by the client
            macro_rules! lazy {
                ($B:ident) => {
                    st.apply(log, "compose", &[0, 1], 2, "lazy", &args(false), |x| {
                        let f0: Arc<V<W>> = Arc::new(x[0].clone());
                        let f1: Arc<V<W>> = Arc::new(x[1].clone());
                        let c = ComposeFst::<
                            W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>,
                            SortedMatcher<W, V<W>, Arc<V<W>>>, SortedMatcher<W, V<W>, Arc<V<W>>>,
                            $B<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, SortedMatcher<W, V<W>, Arc<V<W>>>, SortedMatcher<W, V<W>, Arc<V<W>>>>,
                        >::new(f0, f1)?;
                        c.compute()
                    })
                };
            }
            match fname {
                "sequence" => lazy!(SequenceComposeFilterBuilder),
                "altsequence" => lazy!(AltSequenceComposeFilterBuilder),
                "match" => lazy!(MatchComposeFilterBuilder),
                "null" => lazy!(NullComposeFilterBuilder),
                "trivial" => lazy!(TrivialComposeFilterBuilder),
                "nomatch" => lazy!(NoMatchComposeFilterBuilder),
                _ => st.apply(log, "compose", &[0, 1], 2, "lazy", &args(false), |x| {
                    ComposeFst::<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>,
                        SortedMatcher<W, V<W>, Arc<V<W>>>, SortedMatcher<W, V<W>, Arc<V<W>>>,
                        SequenceComposeFilterBuilder<W, V<W>, V<W>, Arc<V<W>>, Arc<V<W>>, SortedMatcher<W, V<W>, Arc<V<W>>>, SortedMatcher<W, V<W>, Arc<V<W>>>>,
                    >::new_auto(Arc::new(x[0].clone()), Arc::new(x[1].clone()))?.compute()
                }),
            };
        }
        _ => {
            // composition of a composition: (A o B) o C  with C sorted
            let mut c: V<W> = gen_fst(r, g2);
            tr_sort(&mut c, ILabelCompare {});
            let ci = st.add(log, c);
            if st.apply(log, "compose", &[0, 1], 3, "vec", &args(connect), |x| {
                compose_with_config::<W, V<W>, V<W>, _, _, V<W>>(&x[0], &x[1], mk())
            }) && st.regs[3].num_states() <= 24
            {
                let args = format!("\"L\":{},\"flt\":\"auto\",\"conn\":true", l.min(3));
                st.apply(log, "compose", &[3, ci], 4, "vec", &args, |x| {
                    compose::<W, V<W>, V<W>, V<W>, _, _>(x[3].clone(), x[ci].clone())
                });
            }
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 => go::<TropicalWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        2 => go::<LogWeight>(log, r),
        _ => go::<IntegerWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
