use rand::Rng as _;
use rustfst::algorithms::closure::{closure, ClosureFst, ClosureType};
use rustfst::algorithms::concat::{concat, ConcatFst};
use rustfst::algorithms::union::{union, UnionFst};
use rustfst::prelude::*;
use vharness::*;

fn go<W: Sr>(log: &mut Log, r: &mut Rng) {
    let g1 = Gen::random(r);
    let mut g2 = Gen::random(r);
    g2.labels = g1.labels;
    let l = pick_l(g1.labels);
    let mut regs: Vec<VectorFst<W>> = vec![gen_fst(r, &g1), gen_fst(r, &g2)];
    for i in 0..2 {
        if r.gen_bool(0.3) {
            let _ = regs[i].compute_and_update_properties_all();
        }
        log.new_reg(i, &regs[i]);
    }
    for _ in 0..r.gen_range(1..=2) {
        let a = r.gen_range(0..2);
        let b = r.gen_range(0..2);
        let args = format!("\"L\":{}", l);
        let lazy = r.gen_bool(0.4);
        let x = regs[a].clone();
        let y = regs[b].clone();
        let res: Option<VectorFst<W>> = match r.gen_range(0..3) {
            0 => {
                let h = hdr("union", W::NAME, &[a, b], a as i64, if lazy { "lazy" } else { "static" }, &args);
                log.call(&h, || if lazy { UnionFst::new(x, y)?.compute() } else { let mut x = x; union(&mut x, &y)?; Ok(x) }, fst_out)
            }
            1 => {
                let h = hdr("concat", W::NAME, &[a, b], a as i64, if lazy { "lazy" } else { "static" }, &args);
                log.call(&h, || if lazy { ConcatFst::new(x, y)?.compute() } else { let mut x = x; concat(&mut x, &y)?; Ok(x) }, fst_out)
            }
            _ => {
                let star = r.gen_bool(0.5);
                let t = if star { ClosureType::ClosureStar } else { ClosureType::ClosurePlus };
                let args = format!("{},\"kind\":\"{}\"", args, if star { "star" } else { "plus" });
                let h = hdr("closure", W::NAME, &[a], a as i64, if lazy { "lazy" } else { "static" }, &args);
                log.call(&h, || if lazy { ClosureFst::new(x, t)?.compute() } else { let mut x = x; closure(&mut x, t); Ok(x) }, fst_out)
            }
        };
        if let Some(f) = res {
            log.set_last(a, proj(&f));
            regs[a] = f;
        } else {
            break;
        }
        if regs[a].num_states() > 25 {
            break;
        }
        for i in 0..2 {
            let f = regs[i].clone();
            log.observe(i, &f);
        }
    }
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    match c % 4 {
        0 => go::<TropicalWeight>(log, r),
        1 => go::<IntegerWeight>(log, r),
        2 => go::<LogWeight>(log, r),
        _ => go::<BooleanWeight>(log, r),
    }
}
fn main() {
    drive(run)
}
