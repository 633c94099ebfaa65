//! Histories of work queues of every discipline.
use rand::seq::SliceRandom;
use rand::Rng as _;
use rustfst::algorithms::queues::*;
use rustfst::algorithms::tr_filters::*;
use rustfst::algorithms::Queue;
use rustfst::prelude::*;
use vharness::*;
type W = TropicalWeight;

/// `once`: a state already waiting is updated instead of enqueued again (what the library does).
fn session(q: &mut dyn Queue, r: &mut Rng, n: usize, once: bool, drain: bool) -> String {
    let mut v = vec![];
    let mut inq = vec![0usize; n];
    let o = |x: Option<StateId>| x.map(|x| x as i64).unwrap_or(-1);
    let len = r.gen_range(1..=16);
    let penq = *[0.35, 0.5, 0.65].choose(r).unwrap();
    for _ in 0..len {
        if r.gen_bool(penq) {
            let s = r.gen_range(0..n);
            if once && inq[s] > 0 {
                q.update(s as StateId);
                v.push(format!("[\"upd\",{},0]", s));
            } else {
                q.enqueue(s as StateId);
                inq[s] += 1;
                v.push(format!("[\"enq\",{},0]", s));
            }
        } else {
            match r.gen_range(0..12) {
                0..=5 => {
                    let x = q.dequeue();
                    if let Some(x) = x {
                        if (x as usize) < n {
                            inq[x as usize] = inq[x as usize].saturating_sub(1);
                        }
                    }
                    v.push(format!("[\"deq\",0,{}]", o(x)));
                }
                6 | 7 => v.push(format!("[\"hd\",0,{}]", o(q.head()))),
                8 | 9 => v.push(format!("[\"emp\",0,{}]", q.is_empty() as u8)),
                10 => {
                    q.clear();
                    inq = vec![0; n];
                    v.push("[\"clr\",0,0]".into());
                }
                _ => {
                    let s = r.gen_range(0..n);
                    if inq[s] > 0 {
                        q.update(s as StateId);
                        v.push(format!("[\"upd\",{},0]", s));
                    }
                }
            }
        }
    }
    if drain {
        for _ in 0..24 {
            let e = q.is_empty();
            v.push(format!("[\"emp\",0,{}]", e as u8));
            let x = q.dequeue();
            v.push(format!("[\"deq\",0,{}]", o(x)));
            if x.is_none() && e {
                break;
            }
        }
    }
    format!("[{}]", v.join(","))
}
fn ints<T: std::fmt::Display>(v: &[T]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn run(log: &mut Log, r: &mut Rng, c: u64, _o: &Opts) {
    let n = r.gen_range(1..=6usize);
    let drain = r.gen_bool(0.6);
    let once = r.gen_bool(0.5);
    let wv: Vec<u32> = (0..n).map(|_| r.gen_range(0..5)).collect();
    let ws: Vec<W> = wv.iter().map(|x| W::new(*x as f32)).collect();
    let mut key: Vec<StateId> = (0..n as StateId).collect();
    key.shuffle(r);
    let mut sub = vec![];
    let mut fsts = vec![];
    let mut once = once;
    let (kind, q): (&str, Box<dyn FnOnce(&VectorFst<W>) -> anyhow::Result<Box<dyn Queue>>>) = match c % 10 {
        0 => ("fifo", Box::new(|_| Ok(Box::<FifoQueue>::default()))),
        1 => ("lifo", Box::new(|_| Ok(Box::<LifoQueue>::default()))),
        2 => ("state", Box::new(|_| Ok(Box::<StateOrderQueue>::default()))),
        3 => {
            let k = key.clone();
            ("top", Box::new(|_| Ok(Box::new(TopOrderQueue::from_precomputed_order(k)))))
        }
        4 => {
            let w = ws.clone();
            ("sf", Box::new(|_| Ok(Box::new(NaturalShortestFirstQueue::new(w)))))
        }
        5 => ("trivial", Box::new(|_| Ok(Box::<TrivialQueue>::default()))),
        6 | 7 => {
            let nc = r.gen_range(1..=n);
            key = (0..n).map(|_| r.gen_range(0..nc) as StateId).collect();
            let mut qs: Vec<Box<dyn Queue>> = vec![];
            for k in 0..nc {
                let size = key.iter().filter(|x| **x as usize == k).count();
                match r.gen_range(0..5) {
                    0 if size <= 1 => {
                        sub.push("\"trivial\"");
                        qs.push(Box::<TrivialQueue>::default())
                    }
                    0 | 1 => {
                        sub.push("\"fifo\"");
                        qs.push(Box::<FifoQueue>::default())
                    }
                    2 => {
                        sub.push("\"lifo\"");
                        qs.push(Box::<LifoQueue>::default())
                    }
                    3 => {
                        sub.push("\"state\"");
                        qs.push(Box::<StateOrderQueue>::default())
                    }
                    _ => {
                        sub.push("\"sf\"");
                        qs.push(Box::new(NaturalShortestFirstQueue::new(ws.clone())))
                    }
                }
            }
            let k = key.clone();
            ("scc", Box::new(|_| Ok(Box::new(SccQueue::new(qs, k)))))
        }
        8 => {
            let mut g = Gen::random(r);
            g.acyclic = true;
            g.min_states = n;
            g.max_states = n;
            fsts.push(gen_fst::<W>(r, &g));
            ("topfst", Box::new(|f| Ok(Box::new(TopOrderQueue::new(f, &AnyTrFilter {})))))
        }
        _ => {
            let mut g = Gen::random(r);
            g.min_states = n;
            g.max_states = n;
            let mut f = gen_fst::<W>(r, &g);
            maybe_props(r, &mut f);
            fsts.push(f);
            once = true;
            let w = ws.clone();
            let m = r.gen_range(0..3);
            ("auto", Box::new(move |f| {
                Ok(match m {
                    0 => Box::new(AutoQueue::new(f, None, &AnyTrFilter {})?) as Box<dyn Queue>,
                    1 => Box::new(AutoQueue::new(f, Some(&w), &AnyTrFilter {})?),
                    _ => Box::new(AutoQueue::new(f, Some(&w), &EpsilonTrFilter {})?),
                })
            }))
        }
    };
    if !fsts.is_empty() && fsts[0].num_states() != n {
        return;
    }
    let mut st = Store::new(log, fsts);
    let ins: Vec<usize> = (0..st.regs.len()).collect();
    let args = format!("\"kind\":\"{}\",\"key\":{},\"w\":{},\"sub\":{}", kind, ints(&key), ints(&wv), ints(&sub));
    st.query(log, "queue", &ins, kind, &args, |fs| {
        let e = VectorFst::<W>::new();
        let mut q = q(fs.first().unwrap_or(&e))?;
        Ok(session(&mut *q, r, n, once, drain))
    });
}
fn main() {
    drive(run)
}
