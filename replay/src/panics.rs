//! Panics of wrapped iterators, of clones and of closures: the others go on, and nothing is dropped twice.
use crate::conc::{watchdog, BEAT, NOW};
use crate::*;
use std::sync::Mutex;

struct Plan {
    threads: usize,
    ops: Vec<usize>,
    size: usize,
    closure_panics_at: usize,
}
struct Run<'a> {
    p: &'a Plan,
    bad: &'a mut Vec<(&'static [u32], String)>,
    seq: bool,
}
fn seen<T: Elem>(x: &T, o: &Oracle, got: &Mutex<Vec<usize>>) {
    got.lock().unwrap_or_else(|e| e.into_inner()).push(x.pos(o));
}
fn one<I: ConcurrentIter>(it: &I, op: usize, p: &Plan, o: &Oracle, got: &Mutex<Vec<usize>>) -> bool
where
    I::Item: Elem,
{
    let end = match op {
        0 => it.next().map(|x| seen(&x, o, got)).is_none(),
        1 => it.next_chunk(p.size).map(|c| c.values.for_each(|x| seen(&x, o, got))).is_none(),
        2 => {
            let mut b = it.buffered_iter(p.size);
            let mut n = 0;
            while n < 2 && b.next().map(|c| c.values.for_each(|x| seen(&x, o, got))).is_some() {
                n += 1;
            }
            n == 0
        }
        3 => {
            it.for_each(p.size, |x| {
                seen(&x, o, got);
                if x.pos(o) == p.closure_panics_at {
                    panic!("planned panic of the closure")
                }
            });
            true
        }
        4 => {
            it.enumerate_for_each(p.size, |i, x| {
                seen(&x, o, got);
                if i == p.closure_panics_at {
                    panic!("planned panic of the closure")
                }
            });
            true
        }
        5 => {
            it.fold(p.size, 0, |n, x| {
                seen(&x, o, got);
                if x.pos(o) == p.closure_panics_at {
                    panic!("planned panic of the closure")
                }
                n + 1
            });
            true
        }
        _ => it.next_chunk(p.size).map(|mut c| drop(c.values.next().map(|x| seen(&x, o, got)))).is_none(),
    };
    BEAT.fetch_add(1, Ordering::Relaxed);
    end
}
impl Visitor for Run<'_> {
    fn visit<I: ConcurrentIter>(self, it: I, o: Oracle)
    where
        I::Item: Elem,
    {
        let got = Mutex::new(vec![]);
        let unplanned = Mutex::new(None);
        let (itr, gr, or, p, ur) = (&it, &got, &o, self.p, &unplanned);
        let work = |t: usize| {
            let mut i = 0;
            loop {
                match caught(|| one(itr, p.ops[(t + i) % p.ops.len()], p, or, gr)) {
                    Ok(true) => break,
                    Ok(false) => {}
                    Err(m) if m.starts_with("planned") => {}
                    Err(m) => {
                        *ur.lock().unwrap() = Some(m);
                        break;
                    }
                }
                BEAT.fetch_add(1, Ordering::Relaxed);
                i += 1;
                if i > 60 {
                    break;
                }
            }
        };
        let w = &work;
        std::thread::scope(|s| {
            for t in 0..p.threads {
                s.spawn(move || w(t));
            }
        });
        if let Some(m) = unplanned.lock().unwrap().take() {
            self.bad.push((&[18], format!("an unplanned panic: {m}")));
        }
        if self.seq {
            // the remainder
            let r = caught(|| {
                let seq = it.into_seq_iter();
                REMAINDER.store(true, Ordering::Relaxed);
                for x in seq {
                    seen(&x, &o, &got);
                }
            });
            if r.is_err() && !r.as_ref().unwrap_err().starts_with("planned") {
                self.bad.push((&[18], format!("an unplanned panic: {}", r.unwrap_err())));
            }
        } else if let Err(m) = caught(move || drop(it)) {
            self.bad.push((&[18], format!("the drop panics: {m}")));
        }
        let mut v = got.into_inner().unwrap_or_else(|e| e.into_inner());
        v.sort();
        if let Some(w) = v.windows(2).find(|w| w[0] == w[1]) {
            self.bad.push((&[18], format!("position {} is delivered twice", w[0])));
        }
    }
}

pub fn main(first: u64, count: u64) {
    watchdog("after a panic:", &[18], 10);
    let mut hits = 0;
    for seed in first..first + count {
        let mut r = Rng::new(seed);
        let len = r.below(7);
        let what = r.below(4);
        let p = Plan {
            threads: 1 + r.below(3),
            ops: (0..3).map(|_| r.below(7)).collect(),
            size: 1 + r.below(4),
            closure_panics_at: if what < 2 { r.below(len + 1) } else { usize::MAX },
        };
        let at = r.below(len + 2);
        let (variant, seq, src) = (r.below(4), r.below(2) == 0, r.below(5));
        reset();
        let mut bad = vec![];
        let mut text = format!("length {len}, threads {}, operations {:?}, chunk size {}", p.threads, p.ops, p.size);
        let mut set = |x: String| {
            text = format!("{x}, {text}");
            *NOW.lock().unwrap() = format!("panics {seed} 1: {text}");
        };
        let run = Run { p: &p, bad: &mut bad, seq };
        let size = if variant % 2 == 0 { Size::Exact } else { Size::Unknown };
        let o = Oracle { name: String::new(), len, start: 0, base: 0, clones: 0, size, consuming: true };
        match what {
            0 | 1 => {
                let kind = r.below(KINDS);
                set(format!("kind {kind}: the closure panics at position {}", p.closure_panics_at));
                with_kind(kind, len, variant, run);
            }
            2 => {
                // the clone panics
                let e: Vec<Tr> = (0..len).map(Tr::new).collect();
                CLONE_PANICS_AT.store(at as isize, Ordering::Relaxed);
                let o = Oracle { clones: 1, consuming: false, ..o };
                if src < 3 {
                    set(format!("cloned slice: the clone of element {at} panics"));
                    run.visit(e.con_iter().cloned(), o);
                } else {
                    set(format!("cloned wrapped iterator: the clone of element {at} panics"));
                    let rr = &e;
                    let s = Seq { i: 0, len, size, f: move |i| &rr[i], ended: false, touched: Cell::new(0), panic_at: usize::MAX };
                    run.visit(s.into_con_iter().cloned(), o);
                }
                CLONE_PANICS_AT.store(-1, Ordering::Relaxed);
            }
            _ => match src {
                0 | 1 => {
                    set(format!("next of the wrapped iterator panics at position {at}"));
                    let s = Seq { i: 0, len, size, f: Tr::new, ended: false, touched: Cell::new(0), panic_at: at };
                    run.visit(s.into_con_iter(), o);
                }
                2 => {
                    set(format!("wrapped vec.into_iter().map(..): the map panics at position {at}"));
                    let e: Vec<Tr> = (0..len).map(Tr::new).collect();
                    let s = e.into_iter().map(move |x| if x.id == at { panic!("planned panic of map") } else { x });
                    run.visit(IterIntoConcurrentIter::into_con_iter(s), o);
                }
                _ => {
                    set(format!("next of the cloned wrapped iterator panics at position {at}"));
                    let e: Vec<Tr> = (0..len).map(Tr::new).collect();
                    let rr = &e;
                    let o = Oracle { clones: 1, consuming: false, ..o };
                    let s = Seq { i: 0, len, size, f: move |i| &rr[i], ended: false, touched: Cell::new(0), panic_at: at };
                    run.visit(s.into_con_iter().cloned(), o);
                }
            },
        }
        if let Some((t, l)) = ledger() {
            if t.contains(&18) || t.contains(&7) {
                bad.push((&[18], l));
            }
        }
        for (t, b) in bad {
            found(t, format!("(panics {seed}) {text} ==> {b}"));
            hits += 1;
        }
        if hits > 20 {
            break;
        }
    }
    println!("RAN {count} histories with panics");
}
