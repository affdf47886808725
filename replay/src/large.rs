//! Sequential histories of large sources: lengths, chunk sizes and counters far beyond those of seq.
use crate::seq::{clones, Bad, Run, LARGE};
use crate::*;

const LARGE_KINDS: usize = 9;
fn with_large<V: Visitor>(kind: usize, len: usize, variant: usize, v: V) {
    let mut o = Oracle { name: String::new(), len, start: 0, base: 0, clones: 0, size: Size::Known, consuming: false };
    let e = || (0..len).collect::<Vec<usize>>();
    let size = if variant % 2 == 0 { Size::Exact } else { Size::Unknown };
    match kind {
        0 => {
            o.name = format!("slice of length {len}");
            v.visit(e().as_slice().into_con_iter(), o)
        }
        1 => {
            o.name = format!("vec of length {len}");
            v.visit(e().into_con_iter(), o)
        }
        2 => {
            o.name = format!("range 7..{}", 7 + len);
            o.start = 7;
            v.visit((7..7 + len).con_iter(), o)
        }
        3 => {
            o.start = [0, 5, 1 << 35, 1 << 50][variant % 4];
            o.len = [usize::MAX - o.start, 1 << 33, 1 << 41, (usize::MAX >> 1) + 3 - o.start.min(1 << 36)][len % 4].min(usize::MAX - o.start);
            o.name = format!("range {}..{}", o.start, o.start + o.len);
            v.visit((o.start..o.start + o.len).con_iter(), o)
        }
        4 => {
            o.name = format!("cloned slice of length {len}");
            v.visit(e().con_iter().cloned(), o)
        }
        5 => {
            o.name = format!("copied slice of length {len}");
            v.visit(e().con_iter().copied(), o)
        }
        6 => {
            o.name = format!("wrapped iterator of length {len}, {size:?} size");
            o.size = size;
            let s = Seq { i: 0, len, size, f: |i| i, ended: false, touched: Cell::new(0), panic_at: usize::MAX };
            v.visit(s.into_con_iter(), o)
        }
        7 => {
            o.name = format!("cloned wrapped iterator of length {len}");
            o.size = Size::Exact;
            v.visit(e().iter().into_con_iter().cloned(), o)
        }
        _ => {
            o.name = format!("copied wrapped iterator of length {len}");
            o.size = Size::Exact;
            v.visit(e().iter().into_con_iter().copied(), o)
        }
    }
}

pub fn main(seed: u64, count: u64) {
    crate::conc::watchdog("in the sequential history", &[1, 3, 4, 5, 9, 10, 12, 13, 16, 17], 20);
    LARGE.store(true, Ordering::Relaxed);
    let mut n = 0;
    for seed in seed..seed + count {
        crate::conc::BEAT.fetch_add(1, Ordering::Relaxed);
        *crate::conc::NOW.lock().unwrap() = format!("large {seed} 1");
        let mut r = Rng::new(seed);
        reset();
        let kind = r.below(LARGE_KINDS + 1);
        let len = (1 << (9 + r.below(9))) + r.below(5000);
        let variant = r.below(4);
        let bad: Option<(Bad, String)> = if kind == LARGE_KINDS {
            caught(|| clones(&mut r)).unwrap_or_else(|m| Some((Bad(&[1, 3, 16, 17, 19], format!("panics: {m}")), "clones".to_string())))
        } else {
            let (mut out, mut digest) = (None, 0);
            with_large(kind, len, variant, Run { r: &mut r, out: &mut out, digest: &mut digest, kind });
            out
        };
        if let Some((b, h)) = bad {
            if !b.0.is_empty() {
                found(b.0, format!("(seed {seed}) {h} ==> {}", b.1));
                n += 1;
                if n > 20 {
                    break;
                }
            }
        }
        if OVERLAP.load(Ordering::Relaxed) || USED_AFTER_END.load(Ordering::Relaxed) {
            found(&[4, 5, 7], format!("(seed {seed}) the wrapped iterator is used after its end"));
        }
    }
    println!("RAN {count} large histories");
}
