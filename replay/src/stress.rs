//! Many short iterators; threads meet at each of them: some query, some pull past the end.
use crate::*;

struct Stress {
    /// reported by the first thread which finds something
    out: std::sync::Mutex<Vec<(&'static [u32], String)>>,
}

fn go<I: ConcurrentIter>(make: impl Fn(usize) -> I, name: &str, rounds: usize, known: bool, rep: &Stress) {
    const BATCH: usize = 500;
    const T: usize = 4;
    for round in 0..rounds {
        let lens: Vec<usize> = (0..BATCH).map(|i| (i + round) % 5).collect();
        let its: Vec<I> = lens.iter().map(|l| make(*l)).collect();
        let here: Vec<AtomicUsize> = (0..BATCH).map(|_| AtomicUsize::new(0)).collect();
        let got: Vec<AtomicUsize> = (0..BATCH).map(|_| AtomicUsize::new(0)).collect();
        crate::conc::BEAT.fetch_add(1, Ordering::Relaxed);
        let failed = AtomicBool::new(false);
        std::thread::scope(|s| {
            for t in 0..T {
                let (its, lens, here, got, failed) = (&its, &lens, &here, &got, &failed);
                s.spawn(move || {
                    let res = caught(|| {
                        for i in 0..BATCH {
                            let (it, len) = (&its[i], lens[i]);
                            here[i].fetch_add(1, Ordering::AcqRel);
                            let mut spin = 0;
                            while here[i].load(Ordering::Acquire) < T {
                                spin += 1;
                                if spin > 200 {
                                    std::thread::yield_now();
                                }
                                if failed.load(Ordering::Relaxed) {
                                    return;
                                }
                            }
                            let say = |tags: &'static [u32], x: String| {
                                let mut o = rep.out.lock().unwrap();
                                if o.len() < 20 {
                                    o.push((tags, format!("{name} of length {len}, 2 threads pull until the end and past it, 2 query: {x}")));
                                }
                            };
                            if t < 2 {
                                let mut last = None;
                                let mut mine = 0;
                                // the odd one starts with chunks
                                if t == 1 && i % 3 == 1 {
                                    while let Some(c) = it.next_chunk(1 + i % 2) {
                                        mine += c.values.len();
                                        if last >= Some(c.begin_idx) {
                                            say(&[4], format!("chunk at {} after {last:?}", c.begin_idx));
                                        }
                                        last = Some(c.begin_idx);
                                    }
                                } else {
                                    while let Some(x) = it.next_id_and_value() {
                                        mine += 1;
                                        if last >= Some(x.idx) {
                                            say(&[4], format!("index {} after {last:?}", x.idx));
                                        }
                                        last = Some(x.idx);
                                        if mine > 100 {
                                            break;
                                        }
                                    }
                                }
                                for k in 0..3 {
                                    if it.next().is_some() {
                                        say(&[5, 1], format!("an element is delivered by pull {k} after the end"));
                                        mine += 1;
                                    }
                                    if let Some(l) = it.try_get_len() {
                                        if l > 0 {
                                            say(&[5, 11], format!("length {l} after the end"));
                                        }
                                    }
                                    if !matches!(it.has_more(), HasMore::No) {
                                        say(&[11], "has_more is not No after the end".to_string());
                                    }
                                }
                                got[i].fetch_add(mine, Ordering::AcqRel);
                            } else {
                                let mut last = len;
                                for _ in 0..40 {
                                    let l = if t == 2 {
                                        it.try_get_len()
                                    } else {
                                        match it.has_more() {
                                            HasMore::Yes(n) => Some(n),
                                            HasMore::No => Some(0),
                                            HasMore::Maybe => None,
                                        }
                                    };
                                    match l {
                                        Some(l) => {
                                            if l > last {
                                                say(&[11, 5], format!("the reported length {l} follows the length {last}"));
                                            }
                                            last = l;
                                        }
                                        None if known => say(&[11], "no length".to_string()),
                                        None if last == 0 && len > 0 => say(&[11], "Maybe follows No".to_string()),
                                        None => {}
                                    }
                                    if last == 0 && (known || len > 0) {
                                        break;
                                    }
                                }
                                if last == 0 && len > 0 && it.next().is_some() {
                                    say(&[11], "an element is delivered after No".to_string());
                                    got[i].fetch_add(1, Ordering::AcqRel);
                                }
                            }
                        }
                    });
                    if let Err(m) = res {
                        failed.store(true, Ordering::Relaxed);
                        rep.out.lock().unwrap().push((&[1, 3, 5, 9, 11, 16, 17, 18], format!("{name}: an operation panics: {m}")));
                    }
                });
            }
        });
        if !failed.load(Ordering::Relaxed) {
            for i in 0..BATCH {
                if got[i].load(Ordering::Acquire) != lens[i] {
                    rep.out.lock().unwrap().push((&[1, 4, 5, 12], format!("{name} of length {}: {} elements are delivered", lens[i], got[i].load(Ordering::Acquire))));
                }
            }
        }
        let o = rep.out.lock().unwrap();
        if !o.is_empty() {
            return;
        }
    }
}

pub fn main(rounds: u64, kind: usize) {
    crate::conc::watchdog("in the stress of kind", &[9, 5, 6, 7, 16, 18], 20);
    *crate::conc::NOW.lock().unwrap() = format!("stress {rounds} {kind}");
    let rounds = rounds as usize;
    let rep = Stress { out: std::sync::Mutex::new(vec![]) };
    static SOURCE: [usize; 8] = [0, 1, 2, 3, 4, 5, 6, 7];
    match kind {
        0 => go(|n| SOURCE[..n].into_con_iter(), "slice", rounds, true, &rep),
        1 => go(|n| (0..n).collect::<Vec<usize>>().into_con_iter(), "vec", rounds, true, &rep),
        2 => go(|n| (7..7 + n).con_iter(), "range", rounds, true, &rep),
        3 => go(|n| SOURCE[..n].into_con_iter().cloned(), "cloned slice", rounds, true, &rep),
        4 => go(|n| SOURCE[..n].into_con_iter().copied(), "copied slice", rounds, true, &rep),
        5 => go(|n| (0..n).into_iter().map(|x| x + 1).into_con_iter(), "wrapped exact iterator", rounds, true, &rep),
        6 => go(|n| (0..9usize).filter(move |x| *x < n).into_con_iter(), "wrapped filter", rounds, false, &rep),
        7 => go(|n| SOURCE[..n].iter().into_con_iter().cloned(), "cloned wrapped iterator", rounds, true, &rep),
        _ => {
            // arrays have one length
            let one = |n: usize| std::array::from_fn::<usize, 4, _>(|i| i + n).into_con_iter();
            go_array(one, rounds, &rep)
        }
    }
    for (t, x) in rep.out.into_inner().unwrap() {
        found(t, x);
    }
    println!("RAN {rounds} batches");
}

fn go_array<I: ConcurrentIter>(make: impl Fn(usize) -> I, rounds: usize, rep: &Stress) {
    // skip the front such that len elements are left
    go(
        |n| {
            let it = make(n);
            for _ in n..4 {
                it.next();
            }
            it
        },
        "array of length 4 (fewer left)",
        rounds,
        true,
        rep,
    )
}
