//! Small concurrent programs; what the threads observed is judged afterwards.
use crate::*;
use std::sync::atomic::AtomicU64;

#[derive(Clone, Debug)]
enum Op {
    Next,
    NextId,
    Chunk(usize, usize),
    /// buffer of the thread of the given size, consumed elements
    Buf(usize, usize),
    Each(usize),
    EachId(usize),
    Fold(usize),
    Len,
    More,
    Skip,
}

#[derive(Debug)]
enum Seen {
    End,
    Nothing,
    One(Option<usize>, usize),
    /// requested, begin, announced, positions
    Run(usize, usize, usize, Vec<usize>),
    All(Vec<(Option<usize>, usize)>),
    Len(Option<usize>, bool),
    Skipped,
}

#[derive(Debug)]
struct Rec {
    thread: usize,
    op: Op,
    from: usize,
    to: usize,
    seen: Seen,
}

static STAMP: AtomicUsize = AtomicUsize::new(0);
static ORDERED: AtomicBool = AtomicBool::new(false);
/// progress for the watchdog
pub static BEAT: AtomicU64 = AtomicU64::new(0);
fn stamp() -> usize {
    BEAT.fetch_add(1, Ordering::Relaxed);
    // the relaxed stamps do not order the accesses of the threads
    if ORDERED.load(Ordering::Relaxed) {
        STAMP.fetch_add(1, Ordering::AcqRel)
    } else {
        STAMP.fetch_add(1, Ordering::Relaxed)
    }
}

fn script(r: &mut Rng, len: usize, known: bool) -> Vec<Op> {
    let mut v = vec![];
    let size = |r: &mut Rng| match r.below(6) {
        0 => len.max(1),
        1 if known => usize::MAX - r.below(3),
        _ => 1 + r.below(3),
    };
    let buf = size(r);
    for _ in 0..1 + r.below(3) {
        v.push(match r.below(14) {
            0 | 1 => Op::Next,
            2 | 3 => Op::NextId,
            4..=6 => Op::Chunk(size(r), [0, 1, 100, 100][r.below(4)]),
            7 | 8 => Op::Buf(buf, [0, 1, 100, 100][r.below(4)]),
            9 => match r.below(3) {
                0 => Op::Each(size(r)),
                1 => Op::EachId(size(r)),
                _ => Op::Fold(size(r)),
            },
            10 => Op::Len,
            11 => Op::More,
            12 if r.below(2) == 0 => Op::Skip,
            _ => Op::NextId,
        });
    }
    v
}

struct Run<'a> {
    scripts: &'a [Vec<Op>],
    drain: bool,
    seq: bool,
    text: &'a mut String,
    bad: &'a mut Vec<(&'static [u32], String)>,
}

fn run<E: Elem>(o: &Oracle, n: usize, k: usize, begin: usize, mut values: impl ExactSizeIterator<Item = E>) -> Seen {
    let len = values.len();
    let mut p = vec![];
    while p.len() < k {
        match values.next() {
            Some(x) => p.push(x.pos(o)),
            None => break,
        }
    }
    if k >= 100 && p.len() != len {
        return Seen::Run(n, begin, len, p);
    }
    // not consumed elements are delivered as well
    let taken = p.len();
    p.extend((taken..len.min(taken + 64)).map(|i| begin.wrapping_add(i)));
    Seen::Run(n, begin, len, p)
}

fn apply<I: ConcurrentIter>(it: &I, op: &Op, o: &Oracle, buf: &mut dyn FnMut(usize, usize) -> Seen) -> Seen
where
    I::Item: Elem,
{
    match op {
        Op::Next => it.next().map_or(Seen::End, |x| Seen::One(None, x.pos(o))),
        Op::NextId => it.next_id_and_value().map_or(Seen::End, |x| Seen::One(Some(x.idx), x.value.pos(o))),
        Op::Chunk(n, k) => match it.next_chunk(*n) {
            None => Seen::End,
            Some(c) => run(o, *n, *k, c.begin_idx, c.values),
        },
        Op::Buf(n, k) => buf(*n, *k),
        Op::Each(n) => {
            let mut v = vec![];
            it.for_each(*n, |x| v.push((None, x.pos(o))));
            Seen::All(v)
        }
        Op::EachId(n) => {
            let mut v = vec![];
            it.enumerate_for_each(*n, |i, x| v.push((Some(i), x.pos(o))));
            Seen::All(v)
        }
        Op::Fold(n) => Seen::All(it.fold(*n, vec![], |mut v, x| {
            v.push((None, x.pos(o)));
            v
        })),
        Op::Len => Seen::Len(it.try_get_len(), false),
        Op::More => match it.has_more() {
            HasMore::Yes(n) => Seen::Len(Some(n), n == 0),
            HasMore::No => Seen::Len(Some(0), false),
            HasMore::Maybe => Seen::Nothing,
        },
        Op::Skip => {
            it.skip_to_end();
            Seen::Skipped
        }
    }
}

impl Visitor for Run<'_> {
    fn visit<I: ConcurrentIter>(self, it: I, o: Oracle)
    where
        I::Item: Elem,
    {
        self.text.push_str(&o.name);
        let all: std::sync::Mutex<Vec<Rec>> = std::sync::Mutex::new(vec![]);
        let (itr, oo, allr, drain) = (&it, &o, &all, self.drain);
        let ready = AtomicUsize::new(0);
        let threads = self.scripts.len();
        let readyr = &ready;
        let failed = std::sync::Mutex::new(None);
        let failedr = &failed;
        std::thread::scope(|s| {
            for (t, script) in self.scripts.iter().enumerate() {
                s.spawn(move || {
                    let mut recs = vec![];
                    readyr.fetch_add(1, Ordering::Relaxed);
                    if !cfg!(miri) {
                        while readyr.load(Ordering::Relaxed) < threads {
                            std::hint::spin_loop();
                        }
                    }
                    let res = caught(|| {
                        let mut slot = None;
                        let mut buf = |n: usize, k: usize| match slot.get_or_insert_with(|| itr.buffered_iter(n)).next() {
                            None => Seen::End,
                            Some(c) => run(oo, n, k, c.begin_idx, c.values),
                        };
                        for op in script {
                            let from = stamp();
                            let seen = apply(itr, op, oo, &mut buf);
                            let to = stamp();
                            recs.push(Rec { thread: t, op: op.clone(), from, to, seen });
                        }
                        if drain {
                            loop {
                                let from = stamp();
                                let seen = apply(itr, &Op::NextId, oo, &mut buf);
                                let to = stamp();
                                let end = matches!(seen, Seen::End);
                                recs.push(Rec { thread: t, op: Op::NextId, from, to, seen });
                                if end || recs.len() > 60 {
                                    break;
                                }
                            }
                        }
                    });
                    if let Err(m) = res {
                        *failedr.lock().unwrap() = Some(m);
                    }
                    allr.lock().unwrap().extend(recs);
                });
            }
        });
        let panicked = failed.into_inner().unwrap();
        if let Some(m) = panicked {
            self.bad.push((&[1, 3, 5, 9, 11, 16, 17, 18], format!("a pull panics: {m}")));
            return;
        }
        let mut recs = all.into_inner().unwrap();
        recs.sort_by_key(|r| r.from);
        judge(&recs, &o, ORDERED.load(Ordering::Relaxed), self.bad);

        // no pull is in flight any more
        let mut seen: Vec<usize> = recs.iter().flat_map(positions).collect();
        let skipped = recs.iter().any(|r| matches!(r.seen, Seen::Skipped));
        seen.sort();
        let n = seen.len();
        let prefix = seen.iter().enumerate().all(|(i, p)| i == *p);
        if !skipped && !prefix {
            self.bad.push((&[1, 4, 12, 13], format!("the delivered positions {seen:?} are not a prefix of the source")));
            return;
        }
        let len = it.try_get_len();
        let ended = recs.iter().any(|r| matches!(r.seen, Seen::End) && matches!(r.op, Op::Next | Op::NextId | Op::Chunk(..)));
        let left = if skipped { 0 } else { o.len - n.min(o.len) };
        let ok = match (o.size, len) {
            (Size::Unknown, None) => !ended && !skipped,
            (Size::Unknown, Some(l)) => l == 0 && left == 0,
            (_, l) => l == Some(left),
        };
        if !ok {
            self.bad.push((&[11, 5, 6, 16], format!("try_get_len gives {len:?} although {left} elements are left")));
        }
        let all_ended = self.drain && !skipped;
        if all_ended && n != o.len {
            self.bad.push((&[1, 4, 12, 16], format!("the end is reported to all threads after {n} of {} elements", o.len)));
        }
        let mut rest = vec![];
        if self.seq {
            let seq = it.into_seq_iter();
            REMAINDER.store(true, Ordering::Relaxed);
            for x in seq {
                rest.push(x.pos(&o));
                if rest.len() > 64 {
                    break;
                }
            }
        } else {
            while let Some(x) = it.next() {
                rest.push(x.pos(&o));
                if rest.len() > 64 {
                    break;
                }
            }
        }
        let tags: &'static [u32] = if self.seq { &[10, 13, 16] } else { &[1, 4, 5, 6, 13] };
        if skipped {
            let a = rest.first().copied().unwrap_or(o.len);
            let suffix = rest.iter().copied().eq(a..o.len);
            let bad = !suffix || seen.last().is_some_and(|l| *l >= a) || (!self.seq && !rest.is_empty());
            if bad {
                self.bad.push((tags, format!("after a skip and {seen:?} the remainder is {rest:?}")));
            }
        } else if !rest.iter().copied().eq(n..o.len) {
            self.bad.push((tags, format!("after {n} of {} elements the remainder is {rest:?}", o.len)));
        }
    }
}

fn positions(r: &Rec) -> Vec<usize> {
    match &r.seen {
        Seen::One(_, p) => vec![*p],
        Seen::Run(_, _, _, p) => p.clone(),
        Seen::All(v) => v.iter().map(|x| x.1).collect(),
        _ => vec![],
    }
}

fn judge(recs: &[Rec], o: &Oracle, ordered: bool, bad: &mut Vec<(&'static [u32], String)>) {
    let mut owner = [usize::MAX; 64];
    for (i, r) in recs.iter().enumerate() {
        let each = matches!(r.seen, Seen::All(_));
        match &r.seen {
            Seen::One(Some(i), p) if i != p => bad.push((&[2, 1, 13, 16], format!("{r:?}: wrong index"))),
            Seen::All(v) if v.iter().any(|(i, p)| i.is_some() && *i != Some(*p)) => {
                bad.push((&[2, 12, 1, 13, 16], format!("{r:?}: wrong index")))
            }
            Seen::Run(n, b, l, p) => {
                if p.len() != *l || *l == 0 || l > n || p.iter().enumerate().any(|(i, x)| *x != b.wrapping_add(i)) {
                    bad.push((&[3, 1, 2, 13, 16], format!("{r:?}: not a chunk of the announced length of consecutive positions")));
                }
                if l < n && p.last().is_some_and(|x| x + 1 != o.len) {
                    bad.push((&[3, 13, 16], format!("{r:?}: short chunk although the source does not end here")));
                }
            }
            Seen::Len(_, true) => bad.push((&[11], format!("{r:?}: Yes(0)"))),
            _ => {}
        }
        for p in positions(r) {
            if p >= o.len {
                bad.push((&[1, 2, 4, 5, 16], format!("{r:?}: position {p} is not in the source")));
            } else if owner[p] != usize::MAX {
                bad.push((
                    if each { &[1, 4, 8, 12, 13, 16, 5, 6] } else { &[1, 4, 8, 13, 16, 5, 6] },
                    format!("position {p} is delivered twice: {:?} and {r:?}", recs[owner[p]]),
                ));
            } else {
                owner[p] = i;
            }
        }
        // against the earlier operations
        for e in recs.iter().filter(|e| e.to < r.from && (ordered || e.thread == r.thread)) {
            let (pe, pr) = (positions(e), positions(r));
            if let (Some(a), Some(b)) = (pe.iter().max(), pr.iter().min()) {
                if a >= b {
                    bad.push((&[4], format!("{e:?} returns before {r:?} starts, but the positions are not smaller")));
                }
            }
            let what = || format!("{e:?} returns before {r:?} starts");
            match &e.seen {
                Seen::End | Seen::All(_) => {
                    if !pr.is_empty() {
                        bad.push((if matches!(e.seen, Seen::End) { &[5, 13, 16] } else { &[12, 5] }, format!("{}: an element after the end", what())));
                    }
                    if matches!(r.seen, Seen::Len(Some(n), _) if n > 0) {
                        bad.push((&[5, 11], format!("{}: a positive length after the end", what())));
                    }
                }
                Seen::Skipped => {
                    if !pr.is_empty() {
                        bad.push((&[6, 13], format!("{}: an element after skip_to_end", what())));
                    }
                    if matches!(r.seen, Seen::Len(Some(n), _) if n > 0) || (matches!(r.op, Op::More) && matches!(r.seen, Seen::Nothing)) {
                        bad.push((&[6, 11], format!("{}: not No after skip_to_end", what())));
                    }
                }
                Seen::Len(Some(l), _) => {
                    if let Seen::Len(Some(m), _) = r.seen {
                        if m > *l {
                            bad.push((&[11], format!("{}: the length grows", what())));
                        }
                    }
                    if *l == 0 && !pr.is_empty() {
                        bad.push((&[11, 6], format!("{}: an element after No", what())));
                    }
                }
                _ => {}
            }
        }
    }
}

pub fn watchdog(what: &'static str, tags: &'static [u32], patience: u64) {
    if cfg!(miri) {
        return;
    }
    std::thread::spawn(move || {
        let mut last = (BEAT.load(Ordering::Relaxed), 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BEAT.load(Ordering::Relaxed);
            last = if b == last.0 { (b, last.1 + 1) } else { (b, 0) };
            if last.1 >= patience {
                found(tags, format!("no operation has returned for {patience} s: {what} {}", NOW.lock().unwrap()));
                println!("DONE");
                std::process::exit(0);
            }
        }
    });
}
pub static NOW: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn main(first: u64, count: u64, repeat: u64) {
    watchdog("in the concurrent program", &[9, 5, 6, 7, 16, 18], 20);
    let mut hits = 0;
    'all: for seed in first..first + count {
        for round in 0..repeat {
            let mut r = Rng::new(seed);
            let kind = if r.below(2) == 0 { 6 + r.below(3) } else { r.below(KINDS) };
            let len = [0, 1, 2, 3, 4, 5, 9][r.below(7)];
            let variant = r.below(4);
            let scripts: Vec<Vec<Op>> = (0..2 + r.below(2)).map(|_| script(&mut r, len, !(6..=8).contains(&kind) && kind != 10)).collect();
            let (drain, seq) = (r.below(3) != 0, r.below(2) == 0);
            let ordered = if repeat > 1 { round % 2 == 0 } else { r.below(2) == 0 };
            ORDERED.store(ordered, Ordering::Relaxed);
            STAMP.store(0, Ordering::Relaxed);
            reset();
            let (mut text, mut bad) = (String::new(), vec![]);
            if !cfg!(miri) {
                *NOW.lock().unwrap() = format!("conc {seed} 1 {repeat}: kind {kind}, length {len}, threads {scripts:?}");
            }
            with_kind(kind, len, variant, Run { scripts: &scripts, drain, seq, text: &mut text, bad: &mut bad });
            if bad.is_empty() {
                if let Some((t, l)) = ledger() {
                    bad.push((t, l));
                }
            }
            for (t, b) in bad.into_iter().take(3) {
                let drain = if drain { ", then each until the end" } else { "" };
                found(t, format!("(program {seed}) {text}; threads: {scripts:?}{drain} ==> {b}"));
                hits += 1;
            }
            if hits > 20 {
                break 'all;
            }
        }
    }
    println!("RAN {count} concurrent programs {repeat} times");
}
