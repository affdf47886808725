//! Sequential histories against the sequential cursor.
use crate::*;

/// what went wrong
pub struct Bad(pub &'static [u32], pub String);
pub type Res = Result<(), Bad>;

const ELEM: &[u32] = &[1, 2, 3, 4, 6, 12, 13, 16, 17, 19];
const IDX: &[u32] = &[1, 2, 3, 4, 12, 13, 16, 17];
const LOST: &[u32] = &[1, 3, 4, 11, 12, 13, 16, 17, 19];
const REVIVE: &[u32] = &[1, 3, 4, 5, 6, 13, 16, 17];
const CHUNK: &[u32] = &[1, 3, 12, 13, 16, 17];
const LENGTH: &[u32] = &[5, 6, 11, 13, 16, 17];
const SEQ: &[u32] = &[4, 10, 13, 16, 17, 19];
const PANIC: &[u32] = &[1, 3, 4, 5, 9, 11, 12, 13, 16, 17, 18];
const NOPANIC: &[u32] = &[16];
const EACH: &[u32] = &[1, 12, 13, 16];

pub struct State {
    pub o: Oracle,
    /// next position
    pub c: usize,
    pub skipped: bool,
    /// a single or one-shot pull has reported the end
    pub none: bool,
    pub history: Vec<String>,
    pub digest: u64,
}

impl State {
    fn left(&self) -> usize {
        if self.skipped {
            0
        } else {
            self.o.len - self.c
        }
    }
    fn element<E: Elem>(&mut self, x: E, p: usize) -> Res {
        let q = x.pos(&self.o);
        self.digest = self.digest.wrapping_mul(31).wrapping_add(q as u64);
        if q != p && q != usize::MAX - 1 {
            return Err(Bad(ELEM, format!("element of position {q} instead of {p} is delivered")));
        }
        Ok(())
    }
    fn single<E: Elem>(&mut self, idx: Option<usize>, x: Option<E>) -> Res {
        let left = self.left();
        self.digest = self.digest.wrapping_mul(31).wrapping_add(1 + idx.unwrap_or(3) as u64);
        match x {
            None if left > 0 => Err(Bad(LOST, format!("end is reported although {left} elements are left"))),
            None => {
                self.none = true;
                Ok(())
            }
            Some(_) if left == 0 => Err(Bad(REVIVE, format!("an element is delivered after the end (index {idx:?})"))),
            Some(x) => {
                let p = self.c;
                self.c += 1;
                if idx.is_some() && idx != Some(p) {
                    return Err(Bad(IDX, format!("index {idx:?} instead of {p} is reported")));
                }
                self.element(x, p)
            }
        }
    }
    fn chunk<E: Elem>(&mut self, n: usize, consume: usize, c: Option<(usize, impl ExactSizeIterator<Item = E>)>) -> Res {
        let left = self.left();
        match c {
            None => {
                self.digest = self.digest.wrapping_mul(31).wrapping_add(5);
                if n > 0 && left > 0 {
                    return Err(Bad(LOST, format!("end is reported although {left} elements are left")));
                }
                if n > 0 {
                    self.none = true;
                }
                Ok(())
            }
            Some((begin, mut values)) => {
                let k = values.len();
                self.digest = self.digest.wrapping_mul(31).wrapping_add((k ^ begin) as u64);
                if left == 0 {
                    return Err(Bad(REVIVE, format!("a chunk of {k} elements with begin index {begin} is delivered after the end")));
                }
                if n == 0 {
                    return Err(Bad(CHUNK, "chunk of size zero is delivered".into()));
                }
                if begin != self.c {
                    return Err(Bad(IDX, format!("begin index {begin} instead of {} is reported", self.c)));
                }
                if k != n.min(left) {
                    return Err(Bad(CHUNK, format!("a chunk of {k} elements instead of {} is delivered", n.min(left))));
                }
                let b = self.c;
                self.c += k;
                for i in 0..consume.min(k) {
                    if values.size_hint() != (k - i, Some(k - i)) || values.len() != k - i {
                        return Err(Bad(CHUNK, format!("announced length {:?} instead of {}", values.size_hint(), k - i)));
                    }
                    match values.next() {
                        Some(x) => self.element(x, b + i)?,
                        None => return Err(Bad(CHUNK, format!("{i} elements are yielded although {k} are announced"))),
                    }
                }
                if consume > k && values.next().is_some() {
                    return Err(Bad(CHUNK, format!("more than the announced {k} elements are yielded")));
                }
                Ok(())
            }
        }
    }
    fn length(&mut self, l: Option<usize>, what: &str) -> Res {
        let left = self.left();
        self.digest = self.digest.wrapping_mul(31).wrapping_add(l.unwrap_or(77) as u64);
        let ok = match (self.o.size, l) {
            (Size::Known, l) | (Size::Exact, l) => l == Some(left),
            (Size::Unknown, Some(l)) => l == 0 && left == 0,
            (Size::Unknown, None) => !self.none && !self.skipped,
        };
        if ok {
            Ok(())
        } else {
            Err(Bad(LENGTH, format!("{what} gives {l:?} although {left} elements are left")))
        }
    }
    fn each(&mut self, visited: Vec<(Option<usize>, usize)>) -> Res {
        let (c, left) = (self.c, self.left());
        if visited.len() != left {
            return Err(Bad(EACH, format!("{} elements are visited instead of {left}", visited.len())));
        }
        for (i, (idx, p)) in visited.iter().enumerate() {
            if *p != c + i && *p != usize::MAX - 1 {
                return Err(Bad(ELEM, format!("element of position {p} instead of {} is visited", c + i)));
            }
            if idx.is_some() && *idx != Some(c + i) {
                return Err(Bad(IDX, format!("visited with index {idx:?} instead of {}", c + i)));
            }
        }
        self.c += left;
        self.none = true;
        Ok(())
    }
}

/// large sources, ranges and chunk sizes
pub static LARGE: AtomicBool = AtomicBool::new(false);
fn large() -> bool {
    LARGE.load(Ordering::Relaxed)
}
/// most elements which may be visited one by one
fn many() -> usize {
    if large() {
        1 << 20
    } else {
        200
    }
}

pub fn any_size(r: &mut Rng, left: usize) -> usize {
    if large() && r.below(3) != 0 {
        let e = r.below(if left > 1 << 30 { 62 } else { 20 });
        return match r.below(4) {
            0 => 1 << e,
            1 => (1 << e) + 1,
            2 => ((1usize << e) - 1).max(1),
            _ => (1 << e) + r.below(1 << e),
        };
    }
    match r.below(12) {
        0..=3 => 1 + r.below(3),
        4 | 5 => left.saturating_add(1),
        6 => left.max(1),
        7 => left.saturating_sub(1).max(1),
        8 => usize::MAX,
        9 => usize::MAX - r.below(8),
        10 => usize::MAX / 2 + r.below(3),
        _ => 1 + r.below(40),
    }
}

pub struct Run<'a> {
    pub r: &'a mut Rng,
    pub out: &'a mut Option<(Bad, String)>,
    pub digest: &'a mut u64,
    pub kind: usize,
}
impl Visitor for Run<'_> {
    fn visit<I: ConcurrentIter>(self, it: I, o: Oracle)
    where
        I::Item: Elem,
    {
        let mut s = State { o, c: 0, skipped: false, none: false, history: vec![], digest: 0 };
        let r = self.r;
        let res = caught(|| history(&it, &mut s, r));
        let mut res = match res {
            Ok(x) => x,
            Err(m) => Err(Bad(PANIC, format!("panics: {m}"))),
        };
        if res.is_ok() && r.below(2) == 0 {
            s.history.push("into_seq_iter".into());
            let (c, len, skipped) = (s.c, s.o.len, s.skipped);
            let n = r.below(len.min(1 << 20) + 2);
            res = match caught(|| {
                let mut seq = it.into_seq_iter();
                REMAINDER.store(true, Ordering::Relaxed);
                let mut first = None;
                let mut i = 0;
                let hint = seq.size_hint();
                while i < n {
                    match seq.next() {
                        Some(x) => {
                            let p = x.pos(&s.o);
                            if p != usize::MAX - 1 {
                                let f = *first.get_or_insert(p);
                                if f < c || p != f + i || p >= len || (!skipped && f != c) {
                                    return Err(Bad(SEQ, format!("remainder element {i} is the element of position {p} after {c} delivered elements")));
                                }
                            }
                            i += 1;
                        }
                        None => {
                            let f = first.unwrap_or(if skipped { len } else { c });
                            if f + i != len {
                                return Err(Bad(SEQ, format!("the remainder has {i} elements after {c} of {len} elements are delivered")));
                            }
                            break;
                        }
                    }
                }
                if !skipped && !(hint.0 <= len - c && hint.1.map_or(true, |h| len - c <= h)) {
                    return Err(Bad(SEQ, format!("size hint {hint:?} of the remainder of {} elements", len - c)));
                }
                Ok(())
            }) {
                Ok(x) => x,
                Err(m) => Err(Bad(PANIC, format!("panics: {m}"))),
            };
        } else if let Err(m) = caught(move || drop(it)) {
            s.history.push("drop".into());
            res = res.and(Err(Bad(PANIC, format!("panics: {m}"))));
        } else {
            s.history.push("drop".into());
        }
        *self.digest = s.digest;
        let name = format!("{}: {}", s.o.name, s.history.join("; "));
        if let Err(b) = res {
            *self.out = Some((b, name));
        } else {
            *self.out = Some((Bad(&[], String::new()), name));
        }
    }
}

fn history<I: ConcurrentIter>(it: &I, s: &mut State, r: &mut Rng) -> Res
where
    I::Item: Elem,
{
    let mut bufs = vec![];
    for _ in 0..1 + r.below(7) {
        let left = s.left();
        match r.below(19) {
            0 | 1 => {
                s.history.push("next".into());
                let x = it.next();
                s.single(None, x)?;
            }
            2 | 3 => {
                s.history.push("next_id_and_value".into());
                let x = it.next_id_and_value();
                let i = x.as_ref().map(|x| x.idx);
                s.single(i, x.map(|x| x.value))?;
            }
            4 => {
                s.history.push("values.next".into());
                let x = it.values().next();
                s.single(None, x)?;
            }
            5 => {
                s.history.push("ids_and_values.next".into());
                let x = it.ids_and_values().next();
                let i = x.as_ref().map(|x| x.0);
                s.single(i, x.map(|x| x.1))?;
            }
            6..=9 => {
                let n = if r.below(8) == 0 { 0 } else { any_size(r, left) };
                let n = if s.o.size != Size::Known && n > 1 << 30 { 1 << 20 } else { n };
                let consume = [0, 1, 2, if large() { 1 << 20 } else { 1000 }][r.below(4)];
                s.history.push(format!("next_chunk({n}) of which {consume} are consumed"));
                let c = it.next_chunk(n).map(|c| (c.begin_idx, c.values));
                s.chunk(n, consume, c)?;
            }
            10 => {
                let n = any_size(r, left);
                let n = if s.o.size != Size::Known && n > 1 << 30 { 1 << 20 } else { n };
                s.history.push(format!("buffered_iter({n})"));
                bufs.push((n, it.buffered_iter(n)));
            }
            11..=13 => {
                if bufs.is_empty() {
                    let n = 1 + r.below(3);
                    s.history.push(format!("buffered_iter({n})"));
                    bufs.push((n, it.buffered_iter(n)));
                }
                let i = r.below(bufs.len());
                let n = bufs[i].0;
                let consume = [0, 1, 2, if large() { 1 << 20 } else { 1000 }][r.below(4)];
                s.history.push(format!("buffer {i} of size {n}: next of which {consume} are consumed"));
                let none = s.none;
                let c = bufs[i].1.next().map(|c| (c.begin_idx, c.values));
                s.chunk(n, consume, c)?;
                s.none = none || (s.none && s.o.size != Size::Unknown);
            }
            14 => {
                s.history.push("try_get_len".into());
                s.length(it.try_get_len(), "try_get_len")?;
            }
            15 => {
                s.history.push("has_more".into());
                let l = match it.has_more() {
                    HasMore::Yes(0) => return Err(Bad(LENGTH, "has_more gives Yes(0)".into())),
                    HasMore::Yes(n) => Some(n),
                    HasMore::No => Some(0),
                    HasMore::Maybe => None,
                };
                s.length(l, "has_more")?;
            }
            16 => {
                if r.below(3) == 0 {
                    s.history.push("skip_to_end".into());
                    it.skip_to_end();
                    s.skipped = true;
                }
            }
            17 => {
                if left > many() {
                    continue;
                }
                let n = any_size(r, left);
                let n = if s.o.size != Size::Known && n > 1 << 30 { 1 << 20 } else { n };
                let mut visited = vec![];
                let o = s.o.clone();
                match r.below(3) {
                    0 => {
                        s.history.push(format!("for_each({n})"));
                        it.for_each(n, |x| {
                            assert!(visited.len() <= many(), "does not end");
                            visited.push((None, x.pos(&o)))
                        });
                    }
                    1 => {
                        s.history.push(format!("enumerate_for_each({n})"));
                        it.enumerate_for_each(n, |i, x| {
                            assert!(visited.len() <= many(), "does not end");
                            visited.push((Some(i), x.pos(&o)))
                        });
                    }
                    _ => {
                        s.history.push(format!("fold({n})"));
                        visited = it.fold(n, vec![], |mut v, x| {
                            assert!(v.len() <= many(), "does not end");
                            v.push((None, x.pos(&o)));
                            v
                        });
                    }
                }
                s.each(visited)?;
            }
            _ => {
                if r.below(3) == 0 {
                    let (f, name): (Box<dyn Fn() + '_>, _) = match r.below(4) {
                        0 => (Box::new(|| drop(it.buffered_iter(0))), "buffered_iter(0)"),
                        1 => (Box::new(|| it.for_each(0, |_| {})), "for_each(0)"),
                        2 => (Box::new(|| it.enumerate_for_each(0, |_, _| {})), "enumerate_for_each(0)"),
                        _ => (Box::new(|| it.fold(0, (), |_, _| {})), "fold(0)"),
                    };
                    s.history.push(name.into());
                    if caught(f).is_ok() {
                        return Err(Bad(NOPANIC, format!("{name} does not panic")));
                    }
                }
            }
        }
    }
    Ok(())
}

/// clones of iterators and iterators over the same collection
pub fn clones(r: &mut Rng) -> Option<(Bad, String)> {
    fn go<I: ConcurrentIter + Clone>(it: I, o: Oracle, r: &mut Rng) -> Result<(), (Bad, String)>
    where
        I::Item: Elem,
    {
        let mut its = vec![(it, State { o: o.clone(), c: 0, skipped: false, none: false, history: vec![], digest: 0 })];
        let mut h = vec![];
        for _ in 0..8 {
            let i = r.below(its.len());
            let e = match r.below(5) {
                0 => {
                    h.push(format!("clone iterator {i}"));
                    let (it, s) = &its[i];
                    let c = it.clone();
                    let s = State { o: o.clone(), c: s.c, skipped: s.skipped, none: s.none, history: vec![], digest: 0 };
                    its.push((c, s));
                    Ok(())
                }
                1 => {
                    let n = if large() { any_size(r, its[i].1.left()) } else { 1 + r.below(3) };
                    h.push(format!("iterator {i}: next_chunk({n})"));
                    let (it, s) = &mut its[i];
                    let c = it.next_chunk(n).map(|c| (c.begin_idx, c.values));
                    s.chunk(n, if large() { 3 } else { 1000 }, c)
                }
                2 => {
                    h.push(format!("iterator {i}: try_get_len"));
                    let (it, s) = &mut its[i];
                    let l = it.try_get_len();
                    s.length(l, "try_get_len")
                }
                3 if r.below(3) == 0 => {
                    h.push(format!("iterator {i}: skip_to_end"));
                    let (it, s) = &mut its[i];
                    it.skip_to_end();
                    s.skipped = true;
                    Ok(())
                }
                _ => {
                    h.push(format!("iterator {i}: next_id_and_value"));
                    let (it, s) = &mut its[i];
                    let x = it.next_id_and_value();
                    let idx = x.as_ref().map(|x| x.idx);
                    s.single(idx, x.map(|x| x.value))
                }
            };
            if let Err(b) = e {
                return Err((Bad(&[19, 2, 4], b.1), format!("{}: {}", o.name, h.join("; "))));
            }
        }
        Ok(())
    }
    if large() {
        let start = [0, 5, 1 << 40][r.below(3)];
        let len = [usize::MAX - start, usize::MAX - start - r.below(9), 1 << 33, 1 << 40, (1 << 20) + r.below(99)][r.below(5)].min(usize::MAX - start);
        let o = Oracle { name: format!("clones of the iterator of range {start}..{}", start + len), len, start, base: 0, clones: 0, size: Size::Known, consuming: false };
        return go((start..start + len).con_iter(), o, r).err();
    }
    let len = r.below(6);
    let o = Oracle { name: String::new(), len, start: 0, base: 0, clones: 0, size: Size::Known, consuming: false };
    let res = if r.below(2) == 0 {
        let e: Vec<Tr> = (0..len).map(Tr::new).collect();
        let x = go(e.con_iter(), Oracle { base: e.as_ptr() as usize, name: format!("clones of a slice iterator of length {len}"), ..o }, r);
        source_intact(&e, len);
        x
    } else {
        go((3..3 + len).con_iter(), Oracle { start: 3, name: format!("clones of a range iterator of length {len}"), ..o }, r)
    };
    res.err()
}

pub fn one(seed: u64, print: bool) -> (bool, u64) {
    let mut r = Rng::new(seed);
    reset();
    let kind = r.below(KINDS + 1);
    let len = match r.below(8) {
        0 => 0,
        1 => 1,
        7 => 9 + r.below(3),
        _ => 2 + r.below(4),
    };
    let variant = r.below(4);
    let before = live_bytes();
    let mut found_any = false;
    let mut digest = 0;
    let mut tags: &[u32] = &[];
    let mut text = String::new();
    if kind == KINDS {
        let x = clones(&mut r);
        if let Some((b, h)) = x {
            text = format!("{h} ==> {}", b.1);
            tags = b.0;
            found_any = true;
        }
    } else {
        let mut out = None;
        with_kind(kind, len, variant, Run { r: &mut r, out: &mut out, digest: &mut digest, kind });
        let (b, h) = out.take().unwrap();
        if !b.0.is_empty() {
            text = format!("{h} ==> {}", b.1);
            tags = b.0;
            found_any = true;
        } else {
            text = h;
        }
    }
    let mut report = vec![];
    if found_any {
        report.push((tags, format!("(seed {seed}) {text}")));
    }
    if let Some((t, l)) = ledger() {
        report.push((t, format!("(seed {seed}) {text} ==> {l}")));
    } else if !found_any {
        text = String::new();
        let leaked = live_bytes() - before;
        if leaked != 0 {
            // text is dropped: rerun for the description
            report.push((&[15], format!("(seed {seed}) ==> {leaked} bytes are not released (history: run 'replay seq {seed} 1 show')")));
        }
    }
    drop(text);
    let any = !report.is_empty();
    if print {
        for (t, x) in report {
            found(t, x);
        }
    }
    (any, digest)
}

pub fn main(seed: u64, count: u64) {
    crate::conc::watchdog("in the sequential history", &[1, 3, 4, 5, 9, 10, 12, 13, 16], 20);
    let mut n = 0;
    let mut digest = 0u64;
    for s in seed..seed + count {
        crate::conc::BEAT.fetch_add(1, Ordering::Relaxed);
        if !cfg!(miri) {
            *crate::conc::NOW.lock().unwrap() = format!("seq {s} 1");
        }
        let (f, d) = one(s, true);
        digest = digest.wrapping_mul(1000003).wrapping_add(d);
        if std::env::var("DIGESTS").is_ok() {
            println!("DIGEST {s} {d}");
        }
        if f {
            n += 1;
            if n > 40 {
                break;
            }
        }
    }
    println!("RAN {count} sequential histories");
}
