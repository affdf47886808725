//! Contracts of the iterator which wraps an arbitrary sequential iterator.
use crate::mon::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::marker::PhantomData;
use std::mem::forget;

/// greatest value of the counters in the proofs of the wrapped kind: assumes that fewer than this many
/// elements are taken from the wrapped iterator
pub const CAP: usize = usize::MAX / 4;
/// bound on the number of elements drawn from the wrapped iterator by a single call
pub const MAX_DRAW: usize = 3;

/// The wrapped iterator: arbitrary length, the element at position p is `T::of(p)`. It is not fused.
pub struct Probe<T>(PhantomData<T>);
pub static mut MUST_END: bool = false;
pub static mut LIMIT: usize = usize::MAX;
pub static mut HINT: (usize, Option<usize>) = (0, None);
pub trait Elem {
    fn of(p: usize) -> Self;
}
impl<T: Elem> Iterator for Probe<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let m = m();
        let must_end = match m.mode {
            Mode::Wrapped => {
                if m.taken >= MAX_DRAW || (!m.limit_cas && m.taken_total >= 2) {
                    // the bound of the chunk harnesses
                    kani::assume(m.p >= m.total);
                }
                m.p >= m.total
            }
            _ => unsafe { MUST_END || m.p >= LIMIT },
        };
        probe_next(must_end).map(T::of)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let m = m();
        match m.mode {
            // any correct hint
            Mode::Wrapped => {
                let left = m.total.saturating_sub(m.p);
                // the bound of the chunk harnesses
                kani::assume(m.n <= MAX_DRAW || left <= MAX_DRAW);
                let hint: (usize, Option<usize>) = (kani::any(), if kani::any() { Some(kani::any()) } else { None });
                kani::assume(hint.0 <= left && hint.1.map_or(true, |x| x >= left));
                hint
            }
            _ => unsafe { HINT },
        }
    }
}
impl Elem for usize {
    fn of(p: usize) -> usize {
        p
    }
}
impl<T: Elem> Elem for &'static T {
    fn of(p: usize) -> &'static T {
        Box::leak(Box::new(T::of(p)))
    }
}
/// element whose clones are distinguishable
pub struct Cu(pub usize);
pub const CLONE_BIT: usize = 1 << 63;
impl Clone for Cu {
    fn clone(&self) -> Self {
        user_code();
        Cu(self.0 ^ CLONE_BIT)
    }
}
impl Elem for Cu {
    fn of(p: usize) -> Cu {
        Cu(p)
    }
}

/// iterator over a wrapped sequential iterator, or an adaptor of it
pub trait WK {
    type Item: Send + Sync;
    type It: ConcurrentIter<Item = Self::Item> + AtomicIter<Self::Item>;
    fn wrap() -> Self::It;
    /// source position of an element
    fn p(x: Self::Item) -> usize;
}
pub struct Plain;
impl WK for Plain {
    type Item = usize;
    type It = ConIterOfIter<usize, Probe<usize>>;
    fn wrap() -> Self::It {
        ConIterOfIter::new(Probe(PhantomData))
    }
    fn p(x: usize) -> usize {
        x
    }
}
pub struct WCloned;
impl WK for WCloned {
    type Item = Cu;
    type It = Cloned<'static, Cu, ConIterOfIter<&'static Cu, Probe<&'static Cu>>>;
    fn wrap() -> Self::It {
        IntoCloned::cloned(ConIterOfIter::new(Probe(PhantomData)))
    }
    fn p(x: Cu) -> usize {
        // exactly one clone
        if x.0 & CLONE_BIT == 0 {
            return usize::MAX;
        }
        x.0 ^ CLONE_BIT
    }
}
pub struct WCopied;
impl WK for WCopied {
    type Item = usize;
    type It = Copied<'static, usize, ConIterOfIter<&'static usize, Probe<&'static usize>>>;
    fn wrap() -> Self::It {
        IntoCopied::copied(ConIterOfIter::new(Probe(PhantomData)))
    }
    fn p(x: usize) -> usize {
        x
    }
}

/// Finds the locations of the atomics of a wrapped iterator, as offsets in the object.
pub fn discover<K: WK>() -> (usize, usize) {
    let it = K::wrap();
    let m = m();
    m.lo = &it as *const K::It as usize;
    m.hi = m.lo + size_of::<K::It>();
    m.ra = it.counter() as *const AtomicCounter as *mut usize;
    m.ya = std::ptr::null_mut();
    m.da = std::ptr::null_mut();
    m.extra = false;
    m.p = 0;
    m.mode = Mode::Discover;
    unsafe { MUST_END = false };
    forget(it.next());
    unsafe { MUST_END = true };
    forget(it.next());
    m.mode = Mode::Off;
    let found = !m.extra && !m.ya.is_null() && !m.da.is_null();
    kani::assert(found, "ANCHOR: the wrapped iterator has exactly one ticket counter, one serving counter and one done flag");
    kani::assume(found);
    let r = (m.ya as usize - m.lo, m.da as usize - m.lo);
    forget(it);
    r
}

pub struct Start {
    pub d: bool,
    pub r: usize,
    pub y: usize,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Env {
    /// arbitrary state and interference
    Any,
    /// no pull in flight, no interference
    Quiescent,
    /// tickets may be waiting, no interference, the iterator is completed
    Done,
}

pub fn arbitrary_state<I: AtomicIter<T>, T: Send + Sync>(it: &I, offsets: (usize, usize), env: Env) -> Start {
    let m = m();
    let base = it as *const I as *mut u8;
    m.ra = it.counter() as *const AtomicCounter as *mut usize;
    m.ya = base.wrapping_add(offsets.0) as *mut usize;
    m.da = base.wrapping_add(offsets.1);
    let r: usize = kani::any();
    let y: usize = kani::any();
    let d: bool = kani::any();
    let ended: bool = kani::any();
    let p: usize = kani::any();
    kani::assume(y <= CAP && y <= r && (r <= CAP || r == usize::MAX));
    kani::assume(p <= y);
    kani::assume(d || !ended);
    kani::assume(d || p == y);
    // the length of the wrapped iterator, of which the hint at the creation of the concurrent iterator is correct
    m.total = kani::any();
    let hint = unsafe { HINT };
    kani::assume(hint.0 <= m.total && hint.1.map_or(true, |x| x >= m.total));
    kani::assume(p <= m.total && (!ended || p == m.total));
    match env {
        Env::Any => {}
        // a pull which finds the end at its own turn does not release its ticket
        Env::Quiescent => kani::assume(d || r == y),
        Env::Done => kani::assume(d),
    }
    unsafe {
        *m.ra = r;
        *m.ya = y;
        *m.da = d as u8;
    }
    m.p = p;
    m.ended = ended;
    m.cap = CAP;
    m.frozen = env != Env::Any;
    m.mode = Mode::Wrapped;
    start_call()
}
pub fn start_call() -> Start {
    let m = m();
    m.phase = Phase::None;
    m.n_own = 0;
    m.taken = 0;
    m.own_end = false;
    m.y_loads = 0;
    m.cas_fail = 0;
    m.acq = false;
    m.rel_fence = false;
    m.ops = 0;
    m.ops_perm = 0;
    Start { d: read_d(), r: read_r(), y: read_y() }
}

pub const OPS_W: u32 = 16;
pub const OPS_PERM: u32 = 8;

pub fn ensures_any<const P: u32>(start: &Start, n: usize) {
    let m = m();
    let holds = m.phase == Phase::Ticket || m.phase == Phase::Perm;
    ck!(P, [1, 2, 4, 7, 12, 13, 17, 18], !m.bad_use, "wrapped next: used only by the owner of the ticket that is being served, at most n times");
    ck!(P, [7], !m.bad_sync, "wrapped next: permission is acquired and released with happens-before");
    ck!(P, [1, 4, 5, 7, 12, 13, 16], !m.bad_after_end, "wrapped next: not used after it reported the end");
    ck!(P, [1, 2, 4, 7, 9, 12, 13, 17, 18], !m.bad_y, "guarantee: only the server advances the serving counter, by its ticket, after all elements are taken");
    ck!(P, [1, 5, 6, 11, 12, 13, 17, 18], !m.bad_d, "guarantee: the iterator is completed only at the end or by skip_to_end, and for ever");
    ck!(P, [1, 4, 5, 6, 11, 12, 13, 16], !m.bad_r, "guarantee: the ticket counter never decreases, and no second ticket is taken before the first is released");
    ck!(P, [1, 4, 12, 13], m.n_own <= 1, "pull: at most one reservation");
    ck!(P, [1, 3, 4, 12, 13, 17], m.n_own != 1 || m.n == n, "pull: reserves as many positions as requested");
    ck!(P, [1, 4, 5, 6, 11, 12, 13, 16], !start.d || read_d(), "the end is permanent");
    ck!(P, [18], !m.bad_user, "panic containment: user code (clone, closure) never runs while other threads may wait for its completion");
    ck!(P, [1, 9, 12, 17, 18], !holds || read_d(), "progress: on return the ticket is released or the iterator is completed");
    ck!(P, [9], !m.frozen || m.ops <= OPS_W, "progress: bounded number of own steps when no other pull is in flight, or the iterator is completed");
    ck!(P, [9], m.ops_perm <= OPS_PERM, "progress: bounded number of own steps when it is the turn of the caller");
    m.mode = Mode::Off;
}
pub fn ensures_some<const P: u32>(start: &Start, begin: Option<usize>, k: usize, n: usize) {
    let m = m();
    ck!(P, [1, 4, 9, 12, 13, 17, 18], m.phase == Phase::Released, "pull: delivers only after its turn is passed on");
    ck!(P, [1, 4, 6, 12, 13, 17, 18], m.taken == k, "pull: every element taken from the wrapped iterator is delivered");
    if let Some(b) = begin {
        ck!(P, [1, 2, 3, 4, 6, 12, 13, 17], b == m.b, "pull: reported begin index is the reserved position");
    }
    ck!(P, [1, 3, 12, 13, 16, 17], k >= 1, "pull: never an empty chunk");
    ck!(P, [3, 13, 16], k <= n, "pull: at most as many elements as requested");
    ck!(P, [3, 13, 16, 17], k == n || m.own_end, "pull: fewer elements than requested only at the end of the source");
    ck!(P, [1, 4, 5, 6, 12, 13, 16], !start.d, "pull: nothing is delivered after the end");
    ck!(P, [1, 4, 5, 11, 12, 13, 17], !m.own_end || read_d(), "pull: the end seen by a short chunk completes the iterator");
    ensures_any::<P>(start, n);
}
pub fn ensures_none<const P: u32>(start: &Start, n: usize) {
    let m = m();
    ck!(P, [1, 4, 6, 12, 13, 16, 17, 18], m.taken == 0, "pull: no element is lost when it reports the end");
    if n > 0 {
        ck!(P, [1, 3, 4, 5, 6, 11, 12, 13, 16, 17], read_d(), "pull: reports the end only when the iterator is completed");
    } else {
        ck!(P, [3, 13, 16, 17], m.n_own == 0 && !m.own_end, "empty pull: leaves the iterator unchanged");
    }
    ensures_any::<P>(start, n);
}

/// a concurrent iterator of a wrapped iterator with any hint
pub fn new<K: WK>() -> (K::It, (usize, usize)) {
    let o = discover::<K>();
    let lo: usize = kani::any();
    let hi: Option<usize> = if kani::any() { Some(kani::any()) } else { None };
    kani::assume(hi.is_none() || lo <= hi.unwrap());
    unsafe { HINT = (lo, hi) };
    (K::wrap(), o)
}

pub fn single<K: WK, const P: u32, const METHOD: u8>(env: Env) {
    let (it, o) = new::<K>();
    let start = arbitrary_state(&it, o, env);
    let (idx, x) = match METHOD {
        0 => (None, it.next()),
        1 => match it.next_id_and_value() {
            Some(x) => (Some(x.idx), Some(x.value)),
            None => (None, None),
        },
        2 => (None, it.values().next()),
        _ => match it.ids_and_values().next() {
            Some((i, x)) => (Some(i), Some(x)),
            None => (None, None),
        },
    };
    match x {
        Some(x) => {
            let b = m().b;
            let x = K::p(x);
            ensures_some::<P>(&start, idx, 1, 1);
            if let Some(i) = idx {
                ck!(P, [2, 12, 13], x == i, "pull: the element is the source element at the reported index");
            }
            ck!(P, [1, 2, 3, 4, 6, 12, 13, 17], x == b, "pull: the element is the source element at the reserved position");
            kani::cover!(true, "COVER some");
        }
        None => {
            ensures_none::<P>(&start, 1);
            kani::cover!(m().own_end, "COVER none at the end of the wrapped iterator");
            kani::cover!(!m().own_end, "COVER none after the end");
        }
    }
    forget(it);
}

pub fn check_chunk<K: WK, const P: u32>(start: &Start, n: usize, c: NextChunk<K::Item, impl ExactSizeIterator<Item = K::Item>>) {
    let mut values = c.values;
    let k = values.len();
    let b = m().b;
    ensures_some::<P>(start, Some(c.begin_idx), k, n);
    ck!(P, [3, 13, 17], values.size_hint() == (k, Some(k)), "chunk: announced length is exact (size_hint)");
    let mut i = 0;
    while i <= MAX_DRAW {
        match values.next() {
            Some(x) => {
                let x = K::p(x);
                ck!(P, [1, 3, 12, 13, 17], i < k, "chunk: not more elements than announced");
                ck!(P, [2, 12, 13], x == c.begin_idx.wrapping_add(i), "chunk: the i-th element is the source element at begin index + i");
                ck!(P, [1, 2, 3, 4, 6, 12, 13, 17], x == b.wrapping_add(i), "chunk: the i-th element is the i-th element of the reserved positions");
            }
            None => {
                ck!(P, [1, 3, 12, 13, 17], i == k, "chunk: not fewer elements than announced");
                break;
            }
        }
        i += 1;
        ck!(P, [3, 13], values.len() == k.wrapping_sub(i), "chunk: remaining length is exact");
    }
    kani::cover!(k == n, "COVER full chunk");
    kani::cover!(k < n, "COVER short chunk");
    forget(values);
}

pub fn any_n(zero: bool) -> usize {
    let n: usize = kani::any();
    kani::assume(n <= CAP && (n > 0 || zero));
    n
}

pub fn chunk<K: WK, const P: u32>(env: Env, zero: bool) {
    let (it, o) = new::<K>();
    let n = any_n(zero);
    let start = arbitrary_state(&it, o, env);
    {
        let c = it.next_chunk(n);
        match c {
            Some(c) => check_chunk::<K, P>(&start, n, c),
            None => {
                ensures_none::<P>(&start, n);
                kani::cover!(m().own_end, "COVER none at the end of the wrapped iterator");
            }
        }
    }
    forget(it);
}

/// `warm` > 0: the buffer was used before; its previous chunk had `warm` elements and was consumed only partly.
pub fn buffered<K: WK, const P: u32, const N: usize>(env: Env, warm: usize) {
    let (it, o) = new::<K>();
    // N == 0: any chunk size
    let n = if N == 0 { any_n(false) } else { N };
    {
        let mut buf = it.buffered_iter(n);
        if warm > 0 {
            m().p = 0;
            unsafe { MUST_END = false };
            unsafe { LIMIT = warm };
            match buf.next() {
                Some(c) => {
                    let mut v = c.values;
                    if kani::any() {
                        forget(v.next());
                    }
                }
                None => kani::assume(false),
            };
        }
        let start = arbitrary_state(&it, o, env);
        let c = buf.next();
        match c {
            Some(c) => check_chunk::<K, P>(&start, n, c),
            None => {
                ensures_none::<P>(&start, n);
                kani::cover!(m().own_end, "COVER none at the end of the wrapped iterator");
            }
        };
    }
    forget(it);
}

pub fn skip<K: WK, const P: u32>(env: Env) {
    let (it, o) = new::<K>();
    let start = arbitrary_state(&it, o, env);
    m().skipping = true;
    it.skip_to_end();
    m().skipping = false;
    ck!(P, [5, 6, 9, 11, 13, 16, 17], read_d(), "skip_to_end: the iterator is completed");
    ck!(P, [1, 6, 7, 12, 13], m().taken == 0 && !m().own_end, "skip_to_end: does not use the wrapped iterator");
    ck!(P, [1, 4, 6, 7, 12, 13], !m().bad_y, "skip_to_end: does not take the turn of a pull in flight");
    ck!(P, [1, 4, 5, 6, 12, 13], !m().bad_d && !m().bad_r, "skip_to_end: never reverted");
    ck!(P, [9], m().ops <= OPS_W, "progress: bounded number of own steps");
    kani::cover!(!start.d, "COVER skip");
    if P == 6 || P == 11 || P == 13 {
        kani::assert(it.has_more() == HasMore::No, "skip_to_end: has_more is No afterwards");
        start_call();
        let x = it.next();
        kani::assert(x.is_none(), "skip_to_end: next reports the end afterwards");
        kani::assert(m().taken == 0, "skip_to_end: the wrapped iterator is not used afterwards");
    }
    m().mode = Mode::Off;
    forget(it);
}

/// into_seq_iter, when no pull is in flight
pub fn into_seq<K: WK, const P: u32>() {
    let (it, o) = new::<K>();
    arbitrary_state(&it, o, Env::Quiescent);
    let (p, ended) = (m().p, m().ended);
    m().mode = Mode::Off;
    unsafe { MUST_END = ended };
    let mut seq = it.into_seq_iter();
    let mut i = 0;
    while i < 2 {
        match seq.next() {
            Some(x) => ck!(P, [10, 13], K::p(x) == p + i, "into_seq_iter: the i-th element is the i-th undelivered element"),
            None => ck!(P, [10, 13], ended, "into_seq_iter: yields the elements until the end of the wrapped iterator"),
        }
        i += 1;
    }
    ck!(P, [10, 13], ended || m().p == p + 2, "into_seq_iter: yields the undelivered elements and nothing else is taken from the wrapped iterator");
    kani::cover!(p > 0 && !ended, "COVER remaining elements");
    forget(seq);
}

/// for_each (0) / enumerate_for_each (1) / fold (2) on a wrapped iterator which yields at most 2 more elements to this call
pub fn for_each<K: WK, const P: u32, const METHOD: u8>(n: usize) {
    let (it, o) = new::<K>();
    arbitrary_state(&it, o, Env::Any);
    m().taken_total = 0;
    m().limit_cas = false;
    let mut v = 0usize;
    match METHOD {
        0 => it.for_each(n, |x| {
            user_code();
            let b = m().b;
            let p = K::p(x);
            kani::assert(n > 1 || p == b, "for_each: the function is called with the pulled element");
            v += 1;
        }),
        1 => it.enumerate_for_each(n, |i, x| {
            user_code();
            let b = m().b;
            kani::assert(K::p(x) == i, "enumerate_for_each: the element is the source element at the given index");
            kani::assert(i >= b && i < b + n, "enumerate_for_each: the index is one of the positions reserved by the call");
            v += 1;
        }),
        _ => {
            let r = it.fold(n, 0usize, |acc, x| {
                user_code();
                forget(x);
                kani::assert(acc == v, "fold: the accumulator is the result of the previous call");
                v += 1;
                v
            });
            kani::assert(r == v, "fold: the result is the result of the last call, or the neutral element");
        }
    }
    kani::assert(v == m().taken_total, "each: called exactly once for each element which is taken by the call");
    kani::assert(read_d(), "each: the iterator is exhausted at return");
    ck!(P, [18], !m().bad_user, "panic containment: user code (clone, closure) never runs while other threads may wait for its completion");
    kani::cover!(v == 2, "COVER all remaining elements visited");
    kani::cover!(v == 0, "COVER no element left");
    m().mode = Mode::Off;
    forget(it);
}

/// try_get_len / has_more
pub fn lens<K: WK, const P: u32, const METHOD: u8>(env: Env) {
    let (it, o) = new::<K>();
    let (lo, hi) = unsafe { HINT };
    let known = hi == Some(lo);
    let start = arbitrary_state(&it, o, env);
    let rem = |d: bool, r: usize| if d { 0 } else { lo.saturating_sub(r) };
    let before = rem(start.d, start.r);
    let l = if METHOD == 0 {
        it.try_get_len()
    } else {
        match it.has_more() {
            HasMore::Yes(x) => {
                ck!(P, [5, 11, 13], x > 0, "has_more: Yes only with a positive number");
                Some(x)
            }
            HasMore::No => Some(0),
            HasMore::Maybe => None,
        }
    };
    let after = rem(read_d(), read_r());
    match l {
        Some(l) => {
            ck!(P, [11, 13], known || l == 0, "length: reported only when known");
            ck!(P, [5, 6], !start.d || l == 0, "length: no remaining elements after the end");
            if known {
                ck!(P, [11, 13, 17], l <= before, "length: not more than the remaining elements at the start of the query");
                ck!(P, [11, 13, 17], l >= after, "length: not less than the remaining elements at the end of the query");
            } else {
                ck!(P, [11, 13], read_d(), "length: zero only when the iterator is completed");
            }
        }
        None => {
            ck!(P, [11, 13], !known, "length: Maybe only for sources of unknown size");
            ck!(P, [5, 11], !start.d, "length: never Maybe after the end");
        }
    }
    ck!(P, [5, 11], m().n_own == 0 && !m().bad_d && !m().bad_y && m().taken == 0, "length: the query does not change the iterator");
    ck!(P, [9], m().ops <= OPS_W, "progress: bounded number of own steps");
    kani::cover!(l.is_none(), "COVER unknown length");
    kani::cover!(l.is_some() && l.unwrap() > 2, "COVER known length");
    m().mode = Mode::Off;
    forget(it);
}

// ---- documented panics

pub fn panics<K: WK, const OP: u8>() {
    let it = K::wrap();
    unsafe { LIMIT = 1 };
    match OP {
        0 => {
            let b = it.buffered_iter(0);
            forget(b);
        }
        1 => it.for_each(0, |x| forget(x)),
        2 => it.enumerate_for_each(0, |_, x| forget(x)),
        _ => {
            let _ = it.fold(0, 0usize, |a, x| {
                forget(x);
                a
            });
        }
    }
    kani::cover!(true, "NEVER returns");
    forget(it);
}
