//! Contract of the pulls of iterators over sources of known length.
use crate::kinds::*;
use crate::mon::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::mem::forget;

/// Sets up the monitor for `it` in an arbitrary reachable state.
pub fn arbitrary_state<K: Kind>(it: &K::It, src: &Src, frozen: bool) {
    let c: usize = kani::any();
    it.counter().store(c);
    let m = m();
    m.mode = Mode::Known;
    m.frozen = frozen;
    m.ra = it.counter() as *const AtomicCounter as *mut usize;
    m.len = src.len;
    m.cap = usize::MAX;
    m.saw_end = pos() == m.len;
    if unsafe { FRAME } && size_of::<K::It>() > size_of::<usize>() {
        watch(it);
    }
}
/// Frame: what an operation through a shared reference leaves unchanged.
pub fn frame<const P: u32>(src: &Src) {
    ck!(P, [7, 13, 19], src.witness_unchanged(), "frame: the source is not modified");
    ck!(P, [7, 19], watched_unchanged(), "frame: no shared non-atomic state is modified");
}
pub fn setup<const P: u32>() {
    unsafe { FRAME = P == 7 || P == 13 || P == 19 };
}
pub fn stop() {
    m().mode = Mode::Off;
}
pub fn reset_call() {
    let m = m();
    m.n_own = 0;
    m.saw_end = pos() == m.len;
    m.ops = 0;
    m.cas_fail = 0;
}

/// own atomic operations of a single pull (with at most one spuriously failing CAS)
pub const OPS: u32 = 8;

pub struct Start {
    pub pos: usize,
}

/// Ensures clause of a pull: `begin` (when reported) and `k` elements from position `m.from` are delivered.
pub fn ensures_some<const P: u32>(start: &Start, begin: Option<usize>, k: usize, n: usize) {
    let m = m();
    ck!(P, [1, 4, 6, 12, 13, 16, 17, 18, 19], m.n_own == 1, "pull: delivers with exactly one atomic change of the position");
    ck!(P, [1, 4, 6, 12, 13, 16, 17, 18, 19], m.n_own != 1 || m.to - m.from == k, "pull: the number of delivered elements is the own advance of the position");
    if let Some(b) = begin {
        ck!(P, [1, 2, 3, 4, 6, 12, 13, 16, 17, 19], m.n_own != 1 || b == m.from, "pull: reported begin index is the position the pull advanced from");
    }
    ck!(P, [1, 3, 12, 13, 16, 17], k >= 1, "pull: never an empty chunk");
    ck!(P, [3, 13, 16, 17], k <= n, "pull: at most as many elements as requested");
    ck!(P, [3, 13, 16, 17], k == n || m.n_own != 1 || m.to == m.len, "pull: fewer elements than requested only at the end of the source");
    ck!(P, [4, 19], !m.frozen || m.from == start.pos, "pull: delivers from the current position on");
    ck!(P, [1, 4, 5, 6, 12, 13, 16, 17], start.pos < m.len, "pull: nothing is delivered after the end");
    ensures_any::<P>(start);
}
pub fn ensures_none<const P: u32>(start: &Start, n: usize) {
    let m = m();
    if n > 0 {
        ck!(P, [1, 3, 4, 5, 12, 13, 16, 17, 18, 19], m.saw_end, "pull: reports the end only when the position is at the end");
        ck!(P, [1, 4, 5, 11, 12, 13, 16, 17], pos() == m.len, "pull: after the end is reported the position is at the end");
    } else {
        ck!(P, [3, 13, 16, 17], pos() == start.pos || !m.frozen, "empty pull: leaves the iterator unchanged");
    }
    ck!(P, [1, 4, 6, 12, 13, 16, 17, 18, 19], m.n_own == 0, "pull: no position is lost when it reports the end");
    ensures_any::<P>(start);
}
pub fn ensures_any<const P: u32>(start: &Start) {
    let m = m();
    ck!(P, [1, 4, 5, 6, 7, 8, 11, 12, 13, 16, 17, 18, 19], !m.bad_mono, "guarantee: the position never decreases");
    ck!(P, [1, 4, 5, 6, 11, 12, 13, 16, 17], start.pos < m.len || pos() == m.len, "the end is permanent");
    ck!(P, [9], !m.frozen || m.ops <= OPS, "progress: bounded number of own steps when all other threads are suspended");
    stop();
}

/// next / next_id_and_value / values / ids_and_values / fetch_one
pub fn single<K: Kind, const P: u32, const METHOD: u8>(frozen: bool) {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, frozen);
    let start = Start { pos: pos() };
    let (idx, x) = match METHOD {
        0 => (None, it.next()),
        1 => match it.next_id_and_value() {
            Some(x) => (Some(x.idx), Some(x.value)),
            None => (None, None),
        },
        2 => (None, it.values().next()),
        3 => match it.ids_and_values().next() {
            Some((i, x)) => (Some(i), Some(x)),
            None => (None, None),
        },
        _ => match it.fetch_one() {
            Some(x) => (Some(x.idx), Some(x.value)),
            None => (None, None),
        },
    };
    match x {
        Some(x) => {
            let from = m().from;
            ensures_some::<P>(&start, idx, 1, 1);
            if let Some(i) = idx {
                ck!(P, [2, 12, 13, 16, 17], K::is(&x, &src, i), "pull: the element is the source element at the reported index");
            }
            ck!(P, [1, 3, 4, 6, 12, 13, 16, 17, 19], K::is(&x, &src, from), "pull: the element is the source element at the position the pull advanced from");
            kani::cover!(true, "COVER some");
            forget(x);
        }
        None => {
            ensures_none::<P>(&start, 1);
            kani::cover!(true, "COVER none");
        }
    }
    frame::<P>(&src);
    forget(it);
}

/// number of elements drawn from a chunk of symbolic length
pub const DRAW: usize = 3;
/// the properties about the contents of chunks draw one element more
pub const fn draw(p: u32) -> usize {
    if p == 3 || p == 13 {
        DRAW
    } else {
        DRAW - 1
    }
}

pub fn check_chunk<K: Kind, const P: u32>(
    start: &Start,
    src: &Src,
    n: usize,
    c: NextChunk<K::Item, impl ExactSizeIterator<Item = K::Item>>,
) {
    let mut values = c.values;
    let k = values.len();
    let (from, own) = (m().from, m().n_own == 1);
    ensures_some::<P>(start, Some(c.begin_idx), k, n);
    ck!(P, [3, 13, 16, 17], values.size_hint() == (k, Some(k)), "chunk: announced length is exact (size_hint)");
    let mut i = 0;
    while i < draw(P) {
        match values.next() {
            Some(x) => {
                ck!(P, [1, 3, 12, 13, 16, 17], i < k, "chunk: not more elements than announced");
                ck!(P, [2, 3, 12, 13, 16, 17], K::is(&x, src, c.begin_idx.wrapping_add(i)), "chunk: the i-th element is the source element at begin index + i");
                ck!(P, [1, 4, 6, 12, 19], !own || K::is(&x, src, from.wrapping_add(i)), "chunk: the i-th element is the source element at the position advanced from + i");
                forget(x);
            }
            None => {
                ck!(P, [1, 3, 12, 13, 16, 17], i >= k, "chunk: not fewer elements than announced");
                break;
            }
        }
        i += 1;
        ck!(P, [3, 13, 16, 17], values.len() == k.wrapping_sub(i), "chunk: remaining length is exact");
    }
    kani::cover!(i == k && i > 0, "COVER chunk drawn to its end");
    kani::cover!(k > 100, "COVER long chunk");
    forget(values);
}

pub fn any_n(zero: bool) -> usize {
    let n: usize = kani::any();
    kani::assume(n >= 1 || zero);
    n
}

/// next_chunk / fetch_n
pub fn chunk<K: Kind, const P: u32, const FETCH: bool>(zero: bool, frozen: bool) {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, frozen);
    let n = any_n(zero);
    let start = Start { pos: pos() };
    if !FETCH {
        let c = it.next_chunk(n);
        match c {
            Some(c) => check_chunk::<K, P>(&start, &src, n, c),
            None => {
                ensures_none::<P>(&start, n);
                kani::cover!(true, "COVER none");
            }
        }
    } else {
        let c = it.fetch_n(n);
        match c {
            Some(c) => check_chunk::<K, P>(&start, &src, n, c),
            None => {
                ensures_none::<P>(&start, n);
                kani::cover!(true, "COVER none");
            }
        }
    }
    frame::<P>(&src);
    forget(it);
}

/// buffered iterator; the buffer may have been used before, and the previous chunk consumed only partly
pub fn buffered<K: Kind, const P: u32>(frozen: bool) {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, frozen);
    let n = any_n(false);
    {
        let mut buf = it.buffered_iter(n);
        if kani::any() {
            if let Some(c) = buf.next() {
                let mut v = c.values;
                if kani::any() {
                    forget(v.next());
                }
                forget(v);
            }
            reset_call();
        }
        let start = Start { pos: pos() };
        let c = buf.next();
        match c {
            Some(c) => check_chunk::<K, P>(&start, &src, n, c),
            None => {
                ensures_none::<P>(&start, n);
                kani::cover!(true, "COVER none");
            }
        }
    }
    frame::<P>(&src);
    forget(it);
}
