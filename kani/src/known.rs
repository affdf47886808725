//! Contracts of the remaining operations of iterators over sources of known length.
use crate::kinds::*;
use crate::mon::*;
use crate::pull::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::mem::forget;

/// try_get_len / has_more
pub fn lens<K: Kind, const P: u32, const METHOD: u8>() {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, false);
    let before = src.len - pos();
    let l = if METHOD == 0 {
        it.try_get_len()
    } else {
        match it.has_more() {
            HasMore::Yes(x) => {
                ck!(P, [11, 5, 13], x > 0, "has_more: Yes only with a positive number");
                Some(x)
            }
            HasMore::No => Some(0),
            HasMore::Maybe => None,
        }
    };
    let after = src.len - pos();
    match l {
        Some(l) => {
            ck!(P, [5, 6], before > 0 || l == 0, "length: no remaining elements after the end");
            ck!(P, [11, 13, 16, 17], l <= before, "length: not more than the remaining elements at the start of the query");
            ck!(P, [11, 13, 16, 17], l >= after, "length: not less than the remaining elements at the end of the query");
        }
        None => ck!(P, [11, 13, 16, 17], false, "length: always known for a source of known length"),
    }
    ck!(P, [5, 11, 13], m().n_own == 0 && !m().bad_mono, "length: the query does not change the iterator");
    ck!(P, [9], m().ops <= OPS, "progress: bounded number of own steps");
    kani::cover!(l == Some(0), "COVER no remaining element");
    kani::cover!(src.len == 0 || (l.is_some() && l.unwrap() > 0), "COVER remaining elements");
    stop();
    frame::<P>(&src);
    forget(it);
}

/// skip_to_end
pub fn skip<K: Kind, const P: u32>() {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, false);
    let start = Start { pos: pos() };
    it.skip_to_end();
    ck!(P, [5, 6, 11, 13, 16, 17], pos() == src.len, "skip_to_end: the position is at the end");
    ck!(P, [1, 4, 6, 7, 13, 16, 17, 8], !m().bad_mono, "guarantee: the position never decreases");
    ck!(P, [1, 6, 8, 13, 16, 17], m().n_own <= 1, "skip_to_end: at most one change of the position");
    kani::cover!(src.len == 0 || start.pos < src.len, "COVER elements to be skipped");
    if P == 6 || P == 11 || P == 13 {
        kani::assert(it.try_get_len() == Some(0), "skip_to_end: no remaining elements afterwards");
        kani::assert(it.has_more() == HasMore::No, "skip_to_end: has_more is No afterwards");
        reset_call();
        let x = it.next();
        kani::assert(x.is_none(), "skip_to_end: next reports the end afterwards");
        forget(x);
        kani::assert(pos() == src.len, "skip_to_end: the end is permanent");
    }
    stop();
    frame::<P>(&src);
    forget(it);
}

/// a new iterator is at the beginning of its source, whichever way it is created
pub fn fresh<K: Kind, const P: u32>() {
    setup::<P>();
    let c: u8 = kani::any();
    kani::assume(c < K::CONSTRUCTORS);
    let (it, src) = K::make(c);
    let m = m();
    m.mode = Mode::Known;
    m.frozen = true;
    m.ra = it.counter() as *const AtomicCounter as *mut usize;
    m.len = src.len;
    reset_call();
    if unsafe { FRAME } {
        watch(&it);
    }
    ck!(P, [1, 2, 11, 16, 19], pos() == 0, "new: the position is at the beginning");
    ck!(P, [11, 16, 19], it.try_get_len() == Some(src.len), "new: the remaining elements are the elements of the source");
    let x = it.next_id_and_value();
    match x {
        Some(x) => {
            ck!(P, [1, 2, 16, 19], x.idx == 0 && K::is(&x.value, &src, 0), "new: the first pull delivers the first element of the source");
            forget(x);
            kani::cover!(true, "COVER some");
        }
        None => ck!(P, [1, 2, 16, 19], src.len == 0, "new: the first pull delivers the first element of the source"),
    }
    stop();
    frame::<P>(&src);
    forget(it);
}

/// clone of an iterator over references or a range
pub fn clone<K: Kind, const P: u32>()
where
    K::It: Clone,
{
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, false);
    let before = pos();
    let cl = it.clone();
    let after = pos();
    kani::assert(m().n_own == 0, "clone: does not change the original");
    let clone_counter = cl.counter() as *const AtomicCounter as *const usize;
    let cp = unsafe { *clone_counter }.min(src.len);
    kani::assert(before <= cp && cp <= after, "clone: starts at the current position of the original");
    kani::assert(!std::ptr::eq(clone_counter, m().ra as *const usize), "clone: has its own position");
    // pulling from the clone
    m().frozen = true;
    reset_call();
    let x = cl.next_id_and_value();
    kani::assert(m().n_own == 0 && pos() == after, "clone: pulling from it does not change the original");
    match x {
        Some(x) => {
            kani::assert(x.idx == cp && K::is(&x.value, &src, cp), "clone: delivers the elements of the source of the original from its own position on");
            kani::cover!(true, "COVER some");
        }
        None => kani::assert(cp == src.len, "clone: delivers the elements of the source of the original from its own position on"),
    }
    // pulling from the original
    let cp = unsafe { *clone_counter };
    let n = any_n(false);
    if let Some(c) = it.next_chunk(n) {
        kani::assert(c.begin_idx == after && K::is(&c.values.into_iter().next().unwrap(), &src, after), "clone: the original delivers its elements as if it had not been cloned");
    } else {
        kani::assert(after == src.len, "clone: the original delivers its elements as if it had not been cloned");
    }
    kani::assert(unsafe { *clone_counter } == cp, "clone: pulling from the original does not change it");
    kani::assert(cl.try_get_len() == Some(src.len - cp.min(src.len)), "clone: remaining length");
    stop();
    frame::<P>(&src);
    forget(it);
    forget(cl);
}

/// two iterators over the same collection
pub fn independent<const P: u32>() {
    setup::<P>();
    let s = any_slice();
    let v: Vec<E> = unsafe { Vec::from_raw_parts(s.as_ptr() as *mut E, s.len(), s.len()) };
    {
        let a = v.con_iter();
        let b = v.con_iter();
        let m = m();
        m.frozen = true;
        let (ca, cb): (usize, usize) = (kani::any(), kani::any());
        a.counter().store(ca);
        b.counter().store(cb);
        m.ra = a.counter() as *const AtomicCounter as *mut usize;
        m.len = s.len();
        m.mode = Mode::Known;
        reset_call();
        let n = any_n(false);
        match b.next_chunk(n) {
            Some(c) => {
                let x = c.values.into_iter().next();
                kani::assert(c.begin_idx == cb, "independent: delivers from the own position on");
                kani::assert(x.is_some() && std::ptr::eq(x.unwrap(), s.as_ptr().wrapping_add(cb)), "independent: delivers references to the elements of the collection");
                kani::cover!(true, "COVER some");
            }
            None => kani::assert(cb >= s.len(), "independent: delivers from the own position on"),
        }
        b.skip_to_end();
        kani::assert(m.n_own == 0 && a.try_get_len() == Some(s.len() - ca.min(s.len())), "independent: pulls and skips of one iterator do not change another one");
        stop();
    }
    kani::assert(v.len() == s.len() && std::ptr::eq(v.as_ptr(), s.as_ptr()), "independent: the collection is as it was");
    forget(v);
}

/// into_seq_iter from an arbitrary state
pub fn into_seq<K: Kind, const P: u32>() {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, true);
    let p = pos();
    check_seq::<K, P>(&src, p, it);
}
pub fn check_seq<K: Kind, const P: u32>(src: &Src, p: usize, it: K::It) {
    let rem = src.len - p;
    // witness: one of the first undelivered elements
    let w: usize = kani::any();
    kani::assume(w < DRAW);
    let w_at = if w < rem { K::at(src, p + w) } else { 0 };
    stop();
    let mut seq = it.into_seq_iter();
    let (lo, hi) = seq.size_hint();
    ck!(P, [10, 13, 16, 17], lo <= rem && (hi.is_none() || rem <= hi.unwrap()), "into_seq_iter: size hint admits the number of undelivered elements");
    let mut i = 0;
    while i < DRAW {
        match seq.next() {
            Some(x) => {
                ck!(P, [10, 13, 16, 17, 19], i < rem && (i != w || K::val(&x) == w_at), "into_seq_iter: the i-th element is the i-th undelivered element");
                forget(x);
            }
            None => {
                ck!(P, [10, 13, 16, 17], i == rem, "into_seq_iter: all undelivered elements are yielded");
                break;
            }
        }
        i += 1;
    }
    kani::cover!(i == 2, "COVER drawn to the end");
    kani::cover!(p > 0 && i == DRAW, "COVER several remaining elements");
    forget(seq);
}

// ---- suspension of an operation at an arbitrary point

static mut NEST: Option<fn()> = None;
static mut NEST_IT: *const () = std::ptr::null();
/// own atomic operations of a pull
const NEST_OPS: u32 = 8;

pub fn nest_point() {
    let m = m();
    if m.nested {
        m.all_ops += 1;
        if m.all_ops > NEST_OPS {
            kani::assert(false, "progress: a pull completes in a bounded number of steps while another operation is suspended");
            kani::assume(false);
        }
        return;
    }
    if m.all_ops == m.nest_at {
        m.nested = true;
        m.all_ops = 0;
        unsafe { NEST.unwrap()() };
        kani::cover!(true, "COVER suspended");
        kani::assume(false);
    }
    m.all_ops += 1;
}

fn run_op<K: Kind, const OP: u8>(it: &K::It) {
    match OP {
        0 => forget(it.next()),
        1 => {
            if let Some(c) = it.next_chunk(any_n(false)) {
                let mut v = c.values;
                forget(v.next());
                forget(v);
            }
        }
        2 => {
            let mut buf = it.buffered_iter(any_n(false));
            if let Some(c) = buf.next() {
                let mut v = c.values;
                forget(v.next());
                forget(v);
            }
            forget(buf);
        }
        3 => it.skip_to_end(),
        _ => forget(it.try_get_len()),
    }
}
fn nested_op<K: Kind, const OP: u8>() {
    let it = unsafe { &*(NEST_IT as *const K::It) };
    run_op::<K, OP>(it);
}

/// Operation A (4: any of them) is suspended for ever before any of its atomic operations or calls of a clone function;
/// operation B completes.
pub fn suspend<K: Kind, const A: u8, const B: u8>() {
    setup::<9>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, true);
    stop();
    unsafe {
        NEST = Some(nested_op::<K, B>);
        NEST_IT = &it as *const K::It as *const ();
    }
    m().nest = true;
    m().nest_at = kani::any();
    kani::assume(m().nest_at < 6);
    let a: u8 = if A == 4 { kani::any() } else { A };
    match a {
        0 => run_op::<K, 0>(&it),
        1 => run_op::<K, 1>(&it),
        2 => run_op::<K, 2>(&it),
        _ => run_op::<K, 3>(&it),
    }
    m().nest = false;
    forget(it);
}

// ---- for_each, enumerate_for_each, fold

/// number of remaining elements at the start of a call
pub const REM: usize = 2;

pub fn for_each<K: Kind, const P: u32, const METHOD: u8>() {
    setup::<P>();
    let (it, src) = K::make(0);
    arbitrary_state::<K>(&it, &src, false);
    kani::assume(src.len - pos() <= REM);
    m().g = kani::any();
    kani::assume(m().g < src.len || src.len == 0);
    m().limit_cas = false;
    let n = any_n(false);
    let g = m().g;
    // visits of the witness element, all visits
    let (mut vg, mut v) = (0u8, 0usize);
    match METHOD {
        0 => it.for_each(n, |x| {
            let p = m().to_deliver(v);
            kani::assert(K::is(&x, &src, p), "for_each: the function is called for each of the pulled elements in order");
            if p == g {
                vg += 1;
            }
            v += 1;
            forget(x);
        }),
        1 => it.enumerate_for_each(n, |i, x| {
            kani::assert(K::is(&x, &src, i), "enumerate_for_each: the element is the source element at the given index");
            if i == g {
                vg += 1;
            }
            v += 1;
            forget(x);
        }),
        _ => {
            let r = it.fold(n, 0usize, |acc, x| {
                let p = m().to_deliver(v);
                kani::assert(K::is(&x, &src, p), "fold: the function is called for each of the pulled elements in order");
                kani::assert(acc == v, "fold: the accumulator is the result of the previous call");
                if p == g {
                    vg += 1;
                }
                v += 1;
                forget(x);
                v
            });
            kani::assert(r == v, "fold: the result is the result of the last call, or the neutral element");
        }
    }
    let m = m();
    kani::assert(vg == m.own_g, "each: called exactly once for each element which is pulled by the call");
    kani::assert(v == m.own_total, "each: called as many times as elements are pulled by the call");
    kani::assert(pos() == src.len, "each: the iterator is exhausted at return");
    kani::assert(!m.bad_mono, "guarantee: the position never decreases");
    kani::cover!(vg == 1 && v == REM, "COVER all remaining elements visited");
    kani::cover!(v == 0, "COVER no element left");
    stop();
    forget(it);
}

// ---- documented panics

pub fn panics<K: Kind, const OP: u8>() {
    setup::<16>();
    let (it, _src) = K::make(0);
    it.counter().store(kani::any());
    match OP {
        0 => {
            let b = it.buffered_iter(0);
            forget(b);
        }
        1 => it.for_each(0, |x| forget(x)),
        2 => it.enumerate_for_each(0, |_, x| forget(x)),
        _ => {
            let _ = it.fold(0, 0usize, |a, x| {
                forget(x);
                a
            });
        }
    }
    kani::cover!(true, "NEVER returns");
    forget(it);
}
