//! Ownership of the elements: a ledger of destructor calls.
use crate::kinds::*;
use crate::mon::*;
use crate::pull::*;
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::mem::forget;

pub const LEN: usize = 3;
static mut COUNT: [u8; LEN] = [0; LEN];

/// element with a destructor
pub struct D(pub u8);
impl Drop for D {
    fn drop(&mut self) {
        unsafe {
            kani::assert((self.0 as usize) < LEN, "ledger: only elements are dropped");
            kani::assert(COUNT[self.0 as usize] == 0, "ledger: no element is dropped twice");
            COUNT[self.0 as usize] += 1;
        }
    }
}

/// positions p..q are moved out to other threads
pub fn env_moves(p: usize, q: usize) {
    let mut i = 0;
    while i < LEN {
        if p <= i && i < q {
            unsafe { COUNT[i] += 1 };
        }
        i += 1;
    }
}

pub trait Owner {
    type It: ConcurrentIter<Item = D> + AtomicIter<D>;
    const L: usize;
    fn make() -> Self::It;
}
pub struct OVec<const N: usize>;
impl<const N: usize> Owner for OVec<N> {
    type It = ConIterOfVec<D>;
    const L: usize = N;
    fn make() -> Self::It {
        let mut v = Vec::with_capacity(N);
        let mut i = 0;
        while i < N {
            v.push(D(i as u8));
            i += 1;
        }
        v.into_con_iter()
    }
}
pub struct OArr<const N: usize>;
impl<const N: usize> Owner for OArr<N> {
    type It = ConIterOfArray<N, D>;
    const L: usize = N;
    fn make() -> Self::It {
        std::array::from_fn(|i| D(i as u8)).into_con_iter()
    }
}

/// One operation from an arbitrary state under interference, then drop or into_seq_iter: each element is moved out or dropped exactly once.
pub fn ledger<O: Owner, const OP: u8, const SEQ: bool>() {
    let it = O::make();
    // elements before the current position are already moved out
    let c: usize = kani::any();
    it.counter().store(c);
    env_moves(0, c.min(O::L));
    let m = m();
    m.mode = Mode::Known;
    m.frozen = false;
    m.ra = it.counter() as *const AtomicCounter as *mut usize;
    m.len = O::L;
    m.cap = usize::MAX;
    m.ledger = true;
    match OP {
        0 => drop(it.next()),
        1 => {
            let n = any_n(true);
            if let Some(c) = it.next_chunk(n) {
                let mut v = c.values;
                if kani::any() {
                    drop(v.next());
                }
            }
        }
        2 => {
            let mut b = it.buffered_iter(any_n(false));
            if let Some(c) = b.next() {
                let mut v = c.values;
                if kani::any() {
                    drop(v.next());
                }
            };
        }
        3 => it.skip_to_end(),
        4 => drop(it.ids_and_values().next()),
        _ => {}
    }
    stop();
    if SEQ {
        let mut seq = it.into_seq_iter();
        if kani::any() {
            drop(seq.next());
        }
    } else {
        drop(it);
    }
    let mut i = 0;
    while i < O::L {
        kani::assert(unsafe { COUNT[i] } == 1, "ledger: each element is moved out or dropped exactly once");
        i += 1;
    }
    kani::cover!(c < O::L, "COVER elements left");
}

/// The wrapped iterator owns the elements.
pub fn wrapped<const OP: u8, const SEQ: bool>() {
    let mut v = Vec::with_capacity(LEN);
    let mut i = 0;
    while i < LEN {
        v.push(D(i as u8));
        i += 1;
    }
    use_up::<_, OP, SEQ>(v.into_iter().into_con_iter());
    let mut i = 0;
    while i < LEN {
        kani::assert(unsafe { COUNT[i] } == 1, "ledger: each element is moved out or dropped exactly once");
        i += 1;
    }
}

// ---- memory

/// `n` boxed elements
fn boxes<const N: usize>() -> Vec<Box<u8>> {
    let mut v = Vec::with_capacity(N);
    let mut i = 0;
    while i < N {
        v.push(Box::new(i as u8));
        i += 1;
    }
    v
}

pub const LK: usize = 2;
pub fn leak_vec<const OP: u8, const SEQ: bool>() {
    use_up::<_, OP, SEQ>(boxes::<LK>().into_con_iter());
}
pub fn leak_arr<const OP: u8, const SEQ: bool>() {
    let a: [Box<u8>; LK] = std::array::from_fn(|i| Box::new(i as u8));
    use_up::<_, OP, SEQ>(a.into_con_iter());
}
pub fn leak_iter<const OP: u8, const SEQ: bool>() {
    use_up::<_, OP, SEQ>(boxes::<LK>().into_iter().into_con_iter());
}
pub fn leak_cloned<const OP: u8, const SEQ: bool>() {
    let v = boxes::<LK>();
    use_up::<_, OP, SEQ>(v.con_iter().cloned());
}

fn use_up<I: ConcurrentIter, const OP: u8, const SEQ: bool>(it: I) {
    if kani::any() {
        drop(it.next());
    }
    match OP {
        0 => drop(it.next()),
        1 => {
            if let Some(c) = it.next_chunk(2) {
                let mut v = c.values;
                if kani::any() {
                    drop(v.next());
                }
            }
        }
        2 => {
            let mut b = it.buffered_iter(2);
            if let Some(c) = b.next() {
                let mut v = c.values;
                if kani::any() {
                    drop(v.next());
                }
            };
            if kani::any() {
                drop(b.next());
            }
        }
        3 => it.skip_to_end(),
        _ => {}
    }
    if SEQ {
        let mut seq = it.into_seq_iter();
        if kani::any() {
            drop(seq.next());
        }
    } else {
        drop(it);
    }
    kani::cover!(true, "COVER end");
}

/// Elements without destructor: vectors of any length and capacity, iterators in any state, any chunk size.
pub fn release_vec<const OP: u8, const SEQ: bool>() {
    let (len, cap): (usize, usize) = (kani::any(), kani::any());
    kani::assume(len <= cap && cap <= 1 << 40);
    let v: Vec<u8> = if cap == 0 {
        Vec::new()
    } else {
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(cap, 1)) };
        kani::assume(!p.is_null());
        unsafe { Vec::from_raw_parts(p, len, cap) }
    };
    release::<_, OP, SEQ>(v.into_con_iter());
}
pub fn release_arr<const OP: u8, const SEQ: bool>() {
    let a: [u8; 5] = kani::any();
    release::<_, OP, SEQ>(a.into_con_iter());
}
fn release<I: ConcurrentIter + AtomicIter<I::Item>, const OP: u8, const SEQ: bool>(it: I) {
    it.counter().store(kani::any());
    match OP {
        0 => drop(it.next()),
        1 => drop(it.next_chunk(kani::any())),
        2 => {
            let n: usize = kani::any();
            kani::assume(n > 0);
            let mut b = it.buffered_iter(n);
            if let Some(c) = b.next() {
                let mut v = c.values;
                drop(v.next());
            };
        }
        3 => it.skip_to_end(),
        _ => {}
    }
    if SEQ {
        let mut seq = it.into_seq_iter();
        if kani::any() {
            drop(seq.next());
        }
    } else {
        drop(it);
    }
    kani::cover!(true, "COVER end");
}
