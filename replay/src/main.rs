//! Looks for a concrete failing input on the real code, after the verifier has rejected an obligation.
//!
//! replay seq <first seed> <count>      sequential histories against an oracle (native, or under Miri)
//! replay conc <first program> <count>  concurrent programs (under Miri: one interleaving per Miri seed)
//! replay large <first seed> <count>    sequential histories of large sources, chunk sizes and ranges
//! replay stress <rounds> <kind>        threads which query and pull past the end, many times
//! replay suspend <rounds>              a thread is suspended at arbitrary points, others must go on
//! replay panics <first seed> <count>   panics of wrapped iterators, clones and closures
//!
//! A finding is printed as: FOUND tags=<property numbers> <description>
use orx_concurrent_iter::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering};

mod conc;
mod large;
mod panics;
mod seq;
mod stress;
mod suspend;

// ---- allocations

struct Counting;
// of the thread: the sequential histories are run by one thread
thread_local!(static LIVE_BYTES: Cell<isize> = const { Cell::new(0) });
fn count(d: isize) {
    LIVE_BYTES.with(|l| l.set(l.get() + d));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
pub fn live_bytes() -> isize {
    LIVE_BYTES.with(|l| l.get())
}

// ---- tracked elements

pub const MAXLEN: usize = 64;
#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicIsize = AtomicIsize::new(0);
/// created minus dropped, and dropped originals, per element
pub static LIVE: [AtomicIsize; MAXLEN] = [ZERO; MAXLEN];
pub static DROPPED: [AtomicIsize; MAXLEN] = [ZERO; MAXLEN];
pub static CLONE_PANICS_AT: AtomicIsize = AtomicIsize::new(-1);

/// element with a heap allocation and a destructor
#[derive(Debug)]
pub struct Tr {
    id: usize,
    clones: u8,
    heap: Box<usize>,
}
impl Tr {
    pub fn new(id: usize) -> Self {
        LIVE[id].fetch_add(1, Ordering::Relaxed);
        Tr { id, clones: 0, heap: Box::new(id) }
    }
}
impl Clone for Tr {
    fn clone(&self) -> Self {
        if CLONE_PANICS_AT.load(Ordering::Relaxed) == self.id as isize {
            CLONE_PANICS_AT.store(-1, Ordering::Relaxed);
            panic!("planned panic of clone");
        }
        LIVE[self.id].fetch_add(1, Ordering::Relaxed);
        Tr { id: self.id, clones: self.clones + 1, heap: self.heap.clone() }
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        if self.id < MAXLEN {
            LIVE[self.id].fetch_sub(1, Ordering::Relaxed);
            if self.clones == 0 {
                DROPPED[self.id].fetch_add(1, Ordering::Relaxed);
            }
        }
    }
}

/// identity of an element
pub trait Elem: Send + Sync {
    /// source position, or usize::MAX when it is not an element
    fn pos(&self, o: &Oracle) -> usize;
}
impl Elem for Tr {
    fn pos(&self, o: &Oracle) -> usize {
        if *self.heap != self.id || self.clones != o.clones {
            return usize::MAX;
        }
        self.id
    }
}
impl Elem for &Tr {
    fn pos(&self, o: &Oracle) -> usize {
        if *self.heap != self.id || self.clones != 0 {
            return usize::MAX;
        }
        if o.base != 0 && (*self as *const Tr as usize) != o.base + self.id * size_of::<Tr>() {
            return usize::MAX;
        }
        self.id
    }
}
impl Elem for usize {
    fn pos(&self, o: &Oracle) -> usize {
        self.wrapping_sub(o.start)
    }
}
impl Elem for &usize {
    fn pos(&self, o: &Oracle) -> usize {
        self.wrapping_sub(o.start)
    }
}
impl Elem for () {
    fn pos(&self, _: &Oracle) -> usize {
        usize::MAX - 1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Size {
    Known,
    Exact,
    Unknown,
}

#[derive(Clone, Debug)]
pub struct Oracle {
    pub name: String,
    pub len: usize,
    pub start: usize,
    pub base: usize,
    pub clones: u8,
    pub size: Size,
    pub consuming: bool,
}

/// A sequential iterator which is not fused, and records uses after its end.
pub struct Seq<T, F: FnMut(usize) -> T> {
    pub i: usize,
    pub len: usize,
    pub size: Size,
    pub f: F,
    pub ended: bool,
    /// plain memory, for the race detector
    pub touched: Cell<usize>,
    pub panic_at: usize,
}
pub static USED_AFTER_END: AtomicBool = AtomicBool::new(false);
/// the remainder belongs to the caller
pub static REMAINDER: AtomicBool = AtomicBool::new(false);
pub static IN_USE: AtomicUsize = AtomicUsize::new(0);
pub static OVERLAP: AtomicBool = AtomicBool::new(false);
impl<T, F: FnMut(usize) -> T> Iterator for Seq<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if IN_USE.fetch_add(1, Ordering::Relaxed) != 0 {
            OVERLAP.store(true, Ordering::Relaxed);
        }
        self.touched.set(self.touched.get() + 1);
        if self.ended && !REMAINDER.load(Ordering::Relaxed) {
            USED_AFTER_END.store(true, Ordering::Relaxed);
        }
        let i = self.i;
        let r = if i == self.panic_at {
            self.i += 1;
            self.panic_at = usize::MAX;
            IN_USE.fetch_sub(1, Ordering::Relaxed);
            panic!("planned panic of next");
        } else if i < self.len {
            self.i += 1;
            Some((self.f)(i))
        } else {
            self.ended = true;
            None
        };
        IN_USE.fetch_sub(1, Ordering::Relaxed);
        r
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.len - self.i.min(self.len);
        match self.size {
            Size::Unknown => (0, None),
            _ => (n, Some(n)),
        }
    }
}

pub trait Visitor {
    fn visit<I: ConcurrentIter>(self, it: I, o: Oracle)
    where
        I::Item: Elem;
}

pub const KINDS: usize = 13;
/// calls the visitor with an iterator of the given kind
pub fn with_kind<V: Visitor>(kind: usize, len: usize, variant: usize, v: V) {
    let mut o = Oracle { name: String::new(), len, start: 0, base: 0, clones: 0, size: Size::Known, consuming: false };
    let elements = |n: usize| (0..n).map(Tr::new).collect::<Vec<Tr>>();
    let seq_size = if variant % 2 == 0 { Size::Exact } else { Size::Unknown };
    match kind {
        0 => {
            let e = elements(len);
            o.base = e.as_ptr() as usize;
            o.name = format!("slice of length {len}");
            v.visit(e.as_slice().into_con_iter(), o);
            source_intact(&e, len);
        }
        1 => {
            let mut e = elements(len);
            if variant % 2 == 1 {
                e.reserve(5);
            }
            o.consuming = true;
            o.name = format!("vec of length {len}, capacity {}", e.capacity());
            v.visit(e.into_con_iter(), o);
        }
        2 => {
            o.consuming = true;
            o.name = format!("array of length {len}");
            match len {
                0 => v.visit(std::array::from_fn::<Tr, 0, _>(Tr::new).into_con_iter(), o),
                1 => v.visit(std::array::from_fn::<Tr, 1, _>(Tr::new).into_con_iter(), o),
                2 => v.visit(std::array::from_fn::<Tr, 2, _>(Tr::new).into_con_iter(), o),
                3 => v.visit(std::array::from_fn::<Tr, 3, _>(Tr::new).into_con_iter(), o),
                4 => v.visit(std::array::from_fn::<Tr, 4, _>(Tr::new).into_con_iter(), o),
                5 => v.visit(std::array::from_fn::<Tr, 5, _>(Tr::new).into_con_iter(), o),
                _ => {
                    o.len = 9;
                    o.name = "array of length 9".to_string();
                    v.visit(std::array::from_fn::<Tr, 9, _>(Tr::new).into_con_iter(), o)
                }
            }
        }
        3 => {
            let start = match variant % 4 {
                0 => 0,
                1 => 7,
                2 => usize::MAX - len,
                _ => usize::MAX - len - 1,
            };
            o.start = start;
            o.name = format!("range {}..{}", start, start + len);
            v.visit((start..start + len).con_iter(), o);
        }
        4 => {
            let e = elements(len);
            o.clones = 1;
            o.name = format!("cloned slice of length {len}");
            v.visit(e.con_iter().cloned(), o);
            source_intact(&e, len);
        }
        5 => {
            let e: Vec<usize> = (0..len).collect();
            o.name = format!("copied slice of length {len}");
            v.visit(e.con_iter().copied(), o);
        }
        6 => {
            o.consuming = true;
            o.size = seq_size;
            o.name = format!("wrapped iterator of length {len}, {seq_size:?} size");
            let s = Seq { i: 0, len, size: seq_size, f: Tr::new, ended: false, touched: Cell::new(0), panic_at: usize::MAX };
            v.visit(s.into_con_iter(), o);
        }
        7 => {
            let e = elements(len);
            o.clones = 1;
            o.size = seq_size;
            o.name = format!("cloned wrapped iterator of length {len}, {seq_size:?} size");
            let r = &e;
            let s = Seq { i: 0, len, size: seq_size, f: move |i| &r[i], ended: false, touched: Cell::new(0), panic_at: usize::MAX };
            v.visit(s.into_con_iter().cloned(), o);
            source_intact(&e, len);
        }
        8 => {
            let e: Vec<usize> = (0..len).collect();
            o.size = seq_size;
            o.name = format!("copied wrapped iterator of length {len}, {seq_size:?} size");
            let r = &e;
            let s = Seq { i: 0, len, size: seq_size, f: move |i| &r[i], ended: false, touched: Cell::new(0), panic_at: usize::MAX };
            v.visit(s.into_con_iter().copied(), o);
        }
        9 => {
            // inverted range
            o.len = 0;
            o.start = 5;
            o.name = "range 5..2".to_string();
            #[allow(clippy::reversed_empty_ranges)]
            v.visit((5..2).con_iter(), o);
        }
        10 => {
            o.consuming = true;
            o.size = Size::Exact;
            o.name = format!("wrapped vec::IntoIter of length {len}");
            v.visit(IterIntoConcurrentIter::into_con_iter(elements(len).into_iter()), o);
        }
        11 => {
            let e = elements(len);
            o.base = e.as_ptr() as usize;
            o.name = format!("vec.con_iter() of length {len}");
            v.visit(e.con_iter(), o);
            source_intact(&e, len);
        }
        _ => {
            let e: Vec<usize> = (0..len).collect();
            o.consuming = true;
            o.name = format!("vec of numbers of length {len}");
            v.visit(e.into_con_iter(), o);
        }
    }
}

pub static SOURCE_CHANGED: AtomicBool = AtomicBool::new(false);
fn source_intact(e: &[Tr], len: usize) {
    let ok = e.len() == len && e.iter().enumerate().all(|(i, x)| x.id == i && *x.heap == i && x.clones == 0);
    if !ok {
        SOURCE_CHANGED.store(true, Ordering::Relaxed);
    }
}

pub fn reset() {
    for i in 0..MAXLEN {
        LIVE[i].store(0, Ordering::Relaxed);
        DROPPED[i].store(0, Ordering::Relaxed);
    }
    for f in [&REMAINDER, &USED_AFTER_END, &OVERLAP, &SOURCE_CHANGED] {
        f.store(false, Ordering::Relaxed);
    }
    IN_USE.store(0, Ordering::Relaxed);
    CLONE_PANICS_AT.store(-1, Ordering::Relaxed);
}

/// accounting after everything is dropped
pub fn ledger() -> Option<(&'static [u32], String)> {
    for i in 0..MAXLEN {
        let (l, d) = (LIVE[i].load(Ordering::Relaxed), DROPPED[i].load(Ordering::Relaxed));
        if l != 0 || d > 1 {
            return Some((if d > 1 { &[8, 14, 18] } else { &[8, 18] }, format!("element {i}: dropped {d} times, {l} instances not dropped")));
        }
    }
    if USED_AFTER_END.load(Ordering::Relaxed) {
        return Some((&[4, 5, 7, 16], "the wrapped iterator is used after it reported the end".into()));
    }
    if OVERLAP.load(Ordering::Relaxed) {
        return Some((&[7], "next of the wrapped iterator is executed by two threads at the same time".into()));
    }
    if SOURCE_CHANGED.load(Ordering::Relaxed) {
        return Some((&[7, 13, 19], "the source is modified".into()));
    }
    None
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

pub fn found(tags: &[u32], what: String) {
    let t: Vec<String> = tags.iter().map(|x| x.to_string()).collect();
    println!("FOUND tags={} {}", t.join(","), what);
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|_| {}));
}

pub fn caught<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| match e.downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => e.downcast_ref::<&str>().map(|s| s.to_string()).unwrap_or_default(),
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize, d: u64| a.get(i).and_then(|x| x.parse().ok()).unwrap_or(d);
    quiet_panics();
    match a.get(1).map(|x| x.as_str()) {
        Some("seq") => seq::main(n(2, 0), n(3, 1000)),
        Some("conc") => conc::main(n(2, 0), n(3, 10), n(4, 1)),
        Some("large") => large::main(n(2, 0), n(3, 100)),
        Some("stress") => stress::main(n(2, 100), n(3, 0) as usize),
        Some("suspend") => suspend::main(n(2, 200)),
        Some("panics") => panics::main(n(2, 0), n(3, 1000)),
        _ => panic!("usage"),
    }
    println!("DONE");
}
