//! Sources of known length with symbolic contents, lengths and positions.
use orx_concurrent_iter::iter::atomic_iter::AtomicIter;
use orx_concurrent_iter::*;
use std::alloc::{alloc, Layout};
use std::mem::size_of;

pub type E = u8;

/// take witnesses for the frame conditions
pub static mut FRAME: bool = false;

/// element whose clones are distinguishable
#[repr(transparent)]
pub struct Ce(pub u8);
pub const CLONED: u8 = 0x55;
impl Clone for Ce {
    fn clone(&self) -> Self {
        crate::mon::user_code();
        Ce(self.0 ^ CLONED)
    }
}

#[derive(Clone, Copy)]
pub struct Src {
    /// elements in memory (null for ranges)
    pub base: *const E,
    pub start: usize,
    pub len: usize,
    /// a witness element and its content, for the frame condition
    pub w: usize,
    pub w_val: E,
}

impl Src {
    fn mem(base: *const E, len: usize) -> Self {
        let (mut w, mut w_val) = (0, 0);
        if unsafe { FRAME } && len > 0 {
            w = kani::any();
            kani::assume(w < len);
            w_val = unsafe { *base.add(w) };
        }
        Src { base, start: 0, len, w, w_val }
    }
    /// content of the source at the witness position is as it was
    pub fn witness_unchanged(&self) -> bool {
        let frame = unsafe { FRAME };
        !frame || self.base.is_null() || self.len == 0 || unsafe { *self.base.add(self.w) } == self.w_val
    }
}

pub trait Kind {
    type Item: Send + Sync;
    type It: ConcurrentIter<Item = Self::Item> + AtomicIter<Self::Item>;
    /// elements are moved out of the source
    const CONSUMING: bool;
    /// elements in memory
    const MEM: bool = true;
    /// number of different constructors
    const CONSTRUCTORS: u8;
    fn make(constructor: u8) -> (Self::It, Src);
    /// `x` is the element of `src` at position `p`
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool;
    /// what identifies the element at position `p`, and the element `x` (valid also when the source is gone)
    fn at(src: &Src, p: usize) -> usize {
        unsafe { *src.base.add(p) as usize }
    }
    fn val(x: &Self::Item) -> usize;
}

pub fn alloc_elements(len: usize) -> *const E {
    if len == 0 {
        return std::ptr::NonNull::dangling().as_ptr();
    }
    let p = unsafe { alloc(Layout::from_size_align_unchecked(len * size_of::<E>(), 1)) } as *const E;
    kani::assume(!p.is_null());
    p
}

pub fn any_slice() -> &'static [E] {
    let len: usize = kani::any();
    // largest object CBMC can address
    kani::assume(len <= 1 << 40);
    let p = alloc_elements(len);
    unsafe { std::slice::from_raw_parts(p, len) }
}

pub struct KSlice;
impl Kind for KSlice {
    type Item = &'static E;
    type It = ConIterOfSlice<'static, E>;
    const CONSUMING: bool = false;
    const CONSTRUCTORS: u8 = 4;
    fn make(constructor: u8) -> (Self::It, Src) {
        let s = any_slice();
        let it = match constructor {
            0 => ConIterOfSlice::new(s),
            1 => IntoConcurrentIter::into_con_iter(s),
            2 => ConIterOfSlice::from(s),
            _ => {
                let v: &'static Vec<E> = Box::leak(Box::new(unsafe { Vec::from_raw_parts(s.as_ptr() as *mut E, s.len(), s.len()) }));
                ConcurrentIterable::con_iter(v)
            }
        };
        (it, Src::mem(s.as_ptr(), s.len()))
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && std::ptr::eq(*x, src.base.wrapping_add(p))
    }
    fn at(src: &Src, p: usize) -> usize {
        src.base.wrapping_add(p) as usize
    }
    fn val(x: &Self::Item) -> usize {
        *x as *const E as usize
    }
}

pub struct KVec;
impl Kind for KVec {
    type Item = E;
    type It = ConIterOfVec<E>;
    const CONSUMING: bool = true;
    const CONSTRUCTORS: u8 = 3;
    fn make(constructor: u8) -> (Self::It, Src) {
        let s = any_slice();
        let v = unsafe { Vec::from_raw_parts(s.as_ptr() as *mut E, s.len(), s.len()) };
        let it = match constructor {
            0 => ConIterOfVec::new(v),
            1 => IntoConcurrentIter::into_con_iter(v),
            _ => ConIterOfVec::from(v),
        };
        (it, Src::mem(s.as_ptr(), s.len()))
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && *x == unsafe { *src.base.add(p) }
    }
    fn val(x: &Self::Item) -> usize {
        *x as usize
    }
}

pub struct KArr<const N: usize>;
impl<const N: usize> Kind for KArr<N> {
    type Item = E;
    type It = ConIterOfArray<N, E>;
    const CONSUMING: bool = true;
    const CONSTRUCTORS: u8 = 3;
    fn make(constructor: u8) -> (Self::It, Src) {
        let p = alloc_elements(N) as *const [E; N];
        let a: [E; N] = unsafe { *p };
        let it = match constructor {
            0 => ConIterOfArray::new(a),
            1 => IntoConcurrentIter::into_con_iter(a),
            _ => ConIterOfArray::from(a),
        };
        (it, Src::mem(p as *const E, N))
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && *x == unsafe { *src.base.add(p) }
    }
    fn val(x: &Self::Item) -> usize {
        *x as usize
    }
}

pub struct KRange;
impl Kind for KRange {
    type Item = usize;
    type It = ConIterOfRange<usize>;
    const CONSUMING: bool = false;
    const MEM: bool = false;
    const CONSTRUCTORS: u8 = 4;
    fn make(constructor: u8) -> (Self::It, Src) {
        let start: usize = kani::any();
        let end: usize = kani::any();
        let len = if start < end { end - start } else { 0 };
        let it = match constructor {
            0 => ConIterOfRange::new(start..end),
            1 => ConcurrentIterable::con_iter(&(start..end)),
            2 => IntoConcurrentIter::into_con_iter(start..end),
            _ => ConIterOfRange::from(start..end),
        };
        (it, Src { base: std::ptr::null(), start, len, w: 0, w_val: 0 })
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && *x == src.start + p
    }
    fn at(src: &Src, p: usize) -> usize {
        src.start + p
    }
    fn val(x: &Self::Item) -> usize {
        *x
    }
}

pub struct KCloned;
impl Kind for KCloned {
    type Item = Ce;
    type It = Cloned<'static, Ce, ConIterOfSlice<'static, Ce>>;
    const CONSUMING: bool = false;
    const CONSTRUCTORS: u8 = 1;
    fn make(_: u8) -> (Self::It, Src) {
        let s = any_slice();
        let e = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const Ce, s.len()) };
        (IntoCloned::cloned(ConIterOfSlice::new(e)), Src::mem(s.as_ptr(), s.len()))
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && x.0 == unsafe { *src.base.add(p) } ^ CLONED
    }
    fn val(x: &Self::Item) -> usize {
        (x.0 ^ CLONED) as usize
    }
}

pub struct KCopied;
impl Kind for KCopied {
    type Item = E;
    type It = Copied<'static, E, ConIterOfSlice<'static, E>>;
    const CONSUMING: bool = false;
    const CONSTRUCTORS: u8 = 1;
    fn make(_: u8) -> (Self::It, Src) {
        let (it, src) = KSlice::make(0);
        (IntoCopied::copied(it), src)
    }
    fn is(x: &Self::Item, src: &Src, p: usize) -> bool {
        p < src.len && *x == unsafe { *src.base.add(p) }
    }
    fn val(x: &Self::Item) -> usize {
        *x as usize
    }
}

/// bound of the domain where no arithmetic on positions can reach the largest value
pub const ORD: usize = usize::MAX / 4;
