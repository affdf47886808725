//! Ghost state of a call of for_each / enumerate_for_each / fold, the loop invariants, and the contract of the pulls.
use std::marker::PhantomData;

#[derive(Clone, Copy)]
pub struct Ghost {
    /// length of the source
    pub len: usize,
    /// position of the iterator
    pub pos: usize,
    /// requested chunk size
    pub n: usize,
    /// witness position
    pub w: usize,
    /// elements pulled by this call, drawn from the chunks, given to the function
    pub pulled: usize,
    pub drawn: usize,
    pub visited: usize,
    /// the same for the witness
    pub wp: bool,
    pub wd: bool,
    pub wv: bool,
    /// current chunk: begin index, length, number of drawn elements
    pub live: bool,
    pub begin: usize,
    pub k: usize,
    pub i: usize,
    /// a pull has reported the end
    pub ended: bool,
    /// an element or an accumulator is dropped instead of given to the function
    pub lost: bool,
    /// number of accumulators
    pub accs: usize,
}

pub static mut G: Ghost = Ghost {
    len: 0, pos: 0, n: 0, w: 0, pulled: 0, drawn: 0, visited: 0, wp: false, wd: false, wv: false, live: false, begin: 0, k: 0,
    i: 0, ended: false, lost: false, accs: 0,
};

/// accumulators at the start
pub static mut ACCS: usize = 0;

pub fn ptr() -> *const Ghost {
    &raw const G
}
pub fn g() -> &'static mut Ghost {
    unsafe { &mut *(&raw mut G) }
}
pub fn start() {
    unsafe {
        G = Ghost {
            len: kani::any(), pos: kani::any(), n: kani::any(), w: kani::any(), pulled: 0, drawn: 0, visited: 0, wp: false, wd: false,
            wv: false, live: false, begin: 0, k: 0, i: 0, ended: false, lost: false, accs: 0,
        };
        kani::assume(G.pos <= G.len && G.n >= 1);
    }
}

fn common(g: &Ghost) -> bool {
    g.pos <= g.len
        && g.pulled <= g.pos
        && g.drawn <= g.pulled
        && g.visited == g.drawn
        && g.wv == g.wd
        && (!g.wp || g.w < g.pos)
        && (!g.wd || g.wp)
        && !g.ended
        && !g.lost
        && g.accs == unsafe { ACCS }
}
/// invariant of the loop over the pulls: all that has been pulled has been visited
pub fn inv0(g: *const Ghost) -> bool {
    let g = unsafe { &*g };
    common(g) && !g.live && g.drawn == g.pulled && g.wd == g.wp
}
/// invariant of a loop over the elements of a chunk: all that has been drawn has been visited
pub fn inv1(g: *const Ghost) -> bool {
    let g = unsafe { &*g };
    common(g)
        && g.live
        && g.k >= 1
        && g.k <= g.n
        && g.i <= g.k
        && g.begin <= g.pos
        && g.k <= g.pos - g.begin
        && g.k - g.i == g.pulled - g.drawn
        && g.wd == (g.wp && !(g.w >= g.begin + g.i && g.w < g.begin + g.k))
        && (g.wp || !(g.w >= g.begin && g.w < g.begin + g.k))
}

/// The loop rule.
pub struct Head<const DEPTH: u8>(bool, (usize, usize));
impl<const DEPTH: u8> Head<DEPTH> {
    fn inv() -> bool {
        if DEPTH == 0 {
            inv0(ptr())
        } else {
            inv1(ptr())
        }
    }
    pub fn entry() -> Self {
        kani::assert(Self::inv(), "LOOP the invariant holds on entry");
        let len = g().len;
        let (n, w) = (g().n, g().w);
        let chunk = (g().begin, g().k);
        *g() = any();
        g().len = len;
        g().n = n;
        g().w = w;
        if DEPTH > 0 {
            // frame: a loop over the elements of a chunk is within the chunk
            (g().begin, g().k) = chunk;
        }
        Head(true, chunk)
    }
    pub fn head(&mut self) {
        if self.0 {
            self.0 = false;
            kani::assume(Self::inv());
        } else {
            kani::assert(Self::inv() && (DEPTH == 0 || self.1 == (g().begin, g().k)), "LOOP the invariant is preserved");
            kani::assume(false);
        }
    }
}
fn any() -> Ghost {
    Ghost {
        len: kani::any(), pos: kani::any(), n: kani::any(), w: kani::any(), pulled: kani::any(), drawn: kani::any(), visited: kani::any(),
        wp: kani::any(), wd: kani::any(), wv: kani::any(), live: kani::any(), begin: kani::any(), k: kani::any(), i: kani::any(),
        ended: kani::any(), lost: kani::any(), accs: kani::any(),
    }
}
/// Makes a mutable variable arbitrary; abstract values have no state besides the ghost state.
pub struct Havoc<'a, T>(pub &'a mut T);
pub trait HavocAny {
    fn havoc(&mut self);
}
impl<T: kani::Arbitrary> HavocAny for Havoc<'_, T> {
    fn havoc(&mut self) {
        *self.0 = kani::any();
        kani::cover!(true, "INEXACT a variable of which the invariant says nothing");
    }
}
pub trait HavocAbstract {
    fn havoc(&mut self);
}
impl<T> HavocAbstract for &mut Havoc<'_, T> {
    fn havoc(&mut self) {
        kani::assert(size_of::<T>() == 0, "ANCHOR mutable variable of a type with state");
    }
}
#[macro_export]
macro_rules! havoc {
    ($x:ident) => {{
        use $crate::ghost::{HavocAbstract, HavocAny};
        (&mut $crate::ghost::Havoc(&mut $x)).havoc()
    }};
}

/// The element at a position of the source; it can be neither copied nor created by the code under proof.
pub trait Token: Sized {
    fn at(i: usize) -> Self;
}
pub struct Tok(pub usize);
impl Token for Tok {
    fn at(i: usize) -> Self {
        Tok(i)
    }
}

/// Contract of the pulls: the other threads advance the position, then `k` elements from the position on are taken.
fn pull(max: usize) -> Option<(usize, usize)> {
    let g = g();
    kani::assert(!g.live, "ANCHOR one chunk at a time");
    let p: usize = kani::any();
    kani::assume(g.pos <= p && p <= g.len);
    g.pos = p;
    if p == g.len {
        g.ended = true;
        return None;
    }
    let k = max.min(g.len - p);
    g.pos = p + k;
    g.pulled += k;
    if g.w >= p && g.w < p + k {
        g.wp = true;
    }
    Some((p, k))
}
pub fn pull_one<T: Token>() -> Option<(usize, T)> {
    let (b, _) = pull(1)?;
    Some((b, draw(b)))
}
fn draw<T: Token>(i: usize) -> T {
    let g = g();
    g.drawn += 1;
    if i == g.w {
        g.wd = true;
    }
    T::at(i)
}
pub fn pull_chunk<T: Token>(n: usize) -> Option<(usize, AbsChunk<T>)> {
    let (b, k) = pull(n)?;
    let g = g();
    g.live = true;
    g.begin = b;
    g.k = k;
    g.i = 0;
    Some((b, AbsChunk(PhantomData)))
}

/// The elements of the current chunk.
pub struct AbsChunk<T>(PhantomData<T>);
impl<T> Drop for AbsChunk<T> {
    fn drop(&mut self) {
        let g = g();
        g.live = false;
        if g.i < g.k {
            g.lost = true;
        }
    }
}
impl<T: Token> Iterator for AbsChunk<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let g = g();
        if g.i < g.k {
            g.i += 1;
            Some(draw(g.begin + g.i - 1))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let g = g();
        (g.k - g.i, Some(g.k - g.i))
    }
    fn fold<B, F: FnMut(B, T) -> B>(mut self, init: B, mut f: F) -> B {
        let mut acc = init;
        let mut head = Head::<1>::entry();
        crate::havoc!(acc);
        loop {
            head.head();
            match self.next() {
                Some(x) => acc = f(acc, x),
                None => break,
            }
        }
        acc
    }
}
impl<T: Token> ExactSizeIterator for AbsChunk<T> {}
impl<T: Token> AbsChunk<T> {
    /// Contract of Iterator::enumerate.
    pub fn enumerate(self) -> AbsEnumerate<T> {
        kani::assert(g().i == 0, "ANCHOR enumerate from the start");
        AbsEnumerate(self)
    }
}
pub struct AbsEnumerate<T>(AbsChunk<T>);
impl<T: Token> Iterator for AbsEnumerate<T> {
    type Item = (usize, T);
    fn next(&mut self) -> Option<(usize, T)> {
        let x = self.0.next()?;
        Some((g().i - 1, x))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn fold<B, F: FnMut(B, (usize, T)) -> B>(mut self, init: B, mut f: F) -> B {
        let mut acc = init;
        let mut head = Head::<1>::entry();
        crate::havoc!(acc);
        loop {
            head.head();
            match self.next() {
                Some(x) => acc = f(acc, x),
                None => break,
            }
        }
        acc
    }
}
impl<T: Token> ExactSizeIterator for AbsEnumerate<T> {}

/// The accumulator of fold; it can be neither copied nor created by the code under proof.
pub struct Acc(());
impl Acc {
    pub fn new() -> Self {
        g().accs += 1;
        Acc(())
    }
}
impl Drop for Acc {
    fn drop(&mut self) {
        g().accs -= 1;
    }
}

pub fn visit(x: Tok) {
    let g = g();
    g.visited += 1;
    if x.0 == g.w {
        g.wv = true;
    }
}

pub fn ensures() {
    let g = g();
    kani::assert(!g.lost && g.visited == g.pulled, "each: the function is called as many times as elements are pulled by the call");
    kani::assert(g.wv == g.wp, "each: the function is called for each element which is pulled by the call");
    kani::assert(g.ended && g.pos == g.len, "each: the iterator is exhausted at return");
    kani::cover!(g.visited > 1000, "COVER many elements");
    kani::cover!(g.visited == 0, "COVER no element");
    kani::cover!(g.wv, "COVER witness visited");
}
