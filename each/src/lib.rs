//! Modular proof of for_each / enumerate_for_each / fold: the text of /repo (extract.py) against the contract of the pulls.
#![allow(warnings)]
#![cfg(kani)]
pub mod default_fns;
pub mod ghost;
use ghost::*;
use std::marker::PhantomData;

pub struct Next<T> {
    pub idx: usize,
    pub value: T,
}
pub struct NextChunk<T, Iter>
where
    Iter: ExactSizeIterator<Item = T>,
{
    pub begin_idx: usize,
    pub values: Iter,
}
pub struct BufferedIter<T>(PhantomData<T>);
impl<T: Token> BufferedIter<T> {
    pub fn next(&mut self) -> Option<NextChunk<T, AbsChunk<T>>> {
        pull_chunk(g().n).map(|(begin_idx, values)| NextChunk { begin_idx, values })
    }
}
pub struct Values<T>(PhantomData<T>);
impl<T: Token> Iterator for Values<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        pull_one().map(|x| x.1)
    }
}
pub struct IdsAndValues<T>(PhantomData<T>);
impl<T: Token> Iterator for IdsAndValues<T> {
    type Item = (usize, T);
    fn next(&mut self) -> Option<(usize, T)> {
        pull_one()
    }
}

pub trait ConcurrentIter: Sized {
    type Item: Token;
    fn next_id_and_value(&self) -> Option<Next<Self::Item>> {
        pull_one().map(|(idx, value)| Next { idx, value })
    }
    fn next(&self) -> Option<Self::Item> {
        pull_one().map(|x| x.1)
    }
    fn next_chunk(&self, chunk_size: usize) -> Option<NextChunk<Self::Item, AbsChunk<Self::Item>>> {
        kani::assert(chunk_size >= 1, "ANCHOR positive chunk size");
        pull_chunk(chunk_size).map(|(begin_idx, values)| NextChunk { begin_idx, values })
    }
    fn buffered_iter(&self, chunk_size: usize) -> BufferedIter<Self::Item> {
        kani::assert(chunk_size >= 1, "precondition of buffered_iter: positive chunk size");
        g().n = chunk_size;
        BufferedIter(PhantomData)
    }
    fn values(&self) -> Values<Self::Item> {
        Values(PhantomData)
    }
    fn ids_and_values(&self) -> IdsAndValues<Self::Item> {
        IdsAndValues(PhantomData)
    }
    /*EXTRACTED*/
}

pub struct It;
impl ConcurrentIter for It {
    type Item = Tok;
}

#[kani::proof]
#[kani::unwind(4)]
fn each0() {
    start();
    It.for_each(g().n, |x| visit(x));
    ensures();
}
#[kani::proof]
#[kani::unwind(4)]
fn each1() {
    start();
    It.enumerate_for_each(g().n, |i, x| {
        kani::assert(i == x.0, "enumerate_for_each: the index is the index of the element in the source");
        visit(x)
    });
    ensures();
}
#[kani::proof]
#[kani::unwind(4)]
fn each2() {
    start();
    let a = Acc::new();
    unsafe { ACCS = 1 };
    let r = It.fold(g().n, a, |a, x| {
        visit(x);
        a
    });
    kani::assert(g().accs == 1, "fold: the result of each call is the argument of the next one, or the result");
    drop(r);
    ensures();
}
