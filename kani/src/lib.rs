//! Contracts on the real code of orx-concurrent-iter (path dependency on /repo), discharged by Kani.
#![allow(dead_code, unused_macros)]
#![cfg(kani)]
#![recursion_limit = "1024"]

#[macro_use]
mod macros;
mod gen;
mod kinds;
mod known;
mod ledger;
mod mon;
mod pull;
mod wrapped;
