/// `ck!(P, [1, 4], cond, "message")`: obligation of the properties C01 and C04, checked when P is one of them.
macro_rules! ck {
    ($p:expr, [$($id:literal),*], $cond:expr, $msg:literal) => {
        if false $(|| $p == $id)* {
            kani::assert($cond, $msg);
        }
    };
}

/// A proof harness with all atomic operations stubbed by the monitor.
macro_rules! harness {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[kani::proof]
        #[kani::unwind($unwind)]
        #[kani::stub(core::sync::atomic::atomic_load, crate::mon::s_load)]
        #[kani::stub(core::sync::atomic::atomic_store, crate::mon::s_store)]
        #[kani::stub(core::sync::atomic::atomic_swap, crate::mon::s_swap)]
        #[kani::stub(core::sync::atomic::atomic_add, crate::mon::s_add)]
        #[kani::stub(core::sync::atomic::atomic_sub, crate::mon::s_sub)]
        #[kani::stub(core::sync::atomic::atomic_and, crate::mon::s_and)]
        #[kani::stub(core::sync::atomic::atomic_nand, crate::mon::s_nand)]
        #[kani::stub(core::sync::atomic::atomic_or, crate::mon::s_or)]
        #[kani::stub(core::sync::atomic::atomic_xor, crate::mon::s_xor)]
        #[kani::stub(core::sync::atomic::atomic_umax, crate::mon::s_umax)]
        #[kani::stub(core::sync::atomic::atomic_umin, crate::mon::s_umin)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange, crate::mon::s_cas)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, crate::mon::s_casw)]
        #[kani::stub(core::sync::atomic::fence, crate::mon::s_fence)]
        #[kani::stub(core::hint::spin_loop, crate::mon::s_spin)]
        #[kani::stub(std::thread::yield_now, crate::mon::s_spin)]
        fn $name() {
            $body
        }
    };
}

/// The same, for a documented panic: the harness is proved when it panics on all paths with no other failure.
/// A proof harness with all atomic operations stubbed by the monitor.
macro_rules! harness_panics {
    ($name:ident, $unwind:literal, $body:expr) => {
        #[kani::proof]
        #[kani::should_panic]
        #[kani::unwind($unwind)]
        #[kani::stub(core::sync::atomic::atomic_load, crate::mon::s_load)]
        #[kani::stub(core::sync::atomic::atomic_store, crate::mon::s_store)]
        #[kani::stub(core::sync::atomic::atomic_swap, crate::mon::s_swap)]
        #[kani::stub(core::sync::atomic::atomic_add, crate::mon::s_add)]
        #[kani::stub(core::sync::atomic::atomic_sub, crate::mon::s_sub)]
        #[kani::stub(core::sync::atomic::atomic_and, crate::mon::s_and)]
        #[kani::stub(core::sync::atomic::atomic_nand, crate::mon::s_nand)]
        #[kani::stub(core::sync::atomic::atomic_or, crate::mon::s_or)]
        #[kani::stub(core::sync::atomic::atomic_xor, crate::mon::s_xor)]
        #[kani::stub(core::sync::atomic::atomic_umax, crate::mon::s_umax)]
        #[kani::stub(core::sync::atomic::atomic_umin, crate::mon::s_umin)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange, crate::mon::s_cas)]
        #[kani::stub(core::sync::atomic::atomic_compare_exchange_weak, crate::mon::s_casw)]
        #[kani::stub(core::sync::atomic::fence, crate::mon::s_fence)]
        #[kani::stub(core::hint::spin_loop, crate::mon::s_spin)]
        #[kani::stub(std::thread::yield_now, crate::mon::s_spin)]
        fn $name() {
            $body
        }
    };
}
