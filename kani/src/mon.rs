//! The monitor: rely/guarantee bookkeeping behind the stubs of the atomic operations.
//!
//! The stubs replace the private generic functions of `core::sync::atomic` through which *every* operation of
//! *every* atomic type goes. An access which is not to the monitored object is executed as it is (the proofs
//! are thread-modular: everything else is thread-local).
use std::sync::atomic::Ordering;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// not monitored
    Off,
    /// iterator over a source of known length; the abstract state is `min(counter, len)`
    Known,
    /// recording the locations used by a wrapped iterator
    Discover,
    /// wrapped iterator, abstract state (r, y, d, p, ended)
    Wrapped,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Phase {
    /// holds no ticket
    None,
    /// reserved [b, b+n)
    Ticket,
    /// an own load of `y` gave `b`
    Perm,
    /// advanced `y` beyond the own ticket
    Released,
}

pub struct Mon {
    pub mode: Mode,
    /// no environment steps
    pub frozen: bool,
    /// address of the monitored counter (`counter()`)
    pub ra: *mut usize,
    pub len: usize,
    /// greatest counter value the environment produces
    pub cap: usize,
    /// own changes of the position
    pub n_own: u8,
    pub from: usize,
    pub to: usize,
    /// position was at the end at some point of the call
    pub saw_end: bool,
    /// some own write decreased the position
    pub bad_mono: bool,
    /// number of own atomic operations
    pub ops: u32,
    pub cas_fail: u8,
    /// own atomic operations since the permission was obtained
    pub ops_perm: u32,

    /// positions advanced by own changes in total
    pub own_total: usize,
    /// the last own change of the position: from, and own_total before it
    pub last_from: usize,
    pub last_total: usize,
    /// cut the retry loops
    pub limit_cas: bool,
    /// a witness position, and the number of own changes that contain it
    pub g: usize,
    pub own_g: u8,
    /// record moves of the environment in the ledger
    pub ledger: bool,
    /// suspend the running operation before its `nest_at`-th own operation, and run another one meanwhile
    pub nest: bool,
    pub nest_at: u32,
    pub nested: bool,
    pub all_ops: u32,

    // wrapped
    pub lo: usize,
    pub hi: usize,
    pub ya: *mut usize,
    pub da: *mut u8,
    pub extra: bool,
    pub phase: Phase,
    pub b: usize,
    pub n: usize,
    /// elements taken from the wrapped iterator
    pub p: usize,
    /// length of the wrapped iterator
    pub total: usize,
    /// the wrapped iterator reported the end
    pub ended: bool,
    /// ... to this call
    pub own_end: bool,
    /// elements taken with the last ticket, and in total
    pub taken: usize,
    pub taken_total: usize,
    pub y_loads: u8,
    /// the running operation is skip_to_end
    pub skipping: bool,
    /// last own load of `y` was of acquire type (or followed by an acquire fence)
    pub acq: bool,
    pub rel_fence: bool,
    // violations
    pub bad_use: bool,       // wrapped `next` used without permission
    pub bad_sync: bool,      // permission or release without happens-before
    pub bad_after_end: bool, // wrapped `next` used after the end
    pub bad_y: bool,         // `y` written without being the owner, or to another value
    pub bad_d: bool,         // `d` written without reason, or reset
    pub bad_r: bool,         // `r` decreased
    pub bad_user: bool,      // user code (clone, closure) while other threads may wait for this one
    /// witness byte of the iterator object, for the frame condition
    pub wb: *const u8,
    pub wb_val: u8,
    pub wb_atomic: bool,
}

pub static mut M: Mon = Mon {
    mode: Mode::Off,
    frozen: true,
    ra: std::ptr::null_mut(),
    len: 0,
    cap: usize::MAX,
    n_own: 0,
    from: 0,
    to: 0,
    saw_end: false,
    bad_mono: false,
    ops: 0,
    cas_fail: 0,
    ops_perm: 0,
    own_total: 0,
    last_from: 0,
    last_total: 0,
    limit_cas: true,
    g: 0,
    own_g: 0,
    ledger: false,
    nest: false,
    nest_at: 0,
    nested: false,
    all_ops: 0,
    lo: 0,
    hi: 0,
    ya: std::ptr::null_mut(),
    da: std::ptr::null_mut(),
    extra: false,
    phase: Phase::None,
    b: 0,
    n: 0,
    p: 0,
    total: 0,
    ended: false,
    own_end: false,
    taken: 0,
    taken_total: 0,
    y_loads: 0,
    skipping: false,
    acq: false,
    rel_fence: false,
    bad_use: false,
    bad_sync: false,
    bad_after_end: false,
    bad_y: false,
    bad_d: false,
    bad_r: false,
    bad_user: false,
    wb: std::ptr::null(),
    wb_val: 0,
    wb_atomic: false,
};

impl Mon {
    /// position of the v-th element which is pulled by own changes of the position, when it belongs to the last change
    pub fn to_deliver(&self, v: usize) -> usize {
        self.last_from.wrapping_add(v.wrapping_sub(self.last_total))
    }
}

#[allow(static_mut_refs)]
pub fn m() -> &'static mut Mon {
    unsafe { &mut M }
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Loc {
    R,
    Y,
    D,
    Other,
}

fn loc<T>(a: *const T) -> Loc {
    let m = m();
    if m.mode == Mode::Off {
        return Loc::Other;
    }
    let s = size_of::<T>();
    if s == 8 && a as *const u8 == m.ra as *const u8 {
        return Loc::R;
    }
    if m.mode == Mode::Known {
        return Loc::Other;
    }
    if s != 8 && s != 1 {
        return Loc::Other;
    }
    match m.mode {
        Mode::Wrapped => {
            if s == 8 && a as *const u8 == m.ya as *const u8 {
                Loc::Y
            } else if s == 1 && a as *const u8 == m.da as *const u8 {
                Loc::D
            } else {
                Loc::Other
            }
        }
        Mode::Discover => {
            let au = a as usize;
            if au >= m.lo && au < m.hi {
                if s == 8 {
                    if !m.ya.is_null() && m.ya as usize != au {
                        m.extra = true;
                    }
                    m.ya = a as *mut usize;
                } else {
                    if !m.da.is_null() && m.da as usize != au {
                        m.extra = true;
                    }
                    m.da = a as *mut u8;
                }
            }
            Loc::Other
        }
        _ => Loc::Other,
    }
}

pub fn read_r() -> usize {
    unsafe { *m().ra }
}
pub fn read_y() -> usize {
    unsafe { *m().ya }
}
pub fn read_d() -> bool {
    unsafe { *m().da != 0 }
}

pub fn pos() -> usize {
    read_r().min(m().len)
}

/// RELY: an arbitrary step of the environment.
pub fn env_step() {
    let m = m();
    if m.frozen {
        return;
    }
    match m.mode {
        Mode::Known => {
            let r = read_r();
            let v: usize = kani::any();
            kani::assume(v <= m.cap || v == r);
            kani::assume(v.min(m.len) >= r.min(m.len));
            if m.ledger {
                crate::ledger::env_moves(r.min(m.len), v.min(m.len));
            }
            unsafe { *m.ra = v };
        }
        Mode::Wrapped => {
            let r = read_r();
            let v: usize = kani::any();
            kani::assume(v >= r && (v <= m.cap || v == usize::MAX));
            let d: bool = kani::any();
            kani::assume(d || !read_d());
            // R == MAX only by a skip, which reserves everything before it completes
            unsafe { *m.ra = v };
            unsafe { *m.da = d as u8 };
            let y = read_y();
            let holds = m.phase == Phase::Ticket || m.phase == Phase::Perm;
            if holds && y == m.b {
                // only the owner of the ticket can serve, or observe the end
                return;
            }
            let w: usize = kani::any();
            kani::assume(w >= y && w <= v && w <= m.cap);
            kani::assume(!holds || w <= m.b);
            unsafe { *m.ya = w };
            let e: bool = kani::any();
            kani::assume(e || !m.ended);
            kani::assume(!e || d);
            if e && !m.ended {
                m.p = m.total;
            }
            m.ended = e;
            if !e {
                m.p = w;
            }
            kani::assume(m.p <= m.total);
        }
        _ => {}
    }
}

fn pre<T>(a: *const T, l: Loc) {
    let m = m();
    if m.nest {
        crate::known::nest_point();
    }
    if !m.wb.is_null() && l == Loc::Other {
        let (b, w) = (a as usize, m.wb as usize);
        if b <= w && w < b + size_of::<T>() {
            // an atomic access: not a data race
            m.wb_atomic = true;
        }
    }
    if l == Loc::Other {
        return;
    }
    env_step();
    if m.ops < 1000 {
        m.ops += 1;
        if m.phase == Phase::Perm || m.phase == Phase::Released {
            m.ops_perm += 1;
        }
    }
    if m.mode == Mode::Known && pos() == m.len {
        m.saw_end = true;
    }
}

fn own_read(l: Loc, v: usize, o: Ordering) {
    let m = m();
    if l == Loc::Y {
        // waiting loop: each round starts in a state the rely makes arbitrary
        if !m.frozen && m.phase != Phase::Perm {
            kani::assume(m.y_loads < 2);
            m.y_loads += 1;
        }
        if m.phase == Phase::Ticket || m.phase == Phase::Perm {
            if v == m.b {
                m.acq = acquires(o) || (m.phase == Phase::Perm && m.acq);
                m.phase = Phase::Perm;
            }
        }
    }
}

/// GUARANTEE: an own write.
fn own_write(l: Loc, old: usize, new: usize, o: Ordering) {
    let m = m();
    match (m.mode, l) {
        (Mode::Known, Loc::R) => {
            let (p, q) = (old.min(m.len), new.min(m.len));
            if q < p {
                m.bad_mono = true;
            }
            if q != p {
                if m.n_own == 0 {
                    m.from = p;
                    m.to = q;
                }
                m.last_from = p;
                m.last_total = m.own_total;
                m.own_total = m.own_total.wrapping_add(q.wrapping_sub(p));
                if p <= m.g && m.g < q && m.own_g < 100 {
                    m.own_g += 1;
                }
                if m.n_own < 100 {
                    m.n_own += 1;
                }
            }
            if q == m.len {
                m.saw_end = true;
            }
        }
        (Mode::Wrapped, Loc::R) => {
            if new < old {
                m.bad_r = true;
            }
            if new != old {
                if m.n_own < 100 {
                    m.n_own += 1;
                }
                if !m.skipping {
                    if m.phase == Phase::Ticket || m.phase == Phase::Perm {
                        // a second ticket while the first is not released
                        m.bad_r = true;
                    }
                    m.b = old;
                    m.n = new - old;
                    m.taken = 0;
                    m.y_loads = 0;
                    m.acq = false;
                    m.phase = Phase::Ticket;
                }
            }
        }
        (Mode::Wrapped, Loc::Y) => {
            if new != old {
                let owner = m.phase == Phase::Perm && old == m.b && new >= old && new - old == m.n;
                if !owner {
                    m.bad_y = true;
                }
                if m.p != new && !read_d() {
                    m.bad_y = true;
                }
                if !(releases(o) || m.rel_fence) {
                    m.bad_sync = true;
                }
                m.phase = Phase::Released;
            }
        }
        (Mode::Wrapped, Loc::D) => {
            if new == 0 && old != 0 {
                m.bad_d = true;
            }
            if new != 0 && old == 0 && !(m.own_end || m.skipping) {
                m.bad_d = true;
            }
        }
        _ => {}
    }
}

/// Called by the wrapped probe iterator on each `next`.
/// Returns true if an element is to be yielded; the element is the previous value of `p`.
pub fn probe_next(must_end: bool) -> Option<usize> {
    let m = m();
    if m.mode != Mode::Wrapped {
        if must_end {
            m.ended = true;
            return None;
        }
        m.p += 1;
        return Some(m.p - 1);
    }
    if m.phase != Phase::Perm || m.taken >= m.n {
        m.bad_use = true;
    }
    if !m.acq {
        m.bad_sync = true;
    }
    if m.ended {
        m.bad_after_end = true;
    }
    if must_end {
        m.ended = true;
        m.own_end = true;
        return None;
    }
    m.taken += 1;
    m.taken_total += 1;
    m.p = m.p.wrapping_add(1);
    Some(m.p.wrapping_sub(1))
}

/// Called by the user code which the crate calls (clones, closures).
pub fn user_code() {
    let m = m();
    if m.nest {
        crate::known::nest_point();
    }
    if m.mode == Mode::Wrapped && (m.phase == Phase::Ticket || m.phase == Phase::Perm) && !read_d() {
        m.bad_user = true;
    }
}

/// Chooses a byte of `object`, outside of the monitored counter, which is expected not to be changed.
pub fn watch<T>(object: &T) {
    let m = m();
    let base = object as *const T as *const u8;
    let i: usize = kani::any();
    kani::assume(i < size_of::<T>());
    let b = base.wrapping_add(i);
    let c = (b as usize).wrapping_sub(m.ra as usize);
    kani::assume(c >= size_of::<usize>());
    m.wb = b;
    m.wb_val = unsafe { *b };
    m.wb_atomic = false;
}
pub fn watched_unchanged() -> bool {
    let m = m();
    m.wb.is_null() || m.wb_atomic || unsafe { *m.wb == m.wb_val }
}

// ---- stubs

unsafe fn rd<T: Copy>(a: *const T) -> usize {
    match size_of::<T>() {
        8 => *(a as *const u64) as usize,
        4 => *(a as *const u32) as usize,
        2 => *(a as *const u16) as usize,
        1 => *(a as *const u8) as usize,
        _ => 0,
    }
}
unsafe fn to_usize<T: Copy>(v: T) -> usize {
    rd(&v as *const T)
}
unsafe fn wr<T: Copy>(a: *mut T, v: usize) {
    match size_of::<T>() {
        8 => *(a as *mut u64) = v as u64,
        4 => *(a as *mut u32) = v as u32,
        2 => *(a as *mut u16) = v as u16,
        1 => *(a as *mut u8) = v as u8,
        _ => {}
    }
}
unsafe fn rmw<T: Copy>(a: *mut T, o: Ordering, f: impl FnOnce(usize) -> usize) -> T {
    let l = loc(a);
    pre(a, l);
    let old = *a;
    if l == Loc::Other {
        wr(a, f(to_usize(old)));
        return old;
    }
    let oldu = to_usize(old);
    own_read(l, oldu, o);
    let new = f(oldu);
    wr(a, new);
    own_write(l, oldu, new, o);
    old
}
unsafe fn cas<T: Copy>(a: *mut T, old: T, new: T, s: Ordering, f: Ordering, weak: bool) -> Result<T, T> {
    let l = loc(a);
    pre(a, l);
    let cur = *a;
    let (c, e, n) = (to_usize(cur), to_usize(old), to_usize(new));
    if l == Loc::Other {
        if c == e {
            *a = new;
            return Ok(cur);
        }
        return Err(cur);
    }
    let mm = m();
    let spurious = weak && mm.cas_fail == 0 && kani::any();
    if c == e && !spurious {
        own_read(l, c, s);
        *a = new;
        own_write(l, c, n, s);
        return Ok(cur);
    }
    own_read(l, c, f);
    // retry loop: each round starts in a state the rely makes arbitrary
    kani::assume(mm.cas_fail < 1 && mm.limit_cas);
    mm.cas_fail += 1;
    Err(cur)
}

pub unsafe fn s_load<T: Copy, const V: bool>(a: *const T, o: Ordering) -> T {
    let l = loc(a);
    pre(a, l);
    let v = *a;
    if l != Loc::Other {
        own_read(l, to_usize(v), o);
    }
    v
}
pub unsafe fn s_store<T: Copy, const V: bool>(a: *mut T, v: T, o: Ordering) {
    let l = loc(a);
    pre(a, l);
    if l == Loc::Other {
        *a = v;
        return;
    }
    let old = to_usize(*a);
    *a = v;
    own_write(l, old, to_usize(v), o);
}
pub unsafe fn s_swap<T: Copy>(a: *mut T, v: T, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |_| n)
}
pub unsafe fn s_add<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x.wrapping_add(n))
}
pub unsafe fn s_sub<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x.wrapping_sub(n))
}
pub unsafe fn s_and<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x & n)
}
pub unsafe fn s_nand<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| !(x & n))
}
pub unsafe fn s_or<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x | n)
}
pub unsafe fn s_xor<T: Copy, U: Copy>(a: *mut T, v: U, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x ^ n)
}
pub unsafe fn s_umax<T: Copy>(a: *mut T, v: T, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x.max(n))
}
pub unsafe fn s_umin<T: Copy>(a: *mut T, v: T, o: Ordering) -> T {
    let n = to_usize(v);
    rmw(a, o, |x| x.min(n))
}
pub unsafe fn s_cas<T: Copy>(a: *mut T, old: T, new: T, s: Ordering, f: Ordering) -> Result<T, T> {
    cas(a, old, new, s, f, false)
}
pub unsafe fn s_casw<T: Copy>(a: *mut T, old: T, new: T, s: Ordering, f: Ordering) -> Result<T, T> {
    cas(a, old, new, s, f, true)
}
pub fn s_fence(o: Ordering) {
    let m = m();
    if acquires(o) && m.phase == Phase::Perm {
        m.acq = true;
    }
    if releases(o) {
        m.rel_fence = true;
    }
}
/// spin_loop, yield_now
pub fn s_spin() {
    if m().nest {
        crate::known::nest_point();
    }
}
