//! A thread is suspended (by a signal) at an arbitrary point of its pulls; the others must go on.
use crate::conc::{watchdog, BEAT, NOW};
use crate::*;

#[cfg(not(miri))]
mod sys {
    use std::os::raw::c_int;
    #[repr(C)]
    pub struct Sigaction {
        pub handler: extern "C" fn(c_int),
        pub mask: [u64; 16],
        pub flags: c_int,
        pub restorer: usize,
    }
    extern "C" {
        pub fn sigaction(sig: c_int, new: *const Sigaction, old: *mut Sigaction) -> c_int;
        pub fn pthread_self() -> usize;
        pub fn pthread_kill(t: usize, sig: c_int) -> c_int;
    }
}

static HOLD: AtomicBool = AtomicBool::new(false);
static HELD: AtomicBool = AtomicBool::new(false);
static THREAD: AtomicUsize = AtomicUsize::new(0);
static STOP: AtomicBool = AtomicBool::new(false);

#[cfg(not(miri))]
extern "C" fn handler(_: std::os::raw::c_int) {
    HELD.store(true, Ordering::SeqCst);
    while HOLD.load(Ordering::SeqCst) {
        std::hint::spin_loop();
    }
    HELD.store(false, Ordering::SeqCst);
}

fn pull_all<I: ConcurrentIter>(it: &I, n: usize) -> usize {
    let mut k = 0;
    let mut beat = |x: usize| {
        k += x;
        BEAT.fetch_add(1, Ordering::Relaxed);
    };
    beat(it.next().is_some() as usize);
    beat(it.next_id_and_value().is_some() as usize);
    beat(it.next_chunk(n).map_or(0, |c| c.values.len()));
    let mut b = it.buffered_iter(n);
    beat(b.next().map_or(0, |c| c.values.len()));
    beat(b.next().map_or(0, |c| c.values.len()));
    beat(it.try_get_len().is_some() as usize);
    beat(matches!(it.has_more(), HasMore::No) as usize);
    beat(it.values().next().is_some() as usize);
    k
}

#[cfg(not(miri))]
struct Run<'a> {
    rounds: usize,
    r: &'a mut Rng,
}
#[cfg(not(miri))]
impl Visitor for Run<'_> {
    fn visit<I: ConcurrentIter>(self, it: I, o: Oracle)
    where
        I::Item: Elem,
    {
        *NOW.lock().unwrap() = format!("{}: a thread is suspended inside a pull, and the pulls of another thread do not return", o.name);
        STOP.store(false, Ordering::SeqCst);
        THREAD.store(0, Ordering::SeqCst);
        std::thread::scope(|s| {
            let mix = self.r.below(7);
            let a = &it;
            s.spawn(move || {
                THREAD.store(unsafe { sys::pthread_self() }, Ordering::SeqCst);
                let mut b = a.buffered_iter(2);
                while !STOP.load(Ordering::Relaxed) {
                    for _ in 0..50 {
                        match mix {
                            0 => drop(a.next()),
                            1 => drop(a.next_chunk(3).map(|c| c.values.len())),
                            2 => drop(b.next().map(|c| c.values.len())),
                            3 => a.skip_to_end(),
                            4 => drop(a.try_get_len()),
                            _ => drop(pull_all(a, 2)),
                        }
                    }
                }
            });
            while THREAD.load(Ordering::SeqCst) == 0 {
                std::hint::spin_loop();
            }
            for _ in 0..self.rounds {
                for _ in 0..self.r.below(400) {
                    std::hint::spin_loop();
                }
                HOLD.store(true, Ordering::SeqCst);
                unsafe { sys::pthread_kill(THREAD.load(Ordering::SeqCst), 10) };
                while !HELD.load(Ordering::SeqCst) {
                    std::hint::spin_loop();
                }
                pull_all(a, 1 + self.r.below(3));
                if mix == 6 {
                    a.skip_to_end();
                    BEAT.fetch_add(1, Ordering::Relaxed);
                }
                HOLD.store(false, Ordering::SeqCst);
                while HELD.load(Ordering::SeqCst) {
                    std::hint::spin_loop();
                }
            }
            STOP.store(true, Ordering::SeqCst);
        });
    }
}

#[cfg(miri)]
pub fn main(_: u64) {}

#[cfg(not(miri))]
pub fn main(rounds: u64) {
    // allocation in the suspended thread must not block the others
    watchdog("", &[9], 8);
    let act = sys::Sigaction { handler, mask: [0; 16], flags: 0x10000000, restorer: 0 };
    unsafe { sys::sigaction(10, &act, std::ptr::null_mut()) };
    let mut r = Rng::new(rounds);
    for k in 0..40 {
        BEAT.fetch_add(1, Ordering::Relaxed);
        let rounds = rounds as usize;
        let big: Vec<usize> = (0..3_000_000).collect();
        let len = if k % 2 == 0 { big.len() } else { 3 };
        let run = Run { rounds, r: &mut r };
        let o = |name: &str| Oracle { name: format!("{name} of length {len}"), len, start: 0, base: 0, clones: 0, size: Size::Known, consuming: false };
        match (k / 2) % 6 {
            0 => run.visit(big[..len].into_con_iter().copied(), o("copied slice")),
            1 => run.visit(big[..len].to_vec().into_con_iter(), o("vec")),
            2 => run.visit((0..len).con_iter(), o("range")),
            3 => run.visit(big[..len].into_con_iter().cloned(), o("cloned slice")),
            4 if len == 3 => run.visit([0usize, 1, 2].into_con_iter(), o("array")),
            4 => run.visit([7usize; 20000].into_con_iter(), o("array")),
            _ => run.visit(big[..len].into_con_iter().copied(), o("slice")),
        }
    }
    println!("RAN {rounds} suspensions per kind");
}
