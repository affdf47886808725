//! Demonstrations of the genuine defects found while building the proofs.
//! `findings <name>`: exit 0 when the behaviour is right, non-zero (or a crash) when the defect shows.
//! `findings list` prints the names.
use orx_concurrent_iter::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};

struct Counting;
static LIVE: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as isize, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as isize, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

static DROPS: [AtomicUsize; 8] = [const { AtomicUsize::new(0) }; 8];
struct D(usize);
impl Drop for D {
    fn drop(&mut self) {
        DROPS[self.0].fetch_add(1, SeqCst);
    }
}
fn drops(n: usize) -> Vec<usize> {
    (0..n).map(|i| DROPS[i].load(SeqCst)).collect()
}
fn ds(n: usize) -> Vec<D> {
    (0..n).map(D).collect()
}

/// restarts after its first `None`
struct Unfused(usize);
impl Iterator for Unfused {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.0 += 1;
        if self.0 == 3 { None } else { Some(self.0 - 1) }
    }
}

struct PanicAt(usize, usize);
impl Iterator for PanicAt {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        self.0 += 1;
        if self.0 == self.1 {
            std::thread::sleep(std::time::Duration::from_millis(200));
            panic!("injected");
        }
        Some(self.0)
    }
}

fn main() {
    let name = std::env::args().nth(1).unwrap_or_default();
    let cases: Vec<(&str, fn())> = vec![
        ("c06_iter_skip_revives", || {
            let it = (0..5).map(|x| x + 10).into_con_iter();
            it.skip_to_end();
            for _ in 0..4 {
                assert!(it.next().is_none());
            }
        }),
        ("c06_range_skip_revives", || {
            let it = (usize::MAX - 3..usize::MAX).con_iter();
            it.skip_to_end();
            for _ in 0..4 {
                assert!(it.next().is_none());
            }
        }),
        ("c16_slice_huge_chunk_revives", || {
            let v = [1, 2, 3];
            let it = v.as_slice().into_con_iter();
            assert_eq!(it.next_chunk(usize::MAX).unwrap().values.len(), 3);
            for _ in 0..4 {
                assert!(it.next().is_none());
            }
        }),
        ("c16_range_past_end_wraps", || {
            let it = (usize::MAX - 2..usize::MAX).con_iter();
            for _ in 0..2 {
                assert!(it.next().is_some());
            }
            for _ in 0..4 {
                assert!(it.next().is_none());
            }
        }),
        ("c16_range_chunk_overflow", || {
            let it = (10..20usize).con_iter();
            assert_eq!(it.next_chunk(usize::MAX).unwrap().values.len(), 10);
        }),
        ("c16_range_into_seq_overflow", || {
            let it = (usize::MAX - 3..usize::MAX).con_iter();
            it.next_chunk(8);
            assert_eq!(it.into_seq_iter().count(), 0);
        }),
        ("c16_iter_zero_chunk_ends", || {
            let it = (0..5).map(|x| x + 10).into_con_iter();
            assert!(it.next_chunk(0).is_none());
            assert_eq!(it.try_get_len(), Some(5));
            assert_eq!(it.next(), Some(10));
        }),
        ("c16_iter_huge_chunk_loses", || {
            let it = (0..5).map(|x| x + 10).into_con_iter();
            assert_eq!(it.next(), Some(10));
            assert_eq!(it.next_chunk(usize::MAX).unwrap().values.len(), 4);
        }),
        ("c05_iter_short_chunk_not_end", || {
            let it = Unfused(0).into_con_iter();
            assert_eq!(it.next_chunk(4).map(|c| c.values.collect::<Vec<_>>()), Some(vec![0, 1]));
            assert!(it.next().is_none());
        }),
        ("c08_vec_skip_leaks_elements", || {
            let it = ds(4).into_con_iter();
            drop(it.next());
            it.skip_to_end();
            drop(it);
            assert_eq!(drops(4), [1, 1, 1, 1]);
        }),
        ("c08_array_into_seq_double_drop", || {
            let it = [D(0), D(1), D(2), D(3)].into_con_iter();
            drop(it.next());
            let rest: Vec<_> = it.into_seq_iter().collect();
            assert_eq!(drops(4), [1, 0, 0, 0]);
            drop(rest);
            assert_eq!(drops(4), [1, 1, 1, 1]);
        }),
        ("c08_array_into_seq_dangling", || {
            let it = [D(0), D(1), D(2), D(3)].into_con_iter();
            let rest = it.into_seq_iter();
            let ids: Vec<_> = std::hint::black_box(rest).map(|d| d.0).collect();
            assert_eq!(ids, [0, 1, 2, 3]);
            assert_eq!(drops(4), [1, 1, 1, 1]);
        }),
        ("c15_vec_buffer_leak", || {
            let before = LIVE.load(SeqCst);
            {
                let it = vec![1u64; 1000].into_con_iter();
                while it.next().is_some() {}
            }
            assert_eq!(LIVE.load(SeqCst), before);
            {
                let it = vec![1u64; 1000].into_con_iter();
                it.next_chunk(10);
            }
            assert_eq!(LIVE.load(SeqCst), before);
        }),
        ("c17_vec_chunk_precondition", || {
            let it = vec![1u64; 10].into_con_iter();
            assert_eq!(it.next_chunk(4).unwrap().values.count(), 4);
        }),
        ("c17_array_drop_precondition", || {
            let it = [1u64; 10].into_con_iter();
            it.next();
        }),
        ("c18_panicking_next_hangs_others", || {
            std::panic::set_hook(Box::new(|_| {}));
            std::thread::spawn(|| {
                std::thread::sleep(std::time::Duration::from_secs(5));
                eprintln!("hang: the other thread never returned");
                std::process::exit(3);
            });
            let it = PanicAt(0, 1).into_con_iter();
            let r = std::thread::scope(|s| {
                let a = s.spawn(|| it.next());
                std::thread::sleep(std::time::Duration::from_millis(50));
                let b = s.spawn(|| it.next());
                (a.join().is_err(), b.join().is_ok())
            });
            assert_eq!(r, (true, true));
        }),
    ];
    if name == "list" {
        for c in &cases {
            println!("{}", c.0);
        }
        return;
    }
    cases.iter().find(|c| c.0 == name).expect("unknown name").1();
}
