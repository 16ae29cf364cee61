//! Memory shared between the master process and its forked workers: counters, the choice sequence
//! of the run in progress, the violation slot.
use core::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

pub const MAXC: usize = 1 << 16;
pub const NCOUNT: usize = 128;
pub const MSG: usize = 4096;
pub const TRACE: usize = 1 << 18;
pub const SETBITS: usize = 24;

/// One slot per worker.
#[repr(C)]
pub struct Slot {
    /// index of the run in progress + 1 (0: none)
    pub run: AtomicU64,
    /// length of the recorded choice sequence
    pub nchoices: AtomicUsize,
    pub choices: [u16; MAXC],
    /// 0 none, 1 violation recorded
    pub violated: AtomicU32,
    pub class: [u8; 64],
    pub msg: [u8; MSG],
    pub steps: AtomicU64,
    /// Human readable trace of a replayed run.
    pub trace_len: AtomicUsize,
    pub trace: [u8; TRACE],
    /// Distinct-run hash of the run
    pub hash: AtomicU64,
    pub window_hits: AtomicU64,
}

#[repr(C)]
pub struct Shared {
    pub runs: AtomicU64,
    pub steps: AtomicU64,
    pub switches: AtomicU64,
    pub nontrivial: AtomicU64,
    pub distinct: AtomicU64,
    pub calm: AtomicU64,
    pub discarded: AtomicU64,
    pub sim_ns: AtomicU64,
    pub counts: [AtomicU64; NCOUNT],
    /// smallest violating run index + 1 so far
    pub stop: AtomicU64,
    pub set: [AtomicU64; 1 << SETBITS],
}

/// What is known of the call sites of compare-exchanges.
#[repr(C)]
pub struct Sites(pub [AtomicU64; 1024]);
pub static mut SITES: *mut Sites = core::ptr::null_mut();

pub const SLOTS: usize = 17;

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn map<T>() -> *mut T {
    unsafe {
        // MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = mmap(core::ptr::null_mut(), core::mem::size_of::<T>(), 3, 0x1 | 0x20 | 0x4000, -1, 0);
        assert!(p as isize != -1, "mmap failed");
        p.cast()
    }
}

impl Shared {
    /// Inserts a run hash; returns true when it was not there yet.
    pub fn insert(&self, h: u64) -> bool {
        let h = if h == 0 { 1 } else { h };
        let mask = (1usize << SETBITS) - 1;
        let mut i = (h as usize) & mask;
        for _ in 0..64 {
            match self.set[i].compare_exchange(0, h, Relaxed, Relaxed) {
                Ok(_) => return true,
                Err(x) if x == h => return false,
                Err(_) => i = (i + 1) & mask,
            }
        }
        false
    }
}
