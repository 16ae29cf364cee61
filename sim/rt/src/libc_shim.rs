//! The malloc family: the simulated heap (with injected failures) while simulated code runs, glibc's
//! otherwise.
use crate::heap::{Heap, Kind};
use crate::sched::*;

extern "C" {
    fn __libc_malloc(n: usize) -> *mut u8;
    fn __libc_calloc(n: usize, m: usize) -> *mut u8;
    fn __libc_realloc(p: *mut u8, n: usize) -> *mut u8;
    fn __libc_memalign(a: usize, n: usize) -> *mut u8;
    fn __libc_free(p: *mut u8);
}

unsafe fn salloc(n: usize, a: usize) -> *mut u8 {
    let _g = Rt::enter();
    let s = sim();
    if s.threads[s.cur].mfaults && !std::thread::panicking() && fault(s.malloc_fault_name) {
        return core::ptr::null_mut();
    }
    if n > 16 << 20 {
        return core::ptr::null_mut();
    }
    s.heap.alloc(n, a, Kind::Malloc)
}
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut u8 {
    if ACTIVE {
        salloc(n, 16)
    } else {
        __libc_malloc(n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn calloc(n: usize, m: usize) -> *mut u8 {
    if ACTIVE {
        let p = salloc(n * m, 16);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, n * m);
        }
        p
    } else {
        __libc_calloc(n, m)
    }
}
#[no_mangle]
pub unsafe extern "C" fn realloc(p: *mut u8, n: usize) -> *mut u8 {
    if p.is_null() {
        return malloc(n);
    }
    if Heap::contains(p as usize) {
        let _g = Rt::enter();
        let s = sim();
        let Some(b) = s.heap.live_block(p as usize).cloned() else {
            violate("bad-realloc", &format!("realloc of a pointer that is not a live allocation: {}", s.heap.describe(p as usize)));
        };
        if s.threads[s.cur].mfaults && !std::thread::panicking() && fault(s.malloc_fault_name) {
            return core::ptr::null_mut();
        }
        if n > 16 << 20 {
            return core::ptr::null_mut();
        }
        // real realloc only guarantees malloc's alignment
        let q = s.heap.alloc(n, 16, Kind::Malloc);
        core::ptr::copy_nonoverlapping(p, q, b.size.min(n));
        s.heap.free(p as usize, Kind::Malloc);
        q
    } else {
        __libc_realloc(p, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn free(p: *mut u8) {
    if p.is_null() {
        return;
    }
    if Heap::contains(p as usize) {
        let _g = Rt::enter();
        sim().heap.free(p as usize, Kind::Malloc)
    } else {
        __libc_free(p)
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_memalign(out: *mut *mut u8, a: usize, n: usize) -> i32 {
    if a < 8 || !a.is_power_of_two() {
        if ACTIVE {
            // EINVAL, the out pointer stays as it was
            return 22;
        }
        return 22;
    }
    let p = if ACTIVE { salloc(n, a) } else { __libc_memalign(a, n) };
    if p.is_null() {
        return 12;
    }
    *out = p;
    0
}
#[no_mangle]
pub unsafe extern "C" fn aligned_alloc(a: usize, n: usize) -> *mut u8 {
    if ACTIVE {
        salloc(n, a)
    } else {
        __libc_memalign(a, n)
    }
}
#[no_mangle]
pub unsafe extern "C" fn memalign(a: usize, n: usize) -> *mut u8 {
    aligned_alloc(a, n)
}
