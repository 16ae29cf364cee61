//! The instrumentation callbacks the compiler emits.
use crate::heap::Heap;
use crate::sched::*;

#[inline(always)]
unsafe fn plain(a: usize, n: usize, w: bool) {
    if ACTIVE && Heap::contains(a) {
        ACTIVE = false;
        sim().heap.access(a, n, w, false);
        ACTIVE = true;
    }
}

macro_rules! rw {
    ($($r:ident $w:ident $ur:ident $uw:ident $n:literal;)*) => {$(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $ur(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $uw(a: usize) { plain(a, $n, true) }
    )*};
}
rw! {
    __tsan_read1 __tsan_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 1;
    __tsan_read2 __tsan_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 2;
    __tsan_read4 __tsan_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 4;
    __tsan_read8 __tsan_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 8;
    __tsan_read16 __tsan_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    plain(a, 8, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(a: usize) {
    plain(a, 8, false)
}
#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_func_entry(_pc: usize) {}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    plain(s as usize, n, false);
    plain(d as usize, n, true);
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, c: i32, n: usize) -> *mut u8 {
    plain(d as usize, n, true);
    core::ptr::write_bytes(d, c as u8, n);
    d
}

macro_rules! at {
    ($t:ty, $n:literal, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident $cass:ident $casw:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(a: *const $t, mo: i32) -> $t {
            if !ACTIVE { return a.read_volatile(); }
            let _g = Rt::enter();
            sim().load(a as usize, $n, mo) as $t
        }
        #[no_mangle] pub unsafe extern "C" fn $store(a: *mut $t, v: $t, mo: i32) {
            if !ACTIVE { return a.write_volatile(v); }
            let _g = Rt::enter();
            sim().store(a as usize, $n, v as u64, mo)
        }
        at!(@rmw $t, $n, $xchg, |_x, v| v);
        at!(@rmw $t, $n, $add, |x, v| x.wrapping_add(v));
        at!(@rmw $t, $n, $sub, |x, v| x.wrapping_sub(v));
        at!(@rmw $t, $n, $and, |x, v| x & v);
        at!(@rmw $t, $n, $or, |x, v| x | v);
        at!(@rmw $t, $n, $xor, |x, v| x ^ v);
        at!(@rmw $t, $n, $nand, |x, v| !(x & v));
        pub unsafe extern "C" fn $cas(a: *mut $t, c: $t, v: $t, mo: i32, fmo: i32, pc: usize) -> $t {
            if !ACTIVE { let o = a.read_volatile(); if o == c { a.write_volatile(v) } return o; }
            let _g = Rt::enter();
            sim().cas(a as usize, $n, c as u64, v as u64, mo, fmo, pc) as $t
        }
        #[no_mangle] pub unsafe extern "C" fn $cass(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            let o = $cas(a, *c, v, mo, fmo, 0);
            if o == *c { 1 } else { *c = o; 0 }
        }
        #[no_mangle] pub unsafe extern "C" fn $casw(a: *mut $t, c: *mut $t, v: $t, mo: i32, fmo: i32) -> i32 {
            $cass(a, c, v, mo, fmo)
        }
    };
    (@rmw $t:ty, $n:literal, $name:ident, $f:expr) => {
        #[no_mangle] pub unsafe extern "C" fn $name(a: *mut $t, v: $t, mo: i32) -> $t {
            let f: fn($t, $t) -> $t = $f;
            if !ACTIVE { let o = a.read_volatile(); a.write_volatile(f(o, v)); return o; }
            let _g = Rt::enter();
            sim().rmw(a as usize, $n, mo, |x| f(x as $t, v) as u64) as $t
        }
    };
}
at!(u8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand cas8 __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
at!(u16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand cas16 __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
at!(u32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand cas32 __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
at!(u64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand cas64 __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(mo: i32) {
    if !ACTIVE {
        return;
    }
    let _g = Rt::enter();
    sim().fence(mo)
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_mo: i32) {}
