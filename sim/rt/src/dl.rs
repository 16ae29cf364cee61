//! The dynamic linker: libraries whose symbols the scenario decides. Handles the simulator did not make are
//! the real linker's.
use crate::sched::*;
use std::ffi::{c_void, CStr, CString};

const BASE: usize = 0x51ab_0000;
extern "C" {
    fn dlvsym(h: *mut c_void, name: *const i8, version: *const i8) -> *mut c_void;
}
type Resolver = fn(lib: usize, symbol: &str) -> usize;
static mut RESOLVER: Option<Resolver> = None;
static mut ERR: [Option<CString>; MAXT] = [const { None }; MAXT];
/// What `dlerror` returned last must stay readable.
static mut SHOWN: [Option<CString>; MAXT] = [const { None }; MAXT];
static mut OPEN: u64 = 0;

/// A library of the simulated system.
pub fn open(lib: usize, r: Resolver) -> *mut c_void {
    unsafe {
        RESOLVER = Some(r);
        OPEN |= 1 << lib;
        (BASE + lib * 16) as *mut c_void
    }
}
pub fn is_open(lib: usize) -> bool {
    unsafe { OPEN >> lib & 1 == 1 }
}
pub fn reset() {
    outside(|| unsafe {
        OPEN = 0;
        for i in 0..MAXT {
            ERR[i] = None;
            SHOWN[i] = None;
        }
    })
}
fn lib_of(h: *mut c_void) -> Option<usize> {
    let h = h as usize;
    (h >= BASE && h < BASE + 64 * 16).then(|| (h - BASE) / 16)
}
unsafe fn real(name: &CStr) -> *mut c_void {
    for v in [c"GLIBC_2.34", c"GLIBC_2.2.5"] {
        let p = dlvsym(-1isize as *mut c_void, name.as_ptr(), v.as_ptr());
        if !p.is_null() {
            return p;
        }
    }
    core::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn dlsym(h: *mut c_void, name: *const i8) -> *mut c_void {
    match lib_of(h) {
        Some(l) if ACTIVE => {
            yield_now();
            let n = &*outside(|| CStr::from_ptr(name).to_string_lossy().into_owned());
            let p = if is_open(l) { RESOLVER.unwrap()(l, n) } else { fail("library-closed", || format!("{n} looked up in a library that was closed")) };
            if p == 0 {
                let _g = Rt::enter();
                ERR[sim().cur] = CString::new(format!("undefined symbol: {n}")).ok();
            }
            p as *mut c_void
        }
        _ => {
            let f: unsafe extern "C" fn(*mut c_void, *const i8) -> *mut c_void = core::mem::transmute(real(c"dlsym"));
            f(h, name)
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn dlerror() -> *mut i8 {
    if ACTIVE {
        yield_now();
        let _g = Rt::enter();
        let c = sim().cur;
        SHOWN[c] = ERR[c].take();
        return SHOWN[c].as_ref().map_or(core::ptr::null_mut(), |e| e.as_ptr() as *mut i8);
    }
    let f: unsafe extern "C" fn() -> *mut i8 = core::mem::transmute(real(c"dlerror"));
    f()
}
#[no_mangle]
pub unsafe extern "C" fn dlclose(h: *mut c_void) -> i32 {
    match lib_of(h) {
        Some(l) if ACTIVE => {
            if !is_open(l) {
                fail("library-closed", || "a library is closed twice".into())
            }
            OPEN &= !(1 << l);
            0
        }
        _ => {
            let f: unsafe extern "C" fn(*mut c_void) -> i32 = core::mem::transmute(real(c"dlclose"));
            f(h)
        }
    }
}
