//! `clock_gettime` belongs to the simulator while simulated code runs.
use crate::sched::*;
#[repr(C)]
pub struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
static mut READS: [(u64, i128); MAXT] = [(0, 0); MAXT];
/// How often the current thread read a clock so far, and what it last saw.
pub fn reads() -> (u64, i128) {
    unsafe { READS[me()] }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if !ACTIVE {
        return syscall(228, id as i64, ts) as i32;
    }
    const LEAPS: [u64; 8] = [1, 999, 1_000, 1_000_000, 999_999_999, 1_000_000_000, 86_400_000_000_000, 3_000_000_000_000_000_000];
    if fault("clock_leap") {
        advance(LEAPS[choose(LEAPS.len())]);
    }
    if id == 0 && fault("clock_jump") {
        let d = LEAPS[choose(LEAPS.len())] as i128;
        match choose(4) {
            0 => jump(d),
            1 => jump(-d),
            2 => set_wall(d % 2_000_000_000),
            // before 1970
            _ => set_wall(-d),
        }
    }
    let _g = Rt::enter();
    let s = sim();
    let v = if id == 0 { s.clock_ns } else { s.mono_ns };
    READS[s.cur].0 += 1;
    READS[s.cur].1 = v;
    (*ts).s = v.div_euclid(1_000_000_000) as i64;
    (*ts).n = v.rem_euclid(1_000_000_000) as i64;
    0
}
/// Jumps the wall clock (may go backwards, before the epoch too).
pub fn jump(ns: i128) {
    sim().clock_ns += ns;
}
/// Advances both clocks.
pub fn advance(ns: u64) {
    sim().clock_ns += ns as i128;
    sim().mono_ns += ns as i128;
}
pub fn wall() -> i128 {
    sim().clock_ns
}
pub fn set_wall(ns: i128) {
    sim().clock_ns = ns;
}
pub fn mono() -> i128 {
    sim().mono_ns
}
