//! Spurious failures of weak compare-exchanges. The compiler's callback is the same for weak and strong ones
//! and only returns the value found, so (1) the call site's inlined frames tell which kind it is, and (2) a
//! spurious failure returns to a thunk that does what follows the call, but compares another value.
use crate::sched::Rt;
use crate::shared::SITES;
use core::arch::global_asm;
use core::sync::atomic::Ordering::*;

/// Where the call in progress shall return to, if not to its caller.
pub static mut DIVERT: usize = 0;
macro_rules! tramp {
    ($name:ident $inner:ident) => {
        global_asm!(
            concat!(".globl ", stringify!($name)),
            concat!(".type ", stringify!($name), ", @function"),
            concat!(stringify!($name), ":"),
            ".cfi_startproc",
            "mov r9, [rsp]",
            "sub rsp, 8",
            ".cfi_adjust_cfa_offset 8",
            "call {f}",
            "add rsp, 8",
            ".cfi_adjust_cfa_offset -8",
            "mov rcx, [rip + {d}]",
            "test rcx, rcx",
            "jne 2f",
            "ret",
            "2:",
            "mov qword ptr [rip + {d}], 0",
            "add rsp, 8",
            ".cfi_adjust_cfa_offset -8",
            "jmp rcx",
            ".cfi_endproc",
            concat!(".size ", stringify!($name), ", . - ", stringify!($name)),
            f = sym crate::tsan::$inner,
            d = sym DIVERT,
        );
    };
}
tramp!(__tsan_atomic8_compare_exchange_val cas8);
tramp!(__tsan_atomic16_compare_exchange_val cas16);
tramp!(__tsan_atomic32_compare_exchange_val cas32);
tramp!(__tsan_atomic64_compare_exchange_val cas64);

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
static mut THUNKS: Vec<(usize, usize)> = Vec::new();
/// In a thunk, where the result is kept.
const SLOT_AT: isize = 56;
static mut PAGE: (*mut u8, usize) = (core::ptr::null_mut(), 0);

/// How many bytes at `p` are a register move, or the comparison.
unsafe fn decode(p: *const u8) -> Option<(usize, bool)> {
    let b = |i: usize| p.add(i).read();
    let (rex, o) = if b(0) & 0xf0 == 0x40 { (b(0), 1) } else { (0, 0) };
    let reg_form = |m: u8| m & 0xc0 == 0xc0;
    match b(o) {
        // mov reg, reg: only out of the result
        0x88 | 0x89 if reg_form(b(o + 1)) && b(o + 1) >> 3 & 7 == 0 && rex & 4 == 0 => Some((o + 2, false)),
        // cmp rax, reg; cmp reg, rax
        0x38 | 0x39 | 0x3a | 0x3b
            if reg_form(b(o + 1)) && ((b(o + 1) >> 3 & 7 == 0 && rex & 4 == 0) || (b(o + 1) & 7 == 0 && rex & 1 == 0)) =>
        {
            Some((o + 2, true))
        }
        // test rax, rax
        0x84 | 0x85 if b(o + 1) == 0xc0 && rex & 5 == 0 => Some((o + 2, true)),
        // cmp al, imm; cmp eax, imm8; cmp eax, imm32
        0x3c => Some((o + 2, true)),
        0x83 if b(o + 1) == 0xf8 && rex & 1 == 0 => Some((o + 3, true)),
        0x3d => Some((o + 5, true)),
        _ => None,
    }
}
unsafe fn thunk(pc: usize) -> Option<usize> {
    if let Some(t) = THUNKS.iter().find(|t| t.0 == pc) {
        return (t.1 != 0).then_some(t.1);
    }
    let mut at = 0;
    let mut end = 0;
    let mut moves = 0;
    while let Some((n, cmp)) = decode((pc + at) as *const u8) {
        at += n;
        if cmp {
            end = at;
            moves = at - n;
            break;
        }
        if at > 12 {
            break;
        }
    }
    let mut to = 0;
    if end != 0 {
        if PAGE.0.is_null() {
            PAGE.0 = mmap(core::ptr::null_mut(), 1 << 16, 7, 0x2 | 0x20, -1, 0);
        }
        if PAGE.0 as isize != -1 && PAGE.1 + 64 <= 1 << 16 {
            let t = PAGE.0.add(PAGE.1);
            PAGE.1 += 64;
            core::ptr::copy_nonoverlapping(pc as *const u8, t, moves);
            let mut at = moves;
            let mut put = |b: &[u8]| {
                core::ptr::copy_nonoverlapping(b.as_ptr(), t.add(at), b.len());
                at += b.len();
                at
            };
            let slot = |from: usize| (SLOT_AT - from as isize) as i32;
            // the result saved, changed, compared as it would have been, and restored
            let n = put(&[0x48, 0x89, 0x05, 0, 0, 0, 0]);
            t.add(n - 4).cast::<i32>().write_unaligned(slot(n));
            put(&[0x48, 0x83, 0xf0, 0x01]);
            put(core::slice::from_raw_parts((pc + moves) as *const u8, end - moves));
            let n = put(&[0x48, 0x8b, 0x05, 0, 0, 0, 0]);
            t.add(n - 4).cast::<i32>().write_unaligned(slot(n));
            let n = put(&[0xff, 0x25, 0, 0, 0, 0]);
            t.add(n).cast::<usize>().write_unaligned(pc + end);
            to = t as usize;
        }
    }
    THUNKS.push((pc, to));
    (to != 0).then_some(to)
}
/// Whether the call returning to `pc`, which is in progress, is a weak compare-exchange's.
fn is_weak_site(pc: usize) -> bool {
    let table = unsafe { &(*SITES).0 };
    let mut i = pc.wrapping_mul(0x9e3779b97f4a7c15) >> 54;
    for _ in 0..table.len() {
        let v = table[i % table.len()].load(Relaxed) as usize;
        if v >> 2 == pc {
            return v & 3 == 2;
        }
        if v == 0 {
            break;
        }
        i += 1;
    }
    let bt = format!("{:#}", std::backtrace::Backtrace::force_capture());
    // the innermost frames of core's atomics
    // the frames inlined at the call, innermost first: a line with the name, then one with the place
    let lines: Vec<&str> = bt.lines().map(str::trim).collect();
    let weak = lines
        .windows(2)
        .filter(|w| w[1].starts_with("at ") && w[1].contains("sync/atomic.rs"))
        .filter_map(|w| w[0].rsplit_once(" - ").map(|x| x.1))
        .find(|n| n.starts_with("compare_exchange") || n.contains("::compare_exchange"))
        .is_some_and(|n| n.contains("compare_exchange_weak"));
    let entry = (pc << 2 | if weak { 2 } else { 1 }) as u64;
    for k in 0..table.len() {
        let s = &table[(i + k) % table.len()];
        match s.compare_exchange(0, entry, Relaxed, Relaxed) {
            Ok(_) => break,
            Err(x) if x == entry => break,
            Err(_) => {}
        }
    }
    weak
}
/// The thunk to return to should the compare-exchange in progress fail spuriously, if it may.
pub unsafe fn may_fail(pc: usize) -> Option<usize> {
    let _g = Rt::enter();
    if SITES.is_null() || !is_weak_site(pc) {
        return None;
    }
    thunk(pc)
}
