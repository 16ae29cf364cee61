//! Stackful coroutines: the simulated threads. One OS thread runs all of them, so nothing but the
//! simulator's scheduler decides who runs.
use core::arch::naked_asm;

pub const STACK: usize = 512 * 1024;

#[unsafe(naked)]
pub unsafe extern "C" fn switch(_save: *mut usize, _to: usize) {
    naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "C" fn tramp() {
    // r12 = entry, r13 = arg
    naked_asm!("xor ebp, ebp", "mov rdi, r13", "call r12", "ud2")
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

pub struct Stack {
    base: *mut u8,
}

impl Stack {
    pub fn new() -> Self {
        unsafe {
            // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE
            let base = mmap(core::ptr::null_mut(), STACK, 3, 0x2 | 0x20 | 0x4000, -1, 0);
            assert!(base as isize != -1);
            mprotect(base, 4096, 0);
            Stack { base }
        }
    }
    /// Prepares the stack so that switching to the returned sp calls `entry(arg)`.
    pub fn prepare(&self, entry: extern "C" fn(usize) -> !, arg: usize) -> usize {
        unsafe {
            let top = self.base.add(STACK) as *mut usize;
            let mut sp = top.sub(2);
            sp.write(0); // fake return address: unwinding stops here
            sp = sp.sub(1);
            sp.write(tramp as *const () as usize);
            // r15 r14 r13 r12 rbx rbp popped in order r15,r14,r13,r12,rbx,rbp
            sp = sp.sub(6);
            sp.add(0).write(0); // r15
            sp.add(1).write(0); // r14
            sp.add(2).write(arg); // r13
            sp.add(3).write(entry as usize); // r12
            sp.add(4).write(0); // rbx
            sp.add(5).write(0); // rbp
            sp as usize
        }
    }
    pub fn contains(&self, a: usize) -> bool {
        let b = self.base as usize;
        a >= b && a < b + STACK
    }
}
