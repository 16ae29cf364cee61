//! The allocator contract, with a system allocator that fails.
use crate::h::*;
use simrt::*;
use stabby_abi::alloc::{AllocPtr, IAlloc, Layout};

#[derive(Clone, Copy)]
struct Blk {
    p: *mut u8,
    size: usize,
    align: usize,
    seed: u8,
}
const SIZES: [usize; 20] = [1, 2, 3, 7, 8, 9, 15, 16, 24, 31, 32, 33, 40, 48, 63, 64, 65, 96, 100, 200];
const ALIGNS: [usize; 8] = [1, 2, 4, 8, 16, 32, 64, 128];
const HUGE: [usize; 5] = [isize::MAX as usize - 8, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX - 40, usize::MAX - 7];
fn fill(b: &Blk) {
    for i in 0..b.size {
        unsafe { b.p.add(i).write(b.seed.wrapping_add(i as u8)) }
    }
}
fn intact(b: &Blk, n: usize, what: &str) {
    for i in 0..n {
        let x = unsafe { b.p.add(i).read() };
        check!(x == b.seed.wrapping_add(i as u8), "content-lost", "{what}: byte {i} of {n} is {x:#x}");
    }
}
fn got(p: *mut (), size: usize, align: usize, f0: u64, what: &str) -> Option<*mut u8> {
    if p.is_null() {
        check!(faults_fired() > f0, "alloc-refused", "{what} of {size} bytes aligned to {align} failed for no reason");
        probe("alloc_null");
        return None;
    }
    check!(p as usize % align == 0, "misaligned", "{what} of {size} bytes aligned to {align} returned {p:?}");
    Some(p as *mut u8)
}
fn session<A: IAlloc>(a: &mut A, bl: &mut Vec<Blk>, n: usize, keep: bool) {
    for _ in 0..n {
        let k = bl.len();
        match choose(6) {
            0 | 1 if k < 8 => {
                let (size, align) = (pick(&SIZES), pick(&ALIGNS));
                let f0 = faults_fired();
                let p = a.alloc(Layout { size, align });
                if let Some(p) = got(p, size, align, f0, "allocation") {
                    let b = Blk { p, size, align, seed: choose(256) as u8 };
                    fill(&b);
                    outside(|| bl.push(b));
                }
            }
            2 | 3 if k > 0 => {
                let i = choose(k);
                let b = bl[i];
                intact(&b, b.size, "before reallocation");
                let size = pick(&SIZES);
                let f0 = faults_fired();
                let p = unsafe { a.realloc(b.p as *mut (), Layout { size: b.size, align: b.align }, size) };
                match got(p, size, b.align, f0, "reallocation") {
                    Some(p) => {
                        let nb = Blk { p, size, align: b.align, seed: b.seed };
                        intact(&nb, b.size.min(size), "after reallocation");
                        fill(&nb);
                        bl[i] = nb;
                    }
                    None => intact(&b, b.size, "after a failed reallocation"),
                }
            }
            4 if k > 0 => {
                let b = outside(|| bl.swap_remove(choose(k)));
                intact(&b, b.size, "before release");
                unsafe { a.free(b.p as *mut ()) };
            }
            5 => match choose(3) {
                0 => {
                    let p = a.alloc(Layout { size: 0, align: pick(&ALIGNS) });
                    check!(p.is_null(), "empty-alloc", "an allocation of 0 bytes returned {p:?}");
                }
                1 => {
                    let size = pick(&HUGE);
                    let p = a.alloc(Layout { size, align: pick(&ALIGNS) });
                    check!(p.is_null(), "impossible-alloc", "an allocation of {size} bytes returned {p:?}");
                }
                _ if k > 0 => {
                    let b = bl[choose(k)];
                    let size = pick(&HUGE);
                    let p = unsafe { a.realloc(b.p as *mut (), Layout { size: b.size, align: b.align }, size) };
                    check!(p.is_null(), "impossible-alloc", "a reallocation to {size} bytes returned {p:?}");
                    intact(&b, b.size, "after a failed reallocation");
                }
                _ => {}
            },
            _ => {}
        }
    }
    if !keep {
        while let Some(b) = outside(|| bl.pop()) {
            intact(&b, b.size, "at the end");
            unsafe { a.free(b.p as *mut ()) };
        }
    }
}
fn contract<A: HAlloc>() {
    run(|| {
        let mut bl: Vec<Blk> = outside(|| Vec::with_capacity(16));
        let mut a = A::mk();
        if chance(1, 2) {
            set_malloc_faults(true);
            session(&mut a, &mut bl, 3 + choose(30), false);
            set_malloc_faults(false);
        } else {
            // blocks travel between threads, allocators with them
            let nt = 2;
            let mut ids = [0; 2];
            for t in 0..nt {
                let mut mine: Vec<Blk> = outside(|| Vec::with_capacity(16));
                session(&mut a, &mut mine, choose(6), true);
                let mut al = a.clone();
                let n = 1 + choose(8);
                ids[t] = spawn(move || {
                    session(&mut al, &mut mine, n, false);
                    outside(|| drop(mine));
                    drop(al);
                });
            }
            session(&mut a, &mut bl, choose(8), false);
            for i in ids {
                join_thread(i);
            }
        }
        outside(|| drop(bl));
        drop(a);
    })
}
pub fn rust() {
    contract::<RustAlloc>()
}
pub fn libc() {
    contract::<LibcAlloc>()
}
pub fn default_realloc() {
    contract::<SA>()
}

/// The prefixed allocations every container is made of.
fn prefixed<T: Elem, A: HAlloc>() {
    run(|| {
        set_malloc_faults(true);
        let mut a = A::mk();
        let mut cap = choose(5);
        let f0 = faults_fired();
        let Some(mut p) = AllocPtr::<T, A>::alloc_array(&mut a, cap) else {
            check!(faults_fired() > f0, "alloc-refused", "allocating {cap} elements failed for no reason");
            set_malloc_faults(false);
            return;
        };
        let mut n = 0;
        for _ in 0..1 + choose(8) {
            check!(p.ptr.as_ptr() as usize % core::mem::align_of::<T>() == 0, "misaligned", "elements at {:?}", p.ptr);
            match choose(4) {
                0 | 1 => {
                    if n < cap {
                        unsafe { p.ptr.as_ptr().add(n).write(T::mk(n as u32)) };
                        n += 1;
                    }
                }
                2 => {
                    let new = cap + choose(4);
                    let f0 = faults_fired();
                    match unsafe { p.realloc(&mut a, cap, new) } {
                        Some(q) => {
                            p = q;
                            cap = new;
                        }
                        None => check!(faults_fired() > f0, "alloc-refused", "growing to {new} elements failed for no reason"),
                    }
                }
                _ => unsafe {
                    p.prefix_mut().strong.fetch_add(0, core::sync::atomic::Ordering::Relaxed);
                    check!(p.prefix().capacity.load(core::sync::atomic::Ordering::Relaxed) == cap, "prefix", "capacity lost");
                },
            }
            for i in 0..n {
                check!(unsafe { &*p.ptr.as_ptr().add(i) }.v() == T::mk(i as u32).v(), "content-lost", "element {i} of {n}");
            }
        }
        for i in 0..n {
            unsafe { core::ptr::drop_in_place(p.ptr.as_ptr().add(i)) };
        }
        unsafe { p.free(&mut a) };
        set_malloc_faults(false);
    })
}
pub fn prefix() {
    match choose(8) {
        0 => prefixed::<Tok, SA>(),
        1 => prefixed::<Tok, RustAlloc>(),
        2 => prefixed::<Big, SA>(),
        3 => prefixed::<Big, SB>(),
        4 => prefixed::<Big, RustAlloc>(),
        5 => prefixed::<Big, LibcAlloc>(),
        6 => prefixed::<Small, RustAlloc>(),
        _ => prefixed::<Small, LibcAlloc>(),
    }
}
/// An allocator behind a stable trait object.
pub type DynAlloc = stabby::Dyn<'static, stabby_abi::alloc::boxed::Box<(), SB>, stabby::vtable!(stabby_abi::alloc::IStableAlloc)>;
#[allow(deprecated)]
pub fn behind() {
    run(|| {
        let b = match stabby_abi::alloc::boxed::Box::try_new_in(SA::mk(), SB::mk()) {
            Ok(b) => b,
            Err((_a, _b)) => {
                check!(faults_fired() > 0, "alloc-refused", "boxing failed for no reason");
                return;
            }
        };
        let mut d: DynAlloc = b.into();
        if choose(2) == 0 {
            let mut bl: Vec<Blk> = outside(|| Vec::with_capacity(16));
            let n = 3 + choose(20);
            session(&mut d, &mut bl, n, false);
            outside(|| drop(bl));
        } else {
            // a collection that allocates through the object
            let mut v = stabby_abi::alloc::vec::Vec::<Tok, DynAlloc>::new_in(d);
            let mut m: Vec<u32> = outside(|| Vec::with_capacity(40));
            for k in 0..1 + choose(20) as u32 {
                match choose(4) {
                    0 if !m.is_empty() => {
                        check!(v.pop().map(|x| x.v()) == m.pop(), "wrong-element", "pop");
                    }
                    1 => {
                        let n = choose(6);
                        let f0 = faults_fired();
                        if v.try_reserve(n).is_err() {
                            check!(faults_fired() > f0, "alloc-refused", "reserving {n} elements failed for no reason");
                        }
                    }
                    _ => {
                        let f0 = faults_fired();
                        match v.try_push(Tok::mk(k)) {
                            Ok(()) => m.push(k),
                            Err(e) => check!(faults_fired() > f0 && e.v() == k, "alloc-refused", "pushing {} failed for no reason", e.v()),
                        }
                    }
                }
                check!(v.len() == m.len() && v.iter().zip(&m).all(|(a, b)| a.v() == *b), "wrong-element", "{} elements instead of {}", v.len(), m.len());
            }
            outside(|| drop(m));
        }
    })
}
/// The arithmetic of layouts, against exact numbers.
pub fn layouts() {
    fn of<T>(n: usize) -> (Layout, u128, usize) {
        let (s, a) = (core::mem::size_of::<T>(), core::mem::align_of::<T>());
        check!(Layout::of::<T>() == Layout { size: s, align: a }, "layout", "of a type of {s} bytes");
        (Layout::array::<T>(n), s as u128 * n as u128, a)
    }
    fn some() -> (Layout, u128, usize) {
        let n = match choose(3) {
            0 => pick(&[isize::MAX as usize, usize::MAX, usize::MAX / 3, usize::MAX / 24, usize::MAX / 32 + 1, 1 << 60]),
            _ => choose(9),
        };
        match choose(7) {
            0 => of::<u8>(n),
            1 => of::<u32>(n),
            2 => of::<[u8; 3]>(n),
            3 => of::<(u64, u64, u8)>(n),
            4 => of::<Big>(n),
            5 => of::<()>(n),
            _ => of::<[u16; 21]>(n),
        }
    }
    let fits = |l: Layout, need: u128, align: usize, what: &str| {
        check!(l.align % align == 0, "layout", "{what}: aligned to {} instead of {align}", l.align);
        if need <= isize::MAX as u128 / 2 {
            check!(l.size as u128 >= need, "layout", "{what}: {} bytes where {need} are needed", l.size);
            check!((l.size as u128) < need + l.align as u128 + 1, "layout", "{what}: {} bytes where {need} would do", l.size);
        } else {
            check!(l.size as u128 >= need || l.size > isize::MAX as usize, "layout", "{what}: {} bytes where {need} are needed", l.size);
        }
    };
    run(|| {
        let (l, size, align) = some();
        fits(l, size, align, "array");
        let (mut l, mut need, mut al) = (l, size, align);
        for _ in 0..choose(4) {
            let (o, s, a) = some();
            l = l.concat(o);
            need = need.next_multiple_of(a as u128) + s;
            al = al.max(a);
            need = need.next_multiple_of(al as u128);
            fits(l, need, al, "concatenation");
        }
        let to = pick(&ALIGNS);
        let r = l.realign(to);
        check!(r.align == to, "layout", "realigned to {} instead of {to}", r.align);
        check!(r.size >= l.size && (r.size % to == 0 || r.size == usize::MAX), "layout", "{} bytes realigned to {to}: {}", l.size, r.size);
        check!(r.size - l.size < to, "layout", "{} bytes realigned to {to}: {}", l.size, r.size);
        let p = 4096 + choose(600);
        let q = Layout { size: 1, align: to }.next_matching(p as *mut u64) as usize;
        check!(q >= p && q % to == 0 && q - p < to, "layout", "{q} is said to be the next multiple of {to} after {p}");
    })
}
