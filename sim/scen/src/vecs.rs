//! Collections against the standard library's: every operation, failing allocations, panicking user code.
use crate::h::*;
use core::ops::Bound;
use simrt::*;
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice};
use stabby_abi::alloc::vec::Vec as SVec;

/// What may go wrong during the operations of this run.
#[derive(Clone, Copy)]
pub struct Ctx {
    pub alloc: bool,
    pub malloc: bool,
    pub panics: bool,
}
pub static mut LOSSY: bool = false;
/// Something may have been leaked, as panics and forgotten drains are allowed to.
pub fn lossy() {
    unsafe { LOSSY = true }
}
pub enum Out<R> {
    Done(R),
    /// an allocation failed and the operation panicked, as documented
    NoMem,
    /// user code panicked
    Panicked,
}
pub fn act<R>(c: Ctx, f: impl FnOnce() -> R) -> Out<R> {
    let (p0, f0) = (reg().panicked, faults_fired());
    reg().panics = c.panics;
    if c.alloc || c.panics {
        set_faults(true);
        set_malloc_faults(c.malloc);
    }
    let r = catch(f);
    set_malloc_faults(false);
    set_faults(false);
    reg().panics = false;
    match r {
        Some(r) => Out::Done(r),
        None if reg().panicked > p0 => {
            lossy();
            Out::Panicked
        }
        None => {
            check!(faults_fired() > f0 || TOO_BIG.with(|t| t.get()), "spurious-failure", "an operation reported an allocation failure, but none happened");
            Out::NoMem
        }
    }
}
thread_local! { static TOO_BIG: core::cell::Cell<bool> = const { core::cell::Cell::new(false) }; }
pub fn too_big<R>(f: impl FnOnce() -> R) -> R {
    TOO_BIG.with(|t| t.set(true));
    let r = f();
    TOO_BIG.with(|t| t.set(false));
    r
}
pub fn fresh<T: Elem>(n: &mut u32) -> u32 {
    *n += 1;
    if T::ZST {
        0
    } else {
        *n % 251
    }
}
pub fn same<T: Elem>(got: &[T], want: &[u32], what: &str) {
    check!(got.len() == want.len(), "wrong-length", "{what}: {} elements instead of {}", got.len(), want.len());
    for (i, x) in got.iter().enumerate() {
        let v = x.v();
        check!(v == want[i], "wrong-element", "{what}: element {i} is {v} instead of {}", want[i]);
    }
}
pub fn read<T: Elem>(got: &[T]) -> Vec<u32> {
    got.iter().map(|x| x.v()).collect()
}
/// An iterator over fresh elements whose hints may lie and whose `next` may panic.
pub struct It<T> {
    pub left: usize,
    pub next: u32,
    pub hint: (usize, Option<usize>),
    pub _t: core::marker::PhantomData<T>,
}
impl<T: Elem> Iterator for It<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.left == 0 {
            return None;
        }
        maybe_panic("panic_iter");
        self.left -= 1;
        Some(T::mk(fresh::<T>(&mut self.next)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
pub fn iter<T: Elem>(next: &mut u32) -> (It<T>, Vec<u32>) {
    let n = pick(&[0usize, 1, 2, 3, 7, 12]);
    let hint = match choose(8) {
        0 => (n, Some(n)),
        1 => (n, None),
        2 => (0, None),
        3 => (0, Some(n + choose(5))),
        4 => (n.saturating_sub(1), Some(n.saturating_sub(1 + choose(3)))),
        5 => (n + choose(3), Some(n)),
        6 => (0, Some(pick(&[usize::MAX, isize::MAX as usize, 1 << 40]))),
        _ => (n / 2, Some(n / 2)),
    };
    let it = It { left: n, next: *next, hint, _t: core::marker::PhantomData };
    let vals = (0..n).map(|_| fresh::<T>(next)).collect();
    (it, vals)
}
pub const HUGE: [usize; 6] = [usize::MAX, usize::MAX - 1, usize::MAX / 2, usize::MAX / 16, usize::MAX / 24 + 1, 1 << 40];

/// A range, valid for a collection of `len` elements when the second item says so.
fn range(len: usize) -> ((Bound<usize>, Bound<usize>), Option<(usize, usize)>) {
    if choose(6) == 0 {
        let r = match choose(6) {
            0 => (Bound::Included(0), Bound::Excluded(len + 1)),
            1 => (Bound::Included(len + 1), Bound::Unbounded),
            2 => (Bound::Included(0), Bound::Included(len)),
            3 if len > 0 => (Bound::Included(1), Bound::Excluded(0)),
            4 => (Bound::Unbounded, Bound::Included(usize::MAX)),
            _ => (Bound::Excluded(usize::MAX), Bound::Unbounded),
        };
        return (r, None);
    }
    let a = choose(len + 1);
    let b = a + choose(len - a + 1);
    let lo = match choose(3) {
        0 if a > 0 => Bound::Excluded(a - 1),
        1 if a == 0 => Bound::Unbounded,
        _ => Bound::Included(a),
    };
    let hi = match choose(3) {
        0 if b > 0 => Bound::Included(b - 1),
        1 if b == len => Bound::Unbounded,
        _ => Bound::Excluded(b),
    };
    ((lo, hi), Some((a, b)))
}

fn caps<T: Elem, A: HAlloc>(v: &SVec<T, A>) {
    let (l, c, r) = (v.len(), v.capacity(), v.remaining_capacity());
    check!(c >= l && r == c - l, "capacity", "length {l}, capacity {c}, remaining {r}");
}
/// One operation on `v`, mirrored on `m`.
fn vec_step<T: Elem, A: HAlloc>(v: &mut SVec<T, A>, m: &mut Vec<u32>, next: &mut u32, c: Ctx) {
    let len = m.len();
    let op = choose(22);
    log(|| format!("vec op {op} on {len} elements"));
    macro_rules! resync {
        () => {{
            *m = read(v);
        }};
    }
    match op {
        0 | 1 => {
            let x = fresh::<T>(next);
            let room = v.remaining_capacity() > 0;
            let e = T::mk(x);
            let blocks = live_blocks();
            let r = act(c, || v.push(e));
            let after = live_blocks();
            match r {
                Out::Done(()) => m.push(x),
                Out::NoMem => check!(!room, "refused-with-room", "push failed on a vector with room left"),
                Out::Panicked => resync!(),
            }
            if room {
                check!(after == blocks, "reallocated", "push allocated although there was room");
            }
        }
        2 | 3 => {
            let x = fresh::<T>(next);
            let room = v.remaining_capacity() > 0;
            let e = T::mk(x);
            match act(c, || v.try_push(e)) {
                Out::Done(Ok(())) => m.push(x),
                Out::Done(Err(e)) => {
                    check!(!room, "refused-with-room", "try_push failed on a vector with room left");
                    check!(e.v() == x, "wrong-element", "try_push gave {} back instead of {x}", e.v());
                }
                Out::NoMem => fail("panic", || "try_push panicked".into()),
                Out::Panicked => resync!(),
            }
        }
        4 => {
            let (r, w) = (v.pop(), m.pop());
            check!(r.as_ref().map(|r| r.v()) == w, "wrong-element", "pop gave {r:?} instead of {w:?}");
        }
        5 | 6 => {
            let i = choose(len + 2);
            let r = if op == 5 { v.remove(i) } else { v.swap_remove(i) };
            let w = if i >= len { None } else if op == 5 { Some(m.remove(i)) } else { Some(m.swap_remove(i)) };
            check!(r.as_ref().map(|r| r.v()) == w, "wrong-element", "removing at {i} of {len} gave {r:?} instead of {w:?}");
        }
        7 => {
            let (i, j) = (choose(len + 1), choose(len + 1));
            let r = catch_any(|| v.swap(i, j));
            check!(r.is_some() == (i < len && j < len), "bounds", "swap({i}, {j}) on {len} elements: panicked {}", r.is_none());
            if r.is_some() {
                m.swap(i, j);
            }
        }
        8 => {
            let n = choose(len + 2);
            match act(c, || v.truncate(n)) {
                Out::Done(()) => m.truncate(n),
                Out::NoMem => unreachable!(),
                Out::Panicked => {
                    check!(v.len() <= len, "wrong-length", "truncating made the vector longer");
                    resync!()
                }
            }
        }
        9 | 10 => {
            let big = choose(4) == 0;
            let n = if big { pick(&HUGE) } else { pick(&[0usize, 1, 2, 3, 5, 9, 20]) };
            let (c0, p0) = (v.capacity(), v.as_slice().as_ptr());
            let blocks = live_blocks();
            let room = v.remaining_capacity() >= n;
            let r = if big { too_big(|| act(c, || if op == 9 { v.try_reserve(n).map(|x| x.get()) } else { v.reserve(n); Ok(v.capacity()) })) }
                else { act(c, || if op == 9 { v.try_reserve(n).map(|x| x.get()) } else { v.reserve(n); Ok(v.capacity()) }) };
            match r {
                Out::Done(Ok(k)) => {
                    check!(v.remaining_capacity() >= n, "not-reserved", "reserved {n}, but only {} more fit", v.remaining_capacity());
                    check!(T::ZST || k == v.capacity(), "capacity", "reservation reported a capacity of {k} instead of {}", v.capacity());
                    check!(!(big && !T::ZST), "impossible-alloc", "reserved {n} more elements");
                }
                Out::Done(Err(_)) | Out::NoMem => {
                    check!(!room, "refused-with-room", "reserving {n} failed with room for {}", v.remaining_capacity());
                    check!(v.capacity() == c0 && v.as_slice().as_ptr() == p0, "changed-by-failure", "a failed reservation changed the buffer");
                    if matches!(r, Out::NoMem) && op == 9 {
                        fail("panic", || "try_reserve panicked".into())
                    }
                }
                Out::Panicked => resync!(),
            }
            if room {
                check!(live_blocks() == blocks && v.as_slice().as_ptr() == p0, "reallocated", "reserve reallocated although there was room");
            }
        }
        11 | 12 => {
            let (it, vals) = iter::<T>(next);
            let h = it.hint;
            let r = if h.0 > 1 << 30 { too_big(|| act(c, || v.extend(it))) } else { act(c, || v.extend(it)) };
            match r {
                Out::Done(()) => m.extend(vals),
                _ => {
                    let got = read(v);
                    m.extend(vals);
                    check!(got.len() >= len && got.len() <= m.len() && got[..] == m[..got.len()], "wrong-element", "an interrupted extension with hint {h:?} left {got:?}, expected a part of {m:?}");
                    *m = got;
                }
            }
        }
        13 | 14 | 15 => drains(v, m, c),
        16 => {
            // consume it
            let alloc = v.allocator().clone();
            let old = core::mem::replace(v, SVec::new_in(alloc));
            let k = choose(len + 2);
            let mut it = old.into_iter();
            let mut got: Vec<T> = Vec::with_capacity(k);
            for _ in 0..k {
                match it.next() {
                    Some(x) => got.push(x),
                    None => break,
                }
            }
            same(&got, &m[..k.min(len)], "consuming iteration");
            match choose(8) {
                0 => {
                    core::mem::forget(it);
                    lossy();
                }
                1 => {
                    // the rest moves into another collection
                    let rest: Vec<T> = it.collect();
                    same(&rest, &m[k.min(len)..], "rest of a consuming iteration");
                }
                _ => {
                    act(c, || drop(it));
                }
            }
            act(c, || drop(got));
            m.clear();
        }
        17 => match act(c, || v.clone()) {
            Out::Done(mut w) => {
                same(&w, m, "clone");
                check!(w == *v && w.cmp(v) == core::cmp::Ordering::Equal, "comparison", "a clone differs from its source");
                if choose(2) == 0 && !w.is_empty() {
                    w.pop();
                    check!(*v > w && *v != w, "comparison", "a vector is not greater than its own prefix");
                    m.pop();
                }
                let w = core::mem::replace(v, w);
                act(c, || drop(w));
                m.truncate(v.len());
            }
            Out::NoMem | Out::Panicked => {}
        },
        18 => {
            for (i, x) in v.iter_mut().enumerate() {
                let n = fresh::<T>(next);
                x.set(n);
                m[i] = n;
            }
        }
        19 => {
            let i = choose(len + 1);
            let r = catch_any(|| v[i].v());
            check!(r == m.get(i).copied(), "wrong-element", "indexing at {i} of {len} gave {r:?}");
            check!(v.is_empty() == m.is_empty() && v.first().map(|x| x.v()) == m.first().copied(), "wrong-element", "first element");
        }
        20 => {
            let n = pick(&[0usize, 1, 3, 9, 1 << 40]);
            let a = A::mk();
            let r = if n > 100 { too_big(|| act(c, || SVec::<T, A>::try_with_capacity_in(n, a))) } else { act(c, || SVec::<T, A>::try_with_capacity_in(n, a)) };
            match r {
                Out::Done(Ok(mut w)) => {
                    check!(w.capacity() >= n && w.is_empty(), "capacity", "asked for {n}, got {}", w.capacity());
                    check!(T::ZST || n < 100, "impossible-alloc", "room for {n} elements");
                    // what it holds moves over
                    for x in v.drain(..) {
                        match act(c, || w.try_push(x)) {
                            Out::Done(Ok(())) => {}
                            Out::Done(Err(x)) => {
                                // nothing may be lost: put it where it cannot fail
                                let k = x.v();
                                drop(x);
                                outside(|| m.retain(|y| *y != k || T::ZST));
                                if T::ZST {
                                    outside(|| m.pop());
                                }
                            }
                            _ => fail("panic", || "try_push panicked".into()),
                        }
                    }
                    *v = w;
                }
                Out::Done(Err(_alloc)) => {}
                Out::NoMem | Out::Panicked => fail("panic", || "try_with_capacity_in panicked".into()),
            }
        }
        _ => {
            // through a boxed slice and back
            let alloc = v.allocator().clone();
            let old = core::mem::replace(v, SVec::new_in(alloc));
            let mut b: BoxedSlice<T, A> = old.into();
            same(&b, m, "boxed slice");
            for _ in 0..choose(3) {
                let x = fresh::<T>(next);
                match b.try_push(T::mk(x)) {
                    Ok(()) => m.push(x),
                    Err(e) => check!(e.v() == x, "wrong-element", "try_push gave {} back instead of {x}", e.v()),
                }
            }
            same(&b, m, "boxed slice");
            *v = b.into();
        }
    }
    same(v, m, "after the operation");
    caps(v);
}
fn drains<T: Elem, A: HAlloc>(v: &mut SVec<T, A>, m: &mut Vec<u32>, c: Ctx) {
    let len = m.len();
    let (r, valid) = range(len);
    log(|| format!("drains {r:?}"));
    let tried = choose(2) == 0;
    let Some((a, b)) = valid else {
        if tried {
            match catch_any(|| v.try_drain(r).is_none()) {
                Some(true) => {}
                x => fail("bounds", || format!("try_drain({r:?}) on {len} elements: {}", if x.is_none() { "panicked" } else { "accepted" })),
            }
        } else {
            let ok = catch_any(|| drop(v.drain(r)));
            check!(ok.is_none(), "bounds", "drain({r:?}) on {len} elements did not panic");
        }
        return;
    };
    let mut got: Vec<T> = Vec::with_capacity(len);
    let mut want: Vec<u32> = Vec::with_capacity(len);
    let mut exact = true;
    {
        let mut d = if tried {
            match v.try_drain(r) {
                Some(d) => d,
                None => fail("bounds", || format!("try_drain({r:?}) on {len} elements refused")),
            }
        } else {
            v.drain(r)
        };
        let (mut lo, mut hi) = (a, b);
        macro_rules! hint {
            ($d: expr) => {
                let h = $d.size_hint();
                let l = $d.len();
                check!(l == hi - lo && h == (hi - lo, Some(hi - lo)), "size-hint", "{} elements left to drain, but len() is {l} and size_hint() is {h:?}", hi - lo);
            };
        }
        hint!(d);
        for _ in 0..choose(b - a + 2) {
            let x = d.next();
            check!(x.is_some() == (lo < hi), "wrong-element", "draining {a}..{b}: element {lo} present: {}", x.is_some());
            if let Some(x) = x {
                got.push(x);
                want.push(m[lo]);
                lo += 1;
            }
            hint!(d);
        }
        match choose(8) {
            0 => {
                d.stop();
                hi = lo;
                m.drain(a..lo);
            }
            1 => {
                core::mem::forget(d);
                lossy();
                exact = false;
            }
            2 | 3 | 4 => {
                let mut d = d.double_ended();
                hint!(d);
                for _ in 0..choose(b - lo + 2) {
                    let x = if choose(2) == 0 {
                        let x = d.next();
                        if lo < hi {
                            want.push(m[lo]);
                            lo += 1;
                        } else {
                            check!(x.is_none(), "wrong-element", "an exhausted drain gives more");
                        }
                        x
                    } else {
                        let x = d.next_back();
                        if lo < hi {
                            hi -= 1;
                            want.push(m[hi]);
                        } else {
                            check!(x.is_none(), "wrong-element", "an exhausted drain gives more");
                        }
                        x
                    };
                    got.extend(x);
                    hint!(d);
                }
                if choose(10) == 0 {
                    core::mem::forget(d);
                    lossy();
                    exact = false;
                } else {
                    match act(c, || drop(d)) {
                        Out::Done(()) => {
                            m.drain(a..b);
                        }
                        _ => exact = false,
                    }
                }
            }
            _ => match act(c, || drop(d)) {
                Out::Done(()) => {
                    m.drain(a..b);
                }
                _ => exact = false,
            },
        }
        let _ = hi;
    }
    if !exact {
        *m = read(v);
    }
    same(&got, &want, "drained");
    act(c, || drop(got));
}
fn vec_engine<T: Elem, A: HAlloc>(c: Ctx) {
    run(|| {
        set_faults(false);
        lossless();
        let mut next = 0;
        let b0 = live_blocks();
        let mut v: SVec<T, A> = SVec::new_in(A::mk());
        check!(live_blocks() == b0, "allocated", "an empty vector allocated");
        let mut m: Vec<u32> = Vec::new();
        for _ in 0..2 + choose(14) {
            vec_step(&mut v, &mut m, &mut next, c);
        }
        drop(m);
        act(c, || drop(v));
        settle();
    })
}
pub fn lossless() {
    unsafe { LOSSY = false }
}
pub fn settle() {
    if unsafe { LOSSY } {
        forgive();
    }
}
pub const A: Ctx = Ctx { alloc: true, malloc: false, panics: false };
pub const M: Ctx = Ctx { alloc: true, malloc: true, panics: false };
pub const P: Ctx = Ctx { alloc: false, malloc: false, panics: true };
pub fn vec_tok_sa() {
    vec_engine::<Tok, SA>(A)
}
pub fn vec_tok_rust() {
    vec_engine::<Tok, RustAlloc>(M)
}
pub fn vec_shapes() {
    match choose(5) {
        0 => vec_engine::<Big, SB>(A),
        1 => vec_engine::<Small, SB>(A),
        2 => vec_engine::<Zst, SA>(A),
        3 => vec_engine::<Small, LibcAlloc>(M),
        _ => vec_engine::<Tok, SB>(A),
    }
}
pub fn vec_panics() {
    match choose(4) {
        0 => vec_engine::<Big, SB>(P),
        1 => vec_engine::<Zst, SA>(P),
        _ => vec_engine::<Tok, SA>(P),
    }
}
