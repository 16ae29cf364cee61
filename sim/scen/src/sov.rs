//! The vector that stores a single element inline.
use crate::h::*;
use crate::vecs::*;
use simrt::*;
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::vec::Vec as SVec;

/// An element whose layout leaves both forbidden values and padding to exploit.
#[stabby::stabby(no_opt)]
pub struct Nic {
    flag: bool,
    tok: Tok,
    last: bool,
}
impl Elem for Nic {
    fn mk(v: u32) -> Self {
        Nic { flag: v % 2 == 0, tok: Tok::new(v), last: v % 3 == 0 }
    }
    fn v(&self) -> u32 {
        let v = self.tok.v();
        let raw = |b: &bool| unsafe { *(b as *const bool as *const u8) };
        check!(raw(&self.flag) == (v % 2 == 0) as u8 && raw(&self.last) == (v % 3 == 0) as u8, "torn-value", "flags of element {v} are {} and {}", raw(&self.flag), raw(&self.last));
        v
    }
    fn set(&mut self, v: u32) {
        self.tok.set(v);
        self.flag = v % 2 == 0;
        self.last = v % 3 == 0;
    }
}
fwd!(Nic);
/// Padding between the fields, none of it meaningful.
#[stabby::stabby(no_opt)]
pub struct Pad {
    a: u8,
    b: u32,
    c: u8,
}
impl Elem for Pad {
    fn mk(v: u32) -> Self {
        let mut p = Pad { a: 0, b: 0, c: 0 };
        // the padding is anything
        unsafe { core::ptr::write_bytes(&mut p as *mut Pad as *mut u8, (v * 37) as u8, core::mem::size_of::<Pad>()) };
        p.a = v as u8;
        p.b = v;
        p.c = !v as u8;
        p
    }
    fn v(&self) -> u32 {
        check!(self.a == self.b as u8 && self.c == !self.b as u8, "torn-value", "element holds {}, {} and {}", self.a, self.b, self.c);
        self.b
    }
    fn set(&mut self, v: u32) {
        let p = Pad::mk(v);
        // whole-value assignment may bring any padding along
        unsafe { core::ptr::copy_nonoverlapping(&p as *const Pad as *const u8, self as *mut Pad as *mut u8, core::mem::size_of::<Pad>()) };
    }
}
fwd!(Pad);

macro_rules! engine {
    ($name: ident, $t: ty, $a: ty) => {
        pub fn $name(c: Ctx) {
            type T = $t;
            type A = $a;
            type S = SingleOrVec<T, A>;
            run(|| {
                set_faults(false);
                lossless();
                let mut next = 0;
                let b0 = live_blocks();
                let mut v: S = S::new_in(<A as HAlloc>::mk());
                check!(live_blocks() == b0, "allocated", "an empty vector allocated");
                let mut m: Vec<u32> = Vec::new();
                for _ in 0..2 + choose(12) {
                    let len = m.len();
                    let op = choose(16);
                    log(|| format!("op {op} on {len} elements"));
                    match op {
                        0 | 1 | 2 => {
                            let x = fresh::<T>(&mut next);
                            let e = T::mk(x);
                            let room = v.remaining_capacity() > 0;
                            let r = if op == 0 { act(c, || { v.push(e); Ok(()) }) } else { act(c, || v.try_push(e)) };
                            match r {
                                Out::Done(Ok(())) => m.push(x),
                                Out::Done(Err(e)) => {
                                    check!(!room, "refused-with-room", "try_push failed with room left");
                                    check!(e.v() == x, "wrong-element", "try_push gave {} back instead of {x}", e.v());
                                }
                                Out::NoMem => {
                                    check!(op == 0, "panic", "try_push panicked");
                                    check!(!room, "refused-with-room", "push failed with room left");
                                }
                                Out::Panicked => m = read(&v),
                            }
                        }
                        3 | 4 => {
                            let big = choose(4) == 0;
                            let n = if big { pick(&HUGE) } else { pick(&[0usize, 1, 2, 3, 5, 9, 20]) };
                            let room = v.remaining_capacity() >= n;
                            let cap = v.capacity();
                            let f = || if op == 3 { v.try_reserve(n).map(|x| x.get()) } else { v.reserve(n); Ok(v.capacity()) };
                            let r = if big { too_big(|| act(c, f)) } else { act(c, f) };
                            let r = match r {
                                Out::NoMem if op == 3 => fail("panic", || "try_reserve panicked".into()),
                                Out::NoMem => false,
                                Out::Done(r) => {
                                    if let Ok(k) = r {
                                        check!(T::ZST || k == v.capacity(), "capacity", "reservation reported a capacity of {k} instead of {}", v.capacity());
                                        check!(!(big && !T::ZST), "impossible-alloc", "reserved {n} more elements");
                                    }
                                    r.is_ok()
                                }
                                Out::Panicked => {
                                    m = read(&v);
                                    true
                                }
                            };
                            if r {
                                check!(v.remaining_capacity() >= n, "not-reserved", "reserved {n}, but only {} more fit", v.remaining_capacity());
                            } else {
                                check!(!(room && n > 0), "refused-with-room", "reserving {n} failed with room for {}", v.remaining_capacity());
                                check!(v.capacity() == cap, "changed-by-failure", "a failed reservation changed the capacity from {cap} to {}", v.capacity());
                            }
                        }
                        5 | 6 => {
                            let n = choose(len + 2);
                            match act(c, || v.truncate(n)) {
                                Out::Done(()) => m.truncate(n),
                                _ => {
                                    check!(v.len() <= len, "wrong-length", "truncating made the vector longer");
                                    m = read(&v);
                                }
                            }
                        }
                        7 if choose(2) == 0 => {
                            // the references outlive the iterator
                            let l: Vec<&mut T> = (&mut v).into_iter().collect();
                            for (i, x) in l.into_iter().enumerate() {
                                let n = fresh::<T>(&mut next);
                                x.set(n);
                                m[i] = n;
                            }
                        }
                        7 => {
                            let mut g = v.as_slice_mut();
                            for (i, x) in g.iter_mut().enumerate() {
                                let n = fresh::<T>(&mut next);
                                x.set(n);
                                m[i] = n;
                            }
                        }
                        8 => match act(c, || v.clone()) {
                            Out::Done(w) => {
                                same(&w, &m, "clone");
                                check!(w == v && w.cmp(&v) == core::cmp::Ordering::Equal, "comparison", "a clone differs from its source");
                                let w = core::mem::replace(&mut v, w);
                                act(c, || drop(w));
                            }
                            Out::NoMem | Out::Panicked => {}
                        },
                        9 | 10 => {
                            let (it, vals) = iter::<T>(&mut next);
                            match act(c, || v.extend(it)) {
                                Out::Done(()) => m.extend(vals),
                                _ => {
                                    let got = read(&v);
                                    m.extend(vals);
                                    check!(got.len() >= len && got.len() <= m.len() && got[..] == m[..got.len()], "wrong-element", "an interrupted extension left {got:?}, expected a part of {m:?}");
                                    m = got;
                                }
                            }
                        }
                        11 | 12 => {
                            // mutable iteration, from both ends
                            let (mut lo, mut hi) = (0, len);
                            let mut it = (&mut v).into_iter();
                            for _ in 0..choose(5) {
                                check!(it.len() == hi - lo && it.size_hint() == (hi - lo, Some(hi - lo)), "size-hint", "{} elements left, but len() is {}", hi - lo, it.len());
                                let n = pick(&[0usize, 0, 1, 2, usize::MAX]);
                                let (at, x) = match choose(4) {
                                    0 => {
                                        let at = (lo < hi).then_some(lo);
                                        lo += (lo < hi) as usize;
                                        (at, it.next())
                                    }
                                    1 => {
                                        hi -= (lo < hi) as usize;
                                        let at = (m.len() > 0 && hi >= lo && hi < len).then_some(hi);
                                        let x = it.next_back();
                                        (if x.is_some() { at } else { None }, x)
                                    }
                                    2 => {
                                        let skip = n.min(hi - lo);
                                        lo += skip;
                                        let at = (lo < hi).then_some(lo);
                                        lo += (lo < hi) as usize;
                                        (at, it.nth(n))
                                    }
                                    _ => {
                                        let skip = n.min(hi - lo);
                                        hi -= skip;
                                        let at = (lo < hi).then(|| hi - 1);
                                        hi -= (lo < hi) as usize;
                                        (at, it.nth_back(n))
                                    }
                                };
                                check!(x.is_some() == at.is_some(), "wrong-element", "iteration over {len} elements, {lo}..{hi} left: expected {at:?}, got one: {}", x.is_some());
                                if let (Some(x), Some(at)) = (x, at) {
                                    check!(x.v() == m[at], "wrong-element", "iteration gave {} instead of {}", x.v(), m[at]);
                                    let n = fresh::<T>(&mut next);
                                    x.set(n);
                                    m[at] = n;
                                }
                            }
                            match choose(3) {
                                0 => {
                                    let x = it.last().map(|x| x.v());
                                    let w = (lo < hi).then(|| m[hi - 1]);
                                    check!(x == w, "wrong-element", "last() gave {x:?} instead of {w:?}");
                                }
                                1 => {
                                    let x = it.count();
                                    check!(x == hi - lo, "wrong-element", "count() gave {x} instead of {}", hi - lo);
                                }
                                _ => drop(it),
                            }
                        }
                        13 | 14 => {
                            let w = core::mem::replace(&mut v, S::new_in(<A as HAlloc>::mk()));
                            match act(c, || SVec::<T, A>::from(w)) {
                                Out::Done(w) => {
                                    same(&w, &m, "converted to a vector");
                                    v = w.into();
                                }
                                // documented to panic when the vector cannot be allocated: the element is gone
                                _ => m.clear(),
                            }
                        }
                        _ => {
                            let i = choose(len + 1);
                            let r = catch_any(|| v[i].v());
                            check!(r == m.get(i).copied(), "wrong-element", "indexing at {i} of {len} gave {r:?}");
                            check!((&v).into_iter().count() == len && v.is_empty() == (len == 0), "wrong-length", "iteration over {len}");
                        }
                    }
                    same(&v, &m, "after the operation");
                    let (l, cp, r) = (v.len(), v.capacity(), v.remaining_capacity());
                    check!(cp >= l && r == cp - l, "capacity", "length {l}, capacity {cp}, remaining {r}");
                }
                drop(m);
                act(c, || drop(v));
                settle();
            })
        }
    };
}
engine!(tok_sa, Tok, SA);
engine!(tok_rust, Tok, RustAlloc);
engine!(nic_sa, Nic, SA);
engine!(nic_sb, Nic, SB);
engine!(nic_rust, Nic, RustAlloc);
engine!(pad_sa, Pad, SA);
engine!(pad_rust, Pad, RustAlloc);
engine!(small_rust, Small, RustAlloc);
engine!(small_sa, Small, SA);
engine!(zst_sa, Zst, SA);
pub fn model() {
    match choose(10) {
        0 => tok_sa(A),
        1 => tok_rust(M),
        2 => nic_sa(A),
        3 => nic_sb(A),
        4 => nic_rust(M),
        5 => pad_sa(A),
        6 => pad_rust(M),
        7 => small_rust(M),
        8 => small_sa(A),
        _ => zst_sa(A),
    }
}
pub fn panics() {
    match choose(4) {
        0 => tok_sa(P),
        1 => nic_sa(P),
        2 => nic_sb(P),
        _ => zst_sa(P),
    }
}
