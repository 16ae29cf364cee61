//! Conversions between the collections that share one allocation format; boxes; strings.
use crate::h::*;
use crate::vecs::*;
use core::mem::MaybeUninit;
use simrt::*;
use stabby_abi::alloc::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{Arc as SArc, ArcSlice, ArcStr, Weak as SWeak, WeakSlice, WeakStr};
use stabby_abi::alloc::vec::Vec as SVec;

enum Form<T: 'static, A: HAlloc> {
    V(SVec<T, A>),
    B(BoxedSlice<T, A>),
    S(ArcSlice<T, A>),
    /// a single value
    One(SArc<T, A>),
    Box(SBox<T, A>),
    Gone,
}
use Form::*;
fn slice_of<T, A: HAlloc>(f: &Form<T, A>) -> &[T] {
    match f {
        V(v) => v,
        B(b) => b,
        S(s) => s,
        One(a) => core::slice::from_ref(&**a),
        Box(b) => core::slice::from_ref(&**b),
        Gone => unreachable!(),
    }
}
fn chain<T: Elem, A: HAlloc>(c: Ctx) {
    run(|| {
        set_faults(false);
        lossless();
        let mut next = 0;
        let mut m: Vec<u32> = Vec::new();
        let mut cur: Form<T, A> = match choose(5) {
            0 => {
                let n = choose(4);
                let r = too_many(c, || BoxedSlice::with_capacity_in(n, A::mk()));
                match r {
                    Some(b) => B(b),
                    None => V(SVec::new_in(A::mk())),
                }
            }
            1 => {
                let x = fresh::<T>(&mut next);
                let e = T::mk(x);
                match act(c, || SArc::new_in(e, A::mk())) {
                    Out::Done(a) => {
                        m.push(x);
                        One(a)
                    }
                    _ => V(SVec::new_in(A::mk())),
                }
            }
            _ => {
                let mut v = SVec::new_in(A::mk());
                if choose(2) == 0 {
                    act(c, || v.reserve(pick(&[1, 2, 5])));
                }
                for _ in 0..choose(4) {
                    let x = fresh::<T>(&mut next);
                    let e = T::mk(x);
                    if let Out::Done(Ok(())) = act(c, || v.try_push(e)) {
                        m.push(x)
                    }
                }
                V(v)
            }
        };
        // other owners of a shared form
        let mut strong: Vec<ArcSlice<T, A>> = Vec::new();
        let mut weak: Vec<WeakSlice<T, A>> = Vec::new();
        for _ in 0..2 + choose(10) {
            let op = choose(12);
            cur = match core::mem::replace(&mut cur, Gone) {
                V(mut v) => match op {
                    0 | 1 | 2 => {
                        log(|| format!("Vec of {} -> BoxedSlice", m.len()));
                        B(v.into())
                    }
                    3 | 4 | 5 => {
                        log(|| format!("Vec of {} -> ArcSlice", m.len()));
                        let empty = v.capacity() == 0;
                        match act(c, || ArcSlice::from(v)) {
                            Out::Done(s) => S(s),
                            _ => {
                                check!(empty || T::ZST, "spurious-failure", "converting an allocated vector failed");
                                if T::ZST {
                                    lossy();
                                }
                                m.clear();
                                V(SVec::new_in(A::mk()))
                            }
                        }
                    }
                    6 | 7 => {
                        log(|| "push".into());
                        let x = fresh::<T>(&mut next);
                        let e = T::mk(x);
                        if let Out::Done(Ok(())) = act(c, || v.try_push(e)) {
                            m.push(x);
                        }
                        V(v)
                    }
                    8 => {
                        let k = choose(m.len() + 1);
                        log(|| format!("truncate to {k}"));
                        v.truncate(k);
                        m.truncate(k);
                        V(v)
                    }
                    9 => {
                        log(|| "drain".into());
                        let mut got: Vec<u32> = v.drain(..m.len() / 2).map(|x| x.v()).collect();
                        let rest = m.split_off(m.len() / 2);
                        core::mem::swap(&mut m, &mut got);
                        check!(m == got, "wrong-element", "drained {m:?} instead of {got:?}");
                        m = rest;
                        V(v)
                    }
                    _ => V(v),
                },
                B(mut b) => match op {
                    0 | 1 | 2 | 3 => {
                        log(|| format!("BoxedSlice of {} -> Vec", m.len()));
                        V(b.into())
                    }
                    4 | 5 => {
                        let x = fresh::<T>(&mut next);
                        match b.try_push(T::mk(x)) {
                            Ok(()) => m.push(x),
                            Err(e) => check!(e.v() == x, "wrong-element", "try_push gave {} back instead of {x}", e.v()),
                        }
                        V(b.into())
                    }
                    6 => {
                        for (i, e) in b.as_slice_mut().iter_mut().enumerate() {
                            let x = fresh::<T>(&mut next);
                            e.set(x);
                            m[i] = x;
                        }
                        B(b)
                    }
                    7 => {
                        log(|| "BoxedSlice -> iterator".into());
                        let mut v = SVec::new_in(A::mk());
                        let mut want = core::mem::take(&mut m);
                        let mut it = b.into_iter();
                        let mut i = 0;
                        while let Some(e) = it.next() {
                            check!(i < want.len() && e.v() == want[i], "wrong-element", "iteration gave {} at {i}", e.v());
                            let x = want[i];
                            i += 1;
                            if i == 3 {
                                break;
                            }
                            if let Out::Done(Ok(())) = act(c, || v.try_push(e)) {
                                m.push(x);
                            }
                        }
                        drop(it);
                        want.clear();
                        V(v)
                    }
                    _ => B(b),
                },
                S(mut s) => match op {
                    0 | 1 | 2 | 3 => {
                        log(|| format!("ArcSlice of {} -> Vec", m.len()));
                        let unique = strong.is_empty() && weak.is_empty();
                        match SVec::try_from(s) {
                            Ok(v) => {
                                check!(unique, "stolen", "a slice with {} other owners was turned into a vector", strong.len() + weak.len());
                                check!(v.capacity() >= v.len(), "capacity", "capacity {} for {} elements", v.capacity(), v.len());
                                V(v)
                            }
                            Err(s) => {
                                check!(!unique || T::ZST, "refused", "a uniquely owned slice could not be turned into a vector");
                                S(s)
                            }
                        }
                    }
                    4 => {
                        strong.push(s.clone());
                        S(s)
                    }
                    5 => {
                        weak.push((&s).into());
                        S(s)
                    }
                    6 => {
                        // this owner is gone for a while
                        if let Some(other) = strong.pop() {
                            drop(s);
                            S(other)
                        } else {
                            drop(s);
                            for w in &weak {
                                check!(w.upgrade().is_none(), "resurrected", "a slice without strong owners was upgraded");
                            }
                            weak.clear();
                            m.clear();
                            V(SVec::new_in(A::mk()))
                        }
                    }
                    7 => {
                        strong.clear();
                        weak.clear();
                        S(s)
                    }
                    8 => {
                        let raw = ArcSlice::into_raw(s);
                        S(unsafe { ArcSlice::from_raw(raw) })
                    }
                    9 => {
                        let unique = strong.is_empty() && weak.is_empty();
                        match s.as_slice_mut() {
                            Some(l) => {
                                check!(unique, "aliased", "mutable access to a slice with {} other owners", strong.len() + weak.len());
                                for (i, e) in l.iter_mut().enumerate() {
                                    let x = fresh::<T>(&mut next);
                                    e.set(x);
                                    m[i] = x;
                                }
                            }
                            None => check!(!unique, "refused", "no mutable access to a uniquely owned slice"),
                        }
                        S(s)
                    }
                    10 => {
                        if let Some(w) = weak.pop() {
                            match w.upgrade() {
                                Some(u) => {
                                    same(&u, &m, "upgraded");
                                    strong.push(u)
                                }
                                None => fail("not-upgraded", || "a slice with a strong owner could not be upgraded".into()),
                            }
                        }
                        S(s)
                    }
                    _ => {
                        check!(ArcSlice::strong_count(&s) == 1 + strong.len(), "counts", "{} strong owners, {} counted", 1 + strong.len(), ArcSlice::strong_count(&s));
                        check!(ArcSlice::weak_count(&s) == 1 + weak.len(), "counts", "{} weak owners, {} counted", weak.len(), ArcSlice::weak_count(&s) - 1);
                        S(s)
                    }
                },
                One(a) => match op {
                    0 | 1 | 2 => {
                        log(|| "Arc -> ArcSlice".into());
                        S(a.into())
                    }
                    3 => {
                        let raw = SArc::into_raw(a);
                        One(unsafe { SArc::from_raw(raw) })
                    }
                    4 => {
                        log(|| "Arc -> value -> Box".into());
                        match SArc::try_into_inner(a) {
                            Ok(x) => match act(c, || SBox::try_new_in(x, A::mk())) {
                                Out::Done(Ok(b)) => Box(b),
                                Out::Done(Err((x, _a))) => {
                                    check!(x.v() == m[0], "wrong-element", "a failed allocation gave {} back", x.v());
                                    m.clear();
                                    V(SVec::new_in(A::mk()))
                                }
                                _ => fail("panic", || "try_new_in panicked".into()),
                            },
                            Err(_) => fail("refused", || "a uniquely owned value could not be unwrapped".into()),
                        }
                    }
                    5 => {
                        let w = SArc::downgrade(&a);
                        let raw = SWeak::into_raw(w);
                        let w = unsafe { SWeak::from_raw(raw) };
                        check!(w.upgrade().map(|a| a.v()) == Some(m[0]), "not-upgraded", "an owned value could not be upgraded");
                        One(a)
                    }
                    _ => One(a),
                },
                Box(b) => match op {
                    0 | 1 => {
                        let raw = SBox::into_raw(b);
                        Box(unsafe { SBox::from_raw(raw) })
                    }
                    2 | 3 => {
                        log(|| "Box -> value -> Arc".into());
                        let x = SBox::into_inner(b);
                        match act(c, || SArc::try_new_in(x, A::mk())) {
                            Out::Done(Ok(a)) => One(a),
                            Out::Done(Err((x, _a))) => {
                                check!(x.v() == m[0], "wrong-element", "a failed allocation gave {} back", x.v());
                                m.clear();
                                V(SVec::new_in(A::mk()))
                            }
                            _ => fail("panic", || "try_new_in panicked".into()),
                        }
                    }
                    _ => Box(b),
                },
                Gone => unreachable!(),
            };
            same(slice_of(&cur), &m, "after the conversion");
            for s in &strong {
                same(s, &m, "another owner");
            }
        }
        drop(m);
        match choose(3) {
            0 => {
                drop(strong);
                drop(weak);
                drop(cur);
            }
            1 => {
                drop(cur);
                drop(weak);
                drop(strong);
            }
            _ => {
                drop(strong);
                drop(cur);
                drop(weak);
            }
        }
        settle();
    })
}
fn too_many<R>(c: Ctx, f: impl FnOnce() -> R) -> Option<R> {
    match act(c, f) {
        Out::Done(r) => Some(r),
        _ => None,
    }
}
pub fn chains() {
    match choose(7) {
        0 => chain::<Tok, SA>(A),
        1 => chain::<Tok, SB>(A),
        2 => chain::<Big, SA>(A),
        3 => chain::<Big, SB>(A),
        4 => chain::<Zst, SA>(A),
        5 => chain::<Small, SB>(A),
        _ => chain::<Tok, SA>(Ctx { alloc: false, ..A }),
    }
}
pub fn chains_default() {
    match choose(4) {
        0 => chain::<Tok, RustAlloc>(M),
        1 => chain::<Big, RustAlloc>(M),
        2 => chain::<Small, LibcAlloc>(M),
        _ => chain::<Tok, LibcAlloc>(M),
    }
}

// ------------------------------------------------------------------------------------------ strings
enum Str<A: HAlloc> {
    Owned(SString<A>),
    Boxed(BoxedStr<A>),
    Shared(ArcStr<A>),
    Bytes(SVec<u8, A>),
    Gone,
}
fn str_of<A: HAlloc>(s: &Str<A>) -> &[u8] {
    match s {
        Str::Owned(s) => s.as_str().as_bytes(),
        Str::Boxed(s) => s.as_str().as_bytes(),
        Str::Shared(s) => s.as_str().as_bytes(),
        Str::Bytes(v) => v,
        Str::Gone => unreachable!(),
    }
}
const BITS: [&str; 8] = ["", "a", "bc", "déjà", "\u{10348}", "0123456789", "é", "a string that is rather longer than the first capacity"];
fn strings<A: HAlloc>(c: Ctx) {
    use core::fmt::Write;
    run(|| {
        set_faults(false);
        lossless();
        let mut m: String = String::new();
        let mut bytes: Option<Vec<u8>> = None;
        let mut s: Str<A> = Str::Owned(SString::new_in(A::mk()));
        let mut strong: Vec<ArcStr<A>> = Vec::new();
        let mut weak: Vec<WeakStr<A>> = Vec::new();
        for _ in 0..2 + choose(12) {
            let op = choose(10);
            let bit = pick(&BITS);
            s = match core::mem::replace(&mut s, Str::Gone) {
                Str::Owned(mut s) => match op {
                    0 | 1 | 2 => {
                        log(|| format!("concatenate {bit:?}"));
                        match if op == 0 { act(c, || { s += bit; Ok(()) }) } else { act(c, || s.try_concat(bit)) } {
                            Out::Done(Ok(())) => m.push_str(bit),
                            Out::NoMem => check!(op == 0, "panic", "try_concat panicked"),
                            _ => {}
                        }
                        Str::Owned(s)
                    }
                    3 => Str::Boxed(s.into()),
                    4 => match act(c, || ArcStr::from(s)) {
                        Out::Done(a) => Str::Shared(a),
                        _ => {
                            check!(m.is_empty(), "spurious-failure", "sharing a string in memory failed");
                            Str::Owned(SString::new_in(A::mk()))
                        }
                    },
                    5 => Str::Bytes(s.into()),
                    6 => {
                        s.as_str_mut().make_ascii_uppercase();
                        m.make_ascii_uppercase();
                        Str::Owned(s)
                    }
                    7 => {
                        check!(s == m && s.as_str().cmp(&m) == core::cmp::Ordering::Equal, "comparison", "equal strings differ");
                        let d = match act(c, || SString::<A>::from(bit)) {
                            Out::Done(d) => d,
                            _ => SString::new_in(A::mk()),
                        };
                        check!((s.cmp(&d) == m.as_str().cmp(d.as_str())) && (s == d.as_str()) == (m == d.as_str()), "comparison", "strings {m:?} and {:?}", d.as_str());
                        Str::Owned(s)
                    }
                    8 => {
                        let (a, b) = (format!("{s}|{s:?}"), format!("{m}|{m:?}"));
                        check!(a == b, "formatting", "{a} instead of {b}");
                        Str::Owned(s)
                    }
                    _ => match act(c, || s + bit) {
                        Out::Done(s) => {
                            m.push_str(bit);
                            Str::Owned(s)
                        }
                        _ => {
                            m.clear();
                            Str::Owned(SString::new_in(A::mk()))
                        }
                    },
                },
                Str::Boxed(mut b) => {
                    if op < 3 {
                        b.as_str_mut().make_ascii_uppercase();
                        m.make_ascii_uppercase();
                    }
                    if op < 8 {
                        Str::Owned(b.into())
                    } else {
                        Str::Boxed(b)
                    }
                }
                Str::Shared(mut a) => {
                    let unique = strong.is_empty() && weak.is_empty();
                    match op {
                        0 | 1 | 2 => match SString::try_from(a) {
                            Ok(s) => {
                                check!(unique, "stolen", "a string with other owners was taken over");
                                Str::Owned(s)
                            }
                            Err(a) => {
                                check!(!unique, "refused", "a uniquely owned string could not be taken over");
                                Str::Shared(a)
                            }
                        },
                        3 => {
                            strong.push(a.clone());
                            Str::Shared(a)
                        }
                        4 => {
                            weak.push((&a).into());
                            Str::Shared(a)
                        }
                        5 => {
                            check!(ArcStr::is_unique(&a) == unique, "uniqueness", "unique: {unique}");
                            match a.as_str_mut() {
                                Some(x) => {
                                    x.make_ascii_uppercase();
                                    m.make_ascii_uppercase();
                                }
                                None => check!(!unique, "refused", "no mutable access to a uniquely owned string"),
                            }
                            Str::Shared(a)
                        }
                        6 => {
                            strong.clear();
                            weak.clear();
                            Str::Shared(a)
                        }
                        7 => {
                            // the last strong owner goes, a weak one brings the bytes back
                            strong.clear();
                            match weak.pop() {
                                Some(w) => {
                                    let alone = choose(2) == 0;
                                    if alone {
                                        weak.clear();
                                    }
                                    drop(a);
                                    // a refused upgrade marks the counter, and reviving must cope with both
                                    for _ in 0..choose(3) {
                                        check!(w.upgrade().is_none(), "resurrected", "a string without strong owners was upgraded");
                                    }
                                    let a = w.force_upgrade();
                                    if choose(2) == 0 {
                                        let b = w.force_upgrade();
                                        check!(a.as_str() == m && b.as_str() == m, "wrong-element", "revived {a:?} instead of {m:?}");
                                        drop(b);
                                    }
                                    drop(w);
                                    Str::Shared(a)
                                }
                                None => Str::Shared(a),
                            }
                        }
                        8 => {
                            if let Some(w) = weak.last() {
                                match w.upgrade() {
                                    Some(u) => strong.push(u),
                                    None => fail("not-upgraded", || "a string with a strong owner could not be upgraded".into()),
                                }
                            }
                            Str::Shared(a)
                        }
                        _ => Str::Shared(a),
                    }
                }
                Str::Bytes(mut v) => match op {
                    0 | 1 => {
                        let add: &[u8] = pick(&[&b"xyz"[..], &[0xff], &[0xc3], &[], b"plain ascii text, longer than the capacity"]);
                        let mut mb = bytes.take().unwrap_or_else(|| m.clone().into_bytes());
                        // a failed write boxes its error, which aborts when malloc fails as well
                        let r = if op == 0 || c.malloc { act(c, || v.try_copy_extend(add).is_ok()) } else { act(c, || std::io::Write::write(&mut v, add).is_ok_and(|n| n == add.len())) };
                        match r {
                            Out::Done(true) => mb.extend_from_slice(add),
                            Out::Done(false) => {}
                            _ => fail("panic", || "a fallible extension panicked".into()),
                        }
                        bytes = Some(mb);
                        Str::Bytes(v)
                    }
                    _ => {
                        let mb = bytes.take().unwrap_or_else(|| m.clone().into_bytes());
                        match SString::try_from(v) {
                            Ok(s) => match String::from_utf8(mb) {
                                Ok(x) => {
                                    m = x;
                                    Str::Owned(s)
                                }
                                Err(e) => fail("not-utf8", || format!("{e:?} was accepted as a string")),
                            },
                            Err(_) => {
                                check!(String::from_utf8(mb).is_err(), "refused", "valid text was refused");
                                m.clear();
                                Str::Owned(SString::new_in(A::mk()))
                            }
                        }
                    }
                },
                Str::Gone => unreachable!(),
            };
            let got = str_of(&s);
            let want: &[u8] = match &bytes {
                Some(b) => b,
                None => m.as_bytes(),
            };
            check!(got == want, "wrong-text", "{got:?} instead of {want:?}");
            for o in &strong {
                check!(o.as_str() == m, "wrong-text", "another owner sees {:?} instead of {m:?}", o.as_str());
            }
        }
        // the formatting interface of the default string
        if choose(4) == 0 {
            let mut d = stabby::string::String::new();
            let mut w = String::new();
            for _ in 0..choose(4) {
                let bit = pick(&BITS);
                match act(M, || d.write_str(bit)) {
                    Out::Done(Ok(())) => w.push_str(bit),
                    Out::Done(Err(_)) => check!(faults_fired() > 0, "spurious-failure", "write_str failed"),
                    _ => fail("panic", || "write_str panicked".into()),
                }
            }
            check!(d.as_str() == w, "wrong-text", "{:?} instead of {w:?}", d.as_str());
        }
    })
}
pub fn strings_all() {
    match choose(4) {
        0 => strings::<SA>(A),
        1 => strings::<SB>(A),
        2 => strings::<LibcAlloc>(M),
        _ => strings::<RustAlloc>(M),
    }
}

// -------------------------------------------------------------------------------------------- boxes
fn ctor_of<T, F: for<'a> FnOnce(&'a mut MaybeUninit<T>) -> Result<&'a mut T, ()>>(f: F) -> F {
    f
}
fn boxes<T: Elem, A: HAlloc>(c: Ctx) {
    run(|| {
        set_faults(false);
        lossless();
        let mut next = 0;
        let mut l: Vec<(SBox<T, A>, u32)> = Vec::new();
        for _ in 0..2 + choose(10) {
            let x = fresh::<T>(&mut next);
            match choose(8) {
                0 => {
                    let e = T::mk(x);
                    if let Out::Done(b) = act(c, || SBox::new_in(e, A::mk())) {
                        l.push((b, x));
                    }
                }
                1 => {
                    let e = T::mk(x);
                    match act(c, || SBox::try_new_in(e, A::mk())) {
                        Out::Done(Ok(b)) => l.push((b, x)),
                        Out::Done(Err((e, _a))) => check!(e.v() == x, "wrong-element", "try_new_in gave {} back instead of {x}", e.v()),
                        Out::NoMem => fail("panic", || "try_new_in panicked".into()),
                        Out::Panicked => {}
                    }
                }
                2 => {
                    // a constructor that may refuse or panic
                    let refuse = choose(2) == 0;
                    let ctor = ctor_of(|slot: &mut MaybeUninit<T>| {
                        maybe_panic("panic_clone");
                        if refuse {
                            Err(())
                        } else {
                            Ok(slot.write(T::mk(x)))
                        }
                    });
                    match act(c, || unsafe { SBox::<T, A>::try_make_in(ctor, A::mk()) }) {
                        Out::Done(Ok(b)) => {
                            check!(!refuse, "accepted", "a refusing constructor made a box");
                            l.push((b, x));
                        }
                        Out::Done(Err(Ok(_uninit))) => check!(refuse, "refused", "the constructor was said to have refused"),
                        Out::Done(Err(Err((ctor, _a)))) => {
                            // the constructor comes back unused: it can be tried again elsewhere
                            let mut slot = MaybeUninit::<T>::uninit();
                            if let Ok(r) = ctor(&mut slot) {
                                check!(r.v() == x, "wrong-element", "constructed {} instead of {x}", r.v());
                                unsafe { slot.assume_init_drop() };
                            }
                        }
                        Out::NoMem => fail("panic", || "try_make_in panicked".into()),
                        Out::Panicked => {}
                    }
                }
                3 if !l.is_empty() => {
                    let (b, w) = l.swap_remove(choose(l.len()));
                    let e = SBox::into_inner(b);
                    check!(e.v() == w, "wrong-element", "into_inner gave {} instead of {w}", e.v());
                    act(c, || drop(e));
                }
                4 if !l.is_empty() => {
                    let (b, w) = &l[choose(l.len())];
                    if let Out::Done(n) = act(c, || b.clone()) {
                        let w = *w;
                        l.push((n, w));
                    }
                }
                5 if !l.is_empty() => {
                    let (b, w) = l.swap_remove(choose(l.len()));
                    check!(b.v() == w, "wrong-element", "a box holds {} instead of {w}", b.v());
                    act(c, || drop(b));
                }
                6 if !l.is_empty() => {
                    let i = choose(l.len());
                    l[i].0.set(x);
                    l[i].1 = x;
                }
                _ if !l.is_empty() => {
                    let (b, w) = l.swap_remove(choose(l.len()));
                    let b = unsafe { SBox::from_raw(SBox::into_raw(b)) };
                    l.push((b, w));
                }
                _ => {}
            }
            for (b, w) in &l {
                check!(b.v() == *w, "wrong-element", "a box holds {} instead of {w}", b.v());
            }
        }
        act(c, || drop(l));
        settle();
    })
}
pub fn boxes_all() {
    match choose(6) {
        0 => boxes::<Tok, SA>(A),
        1 => boxes::<Big, SA>(A),
        2 => boxes::<Big, RustAlloc>(M),
        3 => boxes::<Zst, SA>(A),
        4 => boxes::<Zst, RustAlloc>(M),
        _ => boxes::<Tok, LibcAlloc>(M),
    }
}
pub fn boxes_panics() {
    match choose(3) {
        0 => boxes::<Tok, SA>(P),
        1 => boxes::<Big, SB>(P),
        _ => boxes::<Zst, SA>(P),
    }
}
