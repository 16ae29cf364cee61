//! Values handled as if they were of another type (`ref_as`, `mut_as`): what the view shows, what its edits
//! leave behind, user code that panics in the middle, allocations that fail, views of views, several threads.
use crate::h::*;
use crate::vecs::*;
use simrt::*;
use stabby_abi::alloc::boxed::{BoxedSlice, BoxedStr};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::AccessAs;
use std::cell::RefCell;

/// No fault from here to the end of the scope, unwinding included: the way back to the source is not
/// allowed to fail, there is nobody left to tell.
struct Quiet;
impl Drop for Quiet {
    fn drop(&mut self) {
        set_faults(false);
        set_malloc_faults(false);
        reg().panics = false;
    }
}
fn see<T: Elem>(got: &[T], m: &[u32], what: &str) {
    check!(got.len() == m.len(), "lost-edit", "{what}: {} elements instead of {}", got.len(), m.len());
    for (i, (e, x)) in got.iter().zip(m).enumerate() {
        let v = e.v();
        check!(v == if T::ZST { 0 } else { *x }, "lost-edit", "{what}: element {i} is {v} instead of {x}");
    }
}
type M = RefCell<Vec<u32>>;
/// Edits of a vector, each recorded once it is done.
fn edit_vec<T: Elem, A: HAlloc>(v: &mut SVec<T, A>, m: &M, next: &mut u32) {
    for _ in 0..choose(4) {
        match choose(4) {
            0 | 1 => {
                let x = fresh::<T>(next);
                if v.try_push(T::mk(x)).is_ok() {
                    m.borrow_mut().push(x)
                }
            }
            2 => {
                let k = choose(v.len() + 1);
                m.borrow_mut().truncate(k);
                v.truncate(k)
            }
            _ => edit_slice(v, m, next),
        }
        maybe_panic("panic_edit");
    }
}
fn edit_slice<T: Elem>(v: &mut [T], m: &M, next: &mut u32) {
    if v.is_empty() {
        return;
    }
    let i = choose(v.len());
    let x = fresh::<T>(next);
    v[i].set(x);
    m.borrow_mut()[i] = x;
    if choose(2) == 0 {
        let j = choose(v.len());
        v.swap(i, j);
        m.borrow_mut().swap(i, j);
    }
    maybe_panic("panic_edit");
}
fn lists<T: Elem + stabby_abi::IStable, A: HAlloc>(c: Ctx) {
    run(|| {
        set_faults(false);
        reg().no_drop_panics = true;
        let mut next = 0;
        let m: M = RefCell::new(Vec::new());
        let mut v: SVec<T, A> = SVec::new_in(A::mk());
        if choose(2) == 0 {
            act(c, || v.reserve(pick(&[1, 2, 6])));
        }
        for _ in 0..choose(4) {
            let x = fresh::<T>(&mut next);
            if let Out::Done(Ok(())) = act(c, || v.try_push(T::mk(x))) {
                m.borrow_mut().push(x)
            }
        }
        // the other way round for half of the runs
        if choose(2) == 0 {
            for _ in 0..1 + choose(3) {
                log(|| format!("a vector of {} edited as a boxed slice", m.borrow().len()));
                let cap = v.capacity();
                act(c, || {
                    let mut g = v.mut_as::<BoxedSlice<T, A>>();
                    let _q = Quiet;
                    see(g.as_slice(), &m.borrow(), "the view");
                    match choose(3) {
                        0 => {
                            log(|| "and that one as a vector".into());
                            let mut gg = (*g).mut_as::<SVec<T, A>>();
                            let _q = Quiet;
                            edit_vec(&mut gg, &m, &mut next)
                        }
                        1 => {
                            let x = fresh::<T>(&mut next);
                            if g.try_push(T::mk(x)).is_ok() {
                                m.borrow_mut().push(x)
                            }
                            maybe_panic("panic_edit");
                        }
                        _ => edit_slice(g.as_slice_mut(), &m, &mut next),
                    }
                });
                see(&v, &m.borrow(), "the vector");
                check!(v.capacity() >= cap, "lost-edit", "the vector's capacity went from {cap} to {}", v.capacity());
            }
            let k = m.borrow().len() / 2;
            let _ = v.drain(..k).count();
            m.borrow_mut().drain(..k);
            see(&v, &m.borrow(), "the vector");
            act(c, || drop(v));
        } else {
            let mut b: BoxedSlice<T, A> = v.into();
            for _ in 0..1 + choose(3) {
                log(|| format!("a boxed slice of {} edited as a vector", m.borrow().len()));
                act(c, || {
                    let mut g = b.mut_as::<SVec<T, A>>();
                    let _q = Quiet;
                    see(&g, &m.borrow(), "the view");
                    if choose(3) == 0 {
                        log(|| "and that one as a boxed slice".into());
                        let mut gg = (*g).mut_as::<BoxedSlice<T, A>>();
                        let _q = Quiet;
                        edit_slice(gg.as_slice_mut(), &m, &mut next)
                    } else {
                        edit_vec(&mut g, &m, &mut next)
                    }
                });
                see(b.as_slice(), &m.borrow(), "the boxed slice");
            }
            act(c, || drop(b));
        }
    });
}
macro_rules! single {
    ($name: ident, $t: ty, $a: ty) => {
        fn $name(c: Ctx) {
            type T = $t;
            type A = $a;
            type S = SingleOrVec<T, A>;
            run(|| {
                set_faults(false);
                reg().no_drop_panics = true;
                let mut next = 0;
                let m: M = RefCell::new(Vec::new());
                let mut s: S = S::new_in(<A as HAlloc>::mk());
                for _ in 0..choose(4) {
                    let x = fresh::<T>(&mut next);
                    if let Out::Done(Ok(())) = act(c, || s.try_push(T::mk(x))) {
                        m.borrow_mut().push(x)
                    }
                }
                for _ in 0..1 + choose(3) {
                    log(|| format!("a single-or-vector of {} edited as a vector", m.borrow().len()));
                    {
                        let mut g = s.mut_as::<SVec<T, A>>();
                        see(&g, &m.borrow(), "the view");
                        let g = &mut *g;
                        act(c, || {
                            let _q = Quiet;
                            edit_vec(g, &m, &mut next)
                        });
                    }
                    see(&s, &m.borrow(), "the single-or-vector");
                }
                let mut v: SVec<T, A> = s.into();
                for _ in 0..1 + choose(2) {
                    log(|| format!("a vector of {} edited as a single-or-vector", m.borrow().len()));
                    {
                        let mut g = v.mut_as::<S>();
                        see(&g, &m.borrow(), "the view");
                        let g = &mut *g;
                        act(c, || {
                            let _q = Quiet;
                            for _ in 0..choose(3) {
                                if choose(2) == 0 {
                                    let x = fresh::<T>(&mut next);
                                    if g.try_push(T::mk(x)).is_ok() {
                                        m.borrow_mut().push(x)
                                    }
                                    maybe_panic("panic_edit");
                                } else {
                                    edit_slice(&mut g.as_slice_mut(), &m, &mut next)
                                }
                            }
                        });
                    }
                    see(&v, &m.borrow(), "the vector");
                }
                act(c, || drop(v));
            });
        }
    };
}
single!(single_tok, Tok, SA);
single!(single_tok_sb, Tok, SB);
single!(single_small, Small, SA);
fn texts<A: HAlloc>(c: Ctx) {
    run(|| {
        set_faults(false);
        reg().no_drop_panics = true;
        let m: RefCell<String> = RefCell::new(pick(&["", "a", "déjà", "longer than a word"]).to_string());
        let word = || pick(&["", "x", "é", "words"]);
        let mut s: SString<A> = SString::new_in(A::mk());
        s.try_concat(&*m.borrow()).unwrap();
        for _ in 0..1 + choose(3) {
            match choose(3) {
                0 => {
                    log(|| "a string edited as a boxed one".into());
                    let mut g = s.mut_as::<BoxedStr<A>>();
                    check!(g.as_str() == *m.borrow(), "lost-edit", "the view shows {:?} of {:?}", g.as_str(), m.borrow());
                    let g = &mut *g;
                    act(c, || {
                        let _q = Quiet;
                        if choose(2) == 0 {
                            g.as_str_mut().make_ascii_uppercase();
                            m.borrow_mut().make_ascii_uppercase();
                        } else {
                            let mut gg = (*g).mut_as::<SString<A>>();
                            let _q = Quiet;
                            let w = word();
                            if gg.try_concat(w).is_ok() {
                                m.borrow_mut().push_str(w)
                            }
                        }
                        maybe_panic("panic_edit");
                    });
                }
                1 => {
                    log(|| "a string edited as std's".into());
                    let mut g = s.mut_as::<String>();
                    check!(*g == *m.borrow(), "lost-edit", "the view shows {:?} of {:?}", &*g, m.borrow());
                    let g = &mut *g;
                    act(Ctx { alloc: false, malloc: false, panics: c.panics }, || {
                        let _q = Quiet;
                        let w = word();
                        g.push_str(w);
                        m.borrow_mut().push_str(w);
                        maybe_panic("panic_edit");
                        if choose(3) == 0 {
                            g.pop();
                            m.borrow_mut().pop();
                        }
                    });
                }
                _ => {
                    let w = word();
                    if let Out::Done(Ok(())) = act(c, || s.try_concat(w)) {
                        m.borrow_mut().push_str(w)
                    }
                }
            }
            check!(s.as_str() == *m.borrow(), "lost-edit", "the string is {:?} instead of {:?}", s.as_str(), m.borrow());
        }
        // std's own string, seen as the stable one
        let mut o: String = m.borrow().clone();
        {
            let mut g = o.mut_as::<SString<A>>();
            check!(g.as_str() == *m.borrow(), "lost-edit", "the view shows {:?} of {:?}", g.as_str(), m.borrow());
            let g = &mut *g;
            act(c, || {
                let _q = Quiet;
                for _ in 0..choose(3) {
                    let w = word();
                    if g.try_concat(w).is_ok() {
                        m.borrow_mut().push_str(w)
                    }
                    maybe_panic("panic_edit");
                }
            });
        }
        check!(o == *m.borrow(), "lost-edit", "std's string is {o:?} instead of {:?}", m.borrow());
    });
}
/// Values which own no memory, or whose conversion leaves it where it is: seen by several threads at once,
/// then edited.
fn plain() {
    use stabby::time::{Duration, Instant, SystemTime};
    use stabby_abi::option::Option as SOption;
    use stabby_abi::result::Result as SResult;
    use stabby_abi::slice::{Slice, SliceMut};
    use stabby_abi::str::Str;
    run(|| {
        set_faults(false);
        reg().no_drop_panics = true;
        struct All {
            o: SOption<Tok>,
            r: SResult<Tok, u32>,
            c: Option<Tok>,
            d: Duration,
            words: [Tok; 2],
        }
        let tok = |k: u32| Tok::new(k);
        let (vo, vr, vc) = (choose(2), choose(2), choose(2));
        let d = core::time::Duration::new(pick(&[0, 1, 1 << 40]), pick(&[0, 1, 999_999_999]));
        let mut a = All {
            o: if vo == 0 { None.into() } else { Some(tok(1)).into() },
            r: if vr == 0 { Err(7).into() } else { Ok(tok(2)).into() },
            c: if vc == 0 { None } else { Some(tok(3)) },
            d: d.into(),
            words: [tok(4), tok(5)],
        };
        let look = move |a: &All| {
            for _ in 0..1 + choose(3) {
                match choose(6) {
                    0 => {
                        let g = a.o.ref_as::<Option<Tok>>();
                        check!(g.as_ref().map(Elem::v) == (vo == 1).then_some(1), "lost-edit", "an option seen as {:?}", &*g);
                        let h = a.o.ref_as::<Option<Tok>>();
                        check!(*g == *h, "lost-edit", "an option seen as {:?} and {:?}", &*g, &*h);
                    }
                    1 => {
                        let g = a.r.ref_as::<Result<Tok, u32>>();
                        check!(g.as_ref().map(Elem::v) == if vr == 1 { Ok(2) } else { Err(&7) }, "lost-edit", "a result seen as {:?}", &*g);
                    }
                    2 => {
                        let g = a.c.ref_as::<SOption<Tok>>();
                        check!(g.as_ref().map(|t| t.v()) == (vc == 1).then_some(3), "lost-edit", "an option seen as {:?}", g.as_ref());
                    }
                    3 => {
                        let g = a.d.ref_as::<core::time::Duration>();
                        check!(*g == d, "lost-edit", "a duration seen as {:?} instead of {d:?}", *g);
                        let h = d.ref_as::<Duration>();
                        check!(*h == a.d, "lost-edit", "a duration of std seen as {:?}", core::time::Duration::from(*h));
                    }
                    4 => {
                        let s: Slice<Tok> = a.words[..].into();
                        let g = s.ref_as::<&[Tok]>();
                        see(&g, &[4, 5], "the slice");
                        let n = a.words[..].iter().map(Elem::v).sum::<u32>();
                        check!(n == 9, "lost-edit", "sum {n}");
                    }
                    _ => {
                        let w = pick(&["", "déjà"]);
                        let s: Str = w.into();
                        check!(*s.ref_as::<&str>() == w, "lost-edit", "a text seen as {:?}", &*s.ref_as::<&str>());
                    }
                }
            }
        };
        // SAFETY: joined below
        let p = &a as *const All as usize;
        let n = choose(3);
        let ids: Vec<_> = (0..n).map(|_| spawn(move || look(unsafe { &*(p as *const All) }))).collect();
        look(&a);
        ids.into_iter().for_each(join_thread);
        let c = Ctx { alloc: false, malloc: false, panics: true };
        let (mut mo, mut mr, mut mc) = ((vo == 1).then_some(1), if vr == 1 { Ok(2) } else { Err(7) }, (vc == 1).then_some(3));
        for i in 0..choose(5) as u32 {
            let x = 10 + i;
            match choose(6) {
                0 => drop(act(c, || {
                    let mut g = a.o.mut_as::<Option<Tok>>();
                    let _q = Quiet;
                    match choose(3) {
                        0 => {
                            mo = None;
                            *g = None
                        }
                        1 => {
                            let t = tok(x);
                            mo = Some(x);
                            *g = Some(t)
                        }
                        _ => {
                            if let Some(t) = &mut *g {
                                t.set(x);
                                mo = Some(x)
                            }
                        }
                    }
                    maybe_panic("panic_edit");
                })),
                1 => drop(act(c, || {
                    let mut g = a.r.mut_as::<Result<Tok, u32>>();
                    let _q = Quiet;
                    if choose(2) == 0 {
                        mr = Err(x);
                        *g = Err(x)
                    } else {
                        let t = tok(x);
                        mr = Ok(x);
                        *g = Ok(t)
                    }
                    maybe_panic("panic_edit");
                })),
                2 => drop(act(c, || {
                    let mut g = a.c.mut_as::<SOption<Tok>>();
                    let _q = Quiet;
                    let t = tok(x);
                    mc = Some(x);
                    *g = Some(t).into();
                    maybe_panic("panic_edit");
                })),
                3 => drop(act(c, || {
                    let mut g = a.words.as_mut_slice();
                    let mut s: SliceMut<Tok> = (&mut *g).into();
                    {
                        let mut v = s.mut_as::<&mut [Tok]>();
                        v.swap(0, 1);
                        v.swap(0, 1);
                        maybe_panic("panic_edit");
                        *v = &mut [];
                    }
                    check!(s.len() == 0, "lost-edit", "a slice of {} elements, emptied through its view", s.len());
                    g = &mut [];
                    drop(g);
                })),
                4 => {
                    let mut t = Instant::zero();
                    let std_now = std::time::Instant::now();
                    *t.mut_as::<std::time::Instant>() = std_now;
                    check!(std::time::Instant::from(t) == std_now, "lost-edit", "an instant set through its view is another");
                    let mut y = SystemTime::UNIX_EPOCH;
                    let d = core::time::Duration::new(i as u64, 3);
                    *y.mut_as::<std::time::SystemTime>() += d;
                    check!(std::time::SystemTime::from(y) == std::time::UNIX_EPOCH + d, "lost-edit", "a time moved through its view is another");
                }
                _ => {
                    let d = core::time::Duration::new(pick(&[0, 5]), pick(&[0, 999_999_999]));
                    let mut s: Duration = d.into();
                    *s.mut_as::<core::time::Duration>() += core::time::Duration::from_nanos(1);
                    let w = d + core::time::Duration::from_nanos(1);
                    check!(core::time::Duration::from(s) == w, "lost-edit", "a duration moved through its view is {:?} instead of {w:?}", core::time::Duration::from(s));
                }
            }
            check!(a.o.as_ref().map(|t| t.v()) == mo, "lost-edit", "the option holds another value than {mo:?}");
            let r = a.r.match_ref(|t| Ok(t.v()), |e| Err(*e));
            check!(r == mr, "lost-edit", "the result holds {r:?} instead of {mr:?}");
            check!(a.c.as_ref().map(Elem::v) == mc, "lost-edit", "the option of std holds {:?} instead of {mc:?}", a.c);
        }
        drop(a);
    });
}
/// The listed finding: the view of a value that owns memory takes that memory from it.
pub fn known_ref() {
    run(|| {
        set_faults(false);
        let s: SString<SB> = "words".into();
        check!(*s.ref_as::<String>() == "words", "lost-edit", "the view shows another text");
        check!(s.as_str() == "words", "lost-edit", "the string changed");
    })
}
const CALM: Ctx = Ctx { alloc: true, malloc: false, panics: false };
const STORM: Ctx = Ctx { alloc: true, malloc: false, panics: true };
pub fn all() {
    let c = if choose(2) == 0 { CALM } else { STORM };
    match choose(10) {
        0 => lists::<Tok, SA>(c),
        1 => lists::<Tok, SB>(c),
        2 => lists::<Small, SA>(c),
        3 => lists::<Zst, SA>(c),
        4 => single_tok(c),
        5 => single_tok_sb(c),
        6 => single_small(c),
        7 => texts::<SA>(c),
        8 => texts::<SB>(c),
        _ => plain(),
    }
}
