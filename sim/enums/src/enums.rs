//! Stable results, options and sum types against the standard library's, over payload types that lead to
//! every compact representation; closures, clones and destructors that panic.
use crate::h::*;
use crate::sov::{Nic, Pad};
use crate::vecs::{act, Ctx, Out};
use core::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use simrt::*;
use stabby_abi::alloc::boxed::Box as SBox;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::as_mut::{IGuardMut, IGuardRef};
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use stabby_abi::{AccessAs, IDeterminantProvider, IStable};

/// A payload whose value can be read back, checked and changed in place.
pub trait Pay: IStable + 'static + Clone + PartialEq + core::fmt::Debug {
    fn pmk(v: u64) -> Self;
    /// What is left of `v` once it has been through `pmk`.
    fn keep(v: u64) -> u64;
    fn pv(&self) -> u64;
    /// Changes the value in place.
    fn touch(&mut self, v: u64) {
        *self = Self::pmk(v)
    }
}
macro_rules! elem {
    ($($t: ty: $v: ident $k: expr;)*) => {$(
        impl Pay for $t {
            fn pmk($v: u64) -> Self { <$t as Elem>::mk($k as u32) }
            fn keep($v: u64) -> u64 { $k as u32 as u64 }
            fn pv(&self) -> u64 { <$t as Elem>::v(self) as u64 }
            fn touch(&mut self, $v: u64) { <$t as Elem>::set(self, $k as u32) }
        }
    )*};
}
elem! { Tok: v v; Nic: v v; Pad: v v; Small: v (v & 0xff); Zst: _v 0; }
macro_rules! int {
    ($($t: ty)*) => {$(
        impl Pay for $t {
            fn pmk(v: u64) -> Self { v as $t }
            fn keep(v: u64) -> u64 { v as $t as u64 }
            fn pv(&self) -> u64 { *self as u64 }
        }
    )*};
}
int!(u8 u16 u32 u64);
macro_rules! nz {
    ($($t: ty: $i: ty;)*) => {$(
        impl Pay for $t {
            fn pmk(v: u64) -> Self { <$t>::new(v as $i).unwrap_or(<$t>::MAX) }
            fn keep(v: u64) -> u64 { <$t>::new(v as $i).unwrap_or(<$t>::MAX).get() as u64 }
            fn pv(&self) -> u64 { self.get() as u64 }
        }
    )*};
}
nz!(NonZeroU8: u8; NonZeroU16: u16; NonZeroU32: u32;);
impl Pay for bool {
    fn pmk(v: u64) -> Self {
        v & 1 == 1
    }
    fn keep(v: u64) -> u64 {
        v & 1
    }
    fn pv(&self) -> u64 {
        let b = unsafe { *(self as *const bool as *const u8) };
        check!(b < 2, "torn-value", "a boolean is {b}");
        b as u64
    }
}
impl Pay for () {
    fn pmk(_: u64) -> Self {}
    fn keep(_: u64) -> u64 {
        0
    }
    fn pv(&self) -> u64 {
        0
    }
}
/// A pointer, never null.
#[stabby::stabby]
pub struct Bx {
    b: SBox<Tok>,
}
impl Elem for Bx {
    fn mk(v: u32) -> Self {
        Bx { b: SBox::new(Tok::new(v)) }
    }
    fn v(&self) -> u32 {
        self.b.v()
    }
    fn set(&mut self, v: u32) {
        self.b.set(v)
    }
}
fwd!(Bx);
impl Pay for Bx {
    fn pmk(v: u64) -> Self {
        Bx::mk(v as u32)
    }
    fn keep(v: u64) -> u64 {
        v as u32 as u64
    }
    fn pv(&self) -> u64 {
        self.v() as u64
    }
    fn touch(&mut self, v: u64) {
        self.set(v as u32)
    }
}
/// A vector. (Its own `clone` may leak what it had cloned when an element's panics.)
#[stabby::stabby]
#[derive(PartialEq, Debug)]
pub struct Vt {
    v: SVec<Tok>,
}
impl Clone for Vt {
    fn clone(&self) -> Vt {
        let mut v = SVec::new();
        self.v.iter().for_each(|t| v.push(t.clone()));
        Vt { v }
    }
}
impl Pay for Vt {
    fn pmk(v: u64) -> Self {
        let mut r = SVec::new();
        for i in 0..v % 3 {
            r.push(Tok::pmk(v + i))
        }
        Vt { v: r }
    }
    fn keep(v: u64) -> u64 {
        if v % 3 == 0 {
            0
        } else {
            v as u32 as u64
        }
    }
    fn pv(&self) -> u64 {
        for (i, t) in self.v.iter().enumerate() {
            check!(t.pv() == (self.v[0].pv() + i as u64) as u32 as u64, "wrong-element", "element {i} of a payload is {}", t.pv());
        }
        let f = self.v.first().map_or(0, |t| t.pv());
        check!(self.v.len() as u64 == f % 3, "wrong-length", "a payload starting with {f} has {} elements", self.v.len());
        f
    }
}
impl Pay for SString {
    fn pmk(v: u64) -> Self {
        let mut s = SString::new();
        if v & 7 != 0 {
            outside(|| format!("{}", v as u32)).chars().for_each(|c| s += c.encode_utf8(&mut [0; 4]));
        }
        s
    }
    fn keep(v: u64) -> u64 {
        if v & 7 == 0 {
            0
        } else {
            v as u32 as u64
        }
    }
    fn pv(&self) -> u64 {
        if self.is_empty() {
            0
        } else {
            outside(|| self.parse().unwrap_or_else(|_| fail("torn-value", || format!("a string payload reads {:?}", &**self))))
        }
    }
}
impl Pay for stabby::tuple::Tuple2<u8, NonZeroU8> {
    fn pmk(v: u64) -> Self {
        stabby::tuple::Tuple2(u8::pmk(v), NonZeroU8::pmk(v >> 8))
    }
    fn keep(v: u64) -> u64 {
        u8::keep(v) | NonZeroU8::keep(v >> 8) << 8
    }
    fn pv(&self) -> u64 {
        self.0.pv() | self.1.pv() << 8
    }
    fn touch(&mut self, v: u64) {
        self.0 = u8::pmk(v);
        self.1 = NonZeroU8::pmk(v >> 8);
    }
}
/// Padding in the middle, written with garbage.
#[stabby::stabby(no_opt)]
#[derive(Clone, PartialEq, Debug)]
pub struct Mid {
    a: u8,
    t: Tok,
    b: u16,
}
impl Pay for Mid {
    fn pmk(v: u64) -> Self {
        Mid { a: v as u8, t: Tok::pmk(v), b: !v as u16 }
    }
    fn keep(v: u64) -> u64 {
        v as u32 as u64
    }
    fn pv(&self) -> u64 {
        let v = self.t.pv();
        check!(self.a == v as u8 && self.b == !v as u16, "torn-value", "payload holds {}, {v} and {}", self.a, self.b);
        v
    }
    fn touch(&mut self, v: u64) {
        // padding may change along with any write of the whole value
        let old = unsafe { core::ptr::read(self) };
        unsafe { core::ptr::write_bytes(self as *mut Mid as *mut u8, (v * 29) as u8, core::mem::size_of::<Mid>()) };
        unsafe {
            core::ptr::addr_of_mut!(self.t).write(Tok::pmk(v));
            core::ptr::addr_of_mut!(self.a).write(v as u8);
            core::ptr::addr_of_mut!(self.b).write(!v as u16);
        }
        drop(old);
    }
}
/// The niche comes last.
#[stabby::stabby(no_opt)]
#[derive(Clone, PartialEq, Debug)]
pub struct Last {
    a: u32,
    f: bool,
}
impl Pay for Last {
    fn pmk(v: u64) -> Self {
        Last { a: v as u32, f: v & 1 == 0 }
    }
    fn keep(v: u64) -> u64 {
        v as u32 as u64
    }
    fn pv(&self) -> u64 {
        check!(self.f.pv() == (self.a as u64 & 1) ^ 1, "torn-value", "payload holds {} and {}", self.a, self.f);
        self.a as u64
    }
    fn touch(&mut self, v: u64) {
        unsafe { core::ptr::write_bytes(self as *mut Last as *mut u8, (v * 29) as u8, core::mem::size_of::<Last>()) };
        unsafe { core::ptr::write(&mut self.a, v as u32) };
        unsafe { core::ptr::write(&mut self.f, v & 1 == 0) };
    }
}
#[stabby::stabby]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Unit {
    A,
    B,
    C,
}
impl Pay for Unit {
    fn pmk(v: u64) -> Self {
        [Unit::A, Unit::B, Unit::C][(v % 3) as usize]
    }
    fn keep(v: u64) -> u64 {
        v % 3
    }
    fn pv(&self) -> u64 {
        let b = unsafe { *(self as *const Unit as *const u8) };
        check!(b < 3, "torn-value", "an enum with three variants is {b}");
        b as u64
    }
}
impl<A: Pay + IDeterminantProvider<B>, B: Pay> Pay for SResult<A, B> {
    fn pmk(v: u64) -> Self {
        if v & 1 == 0 {
            SResult::Ok(A::pmk(v >> 1))
        } else {
            SResult::Err(B::pmk(v >> 1))
        }
    }
    fn keep(v: u64) -> u64 {
        if v & 1 == 0 {
            A::keep(v >> 1).wrapping_mul(2)
        } else {
            B::keep(v >> 1).wrapping_mul(2) | 1
        }
    }
    fn pv(&self) -> u64 {
        self.match_ref(|a| a.pv().wrapping_mul(2), |b| b.pv().wrapping_mul(2) | 1)
    }
    fn touch(&mut self, v: u64) {
        if self.is_ok() != (v & 1 == 0) {
            *self = Self::pmk(v)
        } else {
            self.match_mut_ctx(v >> 1, |v, mut a| a.touch(v), |v, mut b| b.touch(v))
        }
    }
}
impl<A: Pay + IDeterminantProvider<()>> Pay for SOption<A> {
    fn pmk(v: u64) -> Self {
        if v & 1 == 0 {
            SOption::Some(A::pmk(v >> 1))
        } else {
            SOption::None()
        }
    }
    fn keep(v: u64) -> u64 {
        if v & 1 == 0 {
            A::keep(v >> 1).wrapping_mul(2)
        } else {
            1
        }
    }
    fn pv(&self) -> u64 {
        self.match_ref(|a| a.pv().wrapping_mul(2), || 1)
    }
    fn touch(&mut self, v: u64) {
        if self.is_some() && v & 1 == 0 {
            *self.as_mut().unwrap() = A::pmk(v >> 1)
        } else {
            *self = Self::pmk(v)
        }
    }
}

// ------------------------------------------------------------------------------------ sum types
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, PartialEq, Debug)]
pub enum Five {
    A(Tok),
    B(Nic),
    C,
    D(Bx),
    E(Pad),
}
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, PartialEq, Debug)]
pub enum Three {
    X(u16),
    Y(Last),
    Z(Mid),
}
#[stabby::stabby]
#[repr(stabby)]
#[derive(Clone, PartialEq, Debug)]
pub enum Two {
    L,
    R(Small),
}
pub trait Sum: Pay {
    /// Takes the value apart and puts it together again; user code may panic in between.
    fn through(self) -> Self;
}
/// What a closure sees of the payload it owns.
fn hand<T: Pay>(t: T) -> T {
    maybe_panic("panic_edit");
    let v = t.pv();
    match choose(3) {
        0 => t,
        1 => {
            drop(t);
            maybe_panic("panic_edit");
            T::pmk(v)
        }
        _ => {
            let u = t.clone();
            drop(t);
            u
        }
    }
}
macro_rules! sum {
    ($e: ident $n: literal { $($i: literal $v: ident $f: ident $(: $t: ty)?;)* }) => {
        impl Pay for $e {
            fn pmk(v: u64) -> Self {
                match v % $n { $($i => Self::$v($(<$t>::pmk(v / $n))?),)* _ => unreachable!() }
            }
            fn keep(v: u64) -> u64 {
                match v % $n { $($i => 0 $(+ <$t>::keep(v / $n))? * $n + $i,)* _ => unreachable!() }
            }
            fn pv(&self) -> u64 {
                macro_rules! r {
                    ($k: literal) => { || $k };
                    ($k: literal $x: ty) => { |p: &$x| p.pv() * $n + $k };
                }
                macro_rules! rc {
                    ($k: literal) => { |c: u64| c + $k };
                    ($k: literal $x: ty) => { |c: u64, p: &$x| c + p.pv() * $n + $k };
                }
                let a = self.match_ref($(r!($i $($t)?)),*);
                let b = self.match_ref_ctx(7u64, $(rc!($i $($t)?)),*);
                check!(a + 7 == b, "wrong-variant", "match_ref gives {a}, match_ref_ctx {b} - 7");
                a
            }
            fn touch(&mut self, v: u64) {
                macro_rules! m {
                    ($w: ident) => { || () };
                    ($w: ident $x: ty) => { |p: &mut $x| p.touch($w) };
                }
                macro_rules! mc {
                    ($x: ty) => { |w: u64, p: &mut $x| p.touch(w) };
                    () => { |_: u64| () };
                }
                let w = v / $n;
                if self.pv() % $n != v % $n {
                    *self = Self::pmk(v)
                } else if w & 1 == 0 {
                    self.match_mut($(m!(w $($t)?)),*)
                } else {
                    self.match_mut_ctx(w, $(mc!($($t)?)),*)
                }
            }
        }
        impl Sum for $e {
            fn through(self) -> Self {
                macro_rules! o {
                    ($k: ident) => { || Self::$k() };
                    ($k: ident $x: ty) => { |p: $x| Self::$k(hand(p)) };
                }
                macro_rules! oc {
                    ($k: ident) => { |c: Tok| { drop(c); Self::$k() } };
                    ($k: ident $x: ty) => { |c: Tok, p: $x| { let r = Self::$k(hand(p)); drop(c); r } };
                }
                if choose(2) == 0 {
                    self.match_owned($(o!($v $($t)?)),*)
                } else {
                    self.match_owned_ctx(Tok::new(0), $(oc!($v $($t)?)),*)
                }
            }
        }
    };
}
sum!(Five 5 { 0 A a: Tok; 1 B b: Nic; 2 C c; 3 D d: Bx; 4 E e: Pad; });
sum!(Three 3 { 0 X x: u16; 1 Y y: Last; 2 Z z: Mid; });
sum!(Two 2 { 0 L l; 1 R r: Small; });

// ------------------------------------------------------------------------------------- engines
fn nv() -> u64 {
    choose(1 << 14) as u64 * 2654435761 % 104729
}
type Model = core::result::Result<u64, u64>;
fn rmk<A: Pay + IDeterminantProvider<B>, B: Pay>() -> (SResult<A, B>, Model) {
    let v = nv();
    match choose(4) {
        0 => (SResult::Ok(A::pmk(v)), Ok(A::keep(v))),
        1 => (SResult::Err(B::pmk(v)), Err(B::keep(v))),
        2 => (core::result::Result::Ok(A::pmk(v)).into(), Ok(A::keep(v))),
        _ => (core::result::Result::Err(B::pmk(v)).into(), Err(B::keep(v))),
    }
}
fn rsee<A: Pay + IDeterminantProvider<B>, B: Pay>(r: &SResult<A, B>, m: &Model) {
    check!(r.is_ok() == m.is_ok() && r.is_err() == m.is_err(), "wrong-variant", "is_ok() is {} of {m:?}", r.is_ok());
    let see = match r.as_ref() {
        Ok(a) => {
            check!(a as *const A as usize % core::mem::align_of::<A>() == 0, "misaligned", "payload at {:p}", a);
            Ok(a.pv())
        }
        Err(b) => {
            check!(b as *const B as usize % core::mem::align_of::<B>() == 0, "misaligned", "payload at {:p}", b);
            Err(b.pv())
        }
    };
    check!(see == *m, "wrong-payload", "holds {see:?} instead of {m:?}");
    check!(r.ok_ref().map(|a| a.pv()) == m.ok() && r.err_ref().map(|b| b.pv()) == m.err(), "wrong-payload", "ok_ref or err_ref disagree with {m:?}");
}
fn hash<T: core::hash::Hash>(t: &T) -> u64 {
    use core::hash::Hasher;
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            for x in b {
                self.0 = (self.0.rotate_left(9) ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15)
            }
        }
    }
    let mut h = H(1);
    t.hash(&mut h);
    h.finish()
}
fn results<A: Pay + IDeterminantProvider<B>, B: Pay>(c: Ctx)
where
    Tok: IDeterminantProvider<B>,
{
    type R<A, B> = SResult<A, B>;
    log(|| core::any::type_name::<R<A, B>>().into());
    let (mut r, mut m) = rmk::<A, B>();
    rsee(&r, &m);
    for _ in 0..1 + choose(8) {
        let op = choose(16);
        log(|| format!("op {op} on {m:?}"));
        // operations that consume the value leave their result here
        match op {
            0 => {
                let (n, nm) = rmk::<A, B>();
                m = nm;
                act(c, || r = n);
            }
            1 => {
                let k: core::result::Result<A, B> = r.into();
                check!(k.as_ref().map(Pay::pv).map_err(Pay::pv) == m, "wrong-payload", "became {:?} instead of {m:?}", k.as_ref().map(Pay::pv).map_err(Pay::pv));
                r = k.into();
            }
            2 => {
                if let Out::Done(d) = act(c, || r.clone()) {
                    rsee(&d, &m);
                    if let Out::Done(e) = act(c, || d == r) {
                        check!(e, "not-equal", "a clone of {m:?} is not equal");
                    }
                    act(c, || drop(d));
                }
            }
            3 => {
                let (o, om) = rmk::<A, B>();
                if let Out::Done(e) = act(c, || r == o) {
                    check!(e == (m == om), "equality", "{m:?} == {om:?} is {e}");
                }
                let (_, x) = (act(c, || drop(core::mem::replace(&mut r, o))), om);
                m = x;
            }
            4 => {
                // in place, through a guard
                let (v, done) = (nv(), core::cell::Cell::new(false));
                let f = choose(3);
                act(c, || {
                    let pre = || maybe_panic("panic_edit");
                    macro_rules! edit {
                        ($g: expr) => {{
                            let mut g = $g;
                            pre();
                            // whatever is in the middle of an edit is complete or not begun
                            done.set(true);
                            g.touch(v);
                            maybe_panic("panic_edit");
                        }};
                    }
                    match f {
                        0 => r.match_mut(|g| edit!(g), |g| edit!(g)),
                        1 => r.match_mut_ctx(Tok::new(1), |t, g| { edit!(g); drop(t) }, |t, g| { edit!(g); drop(t) }),
                        _ if r.is_ok() => edit!(r.ok_mut().unwrap()),
                        _ => edit!(r.err_mut().unwrap()),
                    }
                });
                if done.get() {
                    m = m.map(|_| A::keep(v)).map_err(|_| B::keep(v));
                }
            }
            5 => {
                // replaced, through a guard
                let (v, done) = (nv(), core::cell::Cell::new(false));
                act(c, || {
                    if let Some(mut g) = r.ok_mut() {
                        let n = A::pmk(v);
                        maybe_panic("panic_edit");
                        done.set(true);
                        *g = n;
                        maybe_panic("panic_edit");
                        return;
                    }
                    if let Some(mut g) = r.err_mut() {
                        let n = B::pmk(v);
                        maybe_panic("panic_edit");
                        done.set(true);
                        *g = n;
                        maybe_panic("panic_edit");
                    }
                });
                if done.get() {
                    m = m.map(|_| A::keep(v)).map_err(|_| B::keep(v));
                }
            }
            6 => {
                // two payloads exchanged through their guards
                let (mut o, mut om) = rmk::<A, B>();
                if let (Some(mut a), Some(mut b)) = (r.ok_mut(), o.ok_mut()) {
                    core::mem::swap(&mut *a, &mut *b);
                    core::mem::swap(&mut m, &mut om);
                }
                if let (Some(mut a), Some(mut b)) = (r.err_mut(), o.err_mut()) {
                    core::mem::swap(&mut *a, &mut *b);
                    core::mem::swap(&mut m, &mut om);
                }
                rsee(&o, &om);
                act(c, || drop(o));
            }
            7 | 8 => {
                let f = choose(2);
                let out = act(c, || {
                    if f == 0 {
                        r.match_owned(|a| R::<A, B>::Ok(hand(a)), |b| R::Err(hand(b)))
                    } else {
                        r.match_owned_ctx(Tok::new(2), |t, a| { let x = R::<A, B>::Ok(hand(a)); drop(t); x }, |t, b| { let x = R::Err(hand(b)); drop(t); x })
                    }
                });
                match out {
                    Out::Done(x) => r = x,
                    _ => (r, m) = rmk(),
                }
            }
            9 => {
                let f = choose(2);
                let out = act(c, || {
                    if f == 0 {
                        let o = r.ok();
                        check!(o.as_ref().map(Pay::pv) == m.ok(), "wrong-payload", "ok() of {m:?} gave {:?}", o.as_ref().map(Pay::pv));
                    } else {
                        let o = r.err();
                        check!(o.as_ref().map(Pay::pv) == m.err(), "wrong-payload", "err() of {m:?} gave {:?}", o.as_ref().map(Pay::pv));
                    }
                });
                drop(out);
                (r, m) = rmk();
            }
            10 => {
                let f = choose(3);
                let out = act(c, || match f {
                    0 => r.map(|a| { let v = hand(a).pv(); Tok::pmk(v) }),
                    1 => r.and_then(|a| { let v = hand(a).pv(); R::<Tok, B>::Ok(Tok::pmk(v)) }),
                    _ => r.and_then(|a| { drop(hand(a)); R::<Tok, B>::Err(B::pmk(5)) }),
                });
                if let Out::Done(x) = out {
                    let want = match (m, f) {
                        (Ok(v), 0 | 1) => Ok(v as u32 as u64),
                        (Ok(_), _) => Err(B::keep(5)),
                        (Err(v), _) => Err(v),
                    };
                    rsee(&x, &want);
                    act(c, || drop(x));
                }
                (r, m) = rmk();
            }
            11 => {
                let (v, f) = (nv(), choose(2));
                let out = act(c, || {
                    if f == 0 {
                        let x = r.unwrap_or_else(|b| { drop(hand(b)); A::pmk(v) });
                        check!(x.pv() == m.unwrap_or(A::keep(v)), "wrong-payload", "unwrap_or_else of {m:?} gave {}", x.pv());
                    } else {
                        let x = r.unwrap_err_or_else(|a| { drop(hand(a)); B::pmk(v) });
                        check!(x.pv() == m.err().unwrap_or(B::keep(v)), "wrong-payload", "unwrap_err_or_else of {m:?} gave {}", x.pv());
                    }
                });
                drop(out);
                (r, m) = rmk();
            }
            12 => {
                let f = choose(2);
                let out = if f == 0 { catch_any(|| r.unwrap().pv()) } else { catch_any(|| r.unwrap_err().pv()) };
                let want = if f == 0 { m.ok() } else { m.err() };
                check!(out == want, "wrong-payload", "unwrapping {m:?} gave {out:?}");
                (r, m) = rmk();
            }
            13 => {
                // moved about
                let b = Box::new(r);
                rsee(&b, &m);
                r = *b;
                let mut v: SVec<R<A, B>> = SVec::new();
                v.push(r);
                let (o, om) = rmk::<A, B>();
                v.push(o);
                v.swap(0, 1);
                rsee(&v[0], &om);
                rsee(&v[1], &m);
                r = v.pop().unwrap();
                act(c, || drop(v));
            }
            14 => {
                let d = format!("{r:?}");
                let e = match r.as_ref() {
                    Ok(a) => format!("Ok({a:?})"),
                    Err(b) => format!("Err({b:?})"),
                };
                check!(d == e, "debug", "{d:?} instead of {e:?}");
            }
            _ => {
                // as if it were the standard library's
                if choose(2) == 0 {
                    let g = IGuardRef::<core::result::Result<A, B>>::guard_ref_inner(&r);
                    check!(g.as_ref().map(Pay::pv).map_err(Pay::pv) == m, "wrong-payload", "seen as another value than {m:?}");
                } else {
                    let (v, done) = (nv(), core::cell::Cell::new(None));
                    act(c, || {
                        let mut g = IGuardMut::<core::result::Result<A, B>>::guard_mut_inner(&mut r);
                        check!(g.as_ref().map(Pay::pv).map_err(Pay::pv) == m, "wrong-payload", "seen as another value than {m:?}");
                        maybe_panic("panic_edit");
                        let n = if choose(2) == 0 { Ok(A::pmk(v)) } else { Err(B::pmk(v)) };
                        done.set(Some(n.as_ref().map(|_| A::keep(v)).map_err(|_| B::keep(v))));
                        *g = n;
                        maybe_panic("panic_edit");
                    });
                    if let Some(n) = done.get() {
                        m = n;
                    }
                }
            }
        }
        rsee(&r, &m);
    }
    act(c, || drop(r));
}
fn osee<A: Pay + IDeterminantProvider<()>>(r: &SOption<A>, m: &Option<u64>) {
    check!(r.is_some() == m.is_some() && r.is_none() == m.is_none(), "wrong-variant", "is_some() is {} of {m:?}", r.is_some());
    let see = r.as_ref().map(|a| {
        check!(a as *const A as usize % core::mem::align_of::<A>() == 0, "misaligned", "payload at {:p}", a);
        a.pv()
    });
    check!(see == *m, "wrong-payload", "holds {see:?} instead of {m:?}");
    let see = r.match_ref_ctx(3, |x, a| Some((a.pv(), x)), |_| None);
    check!(see == m.map(|v| (v, 3)), "wrong-payload", "match_ref_ctx on {m:?} saw {see:?}");
}
fn omk<A: Pay + IDeterminantProvider<()>>() -> (SOption<A>, Option<u64>) {
    let v = nv();
    match choose(5) {
        0 | 1 => (SOption::Some(A::pmk(v)), Some(A::keep(v))),
        2 => (SOption::None(), None),
        3 => (Some(A::pmk(v)).into(), Some(A::keep(v))),
        _ => {
            let r = if choose(2) == 0 { SOption::default() } else { None.into() };
            (r, None)
        }
    }
}
fn options<A: Pay + IDeterminantProvider<()>>(c: Ctx) {
    log(|| core::any::type_name::<SOption<A>>().into());
    let (mut r, mut m) = omk::<A>();
    osee(&r, &m);
    for _ in 0..1 + choose(8) {
        let op = choose(11);
        log(|| format!("op {op} on {m:?}"));
        match op {
            0 => {
                let (n, nm) = omk::<A>();
                m = nm;
                act(c, || r = n);
            }
            1 => {
                let k: Option<A> = r.into();
                check!(k.as_ref().map(Pay::pv) == m, "wrong-payload", "became {:?} instead of {m:?}", k.as_ref().map(Pay::pv));
                r = k.into();
            }
            2 => {
                if let Out::Done(d) = act(c, || r.clone()) {
                    osee(&d, &m);
                    if let Out::Done(e) = act(c, || d == r) {
                        check!(e, "not-equal", "a clone of {m:?} is not equal");
                    }
                    act(c, || drop(d));
                }
            }
            3 => {
                let (o, om) = omk::<A>();
                if let Out::Done(e) = act(c, || r == o) {
                    check!(e == (m == om), "equality", "{m:?} == {om:?} is {e}");
                }
                act(c, || drop(o));
            }
            4 | 5 => {
                let (v, done) = (nv(), core::cell::Cell::new(false));
                let (f, whole) = (choose(3), choose(2) == 0);
                macro_rules! edit {
                    ($g: expr) => {{
                        let mut g = $g;
                        let n = A::pmk(v);
                        maybe_panic("panic_edit");
                        done.set(true);
                        if whole { *g = n } else { g.touch(v) }
                        maybe_panic("panic_edit");
                    }};
                }
                act(c, || match f {
                    0 => r.match_mut(|g| edit!(g), || maybe_panic("panic_edit")),
                    1 => r.match_mut_ctx(Tok::new(1), |t, g| { edit!(g); drop(t) }, |t| { maybe_panic("panic_edit"); drop(t) }),
                    _ => {
                        if let Some(g) = r.as_mut() {
                            edit!(g)
                        }
                    }
                });
                if done.get() {
                    check!(m.is_some(), "wrong-variant", "a closure for a value ran on None");
                    m = Some(A::keep(v));
                }
            }
            6 => {
                let (mut o, mut om) = omk::<A>();
                if let (Some(mut a), Some(mut b)) = (r.as_mut(), o.as_mut()) {
                    core::mem::swap(&mut *a, &mut *b);
                    core::mem::swap(&mut m, &mut om);
                }
                osee(&o, &om);
                act(c, || drop(o));
            }
            7 => {
                let f = choose(2);
                let out = act(c, || {
                    if f == 0 {
                        r.match_owned(|a| SOption::Some(hand(a)), || { maybe_panic("panic_edit"); SOption::None() })
                    } else {
                        r.match_owned_ctx(Tok::new(2), |t, a| { let x = SOption::Some(hand(a)); drop(t); x }, |t| { maybe_panic("panic_edit"); drop(t); SOption::None() })
                    }
                });
                match out {
                    Out::Done(x) => r = x,
                    _ => (r, m) = omk(),
                }
            }
            8 => {
                let v = nv();
                if choose(2) == 0 {
                    act(c, || {
                        let x = r.unwrap_or_else(|| { maybe_panic("panic_edit"); A::pmk(v) });
                        check!(x.pv() == m.unwrap_or(A::keep(v)), "wrong-payload", "unwrap_or_else of {m:?} gave {}", x.pv());
                    });
                } else {
                    let out = catch_any(|| r.unwrap().pv());
                    check!(out == m, "wrong-payload", "unwrapping {m:?} gave {out:?}");
                }
                (r, m) = omk();
            }
            9 => {
                let b = Box::new(r);
                osee(&b, &m);
                r = *b;
                let mut v: SVec<SOption<A>> = SVec::new();
                v.push(r);
                let (o, om) = omk::<A>();
                v.push(o);
                v.swap(0, 1);
                osee(&v[0], &om);
                r = v.pop().unwrap();
                act(c, || drop(v));
            }
            _ => {
                if choose(2) == 0 {
                    let g = r.ref_as::<Option<A>>();
                    check!(g.as_ref().map(Pay::pv) == m, "wrong-payload", "seen as another value than {m:?}");
                } else {
                    let (v, done) = (nv(), core::cell::Cell::new(None));
                    act(c, || {
                        let mut g = r.mut_as::<Option<A>>();
                        check!(g.as_ref().map(Pay::pv) == m, "wrong-payload", "seen as another value than {m:?}");
                        maybe_panic("panic_edit");
                        if choose(2) == 0 {
                            done.set(Some(None));
                            *g = None;
                        } else {
                            let n = A::pmk(v);
                            done.set(Some(Some(A::keep(v))));
                            *g = Some(n);
                        }
                        maybe_panic("panic_edit");
                    });
                    if let Some(n) = done.get() {
                        m = n;
                    }
                }
            }
        }
        osee(&r, &m);
    }
    act(c, || drop(r));
}
fn sums<E: Sum>(c: Ctx) {
    let mk = || {
        let v = nv();
        (E::pmk(v), E::keep(v))
    };
    let see = |e: &E, m: u64| check!(e.pv() == m, "wrong-payload", "holds {} instead of {m}", e.pv());
    log(|| core::any::type_name::<E>().into());
    let (mut e, mut m) = mk();
    see(&e, m);
    let v = nv();
    let h = SResult::<Nic, Small>::pmk(v);
    check!(hash(&h) == hash(&h.clone()) && hash(&h) == hash(&SResult::<Nic, Small>::pmk(v)), "hash", "equal results hash differently");
    let h = SOption::<Nic>::pmk(v);
    check!(hash(&h) == hash(&h.clone()) && hash(&h) == hash(&SOption::<Nic>::pmk(v)), "hash", "equal options hash differently");
    for _ in 0..1 + choose(8) {
        let op = choose(5);
        log(|| format!("op {op} on {m}"));
        match op {
            0 => {
                let (n, nm) = mk();
                m = nm;
                act(c, || e = n);
            }
            1 => match act(c, || e.through()) {
                Out::Done(x) => e = x,
                _ => (e, m) = mk(),
            },
            2 => {
                let v = nv();
                if let Out::Done(()) = act(Ctx { panics: false, ..c }, || e.touch(v)) {
                    m = E::keep(v)
                }
            }
            3 => {
                if let Out::Done(d) = act(c, || e.clone()) {
                    see(&d, m);
                    act(c, || drop(d));
                }
            }
            _ => {
                let (o, om) = mk();
                if let Out::Done(x) = act(c, || e == o) {
                    check!(x == (m == om), "equality", "{m} == {om} is {x}");
                }
            }
        }
        see(&e, m);
    }
    act(c, || drop(e));
}
fn frame(c: Ctx, f: fn(Ctx)) {
    run(|| {
        set_faults(false);
        crate::vecs::lossless();
        // without panicking destructors nothing may be leaked
        let strict = choose(2) == 0;
        reg().no_drop_panics = strict;
        f(c);
        if !strict {
            crate::vecs::settle();
        }
    })
}
type OR = SOption<Bx>;
macro_rules! table {
    ($name: ident, $f: ident, $c: expr, [$(($($t: ty),*)),* $(,)?]) => {
        pub fn $name() {
            static T: &[fn(Ctx)] = &[$($f::<$($t),*>),*];
            frame($c, T[choose(T.len())])
        }
    };
}
/// Odd sizes.
#[stabby::stabby]
#[derive(Clone, PartialEq, Debug)]
pub struct B3 {
    a: u8,
    b: u8,
    c: u8,
}
impl Pay for B3 {
    fn pmk(v: u64) -> Self {
        B3 { a: v as u8, b: (v >> 8) as u8, c: !(v as u8) }
    }
    fn keep(v: u64) -> u64 {
        v as u16 as u64
    }
    fn pv(&self) -> u64 {
        check!(self.c == !self.a, "torn-value", "payload holds {}, {} and {}", self.a, self.b, self.c);
        self.a as u64 | (self.b as u64) << 8
    }
}
#[stabby::stabby(no_opt)]
#[derive(Clone, PartialEq, Debug)]
pub struct Q {
    a: u64,
    n: NonZeroU8,
}
impl Pay for Q {
    fn pmk(v: u64) -> Self {
        Q { a: v, n: NonZeroU8::pmk(v) }
    }
    fn keep(v: u64) -> u64 {
        v
    }
    fn pv(&self) -> u64 {
        check!(self.n.get() as u64 == NonZeroU8::keep(self.a), "torn-value", "payload holds {} and {}", self.a, self.n);
        self.a
    }
}
#[stabby::stabby(no_opt)]
#[derive(Clone, PartialEq, Debug)]
pub struct W {
    f: bool,
    a: u16,
    g: bool,
}
impl Pay for W {
    fn pmk(v: u64) -> Self {
        W { f: v & 1 == 1, a: v as u16, g: v & 2 == 2 }
    }
    fn keep(v: u64) -> u64 {
        v as u16 as u64
    }
    fn pv(&self) -> u64 {
        check!(self.f.pv() == self.a as u64 & 1 && self.g.pv() == self.a as u64 >> 1 & 1, "torn-value", "payload holds {}, {} and {}", self.f, self.a, self.g);
        self.a as u64
    }
    fn touch(&mut self, v: u64) {
        unsafe { core::ptr::write_bytes(self as *mut W as *mut u8, (v * 29) as u8, core::mem::size_of::<W>()) };
        unsafe { core::ptr::write(self, W::pmk(v)) };
    }
}
impl Pay for u128 {
    fn pmk(v: u64) -> Self {
        v as u128 | !(v as u128) << 64
    }
    fn keep(v: u64) -> u64 {
        v
    }
    fn pv(&self) -> u64 {
        check!((*self >> 64) as u64 == !(*self as u64), "torn-value", "payload holds {self:#x}");
        *self as u64
    }
}
/// Every pair of layouts: made, moved, changed in place, replaced, taken out; inside options and results.
fn shape<T: Pay>(bystander: u64) {
    // neighbours notice what is written outside of the value
    struct N<T>(u64, T, u64);
    let v = nv();
    let mut n = Box::new(N(bystander, T::pmk(v), !bystander));
    check!(core::mem::size_of::<T>() == T::size() && core::mem::align_of::<T>() == T::align(), "layout", "{}: {} bytes, aligned to {}, declared as {} and {}", core::any::type_name::<T>(), core::mem::size_of::<T>(), core::mem::align_of::<T>(), T::size(), T::align());
    let mut m = T::keep(v);
    for _ in 0..1 + choose(4) {
        let v = nv();
        match choose(4) {
            0 => {
                n.1.touch(v);
                m = T::keep(v);
            }
            1 => {
                n.1 = T::pmk(v);
                m = T::keep(v);
            }
            2 => {
                let mut o = T::pmk(v);
                core::mem::swap(&mut o, &mut n.1);
                check!(o.pv() == m, "wrong-payload", "{}: holds {} instead of {m}", core::any::type_name::<T>(), o.pv());
                m = T::keep(v);
            }
            _ => {
                let o = n.1.clone();
                check!(o == n.1 && o.pv() == m, "wrong-payload", "{}: a clone holds {} instead of {m}", core::any::type_name::<T>(), o.pv());
            }
        }
        check!(n.1.pv() == m, "wrong-payload", "{}: holds {} instead of {m}", core::any::type_name::<T>(), n.1.pv());
        check!(n.0 == bystander && n.2 == !bystander, "stray-write", "{}: the neighbouring memory changed", core::any::type_name::<T>());
    }
}
fn pair<A: Pay, B: Pay>(_: Ctx)
where
    A: IDeterminantProvider<B>,
    B: IDeterminantProvider<A>,
{
    match choose(2) {
        0 => shape::<SResult<A, B>>(nv()),
        _ => shape::<SResult<B, A>>(nv()),
    }
}
macro_rules! cross {
    ($c: expr, [$($done: tt)*]) => { &[$($done)*] };
    ($c: expr, [$($done: tt)*] $a: ident $($b: ident)*) => { cross!($c, [$($done)* pair::<$a, $a>, $(pair::<$a, $b>,)*] $($b)*) };
}
pub fn layouts() {
    static T: &[fn(Ctx)] = cross!(CALM, [] u8 bool NonZeroU32 B3 W Last Bx Q Pad Mid);
    frame(CALM, T[choose(T.len())])
}
macro_rules! tables {
    ($c: expr, $r: ident, $n: ident, $o: ident, $s: ident) => {
        table!($r, results, $c, [
            (Tok, ()), ((), Tok), (Tok, Tok), (Tok, u8), (bool, ()), (u8, NonZeroU16), (Tok, Nic), (Mid, Tok), (Bx, ()), (Vt, SString), (Zst, Tok),
        ]);
        table!($n, results, $c, [
            (SResult<Mid, Mid>, SResult<Mid, Mid>), (SResult<Tok, u8>, SResult<u8, Tok>), (OR, OR), (Five, Tok), ((), Two),
        ]);
        table!($o, options, $c, [
            (Tok), (bool), (Pad), (Mid), (Bx), (Zst), (()), (SOption<SOption<Mid>>), (SResult<Mid, Tok>), (Three),
        ]);
        table!($s, sums, $c, [(Five), (Three), (Two)]);
    };
}
const CALM: Ctx = Ctx { alloc: false, malloc: false, panics: false };
const STORM: Ctx = Ctx { alloc: false, malloc: false, panics: true };
tables!(CALM, results_calm, nested_calm, options_calm, sums_calm);
tables!(STORM, results_storm, nested_storm, options_storm, sums_storm);
type R<A, B> = SResult<A, B>;
type O<A> = SOption<A>;
macro_rules! shapes {
    ($($t: ty),* $(,)?) => { &[$(shape::<$t>),*] };
}
pub fn layouts_nested() {
    static T: &[fn(u64)] = shapes![
        R<SString, Tok>, R<Bx, Bx>, R<Nic, bool>, R<Zst, Zst>, R<u128, Pad>, R<u8, u128>, R<R<Pad, Last>, Tok>, R<Tok, R<Mid, Pad>>, R<R<Pad, ()>, R<(), Pad>>,
        R<R<bool, Last>, Small>, R<R<Bx, Bx>, Bx>, R<O<O<bool>>, bool>, R<(), R<(), R<(), Mid>>>, R<R<Three, Two>, Mid>, R<stabby::tuple::Tuple2<u8, NonZeroU8>, Last>,
        O<R<Bx, Pad>>, R<R<W, B3>, R<B3, u32>>, O<O<O<O<Pad>>>>, O<O<Last>>, O<Five>, O<R<Q, NonZeroU32>>,
    ];
    frame(CALM, |_| T[choose(T.len())](nv()))
}
