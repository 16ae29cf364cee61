//! Trait objects: dispatch, conversions, downcasts and destruction, over several threads.
use crate::h::*;
use simrt::*;
use stabby::vtable;
use stabby_abi::alloc::boxed::Box as SBox;
use stabby_abi::alloc::sync::{Arc, Weak};
use stabby_abi::{Dyn, DynRef};
use stabby_abi::vtable::AnyDyn;

#[stabby::stabby]
pub trait Get {
    extern "C" fn get(&self) -> u32;
    extern "C" fn mix(&self, a: u8, b: u64, c: &u32) -> u64;
}
#[stabby::stabby]
pub trait Put {
    extern "C" fn put(&mut self, v: u32) -> u32;
    extern "C" fn salt(&self) -> u32;
}
#[stabby::stabby]
pub trait Name {
    extern "C" fn name(&self) -> u64;
    extern "C" fn rename(&mut self, by: u64) -> u64;
}

pub trait Conc: Sized + 'static + Get + Put + Name + Send + Sync {
    const SALT: u32;
    const KIND: usize;
    fn make(v: u32) -> Self;
    fn val(&self) -> u32;
    fn extra(&self) -> u64;
}
macro_rules! imp {
    ($t: ident, $salt: expr, $kind: expr, $tok: ident, $n: ident) => {
        impl Get for $t {
            extern "C" fn get(&self) -> u32 {
                self.$tok.v() ^ $salt
            }
            extern "C" fn mix(&self, a: u8, b: u64, c: &u32) -> u64 {
                (a as u64) << 56 ^ b ^ (*c as u64) << 20 ^ (self.$tok.v() ^ $salt) as u64
            }
        }
        impl Put for $t {
            extern "C" fn put(&mut self, v: u32) -> u32 {
                let o = self.$tok.v();
                self.$tok.set(v);
                o ^ $salt
            }
            extern "C" fn salt(&self) -> u32 {
                $salt
            }
        }
        impl Name for $t {
            extern "C" fn name(&self) -> u64 {
                self.$n ^ $salt
            }
            extern "C" fn rename(&mut self, by: u64) -> u64 {
                self.$n += by;
                self.$n ^ $salt
            }
        }
        impl Conc for $t {
            const SALT: u32 = $salt;
            const KIND: usize = $kind;
            fn make(v: u32) -> Self {
                $t { $tok: Elem::mk(v), $n: v as u64 * 3 }
            }
            fn val(&self) -> u32 {
                self.$tok.v()
            }
            fn extra(&self) -> u64 {
                self.$n
            }
        }
    };
}
#[stabby::stabby]
pub struct TA {
    tok: Tok,
    n: u64,
}
/// Same layout as TA, other name.
#[stabby::stabby]
pub struct TB {
    tok: Tok,
    n: u64,
}
/// Over-aligned, not representable across the boundary but usable behind it.
pub struct TC {
    tok: Big,
    n: u64,
}
/// Same fields in another order.
#[stabby::stabby]
pub struct TD {
    n: u64,
    tok: Tok,
}
/// TA as another version has it: same name, same identifier.
mod other {
    use crate::h::Tok;
    #[stabby::stabby(version = 7, module = "simverif::versions")]
    pub struct TE {
        pub(super) tok: Tok,
        pub(super) n: u64,
    }
}
#[stabby::stabby(version = 6, module = "simverif::versions")]
pub struct TE {
    tok: Tok,
    n: u64,
}
use other::TE as TF;
imp!(TE, 0x5555, 4, tok, n);
imp!(TF, 0x6666, 5, tok, n);
imp!(TA, 0x1111, 0, tok, n);
imp!(TB, 0x2222, 1, tok, n);
imp!(TC, 0x3333, 2, tok, n);
imp!(TD, 0x4444, 3, tok, n);

/// The model of one object.
#[derive(Clone, Copy)]
struct M {
    kind: usize,
    salt: u32,
    v: u32,
    n: u64,
}
fn model<T: Conc>(t: &T) -> M {
    M { kind: T::KIND, salt: T::SALT, v: t.val(), n: t.extra() }
}

type VFull = vtable!(Get + stabby::Any + Put + Name + Send + Sync);
type VPut = vtable!(Get + stabby::Any + Put + Send + Sync);
type VAny = vtable!(Get + stabby::Any + Send + Sync);
type VGet = vtable!(Get + Send + Sync);
type VPlain = vtable!(Get);
// without reflection, for types that have none
type WFull = vtable!(Get + Put + Name + Send + Sync);
type WPut = vtable!(Get + Put + Send + Sync);
type WGet = vtable!(Get + Send + Sync);

type BoxD<Vt, L> = Dyn<'static, SBox<(), L>, Vt>;
type ArcD<Vt, L> = Dyn<'static, Arc<(), L>, Vt>;
type WeakD<Vt, L> = Dyn<'static, Weak<(), L>, Vt>;

macro_rules! chk {
    ($got: expr, $want: expr, $what: literal) => {{
        let (g, w) = ($got, $want);
        check!(g == w, "wrong-call", "{} gave {:#x} instead of {:#x}", $what, g as u64, w as u64);
    }};
}
macro_rules! call_get {
    ($d: expr, $m: expr) => {{
        let (a, b, c) = (choose(256) as u8, choose(1000) as u64, choose(1000) as u32);
        chk!($d.get(), $m.v ^ $m.salt, "get");
        chk!($d.mix(a, b, &c), (a as u64) << 56 ^ b ^ (c as u64) << 20 ^ ($m.v ^ $m.salt) as u64, "mix");
    }};
}
macro_rules! call_put {
    ($d: expr, $m: expr) => {{
        let v = choose(500) as u32;
        chk!($d.put(v), $m.v ^ $m.salt, "put");
        $m.v = v;
        chk!($d.salt(), $m.salt, "salt");
    }};
}
macro_rules! call_name {
    ($d: expr, $m: expr) => {{
        let by = choose(9) as u64;
        $m.n += by;
        chk!($d.rename(by), $m.n ^ $m.salt as u64, "rename");
        chk!($d.name(), $m.n ^ $m.salt as u64, "name");
    }};
}
macro_rules! downcasts {
    ($d: expr, $m: expr) => {{
        let ra = $d.stable_downcast_ref::<TA, _>();
        check!(ra.is_some() == ($m.kind == 0), "downcast", "downcast of kind {} to kind 0: {}", $m.kind, ra.is_some());
        if let Some(x) = ra {
            chk!(x.val(), $m.v, "downcast value");
        }
        let rb = $d.stable_downcast_ref::<TB, _>();
        check!(rb.is_some() == ($m.kind == 1), "downcast", "downcast of kind {} to kind 1: {}", $m.kind, rb.is_some());
        if let Some(x) = rb {
            chk!(x.val(), $m.v, "downcast value");
        }
        let rd = $d.stable_downcast_ref::<TD, _>();
        check!(rd.is_some() == ($m.kind == 3), "downcast", "downcast of kind {} to kind 3: {}", $m.kind, rd.is_some());
        if let Some(x) = rd {
            chk!(x.val(), $m.v, "downcast value");
        }
        let re = $d.stable_downcast_ref::<TE, _>();
        check!(re.is_some() == ($m.kind == 4), "downcast", "downcast of kind {} to kind 4: {}", $m.kind, re.is_some());
        let rf = $d.stable_downcast_ref::<TF, _>();
        check!(rf.is_some() == ($m.kind == 5), "downcast", "downcast of kind {} to kind 5: {}", $m.kind, rf.is_some());
    }};
}

/// One owner of an exclusive object, under whichever set of traits is left.
enum Ex<L: HAlloc> {
    Full(BoxD<VFull, L>, M),
    Put(BoxD<VPut, L>, M),
    Any(BoxD<VAny, L>, M),
    WFull(BoxD<WFull, L>, M),
    WPut(BoxD<WPut, L>, M),
    WGet(BoxD<WGet, L>, M),
}
fn mk_ex<L: HAlloc>() -> Ex<L> {
    let v = choose(200) as u32;
    macro_rules! of {
        ($t: ty, $var: ident, $vt: ty) => {{
            let t = <$t>::make(v);
            let m = model(&t);
            Ex::$var(BoxD::<$vt, L>::from(SBox::new_in(t, L::mk())), m)
        }};
    }
    match choose(8) {
        6 => of!(TF, Full, VFull),
        5 => of!(TE, Full, VFull),
        0 => of!(TA, Full, VFull),
        1 => of!(TB, Full, VFull),
        2 => of!(TC, WFull, WFull),
        3 => of!(TD, Full, VFull),
        4 => of!(TB, WFull, WFull),
        _ => of!(TA, Put, VPut),
    }
}
fn use_ex<L: HAlloc>(mut e: Ex<L>) -> Option<Ex<L>> {
    for _ in 0..1 + choose(4) {
        e = match e {
            Ex::Full(mut d, mut m) => {
                match choose(9) {
                    0 => call_get!(d, m),
                    1 => call_put!(d, m),
                    2 => call_name!(d, m),
                    3 => downcasts!(d, m),
                    4 => {
                        let mut r = d.as_mut();
                        call_put!(r, m);
                        call_name!(r, m);
                        call_get!(r, m);
                    }
                    5 => {
                        let r = d.as_ref();
                        call_get!(r, m);
                        chk!(r.name(), m.n ^ m.salt as u64, "name");
                        let s = r.into_super::<DynRef<VPut>>();
                        chk!(s.salt(), m.salt, "salt");
                        let x = r.stable_downcast::<TA, _>();
                        check!(x.is_some() == (m.kind == 0), "downcast", "borrowed downcast of kind {} to kind 0: {}", m.kind, x.is_some());
                    }
                    6 => {
                        let x = d.stable_downcast_mut::<TF, _>();
                        check!(x.is_some() == (m.kind == 5), "downcast", "mutable downcast of kind {} to kind 5: {}", m.kind, x.is_some());
                        let x = d.as_ref().stable_downcast::<TF, _>().is_some();
                        check!(x == (m.kind == 5), "downcast", "borrowed downcast of kind {} to kind 5: {x}", m.kind);
                        let x = d.stable_downcast_mut::<TE, _>();
                        check!(x.is_some() == (m.kind == 4), "downcast", "mutable downcast of kind {} to kind 4: {}", m.kind, x.is_some());
                        let x = d.stable_downcast_mut::<TB, _>();
                        check!(x.is_some() == (m.kind == 1), "downcast", "mutable downcast of kind {} to kind 1: {}", m.kind, x.is_some());
                        if let Some(x) = x {
                            x.tok.set(77);
                            m.v = 77;
                        }
                    }
                    7 => {
                        e = Ex::Put(d.into_super(), m);
                        continue;
                    }
                    _ => drop(outside(|| ())),
                }
                Ex::Full(d, m)
            }
            Ex::Put(mut d, mut m) => {
                match choose(5) {
                    0 => call_get!(d, m),
                    1 => call_put!(d, m),
                    2 => downcasts!(d, m),
                    3 => {
                        let mut r = d.as_mut();
                        call_put!(r, m);
                    }
                    _ => {
                        e = Ex::Any(d.into_super(), m);
                        continue;
                    }
                }
                Ex::Put(d, m)
            }
            Ex::Any(d, m) => {
                match choose(3) {
                    0 => call_get!(d, m),
                    1 => downcasts!(d, m),
                    _ => {
                        // no more traits but one, nor thread-safety marks
                        let g: BoxD<VGet, L> = d.into_super();
                        call_get!(g, m);
                        let p: BoxD<VPlain, L> = g.into_super();
                        call_get!(p, m);
                        drop(p);
                        return None;
                    }
                }
                Ex::Any(d, m)
            }
            Ex::WFull(mut d, mut m) => {
                match choose(5) {
                    0 => call_get!(d, m),
                    1 => call_put!(d, m),
                    2 => call_name!(d, m),
                    3 => {
                        let mut r = d.as_mut();
                        call_name!(r, m);
                        call_get!(r.as_ref(), m);
                    }
                    _ => {
                        e = Ex::WPut(d.into_super(), m);
                        continue;
                    }
                }
                Ex::WFull(d, m)
            }
            Ex::WPut(mut d, mut m) => {
                match choose(3) {
                    0 => call_get!(d, m),
                    1 => call_put!(d, m),
                    _ => {
                        e = Ex::WGet(d.into_super(), m);
                        continue;
                    }
                }
                Ex::WPut(d, m)
            }
            Ex::WGet(d, m) => {
                call_get!(d, m);
                Ex::WGet(d, m)
            }
        };
    }
    if chance(1, 4) {
        drop(e);
        None
    } else {
        Some(e)
    }
}
fn boxed<L: HAlloc>() {
    run(|| {
        set_faults(false);
        let mail: &'static mut Vec<Ex<L>> = outside(|| Box::leak(Box::default()));
        let mail = mail as *mut Vec<Ex<L>> as usize;
        let get = move || unsafe { &mut *(mail as *mut Vec<Ex<L>>) };
        let nt = 1 + choose(2);
        let mut ids = [0; 2];
        for t in 0..nt {
            let n = 1 + choose(6);
            ids[t] = spawn(move || {
                for _ in 0..n {
                    // take an object another thread may have left, or make one
                    acquire(mail);
                    let taken = outside(|| if get().is_empty() { None } else { Some(get().remove(0)) });
                    let e = match taken {
                        Some(e) if chance(2, 3) => e,
                        Some(e) => {
                            drop(e);
                            continue;
                        }
                        None => mk_ex(),
                    };
                    if let Some(e) = use_ex(e) {
                        release(mail);
                        outside(|| get().push(e));
                    }
                    yield_now();
                }
            });
        }
        for t in 0..nt {
            join_thread(ids[t]);
        }
        while let Some(e) = outside(|| get().pop()) {
            drop(e);
        }
        // borrowed trait objects own nothing
        if chance(1, 4) {
            let v = choose(100) as u32;
            let mut t = TA::make(v);
            let mut m = model(&t);
            {
                let d: DynRef<vtable!(Get + stabby::Any + Put)> = (&t).into();
                call_get!(d, m);
                let d2 = d;
                call_get!(d2, m);
                let s: DynRef<vtable!(Get + stabby::Any)> = d.into_super();
                call_get!(s, m);
                check!(s.stable_downcast::<TB, _>().is_none(), "downcast", "borrowed TA downcast to TB");
                check!(s.stable_downcast::<TA, _>().is_some(), "downcast", "borrowed TA did not downcast to TA");
            }
            {
                let mut d: Dyn<&mut (), vtable!(Get + Put + Name)> = (&mut t).into();
                call_put!(d, m);
                call_name!(d, m);
                let mut s: Dyn<&mut (), vtable!(Get + Put)> = d.into_super();
                call_put!(s, m);
            }
            chk!(t.val(), m.v, "value after borrowed calls");
            drop(t);
        }
        outside(|| drop(unsafe { Box::from_raw(mail as *mut Vec<Ex<L>>) }));
    })
}
pub fn boxed_sa() {
    boxed::<SA>()
}
pub fn boxed_rust() {
    boxed::<RustAlloc>()
}

// -------------------------------------------------------------------------------- shared objects
enum Sh<L: HAlloc> {
    S(ArcD<VFull, L>),
    P(ArcD<VAny, L>),
    W(WeakD<VFull, L>),
    V(ArcD<WGet, L>),
    VW(WeakD<WGet, L>),
}
enum Kept<L: HAlloc> {
    No,
    A(Arc<TA, L>),
    B(Arc<TB, L>),
    C(Arc<TC, L>),
    D(Arc<TD, L>),
}
static mut LEFT: Vec<Box<dyn core::any::Any>> = Vec::new();
fn left() -> &'static mut Vec<Box<dyn core::any::Any>> {
    unsafe { &mut *core::ptr::addr_of_mut!(LEFT) }
}
fn shared<L: HAlloc>(weird: bool) {
    run(|| {
        set_faults(false);
        outside(|| core::mem::forget(core::mem::take(left())));
        let v = choose(200) as u32;
        let m;
        // With the concrete owner kept aside, the counts can be read at rest.
        let keep = chance(1, 2);
        let kept: Kept<L>;
        let first = if !weird {
            macro_rules! of {
                ($t: ty, $k: ident) => {{
                    let t = <$t>::make(v);
                    m = model(&t);
                    let a = Arc::new_in(t, L::mk());
                    kept = if keep { Kept::$k(a.clone()) } else { Kept::No };
                    Sh::S(ArcD::<VFull, L>::from(a))
                }};
            }
            match choose(3) {
                0 => of!(TA, A),
                1 => of!(TB, B),
                _ => of!(TD, D),
            }
        } else {
            let t = TC::make(v);
            m = model(&t);
            let a = Arc::new_in(t, L::mk());
            kept = if keep { Kept::C(a.clone()) } else { Kept::No };
            Sh::V(ArcD::<WGet, L>::from(a))
        };
        let dup = |x: &Sh<L>| -> Sh<L> {
            match x {
                Sh::S(d) => {
                    if chance(1, 3) {
                        Sh::W(WeakD::<VFull, L>::from(unsafe { &*(d as *const _) }))
                    } else {
                        Sh::S(d.clone())
                    }
                }
                Sh::P(d) => Sh::P(d.clone()),
                Sh::W(d) => Sh::W(d.clone()),
                Sh::V(d) => {
                    if chance(1, 3) {
                        Sh::VW(WeakD::<WGet, L>::from(unsafe { &*(d as *const _) }))
                    } else {
                        Sh::V(d.clone())
                    }
                }
                Sh::VW(d) => Sh::VW(d.clone()),
            }
        };
        let nt = 1 + choose(3);
        let mut ids = [0; 3];
        for t in 0..nt {
            let mine = dup(&first);
            let n = 2 + choose(6);
            ids[t] = spawn(move || {
                let mut held = outside(Vec::new);
                outside(|| held.push(mine));
                for _ in 0..n {
                    if held.is_empty() {
                        break;
                    }
                    let i = choose(held.len());
                    match choose(6) {
                        0 => {
                            let d = dup(&held[i]);
                            outside(|| held.push(d));
                        }
                        1 => {
                            let d = outside(|| held.remove(i));
                            drop(d);
                        }
                        2 => match &held[i] {
                            Sh::S(d) => {
                                call_get!(d, m);
                                downcasts!(d, m);
                            }
                            Sh::P(d) => call_get!(d, m),
                            Sh::V(d) => call_get!(d, m),
                            _ => {}
                        },
                        3 => {
                            // upgrade, by value
                            let d = outside(|| held.remove(i));
                            match d {
                                Sh::W(w) => match w.upgrade().into() {
                                    Some(d) => {
                                        let d: ArcD<VFull, L> = d;
                                        call_get!(d, m);
                                        probe("upgrade_ok");
                                        outside(|| held.push(Sh::S(d)));
                                    }
                                    None => probe("upgrade_none"),
                                },
                                Sh::VW(w) => match w.upgrade().into() {
                                    Some(d) => {
                                        let d: ArcD<WGet, L> = d;
                                        call_get!(d, m);
                                        probe("upgrade_ok");
                                        outside(|| held.push(Sh::V(d)));
                                    }
                                    None => probe("upgrade_none"),
                                },
                                d => outside(|| held.push(d)),
                            }
                        }
                        4 => {
                            // exclusive access when alone
                            if let Sh::S(d) = &mut held[i] {
                                if let Some(mut r) = d.try_as_mut() {
                                    probe("unique_yes");
                                    // written and put back: whoever looks concurrently sees a race
                                    let o = r.put(999) ^ m.salt;
                                    chk!(o, m.v, "put through exclusive access");
                                    r.put(o);
                                } else {
                                    probe("unique_no");
                                }
                            }
                        }
                        _ => {
                            let d = outside(|| held.remove(i));
                            let d = match d {
                                Sh::S(d) if chance(1, 2) => {
                                    let p: ArcD<VPut, L> = d.into_super();
                                    Sh::P(p.into_super())
                                }
                                d => d,
                            };
                            outside(|| held.push(d));
                        }
                    }
                }
                let leave = chance(1, 2);
                while let Some(d) = outside(|| held.pop()) {
                    if leave && chance(2, 3) {
                        outside(|| left().push(Box::new(d)));
                    } else {
                        drop(d);
                    }
                }
                outside(|| drop(held));
            });
        }
        if chance(1, 2) {
            drop(first);
        } else {
            yield_now();
            if let Sh::S(d) = &first {
                call_get!(d, m);
            }
            drop(first);
        }
        for t in 0..nt {
            join_thread(ids[t]);
        }
        let mut left = outside(|| {
            let l: Vec<Sh<L>> = core::mem::take(left()).into_iter().map(|d| *d.downcast::<Sh<L>>().unwrap()).collect();
            l
        });
        let counts = match &kept {
            Kept::No => None,
            Kept::A(a) => Some((Arc::strong_count(a), Arc::weak_count(a))),
            Kept::B(a) => Some((Arc::strong_count(a), Arc::weak_count(a))),
            Kept::C(a) => Some((Arc::strong_count(a), Arc::weak_count(a))),
            Kept::D(a) => Some((Arc::strong_count(a), Arc::weak_count(a))),
        };
        if let Some((s, w)) = counts {
            let weak = left.iter().filter(|d| matches!(d, Sh::W(_) | Sh::VW(_))).count();
            let strong = left.len() - weak;
            check!(s == strong + 1, "strong-count", "{} strong owners, {} reported", strong + 1, s);
            check!(w == weak + 1, "weak-count", "{} weak owners, {} reported", weak, w as isize - 1);
        }
        if chance(1, 2) {
            drop(kept);
            while let Some(d) = outside(|| left.pop()) {
                drop(d);
            }
        } else {
            while let Some(d) = outside(|| left.pop()) {
                drop(d);
            }
            drop(kept);
        }
        outside(|| drop(left));
    })
}
pub fn shared_sa() {
    shared::<SA>(false)
}
pub fn shared_rust() {
    shared::<RustAlloc>(false)
}
pub fn shared_aligned() {
    shared::<SA>(true)
}

// ------------------------------------------------------------------- closures and iterators
struct It {
    left: u32,
    tok: Tok,
}
impl core::iter::Iterator for It {
    type Item = Tok;
    fn next(&mut self) -> Option<Tok> {
        if self.left == 0 {
            None
        } else {
            self.left -= 1;
            Some(Tok::new(self.tok.v() + self.left))
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.left as usize, Some(self.left as usize + 1))
    }
}
type DOnce = stabby::dynptr!(SBox<dyn FnOnce(Tok) -> u64 + Send>);
type DMut = stabby::dynptr!(SBox<dyn FnMut(u32, u64) -> u64 + Send>);
type DFn = stabby::dynptr!(SBox<dyn Fn(u32) -> u64 + Send + Sync>);
type DIter = stabby::dynptr!(SBox<dyn Iterator<Item = Tok>>);
fn mk_once(v: u32) -> impl FnOnce(Tok) -> u64 + Send + 'static {
    let t = Tok::new(v);
    let pad = [v as u64; 3];
    move |x: Tok| {
        let r = (t.v() * 1000 + x.v()) as u64 + pad[2];
        drop(t);
        r
    }
}
fn mk_mut(v: u32) -> impl FnMut(u32, u64) -> u64 + Send + 'static {
    let t = Tok::new(v);
    let mut count = 0u64;
    move |x: u32, y: u64| {
        count += 1;
        count << 48 ^ y << 8 ^ (x + t.v()) as u64
    }
}
fn mk_fn(v: u32) -> impl Fn(u32) -> u64 + Send + Sync + 'static {
    let t = Tok::new(v);
    move |x: u32| (x + t.v()) as u64
}
fn warm_ret<T, Vt: stabby_abi::vtable::IConstConstructor<'static, T>>(_: fn(u32) -> T, _: core::marker::PhantomData<Vt>) {
    let _ = Vt::vtable();
}
pub trait VtOf {
    type Vt;
}
impl<P: stabby_abi::IPtrOwned, Vt: stabby_abi::vtable::HasDropVt> VtOf for Dyn<'static, P, Vt> {
    type Vt = Vt;
}
pub fn callables() {
    use stabby::closure::{Call1Dyn, CallMut2DynMut, CallOnceDyn1};
    run(|| {
        set_faults(false);
        let n = 1 + choose(4);
        for _ in 0..n {
            let v = choose(100) as u32;
            match choose(4) {
                0 => {
                    let d: DOnce = SBox::new(mk_once(v)).into();
                    if chance(1, 4) {
                        // never called: what it captured is still dropped
                        drop(d);
                    } else {
                        let a = Tok::new(7);
                        let id = spawn(move || {
                            let r = d.call_once(a);
                            chk!(r, (v * 1000 + 7) as u64 + v as u64, "a closure called once");
                        });
                        join_thread(id);
                    }
                }
                1 => {
                    let mut d: DMut = SBox::new(mk_mut(v)).into();
                    for k in 0..choose(4) {
                        let (x, y) = (choose(50) as u32, choose(1000) as u64);
                        chk!(d.call_mut(x, y), (k as u64 + 1) << 48 ^ y << 8 ^ (x + v) as u64, "a mutable closure");
                    }
                }
                2 => {
                    let d: DFn = SBox::new(mk_fn(v)).into();
                    let d: &'static DFn = outside(|| Box::leak(Box::new(d)));
                    let a = spawn(move || {
                        for x in 0..choose(3) {
                            chk!(d.call(x as u32), x as u64 + v as u64, "a shared closure");
                        }
                    });
                    chk!(d.call(9), 9 + v as u64, "a shared closure");
                    join_thread(a);
                    let d = outside(|| *unsafe { Box::from_raw(d as *const DFn as *mut DFn) });
                    drop(d);
                }
                _ => {
                    let k = choose(4) as u32;
                    let mut d: DIter = SBox::new(It { left: k, tok: Tok::new(v) }).into();
                    let stop = choose(5) as u32;
                    for i in 0..stop {
                        let h = core::iter::Iterator::size_hint(&d);
                        let left = k.saturating_sub(i) as usize;
                        check!(h == (left, Some(left + 1)), "wrong-call", "size_hint gave {h:?} with {left} elements left");
                        match core::iter::Iterator::next(&mut d) {
                            Some(x) => {
                                check!(i < k, "wrong-call", "an iterator of {k} elements gave a {i}th");
                                chk!(x.v(), v + k - i - 1, "an element of a dynamic iterator");
                            }
                            None => check!(i >= k, "wrong-call", "an iterator of {k} elements stopped after {i}"),
                        }
                    }
                }
            }
        }
    })
}
/// First uses of dispatch tables: registering them races.
pub fn first_use() {
    run(|| {
        set_faults(false);
        let nt = 2 + choose(2);
        let mut ids = [0; 3];
        for t in 0..nt {
            let order = choose(6);
            ids[t] = spawn(move || {
                for k in 0..3 {
                    let v = choose(100) as u32;
                    macro_rules! go {
                        ($t: ty) => {{
                            let t = <$t>::make(v);
                            let m = model(&t);
                            let d = BoxD::<vtable!(Name + Get), RustAlloc>::from(SBox::new(t));
                            call_get!(d, m);
                            chk!(d.name(), m.n ^ m.salt as u64, "name");
                            drop(d);
                        }};
                    }
                    match (order + k * (1 + order / 3)) % 3 {
                        0 => go!(TA),
                        1 => go!(TB),
                        _ => go!(TC),
                    }
                }
            });
        }
        for t in 0..nt {
            join_thread(ids[t]);
        }
        // the tables stay
        set_leak_check(false);
    })
}

/// Registers every table the scenarios but the last use, outside the simulation: the process-wide
/// registry outlives single runs.
pub fn warm() {
    macro_rules! w {
        ($t: ty: $($vt: ty),*) => {$(
            let _ = <$vt as stabby_abi::vtable::IConstConstructor<'static, $t>>::vtable();
        )*};
    }
    w!(TA: VFull, VPut, VAny, VGet, VPlain, WFull, WPut, WGet, vtable!(Get + stabby::Any + Put), vtable!(Get + Put + Name));
    w!(TB: VFull, VPut, VAny, VGet, VPlain, WFull, WPut, WGet);
    w!(TD: VFull, VPut, VAny, VGet, VPlain, WFull, WPut, WGet);
    w!(TE: VFull, VPut, VAny, VGet, VPlain, WFull, WPut, WGet);
    w!(TF: VFull, VPut, VAny, VGet, VPlain, WFull, WPut, WGet);
    w!(TC: WFull, WPut, WGet);
    w!(It: <DIter as VtOf>::Vt);
    w!(SA: <crate::allocs::DynAlloc as VtOf>::Vt);
    use core::marker::PhantomData as P;
    warm_ret(mk_once, P::<<DOnce as VtOf>::Vt>);
    warm_ret(mk_mut, P::<<DMut as VtOf>::Vt>);
    warm_ret(mk_fn, P::<<DFn as VtOf>::Vt>);
}
