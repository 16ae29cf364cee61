//! What collections show of themselves - order, equality, hashes, text, indexing, iteration - against the
//! standard library's, for elements that are not all comparable, and while allocations fail.
use crate::h::*;
use crate::vecs::*;
use core::cmp::Ordering;
use core::fmt::{Debug, LowerHex, UpperHex};
use core::hash::{Hash, Hasher};
use simrt::*;
use stabby_abi::alloc::boxed::{BoxedSlice, BoxedStr};
use stabby_abi::alloc::single_or_vec::SingleOrVec;
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{ArcSlice, ArcStr};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::slice::{Slice, SliceMut};
use stabby_abi::str::{Str, StrMut};

fn h<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}
macro_rules! eq {
    ($got: expr, $want: expr, $what: expr) => {{
        match (&$got, &$want) {
            (g, w) => check!(*g == *w, "differs-from-std", "{}: {:?} instead of {:?}", $what, g, w),
        }
    }};
}
/// Partial comparisons of `a` and `b`, which hold `x` and `y`.
macro_rules! order {
    ($a: expr, $b: expr, $x: expr, $y: expr, $what: literal) => {{
        let (a, b, x, y) = (&$a, &$b, &$x, &$y);
        eq!(a == b, x == y, concat!($what, " =="));
        eq!(a != b, x != y, concat!($what, " !="));
        eq!(a.partial_cmp(b), x.partial_cmp(y), concat!($what, " partial_cmp"));
        eq!((a < b, a <= b, a > b, a >= b), (x < y, x <= y, x > y, x >= y), concat!($what, " < <= > >="));
    }};
}
macro_rules! total {
    ($a: expr, $b: expr, $x: expr, $y: expr, $what: literal) => {{
        eq!(Ord::cmp(&$a, &$b), Ord::cmp(&$x, &$y), concat!($what, " cmp"));
    }};
}
macro_rules! hash {
    ($a: expr, $x: expr, $what: literal) => {
        eq!(h(&$a), h(&$x), concat!($what, "'s hash"))
    };
}
macro_rules! text {
    ($a: expr, $x: expr, $what: literal) => {{
        eq!(format!("{:?}", $a), format!("{:?}", $x), concat!($what, "'s debug text"));
        eq!(format!("{:#?}", $a), format!("{:#?}", $x), concat!($what, "'s long debug text"));
    }};
}
macro_rules! hex {
    ($a: expr, $x: expr, $what: literal) => {{
        let join = |f: &dyn Fn(&_) -> String| $x.iter().map(|e| f(e)).collect::<Vec<_>>().join(":");
        eq!(format!("{:x}", $a), join(&|e| format!("{e:x}")), concat!($what, " in hexadecimal"));
        eq!(format!("{:02X}", $a), join(&|e| format!("{e:02X}")), concat!($what, " in upper hexadecimal"));
        eq!(format!("{:#06x}", $a), join(&|e| format!("{e:#06x}")), concat!($what, " in prefixed hexadecimal"));
    }};
}
fn few<T: Copy>(from: &[T]) -> Vec<T> {
    (0..choose(5)).map(|_| pick(from)).collect()
}
/// Two lists, often with a common beginning.
fn pair<T: Copy>(from: &[T]) -> (Vec<T>, Vec<T>) {
    let x = few(from);
    let mut y = match choose(3) {
        0 => few(from),
        1 => x.clone(),
        _ => x[..choose(x.len() + 1)].to_vec(),
    };
    if choose(3) == 0 {
        y.push(pick(from));
    }
    (x, y)
}
/// What hints say is no promise.
struct Lying<T>(std::vec::IntoIter<T>, (usize, Option<usize>));
impl<T> Iterator for Lying<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}
fn lying<T: Copy>(x: &[T]) -> Lying<T> {
    let n = x.len();
    let hint = match choose(4) {
        0 => (n, Some(n)),
        1 => (0, None),
        2 => (n / 2, Some(n + 7)),
        _ => (0, Some(usize::MAX)),
    };
    Lying(x.to_vec().into_iter(), hint)
}
fn collect<T: Copy, C: FromIterator<T>>(x: &[T], c: Ctx) -> Out<C> {
    let it = lying(x);
    act(c, || it.collect())
}
fn vec_of<T: Copy, A: HAlloc>(x: &[T], c: Ctx) -> Option<SVec<T, A>> {
    let r = match choose(4) {
        0 => act(c, || SVec::<T, A>::from(x)),
        1 => {
            let it = lying(x);
            act(c, || it.collect::<SVec<T, A>>())
        }
        2 => {
            let mut v = SVec::new_in(A::mk());
            let it = lying(x);
            match act(c, || v.extend(it)) {
                Out::Done(()) => Out::Done(v),
                _ => Out::NoMem,
            }
        }
        _ => {
            let mut v = SVec::new_in(A::mk());
            match act(c, || v.try_copy_extend(x)) {
                Out::Done(Ok(())) => Out::Done(v),
                Out::Done(Err(_)) => Out::NoMem,
                _ => fail("panic", || "try_copy_extend panicked".into()),
            }
        }
    };
    match r {
        Out::Done(v) => Some(v),
        _ => None,
    }
}
fn bits<T: Copy>(v: &[T]) -> &[u8] {
    unsafe { core::slice::from_raw_parts(v.as_ptr().cast(), core::mem::size_of_val(v)) }
}
fn slice_uses<T: Copy + PartialOrd + Debug + 'static, A: HAlloc>(v: &mut SVec<T, A>, x: &mut Vec<T>) {
    let n = x.len();
    // indexing, with ranges that may be out of bounds
    let (i, j) = (choose(n + 2), choose(n + 2));
    macro_rules! index {
        ($r: expr, $what: literal) => {{
            let g = catch_any(|| bits(&v[$r]).to_vec());
            let w = catch_any(|| bits(&x[$r]).to_vec());
            eq!(g, w, $what);
        }};
    }
    index!(i..j, "[i..j]");
    index!(..j, "[..j]");
    index!(i.., "[i..]");
    index!(.., "[..]");
    index!(..=j, "[..=j]");
    index!(i..=j, "[i..=j]");
    let (g, w) = (catch_any(|| bits(core::slice::from_ref(&v[i])).to_vec()), catch_any(|| bits(core::slice::from_ref(&x[i])).to_vec()));
    eq!(g, w, "[i]");
    if n > 0 {
        let (i, j) = (choose(n), choose(n));
        let e = x[j];
        match choose(6) {
            0 => (v[i], x[i]) = (e, e),
            1 => (v[i..][0], x[i]) = (e, e),
            2 => (v.as_mut()[i], x[i]) = (e, e),
            3 => {
                v[..].reverse();
                x.reverse();
            }
            4 => {
                for (k, y) in (&mut *v).into_iter().enumerate() {
                    if k == i {
                        *y = e;
                    }
                }
                x[i] = e;
            }
            _ => {
                core::ops::DerefMut::deref_mut(v).swap(i, j);
                x.swap(i, j);
            }
        }
    }
    eq!(bits(v), bits(x), "the vector");
    eq!(bits(AsRef::<[T]>::as_ref(v)), bits(x), "as_ref");
    eq!(v.is_empty(), x.is_empty(), "is_empty");
    let (g, w): (Vec<T>, Vec<T>) = (v.iter().copied().collect(), x.clone());
    eq!(bits(&g), bits(&w), "iteration");
    let g: Vec<T> = (&*v).into_iter().copied().collect();
    eq!(bits(&g), bits(&w), "iteration by reference");
}
fn partial<T: Copy + PartialOrd + Debug + 'static, A: HAlloc>(from: &[T], c: Ctx) {
    let (mut x, y) = pair(from);
    let (Some(mut a), Some(b)) = (vec_of::<T, A>(&x, c), vec_of::<T, A>(&y, c)) else {
        return;
    };
    order!(a, b, x, y, "Vec");
    eq!(a == &y[..], x == y, "Vec == slice");
    eq!(a.partial_cmp(&y), x.partial_cmp(&y), "Vec partial_cmp Vec");
    text!(a, x, "Vec");
    slice_uses(&mut a, &mut x);
    let (sa, sb) = (Slice::from(&x[..]), Slice::from(&y[..]));
    eq!(sa == sb, x == y, "Slice ==");
    text!(sa, x, "Slice");
    let back: &[T] = sa.into();
    eq!(bits(back), bits(&x), "Slice as slice");
    let (a, b): (BoxedSlice<T, A>, BoxedSlice<T, A>) = (a.into(), b.into());
    order!(a, b, x, y, "BoxedSlice");
    text!(a, x, "BoxedSlice");
    let (a, b): (SVec<T, A>, SVec<T, A>) = (a.into(), b.into());
    let (Out::Done(a), Out::Done(b)) = (act(c, || ArcSlice::from(a)), act(c, || ArcSlice::from(b))) else {
        return;
    };
    order!(a, b, x, y, "ArcSlice");
    order!(a, a.clone(), x, x.clone(), "an ArcSlice and itself");
    text!(a, x, "ArcSlice");
}
fn ordered<T: Copy + Ord + Hash + Debug + LowerHex + UpperHex + 'static, A: HAlloc>(from: &[T], c: Ctx) {
    let (mut x, y) = pair(from);
    let (Some(mut a), Some(b)) = (vec_of::<T, A>(&x, c), vec_of::<T, A>(&y, c)) else {
        return;
    };
    total!(a, b, x, y, "Vec");
    hex!(a, x, "Vec");
    slice_uses(&mut a, &mut x);
    hash!(Slice::from(&x[..]), x[..], "Slice");
    {
        let mut z = x.clone();
        let mut z2 = y.clone();
        let (mut ma, mb) = (SliceMut::from(&mut z[..]), SliceMut::from(&mut z2[..]));
        eq!(ma == mb, x == y, "SliceMut ==");
        hash!(ma, x[..], "SliceMut");
        text!(ma, x, "SliceMut");
        ma.reverse();
        let s: Slice<T> = match choose(3) {
            0 => ma.into(),
            1 => {
                let s: &[T] = ma.into();
                s.into()
            }
            _ => {
                let s: &mut [T] = ma.into();
                s.into()
            }
        };
        let r: Vec<T> = x.iter().rev().copied().collect();
        eq!(s.as_slice(), &r[..], "a reversed SliceMut");
    }
    let (a, b) = match choose(3) {
        0 => (a.into(), b.into()),
        1 => match (act(c, || BoxedSlice::<T, A>::from(&x[..])), act(c, || BoxedSlice::<T, A>::from(&y[..]))) {
            (Out::Done(a), Out::Done(b)) => (a, b),
            _ => return,
        },
        _ => match (collect(&x, c), collect(&y, c)) {
            (Out::Done(a), Out::Done(b)) => (a, b),
            _ => return,
        },
    };
    let (mut a, b): (BoxedSlice<T, A>, BoxedSlice<T, A>) = (a, b);
    total!(a, b, x, y, "BoxedSlice");
    hash!(a, x, "BoxedSlice");
    hex!(a, x, "BoxedSlice");
    eq!((a.len(), a.is_empty()), (x.len(), x.is_empty()), "BoxedSlice's length");
    if choose(2) == 0 {
        a.reverse();
        x.reverse();
    } else if let Some(e) = x.first().copied() {
        for y in &mut a {
            *y = e;
        }
        x.fill(e);
    }
    eq!((&a).into_iter().copied().collect::<Vec<T>>(), x, "BoxedSlice iterated by reference");
    eq!(a.into_iter().collect::<Vec<T>>(), x, "BoxedSlice iterated");
    let (a, b) = match choose(3) {
        0 => (collect::<T, ArcSlice<T, A>>(&x, c), collect(&y, c)),
        _ => (act(c, || ArcSlice::<T, A>::from(&x[..])), act(c, || ArcSlice::<T, A>::from(&y[..]))),
    };
    let (Out::Done(a), Out::Done(b)) = (a, b) else {
        return;
    };
    total!(a, b, x, y, "ArcSlice");
    hash!(a, x, "ArcSlice");
    hex!(a, x, "ArcSlice");
    eq!((a.len(), a.is_empty()), (x.len(), x.is_empty()), "ArcSlice's length");
    eq!((&a).into_iter().copied().collect::<Vec<T>>(), x, "ArcSlice iterated");
}
macro_rules! singles {
    ($name: ident, $t: ty, $al: ty) => {
        fn $name(from: &[$t], c: Ctx) {
            let (x, y) = pair(from);
            let mk = |x: &[$t]| -> Option<SingleOrVec<$t, $al>> {
                let r = match choose(4) {
                    0 => act(c, || SingleOrVec::<$t, $al>::with_capacity(choose(3))),
                    1 => match act(c, || SingleOrVec::<$t, $al>::try_with_capacity_in(choose(3), <$al>::mk())) {
                        Out::Done(Ok(v)) => Out::Done(v),
                        Out::Done(Err(_a)) => return None,
                        _ => fail("panic", || "try_with_capacity_in panicked".into()),
                    },
                    2 => Out::Done(SingleOrVec::<$t, $al>::default()),
                    _ => Out::Done(SingleOrVec::new_in(<$al>::mk())),
                };
                let Out::Done(mut v) = r else { return None };
                let it = lying(x);
                let Out::Done(()) = act(c, || v.extend(it)) else { return None };
                Some(v)
            };
            let (Some(a), Some(b)) = (mk(&x), mk(&y)) else {
                return;
            };
            order!(a, b, x, y, "SingleOrVec");
            total!(a, b, x, y, "SingleOrVec");
            eq!(a == &y[..], x == y, "SingleOrVec == slice");
            eq!(a.partial_cmp(&y), x.partial_cmp(&y), "SingleOrVec partial_cmp Vec");
            eq!(AsRef::<[$t]>::as_ref(&a), &x[..], "SingleOrVec as slice");
            eq!((a.len(), a.is_empty()), (x.len(), x.is_empty()), "SingleOrVec's length");
            let (i, j) = (choose(x.len() + 2), choose(x.len() + 2));
            eq!(catch_any(|| a[i..j].to_vec()), catch_any(|| x[i..j].to_vec()), "SingleOrVec [i..j]");
            eq!(catch_any(|| a[i]), catch_any(|| x[i]), "SingleOrVec [i]");
            eq!(catch_any(|| a[i..].to_vec()), catch_any(|| x[i..].to_vec()), "SingleOrVec [i..]");
            eq!(catch_any(|| a[..=i].to_vec()), catch_any(|| x[..=i].to_vec()), "SingleOrVec [..=i]");
            let v: SVec<$t, $al> = a.into();
            eq!(&v[..], &x[..], "SingleOrVec as Vec");
        }
    };
}
singles!(singles_u8, u8, SA);
singles!(singles_u64, u64, RustAlloc);

const BITS: [&str; 9] = ["", "a", "b", "ab", "é", "z\u{10ffff}", "\"\n\\", "a long piece of text", "Aé"];
fn words() -> String {
    (0..choose(4)).map(|_| pick(&BITS)).collect()
}
fn texts<A: HAlloc>(c: Ctx) {
    let x = words();
    let y = match choose(3) {
        0 => words(),
        1 => x.clone(),
        _ => x.clone() + pick(&BITS),
    };
    let mk = |x: &str| -> Option<SString<A>> {
        let r = match choose(5) {
            0 => act(c, || SString::<A>::from(x)),
            1 => act(c, || SString::<A>::from(Str::from(x))),
            2 => {
                let x = x.to_string();
                act(c, || SString::<A>::from(x))
            }
            3 => act(c, || SString::<A>::new_in(A::mk()) + x),
            _ => {
                let mut s = SString::<A>::default();
                match act(c, || s += x) {
                    Out::Done(()) => Out::Done(s),
                    _ => return None,
                }
            }
        };
        match r {
            Out::Done(s) => Some(s),
            _ => None,
        }
    };
    let (Some(mut a), Some(b)) = (mk(&x), mk(&y)) else {
        return;
    };
    macro_rules! all {
        ($a: expr, $b: expr, $what: literal) => {{
            order!($a, $b, x, y, $what);
            total!($a, $b, x, y, $what);
            hash!($a, x, $what);
            text!($a, x, $what);
            eq!(format!("{}", $a), x, concat!($what, "'s text"));
            eq!(format!("{:>30}|{:*<9.2}", $a, $a), format!("{x:>30}|{x:*<9.2}"), concat!($what, "'s padded text"));
            eq!(AsRef::<str>::as_ref(&$a), x.as_str(), concat!($what, "'s as_ref"));
            eq!(($a.len(), &$a[..]), (x.len(), &x[..]), concat!($what, "'s text"));
        }};
    }
    all!(a, b, "String");
    eq!(a == y, x == y, "String == std's");
    eq!(a == y.as_str(), x == y, "String == str");
    eq!(a.partial_cmp(&y), x.partial_cmp(&y), "String partial_cmp");
    {
        let mut z = x.clone();
        match choose(3) {
            0 => a.as_str_mut().make_ascii_uppercase(),
            1 => core::ops::DerefMut::deref_mut(&mut a).make_ascii_uppercase(),
            _ => a = match mk(&x.to_ascii_uppercase()) {
                Some(a) => a,
                None => return,
            },
        }
        z.make_ascii_uppercase();
        eq!(a.as_str(), z.as_str(), "an upper-cased string");
        let back: String = a.into();
        eq!(back, z, "a string turned into std's");
    }
    let Some(a) = mk(&x) else { return };
    let (a, b): (BoxedStr<A>, BoxedStr<A>) = (a.into(), b.into());
    all!(a, b, "BoxedStr");
    let (a, b): (SString<A>, SString<A>) = (a.into(), b.into());
    let (Out::Done(a), Out::Done(b)) = (act(c, || ArcStr::from(a)), act(c, || ArcStr::from(b))) else {
        return;
    };
    all!(a, b, "ArcStr");
    order!(a, a.clone(), x, x.clone(), "an ArcStr and itself");
    // borrowed
    let (a, b) = (Str::from(x.as_str()), Str::from(y.as_str()));
    eq!(a == b, x == y, "Str ==");
    eq!(a.partial_cmp(&b), x.partial_cmp(&y), "Str partial_cmp");
    text!(a, x, "Str");
    eq!(format!("{a:>9}"), format!("{x:>9}"), "Str's text");
    eq!((AsRef::<str>::as_ref(&a), a.as_str(), <&str>::from(a)), (x.as_str(), x.as_str(), x.as_str()), "Str as str");
    let (mut z, mut u) = (x.clone(), x.clone());
    let mut m = StrMut::from(z.as_mut_str());
    m.make_ascii_lowercase();
    u.make_ascii_lowercase();
    eq!(AsRef::<str>::as_ref(&m), u.as_str(), "StrMut");
    match choose(3) {
        0 => eq!(Str::from(m).as_str(), u.as_str(), "StrMut as Str"),
        1 => eq!(<&str>::from(m), u.as_str(), "StrMut as str"),
        _ => {
            let r: &mut str = m.into();
            eq!(&*r, u.as_str(), "StrMut as mutable str");
            eq!(Str::from(r).as_str(), u.as_str(), "mutable str as Str");
        }
    }
}
fn engine(f: impl Fn()) {
    run(|| {
        set_faults(false);
        lossless();
        for _ in 0..1 + choose(3) {
            f();
        }
        settle();
    })
}
/// Compares by the first part only, and not at all with one of its values.
#[derive(Clone, Copy, Debug)]
#[repr(C)]
struct Odd(u8, u8);
impl PartialEq for Odd {
    fn eq(&self, o: &Odd) -> bool {
        self.0 == o.0 && self.0 != 9
    }
}
impl PartialOrd for Odd {
    fn partial_cmp(&self, o: &Odd) -> Option<Ordering> {
        if self.0 == 9 || o.0 == 9 {
            None
        } else {
            o.0.partial_cmp(&self.0)
        }
    }
}
pub fn lists() {
    match choose(8) {
        0 => engine(|| partial::<f32, SA>(&[0., -0., 1.5, f32::NAN, f32::INFINITY], A)),
        1 => engine(|| partial::<Odd, SB>(&[Odd(1, 1), Odd(1, 2), Odd(2, 1), Odd(9, 1)], A)),
        2 => engine(|| partial::<f64, RustAlloc>(&[0., -1., f64::NAN], M)),
        3 => engine(|| ordered::<u8, SA>(&[0, 1, 2, 0xab], A)),
        4 => engine(|| ordered::<i32, RustAlloc>(&[0, -1, 7, i32::MIN], M)),
        5 => engine(|| ordered::<u128, LibcAlloc>(&[0, 1, u128::MAX], M)),
        6 => engine(|| singles_u8(&[0, 1, 2, 0xab], A)),
        _ => engine(|| singles_u64(&[0, 1, u64::MAX], M)),
    }
}
pub fn words_all() {
    match choose(4) {
        0 => engine(|| texts::<SA>(A)),
        1 => engine(|| texts::<SB>(A)),
        2 => engine(|| texts::<LibcAlloc>(M)),
        _ => engine(|| texts::<RustAlloc>(M)),
    }
}
