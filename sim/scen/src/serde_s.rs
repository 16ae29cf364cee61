//! Serialisation: a format that lives in memory, whose streams fail, end early, lie about their length and
//! hand strings over in every way a format may; allocations that fail; elements whose construction panics.
use crate::h::*;
use crate::vecs::*;
use serde::de::{Deserialize, Deserializer, Visitor};
use serde::ser::{Serialize, Serializer};
use simrt::*;
use stabby_abi::alloc::boxed::{BoxedSlice, BoxedStr};
use stabby_abi::alloc::string::String as SString;
use stabby_abi::alloc::sync::{ArcSlice, ArcStr};
use stabby_abi::alloc::vec::Vec as SVec;
use stabby_abi::option::Option as SOption;
use stabby_abi::result::Result as SResult;
use stabby_abi::IDeterminantProvider;

/// A document.
#[derive(Clone, PartialEq, Debug)]
pub enum Doc {
    U(u64),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Doc>),
    None,
    Some(Box<Doc>),
    Var(u32, Box<Doc>),
    /// the stream fails here
    Fail,
}
use Doc::*;
impl Doc {
    fn fails(&self) -> bool {
        match self {
            Fail => true,
            Seq(v) => v.iter().any(|d| d.fails()),
            Some(d) | Var(_, d) => d.fails(),
            _ => false,
        }
    }
    fn nodes(&self) -> usize {
        match self {
            Seq(v) => 1 + v.iter().map(|d| d.nodes()).sum::<usize>(),
            Some(d) | Var(_, d) => 1 + d.nodes(),
            Str(s) => 1 + s.len() / 16,
            _ => 1,
        }
    }
    fn seqs(&self) -> usize {
        match self {
            Seq(v) => 1 + v.iter().map(|d| d.seqs()).sum::<usize>(),
            Some(d) | Var(_, d) => d.seqs(),
            _ => 0,
        }
    }
    /// The stream ends early somewhere.
    fn cut(&mut self) {
        match self {
            Seq(v) => {
                if !v.is_empty() && choose(2) == 0 {
                    let i = choose(v.len());
                    v[i].cut()
                } else {
                    let n = choose(v.len() + 1);
                    v.truncate(n)
                }
            }
            Some(d) | Var(_, d) => d.cut(),
            _ => (),
        }
    }
    /// The stream fails, or holds something else than expected, somewhere.
    fn spoil(&mut self) {
        match self {
            Seq(v) if !v.is_empty() && choose(5) != 0 => {
                let i = choose(v.len());
                v[i].spoil()
            }
            Some(d) | Var(_, d) if choose(4) != 0 => d.spoil(),
            Var(v, _) => *v = 2 + choose(3) as u32,
            x => *x = Fail,
        }
    }
}
#[derive(Debug, PartialEq)]
pub enum Error {
    Stream,
    Custom,
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl std::error::Error for Error {}
impl serde::de::Error for Error {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Error::Custom
    }
}
impl serde::ser::Error for Error {
    fn custom<T: core::fmt::Display>(_: T) -> Self {
        Error::Custom
    }
}

// -------------------------------------------------------------------------------------- writing
/// Writes into a document; fails once its budget of nodes is spent.
struct W<'a>(&'a core::cell::Cell<usize>);
impl W<'_> {
    fn take(&self) -> Result<(), Error> {
        if self.0.get() == 0 {
            return Err(Error::Stream);
        }
        self.0.set(self.0.get() - 1);
        Ok(())
    }
}
struct WSeq<'a>(&'a core::cell::Cell<usize>, Vec<Doc>, usize);
impl serde::ser::SerializeSeq for WSeq<'_> {
    type Ok = Doc;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let d = v.serialize(W(self.0))?;
        self.1.push(d);
        Ok(())
    }
    fn end(self) -> Result<Doc, Error> {
        W(self.0).take()?;
        check!(self.2 == usize::MAX || self.2 == self.1.len(), "wrong-length", "announced {} elements, wrote {}", self.2, self.1.len());
        Ok(Seq(self.1))
    }
}
macro_rules! no {
    ($($f: ident($($t: ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<Doc, Error> { unreachable!() })* };
}
type Imp = serde::ser::Impossible<Doc, Error>;
impl<'a> Serializer for W<'a> {
    type Ok = Doc;
    type Error = Error;
    type SerializeSeq = WSeq<'a>;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn serialize_bool(self, v: bool) -> Result<Doc, Error> {
        self.take().map(|_| Bool(v))
    }
    fn serialize_u8(self, v: u8) -> Result<Doc, Error> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u16(self, v: u16) -> Result<Doc, Error> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u32(self, v: u32) -> Result<Doc, Error> {
        self.serialize_u64(v as u64)
    }
    fn serialize_u64(self, v: u64) -> Result<Doc, Error> {
        self.take().map(|_| U(v))
    }
    fn serialize_str(self, v: &str) -> Result<Doc, Error> {
        self.take().map(|_| Str(v.into()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Doc, Error> {
        self.take().map(|_| Bytes(v.into()))
    }
    fn serialize_none(self) -> Result<Doc, Error> {
        self.take().map(|_| None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Doc, Error> {
        self.take()?;
        Ok(Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, _: &'static str, v: &T) -> Result<Doc, Error> {
        self.take()?;
        Ok(Var(i, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<WSeq<'a>, Error> {
        Ok(WSeq(self.0, Vec::new(), n.unwrap_or(usize::MAX)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Doc, Error> {
        v.serialize(self)
    }
    no! {
        serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_unit(); serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_tuple(self, _: usize) -> Result<Imp, Error> {
        unreachable!()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, Error> {
        unreachable!()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Error> {
        unreachable!()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, Error> {
        unreachable!()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, Error> {
        unreachable!()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, Error> {
        unreachable!()
    }
}
fn write<T: Serialize>(v: &T) -> Doc {
    outside(|| v.serialize(W(&core::cell::Cell::new(usize::MAX))).unwrap_or_else(|e| fail("spurious-failure", || format!("serialisation failed: {e:?}"))))
}

// -------------------------------------------------------------------------------------- reading
/// How this stream hands things over.
#[derive(Clone, Copy, Debug)]
struct How {
    lies: bool,
    strings: usize,
}
#[derive(Clone, Copy)]
struct R<'a>(&'a Doc, How);
struct RSeq<'a>(core::slice::Iter<'a, Doc>, How, Option<usize>);
impl<'a> serde::de::SeqAccess<'a> for RSeq<'a> {
    type Error = Error;
    fn next_element_seed<S: serde::de::DeserializeSeed<'a>>(&mut self, s: S) -> Result<Option<S::Value>, Error> {
        match self.0.next() {
            Option::None => Ok(Option::None),
            Option::Some(d) => Ok(Option::Some(s.deserialize(R(d, self.1))?)),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.2
    }
}
struct REnum<'a>(u32, R<'a>);
impl<'a> serde::de::EnumAccess<'a> for REnum<'a> {
    type Error = Error;
    type Variant = R<'a>;
    fn variant_seed<V: serde::de::DeserializeSeed<'a>>(self, v: V) -> Result<(V::Value, R<'a>), Error> {
        use serde::de::IntoDeserializer;
        let i: serde::de::value::U32Deserializer<Error> = self.0.into_deserializer();
        Ok((v.deserialize(i)?, self.1))
    }
}
impl<'a> serde::de::VariantAccess<'a> for R<'a> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        Err(Error::Custom)
    }
    fn newtype_variant_seed<T: serde::de::DeserializeSeed<'a>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'a>>(self, _: usize, _: V) -> Result<V::Value, Error> {
        Err(Error::Custom)
    }
    fn struct_variant<V: Visitor<'a>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> {
        Err(Error::Custom)
    }
}
impl<'de> Deserializer<'de> for R<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            U(n) => v.visit_u64(*n),
            Bool(b) => v.visit_bool(*b),
            Str(s) => match self.1.strings {
                0 => v.visit_borrowed_str(s),
                1 => v.visit_str(&outside(|| s.clone())),
                _ => v.visit_string(outside(|| s.clone())),
            },
            Bytes(s) => match self.1.strings {
                0 => v.visit_borrowed_bytes(s),
                1 => v.visit_bytes(&outside(|| s.clone())),
                _ => v.visit_byte_buf(outside(|| s.clone())),
            },
            Seq(s) => {
                let n = s.len();
                let hint = if self.1.lies {
                    match choose(6) {
                        0 => Option::None,
                        1 => Option::Some(choose(n + 1)),
                        2 => Option::Some(n + 1 + choose(3)),
                        3 => Option::Some(pick(&[1 << 12, 1 << 16, 1 << 20])),
                        _ => Option::Some(pick(&[usize::MAX, usize::MAX / 2, isize::MAX as usize / 8, 1 << 40, 1 << 61])),
                    }
                } else {
                    Option::Some(n)
                };
                if hint > Option::Some(n) {
                    probe("hint_lies");
                }
                v.visit_seq(RSeq(s.iter(), self.1, hint))
            }
            None => v.visit_none(),
            Some(d) => v.visit_some(R(d, self.1)),
            Var(i, d) => v.visit_enum(REnum(*i, R(d, self.1))),
            Fail => {
                probe("stream_failed");
                Err(Error::Stream)
            }
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

// -------------------------------------------------------------------------------------- values
impl Serialize for Tok {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.v())
    }
}
impl<'a> Deserialize<'a> for Tok {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        maybe_panic("panic_iter");
        let v = u32::deserialize(d)?;
        maybe_panic("panic_iter");
        Ok(Tok::new(v))
    }
}
impl Serialize for Zst {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.v())
    }
}
impl<'a> Deserialize<'a> for Zst {
    fn deserialize<D: Deserializer<'a>>(d: D) -> Result<Self, D::Error> {
        maybe_panic("panic_iter");
        u32::deserialize(d)?;
        Ok(Zst::mk(0))
    }
}
/// Values that can be built from the document they are to be written as.
trait Ser: Serialize + for<'a> Deserialize<'a> {
    fn gen() -> Doc;
    fn build(d: &Doc) -> Self;
}
impl Ser for Tok {
    fn gen() -> Doc {
        U(choose(1000) as u64)
    }
    fn build(d: &Doc) -> Self {
        let U(v) = d else { unreachable!() };
        Tok::new(*v as u32)
    }
}
impl Ser for Zst {
    fn gen() -> Doc {
        U(0)
    }
    fn build(_: &Doc) -> Self {
        Zst::mk(0)
    }
}
impl Ser for u8 {
    fn gen() -> Doc {
        U(choose(256) as u64)
    }
    fn build(d: &Doc) -> Self {
        let U(v) = d else { unreachable!() };
        *v as u8
    }
}
impl Ser for bool {
    fn gen() -> Doc {
        Bool(choose(2) == 1)
    }
    fn build(d: &Doc) -> Self {
        *d == Bool(true)
    }
}
macro_rules! ints {
    ($($t: ident $i: ident $lo: expr, $hi: expr;)*) => {$(
        impl Ser for stabby_abi::num::$t {
            fn gen() -> Doc {
                let (lo, hi) = ($lo as u64, $hi as u64);
                U(match choose(6) { 0 => lo, 1 => hi, 2 => hi - 1, _ => lo + choose(200) as u64 })
            }
            fn build(d: &Doc) -> Self {
                let U(v) = d else { unreachable!() };
                (*v as $i).try_into().unwrap()
            }
        }
    )*};
}
ints! { NonMaxU8 u8 0, 254; NonMaxU16 u16 0, 65534; NonMaxU32 u32 0, u32::MAX - 1; NonMaxU64 u64 0, u64::MAX - 1; }
static TEXTS: &[&str] = &["", "a", "é", "héllo wörld", "\0\u{10ffff}x", "a longer text, such that it grows twice over if it is copied in pieces"];
macro_rules! text {
    ($($t: ident)*) => {$(
        impl<A: HAlloc> Ser for $t<A> {
            fn gen() -> Doc {
                Str(pick(TEXTS).into())
            }
            fn build(d: &Doc) -> Self {
                let Str(s) = d else { unreachable!() };
                let mut r = SString::new_in(A::mk());
                r += s.as_str();
                r.into()
            }
        }
    )*};
}
text!(SString BoxedStr ArcStr);
macro_rules! seqs {
    ($($t: ident)*) => {$(
        impl<T: Ser, A: HAlloc> Ser for $t<T, A> {
            fn gen() -> Doc {
                let n = pick(&[0, 1, 2, 3, 5, 9]);
                Seq((0..n).map(|_| T::gen()).collect())
            }
            fn build(d: &Doc) -> Self {
                let Seq(s) = d else { unreachable!() };
                let mut r = SVec::new_in(A::mk());
                s.iter().for_each(|d| r.push(T::build(d)));
                r.into()
            }
        }
    )*};
}
seqs!(SVec BoxedSlice ArcSlice);
impl<T: Ser + IDeterminantProvider<()>> Ser for SOption<T> {
    fn gen() -> Doc {
        if choose(3) == 0 {
            None
        } else {
            Some(Box::new(T::gen()))
        }
    }
    fn build(d: &Doc) -> Self {
        match d {
            Some(d) => SOption::Some(T::build(d)),
            _ => SOption::None(),
        }
    }
}
impl<T: Ser + IDeterminantProvider<E>, E: Ser + stabby_abi::IStable> Ser for SResult<T, E> {
    fn gen() -> Doc {
        if choose(2) == 0 {
            Var(0, Box::new(T::gen()))
        } else {
            Var(1, Box::new(E::gen()))
        }
    }
    fn build(d: &Doc) -> Self {
        match d {
            Var(0, d) => SResult::Ok(T::build(d)),
            Var(1, d) => SResult::Err(E::build(d)),
            _ => unreachable!(),
        }
    }
}
fn engine<T: Ser>(c: Ctx) {
    set_faults(false);
    log(|| core::any::type_name::<T>().into());
    let doc = T::gen();
    let v = T::build(&doc);
    let w = write(&v);
    check!(w == doc, "wrong-document", "{doc:?} was written as {w:?}");
    // a writer that fails in the middle
    if choose(4) == 0 {
        let budget = choose(doc.nodes() + 2);
        let b = core::cell::Cell::new(budget);
        match v.serialize(W(&b)) {
            Ok(d) => check!(d == doc, "wrong-document", "{doc:?} was written as {d:?}"),
            Err(e) => {
                probe("stream_failed");
                check!(e == Error::Stream && b.get() == 0, "spurious-failure", "serialisation failed: {e:?}")
            }
        }
    }
    drop(v);
    for _ in 0..1 + choose(2) {
        let mut d = doc.clone();
        match choose(4) {
            0 => d.spoil(),
            1 => d.cut(),
            _ => (),
        }
        let how = How { lies: choose(2) == 0, strings: choose(3) };
        log(|| format!("reading {d:?}, {how:?}"));
        let (used, fired) = (arena_used(), faults_fired());
        let out = act(c, || T::deserialize(R(&d, how)));
        let grown = arena_used() - used;
        // an honest stream of that many nodes would not need more
        check!(grown <= (2 << 20) * (1 + d.seqs()) + 4096 * d.nodes(), "unbounded-memory", "{grown} bytes were reserved to read {d:?}");
        match out {
            Out::Done(Ok(v)) => {
                check!(well_formed(&d), "accepted-failure", "{d:?} was read without an error");
                let w = write(&v);
                check!(w == d, "wrong-value", "{d:?} was read as {w:?}");
                // several owners, threads
                drop(v);
            }
            Out::Done(Err(Error::Stream)) => check!(d.fails(), "spurious-failure", "reading {d:?} failed"),
            Out::Done(Err(Error::Custom)) => check!(!well_formed(&d) || faults_fired() > fired, "spurious-failure", "reading {d:?} with {how:?} gave an error"),
            _ => (),
        }
    }
}
fn well_formed(d: &Doc) -> bool {
    match d {
        Fail => false,
        Seq(v) => v.iter().all(well_formed),
        Some(d) => well_formed(d),
        Var(i, d) => *i < 2 && well_formed(d),
        _ => true,
    }
}
/// Numbers with one value missing: the missing value is refused, and so is what does not fit.
fn numbers() {
    use stabby_abi::num::*;
    set_faults(false);
    macro_rules! refused {
        ($($t: ty, $v: expr;)*) => {$(
            let d = U($v as u64);
            check!(<$t>::deserialize(R(&d, How { lies: false, strings: 0 })).is_err(), "accepted-failure", "{} was read as a {}", $v, stringify!($t));
        )*};
    }
    refused! { NonMaxU8, u8::MAX; NonMaxU8, 256; NonMaxU8, u64::MAX; NonMaxU16, u16::MAX; NonMaxU16, 65536; NonMaxU32, u32::MAX; NonMaxU32, 1u64 << 32; NonMaxU64, u64::MAX; }
    match choose(4) {
        0 => engine::<SVec<NonMaxU8, SA>>(A),
        1 => engine::<SVec<NonMaxU16, SA>>(A),
        2 => engine::<SVec<NonMaxU32, SA>>(A),
        _ => engine::<SVec<NonMaxU64, SA>>(A),
    }
}
/// Borrowed views take borrowed data only.
fn views() {
    set_faults(false);
    let s = pick(TEXTS);
    let d = if choose(2) == 0 { Str(s.into()) } else { Bytes(s.into()) };
    let how = How { lies: false, strings: choose(3) };
    if let Str(s) = &d {
        match stabby_abi::str::Str::deserialize(R(&d, how)) {
            Ok(v) => {
                check!(how.strings == 0, "dangling", "a view of transient data was accepted");
                check!(v.as_ptr() == s.as_ptr() && &*v == s.as_str(), "wrong-value", "{s:?} was read as {:?}", &*v);
                check!(write(&v) == d, "wrong-document", "{:?} was written as {:?}", d, write(&v));
            }
            Err(_) => check!(how.strings != 0, "spurious-failure", "borrowed text refused"),
        }
    } else if let Bytes(s) = &d {
        match stabby_abi::slice::Slice::<u8>::deserialize(R(&d, how)) {
            Ok(v) => {
                check!(how.strings == 0, "dangling", "a view of transient data was accepted");
                check!(v.as_ptr() == s.as_ptr() && *v == **s, "wrong-value", "{s:?} was read as {:?}", &*v);
            }
            Err(_) => check!(how.strings != 0, "spurious-failure", "borrowed bytes refused"),
        }
    }
    let n = choose(4) as u8;
    let mut raw: Vec<u8> = (0..n).map(|x| x * 50).collect();
    let want = Seq(raw.iter().map(|x| U(*x as u64)).collect());
    let w = write(&stabby_abi::slice::Slice::from(&raw[..]));
    check!(w == want, "wrong-document", "{want:?} was written as {w:?}");
    let w = write(&stabby_abi::slice::SliceMut::from(&mut raw[..]));
    check!(w == want, "wrong-document", "{want:?} was written as {w:?}");
    let mut t = String::from(s);
    let w = write(&stabby_abi::str::StrMut::from(&mut t[..]));
    check!(w == Str(s.into()), "wrong-document", "{s:?} was written as {w:?}");
}
fn frame(c: Ctx, f: impl FnOnce(Ctx)) {
    run(|| {
        lossless();
        // without panicking destructors nothing may be leaked
        reg().no_drop_panics = true;
        f(c)
    })
}
macro_rules! table {
    ($c: expr, [$($t: ty),* $(,)?]) => {{
        static T: &[fn(Ctx)] = &[$(engine::<$t>),*];
        frame($c, T[choose(T.len())])
    }};
}
pub fn collections() {
    table!(A, [SVec<Tok, SA>, BoxedSlice<Tok, SA>, ArcSlice<Tok, SA>, SVec<Zst, SA>, SVec<SVec<Tok, SA>, SA>, SVec<u8, SA>, ArcSlice<Zst, SA>, BoxedSlice<bool, SB>, SVec<ArcSlice<Tok, SB>, SA>])
}
pub fn default_allocs() {
    table!(M, [SVec<Tok, RustAlloc>, BoxedSlice<Tok, LibcAlloc>, ArcSlice<Tok, RustAlloc>, SString<RustAlloc>, ArcStr<LibcAlloc>, SVec<SString<RustAlloc>, LibcAlloc>])
}
pub fn strings() {
    match choose(4) {
        0 => frame(A, |_| views()),
        _ => table!(A, [SString<SA>, BoxedStr<SA>, ArcStr<SA>, SVec<SString<SA>, SA>, ArcSlice<BoxedStr<SB>, SA>]),
    }
}
pub fn sums() {
    match choose(4) {
        0 => frame(A, |_| numbers()),
        _ => table!(A, [SOption<Tok>, SResult<Tok, Tok>, SVec<SOption<Tok>, SA>, SOption<SVec<Tok, SA>>, SResult<SString<SA>, SVec<Tok, SA>>, ArcSlice<SResult<Tok, bool>, SA>]),
    }
}
pub fn panics() {
    table!(P, [SVec<Tok, SA>, BoxedSlice<Tok, SA>, ArcSlice<Tok, SA>, SVec<Zst, SA>, SVec<SVec<Tok, SA>, SA>, SVec<SOption<Tok>, SA>, SOption<SVec<Tok, SA>>, SResult<SVec<Tok, SB>, Tok>])
}
