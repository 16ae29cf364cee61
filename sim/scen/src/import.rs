//! Imports guarded by type reports: racing first accesses; reports against a structural model.
use crate::h::*;
use simrt::*;
use stabby_abi::checked_import::CheckedImport;
use stabby_abi::report::{FieldReport, TypeReport, TyTy};
use stabby_abi::str::Str;
use stabby_abi::{IStable, StableLike};

// ------------------------------------------------------------------------------- reports
/// What a report describes.
#[derive(Clone, PartialEq, Debug)]
struct Desc {
    name: &'static str,
    module: &'static str,
    version: u32,
    ty: u8,
    fields: Vec<(&'static str, Desc)>,
}
fn gen(depth: usize) -> Desc {
    let n = if depth == 0 { 0 } else { choose(4) };
    Desc {
        name: pick(&["A", "B", "AB"]),
        module: pick(&["m", "m::n"]),
        version: choose(2) as u32,
        ty: choose(4) as u8,
        fields: (0..n).map(|_| (pick(&["x", "y"]), gen(depth - 1))).collect(),
    }
}
/// One difference somewhere.
fn mutate(d: &mut Desc) {
    if !d.fields.is_empty() && choose(2) == 0 {
        let i = choose(d.fields.len());
        return mutate(&mut d.fields[i].1);
    }
    match choose(8) {
        0 => d.name = pick(&["A", "B", "AB"]),
        1 => d.module = pick(&["m", "m::n"]),
        2 => d.version ^= 1,
        3 => d.ty = choose(4) as u8,
        4 => d.fields.push((pick(&["x", "y"]), gen(0))),
        5 => drop(d.fields.pop()),
        6 if d.fields.len() > 1 => d.fields.swap(0, 1),
        _ => {
            if let Some(f) = d.fields.last_mut() {
                f.0 = pick(&["x", "y", "z"])
            }
        }
    }
}
/// Reports live as long as the program; these are kept outside the simulated heap.
fn report(d: &Desc) -> &'static TypeReport {
    let mut next = None;
    for (n, t) in d.fields.iter().rev() {
        let f: &'static FieldReport = arena(FieldReport { name: Str::new(n), ty: report(t), next_field: StableLike::new(next) });
        next = Some(f);
    }
    arena(TypeReport {
        name: Str::new(d.name),
        module: Str::new(d.module),
        fields: StableLike::new(next),
        tyty: match d.ty {
            0 => TyTy::Struct,
            1 => TyTy::Union,
            2 => TyTy::Enum(Str::new("C")),
            _ => TyTy::Enum(Str::new("stabby")),
        },
        version: d.version,
    })
}
static mut KEPT: Vec<Box<dyn core::any::Any>> = Vec::new();
fn arena<T: 'static>(t: T) -> &'static T {
    let b = Box::new(t);
    let p: *const T = &*b;
    unsafe {
        (*core::ptr::addr_of_mut!(KEPT)).push(b);
        &*p
    }
}
fn two() -> (&'static TypeReport, &'static TypeReport, bool) {
    let same = choose(2) == 0;
    let n = choose(3);
    // decisions first, memory of the host after
    let a = outside(|| gen(2));
    let mut b = outside(|| a.clone());
    if !same {
        for _ in 0..=n {
            outside(|| mutate(&mut b));
        }
    }
    outside(|| {
        let r = (report(&a), report(&b), a == b);
        drop((a, b));
        r
    })
}
fn reset() {
    outside(|| unsafe { (*core::ptr::addr_of_mut!(KEPT)).clear() });
}
pub fn reports() {
    run(|| {
        set_faults(false);
        reset();
        for _ in 0..3 {
            let (a, b, same) = two();
            let ok = a.is_compatible(b);
            check!(ok == same, "verdict", "compatible: {ok}; {a} and {b}");
            check!(b.is_compatible(a) == same, "verdict", "not symmetric; {a} and {b}");
            check!(a.is_compatible(a) && b.is_compatible(b), "verdict", "a report does not match itself");
        }
        // distinct types are told apart, a type matches itself
        let all = [
            <Tok as IStable>::REPORT,
            <Small as IStable>::REPORT,
            <u32 as IStable>::REPORT,
            <i32 as IStable>::REPORT,
            <extern "C" fn(u32) -> u32 as IStable>::REPORT,
            <extern "C" fn(u32) -> i32 as IStable>::REPORT,
            <extern "C" fn(u32, u32) -> u32 as IStable>::REPORT,
            <extern "C" fn(i32) -> u32 as IStable>::REPORT,
            <crate::dynt::TA as IStable>::REPORT,
            <crate::dynt::TB as IStable>::REPORT,
            <crate::dynt::TD as IStable>::REPORT,
            <stabby::option::Option<u8> as IStable>::REPORT,
            <stabby::option::Option<Small> as IStable>::REPORT,
        ];
        let (i, j) = (choose(all.len()), choose(all.len()));
        check!(all[i].is_compatible(all[j]) == (i == j), "verdict", "{} against {}", all[i], all[j]);
        reset();
    })
}

// ------------------------------------------------------------------------------- racing accesses
pub(crate) trait Item: Sized + 'static {
    fn mk() -> Self;
    fn good(&self);
}
impl Item for Tok {
    fn mk() -> Self {
        Tok::new(4711)
    }
    fn good(&self) {
        let v = self.v();
        check!(v == 4711, "torn-import", "the imported value is {v}");
    }
}
type F = extern "C" fn(u32) -> u32;
extern "C" fn imported(x: u32) -> u32 {
    x ^ 0x5a5a
}
impl Item for F {
    fn mk() -> F {
        imported
    }
    fn good(&self) {
        check!(*self as usize == imported as usize, "torn-import", "the imported function is at {:#x}", *self as usize);
        check!(self(3) == 3 ^ 0x5a5a, "torn-import", "the imported function is another one");
    }
}
#[stabby::stabby]
pub struct Wide {
    w: [u64; 4],
}
impl Item for Wide {
    fn mk() -> Self {
        Wide { w: [1, 2, 3, 4] }
    }
    fn good(&self) {
        let [a, b, c, d] = self.w;
        check!((a, b, c, d) == (1, 2, 3, 4), "torn-import", "the imported value is {:?}", (a, b, c, d));
    }
}
static mut PROV: Option<&'static TypeReport> = None;
static mut CALLS: (u32, u32) = (0, 0);
extern "C" fn provider() -> &'static TypeReport {
    outside(|| unsafe { PROV.unwrap() })
}
#[allow(improper_ctypes_definitions)]
extern "C" fn checker<T: Item>(r: &TypeReport) -> Option<T> {
    let p = provider();
    let ok = p.is_compatible(r);
    outside(|| unsafe {
        CALLS.0 += 1;
        CALLS.1 += ok as u32;
    });
    yield_now();
    if ok {
        Some(T::mk())
    } else {
        None
    }
}
fn race<T: Item>() {
    run(|| {
        set_faults(false);
        reset();
        let (local, prov, same) = two();
        outside(|| unsafe {
            PROV = Some(prov);
            CALLS = (0, 0);
        });
        let imp: &'static CheckedImport<T> = Box::leak(Box::new(CheckedImport::new(checker::<T>, provider, local)));
        let n = choose(4);
        let access = move || {
            for _ in 0..1 + choose(3) {
                if choose(3) == 0 {
                    match catch_any(|| {
                        let t: &T = imp;
                        t.good()
                    }) {
                        Some(()) => check!(same, "verdict", "access to a mismatching import"),
                        None => check!(!same, "verdict", "a matching import panicked"),
                    }
                } else {
                    match imp.as_ref() {
                        Ok(t) => {
                            check!(same, "verdict", "access to a mismatching import");
                            t.good();
                            probe("import_ok");
                        }
                        Err(e) => {
                            check!(!same, "verdict", "a matching import was refused");
                            check!(core::ptr::eq(e.local, local) && core::ptr::eq(e.loaded, prov), "wrong-report", "the mismatch names other reports");
                            probe("import_refused");
                        }
                    }
                }
            }
        };
        let mut ids = outside(Vec::new);
        for _ in 0..n {
            let id = spawn(access);
            outside(|| ids.push(id));
        }
        access();
        for t in ids.iter() {
            join_thread(*t);
        }
        outside(|| drop(ids));
        drop(unsafe { Box::from_raw(imp as *const CheckedImport<T> as *mut CheckedImport<T>) });
        if choose(8) == 0 {
            // never accessed
            drop(CheckedImport::<T>::new(checker::<T>, provider, local));
        }
        reset();
    })
}
pub fn races() {
    match choose(3) {
        0 => race::<Tok>(),
        1 => race::<F>(),
        _ => race::<Wide>(),
    }
}

// ------------------------------------------------------------------------------- through the macros
pub(crate) mod far {
    use super::*;
    #[stabby::export]
    pub extern "C" fn simverif_good(a: u32, b: Wide) -> stabby::option::Option<u32> {
        stabby::option::Option::Some(a ^ b.w[2] as u32)
    }
    #[stabby::stabby]
    pub struct Two {
        pub c: u32,
        pub a: u32,
        pub b: u32,
    }
    #[stabby::stabby(version = 1)]
    pub struct Ver {
        pub a: u32,
    }
    #[stabby::export]
    pub extern "C" fn simverif_old(a: Ver) -> u32 {
        a.a
    }
    #[stabby::export]
    pub extern "C" fn simverif_bad(a: Two) -> u32 {
        a.b
    }
    #[stabby::export(canaries)]
    pub extern "C" fn simverif_canary(a: u32) -> u32 {
        a + 1
    }
}
pub(crate) mod near {
    use super::*;
    // one field less than the other side's
    #[stabby::stabby(module = "simcheck::import::far")]
    pub struct Two {
        pub a: u32,
        pub b: u32,
    }
    #[stabby::stabby(version = 2, module = "simcheck::import::far")]
    pub struct Ver {
        pub a: u32,
    }
    #[stabby::import(name = "c")]
    extern "C" {
        pub fn simverif_old(a: crate::import::near::Ver) -> u32;
        pub fn simverif_good(a: u32, b: crate::import::Wide) -> stabby::option::Option<u32>;
        pub fn simverif_bad(a: crate::import::near::Two) -> u32;
    }
    #[stabby::import(canaries = "", name = "c")]
    extern "C" {
        pub fn simverif_canary(a: u32) -> u32;
    }
}
pub fn macros() {
    run(|| {
        set_faults(false);
        let access = move || {
            for _ in 0..1 + choose(3) {
                match choose(4) {
                    2 => match near::simverif_old.as_ref() {
                        Ok(_) => fail("verdict", || "access to an import whose argument has another version".into()),
                        Err(e) => {
                            let (l, r) = (<extern "C" fn(near::Ver) -> u32 as IStable>::REPORT, <extern "C" fn(far::Ver) -> u32 as IStable>::REPORT);
                            check!(e.local == l && e.loaded == r, "wrong-report", "{} and {}", e.local, e.loaded);
                        }
                    },
                    0 => {
                        let w = Wide::mk();
                        let x = near::simverif_good(9, w);
                        check!(x == stabby::option::Option::Some(9 ^ 3), "torn-import", "the import computes something else");
                    }
                    1 => match near::simverif_bad.as_ref() {
                        Ok(_) => fail("verdict", || "access to an import whose argument has one field more".into()),
                        Err(e) => {
                            let (l, r) = (<extern "C" fn(near::Two) -> u32 as IStable>::REPORT, <extern "C" fn(far::Two) -> u32 as IStable>::REPORT);
                            check!(e.local == l && e.loaded == r, "wrong-report", "{} and {}", e.local, e.loaded);
                        }
                    },
                    _ => {
                        let x = unsafe { near::simverif_canary(7) };
                        check!(x == 8, "torn-import", "the import computes something else");
                    }
                }
            }
        };
        let mut ids = outside(Vec::new);
        for _ in 0..choose(4) {
            let id = spawn(access);
            outside(|| ids.push(id));
        }
        access();
        for t in ids.iter() {
            join_thread(*t);
        }
        outside(|| drop(ids));
    })
}
