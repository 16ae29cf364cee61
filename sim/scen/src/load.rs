//! Symbols looked up in libraries at run time: libraries that lack checks, or that were built differently.
use crate::h::*;
use crate::import::{far, near, Item, Wide};
use libloading::os::unix::Library as Raw;
use libloading::Library;
use simrt::*;
use stabby::libloading::StabbyLibrary;
use stabby_abi::report::TypeReport;
use stabby_abi::IStable;

type Good = extern "C" fn(u32, Wide) -> stabby::option::Option<u32>;
type FarBad = extern "C" fn(far::Two) -> u32;
type NearBad = extern "C" fn(near::Two) -> u32;
type FarOld = extern "C" fn(far::Ver) -> u32;
type NearOld = extern "C" fn(near::Ver) -> u32;
type Hand = extern "C" fn(u32) -> u32;
extern "C" {
    fn simverif_good_stabbied_v3();
    fn simverif_good_stabbied_v3_report();
    fn simverif_bad_stabbied_v3();
    fn simverif_bad_stabbied_v3_report();
    fn simverif_old_stabbied_v3();
    fn simverif_old_stabbied_v3_report();
}
// a provider written by hand, whose verdicts the run decides
static mut ACCEPTS: [bool; 2] = [true; 2];
static mut ASKED: u32 = 0;
static mut RAN: u32 = 0;
extern "C" fn hand<const L: usize>(x: u32) -> u32 {
    unsafe { RAN += 1 };
    x * 2 + L as u32
}
extern "C" fn hand_stabbied<const L: usize>(r: &TypeReport) -> stabby::option::Option<Hand> {
    unsafe { ASKED += 1 };
    check!(core::ptr::eq(r, Hand::REPORT) || *r == *Hand::REPORT, "wrong-report", "the library is shown {r}");
    yield_now();
    if unsafe { ACCEPTS[L] } {
        stabby::option::Option::Some(hand::<L> as Hand)
    } else {
        stabby::option::Option::None()
    }
}
extern "C" fn hand_report() -> &'static TypeReport {
    Hand::REPORT
}
extern "C" fn canary() {
    fail("canary-called", || "a canary was called".into())
}
mod suffix {
    stabby_abi::canary_suffixes!();
}
/// What the loader requires: everything but the host the library was built on.
const REQUIRED: [&str; 5] = [suffix::CANARY_RUSTC, suffix::CANARY_OPT_LEVEL, suffix::CANARY_DEBUG, suffix::CANARY_TARGET, suffix::CANARY_NUM_JOBS];
const SYMS: [&str; 5] = ["simverif_good", "simverif_bad", "simverif_old", "simverif_hand", "simverif_canary"];

/// Which parts of each symbol a library carries: the symbol, its verdict, its report, its canaries.
#[derive(Clone, Copy)]
struct Lib {
    sym: [bool; 5],
    verdict: [bool; 5],
    report: [bool; 5],
    canaries: [bool; 6],
}
static mut LIBS: [Lib; 2] = [Lib { sym: [true; 5], verdict: [true; 5], report: [true; 5], canaries: [true; 6] }; 2];
fn lib(l: usize) -> Lib {
    unsafe { LIBS[l] }
}
fn resolve(l: usize, name: &str) -> usize {
    let name = &*outside(|| name.replace('\u{fffd}', ""));
    let Some(i) = SYMS.iter().position(|s| name.starts_with(s)) else { return 0 };
    let w = lib(l);
    let rest = &name[SYMS[i].len()..];
    let verdicts = [
        simverif_good_stabbied_v3 as *const () as usize,
        simverif_bad_stabbied_v3 as *const () as usize,
        simverif_old_stabbied_v3 as *const () as usize,
        [hand_stabbied::<0> as *const () as usize, hand_stabbied::<1> as *const () as usize][l],
        0,
    ];
    let reports = [
        simverif_good_stabbied_v3_report as *const () as usize,
        simverif_bad_stabbied_v3_report as *const () as usize,
        simverif_old_stabbied_v3_report as *const () as usize,
        hand_report as *const () as usize,
        0,
    ];
    let syms = [
        far::simverif_good as *const () as usize,
        far::simverif_bad as *const () as usize,
        far::simverif_old as *const () as usize,
        [hand::<0> as *const () as usize, hand::<1> as *const () as usize][l],
        far::simverif_canary as *const () as usize,
    ];
    match rest {
        "" if w.sym[i] => syms[i],
        "_stabbied_v3" if w.verdict[i] => verdicts[i],
        "_stabbied_v3_report" if w.report[i] => reports[i],
        _ if i == 4 => match REQUIRED.iter().position(|c| *c == rest) {
            Some(c) if w.canaries[c] => canary as *const () as usize,
            None if rest == suffix::CANARY_HOST && w.canaries[5] => canary as *const () as usize,
            _ => 0,
        },
        _ => 0,
    }
}
/// Asks for `SYMS[i]` as a `T`; returns what was handed out. `matches`: the verdict the library gives.
unsafe fn get<'a, T: IStable + Copy>(lb: &'a Library, l: usize, i: usize, matches: bool, provided: &'static TypeReport) -> Option<stabby::libloading::Symbol<'a, T>> {
    match lb.get_stabbied::<T>(SYMS[i].as_bytes()) {
        Ok(f) => {
            check!(lib(l).verdict[i], "unchecked", "{} was handed out although the library has no verdict on it", SYMS[i]);
            check!(matches, "verdict", "{} was handed out although the library refused it", SYMS[i]);
            probe("symbol_ok");
            Some(f)
        }
        Err(e) => {
            let e = e.to_string();
            check!(!(matches && lib(l).verdict[i]), "refused", "{} was refused although it matches: {e}", SYMS[i]);
            if lib(l).verdict[i] && lib(l).report[i] {
                let (ours, theirs) = (T::REPORT.to_string(), provided.to_string());
                check!(e.contains(&ours) && e.contains(&theirs), "wrong-error", "the error names neither {ours} nor {theirs}: {e}");
            } else {
                let missing = if lib(l).verdict[i] { "_stabbied_v3_report" } else { "_stabbied_v3" };
                check!(e.contains(SYMS[i]) && e.contains(missing), "wrong-error", "{}{missing} is missing, but the error says: {e}", SYMS[i]);
            }
            probe("symbol_refused");
            None
        }
    }
}
unsafe fn one(lb: &Library, l: usize) {
    match choose(8) {
        0 => {
            if let Some(f) = get::<Good>(lb, l, 0, true, Good::REPORT) {
                check!((*f)(9, Wide::mk()) == stabby::option::Option::Some(9 ^ 3), "wrong-symbol", "the symbol computes something else");
            }
        }
        1 => drop(get::<NearBad>(lb, l, 1, false, FarBad::REPORT)),
        2 => {
            if let Some(f) = get::<FarBad>(lb, l, 1, true, FarBad::REPORT) {
                check!((*f)(far::Two { c: 1, a: 2, b: 3 }) == 3, "wrong-symbol", "the symbol computes something else");
            }
        }
        3 => drop(get::<NearOld>(lb, l, 2, false, FarOld::REPORT)),
        4 => {
            // the right library's, not the other's
            let (asked, ran) = (ASKED, RAN);
            let f = get::<Hand>(lb, l, 3, ACCEPTS[l], Hand::REPORT);
            check!(!lib(l).verdict[3] || ASKED > asked, "unchecked", "the library was not asked");
            if ids() == 1 {
                check!(RAN == ran, "unchecked", "the symbol was called");
            }
            if let Some(f) = f {
                check!((*f)(20) == 40 + l as u32, "wrong-symbol", "the symbol of the other library");
            }
        }
        5 => {
            let s: &[u8] = pick(&[&b"simverif_none"[..], b"", b"simverif_good\0", b"simverif_go", b"simverif_good_stabbied_v3"]);
            check!(lb.get_stabbied::<Good>(s).is_err(), "unchecked", "a symbol that does not exist was handed out");
        }
        _ => {
            type F = extern "C" fn(u32) -> u32;
            let w = lib(l);
            let ok = w.sym[4] && w.canaries[..5].iter().all(|x| *x);
            // symbols are bytes, text or not
            let odd = choose(4) == 0;
            match lb.get_canaried::<F>(if odd { b"simverif\xff_canary" } else { SYMS[4].as_bytes() }) {
                Ok(f) => {
                    check!(ok, "unchecked", "{} was handed out although a canary is missing", SYMS[4]);
                    check!((*f)(7) == 8, "wrong-symbol", "the symbol computes something else");
                    probe("symbol_ok");
                }
                Err(e) => {
                    let e = e.to_string();
                    check!(std::str::from_utf8(e.as_bytes()).is_ok(), "wrong-error", "the error is not valid text: {:?}", e.as_bytes());
                    check!(!ok, "refused", "{} was refused although nothing is missing: {e}", SYMS[4]);
                    let named = !w.sym[4] || REQUIRED.iter().zip(w.canaries).any(|(c, p)| !p && e.contains(c));
                    check!(named && (odd || e.contains(SYMS[4])), "wrong-error", "the error names nothing that is missing: {e}");
                    probe("symbol_refused");
                }
            }
        }
    }
}
/// A symbol exported with canaries carries all of those its loader asks for.
fn exported() {
    static DONE: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    let missing = outside(|| {
        DONE.get_or_init(|| {
            let has = |s: &str| unsafe { !libc::dlsym(core::ptr::null_mut(), std::ffi::CString::new(format!("simverif_canary{s}")).unwrap().as_ptr()).is_null() };
            ["", suffix::CANARY_HOST].iter().chain(&REQUIRED).filter(|s| !has(s)).map(|s| s.to_string()).collect()
        })
    });
    check!(missing.is_empty(), "canary-missing", "simverif_canary was exported without its canaries {missing:?}");
}
static mut THREADS: usize = 1;
fn ids() -> usize {
    unsafe { THREADS }
}
pub fn symbols() {
    run(|| {
        set_faults(true);
        let n = choose(4);
        unsafe {
            THREADS = 1 + n;
            for l in 0..2 {
                ACCEPTS[l] = choose(3) != 0;
                let w = &mut LIBS[l];
                *w = Lib { sym: [true; 5], verdict: [true; 5], report: [true; 5], canaries: [true; 6] };
                for i in 0..5 {
                    w.sym[i] = !fault("symbol_missing");
                    w.verdict[i] = !fault("symbol_missing");
                    w.report[i] = !fault("symbol_missing");
                }
                for c in 0..6 {
                    w.canaries[c] = !fault("symbol_missing");
                }
            }
            ASKED = 0;
            RAN = 0;
        }
        set_faults(false);
        dl::reset();
        exported();
        let libs: &'static [Library; 2] =
            Box::leak(Box::new([0, 1].map(|l| unsafe { Library::from(Raw::from_raw(dl::open(l, resolve))) })));
        let work = move || {
            for _ in 0..1 + choose(4) {
                let l = choose(2);
                unsafe { one(&libs[l], l) }
            }
        };
        let mut ids = outside(Vec::new);
        for _ in 0..n {
            let id = spawn(work);
            outside(|| ids.push(id));
        }
        work();
        for t in ids.iter() {
            join_thread(*t);
        }
        outside(|| drop(ids));
        for l in 0..2 {
            check!(dl::is_open(l), "library-closed", "library {l} was closed while symbols may be in use");
        }
        drop(unsafe { Box::from_raw(libs as *const _ as *mut [Library; 2]) });
        for l in 0..2 {
            check!(!dl::is_open(l), "library-leaked", "library {l} stays open");
        }
        dl::reset();
    })
}
