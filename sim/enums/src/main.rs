//! The scenarios on results, options and sum types. They live in a program of their own because the
//! type-level layout computations of stabby make them slow to compile.
#![allow(dead_code)]
mod enums;
#[path = "../../scen/src/h.rs"]
mod h;
#[path = "../../scen/src/sov.rs"]
mod sov;
#[path = "../../scen/src/vecs.rs"]
mod vecs;
use simrt::driver::{Scenario, Suite};

static NAMES: &[&str] = &["heap_address_reused", "panic_drop", "panic_clone", "panic_cmp", "panic_edit"];
static FAULTS: &[&str] = &["panic_drop", "panic_clone", "panic_cmp", "panic_edit"];
macro_rules! sc {
    ($n: literal, $p: expr, $b: expr, $q: expr, $about: literal) => {
        Scenario { name: $n, props: &$p, about: $about, body: $b, fork_each: false, quick: $q, thorough: $q * 40, known: None }
    };
}
static SCEN: &[Scenario] = &[
    sc!("results", ["C19"], enums::results_calm, 1000000, "Result against std's over many layouts"),
    sc!("results_nested", ["C19"], enums::nested_calm, 1000000, "results of results, options and sum types"),
    sc!("layouts", ["C19"], enums::layouts, 2000000, "every pair of ten payload layouts"),
    sc!("layouts_nested", ["C19"], enums::layouts_nested, 2000000, "results, options and sum types nested in one another"),
    sc!("options", ["C19"], enums::options_calm, 1000000, "Option against std's over many layouts"),
    sc!("sums", ["C19"], enums::sums_calm, 500000, "sum types declared with the macro"),
    sc!("results_panics", ["C19"], enums::results_storm, 1000000, "the same with closures, clones and destructors that panic"),
    sc!("nested_panics", ["C19"], enums::nested_storm, 1000000, "the same"),
    sc!("options_panics", ["C19"], enums::options_storm, 1000000, "the same"),
    sc!("sums_panics", ["C19"], enums::sums_storm, 500000, "the same"),
];
static SUITE: Suite = Suite { scenarios: SCEN, names: NAMES, faults: FAULTS, assumptions: &[
        "Absence of a violation covers the explored seeds only.",
        "Reads of padding or uninitialised memory are not observed, races, use after free and double frees on instrumented memory are.",
        "Relaxed atomics may read any value coherence and happens-before admit; load buffering (a load observing a later store of its own thread's future) is not simulated.",
        "At most 4 threads and a few dozen operations per run.",
        "Code of core and alloc that is not generic (and so not compiled with the library) is not instrumented.",
    ], real: &[
        ("C19", "result.rs, option.rs, enums/*, the enum macros"),
        ("*", "stabby, stabby-abi and stabby-macros, built from /repo's working tree with their own features"),
        ("*", "std collections as oracles"),
        ("*", "the compiler's code generation for the library (debug assertions and overflow checks on)"),
    ], stub: &["thread scheduler and thread creation", "memory model of atomics (stale reads, happens-before)", "system allocator under RustAlloc and LibcAlloc", "clock_gettime", "executors, wakers and async tasks around the library's futures", "streams under serde"] };
fn main() {
    std::process::exit(simrt::driver::main(&SUITE));
}
