#![allow(dead_code)]
mod allocs;
mod atomic_arc;
mod btree;
mod conv;
mod dynt;
mod fut;
mod h;
mod import;
mod load;
mod obs;
mod rc;
mod serde_s;
mod sov;
mod times;
mod vecs;
mod views;
mod vt;
use simrt::driver::{Scenario, Suite};

static NAMES: &[&str] = &[
    "heap_address_reused", "stale_load", "cas_spurious", "alloc_fail", "panic_drop", "panic_clone", "panic_cmp", "panic_iter",
    "upgrade_ok", "upgrade_none", "unique_yes", "unique_no", "cow_copied", "unwrap_ok", "cas_ok", "cas_failed",
    "present", "insert_failed", "panic_edit", "edit_failed", "edit_retried", "alloc_null", "registration_failed",
    "cancelled", "will_wake", "clock_leap", "clock_jump", "import_ok", "import_refused", "stream_failed", "hint_lies",
    "symbol_missing", "symbol_ok", "symbol_refused",
];
static FAULTS: &[&str] = &["stale_load", "cas_spurious", "alloc_fail", "heap_address_reused", "panic_drop", "panic_clone", "panic_cmp", "panic_edit", "panic_iter", "clock_leap", "clock_jump", "stream_failed", "hint_lies", "symbol_missing"];
macro_rules! sc {
    ($n: literal, $p: expr, $b: expr, $q: expr, $about: literal) => {
        Scenario { name: $n, props: &$p, about: $about, body: $b, fork_each: false, quick: $q, thorough: $q * 40, known: None }
    };
}
static SCEN: &[Scenario] = &[
    sc!("arc_sa", ["C01", "C02", "C03"], rc::arc_sa, 6000000, "Arc/Weak over a stateful allocator"),
    sc!("arc_rust", ["C01", "C02", "C03"], rc::arc_rust, 3000000, "Arc/Weak over the default allocator"),
    sc!("arc_libc", ["C01"], rc::arc_libc, 1000000, "Arc/Weak over malloc"),
    sc!("slice_sb", ["C02", "C03", "C04"], rc::slice_sb, 6000000, "ArcSlice/WeakSlice"),
    sc!("slice_rust", ["C04"], rc::slice_rust, 3000000, "ArcSlice/WeakSlice over the default allocator"),
    sc!("arc_to_slice", ["C01", "C04"], rc::arc_to_slice, 2000000, "owners converting between Arc, ArcSlice and Vec"),
    sc!("str_sa", ["C02", "C03", "C04"], rc::str_sa, 4000000, "ArcStr/WeakStr"),
    sc!("str_rust", ["C04"], rc::str_rust, 2000000, "ArcStr/WeakStr over the default allocator"),
    sc!("atomic_arc_sa", ["C05"], atomic_arc::reg_sa, 4000000, "AtomicArc as a register, stateful allocator"),
    sc!("atomic_arc_rust", ["C05"], atomic_arc::reg_rust, 2000000, "AtomicArc as a register, default allocator"),
    Scenario { name: "atomic_arc_known_load", props: &["C05"], about: "the listed finding on AtomicArc::load", body: atomic_arc::known_load, fork_each: false, quick: 200000, thorough: 200000, known: Some("atomic-arc-load-window") },
    sc!("btree_set", ["C06"], btree::set_single, 1000000, "ArcBTreeSet snapshots, allocation failures, panicking clones and comparisons"),
    sc!("btree_rep", ["C06"], btree::rep_single, 700000, "replacing ArcBTreeSet, same faults"),
    sc!("btree_map", ["C06"], btree::map_single, 700000, "ArcBTreeMap, same faults"),
    sc!("btree_set_mt", ["C06"], btree::set_multi, 1000000, "snapshots of one set edited by several threads"),
    sc!("btree_map_mt", ["C06"], btree::map_multi, 700000, "snapshots of one map edited by several threads"),
    sc!("atomic_set", ["C07"], btree::atomic_set, 2000000, "AtomicArcBTreeSet edited and read concurrently"),
    sc!("atomic_set_faults", ["C07"], btree::atomic_faulty, 2000000, "the same with edits that panic and allocations that fail"),
    sc!("alloc_rust", ["C12"], allocs::rust, 1500000, "RustAlloc over a failing system allocator"),
    sc!("alloc_libc", ["C12"], allocs::libc, 1500000, "LibcAlloc over a failing malloc"),
    sc!("alloc_default_realloc", ["C12"], allocs::default_realloc, 1000000, "the reallocation every custom allocator inherits"),
    sc!("alloc_prefixed", ["C12"], allocs::prefix, 2000000, "prefixed arrays of elements, over-aligned ones included"),
    sc!("alloc_behind", ["C12"], allocs::behind, 500000, "an allocator behind a trait object, and a collection that uses it"),
    sc!("alloc_layouts", ["C12"], allocs::layouts, 500000, "layout arithmetic against exact numbers"),
    sc!("vt_btree", ["C08"], vt::btree, 1500000, "concurrent registrations in the default registry"),
    sc!("vt_btree_faults", ["C08"], vt::btree_faults, 1500000, "the same with allocations that fail"),
    sc!("vt_vec", ["C08"], vt::vec, 1500000, "concurrent registrations in the vector-based registry"),
    sc!("vt_vec_faults", ["C08"], vt::vec_faults, 1500000, "the same with allocations that fail"),
    sc!("dyn_boxed_sa", ["C18"], dynt::boxed_sa, 1500000, "boxed and borrowed trait objects passed between threads"),
    sc!("dyn_boxed_rust", ["C18"], dynt::boxed_rust, 700000, "the same over the default allocator"),
    sc!("dyn_shared_sa", ["C01", "C02", "C18"], dynt::shared_sa, 1500000, "shared and weak trait objects across threads"),
    sc!("dyn_shared_rust", ["C18"], dynt::shared_rust, 700000, "the same over the default allocator"),
    sc!("dyn_shared_aligned", ["C01", "C02", "C18"], dynt::shared_aligned, 700000, "the same with an over-aligned value"),
    sc!("dyn_callables", ["C18"], dynt::callables, 700000, "dynamic closures and iterators"),
    Scenario { name: "dyn_first_use", props: &["C08", "C18"], about: "first uses of dispatch tables from several threads", body: dynt::first_use, fork_each: true, quick: 30000, thorough: 1000000, known: None },
    sc!("vec_tok_sa", ["C09"], vecs::vec_tok_sa, 1500000, "Vec against std's, failing allocations"),
    sc!("vec_tok_rust", ["C09"], vecs::vec_tok_rust, 1000000, "the same over the default allocator"),
    sc!("vec_shapes", ["C09"], vecs::vec_shapes, 1500000, "the same with zero-sized, tiny and over-aligned elements, other allocators"),
    sc!("vec_panics", ["C10"], vecs::vec_panics, 2000000, "the same with destructors, clones, comparisons and iterators that panic"),
    sc!("sov_model", ["C09"], sov::model, 2000000, "SingleOrVec against std's Vec over several layouts, failing allocations"),
    sc!("sov_panics", ["C10"], sov::panics, 1500000, "the same with user code that panics"),
    sc!("conv_chains", ["C04", "C11"], conv::chains, 2000000, "chains of conversions between all collections, several owners"),
    sc!("conv_default", ["C11"], conv::chains_default, 1000000, "the same over the allocators of the library"),
    sc!("conv_strings", ["C09", "C11"], conv::strings_all, 1500000, "strings in all their forms"),
    sc!("observed_lists", ["C09", "C04"], obs::lists, 600000, "order, equality, hashes, text, indexing and iteration of lists against std's"),
    sc!("observed_texts", ["C09", "C04"], obs::words_all, 600000, "the same of strings"),
    sc!("boxes", ["C09"], conv::boxes_all, 1500000, "boxes, failing allocations and constructors"),
    sc!("boxes_panics", ["C10"], conv::boxes_panics, 1000000, "boxes of values that panic"),
    sc!("futures", ["C13", "C14"], fut::tasks, 1000000, "tasks polled through the stable interface by one executor, woken and cancelled by other threads"),
    sc!("futures_migrating", ["C13", "C14"], fut::migrating, 1000000, "the same with two executor threads sharing the tasks"),
    sc!("futures_alone", ["C13"], fut::single, 500000, "tasks that wake themselves"),
    sc!("wakers", ["C14"], fut::wakers, 1000000, "wakers crossing the boundary repeatedly, over several allocators"),
    sc!("durations", ["C16"], times::durations, 2000000, "an atomic duration between threads"),
    sc!("instants", ["C16"], times::instants, 2000000, "an atomic instant between threads, under a leaping clock"),
    sc!("clocks", ["C17"], times::clocks, 2000000, "instants and system times read while the clock leaps and jumps"),
    sc!("arithmetic", ["C17", "C16"], times::arithmetic, 1000000, "durations, instants and system times against exact arithmetic"),
    sc!("import_races", ["C15"], import::races, 2000000, "racing first accesses to matching and mismatching imports"),
    sc!("import_reports", ["C15"], import::reports, 1000000, "type reports against a structural model"),
    Scenario { name: "import_macros", props: &["C15"], about: "imports and exports as the macros declare them", body: import::macros, fork_each: true, quick: 30000, thorough: 1000000, known: None },
    sc!("load_symbols", ["C21"], load::symbols, 400000, "symbols looked up at run time in libraries that lack some, by several threads"),
    sc!("views", ["C22"], views::all, 1500000, "values edited as if they were of another type, panics and failing allocations in the middle"),
    Scenario { name: "views_known_ref", props: &["C22"], about: "the listed finding on ref_as", body: views::known_ref, fork_each: false, quick: 1000, thorough: 1000, known: Some("ref-as-consumes-its-source") },
    sc!("serde_collections", ["C20"], serde_s::collections, 700000, "collections written and read, streams that fail, end early and lie, failing allocations"),
    sc!("serde_default", ["C20"], serde_s::default_allocs, 1000000, "the same over the allocators of the library"),
    sc!("serde_strings", ["C20"], serde_s::strings, 1000000, "strings handed over in every way, and borrowed views"),
    sc!("serde_sums", ["C20"], serde_s::sums, 1000000, "options, results and numbers with a missing value"),
    sc!("serde_panics", ["C20"], serde_s::panics, 800000, "elements whose construction panics"),
];
static SUITE: Suite = Suite { scenarios: SCEN, names: NAMES, faults: FAULTS, assumptions: &[
        "Absence of a violation covers the explored seeds only.",
        "At most three weak compare-exchanges fail spuriously per run.",
        "Reads of padding or uninitialised memory are not observed, races, use after free and double frees on instrumented memory are.",
        "Relaxed atomics may read any value coherence and happens-before admit; load buffering (a load observing a later store of its own thread's future) is not simulated.",
        "At most 4 threads and a few dozen operations per run.",
        "Code of core and alloc that is not generic (and so not compiled with the library) is not instrumented.",
    ], real: &[
        ("C01", "alloc/sync.rs Arc, Weak; Dyn over shared pointers"),
        ("C02", "alloc/sync.rs upgrades and counts; Dyn over weak pointers"),
        ("C03", "alloc/sync.rs is_unique, get_mut, make_mut, try_into_inner, conversions"),
        ("C04", "alloc/sync.rs ArcSlice, WeakSlice; alloc/string.rs ArcStr, WeakStr"),
        ("C05", "alloc/sync.rs AtomicArc"),
        ("C06", "alloc/collections/arc_btree.rs sets and maps"),
        ("C07", "alloc/collections/arc_btree.rs AtomicArcBTreeSet"),
        ("C08", "vtable registries (vtable/mod.rs, vtable/internal.rs, vtable/btree.rs)"),
        ("C09", "alloc/vec.rs, alloc/single_or_vec.rs, alloc/string.rs, alloc/boxed.rs"),
        ("C10", "alloc/vec.rs, alloc/single_or_vec.rs, alloc/boxed.rs, their iterators and drains"),
        ("C11", "conversions between alloc/*"),
        ("C12", "alloc/allocators/*, alloc/mod.rs (layouts, prefixed allocations)"),
        ("C13", "future.rs"),
        ("C14", "future.rs StableWaker, waker vtables"),
        ("C15", "checked_import.rs, report.rs, import and export macros"),
        ("C16", "stabby/src/time.rs atomics"),
        ("C17", "stabby/src/time.rs"),
        ("C18", "fatptr.rs, vtable/*, closure.rs, iter.rs"),
        ("C21", "stabby/src/libloading.rs, the export macro"),
        ("C22", "as_mut.rs, conversions between the types viewed"),
        ("C20", "serde implementations"),
        ("*", "stabby, stabby-abi and stabby-macros, built from /repo's working tree with their own features"),
        ("*", "std collections as oracles"),
        ("*", "the compiler's code generation for the library (debug assertions and overflow checks on)"),
    ], stub: &["thread scheduler and thread creation", "memory model of atomics (stale reads, happens-before)", "system allocator under RustAlloc and LibcAlloc", "clock_gettime", "the dynamic linker (dlsym, dlerror, dlclose)", "executors, wakers and async tasks around the library's futures", "streams under serde"] };
fn main() {
    dynt::warm();
    fut::warm();
    std::process::exit(simrt::driver::main(&SUITE));
}
