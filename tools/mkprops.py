#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run by hand after an edit; checks do not use it).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
SYNC = "stabby-abi/src/alloc/sync.rs"
p("C01", "Shared values are destroyed and freed exactly once, after every use",
  "Under any interleaving of cloning, downgrading, upgrading, reading and dropping the strong and weak owners of a reference-counted value (plain or behind a dynamic trait object), the value is destroyed exactly once, when its last strong owner is gone, and its memory is returned exactly once, when its last strong or weak owner is gone. Every access any owner made to the value happens before its destruction, and its destruction happens before its memory is released. Nothing leaks once all owners are gone.",
  ["schedules", "histories"], "every interleaving, under the C11 memory model, of any history of owner operations on up to four threads; owners of every allocator",
  "Tests run on one thread or on one lucky schedule of a strongly ordered machine; a missing edge or a lost decrement shows only under particular interleavings or weak orderings.",
  [SYNC, "stabby-abi/src/vtable/mod.rs", "stabby-abi/src/fatptr.rs", "stabby-abi/src/alloc/mod.rs"],
  [("reference count decrements and fences", SYNC + " (Drop for Arc, Drop for Weak)"), ("conversion to and from dynamic owners", SYNC + " (impl IPtrOwned, IPtrClone)"), ("prefix allocation", "stabby-abi/src/alloc/mod.rs (AllocPrefix, AllocPtr)")],
  [("strong, weak", "counts kept in the allocation's prefix", "stabby-abi/src/alloc/mod.rs AllocPrefix")],
  ["Arc::clone", "Arc::downgrade", "Weak::upgrade", "drop"])
p("C02", "Upgrading is linearizable and counts are conserved",
  "Upgrading a weak owner succeeds if, and only if, some strong owner still exists at the instant it takes effect, and never brings a destroyed value back. At rest, reported strong and weak counts equal the number of owners of each kind, whatever concurrent operations, failed upgrades included, came before.",
  ["schedules", "histories"], "every interleaving of upgrades with drops, clones and downgrades, for single values, slices and strings",
  "The only upgrade test runs on one thread, where the count never changes between being read and being bumped.",
  [SYNC], [("upgrade loops", SYNC + " (Weak::upgrade, WeakSlice::upgrade)")],
  [("strong, weak", "owner counts", "stabby-abi/src/alloc/mod.rs AllocPrefix")], ["Weak::upgrade", "WeakSlice::upgrade", "WeakStr::upgrade", "strong_count", "weak_count"])
p("C03", "Unique access to a shared value is exclusive",
  "When a uniqueness query, a mutable borrow, an in-place unwrap or a conversion into an owned collection succeeds on a shared owner, no other strong or weak owner exists or can come to exist while that access lasts, and everything past owners did happens before it. Otherwise it fails without effect, or copies: mutating through a copy-on-write borrow is never visible to other owners. Failing or panicking copies leave the shared value as it was.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of uniqueness operations with upgrades, clones and drops; allocation failures and panics during copies",
  "Tests only try these while one owner exists on one thread; the dangerous window is another thread's drop or upgrade in between.",
  [SYNC], [("uniqueness checks", SYNC + " (is_unique, get_mut, make_mut, try_into_inner, TryFrom<ArcSlice> for Vec)")],
  [], ["Arc::get_mut", "Arc::make_mut", "Arc::make_mut_and_get", "Arc::try_into_inner", "Arc::is_unique", "ArcSlice::as_slice_mut", "ArcSlice::is_unique", "TryFrom<ArcSlice> for Vec"])
p("C04", "Shared slices and strings keep their elements and their memory",
  "A shared slice or string made from any collection, of any element type, length and spare capacity, holds exactly the elements it was made from, for as long as any owner lives. Each element is destroyed exactly once when the last strong owner goes, and memory is released exactly once when the last owner goes, whichever thread that is and whichever conversions between shared values, slices, strings and collections came before. Weak owners never expose elements after that.",
  ["schedules", "inputs", "histories"], "every length (0 and 1 included), capacity, element layout (zero-sized and over-aligned included), allocator and interleaving of owners",
  "Existing tests cover one or two shapes on a single thread.",
  [SYNC, "stabby-abi/src/alloc/vec.rs", "stabby-abi/src/alloc/string.rs"],
  [("conversions", SYNC + " (From<Vec> for ArcSlice, From<Arc> for ArcSlice, TryFrom<ArcSlice> for Vec)"), ("drops", SYNC + " (Drop for ArcSlice, Drop for WeakSlice)"), ("string wrappers", "stabby-abi/src/alloc/string.rs (ArcStr, WeakStr)")],
  [("capacity", "room of the allocation, or its length once shared", "stabby-abi/src/alloc/mod.rs AllocPrefix")], ["ArcSlice", "WeakSlice", "ArcStr", "WeakStr"])
p("C05", "An atomic shared pointer is a linearizable register that owns what it holds",
  "Concurrent loads, stores, comparisons and compare-exchanges on an atomic shared pointer behave as if executed one at a time in an order consistent with real time, with acquire/release orderings (or stronger) publishing the pointee's content. A compare-exchange succeeds exactly when the current value is the expected one, and reports the actual value otherwise. Each stored value is owned exactly once by the register until replaced or the register is dropped: nothing is leaked or released early.",
  ["schedules", "histories"], "every interleaving and every admissible stale read for up to three threads and short histories",
  "The tests never use two threads on it; whether every outcome fits one sequential order can only be judged over recorded concurrent histories.",
  [SYNC], [("AtomicArc", SYNC + " (AtomicArc::load, store, is, compare_exchange, Drop)")],
  [("ptr", "the register", SYNC + " AtomicArc")], ["AtomicArc::load", "AtomicArc::store", "AtomicArc::is", "AtomicArc::compare_exchange"])
BT = "stabby-abi/src/alloc/collections/arc_btree.rs"
p("C06", "Persistent sets and maps match a sorted model, and snapshots are isolated",
  "After any sequence of insertions, lookups, iterations and clones, a persistent set or map contains exactly the entries of a sorted reference collection, in order, with inserted keys replaced or kept as its replacement policy says and the displaced entry handed back. Editing one clone never changes what any other clone observes, on any thread. An allocation failure or a panicking clone or comparison never corrupts any clone, double-frees, or makes an entry appear that was never inserted.",
  ["histories", "inputs", "schedules", "fault_sequences"], "every sequence of edits and clones (snapshots) on up to three threads, every key distribution, every failing allocation and panicking user callback",
  "Tests insert pseudo-random keys into one handle; they never edit shared snapshots concurrently and never fail an allocation.",
  [BT], [("copy-on-write nodes", BT + " (insert, make_mut of nodes)"), ("splitting", BT)], [("root", "shared tree", BT)], ["ArcBTreeSet::insert", "ArcBTreeSet::get", "ArcBTreeMap::insert", "ArcBTreeMap::get_mut", "iter"])
p("C07", "The concurrent set is linearizable",
  "Concurrent edits and lookups on a lock-free shared set behave as if executed one at a time in an order consistent with real time: no successful edit is lost, no lookup sees a partially applied edit. A panic or allocation failure inside one edit leaves the set at its previous value, other threads make progress, and nothing leaks.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of editors and readers, edits that panic, allocations that fail",
  "There is no multi-threaded test of it at all.",
  [BT], [("AtomicArcBTreeSet", BT + " (get, edit)")], [("root", "the published tree", BT)], ["AtomicArcBTreeSet::edit", "AtomicArcBTreeSet::get"])
p("C08", "Registering dispatch tables is thread-safe and deduplicates",
  "However many threads concurrently register dispatch tables, every registration returns a table with exactly the content that was asked for, equal contents yield the same table, and a returned table stays valid for the program's life. A failed allocation during registration is reported without harming tables already handed out.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of up to three registering threads, contents chosen to collide, allocation failures",
  "Tests create tables on one thread; publication races need concurrent first uses.",
  ["stabby-abi/src/vtable/mod.rs", BT], [("registries", "stabby-abi/src/vtable/mod.rs (VtVec, VtBtree, VTableRegistry::insert)")], [("VTABLES", "the process-wide registry", "stabby-abi/src/vtable/mod.rs")], ["VTableRegistry::insert", "first conversions into trait objects"])
VEC = "stabby-abi/src/alloc/vec.rs"
p("C09", "Collections match their model and allocation failures change nothing",
  "Any sequence of operations on the growable vector, the single-or-vector, the string, the box and the boxed slice gives the same observable results as the standard library's counterpart; so do comparisons, hashes, text, indexing and iteration of these and of the shared and borrowed slices and strings. An operation that reports an allocation failure leaves the collection with the elements it had, gives back whatever it was handed, and later operations still work. Requests too large to represent fail instead of being truncated.",
  ["inputs", "histories", "fault_sequences"], "every sequence of operations, element layout (zero-sized and over-aligned included), allocator, and every allocation failing",
  "Tests exercise a few operations with an allocator that never fails.",
  [VEC, "stabby-abi/src/alloc/single_or_vec.rs", "stabby-abi/src/alloc/string.rs", "stabby-abi/src/alloc/boxed.rs"],
  [("growth", VEC + " (try_reserve, try_push)"), ("single or vec transitions", "stabby-abi/src/alloc/single_or_vec.rs"), ("boxed slice conversions", "stabby-abi/src/alloc/boxed.rs")],
  [], ["Vec", "SingleOrVec", "String", "Box", "BoxedSlice"])
p("C10", "No value is destroyed twice, even when user code panics",
  "Whatever point of a collection's operation a user-supplied destructor, clone, comparison or iterator panics at, each element is destroyed at most once, is never exposed after destruction, and memory is neither released twice nor accessed after release; the collection stays usable. Iterators and drains that are partially consumed, from either end, dropped or forgotten, destroy or hand over every remaining element exactly once or, when forgotten, leak it.",
  ["inputs", "fault_sequences", "histories"], "every panic point of every operation that calls user code; iterators that misreport their size; every mix of front and back consumption",
  "No test panics in user code; the consequences depend on exactly which call panics.",
  [VEC, "stabby-abi/src/alloc/single_or_vec.rs", "stabby-abi/src/alloc/boxed.rs", "stabby-abi/src/iter.rs"],
  [("drops and drains", VEC + " (truncate, drain, IntoIter, Drop)"), ("extension", VEC + " (Extend, FromIterator)")], [], ["Vec", "Vec::drain", "Vec::into_iter", "SingleOrVec", "BoxedSlice", "ArcSlice"])
p("C11", "Conversions preserve elements, memory and allocator",
  "Any chain of conversions between vectors, strings, boxed slices, shared slices, single-or-vectors and raw parts keeps the elements, their order and the allocator, destroys nothing but what it replaces, and in the end releases all memory exactly once. A shared slice or string that cannot be converted back is handed back unchanged.",
  ["inputs", "histories", "fault_sequences"], "every chain of conversions, length, spare capacity, element layout and allocator; failing allocations",
  "Tests cover single conversions of one element type with the default allocator.",
  [VEC, "stabby-abi/src/alloc/boxed.rs", "stabby-abi/src/alloc/single_or_vec.rs", "stabby-abi/src/alloc/string.rs", SYNC],
  [("conversions", VEC + " (From, into_raw_components, from_raw_components)"), ("boxed slice", "stabby-abi/src/alloc/boxed.rs")], [], ["From/Into between collections", "into_raw_components", "from_raw_components"])
p("C12", "Allocators honour their contract, failures included",
  "Every allocation the library's allocators return is null or a block of at least the requested size and alignment, disjoint from every other live block, that keeps its content until freed; reallocation preserves content up to the smaller size, and its failure leaves the old block intact. System allocation failures and unrepresentable sizes come back as null. The layout arithmetic never yields a block too small for the elements it is meant to hold.",
  ["inputs", "fault_sequences", "histories"], "every size and alignment, every sequence of allocations, reallocations and frees, every failing system call",
  "Tests never ask for unusual layouts and never see the system allocator fail.",
  ["stabby-abi/src/alloc/mod.rs", "stabby-abi/src/alloc/allocators/rust_alloc.rs", "stabby-abi/src/alloc/allocators/libc_alloc.rs"],
  [("layouts", "stabby-abi/src/alloc/mod.rs (Layout, IAlloc, AllocPtr)"), ("RustAlloc", "stabby-abi/src/alloc/allocators/rust_alloc.rs"), ("LibcAlloc", "stabby-abi/src/alloc/allocators/libc_alloc.rs")], [], ["IAlloc::alloc", "IAlloc::realloc", "IAlloc::free", "AllocPtr", "Layout"])
FU = "stabby-abi/src/future.rs"
p("C13", "Futures behave the same on the far side of the boundary",
  "Polling a future through its stable interface yields the same outputs as polling it natively, under any executor, any number of boundary crossings, spurious polls and wake-ups, migrations between threads, and cancellation at any point. The output is handed over exactly once, the future's state is destroyed exactly once, and a future that resolved is not polled again by the library.",
  ["schedules", "histories", "fault_sequences"], "every poll/wake/migrate/cancel history and interleaving of waking threads",
  "The tests await one ready future on one executor.",
  [FU, "stabby-abi/src/enums/option.rs"], [("stable poll", FU + " (IStableFuture, impl Future for Dyn)"), ("MaybeResolved", FU)], [], ["Future::poll on trait objects", "IStableFuture::poll", "MaybeResolved"])
p("C14", "Wakers cross the boundary without losing a wake-up or a reference",
  "A waker handed across the boundary, cloned, sent to other threads, woken by value or by reference and dropped any number of times reaches the original waker with the same wake-ups, and keeps it alive exactly as long as needed: each underlying reference taken is released exactly once. A task that was woken is always polled again.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of clones, wakes and drops on up to four threads, crossing the boundary repeatedly",
  "No test clones a waker across the boundary or wakes from another thread at all under control.",
  [FU], [("StableWaker", FU + " (StableWaker, StableWakerInner, stable_waker)")], [], ["Waker seen by a future polled through the stable interface"])
p("C15", "Checked imports decide once and agree on every thread",
  "An import guarded by a type report is usable if and only if the provider's report matches, and every thread that races for the first access reaches the same verdict, runs only matching imports, and sees the whole imported item once it gets access. A mismatch is reported to every caller, with the reports involved.",
  ["schedules", "histories"], "every interleaving of first accesses on up to four threads, matching and mismatching providers",
  "Tests access imports from one thread.",
  ["stabby-abi/src/checked_import.rs"], [("CheckedImport", "stabby-abi/src/checked_import.rs")], [("checked", "state of the verdict", "stabby-abi/src/checked_import.rs CheckedImport")], ["CheckedImport::deref", "CheckedImport::as_ref"])
TI = "stabby/src/time.rs"
p("C16", "Atomic durations and instants are linearizable registers",
  "Concurrent loads, stores, swaps and updates on atomic durations and instants behave as if executed one at a time in an order consistent with real time, and synchronise threads as the requested memory ordering promises. A value within the documented maximum is read back with its sign, rounded down to the documented resolution, by loads and swaps alike; swapping hands each value back exactly once.",
  ["schedules", "inputs", "histories"], "every interleaving of up to three threads, every admissible stale read, durations of either sign over the whole documented range",
  "No test uses two threads, or values near the limits.",
  [TI], [("AtomicDuration, AtomicInstant", TI)], [], ["AtomicDuration::load/store/swap", "AtomicInstant::load/store/swap/update"])
p("C17", "Clock readings and time arithmetic are exact under clock faults",
  "A stable instant or system time read while the clock stalls, steps or jumps equals what the platform's clock shows at some moment during the call (a system clock set before 1970 reads as 1970), so instants never run backwards. Conversions to and from the standard library's types round-trip, and comparisons, sums and unit accessors agree with exact arithmetic for every value that fits.",
  ["inputs", "fault_sequences", "histories"], "every value of the representable range, every clock jump or stall between two readings",
  "Tests read a real clock that never jumps and never reaches the limits.",
  [TI], [("Duration, Instant, SystemTime", TI)], [], ["Duration", "Instant::now", "SystemTime::now", "AtomicInstant::now", "AtomicInstant::update", "From conversions"])
p("C18", "Trait objects dispatch to and destroy the right value exactly once",
  "A value behind a boxed, shared or borrowed stable trait object is reached by every call with the arguments and results the concrete method would give, from any thread, through any conversion to fewer traits. Downcasting succeeds exactly for the concrete type it was made from. The value is destroyed exactly once and its memory freed by the allocator it came from.",
  ["schedules", "histories", "inputs"], "every sequence of conversions, calls, downcasts, clones and drops over several threads, concrete types with equal layout included",
  "Tests call each object on one thread and never observe destruction.",
  ["stabby-abi/src/vtable/mod.rs", "stabby-abi/src/fatptr.rs", "stabby-macros/src/traits.rs"], [("Dyn, DynRef", "stabby-abi/src/fatptr.rs"), ("vtable construction", "stabby-abi/src/vtable/mod.rs")], [], ["Dyn", "DynRef", "stable_downcast", "into_super"])
p("C19", "Stable results and options own their payload exactly once",
  "Every operation on stable options and results gives the standard library's answer for the same operation and payload, whichever compact representation the payload types lead to. The payload is destroyed exactly once or handed over exactly once, also when a closure run by the operation panics or replaces it through a mutable borrow.",
  ["inputs", "histories", "fault_sequences"], "every operation sequence over payload types of several layouts; panicking closures",
  "Tests cover a few combinations and never panic in a closure or observe destruction.",
  ["stabby-abi/src/result.rs", "stabby-abi/src/option.rs", "stabby-abi/src/enums"], [("Result", "stabby-abi/src/result.rs"), ("Option", "stabby-abi/src/option.rs")], [], ["stabby::result::Result", "stabby::option::Option"])
p("C20", "Deserialising survives hostile and failing streams",
  "Serialising then deserialising a collection, string, option or result gives back an equal value. A stream that fails gives that error; one that misstates its length is read all the same, without memory being reserved in proportion to an unverified length; an allocation failure gives an error or the documented panic. In every case, panics of the elements' own deserialisation included, every element produced so far is destroyed exactly once.",
  ["inputs", "fault_sequences"], "every position at which a stream can fail, every declared length, allocation failures",
  "Tests round-trip well-formed documents only.",
  [VEC, "stabby-abi/src/alloc/string.rs", "stabby-abi/src/option.rs", "stabby-abi/src/result.rs", "stabby-abi/src/alloc/boxed.rs", SYNC], [("serde implementations", VEC + " (mod serde_impl)")], [], ["Serialize", "Deserialize"])
p("C21", "Symbols loaded from a library are checked before use",
  "A symbol looked up through its stable name is handed out if and only if the library's own verdict on the loader's report is positive, and is then the function exported under that name; looked up through its canaries, if and only if every canary the loader requires is present. Otherwise the caller gets an error which names what is missing or shows both reports. Until the check passed nothing of the library runs but its verdict and its report; loaders on several threads do not disturb each other; the library is closed once, after every use.",
  ["schedules", "inputs", "fault_sequences"], "every subset of missing symbols, every verdict of the other side, concurrent lookups on up to three threads",
  "The tests load no library with a symbol missing or a report that differs.",
  ["stabby/src/libloading.rs", "stabby-macros/src/functions.rs"], [("loader", "stabby/src/libloading.rs (StabbyLibrary)"), ("exports", "stabby-macros/src/functions.rs")], [], ["StabbyLibrary::get_stabbied", "StabbyLibrary::get_canaried", "stabby::export"])
p("C22", "Views as another type write back once and own nothing twice",
  "A value edited through a mutable view as another type (mut_as) holds, once the view ends, exactly the edits made through it, also when it ends because the user's code panicked, and through views of views; a shared view (ref_as) shows the value, to several threads at once, and leaves it unchanged. Every value and allocation involved is destroyed and released exactly once, as long as the conversions themselves succeed.",
  ["histories", "fault_sequences", "schedules"], "every history of views, edits, panics and failing allocations; concurrent shared views",
  "No test uses views at all.",
  ["stabby-abi/src/as_mut.rs", "stabby-abi/src/lib.rs"], [("guards", "stabby-abi/src/as_mut.rs (RefAs, MutAs)")], [], ["AccessAs::ref_as", "AccessAs::mut_as"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
