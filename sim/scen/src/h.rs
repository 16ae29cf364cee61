//! What scenarios share: tracked values, allocators under the harness's control, a small model checker
//! for histories.
use simrt::*;
use stabby_abi::alloc::{IAlloc, Layout};
use std::collections::HashSet;

pub const TOKTAG: u32 = 0xFFFF_0001;

/// Ledger of every tracked object of the current run. Lives outside the simulated heap.
pub struct Reg {
    st: Vec<u8>,
    what: Vec<&'static str>,
    pub live: usize,
    zst: i64,
    pub zst_made: u64,
    /// Panics may be injected into drops, clones and comparisons.
    pub panics: bool,
    /// ... but not into destructors.
    pub no_drop_panics: bool,
    pub panicked: u32,
    pub next_tag: u32,
}
static mut REG: Reg =
    Reg { st: Vec::new(), what: Vec::new(), live: 0, zst: 0, zst_made: 0, panics: false, no_drop_panics: false, panicked: 0, next_tag: 0 };
pub fn reg() -> &'static mut Reg {
    unsafe { &mut *core::ptr::addr_of_mut!(REG) }
}
fn made(what: &'static str) -> u32 {
    outside(|| {
        let r = reg();
        r.st.push(1);
        r.what.push(what);
        r.live += 1;
        (r.st.len() - 1) as u32
    })
}
fn gone(id: u32, what: &'static str) {
    outside(|| {
        let r = reg();
        match r.st.get(id as usize) {
            Some(1) if r.what[id as usize] == what => {
                r.st[id as usize] = 2;
                r.live -= 1;
            }
            Some(2) if r.what[id as usize] == what => fail("double-drop", || format!("{what} #{id} dropped twice")),
            _ => fail("garbage-drop", || format!("drop of something that never was a {what} (id {id:#x})")),
        }
    })
}
fn must_live(id: u32, what: &'static str) {
    outside(|| {
        let r = reg();
        match r.st.get(id as usize) {
            Some(1) if r.what[id as usize] == what => {}
            Some(2) if r.what[id as usize] == what => fail("use-after-drop", || format!("{what} #{id} used after it was dropped")),
            _ => fail("garbage", || format!("use of something that never was a {what} (id {id:#x})")),
        }
    })
}
pub fn toks_made() -> usize {
    reg().st.len()
}
pub fn alive(id: u32) -> bool {
    reg().st.get(id as usize) == Some(&1)
}
/// Fires a panic from user code (a destructor, a clone, a comparison, a closure).
pub fn maybe_panic(name: &'static str) {
    let r = reg();
    if r.panics && !(r.no_drop_panics && name == "panic_drop") && !std::thread::panicking() && fault(name) {
        r.panicked += 1;
        std::panic::panic_any(Injected);
    }
}
pub struct Injected;
/// Runs `f`; `None` if an injected panic came out of it.
pub fn catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<Injected>() {
                drop(e);
                None
            } else {
                let m = outside(|| panic_message(&*e));
                if m.contains("llocation failed") || m.contains("AllocationError") || m.contains("ALLOC") || m.contains("reallocation") {
                    drop(e);
                    None
                } else {
                    fail("panic", || format!("unexpected panic: {m}"))
                }
            }
        }
    }
}
/// Like [`catch`], any panic counts.
pub fn catch_any<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            drop(e);
            None
        }
    }
}

/// Frame of a scenario: a clean ledger at the start, an empty one at the end.
pub fn run(f: impl FnOnce()) {
    outside(|| {
        let r = reg();
        r.st.clear();
        r.what.clear();
        r.live = 0;
        r.zst = 0;
        r.zst_made = 0;
        r.panics = false;
        r.no_drop_panics = false;
        r.panicked = 0;
        r.next_tag = 0;
        unsafe { (*core::ptr::addr_of_mut!(HIST)).clear() };
    });
    f();
    finish(false);
}
/// `lenient`: values may have been leaked by a panic.
pub fn finish(lenient: bool) {
    let r = reg();
    if !lenient {
        if r.live != 0 {
            let l: Vec<String> = outside(|| {
                r.st.iter().enumerate().filter(|(_, s)| **s == 1).take(5).map(|(i, _)| format!("{} #{i}", r.what[i])).collect()
            });
            fail("lost-value", || format!("{} value(s) never dropped: {}", r.live, l.join(", ")));
        }
        check!(r.zst == 0, "zst-drops", "{} zero-sized values too many alive (negative: dropped too often)", r.zst);
    } else {
        check!(r.zst >= 0, "zst-drops", "zero-sized values dropped {} times too often", -r.zst);
    }
}
/// After a panic run: whatever is still registered was leaked; it must not disturb the next checks.
pub fn forgive() {
    let r = reg();
    check!(r.zst >= 0, "zst-drops", "zero-sized values dropped {} times too often", -r.zst);
    outside(|| {
        r.live = 0;
        r.zst = 0;
    });
    set_leak_check(false);
}

// ------------------------------------------------------------------------------------------ values
pub trait Elem: Sized + 'static + Clone + PartialEq + PartialOrd + Ord + Eq + core::hash::Hash + core::fmt::Debug {
    const ZST: bool = false;
    fn mk(v: u32) -> Self;
    /// The value; fails the run unless `self` is intact.
    fn v(&self) -> u32;
    fn set(&mut self, v: u32);
}

/// An owned value with a heap payload whose every copy is accounted for.
#[stabby::stabby]
pub struct Tok {
    heap: *mut u64,
    id: u32,
    val: u32,
}
unsafe impl Send for Tok {}
unsafe impl Sync for Tok {}
impl Tok {
    pub fn new(v: u32) -> Tok {
        let id = made("value");
        let h = halloc(8, 8, TOKTAG) as *mut u64;
        unsafe { h.write(v as u64 ^ 0x5EED_0000_0000) };
        Tok { heap: h, id, val: v }
    }
    pub fn id(&self) -> u32 {
        self.id
    }
}
impl Elem for Tok {
    fn mk(v: u32) -> Self {
        Tok::new(v)
    }
    fn v(&self) -> u32 {
        must_live(self.id, "value");
        let x = unsafe { *self.heap };
        check!(x == self.val as u64 ^ 0x5EED_0000_0000, "torn-value", "value #{} holds {} with payload {:#x}", self.id, self.val, x);
        self.val
    }
    fn set(&mut self, v: u32) {
        must_live(self.id, "value");
        self.val = v;
        unsafe { *self.heap = v as u64 ^ 0x5EED_0000_0000 };
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        // the destructor uses the payload
        let x = {
            gone(self.id, "value");
            unsafe { *self.heap }
        };
        check!(x == self.val as u64 ^ 0x5EED_0000_0000, "torn-value", "destructor of value #{} sees payload {:#x}", self.id, x);
        hfree(self.heap as *mut u8, TOKTAG);
        self.heap = 0xdead as *mut u64;
        maybe_panic("panic_drop");
    }
}
impl Clone for Tok {
    fn clone(&self) -> Tok {
        let v = self.v();
        maybe_panic("panic_clone");
        Tok::new(v)
    }
}
impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        let r = self.v() == o.v();
        maybe_panic("panic_cmp");
        r
    }
}
impl Eq for Tok {}
impl PartialOrd for Tok {
    fn partial_cmp(&self, o: &Tok) -> Option<core::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tok {
    fn cmp(&self, o: &Tok) -> core::cmp::Ordering {
        let r = self.v().cmp(&o.v());
        maybe_panic("panic_cmp");
        r
    }
}
impl core::hash::Hash for Tok {
    fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
        self.v().hash(h)
    }
}
impl core::fmt::Debug for Tok {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        write!(f, "{}", self.v())
    }
}

/// A value with an alignment greater than the allocation prefix's.
#[repr(C, align(64))]
pub struct Big(Tok, u32);
impl Elem for Big {
    fn mk(v: u32) -> Self {
        Big(Tok::new(v), !v)
    }
    fn v(&self) -> u32 {
        check!(self as *const _ as usize % 64 == 0, "misaligned", "value at {:#x}", self as *const _ as usize);
        let v = self.0.v();
        check!(self.1 == !v, "torn-value", "over-aligned value {} with check word {:#x}", v, self.1);
        v
    }
    fn set(&mut self, v: u32) {
        self.0.set(v);
        self.1 = !v;
    }
}
macro_rules! fwd {
    ($t: ty) => {
        impl Clone for $t {
            fn clone(&self) -> Self {
                let v = self.v();
                maybe_panic("panic_clone");
                <$t>::mk(v)
            }
        }
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                self.v() == o.v()
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &$t) -> core::cmp::Ordering {
                self.v().cmp(&o.v())
            }
        }
        impl core::hash::Hash for $t {
            fn hash<H: core::hash::Hasher>(&self, h: &mut H) {
                self.v().hash(h)
            }
        }
        impl core::fmt::Debug for $t {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                write!(f, "{}", self.v())
            }
        }
    };
}
pub(crate) use fwd;
fwd!(Big);
/// A small value (one byte) that cannot be told apart, for layouts with many elements per word.
#[stabby::stabby]
pub struct Small {
    v: u8,
}
impl Elem for Small {
    fn mk(v: u32) -> Self {
        Small { v: v as u8 }
    }
    fn v(&self) -> u32 {
        self.v as u32
    }
    fn set(&mut self, v: u32) {
        self.v = v as u8
    }
}
fwd!(Small);
/// A zero-sized value whose constructions and destructions are counted.
#[stabby::stabby]
pub struct Zst {
    _z: (),
}
impl Elem for Zst {
    const ZST: bool = true;
    fn mk(_: u32) -> Self {
        reg().zst += 1;
        reg().zst_made += 1;
        Zst { _z: () }
    }
    fn v(&self) -> u32 {
        0
    }
    fn set(&mut self, _: u32) {}
}
impl Drop for Zst {
    fn drop(&mut self) {
        reg().zst -= 1;
        check!(reg().zst >= 0, "zst-drops", "a zero-sized value was dropped more often than constructed");
        maybe_panic("panic_drop");
    }
}
fwd!(Zst);

// -------------------------------------------------------------------------------------- allocators
pub trait HAlloc: IAlloc + Clone + Default + 'static + Send + Sync {
    const NAME: &'static str;
    fn mk() -> Self;
}
macro_rules! alloc {
    ($t: ident, $name: literal) => {
        #[stabby::stabby]
        pub struct $t {
            id: u32,
            tag: u32,
        }
        impl Default for $t {
            fn default() -> Self {
                $t { id: made("allocator"), tag: 0 }
            }
        }
        impl Clone for $t {
            fn clone(&self) -> Self {
                must_live(self.id, "allocator");
                $t { id: made("allocator"), tag: self.tag }
            }
        }
        impl Drop for $t {
            fn drop(&mut self) {
                gone(self.id, "allocator")
            }
        }
        impl HAlloc for $t {
            const NAME: &'static str = $name;
            fn mk() -> Self {
                reg().next_tag += 1;
                $t { id: made("allocator"), tag: reg().next_tag }
            }
        }
        impl $t {
            fn do_alloc(&mut self, l: Layout) -> *mut () {
                must_live(self.id, "allocator");
                check!(l.align.is_power_of_two(), "bad-layout", "alignment {} requested", l.align);
                if l.size == 0 || fault("alloc_fail") || l.size > 1 << 22 {
                    return core::ptr::null_mut();
                }
                halloc(l.size, l.align, self.tag) as *mut ()
            }
            fn do_free(&mut self, p: *mut ()) {
                must_live(self.id, "allocator");
                hfree(p as *mut u8, self.tag)
            }
        }
    };
}
alloc!(SA, "SA");
alloc!(SB, "SB");
/// Reallocates through the trait's default implementation.
impl IAlloc for SA {
    fn alloc(&mut self, l: Layout) -> *mut () {
        self.do_alloc(l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        self.do_free(p)
    }
}
/// Reallocates by itself, to another place, knowing the true size of the block.
impl IAlloc for SB {
    fn alloc(&mut self, l: Layout) -> *mut () {
        self.do_alloc(l)
    }
    unsafe fn free(&mut self, p: *mut ()) {
        self.do_free(p)
    }
    unsafe fn realloc(&mut self, p: *mut (), prev: Layout, n: usize) -> *mut () {
        let Some((size, align)) = hsize(p as *mut u8) else {
            fail("bad-realloc", || format!("realloc of {p:?}, which is not the start of a live allocation"))
        };
        check!(prev.align == align, "bad-realloc", "realloc claims alignment {} for a block of alignment {align}", prev.align);
        check!(prev.size <= size, "bad-realloc", "realloc claims {} bytes for a block of {size}", prev.size);
        let q = self.do_alloc(Layout { size: n, align: prev.align });
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p as *const u8, q as *mut u8, size.min(n));
            self.do_free(p);
        }
        q
    }
}
impl HAlloc for stabby_abi::alloc::allocators::RustAlloc {
    const NAME: &'static str = "RustAlloc";
    fn mk() -> Self {
        Self::new()
    }
}
impl HAlloc for stabby_abi::alloc::allocators::LibcAlloc {
    const NAME: &'static str = "LibcAlloc";
    fn mk() -> Self {
        Self::new()
    }
}
pub use stabby_abi::alloc::allocators::{LibcAlloc, RustAlloc};

// ------------------------------------------------------------------------------- histories
#[derive(Clone, Debug)]
pub struct Ev<O> {
    pub t: usize,
    pub op: O,
    t0: u64,
    t1: u64,
    v0: VC,
    v1: VC,
}
static mut HIST: Vec<(usize, u64, u64, VC, VC, [u64; 5])> = Vec::new();
pub struct Open(u64, VC);
pub fn invoke() -> Open {
    Open(now(), stamp_vc())
}
/// Records one completed operation, encoded in five words.
pub fn respond(o: Open, op: [u64; 5]) {
    let v1 = stamp_vc();
    let t1 = now();
    outside(|| unsafe { (*core::ptr::addr_of_mut!(HIST)).push((me(), o.0, t1, o.1, v1, op)) });
    log(|| format!("{op:?}"));
}
/// Is there an order of the recorded operations, compatible with the order in which they really took
/// place (happens-before in runs with stale reads), that the sequential `model` allows?
pub fn linearizable<M: Clone + std::hash::Hash + Eq>(init: M, step: impl Fn(&M, &[u64; 5]) -> Option<M>, what: &str) {
    outside(|| {
        let h = unsafe { &*core::ptr::addr_of!(HIST) };
        let n = h.len();
        assert!(n <= 60);
        let weak = is_weak();
        let before = |a: usize, b: usize| {
            let (x, y) = (&h[a], &h[b]);
            if weak {
                // a's end happens before b's start
                x.4[x.0] <= y.3[x.0]
            } else {
                x.2 < y.1
            }
        };
        let mut preds = vec![0u64; n];
        for b in 0..n {
            for a in 0..n {
                if a != b && before(a, b) {
                    preds[b] |= 1 << a;
                }
            }
        }
        let full = if n == 64 { u64::MAX } else { (1u64 << n) - 1 };
        let mut seen: HashSet<(u64, M)> = HashSet::new();
        let mut stack = vec![(0u64, init)];
        let mut best = 0u64;
        while let Some((done, m)) = stack.pop() {
            if done == full {
                return;
            }
            if done.count_ones() > best.count_ones() {
                best = done;
            }
            for i in 0..n {
                if done & (1 << i) == 0 && preds[i] & !done == 0 {
                    if let Some(m2) = step(&m, &h[i].5) {
                        let k = (done | 1 << i, m2);
                        if seen.insert(k.clone()) {
                            stack.push(k);
                        }
                    }
                }
            }
            if seen.len() > 300_000 {
                discard("history too wide to check");
            }
        }
        let l: Vec<String> = h
            .iter()
            .enumerate()
            .map(|(i, e)| format!("{}t{} [{}..{}] {:?}", if best >> i & 1 == 1 { "" } else { "*" }, e.0, e.1, e.2, e.5))
            .collect();
        fail("not-linearizable", || format!("{what}: no sequential order explains {}", l.join("; ")));
    })
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(v.len())]
}
