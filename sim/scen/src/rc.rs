//! Reference counting: any mix of operations on any number of owners across threads.
use crate::h::*;
use simrt::*;
use stabby_abi::alloc::string::{ArcStr, String as SString, WeakStr};
use stabby_abi::alloc::sync::{Arc, ArcSlice, Weak, WeakSlice};
use stabby_abi::alloc::vec::Vec as SVec;

/// What the engine needs to know of a reference counted pointer. `v` is the value held.
pub trait Rc: Sized + 'static {
    type W: 'static;
    fn mk(v: u32) -> Self;
    fn cl(&self) -> Self;
    fn down(&self) -> Self::W;
    fn up(w: &Self::W) -> Option<Self>;
    fn wcl(w: &Self::W) -> Self::W;
    /// A strong owner whether or not there are others, for contents that outlive theirs.
    fn force(_w: &Self::W) -> Option<Self> {
        None
    }
    fn addr(&self) -> usize;
    fn read(&self) -> u32;
    fn try_write(&mut self, v: u32) -> bool;
    /// Copy on write; `false` if the type has no such operation.
    fn make_mut(&mut self, _v: u32) -> Option<u32> {
        None
    }
    fn unwrap(self) -> Result<u32, Self>;
    fn unique(&self) -> bool;
    fn counts(&self) -> Option<(usize, usize)>;
    fn raw(self) -> Self {
        self
    }
    fn wraw(w: Self::W) -> Self::W {
        w
    }
    /// A clone and a weak clone through the raw counters.
    fn cl_raw(&self) -> Self {
        self.cl()
    }
    fn down_raw(&self) -> Self::W {
        self.down()
    }
}

impl<A: HAlloc> Rc for Arc<Tok, A> {
    type W = Weak<Tok, A>;
    fn mk(v: u32) -> Self {
        if chance(1, 2) {
            Arc::new_in(Tok::new(v), A::mk())
        } else {
            unsafe { Arc::make_in(|s| Ok(s.write(Tok::new(v))), A::mk()) }.ok().unwrap()
        }
    }
    fn cl(&self) -> Self {
        if chance(1, 4) {
            Arc::from(self)
        } else {
            self.clone()
        }
    }
    fn down(&self) -> Self::W {
        Arc::downgrade(self)
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn wcl(w: &Self::W) -> Self::W {
        if chance(1, 4) {
            Weak::from(w)
        } else {
            w.clone()
        }
    }
    fn addr(&self) -> usize {
        &**self as *const Tok as usize
    }
    fn read(&self) -> u32 {
        self.v()
    }
    fn try_write(&mut self, v: u32) -> bool {
        match Arc::get_mut(self) {
            Some(t) => {
                t.set(v);
                true
            }
            None => false,
        }
    }
    fn make_mut(&mut self, v: u32) -> Option<u32> {
        let m = Arc::make_mut(self);
        let old = m.v();
        m.set(v);
        Some(old)
    }
    fn unwrap(self) -> Result<u32, Self> {
        Arc::try_into_inner(self).map(|t| t.v())
    }
    fn unique(&self) -> bool {
        Arc::is_unique(self)
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((Arc::strong_count(self), Arc::weak_count(self)))
    }
    fn raw(self) -> Self {
        unsafe { Arc::from_raw(Arc::into_raw(self)) }
    }
    fn wraw(w: Self::W) -> Self::W {
        unsafe { Weak::from_raw(Weak::into_raw(w)) }
    }
    fn cl_raw(&self) -> Self {
        unsafe {
            Arc::<Tok, A>::increment_strong_count(&**self);
            core::ptr::read(self)
        }
    }
    fn down_raw(&self) -> Self::W {
        unsafe {
            Arc::increment_weak_count(self);
            let raw = core::mem::ManuallyDrop::new(core::ptr::read(self));
            Weak::from_raw(Arc::into_raw(core::mem::ManuallyDrop::into_inner(raw)))
        }
    }
}

fn slice_val<A: HAlloc>(s: &[Tok]) -> u32 {
    let v = s[0].v();
    for (i, t) in s.iter().enumerate() {
        check!(t.v() == v + i as u32, "torn-slice", "element {i} is {} in a slice starting at {v}", t.v());
    }
    check!(s.len() == 1 + (v as usize / 16) % 3, "torn-slice", "length {} for a slice starting at {v}", s.len());
    v
}
fn slice_vec<A: HAlloc>(v: u32) -> SVec<Tok, A> {
    let n = 1 + (v as usize / 16) % 3;
    let mut s = SVec::with_capacity_in(n + choose(3), A::mk());
    for i in 0..n {
        s.push(Tok::new(v + i as u32));
    }
    s
}
impl<A: HAlloc> Rc for ArcSlice<Tok, A> {
    type W = WeakSlice<Tok, A>;
    fn mk(v: u32) -> Self {
        let v = v * 16;
        if chance(1, 4) && (v as usize / 16) % 3 == 0 {
            return Arc::new_in(Tok::new(v), A::mk()).into();
        }
        slice_vec::<A>(v).into()
    }
    fn cl(&self) -> Self {
        if chance(1, 4) {
            ArcSlice::from(self)
        } else {
            self.clone()
        }
    }
    fn down(&self) -> Self::W {
        self.into()
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn wcl(w: &Self::W) -> Self::W {
        if chance(1, 4) {
            WeakSlice::from(w)
        } else {
            w.clone()
        }
    }
    fn addr(&self) -> usize {
        self.as_ptr() as usize
    }
    fn read(&self) -> u32 {
        slice_val::<A>(self) / 16
    }
    fn try_write(&mut self, v: u32) -> bool {
        let v = v * 16;
        let n = self.len();
        match self.as_slice_mut() {
            Some(s) => {
                // keep the length a function of the value
                let v = v - v % 48 + (n as u32 - 1) * 16;
                for (i, t) in s.iter_mut().enumerate() {
                    t.set(v + i as u32);
                }
                true
            }
            None => false,
        }
    }
    fn unwrap(self) -> Result<u32, Self> {
        let n = self.len();
        SVec::try_from(self).map(|v| {
            check!(v.len() == n, "conversion", "slice of {n} became a vector of {}", v.len());
            check!(v.capacity() >= n, "conversion", "vector of {n} with capacity {}", v.capacity());
            slice_val::<A>(&v) / 16
        })
    }
    fn unique(&self) -> bool {
        ArcSlice::is_unique(self)
    }
    fn counts(&self) -> Option<(usize, usize)> {
        Some((ArcSlice::strong_count(self), ArcSlice::weak_count(self)))
    }
    fn raw(self) -> Self {
        unsafe { ArcSlice::from_raw(ArcSlice::into_raw(self)) }
    }
}
const WORDS: [&str; 4] = ["a", "bc", "déf", "ghijklmno"];
impl<A: HAlloc> Rc for ArcStr<A> {
    type W = WeakStr<A>;
    fn mk(v: u32) -> Self {
        let mut s = SString::new_in(A::mk());
        s += WORDS[v as usize % 4];
        if chance(1, 2) {
            s += "";
        }
        s.into()
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn down(&self) -> Self::W {
        self.into()
    }
    fn up(w: &Self::W) -> Option<Self> {
        w.upgrade()
    }
    fn wcl(w: &Self::W) -> Self::W {
        w.clone()
    }
    fn force(w: &Self::W) -> Option<Self> {
        Some(w.force_upgrade())
    }
    fn addr(&self) -> usize {
        self.as_str().as_ptr() as usize
    }
    fn read(&self) -> u32 {
        let s = self.as_str();
        match WORDS.iter().position(|w| w.eq_ignore_ascii_case(s)) {
            Some(p) => p as u32,
            None => fail("torn-string", || format!("string reads {:?}", s.as_bytes())),
        }
    }
    fn try_write(&mut self, _v: u32) -> bool {
        match self.as_str_mut() {
            Some(s) => {
                s.make_ascii_uppercase();
                s.make_ascii_lowercase();
                true
            }
            None => false,
        }
    }
    fn unwrap(self) -> Result<u32, Self> {
        let r = self.read();
        SString::try_from(self).map(|s| {
            check!(s.as_str() == WORDS[r as usize], "conversion", "string became {:?}", s.as_str());
            r
        })
    }
    fn unique(&self) -> bool {
        ArcStr::is_unique(self)
    }
    fn counts(&self) -> Option<(usize, usize)> {
        None
    }
}

/// Ghost accounting of one reference counted value. Narrow: from the end of the creation of a
/// reference to the start of its release; broad: from the start to the end.
#[derive(Default, Clone, Copy)]
struct Ghost {
    ns: i64,
    bs: i64,
    nw: i64,
    bw: i64,
    /// how often the narrow strong count fell to 0
    zeros: u64,
    /// how often the broad count of references other than one's own was non zero: bumped at every
    /// broad increment
    births: u64,
    deaths: u64,
    /// revived after its last strong owner was gone, maybe
    forced: bool,
}
static mut G: Vec<Ghost> = Vec::new();
fn g(i: usize) -> &'static mut Ghost {
    unsafe { &mut (*core::ptr::addr_of_mut!(G))[i] }
}
fn new_ghost() -> usize {
    outside(|| unsafe {
        let v = &mut *core::ptr::addr_of_mut!(G);
        v.push(Ghost { ns: 1, bs: 1, ..Default::default() });
        v.len() - 1
    })
}
fn dec_ns(i: usize) {
    let x = g(i);
    x.ns -= 1;
    x.deaths += 1;
    if x.ns == 0 {
        x.zeros += 1;
    }
}
struct S<R: Rc>(R, usize);
struct WK<R: Rc>(R::W, usize);

fn mk_s<R: Rc>(v: u32) -> S<R> {
    S(R::mk(v), new_ghost())
}
fn clone_s<R: Rc>(s: &S<R>) -> S<R> {
    let i = s.1;
    g(i).bs += 1;
    g(i).births += 1;
    let r = if chance(1, 6) { s.0.cl_raw() } else { s.0.cl() };
    g(i).ns += 1;
    check!(r.addr() == s.0.addr(), "clone", "a clone points elsewhere");
    S(r, i)
}
fn drop_s<R: Rc>(s: S<R>) {
    let i = s.1;
    dec_ns(i);
    drop(s.0);
    g(i).bs -= 1;
}
fn down_s<R: Rc>(s: &S<R>) -> WK<R> {
    let i = s.1;
    g(i).bw += 1;
    g(i).births += 1;
    let w = if chance(1, 6) { s.0.down_raw() } else { s.0.down() };
    g(i).nw += 1;
    WK(w, i)
}
fn clone_w<R: Rc>(w: &WK<R>) -> WK<R> {
    let i = w.1;
    g(i).bw += 1;
    g(i).births += 1;
    let r = R::wcl(&w.0);
    g(i).nw += 1;
    WK(r, i)
}
fn drop_w<R: Rc>(w: WK<R>) {
    let i = w.1;
    g(i).nw -= 1;
    g(i).deaths += 1;
    drop(w.0);
    g(i).bw -= 1;
}
fn up_w<R: Rc>(w: &WK<R>) -> Option<S<R>> {
    let i = w.1;
    let (z0, n0) = (g(i).zeros, g(i).ns);
    let dead = g(i).bs == 0;
    g(i).bs += 1;
    g(i).births += 1;
    let b0 = g(i).births;
    let r = R::up(&w.0);
    match r {
        Some(a) => {
            // unless it was revived meanwhile
            check!(!(dead && g(i).births == b0), "resurrected", "a weak reference was upgraded although no strong one was left");
            g(i).ns += 1;
            a.read();
            probe("upgrade_ok");
            Some(S(a, i))
        }
        None => {
            g(i).bs -= 1;
            // a count that was brought back from 0 may still read 0 elsewhere
            check!(!(n0 > 0 && g(i).zeros == z0 && !(is_weak() && g(i).forced)), "upgrade-lost", "upgrade failed although a strong reference existed all along");
            probe("upgrade_none");
            None
        }
    }
}
fn force_w<R: Rc>(w: &WK<R>) -> Option<S<R>> {
    let i = w.1;
    g(i).bs += 1;
    g(i).births += 1;
    g(i).forced = true;
    match R::force(&w.0) {
        Some(a) => {
            g(i).ns += 1;
            a.read();
            Some(S(a, i))
        }
        None => {
            g(i).bs -= 1;
            None
        }
    }
}
fn sole(i: usize) -> bool {
    // with stale reads, a release that is over need not be visible yet
    !is_weak() && g(i).bs == 1 && g(i).bw == 0
}
fn shared(i: usize) -> bool {
    g(i).ns > 1 || g(i).nw > 0
}
fn write_s<R: Rc>(s: &mut S<R>, v: u32) {
    let i = s.1;
    let (sole0, b0) = (sole(i), g(i).births);
    let ok = s.0.try_write(v);
    if ok {
        check!(!shared(i), "not-unique", "mutable access granted while {} strong and {} weak references exist", g(i).ns, g(i).nw);
        probe("unique_yes");
    } else {
        check!(!(sole0 && g(i).births == b0), "unique-lost", "mutable access denied to the only owner");
        probe("unique_no");
    }
}
fn unique_s<R: Rc>(s: &S<R>) {
    let i = s.1;
    let (sole0, b0) = (sole(i), g(i).births);
    let (shared0, d0) = (shared(i) && !is_weak(), g(i).deaths);
    let ok = s.0.unique();
    if ok {
        check!(!(shared0 && g(i).deaths == d0), "not-unique", "claims to be unique while {} strong and {} weak references exist", g(i).ns, g(i).nw);
    } else {
        check!(!(sole0 && g(i).births == b0), "unique-lost", "the only owner is not unique");
    }
}
fn make_mut_s<R: Rc>(s: &mut S<R>, v: u32) {
    let i = s.1;
    let before = s.0.addr();
    let old = s.0.read();
    let (sole0, b0) = (sole(i), g(i).births);
    dec_ns(i);
    match s.0.make_mut(v) {
        None => g(i).ns += 1,
        Some(seen) => {
            check!(seen == old, "copy-on-write", "the copy holds {seen}, the original {old}");
            if s.0.addr() == before {
                g(i).ns += 1;
                check!(!shared(i), "not-unique", "make_mut did not copy while {} strong and {} weak references exist", g(i).ns, g(i).nw);
            } else {
                check!(!(sole0 && g(i).births == b0), "unique-lost", "make_mut copied the value of its only owner");
                g(i).bs -= 1;
                s.1 = new_ghost();
                probe("cow_copied");
            }
            check!(s.0.read() == v, "copy-on-write", "wrote {v}, reads {}", s.0.read());
        }
    }
}
fn unwrap_s<R: Rc>(s: S<R>) -> Option<S<R>> {
    let i = s.1;
    let (sole0, b0) = (sole(i), g(i).births);
    let before = s.0.read();
    dec_ns(i);
    match s.0.unwrap() {
        Ok(v) => {
            check!(g(i).ns == 0 && g(i).nw == 0, "not-unique", "moved out while {} strong and {} weak references exist", g(i).ns, g(i).nw);
            check!(v == before, "moved-value", "moved out {v} instead of {before}");
            g(i).bs -= 1;
            probe("unwrap_ok");
            None
        }
        Err(r) => {
            g(i).ns += 1;
            check!(!(sole0 && g(i).births == b0), "unique-lost", "the only owner could not move the value out");
            Some(S(r, i))
        }
    }
}

struct Bag<R: Rc> {
    s: Vec<S<R>>,
    w: Vec<WK<R>>,
}
// harness containers live outside of the simulation
macro_rules! push {
    ($v: expr, $x: expr) => {{
        let x = $x;
        outside(|| $v.push(x))
    }};
}
fn take<T>(v: &mut Vec<T>) -> Option<T> {
    if v.is_empty() {
        return None;
    }
    let i = choose(v.len());
    Some(outside(|| v.remove(i)))
}
fn ops<R: Rc>(bag: &mut Bag<R>, n: usize, shared_ref: Option<&'static S<R>>, mail: usize, mix: &[u8]) {
    for _ in 0..n {
        let op = mix[choose(mix.len())];
        let ls = bag.s.len();
        let lw = bag.w.len();
        match op {
            0 if ls > 0 => {
                let x = clone_s(&bag.s[choose(ls)]);
                push!(bag.s, x)
            }
            1 if ls > 0 => drop_s(take(&mut bag.s).unwrap()),
            2 if ls > 0 => {
                let x = down_s(&bag.s[choose(ls)]);
                push!(bag.w, x)
            }
            3 if lw > 0 => {
                if let Some(x) = up_w(&bag.w[choose(lw)]) {
                    push!(bag.s, x)
                }
            }
            17 if lw > 0 => {
                if let Some(x) = force_w(&bag.w[choose(lw)]) {
                    push!(bag.s, x)
                }
            }
            4 if lw > 0 => {
                let x = clone_w(&bag.w[choose(lw)]);
                push!(bag.w, x)
            }
            5 if lw > 0 => drop_w(take(&mut bag.w).unwrap()),
            6 if ls > 0 => {
                let k = choose(ls);
                let v = 4 + choose(40) as u32;
                write_s(&mut bag.s[k], v)
            }
            7 if ls > 0 => {
                let k = choose(ls);
                make_mut_s(&mut bag.s[k], 100 + choose(40) as u32)
            }
            8 if ls > 0 => {
                if let Some(s) = unwrap_s(take(&mut bag.s).unwrap()) {
                    push!(bag.s, s)
                }
            }
            9 if ls > 0 => unique_s(&bag.s[choose(ls)]),
            10 if ls > 0 => {
                bag.s[choose(ls)].0.read();
            }
            11 if ls > 0 => {
                let S(r, i) = take(&mut bag.s).unwrap();
                push!(bag.s, S(r.raw(), i))
            }
            12 => {
                if let Some(s) = shared_ref {
                    match choose(4) {
                        0 => push!(bag.s, clone_s(s)),
                        1 => push!(bag.w, down_s(s)),
                        2 => unique_s(s),
                        _ => {
                            s.0.read();
                        }
                    }
                }
            }
            13 if ls > 0 => {
                // hand over to whoever picks it up
                let s = take(&mut bag.s).unwrap();
                let b: Box<dyn core::any::Any> = outside(|| Box::new(s));
                release(mail);
                outside(|| mailbox().push(b));
            }
            14 => {
                if let Some(b) = outside(|| mailbox().pop()) {
                    acquire(mail);
                    let s = outside(|| *b.downcast::<S<R>>().ok().unwrap());
                    s.0.read();
                    push!(bag.s, s);
                }
            }
            15 if lw > 0 => {
                let WK(w, i) = take(&mut bag.w).unwrap();
                push!(bag.w, WK(R::wraw(w), i))
            }
            16 if ls > 0 => {
                let k = choose(ls);
                if let Some((s, w)) = bag.s[k].0.counts() {
                    check!(s >= 1 && w >= 1 && s < 64 && w < 64, "count", "an owner sees counts {s}, {w}");
                }
            }
            _ => {}
        }
    }
}
static mut MAIL: Vec<Box<dyn core::any::Any>> = Vec::new();
fn mailbox() -> &'static mut Vec<Box<dyn core::any::Any>> {
    unsafe { &mut *core::ptr::addr_of_mut!(MAIL) }
}
const MIXES: [&[u8]; 7] = [
    &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16],
    &[1, 1, 17, 17, 5, 5, 3, 10, 6, 8],
    &[0, 1, 1, 1, 10, 12, 13, 14],
    &[1, 2, 3, 3, 3, 4, 5, 10],
    &[1, 5, 6, 7, 8, 9, 2, 3],
    &[1, 3, 6, 6, 8, 5],
    &[1, 5, 3, 7, 9, 0, 12],
];

pub fn engine<R: Rc>() {
    run(|| {
        set_faults(false);
        outside(|| unsafe {
            (*core::ptr::addr_of_mut!(G)).clear();
            mailbox().clear();
        });
        let nt = 2 + choose(2);
        let first = mk_s::<R>(1 + choose(3) as u32);
        // what the others may borrow
        let lent: Option<&'static S<R>> = if chance(1, 3) {
            let c = clone_s(&first);
            Some(outside(|| Box::leak(Box::new(c))))
        } else {
            None
        };
        let mut bags: Vec<Bag<R>> = Vec::new();
        for _ in 0..nt {
            let mut b = Bag { s: Vec::new(), w: Vec::new() };
            let ns = choose(3);
            for _ in 0..ns {
                push!(b.s, clone_s(&first));
            }
            let nw = choose(3);
            for _ in 0..nw {
                push!(b.w, down_s(&first));
            }
            outside(|| bags.push(b));
        }
        let mut mine = Bag { s: Vec::new(), w: Vec::new() };
        match choose(3) {
            0 => push!(mine.s, first),
            1 => {
                push!(mine.w, down_s(&first));
                push!(mine.s, first);
            }
            _ => drop_s(first),
        }
        let keep = chance(1, 2);
        let mut ids = [0usize; 3];
        let mut back: [*mut Bag<R>; 3] = [core::ptr::null_mut(); 3];
        for t in 0..nt {
            let b = outside(|| Box::into_raw(Box::new(bags.remove(0))));
            back[t] = b;
            let n = 1 + choose(7);
            let mix = MIXES[choose(MIXES.len())];
            ids[t] = spawn(move || {
                let bag = unsafe { &mut *b };
                ops(bag, n, lent, 1, mix);
                if !keep {
                    while let Some(s) = take(&mut bag.s) {
                        drop_s(s);
                    }
                    while let Some(w) = take(&mut bag.w) {
                        drop_w(w);
                    }
                }
            });
        }
        let n = choose(5);
        let mix = MIXES[choose(MIXES.len())];
        ops(&mut mine, n, lent, 1, mix);
        for t in 0..nt {
            join_thread(ids[t]);
        }
        // quiescent: counts are exact
        for t in 0..nt {
            let b = outside(|| *unsafe { Box::from_raw(back[t]) });
            let Bag { s, w } = b;
            outside(|| {
                mine.s.extend(s);
                mine.w.extend(w);
            });
        }
        while let Some(b) = outside(|| mailbox().pop()) {
            let s = outside(|| *b.downcast::<S<R>>().ok().unwrap());
            push!(mine.s, s);
        }
        if let Some(l) = lent {
            let s = outside(|| *unsafe { Box::from_raw(l as *const S<R> as *mut S<R>) });
            push!(mine.s, s);
        }
        for S(r, i) in mine.s.iter() {
            r.read();
            check!(g(*i).ns == g(*i).bs && g(*i).nw == g(*i).bw, "harness", "ghost accounting is off");
            if let Some((s, w)) = r.counts() {
                check!(s as i64 == g(*i).ns, "count", "strong count {s} with {} strong references", g(*i).ns);
                check!(w as i64 == g(*i).nw + 1, "count", "weak count {w} with {} weak references", g(*i).nw);
            }
        }
        for k in 0..mine.s.len() {
            write_s(&mut mine.s[k], 7);
        }
        for k in 0..mine.w.len() {
            if let Some(s) = up_w(&mine.w[k]) {
                drop_s(s);
            }
        }
        while let Some(s) = take(&mut mine.s) {
            drop_s(s);
        }
        while let Some(w) = take(&mut mine.w) {
            check!(up_w(&w).is_none(), "resurrected", "upgraded with no strong reference left");
            drop_w(w);
        }
        outside(|| drop(mine));
    })
}
pub fn arc_sa() {
    engine::<Arc<Tok, SA>>()
}
pub fn arc_rust() {
    engine::<Arc<Tok, RustAlloc>>()
}
pub fn arc_libc() {
    engine::<Arc<Tok, LibcAlloc>>()
}
pub fn slice_sb() {
    engine::<ArcSlice<Tok, SB>>()
}
pub fn slice_rust() {
    engine::<ArcSlice<Tok, RustAlloc>>()
}
pub fn str_sa() {
    engine::<ArcStr<SA>>()
}
pub fn str_rust() {
    engine::<ArcStr<RustAlloc>>()
}

/// Owners of one value turn it into slices, vectors and back while others use it.
pub fn arc_to_slice() {
    run(|| {
        set_faults(false);
        let a = Arc::new_in(Tok::new(48), SA::mk());
        let nt = 2;
        let mut ids = [0; 2];
        for t in 0..nt {
            let mine = a.clone();
            let weak = if chance(1, 3) { Some(Arc::downgrade(&a)) } else { None };
            let k = choose(4);
            ids[t] = spawn(move || {
                if k == 0 {
                    mine.v();
                    drop(mine);
                    return;
                }
                let s: ArcSlice<Tok, SA> = mine.into();
                check!(s.len() == 1 && s[0].v() == 48, "conversion", "slice of length {}", s.len());
                let s2 = if k == 2 { Some(s.clone()) } else { None };
                match SVec::try_from(s) {
                    Ok(v) => {
                        check!(v.len() == 1 && v.capacity() == 1 && v[0].v() == 48, "conversion", "vector of {} / {}", v.len(), v.capacity());
                        check!(s2.is_none(), "not-unique", "a shared slice became a vector");
                        let mut v = v;
                        if k == 3 {
                            v.push(Tok::new(49));
                            check!(v[0].v() == 48 && v[1].v() == 49, "conversion", "vector contents");
                        }
                    }
                    Err(s) => {
                        check!(s[0].v() == 48, "conversion", "slice contents");
                    }
                }
                if let Some(w) = weak {
                    if let Some(a) = w.upgrade() {
                        a.v();
                    }
                }
                if let Some(s) = s2 {
                    s[0].v();
                }
            });
        }
        if chance(1, 2) {
            a.v();
            drop(a);
        } else {
            let s: ArcSlice<Tok, SA> = a.into();
            s[0].v();
        }
        for i in ids {
            join_thread(i);
        }
    })
}
