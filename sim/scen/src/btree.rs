//! Copy-on-write trees: snapshots against a model, under contention, allocation failures and panics;
//! and the atomic set as a linearizable set.
use crate::h::*;
use simrt::*;
use stabby_abi::alloc::collections::arc_btree::{ArcBTreeMap, ArcBTreeSet, AtomicArcBTreeSet};
use std::collections::BTreeMap;

/// Sets and maps behind one interface. Payloads of sets are always 0.
trait Tree: Sized + 'static {
    const MAP: bool;
    fn mk() -> Self;
    fn cl(&self) -> Self;
    /// The payload that was there / that was handed back.
    fn ins(&mut self, k: Tok, v: u32) -> Option<(u32, u32)>;
    fn find(&self, k: &Tok) -> Option<u32>;
    fn n(&self) -> Option<usize>;
    fn dbg(&self) -> Option<String> {
        None
    }
    fn empty(&self) -> Option<bool>;
}
impl<A: HAlloc, const L: usize> Tree for ArcBTreeSet<Tok, A, false, L> {
    const MAP: bool = false;
    fn mk() -> Self {
        ArcBTreeSet::from_alloc(A::mk())
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn ins(&mut self, k: Tok, _: u32) -> Option<(u32, u32)> {
        let id = k.id();
        let made = toks_made();
        let r = self.insert(k);
        r.map(|t| {
            check!(t.id() == id, "set-insert", "an instance other than the one inserted was handed back");
            if !is_mt() {
                check!(toks_made() == made, "set-insert", "inserting a present value cloned something");
            }
            (t.v(), 0)
        })
    }
    fn find(&self, k: &Tok) -> Option<u32> {
        self.get(k).map(|t| {
            check!(t.v() == k.v(), "get", "looking {} up found {}", k.v(), t.v());
            0
        })
    }
    fn n(&self) -> Option<usize> {
        Some(self.len())
    }
    fn empty(&self) -> Option<bool> {
        Some(self.is_empty())
    }
    fn dbg(&self) -> Option<String> {
        Some(format!("{self:?}"))
    }
}
/// The replacing flavour, as a set.
struct Rep<A: HAlloc, const L: usize>(ArcBTreeSet<Tok, A, true, L>);
impl<A: HAlloc, const L: usize> Tree for Rep<A, L> {
    const MAP: bool = false;
    fn mk() -> Self {
        Rep(ArcBTreeSet::from_alloc(A::mk()))
    }
    fn cl(&self) -> Self {
        Rep(self.0.clone())
    }
    fn ins(&mut self, k: Tok, _: u32) -> Option<(u32, u32)> {
        let id = k.id();
        let v = k.v();
        let r = self.0.insert(k);
        if let Some(t) = &r {
            check!(t.id() != id, "set-insert", "the instance inserted was handed back instead of the one replaced");
            check!(t.v() == v, "set-insert", "inserting {v} replaced {}", t.v());
        }
        r.map(|t| (t.v(), 0))
    }
    fn find(&self, k: &Tok) -> Option<u32> {
        self.0.get(k).map(|t| {
            check!(t.v() == k.v(), "get", "looking {} up found {}", k.v(), t.v());
            0
        })
    }
    fn n(&self) -> Option<usize> {
        Some(self.0.len())
    }
    fn empty(&self) -> Option<bool> {
        Some(self.0.is_empty())
    }
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}", self.0))
    }
}
impl<A: HAlloc, const L: usize> Tree for ArcBTreeMap<Tok, Tok, A, L> {
    const MAP: bool = true;
    fn mk() -> Self {
        ArcBTreeMap::from_alloc(A::mk())
    }
    fn cl(&self) -> Self {
        self.clone()
    }
    fn ins(&mut self, k: Tok, v: u32) -> Option<(u32, u32)> {
        let kv = k.v();
        let v = Tok::new(v);
        self.insert(k, v).map(|t| (kv, t.v()))
    }
    fn find(&self, k: &Tok) -> Option<u32> {
        self.get(k).map(|t| t.v())
    }
    fn n(&self) -> Option<usize> {
        None
    }
    fn empty(&self) -> Option<bool> {
        None
    }
}
struct H<T: Tree> {
    t: T,
    m: BTreeMap<u32, u32>,
}
fn verify<T: Tree>(h: &H<T>, keys: u32, what: &str) {
    for k in 0..keys {
        let q = Tok::new(k);
        let got = h.t.find(&q);
        drop(q);
        check!(got == h.m.get(&k).copied(), "content", "{what}: key {k} maps to {got:?}, expected {:?}", h.m.get(&k));
    }
    if let Some(n) = h.t.n() {
        check!(n == h.m.len(), "length", "{what}: length {n}, expected {}", h.m.len());
    }
    if let Some(e) = h.t.empty() {
        check!(e == h.m.is_empty(), "length", "{what}: is_empty {e}, expected {}", h.m.is_empty());
    }
    if let Some(s) = h.t.dbg() {
        let want: Vec<u32> = outside(|| h.m.keys().copied().collect());
        let got: Vec<u32> = outside(|| s.split(|c: char| !c.is_ascii_digit()).filter_map(|x| x.parse().ok()).collect());
        check!(got == want, "order", "{what}: in-order contents {got:?}, expected {want:?}");
        outside(|| drop((want, got)));
    }
}
/// Reads what a tree holds after an operation on it panicked.
fn resync<T: Tree>(h: &mut H<T>, k: u32, v: u32, keys: u32) {
    let mut m = BTreeMap::new();
    for q in 0..keys {
        let t = Tok::new(q);
        if let Some(x) = h.t.find(&t) {
            check!(
                h.m.get(&q) == Some(&x) || (q == k && x == v),
                "content",
                "after a failed insertion key {q} maps to {x}, was {:?}",
                h.m.get(&q)
            );
            outside(|| m.insert(q, x));
        }
        drop(t);
    }
    outside(|| h.m = m);
    verify(h, keys, "after a failed insertion");
}
struct Cfg {
    keys: u32,
    ops: usize,
    panics: bool,
}
fn work<T: Tree>(hs: &mut Vec<H<T>>, c: &Cfg, lent: Option<&'static H<T>>) -> bool {
    let mut hurt = false;
    for _ in 0..c.ops {
        let n = hs.len();
        let op = choose(8);
        match op {
            0..=3 if n > 0 => {
                let i = choose(n);
                let h = &mut hs[i];
                let k = choose(c.keys as usize) as u32;
                let v = if T::MAP { choose(50) as u32 } else { 0 };
                let key = Tok::new(k);
                let was = h.m.get(&k).copied();
                if c.panics {
                    set_faults(true);
                    reg().panics = true;
                }
                let r = catch(|| h.t.ins(key, v));
                if c.panics {
                    set_faults(false);
                    reg().panics = false;
                }
                match r {
                    Some(r) => {
                        check!(r == was.map(|w| (k, w)), "insert", "inserting {k} returned {r:?}, it held {was:?}");
                        outside(|| h.m.insert(k, v));
                        if was.is_some() {
                            probe("present");
                        }
                    }
                    None => {
                        probe("insert_failed");
                        hurt = true;
                        resync(h, k, v, c.keys);
                    }
                }
            }
            4 if n > 0 && n < 6 => {
                let i = choose(n);
                let t = hs[i].t.cl();
                outside(|| {
                    let m = hs[i].m.clone();
                    hs.push(H { t, m })
                });
            }
            5 if n > 1 => {
                let i = choose(n);
                let H { t, m } = outside(|| hs.remove(i));
                drop(t);
                outside(|| drop(m));
            }
            6 if n > 0 => {
                let i = choose(n);
                let k = choose(c.keys as usize) as u32;
                let q = Tok::new(k);
                let got = hs[i].t.find(&q);
                check!(got == hs[i].m.get(&k).copied(), "content", "key {k} maps to {got:?}, expected {:?}", hs[i].m.get(&k));
            }
            7 => {
                if let Some(l) = lent {
                    if chance(1, 2) {
                        let t = l.t.cl();
                        outside(|| hs.push(H { t, m: l.m.clone() }));
                    } else {
                        let k = choose(c.keys as usize) as u32;
                        let q = Tok::new(k);
                        let got = l.t.find(&q);
                        check!(got == l.m.get(&k).copied(), "content", "shared tree: key {k} maps to {got:?}");
                    }
                }
            }
            _ => {}
        }
    }
    hurt
}
fn done<T: Tree>(hs: &mut Vec<H<T>>, keys: u32) {
    while let Some(h) = outside(|| hs.pop()) {
        verify(&h, keys, "at the end");
        let H { t, m } = h;
        drop(t);
        outside(|| drop(m));
    }
}
fn single<T: Tree>() {
    run(|| {
        let c = Cfg { keys: pick(&[6, 12, 24, 40]), ops: 5 + choose(60), panics: true };
        set_faults(false);
        let mut hs: Vec<H<T>> = Vec::new();
        let t = T::mk();
        outside(|| {
            hs.reserve(16);
            hs.push(H { t, m: BTreeMap::new() })
        });
        let hurt = work(&mut hs, &c, None);
        for h in hs.iter() {
            verify(h, c.keys, "after the operations");
        }
        done(&mut hs, c.keys);
        outside(|| drop(hs));
        if hurt && reg().panicked > 0 {
            // a panicking clone or comparison may leak, not corrupt
            forgive();
        }
    })
}
fn multi<T: Tree>() {
    run(|| {
        set_faults(false);
        let keys = pick(&[6u32, 12, 20]);
        let mut h = H { t: T::mk(), m: BTreeMap::new() };
        for _ in 0..choose(14) {
            let k = choose(keys as usize) as u32;
            h.t.ins(Tok::new(k), 1);
            outside(|| h.m.insert(k, T::MAP as u32));
        }
        let lent: Option<&'static H<T>> = if chance(1, 2) {
            let t = h.t.cl();
            Some(outside(|| Box::leak(Box::new(H { t, m: h.m.clone() }))))
        } else {
            None
        };
        let nt = 2 + choose(2);
        let mut ids = [0; 3];
        for i in 0..nt {
            let mut hs: Vec<H<T>> = Vec::new();
            outside(|| hs.reserve(32));
            for _ in 0..1 + choose(2) {
                let t = h.t.cl();
                outside(|| hs.push(H { t, m: h.m.clone() }));
            }
            let ops = 1 + choose(6);
            ids[i] = spawn(move || {
                let mut hs = hs;
                work(&mut hs, &Cfg { keys, ops, panics: false }, lent);
                done(&mut hs, keys);
                outside(|| drop(hs));
            });
        }
        let mut hs: Vec<H<T>> = Vec::new();
        outside(|| {
            hs.reserve(32);
            hs.push(h);
        });
        work(&mut hs, &Cfg { keys, ops: choose(6), panics: false }, lent);
        done(&mut hs, keys);
        outside(|| drop(hs));
        for i in 0..nt {
            join_thread(ids[i]);
        }
        if let Some(l) = lent {
            let H { t, m } = *unsafe { Box::from_raw(l as *const H<T> as *mut H<T>) };
            let h = H { t, m };
            verify(&h, keys, "the shared tree");
            drop(h.t);
            outside(|| drop(h.m));
        }
    })
}
pub fn set_single() {
    match choose(3) {
        0 => single::<ArcBTreeSet<Tok, SA, false, 3>>(),
        1 => single::<ArcBTreeSet<Tok, SA, false, 5>>(),
        _ => single::<ArcBTreeSet<Tok, SB, false, 7>>(),
    }
}
pub fn rep_single() {
    match choose(3) {
        0 => single::<Rep<SA, 3>>(),
        1 => single::<Rep<SA, 5>>(),
        _ => single::<Rep<SB, 7>>(),
    }
}
pub fn map_single() {
    match choose(2) {
        0 => single::<ArcBTreeMap<Tok, Tok, SA, 3>>(),
        _ => single::<ArcBTreeMap<Tok, Tok, SA, 5>>(),
    }
}
pub fn set_multi() {
    match choose(3) {
        0 => multi::<ArcBTreeSet<Tok, SA, false, 3>>(),
        1 => multi::<ArcBTreeSet<Tok, RustAlloc, false, 5>>(),
        _ => multi::<Rep<SA, 3>>(),
    }
}
pub fn map_multi() {
    match choose(2) {
        0 => multi::<ArcBTreeMap<Tok, Tok, SA, 3>>(),
        _ => multi::<ArcBTreeMap<Tok, Tok, RustAlloc, 5>>(),
    }
}

// ------------------------------------------------------------------------------- the atomic set
const K_INS: u64 = 0;
const K_GET: u64 = 1;
const K_TWO: u64 = 2;
const K_NOP: u64 = 3;
fn step(m: &u64, e: &[u64; 5]) -> Option<u64> {
    let [k, a, b, r, _] = *e;
    match k {
        K_INS => ((m >> a & 1) == r).then_some(m | 1 << a),
        K_GET => ((m >> a & 1) == r).then_some(*m),
        K_TWO => ((m >> a & 1) | (m >> b & 1) << 1 == r).then_some(m | 1 << a | 1 << b),
        _ => (m.count_ones() as u64 == r).then_some(*m),
    }
}
fn atomic<const R: bool, const L: usize>(faulty: bool) {
    type S<const R: bool, const L: usize> = AtomicArcBTreeSet<Tok, R, L>;
    run(|| {
        set_faults(false);
        let set: &'static S<R, L> = Box::leak(Box::new(S::<R, L>::new()));
        let keys = pick(&[3usize, 6, 10]);
        let mut init = 0u64;
        for _ in 0..choose(8) {
            let k = choose(keys);
            set.edit(|mut s| {
                s.insert(Tok::new(k as u32));
                s
            });
            init |= 1 << k;
        }
        let nt = 2 + choose(2);
        let mut ids = [0; 3];
        // failing allocations make an edit panic: nothing must have happened
        if faulty {
            set_faults(true);
        }
        for t in 0..nt {
            let n = 1 + choose(4);
            ids[t] = spawn(move || {
                for _ in 0..n {
                    let op = choose(5);
                    let k = choose(keys);
                    match op {
                        0 | 1 => {
                            let o = invoke();
                            let mut was = false;
                            let r = catch(|| {
                                set.edit(|mut s| {
                                    if faulty && fault("panic_edit") {
                                        std::panic::panic_any(Injected);
                                    }
                                    let t = Tok::new(k as u32);
                                    set_malloc_faults(faulty);
                                    let r = s.insert(t);
                                    set_malloc_faults(false);
                                    was = r.is_some();
                                    s
                                })
                            });
                            set_malloc_faults(false);
                            match r {
                                Some(()) => respond(o, [K_INS, k as u64, 0, was as u64, 0]),
                                None => probe("edit_failed"),
                            }
                        }
                        2 => {
                            let q = Tok::new(k as u32);
                            let mut got = false;
                            let o = invoke();
                            set.get(&q, |v| {
                                got = v.is_some();
                                if let Some(v) = v {
                                    check!(v.v() == k as u32, "get", "looking {k} up found {}", v.v());
                                }
                            });
                            respond(o, [K_GET, k as u64, 0, got as u64, 0]);
                            drop(q);
                        }
                        3 => {
                            let k2 = (k + 1 + choose(keys - 1)) % keys;
                            let mut was = 0;
                            let mut tries = 0;
                            let o = invoke();
                            set.edit(|mut s| {
                                tries += 1;
                                let a = s.insert(Tok::new(k as u32)).is_some();
                                let b = s.insert(Tok::new(k2 as u32)).is_some();
                                was = a as u64 | (b as u64) << 1;
                                s
                            });
                            respond(o, [K_TWO, k as u64, k2 as u64, was, 0]);
                            if tries > 1 {
                                probe("edit_retried");
                            }
                        }
                        _ => {
                            let mut n = 0;
                            let o = invoke();
                            set.edit(|s| {
                                n = s.len() as u64;
                                s
                            });
                            respond(o, [K_NOP, 0, 0, n, 0]);
                        }
                    }
                }
            });
        }
        for t in 0..nt {
            join_thread(ids[t]);
        }
        set_faults(false);
        for k in 0..keys {
            let q = Tok::new(k as u32);
            let mut got = false;
            let o = invoke();
            set.get(&q, |v| got = v.is_some());
            respond(o, [K_GET, k as u64, 0, got as u64, 0]);
            drop(q);
        }
        drop(unsafe { Box::from_raw(set as *const S<R, L> as *mut S<R, L>) });
        linearizable(init, step, "atomic set");
    })
}
pub fn atomic_set() {
    match choose(3) {
        0 => atomic::<false, 3>(false),
        1 => atomic::<false, 5>(false),
        _ => atomic::<true, 3>(false),
    }
}
pub fn atomic_faulty() {
    match choose(2) {
        0 => atomic::<false, 3>(true),
        _ => atomic::<true, 3>(true),
    }
}
