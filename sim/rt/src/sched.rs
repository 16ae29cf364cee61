//! Scheduler, decision source, C11-style memory model (vector clocks, stale loads), violations.
use crate::co::{self, Stack};
use crate::heap::{Heap, Kind};
use crate::rng::Rng;
use crate::shared::*;
use core::sync::atomic::Ordering::Relaxed;
use std::collections::BTreeMap;

pub const MAXT: usize = 8;
pub type VC = [u32; MAXT];

fn join(a: &mut VC, b: &VC) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Join(usize),
    Parked,
    Finished,
}

pub struct Thread {
    sp: usize,
    pub st: St,
    vc: VC,
    acq_pend: VC,
    rel_fence: VC,
    vis: VC,
    stack: usize,
    entry: Option<Box<dyn FnOnce()>>,
    token: bool,
    token_vc: VC,
    prio: i64,
    nopreempt: bool,
    streak: u32,
    faults: bool,
    pub mfaults: bool,
}

struct Store {
    val: u64,
    tid: usize,
    clk: u32,
    rel: Option<VC>,
}
struct Loc {
    size: usize,
    hist: Vec<Store>,
    base: u64,
    reads: Vec<(usize, u32, u64)>,
    ord: u32,
}

#[derive(Clone, Copy)]
enum Strategy {
    Uniform,
    Sticky(u64),
    Pct,
}

pub struct Sim {
    pub threads: Vec<Thread>,
    pub cur: usize,
    pub mt: bool,
    pub steps: u64,
    pub heap: Heap,
    driver_sp: usize,
    stacks: Vec<Stack>,
    free_stacks: Vec<usize>,
    locs: BTreeMap<usize, Loc>,
    next_ord: u32,
    gvis: VC,
    watched: Vec<usize>,
    // decisions
    pub generating: bool,
    rng: Rng,
    srng: Rng,
    replay: Vec<u16>,
    rpos: usize,
    strategy: Strategy,
    pct_points: Vec<u64>,
    rates: BTreeMap<&'static str, u64>,
    pub faults_left: u32,
    pub faults_fired: u32,
    pub switches: u64,
    pub contested: u64,
    stale_left: u32,
    /// How many weak compare-exchanges may still fail spuriously.
    spurious_left: u32,
    pub weak: bool,
    pub window_open: bool,
    pub faults_enabled: bool,
    pub malloc_fault_name: &'static str,
    pub leak_check: bool,
    pub hash: u64,
    pub clock_ns: i128,
    pub mono_ns: i128,
    pub trace_on: bool,
    pub cap: u64,
    pub switch_pts: u64,
    pub local: u64,
    chans: BTreeMap<usize, VC>,
}

pub static mut SIM: *mut Sim = core::ptr::null_mut();
/// True exactly while code on a simulated thread runs outside this crate.
pub static mut ACTIVE: bool = false;
pub static mut SLOT: *mut Slot = core::ptr::null_mut();
pub static mut SHARED: *mut Shared = core::ptr::null_mut();
pub static mut NAMES: &[&str] = &[];
pub static mut LOCAL_COUNTS: [u64; NCOUNT] = [0; NCOUNT];

#[inline(always)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn slot() -> &'static mut Slot {
    unsafe { &mut *SLOT }
}

/// Suspends simulation (instrumentation callbacks, simulated heap) while runtime or oracle code runs.
pub struct Rt(bool);
impl Rt {
    #[inline(always)]
    pub fn enter() -> Rt {
        unsafe {
            let p = ACTIVE;
            ACTIVE = false;
            Rt(p)
        }
    }
}
impl Drop for Rt {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { ACTIVE = self.0 }
    }
}
/// Runs oracle code outside the simulation.
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let _g = Rt::enter();
    f()
}

extern "C" {
    fn _exit(c: i32) -> !;
}

pub const EXIT_VIOLATION: i32 = 77;
pub const EXIT_DISCARD: i32 = 78;

/// Records a violation and ends this worker: nothing after a violation can be trusted.
pub fn violate(class: &str, msg: &str) -> ! {
    unsafe {
        ACTIVE = false;
        let s = slot();
        let n = class.len().min(63);
        s.class[..n].copy_from_slice(&class.as_bytes()[..n]);
        s.class[n] = 0;
        let mut m = msg.to_string();
        if std::env::var_os("SIM_BT").is_some() {
            m.push_str(&format!("\n{}", std::backtrace::Backtrace::force_capture()));
        }
        let mut n = m.len().min(MSG - 1);
        while !m.is_char_boundary(n) {
            n -= 1;
        }
        s.msg[..n].copy_from_slice(&m.as_bytes()[..n]);
        s.msg[n] = 0;
        if !SIM.is_null() {
            s.steps.store(sim().steps, Relaxed);
            if sim().trace_on {
                trace(&format!("!! VIOLATION {class}: {m}"));
            }
        }
        s.violated.store(1, Relaxed);
        _exit(EXIT_VIOLATION)
    }
}
/// Ends the worker's current run without a verdict (resource limit of the simulator itself).
pub fn discard(why: &str) -> ! {
    unsafe {
        ACTIVE = false;
        trace(&format!("discarded: {why}"));
        let s = slot();
        let n = why.len().min(MSG - 1);
        s.msg[..n].copy_from_slice(&why.as_bytes()[..n]);
        s.msg[n] = 0;
        _exit(EXIT_DISCARD)
    }
}

pub fn trace(m: &str) {
    let s = slot();
    let l = s.trace_len.load(Relaxed);
    if l + m.len() + 1 < TRACE {
        s.trace[l..l + m.len()].copy_from_slice(m.as_bytes());
        s.trace[l + m.len()] = b'\n';
        s.trace_len.store(l + m.len() + 1, Relaxed);
    }
}

fn idx(name: &str) -> usize {
    unsafe {
        match NAMES.iter().position(|n| *n == name) {
            Some(i) => i,
            None => {
                eprintln!("harness error: unregistered counter {name}");
                _exit(2)
            }
        }
    }
}

#[inline]
fn acquires(mo: i32) -> bool {
    // 0 relaxed 1 consume 2 acquire 3 release 4 acq_rel 5 seq_cst
    matches!(mo, 1 | 2 | 4 | 5)
}
#[inline]
fn releases(mo: i32) -> bool {
    matches!(mo, 3 | 4 | 5)
}

impl Sim {
    pub fn new() -> Self {
        Sim {
            threads: Vec::new(),
            cur: 0,
            mt: false,
            steps: 0,
            heap: Heap::new(),
            driver_sp: 0,
            stacks: Vec::new(),
            free_stacks: Vec::new(),
            locs: BTreeMap::new(),
            next_ord: 0,
            gvis: [0; MAXT],
            watched: Vec::new(),
            generating: true,
            rng: Rng::new(0),
            srng: Rng::new(0),
            replay: Vec::new(),
            rpos: 0,
            strategy: Strategy::Uniform,
            pct_points: Vec::new(),
            rates: BTreeMap::new(),
            faults_left: 0,
            faults_fired: 0,
            switches: 0,
            contested: 0,
            stale_left: 0,
            spurious_left: 0,
            weak: false,
            window_open: false,
            faults_enabled: true,
            malloc_fault_name: "alloc_fail",
            leak_check: true,
            hash: 0,
            clock_ns: 0,
            mono_ns: 0,
            trace_on: false,
            cap: 30_000,
            switch_pts: 0,
            local: 0,
            chans: BTreeMap::new(),
        }
    }
    pub fn vc(&self) -> &VC {
        &self.threads[self.cur].vc
    }
    pub fn count(&mut self, name: &str) {
        unsafe { LOCAL_COUNTS[idx(name)] += 1 }
    }
    #[inline]
    fn fold(&mut self, x: u64) {
        self.hash = (self.hash ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
    }
    pub fn forget_locs(&mut self, addr: usize, len: usize) {
        if self.locs.is_empty() {
            return;
        }
        let ks: Vec<usize> = self.locs.range(addr..addr + len.max(1)).map(|(k, _)| *k).collect();
        for k in ks {
            self.locs.remove(&k);
        }
    }
    fn record(&mut self, v: usize) {
        let s = slot();
        let n = s.nchoices.load(Relaxed);
        if n >= MAXC {
            discard("too many choices");
        }
        s.choices[n] = v as u16;
        s.nchoices.store(n + 1, Relaxed);
    }
    /// One decision among `n`, taken by `gen` when generating, from the file when replaying.
    fn decide(&mut self, n: usize, gen: impl FnOnce(&mut Self) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if self.generating {
            gen(self)
        } else {
            let v = self.replay.get(self.rpos).copied().unwrap_or(0) as usize;
            self.rpos += 1;
            v.min(n - 1)
        };
        self.record(v);
        v
    }
    fn runnable(&self, t: usize) -> bool {
        match self.threads[t].st {
            St::Runnable => true,
            St::Join(j) => self.threads[j].st == St::Finished,
            St::Parked => self.threads[t].token,
            St::Finished => false,
        }
    }
    /// Lets the scheduler decide who runs next.
    fn reschedule(&mut self, may_stay: bool) {
        let cur = self.cur;
        let mut cands: [usize; MAXT] = [0; MAXT];
        let mut n = 0;
        let stay = may_stay && self.runnable(cur);
        if stay {
            cands[0] = cur;
            n = 1;
        }
        for d in 1..=self.threads.len() {
            let t = (cur + d) % self.threads.len();
            if t != cur && self.runnable(t) {
                cands[n] = t;
                n += 1;
            }
        }
        if n == 0 && !stay && self.runnable(cur) {
            cands[0] = cur;
            n = 1;
        }
        if n == 0 {
            if self.threads.iter().all(|t| t.st == St::Finished) {
                self.cur = usize::MAX;
                let mut dummy = 0usize;
                unsafe { co::switch(&mut dummy, self.driver_sp) };
                unreachable!()
            }
            violate("deadlock", &format!("no thread can run: {:?}", self.threads.iter().map(|t| t.st).collect::<Vec<_>>()));
        }
        if n > 1 {
            self.contested += 1;
        }
        let pts = self.switch_pts;
        self.switch_pts += (n > 1) as u64;
        let k = self.decide(n, |s| match s.strategy {
            Strategy::Uniform => s.srng.below(n as u64) as usize,
            Strategy::Sticky(p) => {
                if stay && s.srng.below(p) != 0 {
                    0
                } else {
                    s.srng.below(n as u64) as usize
                }
            }
            Strategy::Pct => {
                if s.pct_points.contains(&pts) {
                    s.demote(cur);
                }
                (0..n).max_by_key(|&i| s.threads[cands[i]].prio).unwrap()
            }
        });
        let next = cands[k];
        if next != cur {
            self.switches += (n > 1) as u64;
            self.fold(0x5151 + next as u64);
            self.switch_to(next);
        }
    }
    fn switch_to(&mut self, next: usize) {
        let cur = self.cur;
        if self.trace_on {
            trace(&format!("   -- t{cur} -> t{next}"));
        }
        self.cur = next;
        if let St::Parked = self.threads[next].st {
            self.threads[next].token = false;
            let tv = self.threads[next].token_vc;
            join(&mut self.threads[next].vc, &tv);
        }
        if let St::Join(j) = self.threads[next].st {
            let jv = self.threads[j].vc;
            join(&mut self.threads[next].vc, &jv);
            join(&mut self.threads[next].vis, &jv);
            if (0..self.threads.len()).all(|t| t == next || self.threads[t].st == St::Finished) {
                // every other thread happens-before us: single threaded again
                let all: Vec<VC> = self.threads.iter().map(|t| t.vc).collect();
                if all.iter().enumerate().all(|(u, v)| v[u] <= self.threads[next].vc[u]) {
                    self.mt = false;
                }
            }
        }
        self.threads[next].st = St::Runnable;
        let to = self.threads[next].sp;
        let save: *mut usize = &mut self.threads[cur].sp;
        unsafe { co::switch(save, to) };
    }
    fn demote(&mut self, t: usize) {
        let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(0);
        self.threads[t].prio = low - 1;
    }
    /// A scheduling point in front of an atomic operation.
    fn point(&mut self, addr: usize, kind: u64) {
        self.steps += 1;
        self.clock_ns += 1;
        self.mono_ns += 1;
        if self.steps > self.cap {
            violate("no-progress", &format!("run did not finish within {} steps", self.cap));
        }
        let ord = self.locs.get(&addr).map_or(u32::MAX, |l| l.ord) as u64;
        let cur = self.cur;
        if self.threads.len() > 1 {
            if !(self.threads[cur].nopreempt && !self.window_open) && !std::thread::panicking() {
                let forced = {
                    let t = &mut self.threads[cur];
                    t.streak += 1;
                    t.streak > 150
                };
                if forced {
                    // whoever spins must let the others progress, whatever the priorities
                    self.threads[cur].streak = 0;
                    self.demote(cur);
                }
                self.reschedule(!forced);
            }
        }
        self.fold((self.cur as u64) << 56 ^ kind << 48 ^ ord);
        if self.trace_on && addr != 0 {
            let what = ["", "load", "store", "rmw", "cas"].get(kind as usize).unwrap_or(&"");
            let place = if Heap::contains(addr) { self.heap.describe_short(addr) } else { "static or stack".into() };
            trace(&format!("   t{} {what} {place}", self.cur));
        }
    }
    fn loc(&mut self, addr: usize, size: usize, cur: u64) -> &mut Loc {
        let next = &mut self.next_ord;
        let l = self.locs.entry(addr).or_insert_with(|| {
            *next += 1;
            Loc { size, hist: Vec::new(), base: 0, reads: Vec::new(), ord: *next }
        });
        if l.size != size || l.hist.last().is_none_or(|s| s.val != cur) {
            l.size = size;
            l.base += l.hist.len() as u64 + 1;
            l.hist.clear();
            l.reads.clear();
            l.hist.push(Store { val: cur, tid: usize::MAX, clk: 0, rel: None });
        }
        l
    }
    fn do_acquire(&mut self, rel: Option<VC>, mo: i32) {
        if let Some(r) = rel {
            let t = &mut self.threads[self.cur];
            if acquires(mo) {
                join(&mut t.vc, &r);
                join(&mut t.vis, &r);
            } else {
                join(&mut t.acq_pend, &r);
            }
        }
    }
    fn release_clock(&self, mo: i32) -> Option<VC> {
        let t = &self.threads[self.cur];
        if releases(mo) {
            Some(t.vc)
        } else if t.rel_fence != [0; MAXT] {
            Some(t.rel_fence)
        } else {
            None
        }
    }
    fn tick(&mut self) {
        let c = self.cur;
        self.threads[c].vc[c] += 1;
        let v = self.threads[c].vc;
        join(&mut self.threads[c].vis, &v);
    }
    pub unsafe fn load(&mut self, addr: usize, size: usize, mo: i32) -> u64 {
        self.point(addr, 1);
        self.heap.access(addr, size, false, true);
        let cur = rd(addr, size);
        let me = self.cur;
        let clk = self.threads[me].vc[me];
        let vis = self.threads[me].vis;
        let tracked = Heap::contains(addr);
        let l = self.loc(addr, size, cur);
        let last = l.hist.len() - 1;
        let mut pick = last;
        let mut n_old = 0;
        if tracked && mo != 5 && last > 0 {
            // coherence floor
            let mut floor = 0usize;
            for &(u, c, i) in &l.reads {
                if (u == me || c <= vis[u]) && i >= l.base {
                    floor = floor.max((i - l.base) as usize);
                }
            }
            for (i, s) in l.hist.iter().enumerate() {
                if s.tid == me || s.tid == usize::MAX || s.clk <= vis[s.tid] {
                    floor = floor.max(i);
                }
            }
            n_old = last - floor;
        }
        if n_old > 0 && self.weak && self.stale_left > 0 {
            let k = self.decide(n_old + 1, |s| {
                if s.srng.below(3) == 0 {
                    s.srng.below(n_old as u64 + 1) as usize
                } else {
                    0
                }
            });
            if k > 0 {
                self.stale_left -= 1;
                self.count("stale_load");
                if self.trace_on {
                    trace(&format!("   t{me} reads a stale value ({k} stores old)"));
                }
                pick = last - k;
            }
        }
        let l = self.locs.get_mut(&addr).unwrap();
        let (val, rel) = (l.hist[pick].val, l.hist[pick].rel);
        let gi = l.base + pick as u64;
        if let Some(r) = l.reads.iter_mut().find(|r| r.0 == me) {
            *r = (me, clk, r.2.max(gi));
        } else {
            l.reads.push((me, clk, gi));
        }
        self.do_acquire(rel, mo);
        if !self.watched.is_empty() && val != 0 && self.watched.contains(&addr) {
            self.threads[me].nopreempt = true;
        }
        val
    }
    fn push_store(&mut self, addr: usize, size: usize, val: u64, mo: i32, prev: Option<VC>) {
        let me = self.cur;
        let mut rel = self.release_clock(mo);
        if let Some(p) = prev {
            match &mut rel {
                Some(r) => join(r, &p),
                None => rel = Some(p),
            }
        }
        let clk = self.threads[me].vc[me];
        let l = self.locs.get_mut(&addr).unwrap();
        debug_assert!(l.size == size);
        l.hist.push(Store { val, tid: me, clk, rel });
        if l.hist.len() > 6 {
            l.hist.remove(0);
            l.base += 1;
        }
        if mo == 5 {
            let v = self.threads[me].vis;
            join(&mut self.gvis, &v);
        }
        self.tick();
    }
    pub unsafe fn store(&mut self, addr: usize, size: usize, val: u64, mo: i32) {
        self.point(addr, 2);
        self.heap.access(addr, size, true, true);
        let cur = rd(addr, size);
        self.loc(addr, size, cur);
        wr(addr, size, val);
        self.push_store(addr, size, val, mo, None);
    }
    pub unsafe fn rmw(&mut self, addr: usize, size: usize, mo: i32, f: impl FnOnce(u64) -> u64) -> u64 {
        self.point(addr, 3);
        self.heap.access(addr, size, true, true);
        let cur = rd(addr, size);
        let prev = self.loc(addr, size, cur).hist.last().unwrap().rel;
        self.do_acquire(prev, mo);
        let new = f(cur) & mask(size);
        wr(addr, size, new);
        self.push_store(addr, size, new, mo, prev);
        let me = self.cur;
        self.threads[me].nopreempt = false;
        cur
    }
    /// `pc`: where the compare-exchange returns to, 0 if not known.
    pub unsafe fn cas(&mut self, addr: usize, size: usize, expect: u64, new: u64, mo: i32, fmo: i32, pc: usize) -> u64 {
        self.point(addr, 4);
        let cur = {
            // an access to unmapped/freed memory must be reported before it is performed
            self.heap.access(addr, size, false, true);
            rd(addr, size)
        };
        let prev = self.loc(addr, size, cur).hist.last().unwrap().rel;
        let me = self.cur;
        let mut equal = cur == expect & mask(size);
        if equal && self.weak && self.spurious_left > 0 && pc != 0 {
            if let Some(t) = crate::weak::may_fail(pc) {
                if self.decide(2, |s| (s.srng.below(6) == 0) as usize) == 1 {
                    self.spurious_left -= 1;
                    self.count("cas_spurious");
                    if self.trace_on {
                        trace(&format!("   t{me} weak compare-exchange fails spuriously"));
                    }
                    crate::weak::DIVERT = t;
                    equal = false;
                }
            }
        }
        if equal {
            self.heap.access(addr, size, true, true);
            self.do_acquire(prev, mo);
            wr(addr, size, new);
            self.push_store(addr, size, new, mo, prev);
            self.threads[me].nopreempt = false;
        } else {
            self.do_acquire(prev, fmo);
            let clk = self.threads[me].vc[me];
            let l = self.locs.get_mut(&addr).unwrap();
            let gi = l.base + l.hist.len() as u64 - 1;
            l.reads.push((me, clk, gi));
            if l.reads.len() > 32 {
                l.reads.remove(0);
            }
            if cur != 0 && self.watched.contains(&addr) {
                self.threads[me].nopreempt = true;
            }
        }
        cur
    }
    pub fn fence(&mut self, mo: i32) {
        self.point(0, 5);
        let gv = self.gvis;
        let t = &mut self.threads[self.cur];
        if acquires(mo) {
            let p = t.acq_pend;
            join(&mut t.vc, &p);
            join(&mut t.vis, &p);
        }
        if mo == 5 {
            join(&mut t.vis, &gv);
            let v = t.vis;
            join(&mut self.gvis, &v);
        }
        let t = &mut self.threads[self.cur];
        if releases(mo) {
            t.rel_fence = t.vc;
        }
        self.tick();
    }
    fn new_thread(&mut self, f: Box<dyn FnOnce()>) -> usize {
        let id = self.threads.len();
        if id >= MAXT {
            eprintln!("harness error: too many threads");
            unsafe { _exit(2) }
        }
        let stack = self.free_stacks.pop().unwrap_or_else(|| {
            self.stacks.push(Stack::new());
            self.stacks.len() - 1
        });
        let mut vc = if id == 0 { [0; MAXT] } else { self.threads[self.cur].vc };
        vc[id] += 1;
        let sp = self.stacks[stack].prepare(entry, id);
        let prio = self.srng.below(10_000) as i64;
        self.threads.push(Thread {
            sp,
            st: St::Runnable,
            vc,
            acq_pend: [0; MAXT],
            rel_fence: [0; MAXT],
            vis: vc,
            stack,
            entry: Some(f),
            token: false,
            token_vc: [0; MAXT],
            prio,
            nopreempt: false,
            streak: 0,
            faults: if id == 0 { true } else { self.threads[self.cur].faults },
            mfaults: false,
        });
        id
    }
    fn finish_cur(&mut self) -> ! {
        let c = self.cur;
        self.threads[c].st = St::Finished;
        if self.trace_on {
            trace(&format!("   t{c} ends"));
        }
        self.reschedule(false);
        unreachable!()
    }
}

#[inline]
fn mask(size: usize) -> u64 {
    if size == 8 {
        u64::MAX
    } else {
        (1 << (size * 8)) - 1
    }
}
#[inline]
pub unsafe fn rd(a: usize, size: usize) -> u64 {
    match size {
        1 => (a as *const u8).read_volatile() as u64,
        2 => (a as *const u16).read_volatile() as u64,
        4 => (a as *const u32).read_volatile() as u64,
        _ => (a as *const u64).read_volatile(),
    }
}
#[inline]
pub unsafe fn wr(a: usize, size: usize, v: u64) {
    match size {
        1 => (a as *mut u8).write_volatile(v as u8),
        2 => (a as *mut u16).write_volatile(v as u16),
        4 => (a as *mut u32).write_volatile(v as u32),
        _ => (a as *mut u64).write_volatile(v),
    }
}

extern "C" fn entry(id: usize) -> ! {
    let f = sim().threads[id].entry.take().unwrap();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        unsafe { ACTIVE = true };
        f();
        unsafe { ACTIVE = false };
    }));
    unsafe { ACTIVE = false };
    if let Err(e) = r {
        let m = panic_message(&*e);
        violate("panic", &format!("unexpected panic on t{id}: {m}"));
    }
    sim().finish_cur()
}
pub fn panic_message(e: &(dyn std::any::Any + Send)) -> String {
    let last = unsafe { LAST_PANIC.take() };
    if let Some(s) = e.downcast_ref::<&str>() {
        format!("{s} {}", last.unwrap_or_default())
    } else if let Some(s) = e.downcast_ref::<String>() {
        format!("{s} {}", last.unwrap_or_default())
    } else {
        "(non-string payload)".into()
    }
}
pub static mut LAST_PANIC: Option<String> = None;

/// What a run starts from.
pub enum Source<'a> {
    Seed(u64),
    Choices(&'a [u16]),
}

pub struct RunCfg {
    pub window_open: bool,
    pub trace: bool,
    pub faults: bool,
}

/// Runs one simulated execution to its end. Violations do not return.
pub fn run_one(src: Source, cfg: &RunCfg, body: Box<dyn FnOnce()>) {
    unsafe {
        if SIM.is_null() {
            SIM = Box::into_raw(Box::new(Sim::new()));
        }
    }
    let s = sim();
    for t in s.threads.drain(..) {
        s.free_stacks.push(t.stack);
    }
    s.free_stacks.sort_by(|a, b| b.cmp(a));
    s.heap.reset();
    s.locs.clear();
    s.next_ord = 0;
    s.gvis = [0; MAXT];
    s.watched.clear();
    s.cur = 0;
    s.mt = false;
    s.steps = 0;
    s.switch_pts = 0;
    s.rates.clear();
    s.faults_fired = 0;
    s.switches = 0;
    s.contested = 0;
    s.hash = 0;
    s.leak_check = true;
    s.malloc_fault_name = "alloc_fail";
    s.clock_ns = 1_700_000_000_000_000_000;
    s.mono_ns = 1_000_000_000_000;
    s.trace_on = cfg.trace;
    s.window_open = cfg.window_open;
    s.faults_enabled = cfg.faults;
    s.cap = 30_000;
    s.local = 0;
    s.chans.clear();
    slot().nchoices.store(0, Relaxed);
    match src {
        Source::Seed(seed) => {
            s.generating = true;
            s.rng = Rng::new(seed);
            s.srng = Rng::new(seed ^ 0x1234_5678_9abc_def0);
            s.replay.clear();
        }
        Source::Choices(c) => {
            s.generating = false;
            s.rng = Rng::new(0);
            s.srng = Rng::new(0);
            s.replay = c.to_vec();
        }
    }
    s.rpos = 0;
    s.strategy = match s.srng.below(8) {
        0 | 1 => Strategy::Uniform,
        2 => Strategy::Sticky(2),
        3 => Strategy::Sticky(6),
        4 => Strategy::Sticky(20),
        _ => Strategy::Pct,
    };
    s.pct_points.clear();
    let d = 1 + s.srng.below(4);
    let span = [12, 30, 80, 250][s.srng.below(4) as usize];
    for _ in 0..d {
        let p = s.srng.below(span);
        s.pct_points.push(p);
    }
    // recorded, so that replays agree
    s.weak = s.decide(2, |s| (s.srng.below(3) == 0) as usize) == 1;
    s.heap.reuse = s.decide(2, |s| (s.srng.below(4) == 0) as usize) == 1;
    s.heap.misalign = s.decide(2, |s| s.srng.below(2) as usize) == 1;
    s.stale_left = 6;
    s.spurious_left = 3;
    s.faults_left = if s.generating { [1, 1, 2, 4, 8][s.srng.below(5) as usize] } else { u32::MAX };
    let id = s.new_thread(body);
    s.cur = id;
    let to = s.threads[id].sp;
    let save: *mut usize = &mut s.driver_sp;
    unsafe {
        ACTIVE = false;
        co::switch(save, to);
    }
    // every simulated thread has ended
    let s = sim();
    s.cur = 0;
    if s.leak_check && s.heap.n_live != 0 {
        let l: Vec<String> = s.heap.blocks.iter().filter(|b| b.live).take(4).map(|b| s.heap.describe(b.addr)).collect();
        violate("leak", &format!("{} allocation(s) never freed: {}", s.heap.n_live, l.join("; ")));
    }
}

// ---------------------------------------------------------------- API used by scenarios

/// A generated choice: an operation, an argument, a configuration.
pub fn choose(n: usize) -> usize {
    let _g = Rt::enter();
    let v = sim().decide(n, |s| s.rng.below(n as u64) as usize);
    sim().fold(0x77 + v as u64);
    v
}
/// True with probability num/den; `false` is the simpler alternative.
pub fn chance(num: u64, den: u64) -> bool {
    let _g = Rt::enter();
    let v = sim().decide(2, |s| (s.rng.below(den) < num) as usize) == 1;
    sim().fold(0x99 + v as u64);
    v
}
/// Lets the fault injector fire here.
pub fn fault(name: &'static str) -> bool {
    let _g = Rt::enter();
    let s = sim();
    if !s.faults_enabled || !s.threads[s.cur].faults {
        return false;
    }
    let v = s.decide(2, |s| {
        if s.faults_left == 0 {
            return 0;
        }
        let rate = match s.rates.get(name) {
            Some(r) => *r,
            None => {
                let r = [0, 2, 4, 12, 40][s.srng.below(5) as usize];
                s.rates.insert(name, r);
                r
            }
        };
        (rate != 0 && s.srng.below(rate) == 0) as usize
    }) == 1;
    if v {
        s.faults_left -= 1;
        s.faults_fired += 1;
        s.count(name);
        s.fold(0xfa17);
        if s.trace_on {
            trace(&format!("   t{} FAULT {name}", s.cur));
        }
    }
    v
}
/// Switches the fault injector on or off for the calling thread and those it spawns later.
pub fn set_faults(on: bool) -> bool {
    let s = sim();
    core::mem::replace(&mut s.threads[s.cur].faults, on)
}
/// Failing `malloc`-family calls of the calling thread from here on.
pub fn set_malloc_faults(on: bool) -> bool {
    let s = sim();
    core::mem::replace(&mut s.threads[s.cur].mfaults, on)
}
pub fn set_leak_check(on: bool) {
    sim().leak_check = on;
}
pub fn probe(name: &'static str) {
    let _g = Rt::enter();
    sim().count(name);
}
pub fn log(f: impl FnOnce() -> String) {
    let s = sim();
    if s.trace_on {
        let _g = Rt::enter();
        trace(&format!("t{}: {}", s.cur, f()));
    }
}
/// Global event stamp.
pub fn now() -> u64 {
    let s = sim();
    s.local += 1;
    s.local
}
pub fn me() -> usize {
    sim().cur
}
pub fn spawn(f: impl FnOnce() + 'static) -> usize {
    let b: Box<dyn FnOnce()> = {
        let _g = Rt::enter();
        Box::new(f)
    };
    let _g = Rt::enter();
    let s = sim();
    let id = s.new_thread(b);
    s.mt = true;
    let c = s.cur;
    s.threads[c].vc[c] += 1;
    if s.trace_on {
        trace(&format!("   t{c} spawns t{id}"));
    }
    s.point(0, 6);
    id
}
pub fn join_thread(id: usize) {
    let _g = Rt::enter();
    let s = sim();
    let c = s.cur;
    s.threads[c].nopreempt = false;
    s.threads[c].st = St::Join(id);
    s.steps += 1;
    if s.runnable(c) {
        // still a scheduling point; bookkeeping of the join happens in switch_to, so do it here too
        let jv = s.threads[id].vc;
        join(&mut s.threads[c].vc, &jv);
        join(&mut s.threads[c].vis, &jv);
        s.threads[c].st = St::Runnable;
        if (0..s.threads.len()).all(|t| t == c || s.threads[t].st == St::Finished) {
            let all: Vec<VC> = s.threads.iter().map(|t| t.vc).collect();
            if all.iter().enumerate().all(|(u, v)| v[u] <= s.threads[c].vc[u]) {
                s.mt = false;
            }
        }
        s.reschedule(true);
    } else {
        s.reschedule(false);
    }
}
/// Blocks until another thread calls [`unpark`]; tokens are sticky.
pub fn park() {
    let _g = Rt::enter();
    let s = sim();
    let c = s.cur;
    s.threads[c].nopreempt = false;
    s.steps += 1;
    if s.threads[c].token {
        s.threads[c].token = false;
        let tv = s.threads[c].token_vc;
        join(&mut s.threads[c].vc, &tv);
        s.reschedule(true);
    } else {
        s.threads[c].st = St::Parked;
        s.reschedule(false);
    }
}
pub fn unpark(t: usize) {
    let _g = Rt::enter();
    let s = sim();
    let c = s.cur;
    let v = s.threads[c].vc;
    join(&mut s.threads[t].token_vc, &v);
    s.threads[t].token = true;
    s.tick();
    s.point(0, 7);
}
/// A scheduling point of the harness (between operations).
pub fn yield_now() {
    let _g = Rt::enter();
    let s = sim();
    let c = s.cur;
    s.threads[c].nopreempt = false;
    s.point(0, 8);
}
/// Marks a word whose load opens a window listed as a known finding; the scheduler does not preempt
/// inside such a window unless the run demonstrates the finding.
pub fn watch(addr: usize) {
    let _g = Rt::enter();
    sim().watched.push(addr);
}
pub fn end_window() {
    let s = sim();
    let c = s.cur;
    s.threads[c].nopreempt = false;
}
/// No stale reads from here on (for oracles stated in real time).
pub fn no_stale() {
    sim().weak = false;
}
pub fn is_weak() -> bool {
    sim().weak
}
pub fn is_mt() -> bool {
    sim().mt
}
/// Harness-level synchronisation: what happened before `release(k)` happens before a later `acquire(k)`.
pub fn release(k: usize) {
    let _g = Rt::enter();
    let s = sim();
    let v = s.threads[s.cur].vc;
    join(s.chans.entry(k).or_insert([0; MAXT]), &v);
    s.tick();
}
pub fn acquire(k: usize) {
    let _g = Rt::enter();
    let s = sim();
    if let Some(v) = s.chans.get(&k).copied() {
        let t = &mut s.threads[s.cur];
        join(&mut t.vc, &v);
        join(&mut t.vis, &v);
    }
}
/// The calling thread's vector clock, for orders stated as happens-before. Ticks.
pub fn stamp_vc() -> VC {
    let s = sim();
    let v = s.threads[s.cur].vc;
    s.tick();
    v
}
pub fn steps() -> u64 {
    sim().steps
}
pub fn set_cap(c: u64) {
    sim().cap = c;
}
pub fn arena_used() -> usize {
    sim().heap.used()
}
pub fn fail(class: &str, msg: impl FnOnce() -> String) -> ! {
    unsafe { ACTIVE = false };
    violate(class, &msg())
}
#[macro_export]
macro_rules! check {
    ($c:expr, $class:literal, $($a:tt)*) => {
        if !$c { $crate::fail($class, || format!($($a)*)) }
    };
}
pub fn halloc(size: usize, align: usize, tag: u32) -> *mut u8 {
    let _g = Rt::enter();
    sim().heap.alloc(size, align, Kind::Custom(tag))
}
pub fn hfree(p: *mut u8, tag: u32) {
    let _g = Rt::enter();
    sim().heap.free(p as usize, Kind::Custom(tag))
}
pub fn hsize(p: *mut u8) -> Option<(usize, usize)> {
    sim().heap.live_block(p as usize).map(|b| (b.size, b.align))
}
/// Number of live simulated allocations.
pub fn live_blocks() -> usize {
    sim().heap.n_live
}
/// Whether all of `len` bytes at `p` belong to one live allocation.
pub fn is_live(p: *const u8, len: usize) -> bool {
    let h = &sim().heap;
    h.find(p as usize).is_some_and(|i| {
        let b = &h.blocks[i];
        b.live && p as usize + len <= b.addr + b.size
    })
}
/// How many faults have fired in this run.
#[allow(clippy::unnecessary_cast)]
pub fn faults_fired() -> u64 {
    sim().faults_fired as u64
}
