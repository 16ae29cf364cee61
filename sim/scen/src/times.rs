//! Atomic durations and instants between threads; time arithmetic; clocks that stall, leap and jump.
use crate::h::*;
use core::sync::atomic::Ordering::{self, *};
use simrt::*;
use stabby::time::{AtomicDuration, AtomicInstant, Duration, Instant, Sign, SystemTime};

const MAX_SECS: u64 = (1 << 43) - 1;
const LOADS: [Ordering; 3] = [Relaxed, Acquire, SeqCst];
const STORES: [Ordering; 3] = [Relaxed, Release, SeqCst];
const SWAPS: [Ordering; 5] = [Relaxed, Acquire, Release, AcqRel, SeqCst];
fn acq(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
fn rel(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

// ------------------------------------------------------------------------------- registers
const K_LOAD: u64 = 0;
const K_STORE: u64 = 1;
const K_SWAP: u64 = 2;
fn step(m: &(u64, u64), e: &[u64; 5]) -> Option<(u64, u64)> {
    let [k, a, b, c, d] = *e;
    match k {
        K_LOAD => (*m == (c, d)).then_some(*m),
        K_STORE => Some((a, b)),
        _ => (*m == (c, d)).then_some((a, b)),
    }
}
/// A value as the register keeps it: seconds, then microseconds and sign.
fn code(d: Duration, s: Sign) -> (u64, u64) {
    let us = d.nanos as u64 / 1000;
    let neg = s == Sign::Negative && (d.secs != 0 || us != 0);
    (d.secs, us | (neg as u64) << 40)
}
fn seen(d: Duration, s: Sign) -> (u64, u64) {
    check!(d.nanos < 1_000_000_000, "denormal", "read {} nanoseconds after the second", d.nanos);
    check!(d.nanos % 1000 == 0, "resolution", "read {} nanoseconds, which is no multiple of the resolution", d.nanos);
    if d.secs == 0 && d.nanos == 0 {
        (0, 0)
    } else {
        code(d, s)
    }
}
/// A plain word each writer fills before it publishes a value, found by those who acquire the value.
static mut CELLS: *mut u64 = core::ptr::null_mut();
const NCELL: usize = 48;
static mut IDS: usize = 0;
static mut KEYS: Vec<((u64, u64), usize)> = Vec::new();
/// Updates whose value is not known yet.
static mut PENDING: usize = 0;
fn note(key: (u64, u64), id: usize) {
    outside(|| unsafe { (*core::ptr::addr_of_mut!(KEYS)).push((key, id)) })
}
/// Fills a word of its own; the key that leads to it is told later.
fn fill_some() -> usize {
    let id = unsafe {
        IDS += 1;
        IDS - 1
    };
    if id < NCELL {
        unsafe { *CELLS.add(id) = id as u64 + 1 }
    }
    id
}
fn fill(key: (u64, u64)) {
    note(key, unsafe { IDS });
    fill_some();
}
fn reach(key: (u64, u64)) {
    if unsafe { PENDING } > 0 {
        return;
    }
    let k: Vec<usize> = outside(|| unsafe { (*core::ptr::addr_of!(KEYS)).iter().filter(|k| k.0 == key).map(|k| k.1).collect() });
    if k.len() == 1 && k[0] < NCELL {
        let x = unsafe { *CELLS.add(k[0]) };
        check!(x == k[0] as u64 + 1, "unsynchronised", "a value was acquired, what its writer did before is not visible");
    }
    outside(|| drop(k));
}
fn value(uniq: &core::cell::Cell<u32>) -> Duration {
    let secs = match choose(6) {
        0 => 0,
        1 => 1,
        2 => MAX_SECS,
        3 => MAX_SECS - choose(3) as u64,
        4 => 1 << choose(43),
        _ => choose(100) as u64,
    };
    let n = match choose(4) {
        0 => 999_999_999,
        1 => 0,
        _ => {
            uniq.set(uniq.get() + 1);
            (uniq.get() % 1000 * 1000 + me() as u32 * 1_000_000 + [0, 1, 999][choose(3)]) % 1_000_000_000
        }
    };
    Duration::new(secs, n)
}
fn sign() -> Sign {
    if choose(2) == 0 {
        Sign::Positive
    } else {
        Sign::Negative
    }
}
fn prepare() {
    unsafe {
        IDS = 0;
        PENDING = 0;
        outside(|| (*core::ptr::addr_of_mut!(KEYS)).clear());
        CELLS = Box::into_raw(Box::new([0u64; NCELL])) as *mut u64;
    }
}
fn cleanup() {
    drop(unsafe { Box::from_raw(CELLS as *mut [u64; NCELL]) });
}
fn threads(n: usize, f: impl Fn() + Copy + 'static) {
    let mut ids = outside(Vec::new);
    for _ in 0..n {
        let id = spawn(f);
        outside(|| ids.push(id));
    }
    f();
    for t in ids.iter() {
        join_thread(*t);
    }
    outside(|| drop(ids));
}
pub fn durations() {
    run(|| {
        set_faults(false);
        prepare();
        let u = core::cell::Cell::new(0);
        let (d, s) = (value(&u), sign());
        let reg: &'static AtomicDuration = Box::leak(Box::new(AtomicDuration::new(d, s)));
        let init = code(d, s);
        outside(|| unsafe { (*core::ptr::addr_of_mut!(KEYS)).push((init, NCELL)) });
        let n = choose(4);
        let ops = if n == 0 { 8 } else { 1 + choose(10 / (n + 1)) };
        threads(n, move || {
            let u = core::cell::Cell::new(0);
            for _ in 0..ops {
                match choose(3) {
                    0 => {
                        let o = pick(&LOADS);
                        let h = invoke();
                        let (d, s) = reg.load(o);
                        let k = seen(d, s);
                        respond(h, [K_LOAD, 0, 0, k.0, k.1]);
                        if acq(o) {
                            reach(k);
                        }
                    }
                    1 => {
                        let (d, s, o) = (value(&u), sign(), pick(&STORES));
                        let k = code(d, s);
                        if rel(o) {
                            fill(k)
                        } else {
                            note(k, NCELL);
                        }
                        let h = invoke();
                        reg.store(d, s, o);
                        respond(h, [K_STORE, k.0, k.1, 0, 0]);
                    }
                    _ => {
                        let (d, s, o) = (value(&u), sign(), pick(&SWAPS));
                        let k = code(d, s);
                        if rel(o) {
                            fill(k)
                        } else {
                            note(k, NCELL);
                        }
                        let h = invoke();
                        let (d, s) = reg.swap(d, s, o);
                        let old = seen(d, s);
                        respond(h, [K_SWAP, k.0, k.1, old.0, old.1]);
                        if acq(o) {
                            reach(old);
                        }
                    }
                }
            }
        });
        linearizable(init, step, "atomic duration");
        drop(unsafe { Box::from_raw(reg as *const AtomicDuration as *mut AtomicDuration) });
        cleanup();
    })
}
pub fn instants() {
    run(|| {
        set_faults(false);
        prepare();
        let at = |i: Instant| Duration::from(std_of(i));
        let (reg, init) = if choose(2) == 0 {
            set_faults(true);
            let r = AtomicInstant::now();
            set_faults(false);
            let k = us(clock::reads().1);
            (r, k)
        } else {
            (AtomicInstant::epoch(), (0, 0))
        };
        outside(|| unsafe { (*core::ptr::addr_of_mut!(KEYS)).push((init, NCELL)) });
        let reg: &'static AtomicInstant = Box::leak(Box::new(reg));
        let n = choose(4);
        let ops = if n == 0 { 8 } else { 1 + choose(10 / (n + 1)) };
        threads(n, move || {
            let u = core::cell::Cell::new(0);
            for _ in 0..ops {
                match choose(4) {
                    0 => {
                        let o = pick(&LOADS);
                        let h = invoke();
                        let k = seen(at(reg.load(o)), Sign::Positive);
                        respond(h, [K_LOAD, 0, 0, k.0, k.1]);
                        if acq(o) {
                            reach(k);
                        }
                    }
                    1 => {
                        let (i, o) = (Instant::zero() + value(&u), pick(&STORES));
                        let k = code(at(i), Sign::Positive);
                        if rel(o) {
                            fill(k)
                        } else {
                            note(k, NCELL);
                        }
                        let h = invoke();
                        reg.store(i, o);
                        respond(h, [K_STORE, k.0, k.1, 0, 0]);
                    }
                    2 => {
                        let (i, o) = (Instant::zero() + value(&u), pick(&SWAPS));
                        let k = code(at(i), Sign::Positive);
                        if rel(o) {
                            fill(k)
                        } else {
                            note(k, NCELL);
                        }
                        let h = invoke();
                        let old = seen(at(reg.swap(i, o)), Sign::Positive);
                        respond(h, [K_SWAP, k.0, k.1, old.0, old.1]);
                        if acq(o) {
                            reach(old);
                        }
                    }
                    _ => {
                        let o = pick(&SWAPS);
                        let id = if rel(o) { fill_some() } else { NCELL };
                        unsafe { PENDING += 1 };
                        let h = invoke();
                        let r0 = clock::reads().0;
                        set_faults(true);
                        let old = reg.update(o);
                        set_faults(false);
                        let (r1, now) = clock::reads();
                        check!(r1 > r0, "clock-not-read", "an update did not read the clock");
                        let k = us(now);
                        let old = seen(at(old), Sign::Positive);
                        respond(h, [K_SWAP, k.0, k.1, old.0, old.1]);
                        note(k, id);
                        unsafe { PENDING -= 1 };
                        if acq(o) {
                            reach(old);
                        }
                    }
                }
            }
        });
        linearizable(init, step, "atomic instant");
        drop(unsafe { Box::from_raw(reg as *const AtomicInstant as *mut AtomicInstant) });
        cleanup();
    })
}
fn us(ns: i128) -> (u64, u64) {
    ((ns / 1_000_000_000) as u64, (ns % 1_000_000_000 / 1000) as u64)
}
/// The time since the zero instant, through the standard library.
fn std_of(i: Instant) -> core::time::Duration {
    std::time::Instant::from(i).duration_since(Instant::zero().into())
}

// ------------------------------------------------------------------------------- clocks
pub fn clocks() {
    run(|| {
        set_faults(true);
        let n = choose(3);
        threads(n, move || {
            let mut last: Option<Instant> = None;
            for _ in 0..1 + choose(8) {
                let (r0, m0, w0) = (clock::reads().0, clock::mono(), clock::wall());
                let _ = w0;
                match choose(6) {
                    0 | 1 => {
                        let i = Instant::now();
                        let (r1, v) = clock::reads();
                        check!(r1 > r0, "clock-not-read", "the instant was made up");
                        let d = std_of(i).as_nanos() as i128;
                        check!(d == v && d >= m0 && d <= clock::mono(), "wrong-instant", "an instant of {d} ns, the clock showed {v} (at least {m0} before, {} after)", clock::mono());
                        if let Some(l) = last {
                            check!(i >= l, "backwards", "an instant precedes the one read before it");
                        }
                        last = Some(i);
                        // there and back
                        let s: std::time::Instant = i.into();
                        check!(Instant::from(s) == i, "round-trip", "an instant changed on its way through std");
                    }
                    2 | 3 => {
                        let t = SystemTime::now();
                        let (r1, v) = clock::reads();
                        check!(r1 > r0, "clock-not-read", "the system time was made up");
                        let want = v.max(0) as u128;
                        let s: std::time::SystemTime = t.into();
                        let got = s.duration_since(std::time::UNIX_EPOCH).map(|d| d.as_nanos()).ok();
                        check!(got == Some(want), "wrong-system-time", "a system time of {got:?} ns, the clock showed {v}");
                        check!(SystemTime::from(s) == t, "round-trip", "a system time changed on its way through std");
                        check!((t == SystemTime::UNIX_EPOCH) == (want == 0), "wrong-system-time", "epoch: {want}");
                    }
                    4 => {
                        let a = AtomicInstant::now();
                        let v = clock::reads().1;
                        let d = std_of(a.load(Relaxed)).as_nanos() as i128;
                        check!(d == v / 1000 * 1000, "wrong-instant", "an atomic instant of {d} ns, the clock showed {v}");
                        let old = a.update(SeqCst);
                        check!(std_of(old).as_nanos() as i128 == d, "wrong-instant", "update gave {:?} back", std_of(old));
                        let v2 = clock::reads().1;
                        let d2 = std_of(a.load(Relaxed)).as_nanos() as i128;
                        check!(d2 == v2 / 1000 * 1000 && d2 >= d, "wrong-instant", "updated to {d2} ns, the clock showed {v2}");
                    }
                    _ => {
                        let i = Instant::now();
                        let by = nice();
                        let d = std_of(i);
                        if let Some(sum) = d.checked_add(by.into()) {
                            if sum.as_secs() < i64::MAX as u64 {
                                let mut j = i;
                                j += by;
                                check!(std_of(j) == sum && i + by == j, "wrong-sum", "{d:?} + {:?} gave {:?}", core::time::Duration::from(by), std_of(j));
                            }
                        }
                    }
                }
            }
        });
    })
}
fn nice() -> Duration {
    let secs = match choose(6) {
        0 => 0,
        1 => choose(5) as u64,
        2 => (1u64 << choose(63)) - choose(2) as u64,
        3 => u64::MAX >> choose(40),
        4 => 1u64 << 32,
        _ => ((choose(1 << 31) as u64) << 31) ^ choose(1 << 31) as u64,
    };
    let nanos = match choose(4) {
        0 => 0,
        1 => 999_999_999,
        2 => pick(&[1, 999, 1000, 999_999, 1_000_000, 500_000_000]),
        _ => choose(1_000_000_000) as u32,
    };
    Duration::new(secs, nanos)
}
fn exact(d: Duration) -> u128 {
    d.secs as u128 * 1_000_000_000 + d.nanos as u128
}
pub fn arithmetic() {
    run(|| {
        set_faults(false);
        for _ in 0..4 {
            let (a, b) = (nice(), nice());
            let (x, y) = (exact(a), exact(b));
            macro_rules! eq {
                ($got: expr, $want: expr, $what: literal) => {{
                    let (g, w) = ($got, $want);
                    check!(g == w, "wrong-arithmetic", "{} of {x} ns (and {y} ns) gave {:?} instead of {:?}", $what, g, w);
                }};
            }
            eq!(a.cmp(&b), x.cmp(&y), "comparison");
            eq!(a == b, x == y, "equality");
            eq!(a < b, x < y, "order");
            eq!(a.as_secs() as u128, x / 1_000_000_000, "as_secs");
            eq!(a.as_nanos(), x, "as_nanos");
            eq!(a.subsec_nanos() as u128, x % 1_000_000_000, "subsec_nanos");
            eq!(a.subsec_micros() as u128, x % 1_000_000_000 / 1000, "subsec_micros");
            eq!(a.subsec_millis() as u128, x % 1_000_000_000 / 1_000_000, "subsec_millis");
            let s: core::time::Duration = a.into();
            eq!(s.as_nanos(), x, "conversion into std");
            eq!(exact(s.into()), x, "conversion from std");
            let f = a.as_secs_f64();
            check!((f - s.as_secs_f64()).abs() <= f.abs() * 1e-12, "wrong-arithmetic", "{x} ns are {f} seconds");
            let z = x + y;
            if z / 1_000_000_000 <= u64::MAX as u128 {
                eq!(exact(a + b), z, "sum");
                let mut c = a;
                c += b;
                eq!(exact(c), z, "assigned sum");
                eq!(c.nanos < 1_000_000_000, true, "normal form");
                eq!(exact(b + a), z, "commuted sum");
            }
            let ms = a.secs ^ b.nanos as u64;
            eq!(exact(Duration::from_millis(ms)), ms as u128 * 1_000_000, "from_millis");
            eq!(exact(Duration::from_micros(ms)), ms as u128 * 1000, "from_micros");
            // seconds that doubles represent exactly to the nanosecond
            let (q, r) = ((ms >> 24) & 0xfffff, ms & 511);
            let f = q as f64 + r as f64 / 512.;
            eq!(exact(Duration::from_secs_f64(f)), q as u128 * 1_000_000_000 + r as u128 * 1_000_000_000 / 512, "from_secs_f64");
            // any others, to the nanosecond around them; near whole numbers above all
            let w = [q as f64, (q & 15) as f64, (r & 1) as f64][(ms >> 60) as usize % 3];
            let f = match ms >> 44 & 3 {
                0 => w.next_down().max(0.),
                1 => w.next_up(),
                2 => (w - 1e-9 * ((ms >> 46 & 1023) as f64 / 512.)).max(0.),
                _ => w + (b.nanos as f64 + (ms >> 46 & 1023) as f64 / 1024.) / 1e9,
            };
            let d = Duration::from_secs_f64(f);
            check!(d.nanos < 1_000_000_000, "wrong-arithmetic", "{f:?} seconds are not in normal form: {} s {} ns", d.secs, d.nanos);
            let n = core::time::Duration::from_secs_f64(f).as_nanos();
            check!(exact(d).abs_diff(n) <= 1, "wrong-arithmetic", "{f:?} seconds are {} ns", exact(d));
            // the register, alone
            let lim = AtomicDuration::MAX;
            if a <= lim {
                let sg = sign();
                let reg = AtomicDuration::new(a, sg);
                let (d, g) = reg.load(Relaxed);
                eq!(seen(d, g), code(a, sg), "stored");
                eq!(exact(AtomicDuration::RESOLUTION), 1000, "resolution");
            }
            let top = core::time::Duration::from(lim);
            let near = Duration::from(top.saturating_sub(core::time::Duration::new(b.secs % 3, b.nanos)));
            let sg = sign();
            let reg = AtomicDuration::new(Duration::new(0, 0), Sign::Positive);
            reg.store(near, sg, Relaxed);
            let (d, g) = reg.swap(lim, Sign::Negative, Relaxed);
            eq!(seen(d, g), code(near, sg), "a value within the maximum, stored");
            let (d, g) = reg.load(Relaxed);
            check!(d == lim && g == Sign::Negative, "wrong-arithmetic", "the maximum, stored, reads {:?}", core::time::Duration::from(d));
            // system times
            let t = SystemTime::UNIX_EPOCH + b;
            let mut t2 = SystemTime::UNIX_EPOCH;
            t2 += b;
            eq!(t == t2 && t.cmp(&(SystemTime::UNIX_EPOCH + a)) == y.cmp(&x), true, "system time");
            if b.secs < i64::MAX as u64 {
                let s: std::time::SystemTime = t.into();
                eq!(s.duration_since(std::time::UNIX_EPOCH).unwrap().as_nanos(), y, "system time in std");
                eq!(SystemTime::from(s) == t, true, "system time from std");
            }
        }
    })
}
