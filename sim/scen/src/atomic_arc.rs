//! AtomicArc as a linearizable register of shared references.
use crate::h::*;
use core::sync::atomic::Ordering;
use simrt::*;
use stabby_abi::alloc::sync::{Arc, AtomicArc, Weak};

type A<L> = Arc<Tok, L>;
const LOAD: [Ordering; 2] = [Ordering::Acquire, Ordering::SeqCst];
const STORE: [Ordering; 2] = [Ordering::Release, Ordering::SeqCst];
const SWAP: [Ordering; 2] = [Ordering::AcqRel, Ordering::SeqCst];

fn code<L: HAlloc>(a: &Option<A<L>>) -> u64 {
    a.as_ref().map_or(0, |a| a.v() as u64)
}
const K_LOAD: u64 = 0;
const K_STORE: u64 = 1;
const K_CAS: u64 = 2;
const K_IS: u64 = 3;

fn step(m: &u64, e: &[u64; 5]) -> Option<u64> {
    let [k, a, b, ok, r] = *e;
    match k {
        K_LOAD => (*m == r).then_some(*m),
        K_STORE => Some(a),
        K_CAS => {
            if ok == 1 {
                (*m == a && r == a).then_some(b)
            } else {
                (*m != a && *m == r).then_some(*m)
            }
        }
        _ => {
            if ok == 1 {
                (*m == a).then_some(*m)
            } else {
                (*m != a && *m == r).then_some(*m)
            }
        }
    }
}

struct Th<L: HAlloc> {
    held: Vec<A<L>>,
    weak: Vec<Weak<Tok, L>>,
}
static mut NEXT: u32 = 0;
fn fresh<L: HAlloc>() -> A<L> {
    let v = unsafe {
        NEXT += 1;
        NEXT
    };
    Arc::new_in(Tok::new(v), L::mk())
}
fn some_arc<L: HAlloc>(t: &mut Th<L>) -> Option<A<L>> {
    match choose(4) {
        0 => None,
        1 if !t.held.is_empty() => Some(t.held[choose(t.held.len())].clone()),
        _ => Some(fresh()),
    }
}
fn keep<L: HAlloc>(t: &mut Th<L>, a: Option<A<L>>) {
    if let Some(a) = a {
        if chance(1, 2) {
            if chance(1, 4) {
                let w = Arc::downgrade(&a);
                outside(|| t.weak.push(w));
            }
            outside(|| t.held.push(a));
        } else {
            drop(a);
        }
    }
}
fn body<L: HAlloc>(reg: &AtomicArc<Tok, L>, t: &mut Th<L>, n: usize, mix: &[u8]) {
    for _ in 0..n {
        match mix[choose(mix.len())] {
            0 => {
                let o = invoke();
                let r = reg.load(pick(&LOAD));
                end_window();
                respond(o, [K_LOAD, 0, 0, 0, code(&r)]);
                keep(t, r);
            }
            1 => {
                let v = some_arc(t);
                let c = code(&v);
                let o = invoke();
                reg.store(v, pick(&STORE));
                respond(o, [K_STORE, c, 0, 0, 0]);
            }
            2 => {
                let cur = if t.held.is_empty() || chance(1, 4) { None } else { Some(t.held[choose(t.held.len())].clone()) };
                let new = some_arc(t);
                let (a, b) = (code(&cur), code(&new));
                let o = invoke();
                let r = reg.compare_exchange(cur.as_ref(), new, pick(&SWAP), pick(&LOAD));
                end_window();
                match r {
                    Ok(old) => {
                        respond(o, [K_CAS, a, b, 1, code(&old)]);
                        probe("cas_ok");
                        keep(t, old);
                    }
                    Err(now) => {
                        respond(o, [K_CAS, a, b, 0, code(&now)]);
                        probe("cas_failed");
                        keep(t, now);
                    }
                }
            }
            3 => {
                let cur = if t.held.is_empty() || chance(1, 4) { None } else { Some(t.held[choose(t.held.len())].clone()) };
                let a = code(&cur);
                let o = invoke();
                let r = reg.is(cur.as_ref(), pick(&LOAD));
                end_window();
                match r {
                    Ok(()) => respond(o, [K_IS, a, 0, 1, 0]),
                    Err(now) => {
                        respond(o, [K_IS, a, 0, 0, code(&now)]);
                        keep(t, now);
                    }
                }
            }
            4 => {
                // read-modify-write until it succeeds
                let mut cur = {
                    let o = invoke();
                    let r = reg.load(pick(&LOAD));
                    end_window();
                    respond(o, [K_LOAD, 0, 0, 0, code(&r)]);
                    r
                };
                for _ in 0..3 {
                    let new: Option<A<L>> = Some(fresh());
                    let (a, b) = (code(&cur), code(&new));
                    let o = invoke();
                    let r = reg.compare_exchange(cur.as_ref(), new, pick(&SWAP), pick(&LOAD));
                    end_window();
                    match r {
                        Ok(old) => {
                            respond(o, [K_CAS, a, b, 1, code(&old)]);
                            break;
                        }
                        Err(now) => {
                            respond(o, [K_CAS, a, b, 0, code(&now)]);
                            cur = now;
                        }
                    }
                }
            }
            5 => {
                if !t.held.is_empty() {
                    let i = choose(t.held.len());
                    let a = outside(|| t.held.remove(i));
                    a.v();
                    drop(a);
                }
            }
            _ => {
                if !t.weak.is_empty() {
                    let i = choose(t.weak.len());
                    if let Some(a) = t.weak[i].upgrade() {
                        a.v();
                    }
                    let w = outside(|| t.weak.remove(i));
                    drop(w);
                }
            }
        }
    }
}
const MIXES: [&[u8]; 5] = [&[0, 1, 2, 3, 4, 5, 6], &[0, 1], &[2, 0, 4], &[1, 2, 3, 5], &[0, 5, 6, 2]];
fn engine<L: HAlloc>(suppress: bool) {
    run(|| {
        set_faults(false);
        unsafe { NEXT = 0 };
        let first = if chance(1, 3) { None } else { Some(fresh::<L>()) };
        let c0 = code(&first);
        let extra = if chance(1, 2) { first.clone() } else { None };
        let reg: &'static AtomicArc<Tok, L> = outside(|| Box::leak(Box::new(AtomicArc::new(first))));
        if suppress {
            watch(reg as *const _ as usize);
        }
        let nt = 2 + choose(2);
        let mut ids = [0; 3];
        for t in 0..nt {
            let n = 1 + choose(4);
            let mix = pick(&MIXES);
            let seed = if chance(1, 2) { extra.clone() } else { None };
            ids[t] = spawn(move || {
                let mut th = Th::<L> { held: Vec::new(), weak: Vec::new() };
                if let Some(s) = seed {
                    outside(|| th.held.push(s));
                }
                body(reg, &mut th, n, mix);
                while let Some(a) = outside(|| th.held.pop()) {
                    drop(a);
                }
                while let Some(w) = outside(|| th.weak.pop()) {
                    drop(w);
                }
                outside(|| drop(th));
            });
        }
        drop(extra);
        for t in 0..nt {
            join_thread(ids[t]);
        }
        let o = invoke();
        let last = reg.load(Ordering::Acquire);
        end_window();
        respond(o, [K_LOAD, 0, 0, 0, code(&last)]);
        if let Some(a) = &last {
            check!(Arc::strong_count(a) == 2, "count", "register's last value has {} references", Arc::strong_count(a));
        }
        drop(last);
        // dropping the register releases its value
        let r = unsafe { Box::from_raw(reg as *const AtomicArc<Tok, L> as *mut AtomicArc<Tok, L>) };
        let r = outside(|| *r);
        drop(r);
        linearizable(c0, step, "atomic reference");
    })
}
pub fn reg_sa() {
    engine::<SA>(true)
}
pub fn reg_rust() {
    engine::<RustAlloc>(true)
}
/// The listed finding: loading races with the last release of the value loaded.
pub fn known_load() {
    engine::<SA>(true)
}
