//! Registries of dispatch tables: concurrent registration, failing allocations.
use crate::h::*;
use simrt::*;
use stabby_abi::vtable::{VTableRegistry, VtBtree, VtVec};

type Fake = *const ();
/// Contents of the tables the threads ask for: several lengths, shared prefixes, equal contents.
fn content(k: usize) -> Vec<Fake> {
    let base = [11usize, 12, 13, 11, 12, 14, 11, 15];
    let n = 1 + k % 3;
    (0..n).map(|i| (base[(k + i) % 8] * 8 + if i + 1 == n { k / 3 * 8 } else { 0 }) as Fake).collect()
}
struct Got {
    want: Vec<Fake>,
    at: usize,
}
fn verify(all: &[Got]) -> usize {
    outside(|| {
        let mut by: std::collections::BTreeMap<Vec<usize>, usize> = Default::default();
        for g in all {
            let k: Vec<usize> = g.want.iter().map(|p| *p as usize).collect();
            check!(is_live(g.at as *const u8, k.len() * 8), "dead-table", "a registered table of {} entries lies in dead memory", k.len());
            let now: Vec<usize> = (0..k.len()).map(|i| unsafe { *(g.at as *const usize).add(i) }).collect();
            check!(now == k, "wrong-table", "asked for {k:x?}, the registry's table holds {now:x?}");
            if let Some(p) = by.insert(k.clone(), g.at) {
                check!(p == g.at, "duplicate-table", "two tables with the same content {k:x?}");
            }
        }
        by.len()
    })
}
fn engine<R: VTableRegistry + 'static>(mk: fn() -> R, watched: bool, faulty: bool) {
    run(|| {
        set_faults(false);
        let reg: &'static R = Box::leak(Box::new(mk()));
        if watched {
            watch(reg as *const R as usize);
        }
        let all: &'static mut Vec<Got> = outside(|| Box::leak(Box::default()));
        let all_p = all as *mut Vec<Got> as usize;
        let nk = [2, 4, 9, 16][choose(4)];
        let ins = move |k: usize, faults: bool| {
            let want = outside(|| content(k));
            log(|| format!("registers {want:x?}"));
            if faults {
                set_faults(true);
                set_malloc_faults(true);
            }
            let r = if faults { catch(|| reg.insert(&want)) } else { Some(reg.insert(&want)) };
            end_window();
            if faults {
                set_malloc_faults(false);
                set_faults(false);
            }
            match r {
                Some(p) => {
                    let at = p.as_ptr() as usize;
                    // the table must be readable right away, by this thread
                    for (i, w) in want.iter().enumerate() {
                        let x = unsafe { *p.as_ptr().add(i) };
                        check!(x == *w, "wrong-table", "asked for {want:x?}, entry {i} of the table is {x:?}");
                    }
                    outside(|| unsafe { (*(all_p as *mut Vec<Got>)).push(Got { want, at }) });
                }
                None => {
                    probe("registration_failed");
                    outside(|| drop(want));
                }
            }
        };
        for _ in 0..choose(8) {
            ins(choose(nk), false);
        }
        let nt = 1 + choose(3);
        let mut ids = [0; 3];
        for t in 0..nt {
            let n = 1 + choose(5);
            ids[t] = spawn(move || {
                for _ in 0..n {
                    ins(choose(nk), faulty);
                }
            });
        }
        for t in 0..nt {
            join_thread(ids[t]);
        }
        let before = verify(all);
        // everything registered so far is found again, and the registry still works
        for k in 0..nk {
            ins(k, false);
        }
        let distinct = verify(all);
        check!(distinct >= before, "lost-table", "fewer tables than before");
        drop(unsafe { Box::from_raw(reg as *const R as *mut R) });
        let n = verify(all);
        check!(live_blocks() == n, "table-leak", "{} blocks remain allocated for {n} registered tables", live_blocks());
        set_leak_check(false);
        outside(|| drop(unsafe { Box::from_raw(all_p as *mut Vec<Got>) }));
    })
}
pub fn btree() {
    engine::<VtBtree<5>>(VtBtree::new, false, false)
}
pub fn btree_faults() {
    engine::<VtBtree<5>>(VtBtree::new, false, true)
}
pub fn vec() {
    engine::<VtVec>(|| VtVec::new(None), true, false)
}
pub fn vec_faults() {
    engine::<VtVec>(|| VtVec::new(None), true, true)
}
