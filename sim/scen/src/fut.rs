//! Futures polled through the stable interface, by executors and reactors under the simulator's control.
use crate::h::*;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use simrt::*;
use stabby::vtable;
use stabby_abi::alloc::boxed::Box as SBox;
use stabby_abi::future::{MaybeResolved, StableWaker};
use stabby_abi::{Dyn, IDeterminantProvider, IStable};
use std::collections::VecDeque;

// ------------------------------------------------------------------------------- the world outside
/// Executors' and reactors' bookkeeping; host memory, no effect on happens-before.
#[derive(Default)]
struct World {
    refs: Vec<i64>,
    /// per thread: wake-ups that arrived at an original waker, and the task of the last one
    wakes: Vec<u64>,
    last: Vec<usize>,
    queue: VecDeque<usize>,
    st: Vec<St>,
    mail: VecDeque<(usize, Waker)>,
    waiting: Vec<usize>,
    live: usize,
    got: Vec<Option<u32>>,
    want: Vec<u32>,
    futs: Vec<Option<Pin<Box<dyn Future<Output = u32>>>>>,
    polls: u64,
    no_reactor: bool,
}
#[derive(Clone, Copy, PartialEq, Debug, Default)]
enum St {
    #[default]
    Idle,
    Queued,
    Running,
    /// woken while running
    Again,
    Done,
}
static mut WORLD: Option<World> = None;
fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    outside(|| f(unsafe { (*core::ptr::addr_of_mut!(WORLD)).get_or_insert_with(World::default) }))
}
fn kick_all() {
    let mut all = w(|w| core::mem::take(&mut w.waiting));
    while let Some(t) = all.pop() {
        unpark(t)
    }
    outside(|| drop(all))
}
fn wait() {
    let m = me();
    w(|w| {
        if !w.waiting.contains(&m) {
            w.waiting.push(m)
        }
    });
    park();
}
const CH: usize = 0x3000;

// ------------------------------------------------------------------------------- the original waker
struct Orig {
    task: usize,
    magic: u64,
}
const MAGIC: u64 = 0x0a11_900d_0a11_900d;
static OVT: RawWakerVTable = RawWakerVTable::new(o_clone, o_wake, o_wake_by_ref, o_drop);
unsafe fn touch(p: *const ()) -> usize {
    let o = &*(p as *const Orig);
    check!(o.magic == MAGIC, "garbage-waker", "the original waker was called with a pointer to {:#x}", o.magic);
    let r = w(|w| w.refs[o.task]);
    check!(r > 0, "dead-waker", "the original waker of task {} was used after its last reference was released", o.task);
    o.task
}
unsafe fn o_clone(p: *const ()) -> RawWaker {
    let t = touch(p);
    w(|w| w.refs[t] += 1);
    RawWaker::new(p, &OVT)
}
unsafe fn o_wake_by_ref(p: *const ()) {
    let t = touch(p);
    release(CH + t);
    let m = me();
    let queued = w(|w| {
        w.wakes[m] += 1;
        w.last[m] = t;
        match w.st[t] {
            St::Idle => {
                w.st[t] = St::Queued;
                w.queue.push_back(t);
                true
            }
            St::Running => {
                w.st[t] = St::Again;
                false
            }
            _ => false,
        }
    });
    if queued {
        kick_all();
    }
}
unsafe fn o_wake(p: *const ()) {
    o_wake_by_ref(p);
    o_drop(p);
}
unsafe fn o_drop(p: *const ()) {
    let t = touch(p);
    release(CH + 100 + t);
    if w(|w| {
        w.refs[t] -= 1;
        w.refs[t] == 0
    }) {
        acquire(CH + 100 + t);
        drop(Box::from_raw(p as *mut Orig));
    }
}
fn mk_waker(task: usize) -> Waker {
    w(|w| {
        while w.refs.len() <= task {
            w.refs.push(0)
        }
        w.refs[task] = 1;
    });
    let o = Box::new(Orig { task, magic: MAGIC });
    unsafe { Waker::from_raw(RawWaker::new(Box::into_raw(o) as *const (), &OVT)) }
}
/// A wake-up through any waker must reach the original one, once, before the call returns.
fn expect_wake(task: usize, f: impl FnOnce()) {
    let m = me();
    let before = w(|w| w.wakes[m]);
    f();
    let (after, last) = w(|w| (w.wakes[m], w.last[m]));
    check!(after == before + 1, "wake-ups", "one wake-up of task {task} reached the original waker {} times", after - before);
    check!(last == task, "wake-ups", "a wake-up of task {task} reached task {last}");
}
fn wake_ref(task: usize, k: &Waker) {
    expect_wake(task, || k.wake_by_ref());
}
fn wake_own(task: usize, k: Waker) {
    expect_wake(task, || k.wake());
}
fn send(task: usize, k: Waker) {
    if w(|w| w.no_reactor) {
        return play(task, k);
    }
    log(|| format!("sends a waker of task {task}"));
    release(CH + 200);
    w(|w| w.mail.push_back((task, k)));
    kick_all();
}

// ------------------------------------------------------------------------------- outputs
pub trait Out: Sized + 'static + IStable + Unpin + Send + Sync + IDeterminantProvider<()> {
    fn mk(v: u32) -> Self;
    fn see(&self) -> u32;
    /// what of `v` the output keeps
    fn keep(v: u32) -> u32 {
        v
    }
}
impl Out for Tok {
    fn mk(v: u32) -> Self {
        Tok::new(v)
    }
    fn see(&self) -> u32 {
        self.v()
    }
}
impl Out for () {
    fn mk(_: u32) {}
    fn see(&self) -> u32 {
        0
    }
    fn keep(_: u32) -> u32 {
        0
    }
}
impl Out for bool {
    fn mk(v: u32) -> bool {
        v & 1 == 1
    }
    fn see(&self) -> u32 {
        let b = unsafe { *(self as *const bool as *const u8) };
        check!(b < 2, "garbage", "a boolean output holds {b}");
        b as u32
    }
    fn keep(v: u32) -> u32 {
        v & 1
    }
}
impl Out for u64 {
    fn mk(v: u32) -> u64 {
        v as u64 * 0x1_0000_0001
    }
    fn see(&self) -> u32 {
        check!(*self >> 32 == *self & 0xffff_ffff, "torn-value", "output {self:#x}");
        *self as u32
    }
}
impl Out for SBox<Tok> {
    fn mk(v: u32) -> Self {
        SBox::new(Tok::new(v))
    }
    fn see(&self) -> u32 {
        (**self).v()
    }
}
type RTU = stabby::result::Result<Tok, u8>;
impl Out for RTU {
    fn mk(v: u32) -> Self {
        if v & 1 == 1 {
            RTU::Ok(Tok::new(v))
        } else {
            RTU::Err(v as u8)
        }
    }
    fn see(&self) -> u32 {
        self.match_ref(|t| t.v(), |e| *e as u32)
    }
    fn keep(v: u32) -> u32 {
        if v & 1 == 1 {
            v
        } else {
            v & 0xff
        }
    }
}
type OBT = stabby::option::Option<SBox<Tok>>;
impl Out for OBT {
    fn mk(v: u32) -> Self {
        if v & 1 == 1 {
            OBT::Some(SBox::new(Tok::new(v)))
        } else {
            OBT::None()
        }
    }
    fn see(&self) -> u32 {
        self.match_ref(|t| (**t).v(), || 0)
    }
    fn keep(v: u32) -> u32 {
        if v & 1 == 1 {
            v
        } else {
            0
        }
    }
}

// ------------------------------------------------------------------------------- the leaf future
pub struct Sc<O> {
    tok: Tok,
    task: usize,
    left: usize,
    out: u32,
    done: bool,
    saved: Option<Waker>,
    _o: core::marker::PhantomData<fn() -> O>,
}
impl<O: Out> Sc<O> {
    fn new(task: usize, left: usize, out: u32) -> Self {
        Sc { tok: Tok::new(out), task, left, out, done: false, saved: None, _o: core::marker::PhantomData }
    }
}
impl<O: Out> Future for Sc<O> {
    type Output = O;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<O> {
        let s = self.get_mut();
        check!(s.tok.v() == s.out, "torn-value", "the state of a future changed between polls");
        check!(!s.done, "polled-again", "a future that resolved was polled again");
        w(|w| w.polls += 1);
        let k = cx.waker();
        if let Some(old) = s.saved.take() {
            match choose(4) {
                0 => drop(old),
                1 => wake_own(s.task, old),
                2 => {
                    if old.will_wake(k) {
                        probe("will_wake");
                    }
                    s.saved = Some(old);
                }
                _ => {
                    let mut old = old;
                    old.clone_from(k);
                    s.saved = Some(old);
                }
            }
        }
        if s.left == 0 {
            s.done = true;
            if chance(1, 4) {
                wake_ref(s.task, k);
            }
            return Poll::Ready(O::mk(s.out));
        }
        s.left -= 1;
        match choose(8) {
            0 => wake_ref(s.task, k),
            1 => wake_own(s.task, k.clone()),
            2 | 3 => send(s.task, k.clone()),
            4 => {
                let a = k.clone();
                send(s.task, a.clone());
                send(s.task, a);
            }
            5 => {
                s.saved = Some(k.clone());
                send(s.task, k.clone());
            }
            6 => {
                let a = s.saved.insert(k.clone());
                send(s.task, a.clone());
            }
            _ => {
                let a = k.clone();
                drop(a.clone());
                wake_ref(s.task, &a);
                wake_own(s.task, a);
            }
        }
        Poll::Pending
    }
}

// ------------------------------------------------------------------------------- crossings
type D0<O> = Dyn<'static, SBox<()>, vtable!(stabby::future::Future<Output = O>)>;
type DS<O> = Dyn<'static, SBox<()>, vtable!(stabby::future::Future<Output = O> + Send)>;
type DY<O> = Dyn<'static, SBox<()>, vtable!(stabby::future::Future<Output = O> + Sync)>;
type DSY<O> = Dyn<'static, SBox<()>, vtable!(stabby::future::Future<Output = O> + Send + Sync)>;
type DYS<O> = Dyn<'static, SBox<()>, vtable!(stabby::future::Future<Output = O> + Sync + Send)>;
type DSA<O> = Dyn<'static, SBox<(), SA>, vtable!(stabby::future::Future<Output = O> + Send)>;
type DM<'a, O> = Dyn<'a, &'a mut (), vtable!(stabby::future::Future<Output = O>)>;

type Native = Pin<Box<dyn Future<Output = u32>>>;
async fn seen<O: Out>(f: impl Future<Output = O>) -> u32 {
    f.await.see()
}
async fn twice<O: Out>(a: D0<O>, b: DS<O>) -> u32 {
    let x = a.await;
    let y = b.await;
    check!(x.see() == y.see(), "wrong-output", "two futures of one task resolved to {} and {}", x.see(), y.see());
    x.see()
}
/// Both at once: the one that is ready first is not polled any more.
struct Join<A: Future, B: Future>(A, B, Option<A::Output>, Option<B::Output>);
impl<O: Out, A: Future<Output = O> + Unpin, B: Future<Output = O> + Unpin> Future for Join<A, B> {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let s = self.get_mut();
        if s.2.is_none() {
            if let Poll::Ready(o) = Pin::new(&mut s.0).poll(cx) {
                s.2 = Some(o);
            }
        }
        if s.3.is_none() {
            if let Poll::Ready(o) = Pin::new(&mut s.1).poll(cx) {
                s.3 = Some(o);
            }
        }
        match (&s.2, &s.3) {
            (Some(a), Some(b)) => {
                check!(a.see() == b.see(), "wrong-output", "two futures of one task resolved to {} and {}", a.see(), b.see());
                let r = a.see();
                s.2 = None;
                Poll::Ready(r)
            }
            _ => Poll::Pending,
        }
    }
}
/// Polls once more after the end: a `MaybeResolved` that was consumed stays pending.
struct Over<F>(F, usize);
impl<O: Out, F: Future<Output = O> + Unpin> Future for Over<F> {
    type Output = u32;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u32> {
        let s = self.get_mut();
        match Pin::new(&mut s.0).poll(cx) {
            Poll::Ready(o) => {
                let r = o.see();
                for _ in 0..s.1 {
                    if let Poll::Ready(o) = Pin::new(&mut s.0).poll(cx) {
                        core::mem::forget(o);
                        fail("resolved-twice", || "a future that was consumed resolved again".into())
                    }
                }
                Poll::Ready(r)
            }
            Poll::Pending => Poll::Pending,
        }
    }
}
fn leaf<O: Out>(t: usize, out: u32) -> Sc<O> {
    Sc::new(t, choose(4), out)
}
fn build<O: Out>(t: usize, out: u32) -> Native {
    let l = || leaf::<O>(t, out);
    match choose(11) {
        0 => Box::pin(seen(l())),
        9 => Box::pin(seen(DYS::<O>::from(SBox::new(l())))),
        1 => Box::pin(seen(D0::<O>::from(SBox::new(l())))),
        2 => Box::pin(seen(DS::<O>::from(SBox::new(l())))),
        3 => Box::pin(seen(DY::<O>::from(SBox::new(l())))),
        4 => Box::pin(seen(DSY::<O>::from(SBox::new(l())))),
        5 => match SBox::try_new_in(l(), SA::mk()) {
            Ok(b) => Box::pin(seen(DSA::<O>::from(b))),
            Err(_) => Box::pin(seen(l())),
        },
        6 => {
            // crosses several times
            let a = DSY::<O>::from(SBox::new(l()));
            let b = D0::<O>::from(SBox::new(a));
            if choose(2) == 0 {
                Box::pin(seen(b))
            } else {
                Box::pin(seen(D0::<O>::from(SBox::new(b))))
            }
        }
        7 => Box::pin(twice(SBox::new(l()).into(), SBox::new(l()).into())),
        8 => Box::pin(Join(DSY::<O>::from(SBox::new(l())), DY::<O>::from(SBox::new(l())), None, None)),
        _ => {
            let mut sc = l();
            Box::pin(async move {
                let d: DM<O> = (&mut sc).into();
                d.await.see()
            })
        }
    }
}
fn maybe<O: Out + IDeterminantProvider<stabby_abi::Result<(), DSY<O>>>>(t: usize, out: u32) -> Native
where
    (): IDeterminantProvider<DSY<O>>,
{
    let l = || leaf::<O>(t, out);
    let m: MaybeResolved<O, DSY<O>> =
        if choose(2) == 0 { MaybeResolved::Resolved(O::mk(out)) } else { MaybeResolved::Pending(SBox::new(l()).into()) };
    match choose(3) {
        0 => Box::pin(seen(m)),
        1 => Box::pin(Over(m, 1 + choose(2))),
        _ => Box::pin(seen(D0::<O>::from(SBox::new(m)))),
    }
}
/// What the macros make of `async`.
mod far {
    use super::*;
    #[allow(unused_imports)]
    use stabby::boxed::Box;
    #[stabby::stabby]
    pub async fn far_async(a: DSY<Tok>) -> Tok {
        a.await
    }
    #[stabby::stabby]
    pub trait Later {
        extern "C" fn later<'a>(&'a mut self, b: u32) -> stabby::future::DynFuture<'a, Tok>;
    }
}
use far::{far_async, Later, LaterDynMut};
#[stabby::stabby]
pub struct Lat {
    t: usize,
    n: usize,
}
impl Later for Lat {
    extern "C" fn later<'a>(&'a mut self, b: u32) -> stabby::future::DynFuture<'a, Tok> {
        let l: DSY<Tok> = if self.t == usize::MAX { never() } else { SBox::new(leaf::<Tok>(self.t, b)).into() };
        SBox::new(async move {
            let t = l.await;
            self.n += 1;
            t
        })
        .into()
    }
}
fn never() -> DSY<Tok> {
    SBox::new(core::future::pending::<Tok>()).into()
}
type DL = Dyn<'static, SBox<()>, vtable!(Later + Send)>;
fn asyncs(t: usize, out: u32) -> Native {
    if choose(2) == 0 {
        Box::pin(seen(far_async(SBox::new(leaf::<Tok>(t, out)).into())))
    } else {
        Box::pin(async move {
            let mut d: DL = SBox::new(Lat { t, n: 0 }).into();
            let v = d.later(out).await;
            let v2 = if choose(2) == 0 { Some(d.later(out).await) } else { None };
            drop((v2, d));
            v.see()
        })
    }
}
fn any(t: usize, out: u32) -> (Native, u32) {
    macro_rules! k {
        ($($i: literal: $f: ident $t: ty),*) => { match choose(15) { 14 => (asyncs(t, out), out), $($i => ($f::<$t>(t, out), <$t>::keep(out)),)* _ => unreachable!() } }
    }
    k!(0: build Tok, 1: build (), 2: build bool, 3: build u64, 4: build SBox<Tok>, 5: build RTU, 6: build OBT,
       7: maybe Tok, 8: maybe (), 9: maybe bool, 10: maybe u64, 11: maybe SBox<Tok>, 12: maybe RTU, 13: maybe OBT)
}

// ------------------------------------------------------------------------------- executors, reactors
fn executor(cancel: bool) {
    loop {
        let next = w(|w| {
            let t = w.queue.pop_front();
            if let Some(t) = t {
                w.st[t] = St::Running;
            }
            (t, w.live)
        });
        let t = match next {
            (Some(t), _) => t,
            (None, 0) => return,
            (None, _) => {
                wait();
                continue;
            }
        };
        acquire(CH + t);
        acquire(CH + 300 + t);
        let mut f = w(|w| w.futs[t].take()).expect("a queued task has a future");
        let mut end = None;
        if cancel && chance(1, 8) {
            log(|| format!("cancels task {t}"));
            probe("cancelled");
            drop(f);
            end = Some(None);
        } else {
            log(|| format!("polls task {t}"));
            // the waker handed to this poll is released right after it
            let k = own_waker(t);
            let r = f.as_mut().poll(&mut Context::from_waker(&k));
            if chance(1, 2) {
                drop(k);
            } else {
                // it outlives the future
                if r.is_ready() {
                    drop(f);
                    wake_ref(t, &k);
                    drop(k);
                    f = Box::pin(async { 0 });
                } else {
                    drop(k);
                }
            }
            match r {
                Poll::Ready(v) => {
                    drop(f);
                    end = Some(Some(v));
                }
                Poll::Pending => {
                    if chance(1, 8) {
                        // spurious
                        let k = own_waker(t);
                        if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&k)) {
                            end = Some(Some(v));
                        }
                        drop(k);
                    }
                    if end.is_some() {
                        drop(f);
                    } else {
                        w(|w| w.futs[t] = Some(f));
                    }
                }
            }
        }
        release(CH + 300 + t);
        let kick = w(|w| match end {
            Some(v) => {
                w.got[t] = v;
                w.st[t] = St::Done;
                w.live -= 1;
                w.live == 0
            }
            None if w.st[t] == St::Again => {
                w.st[t] = St::Queued;
                w.queue.push_back(t);
                true
            }
            None => {
                w.st[t] = St::Idle;
                false
            }
        });
        if kick {
            kick_all();
        }
    }
}
/// A reference to the task's original waker, as executors keep one.
fn own_waker(t: usize) -> Waker {
    let p = w(|w| w.refs[t]);
    check!(p > 0, "dead-waker", "the executor's own waker of task {t} is gone");
    let k = unsafe { &*KEEP.add(t) };
    k.clone()
}
static mut KEEP: *mut Waker = core::ptr::null_mut();

fn reactor() {
    loop {
        let (m, live) = w(|w| {
            let n = w.mail.len();
            (if n > 0 { Some(()) } else { None }, w.live)
        });
        if m.is_none() {
            if live == 0 {
                return;
            }
            wait();
            continue;
        }
        let i = choose(3);
        let (t, k) = w(|w| {
            let i = i % w.mail.len();
            w.mail.remove(i).unwrap()
        });
        acquire(CH + 200);
        log(|| format!("has a waker of task {t}"));
        play(t, k);
    }
}
/// Uses a waker in all ways, at least one of which wakes its task.
fn play(t: usize, k: Waker) {
    let mut all = [Some(k), None, None];
    for _ in 0..choose(5) {
        match choose(6) {
            0 | 1 => {
                let c = all[0].clone();
                all[1 + choose(2)] = c;
            }
            2 => {
                if let Some(k) = all[1 + choose(2)].take() {
                    wake_own(t, k);
                }
            }
            3 => {
                if let Some(k) = &all[choose(3)] {
                    wake_ref(t, k);
                }
            }
            4 => {
                if let Some(k) = all[1 + choose(2)].take() {
                    let live = w(|w| w.live);
                    if live > 0 && chance(1, 2) {
                        send(t, k);
                    } else {
                        drop(k);
                    }
                }
            }
            _ => {
                // another future is polled with it, on this side of the boundary
                let k = all[0].as_ref().unwrap();
                let mut f = DSY::<Tok>::from(SBox::new(Sc::<Tok>::new(t, choose(2), 77)));
                if let Poll::Ready(x) = Pin::new(&mut f).poll(&mut Context::from_waker(k)) {
                    check!(x.v() == 77, "wrong-output", "resolved to {}", x.v());
                }
            }
        }
    }
    let k = all[0].take().unwrap();
    if choose(2) == 0 {
        wake_own(t, k);
        drop(all);
    } else {
        wake_ref(t, &k);
        drop(k);
    }
}
fn world(nexec: usize, nreact: usize, cancel: bool) {
    run(|| {
        set_faults(false);
        outside(|| unsafe { *core::ptr::addr_of_mut!(WORLD) = None });
        let n = 1 + choose(3);
        w(|w| {
            w.wakes = vec![0; 8];
            w.last = vec![usize::MAX; 8];
            w.st = vec![St::Queued; n];
            w.got = vec![None; n];
            w.queue = (0..n).collect();
            w.live = n;
            w.no_reactor = nreact == 0;
        });
        let mut keep: Vec<Waker> = (0..n).map(mk_waker).collect();
        unsafe { KEEP = keep.as_mut_ptr() };
        for t in 0..n {
            let (f, want) = any(t, 1 + choose(200) as u32);
            w(|w| {
                w.futs.push(Some(f));
                w.want.push(want)
            });
        }
        let mut ids = outside(Vec::new);
        for _ in 1..nexec {
            let id = spawn(move || executor(cancel));
            outside(|| ids.push(id));
        }
        for _ in 0..nreact {
            let id = spawn(reactor);
            outside(|| ids.push(id));
        }
        executor(cancel);
        kick_all();
        for t in ids.iter() {
            join_thread(*t);
        }
        outside(|| drop(ids));
        // late: the tasks are over, wakers are still around
        while let Some((t, k)) = w(|w| w.mail.pop_front()) {
            acquire(CH + 200);
            play(t, k);
        }
        for t in 0..n {
            let (got, want) = w(|w| (w.got[t], w.want[t]));
            match got {
                Some(g) => check!(g == want, "wrong-output", "task {t} resolved to {g} instead of {want}"),
                None => check!(cancel, "unresolved", "task {t} never resolved"),
            }
            let r = w(|w| w.refs[t]);
            check!(r == 1, "waker-references", "{} references to the original waker of task {t} were not released", r - 1);
        }
        drop(keep);
        outside(|| unsafe { *core::ptr::addr_of_mut!(WORLD) = None });
    })
}
pub fn tasks() {
    world(1, 1 + choose(2), true)
}
pub fn migrating() {
    world(2, 1 + choose(2), true)
}
pub fn single() {
    world(1, 0, false)
}

// ------------------------------------------------------------------------------- wakers alone
/// One waker crosses the boundary, in both allocators, any number of times; all of it in plain sight.
fn cross<A: HAlloc>(t: usize, k: &Waker, depth: usize, into: &mut Vec<Waker>) {
    let s = StableWaker::<A>::from(k);
    s.with_waker(|k| {
        for _ in 0..1 + choose(3) {
            match choose(5) {
                0 => wake_ref(t, k),
                1 => into.push(k.clone()),
                2 => {
                    let c = k.clone();
                    wake_own(t, c)
                }
                3 => {
                    let c = k.clone();
                    into.push(c.clone());
                    wake_ref(t, &c);
                }
                _ => {
                    if depth > 0 {
                        if choose(2) == 0 {
                            cross::<A>(t, k, depth - 1, into)
                        } else {
                            cross::<RustAlloc>(t, k, depth - 1, into)
                        }
                    }
                }
            }
        }
    })
}
fn wakers_in<A: HAlloc>() {
    run(|| {
        set_faults(false);
        outside(|| unsafe { *core::ptr::addr_of_mut!(WORLD) = None });
        w(|w| {
            w.wakes = vec![0; 8];
            w.last = vec![usize::MAX; 8];
            w.st = vec![St::Done; 1];
        });
        let k = mk_waker(0);
        let mut all = Vec::new();
        cross::<A>(0, &k, 2, &mut all);
        drop(k);
        let n = choose(3);
        let mut ids = outside(Vec::new);
        for _ in 0..n {
            let m = all.len() / 2;
            let mine: Vec<Waker> = all.split_off(m);
            let id = spawn(move || {
                for k in mine {
                    play(0, k)
                }
            });
            outside(|| ids.push(id));
        }
        for k in all {
            if choose(2) == 0 {
                let mut v = Vec::new();
                cross::<A>(0, &k, 1, &mut v);
                for k in v {
                    play(0, k)
                }
            }
            play(0, k)
        }
        for t in ids.iter() {
            join_thread(*t);
        }
        outside(|| drop(ids));
        while let Some((t, k)) = w(|w| w.mail.pop_front()) {
            acquire(CH + 200);
            play(t, k);
        }
        let r = w(|w| w.refs[0]);
        check!(r == 0, "waker-references", "{r} references to the original waker were not released");
        outside(|| unsafe { *core::ptr::addr_of_mut!(WORLD) = None });
    })
}
pub fn wakers() {
    match choose(3) {
        0 => wakers_in::<RustAlloc>(),
        1 => wakers_in::<LibcAlloc>(),
        _ => wakers_in::<SA>(),
    }
}
pub fn warm() {
    macro_rules! v {
        ($($d: ident $o: ty: $t: ty;)*) => {$(
            warm_vt::<$t, $d<$o>>();
        )*};
    }
    macro_rules! o {
        ($($o: ty),*) => {$(
            v!(D0 $o: Sc<$o>; DS $o: Sc<$o>; DY $o: Sc<$o>; DSY $o: Sc<$o>; DYS $o: Sc<$o>; DSA $o: Sc<$o>; D0 $o: DSY<$o>; D0 $o: D0<$o>; D0 $o: MaybeResolved<$o, DSY<$o>>;);
        )*};
    }
    o!(Tok, (), bool, u64, SBox<Tok>, RTU, OBT);
    macro_rules! m {
        ($($o: ty),*) => {$( warm_vt::<Sc<$o>, DM<'static, $o>>(); )*};
    }
    m!(Tok, (), bool, u64, SBox<Tok>, RTU, OBT);
    warm_vt::<Lat, DL>();
    drop(far_async(never()));
    drop(Lat { t: usize::MAX, n: 0 }.later(0));
}
fn warm_vt<T, D: crate::dynt::VtOf>()
where
    D::Vt: stabby_abi::vtable::IConstConstructor<'static, T>,
{
    let _ = <D::Vt as stabby_abi::vtable::IConstConstructor<'static, T>>::vtable();
}
