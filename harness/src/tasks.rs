//! `safer_ffi::dyn_traits::futures`: FFI futures and executors.
use crate::{harness, sx::*, util::*};
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use safer_ffi::dyn_traits::futures::*;
use safer_ffi::dyn_traits::*;
use safer_ffi::layout::{from_raw, into_raw};
use safer_ffi::prelude::*;
use std::sync::{Arc, Mutex};

/// A waker that counts.
static mut WAKES: u32 = 0;
static mut WAKERS: i32 = 0;
static mut NAME: usize = 0;
unsafe fn w_clone(p: *const ()) -> RawWaker { check(p as usize == NAME, "our waker"); WAKERS += 1; RawWaker::new(p, &TABLE) }
unsafe fn w_wake(p: *const ()) { check(p as usize == NAME, "our waker"); WAKES += 1; WAKERS -= 1; }
unsafe fn w_wake_by_ref(p: *const ()) { check(p as usize == NAME, "our waker"); WAKES += 1; }
unsafe fn w_drop(p: *const ()) { check(p as usize == NAME, "our waker"); WAKERS -= 1; }
static TABLE: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
fn waker() -> Waker { unsafe { NAME = 0x7700; WAKERS += 1; Waker::from_raw(RawWaker::new(0x7700 as *const (), &TABLE)) } }
fn wakes() -> u32 { unsafe { WAKES } }
fn wakers() -> i32 { unsafe { WAKERS } }

static mut POLLS: u32 = 0;
fn polls() -> u32 { unsafe { POLLS } }

/// Completes at the poll its pattern says; wakes as its pattern says.
pub struct Work { d: D, ready: u32, wake: u8, kept: Option<Waker> }
fn work(ready: u32, wake: u8) -> Work { Work { d: D::new(4), ready, wake, kept: None } }
impl Future for Work {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        check((&self.d).v == 4, "the future is alive while polled");
        let n = polls();
        unsafe { POLLS += 1 }
        if n >= self.ready { return Poll::Ready(()); }
        if self.wake & (1 << (2 * n)) != 0 { cx.waker().wake_by_ref(); }
        if self.wake & (2 << (2 * n)) != 0 { self.kept = Some(cx.waker().clone()); }
        Poll::Pending
    }
}
fn want_wakes(wake: u8, pending: u32) -> u32 { (0..pending).filter(|n| wake & (1 << (2 * n)) != 0).count() as u32 }

fn poll_all<S: ?Sized + ReprCTrait>(p: &mut VirtualPtr<S>, ready: u32, wake: u8, times: u32) where VirtualPtr<S>: FfiFuture + Unpin {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for i in 0..times {
        let r = Pin::new(&mut *p).dyn_poll(&mut cx);
        check(polls() == i + 1, "one poll is one poll of the wrapped future");
        check((r == PollFuture::Completed) == (i >= ready), "completed exactly when the wrapped future is");
        check((r == PollFuture::Pending) == (i < ready), "pending exactly when the wrapped future is");
        check(wakes() == want_wakes(wake, (i + 1).min(ready)), "wake-ups reach the poller's waker");
        if i >= ready { cover("completed"); break; }
    }
}
//@ prop=D03 bounds="futures that complete at their 1st to 4th poll or are dropped before, waking and keeping wakers in every pattern; boxed and borrowed, Send or not; moved through C"
harness!(h_future_poll, {
    let ready = any_len("ready", 3) as u32;
    let wake: u8 = any("wake");
    let wake = concrete((wake & 63) as usize) as u8;
    let times = any_len("times", 4) as u32;
    match any_len("kind", 3) {
        0 => {
            let mut p: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(work(ready, wake)).into();
            poll_all(&mut p, ready, wake, times);
            check(alive() == 1, "not dropped by polling");
        }
        1 => {
            let p: VirtualPtr<dyn 'static + FfiFuture> = Box::pin(work(ready, wake)).into();
            let c = unsafe { into_raw(p) };
            let mut p: VirtualPtr<dyn 'static + FfiFuture> = unsafe { from_raw(c) }.unwrap();
            poll_all(&mut p, ready, wake, times);
        }
        2 => {
            let mut f = work(ready, wake);
            {
                let mut p: VirtualPtr<dyn '_ + FfiFuture> = Pin::new(&mut f).into();
                poll_all(&mut p, ready, wake, times);
            }
            check(alive() == 1, "a borrowed future is not dropped");
        }
        _ => {
            let mut f = work(ready, wake);
            {
                let mut p: VirtualPtr<dyn '_ + Send + FfiFuture> = Pin::new(&mut f).into();
                poll_all(&mut p, ready, wake, times);
            }
            check(alive() == 1, "a borrowed future is not dropped");
        }
    }
    check(alive() == 0 && dropped() == 1, "the wrapped future is dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

fn drive<F: Future<Output = ()>>(f: F, ready: u32, wake: u8, times: u32) {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for i in 0..times {
        let r = f.as_mut().poll(&mut cx);
        check(polls() == i + 1, "one poll is one poll of the wrapped future");
        check(r.is_ready() == (i >= ready), "resolves exactly when the wrapped future completes");
        check(wakes() == want_wakes(wake, (i + 1).min(ready)), "wake-ups reach the poller's waker");
        if r.is_ready() { check(alive() == 0, "dropped on completion"); cover("completed"); break; }
        check(alive() == 1, "kept while pending");
    }
}
//@ prop=D03 bounds="the same, turned back into a future; twice over (an FFI future of an FFI future)"
harness!(h_future_into, {
    let ready = any_len("ready", 3) as u32;
    let wake: u8 = any("wake");
    let wake = concrete((wake & 63) as usize) as u8;
    let times = any_len("times", 4) as u32;
    match any_len("kind", 2) {
        0 => {
            let p: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(work(ready, wake)).into();
            drive(p.into_future(), ready, wake, times);
        }
        1 => {
            let p: VirtualPtr<dyn 'static + FfiFuture> = Box::pin(work(ready, wake)).into();
            drive(p.into_future(), ready, wake, times);
        }
        _ => {
            let p: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(work(ready, wake)).into();
            let q: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(p.into_future()).into();
            drive(q.into_future(), ready, wake, times);
        }
    }
    check(alive() == 0 && dropped() == 1, "the wrapped future is dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

static mut C_LEFT: u32 = 0;
static mut C_FREED: u32 = 0;
extern "C" fn c_poll(p: *mut u32, _cx: *mut u8) -> i8 { unsafe { POLLS += 1; *p += 1; if *p > C_LEFT { 0 } else { -1 } } }
extern "C" fn c_free(_: *mut u32) { unsafe { C_FREED += 1 } }
extern "C" {
    fn rust_future_task_context_wake(cx: *const u8);
    fn rust_future_task_context_get_waker(cx: *const u8) -> RawWakerFn;
}
#[repr(C)] struct RawWakerFn { env: *mut u8, call: *mut u8, release: *mut u8, retain: *mut u8 }
//@ prop=D03 bounds="a future written in C, polled up to 4 times; the C wake and get-waker helpers"
harness!(h_future_foreign, {
    #[repr(C)] struct Raw { ptr: *mut u32, free: extern "C" fn(*mut u32), poll: extern "C" fn(*mut u32, *mut u8) -> i8 }
    let left = any_len("left", 3) as u32;
    unsafe { C_LEFT = left }
    let mut n = 0u32;
    let w = waker();
    {
        let p: VirtualPtr<dyn 'static + Send + FfiFuture> = unsafe { core::mem::transmute(Raw { ptr: &mut n, free: c_free, poll: c_poll }) };
        let mut f = Box::pin(p.into_future());
        let mut cx = Context::from_waker(&w);
        for i in 0..4 {
            let r = f.as_mut().poll(&mut cx);
            check(polls() == i + 1, "polled once");
            check(r.is_ready() == (i >= left), "-1 is pending, 0 is completed");
            if r.is_ready() { cover("completed"); break; }
            check(unsafe { C_FREED } == 0, "not freed yet");
        }
    }
    check(unsafe { C_FREED } == 1, "freed once");
    let cx = Context::from_waker(&w);
    unsafe { rust_future_task_context_wake(&cx as *const _ as *const u8) }
    check(wakes() == 1 && wakers() == 1, "the C helper wakes the context's waker");
    let g: repr_c::Arc<dyn 'static + Send + Sync + Fn()> = unsafe { core::mem::transmute(rust_future_task_context_get_waker(&cx as *const _ as *const u8)) };
    check(wakers() == 2, "the C helper clones the waker");
    g.call();
    let h = g.clone();
    h.call();
    check(wakes() == 3 && wakers() == 2, "each call wakes");
    drop(g);
    check(wakers() == 2, "kept by the clone");
    drop(h);
    drop(w);
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

// ---- executors ----

static mut RAN: u32 = 0;
fn ran() -> u32 { unsafe { RAN } }
/// What an executor does with the work it is given.
#[derive(Clone)]
struct Exec { d: D, mode: usize, later: Arc<Mutex<Option<VirtualPtr<dyn 'static + Send + FfiFuture>>>>, action: Arc<Mutex<Option<repr_c::Box<dyn 'static + Send + FnMut()>>>> }
fn exec(mode: usize) -> Exec { Exec { d: D::new(8), mode, later: Default::default(), action: Default::default() } }
struct Never;
impl Future for Never { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
struct Done;
impl Future for Done { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) } }
fn poll_now(f: &mut VirtualPtr<dyn 'static + Send + FfiFuture>) -> PollFuture {
    let w = waker();
    Pin::new(f).dyn_poll(&mut Context::from_waker(&w))
}
impl FfiFutureExecutor for Exec {
    fn dyn_spawn(&self, mut future: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        check((&self.d).v == 8, "the executor is alive");
        match self.mode {
            // runs it when polled
            0 => Box::pin(future.into_future()).into(),
            // runs it at once
            1 => { while poll_now(&mut future) == PollFuture::Pending {} Box::pin(Done).into() }
            // drops it
            2 => { drop(future); Box::pin(Done).into() }
            // drops it and never says so
            3 => { drop(future); Box::pin(Never).into() }
            // keeps it for later, and says it is done
            4 => { *self.later.lock().unwrap() = Some(future); Box::pin(Done).into() }
            // polls it once and drops it
            _ => { let _ = poll_now(&mut future); drop(future); Box::pin(Done).into() }
        }
    }
    fn dyn_spawn_blocking(&self, mut action: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> {
        check((&self.d).v == 8, "the executor is alive");
        match self.mode {
            0 => Box::pin(async move { action.call() }).into(),
            1 => { action.call(); Box::pin(Done).into() }
            2 => { drop(action); Box::pin(Done).into() }
            3 => { drop(action); Box::pin(Never).into() }
            4 => { *self.action.lock().unwrap() = Some(action); Box::pin(Done).into() }
            // calls it twice
            _ => { action.call(); check(catch(|| action.call()).is_none(), "a second call of the work panics"); Box::pin(Done).into() }
        }
    }
    fn dyn_block_on(&self, mut future: VirtualPtr<dyn '_ + FfiFuture>) {
        check((&self.d).v == 8, "the executor is alive");
        let w = waker();
        let mut cx = Context::from_waker(&w);
        match self.mode {
            0 => while Pin::new(&mut future).dyn_poll(&mut cx) == PollFuture::Pending {},
            1 => { let f = future.into_future(); let mut f = Box::pin(f); while f.as_mut().poll(&mut cx).is_pending() {} }
            // never polls it
            2 => drop(future),
            // polls it once
            3 => { let _ = Pin::new(&mut future).dyn_poll(&mut cx); }
            // polls it twice
            4 => { if Pin::new(&mut future).dyn_poll(&mut cx) == PollFuture::Pending { let _ = Pin::new(&mut future).dyn_poll(&mut cx); } }
            _ => {}
        }
    }
}
/// A task with a result, which counts its runs.
async fn task(ready: u32, k: u32) -> D { work(ready, 0).await; unsafe { RAN += 1 } D::new(k) }

type Plain = VirtualPtr<dyn 'static + FfiFutureExecutor>;
type Shared = VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync>;
fn check_spawn<F: Future<Output = D>>(f: F, mode: usize, ready: u32, k: u32, e: &Exec) {
    let mut f = Box::pin(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    let mut done = false;
    for i in 0..4 {
        let r = catch(|| f.as_mut().poll(&mut cx));
        match r {
            None => {
                check(mode == 2 || mode == 5 && ready > 0, "only dropped tasks panic");
                check(ran() == 0, "it did not run");
                cover("dropped task");
                done = true;
                break;
            }
            Some(Poll::Ready(d)) => {
                check(d.v == k, "the result is the task's");
                check(ran() == 1, "it ran once");
                check(match mode { 0 => i >= ready, 1 => true, 4 => i > ready, 5 => ready == 0, _ => false }, "not before the task completed");
                cover("result");
                done = true;
                break;
            }
            Some(Poll::Pending) => {
                check(match mode { 0 => i < ready, 3 => true, 4 => i <= ready, _ => false }, "pending only while the task is");
                if mode == 4 {
                    let before = wakes();
                    let mut l = e.later.lock().unwrap();
                    let over = poll_now(l.as_mut().unwrap()) == PollFuture::Completed;
                    check(over == (i >= ready), "the kept task proceeds");
                    check((wakes() > before) == over, "its completion wakes whoever awaits the result");
                    if over { *l = None; }
                }
            }
        }
    }
    check(done || mode == 3, "resolved");
}
//@ prop=D04 bounds="spawn on executors that run the task when polled, at once, later, once only, or drop it (silently or not); tasks completing at their 1st to 3rd poll; results of every value; both kinds of executor pointers, cloned or not"
harness!(h_exec_spawn, {
    let mode = any_len("mode", 5);
    let ready = any_len("ready", 2) as u32;
    let k: u32 = any("k");
    let e = exec(mode);
    if any_len("shared", 1) == 1 {
        let x: Shared = Arc::new(e.clone()).into();
        let y = x.clone();
        drop(x);
        let f = y.spawn(task(ready, k));
        check_spawn(f, mode, ready, k, &e);
    } else {
        let x: Plain = Box::new(e.clone()).into();
        let y = x.clone();
        let f = y.spawn(task(ready, k));
        drop((x, y));
        check_spawn(f, mode, ready, k, &e);
    }
    drop(e);
    check(alive() == 0, "the executor, the task and its result are dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="spawn_blocking on executors that run the work when polled, at once, later, twice, or drop it; results of every value"
harness!(h_exec_blocking, {
    let mode = any_len("mode", 5);
    let k: u32 = any("k");
    let e = exec(mode);
    let x: Plain = Box::new(e.clone()).into();
    let captured = D::new(77);
    let f = x.spawn_blocking(move || { check((&captured).v == 77, "captures are alive"); unsafe { RAN += 1 } D::new(k) });
    {
        let mut f = Box::pin(f);
        let w = waker();
        let mut cx = Context::from_waker(&w);
        let mut r = f.as_mut().poll(&mut cx);
        if mode == 4 {
            check(r.is_pending() && ran() == 0, "pending until the work ran");
            if any_len("run", 1) == 1 { e.action.lock().unwrap().take().unwrap().call(); } else { *e.action.lock().unwrap() = None; }
            check(wakes() == 1, "its completion wakes whoever awaits the result");
            r = f.as_mut().poll(&mut cx);
        }
        match r {
            Poll::Pending => check(mode == 3 && ran() == 0, "pending only if the executor never answers"),
            Poll::Ready(Ok(d)) => { check(mode != 2 && mode != 3 && ran() == 1 && d.v == k, "the result is the work's, which ran once"); cover("result"); }
            Poll::Ready(Err(_)) => { check((mode == 2 || mode == 4) && ran() == 0, "canceled exactly when it did not run"); cover("canceled"); }
        }
    }
    drop((x, e));
    check(alive() == 0, "the executor, the work and its result are dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="block_on on executors that poll to completion (two ways), never, once, twice; tasks completing at their 1st to 4th poll, borrowing locals; results of every value; both kinds of executor pointers"
harness!(h_exec_block_on, {
    let mode = any_len("mode", 5);
    let ready = any_len("ready", 3) as u32;
    let k: u32 = any("k");
    let shared = any_len("shared", 1) == 1;
    {
        let local = D::new(k);
        let fut = async { work(ready, 0).await; unsafe { RAN += 1 } check((&local).v == k, "locals are alive"); D::new(local.v ^ 1) };
        let r = if shared {
            let x: Shared = Arc::new(exec(mode)).into();
            catch(move || { let r = x.block_on(fut); drop(x); r })
        } else {
            let x: Plain = Box::new(exec(mode)).into();
            catch(move || x.block_on(fut))
        };
        let expect = match mode { 0 | 1 => true, 3 => ready == 0, 4 => ready <= 1, _ => false };
        match r {
            Some(d) => { check(expect && d.v == k ^ 1 && ran() == 1, "the result is the future's, which ran once"); cover("result"); }
            None => { check(!expect && ran() == 0, "a panic exactly when the executor did not finish it"); cover("unfinished"); }
        }
        check(polls() == match mode { 0 | 1 => ready + 1, 3 => 1, 4 => if ready == 0 { 1 } else { 2 }, _ => 0 }, "polled as often as the executor polled");
    }
    check(alive() == 0, "everything is dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="nested: block_on of a spawn and a spawn_blocking; entering (default and own guards)"
harness!(h_exec_nested, {
    let ready = any_len("ready", 2) as u32;
    let k: u32 = any("k");
    let mode = any_len("mode", 1);
    {
        let x: Shared = Arc::new(exec(mode)).into();
        let r = x.block_on(async {
            let d = x.spawn(task(ready, k)).await;
            let n = d.v;
            let b = x.spawn_blocking(move || n ^ 3).await;
            match b { Ok(v) => v, Err(_) => { check(false, "it was not canceled"); 0 } }
        });
        check(r == k ^ 3 && ran() == 1, "results pass through");
        {
            let g = x.enter();
            let _ = &g;
            check(alive() == 1, "only the executor");
        }
        // an executor with a guard of its own
        struct Own(D);
        impl FfiFutureExecutor for Own {
            fn dyn_spawn(&self, f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { f }
            fn dyn_spawn_blocking(&self, _: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { Box::pin(Done).into() }
            fn dyn_block_on(&self, _: VirtualPtr<dyn '_ + FfiFuture>) {}
            fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> { Box::new(ImplDropGlue(D::new(self.0.v))).into() }
        }
        impl Clone for Own { fn clone(&self) -> Own { Own(self.0.clone()) } }
        let y: Plain = Box::new(Own(D::new(3))).into();
        {
            let g = y.enter();
            check(alive() == 3, "the guard is alive while entered");
            drop(g);
            check(alive() == 2, "and dropped on leaving");
        }
        cover("entered");
    }
    check(alive() == 0, "everything is dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

// The executor that safer_ffi implements: tokio's `Handle` (over the model of tokio in stubs/).
use tokio::runtime::Handle;
use tokio::model::{context, reactor};
static mut PANICS: bool = false;
/// A task of a tokio runtime, which may panic with `k`.
async fn tokio_task(ready: u32, k: u32, in_reactor: bool) -> D {
    let d = D::new(k);
    check(context() == 1, "polled by the runtime");
    check((reactor() == 1) == in_reactor, "polled in the reactor's context if asked to");
    work(ready, 0).await;
    check((reactor() == 1) == in_reactor, "always");
    unsafe {
        RAN += 1;
        if PANICS { std::panic::resume_unwind(Box::new(d)) }
    }
    d
}
/// The value of the result, or of the panic.
fn outcome<R>(f: impl FnOnce() -> R) -> Result<R, Option<u32>> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| p.downcast::<D>().ok().map(|d| d.v))
}
fn handle_box(h: Handle, shared: bool) -> Result<Shared, Plain> {
    if shared { Ok(Arc::new(h).into()) } else { Err(Box::new(h).into()) }
}
//@ prop=D04 bounds="the executor implemented for tokio's Handle, over a model of tokio: spawn (with and without its reactor) of tasks that complete at their 1st to 3rd poll, panic, or are cancelled before or after their first poll; awaited before or after, or not at all; results of every value; both kinds of executor pointers, cloned"
harness!(h_tokio_spawn, {
    let ready = any_len("ready", 2) as u32;
    let k: u32 = any("k");
    let fate = any_len("fate", 3); // completes, panics, is cancelled at once, is cancelled later
    let in_reactor = any_len("reactor", 1) == 1;
    let early = any_len("early", 1) == 1;
    unsafe { PANICS = fate == 1 }
    let w = waker();
    {
        let h = Handle::model(w.clone());
        let mut cx = Context::from_waker(&w);
        let mut f: Pin<Box<dyn Future<Output = D>>> = match handle_box(h.clone(), any_len("shared", 1) == 1) {
            Ok(x) => { let y = x.clone(); drop(x); if in_reactor { Box::pin(y.spawn_within_tokio_reactor(tokio_task(ready, k, true))) } else { Box::pin(y.spawn(tokio_task(ready, k, false))) } }
            Err(x) => { let y = x.clone(); drop(x); if in_reactor { Box::pin(y.spawn_within_tokio_reactor(tokio_task(ready, k, true))) } else { Box::pin(y.spawn(tokio_task(ready, k, false))) } }
        };
        check(h.jobs() == 1 && h.blocking() == 0 && polls() == 0, "the task is the runtime's");
        let keep = any_len("keep", 1) == 1;
        if early && keep { check(f.as_mut().poll(&mut cx).is_pending(), "pending before it ran"); }
        if !keep { drop(f); f = Box::pin(task(0, 0)); check(h.jobs() == 1, "the task goes on, unobserved"); cover("detached"); }
        let before = wakes();
        match fate {
            2 => h.cancel(0),
            3 => { let over = h.run(0, &mut cx); if !over { h.cancel(0); } }
            _ => { let mut n = 0; while !h.run(0, &mut cx) { n += 1; check(keep && early || wakes() == before, "no early wake-up"); } check(n == ready, "one poll is one poll"); }
        }
        let ran_to_end = fate < 2 || fate == 3 && ready == 0;
        check(ran() == ran_to_end as u32, "it ran to its end, once, or was cancelled");
        if keep {
            if early { check(wakes() > before, "the end wakes whoever awaits the result"); }
            match outcome(|| f.as_mut().poll(&mut cx)) {
                Ok(Poll::Ready(d)) => { check(ran_to_end && fate != 1 && d.v == k, "the result is the task's"); cover("result"); }
                Ok(Poll::Pending) => check(false, "it is over"),
                Err(Some(v)) => { check(fate == 1 && v == k, "a task's panic reaches whoever awaits it"); cover("panicked"); }
                Err(None) => { check(!ran_to_end, "awaiting a cancelled task panics"); cover("cancelled"); }
            }
        }
        check(h.jobs() == 0, "nothing else was spawned");
        check(context() == 0 && reactor() == 0, "contexts are left");
    }
    drop(w);
    check(alive() == 0, "the task and its result are dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="the executor implemented for tokio's Handle, over a model of tokio: spawn_blocking of work that completes, panics or is cancelled, awaited before or after; results of every value; both kinds of executor pointers"
harness!(h_tokio_blocking, {
    let k: u32 = any("k");
    let fate = any_len("fate", 2);
    let early = any_len("early", 1) == 1;
    let w = waker();
    {
        let h = Handle::model(w.clone());
        let mut cx = Context::from_waker(&w);
        let captured = D::new(77);
        let job = move || {
            check((&captured).v == 77 && context() == 1, "runs in the runtime, captures alive");
            unsafe { RAN += 1 }
            let d = D::new(k);
            if fate == 1 { std::panic::resume_unwind(Box::new(d)) }
            d
        };
        let mut f: Pin<Box<dyn Future<Output = Result<D, _>>>> = match handle_box(h.clone(), any_len("shared", 1) == 1) {
            Ok(x) => Box::pin(x.spawn_blocking(job)),
            Err(x) => Box::pin(x.spawn_blocking(job)),
        };
        check(h.blocking() == 1 && h.jobs() == 0 && ran() == 0, "the work is for the runtime's blocking threads");
        if early { check(f.as_mut().poll(&mut cx).is_pending(), "pending before it ran"); }
        let before = wakes();
        if fate == 2 { h.cancel_blocking(); check(alive() == 0, "cancelled work is dropped"); } else { h.run_blocking(&mut cx); check(ran() == 1, "it ran"); }
        if early { check(wakes() > before, "the end wakes whoever awaits the result"); }
        match outcome(|| f.as_mut().poll(&mut cx)) {
            Ok(Poll::Ready(Ok(d))) => { check(fate == 0 && d.v == k, "the result is the work's"); cover("result"); }
            Ok(Poll::Ready(Err(_))) => { check(fate == 2 && ran() == 0, "canceled exactly when it did not run"); cover("canceled"); }
            Ok(Poll::Pending) => check(false, "it is over"),
            Err(v) => { check(fate == 1 && v == Some(k), "the work's panic reaches whoever awaits it"); cover("panicked"); }
        }
        check(ran() == (fate != 2) as u32 && h.jobs() == 0 && h.blocking() == 0, "it ran once at most");
    }
    drop(w);
    check(alive() == 0, "the work and its result are dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="the executor implemented for tokio's Handle, over a model of tokio: block_on (with and without its reactor) of futures that complete at their 1st to 3rd poll or panic and borrow locals, alone or awaiting a spawned task and blocking work; entering, nested; both kinds of executor pointers"
harness!(h_tokio_block_on, {
    let ready = any_len("ready", 2) as u32;
    let k: u32 = any("k");
    let in_reactor = any_len("reactor", 1) == 1;
    let w = waker();
    {
        let h = Handle::model(w.clone());
        unsafe { PANICS = any_len("panics", 1) == 1 }
        let local = D::new(k);
        let fut = async { let d = tokio_task(ready, k, in_reactor).await; check((&local).v == k, "locals are alive"); D::new(d.v ^ 1) };
        let r = match handle_box(h.clone(), any_len("shared", 1) == 1) {
            Ok(x) => outcome(|| if in_reactor { x.block_on_within_tokio_reactor(fut) } else { x.block_on(fut) }),
            Err(x) => outcome(|| if in_reactor { x.block_on_within_tokio_reactor(fut) } else { x.block_on(fut) }),
        };
        check(polls() == ready + 1 && ran() == 1, "polled to its end");
        match r {
            Ok(d) => { check(unsafe { !PANICS } && d.v == k ^ 1, "the result is the future's"); cover("result"); }
            Err(v) => { check(unsafe { PANICS } && v == Some(k), "a panic goes through"); cover("panicked"); }
        }
        check(context() == 0 && reactor() == 0 && h.jobs() == 0, "contexts are left, nothing was spawned");
    }
    drop(w);
    check(alive() == 0, "everything is dropped once");
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});

//@ prop=D04 bounds="the executor implemented for tokio's Handle, over a model of tokio: entering, nested and left in order; block_on that awaits a spawned task and blocking work"
harness!(h_tokio_enter, {
    let k: u32 = any("k");
    let w = waker();
    {
        let h = Handle::model(w.clone());
        let x: Shared = Arc::new(h.clone()).into();
        {
            let g = x.enter();
            check(context() == 1, "entered while the guard lives");
            if any_len("nested", 1) == 1 {
                let y: Plain = Box::new(h.clone()).into();
                let g2 = y.enter();
                check(context() == 2, "entered again");
                drop(g2);
                check(context() == 1, "left once");
                cover("nested");
            }
            drop(g);
        }
        check(context() == 0, "left");
        let r = x.block_on(async {
            let t = x.spawn(async move { k ^ 5 });
            let b = x.spawn_blocking(move || k ^ 3);
            (t.await, b.await.ok())
        });
        check(r == (k ^ 5, Some(k ^ 3)), "results pass through");
        cover("nested tasks");
        check(context() == 0 && h.jobs() == 0 && h.blocking() == 0, "all over");
    }
    drop(w);
    check(wakers() == 0, "no waker leaks");
    check(live() == 0, "nothing leaks");
});
