//! A model of the part of tokio's runtime that safer_ffi uses: what tokio documents of `Handle` and
//! `JoinHandle`, with a scheduler that does exactly what the harness tells it to.
use std::any::Any;
use std::future::Future;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub mod model {
    use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
    /// How often a runtime's context is entered.
    pub static CONTEXT: AtomicI32 = AtomicI32::new(0);
    /// How often async-compat's reactor is.
    pub static REACTOR: AtomicI32 = AtomicI32::new(0);
    pub struct Depth(&'static AtomicI32);
    impl Depth {
        pub fn enter(which: &'static AtomicI32) -> Self { which.fetch_add(1, SeqCst); Depth(which) }
    }
    impl Drop for Depth {
        fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); }
    }
    pub fn context() -> i32 { CONTEXT.load(SeqCst) }
    pub fn reactor() -> i32 { REACTOR.load(SeqCst) }
}
use model::*;

enum Cause { Panic(Box<dyn Any + Send + 'static>), Cancelled }
pub mod task {
    pub use super::{JoinError, JoinHandle};
}
pub struct JoinError(Cause);
impl JoinError {
    pub fn is_cancelled(&self) -> bool { matches!(self.0, Cause::Cancelled) }
    pub fn is_panic(&self) -> bool { !self.is_cancelled() }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        match self.try_into_panic() { Ok(p) => p, Err(_) => panic!("`JoinError` reason is not a panic.") }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.0 { Cause::Panic(p) => Ok(p), Cause::Cancelled => Err(self) }
    }
}
impl std::fmt::Debug for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinError") }
}

struct Slot<T> { done: Option<Result<T, JoinError>>, taken: bool, waker: Option<Waker> }
fn finish<T>(slot: &Mutex<Slot<T>>, r: Result<T, JoinError>) {
    let w = { let mut s = slot.lock().unwrap(); s.done = Some(r); s.waker.take() };
    if let Some(w) = w { w.wake(); }
}
pub struct JoinHandle<T>(Arc<Mutex<Slot<T>>>);
impl<T> JoinHandle<T> {
    pub fn abort(&self) { unimplemented!() }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.0.lock().unwrap();
        assert!(!s.taken, "JoinHandle polled after completion");
        match s.done.take() {
            Some(r) => { s.taken = true; Poll::Ready(r) }
            None => { s.waker = Some(cx.waker().clone()); Poll::Pending }
        }
    }
}

/// What a worker can do with a task.
trait Job: Send {
    /// Runs it (a future: polls it once); whether it is over.
    fn run(&mut self, cx: &mut Context<'_>) -> bool;
    fn cancel(&mut self);
}
struct Task<F: Future> { f: Option<Pin<Box<F>>>, slot: Arc<Mutex<Slot<F::Output>>> }
impl<F: Future + Send> Job for Task<F> where F::Output: Send {
    fn run(&mut self, cx: &mut Context<'_>) -> bool {
        let f = self.f.as_mut().unwrap();
        let r = {
            let _in = Depth::enter(&CONTEXT);
            catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx)))
        };
        let r = match r { Ok(Poll::Pending) => return false, Ok(Poll::Ready(v)) => Ok(v), Err(p) => Err(JoinError(Cause::Panic(p))) };
        self.f = None;
        finish(&self.slot, r);
        true
    }
    fn cancel(&mut self) { self.f = None; finish(&self.slot, Err(JoinError(Cause::Cancelled))); }
}
struct Blocking<F, R> { f: Option<F>, slot: Arc<Mutex<Slot<R>>> }
impl<F: Send + FnOnce() -> R, R: Send> Job for Blocking<F, R> {
    fn run(&mut self, _: &mut Context<'_>) -> bool {
        let f = self.f.take().unwrap();
        let r = {
            let _in = Depth::enter(&CONTEXT);
            catch_unwind(AssertUnwindSafe(f))
        };
        finish(&self.slot, r.map_err(|p| JoinError(Cause::Panic(p))));
        true
    }
    fn cancel(&mut self) { self.f = None; finish(&self.slot, Err(JoinError(Cause::Cancelled))); }
}

pub mod runtime {
    use super::*;
    #[derive(Default)]
    struct Shared { jobs: Mutex<Vec<Box<dyn Job>>>, blocking: Mutex<Vec<Box<dyn Job>>>, waker: Mutex<Option<Waker>> }
    #[derive(Clone, Default)]
    pub struct Handle(Arc<Shared>);
    pub struct EnterGuard<'a>(#[allow(dead_code)] Depth, PhantomData<&'a Handle>);

    fn slot<T>() -> Arc<Mutex<Slot<T>>> { Arc::new(Mutex::new(Slot { done: None, taken: false, waker: None })) }
    impl Handle {
        pub fn spawn<F: Future + Send + 'static>(&self, f: F) -> JoinHandle<F::Output> where F::Output: Send + 'static {
            let slot = slot();
            self.0.jobs.lock().unwrap().push(Box::new(Task { f: Some(Box::pin(f)), slot: slot.clone() }));
            JoinHandle(slot)
        }
        pub fn spawn_blocking<F: FnOnce() -> R + Send + 'static, R: Send + 'static>(&self, f: F) -> JoinHandle<R> {
            let slot = slot();
            self.0.blocking.lock().unwrap().push(Box::new(Blocking { f: Some(f), slot: slot.clone() }));
            JoinHandle(slot)
        }
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            let mut f = Box::pin(f);
            let w = self.0.waker.lock().unwrap().clone().unwrap();
            let mut cx = Context::from_waker(&w);
            let _in = Depth::enter(&CONTEXT);
            loop {
                if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; }
                // the other workers proceed
                while self.jobs() > 0 && !self.run(0, &mut cx) {}
                while self.blocking() > 0 { self.run_blocking(&mut cx); }
            }
        }
        pub fn enter(&self) -> EnterGuard<'_> { EnterGuard(Depth::enter(&CONTEXT), PhantomData) }

        // What the harness uses.
        pub fn model(w: Waker) -> Self { let h = Handle::default(); *h.0.waker.lock().unwrap() = Some(w); h }
        pub fn jobs(&self) -> usize { self.0.jobs.lock().unwrap().len() }
        pub fn blocking(&self) -> usize { self.0.blocking.lock().unwrap().len() }
        /// Polls a task once; whether it is over.
        pub fn run(&self, i: usize, cx: &mut Context<'_>) -> bool {
            let mut job = self.0.jobs.lock().unwrap().remove(i);
            let over = job.run(cx);
            if !over { self.0.jobs.lock().unwrap().insert(i, job); }
            over
        }
        pub fn cancel(&self, i: usize) {
            let mut job = self.0.jobs.lock().unwrap().remove(i);
            job.cancel();
        }
        pub fn run_blocking(&self, cx: &mut Context<'_>) {
            let mut job = self.0.blocking.lock().unwrap().remove(0);
            job.run(cx);
        }
        pub fn cancel_blocking(&self) {
            let mut job = self.0.blocking.lock().unwrap().remove(0);
            job.cancel();
        }
    }
}
