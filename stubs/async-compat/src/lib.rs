//! The part of async-compat that safer_ffi uses: a future polled (and dropped) within a reactor's context.
use std::{future::Future, pin::Pin, task::{Context, Poll}};

pub struct Compat<F>(Option<F>);
impl<F> Compat<F> {
    pub fn new(f: F) -> Self { Compat(Some(f)) }
}
impl<F: Future> Future for Compat<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let _in = tokio::model::Depth::enter(&tokio::model::REACTOR);
        unsafe { self.map_unchecked_mut(|s| s.0.as_mut().unwrap()) }.poll(cx)
    }
}
impl<F> Drop for Compat<F> {
    fn drop(&mut self) {
        let _in = tokio::model::Depth::enter(&tokio::model::REACTOR);
        self.0 = None;
    }
}
