//! What a harness sees of the symbolic executor. `replay.rs` implements the same functions natively.
#![allow(dead_code)]

extern "C" {
    fn se_symbolic(p: *mut u8, n: usize, name: *const u8, len: usize);
    fn se_assume(c: bool);
    fn se_assert(c: bool, msg: *const u8, len: usize);
    fn se_cover(msg: *const u8, len: usize);
    fn se_log(v: u64);
    fn se_heap_live() -> usize;
    fn se_heap_allocs() -> usize;
    fn se_abort_ok(b: bool);
    fn se_concrete(v: usize) -> usize;
    fn se_is_native() -> bool;
    fn se_try(f: extern "C" fn(*mut u8), data: *mut u8) -> bool;
    fn se_spawn(f: extern "C" fn(*mut u8), data: *mut u8);
    fn se_join_all();
}

/// Plain data: every bit pattern is a value.
pub unsafe trait Plain: Copy {}
macro_rules! plain { ($($t:ty)*) => { $( unsafe impl Plain for $t {} )* } }
plain!(u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize f32 f64);
unsafe impl<T: Plain, const N: usize> Plain for [T; N] {}

/// An arbitrary value.
#[inline(always)]
pub fn any<T: Plain>(name: &str) -> T {
    let mut v = core::mem::MaybeUninit::<T>::uninit();
    unsafe {
        se_symbolic(v.as_mut_ptr().cast(), core::mem::size_of::<T>(), name.as_ptr(), name.len());
        v.assume_init()
    }
}
pub fn any_bool(name: &str) -> bool {
    any::<u8>(name) & 1 != 0
}
/// Any value of `0..=max`; the executor takes the values one by one (so that sizes are concrete on each path).
pub fn any_len(name: &str, max: usize) -> usize {
    let n: usize = any(name);
    assume(n <= max);
    unsafe { se_concrete(n) }
}
/// Any value of `lo..=hi`, one by one.
pub fn any_in(name: &str, lo: usize, hi: usize) -> usize {
    let n: usize = any(name);
    assume(lo <= n && n <= hi);
    unsafe { se_concrete(n) }
}
/// Any value of `0..=max`, kept symbolic.
pub fn any_upto(name: &str, max: usize) -> usize {
    let n: usize = any(name);
    assume(n <= max);
    n
}
#[inline(always)]
pub fn assume(c: bool) { unsafe { se_assume(c) } }
#[inline(always)]
pub fn check(c: bool, msg: &str) { unsafe { se_assert(c, msg.as_ptr(), msg.len()) } }
#[inline(always)]
pub fn cover(msg: &str) { unsafe { se_cover(msg.as_ptr(), msg.len()) } }
pub fn log(v: u64) { unsafe { se_log(v) } }
pub fn live() -> usize { unsafe { se_heap_live() } }
pub fn allocs() -> usize { unsafe { se_heap_allocs() } }
pub fn abort_ok(b: bool) { unsafe { se_abort_ok(b) } }
pub fn concrete(v: usize) -> usize { unsafe { se_concrete(v) } }
pub fn is_native() -> bool { unsafe { se_is_native() } }

/// What a panic with a message has as its payload, as the engine sees it.
pub struct Message;
#[no_mangle]
pub static SE_PAYLOAD: &(dyn core::any::Any + Send + Sync) = &Message;

/// Runs `f`; `None` if it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct D<F, R> { f: Option<F>, r: Option<R> }
    extern "C" fn go<R, F: FnOnce() -> R>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<F, R>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d = D::<F, R> { f: Some(f), r: None };
    let panicked = unsafe { se_try(go::<R, F>, &mut d as *mut D<F, R> as *mut u8) };
    if panicked { None } else { d.r.take() }
}
/// Starts a thread; `join_all` waits for all of them.
pub fn spawn<F: FnOnce()>(f: F) {
    extern "C" fn go<F: FnOnce()>(p: *mut u8) {
        let f = unsafe { Box::from_raw(p as *mut F) };
        f()
    }
    let b = Box::into_raw(Box::new(f));
    unsafe { se_spawn(go::<F>, b as *mut u8) }
}
pub fn join_all() { unsafe { se_join_all() } }

/// Byte-wise equality without a branch per byte.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

/// `harness!(name, { body })`: an entry point of the executor and of the native replay.
#[macro_export]
macro_rules! harness {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C" fn $name() $body
    };
}
