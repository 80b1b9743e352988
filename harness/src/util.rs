//! Shared by the harness files.
use crate::sx::*;
use core::fmt;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub fn pick(name: &str, of: &[usize]) -> usize { of[any_len(name, of.len() - 1)] }

pub struct Fold(pub u64);
impl core::hash::Hasher for Fold {
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = self.0.rotate_left(7) ^ (x as u64) ^ 0x100; } }
    fn finish(&self) -> u64 { self.0 }
}
pub fn hash_of<T: core::hash::Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fold(1);
    t.hash(&mut h);
    core::hash::Hasher::finish(&h)
}

/// Collects formatted text, without allocating.
pub struct Text { pub n: usize, pub b: [u8; 128] }
impl fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for &c in s.as_bytes() {
            if self.n < 128 { self.b[self.n] = c; }
            self.n += 1;
        }
        Ok(())
    }
}
pub fn debug_of<T: fmt::Debug + ?Sized>(t: &T) -> Text {
    let mut x = Text { n: 0, b: [0; 128] };
    let _ = fmt::write(&mut x, format_args!("{:?}", t));
    x
}
pub fn display_of<T: fmt::Display + ?Sized>(t: &T) -> Text {
    let mut x = Text { n: 0, b: [0; 128] };
    let _ = fmt::write(&mut x, format_args!("{}", t));
    x
}
pub fn same_text(a: &Text, b: &Text) -> bool { a.n == b.n && same(&a.b, &b.b) }

/// An element that counts its drops and clones. `MADE - DROPPED` elements are alive.
pub static MADE: AtomicUsize = AtomicUsize::new(0);
pub static DROPPED: AtomicUsize = AtomicUsize::new(0);
pub static CLONED: AtomicUsize = AtomicUsize::new(0);
const ALIVE: u32 = 0x600d;
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
#[safer_ffi::derive_ReprC]
#[repr(C)]
pub struct D { pub v: u32, live: u32 }
impl D {
    pub fn new(v: u32) -> D { MADE.fetch_add(1, Relaxed); D { v, live: ALIVE } }
}
impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        check(self.live == ALIVE, "a dropped element is formatted");
        f.write_str("D")
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        check(self.live == ALIVE, "a dropped element is cloned");
        CLONED.fetch_add(1, Relaxed);
        D::new(self.v)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        check(self.live == ALIVE, "an element is dropped twice");
        self.live = 0;
        DROPPED.fetch_add(1, Relaxed);
    }
}
pub fn made() -> usize { MADE.load(Relaxed) }
pub fn dropped() -> usize { DROPPED.load(Relaxed) }
pub fn cloned() -> usize { CLONED.load(Relaxed) }
pub fn alive() -> usize { made() - dropped() }

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[safer_ffi::derive_ReprC]
#[repr(C)]
pub struct Pair { pub a: u8, pub b: u64 }
impl fmt::Debug for Pair {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("P") }
}
pub fn any_pair(name: &str) -> Pair {
    let [a, b]: [u64; 2] = any(name);
    Pair { a: a as u8, b }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(32))]
pub struct Wide(pub u64);
impl fmt::Debug for Wide {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("W") }
}

/// A type without destructor whose `Clone` leaves a mark.
#[safer_ffi::derive_ReprC]
#[repr(C)]
#[derive(Debug)]
pub struct Gen { pub n: u64, pub made: u64 }
impl Clone for Gen { fn clone(&self) -> Gen { Gen { n: self.n, made: self.made + 1 } } }

/// Lengths around the sizes where a narrow integer or a buffer of a usual size ends.
pub const LENGTHS: [usize; 19] = [15, 16, 17, 31, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 4096, 32768, 65535, 65536, 65537];
pub fn any_length(name: &str) -> usize { LENGTHS[any_len(name, LENGTHS.len() - 1)] }
/// `n` elements, of which the first, the last and the middle pairs are `x`, and all others `fill`.
pub fn bulk<T: Copy>(n: usize, fill: T, x: [T; 6]) -> Vec<T> {
    let mut d: Vec<T> = Vec::with_capacity(n);
    let p = d.as_mut_ptr();
    let mut i = 0;
    while i < n && i < 16 { unsafe { p.add(i).write(fill); } i += 1; }
    // doubled, not written one by one: cheaper to execute
    while i < n { let k = if i < n - i { i } else { n - i }; unsafe { core::ptr::copy_nonoverlapping(p, p.add(i), k); } i += k; }
    unsafe { d.set_len(n) };
    let m = n / 2;
    for (i, at) in [0, 1, m - 1, m, n - 2, n - 1].into_iter().enumerate() { d[at] = x[i]; }
    d
}
