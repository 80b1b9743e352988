//! `safer_ffi::dyn_traits`: virtual pointers.
use crate::{closures::*, harness, sx::*, util::*};
use core::mem::{size_of, transmute};
use core::pin::Pin;
use safer_ffi::dyn_traits::*;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use std::rc::Rc;
use std::sync::Arc;

#[derive_ReprC(dyn)]
pub trait Shared {
    fn zero(&self);
    fn one(&self, x: u64) -> u64;
    fn two(&self, a: u8, b: i64) -> i64;
    fn big(&self, t: Big, x: u16) -> Big;
    fn many(&self, a: u8, b: u16, c: u32, d: u64, e: i8, f: f64, g: bool, h: i64) -> u64;
    fn text<'a>(&self, t: c_slice::Ref<'a, u8>) -> Option<&'a u8>;
    fn own(&self, t: repr_c::Vec<D>) -> repr_c::Box<u32>;
}
#[derive_ReprC(dyn)]
pub trait Mutable {
    fn get(&self) -> u64;
    fn set(&mut self, x: u64) -> u64;
    fn add(&mut self, x: u64, t: u32) -> Option<repr_c::Box<u64>>;
}
#[derive_ReprC(dyn, Clone)]
pub trait Dup {
    fn get(&self) -> u64;
    fn flip(&self, x: u64) -> u64;
}
#[derive_ReprC(dyn, Clone)]
pub trait DupMut {
    fn bump(&mut self) -> u64;
}
#[derive_ReprC(dyn)]
pub trait Pinned {
    fn step(self: Pin<&mut Self>, x: u64) -> u64;
    fn peek(&self) -> u64;
}
#[derive_ReprC(dyn)]
pub trait PinnedRef {
    fn look(self: Pin<&Self>, x: u64) -> u64;
    fn other(self: Pin<&'_ Self>) -> u64;
}
#[derive_ReprC(dyn)]
pub trait Generic<'a, T: 'static + safer_ffi::layout::ConcreteReprC> where T: 'a {
    fn echo(&self, t: Big) -> usize;
    fn fixed(&self) -> &'a u32;
}

#[derive_ReprC(dyn)]
pub trait Defaults {
    fn base(&self, x: u64) -> u64;
    /// may be overridden
    fn twice(&self, x: u64) -> u64 { self.base(self.base(x)) }
    #[cfg(any())]
    fn absent(&self);
    #[cfg(all())]
    fn flag(&self, a: bool, _: u16, b: Option<&u8>) -> bool;
    unsafe fn deref<'a, 'b>(&'a self, p: &'b u64, _: u8) -> &'b u64 where 'a: 'b { p }
    fn mixed(&mut self, x: &mut u64, f: Option<extern "C" fn(u64) -> u64>) { *x = f.map_or(!0, |f| f(self.base(*x))); }
    fn count(&self) -> u64 { self.base(3) }
    fn reset(&mut self) {}
    fn nothing(&self) { self.base(0); }
}

/// The value behind the pointers.
#[derive(Clone)]
pub struct Val { d: D, n: u64, k: u64 }
fn val(name: &str) -> Val { let [n, k]: [u64; 2] = any(name); Val { d: D::new(9), n, k } }
impl Val { fn ok(&self) { check((&self.d).v == 9, "the value is alive during a call"); } }
static mut HITS: [u32; 12] = [0; 12];
fn hit(i: usize) { unsafe { HITS[i] += 1 } }
fn hits(i: usize, n: u32) { unsafe { check(HITS.iter().sum::<u32>() == n && HITS[i] == n, "exactly the method that was called ran, once per call"); HITS = [0; 12]; } }

impl Shared for Val {
    fn zero(&self) { self.ok(); hit(0) }
    fn one(&self, x: u64) -> u64 { self.ok(); hit(1); x ^ self.n }
    fn two(&self, a: u8, b: i64) -> i64 { self.ok(); hit(2); b.wrapping_sub(a as i64).wrapping_add(self.n as i64) }
    fn big(&self, t: Big, x: u16) -> Big { self.ok(); hit(3); Big { a: self.k, d: x, ..t } }
    fn many(&self, a: u8, b: u16, c: u32, d: u64, e: i8, f: f64, g: bool, h: i64) -> u64 {
        self.ok();
        hit(4);
        let v = [a as u64, b as u64, c as u64, d, e as u64, f.to_bits(), g as u64, h as u64];
        v.iter().enumerate().fold(self.n, |s, (i, x)| s ^ x.rotate_left(i as u32))
    }
    fn text<'a>(&self, t: c_slice::Ref<'a, u8>) -> Option<&'a u8> { self.ok(); hit(5); t.as_slice().last() }
    fn own(&self, t: repr_c::Vec<D>) -> repr_c::Box<u32> { self.ok(); hit(6); Box::new(t.len() as u32).into() }
}
impl Mutable for Val {
    fn get(&self) -> u64 { self.ok(); hit(0); self.n }
    fn set(&mut self, x: u64) -> u64 { self.ok(); hit(1); core::mem::replace(&mut self.n, x) }
    fn add(&mut self, x: u64, t: u32) -> Option<repr_c::Box<u64>> { self.ok(); hit(2); self.n = self.n.wrapping_add(x).wrapping_add(t as u64); if self.n == 0 { None } else { Some(Box::new(self.n).into()) } }
}
impl Dup for Val {
    fn get(&self) -> u64 { self.ok(); hit(0); self.n }
    fn flip(&self, x: u64) -> u64 { self.ok(); hit(1); self.k ^ x }
}
impl DupMut for Val { fn bump(&mut self) -> u64 { self.ok(); self.n = self.n.wrapping_add(1); self.n } }
impl Pinned for Val {
    fn step(mut self: Pin<&mut Self>, x: u64) -> u64 { self.ok(); hit(0); self.n = self.n.wrapping_add(x); self.n }
    fn peek(&self) -> u64 { self.ok(); hit(1); self.n }
}
impl PinnedRef for Val {
    fn look(self: Pin<&Self>, x: u64) -> u64 { self.ok(); hit(0); self.n ^ x }
    fn other(self: Pin<&Self>) -> u64 { self.ok(); hit(1); self.k }
}
pub struct Lent<'a>(&'a u32, D);
impl<'a, T: 'static + safer_ffi::layout::ConcreteReprC> Generic<'a, T> for Lent<'a> where T: 'a {
    fn echo(&self, t: Big) -> usize { check((&self.1).v == 3, "alive"); hit(0); size_of::<T>().wrapping_add(t.d as usize) }
    fn fixed(&self) -> &'a u32 { hit(1); self.0 }
}

fn use_shared<S: ?Sized + ReprCTrait>(v: &VirtualPtr<S>, n: u64, k: u64) where VirtualPtr<S>: Shared {
    let x: u64 = any("x");
    let b = any_big("b");
    match any_len("method", 6) {
        0 => { v.zero(); hits(0, 1) }
        1 => { check(v.one(x) == x ^ n, "the result is the method's"); hits(1, 1) }
        2 => { check(v.two(x as u8, b.a as i64) == (b.a as i64).wrapping_sub((x as u8) as i64).wrapping_add(n as i64), "arguments in order"); hits(2, 1) }
        3 => { check(eq_big(&v.big(b, x as u16), &Big { a: k, d: x as u16, ..b }), "structs by value"); hits(3, 1) }
        4 => {
            let f = f64::from_bits(b.c);
            let r = v.many(b.b, b.d, x as u32, b.a, (x >> 32) as i8, f, x & 1 == 1, (!x) as i64);
            let w = [b.b as u64, b.d as u64, (x as u32) as u64, b.a, ((x >> 32) as i8) as u64, f.to_bits(), x & 1, !x];
            check(r == w.iter().enumerate().fold(n, |s, (i, y)| s ^ y.rotate_left(i as u32)), "every argument in its place");
            hits(4, 1)
        }
        5 => {
            let t = [x as u8, b.b, b.d as u8];
            let m = any_len("m", 3);
            let r = v.text((&t[..m]).into());
            check(match r { None => m == 0, Some(r) => m > 0 && r as *const u8 == &t[m - 1] as *const u8 }, "slices in, references out");
            hits(5, 1)
        }
        _ => {
            let before = alive();
            let r = v.own(vec![D::new(1), D::new(2)].into());
            check(*r == 2 && alive() == before, "owned arguments and results are handed over once");
            hits(6, 1)
        }
    }
}

//@ prop=D01,D02 bounds="`&self` traits of seven methods (up to 8 arguments; structs, slices, references and owned values among them); from a shared reference, an exclusive reference, a box, an Rc, an Arc; with and without Send + Sync; all values"
harness!(h_dyn_shared, {
    let v = val("v");
    let (n, k) = (v.n, v.k);
    let ts = any_len("ts", 1) == 1;
    let mut borrowed = false;
    match any_len("kind", 3) {
        0 => {
            let here = v;
            if ts { let p: VirtualPtr<dyn '_ + Send + Sync + Shared> = (&here).into(); use_shared(&p, n, k); } else { let p: VirtualPtr<dyn '_ + Shared> = (&here).into(); use_shared(&p, n, k); }
            check(dropped_of_val() == 0, "a borrowed value is not dropped");
            borrowed = true;
        }
        1 => {
            let mut here = v;
            if ts { let p: VirtualPtr<dyn '_ + Send + Sync + Shared> = (&mut here).into(); use_shared(&p, n, k); } else { let p: VirtualPtr<dyn '_ + Shared> = (&mut here).into(); use_shared(&p, n, k); }
            check(dropped_of_val() == 0, "a borrowed value is not dropped");
            borrowed = true;
        }
        2 => {
            let b = Box::new(v);
            let at = &*b as *const Val as usize;
            if ts { let p: VirtualPtr<dyn 'static + Send + Sync + Shared> = b.into(); check(&p.__ptr() as *const _ as usize != 0 && addr(&p) == at, "no copy"); use_shared(&p, n, k); } else { let p: VirtualPtr<dyn 'static + Shared> = b.into(); check(addr(&p) == at, "no copy"); use_shared(&p, n, k); }
        }
        _ => {
            let outside = any_len("outside", 1) == 1;
            if ts {
                let a = Arc::new(v);
                let keep = if outside { Some(a.clone()) } else { None };
                let p: VirtualPtr<dyn 'static + Send + Sync + Shared> = a.into();
                use_shared(&p, n, k);
                if let Some(a) = &keep { check(Arc::strong_count(a) == 2, "the pointer is one owner"); }
                drop(p);
                check((dropped_of_val() == 0) == outside, "dropped with the last owner");
                if let Some(a) = &keep { check(Arc::strong_count(a) == 1, "the pointer is one owner"); }
                cover("arc");
            } else {
                let a = Rc::new(v);
                let keep = if outside { Some(a.clone()) } else { None };
                let p: VirtualPtr<dyn 'static + Shared> = a.into();
                use_shared(&p, n, k);
                if let Some(a) = &keep { check(Rc::strong_count(a) == 2, "the pointer is one owner"); }
                drop(p);
                check((dropped_of_val() == 0) == outside, "dropped with the last owner");
                if let Some(a) = &keep { check(Rc::strong_count(a) == 1, "the pointer is one owner"); }
                cover("rc");
            }
        }
    }
    let _ = borrowed;
    check(alive() == 0, "the value is dropped once");
    check(live() == 0, "nothing leaks");
});
fn addr<S: ?Sized + ReprCTrait>(p: &VirtualPtr<S>) -> usize { unsafe { core::ptr::read(p as *const VirtualPtr<S> as *const usize) } }
/// Values dropped, not counting what the methods were given.
fn dropped_of_val() -> usize { 1 - alive() }

fn use_mutable<S: ?Sized + ReprCTrait>(v: &mut VirtualPtr<S>, n: u64) -> u64 where VirtualPtr<S>: Mutable {
    let [x, y]: [u64; 2] = any("xy");
    check(v.get() == n, "the value");
    hits(0, 1);
    check(v.set(x) == n, "the old value");
    hits(1, 1);
    check(v.get() == x, "the new value");
    hits(0, 1);
    let w = x.wrapping_add(y).wrapping_add(y as u32 as u64);
    check(v.add(y, y as u32).map_or(0, |z| *z) == w, "options as results");
    hits(2, 1);
    check(v.get() == w, "changes persist");
    hits(0, 1);
    w
}
//@ prop=D01,D02 bounds="`&mut self` traits; from an exclusive reference and a box; with and without Send and Sync; moved through C; all values"
harness!(h_dyn_mutable, {
    let v = val("v");
    let n = v.n;
    let own = any_len("own", 1) == 1;
    let ts = any_len("ts", 1) == 1;
    if own {
        if ts {
            let mut p: VirtualPtr<dyn 'static + Send + Sync + Mutable> = Box::new(v).into();
            use_mutable(&mut p, n);
        } else {
            let mut p: VirtualPtr<dyn 'static + Mutable> = Box::new(v).into();
            let w = use_mutable(&mut p, n);
            let c = unsafe { into_raw(p) };
            check(<VirtualPtr<dyn 'static + Mutable> as ReprC>::is_valid(&c), "valid");
            let q: VirtualPtr<dyn 'static + Mutable> = unsafe { from_raw(c) }.unwrap();
            check(q.get() == w && alive() == 1, "moved through C");
        }
    } else {
        let mut here = v;
        let w = if ts {
            let mut p: VirtualPtr<dyn '_ + Send + Sync + Mutable> = (&mut here).into();
            use_mutable(&mut p, n)
        } else {
            let mut p: VirtualPtr<dyn '_ + Mutable> = (&mut here).into();
            use_mutable(&mut p, n)
        };
        check(here.n == w && alive() == 1, "the lender sees the changes");
        cover("exclusive reference");
    }
    check(alive() == 0 && dropped() == 1, "the value is dropped once");
    check(live() == 0, "nothing leaks");
});

//@ prop=D01,D02 bounds="pinned receivers; from a pinned box, a pinned exclusive reference, a pinned shared reference, a pinned Rc and a pinned Arc; all values"
harness!(h_dyn_pinned, {
    let v = val("v");
    let (n, k) = (v.n, v.k);
    let [x, y]: [u64; 2] = any("xy");
    match any_len("kind", 7) {
        0 => {
            let mut p: VirtualPtr<dyn 'static + Pinned> = Box::pin(v).into();
            check(Pin::new(&mut p).step(x) == n.wrapping_add(x), "the result is the method's"); hits(0, 1);
            check(p.peek() == n.wrapping_add(x), "changes persist"); hits(1, 1);
        }
        1 => {
            let mut p: VirtualPtr<dyn 'static + Send + Sync + Pinned> = Box::pin(v).into();
            check(Pin::new(&mut p).step(x) == n.wrapping_add(x), "the result is the method's"); hits(0, 1);
            check(p.peek() == n.wrapping_add(x), "changes persist"); hits(1, 1);
        }
        2 => {
            let mut b = v;
            {
                let mut p: VirtualPtr<dyn '_ + Pinned> = Pin::new(&mut b).into();
                check(Pin::new(&mut p).step(x) == n.wrapping_add(x), "the result is the method's"); hits(0, 1);
                check(Pin::new(&mut p).step(y) == n.wrapping_add(x).wrapping_add(y), "changes persist"); hits(0, 1);
            }
            check(b.n == n.wrapping_add(x).wrapping_add(y), "the lender sees the changes");
            check(alive() == 1, "a borrowed value is not dropped");
            cover("pinned exclusive reference");
        }
        3 => { let v = v; let p: VirtualPtr<dyn '_ + PinnedRef> = Pin::new(&v).into(); pinned_ref(&p, n, k, x); drop(p); check(alive() == 1, "a borrowed value is not dropped"); }
        4 => { let p: VirtualPtr<dyn 'static + PinnedRef> = Box::pin(v).into(); pinned_ref(&p, n, k, x); }
        5 => { let r = Rc::pin(v); let s = r.clone(); let p = <dyn 'static + PinnedRef as VirtualPtrFrom<Pin<Rc<Val>>>>::into_virtual_ptr(r); pinned_ref(&p, n, k, x); drop(p); check(alive() == 1, "another owner is left"); drop(s); cover("pinned rc"); }
        6 => { let r = Arc::pin(v); let s = r.clone(); let p = <dyn 'static + Send + Sync + PinnedRef as VirtualPtrFrom<Pin<Arc<Val>>>>::into_virtual_ptr(r); drop(s); check(alive() == 1, "another owner is left"); pinned_ref(&p, n, k, x); cover("pinned arc"); }
        _ => { let mut v = v; let p: VirtualPtr<dyn '_ + PinnedRef> = Pin::new(&mut v).into(); pinned_ref(&p, n, k, x); drop(p); check(alive() == 1, "a borrowed value is not dropped"); }
    }
    check(alive() == 0 && dropped() == 1, "the value is dropped once");
    check(live() == 0, "nothing leaks");
});
fn pinned_ref<S: ?Sized + ReprCTrait>(p: &VirtualPtr<S>, n: u64, k: u64, x: u64) where VirtualPtr<S>: PinnedRef + Unpin {
    check(Pin::new(p).look(x) == n ^ x, "the result is the method's"); hits(0, 1);
    check(Pin::new(p).other() == k, "the other method"); hits(1, 1);
}

//@ prop=D02,D01 bounds="clones of virtual pointers made from a box, a shared reference, an Rc, an Arc: every sequence of 3 operations (clone, drop, call, conversion to raw and back) on up to 3 clones; all values"
harness!(h_dyn_clone_ops, {
    let v = val("v");
    let (n, k) = (v.n, v.k);
    let kind = any_len("kind", 3);
    let here = Val { d: D::new(9), n, k };
    let rc = Rc::new(v);
    let mut h: [Option<VirtualPtr<dyn '_ + Dup>>; 3] = [None, None, None];
    h[0] = Some(match kind {
        0 => Box::new((*rc).clone()).into(),
        1 => (&here).into(),
        _ => rc.clone().into(),
    });
    let base = alive() - (kind == 0) as usize;
    let mut refs = 1;
    for _ in 0..any_len("steps", 3) {
        let i = any_len("i", 2);
        let Some(f) = &h[i] else { continue };
        match any_len("op", 3) {
            0 => if let Some(j) = (0..3).find(|j| h[*j].is_none()) {
                let c = cloned();
                let g = f.clone();
                check(cloned() - c == (kind == 0) as usize, "only owned values are cloned, once");
                check((addr(&g) == addr(f)) == (kind != 0), "clones of borrowed and shared pointers are to the same value");
                h[j] = Some(g);
                refs += 1;
            },
            1 => { h[i] = None; refs -= 1; }
            2 => { check(f.get() == n, "the same content in every clone"); hits(0, 1); check(f.flip(k) == 0, "the same content in every clone"); hits(1, 1); }
            _ => { let c = unsafe { into_raw(h[i].take().unwrap()) }; h[i] = unsafe { from_raw(c) }; check(h[i].is_some(), "valid"); cover("raw and back"); }
        }
        check(alive() == base + if kind == 0 { refs } else { 0 }, "one value per owner");
        check(Rc::strong_count(&rc) == 1 + if kind >= 2 { refs } else { 0 }, "one count per owner");
    }
    drop(h);
    check(alive() == base && Rc::strong_count(&rc) == 1, "all owners are gone");
    drop((rc, here));
    check(alive() == 0, "dropped once");
    check(live() == 0, "nothing leaks");
});

struct Gen { n: u64, made: u64 }
impl Clone for Gen { fn clone(&self) -> Gen { Gen { n: self.n, made: self.made + 1 } } }
impl Dup for Gen {
    fn get(&self) -> u64 { self.n }
    fn flip(&self, _: u64) -> u64 { self.made }
}

//@ prop=D02,D01 bounds="clones of Send + Sync virtual pointers from an Arc, a box, a reference; of `&mut self` traits from a box: independence; all values"
harness!(h_dyn_clone_kinds, {
    let v = val("v");
    let (n, k) = (v.n, v.k);
    match any_len("kind", 5) {
        0 => {
            let a = Arc::new(v);
            let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = a.clone().into();
            let q = p.clone();
            check(Arc::strong_count(&a) == 3, "one count per owner");
            drop(p);
            check(Arc::strong_count(&a) == 2, "one count per owner");
            drop(a);
            check(alive() == 1 && q.flip(0) == k, "the last owner still works");
        }
        1 => {
            let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = Box::new(v).into();
            let q = p.clone();
            check(alive() == 2 && addr(&p) != addr(&q), "an independent value");
            drop(p);
            check(alive() == 1 && q.get() == n, "an independent value");
        }
        2 => {
            let v = v;
            {
                let p: VirtualPtr<dyn '_ + Send + Sync + Dup> = (&v).into();
                let q = p.clone();
                drop(p);
                check(q.get() == n, "the same value");
            }
            check(alive() == 1, "a borrowed value is not dropped");
        }
        3 => {
            // no destructor, but a `Clone` that tells
            drop(v);
            let p: VirtualPtr<dyn 'static + Dup> = Box::new(Gen { n, made: 0 }).into();
            let q = p.clone();
            let r = q.clone();
            check(addr(&p) != addr(&q) && addr(&q) != addr(&r), "an independent value");
            check(p.get() == n && q.get() == n && r.get() == n, "the same value");
            check(p.flip(0) == 0 && q.flip(0) == 1 && r.flip(0) == 2, "cloning a box clones its value");
            cover("plain boxes");
        }
        4 => {
            drop(v);
            let g = Arc::new(Gen { n, made: 0 });
            let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = g.clone().into();
            let q = p.clone();
            check(addr(&p) == addr(&q) && q.flip(0) == 0 && Arc::strong_count(&g) == 3, "cloning a shared pointer does not clone its value");
            let h = Gen { n, made: 0 };
            let p: VirtualPtr<dyn '_ + Dup> = (&h).into();
            let q = p.clone();
            check(addr(&p) == addr(&q) && q.flip(0) == 0, "cloning a reference does not clone its value");
        }
        _ => {
            let mut p: VirtualPtr<dyn 'static + DupMut> = Box::new(v).into();
            check(p.bump() == n.wrapping_add(1), "bump");
            let mut q = p.clone();
            check(q.bump() == n.wrapping_add(2) && q.bump() == n.wrapping_add(3), "the clone starts from the current content");
            check(p.bump() == n.wrapping_add(2), "and is independent");
            drop(p);
            check(alive() == 1 && q.bump() == n.wrapping_add(4), "and outlives it");
            cover("mutable clones");
        }
    }
    check(alive() == 0, "dropped once");
    check(live() == 0, "nothing leaks");
});

//@ prop=D01,D02 bounds="generic traits and traits with lifetimes, from a box and a reference; zero-sized values; over-aligned values; C layout and C calls through the table"
harness!(h_dyn_forms, {
    let x: u64 = any("x");
    match any_len("case", 4) {
        0 => {
            let u = x as u32;
            let l = Lent(&u, D::new(3));
            {
                let p: VirtualPtr<dyn '_ + Generic<'_, Big>> = (&l).into();
                let b = any_big("b");
                check(p.echo(b) == 32 + b.d as usize, "generic arguments"); hits(0, 1);
                check(p.fixed() as *const u32 == &u as *const u32, "references out"); hits(1, 1);
            }
            let p: VirtualPtr<dyn '_ + Generic<'_, u8>> = Box::new(l).into();
            check(p.echo(Big { a: 0, b: 0, c: 0, d: x as u16 }) == 1 + (x as u16) as usize, "generic arguments");
            drop(p);
            check(alive() == 0 && dropped() == 1, "dropped once");
            cover("generic");
        }
        1 => {
            struct Z;
            impl Dup for Z { fn get(&self) -> u64 { hit(0); 5 } fn flip(&self, x: u64) -> u64 { hit(1); !x } }
            impl Clone for Z { fn clone(&self) -> Z { hit(2); Z } }
            impl Drop for Z { fn drop(&mut self) { hit(3) } }
            let p: VirtualPtr<dyn 'static + Dup> = Box::new(Z).into();
            let q = p.clone();
            hits(2, 1);
            check(p.get() == 5, "zero-sized"); hits(0, 1);
            drop(p);
            hits(3, 1);
            check(q.flip(x) == !x, "zero-sized"); hits(1, 1);
            drop(q);
            hits(3, 1);
        }
        2 => {
            #[derive(Clone)] struct W(Wide);
            impl Dup for W { fn get(&self) -> u64 { check(&self.0 as *const Wide as usize % 32 == 0, "aligned"); self.0.0 } fn flip(&self, x: u64) -> u64 { self.get() ^ x } }
            let p: VirtualPtr<dyn 'static + Dup> = Box::new(W(Wide(x))).into();
            let q = p.clone();
            check(p.get() == x && q.flip(x) == 0, "over-aligned values");
            let a = Arc::new(W(Wide(x)));
            let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = a.into();
            check(p.clone().get() == x, "over-aligned values");
        }
        3 => {
            // what C sees: the pointer, then the table, by value
            #[repr(C)] struct Raw { ptr: *mut u8, release: extern "C" fn(*mut u8), retain: extern "C" fn(*mut u8) -> *mut u8, get: extern "C" fn(*mut u8) -> u64, flip: extern "C" fn(*mut u8, u64) -> u64 }
            let v = val("v");
            let (n, k) = (v.n, v.k);
            let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = Arc::new(v).into();
            check(size_of::<VirtualPtr<dyn 'static + Send + Sync + Dup>>() == size_of::<Raw>(), "the layout");
            let r: Raw = unsafe { transmute(p) };
            check((r.get)(r.ptr) == n, "C calls the first method"); hits(0, 1);
            check((r.flip)(r.ptr, x) == k ^ x, "C calls the second method"); hits(1, 1);
            let again = (r.retain)(r.ptr);
            (r.release)(r.ptr);
            check(alive() == 1 && (r.get)(again) == n, "C retains and releases"); hits(0, 1);
            (r.release)(again);
            check(alive() == 0, "C releases the last");
            cover("from C");
        }
        _ => {
            // a trait object written in C
            extern "C" fn rel(p: *mut u64) { unsafe { *p = (*p).wrapping_add(1 << 32) } }
            extern "C" fn ret(p: *mut u64) -> *mut u64 { unsafe { *p = (*p).wrapping_add(1 << 48) }; p }
            extern "C" fn get(p: *mut u64) -> u64 { unsafe { *p } }
            extern "C" fn flip(p: *mut u64, x: u64) -> u64 { unsafe { *p ^ x } }
            #[repr(C)] struct Raw { ptr: *mut u64, release: extern "C" fn(*mut u64), retain: extern "C" fn(*mut u64) -> *mut u64, get: extern "C" fn(*mut u64) -> u64, flip: extern "C" fn(*mut u64, u64) -> u64 }
            let mut n = x;
            let p: VirtualPtr<dyn 'static + Dup> = unsafe { transmute(Raw { ptr: &mut n, release: rel, retain: ret, get, flip }) };
            check(p.get() == x && p.flip(x) == 0, "the C functions are called with the pointer");
            let q = p.clone();
            check(q.get() == x.wrapping_add(1 << 48), "retained once");
            drop(p);
            drop(q);
            check(n == x.wrapping_add(1 << 48).wrapping_add(2 << 32), "released once per owner");
        }
    }
    check(alive() == 0, "dropped once");
    check(live() == 0, "nothing leaks");
});

//@ prop=D02 bounds="opaque drop glue: boxes, references, shared; the DynDrop shorthand, cloned and dropped in either order; validity of null pointers"
harness!(h_dyn_drop, {
    match any_len("case", 3) {
        0 => {
            let p: VirtualPtr<dyn 'static + DropGlue> = Box::new(ImplDropGlue(D::new(1))).into();
            check(alive() == 1, "kept");
            drop(p);
        }
        1 => {
            let v = ImplDropGlue(D::new(1));
            let p: VirtualPtr<dyn '_ + DropGlue> = (&v).into();
            drop(p);
            check(alive() == 1, "a borrowed value is not dropped");
            drop(v);
        }
        2 => {
            let a = Arc::new(ImplDropGlue(D::new(1)));
            let p: VirtualPtr<dyn 'static + Send + Sync + DropGlue> = a.clone().into();
            drop(a);
            check(alive() == 1, "kept");
            drop(p);
        }
        _ => {
            let p = DynDrop::new(D::new(1));
            let q = p.clone();
            let r = q.clone();
            check(made() == 1, "clones share the value");
            let mut all = [Some(p), Some(q), Some(r)];
            let i = any_len("first", 2);
            all[i] = None;
            check(alive() == 1, "kept");
            let j = any_len("second", 2);
            all[j] = None;
            check(alive() == 1, "kept");
            let c = all.iter_mut().find_map(|x| x.take()).unwrap();
            let raw = unsafe { into_raw(c) };
            check(DynDrop::is_valid(&raw), "valid");
            all[0] = unsafe { from_raw(raw) };
            check(alive() == 1, "kept");
            drop(all);
            cover("shorthand");
        }
    }
    check(alive() == 0 && dropped() == 1, "dropped once");
    let zero: CLayoutOf<VirtualPtr<dyn 'static + DropGlue>> = unsafe { core::mem::zeroed() };
    check(!<VirtualPtr<dyn 'static + DropGlue> as ReprC>::is_valid(&zero), "a null virtual pointer is not valid");
    check(live() == 0, "nothing leaks");
});

/// Overrides what has a default.
pub struct Over(Val);
/// Does not.
pub struct Under(Val);
impl Defaults for Over {
    fn base(&self, x: u64) -> u64 { self.0.ok(); hit(0); x ^ self.0.n }
    fn twice(&self, x: u64) -> u64 { self.0.ok(); hit(1); x.wrapping_add(self.0.k) }
    fn flag(&self, a: bool, c: u16, b: Option<&u8>) -> bool { self.0.ok(); hit(2); a ^ (b.map_or(0, |b| *b) as u16 == c) }
    unsafe fn deref<'a, 'b>(&'a self, p: &'b u64, k: u8) -> &'b u64 where 'a: 'b { self.0.ok(); hit(3); if k == 0 { p } else { &self.0.n } }
    fn mixed(&mut self, x: &mut u64, f: Option<extern "C" fn(u64) -> u64>) { self.0.ok(); hit(4); core::mem::swap(x, &mut self.0.n); if let Some(f) = f { self.0.k = f(*x) } }
    fn count(&self) -> u64 { self.0.ok(); hit(5); self.0.k }
    fn reset(&mut self) { self.0.ok(); hit(6); self.0.n = self.0.k; }
    fn nothing(&self) { self.0.ok(); hit(7) }
}
impl Defaults for Under {
    fn base(&self, x: u64) -> u64 { self.0.ok(); hit(0); x.wrapping_add(self.0.n) }
    fn flag(&self, a: bool, _: u16, b: Option<&u8>) -> bool { hit(2); a && b.is_some() }
}
extern "C" fn turn(x: u64) -> u64 { x.rotate_left(7) }
fn use_defaults(mut v: VirtualPtr<dyn '_ + Defaults>, over: bool, n: u64, k: u64) {
    let x: u64 = any("x");
    let z: u8 = any("z");
    let mut y = x;
    match any_len("method", 7) {
        5 => { check(v.count() == if over { k } else { n.wrapping_add(3) }, "methods without arguments"); hits(if over { 5 } else { 0 }, 1) }
        6 => { v.reset(); hits(6, over as u32); check(v.base(0) == if over { k } else { n }, "methods with neither arguments nor result"); unsafe { HITS = [0; 12] } }
        7 => { v.nothing(); hits(if over { 7 } else { 0 }, 1) }
        0 => { check(v.base(x) == if over { x ^ n } else { x.wrapping_add(n) }, "required methods"); hits(0, 1) }
        1 => {
            let r = v.twice(x);
            if over { check(r == x.wrapping_add(k), "overriding methods are the ones that run"); hits(1, 1); cover("overridden") }
            else { check(r == x.wrapping_add(n).wrapping_add(n), "default methods run otherwise, and call back through the value"); hits(0, 2); cover("default") }
        }
        2 => {
            let some = any_len("some", 1) == 1;
            let r = v.flag(x & 1 == 1, x as u16, if some { Some(&z) } else { None });
            check(r == if over { (x & 1 == 1) ^ ((if some { z as u16 } else { 0 }) == x as u16) } else { x & 1 == 1 && some }, "arguments in order");
            hits(2, 1)
        }
        3 => {
            let at: *const u64 = unsafe { v.deref(&x, z) };
            if over && z != 0 { check(unsafe { *at } == n, "the reference is the method's") } else { check(at == &x as *const u64, "the reference is the argument") }
            hits(3, over as u32);
        }
        _ => {
            let f = any_len("f", 1) == 1;
            v.mixed(&mut y, if f { Some(turn) } else { None });
            if over { hits(4, 1); check(y == n && v.base(0) == x, "exclusive references"); check(v.twice(0) == if f { turn(n) } else { k }, "function pointers") ; unsafe { HITS = [0; 12] } }
            else { check(y == if f { turn(x.wrapping_add(n)) } else { !0 }, "exclusive references and function pointers"); hits(0, f as u32) }
        }
    }
}
//@ prop=D01,D02 bounds="methods with default bodies, overridden or not, unsafe ones, ones with several lifetimes, unnamed arguments, attributes, function pointers and exclusive references among the arguments; from a box and an exclusive reference; all values"
harness!(h_dyn_defaults, {
    let mut v = val("v");
    let (n, k) = (v.n, v.k);
    match any_len("kind", 3) {
        0 => use_defaults(Box::new(Over(v)).into(), true, n, k),
        1 => use_defaults(Box::new(Under(v)).into(), false, n, k),
        2 => { let mut o = Over(v); use_defaults((&mut o).into(), true, n, k); v = o.0; check((&v.d).v == 9, "a borrowed value stays"); }
        _ => { let mut o = Under(v); use_defaults((&mut o).into(), false, n, k); v = o.0; check((&v.d).v == 9, "a borrowed value stays"); }
    }
    check(live() == 0, "nothing leaks");
});
