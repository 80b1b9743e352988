//! Values that are released, cloned and used by a thread that unwinds.
use crate::{bytes::{make, any_kind, releases}, dyns::Dup, harness, sx::*, util::*};
use safer_ffi::bytes::Bytes;
use safer_ffi::dyn_traits::*;
use safer_ffi::prelude::*;
use safer_ffi::closure::{ArcDynFn1, BoxDynFnMut1};
use safer_ffi::option::TaggedOption;
use std::sync::Arc;

/// Runs its closure when it is dropped.
struct At<F: FnOnce()>(Option<F>);
impl<F: FnOnce()> Drop for At<F> { fn drop(&mut self) { if let Some(f) = self.0.take() { f() } } }
/// What `f` makes is released by unwinding.
fn unwound<T>(while_unwinding: bool, f: impl FnOnce() -> T) {
    let r = catch(move || {
        if while_unwinding {
            let _at = At(Some(|| { let t = f(); check(std::thread::panicking(), "unwinding"); drop(t); }));
            panic!()
        } else {
            let _t = f();
            panic!()
        }
    });
    check(r.is_none(), "the panic goes on");
}
struct Dupper(D);
impl Dup for Dupper { fn get(&self) -> u64 { self.0.v as u64 } fn flip(&self, x: u64) -> u64 { x ^ self.0.v as u64 } }
impl Clone for Dupper { fn clone(&self) -> Self { Dupper(self.0.clone()) } }

//@ prop=B03,B01 bounds="every backing, lengths 3 and 40, every content: released by a panic; made, cloned and released by a destructor while a panic is under way"
harness!(h_unwind_bytes, {
    let during = any_len("during", 1) == 1;
    let n = [3, 40][any_len("n", 1)];
    let d: [u8; 40] = any("d");
    let k = any_kind(n);
    let unique = matches!(k, crate::bytes::K::RawUnique);
    let before = live();
    unwound(during, || {
        let b = make(k, &d[..n]);
        let c = if unique { None } else { Some(b.clone()) };
        check(same(&b, &d[..n]), "content");
        if let Some(c) = &c { check(same(c, &d[..n]), "a clone's content"); }
        let e = b.upgrade();
        check(same(&e, &d[..n]), "upgraded content");
        cover("made");
        (c, e)
    });
    check(releases() == matches!(k, crate::bytes::K::ArcT | crate::bytes::K::StabbyArc | crate::bytes::K::RawShared | crate::bytes::K::RawUnique) as usize, "the owner is released once");
    check(live() == before, "nothing leaks");
});

//@ prop=S02,V01,V02,T01,C02,O01 bounds="boxes, boxed slices, vectors, strings, C strings and tagged options, released by a panic; made, cloned and released by a destructor while a panic is under way; editing a vector and a string meanwhile; all values"
harness!(h_unwind_owned, {
    let during = any_len("during", 1) == 1;
    let x: u32 = any("x");
    let before = live();
    let n = any_len("n", 2);
    match any_len("case", 5) {
        0 => unwound(during, || { let b: repr_c::Box<D> = Box::new(D::new(x)).into(); let c = b.clone(); check(b.v == x && c.v == x, "values"); cover("boxes"); (b, c) }),
        1 => unwound(during, || { let b: c_slice::Box<D> = (0..n).map(|i| D::new(x ^ i as u32)).collect::<Vec<_>>().into_boxed_slice().into(); let c = b.clone(); for i in 0..n { check(c[i].v == x ^ i as u32, "values") } (b, c) }),
        2 => unwound(during, || {
            let mut v: repr_c::Vec<D> = (0..n).map(|i| D::new(x ^ i as u32)).collect::<Vec<_>>().into();
            v.with_rust_mut(|v| v.push(D::new(7)));
            check(v.len() == n + 1 && v[n].v == 7, "edited");
            let r = catch(|| v.with_rust_mut(|v| { v.insert(0, D::new(8)); panic!() }));
            check(r.is_none() && v.len() == n + 2 && v[0].v == 8, "edited in spite of a panic");
            let c = v.clone();
            cover("vectors");
            (v, c)
        }),
        3 => unwound(during, || {
            let mut s: repr_c::String = "ab".to_string().into();
            s.with_rust_mut(|s| for _ in 0..n { s.push('c') });
            check(same(s.as_bytes(), &b"abcc"[..2 + n]), "edited");
            let r = catch(|| s.with_rust_mut(|s| { s.clear(); panic!() }));
            check(r.is_none() && s.is_empty(), "edited in spite of a panic");
            let b: str::Box = "xyz".to_string().into_boxed_str().into();
            (s.clone(), s, b)
        }),
        4 => unwound(during, || {
            let s: char_p::Box = std::ffi::CString::new(&b"abc"[..n]).unwrap().into();
            let e: char_p::Box = char_p::new("");
            check(same(s.to_bytes(), &b"abc"[..n]), "text");
            cover("C strings");
            (s.clone(), s, e)
        }),
        _ => unwound(during, || {
            let o: TaggedOption<D> = Some(D::new(x)).into();
            let p = o.clone();
            check(matches!(p.as_ref(), Some(d) if d.v == x), "payload");
            (o, p)
        }),
    }
    check(alive() == 0, "all is dropped, once");
    check(live() == before, "nothing leaks");
});

//@ prop=L02,L01,D02,D01 bounds="boxed and shared closures, virtual pointers from boxes, references and shared pointers: released by a panic; made, called, cloned and released by a destructor while a panic is under way; all values"
harness!(h_unwind_shared, {
    let during = any_len("during", 1) == 1;
    let x: u32 = any("x");
    let before = live();
    match any_len("case", 4) {
        0 => unwound(during, || {
            let d = D::new(x);
            let mut f: BoxDynFnMut1<u32, u32> = Box::new(move |y: u32| (&d).v ^ y).into();
            check(f.call(5) == x ^ 5, "called");
            f
        }),
        1 => unwound(during, || {
            let d = D::new(x);
            let f: ArcDynFn1<u32, u32> = Arc::new(move |y: u32| (&d).v ^ y).into();
            let g = f.clone();
            check(f.call(5) == x ^ 5, "called");
            check(g.call(6) == x ^ 6, "a clone is called");
            check(made() == 1, "clones share");
            cover("closures");
            (f, g)
        }),
        2 => unwound(during, || {
            let p: VirtualPtr<dyn 'static + Dup> = Box::new(Dupper(D::new(x))).into();
            let q = p.clone();
            check(p.get() == x as u64 && q.flip(3) == x as u64 ^ 3 && made() == 2, "boxes are cloned with their value");
            (p, q)
        }),
        3 => unwound(during, || {
            let p: VirtualPtr<dyn 'static + Dup> = std::rc::Rc::new(Dupper(D::new(x))).into();
            let q = p.clone();
            check(p.get() == x as u64 && q.flip(3) == x as u64 ^ 3 && made() == 1, "shared pointers are cloned without their value");
            cover("virtual pointers");
            (p, q)
        }),
        _ => unwound(during, || { let p = DynDrop::new(D::new(x)); let q = p.clone(); (p, q) }),
    }
    check(alive() == 0, "all is dropped, once");
    check(live() == before, "nothing leaks");
});

/// An element whose destructor panics, if it is told to.
#[derive_ReprC]
#[repr(C)]
pub struct Bad { d: D, bad: bool }
impl Drop for Bad { fn drop(&mut self) { if self.bad { panic!() } } }
impl Clone for Bad { fn clone(&self) -> Bad { if self.bad { panic!() } Bad { d: self.d.clone(), bad: false } } }
//@ prop=S02,V01,O01 bounds="boxes, boxed slices and vectors of up to 4 elements, tagged options, of which the destructor or the clone of any one element panics"
harness!(h_unwind_elements, {
    let before = live();
    let n = any_len("n", 3) + 1;
    let bad = any_len("bad", n);
    let make = || (0..n).map(|i| Bad { d: D::new(i as u32), bad: i == bad }).collect::<Vec<_>>();
    let clone = any_len("clone", 1) == 1;
    macro_rules! go {($v:expr, $bad:expr) => {{
        let v = $v;
        if clone {
            let r = catch(|| v.clone());
            check(r.is_some() == !$bad, "a panic of an element's clone comes out");
            drop(r);
        }
        let r = catch(|| drop(v));
        check(r.is_some() == !$bad, "a panic of an element's destructor comes out");
    }}}
    match any_len("case", 2) {
        0 => { let b: c_slice::Box<Bad> = make().into_boxed_slice().into(); go!(b, bad < n); cover("boxed slices") }
        1 => { let v: repr_c::Vec<Bad> = make().into(); go!(v, bad < n); cover("vectors") }
        _ => { let b: repr_c::Box<Bad> = Box::new(Bad { d: D::new(0), bad: bad == 0 }).into(); go!(b, bad == 0) }
    }
    check(alive() == 0, "the other elements are dropped all the same");
    check(live() == before, "nothing leaks");
});

//@ prop=O01 bounds="closures given to the combinators of a tagged option that panic, before or after they have given the payload away; `Some` and `None`; all values"
harness!(h_unwind_option, {
    let before = live();
    let x: u32 = any("x");
    let some = any_len("some", 1) == 1;
    let keep = any_len("keep", 1) == 1;
    let mut kept: Option<D> = None;
    let mut o: TaggedOption<D> = if some { Some(D::new(x)).into() } else { None.into() };
    let mut ran = 0;
    let ran_ = &mut ran;
    let r = match any_len("case", 3) {
        0 => catch(|| { o.map_or_else(|| { *ran_ += 1; panic!() }, |d| { if keep { kept = Some(d) } if x & 1 == 0 { panic!() } 7 }) }).is_some(),
        1 => catch(|| { let d = o.unwrap_or_else(|| { *ran_ += 1; panic!() }); check(d.v == x, "the payload"); kept = Some(d); if x & 1 == 0 { panic!() } }).is_some(),
        2 => catch(|| { let p: TaggedOption<D> = o.and_then(|d| { if keep { kept = Some(d) } if x & 1 == 0 { panic!() } TaggedOption::None }); check(p.as_ref().is_none(), "none"); if !some { *ran_ += 1; panic!() } }).is_some(),
        _ => catch(|| { let t = o.take(); check(o.as_ref().is_none(), "taken"); kept = t.into(); if x & 1 == 0 || !some { if !some { *ran_ += 1 } panic!() } }).is_some(),
    };
    cover("ran");
    check(r == (some && x & 1 == 1), "panics come out");
    check(ran == !some as i32, "the default is asked for once, or not at all");
    if let Some(d) = &kept { check(d.v == x, "the payload is what it was"); cover("kept"); }
    drop(kept);
    check(alive() == 0 && made() == some as usize, "the payload is dropped, once");
    check(live() == before, "nothing leaks");
});
