//! Shared closures, bytes and trait objects used from several threads: every interleaving at atomic operations, and
//! every data race, within the bounds.
use crate::{dyns::*, harness, sx::*, util::*};
use safer_ffi::bytes::Bytes;
use safer_ffi::closure::*;
use safer_ffi::dyn_traits::*;
use safer_ffi::prelude::*;
use std::sync::Arc;

fn done() {
    check(alive() == 0, "the shared value is released, once");
    check(live() == 0, "nothing leaks");
    cover("end");
}

fn fn_ops(f: ArcDynFn1<u64, u64>, ops: usize, x: u64) {
    match ops {
        0 => drop(f),
        1 => { check(f.call(x) == !x, "a call works while any clone lives"); drop(f) }
        2 => { let g = f.clone(); drop(f); check(g.call(x) == !x, "a call works while any clone lives"); }
        _ => { let g = f.clone(); drop(g); check(f.call(x) == !x, "a call works while any clone lives"); }
    }
}
fn any_fn() -> ArcDynFn1<u64, u64> {
    let d = D::new(3);
    ArcDynFn1::new(Arc::new(move |x: u64| { check((&d).v == 3, "captures are alive during a call"); !x }))
}
//@ prop=K01 bounds="a shared closure with a clone in each of 2 threads (and one in the main thread), each doing any of 4 sequences of call, clone and drop; every interleaving; every data race" time=300
harness!(h_threads_closure, {
    let x: u64 = any("x");
    let f = any_fn();
    let ops: [usize; 2] = [any_len("a", 3), any_len("b", 3)];
    let g = f.clone();
    if any_len("main", 1) == 0 {
        spawn(move || fn_ops(f, ops[0], x));
        spawn(move || fn_ops(g, ops[1], x));
    } else {
        spawn(move || fn_ops(f, ops[0], x));
        fn_ops(g, ops[1], x);
    }
    join_all();
    done();
});
//@ prop=K01 bounds="a shared closure called, cloned and dropped by 3 threads through one borrowed handle and own clones" time=300 preempt=3
harness!(h_threads_closure_shared, {
    let x: u64 = any("x");
    let f = any_fn();
    {
        let r: &'static ArcDynFn1<u64, u64> = unsafe { &*(&f as *const _) };
        spawn(move || { let g = r.clone(); check(g.call(x) == !x, "a call works"); });
        spawn(move || { check(r.call(x) == !x, "a call works"); let g = r.clone(); drop(g); });
        check(r.call(x) == !x, "a call works");
        join_all();
    }
    check(alive() == 1, "still owned");
    drop(f);
    done();
});

fn bytes_ops(b: Bytes<'static>, ops: usize, want: &[u8]) {
    let ok = |b: &Bytes<'_>, w: &[u8]| check(same(b, w), "the bytes are readable as long as any value derived from them lives");
    match ops {
        0 => { ok(&b, want); drop(b); }
        1 => { let c = b.clone(); drop(b); ok(&c, want); }
        2 => { let mut c = b.clone(); c.shrink_to(1..); ok(&c, &want[1..]); drop(c); ok(&b, want); }
        _ => match b.split_at(2) { Ok((p, q)) => { drop(p); ok(&q, &want[2..]); } Err(_) => check(false, "in bounds") },
    }
}
const TEXT: &[u8] = b"a text that is too long to be stored inline";
fn any_bytes() -> Bytes<'static> {
    match any_len("backing", 3) {
        0 => Bytes::from(Arc::<[u8]>::from(TEXT)),
        1 => Bytes::from(Box::<[u8]>::from(TEXT)),
        2 => Bytes::from(TEXT.to_vec()),
        _ => Bytes::from(Arc::new(Kept(D::new(1), TEXT.to_vec()))),
    }
}
struct Kept(D, Vec<u8>);
impl AsRef<[u8]> for Kept { fn as_ref(&self) -> &[u8] { &self.1 } }
//@ prop=K01 bounds="bytes over a shared, boxed, vector or custom owner, with a clone in each of 2 threads, each doing any of 4 sequences of read, clone, slice, split and drop; every interleaving; every data race" time=400
harness!(h_threads_bytes, {
    let b = any_bytes();
    let ops: [usize; 2] = [any_len("a", 3), any_len("b", 3)];
    let c = b.clone();
    spawn(move || bytes_ops(b, ops[0], TEXT));
    bytes_ops(c, ops[1], TEXT);
    join_all();
    done();
});
//@ prop=K01 races=off bounds="the same over stabby's ArcSlice, without the data-race check; every interleaving" time=300
harness!(h_threads_bytes_stabby, {
    let b = Bytes::from(stabby::sync::ArcSlice::from(TEXT));
    let ops: [usize; 2] = [any_len("a", 3), any_len("b", 3)];
    let c = b.clone();
    spawn(move || bytes_ops(b, ops[0], TEXT));
    bytes_ops(c, ops[1], TEXT);
    join_all();
    done();
});
//@ prop=K01 bounds="bytes over stabby's ArcSlice, a clone in each of 2 threads, read and dropped; every data race"
harness!(h_threads_bytes_stabby_races, {
    let b = Bytes::from(stabby::sync::ArcSlice::from(TEXT));
    let c = b.clone();
    spawn(move || bytes_ops(b, 0, TEXT));
    bytes_ops(c, 0, TEXT);
    join_all();
    done();
});
//@ prop=K01 bounds="bytes over a shared buffer turned back into it by one thread while the other drops or clones"
harness!(h_threads_bytes_arc, {
    let a = Arc::<[u8]>::from(TEXT);
    let b = Bytes::from(a.clone());
    let c = b.clone();
    let op = any_len("op", 1);
    spawn(move || match <Arc<[u8]>>::try_from(b) { Ok(a) => check(same(&a, TEXT), "the buffer"), Err(_) => check(false, "it covers the whole buffer") });
    if op == 0 { drop(c) } else { let d = c.clone(); drop(c); check(same(&d, TEXT), "readable"); }
    drop(a);
    join_all();
    done();
});

fn dup_ops(p: VirtualPtr<dyn 'static + Send + Sync + Dup>, ops: usize, n: u64) {
    match ops {
        0 => drop(p),
        1 => { check(p.get() == n, "calls work while any clone lives"); drop(p) }
        2 => { let q = p.clone(); drop(p); check(q.get() == n, "calls work while any clone lives"); }
        _ => { let q = p.clone(); drop(q); check(p.get() == n, "calls work while any clone lives"); }
    }
}
pub struct Quiet(pub D, pub u64);
impl Dup for Quiet { fn get(&self) -> u64 { check((&self.0).v == 9, "the value is alive during a call"); self.1 } fn flip(&self, x: u64) -> u64 { self.1 ^ x } }
impl Clone for Quiet { fn clone(&self) -> Quiet { Quiet(self.0.clone(), self.1) } }
//@ prop=K01 bounds="a trait object from an Arc or a box with a clone in each of 2 threads, each doing any of 4 sequences of call, clone and drop; every interleaving; every data race" time=300
harness!(h_threads_dyn, {
    let n: u64 = any("n");
    let arc = any_len("arc", 1) == 1;
    let p: VirtualPtr<dyn 'static + Send + Sync + Dup> = if arc { Arc::new(Quiet(D::new(9), n)).into() } else { Box::new(Quiet(D::new(9), n)).into() };
    let ops: [usize; 2] = [any_len("a", 3), any_len("b", 3)];
    let q = p.clone();
    if any_len("main", 1) == 0 {
        spawn(move || dup_ops(p, ops[0], n));
        spawn(move || dup_ops(q, ops[1], n));
    } else {
        spawn(move || dup_ops(p, ops[0], n));
        dup_ops(q, ops[1], n);
    }
    join_all();
    done();
});
//@ prop=K01 bounds="a DynDrop with clones dropped by 3 threads; every interleaving" time=200
harness!(h_threads_dyndrop, {
    let d = DynDrop::new(D::new(1));
    let (e, f) = (d.clone(), d.clone());
    spawn(move || drop(d));
    spawn(move || { let g = e.clone(); drop(e); drop(g) });
    drop(f);
    join_all();
    done();
});

/// Two steps and an ending, on up to two clones.
fn long<T: Clone>(t: T, script: usize, probe: impl Fn(&T)) {
    let mut h = [Some(t), None];
    let mut s = script;
    for _ in 0..2 {
        match s % 4 {
            0 => {}
            1 => if let Some(x) = h[0].as_ref().or(h[1].as_ref()) { probe(x) },
            2 => { let c = h[0].as_ref().or(h[1].as_ref()).map(|x| x.clone()); if let Some(c) = c { if h[1].is_none() { h[1] = Some(c) } else { h[0] = Some(c) } } }
            _ => { if h[1].is_some() { h[0] = None } else { h.swap(0, 1) } }
        }
        s /= 4;
    }
    if s == 1 { h.swap(0, 1) }
    for x in h { if let Some(x) = x { probe(&x); drop(x) } }
}
//@ prop=K01 bounds="a shared closure, bytes, or a trait object with a clone in each of 2 threads, each doing any 2 steps (call or read, clone, drop) before dropping its clones in either order; every interleaving; every data race" time=400
harness!(h_threads_long, {
    let (a, b) = (any_len("a", 31), any_len("b", 31));
    match any_len("what", 2) {
        0 => {
            let f = any_fn();
            let g = f.clone();
            spawn(move || long(f, a, |f| check(f.call(5) == !5, "a call works while any clone lives")));
            long(g, b, |f| check(f.call(6) == !6, "a call works while any clone lives"));
        }
        1 => {
            let f = Bytes::from(Arc::<[u8]>::from(TEXT));
            let g = f.clone();
            spawn(move || long(f, a, |f| check(f[7] == TEXT[7] && f[20] == TEXT[20], "the bytes are readable while any clone lives")));
            long(g, b, |f| check(f[8] == TEXT[8], "the bytes are readable while any clone lives"));
        }
        _ => {
            let f: VirtualPtr<dyn 'static + Send + Sync + Dup> = Arc::new(Quiet(D::new(9), 77)).into();
            let g = f.clone();
            spawn(move || long(f, a, |f| check(f.get() == 77, "calls work while any clone lives")));
            long(g, b, |f| check(f.flip(1) == 76, "calls work while any clone lives"));
        }
    }
    join_all();
    done();
});
//@ prop=K01 tier=thorough preempt=3 bounds="the same with 3 threads, one step each; up to 3 preemptions" time=800 mem=12
harness!(h_threads_three, {
    let s = |i: usize| i;
    let (a, b, c) = (s(any_len("a", 3)), s(any_len("b", 3)), s(any_len("c", 3)));
    match any_len("what", 2) {
        0 => {
            let f = any_fn();
            let (g, h) = (f.clone(), f.clone());
            spawn(move || long(f, a, |f| check(f.call(5) == !5, "a call works while any clone lives")));
            spawn(move || long(g, b, |f| check(f.call(7) == !7, "a call works while any clone lives")));
            long(h, c, |f| check(f.call(6) == !6, "a call works while any clone lives"));
        }
        1 => {
            let f = Bytes::from(Arc::<[u8]>::from(TEXT));
            let (g, h) = (f.clone(), f.clone());
            spawn(move || long(f, a, |f| check(f[7] == TEXT[7] && f[20] == TEXT[20], "the bytes are readable while any clone lives")));
            spawn(move || long(g, b, |f| check(f[9] == TEXT[9], "the bytes are readable while any clone lives")));
            long(h, c, |f| check(f[8] == TEXT[8], "the bytes are readable while any clone lives"));
        }
        _ => {
            let f: VirtualPtr<dyn 'static + Send + Sync + Dup> = Arc::new(Quiet(D::new(9), 77)).into();
            let (g, h) = (f.clone(), f.clone());
            spawn(move || long(f, a, |f| check(f.get() == 77, "calls work while any clone lives")));
            spawn(move || long(g, b, |f| check(f.get() == 77, "calls work while any clone lives")));
            long(h, c, |f| check(f.flip(1) == 76, "calls work while any clone lives"));
        }
    }
    join_all();
    done();
});
