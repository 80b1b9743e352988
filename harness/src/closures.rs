//! `safer_ffi::closure`: boxed, shared and borrowed closures of 0 to 9 arguments.
use crate::{harness, sx::*, util::*};
use core::mem::{transmute, ManuallyDrop, size_of};
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;

static mut GOT: [u64; 10] = [0; 10];
static mut CALLS: u64 = 0;
fn got(v: &[u64], calls: u64) {
    unsafe {
        check(CALLS == calls, "the closure ran exactly once per call");
        let mut d = 0;
        for (i, x) in v.iter().enumerate() { d |= GOT[i] ^ *x; }
        check(d == 0, "the closure gets exactly the arguments of the call, in order");
    }
}
fn put(v: &[u64]) {
    unsafe {
        CALLS += 1;
        for (i, x) in v.iter().enumerate() { GOT[i] = *x; }
    }
}
trait Word: Copy { fn word(self) -> u64; }
macro_rules! words { ($($t:ty)*) => { $( impl Word for $t { fn word(self) -> u64 { self as u64 } } )* } }
words!(u8 u16 u32 u64 i8 i16 i32 i64);
impl Word for f64 { fn word(self) -> u64 { self.to_bits() } }

/// Both ways of calling: the method, and the C function pointer with the environment pointer.
macro_rules! arity {
    ($name:ident $Arc:ident $Box:ident $Ref:ident $ret:ty; $($x:ident: $t:ty),*) => {
        fn $name(kind: usize) {
            $( let $x: $t = any(stringify!($x)); )*
            let k: u32 = any("k");
            let want = [$($x.word()),*];
            type Call = extern "C" fn(*mut u8 $(, $t)*) -> $ret;
            #[repr(C)] struct RBox { env: *mut u8, call: Call, free: extern "C" fn(*mut u8) }
            #[repr(C)] struct RArc { env: *mut u8, call: Call, release: extern "C" fn(*mut u8), retain: extern "C" fn(*mut u8) }
            #[repr(C)] struct RRef { env: *mut u8, call: Call }
            let mut n = k;
            let kept = D::new(7);
            match kind {
                0 => {
                    let mut f: $Box<$ret $(, $t)*> = Box::new(move |$($x: $t),*| -> $ret { check((&kept).v == 7, "captures are alive during a call"); put(&[$($x.word()),*]); n = n.wrapping_mul(3).wrapping_add(1); n as $ret }).into();
                    check(f.call($($x),*) == k.wrapping_mul(3).wrapping_add(1) as $ret, "the result is the closure's");
                    got(&want, 1);
                    let raw: RBox = unsafe { transmute(f) };
                    check((raw.call)(raw.env $(, $x)*) == k.wrapping_mul(9).wrapping_add(4) as $ret, "captured state persists, and the C function pointer calls the same closure");
                    got(&want, 2);
                    check(alive() == 1, "calling does not drop the captures");
                    (raw.free)(raw.env);
                }
                1 => {
                    let f: $Arc<$ret $(, $t)*> = Arc::new(move |$($x: $t),*| -> $ret { check((&kept).v == 7, "captures are alive during a call"); put(&[$($x.word()),*]); k.wrapping_add(unsafe { CALLS } as u32) as $ret }).into();
                    check(f.call($($x),*) == k.wrapping_add(1) as $ret, "the result is the closure's");
                    got(&want, 1);
                    let g = f.clone();
                    drop(f);
                    check(alive() == 1, "a clone keeps the captures");
                    let raw: RArc = unsafe { transmute(g) };
                    check((raw.call)(raw.env $(, $x)*) == k.wrapping_add(2) as $ret, "the C function pointer of a clone calls the same closure");
                    got(&want, 2);
                    (raw.retain)(raw.env);
                    (raw.release)(raw.env);
                    check(alive() == 1, "still owned");
                    (raw.release)(raw.env);
                }
                _ => {
                    let mut c = move |$($x: $t),*| -> $ret { check((&kept).v == 7, "captures are alive during a call"); put(&[$($x.word()),*]); n = n.wrapping_mul(3).wrapping_add(1); n as $ret };
                    {
                        let mut f: $Ref<'_, $ret $(, $t)*> = $Ref::new(&mut c);
                        check(f.call($($x),*) == k.wrapping_mul(3).wrapping_add(1) as $ret, "the result is the closure's");
                        got(&want, 1);
                        let raw: RRef = unsafe { transmute(f) };
                        check((raw.call)(raw.env $(, $x)*) == k.wrapping_mul(9).wrapping_add(4) as $ret, "captured state persists, and the C function pointer calls the same closure");
                        got(&want, 2);
                    }
                    check(alive() == 1, "a borrowed closure does not drop the captures");
                    check(c($($x),*) == k.wrapping_mul(27).wrapping_add(13) as $ret, "the lender sees the state");
                }
            }
            check(alive() == 0 && dropped() == 1, "the captures are dropped once");
        }
    };
}
arity!(a0 ArcDynFn0 BoxDynFnMut0 RefDynFnMut0 u32;);
arity!(a1 ArcDynFn1 BoxDynFnMut1 RefDynFnMut1 u8; x1: u64);
arity!(a2 ArcDynFn2 BoxDynFnMut2 RefDynFnMut2 i64; x1: u16, x2: u32);
arity!(a3 ArcDynFn3 BoxDynFnMut3 RefDynFnMut3 u16; x1: u8, x2: i16, x3: u64);
arity!(a4 ArcDynFn4 BoxDynFnMut4 RefDynFnMut4 u32; x1: i8, x2: f64, x3: u64, x4: u64);
arity!(a5 ArcDynFn5 BoxDynFnMut5 RefDynFnMut5 u64; x1: u32, x2: u32, x3: u32, x4: u32, x5: u32);
arity!(a6 ArcDynFn6 BoxDynFnMut6 RefDynFnMut6 u32; x1: u8, x2: u8, x3: u8, x4: u8, x5: u8, x6: u8);
arity!(a7 ArcDynFn7 BoxDynFnMut7 RefDynFnMut7 i8; x1: u64, x2: u64, x3: u64, x4: u64, x5: u64, x6: u64, x7: u64);
arity!(a8 ArcDynFn8 BoxDynFnMut8 RefDynFnMut8 u32; x1: u8, x2: u16, x3: u32, x4: u64, x5: i8, x6: i16, x7: i32, x8: i64);
arity!(a9 ArcDynFn9 BoxDynFnMut9 RefDynFnMut9 u16; x1: u16, x2: f64, x3: u16, x4: u16, x5: u16, x6: i64, x7: u16, x8: u16, x9: u8);

//@ prop=L01,L02 bounds="closures of 0 to 9 arguments of mixed integer and float types, boxed, shared and borrowed; all argument and captured values; two calls each (method and C pointer)"
harness!(h_closure_arity, {
    let kind = any_len("kind", 2);
    match any_len("arity", 9) {
        0 => a0(kind), 1 => a1(kind), 2 => a2(kind), 3 => a3(kind), 4 => a4(kind), 5 => a5(kind), 6 => a6(kind), 7 => a7(kind), 8 => a8(kind),
        _ => { a9(kind); if kind == 2 { cover("nine arguments"); } }
    }
    check(live() == 0, "nothing leaks");
});

#[derive(Clone, Copy, PartialEq)]
#[derive_ReprC] #[repr(C)] pub struct Big { pub a: u64, pub b: u8, pub c: u64, pub d: u16 }
pub fn any_big(name: &str) -> Big { let [a, b, c, d]: [u64; 4] = any(name); Big { a, b: b as u8, c, d: d as u16 } }
pub fn eq_big(x: &Big, y: &Big) -> bool { (x.a == y.a) & (x.b == y.b) & (x.c == y.c) & (x.d == y.d) }
//@ prop=L01,L02 bounds="structs by value, references, slices, options, owned boxes and vectors as arguments and results; all values; zero-sized closures"
harness!(h_closure_types, {
    let b = any_big("b");
    let x: u32 = any("x");
    match any_len("case", 6) {
        0 => {
            let mut f = BoxDynFnMut2::<Big, Big, u8>::new(Box::new(move |y: Big, t: u8| Big { b: t, ..y }));
            check(eq_big(&f.call(b, x as u8), &Big { b: x as u8, ..b }), "structs by value");
            let g: ArcDynFn1<Big, Big> = ArcDynFn1::new(Arc::new(move |y: Big| Big { a: b.c, c: y.a, ..y }));
            check(eq_big(&g.call(b), &Big { a: b.c, c: b.a, ..b }), "structs by value");
        }
        1 => {
            let mut f: repr_c::Box<dyn 'static + Send + FnMut(&'static u32) -> Option<&'static u32>> = Box::new(|y: &'static u32| Some(y)).into();
            let y = Box::into_raw(Box::new(x));
            let r = f.call(unsafe { &*y });
            check(matches!(r, Some(r) if r as *const u32 == y as *const u32), "references");
            drop(unsafe { Box::from_raw(y) });
        }
        2 => {
            let mut f = BoxDynFnMut1::<repr_c::Box<u32>, repr_c::Box<u32>>::new(Box::new(|y: repr_c::Box<u32>| { let y: Box<u32> = y.into(); Box::new(!*y).into() }));
            let r = f.call(Box::new(x).into());
            check(*r == !x, "owned boxes");
        }
        3 => {
            let f: repr_c::Arc<dyn 'static + Send + Sync + Fn(repr_c::Vec<D>) -> repr_c::Vec<D>> = Arc::new(|v: repr_c::Vec<D>| { let mut v: Vec<D> = v.into(); v.pop(); v.into() }).into();
            let r = f.call(vec![D::new(x), D::new(2)].into());
            check(r.len() == 1 && r[0].v == x && alive() == 1, "owned vectors");
            drop(r);
            check(alive() == 0, "dropped once");
        }
        4 => {
            // a closure without captures, and one that returns nothing
            let mut f: BoxDynFnMut1<(), u64> = BoxDynFnMut1::new(Box::new(|y: u64| put(&[y])));
            f.call(b.a);
            got(&[b.a], 1);
            let g: ArcDynFn0<()> = Arc::new(|| put(&[1])).into();
            let h = g.clone();
            h.call();
            got(&[1], 2);
            drop(f);
            drop(h);
            g.call();
            got(&[1], 3);
        }
        5 => {
            let mut seen = 0u64;
            let data = [x, !x, x ^ 1];
            {
                let mut c = |s: c_slice::Ref<'_, u32>| { seen = s.len() as u64; s[1] };
                let mut f = RefDynFnMut1::<u32, c_slice::Ref<'_, u32>>::new(&mut c);
                check(f.call((&data[..]).into()) == !x, "slices");
            }
            check(seen == 3, "the borrowed environment is the caller's");
        }
        _ => {
            // an environment more aligned than a pointer
            let w = Wide(b.a);
            let mut f: BoxDynFnMut0<u64> = BoxDynFnMut0::new(Box::new(move || { let p = &w as *const Wide as usize; check(p % 32 == 0, "the environment is aligned"); w.0 }));
            check(f.call() == b.a, "aligned captures");
            let w = Wide(b.c);
            let g: ArcDynFn0<u64> = Arc::new(move || { let p = &w as *const Wide as usize; check(p % 32 == 0, "the environment is aligned"); w.0 }).into();
            check(g.clone().call() == b.c, "aligned captures");
            cover("aligned environments");
        }
    }
    check(live() == 0, "nothing leaks");
});

fn arc_ops<const N: usize, const STEPS: usize>() {
    let x: u64 = any("x");
    let mut h: [Option<ArcDynFn1<u64, u64>>; N] = core::array::from_fn(|_| None);
    let outside = any_len("outside", 1) == 1;
    let d = D::new(5);
    let arc = Arc::new(move |y: u64| { check((&d).v == 5, "captures are alive during a call"); y ^ x });
    let mut keep = if outside { Some(arc.clone()) } else { None };
    h[0] = Some(arc.into());
    #[repr(C)] struct Raw { env: *mut u8, call: extern "C" fn(*mut u8, u64) -> u64, release: extern "C" fn(*mut u8), retain: Option<extern "C" fn(*mut u8)> }
    let mut refs = 1;   // owned by handles
    let mut extra = 0;  // owned by C
    let mut raw: Option<Raw> = None;
    for step in 0..any_len("steps", STEPS) {
        let _ = step;
        let i = any_len("i", N - 1);
        match any_len("op", 5) {
            0 => { if let Some(f) = &h[i] { let g = f.clone(); if let Some(j) = (0..N).find(|j| h[*j].is_none()) { h[j] = Some(g); refs += 1; } } }
            1 => { if h[i].take().is_some() { refs -= 1; } }
            2 => if let Some(f) = &h[i] { check(f.call(7) == 7 ^ x, "a call through any clone"); },
            3 => if let Some(f) = &h[i] { if extra < 2 { raw = Some(unsafe { core::ptr::read(f as *const _ as *const Raw) }); let r = raw.as_ref().unwrap(); r.retain.unwrap()(r.env); extra += 1; } },
            4 => if extra > 0 { let r = raw.as_ref().unwrap(); check((r.call)(r.env, 9) == 9 ^ x, "C calls what it retained"); (r.release)(r.env); extra -= 1; },
            _ => if let Some(f) = h[i].take() { let c = unsafe { into_raw(f) }; h[i] = unsafe { from_raw(c) }; check(h[i].is_some(), "valid");  },
        }
        check((alive() == 1) == (outside || refs + extra > 0), "the captures live exactly as long as some owner");
        if let Some(a) = &keep { check(Arc::strong_count(a) == 1 + refs + extra, "one count per owner"); }
        if refs + extra == 0 {  break; }
    }
    while extra > 0 { let r = raw.as_ref().unwrap(); (r.release)(r.env); extra -= 1; }
    drop(h);
    drop(keep.take());
    check(alive() == 0 && dropped() == 1, "the captures are dropped once, after the last owner");
    check(live() == 0, "nothing leaks");
}
//@ prop=L02 bounds="up to 2 clones, every sequence of up to 4 operations (clone, drop, call, C retain, C call and release, conversion to raw and back), with an outside Arc or not"
harness!(h_closure_arc_ops, {
    arc_ops::<2, 4>();
    cover("done");
});
//@ prop=L02 tier=thorough time=800 mem=12 bounds="up to 3 clones, every sequence of up to 4 operations"
harness!(h_closure_arc_ops_more, {
    arc_ops::<3, 4>();
    cover("done");
});

//@ prop=L02 bounds="boxed and shared closures whose captures are zero-sized with a destructor, one byte, or aligned to 64 bytes: called 0..=2 times, dropped, freed through C, cloned"
harness!(h_closure_captures, {
    struct Z;
    #[repr(align(64))] struct A64(u8);
    static GONE: AtomicUsize = AtomicUsize::new(0);
    GONE.store(0, Relaxed);
    impl Drop for Z { fn drop(&mut self) { GONE.fetch_add(1, Relaxed); } }
    impl Drop for A64 { fn drop(&mut self) { check(self.0 == 9 && (self as *const A64 as usize) % 64 == 0, "captures are where they were"); GONE.fetch_add(1, Relaxed); } }
    let calls = any_len("calls", 2);
    let x: u32 = any("x");
    #[repr(C)] struct Raw { env: *mut u8, call: Option<extern "C" fn(*mut u8, u32) -> u32>, free: Option<extern "C" fn(*mut u8)>, retain: Option<extern "C" fn(*mut u8)> }
    let mut boxed = |mut f: BoxDynFnMut1<u32, u32>| {
        for _ in 0..calls { check(f.call(x) == !x, "called"); }
        check(GONE.load(Relaxed) == 0, "the captures are alive");
        if any_len("end", 1) == 0 { drop(f) } else { let r: [usize; 3] = unsafe { transmute(f) }; let free: extern "C" fn(usize) = unsafe { transmute(r[2]) }; free(r[0]); cover("box freed from C"); }
    };
    let shared = |f: ArcDynFn1<u32, u32>| {
        let g = f.clone();
        for _ in 0..calls { check(f.call(x) == !x && g.call(!x) == x, "called"); }
        drop(f);
        check(GONE.load(Relaxed) == 0 && g.call(x) == !x, "the captures are alive");
        if any_len("end", 1) == 0 { drop(g) } else { let r: Raw = unsafe { transmute(g) }; (r.retain.unwrap())(r.env); (r.free.unwrap())(r.env); check(GONE.load(Relaxed) == 0, "the captures are alive"); (r.free.unwrap())(r.env); cover("arc freed from C"); }
    };
    match any_len("what", 4) {
        0 => { let z = Z; boxed(BoxDynFnMut1::new(Box::new(move |y: u32| { let _ = &z; !y }))); cover("zero-sized, boxed") }
        1 => { let a = A64(9); boxed(BoxDynFnMut1::new(Box::new(move |y: u32| { check(a.0 == 9, "capture"); !y }))) }
        2 => { let z = Z; shared(ArcDynFn1::new(Arc::new(move |y: u32| { let _ = &z; !y }))); cover("zero-sized, shared") }
        3 => { let a = A64(9); shared(ArcDynFn1::new(Arc::new(move |y: u32| { check(a.0 == 9, "capture"); !y }))) }
        _ => { let (z, b) = (Z, x as u8); boxed(BoxDynFnMut1::new(Box::new(move |y: u32| { let _ = &z; check(b == x as u8, "capture"); !y }))) }
    }
    check(GONE.load(Relaxed) == 1, "the captures are dropped exactly once");
    check(live() == 0, "nothing leaks");
});

//@ prop=L02 bounds="boxed closures: dropped, freed through C, moved, in an option, in a vector, called and not; with drop-counted captures and arguments; missing function pointers"
harness!(h_closure_box_ops, {
    let calls = any_len("calls", 2);
    let x: u32 = any("x");
    let (d, e) = (D::new(1), D::new(2));
    let mut total = 0u32;
    let mut f: BoxDynFnMut1<u32, u32> = Box::new(move |y: u32| { check((&d).v == 1 && (&e).v == 2, "captures are alive during a call"); total = total.wrapping_add(y); total }).into();
    for i in 0..calls { check(f.call(x) == x.wrapping_mul(i as u32 + 1), "captured state persists"); }
    #[repr(C)] struct Raw { env: *mut u8, call: Option<extern "C" fn(*mut u8, u32) -> u32>, free: Option<extern "C" fn(*mut u8)> }
    match any_len("end", 6) {
        0 => drop(f),
        1 => { let r: Raw = unsafe { transmute(f) }; r.free.unwrap()(r.env); cover("freed from C"); }
        2 => { let c = unsafe { into_raw(f) }; let mut g: BoxDynFnMut1<u32, u32> = unsafe { from_raw(c) }.unwrap(); check(g.call(0) == x.wrapping_mul(calls as u32), "moved through C"); }
        3 => { let mut v = vec![f]; check(v[0].call(1) == x.wrapping_mul(calls as u32).wrapping_add(1), "in a vector"); v.push(BoxDynFnMut1::new(Box::new(|y| y))); drop(v); }
        4 => { let g = f; let b = Box::new(g); drop(b); }
        5 => {
            // an option of a closure is null or a closure
            let o: Option<BoxDynFnMut1<u32, u32>> = Some(f);
            check(<Option<BoxDynFnMut1<u32, u32>> as ReprC>::is_valid(unsafe { &*(&o as *const _ as *const CLayoutOf<BoxDynFnMut1<u32, u32>>) }), "Some is valid");
            drop(o);
        }
        _ => {
            // no function to call: a panic, and the captures are still freed
            let mut r: Raw = unsafe { transmute(f) };
            r.call = None;
            let mut g = ManuallyDrop::new(unsafe { core::ptr::read(&r as *const Raw as *const BoxDynFnMut1<u32, u32>) });
            check(catch(|| g.call(1)).is_none(), "a closure without a function panics");
            check(alive() == 2, "and keeps its captures");
            drop(ManuallyDrop::into_inner(g));
            cover("no function");
        }
    }
    check(alive() == 0 && dropped() == 2, "the captures are dropped once");
    check(live() == 0, "nothing leaks");
});

static mut RELEASED: usize = 0;
extern "C" fn f_call(e: *mut u64, x: u64) -> u64 { unsafe { *e = (*e).wrapping_add(x); *e } }
extern "C" fn f_release(_: *mut u64) { unsafe { RELEASED += 1 } }
extern "C" fn f_retain(e: *mut u64) { unsafe { *e = (*e).wrapping_add(1000) } }
//@ prop=L01,L02 bounds="shared and boxed closures written in C, with and without a retain function; all values"
harness!(h_closure_foreign, {
    let (x, start): (u64, u64) = (any("x"), any("start"));
    #[repr(C)] struct Raw { env: *mut u64, call: extern "C" fn(*mut u64, u64) -> u64, release: extern "C" fn(*mut u64), retain: Option<extern "C" fn(*mut u64)> }
    #[repr(C)] struct RawBox { env: *mut u64, call: Option<extern "C" fn(*mut u64, u64) -> u64>, free: Option<extern "C" fn(*mut u64)> }
    let mut env = start;
    let retains = any_len("retains", 1) == 1;
    let r = Raw { env: &mut env, call: f_call, release: f_release, retain: if retains { Some(f_retain) } else { None } };
    let f: ArcDynFn1<u64, u64> = unsafe { transmute(r) };
    check(f.call(x) == start.wrapping_add(x), "the C function is called with its environment");
    let g = catch(|| f.clone());
    if retains {
        cover("retain");
        let g = g.unwrap();
        check(env == start.wrapping_add(x).wrapping_add(1000), "retained once");
        check(unsafe { RELEASED } == 0, "not released yet");
        drop(f);
        check(unsafe { RELEASED } == 1, "released once per owner");
        drop(g);
        check(unsafe { RELEASED } == 2 && env == start.wrapping_add(x).wrapping_add(1000), "released once per owner");
    } else {
        cover("no retain");
        check(g.is_none(), "without a retain function, a clone panics instead of aliasing");
        drop(f);
        check(unsafe { RELEASED } == 1, "released once");
    }
    let before = env;
    let r = RawBox { env: &mut env, call: Some(f_call), free: Some(f_release) };
    let mut b: BoxDynFnMut1<u64, u64> = unsafe { transmute(r) };
    check(b.call(x) == before.wrapping_add(x) && b.call(1) == before.wrapping_add(x).wrapping_add(1), "the C function is called with its environment");
    let n = unsafe { RELEASED };
    drop(b);
    check(unsafe { RELEASED } == n + 1, "freed once");
    check(size_of::<ArcDynFn1<u64, u64>>() == 32 && size_of::<BoxDynFnMut1<u64, u64>>() == 24 && size_of::<RefDynFnMut1<'static, u64, u64>>() == 16, "layouts");
    check(live() == 0, "nothing leaks");
});
