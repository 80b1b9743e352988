//! `safer_ffi::option`.
use crate::{harness, sx::*, util::*};
use core::mem::size_of;
use safer_ffi::layout::ReprC;
use safer_ffi::option::TaggedOption;

fn plain<T: Copy + Ord + core::hash::Hash + core::fmt::Debug>(v: T, w: T) {
    let some = any_bool("some");
    let o: Option<T> = if some { Some(v) } else { None };
    let t: TaggedOption<T> = o.into();
    check((unsafe { core::mem::transmute_copy::<_, u8>(&t) }) == some as u8, "tag");
    check(Option::<T>::from(t) == o, "round trip");
    check(t.into_rust() == o, "into_rust");
    check(t.as_ref() == o.as_ref(), "as_ref");
    let (mut a, mut b) = (t, o);
    check(a.as_mut() == b.as_mut(), "as_mut");
    if let Some(x) = a.as_mut() { *x = w; }
    if let Some(x) = b.as_mut() { *x = w; }
    check(a.into_rust() == b, "write through as_mut");
    check(TaggedOption::from(v) == TaggedOption::Some(v), "From<T>");
    check(t.map_or_else(|| 7, |x| (x == w) as u32) == o.map_or_else(|| 7, |x| (x == w) as u32), "map_or_else");
    check(t.unwrap_or_else(|| w) == o.unwrap_or_else(|| w), "unwrap_or_else");
    let mut ran = 0;
    let r = t.and_then(|x| { ran += 1; if x == w { TaggedOption::None } else { TaggedOption::Some((x, 3u8)) } });
    check(r.into_rust() == o.and_then(|x| if x == w { None } else { Some((x, 3u8)) }), "and_then");
    check(ran == some as u32, "and_then runs its closure exactly when there is a value");
    let (mut a, mut b) = (t, o);
    let x = a.take();
    check(x.into_rust() == b.take(), "take gives the old value");
    check(a.into_rust() == b && a == TaggedOption::None, "take leaves None");
    let p: Option<T> = if any_bool("other") { Some(w) } else { None };
    let u: TaggedOption<T> = p.into();
    check((t == u) == (o == p), "equality");
    check(t.cmp(&u) == o.cmp(&p), "order");
    check(t.partial_cmp(&u) == o.partial_cmp(&p), "partial order");
    check((hash_of(&t) == hash_of(&u)) || o != p, "equal values hash alike");
    check(t.clone() == t, "clone");
}

//@ prop=O01 bounds="payloads u8, i32, u64, (), a padded struct, [u16; 3]: every payload value, every pair of values"
harness!(h_option_agrees, {
    let before = live();
    match any_len("type", 5) {
        0 => plain::<u8>(any("v"), any("w")),
        1 => { plain::<i32>(any("v"), any("w")); cover("i32"); }
        2 => plain::<u64>(any("v"), any("w")),
        3 => plain((), ()),
        4 => { plain(any_pair("v"), any_pair("w")); cover("struct"); }
        _ => plain::<[u16; 3]>(any("v"), any("w")),
    }
    check(live() == before, "no allocation is left");
});

//@ prop=O01 bounds="a payload with destructor, every value, each accessor, combinator and drop once"
harness!(h_option_drops, {
    let before = live();
    let v: u32 = any("v");
    let some = any_bool("some");
    let mk = || -> TaggedOption<D> { (if some { Some(D::new(v)) } else { None }).into() };
    let n = some as usize;
    match any_len("op", 8) {
        0 => { let t = mk(); check(alive() == n, "alive"); drop(t); }
        1 => { let o: Option<D> = mk().into(); check(alive() == n && o.is_some() == some, "moved out"); if let Some(d) = &o { check(d.v == v, "payload"); } }
        2 => { let o = mk().into_rust(); check(alive() == n && o.is_some() == some, "into_rust moves"); }
        3 => { let t = mk(); let c = t.clone(); check(alive() == 2 * n && cloned() == n, "clone"); drop(t); check(alive() == n, "one left"); if let Some(d) = c.as_ref() { check(d.v == v, "payload of the clone"); } cover("cloned"); }
        4 => { let r = mk().map_or_else(|| None, |d| Some(d)); check(alive() == n && r.is_some() == some, "map_or_else moves"); }
        5 => { let d = mk().unwrap_or_else(|| D::new(!v)); check(alive() == 1 && made() == 1, "unwrap_or_else makes a default only if needed"); check(d.v == if some { v } else { !v }, "unwrap_or_else"); cover("unwrapped"); }
        6 => { let mut t = mk(); let u = t.take(); check(alive() == n && dropped() == 0, "take moves"); check(t.as_ref().is_none() && u.as_ref().is_some() == some, "take"); }
        7 => { let r = mk().and_then(|d| { let k = d.v & 1; drop(d); TaggedOption::Some(k) }); check(alive() == 0 && r.as_ref().is_some() == some, "and_then hands the payload over"); }
        _ => { let mut t = mk(); if let Some(d) = t.as_mut() { *d = D::new(!v); check(dropped() == 1, "replaced payload is dropped"); cover("replaced"); } check(alive() == n, "alive"); }
    }
    check(alive() == 0, "every payload is dropped");
    check(made() == dropped(), "made and dropped");
    check(live() == before, "everything is released");
});

fn valid<T: ReprC>(ok: impl Fn(&[u8]) -> bool, what: &str) where TaggedOption<T>: ReprC {
    let raw: [u8; 16] = any("raw");
    let n = size_of::<safer_ffi::layout::CLayoutOf<TaggedOption<T>>>();
    check(n == size_of::<TaggedOption<T>>() && n <= 16, "same size as in C");
    #[repr(C, align(16))] struct A([u8; 16]);
    let a = A(raw);
    let it = unsafe { &*(a.0.as_ptr() as *const safer_ffi::layout::CLayoutOf<TaggedOption<T>>) };
    let want = raw[0] == 0 || raw[0] == 1 && ok(&raw[core::mem::align_of::<T>()..]);
    check(<TaggedOption<T> as ReprC>::is_valid(it) == want, what);
}

//@ prop=O01,R01 bounds="every bit pattern of the raw form of tagged options of u8, bool, u32, u64, a reference and a nested option"
harness!(h_option_validity, {
    match any_len("type", 5) {
        0 => valid::<u8>(|_| true, "tagged u8"),
        1 => { valid::<bool>(|p| p[0] < 2, "tagged bool"); cover("bool"); }
        2 => valid::<u32>(|_| true, "tagged u32"),
        3 => valid::<u64>(|_| true, "tagged u64"),
        4 => { valid::<core::ptr::NonNull<u8>>(|p| p[..8].iter().fold(0, |a, b| a | b) != 0, "tagged pointer"); cover("pointer"); }
        _ => valid::<TaggedOption<bool>>(|p| p[0] == 0 || p[0] == 1 && p[1] < 2, "nested option"),
    }
});
