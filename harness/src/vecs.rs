//! `safer_ffi::vec`.
use crate::{harness, sx::*, util::*};
use core::mem::{size_of, transmute_copy};
use safer_ffi::{c_vec, prelude::*};

type CVec<T> = repr_c::Vec<T>;

fn words<T>(t: &T) -> [usize; 3] {
    check(size_of::<T>() == 24, "a vector is a pointer, a length and a capacity");
    unsafe { transmute_copy(t) }
}
fn agree<T: PartialEq>(a: &[T], b: &[T], what: &str) {
    check(a.len() == b.len(), what);
    for i in 0..a.len() { check(a[i] == b[i], what); }
}
fn filled<T: Clone>(d: &[T], spare: usize) -> Vec<T> {
    let mut v = Vec::with_capacity(d.len() + spare);
    v.extend_from_slice(d);
    v
}

fn conv_case<T: Clone + PartialEq + core::fmt::Debug>(d: &[T], spare: usize, at: usize, x: T) {
    let before = live();
    let n = d.len();
    let v = filled(d, spare);
    let (p, cap, al) = (v.as_ptr(), v.capacity(), allocs());
    let mut c: CVec<T> = v.into();
    check(words(&c) == [p as usize, n, cap], "a vector is the pointer, the length, then the capacity");
    check(c.as_ref().as_slice().as_ptr() == p && c.as_ref().len() == n, "as_ref");
    check(c.as_mut().as_slice().as_ptr() == p && c.as_mut().len() == n, "as_mut");
    { let m: &mut [T] = &mut c; check(m.as_ptr() == p && m.len() == n, "as a mutable slice"); }
    check(c[..].as_ptr() == p && c.len() == n && c[..].as_mut_ptr() as *const T == p && c[..].len() == n, "as a slice");
    agree(&c, d, "content");
    check(allocs() == al, "conversion and views allocate nothing");
    let mut e: Vec<T> = d.to_vec();
    if at < n {
        c[at] = x.clone();
        e[at] = x.clone();
        agree(&c, &e, "write through the vector");
        c.as_mut()[n - 1] = x.clone();
        e[n - 1] = x.clone();
    }
    let v: Vec<T> = c.into();
    check(v.as_ptr() == p && v.len() == n && v.capacity() == cap, "back to the same vector");
    agree(&v, &e, "content of the vector converted back");
    let c: CVec<T> = v.into();
    drop(c);
    drop(e);
    check(live() == before, "everything is released");
}

//@ prop=V01 bounds="vectors of u8, u32, a padded struct, (), a 32-aligned type and pointers, length 0..=4, spare capacity 0..=2, every content and write position"
harness!(h_vec_convert, {
    let n = any_len("n", 4);
    let spare = any_len("spare", 2);
    let at = any_len("at", 4);
    match any_len("type", 5) {
        0 => { let d: [u8; 4] = any("d"); conv_case(&d[..n], spare, at, any("x")); cover("u8"); }
        1 => { let d: [u32; 4] = any("d"); conv_case(&d[..n], spare, at, any("x")); }
        2 => { let d = [any_pair("a"), any_pair("b"), any_pair("c"), any_pair("d")]; conv_case(&d[..n], spare, at, any_pair("x")); }
        3 => { conv_case(&[(); 4][..n], spare, at, ()); cover("zero-sized"); }
        4 => { let d: [u64; 4] = any("d"); let d = d.map(Wide); conv_case(&d[..n], spare, at, Wide(any("x"))); cover("over-aligned"); }
        _ => { let d: [u32; 4] = any("d"); let y: u32 = any("x"); let d: Vec<Box<u32>> = d.iter().map(|&x| Box::new(x)).collect(); conv_case(&d[..n], spare, at, Box::new(y)); cover("boxes"); }
    }
});

//@ prop=V01 bounds="the constant empty vector of three types, and c_vec! of 0..=3 elements and of repetitions 0..=3"
harness!(h_vec_empty_and_macro, {
    let before = live();
    let al = allocs();
    let e = CVec::<u32>::EMPTY;
    check(e.len() == 0 && e.is_empty(), "EMPTY is empty");
    check(words(&e)[1..] == [0, 0] && words(&e)[0] != 0 && words(&e)[0] % 4 == 0, "EMPTY is well-formed");
    let v: Vec<u32> = e.into();
    check(v.len() == 0 && v.capacity() == 0, "EMPTY converts to an empty vector");
    drop(v);
    drop(CVec::<D>::EMPTY);
    drop(CVec::<Wide>::EMPTY);
    check(words(&CVec::<Wide>::EMPTY)[0] % 32 == 0, "EMPTY is aligned");
    let mut g = CVec::<u8>::EMPTY;
    check(g.clone().len() == 0, "a clone of EMPTY");
    check(allocs() == al, "EMPTY allocates nothing");
    let b: u8 = any("b");
    g.with_rust_mut(|v| v.push(b));
    check(g.len() == 1 && g[0] == b, "EMPTY can grow");
    drop(g);
    let x: [u32; 3] = any("x");
    let m: CVec<u32> = c_vec![x[0], x[1], x[2]];
    agree(&m, &x, "c_vec! of elements");
    drop(m);
    let m: CVec<u32> = c_vec![];
    check(m.is_empty(), "c_vec! of nothing");
    let n = any_len("n", 3);
    let m: CVec<u32> = c_vec![x[0]; n];
    check(m.len() == n, "c_vec! of repetitions");
    for i in 0..n { check(m[i] == x[0], "element of c_vec!"); }
    cover("repeated");
    drop(m);
    check(live() == before, "everything is released");
});

fn ds(n: usize, spare: usize, v: &[u32]) -> Vec<D> {
    let mut r = Vec::with_capacity(n + spare);
    for i in 0..n { r.push(D::new(v[i])); }
    r
}

//@ prop=V01 bounds="a vector of 0..=2 elements with destructors and 0..=1 spare, every value, every history of 3 operations out of clone, convert and back, replace, drop either"
harness!(h_vec_history, {
    let before = live();
    let vals: [u32; 3] = any("vals");
    let n = any_len("n", 2);
    let mut a: Option<CVec<D>> = Some(ds(n, any_len("spare", 1), &vals).into());
    let mut b: Option<CVec<D>> = None;
    let mut expect = vals;
    let mut expect_b = vals;
    for _ in 0..3 {
        match any_len("op", 4) {
            0 => if let Some(x) = &a {
                let was = cloned();
                b = Some(x.clone());
                expect_b = expect;
                check(cloned() == was + n, "a clone clones every element once");
                cover("cloned");
            },
            1 => if let Some(x) = a.take() {
                let (al, dr) = (allocs(), dropped());
                let w = words(&x);
                let v: Vec<D> = x.into();
                let y: CVec<D> = v.into();
                check(words(&y) == w, "the same vector after a round trip");
                check(allocs() == al && dropped() == dr, "a round trip copies and drops nothing");
                a = Some(y);
                cover("converted");
            },
            2 => if let Some(x) = &mut a { if n > 0 {
                let v: u32 = any("new");
                x[n - 1] = D::new(v);
                expect[n - 1] = v;
            }},
            3 => { let dr = dropped(); let had = a.is_some() as usize; a = None; check(dropped() == dr + n * had, "every element is dropped once"); }
            _ => { let dr = dropped(); let had = b.is_some() as usize; b = None; check(dropped() == dr + n * had, "every element of the clone is dropped once"); }
        }
        check(alive() == n * (a.is_some() as usize + b.is_some() as usize), "the elements alive are those owned");
        if let Some(x) = &a { check(x.len() == n, "length"); for i in 0..n { check(x[i].v == expect[i], "content of the original"); } }
        if let Some(x) = &b { check(x.len() == n, "length of the clone"); for i in 0..n { check(x[i].v == expect_b[i], "content of the clone"); } }
    }
    drop((a, b));
    check(alive() == 0, "every element is dropped");
    check(live() == before, "everything is released");
});

/// Edits `v`; `m` is what it should hold afterwards.
fn edit(v: &mut Vec<D>, m: &mut Vec<u32>, x: u32, op: usize) {
    match op {
        0 => { v.push(D::new(x)); m.push(x); }
        1 => { v.pop(); m.pop(); }
        2 => { v.clear(); m.clear(); }
        3 => { *v = Vec::new(); m.clear(); }
        4 => { *v = ds(2, 1, &[x, !x]); *m = [x, !x].to_vec(); }
        5 => { drop(core::mem::take(v)); m.clear(); }
        6 => { v.reserve(5); }
        7 => { v.shrink_to_fit(); }
        8 => { if !v.is_empty() { v.remove(0); m.remove(0); } }
        _ => { v.insert(0, D::new(x)); m.insert(0, x); }
    }
}
fn transact(depth: usize) {
    let before = live();
    let vals: [u32; 2] = any("vals");
    let n = any_len("n", 2);
    let mut m: Vec<u32> = vals[..n].to_vec();
    let mut c: CVec<D> = ds(n, any_len("spare", 1), &vals).into();
    let ops: [usize; 3] = [any_len("op0", 9), any_len("op1", 9), if depth > 2 { any_len("op2", 9) } else { 0 }];
    let boom = any_len("boom", depth); // panics before that edit; `depth`: not at all
    let x: u32 = any("x");
    let mm = &mut m;
    let cc = &mut c;
    let r = catch(move || cc.with_rust_mut(move |v| {
        for i in 0..depth {
            if i == boom { panic!("in the closure"); }
            edit(v, mm, x, ops[i]);
        }
        x
    }));
    check(r.is_some() == (boom == depth), "a panic in the closure goes through");
    if let Some(r) = r { check(r == x, "the closure's result is returned"); cover_("done"); } else { cover_("panicked"); }
    check(c.len() == m.len(), "length after editing");
    for i in 0..m.len() { check(c[i].v == m[i], "content after editing"); }
    check(alive() == m.len(), "the elements alive are those in the vector");
    check(words(&c)[2] >= c.len(), "capacity");
    // usable afterwards
    c.with_rust_mut(|v| v.push(D::new(7)));
    check(c.len() == m.len() + 1 && c[m.len()].v == 7, "a further edit");
    drop(c);
    drop(m);
    check(alive() == 0, "every element is dropped");
    check(live() == before, "everything is released");
}
fn cover_(s: &str) { cover(s) }

//@ prop=V02 bounds="a vector of 0..=2 elements with destructors, 0..=1 spare, every pair of 10 edits, a panic before either or none"
harness!(h_vec_edit2, {
    transact(2);
    cover("two edits");
});
//@ prop=V02 bounds="as above, three edits" tier=thorough
harness!(h_vec_edit3, {
    transact(3);
    cover("three edits");
});

//@ prop=V02,T01 bounds="an FFI string of 0..=3 symbolic ASCII bytes, 0..=1 spare, every pair of 8 edits, a panic before either or none"
harness!(h_string_edit, {
    let before = live();
    let b: [u8; 3] = any("b");
    for x in b { assume(x < 0x80); }
    let n = any_len("n", 3);
    let mut s = String::with_capacity(n + any_len("spare", 1));
    s.push_str(unsafe { core::str::from_utf8_unchecked(&b[..n]) });
    let mut m: Vec<u8> = b[..n].to_vec();
    let mut c: repr_c::String = s.into();
    let ops = [any_len("op0", 7), any_len("op1", 7)];
    let boom = any_len("boom", 2);
    let (cc, mm) = (&mut c, &mut m);
    let r = catch(move || cc.with_rust_mut(move |s: &mut String| {
        for i in 0..2 {
            if i == boom { panic!("in the closure"); }
            match ops[i] {
                0 => { s.push('é'); mm.extend_from_slice("é".as_bytes()); }
                1 => { s.pop(); if !mm.is_empty() { mm.pop(); if let Some(&0xC3) = mm.last() { mm.pop(); } } }
                2 => { s.clear(); mm.clear(); }
                3 => { *s = String::from("other"); *mm = b"other".to_vec(); }
                4 => { drop(core::mem::take(s)); mm.clear(); }
                5 => { s.reserve(9); }
                6 => { s.shrink_to_fit(); }
                _ => { s.insert(0, 'x'); mm.insert(0, b'x'); }
            }
        }
        s.len()
    }));
    check(r.is_some() == (boom == 2), "a panic in the closure goes through");
    if let Some(r) = r { check(r == m.len(), "the closure's result is returned"); cover("done"); } else { cover("panicked"); }
    check(same(c.as_bytes(), &m), "text after editing");
    let back: String = c.into();
    check(same(back.as_bytes(), &m), "text converted back");
    drop((back, m));
    check(live() == before, "everything is released");
});

//@ prop=V01 bounds="vectors of 0..=2 bytes, every content: debug text"
harness!(h_vec_text, {
    let d: [u8; 2] = any("d");
    let d = &d[..any_len("n", 2)];
    let c: CVec<u8> = filled(d, 1).into();
    check(same_text(&debug_of(&c), &debug_of(d)), "debug text");
    cover("end");
});

//@ prop=V01,V02 bounds="vectors of 19 lengths around powers of two from 15 to 65537, spare capacity 0 or 3: the first, last and two middle pairs of elements of every value; round trip, clone, and an edit in place that pushes, truncates, extends, clears, or panics after" time=400
harness!(h_vec_large, {
    let before = live();
    let n = any_length("n");
    let x: [u32; 6] = any("x");
    let spare = 3 * any_len("spare", 1);
    let d = bulk(n, 7u32, x);
    let v = filled(&d, spare);
    let (p, cap) = (v.as_ptr(), v.capacity());
    let mut c: CVec<u32> = v.into();
    check(words(&c) == [p as usize, n, cap], "pointer, length, capacity");
    check(c.len() == n && c[..] == d[..], "content");
    let mut e = d.clone();
    let op = any_len("op", 4);
    let boom = any_bool("panic");
    let edit = |v: &mut Vec<u32>| match op {
        0 => v.push(9),
        1 => v.truncate(n / 2),
        2 => v.extend_from_slice(&d[..n / 2]),
        3 => v.clear(),
        _ => {}
    };
    let r = catch(|| c.with_rust_mut(|v| { check(v.len() == n && v.capacity() == cap, "the whole vector to edit"); edit(v); if boom { panic!() } }));
    check(r.is_some() == !boom, "panics pass through");
    edit(&mut e);
    check(c.len() == e.len() && c[..] == e[..], "the edit is kept");
    let f = c.clone();
    drop(c);
    let f: Vec<u32> = f.into();
    check(f == e, "a clone, back");
    drop((d, e, f));
    cover("end");
    check(live() == before, "everything is released");
});
