//! `safer_ffi::slice`, `safer_ffi::boxed`.
use crate::{harness, sx::*, util::*};
use core::fmt::Debug;
use core::hash::Hash;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use safer_ffi::prelude::*;
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};

/// The two words of a value.
fn words<T>(t: &T) -> [usize; 2] {
    check(core::mem::size_of::<T>() == 16, "a slice is a pointer and a length");
    unsafe { core::mem::transmute_copy(t) }
}
fn is<T: Ord>(a: &[T], b: &[T], what: &str) {
    check(a.as_ptr() == b.as_ptr(), what);
    check(a.len() == b.len(), what);
}
fn agree<T: Ord>(a: &[T], b: &[T], what: &str) {
    check(a.len() == b.len(), what);
    for i in 0..a.len() { check(a[i] == b[i], what); }
}

fn ref_case<T: Copy + Ord + Hash + Debug>(d: &[T]) {
    let n = d.len();
    let r = slice_ref::from(d);
    check(words(&r) == [d.as_ptr() as usize, n], "a slice_ref is the pointer, then the length");
    is(r.as_slice(), d, "slice_ref::as_slice");
    is(&r, d, "slice_ref as a slice");
    let c = r.clone();
    is(&c, d, "clone of a slice_ref");
    let raw = slice_raw::from(r);
    check(words(&raw) == [d.as_ptr() as usize, n], "a slice_raw is the pointer, then the length");
    check(raw.ptr.as_ptr() as *const T == d.as_ptr() && raw.len == n, "fields of a slice_raw");
    is(unsafe { raw.as_ref() }.as_slice(), d, "slice_raw::as_ref");
    check(slice_ref::<T>::default().is_empty(), "a default slice_ref is empty");
    check(hash_of(&r) == hash_of(d), "hash of a slice_ref");
    if core::mem::size_of::<T>() > 8 { check(same_text(&debug_of(&r), &debug_of(d)), "debug text of a slice_ref"); }
    let v: c_slice::Ref<'_, T> = d.into();
    is(&v, d, "c_slice::Ref");
}
fn mut_case<T: Copy + Ord + Hash + Debug>(d: &mut [T], at: usize, x: T) {
    let n = d.len();
    let p = d.as_ptr();
    let mut copy: std::vec::Vec<T> = d.to_vec();
    let mut m = slice_mut::from(&mut *d);
    check(words(&m) == [p as usize, n], "a slice_mut is the pointer, then the length");
    check(m.as_ref().as_slice().as_ptr() == p && m.as_ref().len() == n, "slice_mut::as_ref");
    check(m.as_mut().as_slice().as_ptr() as *const T == p && m.as_mut().len() == n, "slice_mut::as_mut");
    check(m[..].as_ptr() == p && m.len() == n, "slice_mut as a slice");
    check(m[..].as_mut_ptr() as *const T == p, "slice_mut as a mutable slice");
    check(hash_of(&m) == hash_of(&copy[..]), "hash of a slice_mut");
    if core::mem::size_of::<T>() > 8 { check(same_text(&debug_of(&m), &debug_of(&copy[..])), "debug text of a slice_mut"); }
    if at < n {
        m[at] = x;
        copy[at] = x;
        agree(&m.as_ref(), &copy, "write through a slice_mut");
        m.as_mut().as_slice()[n - 1 - at] = x;
        copy[n - 1 - at] = x;
        agree(&m, &copy, "write through a re-borrowed slice_mut");
    }
    let mut raw = slice_raw::from(m);
    check(raw.ptr.as_ptr() as *const T == p && raw.len == n, "fields of a slice_raw made from a slice_mut");
    {
        let m2 = unsafe { raw.as_mut() };
        let s = m2.as_slice();
        check(s.as_ptr() == p && s.len() == n, "slice_raw::as_mut");
        if at < n { s[0] = x; copy[0] = x; }
    }
    agree(d, &copy, "writes land in the original");
    let r: slice_ref<'_, T> = slice_mut::from(&mut *d).into();
    check(r.as_ptr() == p && r.len() == n, "slice_ref from a slice_mut");
    check(slice_mut::<T>::default().is_empty(), "a default slice_mut is empty");
}
fn cmp_case<T: Copy + Ord + Hash + Debug>(a: &mut [T], b: &mut [T]) {
    let (eq, ord, po) = (a[..] == b[..], a[..].cmp(&b[..]), a[..].partial_cmp(&b[..]));
    {
        let (x, y) = (slice_ref::from(&*a), slice_ref::from(&*b));
        check((x == y) == eq, "equality of slice_refs");
        check(x.cmp(&y) == ord, "order of slice_refs");
        check(x.partial_cmp(&y) == po, "partial order of slice_refs");
    }
    {
        let (x, y) = (slice_mut::from(&mut *a), slice_mut::from(&mut *b));
        check((x == y) == eq, "equality of slice_muts");
        check(x.cmp(&y) == ord, "order of slice_muts");
        check(x.partial_cmp(&y) == po, "partial order of slice_muts");
    }
    let (x, y) = (slice_boxed::from(Box::<[T]>::from(&*a)), slice_boxed::from(Box::<[T]>::from(&*b)));
    check((x == y) == eq, "equality of boxed slices");
    check(x.cmp(&y) == ord, "order of boxed slices");
    check(x.partial_cmp(&y) == po, "partial order of boxed slices");
}
fn boxed_case<T: Copy + Ord + Hash + Debug>(d: &[T], at: usize, x: T) {
    let before = live();
    let n = d.len();
    let bx: Box<[T]> = d.into();
    let p = bx.as_ptr();
    let mut b = slice_boxed::from(bx);
    check(words(&b) == [p as usize, n], "a boxed slice is the pointer, then the length");
    check(b.as_ref().as_slice().as_ptr() == p && b.as_ref().len() == n, "slice_boxed::as_ref");
    check(b.as_slice().as_ptr() == p && b.as_slice().len() == n, "slice_boxed::as_slice");
    check(b.as_mut().as_slice().as_ptr() == p && b.as_mut().len() == n, "slice_boxed::as_mut");
    check(b.as_slice_mut().as_ptr() == p && b.as_slice_mut().len() == n, "slice_boxed::as_slice_mut");
    check(b[..].as_ptr() == p && b.len() == n, "slice_boxed as a slice");
    check(hash_of(&b) == hash_of(d), "hash of a boxed slice");
    agree(&b, d, "content of a boxed slice");
    let mut copy = d.to_vec();
    let old = b.clone();
    check(core::mem::size_of::<T>() == 0 || n == 0 || old.as_ptr() != p, "a clone has storage of its own");
    if at < n {
        b[at] = x;
        copy[at] = x;
        agree(&b, &copy, "write through a boxed slice");
        b.as_slice_mut()[n - 1] = x;
        copy[n - 1] = x;
        b.as_mut()[0] = x;
        copy[0] = x;
    }
    agree(&old, d, "a clone is independent");
    let back: Box<[T]> = b.into();
    check(back.as_ptr() == p && back.len() == n, "back to a box without copying");
    agree(&back, &copy, "content of the box");
    let e = slice_boxed::<T>::default();
    check(e.is_empty(), "a default boxed slice is empty");
    drop((back, old, copy, e));
    check(live() == before, "everything is released");
}

//@ prop=S01 bounds="borrowed, mutable and raw slices of u8, u32, a padded struct, (), and a 32-aligned type, length 0..=5, every content, every write position"
harness!(h_slice_views, {
    let before = live();
    let n = any_len("n", 5);
    let at = any_len("at", 5);
    match any_len("type", 4) {
        0 => { let mut d: [u8; 5] = any("d"); ref_case(&d[..n]); mut_case(&mut d[..n], at, any("x")); cover("u8"); }
        1 => { let mut d: [u32; 5] = any("d"); ref_case(&d[..n]); mut_case(&mut d[..n], at, any("x")); }
        2 => { let mut d = [any_pair("a"), any_pair("b"), any_pair("c"), any_pair("d"), any_pair("e")]; ref_case(&d[..n]); mut_case(&mut d[..n], at, any_pair("x")); }
        3 => { let mut d = [(); 5]; ref_case(&d[..n]); mut_case(&mut d[..n], at, ()); cover("zero-sized"); }
        _ => { let d: [u64; 5] = any("d"); let mut d = d.map(Wide); ref_case(&d[..n]); mut_case(&mut d[..n], at, Wide(any("x"))); cover("over-aligned"); }
    }
    check(live() == before, "views own nothing");
});

//@ prop=S01,S02 bounds="boxed slices of u8, u32, a padded struct, (), and a 32-aligned type, length 0..=5, every content, every write position"
harness!(h_slice_boxed, {
    let n = any_len("n", 5);
    let at = any_len("at", 5);
    match any_len("type", 4) {
        0 => { let d: [u8; 5] = any("d"); boxed_case(&d[..n], at, any("x")); cover("u8"); }
        1 => { let d: [u32; 5] = any("d"); boxed_case(&d[..n], at, any("x")); }
        2 => { let d = [any_pair("a"), any_pair("b"), any_pair("c"), any_pair("d"), any_pair("e")]; boxed_case(&d[..n], at, any_pair("x")); }
        3 => { boxed_case(&[(); 5][..n], at, ()); cover("zero-sized"); }
        _ => { let d: [u64; 5] = any("d"); let d = d.map(Wide); boxed_case(&d[..n], at, Wide(any("x"))); cover("over-aligned"); }
    }
});

//@ prop=S01 bounds="two slices (borrowed, mutable, boxed) of length 0..=3 each, of u8, i32 or (), every content"
harness!(h_slice_compare, {
    let before = live();
    let (n, m) = (any_len("n", 3), any_len("m", 3));
    match any_len("type", 2) {
        0 => { let (mut a, mut b): ([u8; 3], [u8; 3]) = (any("a"), any("b")); cmp_case(&mut a[..n], &mut b[..m]); cover("u8"); }
        1 => { let (mut a, mut b): ([i32; 3], [i32; 3]) = (any("a"), any("b")); cmp_case(&mut a[..n], &mut b[..m]); cover("i32"); }
        _ => { let (mut a, mut b) = ([(); 3], [(); 3]); cmp_case(&mut a[..n], &mut b[..m]); }
    }
    check(live() == before, "everything is released");
});

fn ds(n: usize, v: &[u32]) -> Box<[D]> { (0..n).map(|i| D::new(v[i])).collect() }

//@ prop=S02 bounds="a boxed slice of 0..=3 elements with destructors, every value, every history of 3 operations out of clone, convert to the Rust box and back, replace an element, drop the original, drop the clone"
harness!(h_slice_boxed_history, {
    let before = live();
    let vals: [u32; 3] = any("vals");
    let n = any_len("n", 3);
    let mut a: Option<slice_boxed<D>> = Some(ds(n, &vals).into());
    let mut b: Option<slice_boxed<D>> = None;
    let mut expect = vals;
    for _ in 0..3 {
        match any_len("op", 4) {
            0 => if let Some(x) = &a {
                let was = cloned();
                b = Some(x.clone());
                check(cloned() == was + n, "a clone clones every element once");
                cover("cloned");
            },
            1 => if let Some(x) = a.take() {
                let (al, dr) = (allocs(), dropped());
                let bx: Box<[D]> = x.into();
                let p = bx.as_ptr();
                let y: slice_boxed<D> = bx.into();
                check(y.as_ptr() == p && y.len() == n, "same elements after the round trip");
                check(allocs() == al && dropped() == dr, "a round trip copies and drops nothing");
                a = Some(y);
                cover("converted");
            },
            2 => if let Some(x) = &mut a { if n > 0 {
                let v: u32 = any("new");
                let dr = dropped();
                x[n - 1] = D::new(v);
                check(dropped() == dr + 1, "the replaced element is dropped");
                expect[n - 1] = v;
            }},
            3 => { let dr = dropped(); let had = a.is_some() as usize; a = None; check(dropped() == dr + n * had, "every element is dropped once"); }
            _ => { let dr = dropped(); let had = b.is_some() as usize; b = None; check(dropped() == dr + n * had, "every element of the clone is dropped once"); }
        }
        check(alive() == n * (a.is_some() as usize + b.is_some() as usize), "the elements alive are those owned");
        if let Some(x) = &a { for i in 0..n { check(x[i].v == expect[i], "content of the original"); } }
    }
    drop((a, b));
    check(alive() == 0, "every element is dropped");
    check(live() == before, "everything is released");
});

//@ prop=S02 bounds="a boxed value (with destructor, zero-sized, over-aligned, plain), every value, clone / convert / write / drop in every order of 3"
harness!(h_box, {
    let before = live();
    match any_len("type", 3) {
        0 => {
            let v: u32 = any("v");
            let mut e = v;
            let mut a: Option<repr_c::Box<D>> = Some(if any_bool("from") { Box::new(D::new(v)).into() } else { repr_c::Box::<D>::new(D::new(v)) });
            let mut b: Option<repr_c::Box<D>> = None;
            for _ in 0..3 {
                match any_len("op", 4) {
                    0 => if let Some(x) = &a { let c = cloned(); b = Some(x.clone()); check(cloned() == c + 1, "a clone clones the value once"); cover("cloned"); },
                    1 => if let Some(x) = a.take() {
                        let p = &*x as *const D;
                        let (al, dr) = (allocs(), dropped());
                        let bx: Box<D> = x.into();
                        check(&*bx as *const D == p, "into the Rust box without a move");
                        let y: repr_c::Box<D> = bx.into();
                        check(&*y as *const D == p, "from the Rust box without a move");
                        check(unsafe { core::mem::transmute_copy::<_, usize>(&y) } == p as usize, "an FFI box is the pointer");
                        check(allocs() == al && dropped() == dr, "a round trip copies and drops nothing");
                        a = Some(y);
                        cover("converted");
                    },
                    2 => if let Some(x) = &mut a { let w: u32 = any("w"); x.v = w; e = w; },
                    3 => { let (d, h) = (dropped(), a.is_some() as usize); a = None; check(dropped() == d + h, "the value is dropped once"); }
                    _ => { let (d, h) = (dropped(), b.is_some() as usize); b = None; check(dropped() == d + h, "the clone is dropped once"); }
                }
                check(alive() == a.is_some() as usize + b.is_some() as usize, "the values alive are those owned");
                if let Some(x) = &a { check(x.v == e, "content"); check(same_text(&debug_of(x), &debug_of(&**x)), "debug text"); }
            }
            drop((a, b));
            check(alive() == 0, "every value is dropped");
        }
        1 => {
            let a = repr_c::Box::<()>::new(());
            let b = a.clone();
            let c: Box<()> = a.into();
            drop((b, c));
            cover("zero-sized");
        }
        2 => {
            let v: u64 = any("v");
            let a = repr_c::Box::<Wide>::new(Wide(v));
            check((&*a as *const Wide as usize) % 32 == 0, "alignment");
            let b: Box<Wide> = a.into();
            check(b.0 == v, "content");
            let c = repr_c::Box::<Wide>::from(b).clone();
            check(c.0 == v, "content of a clone");
        }
        _ => {
            let v: u8 = any("v");
            let mut a: repr_c::Box<u8> = Box::new(v).into();
            *a ^= 1;
            let b = a.clone();
            *a ^= 3;
            check(*b == v ^ 1 && *a == v ^ 2, "clones are independent");
        }
    }
    check(live() == before, "everything is released");
});

//@ prop=S02 bounds="the FFI non-null pointers: made from references, read, cast, copied, and the owning one dropping and freeing what it points to (a destructor, a zero-sized type), every value"
harness!(h_non_null, {
    use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
    use core::ptr::NonNull;
    let before = live();
    let v: u32 = any("v");
    let w: u32 = any("w");
    match any_len("kind", 5) {
        0 => {
            let r = NonNullRef::<u32>::from(&v);
            check(r.as_ptr() == &v as *const u32 && unsafe { *r.clone().as_ptr() } == v, "a reference");
            check(r.cast::<u8>().as_ptr() as usize == &v as *const u32 as usize, "cast");
            cover("ref");
        }
        1 => {
            let mut x = v;
            let p = &mut x as *mut u32;
            let mut m = NonNullMut::<u32>::from(&mut x);
            check(m.as_mut_ptr() == p && m.copy().as_ptr() == p as *const u32, "a unique reference");
            unsafe { *m.as_mut_ptr() = w; }
            *m = NonNull::from(&w);
            check(x == w && m.as_ptr() == &w as *const u32, "written through, then moved on");
        }
        2 => {
            let dr = dropped();
            let b = Box::new(D::new(v));
            let mut o: NonNullOwned<D> = NonNull::from(Box::leak(b)).into();
            check(unsafe { (*o.as_mut_ptr()).v } == v, "owned");
            unsafe { o.drop_in_place_and_dealloc::<D>() };
            check(dropped() == dr + 1, "dropped once");
            cover("owned");
        }
        3 => {
            let dr = dropped();
            let mut o: NonNullOwned<D> = NonNull::from(Box::leak(Box::new(D::new(v)))).into();
            unsafe { o.copy().drop_in_place::<D>(); }
            check(dropped() == dr + 1, "dropped once");
            unsafe { o.dealloc::<D>() };
            check(dropped() == dr + 1, "freed only");
        }
        4 => {
            let o: NonNullOwned<Wide> = NonNull::from(Box::leak(Box::new(Wide(v as u64)))).into();
            check(unsafe { (*o.as_ptr()).0 } == v as u64, "over-aligned");
            unsafe { o.drop_in_place_and_dealloc::<Wide>() };
        }
        _ => {
            let o: NonNullOwned<()> = NonNull::from(Box::leak(Box::new(()))).into();
            unsafe { o.drop_in_place_and_dealloc::<()>() };
        }
    }
    check(live() == before, "no leak");
});

//@ prop=S02 bounds="a value behind the opaque wrapper: boxes of either kind and references of either kind made from it, read, written through and dropped, every value"
harness!(h_box_opaque, {
    use safer_ffi::layout::Opaque;
    let before = live();
    let v: u32 = any("v");
    let w: u32 = any("w");
    let b = Box::new(D::new(v));
    let p = &*b as *const D as usize;
    let (al, dr) = (allocs(), dropped());
    match any_len("kind", 3) {
        0 => {
            let mut o: repr_c::Box<Opaque<D>> = b.into();
            check(unsafe { core::mem::transmute_copy::<_, usize>(&o) } == p, "an opaque box is the pointer");
            check(o.v == v && &**o as *const D as usize == p, "read through");
            o.v = w;
            check(o.concrete.v == w && allocs() == al && dropped() == dr, "written through, in place");
            let back: Box<Opaque<D>> = o.into();
            check(back.v == w && &*back as *const Opaque<D> as usize == p, "back to a Rust box");
            drop(back.concrete);
            check(dropped() == dr + 1, "dropped once");
            cover("an FFI box");
        }
        1 => {
            let mut o: Box<Opaque<D>> = b.into();
            o.v = w;
            check(o.v == w && &*o as *const Opaque<D> as usize == p && allocs() == al, "the same box");
            drop(o);
            check(dropped() == dr + 1, "dropped once");
        }
        2 => {
            let o: &Opaque<D> = (&*b).into();
            check(o.v == v && o as *const Opaque<D> as usize == p, "the same reference");
            cover("a reference");
            drop(b);
        }
        _ => {
            let mut b = b;
            let o: &mut Opaque<D> = (&mut *b).into();
            o.v = w;
            check(o as *const Opaque<D> as usize == p && b.v == w, "the same unique reference");
            drop(b);
        }
    }
    check(allocs() == al && dropped() == dr + 1, "nothing copied, dropped once");
    check(live() == before, "no leak");
});

//@ prop=S02,V01,O01 bounds="boxes, boxed slices, vectors of 0..=3 and tagged options of zero-sized values with a destructor; dropped, converted back, cloned, or with a value taken out"
harness!(h_zero_sized, {
    struct Z;
    static Z_MADE: AtomicUsize = AtomicUsize::new(0);
    static Z_GONE: AtomicUsize = AtomicUsize::new(0);
    impl Z { fn new() -> Z { Z_MADE.fetch_add(1, Relaxed); Z } }
    impl Clone for Z { fn clone(&self) -> Z { Z::new() } }
    impl Drop for Z { fn drop(&mut self) { Z_GONE.fetch_add(1, Relaxed); } }
    let (made, gone) = (|| Z_MADE.load(Relaxed), || Z_GONE.load(Relaxed));
    Z_MADE.store(0, Relaxed);
    Z_GONE.store(0, Relaxed);
    let before = live();
    let n = any_len("n", 3);
    let all = |n: usize| -> Vec<Z> { (0..n).map(|_| Z::new()).collect() };
    match any_len("what", 8) {
        0 => { let b: c_slice::Box<Z> = all(n).into_boxed_slice().into(); check(b.len() == n && gone() == 0, "length"); drop(b); cover("boxed slice") }
        1 => { let b: c_slice::Box<Z> = all(n).into_boxed_slice().into(); let b: Box<[Z]> = b.into(); check(b.len() == n && gone() == 0, "length"); }
        2 => { let b: c_slice::Box<Z> = all(n).into_boxed_slice().into(); let c = b.clone(); check(c.len() == n && made() == 2 * n, "every element is cloned once"); }
        3 => { let v: repr_c::Vec<Z> = all(n).into(); check(v.len() == n && gone() == 0, "length"); drop(v); cover("vector") }
        4 => { let v: repr_c::Vec<Z> = all(n).into(); let mut v: Vec<Z> = v.into(); check(v.len() == n && gone() == 0, "length"); v.push(Z::new()); check(v.len() == n + 1, "length"); }
        5 => { let mut v: repr_c::Vec<Z> = all(n).into(); v.with_rust_mut(|v| { v.pop(); v.push(Z::new()); v.push(Z::new()); }); check(v.len() == n.saturating_sub(1) + 2, "length"); }
        6 => { let b: repr_c::Box<Z> = Box::new(Z::new()).into(); let c = b.clone(); drop(b); check(gone() == 1 && made() == 2, "dropped once"); drop(c); cover("box") }
        7 => { let b: repr_c::Box<Z> = Box::new(Z::new()).into(); let z = *b.into(); check(gone() == 0, "moved out"); drop::<Z>(z); }
        _ => { let o: safer_ffi::option::TaggedOption<Z> = if n > 0 { Some(Z::new()) } else { None }.into(); let p = o.clone(); check(made() == 2 * (n > 0) as usize && gone() == 0, "cloned once"); drop(o); let p: Option<Z> = p.into(); check(p.is_some() == (n > 0), "option"); cover("option") }
    }
    check(made() == gone(), "every zero-sized value is dropped exactly once");
    check(live() == before, "all memory is given back");
});

//@ prop=S02,V01,O01 bounds="boxes, boxed slices and vectors of 0..=3, and tagged options, of a type without destructor whose `Clone` leaves a mark, every value"
harness!(h_clone_plain, {
    let before = live();
    let x: [u64; 3] = any("x");
    let n = any_len("n", 3);
    let d: Vec<Gen> = x[..n].iter().map(|&n| Gen { n, made: 0 }).collect();
    fn told(a: &[Gen], x: &[u64], made: u64) { check(a.len() == x.len(), "length"); for i in 0..x.len() { check(a[i].n == x[i] && a[i].made == made, "every element is cloned once"); } }
    match any_len("what", 3) {
        0 => {
            let v: repr_c::Vec<Gen> = d.into();
            let w = v.clone();
            let u = w.clone();
            told(&v, &x[..n], 0); told(&w, &x[..n], 1); told(&u, &x[..n], 2);
            drop((v, w));
            let u: Vec<Gen> = u.into();
            told(&u, &x[..n], 2);
            cover("vectors");
        }
        1 => {
            let v: c_slice::Box<Gen> = d.into_boxed_slice().into();
            let w = v.clone();
            told(&v, &x[..n], 0); told(&w, &x[..n], 1);
            drop(v);
            let w: Box<[Gen]> = w.into();
            told(&w, &x[..n], 1);
            told(&w[..].to_vec(), &x[..n], 2);
            cover("slices");
        }
        2 => {
            drop(d);
            let v: repr_c::Box<Gen> = Box::new(Gen { n: x[0], made: 0 }).into();
            let w = v.clone();
            check(w.n == x[0] && w.made == 1 && v.made == 0, "the value of a box is cloned once");
            cover("boxes");
        }
        _ => {
            drop(d);
            let v: safer_ffi::option::TaggedOption<Gen> = Some(Gen { n: x[0], made: 0 }).into();
            let w: Option<Gen> = v.clone().into();
            let v: Option<Gen> = v.into();
            check(matches!((v, w), (Some(v), Some(w)) if v.n == x[0] && w.n == x[0] && v.made == 0 && w.made == 1), "the payload of an option is cloned once");
            cover("options");
        }
    }
    check(live() == before, "everything is released");
});

fn large_case(d: Vec<u32>, w: u32, at: usize) {
    let n = d.len();
    let p = d.as_ptr();
    let r: c_slice::Ref<'_, u32> = d[..].into();
    check(r.len() == n && r.as_slice().as_ptr() == p && r.as_slice().len() == n, "a borrowed slice");
    check(unsafe { core::mem::transmute_copy::<_, [usize; 2]>(&r) } == [p as usize, n], "pointer, then length");
    let mut b: Box<[u32]> = d.clone().into_boxed_slice();
    let q = b.as_ptr();
    { let mut m: c_slice::Mut<'_, u32> = (&mut b[..]).into(); check(m.len() == n, "a mutable slice"); m[at] = w; }
    let c: c_slice::Box<u32> = b.into();
    check(c.len() == n && c.as_ptr() == q && c[at] == w && c[n - 1] == if at == n - 1 { w } else { d[n - 1] }, "a boxed slice");
    let e = c.clone();
    check(e[..] == c[..] && e.as_ptr() != q, "a clone");
    drop(c);
    let mut e: Box<[u32]> = e.into();
    e[at] = d[at];
    check(e[..] == d[..], "the content, back");
}
//@ prop=S01,S02 bounds="slices of 19 lengths around powers of two from 15 to 65537: the first, last and two middle pairs of elements of every value, written at one of them" time=400
harness!(h_slice_large, {
    let before = live();
    let n = any_length("n");
    let at = match any_len("at", 3) { 0 => 0, 1 => n / 2, 2 => n - 2, _ => n - 1 };
    large_case(bulk(n, 7, any("x")), any("w"), at);
    cover("end");
    check(live() == before, "everything is released");
});

//@ prop=S01 bounds="slices of 127..=129, 255..=257, 4096 and 65535..=65537 elements that differ by any two elements at one of six places, or by one element of length: equality, order" time=400
harness!(h_slice_compare_large, {
    let before = live();
    let n = [127, 128, 129, 255, 256, 257, 4096, 65535, 65536, 65537][any_len("n", 9)];
    let at = [0, 1, n / 2, n / 2 + 1, n - 2, n - 1][any_len("at", 5)];
    let mut d = vec![0x5Au8; n];
    let mut e = d.clone();
    (d[at], e[at]) = (any("p"), any("q"));
    if any_bool("shorter") { e.truncate(n - 1); }
    let (eq, ord) = (d == e, d.cmp(&e));
    {
        let (a, b): (c_slice::Ref<'_, u8>, c_slice::Ref<'_, u8>) = (d[..].into(), e[..].into());
        check((a == b) == eq && a.cmp(&b) == ord && a.partial_cmp(&b) == Some(ord), "borrowed");
    }
    if any_bool("boxed") {
        let (a, b): (c_slice::Box<u8>, c_slice::Box<u8>) = (d.into_boxed_slice().into(), e.into_boxed_slice().into());
        check((a == b) == eq && a.cmp(&b) == ord, "boxed");
    } else {
        let (a, b): (c_slice::Mut<'_, u8>, c_slice::Mut<'_, u8>) = ((&mut d[..]).into(), (&mut e[..]).into());
        check((a == b) == eq && a.cmp(&b) == ord, "mutable");
        drop((d, e));
    }
    cover("end");
    check(live() == before, "everything is released");
});
