//! `safer_ffi::bytes`.
use crate::util::{debug_of, same_text, Text};
use crate::{harness, sx::*};
use core::ops::Bound;
use safer_ffi::bytes::{Bytes, BytesVt};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub static RETAINS: AtomicUsize = AtomicUsize::new(0);
pub static RELEASES: AtomicUsize = AtomicUsize::new(0);
pub fn retains() -> usize { RETAINS.load(SeqCst) }
pub fn releases() -> usize { RELEASES.load(SeqCst) }

/// Owner types of our own: their drops are counted.
pub struct Own(pub Vec<u8>);
impl AsRef<[u8]> for Own { fn as_ref(&self) -> &[u8] { &self.0 } }
impl Drop for Own { fn drop(&mut self) { RELEASES.fetch_add(1, SeqCst); } }

/// Owner of `from_raw_parts`: a heap block with a count of its own.
pub struct Raw { count: usize, data: Vec<u8>, cap: usize }
unsafe extern "C" fn raw_retain(o: *const (), cap: usize) {
    let r = &mut *(o as *mut Raw);
    check(r.cap == cap, "retain gets the capacity it was registered with");
    check(r.count > 0, "retain of a released owner");
    r.count += 1;
    RETAINS.fetch_add(1, SeqCst);
}
unsafe extern "C" fn raw_release(o: *const (), cap: usize) {
    let r = &mut *(o as *mut Raw);
    check(r.cap == cap, "release gets the capacity it was registered with");
    check(r.count > 0, "release of a released owner");
    r.count -= 1;
    if r.count == 0 {
        RELEASES.fetch_add(1, SeqCst);
        drop(Box::from_raw(o as *mut Raw));
    }
}
static RAW_SHARED: BytesVt = BytesVt { retain: Some(raw_retain), release: Some(raw_release) };
static RAW_UNIQUE: BytesVt = BytesVt { retain: None, release: Some(raw_release) };
static RAW_PLAIN: BytesVt = BytesVt { retain: None, release: None };

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K { Slice, Static, ArcSlice, Box, Vec, ArcT, StabbyArcSlice, StabbyArc, StabbyVec, StabbyBox, RawShared, RawUnique, RawPlain, Copied, Inline }
pub const KINDS: [K; 15] = [K::Slice, K::Static, K::ArcSlice, K::Box, K::Vec, K::ArcT, K::StabbyArcSlice, K::StabbyArc, K::StabbyVec, K::StabbyBox, K::RawShared, K::RawUnique, K::RawPlain, K::Copied, K::Inline];

fn svec(d: &[u8]) -> stabby::vec::Vec<u8> {
    let mut v = stabby::vec::Vec::new();
    v.copy_extend(d);
    v
}
/// A value of the given backing. The result borrows `d` only for the borrowing kinds (and `Static`, of which `d` outlives every use).
pub fn make<'a>(k: K, d: &'a [u8]) -> Bytes<'a> {
    match k {
        K::Slice => Bytes::from_slice(d),
        K::Static => Bytes::from_static(unsafe { core::mem::transmute::<&'a [u8], &'static [u8]>(d) }),
        K::ArcSlice => Arc::<[u8]>::from(d).into(),
        K::Box => Box::<[u8]>::from(d).into(),
        K::Vec => {
            let mut v = Vec::with_capacity(d.len() + 3);
            v.extend_from_slice(d);
            v.into()
        }
        K::ArcT => Arc::new(Own(d.to_vec())).into(),
        K::StabbyArcSlice => stabby::sync::ArcSlice::<u8>::from(d).into(),
        K::StabbyArc => stabby::sync::Arc::new(Own(d.to_vec())).into(),
        K::StabbyVec => svec(d).into(),
        K::StabbyBox => stabby::boxed::BoxedSlice::from(svec(d)).into(),
        K::RawShared | K::RawUnique => {
            let r = Box::into_raw(Box::new(Raw { count: 1, data: d.to_vec(), cap: d.len() ^ 0x5555 }));
            unsafe {
                let s: &'a [u8] = core::slice::from_raw_parts((*r).data.as_ptr(), d.len());
                Bytes::from_raw_parts(s, r as *const (), (*r).cap, if k == K::RawShared { &RAW_SHARED } else { &RAW_UNIQUE })
            }
        }
        K::RawPlain => unsafe { Bytes::from_raw_parts(d, core::ptr::null(), 7, &RAW_PLAIN) },
        K::Copied => Bytes::copied_from_slice(d),
        K::Inline => Bytes::inline_slice(d).unwrap(),
    }
}
pub fn any_kind(n: usize) -> K {
    let k = KINDS[any_len("kind", KINDS.len() - 1)];
    assume(k != K::Inline || n <= Bytes::MAX_INLINE_SIZE);
    k
}
fn counts_owner(k: K) -> bool { matches!(k, K::ArcT | K::StabbyArc | K::RawShared | K::RawUnique) }

fn pick(name: &str, of: &[usize]) -> usize { of[any_len(name, of.len() - 1)] }

struct Fold(u64);
impl core::hash::Hasher for Fold {
    fn write(&mut self, b: &[u8]) { for &x in b { self.0 = self.0.rotate_left(7) ^ (x as u64) ^ 0x100; } }
    fn finish(&self) -> u64 { self.0 }
}
fn hash_of<T: core::hash::Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fold(1);
    t.hash(&mut h);
    core::hash::Hasher::finish(&h)
}

//@ prop=B01 bounds="all 15 backings, every length 0..=42, every content"
harness!(h_bytes_content, {
    let before = live();
    let data: [u8; 42] = any("data");
    let n = any_len("n", 42);
    let d = &data[..n];
    let k = any_kind(n);
    let b = make(k, d);
    check(b.len() == n, "length");
    check(b.is_empty() == (n == 0), "emptiness");
    check(same(&b, d), "content");
    check(same(b.as_ref(), d), "content through AsRef");
    check(same(core::borrow::Borrow::<[u8]>::borrow(&b), d), "content through Borrow");
    check(hash_of(&b) == hash_of(d), "hash of the content");
    let c = b.clone();
    check(same(&c, d), "content of a clone");
    drop(b);
    check(same(c.as_slice(), d), "content of a clone that outlives the original");
    let e = c.clone();
    let m = e; // moved: inlined data moves along
    check(same(&m, d), "content of a moved clone of a clone");
    check(c == m, "clones are equal");
    drop(c);
    check(same(&m, d), "content of the last clone");
    cover("checked");
    if n == 42 { cover("long"); }
    drop(m);
    check(live() == before, "everything is released");
});

//@ prop=B01 bounds="two values of any length 0..=3, every content, 5x5 backings"
harness!(h_bytes_compare_short, {
    let (x, y): ([u8; 3], [u8; 3]) = (any("x"), any("y"));
    let (n, m) = (any_len("n", 3), any_len("m", 3));
    let ks = [K::Slice, K::Static, K::ArcSlice, K::Box, K::StabbyArcSlice];
    let (kx, ky) = (ks[any_len("kx", 4)], ks[any_len("ky", 4)]);
    let (x, y) = (&x[..n], &y[..m]);
    let (a, b) = (make(kx, x), make(ky, y));
    check((a == b) == (x == y), "equality is equality of contents");
    check(a.partial_cmp(&b) == Some(x.cmp(y)), "order is order of contents");
    check((a == y) == (x == y), "equality with a slice");
    cover("end");
});

//@ prop=B01 bounds="two values of length 33..=35 that differ in at most two bytes anywhere, 15 backings"
harness!(h_bytes_compare_long, {
    let n = any_in("n", 33, 35);
    let m = any_in("m", 33, 35);
    let x = [7u8; 35];
    let mut y = [7u8; 35];
    let at = any_len("at", 34);
    y[at] = any("byte");
    y[0] = any("first");
    let k = any_kind(n);
    let k2 = if any_bool("second") { K::Slice } else { K::Box };
    let (a, b) = (make(k, &x[..n]), make(k2, &y[..m]));
    check((a == b) == (x[..n] == y[..m]), "equality is equality of contents");
    check((b == a) == (x[..n] == y[..m]), "equality is symmetric");
    check(a.partial_cmp(&b) == Some(x[..n].cmp(&y[..m])), "order is order of contents");
    cover("end");
});

// ---- slicing
/// What a plain slice does: `None` if the range is not valid.
fn range_of(s: Bound<usize>, e: Bound<usize>, len: usize) -> Option<(usize, usize)> {
    let lo = match s { Bound::Included(i) => i, Bound::Excluded(i) => i.checked_add(1)?, Bound::Unbounded => 0 };
    let hi = match e { Bound::Included(i) => i.checked_add(1)?, Bound::Excluded(i) => i, Bound::Unbounded => len };
    if lo <= hi && hi <= len { Some((lo, hi)) } else { None }
}
/// The bounds of a valid range are taken one by one, those of an invalid one stay symbolic.
fn settle(b: Bound<usize>) -> Bound<usize> {
    match b { Bound::Included(i) => Bound::Included(concrete(i)), Bound::Excluded(i) => Bound::Excluded(concrete(i)), b => b }
}
fn any_bound(kind: &str, val: &str) -> Bound<usize> {
    let k = any_len(kind, 2);
    let v: usize = any(val);
    match k { 0 => Bound::Included(v), 1 => Bound::Excluded(v), _ => Bound::Unbounded }
}
fn shrink_case(k: K, n: usize, data: &[u8]) {
    let d = &data[..n];
    let (s, e) = (any_bound("start_kind", "start"), any_bound("end_kind", "end"));
    let before = live();
    let rel = releases();
    let want = range_of(s, e, n);
    let mut b = make(k, d);
    let by_value = any_bool("by_value");
    match want {
        Some((lo, hi)) => {
            let (lo, hi) = (concrete(lo), concrete(hi));
            let (s, e) = (settle(s), settle(e));
            if by_value { b = b.subsliced((s, e)); } else { b.shrink_to((s, e)); }
            check(b.len() == hi - lo, "length of the sub-slice");
            check(same(&b, &d[lo..hi]), "content of the sub-slice");
            drop(b);
            cover("valid");
        }
        None => {
            let r = catch(move || {
                if by_value { let b = b.subsliced((s, e)); drop(b); } else { b.shrink_to((s, e)); }
            });
            check(r.is_none(), "an invalid range panics");
            cover("invalid");
        }
    }
    check(live() == before, "everything is released");
    if counts_owner(k) { check(releases() == rel + 1, "the owner is released once"); }
}
//@ prop=B02,B03 bounds="inlined, borrowed and stable-ABI shared backings, length in {0,1,2,5}, every content, every pair of bounds of every kind and value"
harness!(h_bytes_shrink_short, {
    let data: [u8; 5] = any("data");
    let n = pick("n", &[0, 1, 2, 5]);
    let k = [K::Slice, K::Static, K::StabbyArcSlice, K::RawUnique][any_len("kind", 3)];
    shrink_case(k, n, &data);
    cover("done");
});
//@ prop=B02 bounds="all backings, length in {3,32,33}, every content, every pair of bounds of the 9 kinds, start in the first or last 2 places or invalid" time=300
harness!(h_bytes_shrink_all, {
    let data: [u8; 36] = any("data");
    let n = pick("n", &[3, 32, 33]);
    let k = any_kind(n);
    let d = &data[..n];
    let (s, e) = (any_bound("start_kind", "start"), any_bound("end_kind", "end"));
    let want = range_of(s, e, n);
    if let Some((lo, hi)) = want {
        assume(lo <= 1 || lo + 1 >= n);
        assume(hi <= 1 || hi + 1 >= n);
        let (lo, hi) = (concrete(lo), concrete(hi));
        let (s, e) = (settle(s), settle(e));
        let mut b = make(k, d);
        b.shrink_to((s, e));
        check(same(&b, &d[lo..hi]), "content of the sub-slice");
        cover("valid");
    } else {
        let mut b = make(k, d);
        let r = catch(|| b.shrink_to((s, e)));
        check(r.is_none(), "an invalid range panics");
        check(same(&b, d), "and leaves the value as it was");
        cover("invalid");
    }
});
//@ prop=B02 bounds="borrowed, unique and shared backings, length 70, start and end within 2 of 0, 32..38 or 70; then once more"
harness!(h_bytes_shrink_twice, {
    let mut data = [0u8; 70];
    for i in 0..70 { data[i] = i as u8; }
    data[36] = any("middle");
    let k = [K::Slice, K::Box, K::ArcSlice, K::RawShared][any_len("kind", 3)];
    let (lo, hi) = (pick("lo", &[0, 1, 2, 32, 33, 36]), pick("hi", &[34, 36, 37, 38, 66, 68, 69, 70]));
    assume(lo <= hi);
    let mut b = make(k, &data).subsliced(lo..hi);
    check(same(&b, &data[lo..hi]), "content of the sub-slice");
    let len = hi - lo;
    let lo2 = pick("lo2", &[0, 1, 2]);
    let cut = pick("cut", &[0, 1, 33]);
    assume(lo2 + cut <= len);
    b.shrink_to(lo2..len - cut);
    check(same(&b, &data[lo + lo2..hi - cut]), "content of the sub-slice of a sub-slice");
    let past = b.len() + 1;
    check(catch(|| b.shrink_to(..past)).is_none(), "a sub-slice does not grow back");
    cover("end");
});
fn split_case(k: K, d: &[u8], at: usize) {
    let n = d.len();
    let before = live();
    let rel = releases();
    let b = make(k, d);
    let swap = any_bool("drop_left_first");
    let at = if at <= n { concrete(at) } else { at };
    match b.split_at(at) {
        Ok((l, r)) => {
            check(at <= n, "an index out of bounds is refused");
            check(same(&l, &d[..at]), "left part");
            check(same(&r, &d[at..]), "right part");
            if swap {
                drop(l);
                check(same(&r, &d[at..]), "right part, alone");
                drop(r);
            } else {
                drop(r);
                check(same(&l, &d[..at]), "left part, alone");
                drop(l);
            }
            cover("split");
        }
        Err(b) => {
            check(at > n, "an index in bounds is not refused");
            check(same(&b, d), "a refused value is unchanged");
            cover("refused");
        }
    }
    check(live() == before, "everything is released");
    if counts_owner(k) { check(releases() == rel + 1, "the owner is released once"); }
}
//@ prop=B02,B03 bounds="inline, borrowed and boxed, every length 0..=40, every content, every index of usize"
harness!(h_bytes_split, {
    let data: [u8; 40] = any("data");
    let n = any_len("n", 40);
    let k = [K::Slice, K::Box][any_len("kind", 1)];
    split_case(k, &data[..n], any("at"));
    cover("end");
});
//@ prop=B02,B03 bounds="all backings, length in {3,33,66,67,70}, every content, every index within 1 of 0, 33, 37 and the end, or out of bounds"
harness!(h_bytes_split_all, {
    let data: [u8; 70] = any("data");
    let n = pick("n", &[3, 33, 66, 67, 70]);
    let k = any_kind(n);
    let at: usize = any("at");
    assume(at <= 1 || (at >= 32 && at <= 34) || (at >= 36 && at <= 38) || at >= n - 1);
    split_case(k, &data[..n], at);
    cover("end");
});
//@ prop=B02 bounds="reading into a buffer of 0..=4 or 34 bytes from values of length 0..=4, 33, 36, 3 backings, three times"
harness!(h_bytes_read, {
    use std::io::Read;
    let data: [u8; 36] = any("data");
    let n = pick("n", &[0, 1, 2, 3, 4, 33, 36]);
    let k = [K::Slice, K::StabbyArcSlice, K::Box][any_len("kind", 2)];
    let mut b = make(k, &data[..n]);
    let mut at = 0;
    for _ in 0..3 {
        let mut buf = [0xeeu8; 36];
        let m = pick("m", &[0, 1, 3, 34]);
        let r = b.read(&mut buf[..m]).unwrap();
        check(r == m.min(n - at), "number of bytes read");
        check(same(&buf[..r], &data[at..at + r]), "bytes read");
        check(buf[r] == 0xee, "nothing beyond them is written");
        at += r;
        check(same(&b, &data[at..n]), "what is left");
    }
    cover("end");
});

// ---- upgrades
fn borrowed(k: K) -> bool { matches!(k, K::Slice | K::RawPlain) }
//@ prop=B04 bounds="all backings, length in {0,5,32,33,39,40,41}, every content, plain, cloned or sliced before; the source is released before the result is read"
harness!(h_bytes_upgrade, {
    let before = live();
    let data: [u8; 41] = any("data");
    let n = pick("n", &[0, 5, 32, 33, 39, 40, 41]);
    let k = any_kind(n);
    let src: Box<[u8]> = data[..n].into();
    let keep: Vec<u8> = if k == K::Static { src.to_vec() } else { Vec::new() };
    let mut b = make(k, if k == K::Static { &keep } else { &src });
    let (mut lo, mut copied) = (0, false);
    match any_len("before", 2) {
        0 => {}
        1 => { b = b.clone(); copied = k == K::RawPlain; }
        _ => { if n > 0 { b = b.subsliced(1..); lo = 1; } }
    }
    let must = copied || !(borrowed(k) && n - lo > Bytes::MAX_INLINE_SIZE);
    let up: Bytes<'static> = if any_bool("noalloc") {
        let a = allocs();
        match b.noalloc_upgrade() {
            Ok(u) => {
                check(allocs() == a, "no allocation");
                check(must, "borrowed data is not upgraded without copying it");
                cover("upgraded without allocation");
                u
            }
            Err(e) => {
                check(allocs() == a, "no allocation");
                check(same(&e, &data[lo..n]), "what could not be upgraded is given back");
                check(!must, "inlined, static and owned data upgrade without allocation");
                cover("refused");
                e.upgrade()
            }
        }
    } else {
        b.upgrade()
    };
    // the result must not depend on what it was made from
    drop(src);
    check(same(&up, &data[lo..n]), "content after the source is gone");
    let again = up.clone();
    drop(up);
    check(same(&again, &data[lo..n]), "content of a clone after the source is gone");
    drop(again);
    drop(keep);
    cover("end");
    check(live() == before, "everything is released");
});

//@ prop=B05 bounds="all backings, every length 0..=44, sliced by one or not"
harness!(h_bytes_predict, {
    let data = [3u8; 45];
    let n = any_len("n", 44);
    let k = any_kind(n);
    let mut b = make(k, &data[..n]);
    if any_bool("sliced") && n > 0 { b.shrink_to(1..); }
    let what = any_len("what", 2);
    let a = allocs();
    match what {
        0 => {
            let p = b.clone_will_allocate();
            let c = b.clone();
            check((allocs() > a) == p, "cloning allocates exactly when predicted");
            check(c == b, "clone");
            if p { cover("clone allocates"); } else { cover("clone does not"); }
        }
        1 => {
            let p = b.upgrade_will_allocate();
            let len = b.len();
            let u = b.upgrade();
            check((allocs() > a) == p, "upgrading allocates exactly when predicted");
            check(u.len() == len, "upgrade");
            check(!u.upgrade_will_allocate(), "an upgraded value upgrades for free");
            if p { cover("upgrade allocates"); } else { cover("upgrade does not"); }
        }
        _ => {
            let c = b.noalloc_clone();
            if k == K::Inline { check(c.is_some(), "a clone of inline bytes needs no allocation"); }
            check(allocs() == a, "the allocation-free clone does not allocate");
            if let Some(c) = c { check(c == b, "allocation-free clone"); cover("free clone"); } else {
                check(b.clone_will_allocate() || b.len() <= Bytes::MAX_INLINE_SIZE, "a clone that needs no allocation is available without");
                cover("no free clone");
            }
        }
    }
});

// ---- downcasts
fn downcast_case(k: K, d: &[u8], to_stabby: bool) {
    let n = d.len();
    let before = live();
    let mut b = make(k, d);
    let ptr = b.as_ptr();
    let (mut lo, mut hi) = (0, n);
    let via = any_len("via", 4);
    let other = if via >= 3 { Some(b.clone()) } else { None };
    match via {
        1 | 4 => { let c = pick("cut", &[0, 1, 2]); assume(c <= n); b.shrink_to(..n - c); hi = n - c; }
        2 => { let c = pick("cut", &[0, 1, 2]); assume(c <= n); b.shrink_to(c..); lo = c; }
        _ => {}
    }
    if to_stabby { b = b.upgrade(); }
    let inlined = matches!(k, K::Slice | K::Copied) && n <= 32 || k == K::Inline || hi - lo <= 32 && via != 0 && via != 3;
    let native = match k {
        K::ArcSlice => !to_stabby,
        K::StabbyArcSlice | K::StabbyVec | K::StabbyBox | K::Copied => to_stabby,
        K::Slice | K::RawPlain => to_stabby, // copied by the upgrade
        _ => false,
    };
    let copied = matches!(k, K::Slice | K::RawPlain) && to_stabby;
    let whole = copied || (lo == 0 && hi == n);
    let expect = native && whole && !inlined && !(copied && hi - lo <= 32);
    let len = hi - lo;
    let ok = if to_stabby {
        match <stabby::sync::ArcSlice<u8>>::try_from(b) {
            Ok(a) => {
                check(a.len() == len, "length of the buffer");
                check(same(&a, &d[lo..hi]), "content of the buffer");
                check(copied || k == K::Slice || a.as_slice().as_ptr() == ptr, "the buffer itself, not a copy");
                let a2 = a.clone();
                drop(a);
                check(same(&a2, &d[lo..hi]), "content of a clone of the buffer");
                true
            }
            Err(b) => { check(same(&b, &d[lo..hi]), "a refused value is unchanged"); false }
        }
    } else {
        match <Arc<[u8]>>::try_from(b) {
            Ok(a) => {
                check(same(&a, &d[lo..hi]), "content of the buffer");
                check(a.as_ptr() == ptr, "the buffer itself, not a copy");
                check(Arc::strong_count(&a) == 1 + other.is_some() as usize, "owners are counted");
                true
            }
            Err(b) => { check(same(&b, &d[lo..hi]), "a refused value is unchanged"); false }
        }
    };
    check(ok || !expect, "a value that covers its whole shared buffer gives it back");
    check(!ok || expect, "a value that does not cover its whole shared buffer is refused");
    if ok { cover("given back"); } else { cover("refused"); }
    if let Some(o) = other { check(same(&o, d), "the other owner keeps its content"); }
    check(live() == before, "everything is released");
}
//@ prop=B06,B03 bounds="all backings, length in {0,2,33,35}, every content, whole or shrunk by 0..=2 at either end, with or without a clone"
harness!(h_bytes_to_arc, {
    let data: [u8; 35] = any("data");
    let n = pick("n", &[0, 2, 33, 35]);
    downcast_case(any_kind(n), &data[..n], false);
    cover("end");
});
//@ prop=B06,B03 bounds="all backings, length in {0,2,33,35}, every content, whole or shrunk by 0..=2 at either end, with or without a clone; upgraded first"
harness!(h_bytes_to_stabby_arc, {
    let data: [u8; 35] = any("data");
    let n = pick("n", &[0, 2, 33, 35]);
    downcast_case(any_kind(n), &data[..n], true);
    cover("end");
});

// ---- histories
struct V<'a> { b: Bytes<'a>, lo: usize, hi: usize }
fn history(k: K, d: &[u8], steps: usize) {
    let before = live();
    let rel = releases();
    {
        let mut vs: Vec<V<'_>> = Vec::with_capacity(8);
        vs.push(V { b: make(k, d), lo: 0, hi: d.len() });
        for _ in 0..steps {
            if vs.is_empty() { break; }
            let i = any_len("which", vs.len() - 1);
            let (lo, hi) = (vs[i].lo, vs[i].hi);
            let n = hi - lo;
            match any_len("op", 5) {
                0 => { let v = V { b: vs[i].b.clone(), lo, hi }; vs.push(v); }
                1 => { vs.swap_remove(i); }
                2 => {
                    let c = pick("cut", &[1, 34]);
                    if c <= n { vs[i].b.shrink_to(c..); vs[i].lo += c; }
                }
                3 => {
                    let c = pick("cut", &[1, 34]);
                    if c <= n { vs[i].b.shrink_to(..n - c); vs[i].hi -= c; }
                }
                4 => {
                    let at = pick("at", &[1, 35]);
                    let v = vs.swap_remove(i);
                    match v.b.split_at(at) {
                        Ok((l, r)) => { vs.push(V { b: l, lo, hi: lo + at }); vs.push(V { b: r, lo: lo + at, hi }); }
                        Err(b) => vs.push(V { b, lo, hi }),
                    }
                }
                _ => { let v = vs.swap_remove(i); vs.push(V { b: v.b.upgrade(), lo, hi }); }
            }
            for v in &vs { check(same(&v.b, &d[v.lo..v.hi]), "content after every step"); }
        }
        let mut alive = 0;
        for v in &vs { if !(v.hi - v.lo <= 32 && !(v.lo == 0 && v.hi == d.len())) { alive += 1; } }
        if counts_owner(k) && k != K::RawUnique && alive > 0 { check(releases() == rel, "the owner is alive while it is referred to"); }
        while !vs.is_empty() { let i = any_len("drop", vs.len() - 1); vs.swap_remove(i); }
    }
    if counts_owner(k) { check(releases() == rel + 1, "the owner is released exactly once"); }
    check(live() == before, "everything is released");
}
fn content70() -> [u8; 70] {
    let mut data = [0u8; 70];
    for i in 0..70 { data[i] = i as u8 ^ 0x40; }
    data
}
//@ prop=B03 bounds="14 owning and borrowing backings of 70 bytes, every history of 2 operations out of clone, drop, cut front, cut back, split, upgrade, on any value, then every order of drops"
harness!(h_bytes_history2, {
    let mut data = content70();
    data[69] = any("last");
    let k = any_kind(70);
    history(k, &data, 2);
    cover("end");
});
//@ prop=B03 bounds="6 owning backings, as above, every history of 3 operations" time=400
harness!(h_bytes_history3, {
    let data = content70();
    let k = [K::ArcSlice, K::Box, K::ArcT, K::StabbyArcSlice, K::RawShared, K::RawUnique][any_len("kind", 5)];
    history(k, &data, 3);
    cover("end");
});
//@ prop=B03 tier=thorough bounds="all backings, as above, every history of 4 operations" time=1500
harness!(h_bytes_history4, {
    let data = content70();
    let k = any_kind(70);
    history(k, &data, 4);
    cover("end");
});

//@ prop=B01 bounds="two values of any length 0..=4, every content, inlined, borrowed, boxed, shared and raw backings: total order, maximum, equality with other kinds of bytes, text"
harness!(h_bytes_total_order, {
    let (x, y): ([u8; 4], [u8; 4]) = (any("x"), any("y"));
    let (n, m) = (any_len("n", 4), any_len("m", 4));
    let ks = [K::Copied, K::Slice, K::Box, K::ArcT, K::RawUnique];
    let kx = any_len("kx", 4);
    let (x, y) = (&x[..n], &y[..m]);
    let (a, b) = (make(ks[kx], x), make(ks[(kx + 1) % 5], y));
    check(Ord::cmp(&a, &b) == x.cmp(y), "Ord is the order of the contents");
    check(PartialOrd::partial_cmp(&a, &b) == Some(x.cmp(y)), "PartialOrd is the order of the contents");
    check((a < b) == (x < y) && (a >= b) == (x >= y), "comparison operators");
    check((a != b) == (x != y), "inequality");
    check((a == y.to_vec()) == (x == y), "equality with a vector");
    check((hash_of(&a) == hash_of(&b)) == (hash_of(x) == hash_of(y)), "hash");
    let most = core::cmp::max(a, b);
    check(same(&most, core::cmp::max(x, y)), "maximum");
    cover("end");
});

//@ prop=B01 bounds="every content of length 0..=2, every backing but raw parts: text of a value, plain and alternate"
harness!(h_bytes_debug, {
    let x: [u8; 2] = any("x");
    let n = any_len("n", 2);
    let d = &x[..n];
    let k = any_kind(n);
    assume(!matches!(k, K::RawShared | K::RawUnique | K::RawPlain));
    let b = make(k, d);
    check(same_text(&debug_of(&b), &debug_of(d)), "debug text is that of the slice");
    cover("text");
});

//@ prop=B01 bounds="inlined, borrowed, vector and shared backing of one byte: the alternate text tells the content and what B05 says of ownership and sharing"
harness!(h_bytes_debug_alternate, {
    #[derive(Debug)]
    #[allow(dead_code)]
    struct Bytes<'a> { data: &'a [u8], owned: bool, shared: bool }
    let x: [u8; 1] = any("x");
    assume(x[0] < 10);
    let b = make([K::Copied, K::Slice, K::Vec, K::ArcSlice][any_len("kind", 3)], &x);
    let (owned, shared) = (!b.upgrade_will_allocate(), !b.clone_will_allocate());
    let (mut t, mut e) = (Text { n: 0, b: [0; 128] }, Text { n: 0, b: [0; 128] });
    let _ = core::fmt::write(&mut t, format_args!("{:#?}", b));
    let _ = core::fmt::write(&mut e, format_args!("{:#?}", Bytes { data: &x, owned, shared }));
    check(same_text(&t, &e), "alternate debug text");
    cover("text");
});

static FIXED: [u8; 40] = *b"0123456789abcdefghijklmnopqrstuvwxyzABCD";
//@ prop=B01,B05 bounds="the empty and default values; static slices, arrays and strings of length 0..=40"
harness!(h_bytes_constants, {
    let before = live();
    let (e, f) = (Bytes::empty(), Bytes::default());
    check(e.len() == 0 && f.is_empty() && e == f && e.as_slice() == [0u8; 0], "empty values");
    let n = any_len("n", 40);
    let s: &'static [u8] = &FIXED[..n];
    let b: Bytes = s.into();
    check(same(&b, s), "content of a static slice");
    let t: &'static str = core::str::from_utf8(s).unwrap();
    let c: Bytes = t.into();
    check(same(&c, s) && b == c, "content of a static string");
    let g: Bytes = (&FIXED).into();
    check(same(&g, &FIXED), "content of a static array");
    check(live() == before, "nothing is allocated");
    let (u, v) = (b.upgrade(), c.noalloc_upgrade());
    check(same(&u, s), "static bytes upgrade");
    check(matches!(v, Ok(v) if same(&v, s)), "static bytes upgrade without allocation");
    check(live() == before, "nothing is allocated by upgrading");
    cover("end");
});

mod ser {
    //! The parts of serde's data model that bytes may be serialised as; anything else is an error.
    use serde::ser::{Error as _, Impossible, SerializeSeq, Serializer};
    pub type E = serde::de::value::Error;
    pub struct Seq(pub Vec<u8>, pub bool);
    pub struct Byte;
    macro_rules! no { ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $( fn $f(self, $(_: $t),*) -> Result<$r, E> { Err(E::custom("")) } )* } }
    impl Serializer for Byte {
        type Ok = u8; type Error = E;
        type SerializeSeq = Impossible<u8, E>; type SerializeTuple = Impossible<u8, E>; type SerializeTupleStruct = Impossible<u8, E>;
        type SerializeTupleVariant = Impossible<u8, E>; type SerializeMap = Impossible<u8, E>; type SerializeStruct = Impossible<u8, E>; type SerializeStructVariant = Impossible<u8, E>;
        fn serialize_u8(self, v: u8) -> Result<u8, E> { Ok(v) }
        no! { serialize_bool(bool) -> u8; serialize_i8(i8) -> u8; serialize_i16(i16) -> u8; serialize_i32(i32) -> u8; serialize_i64(i64) -> u8; serialize_u16(u16) -> u8; serialize_u32(u32) -> u8; serialize_u64(u64) -> u8;
            serialize_f32(f32) -> u8; serialize_f64(f64) -> u8; serialize_char(char) -> u8; serialize_str(&str) -> u8; serialize_bytes(&[u8]) -> u8; serialize_none() -> u8; serialize_unit() -> u8; serialize_unit_struct(&'static str) -> u8;
            serialize_unit_variant(&'static str, u32, &'static str) -> u8; serialize_seq(Option<usize>) -> Self::SerializeSeq; serialize_tuple(usize) -> Self::SerializeTuple; serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant; serialize_map(Option<usize>) -> Self::SerializeMap; serialize_struct(&'static str, usize) -> Self::SerializeStruct;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant; }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<u8, E> { Err(E::custom("")) }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<u8, E> { Err(E::custom("")) }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<u8, E> { Err(E::custom("")) }
    }
    impl SerializeSeq for Seq {
        type Ok = Vec<u8>; type Error = E;
        fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), E> { self.0.push(v.serialize(Byte)?); Ok(()) }
        fn end(self) -> Result<Vec<u8>, E> { Ok(self.0) }
    }
    /// Serialises bytes or a sequence of bytes to those bytes.
    pub struct Ser;
    type V = Vec<u8>;
    type I = Impossible<V, E>;
    impl Serializer for Ser {
        type Ok = V; type Error = E;
        type SerializeSeq = Seq; type SerializeTuple = I; type SerializeTupleStruct = I; type SerializeTupleVariant = I; type SerializeMap = I; type SerializeStruct = I; type SerializeStructVariant = I;
        fn serialize_bytes(self, b: &[u8]) -> Result<V, E> { Ok(b.to_vec()) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Seq, E> { Ok(Seq(Vec::new(), true)) }
        no! { serialize_bool(bool) -> V; serialize_i8(i8) -> V; serialize_i16(i16) -> V; serialize_i32(i32) -> V; serialize_i64(i64) -> V; serialize_u8(u8) -> V; serialize_u16(u16) -> V; serialize_u32(u32) -> V; serialize_u64(u64) -> V;
            serialize_f32(f32) -> V; serialize_f64(f64) -> V; serialize_char(char) -> V; serialize_str(&str) -> V; serialize_none() -> V; serialize_unit() -> V; serialize_unit_struct(&'static str) -> V;
            serialize_unit_variant(&'static str, u32, &'static str) -> V; serialize_tuple(usize) -> I; serialize_tuple_struct(&'static str, usize) -> I;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> I; serialize_map(Option<usize>) -> I; serialize_struct(&'static str, usize) -> I;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> I; }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<V, E> { Err(E::custom("")) }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<V, E> { Err(E::custom("")) }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<V, E> { Err(E::custom("")) }
    }

    use serde::de::{Deserializer, SeqAccess, Visitor};
    /// A format that hands bytes out borrowed, for the time of the call, owned, or one by one with a hint.
    pub enum De<'de> { Borrowed(&'de [u8]), Transient(Vec<u8>), Owned(Vec<u8>), Seq(Vec<u8>, Option<usize>, Option<usize>) }
    pub struct One<'a> { d: &'a [u8], hint: Option<usize>, fail: Option<usize>, at: usize }
    impl<'de, 'a> SeqAccess<'de> for One<'a> {
        type Error = E;
        fn next_element_seed<T: serde::de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
            use serde::de::IntoDeserializer;
            if self.fail == Some(self.at) { return Err(serde::de::Error::custom("")); }
            if self.at == self.d.len() { return Ok(None); }
            self.at += 1;
            seed.deserialize(self.d[self.at - 1].into_deserializer()).map(Some)
        }
        fn size_hint(&self) -> Option<usize> { self.hint }
    }
    impl<'de> Deserializer<'de> for De<'de> {
        type Error = E;
        fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            match self {
                De::Borrowed(b) => v.visit_borrowed_bytes(b),
                De::Transient(b) => v.visit_bytes(&b),
                De::Owned(b) => v.visit_byte_buf(b),
                De::Seq(b, hint, fail) => v.visit_seq(One { d: &b, hint, fail, at: 0 }),
            }
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
}

//@ prop=B01 bounds="every backing, length in {0,1,31,32,33,40}, every content"
harness!(h_bytes_serialize, {
    let before = live();
    let data: [u8; 40] = any("data");
    let n = pick("n", &[0, 1, 31, 32, 33, 40]);
    let d = &data[..n];
    let b = make(any_kind(n), d);
    match serde::Serialize::serialize(&b, ser::Ser) {
        Ok(v) => check(same(&v, d), "what is serialised is the content"),
        Err(_) => check(false, "bytes serialise"),
    }
    drop(b);
    cover("serialised");
    check(live() == before, "everything is released");
});

//@ prop=B01,B03,B04 bounds="length in {0,1,31,32,33,40}, every content, a format that lends the bytes, shows them for the time of the call, gives them away, or lists them with no hint, a right, a low or a high one, failing or not at any place"
harness!(h_bytes_deserialize, {
    let before = live();
    let data: [u8; 40] = any("data");
    let n = pick("n", &[0, 1, 31, 32, 33, 40]);
    let d = &data[..n];
    let how = any_len("how", 7);
    let mut fails = false;
    let de = match how {
        0 => ser::De::Borrowed(d),
        1 => ser::De::Transient(d.to_vec()),
        2 => ser::De::Owned(d.to_vec()),
        3 => ser::De::Seq(d.to_vec(), None, None),
        4 => ser::De::Seq(d.to_vec(), Some(n), None),
        5 => ser::De::Seq(d.to_vec(), Some(n / 2), None),
        6 => ser::De::Seq(d.to_vec(), Some(n + 9), None),
        _ => { fails = true; ser::De::Seq(d.to_vec(), None, Some(any_len("fail", n))) }
    };
    match <Bytes as serde::Deserialize>::deserialize(de) {
        Ok(b) => {
            check(!fails, "an error of the format is passed on");
            check(same(&b, d), "what is deserialised is the content");
            if how != 0 { check(same(&b.upgrade(), d), "and what it is upgraded to"); }
            cover("value");
        }
        Err(_) => { check(fails, "bytes deserialise"); cover("error"); }
    }
    check(live() == before, "everything is released");
});

const LONG: usize = 65_600;
fn long(n: usize) -> Vec<u8> {
    let mut d: Vec<u8> = Vec::with_capacity(n);
    // SAFETY: the bytes are given values below.
    unsafe { d.set_len(n); core::ptr::write_bytes(d.as_mut_ptr(), 0x5A, n); }
    let x: [u8; 6] = any("x");
    let m = n / 2;
    for (i, at) in [0, 1, m - 1, m, n - 2, n - 1].into_iter().enumerate() { d[at] = x[i]; }
    d
}
//@ prop=B01,B03 bounds="all backings but the inlined one, lengths 127..=129, 255..=257, 511..=513, 1024, 4095..=4097, 32768, 65535..=65537, 65600: the first, last and two middle pairs of bytes of every value" time=400
harness!(h_bytes_content_large, {
    let before = live();
    let n = pick("n", &[127, 128, 129, 255, 256, 257, 511, 512, 513, 1024, 4095, 4096, 4097, 32768, 65535, 65536, 65537, LONG]);
    let k = any_kind(n);
    let d = long(n);
    let b = make(k, &d);
    check(b.len() == n && !b.is_empty(), "length");
    check(b.as_slice() == &d[..], "content");
    let c = b.clone();
    check(c == b && c.len() == n, "a clone is equal");
    drop(b);
    let u = c.upgrade();
    check(u.as_slice() == &d[..], "content once upgraded");
    drop(d);
    let v = u.clone();
    drop(u);
    check(v.len() == n, "the last one stays");
    drop(v);
    cover("checked");
    check(live() == before, "everything is released");
});
//@ prop=B01 bounds="borrowed, shared and owned values of 127..=129, 255..=257, 4096 and 65535..=65537 bytes that differ by any two bytes at one of six places, or by one byte of length: equality, order, hash" time=400
harness!(h_bytes_compare_large, {
    let n = pick("n", &[127, 128, 129, 255, 256, 257, 4096, 65535, 65536, 65537]);
    let ks = [K::Slice, K::ArcSlice, K::Vec, K::StabbyArcSlice];
    let (kx, ky) = (ks[any_len("kx", 1)], ks[2 + any_len("ky", 1)]);
    let at = [0, 1, n / 2, n / 2 + 1, n - 2, n - 1][any_len("at", 5)];
    let mut d = vec![0x5A; n];
    let mut e = vec![0x5A; n];
    (d[at], e[at]) = (any("p"), any("q"));
    if any_bool("shorter") { e.truncate(n - 1); }
    let (a, b) = (make(kx, &d), make(ky, &e));
    check((a == b) == (d == e), "equality is equality of contents");
    check(a.cmp(&b) == d.cmp(&e), "order is order of contents");
    check((a == &e[..]) == (d == e), "equality with a slice");
    cover("end");
});
//@ prop=B02 bounds="owned, shared and borrowed values of length 70000: every start and end within 1 of 0, 127, 255, 4096, 65535 and the length, subslices, splits and shrinking of either end, and a second cut within the first" time=400
harness!(h_bytes_slice_large, {
    let before = live();
    const N: usize = 70_000;
    let ends = [0usize, 1, 127, 128, 255, 256, 257, 4095, 4096, 4097, 65_534, 65_535, 65_536, 65_537, N - 1, N];
    let ks = [K::Slice, K::ArcSlice, K::Box, K::StabbyArcSlice];
    let k = ks[any_len("kind", 3)];
    let d = long(N);
    let (i, j) = (pick("i", &ends), pick("j", &ends));
    assume(i <= j);
    let at = |b: &Bytes, i: usize, j: usize| check(b.len() == j - i && b.as_slice() == &d[i..j], "exactly the slice");
    let b = make(k, &d);
    match any_len("op", 3) {
        0 => {
            let s = b.clone().subsliced(i..j);
            at(&s, i, j);
            if j - i >= 2 { let t = s.subsliced(1..); at(&t, i + 1, j); cover("twice"); }
        }
        1 => {
            let mut s = b.clone();
            s.shrink_to(i..j);
            at(&s, i, j);
        }
        2 => {
            let mut s = b.clone();
            s.shrink_to(..j);
            let (l, r) = s.split_at(i).unwrap_or_else(|_| panic!());
            at(&l, 0, i);
            at(&r, i, j);
        }
        _ => {
            let mut s = b.clone().subsliced(..j);
            let mut out = vec![0u8; i];
            check(std::io::Read::read(&mut s, &mut out).ok() == Some(i) && out == d[..i], "reads exactly the front");
            at(&s, i, j);
        }
    }
    drop(b);
    drop(d);
    cover("end");
    check(live() == before, "everything is released");
});
