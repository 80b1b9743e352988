//! `safer_ffi::char_p`, `safer_ffi::string`.
use crate::{harness, sx::*, util::*};
use core::convert::TryFrom;
use core::mem::transmute_copy;
use safer_ffi::prelude::*;
use std::ffi::{CStr, CString};

fn utf8(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
/// `n` bytes of arbitrary ASCII, NUL included.
fn ascii<const N: usize>(name: &str) -> [u8; N] {
    let b: [u8; N] = any(name);
    for x in b { assume(x < 0x80); }
    b
}
/// Text of 0..=4 bytes without NUL: ASCII, or with one character of 2, 3 or 4 bytes.
fn text(buf: &mut [u8; 6]) -> usize {
    let x: [u8; 4] = any("x");
    let k = any_len("shape", 8);
    let a = |b: u8| { assume(b != 0 && b < 0x80); b };
    let c = |b: u8| 0x80 | (b & 0x3f);
    let two = |b: u8| { assume(b & 0x1f >= 2); 0xC0 | (b & 0x1f) };
    match k {
        0..=4 => { for i in 0..k { buf[i] = a(x[i]); } k }
        5 => { buf[0] = two(x[0]); buf[1] = c(x[1]); buf[2] = a(x[2]); 3 }
        6 => { buf[0] = a(x[0]); buf[1] = 0xE0 | (1 + x[1] % 12); buf[2] = c(x[2]); buf[3] = c(x[3]); 4 }
        7 => { buf[0] = 0xF1; buf[1] = c(x[1]); buf[2] = c(x[2]); buf[3] = c(x[3]); 4 }
        _ => { buf[0] = a(x[0]); buf[1] = two(x[1]); buf[2] = c(x[2]); 3 }
    }
}
/// Where the first NUL is.
fn nul(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < b.len() { if b[i] == 0 { return Some(i); } i += 1; }
    None
}

//@ prop=C01 bounds="every ASCII content (NUL anywhere) of length 0..=5, from a &str; the source is not read past its end"
harness!(h_char_p_ref_accepts, {
    let before = live();
    let b: [u8; 5] = ascii("b");
    let n = any_len("n", 5);
    let held: Box<[u8]> = b[..n].into(); // an object of exactly n bytes
    let s = utf8(&held);
    let want = n == 0 || nul(s.as_bytes()) == Some(n - 1);
    match char_p::Ref::try_from(s) {
        Ok(p) => {
            check(want, "accepts only text that ends with its only NUL");
            check(same(p.to_bytes(), &b[..n.saturating_sub(1)]), "reads back");
            if n > 0 { check(p.to_bytes().as_ptr() == s.as_ptr(), "borrows"); cover("accepted"); }
            else { cover("empty"); }
        }
        Err(_) => { check(!want, "rejects only invalid text"); cover("rejected"); }
    }
    drop(held);
    check(live() == before, "nothing is leaked");
});

//@ prop=C01,C02 bounds="every ASCII content (NUL anywhere) of length 0..=4, spare capacity 0..=1, through TryFrom<String> and char_p::new of &str, str::Ref, String and repr_c::String"
harness!(h_char_p_boxed_accepts, {
    let before = live();
    let b: [u8; 4] = ascii("b");
    let n = any_len("n", 4);
    let t = &b[..n];
    let z = nul(t);
    let want = z.is_none() || z == Some(n - 1);
    let spare = any_len("spare", 1);
    let owned = || { let mut s = String::with_capacity(n + spare); s.push_str(utf8(t)); s };
    let r: Option<char_p::Box> = match any_len("from", 4) {
        0 => match char_p::Box::try_from(owned()) {
            Ok(p) => Some(p),
            Err(e) => { check(same(e.0.as_bytes(), t), "a rejected string is handed back"); cover("rejected"); None }
        },
        1 => catch(|| char_p::new(utf8(t))),
        2 => catch(|| char_p::new(str::Ref::from(utf8(t)))),
        3 => catch(|| char_p::new(owned())),
        _ => catch(|| char_p::new(repr_c::String::from(owned()))),
    };
    check(r.is_some() == want, "accepts exactly the text without interior NUL");
    if let Some(p) = r {
        let e = &t[..z.unwrap_or(n)];
        check(same(p.to_bytes(), e), "reads back untruncated");
        let m = e.len();
        check(p.to_bytes_with_null().len() == m + 1 && p.to_bytes_with_null()[m] == 0, "is terminated");
        if any_bool("take") {
            let v = p.into_vec();
            check(same(&v, e), "into_vec");
            cover("taken");
        } else { drop(p); cover("dropped"); }
    }
    check(live() == before, "nothing is leaked");
});

//@ prop=C01,C02 bounds="every byte content without NUL of length 0..=3, from CStr and CString: non-UTF-8 is refused"
harness!(h_char_p_from_c_str, {
    let before = live();
    let b: [u8; 3] = any("b");
    let n = any_len("n", 3);
    for i in 0..n { assume(b[i] != 0); }
    let c = unsafe { CString::from_vec_unchecked(b[..n].to_vec()) };
    let ok = core::str::from_utf8(&b[..n]).is_ok();
    match any_len("from", 2) {
        0 => {
            let r = catch(|| char_p::Ref::from(&*c));
            check(r.is_some() == ok, "a CStr is accepted exactly when it is UTF-8");
            if let Some(p) = r { check(p.to_bytes().as_ptr() == c.as_ptr().cast() && p.to_bytes().len() == n, "borrows the CStr"); cover("borrowed"); }
            drop(c);
        }
        1 => {
            let r = catch(|| char_p::Box::from(c));
            check(r.is_some() == ok, "a CString is accepted exactly when it is UTF-8");
            if let Some(p) = r { check(same(p.to_bytes(), &b[..n]), "keeps the text"); cover("owned"); } else { cover("refused"); }
        }
        _ => {
            let r = catch(|| char_p::new(&*c));
            check(r.is_some() == ok, "a CStr is copied exactly when it is UTF-8");
            if let Some(p) = r { check(same(&p.into_vec(), &b[..n]), "copies the text"); cover("copied"); }
            drop(c);
        }
    }
    check(live() == before, "nothing is leaked");
});

fn views(p: char_p::Ref<'_>, e: &[u8], at: *const u8) {
    let m = e.len();
    check(unsafe { transmute_copy::<_, *const u8>(&p) } == at, "the C string is the pointer");
    check(p.to_bytes().as_ptr() == at && same(p.to_bytes(), e), "to_bytes");
    check(p.to_bytes_with_null().as_ptr() == at && p.to_bytes_with_null().len() == m + 1, "to_bytes_with_null");
    check(p.to_bytes_with_null()[m] == 0 && same(&p.to_bytes_with_null()[..m], e), "terminator");
    check(p.to_nonzero_bytes().len() == m && p.to_nonzero_bytes().as_ptr() as *const u8 == at, "to_nonzero_bytes");
    check(same(p.to_str().as_bytes(), e), "to_str");
    check(p.to_str_with_null().len() == m + 1 && p.to_str_with_null().as_ptr() == at, "to_str_with_null");
    let mut i = 0;
    let mut it = p.bytes();
    while let Some(x) = it.next() { check(i < m && x.get() == e[i], "iterator"); i += 1; }
    check(i == m, "length of the iterator");
    check(it.next().is_none() && it.next().is_none(), "an exhausted iterator stays at the terminator");
    let s = p.to_string();
    check(same(s.as_bytes(), e), "to_string");
    let o = p.to_owned();
    check(same(o.to_bytes(), e), "to_owned");
    check(o.as_ref() == p, "an owned copy is equal");
    let raw = char_p::Raw::from(p);
    check(unsafe { raw.as_ref() }.to_bytes().as_ptr() == at, "raw and back");
}

//@ prop=C02 bounds="every text of 0..=4 bytes (ASCII, or with a character of 2, 3 or 4 bytes), borrowed: all views, conversions; memory after the terminator does not exist"
harness!(h_char_p_ref_views, {
    let before = live();
    let mut b = [0u8; 6];
    let n = text(&mut b);
    b[n] = 0;
    let held: Box<[u8]> = b[..=n].into();
    let p = char_p::Ref::try_from(utf8(&held)).ok().unwrap();
    check(same(p.to_bytes(), &b[..n]), "text");
    views(p, &b[..n], held.as_ptr());
    if n == 0 { views(char_p::Ref::EMPTY, b"", char_p::Ref::EMPTY.to_bytes().as_ptr()); cover("empty"); } else { cover("text"); }
    drop(held);
    check(live() == before, "everything is released");
});

//@ prop=C02 bounds="every text of 0..=4 bytes, owned, built six ways; all views, clone, into_vec, into_string, drop; the shared empty string included"
harness!(h_char_p_boxed_views, {
    let before = live();
    let mut b = [0u8; 6];
    let n = text(&mut b);
    let e = &b[..n];
    let mut z = b;
    z[n] = 0;
    let p: char_p::Box = match any_len("from", 5) {
        0 => char_p::new(utf8(e)),
        1 => { let mut s = String::with_capacity(n + 3); s.push_str(utf8(e)); char_p::new(s) }
        2 => char_p::new(utf8(&z[..=n])),
        3 => CString::new(e.to_vec()).ok().unwrap().into(),
        4 => char_p::new(unsafe { CStr::from_bytes_with_nul_unchecked(&z[..=n]) }),
        _ => char_p::Box::try_from(String::from(utf8(e)).into_boxed_str().into_string()).ok().unwrap(),
    };
    let at = unsafe { transmute_copy::<_, *const u8>(&p) };
    views(p.as_ref(), e, at);
    check(same(p.to_bytes(), e) && same(p.to_str().as_bytes(), e), "views of an owned string");
    check(p.to_bytes_with_null().len() == n + 1 && p.to_str_with_null().len() == n + 1 && p.to_nonzero_bytes().len() == n, "views of an owned string with terminator");
    check(p.bytes().count() == n, "iterator of an owned string");
    let q = p.clone();
    check(q == p && same(q.to_bytes(), e), "a clone is equal");
    check(n == 0 || q.to_bytes().as_ptr() != at, "a clone has storage of its own");
    match any_len("end", 2) {
        0 => drop(p),
        1 => { let v = p.into_vec(); check(same(&v, e), "into_vec"); }
        _ => { let s = p.into_string(); check(same(s.as_bytes(), e), "into_string"); cover("into_string"); }
    }
    check(same(q.to_bytes(), e), "a clone outlives the original");
    let o = q.to_owned();
    drop(q);
    check(same(o.to_bytes(), e), "an owned copy outlives its source");
    drop(o);
    if n == 0 { cover("empty"); } else { cover("text"); }
    check(live() == before, "everything is released");
});

//@ prop=C02 bounds="two texts of 0..=2 ASCII bytes without NUL, borrowed and owned: equality is that of the text"
harness!(h_char_p_compare, {
    let before = live();
    let (a, b): ([u8; 2], [u8; 2]) = (ascii("a"), ascii("b"));
    let (n, m) = (any_len("n", 2), any_len("m", 2));
    for i in 0..n { assume(a[i] != 0); }
    for i in 0..m { assume(b[i] != 0); }
    let (p, q) = (char_p::new(utf8(&a[..n])), char_p::new(utf8(&b[..m])));
    let eq = same(&a[..n], &b[..m]);
    check((p.as_ref() == q.as_ref()) == eq, "equality of borrowed strings");
    check((p == q) == eq, "equality of owned strings");
    if eq { cover("equal"); } else { cover("different"); }
    check(same_text(&display_of(&p), &display_of(utf8(&a[..n]))), "display text");
    drop((p, q));
    check(live() == before, "everything is released");
});

//@ prop=T01 bounds="every text of 0..=4 bytes (ASCII, or with a character of 2, 3 or 4 bytes): every conversion between String, Box<str>, &str and the three FFI strings, 0..=2 spare bytes"
harness!(h_string_convert, {
    let before = live();
    let mut b = [0u8; 6];
    let n = text(&mut b);
    let e = &b[..n];
    let s = utf8(e);
    let spare = any_len("spare", 2);
    let owned = || { let mut t = String::with_capacity(n + spare); t.push_str(s); t };
    match any_len("way", 3) {
        0 => {
            let t = owned();
            let (p, cap, al) = (t.as_ptr(), t.capacity(), allocs());
            let c: repr_c::String = t.into();
            check(unsafe { transmute_copy::<_, [usize; 3]>(&c) } == [p as usize, n, cap], "an FFI string is pointer, length, capacity");
            check(c.as_ptr() == p && c.len() == n && same(c.as_bytes(), e), "deref");
            let t: String = c.into();
            check(t.as_ptr() == p && t.capacity() == cap && t.len() == n, "back to the same string");
            check(allocs() == al, "no copy");
            let c: repr_c::String = t.into();
            let d = c.clone();
            drop(c);
            check(same(d.as_bytes(), e), "a clone outlives the original");
            let f = repr_c::String::from(s);
            check(same(f.as_bytes(), e), "from &str");
            check(same_text(&display_of(&f), &display_of(s)), "display text");
            check(repr_c::String::EMPTY.is_empty(), "EMPTY is empty");
            cover("string");
        }
        1 => {
            let bx: Box<str> = s.into();
            let (p, al) = (bx.as_ptr(), allocs());
            let c: str::Box = bx.into();
            check(unsafe { transmute_copy::<_, [usize; 2]>(&c) } == [p as usize, n], "a boxed FFI string is pointer, length");
            check(c.as_ptr() == p && c.len() == n && same(c.as_bytes(), e), "deref of a boxed string");
            check(same(c.as_ref().as_str().as_bytes(), e), "as_ref of a boxed string");
            check(same(AsRef::<str>::as_ref(&c).as_bytes(), e), "AsRef of a boxed string");
            let bx: Box<str> = c.into();
            check(bx.as_ptr() == p && bx.len() == n && allocs() == al, "back to the same box");
            let c: str::Box = bx.into();
            let t: String = c.into();
            check(t.as_ptr() == p && same(t.as_bytes(), e), "boxed string into String");
            cover("boxed");
        }
        2 => {
            let c: str::Box = owned().into();
            check(same(c.as_bytes(), e), "String into a boxed string");
            drop(c);
            let c: str::Box = s.into();
            check(same(c.as_bytes(), e), "&str into a boxed string");
            cover("copied");
        }
        _ => {
            let c: str::Ref<'_> = s.into();
            check(unsafe { transmute_copy::<_, [usize; 2]>(&c) } == [s.as_ptr() as usize, n], "a borrowed FFI string is pointer, length");
            check(c.as_str().as_ptr() == s.as_ptr() && c.as_str().len() == n, "as_str");
            check(c.len() == n && c.as_ptr() == s.as_ptr(), "deref of a borrowed string");
            check(same(AsRef::<str>::as_ref(&c).as_bytes(), e), "AsRef of a borrowed string");
            let d = c;
            let t: String = d.into();
            check(same(t.as_bytes(), e) && t.as_ptr() != s.as_ptr() || n == 0, "String from a borrowed string");
            cover("borrowed");
        }
    }
    check(live() == before, "everything is released");
});

//@ prop=C02 bounds="every text of 0..=1 ASCII bytes without NUL after a quote, borrowed and owned: debug and display text, also of the literal; ordering of the pieces"
harness!(h_char_p_text, {
    let before = live();
    let a: [u8; 1] = ascii("a");
    assume(a[0] != 0);
    let n = any_len("n", 1);
    let s = [b'"', a[0]];
    let s = utf8(&s[..1 + n]);
    let p = char_p::new(s);
    check(same_text(&debug_of(&p), &debug_of(s)), "debug text of an owned C string");
    check(same_text(&debug_of(&p.as_ref()), &debug_of(s)), "debug text of a borrowed C string");
    check(same_text(&display_of(&p), &display_of(s)), "display text of an owned C string");
    check(same_text(&display_of(&p.as_ref()), &display_of(s)), "display text of a borrowed C string");
    drop(p);
    cover("end");
    check(live() == before, "everything is released");
});

//@ prop=T01 bounds="every text of 0..=1 ASCII bytes after a quote: debug and display text of every FFI string"
harness!(h_string_text, {
    let before = live();
    let a: [u8; 1] = ascii("a");
    let n = any_len("n", 1);
    let s = [b'"', a[0]];
    let s = utf8(&s[..1 + n]);
    let o: repr_c::String = s.into();
    let b: str::Box = Box::<str>::from(s).into();
    let r: str::Ref<'_> = s.into();
    check(same_text(&debug_of(&o), &debug_of(s)), "debug text of an owned string");
    check(same_text(&debug_of(&b), &debug_of(s)), "debug text of a boxed string");
    check(same_text(&debug_of(&r), &debug_of(s)), "debug text of a borrowed string");
    check(same_text(&display_of(&o), &display_of(s)), "display text of an owned string");
    drop((o, b));
    cover("end");
    check(live() == before, "everything is released");
});

//@ prop=C01,C02 bounds="ASCII text of 16, 64, 128, 255..=257 or 4096 bytes, terminated or not: the first, last and two middle pairs of bytes arbitrary (NUL included but for 4096 bytes), borrowed and owned" time=400
harness!(h_char_p_large, {
    let before = live();
    let n = [16, 64, 128, 255, 256, 257, 4096][any_len("n", 6)];
    let x: [u8; 6] = ascii("x");
    if n == 4096 { for i in x { assume(i != 0) } }
    let mut d = bulk(n, b'a', x);
    if any_bool("terminated") { d[n - 1] = 0; }
    let m = n / 2;
    let z = [0, 1, m - 1, m, n - 2, n - 1].into_iter().find(|&i| d[i] == 0);
    match any_len("kind", 1) {
        0 => {
            let r = char_p::Ref::try_from(utf8(&d));
            check(r.is_ok() == (z == Some(n - 1)), "accepts exactly terminated text");
            if let Ok(p) = r {
                check(p.to_bytes() == &d[..n - 1] && p.to_bytes().as_ptr() == d.as_ptr(), "the text, in place");
                cover("borrowed");
            }
        }
        _ => {
            let mut s = String::with_capacity(n + any_len("spare", 1));
            s.push_str(utf8(&d));
            match char_p::Box::try_from(s) {
                Ok(p) => {
                    check(z.is_none() || z == Some(n - 1), "no interior NUL is accepted");
                    let e = &d[..z.unwrap_or(n)];
                    check(p.to_bytes() == e && p.to_bytes_with_null().len() == e.len() + 1, "the text");
                    let q = p.clone();
                    drop(p);
                    check(q.to_bytes() == e, "a clone");
                    if any_bool("take") { check(q.into_vec() == e, "taken"); cover("taken"); }
                }
                Err(e) => check(z.map_or(false, |z| z < n - 1) && e.0.as_bytes() == &d[..], "rejects interior NUL only, and hands the text back"),
            }
        }
    }
    drop(d);
    cover("end");
    check(live() == before, "everything is released");
});

//@ prop=T01,V02 bounds="text of 19 lengths around powers of two from 15 to 65537: the first, last and two middle pairs of bytes any ASCII: owned, boxed, borrowed, cloned, edited in place" time=400
harness!(h_string_large, {
    let before = live();
    let n = any_length("n");
    let d = bulk(n, b'a', ascii("x"));
    let s = utf8(&d);
    match any_len("kind", 2) {
        0 => {
            let mut c: repr_c::String = String::from(s).into();
            check(c.len() == n && c.as_bytes() == &d[..], "an owned string");
            let boom = any_bool("panic");
            let r = catch(|| c.with_rust_mut(|t| { check(t.len() == n, "the whole string"); t.push('z'); if boom { panic!() } }));
            check(r.is_some() == !boom, "panics pass through");
            check(c.len() == n + 1 && &c.as_bytes()[..n] == &d[..] && c.as_bytes()[n] == b'z', "the edit is kept");
            let e = c.clone();
            drop(c);
            let e: String = e.into();
            check(e.len() == n + 1 && &e.as_bytes()[..n] == &d[..], "a clone, back");
            cover("edited");
        }
        1 => {
            let c: str::Box = Box::<str>::from(s).into();
            check(c.len() == n && c.as_bytes() == &d[..], "a boxed string");
            let e: Box<str> = c.into();
            check(e.as_bytes() == &d[..], "back");
        }
        _ => {
            let c: str::Ref<'_> = s.into();
            check(c.len() == n && c.as_bytes() == &d[..] && c.as_ptr() == d.as_ptr(), "a borrowed string, in place");
        }
    }
    drop(d);
    cover("end");
    check(live() == before, "everything is released");
});
