//! H01, H02: the C program abi/abi.c, compiled against the generated header, calls the compiled exports.
use crate::{harness, sx::*};
use abi::*;
use abi::Plain;
use abi::safer_ffi::prelude::*;
use abi::safer_ffi::{tuple::*, closure::*, option::TaggedOption};
use core::mem::{size_of, align_of};

type W = u64;
extern "C" {
    fn c_size(i: usize) -> usize; fn c_offset(i: usize) -> usize; fn c_width(i: i32) -> i32; fn c_const(i: i32, w: W) -> bool;
    fn c_color(w: W) -> i32; fn c_sign(w: W) -> i32; fn c_level(w: W) -> i32; fn c_port(w: W) -> i32; fn c_flags(w: W) -> i32; fn c_err(w: W) -> i32; fn c_big(w: W) -> i32; fn c_deep(w: W) -> i32; fn c_plain(w: W) -> i32; fn c_mask(w: W) -> i32; fn c_inner(w: W) -> i32;
    fn c_ints(a: *const W) -> W; fn c_int(i: i32, w: W) -> W; fn c_floats(a: *const W) -> W; fn c_f32(a: *const W) -> W; fn c_bool(a: *const W) -> W; fn c_many(a: *const W) -> W; fn c_misc(a: *const W) -> W;
    fn c_renamed(a: *const W) -> W; fn c_extern(a: *const W) -> W; fn c_async(a: *const W) -> W; fn c_async_renamed(a: *const W) -> W;
    fn c_point(a: *const W, r: *mut W); fn c_small(a: *const W, r: *mut W); fn c_regs(a: *const W, r: *mut W); fn c_large(a: *const W, r: *mut W); fn c_outer(a: *const W, r: *mut W); fn c_floats3(a: *const W, r: *mut W);
    fn c_array(a: *const W, r: *mut W); fn c_arrays(a: *const W, r: *mut W); fn c_tuple(a: *const W, r: *mut W); fn c_generic(a: *const W, r: *mut W); fn c_both(a: *const W, r: *mut W); fn c_phantoms(a: *const W, r: *mut W); fn c_widths(a: *const W, r: *mut W);
    fn c_handle(a: *const W) -> W; fn c_named(a: *const W) -> W; fn c_enums(a: *const W) -> W; fn c_plain_call(w: W) -> W; fn c_level_call(w: W) -> W; fn c_enum_names(i: i32) -> W;
    fn c_option(a: *const W, r: *mut W); fn c_pointers_all(a: *const W, r: *mut W); fn c_pointers(a: *const W, r: *mut W) -> W; fn c_slice(a: *const W, r: *mut W) -> W; fn c_str(a: *const W) -> W;
    fn c_vec(v: *mut (), r: *mut W) -> W; fn c_hidden(v: W) -> W; fn c_sealed(v: W) -> W; fn c_same(v: W, x: W) -> W; fn c_boxed(b: *mut Large, r: *mut W) -> W; fn c_string(s: *mut (), r: *mut W) -> W;
    fn c_call(a: *const W, r: *mut W); fn c_callback(a: *const W, r: *mut W); fn c_newtype(a: *const W, r: *mut W) -> W; fn c_raws(a: *const W, r: *mut W) -> W; fn c_shape(a: *const W, r: *mut W) -> W; fn c_shaped(a: *const W, r: *mut W) -> W; fn c_only(a: *const W, r: *mut W) -> W; fn c_indirect(a: *const W, r: *mut W) -> W; fn c_picker(a: *const W, r: *mut W) -> W; fn c_items(a: *const W, r: *mut W); fn c_closure(a: *const W, r: *mut W) -> W; fn c_arc(a: *const W, r: *mut W) -> W; fn c_ref_closure(a: *const W, r: *mut W) -> W; fn c_make_closure(a: *const W, r: *mut W) -> W;
}

/// What the body was given, in order, and that it ran once.
fn given(v: &[u64], msg: &str) {
    unsafe {
        check(CALLS == 1, "the body ran exactly once");
        let mut d = 0;
        for (i, x) in v.iter().enumerate() { d |= REC[i] ^ *x; }
        check(d == 0, msg);
    }
}
fn gave(r: &[u64], v: &[u64], msg: &str) {
    let mut d = 0;
    for (i, x) in v.iter().enumerate() { d |= r[i] ^ *x; }
    check(d == 0, msg);
}
const ARGS: &str = "Rust reads every argument as C wrote it";
const RES: &str = "C reads the result as Rust wrote it";

//@ prop=H01 bounds="all argument values; integers, floats, booleans, characters; 12 signatures incl. stack arguments, patterns, renamed, extern, async"
harness!(h_hdr_scalars, {
    let a: [W; 13] = any("args");
    let p = a.as_ptr();
    unsafe {
        match any_len("case", 19) {
            0 => { let r = c_ints(p); given(&[a[0] as u8 as u64, a[1] as i8 as u64, a[2] as u16 as u64, a[3] as i16 as u64, a[4] as u32 as u64, a[5] as i32 as u64, a[6], a[7], a[8], a[9]], ARGS); check(r == !a[6], RES) }
            1 => { let r = c_int(0, a[0]); given(&[a[0] as u8 as u64], ARGS); check(r == a[0] as u8 as u64, RES) }
            2 => { let r = c_int(1, a[0]); given(&[a[0] as i8 as u64], ARGS); check(r == a[0] as i8 as u64, RES) }
            3 => { let r = c_int(2, a[0]); given(&[a[0] as u16 as u64], ARGS); check(r == a[0] as u16 as u64, RES) }
            4 => { let r = c_int(3, a[0]); given(&[a[0] as i16 as u64], ARGS); check(r == a[0] as i16 as u64, RES) }
            5 => { let r = c_int(4, a[0]); given(&[a[0] as u32 as u64], ARGS); check(r == a[0] as u32 as u64, RES) }
            6 => { let r = c_int(5, a[0]); given(&[a[0] as i32 as u64], ARGS); check(r == a[0] as i32 as u64, RES) }
            7 => { let r = c_int(6, a[0]); given(&[a[0]], ARGS); check(r == a[0], RES) }
            8 => { let r = c_int(7, a[0]); given(&[a[0]], ARGS); check(r == a[0], RES) }
            9 => { c_int(8, a[0]); given(&[], ARGS) }
            10 => { let r = c_int(9, a[0]); given(&[a[0] as u32 as u64], ARGS); let x = a[0] as u32; check(r == if x & 1 == 0 { x / 2 } else { x.wrapping_mul(3).wrapping_add(1) } as u64, RES) }
            11 => { let r = c_floats(p); given(&[a[0] as u32 as u64, a[1], a[2] as u32 as u64, a[3]], ARGS); check(r == a[1], RES) }
            12 => { let r = c_f32(p); given(&[a[0], a[1] as u32 as u64], ARGS); check(r == a[1] as u32 as u64, RES) }
            13 => { let r = c_bool(p); given(&[a[0] & 1, a[1] & 1, a[2] as u8 as u64], ARGS); check(r == a[0] & !a[1] & 1, RES) }
            14 => { let r = c_many(p); given(&[a[0], a[1] as u8 as u64, a[2], a[3] as u16 as u64, a[4] as u32 as u64, a[5] as u32 as u64, a[6], a[7] as u8 as u64, a[8] & 1, a[9] as i16 as u64, a[10] as u8 as u64, a[11] as u16 as u64, a[12]], ARGS); check(r == a[0] ^ a[12], RES) }
            15 => { let r = c_misc(p); let n = (a[2] as u32).wrapping_add(1) as u64; given(&[a[0] as u8 as u64, a[1] as u16 as u64, n, a[4] as u16 as u64, a[5] as u8 as u64, a[6] as u8 as u64, a[8] as i32 as u64], ARGS); check(r == n, RES); }
            16 => { let r = c_renamed(p); given(&[a[0] as u32 as u64, a[1] as u32 as u64], ARGS); check(r == a[1] as u32 as u64, RES) }
            17 => { let r = c_extern(p); given(&[a[0] as u8 as u64, a[1]], ARGS); check(r == a[1], RES) }
            18 => { let r = c_async(p); given(&[a[0] as u32 as u64, a[1] as u8 as u64], ARGS); check(r == (a[0] as u32).wrapping_add(a[1] as u8 as u32) as u64, RES) }
            _ => { let r = c_async_renamed(p); given(&[a[0] as u32 as u64, a[1] as u8 as u64], ARGS); check(r == !a[1] as u8 as u64, RES); cover("the last signature"); }
        }
    }
    check(live() == 0, "nothing leaks");
});

//@ prop=H01 bounds="all field values; 15 aggregate types by value (registers and memory), arrays, tuples, generics, transparent newtypes"
harness!(h_hdr_structs, {
    let a: [W; 14] = any("fields");
    let p = a.as_ptr();
    let mut out = [0u64; 16];
    let r = out.as_mut_ptr();
    unsafe {
        match any_len("case", 14) {
            0 => { c_point(p, r); given(&[a[0], a[1]], ARGS); gave(&out, &[a[1], a[0]], RES) }
            1 => { c_small(p, r); given(&[a[0] as u8 as u64, a[1] as u16 as u64, a[2] as u8 as u64, a[3] as u16 as u64], ARGS); gave(&out, &[a[2] as u8 as u64, a[1] as u16 as u64], RES) }
            2 => { c_regs(p, r); given(&[a[0], a[1]], ARGS); gave(&out, &[!a[0], a[1]], RES) }
            3 => {
                c_large(p, r);
                given(&[a[5] as u8 as u64, a[0], a[1] as u8 as u64, a[2] as u32 as u64, a[3] as i16 as u64, a[4], a[6] as u8 as u64], ARGS);
                gave(&out, &[!a[0], a[1] as u8 as u64, a[2] as u32 as u64, a[3] as i16 as u64, a[4]], RES)
            }
            4 => {
                assume(matches!(a[2] as u8, 0 | 7 | 8) && matches!(a[9] as i8, -1 | 0 | 1 | -128));
                c_outer(p, r);
                let v = [a[0] as u8 as u64, a[1] as u16 as u64, a[2] as u8 as u64, a[3] as u16 as u64, a[4] as u16 as u64, a[5] as u16 as u64, a[6], a[7], a[8] & 1, a[9] as i8 as u64];
                given(&v, ARGS);
                let mut w = v; w[8] ^= 1;
                gave(&out, &w, RES)
            }
            5 => { c_floats3(p, r); let v = [a[0] as u32 as u64, a[1] as u32 as u64, a[2] as u32 as u64]; given(&v, ARGS); gave(&out, &[v[2], v[0], v[1]], RES) }
            6 => { c_array(p, r); let v = [a[0] as u16 as u64, a[1] as u16 as u64, a[2] as u16 as u64]; given(&v, ARGS); gave(&out, &[v[2], v[0], v[1]], RES) }
            7 => { c_tuple(p, r); given(&[a[0] as u8 as u64, a[1], a[2] as u16 as u64, a[3] & 1, a[4]], ARGS); gave(&out, &[a[1], a[0] as u8 as u64], RES) }
            13 => {
                c_both(p, r);
                let f = a[5] & 1 == 1;
                given(&[a[0] as u8 as u64, a[1] as u8 as u64, a[2] as u16 as u64, a[3] as i8 as u64, a[4] as u32 as u64, f as u64, a[6], a[7] as u16 as u64, a[8] as u32 as u64, a[9] as u32 as u64, a[10] as u16 as u64], ARGS);
                let called = (a[0] as u8).wrapping_add((a[7] as u16 as u8).wrapping_mul(3));
                gave(&out, &[if f { called as u64 } else { 7 }, a[10] as u16 as u64, a[4] as u32 as u64], RES)
            }
            8 => { c_generic(p, r); let v = [a[0] as u16 as u64, a[1] as u16 as u64, a[2] as u16 as u64, a[3] as u8 as u64]; given(&v, ARGS); gave(&out, &v, RES) }
            9 => { c_phantoms(p, r); let v = [a[0] as u8 as u64, a[1] as u32 as u64]; given(&v, ARGS); gave(&out, &v, RES) }
            10 => {
                c_widths(p, r);
                let v = [a[0] & 1, a[1] as i8 as u64, a[2] as u8 as u64, a[3] as i16 as u64, a[4] as u16 as u64, a[5] as i32 as u64, a[6] as u32 as u64, a[7], a[8], a[9], a[10], a[11] as u32 as u64, a[12], a[13] as u8 as u64];
                given(&v, ARGS); gave(&out, &v, RES)
            }
            11 => {
                assume(matches!(a[8] as u8, 0 | 7 | 8));
                c_arrays(p, r);
                let mut v = [a[0], a[1], a[2], a[3] as u32 as u64, a[4] as u32 as u64, a[5], a[6] & 1, a[7] & 1, a[8] as u8 as u64, a[9] as u8 as u64, a[10] as u8 as u64, a[11], a[12], a[13] as i8 as u64, a[0] as u8 as u64];
                given(&v, ARGS);
                v[2] = !v[2]; v.swap(11, 12);
                gave(&out, &v[..14], RES)
            }
            12 => { let x = c_handle(p); given(&[a[0] as u32 as u64, a[1] as i16 as u64], ARGS); check(x == !a[0] as u32 as u64, RES) }
            _ => { let x = c_named(p); given(&[a[0] as i16 as u64], ARGS); check(x == a[0] as i16 as u64, RES); cover("the last type"); }
        }
    }
    check(live() == 0, "nothing leaks");
});

fn variant(w: u64, values: &[i128], signed: i32) -> bool {
    let x: i128 = match signed { 1 => w as u8 as i128, -1 => w as i8 as i128, 2 => w as u16 as i128, -2 => w as i16 as i128, 4 => w as u32 as i128, -4 => w as i32 as i128, 8 => w as i128, _ => w as i64 as i128 };
    let mut ok = false;
    for v in values { ok |= x == *v; }
    ok
}
const COLOR: [i128; 3] = [Color::Red as u8 as i128, Color::Green as u8 as i128, Color::DarkBlue as u8 as i128];
const SIGN: [i128; 4] = [Sign::Minus as i8 as i128, Sign::Zero as i8 as i128, Sign::Plus as i8 as i128, Sign::Least as i8 as i128];
const LEVEL: [i128; 3] = [Level::Low as i16 as i128, Level::Mid as i16 as i128, Level::High as i16 as i128];
const PORT: [i128; 2] = [Port::Http as u16 as i128, Port::Alt as u16 as i128];
const FLAGS: [i128; 5] = [Flags::None as u32 as i128, Flags::One as u32 as i128, Flags::High as u32 as i128, Flags::Top as u32 as i128, Flags::Next as u32 as i128];
const ERR: [i128; 4] = [Err::Fatal as i32 as i128, Err::Minor as i32 as i128, Err::Same as i32 as i128, Err::Then as i32 as i128];
const BIG: [i128; 3] = [Big::Small as u64 as i128, Big::Huge as u64 as i128, Big::Last as u64 as i128];
const DEEP: [i128; 2] = [Deep::Far as i64 as i128, Deep::Near as i64 as i128];
const PLAIN: [i128; 3] = [Plain::First as i32 as i128, Plain::Second as i32 as i128, Plain::Third as i32 as i128];
const MASK: [i128; 3] = [Mask::Nothing as u8 as i128, Mask::Everything as u8 as i128, Mask::Half as u8 as i128];
const INNER: [i128; 3] = [Inner8::OneTwo as u8 as i128, Inner8::HTTPServer as u8 as i128, Inner8::X9y as u8 as i128];

//@ prop=H01 bounds="every valid value of 11 enums (all integer widths and C enums), by value and by name; tagged options"
harness!(h_hdr_enums, {
    let a: [W; 11] = any("values");
    let mut out = [0u64; 16];
    let r = out.as_mut_ptr();
    unsafe {
        match any_len("case", 5) {
            0 => {
                assume(variant(a[0], &COLOR, 1) & variant(a[1], &SIGN, -1) & variant(a[2], &LEVEL, -2) & variant(a[3], &FLAGS, 4) & variant(a[4], &ERR, -4) & variant(a[5], &BIG, 8) & variant(a[6], &DEEP, -8)
                    & variant(a[7], &PLAIN, -4) & variant(a[8], &PORT, 2) & variant(a[9], &MASK, 1) & variant(a[10], &INNER, 1));
                let x = c_enums(a.as_ptr());
                given(&[a[0] as u8 as u64, a[1] as i8 as u64, a[2] as i16 as u64, a[3] as u32 as u64, a[4] as i32 as u64, a[5], a[6], a[7] as i32 as u64, a[8] as u16 as u64, a[9] as u8 as u64, a[10] as u8 as u64], ARGS);
                check(x == a[1] as i8 as u64, RES)
            }
            1 => { assume(variant(a[0], &PLAIN, -4)); let x = c_plain_call(a[0]); given(&[a[0] as i32 as u64], ARGS); check(x == a[0] as i32 as u64, RES) }
            2 => { assume(variant(a[0], &LEVEL, -2)); let x = c_level_call(a[0]); given(&[a[0] as i16 as u64], ARGS); check(x == a[0] as i16 as u64, RES) }
            3 => { let x = c_enum_names(0); given(&[Color::Green as u64, Sign::Plus as u64, Level::High as u64, Flags::One as u64, Err::Minor as u64, Big::Huge as u64, Deep::Near as u64, Plain::First as u64, Port::Http as u64, Mask::Half as u64, Inner8::HTTPServer as u64], "a variant named in C is that variant in Rust"); check(x == 1, RES) }
            4 => { let x = c_enum_names(1); given(&[Color::DarkBlue as u64, Sign::Least as u64, Level::Low as u64, Flags::Next as u64, Err::Then as u64, Big::Last as u64, Deep::Far as u64, Plain::Third as u64, Port::Alt as u64, Mask::Everything as u64, Inner8::X9y as u64], "a variant named in C is that variant in Rust"); check(x == -128i64 as u64, RES) }
            _ => {
                c_option(a.as_ptr(), r);
                let (s, t) = (a[0] & 1 == 1, a[2] & 1 == 1);
                given(&[s as u64, if s { a[1] as u32 as u64 } else { 0 }, t as u64, if t { a[3] as u8 as u64 } else { 0 }, if t { a[4] as u16 as u64 } else { 0 }], ARGS);
                gave(&out, &[s as u64, if s { !(a[1] as u32 as u64) } else { 0 }], RES);
                cover("options");
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

//@ prop=H01 bounds="all pointed-to values; references, raw and out pointers, function pointers in structs, slices, strings, vectors and boxes handed over from C"
harness!(h_hdr_pointers, {
    let a: [W; 5] = any("values");
    let mut out = [0u64; 16];
    let r = out.as_mut_ptr();
    unsafe {
        match any_len("case", 9) {
            0 => {
                c_pointers_all(a.as_ptr(), r);
                let (x, z) = (a[0] as u32 as u64, a[2] as u32 as u64);
                let some = a[3] & 1;
                let _ = z;
                gave(&out, &[x, some, some ^ 1, 1, x, 1, a[4], 1, 2, -3i64 as u64, !a[4]], RES);
                check(CALLS == 4, "each body ran once");
            }
            1 => {
                let v = c_pointers(a.as_ptr(), r);
                let x = a[0] as u32;
                given(&[x as u64, if a[2] & 1 == 1 { a[1] } else { 0 }, out[3], a[2] >> 1 & 1], ARGS);
                gave(&out, &[x as u8 as u64, (x as u64).wrapping_neg(), a[2] >> 1 & 1], "the C function pointers are called with the arguments Rust gave");
                check(v == (x as u64).wrapping_neg().wrapping_add(x as u8 as u64) as i32 as u64, RES)
            }
            2 => {
                let v = c_slice(a.as_ptr(), r);
                given(&[3, 2, ((a[0] as u16 as u64) * 3 + a[1] as u16 as u64) * 3 + a[2] as u16 as u64], ARGS);
                gave(&out, &[!a[3] as u8 as u64, !a[4] as u8 as u64], RES);
                check(v == 5, RES)
            }
            3 => {
                assume(a[2] as u8 <= 0x7f);
                let v = c_str(a.as_ptr());
                let (c, d) = (a[0] as u8, a[1] as u8);
                let n = if c == 0 { 0 } else if d == 0 { 1 } else { 2 };
                given(&[2, n, a[2] as u8 as u64, c as u64], ARGS);
                check(v == 2, RES)
            }
            4 => {
                let n = any_in("len", 1, 3);
                let mut v = repr_c::Vec::<u32>::from(a[..n].iter().map(|x| *x as u32).collect::<Vec<_>>());
                let before = v.as_ptr() as u64;
                let last = c_vec(&mut v as *mut _ as *mut (), r);
                given(&[n as u64, a[0] as u32 as u64], ARGS);
                check(out[0] == n as u64 && out[1] >= n as u64 && out[2] == a[n - 1] as u32 as u64 && out[3] == before && last == a[0] as u32 as u64, RES);
                for i in 0..n { check(v[i] == a[n - 1 - i] as u32, RES) }
                drop(v);
            }
            5 => { check(c_hidden(a[0]) == a[0], "an opaque value keeps its identity"); check(CALLS == 4, "each body ran once") }
            9 => { let r = c_same(a[0], a[1]); given(&[a[0] as u32 as u64, a[1] as u32 as u64], ARGS); check(r == (a[0] ^ a[1]) as u32 as u64, RES) }
            7 => { check(c_sealed(a[0]) == a[0] as u32 as u64, "a generic opaque value keeps its identity"); check(CALLS == 3, "each body ran once") }
            6 => {
                let b = Box::into_raw(Box::new(Large { a: a[0], b: 1, c: 2, d: 3, e: a[1] as i64 }));
                c_boxed(b, r);
                gave(&out, &[a[0], 1, 0], RES);
            }
            _ => {
                let (x, y) = (a[0] as u8, a[1] as u8);
                assume(x > 0 && x < 128 && y > 0 && y < 128);
                let mut s: repr_c::String = String::from_utf8(vec![x, y]).unwrap().into();
                let n = c_string(&mut s as *mut _ as *mut (), r);
                core::mem::forget(s);
                check(n == 2, RES);
                gave(&out, &[x as u64, y as u64, 0], RES);
                cover("strings");
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

//@ prop=H01 bounds="all argument values; function pointers in both directions; boxed, shared and borrowed closures written in C; a Rust closure called from C"
harness!(h_hdr_callbacks, {
    let a: [W; 7] = any("values");
    let p = a.as_ptr();
    let mut out = [0u64; 16];
    let r = out.as_mut_ptr();
    unsafe {
        match any_len("case", 5) {
            0 => { c_call(p, r); let s = [a[0] as u8 as u64, a[1] as u16 as u64, a[2]]; given(&s, ARGS); gave(&out, &[a[2], s[1], s[0], s[1], a[2]], "a C callback gets its arguments and gives its result unchanged") }
            1 => {
                c_callback(p, r);
                let which = a[5] & 1 == 1;
                given(&[a[5] & 1], ARGS);
                gave(&out, &[a[0], a[1] as u8 as u64, a[2] as u32 as u64, if which { a[6] as i16 as u64 } else { a[3] as i16 as u64 }, if which { a[4] } else { a[6] as i16 as u64 }], RES)
            }
            2 => {
                let v = c_closure(p, r);
                let (x, b) = (a[0] as u32, a[1] as u8);
                given(&[x as u64, b as u64], ARGS);
                let e1 = x as u64 + b as u64; // the C side: uint32_t + uint8_t, in unsigned int, then added to a 64-bit value
                let v1 = (0u64).wrapping_mul(7).wrapping_add(x as u64).wrapping_add(b as u64);
                let _ = e1;
                let r1 = (v1 ^ b as u64) as u32;
                let v2 = v1.wrapping_mul(7).wrapping_add(r1 as u64).wrapping_add(!b as u64);
                gave(&out, &[2, v2, 1], "a boxed C closure is called twice with its environment and freed once");
                check(v == (v2 ^ (!b) as u64) as u32 as u64, RES)
            }
            3 => { let v = c_arc(p, r); given(&[a[0]], ARGS); gave(&out, &[2, 2, 1], "a shared C closure is retained once and released twice"); check(v == a[0].wrapping_mul(3).wrapping_add(1).wrapping_mul(3).wrapping_add(1), RES) }
            4 => { let v = c_ref_closure(p, r); given(&[a[0] as i16 as u64], ARGS); check(out[0] == 1, "a borrowed C closure is called once"); check(v == -(a[0] as i16 as i64) as u64, RES) }
            _ => {
                c_make_closure(p, r);
                given(&[a[0] as u32 as u64], ARGS);
                let x = (a[0] as u32).wrapping_mul(31).wrapping_add(a[1] as u32);
                gave(&out, &[x as u64, x.wrapping_mul(31).wrapping_add(a[2] as u32) as u64], "a Rust closure called from C keeps its state");
                cover("a closure made in Rust");
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

macro_rules! sizes { ($($t:ty),* $(,)?) => { [$((size_of::<$t>(), align_of::<$t>())),*] } }
macro_rules! off { ($t:ty, $($f:tt)*) => {{
    let u = core::mem::MaybeUninit::<$t>::uninit();
    let p = u.as_ptr();
    let f = unsafe { core::ptr::addr_of!((*p).$($f)*) };
    fn sz<T>(_: *const T) -> usize { size_of::<T>() }
    (f as usize - p as usize, sz(f))
}} }
//@ prop=H01 bounds="all values; pointers to pointers and to function pointers, arrays of function pointers, functions returning functions, virtual pointers in both directions, newtypes of functions with lifetimes, nested tuples and slices, raw identifiers, types only named behind a pointer or in a callback"
harness!(h_hdr_nested, {
    let a: [W; 6] = any("args");
    let p = a.as_ptr();
    let mut out = [0u64; 16];
    let r = out.as_mut_ptr();
    unsafe {
        match any_len("case", 7) {
            7 => { let v = c_newtype(p, r); given(&[2, a[2] as u32 as u64], ARGS); gave(&out, &[a[0] as u8 as u64, 2], "a callback gets its arguments"); check(v == (a[2] as u32 as u64) * 2 + (a[1] as u8 as u64), RES) }
            6 => {
                let v = c_raws(p, r);
                check(CALLS == 2 && REC[0] == a[0] as u8 as u64 && REC[1] == a[1] as u32 as u64 && REC[2] == a[2] as u16 as u64, ARGS);
                check(v == a[1] as u32 as u64, RES);
                gave(&out, &[!a[0] as u8 as u64, 9], RES)
            }
            4 => {
                c_shape(p, r);
                let (s, o) = (a[0] as u32).overflowing_add(a[1] as u16 as u32);
                check(CALLS == 3 && REC[0] == a[2] as u32 as u64 && REC[1] == 8 && REC[2] == s as u64, "methods called through the C vtable get their arguments");
                gave(&out, &[o as u64, s as u64 * a[2] as u32 as u64], "methods called through the C vtable give their results")
            }
            5 => {
                let v = c_shaped(p, r);
                gave(&out, &[a[0].wrapping_add(a[1] as u16 as u64), 1, 1, a[2] as u32 as u64], "a virtual pointer made in C: its methods get their arguments, and it is released once");
                check(v == (a[0].wrapping_add(a[1] as u16 as u64).wrapping_add(1)) ^ (a[1] as u16 == 7) as u64, "a virtual pointer made in C gives its results")
            }
            0 => {
                let v = c_only(p, r);
                given(&[if a[0] & 1 == 1 { -7i64 as u64 } else { 7 }, a[1] as u8 as u64, a[4] as u32 as u64], ARGS);
                gave(&out, &[if a[1] & 1 == 0 { 3 } else { 40000 }, a[3] as u8 as u64, a[4] as u32 as u64], "a C callback gets its arguments unchanged");
                check(v == a[1] & 1, RES)
            }
            1 => {
                let v = c_indirect(p, r);
                let (x, called) = (a[0] as u8 as u64, a[4] & 1);
                given(&[a[0] as u32 as u64, if a[3] & 1 == 1 { a[2] as u16 as u64 } else { 99 }, 0], ARGS);
                gave(&out, &[0, called * x, called * (x * 257)], "functions behind pointers and in arrays are called with their arguments");
                check(v == if called == 1 { !(x as u32 * 257) as u64 } else { 5 }, RES)
            }
            2 => { let v = c_picker(p, r); given(&[a[0] as u8 as u64, a[1] as u16 as u64], ARGS); gave(&out, &[a[0] as u8 as u64, a[1] as u16 as u64], "the function returned by a function is called with its arguments"); check(v == !(a[1] as u16 as u32) as u64, RES) }
            _ => {
                c_items(p, r);
                given(&[2, a[1] as u32 as u64, a[2] as u8 as u64, a[3] as u32 as u64, a[4] as u16 as u64, 1, 3, a[5] as u8 as u64], ARGS);
                gave(&out, &[a[4] as u16 as u64, a[2] as u8 as u64, a[3] as u32 as u64], RES); cover("the last function")
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

//@ prop=H01 bounds="37 types and 38 fields"
harness!(h_hdr_layout, {
    let s = sizes![Point, Small, Regs, Large, Outer, Floats, Pointers<'static>, Generic<u16>, Phantoms, Widths, Color, Sign, Level, Port, Flags, Err, Big, Deep, Plain, Mask, Inner8, Unused, Arrays, NamedHandle,
        c_slice::Ref<'static, u16>, c_slice::Mut<'static, u8>, repr_c::Vec<u32>, Tuple2<u8, u64>, Tuple3<u16, bool, f64>, [u16; 3], [Small; 2], TaggedOption<u32>, TaggedOption<Small>,
        ArcDynFn1<u64, u64>, BoxDynFnMut2<u32, u32, u8>, RefDynFnMut1<'static, i32, i16>, usize, Nested];
    for (i, (n, al)) in s.iter().enumerate() {
        unsafe {
            check(c_size(2 * i) == *n, "sizeof in C is size_of in Rust");
            check(c_size(2 * i + 1) == *al, "_Alignof in C is align_of in Rust");
        }
    }
    let o = [off!(Point, x), off!(Point, y), off!(Small, a), off!(Small, b), off!(Regs, n), off!(Regs, f), off!(Large, a), off!(Large, b), off!(Large, c), off!(Large, d), off!(Large, e),
        off!(Outer, s), off!(Outer, c), off!(Outer, arr), off!(Outer, n), off!(Outer, flag), off!(Outer, sign),
        off!(Pointers<'static>, r), off!(Pointers<'static>, o), off!(Pointers<'static>, m), off!(Pointers<'static>, f), off!(Pointers<'static>, g),
        off!(Generic<u16>, first), off!(Generic<u16>, many), off!(Generic<u16>, last), off!(Phantoms, a), off!(Phantoms, b), off!(Unused, kept), off!(Unused, also),
        off!(Arrays, a), off!(Arrays, b), off!(Arrays, c), off!(Arrays, d), off!(Arrays, e), off!(Arrays, f), off!(Arrays, g), off!(Arrays, h), off!(Arrays, i),
        off!(Nested, t), off!(Nested, t.u), off!(Nested, t.u.u), off!(Nested, u), off!(Nested, u.u), off!(Nested, u.u.t), off!(Nested, u.u.u)];
    for (i, (at, n)) in o.iter().enumerate() {
        unsafe {
            check(c_offset(2 * i) == *at, "a field is at the same place in C as in Rust");
            check(c_offset(2 * i + 1) == *n, "a field has the same size in C as in Rust");
        }
    }
    cover("all types");
});

fn position(w: i128, values: &[i128]) -> i32 {
    let mut r = -1;
    let mut i = values.len();
    while i > 0 { i -= 1; if w == values[i] { r = i as i32 } }
    r
}
//@ prop=H02 bounds="all 2^64 bit patterns; 35 variants of 11 enums"
harness!(h_hdr_variants, {
    let w: u64 = any("value");
    let msg = "comparing with a variant in C says what Rust says";
    unsafe {
        match any_len("case", 10) {
            0 => check(c_color(w) == position(w as u8 as i128, &COLOR), msg),
            1 => check(c_sign(w) == position(w as i8 as i128, &SIGN), msg),
            2 => check(c_level(w) == position(w as i16 as i128, &LEVEL), msg),
            3 => check(c_port(w) == position(w as u16 as i128, &PORT), msg),
            4 => check(c_flags(w) == position(w as u32 as i128, &FLAGS), msg),
            5 => check(c_err(w) == position(w as i32 as i128, &ERR), msg),
            6 => check(c_big(w) == position(w as i128, &BIG), msg),
            7 => check(c_deep(w) == position(w as i64 as i128, &DEEP), msg),
            8 => check(c_plain(w) == position(w as i32 as i128, &PLAIN), msg),
            9 => check(c_mask(w) == position(w as u8 as i128, &MASK), msg),
            _ => { check(c_inner(w) == position(w as u8 as i128, &INNER), msg); cover("the last enum"); }
        }
    }
});

//@ prop=H02 bounds="all 2^64 bit patterns; 21 constants, infinite, undefined and extreme ones included; the width and signedness of 11 enums and 20 constants"
harness!(h_hdr_constants, {
    let w: u64 = any("value");
    let msg = "comparing with a constant in C says what Rust says";
    unsafe {
        match any_len("case", 19) {
            0 => check(c_const(0, w) == (w as u8 == C_U8), msg),
            1 => check(c_const(1, w) == (w as i8 == C_I8), msg),
            2 => check(c_const(2, w) == (w as u16 == C_U16), msg),
            3 => check(c_const(3, w) == (w as i32 == C_I32), msg),
            4 => check(c_const(4, w) == (w as u32 == C_U32), msg),
            5 => check(c_const(5, w) == (w as i64 == C_I64), msg),
            6 => check(c_const(6, w) == (w == C_U64), msg),
            7 => check(c_const(7, w) == (w as usize == C_USIZE), msg),
            8 => check(c_const(8, w) == ((w & 1 == 1) == C_BOOL), msg),
            9 => check(c_const(9, w) == (w == C_F64.to_bits()), msg),
            10 => check(c_const(10, w) == (w == C_F32.to_bits() as u64), msg),
            11 => check(c_const(11, w) == (w as i64 == C_UNTYPED as i64), msg),
            12 => check(c_const(12, w) == (w == C_INF.to_bits()), msg),
            13 => check(c_const(13, w) == (w == C_NINF.to_bits() as u64), msg),
            14 => check(c_const(14, w) && c_const(15, w), "a constant that is not a number in Rust is not one in C"),
            15 => check(c_const(16, w) == (w as isize == C_ISIZE), msg),
            16 => check(c_const(17, w) == (w as i8 == C_I8MIN), msg),
            17 => check(c_const(18, w) == (w == C_U64MAX), msg),
            18 => check(c_const(19, w) == (w == C_TINY.to_bits()), msg),
            _ => check(c_const(20, w) == (w == C_LARGE.to_bits() as u64), msg),
        }
        let widths = [1, -1, -2, 2, 4, -4, 8, -8];
        for (i, x) in widths.iter().enumerate() { check(c_width(i as i32) == *x, "an enum has in C the width and sign it has in Rust") }
        check(c_width(8).abs() == 4, "a C enum has the width of an int");
        check(c_width(9) == 1 && c_width(10) == 1, "an enum has in C the width and sign it has in Rust");
        let widths = [1, -1, 2, -4, 4, -8, 8, 8];
        for (i, x) in widths.iter().enumerate() { check(c_width(20 + i as i32) == *x, "a constant has in C the width and sign it has in Rust") }
        check(c_width(28) == 1 && c_width(29) == 8 && c_width(30) == 4 && c_width(31) == 1 && c_width(32) == 1 && c_width(33) == 1 && c_width(34) == 1 && c_width(35) == -8 && c_width(36) == -1 && c_width(37) == 8, "a constant has in C the type it has in Rust");
        cover("widths");
    }
});
