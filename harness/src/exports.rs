//! F01, F02, F03: the exports of abi/, called through their symbols, declared here with plain C types.
use crate::{harness, sx::*, util::*};
use abi::*;
use abi::Plain;
use abi::safer_ffi::prelude::*;
use abi::safer_ffi::{tuple::*, closure::*};
use core::ptr;

#[repr(C)] #[derive(Clone, Copy)] struct Sl { p: *const u8, n: usize }
#[repr(C)] #[derive(Clone, Copy)] struct V { p: *mut u32, n: usize, c: usize }
#[repr(C)] #[derive(Clone, Copy)] struct Opt<T> { some: u8, v: T }
#[repr(C)] #[derive(Clone, Copy)] struct RawOuter { s: Small, c: u8, arr: [u16; 3], n: Regs, flag: u8, sign: i8 }
#[repr(C)] #[derive(Clone, Copy)] struct Ptrs { r: *const u32, o: *const u64, m: *mut u8, f: extern "C" fn(u8, i64) -> i32, g: Option<extern "C" fn()> }
#[repr(C)] #[derive(Clone, Copy)] struct Fun<F> { env: *mut u64, call: F, free: extern "C" fn(*mut u64) }
#[repr(C)] #[derive(Clone, Copy)] struct ArcFun<F> { env: *mut u64, call: F, release: extern "C" fn(*mut u64), retain: Option<extern "C" fn(*mut u64)> }

#[allow(improper_ctypes)]
extern "C" {
    fn e_void(); fn e_ints(a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: usize, j: isize) -> u64;
    fn e_u8(a: u8) -> u8; fn e_i8(a: i8) -> i8; fn e_u16(a: u16) -> u16; fn e_i16(a: i16) -> i16; fn e_u32(a: u32) -> u32; fn e_i32(a: i32) -> i32; fn e_i64(a: i64) -> i64; fn e_isize(a: isize) -> isize;
    fn e_floats(a: f32, b: f64, c: f32, d: f64) -> f64; fn e_f32(a: f64, b: f32) -> f32; fn e_bool(a: u8, b: u8, c: u8) -> u8;
    fn e_many(a: u64, b: u8, c: f64, d: u16, e: u32, f: f32, g: i64, h: u8, i: u8, j: i16, k: Small, l: u64) -> u64;
    fn e_renamed(a: u32, b: u32) -> u32; fn e_patterns(s: Small, n: u32, x: u8, r: u16, a: [u8; 2], u: u64, z: i32) -> u32;
    fn e_unsafe(a: *const u32, b: *mut u32) -> *const u32; fn e_extern(a: u8, b: u64) -> u64;
    #[link_name = "e_early"] fn sym_early(a: u32) -> u32;
    fn e_async(a: u32, b: *const u8) -> u32; fn e_async_renamed(a: u32, b: u8) -> u8;
    fn e_point(p: Point) -> Point; fn e_small(s: Small, t: Small) -> Small; fn e_regs(r: Regs) -> Regs; fn e_large(x: u8, l: Large, y: u8) -> Large; fn e_outer(o: RawOuter) -> RawOuter; fn e_floats3(f: Floats) -> Floats;
    fn e_tuple(t: Tuple2<u8, u64>, u: Tuple3<u16, u8, f64>) -> Tuple2<u64, u8>; fn e_generic(g: *const Generic<u16>) -> Generic<u16>; fn e_phantoms(p: Phantoms) -> Phantoms; fn e_handle(h: u32, n: i16) -> u32; fn e_named(n: i16) -> i16;
    fn e_enums(a: u8, b: i8, c: i16, d: u32, e: i32, f: u64, g: i64, h: i32, i: u16, j: u8, k: u8) -> i8; fn e_plain(h: i32) -> i32;
    fn e_option(o: Opt<u32>, p: Opt<Small>) -> Opt<u64>;
    fn e_ref(a: *const u32, m: *mut u64, o: *const u32) -> *const u32; fn e_raw(a: *const u16, b: *mut u32, n: usize) -> *mut u32; fn e_out(o: *mut Large, v: u64); fn e_pointers(p: Ptrs) -> i32;
    fn e_slice(s: Sl, t: Sl) -> usize; fn e_str(s: Sl, c: *const u8) -> usize; fn e_vec(v: V) -> V; fn e_boxed(b: *mut Large) -> *mut u64; fn e_box_free(b: *mut u64) -> u8;
    fn e_hidden(v: u64) -> *mut Hidden; fn e_hidden_read(h: *const Hidden) -> u64; fn e_hidden_free(h: *mut Hidden);
    fn e_call(f: extern "C" fn(Small, u64) -> Point, s: Small, n: u64) -> Point; fn e_callback(which: u8) -> extern "C" fn(i16, Large) -> Large;
    fn e_closure(f: Fun<extern "C" fn(*mut u64, u32, u8) -> u32>, a: u32, b: u8) -> u32;
    fn e_arc_closure(f: ArcFun<extern "C" fn(*mut u64, u64) -> u64>, a: u64) -> u64;

    fn p_none() -> u32; fn p_void_none(); fn p_extern(x: u8) -> u8; fn p_bool(x: bool) -> bool; fn p_nine(a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: u8) -> u8;
    fn p_body(x: u32) -> u32; fn p_void(x: u32); fn p_struct(l: Large) -> Large; fn p_index(s: Sl, i: usize) -> u8; fn p_drop(x: u32) -> u32; fn p_arg(b: *mut P) -> u32;
    fn p_renamed(f: extern "C" fn(u32) -> u32, x: u32) -> u32; fn p_box(x: u32) -> *mut u64; fn p_async(x: u32) -> u32;

    fn v_bool(a: u8, b: u8, c: u64) -> u64; fn v_enum(c: u8, s: i8) -> u32; fn v_wide_enum(e: i32, b: u64, p: i32) -> u32; fn v_struct(o: RawOuter) -> u8; fn v_ref(a: usize, b: usize) -> usize; fn v_fn(f: usize) -> u8;
    fn v_slice(s: Sl, t: Sl) -> usize; fn v_out(o: usize) -> u8; fn v_last(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, last: u8) -> u8; fn v_option(o: Opt<u8>) -> u8; fn v_box(b: usize, z: u8) -> u8; fn v_array(a: u32) -> u8;
}
fn given(v: &[u64], msg: &str) {
    unsafe {
        check(CALLS == 1, "the body ran exactly once");
        let mut d = 0;
        for (i, x) in v.iter().enumerate() { d |= REC[i] ^ *x; }
        check(d == 0, msg);
    }
}
const ARGS: &str = "the body gets every argument unchanged and in order";
const RES: &str = "the result comes back unchanged";
const ONCE: &str = "each body ran once";
fn f32b(x: u64) -> f32 { f32::from_bits(x as u32) }
fn f64b(x: u64) -> f64 { f64::from_bits(x) }

//@ prop=F01 bounds="all argument values; integers, floats, booleans, characters; signatures incl. stack arguments, patterns, renamed, extern, unsafe, async"
harness!(h_exp_scalars, {
    let a: [u64; 13] = any("args");
    unsafe {
        match any_len("case", 19) {
            0 => { let r = e_ints(a[0] as _, a[1] as _, a[2] as _, a[3] as _, a[4] as _, a[5] as _, a[6], a[7] as _, a[8] as _, a[9] as _); given(&[a[0] as u8 as u64, a[1] as i8 as u64, a[2] as u16 as u64, a[3] as i16 as u64, a[4] as u32 as u64, a[5] as i32 as u64, a[6], a[7], a[8], a[9]], ARGS); check(r == !a[6], RES) }
            1 => { let r = e_u8(a[0] as u8); given(&[a[0] as u8 as u64], ARGS); check(r == a[0] as u8, RES) }
            2 => { let r = e_i8(a[0] as i8); given(&[a[0] as i8 as u64], ARGS); check(r == a[0] as i8, RES) }
            3 => { let r = e_u16(a[0] as u16); given(&[a[0] as u16 as u64], ARGS); check(r == a[0] as u16, RES) }
            4 => { let r = e_i16(a[0] as i16); given(&[a[0] as i16 as u64], ARGS); check(r == a[0] as i16, RES) }
            5 => { let r = e_u32(a[0] as u32); given(&[a[0] as u32 as u64], ARGS); check(r == a[0] as u32, RES) }
            6 => { let r = e_i32(a[0] as i32); given(&[a[0] as i32 as u64], ARGS); check(r == a[0] as i32, RES) }
            7 => { let r = e_i64(a[0] as i64); given(&[a[0]], ARGS); check(r == a[0] as i64, RES) }
            8 => { let r = e_isize(a[0] as isize); given(&[a[0]], ARGS); check(r == a[0] as isize, RES) }
            9 => { e_void(); given(&[], ARGS) }
            10 => {
                let x = a[0] as u32;
                let r = sym_early(x); given(&[x as u64], ARGS);
                check(r == if x & 1 == 0 { x / 2 } else { x.wrapping_mul(3).wrapping_add(1) }, RES);
                check(e_early(x) == r, "the exported function and its symbol are the same function");
            }
            11 => { let r = e_floats(f32b(a[0]), f64b(a[1]), f32b(a[2]), f64b(a[3])); given(&[a[0] as u32 as u64, a[1], a[2] as u32 as u64, a[3]], ARGS); check(r.to_bits() == a[1], RES) }
            12 => { let r = e_f32(f64b(a[0]), f32b(a[1])); given(&[a[0], a[1] as u32 as u64], ARGS); check(r.to_bits() == a[1] as u32, RES) }
            13 => { let r = e_bool(a[0] as u8 & 1, a[1] as u8 & 1, a[2] as u8); given(&[a[0] & 1, a[1] & 1, a[2] as u8 as u64], ARGS); check(r as u64 == a[0] & !a[1] & 1, RES) }
            14 => {
                let r = e_many(a[0], a[1] as u8, f64b(a[2]), a[3] as u16, a[4] as u32, f32b(a[5]), a[6] as i64, a[7] as u8, a[8] as u8 & 1, a[9] as i16, Small { a: a[10] as u8, b: a[11] as u16 }, a[12]);
                given(&[a[0], a[1] as u8 as u64, a[2], a[3] as u16 as u64, a[4] as u32 as u64, a[5] as u32 as u64, a[6], a[7] as u8 as u64, a[8] & 1, a[9] as i16 as u64, a[10] as u8 as u64, a[11] as u16 as u64, a[12]], ARGS);
                check(r == a[0] ^ a[12], RES)
            }
            15 => { let r = e_renamed(a[0] as u32, a[1] as u32); given(&[a[0] as u32 as u64, a[1] as u32 as u64], ARGS); check(r == a[1] as u32, RES) }
            16 => { let r = e_extern(a[0] as u8, a[1]); given(&[a[0] as u8 as u64, a[1]], ARGS); check(r == a[1], RES) }
            17 => { let b = a[1] as u8; let r = e_async(a[0] as u32, &b); given(&[a[0] as u32 as u64, b as u64], ARGS); check(r == (a[0] as u32).wrapping_add(b as u32), RES) }
            18 => { let r = e_async_renamed(a[0] as u32, a[1] as u8); given(&[a[0] as u32 as u64, a[1] as u8 as u64], ARGS); check(r == !(a[1] as u8), RES) }
            _ => { let x = a[0] as u32; let mut y = a[1] as u32; let r = e_unsafe(&x, &mut y); given(&[x as u64, a[1] as u32 as u64], ARGS); check(r == &x as *const u32 && y == x, RES); cover("the last signature"); }
        }
    }
    check(live() == 0, "nothing leaks");
});

//@ prop=F01 bounds="all field values; aggregates by value in registers and memory, tuples, generics, transparent newtypes, options, every valid value of 11 enums"
harness!(h_exp_structs, {
    let a: [u64; 11] = any("fields");
    let small = |x: u64, y: u64| Small { a: x as u8, b: y as u16 };
    unsafe {
        match any_len("case", 13) {
            0 => { let r = e_point(Point { x: f64b(a[0]), y: f64b(a[1]) }); given(&[a[0], a[1]], ARGS); check(r.x.to_bits() == a[1] && r.y.to_bits() == a[0], RES) }
            1 => { let r = e_small(small(a[0], a[1]), small(a[2], a[3])); given(&[a[0] as u8 as u64, a[1] as u16 as u64, a[2] as u8 as u64, a[3] as u16 as u64], ARGS); check(r.a == a[2] as u8 && r.b == a[1] as u16, RES) }
            2 => { let r = e_regs(Regs { n: a[0], f: f64b(a[1]) }); given(&[a[0], a[1]], ARGS); check(r.n == !a[0] && r.f.to_bits() == a[1], RES) }
            3 => {
                let l = Large { a: a[0], b: a[1] as u8, c: a[2] as u32, d: a[3] as i16, e: a[4] as i64 };
                let r = e_large(a[5] as u8, l, a[6] as u8);
                given(&[a[5] as u8 as u64, a[0], a[1] as u8 as u64, a[2] as u32 as u64, a[3] as i16 as u64, a[4], a[6] as u8 as u64], ARGS);
                check((r.a == !l.a) & (r.b == l.b) & (r.c == l.c) & (r.d == l.d) & (r.e == l.e), RES)
            }
            4 => {
                assume(matches!(a[2] as u8, 0 | 7 | 8) && matches!(a[9] as i8, -1 | 0 | 1 | -128));
                let r = e_outer(RawOuter { s: small(a[0], a[1]), c: a[2] as u8, arr: [a[3] as u16, a[4] as u16, a[5] as u16], n: Regs { n: a[6], f: f64b(a[7]) }, flag: a[8] as u8 & 1, sign: a[9] as i8 });
                given(&[a[0] as u8 as u64, a[1] as u16 as u64, a[2] as u8 as u64, a[3] as u16 as u64, a[4] as u16 as u64, a[5] as u16 as u64, a[6], a[7], a[8] & 1, a[9] as i8 as u64], ARGS);
                check((r.s.a == a[0] as u8) & (r.s.b == a[1] as u16) & (r.c == a[2] as u8) & (r.arr[0] == a[3] as u16) & (r.arr[1] == a[4] as u16) & (r.arr[2] == a[5] as u16) & (r.n.n == a[6]) & (r.n.f.to_bits() == a[7]) & (r.flag == 1 ^ a[8] as u8 & 1) & (r.sign == a[9] as i8), RES)
            }
            5 => { let r = e_floats3(Floats { a: f32b(a[0]), b: f32b(a[1]), c: f32b(a[2]) }); given(&[a[0] as u32 as u64, a[1] as u32 as u64, a[2] as u32 as u64], ARGS); check(r.a.to_bits() == a[2] as u32 && r.b.to_bits() == a[0] as u32 && r.c.to_bits() == a[1] as u32, RES) }
            6 => { let r = e_tuple(Tuple2 { _0: a[0] as u8, _1: a[1] }, Tuple3 { _0: a[2] as u16, _1: a[3] as u8 & 1, _2: f64b(a[4]) }); given(&[a[0] as u8 as u64, a[1], a[2] as u16 as u64, a[3] & 1, a[4]], ARGS); check(r._0 == a[1] && r._1 == a[0] as u8, RES) }
            7 => { let g = Generic { first: a[0] as u16, many: [a[1] as u16, 7, 8, a[2] as u16], last: a[3] as u8 }; let r = e_generic(&g); given(&[a[0] as u16 as u64, a[1] as u16 as u64, a[2] as u16 as u64, a[3] as u8 as u64], ARGS); check(r.first == g.first && r.many[0] == g.many[0] && r.many[3] == g.many[3] && r.last == g.last, RES) }
            8 => { let r = e_phantoms(Phantoms { a: a[0] as u8, p: Default::default(), b: a[1] as u32 }); given(&[a[0] as u8 as u64, a[1] as u32 as u64], ARGS); check(r.a == a[0] as u8 && r.b == a[1] as u32, RES) }
            9 => { let r = e_handle(a[0] as u32, a[1] as i16); given(&[a[0] as u32 as u64, a[1] as i16 as u64], ARGS); check(r == !(a[0] as u32), RES) }
            10 => { let r = e_named(a[0] as i16); given(&[a[0] as i16 as u64], ARGS); check(r == a[0] as i16, RES) }
            11 => {
                assume(matches!(a[0] as u8, 0 | 7 | 8) & matches!(a[1] as i8, -1 | 0 | 1 | -128) & matches!(a[2] as i16, -300 | 0x1ff | 0x7fff) & matches!(a[3] as u32, 0 | 1 | 0x4000_0000 | 0x8000_0000 | 0x8000_0001));
                assume(matches!(a[4] as i32, i32::MIN | -21 | 79 | 80) & matches!(a[5], 1 | 0x1_0000_0000 | u64::MAX) & matches!(a[6] as i64, -0x1_0000_0000 | 5) & matches!(a[7] as i32, 5 | -9 | -8) & matches!(a[8] as u16, 80 | 0xffff) & matches!(a[9] as u8, 0 | 255 | 15) & matches!(a[10] as u8, 12 | 13 | 14));
                let r = e_enums(a[0] as u8, a[1] as i8, a[2] as i16, a[3] as u32, a[4] as i32, a[5], a[6] as i64, a[7] as i32, a[8] as u16, a[9] as u8, a[10] as u8);
                given(&[a[0] as u8 as u64, a[1] as i8 as u64, a[2] as i16 as u64, a[3] as u32 as u64, a[4] as i32 as u64, a[5], a[6], a[7] as i32 as u64, a[8] as u16 as u64, a[9] as u8 as u64, a[10] as u8 as u64], ARGS);
                check(r == a[1] as i8, RES)
            }
            12 => { assume(matches!(a[0] as i32, 5 | -9 | -8)); let r = e_plain(a[0] as i32); given(&[a[0] as i32 as u64], ARGS); check(r == a[0] as i32, RES) }
            _ => {
                let (s, t) = (a[0] & 1 == 1, a[2] & 1 == 1);
                let r = e_option(Opt { some: s as u8, v: a[1] as u32 }, Opt { some: t as u8, v: small(a[3], a[4]) });
                given(&[s as u64, if s { a[1] as u32 as u64 } else { 0 }, t as u64, if t { a[3] as u8 as u64 } else { 0 }, if t { a[4] as u16 as u64 } else { 0 }], ARGS);
                check(r.some == s as u8, RES);
                if s { check(r.v == !(a[1] as u32 as u64), RES) }
                cover("options");
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

static mut SEEN: [u64; 4] = [0; 4];
extern "C" fn cb_f(a: u8, b: i64) -> i32 { unsafe { SEEN[0] = a as u64; SEEN[1] = b as u64 } b.wrapping_add(a as i64) as i32 }
extern "C" fn cb_g() { unsafe { SEEN[2] += 1 } }
extern "C" fn cb_point(s: Small, n: u64) -> Point { unsafe { SEEN[0] = s.a as u64; SEEN[1] = s.b as u64; SEEN[2] = n } Point { x: f64b(n), y: f64b(s.b as u64) } }
extern "C" fn cl_call(e: *mut u64, x: u32, y: u8) -> u32 { unsafe { *e += 1; SEEN[0] = SEEN[0].wrapping_mul(7).wrapping_add(x as u64).wrapping_add(y as u64); (SEEN[0] ^ y as u64) as u32 } }
extern "C" fn arc_call(e: *mut u64, x: u64) -> u64 { unsafe { *e += 1 } x.wrapping_mul(3).wrapping_add(1) }
extern "C" fn cl_free(_: *mut u64) { unsafe { SEEN[1] += 1 } }
extern "C" fn cl_retain(_: *mut u64) { unsafe { SEEN[2] += 1 } }
macro_rules! big { ($($T:ident $A:ident $f:ident $raw:ident: $e:ty, $n:literal, $u:ty, $w:ty, $sym:literal;)*) => {
    $(
        #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct $T { head: $u, body: [$e; $n], tail: $w }
        #[ffi_export] fn $f(x: u8, t: $T, y: u8) -> $T { unsafe { CALLS += 1; BIG = (x, y); } t }
        extern "C" { #[link_name = $sym] fn $raw(x: u8, t: $T, y: u8) -> $T; }
    )*
    $(#[allow(non_snake_case)] fn $A(v: &[u64], i: usize) {
        let _ = $f;
        let mut t = $T { head: v[0] as $u, body: [0; $n], tail: v[1] as $w };
        t.body[i] = v[2] as $e;
        t.body[$n - 1] = v[3] as $e;
        let want = t;
        let r = unsafe { $raw(v[4] as u8, t, v[5] as u8) };
        check(unsafe { CALLS == 1 && BIG == (v[4] as u8, v[5] as u8) }, ARGS);
        let mut d = (r.head != want.head) | (r.tail != want.tail);
        for j in 0..$n { d |= r.body[j] != want.body[j]; }
        check(!d, RES);
    })*
}}
static mut BIG: (u8, u8) = (0, 0);
big! {
    Big33 big33 e_big33 c_big33: u8, 30, u8, u16, "e_big33";
    Big65 big65 e_big65 c_big65: u8, 64, u8, u8, "e_big65";
    Big72 big72 e_big72 c_big72: u64, 7, u8, u64, "e_big72";
    Big100 big100 e_big100 c_big100: u16, 50, u32, u16, "e_big100";
    Big130 big130 e_big130 c_big130: u8, 128, u8, u8, "e_big130";
    Big257 big257 e_big257 c_big257: u8, 250, u16, u32, "e_big257";
    Big520 big520 e_big520 c_big520: u64, 64, u32, u32, "e_big520";
    Big1030 big1030 e_big1030 c_big1030: u8, 1024, u16, u8, "e_big1030";
    Big4100 big4100 e_big4100 c_big4100: u32, 1024, u16, u8, "e_big4100";
}
//@ prop=F01 bounds="structs by value of 34 to 4104 bytes, of sizes around powers of two: the first, the last, and two more fields of every value, one at every index of the body"
harness!(h_exp_big, {
    let v: [u64; 6] = any("fields");
    match any_len("size", 8) {
        0 => { big33(&v, any_len("i", 29)); cover("small"); }
        1 => big65(&v, any_len("i", 63)),
        2 => big72(&v, any_len("i", 6)),
        3 => big100(&v, any_len("i", 49)),
        4 => big130(&v, any_len("i", 127)),
        5 => big257(&v, any_len("i", 249)),
        6 => big520(&v, any_len("i", 63)),
        7 => { big1030(&v, any_len("i", 3)); cover("more than 1 kB"); }
        _ => { big4100(&v, any_len("i", 3)); cover("more than 4 kB"); }
    }
});

//@ prop=F01 bounds="all pointed-to values; references, raw and out pointers, function pointers, slices, strings, owned vectors and boxes, closures"
harness!(h_exp_pointers, {
    let a: [u64; 5] = any("values");
    unsafe {
        match any_len("case", 11) {
            0 => {
                let (x, mut y, z) = (a[0] as u32, a[1], a[2] as u32);
                let some = a[3] & 1 == 1;
                let r = e_ref(&x, &mut y, if some { &z } else { ptr::null() });
                given(&[x as u64, a[1], if some { z as u64 } else { 0 }, some as u64], ARGS);
                check(y == x as u64 && r == if some { &z as *const u32 } else { ptr::null() }, RES)
            }
            1 => { let r = e_raw(a[0] as _, a[1] as _, a[2] as usize); given(&[a[0], a[1]], ARGS); check(r as u64 == a[1].wrapping_add(a[2].wrapping_mul(4)), RES) }
            2 => { let mut l = core::mem::MaybeUninit::<Large>::uninit(); e_out(l.as_mut_ptr(), a[0]); given(&[a[0]], ARGS); let l = l.assume_init(); check(l.a == a[0] && l.b == 1 && l.c == 2 && l.d == -3 && l.e == !a[0] as i64, RES) }
            3 => {
                let (x, y, mut m) = (a[0] as u32, a[1], 0u8);
                let v = e_pointers(Ptrs { r: &x, o: if a[2] & 1 == 1 { &y } else { ptr::null() }, m: &mut m, f: cb_f, g: if a[2] & 2 == 2 { Some(cb_g) } else { None } });
                given(&[x as u64, if a[2] & 1 == 1 { y } else { 0 }, &mut m as *mut u8 as u64, a[2] >> 1 & 1], ARGS);
                check(SEEN[0] == x as u8 as u64 && SEEN[1] == (x as u64).wrapping_neg() && SEEN[2] == a[2] >> 1 & 1, "callbacks get their arguments");
                check(v == (x as u64).wrapping_neg().wrapping_add(x as u8 as u64) as i32, RES)
            }
            4 => {
                let s = [a[0] as u16, a[1] as u16, a[2] as u16]; let mut t = [a[3] as u8, a[4] as u8];
                let r = e_slice(Sl { p: s.as_ptr() as _, n: 3 }, Sl { p: t.as_mut_ptr(), n: 2 });
                given(&[3, 2, ((s[0] as u64) * 3 + s[1] as u64) * 3 + s[2] as u64], ARGS);
                check(r == 5 && t[0] == !(a[3] as u8) && t[1] == !(a[4] as u8), RES)
            }
            5 => {
                assume(a[2] as u8 <= 0x7f);
                let (c, s) = ([a[0] as u8, a[1] as u8, 0], [a[2] as u8, b'x']);
                let r = e_str(Sl { p: s.as_ptr(), n: 2 }, c.as_ptr());
                given(&[2, if c[0] == 0 { 0 } else if c[1] == 0 { 1 } else { 2 }, s[0] as u64, c[0] as u64], ARGS);
                check(r == 2, RES)
            }
            6 => {
                let n = any_in("len", 1, 3);
                let mut v = core::mem::ManuallyDrop::new(a[..n].iter().map(|x| *x as u32).collect::<Vec<_>>());
                let r = e_vec(V { p: v.as_mut_ptr(), n: v.len(), c: v.capacity() });
                given(&[n as u64, a[0] as u32 as u64], ARGS);
                check(r.n == n, RES);
                let w = Vec::from_raw_parts(r.p, r.n, r.c);
                for i in 0..n { check(w[i] == a[n - 1 - i] as u32, RES) }
            }
            7 => {
                let b = Box::into_raw(Box::new(Large { a: a[0], b: 1, c: 2, d: 3, e: a[1] as i64 }));
                let r = e_boxed(b);
                given(&[a[0], a[1]], ARGS);
                check(*r == a[0], RES);
                check(e_box_free(r) == 1 && REC[0] == a[0] && e_box_free(ptr::null_mut()) == 0, "boxes go back and forth");
                check(CALLS == 3, ONCE);
            }
            8 => { let h = e_hidden(a[0]); check(e_hidden_read(h) == a[0], RES); e_hidden_free(h); check(REC[0] == 1, ARGS); e_hidden_free(ptr::null_mut()); check(REC[0] == 0, ARGS); check(CALLS == 4, ONCE) }
            9 => {
                let s = Small { a: a[0] as u8, b: a[1] as u16 };
                let r = e_call(cb_point, s, a[2]);
                given(&[s.a as u64, s.b as u64, a[2]], ARGS);
                check(SEEN[0] == s.a as u64 && SEEN[1] == s.b as u64 && SEEN[2] == a[2] && r.x.to_bits() == a[2] && r.y.to_bits() == s.b as u64, RES);
                let l = Large { a: a[0], b: 1, c: 2, d: 3, e: a[1] as i64 };
                let f = e_callback(a[3] as u8 & 1);
                check(REC[0] == a[3] & 1, ARGS);
                let m = f(a[4] as i16, l);
                check(if a[3] & 1 == 1 { m.d == a[4] as i16 && m.e == l.e } else { m.d == 3 && m.e == a[4] as i16 as i64 } && m.a == l.a, RES);
            }
            10 => {
                let (x, b) = (a[0] as u32, a[1] as u8);
                let mut env = 0u64;
                let r = e_closure(Fun { env: &mut env, call: cl_call, free: cl_free }, x, b);
                given(&[x as u64, b as u64], ARGS);
                let v1 = x as u64 + b as u64;
                let v2 = v1.wrapping_mul(7).wrapping_add((v1 ^ b as u64) as u32 as u64).wrapping_add(!b as u64);
                check(env == 2 && SEEN[1] == 1 && SEEN[0] == v2 && r == (v2 ^ !b as u64) as u32, "a foreign boxed closure is called twice and freed once");
            }
            _ => {
                let mut env = 0u64;
                let r = e_arc_closure(ArcFun { env: &mut env, call: arc_call, release: cl_free, retain: Some(cl_retain) }, a[0]);
                given(&[a[0]], ARGS);
                check(env == 2 && SEEN[1] == 2 && SEEN[2] == 1 && r == a[0].wrapping_mul(3).wrapping_add(1).wrapping_mul(3).wrapping_add(1), "a foreign shared closure is retained once and released twice");
                cover("closures");
            }
        }
    }
    check(live() == 0, "nothing leaks");
});

extern "C" fn twice(x: u32) -> u32 { x.wrapping_add(x) }
/// Calls `f`, whose body panics if `bad`.
fn stops<R>(bad: bool, f: impl FnOnce() -> R) -> Option<R> {
    if bad { cover("a body panics"); abort_ok(true); }
    let r = catch(f);
    check(!bad, "control must not come back to the foreign caller after a panic");
    check(r.is_some(), "a body that does not panic must return");
    r
}
//@ prop=F02 bounds="all argument values; panics with and without payload, in bodies with 0 to 9 arguments, with and without result, declared extern, in the body, in a local's or an argument's destructor, after a callback, in an index, in an async body, with live heap values"
harness!(h_exp_panic, {
    let x: u32 = any("x");
    unsafe {
        WHAT = x;
        match any_len("case", 13) {
            8 => if let Some(r) = stops(x & 7 == 3, || p_none()) { check(r == x, RES) },
            9 => { stops(x & 7 == 3, || p_void_none()); }
            10 => if let Some(r) = stops(x & 7 == 3, || p_extern(x as u8)) { check(r == x as u8, RES) },
            11 => if let Some(r) = stops(x & 1 == 1, || p_bool(x & 1 == 1)) { check(!r, RES) },
            12 => if let Some(r) = stops(x & 7 == 3, || p_nine(1, 2, 3, 4, 5, 6, 7, 8, x as u8)) { check(r == x as u8, RES) },
            0 => if let Some(r) = stops(x & 7 == 3, || p_body(x)) { check(r == x, RES); cover("a body returns"); }
            1 => { stops(x & 7 == 3, || p_void(x)); }
            2 => { let l = Large { a: x as u64, b: 1, c: 2, d: 3, e: 4 }; if let Some(r) = stops(x & 7 == 3, || p_struct(l)) { check(r.a == x as u64 && r.e == 4, RES) } }
            3 => { let d = [1u8, 2, 3]; let i: usize = any("i"); if let Some(r) = stops(i >= 3, || p_index(Sl { p: d.as_ptr(), n: 3 }, i)) { check(r as usize == i + 1, RES) } }
            4 => { if let Some(r) = stops(x & 7 == 5, || p_drop(x)) { check(r == x && BOMBS == 1, RES) } }
            5 => { let b = Box::into_raw(Box::new(P { b: x })); if let Some(r) = stops(x & 7 == 5, || p_arg(b)) { check(r == x, RES) } }
            6 => if let Some(r) = stops(x & 7 == 4 && false || twice(x) & 7 == 3, || p_renamed(twice, x)) { check(r == twice(x), RES) },
            7 => if let Some(r) = stops(x & 7 == 3, || p_box(x)) {
                if x & 7 == 2 { check(r.is_null(), RES) } else { check(*r == x as u64, RES); drop(Box::from_raw(r)); }
            },
            _ => if let Some(r) = stops(x & 7 == 3, || p_async(x)) { check(r == x, RES) },
        }
    }
    check(live() == 0, "nothing leaks");
});

extern "C" fn through_body(x: u32) -> u32 { unsafe { p_body(x) } }
extern "C" fn through_two(x: u32) -> u32 { unsafe { p_renamed(through_body, x) } }
/// Calls an exported function while it is dropped.
struct Late(u32);
impl Drop for Late { fn drop(&mut self) { let x = self.0; if let Some(r) = stops(x & 7 == 3, || unsafe { p_body(x) }) { check(r == x, RES); cover("called while unwinding") } } }
//@ prop=F02 bounds="all argument values; calls after calls that returned, up to three exported functions nested, the panic in the innermost, the middle or the outermost one; calls from destructors of a thread that unwinds already"
harness!(h_exp_panic_nested, {
    let x: u32 = any("x");
    unsafe {
        WHAT = x;
        match any_len("case", 3) {
            0 => {
                for y in 0..3 { if let Some(r) = stops(false, || p_body(y)) { check(r == y, RES) } }
                stops(false, || p_void(1));
                if let Some(r) = stops(x & 7 == 3, || p_body(x)) { check(r == x, RES); cover("after other calls"); }
            }
            1 => if let Some(r) = stops(x & 7 == 3, || p_renamed(through_body, x)) { check(r == x, RES); cover("nested calls"); },
            2 => {
                // The callee returns; the caller, and whoever is called next, may panic.
                let n = any_len("again", 1) == 1;
                let bad = twice(x) & 7 == 3;
                extern "C" fn after_body(x: u32) -> u32 { unsafe { if x & 7 != 3 { p_body(x); } twice(x) } }
                if n { if let Some(r) = stops(x & 7 == 3, || p_renamed(through_two, x)) { check(r == x, RES) } }
                if let Some(r) = stops(bad, || p_renamed(after_body, x)) { check(r == twice(x), RES) }
            }
            _ => { let r = catch(|| { let _l = Late(x); panic!() }); check(r.is_none(), "the first panic goes on"); }
        }
    }
    check(live() == 0, "nothing leaks");
});

static mut VALID: bool = true;
static mut BEFORE: bool = false;
fn hook() { unsafe { check(VALID, "the body must not run with an invalid argument") } }
/// Calls `f` with arguments that are valid or not. In release builds, the check is documented to be absent.
fn guarded<R>(valid: bool, f: impl FnOnce() -> R) -> Option<R> {
    if !cfg!(debug_assertions) || unsafe { BEFORE } { assume(valid) }
    unsafe { VALID = valid; HOOK = hook; }
    if valid { cover("valid arguments"); } else { abort_ok(true); }
    let r = catch(f);
    check(valid, "control must not come back from a call with invalid arguments");
    check(r.is_some(), "valid arguments must be let through");
    r
}
//@ prop=F03 bounds="all 2^8 to 2^64 bit patterns of booleans, enums of every width, struct fields, arrays, references, options, function pointers, slices, out pointers, boxes; single and combined; in the first call, or after a valid call of the same function"
harness!(h_exp_invalid, {
    let case = any_len("case", 13);
    for round in any_len("first", 1)..2 { unsafe {
    BEFORE = round == 0;
    CALLS = 0;
    let a: [u64; 8] = any(if BEFORE { "args0" } else { "args" });
    let b = |x: u64| x as u8 <= 1;
    let r4 = |x: u64| x != 0 && x & 3 == 0;
        match case {
            0 => if let Some(r) = guarded(b(a[1]), || v_bool(a[0] as u8, a[1] as u8, a[2])) { check(r == a[2] ^ (a[1] & 1), RES); given(&[a[0] as u8 as u64, a[1] & 1, a[2]], ARGS) },
            1 => { guarded(matches!(a[0] as u8, 0 | 7 | 8) & matches!(a[1] as i8, -1 | 0 | 1 | -128), || v_enum(a[0] as u8, a[1] as i8)); }
            2 => { guarded(matches!(a[0] as i32, i32::MIN | -21 | 79 | 80) & matches!(a[1], 1 | 0x1_0000_0000 | u64::MAX) & matches!(a[2] as i32, 5 | -9 | -8), || v_wide_enum(a[0] as i32, a[1], a[2] as i32)); }
            3 => {
                let o = RawOuter { s: Small { a: a[0] as u8, b: a[1] as u16 }, c: a[2] as u8, arr: [1, 2, 3], n: Regs { n: a[3], f: f64b(a[4]) }, flag: a[5] as u8, sign: a[6] as i8 };
                if let Some(r) = guarded(matches!(o.c, 0 | 7 | 8) & (o.flag <= 1) & matches!(o.sign, -1 | 0 | 1 | -128), || v_struct(o)) { check(r == o.flag, RES) }
            }
            4 => if let Some(r) = guarded(r4(a[0]) & (a[1] & 7 == 0), || v_ref(a[0] as usize, a[1] as usize)) { check(r == (a[0] ^ a[1]) as usize, RES) },
            5 => { guarded(a[0] != 0, || v_fn(a[0] as usize)); }
            6 => if let Some(r) = guarded(r4(a[0]) & (a[2] & 3 == 0), || v_slice(Sl { p: a[0] as _, n: a[1] as usize & 0xffff }, Sl { p: a[2] as _, n: a[3] as usize & 0xffff })) {
                check(r == (a[1] as usize & 0xffff) ^ if a[2] == 0 { 0 } else { a[3] as usize & 0xffff }, RES)
            },
            7 => { guarded(a[0] != 0 && a[0] & 1 == 0, || v_out(a[0] as usize)); }
            8 => if let Some(r) = guarded(b(a[7]), || v_last(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7] as u8)) { check(r == a[7] as u8, RES); given(&a[..7], ARGS) },
            9 => { let o = Opt { some: a[0] as u8, v: a[1] as u8 }; if let Some(r) = guarded(o.some == 0 || o.some == 1 && o.v <= 1, || v_option(o)) { check(r == if o.some == 1 { o.v } else { 1 }, RES) } }
            10 => {
                let boxed = Box::into_raw(Box::new(1u64));      // freed while unwinding, if the other argument is invalid
                let p = match any_len("ptr", 2) { 0 => 0, 1 => boxed as usize, _ => a[0] as usize | 1 };
                if let Some(r) = guarded(p & 7 == 0 && b(a[1]), || v_box(p, a[1] as u8)) { check(r == a[1] as u8, RES); drop(Box::from_raw(boxed)) }
            }
            11 => { let x = a[0] as u32; if let Some(r) = guarded(x & 0xfefefefe == 0, || v_array(x)) { check(r == (x >> 24) as u8, RES) } }
            12 => { guarded(true, || e_ints(a[0] as _, a[1] as _, a[2] as _, a[3] as _, a[4] as _, a[5] as _, a[6], a[7] as _, a[0] as _, a[1] as _)); }
            _ => { guarded(true, || e_floats(f32b(a[0]), f64b(a[1]), f32b(a[2]), f64b(a[3]))); cover("all types"); }
        }
    } }
    check(live() == 0, "nothing leaks");
});
