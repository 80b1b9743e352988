//! Types and functions exported over the FFI in every supported shape. Functions record what they were given in `REC`.
#![allow(clippy::all)]
pub use safer_ffi;
use safer_ffi::prelude::*;
use safer_ffi::option::TaggedOption;
use safer_ffi::tuple::*;
use safer_ffi::closure::*;

pub fn keep() {}
pub static mut REC: [u64; 16] = [0; 16];
pub static mut CALLS: usize = 0;
/// Runs at the start of every body.
pub static mut HOOK: fn() = keep;
fn rec(v: &[u64]) {
    unsafe {
        HOOK();
        CALLS += 1;
        for (i, x) in v.iter().enumerate() { REC[i] = *x; }
    }
}

// ---- types
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Color { Red, Green = 7, DarkBlue }
#[derive_ReprC] #[repr(i8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Sign { Minus = -1, Zero, Plus, Least = -128 }
#[derive_ReprC] #[repr(i16)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Level { Low = -300, Mid = 0x1ff, High = 0x7fff }
#[derive_ReprC] #[repr(u16)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Port { Http = 80, Alt = 0xffff }
#[derive_ReprC] #[repr(u32)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Flags { None = 0, One = 1 << 0, High = 1 << 30, Top = 0x8000_0000_u32, Next }
#[derive_ReprC] #[repr(i32)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Err { Fatal = i32::MIN, Minor = -(3 * 7), Same = Err::Minor as i32 + 100, Then }
#[derive_ReprC] #[repr(u64)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Big { Small = 1, Huge = 0x1_0000_0000_u64, Last = u64::MAX }
#[derive_ReprC] #[repr(i64)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Deep { Far = -0x1_0000_0000_i64, Near = 5 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Plain { First = 5, Second = -9, Third }
/// masks, computed /* by hand */
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Mask { Nothing = 0, Everything = !0, Half = !0 >> 4 }
#[derive_ReprC(rename = "renamed_enum")] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Inner8 { OneTwo = 12, HTTPServer = 13, X9y = 14 }

#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Point { pub x: f64, pub y: f64 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Small { pub a: u8, pub b: u16 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Regs { pub n: u64, pub f: f64 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Large { pub a: u64, pub b: u8, pub c: u32, pub d: i16, pub e: i64 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Outer { pub s: Small, pub c: Color, pub arr: [u16; 3], pub n: Regs, pub flag: bool, pub sign: Sign }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub struct Floats { pub a: f32, pub b: f32, pub c: f32 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Pointers<'a> { pub r: &'a u32, pub o: Option<&'a u64>, pub m: *mut u8, pub f: extern "C" fn(u8, i64) -> i32, pub g: Option<extern "C" fn()> }
#[derive_ReprC(rename = "generic_of_u16")] #[repr(C)] #[derive(Clone, Copy)] pub struct Generic<T: ReprC> { pub first: T, pub many: [T; 4], pub last: u8 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Both<T: ReprC, U: ReprC> { pub t: T, pub u: U }
pub type Nested = Both<Both<[u8; 2], Both<u16, i8>>, Both<u32, Both<Option<extern "C" fn(u8, u16) -> u8>, u64>>>;
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Phantoms { pub a: u8, pub p: core::marker::PhantomData<u64>, pub b: u32 }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone, Copy)] pub struct Handle(pub u32);
#[derive_ReprC(rename = "named_handle")] #[repr(transparent)] #[derive(Clone, Copy)] pub struct NamedHandle(pub i16);
#[derive_ReprC] #[repr(opaque)] pub struct Hidden { pub v: u64, pub s: String }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Widths { pub a: bool, pub b: i8, pub c: u8, pub d: i16, pub e: u16, pub f: i32, pub g: u32, pub h: i64, pub i: u64, pub j: isize, pub k: usize, pub l: f32, pub m: f64, pub n: safer_ffi::c_char }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Arrays { pub a: [usize; 2], pub b: [isize; 1], pub c: [f32; 3], pub d: [f64; 2], pub e: [bool; 3], pub f: [Color; 2], pub g: [[u8; 2]; 3], pub h: [*const u8; 2], pub i: [i8; 5] }
#[ffi_export] #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Unused { pub kept: u16, pub also: [Small; 2] }

// ---- constants
/// a constant, of `a/*/b` and `<c> & "d" \\`
#[ffi_export] pub const C_U8: u8 = 200;
/** a constant
 * on two lines
 */
#[ffi_export] pub const C_I8: i8 = -100;
#[ffi_export] pub const C_U16: u16 = 0xffff;
#[ffi_export] pub const C_I32: i32 = i32::MIN;
#[ffi_export] pub const C_U32: u32 = 0xdead_beef;
#[ffi_export] pub const C_I64: i64 = -0x7fff_ffff_ffff_ffff;
#[ffi_export] pub const C_U64: u64 = 0xfedc_ba98_7654_3210;
#[ffi_export] pub const C_USIZE: usize = 1 << 40;
#[ffi_export] pub const C_BOOL: bool = 3 > 2;
#[ffi_export] pub const C_F64: f64 = -0.1;
#[ffi_export] pub const C_INF: f64 = f64::INFINITY;
#[ffi_export] pub const C_NINF: f32 = f32::NEG_INFINITY;
#[ffi_export] pub const C_NAN: f64 = f64::NAN;
#[ffi_export] pub const C_NAN32: f32 = f32::NAN;
#[ffi_export] pub const C_ISIZE: isize = isize::MIN;
#[ffi_export] pub const C_I8MIN: i8 = i8::MIN;
#[ffi_export] pub const C_U64MAX: u64 = u64::MAX;
#[ffi_export] pub const C_TINY: f64 = 5e-324;
#[ffi_export] pub const C_LARGE: f32 = f32::MAX;
#[ffi_export] pub const C_F32: f32 = 16777216.0;
#[ffi_export(untyped)] pub const C_UNTYPED: i32 = -77;

// ---- functions: scalars
#[ffi_export] fn e_void() { rec(&[]) }
#[ffi_export] fn e_ints(a: u8, b: i8, c: u16, d: i16, e: u32, f: i32, g: u64, h: i64, i: usize, j: isize) -> u64 {
    rec(&[a as u64, b as u64, c as u64, d as u64, e as u64, f as u64, g, h as u64, i as u64, j as u64]);
    !g
}
#[ffi_export] fn e_u8(a: u8) -> u8 { rec(&[a as u64]); a }
#[ffi_export] fn e_i8(a: i8) -> i8 { rec(&[a as u64]); a }
#[ffi_export] fn e_u16(a: u16) -> u16 { rec(&[a as u64]); a }
#[ffi_export] fn e_i16(a: i16) -> i16 { rec(&[a as u64]); a }
#[ffi_export] fn e_u32(a: u32) -> u32 { rec(&[a as u64]); a }
#[ffi_export] fn e_i32(a: i32) -> i32 { rec(&[a as u64]); a }
#[ffi_export] fn e_i64(a: i64) -> i64 { rec(&[a as u64]); a }
#[ffi_export] fn e_isize(a: isize) -> isize { rec(&[a as u64]); a }
#[ffi_export] fn e_floats(a: f32, b: f64, c: f32, d: f64) -> f64 { rec(&[a.to_bits() as u64, b.to_bits(), c.to_bits() as u64, d.to_bits()]); b }
#[ffi_export] fn e_f32(a: f64, b: f32) -> f32 { rec(&[a.to_bits(), b.to_bits() as u64]); b }
#[ffi_export] fn e_bool(a: bool, b: bool, c: safer_ffi::c_char) -> bool { rec(&[a as u64, b as u64, c.0 as u64]); a & !b }
/// more arguments than registers
#[ffi_export] fn e_many(a: u64, b: u8, c: f64, d: u16, e: u32, f: f32, g: i64, h: u8, i: bool, j: i16, k: Small, l: u64) -> u64 {
    rec(&[a, b as u64, c.to_bits(), d as u64, e as u64, f.to_bits() as u64, g as u64, h as u64, i as u64, j as u64, k.a as u64, k.b as u64, l]);
    a ^ l
}
#[ffi_export(rename = "e_renamed")] fn another_name(a: u32, b: u32) -> u32 { rec(&[a as u64, b as u64]); b }
#[ffi_export] fn e_patterns(Small { a: y, b: x }: Small, mut n: u32, _: u8, ref r: u16, [p, q]: [u8; 2], _unused: u64, __arg_1: i32) -> u32 {
    n = n.wrapping_add(1);
    rec(&[y as u64, x as u64, n as u64, *r as u64, p as u64, q as u64, __arg_1 as u64]);
    n
}
#[ffi_export] unsafe fn e_unsafe<'a, 'b>(a: &'a u32, b: &'b mut u32) -> &'a u32 where 'b: 'a { rec(&[*a as u64, *b as u64]); *b = *a; a }
#[ffi_export] extern "C" fn e_extern(a: u8, b: u64) -> u64 { rec(&[a as u64, b]); b }
#[ffi_export] pub fn e_early(a: u32) -> u32 { rec(&[a as u64]); if a & 1 == 0 { return a / 2 } let b = a.wrapping_mul(3); b.wrapping_add(1) }
fn block_on<F: core::future::Future>(f: F) -> F::Output {
    fn clone(_: *const ()) -> core::task::RawWaker { core::task::RawWaker::new(core::ptr::null(), &VT) }
    fn nop(_: *const ()) {}
    static VT: core::task::RawWakerVTable = core::task::RawWakerVTable::new(clone, nop, nop, nop);
    let mut f = Box::pin(f);
    let w = unsafe { core::task::Waker::from_raw(clone(core::ptr::null())) };
    let mut cx = core::task::Context::from_waker(&w);
    loop { if let core::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r } }
}
struct Once(bool);
impl core::future::Future for Once {
    type Output = ();
    fn poll(mut self: core::pin::Pin<&mut Self>, _: &mut core::task::Context<'_>) -> core::task::Poll<()> {
        if core::mem::replace(&mut self.0, true) { core::task::Poll::Ready(()) } else { core::task::Poll::Pending }
    }
}
#[ffi_export(executor = block_on)] async fn e_async(a: u32, b: &u8) -> u32 { let b = *b; ffi_await!(async move { Once(false).await; rec(&[a as u64, b as u64]); a.wrapping_add(b as u32) }) }
#[ffi_export(executor = block_on, rename = "e_async_renamed")] async fn async_other(a: u32, b: u8) -> u8 { ffi_await!(async move { rec(&[a as u64, b as u64]); !b }) }

// ---- functions: aggregates
#[ffi_export] fn e_point(p: Point) -> Point { rec(&[p.x.to_bits(), p.y.to_bits()]); Point { x: p.y, y: p.x } }
#[ffi_export] fn e_small(s: Small, t: Small) -> Small { rec(&[s.a as u64, s.b as u64, t.a as u64, t.b as u64]); Small { a: t.a, b: s.b } }
#[ffi_export] fn e_regs(r: Regs) -> Regs { rec(&[r.n, r.f.to_bits()]); Regs { n: !r.n, f: r.f } }
#[ffi_export] fn e_large(x: u8, l: Large, y: u8) -> Large { rec(&[x as u64, l.a, l.b as u64, l.c as u64, l.d as u64, l.e as u64, y as u64]); Large { a: !l.a, ..l } }
#[ffi_export] fn e_outer(o: Outer) -> Outer { rec(&[o.s.a as u64, o.s.b as u64, o.c as u64, o.arr[0] as u64, o.arr[1] as u64, o.arr[2] as u64, o.n.n, o.n.f.to_bits(), o.flag as u64, o.sign as u64]); Outer { flag: !o.flag, ..o } }
#[ffi_export] fn e_floats3(f: Floats) -> Floats { rec(&[f.a.to_bits() as u64, f.b.to_bits() as u64, f.c.to_bits() as u64]); Floats { a: f.c, b: f.a, c: f.b } }
#[ffi_export] fn e_array(a: [u16; 3]) -> [u16; 3] { rec(&[a[0] as u64, a[1] as u64, a[2] as u64]); [a[2], a[0], a[1]] }
#[ffi_export] fn e_arrays(x: Arrays, k: u8) -> Arrays {
    rec(&[x.a[0] as u64, x.a[1] as u64, x.b[0] as u64, x.c[0].to_bits() as u64, x.c[2].to_bits() as u64, x.d[1].to_bits(), x.e[0] as u64, x.e[2] as u64, x.f[1] as u64, x.g[0][1] as u64, x.g[2][0] as u64, x.h[0] as u64, x.h[1] as u64, x.i[4] as u64, k as u64]);
    Arrays { b: [!x.b[0]], h: [x.h[1], x.h[0]], ..x }
}
#[ffi_export] fn e_tuple(t: Tuple2<u8, u64>, u: Tuple3<u16, bool, f64>) -> Tuple2<u64, u8> { rec(&[t._0 as u64, t._1, u._0 as u64, u._1 as u64, u._2.to_bits()]); Tuple2 { _0: t._1, _1: t._0 } }
#[ffi_export] fn e_generic(g: &Generic<u16>) -> Generic<u16> { rec(&[g.first as u64, g.many[0] as u64, g.many[3] as u64, g.last as u64]); *g }
#[ffi_export] fn e_both(x: &Nested, y: Both<u16, u32>, z: Both<u32, u16>) -> Both<Both<u8, u16>, u32> {
    rec(&[x.t.t[0] as u64, x.t.t[1] as u64, x.t.u.t as u64, x.t.u.u as u64, x.u.t as u64, x.u.u.t.is_some() as u64, x.u.u.u, y.t as u64, y.u as u64, z.t as u64, z.u as u64]);
    Both { t: Both { t: x.u.u.t.map_or(7, |f| f(x.t.t[0], y.t)), u: z.u }, u: x.u.t }
}
#[ffi_export] fn e_phantoms(p: Phantoms) -> Phantoms { rec(&[p.a as u64, p.b as u64]); p }
#[ffi_export] fn e_widths(w: &Widths) -> Widths {
    rec(&[w.a as u64, w.b as u64, w.c as u64, w.d as u64, w.e as u64, w.f as u64, w.g as u64, w.h as u64, w.i, w.j as u64, w.k as u64, w.l.to_bits() as u64, w.m.to_bits(), w.n.0 as u64]);
    *w
}
#[ffi_export] fn e_handle(h: Handle, n: NamedHandle) -> Handle { rec(&[h.0 as u64, n.0 as u64]); Handle(!h.0) }
#[ffi_export] fn e_named(n: NamedHandle) -> NamedHandle { rec(&[n.0 as u64]); n }
#[ffi_export] fn e_enums(a: Color, b: Sign, c: Level, d: Flags, e: Err, f: Big, g: Deep, h: Plain, i: Port, j: Mask, k: Inner8) -> Sign {
    rec(&[a as u64, b as u64, c as u64, d as u64, e as u64, f as u64, g as u64, h as u64, i as u64, j as u64, k as u64]);
    b
}
#[ffi_export] fn e_plain(h: Plain) -> Plain { rec(&[h as u64]); h }
#[ffi_export] fn e_level(h: Level) -> Level { rec(&[h as u64]); h }
#[ffi_export] fn e_option(o: TaggedOption<u32>, p: TaggedOption<Small>) -> TaggedOption<u64> {
    let (x, y) = (o.into_rust(), p.into_rust());
    rec(&[x.is_some() as u64, x.unwrap_or(0) as u64, y.is_some() as u64, y.map_or(0, |s| s.a as u64), y.map_or(0, |s| s.b as u64)]);
    x.map(|v| !(v as u64)).into()
}

// ---- functions: pointers
#[ffi_export] fn e_ref<'a>(a: &'a u32, m: &mut u64, o: Option<&'a u32>) -> Option<&'a u32> { rec(&[*a as u64, *m, o.map_or(0, |x| *x as u64), o.is_some() as u64]); *m = *a as u64; o }
#[ffi_export] fn e_raw(a: *const u16, b: *mut u32, n: usize) -> *mut u32 { rec(&[a as u64, b as u64]); unsafe { b.wrapping_add(n) } }
#[ffi_export] fn e_out(out: Out<'_, Large>, v: u64) { rec(&[v]); out.write(Large { a: v, b: 1, c: 2, d: -3, e: !v as i64 }); }
#[ffi_export] fn e_pointers(p: Pointers<'_>) -> i32 { rec(&[*p.r as u64, p.o.map_or(0, |x| *x), p.m as u64, p.g.is_some() as u64]); if let Some(g) = p.g { g() } (p.f)(*p.r as u8, -(*p.r as i64)) }
#[ffi_export] fn e_slice(s: c_slice::Ref<'_, u16>, mut t: c_slice::Mut<'_, u8>) -> usize {
    let mut sum = 0u64; for x in s.iter() { sum = sum * 3 + *x as u64; }
    rec(&[s.len() as u64, t.len() as u64, sum]);
    for x in t.iter_mut() { *x = !*x; }
    s.len() + t.len()
}
#[ffi_export] fn e_str(s: str::Ref<'_>, c: char_p::Ref<'_>) -> usize { rec(&[s.len() as u64, c.to_bytes().len() as u64, s.as_bytes().get(0).map_or(0, |x| *x as u64), c.to_bytes().get(0).map_or(0, |x| *x as u64)]); s.len() }
#[ffi_export] fn e_vec(v: repr_c::Vec<u32>) -> repr_c::Vec<u32> { rec(&[v.len() as u64, v.get(0).map_or(0, |x| *x as u64)]); let mut v: Vec<u32> = v.into(); v.reverse(); v.into() }
#[ffi_export] fn e_boxed(b: repr_c::Box<Large>) -> repr_c::Box<u64> { rec(&[b.a, b.e as u64]); Box::new(b.a).into() }
#[ffi_export] fn e_box_free(b: Option<repr_c::Box<u64>>) -> bool { rec(&[b.as_ref().map_or(0, |b| **b)]); b.is_some() }
#[ffi_export] fn e_hidden(v: u64) -> repr_c::Box<Hidden> { rec(&[v]); Box::new(Hidden { v, s: String::new() }).into() }
#[derive_ReprC] #[repr(opaque)] pub struct Sealed<T: 'static> { pub v: T, pub s: String }
pub struct Two<T, U> { pub t: T, pub u: U }
pub type SealedDeep = Sealed<Two<Two<Two<u8, (i8, u16)>, [u16; 2]>, u32>>;
#[ffi_export] fn e_sealed(v: u32) -> repr_c::Box<SealedDeep> { rec(&[v as u64]); Box::new(Sealed { v: Two { t: Two { t: Two { t: 0, u: (0, 0) }, u: [0; 2] }, u: v }, s: String::new() }).into() }
#[ffi_export] fn e_sealed_read(h: &SealedDeep) -> u32 { rec(&[]); h.v.u }
#[ffi_export] fn e_sealed_free(h: Option<repr_c::Box<SealedDeep>>, other: Option<&Sealed<Two<u8, fn(u8, u16) -> u32>>>) { rec(&[h.is_some() as u64, other.is_some() as u64]) }
#[allow(non_camel_case_types)] #[ffi_export] #[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct same_name { pub v: u32 }
#[ffi_export] fn same_name(s: same_name, x: u32) -> u32 { rec(&[s.v as u64, x as u64]); s.v ^ x }
#[ffi_export] fn e_hidden_read(h: &Hidden) -> u64 { rec(&[h.s.len() as u64]); h.v }
#[ffi_export] fn e_hidden_free(h: Option<repr_c::Box<Hidden>>) { rec(&[h.is_some() as u64]) }
#[ffi_export] fn e_string(s: repr_c::String) -> char_p::Box { rec(&[s.len() as u64]); s.to_string().try_into().unwrap() }
#[ffi_export] fn e_char_free(s: Option<char_p::Box>) -> usize { rec(&[]); s.map_or(0, |s| s.to_bytes().len()) }

// ---- functions: callbacks
#[ffi_export] fn e_call(f: extern "C" fn(Small, u64) -> Point, s: Small, n: u64) -> Point { rec(&[s.a as u64, s.b as u64, n]); f(s, n) }
#[derive_ReprC] #[repr(i8)] #[derive(Clone, Copy)] pub enum OnlyRef { Neg = -7, Pos = 7 }
#[derive_ReprC] #[repr(u16)] #[derive(Clone, Copy)] pub enum OnlyArg { Low = 3, Top = 40000 }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum OnlyRet { No, Yes }
/** an item

   of two fields */
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct OnlyItem { pub k: u8,/** the key
    */ pub v: u32 }
#[ffi_export] fn e_only(r: &OnlyRef, f: extern "C" fn(OnlyArg, *const OnlyItem) -> OnlyRet, i: &[OnlyItem; 2]) -> OnlyRet { rec(&[*r as i8 as u64, i[0].k as u64, i[1].v as u64]); f(if i[0].k & 1 == 0 { OnlyArg::Low } else { OnlyArg::Top }, &i[1]) }
#[ffi_export] fn e_indirect<'a>(p: &'a &'a u32, q: &'a mut Option<&'a Small>, f: &extern "C" fn(u8) -> u16, fs: [Option<extern "C" fn(u16) -> u32>; 2]) -> u32 {
    rec(&[**p as u64, q.map_or(99, |s| s.b as u64), fs[0].is_some() as u64]);
    *q = None;
    fs[1].map_or(5, |g| g(f(**p as u8)))
}
#[ffi_export] fn e_picker(f: extern "C" fn(u8) -> extern "C" fn(u16) -> u32, x: u8, y: u16) -> u32 { rec(&[x as u64, y as u64]); f(x)(y) }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Raws { pub r#type: u8, pub r#async: u32 }
#[ffi_export] fn r#dyn(r#impl: &mut Raws) -> u8 { rec(&[r#impl.r#type as u64]); r#impl.r#async = 9; !r#impl.r#type }
#[ffi_export] fn e_raws(r#type: Raws, r#dyn: u16) -> u64 { rec(&[r#type.r#type as u64, r#type.r#async as u64, r#dyn as u64]); r#type.r#async as u64 }
#[ffi_export] fn e_items<'a>(i: c_slice::Ref<'_, OnlyItem>, j: Tuple2<Tuple2<u8, u32>, u16>, k: c_slice::Ref<'a, c_slice::Ref<'a, u8>>) -> Tuple2<u16, Tuple2<u8, u32>> {
    rec(&[i.len() as u64, i[0].v as u64, j._0._0 as u64, j._0._1 as u64, j._1 as u64, k.len() as u64, k[0].len() as u64, k[0][0] as u64]);
    Tuple2 { _0: j._1, _1: j._0 }
}
#[derive_ReprC(dyn)] pub trait Shape { fn area(&self, k: u32, c: Color) -> u64; fn grow(&mut self, by: u16) -> bool; }
pub struct Square(pub u32);
impl Shape for Square { fn area(&self, k: u32, c: Color) -> u64 { rec(&[k as u64, c as u64, self.0 as u64]); self.0 as u64 * k as u64 } fn grow(&mut self, by: u16) -> bool { rec(&[by as u64]); let (n, o) = self.0.overflowing_add(by as u32); self.0 = n; o } }
#[ffi_export] fn e_shape(side: u32) -> VirtualPtr<dyn Shape> { rec(&[side as u64]); Box::new(Square(side)).into() }
#[ffi_export] fn e_shaped(mut s: VirtualPtr<dyn Shape>, by: u16, k: u32) -> u64 { let o = s.grow(by); s.area(k, Color::Green) ^ o as u64 }
#[derive_ReprC] #[repr(transparent)] #[derive(Clone, Copy)] pub struct Callback(pub extern "C" fn(c_slice::Ref<'_, u8>, &u32) -> u64);
#[ffi_export] fn e_newtype(c: Callback, s: c_slice::Ref<'_, u8>, n: u32) -> u64 { rec(&[s.len() as u64, n as u64]); (c.0)(s, &n) }
#[ffi_export] fn e_callback(which: bool) -> extern "C" fn(i16, Large) -> Large {
    extern "C" fn f(i: i16, l: Large) -> Large { Large { d: i, ..l } }
    extern "C" fn g(i: i16, l: Large) -> Large { Large { e: i as i64, ..l } }
    rec(&[which as u64]);
    if which { f } else { g }
}
#[ffi_export] fn e_closure(mut f: BoxDynFnMut2<u32, u32, u8>, a: u32, b: u8) -> u32 { rec(&[a as u64, b as u64]); let x = f.call(a, b); let y = f.call(x, !b); drop(f); y }
#[ffi_export] fn e_arc_closure(f: ArcDynFn1<u64, u64>, a: u64) -> u64 { rec(&[a]); let g = f.clone(); let x = f.call(a); drop(f); let y = g.call(x); y }
#[ffi_export] fn e_ref_closure(mut f: RefDynFnMut1<'_, i32, i16>, a: i16) -> i32 { rec(&[a as u64]); f.call(a) }
#[ffi_export] fn e_make_closure(k: u32) -> BoxDynFnMut1<u32, u32> { rec(&[k as u64]); let mut n = k; BoxDynFnMut1::new(Box::new(move |x: u32| { n = n.wrapping_mul(31).wrapping_add(x); n })) }

// ---- functions that panic
pub struct Bomb(pub u32);
pub static mut BOMBS: u32 = 0;
impl Drop for Bomb { fn drop(&mut self) { unsafe { BOMBS += 1 } if self.0 & 7 == 5 { panic!() } } }
#[ffi_export] fn p_body(x: u32) -> u32 { rec(&[x as u64]); if x & 7 == 3 { panic!() } x }
#[ffi_export] fn p_void(x: u32) { rec(&[x as u64]); if x & 7 == 3 { panic!("with a message") } }
#[ffi_export] fn p_struct(l: Large) -> Large { rec(&[l.a]); if l.a & 7 == 3 { std::panic::panic_any(5u8) } l }
#[ffi_export] fn p_index(s: c_slice::Ref<'_, u8>, i: usize) -> u8 { rec(&[i as u64]); s[i] }
#[ffi_export] fn p_drop(x: u32) -> u32 { rec(&[x as u64]); let _b = Bomb(x); x }
#[ffi_export] fn p_arg(b: repr_c::Box<P>) -> u32 { rec(&[]); b.b }
#[ffi_export(rename = "p_renamed")] fn p_other(f: extern "C" fn(u32) -> u32, x: u32) -> u32 { rec(&[x as u64]); let r = f(x); if r & 7 == 3 { panic!() } r }
#[ffi_export] fn p_box(x: u32) -> Option<repr_c::Box<u64>> { rec(&[x as u64]); let b = Box::new(x as u64); if x & 7 == 3 { panic!() } if x & 7 == 2 { return None } Some(b.into()) }
#[ffi_export(executor = block_on)] async fn p_async(x: u32) -> u32 { ffi_await!(async move { rec(&[x as u64]); if x & 7 == 3 { panic!() } x }) }
/// Decides whether a body without arguments panics.
pub static mut WHAT: u32 = 0;
#[ffi_export] fn p_none() -> u32 { rec(&[]); let x = unsafe { WHAT }; if x & 7 == 3 { panic!() } x }
#[ffi_export] fn p_void_none() { rec(&[]); if unsafe { WHAT } & 7 == 3 { panic!() } }
#[ffi_export] pub extern "C" fn p_extern(x: u8) -> u8 { rec(&[x as u64]); if x & 7 == 3 { panic!() } x }
#[ffi_export] fn p_bool(x: bool) -> bool { rec(&[x as u64]); if x { panic!() } x }
#[ffi_export] fn p_nine(a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: u8) -> u8 { rec(&[a as u64, b as u64, c as u64, d, e as u64, f as u64, g as u64, h as u64]); if i & 7 == 3 { panic!() } i }
#[derive_ReprC] #[repr(C)] pub struct P { pub b: u32 }
impl Drop for P { fn drop(&mut self) { if self.b & 7 == 5 { panic!() } } }

// ---- functions for invalid arguments
#[ffi_export] fn v_bool(a: u8, b: bool, c: u64) -> u64 { rec(&[a as u64, b as u64, c]); c ^ b as u64 }
#[ffi_export] fn v_enum(c: Color, s: Sign) -> u32 { rec(&[c as u64, s as u64]); 9 }
#[ffi_export] fn v_wide_enum(e: Err, b: Big, p: Plain) -> u32 { rec(&[e as u64, b as u64, p as u64]); 9 }
#[ffi_export] fn v_struct(o: Outer) -> bool { rec(&[]); o.flag }
#[ffi_export] fn v_ref(a: &u32, b: Option<&u64>) -> usize { rec(&[]); a as *const u32 as usize ^ b.map_or(0, |b| b as *const u64 as usize) }
#[ffi_export] fn v_fn(f: extern "C" fn()) -> bool { rec(&[]); f as usize != 0 }
#[ffi_export] fn v_slice(s: c_slice::Ref<'_, u32>, t: Option<c_slice::Ref<'_, u32>>) -> usize { rec(&[]); s.len() ^ t.map_or(0, |t| t.len()) }
#[ffi_export] fn v_out(o: Out<'_, u16>) -> bool { rec(&[]); let _ = o; true }
#[ffi_export] fn v_last(a: u64, b: u64, c: u64, d: u64, e: u64, f: u64, g: u64, last: bool) -> bool { rec(&[a, b, c, d, e, f, g]); last }
#[ffi_export] fn v_option(o: TaggedOption<bool>) -> bool { rec(&[]); o.into_rust().unwrap_or(true) }
#[ffi_export] fn v_box(b: Option<repr_c::Box<u64>>, z: bool) -> bool { rec(&[]); core::mem::forget(b); z }
#[ffi_export] fn v_array(a: [bool; 4]) -> bool { rec(&[]); a[3] }
safer_ffi::ffi_export_future_helpers!();
