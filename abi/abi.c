/* A C program written against the generated header. Every c_* function takes and gives scalars (by pointer where there are
 * many), so that the Rust side of the harness and this side agree on nothing but plain integers. */
#include "abi.h"
#ifdef __cplusplus      /* a C++ program against the same header (in the release build) */
#define TYPES_SAME(A, B) __is_same(A, B)
struct Any { void *p; template <class T> operator T *() const { return (T *)p; } };
#define ANY(x) Any{(void *)(x)}
extern "C" {
#else
#define ANY(x) ((void *)(x))
#define TYPES_SAME(A, B) __builtin_types_compatible_p(A, B)
#endif

typedef uint64_t W;
#define BITS(T, x) ({ union { T t; W w; } u_; u_.w = 0; u_.t = (x); u_.w; })
#define FROM(T, w_) ({ union { T t; W w; } u_; u_.w = (w_); u_.t; })

typedef Both_Both_uint8_2_array_Both_uint16_int8_Both_uint32_Both_uint8_uint8_uint16_fptr_uint64_t Nested_;

/* ---- sizes, alignments, offsets, as C sees them */
#define TYPES(X) X(Point_t) X(Small_t) X(Regs_t) X(Large_t) X(Outer_t) X(Floats_t) X(Pointers_t) X(generic_of_u16_uint16_t) X(Phantoms_t) X(Widths_t) \
    X(Color_t) X(Sign_t) X(Level_t) X(Port_t) X(Flags_t) X(Err_t) X(Big_t) X(Deep_t) X(Plain_t) X(Mask_t) X(renamed_enum_t) X(Unused_t) X(Arrays_t) X(named_handle_t) \
    X(slice_ref_uint16_t) X(slice_mut_uint8_t) X(Vec_uint32_t) X(Tuple2_uint8_uint64_t) X(Tuple3_uint16_bool_double_t) X(uint16_3_array_t) X(Small_2_array_t) \
    X(Tuple2_bool_uint32_t) X(Tuple2_bool_Small_t) X(ArcDynFn1_uint64_uint64_t) X(BoxDynFnMut2_uint32_uint32_uint8_t) X(RefDynFnMut1_int32_int16_t) X(size_t) X(Nested_)
#define SZ(T) sizeof(T), _Alignof(T),
static const size_t sizes[] = { TYPES(SZ) 0 };
size_t c_size(size_t i) { return sizes[i]; }

#define OFFS(X) X(Point_t, x) X(Point_t, y) X(Small_t, a) X(Small_t, b) X(Regs_t, n) X(Regs_t, f) X(Large_t, a) X(Large_t, b) X(Large_t, c) X(Large_t, d) X(Large_t, e) \
    X(Outer_t, s) X(Outer_t, c) X(Outer_t, arr) X(Outer_t, n) X(Outer_t, flag) X(Outer_t, sign) X(Pointers_t, r) X(Pointers_t, o) X(Pointers_t, m) X(Pointers_t, f) X(Pointers_t, g) \
    X(generic_of_u16_uint16_t, first) X(generic_of_u16_uint16_t, many) X(generic_of_u16_uint16_t, last) X(Phantoms_t, a) X(Phantoms_t, b) X(Unused_t, kept) X(Unused_t, also) X(Arrays_t, a) X(Arrays_t, b) X(Arrays_t, c) X(Arrays_t, d) X(Arrays_t, e) X(Arrays_t, f) X(Arrays_t, g) X(Arrays_t, h) X(Arrays_t, i) X(Nested_, t) X(Nested_, t.u) X(Nested_, t.u.u) X(Nested_, u) X(Nested_, u.u) X(Nested_, u.u.t) X(Nested_, u.u.u) \
    X(slice_ref_uint16_t, ptr) X(slice_ref_uint16_t, len) X(Vec_uint32_t, ptr) X(Vec_uint32_t, len) X(Vec_uint32_t, cap) \
    X(Tuple3_uint16_bool_double_t, _0) X(Tuple3_uint16_bool_double_t, _1) X(Tuple3_uint16_bool_double_t, _2) X(Tuple2_bool_Small_t, _0) X(Tuple2_bool_Small_t, _1) \
    X(ArcDynFn1_uint64_uint64_t, env_ptr) X(ArcDynFn1_uint64_uint64_t, call) X(ArcDynFn1_uint64_uint64_t, release) X(ArcDynFn1_uint64_uint64_t, retain) \
    X(BoxDynFnMut2_uint32_uint32_uint8_t, env_ptr) X(BoxDynFnMut2_uint32_uint32_uint8_t, call) X(BoxDynFnMut2_uint32_uint32_uint8_t, free) \
    X(RefDynFnMut1_int32_int16_t, env_ptr) X(RefDynFnMut1_int32_int16_t, call)
#define OFF(T, f) offsetof(T, f), sizeof(((T *)0)->f),
static const size_t offsets[] = { OFFS(OFF) 0 };
size_t c_offset(size_t i) { return offsets[i]; }

/* ---- enum variants: which variant (by position) the value is, the way a C program would ask */
#define IS(V) if (x == V) return n; n++;
int c_color(W w) { Color_t x = (Color_t)w; int n = 0; IS(COLOR_RED) IS(COLOR_GREEN) IS(COLOR_DARK_BLUE) return -1; }
int c_sign(W w) { Sign_t x = (Sign_t)w; int n = 0; IS(SIGN_MINUS) IS(SIGN_ZERO) IS(SIGN_PLUS) IS(SIGN_LEAST) return -1; }
int c_level(W w) { Level_t x = (Level_t)w; int n = 0; IS(LEVEL_LOW) IS(LEVEL_MID) IS(LEVEL_HIGH) return -1; }
int c_port(W w) { Port_t x = (Port_t)w; int n = 0; IS(PORT_HTTP) IS(PORT_ALT) return -1; }
int c_flags(W w) { Flags_t x = (Flags_t)w; int n = 0; IS(FLAGS_NONE) IS(FLAGS_ONE) IS(FLAGS_HIGH) IS(FLAGS_TOP) IS(FLAGS_NEXT) return -1; }
int c_err(W w) { Err_t x = (Err_t)w; int n = 0; IS(ERR_FATAL) IS(ERR_MINOR) IS(ERR_SAME) IS(ERR_THEN) return -1; }
int c_big(W w) { Big_t x = (Big_t)w; int n = 0; IS(BIG_SMALL) IS(BIG_HUGE) IS(BIG_LAST) return -1; }
int c_deep(W w) { Deep_t x = (Deep_t)w; int n = 0; IS(DEEP_FAR) IS(DEEP_NEAR) return -1; }
int c_plain(W w) { Plain_t x = (Plain_t)(int32_t)w; int n = 0; IS(PLAIN_FIRST) IS(PLAIN_SECOND) IS(PLAIN_THIRD) return -1; }
int c_mask(W w) { Mask_t x = (Mask_t)w; int n = 0; IS(MASK_NOTHING) IS(MASK_EVERYTHING) IS(MASK_HALF) return -1; }
int c_inner(W w) { renamed_enum_t x = (renamed_enum_t)w; int n = 0; IS(RENAMED_ENUM_ONE_TWO) IS(RENAMED_ENUM_H_T_T_P_SERVER) IS(RENAMED_ENUM_X9Y) return -1; }
#define SAME(T) TYPES_SAME(__typeof__(x), T)
/* the type of the i-th enum: bytes, negative if signed */
#define WIDTH(T) ((T)-1 < (T)1 ? -(int)sizeof(T) : (int)sizeof(T))
int c_width(int i) {
    switch (i) {
    case 0: return WIDTH(Color_t); case 1: return WIDTH(Sign_t); case 2: return WIDTH(Level_t); case 3: return WIDTH(Port_t); case 4: return WIDTH(Flags_t);
    case 5: return WIDTH(Err_t); case 6: return WIDTH(Big_t); case 7: return WIDTH(Deep_t); case 8: return WIDTH(Plain_t); case 9: return WIDTH(Mask_t); case 10: return WIDTH(renamed_enum_t);
    case 20: return WIDTH(__typeof__(C_U8)); case 21: return WIDTH(__typeof__(C_I8)); case 22: return WIDTH(__typeof__(C_U16)); case 23: return WIDTH(__typeof__(C_I32));
    case 24: return WIDTH(__typeof__(C_U32)); case 25: return WIDTH(__typeof__(C_I64)); case 26: return WIDTH(__typeof__(C_U64)); case 27: return WIDTH(__typeof__(C_USIZE));
    case 28: return sizeof(C_BOOL); case 29: return sizeof(C_F64); case 30: return sizeof(C_F32);
    case 31: return TYPES_SAME(__typeof__(C_BOOL), bool); case 32: return TYPES_SAME(__typeof__(C_F64), double); case 33: return TYPES_SAME(__typeof__(C_F32), float);
    case 34: return TYPES_SAME(__typeof__(C_INF), double) && TYPES_SAME(__typeof__(C_NINF), float) && TYPES_SAME(__typeof__(C_NAN), double) && TYPES_SAME(__typeof__(C_NAN32), float);
    case 35: return WIDTH(__typeof__(C_ISIZE)); case 36: return WIDTH(__typeof__(C_I8MIN)); case 37: return WIDTH(__typeof__(C_U64MAX));
    default: return 0;
    }
}
/* ---- constants: does x equal the i-th? */
bool c_const(int i, W w) {
    switch (i) {
    case 0: return (uint8_t)w == C_U8; case 1: return (int8_t)w == C_I8; case 2: return (uint16_t)w == C_U16; case 3: return (int32_t)w == C_I32; case 4: return (uint32_t)w == C_U32;
    case 5: return (int64_t)w == C_I64; case 6: return (uint64_t)w == C_U64; case 7: return (size_t)w == C_USIZE; case 8: return (bool)(w & 1) == C_BOOL;
    case 9: return w == BITS(double, C_F64); case 10: return w == BITS(float, C_F32); case 11: return (int64_t)w == (int64_t)C_UNTYPED;
    case 12: return w == BITS(double, C_INF); case 13: return w == BITS(float, C_NINF); case 14: return (C_NAN) != (C_NAN); case 15: return (C_NAN32) != (C_NAN32);
    case 16: return (intptr_t)w == C_ISIZE; case 17: return (int8_t)w == C_I8MIN; case 18: return w == C_U64MAX; case 19: return w == BITS(double, C_TINY); case 20: return w == BITS(float, C_LARGE);
    default: return false;
    }
}

/* ---- calls */
W c_ints(const W *a) { return e_ints((uint8_t)a[0], (int8_t)a[1], (uint16_t)a[2], (int16_t)a[3], (uint32_t)a[4], (int32_t)a[5], a[6], (int64_t)a[7], (size_t)a[8], (ssize_t)a[9]); }
W c_int(int i, W w) {
    switch (i) {
    case 0: return (W)e_u8((uint8_t)w); case 1: return (W)(int64_t)e_i8((int8_t)w); case 2: return (W)e_u16((uint16_t)w); case 3: return (W)(int64_t)e_i16((int16_t)w);
    case 4: return (W)e_u32((uint32_t)w); case 5: return (W)(int64_t)e_i32((int32_t)w); case 6: return (W)e_i64((int64_t)w); case 7: return (W)(int64_t)e_isize((ssize_t)w);
    case 8: e_void(); return 0; default: return (W)e_early((uint32_t)w);
    }
}
W c_floats(const W *a) { return BITS(double, e_floats(FROM(float, a[0]), FROM(double, a[1]), FROM(float, a[2]), FROM(double, a[3]))); }
W c_f32(const W *a) { return BITS(float, e_f32(FROM(double, a[0]), FROM(float, a[1]))); }
W c_bool(const W *a) { return e_bool((bool)(a[0] & 1), (bool)(a[1] & 1), (char)a[2]); }
W c_many(const W *a) {
    Small_t k = { (uint8_t)a[10], (uint16_t)a[11] };
    return e_many(a[0], (uint8_t)a[1], FROM(double, a[2]), (uint16_t)a[3], (uint32_t)a[4], FROM(float, a[5]), (int64_t)a[6], (uint8_t)a[7], (bool)(a[8] & 1), (int16_t)a[9], k, a[12]);
}
W c_misc(const W *a) {
    Small_t s = { (uint8_t)a[0], (uint16_t)a[1] };
    uint8_2_array_t arr = { { (uint8_t)a[5], (uint8_t)a[6] } };
    return e_patterns(s, (uint32_t)a[2], (uint8_t)a[3], (uint16_t)a[4], arr, a[7], (int32_t)a[8]);
}
W c_renamed(const W *a) { return e_renamed((uint32_t)a[0], (uint32_t)a[1]); }
W c_extern(const W *a) { return e_extern((uint8_t)a[0], a[1]); }
W c_async(const W *a) { uint8_t b = (uint8_t)a[1]; return e_async((uint32_t)a[0], &b); }
W c_async_renamed(const W *a) { return e_async_renamed((uint32_t)a[0], (uint8_t)a[1]); }

void c_point(const W *a, W *r) { Point_t p = { .x = FROM(double, a[0]), .y = FROM(double, a[1]) }; p = e_point(p); r[0] = BITS(double, p.x); r[1] = BITS(double, p.y); }
void c_small(const W *a, W *r) { Small_t s = { .a = (uint8_t)a[0], .b = (uint16_t)a[1] }, t = { .a = (uint8_t)a[2], .b = (uint16_t)a[3] }; s = e_small(s, t); r[0] = s.a; r[1] = s.b; }
void c_regs(const W *a, W *r) { Regs_t p = { .n = a[0], .f = FROM(double, a[1]) }; p = e_regs(p); r[0] = p.n; r[1] = BITS(double, p.f); }
static void get_large(Large_t l, W *r) { r[0] = l.a; r[1] = l.b; r[2] = l.c; r[3] = (W)(int64_t)l.d; r[4] = (W)l.e; }
static Large_t mk_large(const W *a) { Large_t l = { .a = a[0], .b = (uint8_t)a[1], .c = (uint32_t)a[2], .d = (int16_t)a[3], .e = (int64_t)a[4] }; return l; }
void c_large(const W *a, W *r) { get_large(e_large((uint8_t)a[5], mk_large(a), (uint8_t)a[6]), r); }
void c_outer(const W *a, W *r) {
    Outer_t o; o.s.a = (uint8_t)a[0]; o.s.b = (uint16_t)a[1]; o.c = (Color_t)a[2]; o.arr.idx[0] = (uint16_t)a[3]; o.arr.idx[1] = (uint16_t)a[4]; o.arr.idx[2] = (uint16_t)a[5];
    o.n.n = a[6]; o.n.f = FROM(double, a[7]); o.flag = (bool)(a[8] & 1); o.sign = (Sign_t)a[9];
    o = e_outer(o);
    r[0] = o.s.a; r[1] = o.s.b; r[2] = o.c; r[3] = o.arr.idx[0]; r[4] = o.arr.idx[1]; r[5] = o.arr.idx[2]; r[6] = o.n.n; r[7] = BITS(double, o.n.f); r[8] = o.flag; r[9] = (W)(int64_t)o.sign;
}
void c_floats3(const W *a, W *r) { Floats_t f = { .a = FROM(float, a[0]), .b = FROM(float, a[1]), .c = FROM(float, a[2]) }; f = e_floats3(f); r[0] = BITS(float, f.a); r[1] = BITS(float, f.b); r[2] = BITS(float, f.c); }
void c_arrays(const W *a, W *r) {
    Arrays_t x; for (size_t i = 0; i < sizeof x; i++) ((uint8_t *)&x)[i] = 0;
    x.a.idx[0] = (size_t)a[0]; x.a.idx[1] = (size_t)a[1]; x.b.idx[0] = (ssize_t)a[2]; x.c.idx[0] = FROM(float, a[3]); x.c.idx[2] = FROM(float, a[4]); x.d.idx[1] = FROM(double, a[5]);
    x.e.idx[0] = (bool)(a[6] & 1); x.e.idx[2] = (bool)(a[7] & 1); x.f.idx[0] = COLOR_RED; x.f.idx[1] = (Color_t)a[8]; x.g.idx[0].idx[1] = (uint8_t)a[9]; x.g.idx[2].idx[0] = (uint8_t)a[10];
    x.h.idx[0] = (uint8_t const *)a[11]; x.h.idx[1] = (uint8_t const *)a[12]; x.i.idx[4] = (int8_t)a[13];
    x = e_arrays(x, (uint8_t)a[0]);
    r[0] = x.a.idx[0]; r[1] = x.a.idx[1]; r[2] = (W)x.b.idx[0]; r[3] = BITS(float, x.c.idx[0]); r[4] = BITS(float, x.c.idx[2]); r[5] = BITS(double, x.d.idx[1]); r[6] = x.e.idx[0]; r[7] = x.e.idx[2];
    r[8] = x.f.idx[1]; r[9] = x.g.idx[0].idx[1]; r[10] = x.g.idx[2].idx[0]; r[11] = (W)x.h.idx[0]; r[12] = (W)x.h.idx[1]; r[13] = (W)(int64_t)x.i.idx[4];
}
void c_array(const W *a, W *r) { uint16_3_array_t x = { { (uint16_t)a[0], (uint16_t)a[1], (uint16_t)a[2] } }; x = e_array(x); for (int i = 0; i < 3; i++) r[i] = x.idx[i]; }
void c_tuple(const W *a, W *r) {
    Tuple2_uint8_uint64_t t = { ._0 = (uint8_t)a[0], ._1 = a[1] }; Tuple3_uint16_bool_double_t u = { ._0 = (uint16_t)a[2], ._1 = (bool)(a[3] & 1), ._2 = FROM(double, a[4]) };
    Tuple2_uint64_uint8_t x = e_tuple(t, u); r[0] = x._0; r[1] = x._1;
}
static uint8_t both_f(uint8_t a, uint16_t b) { return (uint8_t)(a + 3 * b); }
void c_both(const W *a, W *r) {
    Nested_ n = { { { { (uint8_t)a[0], (uint8_t)a[1] } }, { (uint16_t)a[2], (int8_t)a[3] } }, { (uint32_t)a[4], { a[5] & 1 ? both_f : NULL, a[6] } } };
    Both_uint16_uint32_t y = { (uint16_t)a[7], (uint32_t)a[8] };
    Both_uint32_uint16_t z = { (uint32_t)a[9], (uint16_t)a[10] };
    Both_Both_uint8_uint16_uint32_t g = e_both(&n, y, z); r[0] = g.t.t; r[1] = g.t.u; r[2] = g.u;
}
void c_generic(const W *a, W *r) {
    generic_of_u16_uint16_t g = { .first = (uint16_t)a[0], .last = (uint8_t)a[3] }; g.many.idx[0] = (uint16_t)a[1]; g.many.idx[1] = 7; g.many.idx[2] = 8; g.many.idx[3] = (uint16_t)a[2];
    g = e_generic(&g); r[0] = g.first; r[1] = g.many.idx[0]; r[2] = g.many.idx[3]; r[3] = g.last;
}
void c_phantoms(const W *a, W *r) { Phantoms_t p = { .a = (uint8_t)a[0], .b = (uint32_t)a[1] }; p = e_phantoms(p); r[0] = p.a; r[1] = p.b; }
void c_widths(const W *a, W *r) {
    Widths_t w = { .a = (bool)(a[0] & 1), .b = (int8_t)a[1], .c = (uint8_t)a[2], .d = (int16_t)a[3], .e = (uint16_t)a[4], .f = (int32_t)a[5], .g = (uint32_t)a[6], .h = (int64_t)a[7], .i = a[8],
                   .j = (ssize_t)a[9], .k = (size_t)a[10], .l = FROM(float, a[11]), .m = FROM(double, a[12]), .n = (char)a[13] };
    w = e_widths(&w);
    r[0] = w.a; r[1] = (W)(int64_t)w.b; r[2] = w.c; r[3] = (W)(int64_t)w.d; r[4] = w.e; r[5] = (W)(int64_t)w.f; r[6] = w.g; r[7] = (W)w.h; r[8] = w.i; r[9] = (W)w.j; r[10] = w.k; r[11] = BITS(float, w.l); r[12] = BITS(double, w.m); r[13] = (unsigned char)w.n;
}
W c_handle(const W *a) { return e_handle((uint32_t)a[0], (named_handle_t)a[1]); }
W c_named(const W *a) { return (W)(int64_t)e_named((named_handle_t)a[0]); }
W c_enums(const W *a) { return (W)(int64_t)e_enums((Color_t)a[0], (Sign_t)a[1], (Level_t)a[2], (Flags_t)a[3], (Err_t)a[4], (Big_t)a[5], (Deep_t)a[6], (Plain_t)(int32_t)a[7], (Port_t)a[8], (Mask_t)a[9], (renamed_enum_t)a[10]); }
W c_plain_call(W w) { return (W)(int64_t)(int32_t)e_plain((Plain_t)(int32_t)w); }
W c_level_call(W w) { return (W)(int64_t)e_level((Level_t)w); }
/* the variants by name, passed to Rust */
W c_enum_names(int i) { return (W)(int64_t)e_enums(i ? COLOR_DARK_BLUE : COLOR_GREEN, i ? SIGN_LEAST : SIGN_PLUS, i ? LEVEL_LOW : LEVEL_HIGH, i ? FLAGS_NEXT : FLAGS_ONE, i ? ERR_THEN : ERR_MINOR, i ? BIG_LAST : BIG_HUGE, i ? DEEP_FAR : DEEP_NEAR, i ? PLAIN_THIRD : PLAIN_FIRST, i ? PORT_ALT : PORT_HTTP, i ? MASK_EVERYTHING : MASK_HALF, i ? RENAMED_ENUM_X9Y : RENAMED_ENUM_H_T_T_P_SERVER); }
void c_option(const W *a, W *r) {
    Tuple2_bool_uint32_t o = { ._0 = (bool)(a[0] & 1), ._1 = (uint32_t)a[1] }; Tuple2_bool_Small_t p = { ._0 = (bool)(a[2] & 1), ._1 = { (uint8_t)a[3], (uint16_t)a[4] } };
    Tuple2_bool_uint64_t x = e_option(o, p); r[0] = x._0; r[1] = x._0 ? x._1 : 0;
}
void c_pointers_all(const W *a, W *r) {
    uint32_t x = (uint32_t)a[0], z = (uint32_t)a[2]; uint64_t y = a[1];
    uint32_t const *o = e_ref(&x, &y, (a[3] & 1) ? &z : 0);
    r[0] = y; r[1] = o == &z; r[2] = o == 0;
    uint32_t const *p = e_unsafe(&x, &z); r[3] = p == &x; r[4] = z;
    uint32_t buf[4]; r[5] = e_raw((uint16_t *)buf, buf, 3) == buf + 3;
    Large_t l; e_out(&l, a[4]); get_large(l, r + 6);
}
static W seen[4];
static int32_t cb_f(uint8_t a, int64_t b) { seen[0] = a; seen[1] = (W)b; return (int32_t)(b + a); }
static void cb_g(void) { seen[2]++; }
W c_pointers(const W *a, W *r) {
    uint32_t x = (uint32_t)a[0]; uint64_t y = a[1]; uint8_t m; seen[2] = 0;
    Pointers_t p = { .r = &x, .o = (a[2] & 1) ? &y : 0, .m = &m, .f = cb_f, .g = (a[2] & 2) ? cb_g : 0 };
    W v = (W)(int64_t)e_pointers(p);
    r[0] = seen[0]; r[1] = seen[1]; r[2] = seen[2]; r[3] = (W)&m; return v;
}
W c_slice(const W *a, W *r) {
    uint16_t s[3] = { (uint16_t)a[0], (uint16_t)a[1], (uint16_t)a[2] }; uint8_t t[2] = { (uint8_t)a[3], (uint8_t)a[4] };
    slice_ref_uint16_t x = { .ptr = s, .len = 3 }; slice_mut_uint8_t y = { .ptr = t, .len = 2 };
    W v = e_slice(x, y); r[0] = t[0]; r[1] = t[1]; return v;
}
W c_str(const W *a) { char c[3] = { (char)a[0], (char)a[1], 0 }; uint8_t s[2] = { (uint8_t)a[2], 'x' }; slice_ref_uint8_t x = { .ptr = s, .len = 2 }; return e_str(x, c); }
/* an owned vector made by Rust goes through C field by field */
W c_vec(Vec_uint32_t *v, W *r) { Vec_uint32_t w; w.ptr = v->ptr; w.len = v->len; w.cap = v->cap; w = e_vec(w); r[0] = w.len; r[1] = w.cap; r[2] = w.ptr[0]; r[3] = (W)w.ptr; *v = w; return w.len ? w.ptr[w.len - 1] : 0; }
W c_hidden(W v) { Hidden_t *h = e_hidden(v); W x = e_hidden_read(h); e_hidden_free(h); e_hidden_free(0); return x; }
typedef Sealed_Two_Two_Two_u8_i8_u16_u16_2_u32_t Sealed_;
W c_sealed(W v) { Sealed_ *h = e_sealed((uint32_t)v); W x = e_sealed_read(h); e_sealed_free(h, 0); return x; }
W c_same(W v, W x) { same_name_t s = { (uint32_t)v }; return same_name(s, (uint32_t)x); }
W c_boxed(Large_t *b, W *r) { uint64_t *x = e_boxed(b); r[0] = *x; r[1] = e_box_free(x); r[2] = e_box_free(0); return r[0]; }
W c_string(Vec_uint8_t *s, W *r) { char *c = e_string(*s); r[0] = (unsigned char)c[0]; r[1] = (unsigned char)c[1]; r[2] = (unsigned char)c[2]; return e_char_free(c); }

static Point_t cb_point(Small_t s, uint64_t n) { seen[0] = s.a; seen[1] = s.b; seen[2] = n; Point_t p = { .x = FROM(double, n), .y = FROM(double, (W)s.b) }; return p; }
void c_call(const W *a, W *r) { Small_t s = { (uint8_t)a[0], (uint16_t)a[1] }; Point_t p = e_call(cb_point, s, a[2]); r[0] = BITS(double, p.x); r[1] = BITS(double, p.y); r[2] = seen[0]; r[3] = seen[1]; r[4] = seen[2]; }
void c_callback(const W *a, W *r) { Large_t (*f)(int16_t, Large_t) = e_callback((bool)(a[5] & 1)); get_large(f((int16_t)a[6], mk_large(a)), r); }

static OnlyRet_t cb_only(OnlyArg_t x, OnlyItem_t const *i) { seen[0] = (W)x; seen[1] = i->k; seen[2] = i->v; return x == ONLY_ARG_TOP ? ONLY_RET_YES : ONLY_RET_NO; }
W c_only(const W *a, W *r) {
    OnlyRef_t k = a[0] & 1 ? ONLY_REF_NEG : ONLY_REF_POS; OnlyItem_2_array_t i;
    i.idx[0].k = (uint8_t)a[1]; i.idx[0].v = (uint32_t)a[2]; i.idx[1].k = (uint8_t)a[3]; i.idx[1].v = (uint32_t)a[4];
    OnlyRet_t v = e_only(&k, ANY(cb_only), &i); r[0] = seen[0]; r[1] = seen[1]; r[2] = seen[2];
    return v == ONLY_RET_YES ? 1 : v == ONLY_RET_NO ? 0 : 2;
}
static uint16_t in_f(uint8_t x) { seen[0] = x; return (uint16_t)(x * 257); }
static uint32_t in_g(uint16_t x) { seen[1] = x; return ~(uint32_t)x; }
W c_indirect(const W *a, W *r) {
    uint32_t x = (uint32_t)a[0], *p = &x; Small_t s = { (uint8_t)a[1], (uint16_t)a[2] }, *q = a[3] & 1 ? &s : 0; uint16_t (*f)(uint8_t) = in_f;
    uint32_uint16_fptr_2_array_t fs; fs.idx[0] = 0; fs.idx[1] = a[4] & 1 ? in_g : 0;
    seen[0] = seen[1] = 0;
    uint32_t v = e_indirect(ANY(&p), ANY(&q), ANY(&f), fs);
    r[0] = q != 0; r[1] = seen[0]; r[2] = seen[1]; return v;
}
static uint32_t (*pick(uint8_t x))(uint16_t) { seen[0] = x; return in_g; }
W c_picker(const W *a, W *r) { seen[0] = seen[1] = 0; uint32_t v = e_picker(pick, (uint8_t)a[0], (uint16_t)a[1]); r[0] = seen[0]; r[1] = seen[1]; return v; }
void c_items(const W *a, W *r) {
    OnlyItem_t i[2] = { { (uint8_t)a[0], (uint32_t)a[1] }, { 0, 0 } }; uint8_t b[3] = { (uint8_t)a[5], 0, 0 };
    slice_ref_OnlyItem_t s = { .ptr = i, .len = 2 }; slice_ref_uint8_t t = { .ptr = b, .len = 3 }; slice_ref_slice_ref_uint8_t k = { .ptr = &t, .len = 1 };
    Tuple2_Tuple2_uint8_uint32_uint16_t j; j._0._0 = (uint8_t)a[2]; j._0._1 = (uint32_t)a[3]; j._1 = (uint16_t)a[4];
    Tuple2_uint16_Tuple2_uint8_uint32_t v = e_items(s, j, k); r[0] = v._0; r[1] = v._1._0; r[2] = v._1._1;
}

typedef VirtualPtr__Erased_ptr_ShapeVTable_t Shape_t;
static void sh_release(void *s) { ((W *)s)[2]++; }
static uint64_t sh_area(void *s, uint32_t k, Color_t c) { ((W *)s)[3] = k; return ((W *)s)[0] + (c == COLOR_GREEN); }
static bool sh_grow(void *s, uint16_t by) { ((W *)s)[0] += by; ((W *)s)[1]++; return by == 7; }
W c_shape(const W *a, W *r) {
    Shape_t s = e_shape((uint32_t)a[0]);
    r[0] = s.vtable.grow(s.ptr, (uint16_t)a[1]); r[1] = s.vtable.area(s.ptr, (uint32_t)a[2], COLOR_DARK_BLUE); s.vtable.release_vptr(s.ptr);
    return 0;
}
W c_shaped(const W *a, W *r) {
    Shape_t s; s.ptr = ANY(r); s.vtable.release_vptr = ANY(sh_release); s.vtable.area = ANY(sh_area); s.vtable.grow = ANY(sh_grow);
    r[0] = a[0];
    return e_shaped(s, (uint16_t)a[1], (uint32_t)a[2]);
}

W c_raws(const W *a, W *r) { Raws_t s = { .type = (uint8_t)a[0], .async = (uint32_t)a[1] }; W v = e_raws(s, (uint16_t)a[2]); uint8_t w = dyn(&s); r[0] = w; r[1] = s.async; return v; }

static uint64_t nt(slice_ref_uint8_t s, uint32_t const *n) { seen[0] = s.ptr[0]; seen[1] = s.len; return *n * 2ull + s.ptr[1]; }
W c_newtype(const W *a, W *r) { uint8_t b[2] = { (uint8_t)a[0], (uint8_t)a[1] }; slice_ref_uint8_t s = { .ptr = b, .len = 2 }; W v = e_newtype(ANY(nt), s, (uint32_t)a[2]); r[0] = seen[0]; r[1] = seen[1]; return v; }

static W env[4];
static uint32_t cl_call(void *e, uint32_t x, uint8_t y) { W *v = (W *)e; v[0]++; v[1] = v[1] * 7 + x + y; return (uint32_t)(v[1] ^ y); }
static void cl_free(void *e) { W *v = (W *)e; v[2]++; }
W c_closure(const W *a, W *r) { env[0] = 0; env[1] = 0; env[2] = 0; BoxDynFnMut2_uint32_uint32_uint8_t f = { .env_ptr = env, .call = cl_call, .free = cl_free }; W v = e_closure(f, (uint32_t)a[0], (uint8_t)a[1]); r[0] = env[0]; r[1] = env[1]; r[2] = env[2]; return v; }
static uint64_t arc_call(void *e, uint64_t x) { W *v = (W *)e; v[0]++; return x * 3 + 1; }
static void arc_release(void *e) { W *v = (W *)e; v[1]++; }
static void arc_retain(void *e) { W *v = (W *)e; v[2]++; }
W c_arc(const W *a, W *r) { env[0] = env[1] = env[2] = 0; ArcDynFn1_uint64_uint64_t f = { .env_ptr = env, .call = arc_call, .release = arc_release, .retain = arc_retain }; W v = e_arc_closure(f, a[0]); r[0] = env[0]; r[1] = env[1]; r[2] = env[2]; return v; }
static int32_t rf_call(void *e, int16_t x) { W *v = (W *)e; v[0]++; return -(int32_t)x; }
W c_ref_closure(const W *a, W *r) { env[0] = 0; RefDynFnMut1_int32_int16_t f = { .env_ptr = env, .call = rf_call }; W v = (W)(int64_t)e_ref_closure(f, (int16_t)a[0]); r[0] = env[0]; return v; }
W c_make_closure(const W *a, W *r) { BoxDynFnMut1_uint32_uint32_t f = e_make_closure((uint32_t)a[0]); r[0] = f.call(f.env_ptr, (uint32_t)a[1]); r[1] = f.call(f.env_ptr, (uint32_t)a[2]); f.free(f.env_ptr); return 0; }
#ifdef __cplusplus
}
#endif
