//! `safer_ffi::layout`: validity of raw values, and the layout of C types, for built-in and derived types.
use crate::{harness, sx::*, util::*};
use core::mem::{align_of, size_of, size_of_val, MaybeUninit};
use core::marker::PhantomData;
use core::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use core::ptr;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use safer_ffi::option::TaggedOption;
use safer_ffi::ptr::{NonNull, NonNullMut, NonNullOwned, NonNullRef};
use safer_ffi::tuple::*;

#[repr(C, align(64))]
pub struct Buf<const N: usize>(pub [u8; N]);
impl<const N: usize> Buf<N> {
    pub fn any(name: &str) -> Self { Buf(any(name)) }
    pub fn u64(&self, at: usize) -> u64 { u64::from_le_bytes(self.0[at..at + 8].try_into().unwrap()) }
    pub fn u32(&self, at: usize) -> u32 { u32::from_le_bytes(self.0[at..at + 4].try_into().unwrap()) }
    pub fn u16(&self, at: usize) -> u16 { u16::from_le_bytes(self.0[at..at + 2].try_into().unwrap()) }
    pub fn i16(&self, at: usize) -> i16 { self.u16(at) as _ }
    pub fn i32(&self, at: usize) -> i32 { self.u32(at) as _ }
    pub fn i64(&self, at: usize) -> i64 { self.u64(at) as _ }
    /// the bytes at `at` are a non-null multiple of `align`
    pub fn reference(&self, at: usize, align: u64) -> bool { let p = self.u64(at); p != 0 && p & (align - 1) == 0 }
}

/// `T`'s validity check on the first bytes of `raw` gives `want`, and so do the conversions that use it.
fn valid<T: ReprC, const N: usize>(raw: &Buf<N>, want: bool, what: &str) {
    let n = size_of::<CLayoutOf<T>>();
    check(n == size_of::<T>() && align_of::<CLayoutOf<T>>() == align_of::<T>(), "size and alignment of the C type");
    check(n <= N, "enough raw bytes");
    let c = || unsafe { ptr::read(raw.0.as_ptr() as *const CLayoutOf<T>) };
    check(T::is_valid(&c()) == want, what);
    let r = unsafe { from_raw::<T>(c()) };
    check(r.is_some() == want, "from_raw accepts exactly the valid values");
    core::mem::forget(r);
    if want {
        let t = unsafe { from_raw_unchecked::<T>(c()) };
        let back = unsafe { into_raw(t) };
        check(T::is_valid(&back), "still valid after the round trip");
    } else if cfg!(debug_assertions) {
        check(catch(|| core::mem::forget(unsafe { from_raw_unchecked::<T>(c()) })).is_none(), "from_raw_unchecked refuses an invalid value (debug)");
    }
}
/// The same, for types without padding: moreover the round trip keeps every bit.
fn exact<T: ReprC, const N: usize>(raw: &Buf<N>, want: bool, what: &str) {
    valid::<T, N>(raw, want, what);
    if want {
        let c = unsafe { ptr::read(raw.0.as_ptr() as *const CLayoutOf<T>) };
        let t = unsafe { from_raw_unchecked::<T>(c) };
        let bits = |p: *const u8| unsafe { core::slice::from_raw_parts(p, size_of::<T>()) };
        check(same(bits(&t as *const T as *const u8), &raw.0[..size_of::<T>()]), "from_raw keeps the bits");
        let back = MaybeUninit::new(unsafe { into_raw(t) });
        check(same(bits(back.as_ptr() as *const u8), &raw.0[..size_of::<T>()]), "into_raw keeps the bits");
    }
}
fn accepts<T: ReprC, const N: usize>(raw: &Buf<N>, want: bool, what: &str) {
    if want { exact::<T, N>(raw, true, what) }
}

//@ prop=R01,R03 bounds="every bit pattern of every integer and float type, bool, c_char, raw pointers, function pointers of 0 to 3 arguments and options of them"
harness!(h_valid_scalars, {
    let raw = Buf::<8>::any("raw");
    let b = raw.0[0];
    match any_len("type", 24) {
        0 => { exact::<bool, 8>(&raw, b == 0 || b == 1, "bool"); cover("bool"); }
        1 => exact::<u8, 8>(&raw, true, "u8"),
        2 => exact::<u16, 8>(&raw, true, "u16"),
        3 => exact::<u32, 8>(&raw, true, "u32"),
        4 => exact::<u64, 8>(&raw, true, "u64"),
        5 => exact::<usize, 8>(&raw, true, "usize"),
        6 => exact::<i8, 8>(&raw, true, "i8"),
        7 => exact::<i16, 8>(&raw, true, "i16"),
        8 => exact::<i32, 8>(&raw, true, "i32"),
        9 => exact::<i64, 8>(&raw, true, "i64"),
        10 => exact::<isize, 8>(&raw, true, "isize"),
        11 => exact::<f32, 8>(&raw, true, "f32"),
        12 => exact::<f64, 8>(&raw, true, "f64"),
        13 => exact::<safer_ffi::c_char, 8>(&raw, true, "c_char"),
        14 => exact::<[u8; 8], 8>(&raw, true, "[u8; 8]"),
        15 => exact::<*const u32, 8>(&raw, true, "*const"),
        16 => exact::<*mut u64, 8>(&raw, true, "*mut"),
        17 => { exact::<extern "C" fn(), 8>(&raw, raw.u64(0) != 0, "fn()"); cover("fn"); }
        18 => exact::<unsafe extern "C" fn(u8) -> u16, 8>(&raw, raw.u64(0) != 0, "unsafe fn(u8)"),
        19 => exact::<extern "C" fn(u8, bool, u64) -> bool, 8>(&raw, raw.u64(0) != 0, "fn(u8, bool, u64)"),
        20 => { exact::<Option<extern "C" fn(u8, bool, u64) -> bool>, 8>(&raw, true, "Option<fn>"); cover("Option<fn>"); }
        21 => exact::<Option<unsafe extern "C" fn()>, 8>(&raw, true, "Option<unsafe fn>"),
        22 => exact::<extern "C" fn(u8, u8, u8, u8, u8, u8, u8, u8, u8) -> u8, 8>(&raw, raw.u64(0) != 0, "fn of 9"),
        23 => exact::<*const bool, 8>(&raw, true, "*const bool"),
        _ => exact::<*mut core::ffi::c_void, 8>(&raw, true, "*mut c_void"),
    }
});

type Rf<T> = &'static T;
type Mt<T> = &'static mut T;
fn pointers<T: ReprC + 'static>(raw: &Buf<8>) {
    let a = align_of::<T>() as u64;
    let ok = raw.reference(0, a);
    let null = raw.u64(0) == 0;
    match any_len("ptrkind", 15) {
        0 => { exact::<Rf<T>, 8>(raw, ok, "&T"); }
        1 => { exact::<Mt<T>, 8>(raw, ok, "&mut T"); }
        2 => { exact::<NonNull<T>, 8>(raw, ok, "NonNull"); }
        3 => { exact::<NonNullRef<T>, 8>(raw, ok, "NonNullRef"); }
        4 => { exact::<NonNullMut<T>, 8>(raw, ok, "NonNullMut"); }
        5 => { exact::<NonNullOwned<T>, 8>(raw, ok, "NonNullOwned"); }
        6 => { exact::<Option<Rf<T>>, 8>(raw, ok || null, "Option<&T>"); }
        7 => { exact::<Option<Mt<T>>, 8>(raw, ok || null, "Option<&mut T>"); }
        8 => { exact::<Option<NonNull<T>>, 8>(raw, ok || null, "Option<NonNull>"); }
        9 => { exact::<Option<NonNullRef<T>>, 8>(raw, ok || null, "Option<NonNullRef>"); }
        10 => { exact::<Option<NonNullMut<T>>, 8>(raw, ok || null, "Option<NonNullMut>"); }
        11 => { exact::<Option<NonNullOwned<T>>, 8>(raw, ok || null, "Option<NonNullOwned>"); }
        12 => { exact::<repr_c::Box<T>, 8>(raw, ok, "Box"); }
        13 => { exact::<Option<repr_c::Box<T>>, 8>(raw, ok || null, "Option<Box>"); }
        14 => { exact::<Out<'static, T>, 8>(raw, ok, "Out"); }
        _ => { exact::<Option<Out<'static, T>>, 8>(raw, ok || null, "Option<Out>"); }
    }
}
//@ prop=R01,R03 bounds="every address, for pointees of alignment 1 to 8, 32 (struct) and each kind of non-null pointer and option of it"
harness!(h_valid_pointers, {
    let raw = Buf::<8>::any("raw");
    match any_len("pointee", 5) {
        0 => pointers::<u8>(&raw),
        1 => { pointers::<u16>(&raw); cover("u16"); }
        2 => pointers::<f32>(&raw),
        3 => { pointers::<u64>(&raw); cover("u64"); }
        4 => pointers::<[u32; 3]>(&raw),
        _ => { pointers::<Mixed>(&raw); cover("struct"); }
    }
});

fn wide<T: ReprC + 'static>(raw: &Buf<24>) {
    let ok = raw.reference(0, align_of::<T>() as u64);
    let null = raw.u64(0) == 0;
    match any_len("slicekind", 8) {
        0 => exact::<c_slice::Ref<'static, T>, 24>(raw, ok, "slice::Ref"),
        1 => exact::<c_slice::Mut<'static, T>, 24>(raw, ok, "slice::Mut"),
        2 => exact::<c_slice::Box<T>, 24>(raw, ok, "slice::Box"),
        3 => { exact::<repr_c::Vec<T>, 24>(raw, ok, "Vec"); cover("Vec"); }
        4 => exact::<c_slice::Raw<T>, 24>(raw, ok, "slice::Raw"),
        5 => exact::<Option<c_slice::Ref<'static, T>>, 24>(raw, ok || null, "Option<slice::Ref>"),
        6 => exact::<Option<c_slice::Mut<'static, T>>, 24>(raw, ok || null, "Option<slice::Mut>"),
        7 => exact::<Option<c_slice::Box<T>>, 24>(raw, ok || null, "Option<slice::Box>"),
        _ => exact::<Option<repr_c::Vec<T>>, 24>(raw, ok || null, "Option<Vec>"),
    }
}
//@ prop=R01,R03 bounds="every bit pattern of slices, boxed slices, vectors, strings, C strings and options of them; elements of alignment 1, 4 and 8"
harness!(h_valid_slices, {
    let raw = Buf::<24>::any("raw");
    let null = raw.u64(0) == 0;
    match any_len("type", 12) {
        0 => wide::<u8>(&raw),
        1 => wide::<u32>(&raw),
        2 => wide::<Pair>(&raw),
        3 => exact::<str::Ref<'static>, 24>(&raw, !null, "str::Ref"),
        4 => exact::<str::Box, 24>(&raw, !null, "str::Box"),
        5 => { exact::<repr_c::String, 24>(&raw, !null, "String"); cover("String"); }
        6 => exact::<char_p::Ref<'static>, 24>(&raw, !null, "char_p::Ref"),
        7 => exact::<char_p::Box, 24>(&raw, !null, "char_p::Box"),
        8 => exact::<Option<char_p::Ref<'static>>, 24>(&raw, true, "Option<char_p::Ref>"),
        9 => exact::<Option<char_p::Box>, 24>(&raw, true, "Option<char_p::Box>"),
        10 => exact::<Option<str::Ref<'static>>, 24>(&raw, true, "Option<str::Ref>"),
        11 => exact::<Option<repr_c::String>, 24>(&raw, true, "Option<String>"),
        _ => exact::<char_p::Raw, 24>(&raw, !null, "char_p::Raw"),
    }
});

//@ prop=R01,R03 bounds="every bit pattern of arrays (1, 2, 3, 7, 32 elements) and of tuples of 1 to 6 fields with bools, references, integers and padding"
harness!(h_valid_aggregates, {
    let raw = Buf::<48>::any("raw");
    let b = |i: usize| raw.0[i] < 2;
    match any_len("type", 13) {
        0 => { exact::<[bool; 3], 48>(&raw, b(0) & b(1) & b(2), "[bool; 3]"); cover("array"); }
        1 => exact::<[u16; 7], 48>(&raw, true, "[u16; 7]"),
        2 => { let mut ok = true; for i in 0..32 { ok &= b(i); } exact::<[bool; 32], 48>(&raw, ok, "[bool; 32]"); cover("long array"); }
        3 => exact::<[Rf<u32>; 2], 48>(&raw, raw.reference(0, 4) & raw.reference(8, 4), "[&u32; 2]"),
        4 => exact::<[bool; 1], 48>(&raw, b(0), "[bool; 1]"),
        5 => exact::<[[bool; 2]; 3], 48>(&raw, b(0) & b(1) & b(2) & b(3) & b(4) & b(5), "[[bool; 2]; 3]"),
        6 => exact::<Tuple1<bool>, 48>(&raw, b(0), "Tuple1"),
        7 => valid::<Tuple2<u64, bool>, 48>(&raw, b(8), "Tuple2"),
        8 => valid::<Tuple2<bool, u64>, 48>(&raw, b(0), "Tuple2, padded"),
        9 => valid::<Tuple3<bool, u32, bool>, 48>(&raw, b(0) & b(8), "Tuple3"),
        10 => { valid::<Tuple4<bool, Rf<u16>, bool, u16>, 48>(&raw, b(0) & raw.reference(8, 2) & b(16), "Tuple4"); cover("Tuple4"); }
        11 => valid::<Tuple5<bool, bool, bool, bool, bool>, 48>(&raw, b(0) & b(1) & b(2) & b(3) & b(4), "Tuple5"),
        12 => valid::<Tuple6<bool, u16, bool, u32, bool, Option<Rf<u64>>>, 48>(&raw, b(0) & b(4) & b(12) & (raw.u64(16) & 7 == 0), "Tuple6"),
        _ => valid::<Tuple2<Tuple2<bool, u8>, TaggedOption<bool>>, 48>(&raw, b(0) & (raw.0[2] == 0 || raw.0[2] == 1 && b(3)), "nested tuple"),
    }
});

#[derive_ReprC] #[repr(C)] pub struct Many { pub f0: bool, pub f1: bool, pub f2: bool, pub f3: bool, pub f4: bool, pub f5: bool, pub f6: bool, pub f7: bool, pub f8: bool, pub f9: bool, pub f10: bool, pub f11: bool, pub f12: bool, pub f13: bool, pub f14: bool, pub f15: bool, pub f16: bool, pub f17: bool, pub f18: bool, pub f19: bool, pub f20: bool, pub f21: bool, pub f22: bool, pub f23: bool, pub f24: bool, pub f25: bool, pub f26: bool, pub f27: bool, pub f28: bool, pub f29: bool, pub f30: bool, pub f31: bool, pub f32: bool, pub f33: bool, pub f34: bool, pub f35: bool, pub f36: bool, pub f37: bool, pub f38: bool, pub f39: bool }
#[allow(dead_code)] #[derive_ReprC] #[repr(u16)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Lots { V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11, V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23, V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35, V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47, V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59, V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71, V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83, V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95, V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107, V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119, V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131, V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143, V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155, V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167, V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179, V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191, V192, V193, V194, V195, V196, V197, V198, V199, V200 = 700, V201, V202, V203, V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215, V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227, V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239, V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251, V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263, V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275, V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287, V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299 }
/// `N` zeros, but for an arbitrary byte at one place.
fn one_off<const N: usize>(at: usize) -> (Buf<N>, bool) {
    let x: u8 = any("x");
    let mut b = Buf([0u8; N]);
    b.0[at] = x;
    (b, x < 2)
}
fn large_array<T: ReprC, const N: usize>() {
    let at = [0, 1, N / 2 - 1, N / 2, N - 2, N - 1][any_len("at", 5)];
    let (b, ok) = one_off::<N>(at);
    valid::<T, N>(&b, ok, "a large array");
}
//@ prop=R01,R02,R03 bounds="arrays of 48 to 1024 booleans, a struct of 40 booleans, with any byte anywhere (arrays: at the ends and in the middle); an enumeration of 300 variants with a gap, every tag" time=400
harness!(h_valid_large, {
    match any_len("type", 9) {
        0 => large_array::<[bool; 48], 48>(),
        1 => large_array::<[bool; 64], 64>(),
        2 => large_array::<[bool; 100], 100>(),
        3 => large_array::<[bool; 128], 128>(),
        4 => large_array::<[bool; 256], 256>(),
        5 => { large_array::<[bool; 300], 300>(); cover("more than 256"); }
        6 => large_array::<[bool; 1024], 1024>(),
        7 => { let (b, ok) = one_off::<40>(any_len("field", 39)); exact::<Many, 40>(&b, ok, "a struct of many fields"); cover("many fields"); }
        8 => large_array::<[[bool; 32]; 32], 1024>(),
        _ => {
            let b = Buf::<2>::any("tag");
            let raw = b.u16(0);
            exact::<Lots, 2>(&b, (raw < 200) | (700..=799).contains(&raw), "an enumeration of many variants");
            cover("many variants");
        }
    }
});
// ---- stabby's types
mod st {
    pub use safer_ffi::stabby::Stabbied;
    pub use stabby::abi::{vtable::{VTable, VtDrop, VtSend, VtSync}, DynRef, StableIf, StableLike};
    pub use stabby::boxed::{Box, BoxedSlice, BoxedStr};
    pub use stabby::sync::{Arc, ArcSlice, ArcStr, Weak, WeakSlice, WeakStr};
}
fn stabby_pointers<T: ReprC + stabby::IStable>(raw: &Buf<16>)
where
    st::Box<T>: ReprC, Option<st::Box<T>>: ReprC, st::BoxedSlice<T>: ReprC, st::Arc<T>: ReprC, Option<st::Arc<T>>: ReprC, st::ArcSlice<T>: ReprC, st::Weak<T>: ReprC, Option<st::Weak<T>>: ReprC, st::WeakSlice<T>: ReprC,
{
    let a = align_of::<T>() as u64;
    let (p, q) = (raw.reference(0, a), raw.reference(8, a));
    let null = raw.u64(0) == 0;
    match any_len("kind", 8) {
        0 => exact::<st::Box<T>, 16>(raw, p, "stabby's Box"),
        1 => exact::<st::BoxedSlice<T>, 16>(raw, p && q, "stabby's BoxedSlice"),
        2 => exact::<st::Arc<T>, 16>(raw, p, "stabby's Arc"),
        3 => exact::<st::ArcSlice<T>, 16>(raw, p && q, "stabby's ArcSlice"),
        4 => exact::<st::Weak<T>, 16>(raw, p, "stabby's Weak"),
        5 => exact::<st::WeakSlice<T>, 16>(raw, p && q, "stabby's WeakSlice"),
        6 => exact::<Option<st::Box<T>>, 16>(raw, p || null, "an option of stabby's Box"),
        7 => exact::<Option<st::Arc<T>>, 16>(raw, p || null, "an option of stabby's Arc"),
        _ => exact::<Option<st::Weak<T>>, 16>(raw, p || null, "an option of stabby's Weak"),
    }
}
//@ prop=R01,R03 bounds="every bit pattern of stabby's owning pointers, weak ones, slices and strings, options of them, virtual tables and references to trait objects, and of stable types in the wrapper; pointees of alignment 1, 2 and 8"
harness!(h_valid_stabby, {
    use st::*;
    let raw = Buf::<32>::any("raw");
    let ptrs = || Buf::<16>(raw.0[..16].try_into().unwrap());
    let b = raw.0[0] < 2;
    let nn = |at| raw.u64(at) != 0;
    match any_len("type", 21) {
        0 => { stabby_pointers::<u8>(&ptrs()); cover("pointers"); }
        1 => stabby_pointers::<u16>(&ptrs()),
        2 => stabby_pointers::<u64>(&ptrs()),
        3 => stabby_pointers::<bool>(&ptrs()),
        4 => exact::<BoxedStr, 32>(&raw, nn(0) && nn(8), "BoxedStr"),
        5 => exact::<ArcStr, 32>(&raw, nn(0) && nn(8), "ArcStr"),
        6 => exact::<WeakStr, 32>(&raw, nn(0) && nn(8), "WeakStr"),
        7 => exact::<VtDrop, 32>(&raw, nn(0), "VtDrop"),
        8 => { exact::<VTable<VtDrop, VtDrop>, 32>(&raw, nn(0) && nn(8), "VTable"); cover("tables"); }
        9 => exact::<VTable<VtDrop, VTable<VtDrop, VtSend<VtDrop>>>, 32>(&raw, nn(0) && nn(8) && nn(16), "nested VTable"),
        20 => exact::<VTable<bool, u8>, 32>(&raw, raw.0[1] < 2, "VTable: the tail first"),
        21 => exact::<VTable<u32, VTable<bool, [u8; 3]>>, 32>(&raw, raw.0[3] < 2, "VTable: the tails first"),
        10 => exact::<VtSync<VtSend<VtDrop>>, 32>(&raw, nn(0), "VtSync, VtSend"),
        11 => exact::<DynRef<'static, VtDrop>, 32>(&raw, nn(0) && raw.reference(8, 8), "DynRef"),
        12 => exact::<DynRef<'static, VTable<VtDrop, VtSend<VtDrop>>>, 32>(&raw, nn(0) && raw.reference(8, 8), "DynRef of several traits"),
        13 => exact::<StableLike<bool, u8>, 32>(&raw, b, "StableLike"),
        14 => exact::<StableIf<bool, stabby::abi::B1>, 32>(&raw, b, "StableIf"),
        15 => { exact::<Stabbied<bool>, 32>(&raw, b, "a stable bool"); cover("wrapper"); }
        16 => exact::<Stabbied<u32>, 32>(&raw, true, "a stable integer"),
        // stabby-abi's own `is_invalid` never rejects a forbidden array of bytes (it ends with `false`), and promises no more.
        17 => accepts::<Stabbied<core::num::NonZeroU16>, 32>(&raw, raw.u16(0) != 0, "a stable non-zero integer"),
        18 => accepts::<Stabbied<&'static u8>, 32>(&raw, nn(0), "a stable reference"),
        19 => exact::<Option<Stabbied<&'static u8>>, 32>(&raw, true, "an option of a stable reference"),
        _ => exact::<stabby::abi::Dyn<'static, Box<()>, VtDrop>, 32>(&raw, nn(0) && raw.reference(8, 8), "Dyn"),
    }
});

#[derive_ReprC] #[repr(C)] pub struct Mixed { pub a: bool, pub b: u16, pub c: Rf<u32>, pub d: u8, pub e: bool, pub f: [bool; 2], pub g: i64 }
#[derive_ReprC] #[repr(C)] pub struct Inner { pub x: bool, pub y: i32 }
#[derive_ReprC] #[repr(C)] pub struct Nested { pub n: u8, pub i: Inner, pub j: [Inner; 2], pub o: Option<Rf<u64>>, pub t: TaggedOption<bool> }
#[derive_ReprC] #[repr(C)] pub struct Zst<'a> { pub p: PhantomData<&'a u8>, pub x: bool, pub q: PhantomData<u64>, pub y: bool }
#[derive_ReprC] #[repr(C)] pub struct Gen<'a, T: 'a + ReprC, U> where U: ReprC { pub t: T, pub u: [U; 2], pub r: &'a T }
#[derive_ReprC] #[repr(transparent)] pub struct Wrap<T: ReprC>(pub T);
#[derive_ReprC] #[repr(transparent)] pub struct WrapNamed { pub b: bool }
#[derive_ReprC] #[repr(transparent)] pub struct WrapMarked<T: ReprC>(pub T, pub PhantomData<fn(T)>);
#[derive_ReprC] #[repr(transparent)] pub struct MarkedFirst<T: ReprC>(pub PhantomData<fn(T)>, pub T);
#[derive_ReprC] #[repr(transparent)] pub struct MarkedRef<'a>(pub PhantomData<u8>, pub &'a u16);
#[derive_ReprC] #[repr(transparent)] pub struct MarkedArray(pub PhantomData<u8>, pub [bool; 2]);
#[derive_ReprC] #[repr(transparent)] pub struct MarkedFn(pub PhantomData<u8>, pub extern "C" fn(u8));
#[derive_ReprC] #[repr(transparent)] pub struct UnitFirst(pub (), pub bool);
#[derive_ReprC(rename = "renamed_bool")] #[repr(transparent)] pub struct Renamed(pub bool);
#[derive_ReprC] #[repr(C)] pub struct Callbacks { pub f: extern "C" fn(u8) -> bool, pub g: Option<extern "C" fn(bool)>, pub last: bool }
#[derive_ReprC] #[repr(C)] pub struct Enums { pub a: E8, pub b: bool, pub c: Ei32 }
#[allow(non_snake_case)] #[derive_ReprC] #[repr(C)] pub struct Names { pub _unused: bool, pub r#type: bool, pub __reserved: bool, pub Camel: E8, pub __: bool, pub self_: bool, #[doc(hidden)] pub é: bool, pub value: bool, pub it: bool, pub ret: bool }
#[derive_ReprC] #[repr(C)] pub struct One { pub only: bool }
#[derive_ReprC] #[repr(C)] pub struct Last { pub a: u64, pub b: u32, pub z: bool }
#[derive_ReprC] #[repr(C)] pub struct Bools { pub a: bool, pub b: bool, pub c: bool, pub d: bool, pub e: bool, pub f: bool, pub g: bool, pub h: bool, pub i: bool }
ReprC! { #[repr(C)] pub struct Legacy[T] where { T: ReprC, } { pub a: T, pub b: bool, } }
ReprC! { #[repr(transparent)] pub struct LegacyT(bool); }

#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum E8 { A, B, C }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum E8x { A = 3, B, C = 0x80, D, E = 255, F = 1 }
#[derive_ReprC] #[repr(i8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Ei8 { Min = -128, N = -1, Z, P, Max = 127 }
#[derive_ReprC] #[repr(u16)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum E16 { A = 0xff, B, C = 0xffff }
#[derive_ReprC] #[repr(i16)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Ei16 { A = -32768, B, C = -256, D = 255 }
#[derive_ReprC] #[repr(u32)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum E32 { A = 0x8000_0000, B = 0xffff_ffff, C = 1 << 4 }
#[derive_ReprC] #[repr(i32)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Ei32 { A = i32::MIN, B = -2, C, D, E = i32::MAX }
#[derive_ReprC] #[repr(u64)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum E64 { A = 0xffff_ffff, B, C = u64::MAX }
#[derive_ReprC] #[repr(i64)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Ei64 { A = i64::MIN, B, C = -1 }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Ec { A = 5, B = -3, C }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, PartialEq, Debug)] pub enum Single { Only = 9 }

//@ prop=R02,R03 bounds="every discriminant value, for enums of every supported representation (u8 to u64, i8 to i64, C) with explicit, implicit, negative, extreme and out-of-order discriminants"
harness!(h_valid_enums, {
    let raw = Buf::<8>::any("raw");
    let b = raw.0[0];
    match any_len("type", 10) {
        0 => { exact::<E8, 8>(&raw, b < 3, "enum u8"); cover("u8"); }
        1 => exact::<E8x, 8>(&raw, matches!(b, 1 | 3 | 4 | 0x80 | 0x81 | 255), "enum u8, explicit"),
        2 => { exact::<Ei8, 8>(&raw, matches!(b as i8, -128 | -1 | 0 | 1 | 127), "enum i8"); cover("i8"); }
        3 => exact::<E16, 8>(&raw, matches!(raw.u16(0), 0xff | 0x100 | 0xffff), "enum u16"),
        4 => exact::<Ei16, 8>(&raw, matches!(raw.i16(0), -32768 | -32767 | -256 | 255), "enum i16"),
        5 => exact::<E32, 8>(&raw, matches!(raw.u32(0), 0x8000_0000 | 0xffff_ffff | 16), "enum u32"),
        6 => exact::<Ei32, 8>(&raw, matches!(raw.i32(0), i32::MIN | -2 | -1 | 0 | i32::MAX), "enum i32"),
        7 => exact::<E64, 8>(&raw, matches!(raw.u64(0), 0xffff_ffff | 0x1_0000_0000 | u64::MAX), "enum u64"),
        8 => { exact::<Ei64, 8>(&raw, matches!(raw.i64(0), i64::MIN | -0x7fff_ffff_ffff_ffff | -1), "enum i64"); cover("i64"); }
        9 => { exact::<Ec, 8>(&raw, matches!(raw.i32(0), 5 | -3 | -2), "enum C"); cover("C"); }
        _ => exact::<Single, 8>(&raw, b == 9, "enum of one variant"),
    }
});

//@ prop=R02,R03 bounds="every bit pattern of derived structs: named, nested, generic, transparent, with arrays, options, phantom fields, function pointers, enums, nine fields, unusual names of fields"
harness!(h_valid_structs, {
    let raw = Buf::<64>::any("raw");
    let b = |i: usize| raw.0[i] < 2;
    match any_len("type", 23) {
        0 => { valid::<Mixed, 64>(&raw, b(0) & raw.reference(8, 4) & b(17) & b(18) & b(19), "mixed fields"); cover("mixed"); }
        1 => valid::<Inner, 64>(&raw, b(0), "small struct"),
        2 => { valid::<Nested, 64>(&raw, b(4) & b(12) & b(20) & (raw.u64(32) & 7 == 0) & (raw.0[40] == 0 || raw.0[40] == 1 && b(41)), "nested struct"); cover("nested"); }
        3 => valid::<Zst<'static>, 64>(&raw, b(0) & b(1), "phantom fields"),
        4 => valid::<Gen<'static, bool, E8>, 64>(&raw, b(0) & (raw.0[1] < 3) & (raw.0[2] < 3) & (raw.u64(8) != 0), "generic struct"),
        5 => valid::<Gen<'static, u32, bool>, 64>(&raw, b(4) & b(5) & raw.reference(8, 4), "generic struct, other types"),
        6 => { exact::<Wrap<bool>, 64>(&raw, b(0), "transparent"); cover("transparent"); }
        7 => exact::<Wrap<Rf<u16>>, 64>(&raw, raw.reference(0, 2), "transparent reference"),
        8 => exact::<WrapNamed, 64>(&raw, b(0), "transparent, named field"),
        9 => exact::<WrapMarked<bool>, 64>(&raw, b(0), "transparent with a marker"),
        10 => valid::<Callbacks, 64>(&raw, (raw.u64(0) != 0) & b(16), "function pointers"),
        11 => valid::<Enums, 64>(&raw, (raw.0[0] < 3) & b(1) & matches!(raw.i32(4), i32::MIN | -2 | -1 | 0 | i32::MAX), "enums in a struct"),
        12 => exact::<One, 64>(&raw, b(0), "one field"),
        13 => valid::<Last, 64>(&raw, b(12), "invalid last field"),
        14 => { let mut ok = true; for i in 0..9 { ok &= b(i); } exact::<Bools, 64>(&raw, ok, "nine fields"); cover("nine"); }
        16 => exact::<Renamed, 64>(&raw, b(0), "transparent, renamed"),
        17 => exact::<MarkedFirst<bool>, 64>(&raw, b(0), "transparent, marker first"),
        18 => exact::<UnitFirst, 64>(&raw, b(0), "transparent, unit first"),
        19 => { let mut ok = raw.0[3] < 3; for i in 0..10 { ok &= i == 3 || b(i); } exact::<Names, 64>(&raw, ok, "unusual field names"); cover("names"); }
        20 => exact::<MarkedRef<'static>, 64>(&raw, raw.reference(0, 2), "transparent reference, marker first"),
        21 => exact::<MarkedArray, 64>(&raw, b(0) & b(1), "transparent array, marker first"),
        22 => exact::<MarkedFn, 64>(&raw, raw.u64(0) != 0, "transparent function pointer, marker first"),
        15 => valid::<Legacy<bool>, 64>(&raw, b(0) & b(1), "ReprC! struct"),
        _ => exact::<LegacyT, 64>(&raw, b(0), "ReprC! transparent"),
    }
});

macro_rules! fields {
    ($v:expr, $T:ty { $($f:ident),* }) => {{
        let v: $T = $v;
        let offs = [$( (&v.$f as *const _ as usize) - (&v as *const _ as usize) ),*];
        let c: CLayoutOf<$T> = unsafe { into_raw(v) };
        let offs_c = [$( (&c.$f as *const _ as usize) - (&c as *const _ as usize) ),*];
        check(offs == offs_c, concat!("field offsets of ", stringify!($T)));
        check(size_of::<$T>() == size_of::<CLayoutOf<$T>>() && align_of::<$T>() == align_of::<CLayoutOf<$T>>(), concat!("size and alignment of ", stringify!($T)));
        c
    }};
}
extern "C" fn cb_f(x: u8) -> bool { x & 1 != 0 }

//@ prop=R03 bounds="derived structs and tuples with symbolic field values: every value; field offsets, into_raw, from_raw"
harness!(h_layout_fields, {
    static R: u32 = 5;
    static Q: u64 = 6;
    let (x, y, z, w): (u64, u32, u16, u8) = (any("x"), any("y"), any("z"), any("w"));
    let (p, q) = (any_bool("p"), any_bool("q"));
    match any_len("type", 9) {
        0 => {
            let c = fields!(Mixed { a: p, b: z, c: &R, d: w, e: q, f: [q, p], g: x as i64 }, Mixed { a, b, c, d, e, f, g });
            check(c.b == z && c.d == w && c.g == x as i64 && c.c as *const u32 == &R as *const u32, "plain fields in C form");
            let m = unsafe { from_raw::<Mixed>(c) };
            check(m.is_some(), "accepted back");
            let m = m.unwrap();
            check(m.a == p && m.b == z && ptr::eq(m.c, &R) && m.d == w && m.e == q && m.f[0] == q && m.f[1] == p && m.g == x as i64, "the same value after the round trip");
            cover("mixed");
        }
        1 => {
            let c = fields!(Nested { n: w, i: Inner { x: p, y: y as i32 }, j: [Inner { x: q, y: z as i32 }, Inner { x: p, y: !y as i32 }], o: if q { Some(&Q) } else { None }, t: if p { TaggedOption::Some(q) } else { TaggedOption::None } }, Nested { n, i, j, o, t });
            check(c.n == w && c.i.y == y as i32 && c.j[0].y == z as i32 && c.j[1].y == !y as i32, "nested fields in C form");
            check(c.o as usize == if q { &Q as *const u64 as usize } else { 0 }, "option of a reference is a nullable pointer");
            let m = unsafe { from_raw::<Nested>(c) }.unwrap();
            check(m.n == w && m.i.x == p && m.i.y == y as i32 && m.j[0].x == q && m.j[1].x == p && m.j[1].y == !y as i32 && m.o.is_some() == q && m.t.into_rust() == if p { Some(q) } else { None }, "nested round trip");
            cover("nested");
        }
        2 => {
            let c = fields!(Gen { t: y, u: [z, !z], r: &R }, Gen<'_, u32, u16> { t, u, r });
            check(c.t == y && c.u[0] == z && c.u[1] == !z && c.r as *const u32 == &R as *const u32, "generic fields in C form");
            let m = unsafe { from_raw::<Gen<'_, u32, u16>>(c) }.unwrap();
            check(m.t == y && m.u == [z, !z] && ptr::eq(m.r, &R), "generic round trip");
        }
        3 => {
            let c = fields!(Gen { t: Inner { x: p, y: y as i32 }, u: [Ei8::Min, Ei8::P], r: unsafe { &*(&Q as *const u64 as *const Inner) } }, Gen<'_, Inner, Ei8> { t, u, r });
            check(c.t.y == y as i32 && c.u[0].discriminant == -128 && c.u[1].discriminant == 1, "generic over derived types");
            let m = unsafe { from_raw::<Gen<'_, Inner, Ei8>>(c) }.unwrap();
            check(m.t.x == p && m.t.y == y as i32 && m.u[0] == Ei8::Min && m.u[1] == Ei8::P, "generic round trip");
        }
        4 => {
            let c = fields!(Callbacks { f: cb_f, g: None, last: q }, Callbacks { f, g, last });
            check(c.g.is_none() && c.f.map(|f| f as usize) == Some(cb_f as usize), "function pointers in C form");
            let m = unsafe { from_raw::<Callbacks>(c) }.unwrap();
            check((m.f)(w) == (w & 1 != 0) && m.last == q && m.g.is_none(), "callback round trip");
        }
        5 => {
            let c = fields!(Enums { a: E8::C, b: p, c: Ei32::B }, Enums { a, b, c });
            check(c.a.discriminant == 2 && c.c.discriminant == -2, "enum fields in C form");
            let m = unsafe { from_raw::<Enums>(c) }.unwrap();
            check(m.a == E8::C && m.b == p && m.c == Ei32::B, "enum round trip");
        }
        6 => {
            let c = fields!(Tuple6 { _0: w, _1: x, _2: z, _3: y, _4: p, _5: [z, z] }, Tuple6<u8, u64, u16, u32, bool, [u16; 2]> { _0, _1, _2, _3, _4, _5 });
            check(c._0 == w && c._1 == x && c._2 == z && c._3 == y && c._5 == [z, z], "tuple in C form");
            let m = unsafe { from_raw::<Tuple6<u8, u64, u16, u32, bool, [u16; 2]>>(c) }.unwrap();
            check(m._0 == w && m._1 == x && m._2 == z && m._3 == y && m._4 == p && m._5 == [z, z], "tuple round trip");
            cover("tuple");
        }
        7 => {
            let v = Bools { a: p, b: q, c: p, d: q, e: p, f: q, g: !p, h: !q, i: p };
            let c = fields!(v, Bools { a, b, c, d, e, f, g, h, i });
            let m = unsafe { from_raw::<Bools>(c) }.unwrap();
            check(m.a == p && m.b == q && m.c == p && m.d == q && m.e == p && m.f == q && m.g == !p && m.h == !q && m.i == p, "bools round trip");
        }
        8 => {
            let c = fields!(Zst { p: PhantomData, x: p, q: PhantomData, y: q }, Zst<'_> { p, x, q, y });
            let m = unsafe { from_raw::<Zst<'_>>(c) }.unwrap();
            check(m.x == p && m.y == q, "phantom round trip");
        }
        _ => {
            let c = fields!(Legacy { a: Inner { x: q, y: y as i32 }, b: p }, Legacy<Inner> { a, b });
            check(c.a.y == y as i32, "ReprC! in C form");
            let m = unsafe { from_raw::<Legacy<Inner>>(c) }.unwrap();
            check(m.a.x == q && m.a.y == y as i32 && m.b == p, "ReprC! round trip");
        }
    }
});

// What a C layout says of a value, and the value back.
fn through<T: ReprC>(t: T, see: impl FnOnce(&CLayoutOf<T>)) -> T {
    let c = unsafe { into_raw(t) };
    check(T::is_valid(&c), "a value is valid");
    see(&c);
    unsafe { from_raw::<T>(c) }.unwrap()
}
//@ prop=R01,R03 bounds="stabby's Box, Arc, Weak, boxed and shared slices of 0..=3 elements, strings, trait objects: real values of every content, through their C layouts and back"
harness!(h_stabby_values, {
    use st::*;
    let before = live();
    let x: [u32; 3] = any("x");
    let n = any_len("n", 3);
    macro_rules! span { ($c:expr, $p:expr) => {{
        let c: [usize; 2] = unsafe { core::mem::transmute_copy($c) };
        check(size_of_val($c) == 16 && c[0] == $p as usize && c[1] == $p as usize + 4 * n, "first the start, then the end");
    }}}
    macro_rules! at { ($c:expr, $p:expr) => {{
        let c: usize = unsafe { core::mem::transmute_copy($c) };
        check(size_of_val($c) == 8 && c == $p as usize, "a pointer to the value");
    }}}
    match any_len("kind", 8) {
        0 => { let b = Box::new(x[0]); let p = &*b as *const u32; let b = through(b, |c| at!(c, p)); check(*b == x[0], "Box"); }
        1 => { let b = Arc::new(x[0]); let p = &*b as *const u32; let b = through(b, |c| at!(c, p)); check(*b == x[0], "Arc"); cover("shared"); }
        2 => {
            let b = Arc::new(x[0]);
            let w = through(Weak::from(&b), |c| at!(c, &*b as *const u32));
            check(w.upgrade().unwrap() .cmp(&b).is_eq(), "Weak");
        }
        3 => {
            let b = <BoxedSlice<u32>>::from(&x[..n]);
            let p = b.as_ptr();
            let b = through(b, |c| span!(c, p));
            check(*b == x[..n], "BoxedSlice");
            if n == 0 { cover("empty"); }
        }
        4 => {
            let b = <ArcSlice<u32>>::from(&x[..n]);
            let p = b.as_ptr();
            let w = through(WeakSlice::from(&b), |c| span!(c, p));
            let b = through(b, |c| span!(c, p));
            check(*b == x[..n] && *w.upgrade().unwrap() == x[..n], "ArcSlice and WeakSlice");
        }
        5 => {
            let b = through(<ArcStr>::from(<stabby::string::String>::from("abc")), |c| { let c: [usize; 2] = unsafe { core::mem::transmute_copy(c) }; check(c[1] - c[0] == 3, "three bytes") });
            check(&*b == "abc", "ArcStr");
            let b = through(<BoxedStr>::from(<stabby::string::String>::from("abcd")), |c| { let c: [usize; 2] = unsafe { core::mem::transmute_copy(c) }; check(c[1] - c[0] == 4, "four bytes") });
            check(&*b == "abcd", "BoxedStr");
        }
        6 => {
            let b = (any_len("some", 1) == 1).then(|| Box::new(x[0]));
            let (p, some) = (b.as_deref().map_or(core::ptr::null(), |p| p as *const u32), b.is_some());
            let b = through(b, |c| at!(c, p));
            check(b.is_some() == some && b.map_or(true, |b| *b == x[0]), "an option of a Box");
        }
        7 => {
            let b = (any_len("some", 1) == 1).then(|| Arc::new(x[0]));
            let (p, some) = (b.as_deref().map_or(core::ptr::null(), |p| p as *const u32), b.is_some());
            let b = through(b, |c| at!(c, p));
            check(b.is_some() == some && b.map_or(true, |b| *b == x[0]), "an option of an Arc");
        }
        _ => {
            static GONE: AtomicUsize = AtomicUsize::new(0);
            #[stabby::stabby] pub struct Dropped(u32);
            impl Drop for Dropped { fn drop(&mut self) { GONE.fetch_add(1, Relaxed); } }
            let b = Box::new(Dropped(x[0]));
            let p = &*b as *const Dropped;
            let d = stabby::abi::Dyn::<'static, Box<()>, VtDrop>::from(b);
            let d = through(d, |c| {
                check(size_of_val(c) == 16, "two pointers");
                let c: [usize; 2] = unsafe { core::mem::transmute_copy(c) };
                check(c[0] == p as usize, "the data first");
                let drop_in_place: unsafe extern "C" fn(*mut ()) = unsafe { *(c[1] as *const _) };
                let mut other = core::mem::ManuallyDrop::new(Dropped(x[1]));
                unsafe { drop_in_place(&mut *other as *mut Dropped as *mut ()) };
                check(GONE.load(Relaxed) == 1, "the table drops");
            });
            let r = through(d.as_ref(), |c| at2(c, p as usize));
            check(r.ptr() as *const () as usize == p as usize, "DynRef");
            check(GONE.load(Relaxed) == 1, "not dropped yet");
            drop(d);
            check(GONE.load(Relaxed) == 2, "dropped once");
            cover("trait objects");
        }
    }
    check(live() == before, "no leak");
});
fn at2<C>(c: &C, p: usize) {
    let c: [usize; 2] = unsafe { core::mem::transmute_copy(c) };
    check(size_of::<C>() == 16 && c[0] == p && c[1] != 0, "the data, then the table");
}
