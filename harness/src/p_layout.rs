//! L01: `is_valid` / `from_raw` against an independent predicate over the bytes.
//! L03: tagged options, options of pointers, tuples, out-pointers and pointer wrappers.

use crate::engine::*;
use crate::{check, check_eq};
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
use safer_ffi::tuple::*;
use std::marker::PhantomData;
use std::mem::{align_of, size_of, ManuallyDrop, MaybeUninit};
use std::ptr::NonNull;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

// ------------------------------------------------------------ the specification

/// What the bytes of a legal value are.
trait Spec: Sized {
    /// Fills `b` with a value, each leaf being illegal with probability 1/`bad`.
    fn gen(g: &mut Gen, bad: u64, b: &mut [u8]);
    fn ok(b: &[u8]) -> bool;
    /// Marks the bytes that carry the (legal) value.
    fn sig(b: &[u8], m: &mut [bool]);
}

fn uint(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |x, &y| x << 8 | y as u64)
}
fn put(b: &mut [u8], v: u64) {
    let n = b.len();
    b.copy_from_slice(&v.to_le_bytes()[..n]);
}

macro_rules! ints { ($($T:ty)*) => { $(impl Spec for $T {
    fn gen(g: &mut Gen, _: u64, b: &mut [u8]) { put(b, g.int()) }
    fn ok(_: &[u8]) -> bool { true }
    fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
})* } }
ints!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize f32 f64 *const u8 *mut u64);
use safer_ffi::c_char;

ints!(c_char);

impl Spec for bool {
    fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
        b[0] = if g.chance(1, bad) { *g.pick(&[2, 3, 255, 128, 254, 4]) } else { g.below(2) as u8 }
    }
    fn ok(b: &[u8]) -> bool {
        b[0] < 2
    }
    fn sig(_: &[u8], m: &mut [bool]) {
        m.fill(true)
    }
}

macro_rules! enums { ($($(#[$m:meta])* $Name:ident : $Int:ident { $($V:ident $(= $d:expr)?),* } = [$($val:expr),*];)*) => { $(
    #[derive_ReprC]
    #[repr($Int)]
    #[allow(dead_code)]
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum $Name { $($V $(= $d)?),* }
    impl $Name {
        const VALS: &'static [i128] = &[$($val),*];
        fn bits(v: i128) -> u64 { v as u64 & (!0u64 >> (64 - 8 * size_of::<$Name>())) }
    }
    impl Spec for $Name {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
            let v = if g.chance(1, bad) {
                if g.bool() { g.u64() } else { (*g.pick(Self::VALS) as u64).wrapping_add(*g.pick(&[1, !0, 256, 1 << 31, 1 << 32])) }
            } else { *g.pick(Self::VALS) as u64 };
            put(b, v)
        }
        fn ok(b: &[u8]) -> bool { Self::VALS.iter().any(|&v| Self::bits(v) == uint(b)) }
        fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
    }
)* } }
enums! {
    EU8: u8 { A, B, C = 7, D, E = 255 } = [0, 1, 7, 8, 255];
    EI8: i8 { A = -128, B, C = 0, D = 127, E = -1 } = [-128, -127, 0, 127, -1];
    EOne: u8 { Only = 5 } = [5];
    EZero: u16 { Z } = [0];
    EU16: u16 { A = 256, B = 0xFFFF, C = 1 } = [256, 0xFFFF, 1];
    EI16: i16 { A = -32768, B = -2, C, D } = [-32768, -2, -1, 0];
    EU32: u32 { A = 0xFFFF_FFFF, B = 0x8000_0000, C = 3 } = [0xFFFF_FFFF, 0x8000_0000, 3];
    EI32: i32 { A = -0x8000_0000, B = 0x7FFF_FFFF, C = -5, D } = [-0x8000_0000, 0x7FFF_FFFF, -5, -4];
    EU64: u64 { A = 0xFFFF_FFFF_FFFF_FFFF, B = 0x1_0000_0000, C = 0 } = [0xFFFF_FFFF_FFFF_FFFF, 0x1_0000_0000, 0];
    EI64: i64 { A = -0x8000_0000_0000_0000, B = 0x7FFF_FFFF_FFFF_FFFF, C = -1 } = [-0x8000_0000_0000_0000, 0x7FFF_FFFF_FFFF_FFFF, -1];
    EDense: u8 { A = 3, B, C, D, E, F = 1, G } = [3, 4, 5, 6, 7, 1, 2];
    EC: C { A, B, C = 1000, D = -3 } = [0, 1, 1000, -3];
}

fn gen_ptr(g: &mut Gen, bad: u64, align: usize, b: &mut [u8]) {
    let a = align as u64;
    let v = if g.chance(1, bad) {
        match g.below(3) {
            0 => 0,
            1 => (g.below(1 << 40) * a).wrapping_add(g.below(a)),
            _ => g.u64(),
        }
    } else {
        match g.below(3) {
            0 => (1 + g.below(1 << 30)) * a,
            1 => a,
            _ => 0u64.wrapping_sub(a * (1 + g.below(8))),
        }
    };
    put(b, v)
}
fn ptr_ok(align: usize, b: &[u8]) -> bool {
    let v = uint(&b[..8]);
    v != 0 && v % align as u64 == 0
}
macro_rules! pointers { ($([$($gen:tt)*] $T:ty => $P:ty;)*) => { $(
    impl<$($gen)*> Spec for $T {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) { gen_ptr(g, bad, align_of::<$P>(), b) }
        fn ok(b: &[u8]) -> bool { ptr_ok(align_of::<$P>(), b) }
        fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
    }
    impl<$($gen)*> Null for $T {}
)* } }
/// Types with the null niche, in their first word.
trait Null: Spec {}
pointers! {
    [T: ReprC] &'static T => T;
    [T: ReprC] &'static mut T => T;
    [T: ReprC] NonNull<T> => T;
    [T: ReprC] NonNullRef<T> => T;
    [T: ReprC] NonNullMut<T> => T;
    [T: ReprC] NonNullOwned<T> => T;
    [T: ReprC] safer_ffi::boxed::Box_<T> => T;
    [T: ReprC] Out<'static, T> => T;
    [] char_p::Ref<'static> => u8;
    [] char_p::Box => u8;
    [] char_p::Raw => u8;
}
macro_rules! fns { ($($T:ty),*) => { $(
    impl Spec for $T {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) { gen_ptr(g, bad, 1, b) }
        fn ok(b: &[u8]) -> bool { uint(b) != 0 }
        fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
    }
    impl Null for $T {}
)* } }
fns!(extern "C" fn(), unsafe extern "C" fn(u8) -> i32, extern "C" fn(u8, f64, bool, EU8) -> bool);
/// {pointer, sizes...}
macro_rules! fat { ($([$($gen:tt)*] $T:ty => $P:ty;)*) => { $(
    impl<$($gen)*> Spec for $T {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
            gen_ptr(g, bad, align_of::<$P>(), &mut b[..8]);
            for c in b[8..].chunks_mut(8) { put(c, g.int()) }
        }
        fn ok(b: &[u8]) -> bool { ptr_ok(align_of::<$P>(), b) }
        fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
    }
    impl<$($gen)*> Null for $T {}
)* } }
fat! {
    [T: ReprC] c_slice::Ref<'static, T> => T;
    [T: ReprC] c_slice::Mut<'static, T> => T;
    [T: ReprC] c_slice::Box<T> => T;
    [T: ReprC] c_slice::Raw<T> => T;
    [T: ReprC] repr_c::Vec<T> => T;
    [] str::Ref<'static> => u8;
    [] str::Box => u8;
    [] repr_c::String => u8;
}
impl<T: Null> Spec for Option<T>
where
    Option<T>: ReprC,
{
    fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
        T::gen(g, bad, b);
        if g.chance(1, 4) {
            put(&mut b[..8], 0);
        }
    }
    fn ok(b: &[u8]) -> bool {
        uint(&b[..8]) == 0 || T::ok(b)
    }
    fn sig(b: &[u8], m: &mut [bool]) {
        let none = uint(&b[..8]) == 0;
        m.fill(!none);
        m[..8].fill(true);
    }
}
macro_rules! arrays { ($($N:literal)*) => { $(impl<T: Spec> Spec for [T; $N] {
    fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
        let bad = bad.saturating_mul($N);
        for c in b.chunks_mut(size_of::<T>()) { T::gen(g, bad, c) }
    }
    fn ok(b: &[u8]) -> bool { b.chunks(size_of::<T>()).all(T::ok) }
    fn sig(b: &[u8], m: &mut [bool]) { for (b, m) in b.chunks(size_of::<T>()).zip(m.chunks_mut(size_of::<T>())) { T::sig(b, m) } }
})* } }
arrays!(1 2 3 4 5 8 9 12 16 31 32 40 64 100 128 256 300 600 1024);

impl<T: Spec> Spec for TaggedOption<T>
where
    TaggedOption<T>: ReprC,
{
    fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
        b[0] = if g.chance(1, bad) { *g.pick(&[2, 255, 3, 128]) } else { g.below(2) as u8 };
        let o = align_of::<T>();
        T::gen(g, if b[0] == 0 { 2 } else { bad }, &mut b[o..o + size_of::<T>()])
    }
    fn ok(b: &[u8]) -> bool {
        let o = align_of::<T>();
        b[0] == 0 || b[0] == 1 && T::ok(&b[o..o + size_of::<T>()])
    }
    fn sig(b: &[u8], m: &mut [bool]) {
        m[0] = true;
        let o = align_of::<T>();
        if b[0] == 1 {
            T::sig(&b[o..o + size_of::<T>()], &mut m[o..o + size_of::<T>()])
        }
    }
}
macro_rules! structs { ($([$($gen:tt)*] $T:ty { $($f:tt : $F:ty),* };)*) => { $(
    impl<$($gen)*> Spec for $T {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
            let u = MaybeUninit::<Self>::uninit();
            $({
                let o = unsafe { std::ptr::addr_of!((*u.as_ptr()).$f) } as usize - u.as_ptr() as usize;
                <$F as Spec>::gen(g, bad, &mut b[o..o + size_of::<$F>()]);
            })*
        }
        fn ok(b: &[u8]) -> bool {
            let u = MaybeUninit::<Self>::uninit();
            let mut ok = true;
            $({
                let o = unsafe { std::ptr::addr_of!((*u.as_ptr()).$f) } as usize - u.as_ptr() as usize;
                ok &= <$F as Spec>::ok(&b[o..o + size_of::<$F>()]);
            })*
            ok
        }
        fn sig(b: &[u8], m: &mut [bool]) {
            let u = MaybeUninit::<Self>::uninit();
            $({
                let o = unsafe { std::ptr::addr_of!((*u.as_ptr()).$f) } as usize - u.as_ptr() as usize;
                let r = o..o + size_of::<$F>();
                <$F as Spec>::sig(&b[r.clone()], &mut m[r]);
            })*
        }
    }
)* } }
structs! {
    [A: Spec] Tuple1<A> { _0: A };
    [A: Spec, B: Spec] Tuple2<A, B> { _0: A, _1: B };
    [A: Spec, B: Spec, C: Spec] Tuple3<A, B, C> { _0: A, _1: B, _2: C };
    [A: Spec, B: Spec, C: Spec, D: Spec] Tuple4<A, B, C, D> { _0: A, _1: B, _2: C, _3: D };
    [A: Spec, B: Spec, C: Spec, D: Spec, E: Spec] Tuple5<A, B, C, D, E> { _0: A, _1: B, _2: C, _3: D, _4: E };
    [A: Spec, B: Spec, C: Spec, D: Spec, E: Spec, F: Spec] Tuple6<A, B, C, D, E, F> { _0: A, _1: B, _2: C, _3: D, _4: E, _5: F };
    [] Mixed { a: bool, b: u32, c: EU8, d: EI16, e: u64, f: bool };
    [T: Spec + ReprC, U: Spec + ReprC] Pair<T, U> { first: T, second: U };
    [T: Spec + ReprC] Marked<T> { value: T };
    [] Unnamed { x: EU8, y: u16, z: bool };
    [] Wide { f0: bool, f1: EU8, f2: u16, f3: EI16, f4: bool, f5: EU32, f6: bool, f7: u64, f8: EU64, f9: bool, f10: Option<&'static u32>, f11: &'static u8, f12: EI8, f13: bool, f14: TaggedOption<bool>, f15: bool, f16: EU16, f17: bool };
    [] Large { head: bool, bits: [bool; 600], mid: EU8, words: [EU16; 256], tail: bool };
    [] Trans { 0: bool };
    [] TransEnum { 0: EI16 };
    [] TransRef { 0: &'static u64 };
    [] TransNamed { 0: NonNull<u32> };
    [T: Spec] TransGen<T> { 0: T };
    [] Ptrs { a: &'static u16, b: Option<&'static u32>, c: Option<repr_c::Box<u64>>, d: char_p::Ref<'static>, e: Option<c_slice::Ref<'static, u32>> };
    [] Deep { a: [Pair<bool, EI8>; 3], b: TaggedOption<Mixed>, c: Option<extern "C" fn()>, d: Tuple2<bool, TransEnum>, e: PhantomArr };
    [] PhantomArr { x: bool };
}
#[derive_ReprC]
#[repr(C)]
pub struct Mixed {
    a: bool,
    b: u32,
    c: EU8,
    d: EI16,
    e: u64,
    f: bool,
}
/// More fields than anything is sized for.
#[derive_ReprC]
#[repr(C)]
pub struct Wide {
    f0: bool,
    f1: EU8,
    f2: u16,
    f3: EI16,
    f4: bool,
    f5: EU32,
    f6: bool,
    f7: u64,
    f8: EU64,
    f9: bool,
    f10: Option<&'static u32>,
    f11: &'static u8,
    f12: EI8,
    f13: bool,
    f14: TaggedOption<bool>,
    f15: bool,
    f16: EU16,
    f17: bool,
}
/// Fields larger than a page's worth of registers.
#[derive_ReprC]
#[repr(C)]
pub struct Large {
    head: bool,
    bits: [bool; 600],
    mid: EU8,
    words: [EU16; 256],
    tail: bool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Pair<T: ReprC, U: ReprC> {
    first: T,
    second: U,
}
#[derive_ReprC]
#[repr(C)]
pub struct Marked<T: ReprC> {
    before: PhantomData<u64>,
    value: T,
    after: PhantomData<T>,
}
#[derive_ReprC]
#[repr(C)]
pub struct Unnamed {
    x: EU8,
    y: u16,
    z: bool,
}
#[derive_ReprC]
#[repr(transparent)]
pub struct Trans(bool);
#[derive_ReprC]
#[repr(transparent)]
pub struct TransEnum(EI16);
#[derive_ReprC]
#[repr(transparent)]
pub struct TransRef(&'static u64, PhantomData<u8>);
impl Null for TransRef {}
#[derive_ReprC(rename = "trans_named")]
#[repr(transparent)]
pub struct TransNamed(NonNull<u32>);
impl Null for TransNamed {}
#[derive_ReprC]
#[repr(transparent)]
pub struct TransGen<T>(T);
#[derive_ReprC]
#[repr(C)]
pub struct Ptrs {
    a: &'static u16,
    b: Option<&'static u32>,
    c: Option<repr_c::Box<u64>>,
    d: char_p::Ref<'static>,
    e: Option<c_slice::Ref<'static, u32>>,
}
#[derive_ReprC]
#[repr(C)]
pub struct PhantomArr {
    p: PhantomData<[u8; 3]>,
    x: bool,
}
#[derive_ReprC]
#[repr(C)]
pub struct Deep {
    a: [Pair<bool, EI8>; 3],
    b: TaggedOption<Mixed>,
    c: Option<extern "C" fn()>,
    d: Tuple2<bool, TransEnum>,
    e: PhantomArr,
}
#[derive_ReprC]
#[repr(opaque)]
#[repr(align(64))]
pub struct Op64 {
    _x: u8,
}
// closures: a non-null environment, and non-null functions where the field is a plain function pointer
macro_rules! closures { ($($T:ty => [$($w:literal)*];)*) => { $(
    impl Spec for $T {
        fn gen(g: &mut Gen, bad: u64, b: &mut [u8]) {
            for c in b.chunks_mut(8) { gen_ptr(g, bad, 1, c) }
        }
        fn ok(b: &[u8]) -> bool { [$($w),*].iter().all(|&w: &usize| uint(&b[8 * w..8 * w + 8]) != 0) }
        fn sig(_: &[u8], m: &mut [bool]) { m.fill(true) }
    }
)* } }
closures! {
    BoxDynFnMut1<u8, u16> => [0];
    BoxDynFnMut0<()> => [0];
    ArcDynFn2<bool, u8, EU8> => [0 1 2];
    RefDynFnMut1<'static, u64, bool> => [0 1];
}

macro_rules! family { ($m:ident) => { $m! {
    u8, u64, i16, f64, bool, EU8, EI8, EOne, EZero, EU16, EI16, EU32, EI32, EU64, EI64, EDense, EC, c_char,
    *const u8, *mut u64, &'static u8, &'static u16, &'static u64, &'static mut u32, &'static bool, &'static Op64, &'static Mixed,
    NonNull<u64>, NonNullRef<u16>, NonNullMut<u32>, NonNullOwned<f64>, repr_c::Box<u64>, repr_c::Box<Op64>, Out<'static, u32>, Out<'static, EU8>,
    Option<&'static u8>, Option<&'static u64>, Option<&'static mut u16>, Option<NonNull<u32>>, Option<NonNullRef<u64>>, Option<NonNullMut<u8>>,
    Option<NonNullOwned<u16>>, Option<repr_c::Box<u32>>, Option<repr_c::Box<Op64>>, Option<Out<'static, u64>>, Option<&'static Op64>,
    char_p::Ref<'static>, char_p::Box, char_p::Raw, Option<char_p::Ref<'static>>, Option<char_p::Box>,
    extern "C" fn(), unsafe extern "C" fn(u8) -> i32, extern "C" fn(u8, f64, bool, EU8) -> bool, Option<extern "C" fn()>, Option<unsafe extern "C" fn(u8) -> i32>,
    c_slice::Ref<'static, u8>, c_slice::Ref<'static, u64>, c_slice::Mut<'static, u16>, c_slice::Box<u32>, c_slice::Raw<u64>, repr_c::Vec<u16>, repr_c::Vec<Mixed>,
    Option<c_slice::Ref<'static, u32>>, Option<c_slice::Mut<'static, u64>>, Option<c_slice::Box<u8>>, Option<c_slice::Raw<u16>>, Option<repr_c::Vec<u64>>,
    str::Ref<'static>, str::Box, repr_c::String, Option<str::Ref<'static>>, Option<str::Box>, Option<repr_c::String>,
    [bool; 1], [bool; 2], [bool; 31], [EU8; 40], [EI16; 5], [&'static u32; 3], [[bool; 2]; 4], [TaggedOption<bool>; 3], [Mixed; 4], [Option<&'static u64>; 8],
    [bool; 9], [EI8; 12], [bool; 16], [bool; 32], [EU32; 64], [bool; 128], [bool; 300], [EU16; 256], [EU8; 1024], [Mixed; 32], [[bool; 12]; 9], [Pair<bool, u8>; 100],
    Pair<[bool; 600], EU8>, Pair<EU8, [EU16; 300]>, Pair<[bool; 9], [EI8; 16]>, TaggedOption<[bool; 600]>, Tuple3<[bool; 100], bool, [EU8; 256]>, Wide, Large,
    TaggedOption<u8>, TaggedOption<bool>, TaggedOption<EU8>, TaggedOption<EI16>, TaggedOption<EU64>, TaggedOption<&'static u32>, TaggedOption<Option<&'static u16>>,
    TaggedOption<TaggedOption<bool>>, TaggedOption<TaggedOption<EU32>>, TaggedOption<Mixed>, TaggedOption<[bool; 5]>, TaggedOption<repr_c::Box<u16>>, TaggedOption<repr_c::Vec<u32>>,
    TaggedOption<Tuple2<bool, u64>>, TaggedOption<c_slice::Ref<'static, bool>>,
    Tuple1<bool>, Tuple2<bool, u64>, Tuple2<u64, bool>, Tuple3<EU8, EI16, bool>, Tuple4<bool, bool, u32, EI8>, Tuple5<u8, bool, &'static u16, EOne, f64>,
    Tuple6<bool, EU8, EU16, EU32, EU64, Option<&'static u8>>, Tuple2<Tuple2<bool, u16>, Tuple1<EI32>>,
    Mixed, Pair<bool, u64>, Pair<EU64, EU8>, Pair<Pair<bool, EU16>, [bool; 3]>, Pair<TaggedOption<EU8>, Option<repr_c::Box<u8>>>, Marked<bool>, Marked<EI32>, Marked<Mixed>,
    Unnamed, Trans, TransEnum, TransRef, TransNamed, TransGen<bool>, TransGen<EU32>, TransGen<Mixed>, Option<TransRef>, Option<TransNamed>, Ptrs, Deep, PhantomArr,
    BoxDynFnMut1<u8, u16>, BoxDynFnMut0<()>, ArcDynFn2<bool, u8, EU8>, RefDynFnMut1<'static, u64, bool>
} } }

#[repr(C, align(64))]
struct Buf([u8; 2048]);

/// Judges one bit pattern.
fn judge<T: Spec + ReprC>(b: &[u8]) {
    let n = size_of::<T>();
    check!(size_of::<CLayoutOf<T>>() == n && align_of::<CLayoutOf<T>>() == align_of::<T>(), "layout", "{}: size or alignment of the C layout differs", std::any::type_name::<T>());
    let mut buf = Buf([0; 2048]);
    buf.0[..n].copy_from_slice(b);
    let want = T::ok(b);
    let c: CLayoutOf<T> = unsafe { std::ptr::read(buf.0.as_ptr().cast()) };
    let name = std::any::type_name::<T>;
    let got = T::is_valid(unsafe { &*buf.0.as_ptr().cast() });
    check!(got == want, if want { "rejects-valid" } else { "accepts-invalid" }, "{}: is_valid({b:02x?}) = {got}", name());
    // (an invalid value is never built here if is_valid is right)
    let v: Option<ManuallyDrop<T>> = unsafe { from_raw::<T>(c) }.map(ManuallyDrop::new);
    match v {
        None => {
            // (a null accepted for an optional type is not the None of from_raw)
            check!(!want, "from_raw-rejects", "{}: from_raw({b:02x?}) is None", name());
            if cfg!(debug_assertions) {
                let r = panics(|| ManuallyDrop::new(unsafe { safer_ffi::layout::from_raw_unchecked::<T>(c) }));
                check!(r.is_err(), "unchecked-accepts", "{}: from_raw_unchecked({b:02x?}) returned although the pattern is illegal and debug assertions are on", name());
            }
        }
        Some(v) => {
            check!(want, "from_raw-accepts", "{}: from_raw({b:02x?}) is Some", name());
            let mut m = vec![false; n];
            T::sig(b, &mut m);
            let same = |p: *const u8, what: &'static str| {
                let r = unsafe { std::slice::from_raw_parts(p.cast::<MaybeUninit<u8>>(), n) };
                for i in 0..n {
                    if m[i] {
                        let x = unsafe { r[i].assume_init() };
                        check!(x == b[i], what, "{}: byte {i} of the value is {x:02x}, was given {b:02x?}", name());
                    }
                }
            };
            same(&v as *const _ as *const u8, "value-bytes");
            let back = unsafe { into_raw::<T>(ManuallyDrop::into_inner(v)) };
            same(&back as *const _ as *const u8, "into_raw-bytes");
        }
    }
}

fn pattern<T: Spec + ReprC>(g: &mut Gen) {
    let n = size_of::<T>();
    let mut b = g.fill(n); // padding
    let bad = *g.pick(&[1_000_000, 3, 12, 2]);
    T::gen(g, bad, &mut b);
    if g.chance(1, 8) {
        let i = g.us(n);
        b[i] ^= 1 << g.below(8);
    }
    g.note(|| format!("{} {b:02x?}", std::any::type_name::<T>()));
    g.label(if T::ok(&b) { "legal" } else { "illegal" });
    if n > 1 {
        g.nontrivial();
    }
    judge::<T>(&b);
}
fn patterns(g: &mut Gen) {
    macro_rules! go { ($($T:ty),*) => {{
        const F: &[fn(&mut Gen)] = &[$(pattern::<$T>),*];
        g.pick(F)(g)
    }} }
    family!(go)
}
/// Every pattern of the types of one or two bytes.
fn every<T: Spec + ReprC>(_: &mut Gen) {
    match size_of::<T>() {
        1 => (0..=255u8).for_each(|x| judge_small::<T>(&[x])),
        2 => (0..=65535u16).for_each(|x| judge_small::<T>(&x.to_le_bytes())),
        _ => {}
    }
}
fn judge_small<T: Spec + ReprC>(b: &[u8]) {
    let mut buf = Buf([0; 2048]);
    buf.0[..b.len()].copy_from_slice(b);
    let got = T::is_valid(unsafe { &*buf.0.as_ptr().cast() });
    let want = T::ok(b);
    check!(got == want, if want { "rejects-valid" } else { "accepts-invalid" }, "{}: is_valid({b:02x?}) = {got}", std::any::type_name::<T>());
}
fn exhaustive(g: &mut Gen) {
    macro_rules! go { ($($T:ty),*) => {{
        const F: &[(fn(&mut Gen), usize, fn() -> &'static std::primitive::str)] = &[$((every::<$T>, size_of::<$T>(), std::any::type_name::<$T>)),*];
        let small: Vec<usize> = (0..F.len()).filter(|&i| F[i].1 <= 2).collect();
        let i = *g.pick(&small);
        g.note(|| format!("every bit pattern of {}", F[i].2()));
        g.nontrivial();
        F[i].0(g)
    }} }
    family!(go)
}

// ------------------------------------------------------------ L03

static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct D(Box<i8>);
impl D {
    fn new(v: i8) -> D {
        LIVE.fetch_add(1, SeqCst);
        D(Box::new(v))
    }
}
impl Clone for D {
    fn clone(&self) -> D {
        D::new(*self.0)
    }
}
impl Drop for D {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
trait El: Clone + std::fmt::Debug + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash + 'static {
    fn mk(v: i8) -> Self;
    fn get(&self) -> i8;
    fn set(&mut self, v: i8);
}
impl El for D {
    fn mk(v: i8) -> D {
        D::new(v)
    }
    fn get(&self) -> i8 {
        *self.0
    }
    fn set(&mut self, v: i8) {
        *self.0 = v
    }
}
impl El for i8 {
    fn mk(v: i8) -> i8 {
        v
    }
    fn get(&self) -> i8 {
        *self
    }
    fn set(&mut self, v: i8) {
        *self = v
    }
}
static CELLS: [i8; 256] = {
    let mut a = [0i8; 256];
    let mut i = 0;
    while i < 256 {
        a[i] = i as u8 as i8;
        i += 1;
    }
    a
};
impl El for &'static i8 {
    fn mk(v: i8) -> Self {
        &CELLS[v as u8 as usize]
    }
    fn get(&self) -> i8 {
        **self
    }
    fn set(&mut self, v: i8) {
        *self = Self::mk(v)
    }
}
impl El for (u8, u64, i8) {
    fn mk(v: i8) -> Self {
        (1, 2, v)
    }
    fn get(&self) -> i8 {
        self.2
    }
    fn set(&mut self, v: i8) {
        self.2 = v
    }
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn tagged<T: El>(g: &mut Gen) {
    let l0 = LIVE.load(SeqCst);
    let mut a: Vec<TaggedOption<T>> = vec![];
    let mut m: Vec<Option<T>> = vec![];
    g.note(|| format!("TaggedOption<{}>", std::any::type_name::<T>()));
    let mut ops = 0;
    for _ in 0..g.range(1, 14) {
        let v = g.range(0, 5) as i8 * if g.bool() { -1 } else { 1 };
        let op = if a.is_empty() { 0 } else { g.below(12) };
        let i = if a.is_empty() { 0 } else { g.us(a.len()) };
        g.note(|| format!("operation {op} on #{i} with {v}"));
        ops += (op > 0) as u32;
        match op {
            0 => {
                let o = g.chance(2, 3).then(|| T::mk(v));
                m.push(o.clone());
                a.push(match (o, g.below(3)) {
                    (Some(x), 0) => TaggedOption::from(x),
                    (Some(x), 1) => TaggedOption::Some(x),
                    (None, 1) => TaggedOption::None,
                    (o, _) => o.into(),
                });
            }
            1 => {
                check_eq!(a[i].as_ref(), m[i].as_ref(), "as_ref");
            }
            2 => {
                if let Some(x) = a[i].as_mut() {
                    x.set(v);
                }
                if let Some(x) = m[i].as_mut() {
                    x.set(v);
                }
            }
            3 => {
                let (x, y) = (a.swap_remove(i), m.swap_remove(i));
                let (mut cx, mut cy) = ((0, 0), (0, 0));
                let rx = x.map_or_else(
                    || {
                        cx.0 += 1;
                        v as i32
                    },
                    |t| {
                        cx.1 += 1;
                        t.get() as i32 * 100
                    },
                );
                let ry = y.map_or_else(
                    || {
                        cy.0 += 1;
                        v as i32
                    },
                    |t| {
                        cy.1 += 1;
                        t.get() as i32 * 100
                    },
                );
                check_eq!((rx, cx), (ry, cy), "map_or_else");
            }
            4 => {
                let (x, y) = (a.swap_remove(i), m.swap_remove(i));
                let (mut cx, mut cy) = (0, 0);
                let rx = x.unwrap_or_else(|| {
                    cx += 1;
                    T::mk(v)
                });
                let ry = y.unwrap_or_else(|| {
                    cy += 1;
                    T::mk(v)
                });
                check_eq!((rx, cx), (ry, cy), "unwrap_or_else");
            }
            5 => {
                let (x, y) = (a.swap_remove(i), m.swap_remove(i));
                let (mut cx, mut cy) = (0, 0);
                let keep = v >= 0;
                let rx = x.and_then(|t| {
                    cx += 1;
                    if keep { TaggedOption::Some((t.get(), t)) } else { TaggedOption::None }
                });
                let ry = y.and_then(|t| {
                    cy += 1;
                    keep.then(|| (t.get(), t))
                });
                check_eq!(cx, cy, "and_then");
                check_eq!(rx.into_rust(), ry, "and_then");
            }
            6 => {
                let (x, y) = (a[i].take(), m[i].take());
                check_eq!(a[i].as_ref().is_none(), true, "take");
                a.push(x);
                m.push(y);
            }
            7 => {
                let (x, y) = (a.swap_remove(i), m.swap_remove(i));
                let x = if g.bool() { x.into_rust() } else { Option::from(x) };
                check_eq!(x, y, "into_rust");
                if g.bool() {
                    a.push(x.into());
                    m.push(y);
                }
            }
            8 => {
                let (x, y) = (a[i].clone(), m[i].clone());
                check!(x == a[i], "clone", "a clone differs");
                a.push(x);
                m.push(y);
            }
            9 => {
                let j = g.us(a.len());
                check_eq!(a[i] == a[j], m[i] == m[j], "eq");
                check_eq!(a[i].cmp(&a[j]), m[i].cmp(&m[j]), "cmp");
                check_eq!(a[i].partial_cmp(&a[j]), m[i].partial_cmp(&m[j]), "cmp");
                check_eq!(a[i] < a[j], m[i] < m[j], "cmp");
                if a[i] == a[j] {
                    check_eq!(hash(&a[i]), hash(&a[j]), "hash");
                }
            }
            10 => {
                drop((a.swap_remove(i), m.swap_remove(i)));
            }
            _ => {
                check_eq!(format!("{:?}", a[i]), format!("{:?}", m[i]), "debug");
                // the tag is the first byte
                let tag = unsafe { *(&a[i] as *const _ as *const u8) };
                check_eq!(tag, m[i].is_some() as u8, "tag");
            }
        }
        check_eq!(a.len(), m.len(), "harness");
        let l = LIVE.load(SeqCst) - l0;
        if std::any::TypeId::of::<T>() == std::any::TypeId::of::<D>() {
            let want = 2 * m.iter().flatten().count() as i64;
            check_eq!(l, want, "contents-dropped");
        }
        for (x, y) in a.iter().zip(&m) {
            check_eq!(x.as_ref(), y.as_ref(), "contents");
        }
    }
    drop((a, m));
    check_eq!(LIVE.load(SeqCst), l0, "contents-dropped");
    if ops > 1 {
        g.nontrivial();
    }
}
fn tagged_options(g: &mut Gen) {
    const F: &[fn(&mut Gen)] = &[tagged::<D>, tagged::<i8>, tagged::<&'static i8>, tagged::<(u8, u64, i8)>];
    g.pick(F)(g)
}

/// Values of any bytes, with a drop counter.
trait Blob: ReprC + Copy + PartialEq + std::fmt::Debug + 'static {
    fn mk(x: u64) -> Self;
}
impl Blob for u8 {
    fn mk(x: u64) -> u8 {
        x as u8
    }
}
impl Blob for u64 {
    fn mk(x: u64) -> u64 {
        x
    }
}
impl Blob for EI16 {
    fn mk(x: u64) -> EI16 {
        [EI16::A, EI16::B, EI16::C, EI16::D][x as usize % 4]
    }
}
impl Blob for [u16; 5] {
    fn mk(x: u64) -> Self {
        std::array::from_fn(|i| (x >> (8 * i)) as u16)
    }
}
impl Blob for bool {
    fn mk(x: u64) -> bool {
        x & 1 == 1
    }
}
fn out_ptr<T: Blob>(g: &mut Gen) {
    let n = g.range(1, 6);
    let fill = g.below(256) as u8;
    let mut mem: Vec<MaybeUninit<T>> = Vec::with_capacity(n);
    unsafe {
        std::ptr::write_bytes(mem.as_mut_ptr().cast::<u8>(), fill, n * size_of::<T>());
        mem.set_len(n);
    }
    let mut model: Vec<Option<T>> = vec![None; n];
    g.note(|| format!("{n} cells of {}", std::any::type_name::<T>()));
    for _ in 0..g.range(1, 8) {
        let i = g.us(n);
        let v = T::mk(g.u64());
        let how = g.below(5);
        g.note(|| format!("cell {i} := {v:?} ({how})"));
        let p: *mut MaybeUninit<T> = &mut mem[i];
        let out: Out<'_, T> = match how {
            // as it comes from C
            0 => unsafe { from_raw::<Out<'_, T>>(p.cast::<CLayoutOf<T>>()) }.unwrap(),
            1 => unsafe { from_raw::<Option<Out<'_, T>>>(p.cast::<CLayoutOf<T>>()) }.unwrap().unwrap(),
            2 => unsafe { &mut *p }.as_out(),
            3 if model[i].is_some() => unsafe { &mut *p.cast::<T>() }.as_out(),
            3 => unsafe { &mut *p }.into(),
            _ => {
                let o: Out<'_, T> = unsafe { &mut *p }.as_out();
                let c = unsafe { into_raw(o) };
                check_eq!(c as usize, p as usize, "out-address");
                unsafe { from_raw::<Out<'_, T>>(c) }.unwrap()
            }
        };
        let r = out.write(v);
        check!(r as *mut T as usize == p as usize, "out-address", "write returned a reference elsewhere");
        check_eq!(*r, v, "out-value");
        model[i] = Some(v);
        for j in 0..n {
            match model[j] {
                Some(v) => check_eq!(unsafe { mem[j].assume_init() }, v, "out-value"),
                None => {
                    let b = unsafe { std::slice::from_raw_parts(&mem[j] as *const _ as *const u8, size_of::<T>()) };
                    check!(b.iter().all(|&x| x == fill), "out-elsewhere", "cell {j} was touched");
                }
            }
        }
    }
    g.nontrivial();
    check!(unsafe { from_raw::<Option<Out<'_, T>>>(std::ptr::null_mut()) }.unwrap().is_none(), "null-is-none", "null out-pointer is not None");
}
fn outs(g: &mut Gen) {
    const F: &[fn(&mut Gen)] = &[out_ptr::<u8>, out_ptr::<u64>, out_ptr::<EI16>, out_ptr::<[u16; 5]>, out_ptr::<bool>];
    g.pick(F)(g)
}

/// Options of pointers: None is null and nothing else is; values survive the trip.
fn options(g: &mut Gen) {
    g.nontrivial();
    let v = g.u64();
    let none = g.chance(1, 3);
    macro_rules! trip { ($T:ty, $mk:expr, $same:expr) => {{
        g.note(|| format!("{} {}", stringify!($T), if none { "None" } else { "Some" }));
        let x: Option<$T> = if none { None } else { Some($mk) };
        let c = unsafe { into_raw::<Option<$T>>(x) };
        let w: usize = unsafe { std::ptr::read(&c as *const _ as *const usize) };
        check_eq!(w == 0, none, "null-is-none");
        let y: Option<$T> = unsafe { from_raw::<Option<$T>>(c) }.unwrap();
        check_eq!(y.is_none(), none, "null-is-none");
        if let Some(y) = y {
            #[allow(clippy::redundant_closure_call)]
            let ok: bool = ($same)(y);
            check!(ok, "option-value", "the value changed");
        }
    }} }
    extern "C" fn f(x: u64) -> u64 {
        x ^ 5
    }
    let mut cell = v;
    let b = g.fill((v % 20) as usize);
    let s: String = b.iter().map(|x| (b'a' + x % 26) as char).collect();
    match g.below(12) {
        0 => trip!(&u64, &v, |r: &u64| r as *const _ == &v),
        1 => {
            let p = &mut cell as *mut u64;
            trip!(&mut u64, unsafe { &mut *p }, |r: &mut u64| r as *mut _ == p)
        }
        2 => trip!(repr_c::Box<u64>, Box::new(v).into(), |r: repr_c::Box<u64>| *r == v),
        3 => trip!(c_slice::Ref<'_, u8>, b[..].into(), |r: c_slice::Ref<'_, u8>| r.as_ptr() == b.as_ptr() && r.len() == b.len()),
        4 => trip!(c_slice::Box<u8>, b.clone().into_boxed_slice().into(), |r: c_slice::Box<u8>| r[..] == b[..]),
        5 => trip!(repr_c::Vec<u8>, b.clone().into(), |r: repr_c::Vec<u8>| r[..] == b[..]),
        6 => trip!(extern "C" fn(u64) -> u64, f as extern "C" fn(u64) -> u64, |r: extern "C" fn(u64) -> u64| r(v) == v ^ 5),
        7 => trip!(char_p::Box, s.clone().try_into().unwrap(), |r: char_p::Box| r.to_str() == s),
        8 => trip!(NonNullRef<u64>, (&v).into(), |r: NonNullRef<u64>| r.as_ptr() == &v as *const u64),
        9 => trip!(str::Ref<'_>, s.as_str().into(), |r: str::Ref<'_>| &*r == s.as_str()),
        10 => trip!(repr_c::String, s.clone().into(), |r: repr_c::String| &*r == s.as_str()),
        _ => trip!(TransRef2<'_>, TransRef2(&v, PhantomData), |r: TransRef2<'_>| r.0 as *const _ == &v),
    }
}
#[derive_ReprC]
#[repr(transparent)]
struct TransRef2<'a>(&'a u64, PhantomData<&'a ()>);

/// Owned-pointer wrapper: drop and deallocation happen once, with the right layout (checking allocator).
fn owned(g: &mut Gen) {
    let l0 = LIVE.load(SeqCst);
    g.nontrivial();
    let v = g.below(128) as i8;
    #[repr(C, align(32))]
    struct Wide(D, [u8; 40]);
    macro_rules! own { ($T:ty, $e:expr) => {{
        let b: Box<$T> = Box::new($e);
        let p = Box::into_raw(b);
        let mut o: NonNullOwned<c_void> = NonNullOwned::from(NonNull::new(p).unwrap()).cast::<c_void>();
        check_eq!(o.as_ptr() as usize, p as usize, "wrapper-address");
        let how = g.below(3);
        g.note(|| format!("{} ({how})", stringify!($T)));
        unsafe {
            match how {
                0 => o.drop_in_place_and_dealloc::<$T>(),
                1 => {
                    let c = o.copy();
                    o.drop_in_place::<$T>();
                    c.dealloc::<$T>()
                }
                _ => drop(Box::from_raw(o.cast::<$T>().as_mut_ptr())),
            }
        }
    }} }
    use std::ffi::c_void;
    match g.below(4) {
        0 => own!(D, D::new(v)),
        1 => own!(Wide, Wide(D::new(v), [1; 40])),
        2 => own!((), ()),
        _ => own!(Vec<D>, vec![D::new(v), D::new(v)]),
    }
    check_eq!(LIVE.load(SeqCst), l0, "owned-dropped");
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "L01",
            rule: "patterns: type larger than one byte; exhaustive: all",
            subs: vec![
                Sub { name: "patterns", f: patterns, quick: 600_000, thorough: 60_000_000, leaks: false },
                Sub { name: "exhaustive", f: exhaustive, quick: 400, thorough: 2_000, leaks: false },
            ],
        },
        Prop {
            id: "L03",
            rule: "tagged: at least two operations beyond construction; others: all",
            subs: vec![
                Sub { name: "tagged", f: tagged_options, quick: 200_000, thorough: 10_000_000, leaks: true },
                Sub { name: "out-pointers", f: outs, quick: 80_000, thorough: 4_000_000, leaks: true },
                Sub { name: "options", f: options, quick: 100_000, thorough: 4_000_000, leaks: true },
                Sub { name: "owned", f: owned, quick: 60_000, thorough: 1_000_000, leaks: true },
            ],
        },
    ]
}
