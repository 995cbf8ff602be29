//! Values of many types made from a number, shared by the checks of closures and virtual objects.
use safer_ffi::prelude::*;

pub fn mix(a: u64, b: u64) -> u64 {
    (a.rotate_left(23) ^ b).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(7) ^ 0x51
}

/// Argument and result types.
pub trait Val: ReprC + Sized {
    fn gen(s: u64) -> Self;
    fn enc(&self) -> u64;
}
macro_rules! ints { ($($T:ty),*) => ($( impl Val for $T { fn gen(s: u64) -> Self { s as $T } fn enc(&self) -> u64 { *self as u64 } } )*)}
ints! { u8, u16, u32, u64, usize, i8, i16, i32, i64, isize }
impl Val for bool {
    fn gen(s: u64) -> Self {
        s & 1 == 1
    }
    fn enc(&self) -> u64 {
        unsafe { *(self as *const bool as *const u8) as u64 }
    }
}
impl Val for f32 {
    fn gen(s: u64) -> Self {
        f32::from_bits(s as u32 & !0x0040_0000) // no signalling subtleties: quiet bit normalised below
    }
    fn enc(&self) -> u64 {
        self.to_bits() as u64
    }
}
impl Val for f64 {
    fn gen(s: u64) -> Self {
        f64::from_bits(s)
    }
    fn enc(&self) -> u64 {
        self.to_bits()
    }
}
impl Val for () {
    fn gen(_: u64) {}
    fn enc(&self) -> u64 {
        0
    }
}
impl Val for *const u16 {
    fn gen(s: u64) -> Self {
        s as usize as _
    }
    fn enc(&self) -> u64 {
        *self as usize as u64
    }
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Big {
    pub a: u64,
    pub b: [u32; 3],
    pub c: u8,
    pub d: u64,
}
impl Val for Big {
    fn gen(s: u64) -> Self {
        Big { a: s, b: [s as u32, (s >> 9) as u32, (s >> 21) as u32], c: s as u8, d: !s }
    }
    fn enc(&self) -> u64 {
        [self.a, self.b[0] as u64, self.b[1] as u64, self.b[2] as u64, self.c as u64, self.d].iter().fold(7, |x, &y| mix(x, y))
    }
}
/// Larger than any register or cache line.
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Huge {
    a: u8,
    b: [u64; 32],
    c: u16,
}
impl Val for Huge {
    fn gen(s: u64) -> Self {
        let mut b = [0; 32];
        (0..32).for_each(|i| b[i] = mix(s, i as u64));
        Huge { a: s as u8, b, c: (s >> 8) as u16 }
    }
    fn enc(&self) -> u64 {
        self.b.iter().fold(mix(self.a as u64, self.c as u64), |x, &y| mix(x, y))
    }
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Mixed {
    a: u8,
    b: f64,
}
impl Val for Mixed {
    fn gen(s: u64) -> Self {
        Mixed { a: s as u8, b: f64::from_bits(s.rotate_left(11)) }
    }
    fn enc(&self) -> u64 {
        mix(self.a as u64, self.b.to_bits())
    }
}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Pair {
    a: f32,
    b: f32,
}
impl Val for Pair {
    fn gen(s: u64) -> Self {
        Pair { a: s as u16 as f32, b: (s >> 16) as u16 as f32 }
    }
    fn enc(&self) -> u64 {
        mix(self.a.to_bits() as u64, self.b.to_bits() as u64)
    }
}
#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy)]
pub enum Colour {
    Red,
    Green = 7,
    Blue = 200,
}
impl Val for Colour {
    fn gen(s: u64) -> Self {
        [Colour::Red, Colour::Green, Colour::Blue][(s % 3) as usize]
    }
    fn enc(&self) -> u64 {
        *self as u64
    }
}
impl Val for repr_c::String {
    fn gen(s: u64) -> Self {
        format!("{s:x}")[..(s % 9) as usize % format!("{s:x}").len()].into()
    }
    fn enc(&self) -> u64 {
        self.bytes().fold(self.len() as u64, |x, y| mix(x, y as u64))
    }
}
impl Val for repr_c::Vec<u16> {
    fn gen(s: u64) -> Self {
        (0..s % 7).map(|i| mix(i, s) as u16).collect::<Vec<_>>().into()
    }
    fn enc(&self) -> u64 {
        self.iter().fold(self.len() as u64, |x, y| mix(x, *y as u64))
    }
}
impl Val for Option<repr_c::Box<u32>> {
    fn gen(s: u64) -> Self {
        (s % 3 != 0).then(|| Box::new(s as u32).into())
    }
    fn enc(&self) -> u64 {
        self.as_ref().map_or(0, |b| 1 + **b as u64)
    }
}
