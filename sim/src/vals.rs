//! Argument and return values of simulated calls: generated from a seed, digested for comparison.

use crate::rt::mix;

pub trait Val: Sized {
    fn gen(s: u64) -> Self;
    fn dig(&self) -> u64;
}

macro_rules! int_val {
    ($($t:ty),*) => { $(impl Val for $t {
        fn gen(s: u64) -> Self { mix(s ^ 0x11) as $t }
        fn dig(&self) -> u64 { mix(*self as u64 ^ 0x22) }
    })* };
}
int_val!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize);

impl Val for bool {
    fn gen(s: u64) -> Self {
        mix(s) & 1 == 1
    }
    fn dig(&self) -> u64 {
        mix(*self as u64 + 77)
    }
}
impl Val for () {
    fn gen(_: u64) -> Self {}
    fn dig(&self) -> u64 {
        0x77
    }
}
impl Val for f32 {
    fn gen(s: u64) -> Self {
        ((mix(s) >> 42) as i32 - (1 << 21)) as f32 * 0.25
    }
    fn dig(&self) -> u64 {
        mix(if self.is_nan() { 1 } else { self.to_bits() as u64 })
    }
}
impl Val for f64 {
    fn gen(s: u64) -> Self {
        ((mix(s) >> 20) as i64 - (1 << 43)) as f64 * 0.125
    }
    fn dig(&self) -> u64 {
        mix(if self.is_nan() { 1 } else { self.to_bits() })
    }
}
impl Val for u128 {
    fn gen(s: u64) -> Self {
        ((mix(s) as u128) << 64) | mix(s + 1) as u128
    }
    fn dig(&self) -> u64 {
        mix(*self as u64) ^ mix((*self >> 64) as u64).rotate_left(7)
    }
}
impl Val for *const u8 {
    fn gen(s: u64) -> Self {
        mix(s ^ 0x33) as usize as *const u8
    }
    fn dig(&self) -> u64 {
        mix(*self as usize as u64 ^ 0x44)
    }
}

#[derive(Clone, Copy)]
#[repr(C)]
pub struct P8 {
    a: u32,
    b: f32,
}
impl Val for P8 {
    fn gen(s: u64) -> Self {
        P8 { a: Val::gen(s), b: Val::gen(s + 1) }
    }
    fn dig(&self) -> u64 {
        self.a.dig() ^ self.b.dig().rotate_left(9)
    }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct P16 {
    a: u64,
    b: u64,
}
impl Val for P16 {
    fn gen(s: u64) -> Self {
        P16 { a: Val::gen(s), b: Val::gen(s + 1) }
    }
    fn dig(&self) -> u64 {
        self.a.dig() ^ self.b.dig().rotate_left(9)
    }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct D16 {
    a: f64,
    b: f64,
}
impl Val for D16 {
    fn gen(s: u64) -> Self {
        D16 { a: Val::gen(s), b: Val::gen(s + 1) }
    }
    fn dig(&self) -> u64 {
        self.a.dig() ^ self.b.dig().rotate_left(9)
    }
}
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Big {
    a: [u64; 5],
}
impl Val for Big {
    fn gen(s: u64) -> Self {
        Big { a: [mix(s), mix(s + 1), mix(s + 2), mix(s + 3), mix(s + 4)] }
    }
    fn dig(&self) -> u64 {
        self.a.iter().fold(3, |h, x| mix(h ^ *x))
    }
}

/// A by-value argument whose destruction is counted.
#[repr(C)]
pub struct Tok {
    s: u64,
    idx: u32,
    canary: u32,
}
impl Val for Tok {
    fn gen(s: u64) -> Self {
        Tok { s, idx: crate::world::tok_new(), canary: 0x70C0_7070 }
    }
    fn dig(&self) -> u64 {
        mix(self.s ^ 0x707)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        let (c, i) = (self.canary, self.idx);
        self.canary = 0;
        crate::sched::user_code(|| crate::world::tok_drop(i, c == 0x70C0_7070));
    }
}
