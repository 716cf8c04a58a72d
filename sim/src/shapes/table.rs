// Generated by gen/mkshapes.py.
#![allow(improper_ctypes_definitions, clippy::all, unused)]
#![cfg_attr(rustfmt, rustfmt_skip)]
use super::{fam, special, Kind, Shape};

shape!(s0, 0, Fn, Rust, "Rust", (), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1, 1, FnMut, Rust, "Rust", (), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s2, 2, FnOnce, Rust, "Rust", (), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s3, 3, Fn, Rust, "Rust", (a0: Tok), u128, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s4, 4, FnMut, Rust, "Rust", (a0: i32), (), Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s5, 5, FnOnce, Rust, "Rust", (a0: Tok), D16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s6, 6, Fn, Rust, "Rust", (a0: f64, a1: f32), f64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s7, 7, FnMut, Rust, "Rust", (a0: Tok, a1: P8), i32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s8, 8, FnOnce, Rust, "Rust", (a0: usize, a1: f64), f32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s9, 9, Fn, Rust, "Rust", (a0: u16, a1: D16, a2: Tok), u8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s10, 10, FnMut, Rust, "Rust", (a0: u128, a1: f64, a2: P16), P8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s11, 11, FnOnce, Rust, "Rust", (a0: Tok, a1: u16, a2: i64), Big, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s12, 12, Fn, Rust, "Rust", (a0: bool, a1: i8, a2: f64, a3: f32), u128, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s13, 13, FnMut, Rust, "Rust", (a0: u8, a1: u16, a2: Big, a3: Tok), (), Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s14, 14, FnOnce, Rust, "Rust", (a0: D16, a1: bool, a2: u128, a3: usize), D16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s15, 15, Fn, Rust, "Rust", (a0: u64, a1: i32, a2: u16, a3: Tok, a4: P8), f64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s16, 16, FnMut, Rust, "Rust", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8), i32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s17, 17, FnOnce, Rust, "Rust", (a0: i8, a1: u64, a2: u8, a3: f32, a4: Tok), f32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s18, 18, Fn, Rust, "Rust", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32), u8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s19, 19, FnMut, Rust, "Rust", (a0: P8, a1: u64, a2: f32, a3: i64, a4: Tok, a5: u64), P8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s20, 20, FnOnce, Rust, "Rust", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128), Big, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s21, 21, Fn, Rust, "Rust", (a0: Big, a1: u128, a2: u64, a3: i32, a4: Tok, a5: D16, a6: P8), u128, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s22, 22, FnMut, Rust, "Rust", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16), (), Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s23, 23, FnOnce, Rust, "Rust", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: Tok, a6: f32), D16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s24, 24, Fn, Rust, "Rust", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32), f64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s25, 25, FnMut, Rust, "Rust", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Tok, a6: i8, a7: u8), i32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s26, 26, FnOnce, Rust, "Rust", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool), f32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s27, 27, Fn, Rust, "Rust", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: Tok, a6: u16, a7: D16, a8: P8), u8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s28, 28, FnMut, Rust, "Rust", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool), P8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s29, 29, FnOnce, Rust, "Rust", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: Tok, a7: u64, a8: u8), Big, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s30, 30, Fn, Rust, "Rust", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64, a9: f32), u128, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s31, 31, FnMut, Rust, "Rust", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: Tok, a7: P8, a8: u64, a9: f32), (), Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s32, 32, FnOnce, Rust, "Rust", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16), D16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s33, 33, Fn, Rust, "Rust", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: Tok, a7: i32, a8: u16, a9: D16, a10: P8), f64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s34, 34, FnMut, Rust, "Rust", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16, a9: D16, a10: u128), i32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s35, 35, FnOnce, Rust, "Rust", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Tok, a8: P8, a9: i8, a10: u64), f32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s36, 36, Fn, Rust, "Rust", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64, a11: f32), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s37, 37, FnMut, Rust, "Rust", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: Tok, a8: Big, a9: i8, a10: u8, a11: u16), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s38, 38, FnOnce, Rust, "Rust", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64, a9: i32, a10: P16, a11: *const u8), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s39, 39, Fn, Rust, "Rust", (), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s40, 40, FnMut, Rust, "Rust", (), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s41, 41, FnOnce, Rust, "Rust", (), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s42, 42, Fn, Rust, "Rust", (a0: u128, a1: u64), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s43, 43, FnMut, Rust, "Rust", (a0: Tok, a1: i64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s44, 44, FnOnce, Rust, "Rust", (a0: bool, a1: u128), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s45, 45, Fn, Rust, "Rust", (a0: u8, a1: P16, a2: Tok, a3: bool, a4: i8, a5: f64, a6: f32), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s46, 46, FnMut, Rust, "Rust", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s47, 47, FnOnce, Rust, "Rust", (a0: u64, a1: u8, a2: f32, a3: Tok, a4: i64, a5: Big, a6: P8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s48, 48, Fn, Rust, "Rust", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8, a10: P16, a11: i64), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s49, 49, FnMut, Rust, "Rust", (a0: i8, a1: Tok, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big, a8: i8, a9: u8, a10: u16, a11: Big), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s50, 50, FnOnce, Rust, "Rust", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32, a8: P16, a9: *const u8, a10: D16, a11: bool), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s51, 51, Fn, C, "C", (), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s52, 52, FnMut, C, "C", (), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s53, 53, FnOnce, C, "C", (), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s54, 54, Fn, C, "C", (a0: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s55, 55, FnMut, C, "C", (a0: i64), u8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s56, 56, FnOnce, C, "C", (a0: usize), P8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s57, 57, Fn, C, "C", (a0: u16, a1: D16), P16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s58, 58, FnMut, C, "C", (a0: u128, a1: f64), u128, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s59, 59, FnOnce, C, "C", (a0: f32, a1: u16), (), Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s60, 60, Fn, C, "C", (a0: bool, a1: i8, a2: f64), bool, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s61, 61, FnMut, C, "C", (a0: u8, a1: u16, a2: Big), f64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s62, 62, FnOnce, C, "C", (a0: D16, a1: bool, a2: u128), i32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s63, 63, Fn, C, "C", (a0: u64, a1: i32, a2: u16, a3: D16), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s64, 64, FnMut, C, "C", (a0: *const u8, a1: bool, a2: usize, a3: i32), u8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s65, 65, FnOnce, C, "C", (a0: i8, a1: u64, a2: u8, a3: f32), P8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s66, 66, Fn, C, "C", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64), P16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s67, 67, FnMut, C, "C", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8), u128, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s68, 68, FnOnce, C, "C", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool), (), Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s69, 69, Fn, C, "C", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16, a5: D16), bool, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s70, 70, FnMut, C, "C", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16), f64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s71, 71, FnOnce, C, "C", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8), i32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s72, 72, Fn, C, "C", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s73, 73, FnMut, C, "C", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8), u8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s74, 74, FnOnce, C, "C", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16), P8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s75, 75, Fn, C, "C", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: u16, a7: D16), P16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s76, 76, FnMut, C, "C", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8), u128, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s77, 77, FnOnce, C, "C", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8, a7: u64), (), Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s78, 78, Fn, C, "C", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64), bool, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s79, 79, FnMut, C, "C", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8, a8: u64), f64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s80, 80, FnOnce, C, "C", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8), i32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s81, 81, Fn, C, "C", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32, a8: u16, a9: D16), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s82, 82, FnMut, C, "C", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16, a9: D16), u8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s83, 83, FnOnce, C, "C", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8, a9: i8), P8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s84, 84, Fn, C, "C", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64), P16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s85, 85, FnMut, C, "C", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big, a9: i8, a10: u8), u128, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s86, 86, FnOnce, C, "C", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64, a9: i32, a10: P16), (), Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s87, 87, Fn, C, "C", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: u64, a9: i32, a10: u16, a11: D16), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s88, 88, FnMut, C, "C", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8, a11: bool), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s89, 89, FnOnce, C, "C", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: i64, a10: Big, a11: P8), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s90, 90, Fn, C, "C", (), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s91, 91, FnMut, C, "C", (), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s92, 92, FnOnce, C, "C", (), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s93, 93, Fn, C, "C", (a0: u8, a1: P16), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s94, 94, FnMut, C, "C", (a0: D16, a1: u128), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s95, 95, FnOnce, C, "C", (a0: u64, a1: u8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s96, 96, Fn, C, "C", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s97, 97, FnMut, C, "C", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s98, 98, FnOnce, C, "C", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s99, 99, Fn, C, "C", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32, a9: *const u8, a10: Big, a11: u128), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s100, 100, FnMut, C, "C", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8, a10: bool, a11: usize), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s101, 101, FnOnce, C, "C", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16, a7: i64, a8: Big, a9: P8, a10: i8, a11: u64), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s102, 102, Fn, CUnwind, "C-unwind", (), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s103, 103, FnMut, CUnwind, "C-unwind", (), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s104, 104, FnOnce, CUnwind, "C-unwind", (), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s105, 105, Fn, CUnwind, "C-unwind", (a0: Tok), Big, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s106, 106, FnMut, CUnwind, "C-unwind", (a0: u128), bool, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s107, 107, FnOnce, CUnwind, "C-unwind", (a0: Tok), f64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s108, 108, Fn, CUnwind, "C-unwind", (a0: bool, a1: i8), D16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s109, 109, FnMut, CUnwind, "C-unwind", (a0: u8, a1: Tok), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s110, 110, FnOnce, CUnwind, "C-unwind", (a0: D16, a1: bool), u8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s111, 111, Fn, CUnwind, "C-unwind", (a0: u64, a1: i32, a2: Tok), f32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s112, 112, FnMut, CUnwind, "C-unwind", (a0: *const u8, a1: bool, a2: usize), P16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s113, 113, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: u64, a2: u8), u128, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s114, 114, Fn, CUnwind, "C-unwind", (a0: P16, a1: i64, a2: bool, a3: i8), Big, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s115, 115, FnMut, CUnwind, "C-unwind", (a0: P8, a1: u64, a2: Tok, a3: i64), bool, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s116, 116, FnOnce, CUnwind, "C-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16), f64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s117, 117, Fn, CUnwind, "C-unwind", (a0: Big, a1: u128, a2: u64, a3: i32, a4: Tok), D16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s118, 118, FnMut, CUnwind, "C-unwind", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s119, 119, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: Big, a2: P8, a3: i8, a4: u64), u8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s120, 120, Fn, CUnwind, "C-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8), f32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s121, 121, FnMut, CUnwind, "C-unwind", (a0: u16, a1: Tok, a2: i8, a3: u8, a4: u16, a5: Big), P16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s122, 122, FnOnce, CUnwind, "C-unwind", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8), u128, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s123, 123, Fn, CUnwind, "C-unwind", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: Tok), Big, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s124, 124, FnMut, CUnwind, "C-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32), bool, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s125, 125, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8), f64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s126, 126, Fn, CUnwind, "C-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s127, 127, FnMut, CUnwind, "C-unwind", (a0: Tok, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s128, 128, FnOnce, CUnwind, "C-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16), u8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s129, 129, Fn, CUnwind, "C-unwind", (a0: i8, a1: f64, a2: Tok, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32, a8: u16), f32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s130, 130, FnMut, CUnwind, "C-unwind", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16), P16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s131, 131, FnOnce, CUnwind, "C-unwind", (a0: P8, a1: i8, a2: u64, a3: Tok, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8), u128, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s132, 132, Fn, CUnwind, "C-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8), Big, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s133, 133, FnMut, CUnwind, "C-unwind", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: Tok, a8: Big, a9: i8), bool, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s134, 134, FnOnce, CUnwind, "C-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64, a9: i32), f64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s135, 135, Fn, CUnwind, "C-unwind", (a0: i64, a1: bool, a2: Tok, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: u64, a9: i32, a10: u16), D16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s136, 136, FnMut, CUnwind, "C-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s137, 137, FnOnce, CUnwind, "C-unwind", (a0: u16, a1: i64, a2: Big, a3: Tok, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: i64, a10: Big), u8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s138, 138, Fn, CUnwind, "C-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64, a10: bool, a11: i8), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s139, 139, FnMut, CUnwind, "C-unwind", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32, a9: i64, a10: Tok, a11: u64), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s140, 140, FnOnce, CUnwind, "C-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128, a10: usize, a11: f64), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s141, 141, Fn, CUnwind, "C-unwind", (), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s142, 142, FnMut, CUnwind, "C-unwind", (), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s143, 143, FnOnce, CUnwind, "C-unwind", (), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s144, 144, Fn, CUnwind, "C-unwind", (a0: *const u8, a1: Big), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s145, 145, FnMut, CUnwind, "C-unwind", (a0: i8, a1: Tok), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s146, 146, FnOnce, CUnwind, "C-unwind", (a0: P16, a1: *const u8), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s147, 147, Fn, CUnwind, "C-unwind", (a0: P8, a1: usize, a2: u8, a3: P16, a4: Tok, a5: bool, a6: i8), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s148, 148, FnMut, CUnwind, "C-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s149, 149, FnOnce, CUnwind, "C-unwind", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: Tok, a6: u16), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s150, 150, Fn, CUnwind, "C-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16, a9: P8, a10: usize, a11: u8), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s151, 151, FnMut, CUnwind, "C-unwind", (a0: i64, a1: P8, a2: u64, a3: f32, a4: Tok, a5: P8, a6: u64, a7: f32, a8: i64, a9: P8, a10: u64, a11: f32), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s152, 152, FnOnce, CUnwind, "C-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize, a9: f64, a10: i32, a11: P16), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s153, 153, Fn, System, "system", (), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s154, 154, FnMut, System, "system", (), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s155, 155, FnOnce, System, "system", (), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s156, 156, Fn, System, "system", (a0: bool), i32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s157, 157, FnMut, System, "system", (a0: u8), f32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s158, 158, FnOnce, System, "system", (a0: D16), P16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s159, 159, Fn, System, "system", (a0: u64, a1: i32), P8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s160, 160, FnMut, System, "system", (a0: *const u8, a1: bool), Big, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s161, 161, FnOnce, System, "system", (a0: i8, a1: u64), bool, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s162, 162, Fn, System, "system", (a0: P16, a1: i64, a2: bool), (), Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s163, 163, FnMut, System, "system", (a0: P8, a1: u64, a2: f32), D16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s164, 164, FnOnce, System, "system", (a0: i32, a1: P16, a2: *const u8), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s165, 165, Fn, System, "system", (a0: Big, a1: u128, a2: u64, a3: i32), i32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s166, 166, FnMut, System, "system", (a0: f64, a1: P16, a2: D16, a3: u128), f32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s167, 167, FnOnce, System, "system", (a0: i64, a1: Big, a2: P8, a3: i8), P16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s168, 168, Fn, System, "system", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool), P8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s169, 169, FnMut, System, "system", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16), Big, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s170, 170, FnOnce, System, "system", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16), bool, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s171, 171, Fn, System, "system", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32), (), Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s172, 172, FnMut, System, "system", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize), D16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s173, 173, FnOnce, System, "system", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s174, 174, Fn, System, "system", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool), i32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s175, 175, FnMut, System, "system", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64), f32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s176, 176, FnOnce, System, "system", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32), P16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s177, 177, Fn, System, "system", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32), P8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s178, 178, FnMut, System, "system", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64), Big, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s179, 179, FnOnce, System, "system", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big), bool, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s180, 180, Fn, System, "system", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool), (), Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s181, 181, FnMut, System, "system", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big), D16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s182, 182, FnOnce, System, "system", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s183, 183, Fn, System, "system", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: u64, a9: i32), i32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s184, 184, FnMut, System, "system", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32), f32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s185, 185, FnOnce, System, "system", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: i64), P16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s186, 186, Fn, System, "system", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64, a10: bool), P8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s187, 187, FnMut, System, "system", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32, a9: i64, a10: P8), Big, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s188, 188, FnOnce, System, "system", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128, a10: usize), bool, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s189, 189, Fn, System, "system", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big, a9: u128, a10: u64, a11: i32), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s190, 190, FnMut, System, "system", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128, a10: f64, a11: P16), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s191, 191, FnOnce, System, "system", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64, a9: u8, a10: f32, a11: u16), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s192, 192, Fn, System, "system", (), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s193, 193, FnMut, System, "system", (), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s194, 194, FnOnce, System, "system", (), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s195, 195, Fn, System, "system", (a0: P8, a1: usize), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s196, 196, FnMut, System, "system", (a0: i32, a1: *const u8), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s197, 197, FnOnce, System, "system", (a0: Big, a1: P8), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s198, 198, Fn, System, "system", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s199, 199, FnMut, System, "system", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s200, 200, FnOnce, System, "system", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s201, 201, Fn, System, "system", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: P16, a6: i64, a7: bool, a8: i8, a9: f64, a10: f32, a11: *const u8), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s202, 202, FnMut, System, "system", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16, a7: D16, a8: u128, a9: f64, a10: P16, a11: D16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s203, 203, FnOnce, System, "system", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64, a7: u8, a8: f32, a9: u16, a10: i64, a11: Big), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s204, 204, Fn, SystemUnwind, "system-unwind", (), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s205, 205, FnMut, SystemUnwind, "system-unwind", (), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s206, 206, FnOnce, SystemUnwind, "system-unwind", (), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s207, 207, Fn, SystemUnwind, "system-unwind", (a0: Tok), u128, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s208, 208, FnMut, SystemUnwind, "system-unwind", (a0: *const u8), (), Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s209, 209, FnOnce, SystemUnwind, "system-unwind", (a0: Tok), D16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s210, 210, Fn, SystemUnwind, "system-unwind", (a0: P16, a1: i64), f64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s211, 211, FnMut, SystemUnwind, "system-unwind", (a0: Tok, a1: u64), i32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s212, 212, FnOnce, SystemUnwind, "system-unwind", (a0: i32, a1: P16), f32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s213, 213, Fn, SystemUnwind, "system-unwind", (a0: Big, a1: u128, a2: Tok), u8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s214, 214, FnMut, SystemUnwind, "system-unwind", (a0: f64, a1: P16, a2: D16), P8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s215, 215, FnOnce, SystemUnwind, "system-unwind", (a0: Tok, a1: Big, a2: P8), Big, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s216, 216, Fn, SystemUnwind, "system-unwind", (a0: usize, a1: u8, a2: P16, a3: i64), u128, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s217, 217, FnMut, SystemUnwind, "system-unwind", (a0: u16, a1: Tok, a2: i8, a3: u8), (), Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s218, 218, FnOnce, SystemUnwind, "system-unwind", (a0: u128, a1: usize, a2: f64, a3: i32), D16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s219, 219, Fn, SystemUnwind, "system-unwind", (a0: Tok, a1: *const u8, a2: Big, a3: u128, a4: u64), f64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s220, 220, FnMut, SystemUnwind, "system-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool), i32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s221, 221, FnOnce, SystemUnwind, "system-unwind", (a0: u8, a1: Tok, a2: u16, a3: i64, a4: Big), f32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s222, 222, Fn, SystemUnwind, "system-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64), u8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s223, 223, FnMut, SystemUnwind, "system-unwind", (a0: u64, a1: f32, a2: i64, a3: P8, a4: Tok, a5: f32), P8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s224, 224, FnOnce, SystemUnwind, "system-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64), Big, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s225, 225, Fn, SystemUnwind, "system-unwind", (a0: i8, a1: Tok, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64), u128, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s226, 226, FnMut, SystemUnwind, "system-unwind", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128), (), Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s227, 227, FnOnce, SystemUnwind, "system-unwind", (a0: P8, a1: i8, a2: Tok, a3: u8, a4: f32, a5: u16, a6: i64), D16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s228, 228, Fn, SystemUnwind, "system-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64), f64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s229, 229, FnMut, SystemUnwind, "system-unwind", (a0: Big, a1: i8, a2: u8, a3: Tok, a4: Big, a5: i8, a6: u8, a7: u16), i32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s230, 230, FnOnce, SystemUnwind, "system-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize), f32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s231, 231, Fn, SystemUnwind, "system-unwind", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: Tok), u8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s232, 232, FnMut, SystemUnwind, "system-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize), P8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s233, 233, FnOnce, SystemUnwind, "system-unwind", (a0: Tok, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16), Big, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s234, 234, Fn, SystemUnwind, "system-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64), u128, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s235, 235, FnMut, SystemUnwind, "system-unwind", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: Tok, a9: i64), (), Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s236, 236, FnOnce, SystemUnwind, "system-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128), D16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s237, 237, Fn, SystemUnwind, "system-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big, a9: Tok, a10: u64), f64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s238, 238, FnMut, SystemUnwind, "system-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128, a10: f64), i32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s239, 239, FnOnce, SystemUnwind, "system-unwind", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64, a9: u8, a10: Tok), f32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s240, 240, Fn, SystemUnwind, "system-unwind", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8, a10: P16, a11: i64), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s241, 241, FnMut, SystemUnwind, "system-unwind", (a0: i8, a1: Tok, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big, a8: i8, a9: u8, a10: u16, a11: Big), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s242, 242, FnOnce, SystemUnwind, "system-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32, a8: P16, a9: *const u8, a10: D16, a11: bool), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s243, 243, Fn, SystemUnwind, "system-unwind", (), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s244, 244, FnMut, SystemUnwind, "system-unwind", (), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s245, 245, FnOnce, SystemUnwind, "system-unwind", (), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s246, 246, Fn, SystemUnwind, "system-unwind", (a0: f64, a1: f32), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s247, 247, FnMut, SystemUnwind, "system-unwind", (a0: Tok, a1: P8), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s248, 248, FnOnce, SystemUnwind, "system-unwind", (a0: usize, a1: f64), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s249, 249, Fn, SystemUnwind, "system-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: P16, a6: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s250, 250, FnMut, SystemUnwind, "system-unwind", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s251, 251, FnOnce, SystemUnwind, "system-unwind", (a0: Tok, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s252, 252, Fn, SystemUnwind, "system-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u128, a7: u64, a8: i32, a9: u16, a10: D16, a11: P8), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s253, 253, FnMut, SystemUnwind, "system-unwind", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big, a7: Tok, a8: u8, a9: u16, a10: Big, a11: i8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s254, 254, FnOnce, SystemUnwind, "system-unwind", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16, a9: bool, a10: u128, a11: usize), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s255, 255, Fn, Efiapi, "efiapi", (), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s256, 256, FnMut, Efiapi, "efiapi", (), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s257, 257, FnOnce, Efiapi, "efiapi", (), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s258, 258, Fn, Efiapi, "efiapi", (a0: P16), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s259, 259, FnMut, Efiapi, "efiapi", (a0: P8), u8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s260, 260, FnOnce, Efiapi, "efiapi", (a0: i32), P8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s261, 261, Fn, Efiapi, "efiapi", (a0: Big, a1: u128), P16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s262, 262, FnMut, Efiapi, "efiapi", (a0: f64, a1: P16), u128, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s263, 263, FnOnce, Efiapi, "efiapi", (a0: i64, a1: Big), (), Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s264, 264, Fn, Efiapi, "efiapi", (a0: usize, a1: u8, a2: P16), bool, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s265, 265, FnMut, Efiapi, "efiapi", (a0: u16, a1: Big, a2: i8), f64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s266, 266, FnOnce, Efiapi, "efiapi", (a0: u128, a1: usize, a2: f64), i32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s267, 267, Fn, Efiapi, "efiapi", (a0: f32, a1: *const u8, a2: Big, a3: u128), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s268, 268, FnMut, Efiapi, "efiapi", (a0: bool, a1: usize, a2: i32, a3: *const u8), u8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s269, 269, FnOnce, Efiapi, "efiapi", (a0: u8, a1: f32, a2: u16, a3: i64), P8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s270, 270, Fn, Efiapi, "efiapi", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16), P16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s271, 271, FnMut, Efiapi, "efiapi", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64), u128, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s272, 272, FnOnce, Efiapi, "efiapi", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize), (), Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s273, 273, Fn, Efiapi, "efiapi", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128), bool, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s274, 274, FnMut, Efiapi, "efiapi", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16), f64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s275, 275, FnOnce, Efiapi, "efiapi", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16), i32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s276, 276, Fn, Efiapi, "efiapi", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s277, 277, FnMut, Efiapi, "efiapi", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8), u8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s278, 278, FnOnce, Efiapi, "efiapi", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128), P8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s279, 279, Fn, Efiapi, "efiapi", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128), P16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s280, 280, FnMut, Efiapi, "efiapi", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool), u128, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s281, 281, FnOnce, Efiapi, "efiapi", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32), (), Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s282, 282, Fn, Efiapi, "efiapi", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16), bool, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s283, 283, FnMut, Efiapi, "efiapi", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32), f64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s284, 284, FnOnce, Efiapi, "efiapi", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool), i32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s285, 285, Fn, Efiapi, "efiapi", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big, a9: u128), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s286, 286, FnMut, Efiapi, "efiapi", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128), u8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s287, 287, FnOnce, Efiapi, "efiapi", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64, a9: u8), P8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s288, 288, Fn, Efiapi, "efiapi", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8, a10: P16), P16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s289, 289, FnMut, Efiapi, "efiapi", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big, a8: i8, a9: u8, a10: u16), u128, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s290, 290, FnOnce, Efiapi, "efiapi", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32, a8: P16, a9: *const u8, a10: D16), (), Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s291, 291, Fn, Efiapi, "efiapi", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32, a9: *const u8, a10: Big, a11: u128), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s292, 292, FnMut, Efiapi, "efiapi", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8, a10: bool, a11: usize), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s293, 293, FnOnce, Efiapi, "efiapi", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16, a7: i64, a8: Big, a9: P8, a10: i8, a11: u64), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s294, 294, Fn, Efiapi, "efiapi", (), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s295, 295, FnMut, Efiapi, "efiapi", (), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s296, 296, FnOnce, Efiapi, "efiapi", (), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s297, 297, Fn, Efiapi, "efiapi", (a0: u16, a1: D16), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s298, 298, FnMut, Efiapi, "efiapi", (a0: u128, a1: f64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s299, 299, FnOnce, Efiapi, "efiapi", (a0: f32, a1: u16), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s300, 300, Fn, Efiapi, "efiapi", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u128), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s301, 301, FnMut, Efiapi, "efiapi", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s302, 302, FnOnce, Efiapi, "efiapi", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32, a6: P16), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s303, 303, Fn, Efiapi, "efiapi", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16, a8: i64, a9: bool, a10: i8, a11: f64), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s304, 304, FnMut, Efiapi, "efiapi", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32, a8: *const u8, a9: bool, a10: usize, a11: i32), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s305, 305, FnOnce, Efiapi, "efiapi", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: P8, a8: i8, a9: u64, a10: u8, a11: f32), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s306, 306, Fn, Sysv64, "sysv64", (), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s307, 307, FnMut, Sysv64, "sysv64", (), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s308, 308, FnOnce, Sysv64, "sysv64", (), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s309, 309, Fn, Sysv64, "sysv64", (a0: Big), Big, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s310, 310, FnMut, Sysv64, "sysv64", (a0: f64), bool, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s311, 311, FnOnce, Sysv64, "sysv64", (a0: i64), f64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s312, 312, Fn, Sysv64, "sysv64", (a0: usize, a1: u8), D16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s313, 313, FnMut, Sysv64, "sysv64", (a0: u16, a1: Big), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s314, 314, FnOnce, Sysv64, "sysv64", (a0: u128, a1: usize), u8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s315, 315, Fn, Sysv64, "sysv64", (a0: f32, a1: *const u8, a2: Big), f32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s316, 316, FnMut, Sysv64, "sysv64", (a0: bool, a1: usize, a2: i32), P16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s317, 317, FnOnce, Sysv64, "sysv64", (a0: u8, a1: f32, a2: u16), u128, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s318, 318, Fn, Sysv64, "sysv64", (a0: D16, a1: P8, a2: usize, a3: u8), Big, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s319, 319, FnMut, Sysv64, "sysv64", (a0: u64, a1: f32, a2: i64, a3: P8), bool, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s320, 320, FnOnce, Sysv64, "sysv64", (a0: *const u8, a1: D16, a2: bool, a3: u128), f64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s321, 321, Fn, Sysv64, "sysv64", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big), D16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s322, 322, FnMut, Sysv64, "sysv64", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s323, 323, FnOnce, Sysv64, "sysv64", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32), u8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s324, 324, Fn, Sysv64, "sysv64", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8), f32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s325, 325, FnMut, Sysv64, "sysv64", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8), P16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s326, 326, FnOnce, Sysv64, "sysv64", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool), u128, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s327, 327, Fn, Sysv64, "sysv64", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big), Big, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s328, 328, FnMut, Sysv64, "sysv64", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8), bool, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s329, 329, FnOnce, Sysv64, "sysv64", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8), f64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s330, 330, Fn, Sysv64, "sysv64", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s331, 331, FnMut, Sysv64, "sysv64", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s332, 332, FnOnce, Sysv64, "sysv64", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16), u8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s333, 333, Fn, Sysv64, "sysv64", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big), f32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s334, 334, FnMut, Sysv64, "sysv64", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16), P16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s335, 335, FnOnce, Sysv64, "sysv64", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64), u128, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s336, 336, Fn, Sysv64, "sysv64", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8), Big, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s337, 337, FnMut, Sysv64, "sysv64", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big, a8: i8, a9: u8), bool, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s338, 338, FnOnce, Sysv64, "sysv64", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32, a8: P16, a9: *const u8), f64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s339, 339, Fn, Sysv64, "sysv64", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32, a9: *const u8, a10: Big), D16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s340, 340, FnMut, Sysv64, "sysv64", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8, a10: bool), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s341, 341, FnOnce, Sysv64, "sysv64", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16, a7: i64, a8: Big, a9: P8, a10: i8), u8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s342, 342, Fn, Sysv64, "sysv64", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16, a9: P8, a10: usize, a11: u8), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s343, 343, FnMut, Sysv64, "sysv64", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32, a8: i64, a9: P8, a10: u64, a11: f32), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s344, 344, FnOnce, Sysv64, "sysv64", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize, a9: f64, a10: i32, a11: P16), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s345, 345, Fn, Sysv64, "sysv64", (), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s346, 346, FnMut, Sysv64, "sysv64", (), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s347, 347, FnOnce, Sysv64, "sysv64", (), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s348, 348, Fn, Sysv64, "sysv64", (a0: bool, a1: i8), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s349, 349, FnMut, Sysv64, "sysv64", (a0: u8, a1: u16), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s350, 350, FnOnce, Sysv64, "sysv64", (a0: D16, a1: bool), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s351, 351, Fn, Sysv64, "sysv64", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s352, 352, FnMut, Sysv64, "sysv64", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s353, 353, FnOnce, Sysv64, "sysv64", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s354, 354, Fn, Sysv64, "sysv64", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big, a8: u128, a9: u64, a10: i32, a11: u16), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s355, 355, FnMut, Sysv64, "sysv64", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32, a7: i64, a8: P8, a9: u64, a10: f32, a11: i64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s356, 356, FnOnce, Sysv64, "sysv64", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128, a6: usize, a7: f64, a8: i32, a9: P16, a10: *const u8, a11: D16), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s357, 357, Fn, Sysv64Unwind, "sysv64-unwind", (), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s358, 358, FnMut, Sysv64Unwind, "sysv64-unwind", (), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s359, 359, FnOnce, Sysv64Unwind, "sysv64-unwind", (), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s360, 360, Fn, Sysv64Unwind, "sysv64-unwind", (a0: usize), i32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s361, 361, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: Tok), f32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s362, 362, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: u128), P16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s363, 363, Fn, Sysv64Unwind, "sysv64-unwind", (a0: Tok, a1: *const u8), P8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s364, 364, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: bool, a1: usize), Big, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s365, 365, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: u8, a1: Tok), bool, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s366, 366, Fn, Sysv64Unwind, "sysv64-unwind", (a0: D16, a1: P8, a2: usize), (), Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s367, 367, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: u64, a1: Tok, a2: i64), D16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s368, 368, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: *const u8, a1: D16, a2: bool), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s369, 369, Fn, Sysv64Unwind, "sysv64-unwind", (a0: i8, a1: Tok, a2: f32, a3: *const u8), i32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s370, 370, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: P16, a1: D16, a2: u128, a3: f64), f32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s371, 371, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: P8, a1: i8, a2: Tok, a3: u8), P16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s372, 372, Fn, Sysv64Unwind, "sysv64-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize), P8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s373, 373, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: Big, a1: i8, a2: Tok, a3: u16, a4: Big), Big, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s374, 374, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16), bool, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s375, 375, Fn, Sysv64Unwind, "sysv64-unwind", (a0: i64, a1: bool, a2: Tok, a3: f64, a4: f32, a5: *const u8), (), Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s376, 376, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32), D16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s377, 377, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: u16, a1: i64, a2: Big, a3: Tok, a4: i8, a5: u64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s378, 378, Fn, Sysv64Unwind, "sysv64-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize), i32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s379, 379, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: f32, a1: Tok, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8), f32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s380, 380, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8), P16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s381, 381, Fn, Sysv64Unwind, "sysv64-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: Tok), P8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s382, 382, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16), Big, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s383, 383, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: Tok, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8), bool, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s384, 384, Fn, Sysv64Unwind, "sysv64-unwind", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize), (), Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s385, 385, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: i8, a1: u8, a2: u16, a3: Big, a4: Tok, a5: u8, a6: u16, a7: Big, a8: i8), D16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s386, 386, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32, a8: P16), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s387, 387, Fn, Sysv64Unwind, "sysv64-unwind", (a0: P8, a1: usize, a2: u8, a3: P16, a4: Tok, a5: bool, a6: i8, a7: f64, a8: f32, a9: *const u8), i32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s388, 388, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8), f32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s389, 389, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: Tok, a6: u16, a7: i64, a8: Big, a9: P8), P16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s390, 390, Fn, Sysv64Unwind, "sysv64-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16, a9: P8, a10: usize), P8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s391, 391, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32, a8: i64, a9: Tok, a10: u64), Big, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s392, 392, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize, a9: f64, a10: i32), bool, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s393, 393, Fn, Sysv64Unwind, "sysv64-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: Tok, a6: i64, a7: bool, a8: i8, a9: f64, a10: f32, a11: *const u8), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s394, 394, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16, a7: D16, a8: u128, a9: f64, a10: P16, a11: D16), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s395, 395, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: Tok, a7: u8, a8: f32, a9: u16, a10: i64, a11: Big), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s396, 396, Fn, Sysv64Unwind, "sysv64-unwind", (), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s397, 397, FnMut, Sysv64Unwind, "sysv64-unwind", (), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s398, 398, FnOnce, Sysv64Unwind, "sysv64-unwind", (), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s399, 399, Fn, Sysv64Unwind, "sysv64-unwind", (a0: Tok, a1: i32), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s400, 400, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: *const u8, a1: bool), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s401, 401, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: i8, a1: Tok), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s402, 402, Fn, Sysv64Unwind, "sysv64-unwind", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s403, 403, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: Tok), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s404, 404, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128, a6: usize), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s405, 405, Fn, Sysv64Unwind, "sysv64-unwind", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8, a7: usize, a8: u8, a9: P16, a10: i64, a11: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s406, 406, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16, a7: u128, a8: f64, a9: P16, a10: D16, a11: u128), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s407, 407, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: Tok, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: i64, a9: Big, a10: P8, a11: i8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s408, 408, Fn, Win64, "win64", (), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s409, 409, FnMut, Win64, "win64", (), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s410, 410, FnOnce, Win64, "win64", (), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s411, 411, Fn, Win64, "win64", (a0: f32), u128, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s412, 412, FnMut, Win64, "win64", (a0: bool), (), Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s413, 413, FnOnce, Win64, "win64", (a0: u8), D16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s414, 414, Fn, Win64, "win64", (a0: D16, a1: P8), f64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s415, 415, FnMut, Win64, "win64", (a0: u64, a1: f32), i32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s416, 416, FnOnce, Win64, "win64", (a0: *const u8, a1: D16), f32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s417, 417, Fn, Win64, "win64", (a0: i8, a1: f64, a2: f32), u8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s418, 418, FnMut, Win64, "win64", (a0: P16, a1: D16, a2: u128), P8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s419, 419, FnOnce, Win64, "win64", (a0: P8, a1: i8, a2: u64), Big, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s420, 420, Fn, Win64, "win64", (a0: i32, a1: u16, a2: D16, a3: P8), u128, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s421, 421, FnMut, Win64, "win64", (a0: Big, a1: i8, a2: u8, a3: u16), (), Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s422, 422, FnOnce, Win64, "win64", (a0: f64, a1: i32, a2: P16, a3: *const u8), D16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s423, 423, Fn, Win64, "win64", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32), f64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s424, 424, FnMut, Win64, "win64", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize), i32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s425, 425, FnOnce, Win64, "win64", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8), f32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s426, 426, Fn, Win64, "win64", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8), u8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s427, 427, FnMut, Win64, "win64", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64), P8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s428, 428, FnOnce, Win64, "win64", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16), Big, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s429, 429, Fn, Win64, "win64", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32), u128, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s430, 430, FnMut, Win64, "win64", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64), (), Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s431, 431, FnOnce, Win64, "win64", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8), D16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s432, 432, Fn, Win64, "win64", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8), f64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s433, 433, FnMut, Win64, "win64", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big), i32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s434, 434, FnOnce, Win64, "win64", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32), f32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s435, 435, Fn, Win64, "win64", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32), u8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s436, 436, FnMut, Win64, "win64", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32), P8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s437, 437, FnOnce, Win64, "win64", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16, a7: i64, a8: Big), Big, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s438, 438, Fn, Win64, "win64", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16, a9: P8), u128, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s439, 439, FnMut, Win64, "win64", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32, a8: i64, a9: P8), (), Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s440, 440, FnOnce, Win64, "win64", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize, a9: f64), D16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s441, 441, Fn, Win64, "win64", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: P16, a6: i64, a7: bool, a8: i8, a9: f64, a10: f32), f64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s442, 442, FnMut, Win64, "win64", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16, a7: D16, a8: u128, a9: f64, a10: P16), i32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s443, 443, FnOnce, Win64, "win64", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64, a7: u8, a8: f32, a9: u16, a10: i64), f32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s444, 444, Fn, Win64, "win64", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u128, a7: u64, a8: i32, a9: u16, a10: D16, a11: P8), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s445, 445, FnMut, Win64, "win64", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big, a7: i8, a8: u8, a9: u16, a10: Big, a11: i8), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s446, 446, FnOnce, Win64, "win64", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16, a9: bool, a10: u128, a11: usize), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s447, 447, Fn, Win64, "win64", (), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s448, 448, FnMut, Win64, "win64", (), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s449, 449, FnOnce, Win64, "win64", (), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s450, 450, Fn, Win64, "win64", (a0: P16, a1: i64), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s451, 451, FnMut, Win64, "win64", (a0: P8, a1: u64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s452, 452, FnOnce, Win64, "win64", (a0: i32, a1: P16), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s453, 453, Fn, Win64, "win64", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s454, 454, FnMut, Win64, "win64", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s455, 455, FnOnce, Win64, "win64", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s456, 456, Fn, Win64, "win64", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8, a9: Big, a10: u128, a11: u64), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s457, 457, FnMut, Win64, "win64", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: u16, a9: Big, a10: i8, a11: u8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s458, 458, FnOnce, Win64, "win64", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u128, a9: usize, a10: f64, a11: i32), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s459, 459, Fn, Win64Unwind, "win64-unwind", (), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s460, 460, FnMut, Win64Unwind, "win64-unwind", (), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s461, 461, FnOnce, Win64Unwind, "win64-unwind", (), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s462, 462, Fn, Win64Unwind, "win64-unwind", (a0: D16), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s463, 463, FnMut, Win64Unwind, "win64-unwind", (a0: Tok), u8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s464, 464, FnOnce, Win64Unwind, "win64-unwind", (a0: *const u8), P8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s465, 465, Fn, Win64Unwind, "win64-unwind", (a0: i8, a1: Tok), P16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s466, 466, FnMut, Win64Unwind, "win64-unwind", (a0: P16, a1: D16), u128, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s467, 467, FnOnce, Win64Unwind, "win64-unwind", (a0: Tok, a1: i8), (), Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s468, 468, Fn, Win64Unwind, "win64-unwind", (a0: i32, a1: u16, a2: D16), bool, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s469, 469, FnMut, Win64Unwind, "win64-unwind", (a0: Big, a1: Tok, a2: u8), f64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s470, 470, FnOnce, Win64Unwind, "win64-unwind", (a0: f64, a1: i32, a2: P16), i32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s471, 471, Fn, Win64Unwind, "win64-unwind", (a0: Tok, a1: bool, a2: i8, a3: f64), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s472, 472, FnMut, Win64Unwind, "win64-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool), u8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s473, 473, FnOnce, Win64Unwind, "win64-unwind", (a0: u16, a1: Tok, a2: Big, a3: P8), P8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s474, 474, Fn, Win64Unwind, "win64-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16), P16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s475, 475, FnMut, Win64Unwind, "win64-unwind", (a0: f32, a1: i64, a2: P8, a3: Tok, a4: f32), u128, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s476, 476, FnOnce, Win64Unwind, "win64-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32), (), Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s477, 477, Fn, Win64Unwind, "win64-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: Tok), bool, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s478, 478, FnMut, Win64Unwind, "win64-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128), f64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s479, 479, FnOnce, Win64Unwind, "win64-unwind", (a0: Tok, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big), i32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s480, 480, Fn, Win64Unwind, "win64-unwind", (a0: *const u8, a1: Big, a2: u128, a3: u64, a4: i32, a5: u16, a6: D16), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s481, 481, FnMut, Win64Unwind, "win64-unwind", (a0: i8, a1: u8, a2: u16, a3: Tok, a4: i8, a5: u8, a6: u16), u8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s482, 482, FnOnce, Win64Unwind, "win64-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64), P8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s483, 483, Fn, Win64Unwind, "win64-unwind", (a0: P8, a1: usize, a2: Tok, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64), P16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s484, 484, FnMut, Win64Unwind, "win64-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize), u128, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s485, 485, FnOnce, Win64Unwind, "win64-unwind", (a0: Big, a1: P8, a2: i8, a3: Tok, a4: u8, a5: f32, a6: u16, a7: i64), (), Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s486, 486, Fn, Win64Unwind, "win64-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16), bool, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s487, 487, FnMut, Win64Unwind, "win64-unwind", (a0: i64, a1: Tok, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32, a8: i64), f64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s488, 488, FnOnce, Win64Unwind, "win64-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize), i32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s489, 489, Fn, Win64Unwind, "win64-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: Tok, a6: i64, a7: bool, a8: i8, a9: f64), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s490, 490, FnMut, Win64Unwind, "win64-unwind", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16, a7: D16, a8: u128, a9: f64), u8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s491, 491, FnOnce, Win64Unwind, "win64-unwind", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: Tok, a7: u8, a8: f32, a9: u16), P8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s492, 492, Fn, Win64Unwind, "win64-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u128, a7: u64, a8: i32, a9: u16, a10: D16), P16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s493, 493, FnMut, Win64Unwind, "win64-unwind", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: Tok, a6: Big, a7: i8, a8: u8, a9: u16, a10: Big), u128, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s494, 494, FnOnce, Win64Unwind, "win64-unwind", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16, a9: bool, a10: u128), (), Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s495, 495, Fn, Win64Unwind, "win64-unwind", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16, a8: Tok, a9: bool, a10: i8, a11: f64), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s496, 496, FnMut, Win64Unwind, "win64-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32, a8: *const u8, a9: bool, a10: usize, a11: i32), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s497, 497, FnOnce, Win64Unwind, "win64-unwind", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: P8, a8: i8, a9: Tok, a10: u8, a11: f32), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s498, 498, Fn, Win64Unwind, "win64-unwind", (), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s499, 499, FnMut, Win64Unwind, "win64-unwind", (), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s500, 500, FnOnce, Win64Unwind, "win64-unwind", (), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s501, 501, Fn, Win64Unwind, "win64-unwind", (a0: Big, a1: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s502, 502, FnMut, Win64Unwind, "win64-unwind", (a0: f64, a1: P16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s503, 503, FnOnce, Win64Unwind, "win64-unwind", (a0: Tok, a1: Big), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s504, 504, Fn, Win64Unwind, "win64-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s505, 505, FnMut, Win64Unwind, "win64-unwind", (a0: u16, a1: Tok, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s506, 506, FnOnce, Win64Unwind, "win64-unwind", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s507, 507, Fn, Win64Unwind, "win64-unwind", (a0: f32, a1: *const u8, a2: Tok, a3: u128, a4: u64, a5: i32, a6: u16, a7: D16, a8: P8, a9: usize, a10: u8, a11: P16), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s508, 508, FnMut, Win64Unwind, "win64-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool, a9: usize, a10: i32, a11: *const u8), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s509, 509, FnOnce, Win64Unwind, "win64-unwind", (a0: u8, a1: f32, a2: u16, a3: Tok, a4: Big, a5: P8, a6: i8, a7: u64, a8: u8, a9: f32, a10: u16, a11: i64), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s510, 510, Fn, Fastcall, "fastcall", (), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s511, 511, FnMut, Fastcall, "fastcall", (), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s512, 512, FnOnce, Fastcall, "fastcall", (), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s513, 513, Fn, Fastcall, "fastcall", (a0: i8), Big, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s514, 514, FnMut, Fastcall, "fastcall", (a0: P16), bool, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s515, 515, FnOnce, Fastcall, "fastcall", (a0: P8), f64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s516, 516, Fn, Fastcall, "fastcall", (a0: i32, a1: u16), D16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s517, 517, FnMut, Fastcall, "fastcall", (a0: Big, a1: i8), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s518, 518, FnOnce, Fastcall, "fastcall", (a0: f64, a1: i32), u8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s519, 519, Fn, Fastcall, "fastcall", (a0: i64, a1: bool, a2: i8), f32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s520, 520, FnMut, Fastcall, "fastcall", (a0: usize, a1: i32, a2: *const u8), P16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s521, 521, FnOnce, Fastcall, "fastcall", (a0: u16, a1: i64, a2: Big), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s522, 522, Fn, Fastcall, "fastcall", (a0: u64, a1: u64, a2: i32, a3: u16), Big, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s523, 523, FnMut, Fastcall, "fastcall", (a0: f32, a1: i64, a2: P8, a3: u64), bool, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s524, 524, FnOnce, Fastcall, "fastcall", (a0: bool, a1: u64, a2: usize, a3: f64), f64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s525, 525, Fn, Fastcall, "fastcall", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8), D16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s526, 526, FnMut, Fastcall, "fastcall", (a0: D16, a1: u64, a2: f64, a3: P16, a4: D16), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s527, 527, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64), u8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s528, 528, Fn, Fastcall, "fastcall", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32, a5: u16), f32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s529, 529, FnMut, Fastcall, "fastcall", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8), P16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s530, 530, FnOnce, Fastcall, "fastcall", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u64, a5: usize), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s531, 531, Fn, Fastcall, "fastcall", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8), Big, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s532, 532, FnMut, Fastcall, "fastcall", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool), bool, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s533, 533, FnOnce, Fastcall, "fastcall", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16), f64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s534, 534, Fn, Fastcall, "fastcall", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u64, a5: u64, a6: i32, a7: u16), D16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s535, 535, FnMut, Fastcall, "fastcall", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s536, 536, FnOnce, Fastcall, "fastcall", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u64), u8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s537, 537, Fn, Fastcall, "fastcall", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: P16, a6: i64, a7: bool, a8: i8), f32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s538, 538, FnMut, Fastcall, "fastcall", (a0: u64, a1: f64, a2: P16, a3: D16, a4: u64, a5: f64, a6: P16, a7: D16, a8: u64), P16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s539, 539, FnOnce, Fastcall, "fastcall", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64, a7: u8, a8: f32), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s540, 540, Fn, Fastcall, "fastcall", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u64, a7: u64, a8: i32, a9: u16), Big, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s541, 541, FnMut, Fastcall, "fastcall", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big, a7: i8, a8: u8, a9: u16), bool, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s542, 542, FnOnce, Fastcall, "fastcall", (a0: D16, a1: bool, a2: u64, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16, a9: bool), f64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s543, 543, Fn, Fastcall, "fastcall", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16, a8: i64, a9: bool, a10: i8), D16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s544, 544, FnMut, Fastcall, "fastcall", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32, a8: *const u8, a9: bool, a10: usize), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s545, 545, FnOnce, Fastcall, "fastcall", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: P8, a8: i8, a9: u64, a10: u8), u8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s546, 546, Fn, Fastcall, "fastcall", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big, a8: u64, a9: u64, a10: i32, a11: u16), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s547, 547, FnMut, Fastcall, "fastcall", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32, a7: i64, a8: P8, a9: u64, a10: f32, a11: i64), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s548, 548, FnOnce, Fastcall, "fastcall", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u64, a6: usize, a7: f64, a8: i32, a9: P16, a10: *const u8, a11: D16), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s549, 549, Fn, Fastcall, "fastcall", (), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s550, 550, FnMut, Fastcall, "fastcall", (), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s551, 551, FnOnce, Fastcall, "fastcall", (), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s552, 552, Fn, Fastcall, "fastcall", (a0: usize, a1: u8), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s553, 553, FnMut, Fastcall, "fastcall", (a0: u16, a1: Big), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s554, 554, FnOnce, Fastcall, "fastcall", (a0: u64, a1: usize), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s555, 555, Fn, Fastcall, "fastcall", (a0: f32, a1: *const u8, a2: Big, a3: u64, a4: u64, a5: i32, a6: u16), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s556, 556, FnMut, Fastcall, "fastcall", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s557, 557, FnOnce, Fastcall, "fastcall", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s558, 558, Fn, Fastcall, "fastcall", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64, a9: f32, a10: *const u8, a11: Big), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s559, 559, FnMut, Fastcall, "fastcall", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8, a8: u64, a9: f32, a10: i64, a11: P8), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s560, 560, FnOnce, Fastcall, "fastcall", (a0: *const u8, a1: D16, a2: bool, a3: u64, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16, a10: bool, a11: u64), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s561, 561, Fn, FastcallUnwind, "fastcall-unwind", (), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s562, 562, FnMut, FastcallUnwind, "fastcall-unwind", (), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s563, 563, FnOnce, FastcallUnwind, "fastcall-unwind", (), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s564, 564, Fn, FastcallUnwind, "fastcall-unwind", (a0: i32), i32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s565, 565, FnMut, FastcallUnwind, "fastcall-unwind", (a0: Tok), f32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s566, 566, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: f64), P16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s567, 567, Fn, FastcallUnwind, "fastcall-unwind", (a0: Tok, a1: bool), P8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s568, 568, FnMut, FastcallUnwind, "fastcall-unwind", (a0: usize, a1: i32), Big, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s569, 569, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: u16, a1: Tok), bool, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s570, 570, Fn, FastcallUnwind, "fastcall-unwind", (a0: u64, a1: u64, a2: i32), (), Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s571, 571, FnMut, FastcallUnwind, "fastcall-unwind", (a0: f32, a1: Tok, a2: P8), D16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s572, 572, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: bool, a1: u64, a2: usize), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s573, 573, Fn, FastcallUnwind, "fastcall-unwind", (a0: u8, a1: P16, a2: i64, a3: Tok), i32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s574, 574, FnMut, FastcallUnwind, "fastcall-unwind", (a0: D16, a1: u64, a2: f64, a3: P16), f32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s575, 575, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: Tok, a1: u8, a2: f32, a3: u16), P16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s576, 576, Fn, FastcallUnwind, "fastcall-unwind", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32), P8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s577, 577, FnMut, FastcallUnwind, "fastcall-unwind", (a0: i8, a1: u8, a2: u16, a3: Big, a4: Tok), Big, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s578, 578, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u64), bool, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s579, 579, Fn, FastcallUnwind, "fastcall-unwind", (a0: P8, a1: usize, a2: Tok, a3: P16, a4: i64, a5: bool), (), Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s580, 580, FnMut, FastcallUnwind, "fastcall-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8), D16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s581, 581, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: Big, a1: P8, a2: i8, a3: Tok, a4: u8, a5: f32), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s582, 582, Fn, FastcallUnwind, "fastcall-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u64, a5: u64, a6: i32), i32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s583, 583, FnMut, FastcallUnwind, "fastcall-unwind", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: Tok, a6: u64), f32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s584, 584, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool), P16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s585, 585, Fn, FastcallUnwind, "fastcall-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: Tok, a6: i64, a7: bool), P8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s586, 586, FnMut, FastcallUnwind, "fastcall-unwind", (a0: u64, a1: f64, a2: P16, a3: D16, a4: u64, a5: f64, a6: P16, a7: D16), Big, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s587, 587, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: Tok, a7: u8), bool, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s588, 588, Fn, FastcallUnwind, "fastcall-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u64, a7: u64, a8: i32), (), Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s589, 589, FnMut, FastcallUnwind, "fastcall-unwind", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big, a7: Tok, a8: u8), D16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s590, 590, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: D16, a1: bool, a2: u64, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s591, 591, Fn, FastcallUnwind, "fastcall-unwind", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: Tok, a7: P16, a8: i64, a9: bool), i32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s592, 592, FnMut, FastcallUnwind, "fastcall-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32, a8: *const u8, a9: bool), f32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s593, 593, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: Tok, a8: i8, a9: u64), P16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s594, 594, Fn, FastcallUnwind, "fastcall-unwind", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big, a8: u64, a9: u64, a10: i32), P8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s595, 595, FnMut, FastcallUnwind, "fastcall-unwind", (a0: P8, a1: Tok, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32, a7: i64, a8: P8, a9: u64, a10: f32), Big, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s596, 596, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u64, a6: usize, a7: f64, a8: i32, a9: P16, a10: *const u8), bool, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s597, 597, Fn, FastcallUnwind, "fastcall-unwind", (a0: Big, a1: u64, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8, a7: usize, a8: u8, a9: P16, a10: i64, a11: Tok), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s598, 598, FnMut, FastcallUnwind, "fastcall-unwind", (a0: f64, a1: P16, a2: D16, a3: u64, a4: f64, a5: P16, a6: D16, a7: u64, a8: f64, a9: P16, a10: D16, a11: u64), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s599, 599, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: Tok, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: i64, a9: Big, a10: P8, a11: i8), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s600, 600, Fn, FastcallUnwind, "fastcall-unwind", (), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s601, 601, FnMut, FastcallUnwind, "fastcall-unwind", (), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s602, 602, FnOnce, FastcallUnwind, "fastcall-unwind", (), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s603, 603, Fn, FastcallUnwind, "fastcall-unwind", (a0: Tok, a1: *const u8), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s604, 604, FnMut, FastcallUnwind, "fastcall-unwind", (a0: bool, a1: usize), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s605, 605, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: u8, a1: Tok), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s606, 606, Fn, FastcallUnwind, "fastcall-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s607, 607, FnMut, FastcallUnwind, "fastcall-unwind", (a0: u64, a1: f32, a2: i64, a3: Tok, a4: u64, a5: f32, a6: i64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s608, 608, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u64, a4: usize, a5: f64, a6: i32), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s609, 609, Fn, FastcallUnwind, "fastcall-unwind", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: Tok, a6: u64, a7: i32, a8: u16, a9: D16, a10: P8, a11: usize), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s610, 610, FnMut, FastcallUnwind, "fastcall-unwind", (a0: P16, a1: D16, a2: u64, a3: f64, a4: P16, a5: D16, a6: u64, a7: f64, a8: P16, a9: D16, a10: u64, a11: f64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s611, 611, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: Tok, a7: Big, a8: P8, a9: i8, a10: u64, a11: u8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s612, 612, Fn, Stdcall, "stdcall", (), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s613, 613, FnMut, Stdcall, "stdcall", (), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s614, 614, FnOnce, Stdcall, "stdcall", (), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s615, 615, Fn, Stdcall, "stdcall", (a0: i64), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s616, 616, FnMut, Stdcall, "stdcall", (a0: usize), (), Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s617, 617, FnOnce, Stdcall, "stdcall", (a0: u16), D16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s618, 618, Fn, Stdcall, "stdcall", (a0: u64, a1: u64), f64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s619, 619, FnMut, Stdcall, "stdcall", (a0: f32, a1: i64), i32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s620, 620, FnOnce, Stdcall, "stdcall", (a0: bool, a1: u64), f32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s621, 621, Fn, Stdcall, "stdcall", (a0: u8, a1: P16, a2: i64), u8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s622, 622, FnMut, Stdcall, "stdcall", (a0: D16, a1: u64, a2: f64), P8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s623, 623, FnOnce, Stdcall, "stdcall", (a0: u64, a1: u8, a2: f32), Big, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s624, 624, Fn, Stdcall, "stdcall", (a0: *const u8, a1: Big, a2: u64, a3: u64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s625, 625, FnMut, Stdcall, "stdcall", (a0: i8, a1: u8, a2: u16, a3: Big), (), Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s626, 626, FnOnce, Stdcall, "stdcall", (a0: P16, a1: *const u8, a2: D16, a3: bool), D16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s627, 627, Fn, Stdcall, "stdcall", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64), f64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s628, 628, FnMut, Stdcall, "stdcall", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32), i32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s629, 629, FnOnce, Stdcall, "stdcall", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8), f32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s630, 630, Fn, Stdcall, "stdcall", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u64, a5: u64), u8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s631, 631, FnMut, Stdcall, "stdcall", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8), P8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s632, 632, FnOnce, Stdcall, "stdcall", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16), Big, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s633, 633, Fn, Stdcall, "stdcall", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: P16, a6: i64), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s634, 634, FnMut, Stdcall, "stdcall", (a0: u64, a1: f64, a2: P16, a3: D16, a4: u64, a5: f64, a6: P16), (), Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s635, 635, FnOnce, Stdcall, "stdcall", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64), D16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s636, 636, Fn, Stdcall, "stdcall", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u64, a7: u64), f64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s637, 637, FnMut, Stdcall, "stdcall", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big, a7: i8), i32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s638, 638, FnOnce, Stdcall, "stdcall", (a0: D16, a1: bool, a2: u64, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8), f32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s639, 639, Fn, Stdcall, "stdcall", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16, a8: i64), u8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s640, 640, FnMut, Stdcall, "stdcall", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32, a8: *const u8), P8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s641, 641, FnOnce, Stdcall, "stdcall", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: P8, a8: i8), Big, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s642, 642, Fn, Stdcall, "stdcall", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big, a8: u64, a9: u64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s643, 643, FnMut, Stdcall, "stdcall", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32, a7: i64, a8: P8, a9: u64), (), Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s644, 644, FnOnce, Stdcall, "stdcall", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u64, a6: usize, a7: f64, a8: i32, a9: P16), D16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s645, 645, Fn, Stdcall, "stdcall", (a0: Big, a1: u64, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8, a7: usize, a8: u8, a9: P16, a10: i64), f64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s646, 646, FnMut, Stdcall, "stdcall", (a0: f64, a1: P16, a2: D16, a3: u64, a4: f64, a5: P16, a6: D16, a7: u64, a8: f64, a9: P16, a10: D16), i32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s647, 647, FnOnce, Stdcall, "stdcall", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: i64, a9: Big, a10: P8), f32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s648, 648, Fn, Stdcall, "stdcall", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8, a9: Big, a10: u64, a11: u64), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s649, 649, FnMut, Stdcall, "stdcall", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: u16, a9: Big, a10: i8, a11: u8), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s650, 650, FnOnce, Stdcall, "stdcall", (a0: u64, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u64, a9: usize, a10: f64, a11: i32), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s651, 651, Fn, Stdcall, "stdcall", (), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s652, 652, FnMut, Stdcall, "stdcall", (), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s653, 653, FnOnce, Stdcall, "stdcall", (), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s654, 654, Fn, Stdcall, "stdcall", (a0: D16, a1: P8), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s655, 655, FnMut, Stdcall, "stdcall", (a0: u64, a1: f32), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s656, 656, FnOnce, Stdcall, "stdcall", (a0: *const u8, a1: D16), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s657, 657, Fn, Stdcall, "stdcall", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u64, a6: u64), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s658, 658, FnMut, Stdcall, "stdcall", (a0: P16, a1: D16, a2: u64, a3: f64, a4: P16, a5: D16, a6: u64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s659, 659, FnOnce, Stdcall, "stdcall", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s660, 660, Fn, Stdcall, "stdcall", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64, a11: f32), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s661, 661, FnMut, Stdcall, "stdcall", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big, a9: i8, a10: u8, a11: u16), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s662, 662, FnOnce, Stdcall, "stdcall", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u64, a7: usize, a8: f64, a9: i32, a10: P16, a11: *const u8), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s663, 663, Fn, StdcallUnwind, "stdcall-unwind", (), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s664, 664, FnMut, StdcallUnwind, "stdcall-unwind", (), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s665, 665, FnOnce, StdcallUnwind, "stdcall-unwind", (), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s666, 666, Fn, StdcallUnwind, "stdcall-unwind", (a0: u64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s667, 667, FnMut, StdcallUnwind, "stdcall-unwind", (a0: Tok), u8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s668, 668, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: bool), P8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s669, 669, Fn, StdcallUnwind, "stdcall-unwind", (a0: u8, a1: Tok), P16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s670, 670, FnMut, StdcallUnwind, "stdcall-unwind", (a0: D16, a1: u64), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s671, 671, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: u8), (), Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s672, 672, Fn, StdcallUnwind, "stdcall-unwind", (a0: *const u8, a1: Big, a2: u64), bool, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s673, 673, FnMut, StdcallUnwind, "stdcall-unwind", (a0: i8, a1: Tok, a2: u16), f64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s674, 674, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: P16, a1: *const u8, a2: D16), i32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s675, 675, Fn, StdcallUnwind, "stdcall-unwind", (a0: P8, a1: usize, a2: Tok, a3: P16), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s676, 676, FnMut, StdcallUnwind, "stdcall-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize), u8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s677, 677, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: Big, a1: P8, a2: i8, a3: Tok), P8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s678, 678, Fn, StdcallUnwind, "stdcall-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u64), P16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s679, 679, FnMut, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: P8, a2: u64, a3: f32, a4: i64), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s680, 680, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8), (), Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s681, 681, Fn, StdcallUnwind, "stdcall-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: Tok), bool, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s682, 682, FnMut, StdcallUnwind, "stdcall-unwind", (a0: u64, a1: f64, a2: P16, a3: D16, a4: u64, a5: f64), f64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s683, 683, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8), i32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s684, 684, Fn, StdcallUnwind, "stdcall-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s685, 685, FnMut, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16, a6: Big), u8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s686, 686, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: D16, a1: bool, a2: u64, a3: usize, a4: f64, a5: i32, a6: P16), P8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s687, 687, Fn, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16), P16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s688, 688, FnMut, StdcallUnwind, "stdcall-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize, a7: i32), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s689, 689, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: i8, a1: Tok, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big, a7: P8), (), Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s690, 690, Fn, StdcallUnwind, "stdcall-unwind", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big, a8: u64), bool, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s691, 691, FnMut, StdcallUnwind, "stdcall-unwind", (a0: P8, a1: u64, a2: f32, a3: i64, a4: Tok, a5: u64, a6: f32, a7: i64, a8: P8), f64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s692, 692, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u64, a6: usize, a7: f64, a8: i32), i32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s693, 693, Fn, StdcallUnwind, "stdcall-unwind", (a0: Big, a1: u64, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8, a7: Tok, a8: u8, a9: P16), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s694, 694, FnMut, StdcallUnwind, "stdcall-unwind", (a0: f64, a1: P16, a2: D16, a3: u64, a4: f64, a5: P16, a6: D16, a7: u64, a8: f64, a9: P16), u8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s695, 695, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: Tok, a9: Big), P8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s696, 696, Fn, StdcallUnwind, "stdcall-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8, a9: Big, a10: u64), P16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s697, 697, FnMut, StdcallUnwind, "stdcall-unwind", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: Tok, a9: Big, a10: i8), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s698, 698, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: u64, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u64, a9: usize, a10: f64), (), Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s699, 699, Fn, StdcallUnwind, "stdcall-unwind", (a0: f32, a1: *const u8, a2: Tok, a3: u64, a4: u64, a5: i32, a6: u16, a7: D16, a8: P8, a9: usize, a10: u8, a11: P16), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s700, 700, FnMut, StdcallUnwind, "stdcall-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool, a9: usize, a10: i32, a11: *const u8), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s701, 701, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: u8, a1: f32, a2: u16, a3: Tok, a4: Big, a5: P8, a6: i8, a7: u64, a8: u8, a9: f32, a10: u16, a11: i64), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s702, 702, Fn, StdcallUnwind, "stdcall-unwind", (), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s703, 703, FnMut, StdcallUnwind, "stdcall-unwind", (), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s704, 704, FnOnce, StdcallUnwind, "stdcall-unwind", (), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s705, 705, Fn, StdcallUnwind, "stdcall-unwind", (a0: i8, a1: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s706, 706, FnMut, StdcallUnwind, "stdcall-unwind", (a0: P16, a1: D16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s707, 707, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: Tok, a1: i8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s708, 708, Fn, StdcallUnwind, "stdcall-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s709, 709, FnMut, StdcallUnwind, "stdcall-unwind", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: Tok, a6: u8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s710, 710, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u64), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s711, 711, Fn, StdcallUnwind, "stdcall-unwind", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u64, a8: Tok, a9: i32, a10: u16, a11: D16), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s712, 712, FnMut, StdcallUnwind, "stdcall-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8, a11: bool), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s713, 713, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: Tok, a10: Big, a11: P8), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s714, 714, Fn, Cdecl, "cdecl", (), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s715, 715, FnMut, Cdecl, "cdecl", (), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s716, 716, FnOnce, Cdecl, "cdecl", (), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s717, 717, Fn, Cdecl, "cdecl", (a0: u8), Big, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s718, 718, FnMut, Cdecl, "cdecl", (a0: D16), bool, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s719, 719, FnOnce, Cdecl, "cdecl", (a0: u64), f64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s720, 720, Fn, Cdecl, "cdecl", (a0: *const u8, a1: Big), D16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s721, 721, FnMut, Cdecl, "cdecl", (a0: i8, a1: u8), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s722, 722, FnOnce, Cdecl, "cdecl", (a0: P16, a1: *const u8), u8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s723, 723, Fn, Cdecl, "cdecl", (a0: P8, a1: usize, a2: u8), f32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s724, 724, FnMut, Cdecl, "cdecl", (a0: i32, a1: *const u8, a2: bool), P16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s725, 725, FnOnce, Cdecl, "cdecl", (a0: Big, a1: P8, a2: i8), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s726, 726, Fn, Cdecl, "cdecl", (a0: f64, a1: f32, a2: *const u8, a3: Big), Big, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s727, 727, FnMut, Cdecl, "cdecl", (a0: i64, a1: P8, a2: u64, a3: f32), bool, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s728, 728, FnOnce, Cdecl, "cdecl", (a0: usize, a1: f64, a2: i32, a3: P16), f64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s729, 729, Fn, Cdecl, "cdecl", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8), D16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s730, 730, FnMut, Cdecl, "cdecl", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s731, 731, FnOnce, Cdecl, "cdecl", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8), u8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s732, 732, Fn, Cdecl, "cdecl", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big), f32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s733, 733, FnMut, Cdecl, "cdecl", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: u16), P16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s734, 734, FnOnce, Cdecl, "cdecl", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s735, 735, Fn, Cdecl, "cdecl", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8), Big, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s736, 736, FnMut, Cdecl, "cdecl", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool, a6: usize), bool, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s737, 737, FnOnce, Cdecl, "cdecl", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16, a5: i64, a6: Big), f64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s738, 738, Fn, Cdecl, "cdecl", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8, a7: Big), D16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s739, 739, FnMut, Cdecl, "cdecl", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32, a7: i64), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s740, 740, FnOnce, Cdecl, "cdecl", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128, a6: usize, a7: f64), u8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s741, 741, Fn, Cdecl, "cdecl", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8, a7: usize, a8: u8), f32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s742, 742, FnMut, Cdecl, "cdecl", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16, a7: u128, a8: f64), P16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s743, 743, FnOnce, Cdecl, "cdecl", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: i64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s744, 744, Fn, Cdecl, "cdecl", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8, a9: Big), Big, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s745, 745, FnMut, Cdecl, "cdecl", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: u16, a9: Big), bool, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s746, 746, FnOnce, Cdecl, "cdecl", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u128, a9: usize), f64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s747, 747, Fn, Cdecl, "cdecl", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: u16, a7: D16, a8: P8, a9: usize, a10: u8), D16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s748, 748, FnMut, Cdecl, "cdecl", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool, a9: usize, a10: i32), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s749, 749, FnOnce, Cdecl, "cdecl", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8, a7: u64, a8: u8, a9: f32, a10: u16), u8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s750, 750, Fn, Cdecl, "cdecl", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64, a9: f32, a10: *const u8, a11: Big), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s751, 751, FnMut, Cdecl, "cdecl", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8, a8: u64, a9: f32, a10: i64, a11: P8), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s752, 752, FnOnce, Cdecl, "cdecl", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16, a10: bool, a11: u128), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s753, 753, Fn, Cdecl, "cdecl", (), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s754, 754, FnMut, Cdecl, "cdecl", (), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s755, 755, FnOnce, Cdecl, "cdecl", (), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s756, 756, Fn, Cdecl, "cdecl", (a0: i32, a1: u16), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s757, 757, FnMut, Cdecl, "cdecl", (a0: Big, a1: i8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s758, 758, FnOnce, Cdecl, "cdecl", (a0: f64, a1: i32), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s759, 759, Fn, Cdecl, "cdecl", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s760, 760, FnMut, Cdecl, "cdecl", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s761, 761, FnOnce, Cdecl, "cdecl", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s762, 762, Fn, Cdecl, "cdecl", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64, a10: bool, a11: i8), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s763, 763, FnMut, Cdecl, "cdecl", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32, a9: i64, a10: P8, a11: u64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s764, 764, FnOnce, Cdecl, "cdecl", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128, a10: usize, a11: f64), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s765, 765, Fn, CdeclUnwind, "cdecl-unwind", (), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s766, 766, FnMut, CdeclUnwind, "cdecl-unwind", (), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s767, 767, FnOnce, CdeclUnwind, "cdecl-unwind", (), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s768, 768, Fn, CdeclUnwind, "cdecl-unwind", (a0: *const u8), i32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s769, 769, FnMut, CdeclUnwind, "cdecl-unwind", (a0: Tok), f32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s770, 770, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: P16), P16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s771, 771, Fn, CdeclUnwind, "cdecl-unwind", (a0: Tok, a1: usize), P8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s772, 772, FnMut, CdeclUnwind, "cdecl-unwind", (a0: i32, a1: *const u8), Big, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s773, 773, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: Big, a1: Tok), bool, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s774, 774, Fn, CdeclUnwind, "cdecl-unwind", (a0: f64, a1: f32, a2: *const u8), (), Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s775, 775, FnMut, CdeclUnwind, "cdecl-unwind", (a0: i64, a1: Tok, a2: u64), D16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s776, 776, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: usize, a1: f64, a2: i32), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s777, 777, Fn, CdeclUnwind, "cdecl-unwind", (a0: u16, a1: Tok, a2: P8, a3: usize), i32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s778, 778, FnMut, CdeclUnwind, "cdecl-unwind", (a0: u128, a1: f64, a2: P16, a3: D16), f32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s779, 779, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: f32, a1: u16, a2: Tok, a3: Big), P16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s780, 780, Fn, CdeclUnwind, "cdecl-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8), P8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s781, 781, FnMut, CdeclUnwind, "cdecl-unwind", (a0: u8, a1: Tok, a2: Big, a3: i8, a4: u8), Big, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s782, 782, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64), bool, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s783, 783, Fn, CdeclUnwind, "cdecl-unwind", (a0: u64, a1: i32, a2: Tok, a3: D16, a4: P8, a5: usize), (), Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s784, 784, FnMut, CdeclUnwind, "cdecl-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8, a5: bool), D16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s785, 785, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: i8, a1: u64, a2: u8, a3: Tok, a4: u16, a5: i64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s786, 786, Fn, CdeclUnwind, "cdecl-unwind", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32, a6: *const u8), i32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s787, 787, FnMut, CdeclUnwind, "cdecl-unwind", (a0: P8, a1: u64, a2: Tok, a3: i64, a4: P8, a5: u64, a6: f32), f32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s788, 788, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128, a6: usize), P16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s789, 789, Fn, CdeclUnwind, "cdecl-unwind", (a0: Big, a1: u128, a2: u64, a3: Tok, a4: u16, a5: D16, a6: P8, a7: usize), P8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s790, 790, FnMut, CdeclUnwind, "cdecl-unwind", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16, a7: u128), Big, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s791, 791, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: i64, a1: Big, a2: P8, a3: i8, a4: Tok, a5: u8, a6: f32, a7: u16), bool, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s792, 792, Fn, CdeclUnwind, "cdecl-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8), (), Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s793, 793, FnMut, CdeclUnwind, "cdecl-unwind", (a0: u16, a1: Tok, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: u16), D16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s794, 794, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u128), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s795, 795, Fn, CdeclUnwind, "cdecl-unwind", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: u16, a7: D16, a8: Tok, a9: usize), i32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s796, 796, FnMut, CdeclUnwind, "cdecl-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool, a9: usize), f32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s797, 797, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8, a7: u64, a8: u8, a9: Tok), P16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s798, 798, Fn, CdeclUnwind, "cdecl-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64, a9: f32, a10: *const u8), P8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s799, 799, FnMut, CdeclUnwind, "cdecl-unwind", (a0: u64, a1: f32, a2: i64, a3: P8, a4: Tok, a5: f32, a6: i64, a7: P8, a8: u64, a9: f32, a10: i64), Big, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s800, 800, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16, a10: bool), bool, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s801, 801, Fn, CdeclUnwind, "cdecl-unwind", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: Tok, a6: u64, a7: i32, a8: u16, a9: D16, a10: P8, a11: usize), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s802, 802, FnMut, CdeclUnwind, "cdecl-unwind", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16, a9: D16, a10: u128, a11: f64), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s803, 803, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: Tok, a7: Big, a8: P8, a9: i8, a10: u64, a11: u8), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s804, 804, Fn, CdeclUnwind, "cdecl-unwind", (), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s805, 805, FnMut, CdeclUnwind, "cdecl-unwind", (), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s806, 806, FnOnce, CdeclUnwind, "cdecl-unwind", (), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s807, 807, Fn, CdeclUnwind, "cdecl-unwind", (a0: Tok, a1: bool), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s808, 808, FnMut, CdeclUnwind, "cdecl-unwind", (a0: usize, a1: i32), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s809, 809, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: u16, a1: Tok), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s810, 810, Fn, CdeclUnwind, "cdecl-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s811, 811, FnMut, CdeclUnwind, "cdecl-unwind", (a0: Tok, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s812, 812, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s813, 813, Fn, CdeclUnwind, "cdecl-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big, a9: u128, a10: u64, a11: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s814, 814, FnMut, CdeclUnwind, "cdecl-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128, a10: f64, a11: P16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s815, 815, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: Tok, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64, a9: u8, a10: f32, a11: u16), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s816, 816, Fn, Thiscall, "thiscall", (), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s817, 817, FnMut, Thiscall, "thiscall", (), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s818, 818, FnOnce, Thiscall, "thiscall", (), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s819, 819, Fn, Thiscall, "thiscall", (a0: P8), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s820, 820, FnMut, Thiscall, "thiscall", (a0: i32), (), Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s821, 821, FnOnce, Thiscall, "thiscall", (a0: Big), D16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s822, 822, Fn, Thiscall, "thiscall", (a0: f64, a1: f32), f64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s823, 823, FnMut, Thiscall, "thiscall", (a0: i64, a1: P8), i32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s824, 824, FnOnce, Thiscall, "thiscall", (a0: usize, a1: f64), f32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s825, 825, Fn, Thiscall, "thiscall", (a0: u16, a1: D16, a2: P8), u8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s826, 826, FnMut, Thiscall, "thiscall", (a0: u64, a1: f64, a2: P16), P8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s827, 827, FnOnce, Thiscall, "thiscall", (a0: f32, a1: u16, a2: i64), Big, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s828, 828, Fn, Thiscall, "thiscall", (a0: bool, a1: i8, a2: f64, a3: f32), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s829, 829, FnMut, Thiscall, "thiscall", (a0: u8, a1: u16, a2: Big, a3: i8), (), Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s830, 830, FnOnce, Thiscall, "thiscall", (a0: D16, a1: bool, a2: u64, a3: usize), D16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s831, 831, Fn, Thiscall, "thiscall", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8), f64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s832, 832, FnMut, Thiscall, "thiscall", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8), i32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s833, 833, FnOnce, Thiscall, "thiscall", (a0: i8, a1: u64, a2: u8, a3: f32, a4: u16), f32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s834, 834, Fn, Thiscall, "thiscall", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32), u8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s835, 835, FnMut, Thiscall, "thiscall", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64), P8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s836, 836, FnOnce, Thiscall, "thiscall", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u64), Big, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s837, 837, Fn, Thiscall, "thiscall", (a0: Big, a1: u64, a2: u64, a3: i32, a4: u16, a5: D16, a6: P8), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s838, 838, FnMut, Thiscall, "thiscall", (a0: f64, a1: P16, a2: D16, a3: u64, a4: f64, a5: P16, a6: D16), (), Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s839, 839, FnOnce, Thiscall, "thiscall", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32), D16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s840, 840, Fn, Thiscall, "thiscall", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32), f64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s841, 841, FnMut, Thiscall, "thiscall", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8), i32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s842, 842, FnOnce, Thiscall, "thiscall", (a0: u64, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool), f32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s843, 843, Fn, Thiscall, "thiscall", (a0: f32, a1: *const u8, a2: Big, a3: u64, a4: u64, a5: i32, a6: u16, a7: D16, a8: P8), u8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s844, 844, FnMut, Thiscall, "thiscall", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool), P8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s845, 845, FnOnce, Thiscall, "thiscall", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8, a7: u64, a8: u8), Big, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s846, 846, Fn, Thiscall, "thiscall", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64, a9: f32), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s847, 847, FnMut, Thiscall, "thiscall", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8, a8: u64, a9: f32), (), Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s848, 848, FnOnce, Thiscall, "thiscall", (a0: *const u8, a1: D16, a2: bool, a3: u64, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16), D16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s849, 849, Fn, Thiscall, "thiscall", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u64, a6: u64, a7: i32, a8: u16, a9: D16, a10: P8), f64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s850, 850, FnMut, Thiscall, "thiscall", (a0: P16, a1: D16, a2: u64, a3: f64, a4: P16, a5: D16, a6: u64, a7: f64, a8: P16, a9: D16, a10: u64), i32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s851, 851, FnOnce, Thiscall, "thiscall", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8, a9: i8, a10: u64), f32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s852, 852, Fn, Thiscall, "thiscall", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64, a11: f32), u8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s853, 853, FnMut, Thiscall, "thiscall", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big, a9: i8, a10: u8, a11: u16), P8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s854, 854, FnOnce, Thiscall, "thiscall", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u64, a7: usize, a8: f64, a9: i32, a10: P16, a11: *const u8), Big, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s855, 855, Fn, Thiscall, "thiscall", (), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s856, 856, FnMut, Thiscall, "thiscall", (), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s857, 857, FnOnce, Thiscall, "thiscall", (), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s858, 858, Fn, Thiscall, "thiscall", (a0: u64, a1: u64), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s859, 859, FnMut, Thiscall, "thiscall", (a0: f32, a1: i64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s860, 860, FnOnce, Thiscall, "thiscall", (a0: bool, a1: u64), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s861, 861, Fn, Thiscall, "thiscall", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s862, 862, FnMut, Thiscall, "thiscall", (a0: D16, a1: u64, a2: f64, a3: P16, a4: D16, a5: u64, a6: f64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s863, 863, FnOnce, Thiscall, "thiscall", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s864, 864, Fn, Thiscall, "thiscall", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8, a10: P16, a11: i64), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s865, 865, FnMut, Thiscall, "thiscall", (a0: i8, a1: u8, a2: u16, a3: Big, a4: i8, a5: u8, a6: u16, a7: Big, a8: i8, a9: u8, a10: u16, a11: Big), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s866, 866, FnOnce, Thiscall, "thiscall", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u64, a5: usize, a6: f64, a7: i32, a8: P16, a9: *const u8, a10: D16, a11: bool), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s867, 867, Fn, ThiscallUnwind, "thiscall-unwind", (), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s868, 868, FnMut, ThiscallUnwind, "thiscall-unwind", (), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s869, 869, FnOnce, ThiscallUnwind, "thiscall-unwind", (), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s870, 870, Fn, ThiscallUnwind, "thiscall-unwind", (a0: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s871, 871, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: Tok), u8, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s872, 872, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: usize), P8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s873, 873, Fn, ThiscallUnwind, "thiscall-unwind", (a0: u16, a1: Tok), P16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s874, 874, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: u64, a1: f64), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s875, 875, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: u16), (), Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s876, 876, Fn, ThiscallUnwind, "thiscall-unwind", (a0: bool, a1: i8, a2: f64), bool, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s877, 877, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: u8, a1: Tok, a2: Big), f64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s878, 878, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: D16, a1: bool, a2: u64), i32, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s879, 879, Fn, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: i32, a2: u16, a3: D16), u64, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s880, 880, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32), u8, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s881, 881, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: i8, a1: Tok, a2: u8, a3: f32), P8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s882, 882, Fn, ThiscallUnwind, "thiscall-unwind", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64), P16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s883, 883, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: P8, a1: u64, a2: Tok, a3: i64, a4: P8), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s884, 884, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool), (), Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s885, 885, Fn, ThiscallUnwind, "thiscall-unwind", (a0: Big, a1: u64, a2: u64, a3: i32, a4: u16, a5: Tok), bool, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s886, 886, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: f64, a1: P16, a2: D16, a3: u64, a4: f64, a5: P16), f64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s887, 887, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8), i32, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s888, 888, Fn, ThiscallUnwind, "thiscall-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s889, 889, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: u16, a1: Big, a2: i8, a3: u8, a4: Tok, a5: Big, a6: i8), u8, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s890, 890, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: u64, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16), P8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s891, 891, Fn, ThiscallUnwind, "thiscall-unwind", (a0: f32, a1: *const u8, a2: Big, a3: u64, a4: u64, a5: i32, a6: Tok, a7: D16), P16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s892, 892, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s893, 893, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8, a7: Tok), (), Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s894, 894, Fn, ThiscallUnwind, "thiscall-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64), bool, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s895, 895, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: Tok, a8: u64), f64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s896, 896, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u64, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8), i32, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s897, 897, Fn, ThiscallUnwind, "thiscall-unwind", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u64, a6: u64, a7: i32, a8: u16, a9: Tok), u64, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s898, 898, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: P16, a1: D16, a2: u64, a3: f64, a4: P16, a5: D16, a6: u64, a7: f64, a8: P16, a9: D16), u8, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s899, 899, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8, a9: i8), P8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s900, 900, Fn, ThiscallUnwind, "thiscall-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64), P16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s901, 901, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big, a9: i8, a10: u8), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s902, 902, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u64, a7: usize, a8: f64, a9: i32, a10: P16), (), Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s903, 903, Fn, ThiscallUnwind, "thiscall-unwind", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u64, a8: Tok, a9: i32, a10: u16, a11: D16), bool, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s904, 904, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8, a11: bool), f64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s905, 905, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: Tok, a10: Big, a11: P8), i32, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s906, 906, Fn, ThiscallUnwind, "thiscall-unwind", (), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s907, 907, FnMut, ThiscallUnwind, "thiscall-unwind", (), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s908, 908, FnOnce, ThiscallUnwind, "thiscall-unwind", (), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s909, 909, Fn, ThiscallUnwind, "thiscall-unwind", (a0: u8, a1: Tok), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s910, 910, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: D16, a1: u64), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s911, 911, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: Tok, a1: u8), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s912, 912, Fn, ThiscallUnwind, "thiscall-unwind", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32, a5: u16, a6: D16), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s913, 913, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: i8, a1: u8, a2: Tok, a3: Big, a4: i8, a5: u8, a6: u16), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s914, 914, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u64, a5: usize, a6: f64), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s915, 915, Fn, ThiscallUnwind, "thiscall-unwind", (a0: P8, a1: usize, a2: Tok, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32, a9: *const u8, a10: Big, a11: u64), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s916, 916, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8, a10: bool, a11: usize), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s917, 917, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: Big, a1: P8, a2: i8, a3: Tok, a4: u8, a5: f32, a6: u16, a7: i64, a8: Big, a9: P8, a10: i8, a11: u64), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s918, 918, Fn, Aapcs, "aapcs", (), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s919, 919, FnMut, Aapcs, "aapcs", (), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s920, 920, FnOnce, Aapcs, "aapcs", (), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s921, 921, Fn, Aapcs, "aapcs", (a0: u16), Big, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s922, 922, FnMut, Aapcs, "aapcs", (a0: u128), bool, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s923, 923, FnOnce, Aapcs, "aapcs", (a0: f32), f64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s924, 924, Fn, Aapcs, "aapcs", (a0: bool, a1: i8), D16, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s925, 925, FnMut, Aapcs, "aapcs", (a0: u8, a1: u16), u64, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s926, 926, FnOnce, Aapcs, "aapcs", (a0: D16, a1: bool), u8, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s927, 927, Fn, Aapcs, "aapcs", (a0: u64, a1: i32, a2: u16), f32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s928, 928, FnMut, Aapcs, "aapcs", (a0: *const u8, a1: bool, a2: usize), P16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s929, 929, FnOnce, Aapcs, "aapcs", (a0: i8, a1: u64, a2: u8), u128, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s930, 930, Fn, Aapcs, "aapcs", (a0: P16, a1: i64, a2: bool, a3: i8), Big, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s931, 931, FnMut, Aapcs, "aapcs", (a0: P8, a1: u64, a2: f32, a3: i64), bool, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s932, 932, FnOnce, Aapcs, "aapcs", (a0: i32, a1: P16, a2: *const u8, a3: D16), f64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s933, 933, Fn, Aapcs, "aapcs", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16), D16, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s934, 934, FnMut, Aapcs, "aapcs", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64), u64, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s935, 935, FnOnce, Aapcs, "aapcs", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64), u8, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s936, 936, Fn, Aapcs, "aapcs", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8), f32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s937, 937, FnMut, Aapcs, "aapcs", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big), P16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s938, 938, FnOnce, Aapcs, "aapcs", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8), u128, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s939, 939, Fn, Aapcs, "aapcs", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: u16), Big, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s940, 940, FnMut, Aapcs, "aapcs", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32), bool, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s941, 941, FnOnce, Aapcs, "aapcs", (a0: u8, a1: f32, a2: u16, a3: i64, a4: Big, a5: P8, a6: i8), f64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s942, 942, Fn, Aapcs, "aapcs", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s943, 943, FnMut, Aapcs, "aapcs", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: i64, a7: P8), u64, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s944, 944, FnOnce, Aapcs, "aapcs", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16), u8, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s945, 945, Fn, Aapcs, "aapcs", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32, a8: u16), f32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s946, 946, FnMut, Aapcs, "aapcs", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16), P16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s947, 947, FnOnce, Aapcs, "aapcs", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8), u128, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s948, 948, Fn, Aapcs, "aapcs", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8), Big, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s949, 949, FnMut, Aapcs, "aapcs", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: u16, a8: Big, a9: i8), bool, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s950, 950, FnOnce, Aapcs, "aapcs", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64, a9: i32), f64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s951, 951, Fn, Aapcs, "aapcs", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: u64, a9: i32, a10: u16), D16, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s952, 952, FnMut, Aapcs, "aapcs", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8), u64, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s953, 953, FnOnce, Aapcs, "aapcs", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: i64, a10: Big), u8, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s954, 954, Fn, Aapcs, "aapcs", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64, a10: bool, a11: i8), f32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s955, 955, FnMut, Aapcs, "aapcs", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32, a9: i64, a10: P8, a11: u64), P16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s956, 956, FnOnce, Aapcs, "aapcs", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128, a10: usize, a11: f64), u128, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s957, 957, Fn, Aapcs, "aapcs", (), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s958, 958, FnMut, Aapcs, "aapcs", (), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s959, 959, FnOnce, Aapcs, "aapcs", (), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s960, 960, Fn, Aapcs, "aapcs", (a0: *const u8, a1: Big), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s961, 961, FnMut, Aapcs, "aapcs", (a0: i8, a1: u8), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s962, 962, FnOnce, Aapcs, "aapcs", (a0: P16, a1: *const u8), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s963, 963, Fn, Aapcs, "aapcs", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s964, 964, FnMut, Aapcs, "aapcs", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s965, 965, FnOnce, Aapcs, "aapcs", (a0: Big, a1: P8, a2: i8, a3: u64, a4: u8, a5: f32, a6: u16), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s966, 966, Fn, Aapcs, "aapcs", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32, a7: u16, a8: D16, a9: P8, a10: usize, a11: u8), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s967, 967, FnMut, Aapcs, "aapcs", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32, a8: i64, a9: P8, a10: u64, a11: f32), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s968, 968, FnOnce, Aapcs, "aapcs", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u128, a8: usize, a9: f64, a10: i32, a11: P16), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s969, 969, Fn, AapcsUnwind, "aapcs-unwind", (), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s970, 970, FnMut, AapcsUnwind, "aapcs-unwind", (), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s971, 971, FnOnce, AapcsUnwind, "aapcs-unwind", (), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s972, 972, Fn, AapcsUnwind, "aapcs-unwind", (a0: bool), i32, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s973, 973, FnMut, AapcsUnwind, "aapcs-unwind", (a0: Tok), f32, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s974, 974, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: D16), P16, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s975, 975, Fn, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: i32), P8, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s976, 976, FnMut, AapcsUnwind, "aapcs-unwind", (a0: *const u8, a1: bool), Big, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s977, 977, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: i8, a1: Tok), bool, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s978, 978, Fn, AapcsUnwind, "aapcs-unwind", (a0: P16, a1: i64, a2: bool), (), Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s979, 979, FnMut, AapcsUnwind, "aapcs-unwind", (a0: P8, a1: Tok, a2: f32), D16, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s980, 980, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: P16, a2: *const u8), u64, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s981, 981, Fn, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: u128, a2: u64, a3: Tok), i32, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s982, 982, FnMut, AapcsUnwind, "aapcs-unwind", (a0: f64, a1: P16, a2: D16, a3: u128), f32, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s983, 983, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: Big, a2: P8, a3: i8), P16, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s984, 984, Fn, AapcsUnwind, "aapcs-unwind", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool), P8, Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s985, 985, FnMut, AapcsUnwind, "aapcs-unwind", (a0: u16, a1: Big, a2: i8, a3: Tok, a4: u16), Big, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s986, 986, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16), bool, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s987, 987, Fn, AapcsUnwind, "aapcs-unwind", (a0: f32, a1: *const u8, a2: Tok, a3: u128, a4: u64, a5: i32), (), Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s988, 988, FnMut, AapcsUnwind, "aapcs-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize), D16, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s989, 989, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: u8, a1: f32, a2: u16, a3: Tok, a4: Big, a5: P8), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s990, 990, Fn, AapcsUnwind, "aapcs-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool), i32, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s991, 991, FnMut, AapcsUnwind, "aapcs-unwind", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: Tok), f32, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s992, 992, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32), P16, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s993, 993, Fn, AapcsUnwind, "aapcs-unwind", (a0: i8, a1: Tok, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32), P8, Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s994, 994, FnMut, AapcsUnwind, "aapcs-unwind", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64), Big, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s995, 995, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: P8, a1: i8, a2: Tok, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big), bool, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s996, 996, Fn, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool), (), Cap, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s997, 997, FnMut, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Tok, a5: i8, a6: u8, a7: u16, a8: Big), D16, Small, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s998, 998, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8, a4: D16, a5: bool, a6: u128, a7: usize, a8: f64), u64, Over, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s999, 999, Fn, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u128, a8: u64, a9: i32), i32, Plain, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1000, 1000, FnMut, AapcsUnwind, "aapcs-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32), f32, Wide, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1001, 1001, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: u16, a1: Tok, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8, a7: f32, a8: u16, a9: i64), P16, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1002, 1002, Fn, AapcsUnwind, "aapcs-unwind", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8, a8: P16, a9: i64, a10: bool), P8, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1003, 1003, FnMut, AapcsUnwind, "aapcs-unwind", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: Tok, a8: f32, a9: i64, a10: P8), Big, Small, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1004, 1004, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128, a10: usize), bool, Over, [dyn Send], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1005, 1005, Fn, AapcsUnwind, "aapcs-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: *const u8, a8: Big, a9: u128, a10: u64, a11: Tok), (), Plain, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1006, 1006, FnMut, AapcsUnwind, "aapcs-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128, a10: f64, a11: P16), D16, Wide, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1007, 1007, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64, a9: u8, a10: f32, a11: u16), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1008, 1008, Fn, AapcsUnwind, "aapcs-unwind", (), f64, ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1009, 1009, FnMut, AapcsUnwind, "aapcs-unwind", (), (), ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1010, 1010, FnOnce, AapcsUnwind, "aapcs-unwind", (), u64, Zst, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1011, 1011, Fn, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: usize), f64, ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1012, 1012, FnMut, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: *const u8), (), ZstD, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1013, 1013, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: Tok), u64, Zst, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1014, 1014, Fn, AapcsUnwind, "aapcs-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big, a4: u128, a5: u64, a6: i32), f64, ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1015, 1015, FnMut, AapcsUnwind, "aapcs-unwind", (a0: i64, a1: P8, a2: u64, a3: f32, a4: Tok, a5: P8, a6: u64), (), ZstD, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1016, 1016, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool), u64, Zst, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1017, 1017, Fn, AapcsUnwind, "aapcs-unwind", (a0: u16, a1: D16, a2: P8, a3: usize, a4: u8, a5: Tok, a6: i64, a7: bool, a8: i8, a9: f64, a10: f32, a11: *const u8), f64, ZstD, [dyn Sync], try_with_cc_in, AnyAlloc, untyped, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1018, 1018, FnMut, AapcsUnwind, "aapcs-unwind", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16, a7: D16, a8: u128, a9: f64, a10: P16, a11: D16), (), ZstD, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1019, 1019, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: Tok, a7: u8, a8: f32, a9: u16, a10: i64, a11: Big), u64, Zst, [dyn Send + Sync], try_with_cc_in, AnyAlloc, untyped, closure);
shape!(s1020, 1020, Fn, Rust, "Rust", (a0: bool, a1: i8), f64, Cap, [dyn Send], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1021, 1021, Fn, Rust, "Rust", (a0: u8, a1: Tok, a2: Big), (), Small, [dyn Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1022, 1022, Fn, Rust, "Rust", (a0: D16, a1: bool, a2: u128, a3: usize), Big, Over, [dyn closure_ffi::traits::Any], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1023, 1023, Fn, Rust, "Rust", (a0: Tok), P16, Plain, [dyn Send + Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1024, 1024, Fn, Rust, "Rust", (a0: *const u8, a1: bool), u8, ZstD, [dyn Send], (short new_rust_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1025, 1025, FnMut, Rust, "Rust", (a0: Tok, a1: u64, a2: u8), i32, Cap, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
shape!(s1026, 1026, FnMut, Rust, "Rust", (a0: P16, a1: i64, a2: bool, a3: i8), D16, Cap, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1027, 1027, FnMut, Rust, "Rust", (a0: Tok), bool, Small, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1028, 1028, FnMut, Rust, "Rust", (a0: i32, a1: P16), u128, Over, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1029, 1029, FnMut, Rust, "Rust", (a0: Big, a1: u128, a2: Tok), P8, ZstD, [dyn Sync], (short new_rust_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1030, 1030, FnOnce, Rust, "Rust", (a0: f64, a1: P16, a2: D16, a3: u128), f32, Wide, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1031, 1031, FnOnce, Rust, "Rust", (a0: Tok), u64, Cap, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
shape!(s1032, 1032, FnOnce, Rust, "Rust", (a0: usize, a1: u8), f64, Cap, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1033, 1033, FnOnce, Rust, "Rust", (a0: u16, a1: Tok, a2: i8), (), Small, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1034, 1034, FnOnce, Rust, "Rust", (a0: u128, a1: usize, a2: f64, a3: i32), Big, ZstD, [dyn closure_ffi::traits::Any], (short new_rust_in), AnyAlloc, typed, closure);
shape!(s1035, 1035, Fn, C, "C", (a0: f32), P16, Plain, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1036, 1036, Fn, C, "C", (a0: bool, a1: usize), u8, Wide, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1037, 1037, Fn, C, "C", (a0: u8, a1: f32, a2: u16), i32, Cap, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1038, 1038, Fn, C, "C", (a0: D16, a1: P8, a2: usize, a3: u8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1039, 1039, Fn, C, "C", (a0: u64), bool, ZstD, [dyn Send + Sync], (short new_c_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1040, 1040, FnMut, C, "C", (a0: *const u8, a1: D16), u128, Over, [dyn Send], with_cc_in, AnyAlloc, typed, closure);
shape!(s1041, 1041, FnMut, C, "C", (a0: i8, a1: f64, a2: f32), P8, Plain, [dyn Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1042, 1042, FnMut, C, "C", (a0: P16, a1: D16, a2: u128, a3: f64), f32, Wide, [dyn closure_ffi::traits::Any], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1043, 1043, FnMut, C, "C", (a0: P8), u64, Cap, [dyn Send + Sync], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1044, 1044, FnMut, C, "C", (a0: i32, a1: u16), f64, ZstD, [dyn Send], (short new_c_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1045, 1045, FnOnce, C, "C", (a0: Big, a1: i8, a2: u8), (), Small, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1046, 1046, FnOnce, C, "C", (a0: f64, a1: i32, a2: P16, a3: *const u8), Big, Over, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
shape!(s1047, 1047, FnOnce, C, "C", (a0: i64), P16, Plain, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1048, 1048, FnOnce, C, "C", (a0: usize, a1: i32), u8, Wide, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1049, 1049, FnOnce, C, "C", (a0: u16, a1: i64, a2: Big), i32, ZstD, [dyn Sync], (short new_c_in), AnyAlloc, typed, closure);
shape!(s1050, 1050, Fn, CUnwind, "C-unwind", (a0: u128, a1: u64, a2: i32, a3: u16), D16, Cap, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1051, 1051, Fn, CUnwind, "C-unwind", (a0: Tok), bool, Small, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1052, 1052, Fn, CUnwind, "C-unwind", (a0: bool, a1: u128), u128, Over, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1053, 1053, Fn, CUnwind, "C-unwind", (a0: u8, a1: P16, a2: Tok), P8, Plain, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1054, 1054, FnMut, CUnwind, "C-unwind", (a0: D16, a1: u128, a2: f64, a3: P16), f32, ZstD, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1055, 1055, FnMut, CUnwind, "C-unwind", (a0: Tok), u64, Cap, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
shape!(s1056, 1056, FnMut, CUnwind, "C-unwind", (a0: *const u8, a1: Big), f64, Cap, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1057, 1057, FnMut, CUnwind, "C-unwind", (a0: i8, a1: Tok, a2: u16), (), Small, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1058, 1058, FnOnce, CUnwind, "C-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool), Big, Over, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
shape!(s1059, 1059, FnOnce, CUnwind, "C-unwind", (a0: Tok), P16, ZstD, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1060, 1060, FnOnce, CUnwind, "C-unwind", (a0: i32, a1: *const u8), u8, Wide, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1061, 1061, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: P8, a2: i8), i32, Cap, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1062, 1062, Fn, System, "system", (a0: f64, a1: f32, a2: *const u8, a3: Big), D16, Cap, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1063, 1063, Fn, System, "system", (a0: i64), bool, Small, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1064, 1064, Fn, System, "system", (a0: usize, a1: f64), u128, ZstD, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1065, 1065, Fn, System, "system", (a0: u16, a1: D16, a2: P8), P8, Plain, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1066, 1066, Fn, System, "system", (a0: u128, a1: f64, a2: P16, a3: D16), f32, Wide, [dyn closure_ffi::traits::Any], (short new_system_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1067, 1067, FnMut, System, "system", (a0: f32), u64, Cap, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
shape!(s1068, 1068, FnMut, System, "system", (a0: bool, a1: i8), f64, Cap, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1069, 1069, FnMut, System, "system", (a0: u8, a1: u16, a2: Big), (), ZstD, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1070, 1070, FnMut, System, "system", (a0: D16, a1: bool, a2: u128, a3: usize), Big, Over, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1071, 1071, FnMut, System, "system", (a0: u64), P16, Plain, [dyn Send + Sync], (short new_system_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1072, 1072, FnOnce, System, "system", (a0: *const u8, a1: bool), u8, Wide, [dyn Send], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1073, 1073, FnOnce, System, "system", (a0: i8, a1: u64, a2: u8), i32, Cap, [dyn Sync], new_in, AnyAlloc, typed, closure);
shape!(s1074, 1074, FnOnce, System, "system", (a0: P16, a1: i64, a2: bool, a3: i8), D16, ZstD, [dyn closure_ffi::traits::Any], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1075, 1075, FnOnce, System, "system", (a0: P8), bool, Small, [dyn Send + Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1076, 1076, FnOnce, System, "system", (a0: i32, a1: P16), u128, Over, [dyn Send], (short new_system_in), AnyAlloc, typed, closure);
shape!(s1077, 1077, Fn, SystemUnwind, "system-unwind", (a0: Big, a1: u128, a2: Tok), P8, Plain, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1078, 1078, Fn, SystemUnwind, "system-unwind", (a0: f64, a1: P16, a2: D16, a3: u128), f32, Wide, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1079, 1079, Fn, SystemUnwind, "system-unwind", (a0: Tok), u64, ZstD, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1080, 1080, Fn, SystemUnwind, "system-unwind", (a0: usize, a1: u8), f64, Cap, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1081, 1081, FnMut, SystemUnwind, "system-unwind", (a0: u16, a1: Tok, a2: i8), (), Small, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1082, 1082, FnMut, SystemUnwind, "system-unwind", (a0: u128, a1: usize, a2: f64, a3: i32), Big, Over, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
shape!(s1083, 1083, FnMut, SystemUnwind, "system-unwind", (a0: Tok), P16, Plain, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1084, 1084, FnMut, SystemUnwind, "system-unwind", (a0: bool, a1: usize), u8, ZstD, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1085, 1085, FnOnce, SystemUnwind, "system-unwind", (a0: Tok, a1: f32, a2: u16), i32, Cap, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
shape!(s1086, 1086, FnOnce, SystemUnwind, "system-unwind", (a0: D16, a1: P8, a2: usize, a3: u8), D16, Cap, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1087, 1087, FnOnce, SystemUnwind, "system-unwind", (a0: Tok), bool, Small, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1088, 1088, FnOnce, SystemUnwind, "system-unwind", (a0: *const u8, a1: D16), u128, Over, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1089, 1089, Fn, Efiapi, "efiapi", (a0: i8, a1: f64, a2: f32), P8, ZstD, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1090, 1090, Fn, Efiapi, "efiapi", (a0: P16, a1: D16, a2: u128, a3: f64), f32, Wide, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1091, 1091, Fn, Efiapi, "efiapi", (a0: P8), u64, Cap, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
shape!(s1092, 1092, Fn, Efiapi, "efiapi", (a0: i32, a1: u16), f64, Cap, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1093, 1093, Fn, Efiapi, "efiapi", (a0: Big, a1: i8, a2: u8), (), Small, [dyn Sync], (short new_efiabi_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1094, 1094, FnMut, Efiapi, "efiapi", (a0: f64, a1: i32, a2: P16, a3: *const u8), Big, ZstD, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
shape!(s1095, 1095, FnMut, Efiapi, "efiapi", (a0: i64), P16, Plain, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1096, 1096, FnMut, Efiapi, "efiapi", (a0: usize, a1: i32), u8, Wide, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1097, 1097, FnMut, Efiapi, "efiapi", (a0: u16, a1: i64, a2: Big), i32, Cap, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1098, 1098, FnMut, Efiapi, "efiapi", (a0: u128, a1: u64, a2: i32, a3: u16), D16, Cap, [dyn closure_ffi::traits::Any], (short new_efiabi_in), AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1099, 1099, FnOnce, Efiapi, "efiapi", (a0: f32), bool, ZstD, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1100, 1100, FnOnce, Efiapi, "efiapi", (a0: bool, a1: u128), u128, Over, [dyn Send], new_in, AnyAlloc, typed, closure);
shape!(s1101, 1101, FnOnce, Efiapi, "efiapi", (a0: u8, a1: P16, a2: i64), P8, Plain, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1102, 1102, FnOnce, Efiapi, "efiapi", (a0: D16, a1: u128, a2: f64, a3: P16), f32, Wide, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1103, 1103, FnOnce, Efiapi, "efiapi", (a0: u64), u64, Cap, [dyn Send + Sync], (short new_efiabi_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1104, 1104, Fn, Sysv64, "sysv64", (a0: *const u8, a1: Big), f64, ZstD, [dyn Send], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1105, 1105, Fn, Sysv64, "sysv64", (a0: i8, a1: u8, a2: u16), (), Small, [dyn Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1106, 1106, Fn, Sysv64, "sysv64", (a0: P16, a1: *const u8, a2: D16, a3: bool), Big, Over, [dyn closure_ffi::traits::Any], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1107, 1107, Fn, Sysv64, "sysv64", (a0: P8), P16, Plain, [dyn Send + Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1108, 1108, Fn, Sysv64, "sysv64", (a0: i32, a1: *const u8), u8, Wide, [dyn Send], (short new_sysv64_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1109, 1109, FnMut, Sysv64, "sysv64", (a0: Big, a1: P8, a2: i8), i32, ZstD, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1110, 1110, FnMut, Sysv64, "sysv64", (a0: f64, a1: f32, a2: *const u8, a3: Big), D16, Cap, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1111, 1111, FnMut, Sysv64, "sysv64", (a0: i64), bool, Small, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1112, 1112, FnMut, Sysv64, "sysv64", (a0: usize, a1: f64), u128, Over, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1113, 1113, FnMut, Sysv64, "sysv64", (a0: u16, a1: D16, a2: P8), P8, Plain, [dyn Sync], (short new_sysv64_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1114, 1114, FnOnce, Sysv64, "sysv64", (a0: u128, a1: f64, a2: P16, a3: D16), f32, ZstD, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1115, 1115, FnOnce, Sysv64, "sysv64", (a0: f32), u64, Cap, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1116, 1116, FnOnce, Sysv64, "sysv64", (a0: bool, a1: i8), f64, Cap, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1117, 1117, FnOnce, Sysv64, "sysv64", (a0: u8, a1: u16, a2: Big), (), Small, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1118, 1118, FnOnce, Sysv64, "sysv64", (a0: D16, a1: bool, a2: u128, a3: usize), Big, Over, [dyn closure_ffi::traits::Any], (short new_sysv64_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1119, 1119, Fn, Sysv64Unwind, "sysv64-unwind", (a0: Tok), P16, ZstD, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1120, 1120, Fn, Sysv64Unwind, "sysv64-unwind", (a0: *const u8, a1: bool), u8, Wide, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1121, 1121, Fn, Sysv64Unwind, "sysv64-unwind", (a0: Tok, a1: u64, a2: u8), i32, Cap, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1122, 1122, Fn, Sysv64Unwind, "sysv64-unwind", (a0: P16, a1: i64, a2: bool, a3: i8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1123, 1123, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: Tok), bool, Small, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1124, 1124, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: i32, a1: P16), u128, ZstD, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1125, 1125, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: Big, a1: u128, a2: Tok), P8, Plain, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1126, 1126, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: f64, a1: P16, a2: D16, a3: u128), f32, Wide, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1127, 1127, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: Tok), u64, Cap, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1128, 1128, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: usize, a1: u8), f64, Cap, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1129, 1129, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: u16, a1: Tok, a2: i8), (), ZstD, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1130, 1130, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: u128, a1: usize, a2: f64, a3: i32), Big, Over, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1131, 1131, Fn, Win64, "win64", (a0: f32), P16, Plain, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1132, 1132, Fn, Win64, "win64", (a0: bool, a1: usize), u8, Wide, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1133, 1133, Fn, Win64, "win64", (a0: u8, a1: f32, a2: u16), i32, Cap, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1134, 1134, Fn, Win64, "win64", (a0: D16, a1: P8, a2: usize, a3: u8), D16, ZstD, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1135, 1135, FnMut, Win64, "win64", (a0: u64), bool, Small, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1136, 1136, FnMut, Win64, "win64", (a0: *const u8, a1: D16), u128, Over, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1137, 1137, FnMut, Win64, "win64", (a0: i8, a1: f64, a2: f32), P8, Plain, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1138, 1138, FnMut, Win64, "win64", (a0: P16, a1: D16, a2: u128, a3: f64), f32, Wide, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1139, 1139, FnOnce, Win64, "win64", (a0: P8), u64, ZstD, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1140, 1140, FnOnce, Win64, "win64", (a0: i32, a1: u16), f64, Cap, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1141, 1141, FnOnce, Win64, "win64", (a0: Big, a1: i8, a2: u8), (), Small, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1142, 1142, FnOnce, Win64, "win64", (a0: f64, a1: i32, a2: P16, a3: *const u8), Big, Over, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1143, 1143, Fn, Win64Unwind, "win64-unwind", (a0: Tok), P16, Plain, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1144, 1144, Fn, Win64Unwind, "win64-unwind", (a0: usize, a1: i32), u8, ZstD, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1145, 1145, Fn, Win64Unwind, "win64-unwind", (a0: Tok, a1: i64, a2: Big), i32, Cap, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1146, 1146, Fn, Win64Unwind, "win64-unwind", (a0: u128, a1: u64, a2: i32, a3: u16), D16, Cap, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1147, 1147, FnMut, Win64Unwind, "win64-unwind", (a0: Tok), bool, Small, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1148, 1148, FnMut, Win64Unwind, "win64-unwind", (a0: bool, a1: u128), u128, Over, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1149, 1149, FnMut, Win64Unwind, "win64-unwind", (a0: u8, a1: P16, a2: Tok), P8, ZstD, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1150, 1150, FnMut, Win64Unwind, "win64-unwind", (a0: D16, a1: u128, a2: f64, a3: P16), f32, Wide, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1151, 1151, FnOnce, Win64Unwind, "win64-unwind", (a0: Tok), u64, Cap, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1152, 1152, FnOnce, Win64Unwind, "win64-unwind", (a0: *const u8, a1: Big), f64, Cap, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1153, 1153, FnOnce, Win64Unwind, "win64-unwind", (a0: i8, a1: Tok, a2: u16), (), Small, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1154, 1154, FnOnce, Win64Unwind, "win64-unwind", (a0: P16, a1: *const u8, a2: D16, a3: bool), Big, ZstD, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1155, 1155, Fn, Cdecl, "cdecl", (a0: P8), u64, Plain, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1156, 1156, Fn, Cdecl, "cdecl", (a0: i32, a1: *const u8), u64, Wide, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1157, 1157, Fn, Cdecl, "cdecl", (a0: Big, a1: P8, a2: i8), u64, Cap, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1158, 1158, Fn, Cdecl, "cdecl", (a0: f64, a1: f32, a2: *const u8, a3: Big), u64, Cap, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1159, 1159, FnMut, Cdecl, "cdecl", (a0: i64), u64, ZstD, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1160, 1160, FnMut, Cdecl, "cdecl", (a0: usize, a1: f64), u64, Over, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1161, 1161, FnMut, Cdecl, "cdecl", (a0: u16, a1: D16, a2: P8), u64, Plain, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1162, 1162, FnMut, Cdecl, "cdecl", (a0: u128, a1: f64, a2: P16, a3: D16), u64, Wide, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1163, 1163, FnOnce, Cdecl, "cdecl", (a0: f32), u64, Cap, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1164, 1164, FnOnce, Cdecl, "cdecl", (a0: bool, a1: i8), u64, ZstD, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1165, 1165, FnOnce, Cdecl, "cdecl", (a0: u8, a1: u16, a2: Big), u64, Small, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1166, 1166, FnOnce, Cdecl, "cdecl", (a0: D16, a1: bool, a2: u128, a3: usize), u64, Over, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1167, 1167, Fn, Aapcs, "aapcs", (a0: u64), P16, Plain, [dyn Send + Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1168, 1168, Fn, Aapcs, "aapcs", (a0: *const u8, a1: bool), u8, Wide, [dyn Send], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1169, 1169, Fn, Aapcs, "aapcs", (a0: i8, a1: u64, a2: u8), i32, ZstD, [dyn Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1170, 1170, Fn, Aapcs, "aapcs", (a0: P16, a1: i64, a2: bool, a3: i8), D16, Cap, [dyn closure_ffi::traits::Any], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1171, 1171, Fn, Aapcs, "aapcs", (a0: P8), bool, Small, [dyn Send + Sync], (short new_aapcs_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1172, 1172, FnMut, Aapcs, "aapcs", (a0: i32, a1: P16), u128, Over, [dyn Send], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1173, 1173, FnMut, Aapcs, "aapcs", (a0: Big, a1: u128, a2: u64), P8, Plain, [dyn Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1174, 1174, FnMut, Aapcs, "aapcs", (a0: f64, a1: P16, a2: D16, a3: u128), f32, ZstD, [dyn closure_ffi::traits::Any], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1175, 1175, FnMut, Aapcs, "aapcs", (a0: i64), u64, Cap, [dyn Send + Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1176, 1176, FnMut, Aapcs, "aapcs", (a0: usize, a1: u8), f64, Cap, [dyn Send], (short new_aapcs_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1177, 1177, FnOnce, Aapcs, "aapcs", (a0: u16, a1: Big, a2: i8), (), Small, [dyn Sync], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1178, 1178, FnOnce, Aapcs, "aapcs", (a0: u128, a1: usize, a2: f64, a3: i32), Big, Over, [dyn closure_ffi::traits::Any], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1179, 1179, FnOnce, Aapcs, "aapcs", (a0: f32), P16, ZstD, [dyn Send + Sync], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1180, 1180, FnOnce, Aapcs, "aapcs", (a0: bool, a1: usize), u8, Wide, [dyn Send], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1181, 1181, FnOnce, Aapcs, "aapcs", (a0: u8, a1: f32, a2: u16), i32, Cap, [dyn Sync], (short new_aapcs_in), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1182, 1182, Fn, AapcsUnwind, "aapcs-unwind", (a0: D16, a1: P8, a2: usize, a3: u8), D16, Cap, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1183, 1183, Fn, AapcsUnwind, "aapcs-unwind", (a0: Tok), bool, Small, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1184, 1184, Fn, AapcsUnwind, "aapcs-unwind", (a0: *const u8, a1: D16), u128, ZstD, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1185, 1185, Fn, AapcsUnwind, "aapcs-unwind", (a0: i8, a1: f64, a2: Tok), P8, Plain, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1186, 1186, FnMut, AapcsUnwind, "aapcs-unwind", (a0: P16, a1: D16, a2: u128, a3: f64), f32, Wide, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1187, 1187, FnMut, AapcsUnwind, "aapcs-unwind", (a0: Tok), u64, Cap, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1188, 1188, FnMut, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: u16), f64, Cap, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1189, 1189, FnMut, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: Tok, a2: u8), (), ZstD, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1190, 1190, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8), Big, Over, [dyn closure_ffi::traits::Any], with_cc_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1191, 1191, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Tok), P16, Plain, [dyn Send + Sync], new_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1192, 1192, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: usize, a1: i32), u8, Wide, [dyn Send], with_thunk_in, AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1193, 1193, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Tok, a1: i64, a2: Big), i32, Cap, [dyn Sync], try_with_thunk_in, AnyAlloc, typed, closure);
shape!(s1194, 1194, Fn, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1195, 1195, Fn, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1196, 1196, Fn, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1197, 1197, Fn, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1198, 1198, Fn, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1199, 1199, Fn, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1200, 1200, Fn, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1201, 1201, Fn, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1202, 1202, FnMut, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1203, 1203, FnMut, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1204, 1204, FnMut, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1205, 1205, FnMut, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1206, 1206, FnMut, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1207, 1207, FnMut, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1208, 1208, FnMut, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1209, 1209, FnMut, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1210, 1210, FnOnce, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1211, 1211, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send + Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1212, 1212, FnOnce, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1213, 1213, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Send], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1214, 1214, FnOnce, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1215, 1215, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn Sync], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1216, 1216, FnOnce, C, "C", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1217, 1217, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, Cap, [dyn closure_ffi::traits::Any], try_with_cc_in, AnyAlloc, typed, closure);
shape!(s1218, 1218, Fn, C, "C", (a0: u128), D16, Cap, [dyn closure_ffi::traits::Any], (factory make), AnyAlloc, typed, packed);
shape!(s1219, 1219, Fn, CUnwind, "C-unwind", (a0: Tok, a1: i64), bool, Small, [dyn closure_ffi::traits::Any], (factory make), AnyAlloc, typed, packed);
shape!(s1220, 1220, Fn, Rust, "Rust", (a0: bool, a1: u128, a2: usize), u64, Over, [dyn closure_ffi::traits::Any], (factory make), AnyAlloc, typed, packed);
shape!(s1221, 1221, Fn, C, "C", (a0: u8, a1: P16, a2: i64, a3: bool), f64, Plain, [dyn Send], (factory make_send), AnyAlloc, typed, packed);
shape!(s1222, 1222, Fn, CUnwind, "C-unwind", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16), (), Wide, [dyn Send], (factory make_send), AnyAlloc, typed, packed);
shape!(s1223, 1223, Fn, Rust, "Rust", (), Big, ZstD, [dyn Send], (factory make_send), AnyAlloc, typed, packed);
shape!(s1224, 1224, Fn, C, "C", (a0: *const u8), P16, Cap, [dyn Sync], (factory make_sync), AnyAlloc, typed, packed);
shape!(s1225, 1225, Fn, CUnwind, "C-unwind", (a0: i8, a1: Tok), u8, Small, [dyn Sync], (factory make_sync), AnyAlloc, typed, packed);
shape!(s1226, 1226, Fn, Rust, "Rust", (a0: P16, a1: *const u8, a2: D16), i32, Over, [dyn Sync], (factory make_sync), AnyAlloc, typed, packed);
shape!(s1227, 1227, Fn, C, "C", (a0: P8, a1: usize, a2: u8, a3: P16), D16, Plain, [dyn Send + Sync], (factory make_send_sync), AnyAlloc, typed, packed);
shape!(s1228, 1228, Fn, CUnwind, "C-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32), bool, Wide, [dyn Send + Sync], (factory make_send_sync), AnyAlloc, typed, packed);
shape!(s1229, 1229, Fn, Rust, "Rust", (), u64, ZstD, [dyn Send + Sync], (factory make_send_sync), AnyAlloc, typed, packed);
shape!(s1230, 1230, FnMut, C, "C", (a0: f64), f64, Cap, [dyn closure_ffi::traits::Any], (factory make_mut), AnyAlloc, typed, packed);
shape!(s1231, 1231, FnMut, CUnwind, "C-unwind", (a0: Tok, a1: P8), (), Small, [dyn closure_ffi::traits::Any], (factory make_mut), AnyAlloc, typed, packed);
shape!(s1232, 1232, FnMut, Rust, "Rust", (a0: usize, a1: f64, a2: i32), Big, Over, [dyn closure_ffi::traits::Any], (factory make_mut), AnyAlloc, typed, packed);
shape!(s1233, 1233, FnMut, C, "C", (a0: u16, a1: D16, a2: P8, a3: usize), P16, Plain, [dyn Send], (factory make_mut_send), AnyAlloc, typed, packed);
shape!(s1234, 1234, FnMut, CUnwind, "C-unwind", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128), u8, Wide, [dyn Send], (factory make_mut_send), AnyAlloc, typed, packed);
shape!(s1235, 1235, FnMut, Rust, "Rust", (), i32, ZstD, [dyn Send], (factory make_mut_send), AnyAlloc, typed, packed);
shape!(s1236, 1236, FnMut, C, "C", (a0: bool), D16, Cap, [dyn Sync], (factory make_mut_sync), AnyAlloc, typed, packed);
shape!(s1237, 1237, FnMut, CUnwind, "C-unwind", (a0: u8, a1: Tok), bool, Small, [dyn Sync], (factory make_mut_sync), AnyAlloc, typed, packed);
shape!(s1238, 1238, FnMut, Rust, "Rust", (a0: D16, a1: bool, a2: u128), u64, Over, [dyn Sync], (factory make_mut_sync), AnyAlloc, typed, packed);
shape!(s1239, 1239, FnMut, C, "C", (a0: u64, a1: i32, a2: u16, a3: D16), f64, Plain, [dyn Send + Sync], (factory make_mut_send_sync), AnyAlloc, typed, packed);
shape!(s1240, 1240, FnMut, CUnwind, "C-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32, a4: *const u8), (), Wide, [dyn Send + Sync], (factory make_mut_send_sync), AnyAlloc, typed, packed);
shape!(s1241, 1241, FnMut, Rust, "Rust", (), Big, ZstD, [dyn Send + Sync], (factory make_mut_send_sync), AnyAlloc, typed, packed);
shape!(s1242, 1242, FnOnce, C, "C", (a0: P16), P16, Cap, [dyn closure_ffi::traits::Any], (factory make_once), AnyAlloc, typed, packed);
shape!(s1243, 1243, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: u64), u8, Small, [dyn closure_ffi::traits::Any], (factory make_once), AnyAlloc, typed, packed);
shape!(s1244, 1244, FnOnce, Rust, "Rust", (a0: i32, a1: P16, a2: *const u8), i32, Over, [dyn closure_ffi::traits::Any], (factory make_once), AnyAlloc, typed, packed);
shape!(s1245, 1245, FnOnce, C, "C", (a0: Big, a1: u128, a2: u64, a3: i32), D16, Plain, [dyn Send], (factory make_once_send), AnyAlloc, typed, packed);
shape!(s1246, 1246, FnOnce, CUnwind, "C-unwind", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64), bool, Wide, [dyn Send], (factory make_once_send), AnyAlloc, typed, packed);
shape!(s1247, 1247, FnOnce, Rust, "Rust", (), u64, ZstD, [dyn Send], (factory make_once_send), AnyAlloc, typed, packed);
shape!(s1248, 1248, FnOnce, C, "C", (a0: usize), f64, Cap, [dyn Sync], (factory make_once_sync), AnyAlloc, typed, packed);
shape!(s1249, 1249, FnOnce, CUnwind, "C-unwind", (a0: u16, a1: Tok), (), Small, [dyn Sync], (factory make_once_sync), AnyAlloc, typed, packed);
shape!(s1250, 1250, FnOnce, Rust, "Rust", (a0: u128, a1: usize, a2: f64), Big, Over, [dyn Sync], (factory make_once_sync), AnyAlloc, typed, packed);
shape!(s1251, 1251, FnOnce, C, "C", (a0: f32, a1: *const u8, a2: Big, a3: u128), P16, Plain, [dyn Send + Sync], (factory make_once_send_sync), AnyAlloc, typed, packed);
shape!(s1252, 1252, FnOnce, CUnwind, "C-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool), u8, Wide, [dyn Send + Sync], (factory make_once_send_sync), AnyAlloc, typed, packed);
shape!(s1253, 1253, FnOnce, Rust, "Rust", (), i32, ZstD, [dyn Send + Sync], (factory make_once_send_sync), AnyAlloc, typed, packed);
shape!(s1254, 1254, Fn, Rust, "Rust", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16, a5: i64, a6: bool, a7: i8, a8: f64), D16, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1255, 1255, Fn, Rust, "Rust", (a0: u64, a1: f32, a2: i64, a3: P8, a4: u64, a5: f32, a6: Tok, a7: P8, a8: u64, a9: f32), bool, ZstD, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1256, 1256, Fn, C, "C", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32, a7: P16, a8: *const u8, a9: D16, a10: bool), u128, Over, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1257, 1257, Fn, C, "C", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32, a8: u16, a9: D16, a10: P8, a11: usize), P8, Plain, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1258, 1258, Fn, CUnwind, "C-unwind", (), f32, Wide, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1259, 1259, Fn, CUnwind, "C-unwind", (a0: Tok), u64, Cap, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1260, 1260, Fn, System, "system", (a0: i32, a1: u16), f64, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1261, 1261, Fn, System, "system", (a0: Big, a1: i8, a2: u8), (), Small, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1262, 1262, Fn, SystemUnwind, "system-unwind", (a0: f64, a1: i32, a2: P16, a3: *const u8), Big, Over, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1263, 1263, Fn, SystemUnwind, "system-unwind", (a0: Tok, a1: bool, a2: i8, a3: f64, a4: f32), P16, ZstD, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1264, 1264, Fn, Efiapi, "efiapi", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32), u8, Wide, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
shape!(s1265, 1265, Fn, Efiapi, "efiapi", (a0: u16, a1: i64, a2: Big, a3: P8, a4: i8, a5: u64, a6: u8), i32, Cap, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1266, 1266, Fn, Sysv64, "sysv64", (a0: u128, a1: u64, a2: i32, a3: u16, a4: D16, a5: P8, a6: usize, a7: u8), D16, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1267, 1267, Fn, Sysv64, "sysv64", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32, a5: i64, a6: P8, a7: u64, a8: f32), bool, Small, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1268, 1268, Fn, Sysv64Unwind, "sysv64-unwind", (a0: bool, a1: u128, a2: usize, a3: f64, a4: i32, a5: P16, a6: *const u8, a7: D16, a8: bool, a9: u128), u128, Over, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1269, 1269, Fn, Sysv64Unwind, "sysv64-unwind", (a0: u8, a1: P16, a2: i64, a3: bool, a4: i8, a5: f64, a6: f32, a7: Tok, a8: Big, a9: u128, a10: u64), P8, Plain, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1270, 1270, Fn, Win64, "win64", (a0: D16, a1: u128, a2: f64, a3: P16, a4: D16, a5: u128, a6: f64, a7: P16, a8: D16, a9: u128, a10: f64, a11: P16), f32, Wide, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1271, 1271, Fn, Win64, "win64", (), u64, ZstD, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1272, 1272, Fn, Win64Unwind, "win64-unwind", (a0: *const u8), f64, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1273, 1273, Fn, Win64Unwind, "win64-unwind", (a0: i8, a1: Tok), (), Small, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1274, 1274, Fn, Fastcall, "fastcall", (a0: P8, a1: usize, a2: u8, a3: P16), P16, Plain, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1275, 1275, Fn, FastcallUnwind, "fastcall-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32), u8, Wide, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1276, 1276, Fn, Stdcall, "stdcall", (a0: i64, a1: P8, a2: u64, a3: f32, a4: i64, a5: P8, a6: u64, a7: f32), bool, ZstD, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1277, 1277, Fn, StdcallUnwind, "stdcall-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8, a5: D16, a6: bool, a7: u64, a8: usize), u64, Over, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1278, 1278, Fn, Cdecl, "cdecl", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64, a7: u8, a8: f32, a9: u16, a10: i64, a11: Big), u64, Cap, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1279, 1279, Fn, CdeclUnwind, "cdecl-unwind", (), f64, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1280, 1280, Fn, Thiscall, "thiscall", (a0: u64, a1: i32, a2: u16), P16, ZstD, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1281, 1281, Fn, ThiscallUnwind, "thiscall-unwind", (a0: *const u8, a1: bool, a2: usize, a3: i32), u8, Wide, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1282, 1282, Fn, Aapcs, "aapcs", (a0: P16, a1: i64, a2: bool, a3: i8, a4: f64, a5: f32), D16, Cap, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1283, 1283, Fn, Aapcs, "aapcs", (a0: P8, a1: u64, a2: f32, a3: i64, a4: P8, a5: u64, a6: f32), bool, Small, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1284, 1284, Fn, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: P16, a2: *const u8, a3: D16, a4: bool, a5: u128, a6: usize, a7: f64), u128, Over, [dyn Send + Sync], (front front), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1285, 1285, Fn, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16, a5: Tok, a6: P8, a7: usize, a8: u8), P8, Plain, [dyn Send + Sync], (front2 front), AnyAlloc, typed, closure);
shape!(s1286, 1286, FnMut, Rust, "Rust", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16, a6: D16, a7: u128, a8: f64, a9: P16), f32, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1287, 1287, FnMut, Rust, "Rust", (a0: i64, a1: Big, a2: P8, a3: i8, a4: u64, a5: u8, a6: f32, a7: u16, a8: i64, a9: Tok, a10: P8), u64, ZstD, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1288, 1288, FnMut, C, "C", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32, a8: *const u8, a9: Big, a10: u128, a11: u64), f64, Cap, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1289, 1289, FnMut, C, "C", (), (), Small, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1290, 1290, FnMut, CUnwind, "C-unwind", (a0: u128), Big, Over, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1291, 1291, FnMut, CUnwind, "C-unwind", (a0: Tok, a1: *const u8), P16, Plain, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1292, 1292, FnMut, System, "system", (a0: bool, a1: usize, a2: i32), u8, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1293, 1293, FnMut, System, "system", (a0: u8, a1: f32, a2: u16, a3: i64), i32, Cap, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1294, 1294, FnMut, SystemUnwind, "system-unwind", (a0: D16, a1: P8, a2: usize, a3: u8, a4: P16), D16, Cap, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1295, 1295, FnMut, SystemUnwind, "system-unwind", (a0: u64, a1: f32, a2: i64, a3: P8, a4: Tok, a5: f32), bool, ZstD, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1296, 1296, FnMut, Efiapi, "efiapi", (a0: *const u8, a1: D16, a2: bool, a3: u128, a4: usize, a5: f64, a6: i32), u128, Over, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
shape!(s1297, 1297, FnMut, Efiapi, "efiapi", (a0: i8, a1: f64, a2: f32, a3: *const u8, a4: Big, a5: u128, a6: u64, a7: i32), P8, Plain, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1298, 1298, FnMut, Sysv64, "sysv64", (a0: P16, a1: D16, a2: u128, a3: f64, a4: P16, a5: D16, a6: u128, a7: f64, a8: P16), f32, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1299, 1299, FnMut, Sysv64, "sysv64", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16, a6: i64, a7: Big, a8: P8, a9: i8), u64, Cap, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1300, 1300, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16, a7: i64, a8: bool, a9: i8, a10: f64), f64, Cap, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1301, 1301, FnMut, Sysv64Unwind, "sysv64-unwind", (a0: Big, a1: i8, a2: u8, a3: u16, a4: Big, a5: i8, a6: u8, a7: Tok, a8: Big, a9: i8, a10: u8, a11: u16), (), Small, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1302, 1302, FnMut, Win64, "win64", (), Big, Over, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1303, 1303, FnMut, Win64, "win64", (a0: i64), P16, ZstD, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1304, 1304, FnMut, Win64Unwind, "win64-unwind", (a0: usize, a1: i32), u8, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1305, 1305, FnMut, Win64Unwind, "win64-unwind", (a0: Tok, a1: i64, a2: Big), i32, Cap, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1306, 1306, FnMut, Fastcall, "fastcall", (a0: f32, a1: i64, a2: P8, a3: u64, a4: f32), bool, Small, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1307, 1307, FnMut, FastcallUnwind, "fastcall-unwind", (a0: bool, a1: u64, a2: usize, a3: f64, a4: i32, a5: P16), u64, Over, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1308, 1308, FnMut, Stdcall, "stdcall", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64, a5: Big, a6: P8, a7: i8, a8: u64), u64, ZstD, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1309, 1309, FnMut, StdcallUnwind, "stdcall-unwind", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32, a5: u16, a6: D16, a7: P8, a8: usize, a9: u8), f64, Cap, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1310, 1310, FnMut, Cdecl, "cdecl", (), P16, Plain, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1311, 1311, FnMut, CdeclUnwind, "cdecl-unwind", (a0: i32), u8, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1312, 1312, FnMut, Thiscall, "thiscall", (a0: i64, a1: P8, a2: u64, a3: f32), bool, ZstD, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1313, 1313, FnMut, ThiscallUnwind, "thiscall-unwind", (a0: usize, a1: f64, a2: i32, a3: P16, a4: *const u8), u64, Over, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1314, 1314, FnMut, Aapcs, "aapcs", (a0: u128, a1: f64, a2: P16, a3: D16, a4: u128, a5: f64, a6: P16), f32, Wide, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1315, 1315, FnMut, Aapcs, "aapcs", (a0: f32, a1: u16, a2: i64, a3: Big, a4: P8, a5: i8, a6: u64, a7: u8), u64, Cap, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1316, 1316, FnMut, AapcsUnwind, "aapcs-unwind", (a0: bool, a1: i8, a2: f64, a3: f32, a4: *const u8, a5: Big, a6: u128, a7: u64, a8: i32), f64, Cap, [dyn Send + Sync], (front front_mut), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1317, 1317, FnMut, AapcsUnwind, "aapcs-unwind", (a0: u8, a1: u16, a2: Big, a3: i8, a4: u8, a5: Tok, a6: Big, a7: i8, a8: u8, a9: u16), (), Small, [dyn Send + Sync], (front2 front_mut), AnyAlloc, typed, closure);
shape!(s1318, 1318, FnOnce, Rust, "Rust", (a0: D16, a1: bool, a2: u128, a3: usize, a4: f64, a5: i32, a6: P16, a7: *const u8, a8: D16, a9: bool, a10: u128), Big, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1319, 1319, FnOnce, Rust, "Rust", (a0: u64, a1: i32, a2: u16, a3: D16, a4: P8, a5: usize, a6: u8, a7: P16, a8: Tok, a9: bool, a10: i8, a11: f64), P16, ZstD, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1320, 1320, FnOnce, C, "C", (), u8, Wide, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1321, 1321, FnOnce, C, "C", (a0: i8), i32, Cap, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1322, 1322, FnOnce, CUnwind, "C-unwind", (a0: P16, a1: i64), D16, Cap, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1323, 1323, FnOnce, CUnwind, "C-unwind", (a0: P8, a1: Tok, a2: f32), bool, Small, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1324, 1324, FnOnce, System, "system", (a0: i32, a1: P16, a2: *const u8, a3: D16), u128, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1325, 1325, FnOnce, System, "system", (a0: Big, a1: u128, a2: u64, a3: i32, a4: u16), P8, Plain, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1326, 1326, FnOnce, SystemUnwind, "system-unwind", (a0: f64, a1: P16, a2: D16, a3: u128, a4: f64, a5: P16), f32, Wide, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1327, 1327, FnOnce, SystemUnwind, "system-unwind", (a0: i64, a1: Big, a2: Tok, a3: i8, a4: u64, a5: u8, a6: f32), u64, ZstD, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1328, 1328, FnOnce, Efiapi, "efiapi", (a0: usize, a1: u8, a2: P16, a3: i64, a4: bool, a5: i8, a6: f64, a7: f32), f64, Cap, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
shape!(s1329, 1329, FnOnce, Efiapi, "efiapi", (a0: u16, a1: Big, a2: i8, a3: u8, a4: u16, a5: Big, a6: i8, a7: u8, a8: u16), (), Small, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1330, 1330, FnOnce, Sysv64, "sysv64", (a0: u128, a1: usize, a2: f64, a3: i32, a4: P16, a5: *const u8, a6: D16, a7: bool, a8: u128, a9: usize), Big, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1331, 1331, FnOnce, Sysv64, "sysv64", (a0: f32, a1: *const u8, a2: Big, a3: u128, a4: u64, a5: i32, a6: u16, a7: D16, a8: P8, a9: usize, a10: u8), P16, Plain, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1332, 1332, FnOnce, Sysv64Unwind, "sysv64-unwind", (a0: bool, a1: usize, a2: i32, a3: *const u8, a4: bool, a5: usize, a6: i32, a7: *const u8, a8: bool, a9: usize, a10: i32, a11: *const u8), u8, Wide, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1333, 1333, FnOnce, Sysv64Unwind, "sysv64-unwind", (), i32, Cap, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1334, 1334, FnOnce, Win64, "win64", (a0: D16), D16, Cap, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1335, 1335, FnOnce, Win64, "win64", (a0: u64, a1: f32), bool, ZstD, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1336, 1336, FnOnce, Win64Unwind, "win64-unwind", (a0: *const u8, a1: D16, a2: bool), u128, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1337, 1337, FnOnce, Win64Unwind, "win64-unwind", (a0: i8, a1: Tok, a2: f32, a3: *const u8), P8, Plain, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1338, 1338, FnOnce, Fastcall, "fastcall", (a0: P8, a1: i8, a2: u64, a3: u8, a4: f32, a5: u16), u64, Cap, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1339, 1339, FnOnce, FastcallUnwind, "fastcall-unwind", (a0: i32, a1: u16, a2: D16, a3: P8, a4: usize, a5: u8, a6: P16), f64, Cap, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1340, 1340, FnOnce, Stdcall, "stdcall", (a0: i64, a1: bool, a2: i8, a3: f64, a4: f32, a5: *const u8, a6: Big, a7: u64, a8: u64, a9: i32), P16, ZstD, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1341, 1341, FnOnce, StdcallUnwind, "stdcall-unwind", (a0: usize, a1: i32, a2: *const u8, a3: bool, a4: usize, a5: i32, a6: *const u8, a7: bool, a8: usize, a9: i32, a10: *const u8), u8, Wide, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1342, 1342, FnOnce, Cdecl, "cdecl", (a0: f32), bool, Small, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1343, 1343, FnOnce, CdeclUnwind, "cdecl-unwind", (a0: bool, a1: u128), u64, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1344, 1344, FnOnce, Thiscall, "thiscall", (a0: u64, a1: u8, a2: f32, a3: u16, a4: i64), u64, ZstD, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "x86"))]
shape!(s1345, 1345, FnOnce, ThiscallUnwind, "thiscall-unwind", (a0: *const u8, a1: Big, a2: u64, a3: u64, a4: i32, a5: u16), f64, Cap, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1346, 1346, FnOnce, Aapcs, "aapcs", (a0: P16, a1: *const u8, a2: D16, a3: bool, a4: u128, a5: usize, a6: f64, a7: i32), Big, Over, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1347, 1347, FnOnce, Aapcs, "aapcs", (a0: P8, a1: usize, a2: u8, a3: P16, a4: i64, a5: bool, a6: i8, a7: f64, a8: f32), P16, Plain, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1348, 1348, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: i32, a1: *const u8, a2: bool, a3: usize, a4: i32, a5: *const u8, a6: bool, a7: usize, a8: i32, a9: *const u8), u8, Wide, [dyn Send + Sync], (front front_once), AnyAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1349, 1349, FnOnce, AapcsUnwind, "aapcs-unwind", (a0: Big, a1: P8, a2: i8, a3: u64, a4: Tok, a5: f32, a6: u16, a7: i64, a8: Big, a9: P8, a10: i8), i32, Cap, [dyn Send + Sync], (front2 front_once), AnyAlloc, typed, closure);
shape!(s1350, 1350, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], try_with_cc_in, &'static crate::simjit::SimHandle, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1351, 1351, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static crate::simjit::SimHandle, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1352, 1352, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, typed, closure);
shape!(s1353, 1353, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1354, 1354, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::sync::Arc<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1355, 1355, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, std::sync::Arc<crate::simjit::SimHandle>, untyped, closure);
shape!(s1356, 1356, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::rc::Rc<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1357, 1357, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], with_thunk_in, std::rc::Rc<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1358, 1358, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<crate::simjit::SimHandle>, typed, closure);
shape!(s1359, 1359, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1360, 1360, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1361, 1361, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, untyped, closure);
shape!(s1362, 1362, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Smart, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1363, 1363, Fn, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Smart, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1364, 1364, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], try_with_cc_in, &'static crate::simjit::SimHandle, typed, closure);
shape!(s1365, 1365, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static crate::simjit::SimHandle, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1366, 1366, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1367, 1367, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, untyped, closure);
shape!(s1368, 1368, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::sync::Arc<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1369, 1369, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, std::sync::Arc<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1370, 1370, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::rc::Rc<crate::simjit::SimHandle>, typed, closure);
shape!(s1371, 1371, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], with_thunk_in, std::rc::Rc<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1372, 1372, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1373, 1373, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<crate::simjit::SimHandle>, untyped, closure);
shape!(s1374, 1374, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1375, 1375, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1376, 1376, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Smart, typed, closure);
shape!(s1377, 1377, FnMut, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Smart, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1378, 1378, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], try_with_cc_in, &'static crate::simjit::SimHandle, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1379, 1379, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static crate::simjit::SimHandle, untyped, closure);
shape!(s1380, 1380, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1381, 1381, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, &'static std::sync::LazyLock<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1382, 1382, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::sync::Arc<crate::simjit::SimHandle>, typed, closure);
shape!(s1383, 1383, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, std::sync::Arc<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1384, 1384, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, std::rc::Rc<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1385, 1385, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, ZstD, [dyn Send + Sync], with_thunk_in, std::rc::Rc<crate::simjit::SimHandle>, untyped, closure);
shape!(s1386, 1386, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<crate::simjit::SimHandle>, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1387, 1387, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<crate::simjit::SimHandle>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1388, 1388, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, typed, closure);
shape!(s1389, 1389, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Box<std::sync::Arc<crate::simjit::SimHandle>>, untyped, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1390, 1390, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], try_with_cc_in, Smart, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1391, 1391, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: P16), u64, Cap, [dyn Send + Sync], with_thunk_in, Smart, untyped, closure);
shape!(s1392, 1392, Fn, C, "C", (a0: *const u8, a1: Big, a2: u128), f64, Cap, [dyn Send], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1393, 1393, Fn, C, "C", (a0: i8, a1: u8, a2: u16, a3: Big), (), Cap, [dyn Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1394, 1394, Fn, C, "C", (), u64, ZstD, [dyn closure_ffi::traits::Any], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1395, 1395, Fn, C, "C", (a0: P8), f64, Cap, [dyn Send + Sync], (gshort new_c), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1396, 1396, Fn, CUnwind, "C-unwind", (a0: i32, a1: *const u8), (), Cap, [dyn Send], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1397, 1397, Fn, CUnwind, "C-unwind", (a0: Tok, a1: P8, a2: i8), u64, Cap, [dyn Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1398, 1398, Fn, CUnwind, "C-unwind", (a0: f64, a1: f32, a2: *const u8, a3: Big), f64, Cap, [dyn closure_ffi::traits::Any], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1399, 1399, Fn, Rust, "Rust", (), (), Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1400, 1400, Fn, Rust, "Rust", (a0: usize), u64, Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1401, 1401, Fn, Rust, "Rust", (a0: u16, a1: Tok), f64, Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1402, 1402, Fn, Rust, "Rust", (a0: u128, a1: f64, a2: P16), (), Cap, [dyn closure_ffi::traits::Any], (gshort new_rust), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1403, 1403, Fn, System, "system", (a0: f32, a1: u16, a2: i64, a3: Big), u64, ZstD, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1404, 1404, Fn, System, "system", (), f64, Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1405, 1405, Fn, System, "system", (a0: u8), (), Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1406, 1406, Fn, System, "system", (a0: D16, a1: bool), u64, Cap, [dyn closure_ffi::traits::Any], (gshort new_system), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1407, 1407, Fn, Efiapi, "efiapi", (a0: u64, a1: i32, a2: u16), f64, Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1408, 1408, Fn, Efiapi, "efiapi", (a0: *const u8, a1: bool, a2: usize, a3: i32), (), Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1409, 1409, Fn, Efiapi, "efiapi", (), u64, Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1410, 1410, Fn, Efiapi, "efiapi", (a0: P16), f64, Cap, [dyn closure_ffi::traits::Any], (gshort new_efiabi), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1411, 1411, Fn, Sysv64, "sysv64", (a0: P8, a1: u64), (), Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1412, 1412, Fn, Sysv64, "sysv64", (a0: i32, a1: P16, a2: *const u8), u64, ZstD, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1413, 1413, Fn, Sysv64, "sysv64", (a0: Big, a1: u128, a2: u64, a3: i32), f64, Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1414, 1414, Fn, Sysv64, "sysv64", (), (), Cap, [dyn closure_ffi::traits::Any], (gshort new_sysv64), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1415, 1415, Fn, Aapcs, "aapcs", (a0: i64), u64, Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1416, 1416, Fn, Aapcs, "aapcs", (a0: usize, a1: u8), f64, Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1417, 1417, Fn, Aapcs, "aapcs", (a0: u16, a1: Big, a2: i8), (), Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1418, 1418, Fn, Aapcs, "aapcs", (a0: u128, a1: usize, a2: f64, a3: i32), u64, Cap, [dyn closure_ffi::traits::Any], (gshort new_aapcs), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1419, 1419, Fn, C, "C", (a0: u64), u64, Cap, [dyn Send + Sync], (gfactory make_send_sync), closure_ffi::jit_alloc::GlobalJitAlloc, typed, packed);
#[cfg(all(not(feature = "few")))]
shape!(s1420, 1420, FnMut, C, "C", (), f64, Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1421, 1421, FnMut, C, "C", (a0: bool), (), Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1422, 1422, FnMut, C, "C", (a0: u8, a1: f32), u64, ZstD, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1423, 1423, FnMut, C, "C", (a0: D16, a1: P8, a2: usize), f64, Cap, [dyn closure_ffi::traits::Any], (gshort new_c), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1424, 1424, FnMut, CUnwind, "C-unwind", (a0: Tok, a1: f32, a2: i64, a3: P8), (), Cap, [dyn Send + Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1425, 1425, FnMut, CUnwind, "C-unwind", (), u64, Cap, [dyn Send], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1426, 1426, FnMut, CUnwind, "C-unwind", (a0: Tok), f64, Cap, [dyn Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1427, 1427, FnMut, Rust, "Rust", (a0: P16, a1: D16), (), Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1428, 1428, FnMut, Rust, "Rust", (a0: Tok, a1: i8, a2: u64), u64, Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1429, 1429, FnMut, Rust, "Rust", (a0: i32, a1: u16, a2: D16, a3: P8), f64, Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1430, 1430, FnMut, Rust, "Rust", (), (), Cap, [dyn Sync], (gshort new_rust), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1431, 1431, FnMut, System, "system", (a0: f64), u64, ZstD, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1432, 1432, FnMut, System, "system", (a0: i64, a1: bool), f64, Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1433, 1433, FnMut, System, "system", (a0: usize, a1: i32, a2: *const u8), (), Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1434, 1434, FnMut, System, "system", (a0: u16, a1: i64, a2: Big, a3: P8), u64, Cap, [dyn Sync], (gshort new_system), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1435, 1435, FnMut, Efiapi, "efiapi", (), f64, Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1436, 1436, FnMut, Efiapi, "efiapi", (a0: f32), (), Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1437, 1437, FnMut, Efiapi, "efiapi", (a0: bool, a1: u128), u64, Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1438, 1438, FnMut, Efiapi, "efiapi", (a0: u8, a1: P16, a2: i64), f64, Cap, [dyn Sync], (gshort new_efiabi), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1439, 1439, FnMut, Sysv64, "sysv64", (a0: D16, a1: u128, a2: f64, a3: P16), (), Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1440, 1440, FnMut, Sysv64, "sysv64", (), u64, ZstD, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1441, 1441, FnMut, Sysv64, "sysv64", (a0: *const u8), f64, Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1442, 1442, FnMut, Sysv64, "sysv64", (a0: i8, a1: u8), (), Cap, [dyn Sync], (gshort new_sysv64), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1443, 1443, FnMut, Aapcs, "aapcs", (a0: P16, a1: *const u8, a2: D16), u64, Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1444, 1444, FnMut, Aapcs, "aapcs", (a0: P8, a1: usize, a2: u8, a3: P16), f64, Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1445, 1445, FnMut, Aapcs, "aapcs", (), (), Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1446, 1446, FnMut, Aapcs, "aapcs", (a0: Big), u64, Cap, [dyn Sync], (gshort new_aapcs), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1447, 1447, FnMut, C, "C", (a0: u64), u64, Cap, [dyn Send + Sync], (gfactory make_mut_send_sync), closure_ffi::jit_alloc::GlobalJitAlloc, typed, packed);
#[cfg(all(not(feature = "few")))]
shape!(s1448, 1448, FnOnce, C, "C", (a0: f64, a1: f32), f64, Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1449, 1449, FnOnce, C, "C", (a0: i64, a1: P8, a2: u64), (), Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1450, 1450, FnOnce, C, "C", (a0: usize, a1: f64, a2: i32, a3: P16), u64, ZstD, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1451, 1451, FnOnce, C, "C", (), f64, Cap, [dyn Sync], (gshort new_c), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1452, 1452, FnOnce, CUnwind, "C-unwind", (a0: u128), (), Cap, [dyn closure_ffi::traits::Any], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1453, 1453, FnOnce, CUnwind, "C-unwind", (a0: Tok, a1: u16), u64, Cap, [dyn Send + Sync], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1454, 1454, FnOnce, CUnwind, "C-unwind", (a0: bool, a1: i8, a2: f64), f64, Cap, [dyn Send], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1455, 1455, FnOnce, Rust, "Rust", (a0: u8, a1: u16, a2: Big, a3: Tok), (), Cap, [dyn Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1456, 1456, FnOnce, Rust, "Rust", (), u64, Cap, [dyn closure_ffi::traits::Any], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1457, 1457, FnOnce, Rust, "Rust", (a0: Tok), f64, Cap, [dyn Send + Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1458, 1458, FnOnce, Rust, "Rust", (a0: *const u8, a1: bool), (), Cap, [dyn Send], (gshort new_rust), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1459, 1459, FnOnce, System, "system", (a0: i8, a1: u64, a2: u8), u64, ZstD, [dyn Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1460, 1460, FnOnce, System, "system", (a0: P16, a1: i64, a2: bool, a3: i8), f64, Cap, [dyn closure_ffi::traits::Any], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1461, 1461, FnOnce, System, "system", (), (), Cap, [dyn Send + Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1462, 1462, FnOnce, System, "system", (a0: i32), u64, Cap, [dyn Send], (gshort new_system), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1463, 1463, FnOnce, Efiapi, "efiapi", (a0: Big, a1: u128), f64, Cap, [dyn Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
shape!(s1464, 1464, FnOnce, Efiapi, "efiapi", (a0: f64, a1: P16, a2: D16), (), Cap, [dyn closure_ffi::traits::Any], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1465, 1465, FnOnce, Efiapi, "efiapi", (a0: i64, a1: Big, a2: P8, a3: i8), u64, Cap, [dyn Send + Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1466, 1466, FnOnce, Efiapi, "efiapi", (), f64, Cap, [dyn Send], (gshort new_efiabi), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1467, 1467, FnOnce, Sysv64, "sysv64", (a0: u16), (), Cap, [dyn Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1468, 1468, FnOnce, Sysv64, "sysv64", (a0: u128, a1: usize), u64, ZstD, [dyn closure_ffi::traits::Any], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))]
shape!(s1469, 1469, FnOnce, Sysv64, "sysv64", (a0: f32, a1: *const u8, a2: Big), f64, Cap, [dyn Send + Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "x86_64"))]
shape!(s1470, 1470, FnOnce, Sysv64, "sysv64", (a0: bool, a1: usize, a2: i32, a3: *const u8), (), Cap, [dyn Send], (gshort new_sysv64), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1471, 1471, FnOnce, Aapcs, "aapcs", (), u64, Cap, [dyn Sync], new, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1472, 1472, FnOnce, Aapcs, "aapcs", (a0: D16), f64, Cap, [dyn closure_ffi::traits::Any], with_cc, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1473, 1473, FnOnce, Aapcs, "aapcs", (a0: u64, a1: f32), (), Cap, [dyn Send + Sync], with_thunk, closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(target_arch = "arm"))]
shape!(s1474, 1474, FnOnce, Aapcs, "aapcs", (a0: *const u8, a1: D16, a2: bool), u64, Cap, [dyn Send], (gshort new_aapcs), closure_ffi::jit_alloc::GlobalJitAlloc, typed, closure);
#[cfg(all(not(feature = "few")))]
shape!(s1475, 1475, FnOnce, C, "C", (a0: u64), u64, Cap, [dyn Send + Sync], (gfactory make_once_send_sync), closure_ffi::jit_alloc::GlobalJitAlloc, typed, packed);
leaf!(s1476, 1476, Fn, Rust, "Rust", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1477, 1477, Fn, C, "C", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1478, 1478, Fn, System, "system", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1479, 1479, Fn, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1480, 1480, Fn, Sysv64, "sysv64", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1481, 1481, Fn, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1482, 1482, FnMut, Rust, "Rust", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1483, 1483, FnMut, C, "C", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1484, 1484, FnMut, System, "system", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1485, 1485, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1486, 1486, FnMut, Sysv64, "sysv64", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1487, 1487, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1488, 1488, FnOnce, Rust, "Rust", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1489, 1489, FnOnce, C, "C", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1490, 1490, FnOnce, System, "system", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1491, 1491, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1492, 1492, FnOnce, Sysv64, "sysv64", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1493, 1493, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: u32| a0 * 3.140625 + a1 * 2.5e10 + c as f64);
leaf!(s1494, 1494, Fn, Rust, "Rust", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1495, 1495, Fn, C, "C", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1496, 1496, Fn, CUnwind, "C-unwind", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1497, 1497, Fn, Win64, "win64", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1498, 1498, Fn, Cdecl, "cdecl", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "arm"))] leaf!(s1499, 1499, Fn, Aapcs, "aapcs", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1500, 1500, FnMut, Rust, "Rust", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1501, 1501, FnMut, C, "C", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1502, 1502, FnMut, CUnwind, "C-unwind", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1503, 1503, FnMut, Win64, "win64", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1504, 1504, FnMut, Cdecl, "cdecl", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "arm"))] leaf!(s1505, 1505, FnMut, Aapcs, "aapcs", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1506, 1506, FnOnce, Rust, "Rust", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1507, 1507, FnOnce, C, "C", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1508, 1508, FnOnce, CUnwind, "C-unwind", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1509, 1509, FnOnce, Win64, "win64", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1510, 1510, FnOnce, Cdecl, "cdecl", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
#[cfg(all(target_arch = "arm"))] leaf!(s1511, 1511, FnOnce, Aapcs, "aapcs", (a0: f64), f64, |c: u32| a0.abs() * 1.0e-3 - c as f64);
leaf!(s1512, 1512, Fn, Rust, "Rust", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1513, 1513, Fn, C, "C", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1514, 1514, Fn, System, "system", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1515, 1515, Fn, Efiapi, "efiapi", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1516, 1516, Fn, Sysv64, "sysv64", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1517, 1517, Fn, Fastcall, "fastcall", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1518, 1518, FnMut, Rust, "Rust", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1519, 1519, FnMut, C, "C", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1520, 1520, FnMut, System, "system", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1521, 1521, FnMut, Efiapi, "efiapi", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1522, 1522, FnMut, Sysv64, "sysv64", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1523, 1523, FnMut, Fastcall, "fastcall", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1524, 1524, FnOnce, Rust, "Rust", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1525, 1525, FnOnce, C, "C", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1526, 1526, FnOnce, System, "system", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1527, 1527, FnOnce, Efiapi, "efiapi", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1528, 1528, FnOnce, Sysv64, "sysv64", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1529, 1529, FnOnce, Fastcall, "fastcall", (a0: f32, a1: f32), f32, |c: u32| -(a0 * 0.7071067) + a1 + c as f32);
leaf!(s1530, 1530, Fn, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1531, 1531, Fn, C, "C", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1532, 1532, Fn, CUnwind, "C-unwind", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1533, 1533, Fn, Win64, "win64", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1534, 1534, Fn, Cdecl, "cdecl", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "arm"))] leaf!(s1535, 1535, Fn, Aapcs, "aapcs", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1536, 1536, FnMut, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1537, 1537, FnMut, C, "C", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1538, 1538, FnMut, CUnwind, "C-unwind", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1539, 1539, FnMut, Win64, "win64", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1540, 1540, FnMut, Cdecl, "cdecl", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "arm"))] leaf!(s1541, 1541, FnMut, Aapcs, "aapcs", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1542, 1542, FnOnce, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1543, 1543, FnOnce, C, "C", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1544, 1544, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1545, 1545, FnOnce, Win64, "win64", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1546, 1546, FnOnce, Cdecl, "cdecl", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
#[cfg(all(target_arch = "arm"))] leaf!(s1547, 1547, FnOnce, Aapcs, "aapcs", (a0: u64, a1: u64), u64, |c: u32| a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64);
leaf!(s1548, 1548, Fn, Rust, "Rust", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1549, 1549, Fn, C, "C", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(not(feature = "few")))] leaf!(s1550, 1550, Fn, System, "system", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1551, 1551, Fn, Efiapi, "efiapi", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1552, 1552, Fn, Sysv64, "sysv64", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86"))] leaf!(s1553, 1553, Fn, Fastcall, "fastcall", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1554, 1554, FnMut, Rust, "Rust", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1555, 1555, FnMut, C, "C", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(not(feature = "few")))] leaf!(s1556, 1556, FnMut, System, "system", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1557, 1557, FnMut, Efiapi, "efiapi", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1558, 1558, FnMut, Sysv64, "sysv64", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86"))] leaf!(s1559, 1559, FnMut, Fastcall, "fastcall", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1560, 1560, FnOnce, Rust, "Rust", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1561, 1561, FnOnce, C, "C", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(not(feature = "few")))] leaf!(s1562, 1562, FnOnce, System, "system", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1563, 1563, FnOnce, Efiapi, "efiapi", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1564, 1564, FnOnce, Sysv64, "sysv64", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
#[cfg(all(target_arch = "x86"))] leaf!(s1565, 1565, FnOnce, Fastcall, "fastcall", (a0: u32), u32, |c: u32| [0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c));
leaf!(s1566, 1566, Fn, Rust, "Rust", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1567, 1567, Fn, C, "C", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(not(feature = "few")))] leaf!(s1568, 1568, Fn, CUnwind, "C-unwind", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1569, 1569, Fn, Win64, "win64", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86"))] leaf!(s1570, 1570, Fn, Cdecl, "cdecl", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "arm"))] leaf!(s1571, 1571, Fn, Aapcs, "aapcs", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1572, 1572, FnMut, Rust, "Rust", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1573, 1573, FnMut, C, "C", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(not(feature = "few")))] leaf!(s1574, 1574, FnMut, CUnwind, "C-unwind", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1575, 1575, FnMut, Win64, "win64", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86"))] leaf!(s1576, 1576, FnMut, Cdecl, "cdecl", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "arm"))] leaf!(s1577, 1577, FnMut, Aapcs, "aapcs", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1578, 1578, FnOnce, Rust, "Rust", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1579, 1579, FnOnce, C, "C", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(not(feature = "few")))] leaf!(s1580, 1580, FnOnce, CUnwind, "C-unwind", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1581, 1581, FnOnce, Win64, "win64", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "x86"))] leaf!(s1582, 1582, FnOnce, Cdecl, "cdecl", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
#[cfg(all(target_arch = "arm"))] leaf!(s1583, 1583, FnOnce, Aapcs, "aapcs", (a0: i32, a1: i32), i32, |c: u32| if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) });
leaf!(s1584, 1584, Fn, Rust, "Rust", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1585, 1585, Fn, C, "C", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1586, 1586, Fn, System, "system", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1587, 1587, Fn, Efiapi, "efiapi", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1588, 1588, Fn, Sysv64, "sysv64", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1589, 1589, Fn, Fastcall, "fastcall", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1590, 1590, FnMut, Rust, "Rust", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1591, 1591, FnMut, C, "C", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1592, 1592, FnMut, System, "system", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1593, 1593, FnMut, Efiapi, "efiapi", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1594, 1594, FnMut, Sysv64, "sysv64", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1595, 1595, FnMut, Fastcall, "fastcall", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1596, 1596, FnOnce, Rust, "Rust", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1597, 1597, FnOnce, C, "C", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(not(feature = "few")))] leaf!(s1598, 1598, FnOnce, System, "system", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1599, 1599, FnOnce, Efiapi, "efiapi", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1600, 1600, FnOnce, Sysv64, "sysv64", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
#[cfg(all(target_arch = "x86"))] leaf!(s1601, 1601, FnOnce, Fastcall, "fastcall", (a0: u64), f64, |c: u32| (a0 >> 12) as f64 * 0.1 + c as f64);
leaf!(s1602, 1602, Fn, Rust, "Rust", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1603, 1603, Fn, C, "C", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(not(feature = "few")))] leaf!(s1604, 1604, Fn, CUnwind, "C-unwind", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1605, 1605, Fn, Win64, "win64", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86"))] leaf!(s1606, 1606, Fn, Cdecl, "cdecl", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "arm"))] leaf!(s1607, 1607, Fn, Aapcs, "aapcs", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1608, 1608, FnMut, Rust, "Rust", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1609, 1609, FnMut, C, "C", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(not(feature = "few")))] leaf!(s1610, 1610, FnMut, CUnwind, "C-unwind", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1611, 1611, FnMut, Win64, "win64", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86"))] leaf!(s1612, 1612, FnMut, Cdecl, "cdecl", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "arm"))] leaf!(s1613, 1613, FnMut, Aapcs, "aapcs", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1614, 1614, FnOnce, Rust, "Rust", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1615, 1615, FnOnce, C, "C", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(not(feature = "few")))] leaf!(s1616, 1616, FnOnce, CUnwind, "C-unwind", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1617, 1617, FnOnce, Win64, "win64", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "x86"))] leaf!(s1618, 1618, FnOnce, Cdecl, "cdecl", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
#[cfg(all(target_arch = "arm"))] leaf!(s1619, 1619, FnOnce, Aapcs, "aapcs", (a0: f64, a1: u8), f64, |c: u32| if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5));
leaf!(s1620, 1620, Fn, Rust, "Rust", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1621, 1621, Fn, C, "C", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(not(feature = "few")))] leaf!(s1622, 1622, Fn, System, "system", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1623, 1623, Fn, Efiapi, "efiapi", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1624, 1624, Fn, Sysv64, "sysv64", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86"))] leaf!(s1625, 1625, Fn, Fastcall, "fastcall", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1626, 1626, FnMut, Rust, "Rust", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1627, 1627, FnMut, C, "C", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(not(feature = "few")))] leaf!(s1628, 1628, FnMut, System, "system", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1629, 1629, FnMut, Efiapi, "efiapi", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1630, 1630, FnMut, Sysv64, "sysv64", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86"))] leaf!(s1631, 1631, FnMut, Fastcall, "fastcall", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1632, 1632, FnOnce, Rust, "Rust", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1633, 1633, FnOnce, C, "C", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(not(feature = "few")))] leaf!(s1634, 1634, FnOnce, System, "system", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1635, 1635, FnOnce, Efiapi, "efiapi", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1636, 1636, FnOnce, Sysv64, "sysv64", (a0: D16), D16, |c: u32| { let _ = c; a0 });
#[cfg(all(target_arch = "x86"))] leaf!(s1637, 1637, FnOnce, Fastcall, "fastcall", (a0: D16), D16, |c: u32| { let _ = c; a0 });
leaf!(s1638, 1638, Fn, Rust, "Rust", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1639, 1639, Fn, C, "C", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(not(feature = "few")))] leaf!(s1640, 1640, Fn, CUnwind, "C-unwind", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1641, 1641, Fn, Win64, "win64", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86"))] leaf!(s1642, 1642, Fn, Cdecl, "cdecl", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "arm"))] leaf!(s1643, 1643, Fn, Aapcs, "aapcs", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1644, 1644, FnMut, Rust, "Rust", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1645, 1645, FnMut, C, "C", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(not(feature = "few")))] leaf!(s1646, 1646, FnMut, CUnwind, "C-unwind", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1647, 1647, FnMut, Win64, "win64", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86"))] leaf!(s1648, 1648, FnMut, Cdecl, "cdecl", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "arm"))] leaf!(s1649, 1649, FnMut, Aapcs, "aapcs", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1650, 1650, FnOnce, Rust, "Rust", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1651, 1651, FnOnce, C, "C", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(not(feature = "few")))] leaf!(s1652, 1652, FnOnce, CUnwind, "C-unwind", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1653, 1653, FnOnce, Win64, "win64", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "x86"))] leaf!(s1654, 1654, FnOnce, Cdecl, "cdecl", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
#[cfg(all(target_arch = "arm"))] leaf!(s1655, 1655, FnOnce, Aapcs, "aapcs", (a0: u64), u64, |c: u32| match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 });
leaf!(s1656, 1656, Fn, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1657, 1657, Fn, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1658, 1658, Fn, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1659, 1659, Fn, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1660, 1660, Fn, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1661, 1661, Fn, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1662, 1662, FnMut, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1663, 1663, FnMut, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1664, 1664, FnMut, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1665, 1665, FnMut, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1666, 1666, FnMut, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1667, 1667, FnMut, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1668, 1668, FnOnce, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1669, 1669, FnOnce, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(not(feature = "few")))] leaf!(s1670, 1670, FnOnce, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1671, 1671, FnOnce, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1672, 1672, FnOnce, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
#[cfg(all(target_arch = "x86"))] leaf!(s1673, 1673, FnOnce, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32), f32, |c: u32| (a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32);
leaf!(s1674, 1674, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1675, 1675, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(not(feature = "few")))] leaf!(s1676, 1676, Fn, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1677, 1677, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86"))] leaf!(s1678, 1678, Fn, Cdecl, "cdecl", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "arm"))] leaf!(s1679, 1679, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1680, 1680, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1681, 1681, FnMut, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(not(feature = "few")))] leaf!(s1682, 1682, FnMut, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1683, 1683, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86"))] leaf!(s1684, 1684, FnMut, Cdecl, "cdecl", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "arm"))] leaf!(s1685, 1685, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1686, 1686, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1687, 1687, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(not(feature = "few")))] leaf!(s1688, 1688, FnOnce, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1689, 1689, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "x86"))] leaf!(s1690, 1690, FnOnce, Cdecl, "cdecl", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
#[cfg(all(target_arch = "arm"))] leaf!(s1691, 1691, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 });
leaf!(s1692, 1692, Fn, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1693, 1693, Fn, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(not(feature = "few")))] leaf!(s1694, 1694, Fn, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1695, 1695, Fn, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1696, 1696, Fn, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86"))] leaf!(s1697, 1697, Fn, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1698, 1698, FnMut, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1699, 1699, FnMut, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(not(feature = "few")))] leaf!(s1700, 1700, FnMut, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1701, 1701, FnMut, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1702, 1702, FnMut, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86"))] leaf!(s1703, 1703, FnMut, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1704, 1704, FnOnce, Rust, "Rust", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1705, 1705, FnOnce, C, "C", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(not(feature = "few")))] leaf!(s1706, 1706, FnOnce, System, "system", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1707, 1707, FnOnce, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1708, 1708, FnOnce, Sysv64, "sysv64", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
#[cfg(all(target_arch = "x86"))] leaf!(s1709, 1709, FnOnce, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f32, a3: f32, a4: f32, a5: f32, a6: f32, a7: f32, a8: f32), f32, |c: u32| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 });
leaf!(s1710, 1710, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1711, 1711, Fn, C, "C", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(not(feature = "few")))] leaf!(s1712, 1712, Fn, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1713, 1713, Fn, Win64, "win64", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1714, 1714, Fn, Cdecl, "cdecl", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1715, 1715, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1716, 1716, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1717, 1717, FnMut, C, "C", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(not(feature = "few")))] leaf!(s1718, 1718, FnMut, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1719, 1719, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1720, 1720, FnMut, Cdecl, "cdecl", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1721, 1721, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1722, 1722, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1723, 1723, FnOnce, C, "C", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(not(feature = "few")))] leaf!(s1724, 1724, FnOnce, CUnwind, "C-unwind", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1725, 1725, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1726, 1726, FnOnce, Cdecl, "cdecl", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1727, 1727, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64), f64, |c: u32| { let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 });
leaf!(s1728, 1728, Fn, Rust, "Rust", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1729, 1729, Fn, C, "C", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1730, 1730, Fn, System, "system", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1731, 1731, Fn, Efiapi, "efiapi", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1732, 1732, Fn, Sysv64, "sysv64", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1733, 1733, Fn, Fastcall, "fastcall", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1734, 1734, FnMut, Rust, "Rust", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1735, 1735, FnMut, C, "C", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1736, 1736, FnMut, System, "system", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1737, 1737, FnMut, Efiapi, "efiapi", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1738, 1738, FnMut, Sysv64, "sysv64", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1739, 1739, FnMut, Fastcall, "fastcall", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1740, 1740, FnOnce, Rust, "Rust", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1741, 1741, FnOnce, C, "C", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1742, 1742, FnOnce, System, "system", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1743, 1743, FnOnce, Efiapi, "efiapi", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1744, 1744, FnOnce, Sysv64, "sysv64", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1745, 1745, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: u32| (a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64);
leaf!(s1746, 1746, Fn, Rust, "Rust", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1747, 1747, Fn, C, "C", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1748, 1748, Fn, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1749, 1749, Fn, Win64, "win64", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1750, 1750, Fn, Cdecl, "cdecl", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1751, 1751, Fn, Aapcs, "aapcs", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1752, 1752, FnMut, Rust, "Rust", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1753, 1753, FnMut, C, "C", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1754, 1754, FnMut, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1755, 1755, FnMut, Win64, "win64", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1756, 1756, FnMut, Cdecl, "cdecl", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1757, 1757, FnMut, Aapcs, "aapcs", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1758, 1758, FnOnce, Rust, "Rust", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1759, 1759, FnOnce, C, "C", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1760, 1760, FnOnce, CUnwind, "C-unwind", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1761, 1761, FnOnce, Win64, "win64", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1762, 1762, FnOnce, Cdecl, "cdecl", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1763, 1763, FnOnce, Aapcs, "aapcs", (a0: u64, a1: f64), u64, |c: u32| { let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 });
leaf!(s1764, 1764, Fn, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1765, 1765, Fn, C, "C", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1766, 1766, Fn, System, "system", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1767, 1767, Fn, Efiapi, "efiapi", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1768, 1768, Fn, Sysv64, "sysv64", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1769, 1769, Fn, Fastcall, "fastcall", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1770, 1770, FnMut, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1771, 1771, FnMut, C, "C", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1772, 1772, FnMut, System, "system", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1773, 1773, FnMut, Efiapi, "efiapi", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1774, 1774, FnMut, Sysv64, "sysv64", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1775, 1775, FnMut, Fastcall, "fastcall", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1776, 1776, FnOnce, Rust, "Rust", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1777, 1777, FnOnce, C, "C", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1778, 1778, FnOnce, System, "system", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1779, 1779, FnOnce, Efiapi, "efiapi", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1780, 1780, FnOnce, Sysv64, "sysv64", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1781, 1781, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64), u64, |c: u32| { #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 });
leaf!(s1782, 1782, Fn, Rust, "Rust", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1783, 1783, Fn, C, "C", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1784, 1784, Fn, CUnwind, "C-unwind", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1785, 1785, Fn, Win64, "win64", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1786, 1786, Fn, Cdecl, "cdecl", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1787, 1787, Fn, Aapcs, "aapcs", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1788, 1788, FnMut, Rust, "Rust", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1789, 1789, FnMut, C, "C", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1790, 1790, FnMut, CUnwind, "C-unwind", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1791, 1791, FnMut, Win64, "win64", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1792, 1792, FnMut, Cdecl, "cdecl", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1793, 1793, FnMut, Aapcs, "aapcs", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1794, 1794, FnOnce, Rust, "Rust", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1795, 1795, FnOnce, C, "C", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(not(feature = "few")))] leaf!(s1796, 1796, FnOnce, CUnwind, "C-unwind", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1797, 1797, FnOnce, Win64, "win64", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "x86"))] leaf!(s1798, 1798, FnOnce, Cdecl, "cdecl", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
#[cfg(all(target_arch = "arm"))] leaf!(s1799, 1799, FnOnce, Aapcs, "aapcs", (a0: u8, a1: u64), u64, |c: u32| { static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 });
leaf!(s1800, 1800, Fn, Rust, "Rust", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1801, 1801, Fn, C, "C", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(not(feature = "few")))] leaf!(s1802, 1802, Fn, System, "system", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1803, 1803, Fn, Efiapi, "efiapi", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1804, 1804, Fn, Sysv64, "sysv64", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1805, 1805, FnMut, Rust, "Rust", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1806, 1806, FnMut, C, "C", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(not(feature = "few")))] leaf!(s1807, 1807, FnMut, System, "system", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(not(feature = "few")))] leaf!(s1808, 1808, FnMut, Efiapi, "efiapi", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1809, 1809, FnMut, Sysv64, "sysv64", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1810, 1810, FnOnce, Rust, "Rust", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1811, 1811, FnOnce, C, "C", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1812, 1812, FnOnce, System, "system", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(not(feature = "few")))] leaf!(s1813, 1813, FnOnce, Efiapi, "efiapi", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1814, 1814, FnOnce, Sysv64, "sysv64", (a0: u128, a1: u64), u128, |c: u32| a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128);
leaf!(s1815, 1815, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1816, 1816, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
leaf!(s1817, 1817, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "arm"))] leaf!(s1818, 1818, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
leaf!(s1819, 1819, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "x86"))] leaf!(s1820, 1820, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
leaf!(s1821, 1821, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "x86"))] leaf!(s1822, 1822, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(not(feature = "few")))] leaf!(s1823, 1823, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1824, 1824, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
leaf!(s1825, 1825, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
#[cfg(all(target_arch = "arm"))] leaf!(s1826, 1826, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f64, |c: f64| { let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7) });
leaf!(s1827, 1827, Fn, Rust, "Rust", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1828, 1828, Fn, Aapcs, "aapcs", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
leaf!(s1829, 1829, FnMut, C, "C", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1830, 1830, FnMut, Fastcall, "fastcall", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
#[cfg(all(not(feature = "few")))] leaf!(s1831, 1831, FnOnce, Efiapi, "efiapi", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1832, 1832, FnOnce, Win64, "win64", (a0: f64), f64, |c: f64| a0 * 1.5 + c);
leaf!(s1833, 1833, Fn, Efiapi, "efiapi", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1834, 1834, Fn, Win64, "win64", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
leaf!(s1835, 1835, FnMut, Rust, "Rust", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1836, 1836, FnMut, Aapcs, "aapcs", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
leaf!(s1837, 1837, FnOnce, C, "C", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1838, 1838, FnOnce, Fastcall, "fastcall", (a0: f64), f64, |c: f64| a0.abs() * 1.5 + c);
leaf!(s1839, 1839, Fn, C, "C", (a0: f64), f64, |c: f64| -a0 + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1840, 1840, Fn, Fastcall, "fastcall", (a0: f64), f64, |c: f64| -a0 + c);
#[cfg(all(not(feature = "few")))] leaf!(s1841, 1841, FnMut, Efiapi, "efiapi", (a0: f64), f64, |c: f64| -a0 + c);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1842, 1842, FnMut, Win64, "win64", (a0: f64), f64, |c: f64| -a0 + c);
leaf!(s1843, 1843, FnOnce, Rust, "Rust", (a0: f64), f64, |c: f64| -a0 + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1844, 1844, FnOnce, Aapcs, "aapcs", (a0: f64), f64, |c: f64| -a0 + c);
leaf!(s1845, 1845, Fn, Rust, "Rust", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1846, 1846, Fn, Aapcs, "aapcs", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
leaf!(s1847, 1847, FnMut, C, "C", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1848, 1848, FnMut, Fastcall, "fastcall", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s1849, 1849, FnOnce, Efiapi, "efiapi", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1850, 1850, FnOnce, Win64, "win64", (a0: f32), f32, |c: f64| a0.abs() * 1.5 + (c as f32));
leaf!(s1851, 1851, Fn, Efiapi, "efiapi", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1852, 1852, Fn, Win64, "win64", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
leaf!(s1853, 1853, FnMut, Rust, "Rust", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1854, 1854, FnMut, Aapcs, "aapcs", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
leaf!(s1855, 1855, FnOnce, C, "C", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1856, 1856, FnOnce, Fastcall, "fastcall", (a0: f64), f64, |c: f64| (a0 + 0.5) * (a0 - 1.5) * c);
leaf!(s1857, 1857, Fn, C, "C", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1858, 1858, Fn, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
#[cfg(all(not(feature = "few")))] leaf!(s1859, 1859, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1860, 1860, FnMut, Win64, "win64", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
leaf!(s1861, 1861, FnOnce, Rust, "Rust", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1862, 1862, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) + c);
leaf!(s1863, 1863, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1864, 1864, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
leaf!(s1865, 1865, FnMut, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1866, 1866, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
#[cfg(all(not(feature = "few")))] leaf!(s1867, 1867, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1868, 1868, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c);
leaf!(s1869, 1869, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1870, 1870, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
leaf!(s1871, 1871, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1872, 1872, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
leaf!(s1873, 1873, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1874, 1874, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: f64| (a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c);
leaf!(s1875, 1875, Fn, C, "C", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1876, 1876, Fn, Fastcall, "fastcall", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
#[cfg(all(not(feature = "few")))] leaf!(s1877, 1877, FnMut, Efiapi, "efiapi", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1878, 1878, FnMut, Win64, "win64", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
leaf!(s1879, 1879, FnOnce, Rust, "Rust", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1880, 1880, FnOnce, Aapcs, "aapcs", (a0: u64), f64, |c: f64| (a0 >> 12) as f64 * 0.1 * c);
leaf!(s1881, 1881, Fn, Rust, "Rust", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
#[cfg(all(target_arch = "arm"))] leaf!(s1882, 1882, Fn, Aapcs, "aapcs", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
leaf!(s1883, 1883, FnMut, C, "C", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
#[cfg(all(target_arch = "x86"))] leaf!(s1884, 1884, FnMut, Fastcall, "fastcall", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
#[cfg(all(not(feature = "few")))] leaf!(s1885, 1885, FnOnce, Efiapi, "efiapi", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1886, 1886, FnOnce, Win64, "win64", (a0: u64), f64, |c: f64| a0 as f64 * 0.1 + c);
leaf!(s1887, 1887, Fn, Efiapi, "efiapi", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1888, 1888, Fn, Win64, "win64", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
leaf!(s1889, 1889, FnMut, Rust, "Rust", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
#[cfg(all(target_arch = "arm"))] leaf!(s1890, 1890, FnMut, Aapcs, "aapcs", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
leaf!(s1891, 1891, FnOnce, C, "C", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
#[cfg(all(target_arch = "x86"))] leaf!(s1892, 1892, FnOnce, Fastcall, "fastcall", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c });
leaf!(s1893, 1893, Fn, C, "C", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
#[cfg(all(target_arch = "x86"))] leaf!(s1894, 1894, Fn, Fastcall, "fastcall", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
#[cfg(all(not(feature = "few")))] leaf!(s1895, 1895, FnMut, Efiapi, "efiapi", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
#[cfg(all(target_arch = "x86_64"))] leaf!(s1896, 1896, FnMut, Win64, "win64", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
leaf!(s1897, 1897, FnOnce, Rust, "Rust", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
#[cfg(all(target_arch = "arm"))] leaf!(s1898, 1898, FnOnce, Aapcs, "aapcs", (a0: f64), f64, |c: f64| if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c });
leaf!(s1899, 1899, Fn, Rust, "Rust", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
#[cfg(all(target_arch = "arm"))] leaf!(s1900, 1900, Fn, Aapcs, "aapcs", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
leaf!(s1901, 1901, FnMut, C, "C", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
#[cfg(all(target_arch = "x86"))] leaf!(s1902, 1902, FnMut, Fastcall, "fastcall", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
#[cfg(all(not(feature = "few")))] leaf!(s1903, 1903, FnOnce, Efiapi, "efiapi", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1904, 1904, FnOnce, Win64, "win64", (a0: f64), u64, |c: f64| (a0 * 1.5) as u64 ^ c as u64);
leaf!(s1905, 1905, Fn, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1906, 1906, Fn, Win64, "win64", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
leaf!(s1907, 1907, FnMut, Rust, "Rust", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1908, 1908, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
leaf!(s1909, 1909, FnOnce, C, "C", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1910, 1910, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: f64| a0.max(1.5) + a1.min(2.5) * c);
leaf!(s1911, 1911, Fn, C, "C", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1912, 1912, Fn, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
#[cfg(all(not(feature = "few")))] leaf!(s1913, 1913, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
#[cfg(all(target_arch = "x86_64"))] leaf!(s1914, 1914, FnMut, Win64, "win64", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
leaf!(s1915, 1915, FnOnce, Rust, "Rust", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1916, 1916, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64), f64, |c: f64| a0.copysign(1.5) + a1 * c);
leaf!(s1917, 1917, Fn, Rust, "Rust", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
#[cfg(all(target_arch = "arm"))] leaf!(s1918, 1918, Fn, Aapcs, "aapcs", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
leaf!(s1919, 1919, FnMut, C, "C", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
#[cfg(all(target_arch = "x86"))] leaf!(s1920, 1920, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
#[cfg(all(not(feature = "few")))] leaf!(s1921, 1921, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1922, 1922, FnOnce, Win64, "win64", (a0: f64, a1: f64), f64, |c: f64| (1.5 / a0) + (c / a1));
leaf!(s1923, 1923, Fn, Efiapi, "efiapi", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1924, 1924, Fn, Win64, "win64", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
leaf!(s1925, 1925, FnMut, Rust, "Rust", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
#[cfg(all(target_arch = "arm"))] leaf!(s1926, 1926, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
leaf!(s1927, 1927, FnOnce, C, "C", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
#[cfg(all(target_arch = "x86"))] leaf!(s1928, 1928, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64), f64, |c: f64| (1.5 - a0) * (2.5 - a1) * c);
leaf!(s1929, 1929, Fn, C, "C", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s1930, 1930, Fn, Fastcall, "fastcall", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s1931, 1931, FnMut, Efiapi, "efiapi", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1932, 1932, FnMut, Win64, "win64", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
leaf!(s1933, 1933, FnOnce, Rust, "Rust", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s1934, 1934, FnOnce, Aapcs, "aapcs", (a0: f32, a1: f64), f64, |c: u64| (((996188u32) as f64)) * (c as f64));
leaf!(s1935, 1935, Fn, Rust, "Rust", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1936, 1936, Fn, Aapcs, "aapcs", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
leaf!(s1937, 1937, FnMut, C, "C", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1938, 1938, FnMut, Fastcall, "fastcall", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s1939, 1939, FnOnce, Efiapi, "efiapi", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1940, 1940, FnOnce, Win64, "win64", (a0: u64, a1: f64), f32, |c: u32| (((((((if a1 > a1 { 4998i16 } else { 11309i16 })) as f32)).max((if (2.774f64 - 2.367f64) > (if a1 > a1 { a1 } else { 8.341f64 }) { (7.58f32).abs() } else { (if a0 > a0 { 3.43f32 } else { 1.49f32 }) }))) + ((-((7.64f32 + 7.16f32))) * (((c).wrapping_sub(233472149u32)) as f32)))) * (c as f32));
leaf!(s1941, 1941, Fn, Efiapi, "efiapi", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1942, 1942, Fn, Win64, "win64", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
leaf!(s1943, 1943, FnMut, Rust, "Rust", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1944, 1944, FnMut, Aapcs, "aapcs", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
leaf!(s1945, 1945, FnOnce, C, "C", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1946, 1946, FnOnce, Fastcall, "fastcall", (a0: f64), f32, |c: u64| (((369015778u32) as f32)) + (c as f32));
leaf!(s1947, 1947, Fn, C, "C", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s1948, 1948, Fn, Fastcall, "fastcall", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s1949, 1949, FnMut, Efiapi, "efiapi", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1950, 1950, FnMut, Win64, "win64", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
leaf!(s1951, 1951, FnOnce, Rust, "Rust", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s1952, 1952, FnOnce, Aapcs, "aapcs", (), u64, |c: f64| ((if 0x2297ee54e570d89au64 > 0x1bff0u64 { 0x6b4u64 } else { 0x37ecu64 })) ^ (c as u64));
leaf!(s1953, 1953, Fn, Rust, "Rust", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s1954, 1954, Fn, Aapcs, "aapcs", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
leaf!(s1955, 1955, FnMut, C, "C", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s1956, 1956, FnMut, Fastcall, "fastcall", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s1957, 1957, FnOnce, Efiapi, "efiapi", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1958, 1958, FnOnce, Win64, "win64", (a0: f32, a1: f32), u64, |c: u32| (((match (0x2u64) & 7 { 0 => 0xd05u64, 1 => 0xcf65u64, 2 => 0xeu64, 3 => 0x69ffu64, 4 => 0x13eedu64, _ => 0x49a5u64 })).wrapping_sub((0x4u64).wrapping_add(0xbc5f8c57c6u64))) ^ (c as u64));
leaf!(s1959, 1959, Fn, Efiapi, "efiapi", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1960, 1960, Fn, Win64, "win64", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
leaf!(s1961, 1961, FnMut, Rust, "Rust", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s1962, 1962, FnMut, Aapcs, "aapcs", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
leaf!(s1963, 1963, FnOnce, C, "C", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s1964, 1964, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64, a2: f64, a3: u64, a4: u64), u64, |c: u32| ({ let mut m = far_u((((a2) as u64)).wrapping_sub((a0).wrapping_sub(0xe2b4u64)), (((3.7f32 / 3.85f32)) as u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m & (((match (a4) & 7 { 0 => a1, 1 => 0xe6b2u64, 2 => 0xc2a6u64, 3 => a0, 4 => 0x4510u64, _ => 0xa55u64 })).wrapping_add((match (a3) & 7 { 0 => 0x2u64, 1 => 0xb327u64, 2 => 0x4d7d3fc258b4438u64, 3 => a4, 4 => 0xec7u64, _ => a4 }))); k += 1; } m }) & (c as u64));
leaf!(s1965, 1965, Fn, C, "C", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1966, 1966, Fn, Fastcall, "fastcall", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s1967, 1967, FnMut, Efiapi, "efiapi", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1968, 1968, FnMut, Win64, "win64", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
leaf!(s1969, 1969, FnOnce, Rust, "Rust", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1970, 1970, FnOnce, Aapcs, "aapcs", (a0: u8, a1: u8), f32, |c: u64| (((((2.5f32 - 3.5f32)).max((8.92f32 - 5.93f32))) + ((5.0f32 * 3.82f32) * (5.86f32 - 1.6f32)))) - (c as f32));
leaf!(s1971, 1971, Fn, Rust, "Rust", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1972, 1972, Fn, Aapcs, "aapcs", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
leaf!(s1973, 1973, FnMut, C, "C", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1974, 1974, FnMut, Fastcall, "fastcall", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s1975, 1975, FnOnce, Efiapi, "efiapi", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1976, 1976, FnOnce, Win64, "win64", (a0: f64), f32, |c: u32| ({ let mut m = (((if (if 0x7u64 > 0x8u64 { a0 } else { a0 }) > (a0 / 1.954f64) { (match (2077272809u32) & 7 { 0 => 2u32, 1 => 3u32, 2 => 123417u32, 3 => 7u32, 4 => 490519u32, _ => 13u32 }) } else { (667312u32).wrapping_sub(12u32) })) as f32); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((6.68f32 - 4.81f32) / (1.31f32 - 6.86f32))); k += 1; } m }) + (c as f32));
leaf!(s1977, 1977, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1978, 1978, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
leaf!(s1979, 1979, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s1980, 1980, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
leaf!(s1981, 1981, FnOnce, C, "C", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s1982, 1982, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f64, a5: f64, a6: f32, a7: f64), f64, |c: u64| (far_f(((((((a5) as u32)).wrapping_mul((186517161u32).rotate_left(5))).wrapping_sub(((7u32).wrapping_sub(2421732889u32)).wrapping_sub((3u32).wrapping_mul(1u32)))) as f64), ((((match ((8879i16).wrapping_sub(2742i16)) & 7 { 0 => (7394i16).wrapping_add(8308i16), 1 => 404i16, 2 => 4682i16, 3 => ((2.73f32) as i16), 4 => 5034i16, _ => (6590i16).wrapping_sub(14967i16) })).wrapping_sub(((((12131i16) as f32)) as i16))) as f64))) + (c as f64));
leaf!(s1983, 1983, Fn, C, "C", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s1984, 1984, Fn, Fastcall, "fastcall", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s1985, 1985, FnMut, Efiapi, "efiapi", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s1986, 1986, FnMut, Win64, "win64", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
leaf!(s1987, 1987, FnOnce, Rust, "Rust", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s1988, 1988, FnOnce, Aapcs, "aapcs", (a0: f32), u64, |c: f32| ({ let mut m = (0x63au64).wrapping_sub(0x765297a9cdd81eb9u64); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((0x541943b34bc78156u64).wrapping_add(0x26305f07bfu64)).wrapping_sub((0xdu64).wrapping_mul(0xa9bu64))); k += 1; } m }) | (c as u64));
leaf!(s1989, 1989, Fn, Rust, "Rust", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s1990, 1990, Fn, Aapcs, "aapcs", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
leaf!(s1991, 1991, FnMut, C, "C", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s1992, 1992, FnMut, Fastcall, "fastcall", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s1993, 1993, FnOnce, Efiapi, "efiapi", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1994, 1994, FnOnce, Win64, "win64", (a0: f32), f32, |c: u64| ({ let mut m = ((a0 * a0) * (0.59f32 + a0)); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((if (0x40bfu64).wrapping_add(0x19600u64) > ((15800i16) as u64) { (2.23f32 + a0) } else { (a0 * a0) })); k += 1; } m }) + (c as f32));
leaf!(s1995, 1995, Fn, Efiapi, "efiapi", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s1996, 1996, Fn, Win64, "win64", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
leaf!(s1997, 1997, FnMut, Rust, "Rust", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s1998, 1998, FnMut, Aapcs, "aapcs", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
leaf!(s1999, 1999, FnOnce, C, "C", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2000, 2000, FnOnce, Fastcall, "fastcall", (), u32, |c: u64| ({ let mut m = ((((((13902i16) as u64)) as u32)).wrapping_mul(((match (89021u32) & 7 { 0 => 3821701243u32, 1 => 907435u32, 2 => 303906950u32, 3 => 14u32, 4 => 798359u32, _ => 4u32 })).rotate_left(5))).wrapping_sub((((((0x17030u64) as i16)).wrapping_add((1709i16).wrapping_mul(8455i16))) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((0xeu64).wrapping_sub(0x73au64)) as u32)); k += 1; } m }) | (c as u32));
leaf!(s2001, 2001, Fn, C, "C", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2002, 2002, Fn, Fastcall, "fastcall", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2003, 2003, FnMut, Efiapi, "efiapi", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2004, 2004, FnMut, Win64, "win64", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
leaf!(s2005, 2005, FnOnce, Rust, "Rust", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2006, 2006, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f32, a2: f32), u64, |c: f64| (((((0x2e15255be8u64).wrapping_add(0x9f8e747a85ba5dbfu64)).wrapping_add((0x9100d44df103c4d9u64).wrapping_add(0x3d0u64))).wrapping_mul((((3120008124u32).wrapping_sub(963831u32)) as u64))).wrapping_sub(far_u(((0x5c21f0ef1e120895u64).wrapping_sub(0xda9u64)).wrapping_mul((0x98cu64).wrapping_sub(0xfbe8d9b5bb4ac430u64)), (((a1) as u64)).wrapping_sub(((a0) as u64))))) | (c as u64));
leaf!(s2007, 2007, Fn, Rust, "Rust", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2008, 2008, Fn, Aapcs, "aapcs", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
leaf!(s2009, 2009, FnMut, C, "C", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2010, 2010, FnMut, Fastcall, "fastcall", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
#[cfg(all(not(feature = "few")))] leaf!(s2011, 2011, FnOnce, Efiapi, "efiapi", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2012, 2012, FnOnce, Win64, "win64", (a0: f64, a1: u64), u32, |c: f64| ({ let mut m = [447809u32, 279119364u32, 3u32, 15u32, 2138716301u32, 872523u32, 1398276336u32, 7u32][((((0u32).wrapping_add(228477u32)).wrapping_sub((204579871u32).wrapping_mul(1103631629u32))) as usize) & 7]; let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((a1) as u32)).wrapping_add((14u32).wrapping_add(549092u32))); k += 1; } m }) | (c as u32));
leaf!(s2013, 2013, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2014, 2014, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
leaf!(s2015, 2015, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2016, 2016, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
leaf!(s2017, 2017, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2018, 2018, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), u64, |c: u32| ((0x6b56d49329u64).wrapping_mul(0x2941u64)) & (c as u64));
leaf!(s2019, 2019, Fn, C, "C", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2020, 2020, Fn, Fastcall, "fastcall", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2021, 2021, FnMut, Efiapi, "efiapi", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2022, 2022, FnMut, Win64, "win64", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
leaf!(s2023, 2023, FnOnce, Rust, "Rust", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2024, 2024, FnOnce, Aapcs, "aapcs", (a0: u32, a1: f64, a2: f32, a3: f64), u64, |c: f64| ((((if a1 > a1 { 7.671f64 } else { a3 })) as u64)) ^ (c as u64));
leaf!(s2025, 2025, Fn, Rust, "Rust", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2026, 2026, Fn, Aapcs, "aapcs", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
leaf!(s2027, 2027, FnMut, C, "C", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2028, 2028, FnMut, Fastcall, "fastcall", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(not(feature = "few")))] leaf!(s2029, 2029, FnOnce, Efiapi, "efiapi", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2030, 2030, FnOnce, Win64, "win64", (a0: u64, a1: f32), u32, |c: u64| ({ let mut m = ((((if 7.573f64 > 5.901f64 { 3738762203u32 } else { 3035519374u32 })).wrapping_add([14u32, 0u32, 3620253093u32, 5u32, 13u32, 1800340609u32, 52680u32, 2u32, 316054u32, 693495u32, 3365761517u32, 107293u32, 77809u32, 10u32, 1947284568u32, 2181324258u32][((14u32) as usize) & 15])).wrapping_mul((((5.221f64).abs()) as u32))).wrapping_add(((((159u8).wrapping_sub(106u8)).rotate_left(5)) as u32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((8.841f64).abs()) as u32)); k += 1; } m }) | (c as u32));
leaf!(s2031, 2031, Fn, Efiapi, "efiapi", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2032, 2032, Fn, Win64, "win64", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
leaf!(s2033, 2033, FnMut, Rust, "Rust", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2034, 2034, FnMut, Aapcs, "aapcs", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
leaf!(s2035, 2035, FnOnce, C, "C", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2036, 2036, FnOnce, Fastcall, "fastcall", (a0: u8, a1: u8, a2: i16, a3: u8, a4: u64, a5: u8, a6: u32, a7: f64), u64, |c: f32| ({ let mut m = ([0x0u64, 0x217u64, 0x1u64, 0x423u64][((a4) as usize) & 3]).wrapping_add((0x2fc6c9423bu64).wrapping_add(0x3u64)); let mut k = 0u64; while k < (c as u64 & 3) { m = m | (((match (a4) & 7 { 0 => a4, 1 => 0xeu64, 2 => 0xfu64, 3 => 0x2ef424c716u64, 4 => 0xau64, _ => a4 })).wrapping_sub((if a4 > a4 { a4 } else { 0x16d8eu64 }))); k += 1; } m }) | (c as u64));
leaf!(s2037, 2037, Fn, C, "C", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2038, 2038, Fn, Fastcall, "fastcall", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2039, 2039, FnMut, Efiapi, "efiapi", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2040, 2040, FnMut, Win64, "win64", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
leaf!(s2041, 2041, FnOnce, Rust, "Rust", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2042, 2042, FnOnce, Aapcs, "aapcs", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64), u64, |c: f32| (((a1).wrapping_mul(a9)).wrapping_sub(((9081i16) as u64))) | (c as u64));
leaf!(s2043, 2043, Fn, Rust, "Rust", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2044, 2044, Fn, Aapcs, "aapcs", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
leaf!(s2045, 2045, FnMut, C, "C", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2046, 2046, FnMut, Fastcall, "fastcall", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2047, 2047, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2048, 2048, FnOnce, Win64, "win64", (a0: f64, a1: f32, a2: f64, a3: f32), f32, |c: u32| ({ let mut m = (-((a1).abs())); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((((494408u32).wrapping_add(3568489470u32)) as f32)); k += 1; } m }) * (c as f32));
leaf!(s2049, 2049, Fn, Efiapi, "efiapi", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2050, 2050, Fn, Win64, "win64", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
leaf!(s2051, 2051, FnMut, Rust, "Rust", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2052, 2052, FnMut, Aapcs, "aapcs", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
leaf!(s2053, 2053, FnOnce, C, "C", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2054, 2054, FnOnce, Fastcall, "fastcall", (a0: i16, a1: u8, a2: f32), f64, |c: u32| ((((((220614u32).wrapping_mul(11u32)) as f64) * (((8.34f64).abs()).max(((a0) as f64)))) + far_f(((0.792f64 * 6.311f64)).abs(), ((if 6.249f64 > 0.874f64 { 6.714f64 } else { 1.643f64 }) + (8.67f64 - 6.616f64))))) * (c as f64));
leaf!(s2055, 2055, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2056, 2056, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2057, 2057, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2058, 2058, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
leaf!(s2059, 2059, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2060, 2060, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ({ let mut m = (if (((6698i16).wrapping_add(3662i16)) as u64) > (((0.8f32 / 0.73f32)) as u64) { (((9u32).rotate_left(5)) as f64) } else { (if (0x1e5e0u64).wrapping_mul(0x4u64) > (0xd5c6a279f5u64).wrapping_mul(0xc09b0afc9eedfe88u64) { (a0).abs() } else { (if 0xeu64 > 0xec6u64 { a3 } else { a2 }) }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + (((a1).abs()).abs()); k += 1; } m }) + (c as f64));
leaf!(s2061, 2061, Fn, Rust, "Rust", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2062, 2062, Fn, Aapcs, "aapcs", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
leaf!(s2063, 2063, FnMut, C, "C", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2064, 2064, FnMut, Fastcall, "fastcall", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2065, 2065, FnOnce, Efiapi, "efiapi", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2066, 2066, FnOnce, Win64, "win64", (a0: f32, a1: u32, a2: u64, a3: u64, a4: i16), f32, |c: f32| ((((c / 4.33f32)).abs() * ((c).abs() - (a0 / c)))) + (c as f32));
leaf!(s2067, 2067, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2068, 2068, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
leaf!(s2069, 2069, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2070, 2070, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
leaf!(s2071, 2071, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2072, 2072, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: u64), u64, |c: u32| ({ let mut m = (([0x2dcf14f3712790efu64, 0xfadu64, 0x952u64, 0x0u64][(((a4).wrapping_mul(a4)) as usize) & 3]).wrapping_add((if ((a1).max(a3)) > (-(a1)) { (a4).rotate_left(5) } else { far_u(a4, a4) }))).wrapping_mul((if (match (far_u(a4, a4)) & 7 { 0 => (if 3.381f64 > a2 { a4 } else { 0xa0eu64 }), 1 => 0x78db7c098eu64, 2 => 0x1507d2507fu64, 3 => (a4).wrapping_sub(0x6f1bu64), 4 => 0x77a8u64, _ => (a4).wrapping_sub(a4) }) > ((a4).wrapping_add(0x221cu64)).rotate_left(5) { (((152u8).wrapping_mul(45u8)) as u64) } else { ((a4).wrapping_mul(a4)).wrapping_mul((0x6u64).wrapping_add(0x10c39u64)) })); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ (((a4).wrapping_sub(0x40u64)).wrapping_mul(((3.45f32) as u64))); k += 1; } m }) ^ (c as u64));
leaf!(s2073, 2073, Fn, C, "C", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2074, 2074, Fn, Fastcall, "fastcall", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2075, 2075, FnMut, Efiapi, "efiapi", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2076, 2076, FnMut, Win64, "win64", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
leaf!(s2077, 2077, FnOnce, Rust, "Rust", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2078, 2078, FnOnce, Aapcs, "aapcs", (a0: u8), f64, |c: u64| ((((-(4.454f64)) - (-(3.68f64)))).abs()) - (c as f64));
leaf!(s2079, 2079, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2080, 2080, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
leaf!(s2081, 2081, FnMut, C, "C", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2082, 2082, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(not(feature = "few")))] leaf!(s2083, 2083, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2084, 2084, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f64), u32, |c: u32| ({ let mut m = ((96502u32).wrapping_add(15u32)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m | ((((164u8).wrapping_sub(162u8)) as u32)); k += 1; } m }) | (c as u32));
leaf!(s2085, 2085, Fn, Efiapi, "efiapi", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2086, 2086, Fn, Win64, "win64", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
leaf!(s2087, 2087, FnMut, Rust, "Rust", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2088, 2088, FnMut, Aapcs, "aapcs", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
leaf!(s2089, 2089, FnOnce, C, "C", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2090, 2090, FnOnce, Fastcall, "fastcall", (), u64, |c: f64| ({ let mut m = (((2.76f32) as u64)).rotate_left(5); let mut k = 0u64; while k < (c as u64 & 3) { m = m & ((if (5.684f64).abs() > (2.305f64 - 4.873f64) { (0x9db2811032u64).wrapping_sub(0x6bd608c78fu64) } else { (0x2u64).wrapping_mul(0x0u64) })); k += 1; } m }) & (c as u64));
leaf!(s2091, 2091, Fn, C, "C", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2092, 2092, Fn, Fastcall, "fastcall", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2093, 2093, FnMut, Efiapi, "efiapi", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2094, 2094, FnMut, Win64, "win64", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
leaf!(s2095, 2095, FnOnce, Rust, "Rust", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2096, 2096, FnOnce, Aapcs, "aapcs", (a0: f32, a1: f64), f64, |c: f64| ((if ((((0x14du64).wrapping_sub(0x1c8u64)).wrapping_mul((0x56du64).wrapping_sub(0xd28u64))).wrapping_mul((if (0x5u64).wrapping_sub(0x7d51dbcaa0fcfda8u64) > [0x13a9139f92u64, 0xa9b526dfb4u64, 0xebu64, 0xcu64][((0x4207544f1113bc49u64) as usize) & 3] { (0x498c5fdb1ba3862au64).wrapping_add(0x4a6u64) } else { ((a0) as u64) }))).rotate_left(5) > (far_u(((0x543186e96d13f401u64).wrapping_mul(0x2e4u64)).wrapping_mul(((5.179f64) as u64)), ([0x6u64, 0x134feca035u64, 0x8u64, 0xf727475a791ba6c7u64][((0x60608a1940f3f373u64) as usize) & 3]).wrapping_sub((if 0x25bu64 > 0xd0du64 { 0xac777231a3u64 } else { 0x17d1fu64 })))).wrapping_sub(((((a1) as u64)).wrapping_add((if 0xb4b5e2efb50d3c73u64 > 0xbu64 { 0xd2cu64 } else { 0xeb4u64 }))).rotate_left(5)) { (if (((if a1 > 7.774f64 { 0.579f64 } else { a1 })).abs()).abs() > (if (((543995u32).wrapping_mul(14u32)) as f64) > ((a1).abs() + (6.772f64 - a1)) { (-(((9363i16) as f64))) } else { ((a1 - a1) * (a1).abs()) }) { ((-((if 0x25359fbdd9bf9c10u64 > 0xdc0bu64 { 5.183f64 } else { a1 }))) + (((643912u32) as f64) * (if 5.859f64 > a1 { a1 } else { a1 }))) } else { ((((0xaaf11e334bu64).rotate_left(5)) as f64) * ((1.47f64).abs() - (a1 - a1))) }) } else { ((((2.839f64 / a1) * (8.537f64 - 3.609f64)) + (((a1).max(a1)) - (a1).abs()))).abs() })) - (c as f64));
leaf!(s2097, 2097, Fn, Rust, "Rust", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2098, 2098, Fn, Aapcs, "aapcs", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
leaf!(s2099, 2099, FnMut, C, "C", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2100, 2100, FnMut, Fastcall, "fastcall", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2101, 2101, FnOnce, Efiapi, "efiapi", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2102, 2102, FnOnce, Win64, "win64", (), f32, |c: u64| (((if c > c { 4.51f32 } else { 5.87f32 }) + (if 2.351f64 > 6.523f64 { 7.98f32 } else { 7.53f32 }))) * (c as f32));
leaf!(s2103, 2103, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2104, 2104, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
leaf!(s2105, 2105, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2106, 2106, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
leaf!(s2107, 2107, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2108, 2108, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: f32| ((((0xb33a61b414u64).wrapping_sub(0xbu64)).wrapping_sub((0x5700u64).wrapping_add(0x3107u64))).wrapping_sub(((0x12ea5u64).wrapping_add(0x52d16d9748d4502u64)).wrapping_sub(far_u(0x44dddf209eu64, 0x925ce6df31u64)))) | (c as u64));
leaf!(s2109, 2109, Fn, C, "C", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2110, 2110, Fn, Fastcall, "fastcall", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2111, 2111, FnMut, Efiapi, "efiapi", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2112, 2112, FnMut, Win64, "win64", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
leaf!(s2113, 2113, FnOnce, Rust, "Rust", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2114, 2114, FnOnce, Aapcs, "aapcs", (a0: u32, a1: f32, a2: u8), f32, |c: f32| ({ let mut m = ((((((4.798f64).max(4.472f64)) - (4.95f64 + 5.986f64))) as f32) + (([820931u32, 1u32, 605077u32, 3u32, 776375029u32, 3085229627u32, 965018u32, 433626u32][(((a0).wrapping_sub(a0)) as usize) & 7]) as f32)); let mut k = 0u64; while k < (c as u64 & 3) { m = m - ((if (0x8614878d02u64).wrapping_mul(0x151560020eu64) > far_u(0xcu64, 0x266d618d176f845au64) { (if 0x92cu64 > 0x62b4537e4du64 { a1 } else { a1 }) } else { (a1 / 4.95f32) })); k += 1; } m }) - (c as f32));
leaf!(s2115, 2115, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2116, 2116, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
leaf!(s2117, 2117, FnMut, C, "C", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2118, 2118, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2119, 2119, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2120, 2120, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32), f64, |c: f32| ((((if (a0 / a0) > (6.898f64 / a0) { (a1 + a0) } else { ((4u32) as f64) })).abs() + (((((if 0x4b4e84f45u64 > 0x3a7172bd38u64 { a0 } else { a1 })) as i16)) as f64))) + (c as f64));
leaf!(s2121, 2121, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2122, 2122, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
leaf!(s2123, 2123, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2124, 2124, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
leaf!(s2125, 2125, FnOnce, C, "C", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2126, 2126, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f32, a3: f32, a4: f32, a5: f64, a6: f32, a7: f64), f32, |c: u32| ({ let mut m = (if (if 0xf58d362a7c47dd95u64 > 0xf1bu64 { a5 } else { a0 }) > far_f(a5, 5.875f64) { (7.83f32 - a2) } else { (if 0x1dbe1u64 > 0x2e4u64 { a4 } else { a3 }) }); let mut k = 0u64; while k < (c as u64 & 3) { m = m + ((((0x24du64) as f32) * (a3 / a2))); k += 1; } m }) + (c as f32));
leaf!(s2127, 2127, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2128, 2128, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2129, 2129, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2130, 2130, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
leaf!(s2131, 2131, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2132, 2132, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), u64, |c: f32| ({ let mut m = ((if (0xba5u64).rotate_left(5) > (match (0x9b95744316u64) & 7 { 0 => 0x10894u64, 1 => 0x4a0bd79e9eu64, 2 => 0x1c77du64, 3 => 0x5u64, 4 => 0xa1cf19285eu64, _ => 0x3de6u64 }) { (0x4962aded681f0a03u64).wrapping_add(0xa789ee7d9u64) } else { (if 0x37c470a44u64 > 0x428cb8412ed4d0du64 { 0x8u64 } else { 0xcf17de75a3u64 }) })).wrapping_mul(((if 0xdb028165dau64 > 0x376du64 { 0x77988c4892a8aa0eu64 } else { 0x7d6dcadb51u64 })).wrapping_mul((0xa37u64).wrapping_mul(0x453f3b95f2u64))); let mut k = 0u64; while k < (c as u64 & 3) { m = m ^ ([0xb0a3470ce6u64, 0xb6e0daeb2cab5b26u64, 0x76a54f26d7deb19cu64, 0xbu64, 0xf003c0d80eu64, 0x1dau64, 0x149u64, 0x4e0269f1e6881074u64][(((0xbu64).wrapping_add(0x28c6248482cc8e8du64)) as usize) & 7]); k += 1; } m }) ^ (c as u64));
leaf!(s2133, 2133, Fn, Rust, "Rust", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2134, 2134, Fn, Aapcs, "aapcs", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
leaf!(s2135, 2135, FnMut, C, "C", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2136, 2136, FnMut, Fastcall, "fastcall", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2137, 2137, FnOnce, Efiapi, "efiapi", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2138, 2138, FnOnce, Win64, "win64", (a0: u64), u64, |c: f64| ((if (if (match ((0xad259af401u64).wrapping_mul(0x6802189043u64)) & 7 { 0 => (if c > c { 0x1u64 } else { a0 }), 1 => 0xd692u64, 2 => 0x54df78f8ddu64, 3 => ((71u8) as u64), 4 => 0x9c71daa4a9f47c5au64, _ => (a0).wrapping_add(a0) }) > (far_u(a0, a0)).wrapping_mul((if c > c { a0 } else { a0 })) { ((0x5u64).wrapping_add(0x4u64)).wrapping_add((a0).wrapping_add(a0)) } else { (((match (13u32) & 7 { 0 => 3352472510u32, 1 => 10u32, 2 => 102146943u32, 3 => 4184303008u32, 4 => 1370288110u32, _ => 13u32 })) as u64) }) > (((if c > c { 0x8fea2bee9527e77cu64 } else { 0xbcddd0e9496cbf93u64 })).wrapping_add(far_u(a0, a0))).wrapping_mul(((a0).wrapping_mul(a0)).wrapping_sub((a0).wrapping_sub(a0))) { ((([1155942761u32, 14u32, 818779765u32, 1136874028u32][((14u32) as usize) & 3]).wrapping_sub((13u32).wrapping_sub(10u32))) as u64) } else { (far_u(far_u(a0, a0), far_u(0xcu64, a0))).wrapping_mul((if far_f(c, c) > (7.662f64 - 8.547f64) { (a0).rotate_left(5) } else { (a0).rotate_left(5) })) })) ^ (c as u64));
leaf!(s2139, 2139, Fn, Efiapi, "efiapi", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2140, 2140, Fn, Win64, "win64", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
leaf!(s2141, 2141, FnMut, Rust, "Rust", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2142, 2142, FnMut, Aapcs, "aapcs", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
leaf!(s2143, 2143, FnOnce, C, "C", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2144, 2144, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64), u32, |c: f64| ((if ((((-(c))) as u64)).wrapping_add((((c / 7.569f64)) as u64)) > (if (((c - 6.49f64)) as u64) > ((a1).rotate_left(5)).wrapping_sub((0x792u64).rotate_left(5)) { ((a1).rotate_left(5)).wrapping_mul((match (a0) & 7 { 0 => 0xau64, 1 => 0x4bf2u64, 2 => 0x158fcu64, 3 => a0, 4 => 0xcf352088f6b4a6bu64, _ => a1 })) } else { far_u(far_u(0x1b451u64, 0xf4ce8fe27du64), (0x102dfu64).wrapping_mul(a1)) }) { [11232u32, 4u32, 6u32, 0u32][((((932252u32).wrapping_sub(491384213u32)).wrapping_sub([10u32, 106206095u32, 9u32, 191664u32][((2263625365u32) as usize) & 3])) as usize) & 3] } else { ((if (match (a1) & 7 { 0 => a0, 1 => 0x1f08eu64, 2 => 0x7efd6ac155321426u64, 3 => 0x4f62d17ff2739b8eu64, 4 => 0xdu64, _ => a1 }) > ((1.802f64) as u64) { (521011u32).wrapping_add(7u32) } else { (37165u32).wrapping_sub(5u32) })).wrapping_mul((((if 6.159f64 > c { 223u8 } else { 253u8 })) as u32)) })) | (c as u32));
leaf!(s2145, 2145, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2146, 2146, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2147, 2147, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2148, 2148, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
leaf!(s2149, 2149, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2150, 2150, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((([8979i16, 2900i16, 13111i16, 11522i16, 12449i16, 10678i16, 7801i16, 14460i16][((13448i16) as usize) & 7]) as f32)) - (c as f32));
leaf!(s2151, 2151, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2152, 2152, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
leaf!(s2153, 2153, FnMut, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2154, 2154, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2155, 2155, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2156, 2156, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), f32, |c: u32| ((((6.788f64) as f32) * (-(0.6f32)))) * (c as f32));
leaf!(s2157, 2157, Fn, Efiapi, "efiapi", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2158, 2158, Fn, Win64, "win64", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
leaf!(s2159, 2159, FnMut, Rust, "Rust", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2160, 2160, FnMut, Aapcs, "aapcs", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
leaf!(s2161, 2161, FnOnce, C, "C", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2162, 2162, FnOnce, Fastcall, "fastcall", (a0: f32, a1: f32, a2: f64, a3: f32, a4: f32, a5: f64, a6: f32, a7: f32), f64, |c: f32| ({ let mut m = (-((a2 * a2))); let mut k = 0u64; while k < (c as u64 & 3) { m = m * ((-((a2 - a2)))); k += 1; } m }) * (c as f64));
leaf!(s2163, 2163, Fn, C, "C", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2164, 2164, Fn, Fastcall, "fastcall", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2165, 2165, FnMut, Efiapi, "efiapi", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2166, 2166, FnMut, Win64, "win64", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
leaf!(s2167, 2167, FnOnce, Rust, "Rust", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2168, 2168, FnOnce, Aapcs, "aapcs", (a0: f64, a1: u64, a2: u8, a3: u32, a4: f64, a5: f32, a6: i16, a7: u64, a8: u64, a9: u8, a10: u64, a11: f32), f32, |c: u32| ((((((a5 / a5) - (-(1.22f32))) * (if (a8).wrapping_sub(0x1u64) > far_u(0xfu64, a7) { (a5 / 3.22f32) } else { (8.72f32 * 2.77f32) })) * (if ((0xeu64).wrapping_sub(0x7u64)).wrapping_sub((a8).wrapping_add(a10)) > [0xefeb25d24ee8df25u64, 0x0u64, 0x653bu64, 0x7d5e7a9b493280dfu64, 0x793u64, 0x1711cu64, 0xebf54fb6cu64, 0x4f55e1aceafdce34u64, 0x42cc109a6466db67u64, 0x2u64, 0x6e67ca29e2u64, 0xe8dbdeb9682f6eb8u64, 0x195dbu64, 0x10be9d9372u64, 0x7af72ac149d97fa3u64, 0x609d8e36f8u64][(((if a4 > a4 { a1 } else { 0xae8751029eu64 })) as usize) & 15] { ((-(a11)) / (a5 * 3.45f32)) } else { (((2541618896u32) as f32)).abs() }))).abs()) * (c as f32));
leaf!(s2169, 2169, Fn, Rust, "Rust", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2170, 2170, Fn, Aapcs, "aapcs", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
leaf!(s2171, 2171, FnMut, C, "C", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2172, 2172, FnMut, Fastcall, "fastcall", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2173, 2173, FnOnce, Efiapi, "efiapi", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2174, 2174, FnOnce, Win64, "win64", (a0: u64, a1: u64, a2: i16), f64, |c: f64| (((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64));
leaf!(s2175, 2175, Fn, Efiapi, "efiapi", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2176, 2176, Fn, Win64, "win64", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
leaf!(s2177, 2177, FnMut, Rust, "Rust", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2178, 2178, FnMut, Aapcs, "aapcs", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
leaf!(s2179, 2179, FnOnce, C, "C", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2180, 2180, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64, a2: f64, a3: u64, a4: f64), f32, |c: f64| ((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32));
leaf!(s2181, 2181, Fn, C, "C", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2182, 2182, Fn, Fastcall, "fastcall", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2183, 2183, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2184, 2184, FnMut, Win64, "win64", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
leaf!(s2185, 2185, FnOnce, Rust, "Rust", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2186, 2186, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64), f32, |c: u32| (((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32));
leaf!(s2187, 2187, Fn, Rust, "Rust", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2188, 2188, Fn, Aapcs, "aapcs", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
leaf!(s2189, 2189, FnMut, C, "C", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2190, 2190, FnMut, Fastcall, "fastcall", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2191, 2191, FnOnce, Efiapi, "efiapi", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2192, 2192, FnOnce, Win64, "win64", (a0: u64, a1: f64, a2: f64, a3: f64, a4: f64, a5: u64, a6: f64, a7: u64, a8: u64, a9: f64, a10: u64, a11: u64), f64, |c: u64| ((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64));
leaf!(s2193, 2193, Fn, Efiapi, "efiapi", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2194, 2194, Fn, Win64, "win64", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
leaf!(s2195, 2195, FnMut, Rust, "Rust", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2196, 2196, FnMut, Aapcs, "aapcs", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
leaf!(s2197, 2197, FnOnce, C, "C", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2198, 2198, FnOnce, Fastcall, "fastcall", (a0: f64), u32, |c: u32| (((a0) as u32)) ^ (c as u32));
leaf!(s2199, 2199, Fn, C, "C", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2200, 2200, Fn, Fastcall, "fastcall", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
#[cfg(all(not(feature = "few")))] leaf!(s2201, 2201, FnMut, Efiapi, "efiapi", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2202, 2202, FnMut, Win64, "win64", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
leaf!(s2203, 2203, FnOnce, Rust, "Rust", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2204, 2204, FnOnce, Aapcs, "aapcs", (a0: f64, a1: u64), u64, |c: u32| (((((4.117f64 * a0)).abs()) as u64)) | (c as u64));
leaf!(s2205, 2205, Fn, Rust, "Rust", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2206, 2206, Fn, Aapcs, "aapcs", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
leaf!(s2207, 2207, FnMut, C, "C", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2208, 2208, FnMut, Fastcall, "fastcall", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2209, 2209, FnOnce, Efiapi, "efiapi", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2210, 2210, FnOnce, Win64, "win64", (a0: f64), f64, |c: u64| ((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64));
leaf!(s2211, 2211, Fn, Efiapi, "efiapi", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2212, 2212, Fn, Win64, "win64", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
leaf!(s2213, 2213, FnMut, Rust, "Rust", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2214, 2214, FnMut, Aapcs, "aapcs", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
leaf!(s2215, 2215, FnOnce, C, "C", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2216, 2216, FnOnce, Fastcall, "fastcall", (a0: f64, a1: u64, a2: f64), u32, |c: u32| (((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32));
leaf!(s2217, 2217, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2218, 2218, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2219, 2219, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2220, 2220, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
leaf!(s2221, 2221, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2222, 2222, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64), f32, |c: f32| ((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32));
leaf!(s2223, 2223, Fn, Rust, "Rust", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2224, 2224, Fn, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
leaf!(s2225, 2225, FnMut, C, "C", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2226, 2226, FnMut, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2227, 2227, FnOnce, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2228, 2228, FnOnce, Win64, "win64", (a0: f64, a1: f64, a2: f64), f32, |c: f32| (((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32));
leaf!(s2229, 2229, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2230, 2230, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
leaf!(s2231, 2231, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2232, 2232, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
leaf!(s2233, 2233, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2234, 2234, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), f32, |c: u32| ((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32));
leaf!(s2235, 2235, Fn, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2236, 2236, Fn, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2237, 2237, FnMut, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2238, 2238, FnMut, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
leaf!(s2239, 2239, FnOnce, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2240, 2240, FnOnce, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64), f64, |c: u64| ((a1).abs()) * (c as f64));
leaf!(s2241, 2241, Fn, Rust, "Rust", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
#[cfg(all(target_arch = "arm"))] leaf!(s2242, 2242, Fn, Aapcs, "aapcs", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
leaf!(s2243, 2243, FnMut, C, "C", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
#[cfg(all(target_arch = "x86"))] leaf!(s2244, 2244, FnMut, Fastcall, "fastcall", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
#[cfg(all(not(feature = "few")))] leaf!(s2245, 2245, FnOnce, Efiapi, "efiapi", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2246, 2246, FnOnce, Win64, "win64", (a0: u32, a1: u8, a2: f32, a3: u8, a4: f32, a5: f64, a6: f64, a7: u64, a8: u8, a9: u8, a10: f32, a11: f64), f32, |c: f32| ((a4).abs()) * (c as f32));
leaf!(s2247, 2247, Fn, Efiapi, "efiapi", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2248, 2248, Fn, Win64, "win64", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
leaf!(s2249, 2249, FnMut, Rust, "Rust", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2250, 2250, FnMut, Aapcs, "aapcs", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
leaf!(s2251, 2251, FnOnce, C, "C", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2252, 2252, FnOnce, Fastcall, "fastcall", (a0: u64, a1: u64, a2: f64, a3: f64, a4: u64, a5: u64, a6: f64, a7: u64), f64, |c: f64| ((a6 * 2.91f64)) + (c as f64));
leaf!(s2253, 2253, Fn, C, "C", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2254, 2254, Fn, Fastcall, "fastcall", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2255, 2255, FnMut, Efiapi, "efiapi", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2256, 2256, FnMut, Win64, "win64", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
leaf!(s2257, 2257, FnOnce, Rust, "Rust", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2258, 2258, FnOnce, Aapcs, "aapcs", (a0: f64), f64, |c: u64| ((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64));
leaf!(s2259, 2259, Fn, Rust, "Rust", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
#[cfg(all(target_arch = "arm"))] leaf!(s2260, 2260, Fn, Aapcs, "aapcs", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
leaf!(s2261, 2261, FnMut, C, "C", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
#[cfg(all(target_arch = "x86"))] leaf!(s2262, 2262, FnMut, Fastcall, "fastcall", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
#[cfg(all(not(feature = "few")))] leaf!(s2263, 2263, FnOnce, Efiapi, "efiapi", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2264, 2264, FnOnce, Win64, "win64", (a0: f64), f64, |c: f64| ((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64));
leaf!(s2265, 2265, Fn, Efiapi, "efiapi", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2266, 2266, Fn, Win64, "win64", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
leaf!(s2267, 2267, FnMut, Rust, "Rust", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "arm"))] leaf!(s2268, 2268, FnMut, Aapcs, "aapcs", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
leaf!(s2269, 2269, FnOnce, C, "C", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
#[cfg(all(target_arch = "x86"))] leaf!(s2270, 2270, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f64, a2: f64, a3: f64, a4: f64, a5: f64, a6: f64, a7: f64, a8: f64, a9: f64, a10: f64, a11: f64), u64, |c: u64| (((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64));
leaf!(s2271, 2271, Fn, C, "C", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2272, 2272, Fn, Fastcall, "fastcall", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
#[cfg(all(not(feature = "few")))] leaf!(s2273, 2273, FnMut, Efiapi, "efiapi", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
#[cfg(all(target_arch = "x86_64"))] leaf!(s2274, 2274, FnMut, Win64, "win64", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
leaf!(s2275, 2275, FnOnce, Rust, "Rust", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2276, 2276, FnOnce, Aapcs, "aapcs", (a0: u64, a1: u32, a2: f64, a3: i16), u32, |c: f32| ([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32));
leaf!(s2277, 2277, Fn, Rust, "Rust", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2278, 2278, Fn, Aapcs, "aapcs", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
leaf!(s2279, 2279, FnMut, C, "C", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2280, 2280, FnMut, Fastcall, "fastcall", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
#[cfg(all(not(feature = "few")))] leaf!(s2281, 2281, FnOnce, Efiapi, "efiapi", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2282, 2282, FnOnce, Win64, "win64", (a0: u64, a1: u64, a2: u64, a3: u64, a4: u64), u32, |c: u32| ({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32));
leaf!(s2283, 2283, Fn, Efiapi, "efiapi", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));
#[cfg(all(target_arch = "x86_64", not(feature = "few")))] leaf!(s2284, 2284, Fn, Win64, "win64", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));
leaf!(s2285, 2285, FnMut, Rust, "Rust", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));
#[cfg(all(target_arch = "arm"))] leaf!(s2286, 2286, FnMut, Aapcs, "aapcs", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));
leaf!(s2287, 2287, FnOnce, C, "C", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));
#[cfg(all(target_arch = "x86"))] leaf!(s2288, 2288, FnOnce, Fastcall, "fastcall", (a0: f64, a1: f32, a2: f32, a3: f32, a4: f64), u32, |c: f32| ([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32));

pub static SHAPES: &[Shape] = &[
     Shape { sid: 0, name: "Fn Rust 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s0::make, inv: s0::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1, name: "FnMut Rust 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s1::make, inv: s1::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2, name: "FnOnce Rust 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s2::make, inv: s2::inv },
     Shape { sid: 3, name: "Fn Rust 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s3::make, inv: s3::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 4, name: "FnMut Rust 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s4::make, inv: s4::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 5, name: "FnOnce Rust 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s5::make, inv: s5::inv },
     Shape { sid: 6, name: "Fn Rust 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s6::make, inv: s6::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 7, name: "FnMut Rust 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s7::make, inv: s7::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 8, name: "FnOnce Rust 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s8::make, inv: s8::inv },
     Shape { sid: 9, name: "Fn Rust 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s9::make, inv: s9::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 10, name: "FnMut Rust 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s10::make, inv: s10::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 11, name: "FnOnce Rust 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s11::make, inv: s11::inv },
     Shape { sid: 12, name: "Fn Rust 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s12::make, inv: s12::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 13, name: "FnMut Rust 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s13::make, inv: s13::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 14, name: "FnOnce Rust 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s14::make, inv: s14::inv },
     Shape { sid: 15, name: "Fn Rust 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s15::make, inv: s15::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 16, name: "FnMut Rust 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s16::make, inv: s16::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 17, name: "FnOnce Rust 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s17::make, inv: s17::inv },
     Shape { sid: 18, name: "Fn Rust 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s18::make, inv: s18::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 19, name: "FnMut Rust 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s19::make, inv: s19::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 20, name: "FnOnce Rust 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s20::make, inv: s20::inv },
     Shape { sid: 21, name: "Fn Rust 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s21::make, inv: s21::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 22, name: "FnMut Rust 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s22::make, inv: s22::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 23, name: "FnOnce Rust 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s23::make, inv: s23::inv },
     Shape { sid: 24, name: "Fn Rust 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s24::make, inv: s24::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 25, name: "FnMut Rust 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s25::make, inv: s25::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 26, name: "FnOnce Rust 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s26::make, inv: s26::inv },
     Shape { sid: 27, name: "Fn Rust 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s27::make, inv: s27::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 28, name: "FnMut Rust 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s28::make, inv: s28::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 29, name: "FnOnce Rust 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s29::make, inv: s29::inv },
     Shape { sid: 30, name: "Fn Rust 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s30::make, inv: s30::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 31, name: "FnMut Rust 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s31::make, inv: s31::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 32, name: "FnOnce Rust 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s32::make, inv: s32::inv },
     Shape { sid: 33, name: "Fn Rust 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s33::make, inv: s33::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 34, name: "FnMut Rust 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s34::make, inv: s34::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 35, name: "FnOnce Rust 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s35::make, inv: s35::inv },
     Shape { sid: 36, name: "Fn Rust 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s36::make, inv: s36::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 37, name: "FnMut Rust 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s37::make, inv: s37::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 38, name: "FnOnce Rust 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s38::make, inv: s38::inv },
     Shape { sid: 39, name: "Fn Rust 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s39::make, inv: s39::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 40, name: "FnMut Rust 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s40::make, inv: s40::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 41, name: "FnOnce Rust 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s41::make, inv: s41::inv },
     Shape { sid: 42, name: "Fn Rust 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s42::make, inv: s42::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 43, name: "FnMut Rust 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s43::make, inv: s43::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 44, name: "FnOnce Rust 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s44::make, inv: s44::inv },
     Shape { sid: 45, name: "Fn Rust 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s45::make, inv: s45::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 46, name: "FnMut Rust 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s46::make, inv: s46::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 47, name: "FnOnce Rust 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s47::make, inv: s47::inv },
     Shape { sid: 48, name: "Fn Rust 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s48::make, inv: s48::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 49, name: "FnMut Rust 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s49::make, inv: s49::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 50, name: "FnOnce Rust 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s50::make, inv: s50::inv },
     Shape { sid: 51, name: "Fn C 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s51::make, inv: s51::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 52, name: "FnMut C 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s52::make, inv: s52::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 53, name: "FnOnce C 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s53::make, inv: s53::inv },
     Shape { sid: 54, name: "Fn C 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s54::make, inv: s54::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 55, name: "FnMut C 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s55::make, inv: s55::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 56, name: "FnOnce C 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s56::make, inv: s56::inv },
     Shape { sid: 57, name: "Fn C 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s57::make, inv: s57::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 58, name: "FnMut C 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s58::make, inv: s58::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 59, name: "FnOnce C 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s59::make, inv: s59::inv },
     Shape { sid: 60, name: "Fn C 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s60::make, inv: s60::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 61, name: "FnMut C 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s61::make, inv: s61::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 62, name: "FnOnce C 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s62::make, inv: s62::inv },
     Shape { sid: 63, name: "Fn C 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s63::make, inv: s63::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 64, name: "FnMut C 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s64::make, inv: s64::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 65, name: "FnOnce C 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s65::make, inv: s65::inv },
     Shape { sid: 66, name: "Fn C 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s66::make, inv: s66::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 67, name: "FnMut C 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s67::make, inv: s67::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 68, name: "FnOnce C 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s68::make, inv: s68::inv },
     Shape { sid: 69, name: "Fn C 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s69::make, inv: s69::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 70, name: "FnMut C 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s70::make, inv: s70::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 71, name: "FnOnce C 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s71::make, inv: s71::inv },
     Shape { sid: 72, name: "Fn C 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s72::make, inv: s72::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 73, name: "FnMut C 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s73::make, inv: s73::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 74, name: "FnOnce C 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s74::make, inv: s74::inv },
     Shape { sid: 75, name: "Fn C 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s75::make, inv: s75::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 76, name: "FnMut C 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s76::make, inv: s76::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 77, name: "FnOnce C 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s77::make, inv: s77::inv },
     Shape { sid: 78, name: "Fn C 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s78::make, inv: s78::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 79, name: "FnMut C 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s79::make, inv: s79::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 80, name: "FnOnce C 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s80::make, inv: s80::inv },
     Shape { sid: 81, name: "Fn C 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s81::make, inv: s81::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 82, name: "FnMut C 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s82::make, inv: s82::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 83, name: "FnOnce C 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s83::make, inv: s83::inv },
     Shape { sid: 84, name: "Fn C 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s84::make, inv: s84::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 85, name: "FnMut C 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s85::make, inv: s85::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 86, name: "FnOnce C 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s86::make, inv: s86::inv },
     Shape { sid: 87, name: "Fn C 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s87::make, inv: s87::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 88, name: "FnMut C 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s88::make, inv: s88::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 89, name: "FnOnce C 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s89::make, inv: s89::inv },
     Shape { sid: 90, name: "Fn C 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s90::make, inv: s90::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 91, name: "FnMut C 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s91::make, inv: s91::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 92, name: "FnOnce C 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s92::make, inv: s92::inv },
     Shape { sid: 93, name: "Fn C 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s93::make, inv: s93::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 94, name: "FnMut C 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s94::make, inv: s94::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 95, name: "FnOnce C 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s95::make, inv: s95::inv },
     Shape { sid: 96, name: "Fn C 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s96::make, inv: s96::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 97, name: "FnMut C 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s97::make, inv: s97::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 98, name: "FnOnce C 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s98::make, inv: s98::inv },
     Shape { sid: 99, name: "Fn C 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s99::make, inv: s99::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 100, name: "FnMut C 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s100::make, inv: s100::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 101, name: "FnOnce C 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s101::make, inv: s101::inv },
     Shape { sid: 102, name: "Fn C-unwind 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s102::make, inv: s102::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 103, name: "FnMut C-unwind 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s103::make, inv: s103::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 104, name: "FnOnce C-unwind 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s104::make, inv: s104::inv },
     Shape { sid: 105, name: "Fn C-unwind 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s105::make, inv: s105::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 106, name: "FnMut C-unwind 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s106::make, inv: s106::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 107, name: "FnOnce C-unwind 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s107::make, inv: s107::inv },
     Shape { sid: 108, name: "Fn C-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s108::make, inv: s108::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 109, name: "FnMut C-unwind 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s109::make, inv: s109::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 110, name: "FnOnce C-unwind 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s110::make, inv: s110::inv },
     Shape { sid: 111, name: "Fn C-unwind 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s111::make, inv: s111::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 112, name: "FnMut C-unwind 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s112::make, inv: s112::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 113, name: "FnOnce C-unwind 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s113::make, inv: s113::inv },
     Shape { sid: 114, name: "Fn C-unwind 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s114::make, inv: s114::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 115, name: "FnMut C-unwind 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s115::make, inv: s115::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 116, name: "FnOnce C-unwind 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s116::make, inv: s116::inv },
     Shape { sid: 117, name: "Fn C-unwind 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s117::make, inv: s117::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 118, name: "FnMut C-unwind 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s118::make, inv: s118::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 119, name: "FnOnce C-unwind 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s119::make, inv: s119::inv },
     Shape { sid: 120, name: "Fn C-unwind 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s120::make, inv: s120::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 121, name: "FnMut C-unwind 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s121::make, inv: s121::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 122, name: "FnOnce C-unwind 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s122::make, inv: s122::inv },
     Shape { sid: 123, name: "Fn C-unwind 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s123::make, inv: s123::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 124, name: "FnMut C-unwind 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s124::make, inv: s124::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 125, name: "FnOnce C-unwind 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s125::make, inv: s125::inv },
     Shape { sid: 126, name: "Fn C-unwind 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s126::make, inv: s126::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 127, name: "FnMut C-unwind 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s127::make, inv: s127::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 128, name: "FnOnce C-unwind 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s128::make, inv: s128::inv },
     Shape { sid: 129, name: "Fn C-unwind 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s129::make, inv: s129::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 130, name: "FnMut C-unwind 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s130::make, inv: s130::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 131, name: "FnOnce C-unwind 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s131::make, inv: s131::inv },
     Shape { sid: 132, name: "Fn C-unwind 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s132::make, inv: s132::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 133, name: "FnMut C-unwind 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s133::make, inv: s133::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 134, name: "FnOnce C-unwind 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s134::make, inv: s134::inv },
     Shape { sid: 135, name: "Fn C-unwind 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s135::make, inv: s135::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 136, name: "FnMut C-unwind 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s136::make, inv: s136::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 137, name: "FnOnce C-unwind 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s137::make, inv: s137::inv },
     Shape { sid: 138, name: "Fn C-unwind 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s138::make, inv: s138::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 139, name: "FnMut C-unwind 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s139::make, inv: s139::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 140, name: "FnOnce C-unwind 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s140::make, inv: s140::inv },
     Shape { sid: 141, name: "Fn C-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s141::make, inv: s141::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 142, name: "FnMut C-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s142::make, inv: s142::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 143, name: "FnOnce C-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s143::make, inv: s143::inv },
     Shape { sid: 144, name: "Fn C-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s144::make, inv: s144::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 145, name: "FnMut C-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s145::make, inv: s145::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 146, name: "FnOnce C-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s146::make, inv: s146::inv },
     Shape { sid: 147, name: "Fn C-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s147::make, inv: s147::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 148, name: "FnMut C-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s148::make, inv: s148::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 149, name: "FnOnce C-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s149::make, inv: s149::inv },
     Shape { sid: 150, name: "Fn C-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s150::make, inv: s150::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 151, name: "FnMut C-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s151::make, inv: s151::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 152, name: "FnOnce C-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s152::make, inv: s152::inv },
     Shape { sid: 153, name: "Fn system 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s153::make, inv: s153::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 154, name: "FnMut system 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s154::make, inv: s154::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 155, name: "FnOnce system 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s155::make, inv: s155::inv },
     Shape { sid: 156, name: "Fn system 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s156::make, inv: s156::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 157, name: "FnMut system 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s157::make, inv: s157::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 158, name: "FnOnce system 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s158::make, inv: s158::inv },
     Shape { sid: 159, name: "Fn system 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s159::make, inv: s159::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 160, name: "FnMut system 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s160::make, inv: s160::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 161, name: "FnOnce system 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s161::make, inv: s161::inv },
     Shape { sid: 162, name: "Fn system 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s162::make, inv: s162::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 163, name: "FnMut system 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s163::make, inv: s163::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 164, name: "FnOnce system 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s164::make, inv: s164::inv },
     Shape { sid: 165, name: "Fn system 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s165::make, inv: s165::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 166, name: "FnMut system 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s166::make, inv: s166::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 167, name: "FnOnce system 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s167::make, inv: s167::inv },
     Shape { sid: 168, name: "Fn system 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s168::make, inv: s168::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 169, name: "FnMut system 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s169::make, inv: s169::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 170, name: "FnOnce system 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s170::make, inv: s170::inv },
     Shape { sid: 171, name: "Fn system 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s171::make, inv: s171::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 172, name: "FnMut system 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s172::make, inv: s172::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 173, name: "FnOnce system 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s173::make, inv: s173::inv },
     Shape { sid: 174, name: "Fn system 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s174::make, inv: s174::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 175, name: "FnMut system 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s175::make, inv: s175::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 176, name: "FnOnce system 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s176::make, inv: s176::inv },
     Shape { sid: 177, name: "Fn system 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s177::make, inv: s177::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 178, name: "FnMut system 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s178::make, inv: s178::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 179, name: "FnOnce system 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s179::make, inv: s179::inv },
     Shape { sid: 180, name: "Fn system 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s180::make, inv: s180::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 181, name: "FnMut system 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s181::make, inv: s181::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 182, name: "FnOnce system 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s182::make, inv: s182::inv },
     Shape { sid: 183, name: "Fn system 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s183::make, inv: s183::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 184, name: "FnMut system 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s184::make, inv: s184::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 185, name: "FnOnce system 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s185::make, inv: s185::inv },
     Shape { sid: 186, name: "Fn system 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s186::make, inv: s186::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 187, name: "FnMut system 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s187::make, inv: s187::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 188, name: "FnOnce system 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s188::make, inv: s188::inv },
     Shape { sid: 189, name: "Fn system 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s189::make, inv: s189::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 190, name: "FnMut system 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s190::make, inv: s190::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 191, name: "FnOnce system 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s191::make, inv: s191::inv },
     Shape { sid: 192, name: "Fn system 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s192::make, inv: s192::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 193, name: "FnMut system 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s193::make, inv: s193::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 194, name: "FnOnce system 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s194::make, inv: s194::inv },
     Shape { sid: 195, name: "Fn system 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s195::make, inv: s195::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 196, name: "FnMut system 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s196::make, inv: s196::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 197, name: "FnOnce system 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s197::make, inv: s197::inv },
     Shape { sid: 198, name: "Fn system 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s198::make, inv: s198::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 199, name: "FnMut system 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s199::make, inv: s199::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 200, name: "FnOnce system 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s200::make, inv: s200::inv },
     Shape { sid: 201, name: "Fn system 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s201::make, inv: s201::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 202, name: "FnMut system 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s202::make, inv: s202::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 203, name: "FnOnce system 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s203::make, inv: s203::inv },
     Shape { sid: 204, name: "Fn system-unwind 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s204::make, inv: s204::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 205, name: "FnMut system-unwind 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s205::make, inv: s205::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 206, name: "FnOnce system-unwind 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s206::make, inv: s206::inv },
     Shape { sid: 207, name: "Fn system-unwind 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s207::make, inv: s207::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 208, name: "FnMut system-unwind 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s208::make, inv: s208::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 209, name: "FnOnce system-unwind 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s209::make, inv: s209::inv },
     Shape { sid: 210, name: "Fn system-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s210::make, inv: s210::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 211, name: "FnMut system-unwind 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s211::make, inv: s211::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 212, name: "FnOnce system-unwind 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s212::make, inv: s212::inv },
     Shape { sid: 213, name: "Fn system-unwind 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s213::make, inv: s213::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 214, name: "FnMut system-unwind 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s214::make, inv: s214::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 215, name: "FnOnce system-unwind 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s215::make, inv: s215::inv },
     Shape { sid: 216, name: "Fn system-unwind 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s216::make, inv: s216::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 217, name: "FnMut system-unwind 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s217::make, inv: s217::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 218, name: "FnOnce system-unwind 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s218::make, inv: s218::inv },
     Shape { sid: 219, name: "Fn system-unwind 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s219::make, inv: s219::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 220, name: "FnMut system-unwind 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s220::make, inv: s220::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 221, name: "FnOnce system-unwind 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s221::make, inv: s221::inv },
     Shape { sid: 222, name: "Fn system-unwind 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s222::make, inv: s222::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 223, name: "FnMut system-unwind 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s223::make, inv: s223::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 224, name: "FnOnce system-unwind 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s224::make, inv: s224::inv },
     Shape { sid: 225, name: "Fn system-unwind 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s225::make, inv: s225::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 226, name: "FnMut system-unwind 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s226::make, inv: s226::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 227, name: "FnOnce system-unwind 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s227::make, inv: s227::inv },
     Shape { sid: 228, name: "Fn system-unwind 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s228::make, inv: s228::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 229, name: "FnMut system-unwind 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s229::make, inv: s229::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 230, name: "FnOnce system-unwind 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s230::make, inv: s230::inv },
     Shape { sid: 231, name: "Fn system-unwind 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s231::make, inv: s231::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 232, name: "FnMut system-unwind 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s232::make, inv: s232::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 233, name: "FnOnce system-unwind 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s233::make, inv: s233::inv },
     Shape { sid: 234, name: "Fn system-unwind 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s234::make, inv: s234::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 235, name: "FnMut system-unwind 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s235::make, inv: s235::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 236, name: "FnOnce system-unwind 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s236::make, inv: s236::inv },
     Shape { sid: 237, name: "Fn system-unwind 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s237::make, inv: s237::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 238, name: "FnMut system-unwind 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s238::make, inv: s238::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 239, name: "FnOnce system-unwind 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s239::make, inv: s239::inv },
     Shape { sid: 240, name: "Fn system-unwind 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s240::make, inv: s240::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 241, name: "FnMut system-unwind 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s241::make, inv: s241::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 242, name: "FnOnce system-unwind 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s242::make, inv: s242::inv },
     Shape { sid: 243, name: "Fn system-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s243::make, inv: s243::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 244, name: "FnMut system-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s244::make, inv: s244::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 245, name: "FnOnce system-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s245::make, inv: s245::inv },
     Shape { sid: 246, name: "Fn system-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s246::make, inv: s246::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 247, name: "FnMut system-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s247::make, inv: s247::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 248, name: "FnOnce system-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s248::make, inv: s248::inv },
     Shape { sid: 249, name: "Fn system-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s249::make, inv: s249::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 250, name: "FnMut system-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s250::make, inv: s250::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 251, name: "FnOnce system-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s251::make, inv: s251::inv },
     Shape { sid: 252, name: "Fn system-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s252::make, inv: s252::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 253, name: "FnMut system-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s253::make, inv: s253::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 254, name: "FnOnce system-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s254::make, inv: s254::inv },
     Shape { sid: 255, name: "Fn efiapi 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s255::make, inv: s255::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 256, name: "FnMut efiapi 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s256::make, inv: s256::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 257, name: "FnOnce efiapi 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s257::make, inv: s257::inv },
     Shape { sid: 258, name: "Fn efiapi 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s258::make, inv: s258::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 259, name: "FnMut efiapi 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s259::make, inv: s259::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 260, name: "FnOnce efiapi 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s260::make, inv: s260::inv },
     Shape { sid: 261, name: "Fn efiapi 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s261::make, inv: s261::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 262, name: "FnMut efiapi 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s262::make, inv: s262::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 263, name: "FnOnce efiapi 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s263::make, inv: s263::inv },
     Shape { sid: 264, name: "Fn efiapi 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s264::make, inv: s264::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 265, name: "FnMut efiapi 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s265::make, inv: s265::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 266, name: "FnOnce efiapi 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s266::make, inv: s266::inv },
     Shape { sid: 267, name: "Fn efiapi 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s267::make, inv: s267::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 268, name: "FnMut efiapi 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s268::make, inv: s268::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 269, name: "FnOnce efiapi 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s269::make, inv: s269::inv },
     Shape { sid: 270, name: "Fn efiapi 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s270::make, inv: s270::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 271, name: "FnMut efiapi 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s271::make, inv: s271::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 272, name: "FnOnce efiapi 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s272::make, inv: s272::inv },
     Shape { sid: 273, name: "Fn efiapi 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s273::make, inv: s273::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 274, name: "FnMut efiapi 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s274::make, inv: s274::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 275, name: "FnOnce efiapi 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s275::make, inv: s275::inv },
     Shape { sid: 276, name: "Fn efiapi 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s276::make, inv: s276::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 277, name: "FnMut efiapi 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s277::make, inv: s277::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 278, name: "FnOnce efiapi 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s278::make, inv: s278::inv },
     Shape { sid: 279, name: "Fn efiapi 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s279::make, inv: s279::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 280, name: "FnMut efiapi 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s280::make, inv: s280::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 281, name: "FnOnce efiapi 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s281::make, inv: s281::inv },
     Shape { sid: 282, name: "Fn efiapi 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s282::make, inv: s282::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 283, name: "FnMut efiapi 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s283::make, inv: s283::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 284, name: "FnOnce efiapi 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s284::make, inv: s284::inv },
     Shape { sid: 285, name: "Fn efiapi 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s285::make, inv: s285::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 286, name: "FnMut efiapi 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s286::make, inv: s286::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 287, name: "FnOnce efiapi 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s287::make, inv: s287::inv },
     Shape { sid: 288, name: "Fn efiapi 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s288::make, inv: s288::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 289, name: "FnMut efiapi 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s289::make, inv: s289::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 290, name: "FnOnce efiapi 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s290::make, inv: s290::inv },
     Shape { sid: 291, name: "Fn efiapi 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s291::make, inv: s291::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 292, name: "FnMut efiapi 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s292::make, inv: s292::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 293, name: "FnOnce efiapi 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s293::make, inv: s293::inv },
     Shape { sid: 294, name: "Fn efiapi 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s294::make, inv: s294::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 295, name: "FnMut efiapi 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s295::make, inv: s295::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 296, name: "FnOnce efiapi 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s296::make, inv: s296::inv },
     Shape { sid: 297, name: "Fn efiapi 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s297::make, inv: s297::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 298, name: "FnMut efiapi 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s298::make, inv: s298::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 299, name: "FnOnce efiapi 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s299::make, inv: s299::inv },
     Shape { sid: 300, name: "Fn efiapi 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s300::make, inv: s300::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 301, name: "FnMut efiapi 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s301::make, inv: s301::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 302, name: "FnOnce efiapi 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s302::make, inv: s302::inv },
     Shape { sid: 303, name: "Fn efiapi 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s303::make, inv: s303::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 304, name: "FnMut efiapi 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s304::make, inv: s304::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 305, name: "FnOnce efiapi 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s305::make, inv: s305::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 306, name: "Fn sysv64 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s306::make, inv: s306::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 307, name: "FnMut sysv64 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s307::make, inv: s307::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 308, name: "FnOnce sysv64 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s308::make, inv: s308::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 309, name: "Fn sysv64 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s309::make, inv: s309::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 310, name: "FnMut sysv64 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s310::make, inv: s310::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 311, name: "FnOnce sysv64 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s311::make, inv: s311::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 312, name: "Fn sysv64 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s312::make, inv: s312::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 313, name: "FnMut sysv64 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s313::make, inv: s313::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 314, name: "FnOnce sysv64 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s314::make, inv: s314::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 315, name: "Fn sysv64 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s315::make, inv: s315::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 316, name: "FnMut sysv64 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s316::make, inv: s316::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 317, name: "FnOnce sysv64 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s317::make, inv: s317::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 318, name: "Fn sysv64 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s318::make, inv: s318::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 319, name: "FnMut sysv64 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s319::make, inv: s319::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 320, name: "FnOnce sysv64 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s320::make, inv: s320::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 321, name: "Fn sysv64 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s321::make, inv: s321::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 322, name: "FnMut sysv64 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s322::make, inv: s322::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 323, name: "FnOnce sysv64 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s323::make, inv: s323::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 324, name: "Fn sysv64 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s324::make, inv: s324::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 325, name: "FnMut sysv64 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s325::make, inv: s325::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 326, name: "FnOnce sysv64 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s326::make, inv: s326::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 327, name: "Fn sysv64 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s327::make, inv: s327::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 328, name: "FnMut sysv64 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s328::make, inv: s328::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 329, name: "FnOnce sysv64 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s329::make, inv: s329::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 330, name: "Fn sysv64 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s330::make, inv: s330::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 331, name: "FnMut sysv64 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s331::make, inv: s331::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 332, name: "FnOnce sysv64 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s332::make, inv: s332::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 333, name: "Fn sysv64 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s333::make, inv: s333::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 334, name: "FnMut sysv64 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s334::make, inv: s334::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 335, name: "FnOnce sysv64 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s335::make, inv: s335::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 336, name: "Fn sysv64 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s336::make, inv: s336::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 337, name: "FnMut sysv64 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s337::make, inv: s337::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 338, name: "FnOnce sysv64 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s338::make, inv: s338::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 339, name: "Fn sysv64 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s339::make, inv: s339::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 340, name: "FnMut sysv64 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s340::make, inv: s340::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 341, name: "FnOnce sysv64 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s341::make, inv: s341::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 342, name: "Fn sysv64 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s342::make, inv: s342::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 343, name: "FnMut sysv64 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s343::make, inv: s343::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 344, name: "FnOnce sysv64 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s344::make, inv: s344::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 345, name: "Fn sysv64 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s345::make, inv: s345::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 346, name: "FnMut sysv64 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s346::make, inv: s346::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 347, name: "FnOnce sysv64 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s347::make, inv: s347::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 348, name: "Fn sysv64 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s348::make, inv: s348::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 349, name: "FnMut sysv64 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s349::make, inv: s349::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 350, name: "FnOnce sysv64 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s350::make, inv: s350::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 351, name: "Fn sysv64 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s351::make, inv: s351::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 352, name: "FnMut sysv64 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s352::make, inv: s352::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 353, name: "FnOnce sysv64 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s353::make, inv: s353::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 354, name: "Fn sysv64 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s354::make, inv: s354::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 355, name: "FnMut sysv64 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s355::make, inv: s355::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 356, name: "FnOnce sysv64 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s356::make, inv: s356::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 357, name: "Fn sysv64-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s357::make, inv: s357::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 358, name: "FnMut sysv64-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s358::make, inv: s358::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 359, name: "FnOnce sysv64-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s359::make, inv: s359::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 360, name: "Fn sysv64-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s360::make, inv: s360::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 361, name: "FnMut sysv64-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s361::make, inv: s361::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 362, name: "FnOnce sysv64-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s362::make, inv: s362::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 363, name: "Fn sysv64-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s363::make, inv: s363::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 364, name: "FnMut sysv64-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s364::make, inv: s364::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 365, name: "FnOnce sysv64-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s365::make, inv: s365::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 366, name: "Fn sysv64-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s366::make, inv: s366::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 367, name: "FnMut sysv64-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s367::make, inv: s367::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 368, name: "FnOnce sysv64-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s368::make, inv: s368::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 369, name: "Fn sysv64-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s369::make, inv: s369::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 370, name: "FnMut sysv64-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s370::make, inv: s370::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 371, name: "FnOnce sysv64-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s371::make, inv: s371::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 372, name: "Fn sysv64-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s372::make, inv: s372::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 373, name: "FnMut sysv64-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s373::make, inv: s373::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 374, name: "FnOnce sysv64-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s374::make, inv: s374::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 375, name: "Fn sysv64-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s375::make, inv: s375::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 376, name: "FnMut sysv64-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s376::make, inv: s376::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 377, name: "FnOnce sysv64-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s377::make, inv: s377::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 378, name: "Fn sysv64-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s378::make, inv: s378::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 379, name: "FnMut sysv64-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s379::make, inv: s379::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 380, name: "FnOnce sysv64-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s380::make, inv: s380::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 381, name: "Fn sysv64-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s381::make, inv: s381::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 382, name: "FnMut sysv64-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s382::make, inv: s382::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 383, name: "FnOnce sysv64-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s383::make, inv: s383::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 384, name: "Fn sysv64-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s384::make, inv: s384::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 385, name: "FnMut sysv64-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s385::make, inv: s385::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 386, name: "FnOnce sysv64-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s386::make, inv: s386::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 387, name: "Fn sysv64-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s387::make, inv: s387::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 388, name: "FnMut sysv64-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s388::make, inv: s388::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 389, name: "FnOnce sysv64-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s389::make, inv: s389::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 390, name: "Fn sysv64-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s390::make, inv: s390::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 391, name: "FnMut sysv64-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s391::make, inv: s391::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 392, name: "FnOnce sysv64-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s392::make, inv: s392::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 393, name: "Fn sysv64-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s393::make, inv: s393::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 394, name: "FnMut sysv64-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s394::make, inv: s394::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 395, name: "FnOnce sysv64-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s395::make, inv: s395::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 396, name: "Fn sysv64-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s396::make, inv: s396::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 397, name: "FnMut sysv64-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s397::make, inv: s397::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 398, name: "FnOnce sysv64-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s398::make, inv: s398::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 399, name: "Fn sysv64-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s399::make, inv: s399::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 400, name: "FnMut sysv64-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s400::make, inv: s400::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 401, name: "FnOnce sysv64-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s401::make, inv: s401::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 402, name: "Fn sysv64-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s402::make, inv: s402::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 403, name: "FnMut sysv64-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s403::make, inv: s403::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 404, name: "FnOnce sysv64-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s404::make, inv: s404::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 405, name: "Fn sysv64-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s405::make, inv: s405::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 406, name: "FnMut sysv64-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s406::make, inv: s406::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 407, name: "FnOnce sysv64-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s407::make, inv: s407::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 408, name: "Fn win64 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s408::make, inv: s408::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 409, name: "FnMut win64 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s409::make, inv: s409::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 410, name: "FnOnce win64 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s410::make, inv: s410::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 411, name: "Fn win64 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s411::make, inv: s411::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 412, name: "FnMut win64 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s412::make, inv: s412::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 413, name: "FnOnce win64 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s413::make, inv: s413::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 414, name: "Fn win64 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s414::make, inv: s414::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 415, name: "FnMut win64 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s415::make, inv: s415::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 416, name: "FnOnce win64 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s416::make, inv: s416::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 417, name: "Fn win64 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s417::make, inv: s417::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 418, name: "FnMut win64 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s418::make, inv: s418::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 419, name: "FnOnce win64 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s419::make, inv: s419::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 420, name: "Fn win64 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s420::make, inv: s420::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 421, name: "FnMut win64 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s421::make, inv: s421::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 422, name: "FnOnce win64 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s422::make, inv: s422::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 423, name: "Fn win64 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s423::make, inv: s423::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 424, name: "FnMut win64 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s424::make, inv: s424::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 425, name: "FnOnce win64 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s425::make, inv: s425::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 426, name: "Fn win64 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s426::make, inv: s426::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 427, name: "FnMut win64 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s427::make, inv: s427::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 428, name: "FnOnce win64 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s428::make, inv: s428::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 429, name: "Fn win64 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s429::make, inv: s429::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 430, name: "FnMut win64 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s430::make, inv: s430::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 431, name: "FnOnce win64 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s431::make, inv: s431::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 432, name: "Fn win64 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s432::make, inv: s432::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 433, name: "FnMut win64 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s433::make, inv: s433::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 434, name: "FnOnce win64 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s434::make, inv: s434::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 435, name: "Fn win64 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s435::make, inv: s435::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 436, name: "FnMut win64 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s436::make, inv: s436::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 437, name: "FnOnce win64 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s437::make, inv: s437::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 438, name: "Fn win64 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s438::make, inv: s438::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 439, name: "FnMut win64 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s439::make, inv: s439::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 440, name: "FnOnce win64 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s440::make, inv: s440::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 441, name: "Fn win64 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s441::make, inv: s441::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 442, name: "FnMut win64 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s442::make, inv: s442::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 443, name: "FnOnce win64 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s443::make, inv: s443::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 444, name: "Fn win64 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s444::make, inv: s444::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 445, name: "FnMut win64 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s445::make, inv: s445::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 446, name: "FnOnce win64 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s446::make, inv: s446::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 447, name: "Fn win64 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s447::make, inv: s447::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 448, name: "FnMut win64 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s448::make, inv: s448::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 449, name: "FnOnce win64 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s449::make, inv: s449::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 450, name: "Fn win64 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s450::make, inv: s450::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 451, name: "FnMut win64 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s451::make, inv: s451::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 452, name: "FnOnce win64 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s452::make, inv: s452::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 453, name: "Fn win64 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s453::make, inv: s453::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 454, name: "FnMut win64 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s454::make, inv: s454::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 455, name: "FnOnce win64 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s455::make, inv: s455::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 456, name: "Fn win64 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s456::make, inv: s456::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 457, name: "FnMut win64 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s457::make, inv: s457::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 458, name: "FnOnce win64 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s458::make, inv: s458::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 459, name: "Fn win64-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s459::make, inv: s459::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 460, name: "FnMut win64-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s460::make, inv: s460::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 461, name: "FnOnce win64-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s461::make, inv: s461::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 462, name: "Fn win64-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s462::make, inv: s462::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 463, name: "FnMut win64-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s463::make, inv: s463::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 464, name: "FnOnce win64-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s464::make, inv: s464::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 465, name: "Fn win64-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s465::make, inv: s465::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 466, name: "FnMut win64-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s466::make, inv: s466::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 467, name: "FnOnce win64-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s467::make, inv: s467::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 468, name: "Fn win64-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s468::make, inv: s468::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 469, name: "FnMut win64-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s469::make, inv: s469::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 470, name: "FnOnce win64-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s470::make, inv: s470::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 471, name: "Fn win64-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s471::make, inv: s471::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 472, name: "FnMut win64-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s472::make, inv: s472::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 473, name: "FnOnce win64-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s473::make, inv: s473::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 474, name: "Fn win64-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s474::make, inv: s474::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 475, name: "FnMut win64-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s475::make, inv: s475::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 476, name: "FnOnce win64-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s476::make, inv: s476::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 477, name: "Fn win64-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s477::make, inv: s477::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 478, name: "FnMut win64-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s478::make, inv: s478::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 479, name: "FnOnce win64-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s479::make, inv: s479::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 480, name: "Fn win64-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s480::make, inv: s480::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 481, name: "FnMut win64-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s481::make, inv: s481::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 482, name: "FnOnce win64-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s482::make, inv: s482::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 483, name: "Fn win64-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s483::make, inv: s483::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 484, name: "FnMut win64-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s484::make, inv: s484::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 485, name: "FnOnce win64-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s485::make, inv: s485::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 486, name: "Fn win64-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s486::make, inv: s486::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 487, name: "FnMut win64-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s487::make, inv: s487::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 488, name: "FnOnce win64-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s488::make, inv: s488::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 489, name: "Fn win64-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s489::make, inv: s489::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 490, name: "FnMut win64-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s490::make, inv: s490::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 491, name: "FnOnce win64-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s491::make, inv: s491::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 492, name: "Fn win64-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s492::make, inv: s492::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 493, name: "FnMut win64-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s493::make, inv: s493::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 494, name: "FnOnce win64-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s494::make, inv: s494::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 495, name: "Fn win64-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s495::make, inv: s495::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 496, name: "FnMut win64-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s496::make, inv: s496::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 497, name: "FnOnce win64-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s497::make, inv: s497::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 498, name: "Fn win64-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s498::make, inv: s498::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 499, name: "FnMut win64-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s499::make, inv: s499::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 500, name: "FnOnce win64-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s500::make, inv: s500::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 501, name: "Fn win64-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s501::make, inv: s501::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 502, name: "FnMut win64-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s502::make, inv: s502::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 503, name: "FnOnce win64-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s503::make, inv: s503::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 504, name: "Fn win64-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s504::make, inv: s504::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 505, name: "FnMut win64-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s505::make, inv: s505::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 506, name: "FnOnce win64-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s506::make, inv: s506::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 507, name: "Fn win64-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s507::make, inv: s507::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 508, name: "FnMut win64-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s508::make, inv: s508::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 509, name: "FnOnce win64-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s509::make, inv: s509::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 510, name: "Fn fastcall 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s510::make, inv: s510::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 511, name: "FnMut fastcall 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s511::make, inv: s511::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 512, name: "FnOnce fastcall 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s512::make, inv: s512::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 513, name: "Fn fastcall 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s513::make, inv: s513::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 514, name: "FnMut fastcall 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s514::make, inv: s514::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 515, name: "FnOnce fastcall 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s515::make, inv: s515::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 516, name: "Fn fastcall 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s516::make, inv: s516::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 517, name: "FnMut fastcall 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s517::make, inv: s517::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 518, name: "FnOnce fastcall 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s518::make, inv: s518::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 519, name: "Fn fastcall 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s519::make, inv: s519::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 520, name: "FnMut fastcall 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s520::make, inv: s520::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 521, name: "FnOnce fastcall 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s521::make, inv: s521::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 522, name: "Fn fastcall 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s522::make, inv: s522::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 523, name: "FnMut fastcall 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s523::make, inv: s523::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 524, name: "FnOnce fastcall 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s524::make, inv: s524::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 525, name: "Fn fastcall 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s525::make, inv: s525::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 526, name: "FnMut fastcall 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s526::make, inv: s526::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 527, name: "FnOnce fastcall 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s527::make, inv: s527::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 528, name: "Fn fastcall 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s528::make, inv: s528::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 529, name: "FnMut fastcall 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s529::make, inv: s529::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 530, name: "FnOnce fastcall 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s530::make, inv: s530::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 531, name: "Fn fastcall 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s531::make, inv: s531::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 532, name: "FnMut fastcall 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s532::make, inv: s532::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 533, name: "FnOnce fastcall 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s533::make, inv: s533::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 534, name: "Fn fastcall 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s534::make, inv: s534::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 535, name: "FnMut fastcall 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s535::make, inv: s535::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 536, name: "FnOnce fastcall 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s536::make, inv: s536::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 537, name: "Fn fastcall 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s537::make, inv: s537::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 538, name: "FnMut fastcall 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s538::make, inv: s538::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 539, name: "FnOnce fastcall 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s539::make, inv: s539::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 540, name: "Fn fastcall 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s540::make, inv: s540::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 541, name: "FnMut fastcall 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s541::make, inv: s541::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 542, name: "FnOnce fastcall 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s542::make, inv: s542::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 543, name: "Fn fastcall 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s543::make, inv: s543::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 544, name: "FnMut fastcall 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s544::make, inv: s544::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 545, name: "FnOnce fastcall 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s545::make, inv: s545::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 546, name: "Fn fastcall 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s546::make, inv: s546::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 547, name: "FnMut fastcall 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s547::make, inv: s547::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 548, name: "FnOnce fastcall 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s548::make, inv: s548::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 549, name: "Fn fastcall 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s549::make, inv: s549::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 550, name: "FnMut fastcall 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s550::make, inv: s550::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 551, name: "FnOnce fastcall 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s551::make, inv: s551::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 552, name: "Fn fastcall 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s552::make, inv: s552::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 553, name: "FnMut fastcall 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s553::make, inv: s553::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 554, name: "FnOnce fastcall 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s554::make, inv: s554::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 555, name: "Fn fastcall 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s555::make, inv: s555::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 556, name: "FnMut fastcall 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s556::make, inv: s556::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 557, name: "FnOnce fastcall 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s557::make, inv: s557::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 558, name: "Fn fastcall 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s558::make, inv: s558::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 559, name: "FnMut fastcall 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s559::make, inv: s559::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 560, name: "FnOnce fastcall 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s560::make, inv: s560::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 561, name: "Fn fastcall-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s561::make, inv: s561::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 562, name: "FnMut fastcall-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s562::make, inv: s562::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 563, name: "FnOnce fastcall-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s563::make, inv: s563::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 564, name: "Fn fastcall-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s564::make, inv: s564::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 565, name: "FnMut fastcall-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s565::make, inv: s565::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 566, name: "FnOnce fastcall-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s566::make, inv: s566::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 567, name: "Fn fastcall-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s567::make, inv: s567::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 568, name: "FnMut fastcall-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s568::make, inv: s568::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 569, name: "FnOnce fastcall-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s569::make, inv: s569::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 570, name: "Fn fastcall-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s570::make, inv: s570::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 571, name: "FnMut fastcall-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s571::make, inv: s571::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 572, name: "FnOnce fastcall-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s572::make, inv: s572::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 573, name: "Fn fastcall-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s573::make, inv: s573::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 574, name: "FnMut fastcall-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s574::make, inv: s574::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 575, name: "FnOnce fastcall-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s575::make, inv: s575::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 576, name: "Fn fastcall-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s576::make, inv: s576::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 577, name: "FnMut fastcall-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s577::make, inv: s577::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 578, name: "FnOnce fastcall-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s578::make, inv: s578::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 579, name: "Fn fastcall-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s579::make, inv: s579::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 580, name: "FnMut fastcall-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s580::make, inv: s580::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 581, name: "FnOnce fastcall-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s581::make, inv: s581::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 582, name: "Fn fastcall-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s582::make, inv: s582::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 583, name: "FnMut fastcall-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s583::make, inv: s583::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 584, name: "FnOnce fastcall-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s584::make, inv: s584::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 585, name: "Fn fastcall-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s585::make, inv: s585::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 586, name: "FnMut fastcall-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s586::make, inv: s586::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 587, name: "FnOnce fastcall-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s587::make, inv: s587::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 588, name: "Fn fastcall-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s588::make, inv: s588::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 589, name: "FnMut fastcall-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s589::make, inv: s589::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 590, name: "FnOnce fastcall-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s590::make, inv: s590::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 591, name: "Fn fastcall-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s591::make, inv: s591::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 592, name: "FnMut fastcall-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s592::make, inv: s592::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 593, name: "FnOnce fastcall-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s593::make, inv: s593::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 594, name: "Fn fastcall-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s594::make, inv: s594::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 595, name: "FnMut fastcall-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s595::make, inv: s595::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 596, name: "FnOnce fastcall-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s596::make, inv: s596::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 597, name: "Fn fastcall-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s597::make, inv: s597::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 598, name: "FnMut fastcall-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s598::make, inv: s598::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 599, name: "FnOnce fastcall-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s599::make, inv: s599::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 600, name: "Fn fastcall-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s600::make, inv: s600::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 601, name: "FnMut fastcall-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s601::make, inv: s601::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 602, name: "FnOnce fastcall-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s602::make, inv: s602::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 603, name: "Fn fastcall-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s603::make, inv: s603::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 604, name: "FnMut fastcall-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s604::make, inv: s604::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 605, name: "FnOnce fastcall-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s605::make, inv: s605::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 606, name: "Fn fastcall-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s606::make, inv: s606::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 607, name: "FnMut fastcall-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s607::make, inv: s607::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 608, name: "FnOnce fastcall-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s608::make, inv: s608::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 609, name: "Fn fastcall-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "fastcall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s609::make, inv: s609::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 610, name: "FnMut fastcall-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s610::make, inv: s610::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 611, name: "FnOnce fastcall-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s611::make, inv: s611::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 612, name: "Fn stdcall 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s612::make, inv: s612::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 613, name: "FnMut stdcall 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s613::make, inv: s613::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 614, name: "FnOnce stdcall 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s614::make, inv: s614::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 615, name: "Fn stdcall 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s615::make, inv: s615::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 616, name: "FnMut stdcall 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s616::make, inv: s616::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 617, name: "FnOnce stdcall 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s617::make, inv: s617::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 618, name: "Fn stdcall 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s618::make, inv: s618::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 619, name: "FnMut stdcall 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s619::make, inv: s619::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 620, name: "FnOnce stdcall 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s620::make, inv: s620::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 621, name: "Fn stdcall 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s621::make, inv: s621::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 622, name: "FnMut stdcall 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s622::make, inv: s622::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 623, name: "FnOnce stdcall 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s623::make, inv: s623::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 624, name: "Fn stdcall 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s624::make, inv: s624::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 625, name: "FnMut stdcall 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s625::make, inv: s625::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 626, name: "FnOnce stdcall 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s626::make, inv: s626::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 627, name: "Fn stdcall 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s627::make, inv: s627::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 628, name: "FnMut stdcall 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s628::make, inv: s628::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 629, name: "FnOnce stdcall 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s629::make, inv: s629::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 630, name: "Fn stdcall 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s630::make, inv: s630::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 631, name: "FnMut stdcall 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s631::make, inv: s631::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 632, name: "FnOnce stdcall 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s632::make, inv: s632::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 633, name: "Fn stdcall 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s633::make, inv: s633::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 634, name: "FnMut stdcall 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s634::make, inv: s634::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 635, name: "FnOnce stdcall 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s635::make, inv: s635::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 636, name: "Fn stdcall 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s636::make, inv: s636::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 637, name: "FnMut stdcall 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s637::make, inv: s637::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 638, name: "FnOnce stdcall 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s638::make, inv: s638::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 639, name: "Fn stdcall 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s639::make, inv: s639::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 640, name: "FnMut stdcall 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s640::make, inv: s640::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 641, name: "FnOnce stdcall 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s641::make, inv: s641::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 642, name: "Fn stdcall 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s642::make, inv: s642::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 643, name: "FnMut stdcall 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s643::make, inv: s643::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 644, name: "FnOnce stdcall 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s644::make, inv: s644::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 645, name: "Fn stdcall 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s645::make, inv: s645::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 646, name: "FnMut stdcall 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s646::make, inv: s646::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 647, name: "FnOnce stdcall 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s647::make, inv: s647::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 648, name: "Fn stdcall 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s648::make, inv: s648::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 649, name: "FnMut stdcall 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s649::make, inv: s649::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 650, name: "FnOnce stdcall 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s650::make, inv: s650::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 651, name: "Fn stdcall 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s651::make, inv: s651::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 652, name: "FnMut stdcall 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s652::make, inv: s652::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 653, name: "FnOnce stdcall 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s653::make, inv: s653::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 654, name: "Fn stdcall 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s654::make, inv: s654::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 655, name: "FnMut stdcall 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s655::make, inv: s655::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 656, name: "FnOnce stdcall 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s656::make, inv: s656::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 657, name: "Fn stdcall 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s657::make, inv: s657::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 658, name: "FnMut stdcall 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s658::make, inv: s658::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 659, name: "FnOnce stdcall 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s659::make, inv: s659::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 660, name: "Fn stdcall 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s660::make, inv: s660::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 661, name: "FnMut stdcall 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s661::make, inv: s661::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 662, name: "FnOnce stdcall 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s662::make, inv: s662::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 663, name: "Fn stdcall-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s663::make, inv: s663::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 664, name: "FnMut stdcall-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s664::make, inv: s664::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 665, name: "FnOnce stdcall-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s665::make, inv: s665::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 666, name: "Fn stdcall-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s666::make, inv: s666::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 667, name: "FnMut stdcall-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s667::make, inv: s667::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 668, name: "FnOnce stdcall-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s668::make, inv: s668::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 669, name: "Fn stdcall-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s669::make, inv: s669::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 670, name: "FnMut stdcall-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s670::make, inv: s670::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 671, name: "FnOnce stdcall-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s671::make, inv: s671::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 672, name: "Fn stdcall-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s672::make, inv: s672::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 673, name: "FnMut stdcall-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s673::make, inv: s673::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 674, name: "FnOnce stdcall-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s674::make, inv: s674::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 675, name: "Fn stdcall-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s675::make, inv: s675::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 676, name: "FnMut stdcall-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s676::make, inv: s676::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 677, name: "FnOnce stdcall-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s677::make, inv: s677::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 678, name: "Fn stdcall-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s678::make, inv: s678::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 679, name: "FnMut stdcall-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s679::make, inv: s679::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 680, name: "FnOnce stdcall-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s680::make, inv: s680::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 681, name: "Fn stdcall-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s681::make, inv: s681::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 682, name: "FnMut stdcall-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s682::make, inv: s682::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 683, name: "FnOnce stdcall-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s683::make, inv: s683::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 684, name: "Fn stdcall-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s684::make, inv: s684::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 685, name: "FnMut stdcall-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s685::make, inv: s685::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 686, name: "FnOnce stdcall-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s686::make, inv: s686::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 687, name: "Fn stdcall-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s687::make, inv: s687::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 688, name: "FnMut stdcall-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s688::make, inv: s688::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 689, name: "FnOnce stdcall-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s689::make, inv: s689::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 690, name: "Fn stdcall-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s690::make, inv: s690::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 691, name: "FnMut stdcall-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s691::make, inv: s691::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 692, name: "FnOnce stdcall-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s692::make, inv: s692::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 693, name: "Fn stdcall-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s693::make, inv: s693::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 694, name: "FnMut stdcall-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s694::make, inv: s694::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 695, name: "FnOnce stdcall-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s695::make, inv: s695::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 696, name: "Fn stdcall-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s696::make, inv: s696::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 697, name: "FnMut stdcall-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s697::make, inv: s697::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 698, name: "FnOnce stdcall-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s698::make, inv: s698::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 699, name: "Fn stdcall-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s699::make, inv: s699::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 700, name: "FnMut stdcall-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s700::make, inv: s700::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 701, name: "FnOnce stdcall-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s701::make, inv: s701::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 702, name: "Fn stdcall-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s702::make, inv: s702::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 703, name: "FnMut stdcall-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s703::make, inv: s703::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 704, name: "FnOnce stdcall-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s704::make, inv: s704::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 705, name: "Fn stdcall-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s705::make, inv: s705::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 706, name: "FnMut stdcall-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s706::make, inv: s706::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 707, name: "FnOnce stdcall-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s707::make, inv: s707::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 708, name: "Fn stdcall-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s708::make, inv: s708::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 709, name: "FnMut stdcall-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s709::make, inv: s709::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 710, name: "FnOnce stdcall-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s710::make, inv: s710::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 711, name: "Fn stdcall-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "stdcall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s711::make, inv: s711::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 712, name: "FnMut stdcall-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s712::make, inv: s712::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 713, name: "FnOnce stdcall-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s713::make, inv: s713::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 714, name: "Fn cdecl 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s714::make, inv: s714::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 715, name: "FnMut cdecl 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s715::make, inv: s715::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 716, name: "FnOnce cdecl 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s716::make, inv: s716::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 717, name: "Fn cdecl 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s717::make, inv: s717::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 718, name: "FnMut cdecl 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s718::make, inv: s718::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 719, name: "FnOnce cdecl 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s719::make, inv: s719::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 720, name: "Fn cdecl 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s720::make, inv: s720::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 721, name: "FnMut cdecl 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s721::make, inv: s721::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 722, name: "FnOnce cdecl 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s722::make, inv: s722::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 723, name: "Fn cdecl 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s723::make, inv: s723::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 724, name: "FnMut cdecl 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s724::make, inv: s724::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 725, name: "FnOnce cdecl 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s725::make, inv: s725::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 726, name: "Fn cdecl 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s726::make, inv: s726::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 727, name: "FnMut cdecl 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s727::make, inv: s727::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 728, name: "FnOnce cdecl 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s728::make, inv: s728::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 729, name: "Fn cdecl 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s729::make, inv: s729::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 730, name: "FnMut cdecl 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s730::make, inv: s730::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 731, name: "FnOnce cdecl 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s731::make, inv: s731::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 732, name: "Fn cdecl 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s732::make, inv: s732::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 733, name: "FnMut cdecl 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s733::make, inv: s733::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 734, name: "FnOnce cdecl 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s734::make, inv: s734::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 735, name: "Fn cdecl 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s735::make, inv: s735::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 736, name: "FnMut cdecl 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s736::make, inv: s736::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 737, name: "FnOnce cdecl 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s737::make, inv: s737::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 738, name: "Fn cdecl 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s738::make, inv: s738::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 739, name: "FnMut cdecl 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s739::make, inv: s739::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 740, name: "FnOnce cdecl 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s740::make, inv: s740::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 741, name: "Fn cdecl 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s741::make, inv: s741::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 742, name: "FnMut cdecl 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s742::make, inv: s742::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 743, name: "FnOnce cdecl 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s743::make, inv: s743::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 744, name: "Fn cdecl 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s744::make, inv: s744::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 745, name: "FnMut cdecl 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s745::make, inv: s745::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 746, name: "FnOnce cdecl 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s746::make, inv: s746::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 747, name: "Fn cdecl 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s747::make, inv: s747::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 748, name: "FnMut cdecl 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s748::make, inv: s748::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 749, name: "FnOnce cdecl 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s749::make, inv: s749::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 750, name: "Fn cdecl 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s750::make, inv: s750::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 751, name: "FnMut cdecl 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s751::make, inv: s751::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 752, name: "FnOnce cdecl 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s752::make, inv: s752::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 753, name: "Fn cdecl 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s753::make, inv: s753::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 754, name: "FnMut cdecl 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s754::make, inv: s754::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 755, name: "FnOnce cdecl 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s755::make, inv: s755::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 756, name: "Fn cdecl 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s756::make, inv: s756::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 757, name: "FnMut cdecl 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s757::make, inv: s757::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 758, name: "FnOnce cdecl 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s758::make, inv: s758::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 759, name: "Fn cdecl 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s759::make, inv: s759::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 760, name: "FnMut cdecl 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s760::make, inv: s760::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 761, name: "FnOnce cdecl 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s761::make, inv: s761::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 762, name: "Fn cdecl 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s762::make, inv: s762::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 763, name: "FnMut cdecl 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s763::make, inv: s763::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 764, name: "FnOnce cdecl 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s764::make, inv: s764::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 765, name: "Fn cdecl-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s765::make, inv: s765::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 766, name: "FnMut cdecl-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s766::make, inv: s766::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 767, name: "FnOnce cdecl-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s767::make, inv: s767::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 768, name: "Fn cdecl-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s768::make, inv: s768::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 769, name: "FnMut cdecl-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s769::make, inv: s769::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 770, name: "FnOnce cdecl-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s770::make, inv: s770::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 771, name: "Fn cdecl-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s771::make, inv: s771::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 772, name: "FnMut cdecl-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s772::make, inv: s772::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 773, name: "FnOnce cdecl-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s773::make, inv: s773::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 774, name: "Fn cdecl-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s774::make, inv: s774::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 775, name: "FnMut cdecl-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s775::make, inv: s775::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 776, name: "FnOnce cdecl-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s776::make, inv: s776::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 777, name: "Fn cdecl-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s777::make, inv: s777::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 778, name: "FnMut cdecl-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s778::make, inv: s778::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 779, name: "FnOnce cdecl-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s779::make, inv: s779::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 780, name: "Fn cdecl-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s780::make, inv: s780::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 781, name: "FnMut cdecl-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s781::make, inv: s781::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 782, name: "FnOnce cdecl-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s782::make, inv: s782::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 783, name: "Fn cdecl-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s783::make, inv: s783::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 784, name: "FnMut cdecl-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s784::make, inv: s784::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 785, name: "FnOnce cdecl-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s785::make, inv: s785::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 786, name: "Fn cdecl-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s786::make, inv: s786::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 787, name: "FnMut cdecl-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s787::make, inv: s787::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 788, name: "FnOnce cdecl-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s788::make, inv: s788::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 789, name: "Fn cdecl-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s789::make, inv: s789::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 790, name: "FnMut cdecl-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s790::make, inv: s790::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 791, name: "FnOnce cdecl-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s791::make, inv: s791::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 792, name: "Fn cdecl-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s792::make, inv: s792::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 793, name: "FnMut cdecl-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s793::make, inv: s793::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 794, name: "FnOnce cdecl-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s794::make, inv: s794::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 795, name: "Fn cdecl-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s795::make, inv: s795::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 796, name: "FnMut cdecl-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s796::make, inv: s796::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 797, name: "FnOnce cdecl-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s797::make, inv: s797::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 798, name: "Fn cdecl-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s798::make, inv: s798::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 799, name: "FnMut cdecl-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s799::make, inv: s799::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 800, name: "FnOnce cdecl-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s800::make, inv: s800::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 801, name: "Fn cdecl-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s801::make, inv: s801::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 802, name: "FnMut cdecl-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s802::make, inv: s802::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 803, name: "FnOnce cdecl-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s803::make, inv: s803::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 804, name: "Fn cdecl-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s804::make, inv: s804::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 805, name: "FnMut cdecl-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s805::make, inv: s805::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 806, name: "FnOnce cdecl-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s806::make, inv: s806::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 807, name: "Fn cdecl-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s807::make, inv: s807::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 808, name: "FnMut cdecl-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s808::make, inv: s808::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 809, name: "FnOnce cdecl-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s809::make, inv: s809::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 810, name: "Fn cdecl-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s810::make, inv: s810::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 811, name: "FnMut cdecl-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s811::make, inv: s811::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 812, name: "FnOnce cdecl-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s812::make, inv: s812::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 813, name: "Fn cdecl-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "cdecl-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s813::make, inv: s813::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 814, name: "FnMut cdecl-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s814::make, inv: s814::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 815, name: "FnOnce cdecl-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s815::make, inv: s815::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 816, name: "Fn thiscall 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s816::make, inv: s816::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 817, name: "FnMut thiscall 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s817::make, inv: s817::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 818, name: "FnOnce thiscall 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s818::make, inv: s818::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 819, name: "Fn thiscall 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s819::make, inv: s819::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 820, name: "FnMut thiscall 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s820::make, inv: s820::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 821, name: "FnOnce thiscall 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s821::make, inv: s821::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 822, name: "Fn thiscall 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s822::make, inv: s822::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 823, name: "FnMut thiscall 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s823::make, inv: s823::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 824, name: "FnOnce thiscall 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s824::make, inv: s824::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 825, name: "Fn thiscall 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s825::make, inv: s825::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 826, name: "FnMut thiscall 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s826::make, inv: s826::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 827, name: "FnOnce thiscall 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s827::make, inv: s827::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 828, name: "Fn thiscall 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s828::make, inv: s828::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 829, name: "FnMut thiscall 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s829::make, inv: s829::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 830, name: "FnOnce thiscall 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s830::make, inv: s830::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 831, name: "Fn thiscall 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s831::make, inv: s831::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 832, name: "FnMut thiscall 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s832::make, inv: s832::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 833, name: "FnOnce thiscall 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s833::make, inv: s833::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 834, name: "Fn thiscall 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s834::make, inv: s834::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 835, name: "FnMut thiscall 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s835::make, inv: s835::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 836, name: "FnOnce thiscall 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s836::make, inv: s836::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 837, name: "Fn thiscall 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s837::make, inv: s837::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 838, name: "FnMut thiscall 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s838::make, inv: s838::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 839, name: "FnOnce thiscall 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s839::make, inv: s839::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 840, name: "Fn thiscall 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s840::make, inv: s840::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 841, name: "FnMut thiscall 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s841::make, inv: s841::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 842, name: "FnOnce thiscall 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s842::make, inv: s842::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 843, name: "Fn thiscall 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s843::make, inv: s843::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 844, name: "FnMut thiscall 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s844::make, inv: s844::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 845, name: "FnOnce thiscall 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s845::make, inv: s845::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 846, name: "Fn thiscall 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s846::make, inv: s846::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 847, name: "FnMut thiscall 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s847::make, inv: s847::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 848, name: "FnOnce thiscall 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s848::make, inv: s848::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 849, name: "Fn thiscall 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s849::make, inv: s849::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 850, name: "FnMut thiscall 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s850::make, inv: s850::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 851, name: "FnOnce thiscall 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s851::make, inv: s851::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 852, name: "Fn thiscall 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s852::make, inv: s852::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 853, name: "FnMut thiscall 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s853::make, inv: s853::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 854, name: "FnOnce thiscall 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s854::make, inv: s854::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 855, name: "Fn thiscall 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s855::make, inv: s855::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 856, name: "FnMut thiscall 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s856::make, inv: s856::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 857, name: "FnOnce thiscall 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s857::make, inv: s857::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 858, name: "Fn thiscall 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s858::make, inv: s858::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 859, name: "FnMut thiscall 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s859::make, inv: s859::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 860, name: "FnOnce thiscall 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s860::make, inv: s860::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 861, name: "Fn thiscall 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s861::make, inv: s861::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 862, name: "FnMut thiscall 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s862::make, inv: s862::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 863, name: "FnOnce thiscall 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s863::make, inv: s863::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 864, name: "Fn thiscall 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s864::make, inv: s864::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 865, name: "FnMut thiscall 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s865::make, inv: s865::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 866, name: "FnOnce thiscall 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s866::make, inv: s866::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 867, name: "Fn thiscall-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s867::make, inv: s867::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 868, name: "FnMut thiscall-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s868::make, inv: s868::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 869, name: "FnOnce thiscall-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s869::make, inv: s869::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 870, name: "Fn thiscall-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s870::make, inv: s870::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 871, name: "FnMut thiscall-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s871::make, inv: s871::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 872, name: "FnOnce thiscall-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s872::make, inv: s872::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 873, name: "Fn thiscall-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s873::make, inv: s873::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 874, name: "FnMut thiscall-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s874::make, inv: s874::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 875, name: "FnOnce thiscall-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s875::make, inv: s875::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 876, name: "Fn thiscall-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s876::make, inv: s876::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 877, name: "FnMut thiscall-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s877::make, inv: s877::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 878, name: "FnOnce thiscall-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s878::make, inv: s878::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 879, name: "Fn thiscall-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s879::make, inv: s879::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 880, name: "FnMut thiscall-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s880::make, inv: s880::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 881, name: "FnOnce thiscall-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s881::make, inv: s881::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 882, name: "Fn thiscall-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s882::make, inv: s882::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 883, name: "FnMut thiscall-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s883::make, inv: s883::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 884, name: "FnOnce thiscall-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s884::make, inv: s884::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 885, name: "Fn thiscall-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s885::make, inv: s885::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 886, name: "FnMut thiscall-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s886::make, inv: s886::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 887, name: "FnOnce thiscall-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s887::make, inv: s887::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 888, name: "Fn thiscall-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s888::make, inv: s888::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 889, name: "FnMut thiscall-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s889::make, inv: s889::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 890, name: "FnOnce thiscall-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s890::make, inv: s890::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 891, name: "Fn thiscall-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s891::make, inv: s891::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 892, name: "FnMut thiscall-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s892::make, inv: s892::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 893, name: "FnOnce thiscall-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s893::make, inv: s893::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 894, name: "Fn thiscall-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s894::make, inv: s894::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 895, name: "FnMut thiscall-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s895::make, inv: s895::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 896, name: "FnOnce thiscall-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s896::make, inv: s896::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 897, name: "Fn thiscall-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s897::make, inv: s897::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 898, name: "FnMut thiscall-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s898::make, inv: s898::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 899, name: "FnOnce thiscall-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s899::make, inv: s899::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 900, name: "Fn thiscall-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s900::make, inv: s900::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 901, name: "FnMut thiscall-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s901::make, inv: s901::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 902, name: "FnOnce thiscall-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s902::make, inv: s902::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 903, name: "Fn thiscall-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s903::make, inv: s903::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 904, name: "FnMut thiscall-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s904::make, inv: s904::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 905, name: "FnOnce thiscall-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s905::make, inv: s905::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 906, name: "Fn thiscall-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s906::make, inv: s906::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 907, name: "FnMut thiscall-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s907::make, inv: s907::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 908, name: "FnOnce thiscall-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s908::make, inv: s908::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 909, name: "Fn thiscall-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s909::make, inv: s909::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 910, name: "FnMut thiscall-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s910::make, inv: s910::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 911, name: "FnOnce thiscall-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s911::make, inv: s911::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 912, name: "Fn thiscall-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s912::make, inv: s912::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 913, name: "FnMut thiscall-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s913::make, inv: s913::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 914, name: "FnOnce thiscall-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s914::make, inv: s914::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 915, name: "Fn thiscall-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "thiscall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s915::make, inv: s915::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 916, name: "FnMut thiscall-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s916::make, inv: s916::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 917, name: "FnOnce thiscall-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s917::make, inv: s917::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 918, name: "Fn aapcs 0 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s918::make, inv: s918::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 919, name: "FnMut aapcs 0 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s919::make, inv: s919::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 920, name: "FnOnce aapcs 0 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s920::make, inv: s920::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 921, name: "Fn aapcs 1 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s921::make, inv: s921::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 922, name: "FnMut aapcs 1 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s922::make, inv: s922::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 923, name: "FnOnce aapcs 1 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s923::make, inv: s923::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 924, name: "Fn aapcs 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s924::make, inv: s924::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 925, name: "FnMut aapcs 2 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s925::make, inv: s925::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 926, name: "FnOnce aapcs 2 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s926::make, inv: s926::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 927, name: "Fn aapcs 3 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s927::make, inv: s927::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 928, name: "FnMut aapcs 3 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s928::make, inv: s928::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 929, name: "FnOnce aapcs 3 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s929::make, inv: s929::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 930, name: "Fn aapcs 4 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s930::make, inv: s930::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 931, name: "FnMut aapcs 4 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s931::make, inv: s931::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 932, name: "FnOnce aapcs 4 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s932::make, inv: s932::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 933, name: "Fn aapcs 5 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s933::make, inv: s933::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 934, name: "FnMut aapcs 5 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s934::make, inv: s934::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 935, name: "FnOnce aapcs 5 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s935::make, inv: s935::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 936, name: "Fn aapcs 6 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s936::make, inv: s936::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 937, name: "FnMut aapcs 6 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 6, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s937::make, inv: s937::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 938, name: "FnOnce aapcs 6 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s938::make, inv: s938::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 939, name: "Fn aapcs 7 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 7, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s939::make, inv: s939::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 940, name: "FnMut aapcs 7 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s940::make, inv: s940::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 941, name: "FnOnce aapcs 7 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s941::make, inv: s941::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 942, name: "Fn aapcs 8 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s942::make, inv: s942::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 943, name: "FnMut aapcs 8 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s943::make, inv: s943::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 944, name: "FnOnce aapcs 8 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s944::make, inv: s944::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 945, name: "Fn aapcs 9 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s945::make, inv: s945::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 946, name: "FnMut aapcs 9 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s946::make, inv: s946::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 947, name: "FnOnce aapcs 9 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s947::make, inv: s947::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 948, name: "Fn aapcs 10 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s948::make, inv: s948::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 949, name: "FnMut aapcs 10 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s949::make, inv: s949::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 950, name: "FnOnce aapcs 10 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s950::make, inv: s950::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 951, name: "Fn aapcs 11 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s951::make, inv: s951::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 952, name: "FnMut aapcs 11 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s952::make, inv: s952::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 953, name: "FnOnce aapcs 11 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s953::make, inv: s953::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 954, name: "Fn aapcs 12 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s954::make, inv: s954::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 955, name: "FnMut aapcs 12 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s955::make, inv: s955::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 956, name: "FnOnce aapcs 12 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX, make: s956::make, inv: s956::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 957, name: "Fn aapcs 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s957::make, inv: s957::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 958, name: "FnMut aapcs 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s958::make, inv: s958::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 959, name: "FnOnce aapcs 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s959::make, inv: s959::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 960, name: "Fn aapcs 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s960::make, inv: s960::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 961, name: "FnMut aapcs 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s961::make, inv: s961::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 962, name: "FnOnce aapcs 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s962::make, inv: s962::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 963, name: "Fn aapcs 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s963::make, inv: s963::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 964, name: "FnMut aapcs 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s964::make, inv: s964::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 965, name: "FnOnce aapcs 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s965::make, inv: s965::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 966, name: "Fn aapcs 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s966::make, inv: s966::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 967, name: "FnMut aapcs 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s967::make, inv: s967::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 968, name: "FnOnce aapcs 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s968::make, inv: s968::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 969, name: "Fn aapcs-unwind 0 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s969::make, inv: s969::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 970, name: "FnMut aapcs-unwind 0 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s970::make, inv: s970::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 971, name: "FnOnce aapcs-unwind 0 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s971::make, inv: s971::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 972, name: "Fn aapcs-unwind 1 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s972::make, inv: s972::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 973, name: "FnMut aapcs-unwind 1 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s973::make, inv: s973::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 974, name: "FnOnce aapcs-unwind 1 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s974::make, inv: s974::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 975, name: "Fn aapcs-unwind 2 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s975::make, inv: s975::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 976, name: "FnMut aapcs-unwind 2 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s976::make, inv: s976::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 977, name: "FnOnce aapcs-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s977::make, inv: s977::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 978, name: "Fn aapcs-unwind 3 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s978::make, inv: s978::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 979, name: "FnMut aapcs-unwind 3 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s979::make, inv: s979::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 980, name: "FnOnce aapcs-unwind 3 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s980::make, inv: s980::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 981, name: "Fn aapcs-unwind 4 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s981::make, inv: s981::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 982, name: "FnMut aapcs-unwind 4 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s982::make, inv: s982::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 983, name: "FnOnce aapcs-unwind 4 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s983::make, inv: s983::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 984, name: "Fn aapcs-unwind 5 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s984::make, inv: s984::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 985, name: "FnMut aapcs-unwind 5 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s985::make, inv: s985::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 986, name: "FnOnce aapcs-unwind 5 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s986::make, inv: s986::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 987, name: "Fn aapcs-unwind 6 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 6, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s987::make, inv: s987::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 988, name: "FnMut aapcs-unwind 6 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s988::make, inv: s988::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 989, name: "FnOnce aapcs-unwind 6 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s989::make, inv: s989::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 990, name: "Fn aapcs-unwind 7 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s990::make, inv: s990::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 991, name: "FnMut aapcs-unwind 7 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s991::make, inv: s991::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 992, name: "FnOnce aapcs-unwind 7 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s992::make, inv: s992::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 993, name: "Fn aapcs-unwind 8 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s993::make, inv: s993::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 994, name: "FnMut aapcs-unwind 8 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s994::make, inv: s994::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 995, name: "FnOnce aapcs-unwind 8 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s995::make, inv: s995::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 996, name: "Fn aapcs-unwind 9 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s996::make, inv: s996::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 997, name: "FnMut aapcs-unwind 9 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s997::make, inv: s997::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 998, name: "FnOnce aapcs-unwind 9 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s998::make, inv: s998::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 999, name: "Fn aapcs-unwind 10 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 10, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s999::make, inv: s999::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1000, name: "FnMut aapcs-unwind 10 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s1000::make, inv: s1000::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1001, name: "FnOnce aapcs-unwind 10 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s1001::make, inv: s1001::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1002, name: "Fn aapcs-unwind 11 Cap try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s1002::make, inv: s1002::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1003, name: "FnMut aapcs-unwind 11 Small try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 11, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s1003::make, inv: s1003::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1004, name: "FnOnce aapcs-unwind 11 Over try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s1004::make, inv: s1004::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1005, name: "Fn aapcs-unwind 12 Plain try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s1005::make, inv: s1005::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1006, name: "FnMut aapcs-unwind 12 Wide try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX, make: s1006::make, inv: s1006::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1007, name: "FnOnce aapcs-unwind 12 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX, make: s1007::make, inv: s1007::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1008, name: "Fn aapcs-unwind 0 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1008::make, inv: s1008::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1009, name: "FnMut aapcs-unwind 0 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1009::make, inv: s1009::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1010, name: "FnOnce aapcs-unwind 0 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 0, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1010::make, inv: s1010::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1011, name: "Fn aapcs-unwind 2 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s1011::make, inv: s1011::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1012, name: "FnMut aapcs-unwind 2 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1012::make, inv: s1012::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1013, name: "FnOnce aapcs-unwind 2 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 2, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s1013::make, inv: s1013::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1014, name: "Fn aapcs-unwind 7 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1014::make, inv: s1014::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1015, name: "FnMut aapcs-unwind 7 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s1015::make, inv: s1015::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1016, name: "FnOnce aapcs-unwind 7 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 7, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1016::make, inv: s1016::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1017, name: "Fn aapcs-unwind 12 ZstD try_with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s1017::make, inv: s1017::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1018, name: "FnMut aapcs-unwind 12 ZstD try_with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::MATRIX | fam::ZST, make: s1018::make, inv: s1018::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1019, name: "FnOnce aapcs-unwind 12 Zst try_with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 12, zst: true, tracked: false, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::MATRIX | fam::ZST, make: s1019::make, inv: s1019::inv },
     Shape { sid: 1020, name: "Fn Rust 2 Cap with_cc_in", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1020::make, inv: s1020::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1021, name: "Fn Rust 3 Small new_in", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1021::make, inv: s1021::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1022, name: "Fn Rust 4 Over with_thunk_in", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1022::make, inv: s1022::inv },
     Shape { sid: 1023, name: "Fn Rust 1 Plain try_with_thunk_in", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1023::make, inv: s1023::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1024, name: "Fn Rust 2 ZstD (short new_rust_in)", kind: Kind::Fn, cc: "Rust", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1024::make, inv: s1024::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1025, name: "FnMut Rust 3 Cap with_cc_in", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1025::make, inv: s1025::inv },
     Shape { sid: 1026, name: "FnMut Rust 4 Cap new_in", kind: Kind::FnMut, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1026::make, inv: s1026::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1027, name: "FnMut Rust 1 Small with_thunk_in", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1027::make, inv: s1027::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1028, name: "FnMut Rust 2 Over try_with_thunk_in", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1028::make, inv: s1028::inv },
     Shape { sid: 1029, name: "FnMut Rust 3 ZstD (short new_rust_in)", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1029::make, inv: s1029::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1030, name: "FnOnce Rust 4 Wide with_cc_in", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1030::make, inv: s1030::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1031, name: "FnOnce Rust 1 Cap new_in", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1031::make, inv: s1031::inv },
     Shape { sid: 1032, name: "FnOnce Rust 2 Cap with_thunk_in", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1032::make, inv: s1032::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1033, name: "FnOnce Rust 3 Small try_with_thunk_in", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1033::make, inv: s1033::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1034, name: "FnOnce Rust 4 ZstD (short new_rust_in)", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1034::make, inv: s1034::inv },
     Shape { sid: 1035, name: "Fn C 1 Plain with_cc_in", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1035::make, inv: s1035::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1036, name: "Fn C 2 Wide new_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1036::make, inv: s1036::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1037, name: "Fn C 3 Cap with_thunk_in", kind: Kind::Fn, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1037::make, inv: s1037::inv },
     Shape { sid: 1038, name: "Fn C 4 Cap try_with_thunk_in", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1038::make, inv: s1038::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1039, name: "Fn C 1 ZstD (short new_c_in)", kind: Kind::Fn, cc: "C", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1039::make, inv: s1039::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1040, name: "FnMut C 2 Over with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1040::make, inv: s1040::inv },
     Shape { sid: 1041, name: "FnMut C 3 Plain new_in", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1041::make, inv: s1041::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1042, name: "FnMut C 4 Wide with_thunk_in", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1042::make, inv: s1042::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1043, name: "FnMut C 1 Cap try_with_thunk_in", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1043::make, inv: s1043::inv },
     Shape { sid: 1044, name: "FnMut C 2 ZstD (short new_c_in)", kind: Kind::FnMut, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1044::make, inv: s1044::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1045, name: "FnOnce C 3 Small with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1045::make, inv: s1045::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1046, name: "FnOnce C 4 Over new_in", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1046::make, inv: s1046::inv },
     Shape { sid: 1047, name: "FnOnce C 1 Plain with_thunk_in", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1047::make, inv: s1047::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1048, name: "FnOnce C 2 Wide try_with_thunk_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1048::make, inv: s1048::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1049, name: "FnOnce C 3 ZstD (short new_c_in)", kind: Kind::FnOnce, cc: "C", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1049::make, inv: s1049::inv },
     Shape { sid: 1050, name: "Fn C-unwind 4 Cap with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1050::make, inv: s1050::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1051, name: "Fn C-unwind 1 Small new_in", kind: Kind::Fn, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1051::make, inv: s1051::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1052, name: "Fn C-unwind 2 Over with_thunk_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1052::make, inv: s1052::inv },
     Shape { sid: 1053, name: "Fn C-unwind 3 Plain try_with_thunk_in", kind: Kind::Fn, cc: "C-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1053::make, inv: s1053::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1054, name: "FnMut C-unwind 4 ZstD with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1054::make, inv: s1054::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1055, name: "FnMut C-unwind 1 Cap new_in", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1055::make, inv: s1055::inv },
     Shape { sid: 1056, name: "FnMut C-unwind 2 Cap with_thunk_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1056::make, inv: s1056::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1057, name: "FnMut C-unwind 3 Small try_with_thunk_in", kind: Kind::FnMut, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1057::make, inv: s1057::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1058, name: "FnOnce C-unwind 4 Over with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1058::make, inv: s1058::inv },
     Shape { sid: 1059, name: "FnOnce C-unwind 1 ZstD new_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1059::make, inv: s1059::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1060, name: "FnOnce C-unwind 2 Wide with_thunk_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1060::make, inv: s1060::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1061, name: "FnOnce C-unwind 3 Cap try_with_thunk_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1061::make, inv: s1061::inv },
     Shape { sid: 1062, name: "Fn system 4 Cap with_cc_in", kind: Kind::Fn, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1062::make, inv: s1062::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1063, name: "Fn system 1 Small new_in", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1063::make, inv: s1063::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1064, name: "Fn system 2 ZstD with_thunk_in", kind: Kind::Fn, cc: "system", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1064::make, inv: s1064::inv },
     Shape { sid: 1065, name: "Fn system 3 Plain try_with_thunk_in", kind: Kind::Fn, cc: "system", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1065::make, inv: s1065::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1066, name: "Fn system 4 Wide (short new_system_in)", kind: Kind::Fn, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1066::make, inv: s1066::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1067, name: "FnMut system 1 Cap with_cc_in", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1067::make, inv: s1067::inv },
     Shape { sid: 1068, name: "FnMut system 2 Cap new_in", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1068::make, inv: s1068::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1069, name: "FnMut system 3 ZstD with_thunk_in", kind: Kind::FnMut, cc: "system", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1069::make, inv: s1069::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1070, name: "FnMut system 4 Over try_with_thunk_in", kind: Kind::FnMut, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1070::make, inv: s1070::inv },
     Shape { sid: 1071, name: "FnMut system 1 Plain (short new_system_in)", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1071::make, inv: s1071::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1072, name: "FnOnce system 2 Wide with_cc_in", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1072::make, inv: s1072::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1073, name: "FnOnce system 3 Cap new_in", kind: Kind::FnOnce, cc: "system", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1073::make, inv: s1073::inv },
     Shape { sid: 1074, name: "FnOnce system 4 ZstD with_thunk_in", kind: Kind::FnOnce, cc: "system", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1074::make, inv: s1074::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1075, name: "FnOnce system 1 Small try_with_thunk_in", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1075::make, inv: s1075::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1076, name: "FnOnce system 2 Over (short new_system_in)", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1076::make, inv: s1076::inv },
     Shape { sid: 1077, name: "Fn system-unwind 3 Plain with_cc_in", kind: Kind::Fn, cc: "system-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1077::make, inv: s1077::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1078, name: "Fn system-unwind 4 Wide new_in", kind: Kind::Fn, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1078::make, inv: s1078::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1079, name: "Fn system-unwind 1 ZstD with_thunk_in", kind: Kind::Fn, cc: "system-unwind", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1079::make, inv: s1079::inv },
     Shape { sid: 1080, name: "Fn system-unwind 2 Cap try_with_thunk_in", kind: Kind::Fn, cc: "system-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1080::make, inv: s1080::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1081, name: "FnMut system-unwind 3 Small with_cc_in", kind: Kind::FnMut, cc: "system-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1081::make, inv: s1081::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1082, name: "FnMut system-unwind 4 Over new_in", kind: Kind::FnMut, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1082::make, inv: s1082::inv },
     Shape { sid: 1083, name: "FnMut system-unwind 1 Plain with_thunk_in", kind: Kind::FnMut, cc: "system-unwind", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1083::make, inv: s1083::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1084, name: "FnMut system-unwind 2 ZstD try_with_thunk_in", kind: Kind::FnMut, cc: "system-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR | fam::ZST, make: s1084::make, inv: s1084::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1085, name: "FnOnce system-unwind 3 Cap with_cc_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1085::make, inv: s1085::inv },
     Shape { sid: 1086, name: "FnOnce system-unwind 4 Cap new_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1086::make, inv: s1086::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1087, name: "FnOnce system-unwind 1 Small with_thunk_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1087::make, inv: s1087::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1088, name: "FnOnce system-unwind 2 Over try_with_thunk_in", kind: Kind::FnOnce, cc: "system-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1088::make, inv: s1088::inv },
     Shape { sid: 1089, name: "Fn efiapi 3 ZstD with_cc_in", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1089::make, inv: s1089::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1090, name: "Fn efiapi 4 Wide new_in", kind: Kind::Fn, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1090::make, inv: s1090::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1091, name: "Fn efiapi 1 Cap with_thunk_in", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1091::make, inv: s1091::inv },
     Shape { sid: 1092, name: "Fn efiapi 2 Cap try_with_thunk_in", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1092::make, inv: s1092::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1093, name: "Fn efiapi 3 Small (short new_efiabi_in)", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1093::make, inv: s1093::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1094, name: "FnMut efiapi 4 ZstD with_cc_in", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1094::make, inv: s1094::inv },
     Shape { sid: 1095, name: "FnMut efiapi 1 Plain new_in", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1095::make, inv: s1095::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1096, name: "FnMut efiapi 2 Wide with_thunk_in", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1096::make, inv: s1096::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1097, name: "FnMut efiapi 3 Cap try_with_thunk_in", kind: Kind::FnMut, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1097::make, inv: s1097::inv },
     Shape { sid: 1098, name: "FnMut efiapi 4 Cap (short new_efiabi_in)", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1098::make, inv: s1098::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1099, name: "FnOnce efiapi 1 ZstD with_cc_in", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1099::make, inv: s1099::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1100, name: "FnOnce efiapi 2 Over new_in", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1100::make, inv: s1100::inv },
     Shape { sid: 1101, name: "FnOnce efiapi 3 Plain with_thunk_in", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1101::make, inv: s1101::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1102, name: "FnOnce efiapi 4 Wide try_with_thunk_in", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1102::make, inv: s1102::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1103, name: "FnOnce efiapi 1 Cap (short new_efiabi_in)", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1103::make, inv: s1103::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1104, name: "Fn sysv64 2 ZstD with_cc_in", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1104::make, inv: s1104::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1105, name: "Fn sysv64 3 Small new_in", kind: Kind::Fn, cc: "sysv64", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1105::make, inv: s1105::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1106, name: "Fn sysv64 4 Over with_thunk_in", kind: Kind::Fn, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1106::make, inv: s1106::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1107, name: "Fn sysv64 1 Plain try_with_thunk_in", kind: Kind::Fn, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1107::make, inv: s1107::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1108, name: "Fn sysv64 2 Wide (short new_sysv64_in)", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1108::make, inv: s1108::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1109, name: "FnMut sysv64 3 ZstD with_cc_in", kind: Kind::FnMut, cc: "sysv64", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1109::make, inv: s1109::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1110, name: "FnMut sysv64 4 Cap new_in", kind: Kind::FnMut, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1110::make, inv: s1110::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1111, name: "FnMut sysv64 1 Small with_thunk_in", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1111::make, inv: s1111::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1112, name: "FnMut sysv64 2 Over try_with_thunk_in", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1112::make, inv: s1112::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1113, name: "FnMut sysv64 3 Plain (short new_sysv64_in)", kind: Kind::FnMut, cc: "sysv64", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1113::make, inv: s1113::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1114, name: "FnOnce sysv64 4 ZstD with_cc_in", kind: Kind::FnOnce, cc: "sysv64", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1114::make, inv: s1114::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1115, name: "FnOnce sysv64 1 Cap new_in", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1115::make, inv: s1115::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1116, name: "FnOnce sysv64 2 Cap with_thunk_in", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1116::make, inv: s1116::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1117, name: "FnOnce sysv64 3 Small try_with_thunk_in", kind: Kind::FnOnce, cc: "sysv64", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1117::make, inv: s1117::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1118, name: "FnOnce sysv64 4 Over (short new_sysv64_in)", kind: Kind::FnOnce, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1118::make, inv: s1118::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1119, name: "Fn sysv64-unwind 1 ZstD with_cc_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1119::make, inv: s1119::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1120, name: "Fn sysv64-unwind 2 Wide new_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1120::make, inv: s1120::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1121, name: "Fn sysv64-unwind 3 Cap with_thunk_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1121::make, inv: s1121::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1122, name: "Fn sysv64-unwind 4 Cap try_with_thunk_in", kind: Kind::Fn, cc: "sysv64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1122::make, inv: s1122::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1123, name: "FnMut sysv64-unwind 1 Small with_cc_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1123::make, inv: s1123::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1124, name: "FnMut sysv64-unwind 2 ZstD new_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1124::make, inv: s1124::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1125, name: "FnMut sysv64-unwind 3 Plain with_thunk_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1125::make, inv: s1125::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1126, name: "FnMut sysv64-unwind 4 Wide try_with_thunk_in", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1126::make, inv: s1126::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1127, name: "FnOnce sysv64-unwind 1 Cap with_cc_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1127::make, inv: s1127::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1128, name: "FnOnce sysv64-unwind 2 Cap new_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1128::make, inv: s1128::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1129, name: "FnOnce sysv64-unwind 3 ZstD with_thunk_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1129::make, inv: s1129::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1130, name: "FnOnce sysv64-unwind 4 Over try_with_thunk_in", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1130::make, inv: s1130::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1131, name: "Fn win64 1 Plain with_cc_in", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1131::make, inv: s1131::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1132, name: "Fn win64 2 Wide new_in", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1132::make, inv: s1132::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1133, name: "Fn win64 3 Cap with_thunk_in", kind: Kind::Fn, cc: "win64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1133::make, inv: s1133::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1134, name: "Fn win64 4 ZstD try_with_thunk_in", kind: Kind::Fn, cc: "win64", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR | fam::ZST, make: s1134::make, inv: s1134::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1135, name: "FnMut win64 1 Small with_cc_in", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1135::make, inv: s1135::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1136, name: "FnMut win64 2 Over new_in", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1136::make, inv: s1136::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1137, name: "FnMut win64 3 Plain with_thunk_in", kind: Kind::FnMut, cc: "win64", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1137::make, inv: s1137::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1138, name: "FnMut win64 4 Wide try_with_thunk_in", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1138::make, inv: s1138::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1139, name: "FnOnce win64 1 ZstD with_cc_in", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1139::make, inv: s1139::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1140, name: "FnOnce win64 2 Cap new_in", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1140::make, inv: s1140::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1141, name: "FnOnce win64 3 Small with_thunk_in", kind: Kind::FnOnce, cc: "win64", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1141::make, inv: s1141::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1142, name: "FnOnce win64 4 Over try_with_thunk_in", kind: Kind::FnOnce, cc: "win64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1142::make, inv: s1142::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1143, name: "Fn win64-unwind 1 Plain with_cc_in", kind: Kind::Fn, cc: "win64-unwind", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1143::make, inv: s1143::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1144, name: "Fn win64-unwind 2 ZstD new_in", kind: Kind::Fn, cc: "win64-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1144::make, inv: s1144::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1145, name: "Fn win64-unwind 3 Cap with_thunk_in", kind: Kind::Fn, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1145::make, inv: s1145::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1146, name: "Fn win64-unwind 4 Cap try_with_thunk_in", kind: Kind::Fn, cc: "win64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1146::make, inv: s1146::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1147, name: "FnMut win64-unwind 1 Small with_cc_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1147::make, inv: s1147::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1148, name: "FnMut win64-unwind 2 Over new_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1148::make, inv: s1148::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1149, name: "FnMut win64-unwind 3 ZstD with_thunk_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR | fam::ZST, make: s1149::make, inv: s1149::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1150, name: "FnMut win64-unwind 4 Wide try_with_thunk_in", kind: Kind::FnMut, cc: "win64-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR, make: s1150::make, inv: s1150::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1151, name: "FnOnce win64-unwind 1 Cap with_cc_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1151::make, inv: s1151::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1152, name: "FnOnce win64-unwind 2 Cap new_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1152::make, inv: s1152::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1153, name: "FnOnce win64-unwind 3 Small with_thunk_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1153::make, inv: s1153::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1154, name: "FnOnce win64-unwind 4 ZstD try_with_thunk_in", kind: Kind::FnOnce, cc: "win64-unwind", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::CTOR | fam::ZST, make: s1154::make, inv: s1154::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1155, name: "Fn cdecl 1 Plain with_cc_in", kind: Kind::Fn, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1155::make, inv: s1155::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1156, name: "Fn cdecl 2 Wide new_in", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1156::make, inv: s1156::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1157, name: "Fn cdecl 3 Cap with_thunk_in", kind: Kind::Fn, cc: "cdecl", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1157::make, inv: s1157::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1158, name: "Fn cdecl 4 Cap try_with_thunk_in", kind: Kind::Fn, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1158::make, inv: s1158::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1159, name: "FnMut cdecl 1 ZstD with_cc_in", kind: Kind::FnMut, cc: "cdecl", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1159::make, inv: s1159::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1160, name: "FnMut cdecl 2 Over new_in", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1160::make, inv: s1160::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1161, name: "FnMut cdecl 3 Plain with_thunk_in", kind: Kind::FnMut, cc: "cdecl", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1161::make, inv: s1161::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1162, name: "FnMut cdecl 4 Wide try_with_thunk_in", kind: Kind::FnMut, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1162::make, inv: s1162::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1163, name: "FnOnce cdecl 1 Cap with_cc_in", kind: Kind::FnOnce, cc: "cdecl", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1163::make, inv: s1163::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1164, name: "FnOnce cdecl 2 ZstD new_in", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1164::make, inv: s1164::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1165, name: "FnOnce cdecl 3 Small with_thunk_in", kind: Kind::FnOnce, cc: "cdecl", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1165::make, inv: s1165::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1166, name: "FnOnce cdecl 4 Over try_with_thunk_in", kind: Kind::FnOnce, cc: "cdecl", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1166::make, inv: s1166::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1167, name: "Fn aapcs 1 Plain with_cc_in", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1167::make, inv: s1167::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1168, name: "Fn aapcs 2 Wide new_in", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1168::make, inv: s1168::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1169, name: "Fn aapcs 3 ZstD with_thunk_in", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1169::make, inv: s1169::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1170, name: "Fn aapcs 4 Cap try_with_thunk_in", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1170::make, inv: s1170::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1171, name: "Fn aapcs 1 Small (short new_aapcs_in)", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1171::make, inv: s1171::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1172, name: "FnMut aapcs 2 Over with_cc_in", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1172::make, inv: s1172::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1173, name: "FnMut aapcs 3 Plain new_in", kind: Kind::FnMut, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1173::make, inv: s1173::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1174, name: "FnMut aapcs 4 ZstD with_thunk_in", kind: Kind::FnMut, cc: "aapcs", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1174::make, inv: s1174::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1175, name: "FnMut aapcs 1 Cap try_with_thunk_in", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1175::make, inv: s1175::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1176, name: "FnMut aapcs 2 Cap (short new_aapcs_in)", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1176::make, inv: s1176::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1177, name: "FnOnce aapcs 3 Small with_cc_in", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1177::make, inv: s1177::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1178, name: "FnOnce aapcs 4 Over new_in", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1178::make, inv: s1178::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1179, name: "FnOnce aapcs 1 ZstD with_thunk_in", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1179::make, inv: s1179::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1180, name: "FnOnce aapcs 2 Wide try_with_thunk_in", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::CTOR, make: s1180::make, inv: s1180::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1181, name: "FnOnce aapcs 3 Cap (short new_aapcs_in)", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::CTOR, make: s1181::make, inv: s1181::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1182, name: "Fn aapcs-unwind 4 Cap with_cc_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1182::make, inv: s1182::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1183, name: "Fn aapcs-unwind 1 Small new_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1183::make, inv: s1183::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1184, name: "Fn aapcs-unwind 2 ZstD with_thunk_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR | fam::ZST, make: s1184::make, inv: s1184::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1185, name: "Fn aapcs-unwind 3 Plain try_with_thunk_in", kind: Kind::Fn, cc: "aapcs-unwind", arity: 3, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1185::make, inv: s1185::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1186, name: "FnMut aapcs-unwind 4 Wide with_cc_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1186::make, inv: s1186::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1187, name: "FnMut aapcs-unwind 1 Cap new_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1187::make, inv: s1187::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1188, name: "FnMut aapcs-unwind 2 Cap with_thunk_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1188::make, inv: s1188::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1189, name: "FnMut aapcs-unwind 3 ZstD try_with_thunk_in", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR | fam::ZST, make: s1189::make, inv: s1189::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1190, name: "FnOnce aapcs-unwind 4 Over with_cc_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1190::make, inv: s1190::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1191, name: "FnOnce aapcs-unwind 1 Plain new_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 1, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::CTOR, make: s1191::make, inv: s1191::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1192, name: "FnOnce aapcs-unwind 2 Wide with_thunk_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::CTOR, make: s1192::make, inv: s1192::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1193, name: "FnOnce aapcs-unwind 3 Cap try_with_thunk_in", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: true, fam: fam::CTOR, make: s1193::make, inv: s1193::inv },
     Shape { sid: 1194, name: "Fn C 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1194::make, inv: s1194::inv },
     Shape { sid: 1195, name: "Fn C-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1195::make, inv: s1195::inv },
     Shape { sid: 1196, name: "Fn C 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1196::make, inv: s1196::inv },
     Shape { sid: 1197, name: "Fn C-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1197::make, inv: s1197::inv },
     Shape { sid: 1198, name: "Fn C 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1198::make, inv: s1198::inv },
     Shape { sid: 1199, name: "Fn C-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1199::make, inv: s1199::inv },
     Shape { sid: 1200, name: "Fn C 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1200::make, inv: s1200::inv },
     Shape { sid: 1201, name: "Fn C-unwind 2 Cap try_with_cc_in", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1201::make, inv: s1201::inv },
     Shape { sid: 1202, name: "FnMut C 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1202::make, inv: s1202::inv },
     Shape { sid: 1203, name: "FnMut C-unwind 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1203::make, inv: s1203::inv },
     Shape { sid: 1204, name: "FnMut C 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1204::make, inv: s1204::inv },
     Shape { sid: 1205, name: "FnMut C-unwind 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1205::make, inv: s1205::inv },
     Shape { sid: 1206, name: "FnMut C 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1206::make, inv: s1206::inv },
     Shape { sid: 1207, name: "FnMut C-unwind 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1207::make, inv: s1207::inv },
     Shape { sid: 1208, name: "FnMut C 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1208::make, inv: s1208::inv },
     Shape { sid: 1209, name: "FnMut C-unwind 2 Cap try_with_cc_in", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1209::make, inv: s1209::inv },
     Shape { sid: 1210, name: "FnOnce C 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1210::make, inv: s1210::inv },
     Shape { sid: 1211, name: "FnOnce C-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1211::make, inv: s1211::inv },
     Shape { sid: 1212, name: "FnOnce C 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1212::make, inv: s1212::inv },
     Shape { sid: 1213, name: "FnOnce C-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1213::make, inv: s1213::inv },
     Shape { sid: 1214, name: "FnOnce C 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1214::make, inv: s1214::inv },
     Shape { sid: 1215, name: "FnOnce C-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1215::make, inv: s1215::inv },
     Shape { sid: 1216, name: "FnOnce C 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::BOUND, make: s1216::make, inv: s1216::inv },
     Shape { sid: 1217, name: "FnOnce C-unwind 2 Cap try_with_cc_in", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::BOUND, make: s1217::make, inv: s1217::inv },
     Shape { sid: 1218, name: "Fn C 1 Cap (factory make)", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1218::make, inv: s1218::inv },
     Shape { sid: 1219, name: "Fn C-unwind 2 Small (factory make)", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1219::make, inv: s1219::inv },
     Shape { sid: 1220, name: "Fn Rust 3 Over (factory make)", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1220::make, inv: s1220::inv },
     Shape { sid: 1221, name: "Fn C 4 Plain (factory make_send)", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1221::make, inv: s1221::inv },
     Shape { sid: 1222, name: "Fn C-unwind 5 Wide (factory make_send)", kind: Kind::Fn, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1222::make, inv: s1222::inv },
     Shape { sid: 1223, name: "Fn Rust 0 ZstD (factory make_send)", kind: Kind::Fn, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1223::make, inv: s1223::inv },
     Shape { sid: 1224, name: "Fn C 1 Cap (factory make_sync)", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1224::make, inv: s1224::inv },
     Shape { sid: 1225, name: "Fn C-unwind 2 Small (factory make_sync)", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1225::make, inv: s1225::inv },
     Shape { sid: 1226, name: "Fn Rust 3 Over (factory make_sync)", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1226::make, inv: s1226::inv },
     Shape { sid: 1227, name: "Fn C 4 Plain (factory make_send_sync)", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1227::make, inv: s1227::inv },
     Shape { sid: 1228, name: "Fn C-unwind 5 Wide (factory make_send_sync)", kind: Kind::Fn, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1228::make, inv: s1228::inv },
     Shape { sid: 1229, name: "Fn Rust 0 ZstD (factory make_send_sync)", kind: Kind::Fn, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1229::make, inv: s1229::inv },
     Shape { sid: 1230, name: "FnMut C 1 Cap (factory make_mut)", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1230::make, inv: s1230::inv },
     Shape { sid: 1231, name: "FnMut C-unwind 2 Small (factory make_mut)", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1231::make, inv: s1231::inv },
     Shape { sid: 1232, name: "FnMut Rust 3 Over (factory make_mut)", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1232::make, inv: s1232::inv },
     Shape { sid: 1233, name: "FnMut C 4 Plain (factory make_mut_send)", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1233::make, inv: s1233::inv },
     Shape { sid: 1234, name: "FnMut C-unwind 5 Wide (factory make_mut_send)", kind: Kind::FnMut, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1234::make, inv: s1234::inv },
     Shape { sid: 1235, name: "FnMut Rust 0 ZstD (factory make_mut_send)", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1235::make, inv: s1235::inv },
     Shape { sid: 1236, name: "FnMut C 1 Cap (factory make_mut_sync)", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1236::make, inv: s1236::inv },
     Shape { sid: 1237, name: "FnMut C-unwind 2 Small (factory make_mut_sync)", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1237::make, inv: s1237::inv },
     Shape { sid: 1238, name: "FnMut Rust 3 Over (factory make_mut_sync)", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1238::make, inv: s1238::inv },
     Shape { sid: 1239, name: "FnMut C 4 Plain (factory make_mut_send_sync)", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1239::make, inv: s1239::inv },
     Shape { sid: 1240, name: "FnMut C-unwind 5 Wide (factory make_mut_send_sync)", kind: Kind::FnMut, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1240::make, inv: s1240::inv },
     Shape { sid: 1241, name: "FnMut Rust 0 ZstD (factory make_mut_send_sync)", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1241::make, inv: s1241::inv },
     Shape { sid: 1242, name: "FnOnce C 1 Cap (factory make_once)", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1242::make, inv: s1242::inv },
     Shape { sid: 1243, name: "FnOnce C-unwind 2 Small (factory make_once)", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1243::make, inv: s1243::inv },
     Shape { sid: 1244, name: "FnOnce Rust 3 Over (factory make_once)", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1244::make, inv: s1244::inv },
     Shape { sid: 1245, name: "FnOnce C 4 Plain (factory make_once_send)", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1245::make, inv: s1245::inv },
     Shape { sid: 1246, name: "FnOnce C-unwind 5 Wide (factory make_once_send)", kind: Kind::FnOnce, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1246::make, inv: s1246::inv },
     Shape { sid: 1247, name: "FnOnce Rust 0 ZstD (factory make_once_send)", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1247::make, inv: s1247::inv },
     Shape { sid: 1248, name: "FnOnce C 1 Cap (factory make_once_sync)", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1248::make, inv: s1248::inv },
     Shape { sid: 1249, name: "FnOnce C-unwind 2 Small (factory make_once_sync)", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: true, fam: fam::FACTORY, make: s1249::make, inv: s1249::inv },
     Shape { sid: 1250, name: "FnOnce Rust 3 Over (factory make_once_sync)", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1250::make, inv: s1250::inv },
     Shape { sid: 1251, name: "FnOnce C 4 Plain (factory make_once_send_sync)", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1251::make, inv: s1251::inv },
     Shape { sid: 1252, name: "FnOnce C-unwind 5 Wide (factory make_once_send_sync)", kind: Kind::FnOnce, cc: "C-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1252::make, inv: s1252::inv },
     Shape { sid: 1253, name: "FnOnce Rust 0 ZstD (factory make_once_send_sync)", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY | fam::ZST, make: s1253::make, inv: s1253::inv },
     Shape { sid: 1254, name: "Fn Rust 9 Cap (front front)", kind: Kind::Fn, cc: "Rust", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1254::make, inv: s1254::inv },
     Shape { sid: 1255, name: "Fn Rust 10 ZstD (front2 front)", kind: Kind::Fn, cc: "Rust", arity: 10, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1255::make, inv: s1255::inv },
     Shape { sid: 1256, name: "Fn C 11 Over (front front)", kind: Kind::Fn, cc: "C", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1256::make, inv: s1256::inv },
     Shape { sid: 1257, name: "Fn C 12 Plain (front2 front)", kind: Kind::Fn, cc: "C", arity: 12, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1257::make, inv: s1257::inv },
     Shape { sid: 1258, name: "Fn C-unwind 0 Wide (front front)", kind: Kind::Fn, cc: "C-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1258::make, inv: s1258::inv },
     Shape { sid: 1259, name: "Fn C-unwind 1 Cap (front2 front)", kind: Kind::Fn, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1259::make, inv: s1259::inv },
     Shape { sid: 1260, name: "Fn system 2 Cap (front front)", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1260::make, inv: s1260::inv },
     Shape { sid: 1261, name: "Fn system 3 Small (front2 front)", kind: Kind::Fn, cc: "system", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1261::make, inv: s1261::inv },
     Shape { sid: 1262, name: "Fn system-unwind 4 Over (front front)", kind: Kind::Fn, cc: "system-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1262::make, inv: s1262::inv },
     Shape { sid: 1263, name: "Fn system-unwind 5 ZstD (front2 front)", kind: Kind::Fn, cc: "system-unwind", arity: 5, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1263::make, inv: s1263::inv },
     Shape { sid: 1264, name: "Fn efiapi 6 Wide (front front)", kind: Kind::Fn, cc: "efiapi", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1264::make, inv: s1264::inv },
     Shape { sid: 1265, name: "Fn efiapi 7 Cap (front2 front)", kind: Kind::Fn, cc: "efiapi", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1265::make, inv: s1265::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1266, name: "Fn sysv64 8 Cap (front front)", kind: Kind::Fn, cc: "sysv64", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1266::make, inv: s1266::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1267, name: "Fn sysv64 9 Small (front2 front)", kind: Kind::Fn, cc: "sysv64", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1267::make, inv: s1267::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1268, name: "Fn sysv64-unwind 10 Over (front front)", kind: Kind::Fn, cc: "sysv64-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1268::make, inv: s1268::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1269, name: "Fn sysv64-unwind 11 Plain (front2 front)", kind: Kind::Fn, cc: "sysv64-unwind", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1269::make, inv: s1269::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1270, name: "Fn win64 12 Wide (front front)", kind: Kind::Fn, cc: "win64", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1270::make, inv: s1270::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1271, name: "Fn win64 0 ZstD (front2 front)", kind: Kind::Fn, cc: "win64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1271::make, inv: s1271::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1272, name: "Fn win64-unwind 1 Cap (front front)", kind: Kind::Fn, cc: "win64-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1272::make, inv: s1272::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1273, name: "Fn win64-unwind 2 Small (front2 front)", kind: Kind::Fn, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1273::make, inv: s1273::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1274, name: "Fn fastcall 4 Plain (front2 front)", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1274::make, inv: s1274::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1275, name: "Fn fastcall-unwind 5 Wide (front front)", kind: Kind::Fn, cc: "fastcall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1275::make, inv: s1275::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1276, name: "Fn stdcall 8 ZstD (front2 front)", kind: Kind::Fn, cc: "stdcall", arity: 8, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1276::make, inv: s1276::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1277, name: "Fn stdcall-unwind 9 Over (front front)", kind: Kind::Fn, cc: "stdcall-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1277::make, inv: s1277::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1278, name: "Fn cdecl 12 Cap (front2 front)", kind: Kind::Fn, cc: "cdecl", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1278::make, inv: s1278::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1279, name: "Fn cdecl-unwind 0 Cap (front front)", kind: Kind::Fn, cc: "cdecl-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1279::make, inv: s1279::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1280, name: "Fn thiscall 3 ZstD (front2 front)", kind: Kind::Fn, cc: "thiscall", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1280::make, inv: s1280::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1281, name: "Fn thiscall-unwind 4 Wide (front front)", kind: Kind::Fn, cc: "thiscall-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1281::make, inv: s1281::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1282, name: "Fn aapcs 6 Cap (front front)", kind: Kind::Fn, cc: "aapcs", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1282::make, inv: s1282::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1283, name: "Fn aapcs 7 Small (front2 front)", kind: Kind::Fn, cc: "aapcs", arity: 7, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1283::make, inv: s1283::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1284, name: "Fn aapcs-unwind 8 Over (front front)", kind: Kind::Fn, cc: "aapcs-unwind", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1284::make, inv: s1284::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1285, name: "Fn aapcs-unwind 9 Plain (front2 front)", kind: Kind::Fn, cc: "aapcs-unwind", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1285::make, inv: s1285::inv },
     Shape { sid: 1286, name: "FnMut Rust 10 Wide (front front_mut)", kind: Kind::FnMut, cc: "Rust", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1286::make, inv: s1286::inv },
     Shape { sid: 1287, name: "FnMut Rust 11 ZstD (front2 front_mut)", kind: Kind::FnMut, cc: "Rust", arity: 11, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1287::make, inv: s1287::inv },
     Shape { sid: 1288, name: "FnMut C 12 Cap (front front_mut)", kind: Kind::FnMut, cc: "C", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1288::make, inv: s1288::inv },
     Shape { sid: 1289, name: "FnMut C 0 Small (front2 front_mut)", kind: Kind::FnMut, cc: "C", arity: 0, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1289::make, inv: s1289::inv },
     Shape { sid: 1290, name: "FnMut C-unwind 1 Over (front front_mut)", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1290::make, inv: s1290::inv },
     Shape { sid: 1291, name: "FnMut C-unwind 2 Plain (front2 front_mut)", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1291::make, inv: s1291::inv },
     Shape { sid: 1292, name: "FnMut system 3 Wide (front front_mut)", kind: Kind::FnMut, cc: "system", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1292::make, inv: s1292::inv },
     Shape { sid: 1293, name: "FnMut system 4 Cap (front2 front_mut)", kind: Kind::FnMut, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1293::make, inv: s1293::inv },
     Shape { sid: 1294, name: "FnMut system-unwind 5 Cap (front front_mut)", kind: Kind::FnMut, cc: "system-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1294::make, inv: s1294::inv },
     Shape { sid: 1295, name: "FnMut system-unwind 6 ZstD (front2 front_mut)", kind: Kind::FnMut, cc: "system-unwind", arity: 6, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1295::make, inv: s1295::inv },
     Shape { sid: 1296, name: "FnMut efiapi 7 Over (front front_mut)", kind: Kind::FnMut, cc: "efiapi", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1296::make, inv: s1296::inv },
     Shape { sid: 1297, name: "FnMut efiapi 8 Plain (front2 front_mut)", kind: Kind::FnMut, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1297::make, inv: s1297::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1298, name: "FnMut sysv64 9 Wide (front front_mut)", kind: Kind::FnMut, cc: "sysv64", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1298::make, inv: s1298::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1299, name: "FnMut sysv64 10 Cap (front2 front_mut)", kind: Kind::FnMut, cc: "sysv64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1299::make, inv: s1299::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1300, name: "FnMut sysv64-unwind 11 Cap (front front_mut)", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1300::make, inv: s1300::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1301, name: "FnMut sysv64-unwind 12 Small (front2 front_mut)", kind: Kind::FnMut, cc: "sysv64-unwind", arity: 12, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1301::make, inv: s1301::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1302, name: "FnMut win64 0 Over (front front_mut)", kind: Kind::FnMut, cc: "win64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1302::make, inv: s1302::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1303, name: "FnMut win64 1 ZstD (front2 front_mut)", kind: Kind::FnMut, cc: "win64", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1303::make, inv: s1303::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1304, name: "FnMut win64-unwind 2 Wide (front front_mut)", kind: Kind::FnMut, cc: "win64-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1304::make, inv: s1304::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1305, name: "FnMut win64-unwind 3 Cap (front2 front_mut)", kind: Kind::FnMut, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1305::make, inv: s1305::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1306, name: "FnMut fastcall 5 Small (front2 front_mut)", kind: Kind::FnMut, cc: "fastcall", arity: 5, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1306::make, inv: s1306::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1307, name: "FnMut fastcall-unwind 6 Over (front front_mut)", kind: Kind::FnMut, cc: "fastcall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1307::make, inv: s1307::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1308, name: "FnMut stdcall 9 ZstD (front2 front_mut)", kind: Kind::FnMut, cc: "stdcall", arity: 9, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1308::make, inv: s1308::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1309, name: "FnMut stdcall-unwind 10 Cap (front front_mut)", kind: Kind::FnMut, cc: "stdcall-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1309::make, inv: s1309::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1310, name: "FnMut cdecl 0 Plain (front2 front_mut)", kind: Kind::FnMut, cc: "cdecl", arity: 0, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1310::make, inv: s1310::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1311, name: "FnMut cdecl-unwind 1 Wide (front front_mut)", kind: Kind::FnMut, cc: "cdecl-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1311::make, inv: s1311::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1312, name: "FnMut thiscall 4 ZstD (front2 front_mut)", kind: Kind::FnMut, cc: "thiscall", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1312::make, inv: s1312::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1313, name: "FnMut thiscall-unwind 5 Over (front front_mut)", kind: Kind::FnMut, cc: "thiscall-unwind", arity: 5, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1313::make, inv: s1313::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1314, name: "FnMut aapcs 7 Wide (front front_mut)", kind: Kind::FnMut, cc: "aapcs", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1314::make, inv: s1314::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1315, name: "FnMut aapcs 8 Cap (front2 front_mut)", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1315::make, inv: s1315::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1316, name: "FnMut aapcs-unwind 9 Cap (front front_mut)", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1316::make, inv: s1316::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1317, name: "FnMut aapcs-unwind 10 Small (front2 front_mut)", kind: Kind::FnMut, cc: "aapcs-unwind", arity: 10, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1317::make, inv: s1317::inv },
     Shape { sid: 1318, name: "FnOnce Rust 11 Over (front front_once)", kind: Kind::FnOnce, cc: "Rust", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1318::make, inv: s1318::inv },
     Shape { sid: 1319, name: "FnOnce Rust 12 ZstD (front2 front_once)", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1319::make, inv: s1319::inv },
     Shape { sid: 1320, name: "FnOnce C 0 Wide (front front_once)", kind: Kind::FnOnce, cc: "C", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1320::make, inv: s1320::inv },
     Shape { sid: 1321, name: "FnOnce C 1 Cap (front2 front_once)", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1321::make, inv: s1321::inv },
     Shape { sid: 1322, name: "FnOnce C-unwind 2 Cap (front front_once)", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1322::make, inv: s1322::inv },
     Shape { sid: 1323, name: "FnOnce C-unwind 3 Small (front2 front_once)", kind: Kind::FnOnce, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1323::make, inv: s1323::inv },
     Shape { sid: 1324, name: "FnOnce system 4 Over (front front_once)", kind: Kind::FnOnce, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1324::make, inv: s1324::inv },
     Shape { sid: 1325, name: "FnOnce system 5 Plain (front2 front_once)", kind: Kind::FnOnce, cc: "system", arity: 5, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1325::make, inv: s1325::inv },
     Shape { sid: 1326, name: "FnOnce system-unwind 6 Wide (front front_once)", kind: Kind::FnOnce, cc: "system-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1326::make, inv: s1326::inv },
     Shape { sid: 1327, name: "FnOnce system-unwind 7 ZstD (front2 front_once)", kind: Kind::FnOnce, cc: "system-unwind", arity: 7, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY | fam::ZST, make: s1327::make, inv: s1327::inv },
     Shape { sid: 1328, name: "FnOnce efiapi 8 Cap (front front_once)", kind: Kind::FnOnce, cc: "efiapi", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1328::make, inv: s1328::inv },
     Shape { sid: 1329, name: "FnOnce efiapi 9 Small (front2 front_once)", kind: Kind::FnOnce, cc: "efiapi", arity: 9, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1329::make, inv: s1329::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1330, name: "FnOnce sysv64 10 Over (front front_once)", kind: Kind::FnOnce, cc: "sysv64", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1330::make, inv: s1330::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1331, name: "FnOnce sysv64 11 Plain (front2 front_once)", kind: Kind::FnOnce, cc: "sysv64", arity: 11, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1331::make, inv: s1331::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1332, name: "FnOnce sysv64-unwind 12 Wide (front front_once)", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 12, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1332::make, inv: s1332::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1333, name: "FnOnce sysv64-unwind 0 Cap (front2 front_once)", kind: Kind::FnOnce, cc: "sysv64-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::FACTORY, make: s1333::make, inv: s1333::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1334, name: "FnOnce win64 1 Cap (front front_once)", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1334::make, inv: s1334::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1335, name: "FnOnce win64 2 ZstD (front2 front_once)", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1335::make, inv: s1335::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1336, name: "FnOnce win64-unwind 3 Over (front front_once)", kind: Kind::FnOnce, cc: "win64-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1336::make, inv: s1336::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1337, name: "FnOnce win64-unwind 4 Plain (front2 front_once)", kind: Kind::FnOnce, cc: "win64-unwind", arity: 4, zst: false, tracked: false, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1337::make, inv: s1337::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1338, name: "FnOnce fastcall 6 Cap (front2 front_once)", kind: Kind::FnOnce, cc: "fastcall", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1338::make, inv: s1338::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1339, name: "FnOnce fastcall-unwind 7 Cap (front front_once)", kind: Kind::FnOnce, cc: "fastcall-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1339::make, inv: s1339::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1340, name: "FnOnce stdcall 10 ZstD (front2 front_once)", kind: Kind::FnOnce, cc: "stdcall", arity: 10, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1340::make, inv: s1340::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1341, name: "FnOnce stdcall-unwind 11 Wide (front front_once)", kind: Kind::FnOnce, cc: "stdcall-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1341::make, inv: s1341::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1342, name: "FnOnce cdecl 1 Small (front2 front_once)", kind: Kind::FnOnce, cc: "cdecl", arity: 1, zst: false, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1342::make, inv: s1342::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1343, name: "FnOnce cdecl-unwind 2 Over (front front_once)", kind: Kind::FnOnce, cc: "cdecl-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1343::make, inv: s1343::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1344, name: "FnOnce thiscall 5 ZstD (front2 front_once)", kind: Kind::FnOnce, cc: "thiscall", arity: 5, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY | fam::ZST, make: s1344::make, inv: s1344::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1345, name: "FnOnce thiscall-unwind 6 Cap (front front_once)", kind: Kind::FnOnce, cc: "thiscall-unwind", arity: 6, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1345::make, inv: s1345::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1346, name: "FnOnce aapcs 8 Over (front front_once)", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::FACTORY, make: s1346::make, inv: s1346::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1347, name: "FnOnce aapcs 9 Plain (front2 front_once)", kind: Kind::FnOnce, cc: "aapcs", arity: 9, zst: false, tracked: false, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::FACTORY, make: s1347::make, inv: s1347::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1348, name: "FnOnce aapcs-unwind 10 Wide (front front_once)", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 10, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::FACTORY, make: s1348::make, inv: s1348::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1349, name: "FnOnce aapcs-unwind 11 Cap (front2 front_once)", kind: Kind::FnOnce, cc: "aapcs-unwind", arity: 11, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::FACTORY, make: s1349::make, inv: s1349::inv },
     Shape { sid: 1350, name: "Fn C-unwind 2 ZstD try_with_cc_in &'static crate::simjit::SimHandle", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE | fam::ZST, make: s1350::make, inv: s1350::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1351, name: "Fn C-unwind 2 Cap with_thunk_in &'static crate::simjit::SimHandle", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1351::make, inv: s1351::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1352, name: "Fn C-unwind 2 Cap try_with_cc_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1352::make, inv: s1352::inv },
     Shape { sid: 1353, name: "Fn C-unwind 2 Cap with_thunk_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1353::make, inv: s1353::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1354, name: "Fn C-unwind 2 Cap try_with_cc_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1354::make, inv: s1354::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1355, name: "Fn C-unwind 2 Cap with_thunk_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1355::make, inv: s1355::inv },
     Shape { sid: 1356, name: "Fn C-unwind 2 Cap try_with_cc_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1356::make, inv: s1356::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1357, name: "Fn C-unwind 2 ZstD with_thunk_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE | fam::ZST, make: s1357::make, inv: s1357::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1358, name: "Fn C-unwind 2 Cap try_with_cc_in Box<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1358::make, inv: s1358::inv },
     Shape { sid: 1359, name: "Fn C-unwind 2 Cap with_thunk_in Box<crate::simjit::SimHandle>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1359::make, inv: s1359::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1360, name: "Fn C-unwind 2 Cap try_with_cc_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1360::make, inv: s1360::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1361, name: "Fn C-unwind 2 Cap with_thunk_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1361::make, inv: s1361::inv },
     Shape { sid: 1362, name: "Fn C-unwind 2 Cap try_with_cc_in Smart", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1362::make, inv: s1362::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1363, name: "Fn C-unwind 2 Cap with_thunk_in Smart", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1363::make, inv: s1363::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1364, name: "FnMut C-unwind 2 ZstD try_with_cc_in &'static crate::simjit::SimHandle", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE | fam::ZST, make: s1364::make, inv: s1364::inv },
     Shape { sid: 1365, name: "FnMut C-unwind 2 Cap with_thunk_in &'static crate::simjit::SimHandle", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1365::make, inv: s1365::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1366, name: "FnMut C-unwind 2 Cap try_with_cc_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1366::make, inv: s1366::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1367, name: "FnMut C-unwind 2 Cap with_thunk_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1367::make, inv: s1367::inv },
     Shape { sid: 1368, name: "FnMut C-unwind 2 Cap try_with_cc_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1368::make, inv: s1368::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1369, name: "FnMut C-unwind 2 Cap with_thunk_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1369::make, inv: s1369::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1370, name: "FnMut C-unwind 2 Cap try_with_cc_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1370::make, inv: s1370::inv },
     Shape { sid: 1371, name: "FnMut C-unwind 2 ZstD with_thunk_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE | fam::ZST, make: s1371::make, inv: s1371::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1372, name: "FnMut C-unwind 2 Cap try_with_cc_in Box<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1372::make, inv: s1372::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1373, name: "FnMut C-unwind 2 Cap with_thunk_in Box<crate::simjit::SimHandle>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1373::make, inv: s1373::inv },
     Shape { sid: 1374, name: "FnMut C-unwind 2 Cap try_with_cc_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1374::make, inv: s1374::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1375, name: "FnMut C-unwind 2 Cap with_thunk_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1375::make, inv: s1375::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1376, name: "FnMut C-unwind 2 Cap try_with_cc_in Smart", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1376::make, inv: s1376::inv },
     Shape { sid: 1377, name: "FnMut C-unwind 2 Cap with_thunk_in Smart", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1377::make, inv: s1377::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1378, name: "FnOnce C-unwind 2 ZstD try_with_cc_in &'static crate::simjit::SimHandle", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE | fam::ZST, make: s1378::make, inv: s1378::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1379, name: "FnOnce C-unwind 2 Cap with_thunk_in &'static crate::simjit::SimHandle", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1379::make, inv: s1379::inv },
     Shape { sid: 1380, name: "FnOnce C-unwind 2 Cap try_with_cc_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1380::make, inv: s1380::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1381, name: "FnOnce C-unwind 2 Cap with_thunk_in &'static std::sync::LazyLock<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1381::make, inv: s1381::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1382, name: "FnOnce C-unwind 2 Cap try_with_cc_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1382::make, inv: s1382::inv },
     Shape { sid: 1383, name: "FnOnce C-unwind 2 Cap with_thunk_in std::sync::Arc<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1383::make, inv: s1383::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1384, name: "FnOnce C-unwind 2 Cap try_with_cc_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1384::make, inv: s1384::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1385, name: "FnOnce C-unwind 2 ZstD with_thunk_in std::rc::Rc<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE | fam::ZST, make: s1385::make, inv: s1385::inv },
     Shape { sid: 1386, name: "FnOnce C-unwind 2 Cap try_with_cc_in Box<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1386::make, inv: s1386::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1387, name: "FnOnce C-unwind 2 Cap with_thunk_in Box<crate::simjit::SimHandle>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1387::make, inv: s1387::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1388, name: "FnOnce C-unwind 2 Cap try_with_cc_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1388::make, inv: s1388::inv },
     Shape { sid: 1389, name: "FnOnce C-unwind 2 Cap with_thunk_in Box<std::sync::Arc<crate::simjit::SimHandle>>", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1389::make, inv: s1389::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1390, name: "FnOnce C-unwind 2 Cap try_with_cc_in Smart", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HANDLE, make: s1390::make, inv: s1390::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1391, name: "FnOnce C-unwind 2 Cap with_thunk_in Smart", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HANDLE, make: s1391::make, inv: s1391::inv },
     Shape { sid: 1392, name: "Fn C 3 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1392::make, inv: s1392::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1393, name: "Fn C 4 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1393::make, inv: s1393::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1394, name: "Fn C 0 ZstD with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1394::make, inv: s1394::inv },
     Shape { sid: 1395, name: "Fn C 1 Cap (gshort new_c) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1395::make, inv: s1395::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1396, name: "Fn C-unwind 2 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1396::make, inv: s1396::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1397, name: "Fn C-unwind 3 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1397::make, inv: s1397::inv },
     Shape { sid: 1398, name: "Fn C-unwind 4 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1398::make, inv: s1398::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1399, name: "Fn Rust 0 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "Rust", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1399::make, inv: s1399::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1400, name: "Fn Rust 1 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1400::make, inv: s1400::inv },
     Shape { sid: 1401, name: "Fn Rust 2 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1401::make, inv: s1401::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1402, name: "Fn Rust 3 Cap (gshort new_rust) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1402::make, inv: s1402::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1403, name: "Fn system 4 ZstD new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "system", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1403::make, inv: s1403::inv },
     Shape { sid: 1404, name: "Fn system 0 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "system", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1404::make, inv: s1404::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1405, name: "Fn system 1 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1405::make, inv: s1405::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1406, name: "Fn system 2 Cap (gshort new_system) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1406::make, inv: s1406::inv },
     Shape { sid: 1407, name: "Fn efiapi 3 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1407::make, inv: s1407::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1408, name: "Fn efiapi 4 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1408::make, inv: s1408::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1409, name: "Fn efiapi 0 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "efiapi", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1409::make, inv: s1409::inv },
     Shape { sid: 1410, name: "Fn efiapi 1 Cap (gshort new_efiabi) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1410::make, inv: s1410::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1411, name: "Fn sysv64 2 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1411::make, inv: s1411::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1412, name: "Fn sysv64 3 ZstD with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "sysv64", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1412::make, inv: s1412::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1413, name: "Fn sysv64 4 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1413::make, inv: s1413::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1414, name: "Fn sysv64 0 Cap (gshort new_sysv64) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "sysv64", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1414::make, inv: s1414::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1415, name: "Fn aapcs 1 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1415::make, inv: s1415::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1416, name: "Fn aapcs 2 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1416::make, inv: s1416::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1417, name: "Fn aapcs 3 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1417::make, inv: s1417::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1418, name: "Fn aapcs 4 Cap (gshort new_aapcs) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1418::make, inv: s1418::inv },
     Shape { sid: 1419, name: "Fn C 1 Cap (gfactory make_send_sync) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1419::make, inv: s1419::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1420, name: "FnMut C 0 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1420::make, inv: s1420::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1421, name: "FnMut C 1 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1421::make, inv: s1421::inv },
     Shape { sid: 1422, name: "FnMut C 2 ZstD with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1422::make, inv: s1422::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1423, name: "FnMut C 3 Cap (gshort new_c) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1423::make, inv: s1423::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1424, name: "FnMut C-unwind 4 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C-unwind", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1424::make, inv: s1424::inv },
     Shape { sid: 1425, name: "FnMut C-unwind 0 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C-unwind", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1425::make, inv: s1425::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1426, name: "FnMut C-unwind 1 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1426::make, inv: s1426::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1427, name: "FnMut Rust 2 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1427::make, inv: s1427::inv },
     Shape { sid: 1428, name: "FnMut Rust 3 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1428::make, inv: s1428::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1429, name: "FnMut Rust 4 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1429::make, inv: s1429::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1430, name: "FnMut Rust 0 Cap (gshort new_rust) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1430::make, inv: s1430::inv },
     Shape { sid: 1431, name: "FnMut system 1 ZstD new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "system", arity: 1, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1431::make, inv: s1431::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1432, name: "FnMut system 2 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1432::make, inv: s1432::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1433, name: "FnMut system 3 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "system", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1433::make, inv: s1433::inv },
     Shape { sid: 1434, name: "FnMut system 4 Cap (gshort new_system) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1434::make, inv: s1434::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1435, name: "FnMut efiapi 0 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "efiapi", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1435::make, inv: s1435::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1436, name: "FnMut efiapi 1 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1436::make, inv: s1436::inv },
     Shape { sid: 1437, name: "FnMut efiapi 2 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1437::make, inv: s1437::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1438, name: "FnMut efiapi 3 Cap (gshort new_efiabi) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1438::make, inv: s1438::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1439, name: "FnMut sysv64 4 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1439::make, inv: s1439::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1440, name: "FnMut sysv64 0 ZstD with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "sysv64", arity: 0, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1440::make, inv: s1440::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1441, name: "FnMut sysv64 1 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1441::make, inv: s1441::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1442, name: "FnMut sysv64 2 Cap (gshort new_sysv64) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1442::make, inv: s1442::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1443, name: "FnMut aapcs 3 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1443::make, inv: s1443::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1444, name: "FnMut aapcs 4 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "aapcs", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1444::make, inv: s1444::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1445, name: "FnMut aapcs 0 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "aapcs", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1445::make, inv: s1445::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1446, name: "FnMut aapcs 1 Cap (gshort new_aapcs) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1446::make, inv: s1446::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1447, name: "FnMut C 1 Cap (gfactory make_mut_send_sync) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1447::make, inv: s1447::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1448, name: "FnOnce C 2 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1448::make, inv: s1448::inv },
     Shape { sid: 1449, name: "FnOnce C 3 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1449::make, inv: s1449::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1450, name: "FnOnce C 4 ZstD with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C", arity: 4, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1450::make, inv: s1450::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1451, name: "FnOnce C 0 Cap (gshort new_c) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1451::make, inv: s1451::inv },
     Shape { sid: 1452, name: "FnOnce C-unwind 1 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C-unwind", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1452::make, inv: s1452::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1453, name: "FnOnce C-unwind 2 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1453::make, inv: s1453::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1454, name: "FnOnce C-unwind 3 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C-unwind", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1454::make, inv: s1454::inv },
     Shape { sid: 1455, name: "FnOnce Rust 4 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1455::make, inv: s1455::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1456, name: "FnOnce Rust 0 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1456::make, inv: s1456::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1457, name: "FnOnce Rust 1 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: true, fam: fam::GLOBAL, make: s1457::make, inv: s1457::inv },
     Shape { sid: 1458, name: "FnOnce Rust 2 Cap (gshort new_rust) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::GLOBAL, make: s1458::make, inv: s1458::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1459, name: "FnOnce system 3 ZstD new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "system", arity: 3, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1459::make, inv: s1459::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1460, name: "FnOnce system 4 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "system", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1460::make, inv: s1460::inv },
     Shape { sid: 1461, name: "FnOnce system 0 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "system", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1461::make, inv: s1461::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1462, name: "FnOnce system 1 Cap (gshort new_system) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1462::make, inv: s1462::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1463, name: "FnOnce efiapi 2 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1463::make, inv: s1463::inv },
     Shape { sid: 1464, name: "FnOnce efiapi 3 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1464::make, inv: s1464::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1465, name: "FnOnce efiapi 4 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1465::make, inv: s1465::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1466, name: "FnOnce efiapi 0 Cap (gshort new_efiabi) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "efiapi", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1466::make, inv: s1466::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1467, name: "FnOnce sysv64 1 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1467::make, inv: s1467::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1468, name: "FnOnce sysv64 2 ZstD with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL | fam::ZST, make: s1468::make, inv: s1468::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1469, name: "FnOnce sysv64 3 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "sysv64", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1469::make, inv: s1469::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1470, name: "FnOnce sysv64 4 Cap (gshort new_sysv64) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "sysv64", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1470::make, inv: s1470::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1471, name: "FnOnce aapcs 0 Cap new closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "aapcs", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1471::make, inv: s1471::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1472, name: "FnOnce aapcs 1 Cap with_cc closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1472::make, inv: s1472::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1473, name: "FnOnce aapcs 2 Cap with_thunk closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1473::make, inv: s1473::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1474, name: "FnOnce aapcs 3 Cap (gshort new_aapcs) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1474::make, inv: s1474::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1475, name: "FnOnce C 1 Cap (gfactory make_once_send_sync) closure_ffi::jit_alloc::GlobalJitAlloc", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::GLOBAL, make: s1475::make, inv: s1475::inv },
    Shape { sid: 1476, name: "Fn Rust leaf 0", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1476::make, inv: s1476::inv },
    Shape { sid: 1477, name: "Fn C leaf 0", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1477::make, inv: s1477::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1478, name: "Fn system leaf 0", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1478::make, inv: s1478::inv },
    Shape { sid: 1479, name: "Fn efiapi leaf 0", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1479::make, inv: s1479::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1480, name: "Fn sysv64 leaf 0", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1480::make, inv: s1480::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1481, name: "Fn fastcall leaf 0", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1481::make, inv: s1481::inv },
    Shape { sid: 1482, name: "FnMut Rust leaf 0", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1482::make, inv: s1482::inv },
    Shape { sid: 1483, name: "FnMut C leaf 0", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1483::make, inv: s1483::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1484, name: "FnMut system leaf 0", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1484::make, inv: s1484::inv },
    Shape { sid: 1485, name: "FnMut efiapi leaf 0", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1485::make, inv: s1485::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1486, name: "FnMut sysv64 leaf 0", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1486::make, inv: s1486::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1487, name: "FnMut fastcall leaf 0", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1487::make, inv: s1487::inv },
    Shape { sid: 1488, name: "FnOnce Rust leaf 0", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1488::make, inv: s1488::inv },
    Shape { sid: 1489, name: "FnOnce C leaf 0", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1489::make, inv: s1489::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1490, name: "FnOnce system leaf 0", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1490::make, inv: s1490::inv },
    Shape { sid: 1491, name: "FnOnce efiapi leaf 0", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1491::make, inv: s1491::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1492, name: "FnOnce sysv64 leaf 0", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1492::make, inv: s1492::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1493, name: "FnOnce fastcall leaf 0", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1493::make, inv: s1493::inv },
    Shape { sid: 1494, name: "Fn Rust leaf 1", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1494::make, inv: s1494::inv },
    Shape { sid: 1495, name: "Fn C leaf 1", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1495::make, inv: s1495::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1496, name: "Fn C-unwind leaf 1", kind: Kind::Fn, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1496::make, inv: s1496::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1497, name: "Fn win64 leaf 1", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1497::make, inv: s1497::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1498, name: "Fn cdecl leaf 1", kind: Kind::Fn, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1498::make, inv: s1498::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1499, name: "Fn aapcs leaf 1", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1499::make, inv: s1499::inv },
    Shape { sid: 1500, name: "FnMut Rust leaf 1", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1500::make, inv: s1500::inv },
    Shape { sid: 1501, name: "FnMut C leaf 1", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1501::make, inv: s1501::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1502, name: "FnMut C-unwind leaf 1", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1502::make, inv: s1502::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1503, name: "FnMut win64 leaf 1", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1503::make, inv: s1503::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1504, name: "FnMut cdecl leaf 1", kind: Kind::FnMut, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1504::make, inv: s1504::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1505, name: "FnMut aapcs leaf 1", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1505::make, inv: s1505::inv },
    Shape { sid: 1506, name: "FnOnce Rust leaf 1", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1506::make, inv: s1506::inv },
    Shape { sid: 1507, name: "FnOnce C leaf 1", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1507::make, inv: s1507::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1508, name: "FnOnce C-unwind leaf 1", kind: Kind::FnOnce, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1508::make, inv: s1508::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1509, name: "FnOnce win64 leaf 1", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1509::make, inv: s1509::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1510, name: "FnOnce cdecl leaf 1", kind: Kind::FnOnce, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1510::make, inv: s1510::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1511, name: "FnOnce aapcs leaf 1", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1511::make, inv: s1511::inv },
    Shape { sid: 1512, name: "Fn Rust leaf 2", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1512::make, inv: s1512::inv },
    Shape { sid: 1513, name: "Fn C leaf 2", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1513::make, inv: s1513::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1514, name: "Fn system leaf 2", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1514::make, inv: s1514::inv },
    Shape { sid: 1515, name: "Fn efiapi leaf 2", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1515::make, inv: s1515::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1516, name: "Fn sysv64 leaf 2", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1516::make, inv: s1516::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1517, name: "Fn fastcall leaf 2", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1517::make, inv: s1517::inv },
    Shape { sid: 1518, name: "FnMut Rust leaf 2", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1518::make, inv: s1518::inv },
    Shape { sid: 1519, name: "FnMut C leaf 2", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1519::make, inv: s1519::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1520, name: "FnMut system leaf 2", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1520::make, inv: s1520::inv },
    Shape { sid: 1521, name: "FnMut efiapi leaf 2", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1521::make, inv: s1521::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1522, name: "FnMut sysv64 leaf 2", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1522::make, inv: s1522::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1523, name: "FnMut fastcall leaf 2", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1523::make, inv: s1523::inv },
    Shape { sid: 1524, name: "FnOnce Rust leaf 2", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1524::make, inv: s1524::inv },
    Shape { sid: 1525, name: "FnOnce C leaf 2", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1525::make, inv: s1525::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1526, name: "FnOnce system leaf 2", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1526::make, inv: s1526::inv },
    Shape { sid: 1527, name: "FnOnce efiapi leaf 2", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1527::make, inv: s1527::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1528, name: "FnOnce sysv64 leaf 2", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1528::make, inv: s1528::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1529, name: "FnOnce fastcall leaf 2", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1529::make, inv: s1529::inv },
    Shape { sid: 1530, name: "Fn Rust leaf 3", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1530::make, inv: s1530::inv },
    Shape { sid: 1531, name: "Fn C leaf 3", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1531::make, inv: s1531::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1532, name: "Fn C-unwind leaf 3", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1532::make, inv: s1532::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1533, name: "Fn win64 leaf 3", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1533::make, inv: s1533::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1534, name: "Fn cdecl leaf 3", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1534::make, inv: s1534::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1535, name: "Fn aapcs leaf 3", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1535::make, inv: s1535::inv },
    Shape { sid: 1536, name: "FnMut Rust leaf 3", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1536::make, inv: s1536::inv },
    Shape { sid: 1537, name: "FnMut C leaf 3", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1537::make, inv: s1537::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1538, name: "FnMut C-unwind leaf 3", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1538::make, inv: s1538::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1539, name: "FnMut win64 leaf 3", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1539::make, inv: s1539::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1540, name: "FnMut cdecl leaf 3", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1540::make, inv: s1540::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1541, name: "FnMut aapcs leaf 3", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1541::make, inv: s1541::inv },
    Shape { sid: 1542, name: "FnOnce Rust leaf 3", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1542::make, inv: s1542::inv },
    Shape { sid: 1543, name: "FnOnce C leaf 3", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1543::make, inv: s1543::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1544, name: "FnOnce C-unwind leaf 3", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1544::make, inv: s1544::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1545, name: "FnOnce win64 leaf 3", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1545::make, inv: s1545::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1546, name: "FnOnce cdecl leaf 3", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1546::make, inv: s1546::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1547, name: "FnOnce aapcs leaf 3", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1547::make, inv: s1547::inv },
    Shape { sid: 1548, name: "Fn Rust leaf 4", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1548::make, inv: s1548::inv },
    Shape { sid: 1549, name: "Fn C leaf 4", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1549::make, inv: s1549::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1550, name: "Fn system leaf 4", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1550::make, inv: s1550::inv },
    Shape { sid: 1551, name: "Fn efiapi leaf 4", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1551::make, inv: s1551::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1552, name: "Fn sysv64 leaf 4", kind: Kind::Fn, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1552::make, inv: s1552::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1553, name: "Fn fastcall leaf 4", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1553::make, inv: s1553::inv },
    Shape { sid: 1554, name: "FnMut Rust leaf 4", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1554::make, inv: s1554::inv },
    Shape { sid: 1555, name: "FnMut C leaf 4", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1555::make, inv: s1555::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1556, name: "FnMut system leaf 4", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1556::make, inv: s1556::inv },
    Shape { sid: 1557, name: "FnMut efiapi leaf 4", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1557::make, inv: s1557::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1558, name: "FnMut sysv64 leaf 4", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1558::make, inv: s1558::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1559, name: "FnMut fastcall leaf 4", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1559::make, inv: s1559::inv },
    Shape { sid: 1560, name: "FnOnce Rust leaf 4", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1560::make, inv: s1560::inv },
    Shape { sid: 1561, name: "FnOnce C leaf 4", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1561::make, inv: s1561::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1562, name: "FnOnce system leaf 4", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1562::make, inv: s1562::inv },
    Shape { sid: 1563, name: "FnOnce efiapi leaf 4", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1563::make, inv: s1563::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1564, name: "FnOnce sysv64 leaf 4", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1564::make, inv: s1564::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1565, name: "FnOnce fastcall leaf 4", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1565::make, inv: s1565::inv },
    Shape { sid: 1566, name: "Fn Rust leaf 5", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1566::make, inv: s1566::inv },
    Shape { sid: 1567, name: "Fn C leaf 5", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1567::make, inv: s1567::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1568, name: "Fn C-unwind leaf 5", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1568::make, inv: s1568::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1569, name: "Fn win64 leaf 5", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1569::make, inv: s1569::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1570, name: "Fn cdecl leaf 5", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1570::make, inv: s1570::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1571, name: "Fn aapcs leaf 5", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1571::make, inv: s1571::inv },
    Shape { sid: 1572, name: "FnMut Rust leaf 5", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1572::make, inv: s1572::inv },
    Shape { sid: 1573, name: "FnMut C leaf 5", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1573::make, inv: s1573::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1574, name: "FnMut C-unwind leaf 5", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1574::make, inv: s1574::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1575, name: "FnMut win64 leaf 5", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1575::make, inv: s1575::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1576, name: "FnMut cdecl leaf 5", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1576::make, inv: s1576::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1577, name: "FnMut aapcs leaf 5", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1577::make, inv: s1577::inv },
    Shape { sid: 1578, name: "FnOnce Rust leaf 5", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1578::make, inv: s1578::inv },
    Shape { sid: 1579, name: "FnOnce C leaf 5", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1579::make, inv: s1579::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1580, name: "FnOnce C-unwind leaf 5", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1580::make, inv: s1580::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1581, name: "FnOnce win64 leaf 5", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1581::make, inv: s1581::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1582, name: "FnOnce cdecl leaf 5", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1582::make, inv: s1582::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1583, name: "FnOnce aapcs leaf 5", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1583::make, inv: s1583::inv },
    Shape { sid: 1584, name: "Fn Rust leaf 6", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1584::make, inv: s1584::inv },
    Shape { sid: 1585, name: "Fn C leaf 6", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1585::make, inv: s1585::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1586, name: "Fn system leaf 6", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1586::make, inv: s1586::inv },
    Shape { sid: 1587, name: "Fn efiapi leaf 6", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1587::make, inv: s1587::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1588, name: "Fn sysv64 leaf 6", kind: Kind::Fn, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1588::make, inv: s1588::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1589, name: "Fn fastcall leaf 6", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1589::make, inv: s1589::inv },
    Shape { sid: 1590, name: "FnMut Rust leaf 6", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1590::make, inv: s1590::inv },
    Shape { sid: 1591, name: "FnMut C leaf 6", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1591::make, inv: s1591::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1592, name: "FnMut system leaf 6", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1592::make, inv: s1592::inv },
    Shape { sid: 1593, name: "FnMut efiapi leaf 6", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1593::make, inv: s1593::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1594, name: "FnMut sysv64 leaf 6", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1594::make, inv: s1594::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1595, name: "FnMut fastcall leaf 6", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1595::make, inv: s1595::inv },
    Shape { sid: 1596, name: "FnOnce Rust leaf 6", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1596::make, inv: s1596::inv },
    Shape { sid: 1597, name: "FnOnce C leaf 6", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1597::make, inv: s1597::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1598, name: "FnOnce system leaf 6", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1598::make, inv: s1598::inv },
    Shape { sid: 1599, name: "FnOnce efiapi leaf 6", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1599::make, inv: s1599::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1600, name: "FnOnce sysv64 leaf 6", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1600::make, inv: s1600::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1601, name: "FnOnce fastcall leaf 6", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1601::make, inv: s1601::inv },
    Shape { sid: 1602, name: "Fn Rust leaf 7", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1602::make, inv: s1602::inv },
    Shape { sid: 1603, name: "Fn C leaf 7", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1603::make, inv: s1603::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1604, name: "Fn C-unwind leaf 7", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1604::make, inv: s1604::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1605, name: "Fn win64 leaf 7", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1605::make, inv: s1605::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1606, name: "Fn cdecl leaf 7", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1606::make, inv: s1606::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1607, name: "Fn aapcs leaf 7", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1607::make, inv: s1607::inv },
    Shape { sid: 1608, name: "FnMut Rust leaf 7", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1608::make, inv: s1608::inv },
    Shape { sid: 1609, name: "FnMut C leaf 7", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1609::make, inv: s1609::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1610, name: "FnMut C-unwind leaf 7", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1610::make, inv: s1610::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1611, name: "FnMut win64 leaf 7", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1611::make, inv: s1611::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1612, name: "FnMut cdecl leaf 7", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1612::make, inv: s1612::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1613, name: "FnMut aapcs leaf 7", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1613::make, inv: s1613::inv },
    Shape { sid: 1614, name: "FnOnce Rust leaf 7", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1614::make, inv: s1614::inv },
    Shape { sid: 1615, name: "FnOnce C leaf 7", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1615::make, inv: s1615::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1616, name: "FnOnce C-unwind leaf 7", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1616::make, inv: s1616::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1617, name: "FnOnce win64 leaf 7", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1617::make, inv: s1617::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1618, name: "FnOnce cdecl leaf 7", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1618::make, inv: s1618::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1619, name: "FnOnce aapcs leaf 7", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1619::make, inv: s1619::inv },
    Shape { sid: 1620, name: "Fn Rust leaf 8", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1620::make, inv: s1620::inv },
    Shape { sid: 1621, name: "Fn C leaf 8", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1621::make, inv: s1621::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1622, name: "Fn system leaf 8", kind: Kind::Fn, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1622::make, inv: s1622::inv },
    Shape { sid: 1623, name: "Fn efiapi leaf 8", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1623::make, inv: s1623::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1624, name: "Fn sysv64 leaf 8", kind: Kind::Fn, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1624::make, inv: s1624::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1625, name: "Fn fastcall leaf 8", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1625::make, inv: s1625::inv },
    Shape { sid: 1626, name: "FnMut Rust leaf 8", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1626::make, inv: s1626::inv },
    Shape { sid: 1627, name: "FnMut C leaf 8", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1627::make, inv: s1627::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1628, name: "FnMut system leaf 8", kind: Kind::FnMut, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1628::make, inv: s1628::inv },
    Shape { sid: 1629, name: "FnMut efiapi leaf 8", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1629::make, inv: s1629::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1630, name: "FnMut sysv64 leaf 8", kind: Kind::FnMut, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1630::make, inv: s1630::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1631, name: "FnMut fastcall leaf 8", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1631::make, inv: s1631::inv },
    Shape { sid: 1632, name: "FnOnce Rust leaf 8", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1632::make, inv: s1632::inv },
    Shape { sid: 1633, name: "FnOnce C leaf 8", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1633::make, inv: s1633::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1634, name: "FnOnce system leaf 8", kind: Kind::FnOnce, cc: "system", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1634::make, inv: s1634::inv },
    Shape { sid: 1635, name: "FnOnce efiapi leaf 8", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1635::make, inv: s1635::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1636, name: "FnOnce sysv64 leaf 8", kind: Kind::FnOnce, cc: "sysv64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1636::make, inv: s1636::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1637, name: "FnOnce fastcall leaf 8", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1637::make, inv: s1637::inv },
    Shape { sid: 1638, name: "Fn Rust leaf 9", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1638::make, inv: s1638::inv },
    Shape { sid: 1639, name: "Fn C leaf 9", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1639::make, inv: s1639::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1640, name: "Fn C-unwind leaf 9", kind: Kind::Fn, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1640::make, inv: s1640::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1641, name: "Fn win64 leaf 9", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1641::make, inv: s1641::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1642, name: "Fn cdecl leaf 9", kind: Kind::Fn, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1642::make, inv: s1642::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1643, name: "Fn aapcs leaf 9", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1643::make, inv: s1643::inv },
    Shape { sid: 1644, name: "FnMut Rust leaf 9", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1644::make, inv: s1644::inv },
    Shape { sid: 1645, name: "FnMut C leaf 9", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1645::make, inv: s1645::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1646, name: "FnMut C-unwind leaf 9", kind: Kind::FnMut, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1646::make, inv: s1646::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1647, name: "FnMut win64 leaf 9", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1647::make, inv: s1647::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1648, name: "FnMut cdecl leaf 9", kind: Kind::FnMut, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1648::make, inv: s1648::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1649, name: "FnMut aapcs leaf 9", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1649::make, inv: s1649::inv },
    Shape { sid: 1650, name: "FnOnce Rust leaf 9", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1650::make, inv: s1650::inv },
    Shape { sid: 1651, name: "FnOnce C leaf 9", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1651::make, inv: s1651::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1652, name: "FnOnce C-unwind leaf 9", kind: Kind::FnOnce, cc: "C-unwind", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1652::make, inv: s1652::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1653, name: "FnOnce win64 leaf 9", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1653::make, inv: s1653::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1654, name: "FnOnce cdecl leaf 9", kind: Kind::FnOnce, cc: "cdecl", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1654::make, inv: s1654::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1655, name: "FnOnce aapcs leaf 9", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1655::make, inv: s1655::inv },
    Shape { sid: 1656, name: "Fn Rust leaf 10", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1656::make, inv: s1656::inv },
    Shape { sid: 1657, name: "Fn C leaf 10", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1657::make, inv: s1657::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1658, name: "Fn system leaf 10", kind: Kind::Fn, cc: "system", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1658::make, inv: s1658::inv },
    Shape { sid: 1659, name: "Fn efiapi leaf 10", kind: Kind::Fn, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1659::make, inv: s1659::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1660, name: "Fn sysv64 leaf 10", kind: Kind::Fn, cc: "sysv64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1660::make, inv: s1660::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1661, name: "Fn fastcall leaf 10", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1661::make, inv: s1661::inv },
    Shape { sid: 1662, name: "FnMut Rust leaf 10", kind: Kind::FnMut, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1662::make, inv: s1662::inv },
    Shape { sid: 1663, name: "FnMut C leaf 10", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1663::make, inv: s1663::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1664, name: "FnMut system leaf 10", kind: Kind::FnMut, cc: "system", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1664::make, inv: s1664::inv },
    Shape { sid: 1665, name: "FnMut efiapi leaf 10", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1665::make, inv: s1665::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1666, name: "FnMut sysv64 leaf 10", kind: Kind::FnMut, cc: "sysv64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1666::make, inv: s1666::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1667, name: "FnMut fastcall leaf 10", kind: Kind::FnMut, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1667::make, inv: s1667::inv },
    Shape { sid: 1668, name: "FnOnce Rust leaf 10", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1668::make, inv: s1668::inv },
    Shape { sid: 1669, name: "FnOnce C leaf 10", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1669::make, inv: s1669::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1670, name: "FnOnce system leaf 10", kind: Kind::FnOnce, cc: "system", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1670::make, inv: s1670::inv },
    Shape { sid: 1671, name: "FnOnce efiapi leaf 10", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1671::make, inv: s1671::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1672, name: "FnOnce sysv64 leaf 10", kind: Kind::FnOnce, cc: "sysv64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1672::make, inv: s1672::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1673, name: "FnOnce fastcall leaf 10", kind: Kind::FnOnce, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1673::make, inv: s1673::inv },
    Shape { sid: 1674, name: "Fn Rust leaf 11", kind: Kind::Fn, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1674::make, inv: s1674::inv },
    Shape { sid: 1675, name: "Fn C leaf 11", kind: Kind::Fn, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1675::make, inv: s1675::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1676, name: "Fn C-unwind leaf 11", kind: Kind::Fn, cc: "C-unwind", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1676::make, inv: s1676::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1677, name: "Fn win64 leaf 11", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1677::make, inv: s1677::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1678, name: "Fn cdecl leaf 11", kind: Kind::Fn, cc: "cdecl", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1678::make, inv: s1678::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1679, name: "Fn aapcs leaf 11", kind: Kind::Fn, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1679::make, inv: s1679::inv },
    Shape { sid: 1680, name: "FnMut Rust leaf 11", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1680::make, inv: s1680::inv },
    Shape { sid: 1681, name: "FnMut C leaf 11", kind: Kind::FnMut, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1681::make, inv: s1681::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1682, name: "FnMut C-unwind leaf 11", kind: Kind::FnMut, cc: "C-unwind", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1682::make, inv: s1682::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1683, name: "FnMut win64 leaf 11", kind: Kind::FnMut, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1683::make, inv: s1683::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1684, name: "FnMut cdecl leaf 11", kind: Kind::FnMut, cc: "cdecl", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1684::make, inv: s1684::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1685, name: "FnMut aapcs leaf 11", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1685::make, inv: s1685::inv },
    Shape { sid: 1686, name: "FnOnce Rust leaf 11", kind: Kind::FnOnce, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1686::make, inv: s1686::inv },
    Shape { sid: 1687, name: "FnOnce C leaf 11", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1687::make, inv: s1687::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1688, name: "FnOnce C-unwind leaf 11", kind: Kind::FnOnce, cc: "C-unwind", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1688::make, inv: s1688::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1689, name: "FnOnce win64 leaf 11", kind: Kind::FnOnce, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1689::make, inv: s1689::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1690, name: "FnOnce cdecl leaf 11", kind: Kind::FnOnce, cc: "cdecl", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1690::make, inv: s1690::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1691, name: "FnOnce aapcs leaf 11", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1691::make, inv: s1691::inv },
    Shape { sid: 1692, name: "Fn Rust leaf 12", kind: Kind::Fn, cc: "Rust", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1692::make, inv: s1692::inv },
    Shape { sid: 1693, name: "Fn C leaf 12", kind: Kind::Fn, cc: "C", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1693::make, inv: s1693::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1694, name: "Fn system leaf 12", kind: Kind::Fn, cc: "system", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1694::make, inv: s1694::inv },
    Shape { sid: 1695, name: "Fn efiapi leaf 12", kind: Kind::Fn, cc: "efiapi", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1695::make, inv: s1695::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1696, name: "Fn sysv64 leaf 12", kind: Kind::Fn, cc: "sysv64", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1696::make, inv: s1696::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1697, name: "Fn fastcall leaf 12", kind: Kind::Fn, cc: "fastcall", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1697::make, inv: s1697::inv },
    Shape { sid: 1698, name: "FnMut Rust leaf 12", kind: Kind::FnMut, cc: "Rust", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1698::make, inv: s1698::inv },
    Shape { sid: 1699, name: "FnMut C leaf 12", kind: Kind::FnMut, cc: "C", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1699::make, inv: s1699::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1700, name: "FnMut system leaf 12", kind: Kind::FnMut, cc: "system", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1700::make, inv: s1700::inv },
    Shape { sid: 1701, name: "FnMut efiapi leaf 12", kind: Kind::FnMut, cc: "efiapi", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1701::make, inv: s1701::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1702, name: "FnMut sysv64 leaf 12", kind: Kind::FnMut, cc: "sysv64", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1702::make, inv: s1702::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1703, name: "FnMut fastcall leaf 12", kind: Kind::FnMut, cc: "fastcall", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1703::make, inv: s1703::inv },
    Shape { sid: 1704, name: "FnOnce Rust leaf 12", kind: Kind::FnOnce, cc: "Rust", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1704::make, inv: s1704::inv },
    Shape { sid: 1705, name: "FnOnce C leaf 12", kind: Kind::FnOnce, cc: "C", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1705::make, inv: s1705::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1706, name: "FnOnce system leaf 12", kind: Kind::FnOnce, cc: "system", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1706::make, inv: s1706::inv },
    Shape { sid: 1707, name: "FnOnce efiapi leaf 12", kind: Kind::FnOnce, cc: "efiapi", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1707::make, inv: s1707::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1708, name: "FnOnce sysv64 leaf 12", kind: Kind::FnOnce, cc: "sysv64", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1708::make, inv: s1708::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1709, name: "FnOnce fastcall leaf 12", kind: Kind::FnOnce, cc: "fastcall", arity: 9, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1709::make, inv: s1709::inv },
    Shape { sid: 1710, name: "Fn Rust leaf 13", kind: Kind::Fn, cc: "Rust", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1710::make, inv: s1710::inv },
    Shape { sid: 1711, name: "Fn C leaf 13", kind: Kind::Fn, cc: "C", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1711::make, inv: s1711::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1712, name: "Fn C-unwind leaf 13", kind: Kind::Fn, cc: "C-unwind", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1712::make, inv: s1712::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1713, name: "Fn win64 leaf 13", kind: Kind::Fn, cc: "win64", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1713::make, inv: s1713::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1714, name: "Fn cdecl leaf 13", kind: Kind::Fn, cc: "cdecl", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1714::make, inv: s1714::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1715, name: "Fn aapcs leaf 13", kind: Kind::Fn, cc: "aapcs", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1715::make, inv: s1715::inv },
    Shape { sid: 1716, name: "FnMut Rust leaf 13", kind: Kind::FnMut, cc: "Rust", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1716::make, inv: s1716::inv },
    Shape { sid: 1717, name: "FnMut C leaf 13", kind: Kind::FnMut, cc: "C", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1717::make, inv: s1717::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1718, name: "FnMut C-unwind leaf 13", kind: Kind::FnMut, cc: "C-unwind", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1718::make, inv: s1718::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1719, name: "FnMut win64 leaf 13", kind: Kind::FnMut, cc: "win64", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1719::make, inv: s1719::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1720, name: "FnMut cdecl leaf 13", kind: Kind::FnMut, cc: "cdecl", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1720::make, inv: s1720::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1721, name: "FnMut aapcs leaf 13", kind: Kind::FnMut, cc: "aapcs", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1721::make, inv: s1721::inv },
    Shape { sid: 1722, name: "FnOnce Rust leaf 13", kind: Kind::FnOnce, cc: "Rust", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1722::make, inv: s1722::inv },
    Shape { sid: 1723, name: "FnOnce C leaf 13", kind: Kind::FnOnce, cc: "C", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1723::make, inv: s1723::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1724, name: "FnOnce C-unwind leaf 13", kind: Kind::FnOnce, cc: "C-unwind", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1724::make, inv: s1724::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1725, name: "FnOnce win64 leaf 13", kind: Kind::FnOnce, cc: "win64", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1725::make, inv: s1725::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1726, name: "FnOnce cdecl leaf 13", kind: Kind::FnOnce, cc: "cdecl", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1726::make, inv: s1726::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1727, name: "FnOnce aapcs leaf 13", kind: Kind::FnOnce, cc: "aapcs", arity: 7, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1727::make, inv: s1727::inv },
    Shape { sid: 1728, name: "Fn Rust leaf 14", kind: Kind::Fn, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1728::make, inv: s1728::inv },
    Shape { sid: 1729, name: "Fn C leaf 14", kind: Kind::Fn, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1729::make, inv: s1729::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1730, name: "Fn system leaf 14", kind: Kind::Fn, cc: "system", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1730::make, inv: s1730::inv },
    Shape { sid: 1731, name: "Fn efiapi leaf 14", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1731::make, inv: s1731::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1732, name: "Fn sysv64 leaf 14", kind: Kind::Fn, cc: "sysv64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1732::make, inv: s1732::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1733, name: "Fn fastcall leaf 14", kind: Kind::Fn, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1733::make, inv: s1733::inv },
    Shape { sid: 1734, name: "FnMut Rust leaf 14", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1734::make, inv: s1734::inv },
    Shape { sid: 1735, name: "FnMut C leaf 14", kind: Kind::FnMut, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1735::make, inv: s1735::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1736, name: "FnMut system leaf 14", kind: Kind::FnMut, cc: "system", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1736::make, inv: s1736::inv },
    Shape { sid: 1737, name: "FnMut efiapi leaf 14", kind: Kind::FnMut, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1737::make, inv: s1737::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1738, name: "FnMut sysv64 leaf 14", kind: Kind::FnMut, cc: "sysv64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1738::make, inv: s1738::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1739, name: "FnMut fastcall leaf 14", kind: Kind::FnMut, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1739::make, inv: s1739::inv },
    Shape { sid: 1740, name: "FnOnce Rust leaf 14", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1740::make, inv: s1740::inv },
    Shape { sid: 1741, name: "FnOnce C leaf 14", kind: Kind::FnOnce, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1741::make, inv: s1741::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1742, name: "FnOnce system leaf 14", kind: Kind::FnOnce, cc: "system", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1742::make, inv: s1742::inv },
    Shape { sid: 1743, name: "FnOnce efiapi leaf 14", kind: Kind::FnOnce, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1743::make, inv: s1743::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1744, name: "FnOnce sysv64 leaf 14", kind: Kind::FnOnce, cc: "sysv64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1744::make, inv: s1744::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1745, name: "FnOnce fastcall leaf 14", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1745::make, inv: s1745::inv },
    Shape { sid: 1746, name: "Fn Rust leaf 15", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1746::make, inv: s1746::inv },
    Shape { sid: 1747, name: "Fn C leaf 15", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1747::make, inv: s1747::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1748, name: "Fn C-unwind leaf 15", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1748::make, inv: s1748::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1749, name: "Fn win64 leaf 15", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1749::make, inv: s1749::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1750, name: "Fn cdecl leaf 15", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1750::make, inv: s1750::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1751, name: "Fn aapcs leaf 15", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1751::make, inv: s1751::inv },
    Shape { sid: 1752, name: "FnMut Rust leaf 15", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1752::make, inv: s1752::inv },
    Shape { sid: 1753, name: "FnMut C leaf 15", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1753::make, inv: s1753::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1754, name: "FnMut C-unwind leaf 15", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1754::make, inv: s1754::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1755, name: "FnMut win64 leaf 15", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1755::make, inv: s1755::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1756, name: "FnMut cdecl leaf 15", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1756::make, inv: s1756::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1757, name: "FnMut aapcs leaf 15", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1757::make, inv: s1757::inv },
    Shape { sid: 1758, name: "FnOnce Rust leaf 15", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1758::make, inv: s1758::inv },
    Shape { sid: 1759, name: "FnOnce C leaf 15", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1759::make, inv: s1759::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1760, name: "FnOnce C-unwind leaf 15", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1760::make, inv: s1760::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1761, name: "FnOnce win64 leaf 15", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1761::make, inv: s1761::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1762, name: "FnOnce cdecl leaf 15", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1762::make, inv: s1762::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1763, name: "FnOnce aapcs leaf 15", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1763::make, inv: s1763::inv },
    Shape { sid: 1764, name: "Fn Rust leaf 16", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1764::make, inv: s1764::inv },
    Shape { sid: 1765, name: "Fn C leaf 16", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1765::make, inv: s1765::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1766, name: "Fn system leaf 16", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1766::make, inv: s1766::inv },
    Shape { sid: 1767, name: "Fn efiapi leaf 16", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1767::make, inv: s1767::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1768, name: "Fn sysv64 leaf 16", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1768::make, inv: s1768::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1769, name: "Fn fastcall leaf 16", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1769::make, inv: s1769::inv },
    Shape { sid: 1770, name: "FnMut Rust leaf 16", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1770::make, inv: s1770::inv },
    Shape { sid: 1771, name: "FnMut C leaf 16", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1771::make, inv: s1771::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1772, name: "FnMut system leaf 16", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1772::make, inv: s1772::inv },
    Shape { sid: 1773, name: "FnMut efiapi leaf 16", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1773::make, inv: s1773::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1774, name: "FnMut sysv64 leaf 16", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1774::make, inv: s1774::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1775, name: "FnMut fastcall leaf 16", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1775::make, inv: s1775::inv },
    Shape { sid: 1776, name: "FnOnce Rust leaf 16", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1776::make, inv: s1776::inv },
    Shape { sid: 1777, name: "FnOnce C leaf 16", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1777::make, inv: s1777::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1778, name: "FnOnce system leaf 16", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1778::make, inv: s1778::inv },
    Shape { sid: 1779, name: "FnOnce efiapi leaf 16", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1779::make, inv: s1779::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1780, name: "FnOnce sysv64 leaf 16", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1780::make, inv: s1780::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1781, name: "FnOnce fastcall leaf 16", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1781::make, inv: s1781::inv },
    Shape { sid: 1782, name: "Fn Rust leaf 17", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1782::make, inv: s1782::inv },
    Shape { sid: 1783, name: "Fn C leaf 17", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1783::make, inv: s1783::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1784, name: "Fn C-unwind leaf 17", kind: Kind::Fn, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1784::make, inv: s1784::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1785, name: "Fn win64 leaf 17", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1785::make, inv: s1785::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1786, name: "Fn cdecl leaf 17", kind: Kind::Fn, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1786::make, inv: s1786::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1787, name: "Fn aapcs leaf 17", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1787::make, inv: s1787::inv },
    Shape { sid: 1788, name: "FnMut Rust leaf 17", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1788::make, inv: s1788::inv },
    Shape { sid: 1789, name: "FnMut C leaf 17", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1789::make, inv: s1789::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1790, name: "FnMut C-unwind leaf 17", kind: Kind::FnMut, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1790::make, inv: s1790::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1791, name: "FnMut win64 leaf 17", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1791::make, inv: s1791::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1792, name: "FnMut cdecl leaf 17", kind: Kind::FnMut, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1792::make, inv: s1792::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1793, name: "FnMut aapcs leaf 17", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1793::make, inv: s1793::inv },
    Shape { sid: 1794, name: "FnOnce Rust leaf 17", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1794::make, inv: s1794::inv },
    Shape { sid: 1795, name: "FnOnce C leaf 17", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1795::make, inv: s1795::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1796, name: "FnOnce C-unwind leaf 17", kind: Kind::FnOnce, cc: "C-unwind", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1796::make, inv: s1796::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1797, name: "FnOnce win64 leaf 17", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1797::make, inv: s1797::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1798, name: "FnOnce cdecl leaf 17", kind: Kind::FnOnce, cc: "cdecl", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1798::make, inv: s1798::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1799, name: "FnOnce aapcs leaf 17", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1799::make, inv: s1799::inv },
    Shape { sid: 1800, name: "Fn Rust leaf 18", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1800::make, inv: s1800::inv },
    Shape { sid: 1801, name: "Fn C leaf 18", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1801::make, inv: s1801::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1802, name: "Fn system leaf 18", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1802::make, inv: s1802::inv },
    Shape { sid: 1803, name: "Fn efiapi leaf 18", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1803::make, inv: s1803::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1804, name: "Fn sysv64 leaf 18", kind: Kind::Fn, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1804::make, inv: s1804::inv },
    Shape { sid: 1805, name: "FnMut Rust leaf 18", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1805::make, inv: s1805::inv },
    Shape { sid: 1806, name: "FnMut C leaf 18", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1806::make, inv: s1806::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1807, name: "FnMut system leaf 18", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1807::make, inv: s1807::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1808, name: "FnMut efiapi leaf 18", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1808::make, inv: s1808::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1809, name: "FnMut sysv64 leaf 18", kind: Kind::FnMut, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1809::make, inv: s1809::inv },
    Shape { sid: 1810, name: "FnOnce Rust leaf 18", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1810::make, inv: s1810::inv },
    Shape { sid: 1811, name: "FnOnce C leaf 18", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1811::make, inv: s1811::inv },
    Shape { sid: 1812, name: "FnOnce system leaf 18", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1812::make, inv: s1812::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1813, name: "FnOnce efiapi leaf 18", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1813::make, inv: s1813::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1814, name: "FnOnce sysv64 leaf 18", kind: Kind::FnOnce, cc: "sysv64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1814::make, inv: s1814::inv },
    Shape { sid: 1815, name: "Fn efiapi leaf 19", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1815::make, inv: s1815::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1816, name: "Fn win64 leaf 19", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1816::make, inv: s1816::inv },
    Shape { sid: 1817, name: "FnMut Rust leaf 19", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1817::make, inv: s1817::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1818, name: "FnMut aapcs leaf 19", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1818::make, inv: s1818::inv },
    Shape { sid: 1819, name: "FnOnce C leaf 19", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1819::make, inv: s1819::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1820, name: "FnOnce fastcall leaf 19", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1820::make, inv: s1820::inv },
    Shape { sid: 1821, name: "Fn C leaf 20", kind: Kind::Fn, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1821::make, inv: s1821::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1822, name: "Fn fastcall leaf 20", kind: Kind::Fn, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1822::make, inv: s1822::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1823, name: "FnMut efiapi leaf 20", kind: Kind::FnMut, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1823::make, inv: s1823::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1824, name: "FnMut win64 leaf 20", kind: Kind::FnMut, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1824::make, inv: s1824::inv },
    Shape { sid: 1825, name: "FnOnce Rust leaf 20", kind: Kind::FnOnce, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1825::make, inv: s1825::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1826, name: "FnOnce aapcs leaf 20", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1826::make, inv: s1826::inv },
    Shape { sid: 1827, name: "Fn Rust leaf 21", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1827::make, inv: s1827::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1828, name: "Fn aapcs leaf 21", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1828::make, inv: s1828::inv },
    Shape { sid: 1829, name: "FnMut C leaf 21", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1829::make, inv: s1829::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1830, name: "FnMut fastcall leaf 21", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1830::make, inv: s1830::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1831, name: "FnOnce efiapi leaf 21", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1831::make, inv: s1831::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1832, name: "FnOnce win64 leaf 21", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1832::make, inv: s1832::inv },
    Shape { sid: 1833, name: "Fn efiapi leaf 22", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1833::make, inv: s1833::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1834, name: "Fn win64 leaf 22", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1834::make, inv: s1834::inv },
    Shape { sid: 1835, name: "FnMut Rust leaf 22", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1835::make, inv: s1835::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1836, name: "FnMut aapcs leaf 22", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1836::make, inv: s1836::inv },
    Shape { sid: 1837, name: "FnOnce C leaf 22", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1837::make, inv: s1837::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1838, name: "FnOnce fastcall leaf 22", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1838::make, inv: s1838::inv },
    Shape { sid: 1839, name: "Fn C leaf 23", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1839::make, inv: s1839::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1840, name: "Fn fastcall leaf 23", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1840::make, inv: s1840::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1841, name: "FnMut efiapi leaf 23", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1841::make, inv: s1841::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1842, name: "FnMut win64 leaf 23", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1842::make, inv: s1842::inv },
    Shape { sid: 1843, name: "FnOnce Rust leaf 23", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1843::make, inv: s1843::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1844, name: "FnOnce aapcs leaf 23", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1844::make, inv: s1844::inv },
    Shape { sid: 1845, name: "Fn Rust leaf 24", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1845::make, inv: s1845::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1846, name: "Fn aapcs leaf 24", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1846::make, inv: s1846::inv },
    Shape { sid: 1847, name: "FnMut C leaf 24", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1847::make, inv: s1847::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1848, name: "FnMut fastcall leaf 24", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1848::make, inv: s1848::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1849, name: "FnOnce efiapi leaf 24", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1849::make, inv: s1849::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1850, name: "FnOnce win64 leaf 24", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1850::make, inv: s1850::inv },
    Shape { sid: 1851, name: "Fn efiapi leaf 25", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1851::make, inv: s1851::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1852, name: "Fn win64 leaf 25", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1852::make, inv: s1852::inv },
    Shape { sid: 1853, name: "FnMut Rust leaf 25", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1853::make, inv: s1853::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1854, name: "FnMut aapcs leaf 25", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1854::make, inv: s1854::inv },
    Shape { sid: 1855, name: "FnOnce C leaf 25", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1855::make, inv: s1855::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1856, name: "FnOnce fastcall leaf 25", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1856::make, inv: s1856::inv },
    Shape { sid: 1857, name: "Fn C leaf 26", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1857::make, inv: s1857::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1858, name: "Fn fastcall leaf 26", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1858::make, inv: s1858::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1859, name: "FnMut efiapi leaf 26", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1859::make, inv: s1859::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1860, name: "FnMut win64 leaf 26", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1860::make, inv: s1860::inv },
    Shape { sid: 1861, name: "FnOnce Rust leaf 26", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1861::make, inv: s1861::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1862, name: "FnOnce aapcs leaf 26", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1862::make, inv: s1862::inv },
    Shape { sid: 1863, name: "Fn Rust leaf 27", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1863::make, inv: s1863::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1864, name: "Fn aapcs leaf 27", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1864::make, inv: s1864::inv },
    Shape { sid: 1865, name: "FnMut C leaf 27", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1865::make, inv: s1865::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1866, name: "FnMut fastcall leaf 27", kind: Kind::FnMut, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1866::make, inv: s1866::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1867, name: "FnOnce efiapi leaf 27", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1867::make, inv: s1867::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1868, name: "FnOnce win64 leaf 27", kind: Kind::FnOnce, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1868::make, inv: s1868::inv },
    Shape { sid: 1869, name: "Fn efiapi leaf 28", kind: Kind::Fn, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1869::make, inv: s1869::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1870, name: "Fn win64 leaf 28", kind: Kind::Fn, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1870::make, inv: s1870::inv },
    Shape { sid: 1871, name: "FnMut Rust leaf 28", kind: Kind::FnMut, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1871::make, inv: s1871::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1872, name: "FnMut aapcs leaf 28", kind: Kind::FnMut, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1872::make, inv: s1872::inv },
    Shape { sid: 1873, name: "FnOnce C leaf 28", kind: Kind::FnOnce, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1873::make, inv: s1873::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1874, name: "FnOnce fastcall leaf 28", kind: Kind::FnOnce, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1874::make, inv: s1874::inv },
    Shape { sid: 1875, name: "Fn C leaf 29", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1875::make, inv: s1875::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1876, name: "Fn fastcall leaf 29", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1876::make, inv: s1876::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1877, name: "FnMut efiapi leaf 29", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1877::make, inv: s1877::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1878, name: "FnMut win64 leaf 29", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1878::make, inv: s1878::inv },
    Shape { sid: 1879, name: "FnOnce Rust leaf 29", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1879::make, inv: s1879::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1880, name: "FnOnce aapcs leaf 29", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1880::make, inv: s1880::inv },
    Shape { sid: 1881, name: "Fn Rust leaf 30", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1881::make, inv: s1881::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1882, name: "Fn aapcs leaf 30", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1882::make, inv: s1882::inv },
    Shape { sid: 1883, name: "FnMut C leaf 30", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1883::make, inv: s1883::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1884, name: "FnMut fastcall leaf 30", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1884::make, inv: s1884::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1885, name: "FnOnce efiapi leaf 30", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1885::make, inv: s1885::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1886, name: "FnOnce win64 leaf 30", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1886::make, inv: s1886::inv },
    Shape { sid: 1887, name: "Fn efiapi leaf 31", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1887::make, inv: s1887::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1888, name: "Fn win64 leaf 31", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1888::make, inv: s1888::inv },
    Shape { sid: 1889, name: "FnMut Rust leaf 31", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1889::make, inv: s1889::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1890, name: "FnMut aapcs leaf 31", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1890::make, inv: s1890::inv },
    Shape { sid: 1891, name: "FnOnce C leaf 31", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1891::make, inv: s1891::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1892, name: "FnOnce fastcall leaf 31", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1892::make, inv: s1892::inv },
    Shape { sid: 1893, name: "Fn C leaf 32", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1893::make, inv: s1893::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1894, name: "Fn fastcall leaf 32", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1894::make, inv: s1894::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1895, name: "FnMut efiapi leaf 32", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1895::make, inv: s1895::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1896, name: "FnMut win64 leaf 32", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1896::make, inv: s1896::inv },
    Shape { sid: 1897, name: "FnOnce Rust leaf 32", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1897::make, inv: s1897::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1898, name: "FnOnce aapcs leaf 32", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1898::make, inv: s1898::inv },
    Shape { sid: 1899, name: "Fn Rust leaf 33", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1899::make, inv: s1899::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1900, name: "Fn aapcs leaf 33", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1900::make, inv: s1900::inv },
    Shape { sid: 1901, name: "FnMut C leaf 33", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1901::make, inv: s1901::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1902, name: "FnMut fastcall leaf 33", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1902::make, inv: s1902::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1903, name: "FnOnce efiapi leaf 33", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1903::make, inv: s1903::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1904, name: "FnOnce win64 leaf 33", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1904::make, inv: s1904::inv },
    Shape { sid: 1905, name: "Fn efiapi leaf 34", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1905::make, inv: s1905::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1906, name: "Fn win64 leaf 34", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1906::make, inv: s1906::inv },
    Shape { sid: 1907, name: "FnMut Rust leaf 34", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1907::make, inv: s1907::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1908, name: "FnMut aapcs leaf 34", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1908::make, inv: s1908::inv },
    Shape { sid: 1909, name: "FnOnce C leaf 34", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1909::make, inv: s1909::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1910, name: "FnOnce fastcall leaf 34", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1910::make, inv: s1910::inv },
    Shape { sid: 1911, name: "Fn C leaf 35", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1911::make, inv: s1911::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1912, name: "Fn fastcall leaf 35", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1912::make, inv: s1912::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1913, name: "FnMut efiapi leaf 35", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1913::make, inv: s1913::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1914, name: "FnMut win64 leaf 35", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1914::make, inv: s1914::inv },
    Shape { sid: 1915, name: "FnOnce Rust leaf 35", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1915::make, inv: s1915::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1916, name: "FnOnce aapcs leaf 35", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1916::make, inv: s1916::inv },
    Shape { sid: 1917, name: "Fn Rust leaf 36", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1917::make, inv: s1917::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1918, name: "Fn aapcs leaf 36", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1918::make, inv: s1918::inv },
    Shape { sid: 1919, name: "FnMut C leaf 36", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1919::make, inv: s1919::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1920, name: "FnMut fastcall leaf 36", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1920::make, inv: s1920::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1921, name: "FnOnce efiapi leaf 36", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1921::make, inv: s1921::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1922, name: "FnOnce win64 leaf 36", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1922::make, inv: s1922::inv },
    Shape { sid: 1923, name: "Fn efiapi leaf 37", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1923::make, inv: s1923::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1924, name: "Fn win64 leaf 37", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1924::make, inv: s1924::inv },
    Shape { sid: 1925, name: "FnMut Rust leaf 37", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1925::make, inv: s1925::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1926, name: "FnMut aapcs leaf 37", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1926::make, inv: s1926::inv },
    Shape { sid: 1927, name: "FnOnce C leaf 37", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1927::make, inv: s1927::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1928, name: "FnOnce fastcall leaf 37", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1928::make, inv: s1928::inv },
    Shape { sid: 1929, name: "Fn C leaf 38", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1929::make, inv: s1929::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1930, name: "Fn fastcall leaf 38", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1930::make, inv: s1930::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1931, name: "FnMut efiapi leaf 38", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1931::make, inv: s1931::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1932, name: "FnMut win64 leaf 38", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1932::make, inv: s1932::inv },
    Shape { sid: 1933, name: "FnOnce Rust leaf 38", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1933::make, inv: s1933::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1934, name: "FnOnce aapcs leaf 38", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1934::make, inv: s1934::inv },
    Shape { sid: 1935, name: "Fn Rust leaf 39", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1935::make, inv: s1935::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1936, name: "Fn aapcs leaf 39", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1936::make, inv: s1936::inv },
    Shape { sid: 1937, name: "FnMut C leaf 39", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1937::make, inv: s1937::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1938, name: "FnMut fastcall leaf 39", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1938::make, inv: s1938::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1939, name: "FnOnce efiapi leaf 39", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1939::make, inv: s1939::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1940, name: "FnOnce win64 leaf 39", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1940::make, inv: s1940::inv },
    Shape { sid: 1941, name: "Fn efiapi leaf 40", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1941::make, inv: s1941::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1942, name: "Fn win64 leaf 40", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1942::make, inv: s1942::inv },
    Shape { sid: 1943, name: "FnMut Rust leaf 40", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1943::make, inv: s1943::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1944, name: "FnMut aapcs leaf 40", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1944::make, inv: s1944::inv },
    Shape { sid: 1945, name: "FnOnce C leaf 40", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1945::make, inv: s1945::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1946, name: "FnOnce fastcall leaf 40", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1946::make, inv: s1946::inv },
    Shape { sid: 1947, name: "Fn C leaf 41", kind: Kind::Fn, cc: "C", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1947::make, inv: s1947::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1948, name: "Fn fastcall leaf 41", kind: Kind::Fn, cc: "fastcall", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1948::make, inv: s1948::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1949, name: "FnMut efiapi leaf 41", kind: Kind::FnMut, cc: "efiapi", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1949::make, inv: s1949::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1950, name: "FnMut win64 leaf 41", kind: Kind::FnMut, cc: "win64", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1950::make, inv: s1950::inv },
    Shape { sid: 1951, name: "FnOnce Rust leaf 41", kind: Kind::FnOnce, cc: "Rust", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1951::make, inv: s1951::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1952, name: "FnOnce aapcs leaf 41", kind: Kind::FnOnce, cc: "aapcs", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1952::make, inv: s1952::inv },
    Shape { sid: 1953, name: "Fn Rust leaf 42", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1953::make, inv: s1953::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1954, name: "Fn aapcs leaf 42", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1954::make, inv: s1954::inv },
    Shape { sid: 1955, name: "FnMut C leaf 42", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1955::make, inv: s1955::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1956, name: "FnMut fastcall leaf 42", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1956::make, inv: s1956::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1957, name: "FnOnce efiapi leaf 42", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1957::make, inv: s1957::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1958, name: "FnOnce win64 leaf 42", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1958::make, inv: s1958::inv },
    Shape { sid: 1959, name: "Fn efiapi leaf 43", kind: Kind::Fn, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1959::make, inv: s1959::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1960, name: "Fn win64 leaf 43", kind: Kind::Fn, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1960::make, inv: s1960::inv },
    Shape { sid: 1961, name: "FnMut Rust leaf 43", kind: Kind::FnMut, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1961::make, inv: s1961::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1962, name: "FnMut aapcs leaf 43", kind: Kind::FnMut, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1962::make, inv: s1962::inv },
    Shape { sid: 1963, name: "FnOnce C leaf 43", kind: Kind::FnOnce, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1963::make, inv: s1963::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1964, name: "FnOnce fastcall leaf 43", kind: Kind::FnOnce, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1964::make, inv: s1964::inv },
    Shape { sid: 1965, name: "Fn C leaf 44", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1965::make, inv: s1965::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1966, name: "Fn fastcall leaf 44", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1966::make, inv: s1966::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1967, name: "FnMut efiapi leaf 44", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1967::make, inv: s1967::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1968, name: "FnMut win64 leaf 44", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1968::make, inv: s1968::inv },
    Shape { sid: 1969, name: "FnOnce Rust leaf 44", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1969::make, inv: s1969::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1970, name: "FnOnce aapcs leaf 44", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1970::make, inv: s1970::inv },
    Shape { sid: 1971, name: "Fn Rust leaf 45", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1971::make, inv: s1971::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1972, name: "Fn aapcs leaf 45", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1972::make, inv: s1972::inv },
    Shape { sid: 1973, name: "FnMut C leaf 45", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1973::make, inv: s1973::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1974, name: "FnMut fastcall leaf 45", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1974::make, inv: s1974::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1975, name: "FnOnce efiapi leaf 45", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1975::make, inv: s1975::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1976, name: "FnOnce win64 leaf 45", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1976::make, inv: s1976::inv },
    Shape { sid: 1977, name: "Fn efiapi leaf 46", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1977::make, inv: s1977::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1978, name: "Fn win64 leaf 46", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1978::make, inv: s1978::inv },
    Shape { sid: 1979, name: "FnMut Rust leaf 46", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1979::make, inv: s1979::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1980, name: "FnMut aapcs leaf 46", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1980::make, inv: s1980::inv },
    Shape { sid: 1981, name: "FnOnce C leaf 46", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1981::make, inv: s1981::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1982, name: "FnOnce fastcall leaf 46", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1982::make, inv: s1982::inv },
    Shape { sid: 1983, name: "Fn C leaf 47", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1983::make, inv: s1983::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1984, name: "Fn fastcall leaf 47", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1984::make, inv: s1984::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1985, name: "FnMut efiapi leaf 47", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1985::make, inv: s1985::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 1986, name: "FnMut win64 leaf 47", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1986::make, inv: s1986::inv },
    Shape { sid: 1987, name: "FnOnce Rust leaf 47", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1987::make, inv: s1987::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1988, name: "FnOnce aapcs leaf 47", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1988::make, inv: s1988::inv },
    Shape { sid: 1989, name: "Fn Rust leaf 48", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1989::make, inv: s1989::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1990, name: "Fn aapcs leaf 48", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1990::make, inv: s1990::inv },
    Shape { sid: 1991, name: "FnMut C leaf 48", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1991::make, inv: s1991::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 1992, name: "FnMut fastcall leaf 48", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1992::make, inv: s1992::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 1993, name: "FnOnce efiapi leaf 48", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1993::make, inv: s1993::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1994, name: "FnOnce win64 leaf 48", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1994::make, inv: s1994::inv },
    Shape { sid: 1995, name: "Fn efiapi leaf 49", kind: Kind::Fn, cc: "efiapi", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1995::make, inv: s1995::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 1996, name: "Fn win64 leaf 49", kind: Kind::Fn, cc: "win64", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1996::make, inv: s1996::inv },
    Shape { sid: 1997, name: "FnMut Rust leaf 49", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s1997::make, inv: s1997::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 1998, name: "FnMut aapcs leaf 49", kind: Kind::FnMut, cc: "aapcs", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1998::make, inv: s1998::inv },
    Shape { sid: 1999, name: "FnOnce C leaf 49", kind: Kind::FnOnce, cc: "C", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s1999::make, inv: s1999::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2000, name: "FnOnce fastcall leaf 49", kind: Kind::FnOnce, cc: "fastcall", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2000::make, inv: s2000::inv },
    Shape { sid: 2001, name: "Fn C leaf 50", kind: Kind::Fn, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2001::make, inv: s2001::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2002, name: "Fn fastcall leaf 50", kind: Kind::Fn, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2002::make, inv: s2002::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2003, name: "FnMut efiapi leaf 50", kind: Kind::FnMut, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2003::make, inv: s2003::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2004, name: "FnMut win64 leaf 50", kind: Kind::FnMut, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2004::make, inv: s2004::inv },
    Shape { sid: 2005, name: "FnOnce Rust leaf 50", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2005::make, inv: s2005::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2006, name: "FnOnce aapcs leaf 50", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2006::make, inv: s2006::inv },
    Shape { sid: 2007, name: "Fn Rust leaf 51", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2007::make, inv: s2007::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2008, name: "Fn aapcs leaf 51", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2008::make, inv: s2008::inv },
    Shape { sid: 2009, name: "FnMut C leaf 51", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2009::make, inv: s2009::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2010, name: "FnMut fastcall leaf 51", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2010::make, inv: s2010::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2011, name: "FnOnce efiapi leaf 51", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2011::make, inv: s2011::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2012, name: "FnOnce win64 leaf 51", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2012::make, inv: s2012::inv },
    Shape { sid: 2013, name: "Fn efiapi leaf 52", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2013::make, inv: s2013::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2014, name: "Fn win64 leaf 52", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2014::make, inv: s2014::inv },
    Shape { sid: 2015, name: "FnMut Rust leaf 52", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2015::make, inv: s2015::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2016, name: "FnMut aapcs leaf 52", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2016::make, inv: s2016::inv },
    Shape { sid: 2017, name: "FnOnce C leaf 52", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2017::make, inv: s2017::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2018, name: "FnOnce fastcall leaf 52", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2018::make, inv: s2018::inv },
    Shape { sid: 2019, name: "Fn C leaf 53", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2019::make, inv: s2019::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2020, name: "Fn fastcall leaf 53", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2020::make, inv: s2020::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2021, name: "FnMut efiapi leaf 53", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2021::make, inv: s2021::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2022, name: "FnMut win64 leaf 53", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2022::make, inv: s2022::inv },
    Shape { sid: 2023, name: "FnOnce Rust leaf 53", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2023::make, inv: s2023::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2024, name: "FnOnce aapcs leaf 53", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2024::make, inv: s2024::inv },
    Shape { sid: 2025, name: "Fn Rust leaf 54", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2025::make, inv: s2025::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2026, name: "Fn aapcs leaf 54", kind: Kind::Fn, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2026::make, inv: s2026::inv },
    Shape { sid: 2027, name: "FnMut C leaf 54", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2027::make, inv: s2027::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2028, name: "FnMut fastcall leaf 54", kind: Kind::FnMut, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2028::make, inv: s2028::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2029, name: "FnOnce efiapi leaf 54", kind: Kind::FnOnce, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2029::make, inv: s2029::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2030, name: "FnOnce win64 leaf 54", kind: Kind::FnOnce, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2030::make, inv: s2030::inv },
    Shape { sid: 2031, name: "Fn efiapi leaf 55", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2031::make, inv: s2031::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2032, name: "Fn win64 leaf 55", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2032::make, inv: s2032::inv },
    Shape { sid: 2033, name: "FnMut Rust leaf 55", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2033::make, inv: s2033::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2034, name: "FnMut aapcs leaf 55", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2034::make, inv: s2034::inv },
    Shape { sid: 2035, name: "FnOnce C leaf 55", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2035::make, inv: s2035::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2036, name: "FnOnce fastcall leaf 55", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2036::make, inv: s2036::inv },
    Shape { sid: 2037, name: "Fn C leaf 56", kind: Kind::Fn, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2037::make, inv: s2037::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2038, name: "Fn fastcall leaf 56", kind: Kind::Fn, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2038::make, inv: s2038::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2039, name: "FnMut efiapi leaf 56", kind: Kind::FnMut, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2039::make, inv: s2039::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2040, name: "FnMut win64 leaf 56", kind: Kind::FnMut, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2040::make, inv: s2040::inv },
    Shape { sid: 2041, name: "FnOnce Rust leaf 56", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2041::make, inv: s2041::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2042, name: "FnOnce aapcs leaf 56", kind: Kind::FnOnce, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2042::make, inv: s2042::inv },
    Shape { sid: 2043, name: "Fn Rust leaf 57", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2043::make, inv: s2043::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2044, name: "Fn aapcs leaf 57", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2044::make, inv: s2044::inv },
    Shape { sid: 2045, name: "FnMut C leaf 57", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2045::make, inv: s2045::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2046, name: "FnMut fastcall leaf 57", kind: Kind::FnMut, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2046::make, inv: s2046::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2047, name: "FnOnce efiapi leaf 57", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2047::make, inv: s2047::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2048, name: "FnOnce win64 leaf 57", kind: Kind::FnOnce, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2048::make, inv: s2048::inv },
    Shape { sid: 2049, name: "Fn efiapi leaf 58", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2049::make, inv: s2049::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2050, name: "Fn win64 leaf 58", kind: Kind::Fn, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2050::make, inv: s2050::inv },
    Shape { sid: 2051, name: "FnMut Rust leaf 58", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2051::make, inv: s2051::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2052, name: "FnMut aapcs leaf 58", kind: Kind::FnMut, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2052::make, inv: s2052::inv },
    Shape { sid: 2053, name: "FnOnce C leaf 58", kind: Kind::FnOnce, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2053::make, inv: s2053::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2054, name: "FnOnce fastcall leaf 58", kind: Kind::FnOnce, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2054::make, inv: s2054::inv },
    Shape { sid: 2055, name: "Fn C leaf 59", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2055::make, inv: s2055::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2056, name: "Fn fastcall leaf 59", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2056::make, inv: s2056::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2057, name: "FnMut efiapi leaf 59", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2057::make, inv: s2057::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2058, name: "FnMut win64 leaf 59", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2058::make, inv: s2058::inv },
    Shape { sid: 2059, name: "FnOnce Rust leaf 59", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2059::make, inv: s2059::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2060, name: "FnOnce aapcs leaf 59", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2060::make, inv: s2060::inv },
    Shape { sid: 2061, name: "Fn Rust leaf 60", kind: Kind::Fn, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2061::make, inv: s2061::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2062, name: "Fn aapcs leaf 60", kind: Kind::Fn, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2062::make, inv: s2062::inv },
    Shape { sid: 2063, name: "FnMut C leaf 60", kind: Kind::FnMut, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2063::make, inv: s2063::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2064, name: "FnMut fastcall leaf 60", kind: Kind::FnMut, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2064::make, inv: s2064::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2065, name: "FnOnce efiapi leaf 60", kind: Kind::FnOnce, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2065::make, inv: s2065::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2066, name: "FnOnce win64 leaf 60", kind: Kind::FnOnce, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2066::make, inv: s2066::inv },
    Shape { sid: 2067, name: "Fn efiapi leaf 61", kind: Kind::Fn, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2067::make, inv: s2067::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2068, name: "Fn win64 leaf 61", kind: Kind::Fn, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2068::make, inv: s2068::inv },
    Shape { sid: 2069, name: "FnMut Rust leaf 61", kind: Kind::FnMut, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2069::make, inv: s2069::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2070, name: "FnMut aapcs leaf 61", kind: Kind::FnMut, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2070::make, inv: s2070::inv },
    Shape { sid: 2071, name: "FnOnce C leaf 61", kind: Kind::FnOnce, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2071::make, inv: s2071::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2072, name: "FnOnce fastcall leaf 61", kind: Kind::FnOnce, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2072::make, inv: s2072::inv },
    Shape { sid: 2073, name: "Fn C leaf 62", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2073::make, inv: s2073::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2074, name: "Fn fastcall leaf 62", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2074::make, inv: s2074::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2075, name: "FnMut efiapi leaf 62", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2075::make, inv: s2075::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2076, name: "FnMut win64 leaf 62", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2076::make, inv: s2076::inv },
    Shape { sid: 2077, name: "FnOnce Rust leaf 62", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2077::make, inv: s2077::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2078, name: "FnOnce aapcs leaf 62", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2078::make, inv: s2078::inv },
    Shape { sid: 2079, name: "Fn Rust leaf 63", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2079::make, inv: s2079::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2080, name: "Fn aapcs leaf 63", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2080::make, inv: s2080::inv },
    Shape { sid: 2081, name: "FnMut C leaf 63", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2081::make, inv: s2081::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2082, name: "FnMut fastcall leaf 63", kind: Kind::FnMut, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2082::make, inv: s2082::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2083, name: "FnOnce efiapi leaf 63", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2083::make, inv: s2083::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2084, name: "FnOnce win64 leaf 63", kind: Kind::FnOnce, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2084::make, inv: s2084::inv },
    Shape { sid: 2085, name: "Fn efiapi leaf 64", kind: Kind::Fn, cc: "efiapi", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2085::make, inv: s2085::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2086, name: "Fn win64 leaf 64", kind: Kind::Fn, cc: "win64", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2086::make, inv: s2086::inv },
    Shape { sid: 2087, name: "FnMut Rust leaf 64", kind: Kind::FnMut, cc: "Rust", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2087::make, inv: s2087::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2088, name: "FnMut aapcs leaf 64", kind: Kind::FnMut, cc: "aapcs", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2088::make, inv: s2088::inv },
    Shape { sid: 2089, name: "FnOnce C leaf 64", kind: Kind::FnOnce, cc: "C", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2089::make, inv: s2089::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2090, name: "FnOnce fastcall leaf 64", kind: Kind::FnOnce, cc: "fastcall", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2090::make, inv: s2090::inv },
    Shape { sid: 2091, name: "Fn C leaf 65", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2091::make, inv: s2091::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2092, name: "Fn fastcall leaf 65", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2092::make, inv: s2092::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2093, name: "FnMut efiapi leaf 65", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2093::make, inv: s2093::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2094, name: "FnMut win64 leaf 65", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2094::make, inv: s2094::inv },
    Shape { sid: 2095, name: "FnOnce Rust leaf 65", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2095::make, inv: s2095::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2096, name: "FnOnce aapcs leaf 65", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2096::make, inv: s2096::inv },
    Shape { sid: 2097, name: "Fn Rust leaf 66", kind: Kind::Fn, cc: "Rust", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2097::make, inv: s2097::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2098, name: "Fn aapcs leaf 66", kind: Kind::Fn, cc: "aapcs", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2098::make, inv: s2098::inv },
    Shape { sid: 2099, name: "FnMut C leaf 66", kind: Kind::FnMut, cc: "C", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2099::make, inv: s2099::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2100, name: "FnMut fastcall leaf 66", kind: Kind::FnMut, cc: "fastcall", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2100::make, inv: s2100::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2101, name: "FnOnce efiapi leaf 66", kind: Kind::FnOnce, cc: "efiapi", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2101::make, inv: s2101::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2102, name: "FnOnce win64 leaf 66", kind: Kind::FnOnce, cc: "win64", arity: 0, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2102::make, inv: s2102::inv },
    Shape { sid: 2103, name: "Fn efiapi leaf 67", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2103::make, inv: s2103::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2104, name: "Fn win64 leaf 67", kind: Kind::Fn, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2104::make, inv: s2104::inv },
    Shape { sid: 2105, name: "FnMut Rust leaf 67", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2105::make, inv: s2105::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2106, name: "FnMut aapcs leaf 67", kind: Kind::FnMut, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2106::make, inv: s2106::inv },
    Shape { sid: 2107, name: "FnOnce C leaf 67", kind: Kind::FnOnce, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2107::make, inv: s2107::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2108, name: "FnOnce fastcall leaf 67", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2108::make, inv: s2108::inv },
    Shape { sid: 2109, name: "Fn C leaf 68", kind: Kind::Fn, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2109::make, inv: s2109::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2110, name: "Fn fastcall leaf 68", kind: Kind::Fn, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2110::make, inv: s2110::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2111, name: "FnMut efiapi leaf 68", kind: Kind::FnMut, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2111::make, inv: s2111::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2112, name: "FnMut win64 leaf 68", kind: Kind::FnMut, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2112::make, inv: s2112::inv },
    Shape { sid: 2113, name: "FnOnce Rust leaf 68", kind: Kind::FnOnce, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2113::make, inv: s2113::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2114, name: "FnOnce aapcs leaf 68", kind: Kind::FnOnce, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2114::make, inv: s2114::inv },
    Shape { sid: 2115, name: "Fn Rust leaf 69", kind: Kind::Fn, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2115::make, inv: s2115::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2116, name: "Fn aapcs leaf 69", kind: Kind::Fn, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2116::make, inv: s2116::inv },
    Shape { sid: 2117, name: "FnMut C leaf 69", kind: Kind::FnMut, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2117::make, inv: s2117::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2118, name: "FnMut fastcall leaf 69", kind: Kind::FnMut, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2118::make, inv: s2118::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2119, name: "FnOnce efiapi leaf 69", kind: Kind::FnOnce, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2119::make, inv: s2119::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2120, name: "FnOnce win64 leaf 69", kind: Kind::FnOnce, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2120::make, inv: s2120::inv },
    Shape { sid: 2121, name: "Fn efiapi leaf 70", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2121::make, inv: s2121::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2122, name: "Fn win64 leaf 70", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2122::make, inv: s2122::inv },
    Shape { sid: 2123, name: "FnMut Rust leaf 70", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2123::make, inv: s2123::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2124, name: "FnMut aapcs leaf 70", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2124::make, inv: s2124::inv },
    Shape { sid: 2125, name: "FnOnce C leaf 70", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2125::make, inv: s2125::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2126, name: "FnOnce fastcall leaf 70", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2126::make, inv: s2126::inv },
    Shape { sid: 2127, name: "Fn C leaf 71", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2127::make, inv: s2127::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2128, name: "Fn fastcall leaf 71", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2128::make, inv: s2128::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2129, name: "FnMut efiapi leaf 71", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2129::make, inv: s2129::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2130, name: "FnMut win64 leaf 71", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2130::make, inv: s2130::inv },
    Shape { sid: 2131, name: "FnOnce Rust leaf 71", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2131::make, inv: s2131::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2132, name: "FnOnce aapcs leaf 71", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2132::make, inv: s2132::inv },
    Shape { sid: 2133, name: "Fn Rust leaf 72", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2133::make, inv: s2133::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2134, name: "Fn aapcs leaf 72", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2134::make, inv: s2134::inv },
    Shape { sid: 2135, name: "FnMut C leaf 72", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2135::make, inv: s2135::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2136, name: "FnMut fastcall leaf 72", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2136::make, inv: s2136::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2137, name: "FnOnce efiapi leaf 72", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2137::make, inv: s2137::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2138, name: "FnOnce win64 leaf 72", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2138::make, inv: s2138::inv },
    Shape { sid: 2139, name: "Fn efiapi leaf 73", kind: Kind::Fn, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2139::make, inv: s2139::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2140, name: "Fn win64 leaf 73", kind: Kind::Fn, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2140::make, inv: s2140::inv },
    Shape { sid: 2141, name: "FnMut Rust leaf 73", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2141::make, inv: s2141::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2142, name: "FnMut aapcs leaf 73", kind: Kind::FnMut, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2142::make, inv: s2142::inv },
    Shape { sid: 2143, name: "FnOnce C leaf 73", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2143::make, inv: s2143::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2144, name: "FnOnce fastcall leaf 73", kind: Kind::FnOnce, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2144::make, inv: s2144::inv },
    Shape { sid: 2145, name: "Fn C leaf 74", kind: Kind::Fn, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2145::make, inv: s2145::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2146, name: "Fn fastcall leaf 74", kind: Kind::Fn, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2146::make, inv: s2146::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2147, name: "FnMut efiapi leaf 74", kind: Kind::FnMut, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2147::make, inv: s2147::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2148, name: "FnMut win64 leaf 74", kind: Kind::FnMut, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2148::make, inv: s2148::inv },
    Shape { sid: 2149, name: "FnOnce Rust leaf 74", kind: Kind::FnOnce, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2149::make, inv: s2149::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2150, name: "FnOnce aapcs leaf 74", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2150::make, inv: s2150::inv },
    Shape { sid: 2151, name: "Fn Rust leaf 75", kind: Kind::Fn, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2151::make, inv: s2151::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2152, name: "Fn aapcs leaf 75", kind: Kind::Fn, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2152::make, inv: s2152::inv },
    Shape { sid: 2153, name: "FnMut C leaf 75", kind: Kind::FnMut, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2153::make, inv: s2153::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2154, name: "FnMut fastcall leaf 75", kind: Kind::FnMut, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2154::make, inv: s2154::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2155, name: "FnOnce efiapi leaf 75", kind: Kind::FnOnce, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2155::make, inv: s2155::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2156, name: "FnOnce win64 leaf 75", kind: Kind::FnOnce, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2156::make, inv: s2156::inv },
    Shape { sid: 2157, name: "Fn efiapi leaf 76", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2157::make, inv: s2157::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2158, name: "Fn win64 leaf 76", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2158::make, inv: s2158::inv },
    Shape { sid: 2159, name: "FnMut Rust leaf 76", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2159::make, inv: s2159::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2160, name: "FnMut aapcs leaf 76", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2160::make, inv: s2160::inv },
    Shape { sid: 2161, name: "FnOnce C leaf 76", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2161::make, inv: s2161::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2162, name: "FnOnce fastcall leaf 76", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2162::make, inv: s2162::inv },
    Shape { sid: 2163, name: "Fn C leaf 77", kind: Kind::Fn, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2163::make, inv: s2163::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2164, name: "Fn fastcall leaf 77", kind: Kind::Fn, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2164::make, inv: s2164::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2165, name: "FnMut efiapi leaf 77", kind: Kind::FnMut, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2165::make, inv: s2165::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2166, name: "FnMut win64 leaf 77", kind: Kind::FnMut, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2166::make, inv: s2166::inv },
    Shape { sid: 2167, name: "FnOnce Rust leaf 77", kind: Kind::FnOnce, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2167::make, inv: s2167::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2168, name: "FnOnce aapcs leaf 77", kind: Kind::FnOnce, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2168::make, inv: s2168::inv },
    Shape { sid: 2169, name: "Fn Rust leaf 78", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2169::make, inv: s2169::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2170, name: "Fn aapcs leaf 78", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2170::make, inv: s2170::inv },
    Shape { sid: 2171, name: "FnMut C leaf 78", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2171::make, inv: s2171::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2172, name: "FnMut fastcall leaf 78", kind: Kind::FnMut, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2172::make, inv: s2172::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2173, name: "FnOnce efiapi leaf 78", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2173::make, inv: s2173::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2174, name: "FnOnce win64 leaf 78", kind: Kind::FnOnce, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2174::make, inv: s2174::inv },
    Shape { sid: 2175, name: "Fn efiapi leaf 79", kind: Kind::Fn, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2175::make, inv: s2175::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2176, name: "Fn win64 leaf 79", kind: Kind::Fn, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2176::make, inv: s2176::inv },
    Shape { sid: 2177, name: "FnMut Rust leaf 79", kind: Kind::FnMut, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2177::make, inv: s2177::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2178, name: "FnMut aapcs leaf 79", kind: Kind::FnMut, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2178::make, inv: s2178::inv },
    Shape { sid: 2179, name: "FnOnce C leaf 79", kind: Kind::FnOnce, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2179::make, inv: s2179::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2180, name: "FnOnce fastcall leaf 79", kind: Kind::FnOnce, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2180::make, inv: s2180::inv },
    Shape { sid: 2181, name: "Fn C leaf 80", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2181::make, inv: s2181::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2182, name: "Fn fastcall leaf 80", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2182::make, inv: s2182::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2183, name: "FnMut efiapi leaf 80", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2183::make, inv: s2183::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2184, name: "FnMut win64 leaf 80", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2184::make, inv: s2184::inv },
    Shape { sid: 2185, name: "FnOnce Rust leaf 80", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2185::make, inv: s2185::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2186, name: "FnOnce aapcs leaf 80", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2186::make, inv: s2186::inv },
    Shape { sid: 2187, name: "Fn Rust leaf 81", kind: Kind::Fn, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2187::make, inv: s2187::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2188, name: "Fn aapcs leaf 81", kind: Kind::Fn, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2188::make, inv: s2188::inv },
    Shape { sid: 2189, name: "FnMut C leaf 81", kind: Kind::FnMut, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2189::make, inv: s2189::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2190, name: "FnMut fastcall leaf 81", kind: Kind::FnMut, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2190::make, inv: s2190::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2191, name: "FnOnce efiapi leaf 81", kind: Kind::FnOnce, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2191::make, inv: s2191::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2192, name: "FnOnce win64 leaf 81", kind: Kind::FnOnce, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2192::make, inv: s2192::inv },
    Shape { sid: 2193, name: "Fn efiapi leaf 82", kind: Kind::Fn, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2193::make, inv: s2193::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2194, name: "Fn win64 leaf 82", kind: Kind::Fn, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2194::make, inv: s2194::inv },
    Shape { sid: 2195, name: "FnMut Rust leaf 82", kind: Kind::FnMut, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2195::make, inv: s2195::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2196, name: "FnMut aapcs leaf 82", kind: Kind::FnMut, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2196::make, inv: s2196::inv },
    Shape { sid: 2197, name: "FnOnce C leaf 82", kind: Kind::FnOnce, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2197::make, inv: s2197::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2198, name: "FnOnce fastcall leaf 82", kind: Kind::FnOnce, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2198::make, inv: s2198::inv },
    Shape { sid: 2199, name: "Fn C leaf 83", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2199::make, inv: s2199::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2200, name: "Fn fastcall leaf 83", kind: Kind::Fn, cc: "fastcall", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2200::make, inv: s2200::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2201, name: "FnMut efiapi leaf 83", kind: Kind::FnMut, cc: "efiapi", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2201::make, inv: s2201::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2202, name: "FnMut win64 leaf 83", kind: Kind::FnMut, cc: "win64", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2202::make, inv: s2202::inv },
    Shape { sid: 2203, name: "FnOnce Rust leaf 83", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2203::make, inv: s2203::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2204, name: "FnOnce aapcs leaf 83", kind: Kind::FnOnce, cc: "aapcs", arity: 2, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2204::make, inv: s2204::inv },
    Shape { sid: 2205, name: "Fn Rust leaf 84", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2205::make, inv: s2205::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2206, name: "Fn aapcs leaf 84", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2206::make, inv: s2206::inv },
    Shape { sid: 2207, name: "FnMut C leaf 84", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2207::make, inv: s2207::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2208, name: "FnMut fastcall leaf 84", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2208::make, inv: s2208::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2209, name: "FnOnce efiapi leaf 84", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2209::make, inv: s2209::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2210, name: "FnOnce win64 leaf 84", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2210::make, inv: s2210::inv },
    Shape { sid: 2211, name: "Fn efiapi leaf 85", kind: Kind::Fn, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2211::make, inv: s2211::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2212, name: "Fn win64 leaf 85", kind: Kind::Fn, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2212::make, inv: s2212::inv },
    Shape { sid: 2213, name: "FnMut Rust leaf 85", kind: Kind::FnMut, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2213::make, inv: s2213::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2214, name: "FnMut aapcs leaf 85", kind: Kind::FnMut, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2214::make, inv: s2214::inv },
    Shape { sid: 2215, name: "FnOnce C leaf 85", kind: Kind::FnOnce, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2215::make, inv: s2215::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2216, name: "FnOnce fastcall leaf 85", kind: Kind::FnOnce, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2216::make, inv: s2216::inv },
    Shape { sid: 2217, name: "Fn C leaf 86", kind: Kind::Fn, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2217::make, inv: s2217::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2218, name: "Fn fastcall leaf 86", kind: Kind::Fn, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2218::make, inv: s2218::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2219, name: "FnMut efiapi leaf 86", kind: Kind::FnMut, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2219::make, inv: s2219::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2220, name: "FnMut win64 leaf 86", kind: Kind::FnMut, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2220::make, inv: s2220::inv },
    Shape { sid: 2221, name: "FnOnce Rust leaf 86", kind: Kind::FnOnce, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2221::make, inv: s2221::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2222, name: "FnOnce aapcs leaf 86", kind: Kind::FnOnce, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2222::make, inv: s2222::inv },
    Shape { sid: 2223, name: "Fn Rust leaf 87", kind: Kind::Fn, cc: "Rust", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2223::make, inv: s2223::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2224, name: "Fn aapcs leaf 87", kind: Kind::Fn, cc: "aapcs", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2224::make, inv: s2224::inv },
    Shape { sid: 2225, name: "FnMut C leaf 87", kind: Kind::FnMut, cc: "C", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2225::make, inv: s2225::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2226, name: "FnMut fastcall leaf 87", kind: Kind::FnMut, cc: "fastcall", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2226::make, inv: s2226::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2227, name: "FnOnce efiapi leaf 87", kind: Kind::FnOnce, cc: "efiapi", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2227::make, inv: s2227::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2228, name: "FnOnce win64 leaf 87", kind: Kind::FnOnce, cc: "win64", arity: 3, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2228::make, inv: s2228::inv },
    Shape { sid: 2229, name: "Fn efiapi leaf 88", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2229::make, inv: s2229::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2230, name: "Fn win64 leaf 88", kind: Kind::Fn, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2230::make, inv: s2230::inv },
    Shape { sid: 2231, name: "FnMut Rust leaf 88", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2231::make, inv: s2231::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2232, name: "FnMut aapcs leaf 88", kind: Kind::FnMut, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2232::make, inv: s2232::inv },
    Shape { sid: 2233, name: "FnOnce C leaf 88", kind: Kind::FnOnce, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2233::make, inv: s2233::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2234, name: "FnOnce fastcall leaf 88", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2234::make, inv: s2234::inv },
    Shape { sid: 2235, name: "Fn C leaf 89", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2235::make, inv: s2235::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2236, name: "Fn fastcall leaf 89", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2236::make, inv: s2236::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2237, name: "FnMut efiapi leaf 89", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2237::make, inv: s2237::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2238, name: "FnMut win64 leaf 89", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2238::make, inv: s2238::inv },
    Shape { sid: 2239, name: "FnOnce Rust leaf 89", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2239::make, inv: s2239::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2240, name: "FnOnce aapcs leaf 89", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2240::make, inv: s2240::inv },
    Shape { sid: 2241, name: "Fn Rust leaf 90", kind: Kind::Fn, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2241::make, inv: s2241::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2242, name: "Fn aapcs leaf 90", kind: Kind::Fn, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2242::make, inv: s2242::inv },
    Shape { sid: 2243, name: "FnMut C leaf 90", kind: Kind::FnMut, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2243::make, inv: s2243::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2244, name: "FnMut fastcall leaf 90", kind: Kind::FnMut, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2244::make, inv: s2244::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2245, name: "FnOnce efiapi leaf 90", kind: Kind::FnOnce, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2245::make, inv: s2245::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2246, name: "FnOnce win64 leaf 90", kind: Kind::FnOnce, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2246::make, inv: s2246::inv },
    Shape { sid: 2247, name: "Fn efiapi leaf 91", kind: Kind::Fn, cc: "efiapi", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2247::make, inv: s2247::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2248, name: "Fn win64 leaf 91", kind: Kind::Fn, cc: "win64", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2248::make, inv: s2248::inv },
    Shape { sid: 2249, name: "FnMut Rust leaf 91", kind: Kind::FnMut, cc: "Rust", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2249::make, inv: s2249::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2250, name: "FnMut aapcs leaf 91", kind: Kind::FnMut, cc: "aapcs", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2250::make, inv: s2250::inv },
    Shape { sid: 2251, name: "FnOnce C leaf 91", kind: Kind::FnOnce, cc: "C", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2251::make, inv: s2251::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2252, name: "FnOnce fastcall leaf 91", kind: Kind::FnOnce, cc: "fastcall", arity: 8, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2252::make, inv: s2252::inv },
    Shape { sid: 2253, name: "Fn C leaf 92", kind: Kind::Fn, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2253::make, inv: s2253::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2254, name: "Fn fastcall leaf 92", kind: Kind::Fn, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2254::make, inv: s2254::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2255, name: "FnMut efiapi leaf 92", kind: Kind::FnMut, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2255::make, inv: s2255::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2256, name: "FnMut win64 leaf 92", kind: Kind::FnMut, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2256::make, inv: s2256::inv },
    Shape { sid: 2257, name: "FnOnce Rust leaf 92", kind: Kind::FnOnce, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2257::make, inv: s2257::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2258, name: "FnOnce aapcs leaf 92", kind: Kind::FnOnce, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2258::make, inv: s2258::inv },
    Shape { sid: 2259, name: "Fn Rust leaf 93", kind: Kind::Fn, cc: "Rust", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2259::make, inv: s2259::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2260, name: "Fn aapcs leaf 93", kind: Kind::Fn, cc: "aapcs", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2260::make, inv: s2260::inv },
    Shape { sid: 2261, name: "FnMut C leaf 93", kind: Kind::FnMut, cc: "C", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2261::make, inv: s2261::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2262, name: "FnMut fastcall leaf 93", kind: Kind::FnMut, cc: "fastcall", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2262::make, inv: s2262::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2263, name: "FnOnce efiapi leaf 93", kind: Kind::FnOnce, cc: "efiapi", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2263::make, inv: s2263::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2264, name: "FnOnce win64 leaf 93", kind: Kind::FnOnce, cc: "win64", arity: 1, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2264::make, inv: s2264::inv },
    Shape { sid: 2265, name: "Fn efiapi leaf 94", kind: Kind::Fn, cc: "efiapi", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2265::make, inv: s2265::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2266, name: "Fn win64 leaf 94", kind: Kind::Fn, cc: "win64", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2266::make, inv: s2266::inv },
    Shape { sid: 2267, name: "FnMut Rust leaf 94", kind: Kind::FnMut, cc: "Rust", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2267::make, inv: s2267::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2268, name: "FnMut aapcs leaf 94", kind: Kind::FnMut, cc: "aapcs", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2268::make, inv: s2268::inv },
    Shape { sid: 2269, name: "FnOnce C leaf 94", kind: Kind::FnOnce, cc: "C", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2269::make, inv: s2269::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2270, name: "FnOnce fastcall leaf 94", kind: Kind::FnOnce, cc: "fastcall", arity: 12, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2270::make, inv: s2270::inv },
    Shape { sid: 2271, name: "Fn C leaf 95", kind: Kind::Fn, cc: "C", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2271::make, inv: s2271::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2272, name: "Fn fastcall leaf 95", kind: Kind::Fn, cc: "fastcall", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2272::make, inv: s2272::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2273, name: "FnMut efiapi leaf 95", kind: Kind::FnMut, cc: "efiapi", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2273::make, inv: s2273::inv },
    #[cfg(all(target_arch = "x86_64"))] Shape { sid: 2274, name: "FnMut win64 leaf 95", kind: Kind::FnMut, cc: "win64", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2274::make, inv: s2274::inv },
    Shape { sid: 2275, name: "FnOnce Rust leaf 95", kind: Kind::FnOnce, cc: "Rust", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2275::make, inv: s2275::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2276, name: "FnOnce aapcs leaf 95", kind: Kind::FnOnce, cc: "aapcs", arity: 4, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2276::make, inv: s2276::inv },
    Shape { sid: 2277, name: "Fn Rust leaf 96", kind: Kind::Fn, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2277::make, inv: s2277::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2278, name: "Fn aapcs leaf 96", kind: Kind::Fn, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2278::make, inv: s2278::inv },
    Shape { sid: 2279, name: "FnMut C leaf 96", kind: Kind::FnMut, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2279::make, inv: s2279::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2280, name: "FnMut fastcall leaf 96", kind: Kind::FnMut, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2280::make, inv: s2280::inv },
    #[cfg(all(not(feature = "few")))] Shape { sid: 2281, name: "FnOnce efiapi leaf 96", kind: Kind::FnOnce, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2281::make, inv: s2281::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2282, name: "FnOnce win64 leaf 96", kind: Kind::FnOnce, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2282::make, inv: s2282::inv },
    Shape { sid: 2283, name: "Fn efiapi leaf 97", kind: Kind::Fn, cc: "efiapi", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2283::make, inv: s2283::inv },
    #[cfg(all(target_arch = "x86_64", not(feature = "few")))] Shape { sid: 2284, name: "Fn win64 leaf 97", kind: Kind::Fn, cc: "win64", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2284::make, inv: s2284::inv },
    Shape { sid: 2285, name: "FnMut Rust leaf 97", kind: Kind::FnMut, cc: "Rust", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: true, fallible: true, toks: false, fam: fam::LEAF, make: s2285::make, inv: s2285::inv },
    #[cfg(all(target_arch = "arm"))] Shape { sid: 2286, name: "FnMut aapcs leaf 97", kind: Kind::FnMut, cc: "aapcs", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2286::make, inv: s2286::inv },
    Shape { sid: 2287, name: "FnOnce C leaf 97", kind: Kind::FnOnce, cc: "C", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2287::make, inv: s2287::inv },
    #[cfg(all(target_arch = "x86"))] Shape { sid: 2288, name: "FnOnce fastcall leaf 97", kind: Kind::FnOnce, cc: "fastcall", arity: 5, zst: false, tracked: false, counts: false, observed: false, unwind: false, fallible: true, toks: false, fam: fam::LEAF, make: s2288::make, inv: s2288::inv },
    Shape { sid: 2289, name: "Fn hrtb C", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_fn::make_c, inv: special::inv_c },
    Shape { sid: 2290, name: "Fn hrtb Rust", kind: Kind::Fn, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_fn::make_rust, inv: special::inv_rust },
    Shape { sid: 2291, name: "Fn hrtb C-unwind", kind: Kind::Fn, cc: "C-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_fn::make_many, inv: special::inv_many },
    Shape { sid: 2292, name: "Fn hrtb factory", kind: Kind::Fn, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::FACTORY, make: special::hr_fn::make_front, inv: special::inv_c },
    Shape { sid: 2293, name: "Fn hrtb zero-sized", kind: Kind::Fn, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::ZST, make: special::hr_fn::make_zst::<2293>, inv: special::inv_c },
    Shape { sid: 2294, name: "Fn hrtb system", kind: Kind::Fn, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_fn::make_gen, inv: special::inv_gen },
    Shape { sid: 2295, name: "FnMut hrtb C", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_mut::make_c, inv: special::inv_c },
    Shape { sid: 2296, name: "FnMut hrtb Rust", kind: Kind::FnMut, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_mut::make_rust, inv: special::inv_rust },
    Shape { sid: 2297, name: "FnMut hrtb C-unwind", kind: Kind::FnMut, cc: "C-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_mut::make_many, inv: special::inv_many },
    Shape { sid: 2298, name: "FnMut hrtb factory", kind: Kind::FnMut, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::FACTORY, make: special::hr_mut::make_front, inv: special::inv_c },
    Shape { sid: 2299, name: "FnMut hrtb zero-sized", kind: Kind::FnMut, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::ZST, make: special::hr_mut::make_zst::<2299>, inv: special::inv_c },
    Shape { sid: 2300, name: "FnMut hrtb system", kind: Kind::FnMut, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_mut::make_gen, inv: special::inv_gen },
    Shape { sid: 2301, name: "FnOnce hrtb C", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_once::make_c, inv: special::inv_c },
    Shape { sid: 2302, name: "FnOnce hrtb Rust", kind: Kind::FnOnce, cc: "Rust", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_once::make_rust, inv: special::inv_rust },
    Shape { sid: 2303, name: "FnOnce hrtb C-unwind", kind: Kind::FnOnce, cc: "C-unwind", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: true, fallible: true, toks: false, fam: fam::HRTB, make: special::hr_once::make_many, inv: special::inv_many },
    Shape { sid: 2304, name: "FnOnce hrtb factory", kind: Kind::FnOnce, cc: "C", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::FACTORY, make: special::hr_once::make_front, inv: special::inv_c },
    Shape { sid: 2305, name: "FnOnce hrtb zero-sized", kind: Kind::FnOnce, cc: "C", arity: 2, zst: true, tracked: true, counts: false, observed: true, unwind: false, fallible: true, toks: false, fam: fam::HRTB | fam::ZST, make: special::hr_once::make_zst::<2305>, inv: special::inv_c },
    Shape { sid: 2306, name: "FnOnce hrtb system", kind: Kind::FnOnce, cc: "system", arity: 2, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::HRTB, make: special::hr_once::make_gen, inv: special::inv_gen },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2307, name: "Fn variadic fn_0", kind: Kind::Fn, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::fn_0::make, inv: special::va::fn_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2308, name: "Fn variadic factory fn_0", kind: Kind::Fn, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::fn_0::make_front, inv: special::va::fn_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2309, name: "Fn variadic fn_1", kind: Kind::Fn, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::fn_1::make, inv: special::va::fn_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2310, name: "Fn variadic factory fn_1", kind: Kind::Fn, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::fn_1::make_front, inv: special::va::fn_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2311, name: "Fn variadic fn_4", kind: Kind::Fn, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::fn_4::make, inv: special::va::fn_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2312, name: "Fn variadic factory fn_4", kind: Kind::Fn, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::fn_4::make_front, inv: special::va::fn_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2313, name: "Fn variadic fn_9", kind: Kind::Fn, cc: "C...", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::fn_9::make, inv: special::va::fn_9::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2314, name: "Fn variadic factory fn_9", kind: Kind::Fn, cc: "C...", arity: 9, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::fn_9::make_front, inv: special::va::fn_9::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2315, name: "FnMut variadic mut_0", kind: Kind::FnMut, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::mut_0::make, inv: special::va::mut_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2316, name: "FnMut variadic factory mut_0", kind: Kind::FnMut, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::mut_0::make_front, inv: special::va::mut_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2317, name: "FnMut variadic mut_1", kind: Kind::FnMut, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::mut_1::make, inv: special::va::mut_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2318, name: "FnMut variadic factory mut_1", kind: Kind::FnMut, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::mut_1::make_front, inv: special::va::mut_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2319, name: "FnMut variadic mut_4", kind: Kind::FnMut, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::mut_4::make, inv: special::va::mut_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2320, name: "FnMut variadic factory mut_4", kind: Kind::FnMut, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::mut_4::make_front, inv: special::va::mut_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2321, name: "FnMut variadic mut_7", kind: Kind::FnMut, cc: "C...", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::mut_7::make, inv: special::va::mut_7::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2322, name: "FnMut variadic factory mut_7", kind: Kind::FnMut, cc: "C...", arity: 7, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::mut_7::make_front, inv: special::va::mut_7::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2323, name: "FnOnce variadic once_0", kind: Kind::FnOnce, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::once_0::make, inv: special::va::once_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2324, name: "FnOnce variadic factory once_0", kind: Kind::FnOnce, cc: "C...", arity: 0, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::once_0::make_front, inv: special::va::once_0::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2325, name: "FnOnce variadic once_1", kind: Kind::FnOnce, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::once_1::make, inv: special::va::once_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2326, name: "FnOnce variadic factory once_1", kind: Kind::FnOnce, cc: "C...", arity: 1, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::once_1::make_front, inv: special::va::once_1::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2327, name: "FnOnce variadic once_4", kind: Kind::FnOnce, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::once_4::make, inv: special::va::once_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2328, name: "FnOnce variadic factory once_4", kind: Kind::FnOnce, cc: "C...", arity: 4, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::once_4::make_front, inv: special::va::once_4::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2329, name: "FnOnce variadic once_8", kind: Kind::FnOnce, cc: "C...", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: false, toks: false, fam: fam::VARIADIC, make: special::va::once_8::make, inv: special::va::once_8::inv },
    #[cfg(feature = "lane-nightly")] Shape { sid: 2330, name: "FnOnce variadic factory once_8", kind: Kind::FnOnce, cc: "C...", arity: 8, zst: false, tracked: true, counts: true, observed: true, unwind: false, fallible: true, toks: false, fam: fam::VARIADIC | fam::FACTORY, make: special::va::once_8::make_front, inv: special::va::once_8::inv },
];
