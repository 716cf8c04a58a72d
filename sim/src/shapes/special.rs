//! Signatures that need hand-written callers: higher-ranked lifetimes and variadics.

use super::*;

pub mod hrtb_types {
    closure_ffi::bare_hrtb! {
        pub type RefC = for<'a, 'b> extern "C" fn(&'a [u64; 3], &'b u64) -> &'a u64;
    }
    closure_ffi::bare_hrtb! {
        pub type RefRust = for<'a> extern "Rust" fn(&'a mut u64, u64) -> u64;
    }
    closure_ffi::bare_hrtb! {
        pub type RefMany = for<'a, 'b, 'c> extern "C-unwind" fn(&'a u64, &'b u64, &'c u64, f64, u8, u64, &'a u64) -> &'c u64;
    }
    closure_ffi::bare_hrtb! {
        pub type RefGen<T> where T: 'static + Copy, = for<'a> extern "system" fn(&'a [T; 4], usize) -> &'a T;
    }
}
use hrtb_types::*;

macro_rules! ent {
    (Fn, $c:ident, $d:expr) => { enter(&$c, $d) };
    (FnMut, $c:ident, $d:expr) => { enter_mut(&mut $c, $d) };
    (FnOnce, $c:ident, $d:expr) => {{ let c = $c; enter(&c, $d) }};
}

fn d3(a: u64, b: u64, c: u64) -> u64 {
    mix2(mix2(mix2(D0, a), b), c)
}

pub unsafe fn inv_c(p: *const (), s: u64) -> (u64, u64) {
    let f: for<'a, 'b> unsafe extern "C" fn(&'a [u64; 3], &'b u64) -> &'a u64 = core::mem::transmute(p);
    let arr = [mix2(s, 1), mix2(s, 2), mix2(s, 3)];
    let x = mix2(s, 4);
    let key = world::call_begin(d3(arr[0] ^ arr[1], arr[2], x));
    let g: RefC = f.into();
    let r = match (s >> 8) % 4 {
        0 => lib_call(|| RefC::from_ptr(p).call((&arr, &x))),
        1 => lib_call(|| (RefC(f))(&arr, &x)),
        2 => lib_call(|| (RefC::from_ptr(g.to_ptr()).0)(&arr, &x)),
        _ => lib_call(|| f(&arr, &x)),
    };
    // The same reference must come back, not a copy of the value.
    (*r ^ (r as *const u64 == &arr[(key % 3) as usize] as *const u64) as u64, arr[(key % 3) as usize] ^ 1)
}
pub unsafe fn inv_rust(p: *const (), s: u64) -> (u64, u64) {
    let f: for<'a> unsafe fn(&'a mut u64, u64) -> u64 = core::mem::transmute(p);
    let mut x = mix2(s, 1);
    let y = mix2(s, 2);
    let key = world::call_begin(d3(x, y, 0));
    let x0 = x;
    let r = lib_call(|| f(&mut x, y));
    (mix2(x, r), mix2(x0 ^ key, key))
}
pub unsafe fn inv_many(p: *const (), s: u64) -> (u64, u64) {
    let f: for<'a, 'b, 'c> unsafe extern "C-unwind" fn(&'a u64, &'b u64, &'c u64, f64, u8, u64, &'a u64) -> &'c u64 =
        core::mem::transmute(p);
    let v = [mix2(s, 1), mix2(s, 2), mix2(s, 3), mix2(s, 4), mix2(s, 5)];
    let fl = <f64 as Val>::gen(s);
    let by = s as u8;
    world::call_begin(d3(v[0] ^ v[1].rotate_left(1), v[2] ^ v[3].rotate_left(2) ^ v[4].rotate_left(3), fl.dig() ^ by as u64));
    let r = lib_call(|| f(&v[0], &v[1], &v[2], fl, by, v[3], &v[4]));
    (*r ^ (r as *const u64 == &v[2] as *const u64) as u64, v[2] ^ 1)
}
pub unsafe fn inv_gen(p: *const (), s: u64) -> (u64, u64) {
    let f: for<'a> unsafe extern "system" fn(&'a [u16; 4], usize) -> &'a u16 = core::mem::transmute(p);
    let a = [s as u16, (s >> 16) as u16, (s >> 32) as u16, (s >> 48) as u16];
    let i = (mix2(s, 9) % 4) as usize;
    world::call_begin(d3(a[0] as u64 | (a[1] as u64) << 16, a[2] as u64 | (a[3] as u64) << 16, i as u64));
    let r = lib_call(|| f(&a, i));
    (*r as u64 | ((r as *const u16 == &a[i] as *const u16) as u64) << 20, a[i] as u64 | 1 << 20)
}

macro_rules! ref_c {
    ($kind:ident, $refs:ident) => {
        /// Makes the compiler infer a closure over any lifetimes.
        fn $refs<F: for<'a, 'b> $kind(&'a [u64; 3], &'b u64) -> &'a u64>(f: F) -> F {
            f
        }
    };
}
ref_c!(Fn, refs);
ref_c!(FnMut, refs_mut);
ref_c!(FnOnce, refs_once);

macro_rules! hrtb_mod {
    ($m:ident, $kind:ident, $front:ident, $refs:ident) => {
        #[allow(unused_mut)]
        pub mod $m {
            use super::*;
            type Made = Result<Box<dyn W>, JitAllocError>;
            pub fn make_c(q: &Req) -> Made {
                let mut c = Cap::new(q);
                q.sized::<Cap, Cap>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    <wrapper!($kind, RefC, dyn Send + Sync, AnyAlloc)>::try_with_cc_in(
                        RefC_CC::default(),
                        move |a, b| {
                            let k = ent!($kind, c, d3(a[0] ^ a[1], a[2], *b));
                            &a[(k % 3) as usize]
                        },
                        al,
                    )
                })?;
                Ok(Box::new(w) as Box<dyn W>)
            }
            /// Through a factory, with instrumentation in front.
            pub fn make_front(q: &Req) -> Made {
                let mut c = Cap::new(q);
                q.sized::<Cap, Cap>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    let f = $refs(move |a, b| {
                        let k = ent!($kind, c, d3(a[0] ^ a[1], a[2], *b));
                        &a[(k % 3) as usize]
                    });
                    <wrapper!($kind, RefC, dyn Send + Sync, AnyAlloc)>::try_with_thunk_in($front::<RefC, _>((RefC::cc(), f)), al)
                })?;
                Ok(Box::new(w) as Box<dyn W>)
            }
            /// Zero-sized.
            pub fn make_zst<const N: u32>(q: &Req) -> Made {
                let mut c = ZstD::<N>::new(q);
                q.sized::<ZstD<N>, ZstD<N>>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    <wrapper!($kind, RefC, dyn Send + Sync, AnyAlloc)>::try_with_cc_in(
                        RefC::cc(),
                        move |a, b| {
                            let k = ent!($kind, c, d3(a[0] ^ a[1], a[2], *b));
                            &a[(k % 3) as usize]
                        },
                        al,
                    )
                })?;
                Ok(Box::new(w) as Box<dyn W>)
            }
            pub fn make_rust(q: &Req) -> Made {
                let mut c = Cap::new(q);
                q.sized::<Cap, Cap>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    <wrapper!($kind, RefRust, dyn Send, AnyAlloc)>::new_in(
                        move |a, b| {
                            let k = ent!($kind, c, d3(*a, b, 0));
                            *a ^= k;
                            k
                        },
                        al,
                    )
                });
                Ok(Box::new(w) as Box<dyn W>)
            }
            pub fn make_many(q: &Req) -> Made {
                let mut c = Cap::new(q);
                q.sized::<Cap, Cap>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    <wrapper!($kind, RefMany, dyn closure_ffi::traits::Any, AnyAlloc)>::try_with_cc_in(
                        RefMany_CC::default(),
                        move |a, b, e, f, g, h, i| {
                            let d = d3(*a ^ b.rotate_left(1), *e ^ h.rotate_left(2) ^ i.rotate_left(3), f.dig() ^ g as u64);
                            let _ = ent!($kind, c, d);
                            e
                        },
                        al,
                    )
                });
                Ok(Box::new(w?) as Box<dyn W>)
            }
            pub fn make_gen(q: &Req) -> Made {
                let mut c = Cap::new(q);
                q.sized::<Cap, Cap>(&c);
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || {
                    <wrapper!($kind, RefGen<u16>, dyn Sync, AnyAlloc)>::with_cc_in(
                        RefGen_CC::default(),
                        move |a, i| {
                            let d = d3(a[0] as u64 | (a[1] as u64) << 16, a[2] as u64 | (a[3] as u64) << 16, i as u64);
                            let _ = ent!($kind, c, d);
                            &a[i]
                        },
                        al,
                    )
                });
                Ok(Box::new(w) as Box<dyn W>)
            }
        }
    };
}
hrtb_mod!(hr_fn, Fn, front, refs);
hrtb_mod!(hr_mut, FnMut, front_mut, refs_mut);
hrtb_mod!(hr_once, FnOnce, front_once, refs_once);

#[cfg(feature = "lane-nightly")]
pub mod va {
    use super::*;
    use core::ffi::VaList;

    unsafe fn digest(mut va: VaList, n: u32) -> u64 {
        let mut d = D0;
        for _ in 0..n {
            let a: u64 = va.next_arg();
            let b: f64 = va.next_arg();
            d = mix2(d, a.dig());
            d = mix2(d, b.dig());
        }
        d
    }
    fn vals(s: u64) -> ([u64; 6], [f64; 6]) {
        let mut a = [0u64; 6];
        let mut b = [0f64; 6];
        for i in 0..6 {
            a[i] = mix2(s, i as u64);
            b[i] = <f64 as Val>::gen(mix2(s, 100 + i as u64));
        }
        (a, b)
    }
    fn want(n: u32, s: u64) -> u64 {
        let (a, b) = vals(s);
        let mut d = D0;
        for i in 0..n as usize {
            d = mix2(d, a[i].dig());
            d = mix2(d, b[i].dig());
        }
        d
    }

    macro_rules! va_mod {
        ($m:ident, $kind:ident, $front:ident, ($($a:ident: $t:ty),*), $fit:expr) => {
            #[allow(unused_mut)]
            pub mod $m {
                use super::*;
                type B = unsafe extern "C" fn($($t,)* ...) -> u64;
                pub unsafe fn inv(p: *const (), s: u64) -> (u64, u64) {
                    let f: B = core::mem::transmute(p);
                    let mut _k = 50u64;
                    let mut d0 = 0u64;
                    $(_k += 1; let $a = <$t as Val>::gen(mix2(s, _k)); d0 = mix2(d0, $a.dig());)*
                    let n = $fit;
                    let (x, y) = vals(s);
                    let key = world::call_begin(mix2(d0, want(n, s)));
                    let r = match n {
                        1 => lib_call(|| f($($a,)* x[0], y[0])),
                        4 => lib_call(|| f($($a,)* x[0], y[0], x[1], y[1], x[2], y[2], x[3], y[3])),
                        _ => lib_call(|| f($($a,)* x[0], y[0], x[1], y[1], x[2], y[2], x[3], y[3], x[4], y[4], x[5], y[5])),
                    };
                    (r.dig(), <u64 as Val>::gen(key).dig())
                }
                pub fn make(q: &Req) -> Result<Box<dyn W>, JitAllocError> {
                    let mut c = Cap::new(q);
                    q.sized::<Cap, Cap>(&c);
                    let al = q.alloc::<AnyAlloc>();
                    let w = q.lib(move || {
                        <wrapper!($kind, B, dyn Send + Sync, AnyAlloc)>::new_variadic_in(
                            move |$($a: $t,)* va: VaList| -> u64 {
                                let mut d0 = 0u64;
                                $(d0 = mix2(d0, $a.dig());)*
                                let n = $fit;
                                let d = mix2(d0, unsafe { digest(va, n) });
                                <u64 as Val>::gen(ent!($kind, c, d))
                            },
                            al,
                        )
                    });
                    Ok(Box::new(w) as Box<dyn W>)
                }
                pub fn make_front(q: &Req) -> Result<Box<dyn W>, JitAllocError> {
                    let mut c = Cap::new(q);
                    q.sized::<Cap, Cap>(&c);
                    let al = q.alloc::<AnyAlloc>();
                    let w = q.lib(move || {
                        let f = move |$($a: $t,)* va: VaList| -> u64 {
                            let mut d0 = 0u64;
                            $(d0 = mix2(d0, $a.dig());)*
                            let n = $fit;
                            let d = mix2(d0, unsafe { digest(va, n) });
                            <u64 as Val>::gen(ent!($kind, c, d))
                        };
                        <wrapper!($kind, B, dyn Send + Sync, AnyAlloc)>::try_with_thunk_in($front::<B, _>((cc::Variadic, f)), al)
                    })?;
                    Ok(Box::new(w) as Box<dyn W>)
                }
            }
        };
    }
    va_mod!(fn_1, Fn, front, (a0: u64), 1 + (a0 % 2) as u32 * 5);
    va_mod!(mut_1, FnMut, front_mut, (a0: u64), 1 + (a0 % 2) as u32 * 5);
    va_mod!(once_1, FnOnce, front_once, (a0: u64), 1 + (a0 % 2) as u32 * 5);
    va_mod!(fn_0, Fn, front, (), 4);
    va_mod!(mut_0, FnMut, front_mut, (), 4);
    va_mod!(once_0, FnOnce, front_once, (), 6);
    va_mod!(fn_4, Fn, front, (a0: u64, a1: f64, a2: i32, a3: P16), 4);
    va_mod!(mut_4, FnMut, front_mut, (a0: u64, a1: f64, a2: i32, a3: P16), 6);
    va_mod!(once_4, FnOnce, front_once, (a0: u64, a1: f64, a2: i32, a3: P16), 1);
    va_mod!(fn_9, Fn, front, (a0: u64, a1: f64, a2: i32, a3: P16, a4: u64, a5: u64, a6: f64, a7: Big, a8: u64), 4);
    va_mod!(mut_7, FnMut, front_mut, (a0: u64, a1: f64, a2: i32, a3: P16, a4: u64, a5: u64, a6: f64), 6);
    va_mod!(once_8, FnOnce, front_once, (a0: u64, a1: f64, a2: i32, a3: P16, a4: u64, a5: u64, a6: f64, a7: u64), 4);
}
