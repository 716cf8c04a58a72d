//! The catalogue of closures: for every signature family, how to build a wrapper with a simulated
//! closure inside and how to call the resulting function pointer. `table.rs` is generated.

use core::sync::atomic::{AtomicU32, Ordering};

use closure_ffi::jit_alloc::JitAllocError;
#[allow(unused_imports)]
use closure_ffi::traits::{FnMutThunk, FnOnceThunk, FnPtr, FnThunk};
#[allow(unused_imports)]
use closure_ffi::{cc, thunk_factory, BareFnAny, BareFnMutAny, BareFnOnceAny};

#[allow(unused_imports)]
use crate::alloc::{AnyAlloc, Handle, Sel, Smart};
use crate::hold::W;
use crate::rt::mix2;
use crate::sched::{self, step_window, user_code};
use crate::vals::*;
use crate::world;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Fn,
    FnMut,
    FnOnce,
}

/// Shape families, as bits.
pub mod fam {
    pub const MATRIX: u32 = 1;
    pub const CTOR: u32 = 2;
    pub const FACTORY: u32 = 4;
    pub const HANDLE: u32 = 8;
    pub const GLOBAL: u32 = 16;
    pub const LEAF: u32 = 32;
    pub const HRTB: u32 = 64;
    pub const VARIADIC: u32 = 128;
    pub const BOUND: u32 = 256;
    pub const ZST: u32 = 512;
}

pub struct Shape {
    pub sid: u32,
    pub name: &'static str,
    pub kind: Kind,
    pub cc: &'static str,
    pub arity: u8,
    /// Zero-sized closure.
    pub zst: bool,
    /// The captured value's destruction is observed.
    pub tracked: bool,
    /// The closure counts its calls in its captured state.
    pub counts: bool,
    /// The body reports that it ran.
    pub observed: bool,
    pub unwind: bool,
    /// The constructor returns an error instead of panicking.
    pub fallible: bool,
    pub toks: bool,
    pub fam: u32,
    pub make: fn(&Req) -> Result<Box<dyn W>, JitAllocError>,
    pub inv: unsafe fn(*const (), u64) -> (u64, u64),
}

pub struct Req {
    pub id: u32,
    pub shape: u32,
    pub sel: Sel,
}
impl Req {
    pub fn alloc<A: Handle>(&self) -> A {
        A::of(self.sel)
    }
    /// Remembers the size of the closure under construction.
    pub fn sized<C: Capt, F>(&self, _f: &F) {
        world::set_csize(self.id, core::mem::size_of::<F>(), C::needle(self.id));
    }
    pub fn lib<R>(&self, f: impl FnOnce() -> R) -> R {
        step_window(sched::W_OP, f)
    }
}

// ---- captured values ----

pub trait Capt: Sized {
    fn new(q: &Req) -> Self;
    /// Identity of the closure, or `None` with a message when the state is corrupt.
    fn ident(&self) -> Ident;
    /// Counts a call in the captured state itself.
    fn bump(&self) -> u32 {
        0
    }
    /// Bytes by which the storage of closure `id` is recognised, and how many.
    fn needle(_id: u32) -> (u64, usize) {
        (0, 0)
    }
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ident {
    Id(u32),
    Shape(u32),
    Corrupt,
}

const CAN: u64 = 0xC0FF_EE00_1234_5678;

macro_rules! cap_type {
    ($(#[$m:meta])* $n:ident, $pad:ty, $pv:expr) => {
        $(#[$m])*
        pub struct $n {
            canary: u64,
            id: u32,
            n: AtomicU32,
            #[allow(dead_code)]
            pad: $pad,
            tail: u64,
        }
        impl Capt for $n {
            fn new(q: &Req) -> Self {
                $n { canary: CAN ^ q.id as u64, id: q.id, n: AtomicU32::new(0), pad: $pv, tail: CAN.rotate_left(9) ^ q.id as u64 }
            }
            fn ident(&self) -> Ident {
                let at = core::hint::black_box(self as *const Self as usize);
                if at % core::mem::align_of::<Self>() == 0 && self.canary ^ self.id as u64 == CAN && self.tail ^ self.id as u64 == CAN.rotate_left(9) {
                    Ident::Id(self.id)
                } else {
                    Ident::Corrupt
                }
            }
            fn bump(&self) -> u32 {
                self.n.fetch_add(1, Ordering::Relaxed) + 1
            }
            fn needle(id: u32) -> (u64, usize) {
                (CAN.rotate_left(9) ^ id as u64, 8)
            }
        }
        impl Drop for $n {
            fn drop(&mut self) {
                let i = self.ident();
                self.canary = 0xDEAD;
                user_code(|| world::cap_drop(i));
            }
        }
    };
}
cap_type!(Cap, (), ());
cap_type!(
    #[repr(align(64))]
    Over,
    [u8; 3],
    [7; 3]
);
cap_type!(Wide, [u64; 300], [9; 300]);

/// Two bytes.
pub struct Small {
    id: u16,
}
impl Capt for Small {
    fn new(q: &Req) -> Self {
        Small { id: q.id as u16 ^ 0x5a00 }
    }
    fn ident(&self) -> Ident {
        let i = self.id ^ 0x5a00;
        if (i as u32) < world::MAXID as u32 {
            Ident::Id(i as u32)
        } else {
            Ident::Corrupt
        }
    }
}
impl Drop for Small {
    fn drop(&mut self) {
        let i = self.ident();
        self.id = 0xffff;
        user_code(|| world::cap_drop(i));
    }
}

/// No destructor.
pub struct Plain {
    id: u32,
    n: AtomicU32,
}
impl Capt for Plain {
    fn new(q: &Req) -> Self {
        Plain { id: q.id ^ 0x7777_0000, n: AtomicU32::new(0) }
    }
    fn ident(&self) -> Ident {
        let i = self.id ^ 0x7777_0000;
        if i < world::MAXID as u32 {
            Ident::Id(i)
        } else {
            Ident::Corrupt
        }
    }
    fn bump(&self) -> u32 {
        self.n.fetch_add(1, Ordering::Relaxed) + 1
    }
    fn needle(id: u32) -> (u64, usize) {
        ((id ^ 0x7777_0000) as u64, 4)
    }
}

/// Zero-sized, with and without destructor.
pub struct Zst<const N: u32>;
impl<const N: u32> Capt for Zst<N> {
    fn new(_: &Req) -> Self {
        Zst
    }
    fn ident(&self) -> Ident {
        Ident::Shape(N)
    }
}
#[repr(align(64))]
pub struct ZstD<const N: u32>;
impl<const N: u32> Capt for ZstD<N> {
    fn new(_: &Req) -> Self {
        ZstD
    }
    fn ident(&self) -> Ident {
        let at = core::hint::black_box(self as *const Self as usize);
        if at % core::mem::align_of::<Self>() == 0 {
            Ident::Shape(N)
        } else {
            Ident::Corrupt
        }
    }
}
impl<const N: u32> Drop for ZstD<N> {
    fn drop(&mut self) {
        let i = self.ident();
        user_code(|| world::cap_drop(i));
    }
}

#[inline(never)]
pub fn enter<C: Capt>(c: &C, d: u64) -> u64 {
    user_code(|| {
        let id = c.ident();
        let n = if id == Ident::Corrupt { 0 } else { c.bump() };
        world::body(id, n, d)
    })
}
#[inline(never)]
pub fn enter_mut<C: Capt>(c: &mut C, d: u64) -> u64 {
    enter(c, d)
}

/// Calls the function pointer with instruction-level preemption, if the run wants that.
#[inline(never)]
pub fn lib_call<R>(f: impl FnOnce() -> R) -> R {
    step_window(sched::W_CALL, f)
}

pub const D0: u64 = 0x1234;

macro_rules! wrapper {
    (Fn, $b:ty, $s:ty, $a:ty) => { BareFnAny<$b, $s, $a> };
    (FnMut, $b:ty, $s:ty, $a:ty) => { BareFnMutAny<$b, $s, $a> };
    (FnOnce, $b:ty, $s:ty, $a:ty) => { BareFnOnceAny<$b, $s, $a> };
}

macro_rules! cap_of {
    (Zst, $id:literal) => { Zst<$id> };
    (ZstD, $id:literal) => { ZstD<$id> };
    ($c:ident, $id:literal) => { $c };
}

macro_rules! closure {
    (Fn, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let c = <$cap as Capt>::new($q);
        move |$($a: $t),*| -> $r {
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter(&c, _d))
        }
    }};
    (FnMut, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let mut c = <$cap as Capt>::new($q);
        move |$($a: $t),*| -> $r {
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter_mut(&mut c, _d))
        }
    }};
    (FnOnce, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let c = <$cap as Capt>::new($q);
        move |$($a: $t),*| -> $r {
            let c = c;
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter(&c, _d))
        }
    }};
}
/// The same, taking the arguments as one tuple.
macro_rules! packed {
    (Fn, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let c = <$cap as Capt>::new($q);
        move |($($a,)*): ($($t,)*)| -> $r {
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter(&c, _d))
        }
    }};
    (FnMut, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let mut c = <$cap as Capt>::new($q);
        move |($($a,)*): ($($t,)*)| -> $r {
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter_mut(&mut c, _d))
        }
    }};
    (FnOnce, $cap:ty, $q:ident, ($($a:ident: $t:ty),*), $r:ty) => {{
        let c = <$cap as Capt>::new($q);
        move |($($a,)*): ($($t,)*)| -> $r {
            let c = c;
            let mut _d = D0;
            $(_d = mix2(_d, $a.dig());)*
            <$r as Val>::gen(enter(&c, _d))
        }
    }};
}

macro_rules! build {
    (try_with_cc_in, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::try_with_cc_in(cc::$cc, $cl, al))?
    }};
    (with_cc_in, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::with_cc_in(cc::$cc, $cl, al))
    }};
    (new_in, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::new_in($cl, al))
    }};
    (try_with_thunk_in, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::try_with_thunk_in((cc::$cc, $cl), al))?
    }};
    (with_thunk_in, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::with_thunk_in((cc::$cc, $cl), al))
    }};
    (new, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {
        $q.lib(move || <$w>::new($cl))
    };
    (with_cc, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {
        $q.lib(move || <$w>::with_cc(cc::$cc, $cl))
    };
    (with_thunk, $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {
        $q.lib(move || <$w>::with_thunk((cc::$cc, $cl)))
    };
    // Shorthand constructors named after their convention.
    ((short $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::$f($cl, al))
    }};
    ((gshort $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {
        $q.lib(move || <$w>::$f($cl))
    };
    ((factory $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::try_with_thunk_in(thunk_factory::$f::<$b, _>($cl), al))?
    }};
    ((front $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::try_with_thunk_in($f::<$b, _>((cc::$cc, $cl)), al))?
    }};
    // Two layers: the inner thunk is one made by a factory.
    ((front2 $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {{
        let al = $q.alloc::<$al>();
        $q.lib(move || <$w>::with_thunk_in($f::<$b, _>($f::<$b, _>((cc::$cc, $cl))), al))
    }};
    ((gfactory $f:ident), $w:ty, $b:ty, $cc:ident, $cl:ident, $q:ident, $al:ty) => {
        $q.lib(move || <$w>::with_thunk(thunk_factory::$f::<$b, _>($cl)))
    };
}

/// Instrumentation in front of a thunk, as a user of the factories would write it.
pub fn front<B: FnPtr, T: FnThunk<B> + Send + Sync>(t: T) -> impl FnThunk<B> + Send + Sync {
    thunk_factory::make_send_sync(move |args| unsafe { t.call(args) })
}
pub fn front_mut<B: FnPtr, T: FnMutThunk<B> + Send + Sync>(mut t: T) -> impl FnMutThunk<B> + Send + Sync {
    thunk_factory::make_mut_send_sync(move |args| unsafe { t.call_mut(args) })
}
pub fn front_once<B: FnPtr, T: FnOnceThunk<B> + Send + Sync>(t: T) -> impl FnOnceThunk<B> + Send + Sync {
    thunk_factory::make_once_send_sync(move |args| unsafe { t.call_once(args) })
}

macro_rules! hold {
    (typed, $w:expr) => { Ok(Box::new($w) as Box<dyn W>) };
    (untyped, $w:expr) => { Ok(Box::new($w.into_untyped()) as Box<dyn W>) };
}

macro_rules! shape {
    ($m:ident, $id:literal, $kind:ident, $cc:ident, $lit:literal, ($($a:ident: $t:ty),*), $r:ty,
     $cap:ident, [$($s:tt)*], $ctor:tt, $al:ty, $hold:ident, $mk:ident) => {
        pub mod $m {
            use super::super::*;
            type B = unsafe extern $lit fn($($t),*) -> $r;
            #[allow(unused_mut, unused_assignments, unused_variables)]
            pub unsafe fn inv(p: *const (), s: u64) -> (u64, u64) {
                let f: B = core::mem::transmute(p);
                let mut k = 0u64;
                let mut d = D0;
                $(k += 1; let $a = <$t as Val>::gen(mix2(s, k)); d = mix2(d, $a.dig());)*
                let want = <$r as Val>::gen(world::call_begin(d)).dig();
                let r: $r = if s & 0x100 != 0 {
                    lib_call(move || closure_ffi::traits::FnPtr::call(f, ($($a,)*)))
                } else {
                    lib_call(move || f($($a),*))
                };
                (r.dig(), want)
            }
            pub fn make(q: &Req) -> Result<Box<dyn W>, JitAllocError> {
                let cl = $mk!($kind, cap_of!($cap, $id), q, ($($a: $t),*), $r);
                q.sized::<cap_of!($cap, $id), _>(&cl);
                let w = build!($ctor, wrapper!($kind, B, $($s)*, $al), B, $cc, cl, q, $al);
                hold!($hold, w)
            }
        }
    };
}

#[inline(never)]
extern "C" fn far_u(x: u64, y: u64) -> u64 {
    core::hint::black_box(x).wrapping_add(y)
}
#[inline(never)]
extern "C" fn far_f(x: f64, y: f64) -> f64 {
    core::hint::black_box(x) + y
}

/// Closures small enough to be compiled into the entry function itself.
macro_rules! leaf {
    ($m:ident, $id:literal, $kind:ident, $cc:ident, $lit:literal, ($($a:ident: $t:ty),*), $r:ty, |$c:ident: $ct:ty| $e:expr) => {
        pub mod $m {
            use super::super::*;
            type B = unsafe extern $lit fn($($t),*) -> $r;
            #[allow(unused_mut, unused_assignments, unused_variables)]
            pub unsafe fn inv(p: *const (), s: u64) -> (u64, u64) {
                let f: B = core::mem::transmute(p);
                let mut k = 0u64;
                $(k += 1; let $a = <$t as Val>::gen(mix2(s, k));)*
                world::call_begin(0);
                let $c = world::call_id() as $ct;
                let want: $r = $e;
                let r: $r = lib_call(move || f($($a),*));
                (r.dig(), want.dig())
            }
            #[allow(unused_mut)]
            pub fn make(q: &Req) -> Result<Box<dyn W>, JitAllocError> {
                let $c = q.id as $ct;
                let cl = move |$($a: $t),*| -> $r { $e };
                let al = q.alloc::<AnyAlloc>();
                let w = q.lib(move || <wrapper!($kind, B, dyn Send + Sync, AnyAlloc)>::try_with_cc_in(cc::$cc, cl, al))?;
                Ok(Box::new(w) as Box<dyn W>)
            }
        }
    };
}

#[macro_use]
pub mod special;
pub mod table;
