//! Type-erased access to every wrapper type of the library.

use closure_ffi::jit_alloc::JitAlloc;
use closure_ffi::traits::{Any, FnPtr};
use closure_ffi::{
    BareFnAny, BareFnMutAny, BareFnOnceAny, UntypedBareFn, UntypedBareFnMut, UntypedBareFnOnce,
};

pub trait W {
    /// The function pointer, for kinds that expose it without leaking.
    fn ptr(&self) -> Option<*const ()>;
    /// Weakens the storage bounds; `k` selects among the legal targets.
    fn upcast(self: Box<Self>, k: u32) -> Box<dyn W>;
    /// Erases the signature; `k` selects the route. Identity when already erased.
    fn untype(self: Box<Self>, k: u32) -> Box<dyn W>;
    fn leak(self: Box<Self>) -> *const ();
    fn is_typed(&self) -> bool;
}

/// Runs a conversion of the library, which must not touch the heap.
fn still<T, R>(v: T, f: impl FnOnce(T) -> R) -> R {
    let before = crate::heap::requests();
    let r = f(v);
    if crate::heap::requests() != before {
        crate::violation!(crate::rt::O::PtrSame, "a conversion or leak allocated or freed heap memory");
    }
    r
}

macro_rules! has_bare {
    (yes, typed, $s:ident) => {
        Some($s.bare().to_ptr())
    };
    (yes, untyped, $s:ident) => {
        Some($s.bare())
    };
    (no, $x:ident, $s:ident) => {
        None
    };
}

macro_rules! holders {
    ($ty:ident, $un:ident, $bare:ident; $($s:ty => [$($u:ty),*];)*) => { $(
        impl<B: FnPtr + 'static, A: JitAlloc + 'static> W for $ty<B, $s, A> {
            fn ptr(&self) -> Option<*const ()> { has_bare!($bare, typed, self) }
            fn upcast(self: Box<Self>, k: u32) -> Box<dyn W> {
                let mut i = 0u32;
                let n = 0 $(+ { let _: Option<&$u> = None; 1 })*;
                $(if i == k % n { return Box::new(still(*self, |v| v.upcast::<$u>())); } i += 1;)*
                let _ = i;
                self
            }
            fn untype(self: Box<Self>, k: u32) -> Box<dyn W> {
                if k == 0 {
                    return Box::new(still(*self, |v| v.into_untyped()));
                }
                let mut i = 0u32;
                let n = 0 $(+ { let _: Option<&$u> = None; 1 })*;
                $(if i == (k - 1) % n { let v: $un<$u, A> = still(*self, |v| v.into()); return Box::new(v); } i += 1;)*
                let _ = i;
                self
            }
            fn leak(self: Box<Self>) -> *const () { still(*self, |v| v.leak().to_ptr()) }
            fn is_typed(&self) -> bool { true }
        }
        impl<A: JitAlloc + 'static> W for $un<$s, A> {
            fn ptr(&self) -> Option<*const ()> { has_bare!($bare, untyped, self) }
            fn upcast(self: Box<Self>, k: u32) -> Box<dyn W> {
                let mut i = 0u32;
                let n = 0 $(+ { let _: Option<&$u> = None; 1 })*;
                $(if i == k % n { return Box::new(still(*self, |v| v.upcast::<$u>())); } i += 1;)*
                let _ = i;
                self
            }
            fn untype(self: Box<Self>, _k: u32) -> Box<dyn W> { self }
            fn leak(self: Box<Self>) -> *const () { still(*self, |v| v.leak()) }
            fn is_typed(&self) -> bool { false }
        }
    )* };
}

macro_rules! all_bounds {
    ($ty:ident, $un:ident, $bare:ident) => {
        holders!($ty, $un, $bare;
            dyn Send + Sync => [dyn Send + Sync, dyn Send, dyn Sync, dyn Any];
            dyn Send => [dyn Send, dyn Any];
            dyn Sync => [dyn Sync, dyn Any];
            dyn Any => [dyn Any];
        );
    };
}
all_bounds!(BareFnAny, UntypedBareFn, yes);
all_bounds!(BareFnMutAny, UntypedBareFnMut, yes);
all_bounds!(BareFnOnceAny, UntypedBareFnOnce, no);
