//! The allocators wrappers are built on during a run.

use std::rc::Rc;
use std::sync::{Arc, LazyLock};

use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

use crate::simjit::SimHandle;

/// One type for every allocator, so that the large shape matrix is instantiated only once.
pub enum AnyAlloc {
    Sim(SimHandle),
    #[cfg(not(feature = "lane-custom"))]
    Global(crate::builtin::StepGlobal),
    #[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
    Thread(crate::builtin::StepThread),
}

macro_rules! each {
    ($s:expr, $a:ident => $e:expr) => {
        match $s {
            AnyAlloc::Sim($a) => $e,
            #[cfg(not(feature = "lane-custom"))]
            AnyAlloc::Global($a) => $e,
            #[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
            AnyAlloc::Thread($a) => $e,
        }
    };
}

impl JitAlloc for AnyAlloc {
    fn alloc(&self, n: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        each!(self, a => a.alloc(n))
    }
    unsafe fn release(&self, p: *const u8) -> Result<(), JitAllocError> {
        each!(self, a => a.release(p))
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, x: ProtectJitAccess) {
        each!(self, a => a.protect_jit_memory(p, n, x))
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        each!(self, a => a.flush_instruction_cache(p, n))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sel {
    Sim(u8),
    Global,
    Thread,
}

pub trait Handle: JitAlloc + 'static {
    fn of(sel: Sel) -> Self;
}
fn inst(sel: Sel) -> u8 {
    match sel {
        Sel::Sim(i) => i,
        _ => 0,
    }
}

impl Handle for AnyAlloc {
    fn of(sel: Sel) -> Self {
        match sel {
            Sel::Sim(i) => AnyAlloc::Sim(SimHandle::new(i)),
            #[cfg(not(feature = "lane-custom"))]
            Sel::Global => AnyAlloc::Global(crate::builtin::StepGlobal),
            #[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
            Sel::Thread => AnyAlloc::Thread(crate::builtin::StepThread::new()),
            #[allow(unreachable_patterns)]
            _ => crate::harness_error!("allocator not available in this build"),
        }
    }
}

static LAZY: [LazyLock<SimHandle>; 4] = [
    LazyLock::new(|| SimHandle::new(0)),
    LazyLock::new(|| SimHandle::new(1)),
    LazyLock::new(|| SimHandle::new(2)),
    LazyLock::new(|| SimHandle::new(3)),
];

impl Handle for &'static LazyLock<SimHandle> {
    fn of(sel: Sel) -> Self {
        &LAZY[inst(sel) as usize]
    }
}
impl Handle for &'static SimHandle {
    fn of(sel: Sel) -> Self {
        &LAZY[inst(sel) as usize]
    }
}
impl Handle for Arc<SimHandle> {
    fn of(sel: Sel) -> Self {
        Arc::new(SimHandle::new(inst(sel)))
    }
}
impl Handle for Rc<SimHandle> {
    fn of(sel: Sel) -> Self {
        Rc::new(SimHandle::new(inst(sel)))
    }
}
impl Handle for Box<SimHandle> {
    fn of(sel: Sel) -> Self {
        Box::new(SimHandle::new(inst(sel)))
    }
}
impl Handle for Box<Arc<SimHandle>> {
    fn of(sel: Sel) -> Self {
        Box::new(Arc::new(SimHandle::new(inst(sel))))
    }
}

/// A user-written smart pointer.
pub struct Smart(SimHandle);
impl core::ops::Deref for Smart {
    type Target = SimHandle;
    fn deref(&self) -> &SimHandle {
        &self.0
    }
}
impl Handle for Smart {
    fn of(sel: Sel) -> Self {
        Smart(SimHandle::new(inst(sel)))
    }
}

// The user-registered global allocator.
#[cfg(feature = "lane-custom")]
closure_ffi::jit_alloc::global_jit_alloc!(unsafe { &*LAZY[3] });

/// Initialises the shared handles outside any construction.
pub fn touch_lazies() {
    for l in &LAZY {
        LazyLock::force(l);
    }
}
