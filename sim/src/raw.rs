//! Requests made directly through an allocator handle, to compare what the handle was asked with
//! what reaches the allocator underneath.

use std::rc::Rc;
use std::sync::{Arc, LazyLock};

use closure_ffi::jit_alloc::{JitAlloc, ProtectJitAccess};

use crate::alloc::{Handle, Sel, Smart};
use crate::rt::{choose, ek, event, stat, Stat, O, S_OPS};
use crate::sched::{self, step_window};
use crate::simjit::{self, SimHandle};
use crate::violation;

static mut LIVE: u32 = 0;

/// Blocks deliberately kept by this module.
pub fn live() -> u32 {
    unsafe { LIVE }
}

fn expect(what: &str, before: [u64; 4], inst: usize, kind: usize, ptr: usize, size: usize, rw: bool) {
    let now = simjit::requests();
    for i in 0..simjit::NINST {
        for j in 0..4 {
            let want = (i == inst && j == kind) as u64;
            let base = if i == inst { before[j] } else { continue };
            if now[i][j] != base + want {
                violation!(
                    O::Forward,
                    "{}: {} requests of kind {} reached the allocator instead of {}",
                    what,
                    now[i][j] - base,
                    j,
                    want
                );
            }
        }
    }
    let l = simjit::last(inst);
    if kind == 0 {
        if l.size != size {
            violation!(O::Forward, "{}: size {} arrived as {}", what, size, l.size);
        }
    } else if kind == 1 {
        if l.ptr != ptr {
            violation!(O::Forward, "{}: address changed on the way", what);
        }
    } else if l.ptr != ptr || l.size != size || (kind == 2 && l.rw != rw) {
        violation!(O::Forward, "{}: address, size or access mode changed on the way", what);
    }
}

fn drive<H: JitAlloc>(h: H, inst: usize, what: &'static str) {
    let st = S_OPS + sched::tid();
    stat(Stat::forwarded_requests);
    event(ek::NOTE, inst as u32, 100);
    let size = 1 + choose(st, 200) as usize;
    let b = simjit::requests()[inst];
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step_window(sched::W_ALLOC, || h.alloc(size))));
    expect(what, b, inst, 0, 0, size, false);
    let a = simjit::last(inst).answer;
    let Ok(r) = r else {
        if a.is_some() {
            violation!(O::Forward, "{}: a request panicked although the allocator answered", what);
        }
        return;
    };
    match (&r, a) {
        (Ok((x, w)), Some((ax, aw))) => {
            if *x as usize != ax || *w as usize != aw {
                violation!(O::Forward, "{}: the addresses handed out changed on the way", what);
            }
        }
        (Err(_), None) => {}
        (Ok(_), None) => violation!(O::Forward, "{}: an error was turned into success", what),
        (Err(_), Some(_)) => violation!(O::Forward, "{}: success was turned into an error", what),
    }
    if let Ok((x, _)) = r {
        for rw in [true, false] {
            let b = simjit::requests()[inst];
            let acc = if rw { ProtectJitAccess::ReadWrite } else { ProtectJitAccess::ReadExecute };
            let off = choose(st, size as u32) as usize;
            let len = size - off;
            unsafe { h.protect_jit_memory(x.add(off), len, acc) };
            expect(what, b, inst, 2, x as usize + off, len, rw);
        }
        let b = simjit::requests()[inst];
        let off = choose(st, size as u32) as usize;
        unsafe { h.flush_instruction_cache(x.add(off), size - off) };
        expect(what, b, inst, 3, x as usize + off, size - off, false);
        let b = simjit::requests()[inst];
        let r = step_window(sched::W_ALLOC, || unsafe { h.release(x) });
        expect(what, b, inst, 1, x as usize, 0, false);
        if r.is_ok() != simjit::last(inst).answer.is_some() {
            violation!(O::Forward, "{}: the answer to a release was changed", what);
        }
    }
    drop(h);
}

pub fn request() {
    // Counters are compared exactly, so nobody else may make requests meanwhile.
    let _q = sched::Alone::new();
    let st = S_OPS + sched::tid();
    let inst = choose(st, simjit::NINST as u32) as u8;
    let sel = Sel::Sim(inst);
    let i = inst as usize;
    match choose(st, 9) {
        0 => drive(<&'static SimHandle>::of(sel), i, "reference"),
        1 => drive(<Box<SimHandle>>::of(sel), i, "Box"),
        2 => drive(<Arc<SimHandle>>::of(sel), i, "Arc"),
        3 => drive(<Rc<SimHandle>>::of(sel), i, "Rc"),
        4 => drive(<&'static LazyLock<SimHandle>>::of(sel), i, "lazy static"),
        5 => drive(<Box<Arc<SimHandle>>>::of(sel), i, "Box<Arc>"),
        6 => drive(Smart::of(sel), i, "smart pointer"),
        7 => drive(&&&<&'static SimHandle>::of(sel), i, "nested reference"),
        _ => {
            #[cfg(feature = "lane-custom")]
            drive(closure_ffi::jit_alloc::GlobalJitAlloc, 3, "global allocator");
            #[cfg(not(feature = "lane-custom"))]
            drive(Arc::new(Box::new(SimHandle::new(inst))), i, "Arc<Box>");
        }
    }
}
