//! The library's own allocators, run for real behind a model that records what they hand out.

use closure_ffi::jit_alloc::{GlobalJitAlloc, JitAlloc, JitAllocError, ProtectJitAccess};
#[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
use closure_ffi::jit_alloc::ThreadJitAlloc;

use crate::rt::{self, ek, event, stat, Stat, O};
use crate::sched::{self, step_window, user_code, yield_point};
use crate::violation;

#[derive(Clone, Copy)]
struct Area {
    rx: usize,
    size: usize,
    live: bool,
    token: u32,
    hash: u64,
    hashed: bool,
    released: bool,
}
const A0: Area = Area { rx: 0, size: 0, live: false, token: 0, hash: 0, hashed: false, released: false };
const NAREA: usize = 4096;
static mut AREA: [Area; NAREA] = [A0; NAREA];
static mut N: usize = 0;

pub fn reset() {
    unsafe {
        N = 0;
    }
}
fn ar(i: usize) -> &'static mut Area {
    unsafe { &mut *(&raw mut AREA[i]) }
}
fn n() -> usize {
    unsafe { N }
}

fn hash_bytes(p: usize, len: usize) -> u64 {
    let mut h = 7u64;
    for i in 0..len {
        h = (h ^ unsafe { *((p + i) as *const u8) } as u64).wrapping_mul(0x100000001b3);
    }
    h
}

/// Bytes covered by one word of the allocation bitmap of the allocator crate: 32 units of 64.
const WORD: usize = 2048;
const UNIT: usize = 64;

fn is_live(a: usize) -> bool {
    (0..n()).any(|i| ar(i).live && a >= ar(i).rx & !(UNIT - 1) && a < (ar(i).rx + ar(i).size + UNIT - 1) & !(UNIT - 1))
}

/// Finding F1: looking for several free units in a row, the allocator crate continues a free run
/// that reaches the end of a bitmap word into the next word by counting the wrong bits, and then
/// takes used units of that word for free ones (or trips over a shift overflow, if those are
/// checked). Requests of one unit are never affected.
fn explained_by_f1(rx: usize, size: usize) -> bool {
    if size <= UNIT {
        return false;
    }
    let base = crate::interpose::mapping_base(rx);
    let word = base + (rx - base) / WORD * WORD;
    let boundary = word + WORD;
    let across = rx + size > boundary && is_live(boundary);
    // A word read the wrong way round makes its used end look like a free run, and so on.
    let inverted = (base..=word).step_by(WORD).skip(1).any(|w| !is_live(w - 1));
    across || inverted
}

fn end_as_f1(size: usize) -> ! {
    stat(Stat::known_overlap);
    if crate::props::known_overlap_applies(rt::sh().prop) {
        rt::finish(
            rt::ST_KNOWN,
            O::AllocSafe as u32,
            format_args!("F1: a {} byte block was placed over a live one across a bitmap word boundary", size),
        );
    }
    rt::finish(rt::ST_OK, 0, format_args!("run ended early by known finding F1"));
}

fn on_alloc(rx: usize, size: usize) {
    // Disjoint from everything not yet handed back.
    let clash = (0..n()).find(|&i| ar(i).live && rx < ar(i).rx + ar(i).size && ar(i).rx < rx + size);
    if let Some(i) = clash {
        if explained_by_f1(rx, size) {
            end_as_f1(size);
        }
        violation!(
            O::AllocSafe,
            "a new {} byte block overlaps a live one (distance {})",
            size,
            ar(i).rx as isize - rx as isize
        );
    }
    for i in 0..n() {
        let a = ar(i);
        if !a.live && a.released && a.rx < rx + size && rx < a.rx + a.size {
            stat(Stat::recycled_blocks);
            break;
        }
    }
    unsafe {
        if N < NAREA {
            *ar(N) = Area { rx, size, live: true, token: crate::world::current_token(), ..A0 };
            N += 1;
        } else {
            crate::harness_error!("area table full");
        }
    }
    stat(Stat::blocks);
}

fn on_release_begin(rx: usize) -> bool {
    for i in 0..n() {
        let a = ar(i);
        if a.live && a.rx == rx {
            check_area(i);
            if let Some(why) = crate::world::release_too_early(a.token) {
                violation!(O::Ledger, "executable memory released while {}", why);
            }
            a.live = false;
            a.released = true;
            return true;
        }
    }
    false
}

fn check_area(i: usize) {
    let a = ar(i);
    if a.hashed && hash_bytes(a.rx, a.size) != a.hash {
        violation!(O::AllocSafe, "the code of a live thunk changed");
    }
}

/// The construction `token` finished: its code is final from now on.
pub fn seal(token: u32) -> u32 {
    let mut c = 0;
    for i in 0..n() {
        let a = ar(i);
        if a.live && a.token == token && !a.hashed {
            a.hash = hash_bytes(a.rx, a.size);
            a.hashed = true;
            c += 1;
        }
    }
    c
}
pub fn live(token: u32) -> u32 {
    (0..n()).filter(|&i| ar(i).live && ar(i).token == token).count() as u32
}
pub fn total_live() -> u32 {
    (0..n()).filter(|&i| ar(i).live).count() as u32
}
pub fn audit() {
    for i in 0..n() {
        if ar(i).live {
            check_area(i);
        }
    }
}

fn alloc_via(req: impl FnOnce(usize) -> Result<(*const u8, *mut u8), JitAllocError>, size: usize, who: u32) -> Result<(*const u8, *mut u8), JitAllocError> {
    user_code(|| {
        crate::world::on_request(9, 0);
        // Requests of one power-of-two size cannot run into F1.
        let round = unsafe { crate::world::K.round } as usize;
        let size = if round > size { round } else { size };
        let most = if unsafe { crate::world::K.small } { UNIT } else { round };
        if most > 1 && size > most {
            event(ek::ALLOC_FAIL, 999, size as u64);
            crate::world::note_alloc_fault(false);
            return Err(JitAllocError);
        }
        yield_point(10);
        #[cfg(target_arch = "x86_64")]
        let before = crate::interpose::failures();
        let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| step_window(sched::W_ALLOC, || req(size)))) {
            Ok(r) => r,
            Err(p) => {
                if size > UNIT && crate::world::text(&*p) == "attempt to shift left with overflow" {
                    end_as_f1(size);
                }
                std::panic::resume_unwind(p);
            }
        };
        match &r {
            Ok((rx, _)) => {
                event(ek::ALLOC, 1000 + who, size as u64);
                on_alloc(*rx as usize, size);
            }
            Err(_) => {
                event(ek::ALLOC_FAIL, 1000 + who, size as u64);
                #[cfg(target_arch = "x86_64")]
                if crate::interpose::failures() != before {
                    crate::world::note_alloc_fault(false);
                }
            }
        }
        yield_point(11);
        r
    })
}

fn release_via(req: impl FnOnce() -> Result<(), JitAllocError>, rx: *const u8, who: u32) -> Result<(), JitAllocError> {
    user_code(|| {
        crate::world::on_request(9, 1);
        yield_point(12);
        let known = on_release_begin(rx as usize);
        if !known {
            violation!(O::Ledger, "release of memory that is not allocated");
        }
        #[cfg(target_arch = "x86_64")]
        let before = crate::interpose::failures();
        let r = step_window(sched::W_ALLOC, req);
        event(ek::RELEASE, 1000 + who, r.is_ok() as u64);
        #[cfg(target_arch = "x86_64")]
        let faulted = crate::interpose::failures() != before;
        #[cfg(not(target_arch = "x86_64"))]
        let faulted = false;
        if r.is_err() && known && !faulted && !crate::world::thread_exiting() {
            violation!(O::AllocSafe, "releasing a live block was refused");
        }
        yield_point(13);
        r
    })
}

/// The built-in global allocator with instruction-level preemption around each request.
pub struct StepGlobal;
impl JitAlloc for StepGlobal {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        alloc_via(|size| GlobalJitAlloc.alloc(size), size, 0)
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        release_via(|| GlobalJitAlloc.release(rx), rx, 0)
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
        GlobalJitAlloc.protect_jit_memory(p, n, a);
        user_code(|| yield_point(14));
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        GlobalJitAlloc.flush_instruction_cache(p, n);
        user_code(|| yield_point(15));
    }
}

#[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
pub struct StepThread(ThreadJitAlloc, usize);
#[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
impl StepThread {
    pub fn new() -> Self {
        StepThread(ThreadJitAlloc::default(), sched::tid())
    }
}
#[cfg(any(feature = "lane-default", feature = "lane-nightly"))]
impl JitAlloc for StepThread {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        alloc_via(|size| self.0.alloc(size), size, 1 + self.1 as u32)
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        if sched::tid() != self.1 {
            crate::harness_error!("per-thread wrapper dropped on another thread");
        }
        release_via(|| self.0.release(rx), rx, 1 + self.1 as u32)
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
        self.0.protect_jit_memory(p, n, a);
        user_code(|| yield_point(14));
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        self.0.flush_instruction_cache(p, n);
        user_code(|| yield_point(15));
    }
}

// ---- requests made directly to the global allocator ----

#[derive(Clone, Copy)]
struct RawBlock {
    rx: usize,
    rw: usize,
    size: usize,
    tag: u8,
    st: u8, // 0 free, 1 live, 2 in use by an operation
}
static mut RAW: [RawBlock; 96] = [RawBlock { rx: 0, rw: 0, size: 0, tag: 0, st: 0 }; 96];
static mut RAWTAG: u8 = 1;

/// Largest direct request of this run.
pub static mut RAW_MAX: u32 = 64;

fn raw_check(b: &RawBlock) {
    for o in 0..b.size {
        if unsafe { *((b.rx + o) as *const u8) } != b.tag {
            violation!(O::AllocSafe, "byte +{} of a live {} byte block changed", o, b.size);
        }
    }
}

pub fn raw_op() {
    let st = rt::S_OPS + sched::tid();
    stat(Stat::raw_requests);
    unsafe {
        let i = rt::choose(st, 96) as usize;
        let b = &mut *(&raw mut RAW[i]);
        match b.st {
            0 => {
                b.st = 2;
                let size = RAW_MAX as usize - rt::choose(st, RAW_MAX) as usize;
                if let Ok((rx, rw)) = StepGlobal.alloc(size) {
                    RAWTAG = RAWTAG.wrapping_add(1) | 1;
                    *b = RawBlock { rx: rx as usize, rw: rw as usize, size, tag: RAWTAG, st: 1 };
                    core::ptr::write_bytes(rw, b.tag, size);
                } else {
                    b.st = 0;
                }
            }
            1 => {
                raw_check(b);
                if rt::choose(st, 2) == 0 {
                    b.st = 2;
                    let _ = StepGlobal.release(b.rx as *const u8);
                    b.st = 0;
                }
            }
            _ => {}
        }
    }
}

pub fn raw_drain() {
    unsafe {
        for b in &mut *(&raw mut RAW) {
            if b.st == 1 {
                raw_check(b);
                let _ = StepGlobal.release(b.rx as *const u8);
                b.st = 0;
            }
        }
    }
}

/// Memory given back to the system cannot be handed out again.
pub fn on_unmap(addr: usize, len: usize) {
    for i in 0..n() {
        let a = ar(i);
        if a.rx >= addr && a.rx < addr + len {
            a.released = false;
        }
    }
}

/// After everything was released and before any new memory is mapped, every released block must
/// be handed out again.
#[cfg(target_arch = "x86_64")]
pub fn reuse_audit() {
    if total_live() != 0 {
        return;
    }
    stat(Stat::reuse_audits);
    let gen = crate::interpose::map_gen();
    let mut got = [0usize; NAREA];
    let mut k = 0;
    sched::in_library(1);
    while k < NAREA {
        match GlobalJitAlloc.alloc(64) {
            Ok((rx, _)) => {
                got[k] = rx as usize;
                k += 1;
            }
            Err(_) => break,
        }
        if crate::interpose::map_gen() != gen {
            break;
        }
    }
    sched::in_library(-1);
    let fresh = crate::interpose::map_gen() != gen;
    for i in 0..n() {
        let a = ar(i);
        if a.released && fresh {
            let hit = got[..k].iter().any(|g| *g < a.rx + a.size && a.rx < *g + 64);
            if !hit {
                violation!(
                    O::Reuse,
                    "a released {} byte block is never handed out again although new memory was mapped",
                    a.size
                );
            }
        }
    }
    sched::in_library(1);
    for g in &got[..k] {
        if unsafe { GlobalJitAlloc.release(*g as *const u8) }.is_err() {
            violation!(O::AllocSafe, "releasing a live block was refused");
        }
    }
    sched::in_library(-1);
}
#[cfg(not(target_arch = "x86_64"))]
pub fn reuse_audit() {}
