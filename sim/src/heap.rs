//! The heap used during a simulated run: a bump arena that never reuses memory, poisons what is
//! freed and knows, for every 16-byte granule, whether it is live. Outside runs: the system heap.

use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::alloc::System;

pub struct Heap;

#[global_allocator]
static GLOBAL: Heap = Heap;

#[cfg(target_pointer_width = "64")]
const SIZE: usize = 512 << 20;
#[cfg(target_pointer_width = "32")]
const SIZE: usize = 96 << 20;
const GRAN: usize = 16;

static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static MAP: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);

const FREE: u8 = 0;
const LIVE: u8 = 1;
const HEAD: u8 = 2;
const FREED: u8 = 3;

/// Reserves the arena (parent, before forking runs).
pub fn reserve() {
    unsafe {
        let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
        let pr = libc::PROT_READ | libc::PROT_WRITE;
        BASE.store(crate::sys::mmap(0, SIZE, pr, fl), Ordering::Relaxed);
        MAP.store(crate::sys::mmap(0, SIZE / GRAN, pr, fl), Ordering::Relaxed);
    }
    if BASE.load(Ordering::Relaxed) == usize::MAX || MAP.load(Ordering::Relaxed) == usize::MAX {
        eprintln!("cannot reserve heap arena");
        std::process::exit(2);
    }
}

/// Switches this process (a run) to the arena.
pub fn activate() {
    NEXT.store(4096, Ordering::Relaxed);
    unsafe {
        NLOGGED = 0;
    }
    ON.store(true, Ordering::Relaxed);
}

#[inline]
fn owns(p: usize) -> bool {
    let b = BASE.load(Ordering::Relaxed);
    b != 0 && p >= b && p < b + SIZE
}

#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum State {
    Outside,
    Live,
    Freed,
}

/// State of the heap byte at `p`.
pub fn state(p: usize) -> State {
    if !owns(p) {
        return State::Outside;
    }
    let i = (p - BASE.load(Ordering::Relaxed)) / GRAN;
    match unsafe { *((MAP.load(Ordering::Relaxed) + i) as *const u8) } {
        LIVE | HEAD => State::Live,
        _ => State::Freed,
    }
}

static mut REQUESTS: [u32; crate::sched::MAXT] = [0; crate::sched::MAXT];

/// Heap requests the running thread has made so far.
pub fn requests() -> u32 {
    unsafe { REQUESTS[crate::sched::tid()] }
}

const NLOG: usize = 16384;
static mut LOG: [(usize, usize, u32); NLOG] = [(0, 0, 0); NLOG];
static mut NLOGGED: usize = 0;

/// Blocks of exactly `size` bytes, containing the bytes of `needle`, that the library obtained
/// while building `token` and still holds.
pub fn live_of(token: u32, size: usize, needle: (u64, usize)) -> u32 {
    unsafe {
        let mut n = 0;
        for e in &LOG[..NLOGGED] {
            if e.2 != token || e.1 != size || state(e.0) != State::Live {
                continue;
            }
            let b = core::slice::from_raw_parts(e.0 as *const u8, size);
            let w = needle.0.to_le_bytes();
            if b.windows(needle.1).any(|x| x == &w[..needle.1]) {
                n += 1;
            }
        }
        n
    }
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) {
            return System.alloc(l);
        }
        let _q = crate::sched::Quiet::new();
        if crate::sched::in_call() {
            crate::violation!(crate::rt::O::NoWait, "a call of a bare function asked for {} bytes of heap memory", l.size());
        }
        REQUESTS[crate::sched::tid()] += 1;
        let al = l.align().max(GRAN);
        let sz = (l.size().max(1) + GRAN - 1) & !(GRAN - 1);
        // One granule of slack after each block keeps neighbours apart.
        let need = sz + GRAN + al;
        let base = BASE.load(Ordering::Relaxed);
        let off = NEXT.fetch_add(need, Ordering::Relaxed);
        if off + need > SIZE {
            return core::ptr::null_mut();
        }
        let p = (base + off + al - 1) & !(al - 1);
        let i = (p - base) / GRAN;
        let m = MAP.load(Ordering::Relaxed) as *mut u8;
        core::ptr::write_bytes(m.add(i), LIVE, sz / GRAN);
        *m.add(i) = HEAD;
        if crate::sched::in_construction() && NLOGGED < NLOG {
            let t = crate::world::current_token();
            if t != 0 {
                LOG[NLOGGED] = (p, l.size(), t);
                NLOGGED += 1;
            }
        }
        core::ptr::write_bytes(p as *mut u8, 0xA5, sz.min(4096));
        p as *mut u8
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            core::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !owns(p as usize) {
            return System.dealloc(p, l);
        }
        let _q = crate::sched::Quiet::new();
        REQUESTS[crate::sched::tid()] += 1;
        let sz = (l.size().max(1) + GRAN - 1) & !(GRAN - 1);
        let i = (p as usize - BASE.load(Ordering::Relaxed)) / GRAN;
        let m = MAP.load(Ordering::Relaxed) as *mut u8;
        if *m.add(i) != HEAD {
            crate::violation!(
                crate::rt::O::DropOnce,
                "heap block of {} bytes freed twice or by a wrong address",
                l.size()
            );
            crate::violation!(crate::rt::O::Crash, "heap corruption: bad free of {} bytes", l.size());
        }
        core::ptr::write_bytes(m.add(i), FREED, sz / GRAN);
        core::ptr::write_bytes(p, 0xDD, sz);
        let _ = FREE;
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !ON.load(Ordering::Relaxed) && !owns(p as usize) {
            return System.realloc(p, l, new);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
