//! Simulated executable memory: a [`JitAlloc`] whose hardware is a model.
//!
//! Every block has a data image (what stores see) and an instruction image (what execution sees).
//! Depending on the run's configuration the two live at different addresses (dual mapping) or at
//! the same one (a view that is either writable or executable, per thread), instruction fetch is
//! coherent or only follows flushes, write access is enforced by page protection or not, and blocks
//! are packed, unaligned, recycled, dirty, near or far, or end at an inaccessible page.

use closure_ffi::jit_alloc::{JitAlloc, JitAllocError, ProtectJitAccess};

use crate::rt::{chance, choose, ek, event, mix2, sh, stat, Stat, O, S_CFG, S_FAULT};
use crate::sched::{self, user_code, yield_point, MAXT};
use crate::sys;

const PAGE: usize = 4096;
pub const NREGION: usize = 4;
const RPAGES: usize = 64;
const RSIZE: usize = RPAGES * PAGE;
/// Region whose blocks each end at a guard page.
const EDGE: usize = 3;
const NBLOCK: usize = 2048;
pub const NINST: usize = 4;

#[derive(Clone, Copy)]
pub struct Cfg {
    /// rx == rw; one view, per-thread write or execute.
    pub single: bool,
    /// Page protection enforces the write window.
    pub strict: bool,
    /// Instruction fetch sees only flushed bytes.
    pub incoherent: bool,
    /// Bit per region that may be used.
    pub regions: u32,
    pub any_align: bool,
    /// In eighths: probability of reusing a released block.
    pub recycle: u32,
    /// 0: int3-like filler, 1: zero, 2: random, 3: leave stale.
    pub dirty: u32,
    /// In sixteenths.
    pub fail_alloc: u32,
    pub panic_alloc: u32,
    pub fail_release: u32,
    /// All requests fail.
    pub refuse_all: bool,
    /// In sixteenths: allocator methods re-enter the library.
    pub reenter: u32,
}
pub const CFG0: Cfg = Cfg {
    single: false,
    strict: false,
    incoherent: false,
    regions: 0b0011,
    any_align: false,
    recycle: 4,
    dirty: 0,
    fail_alloc: 0,
    panic_alloc: 0,
    fail_release: 0,
    refuse_all: false,
    reenter: 0,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BSt {
    Unused,
    Live,
    Released,
    /// Released and handed out again under a new block.
    Gone,
}

#[derive(Clone, Copy)]
struct Decl {
    lo: u32,
    hi: u32,
    rw: bool,
}

#[derive(Clone, Copy)]
pub struct Block {
    pub st: BSt,
    pub inst: u8,
    region: u8,
    off: u32,
    size: u32,
    cap: u32,
    pub token: u32,
    pub sealed: bool,
    decl: [Decl; 6],
    ndecl: u8,
}
const B0: Block = Block {
    st: BSt::Unused,
    inst: 0,
    region: 0,
    off: 0,
    size: 0,
    cap: 0,
    token: 0,
    sealed: false,
    decl: [Decl { lo: 0, hi: 0, rw: false }; 6],
    ndecl: 0,
};

#[derive(Clone, Copy)]
struct Region {
    rx: usize,
    rw: usize,
    /// Expected data image.
    want: usize,
    /// Data image of blocks at allocation time.
    init: usize,
    /// In single mode: the image that is not currently in the view.
    hidden: usize,
    next: usize,
}
const R0: Region = Region { rx: 0, rw: 0, want: 0, init: 0, hidden: 0, next: 0 };

static mut REG: [Region; NREGION] = [R0; NREGION];
static mut BLK: [Block; NBLOCK] = [B0; NBLOCK];
static mut NBLK: usize = 0;
pub static mut CFG: Cfg = CFG0;
static mut MODE_RW: [bool; MAXT] = [false; MAXT];
/// Whether the views are currently set up for write access.
static mut VIEW_RW: bool = false;
static mut ON: bool = false;
pub static mut LIVE_HANDLES: [i32; NINST] = [0; NINST];
/// Requests seen per instance: alloc, release, protect, flush.
pub static mut REQ: [[u64; 4]; NINST] = [[0; 4]; NINST];

/// The last request that reached an instance.
#[derive(Clone, Copy)]
pub struct Last {
    pub ptr: usize,
    pub size: usize,
    pub rw: bool,
    pub answer: Option<(usize, usize)>,
}
static mut LAST: [Last; NINST] = [Last { ptr: 0, size: 0, rw: false, answer: None }; NINST];
pub fn last(i: usize) -> Last {
    unsafe { LAST[i] }
}
pub fn requests() -> [[u64; 4]; NINST] {
    unsafe { REQ }
}

fn reg(i: usize) -> &'static mut Region {
    unsafe { &mut *(&raw mut REG[i]) }
}
fn blk(i: usize) -> &'static mut Block {
    unsafe { &mut *(&raw mut BLK[i]) }
}
pub fn cfg() -> &'static mut Cfg {
    unsafe { &mut *(&raw mut CFG) }
}
fn nblk() -> usize {
    unsafe { NBLK }
}

/// Reserves the regions (parent, before forking runs).
pub fn reserve() {
    #[cfg(target_pointer_width = "64")]
    let hints = {
        let here = reserve as *const () as usize & !0xfff_ffff;
        [here + 0x3000_0000, 0x2000_0000, 0, 0]
    };
    #[cfg(target_pointer_width = "32")]
    let hints = [0x3000_0000usize, 0x2000_0000, 0, 0];
    let fl = libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE;
    let rwp = libc::PROT_READ | libc::PROT_WRITE;
    unsafe {
        for i in 0..NREGION {
            let r = reg(i);
            let span = RSIZE + 2 * PAGE;
            let map = |h: usize, prot: i32| -> usize {
                let mut p = usize::MAX;
                if h != 0 {
                    p = sys::mmap(h, span, libc::PROT_NONE, fl | libc::MAP_FIXED_NOREPLACE);
                    if p != usize::MAX && p != h {
                        p = usize::MAX;
                    }
                }
                if p == usize::MAX {
                    p = sys::mmap(0, span, libc::PROT_NONE, fl);
                }
                if p == usize::MAX {
                    eprintln!("cannot reserve code region");
                    std::process::exit(2);
                }
                // Guard pages stay in front and behind.
                sys::mprotect(p + PAGE, RSIZE, prot);
                p + PAGE
            };
            r.rx = map(hints[i], rwp);
            r.rw = map(if hints[i] != 0 { hints[i] + 0x100_0000 } else { 0 }, rwp);
            r.want = map(0, rwp);
            r.init = map(0, rwp);
            r.hidden = map(0, rwp);
        }
    }
}

pub fn start(c: Cfg) {
    unsafe {
        CFG = c;
        NBLK = 0;
        ON = true;
        VIEW_RW = false;
        MODE_RW = [false; MAXT];
        LIVE_HANDLES = [0; NINST];
        REQ = [[0; 4]; NINST];
        for i in 0..NREGION {
            reg(i).next = 0;
            if i == EDGE {
                for p in 0..RPAGES {
                    if p % 2 == 1 {
                        sys::mprotect(reg(i).rx + p * PAGE, PAGE, libc::PROT_NONE);
                        sys::mprotect(reg(i).rw + p * PAGE, PAGE, libc::PROT_NONE);
                    }
                }
            }
        }
        apply(false);
    }
}

const RX: i32 = libc::PROT_READ | libc::PROT_EXEC;
const RW: i32 = libc::PROT_READ | libc::PROT_WRITE;
const RWX: i32 = libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC;

/// Protection of the executable view (normal state).
fn prot_rx(view_rw: bool) -> i32 {
    let c = cfg();
    if !c.single {
        RX
    } else if c.strict || c.incoherent {
        if view_rw {
            RW
        } else {
            RX
        }
    } else {
        RWX
    }
}
fn prot_rw(view_rw: bool) -> i32 {
    let c = cfg();
    if c.strict && !view_rw {
        libc::PROT_READ
    } else {
        RW
    }
}

unsafe fn protect_view(base: usize, i: usize, lo: usize, hi: usize, prot: i32) {
    if hi <= lo {
        return;
    }
    let lo = lo & !(PAGE - 1);
    let hi = (hi + PAGE - 1) & !(PAGE - 1);
    if i != EDGE {
        sys::mprotect(base + lo, hi - lo, prot);
    } else {
        let mut p = lo / PAGE;
        while p * PAGE < hi {
            if p % 2 == 0 {
                sys::mprotect(base + p * PAGE, PAGE, prot);
            }
            p += 1;
        }
    }
}

unsafe fn swap_hidden(i: usize, hi: usize) {
    let r = reg(i);
    let mut o = 0;
    while o < hi {
        if i != EDGE || (o / PAGE) % 2 == 0 {
            let n = PAGE.min(hi - o);
            core::ptr::swap_nonoverlapping((r.rx + o) as *mut u8, (r.hidden + o) as *mut u8, n);
        }
        o += PAGE;
    }
}

fn extent(i: usize) -> usize {
    (reg(i).next + PAGE - 1) & !(PAGE - 1)
}

/// Puts the views of the running thread into write (true) or execute (false) mode.
unsafe fn apply(rw: bool) {
    let c = cfg();
    let was = VIEW_RW;
    VIEW_RW = rw;
    for i in 0..NREGION {
        let e = extent(i);
        if e == 0 {
            continue;
        }
        if c.single {
            if c.incoherent && was != rw {
                protect_view(reg(i).rx, i, 0, e, RW);
                swap_hidden(i, e);
            }
            protect_view(reg(i).rx, i, 0, e, prot_rx(rw));
        } else {
            protect_view(reg(i).rx, i, 0, e, RX);
            protect_view(reg(i).rw, i, 0, e, prot_rw(rw));
        }
    }
}

pub fn on_switch(next: usize) {
    unsafe {
        if ON {
            let c = cfg();
            if (c.strict || (c.single && c.incoherent)) && MODE_RW[next] != VIEW_RW {
                apply(MODE_RW[next]);
            }
        }
    }
}

/// Address of the data image / instruction image byte `off` of region `i` right now.
fn data_at(i: usize, off: usize) -> *mut u8 {
    unsafe {
        let r = reg(i);
        if !cfg().single {
            (r.rw + off) as *mut u8
        } else if cfg().incoherent && !VIEW_RW {
            (r.hidden + off) as *mut u8
        } else {
            (r.rx + off) as *mut u8
        }
    }
}
fn inst_at(i: usize, off: usize) -> *mut u8 {
    unsafe {
        let r = reg(i);
        if !cfg().single {
            (r.rx + off) as *mut u8
        } else if cfg().incoherent && VIEW_RW {
            (r.hidden + off) as *mut u8
        } else {
            (r.rx + off) as *mut u8
        }
    }
}

/// Runs `f` with the images of region `i`, bytes `lo..hi`, writable by the harness.
unsafe fn poke(i: usize, lo: usize, hi: usize, f: impl FnOnce()) {
    let r = reg(i);
    protect_view(r.rx, i, lo, hi, RW);
    if !cfg().single && cfg().strict {
        protect_view(r.rw, i, lo, hi, RW);
    }
    f();
    #[cfg(target_arch = "aarch64")]
    clear_cache(r.rx + lo, r.rx + hi);
    #[cfg(target_arch = "arm")]
    clear_cache(r.rx + lo, r.rx + hi);
    protect_view(r.rx, i, lo, hi, prot_rx(VIEW_RW));
    if !cfg().single && cfg().strict {
        protect_view(r.rw, i, lo, hi, prot_rw(VIEW_RW));
    }
}

#[cfg(any(target_arch = "aarch64", target_arch = "arm"))]
unsafe fn clear_cache(lo: usize, hi: usize) {
    extern "C" {
        fn __clear_cache(lo: *mut u8, hi: *mut u8);
    }
    __clear_cache(lo as *mut u8, hi as *mut u8);
}

pub fn is_code(a: usize) -> bool {
    (0..NREGION).any(|i| a >= reg(i).rx && a < reg(i).rx + RSIZE)
}

/// (view, region, offset): view 0 = executable, 1 = writable.
fn locate(a: usize) -> Option<(u8, usize, usize)> {
    for i in 0..NREGION {
        let r = reg(i);
        if a >= r.rx && a < r.rx + RSIZE {
            return Some((0, i, a - r.rx));
        }
        if !cfg().single && a >= r.rw && a < r.rw + RSIZE {
            return Some((1, i, a - r.rw));
        }
    }
    None
}

pub fn describe(a: usize) -> &'static str {
    match locate(a) {
        Some((0, _, _)) => "executable view",
        Some((_, _, _)) => "writable view",
        None => match crate::heap::state(a) {
            crate::heap::State::Live => "heap",
            crate::heap::State::Freed => "freed heap",
            crate::heap::State::Outside => "elsewhere",
        },
    }
}

pub fn classify_fault(addr: usize, rip: usize) -> Option<(O, &'static str)> {
    if !unsafe { ON } {
        return None;
    }
    for i in 0..NREGION {
        let r = reg(i);
        for (v, base) in [(0u8, r.rx), (1, r.rw)] {
            if addr >= base - PAGE && addr < base + RSIZE + PAGE {
                let off = addr.wrapping_sub(base);
                let guard = off >= RSIZE || (i == EDGE && (off / PAGE) % 2 == 1);
                if guard {
                    return Some((O::Stray, "access beyond the end of a block"));
                }
                if rip == addr {
                    return Some((O::Wx, "execution of memory that is not executable now"));
                }
                if v == 0 && !cfg().single {
                    return Some((O::Wx, "write through the executable view"));
                }
                return Some((O::Wx, "write outside a write window"));
            }
        }
    }
    None
}

fn find_block(inst: Option<u8>, region: usize, off: usize, len: usize) -> Option<usize> {
    (0..nblk()).find(|&b| {
        let k = blk(b);
        k.st == BSt::Live
            && inst.is_none_or(|n| n == k.inst)
            && k.region as usize == region
            && off >= k.off as usize
            && off + len <= (k.off + k.size) as usize
    })
}

pub struct SimAllocPanic;

/// The simulated memory is used up: an ordinary failure, which lasts.
fn out_of_memory(inst: u8) -> Result<(*const u8, *mut u8), JitAllocError> {
    event(ek::ALLOC_FAIL, inst as u32, 2);
    crate::world::REFUSED.store(true, core::sync::atomic::Ordering::Relaxed);
    crate::world::note_alloc_fault(false);
    Err(JitAllocError)
}

fn do_alloc(inst: u8, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
    unsafe {
        REQ[inst as usize][0] += 1;
    }
    let c = *cfg();
    if c.panic_alloc > 0 && chance(S_FAULT, c.panic_alloc, 16) {
        stat(Stat::fault_alloc_panic);
        event(ek::ALLOC_FAIL, inst as u32, 1);
        crate::world::note_alloc_fault(true);
        std::panic::panic_any(SimAllocPanic);
    }
    if c.refuse_all || (c.fail_alloc > 0 && chance(S_FAULT, c.fail_alloc, 16)) {
        stat(Stat::fault_alloc_error);
        event(ek::ALLOC_FAIL, inst as u32, 0);
        crate::world::note_alloc_fault(false);
        return Err(JitAllocError);
    }
    if nblk() >= NBLOCK {
        return out_of_memory(inst);
    }
    if size == 0 || size > 16 * PAGE {
        violation!(O::Progress, "allocation request of {} bytes", size);
        return Err(JitAllocError);
    }
    unsafe {
        let mut got: Option<(usize, usize, usize)> = None; // region, off, cap
        if chance(S_CFG, c.recycle, 8) {
            // Any released block that is large enough, most recent first half the time.
            let mut cand = [0u16; 32];
            let mut n = 0;
            for b in (0..nblk()).rev() {
                let k = blk(b);
                if k.st == BSt::Released && k.cap as usize >= size && k.cap as usize <= size * 4 && n < 32 {
                    if k.region as usize == EDGE && k.cap as usize != size {
                        continue;
                    }
                    cand[n] = b as u16;
                    n += 1;
                }
            }
            if n > 0 {
                let k = cand[choose(S_CFG, n as u32) as usize] as usize;
                blk(k).st = BSt::Gone;
                got = Some((blk(k).region as usize, blk(k).off as usize, blk(k).cap as usize));
                stat(Stat::recycled_blocks);
            }
        }
        let fresh = got.is_none();
        if fresh {
            let mut rs = [0usize; NREGION];
            let mut n = 0;
            for i in 0..NREGION {
                if c.regions & (1 << i) != 0 {
                    rs[n] = i;
                    n += 1;
                }
            }
            let i = rs[choose(S_CFG, n as u32) as usize];
            let r = reg(i);
            let (off, next) = if i == EDGE {
                if size > PAGE {
                    return out_of_memory(inst);
                }
                let page = (r.next + 2 * PAGE - 1) / (2 * PAGE) * (2 * PAGE);
                (page + PAGE - size, page + PAGE)
            } else {
                let pad = if c.any_align { choose(S_CFG, 64) as usize } else { 0 };
                let off = if c.any_align { r.next + pad } else { (r.next + 63) & !63 };
                (off, off + size)
            };
            if next + PAGE > RSIZE {
                return out_of_memory(inst);
            }
            let before = extent(i);
            r.next = next;
            let after = extent(i);
            if after > before {
                protect_view(r.rx, i, before, after, prot_rx(VIEW_RW));
                if !c.single {
                    protect_view(r.rw, i, before, after, prot_rw(VIEW_RW));
                }
            }
            got = Some((i, off, size));
        }
        let (i, off, cap) = got.unwrap();
        let b = NBLK;
        NBLK += 1;
        *blk(b) = Block {
            st: BSt::Live,
            inst,
            region: i as u8,
            off: off as u32,
            size: size as u32,
            cap: cap as u32,
            token: crate::world::current_token(),
            sealed: false,
            ..B0
        };
        stat(Stat::blocks);
        // Previous contents, as seen by stores and by instruction fetch.
        let salt = mix2(b as u64, sh().seed ^ 0x5a5a);
        let dirty = if c.dirty == 3 && fresh { 2 } else { c.dirty };
        poke(i, off, off + size, || {
            for o in 0..size {
                let rnd = (mix2(salt, o as u64) >> 13) as u8;
                let (d, x) = match dirty {
                    0 => (filler(o), filler(o)),
                    1 => (0, 0),
                    2 => (rnd, filler(o)),
                    _ => (*data_at(i, off + o), *inst_at(i, off + o)),
                };
                *data_at(i, off + o) = d;
                if !(c.single && !c.incoherent) {
                    *inst_at(i, off + o) = x;
                }
            }
        });
        let r = reg(i);
        core::ptr::copy_nonoverlapping(data_at(i, off), (r.init + off) as *mut u8, size);
        core::ptr::copy_nonoverlapping(data_at(i, off), (r.want + off) as *mut u8, size);
        event(ek::ALLOC, b as u32, size as u64);
        let rx = (r.rx + off) as *const u8;
        let rw = if c.single { (r.rx + off) as *mut u8 } else { (r.rw + off) as *mut u8 };
        Ok((rx, rw))
    }
}

/// Code that traps when executed.
fn filler(o: usize) -> u8 {
    if cfg!(any(target_arch = "x86", target_arch = "x86_64")) {
        0xCC
    } else {
        // An undefined instruction: udf on AArch64 and Thumb.
        let _ = o;
        if cfg!(target_arch = "aarch64") {
            0
        } else {
            0xDE
        }
    }
}

fn do_release(inst: u8, handle: u32, rx: *const u8) -> Result<(), JitAllocError> {
    unsafe {
        REQ[inst as usize][1] += 1;
    }
    let a = rx as usize;
    let Some((view, i, off)) = locate(a) else {
        violation!(O::Ledger, "release of an address that was never handed out");
        return Err(JitAllocError);
    };
    let mut hit = None;
    for b in 0..nblk() {
        let k = blk(b);
        if k.region as usize == i && k.st == BSt::Live && off >= k.off as usize && off < (k.off + k.size) as usize {
            hit = Some(b);
        }
    }
    let Some(b) = hit else {
        violation!(O::Ledger, "release of memory that is not allocated (released twice?)");
        return Err(JitAllocError);
    };
    let k = blk(b);
    if view == 1 {
        violation!(O::Ledger, "release by the writable address");
    }
    if off != k.off as usize {
        violation!(
            O::Ledger,
            "release by address +{} inside the block instead of the address handed out",
            off - k.off as usize
        );
    }
    if k.inst != inst {
        violation!(O::Ledger, "memory of allocator {} released to allocator {}", k.inst, inst);
    }
    if handle != 0 && k.token != 0 && handle != k.token {
        violation!(O::Ledger, "memory returned through another wrapper's allocator handle");
    }
    if let Some(why) = crate::world::release_too_early(k.token) {
        violation!(O::Ledger, "executable memory released while {}", why);
    }
    k.st = BSt::Released;
    event(ek::RELEASE, b as u32, 0);
    unsafe {
        let (off, size) = (k.off as usize, k.size as usize);
        if cfg().dirty != 3 {
            poke(i, off, off + size, || {
                for o in 0..size {
                    *inst_at(i, off + o) = filler(o);
                    *data_at(i, off + o) = filler(o);
                }
            });
        }
        core::ptr::copy_nonoverlapping(data_at(i, off), (reg(i).want + off) as *mut u8, size);
    }
    if cfg().fail_release > 0 && chance(S_FAULT, cfg().fail_release, 16) {
        stat(Stat::fault_release_error);
        event(ek::RELEASE_FAIL, b as u32, 0);
        return Err(JitAllocError);
    }
    Ok(())
}

fn do_protect(inst: u8, ptr: *const u8, size: usize, access: ProtectJitAccess) {
    unsafe {
        REQ[inst as usize][2] += 1;
    }
    stat(Stat::protects);
    let rw = access == ProtectJitAccess::ReadWrite;
    let me = sched::tid();
    match locate(ptr as usize) {
        None => violation!(O::Wx, "access declared for memory outside any block"),
        Some((_, i, off)) => match find_block(None, i, off, size) {
            None => violation!(O::Wx, "access declared for {} bytes that are not one block's", size),
            Some(b) => {
                let k = blk(b);
                if k.inst != inst {
                    violation!(O::Wx, "access declared on another allocator's block");
                }
                event(ek::PROTECT, b as u32, rw as u64);
                let d = Decl { lo: off as u32, hi: (off + size) as u32, rw };
                if (k.ndecl as usize) < k.decl.len() {
                    k.decl[k.ndecl as usize] = d;
                    k.ndecl += 1;
                } else {
                    k.decl[k.decl.len() - 1] = d;
                }
                if rw && k.sealed {
                    violation!(O::Wx, "write window opened on a finished thunk");
                }
            }
        },
    }
    unsafe {
        MODE_RW[me] = rw;
        if (cfg().strict || (cfg().single && cfg().incoherent)) && VIEW_RW != rw {
            apply(rw);
        }
    }
}

fn do_flush(inst: u8, ptr: *const u8, size: usize) {
    unsafe {
        REQ[inst as usize][3] += 1;
    }
    stat(Stat::flushes);
    let Some((view, i, off)) = locate(ptr as usize) else {
        violation!(O::ICache, "flush of memory outside any block");
        return;
    };
    if view == 1 {
        violation!(O::ICache, "flush by the writable address");
        return;
    }
    let Some(b) = find_block(None, i, off, size) else {
        violation!(O::ICache, "flush of {} bytes that are not inside one block", size);
        return;
    };
    if blk(b).inst != inst {
        violation!(O::ICache, "flush on another allocator's block");
    }
    event(ek::FLUSH, b as u32, size as u64);
    if cfg().incoherent {
        unsafe { sync(i, off, off + size) }
    }
}

/// Instruction image := data image.
unsafe fn sync(i: usize, lo: usize, hi: usize) {
    if cfg().single && !cfg().incoherent {
        #[cfg(any(target_arch = "aarch64", target_arch = "arm"))]
        clear_cache(reg(i).rx + lo, reg(i).rx + hi);
        return;
    }
    poke(i, lo, hi, || {
        core::ptr::copy_nonoverlapping(data_at(i, lo), inst_at(i, lo), hi - lo);
    });
}

/// Called when the construction `token` finished successfully: its code must be complete now.
/// Returns the number of blocks it owns.
pub fn seal(token: u32) -> u32 {
    let mut n = 0;
    let me = sched::tid();
    for b in 0..nblk() {
        let k = blk(b);
        if k.st != BSt::Live || k.token != token || k.sealed {
            continue;
        }
        n += 1;
        let (i, off, size) = (k.region as usize, k.off as usize, k.size as usize);
        let mut stale = 0;
        let mut undeclared = 0;
        let mut left_rw = 0;
        unsafe {
            for o in off..off + size {
                let d = *data_at(i, o);
                let changed = d != *((reg(i).init + o) as *const u8);
                if !changed {
                    continue;
                }
                let mut covered = false;
                let mut last = None;
                for x in &k.decl[..k.ndecl as usize] {
                    if o >= x.lo as usize && o < x.hi as usize {
                        covered |= x.rw;
                        last = Some(x.rw);
                    }
                }
                if !covered {
                    undeclared += 1;
                } else if last == Some(true) {
                    left_rw += 1;
                }
                if cfg().incoherent && *inst_at(i, o) != d {
                    stale += 1;
                }
            }
        }
        if undeclared > 0 {
            violation!(O::Wx, "{} bytes of the thunk were written without declared write access", undeclared);
        }
        if left_rw > 0 {
            violation!(O::Wx, "{} bytes of the finished thunk were never declared executable again", left_rw);
        }
        if stale > 0 {
            stat(Stat::stale_bytes_seen);
            violation!(O::ICache, "{} bytes of the finished thunk are stale in the instruction stream", stale);
        }
        unsafe {
            if !cfg().incoherent {
                sync(i, off, off + size);
            }
            core::ptr::copy_nonoverlapping(data_at(i, off), (reg(i).want + off) as *mut u8, size);
        }
        k.sealed = true;
    }
    check_mode(me);
    n
}

/// The thread must not be left in write mode after an operation.
pub fn check_mode(t: usize) {
    if unsafe { MODE_RW[t] } {
        violation!(O::Wx, "the thread is left in write mode after the operation");
    }
}

pub fn live_blocks(token: u32) -> u32 {
    (0..nblk()).filter(|&b| blk(b).st == BSt::Live && blk(b).token == token).count() as u32
}
pub fn total_live() -> u32 {
    (0..nblk()).filter(|&b| blk(b).st == BSt::Live).count() as u32
}

/// Nobody may have written outside blocks under construction.
pub fn audit() {
    if !unsafe { ON } {
        return;
    }
    for i in 0..NREGION {
        let e = reg(i).next;
        let mut o = 0;
        while o < e {
            if i == EDGE && (o / PAGE) % 2 == 1 {
                o += PAGE;
                continue;
            }
            let n = PAGE.min(e - o);
            unsafe {
                let d = core::slice::from_raw_parts(data_at(i, o), n);
                let w = core::slice::from_raw_parts((reg(i).want + o) as *const u8, n);
                if d != w {
                    for j in 0..n {
                        if d[j] != w[j] {
                            stray(i, o + j);
                        }
                    }
                }
            }
            o += PAGE;
        }
    }
}

fn stray(i: usize, off: usize) {
    for b in 0..nblk() {
        let k = blk(b);
        if k.region as usize == i && off >= k.off as usize && off < (k.off + k.size) as usize && k.st == BSt::Live {
            if !k.sealed {
                return;
            }
            violation!(O::Stray, "byte +{} of a finished thunk was overwritten", off - k.off as usize);
            return;
        }
    }
    violation!(O::Stray, "memory outside every live block was overwritten");
}

// ---- the handle given to the library ----

pub struct SimHandle {
    pub inst: u8,
    /// Construction this handle was made for; 0 for handles shared by several.
    token: u32,
    magic: u64,
}
const MAGIC: u64 = 0x51_4a_49_54_48_41_4e_44;

impl SimHandle {
    pub fn new(inst: u8) -> Self {
        unsafe {
            LIVE_HANDLES[inst as usize] += 1;
        }
        SimHandle { inst, token: crate::world::handle_new(), magic: MAGIC ^ inst as u64 }
    }
    fn check(&self) {
        if self.magic != MAGIC ^ self.inst as u64 {
            violation!(O::Handle, "request through an allocator handle that is already dropped or corrupt");
            crate::harness_error!("corrupt allocator handle");
        }
    }
}
impl Drop for SimHandle {
    fn drop(&mut self) {
        user_code(|| {
            if self.magic != MAGIC ^ self.inst as u64 {
                violation!(O::Handle, "allocator handle dropped twice");
                return;
            }
            self.magic = 0xdddd_dddd_dddd_dddd;
            unsafe {
                LIVE_HANDLES[self.inst as usize] -= 1;
            }
            crate::world::handle_drop(self.token);
            event(ek::HANDLE_DROP, self.inst as u32, 0);
        })
    }
}

fn reenter() {
    if cfg().reenter > 0 && chance(S_FAULT, cfg().reenter, 16) {
        crate::world::reenter(crate::world::Where::Allocator);
    }
}

impl JitAlloc for SimHandle {
    fn alloc(&self, size: usize) -> Result<(*const u8, *mut u8), JitAllocError> {
        user_code(|| {
            self.check();
            crate::world::on_request(self.inst, 0);
            yield_point(1);
            reenter();
            unsafe { LAST[self.inst as usize] = Last { ptr: 0, size, rw: false, answer: None } }
            let r = do_alloc(self.inst, size);
            unsafe { LAST[self.inst as usize].answer = r.as_ref().ok().map(|x| (x.0 as usize, x.1 as usize)) }
            yield_point(2);
            r
        })
    }
    unsafe fn release(&self, rx: *const u8) -> Result<(), JitAllocError> {
        user_code(|| {
            self.check();
            crate::world::on_request(self.inst, 1);
            yield_point(3);
            let r = do_release(self.inst, self.token, rx);
            unsafe { LAST[self.inst as usize] = Last { ptr: rx as usize, size: 0, rw: false, answer: r.as_ref().ok().map(|_| (0, 0)) } }
            reenter();
            yield_point(4);
            r
        })
    }
    unsafe fn protect_jit_memory(&self, p: *const u8, n: usize, a: ProtectJitAccess) {
        user_code(|| {
            self.check();
            crate::world::on_request(self.inst, 2);
            yield_point(5);
            unsafe {
                LAST[self.inst as usize] =
                    Last { ptr: p as usize, size: n, rw: a == ProtectJitAccess::ReadWrite, answer: None };
            }
            do_protect(self.inst, p, n, a);
            yield_point(6);
        })
    }
    unsafe fn flush_instruction_cache(&self, p: *const u8, n: usize) {
        user_code(|| {
            self.check();
            crate::world::on_request(self.inst, 3);
            yield_point(7);
            unsafe { LAST[self.inst as usize] = Last { ptr: p as usize, size: n, rw: false, answer: None } }
            do_flush(self.inst, p, n);
            yield_point(8);
        })
    }
}
