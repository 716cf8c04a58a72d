//! Run-time core shared by the parent (driver) and the forked child (one simulated run):
//! the shared-memory result block, the choice streams, the event log and violation reporting.

use core::sync::atomic::{AtomicPtr, Ordering};

pub const NSTREAM: usize = 10;
pub const S_CFG: usize = 0;
pub const S_SCHED: usize = 1;
pub const S_FAULT: usize = 2;
/// First per-thread operation stream; thread `t` uses `S_OPS + t`.
pub const S_OPS: usize = 3;
pub const STREAM_CAP: usize = 8192;
pub const EV_CAP: usize = 2048;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;
pub const ST_KNOWN: u32 = 4;

macro_rules! stats {
    ($($name:ident),* $(,)?) => {
        #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
        #[derive(Clone, Copy, PartialEq, Eq)]
        #[repr(usize)]
        pub enum Stat { $($name),*, COUNT }
        pub const STAT_NAMES: &[&str] = &[$(stringify!($name)),*];
    };
}
stats!(
    ops,
    creates,
    create_ok,
    calls,
    nested_calls,
    drops,
    leaks,
    converts,
    yields,
    switches,
    switches_in_library,
    steps,
    step_preemptions,
    spin_breaks,
    interruptions,
    interruptions_in_library,
    interrupting_calls,
    refused_creates,
    futex_waits,
    fault_alloc_error,
    fault_alloc_panic,
    fault_release_error,
    fault_body_panic,
    fault_drop_panic,
    fault_mmap,
    fault_munmap,
    fault_memfd,
    fault_ftruncate,
    fault_thread_exit,
    nested_ops,
    recycled_blocks,
    blocks,
    flushes,
    protects,
    unwound_calls,
    once_calls,
    concurrent_same_fn,
    zst_creates,
    zst_calls,
    tls_teardowns,
    leaked_calls_after_exit,
    failed_creates,
    recovered_creates,
    forwarded_requests,
    known_overlap,
    reuse_audits,
    allocator_reentries,
    body_reentries,
    drop_reentries,
    stale_bytes_seen,
    os_blocks_mapped,
    os_blocks_unmapped,
    variadic_calls,
    hrtb_calls,
    factory_calls,
    raw_requests,
    multi_live_max,
);
pub const NSTAT: usize = Stat::COUNT as usize;

#[derive(Clone, Copy)]
#[repr(C)]
pub struct Ev {
    pub kind: u16,
    pub tid: u16,
    pub a: u32,
    pub b: u64,
}

#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub oracle: u32,
    pub msg_len: u32,
    pub msg: [u8; 1024],
    pub seed: u64,
    pub prop: u32,
    pub replay: u32,
    pub lens: [u32; NSTREAM],
    pub pos: [u32; NSTREAM],
    pub streams: [[u32; STREAM_CAP]; NSTREAM],
    pub overflow: u32,
    pub ev_count: u64,
    pub ev_hash: u64,
    pub ev: [Ev; EV_CAP],
    pub stats: [u64; NSTAT],
    pub sched_hash: u64,
    pub hist_hash: u64,
    pub shape_seen: [u8; 4096],
    pub triggers: u64,
    pub phase: u32,
    pub phase_arg: u64,
}

pub static SHARED: AtomicPtr<Shared> = AtomicPtr::new(core::ptr::null_mut());

#[inline(always)]
pub fn sh() -> &'static mut Shared {
    unsafe { &mut *SHARED.load(Ordering::Relaxed) }
}

pub fn map_shared() -> *mut Shared {
    unsafe {
        let p = crate::sys::mmap(
            0,
            core::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
        );
        let p = p as *mut Shared;
        SHARED.store(p, Ordering::Relaxed);
        p
    }
}

#[inline(always)]
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
#[inline(always)]
pub fn mix2(a: u64, b: u64) -> u64 {
    mix(a ^ mix(b).rotate_left(17))
}

pub static mut RNG: [u64; NSTREAM] = [0; NSTREAM];

/// Resets the result block for a new run. `given` holds the choice streams to replay, if any.
pub fn begin_run(prop: u32, seed: u64, given: Option<&Vec<Vec<u32>>>) {
    let s = sh();
    s.status = ST_RUNNING;
    s.oracle = 0;
    s.msg_len = 0;
    s.seed = seed;
    s.prop = prop;
    s.pos = [0; NSTREAM];
    s.overflow = 0;
    s.ev_count = 0;
    s.ev_hash = 0;
    s.stats = [0; NSTAT];
    s.sched_hash = 0;
    s.hist_hash = 0;
    s.triggers = 0;
    s.phase = 0;
    s.phase_arg = 0;
    s.shape_seen = [0; 4096];
    match given {
        Some(v) => {
            s.replay = 1;
            for i in 0..NSTREAM {
                let src = &v[i];
                s.lens[i] = src.len().min(STREAM_CAP) as u32;
                s.streams[i][..s.lens[i] as usize].copy_from_slice(&src[..s.lens[i] as usize]);
            }
        }
        None => {
            s.replay = 0;
            s.lens = [0; NSTREAM];
        }
    }
    unsafe {
        for i in 0..NSTREAM {
            RNG[i] = mix2(seed.wrapping_mul(0x2545F4914F6CDD1D), i as u64 + 1000 * prop as u64);
        }
    }
}

/// One decision of the run: a value in `0..n`. Zero is always the simplest option.
pub fn choose(stream: usize, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    let s = sh();
    let p = s.pos[stream] as usize;
    if s.replay != 0 {
        if p >= s.lens[stream] as usize {
            return 0;
        }
        s.pos[stream] += 1;
        return s.streams[stream][p] % n;
    }
    let v = unsafe {
        let r = &mut *(&raw mut RNG[stream]);
        *r = r.wrapping_add(0x9E3779B97F4A7C15);
        let z = mix(*r);
        ((z >> 32).wrapping_mul(n as u64) >> 32) as u32
    };
    if p >= STREAM_CAP {
        s.overflow = 1;
        return 0;
    }
    s.streams[stream][p] = v;
    s.pos[stream] += 1;
    s.lens[stream] = s.pos[stream];
    v
}

/// True with probability `num/den`; the zero choice is always "false".
pub fn chance(stream: usize, num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    choose(stream, den) >= den - num.min(den)
}

/// True once a stream cannot record further decisions; runs wind down when this happens.
pub fn exhausted() -> bool {
    sh().overflow != 0
}

#[inline]
pub fn stat(s: Stat) {
    sh().stats[s as usize] += 1;
}
#[inline]
pub fn stat_add(s: Stat, n: u64) {
    sh().stats[s as usize] += n;
}
#[inline]
pub fn stat_max(s: Stat, n: u64) {
    let v = &mut sh().stats[s as usize];
    if *v < n {
        *v = n;
    }
}
pub fn getstat(s: Stat) -> u64 {
    sh().stats[s as usize]
}

pub mod ek {
    pub const NAMES: &[&str] = &[
        "?", "op", "create", "created", "create-failed", "call", "body", "return", "unwound",
        "convert", "leak", "drop", "dropped", "capture-drop", "alloc", "alloc-fail", "protect",
        "flush", "release", "release-fail", "handle-drop", "switch", "preempt", "block", "wake",
        "thread-start", "thread-end", "sys", "sys-fail", "mode", "nested", "note", "interrupt",
    ];
    pub const OP: u16 = 1;
    pub const CREATE: u16 = 2;
    pub const CREATED: u16 = 3;
    pub const CREATE_FAIL: u16 = 4;
    pub const CALL: u16 = 5;
    pub const BODY: u16 = 6;
    pub const RETURN: u16 = 7;
    pub const UNWOUND: u16 = 8;
    pub const CONVERT: u16 = 9;
    pub const LEAK: u16 = 10;
    pub const DROP: u16 = 11;
    pub const DROPPED: u16 = 12;
    pub const CAPDROP: u16 = 13;
    pub const ALLOC: u16 = 14;
    pub const ALLOC_FAIL: u16 = 15;
    pub const PROTECT: u16 = 16;
    pub const FLUSH: u16 = 17;
    pub const RELEASE: u16 = 18;
    pub const RELEASE_FAIL: u16 = 19;
    pub const HANDLE_DROP: u16 = 20;
    pub const SWITCH: u16 = 21;
    pub const PREEMPT: u16 = 22;
    pub const BLOCK: u16 = 23;
    pub const WAKE: u16 = 24;
    pub const TSTART: u16 = 25;
    pub const TEND: u16 = 26;
    pub const SYS: u16 = 27;
    pub const SYS_FAIL: u16 = 28;
    pub const MODE: u16 = 29;
    pub const NESTED: u16 = 30;
    pub const NOTE: u16 = 31;
    pub const INTERRUPT: u16 = 32;
}

/// Steps since something other than a thread switch happened.
pub static mut QUIET: u64 = 0;

/// Appends to the event log. `a`/`b` must not depend on addresses.
pub fn event(kind: u16, a: u32, b: u64) {
    let s = sh();
    let tid = crate::sched::tid();
    let e = Ev { kind, tid: tid as u16, a, b };
    s.ev[(s.ev_count as usize) % EV_CAP] = e;
    s.ev_count += 1;
    let w = mix2(
        ((kind as u64) << 48) ^ ((tid as u64) << 32) ^ a as u64,
        b,
    );
    s.ev_hash = mix2(s.ev_hash, w);
    if kind != ek::SWITCH && kind != ek::PREEMPT {
        s.hist_hash = mix2(s.hist_hash, w);
        unsafe { QUIET = 0 }
    }
}

/// Oracles. Each belongs to one or more properties; a run only reports those of its property.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum O {
    Fidelity = 1,
    DropOnce = 2,
    Storage = 3,
    Ledger = 4,
    Handle = 5,
    Wx = 6,
    ICache = 7,
    Stray = 8,
    AllocSafe = 9,
    Progress = 10,
    Payload = 11,
    NoAlloc = 12,
    Forward = 13,
    PtrSame = 14,
    Os = 15,
    Crash = 16,
    Atomic = 17,
    Reuse = 18,
    NoWait = 19,
}
pub const ORACLE_NAMES: &[&str] = &[
    "none", "fidelity", "drop-once", "storage", "ledger", "handle", "write-window", "icache",
    "stray-write", "allocator-safety", "progress", "payload", "no-alloc", "forward",
    "same-pointer", "os-containment", "crash", "atomic-failure", "memory-reuse", "no-wait",
];

pub struct Buf {
    pub b: [u8; 1024],
    pub n: usize,
}
impl core::fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &c in s.as_bytes() {
            if self.n < self.b.len() {
                self.b[self.n] = c;
                self.n += 1;
            }
        }
        Ok(())
    }
}

pub fn enabled(o: O) -> bool {
    crate::props::oracle_enabled(sh().prop, o)
}

/// Reports a violation of oracle `o` and ends the run, unless `o` is not part of this property.
pub fn violate(o: O, args: core::fmt::Arguments) {
    if !enabled(o) {
        return;
    }
    finish(ST_VIOLATION, o as u32, args)
}

pub fn finish(status: u32, oracle: u32, args: core::fmt::Arguments) -> ! {
    use core::fmt::Write;
    let mut b = Buf { b: [0; 1024], n: 0 };
    let _ = b.write_fmt(args);
    let s = sh();
    s.msg[..b.n].copy_from_slice(&b.b[..b.n]);
    s.msg_len = b.n as u32;
    s.oracle = oracle;
    s.status = status;
    crate::sys::exit_group(if status == ST_OK { 0 } else { 3 })
}

#[macro_export]
macro_rules! violation {
    ($o:expr, $($t:tt)*) => { $crate::rt::violate($o, format_args!($($t)*)) };
}
#[macro_export]
macro_rules! harness_error {
    ($($t:tt)*) => { $crate::rt::finish($crate::rt::ST_HARNESS, 0, format_args!($($t)*)) };
}

/// What the run was doing, for crash reports.
pub fn phase(p: u32, arg: u64) -> (u32, u64) {
    let s = sh();
    let old = (s.phase, s.phase_arg);
    s.phase = p;
    s.phase_arg = arg;
    old
}
/// What the run was last seen doing.
pub fn phase_name() -> &'static str {
    PH_NAMES.get(sh().phase as usize).copied().unwrap_or("?")
}
pub const PH_NAMES: &[&str] = &[
    "idle", "create", "call", "convert", "leak", "drop", "audit", "thread-exit", "body",
    "capture-drop",
];
