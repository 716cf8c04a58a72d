//! The scheduler: real threads, exactly one of which runs at any time. Who runs next is decided by
//! the run's schedule stream, at yield points (allocator requests, closure entry and exit, captured
//! value destruction, operation boundaries), at lock waits and, on x86-64, after any chosen number
//! of machine instructions inside a stepping window.

use core::cell::Cell;
use core::sync::atomic::{AtomicU32, Ordering};

use crate::rt::{self, chance, choose, ek, event, sh, stat, Stat, O, S_SCHED};

pub const MAXT: usize = 7;
/// The orchestrator: prepares and audits a run, joins exiting threads. Never runs concurrently.
pub const ORCH: usize = 6;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Unused,
    Runnable,
    Blocked,
    Exiting,
    Done,
}

struct Th {
    st: St,
    go: AtomicU32,
    blocked_on: usize,
    timed: bool,
    timed_out: bool,
    depth: u32,
    stepping: bool,
    quantum: u64,
    slice: u64,
    inlib: u32,
    /// Depth of user code called back by the library.
    ucode: u32,
    ktid: i32,
    pauses: u32,
    /// An instruction executed lately, and how often since.
    anchor: (usize, u32),
    /// Preemptions since the window was entered.
    turns: u32,
    wkind: usize,
    /// Waits for the others to get on.
    idle: bool,
    prio: u32,
}

const TH0: Th = Th {
    st: St::Unused,
    go: AtomicU32::new(0),
    blocked_on: 0,
    timed: false,
    timed_out: false,
    depth: 0,
    stepping: false,
    quantum: 0,
    slice: 0,
    inlib: 0,
    ucode: 0,
    ktid: 0,
    pauses: 0,
    anchor: (0, 0),
    turns: 0,
    wkind: 0,
    idle: false,
    prio: 0,
};
static mut TH: [Th; MAXT] = [TH0; MAXT];
static READY: AtomicU32 = AtomicU32::new(0);
static mut CUR: usize = ORCH;
static mut ACTIVE: bool = false;
static mut ALONE: bool = false;
static mut POLICY: u32 = 0;
static mut PCT_LEFT: u32 = 0;
static mut STEP_BOUND: [u32; 3] = [0; 3];
static mut STEP_NUM: [u32; 3] = [0; 3];

thread_local! {
    static TID: Cell<usize> = const { Cell::new(ORCH) };
}

#[inline(always)]
pub fn tid() -> usize {
    TID.with(|t| t.get())
}

#[inline(always)]
fn th(t: usize) -> &'static mut Th {
    unsafe { &mut *(&raw mut TH[t]) }
}

pub fn is_sim_thread() -> bool {
    unsafe { ACTIVE && tid() != ORCH }
}

/// Per-run scheduling parameters (swarm): policy and how often stepping windows preempt.
#[derive(Clone, Copy)]
pub struct Policy {
    pub kind: u32,
    /// Per window kind: how often (in eighths) a preemption is planned, and how far in at most.
    pub num: [u32; 3],
    pub bound: [u32; 3],
}
/// Window kinds: constructors, conversions and drops; allocator requests; calls of bare functions.
pub const W_OP: usize = 0;
pub const W_ALLOC: usize = 1;
pub const W_CALL: usize = 2;

// ---- quiet regions: harness code that must not be preempted or stepped ----

pub struct Quiet;
impl Quiet {
    #[inline(always)]
    pub fn new() -> Quiet {
        th(tid()).depth += 1;
        core::sync::atomic::compiler_fence(Ordering::SeqCst);
        Quiet
    }
}
impl Drop for Quiet {
    #[inline(always)]
    fn drop(&mut self) {
        core::sync::atomic::compiler_fence(Ordering::SeqCst);
        let t = th(tid());
        t.depth -= 1;
        if t.depth == 0 && t.stepping {
            tf_on();
        }
    }
}

#[inline(always)]
fn tf_on() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        core::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[inline(always)]
fn tf_off() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        core::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

/// Runs simulation code that stands for user code called back by the library (closure bodies,
/// destructors, allocators): stepping is suspended, and library calls it makes start afresh.
#[inline(never)]
pub fn user_code<R>(f: impl FnOnce() -> R) -> R {
    struct Restore(bool, u32, u64, u64, u32, u32);
    impl Drop for Restore {
        fn drop(&mut self) {
            let t = th(tid());
            t.quantum = self.2;
            t.slice = self.3;
            t.inlib = self.4;
            t.ucode = self.5;
            t.depth = self.1;
            t.stepping = self.0;
            if t.depth == 0 && t.stepping {
                tf_on();
            }
        }
    }
    let t = th(tid());
    let stepping = t.stepping;
    t.stepping = false;
    core::sync::atomic::compiler_fence(Ordering::SeqCst);
    let r = Restore(stepping, t.depth, t.quantum, t.slice, t.inlib, t.ucode);
    t.depth = 0;
    t.ucode += 1;
    let v = f();
    drop(r);
    v
}

fn runnable_other(me: usize) -> u32 {
    (0..ORCH).filter(|&i| i != me && th(i).st == St::Runnable).count() as u32
}

/// Threads worth scheduling: those merely waiting for others come last.
fn ready(me: usize) -> ([usize; MAXT], usize) {
    let mut v = [ORCH; MAXT];
    let mut n = 0;
    for idle in [false, true] {
        for i in 0..ORCH {
            if i != me && th(i).st == St::Runnable && th(i).idle == idle {
                v[n] = i;
                n += 1;
            }
        }
        if n > 0 {
            break;
        }
    }
    (v, n)
}

fn best_prio(me: usize) -> usize {
    let (v, n) = ready(me);
    let mut b = ORCH;
    for &i in &v[..n] {
        if b == ORCH || th(i).prio > th(b).prio {
            b = i;
        }
    }
    b
}

/// The next thread after `me`, round robin.
#[cfg(target_arch = "x86_64")]
/// Fair choice among the others: each call continues after the thread chosen last.
fn following(me: usize) -> usize {
    unsafe {
        let c = |idle: bool| {
            (1..=ORCH).map(|d| (TURN + d) % ORCH).find(|&i| i != me && th(i).st == St::Runnable && th(i).idle == idle)
        };
        let n = c(false).or(c(true)).unwrap_or(ORCH);
        if n != ORCH {
            TURN = n;
        }
        n
    }
}
static mut TURN: usize = 0;

fn pick(me: usize) -> usize {
    unsafe {
        if POLICY == 4 {
            return best_prio(me);
        }
    }
    let (v, n) = ready(me);
    if n == 0 {
        return ORCH;
    }
    v[choose(S_SCHED, n as u32) as usize]
}

fn wait_go(me: usize) {
    let t = th(me);
    while t.go.swap(0, Ordering::Acquire) == 0 {
        unsafe { crate::sys::futex_wait(t.go.as_ptr(), 0) }
    }
}

fn hand_to(next: usize) {
    unsafe {
        CUR = next;
    }
    crate::simjit::on_switch(next);
    let t = th(next);
    t.go.store(1, Ordering::Release);
    unsafe { crate::sys::futex_wake(t.go.as_ptr(), 1) }
}

fn switch_to(me: usize, next: usize) {
    stat(Stat::switches);
    if th(me).inlib > 0 {
        stat(Stat::switches_in_library);
    }
    event(ek::SWITCH, next as u32, 0);
    let s = sh();
    s.sched_hash = rt::mix2(s.sched_hash, next as u64 + 1);
    let ph = (s.phase, s.phase_arg);
    hand_to(next);
    wait_go(me);
    s.phase = ph.0;
    s.phase_arg = ph.1;
}

/// A point at which the scheduler may run another thread.
pub fn yield_point(kind: u32) {
    let me = tid();
    if me == ORCH || !unsafe { ACTIVE } || th(me).st != St::Runnable {
        return;
    }
    if unsafe { ALONE } {
        return;
    }
    let _q = Quiet::new();
    stat(Stat::yields);
    let s = sh();
    s.sched_hash = rt::mix2(s.sched_hash, 0x100 + kind as u64 * 8 + me as u64);
    unsafe {
        WAITED[me] = 0;
        if INTERRUPT > 0 && th(me).inlib > 0 && chance(S_SCHED, INTERRUPT, 64) {
            interrupt(0);
        }
    }
    let others = runnable_other(me);
    if others == 0 {
        return;
    }
    let go = unsafe {
        match POLICY {
            0 => false,
            1 => chance(S_SCHED, 1, 8),
            2 => chance(S_SCHED, 1, 2),
            3 => chance(S_SCHED, 7, 8),
            _ => {
                if PCT_LEFT > 0 && chance(S_SCHED, 1, 12) {
                    PCT_LEFT -= 1;
                    th(me).prio = PCT_LEFT;
                }
                let b = best_prio(me);
                b != ORCH && th(b).prio > th(me).prio
            }
        }
    };
    if go {
        let n = pick(me);
        switch_to(me, n);
    }
}

/// Lets some other thread run; false if there is none.
pub fn force_yield() -> bool {
    let me = tid();
    if me == ORCH {
        return false;
    }
    let _q = Quiet::new();
    let n = pick(me);
    if n == ORCH {
        return false;
    }
    th(me).idle = true;
    switch_to(me, n);
    th(me).idle = false;
    true
}

/// A thread that says it is waiting (`sched_yield`, sleeping) lets the others go on, in turn.
#[cfg(target_arch = "x86_64")]
pub fn give_way() {
    let me = tid();
    let _q = Quiet::new();
    unsafe {
        WAITED[me] += 1;
        if INTERRUPTING[me] && WAITED[me] > 100 {
            crate::violation!(O::NoWait, "a call that interrupts another operation waits for it");
        }
        if WAITED[me] > 100_000 {
            crate::violation!(O::Progress, "a thread waits forever during {}", rt::phase_name());
        }
        if ALONE {
            return;
        }
    }
    let n = following(me);
    if n != ORCH {
        stat(Stat::spin_breaks);
        switch_to(me, n);
    }
}
static mut WAITED: [u32; MAXT] = [0; MAXT];

// ---- interruption: a call made from a signal handler ----

/// How often (in sixteenths) a preemption is an interruption instead.
pub static mut INTERRUPT: u32 = 0;
static mut INTERRUPTING: [bool; MAXT] = [false; MAXT];

/// Calls a bare function on top of whatever the running thread is doing, while every other thread
/// stands still wherever it is.
fn interrupt(slice: u64) {
    let me = tid();
    stat(Stat::interruptions);
    if th(me).inlib > 0 && th(me).ucode == 0 {
        stat(Stat::interruptions_in_library);
    }
    event(ek::INTERRUPT, me as u32, slice);
    let s = sh();
    s.sched_hash = rt::mix2(s.sched_hash, 0x9000 + slice);
    let ph = (s.phase, s.phase_arg);
    unsafe {
        INTERRUPTING[me] = true;
        WAITED[me] = 0;
    }
    let alone = Alone::new();
    user_code(crate::world::interrupting_call);
    drop(alone);
    unsafe {
        INTERRUPTING[me] = false;
    }
    s.phase = ph.0;
    s.phase_arg = ph.1;
}

/// Whether the running thread executes the entry or exit code of a bare function.
pub fn in_call() -> bool {
    inlib() && th(tid()).wkind == W_CALL
}

/// While this lives no other thread is scheduled.
pub struct Alone(bool);
impl Alone {
    pub fn new() -> Alone {
        unsafe {
            let old = ALONE;
            ALONE = true;
            Alone(old)
        }
    }
}
impl Drop for Alone {
    fn drop(&mut self) {
        unsafe { ALONE = self.0 }
    }
}

// ---- blocking (futex emulation) ----

fn after_block(me: usize) {
    // Called with st == Blocked or Exiting: hand the baton to someone else.
    let n = pick(me);
    if n != ORCH {
        return switch_to(me, n);
    }
    // Nobody runnable: release a timed waiter, else it is a deadlock.
    for i in 0..ORCH {
        if th(i).st == St::Blocked && th(i).timed {
            th(i).st = St::Runnable;
            th(i).timed_out = true;
            if i == me {
                return;
            }
            return switch_to(me, i);
        }
    }
    let mut blocked = 0u32;
    for i in 0..ORCH {
        if th(i).st == St::Blocked {
            blocked |= 1 << i;
        }
    }
    crate::violation!(
        O::Progress,
        "deadlock: every thread still alive waits for a lock (threads mask {:#x})",
        blocked
    );
    crate::harness_error!("deadlock under an oracle that is not enabled");
}

/// Emulates FUTEX_WAIT. Returns 0, -EAGAIN or -ETIMEDOUT.
pub fn block_on(addr: *const u32, expected: u32, timed: bool) -> i64 {
    let me = tid();
    let _q = Quiet::new();
    if unsafe { core::ptr::read_volatile(addr) } != expected {
        return -(libc::EAGAIN as i64);
    }
    if unsafe { INTERRUPTING[me] } {
        crate::violation!(O::NoWait, "a call that interrupts another operation waits for a lock");
        crate::harness_error!("deadlock under an oracle that is not enabled");
    }
    stat(Stat::futex_waits);
    event(ek::BLOCK, 0, 0);
    let t = th(me);
    if t.st == St::Exiting {
        crate::harness_error!("exiting thread would block");
    }
    t.st = St::Blocked;
    t.blocked_on = addr as usize;
    t.timed = timed;
    t.timed_out = false;
    after_block(me);
    if th(me).timed_out {
        return -(libc::ETIMEDOUT as i64);
    }
    0
}

/// Emulates FUTEX_WAKE.
pub fn wake(addr: *const u32, n: u32) -> i64 {
    let _q = Quiet::new();
    let mut left = n;
    let mut woken = 0;
    while left > 0 {
        let mut cand = 0;
        for i in 0..ORCH {
            if th(i).st == St::Blocked && th(i).blocked_on == addr as usize {
                cand += 1;
            }
        }
        if cand == 0 {
            break;
        }
        let mut k = choose(S_SCHED, cand);
        for i in 0..ORCH {
            if th(i).st == St::Blocked && th(i).blocked_on == addr as usize {
                if k == 0 {
                    th(i).st = St::Runnable;
                    th(i).blocked_on = 0;
                    event(ek::WAKE, i as u32, 0);
                    break;
                }
                k -= 1;
            }
        }
        woken += 1;
        left -= 1;
    }
    woken
}

// ---- stepping windows ----

const INF: u64 = u64::MAX;
/// Forced preemption so that spinning threads always let the lock holder run.
#[cfg(target_arch = "x86_64")]
const SLICE_MAX: u64 = if cfg!(feature = "lane-spin") { 2_500 } else { 8_000 };
/// Waiting iterations after which a thread is taken to be busy-waiting. The lock of the standard
/// library gives up spinning, and blocks, after 100.
#[cfg(target_arch = "x86_64")]
const PAUSES: u32 = if cfg!(feature = "lane-spin") { 3 } else { 150 };
/// Steps after which nothing is going to happen any more.
#[cfg(target_arch = "x86_64")]
const STUCK: u64 = 4_000_000;
/// Whether code of this window kind may now busy-wait for another thread.
fn spins(kind: usize) -> bool {
    let me = tid();
    kind == W_ALLOC
        && (0..ORCH).any(|i| i != me && th(i).wkind == W_ALLOC && th(i).inlib > 0)
}

fn draw_quantum(w: usize) -> u64 {
    unsafe {
        if STEP_NUM[w] == 0 || !chance(S_SCHED, STEP_NUM[w], 8) {
            return INF;
        }
        1 + choose(S_SCHED, STEP_BOUND[w]) as u64
    }
}

struct Window {
    outer_stepping: bool,
    outer_ucode: u32,
    outer_kind: usize,
}
impl Drop for Window {
    fn drop(&mut self) {
        let t = th(tid());
        t.depth += 1;
        tf_off();
        t.inlib -= 1;
        t.ucode = self.outer_ucode;
        t.wkind = self.outer_kind;
        t.stepping = self.outer_stepping;
        t.depth -= 1;
        if t.depth == 0 && t.stepping {
            tf_on();
        }
    }
}

/// Runs `f`, a call into the library, with instruction-level preemption.
#[inline(never)]
pub fn step_window<R>(kind: usize, f: impl FnOnce() -> R) -> R {
    let me = tid();
    let t = th(me);
    t.depth += 1;
    let w = Window { outer_stepping: t.stepping, outer_ucode: t.ucode, outer_kind: t.wkind };
    t.wkind = kind;
    t.inlib += 1;
    t.ucode = 0;
    let step = cfg!(target_arch = "x86_64")
        && me != ORCH
        && unsafe { ACTIVE && !ALONE }
        && t.st == St::Runnable
        && (runnable_other(me) > 0 || unsafe { INTERRUPT > 0 });
    if step {
        t.quantum = draw_quantum(kind);
        t.slice = 0;
        t.pauses = 0;
        t.turns = 0;
        t.stepping = t.quantum != INF || spins(kind);
    } else {
        // A spinning thread must still be stepped when the lock holder sleeps in a window.
        t.stepping = false;
    }
    t.depth -= 1;
    if t.stepping {
        tf_on();
    }
    let r = f();
    drop(w);
    r
}

/// Whether the running thread executes library code (and not user code the library called back).
pub fn inlib() -> bool {
    let t = th(tid());
    t.inlib > 0 && t.ucode == 0
}

/// Whether the library proper runs, and not an allocator it uses.
pub fn in_construction() -> bool {
    inlib() && th(tid()).wkind == W_OP
}

/// Marks a library call without instruction stepping.
pub fn in_library(d: i32) {
    let t = th(tid());
    t.inlib = (t.inlib as i32 + d) as u32;
}

#[cfg(target_arch = "x86_64")]
mod trap {
    use super::*;

    extern "C" {
        static __executable_start: u8;
        static etext: u8;
    }

    fn preemptible(rip: usize) -> bool {
        let lo = &raw const __executable_start as usize;
        let hi = &raw const etext as usize;
        (rip >= lo && rip < hi)
            || crate::simjit::is_code(rip)
            || crate::interpose::is_exec_mapping(rip)
    }

    static mut LAST: (u64, usize) = (0, 0);
    static mut SAME: u32 = 0;
    static mut STALL_AT: u64 = 0;
    static mut STALLED: u32 = 0;

    /// Processor-time tick: if the running thread has not reached the simulator for several ticks
    /// it is busy-waiting, and the thread it waits for has to run.
    pub unsafe extern "C" fn on_tick(_: i32, _: *mut libc::siginfo_t, _: *mut libc::c_void) {
        if !ACTIVE {
            return;
        }
        let s = sh();
        let now = (s.stats[Stat::steps as usize] + s.stats[Stat::yields as usize] + s.ev_count, CUR);
        // Two seconds of processor time without anything happening, whichever thread ran.
        STALLED = if now.0 == STALL_AT { STALLED + 1 } else { 0 };
        STALL_AT = now.0;
        if STALLED >= 10 {
            if INTERRUPTING[CUR] {
                rt::violate(O::NoWait, format_args!("a call that interrupts another operation never ends"));
            }
            rt::violate(O::Progress, format_args!("the run hangs during {}", rt::phase_name()));
        }
        if CUR == ORCH {
            return;
        }
        if now != LAST {
            LAST = now;
            SAME = 0;
            return;
        }
        SAME += 1;
        if SAME >= 2 {
            SAME = 0;
            crate::sys::raw(libc::SYS_tgkill, libc::getpid() as usize, th(CUR).ktid as usize, libc::SIGURG as usize, 0, 0, 0);
        }
    }

    pub unsafe extern "C" fn on_nudge(_: i32, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        let me = tid();
        let t = th(me);
        if me != CUR || t.depth > 0 || t.inlib == 0 || t.ucode > 0 || !preemptible(rip) || ALONE {
            return;
        }
        t.depth += 1;
        let n = following(me);
        if n != ORCH {
            stat(Stat::spin_breaks);
            switch_to(me, n);
        }
        t.depth -= 1;
    }

    pub unsafe extern "C" fn on_trap(
        sig: i32,
        info: *mut libc::siginfo_t,
        ctx: *mut libc::c_void,
    ) {
        let uc = &mut *(ctx as *mut libc::ucontext_t);
        let rip = uc.uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
        if (*info).si_code != 2 {
            crate::crash::report(sig, rip, rip);
        }
        let me = tid();
        let t = th(me);
        let efl = &mut uc.uc_mcontext.gregs[libc::REG_EFL as usize];
        if !t.stepping || t.depth > 0 {
            *efl &= !0x100;
            return;
        }
        stat(Stat::steps);
        t.slice += 1;
        rt::QUIET += 1;
        if rt::QUIET > STUCK {
            rt::violate(O::Progress, format_args!("the run hangs during {}", rt::phase_name()));
        }
        // A thread that says it is waiting (`pause`), or goes round in a short loop, lets the one it
        // waits for go on.
        if preemptible(rip) && (rip as *const u16).read_unaligned() == 0x90f3 {
            t.pauses += 1;
        }
        if t.slice % 512 == 1 {
            t.anchor = (rip, 0);
        } else if rip == t.anchor.0 {
            t.anchor.1 += 1;
            if t.anchor.1 == 5 {
                t.pauses += if cfg!(feature = "lane-spin") { 3 } else { 5 };
            }
        }
        let due = t.slice >= t.quantum || ((t.slice >= SLICE_MAX || t.pauses >= PAUSES) && spins(t.wkind));
        if !due || !preemptible(rip) {
            return;
        }
        t.depth += 1;
        if INTERRUPT > 0 && t.slice >= t.quantum && chance(S_SCHED, INTERRUPT, 16) {
            interrupt(t.slice);
            t.quantum = draw_quantum(t.wkind);
            t.slice = 0;
            if t.quantum == INF && !spins(t.wkind) {
                t.stepping = false;
                *efl &= !0x100;
            }
            t.depth -= 1;
            return;
        }
        // Priorities must not keep the thread the others wait for from running.
        t.turns += 1;
        let fair = t.slice < t.quantum || (t.turns > 4 && spins(t.wkind));
        let n = if fair { following(me) } else { pick(me) };
        if n != ORCH {
            stat(Stat::step_preemptions);
            event(ek::PREEMPT, n as u32, t.slice);
            switch_to(me, n);
        }
        t.quantum = draw_quantum(t.wkind);
        if t.turns > 4 && spins(t.wkind) {
            t.quantum = t.quantum.max(SLICE_MAX);
        }
        t.slice = 0;
        t.pauses = 0;
        if t.quantum == INF && !spins(t.wkind) {
            t.stepping = false;
            *efl &= !0x100;
        }
        t.depth -= 1;
    }
}
#[cfg(target_arch = "x86_64")]
pub use trap::{on_nudge, on_tick, on_trap};

// ---- running a set of threads ----

pub fn other_in_library() -> bool {
    let me = tid();
    (0..ORCH).any(|i| {
        i != me && matches!(th(i).st, St::Runnable | St::Blocked) && th(i).inlib > 0
    })
}

/// Runs `n` simulated threads to completion. Must be called by the orchestrator.
pub fn run_threads(n: usize, pol: Policy, f: fn(usize)) {
    assert!(tid() == ORCH && n <= ORCH);
    unsafe {
        POLICY = pol.kind;
        STEP_NUM = pol.num;
        STEP_BOUND = pol.bound;
        PCT_LEFT = 3;
    }
    let mut handles: [Option<std::thread::JoinHandle<()>>; MAXT] = [const { None }; MAXT];
    for i in 0..n {
        let t = th(i);
        *t = TH0;
        t.st = St::Runnable;
        if pol.kind == 4 {
            t.prio = 10 + choose(S_SCHED, 1000);
        }
    }
    for (i, h) in handles.iter_mut().enumerate().take(n) {
        *h = Some(
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    TID.with(|t| t.set(i));
                    th(i).ktid = unsafe { libc::gettid() };
                    READY.store(1, Ordering::Release);
                    unsafe { crate::sys::futex_wake(READY.as_ptr(), 1) }
                    wait_go(i);
                    event(ek::TSTART, i as u32, 0);
                    if std::panic::catch_unwind(|| f(i)).is_err() {
                        crate::violation!(O::Progress, "thread {} ended by an unexpected panic", i);
                        crate::harness_error!("thread {} panicked", i);
                    }
                    thread_end(i);
                })
                .unwrap_or_else(|_| crate::harness_error!("thread spawn failed")),
        );
        // Thread start-up runs to completion before anything else happens.
        while READY.swap(0, Ordering::Acquire) == 0 {
            unsafe { crate::sys::futex_wait(READY.as_ptr(), 0) }
        }
    }
    unsafe {
        ACTIVE = true;
    }
    let mut alive = n;
    while alive > 0 {
        let next = pick(ORCH);
        if next == ORCH {
            // Only blocked threads are left.
            after_block(ORCH);
            continue;
        }
        event(ek::SWITCH, next as u32, 1);
        hand_to(next);
        wait_go(ORCH);
        for i in 0..n {
            if th(i).st == St::Exiting {
                let (p, a) = rt::phase(7, i as u64);
                let h = handles[i].take().unwrap();
                if h.join().is_err() {
                    crate::violation!(O::Progress, "thread {} ended by an unexpected panic", i);
                    crate::harness_error!("thread {} panicked", i);
                }
                rt::phase(p, a);
                th(i).st = St::Done;
                event(ek::TEND, i as u32, 0);
                alive -= 1;
            }
        }
    }
    unsafe {
        ACTIVE = false;
        CUR = ORCH;
    }
}

fn thread_end(me: usize) {
    // A thread may only leave while nobody sleeps in the middle of the library, so that its
    // thread-local teardown cannot meet a held lock while the orchestrator joins it.
    while other_in_library() {
        let n = pick(me);
        if n == ORCH {
            break;
        }
        th(me).idle = true;
        switch_to(me, n);
    }
    let _q = Quiet::new();
    th(me).st = St::Exiting;
    unsafe {
        CUR = ORCH;
    }
    let t = th(ORCH);
    t.go.store(1, Ordering::Release);
    // The orchestrator joins us now; teardown of our thread-locals runs as our continuation.
    unsafe { crate::sys::futex_wake(t.go.as_ptr(), 1) }
}
