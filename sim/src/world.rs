//! The simulated program: many wrappers, operated on by several threads, and the reference model
//! that says what must be true of each of them.

use std::sync::atomic::{AtomicBool, Ordering};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::alloc::Sel;
use crate::heap;
use crate::hold::W;
use crate::props::{Knobs, KNOBS0};
use crate::rt::{
    chance, choose, ek, event, exhausted, mix2, phase, sh, stat, stat_max, Stat, O, S_CFG, S_OPS, S_SCHED,
};
use crate::sched::{self, step_window, yield_point, MAXT, ORCH};
use crate::shapes::{table::SHAPES, fam, Ident, Kind, Req, Shape};
use crate::{builtin, simjit};

pub const MAXID: usize = 1024;
const NSLOT: usize = 16;
const NLEAK: usize = 48;
const NTOK: usize = 8192;
const MAXD: usize = 96;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MSt {
    Unused,
    Building,
    Live,
    Dropping,
    Dropped,
    Leaked,
    Failed,
}

pub struct Model {
    pub st: MSt,
    shape: u16,
    sel: Sel,
    owner: u8,
    ptr: usize,
    n: u32,
    drops: u32,
    csize: usize,
    kept: bool,
    needle: (u64, usize),
    busy: u32,
    excl: bool,
    once_called: bool,
    fault: u32,
    drop_panic: bool,
    drop_panicked: bool,
    handles: i32,
    blocks: u32,
    child: u32,
    w: Option<Box<dyn W>>,
    reqs: u32,
}
const M0: Model = Model {
    st: MSt::Unused,
    shape: 0,
    sel: Sel::Global,
    owner: 0,
    ptr: 0,
    n: 0,
    drops: 0,
    csize: 0,
    kept: false,
    needle: (0, 0),
    busy: 0,
    excl: false,
    once_called: false,
    fault: 0,
    drop_panic: false,
    drop_panicked: false,
    handles: 0,
    blocks: 0,
    child: 0,
    w: None,
    reqs: 0,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum CK {
    Build,
    Call,
    Drop,
    Convert,
}
#[derive(Clone, Copy)]
struct Ctx {
    k: CK,
    id: u32,
    entered: u32,
    digest: u64,
    plan: u32,
    nonce: u64,
    callno: u32,
}
const C0: Ctx = Ctx {
    k: CK::Build,
    id: 0,
    entered: 0,
    digest: 0,
    plan: 0,
    nonce: 0,
    callno: 0,
};

static mut M: [Model; MAXID] = [const { M0 }; MAXID];
static mut NEXT: usize = 1;
static mut SLOT: [u32; NSLOT] = [0; NSLOT];
static mut LEAK: [u32; NLEAK] = [0; NLEAK];
static mut NLEAKED: usize = 0;
static mut CTX: [[Ctx; MAXD]; MAXT] = [[C0; MAXD]; MAXT];
static mut DEP: [usize; MAXT] = [0; MAXT];
static mut NEST: [u32; MAXT] = [0; MAXT];
static mut EXITING: [bool; MAXT] = [false; MAXT];
static mut ENDING: [bool; MAXT] = [false; MAXT];
static mut TOK: [(u32, u8); NTOK] = [(0, 0); NTOK];
static mut NTOKS: usize = 0;
static mut CALLNO: u32 = 0;
pub static mut K: Knobs = KNOBS0;
static mut PICK: [u16; 16] = [0; 16];
static mut NPICK: usize = 0;

fn m(id: u32) -> &'static mut Model {
    unsafe { &mut *(&raw mut M[id as usize]) }
}
fn k() -> &'static Knobs {
    unsafe { &*(&raw const K) }
}
fn slot(i: usize) -> &'static mut u32 {
    unsafe { &mut *(&raw mut SLOT[i]) }
}
fn shape_of(id: u32) -> &'static Shape {
    &SHAPES[m(id).shape as usize]
}
fn ops() -> usize {
    S_OPS + sched::tid()
}

fn push(c: Ctx) {
    let t = sched::tid();
    unsafe {
        if DEP[t] >= MAXD {
            crate::harness_error!("context stack overflow");
        }
        CTX[t][DEP[t]] = c;
        DEP[t] += 1;
    }
}
fn pop() -> Ctx {
    let t = sched::tid();
    unsafe {
        DEP[t] -= 1;
        CTX[t][DEP[t]]
    }
}
fn top() -> Option<&'static mut Ctx> {
    let t = sched::tid();
    unsafe {
        if DEP[t] == 0 {
            None
        } else {
            Some(&mut *(&raw mut CTX[t][DEP[t] - 1]))
        }
    }
}

// ---- called from the allocators ----

/// The construction the running thread is in the middle of.
pub fn current_token() -> u32 {
    match top() {
        Some(c) if c.k == CK::Build => c.id,
        _ => 0,
    }
}

/// Whether construction failed for a lasting and legitimate reason.
pub static REFUSED: AtomicBool = AtomicBool::new(false);

pub fn note_alloc_fault(panic: bool) {
    let t = current_token();
    if t != 0 {
        m(t).fault = if panic { 2 } else { 1 };
    }
}

pub fn on_request(inst: u8, kind: u32) {
    let _ = inst;
    if let Some(c) = top() {
        let zst = shape_of(c.id).zst;
        m(c.id).reqs += 1;
        if zst && c.k != CK::Call {
            violation!(O::NoAlloc, "a wrapper of a zero-sized closure made an allocator request (kind {})", kind);
        }
        if c.k == CK::Call {
            violation!(O::NoWait, "a call made an allocator request (kind {})", kind);
        }
        if c.k == CK::Convert {
            violation!(O::PtrSame, "a conversion made an allocator request (kind {})", kind);
        }
    }
}

pub fn release_too_early(token: u32) -> Option<&'static str> {
    if token == 0 {
        return None;
    }
    match m(token).st {
        MSt::Live => Some("its wrapper is alive"),
        MSt::Leaked => Some("its function was leaked"),
        _ => None,
    }
}

pub fn thread_exiting() -> bool {
    unsafe { EXITING[sched::tid()] }
}

pub fn handle_new() -> u32 {
    let t = current_token();
    if t != 0 {
        m(t).handles += 1;
    }
    t
}
pub fn handle_drop(token: u32) {
    if token == 0 {
        return;
    }
    let x = m(token);
    x.handles -= 1;
    if x.handles < 0 {
        violation!(O::Handle, "allocator handle dropped twice");
    }
    match x.st {
        MSt::Live | MSt::Leaked => {
            violation!(O::Handle, "allocator handle dropped while its wrapper is {:?}", x.st)
        }
        _ => {}
    }
}

// ---- called from shapes ----

pub fn set_csize(id: u32, n: usize, needle: (u64, usize)) {
    m(id).csize = n;
    m(id).needle = needle;
}
/// Whether the heap block holding the closure still exists.
fn stored(id: u32) -> bool {
    let x = m(id);
    x.csize > 0 && x.needle.1 > 0 && heap::live_of(id, x.csize, x.needle) != 0
}

fn key(id: u32, n: u32) -> u64 {
    let sh = shape_of(id);
    let who = if sh.zst { 0x10_0000 + sh.sid as u64 } else { id as u64 };
    mix2(0xABC0_0000_0000 + who, n as u64)
}

/// A call is about to be made with arguments digesting to `d`; returns the key of its result.
pub fn call_begin(d: u64) -> u64 {
    let Some(c) = top() else { crate::harness_error!("call without context") };
    c.digest = d;
    let sh = shape_of(c.id);
    let n = if sh.kind == Kind::FnMut && !sh.zst { m(c.id).n + 1 } else { 0 };
    key(c.id, n)
}
pub fn call_id() -> u32 {
    top().map(|c| c.id).unwrap_or(0)
}

pub struct SimPanic(pub u64);
pub struct SimDropPanic(pub u32);

/// The body of every observed closure.
pub fn body(ident: Ident, n: u32, d: u64) -> u64 {
    let Some(c) = top() else {
        violation!(O::Fidelity, "a closure ran although nobody called one");
        return 0;
    };
    if c.k != CK::Call {
        violation!(O::Fidelity, "a closure ran during {:?} although nobody called it", c.k);
        return 0;
    }
    let sh = shape_of(c.id);
    match ident {
        Ident::Corrupt => violation!(O::Fidelity, "the captured state of wrapper {} is corrupt or freed", c.id),
        Ident::Id(i) if i != c.id => {
            violation!(O::Fidelity, "calling wrapper {} ran the closure of wrapper {}", c.id, i)
        }
        Ident::Shape(s) if s != sh.sid => {
            violation!(O::Fidelity, "calling a function of shape {} ran a closure of shape {}", sh.sid, s)
        }
        _ => {}
    }
    c.entered += 1;
    if c.entered > 1 {
        violation!(O::Fidelity, "one call of wrapper {} ran the closure twice", c.id);
    }
    if d != c.digest {
        violation!(O::Fidelity, "wrapper {} ({}) received other arguments than were passed", c.id, sh.name);
    }
    let id = c.id;
    let plan = c.plan;
    let nonce = c.nonce;
    let depth = unsafe { DEP[sched::tid()] };
    if !sh.zst && sh.counts {
        if n != m(id).n + 1 {
            violation!(O::Fidelity, "closure {} lost or repeated a change of its captured state", id);
        }
    }
    let kk = key(id, if sh.kind == Kind::FnMut && !sh.zst { m(id).n + 1 } else { 0 });
    m(id).n += 1;
    event(ek::BODY, id, 0);
    let ph = phase(8, id as u64);
    yield_point(40);
    if m(id).child != 0 && plan & 4 != 0 {
        let ch = m(id).child;
        nested(|| call(ch));
    }
    if plan & 2 != 0 {
        reenter(Where::Body);
    }
    yield_point(41);
    if unsafe { DEP[sched::tid()] } != depth {
        crate::harness_error!("context stack out of step");
    }
    phase(ph.0, ph.1);
    if plan & 1 != 0 {
        stat(Stat::fault_body_panic);
        std::panic::panic_any(SimPanic(nonce));
    }
    kk
}

/// Destructor of every tracked captured value.
pub fn cap_drop(ident: Ident) {
    let id = match ident {
        Ident::Id(i) => i,
        Ident::Corrupt => {
            violation!(O::DropOnce, "a captured value was destroyed after its storage was freed or overwritten");
            violation!(O::Crash, "a destroyed captured value was corrupt");
            return;
        }
        Ident::Shape(s) => {
            let t = sched::tid();
            let mut found = 0;
            unsafe {
                for i in (0..DEP[t]).rev() {
                    let c = &*(&raw const CTX[t][i]);
                    if SHAPES[m(c.id).shape as usize].sid == s {
                        found = c.id;
                        break;
                    }
                }
            }
            if found == 0 {
                violation!(O::DropOnce, "a zero-sized closure was destroyed although no operation on one is in progress");
                return;
            }
            found
        }
    };
    let x = m(id);
    x.drops += 1;
    if x.drops > 1 {
        violation!(O::DropOnce, "the values captured by wrapper {} were destroyed {} times", id, x.drops);
        return;
    }
    let ok = match x.st {
        MSt::Building | MSt::Dropping => true,
        MSt::Leaked => shape_of(id).kind == Kind::FnOnce && x.once_called,
        _ => false,
    };
    if !ok {
        violation!(O::DropOnce, "the values captured by wrapper {} were destroyed while it is {:?}", id, x.st);
    }
    event(ek::CAPDROP, id, 0);
    let ph = phase(9, id as u64);
    yield_point(42);
    if x.child != 0 {
        let ch = x.child;
        x.child = 0;
        stat(Stat::drop_reentries);
        nested(|| drop_wrapper(ch));
    }
    if k().nest_drop > 0 && chance(ops(), k().nest_drop, 16) {
        reenter(Where::Drop);
    }
    phase(ph.0, ph.1);
    if x.drop_panic && x.st == MSt::Dropping && !std::thread::panicking() {
        x.drop_panicked = true;
        stat(Stat::fault_drop_panic);
        std::panic::panic_any(SimDropPanic(id));
    }
}

pub fn tok_new() -> u32 {
    unsafe {
        if NTOKS >= NTOK {
            return u32::MAX;
        }
        TOK[NTOKS] = (top().map(|c| c.callno).unwrap_or(0), 1);
        NTOKS += 1;
        NTOKS as u32 - 1
    }
}
pub fn tok_drop(idx: u32, ok: bool) {
    if idx == u32::MAX && ok {
        return;
    }
    let o = if top().is_some_and(|c| c.plan & 1 != 0) { O::Payload } else { O::Fidelity };
    if !ok || idx as usize >= unsafe { NTOKS } {
        violation!(o, "a by-value argument was destroyed twice or is corrupt");
        return;
    }
    unsafe {
        if TOK[idx as usize].1 != 1 {
            violation!(o, "a by-value argument was destroyed twice");
        }
        TOK[idx as usize].1 = 2;
    }
}
fn check_toks(callno: u32, from: usize, unwound: bool) {
    let o = if unwound { O::Payload } else { O::Fidelity };
    unsafe {
        for i in from..NTOKS {
            if TOK[i].0 == callno && TOK[i].1 != 2 {
                violation!(
                    o,
                    "a by-value argument was never destroyed ({})",
                    if unwound { "the call unwound" } else { "the call returned" }
                );
            }
        }
    }
}

// ---- operations ----

fn wchoose(stream: usize, w: &[u32]) -> usize {
    let total: u32 = w.iter().sum();
    if total == 0 {
        return 0;
    }
    let mut v = choose(stream, total);
    for (i, x) in w.iter().enumerate() {
        if v < *x {
            return i;
        }
        v -= x;
    }
    0
}

fn pick_sel(s: &Shape) -> Sel {
    if s.fam & fam::GLOBAL != 0 {
        return if cfg!(feature = "lane-custom") { Sel::Sim(3) } else { Sel::Global };
    }
    let kn = k();
    let i = if s.fam & fam::HANDLE != 0 {
        0
    } else {
        wchoose(ops(), &[kn.w_sim, kn.w_global, kn.w_thread])
    };
    match i {
        0 => Sel::Sim(choose(ops(), kn.insts) as u8),
        1 => Sel::Global,
        _ => Sel::Thread,
    }
}

fn live_blocks(id: u32) -> u32 {
    simjit::live_blocks(id) + builtin::live(id)
}

fn os_failures() -> u64 {
    #[cfg(target_arch = "x86_64")]
    {
        crate::interpose::failures()
    }
    #[cfg(not(target_arch = "x86_64"))]
    {
        0
    }
}

/// Builds a wrapper; returns its id, or 0.
pub fn create(shape: u16) -> u32 {
    let s = &SHAPES[shape as usize];
    unsafe {
        if NEXT >= MAXID {
            return 0;
        }
    }
    let id = unsafe {
        NEXT += 1;
        NEXT as u32 - 1
    };
    let sel = pick_sel(s);
    let x = m(id);
    *x = M0;
    x.st = MSt::Building;
    x.shape = shape;
    x.sel = sel;
    x.owner = sched::tid() as u8;
    x.drop_panic = k().drop_panic > 0 && chance(ops(), k().drop_panic, 16);
    stat(Stat::creates);
    sh().shape_seen[shape as usize] = 1;
    event(ek::CREATE, id, shape as u64);
    let ph = phase(1, id as u64);
    push(Ctx { k: CK::Build, id, ..C0 });
    let q = Req { id, shape: shape as u32, sel };
    let os0 = os_failures();
    #[cfg(target_arch = "x86_64")]
    let res0 = (crate::interpose::open_fds(sched::tid()), crate::interpose::mapped_bytes(sched::tid()));
    let r = catch_unwind(AssertUnwindSafe(|| (s.make)(&q)));
    pop();
    let os = os_failures() != os0;
    let ret = match r {
        Ok(Ok(w)) => {
            built(id, w);
            id
        }
        Ok(Err(_)) => {
            if x.fault == 0 && !os {
                violation!(O::Progress, "building {} failed although no request failed", s.name);
            }
            if x.fault == 2 {
                violation!(O::Progress, "building {} swallowed a panic of the allocator", s.name);
            }
            failed(id);
            0
        }
        Err(p) => {
            let injected = p.is::<simjit::SimAllocPanic>();
            if p.is::<SimPanic>() || p.is::<SimDropPanic>() {
                crate::harness_error!("stray panic in construction");
            }
            let said = text(&*p);
            let broken = ["EncodingError", "NoThunkAsm", "InvalidInstruction"].iter().any(|e| said.contains(e));
            if cfg!(target_arch = "arm") && x.fault == 0 && s.fam & fam::LEAF != 0 && !broken {
                // Entry code that loads constants or calls helpers first is refused on this machine,
                // as documented. Failing at it is another matter.
                stat(Stat::refused_creates);
                REFUSED.store(true, Ordering::Relaxed);
            } else if x.fault == 0 && !os {
                violation!(O::Progress, "building {} panicked although no request failed: {}", s.name, said);
            } else if x.fault != 2 && s.fallible {
                violation!(O::Atomic, "a fallible constructor panicked on a failed request: {}", text(&*p));
                violation!(O::Os, "a fallible constructor panicked on a failed request: {}", text(&*p));
            } else if x.fault == 2 && !injected {
                violation!(O::Atomic, "another panic replaced the allocator's: {}", text(&*p));
            }
            failed(id);
            0
        }
    };
    #[cfg(target_arch = "x86_64")]
    if ret == 0 && matches!(sel, Sel::Global | Sel::Thread) {
        let now = (crate::interpose::open_fds(sched::tid()), crate::interpose::mapped_bytes(sched::tid()));
        if now.0 > res0.0 {
            violation!(O::Os, "a failed construction kept {} file descriptor(s)", now.0 - res0.0);
        }
        if !crate::interpose::munmap_failed() && now.1 > res0.1 {
            violation!(O::Os, "a failed construction kept {} mapped bytes", now.1 - res0.1);
        }
    }
    phase(ph.0, ph.1);
    ret
}

pub fn text(p: &(dyn std::any::Any + Send)) -> &str {
    if let Some(s) = p.downcast_ref::<&str>() {
        s
    } else if let Some(s) = p.downcast_ref::<String>() {
        s
    } else {
        "?"
    }
}

fn built(id: u32, w: Box<dyn W>) {
    let x = m(id);
    let s = shape_of(id);
    x.blocks = simjit::seal(id) + builtin::seal(id);
    if s.tracked && x.drops != 0 {
        violation!(O::DropOnce, "building {} destroyed the captured values", s.name);
    }
    if s.zst && live_blocks(id) != 0 {
        violation!(O::NoAlloc, "a zero-sized closure owns executable memory");
    }
    if let Some(p) = w.ptr() {
        x.ptr = p as usize;
    }
    x.w = Some(w);
    x.st = MSt::Live;
    stat(Stat::create_ok);
    if s.zst {
        stat(Stat::zst_creates);
    }
    if s.fam & fam::FACTORY != 0 {
        stat(Stat::factory_calls);
    }
    event(ek::CREATED, id, 0);
    let live = unsafe { (1..NEXT).filter(|i| m(*i as u32).st == MSt::Live).count() };
    stat_max(Stat::multi_live_max, live as u64);
    if crate::rt::getstat(Stat::failed_creates) > 0 {
        stat(Stat::recovered_creates);
    }
}

fn failed(id: u32) {
    let x = m(id);
    let s = shape_of(id);
    x.st = MSt::Failed;
    stat(Stat::failed_creates);
    event(ek::CREATE_FAIL, id, x.fault as u64);
    if s.zst {
        violation!(O::NoAlloc, "building a zero-sized closure failed");
    }
    if s.tracked && x.drops != 1 {
        violation!(O::Atomic, "a failed construction destroyed the captured values {} times", x.drops);
    }
    if stored(id) {
        violation!(O::Atomic, "a failed construction kept the closure's storage ({} bytes)", x.csize);
    }
    if live_blocks(id) != 0 {
        violation!(O::Atomic, "a failed construction kept executable memory");
        violation!(O::Ledger, "a failed construction kept executable memory");
    }
    if x.handles != 0 {
        violation!(O::Atomic, "a failed construction kept the allocator handle");
        violation!(O::Handle, "a failed construction kept the allocator handle");
    }
}

pub fn drop_wrapper(id: u32) {
    let x = m(id);
    if x.st != MSt::Live || x.busy != 0 {
        return;
    }
    let s = shape_of(id);
    let Some(w) = x.w.take() else { return };
    x.st = MSt::Dropping;
    x.excl = true;
    stat(Stat::drops);
    event(ek::DROP, id, 0);
    let ph = phase(5, id as u64);
    push(Ctx { k: CK::Drop, id, ..C0 });
    let r = catch_unwind(AssertUnwindSafe(|| step_window(sched::W_OP, move || drop(w))));
    pop();
    if let Err(p) = r {
        if !p.is::<SimDropPanic>() {
            violation!(O::Progress, "dropping {} panicked: {}", s.name, text(&*p));
        }
    }
    x.st = MSt::Dropped;
    event(ek::DROPPED, id, 0);
    if s.tracked && x.drops != 1 {
        violation!(O::DropOnce, "dropping {} destroyed the captured values {} times", s.name, x.drops);
    }
    if stored(id) {
        violation!(O::Storage, "dropping {} did not free the closure's storage", s.name);
    }
    if live_blocks(id) != 0 {
        violation!(O::Ledger, "dropping {} did not return its executable memory", s.name);
    }
    if x.handles != 0 {
        violation!(O::Handle, "dropping {} did not drop its allocator handle", s.name);
    }
    phase(ph.0, ph.1);
}

fn unchanged(id: u32, before: (i32, u32, u32, u32), what: &str) {
    let x = m(id);
    let now = (x.handles, live_blocks(id), x.drops, stored(id) as u32);
    if now.0 != before.0 || now.1 != before.1 || now.2 != before.2 || (before.3 > 0 && now.3 == 0) {
        violation!(O::PtrSame, "{} of {} allocated, freed or ran something", what, shape_of(id).name);
    }
}
fn snapshot(id: u32) -> (i32, u32, u32, u32) {
    let x = m(id);
    (x.handles, live_blocks(id), x.drops, stored(id) as u32)
}

fn convert(id: u32) {
    let x = m(id);
    if x.st != MSt::Live || x.busy != 0 || x.excl {
        return;
    }
    let Some(w) = x.w.take() else { return };
    x.excl = true;
    stat(Stat::converts);
    let how = choose(ops(), 2);
    let kk = choose(ops(), 5);
    event(ek::CONVERT, id, (how * 8 + kk) as u64);
    let ph = phase(3, id as u64);
    let before = snapshot(id);
    push(Ctx { k: CK::Convert, id, ..C0 });
    let r = catch_unwind(AssertUnwindSafe(|| {
        step_window(sched::W_OP, move || if how == 0 { w.upcast(kk) } else { w.untype(kk) })
    }));
    pop();
    match r {
        Err(p) => {
            violation!(O::Progress, "converting {} panicked: {}", shape_of(id).name, text(&*p));
            crate::harness_error!("conversion panicked");
        }
        Ok(w) => {
            if let Some(p) = w.ptr() {
                if p as usize != x.ptr {
                    violation!(O::PtrSame, "converting {} changed the function pointer", shape_of(id).name);
                }
            }
            x.w = Some(w);
        }
    }
    unchanged(id, before, "converting");
    x.excl = false;
    phase(ph.0, ph.1);
}

fn leak(id: u32) -> bool {
    let x = m(id);
    if x.st != MSt::Live || x.busy != 0 || x.excl || unsafe { NLEAKED } >= NLEAK {
        return false;
    }
    let Some(w) = x.w.take() else { return false };
    x.excl = true;
    stat(Stat::leaks);
    event(ek::LEAK, id, 0);
    let ph = phase(4, id as u64);
    let before = snapshot(id);
    push(Ctx { k: CK::Convert, id, ..C0 });
    let r = catch_unwind(AssertUnwindSafe(|| step_window(sched::W_OP, move || w.leak())));
    pop();
    match r {
        Err(p) => {
            violation!(O::Progress, "leaking {} panicked: {}", shape_of(id).name, text(&*p));
            crate::harness_error!("leak panicked");
        }
        Ok(p) => {
            if shape_of(id).kind != Kind::FnOnce && p as usize != x.ptr {
                violation!(O::PtrSame, "leaking {} changed the function pointer", shape_of(id).name);
            }
            x.ptr = p as usize;
        }
    }
    unchanged(id, before, "leaking");
    x.st = MSt::Leaked;
    x.excl = false;
    unsafe {
        // Another thread may have taken the last place meanwhile; the function is then not called again.
        if NLEAKED < NLEAK {
            LEAK[NLEAKED] = id;
            NLEAKED += 1;
        }
    }
    phase(ph.0, ph.1);
    true
}

fn callable(id: u32) -> bool {
    let x = m(id);
    let s = shape_of(id);
    let st = x.st == MSt::Leaked || (x.st == MSt::Live && s.kind != Kind::FnOnce);
    st && !x.excl
        && x.ptr != 0
        && match s.kind {
            Kind::Fn => true,
            Kind::FnMut => x.busy == 0,
            Kind::FnOnce => !x.once_called,
        }
}

pub fn call(id: u32) {
    if !callable(id) || unsafe { DEP[sched::tid()] } + 4 >= MAXD {
        return;
    }
    let x = m(id);
    let s = shape_of(id);
    let kn = k();
    stat(Stat::calls);
    if x.busy > 0 {
        stat(Stat::concurrent_same_fn);
    }
    if unsafe { DEP[sched::tid()] } > 0 {
        stat(Stat::nested_calls);
    }
    if s.zst {
        stat(Stat::zst_calls);
    }
    if s.fam & fam::HRTB != 0 {
        stat(Stat::hrtb_calls);
    }
    if s.fam & fam::VARIADIC != 0 {
        stat(Stat::variadic_calls);
    }
    x.busy += 1;
    if s.kind == Kind::FnOnce {
        x.once_called = true;
        stat(Stat::once_calls);
    }
    let mut plan = 0;
    if s.unwind && s.observed && kn.body_panic > 0 && chance(ops(), kn.body_panic, 16) {
        plan |= 1;
    }
    if s.observed && kn.nest_body > 0 && chance(ops(), kn.nest_body, 16) {
        plan |= 2;
    }
    if x.child != 0 && chance(ops(), 1, 2) {
        plan |= 4;
    }
    let seed = mix2(choose(ops(), 1 << 16) as u64, 0x5eed);
    let callno = unsafe {
        CALLNO += 1;
        CALLNO
    };
    let nonce = mix2(callno as u64, seed);
    event(ek::CALL, id, plan as u64);
    let ph = phase(2, id as u64);
    push(Ctx { k: CK::Call, id, plan, nonce, callno, ..C0 });
    let depth = unsafe { DEP[sched::tid()] };
    let tok0 = unsafe { NTOKS };
    let n0 = x.n;
    let r = catch_unwind(AssertUnwindSafe(|| unsafe { (s.inv)(x.ptr as *const (), seed) }));
    if unsafe { DEP[sched::tid()] } != depth {
        crate::harness_error!("context stack out of step after a call");
    }
    let c = pop();
    x.busy -= 1;
    phase(ph.0, ph.1);
    let unwound = r.is_err();
    if s.observed && c.entered != 1 {
        violation!(O::Fidelity, "one call of {} ran its closure {} times", s.name, c.entered);
    }
    match r {
        Ok((got, want)) => {
            if plan & 1 != 0 {
                violation!(O::Payload, "the panic raised by {} did not reach the caller", s.name);
            }
            if got != want {
                violation!(O::Fidelity, "the caller of {} did not receive the value the closure returned", s.name);
            }
            event(ek::RETURN, id, 0);
        }
        Err(p) => {
            stat(Stat::unwound_calls);
            event(ek::UNWOUND, id, 0);
            match p.downcast_ref::<SimPanic>() {
                Some(sp) if sp.0 == nonce && plan & 1 != 0 => {}
                Some(_) => violation!(O::Payload, "the caller of {} caught another call's panic", s.name),
                None => {
                    if plan & 1 != 0 {
                        violation!(O::Payload, "the panic raised by {} arrived changed: {}", s.name, text(&*p));
                    }
                    violation!(O::Progress, "calling {} panicked: {}", s.name, text(&*p));
                }
            }
        }
    }
    if s.toks {
        check_toks(callno, tok0, unwound);
    }
    if s.kind == Kind::FnOnce && s.tracked && x.drops != 1 {
        violation!(O::DropOnce, "calling the call-once function {} destroyed its captured values {} times", s.name, x.drops);
    }
    let _ = n0;
}

/// The call a signal handler makes.
pub fn interrupting_call() {
    let mut v = [0u32; 32];
    let mut n = 0;
    for id in 1..unsafe { NEXT }.min(MAXID) as u32 {
        if n < v.len() && shape_of(id).kind != Kind::FnOnce && callable(id) {
            v[n] = id;
            n += 1;
        }
    }
    if n > 0 && !exhausted() {
        stat(Stat::interrupting_calls);
        call(v[choose(S_SCHED, n as u32) as usize]);
    }
}

// ---- re-entry ----

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Where {
    Body,
    Drop,
    Allocator,
}

fn nested(f: impl FnOnce()) {
    let t = sched::tid();
    unsafe {
        if NEST[t] >= k().max_nest.max(1) {
            return;
        }
        NEST[t] += 1;
    }
    stat(Stat::nested_ops);
    f();
    unsafe {
        NEST[t] -= 1;
    }
}

pub fn reenter(w: Where) {
    if std::thread::panicking() || thread_exiting() || unsafe { ENDING[sched::tid()] } {
        return;
    }
    stat(match w {
        Where::Body => Stat::body_reentries,
        Where::Drop => Stat::drop_reentries,
        Where::Allocator => Stat::allocator_reentries,
    });
    event(ek::NESTED, w as u32, 0);
    nested(|| one_op());
}

// ---- the program of a thread ----

fn pick_shape() -> u16 {
    unsafe { PICK[choose(ops(), NPICK as u32) as usize] }
}

fn mine(id: u32) -> bool {
    m(id).sel != Sel::Thread || m(id).owner as usize == sched::tid()
}

fn one_op() {
    let kn = k();
    stat(Stat::ops);
    if kn.raw > 0 && unsafe { DEP[sched::tid()] } == 0 && chance(ops(), kn.raw, 16) {
        if kn.w_sim == 0 {
            crate::builtin::raw_op();
        } else {
            crate::raw::request();
        }
        return;
    }
    if kn.leaked_calls > 0 && unsafe { NLEAKED } > 0 && chance(ops(), kn.leaked_calls, 16) {
        let id = unsafe { LEAK[choose(ops(), NLEAKED as u32) as usize] };
        call(id);
        return;
    }
    let i = choose(ops(), kn.slots) as usize;
    let id = *slot(i);
    if id == 0 || m(id).st != MSt::Live {
        if id != 0 && m(id).st == MSt::Building {
            return;
        }
        let n = create_op();
        if n != 0 {
            if *slot(i) == 0 || m(*slot(i)).st != MSt::Live {
                *slot(i) = n;
            } else if unsafe { EXITING[sched::tid()] } {
                drop_wrapper(n);
            } else {
                // The slot was filled meanwhile.
                match (0..NSLOT).find(|j| *slot(*j) == 0 || !matches!(m(*slot(*j)).st, MSt::Live | MSt::Dropping)) {
                    Some(j) => *slot(j) = n,
                    None => drop_wrapper(n),
                }
            }
        }
        return;
    }
    let once = shape_of(id).kind == Kind::FnOnce;
    match wchoose(ops(), &[kn.w_call, kn.w_drop, kn.w_convert, kn.w_leak, kn.w_keep]) {
        0 => {
            if once {
                if mine(id) && kn.once_leak && leak(id) {
                    *slot(i) = 0;
                    if !chance(ops(), 1, 4) {
                        call(id);
                    }
                }
            } else {
                call(id);
                if kn.burst > 0 && chance(ops(), kn.burst, 16) {
                    for _ in 0..choose(ops(), 70) {
                        call(id);
                    }
                }
            }
        }
        1 => {
            if mine(id) && m(id).busy == 0 && !m(id).excl {
                *slot(i) = 0;
                drop_wrapper(id);
            }
        }
        2 => {
            if mine(id) {
                convert(id)
            }
        }
        3 => {
            if mine(id) && leak(id) && *slot(i) == id {
                *slot(i) = 0;
            }
        }
        _ => {
            if mine(id) && m(id).owner as usize == sched::tid() && m(id).busy == 0 && !m(id).excl {
                *slot(i) = 0;
                keep(id);
            }
        }
    }
}

fn create_op() -> u32 {
    let n = create(pick_shape());
    if n != 0 && k().adopt > 0 && shape_of(n).tracked && !shape_of(n).zst && chance(ops(), k().adopt, 16) {
        // The new wrapper's closure takes ownership of an existing wrapper.
        let j = choose(ops(), k().slots) as usize;
        let ch = *slot(j);
        if ch != 0 && m(ch).st == MSt::Live && m(ch).busy == 0 && !m(ch).excl && mine(ch) && m(ch).child == 0
            // A leaked once-function could be called, and its child dropped, on any thread.
            && (m(ch).sel != Sel::Thread || m(n).sel == Sel::Thread && shape_of(n).kind != Kind::FnOnce)
        {
            *slot(j) = 0;
            m(n).child = ch;
        }
    }
    n
}

// ---- thread-local keepers ----

struct Keeper {
    ids: core::cell::RefCell<Vec<u32>>,
}
impl Drop for Keeper {
    fn drop(&mut self) {
        let t = sched::tid();
        if t == ORCH {
            return;
        }
        unsafe {
            EXITING[t] = true;
        }
        let v = core::mem::take(&mut *self.ids.borrow_mut());
        if !v.is_empty() {
            stat(Stat::tls_teardowns);
        }
        for id in v {
            let ph = phase(7, id as u64);
            if k().teardown_calls && callable(id) {
                call(id);
            }
            drop_wrapper(id);
            phase(ph.0, ph.1);
        }
    }
}
thread_local! {
    static KEEP_A: Keeper = const { Keeper { ids: core::cell::RefCell::new(Vec::new()) } };
    static KEEP_B: Keeper = const { Keeper { ids: core::cell::RefCell::new(Vec::new()) } };
}
fn keep(id: u32) {
    m(id).kept = true;
    if choose(ops(), 2) == 0 {
        KEEP_A.with(|x| x.ids.borrow_mut().push(id));
    } else {
        KEEP_B.with(|x| x.ids.borrow_mut().push(id));
    }
    stat(Stat::fault_thread_exit);
    event(ek::NOTE, id, 1);
}

fn thread_main(t: usize) {
    let kn = k();
    if kn.w_keep > 0 && choose(ops(), 2) == 1 {
        // Registered before the allocator's own thread-local state.
        KEEP_A.with(|x| x.ids.borrow_mut().clear());
    }
    for _ in 0..kn.nops {
        yield_point(30);
        if exhausted() {
            break;
        }
        event(ek::OP, 0, 0);
        one_op();
        audit();
        simjit::check_mode(t);
    }
    if unsafe { DEP[t] } != 0 {
        crate::harness_error!("context stack not empty at thread end");
    }
    // Anything bound to this thread must go before it ends.
    unsafe {
        ENDING[t] = true;
    }
    let ids = unsafe { NEXT }.min(MAXID) as u32;
    for id in 1..ids {
        if m(id).sel != Sel::Thread || m(id).owner as usize != t || m(id).kept {
            continue;
        }
        if (1..ids).any(|o| m(o).child == id && matches!(m(o).st, MSt::Live | MSt::Leaked)) {
            continue;
        }
        while m(id).st == MSt::Live && m(id).busy > 0 {
            // Somebody is inside; let them finish.
            if !sched::force_yield() {
                break;
            }
        }
        if m(id).st == MSt::Live && m(id).busy == 0 {
            for i in 0..NSLOT {
                if *slot(i) == id {
                    *slot(i) = 0;
                }
            }
            if kn.w_keep > 0 && choose(ops(), 2) == 1 {
                keep(id);
            } else {
                drop_wrapper(id);
            }
        }
    }
}

fn audit() {
    simjit::audit();
    builtin::audit();
}

/// Chooses the shapes used by this run.
fn pick_shapes(eligible: &[u16]) {
    unsafe {
        NPICK = 1 + choose(S_CFG, k().nshapes) as usize;
        if NPICK > 16 {
            NPICK = 16;
        }
        for i in 0..NPICK {
            PICK[i] = eligible[choose(S_CFG, eligible.len() as u32) as usize];
        }
    }
}

/// One whole simulated run.
pub fn run(prop: u32, eligible: &[u16]) {
    let (kn, cfg, pol, os) = crate::props::configure(prop);
    unsafe {
        K = kn;
        NEXT = 1;
    }
    simjit::start(cfg);
    builtin::reset();
    crate::interpose::reset(os);
    pick_shapes(eligible);
    if cfg!(feature = "lane-custom") || kn.insts > 1 {
        crate::alloc::touch_lazies();
    }
    crate::interpose::set_faults(kn.os_faults);
    unsafe {
        sched::INTERRUPT = kn.interrupt;
    }
    let n = kn.threads as usize;
    sched::run_threads(n, pol, thread_main);
    crate::interpose::set_faults(false);
    phase(6, 0);
    settle();
}

/// After the threads ended: leaked functions still work, everything else can be dropped, and the
/// books balance.
fn settle() {
    let kn = *k();
    unsafe {
        (*(&raw mut K)).nest_drop = 0;
        (*(&raw mut K)).nest_body = 0;
        (*(&raw mut K)).body_panic = 0;
        simjit::cfg().fail_alloc = 0;
        simjit::cfg().panic_alloc = 0;
        simjit::cfg().reenter = 0;
    }
    for i in 0..unsafe { NLEAKED } {
        let id = unsafe { LEAK[i] };
        if callable(id) && chance(ops(), 7, 8) {
            stat(Stat::leaked_calls_after_exit);
            call(id);
        }
    }
    let next = unsafe { NEXT } as u32;
    for id in 1..next {
        if m(id).st == MSt::Live && m(id).sel != Sel::Thread {
            if callable(id) && shape_of(id).kind != Kind::FnOnce {
                call(id);
            }
        }
    }
    if kn.recover {
        simjit::cfg().refuse_all = false;
        REFUSED.store(false, Ordering::Relaxed);
        let id = create(unsafe { PICK[0] });
        if id == 0 && !REFUSED.load(Ordering::Relaxed) {
            violation!(O::Atomic, "construction still fails after the cause of failure is gone");
            violation!(O::Os, "construction still fails after the cause of failure is gone");
            violation!(O::Progress, "construction still fails after the cause of failure is gone");
        } else if id != 0 && callable(id) {
            call(id);
        }
    }
    audit();
    // Owners first: children are dropped by their owners.
    let mut owned = [false; MAXID];
    for id in 1..next + 1 {
        if (id as usize) < MAXID && m(id).child != 0 {
            owned[m(id).child as usize] = true;
        }
    }
    for id in 1..(next + 1).min(MAXID as u32) {
        if m(id).st == MSt::Live && !owned[id as usize] {
            if m(id).sel == Sel::Thread && m(id).owner as usize != ORCH {
                crate::harness_error!("per-thread wrapper {} survived its thread (busy {})", id, m(id).busy);
            }
            drop_wrapper(id);
        }
    }
    audit();
    let mut leaked_blocks = 0;
    for id in 1..(next + 1).min(MAXID as u32) {
        let x = m(id);
        let s = shape_of(id);
        match x.st {
            MSt::Live | MSt::Leaked => {
                // What is still live here is owned by something leaked.
                leaked_blocks += live_blocks(id);
                if live_blocks(id) < x.blocks {
                    violation!(O::Ledger, "the executable memory of a leaked function was returned");
                }
                let want = (s.kind == Kind::FnOnce && x.once_called) as u32;
                if s.tracked && x.drops != want {
                    violation!(O::DropOnce, "the values captured by {} were destroyed {} times", s.name, x.drops);
                }
            }
            MSt::Building | MSt::Dropping => crate::harness_error!("unfinished operation at the end"),
            _ => {}
        }
    }
    builtin::raw_drain();
    if simjit::total_live() + builtin::total_live() > leaked_blocks + crate::raw::live() {
        violation!(O::Ledger, "executable memory without an owner at the end");
    }
    if kn.reuse {
        builtin::reuse_audit();
    }
    #[cfg(target_arch = "x86_64")]
    for t in 0..MAXT {
        if crate::interpose::open_fds(t) != 0 {
            violation!(O::Os, "{} file descriptors stay open", crate::interpose::open_fds(t));
        }
    }
}
