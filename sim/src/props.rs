//! What distinguishes the properties: which oracles speak, which faults and schedules are drawn,
//! which shapes take part and which runs count as having exercised the property.

use crate::rt::{choose, getstat, Stat, O, S_CFG};
use crate::sched::Policy;
use crate::shapes::{fam, Kind, Shape};
use crate::simjit::{Cfg, CFG0};

#[derive(Clone, Copy)]
pub struct Knobs {
    pub threads: u32,
    pub nops: u32,
    pub slots: u32,
    pub nshapes: u32,
    pub insts: u32,
    // Weights of the allocator kinds.
    pub w_sim: u32,
    pub w_global: u32,
    pub w_thread: u32,
    // Weights of operations on a live wrapper.
    pub w_call: u32,
    pub w_drop: u32,
    pub w_convert: u32,
    pub w_leak: u32,
    pub w_keep: u32,
    // Probabilities in sixteenths.
    pub nest_drop: u32,
    pub nest_body: u32,
    pub body_panic: u32,
    pub drop_panic: u32,
    pub leaked_calls: u32,
    pub raw: u32,
    pub adopt: u32,
    pub burst: u32,
    pub interrupt: u32,
    pub max_nest: u32,
    pub once_leak: bool,
    pub os_faults: bool,
    pub recover: bool,
    pub reuse: bool,
    pub teardown_calls: bool,
    /// Requests of more than one allocation unit are refused before they reach the allocator.
    pub small: bool,
    /// Requests to the built-in allocators are rounded up to this, and refused beyond.
    pub round: u32,
}
pub const KNOBS0: Knobs = Knobs {
    threads: 1,
    nops: 24,
    slots: 5,
    nshapes: 6,
    insts: 2,
    w_sim: 1,
    w_global: 0,
    w_thread: 0,
    w_call: 6,
    w_drop: 3,
    w_convert: 1,
    w_leak: 1,
    w_keep: 0,
    nest_drop: 0,
    nest_body: 0,
    body_panic: 0,
    drop_panic: 0,
    leaked_calls: 2,
    raw: 0,
    adopt: 0,
    burst: 0,
    interrupt: 0,
    max_nest: 1,
    once_leak: true,
    os_faults: false,
    recover: false,
    reuse: false,
    teardown_calls: false,
    small: false,
    round: 2048,
};

fn c(n: u32) -> u32 {
    choose(S_CFG, n)
}
/// One of `v`; the first is the simplest.
fn one(v: &[u32]) -> u32 {
    v[c(v.len() as u32) as usize]
}
fn flip() -> bool {
    c(2) == 1
}

const BUILTIN: bool = !cfg!(feature = "lane-custom");
const PER_THREAD: bool = cfg!(any(feature = "lane-default", feature = "lane-nightly"));

pub fn configure(prop: u32) -> (Knobs, Cfg, Policy, [u32; 4]) {
    let mut k = KNOBS0;
    let mut g = CFG0;
    let mut os = [0; 4];
    let mut p = Policy { kind: 0, num: [0; 3], bound: [64, 600, 40] };
    // Swarm: every run draws its own mix.
    k.threads = 1 + c(4);
    k.nops = one(&[6, 12, 24, 40]);
    k.slots = 1 + c(8);
    k.w_call = one(&[6, 2, 12]);
    k.w_drop = one(&[3, 1, 6]);
    k.w_convert = one(&[1, 0, 3]);
    k.w_leak = one(&[1, 0, 2]);
    k.adopt = one(&[0, 2]);
    g.recycle = one(&[4, 8, 0]);
    g.dirty = c(4);
    if k.threads > 1 {
        p.kind = 1 + c(4);
        if c(3) == 2 {
            p.num = [one(&[0, 1, 3]), one(&[0, 2, 6]), one(&[0, 2, 6])];
            p.bound = [one(&[64, 400, 4000]), one(&[100, 600, 2500]), one(&[16, 60, 250])];
        }
    }
    let builtins = |k: &mut Knobs, sim: u32, global: u32, thread: u32| {
        k.w_sim = sim;
        k.w_global = if BUILTIN { global } else { 0 };
        k.w_thread = if PER_THREAD { thread } else { 0 };
        if k.w_sim + k.w_global + k.w_thread == 0 {
            k.w_sim = 1;
        }
    };
    match prop {
        1 => {
            k.nshapes = 16;
            k.slots = one(&[4, 8, 12]);
            g.any_align = flip();
            k.round = one(&[2048, 2048, 2048, 1]);
            match c(4) {
                0 | 1 => builtins(&mut k, 1, 0, 0),
                2 => builtins(&mut k, 1, 1, 1),
                _ => builtins(&mut k, 0, 2, 1),
            }
        }
        2 => {
            k.body_panic = one(&[0, 3, 8]);
            k.drop_panic = one(&[0, 3, 8]);
            k.adopt = one(&[0, 3]);
            k.nest_drop = one(&[0, 1]);
            k.w_drop += 2;
            if flip() {
                builtins(&mut k, 2, 1, 1);
            }
        }
        3 => {
            k.insts = one(&[2, 4]);
            k.drop_panic = one(&[0, 3, 8]);
            k.body_panic = one(&[0, 3]);
            g.fail_release = one(&[0, 3, 8]);
            g.any_align = flip();
            k.w_drop += 2;
            if c(4) == 3 {
                builtins(&mut k, 2, 1, 1);
            }
        }
        4 => {
            match c(3) {
                0 => g.fail_alloc = one(&[2, 5, 10]),
                1 => g.panic_alloc = one(&[2, 5, 10]),
                _ => {
                    g.fail_alloc = 3;
                    g.panic_alloc = 3;
                }
            }
            k.insts = 4;
            k.recover = true;
            k.nops = one(&[6, 12, 24]);
        }
        5 => {
            g.strict = true;
            g.single = flip();
            g.any_align = flip();
            g.regions = one(&[0b0001, 0b0011, 0b1000, 0b1111]);
        }
        6 => {
            g.incoherent = true;
            g.single = flip();
            g.any_align = flip();
            g.recycle = one(&[4, 8]);
            g.dirty = one(&[0, 3, 3, 2]);
            g.regions = one(&[0b0001, 0b1011]);
            k.w_drop += 3;
        }
        7 => {
            g.regions = one(&[0b0001, 0b0010, 0b0100, 0b1000, 0b1111]);
            g.any_align = c(4) != 0;
            g.single = flip();
            k.slots = 8;
            k.nshapes = 12;
        }
        8 => {
            k.threads = one(&[2, 2, 3, 4]);
            p.kind = 1 + c(4);
            builtins(&mut k, 0, 1, 0);
            k.nshapes = one(&[1, 3]);
            k.nops = one(&[4, 10, 24, 60]);
            k.slots = one(&[4, 10, 14]);
            k.w_convert = 0;
            k.w_leak = one(&[0, 0, 1]);
            k.w_drop = one(&[3, 8]);
            p.num = [0, one(&[2, 6, 7]), 0];
            p.bound = [64, one(&[60, 300, 1200, 4000]), 40];
            k.reuse = true;
            k.adopt = 0;
            k.raw = one(&[6, 14, 0]);
            unsafe {
                crate::builtin::RAW_MAX = one(&[64, 400, 64, 64]);
            }
            if unsafe { crate::builtin::RAW_MAX } == 64 {
                k.small = true;
                k.round = 1;
            } else {
                k.round = one(&[2048, 1]);
            }
            if c(4) == 3 {
                k.os_faults = true;
                os = [one(&[2, 6]), 0, one(&[0, 4]), one(&[0, 4])];
            }
        }
        9 => {
            builtins(&mut k, 0, 2, one(&[1, 0, 3]));
            k.os_faults = true;
            os = [one(&[4, 0, 8, 2]), one(&[0, 4]), one(&[4, 0, 8]), one(&[0, 4, 8])];
            k.recover = true;
            k.nops = one(&[6, 16, 30]);
            k.w_drop += 4;
            k.w_leak = 0;
            p.num = [0; 3];
        }
        10 => {
            k.body_panic = one(&[6, 12, 3]);
            k.nest_body = one(&[0, 4, 8]);
            k.max_nest = 3;
            k.adopt = one(&[0, 3]);
        }
        11 => {
            if flip() {
                g.refuse_all = true;
            } else {
                g.fail_alloc = one(&[8, 14]);
            }
            k.nops = one(&[12, 24]);
            k.body_panic = one(&[0, 3]);
        }
        12 => {
            k.threads = one(&[2, 1, 3, 4]);
            builtins(&mut k, 0, one(&[0, 1]), 6);
            k.w_keep = one(&[4, 2]);
            k.w_leak = one(&[1, 3]);
            k.teardown_calls = flip();
            k.nops = one(&[6, 12, 24]);
            k.leaked_calls = 4;
            p.num[0] = 0;
        }
        13 => {
            k.nest_body = one(&[4, 0, 8]);
            k.nest_drop = one(&[4, 0, 8]);
            g.reenter = one(&[2, 0, 4]);
            k.max_nest = one(&[1, 2, 3]);
            k.adopt = one(&[4, 0, 8]);
            k.nops = one(&[6, 12, 20]);
            k.slots = 8;
            match c(3) {
                0 => {}
                1 => builtins(&mut k, 1, 2, 1),
                _ => builtins(&mut k, 0, 2, 1),
            }
        }
        14 => {
            k.raw = one(&[4, 8]);
            k.insts = 4;
            g.fail_alloc = one(&[0, 3]);
            g.panic_alloc = one(&[0, 1]);
            g.fail_release = one(&[0, 3]);
        }
        15 => {
            k.threads = one(&[2, 2, 3, 4]);
            k.slots = one(&[1, 2, 3]);
            k.nshapes = one(&[1, 2]);
            k.w_call = 30;
            k.w_drop = one(&[0, 1]);
            k.w_convert = 0;
            k.w_leak = one(&[0, 1]);
            k.nops = one(&[6, 12, 24]);
            p.kind = 1 + c(4);
            p.num = [0, 0, one(&[4, 6, 7])];
            p.bound = [64, 600, one(&[8, 24, 60, 250])];
            k.nest_body = one(&[0, 4]);
            k.max_nest = 2;
        }
        16 => {
            k.w_convert = one(&[8, 4]);
            k.w_leak = one(&[1, 3]);
            k.w_call = 4;
            k.adopt = one(&[0, 2]);
            if c(4) == 3 {
                builtins(&mut k, 2, 1, 0);
            }
        }
        19 => {
            k.threads = one(&[1, 2, 3]);
            p.kind = if k.threads > 1 { 1 + c(4) } else { 0 };
            match c(3) {
                0 => {}
                1 => builtins(&mut k, 1, 1, 1),
                _ => builtins(&mut k, 0, 2, 1),
            }
            k.interrupt = one(&[14, 8]);
            k.slots = one(&[2, 4, 8]);
            k.nops = one(&[6, 12, 24]);
            p.num = [one(&[4, 2, 7]), one(&[4, 2, 7]), one(&[4, 2, 7])];
            p.bound = [one(&[200, 3000, 20000]), one(&[60, 600, 2500]), one(&[8, 30, 120])];
        }
        _ => {}
    }
    let deep = matches!(prop, 10 | 13) && c(12) == 11;
    if deep {
        // Recursion far beyond what the mixed programs reach.
        k.max_nest = one(&[12, 40]);
        k.nest_body = 15;
        k.adopt = 0;
        k.nest_drop = 0;
        g.reenter = 0;
        k.w_call = 40;
        k.slots = one(&[1, 2, 4]);
        k.threads = one(&[1, 2]);
        p.num = [0; 3];
    } else if prop != 8 && prop != 19 && c(24) == 23 {
        // A long life: counters wrap, tables fill up, memory is recycled many times.
        k.nops *= 10;
        p.num = [0; 3];
    }
    if p.num == [0; 3] {
        k.burst = one(&[0, 0, 1]);
    }
    if k.round == 1 && !k.small {
        // With mixed sizes F1 occurs, and is told apart by the exact state of the allocator, which
        // is not known while a request is suspended half-way.
        p.num[0] = 0;
        p.num[1] = 0;
    }
    (k, g, p, os)
}

pub fn eligible(prop: u32, s: &Shape) -> bool {
    let custom = cfg!(feature = "lane-custom");
    if s.fam & fam::GLOBAL != 0 && !custom {
        return false;
    }
    match prop {
        8 => s.fam == fam::MATRIX && s.arity <= 4 && !s.zst,
        9 | 12 => s.fam & (fam::HANDLE | fam::GLOBAL) == 0 && !s.zst && s.arity <= 6,
        10 => s.unwind && s.observed,
        11 => s.zst || (s.fam & (fam::MATRIX | fam::CTOR) != 0 && s.sid % 16 == 0),
        14 => s.fam & (fam::HANDLE | fam::GLOBAL) != 0 || s.sid % 64 == 0,
        15 => s.kind == Kind::Fn && !s.zst,
        19 => s.kind != Kind::FnOnce || s.sid % 8 == 0,
        _ => true,
    }
}

pub fn oracle_enabled(prop: u32, o: O) -> bool {
    match o {
        O::Progress | O::Crash => true,
        O::Fidelity => matches!(prop, 1 | 6 | 7 | 8 | 9 | 12 | 13 | 15 | 16 | 19),
        O::DropOnce => matches!(prop, 2 | 4 | 10 | 11 | 13 | 16),
        O::Storage => matches!(prop, 2 | 4 | 16),
        O::Ledger => matches!(prop, 3 | 4 | 16),
        O::Handle => matches!(prop, 4 | 14 | 16),
        O::Wx => prop == 5,
        O::Stray => matches!(prop, 5 | 7),
        O::ICache => prop == 6,
        O::AllocSafe => matches!(prop, 8 | 12 | 13 | 9),
        O::Reuse => prop == 8,
        O::Payload => prop == 10,
        O::NoAlloc => prop == 11,
        O::Forward => prop == 14,
        O::PtrSame => prop == 16,
        O::Os => prop == 9,
        O::Atomic => prop == 4,
        O::NoWait => prop == 19,
    }
}

/// Properties whose statement the known overlap in the allocator crate (F1) breaks.
pub fn known_overlap_applies(prop: u32) -> bool {
    matches!(prop, 1 | 8)
}

/// Whether the run that just ended exercised the property.
pub fn nontrivial(prop: u32) -> bool {
    let s = getstat;
    let faults_os = s(Stat::fault_mmap) + s(Stat::fault_munmap) + s(Stat::fault_memfd) + s(Stat::fault_ftruncate);
    match prop {
        1 => s(Stat::calls) >= 2 && s(Stat::multi_live_max) >= 2,
        2 => s(Stat::drops) + s(Stat::once_calls) > 0 && s(Stat::fault_body_panic) + s(Stat::fault_drop_panic) + s(Stat::switches) > 0,
        3 => s(Stat::drops) > 0 && s(Stat::blocks) > 1 && s(Stat::fault_release_error) + s(Stat::fault_drop_panic) + s(Stat::leaks) + s(Stat::switches) > 0,
        4 => s(Stat::failed_creates) > 0 && s(Stat::fault_alloc_error) + s(Stat::fault_alloc_panic) > 0,
        5 => s(Stat::protects) >= 4 && s(Stat::multi_live_max) >= 2,
        6 => s(Stat::recycled_blocks) > 0 && s(Stat::calls) > 0,
        7 => s(Stat::blocks) > 0 && s(Stat::calls) > 0,
        8 => s(Stat::step_preemptions) + s(Stat::futex_waits) > 0 && s(Stat::blocks) > 1,
        9 => faults_os > 0 && s(Stat::failed_creates) + s(Stat::drops) > 0,
        10 => s(Stat::fault_body_panic) > 0,
        11 => s(Stat::zst_creates) > 0 && s(Stat::fault_alloc_error) > 0,
        12 => s(Stat::tls_teardowns) + s(Stat::leaked_calls_after_exit) > 0,
        13 => s(Stat::nested_ops) > 0,
        14 => s(Stat::forwarded_requests) > 0 && s(Stat::create_ok) > 0,
        15 => s(Stat::concurrent_same_fn) > 0,
        16 => s(Stat::converts) + s(Stat::leaks) >= 2,
        19 => s(Stat::interrupting_calls) > 0,
        _ => false,
    }
}
