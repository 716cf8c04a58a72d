//! The operating-system seam: the C symbols through which the library and its allocator crate reach
//! the kernel are defined here. Lock waits become scheduling decisions; memory requests made from
//! inside the library are tracked and can be made to fail. Only on x86-64.

#[cfg(not(target_arch = "x86_64"))]
mod imp {
    pub fn reset(_f: [u32; 4]) {}
    pub fn is_exec_mapping(_a: usize) -> bool {
        false
    }
    pub fn mapping_base(_a: usize) -> usize {
        0
    }
    pub fn set_faults(_on: bool) {}
}

#[cfg(target_arch = "x86_64")]
mod imp {
    use crate::rt::{chance, choose, ek, event, stat, Stat, S_FAULT};
    use crate::sched::{self, Quiet};
    use crate::sys::raw;

    pub const F_MMAP: usize = 0;
    pub const F_MUNMAP: usize = 1;
    pub const F_MEMFD: usize = 2;
    pub const F_FTRUNC: usize = 3;

    #[derive(Clone, Copy)]
    pub struct Mapping {
        pub addr: usize,
        pub len: usize,
        pub exec: bool,
        pub by: usize,
    }
    pub const NMAP: usize = 512;
    pub static mut MAPS: [Mapping; NMAP] = [Mapping { addr: 0, len: 0, exec: false, by: 0 }; NMAP];
    pub static mut NMAPS: usize = 0;
    /// Descriptor and the thread that opened it.
    pub static mut FDS: [(i32, usize); 64] = [(-1, 0); 64];
    static mut RATE: [u32; 4] = [0; 4];
    static mut FAULTS: bool = false;
    /// Failures injected so far.
    pub static mut FAILED: [u32; 4] = [0; 4];
    static mut TFAIL: [u64; sched::MAXT] = [0; sched::MAXT];
    /// Bumped on every successful mapping made by the library.
    pub static mut MAP_GEN: u64 = 0;

    pub fn reset(rate: [u32; 4]) {
        unsafe {
            NMAPS = 0;
            FDS = [(-1, 0); 64];
            RATE = rate;
            FAULTS = false;
            FAILED = [0; 4];
            TFAIL = [0; sched::MAXT];
            MAP_GEN = 0;
        }
    }
    pub fn set_faults(on: bool) {
        unsafe { FAULTS = on }
    }
    /// Failures injected into calls made by the current thread so far.
    pub fn failures() -> u64 {
        unsafe { TFAIL[sched::tid()] }
    }
    pub fn munmap_failed() -> bool {
        unsafe { FAILED[F_MUNMAP] > 0 }
    }
    pub fn map_gen() -> u64 {
        unsafe { MAP_GEN }
    }
    /// Descriptors thread `t` opened inside the library and that are still open.
    pub fn open_fds(t: usize) -> u32 {
        unsafe { (*(&raw const FDS)).iter().filter(|f| f.0 >= 0 && f.1 == t).count() as u32 }
    }
    /// Bytes mapped by thread `t` inside the library and still mapped.
    pub fn mapped_bytes(t: usize) -> usize {
        unsafe { (*(&raw const MAPS))[..NMAPS].iter().filter(|m| m.addr != 0 && m.by == t).map(|m| m.len).sum() }
    }
    pub fn is_exec_mapping(a: usize) -> bool {
        unsafe {
            (*(&raw const MAPS))[..NMAPS].iter().any(|m| m.exec && a >= m.addr && a < m.addr + m.len)
        }
    }
    pub fn mapping_base(a: usize) -> usize {
        unsafe {
            (*(&raw const MAPS))[..NMAPS].iter().find(|m| a >= m.addr && a < m.addr + m.len).map_or(0, |m| m.addr)
        }
    }
    fn tracked() -> bool {
        if sched::in_call() {
            crate::violation!(crate::rt::O::NoWait, "a call of a bare function asked the operating system for something");
        }
        sched::inlib()
    }
    /// The library waits by letting time pass: so do the others' turns.
    fn waiting() -> bool {
        let w = sched::is_sim_thread() && sched::inlib();
        if w {
            sched::give_way();
        }
        w
    }

    #[no_mangle]
    pub unsafe extern "C" fn sched_yield() -> i32 {
        if !waiting() {
            raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
        }
        0
    }
    #[no_mangle]
    pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
        if waiting() {
            return 0;
        }
        ret(raw(libc::SYS_nanosleep, a as usize, b as usize, 0, 0, 0, 0)) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const libc::timespec, b: *mut libc::timespec) -> i32 {
        if waiting() {
            return 0;
        }
        -raw(libc::SYS_clock_nanosleep, c as usize, f as usize, a as usize, b as usize, 0, 0) as i32
    }

    fn fail(kind: usize, st: Stat, errs: &[i32]) -> Option<i32> {
        unsafe {
            if FAULTS && RATE[kind] > 0 && chance(S_FAULT, RATE[kind], 16) {
                let e = errs[choose(S_FAULT, errs.len() as u32) as usize];
                stat(st);
                FAILED[kind] += 1;
                TFAIL[sched::tid()] += 1;
                event(ek::SYS_FAIL, kind as u32, e as u64);
                return Some(e);
            }
        }
        None
    }

    unsafe fn set_errno(e: i32) {
        *libc::__errno_location() = e;
    }

    unsafe fn ret(r: isize) -> isize {
        if r < 0 && r > -4096 {
            set_errno(-r as i32);
            -1
        } else {
            r
        }
    }

    #[no_mangle]
    pub unsafe extern "C" fn mmap(
        addr: *mut libc::c_void,
        len: usize,
        prot: i32,
        flags: i32,
        fd: i32,
        off: i64,
    ) -> *mut libc::c_void {
        if tracked() {
            sched::yield_point(20);
        }
        let _q = Quiet::new();
        let t = tracked();
        if t {
            if let Some(e) = fail(F_MMAP, Stat::fault_mmap, &[libc::ENOMEM, libc::EPERM, libc::EAGAIN]) {
                set_errno(e);
                return libc::MAP_FAILED;
            }
        }
        let r = raw(libc::SYS_mmap, addr as usize, len, prot as usize, flags as usize, fd as isize as usize, off as usize);
        if t && !(r < 0 && r > -4096) {
            event(ek::SYS, 0, len as u64);
            MAP_GEN += 1;
            stat(Stat::os_blocks_mapped);
            let m = Mapping {
                addr: r as usize,
                len,
                exec: prot & libc::PROT_EXEC != 0,
                by: sched::tid(),
            };
            let maps = &mut *(&raw mut MAPS);
            if let Some(e) = maps[..NMAPS].iter_mut().find(|m| m.addr == 0) {
                *e = m;
            } else if NMAPS < NMAP {
                maps[NMAPS] = m;
                NMAPS += 1;
            }
        }
        ret(r) as *mut libc::c_void
    }

    #[no_mangle]
    pub unsafe extern "C" fn mmap64(
        addr: *mut libc::c_void,
        len: usize,
        prot: i32,
        flags: i32,
        fd: i32,
        off: i64,
    ) -> *mut libc::c_void {
        mmap(addr, len, prot, flags, fd, off)
    }

    #[no_mangle]
    pub unsafe extern "C" fn munmap(addr: *mut libc::c_void, len: usize) -> i32 {
        let _q = Quiet::new();
        let t = tracked();
        if t {
            if let Some(e) = fail(F_MUNMAP, Stat::fault_munmap, &[libc::ENOMEM]) {
                set_errno(e);
                return -1;
            }
        }
        let r = raw(libc::SYS_munmap, addr as usize, len, 0, 0, 0, 0);
        if r == 0 {
            let maps = &mut *(&raw mut MAPS);
            if let Some(e) = maps[..NMAPS].iter_mut().find(|m| m.addr == addr as usize) {
                e.addr = 0;
                e.len = 0;
                e.exec = false;
                stat(Stat::os_blocks_unmapped);
                event(ek::SYS, 1, len as u64);
                crate::builtin::on_unmap(addr as usize, len);
            }
        }
        ret(r) as i32
    }

    #[no_mangle]
    pub unsafe extern "C" fn ftruncate(fd: i32, len: i64) -> i32 {
        let _q = Quiet::new();
        if tracked() {
            if let Some(e) = fail(F_FTRUNC, Stat::fault_ftruncate, &[libc::ENOSPC, libc::EINTR, libc::EFBIG]) {
                set_errno(e);
                return -1;
            }
        }
        ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as i32
    }
    #[no_mangle]
    pub unsafe extern "C" fn ftruncate64(fd: i32, len: i64) -> i32 {
        ftruncate(fd, len)
    }

    #[no_mangle]
    pub unsafe extern "C" fn close(fd: i32) -> i32 {
        let _q = Quiet::new();
        for f in (*(&raw mut FDS)).iter_mut() {
            if f.0 == fd && fd >= 0 {
                f.0 = -1;
            }
        }
        ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as i32
    }

    #[no_mangle]
    pub unsafe extern "C" fn syscall(
        n: libc::c_long,
        a: usize,
        b: usize,
        c: usize,
        d: usize,
        e: usize,
        f: usize,
    ) -> libc::c_long {
        if n == libc::SYS_futex && sched::is_sim_thread() {
            let op = b as i32 & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                return ret(sched::block_on(a as *const u32, c as u32, d != 0) as isize) as libc::c_long;
            }
            if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
                return sched::wake(a as *const u32, c.min(64) as u32) as libc::c_long;
            }
        }
        if n == libc::SYS_memfd_create {
            let _q = Quiet::new();
            if tracked() {
                if let Some(e) = fail(F_MEMFD, Stat::fault_memfd, &[libc::EMFILE, libc::ENFILE, libc::ENOMEM]) {
                    set_errno(e);
                    return -1;
                }
            }
            let r = raw(n, a, b, c, d, e, f);
            if r >= 0 && tracked() {
                if let Some(s) = (*(&raw mut FDS)).iter_mut().find(|x| x.0 < 0) {
                    *s = (r as i32, sched::tid());
                }
            }
            return ret(r) as libc::c_long;
        }
        ret(raw(n, a, b, c, d, e, f)) as libc::c_long
    }
}

pub use imp::*;
