//! Raw system calls. The harness never goes through the interposed C symbols itself.

#[cfg(target_arch = "x86_64")]
#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    core::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b,
        in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

#[cfg(not(target_arch = "x86_64"))]
#[inline(always)]
pub unsafe fn raw(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r = libc::syscall(n as libc::c_long, a, b, c, d, e, f);
    if r == -1 {
        -(*libc::__errno_location() as isize)
    } else {
        r as isize
    }
}

pub unsafe fn mmap(hint: usize, len: usize, prot: i32, flags: i32) -> usize {
    #[cfg(target_pointer_width = "64")]
    let n = libc::SYS_mmap;
    #[cfg(target_pointer_width = "32")]
    let n = libc::SYS_mmap2;
    let r = raw(n as i64, hint, len, prot as usize, flags as usize, usize::MAX, 0);
    if r < 0 && r > -4096 {
        return usize::MAX;
    }
    r as usize
}

pub unsafe fn mprotect(addr: usize, len: usize, prot: i32) {
    let r = raw(libc::SYS_mprotect as i64, addr, len, prot as usize, 0, 0, 0);
    if r != 0 {
        crate::harness_error!("mprotect failed: {}", r);
    }
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    raw(libc::SYS_futex as i64, addr as usize, libc::FUTEX_WAIT as usize | 128, val as usize, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: u32) {
    raw(libc::SYS_futex as i64, addr as usize, libc::FUTEX_WAKE as usize | 128, n as usize, 0, 0, 0);
}

pub fn exit_group(code: i32) -> ! {
    unsafe {
        raw(libc::SYS_exit_group as i64, code as usize, 0, 0, 0, 0, 0);
        loop {
            core::hint::spin_loop();
        }
    }
}
