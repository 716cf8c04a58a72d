//! Signal handlers of a run: a crash is a violation, reported with what the run was doing.

use crate::rt::{self, sh, O};

pub fn report(sig: i32, rip: usize, addr: usize) -> ! {
    let s = sh();
    let ph = rt::PH_NAMES.get(s.phase as usize).copied().unwrap_or("?");
    let place = crate::simjit::describe(addr);
    let code = if crate::simjit::is_code(rip) { "thunk code" } else { "program code" };
    if let Some(w) = crate::simjit::classify_fault(addr, rip) {
        rt::violate(w.0, format_args!("{} (signal {} in {} during {})", w.1, sig, code, ph));
    }
    rt::finish(
        rt::ST_VIOLATION,
        O::Crash as u32,
        format_args!("signal {} in {} during {} ({}), address in {}", sig, code, ph, s.phase_arg, place),
    )
}

unsafe extern "C" fn on_fault(sig: i32, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
    let addr = (*info).si_addr() as usize;
    #[cfg(target_arch = "x86_64")]
    let rip = (*(ctx as *mut libc::ucontext_t)).uc_mcontext.gregs[libc::REG_RIP as usize] as usize;
    #[cfg(not(target_arch = "x86_64"))]
    let rip = {
        let _ = ctx;
        addr
    };
    report(sig, rip, addr)
}

pub fn install() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE] {
            let mut sa: libc::sigaction = core::mem::zeroed();
            sa.sa_sigaction = on_fault as *const () as usize;
            sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(s, &sa, core::ptr::null_mut());
        }
        let mut sa: libc::sigaction = core::mem::zeroed();
        #[cfg(target_arch = "x86_64")]
        {
            sa.sa_sigaction = crate::sched::on_trap as *const () as usize;
        }
        #[cfg(not(target_arch = "x86_64"))]
        {
            sa.sa_sigaction = on_fault as *const () as usize;
        }
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, core::ptr::null_mut());
        #[cfg(target_arch = "x86_64")]
        {
            // Threads that busy-wait for a suspended one are noticed by processor time.
            for (n, h) in [(libc::SIGPROF, crate::sched::on_tick as *const ()), (libc::SIGURG, crate::sched::on_nudge as *const ())] {
                let mut sa: libc::sigaction = core::mem::zeroed();
                sa.sa_sigaction = h as usize;
                sa.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
                libc::sigaction(n, &sa, core::ptr::null_mut());
            }
            let tv = libc::timeval { tv_sec: 0, tv_usec: 200_000 };
            let it = libc::itimerval { it_interval: tv, it_value: tv };
            // 2 is ITIMER_PROF.
            crate::sys::raw(libc::SYS_setitimer, 2, &it as *const _ as usize, 0, 0, 0, 0);
        }
        // A run that burns this much processor time hangs.
        let lim = libc::rlimit { rlim_cur: 20, rlim_max: 22 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}
