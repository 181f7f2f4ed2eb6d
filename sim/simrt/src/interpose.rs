//! libc symbols the simulated process must not take from the outside world: entropy, clocks, thread
//! creation and futex waits. Outside a simulated run they fall through to the kernel.
use libc::{c_int, c_long, c_void, size_t, ssize_t, timespec};
use tokio::sim;

#[inline]
unsafe fn raw_syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let ret: c_long;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn with_errno(r: c_long) -> c_long {
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom {
        return getrandom(a as *mut c_void, b as size_t, c as u32) as c_long;
    }
    if n == libc::SYS_futex && sim::enabled() && sim::on_sim_thread() {
        let op = (b as c_int) & 0x7f;
        // a contended lock on a simulated thread: let somebody else run, then retry
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && !sim::in_baton() {
            let p = a as *const std::sync::atomic::AtomicI32;
            if (*p).load(std::sync::atomic::Ordering::SeqCst) == c as c_int {
                sim::thread_yield();
            }
            *libc::__errno_location() = libc::EAGAIN;
            return -1;
        }
    } else if n == libc::SYS_futex && sim::enabled() {
        let op = (b as c_int) & 0x7f;
        if (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET) && !sim::in_baton() {
            let p = a as *const std::sync::atomic::AtomicI32;
            if (*p).load(std::sync::atomic::Ordering::SeqCst) == c as c_int && sim::runtime_contended() {
                *libc::__errno_location() = libc::EAGAIN;
                return -1;
            }
        }
    }
    with_errno(raw_syscall(n, a, b, c, d, e, f))
}

/// Called by the compiler's coverage instrumentation at every basic block of the crates under test.
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    sim::preempt_point();
}

static PRE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// From here on this process takes no entropy from outside.
pub fn seal(seed: u64) {
    PRE.store(seed | 1, std::sync::atomic::Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if sim::enabled() {
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        if sim::aux_bytes(s) {
            return len as ssize_t;
        }
    }
    let pre = PRE.load(std::sync::atomic::Ordering::SeqCst);
    if pre != 0 {
        // a simulated process before its simulator is installed (or after it was removed)
        let s = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        let mut r = crate::Rng::new(pre);
        for b in s.iter_mut() {
            *b = r.below(256) as u8;
        }
        PRE.store(r.below(u64::MAX - 1) + 1, std::sync::atomic::Ordering::SeqCst);
        return len as ssize_t;
    }
    with_errno(raw_syscall(libc::SYS_getrandom, buf as c_long, len as c_long, flags as c_long, 0, 0, 0)) as ssize_t
}

const MONO_BASE: u64 = 1_000_000_000_000;
const REAL_BASE: u64 = 1_700_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if sim::enabled() {
        let base = if clk == libc::CLOCK_REALTIME { REAL_BASE } else { MONO_BASE };
        let n = base + sim::now_ns();
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    with_errno(raw_syscall(libc::SYS_clock_gettime, clk as c_long, ts as c_long, 0, 0, 0, 0)) as c_int
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type PthreadCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
struct Tramp {
    start: Start,
    arg: *mut c_void,
    sim: sim::ThreadStart,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let t = unsafe { Box::from_raw(p as *mut Tramp) };
    let Tramp { start, arg, sim } = *t;
    let end = sim.begin();
    let r = start(arg);
    end.finish();
    r
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut libc::pthread_t, attr: *const libc::pthread_attr_t, start: Start, arg: *mut c_void) -> c_int {
    let real: PthreadCreate = {
        let p = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
        std::mem::transmute(p)
    };
    if sim::enabled() {
        if let Some(s) = sim::prepare_thread() {
            let b = Box::into_raw(Box::new(Tramp { start, arg, sim: s }));
            return real(th, attr, tramp, b as *mut c_void);
        }
    }
    real(th, attr, start, arg)
}

/// Keeps the symbols above in the final binary.
pub fn keep() -> usize {
    __sanitizer_cov_trace_pc as *const () as usize ^ syscall as usize ^ getrandom as usize ^ clock_gettime as usize ^ pthread_create as usize
}
