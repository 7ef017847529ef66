//! Raw system calls (used by the simulator itself) and the libc symbols that
//! are replaced by simulated ones: `syscall` (futex, getrandom), `getrandom`,
//! `sched_yield`, `nanosleep`, `clock_nanosleep` and `clock_gettime`.
use std::arch::asm;
use std::os::raw::{c_int, c_long, c_uint, c_void};

pub const SYS_FUTEX: c_long = 202;
pub const SYS_GETRANDOM: c_long = 318;
pub const SYS_CLOCK_GETTIME: c_long = 228;
pub const SYS_SCHED_YIELD: c_long = 24;

/// # Safety
/// raw system call
pub unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

pub fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        errno(-r as c_int);
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    match n {
        SYS_FUTEX => {
            if let Some(r) = crate::sched::futex(a, b as i32, c as u32, d, f as u32) {
                return ret(r) as c_long;
            }
        }
        SYS_GETRANDOM => return ret(crate::entropy::draw(a as *mut u8, b, c as c_uint)) as c_long,
        SYS_CLOCK_GETTIME => {
            if crate::sched::clock(a as i32, b as *mut libc::timespec) {
                return 0;
            }
        }
        SYS_SCHED_YIELD => {
            if crate::sched::pause() {
                return 0;
            }
        }
        _ => {}
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: c_uint) -> isize {
    ret(crate::entropy::draw(buf.cast(), len, flags))
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, len: usize) -> c_int {
    let mut done = 0;
    while done < len {
        let r = crate::entropy::draw(buf.cast::<u8>().add(done), len - done, 0);
        if r < 0 {
            if r == -4 {
                continue;
            }
            errno(-r as c_int);
            return -1;
        }
        done += r as usize;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if !crate::sched::pause() {
        raw(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if crate::sched::clock(id, ts) {
        return 0;
    }
    ret(raw(SYS_CLOCK_GETTIME, id as usize, ts as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if crate::sched::sleep(&*req) {
        return 0;
    }
    ret(raw(35, req as usize, rem as usize, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: c_int,
    flags: c_int,
    req: *const libc::timespec,
    rem: *mut libc::timespec,
) -> c_int {
    if flags == 0 && crate::sched::sleep(&*req) {
        return 0;
    }
    -(raw(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as c_int)
}

/// real monotonic time in seconds, for budgets and evidence only
pub fn wall() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { raw(SYS_CLOCK_GETTIME, 1, &mut ts as *mut _ as usize, 0, 0, 0, 0) };
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub fn futex_wait_raw(w: &std::sync::atomic::AtomicU32, v: u32) {
    unsafe { raw(SYS_FUTEX, w as *const _ as usize, 128, v as usize, 0, 0, 0) };
}
pub fn futex_wake_raw(w: &std::sync::atomic::AtomicU32) {
    unsafe { raw(SYS_FUTEX, w as *const _ as usize, 129, 1, 0, 0, 0) };
}
