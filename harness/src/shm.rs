//! Memory shared between a simulated process and its observer: what each task
//! is doing, so that a crash can be attributed, and the schedule so far.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const NSW: usize = 1 << 15;
#[repr(C)]
pub struct Shm {
    pub next: AtomicU64,
    pub stop: AtomicU32,
    /// task that crashed (+1), signal, instruction counter
    pub crash_task: AtomicU32,
    pub crash_sig: AtomicU32,
    pub nsw: AtomicU32,
    pub sw: [u64; NSW],
    /// per task: what it is doing
    note: [[u8; 200]; 17],
    panic: [u8; 400],
    pub progress: AtomicU64,
}

static mut P: *mut Shm = std::ptr::null_mut();

pub fn map() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p.cast()
    }
}
pub fn attach(p: *mut Shm) {
    unsafe { P = p }
}
pub fn get() -> Option<&'static mut Shm> {
    unsafe {
        if P.is_null() {
            None
        } else {
            Some(&mut *P)
        }
    }
}
pub fn clear() {
    if let Some(s) = get() {
        s.crash_task.store(0, SeqCst);
        s.crash_sig.store(0, SeqCst);
        s.nsw.store(0, SeqCst);
        s.panic[0] = 0;
        for n in s.note.iter_mut() {
            n[0] = 0;
        }
    }
}
fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&b[..n]);
    dst[n] = 0;
}
fn text(b: &[u8]) -> String {
    let n = b.iter().position(|x| *x == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}
fn slot() -> usize {
    let t = crate::sched::current();
    if t >= 16 {
        16
    } else {
        t
    }
}
/// what the current task is about to do
pub fn note(s: &str) {
    if let Some(p) = get() {
        put(&mut p.note[slot()], s);
    }
}
pub fn switch(c: u16, st: u64, n: u16) {
    if let Some(p) = get() {
        let i = p.nsw.load(Relaxed) as usize;
        if i < NSW {
            p.sw[i] = (u64::from(c) << 48) | (u64::from(n) << 40) | (st & 0xff_ffff_ffff);
            p.nsw.store(i as u32 + 1, Relaxed);
        }
    }
}
pub fn switches() -> Vec<(u16, u64, u16)> {
    get().map_or(vec![], |p| {
        p.sw[..(p.nsw.load(SeqCst) as usize).min(NSW)]
            .iter()
            .map(|x| ((x >> 48) as u16, x & 0xff_ffff_ffff, ((x >> 40) & 0xff) as u16))
            .map(|(a, b, c)| (a, b, c))
            .collect()
    })
}
/// (note of the crashed task, panic message)
pub fn crash() -> (String, String) {
    get().map_or((String::new(), String::new()), |p| {
        let t = p.crash_task.load(SeqCst) as usize;
        let t = if t == 0 { 16 } else { t - 1 };
        (text(&p.note[t.min(16)]), text(&p.panic))
    })
}
pub fn main_note() -> String {
    get().map_or(String::new(), |p| text(&p.note[16]))
}

extern "C" fn handler(sig: i32) {
    if let Some(p) = get() {
        p.crash_task.store(slot() as u32 + 1, SeqCst);
        p.crash_sig.store(sig as u32, SeqCst);
    }
    unsafe { libc::_exit(99) }
}

/// in a simulated process: report crashes instead of dying silently
pub fn install() {
    unsafe {
        for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = handler as *const () as usize;
            a.sa_flags = libc::SA_ONSTACK;
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
    std::panic::set_hook(Box::new(|i| {
        if let Some(p) = get() {
            if p.panic[0] == 0 {
                let m = i
                    .payload()
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| i.payload().downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                let l = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
                put(&mut p.panic, &format!("{l}: {m}"));
            }
        }
    }));
}
