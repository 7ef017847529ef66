//! Simulated operating-system entropy: every draw of the process comes from a
//! seeded stream that the simulator selects before each operation, so what an
//! operation draws does not depend on the schedule. Draws are logged, can be
//! altered byte by byte, interrupted, shortened or made to fail.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fault {
    /// the call is interrupted before any byte is read (EINTR)
    Eintr,
    /// only this many bytes are returned
    Short(usize),
    /// the call fails with this errno
    Fail(i32),
}

#[derive(Default)]
pub struct Stream {
    rng: Option<Rng>,
    /// number of cryptographic draws and bytes since `begin`
    pub draws: usize,
    pub bytes: usize,
    /// XOR this mask into the byte at this offset of the drawn bytes
    pub flip: Option<(usize, u8)>,
    /// faults by draw index
    pub faults: Vec<(usize, Fault)>,
    /// every draw returns the same byte (0: stuck source) — unused unless set
    pub fired: [u64; 3],
    lib: u64,
}

thread_local! {
    static S: RefCell<Stream> = const { RefCell::new(Stream { rng: None, draws: 0, bytes: 0, flip: None, faults: Vec::new(), fired: [0; 3], lib: 0 }) };
}

/// selects the entropy of the next operation of this thread
pub fn begin(seed: u64) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        s.rng = Some(Rng::new(seed));
        s.draws = 0;
        s.bytes = 0;
        s.flip = None;
        s.faults.clear();
    });
}

pub fn set_faults(f: Vec<(usize, Fault)>) {
    S.with(|s| s.borrow_mut().faults = f);
}
pub fn set_flip(f: Option<(usize, u8)>) {
    S.with(|s| s.borrow_mut().flip = f);
}
/// (draws, bytes) since `begin`
pub fn drawn() -> (usize, usize) {
    S.with(|s| {
        let s = s.borrow();
        (s.draws, s.bytes)
    })
}
/// how many faults of each kind fired on this thread since the last call
pub fn take_fired() -> [u64; 3] {
    S.with(|s| std::mem::take(&mut s.borrow_mut().fired))
}

/// returns the number of bytes or -errno
pub fn draw(buf: *mut u8, len: usize, flags: u32) -> isize {
    if flags == 0 {
        crate::sched::entropy_point();
    }
    S.with(|s| {
        let mut s = s.borrow_mut();
        if flags != 0 {
            // keys of std's hash maps: not a cryptographic draw, never faulted
            s.lib += 1;
            let mut r = Rng::of(&[0x6b65_7973, s.lib]);
            for i in 0..len {
                unsafe { *buf.add(i) = r.next() as u8 };
            }
            return len as isize;
        }
        let idx = s.draws;
        s.draws += 1;
        let mut n = len;
        if let Some((_, f)) = s.faults.iter().find(|(i, _)| *i == idx).copied() {
            match f {
                Fault::Eintr => {
                    s.fired[0] += 1;
                    return -4;
                }
                Fault::Short(k) => {
                    if k < n {
                        s.fired[1] += 1;
                    }
                    n = n.min(k.max(1));
                }
                Fault::Fail(e) => {
                    s.fired[2] += 1;
                    return -(e as isize);
                }
            }
        }
        if s.rng.is_none() {
            s.rng = Some(Rng::new(0x0dd_ba11));
        }
        for i in 0..n {
            let mut b = s.rng.as_mut().unwrap().next() as u8;
            if let Some((o, m)) = s.flip {
                if o == s.bytes {
                    b ^= m;
                }
            }
            s.bytes += 1;
            unsafe { *buf.add(i) = b };
        }
        n as isize
    })
}
