//! Calls of the native interface, with every buffer fenced by guard pages:
//! inputs are read-only and end at the guard page, outputs end at the guard page
//! and are preceded by a canary.
use cosmian_abe_gpsw::interfaces::ffi::{error as fe, generate_gpsw_keys as fk, hybrid_gpsw_aes as fh};
use std::ffi::c_char;

const PAGE: usize = 4096;

pub struct Fence {
    base: *mut u8,
    total: usize,
    ptr: *mut u8,
    cap: usize,
}

fn pat(i: usize) -> u8 {
    (i as u8).wrapping_mul(37) ^ 0xA5
}

impl Fence {
    fn map(cap: usize) -> Self {
        let body = (cap + 64).div_ceil(PAGE).max(1) * PAGE;
        let total = body + 2 * PAGE;
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                total,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(base != libc::MAP_FAILED);
            let base = base.cast::<u8>();
            libc::mprotect(base.add(PAGE).cast(), body, libc::PROT_READ | libc::PROT_WRITE);
            Fence { base, total, ptr: base.add(PAGE + body - cap), cap }
        }
    }
    /// read-only input ending at a guard page
    pub fn input(b: &[u8]) -> Self {
        let f = Self::map(b.len());
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), f.ptr, b.len());
            libc::mprotect(f.base.add(PAGE).cast(), f.total - 2 * PAGE, libc::PROT_READ);
        }
        f
    }
    /// output buffer of this capacity ending at a guard page
    pub fn output(cap: usize) -> Self {
        let f = Self::map(cap);
        unsafe {
            let start = f.base.add(PAGE);
            let n = f.total - 2 * PAGE;
            for i in 0..n {
                *start.add(i) = pat(i);
            }
        }
        f
    }
    pub fn p(&self) -> *const c_char {
        self.ptr.cast()
    }
    pub fn m(&self) -> *mut c_char {
        self.ptr.cast()
    }
    pub fn read(&self, n: usize) -> Vec<u8> {
        unsafe { std::slice::from_raw_parts(self.ptr, n.min(self.cap)).to_vec() }
    }
    /// the canary before the buffer is intact
    pub fn intact(&self) -> bool {
        unsafe {
            let start = self.base.add(PAGE);
            let n = self.ptr.offset_from(start) as usize;
            (0..n).all(|i| *start.add(i) == pat(i))
        }
    }
    /// this byte of the buffer was not written
    pub fn pristine(&self, i: usize) -> bool {
        unsafe {
            let at = self.ptr.offset_from(self.base.add(PAGE)) as usize + i;
            *self.ptr.add(i) == pat(at)
        }
    }
    /// nothing at all was written
    pub fn untouched(&self) -> bool {
        unsafe {
            let start = self.base.add(PAGE);
            (0..self.total - 2 * PAGE).all(|i| *start.add(i) == pat(i))
        }
    }
}
impl Drop for Fence {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base.cast(), self.total) };
    }
}

/// an input buffer argument
#[derive(Clone, Debug)]
pub enum In {
    Null,
    /// null pointer with this length
    NullLen(i32),
    Bytes(Vec<u8>),
    /// these bytes, but the length argument is this (never larger than the bytes)
    Len(Vec<u8>, i32),
}
/// an output buffer argument
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Cap(usize),
    NullPtr,
    NullLen,
    /// valid pointer and this (non-positive) length
    BadLen(i32),
}

pub struct InB(Option<Fence>, i32);
pub struct OutB {
    f: Option<Fence>,
    len: Box<[i32; 3]>,
    null_len: bool,
    init: i32,
}
const LC: i32 = 0x5A5A_1234;

impl In {
    fn b(&self) -> InB {
        match self {
            In::Null => InB(None, 0),
            In::NullLen(n) => InB(None, *n),
            In::Bytes(v) => InB(Some(Fence::input(v)), v.len() as i32),
            In::Len(v, n) => InB(Some(Fence::input(v)), (*n).min(v.len() as i32)),
        }
    }
    /// as a NUL-terminated string
    fn s(&self) -> InB {
        match self {
            In::Null | In::NullLen(_) => InB(None, 0),
            In::Bytes(v) | In::Len(v, _) => {
                let mut v = v.clone();
                v.push(0);
                InB(Some(Fence::input(&v)), 0)
            }
        }
    }
}
impl InB {
    fn p(&self) -> *const c_char {
        self.0.as_ref().map_or(std::ptr::null(), |f| f.p())
    }
}
impl Out {
    fn b(&self) -> OutB {
        let (f, init, null_len) = match self {
            Out::Cap(n) => (Some(Fence::output(*n)), *n as i32, false),
            Out::NullPtr => (None, 64, false),
            Out::NullLen => (Some(Fence::output(64)), 64, true),
            Out::BadLen(n) => (Some(Fence::output(64)), *n, false),
        };
        OutB { f, len: Box::new([LC, init, LC]), null_len, init }
    }
}
impl OutB {
    fn m(&self) -> *mut c_char {
        self.f.as_ref().map_or(std::ptr::null_mut(), |f| f.m())
    }
    fn l(&mut self) -> *mut i32 {
        if self.null_len {
            std::ptr::null_mut()
        } else {
            &mut self.len[1]
        }
    }
}

/// what a native call did
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ret {
    pub rc: i32,
    /// per output: reported length and (on success) the bytes
    pub lens: Vec<i32>,
    pub outs: Vec<Vec<u8>>,
    /// description of a buffer violation
    pub bad: Option<String>,
    /// per output: the whole buffer, when anything was written to it
    pub raw: Vec<Vec<u8>>,
}

fn fin(rc: i32, outs: &[(&str, &OutB)]) -> Ret {
    let mut r = Ret { rc, ..Default::default() };
    for (name, o) in outs {
        let n = o.len[1];
        if o.len[0] != LC || o.len[2] != LC {
            r.bad = Some(format!("{name}: wrote around the length argument"));
        }
        if let Some(f) = &o.f {
            if !f.intact() {
                r.bad = Some(format!("{name}: wrote before the buffer"));
            }
            let untouched = f.untouched();
            if (o.null_len || o.init <= 0) && !untouched {
                r.bad = Some(format!("{name}: wrote to a buffer of announced length {}", if o.null_len { 0 } else { o.init }));
            }
            r.raw.push(if untouched { vec![] } else { f.read(f.cap) });
            if rc == 0 && !o.null_len && o.init > 0 {
                if n < 0 || n as usize > f.cap {
                    r.bad = Some(format!("{name}: success with reported length {n} for a buffer of {}", f.cap));
                }
                let n = (n.max(0) as usize).min(f.cap);
                if n >= 6 && (n - 6..n).all(|i| f.pristine(i)) {
                    r.bad = Some(format!("{name}: success with reported length {n}, but the last bytes of that were never written"));
                }
                r.outs.push(f.read(n));
            } else {
                r.outs.push(vec![]);
            }
        } else {
            r.outs.push(vec![]);
        }
        r.lens.push(n);
    }
    r
}

pub fn generate_master_keys(o: &Out, policy: &In) -> Ret {
    let mut o = o.b();
    let p = policy.s();
    let rc = unsafe { fk::h_generate_master_keys(o.m(), o.l(), p.p()) };
    fin(rc, &[("master keys", &o)])
}
pub fn generate_user_key(o: &Out, msk: &In, ap: &In, policy: &In) -> Ret {
    let mut o = o.b();
    let (k, a, p) = (msk.b(), ap.s(), policy.s());
    let rc = unsafe { fk::h_generate_user_private_key(o.m(), o.l(), k.p(), k.1, a.p(), p.p()) };
    fin(rc, &[("user key", &o)])
}
pub fn rotate(o: &Out, attrs: &In, policy: &In) -> Ret {
    let mut o = o.b();
    let (a, p) = (attrs.s(), policy.s());
    let rc = unsafe { fk::h_rotate_attributes(o.m(), o.l(), a.p(), p.p()) };
    fin(rc, &[("policy", &o)])
}
/// (rc, handle)
pub fn create_encryption_cache(null_handle: bool, policy: &In, mpk: &In) -> (Ret, i32) {
    let (p, k) = (policy.s(), mpk.b());
    let mut h = [LC, i32::MIN, LC];
    let hp = if null_handle { std::ptr::null_mut() } else { &mut h[1] as *mut i32 };
    let rc = unsafe { fh::h_aes_create_encryption_cache(hp, p.p(), k.p(), k.1) };
    let mut r = fin(rc, &[]);
    if h[0] != LC || h[2] != LC {
        r.bad = Some("wrote around the handle".into());
    }
    (r, h[1])
}
pub fn destroy_encryption_cache(h: i32) -> i32 {
    unsafe { fh::h_aes_destroy_encryption_cache(h) }
}
pub fn create_decryption_cache(null_handle: bool, key: &In) -> (Ret, i32) {
    let k = key.b();
    let mut h = [LC, i32::MIN, LC];
    let hp = if null_handle { std::ptr::null_mut() } else { &mut h[1] as *mut i32 };
    let rc = unsafe { fh::h_aes_create_decryption_cache(hp, k.p(), k.1) };
    let mut r = fin(rc, &[]);
    if h[0] != LC || h[2] != LC {
        r.bad = Some("wrote around the handle".into());
    }
    (r, h[1])
}
pub fn destroy_decryption_cache(h: i32) -> i32 {
    unsafe { fh::h_aes_destroy_decryption_cache(h) }
}
pub fn encrypt_header_cached(sk: &Out, hd: &Out, h: i32, attrs: &In, uid: &In, ad: &In) -> Ret {
    let (mut s, mut o) = (sk.b(), hd.b());
    let (a, u, d) = (attrs.s(), uid.b(), ad.b());
    let rc = unsafe {
        fh::h_aes_encrypt_header_using_cache(s.m(), s.l(), o.m(), o.l(), h, a.p(), u.p(), u.1, d.p(), d.1)
    };
    fin(rc, &[("symmetric key", &s), ("header", &o)])
}
pub fn encrypt_header(sk: &Out, hd: &Out, policy: &In, mpk: &In, attrs: &In, uid: &In, ad: &In) -> Ret {
    let (mut s, mut o) = (sk.b(), hd.b());
    let (p, k, a, u, d) = (policy.s(), mpk.b(), attrs.s(), uid.b(), ad.b());
    let rc = unsafe {
        fh::h_aes_encrypt_header(
            s.m(), s.l(), o.m(), o.l(), p.p(), k.p(), k.1, a.p(), u.p(), u.1, d.p(), d.1,
        )
    };
    fin(rc, &[("symmetric key", &s), ("header", &o)])
}
pub fn decrypt_header_cached(sk: &Out, uid: &Out, ad: &Out, header: &In, h: i32) -> Ret {
    let (mut s, mut u, mut d) = (sk.b(), uid.b(), ad.b());
    let e = header.b();
    let rc = unsafe {
        fh::h_aes_decrypt_header_using_cache(s.m(), s.l(), u.m(), u.l(), d.m(), d.l(), e.p(), e.1, h)
    };
    fin(rc, &[("symmetric key", &s), ("uid", &u), ("additional data", &d)])
}
pub fn decrypt_header(sk: &Out, uid: &Out, ad: &Out, header: &In, key: &In) -> Ret {
    let (mut s, mut u, mut d) = (sk.b(), uid.b(), ad.b());
    let (e, k) = (header.b(), key.b());
    let rc = unsafe {
        fh::h_aes_decrypt_header(s.m(), s.l(), u.m(), u.l(), d.m(), d.l(), e.p(), e.1, k.p(), k.1)
    };
    fin(rc, &[("symmetric key", &s), ("uid", &u), ("additional data", &d)])
}
pub fn header_size(b: &In) -> i32 {
    let b = b.b();
    unsafe { fh::h_get_encrypted_header_size(b.p(), b.1) }
}
pub fn overhead() -> i32 {
    unsafe { fh::h_aes_symmetric_encryption_overhead() }
}
pub fn encrypt_block(o: &Out, key: &In, uid: &In, n: i32, data: &In) -> Ret {
    let mut o = o.b();
    let (k, u, d) = (key.b(), uid.b(), data.b());
    let rc = unsafe { fh::h_aes_encrypt_block(o.m(), o.l(), k.p(), k.1, u.p(), u.1, n, d.p(), d.1) };
    fin(rc, &[("encrypted block", &o)])
}
pub fn decrypt_block(o: &Out, key: &In, uid: &In, n: i32, data: &In) -> Ret {
    let mut o = o.b();
    let (k, u, d) = (key.b(), uid.b(), data.b());
    let rc = unsafe { fh::h_aes_decrypt_block(o.m(), o.l(), k.p(), k.1, u.p(), u.1, n, d.p(), d.1) };
    fin(rc, &[("clear text", &o)])
}
pub fn set_error(msg: &In) -> i32 {
    let m = msg.s();
    unsafe { fe::set_error(m.p()) }
}

/// the last error read through a buffer of `cap` bytes: (rc, reported length, whole buffer, violation)
pub fn get_error(cap: usize) -> (i32, i32, Vec<u8>, Option<String>) {
    let f = Fence::output(cap);
    let mut len = [LC, cap as i32, LC];
    let rc = unsafe { fe::get_last_error(f.m(), &mut len[1]) };
    let mut bad = None;
    if len[0] != LC || len[2] != LC {
        bad = Some("get_last_error wrote around the length argument".to_string());
    }
    if !f.intact() {
        bad = Some("get_last_error wrote before the buffer".to_string());
    }
    (rc, len[1], f.read(cap), bad)
}
/// text of the last error (clears it)
pub fn error_text() -> String {
    let (rc, n, b, _) = get_error(4096);
    if rc != 0 {
        return format!("get_last_error failed with {rc}");
    }
    String::from_utf8_lossy(&b[..(n.max(0) as usize).min(b.len())]).into_owned()
}
pub fn get_error_raw(null_ptr: bool, null_len: bool, n: i32) -> (i32, bool) {
    let f = Fence::output(64);
    let mut len = n;
    let rc = unsafe {
        fe::get_last_error(
            if null_ptr { std::ptr::null_mut() } else { f.m() },
            if null_len { std::ptr::null_mut() } else { &mut len },
        )
    };
    (rc, f.untouched())
}
