//! Randomness of produced objects: every component of an output that has to be
//! random must depend on at least 128 bits drawn from the operating system
//! during that very operation — in any history, thread, or copy of the process
//! image, and under interrupted, short or failing entropy reads.
//!
//! The process is brought into some state, then forked once per execution of
//! the operation under test, each time with one bit of the drawn bytes altered:
//! what changes in the output is what depends on them.
use crate::back::{Back, Core, Er, Native};
use crate::entropy::{self, Fault};
use crate::fixture;
use crate::model::{Policy, F};
use crate::report::Report;
use crate::rng::{hash, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    /// a master key for a policy of this many values
    Master(u32),
    /// a user key issued for formula number n
    User(u8),
    /// a key narrowed to formula number n, or only randomised
    Narrow(Option<u8>),
    /// a header for these attributes (bit set), with a resource id, with additional data
    Header(u8, bool, bool),
    /// a block of this resource number, number and length
    Block(u8, u8, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    op: Op,
    /// carried out by a thread of its own
    thread: bool,
    /// entropy reads of this operation fail from this one on (Rust interface only)
    fail: Option<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub fx: u64,
    seed: u64,
    /// 0: Rust interface; 1: native interface; 2: native interface with caches
    back: u8,
    hist: Vec<Step>,
    op: Op,
    thread: bool,
    /// fork by the raw system call: nothing in the process is told about it
    raw_fork: bool,
    /// interrupted and short reads, by number of the draw
    faults: Vec<(usize, Fault)>,
    /// draws fail with this error from this one on (or only this one)
    fail: Option<(usize, i32, bool)>,
    mask: u8,
}

fn a(s: &str) -> Box<F> {
    Box::new(F::A(s.into()))
}
fn and(x: Box<F>, y: Box<F>) -> Box<F> {
    Box::new(F::And(x, y))
}
fn or(x: Box<F>, y: Box<F>) -> Box<F> {
    Box::new(F::Or(x, y))
}
/// formulas over the attributes A..D of axis X; the parent key holds the first
fn formulas() -> Vec<F> {
    let (p, q, r, s) = (a("X::A"), a("X::B"), a("X::C"), a("X::D"));
    vec![
        *and(or(p.clone(), q.clone()), or(r.clone(), s.clone())),
        *and(p.clone(), r.clone()),
        *and(or(p.clone(), q.clone()), s.clone()),
        *and(q.clone(), or(r.clone(), s.clone())),
        *or(and(p.clone(), q.clone()), and(r.clone(), s.clone())),
        *and(and(p.clone(), q.clone()), and(r.clone(), s.clone())),
        *or(p, and(q, and(r, s))),
    ]
}
fn policy(n: u32) -> Policy {
    let names = ["A", "B", "C", "D", "E", "F", "G", "H"];
    Policy::new(n, &[("X", &names[..(n as usize).min(8)], false)])
}

pub fn gen(profile: &str, seed: u64, fx: u64) -> Case {
    let mut r = Rng::new(seed);
    let back = if profile.ends_with("core") { 0 } else { 1 + r.below(2) as u8 };
    let op = |r: &mut Rng, w: &[u32; 5]| match r.weighted(w) {
        0 => Op::Master(r.range(4, 6) as u32),
        1 => Op::User(r.below(7) as u8),
        2 if back == 0 => Op::Narrow(if r.chance(0.4) { None } else { Some(r.below(4) as u8) }),
        2 | 3 => Op::Header(r.range(1, 15) as u8, r.chance(0.8), r.chance(0.5)),
        _ => Op::Block(r.below(3) as u8, r.below(3) as u8, r.range(1, 60) as u16),
    };
    let target = op(&mut r, &[2, 4, 4, 6, 4]);
    let n = if matches!(target, Op::Block(..)) { r.range(0, 24) } else { r.range(0, 5) };
    let own = r.chance(0.7);
    let mut hist = vec![];
    for _ in 0..n {
        let o = if own && r.chance(0.6) { target.clone() } else { op(&mut r, &[1, 3, 3, 4, 8]) };
        let o = if matches!(o, Op::Master(_)) && target != o { Op::Block(0, 0, 8) } else { o };
        let fail = if back == 0 && r.chance(0.12) { Some(r.below(3)) } else { None };
        hist.push(Step { op: o, thread: r.chance(0.3), fail });
    }
    let mut faults = vec![];
    let mut fail = None;
    match r.below(4) {
        0 | 1 => {
            for i in 0..r.range(1, 6) {
                let f = if r.chance(0.4) { Fault::Eintr } else { Fault::Short(r.range(1, 31)) };
                faults.push((i * r.range(1, 2), f));
            }
        }
        2 => fail = Some((if r.chance(0.5) { r.below(4) } else { r.below(12) }, *r.pick(&[5, 11, 14, 22]), r.chance(0.3))),
        _ => {}
    }
    Case { fx, seed: r.next(), back, hist, op: target, thread: r.chance(0.3), raw_fork: r.chance(0.5), faults, fail, mask: 1 << r.below(8) }
}

/// (kind of component, what it is, bytes)
type Comp = (String, String, Vec<u8>);

#[derive(Serialize, Deserialize, Default, Debug)]
struct Res {
    comps: Vec<Comp>,
    err: Option<String>,
    draws: usize,
    bytes: usize,
    fired: [u64; 3],
}

struct Ctx {
    back: Box<dyn Back>,
    pol: Policy,
    json: String,
    msk: Vec<u8>,
    mpk: Vec<u8>,
    mdk: Vec<u8>,
    parent: Vec<u8>,
    sk: Vec<u8>,
}

fn num(b: &[u8], o: usize) -> Option<usize> {
    Some(u32::from_be_bytes(b.get(o..o + 4)?.try_into().ok()?) as usize)
}
/// the elements of a stored vector, and what follows it
fn vector(b: &[u8], o: usize, size: usize) -> Option<(Vec<Vec<u8>>, usize)> {
    let n = num(b, o)?;
    let e = o + 4 + n.checked_mul(size)?;
    let v = b.get(o + 4..e)?;
    Some((v.chunks(size).map(|x| x.to_vec()).collect(), e))
}
fn msk_comps(b: &[u8]) -> Option<Vec<Comp>> {
    let (t, e) = vector(b, 0, 32)?;
    let mut v: Vec<Comp> = t.into_iter().enumerate().map(|(i, x)| ("scalar".into(), format!("secret of value {i} of a master key"), x)).collect();
    v.push(("scalar".into(), "master secret".into(), b.get(e..e + 32)?.to_vec()));
    Some(v)
}
/// the rows of a user key that are not determined by the master key alone
fn key_comps(b: &[u8]) -> Option<Vec<Comp>> {
    let (d, e) = vector(b, 0, 96)?;
    let (rows, cols) = (num(b, e)?, num(b, e + 4)?);
    let m = b.get(e + 8 + 4 * rows..)?;
    let mut v = vec![];
    for (i, x) in d.into_iter().enumerate() {
        let row: Vec<&[u8]> = (0..cols).map(|c| m.get((i * cols + c) * 32..(i * cols + c + 1) * 32)).collect::<Option<_>>()?;
        if row.iter().any(|x| *x != row[0]) {
            v.push(("key".into(), format!("row {i} of a user key"), x));
        }
    }
    Some(v)
}
fn header_comps(sk: &[u8], h: &[u8], meta: bool) -> Option<Vec<Comp>> {
    let l = num(h, 0)?;
    let n = num(h, 4)?;
    let (e, at) = vector(h, 8 + 4 * n, 48)?;
    let mut v: Vec<Comp> = vec![("sym".into(), "symmetric key".into(), sk.to_vec())];
    for (i, x) in e.into_iter().enumerate() {
        v.push(("point".into(), format!("element {i} of a ciphertext"), x));
    }
    v.push(("mask".into(), "masked key of a ciphertext".into(), h.get(at..at + 288)?.to_vec()));
    if meta {
        v.push(("nonce".into(), "nonce of a header".into(), h.get(4 + l..4 + l + 12)?.to_vec()));
    }
    Some(v)
}

impl Ctx {
    fn new(c: &Case) -> Result<Ctx, String> {
        let f = fixture::fx();
        let s = |e: Er| format!("{e:?}");
        let mut back: Box<dyn Back> = match c.back {
            0 => Box::new(Core::<cosmian_abe_gpsw::core::gpsw::Gpsw<cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381>>::new("core")),
            n => Box::new(Native::new(n == 2)),
        };
        let pol = policy(4);
        let json = pol.json();
        entropy::begin(crate::rng::mix(c.seed ^ 1));
        let m = back.master(&json).map_err(s)?;
        entropy::begin(crate::rng::mix(c.seed ^ 2));
        let parent = back.user_key(&m.msk, &formulas()[0], &json).map_err(s)?;
        Ok(Ctx { back, pol, json, msk: m.msk, mpk: m.mpk, mdk: m.mdk.unwrap_or_default(), parent, sk: f.blks[0].sk.clone() })
    }
    fn attrs(&self, bits: u8) -> Vec<String> {
        self.pol.attrs().into_iter().enumerate().filter(|(i, _)| bits >> i & 1 == 1).map(|x| x.1).collect()
    }
    fn go(&mut self, op: &Op) -> Result<Vec<Comp>, String> {
        let s = |e: Er| format!("{e:?}");
        let odd = || "malformed".to_string();
        let fs = formulas();
        match op {
            Op::Master(n) => msk_comps(&self.back.master(&policy(*n).json()).map_err(s)?.msk).ok_or_else(odd),
            Op::User(i) => key_comps(&self.back.user_key(&self.msk, &fs[*i as usize % fs.len()], &self.json).map_err(s)?).ok_or_else(odd),
            Op::Narrow(i) => {
                let f = i.map_or(F::All, |i| fs[i as usize % 4].clone());
                key_comps(&self.back.delegate(&self.mdk, &self.parent, &f, &self.json).map_err(s)?).ok_or_else(odd)
            }
            Op::Header(bits, uid, ad) => {
                let u: &[u8] = if *uid { b"resource" } else { b"" };
                let d: &[u8] = if *ad { b"additional" } else { b"" };
                let meta = if self.back.name().starts_with("native") || *uid || *ad { Some((u, d)) } else { None };
                let (k, h) = self.back.enc_header(&self.mpk, &self.json, &self.attrs(*bits), meta).map_err(s)?;
                header_comps(&k, &h, meta.is_some()).ok_or_else(odd)
            }
            Op::Block(u, n, l) => {
                let uid = vec![b'u'; *u as usize];
                let data = vec![b'd'; *l as usize];
                let b = self.back.enc_block(&self.sk, &uid, u64::from(*n), &data).map_err(s)?;
                Ok(vec![("nonce".into(), "nonce of a block".into(), b.get(..12).ok_or_else(odd)?.to_vec())])
            }
        }
    }
    /// the operation with entropy of its own
    fn run(&mut self, op: &Op, thread: bool, ent: impl Fn()) -> Res {
        let go = |c: &mut Ctx| {
            ent();
            let r = c.go(op);
            let (draws, bytes) = entropy::drawn();
            let mut o = Res { draws, bytes, fired: entropy::take_fired(), ..Default::default() };
            match r {
                Ok(v) => o.comps = v,
                Err(e) => o.err = Some(e),
            }
            o
        };
        if thread {
            struct P<T>(T);
            unsafe impl<T> Send for P<T> {}
            impl<T> P<T> {
                fn get(self) -> T {
                    self.0
                }
            }
            let p = P((self as *mut Ctx, &go as *const _));
            fn call<G: Fn(&mut Ctx) -> Res>(p: P<(*mut Ctx, *const G)>) -> Res {
                let (c, g) = p.get();
                unsafe { (*g)(&mut *c) }
            }
            // the caller waits: nothing is shared concurrently
            std::thread::scope(|s| s.spawn(move || call(p)).join()).unwrap_or_else(|_| Res { err: Some("panic".into()), ..Default::default() })
        } else {
            go(self)
        }
    }
}

enum Image {
    Done(Vec<Res>),
    /// the process ended without an answer
    Dead,
    Stuck,
}

/// runs `f` in a copy of this process
fn image(raw: bool, f: impl FnOnce() -> Vec<Res>) -> Image {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        let pid = if raw { crate::sys::raw(57, 0, 0, 0, 0, 0, 0) as i32 } else { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            for s in [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP] {
                libc::signal(s, libc::SIG_DFL);
            }
            std::panic::set_hook(Box::new(|_| {}));
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let b = serde_json::to_vec(&f()).unwrap();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(p[1], b[o..].as_ptr().cast(), b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut buf = vec![];
        let mut out = Image::Dead;
        loop {
            let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
            if libc::poll(&mut pf, 1, 20_000) == 0 {
                libc::kill(pid, libc::SIGKILL);
                out = Image::Stuck;
                break;
            }
            let mut b = [0u8; 16384];
            let n = libc::read(p[0], b.as_mut_ptr().cast(), b.len());
            if n <= 0 {
                if let Ok(r) = serde_json::from_slice(&buf) {
                    out = Image::Done(r);
                }
                break;
            }
            buf.extend(&b[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        out
    }
}

/// objects of one kind seen so far in this universe
#[derive(Default)]
struct Seen(BTreeMap<(String, Vec<u8>), String>);
impl Seen {
    fn add(&mut self, rep: &mut Report, who: &str, v: &[Comp]) {
        for (k, what, b) in v {
            let w = format!("{what} ({who})");
            if let Some(o) = self.0.insert((k.clone(), b.clone()), w.clone()) {
                rep.v("C12", &format!("repeated:{k}"), format!("{w} is the same as {o}"));
            }
        }
    }
}

impl Case {
    pub fn run(&self) -> Report {
        let mut rep = Report::default();
        crate::shm::note("*|fresh|setting up");
        let mut c = match Ctx::new(self) {
            Ok(c) => c,
            Err(_) => return rep,
        };
        let mut seen = Seen::default();
        for (i, s) in self.hist.iter().enumerate() {
            crate::shm::note("C12|history|an operation with failing or ordinary entropy");
            let seed = crate::rng::mix(self.seed ^ 0x4157) ^ i as u64;
            let r = c.run(&s.op, s.thread, || {
                entropy::begin(seed);
                if let Some(k) = s.fail {
                    entropy::set_faults((k..k + 64).map(|i| (i, Fault::Fail(5))).collect());
                }
            });
            rep.ev(&format!("hist {:?} {:?} draws {} bytes {}", s.op, r.err.is_some(), r.draws, r.bytes));
            for (k, n) in ["fault.entropy_eintr", "fault.entropy_short", "fault.entropy_failed"].iter().zip(r.fired) {
                rep.inc(k, n);
            }
            rep.inc("fault.operation_in_other_thread", u64::from(s.thread));
            seen.add(&mut rep, &format!("operation {i} of the history"), &r.comps);
        }
        let clean = std::cell::Cell::new(false);
        let plan = |seed: u64, flip: Option<(usize, u8)>| {
            entropy::begin(seed);
            if clean.get() {
                return;
            }
            let mut f = self.faults.clone();
            if let Some((k, e, on)) = self.fail {
                f.extend((k..if on { k + 64 } else { k + 1 }).map(|i| (i, Fault::Fail(e))));
            }
            entropy::set_faults(f);
            entropy::set_flip(flip);
        };
        let s0 = crate::rng::mix(self.seed ^ 0xba5e);
        crate::shm::note("C12|operation|the operation under test");
        let mut exec = |seed: u64, flip: Option<(usize, u8)>| image(self.raw_fork, || vec![c.run(&self.op, self.thread, || plan(seed, flip))]);
        let one = |i: Image| match i {
            Image::Done(mut v) => v.pop(),
            _ => None,
        };
        let how = if self.fail.is_some() { "failing" } else if self.faults.is_empty() { "plain" } else { "short or interrupted" };
        let tag = format!("{:?}", self.op).split('(').next().unwrap_or("").to_string();
        rep.inc("fault.process_image_copied", 1);
        let base = exec(s0, None);
        // harmless faults must not make it fail
        let harmless = self.fail.is_none() && !self.faults.is_empty();
        let failed = match &base {
            Image::Done(v) => v[0].err.is_some(),
            _ => true,
        };
        if harmless && failed {
            clean.set(true);
            let works = one(exec(s0, None)).is_some_and(|r| r.err.is_none());
            clean.set(false);
            if works {
                rep.v("C12", "refused", format!("{:?} fails with {how} entropy", self.op));
            }
        }
        let base = match base {
            Image::Stuck => {
                rep.v("C12", "stuck", format!("{:?} does not end with {how} entropy", self.op));
                return rep;
            }
            Image::Dead => {
                rep.nontrivial = self.fail.is_some();
                rep.ev("no output: the process ended");
                rep.inc("outcome.aborted", 1);
                rep.inc("fault.entropy_failed", u64::from(self.fail.is_some()));
                rep.state(hash(format!("{tag} {} {how} dead", self.back).as_bytes()));
                return rep;
            }
            Image::Done(mut v) => v.pop().unwrap(),
        };
        for (k, n) in ["fault.entropy_eintr", "fault.entropy_short", "fault.entropy_failed"].iter().zip(base.fired) {
            rep.inc(k, n);
        }
        rep.ev(&format!("base {:?} draws {} bytes {} {:x}", base.err.is_some(), base.draws, base.bytes, hash(format!("{:?}", base.comps).as_bytes())));
        rep.nontrivial = true;
        rep.state(hash(format!("{tag} {} {how} {} {} {:?}", self.back, base.err.is_some(), self.thread, self.hist.len().min(4)).as_bytes()));
        if let Some(e) = &base.err {
            rep.inc("outcome.refused", 1);
            rep.ev(e);
            return rep;
        }
        rep.inc("outcome.output", 1);
        seen.add(&mut rep, "operation under test", &base.comps);
        // an output in spite of a failed draw: the entropy must have been asked for again
        if base.fired[2] > 0 {
            clean.set(true);
            let ok = one(exec(s0, None));
            clean.set(false);
            if let Some(ok) = ok.filter(|r| r.err.is_none() && base.bytes < r.bytes) {
                rep.v("C12", "unbacked", format!("{:?} gives an output with {} bytes of entropy although a draw failed ({} bytes when none fails)", self.op, base.bytes, ok.bytes));
                return rep;
            }
        }
        // the same image with other entropy, twice in a row
        for k in 0..2u64 {
            let s = crate::rng::mix(self.seed ^ 0x07e5) ^ k;
            if let Image::Done(v) = image(self.raw_fork, || {
                (0..2u64).map(|j| c.run(&self.op, self.thread, || plan(crate::rng::mix(s) ^ j, None))).collect()
            }) {
                for (j, r) in v.iter().enumerate() {
                    seen.add(&mut rep, &format!("operation {j} in copy {k} of the process"), &r.comps);
                }
            }
            rep.inc("fault.process_image_copied", 1);
        }
        let mut exec = |seed: u64, flip: Option<(usize, u8)>| image(self.raw_fork, || vec![c.run(&self.op, self.thread, || plan(seed, flip))]);
        // which drawn bytes does each component depend on?
        let n = base.bytes.min(384);
        let mut vals: Vec<BTreeSet<Vec<u8>>> = vec![BTreeSet::new(); base.comps.len()];
        for o in 0..n {
            crate::shm::note("C12|operation|the operation under test with other entropy");
            let Some(r) = one(exec(s0, Some((o, self.mask)))) else { continue };
            for (i, x) in r.comps.iter().enumerate() {
                if let Some(b) = base.comps.get(i) {
                    if x.2 != b.2 {
                        vals[i].insert(x.2.clone());
                    }
                }
            }
        }
        rep.inc("fault.entropy_bit_altered", n as u64);
        rep.inc("fault.process_image_copied", n as u64);
        for (i, (kind, what, b)) in base.comps.iter().enumerate() {
            let need = b.len().min(16);
            let got = vals[i].len();
            rep.ev(&format!("{what} depends on {got} bytes"));
            rep.inc("components", 1);
            if got < need {
                rep.v(
                    "C12",
                    &format!("weak:{kind}"),
                    format!("{what} of {:?} takes {got} values when each of {n} drawn bytes is altered in turn (at least {need} needed; {how} entropy, {} operations before, raw fork {}, other thread {})", self.op, self.hist.len(), self.raw_fork, self.thread),
                );
                continue;
            }
            let wide = (0..b.len()).filter(|p| vals[i].iter().any(|v| v.get(*p) != b.get(*p))).count();
            if wide < need {
                rep.v("C12", &format!("narrow:{kind}"), format!("only {wide} of the {} bytes of {what} of {:?} are random", b.len(), self.op));
            }
        }
        rep
    }
    pub fn shrinks(&self) -> Vec<Case> {
        let mut v = vec![];
        if self.hist.len() > 1 {
            let mut c = self.clone();
            c.hist.clear();
            v.push(c);
        }
        for i in 0..self.hist.len() {
            let mut c = self.clone();
            c.hist.remove(i);
            v.push(c);
        }
        if !self.faults.is_empty() {
            let mut c = self.clone();
            c.faults.clear();
            v.push(c);
            for i in 0..self.faults.len().min(6) {
                let mut c = self.clone();
                c.faults.remove(i);
                v.push(c);
            }
        }
        if self.fail.is_some() {
            let mut c = self.clone();
            c.fail = None;
            v.push(c);
        }
        if self.thread {
            let mut c = self.clone();
            c.thread = false;
            v.push(c);
        }
        if self.raw_fork {
            let mut c = self.clone();
            c.raw_fork = false;
            v.push(c);
        }
        for i in 0..self.hist.len() {
            if self.hist[i].thread || self.hist[i].fail.is_some() {
                let mut c = self.clone();
                c.hist[i].thread = false;
                c.hist[i].fail = None;
                v.push(c);
            }
        }
        v
    }
    pub fn size(&self) -> usize {
        1 + self.hist.len() + self.faults.len() + usize::from(self.fail.is_some())
    }
}
