//! Concurrent callers of the native interface: tasks calling the real
//! functions under the seeded scheduler, with faulted entropy, clock jumps,
//! damaged and hostile arguments; the recorded history is checked against the
//! reference model.
use crate::entropy::{self, Fault};
use crate::ffi::{self, In, Out, Ret};
use crate::fixture::{fx, opt, token, Fx, Hdr};
use crate::model::{self, Dmg, F};
use crate::report::Report;
use crate::rng::{hash, mix, Rng};
use crate::{alloc, sched, shm};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum H {
    Slot(u8),
    Raw(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum K {
    CreateEnc { slot: u8, auth: u8, ver: u8, mpk: u8 },
    DestroyEnc { h: H },
    Enc { h: Option<H>, auth: u8, ver: u8, mpk: u8, attrs: Vec<String>, uid: String, ad: String },
    CreateDec { slot: u8, key: u8 },
    DestroyDec { h: H },
    Dec { h: Option<H>, key: u8, hdr: u8 },
    EncB { hdr: u8, uid: String, n: i32, data: String },
    DecB { blk: u8, dn: i32 },
    GenM { auth: u8, ver: u8 },
    GenK { auth: u8, ver: u8, f: F },
    Rot { auth: u8, ver: u8, attrs: Vec<String> },
    HSize { hdr: u8 },
    Over,
    SetErr { msg: String },
    GetErr { cap: u16 },
    GetErrBad { null_ptr: bool, null_len: bool, n: i32 },
}

/// what is done to an input argument
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum M {
    Null,
    NullLen(i32),
    Zero,
    Neg(i32),
    Dmg(Dmg),
    Raw(String),
}
/// what is done to an output argument
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OM {
    Cap(u32),
    /// this many bytes less than needed
    Less(u32),
    NullPtr,
    NullLen,
    Bad(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: K,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub mods: Vec<(u8, M)>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub outs: Vec<(u8, OM)>,
    #[serde(default, skip_serializing_if = "is_false")]
    pub retry: bool,
    #[serde(default, skip_serializing_if = "is_false")]
    pub pair: bool,
    pub ent: u64,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub faults: Vec<(usize, Fault)>,
    /// seconds by which the clock jumps before the call (wall clock when negative)
    #[serde(default, skip_serializing_if = "is_zero")]
    pub jump: i64,
}
fn is_false(b: &bool) -> bool {
    !*b
}
fn is_zero(b: &i64) -> bool {
    *b == 0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub fx: u64,
    pub tasks: Vec<Vec<Op>>,
    pub sched: sched::Config,
    /// caches created before the tasks start
    #[serde(default)]
    pub warm: u32,
    /// re-run each task alone and compare
    #[serde(default)]
    pub solo: bool,
    /// writing to the standard error fails
    #[serde(default)]
    pub full: bool,
    /// instead of a concurrent run: repeat the first task this often, watching memory
    #[serde(default)]
    pub rounds: u32,
}

#[derive(Clone, Debug, PartialEq)]
enum Eff {
    Same,
    Absent,
    Bad,
    Changed(Vec<u8>),
}

struct Arg {
    name: &'static str,
    cstr: bool,
    optional: bool,
    base: Vec<u8>,
    other: Vec<u8>,
}

/// the input arguments of an operation
fn args(op: &Op, f: &Fx) -> Vec<Arg> {
    let pol = |a: u8, v: u8| -> Vec<u8> {
        let x = &f.auth[a as usize % f.auth.len()];
        x.json[v as usize % x.json.len()].clone().into_bytes()
    };
    let mpk = |a: u8| f.auth[a as usize % f.auth.len()].mpk.clone();
    let key = |k: u8| f.keys[k as usize % f.keys.len()].bytes.clone();
    let hdr = |k: u8| f.hdrs[k as usize % f.hdrs.len()].bytes.clone();
    let a = |name, cstr, optional, base: Vec<u8>, other: Vec<u8>| Arg { name, cstr, optional, base, other };
    match &op.k {
        K::CreateEnc { auth, ver, mpk: m, .. } => vec![
            a("policy", true, false, pol(*auth, *ver), pol(auth + 1, 0)),
            a("public key", false, false, mpk(*m), mpk(m + 1)),
        ],
        K::Enc { h, auth, ver, mpk: m, attrs, uid, ad } => {
            let mut v = vec![
                a("attributes", true, false, json!(attrs).to_string().into_bytes(), b"[\"L::lo\"]".to_vec()),
                a("uid", false, true, uid.clone().into_bytes(), vec![7; 9]),
                a("additional data", false, true, ad.clone().into_bytes(), vec![8; 9]),
            ];
            if h.is_none() {
                v.push(a("policy", true, false, pol(*auth, *ver), pol(auth + 1, 0)));
                v.push(a("public key", false, false, mpk(*m), mpk(m + 1)));
            }
            v
        }
        K::CreateDec { key: k, .. } => vec![a("user key", false, false, key(*k), key(k + 1))],
        K::Dec { h, key: k, hdr: e } => {
            let mut v = vec![a("header", false, false, hdr(*e), hdr(e + 1))];
            if h.is_none() {
                v.push(a("user key", false, false, key(*k), key(k + 1)));
            }
            v
        }
        K::EncB { hdr, uid, data, .. } => vec![
            a("symmetric key", false, false, f.hdrs[*hdr as usize % f.hdrs.len()].sk.clone(), f.hdrs[(*hdr as usize + 1) % f.hdrs.len()].sk.clone()),
            a("uid", false, true, uid.clone().into_bytes(), vec![7; 9]),
            a("data", false, false, data.clone().into_bytes(), vec![9; 30]),
        ],
        K::DecB { blk, .. } => {
            let b = &f.blks[*blk as usize % f.blks.len()];
            let o = &f.blks[(*blk as usize + 1) % f.blks.len()];
            vec![
                a("symmetric key", false, false, b.sk.clone(), o.sk.clone()),
                a("uid", false, true, b.uid.clone(), o.uid.clone()),
                a("block", false, false, b.bytes.clone(), o.bytes.clone()),
            ]
        }
        K::GenM { auth, ver } => vec![a("policy", true, false, pol(*auth, *ver), pol(auth + 1, 0))],
        K::GenK { auth, ver, f: acc } => vec![
            a("master key", false, false, f.auth[*auth as usize % f.auth.len()].msk.clone(), f.auth[(*auth as usize + 1) % f.auth.len()].msk.clone()),
            a("access policy", true, false, acc.json().to_string().into_bytes(), b"\"All\"".to_vec()),
            a("policy", true, false, pol(*auth, *ver), pol(auth + 1, 0)),
        ],
        K::Rot { auth, ver, attrs } => vec![
            a("attributes", true, false, json!(attrs).to_string().into_bytes(), b"[\"L::lo\"]".to_vec()),
            a("policy", true, false, pol(*auth, *ver), pol(auth + 1, 0)),
        ],
        K::HSize { hdr: e } => vec![a("header", false, false, hdr(*e), hdr(e + 1))],
        K::SetErr { msg } => vec![a("message", true, false, msg.clone().into_bytes(), vec![])],
        _ => vec![],
    }
}

fn input(arg: &Arg, m: Option<&M>) -> (In, Eff) {
    let base = || if arg.optional { opt(&arg.base) } else { In::Bytes(arg.base.clone()) };
    let chg = |v: Vec<u8>| {
        if v == arg.base {
            (base(), Eff::Same)
        } else if v.is_empty() {
            // an empty buffer
            (In::Len(vec![0], 0), if arg.optional { Eff::Absent } else { Eff::Bad })
        } else {
            (In::Bytes(v.clone()), Eff::Changed(v))
        }
    };
    match m {
        None => (base(), Eff::Same),
        Some(m) => {
            let absent = if arg.optional { Eff::Absent } else { Eff::Bad };
            if arg.cstr {
                return match m {
                    M::Null | M::NullLen(_) => (In::Null, absent),
                    M::Zero => (In::Bytes(vec![]), if arg.name == "message" { Eff::Changed(vec![]) } else { absent }),
                    M::Neg(_) => (base(), Eff::Same),
                    M::Raw(s) => {
                        let v: Vec<u8> = s.bytes().filter(|c| *c != 0).collect();
                        if v == arg.base { (base(), Eff::Same) } else { (In::Bytes(v.clone()), Eff::Changed(v)) }
                    }
                    M::Dmg(d) => {
                        let mut v = d.apply(&arg.base, &arg.other);
                        v.retain(|c| *c != 0);
                        if v == arg.base { (base(), Eff::Same) } else { (In::Bytes(v.clone()), Eff::Changed(v)) }
                    }
                };
            }
            match m {
                M::Null => (In::Null, absent),
                M::NullLen(n) => (In::NullLen(*n), absent),
                M::Zero => (In::Len(if arg.base.is_empty() { vec![0] } else { arg.base.clone() }, 0), absent),
                M::Neg(n) => (In::Len(if arg.base.is_empty() { vec![0] } else { arg.base.clone() }, (*n).min(-1)), absent),
                M::Raw(s) => chg(s.clone().into_bytes()),
                M::Dmg(d) => chg(d.apply(&arg.base, &arg.other)),
            }
        }
    }
}

/// names of the outputs and capacities that always suffice
fn outs(op: &Op, f: &Fx) -> Vec<(&'static str, usize, bool)> {
    match &op.k {
        K::Enc { .. } => vec![("symmetric key", 64, false), ("header", 6000, false)],
        K::Dec { hdr, .. } => {
            let n = f.hdrs[*hdr as usize % f.hdrs.len()].bytes.len();
            vec![("symmetric key", 64, false), ("uid", n + 64, true), ("additional data", n + 64, true)]
        }
        K::EncB { data, .. } => vec![("encrypted block", data.len() + 256, false)],
        K::DecB { blk, .. } => vec![("clear text", f.blks[*blk as usize % f.blks.len()].bytes.len() + 256, false)],
        K::GenM { .. } => vec![("master keys", 8000, false)],
        K::GenK { .. } => vec![("user key", 8000, false)],
        K::Rot { .. } => vec![("policy", 2000, false)],
        _ => vec![],
    }
}

/// what an op needs, for `Less`
fn needed(op: &Op, f: &Fx) -> Vec<usize> {
    match &op.k {
        K::Enc { attrs, uid, ad, .. } => vec![32, 4 + 4 + 4 * attrs.len() + 4 + 48 * attrs.len() + 288 + 12 + 4 + 4 + uid.len() + ad.len() + 16],
        K::Dec { hdr, .. } => {
            let h = &f.hdrs[*hdr as usize % f.hdrs.len()];
            vec![32, h.uid.len(), h.ad.len()]
        }
        K::EncB { data, .. } => vec![data.len() + 28],
        K::DecB { blk, .. } => vec![f.blks[*blk as usize % f.blks.len()].data.len()],
        K::GenM { auth, .. } => {
            let a = &f.auth[*auth as usize % f.auth.len()];
            vec![4 + a.msk.len() + a.mpk.len()]
        }
        K::GenK { auth, ver, f: acc } => {
            let a = &f.auth[*auth as usize % f.auth.len()];
            let mut l = vec![];
            if let Ok(b) = acc.compile(&a.pols[*ver as usize % a.pols.len()]) {
                b.leaves(&mut l);
            }
            vec![4 + 96 * l.len() + 8 + 4 * l.len() + 32 * l.len()]
        }
        K::Rot { auth, ver, .. } => {
            let a = &f.auth[*auth as usize % f.auth.len()];
            vec![a.json[*ver as usize % a.json.len()].len()]
        }
        _ => vec![],
    }
}

fn out_args(op: &Op, f: &Fx) -> Vec<Out> {
    let need = needed(op, f);
    outs(op, f)
        .iter()
        .enumerate()
        .map(|(i, (_, cap, _))| match op.outs.iter().find(|o| o.0 as usize == i).map(|o| &o.1) {
            None => Out::Cap(*cap),
            Some(OM::Cap(n)) => Out::Cap((*n as usize).max(1)),
            Some(OM::Less(n)) => Out::Cap(need[i].saturating_sub(*n as usize).max(1)),
            Some(OM::NullPtr) => Out::NullPtr,
            Some(OM::NullLen) => Out::NullLen,
            Some(OM::Bad(n)) => Out::BadLen((*n).min(0)),
        })
        .collect()
}

#[derive(Clone, Debug, Default)]
struct Rec {
    task: usize,
    idx: usize,
    call: u64,
    ret: u64,
    /// handle used or created
    handle: Option<i32>,
    r: Ret,
    /// capacities at the last attempt
    caps: Vec<Out>,
    tries: u32,
    /// every failed attempt before the last one reported a larger size
    pair: Option<Ret>,
    /// get_last_error: (whole buffer)
    text: Vec<u8>,
    /// text read right after the failure (only in a solo run)
    fail_text: Option<String>,
    steps: u64,
    created_by: Option<(usize, usize)>,
}

#[derive(Clone, Copy)]
struct Slot {
    h: i32,
    by: (usize, usize),
}
type Slots = Arc<Mutex<BTreeMap<(bool, u8), Slot>>>;

fn kind(k: &K) -> &'static str {
    match k {
        K::CreateEnc { .. } => "create_encryption_cache",
        K::DestroyEnc { .. } => "destroy_encryption_cache",
        K::Enc { h: None, .. } => "encrypt_header",
        K::Enc { .. } => "encrypt_header_using_cache",
        K::CreateDec { .. } => "create_decryption_cache",
        K::DestroyDec { .. } => "destroy_decryption_cache",
        K::Dec { h: None, .. } => "decrypt_header",
        K::Dec { .. } => "decrypt_header_using_cache",
        K::EncB { .. } => "encrypt_block",
        K::DecB { .. } => "decrypt_block",
        K::GenM { .. } => "generate_master_keys",
        K::GenK { .. } => "generate_user_private_key",
        K::Rot { .. } => "rotate_attributes",
        K::HSize { .. } => "get_encrypted_header_size",
        K::Over => "symmetric_encryption_overhead",
        K::SetErr { .. } => "set_error",
        K::GetErr { .. } | K::GetErrBad { .. } => "get_last_error",
    }
}

/// properties a crash of this call would break
fn crash_props(op: &Op, f: &Fx) -> String {
    let mut p = vec!["C13", "C14", "C15"];
    let mut plain = true;
    let a = args(op, f);
    for (i, m) in &op.mods {
        plain = false;
        match m {
            M::Dmg(_) => p.extend(["C06", "C16"]),
            M::Raw(_) => p.extend(["C16", "C06"]),
            _ => p.push("C16"),
        }
        if matches!(m, M::Zero | M::Neg(_) | M::NullLen(_)) {
            p.push("C11");
        }
        if a.get(*i as usize).is_some_and(|a| a.name == "user key" || a.name == "header") {
            p.push("C06");
        }
    }
    for (_, o) in &op.outs {
        plain = false;
        p.push("C11");
        if matches!(o, OM::NullPtr | OM::NullLen | OM::Bad(_)) {
            p.push("C16");
        }
    }
    if matches!(op.k, K::GetErr { .. } | K::GetErrBad { .. } | K::SetErr { .. }) {
        p.push("C10");
    }
    match &op.k {
        K::Enc { h: Some(_), .. } | K::Dec { h: Some(_), .. } | K::DestroyEnc { .. } | K::DestroyDec { .. } => p.extend(["C08", "C09"]),
        K::CreateEnc { .. } | K::CreateDec { .. } => p.push("C08"),
        K::EncB { .. } | K::DecB { .. } => p.push("C07"),
        _ => {}
    }
    if plain {
        p.extend(["C02", "C10", "C11", "C16", "C06"]);
    }
    p.join(" ")
}

fn exec(op: &Op, task: usize, idx: usize, f: &Fx, slots: &Slots, solo: bool) -> Rec {
    let mut rec = Rec { task, idx, ..Default::default() };
    let a = args(op, f);
    let ins: Vec<In> = a.iter().enumerate().map(|(i, x)| input(x, op.mods.iter().find(|m| m.0 as usize == i).map(|m| &m.1)).0).collect();
    let mut caps = out_args(op, f);
    shm::note(&format!("{}|{}|task {task} op {idx}", crash_props(op, f), kind(&op.k)));
    if op.jump > 0 {
        sched::advance(op.jump as u64 * 1_000_000_000);
    } else if op.jump < 0 {
        sched::jump_realtime(op.jump * 1_000_000_000);
    }
    let look = |enc: bool, h: &H| -> (i32, Option<(usize, usize)>) {
        match h {
            H::Raw(x) => (*x, None),
            H::Slot(s) => slots.lock().unwrap().get(&(enc, *s)).map_or((-77, None), |s| (s.h, Some(s.by))),
        }
    };
    let s0 = sched::task_steps();
    let mut tries = 0;
    loop {
        tries += 1;
        entropy::begin(mix(op.ent ^ mix(tries)));
        entropy::set_faults(op.faults.clone());
        rec.call = sched::stamp();
        let mut r;
        match &op.k {
            K::CreateEnc { slot, .. } => {
                let (x, h) = ffi::create_encryption_cache(op.outs.iter().any(|o| o.1 == OM::NullPtr), &ins[0], &ins[1]);
                rec.ret = sched::stamp();
                if x.rc == 0 {
                    rec.handle = Some(h);
                    slots.lock().unwrap().insert((true, *slot), Slot { h, by: (task, idx) });
                }
                r = x;
            }
            K::CreateDec { slot, .. } => {
                let (x, h) = ffi::create_decryption_cache(op.outs.iter().any(|o| o.1 == OM::NullPtr), &ins[0]);
                rec.ret = sched::stamp();
                if x.rc == 0 {
                    rec.handle = Some(h);
                    slots.lock().unwrap().insert((false, *slot), Slot { h, by: (task, idx) });
                }
                r = x;
            }
            K::DestroyEnc { h } => {
                let (h, by) = look(true, h);
                rec.handle = Some(h);
                rec.created_by = by;
                r = Ret { rc: ffi::destroy_encryption_cache(h), ..Default::default() };
            }
            K::DestroyDec { h } => {
                let (h, by) = look(false, h);
                rec.handle = Some(h);
                rec.created_by = by;
                r = Ret { rc: ffi::destroy_decryption_cache(h), ..Default::default() };
            }
            K::Enc { h: Some(h), .. } => {
                let (h, by) = look(true, h);
                rec.handle = Some(h);
                rec.created_by = by;
                r = ffi::encrypt_header_cached(&caps[0], &caps[1], h, &ins[0], &ins[1], &ins[2]);
            }
            K::Enc { h: None, .. } => {
                r = ffi::encrypt_header(&caps[0], &caps[1], &ins[3], &ins[4], &ins[0], &ins[1], &ins[2]);
            }
            K::Dec { h: Some(h), .. } => {
                let (h, by) = look(false, h);
                rec.handle = Some(h);
                rec.created_by = by;
                r = ffi::decrypt_header_cached(&caps[0], &caps[1], &caps[2], &ins[0], h);
            }
            K::Dec { h: None, .. } => {
                r = ffi::decrypt_header(&caps[0], &caps[1], &caps[2], &ins[0], &ins[1]);
            }
            K::EncB { n, .. } => r = ffi::encrypt_block(&caps[0], &ins[0], &ins[1], *n, &ins[2]),
            K::DecB { blk, dn } => {
                let n = f.blks[*blk as usize % f.blks.len()].n.wrapping_add(*dn);
                r = ffi::decrypt_block(&caps[0], &ins[0], &ins[1], n, &ins[2]);
            }
            K::GenM { .. } => r = ffi::generate_master_keys(&caps[0], &ins[0]),
            K::GenK { .. } => r = ffi::generate_user_key(&caps[0], &ins[0], &ins[1], &ins[2]),
            K::Rot { .. } => r = ffi::rotate(&caps[0], &ins[0], &ins[1]),
            K::HSize { .. } => {
                // the size is the return value
                let n = ffi::header_size(&ins[0]);
                r = Ret { rc: i32::from(n <= 1), lens: vec![n], ..Default::default() };
            }
            K::Over => r = Ret { rc: 0, lens: vec![ffi::overhead()], ..Default::default() },
            K::SetErr { .. } => r = Ret { rc: ffi::set_error(&ins[0]), ..Default::default() },
            K::GetErr { cap } => {
                if solo {
                    r = Ret::default();
                } else {
                    let (rc, n, b, bad) = ffi::get_error((*cap as usize).max(1));
                    rec.text = b;
                    r = Ret { rc, lens: vec![n], bad, ..Default::default() };
                }
            }
            K::GetErrBad { null_ptr, null_len, n } => {
                let (rc, untouched) = ffi::get_error_raw(*null_ptr, *null_len, (*n).min(0));
                r = Ret { rc, ..Default::default() };
                if !untouched {
                    r.bad = Some("get_last_error wrote to the buffer although it failed".into());
                }
            }
        }
        if rec.ret < rec.call || rec.ret == 0 {
            rec.ret = sched::stamp();
        }
        let mut again = false;
        if r.rc != 0 && op.retry && tries < 6 && r.bad.is_none() {
            for (i, c) in caps.iter_mut().enumerate() {
                if let Out::Cap(n) = c {
                    if r.lens[i] > *n as i32 && r.lens[i] < 1 << 20 {
                        *n = r.lens[i] as usize;
                        again = true;
                    }
                }
            }
        }
        if !again {
            rec.r = r;
            break;
        }
        rec.ret = 0;
    }
    rec.tries = tries as u32;
    rec.steps = sched::task_steps() - s0;
    if solo && (rec.r.rc != 0 || matches!(op.k, K::SetErr { .. })) && !matches!(op.k, K::GetErrBad { .. }) {
        rec.fail_text = Some(ffi::error_text());
    }
    // the same call without the cache
    if op.pair {
        if let Some((t, i)) = rec.created_by {
            rec.pair = Some(PAIR.with(|p| {
                let p = p.borrow();
                let c = &p[t][i];
                let ca = args(c, f);
                let cin: Vec<In> = ca.iter().enumerate().map(|(i, x)| input(x, c.mods.iter().find(|m| m.0 as usize == i).map(|m| &m.1)).0).collect();
                entropy::begin(mix(op.ent ^ 0x9a1));
                match &op.k {
                    K::Enc { .. } => ffi::encrypt_header(&out_args(op, f)[0], &out_args(op, f)[1], &cin[0], &cin[1], &ins[0], &ins[1], &ins[2]),
                    _ => {
                        let o = out_args(op, f);
                        ffi::decrypt_header(&o[0], &o[1], &o[2], &ins[0], &cin[0])
                    }
                }
            }));
        }
    }
    rec.caps = caps;
    rec
}

thread_local! {
    static PAIR: std::cell::RefCell<Arc<Vec<Vec<Op>>>> = std::cell::RefCell::new(Arc::new(vec![]));
}

#[derive(Debug, Clone, PartialEq)]
enum Exp {
    Ok,
    Err,
    /// succeeds or fails, what it returns must be authentic
    Either,
}

struct Ck<'a> {
    f: &'a Fx,
    c: &'a Case,
    recs: &'a [Rec],
    /// caches created before the tasks started: is it a decryption cache, its handle
    warm: BTreeSet<(bool, i32)>,
    r: Report,
}

fn eff(op: &Op, f: &Fx) -> Vec<Eff> {
    args(op, f).iter().enumerate().map(|(i, x)| input(x, op.mods.iter().find(|m| m.0 as usize == i).map(|m| &m.1)).1).collect()
}

fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut d = false;
    for c in s.chars() {
        if c.is_ascii_digit() || (c == '-' && !d) {
            if !d {
                o.push('#');
            }
            d = true;
        } else {
            d = false;
            o.push(c);
        }
    }
    o
}

impl<'a> Ck<'a> {
    fn op(&self, r: &Rec) -> &'a Op {
        &self.c.tasks[r.task][r.idx]
    }
    fn what(&self, r: &Rec) -> String {
        let o = self.op(r);
        let mut s = format!("{o:?}");
        s.truncate(s.char_indices().nth(400).map_or(s.len(), |x| x.0));
        format!("task {} op {} [{}..{}] {} (handle {:?}) rc {}: {}", r.task, r.idx, r.call, r.ret, kind(&o.k), r.handle, r.r.rc, s)
    }

    /// outcome expected from the arguments alone, a handle being live
    fn expect(&self, r: &Rec, maker: Option<&Op>) -> Exp {
        let op = self.op(r);
        let f = self.f;
        let e = eff(op, f);
        let a = args(op, f);
        if a.iter().zip(&e).any(|(a, e)| !a.optional && *e == Eff::Bad) {
            return Exp::Err;
        }
        let o = outs(op, f);
        for (i, x) in &op.outs {
            match x {
                OM::NullPtr if matches!(op.k, K::CreateEnc { .. } | K::CreateDec { .. }) => return Exp::Err,
                OM::NullPtr | OM::NullLen | OM::Bad(_) => {
                    if o.get(*i as usize).is_some_and(|o| !o.2) {
                        return Exp::Err;
                    }
                }
                _ => {}
            }
        }
        let changed = |i: usize| matches!(e.get(i), Some(Eff::Changed(_)));
        match &op.k {
            K::CreateEnc { .. } | K::CreateDec { .. } => {
                if (0..a.len()).any(changed) {
                    Exp::Either
                } else {
                    Exp::Ok
                }
            }
            K::DestroyEnc { .. } | K::DestroyDec { .. } => Exp::Either,
            K::Enc { h, auth, ver, mpk, attrs, .. } => {
                let (au, v, m) = match (h, maker.map(|m| &m.k)) {
                    (Some(_), Some(K::CreateEnc { auth, ver, mpk, .. })) => {
                        if !maker.unwrap().mods.is_empty() {
                            return Exp::Either;
                        }
                        (*auth, *ver, *mpk)
                    }
                    (None, _) => (*auth, *ver, *mpk),
                    _ => return Exp::Either,
                };
                if (0..a.len()).any(|i| changed(i) && !a[i].optional) {
                    return Exp::Either;
                }
                let x = &f.auth[au as usize % f.auth.len()];
                let p = &x.pols[v as usize % x.pols.len()];
                let known = p.gamma(attrs);
                let mut s = attrs.clone();
                s.sort();
                s.dedup();
                match known {
                    None => Exp::Err,
                    Some(_) if s.len() != attrs.len() || s.is_empty() => Exp::Either,
                    Some(_) if m as usize % f.auth.len() != au as usize % f.auth.len() => Exp::Either,
                    Some(_) => Exp::Ok,
                }
            }
            K::Dec { h, key, hdr } => {
                let k = match (h, maker.map(|m| &m.k)) {
                    (Some(_), Some(K::CreateDec { key, .. })) => {
                        if !maker.unwrap().mods.is_empty() {
                            return Exp::Either;
                        }
                        *key
                    }
                    (None, _) => *key,
                    _ => return Exp::Either,
                };
                if (0..a.len()).any(changed) {
                    return Exp::Either;
                }
                let k = &f.keys[k as usize % f.keys.len()];
                let h = &f.hdrs[*hdr as usize % f.hdrs.len()];
                if k.auth == h.auth && k.b.opens(&h.gamma) {
                    Exp::Ok
                } else {
                    Exp::Err
                }
            }
            K::EncB { hdr, .. } => match &e[0] {
                Eff::Changed(v) if v.len() != f.hdrs[*hdr as usize % f.hdrs.len()].sk.len() => Exp::Either,
                _ => Exp::Ok,
            },
            K::DecB { .. } => {
                if self.genuine(op, &e).is_some() {
                    Exp::Ok
                } else {
                    Exp::Err
                }
            }
            K::GenM { .. } => {
                if changed(0) {
                    Exp::Either
                } else {
                    Exp::Ok
                }
            }
            K::GenK { auth, ver, f: acc } => {
                if (0..a.len()).any(changed) {
                    return Exp::Either;
                }
                let x = &f.auth[*auth as usize % f.auth.len()];
                match acc.compile(&x.pols[*ver as usize % x.pols.len()]) {
                    Err(_) => Exp::Err,
                    Ok(b) if b.dup() => Exp::Either,
                    Ok(_) => Exp::Ok,
                }
            }
            K::Rot { auth, ver, attrs } => {
                if (0..a.len()).any(changed) {
                    return Exp::Either;
                }
                let x = &f.auth[*auth as usize % f.auth.len()];
                let mut p = x.pols[*ver as usize % x.pols.len()].clone();
                if attrs.iter().all(|a| p.rotate(a)) {
                    Exp::Ok
                } else {
                    Exp::Err
                }
            }
            K::HSize { .. } if (0..a.len()).any(changed) => Exp::Either,
            K::HSize { .. } | K::Over | K::GetErr { .. } => Exp::Ok,
            K::SetErr { .. } => {
                if changed(0) {
                    Exp::Either
                } else {
                    Exp::Ok
                }
            }
            K::GetErrBad { .. } => Exp::Err,
        }
    }

    /// the block of the fixture that this call asks to decrypt, if it is one
    fn genuine(&self, op: &Op, e: &[Eff]) -> Option<&'a crate::fixture::Blk> {
        let K::DecB { blk, dn } = &op.k else { return None };
        let b = &self.f.blks[*blk as usize % self.f.blks.len()];
        let val = |i: usize, x: &Vec<u8>| match &e[i] {
            Eff::Same => x.clone(),
            Eff::Changed(v) => v.clone(),
            _ => vec![],
        };
        let (sk, uid, bytes, n) = (val(0, &b.sk), val(1, &b.uid), val(2, &b.bytes), b.n.wrapping_add(*dn));
        self.f.blks.iter().find(|x| x.sk == sk && x.uid == uid && x.bytes == bytes && x.n == n)
    }

    /// some output reported a size larger than its buffer
    fn too_small(r: &Rec) -> bool {
        r.r.rc != 0 && r.caps.iter().zip(&r.r.lens).any(|(c, n)| matches!(c, Out::Cap(k) if *n > *k as i32))
    }
    /// some buffer cannot hold what the call has to return
    fn must_be_small(&self, r: &Rec) -> bool {
        let op = self.op(r);
        let n = match &op.k {
            // sizes follow from the arguments only for these
            K::Dec { .. } | K::DecB { .. } => needed(op, self.f),
            _ => return false,
        };
        let skip_ok = matches!(op.k, K::Dec { .. });
        r.caps.iter().enumerate().any(|(i, c)| matches!(c, Out::Cap(k) if *k < n[i] && !(skip_ok && i > 0 && *k == 0)))
    }

    fn content(&mut self, r: &Rec, ret: &Ret, maker: Option<&Op>, tag: &str) {
        let op = self.op(r);
        let f = self.f;
        let e = eff(op, f);
        let w = self.what(r);
        match &op.k {
            K::Enc { h, auth, ver, mpk, attrs, uid, ad } => {
                let (au, v, m) = match (h, maker.map(|m| &m.k)) {
                    (Some(_), Some(K::CreateEnc { auth, ver, mpk, .. })) => {
                        if !maker.unwrap().mods.is_empty() {
                            return;
                        }
                        (*auth, *ver, *mpk)
                    }
                    _ => (*auth, *ver, *mpk),
                };
                let b: Vec<Arg> = args(op, f);
                if b.iter().zip(&e).any(|(a, e)| !a.optional && matches!(e, Eff::Changed(_))) {
                    return;
                }
                let x = &f.auth[au as usize % f.auth.len()];
                let p = &x.pols[v as usize % x.pols.len()];
                let Some(gamma) = p.gamma(attrs) else { return };
                let val = |i: usize, b: &String| match &e[i] {
                    Eff::Same => b.clone().into_bytes(),
                    Eff::Changed(v) => v.clone(),
                    _ => vec![],
                };
                let (uid, ad) = (val(1, uid), val(2, ad));
                let b = &ret.outs[1];
                let mut g: Vec<u32> = b
                    .get(8..8 + 4 * gamma.len())
                    .map_or(vec![], |x| x.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect());
                let mut want = gamma.clone();
                g.sort_unstable();
                want.sort_unstable();
                let cached = h.is_some();
                if g != want {
                    let t = if cached { "C08 C09 C14 C02 C13" } else { "C02 C14 C13" };
                    self.r.v(t, &format!("{tag}encrypted-for-other-attributes"), format!("header carries {g:?} instead of {want:?}: {w}"));
                    return;
                }
                if let Some(k) = f.opener(m as usize % f.auth.len(), &gamma) {
                    shm::note(&format!("C02 C05 C14|verify|decrypting the output of: {w}"));
                    let d = ffi::decrypt_header(&Out::Cap(64), &Out::Cap(b.len() + 64), &Out::Cap(b.len() + 64), &In::Bytes(b.clone()), &In::Bytes(k.bytes.clone()));
                    let t = if cached { "C08 C09 C14 C02 C13" } else { "C02 C14 C13" };
                    if d.rc != 0 {
                        self.r.v(t, &format!("{tag}encrypted-header-unreadable"), format!("{} : {w}", ffi::error_text()));
                    } else if d.outs[0] != ret.outs[0] || d.outs[1] != uid || d.outs[2] != ad {
                        self.r.v(t, &format!("{tag}encrypted-header-wrong"), format!("decrypts to key equal {}, uid {:?}, data {:?}: {w}", d.outs[0] == ret.outs[0], String::from_utf8_lossy(&d.outs[1]), String::from_utf8_lossy(&d.outs[2])));
                    }
                }
            }
            K::Dec { h, hdr, .. } => {
                let hd = &f.hdrs[*hdr as usize % f.hdrs.len()];
                let got = |i: usize| -> Option<&Vec<u8>> {
                    match r.caps[i] {
                        Out::Cap(n) if n > 0 => Some(&ret.outs[i]),
                        _ => None,
                    }
                };
                let full = got(0).is_none_or(|x| *x == hd.sk) && got(1).is_none_or(|x| *x == hd.uid) && got(2).is_none_or(|x| *x == hd.ad);
                // a header with nothing left after the key encapsulation reads as one
                // without metadata; such a header is not authenticated, so a key of
                // another authority yields an unrelated content key
                let user = match (h, maker) {
                    (Some(_), Some(Op { k: K::CreateDec { key, .. }, mods, .. })) if mods.is_empty() => Some(*key),
                    (None, _) => match e.get(1) {
                        Some(Eff::Same) => match &op.k {
                            K::Dec { key, .. } => Some(*key),
                            _ => None,
                        },
                        _ => None,
                    },
                    _ => None,
                }
                .map(|k| &f.keys[k as usize % f.keys.len()]);
                let cut = match &e[0] {
                    Eff::Changed(b) if model::encaps_end(b) == b.len() => {
                        let mine = user.is_some_and(|k| k.auth == hd.auth);
                        got(0).is_none_or(|x| (*x == hd.sk) == mine || user.is_none()) && got(1).is_none_or(|x| x.is_empty()) && got(2).is_none_or(|x| x.is_empty())
                    }
                    _ => false,
                };
                // a header replaced by another valid one reads as that one
                let other = match &e[0] {
                    Eff::Changed(b) => f.hdrs.iter().find(|x| x.bytes == *b).is_some_and(|x| {
                        got(0).is_none_or(|y| *y == x.sk) && got(1).is_none_or(|y| *y == x.uid) && got(2).is_none_or(|y| *y == x.ad)
                    }),
                    _ => false,
                };
                let exp = self.expect(r, maker);
                if full && exp != Exp::Err || (exp == Exp::Either && (cut || other)) {
                    return;
                }
                let t = match (&exp, h.is_some()) {
                    (Exp::Err, true) => "C01 C08 C14 C13",
                    (Exp::Err, false) => "C01 C14 C13",
                    (Exp::Either, true) => "C06 C16 C09",
                    (Exp::Either, false) => "C06 C16",
                    (_, true) => "C02 C08 C09 C14 C13",
                    (_, false) => "C02 C14 C13",
                };
                let t = match exp {
                    // not even as long
                    Exp::Ok if [(1, &hd.uid), (2, &hd.ad)].iter().any(|(i, x)| got(*i).is_some_and(|y| y.len() != x.len())) => format!("{t} C11"),
                    _ => t.to_string(),
                };
                self.r.v(&t, &format!("{tag}decrypted-{}", if exp == Exp::Err { "unauthorised" } else { "wrong" }), format!("key equal {:?} uid {:?} data {:?} instead of {:?} {:?}: {w}", got(0).map(|x| *x == hd.sk), got(1).map(|x| String::from_utf8_lossy(x)), got(2).map(|x| String::from_utf8_lossy(x)), String::from_utf8_lossy(&hd.uid), String::from_utf8_lossy(&hd.ad)));
            }
            K::EncB { hdr, uid, n, data } => {
                let hd = &f.hdrs[*hdr as usize % f.hdrs.len()];
                let val = |i: usize, b: Vec<u8>| match &e[i] {
                    Eff::Same => b,
                    Eff::Changed(v) => v.clone(),
                    _ => vec![],
                };
                let (sk, uid, data) = (val(0, hd.sk.clone()), val(1, uid.clone().into_bytes()), val(2, data.clone().into_bytes()));
                if sk.len() != 32 {
                    return;
                }
                let b = In::Bytes(ret.outs[0].clone());
                shm::note(&format!("C02 C07|verify|decrypting the output of: {w}"));
                let d = ffi::decrypt_block(&Out::Cap(data.len() + 64), &In::Bytes(sk.clone()), &opt(&uid), *n, &b);
                if d.rc != 0 || d.outs[0] != data {
                    self.r.v("C02 C07 C14 C13", "block-unreadable", format!("{} : {w}", ffi::error_text()));
                }
                let d = ffi::decrypt_block(&Out::Cap(data.len() + 64), &In::Bytes(sk.clone()), &opt(&uid), n.wrapping_add(1), &b);
                let mut u2 = uid.clone();
                u2.push(b'x');
                let d2 = ffi::decrypt_block(&Out::Cap(data.len() + 64), &In::Bytes(sk.clone()), &opt(&u2), *n, &b);
                // places that look like this one
                let mut near = Rng::of(&[op.ent, 0x7eaf]);
                for _ in 0..6 {
                    let (u, m) = model::shifted(&mut near, &uid, *n as u64);
                    let m = m as i32;
                    if (m, &u) == (*n, &uid) || u.len() > 60_000 {
                        continue;
                    }
                    let d = ffi::decrypt_block(&Out::Cap(data.len() + 64), &In::Bytes(sk.clone()), &opt(&u), m, &b);
                    if d.rc == 0 {
                        self.r.v("C07 C06", "block-not-bound", format!("decrypts as block {m} of {:?} too: {w}", String::from_utf8_lossy(&u)));
                    }
                }
                let mut k2 = sk.clone();
                k2[5] ^= 1;
                let d3 = ffi::decrypt_block(&Out::Cap(data.len() + 64), &In::Bytes(k2), &opt(&uid), *n, &b);
                if d.rc == 0 || d2.rc == 0 || d3.rc == 0 {
                    self.r.v("C07 C06", "block-not-bound", format!("decrypts with another number {} uid {} key {}: {w}", d.rc == 0, d2.rc == 0, d3.rc == 0));
                }
                let _ = ffi::error_text();
                let over = ffi::overhead();
                if ret.outs[0].len() as i64 != data.len() as i64 + i64::from(over) {
                    self.r.v("C11", "overhead", format!("block of {} bytes for {} bytes of data, announced overhead {over}: {w}", ret.outs[0].len(), data.len()));
                }
            }
            K::DecB { .. } => {
                let changed = matches!(e[2], Eff::Changed(_));
                let Some(b) = self.genuine(op, &e) else {
                    self.r.v(if changed { "C06 C07" } else { "C07 C06" }, "block-accepted", format!("returned {:?}: {w}", String::from_utf8_lossy(&ret.outs[0])));
                    return;
                };
                if ret.outs[0] != b.data {
                    let t = if ret.outs[0].len() == b.data.len() { "C02 C07 C14 C13" } else { "C02 C07 C14 C13 C11" };
                    self.r.v(t, "block-wrong", format!("returned {:?}: {w}", String::from_utf8_lossy(&ret.outs[0])));
                }
            }
            K::GenM { auth, .. } => {
                if !op.mods.is_empty() {
                    return;
                }
                let x = &f.auth[*auth as usize % f.auth.len()];
                let n = ret.outs[0].len();
                if n != 4 + x.msk.len() + x.mpk.len() {
                    self.r.v("C14 C03", "master-keys-size", format!("{n} bytes: {w}"));
                    return;
                }
                if op.ent % 3 == 0 {
                    // the keys work
                    let l = u32::from_be_bytes(ret.outs[0][..4].try_into().unwrap()) as usize;
                    if 4 + l > n {
                        self.r.v("C14 C05", "master-keys-size", format!("bad length {l}: {w}"));
                        return;
                    }
                    let (msk, mpk) = (ret.outs[0][4..4 + l].to_vec(), ret.outs[0][4 + l..].to_vec());
                    let p = &x.pols[0];
                    let at = p.attrs()[0].clone();
                    shm::note(&format!("C02 C05|verify|using the output of: {w}"));
                    entropy::begin(op.ent ^ 55);
                    let k = ffi::generate_user_key(&Out::Cap(4000), &In::Bytes(msk), &In::Bytes(F::A(at.clone()).json().to_string().into_bytes()), &In::Bytes(x.json[0].clone().into_bytes()));
                    let h = ffi::encrypt_header(&Out::Cap(32), &Out::Cap(2000), &In::Bytes(x.json[0].clone().into_bytes()), &In::Bytes(mpk), &In::Bytes(json!([at]).to_string().into_bytes()), &In::Bytes(b"u".to_vec()), &In::Null);
                    let ok = k.rc == 0 && h.rc == 0 && {
                        let d = ffi::decrypt_header(&Out::Cap(32), &Out::Cap(50), &Out::Cap(50), &In::Bytes(h.outs[1].clone()), &In::Bytes(k.outs[0].clone()));
                        d.rc == 0 && d.outs[0] == h.outs[0] && d.outs[1] == b"u"
                    };
                    if !ok {
                        self.r.v("C02 C14", "master-keys-unusable", format!("{} : {w}", ffi::error_text()));
                    }
                }
            }
            K::GenK { auth, ver, f: acc } => {
                if !op.mods.is_empty() {
                    return;
                }
                let au = *auth as usize % f.auth.len();
                let x = &f.auth[au];
                let Ok(b) = acc.compile(&x.pols[*ver as usize % x.pols.len()]) else { return };
                let mut hs: Vec<&crate::fixture::Hdr> = f.hdrs.iter().filter(|h| h.auth == au).collect();
                let rot = (op.ent % hs.len() as u64) as usize;
                hs.rotate_left(rot);
                let yes = hs.iter().find(|h| b.opens(&h.gamma));
                let no = hs.iter().find(|h| !b.opens(&h.gamma));
                for (h, want) in [(yes, true), (no, false)] {
                    let Some(h) = h else { continue };
                    shm::note(&format!("C02 C05|verify|using the output of: {w}"));
                    let d = ffi::decrypt_header(&Out::Cap(64), &Out::Cap(400), &Out::Cap(400), &In::Bytes(h.bytes.clone()), &In::Bytes(ret.outs[0].clone()));
                    let good = d.rc == 0 && d.outs[0] == h.sk && d.outs[1] == h.uid && d.outs[2] == h.ad;
                    if want && !good {
                        self.r.v("C02 C14 C13", "issued-key-unusable", format!("{} : {w}", ffi::error_text()));
                    }
                    if !want && (d.rc == 0) {
                        self.r.v("C01 C14", "issued-key-opens-too-much", w.clone());
                    }
                }
                let _ = ffi::error_text();
            }
            K::Rot { auth, ver, attrs } => {
                if !op.mods.is_empty() {
                    return;
                }
                let x = &f.auth[*auth as usize % f.auth.len()];
                let mut p = x.pols[*ver as usize % x.pols.len()].clone();
                attrs.iter().for_each(|a| {
                    p.rotate(a);
                });
                if let Err(m) = p.same_as_json(&ret.outs[0]) {
                    self.r.v("C03 C14", "rotated-policy-wrong", format!("{m}: {w}"));
                }
            }
            _ => {}
        }
    }

    fn registry(&mut self, enc: bool) {
        let recs = self.recs;
        let mut by: BTreeMap<i32, Vec<&Rec>> = BTreeMap::new();
        for r in recs {
            let k = &self.op(r).k;
            let mine = match k {
                K::CreateEnc { .. } | K::DestroyEnc { .. } | K::Enc { h: Some(_), .. } => enc,
                K::CreateDec { .. } | K::DestroyDec { .. } | K::Dec { h: Some(_), .. } => !enc,
                _ => continue,
            };
            if !mine {
                continue;
            }
            if let Some(h) = r.handle {
                by.entry(h).or_default().push(r);
            }
        }
        for (h, rs) in by {
            if self.warm.contains(&(!enc, h)) && !rs.iter().any(|r| matches!(self.op(r).k, K::CreateEnc { .. } | K::CreateDec { .. })) {
                continue;
            }
            let creates: Vec<&&Rec> = rs.iter().filter(|r| matches!(self.op(r).k, K::CreateEnc { .. } | K::CreateDec { .. })).collect();
            if creates.len() > 1 {
                let m = creates.iter().map(|r| self.what(r)).collect::<Vec<_>>().join("; ");
                self.r.v("C08 C14", "handle-given-twice", format!("handle {h}: {m}"));
                continue;
            }
            let maker = creates.first().map(|r| self.op(r));
            let uses: Vec<&&Rec> = rs.iter().filter(|r| matches!(self.op(r).k, K::Enc { .. } | K::Dec { .. })).collect();
            let destroys: Vec<&&Rec> = rs.iter().filter(|r| matches!(self.op(r).k, K::DestroyEnc { .. } | K::DestroyDec { .. })).collect();
            let mut good: Vec<&Rec> = vec![];
            let mut errs: Vec<&Rec> = vec![];
            for u in &uses {
                let exp = self.expect(u, maker);
                let found = u.r.rc == 0 || Self::too_small(u);
                if found && exp != Exp::Err {
                    good.push(u);
                } else if !found && exp == Exp::Ok {
                    errs.push(u);
                }
                if u.r.rc == 0 {
                    if maker.is_none() {
                        let m = self.what(u);
                        self.r.v("C08 C13", "unknown-handle-works", m);
                    } else {
                        let ret = u.r.clone();
                        self.content(u, &ret, maker, "");
                        if let Some(p) = &u.pair {
                            if p.rc == 0 {
                                let p = p.clone();
                                self.content(u, &p, maker, "one-shot-");
                            }
                        }
                    }
                }
            }
            let Some(c) = creates.first() else { continue };
            for u in &good {
                if u.ret < c.call {
                    let m = self.what(u);
                    self.r.v("C08", "handle-works-before-creation", m);
                }
            }
            // exists a destruction point d
            let mand: Vec<&&&Rec> = destroys.iter().filter(|d| d.call > c.ret).collect();
            let lo_ok = good.iter().map(|u| u.call).max().unwrap_or(0);
            let hi_err = errs.iter().filter(|u| u.call >= c.ret).map(|u| u.ret).min();
            // both forms of the operation agree while the cache surely lives
            for u in &uses {
                let Some(p) = &u.pair else { continue };
                let live = u.call >= c.ret && destroys.iter().all(|d| d.call > u.ret);
                if u.r.rc == 0 && u.tries == 1 && p.rc == 0 && matches!(self.op(u).k, K::Dec { .. }) {
                    self.r.inc("probe.pairs_opened", 1);
                    if u.r.outs.iter().any(|o| !o.is_empty()) && !self.op(u).outs.is_empty() {
                        self.r.inc("probe.pairs_opened_in_part", 1);
                    }
                }
                let small = Self::too_small(u);
                if (u.r.rc == 0 || small || live) && u.tries == 1 && (p.rc == 0) != (u.r.rc == 0) {
                    let m = format!("cached rc {} one-shot rc {}: {}", u.r.rc, p.rc, self.what(u));
                    self.r.v("C09", "cached-differs-from-one-shot", m);
                } else if u.tries == 1 && u.r.rc == 0 && p.rc == 0 && matches!(self.op(u).k, K::Dec { .. }) && u.r.outs != p.outs {
                    let m = format!("cached {:?} one-shot {:?}: {}", u.r.outs, p.outs, self.what(u));
                    self.r.v("C09", "cached-differs-from-one-shot", m);
                } else if u.tries == 1 && small && p.rc != 0 && u.r.lens != p.lens {
                    let m = format!("sizes: cached {:?} one-shot {:?}: {}", u.r.lens, p.lens, self.what(u));
                    self.r.v("C09 C11", "cached-differs-from-one-shot", m);
                }
            }
            if destroys.is_empty() {
                if let Some(u) = errs.iter().find(|u| u.call >= c.ret) {
                    let m = format!("{} ; created by {}", self.what(u), self.what(c));
                    self.r.v("C08 C14 C13 C15 C09", "live-handle-fails", m);
                }
                continue;
            }
            let lo = destroys.iter().map(|d| d.call).min().unwrap().max(lo_ok);
            let hi_mand = mand.iter().map(|d| d.ret).min().unwrap_or(u64::MAX);
            if lo_ok > hi_mand {
                let u = good.iter().max_by_key(|u| u.call).unwrap();
                let m = format!("{} after its destruction [..{hi_mand}]", self.what(u));
                self.r.v("C08", "destroyed-handle-works", m);
            } else if hi_err.is_some_and(|x| x < lo) || lo > hi_mand {
                let m = errs.iter().map(|u| self.what(u)).chain(good.iter().map(|u| self.what(u))).chain(destroys.iter().map(|u| self.what(u))).collect::<Vec<_>>().join("; ");
                let props = if errs.iter().any(|u| destroys.iter().all(|d| d.call > u.ret) && u.call >= c.ret) { "C08 C14 C13 C15 C09" } else { "C08" };
                self.r.v(props, "handle-history-not-atomic", format!("handle {h}: {m}"));
            }
        }
    }

    fn opens(x: &Hdr, h: i32) -> bool {
        let d = ffi::decrypt_header_cached(&Out::Cap(32), &Out::Cap(300), &Out::Cap(300), &In::Bytes(x.bytes.clone()), h);
        d.rc == 0 && d.outs[0] == x.sk && d.outs[1] == x.uid && d.outs[2] == x.ad
    }

    /// the caches made before the tasks started, and not destroyed by them, are as they were left
    fn kept(&mut self, kept: &BTreeMap<(bool, i32), bool>) {
        let gone: BTreeSet<(bool, i32)> = self
            .recs
            .iter()
            .filter_map(|r| match self.op(r).k {
                K::DestroyEnc { .. } => Some((false, r.handle?)),
                K::DestroyDec { .. } => Some((true, r.handle?)),
                _ => None,
            })
            .collect();
        // and those the tasks made and left
        for r in self.recs {
            let (Some(h), true, 0) = (r.handle, self.op(r).mods.is_empty(), r.r.rc) else { continue };
            let f = self.f;
            let (dec, ok) = match &self.op(r).k {
                K::CreateDec { key, .. } => {
                    let k = &f.keys[*key as usize % f.keys.len()];
                    let Some(x) = f.hdrs.iter().find(|x| x.auth == k.auth && k.b.opens(&x.gamma)) else { continue };
                    (true, gone.contains(&(true, h)) || Self::opens(x, h))
                }
                K::CreateEnc { auth, ver, mpk, .. } if auth == mpk => {
                    let x = &f.auth[*auth as usize % f.auth.len()];
                    let p = &x.pols[*ver as usize % x.pols.len()];
                    let a = vec![p.attrs()[0].clone()];
                    (false, gone.contains(&(false, h)) || ffi::encrypt_header_cached(&Out::Cap(32), &Out::Cap(1000), h, &In::Bytes(serde_json::to_vec(&a).unwrap()), &In::Null, &In::Null).rc == 0)
                }
                _ => continue,
            };
            self.r.inc("probe.handle_at_the_end", 1);
            if !ok {
                let m = format!("{} cache, handle {h}, never destroyed, at the end: {}", if dec { "decryption" } else { "encryption" }, self.what(r));
                self.r.v("C08 C14 C13 C15 C09", "live-handle-fails", m);
            }
        }
        let free: Vec<((bool, i32), bool)> = kept.iter().filter(|(k, _)| !gone.contains(k)).map(|(k, v)| (*k, *v)).collect();
        let mut r = Rng::of(&[self.c.sched.seed, self.c.fx, 0x6b65]);
        for dec in [true, false] {
            let of: Vec<(i32, bool)> = free.iter().filter(|x| x.0 .0 == dec).map(|x| (x.0 .1, x.1)).collect();
            if of.is_empty() {
                continue;
            }
            let n = of.len();
            let mut at = vec![0, 1 % n, n / 2, n - 1];
            for _ in 0..8 {
                at.push(r.below(n));
            }
            at.sort_unstable();
            at.dedup();
            for i in at {
                let (h, live) = of[i];
                let ok = if dec {
                    Self::opens(&self.f.hdrs[0], h)
                } else {
                    ffi::encrypt_header_cached(&Out::Cap(32), &Out::Cap(1000), h, &In::Bytes(b"[\"D::A\"]".to_vec()), &In::Null, &In::Null).rc == 0
                };
                self.r.inc("probe.old_handle", 1);
                let what = format!("{} cache {} of {n}, handle {h}", if dec { "decryption" } else { "encryption" }, i + 1);
                if live && !ok {
                    self.r.v("C08 C14 C13 C15 C09", "live-handle-fails", format!("{what}, made before the tasks and never destroyed"));
                } else if !live && ok {
                    self.r.v("C08", "destroyed-handle-works", format!("{what}, destroyed before the tasks"));
                }
            }
        }
    }

    fn each(&mut self) {
        let recs = self.recs;
        for r in recs {
            let op = self.op(r);
            let k = kind(&op.k);
            self.r.inc(&format!("op.{k}"), 1);
            if r.r.rc != 0 {
                self.r.inc("op.failed", 1);
            }
            if let Some(b) = &r.r.bad {
                let m = format!("{b}: {}", self.what(r));
                let t = if k == "get_last_error" { "C10 C11" } else { "C11 C13" };
                self.r.v(t, "buffer", m);
            }
            let cached = matches!(op.k, K::Enc { h: Some(_), .. } | K::Dec { h: Some(_), .. } | K::DestroyEnc { .. } | K::DestroyDec { .. });
            if cached {
                // checked by `registry`; whatever the handle, these must fail
                if self.expect(r, None) == Exp::Err && r.r.rc == 0 {
                    let m = self.what(r);
                    self.r.v("C16 C11", "invalid-call-succeeds", m);
                }
                if r.r.rc == 0 && self.must_be_small(r) {
                    let m = self.what(r);
                    self.r.v("C11", "small-buffer-accepted", m);
                }
                continue;
            }
            let exp = self.expect(r, None);
            if r.r.rc != 0 && exp == Exp::Ok && !Self::too_small(r) {
                let m = self.what(r);
                let small = op.outs.iter().any(|o| matches!(o.1, OM::Cap(_) | OM::Less(_)));
                if small {
                    self.r.v("C11 C13", "size-not-reported", format!("lengths {:?} buffers {:?}: {m}", r.r.lens, r.caps));
                } else {
                    self.r.v("C02 C10 C13 C14 C15 C16", "valid-call-fails", m);
                }
            }
            if r.r.rc != 0 && exp == Exp::Ok && Self::too_small(r) && op.retry {
                let m = self.what(r);
                self.r.v("C11 C13", "retry-fails", format!("after {} attempts, lengths {:?} buffers {:?}: {m}", r.tries, r.r.lens, r.caps));
            }
            // inputs made longer may need more than the buffer has
            let longer: usize = args(op, self.f).iter().zip(eff(op, self.f)).map(|(a, e)| if let Eff::Changed(v) = e { v.len().saturating_sub(a.base.len()) } else { 0 }).sum();
            let beyond = |(c, n): (&Out, &i32)| matches!(c, Out::Cap(k) if *n as i64 > (*k + longer) as i64);
            if r.r.rc != 0 && r.caps.iter().zip(&r.r.lens).any(beyond) && op.outs.is_empty() && exp == Exp::Ok {
                let m = self.what(r);
                self.r.v("C11 C14", "absurd-size", format!("lengths {:?} buffers {:?}: {m}", r.r.lens, r.caps));
            }
            if r.r.rc == 0 && self.must_be_small(r) && exp == Exp::Ok {
                let m = self.what(r);
                self.r.v("C11", "small-buffer-accepted", m);
            }
            if r.r.rc == 0 && exp == Exp::Err {
                match op.k {
                    K::Dec { .. } | K::DecB { .. } if eff(op, self.f).iter().all(|e| *e != Eff::Bad) && op.outs.iter().all(|o| matches!(o.1, OM::Cap(_) | OM::Less(_))) => {
                        let ret = r.r.clone();
                        self.content(r, &ret, None, "");
                    }
                    _ => {
                        let m = self.what(r);
                        self.r.v("C16 C11", "invalid-call-succeeds", m);
                    }
                }
                continue;
            }
            if r.r.rc == 0 {
                let ret = r.r.clone();
                self.content(r, &ret, None, "");
            }
            match &op.k {
                K::HSize { hdr } => {
                    let e = &eff(op, self.f)[0];
                    let h = &self.f.hdrs[*hdr as usize % self.f.hdrs.len()];
                    if *e == Eff::Same && r.r.lens[0] as usize + 4 != model::encaps_end(&h.bytes) {
                        let m = self.what(r);
                        self.r.v("C05 C14", "header-size", format!("{}: {m}", r.r.lens[0]));
                    }
                }
                _ => {}
            }
            self.leak(r);
        }
    }

    /// nothing secret of another call in this call's outputs
    fn leak(&mut self, r: &Rec) {
        let op = self.op(r);
        if matches!(op.k, K::Dec { .. } | K::DecB { .. }) && r.r.rc == 0 {
            return;
        }
        let mut hay: Vec<&[u8]> = r.r.raw.iter().map(|x| x.as_slice()).collect();
        hay.push(&r.text);
        if hay.iter().all(|h| h.is_empty()) {
            return;
        }
        let mine: Vec<u8> = args(op, self.f)
            .iter()
            .enumerate()
            .flat_map(|(i, a)| match eff(op, self.f).swap_remove(i) {
                Eff::Changed(v) => v,
                _ => a.base.clone(),
            })
            .collect();
        let contains = |h: &[u8], n: &[u8]| h.windows(n.len()).any(|w| w == n);
        let mut toks: Vec<(Vec<u8>, String)> = vec![];
        for (t, ops) in self.c.tasks.iter().enumerate() {
            for (i, o) in ops.iter().enumerate() {
                if (t, i) == (r.task, r.idx) {
                    continue;
                }
                // the error text of a task may describe any of its earlier failures
                if !r.text.is_empty() && t == r.task {
                    continue;
                }
                let s: Vec<&String> = match &o.k {
                    K::Enc { uid, ad, attrs, .. } => attrs.iter().filter(|a| a.len() > 8).chain([uid, ad]).collect(),
                    K::EncB { uid, data, .. } => vec![uid, data],
                    K::SetErr { msg } => vec![msg],
                    _ => vec![],
                };
                for x in s {
                    // long enough to be the only one of its kind
                    if x.chars().filter(char::is_ascii).count() >= 8 {
                        toks.push((x.clone().into_bytes(), format!("task {t} op {i}")));
                    }
                }
            }
        }
        if !matches!(op.k, K::Dec { .. } | K::DecB { .. }) {
            for (i, h) in self.f.hdrs.iter().enumerate() {
                for x in [&h.sk, &h.uid, &h.ad] {
                    if x.len() >= 8 {
                        toks.push((x.clone(), format!("header {i}")));
                    }
                }
            }
            for (i, h) in self.f.blks.iter().enumerate() {
                if h.data.len() >= 8 {
                    toks.push((h.data.clone(), format!("block {i}")));
                }
            }
        }
        for r2 in self.recs {
            if (r2.task, r2.idx) != (r.task, r.idx) && r2.r.rc == 0 && matches!(self.op(r2).k, K::Enc { .. }) {
                toks.push((r2.r.outs[0].clone(), format!("content key of task {} op {}", r2.task, r2.idx)));
            }
        }
        for (t, who) in toks {
            if t.len() >= 8 && !contains(&mine, &t) && hay.iter().any(|h| contains(h, &t)) {
                let m = format!("{who} appears in the output of {}", self.what(r));
                self.r.v("C14 C10", "leak", m);
                return;
            }
        }
    }

    /// the last-error model, per task; `solo` has the text each failure produces
    fn errors(&mut self, solo: &BTreeMap<(usize, usize), Rec>) {
        let recs = self.recs;
        for t in 0..self.c.tasks.len() {
            let mut rs: Vec<&Rec> = recs.iter().filter(|r| r.task == t).collect();
            rs.sort_by_key(|r| r.idx);
            // None: nothing pending; Some(None): unknown text; Some(Some(rec))
            let mut pending: Option<Option<&Rec>> = None;
            for r in rs {
                let op = self.op(r);
                match &op.k {
                    K::GetErr { cap } => {
                        let cap = (*cap as usize).max(1);
                        let n = r.r.lens[0];
                        let w = self.what(r);
                        if r.r.rc != 0 {
                            self.r.v("C10", "last-error-unreadable", w);
                            continue;
                        }
                        if n < 0 || n as usize >= cap || r.text[n as usize] != 0 {
                            self.r.v("C10 C11", "last-error-not-terminated", format!("length {n} in a buffer of {cap}: {w}"));
                            pending = None;
                            continue;
                        }
                        let got = String::from_utf8_lossy(&r.text[..n as usize]).into_owned();
                        self.r.inc("probe.error_read", 1);
                        match pending {
                            None => {
                                if !got.is_empty() {
                                    self.r.v("C10 C14", "stale-error", format!("{got:?} although nothing failed since: {w}"));
                                }
                            }
                            Some(None) => {}
                            Some(Some(p)) => {
                                if got.is_empty() && cap > 1 {
                                    self.r.v("C10", "error-lost", format!("no text after {}: {w}", self.what(p)));
                                }
                                if let K::SetErr { msg } = &self.op(p).k {
                                    if p.r.rc == 0 && self.op(p).mods.is_empty() && cap > msg.len() + 60 && !got.contains(msg.as_str()) {
                                        self.r.v("C10 C14", "error-wrong", format!("{got:?} instead of {msg:?}: {w}"));
                                    }
                                }
                                if let Some(full) = solo.get(&(p.task, p.idx)).and_then(|s| s.fail_text.as_ref()) {
                                    let (a, b) = (norm(&got), norm(full));
                                    // it may stop before a character that does not fit
                                    let cut = n as usize + 4 >= cap;
                                    let a2 = a.trim_end_matches(['#', '\u{fffd}']);
                                    if !(a == b || cut && b.starts_with(a2)) {
                                        self.r.v("C10 C14", "error-wrong", format!("{got:?} instead of {full:?}, the text of the most recent failure ({}): {w}", self.what(p)));
                                    }
                                    if !cut && a.len() < b.len() {
                                        self.r.v("C10", "error-truncated", format!("{got:?} instead of {full:?}: {w}"));
                                    }
                                    self.r.inc("probe.error_compared", 1);
                                }
                            }
                        }
                        pending = None;
                    }
                    K::GetErrBad { .. } => {
                        if pending.is_some() {
                            pending = Some(None);
                        } else {
                            pending = Some(None);
                        }
                    }
                    // the return value of these is not a status
                    K::HSize { .. } => {
                        if !op.mods.is_empty() {
                            pending = Some(None);
                        }
                    }
                    K::SetErr { .. } => pending = Some(if op.mods.is_empty() { Some(r) } else { None }),
                    _ => {
                        if op.pair || op.retry {
                            if r.tries > 1 || r.pair.is_some() {
                                // several calls were made
                                let failed_last = r.pair.as_ref().map_or(r.r.rc != 0, |p| p.rc != 0);
                                if failed_last || r.r.rc != 0 || r.tries > 1 {
                                    pending = Some(None);
                                }
                                continue;
                            }
                        }
                        if r.r.rc != 0 {
                            pending = Some(Some(r));
                        }
                    }
                }
            }
        }
    }

    fn compare_solo(&mut self, solo: &BTreeMap<(usize, usize), Rec>) {
        let recs = self.recs;
        for r in recs {
            let Some(s) = solo.get(&(r.task, r.idx)) else { continue };
            let op = self.op(r);
            if matches!(op.k, K::GetErr { .. } | K::DestroyEnc { .. } | K::DestroyDec { .. }) {
                continue;
            }
            self.r.inc("probe.compared_with_solo", 1);
            let fixed = matches!(op.k, K::Dec { .. } | K::DecB { .. } | K::HSize { .. } | K::Over | K::SetErr { .. });
            let same = r.r.rc == s.r.rc && (!fixed || r.r.outs == s.r.outs && (r.r.rc != 0 || r.r.lens == s.r.lens));
            if !same {
                let m = format!("alone: rc {} {:?}, here: rc {} {:?}: {}", s.r.rc, s.r.lens, r.r.rc, r.r.lens, self.what(r));
                self.r.v("C14 C13", "differs-from-solo", m);
            }
        }
    }
}

/// from here on nothing can be written to the standard error of this process
fn full_stderr() {
    unsafe {
        let fd = libc::open(c"/dev/full".as_ptr(), libc::O_WRONLY);
        if fd >= 0 {
            libc::dup2(fd, 2);
            libc::close(fd);
        }
    }
}

impl Case {
    pub fn size(&self) -> usize {
        self.tasks.iter().map(|t| t.len()).sum::<usize>() * 10
            + self.tasks.iter().flatten().map(|o| o.mods.len() + o.outs.len() + o.faults.len() + usize::from(o.retry) + usize::from(o.pair) + usize::from(o.jump != 0)).sum::<usize>()
            + match &self.sched.strategy {
                sched::Strategy::Replay(v) => v.len(),
                _ => 1000,
            }
    }

    pub fn run(&self) -> Report {
        sched::clock_on(1_000_000_000);
        // no input of a case is larger than 1 MiB
        crate::alloc::limit(32 << 20);
        if self.full {
            full_stderr();
        }
        if self.rounds > 0 {
            return self.leak_rounds();
        }
        let f = fx();
        let slots: Slots = Arc::new(Mutex::new(BTreeMap::new()));
        let all = Arc::new(self.tasks.clone());
        PAIR.with(|p| *p.borrow_mut() = all.clone());
        // (decryption cache, handle) -> still alive
        let mut kept: BTreeMap<(bool, i32), bool> = BTreeMap::new();
        let mut twice = None;
        let all_live = self.warm % 2 == 0;
        // most of a large number of caches hold the smallest key
        let small = f.keys.iter().min_by_key(|k| k.bytes.len()).unwrap();
        for i in 0..self.warm {
            entropy::begin(u64::from(i));
            shm::note("C08 C14 C15|warm-up|create_decryption_cache");
            let dec = i % 8 != 5 || i > 1000;
            let (r, h) = if dec {
                ffi::create_decryption_cache(false, &In::Bytes(if i > 200 { &small.bytes } else { &f.keys[0].bytes }.clone()))
            } else {
                ffi::create_encryption_cache(false, &In::Bytes(f.auth[0].json[0].clone().into_bytes()), &In::Bytes(f.auth[0].mpk.clone()))
            };
            if r.rc != 0 {
                continue;
            }
            if kept.insert((dec, h), true).is_some() {
                twice = Some(h);
            }
            if !all_live && i % 3 != 0 {
                if dec {
                    ffi::destroy_decryption_cache(h);
                } else {
                    ffi::destroy_encryption_cache(h);
                }
                kept.insert((dec, h), false);
            }
        }
        // handles destroyed once more, and numbers only known for the other kind: no effect
        let mut r = Rng::of(&[self.sched.seed, self.fx, 0xde5d]);
        for _ in 0..if self.warm > 0 { 4 + r.below(12) } else { 0 } {
            let (dec, h) = *r.pick(&kept.keys().copied().collect::<Vec<_>>());
            let at = match r.below(3) {
                0 if !kept[&(dec, h)] => (dec, h),
                1 if !kept.contains_key(&(!dec, h)) || !kept[&(!dec, h)] => (!dec, h),
                _ => continue,
            };
            if at.0 {
                ffi::destroy_decryption_cache(at.1);
            } else {
                ffi::destroy_encryption_cache(at.1);
            }
        }
        let warm: BTreeSet<(bool, i32)> = kept.keys().copied().collect();
        let recs: Arc<Mutex<Vec<Rec>>> = Arc::new(Mutex::new(vec![]));
        let fired = Arc::new(Mutex::new([0u64; 3]));
        let n = self.tasks.len();
        let mut ts: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..n {
            let (all, slots, recs, fired) = (all.clone(), slots.clone(), recs.clone(), fired.clone());
            ts.push(Box::new(move || {
                PAIR.with(|p| *p.borrow_mut() = all.clone());
                for (i, op) in all[t].iter().enumerate() {
                    let r = exec(op, t, i, fx(), &slots, false);
                    recs.lock().unwrap().push(r);
                }
                let x = entropy::take_fired();
                let mut g = fired.lock().unwrap();
                for i in 0..3 {
                    g[i] += x[i];
                }
                shm::note("C15 C13 C10|task-end|");
            }));
        }
        let out = sched::run(ts, &self.sched, 30_000_000);
        let recs = std::mem::take(&mut *recs.lock().unwrap());
        let mut ck = Ck { f, c: self, recs: &recs, warm, r: Report::default() };
        ck.r.switches = out.switches.clone();
        ck.r.spurious = out.spurious.clone();
        ck.r.sim_ns = sched::now();
        for (i, n) in ["eintr", "short_read", "entropy_failure"].iter().enumerate() {
            ck.r.inc(&format!("fault.{n}"), fired.lock().unwrap()[i]);
        }
        ck.r.inc("fault.stderr_full", u64::from(self.full));
        ck.r.inc("fault.preemption", out.preemptions);
        ck.r.inc("fault.stall", out.stalls);
        ck.r.inc("fault.spurious_wakeup", out.spurious.len() as u64);
        ck.r.inc("probe.futex_wait", out.futex_waits);
        ck.r.inc("probe.instrumented_steps", out.steps);
        for op in self.tasks.iter().flatten() {
            for (_, m) in &op.mods {
                ck.r.inc(match m { M::Dmg(_) => "fault.damaged_input", M::Raw(_) => "fault.hostile_input", _ => "fault.null_or_bad_length_input" }, 1);
            }
            ck.r.inc("fault.bad_output_buffer", op.outs.len() as u64);
            ck.r.inc("fault.clock_jump", u64::from(op.jump != 0));
        }
        let mut locks = "";
        if let Some(d) = &out.deadlock {
            ck.r.v("C15 C08 C13 C14", "deadlock", format!("{d}; {}", tasks_doing(self, &recs)));
            locks = "deadlock";
        }
        if out.livelock {
            ck.r.v("C15 C08 C13 C14", "livelock", format!("no end after {} steps; {}", out.steps, tasks_doing(self, &recs)));
            locks = "livelock";
        }
        let mut sorted: Vec<&Rec> = recs.iter().collect();
        sorted.sort_by_key(|r| (r.call, r.task));
        for r in &sorted {
            ck.r.ev(&format!("t{} o{} [{}..{}] {} h{:?} rc {} {:?} {:x} steps {}", r.task, r.idx, r.call, r.ret, kind(&ck.op(r).k), r.handle, r.r.rc, r.r.lens, hash(&r.r.outs.concat()) ^ hash(&r.text), r.steps));
        }
        // what overlapped with what
        for a in &recs {
            for b in &recs {
                if a.task < b.task && a.call < b.ret && b.call < a.ret {
                    let h = format!("{}{}{}{}{}", kind(&ck.op(a).k), kind(&ck.op(b).k), a.r.rc == 0, b.r.rc == 0, a.handle == b.handle);
                    ck.r.state(hash(h.as_bytes()));
                }
            }
        }
        ck.r.state(mix(out.trace_hash));
        ck.r.nontrivial = !recs.is_empty();
        if !locks.is_empty() {
            return ck.r;
        }
        entropy::begin(0xabc);
        ck.registry(true);
        ck.registry(false);
        ck.each();
        if let Some(h) = twice {
            ck.r.v("C08 C14", "handle-given-twice", format!("handle {h} while creating {} caches", self.warm));
        }
        ck.kept(&kept);
        let mut solo: BTreeMap<(usize, usize), Rec> = BTreeMap::new();
        if self.solo {
            for t in 0..n {
                let all = all.clone();
                let v: Vec<Rec> = std::thread::spawn(move || {
                    let slots: Slots = Arc::new(Mutex::new(BTreeMap::new()));
                    PAIR.with(|p| *p.borrow_mut() = all.clone());
                    all[t].iter().enumerate().map(|(i, op)| exec(op, t, i, fx(), &slots, true)).collect()
                })
                .join()
                .expect("solo run");
                for r in v {
                    solo.insert((r.task, r.idx), r);
                }
            }
            ck.compare_solo(&solo);
        }
        ck.errors(&solo);
        probes(&mut ck.r, f);
        ck.r
    }

    /// repeated calls must not grow the memory
    fn leak_rounds(&self) -> Report {
        let f = fx();
        let mut rep = Report::default();
        let all = Arc::new(self.tasks.clone());
        PAIR.with(|p| *p.borrow_mut() = all.clone());
        let slots: Slots = Arc::new(Mutex::new(BTreeMap::new()));
        let mut live: Vec<(i64, i64)> = Vec::with_capacity(self.rounds as usize + 1);
        let mut rcs: Vec<Vec<i32>> = vec![];
        for _ in 0..self.rounds {
            let mut rc = vec![];
            let mut made: Vec<(bool, i32)> = vec![];
            for (i, op) in self.tasks[0].iter().enumerate() {
                let r = exec(op, 0, i, f, &slots, false);
                rc.push(r.r.rc);
                match (&op.k, r.handle) {
                    (K::CreateEnc { .. }, Some(h)) => made.push((true, h)),
                    (K::CreateDec { .. }, Some(h)) => made.push((false, h)),
                    _ => {}
                }
                if let Some(b) = r.r.bad {
                    rep.v("C11 C13", "buffer", b);
                }
            }
            for (e, h) in made {
                shm::note("C08 C13|destroy|");
                if e {
                    ffi::destroy_encryption_cache(h);
                } else {
                    ffi::destroy_decryption_cache(h);
                }
            }
            slots.lock().unwrap().clear();
            let _ = ffi::error_text();
            rcs.push(rc);
            live.push(alloc::live());
            // what the simulator itself keeps per round
            let own = rcs.last().unwrap().capacity() as i64 * 4;
            live.last_mut().unwrap().0 -= own * live.len() as i64;
            let n = live.len() as i64;
            live.last_mut().unwrap().1 -= n;
        }
        let skip = self.rounds as usize / 3;
        let d: Vec<(i64, i64)> = live.windows(2).skip(skip).map(|w| (w[1].0 - w[0].0, w[1].1 - w[0].1)).collect();
        let (gb, gn) = (d.iter().filter(|x| x.0 > 0).count(), d.iter().filter(|x| x.1 > 0).count());
        let (first, last) = (live[skip], *live.last().unwrap());
        rep.ev(&format!("{rcs:?}"));
        rep.nontrivial = true;
        rep.inc("probe.leak_rounds", u64::from(self.rounds));
        rep.inc("op.failed", rcs.iter().flatten().filter(|x| **x != 0).count() as u64);
        let k: BTreeSet<&str> = self.tasks[0].iter().map(|o| kind(&o.k)).collect();
        for x in &k {
            rep.state(hash(x.as_bytes()));
            rep.inc(&format!("op.{x}"), u64::from(self.rounds));
        }
        let caches = self.tasks[0].iter().any(|o| matches!(o.k, K::CreateEnc { .. } | K::CreateDec { .. }));
        let failing: Vec<&str> = self.tasks[0].iter().enumerate().filter(|(i, _)| rcs[0][*i] != 0).map(|(_, o)| kind(&o.k)).collect();
        let many = d.len() * 3 / 4;
        if (gn >= many && last.1 > first.1) || (gb >= many && last.0 > first.0) {
            let t = if caches { "C13 C08" } else { "C13" };
            rep.v(t, "memory-grows", format!("live bytes {} -> {}, blocks {} -> {} over {} repetitions of {k:?} (failing: {failing:?})", first.0, last.0, first.1, last.1, d.len()));
        }
        for (i, op) in self.tasks[0].iter().enumerate() {
            if let Some(j) = (1..rcs.len()).find(|j| (rcs[*j][i] == 0) != (rcs[0][i] == 0)) {
                rep.v("C13 C14", "repetition-changes-outcome", format!("{} returns {} the first time and {} the {}th: {op:?}", kind(&op.k), rcs[0][i], rcs[j][i], j + 1));
            }
        }
        probes(&mut rep, f);
        rep
    }

    pub fn shrinks(&self, rep: &Report) -> Vec<Case> {
        let mut v = vec![];
        let explicit = matches!(self.sched.strategy, sched::Strategy::Replay(_));
        let seeds = |c: &Case, v: &mut Vec<Case>| {
            v.push(c.clone());
            if !explicit {
                for i in 0..4 {
                    let mut d = c.clone();
                    d.sched = sched::Config::random(&mut Rng::of(&[c.sched.seed, i]));
                    v.push(d);
                }
            }
        };
        if self.full {
            let mut c = self.clone();
            c.full = false;
            v.push(c);
        }
        if self.warm > 0 {
            let mut c = self.clone();
            c.warm = 0;
            v.push(c);
            let mut c = self.clone();
            c.warm /= 2;
            v.push(c);
        }
        // a serial schedule
        if !explicit {
            let mut c = self.clone();
            c.sched = sched::Config::serial(self.sched.seed);
            v.push(c);
        }
        // whole tasks, halves, single operations
        for t in 0..self.tasks.len() {
            if !self.tasks[t].is_empty() && self.tasks.len() > 1 {
                let mut c = self.clone();
                c.tasks[t].clear();
                seeds(&c, &mut v);
            }
        }
        for t in 0..self.tasks.len() {
            let n = self.tasks[t].len();
            if n > 3 {
                for (a, b) in [(0, n / 2), (n / 2, n)] {
                    let mut c = self.clone();
                    c.tasks[t].drain(a..b);
                    seeds(&c, &mut v);
                }
            }
        }
        for t in 0..self.tasks.len() {
            for i in 0..self.tasks[t].len() {
                let mut c = self.clone();
                c.tasks[t].remove(i);
                seeds(&c, &mut v);
            }
        }
        if self.rounds == 0 && !explicit {
            // fix the schedule that was taken
            let mut c = self.clone();
            c.sched = sched::Config { seed: self.sched.seed, strategy: sched::Strategy::Replay(rep.switches.clone()), spurious: 0.0, stall: 0.0, spurious_at: rep.spurious.clone() };
            v.push(c);
        }
        if let sched::Strategy::Replay(sw) = &self.sched.strategy {
            let mut k = sw.len() / 2;
            while k >= 1 {
                let mut i = 0;
                while i < sw.len() {
                    let mut c = self.clone();
                    let mut s = sw.clone();
                    s.drain(i..(i + k).min(s.len()));
                    c.sched.strategy = sched::Strategy::Replay(s);
                    v.push(c);
                    i += k;
                }
                k /= 2;
                if v.len() > 400 {
                    break;
                }
            }
            for i in 0..self.sched.spurious_at.len() {
                let mut c = self.clone();
                c.sched.spurious_at.remove(i);
                v.push(c);
            }
        }
        for t in 0..self.tasks.len() {
            for i in 0..self.tasks[t].len() {
                let o = &self.tasks[t][i];
                let mut put = |f: &dyn Fn(&mut Op)| {
                    let mut c = self.clone();
                    f(&mut c.tasks[t][i]);
                    if c != *self {
                        v.push(c);
                    }
                };
                if !o.faults.is_empty() {
                    put(&|o| o.faults.clear());
                }
                if o.jump != 0 {
                    put(&|o| o.jump = 0);
                }
                for j in 0..o.mods.len() {
                    put(&|o| {
                        o.mods.remove(j);
                    });
                }
                for j in 0..o.outs.len() {
                    put(&|o| {
                        o.outs.remove(j);
                    });
                }
                put(&|o| o.pair = false);
                put(&|o| o.retry = false);
            }
        }
        v
    }
}

fn tasks_doing(c: &Case, recs: &[Rec]) -> String {
    (0..c.tasks.len())
        .map(|t| {
            let n = recs.iter().filter(|r| r.task == t).count();
            match c.tasks[t].get(n) {
                Some(o) => format!("task {t} in op {n} {}", kind(&o.k)),
                None => format!("task {t} done"),
            }
        })
        .collect::<Vec<_>>()
        .join(", ")
}

/// afterwards everything still works
fn probes(rep: &mut Report, f: &Fx) {
    let _ = ffi::error_text();
    entropy::begin(0x9090);
    shm::note("C15 C13 C16 C08 C14|probe|afterwards");
    let (k, h) = (&f.keys[0], &f.hdrs[0]);
    let t = "C15 C13 C16 C14 C08";
    let (r, hd) = ffi::create_decryption_cache(false, &In::Bytes(k.bytes.clone()));
    let d = ffi::decrypt_header_cached(&Out::Cap(32), &Out::Cap(64), &Out::Cap(64), &In::Bytes(h.bytes.clone()), hd);
    if r.rc != 0 || d.rc != 0 || d.outs[0] != h.sk || d.outs[1] != h.uid || d.outs[2] != h.ad {
        rep.v(t, "unusable-afterwards", format!("decryption cache: create {} decrypt {} {}", r.rc, d.rc, ffi::error_text()));
    }
    ffi::destroy_decryption_cache(hd);
    let d = ffi::decrypt_header_cached(&Out::Cap(32), &Out::Cap(64), &Out::Cap(64), &In::Bytes(h.bytes.clone()), hd);
    if d.rc == 0 {
        rep.v("C08", "destroyed-handle-works", "probe after the run: a destroyed decryption cache still decrypts");
    }
    let (r, he) = ffi::create_encryption_cache(false, &In::Bytes(f.auth[0].json[0].clone().into_bytes()), &In::Bytes(f.auth[0].mpk.clone()));
    let e = ffi::encrypt_header_cached(&Out::Cap(32), &Out::Cap(1000), he, &In::Bytes(b"[\"D::A\"]".to_vec()), &In::Null, &In::Null);
    if r.rc != 0 || e.rc != 0 {
        rep.v(t, "unusable-afterwards", format!("encryption cache: create {} encrypt {} {}", r.rc, e.rc, ffi::error_text()));
    }
    ffi::destroy_encryption_cache(he);
    let e = ffi::encrypt_header_cached(&Out::Cap(32), &Out::Cap(1000), he, &In::Bytes(b"[\"D::A\"]".to_vec()), &In::Null, &In::Null);
    if e.rc == 0 {
        rep.v("C08", "destroyed-handle-works", "probe after the run: a destroyed encryption cache still encrypts");
    }
    let _ = ffi::error_text();
}

// ---------------------------------------------------------------- generation

pub struct Prof {
    tasks: (usize, usize),
    ops: (usize, usize),
    /// create, destroy, cached use, one-shot header, block, keys, misc, errors
    w: [u32; 8],
    enc_share: f64,
    p_mod: f64,
    /// weights: null-ish, damage, raw
    mod_w: [u32; 3],
    p_out: f64,
    out_w: [u32; 2],
    p_retry: f64,
    p_pair: f64,
    /// a call is followed by one that is almost the same
    p_twin: f64,
    private: bool,
    solo: f64,
    p_fault: f64,
    p_jump: f64,
    slots: usize,
    warm: f64,
    invalid: f64,
}

const BASE: Prof = Prof {
    tasks: (2, 4),
    ops: (2, 7),
    w: [3, 2, 6, 2, 2, 1, 1, 2],
    enc_share: 0.4,
    p_mod: 0.08,
    mod_w: [1, 1, 1],
    p_out: 0.05,
    out_w: [3, 1],
    p_retry: 0.5,
    p_pair: 0.0,
    p_twin: 0.08,
    private: false,
    solo: 0.2,
    p_fault: 0.05,
    p_jump: 0.1,
    slots: 3,
    warm: 0.05,
    invalid: 0.05,
};

pub fn prof(name: &str) -> Prof {
    match name {
        "native-registry" => Prof { w: [5, 4, 9, 0, 0, 0, 0, 0], p_mod: 0.03, p_out: 0.02, solo: 0.0, slots: 3, ..BASE },
        "native-lifetime" => Prof { tasks: (2, 3), ops: (2, 5), w: [4, 5, 8, 0, 0, 0, 0, 0], p_mod: 0.0, p_out: 0.0, solo: 0.0, slots: 1, invalid: 0.0, ..BASE },
        "native-pair" => Prof { tasks: (1, 3), w: [4, 1, 10, 0, 0, 0, 0, 0], p_pair: 0.9, p_twin: 0.3, p_mod: 0.2, mod_w: [1, 4, 1], p_out: 0.3, out_w: [3, 2], invalid: 0.15, solo: 0.0, ..BASE },
        "native-errors" => Prof { tasks: (2, 4), ops: (4, 12), w: [2, 1, 3, 1, 4, 3, 3, 13], p_mod: 0.45, mod_w: [3, 2, 3], p_out: 0.1, private: true, solo: 1.0, invalid: 0.4, p_retry: 0.1, ..BASE },
        "native-buffers" => Prof { tasks: (1, 2), w: [2, 1, 5, 5, 5, 3, 1, 1], p_out: 0.75, out_w: [5, 2], p_retry: 0.7, p_mod: 0.1, solo: 0.0, ..BASE },
        "native-invalid" => Prof { tasks: (1, 3), ops: (3, 10), w: [3, 1, 5, 5, 5, 3, 2, 1], p_mod: 0.7, mod_w: [4, 1, 4], p_out: 0.25, out_w: [1, 5], invalid: 0.5, solo: 0.0, ..BASE },
        "native-damage" => Prof { tasks: (1, 2), ops: (4, 12), w: [3, 1, 5, 6, 6, 2, 1, 0], p_mod: 0.8, mod_w: [0, 8, 1], solo: 0.0, ..BASE },
        "native-blocks" => Prof { tasks: (1, 3), ops: (4, 14), w: [0, 0, 0, 1, 20, 0, 0, 1], p_mod: 0.4, mod_w: [1, 4, 0], ..BASE },
        "native-solo" => Prof { tasks: (2, 4), w: [4, 1, 7, 4, 4, 2, 2, 3], private: true, solo: 1.0, p_mod: 0.2, p_twin: 0.2, ..BASE },
        "native-rotate" => Prof { tasks: (1, 3), ops: (4, 12), w: [0, 0, 0, 1, 0, 1, 12, 1], p_mod: 0.1, p_out: 0.1, ..BASE },
        "native-many" => Prof { tasks: (2, 2), ops: (3, 6), w: [4, 2, 8, 0, 0, 0, 0, 0], warm: 1.0, solo: 0.0, ..BASE },
        "native-repeat" => Prof { private: true, tasks: (1, 1), ops: (2, 6), w: [4, 2, 5, 2, 3, 2, 2, 2], p_mod: 0.5, mod_w: [2, 3, 2], p_out: 0.3, p_retry: 0.4, invalid: 0.3, p_fault: 0.0, p_jump: 0.0, ..BASE },
        _ => BASE,
    }
}

pub fn gen(profile: &str, seed: u64, fxs: u64) -> Case {
    let p = prof(profile);
    let r = &mut Rng::of(&[seed, 0x7a7]);
    let f = fx();
    let n = r.range(p.tasks.0, p.tasks.1);
    let mut tasks = vec![];
    let mut made = BTreeMap::new();
    for t in 0..n {
        let k = r.range(p.ops.0, p.ops.1);
        let mut ops = vec![];
        // most tasks start with a cache of their own
        let mut have = [vec![], vec![]];
        for i in 0..k {
            let mut c = r.weighted(&p.w);
            if i == 0 && p.w[0] > 0 && r.chance(0.7) {
                c = 0;
            }
            let op = gen_op(r, &p, f, t, c, &mut have, &mut made);
            let again = r.chance(if op.mods.is_empty() && op.outs.is_empty() { 0.05 } else { 0.45 });
            let e = if again {
                Some(echo(r, f, &op))
            } else if op.mods.is_empty() && r.chance(p.p_twin) {
                Some(twin(r, f, &op))
            } else {
                None
            };
            ops.push(op);
            ops.extend(e);
        }
        tasks.push(ops);
    }
    let mut sc = sched::Config::random(r);
    if n == 1 {
        sc = sched::Config::serial(seed);
    }
    let rounds = if profile == "native-repeat" { 15 } else { 0 };
    let warm = if r.chance(p.warm) {
        if profile == "native-many" {
            *r.pick(&[65, 130, 257, 260, 301, 520, 523, 1030, 1050, 1500, 2100, 2101, 4300, 4301, 8400, 8401])
        } else {
            r.range(1, 6) as u32
        }
    } else {
        0
    };
    Case { fx: fxs, tasks, sched: sc, warm, full: Rng::of(&[seed, 0x66756c6c]).chance(0.3), solo: rounds == 0 && r.chance(p.solo) && (p.private || p.w[0] + p.w[2] == 0), rounds }
}

/// the same call again without what was wrong with it, about other data
fn echo(r: &mut Rng, f: &Fx, op: &Op) -> Op {
    let tok = |r: &mut Rng, n: usize| String::from_utf8(token(r, n)).unwrap();
    let mut k = op.k.clone();
    match &mut k {
        K::Enc { uid, ad, .. } => {
            let (u, a) = (*r.pick(&[uid.len(), 8]), *r.pick(&[ad.len(), 10]));
            (*uid, *ad) = (tok(r, u), tok(r, a));
        }
        K::Dec { key, hdr, .. } => {
            let k = &f.keys[*key as usize % f.keys.len()];
            let yes: Vec<u8> = (0..f.hdrs.len()).filter(|i| f.hdrs[*i].auth == k.auth && k.b.opens(&f.hdrs[*i].gamma)).map(|i| i as u8).collect();
            if !yes.is_empty() {
                *hdr = *r.pick(&yes);
            }
        }
        K::EncB { data, .. } => *data = tok(r, data.len()),
        K::DecB { blk, dn } => (*blk, *dn) = (r.below(f.blks.len()) as u8, 0),
        _ => {}
    }
    Op { k, mods: vec![], outs: vec![], retry: false, pair: false, ent: r.next(), faults: vec![], jump: 0 }
}

/// the same call again, almost: part of one input changed, or another policy
fn twin(r: &mut Rng, f: &Fx, op: &Op) -> Op {
    let mut op = op.clone();
    op.ent = r.next();
    op.faults.clear();
    op.jump = 0;
    if r.chance(0.7) {
        op.outs.clear();
        op.retry = false;
    }
    let other = r.chance(0.4);
    if let (true, K::CreateEnc { auth, ver, .. } | K::Enc { auth, ver, .. } | K::GenM { auth, ver } | K::GenK { auth, ver, .. } | K::Rot { auth, ver, .. }) = (other, &mut op.k) {
        if r.chance(0.3) {
            *auth = r.below(f.auth.len()) as u8;
        }
        *ver = r.below(f.auth[*auth as usize].json.len()) as u8;
        return op;
    }
    let a = args(&op, f);
    let some: Vec<usize> = (0..a.len()).filter(|i| !a[*i].cstr && !a[*i].base.is_empty()).collect();
    if !some.is_empty() {
        let i = *r.pick(&some);
        let n = a[i].base.len();
        let at = if r.chance(0.6) { n - 1 - r.below(n.min(48)) } else { r.below(n) };
        let d = match r.below(5) {
            0 => Dmg::Cut(at as u32),
            1 => Dmg::Append(r.next() as u8),
            _ => Dmg::Flip(at as u32, r.below(8) as u8),
        };
        op.mods.push((i as u8, M::Dmg(d)));
    }
    op
}

fn handle(r: &mut Rng, p: &Prof, t: usize, have: &[u8]) -> H {
    if r.chance(0.06) {
        return H::Raw(*r.pick(&[-1, i32::MAX, i32::MIN, 1_000_000, 65_536, 77_777]));
    }
    if !p.private && r.chance(0.06) {
        return H::Raw(r.below(8) as i32);
    }
    if !have.is_empty() && r.chance(0.8) {
        return H::Slot(*r.pick(have));
    }
    H::Slot(slot(r, p, t))
}
fn slot(r: &mut Rng, p: &Prof, t: usize) -> u8 {
    let s = r.below(p.slots) as u8;
    if p.private {
        (t as u8) * 16 + s
    } else {
        s
    }
}

fn gen_op(r: &mut Rng, p: &Prof, f: &Fx, t: usize, class: usize, have: &mut [Vec<u8>; 2], made: &mut BTreeMap<(bool, u8), (u8, u8)>) -> Op {
    let tok = |r: &mut Rng, n: usize| String::from_utf8(token(r, n)).unwrap();
    let enc = r.chance(p.enc_share);
    let class = if class == 2 && p.w[0] > 0 && have[usize::from(enc)].is_empty() && r.chance(0.6) { 0 } else { class };
    let attrs = |r: &mut Rng, auth: u8, ver: u8| -> Vec<String> {
        let a = &f.auth[auth as usize];
        let mut v = a.pols[ver as usize].attrs();
        r.shuffle(&mut v);
        v.truncate(if r.chance(0.75) { 1 } else { 2 });
        if r.chance(p.invalid) {
            match r.below(4) {
                0 => v.push(format!("D::zz{}", tok(r, 8))),
                1 => v.push(v[0].clone()),
                2 => v.clear(),
                _ => v[0] = format!("Q{}::A", tok(r, 8)),
            }
        }
        v
    };
    let auth_ver = |r: &mut Rng| -> (u8, u8) {
        let a = r.weighted(&[5, 3, 2]) as u8;
        (a, r.below(f.auth[a as usize].json.len()) as u8)
    };
    // a header that this key opens, mostly
    let hdr_for = |r: &mut Rng, key: u8| -> u8 {
        let k = &f.keys[key as usize];
        let yes: Vec<u8> = (0..f.hdrs.len()).filter(|i| f.hdrs[*i].auth == k.auth && k.b.opens(&f.hdrs[*i].gamma)).map(|i| i as u8).collect();
        if yes.is_empty() || r.chance(0.2) {
            r.below(f.hdrs.len()) as u8
        } else {
            *r.pick(&yes)
        }
    };
    let meta = |r: &mut Rng| -> (String, String) {
        let u = *r.pick(&[0usize, 1, 8, 12, 16]);
        let a = *r.pick(&[0usize, 1, 10, 24, 200]);
        (tok(r, u), tok(r, a))
    };
    let k = match class {
        0 => {
            let s = slot(r, p, t);
            have[usize::from(enc)].push(s);
            if enc {
                let (auth, ver) = auth_ver(r);
                let mpk = if r.chance(p.invalid * 0.3) { r.below(3) as u8 } else { auth };
                made.insert((true, s), (auth, ver));
                K::CreateEnc { slot: s, auth, ver, mpk }
            } else {
                // few keys, so that mix-ups between similar ones happen
                let key = *r.pick(&[0, 0, 1, 1, 3, 7, 8, 2, 5, 6, 10, 11]);
                made.insert((false, s), (key, 0));
                K::CreateDec { slot: s, key }
            }
        }
        1 => {
            let h = handle(r, p, t, &have[usize::from(enc)]);
            if enc {
                K::DestroyEnc { h }
            } else {
                K::DestroyDec { h }
            }
        }
        2 => {
            let h = Some(handle(r, p, t, &have[usize::from(enc)]));
            // what the cache was made with, mostly
            let with = match &h {
                Some(H::Slot(s)) => made.get(&(enc, *s)).copied().filter(|_| r.chance(0.6)),
                _ => None,
            };
            if enc {
                let (auth, ver) = with.unwrap_or_else(|| if r.chance(0.6) { (0, 0) } else { auth_ver(r) });
                let (uid, ad) = meta(r);
                K::Enc { h, auth, ver, mpk: auth, attrs: attrs(r, auth, ver), uid, ad }
            } else {
                let key = with.map_or_else(|| *r.pick(&[0u8, 1, 3, 7]), |x| x.0);
                K::Dec { h, key, hdr: hdr_for(r, key) }
            }
        }
        3 => {
            if enc {
                let (auth, ver) = auth_ver(r);
                let (uid, ad) = meta(r);
                let mpk = if r.chance(p.invalid * 0.5) { r.below(3) as u8 } else { auth };
                K::Enc { h: None, auth, ver, mpk, attrs: attrs(r, auth, ver), uid, ad }
            } else {
                let key = r.below(f.keys.len()) as u8;
                K::Dec { h: None, key, hdr: hdr_for(r, key) }
            }
        }
        4 => {
            if r.chance(0.5) {
                let n = *r.pick(&[0, 1, 2, 255, 256, 65_535, 65_536, i32::MAX]);
                let l = *r.pick(&[1usize, 8, 15, 16, 17, 40, 100, 1000, 4096, 70_000]);
                let ul = *r.pick(&[0usize, 1, 8, 16, 33]);
                K::EncB { hdr: r.below(f.hdrs.len()) as u8, uid: tok(r, ul), n, data: tok(r, l) }
            } else {
                K::DecB { blk: r.below(f.blks.len()) as u8, dn: *r.pick(&[0, 0, 0, 0, 1, -1, 256, 65_536]) }
            }
        }
        5 => {
            let (auth, ver) = auth_ver(r);
            if r.chance(0.25) {
                K::GenM { auth, ver }
            } else {
                let mut fm = model::random_formula(r, &f.auth[auth as usize].pols[ver as usize], 3, true);
                if r.chance(p.invalid) {
                    let bad = F::A(format!("D::zz{}", tok(r, 8)));
                    fm = match r.below(3) {
                        0 => bad,
                        1 => F::And(Box::new(fm), Box::new(bad)),
                        _ => F::Or(Box::new(fm.clone()), Box::new(fm)),
                    };
                }
                K::GenK { auth, ver, f: fm }
            }
        }
        6 => match r.below(4) {
            0 => K::HSize { hdr: r.below(f.hdrs.len()) as u8 },
            1 => K::Over,
            _ => {
                let (auth, ver) = auth_ver(r);
                let mut v = attrs(r, auth, ver);
                if r.chance(0.3) {
                    let x = f.auth[auth as usize].pols[0].attrs();
                    let n = r.range(1, 4);
                    v = (0..n).map(|_| r.pick(&x).clone()).collect();
                }
                K::Rot { auth, ver, attrs: v }
            }
        },
        _ => match r.weighted(&[6, 3, 1]) {
            0 => K::GetErr { cap: *r.pick(&[1, 2, 3, 8, 16, 30, 60, 100, 200, 1000, 4096, 4096, 4096, 4096]) },
            1 => {
                // lengths around those of the buffers it is read into
                let n = *r.pick(&[8usize, 20, 60, 200, 4, 5, 18, 19, 20, 48, 49, 50, 88, 89, 90, 188, 189, 190, 989, 5000]);
                let msg = tok(r, n);
                // characters of several bytes, which a small buffer may cut
                let wide = *r.pick(&["\u{e9}", "\u{65e5}", "\u{1f511}"]);
                K::SetErr {
                    msg: match r.below(8) {
                        0 => format!("\u{e9}{msg}\u{65e5}\u{672c}"),
                        1 | 2 => msg.chars().map(|c| if c.is_ascii_digit() || c > 'm' { wide.to_string() } else { c.to_string() }).collect(),
                        _ => msg,
                    },
                }
            }
            _ => match r.below(3) {
                0 => K::GetErrBad { null_ptr: true, null_len: false, n: 0 },
                1 => K::GetErrBad { null_ptr: false, null_len: true, n: 0 },
                _ => K::GetErrBad { null_ptr: false, null_len: false, n: *r.pick(&[0, -1, i32::MIN]) },
            },
        },
    };
    let mut op = Op { k, mods: vec![], outs: vec![], retry: false, pair: false, ent: r.next(), faults: vec![], jump: 0 };
    let a = args(&op, f);
    let p_mod = if class == 0 { p.p_mod * 0.5 } else { p.p_mod };
    if !a.is_empty() && r.chance(p_mod) {
        let i = r.below(a.len());
        let x = &a[i];
        let m = match r.weighted(&p.mod_w) {
            0 => match r.below(5) {
                0 | 1 => M::Null,
                2 => M::NullLen(*r.pick(&[1, 32, 1000])),
                3 => M::Zero,
                _ => M::Neg(*r.pick(&[-1, -4, -1000, i32::MIN])),
            },
            1 => {
                let fields = match x.name {
                    "header" => model::header_fields(&x.base),
                    "user key" => model::key_fields(&x.base),
                    "public key" => model::vec_fields(&x.base, 96),
                    "master key" => model::vec_fields(&x.base, 32),
                    "block" => vec![0, 12, x.base.len().saturating_sub(16)],
                    _ => vec![],
                };
                M::Dmg(Dmg::random(r, x.base.len(), &fields))
            }
            _ => {
                let s = if x.cstr { hostile(r, x.name, &String::from_utf8_lossy(&x.base)) } else { let n = *r.pick(&[1usize, 3, 4, 31, 32, 33, 100]); tok(r, n) };
                M::Raw(s)
            }
        };
        op.mods.push((i as u8, m));
    }
    let o = outs(&op, f);
    if matches!(op.k, K::CreateEnc { .. } | K::CreateDec { .. }) {
        if r.chance(p.p_out * 0.2) {
            op.outs.push((0, OM::NullPtr));
        }
    } else if !o.is_empty() && r.chance(p.p_out) {
        for (i, (_, _, optional)) in o.iter().enumerate() {
            if !r.chance(1.2 / o.len() as f64) {
                continue;
            }
            let need = needed(&op, f)[i];
            let m = match r.weighted(&p.out_w) {
                // this part is not asked for
                _ if *optional && r.chance(0.4) => OM::NullPtr,
                0 => match r.below(4) {
                    0 => OM::Less(1),
                    1 => OM::Less(0),
                    2 => OM::Cap(r.range(1, need.max(2)) as u32),
                    _ => OM::Less(*r.pick(&[2, 4, 12, 16, 28])),
                },
                _ => match r.below(4) {
                    0 | 1 => OM::NullPtr,
                    2 => OM::NullLen,
                    _ => OM::Bad(*r.pick(&[0, -1, i32::MIN])),
                },
            };
            op.outs.push((i as u8, m));
        }
        op.retry = r.chance(p.p_retry);
    }
    if matches!(op.k, K::Enc { h: Some(H::Slot(_)), .. } | K::Dec { h: Some(H::Slot(_)), .. }) && r.chance(p.p_pair) {
        op.pair = true;
        op.retry = false;
    }
    if r.chance(p.p_fault) {
        let n = r.range(1, 3);
        for _ in 0..n {
            let f = if r.chance(0.5) { Fault::Eintr } else { Fault::Short(r.range(1, 31)) };
            op.faults.push((r.below(4), f));
        }
        op.faults.sort_by_key(|x| x.0);
        op.faults.dedup_by_key(|x| x.0);
    }
    if r.chance(p.p_jump) {
        op.jump = *r.pick(&[1, 60, 3_600, 86_400, 40_000_000, -3_600, -86_400]);
    }
    op
}

/// text that parses strangely
fn hostile(r: &mut Rng, what: &str, base: &str) -> String {
    let mut v: Vec<String> = vec![
        "{}".into(), "[]".into(), "null".into(), "\"\"".into(), "0".into(), "{".into(), "[[]]".into(), "\u{e9}".into(),
        "[".repeat(200), format!("{base} "), format!("{base}x"), base.to_uppercase(), base.replace("::", ":"), base.replace('"', "'"),
    ];
    match what {
        "policy" => {
            let p: serde_json::Value = serde_json::from_str(base).unwrap_or_default();
            // names that end up in error texts
            if r.chance(0.25) {
                let long = "l".repeat(3000);
                let o = *r.pick(&["lo\0", "\0", "lo\0\0x", "\u{e9}\u{65e5}", "lo\n", &long]);
                let mut q = p.clone();
                q["axes"] = json!({"D": [[o, "A", "B", "C"], true], "L": [[o, "lo", "hi"], true]});
                return q.to_string();
            }
            let mut put = |k: &str, x: serde_json::Value| {
                let mut q = p.clone();
                q[k] = x;
                v.push(q.to_string());
            };
            put("last_attribute_value", json!(0));
            put("last_attribute_value", json!(1000));
            put("max_attribute_creations", json!(0));
            put("max_attribute_creations", json!(1));
            put("max_attribute_creations", json!(5));
            put("axes", json!({}));
            put("axes", json!({"D": [["A", "B", "C"], true]}));
            put("axes", json!({"D": [[], false], "L": [[], true]}));
            put("attribute_to_int", json!({}));
            put("attribute_to_int", json!({"D::A": []}));
            put("attribute_to_int", json!({"D::A": [0], "D::B": [2], "L::lo": [0], "L::hi": [1]}));
            put("attribute_to_int", json!({"D::A": [1_000], "D::B": [4_294_967_295u32], "L::lo": [77]}));
            put("attribute_to_int", json!({"D::A": [1, 1, 1], "D::B": [1], "L::lo": [1], "L::hi": [1]}));
        }
        "attributes" => v.extend([
            "[\"D\"]".into(), "[\"D::\"]".into(), "[\"::A\"]".into(), "[\"::\"]".into(), "[\"D::A::B\"]".into(), "[\"\"]".into(),
            "[\"D::A\",\"D::A\"]".into(), "[1]".into(), "[null]".into(), "[\"D\\u0041::A\"]".into(), "\"D::A\"".into(),
            format!("[{}\"D::A\"]", "\"D::A\",".repeat(300)),
        ]),
        "access policy" => v.extend([
            "{\"And\":[]}".into(), "{\"And\":[\"All\",\"All\"]}".into(), "{\"Or\":[\"All\",{\"Attr\":\"D::A\"}]}".into(), "{\"Attr\":\"\"}".into(),
            "{\"Attr\":\"D\"}".into(), "{\"And\":[{\"Attr\":\"D::A\"}]}".into(), "{\"Or\":[{\"Attr\":\"D::A\"},{\"Attr\":\"D::A\"}]}".into(),
            "{\"Not\":\"All\"}".into(), "\"D::A\"".into(),
            format!("{}\"All\"{}", "{\"And\":[{\"Attr\":\"D::A\"},".repeat(100), "]}".repeat(100)),
        ]),
        _ => {}
    }
    r.pick(&v).clone()
}
