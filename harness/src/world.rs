//! A distributed deployment in one process: authorities that issue keys and
//! rotate attributes, parties that encrypt, delegate, store, crash and restart,
//! and a network that delays, reorders, drops, duplicates, damages and
//! partitions. Every read is checked against the reference model.
use crate::back::{self, Back, Cap, Dec, Er, Kind, R};
use crate::model::{self, Attr, Dmg, Policy, B, F};
use crate::report::Report;
use crate::rng::{hash, Rng};
use crate::{alloc, entropy, shm};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fate {
    /// delivered after so many milliseconds
    Ok(u16),
    Drop,
    Dup(u16, u16),
    Hurt(Dmg, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Op {
    Rotate { auth: u8, attrs: Vec<u8> },
    Announce { auth: u8, to: u8, fate: Fate },
    Issue { auth: u8, lag: u8, f: F, to: u8, fate: Fate },
    Encrypt { p: u8, auth: u8, lag: u8, attrs: Vec<u16>, uid: u32, ad: u32, meta: bool, to: Vec<(u8, Fate)> },
    Block { p: u8, hdr: u8, n: u64, uid: Option<u8>, len: u32, to: Vec<(u8, Fate)> },
    Read { p: u8, key: u8, hdr: u8 },
    ReadAny { key: u16, hdr: u16 },
    ReadBlock { p: u8, a: u8, b: u8, what: u8 },
    Delegate { p: u8, key: u8, how: u8, lag: u8, seed: u64 },
    Sync { p: u8 },
    Crash { p: u8, seed: u64, torn: bool },
    Partition { mask: u8 },
    Heal,
    Splice { mask: u8, hdr: u8, seed: u64 },
    Damage { p: u8, obj: u8, dmg: Dmg },
    DamagedMsk { auth: u8, dmg: Dmg, f: F },
    Reload { p: u8, obj: u8 },
    Raw { auth: u8, key: u8, attrs: Vec<u16>, len: u16 },
    Bad { auth: u8, kind: u8, seed: u64 },
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Act {
    /// simulated milliseconds before it
    pub dt: u16,
    pub via: u8,
    pub ent: u64,
    pub op: Op,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub focus: String,
    pub backs: Vec<String>,
    pub auths: Vec<Policy>,
    pub parties: u8,
    pub acts: Vec<Act>,
    /// use up the announced capacity at the end
    pub exhaust: bool,
    /// read with every key every header at the end
    pub matrix: u16,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Obj {
    Pol(usize, usize),
    Mpk(usize),
    Mdk(usize),
    Key(usize),
    Hdr(usize),
    Blk(usize),
}
#[derive(Clone, Debug)]
struct Copy {
    bytes: Vec<u8>,
    durable: bool,
    hurt: bool,
    /// came back from storage after a crash
    stored: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum KeyKind {
    Plain,
    Narrow,
    OrAnd,
    Other,
}
struct Auth {
    pols: Vec<(Policy, String)>,
    msk: Vec<u8>,
    mpk: Vec<u8>,
    mdk: Option<Vec<u8>>,
}
struct Key {
    auth: usize,
    ver: usize,
    f: F,
    b: B,
    anc: Vec<B>,
    kind: KeyKind,
    back: usize,
    bytes: Vec<u8>,
    /// the key it is an unrestricted delegation of, and the entropy of that
    from: Option<(usize, u64)>,
}
struct Hdr {
    auth: usize,
    ver: usize,
    gamma: Vec<u32>,
    sk: Vec<u8>,
    uid: Vec<u8>,
    ad: Vec<u8>,
    meta: bool,
    back: usize,
    bytes: Vec<u8>,
    strict: bool,
}
struct Blk {
    hdr: usize,
    sk: Vec<u8>,
    uid: Vec<u8>,
    n: u64,
    data: Vec<u8>,
    bytes: Vec<u8>,
}
struct Msg {
    due: u64,
    to: usize,
    obj: Obj,
    bytes: Vec<u8>,
    hurt: bool,
}

struct World<'a> {
    c: &'a Case,
    rep: Report,
    backs: Vec<Box<dyn Back>>,
    auths: Vec<Auth>,
    keys: Vec<Key>,
    hdrs: Vec<Hdr>,
    blks: Vec<Blk>,
    store: Vec<BTreeMap<Obj, Copy>>,
    dest: BTreeSet<(usize, Obj)>,
    net: Vec<Msg>,
    now: u64,
    split: u8,
    restarts: u32,
    /// damage of headers happened on purpose
    step: usize,
    toy: bool,
    sks: BTreeMap<Vec<u8>, usize>,
}

// ---------------------------------------------------------------- generation

fn gen_policy(r: &mut Rng, i: usize, small: bool) -> Policy {
    if !small && r.chance(0.04) {
        // many attributes: values beyond one byte
        let n = r.range(200, 330);
        let names: Vec<String> = (0..n).map(|k| format!("w{k}")).collect();
        let mut p = Policy { last: 0, max: 0, axes: vec![], vals: BTreeMap::new() };
        p.add_axis(&format!("Wide{i}"), &names, false);
        p.max = p.last + r.below(4) as u32;
        return p;
    }
    if !small && r.chance(0.05) {
        // room for long conjunctions
        let mut p = Policy { last: 0, max: 0, axes: vec![], vals: BTreeMap::new() };
        for k in 0..r.range(1, 3) {
            let names: Vec<String> = (0..r.range(8, 24)).map(|x| format!("m{x}")).collect();
            p.add_axis(["Team", "Place", "Rank"][k], &names, false);
        }
        p.max = p.last + r.below(8) as u32;
        return p;
    }
    if !small && r.chance(0.003) {
        // values beyond two bytes
        let mut p = Policy { last: 65530, max: 65545, axes: vec![], vals: BTreeMap::new() };
        p.add_axis("Far", &(0..r.range(3, 9)).map(|k| format!("f{k}")).collect::<Vec<_>>(), r.chance(0.3));
        return p;
    }
    let mut p = Policy { last: 0, max: 0, axes: vec![], vals: BTreeMap::new() };
    let n_axes = r.range(1, 3);
    // authorities use the same names on purpose
    let names = ["Dept", "Level", "Zone"];
    for name in names.iter().take(n_axes) {
        let k = r.range(1, if small { 3 } else { 5 });
        let list: Vec<String> = (0..k).map(|x| format!("a{x}")).collect();
        p.add_axis(name, &list, r.chance(0.4));
    }
    p.max = p.last + *r.pick(&[0, 1, 2, 3, 4, 6, 8]);
    p
}

fn fate(r: &mut Rng, focus: &str) -> Fate {
    let d = |r: &mut Rng| r.below(400) as u16;
    match r.below(20) {
        0 => Fate::Drop,
        1 | 2 => Fate::Dup(d(r), d(r)),
        3..=6 if focus == "damage" => Fate::Hurt(Dmg::random(r, 2000, &[0, 4, 8, 12]), d(r)),
        _ => Fate::Ok(d(r)),
    }
}

pub fn backs_of(set: &str, r: &mut Rng) -> Vec<String> {
    let v: Vec<&str> = match set {
        "toy" if cfg!(feature = "toy") => vec!["toy"],
        "toy" | "bls" => vec!["bls"],
        "py" | "js" => {
            // a helper among others, or on its own as far as it goes
            let mut v = vec!["bls", "native", "cached"];
            r.shuffle(&mut v);
            v.truncate(r.below(2));
            v.insert(0, if set == "py" { "py" } else { *r.pick(&["js", "jsc", "jsc"]) });
            if set == "js" && r.chance(0.3) {
                v.push("py");
            }
            r.shuffle(&mut v);
            v
        }
        "native" => match r.below(3) {
            0 => vec!["native"],
            1 => vec!["cached"],
            _ => vec!["native", "cached"],
        },
        _ => {
            let mut v = vec!["bls", "native", "cached"];
            let n = r.range(2, 3);
            r.shuffle(&mut v);
            v.truncate(n);
            v
        }
    };
    v.into_iter().map(String::from).collect()
}

pub fn gen(profile: &str, seed: u64) -> Case {
    // world-<focus>-<backs>
    let mut it = profile.split('-').skip(1);
    let focus = it.next().unwrap_or("grant").to_string();
    let set = it.next().unwrap_or("toy").to_string();
    let mut r = Rng::of(&[seed, 0x3031d]);
    if focus == "orand" {
        return orand(seed);
    }
    let backs = backs_of(&set, &mut r);
    let toy = backs[0] == "toy";
    let n_auth = if r.chance(0.5) { 2 } else { 1 };
    let auths: Vec<Policy> = (0..n_auth).map(|i| gen_policy(&mut r, i, !toy)).collect();
    let parties = r.range(2, 4) as u8;
    let n = if toy { *r.pick(&[12, 25, 40, 60, 90]) } else { *r.pick(&[6, 10, 16]) };
    let mut acts = vec![];
    let act = |r: &mut Rng, op: Op| Act { dt: r.below(120) as u16, via: r.below(16) as u8, ent: r.next(), op };
    // so that something can be read at all
    for a in 0..n_auth {
        for p in 0..parties {
            acts.push(act(&mut r, Op::Announce { auth: a as u8, to: p, fate: Fate::Ok(0) }));
        }
    }
    // rotate announce issue encrypt block read readany readblock delegate sync crash partition heal splice damage msk reload raw bad
    let w: [u32; 19] = match focus.as_str() {
        "grant" => [3, 4, 10, 14, 2, 6, 14, 2, 3, 2, 1, 1, 2, 8, 0, 0, 1, 3, 2],
        "satisfy" => [3, 4, 12, 16, 6, 14, 10, 5, 3, 2, 2, 1, 2, 1, 0, 0, 3, 6, 1],
        "rotate" => [12, 8, 10, 14, 1, 8, 12, 0, 3, 1, 1, 1, 2, 2, 0, 0, 1, 1, 2],
        "delegate" => [4, 3, 10, 12, 0, 5, 14, 0, 24, 1, 1, 1, 1, 5, 0, 0, 1, 1, 2],
        "store" => [4, 4, 10, 14, 6, 12, 8, 5, 6, 6, 8, 2, 3, 1, 0, 0, 14, 4, 1],
        "damage" => [2, 3, 8, 10, 6, 16, 6, 8, 4, 3, 5, 1, 2, 0, 22, 3, 3, 0, 1],
        "blocks" => [1, 2, 3, 8, 22, 4, 2, 34, 0, 3, 3, 1, 2, 0, 4, 0, 0, 0, 0],
        "bad" => [3, 3, 8, 8, 2, 6, 8, 2, 5, 1, 2, 0, 0, 1, 0, 0, 0, 1, 34],
        _ => [4, 4, 12, 16, 5, 10, 10, 5, 5, 2, 3, 1, 2, 2, 0, 0, 4, 2, 2],
    };
    // half of the cases start with an immediate supply of keys and data
    if r.chance(0.6) {
        for _ in 0..r.range(1, 4) {
            let a = r.below(n_auth);
            let f = model::random_formula(&mut r, &auths[a], 6, true);
            let to = r.below(parties as usize) as u8;
            let fa = fate(&mut r, &focus);
            acts.push(act(&mut r, Op::Issue { auth: a as u8, lag: 0, f, to, fate: fa }));
            let op = gen_encrypt(&mut r, &focus, parties, &auths, toy);
            acts.push(act(&mut r, op));
        }
    }
    for _ in 0..n {
        let p = r.below(parties as usize) as u8;
        let a = r.below(n_auth);
        let lag = if r.chance(0.75) { 0 } else { r.range(1, 4) as u8 };
        let op = match r.weighted(&w) {
            0 => {
                let k = if r.chance(0.8) { 1 } else { r.range(0, 3) };
                Op::Rotate { auth: a as u8, attrs: (0..k).map(|_| r.below(256) as u8).collect() }
            }
            1 => Op::Announce { auth: a as u8, to: p, fate: fate(&mut r, &focus) },
            2 => {
                let leaves = *r.pick(&[1, 2, 3, 4, 6, 10, 16, 64]);
                let f = model::random_formula(&mut r, &auths[a], leaves, true);
                Op::Issue { auth: a as u8, lag, f, to: p, fate: fate(&mut r, &focus) }
            }
            3 => gen_encrypt(&mut r, &focus, parties, &auths, toy),
            4 => {
                let n = *r.pick(&[0, 1, 2, 3, 3, 4, 5, 12, 48, 200, 1234, 255, 256, 257, 65535, 65536, 0x7fff_ffff, 0x1_0000_0000, 0x1_0000_0001, u64::MAX]);
                let uid = if r.chance(0.6) { None } else { Some(r.below(20) as u8) };
                let mut len = *r.pick(&[1, 1, 2, 15, 16, 17, 31, 32, 33, 100, 255, 256, 1000, 4096, 70000]);
                if r.chance(0.01) {
                    len = *r.pick(&[(1 << 20) - 1, 1 << 20, 300_000]);
                }
                let q = r.below(parties as usize) as u8;
                Op::Block { p, hdr: r.below(256) as u8, n, uid, len, to: vec![(q, fate(&mut r, &focus))] }
            }
            5 => Op::Read { p, key: r.below(256) as u8, hdr: r.below(256) as u8 },
            6 => Op::ReadAny { key: r.below(60000) as u16, hdr: r.below(60000) as u16 },
            7 => Op::ReadBlock { p, a: r.below(256) as u8, b: r.below(256) as u8, what: r.below(11) as u8 },
            8 => {
                let how = *r.pick(&[0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 4, 5, 6]);
                Op::Delegate { p, key: r.below(256) as u8, how, lag, seed: r.next() }
            }
            9 => Op::Sync { p },
            10 => Op::Crash { p, seed: r.next(), torn: focus == "damage" },
            11 => Op::Partition { mask: r.below(256) as u8 },
            12 => Op::Heal,
            13 => Op::Splice { mask: if r.chance(0.75) { 0xff } else { r.next() as u8 }, hdr: r.below(256) as u8, seed: r.next() },
            14 => {
                let big = r.chance(0.5);
                let f: Vec<usize> = vec![0, 4, 8, 12, 60, 64, 100, 104, 108, 396, 400, 412];
                Op::Damage { p, obj: r.below(256) as u8, dmg: Dmg::random(&mut r, if big { 1500 } else { 500 }, &f) }
            }
            15 => Op::DamagedMsk { auth: a as u8, dmg: Dmg::random(&mut r, 300, &[0, 4, 36, 68]), f: model::random_formula(&mut r, &auths[a], 3, true) },
            16 => Op::Reload { p, obj: r.below(256) as u8 },
            17 => {
                let len = *r.pick(&[0, 0, 1, 16, 32, 33, 64, 200]);
                Op::Raw { auth: a as u8, key: r.below(256) as u8, attrs: gen_attrs(&mut r, &auths[a]), len }
            }
            _ => Op::Bad { auth: a as u8, kind: r.below(16) as u8, seed: r.next() },
        };
        acts.push(act(&mut r, op));
    }
    // a key for a formula, data for all but a few of its attributes, and somebody
    // who puts together what there is
    if matches!(focus.as_str(), "grant" | "satisfy" | "delegate" | "rotate") && r.chance(0.35) {
        for _ in 0..r.range(1, 3) {
            let a = r.below(n_auth);
            let long = toy && auths[a].attrs().len() > 16;
            let leaves = if long { *r.pick(&[20, 40, 72, 128]) } else { 6 };
            let f = model::random_formula(&mut r, &auths[a], leaves, false);
            let f = if r.chance(0.5) { or_to_and(&mut r, &f, 1.0) } else { f };
            let names = auths[a].attrs();
            let mut used = vec![];
            f.attrs(&mut used);
            let mut list: Vec<u16> = used.iter().filter_map(|x| names.iter().position(|n| n == x)).map(|i| i as u16).collect();
            r.shuffle(&mut list);
            let drop = *r.pick(&[0, 1, 1, 1, 2, 3]);
            list.truncate(list.len().saturating_sub(drop).max(1));
            let to = r.below(parties as usize) as u8;
            let (mask, seed) = (if r.chance(0.5) { 1 << to } else { 0xff }, r.next());
            for op in [
                Op::Issue { auth: a as u8, lag: 0, f, to, fate: Fate::Ok(0) },
                Op::Encrypt { p: to, auth: a as u8, lag: 0, attrs: list, uid: 8, ad: 4, meta: true, to: vec![(to, Fate::Ok(0))] },
                Op::Splice { mask, hdr: 255, seed },
            ] {
                acts.push(act(&mut r, op));
            }
        }
    }
    let exhaust = matches!(focus.as_str(), "rotate") || r.chance(0.1);
    let matrix = if toy { 2000 } else { 24 };
    Case { focus, backs, auths, parties, acts, exhaust, matrix }
}

fn gen_attrs(r: &mut Rng, p: &Policy) -> Vec<u16> {
    let n = p.attrs().len();
    let k = match r.below(10) {
        0..=3 => 1,
        4..=6 => r.range(1, n.min(4)),
        7..=8 => r.range(1, n),
        _ => n,
    };
    let mut v: Vec<u16> = (0..n as u16).collect();
    r.shuffle(&mut v);
    v.truncate(k);
    if r.chance(0.02) {
        v.push(v[0]);
    }
    if r.chance(0.01) {
        v.clear();
    }
    v
}
fn gen_encrypt(r: &mut Rng, focus: &str, parties: u8, auths: &[Policy], toy: bool) -> Op {
    let a = r.below(auths.len());
    let lag = if r.chance(0.7) { 0 } else { r.range(1, 4) as u8 };
    let to = (0..r.range(1, 3)).map(|_| (r.below(parties as usize) as u8, fate(r, focus))).collect();
    Op::Encrypt {
        p: r.below(parties as usize) as u8,
        auth: a as u8,
        lag,
        attrs: gen_attrs(r, &auths[a]),
        uid: if r.chance(0.01) { 66000 } else { *r.pick(&[0, 1, 4, 8, 16, 16, 32, 255, 256, 300]) },
        ad: if toy && r.chance(0.01) { 200_000 } else { *r.pick(&[0, 0, 1, 9, 16, 40, 255, 256, 1000, if toy { 65535 } else { 5000 }]) },
        meta: r.chance(0.8),
        to,
    }
}

/// the witness of the known finding: a disjunction delegated as a conjunction
fn orand(_seed: u64) -> Case {
    let a = |x: &str| Box::new(F::A(format!("Dept::{x}")));
    let p = Policy::new(6, &[("Dept", &["a0", "a1"], false)]);
    let act = |i: u64, op: Op| Act { dt: 1, via: 0, ent: i, op };
    Case {
        focus: "orand".into(),
        backs: vec!["bls".into()],
        auths: vec![p],
        parties: 2,
        acts: vec![
            act(1, Op::Announce { auth: 0, to: 0, fate: Fate::Ok(0) }),
            act(2, Op::Issue { auth: 0, lag: 0, f: F::Or(a("a0"), a("a1")), to: 0, fate: Fate::Ok(0) }),
            act(3, Op::Delegate { p: 0, key: 0, how: 7, lag: 0, seed: 0 }),
            act(4, Op::Encrypt { p: 0, auth: 0, lag: 0, attrs: vec![0, 1], uid: 8, ad: 8, meta: true, to: vec![(0, Fate::Ok(0))] }),
        ],
        exhaust: false,
        matrix: 10,
    }
}

// ------------------------------------------------------------ delegation model

/// what a delegated formula is to its parent
fn relation(p: &B, c: &B) -> KeyKind {
    if rel(&norm(p), &norm(c), false) {
        KeyKind::Narrow
    } else if rel(&norm(p), &norm(c), true) {
        KeyKind::OrAnd
    } else {
        KeyKind::Other
    }
}
#[derive(Clone, Debug, PartialEq)]
enum N {
    L(u32),
    And(Vec<N>),
    Or(Vec<N>),
}
fn norm(b: &B) -> N {
    fn go(b: &B, out: &mut Vec<N>, and: bool) {
        match (b, and) {
            (B::And(x, y), true) | (B::Or(x, y), false) => {
                go(x, out, and);
                go(y, out, and);
            }
            _ => out.push(norm(b)),
        }
    }
    let mut v = vec![];
    match b {
        B::L(x) => N::L(*x),
        B::And(..) => {
            go(b, &mut v, true);
            N::And(v)
        }
        B::Or(..) => {
            go(b, &mut v, false);
            N::Or(v)
        }
    }
}
fn leaves(n: &N) -> BTreeSet<u32> {
    match n {
        N::L(x) => [*x].into(),
        N::And(v) | N::Or(v) => v.iter().flat_map(leaves).collect(),
    }
}
fn wrap(mut v: Vec<N>, and: bool) -> N {
    if v.len() == 1 {
        v.pop().unwrap()
    } else if and {
        N::And(v)
    } else {
        N::Or(v)
    }
}
/// c is p with disjunctions replaced by some of their alternatives (and, when
/// allowed, turned into conjunctions)
fn rel(p: &N, c: &N, orand: bool) -> bool {
    // children of c grouped by the child of p they come from
    let groups = |pv: &[N], cv: &[N]| -> Option<Vec<Vec<N>>> {
        let sets: Vec<BTreeSet<u32>> = pv.iter().map(leaves).collect();
        let mut g = vec![vec![]; pv.len()];
        for c in cv {
            let l = leaves(c);
            g[sets.iter().position(|s| l.is_subset(s))?].push(c.clone());
        }
        Some(g)
    };
    match (p, c) {
        (N::L(a), N::L(b)) => a == b,
        (N::L(_), _) => false,
        (N::And(pv), N::And(cv)) => groups(pv, cv).is_some_and(|g| {
            g.iter().zip(pv).all(|(g, p)| !g.is_empty() && rel(p, &wrap(g.clone(), true), orand))
        }),
        (N::And(_), _) => false,
        (N::Or(pv), N::Or(cv)) => groups(pv, cv).is_some_and(|g| {
            g.iter().zip(pv).all(|(g, p)| g.is_empty() || rel(p, &wrap(g.clone(), false), orand))
        }),
        (N::Or(pv), c) => {
            pv.iter().any(|p| rel(p, c, orand))
                || (orand
                    && match c {
                        N::And(cv) => groups(pv, cv).is_some_and(|g| {
                            g.iter().zip(pv).all(|(g, p)| g.is_empty() || rel(p, &wrap(g.clone(), true), orand))
                        }),
                        _ => false,
                    })
        }
    }
}

const Q: u64 = (1 << 61) - 1;
fn qm(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % Q as u128) as u64
}
fn qi(a: u64) -> u64 {
    let (mut r, mut b, mut e) = (1, a, Q - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = qm(r, b);
        }
        b = qm(b, b);
        e >>= 1;
    }
    r
}
/// linear conditions on the leaves' weights for a linear reconstruction of the
/// secret: rows over the variables plus a constant
fn conditions(b: &B, var: &BTreeMap<u32, usize>, n: usize, out: &mut Vec<Vec<u64>>) -> Vec<u64> {
    match b {
        B::L(v) => {
            let mut r = vec![0; n + 1];
            if let Some(i) = var.get(v) {
                r[*i] = 1;
            }
            r
        }
        B::And(x, y) => {
            let a = conditions(x, var, n, out);
            let c = conditions(y, var, n, out);
            out.push(a.iter().zip(&c).map(|(a, c)| (a + Q - c) % Q).collect());
            a
        }
        B::Or(x, y) => {
            let a = conditions(x, var, n, out);
            let c = conditions(y, var, n, out);
            a.iter().zip(&c).map(|(a, c)| (a + c) % Q).collect()
        }
    }
}
/// every reconstruction that the child's formula allows is one of the parent's
fn implied(child: &B, parent: &B, gamma: &[u32]) -> bool {
    let set: BTreeSet<u32> = gamma.iter().copied().collect();
    let mut l = vec![];
    child.leaves(&mut l);
    let var: BTreeMap<u32, usize> = l.iter().filter(|v| set.contains(v)).enumerate().map(|(i, v)| (*v, i)).collect();
    let n = var.len();
    let sys = |b: &B| {
        let mut v = vec![];
        let mut root = conditions(b, &var, n, &mut v);
        root[n] = (root[n] + Q - 1) % Q; // root weight = 1
        v.push(root);
        v
    };
    let mut basis: Vec<(usize, Vec<u64>)> = vec![];
    let reduce = |basis: &[(usize, Vec<u64>)], mut r: Vec<u64>| {
        for (p, b) in basis {
            let k = r[*p];
            if k != 0 {
                for i in 0..r.len() {
                    r[i] = (r[i] + Q - qm(k, b[i])) % Q;
                }
            }
        }
        r
    };
    for r in sys(child) {
        let mut r = reduce(&basis, r);
        if let Some(p) = r[..n].iter().position(|x| *x != 0) {
            let k = qi(r[p]);
            r.iter_mut().for_each(|x| *x = qm(*x, k));
            for (_, b) in basis.iter_mut() {
                let k = b[p];
                if k != 0 {
                    for i in 0..b.len() {
                        b[i] = (b[i] + Q - qm(k, r[i])) % Q;
                    }
                }
            }
            basis.push((p, r));
        } else if r[n] != 0 {
            return false;
        }
    }
    sys(parent).into_iter().all(|r| reduce(&basis, r).iter().all(|x| *x == 0))
}

/// some disjunctions replaced by one alternative
fn prune(r: &mut Rng, f: &F) -> F {
    match f {
        F::Or(a, b) => match r.below(3) {
            0 => prune(r, a),
            1 => prune(r, b),
            _ => F::Or(Box::new(prune(r, a)), Box::new(prune(r, b))),
        },
        F::And(a, b) => F::And(Box::new(prune(r, a)), Box::new(prune(r, b))),
        _ => f.clone(),
    }
}
fn map_leaves(f: &F, g: &mut dyn FnMut(&Attr) -> Attr) -> F {
    match f {
        F::A(a) => F::A(g(a)),
        F::And(a, b) => F::And(Box::new(map_leaves(a, g)), Box::new(map_leaves(b, g))),
        F::Or(a, b) => F::Or(Box::new(map_leaves(a, g)), Box::new(map_leaves(b, g))),
        F::All => F::All,
    }
}
fn or_to_and(r: &mut Rng, f: &F, p: f64) -> F {
    match f {
        F::Or(a, b) => {
            let (a, b) = (Box::new(or_to_and(r, a, p)), Box::new(or_to_and(r, b, p)));
            if r.chance(p) {
                F::And(a, b)
            } else {
                F::Or(a, b)
            }
        }
        F::And(a, b) => F::And(Box::new(or_to_and(r, a, p)), Box::new(or_to_and(r, b, p))),
        _ => f.clone(),
    }
}

// ------------------------------------------------------------------- execution

fn pick<T: Clone>(v: &[T], i: usize) -> Option<T> {
    if v.is_empty() {
        None
    } else {
        Some(v[i % v.len()].clone())
    }
}
fn make(name: &str) -> Box<dyn Back> {
    use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381;
    use cosmian_abe_gpsw::core::gpsw::Gpsw;
    match name {
        #[cfg(feature = "toy")]
        "toy" => Box::new(back::Core::<Gpsw<crate::toy::Toy>>::new("toy")),
        "native" => Box::new(back::Native::new(false)),
        "cached" => Box::new(back::Native::new(true)),
        "py" | "js" | "jsc" => Box::new(crate::remote::Remote::new(name)),
        _ => Box::new(back::Core::<Gpsw<Bls12_381>>::new("bls")),
    }
}
fn class<T>(r: &R<T>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(Er::Err(_)) => "err",
        Err(Er::Crash(_)) => "crash",
        Err(Er::Trip(_)) => "trip",
    }
}

impl Case {
    pub fn size(&self) -> usize {
        self.acts.len() + self.backs.len()
    }
    pub fn shrinks(&self) -> Vec<Case> {
        let mut v = vec![];
        let n = self.acts.len();
        let mut k = n / 2;
        while k >= 1 {
            let mut i = 0;
            while i < n {
                let mut c = self.clone();
                c.acts.drain(i..(i + k).min(n));
                v.push(c);
                i += k;
            }
            k /= 2;
        }
        if self.exhaust {
            let mut c = self.clone();
            c.exhaust = false;
            v.push(c);
        }
        if self.matrix > 0 {
            let mut c = self.clone();
            c.matrix = 0;
            v.push(c);
        }
        if self.backs.len() > 1 {
            for b in &self.backs {
                let mut c = self.clone();
                c.backs = vec![b.clone()];
                v.push(c);
            }
        }
        for i in 0..n {
            let mut c = self.clone();
            let calm = |f: &mut Fate| {
                if !matches!(f, Fate::Ok(0)) {
                    *f = Fate::Ok(0);
                }
            };
            c.acts[i].dt = 0;
            match &mut c.acts[i].op {
                Op::Announce { fate, .. } => calm(fate),
                Op::Issue { fate, lag, f, .. } => {
                    calm(fate);
                    *lag = 0;
                    if let F::And(a, _) | F::Or(a, _) = f.clone() {
                        *f = *a;
                    }
                }
                Op::Encrypt { to, lag, uid, ad, .. } => {
                    to.iter_mut().for_each(|x| calm(&mut x.1));
                    *lag = 0;
                    *uid = (*uid).min(8);
                    *ad = (*ad).min(8);
                }
                Op::Block { to, len, .. } => {
                    to.iter_mut().for_each(|x| calm(&mut x.1));
                    *len = (*len).min(4);
                }
                _ => {}
            }
            if c.acts[i] != self.acts[i] {
                v.push(c);
            }
        }
        v
    }
    pub fn run(&self) -> Report {
        let backs: Vec<Box<dyn Back>> = self.backs.iter().map(|b| make(b)).collect();
        let mut w = World {
            c: self,
            rep: Report::default(),
            toy: self.backs[0] == "toy",
            backs,
            auths: vec![],
            keys: vec![],
            hdrs: vec![],
            blks: vec![],
            store: vec![BTreeMap::new(); self.parties as usize],
            dest: BTreeSet::new(),
            net: vec![],
            now: 0,
            split: 0,
            restarts: 0,
            step: 0,
            sks: BTreeMap::new(),
        };
        w.setup();
        for (i, a) in self.acts.iter().enumerate() {
            w.step = i;
            if w.rep.viol.len() > 8 {
                break;
            }
            w.tick(u64::from(a.dt));
            w.act(a);
        }
        if w.rep.viol.is_empty() {
            w.finish();
        }
        w.rep.sim_ns = w.now * 1_000_000;
        w.rep
    }
}

impl World<'_> {
    fn v(&mut self, props: &str, sig: &str, msg: String) {
        let s = self.step;
        self.rep.v(props, sig, format!("step {s}: {msg}"));
    }
    fn note(&self, props: &str, what: &str) {
        shm::note(&format!("{props}|{what}|step {}", self.step));
    }
    /// runs one operation of a back end
    fn call<T>(&mut self, bi: usize, ent: u64, props: &str, what: &str, f: impl FnOnce(&mut dyn Back) -> R<T>) -> R<T> {
        self.note(props, what);
        entropy::begin(ent);
        let r = f(self.backs[bi].as_mut());
        self.rep.inc(&format!("op.{what}.{}", class(&r)), 1);
        match &r {
            Err(Er::Crash(m)) => self.v(props, &format!("crash:{what}"), format!("{what} through {} panicked: {m}", self.c.backs[bi])),
            Err(Er::Trip(m)) => {
                let (p, m) = match m.strip_prefix('#').and_then(|x| x.split_once('#')) {
                    Some((p, m)) => (p, m),
                    None if self.c.backs[bi] == "native" || self.c.backs[bi] == "cached" => ("C11 C05", m.as_str()),
                    None => ("C05", m.as_str()),
                };
                self.v(p, &format!("trip:{what}"), format!("{what} through {}: {m}", self.c.backs[bi]))
            }
            _ => {}
        }
        r
    }
    fn via(&self, a: u8, cap: Cap) -> Option<usize> {
        let n = self.backs.len();
        (0..n).map(|i| (i + a as usize) % n).find(|i| self.backs[*i].has(cap))
    }
    /// one that can express the formula as well
    fn via_f(&self, a: u8, cap: Cap, f: &F) -> Option<usize> {
        let n = self.backs.len();
        (0..n).map(|i| (i + a as usize) % n).find(|i| self.backs[*i].has(cap) && (self.backs[*i].has(Cap::All) || f.text().is_some()))
    }

    fn setup(&mut self) {
        for (i, p) in self.c.auths.iter().enumerate() {
            // delegation keys only come from interfaces that have them
            let bi = self.via(i as u8, Cap::Delegate).or(self.via(0, Cap::Master)).unwrap_or(0);
            let js = p.json();
            let r = self.call(bi, 0x5e7 + i as u64, "C02 C16", "master", |b| b.master(&js));
            match r {
                Ok(m) => {
                    let l = model::vec_fields(&m.mpk, 48).len();
                    self.rep.ev(&format!("master {i} {} {} {l}", hash(&m.msk), hash(&m.mpk)));
                    self.auths.push(Auth { pols: vec![(p.clone(), js)], msk: m.msk, mpk: m.mpk, mdk: m.mdk });
                }
                Err(x) => {
                    self.v("*", "setup", format!("master keys cannot be generated: {x:?}"));
                    return;
                }
            }
            for q in 0..self.c.parties as usize {
                let mut give = |o: Obj, b: Vec<u8>| {
                    self.store[q].insert(o, Copy { bytes: b, durable: true, hurt: false, stored: false });
                    self.dest.insert((q, o));
                };
                give(Obj::Mpk(i), self.auths[i].mpk.clone());
                if let Some(m) = self.auths[i].mdk.clone() {
                    give(Obj::Mdk(i), m);
                }
            }
        }
    }

    fn genuine(&self, o: Obj) -> Vec<u8> {
        match o {
            Obj::Pol(a, v) => self.auths[a].pols[v].1.clone().into_bytes(),
            Obj::Mpk(a) => self.auths[a].mpk.clone(),
            Obj::Mdk(a) => self.auths[a].mdk.clone().unwrap_or_default(),
            Obj::Key(i) => self.keys[i].bytes.clone(),
            Obj::Hdr(i) => self.hdrs[i].bytes.clone(),
            Obj::Blk(i) => self.blks[i].bytes.clone(),
        }
    }
    /// an object of the same kind, for torn and misdirected data
    fn sibling(&self, o: Obj) -> Vec<u8> {
        match o {
            Obj::Pol(a, v) => self.genuine(Obj::Pol(a, if v > 0 { v - 1 } else { self.auths[a].pols.len() - 1 })),
            Obj::Mpk(a) => self.genuine(Obj::Mpk((a + 1) % self.auths.len())),
            Obj::Mdk(a) => self.genuine(Obj::Mdk((a + 1) % self.auths.len())),
            Obj::Key(i) => self.genuine(Obj::Key((i + self.keys.len() - 1) % self.keys.len())),
            Obj::Hdr(i) => self.genuine(Obj::Hdr((i + self.hdrs.len() - 1) % self.hdrs.len())),
            Obj::Blk(i) => self.genuine(Obj::Blk((i + self.blks.len() - 1) % self.blks.len())),
        }
    }
    fn send(&mut self, to: u8, obj: Obj, fate: &Fate) {
        let to = to as usize % self.c.parties as usize;
        self.dest.insert((to, obj));
        let b = self.genuine(obj);
        let now = self.now;
        let mut m = |d: u16, bytes: Vec<u8>, hurt: bool| self.net.push(Msg { due: now + u64::from(d), to, obj, bytes, hurt });
        match fate {
            Fate::Ok(d) => m(*d, b, false),
            Fate::Drop => self.rep.inc("fault.message_lost", 1),
            Fate::Dup(d, e) => {
                m(*d, b.clone(), false);
                m(*e, b, false);
                self.rep.inc("fault.message_duplicated", 1);
            }
            Fate::Hurt(x, d) => {
                let h = x.apply(&b, &self.sibling(obj));
                let hurt = h != b;
                self.net.push(Msg { due: now + u64::from(*d), to, obj, bytes: h, hurt });
                self.rep.inc("fault.message_damaged", u64::from(hurt));
            }
        }
    }
    fn tick(&mut self, dt: u64) {
        self.now += dt;
        let mut later = vec![];
        let mut due: Vec<Msg> = vec![];
        for m in std::mem::take(&mut self.net) {
            if m.due > self.now {
                later.push(m);
            } else if self.split >> m.to & 1 == 1 {
                self.rep.inc("fault.message_held_by_partition", 1);
                later.push(m);
            } else {
                due.push(m);
            }
        }
        due.sort_by_key(|m| m.due);
        for m in due {
            self.rep.inc("messages_delivered", 1);
            self.store[m.to].insert(m.obj, Copy { bytes: m.bytes, durable: false, hurt: m.hurt, stored: false });
        }
        self.net = later;
    }
    fn of(&self, p: usize, want: impl Fn(&Obj) -> bool) -> Vec<Obj> {
        self.store[p].keys().filter(|o| want(o)).copied().collect()
    }
    /// the policy a party works with: the newest it has, or an older one
    fn party_policy(&self, p: usize, auth: usize, lag: u8) -> Option<(usize, Copy)> {
        let v: Vec<usize> = self
            .of(p, |o| matches!(o, Obj::Pol(a, _) if *a == auth))
            .iter()
            .map(|o| if let Obj::Pol(_, v) = o { *v } else { 0 })
            .collect();
        let ver = v[v.len().checked_sub(1)?.saturating_sub(lag as usize)];
        Some((ver, self.store[p][&Obj::Pol(auth, ver)].clone()))
    }

    fn act(&mut self, a: &Act) {
        let np = self.c.parties as usize;
        let na = self.auths.len();
        if na == 0 {
            return;
        }
        match &a.op {
            Op::Rotate { auth, attrs } => {
                let au = *auth as usize % na;
                let names = self.auths[au].pols[0].0.attrs();
                let list: Vec<Attr> = attrs.iter().map(|i| names[*i as usize % names.len()].clone()).collect();
                self.rotate(au, &list, a.via, a.ent);
            }
            Op::Announce { auth, to, fate } => {
                let au = *auth as usize % na;
                let v = self.auths[au].pols.len() - 1;
                self.send(*to, Obj::Pol(au, v), fate);
            }
            Op::Issue { auth, lag, f, to, fate } => {
                let au = *auth as usize % na;
                if let Some(k) = self.issue(au, *lag, f, a.via, a.ent) {
                    self.send(*to, Obj::Key(k), fate);
                }
            }
            Op::Encrypt { p, auth, lag, attrs, uid, ad, meta, to } => {
                let (p, au) = (*p as usize % np, *auth as usize % na);
                let Some((ver, pol)) = self.party_policy(p, au, *lag) else { return };
                let mpk = self.store[p].get(&Obj::Mpk(au)).cloned();
                let Some(mpk) = mpk else { return };
                let names = self.auths[au].pols[0].0.attrs();
                let list: Vec<Attr> = attrs.iter().map(|i| names[*i as usize % names.len()].clone()).collect();
                let sz = (*uid as usize, *ad as usize);
                if let Some(h) = self.encrypt(au, ver, &pol, &mpk, &list, sz, *meta, a.via, a.ent) {
                    let own = self.hdrs[h].bytes.clone();
                    self.store[p].insert(Obj::Hdr(h), Copy { bytes: own, durable: false, hurt: false, stored: false });
                    for (q, f) in to {
                        self.send(*q, Obj::Hdr(h), f);
                    }
                }
            }
            Op::Block { p, hdr, n, uid, len, to } => {
                let p = *p as usize % np;
                let hs: Vec<usize> = (0..self.hdrs.len()).collect();
                let Some(h) = pick(&hs, *hdr as usize) else { return };
                let mut r = Rng::new(a.ent);
                let data = r.bytes(*len as usize);
                let uid = match uid {
                    None => self.hdrs[h].uid.clone(),
                    Some(k) => r.bytes(*k as usize),
                };
                let bi = a.via as usize % self.backs.len();
                let n = if self.backs[bi].has(Cap::Block64) { *n } else { *n & 0x7fff_ffff };
                let sk = self.hdrs[h].sk.clone();
                if let Some(b2) = self.via(a.via, Cap::Raw) {
                    let l = 1 + *len as usize % 80;
                    match self.call(b2, a.ent, "C02 C07", "limited-block", |b| b.limited(&sk, &uid, n, &r.bytes(l))) {
                        Err(Er::Err(m)) if l <= back::LIMIT => self.v("C02", "block-refused", format!("a block of {l} bytes is refused with a limit of {}: {m}", back::LIMIT)),
                        _ => {}
                    }
                }
                let res = self.call(bi, a.ent, "C02 C07", "encrypt-block", |b| b.enc_block(&sk, &uid, n, &data));
                match res {
                    Ok(bytes) => {
                        self.rep.ev(&format!("block {}", hash(&bytes)));
                        let i = self.blks.len();
                        self.blks.push(Blk { hdr: h, sk, uid, n, data, bytes: bytes.clone() });
                        self.store[p].insert(Obj::Blk(i), Copy { bytes, durable: false, hurt: false, stored: false });
                        for (q, f) in to {
                            self.send(*q, Obj::Blk(i), f);
                        }
                    }
                    Err(x) => self.v("C02", "block-refused", format!("a block of {} bytes is refused: {x:?}", data.len())),
                }
            }
            Op::Read { p, key, hdr } => {
                let p = *p as usize % np;
                let ks = self.of(p, |o| matches!(o, Obj::Key(_)));
                let hs = self.of(p, |o| matches!(o, Obj::Hdr(_)));
                if let (Some(k), Some(h)) = (pick(&ks, *key as usize), pick(&hs, *hdr as usize)) {
                    self.read(p, k, h, a.via, a.ent);
                }
            }
            Op::ReadAny { key, hdr } => {
                if !self.keys.is_empty() && !self.hdrs.is_empty() {
                    let (k, h) = (*key as usize % self.keys.len(), *hdr as usize % self.hdrs.len());
                    let bi = a.via as usize % self.backs.len();
                    self.read_genuine(k, h, bi, a.ent, false);
                }
            }
            Op::ReadBlock { p, a: x, b: y, what } => {
                let p = *p as usize % np;
                let v = self.of(p, |o| matches!(o, Obj::Blk(_)));
                if let (Some(Obj::Blk(x)), Some(Obj::Blk(y))) = (pick(&v, *x as usize), pick(&v, *y as usize)) {
                    self.read_block(p, x, y, *what, a.via, a.ent);
                }
            }
            Op::Delegate { p, key, how, lag, seed } => {
                let p = *p as usize % np;
                let ks = self.of(p, |o| matches!(o, Obj::Key(_)));
                if let Some(Obj::Key(k)) = pick(&ks, *key as usize) {
                    self.delegate(p, k, *how, *lag, *seed, a.via, a.ent);
                }
            }
            Op::Sync { p } => {
                for c in self.store[*p as usize % np].values_mut() {
                    c.durable = true;
                }
            }
            Op::Crash { p, seed, torn } => self.crash(*p as usize % np, *seed, *torn),
            Op::Partition { mask } => {
                self.split = *mask;
                self.rep.inc("fault.partition", 1);
            }
            Op::Heal => {
                self.split = 0;
                self.tick(0);
            }
            Op::Splice { mask, hdr, seed } => self.splice(*mask, *hdr as usize, *seed, a.ent),
            Op::Damage { p, obj, dmg } => {
                let p = *p as usize % np;
                let v = self.of(p, |_| true);
                // headers, keys and blocks rather than the rest
                let mut v2: Vec<Obj> = v.iter().copied().filter(|o| matches!(o, Obj::Key(_) | Obj::Hdr(_) | Obj::Blk(_))).collect();
                v2.extend(v);
                if let Some(o) = pick(&v2, *obj as usize) {
                    let g = self.genuine(o);
                    let b = dmg.apply(&g, &self.sibling(o));
                    let hurt = b != g;
                    self.rep.inc("fault.storage_damaged", u64::from(hurt));
                    let c = self.store[p].get_mut(&o).unwrap();
                    c.bytes = b;
                    c.hurt = hurt;
                    // whatever it was damaged for: use it
                    self.use_damaged(p, o, a.via, a.ent);
                }
            }
            Op::DamagedMsk { auth, dmg, f } => {
                let au = *auth as usize % na;
                let g = self.auths[au].msk.clone();
                let other = self.auths[(au + 1) % na].msk.clone();
                let b = dmg.apply(&g, &other);
                let pol = self.auths[au].pols.last().unwrap().1.clone();
                let Some(bi) = self.via(a.via, Cap::Issue) else { return };
                self.rep.inc("fault.storage_damaged", u64::from(b != g));
                let m = alloc::mark();
                let _ = self.call(bi, a.ent, "C06", "issue-with-damaged-master-key", |k| k.user_key(&b, f, &pol));
                self.memory(m, b.len() + pol.len());
            }
            Op::Reload { p, obj } => {
                let p = *p as usize % np;
                let v = self.of(p, |o| !matches!(o, Obj::Pol(..) | Obj::Blk(_)));
                if let Some(o) = pick(&v, *obj as usize) {
                    self.reload(p, o, a.via, a.ent);
                }
            }
            Op::Raw { auth, key, attrs, len } => {
                let au = *auth as usize % na;
                let Some(bi) = self.via(a.via, Cap::Raw) else { return };
                let ks: Vec<usize> = (0..self.keys.len()).filter(|k| self.keys[*k].auth == au).collect();
                let Some(k) = pick(&ks, *key as usize) else { return };
                let (pol, js) = self.auths[au].pols.last().unwrap().clone();
                let names = pol.attrs();
                let list: Vec<Attr> = attrs.iter().map(|i| names[*i as usize % names.len()].clone()).collect();
                let gamma = pol.gamma(&list).unwrap();
                if gamma.is_empty() || gamma.iter().collect::<BTreeSet<_>>().len() != gamma.len() {
                    return;
                }
                let (open, strict) = self.may(k, au, &gamma);
                let (mpk, kb) = (self.auths[au].mpk.clone(), self.keys[k].bytes.clone());
                let r = self.call(bi, a.ent, "C02 C16", "raw", |b| b.raw(&mpk, &kb, &js, &list, *len as usize));
                self.rep.ev(&format!("raw {}", class(&r)));
                self.rep.nontrivial = true;
                match r {
                    Ok(true) if !open => self.v("C01", "raw-opened", format!("key {k} ({:?}) decrypts values {gamma:?}", self.keys[k].b)),
                    Ok(true) => {}
                    Err(Er::Crash(_) | Er::Trip(_)) => {}
                    x if open && strict => {
                        let t = self.open_tags(k, None);
                        self.v(&t, "raw-not-opened", format!("key {k} ({:?}) does not decrypt values {gamma:?}: {x:?}", self.keys[k].b))
                    }
                    _ => {}
                }
            }
            Op::Bad { auth, kind, seed } => self.bad(*auth as usize % na, *kind, *seed, a.via, a.ent),
        }
    }

    fn memory(&mut self, mark: i64, input: usize) {
        let peak = alloc::peak_since(mark);
        let bound = (4 << 20) + 600 * input as i64;
        if peak > bound {
            self.v("C06", "memory", format!("{peak} bytes of memory for an input of {input} bytes"));
        }
    }

    fn rotate(&mut self, au: usize, list: &[Attr], via: u8, ent: u64) -> bool {
        let (pol, js) = self.auths[au].pols.last().unwrap().clone();
        let mut want = pol.clone();
        let fits = list.iter().all(|a| want.rotate(a));
        let bi = via as usize % self.backs.len();
        let r = self.call(bi, ent, "C03 C16", "rotate", |b| b.rotate(&js, list));
        self.rep.ev(&format!("rotate {au} {list:?} {}", class(&r)));
        match r {
            Ok(s) if fits => {
                if let Err(m) = want.same_as_json(s.as_bytes()) {
                    self.v("C03", "rotation-wrong", format!("rotation of {list:?}: {m}"));
                    return false;
                }
                self.auths[au].pols.push((want, s));
                self.rep.inc("rotations", list.len() as u64);
                true
            }
            Ok(_) => {
                self.v("C03", "rotation-beyond-capacity", format!("rotation of {list:?} accepted with {} of {} values used", pol.last, pol.max));
                false
            }
            Err(Er::Err(m)) if fits => {
                self.v("C03", "rotation-refused", format!("rotation of {list:?} refused with {} of {} values used: {m}", pol.last, pol.max));
                false
            }
            Err(_) => false,
        }
    }

    fn issue(&mut self, au: usize, lag: u8, f: &F, via: u8, ent: u64) -> Option<usize> {
        let bi = self.via_f(via, Cap::Issue, f)?;
        let n = self.auths[au].pols.len();
        let ver = (n - 1).saturating_sub(lag as usize);
        let (pol, js) = self.auths[au].pols[ver].clone();
        let msk = self.auths[au].msk.clone();
        let r = self.call(bi, ent, "C02 C16", "issue", |b| b.user_key(&msk, f, &js));
        self.rep.ev(&format!("issue {} {}", class(&r), r.as_ref().map_or(0, |b| hash(b))));
        let want = f.compile(&pol);
        match (r, want) {
            (Ok(bytes), Ok(b)) => {
                let kind = if b.dup() { KeyKind::Other } else { KeyKind::Plain };
                let t = if ver > 0 { "C02 C03" } else { "C02" };
                if let Some(m) = key_shape(&bytes, &b) {
                    self.v(t, "key-shape", format!("the key for {f:?} {m}"));
                }
                self.keys.push(Key { auth: au, ver, f: f.clone(), b, anc: vec![], kind, back: bi, bytes, from: None });
                Some(self.keys.len() - 1)
            }
            (Ok(_), Err(m)) => {
                self.v("C16", "bad-accepted", format!("a key for {f:?} is issued although {m}"));
                None
            }
            (Err(Er::Err(m)), Ok(b)) if !b.dup() => {
                let t = if ver > 0 { "C02 C03" } else { "C02" };
                self.v(t, "issue-refused", format!("a key for {f:?} (policy {ver}) is refused: {m}"));
                None
            }
            _ => None,
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn encrypt(&mut self, au: usize, ver: usize, pol: &Copy, mpk: &Copy, list: &[Attr], sz: (usize, usize), meta: bool, via: u8, ent: u64) -> Option<usize> {
        let mut r = Rng::of(&[ent, 7]);
        let (uid, ad) = (r.bytes(sz.0), r.bytes(sz.1));
        let n = self.backs.len();
        let bi = (0..n).map(|i| (i + via as usize) % n).find(|i| {
            let b = &self.backs[*i];
            (meta || b.has(Cap::NoMeta)) && (sz.0 > 0 || b.has(Cap::NoUid)) && (sz.1 == 0 || b.has(Cap::Ad))
        });
        let bi = bi.unwrap_or(via as usize % n);
        let meta = meta || !self.backs[bi].has(Cap::NoMeta);
        let (mut uid, mut ad) = (uid, ad);
        if !self.backs[bi].has(Cap::Ad) {
            ad.clear();
        }
        if !self.backs[bi].has(Cap::NoUid) && uid.is_empty() {
            uid.push(r.next() as u8);
        }
        let (uid, ad) = if meta { (uid, ad) } else { (vec![], vec![]) };
        let hurt = pol.hurt || mpk.hurt;
        let js = String::from_utf8_lossy(&pol.bytes).into_owned();
        let mk = alloc::mark();
        let props = if hurt { "C06" } else { "C02 C16" };
        let res = self.call(bi, ent, props, "encrypt", |b| {
            b.enc_header(&mpk.bytes, &js, list, if meta { Some((&uid, &ad)) } else { None })
        });
        self.memory(mk, mpk.bytes.len() + js.len() + sz.0 + sz.1 + 100 * list.len());
        self.rep.ev(&format!("encrypt {} {}", class(&res), res.as_ref().map_or(0, |b| hash(&b.1))));
        if hurt {
            return None;
        }
        let gamma = self.auths[au].pols[ver].0.gamma(list).unwrap();
        let strict = !gamma.is_empty() && gamma.iter().collect::<BTreeSet<_>>().len() == gamma.len();
        match res {
            Ok((sk, bytes)) => {
                if sk.len() != 32 {
                    self.v("C02", "key-size", format!("a content key of {} bytes", sk.len()));
                }
                let i = self.hdrs.len();
                for (what, secret) in [("content key", &sk), ("resource id", &uid), ("additional data", &ad)] {
                    if secret.len() >= 8 && bytes.windows(8).any(|w| w == &secret[..8] || w == &secret[secret.len() - 8..]) {
                        self.v("C01", "in-the-clear", format!("the header of {} bytes contains its {what}", bytes.len()));
                    }
                }
                if let Some(j) = self.sks.insert(sk.clone(), i) {
                    self.v("C12", "key-repeated", format!("headers {j} and {i} have the same content key"));
                }
                self.hdrs.push(Hdr { auth: au, ver, gamma, sk, uid, ad, meta, back: bi, bytes, strict });
                Some(i)
            }
            Err(Er::Err(m)) if strict => {
                let t = if ver > 0 { "C02 C03" } else { "C02" };
                self.v(t, "encrypt-refused", format!("encryption for {list:?} (policy {ver}) is refused: {m}"));
                None
            }
            Err(_) => None,
        }
    }

    /// (the key may open it, success is required)
    fn may(&self, k: usize, auth: usize, gamma: &[u32]) -> (bool, bool) {
        let key = &self.keys[k];
        let open = key.auth == auth && key.b.opens(gamma) && key.anc.iter().all(|b| b.opens(gamma));
        let strict = open
            && match key.kind {
                KeyKind::Plain | KeyKind::Narrow => true,
                KeyKind::OrAnd => key.anc.iter().all(|b| implied(&key.b, b, gamma)),
                KeyKind::Other => false,
            };
        (open, strict)
    }
    fn open_tags(&self, k: usize, h: Option<usize>) -> String {
        let key = &self.keys[k];
        let mut t = if key.anc.is_empty() { "C02".to_string() } else { "C04".to_string() };
        if let Some(h) = h {
            let h = &self.hdrs[h];
            if h.ver != key.ver || h.ver > 0 {
                t += " C03";
            }
            if h.back != key.back {
                t += " C05";
            }
            if ["cached", "native", "jsc"].contains(&self.c.backs[0].as_str()) || self.c.backs.len() > 1 {
                t += " C09";
            }
        }
        if self.restarts > 0 {
            t += " C05";
        }
        t
    }
    fn closed_tags(&self, k: usize, h: usize) -> String {
        let (key, h) = (&self.keys[k], &self.hdrs[h]);
        let mut t = "C01".to_string();
        if key.auth == h.auth && h.ver != key.ver {
            t += " C03";
        }
        if !key.anc.is_empty() {
            t += " C04";
        }
        if key.auth != h.auth {
            t += " C16";
        }
        t
    }

    fn read_genuine(&mut self, k: usize, h: usize, bi: usize, ent: u64, stored: bool) {
        let (kb, hb) = (self.keys[k].bytes.clone(), self.hdrs[h].bytes.clone());
        let (open, strict) = self.may(k, self.hdrs[h].auth, &self.hdrs[h].gamma);
        let strict = strict && self.hdrs[h].strict;
        let known = self.keys[k].kind == KeyKind::OrAnd && open && !strict && self.hdrs[h].strict;
        let mut tags = self.open_tags(k, Some(h));
        if stored {
            tags += " C05";
        }
        let props = if open { format!("{tags} C16") } else { "C16".to_string() };
        let r = self.call(bi, ent, &props, "read", |b| b.dec_header(&kb, &hb));
        self.rep.nontrivial = true;
        self.rep.inc(if open { "reads.granted" } else { "reads.not_granted" }, 1);
        self.rep.ev(&format!("read {k} {h} {bi} {}", class(&r)));
        let key = &self.keys[k];
        let hd = &self.hdrs[h];
        self.rep.states.push(hash(
            format!(
                "{} {:?} {} {} {} {} {} {:?}",
                self.c.focus,
                key.kind,
                open,
                key.auth == hd.auth,
                (key.ver as i64 - hd.ver as i64).clamp(-3, 3),
                hd.gamma.len().min(6),
                class(&r),
                shape(&key.b)
            )
            .as_bytes(),
        ));
        let what = format!(
            "key {k} of authority {} ({:?}, policy {}, {:?}, from {:?}) on header {h} of authority {} (values {:?}, policy {}) through {}",
            key.auth, key.kind, key.ver, key.b, key.anc.len(), hd.auth, hd.gamma, hd.ver, self.c.backs[bi]
        );
        let good = |d: &Dec| d.sk == hd.sk && d.uid == hd.uid && d.ad == hd.ad;
        match &r {
            Ok(d) if open => {
                if !good(d) {
                    if strict {
                        self.v(&tags, "wrong-content", format!("{what}: the content differs"));
                    } else if known {
                        self.v("C04", "or-and-wrong", format!("{what}: a wrong content key"));
                    }
                }
            }
            Ok(d) => {
                if let Some(j) = self.sks.get(&d.sk) {
                    let t = self.closed_tags(k, *j);
                    self.v(&t, "opened", format!("{what}: yields the content key of header {j}"));
                } else if !d.ad.is_empty() && d.ad == hd.ad {
                    let t = self.closed_tags(k, h);
                    self.v(&t, "opened", format!("{what}: yields the metadata"));
                }
            }
            Err(Er::Err(m)) if strict => self.v(&tags, "not-opened", format!("{what}: {m}")),
            Err(Er::Err(m)) if known => self.v("C04", "or-and-wrong", format!("{what}: {m}")),
            Err(_) => {}
        }
    }

    /// a party reads with its own copies, which may be damaged
    fn read(&mut self, p: usize, ko: Obj, ho: Obj, via: u8, ent: u64) {
        let (Obj::Key(k), Obj::Hdr(h)) = (ko, ho) else { return };
        let (kc, hc) = (self.store[p][&ko].clone(), self.store[p][&ho].clone());
        let bi = via as usize % self.backs.len();
        if !kc.hurt && !hc.hurt {
            self.read_genuine(k, h, bi, ent, kc.stored || hc.stored);
            return;
        }
        let m = alloc::mark();
        let r = self.call(bi, ent, "C06", "read-damaged", |b| b.dec_header(&kc.bytes, &hc.bytes));
        self.memory(m, kc.bytes.len() + hc.bytes.len());
        self.rep.nontrivial = true;
        self.rep.inc("reads.damaged", 1);
        self.rep.ev(&format!("read damaged {k} {h} {}", class(&r)));
        let tag = |b: &[u8], g: &[u8]| (b.len().cmp(&g.len()), b.iter().zip(g).position(|(x, y)| x != y).unwrap_or(0).min(500) / 4);
        self.rep.states.push(hash(format!("{:?} {:?} {}", tag(&kc.bytes, &self.keys[k].bytes), tag(&hc.bytes, &self.hdrs[h].bytes), class(&r)).as_bytes()));
        let Ok(d) = r else { return };
        let hd = &self.hdrs[h];
        // somebody else's genuine key or header instead of the own one
        let swapped_key = (0..self.keys.len()).find(|i| self.keys[*i].bytes == kc.bytes);
        let swapped_hdr = (0..self.hdrs.len()).find(|i| self.hdrs[*i].bytes == hc.bytes);
        let (eff_k, eff_h) = (swapped_key.unwrap_or(k), swapped_hdr.unwrap_or(h));
        let (open, _) = self.may(eff_k, self.hdrs[eff_h].auth, &self.hdrs[eff_h].gamma);
        let e = &self.hdrs[eff_h];
        let what = format!("damaged copies of key {k} ({}) and header {h} ({})", diff(&kc.bytes, &self.keys[k].bytes), diff(&hc.bytes, &hd.bytes));
        if let Some(j) = self.sks.get(&d.sk).copied() {
            // a content key was recovered: was it granted?
            let x = &self.hdrs[j];
            // torn writes mix keys: any key that left a whole row behind counts
            let mut from = vec![eff_k];
            for (i, key) in self.keys.iter().enumerate() {
                let n = u32_at(&key.bytes, 0);
                let row = |q: usize| key.bytes.get(4 + 96 * q..4 + 96 * q + 8);
                if (0..n.min(400)).filter_map(row).any(|w| kc.bytes.windows(8).any(|v| v == w)) {
                    from.push(i);
                }
            }
            if !from.iter().any(|i| self.may(*i, x.auth, &x.gamma).0) {
                let t = format!("{} C06", self.closed_tags(eff_k, j));
                self.v(&t, "opened-damaged", format!("{what} yield the content key of header {j}, which the key is not granted"));
                return;
            }
        }
        let enc_end = model::encaps_end(&hc.bytes);
        let bare = enc_end >= hc.bytes.len();
        let genuine = |x: &Hdr| d.sk == x.sk && d.uid == x.uid && d.ad == x.ad;
        if genuine(e) || self.hdrs.iter().any(genuine) {
            return;
        }
        if !e.meta && swapped_hdr.is_some() {
            return; // nothing authenticates a header without metadata
        }
        if !hd.meta && swapped_hdr.is_none() {
            return;
        }
        if bare {
            if !d.uid.is_empty() || !d.ad.is_empty() {
                self.v("C06", "lie", format!("{what}: metadata out of nothing"));
                return;
            }
            // the encapsulation is intact: the content key is the original one
            let g = &e.bytes[4..model::encaps_end(&e.bytes).min(e.bytes.len())];
            if swapped_key.is_some_and(|x| x == k) && open && hc.bytes[4..].starts_with(g) && d.sk != e.sk && self.may(eff_k, e.auth, &e.gamma).1 {
                self.v("C06", "lie", format!("{what}: another content key"));
            }
            return;
        }
        self.v("C06", "lie", format!("{what}: decryption succeeds with a content key or metadata that nobody encrypted"));
    }

    fn use_damaged(&mut self, p: usize, o: Obj, via: u8, ent: u64) {
        match o {
            Obj::Key(k) => {
                let hs: Vec<Obj> = self.of(p, |o| matches!(o, Obj::Hdr(_)));
                let good: Vec<Obj> = hs
                    .iter()
                    .copied()
                    .filter(|o| matches!(o, Obj::Hdr(h) if self.may(k, self.hdrs[*h].auth, &self.hdrs[*h].gamma).0))
                    .collect();
                if let Some(h) = pick(&good, ent as usize % 64).or(pick(&hs, ent as usize % 64)) {
                    self.read(p, o, h, via, ent);
                }
                if ent % 5 == 0 {
                    self.delegate(p, k, 0, 0, ent, via, ent);
                }
            }
            Obj::Hdr(h) => {
                let ks: Vec<Obj> = self.of(p, |o| matches!(o, Obj::Key(_)));
                let good: Vec<Obj> = ks
                    .iter()
                    .copied()
                    .filter(|o| matches!(o, Obj::Key(k) if self.may(*k, self.hdrs[h].auth, &self.hdrs[h].gamma).0))
                    .collect();
                if let Some(k) = pick(&good, ent as usize % 64).or(pick(&ks, ent as usize % 64)) {
                    self.read(p, k, o, via, ent);
                }
            }
            Obj::Blk(b) => self.read_block(p, b, b, 0, via, ent),
            Obj::Mdk(a) => {
                let ks: Vec<Obj> = self.of(p, |o| matches!(o, Obj::Key(k) if self.keys[*k].auth == a));
                if let Some(Obj::Key(k)) = pick(&ks, ent as usize % 64) {
                    self.delegate(p, k, (ent % 3) as u8, 0, ent, via, ent);
                }
            }
            Obj::Mpk(a) | Obj::Pol(a, _) => {
                if let (Some((v, pol)), Some(mpk)) = (self.party_policy(p, a, 0), self.store[p].get(&Obj::Mpk(a)).cloned()) {
                    let pol = if let Obj::Pol(a, v) = o { self.store[p][&Obj::Pol(a, v)].clone() } else { pol };
                    if pol.hurt || mpk.hurt {
                        let names = self.auths[a].pols[0].0.attrs();
                        let l = vec![names[ent as usize % names.len()].clone()];
                        self.encrypt(a, v, &pol, &mpk, &l, (8, 0), true, via, ent);
                        if pol.hurt {
                            let js = String::from_utf8_lossy(&pol.bytes).into_owned();
                            let bi = via as usize % self.backs.len();
                            let m = alloc::mark();
                            let _ = self.call(bi, ent, "C06", "rotate-damaged", |b| b.rotate(&js, &l));
                            if let Some(bi) = self.via(via, Cap::Issue) {
                                let msk = self.auths[a].msk.clone();
                                let f = if self.backs[bi].has(Cap::All) && ent % 2 == 0 { F::All } else { F::A(l[0].clone()) };
                                let _ = self.call(bi, ent, "C06", "issue-with-damaged-policy", |b| b.user_key(&msk, &f, &js));
                            }
                            self.memory(m, js.len() + self.auths[a].msk.len());
                        }
                    }
                }
            }
        }
    }

    fn read_block(&mut self, p: usize, x: usize, y: usize, what: u8, via: u8, ent: u64) {
        let bi = via as usize % self.backs.len();
        let c = self.store[p][&Obj::Blk(x)].clone();
        let (bx, by) = (&self.blks[x], &self.blks[y]);
        // the position it is read back at
        let (mut sk, mut uid, mut n) = (bx.sk.clone(), bx.uid.clone(), bx.n);
        let mut r = Rng::of(&[ent, 9]);
        match what {
            0 | 1 => {}
            2 => n = by.n,
            3 => {
                uid = by.uid.clone();
                n = by.n;
            }
            4 => {
                sk = by.sk.clone();
                uid = by.uid.clone();
                n = by.n;
            }
            5 => n = n.wrapping_add(*r.pick(&[1, u64::MAX, 256, 1 << 8, 1 << 16, 1 << 31, 1 << 32])),
            6 => match r.below(4) {
                0 => uid.push(0),
                1 => {
                    uid.pop();
                }
                2 => {
                    if !uid.is_empty() {
                        let i = r.below(uid.len());
                        uid[i] ^= 1 << r.below(8);
                    }
                }
                _ => uid.clear(),
            },
            7 => {
                let i = r.below(sk.len().max(1));
                sk[i] ^= 1 << r.below(8);
            }
            _ => (uid, n) = model::shifted(&mut r, &uid, n),
        }
        if !self.backs[bi].has(Cap::Block64) && n > 0x7fff_ffff {
            return;
        }
        let hit = self.blks.iter().find(|b| b.bytes == c.bytes && b.sk == sk && b.uid == uid && b.n == n).map(|b| b.data.clone());
        let props = if c.hurt { "C06 C07" } else { "C07 C16" };
        let m = alloc::mark();
        let res = self.call(bi, ent, props, "read-block", |b| b.dec_block(&sk, &uid, n, &c.bytes));
        self.memory(m, c.bytes.len());
        self.rep.nontrivial = true;
        self.rep.inc(if hit.is_some() { "blocks.genuine" } else { "blocks.misplaced_or_damaged" }, 1);
        self.rep.ev(&format!("block {x} {what} {}", class(&res)));
        self.rep.states.push(hash(format!("blk {what} {} {} {} {}", hit.is_some(), class(&res), c.bytes.len().min(300), n.min(300)).as_bytes()));
        let desc = format!("block {x} ({}) read as block {n} of resource {uid:02x?} through {}", diff(&c.bytes, &self.blks[x].bytes), self.c.backs[bi]);
        match (res, hit) {
            (Ok(d), Some(w)) if d == w => {}
            (Ok(_), Some(_)) => self.v("C02 C07", "block-wrong", format!("{desc}: other data")),
            (Ok(_), None) => {
                let t = if c.hurt { "C06 C07" } else { "C07" };
                self.v(t, "block-accepted", format!("{desc}: accepted"));
            }
            (Err(Er::Err(e)), Some(_)) => {
                let mut t = "C02 C07".to_string();
                if self.blks[x].hdr < self.hdrs.len() && (c.stored || self.restarts > 0 || self.backs.len() > 1) {
                    t += " C05";
                }
                self.v(&t, "block-refused", format!("{desc}: {e}"));
            }
            _ => {}
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn delegate(&mut self, p: usize, k: usize, how: u8, lag: u8, seed: u64, via: u8, ent: u64) {
        let au = self.keys[k].auth;
        let Some((ver, pol)) = self.party_policy(p, au, lag) else { return };
        let mut r = Rng::new(seed);
        // the delegation key of another authority, now and then
        let ma = if how == 6 { (au + 1) % self.auths.len() } else { au };
        let (Some(mdk), Some(kc)) = (self.store[p].get(&Obj::Mdk(ma)).cloned(), self.store[p].get(&Obj::Key(k)).cloned()) else { return };
        let junk = ma != au;
        let pm = self.auths[au].pols[ver].0.clone();
        let pf = self.keys[k].f.clone();
        let subset = |r: &mut Rng| {
            let mut v = pm.attrs();
            r.shuffle(&mut v);
            let n = r.range(1, v.len().min(8));
            v.truncate(n);
            v.into_iter().map(F::A).reduce(|a, b| F::Or(Box::new(a), Box::new(b))).unwrap()
        };
        let f = match how {
            0 => F::All,
            1 | 6 if pf == F::All => subset(&mut r),
            1 | 6 => prune(&mut r, &pf),
            2 => {
                let g = if pf == F::All { subset(&mut r) } else { pf.clone() };
                map_leaves(&g, &mut |a| {
                    let (x, n) = a.split_once("::").unwrap();
                    for (ax, l, h) in &pm.axes {
                        if ax == x && *h && r.chance(0.5) {
                            let i = l.iter().position(|y| y == n).unwrap_or(0);
                            return format!("{x}::{}", l[r.below(i + 1)]);
                        }
                    }
                    a.clone()
                })
            }
            3 => {
                let g = if pf == F::All { subset(&mut r) } else { prune(&mut r, &pf) };
                or_to_and(&mut r, &g, 0.6)
            }
            7 => or_to_and(&mut r, &pf, 1.0),
            4 => {
                // something of its own added
                let names = pm.attrs();
                let x = Box::new(F::A(r.pick(&names).clone()));
                let g = Box::new(if pf == F::All { subset(&mut r) } else { pf.clone() });
                match r.below(4) {
                    0 => F::And(g, x),
                    1 => F::Or(g, x),
                    2 => *x,
                    _ => {
                        let y = r.pick(&names).clone();
                        map_leaves(&g, &mut |a| if r.chance(0.4) { y.clone() } else { a.clone() })
                    }
                }
            }
            _ => model::random_formula(&mut r, &pm, 5, false),
        };
        let Some(bi) = self.via_f(via, Cap::Delegate, &f) else { return };
        let hurt = pol.hurt || mdk.hurt || kc.hurt;
        let js = String::from_utf8_lossy(&pol.bytes).into_owned();
        let mk = alloc::mark();
        let props = if hurt { "C06" } else { "C04 C16" };
        let res = self.call(bi, ent, props, "delegate", |b| b.delegate(&mdk.bytes, &kc.bytes, &f, &js));
        self.memory(mk, mdk.bytes.len() + kc.bytes.len() + js.len());
        self.rep.nontrivial = true;
        self.rep.ev(&format!("delegate {k} {how} {} {}", class(&res), res.as_ref().map_or(0, |b| hash(b))));
        if hurt {
            return;
        }
        let par = &self.keys[k];
        let mut anc = par.anc.clone();
        anc.push(par.b.clone());
        let (b, kind, must) = if f == F::All {
            (par.b.clone(), par.kind, !junk)
        } else {
            match f.compile(&pm) {
                Err(_) => {
                    if res.is_ok() {
                        self.v("C16 C04", "bad-accepted", format!("delegation to {f:?} accepted, which the policy does not know"));
                    }
                    return;
                }
                Ok(b) => {
                    let (mut pl, mut cl) = (vec![], vec![]);
                    par.b.leaves(&mut pl);
                    b.leaves(&mut cl);
                    if cl.iter().any(|v| !pl.contains(v)) {
                        if res.is_ok() {
                            let m = format!("delegation of key {k} ({:?}) to {f:?} ({b:?}) accepted although it names other values", par.b);
                            self.v("C04", "outside-accepted", m);
                        }
                        return;
                    }
                    let mut kind = if b.dup() { KeyKind::Other } else { relation(&par.b, &b) };
                    if !matches!(par.kind, KeyKind::Plain | KeyKind::Narrow) && kind != KeyKind::Other {
                        kind = par.kind;
                    }
                    let must = kind == KeyKind::Narrow && !junk;
                    (b, kind, must)
                }
            }
        };
        let kind = if junk {
            KeyKind::Other
        } else if f == F::All && kind == KeyKind::Plain {
            KeyKind::Narrow
        } else {
            kind
        };
        self.rep.states.push(hash(format!("del {how} {kind:?} {} {:?}", class(&res), shape(&b)).as_bytes()));
        match res {
            Ok(bytes) => {
                if !junk {
                    if let Some(m) = key_shape(&bytes, &b) {
                        self.v("C04", "key-shape", format!("the delegated key for {f:?} {m}"));
                    }
                }
                let from = (f == F::All && !junk && !self.keys[k].b.dup()).then_some((k, ent));
                if from.is_some() && key_columns(&kc.bytes) > Some(1) {
                    // a pure disjunction has nothing to draw, any other key is drawn anew
                    let again = bytes == kc.bytes || self.keys.iter().any(|o| o.bytes == bytes && o.from.is_some_and(|x| x.0 == k && x.1 != ent));
                    if again {
                        self.v("C04", "not-rerandomised", format!("an unrestricted delegation of key {k} ({:?}) gave a key that exists already", self.keys[k].b));
                    }
                }
                let ver = self.keys[k].ver;
                let i = self.keys.len();
                self.keys.push(Key { auth: au, ver, f: if f == F::All { self.keys[k].f.clone() } else { f }, b, anc, kind, back: bi, bytes: bytes.clone(), from });
                self.store[p].insert(Obj::Key(i), Copy { bytes, durable: false, hurt: false, stored: false });
                // straight away: what it opens
                if self.toy {
                    for h in 0..self.hdrs.len() {
                        self.read_genuine(i, h, bi, ent ^ h as u64, false);
                    }
                }
            }
            Err(Er::Err(m)) if must => {
                self.v("C04", "delegate-refused", format!("delegation of key {k} ({:?}) to {f:?} ({b:?}) refused: {m}", self.keys[k].b))
            }
            _ => {}
        }
    }

    fn crash(&mut self, p: usize, seed: u64, torn: bool) {
        let mut r = Rng::new(seed);
        self.rep.inc("fault.crash_restart", 1);
        self.restarts += 1;
        let objs: Vec<Obj> = self.store[p].keys().copied().collect();
        for o in objs {
            let sib = self.sibling(o);
            let c = self.store[p].get_mut(&o).unwrap();
            c.stored = true;
            if c.durable {
                continue;
            }
            match r.below(if torn { 4 } else { 2 }) {
                0 => {
                    self.store[p].remove(&o);
                    self.rep.inc("fault.write_lost", 1);
                }
                2 => {
                    let n = c.bytes.len().max(1);
                    let d = match r.below(3) {
                        0 => Dmg::Cut(r.below(n) as u32),
                        1 => Dmg::Zero(r.below(n) as u32, 1 << 20),
                        _ => Dmg::Torn(r.below(n) as u32),
                    };
                    let b = d.apply(&c.bytes, &sib);
                    c.hurt = c.hurt || b != c.bytes;
                    c.bytes = b;
                    self.rep.inc("fault.write_torn", 1);
                }
                _ => {}
            }
        }
        self.note("C05 C13", "restart");
        for b in self.backs.iter_mut() {
            b.restart();
        }
        self.rep.ev("crash");
    }

    fn reload(&mut self, p: usize, o: Obj, via: u8, ent: u64) {
        let c = self.store[p][&o].clone();
        let bi = via as usize % self.backs.len();
        let (k, b) = match o {
            Obj::Mpk(_) => (Kind::Mpk, c.bytes.clone()),
            Obj::Mdk(_) => (Kind::Mdk, c.bytes.clone()),
            Obj::Key(_) => (Kind::Key, c.bytes.clone()),
            Obj::Hdr(_) => {
                let e = model::encaps_end(&c.bytes).min(c.bytes.len());
                (Kind::Ct, c.bytes.get(4..e).unwrap_or(&[]).to_vec())
            }
            _ => return,
        };
        let props = if c.hurt { "C06" } else { "C05 C16" };
        let m = alloc::mark();
        let r = self.call(bi, ent, props, "reload", |x| x.reload(k, &b));
        self.memory(m, b.len());
        self.rep.nontrivial = true;
        self.rep.ev(&format!("reload {o:?} {}", class(&r)));
        if c.hurt {
            return;
        }
        let strict = if let Obj::Hdr(h) = o { self.hdrs[h].strict } else { true };
        match r {
            Ok(x) if x != b => self.v("C05", "reload-differs", format!("{o:?}: {} bytes loaded and stored again: {}", b.len(), diff(&x, &b))),
            Err(Er::Err(m)) if strict => self.v("C05", "reload-refused", format!("{o:?}: {m}")),
            _ => {}
        }
        // the authority restarts as well
        if let Obj::Mpk(a) = o {
            let b = self.auths[a].msk.clone();
            let r = self.call(bi, ent, "C05 C16", "reload", |x| x.reload(Kind::Msk, &b));
            if !matches!(&r, Ok(x) if *x == b) {
                self.v("C05", "reload-differs", format!("master private key: {r:?}"));
            }
        }
    }

    /// parties pool keys none of which opens the header
    fn splice(&mut self, mask: u8, hdr: usize, seed: u64, ent: u64) {
        if self.hdrs.is_empty() {
            return;
        }
        let mut r = Rng::new(seed);
        // a header nobody in the pool opens, but that the pool has something for
        let pool: Vec<usize> = {
            let mut v: BTreeSet<usize> = BTreeSet::new();
            for p in 0..self.c.parties as usize {
                if mask >> p & 1 == 1 {
                    for o in self.of(p, |o| matches!(o, Obj::Key(_))) {
                        if let Obj::Key(k) = o {
                            v.insert(k);
                        }
                    }
                }
            }
            if mask == 0xff {
                v.extend(0..self.keys.len());
            }
            v.into_iter().collect()
        };
        for i in 0..self.hdrs.len() {
            // 255: the last one first
            let h = (if hdr == 255 { self.hdrs.len() - 1 } else { hdr } + i) % self.hdrs.len();
            let hd = &self.hdrs[h];
            let ks: Vec<usize> = pool.iter().copied().filter(|k| self.keys[*k].auth == hd.auth).collect();
            if ks.iter().any(|k| {
                let key = &self.keys[*k];
                // the rows of a delegated key also carry what its origin could do
                key.b.opens(&hd.gamma) || key.anc.iter().any(|b| b.opens(&hd.gamma))
            }) {
                continue;
            }
            let mut rows = vec![]; // (key, row bytes, value)
            for k in &ks {
                for (v, row) in key_rows(&self.keys[*k].bytes) {
                    if hd.gamma.contains(&v) {
                        rows.push((*k, row, v));
                    }
                }
            }
            if rows.len() < 2 {
                continue;
            }
            r.shuffle(&mut rows);
            let hb = hd.bytes.clone();
            let sk = hd.sk.clone();
            let auth = hd.auth;
            let v = hd.gamma[0];
            if r.chance(0.2) && self.outsider(h, auth, v, &hb, &sk, ent) {
                return;
            }
            let mut tries: Vec<Vec<(usize, i32)>> = vec![];
            if self.toy {
                if let Some(c) = self.combine(&rows, auth) {
                    tries.push(c);
                }
            } else {
                rows.truncate(8);
                for _ in 0..3 {
                    let n = r.range(1, rows.len().min(3));
                    let mut ix: Vec<usize> = (0..rows.len()).collect();
                    r.shuffle(&mut ix);
                    tries.push(ix[..n].iter().map(|i| (*i, 1)).collect());
                }
            }
            self.rep.inc("splices", 1);
            self.rep.nontrivial = true;
            self.rep.states.push(hash(format!("splice {} {}", rows.len(), ks.len()).as_bytes()));
            for t in tries {
                // one row per value, or the key cannot be written down
                let kb = spliced_key(&t.iter().map(|(i, c)| (rows[*i].2, rows[*i].1.clone(), *c)).collect::<Vec<_>>(), self.toy);
                let bi = 0;
                let d = self.call(bi, ent, "C16 C06", "read-spliced", |b| b.dec_header(&kb, &hb));
                let who: BTreeSet<usize> = t.iter().map(|(i, _)| rows[*i].0).collect();
                if matches!(&d, Ok(d) if d.sk == sk) || (self.toy && !matches!(d, Err(Er::Crash(_)))) {
                    let b: Vec<&B> = who.iter().map(|k| &self.keys[*k].b).collect();
                    let m = format!("parts of the keys {who:?} ({b:?}) put together open header {h} (values {:?}), which none of them opens", self.hdrs[h].gamma);
                    let t = if who.iter().any(|k| !self.keys[*k].anc.is_empty()) { "C01 C04" } else { "C01" };
                    let t = if who.len() > 1 { format!("{t} C12") } else { t.to_string() };
                    self.v(&t, "splice", m);
                    return;
                }
            }
            break;
        }
    }
    /// keys made from what everybody knows: the unit, the generator, the
    /// delegation key
    fn outsider(&mut self, h: usize, auth: usize, v: u32, hb: &[u8], sk: &[u8], ent: u64) -> bool {
        let mut rows: Vec<(&str, Vec<u8>)> = vec![];
        let mut unit = vec![0u8; 96];
        let mut gen = vec![0u8; 96];
        if self.toy {
            gen[0] = 3;
            unit[95] = 0xa3;
            gen[95] = 0xa3;
        } else {
            unit[0] = 0xc0;
            let x = "93e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8";
            gen = (0..96).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect();
        }
        rows.push(("the unit", unit));
        rows.push(("the generator", gen));
        let at = 4 + 96 * v as usize;
        if let Some(x) = self.auths[auth].mdk.as_ref().and_then(|m| m.get(at..at + 96)) {
            rows.push(("the delegation key", x.to_vec()));
        }
        // or nothing but the header
        let e = model::encaps_end(hb).min(hb.len());
        let parts = [hb, &hb[4.min(e)..e], &hb[..e], &hb[e.saturating_sub(288)..e], &hb[e..]];
        if parts.iter().any(|x| shake(x, sk.len()) == sk || (!sk.is_empty() && x.windows(sk.len()).any(|w| w == sk))) {
            self.v("C01", "outsider", format!("the key of header {h} can be computed from the header"));
            return true;
        }
        for (what, row) in rows {
            let kb = spliced_key(&[(v, row, 1)], self.toy);
            let d = self.call(0, ent, "C16 C06", "read-outside", |b| b.dec_header(&kb, hb));
            self.rep.inc("outsider_keys", 1);
            if matches!(&d, Ok(d) if d.sk == sk) {
                self.v("C01", "outsider", format!("a key made of {what} opens header {h}"));
                return true;
            }
        }
        false
    }
    /// exact arithmetic: a combination of rows with coefficients 1 and -1 that
    /// gives the master secret
    #[cfg(feature = "toy")]
    fn combine(&self, rows: &[(usize, Vec<u8>, u32)], auth: usize) -> Option<Vec<(usize, i32)>> {
        use crate::toy;
        let msk = &self.auths[auth].msk;
        let u64_at = |o: usize| u64::from_le_bytes(msk[o..o + 8].try_into().unwrap());
        let n = u32::from_be_bytes(msk[..4].try_into().unwrap()) as usize;
        let y = u64_at(4 + 32 * n);
        let third = toy::inv(3);
        let lam: Vec<u64> = rows
            .iter()
            .map(|(_, b, v)| toy::mul(toy::mul(u64::from_le_bytes(b[..8].try_into().unwrap()), third), u64_at(4 + 32 * *v as usize)))
            .collect();
        // everything a key has, or everything there is
        let mut sets: Vec<Vec<usize>> = rows.iter().map(|x| x.0).collect::<BTreeSet<_>>().iter().map(|k| (0..rows.len()).filter(|i| rows[*i].0 == *k).collect()).collect();
        sets.push((0..rows.len()).collect());
        for s in &sets {
            let sum = s.iter().fold(0, |a, i| toy::add(a, lam[*i]));
            if sum == y {
                return Some(s.iter().map(|i| (*i, 1)).collect());
            }
            // or without one of them
            if let Some(o) = s.iter().find(|o| toy::sub(sum, lam[**o]) == y) {
                return Some(s.iter().filter(|i| *i != o).map(|i| (*i, 1)).collect());
            }
        }
        // all combinations of a few: halves that meet
        let some = |ix: &[usize]| -> Option<Vec<(usize, i32)>> {
            let half = ix.len() / 2;
            let all = |ix: &[usize]| -> Vec<u64> {
                let mut v = vec![0];
                for i in ix {
                    let n = v.len();
                    for k in 0..n {
                        v.push(toy::add(v[k], lam[*i]));
                    }
                    for k in 0..n {
                        v.push(toy::sub(v[k], lam[*i]));
                    }
                }
                v
            };
            let (l, r) = (all(&ix[..half]), all(&ix[half..]));
            let seen: std::collections::HashMap<u64, usize> = l.iter().enumerate().rev().map(|(i, s)| (*s, i)).collect();
            let (b, a) = r.iter().enumerate().find_map(|(j, s)| seen.get(&toy::sub(y, *s)).map(|i| (j, *i)))?;
            let mut out = vec![];
            for (ix, mut code) in [(&ix[..half], a), (&ix[half..], b)] {
                for i in ix {
                    match code % 3 {
                        1 => out.push((*i, 1)),
                        2 => out.push((*i, -1)),
                        _ => {}
                    }
                    code /= 3;
                }
            }
            Some(out)
        };
        let mut sets: Vec<Vec<usize>> = sets.into_iter().take(3).filter(|s| s.len() > 1).collect();
        sets.push((0..rows.len()).collect());
        sets.iter().find_map(|s| some(&s[..s.len().min(12)]))
    }
    #[cfg(not(feature = "toy"))]
    fn combine(&self, _: &[(usize, Vec<u8>, u32)], _: usize) -> Option<Vec<(usize, i32)>> {
        None
    }

    /// requests that make no sense
    fn bad(&mut self, au: usize, kind: u8, seed: u64, via: u8, ent: u64) {
        let mut r = Rng::new(seed);
        let (pm, js) = self.auths[au].pols.last().unwrap().clone();
        let bi = via as usize % self.backs.len();
        let (msk, mpk) = (self.auths[au].msk.clone(), self.auths[au].mpk.clone());
        let names = pm.attrs();
        let some = r.pick(&names).clone();
        let strange = r.pick(&["Nope::a0", "Dept::nope", "Dept::", "::a0", "::", "Dept", "", "dept::a0", "Dept::A0", "Dept::a0x", "\u{e9}::\u{e8}"]).to_string();
        let unknown = !names.contains(&strange);
        let meta: Option<(&[u8], &[u8])> = Some((b"uid", b""));
        let p = "C16";
        let (res, must): (R<()>, bool) = match kind {
            0 => {
                let Some(bi) = self.via(via, Cap::Issue) else { return };
                let f = match r.below(3) {
                    0 => F::A(strange.clone()),
                    1 => F::And(Box::new(F::A(some)), Box::new(F::A(strange.clone()))),
                    _ => F::Or(Box::new(F::A(strange.clone())), Box::new(F::A(some))),
                };
                (self.call(bi, ent, p, "bad-issue", |b| b.user_key(&msk, &f, &js)).map(|_| ()), unknown)
            }
            1 => {
                let mut l = vec![some, strange.clone()];
                r.shuffle(&mut l);
                (self.call(bi, ent, p, "bad-encrypt", |b| b.enc_header(&mpk, &js, &l, meta)).map(|_| ()), unknown)
            }
            2 => (self.call(bi, ent, p, "bad-rotate", |b| b.rotate(&js, &[some, strange.clone()])).map(|_| ()), unknown),
            3 | 4 => {
                // a policy that grew beyond the keys
                let mut big = pm.clone();
                big.max += 50;
                let extra = r.range(1, 40);
                for _ in 0..extra {
                    big.rotate(&some);
                }
                let beyond = big.current(&some).unwrap() > self.auths[au].pols[0].0.max;
                let bj = big.json();
                if kind == 3 {
                    let Some(bi) = self.via(via, Cap::Issue) else { return };
                    let f = F::A(some);
                    (self.call(bi, ent, p, "bad-issue", |b| b.user_key(&msk, &f, &bj)).map(|_| ()), beyond)
                } else {
                    (self.call(bi, ent, p, "bad-encrypt", |b| b.enc_header(&mpk, &bj, &[some], meta)).map(|_| ()), beyond)
                }
            }
            5 | 6 => {
                // a policy that contradicts itself
                let bj = broken_policy(&mut r, &pm);
                let f = if r.chance(0.3) { F::All } else { F::A(some.clone()) };
                match r.below(4) {
                    0 => {
                        let cap = if f == F::All { Cap::All } else { Cap::Issue };
                        let Some(bi) = self.via(via, cap) else { return };
                        (self.call(bi, ent, p, "bad-issue", |b| b.user_key(&msk, &f, &bj)).map(|_| ()), false)
                    }
                    1 => (self.call(bi, ent, p, "bad-encrypt", |b| b.enc_header(&mpk, &bj, &[some], meta)).map(|_| ()), false),
                    2 => (self.call(bi, ent, p, "bad-rotate", |b| b.rotate(&bj, &[some])).map(|_| ()), false),
                    _ => {
                        let Some(bi) = self.via(via, Cap::Delegate) else { return };
                        if self.keys.is_empty() {
                            return;
                        }
                        let k = r.below(self.keys.len());
                        let (kb, mdk) = (self.keys[k].bytes.clone(), self.auths[self.keys[k].auth].mdk.clone().unwrap_or_default());
                        (self.call(bi, ent, p, "bad-delegate", |b| b.delegate(&mdk, &kb, &f, &bj)).map(|_| ()), false)
                    }
                }
            }
            7 => {
                let Some(bi) = self.via(via, Cap::All) else { return };
                let a = Box::new(F::A(some));
                let f = if r.chance(0.5) { F::And(a, Box::new(F::All)) } else { F::Or(Box::new(F::All), a) };
                (self.call(bi, ent, p, "bad-issue", |b| b.user_key(&msk, &f, &js)).map(|_| ()), true)
            }
            8 => {
                // nothing at all
                let l: Vec<Attr> = if r.chance(0.5) { vec![] } else { vec![some.clone(), some] };
                (self.call(bi, ent, p, "bad-encrypt", |b| b.enc_header(&mpk, &js, &l, meta)).map(|_| ()), false)
            }
            9 => {
                // another authority's key or policy
                let o = (au + 1) % self.auths.len();
                if o == au {
                    return;
                }
                let oj = self.auths[o].pols.last().unwrap().1.clone();
                let on = self.auths[o].pols[0].0.attrs();
                let oa = r.pick(&on).clone();
                if r.chance(0.5) {
                    let Some(bi) = self.via(via, Cap::Issue) else { return };
                    (self.call(bi, ent, p, "bad-issue", |b| b.user_key(&msk, &F::A(oa), &oj)).map(|_| ()), false)
                } else {
                    (self.call(bi, ent, p, "bad-encrypt", |b| b.enc_header(&mpk, &oj, &[oa], meta)).map(|_| ()), false)
                }
            }
            10 => {
                let n = *r.pick(&[0, 1, 16, 31, 33, 64]);
                let k = r.bytes(n);
                if r.chance(0.5) {
                    (self.call(bi, ent, p, "bad-block", |b| b.enc_block(&k, b"u", 0, b"data")).map(|_| ()), true)
                } else {
                    let d = r.bytes(60);
                    (self.call(bi, ent, p, "bad-block", |b| b.dec_block(&k, b"u", 0, &d)).map(|_| ()), true)
                }
            }
            11 => {
                let k = r.bytes(32);
                if r.chance(0.5) {
                    (self.call(bi, ent, p, "bad-block", |b| b.enc_block(&k, b"u", 0, b"")).map(|_| ()), true)
                } else {
                    let n = r.below(40);
                    let d = r.bytes(n);
                    (self.call(bi, ent, p, "bad-block", |b| b.dec_block(&k, b"u", 0, &d)).map(|_| ()), true)
                }
            }
            12 => {
                // objects of another kind
                let mut v: Vec<Vec<u8>> = vec![msk.clone(), mpk.clone(), js.clone().into_bytes(), vec![], vec![0; 100], r.bytes(200)];
                if let Some(h) = self.hdrs.last() {
                    v.push(h.bytes.clone());
                }
                if let Some(k) = self.keys.last() {
                    v.push(k.bytes.clone());
                }
                let (a, c) = (r.pick(&v).clone(), r.pick(&v).clone());
                match r.below(4) {
                    0 => {
                        let x = self.call(bi, ent, "C16 C06", "bad-read", |b| b.dec_header(&a, &c));
                        if let Ok(d) = &x {
                            if self.sks.contains_key(&d.sk) && !self.keys.iter().any(|k| k.bytes == a) {
                                self.v("C16 C01", "opened", "a content key recovered without a key".into());
                            }
                        }
                        (x.map(|_| ()), false)
                    }
                    1 => (self.call(bi, ent, "C16 C06", "bad-encrypt", |b| b.enc_header(&a, &js, &[some], meta)).map(|_| ()), a != mpk),
                    2 => {
                        let Some(bi) = self.via(via, Cap::Issue) else { return };
                        (self.call(bi, ent, "C16 C06", "bad-issue", |b| b.user_key(&a, &F::A(some), &js)).map(|_| ()), false)
                    }
                    _ => {
                        let Some(bi) = self.via(via, Cap::Delegate) else { return };
                        (self.call(bi, ent, "C16 C06", "bad-delegate", |b| b.delegate(&a, &c, &F::A(some), &js)).map(|_| ()), false)
                    }
                }
            }
            13 => {
                // policies without room, without axes
                let Some(bi) = self.via(via, Cap::Master) else { return };
                let (max, ax): (u32, bool) = *r.pick(&[(0, false), (1, false), (3, false), (1, true)]);
                let mut q = Policy { last: 0, max, axes: vec![], vals: BTreeMap::new() };
                if ax {
                    q.add_axis("X", &["a".to_string()], true);
                }
                let qj = q.json();
                let m = self.call(bi, ent, p, "bad-master", |b| b.master(&qj));
                if let (Ok(m), Some(bi)) = (&m, self.via(via, Cap::All)) {
                    let k = self.call(bi, ent, p, "bad-issue", |b| b.user_key(&m.msk, &F::All, &qj));
                    if k.is_ok() && !ax {
                        self.v(p, "bad-accepted", "an unrestricted key is issued for a policy without attributes".into());
                    }
                }
                (m.map(|_| ()), false)
            }
            _ => {
                // damaged JSON
                let Some(bi) = self.via(via, Cap::Issue) else { return };
                let d = Dmg::random(&mut r, js.len(), &[]);
                let b2 = d.apply(js.as_bytes(), b"{}");
                let bj = String::from_utf8_lossy(&b2).replace('\0', " ");
                let x = if r.chance(0.5) {
                    self.call(bi, ent, "C16 C06", "bad-issue", |b| b.user_key(&msk, &F::A(some), &bj)).map(|_| ())
                } else {
                    self.call(bi, ent, "C16 C06", "bad-encrypt", |b| b.enc_header(&mpk, &bj, &[some], meta)).map(|_| ())
                };
                (x, false)
            }
        };
        self.rep.nontrivial = true;
        self.rep.inc("fault.invalid_request", 1);
        self.rep.states.push(hash(format!("bad {kind} {} {must}", class(&res)).as_bytes()));
        self.rep.ev(&format!("bad {kind} {}", class(&res)));
        if must && res.is_ok() {
            self.v(p, "bad-accepted", format!("an invalid request of kind {kind} ({strange:?}) succeeds"));
        }
    }

    fn finish(&mut self) {
        self.step = usize::MAX / 2;
        // the network heals and everything is sent again
        self.split = 0;
        self.net.clear();
        for (p, o) in self.dest.clone() {
            let bytes = self.genuine(o);
            let c = self.store[p].entry(o).or_insert(Copy { bytes: vec![], durable: false, hurt: true, stored: false });
            if c.hurt {
                *c = Copy { bytes, durable: true, hurt: false, stored: false };
            }
        }
        self.now += 1000;
        // every key against every header
        let mut pairs: Vec<(usize, usize)> =
            (0..self.keys.len()).flat_map(|k| (0..self.hdrs.len()).map(move |h| (k, h))).collect();
        let mut r = Rng::of(&[self.c.acts.len() as u64, pairs.len() as u64]);
        r.shuffle(&mut pairs);
        if !self.toy {
            // as many that must open as that must not
            let (a, b): (Vec<_>, Vec<_>) = pairs.iter().partition(|(k, h)| self.may(*k, self.hdrs[*h].auth, &self.hdrs[*h].gamma).0);
            pairs = a.into_iter().take(self.c.matrix as usize / 2).chain(b.into_iter().take(self.c.matrix as usize / 2)).collect();
        }
        pairs.truncate(self.c.matrix as usize);
        if r.chance(0.5) {
            self.restarts += 1;
            for b in self.backs.iter_mut() {
                b.restart();
            }
        }
        for (i, (k, h)) in pairs.into_iter().enumerate() {
            let bi = i % self.backs.len();
            self.read_genuine(k, h, bi, i as u64, false);
            if self.rep.viol.len() > 4 {
                return;
            }
        }
        // parties read their blocks in order
        if self.c.matrix > 0 {
            for p in 0..self.c.parties as usize {
                for (i, o) in self.of(p, |o| matches!(o, Obj::Blk(_))).into_iter().enumerate().take(if self.toy { 200 } else { 6 }) {
                    if let Obj::Blk(b) = o {
                        if !self.store[p][&o].hurt {
                            self.read_block(p, b, b, 0, i as u8, i as u64);
                        }
                    }
                }
            }
        }
        if self.c.exhaust {
            self.exhaust();
        }
    }

    /// the announced number of attribute creations can be used, and no more
    fn exhaust(&mut self) {
        for au in 0..self.auths.len() {
            let (pm, _) = self.auths[au].pols.last().unwrap().clone();
            let names = pm.attrs();
            let room = pm.max - pm.last;
            if room > 12 {
                continue;
            }
            for i in 0..room {
                let a = names[i as usize % names.len()].clone();
                if !self.rotate(au, &[a], i as u8, u64::from(i)) {
                    return;
                }
            }
            let n = self.auths[au].pols.len();
            let last = names[(room.max(1) as usize - 1) % names.len()].clone();
            for bi in 0..self.backs.len() {
                // refused, alone and in a list, and nothing else changes
                self.rotate(au, &[last.clone()], bi as u8, 77);
                self.rotate(au, &[names[0].clone(), last.clone()], bi as u8, 78);
            }
            if self.auths[au].pols.len() != n {
                return;
            }
            // the last value works: new keys read it, keys from before do not
            let old = self.keys.len();
            let pol = Copy { bytes: self.auths[au].pols[n - 1].1.clone().into_bytes(), durable: true, hurt: false, stored: false };
            let mpk = Copy { bytes: self.auths[au].mpk.clone(), durable: true, hurt: false, stored: false };
            let h = self.encrypt(au, n - 1, &pol, &mpk, &[last.clone()], (8, 0), true, 0, 0xe4a + au as u64);
            let k = self.issue(au, 0, &F::A(last.clone()), 0, 0xe4b + au as u64);
            if let (Some(h), Some(k)) = (h, k) {
                self.rep.inc("exhausted", 1);
                for bi in 0..self.backs.len() {
                    self.read_genuine(k, h, bi, 5, false);
                }
                for i in 0..old.min(if self.toy { 60 } else { 4 }) {
                    self.read_genuine(i, h, 0, 6, false);
                }
                // refreshed keys read earlier data
                for j in 0..self.hdrs.len().min(if self.toy { 60 } else { 4 }) {
                    self.read_genuine(k, j, 0, 7, false);
                }
            }
        }
    }
}

fn shape(b: &B) -> String {
    fn go(b: &B, o: &mut String, d: usize) {
        match b {
            B::L(_) => o.push('.'),
            B::And(x, y) | B::Or(x, y) => {
                if d > 6 || o.len() > 30 {
                    o.push('*');
                    return;
                }
                o.push(if matches!(b, B::And(..)) { '&' } else { '|' });
                go(x, o, d + 1);
                go(y, o, d + 1);
            }
        }
    }
    let mut s = String::new();
    go(b, &mut s, 0);
    s
}
fn u32_at(b: &[u8], o: usize) -> usize {
    b.get(o..o + 4).map_or(0, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize)
}
fn cols(k: &[u8]) -> usize {
    u32_at(k, 4 + 96 * u32_at(k, 0) + 4)
}
/// (value, element) of every row of a key
fn key_rows(k: &[u8]) -> Vec<(u32, Vec<u8>)> {
    let n = u32_at(k, 0);
    let m = 4 + 96 * n;
    (0..n)
        .filter_map(|i| Some((u32_at(k, m + 8 + 4 * i) as u32, k.get(4 + 96 * i..100 + 96 * i)?.to_vec())))
        .collect()
}
fn key_columns(k: &[u8]) -> Option<usize> {
    let m = 8 + 96 * u32_at(k, 0);
    (k.len() >= m + 4).then(|| u32_at(k, m))
}
/// the values in a key are those its policy grants
fn key_shape(bytes: &[u8], b: &B) -> Option<String> {
    let mut got: Vec<u32> = key_rows(bytes).into_iter().map(|x| x.0).collect();
    let mut want = vec![];
    b.leaves(&mut want);
    got.sort_unstable();
    want.sort_unstable();
    if got == want || b.dup() {
        None
    } else {
        Some(format!("has the values {got:?} instead of {want:?}"))
    }
}
fn shake(x: &[u8], n: usize) -> Vec<u8> {
    use sha3::digest::{ExtendableOutput, Update, XofReader};
    sha3::Shake256::default().chain(x).finalize_xof().read_boxed(n).into_vec()
}
fn spliced_key(rows: &[(u32, Vec<u8>, i32)], toy: bool) -> Vec<u8> {
    let n = rows.len() as u32;
    let mut k = n.to_be_bytes().to_vec();
    for r in rows {
        k.extend(&r.1);
    }
    k.extend(n.to_be_bytes());
    k.extend(n.to_be_bytes());
    for r in rows {
        k.extend(r.0.to_be_bytes());
    }
    for (i, _) in rows.iter().enumerate() {
        for (j, r) in rows.iter().enumerate() {
            let mut s = [0u8; 32];
            if i == j {
                if r.2 == 1 {
                    s[0] = 1;
                } else if toy {
                    s[..8].copy_from_slice(&(Q - 1).to_le_bytes());
                }
            }
            k.extend(s);
        }
    }
    k
}
fn broken_policy(r: &mut Rng, p: &Policy) -> String {
    let mut v: serde_json::Value = serde_json::from_str(&p.json()).unwrap();
    let names = p.attrs();
    let a = r.pick(&names).clone();
    let (x, n) = a.split_once("::").unwrap();
    match r.below(9) {
        0 => {
            v["attribute_to_int"].as_object_mut().unwrap().remove(&a);
        }
        1 => v["attribute_to_int"][&a] = serde_json::json!([]),
        2 => {
            v["axes"].as_object_mut().unwrap().remove(x);
        }
        3 => v["attribute_to_int"][&a] = serde_json::json!([u32::MAX]),
        4 => v["attribute_to_int"][&a] = serde_json::json!([0]),
        5 => {
            // two attributes with the same value
            let o = r.pick(&names).clone();
            v["attribute_to_int"][&a] = v["attribute_to_int"][&o].clone();
        }
        6 => v["axes"][x][0] = serde_json::json!(["ghost", n]),
        7 => {
            v["last_attribute_value"] = serde_json::json!(p.max + 5);
        }
        _ => {
            v["axes"] = serde_json::json!({});
            v["attribute_to_int"] = serde_json::json!({});
        }
    }
    v.to_string()
}
fn diff(b: &[u8], g: &[u8]) -> String {
    if b == g {
        return "intact".into();
    }
    let at = b.iter().zip(g).position(|(x, y)| x != y).unwrap_or(b.len().min(g.len()));
    format!("differs from offset {at}, {} instead of {} bytes", b.len(), g.len())
}
