//! The reference model: policies, access formulas, who may open what. Written
//! independently of the crate under test and of abe_policy.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub type Attr = String; // "axis::name"

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Policy {
    pub last: u32,
    pub max: u32,
    /// name, attributes (lowest first when hierarchical), hierarchical
    pub axes: Vec<(String, Vec<String>, bool)>,
    /// values of each attribute, oldest first
    pub vals: BTreeMap<Attr, Vec<u32>>,
}

impl Policy {
    /// the policy that this JSON is
    pub fn of_json(j: &str) -> Option<Self> {
        let v: Value = serde_json::from_str(j).ok()?;
        let n = |k: &str| v[k].as_u64().map(|x| x as u32);
        let mut p = Policy { last: n("last_attribute_value")?, max: n("max_attribute_creations")?, axes: vec![], vals: BTreeMap::new() };
        for (name, x) in v["axes"].as_object()? {
            let l = x[0].as_array()?.iter().filter_map(|a| a.as_str().map(String::from)).collect();
            p.axes.push((name.clone(), l, x[1].as_bool()?));
        }
        for (a, x) in v["attribute_to_int"].as_object()? {
            p.vals.insert(a.clone(), x.as_array()?.iter().filter_map(|x| x.as_u64().map(|x| x as u32)).collect());
        }
        Some(p)
    }
    pub fn new(max: u32, axes: &[(&str, &[&str], bool)]) -> Self {
        let mut p = Policy { last: 0, max, axes: vec![], vals: BTreeMap::new() };
        for (n, a, h) in axes {
            p.add_axis(n, &a.iter().map(|x| x.to_string()).collect::<Vec<_>>(), *h);
        }
        p
    }
    pub fn add_axis(&mut self, n: &str, attrs: &[String], h: bool) {
        self.axes.push((n.to_string(), attrs.to_vec(), h));
        for a in attrs {
            self.last += 1;
            self.vals.insert(format!("{n}::{a}"), vec![self.last]);
        }
    }
    pub fn attrs(&self) -> Vec<Attr> {
        self.axes.iter().flat_map(|(n, a, _)| a.iter().map(move |x| format!("{n}::{x}"))).collect()
    }
    pub fn current(&self, a: &str) -> Option<u32> {
        self.vals.get(a).and_then(|v| v.iter().max().copied())
    }
    /// false: refused, policy unchanged
    pub fn rotate(&mut self, a: &str) -> bool {
        if self.last >= self.max || !self.vals.contains_key(a) {
            return false;
        }
        self.last += 1;
        let l = self.last;
        self.vals.get_mut(a).unwrap().push(l);
        true
    }
    pub fn json(&self) -> String {
        let axes: serde_json::Map<String, Value> =
            self.axes.iter().map(|(n, a, h)| (n.clone(), json!([a, h]))).collect();
        json!({"last_attribute_value": self.last, "max_attribute_creations": self.max, "axes": axes, "attribute_to_int": self.vals})
            .to_string()
    }
    /// same meaning as a policy received as JSON
    pub fn same_as_json(&self, s: &[u8]) -> Result<(), String> {
        let v: Value = serde_json::from_slice(s).map_err(|e| format!("policy is not JSON: {e}"))?;
        let want: Value = serde_json::from_str(&self.json()).unwrap();
        let norm = |v: &Value| -> Option<Value> {
            let mut v = v.clone();
            for x in v.get_mut("attribute_to_int")?.as_object_mut()?.values_mut() {
                let mut l: Vec<u64> = x.as_array()?.iter().filter_map(|i| i.as_u64()).collect();
                l.sort_unstable();
                *x = json!(l);
            }
            Some(v)
        };
        if norm(&v).is_some() && norm(&v) == norm(&want) {
            Ok(())
        } else {
            Err(format!("policy {v} instead of {want}"))
        }
    }
    pub fn gamma(&self, attrs: &[Attr]) -> Option<Vec<u32>> {
        attrs.iter().map(|a| self.current(a)).collect()
    }
}

/// an access policy
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum F {
    A(Attr),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
    All,
}
/// a monotone formula over attribute values
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum B {
    L(u32),
    And(Box<B>, Box<B>),
    Or(Box<B>, Box<B>),
}

impl B {
    /// as text for the parser of span programs, which reads from left to right
    /// without precedence: everything after an operator belongs to its right side
    pub fn text(&self) -> String {
        let left = |b: &B| match b {
            B::L(v) => v.to_string(),
            b => format!("({})", b.text()),
        };
        match self {
            B::L(v) => v.to_string(),
            B::And(a, b) => format!("{} & {}", left(a), b.text()),
            B::Or(a, b) => format!("{}|{}", left(a), b.text()),
        }
    }
}

impl F {
    pub fn json(&self) -> Value {
        match self {
            F::A(a) => json!({ "Attr": a }),
            F::And(a, b) => json!({"And": [a.json(), b.json()]}),
            F::Or(a, b) => json!({"Or": [a.json(), b.json()]}),
            F::All => json!("All"),
        }
    }
    /// fully parenthesised text (None for All, which has no text form)
    pub fn text(&self) -> Option<String> {
        Some(match self {
            // the text parser of abe_policy counts characters and slices bytes
            F::A(a) if a.is_ascii() => a.clone(),
            F::A(_) => return None,
            F::And(a, b) => format!("({} && {})", a.text()?, b.text()?),
            F::Or(a, b) => format!("({} || {})", a.text()?, b.text()?),
            F::All => return None,
        })
    }
    pub fn attrs(&self, out: &mut Vec<Attr>) {
        match self {
            F::A(a) => out.push(a.clone()),
            F::And(a, b) | F::Or(a, b) => {
                a.attrs(out);
                b.attrs(out);
            }
            F::All => {}
        }
    }
    /// the formula over values granted by an authority with this policy
    pub fn compile(&self, p: &Policy) -> Result<B, String> {
        match self {
            F::All => {
                let v: Vec<B> = p.vals.values().flatten().map(|x| B::L(*x)).collect();
                v.into_iter().reduce(|a, b| B::Or(Box::new(a), Box::new(b))).ok_or_else(|| "empty policy".into())
            }
            _ => self.comp(p),
        }
    }
    fn comp(&self, p: &Policy) -> Result<B, String> {
        Ok(match self {
            F::All => return Err("All inside a formula".into()),
            F::And(a, b) => B::And(Box::new(a.comp(p)?), Box::new(b.comp(p)?)),
            F::Or(a, b) => B::Or(Box::new(a.comp(p)?), Box::new(b.comp(p)?)),
            F::A(a) => {
                let mut vals: Vec<u32> = p.vals.get(a).cloned().ok_or("unknown attribute")?;
                for (n, list, hier) in &p.axes {
                    if let Some(pos) = list.iter().position(|x| format!("{n}::{x}") == *a) {
                        if *hier {
                            for x in &list[..pos] {
                                vals.extend(p.vals.get(&format!("{n}::{x}")).cloned().unwrap_or_default());
                            }
                        }
                    }
                }
                vals.into_iter()
                    .map(B::L)
                    .reduce(|a, b| B::Or(Box::new(a), Box::new(b)))
                    .ok_or("attribute without value")?
            }
        })
    }
    pub fn size(&self) -> usize {
        match self {
            F::And(a, b) | F::Or(a, b) => 1 + a.size() + b.size(),
            _ => 1,
        }
    }
}

impl B {
    pub fn eval(&self, s: &BTreeSet<u32>) -> bool {
        match self {
            B::L(v) => s.contains(v),
            B::And(a, b) => a.eval(s) && b.eval(s),
            B::Or(a, b) => a.eval(s) || b.eval(s),
        }
    }
    pub fn opens(&self, gamma: &[u32]) -> bool {
        self.eval(&gamma.iter().copied().collect())
    }
    pub fn leaves(&self, out: &mut Vec<u32>) {
        match self {
            B::L(v) => out.push(*v),
            B::And(a, b) | B::Or(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
        }
    }
    /// a value occurs twice: the scheme refuses such a formula
    pub fn dup(&self) -> bool {
        let mut v = vec![];
        self.leaves(&mut v);
        let n = v.len();
        v.sort_unstable();
        v.dedup();
        v.len() != n
    }
}

/// random formula over attributes of a policy, each used at most once where
/// possible (a repeated value is refused by the scheme)
pub fn random_formula(r: &mut Rng, p: &Policy, max_leaves: usize, allow_all: bool) -> F {
    if allow_all && r.chance(0.06) {
        return F::All;
    }
    // on a hierarchical axis an attribute contains the lower ones: use one per axis
    let mut pool: Vec<Attr> = vec![];
    for (n, list, hier) in &p.axes {
        if list.is_empty() {
            continue;
        }
        if *hier {
            pool.push(format!("{n}::{}", r.pick(list)));
        } else {
            pool.extend(list.iter().map(|x| format!("{n}::{x}")));
        }
    }
    if pool.is_empty() {
        return F::All;
    }
    r.shuffle(&mut pool);
    let k = r.range(1, max_leaves.min(pool.len()).max(1));
    let leaves: Vec<F> = pool[..k].iter().map(|a| F::A(a.clone())).collect();
    let p_and = *r.pick(&[0.0, 0.3, 0.5, 0.7, 1.0]);
    combine(r, leaves, p_and)
}

fn combine(r: &mut Rng, mut v: Vec<F>, p_and: f64) -> F {
    if v.len() == 1 {
        return v.pop().unwrap();
    }
    let cut = match r.below(4) {
        0 => 1,
        1 => v.len() - 1,
        _ => r.range(1, v.len() - 1),
    };
    let right = v.split_off(cut);
    let a = Box::new(combine(r, v, p_and));
    let b = Box::new(combine(r, right, p_and));
    if r.chance(p_and) {
        F::And(a, b)
    } else {
        F::Or(a, b)
    }
}

/// another place (resource, block number) that looks like this one: what one
/// might take for the same when place and number are written one after the other,
/// normalised or narrowed
pub fn shifted(r: &mut Rng, uid: &[u8], n: u64) -> (Vec<u8>, u64) {
    let cat = |x: &[u8], y: &[u8]| [x, y].concat();
    let dec = n.to_string();
    let hex = format!("{n:x}");
    let be = n.to_be_bytes();
    let le = n.to_le_bytes();
    let last = uid.last().copied().unwrap_or(0);
    let init = &uid[..uid.len().saturating_sub(1)];
    match r.below(30) {
        // a part of the number behind the resource
        0 => (cat(uid, &dec.as_bytes()[..dec.len() - 1]), n % 10),
        1 => (cat(uid, dec.as_bytes()), 0),
        2 => (cat(uid, &hex.as_bytes()[..hex.len() - 1]), n % 16),
        3 => {
            let k = r.below(dec.len() + 1);
            (cat(uid, &dec.as_bytes()[..k]), dec[k..].parse().unwrap_or(0))
        }
        4 => (cat(uid, &be), *r.pick(&[0, n])),
        5 => (cat(uid, &le), *r.pick(&[0, n])),
        6 => (cat(uid, &be[4..]), *r.pick(&[0, n, n >> 32])),
        7 => (cat(uid, &le[..4]), *r.pick(&[0, n, n >> 32])),
        8 => (cat(uid, &[n as u8]), n >> 8),
        9 => (cat(uid, format!("{}{n}", *r.pick(&[":", "/", "-", "_", ".", "#"])).as_bytes()), *r.pick(&[0, n])),
        // a part of the resource in front of the number
        10 => (init.to_vec(), n.wrapping_mul(10).wrapping_add(u64::from(last.wrapping_sub(b'0')))),
        11 => (init.to_vec(), n << 8 | u64::from(last)),
        12 => (init.to_vec(), n.wrapping_add(u64::from(last) << 8)),
        13 if uid.len() >= 8 => (uid[..uid.len() - 8].to_vec(), u64::from_be_bytes(uid[uid.len() - 8..].try_into().unwrap())),
        14 => (cat(&be, uid), *r.pick(&[0, n])),
        15 => (cat(dec.as_bytes(), uid), *r.pick(&[0, n])),
        // the resource written in another way
        16 => (uid.to_ascii_uppercase(), n),
        17 => (uid.to_ascii_lowercase(), n),
        18 => (uid.iter().rev().copied().collect(), n),
        19 => (cat(uid, uid), n),
        20 => (cat(uid, &[*r.pick(b"\0 \n/=")]), n),
        21 => (cat(&[*r.pick(b"\0 \n/")], uid), n),
        22 => (uid.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect(), n),
        23 => (uid[..uid.len().min(*r.pick(&[1, 8, 16, 32, 64, 128, 255]))].to_vec(), n),
        24 => (uid[uid.len() - uid.len().min(*r.pick(&[1, 8, 16, 32, 64, 128, 255]))..].to_vec(), n),
        25 => (String::from_utf8_lossy(uid).into_owned().into_bytes(), n),
        26 if !uid.is_empty() => {
            let mut v = uid.to_vec();
            let (i, j) = (r.below(v.len()), r.below(v.len()));
            v.swap(i, j);
            (v, n)
        }
        // the number written in another way
        27 => (uid.to_vec(), n.swap_bytes()),
        28 => (uid.to_vec(), *r.pick(&[n ^ 1, n / 2, n * 2 % (1 << 31), n % 10, n % 100, n % 1000, n & 0xff, n & 0xffff, n & 0x7fff_ffff, n as u32 as u64])),
        _ => (uid.to_vec(), *r.pick(&[u64::from((n as u32).swap_bytes()), n.rotate_left(32), n.wrapping_neg(), !n, n.saturating_sub(1), n.wrapping_add(2), 0, 1])),
    }
}

/// damage to bytes at rest or in flight
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dmg {
    /// cut to this length (modulo the length)
    Cut(u32),
    Flip(u32, u8),
    /// zeros from here for so many bytes (a lost write)
    Zero(u32, u32),
    SetU32(u32, u32),
    SetByte(u32, u8),
    Append(u8),
    /// the first bytes of this object, the rest of the other one (torn write)
    Torn(u32),
    Remove(u32, u32),
    /// repeats a range
    Dup(u32, u32),
    /// exchanges two ranges of the same length
    Swap(u32, u32, u32),
    /// one record of this size less in one of the counted lists; true: also less in
    /// the length at the start
    Fewer(u32, u32, bool),
    /// the same, one more
    More(u32, u32, bool),
    /// replaced by the other object
    Other,
    Empty,
    /// set u32 at offset to total length minus offset minus 4 plus delta
    LenToEnd(u32, i8),
}

impl Dmg {
    pub fn apply(&self, b: &[u8], other: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        let n = v.len();
        if n == 0 {
            return v;
        }
        let at = |x: u32| x as usize % n;
        match *self {
            Dmg::Cut(x) => v.truncate(at(x)),
            Dmg::Flip(x, k) => v[at(x)] ^= 1 << (k % 8),
            Dmg::Zero(x, l) => {
                let e = (at(x) + l as usize).min(n);
                v[at(x)..e].fill(0)
            }
            Dmg::SetU32(x, y) => {
                let o = at(x);
                for (i, b) in y.to_be_bytes().iter().enumerate() {
                    if o + i < n {
                        v[o + i] = *b;
                    }
                }
            }
            Dmg::LenToEnd(x, d) => {
                let o = at(x);
                let y = ((n as i64 - o as i64 - 4) + i64::from(d)).max(0) as u32;
                return Dmg::SetU32(x, y).apply(b, other);
            }
            Dmg::SetByte(x, y) => v[at(x)] = y,
            Dmg::Append(k) => v.extend((0..=k).map(|i| i.wrapping_mul(101))),
            Dmg::Torn(x) => {
                let o = at(x);
                v.truncate(o);
                if o < other.len() {
                    v.extend(&other[o..]);
                }
            }
            Dmg::Remove(x, l) => {
                let o = at(x);
                let e = (o + l as usize).min(n);
                v.drain(o..e);
            }
            Dmg::Dup(x, l) => {
                let o = at(x);
                let e = (o + (l as usize).min(4096)).min(n);
                let c = v[o..e].to_vec();
                v.splice(e..e, c);
            }
            Dmg::Swap(x, y, l) => {
                let (a, c) = (at(x.min(y)), at(x.max(y)));
                let (a, c) = (a.min(c), a.max(c));
                let l = (l as usize).min(c - a).min(n - c);
                for i in 0..l {
                    v.swap(a + i, c + i);
                }
            }
            Dmg::Fewer(x, l, whole) | Dmg::More(x, l, whole) => {
                let l = (l as usize).max(1);
                // wherever a small number can be the count of such records
                let all: Vec<usize> = (0..n.saturating_sub(4)).filter(|o| (1..=64).contains(&u32_at(b, *o)) && o + 4 + u32_at(b, *o) * l <= n).collect();
                if all.is_empty() {
                    return v;
                }
                let o = all[x as usize % all.len()];
                let c = u32_at(b, o);
                let k = o + 4 + (c - 1) * l;
                let more = matches!(*self, Dmg::More(..));
                if more {
                    let rec = v[k..k + l].to_vec();
                    v.splice(k..k, rec);
                } else {
                    v.drain(k..k + l);
                }
                let mut add = |o: usize, d: u32| {
                    let c = u32_at(&v, o) as u32;
                    let c = if more { c.wrapping_add(d) } else { c.wrapping_sub(d) };
                    v[o..o + 4].copy_from_slice(&c.to_be_bytes());
                };
                add(o, 1);
                if whole && o >= 4 {
                    add(0, l as u32);
                }
            }
            Dmg::Other => v = other.to_vec(),
            Dmg::Empty => v.clear(),
        }
        v
    }
    /// structure-aware: `fields` are the offsets where something starts
    pub fn random(r: &mut Rng, len: usize, fields: &[usize]) -> Dmg {
        let off = |r: &mut Rng| -> u32 {
            if !fields.is_empty() && r.chance(0.6) {
                let f = *r.pick(fields) as i64;
                (f + *r.pick(&[0, 0, 0, 1, 2, 3, 3, 4, -1, -4])).clamp(0, len.max(1) as i64 - 1) as u32
            } else {
                r.below(len.max(1)) as u32
            }
        };
        match r.weighted(&[16, 16, 8, 14, 8, 3, 8, 6, 5, 5, 3, 1, 7, 7]) {
            0 => Dmg::Cut(off(r)),
            1 => Dmg::Flip(off(r), r.below(8) as u8),
            2 => Dmg::Zero(off(r), *r.pick(&[1, 4, 8, 32, 48, 96, 4096])),
            3 => {
                let o = if fields.is_empty() { off(r) } else { *r.pick(fields) as u32 };
                Dmg::SetU32(
                    o,
                    *r.pick(&[
                        0, 1, 2, 3, 4, 5, 7, 8, 16, 100, 255, 1000, 0xffff, 0x10_0000, 0x0100_0000, 0x2aaa_aaab,
                        0x0555_5556, 0x1555_5556, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_fffc,
                        0xffff_ffff, len as u32, (len as u32).wrapping_sub(4), (len as u32).wrapping_sub(8),
                    ]),
                )
            }
            4 => Dmg::SetByte(off(r), *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xc0])),
            5 => Dmg::Append(r.below(64) as u8),
            6 => Dmg::Torn(off(r)),
            7 => Dmg::Remove(off(r), *r.pick(&[1, 4, 32, 48, 96, 288, 16, 12])),
            8 => Dmg::Dup(off(r), *r.pick(&[1, 4, 32, 48, 96, 4096])),
            9 => {
                let a = off(r);
                Dmg::Swap(a, off(r), *r.pick(&[4, 32, 48, 96]))
            }
            10 => Dmg::Other,
            11 => Dmg::Empty,
            13 => {
                let o = r.below(1000) as u32;
                let (l, w) = (*r.pick(&[4, 8, 32, 48, 96]), r.chance(0.5));
                if r.chance(0.6) {
                    Dmg::Fewer(o, l, w)
                } else {
                    Dmg::More(o, l, w)
                }
            }
            _ => Dmg::LenToEnd(if fields.is_empty() { off(r) } else { *r.pick(fields) as u32 }, *r.pick(&[-1, 0, 0, 1])),
        }
    }
}

fn u32_at(b: &[u8], o: usize) -> usize {
    b.get(o..o + 4).map_or(0, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize)
}

/// offsets of the fields of a header (guesses are harmless: they only guide damage)
pub fn header_fields(b: &[u8]) -> Vec<usize> {
    let n = u32_at(b, 0);
    let g = u32_at(b, 4);
    let mut v = vec![0, 4, 8, 8 + 4 * g, 12 + 4 * g, 4 + n, 4 + n + 12, 4 + n + 16];
    for i in 0..g.min(20) {
        v.push(8 + 4 * i);
        v.push(12 + 4 * g + 48 * i);
    }
    v.push(12 + 4 * g + 48 * g);
    v.retain(|x| *x < b.len());
    v
}
/// end of the key encapsulation
pub fn encaps_end(b: &[u8]) -> usize {
    4 + u32_at(b, 0)
}
pub fn key_fields(b: &[u8]) -> Vec<usize> {
    let n = u32_at(b, 0);
    let m = 4 + 96 * n;
    let (r, c) = (u32_at(b, m), u32_at(b, m + 4));
    let mut v = vec![0, 4, m, m + 4, m + 8, m + 8 + 4 * r];
    for i in 0..n.min(20) {
        v.push(4 + 96 * i);
        v.push(m + 8 + 4 * i);
    }
    for i in 0..(r * c).min(40) {
        v.push(m + 8 + 4 * r + 32 * i);
    }
    v.retain(|x| *x < b.len());
    v
}
/// master keys: u32 count, elements of `size` bytes, trailer
pub fn vec_fields(b: &[u8], size: usize) -> Vec<usize> {
    let n = u32_at(b, 0);
    let mut v = vec![0, 4];
    for i in 0..=n.min(30) {
        v.push(4 + size * i);
    }
    v.retain(|x| *x < b.len());
    v
}
