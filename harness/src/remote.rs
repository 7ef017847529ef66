//! The Python and the WebAssembly interface: each runs in a helper process
//! (CPython, node) that carries out one call at a time for the simulator, with
//! the entropy of the case. Built by remote/build.sh.
use crate::back::{Back, Cap, Dec, Er, Kind, Master, R};
use crate::entropy;
use crate::model::{Attr, F};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::CommandExt;
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

fn dir() -> PathBuf {
    if let Ok(d) = std::env::var("SIM_REMOTE") {
        return d.into();
    }
    // target/sim/release/sim -> target/remote
    let e = std::env::current_exe().unwrap_or_default();
    e.ancestors().nth(3).map(|x| x.join("remote")).unwrap_or_default()
}
/// the helper was built
pub fn ready(py: bool) -> bool {
    dir().join(if py { "py/server.py" } else { "js/server.js" }).exists()
}

struct Proc {
    child: Child,
    tx: ChildStdin,
    rx: BufReader<ChildStdout>,
}
pub struct Remote {
    py: bool,
    cached: bool,
    p: Option<Proc>,
    ops: u64,
    /// header -> whole message made with the same parameters, and its content
    sib: BTreeMap<Vec<u8>, (Vec<u8>, Vec<u8>)>,
    enc: BTreeMap<(Vec<u8>, String), i64>,
    dec: BTreeMap<Vec<u8>, i64>,
    dead: Vec<(bool, i64)>,
    /// what a handle was last used with successfully
    worked: BTreeMap<(bool, i64), Vec<u8>>,
}

enum V {
    B(Vec<u8>),
    S(String),
    N(i64),
}
fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    b.iter().flat_map(|x| [D[(x >> 4) as usize] as char, D[(x & 15) as usize] as char]).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    let d = |c: u8| if c < b'a' { c - b'0' } else { c - b'a' + 10 };
    s.as_bytes().chunks(2).map(|c| d(c[0]) << 4 | d(c[1])).collect()
}
fn b(x: &[u8]) -> Value {
    json!({ "b": hex(x) })
}
fn s(x: &str) -> Value {
    json!({ "s": x })
}
fn trip<T>(props: &str, m: impl std::fmt::Display) -> R<T> {
    Err(Er::Trip(format!("#{props}#{m}")))
}
fn na<T>() -> R<T> {
    Err(Er::Err("not available".into()))
}
fn one(mut v: Vec<V>) -> R<Vec<u8>> {
    match (v.len(), v.pop()) {
        (1, Some(V::B(x))) => Ok(x),
        _ => trip("C05", "a result of another type"),
    }
}
fn be(x: &[u8]) -> usize {
    x.get(..4).map_or(usize::MAX, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize)
}
/// u32 length | uid | additional data
fn meta(x: &[u8]) -> R<(Vec<u8>, Vec<u8>)> {
    if x.is_empty() {
        return Ok((vec![], vec![]));
    }
    let n = be(x);
    match x.get(4..).and_then(|y| y.get(..n)) {
        Some(u) => Ok((u.to_vec(), x[4 + n..].to_vec())),
        None => trip("C05", "malformed metadata"),
    }
}

impl Remote {
    pub fn new(kind: &str) -> Self {
        Remote {
            py: kind == "py",
            cached: kind == "jsc",
            p: None,
            ops: 0,
            sib: BTreeMap::new(),
            enc: BTreeMap::new(),
            dec: BTreeMap::new(),
            dead: vec![],
            worked: BTreeMap::new(),
        }
    }
    fn spawn(&mut self) -> std::io::Result<()> {
        let d = dir();
        let mut c = if self.py {
            let d = d.join("py");
            let mut c = Command::new("python3");
            c.arg("-S").arg("-E").arg("-s").arg(d.join("server.py")).arg(&d);
            c.env("LD_PRELOAD", d.join("ent.so"));
            c
        } else {
            let d = d.join("js");
            let mut c = Command::new("node");
            c.arg("--single-threaded").arg(d.join("server.js")).arg(d.join("abe.js"));
            c
        };
        c.env("PYTHONIOENCODING", "utf-8").env("PYTHONUTF8", "1").env("PYTHONDONTWRITEBYTECODE", "1");
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
        if std::env::var("SIM_VERBOSE").is_err() {
            c.stderr(Stdio::null());
        }
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn()?;
        let tx = child.stdin.take().unwrap();
        let rx = BufReader::new(child.stdout.take().unwrap());
        self.p = Some(Proc { child, tx, rx });
        Ok(())
    }
    fn kill(&mut self) {
        if let Some(mut p) = self.p.take() {
            let _ = p.child.kill();
            let _ = p.child.wait();
        }
    }
    fn call(&mut self, f: &str, a: Vec<Value>) -> R<Vec<V>> {
        self.ops += 1;
        if self.p.is_none() {
            if let Err(x) = self.spawn() {
                // the simulator's own trouble, not the code's
                eprintln!("helper process: {x}");
                std::process::exit(97);
            }
        }
        let mut seed = [0u8; 8];
        entropy::draw(seed.as_mut_ptr(), 8, 0);
        let q = json!({"f": f, "a": a, "e": u64::from_le_bytes(seed).to_string()});
        let p = self.p.as_mut().unwrap();
        let mut l = String::new();
        let ok = p.tx.write_all(format!("{q}\n").as_bytes()).and_then(|_| p.tx.flush()).and_then(|_| p.rx.read_line(&mut l));
        if ok.is_err() || !l.ends_with('\n') {
            self.kill();
            return Err(Er::Crash(format!("{f}: the process ended")));
        }
        let r: Value = serde_json::from_str(&l).unwrap_or(Value::Null);
        if let Some(v) = r["v"].as_array() {
            return Ok(v
                .iter()
                .map(|x| {
                    if let Some(h) = x["b"].as_str() {
                        V::B(unhex(h))
                    } else if let Some(t) = x["s"].as_str() {
                        V::S(t.into())
                    } else {
                        V::N(x["n"].as_i64().unwrap_or(-1))
                    }
                })
                .collect());
        }
        if let Some(m) = r["err"].as_str() {
            return Err(Er::Err(m.into()));
        }
        if !self.py {
            // its memory may be inconsistent now
            self.restart();
        }
        Err(Er::Crash(format!("{f}: {}", r["crash"].as_str().unwrap_or("?"))))
    }
    /// attributes as "axis::name, axis::name"
    fn list(attrs: &[Attr]) -> Option<String> {
        let plain = |a: &Attr| a.trim() == a && !a.is_empty() && !a.contains(',');
        if attrs.iter().all(plain) && !attrs.is_empty() {
            Some(attrs.join(", "))
        } else {
            None
        }
    }
    fn handle(&mut self, f: &str, a: Vec<Value>) -> R<i64> {
        match self.call(f, a)?.pop() {
            Some(V::N(h)) => Ok(h),
            _ => trip("C08", "no handle"),
        }
    }
    /// now and then a cache is destroyed; what is destroyed stays so
    fn churn(&mut self) -> R<()> {
        if !self.cached || self.ops % 5 != 3 {
            return Ok(());
        }
        // one, or all of a kind
        let (e, all) = (self.ops % 2 == 0, self.ops % 3 == 0);
        let mut now = vec![];
        while let Some(h) = if e { self.enc.pop_first().map(|x| x.1) } else { self.dec.pop_first().map(|x| x.1) } {
            let f = if e { "webassembly_destroy_encryption_cache" } else { "webassembly_destroy_decryption_cache" };
            self.call(f, vec![json!({ "n": h })])?;
            now.push((e, h));
            if !all {
                break;
            }
        }
        if let Some(&old) = self.dead.get(self.ops as usize % self.dead.len().max(1)) {
            now.push(old);
        }
        for (e, h) in now {
            if !self.dead.contains(&(e, h)) {
                self.dead.push((e, h));
            }
            if self.enc.values().any(|x| e && *x == h) || self.dec.values().any(|x| !e && *x == h) {
                return trip("C08", format!("the handle {h} of a destroyed cache was given out again"));
            }
            // with what worked through it while it lived
            let a = self.worked.get(&(e, h)).cloned();
            let r = if e {
                let l = a.map_or("Dept::a0".into(), |a| String::from_utf8(a).unwrap());
                self.call("webassembly_encrypt_hybrid_header_using_cache", vec![json!({ "n": h }), s(&l), b(b"u")])
            } else {
                self.call("webassembly_decrypt_hybrid_header_using_cache", vec![json!({ "n": h }), b(&a.unwrap_or(vec![0; 300]))])
            };
            match r {
                Err(Er::Err(_)) => {}
                Err(x) => return Err(x),
                Ok(_) => return trip("C08", format!("the handle {h} of a destroyed cache works")),
            }
        }
        Ok(())
    }
}
impl Drop for Remote {
    fn drop(&mut self) {
        self.kill();
    }
}

impl Back for Remote {
    fn name(&self) -> String {
        if self.py { "py" } else { "js" }.into()
    }
    fn has(&self, c: Cap) -> bool {
        match c {
            Cap::Master | Cap::Issue => true,
            Cap::Ad | Cap::NoUid | Cap::Delegate | Cap::Block64 => self.py,
            _ => false,
        }
    }
    fn local(&self) -> bool {
        false
    }
    fn master(&mut self, pol: &str) -> R<Master> {
        if self.py {
            let mut v = self.call("generate_master_keys", vec![b(pol.as_bytes())])?.into_iter();
            let (Some(V::B(msk)), Some(V::B(mpk)), Some(V::B(mdk))) = (v.next(), v.next(), v.next()) else {
                return trip("C05", "master keys of another type");
            };
            self.policy(pol)?;
            return Ok(Master { msk, mpk, mdk: Some(mdk) });
        }
        let x = one(self.call("webassembly_generate_master_keys", vec![b(pol.as_bytes())])?)?;
        let l = be(&x);
        if x.len() < 4 || x.len() - 4 < l {
            return trip("C05", "master keys are malformed");
        }
        Ok(Master { msk: x[4..4 + l].to_vec(), mpk: x[4 + l..].to_vec(), mdk: None })
    }
    fn user_key(&mut self, msk: &[u8], f: &F, pol: &str) -> R<Vec<u8>> {
        let Some(t) = f.text() else { return na() };
        let n = if self.py { "generate_user_private_key" } else { "webassembly_generate_user_private_key" };
        one(self.call(n, vec![b(msk), s(&t), b(pol.as_bytes())])?)
    }
    fn delegate(&mut self, mdk: &[u8], key: &[u8], f: &F, pol: &str) -> R<Vec<u8>> {
        let (true, Some(t)) = (self.py, f.text()) else { return na() };
        one(self.call("generate_delegated_key", vec![b(mdk), b(key), s(&t), b(pol.as_bytes())])?)
    }
    fn rotate(&mut self, pol: &str, attrs: &[Attr]) -> R<String> {
        let n = if self.py { "rotate_attributes" } else { "webassembly_rotate_attributes" };
        let l = serde_json::to_string(attrs).unwrap();
        match self.call(n, vec![b(l.as_bytes()), b(pol.as_bytes())])?.pop() {
            Some(V::S(x)) => Ok(x),
            Some(V::B(x)) => String::from_utf8(x).or_else(|_| trip("C03", "the policy is not text")),
            _ => trip("C03", "a policy of another type"),
        }
    }
    fn enc_header(&mut self, mpk: &[u8], pol: &str, attrs: &[Attr], m: Option<(&[u8], &[u8])>) -> R<(Vec<u8>, Vec<u8>)> {
        let (u, a) = m.unwrap_or((&[], &[]));
        if self.py {
            let ad = if a.is_empty() { Value::Null } else { json!(a) };
            let mj = b(json!({"uid": u, "additional_data": ad}).to_string().as_bytes());
            let l = b(serde_json::to_string(attrs).unwrap().as_bytes());
            let (p, k) = (b(pol.as_bytes()), b(mpk));
            let mut v = self.call("encrypt_hybrid_header", vec![mj.clone(), p.clone(), l.clone(), k.clone()])?.into_iter();
            let (Some(V::B(sk)), Some(V::B(h))) = (v.next(), v.next()) else { return trip("C05", "a header of another type") };
            if self.ops % 3 != 0 {
                let text = match self.ops % 11 {
                    4 => vec![],
                    5 => vec![self.ops as u8],
                    7 => vec![self.ops as u8; 5000],
                    _ => format!("content {}", self.ops).into_bytes(),
                };
                match self.call("encrypt", vec![mj, p, l, k, b(&text)]) {
                    Ok(x) => {
                        let x = one(x)?;
                        let n = be(&x);
                        match self.call("get_encrypted_header_size", vec![b(&x)]).map(|mut v| v.pop()) {
                            Ok(Some(V::N(y))) if y as usize == n => {}
                            _ => return trip("C02 C05", "the header size of a whole message differs"),
                        }
                        self.sib.insert(h.clone(), (x, text));
                    }
                    Err(Er::Err(_)) if text.is_empty() => {}
                    Err(Er::Err(x)) => return trip("C02 C16", format!("a whole message is refused: {x}")),
                    Err(x) => return Err(x),
                }
            }
            return Ok((sk, h));
        }
        let Some(l) = Self::list(attrs) else { return na() };
        self.churn()?;
        let x = if self.cached {
            let k = (mpk.to_vec(), pol.to_string());
            if !self.enc.contains_key(&k) {
                let h = self.handle("webassembly_create_encryption_cache", vec![b(pol.as_bytes()), b(mpk)])?;
                if self.enc.values().any(|x| *x == h) {
                    return trip("C08", format!("the handle {h} is given out twice"));
                }
                self.enc.insert(k.clone(), h);
            }
            let h = self.enc[&k];
            let x = self.call("webassembly_encrypt_hybrid_header_using_cache", vec![json!({ "n": h }), s(&l), b(u)])?;
            self.worked.insert((true, h), l.clone().into_bytes());
            x
        } else {
            self.call("webassembly_encrypt_hybrid_header", vec![b(pol.as_bytes()), b(mpk), s(&l), b(u)])?
        };
        let x = one(x)?;
        let n = be(&x);
        if x.len() < 4 || x.len() - 4 < n {
            return trip("C05", "a malformed header");
        }
        let h = x[4 + n..].to_vec();
        match self.call("webassembly_get_encrypted_header_size", vec![b(&h)]).map(|mut v| v.pop()) {
            Ok(Some(V::N(y))) if y as usize == be(&h) => {}
            _ => return trip("C02 C05", "the header size differs"),
        }
        Ok((x[4..4 + n].to_vec(), h))
    }
    fn dec_header(&mut self, key: &[u8], hdr: &[u8]) -> R<Dec> {
        if self.py {
            let r = self.call("decrypt_hybrid_header", vec![b(key), b(hdr)]);
            if matches!(r, Err(Er::Crash(_))) {
                return r.map(|_| unreachable!());
            }
            if let Some((x, text)) = self.sib.get(hdr).cloned() {
                let w = match self.call("decrypt", vec![b(key), b(&x)]) {
                    Ok(v) => Some(one(v)?),
                    Err(Er::Err(_)) => None,
                    Err(x) => return Err(x),
                };
                match (&r, w) {
                    (Ok(_), Some(w)) if w == text => {}
                    (Ok(_), Some(_)) => return trip("C02", "a whole message decrypts to something else"),
                    (Ok(_), None) => return trip("C02", "a whole message for the same attributes is refused"),
                    (Err(_), Some(_)) => return trip("C01", "a whole message for the same attributes is opened"),
                    _ => {}
                }
                if r.is_ok() {
                    self.parts(key, hdr, &x, &text)?;
                }
                if self.ops % 4 == 1 {
                    // damaged: nothing or the content
                    let mut y = x.clone();
                    let i = (self.ops as usize).wrapping_mul(7919) % y.len();
                    if self.ops % 8 == 1 {
                        y.truncate(i);
                    } else {
                        y[i] ^= 1 << (self.ops % 7);
                    }
                    if let Ok(v) = self.call("decrypt", vec![b(key), b(&y)]) {
                        if one(v)? != text {
                            return trip("C06", format!("a whole message damaged at {i} decrypts to something else"));
                        }
                    }
                }
            }
            let mut v = r?.into_iter();
            let (Some(V::B(sk)), Some(V::B(m))) = (v.next(), v.next()) else { return trip("C05", "a header of another type") };
            let (uid, ad) = meta(&m)?;
            return Ok(Dec { sk, uid, ad });
        }
        self.churn()?;
        let x = if self.cached {
            if !self.dec.contains_key(key) {
                let h = self.handle("webassembly_create_decryption_cache", vec![b(key)])?;
                if self.dec.values().any(|x| *x == h) {
                    return trip("C08", format!("the handle {h} is given out twice"));
                }
                self.dec.insert(key.to_vec(), h);
            }
            let h = self.dec[key];
            let x = self.call("webassembly_decrypt_hybrid_header_using_cache", vec![json!({ "n": h }), b(hdr)])?;
            self.worked.insert((false, h), hdr.to_vec());
            x
        } else {
            self.call("webassembly_decrypt_hybrid_header", vec![b(key), b(hdr)])?
        };
        let x = one(x)?;
        let n = be(&x);
        if x.len() < 4 || x.len() - 4 < n {
            return trip("C05", "a malformed header");
        }
        let (uid, ad) = meta(&x[4 + n..])?;
        Ok(Dec { sk: x[4..4 + n].to_vec(), uid, ad })
    }
    fn enc_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        self.block(true, sk, uid, n, data)
    }
    fn dec_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        self.block(false, sk, uid, n, data)
    }
    fn reload(&mut self, _k: Kind, b: &[u8]) -> R<Vec<u8>> {
        Ok(b.to_vec())
    }
    fn restart(&mut self) {
        self.kill();
        self.enc.clear();
        self.dec.clear();
        self.dead.clear();
        self.worked.clear();
    }
}
impl Remote {
    fn block(&mut self, enc: bool, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        let f = match (self.py, enc) {
            (true, true) => "encrypt_hybrid_block",
            (true, false) => "decrypt_hybrid_block",
            (false, true) => "webassembly_encrypt_hybrid_block",
            (false, false) => "webassembly_decrypt_hybrid_block",
        };
        let opt = |skip: bool, v: Value| if skip && !self.py { Value::Null } else { v };
        let u = opt(uid.is_empty(), b(uid));
        let n = opt(n == 0 && self.ops % 2 == 0, json!({ "n": n }));
        one(self.call(f, vec![b(sk), u, n, b(data)])?)
    }
    /// a whole message is a header and block 0, and a header and a block 0 are a whole message
    fn parts(&mut self, key: &[u8], hdr: &[u8], x: &[u8], text: &[u8]) -> R<()> {
        let n = be(x);
        let two = |r: R<Vec<V>>, what: &str| -> R<(Vec<u8>, Vec<u8>)> {
            match r {
                Ok(v) => {
                    let mut v = v.into_iter();
                    match (v.next(), v.next()) {
                        (Some(V::B(a)), Some(V::B(m))) => Ok((a, m)),
                        _ => trip("C05", "a header of another type"),
                    }
                }
                Err(Er::Err(e)) => trip("C05 C02", format!("{what}: {e}")),
                Err(x) => Err(x),
            }
        };
        if self.ops % 2 == 0 {
            let (sk, m) = two(self.call("decrypt_hybrid_header", vec![b(key), b(&x[4..4 + n])]), "the header of a whole message is refused")?;
            let (uid, _) = meta(&m)?;
            return match self.call("decrypt_hybrid_block", vec![b(&sk), b(&uid), json!({"n": 0}), b(&x[4 + n..])]) {
                Ok(v) if matches!(v.last(), Some(V::B(t)) if t == text) => Ok(()),
                Err(x @ Er::Crash(_)) => Err(x),
                _ => trip("C05 C02", "the content of a whole message is not its block 0"),
            };
        }
        let (sk, m) = two(self.call("decrypt_hybrid_header", vec![b(key), b(hdr)]), "a header that opened is refused")?;
        let (uid, _) = meta(&m)?;
        let blk = one(self.call("encrypt_hybrid_block", vec![b(&sk), b(&uid), json!({"n": 0}), b(text)])?)?;
        let mut y = (hdr.len() as u32).to_be_bytes().to_vec();
        y.extend_from_slice(hdr);
        y.extend_from_slice(&blk);
        match self.call("decrypt", vec![b(key), b(&y)]) {
            Ok(v) if matches!(v.last(), Some(V::B(t)) if t == text) => Ok(()),
            Err(x @ Er::Crash(_)) => Err(x),
            _ => trip("C05 C02", "a header and a block 0 do not decrypt as a whole message"),
        }
    }
    /// the policy made from its axes is the policy
    fn policy(&mut self, pol: &str) -> R<()> {
        let Ok(v) = serde_json::from_str::<Value>(pol) else { return Ok(()) };
        let (Some(ax), Some(vals)) = (v["axes"].as_object(), v["attribute_to_int"].as_object()) else { return Ok(()) };
        let fresh = vals.values().all(|x| x.as_array().is_some_and(|x| x.len() == 1)) && vals.len() as u64 == v["last_attribute_value"].as_u64().unwrap_or(0);
        if !fresh || ax.is_empty() {
            return Ok(());
        }
        let first = |n: &str| vals.iter().filter(|(k, _)| k.starts_with(&format!("{n}::"))).filter_map(|(_, x)| x[0].as_u64()).min();
        let mut l: Vec<(Option<u64>, Value)> =
            ax.iter().map(|(n, x)| (first(n), json!({"name": n, "attributes": x[0], "hierarchical": x[1]}))).collect();
        l.sort_by_key(|x| x.0);
        let l: Vec<Value> = l.into_iter().map(|x| x.1).collect();
        let x = one(self.call("generate_policy", vec![b(json!(l).to_string().as_bytes()), json!({"n": v["max_attribute_creations"]})])?)?;
        // a number that a policy cannot hold is refused
        let max = v["max_attribute_creations"].as_u64().unwrap_or(0);
        match self.call("generate_policy", vec![b(json!(l).to_string().as_bytes()), json!({"n": max + (1 << 32)})]) {
            Ok(x) => {
                let w: Value = serde_json::from_slice(&one(x)?).unwrap_or(Value::Null);
                if w["max_attribute_creations"].as_u64() != Some(max + (1 << 32)) {
                    return trip("C16 C03", format!("a policy with room for {} attributes has room for {}", max + (1 << 32), w["max_attribute_creations"]));
                }
            }
            Err(Er::Err(_)) => {}
            Err(x) => return Err(x),
        }
        let w: Value = serde_json::from_slice(&x).unwrap_or(Value::Null);
        if w == v {
            Ok(())
        } else {
            trip("C03 C05", format!("the policy made from {l:?} is {w} instead of {v}"))
        }
    }
}
