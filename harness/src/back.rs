//! Ways to carry out an operation: the Rust interface over a group, and the
//! native interface. All of them exchange bytes only.
use crate::ffi::{self, In, Out};
use crate::model::{Attr, F};
use abe_policy::{AccessPolicy, Attribute, Policy};
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes};
use cosmian_abe_gpsw::core::msp::MonotoneSpanProgram;
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::hybrid_crypto as hc;
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto as Aes;
use cosmian_crypto_base::symmetric_crypto::{Metadata, SymKey, SymmetricCrypto};
use cosmian_crypto_base::KeyTrait;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
pub enum Er {
    /// the operation reported an error
    Err(String),
    /// it panicked
    Crash(String),
    /// it contradicted itself while storing or loading an object
    Trip(String),
}
pub type R<T> = Result<T, Er>;

#[derive(Clone, Debug, PartialEq)]
pub struct Dec {
    pub sk: Vec<u8>,
    pub uid: Vec<u8>,
    pub ad: Vec<u8>,
}
/// largest block of the small resources
pub const LIMIT: usize = 64;
#[derive(Clone, Debug)]
pub struct Master {
    pub msk: Vec<u8>,
    pub mpk: Vec<u8>,
    pub mdk: Option<Vec<u8>>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Msk,
    Mpk,
    Mdk,
    Key,
    Ct,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cap {
    /// headers without metadata
    NoMeta,
    /// additional data
    Ad,
    /// an empty resource id
    NoUid,
    /// the unrestricted access policy
    All,
    Delegate,
    Raw,
    Master,
    /// attribute names with anything but letters and digits
    Block64,
    Issue,
}

pub trait Back {
    fn name(&self) -> String;
    fn has(&self, c: Cap) -> bool;
    /// in this process
    fn local(&self) -> bool {
        true
    }
    /// key and header sizes and the like are those of the real group
    fn master(&mut self, pol: &str) -> R<Master>;
    fn user_key(&mut self, msk: &[u8], f: &F, pol: &str) -> R<Vec<u8>>;
    fn delegate(&mut self, mdk: &[u8], key: &[u8], f: &F, pol: &str) -> R<Vec<u8>>;
    fn rotate(&mut self, pol: &str, attrs: &[Attr]) -> R<String>;
    fn enc_header(&mut self, mpk: &[u8], pol: &str, attrs: &[Attr], meta: Option<(&[u8], &[u8])>) -> R<(Vec<u8>, Vec<u8>)>;
    fn dec_header(&mut self, key: &[u8], hdr: &[u8]) -> R<Dec>;
    fn enc_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>>;
    fn dec_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>>;
    /// loads, compares, stores
    fn reload(&mut self, _k: Kind, b: &[u8]) -> R<Vec<u8>> {
        Ok(b.to_vec())
    }
    /// encrypts and decrypts without the hybrid layer; true: the plaintext came back
    fn raw(&mut self, _mpk: &[u8], _key: &[u8], _pol: &str, _attrs: &[Attr], _len: usize) -> R<bool> {
        Err(Er::Err("not available".into()))
    }
    /// a block with a small maximal size, there and back
    fn limited(&mut self, _sk: &[u8], _uid: &[u8], _n: u64, _data: &[u8]) -> R<()> {
        Err(Er::Err("not available".into()))
    }
    /// forgets everything that is not bytes
    fn restart(&mut self) {}
}

/// a panic is a result of its own
fn guard<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(p) => Err(Er::Crash(
            p.downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| p.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into()),
        )),
    }
}
fn e<T, X: std::fmt::Display>(r: Result<T, X>) -> R<T> {
    r.map_err(|x| Er::Err(x.to_string()))
}

/// the Rust interface. Objects it made or loaded stay in memory until `restart`
/// and are then used as they are instead of being loaded again.
pub struct Core<A: AbeScheme> {
    nm: &'static str,
    eng: Engine<A>,
    msk: BTreeMap<Vec<u8>, A::MasterPrivateKey>,
    mpk: BTreeMap<Vec<u8>, A::MasterPublicKey>,
    mdk: BTreeMap<Vec<u8>, A::MasterPublicDelegationKey>,
    key: BTreeMap<Vec<u8>, A::UserDecryptionKey>,
    pol: BTreeMap<String, Policy>,
    ops: u64,
}

/// stores an object and loads it again: same bytes, announced size, equal object
fn trip<T: AsBytes + PartialEq>(what: &str, o: &T) -> R<Vec<u8>> {
    let b = e(o.try_into_bytes())?;
    if o.len_bytes() != b.len() {
        return Err(Er::Trip(format!("{what}: len_bytes says {} for {} bytes", o.len_bytes(), b.len())));
    }
    let o2 = match T::try_from_bytes(&b) {
        Ok(o) => o,
        Err(x) => return Err(Er::Trip(format!("{what}: stored bytes cannot be loaded: {x}"))),
    };
    if o2 != *o {
        return Err(Er::Trip(format!("{what}: the loaded object differs")));
    }
    if e(o2.try_into_bytes())? != b {
        return Err(Er::Trip(format!("{what}: the loaded object is stored differently")));
    }
    Ok(b)
}
fn load<T: AsBytes>(m: &mut BTreeMap<Vec<u8>, T>, b: &[u8]) -> R<()> {
    if !m.contains_key(b) {
        let o = e(T::try_from_bytes(b))?;
        m.insert(b.to_vec(), o);
    }
    Ok(())
}

pub fn attr(a: &str) -> Attribute {
    let (x, n) = a.split_once("::").unwrap_or((a, ""));
    Attribute::new(x, n)
}
fn ap(f: &F) -> AccessPolicy {
    match f {
        F::A(a) => AccessPolicy::Attr(attr(a)),
        F::And(a, b) => AccessPolicy::And(Box::new(ap(a)), Box::new(ap(b))),
        F::Or(a, b) => AccessPolicy::Or(Box::new(ap(a)), Box::new(ap(b))),
        F::All => AccessPolicy::All,
    }
}

impl<A: AbeScheme + Sync + Send> Core<A> {
    pub fn new(nm: &'static str) -> Self {
        Core {
            nm,
            eng: Engine::new(),
            msk: BTreeMap::new(),
            mpk: BTreeMap::new(),
            mdk: BTreeMap::new(),
            key: BTreeMap::new(),
            pol: BTreeMap::new(),
            ops: 0,
        }
    }
    fn policy(&mut self, s: &str) -> R<Policy> {
        if let Some(p) = self.pol.get(s) {
            return Ok(p.clone());
        }
        let p: Policy = e(serde_json::from_str(s))?;
        self.pol.insert(s.to_string(), p.clone());
        Ok(p)
    }
    /// now and then the span program is made from its text instead
    fn span(&mut self, f: &F, pol: &str) -> R<Option<MonotoneSpanProgram<i32>>> {
        if self.ops % 5 > 2 {
            return Ok(None);
        }
        let Some(Ok(b)) = crate::model::Policy::of_json(pol).map(|p| f.compile(&p)) else { return Ok(None) };
        let t = b.text();
        if t.len() > 400 {
            return Ok(None);
        }
        if self.ops % 5 != 2 {
            // damaged text is read as something or refused
            let i = self.ops as usize * 31 % t.len();
            let (x, y) = (&t[..i], &t[i + 1..]);
            let c = ["", "(", ")", "&", "|", "99999999999", "&|", "x", "((", "))("][self.ops as usize / 5 % 10];
            let _ = MonotoneSpanProgram::<i32>::parse(&format!("{x}{c}{y}"));
            let _ = MonotoneSpanProgram::<i32>::parse(x);
            return Ok(None);
        }
        let t = if self.ops % 2 == 0 { format!("({t})") } else { t };
        match MonotoneSpanProgram::<i32>::parse(&t) {
            Ok(m) => Ok(Some(m)),
            Err(x) => Err(Er::Err(format!("the formula {t} is refused: {x}"))),
        }
    }
    /// in turn as an object, as JSON and as text
    fn access(&mut self, f: &F) -> R<AccessPolicy> {
        self.ops += 1;
        match self.ops % 3 {
            0 => e(serde_json::from_str(&f.json().to_string())),
            1 => match f.text() {
                Some(t) => e(AccessPolicy::from_boolean_expression(&t)),
                None => Ok(ap(f)),
            },
            _ => Ok(ap(f)),
        }
    }
}

impl<A: AbeScheme + Sync + Send> Back for Core<A> {
    fn name(&self) -> String {
        self.nm.into()
    }
    fn has(&self, _c: Cap) -> bool {
        true
    }
    fn master(&mut self, pol: &str) -> R<Master> {
        guard(|| {
            let p = self.policy(pol)?;
            let (a, b, c) = e(self.eng.generate_master_key(&p))?;
            let m = Master { msk: trip("master private key", &a)?, mpk: trip("master public key", &b)?, mdk: Some(trip("delegation key", &c)?) };
            self.msk.insert(m.msk.clone(), a);
            self.mpk.insert(m.mpk.clone(), b);
            self.mdk.insert(m.mdk.clone().unwrap(), c);
            Ok(m)
        })
    }
    fn user_key(&mut self, msk: &[u8], f: &F, pol: &str) -> R<Vec<u8>> {
        guard(|| {
            let p = self.policy(pol)?;
            let a = self.access(f)?;
            load(&mut self.msk, msk)?;
            let k = match self.span(f, pol)? {
                Some(m) => e(A::default().key_generation(&m, &self.msk[msk]))?,
                None => e(self.eng.generate_user_key(&p, &self.msk[msk], &a))?,
            };
            let b = trip("user key", &k)?;
            self.key.insert(b.clone(), k);
            Ok(b)
        })
    }
    fn delegate(&mut self, mdk: &[u8], key: &[u8], f: &F, pol: &str) -> R<Vec<u8>> {
        guard(|| {
            let p = self.policy(pol)?;
            let a = self.access(f)?;
            load(&mut self.mdk, mdk)?;
            load(&mut self.key, key)?;
            let k = e(self.eng.delegate_user_key(&p, &self.mdk[mdk], &self.key[key], &a))?;
            let b = trip("delegated key", &k)?;
            self.key.insert(b.clone(), k);
            Ok(b)
        })
    }
    fn rotate(&mut self, pol: &str, attrs: &[Attr]) -> R<String> {
        guard(|| {
            let mut p: Policy = e(serde_json::from_str(pol))?;
            for a in attrs {
                e(p.rotate(&attr(a)))?;
            }
            e(serde_json::to_string(&p))
        })
    }
    fn enc_header(&mut self, mpk: &[u8], pol: &str, attrs: &[Attr], meta: Option<(&[u8], &[u8])>) -> R<(Vec<u8>, Vec<u8>)> {
        guard(|| {
            let p = self.policy(pol)?;
            load(&mut self.mpk, mpk)?;
            let l: Vec<Attribute> = attrs.iter().map(|a| attr(a)).collect();
            let m = meta.map(|(u, a)| Metadata {
                uid: u.to_vec(),
                additional_data: if a.is_empty() { None } else { Some(a.to_vec()) },
            });
            let h = e(hc::encrypt_hybrid_header::<A, Aes>(&p, &self.mpk[mpk], &l, m))?;
            let b = e(h.try_into_bytes())?;
            match hc::EncryptedHeader::<Aes>::try_from_bytes(&b) {
                Ok(h2) if h2.encrypted_header_bytes == h.encrypted_header_bytes && h2.symmetric_key == h.symmetric_key => {}
                Ok(_) => return Err(Er::Trip("encrypted header: the loaded object differs".into())),
                Err(x) => return Err(Er::Trip(format!("encrypted header: stored bytes cannot be loaded: {x}"))),
            }
            Ok((h.symmetric_key.as_bytes().to_vec(), h.encrypted_header_bytes))
        })
    }
    fn dec_header(&mut self, key: &[u8], hdr: &[u8]) -> R<Dec> {
        guard(|| {
            load(&mut self.key, key)?;
            let h = e(hc::decrypt_hybrid_header::<A, Aes>(&self.key[key], hdr))?;
            let b = e(h.try_into_bytes())?;
            match hc::ClearTextHeader::<Aes>::try_from_bytes(&b) {
                Ok(h2)
                    if h2.symmetric_key == h.symmetric_key
                        && h2.meta_data.uid == h.meta_data.uid
                        && h2.meta_data.additional_data.clone().unwrap_or_default()
                            == h.meta_data.additional_data.clone().unwrap_or_default() => {}
                Ok(_) => return Err(Er::Trip("clear text header: the loaded object differs".into())),
                Err(x) => return Err(Er::Trip(format!("clear text header: stored bytes cannot be loaded: {x}"))),
            }
            Ok(Dec {
                sk: h.symmetric_key.as_bytes().to_vec(),
                uid: h.meta_data.uid.clone(),
                ad: h.meta_data.additional_data.clone().unwrap_or_default(),
            })
        })
    }
    fn enc_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        guard(|| {
            let k = e(<Aes as SymmetricCrypto>::Key::try_from_bytes(sk))?;
            e(hc::encrypt_hybrid_block::<A, Aes, { 1 << 20 }>(&k, uid, n as usize, data))
        })
    }
    fn dec_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        guard(|| {
            let k = e(<Aes as SymmetricCrypto>::Key::try_from_bytes(sk))?;
            e(hc::decrypt_hybrid_block::<A, Aes, { 1 << 20 }>(&k, uid, n as usize, data))
        })
    }
    fn limited(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<()> {
        guard(|| {
            let k = e(<Aes as SymmetricCrypto>::Key::try_from_bytes(sk))?;
            let c = e(hc::encrypt_hybrid_block::<A, Aes, LIMIT>(&k, uid, n as usize, data))?;
            if c.len() != data.len() + hc::symmetric_encryption_overhead::<Aes, LIMIT>() {
                return Err(Er::Trip(format!("#C02#a block of {} bytes for {} bytes", c.len(), data.len())));
            }
            match hc::decrypt_hybrid_block::<A, Aes, LIMIT>(&k, uid, n as usize, &c) {
                Ok(d) if d == data => Ok(()),
                Ok(_) => Err(Er::Trip(format!("#C02 C07#a block of {} bytes (at most {LIMIT}) decrypts to something else", data.len()))),
                Err(x) => Err(Er::Trip(format!("#C02 C07#a block of {} bytes (at most {LIMIT}) is not decrypted: {x}", data.len()))),
            }
        })
    }
    fn reload(&mut self, k: Kind, b: &[u8]) -> R<Vec<u8>> {
        guard(|| match k {
            Kind::Msk => trip("master private key", &e(A::MasterPrivateKey::try_from_bytes(b))?),
            Kind::Mpk => trip("master public key", &e(A::MasterPublicKey::try_from_bytes(b))?),
            Kind::Mdk => trip("delegation key", &e(A::MasterPublicDelegationKey::try_from_bytes(b))?),
            Kind::Key => trip("user key", &e(A::UserDecryptionKey::try_from_bytes(b))?),
            Kind::Ct => {
                let c = e(A::CipherText::try_from_bytes(b))?;
                let o = e(c.try_into_bytes())?;
                if c.len_bytes() != o.len() {
                    return Err(Er::Trip(format!("ciphertext: len_bytes says {} for {} bytes", c.len_bytes(), o.len())));
                }
                Ok(o)
            }
        })
    }
    fn raw(&mut self, mpk: &[u8], key: &[u8], pol: &str, attrs: &[Attr], len: usize) -> R<bool> {
        guard(|| {
            let p = self.policy(pol)?;
            load(&mut self.mpk, mpk)?;
            load(&mut self.key, key)?;
            let l: Vec<Attribute> = attrs.iter().map(|a| attr(a)).collect();
            if len > 0 {
                let (sk, ct) = e(self.eng.generate_symmetric_key(&p, &self.mpk[mpk], &l, len))?;
                if sk.len() != len {
                    return Err(Er::Trip(format!("a symmetric key of {} bytes instead of {len}", sk.len())));
                }
                let d = e(self.eng.decrypt_symmetric_key(&self.key[key], &ct, len))?;
                return Ok(d == sk);
            }
            self.ops += 1;
            let m = match self.ops % 2 {
                0 => e(self.eng.random_message())?,
                // what fits is encoded, differently from anything else
                _ => {
                    let t = self.ops.to_le_bytes();
                    let m = e(A::default().msg_encode(&t[..7]))?;
                    let o = e(A::default().msg_encode(&(self.ops + 1).to_le_bytes()[..7]))?;
                    if e(m.try_into_bytes())? == e(o.try_into_bytes())? {
                        return Err(Er::Trip("two messages are encoded alike".into()));
                    }
                    if A::default().msg_encode(&[1; 33]).is_ok() {
                        return Err(Er::Trip("a message that is too long is encoded".into()));
                    }
                    m
                }
            };
            let ct = e(self.eng.encrypt(&p, &self.mpk[mpk], &l, &m))?;
            let b = e(ct.try_into_bytes())?;
            if ct.len_bytes() != b.len() {
                return Err(Er::Trip(format!("ciphertext: len_bytes says {} for {} bytes", ct.len_bytes(), b.len())));
            }
            if A::ciphertext_len(l.len()) != b.len() {
                return Err(Er::Trip(format!("ciphertext_len says {} for {} bytes", A::ciphertext_len(l.len()), b.len())));
            }
            let d = e(self.eng.decrypt(&ct, &self.key[key]))?.ok_or(Er::Err("not decrypted".into()))?;
            let c2 = match A::CipherText::try_from_bytes(&b) {
                Ok(c) => c,
                Err(x) => return Err(Er::Trip(format!("ciphertext: stored bytes cannot be loaded: {x}"))),
            };
            let d2 = e(self.eng.decrypt(&c2, &self.key[key]))?.ok_or(Er::Trip("a stored ciphertext is not decrypted".into()))?;
            let (a, b, c) = (e(m.try_into_bytes())?, e(d.try_into_bytes())?, e(d2.try_into_bytes())?);
            if b != c {
                return Err(Er::Trip("a stored ciphertext decrypts to something else".into()));
            }
            Ok(a == b)
        })
    }
    fn restart(&mut self) {
        self.eng = Engine::new();
        self.msk.clear();
        self.mpk.clear();
        self.mdk.clear();
        self.key.clear();
        self.pol.clear();
    }
}

/// the native interface, one-shot or through caches
pub struct Native {
    pub cached: bool,
    enc: BTreeMap<(Vec<u8>, String), i32>,
    dec: BTreeMap<Vec<u8>, i32>,
}
impl Native {
    pub fn new(cached: bool) -> Self {
        Native { cached, enc: BTreeMap::new(), dec: BTreeMap::new() }
    }
}
fn b(x: &[u8]) -> In {
    In::Bytes(x.to_vec())
}
fn s(x: &str) -> In {
    In::Bytes(x.as_bytes().to_vec())
}
fn fin(r: ffi::Ret) -> R<ffi::Ret> {
    if let Some(x) = &r.bad {
        return Err(Er::Trip(x.clone()));
    }
    if r.rc != 0 {
        return Err(Er::Err(ffi::error_text()));
    }
    Ok(r)
}
impl Back for Native {
    fn name(&self) -> String {
        if self.cached { "native-cached".into() } else { "native".into() }
    }
    fn has(&self, c: Cap) -> bool {
        matches!(c, Cap::Ad | Cap::NoUid | Cap::All | Cap::Master | Cap::Issue)
    }
    fn master(&mut self, pol: &str) -> R<Master> {
        let r = fin(ffi::generate_master_keys(&Out::Cap(60000), &s(pol)))?;
        let x = &r.outs[0];
        let l = x.get(..4).map_or(0, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize);
        if x.len() < 4 + l {
            return Err(Er::Trip("master keys are malformed".into()));
        }
        Ok(Master { msk: x[4..4 + l].to_vec(), mpk: x[4 + l..].to_vec(), mdk: None })
    }
    fn user_key(&mut self, msk: &[u8], f: &F, pol: &str) -> R<Vec<u8>> {
        let r = fin(ffi::generate_user_key(&Out::Cap(60000), &b(msk), &s(&f.json().to_string()), &s(pol)))?;
        Ok(r.outs[0].clone())
    }
    fn delegate(&mut self, _: &[u8], _: &[u8], _: &F, _: &str) -> R<Vec<u8>> {
        Err(Er::Err("not available".into()))
    }
    fn rotate(&mut self, pol: &str, attrs: &[Attr]) -> R<String> {
        let r = fin(ffi::rotate(&Out::Cap(20000), &s(&serde_json::to_string(attrs).unwrap()), &s(pol)))?;
        String::from_utf8(r.outs[0].clone()).map_err(|_| Er::Trip("the policy is not text".into()))
    }
    fn enc_header(&mut self, mpk: &[u8], pol: &str, attrs: &[Attr], meta: Option<(&[u8], &[u8])>) -> R<(Vec<u8>, Vec<u8>)> {
        let (u, a) = meta.unwrap_or((&[], &[]));
        let l = s(&serde_json::to_string(attrs).unwrap());
        let (sk, hd) = (Out::Cap(32), Out::Cap(6000 + u.len() + a.len()));
        let (u, a) = (crate::fixture::opt(u), crate::fixture::opt(a));
        let r = if self.cached {
            let k = (mpk.to_vec(), pol.to_string());
            if !self.enc.contains_key(&k) {
                let (r, h) = ffi::create_encryption_cache(false, &s(pol), &b(mpk));
                fin(r)?;
                self.enc.insert(k.clone(), h);
            }
            ffi::encrypt_header_cached(&sk, &hd, self.enc[&k], &l, &u, &a)
        } else {
            ffi::encrypt_header(&sk, &hd, &s(pol), &b(mpk), &l, &u, &a)
        };
        let mut r = fin(r)?;
        let h = r.outs.pop().unwrap();
        Ok((r.outs.pop().unwrap(), h))
    }
    fn dec_header(&mut self, key: &[u8], hdr: &[u8]) -> R<Dec> {
        let n = hdr.len() + 64;
        let (sk, u, a) = (Out::Cap(32), Out::Cap(n), Out::Cap(n));
        let r = if self.cached {
            if !self.dec.contains_key(key) {
                let (r, h) = ffi::create_decryption_cache(false, &b(key));
                fin(r)?;
                self.dec.insert(key.to_vec(), h);
            }
            ffi::decrypt_header_cached(&sk, &u, &a, &b(hdr), self.dec[key])
        } else {
            ffi::decrypt_header(&sk, &u, &a, &b(hdr), &b(key))
        };
        let r = fin(r)?;
        Ok(Dec { sk: r.outs[0].clone(), uid: r.outs[1].clone(), ad: r.outs[2].clone() })
    }
    fn enc_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        let r = fin(ffi::encrypt_block(&Out::Cap(data.len() + 64), &b(sk), &crate::fixture::opt(uid), n as i32, &b(data)))?;
        Ok(r.outs[0].clone())
    }
    fn dec_block(&mut self, sk: &[u8], uid: &[u8], n: u64, data: &[u8]) -> R<Vec<u8>> {
        let r = fin(ffi::decrypt_block(&Out::Cap(data.len() + 64), &b(sk), &crate::fixture::opt(uid), n as i32, &b(data)))?;
        Ok(r.outs[0].clone())
    }
    fn restart(&mut self) {
        for (_, h) in std::mem::take(&mut self.enc) {
            ffi::destroy_encryption_cache(h);
        }
        for (_, h) in std::mem::take(&mut self.dec) {
            ffi::destroy_decryption_cache(h);
        }
    }
}
