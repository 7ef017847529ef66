//! Objects the native cases work on: three authorities, rotated policies, keys,
//! headers and blocks, all produced by the native interface in a process of its own.
use crate::entropy;
use crate::ffi::{self, In, Out};
use crate::model::{Policy, B, F};
use crate::report::Report;
use crate::{runner, shm};
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Auth {
    pub pols: Vec<Policy>,
    pub json: Vec<String>,
    pub msk: Vec<u8>,
    pub mpk: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Key {
    pub auth: usize,
    pub ver: usize,
    pub f: F,
    pub b: B,
    pub bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hdr {
    pub auth: usize,
    pub ver: usize,
    pub attrs: Vec<String>,
    pub gamma: Vec<u32>,
    pub sk: Vec<u8>,
    pub uid: Vec<u8>,
    pub ad: Vec<u8>,
    pub bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Blk {
    pub sk: Vec<u8>,
    pub uid: Vec<u8>,
    pub n: i32,
    pub data: Vec<u8>,
    pub bytes: Vec<u8>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Fx {
    pub seed: u64,
    pub auth: Vec<Auth>,
    pub keys: Vec<Key>,
    pub hdrs: Vec<Hdr>,
    pub blks: Vec<Blk>,
}
impl Fx {
    pub fn opener(&self, auth: usize, gamma: &[u32]) -> Option<&Key> {
        self.keys.iter().filter(|k| k.auth == auth && k.b.opens(gamma)).min_by_key(|k| k.bytes.len())
    }
}

static mut FX: Option<Box<Fx>> = None;
pub fn fx() -> &'static Fx {
    #[allow(static_mut_refs)]
    unsafe {
        FX.as_deref().expect("fixture")
    }
}

fn a(x: &str) -> F {
    F::A(x.into())
}
fn and(x: F, y: F) -> F {
    F::And(Box::new(x), Box::new(y))
}
fn or(x: F, y: F) -> F {
    F::Or(Box::new(x), Box::new(y))
}

/// printable token that is unlikely to occur by chance
pub fn token(r: &mut crate::rng::Rng, n: usize) -> Vec<u8> {
    (0..n).map(|_| b"bcdfghjkmnpqrstvwxz0123456789"[r.below(29)]).collect()
}

fn build(seed: u64) -> Result<Fx, String> {
    let mut r = crate::rng::Rng::of(&[seed, 0xf1]);
    let mut fx = Fx { seed, auth: vec![], keys: vec![], hdrs: vec![], blks: vec![] };
    let mut e = 0u64;
    let mut ent = || {
        e += 1;
        entropy::begin(crate::rng::mix(seed ^ 0xe47) ^ e);
    };
    let ok = |what: &str, r: &ffi::Ret| -> Result<(), String> {
        shm::note(&format!("*|setup|{what}"));
        if r.rc != 0 || r.bad.is_some() {
            return Err(format!("the fixture cannot be built: {what} failed with {}: {} {:?}", r.rc, ffi::error_text(), r.bad));
        }
        Ok(())
    };
    let shapes: [(&str, &[&str], bool, u32); 3] =
        [("D", &["A", "B"], false, 4), ("D", &["B", "A"], false, 4), ("L", &["lo", "hi"], true, 2)];
    for (i, (n, at, h, max)) in shapes.iter().enumerate() {
        let p = Policy::new(*max, &[(n, at, *h)]);
        let mut au = Auth { json: vec![p.json()], pols: vec![p.clone()], msk: vec![], mpk: vec![] };
        ent();
        shm::note("*|setup|master keys");
        let k = ffi::generate_master_keys(&Out::Cap(20000), &In::Bytes(au.json[0].clone().into_bytes()));
        ok("master keys", &k)?;
        let b = &k.outs[0];
        let l = b.get(..4).map_or(0, |x| u32::from_be_bytes(x.try_into().unwrap()) as usize);
        if b.len() < 4 + l {
            return Err("the fixture cannot be built: master keys are malformed".into());
        }
        au.msk = b[4..4 + l].to_vec();
        au.mpk = b[4 + l..].to_vec();
        if i == 0 {
            // the last one: as long as the second, but something else was rotated
            let mut other = p.clone();
            other.rotate("D::B");
            let mut p = p;
            for x in ["D::A", "D::B"] {
                p.rotate(x);
                au.json.push(p.json());
                au.pols.push(p.clone());
            }
            au.json.push(other.json());
            au.pols.push(other);
        }
        fx.auth.push(au);
    }
    let forms: Vec<(usize, usize, F)> = vec![
        (0, 0, a("D::A")),
        (0, 0, a("D::B")),
        (0, 0, and(a("D::A"), a("D::B"))),
        (0, 0, or(a("D::A"), a("D::B"))),
        (0, 0, F::All),
        (0, 2, a("D::A")),
        (0, 2, a("D::B")),
        (1, 0, a("D::A")),
        (1, 0, a("D::B")),
        (1, 0, or(a("D::A"), a("D::B"))),
        (2, 0, a("L::lo")),
        (2, 0, a("L::hi")),
        (2, 0, F::All),
    ];
    for (au, ver, f) in forms {
        let x = &fx.auth[au];
        ent();
        shm::note("*|setup|user key");
        let k = ffi::generate_user_key(
            &Out::Cap(8000),
            &In::Bytes(x.msk.clone()),
            &In::Bytes(f.json().to_string().into_bytes()),
            &In::Bytes(x.json[ver].clone().into_bytes()),
        );
        ok("user key", &k)?;
        let b = f.compile(&x.pols[ver])?;
        fx.keys.push(Key { auth: au, ver, f, b, bytes: k.outs[0].clone() });
    }
    let heads: Vec<(usize, usize, Vec<&str>, usize, usize)> = vec![
        (0, 0, vec!["D::A"], 8, 16),
        (0, 0, vec!["D::B"], 8, 16),
        (0, 0, vec!["D::A", "D::B"], 16, 40),
        (0, 0, vec!["D::A"], 8, 16),
        (0, 0, vec!["D::A"], 0, 0),
        (0, 0, vec!["D::B"], 12, 0),
        (0, 0, vec!["D::A"], 0, 300),
        (0, 1, vec!["D::A"], 8, 16),
        (0, 2, vec!["D::A"], 8, 16),
        (0, 2, vec!["D::B"], 8, 16),
        (1, 0, vec!["D::A"], 8, 16),
        (1, 0, vec!["D::B"], 8, 16),
        (2, 0, vec!["L::lo"], 8, 16),
        (2, 0, vec!["L::hi"], 8, 16),
    ];
    for (au, ver, attrs, ul, al) in heads {
        let x = &fx.auth[au];
        let (uid, ad) = (token(&mut r, ul), token(&mut r, al));
        ent();
        shm::note("*|setup|header");
        let k = ffi::encrypt_header(
            &Out::Cap(32),
            &Out::Cap(8000),
            &In::Bytes(x.json[ver].clone().into_bytes()),
            &In::Bytes(x.mpk.clone()),
            &In::Bytes(json!(attrs).to_string().into_bytes()),
            &opt(&uid),
            &opt(&ad),
        );
        ok("header", &k)?;
        let attrs: Vec<String> = attrs.iter().map(|s| s.to_string()).collect();
        let gamma = x.pols[ver].gamma(&attrs).unwrap();
        fx.hdrs.push(Hdr { auth: au, ver, attrs, gamma, sk: k.outs[0].clone(), uid, ad, bytes: k.outs[1].clone() });
    }
    for (h, ul, n, dl) in [(0, 8, 0, 40), (0, 8, 1, 40), (3, 8, 0, 40), (0, 16, 0, 40), (1, 0, 7, 1), (10, 8, 255, 4096)] {
        let sk = fx.hdrs[h].sk.clone();
        let (uid, data) = (if ul == 8 { fx.hdrs[h].uid.clone() } else { token(&mut r, ul) }, token(&mut r, dl));
        ent();
        shm::note("*|setup|block");
        let k = ffi::encrypt_block(&Out::Cap(dl + 200), &In::Bytes(sk.clone()), &opt(&uid), n, &In::Bytes(data.clone()));
        ok("block", &k)?;
        fx.blks.push(Blk { sk, uid, n, data, bytes: k.outs[0].clone() });
    }
    Ok(fx)
}

pub fn opt(b: &[u8]) -> In {
    if b.is_empty() {
        In::Null
    } else {
        In::Bytes(b.to_vec())
    }
}

/// as a report: the fixture in `events[0]`, or a violation
pub fn report(seed: u64) -> Report {
    let mut r = Report::default();
    match build(seed) {
        Ok(f) => r.events.push(serde_json::to_string(&f).unwrap()),
        Err(e) => r.v("*", "setup", e),
    }
    r
}

/// builds the fixture in a child process; an error means the code under test
/// could not even produce keys and headers
pub fn prepare(seed: u64, sh: *mut shm::Shm) -> Result<(), String> {
    unsafe {
        #[allow(static_mut_refs)]
        if FX.as_ref().is_some_and(|f| f.seed == seed) {
            return Ok(());
        }
    }
    let r = runner::run_one(sh, &crate::Case::Setup { seed });
    if let Some(v) = r.viol.first() {
        return Err(v.msg.clone());
    }
    let f: Fx = serde_json::from_str(&r.events[0]).map_err(|e| e.to_string())?;
    unsafe { FX = Some(Box::new(f)) };
    Ok(())
}
