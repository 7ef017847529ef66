//! A stand-in for the pairing group: exponents modulo 2^61-1 in the clear. Every
//! group operation is exact arithmetic, so the scheme above it runs unchanged but
//! a thousand times faster, and what keys can be combined to can be computed.
use cosmian_abe_gpsw::core::bilinear_map::BilinearMap;
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::error::FormatErr;
use rand::{CryptoRng, RngCore};
use std::ops::{Add, Div, Mul, Neg, Sub};

pub const P: u64 = (1 << 61) - 1;
pub fn mul(a: u64, b: u64) -> u64 {
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn add(a: u64, b: u64) -> u64 {
    (a + b) % P
}
pub fn sub(a: u64, b: u64) -> u64 {
    (a + P - b) % P
}
pub fn inv(a: u64) -> u64 {
    assert!(a != 0, "division by zero");
    let (mut r, mut b, mut e) = (1, a, P - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b);
        }
        b = mul(b, b);
        e >>= 1;
    }
    r
}

macro_rules! elem {
    ($n:ident, $len:expr, $tag:expr) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $n(pub u64);
        impl AsBytes for $n {
            fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
                let mut v = vec![0u8; $len];
                v[..8].copy_from_slice(&self.0.to_le_bytes());
                v[$len - 1] = $tag;
                Ok(v)
            }
            fn try_from_bytes(b: &[u8]) -> Result<Self, FormatErr> {
                if b.len() < $len {
                    return Err(FormatErr::InvalidSize("element too short".into()));
                }
                let x = u64::from_le_bytes(b[..8].try_into().unwrap());
                if x >= P || b[8..$len - 1].iter().any(|c| *c != 0) || b[$len - 1] != $tag {
                    return Err(FormatErr::Deserialization("not an element".into()));
                }
                Ok($n(x))
            }
            fn len_bytes(&self) -> usize {
                $len
            }
        }
    };
}
elem!(Scalar, 32, 0);
elem!(G2, 48, 0xA2);
elem!(G3, 96, 0xA3);
elem!(Gt, 288, 0xA4);
#[derive(Clone, Debug, PartialEq)]
pub struct G1(pub u64);

impl From<i32> for Scalar {
    fn from(i: i32) -> Self {
        Scalar((i64::from(i).rem_euclid(P as i64)) as u64)
    }
}
impl<'a> Add<&'a Scalar> for Scalar {
    type Output = Scalar;
    fn add(self, o: &'a Scalar) -> Scalar {
        Scalar(add(self.0, o.0))
    }
}
impl<'a> Sub<&'a Scalar> for Scalar {
    type Output = Scalar;
    fn sub(self, o: &'a Scalar) -> Scalar {
        Scalar(sub(self.0, o.0))
    }
}
impl<'a> Mul<&'a Scalar> for Scalar {
    type Output = Scalar;
    fn mul(self, o: &'a Scalar) -> Scalar {
        Scalar(mul(self.0, o.0))
    }
}
impl<'a> Div<&'a Scalar> for Scalar {
    type Output = Scalar;
    fn div(self, o: &'a Scalar) -> Scalar {
        Scalar(mul(self.0, inv(o.0)))
    }
}
impl Neg for Scalar {
    type Output = Scalar;
    fn neg(self) -> Scalar {
        Scalar(sub(0, self.0))
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Toy;

fn draw<R: RngCore>(r: &mut R) -> u64 {
    loop {
        let x = r.next_u64() >> 3;
        if x < P {
            return x;
        }
    }
}

// the generators have exponents 3 (G1, G3), 5 (G2) and 15 (Gt)
impl BilinearMap for Toy {
    type Scalar = Scalar;
    type G1 = G1;
    type G2 = G2;
    type G3 = G3;
    type Gt = Gt;
    const ZERO: Scalar = Scalar(0);
    const ONE: Scalar = Scalar(1);
    fn description() -> String {
        "exponents in the clear".into()
    }
    fn gen_rand_scalar_inner<R: CryptoRng + RngCore>(&self, r: &mut R) -> Result<Scalar, FormatErr> {
        Ok(Scalar(draw(r)))
    }
    fn gen_rand_gt_inner<R: CryptoRng + RngCore>(&self, r: &mut R) -> Result<Gt, FormatErr> {
        Ok(Gt(draw(r)))
    }
    fn msg_to_scalar(&self, m: &[u8]) -> Result<Scalar, FormatErr> {
        if m.len() > 7 {
            return Err(FormatErr::InvalidSize("message too long".into()));
        }
        let mut b = [0u8; 8];
        b[..m.len()].copy_from_slice(m);
        Ok(Scalar(u64::from_le_bytes(b)))
    }
    fn g1_gen_exp(&self, x: &Scalar) -> (G1, G3) {
        let v = mul(3, x.0);
        (G1(v), G3(v))
    }
    fn g3_gen_exp(&self, x: &Scalar) -> G3 {
        G3(mul(3, x.0))
    }
    fn g3_mul(&self, a: &G3, b: &G3) -> (G1, G3) {
        let v = add(a.0, b.0);
        (G1(v), G3(v))
    }
    fn g3_exp(&self, a: &G3, x: &Scalar) -> G3 {
        G3(mul(a.0, x.0))
    }
    fn g2_gen_exp(&self, x: &Scalar) -> G2 {
        G2(mul(5, x.0))
    }
    fn g2_exp(&self, a: &G2, x: &Scalar) -> G2 {
        G2(mul(a.0, x.0))
    }
    fn gt_gen_exp(&self, x: &Scalar) -> Gt {
        Gt(mul(15, x.0))
    }
    fn gt_exp(&self, a: &Gt, x: &Scalar) -> Gt {
        Gt(mul(a.0, x.0))
    }
    fn gt_mul(&self, a: &Gt, b: &Gt) -> Gt {
        Gt(add(a.0, b.0))
    }
    fn gt_div(&self, a: &Gt, b: &Gt) -> Gt {
        Gt(sub(a.0, b.0))
    }
    fn prod_gt_exp(&self, d: &[&G1], e: &[&G2], a: &[&Scalar]) -> Gt {
        let mut s = 0;
        for ((d, e), a) in d.iter().zip(e).zip(a) {
            s = add(s, mul(mul(d.0, e.0), a.0));
        }
        Gt(s)
    }
    fn g3_to_g1(v: &G3) -> G1 {
        G1(v.0)
    }
}
