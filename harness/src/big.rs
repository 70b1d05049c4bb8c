//! Independent integer reference for the fields.
use crate::R;
use num::{BigUint, One, Zero};
use once_cell::sync::Lazy;
use plonky::*;
use rand::Rng;
use std::str::FromStr;

/// The six fields with moduli written down independently of the code under test.
pub trait FieldSpec: Field {
    const NAME: &'static str;
    const MODULUS: &'static str;
    const RLIMBS: usize;
    fn raw(&self) -> Vec<u64>;
    fn p() -> BigUint {
        Self::pr().clone()
    }
    fn pr() -> &'static BigUint;
    fn rinv() -> &'static BigUint;
    /// Value of the stored representation, computed with no code of the library: raw * R^-1 mod p.
    fn val(&self) -> BigUint {
        (limbs(&self.raw()) * Self::rinv()) % Self::pr()
    }
    /// Build the element from an integer through its raw Montgomery form.
    fn mk(v: &BigUint) -> Self;
}

pub fn limbs(l: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for &x in l.iter().rev() {
        r = (r << 64) + BigUint::from(x);
    }
    r
}

pub fn to_limbs(v: &BigUint, n: usize) -> Vec<u64> {
    let mut d = Vec::new();
    let mask = BigUint::from(u64::MAX);
    let mut v = v.clone();
    for _ in 0..n {
        let lo = &v & &mask;
        d.push(lo.to_u64_digits().get(0).copied().unwrap_or(0));
        v >>= 64;
    }
    d
}

pub fn inv(a: &BigUint, p: &BigUint) -> BigUint {
    (a % p).modpow(&(p - 2u32), p)
}

pub fn addm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a + b) % p
}
pub fn subm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    ((a % p) + p - (b % p)) % p
}
pub fn mulm(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    (a * b) % p
}
/// Legendre symbol by Euler's criterion: is `a` a square mod p?
pub fn is_qr(a: &BigUint, p: &BigUint) -> bool {
    (a % p).is_zero() || a.modpow(&((p - 1u32) >> 1), p).is_one()
}

macro_rules! spec {
    ($t:ty, $name:expr, $m:expr, $n:expr) => {
        impl FieldSpec for $t {
            const NAME: &'static str = $name;
            const MODULUS: &'static str = $m;
            const RLIMBS: usize = $n;
            fn pr() -> &'static BigUint {
                static P: Lazy<BigUint> = Lazy::new(|| BigUint::from_str($m).unwrap());
                &P
            }
            fn rinv() -> &'static BigUint {
                static P: Lazy<BigUint> = Lazy::new(|| inv(&(BigUint::one() << (64 * $n)), <$t as FieldSpec>::pr()));
                &P
            }
            fn raw(&self) -> Vec<u64> {
                self.limbs.to_vec()
            }
            fn mk(v: &BigUint) -> Self {
                let p = Self::pr();
                let m = ((v % p) << (64 * $n)) % p;
                let l = to_limbs(&m, $n);
                let mut a = [0u64; $n];
                a.copy_from_slice(&l);
                Self { limbs: a }
            }
        }
    };
}

spec!(TweedledeeBase, "TweedledeeBase", "28948022309329048855892746252171976963322203655954433126947083963168578338817", 4);
spec!(TweedledumBase, "TweedledumBase", "28948022309329048855892746252171976963322203655955319056773317069363642105857", 4);
spec!(PallasBase, "PallasBase", "28948022309329048855892746252171976963363056481941560715954676764349967630337", 4);
spec!(VestaBase, "VestaBase", "28948022309329048855892746252171976963363056481941647379679742748393362948097", 4);
spec!(Bls12377Base, "Bls12377Base", "258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177", 6);
spec!(Bls12377Scalar, "Bls12377Scalar", "8444461749428370424248824938781546531375899335154063827935233455917409239041", 4);

/// Integers that stress limb boundaries, carries and the ends of the range [0, p).
pub fn boundary_values(p: &BigUint) -> Vec<BigUint> {
    let mut v = Vec::new();
    let bits = p.bits() as usize;
    for i in 0..6u32 {
        v.push(BigUint::from(i));
        v.push(p - 1u32 - i);
        v.push((p >> 1) - i);
        v.push((p >> 1) + i + 1u32);
        v.push((p / 3u32) + i);
    }
    let words = (bits + 63) / 64;
    for w in 0..words {
        for i in 0..3u32 {
            v.push((BigUint::one() << (64 * w)) + i);
            v.push((BigUint::one() << (64 * (w + 1))) - 1u32 - i);
            v.push((BigUint::one() << (64 * w + 63)) - i);
            v.push((BigUint::one() << (64 * w + 32)) - i);
            if w > 0 {
                let x = (BigUint::one() << (64 * w)) * (i + 1);
                if &x < p {
                    v.push(p - x);
                }
            }
        }
        // word of ones alone
        v.push(((BigUint::one() << 64) - 1u32) << (64 * w));
    }
    for b in [bits - 1, bits - 2, bits - 3].iter() {
        v.push(BigUint::one() << *b);
        v.push((BigUint::one() << *b) - 1u32);
        v.push((BigUint::one() << *b) + 1u32);
    }
    // Montgomery-representation boundaries: R mod p, p - R, R^-1
    let r = (BigUint::one() << (64 * words)) % p;
    v.push(r.clone());
    v.push(p - &r);
    v.push(inv(&r, p));
    // values whose *representation* is all-ones-ish / extreme
    for i in 1..4u32 {
        let rinv = inv(&r, p);
        v.push((&rinv * (p - i)) % p);
        v.push((&rinv * BigUint::from(i)) % p);
        v.push((&rinv * ((p >> 1) - i)) % p);
        for w in 1..words {
            v.push((&rinv * ((BigUint::one() << (64 * w)) - i)) % p);
            v.push((&rinv * (BigUint::one() << (64 * w))) % p);
        }
    }
    let mut v: Vec<BigUint> = v.into_iter().filter(|x| x < p).collect();
    v.sort();
    v.dedup();
    v
}

/// A hostile random integer below p: uniform, sparse limbs, runs of ones, or small/large.
pub fn hostile(rng: &mut R, p: &BigUint) -> BigUint {
    let bits = p.bits() as usize;
    let words = (bits + 63) / 64;
    let v = match rng.gen_range(0, 7) {
        0 | 1 => {
            let l: Vec<u64> = (0..words).map(|_| rng.gen()).collect();
            limbs(&l)
        }
        2 => {
            let l: Vec<u64> = (0..words)
                .map(|_| match rng.gen_range(0, 4) {
                    0 => 0,
                    1 => u64::MAX,
                    2 => 1u64 << rng.gen_range(0, 64),
                    _ => rng.gen(),
                })
                .collect();
            limbs(&l)
        }
        3 => {
            let a = rng.gen_range(0, bits);
            let b = rng.gen_range(0, bits);
            let (a, b) = if a < b { (a, b) } else { (b, a) };
            (BigUint::one() << b) - (BigUint::one() << a)
        }
        4 => BigUint::from(rng.gen::<u64>()),
        5 => p - 1u32 - BigUint::from(rng.gen::<u32>() % 1000),
        _ => {
            // extreme representation
            let l: Vec<u64> = (0..words)
                .map(|_| match rng.gen_range(0, 3) {
                    0 => 0,
                    1 => u64::MAX,
                    _ => rng.gen(),
                })
                .collect();
            let r = BigUint::one() << (64 * words);
            (limbs(&l) % p) * inv(&(r % p), p)
        }
    };
    v % p
}

pub fn rf<F: FieldSpec>(rng: &mut R) -> F {
    F::mk(&hostile(rng, &F::p()))
}

/// Uniform random element (no special structure).
pub fn uf<F: FieldSpec>(rng: &mut R) -> F {
    let p = F::p();
    let words = (p.bits() as usize + 63) / 64 + 1;
    let l: Vec<u64> = (0..words).map(|_| rng.gen()).collect();
    F::mk(&(limbs(&l) % p))
}

/// A square root mod p by Cipolla's algorithm (`a` must be a square).
pub fn ref_sqrt(a: &BigUint, p: &BigUint) -> BigUint {
    if a.is_zero() {
        return a.clone();
    }
    let mut t = BigUint::one();
    while is_qr(&subm(&mulm(&t, &t, p), a, p), p) {
        t += 1u32;
    }
    let w = subm(&mulm(&t, &t, p), a, p);
    let (mut r, mut s) = (BigUint::one(), BigUint::zero());
    let (mut x, mut y) = (t, BigUint::one());
    let mut e: BigUint = (p + 1u32) >> 1;
    let mul = |a: &BigUint, b: &BigUint, c: &BigUint, d: &BigUint| ((a * c + &w * (b * d)) % p, (a * d + b * c) % p);
    while !e.is_zero() {
        if e.bit(0) {
            let n = mul(&r, &s, &x, &y);
            r = n.0;
            s = n.1;
        }
        let n = mul(&x, &y, &x, &y);
        x = n.0;
        y = n.1;
        e >>= 1;
    }
    r
}
