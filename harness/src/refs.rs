//! Independent reference implementations used as oracles.
use crate::big::*;
use num::{BigUint, Integer, One, Zero};
use plonky::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;

// ---------------------------------------------------------------- curves over the integers

/// Affine point over the integers mod p; None is the identity.
pub type Pt = Option<(BigUint, BigUint)>;

#[derive(Clone)]
pub struct RefCurve {
    pub p: BigUint,
    pub a: BigUint,
    pub b: BigUint,
    /// group order of the scalar field
    pub r: BigUint,
}

impl RefCurve {
    pub fn of<C: Curve>() -> RefCurve
    where
        C::BaseField: FieldSpec,
        C::ScalarField: FieldSpec,
    {
        RefCurve { p: C::BaseField::p(), a: C::A.val(), b: C::B.val(), r: C::ScalarField::p() }
    }
    pub fn on(&self, q: &Pt) -> bool {
        match q {
            None => true,
            Some((x, y)) => (y * y) % &self.p == (x * x * x + &self.a * x + &self.b) % &self.p,
        }
    }
    pub fn neg(&self, q: &Pt) -> Pt {
        q.as_ref().map(|(x, y)| (x.clone(), subm(&BigUint::zero(), y, &self.p)))
    }
    /// Textbook chord and tangent.
    pub fn add(&self, q: &Pt, s: &Pt) -> Pt {
        let p = &self.p;
        let ((x1, y1), (x2, y2)) = match (q, s) {
            (None, _) => return s.clone(),
            (_, None) => return q.clone(),
            (Some(a), Some(b)) => (a, b),
        };
        let l = if x1 == x2 {
            if ((y1 + y2) % p).is_zero() {
                return None;
            }
            let num = (x1 * x1 * 3u32 + &self.a) % p;
            mulm(&num, &inv(&((y1 + y1) % p), p), p)
        } else {
            mulm(&subm(y2, y1, p), &inv(&subm(x2, x1, p), p), p)
        };
        let x3 = subm(&subm(&mulm(&l, &l, p), x1, p), x2, p);
        let y3 = subm(&mulm(&l, &subm(x1, &x3, p), p), y1, p);
        Some((x3, y3))
    }
    /// k * q by double-and-add in Jacobian coordinates.
    pub fn mul(&self, k: &BigUint, q: &Pt) -> Pt {
        let (x, y) = match q {
            None => return None,
            Some(v) => v.clone(),
        };
        let p = &self.p;
        let base = (x, y, BigUint::one());
        let mut acc: Option<(BigUint, BigUint, BigUint)> = None;
        for i in (0..k.bits()).rev() {
            acc = acc.and_then(|t| self.jdbl(&t));
            if (k >> (i as usize)).is_odd() {
                acc = match acc {
                    None => Some(base.clone()),
                    Some(t) => self.jadd(&t, &base),
                };
            }
        }
        acc.map(|(x, y, z)| {
            let zi = inv(&z, p);
            let zi2 = mulm(&zi, &zi, p);
            (mulm(&x, &zi2, p), mulm(&y, &mulm(&zi2, &zi, p), p))
        })
    }
    fn jdbl(&self, t: &(BigUint, BigUint, BigUint)) -> Option<(BigUint, BigUint, BigUint)> {
        let p = &self.p;
        let (x, y, z) = t;
        if y.is_zero() {
            return None;
        }
        let yy = mulm(y, y, p);
        let s = mulm(&(x * 4u32), &yy, p);
        let zz = mulm(z, z, p);
        let m = (x * x * 3u32 + &self.a * mulm(&zz, &zz, p)) % p;
        let x3 = subm(&mulm(&m, &m, p), &((&s * 2u32) % p), p);
        let y3 = subm(&mulm(&m, &subm(&s, &x3, p), p), &mulm(&(&yy * 8u32), &yy, p), p);
        let z3 = (y * z * 2u32) % p;
        Some((x3, y3, z3))
    }
    fn jadd(&self, t: &(BigUint, BigUint, BigUint), s: &(BigUint, BigUint, BigUint)) -> Option<(BigUint, BigUint, BigUint)> {
        let p = &self.p;
        let (x1, y1, z1) = t;
        let (x2, y2, z2) = s;
        let z1z1 = mulm(z1, z1, p);
        let z2z2 = mulm(z2, z2, p);
        let u1 = mulm(x1, &z2z2, p);
        let u2 = mulm(x2, &z1z1, p);
        let s1 = mulm(y1, &mulm(&z2z2, z2, p), p);
        let s2 = mulm(y2, &mulm(&z1z1, z1, p), p);
        if u1 == u2 {
            return if s1 == s2 { self.jdbl(t) } else { None };
        }
        let h = subm(&u2, &u1, p);
        let r = subm(&s2, &s1, p);
        let hh = mulm(&h, &h, p);
        let hhh = mulm(&hh, &h, p);
        let v = mulm(&u1, &hh, p);
        let x3 = subm(&subm(&mulm(&r, &r, p), &hhh, p), &((&v * 2u32) % p), p);
        let y3 = subm(&mulm(&r, &subm(&v, &x3, p), p), &mulm(&s1, &hhh, p), p);
        let z3 = mulm(&mulm(z1, z2, p), &h, p);
        Some((x3, y3, z3))
    }
}

pub fn aff<C: Curve>(q: &Pt) -> AffinePoint<C>
where
    C::BaseField: FieldSpec,
{
    match q {
        None => AffinePoint::ZERO,
        Some((x, y)) => AffinePoint { x: C::BaseField::mk(x), y: C::BaseField::mk(y), zero: false },
    }
}
pub fn pt<C: Curve>(q: &AffinePoint<C>) -> Pt
where
    C::BaseField: FieldSpec,
{
    if q.zero {
        None
    } else {
        Some((q.x.val(), q.y.val()))
    }
}
/// Value of a projective point, normalised without library code. A point flagged non-zero with z = 0 is
/// not a point: reported as (0,0), which is on none of the curves.
pub fn ppt<C: Curve>(q: &ProjectivePoint<C>) -> Pt
where
    C::BaseField: FieldSpec,
{
    if q.zero {
        return None;
    }
    let p = C::BaseField::pr();
    let z = q.z.val();
    if z.is_zero() {
        return Some((BigUint::zero(), BigUint::zero()));
    }
    let zi = inv(&z, p);
    Some((mulm(&q.x.val(), &zi, p), mulm(&q.y.val(), &zi, p)))
}

// ---------------------------------------------------------------- Rescue

pub struct RefRescue<F: Field> {
    alpha: F,
    alpha_inv: F,
    consts: Vec<(Vec<F>, Vec<F>)>,
    pub mds: Vec<Vec<F>>,
    w: usize,
}

/// Extended Euclid: inverse of a modulo m (m need not be prime).
pub fn inv_mod(a: &BigUint, m: &BigUint) -> BigUint {
    use num::BigInt;
    let (mut r0, mut r1) = (BigInt::from(m.clone()), BigInt::from(a % m));
    let (mut t0, mut t1) = (BigInt::zero(), BigInt::one());
    while !r1.is_zero() {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = r1;
        r1 = r2;
        let t2 = &t0 - &q * &t1;
        t0 = t1;
        t1 = t2;
    }
    assert!(r0.is_one());
    let mi = BigInt::from(m.clone());
    (((t0 % &mi) + &mi) % &mi).to_biguint().unwrap()
}

pub fn ref_rounds(width: usize, security_bits: usize) -> usize {
    std::cmp::max(10, (security_bits + 2 * width - 1) / (2 * width))
}

impl<F: FieldSpec> RefRescue<F> {
    pub fn new(w: usize, security_bits: usize) -> Self {
        let mut rng = ChaCha8Rng::seed_from_u64(1337);
        let mut consts = Vec::new();
        for _ in 0..ref_rounds(w, security_bits) {
            let a = (0..w).map(|_| F::rand_from_rng(&mut rng)).collect();
            let b = (0..w).map(|_| F::rand_from_rng(&mut rng)).collect();
            consts.push((a, b));
        }
        let p = F::pr();
        let mds = (0..w).map(|r| (0..w).map(|c| F::mk(&inv(&BigUint::from(w + r - c), p))).collect()).collect();
        let alpha = F::ALPHA;
        let ai = inv_mod(&alpha.val(), &(p - 1u32));
        RefRescue { alpha, alpha_inv: F::mk(&ai), consts, mds, w }
    }
    pub fn mix(&self, s: &[F], k: &[F]) -> Vec<F> {
        (0..self.w)
            .map(|r| {
                let mut acc = k[r];
                for c in 0..self.w {
                    acc = acc + self.mds[r][c] * s[c];
                }
                acc
            })
            .collect()
    }
    pub fn permute(&self, s: &[F]) -> Vec<F> {
        let mut s = s.to_vec();
        for (ka, kb) in &self.consts {
            let t: Vec<F> = s.iter().map(|x| x.exp(self.alpha_inv)).collect();
            s = self.mix(&t, ka);
            let t: Vec<F> = s.iter().map(|x| x.exp(self.alpha)).collect();
            s = self.mix(&t, kb);
        }
        s
    }
    pub fn sponge(&self, inputs: &[F], outs: usize) -> Vec<F> {
        let mut st = vec![F::ZERO; 4];
        let mut i = 0;
        while i < inputs.len() {
            for j in 0..3 {
                if i + j < inputs.len() {
                    st[j] = st[j] + inputs[i + j];
                }
            }
            st = self.permute(&st);
            i += 3;
        }
        let mut o = Vec::new();
        while o.len() < outs {
            if !o.is_empty() && o.len() % 3 == 0 {
                st = self.permute(&st);
            }
            o.push(st[o.len() % 3]);
        }
        o
    }
}

/// Reference duplex transcript: absorb pending inputs in blocks of the rate, hand out each output of a
/// block once (last first), squeeze a new block when it is exhausted.
#[derive(Clone)]
pub struct RefDuplex<F: Field> {
    st: Vec<F>,
    pend: Vec<F>,
    outs: Vec<F>,
}
impl<F: FieldSpec> RefDuplex<F> {
    pub fn new() -> Self {
        RefDuplex { st: vec![F::ZERO; 4], pend: vec![], outs: vec![] }
    }
    pub fn observe(&mut self, x: F) {
        self.outs.clear();
        self.pend.push(x);
    }
    pub fn draw(&mut self, r: &RefRescue<F>) -> F {
        if !self.pend.is_empty() {
            for ch in self.pend.chunks(3) {
                for (i, x) in ch.iter().enumerate() {
                    self.st[i] = self.st[i] + *x;
                }
                self.st = r.permute(&self.st);
            }
            self.pend.clear();
            self.outs = self.st[..3].to_vec();
        }
        if self.outs.is_empty() {
            self.st = r.permute(&self.st);
            self.outs = self.st[..3].to_vec();
        }
        self.outs.pop().unwrap()
    }
}

// ---------------------------------------------------------------- hash to curve

/// The published construction: H(seed, iter, j) expanded by BLAKE3, first BYTES bytes (excess top bits
/// dropped) as x when below the prime, parity of the next byte as the sign bit.
pub fn ref_blake_field<F: FieldSpec>(iter: u8, seed: &BigUint) -> (BigUint, bool) {
    let n = F::RLIMBS * 8;
    let bits = F::pr().bits() as usize;
    for j in 0..=255u8 {
        let mut msg = seed.to_bytes_le();
        while msg.len() < n {
            msg.push(0);
        }
        msg.push(iter);
        msg.push(j);
        let mut out = vec![0u8; n + 1];
        let mut h = blake3::Hasher::new();
        h.update(&msg);
        h.finalize_xof().fill(&mut out);
        out[n - 1] >>= 8 * n - bits;
        let x = BigUint::from_bytes_le(&out[..n]);
        if &x < F::pr() {
            return (x, out[n] & 1 == 1);
        }
    }
    panic!("reference hash exhausted")
}

pub fn ref_blake_to_curve<C: Curve>(seed: &BigUint) -> (BigUint, bool)
where
    C::BaseField: FieldSpec,
{
    let p = C::BaseField::pr();
    for i in 0..=255u8 {
        let (x, neg) = ref_blake_field::<C::BaseField>(i, seed);
        let rhs = (&x * &x * &x + C::A.val() * &x + C::B.val()) % p;
        if is_qr(&rhs, p) {
            return (x, neg);
        }
    }
    panic!("reference hash exhausted")
}
