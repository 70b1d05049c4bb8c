//! A prover written from public primitives only, every step of which can be made dishonest. It asks the
//! library for each challenge (`Proof::get_challenges` on the proof so far), so it always plays against the
//! transcript the verifier really uses.
use crate::big::*;
use crate::zk::*;
use crate::*;
use num::{BigUint, One};
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::*;
use rand::Rng;

pub const NT: usize = 7;
pub const NK: usize = 6;

/// coefficients -> values on shift * <g>, |<g>| = n = 2^k, natural order.
pub fn fft<F: Field>(a: &[F], g: F) -> Vec<F> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let e: Vec<F> = a.iter().step_by(2).copied().collect();
    let o: Vec<F> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (fft(&e, g * g), fft(&o, g * g));
    let mut r = vec![a[0]; n];
    let mut x = F::ONE;
    for i in 0..n / 2 {
        r[i] = e[i] + x * o[i];
        r[i + n / 2] = e[i] - x * o[i];
        x = x * g;
    }
    r
}

pub fn ifft<F: FieldSpec>(v: &[F], g: F) -> Vec<F> {
    let mut r = fft(v, g);
    let n = F::mk(&inv(&BigUint::from(v.len()), F::pr()));
    r[1..].reverse();
    r.iter().map(|&x| x * n).collect()
}

pub fn horner<F: Field>(a: &[F], x: F) -> F {
    a.iter().rev().fold(F::ZERO, |s, &c| s * x + c)
}

pub fn finv<F: FieldSpec>(x: F) -> F {
    F::mk(&inv(&x.val(), F::pr()))
}

/// Interpolate values at 0, 1, .., m.
pub fn interpolate<F: FieldSpec>(v: &[F]) -> Vec<F> {
    let m = v.len();
    let xs: Vec<F> = (0..m).map(|i| F::mk(&BigUint::from(i))).collect();
    // Newton's divided differences
    let mut d = v.to_vec();
    for k in 1..m {
        for i in (k..m).rev() {
            d[i] = (d[i] - d[i - 1]) * finv(xs[i] - xs[i - k]);
        }
    }
    let mut r = vec![F::ZERO; m];
    for k in (0..m).rev() {
        // r = r * (x - xs[k]) + d[k]
        for i in (1..m).rev() {
            r[i] = r[i - 1] - xs[k] * r[i];
        }
        r[0] = d[k] - xs[k] * r[0];
    }
    r
}

fn trim<F: Field>(mut a: Vec<F>) -> Vec<F> {
    while a.last().map_or(false, |x| x.is_zero()) {
        a.pop();
    }
    a
}
fn polymod<F: FieldSpec>(a: Vec<F>, m: &[F]) -> Vec<F> {
    let mut a = trim(a);
    let li = finv(*m.last().unwrap());
    while a.len() >= m.len() {
        let q = *a.last().unwrap() * li;
        let s = a.len() - m.len();
        for i in 0..m.len() {
            a[s + i] = a[s + i] - q * m[i];
        }
        a = trim(a);
    }
    a
}
fn polydiv<F: FieldSpec>(a: Vec<F>, m: &[F]) -> Vec<F> {
    let mut a = trim(a);
    if a.len() < m.len() {
        return vec![];
    }
    let li = finv(*m.last().unwrap());
    let mut out = vec![F::ZERO; a.len() - m.len() + 1];
    while a.len() >= m.len() {
        let q = *a.last().unwrap() * li;
        let s = a.len() - m.len();
        out[s] = q;
        for i in 0..m.len() {
            a[s + i] = a[s + i] - q * m[i];
        }
        a = trim(a);
    }
    out
}
pub fn polymul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, &x) in a.iter().enumerate() {
        for (j, &y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + x * y;
        }
    }
    r
}
fn polygcd<F: FieldSpec>(a: Vec<F>, b: Vec<F>) -> Vec<F> {
    let (mut a, mut b) = (trim(a), trim(b));
    while !b.is_empty() {
        let r = polymod(a, &b);
        a = b;
        b = r;
    }
    a
}
fn polypow<F: FieldSpec>(base: &[F], e: &BigUint, m: &[F]) -> Vec<F> {
    let mut r = vec![F::ONE];
    for i in (0..e.bits()).rev() {
        r = polymod(polymul(&r, &r), m);
        if (e >> (i as usize)) & BigUint::one() == BigUint::one() {
            r = polymod(polymul(&r, base), m);
        }
    }
    r
}

pub fn rank<F: FieldSpec>(mut m: Vec<Vec<F>>) -> usize {
    let (h, w) = (m.len(), m.first().map_or(0, |r| r.len()));
    let mut r = 0;
    for j in 0..w {
        let k = match (r..h).find(|&i| !m[i][j].is_zero()) {
            Some(k) => k,
            None => continue,
        };
        m.swap(r, k);
        let iv = finv(m[r][j]);
        for i in r + 1..h {
            let f = m[i][j] * iv;
            if !f.is_zero() {
                for l in j..w {
                    m[i][l] = m[i][l] - f * m[r][l];
                }
            }
        }
        r += 1;
    }
    r
}

/// All roots in the field of a small polynomial.
pub fn roots<F: FieldSpec>(f: &[F], rng: &mut R) -> Vec<F> {
    let f = trim(f.to_vec());
    if f.len() < 2 {
        return vec![];
    }
    let xp = polypow(&[F::ZERO, F::ONE], F::pr(), &f);
    let mut d = xp;
    d.resize(d.len().max(2), F::ZERO);
    d[1] = d[1] - F::ONE;
    let mut todo = vec![polygcd(f, d)];
    let mut out = vec![];
    let half = (F::pr() - BigUint::one()) >> 1;
    while let Some(g) = todo.pop() {
        match g.len() {
            0 | 1 => {}
            2 => out.push((F::ZERO - g[0]) * finv(g[1])),
            _ => {
                let s: F = uf(rng);
                let mut h = polypow(&[s, F::ONE], &half, &g);
                h.resize(h.len().max(1), F::ZERO);
                h[0] = h[0] - F::ONE;
                let a = polygcd(g.clone(), h);
                if a.len() > 1 && a.len() < g.len() {
                    let b = polydiv(g, &a);
                    todo.push(a);
                    todo.push(b);
                } else {
                    todo.push(g);
                }
            }
        }
    }
    out
}

#[derive(Clone)]
pub struct Poly<F> {
    pub a: Vec<F>,
    pub r: F,
}

/// What is chosen too late.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Lie {
    No,
    G,
    R,
    Left(usize),
    Right(usize),
    /// wires, z, t, public-input quotient
    Commitment(usize),
    OldG(usize),
}

/// One of the opened values.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Slot {
    K(usize),
    Sigma(usize),
    Wire(usize),
    Z,
    T(usize),
    Old(usize),
    Q,
}

pub fn slots(olds: usize) -> Vec<Slot> {
    let mut v = vec![];
    v.extend((0..NK).map(Slot::K));
    v.extend((0..NR).map(Slot::Sigma));
    v.extend((0..NW).map(Slot::Wire));
    v.push(Slot::Z);
    v.extend((0..NT).map(Slot::T));
    v.extend((0..olds).map(Slot::Old));
    v.push(Slot::Q);
    v
}

pub fn slot<F: Field>(o: &mut OpeningSet<F>, s: Slot) -> &mut F {
    match s {
        Slot::K(i) => &mut o.o_constants[i],
        Slot::Sigma(i) => &mut o.o_plonk_sigmas[i],
        Slot::Wire(i) => &mut o.o_wires[i],
        Slot::Z => &mut o.o_plonk_z,
        Slot::T(i) => &mut o.o_plonk_t[i],
        Slot::Old(i) => &mut o.o_old_proofs[i],
        Slot::Q => &mut o.o_pi_quotient,
    }
}

pub fn empty_openings<F: Field>() -> OpeningSet<F> {
    OpeningSet { o_constants: vec![], o_plonk_sigmas: vec![], o_wires: vec![], o_plonk_z: F::ZERO, o_plonk_t: vec![], o_old_proofs: vec![], o_pi_quotient: F::ZERO }
}

pub struct Adv<'a, C: HaloCurve, I: HaloCurve<BaseField = SF<C>>> {
    pub c: &'a Circuit<C>,
    pub e: &'a Enforced<SF<C>>,
    pub n: usize,
    pub blind: bool,
    pub pis: Vec<SF<C>>,
    pub olds: Vec<OldProof<C>>,
    /// What is behind the earlier generators, where that is not what is claimed.
    pub truth: Vec<OldProof<C>>,
    pub rows: Vec<Vec<SF<C>>>,
    pub w: Vec<Poly<SF<C>>>,
    pub zv: Vec<SF<C>>,
    pub z: Poly<SF<C>>,
    pub t: Vec<Poly<SF<C>>>,
    pub q: Poly<SF<C>>,
    pub p: Proof<C>,
    pub ch: Option<ProofChallenge<C>>,
    pub rng: R,
    no_quick: bool,
    _i: std::marker::PhantomData<I>,
}


pub enum Verdict<C: HaloCurve> {
    Accept(Option<OldProof<C>>),
    Refuse(String),
    Crash(String),
}

pub fn judge<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(pis: &[SF<C>], p: &Proof<C>, olds: &[OldProof<C>], vk: &VerificationKey<C>, g: bool) -> Verdict<C> {
    match guard(|| verify_proof::<C, I>(pis, p, olds, vk, g)) {
        Ok(Ok(o)) => Verdict::Accept(o),
        Ok(Err(e)) => Verdict::Refuse(e.to_string()),
        Err(e) => Verdict::Crash(e),
    }
}

impl<'a, C: HaloCurve, I: HaloCurve<BaseField = SF<C>>> Adv<'a, C, I>
where
    SF<C>: FieldSpec,
{
    pub fn new(c: &'a Circuit<C>, e: &'a Enforced<SF<C>>, rows: Vec<Vec<SF<C>>>, pis: Vec<SF<C>>, olds: Vec<OldProof<C>>, blind: bool, rng: R) -> Self {
        let z = SF::<C>::ZERO;
        let p = Proof {
            c_wires: vec![],
            c_plonk_z: c.u,
            c_plonk_t: vec![],
            c_pis_quotient: c.u,
            o_local: empty_openings(),
            o_right: empty_openings(),
            o_below: empty_openings(),
            halo_l: vec![],
            halo_r: vec![],
            halo_g: c.u,
            schnorr_proof: SchnorrProof { r: c.u, z1: z, z2: z },
        };
        let none = Poly { a: vec![], r: z };
        Adv { c, e, n: c.degree(), blind, pis, truth: olds.clone(), olds, rows, w: vec![], zv: vec![], z: none.clone(), t: vec![], q: none, p, ch: None, rng, no_quick: false, _i: std::marker::PhantomData }
    }

    /// A copy that continues on its own.
    pub fn fork(&self, stream: u64) -> Self {
        let mut rng = self.rng.clone();
        let s = rng.gen::<u64>() ^ stream.wrapping_mul(0x9e3779b97f4a7c15);
        Adv {
            c: self.c,
            e: self.e,
            n: self.n,
            blind: self.blind,
            pis: self.pis.clone(),
            olds: self.olds.clone(),
            truth: self.truth.clone(),
            rows: self.rows.clone(),
            w: self.w.clone(),
            zv: self.zv.clone(),
            z: self.z.clone(),
            t: self.t.clone(),
            q: self.q.clone(),
            p: self.p.clone(),
            ch: self.ch.clone(),
            rng: R::seed_from_u64(s),
            no_quick: self.no_quick,
            _i: std::marker::PhantomData,
        }
    }

    pub fn commit(&mut self, a: &[SF<C>]) -> (AffinePoint<C>, SF<C>) {
        let r: SF<C> = if self.blind { uf(&mut self.rng) } else { SF::<C>::ZERO };
        let mut a = a.to_vec();
        a.resize(self.n, SF::<C>::ZERO);
        let p = pedersen_hash(&a, &self.c.pedersen_g_msm_precomputation) + C::convert(r) * self.c.pedersen_h.to_projective();
        (p.to_affine(), r)
    }

    /// The challenges of the transcript so far.
    pub fn chal(&self) -> Result<ProofChallenge<C>, String> {
        guard(|| self.p.get_challenges(&self.pis, &self.olds, self.c.security_bits)).and_then(|r| r.map_err(|e| e.to_string()))
    }

    pub fn wires(&mut self) {
        let g = self.c.subgroup_generator_n;
        let polys: Vec<Vec<SF<C>>> = (0..NW).map(|j| ifft(&self.rows.iter().map(|r| r[j]).collect::<Vec<_>>(), g)).collect();
        self.w.clear();
        self.p.c_wires.clear();
        for a in polys {
            let (c, r) = self.commit(&a);
            self.p.c_wires.push(c);
            self.w.push(Poly { a, r });
        }
    }

    /// Numerator and denominator of the permutation product at a row.
    pub fn nd(&self, i: usize, beta: SF<C>, gamma: SF<C>) -> (SF<C>, SF<C>) {
        let (mut nu, mut de) = (SF::<C>::ONE, SF::<C>::ONE);
        for j in 0..NR {
            let t = self.e.perm[j * self.n + i];
            let v = self.rows[i][j] + gamma;
            nu = nu * (v + beta * self.e.shifts[j] * self.c.subgroup_n[i]);
            de = de * (v + beta * self.e.shifts[t / self.n] * self.c.subgroup_n[t % self.n]);
        }
        (nu, de)
    }

    /// The running product with z = `at1` at row 0; rows from `from` on are computed backwards from the
    /// closing condition instead, so that the only broken step is the one into row `from` (n: the last one).
    pub fn product(&self, beta: SF<C>, gamma: SF<C>, at1: SF<C>, from: usize) -> Vec<SF<C>> {
        let mut v = vec![at1; self.n];
        let mut acc = at1;
        for i in 0..from {
            v[i] = acc;
            let (nu, de) = self.nd(i, beta, gamma);
            acc = acc * nu * finv(de);
        }
        let mut acc = at1;
        for i in (from..self.n).rev() {
            let (nu, de) = self.nd(i, beta, gamma);
            acc = acc * de * finv(nu);
            v[i] = acc;
        }
        v
    }

    pub fn set_z(&mut self, v: Vec<SF<C>>) {
        let a = ifft(&v, self.c.subgroup_generator_n);
        let (c, r) = self.commit(&a);
        self.zv = v;
        self.z = Poly { a, r };
        self.p.c_plonk_z = c;
    }

    /// Coefficients of alpha-combined constraints, as the protocol defines them.
    pub fn vanishing(&self, ch: &ProofChallenge<C>) -> Vec<SF<C>> {
        let (n, m) = (self.n, 8 * self.n);
        let g8 = self.c.subgroup_generator_8n;
        let ext = |a: &[SF<C>]| {
            let mut a = a.to_vec();
            a.resize(m, SF::<C>::ZERO);
            fft(&a, g8)
        };
        let w: Vec<_> = self.w.iter().take(NW).map(|p| ext(&p.a)).collect();
        let k: Vec<_> = self.c.constant_polynomials.iter().map(|p| ext(p.coeffs())).collect();
        let s: Vec<_> = self.c.s_sigma_polynomials.iter().map(|p| ext(p.coeffs())).collect();
        let z = ext(&self.z.a);
        let col = |v: &Vec<Vec<SF<C>>>, i: usize| v.iter().map(|c| c[i % m]).collect::<Vec<_>>();
        let mut x = SF::<C>::ONE;
        // L_1 at the 8n points: 1 at 1, 0 on the rest of H, else (x^n - 1) / (n (x - 1))
        let nn = SF::<C>::mk(&BigUint::from(n));
        // 1 / (n (x - 1)) at all points but the first, by one inversion
        let mut den = vec![SF::<C>::ONE; m];
        for i in 1..m {
            x = x * g8;
            den[i] = nn * (x - SF::<C>::ONE);
        }
        x = SF::<C>::ONE;
        let mut pre = den.clone();
        for i in 1..m {
            pre[i] = pre[i - 1] * den[i];
        }
        let mut iv = finv(pre[m - 1]);
        for i in (1..m).rev() {
            let d = den[i];
            den[i] = iv * pre[i - 1];
            iv = iv * d;
        }
        let mut out = Vec::with_capacity(m);
        for i in 0..m {
            let zh = x.exp_usize(n) - SF::<C>::ONE;
            let l1 = if i == 0 { SF::<C>::ONE } else if zh.is_zero() { SF::<C>::ZERO } else { zh * den[i] };
            let lw = col(&w, i);
            let (mut f, mut gg) = (SF::<C>::ONE, SF::<C>::ONE);
            for j in 0..NR {
                f = f * (lw[j] + ch.beta * self.e.shifts[j] * x + ch.gamma);
                gg = gg * (lw[j] + ch.beta * s[j][i] + ch.gamma);
            }
            let mut terms = vec![l1 * (z[i] - SF::<C>::ONE), f * z[i] - gg * z[(i + 8) % m]];
            terms.extend(evaluate_all_constraints::<C, I>(&col(&k, i), &lw, &col(&w, i + 8), &col(&w, i + 8 * GRID)));
            out.push(horner(&terms, ch.alpha));
            x = x * g8;
        }
        ifft(&out, g8)
    }

    /// Quotient by X^n - 1, and whether the division is exact.
    pub fn quotient(&self, v: &[SF<C>]) -> (Vec<SF<C>>, bool) {
        let n = self.n;
        let mut v = v.to_vec();
        let mut q = vec![SF::<C>::ZERO; NT * n];
        for i in (n..v.len()).rev() {
            let c = v[i];
            q[i - n] = c;
            v[i] = SF::<C>::ZERO;
            v[i - n] = v[i - n] + c;
        }
        let exact = v.iter().all(|x| x.is_zero());
        (q, exact)
    }

    pub fn set_t(&mut self, q: &[SF<C>]) {
        self.t.clear();
        self.p.c_plonk_t.clear();
        for a in q.chunks(self.n) {
            let (c, r) = self.commit(a);
            self.p.c_plonk_t.push(c);
            self.t.push(Poly { a: a.to_vec(), r });
        }
    }

    /// How the openings move with the given values (each one at several wires, all equal): the derivatives of the
    /// opened wires, Z and quotient chunks at the three points by each of the values, the challenges kept fixed.
    /// Returns the rank of that and the rank it would have were every opening masked on its own. One opening is
    /// always determined by the others, since the quotient at the first point follows from what is opened there.
    /// None if the openings given are not those of these rows.
    pub fn masked_rank(&self, p: &Proof<C>, vars: &[Vec<(usize, usize)>]) -> Result<Option<(usize, usize)>, String>
    where
        C: HaloCurve,
    {
        use rayon::prelude::*;
        const D: usize = 9;
        let (c, e, n) = (self.c, self.e, self.n);
        let g = c.subgroup_generator_n;
        let ch = p.get_challenges(&self.pis, &self.olds, c.security_bits).map_err(|e| e.to_string())?;
        // in small circuits the second and the third point are the same
        let xs = [ch.zeta, ch.zeta * g, ch.zeta * g.exp_usize(GRID)];
        let nx = if xs[1] == xs[2] { 2 } else { 3 };
        let base = {
            let mut a = Adv::<C, I>::new(c, e, self.rows.clone(), vec![], vec![], false, self.rng.clone());
            a.w = (0..NW).map(|j| Poly { a: ifft(&a.rows.iter().map(|r| r[j]).collect::<Vec<_>>(), g), r: SF::<C>::ZERO }).collect();
            let v = a.product(ch.beta, ch.gamma, SF::<C>::ONE, n);
            a.z = Poly { a: ifft(&v, g), r: SF::<C>::ZERO };
            a.zv = v;
            let (t, exact) = a.quotient(&a.vanishing(&ch));
            if !exact {
                return Err("the rows do not satisfy the circuit".into());
            }
            a.t = t.chunks(n).map(|a| Poly { a: a.to_vec(), r: SF::<C>::ZERO }).collect();
            a
        };
        for (x, o) in xs.iter().zip(&[&p.o_local, &p.o_right, &p.o_below]) {
            let same = base.w.iter().zip(&o.o_wires).all(|(w, v)| horner(&w.a, *x) == *v)
                && horner(&base.z.a, *x) == o.o_plonk_z
                && base.t.iter().zip(&o.o_plonk_t).all(|(t, v)| horner(&t.a, *x) == *v);
            if !same {
                return Ok(None);
            }
        }
        let (w0, z0, zv, rows) = (base.w, base.z.a, base.zv, base.rows);
        // coefficient of s in the polynomial through the values at s = 0, .., D
        let weights: Vec<SF<C>> = (0..=D)
            .map(|k| {
                let mut u = vec![SF::<C>::ZERO; D + 1];
                u[k] = SF::<C>::ONE;
                interpolate(&u)[1]
            })
            .collect();
        let cols: Vec<Result<Vec<Vec<SF<C>>>, String>> = vars
            .par_iter()
            .map(|at| {
                let mut a = Adv::<C, I>::new(c, e, rows.clone(), vec![], vec![], false, R::seed_from_u64(0));
                let mut dw: Vec<Vec<SF<C>>> = vec![vec![SF::<C>::ZERO; n]; NW];
                for &(i, j) in at {
                    dw[j][i] = SF::<C>::ONE;
                }
                let mut dz = vec![SF::<C>::ZERO; n];
                for i in 0..n - 1 {
                    let (nu, de) = a.nd(i, ch.beta, ch.gamma);
                    let mut l = SF::<C>::ZERO;
                    for j in (0..NR).filter(|&j| !dw[j][i].is_zero()) {
                        let t = e.perm[j * n + i];
                        let v = rows[i][j] + ch.gamma;
                        l = l + finv(v + ch.beta * e.shifts[j] * c.subgroup_n[i]) - finv(v + ch.beta * e.shifts[t / n] * c.subgroup_n[t % n]);
                    }
                    let step = nu * finv(de);
                    dz[i + 1] = dz[i] * step + zv[i] * step * l;
                }
                let dw: Vec<Vec<SF<C>>> = dw.iter().map(|v| ifft(v, g)).collect();
                let dz = ifft(&dz, g);
                let mut dv = vec![SF::<C>::ZERO; 8 * n];
                for (k, &wt) in weights.iter().enumerate() {
                    let s = SF::<C>::mk(&BigUint::from(k));
                    let mv = |a: &[SF<C>], d: &[SF<C>]| Poly { a: a.iter().zip(d).map(|(&a, &d)| a + s * d).collect(), r: SF::<C>::ZERO };
                    a.w = w0.iter().zip(&dw).map(|(w, d)| mv(&w.a, d)).collect();
                    a.z = mv(&z0, &dz);
                    for (o, v) in dv.iter_mut().zip(a.vanishing(&ch)) {
                        *o = *o + wt * v;
                    }
                }
                let (t, exact) = a.quotient(&dv);
                if !exact {
                    return Err("the rows with a random value changed do not satisfy the circuit".into());
                }
                let mut polys = dw;
                polys.push(dz);
                polys.extend(t.chunks(n).map(|x| x.to_vec()));
                Ok(polys)
            })
            .collect();
        let cols = cols.into_iter().collect::<Result<Vec<_>, _>>()?;
        // a polynomial that has fewer than three coefficients to vary needs no more masks than those
        let np = NW + 1 + NT;
        let mut want = 0;
        for k in 0..np {
            want += (0..n).filter(|&i| cols.iter().any(|p| !p[k][i].is_zero())).count().min(nx);
        }
        let m: Vec<Vec<SF<C>>> = cols.iter().map(|p| (0..np).flat_map(|k| xs[..nx].iter().map(move |x| (k, *x))).map(|(k, x)| horner(&p[k], x)).collect()).collect();
        Ok(Some((rank(m), want.saturating_sub(1))))
    }

    pub fn pi_gates(&self) -> Vec<usize> {
        (0..(self.c.num_public_inputs + NW - 1) / NW).map(|i| self.c.num_gates_without_pis + 2 * i).collect()
    }

    /// Value at a row of the combination of public inputs claimed.
    pub fn pi_rows(&self, alpha: SF<C>) -> Vec<(usize, SF<C>)> {
        self.pi_gates()
            .iter()
            .enumerate()
            .map(|(k, &row)| {
                let v: Vec<SF<C>> = (0..NW).map(|j| self.pis.get(k * NW + j).copied().unwrap_or(SF::<C>::ZERO)).collect();
                (row, horner(&v, alpha))
            })
            .collect()
    }

    /// (sum_j alpha^j w_j - claimed public inputs) divided by the vanishing polynomial of their gates.
    pub fn pi_quotient(&self, alpha: SF<C>) -> (Vec<SF<C>>, bool) {
        let n = self.n;
        let mut vals = vec![SF::<C>::ZERO; n];
        for (row, v) in self.pi_rows(alpha) {
            vals[row] = v;
        }
        let pi = ifft(&vals, self.c.subgroup_generator_n);
        let mut num: Vec<SF<C>> = (0..n).map(|i| horner(&self.w.iter().take(NW).map(|p| p.a[i]).collect::<Vec<_>>(), alpha) - pi[i]).collect();
        let mut exact = true;
        for row in self.pi_gates() {
            // synthetic division by X - g^row
            let x = self.c.subgroup_n[row];
            let mut c = SF::<C>::ZERO;
            for i in (0..n).rev() {
                let t = num[i] + c * x;
                num[i] = c;
                c = t;
            }
            exact &= c.is_zero();
        }
        (num, exact)
    }

    pub fn set_q(&mut self, a: Vec<SF<C>>) {
        let (c, r) = self.commit(&a);
        self.q = Poly { a, r };
        self.p.c_pis_quotient = c;
    }

    fn polys(&self) -> Vec<Poly<SF<C>>> {
        let z = SF::<C>::ZERO;
        let mut v: Vec<Poly<SF<C>>> = self.c.constant_polynomials.iter().chain(self.c.s_sigma_polynomials.iter()).map(|p| Poly { a: p.coeffs().to_vec(), r: z }).collect();
        v.extend(self.w.iter().cloned());
        v.push(self.z.clone());
        v.extend(self.t.iter().cloned());
        v.extend(self.truth.iter().map(|o| Poly { a: o.coeffs(), r: z }));
        v.push(self.q.clone());
        v
    }

    pub fn points(&self, zeta: SF<C>) -> Vec<SF<C>> {
        let g = self.c.subgroup_generator_n;
        vec![zeta, zeta * g, zeta * g.exp_usize(GRID)]
    }

    /// The true openings.
    pub fn open(&mut self) -> Result<(), String> {
        let ch = self.chal()?;
        let sets: Vec<OpeningSet<SF<C>>> = self
            .points(ch.zeta)
            .iter()
            .map(|&x| OpeningSet {
                o_constants: self.c.constant_polynomials.iter().map(|p| horner(p.coeffs(), x)).collect(),
                o_plonk_sigmas: self.c.s_sigma_polynomials.iter().map(|p| horner(p.coeffs(), x)).collect(),
                o_wires: self.w.iter().map(|p| horner(&p.a, x)).collect(),
                o_plonk_z: horner(&self.z.a, x),
                o_plonk_t: self.t.iter().map(|p| horner(&p.a, x)).collect(),
                o_old_proofs: self.truth.iter().map(|p| horner(&p.coeffs(), x)).collect(),
                o_pi_quotient: horner(&self.q.a, x),
            })
            .collect();
        self.p.o_local = sets[0].clone();
        self.p.o_right = sets[1].clone();
        self.p.o_below = sets[2].clone();
        self.ch = Some(ch);
        Ok(())
    }

    pub fn openings(&mut self, k: usize) -> &mut OpeningSet<SF<C>> {
        match k {
            0 => &mut self.p.o_local,
            1 => &mut self.p.o_right,
            _ => &mut self.p.o_below,
        }
    }

    /// How far the opened values are from satisfying the quotient identity (times Z_H) and the public-input
    /// identity. Both zero: everything but the opening proof checks out.
    pub fn gaps(&self) -> (SF<C>, SF<C>) {
        let ch = self.ch.as_ref().unwrap();
        let (l, r, b) = (&self.p.o_local, &self.p.o_right, &self.p.o_below);
        let one = SF::<C>::ONE;
        let zn = ch.zeta.exp_usize(self.n);
        let zh = zn - one;
        let l1 = zh * finv(SF::<C>::mk(&BigUint::from(self.n)) * (ch.zeta - one));
        let (mut f, mut g) = (one, one);
        for j in 0..NR {
            f = f * (l.o_wires[j] + ch.beta * self.e.shifts[j] * ch.zeta + ch.gamma);
            g = g * (l.o_wires[j] + ch.beta * l.o_plonk_sigmas[j] + ch.gamma);
        }
        let mut terms = vec![l1 * (l.o_plonk_z - one), f * l.o_plonk_z - g * r.o_plonk_z];
        terms.extend(evaluate_all_constraints::<C, I>(&l.o_constants, &l.o_wires, &r.o_wires, &b.o_wires));
        let gt = horner(&terms, ch.alpha) - zh * horner(&l.o_plonk_t, zn);
        let mut den = one;
        let mut pi = SF::<C>::ZERO;
        for (row, v) in self.pi_rows(ch.alpha) {
            let x = self.c.subgroup_n[row];
            den = den * (ch.zeta - x);
            // Lagrange basis at the row: x (zeta^n - 1) / (n (zeta - x))
            pi = pi + v * x * zh * finv(SF::<C>::mk(&BigUint::from(self.n)) * (ch.zeta - x));
        }
        let gq = horner(&l.o_wires[..NW], ch.alpha) - pi - l.o_pi_quotient * den;
        (gt, gq)
    }

    /// Make the public-input identity hold by lying about its quotient's opening.
    pub fn fix_q(&mut self) {
        let (_, g) = self.gaps();
        let ch = self.ch.as_ref().unwrap();
        let den = self.pi_gates().iter().fold(SF::<C>::ONE, |a, &row| a * (ch.zeta - self.c.subgroup_n[row]));
        self.p.o_local.o_pi_quotient = self.p.o_local.o_pi_quotient + g * finv(den);
    }

    /// Make the quotient identity hold by lying about one opened value; false if no value works.
    pub fn solve_slot(&mut self, set: usize, s: Slot) -> bool {
        let base = *slot(self.openings(set), s);
        let mut vals = vec![];
        for i in 0..12u64 {
            *slot(self.openings(set), s) = base + SF::<C>::mk(&BigUint::from(i));
            vals.push(self.gaps().0);
        }
        *slot(self.openings(set), s) = base;
        let f = interpolate(&vals);
        let rs = roots(&f, &mut self.rng);
        for r in rs {
            if !r.is_zero() {
                *slot(self.openings(set), s) = base + r;
                if self.gaps().0.is_zero() {
                    return true;
                }
            }
        }
        *slot(self.openings(set), s) = base;
        false
    }

    /// Lie about two wires at once so that the public-input identity is untouched.
    pub fn solve_pair(&mut self, j: usize, k: usize) -> bool {
        let alpha = self.ch.as_ref().unwrap().alpha;
        let (bj, bk) = (self.p.o_local.o_wires[j], self.p.o_local.o_wires[k]);
        let ratio = alpha.exp_usize(j) * finv(alpha.exp_usize(k));
        let mut vals = vec![];
        for i in 0..12u64 {
            let d = SF::<C>::mk(&BigUint::from(i));
            self.p.o_local.o_wires[j] = bj + d;
            self.p.o_local.o_wires[k] = bk - d * ratio;
            vals.push(self.gaps().0);
        }
        let f = interpolate(&vals);
        for d in roots(&f, &mut self.rng) {
            if !d.is_zero() {
                self.p.o_local.o_wires[j] = bj + d;
                self.p.o_local.o_wires[k] = bk - d * ratio;
                if self.gaps().0.is_zero() {
                    return true;
                }
            }
        }
        self.p.o_local.o_wires[j] = bj;
        self.p.o_local.o_wires[k] = bk;
        false
    }

    /// The weights given to the opened values by the batch opening.
    pub fn weights(&self, u: SF<C>, k: usize) -> Vec<SF<C>> {
        powers(u, k).iter().map(|x| halo_n::<C>(&x.to_canonical_bool_vec()[..self.c.security_bits])).collect()
    }

    /// The transcript up to the openings, kept by this prover itself; None if it is not the library's.
    fn running(&self, want: &ProofChallenge<C>) -> Option<Challenger<C::BaseField>> {
        if self.no_quick {
            return None;
        }
        let conv = |x: SF<C>| C::try_convert_s2b(x).ok();
        let mut t = Challenger::new(self.c.security_bits);
        for &x in &self.pis {
            t.observe_element(conv(x)?);
        }
        t.observe_affine_points(&self.p.c_wires);
        t.get_2_challenges();
        t.observe_affine_point(self.p.c_plonk_z);
        t.get_challenge();
        t.observe_affine_points(&self.p.c_plonk_t);
        t.observe_affine_point(self.p.c_pis_quotient);
        for o in &self.olds {
            t.observe_affine_point(o.halo_g);
            for &u in &o.halo_us {
                t.observe_element(conv(u)?);
            }
        }
        t.get_challenge();
        for o in self.p.all_opening_sets() {
            for x in o.to_vec() {
                t.observe_element(conv(x)?);
            }
        }
        let (v, u, s) = t.get_3_challenges();
        if (v.try_convert::<SF<C>>().ok()?, u.try_convert::<SF<C>>().ok()?, s.try_convert::<SF<C>>().ok()?) == (want.v, want.u, want.u_scaling) {
            Some(t)
        } else {
            None
        }
    }

    fn reduced(&self, u: SF<C>) -> (Vec<SF<C>>, SF<C>, usize) {
        let polys = self.polys();
        let ws = self.weights(u, polys.len());
        let mut a = vec![SF::<C>::ZERO; self.n];
        let mut r = SF::<C>::ZERO;
        for (p, &s) in polys.iter().zip(&ws) {
            for (i, &c) in p.a.iter().enumerate() {
                a[i] = a[i] + s * c;
            }
            r = r + s * p.r;
        }
        (a, r, polys.len())
    }

    /// The opening argument for the true polynomials, with one message chosen after the last challenge so that
    /// the final equation would hold whatever was opened, if that challenge did not depend on the message.
    pub fn ipa(&mut self, lie: Lie) -> Result<(), String> {
        let mul = |s: SF<C>, p: ProjectivePoint<C>| C::convert(s) * p;
        let neg = |s: SF<C>| SF::<C>::ZERO - s;
        self.p.halo_l.clear();
        self.p.halo_r.clear();
        let ch = self.chal()?;
        let (mut a, mut rand, np) = self.reduced(ch.u);
        let u_prime = halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..self.c.security_bits], self.c.u).to_projective();
        let h = self.c.pedersen_h.to_projective();
        let pw: Vec<Vec<SF<C>>> = self.points(ch.zeta).iter().map(|&x| powers(x, self.n)).collect();
        let mut b: Vec<SF<C>> = (0..self.n).map(|i| horner(&[pw[0][i], pw[1][i], pw[2][i]], ch.v)).collect();
        let mut us = vec![];
        let mut g: Vec<ProjectivePoint<C>> = self.c.pedersen_g.iter().map(|p| p.to_projective()).collect();
        let dot = |x: &[SF<C>], y: &[SF<C>]| x.iter().zip(y).fold(SF::<C>::ZERO, |s, (&p, &q)| s + p * q);
        let msm = |x: &[SF<C>], y: &[ProjectivePoint<C>]| x.iter().zip(y).fold(ProjectivePoint::<C>::ZERO, |s, (&p, &q)| s + mul(p, q));
        // Looking for rounds with a usable challenge is quicker with a running transcript, if it is the one the
        // library uses.
        let mut quick = self.running(&ch);
        while a.len() > 1 {
            let m = a.len() / 2;
            let l0 = msm(&a[..m], &g[m..]) + mul(dot(&a[..m], &b[m..]), u_prime);
            let r0 = msm(&a[m..], &g[..m]) + mul(dot(&a[m..], &b[..m]), u_prime);
            let (u, bl, br) = loop {
                let (bl, br): (SF<C>, SF<C>) = (uf(&mut self.rng), uf(&mut self.rng));
                self.p.halo_l.push((l0 + mul(bl, h)).to_affine());
                self.p.halo_r.push((r0 + mul(br, h)).to_affine());
                let (pl, pr) = (*self.p.halo_l.last().unwrap(), *self.p.halo_r.last().unwrap());
                if let Some(q) = &mut quick {
                    let mut f = q.clone();
                    f.observe_affine_points(&[pl, pr]);
                    let r = f.get_challenge().try_convert::<SF<C>>().ok().and_then(|x| halo_n::<C>(&x.to_canonical_bool_vec()[..self.c.security_bits]).square_root());
                    if let Some(u) = r {
                        *q = f;
                        break (u, bl, br);
                    }
                } else if let Ok(c) = self.chal() {
                    break (*c.halo_us.last().unwrap(), bl, br);
                }
                self.p.halo_l.pop();
                self.p.halo_r.pop();
            };
            us.push(u);
            let ui = finv(u);
            rand = rand + u * u * bl + ui * ui * br;
            a = (0..m).map(|i| ui * a[m + i] + u * a[i]).collect();
            b = (0..m).map(|i| ui * b[i] + u * b[m + i]).collect();
            g = (0..m).map(|i| mul(ui, g[i]) + mul(u, g[m + i])).collect();
        }
        let (d, s): (SF<C>, SF<C>) = (uf(&mut self.rng), uf(&mut self.rng));
        let base = g[0] + mul(b[0], u_prime);
        self.p.halo_g = g[0].to_affine();
        self.p.schnorr_proof.r = (mul(d, base) + mul(s, h)).to_affine();
        let ch = self.chal()?;
        if ch.halo_us != us {
            if quick.is_none() {
                return Err("round challenges changed".into());
            }
            self.no_quick = true;
            return self.ipa(lie);
        }
        let c = ch.schnorr_challenge;
        self.p.schnorr_proof.z1 = a[0] * c + d;
        self.p.schnorr_proof.z2 = rand * c + s;
        if lie != Lie::No {
            // Q as the verifier will compute it
            let ws = self.weights(ch.u, np);
            let sets: Vec<SF<C>> = self.p.all_opening_sets().iter().map(|o| dot(&o.to_vec(), &ws)).collect();
            let value = horner(&sets, ch.v);
            let pts: Vec<AffinePoint<C>> = [
                &self.c.c_constants.iter().map(|x| x.to_affine()).collect::<Vec<_>>()[..],
                &self.c.c_s_sigmas.iter().map(|x| x.to_affine()).collect::<Vec<_>>(),
                &self.p.c_wires,
                &[self.p.c_plonk_z],
                &self.p.c_plonk_t,
                &self.olds.iter().map(|o| o.halo_g).collect::<Vec<_>>(),
                &[self.p.c_pis_quotient],
            ]
            .concat();
            let mut q = msm(&ws, &pts.iter().map(|p| p.to_projective()).collect::<Vec<_>>()) + mul(value, u_prime);
            for (i, &u) in ch.halo_us.iter().enumerate() {
                q = q + mul(u * u, self.p.halo_l[i].to_projective()) + mul(finv(u * u), self.p.halo_r[i].to_projective());
            }
            // what is missing on the left side of c Q + R = z1 (G + b U') + z2 H
            let sp = self.p.schnorr_proof;
            let miss = mul(sp.z1, g[0] + mul(b[0], u_prime)) + mul(sp.z2, h) + mul(neg(SF::<C>::ONE), sp.r.to_projective() + mul(c, q));
            let add = |p: &mut AffinePoint<C>, s: SF<C>| *p = (p.to_projective() + mul(s, miss)).to_affine();
            let ci = finv(c);
            match lie {
                Lie::No => {}
                Lie::G => add(&mut self.p.halo_g, neg(finv(sp.z1))),
                Lie::R => add(&mut self.p.schnorr_proof.r, SF::<C>::ONE),
                Lie::Left(i) => {
                    let u = ch.halo_us[i];
                    add(&mut self.p.halo_l[i], ci * finv(u * u))
                }
                Lie::Right(i) => {
                    let u = ch.halo_us[i];
                    add(&mut self.p.halo_r[i], ci * u * u)
                }
                Lie::Commitment(k) => {
                    let s = |i: usize| ci * finv(ws[NK + NR + i]);
                    match k {
                        k if k < NW => add(&mut self.p.c_wires[k], s(k)),
                        k if k == NW => add(&mut self.p.c_plonk_z, s(k)),
                        k if k < NW + 1 + NT => add(&mut self.p.c_plonk_t[k - NW - 1], s(k)),
                        k => add(&mut self.p.c_pis_quotient, s(k + self.olds.len())),
                    }
                }
                Lie::OldG(k) => {
                    let s = ci * finv(ws[NK + NR + NW + 1 + NT + k]);
                    add(&mut self.olds[k].halo_g, s)
                }
            }
        }
        Ok(())
    }

    /// Everything up to the openings, honestly computed (with the quotients rounded down where they are not
    /// exact). Returns whether all divisions were exact.
    pub fn honest_to_openings(&mut self) -> Result<bool, String> {
        self.wires();
        let ch = self.chal()?;
        let v = self.product(ch.beta, ch.gamma, SF::<C>::ONE, self.n);
        self.set_z(v);
        self.finish_polys()
    }

    /// From z on: quotients and true openings.
    pub fn finish_polys(&mut self) -> Result<bool, String> {
        let ch = self.chal()?;
        let (q, e1) = self.quotient(&self.vanishing(&ch));
        self.set_t(&q);
        let (q, e2) = self.pi_quotient(ch.alpha);
        self.set_q(q);
        self.open()?;
        Ok(e1 && e2)
    }

    /// What hides each message of a proof the library made from the rows this prover knows: every commitment,
    /// round message and response less what it would be without blinding. Points, named; the Schnorr nonce is
    /// given as a multiple of H. Err: the proof does not open what these rows say, so there is nothing to compare.
    pub fn masks(&mut self, lib: &Proof<C>) -> Result<Vec<(String, ProjectivePoint<C>)>, String> {
        let mul = |s: SF<C>, p: ProjectivePoint<C>| C::convert(s) * p;
        let neg = |p: ProjectivePoint<C>| C::convert(SF::<C>::ZERO - SF::<C>::ONE) * p;
        self.blind = false;
        self.p = lib.clone();
        let ch = self.chal()?;
        self.wires();
        let v = self.product(ch.beta, ch.gamma, SF::<C>::ONE, self.n);
        self.set_z(v);
        let (q, e1) = self.quotient(&self.vanishing(&ch));
        self.set_t(&q);
        let (q, e2) = self.pi_quotient(ch.alpha);
        self.set_q(q);
        let pts = self.points(ch.zeta);
        let same = (0..NW).all(|j| horner(&self.w[j].a, pts[0]) == lib.o_local.o_wires[j])
            && horner(&self.z.a, pts[1]) == lib.o_right.o_plonk_z
            && (0..NT).all(|j| horner(&self.t[j].a, pts[2]) == lib.o_below.o_plonk_t[j])
            && horner(&self.q.a, pts[0]) == lib.o_local.o_pi_quotient;
        if !(e1 && e2 && same) {
            return Err("the proof opens other polynomials".into());
        }
        let mut out: Vec<(String, ProjectivePoint<C>)> = vec![];
        let ws = self.weights(ch.u, self.polys().len());
        let mut total = ProjectivePoint::<C>::ZERO;
        let mut pairs: Vec<(String, usize, AffinePoint<C>, AffinePoint<C>)> = vec![];
        for j in 0..NW {
            pairs.push((format!("wire {}", j), NK + NR + j, lib.c_wires[j], self.p.c_wires[j]));
        }
        pairs.push(("z".into(), NK + NR + NW, lib.c_plonk_z, self.p.c_plonk_z));
        for j in 0..NT {
            pairs.push((format!("t {}", j), NK + NR + NW + 1 + j, lib.c_plonk_t[j], self.p.c_plonk_t[j]));
        }
        pairs.push(("public inputs".into(), ws.len() - 1, lib.c_pis_quotient, self.p.c_pis_quotient));
        for (n, i, a, b) in pairs {
            let m = a.to_projective() + neg(b.to_projective());
            total = total + mul(ws[i], m);
            out.push((n, m));
        }
        let (mut a, _, _) = self.reduced(ch.u);
        let u_prime = halo_n_mul(&ch.u_scaling.to_canonical_bool_vec()[..self.c.security_bits], self.c.u).to_projective();
        let h = self.c.pedersen_h.to_projective();
        let pw: Vec<Vec<SF<C>>> = pts.iter().map(|&x| powers(x, self.n)).collect();
        let mut b: Vec<SF<C>> = (0..self.n).map(|i| horner(&[pw[0][i], pw[1][i], pw[2][i]], ch.v)).collect();
        let mut g: Vec<ProjectivePoint<C>> = self.c.pedersen_g.iter().map(|p| p.to_projective()).collect();
        let dot = |x: &[SF<C>], y: &[SF<C>]| x.iter().zip(y).fold(SF::<C>::ZERO, |s, (&p, &q)| s + p * q);
        let msm = |x: &[SF<C>], y: &[ProjectivePoint<C>]| x.iter().zip(y).fold(ProjectivePoint::<C>::ZERO, |s, (&p, &q)| s + mul(p, q));
        for (k, &u) in ch.halo_us.iter().enumerate() {
            let m = a.len() / 2;
            let l0 = msm(&a[..m], &g[m..]) + mul(dot(&a[..m], &b[m..]), u_prime);
            let r0 = msm(&a[m..], &g[..m]) + mul(dot(&a[m..], &b[..m]), u_prime);
            let (ml, mr) = (lib.halo_l[k].to_projective() + neg(l0), lib.halo_r[k].to_projective() + neg(r0));
            let ui = finv(u);
            total = total + mul(u * u, ml) + mul(ui * ui, mr);
            out.push((format!("left {}", k), ml));
            out.push((format!("right {}", k), mr));
            a = (0..m).map(|i| ui * a[m + i] + u * a[i]).collect();
            b = (0..m).map(|i| ui * b[i] + u * b[m + i]).collect();
            g = (0..m).map(|i| mul(ui, g[i]) + mul(u, g[m + i])).collect();
        }
        let c = ch.schnorr_challenge;
        let d = lib.schnorr_proof.z1 - c * a[0];
        let s = mul(lib.schnorr_proof.z2, h) + neg(mul(c, total));
        // the Schnorr commitment is d (G + b U') + s H if all of the above is right
        let want = mul(d, g[0] + mul(b[0], u_prime)) + s;
        if want.to_affine() != lib.schnorr_proof.r {
            return Err("the masks do not explain the responses".into());
        }
        out.push(("schnorr d".into(), mul(d, h)));
        out.push(("schnorr s".into(), s));
        Ok(out)
    }

    pub fn verdict(&self, vk: &VerificationKey<C>, g: bool) -> Verdict<C> {
        judge::<C, I>(&self.pis, &self.p, &self.olds, vk, g)
    }
}
