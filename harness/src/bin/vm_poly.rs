//! C05 (FFT) and C06 (polynomials).
use num::Zero;
use plonky::polynomial::Polynomial;
use plonky::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use vmon::big::*;
use vmon::*;

fn kf<F: Field>(v: &[F]) -> u64 {
    h64(v)
}

/// Recursive DFT: independent of the iterative bit-reversed algorithm under test.
fn dft<F: Field>(a: &[F], g: F) -> Vec<F> {
    let n = a.len();
    if n == 1 {
        return a.to_vec();
    }
    let ev: Vec<F> = a.iter().step_by(2).copied().collect();
    let od: Vec<F> = a.iter().skip(1).step_by(2).copied().collect();
    let (e, o) = (dft(&ev, g * g), dft(&od, g * g));
    let mut out = vec![F::ZERO; n];
    let mut w = F::ONE;
    for i in 0..n / 2 {
        out[i] = e[i] + w * o[i];
        out[i + n / 2] = e[i] - w * o[i];
        w = w * g;
    }
    out
}
fn horner<F: Field>(a: &[F], x: F) -> F {
    let mut r = F::ZERO;
    for c in a.iter().rev() {
        r = r * x + *c;
    }
    r
}

fn coeffs<F: FieldSpec>(rng: &mut R, n: usize, style: usize) -> Vec<F> {
    (0..n)
        .map(|i| match style % 8 {
            0 | 1 => rf::<F>(rng),
            2 => {
                if rng.gen_range(0, 6) == 0 {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
            3 => {
                if i == n - 1 {
                    F::NEG_ONE
                } else {
                    F::ZERO
                }
            }
            4 => {
                if i == 0 {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
            5 => F::NEG_ONE,
            6 => {
                if i * 2 < n {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
            _ => {
                if i * 2 >= n {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
        })
        .collect()
}

fn c05<F: FieldSpec>(c: &Ctx) {
    let mut rng = c.rng(F::NAME);
    let s = |n: &str| format!("{}:{}", n, F::NAME);
    let kind = s("fft");
    let maxp = c.n(13, 16);
    for k in 0..=maxp {
        let n = 1usize << k;
        let g = F::primitive_root_of_unity(k);
        let pre = fft_precompute::<F>(n);
        c.check(pre.size() == n, &s("size"), || format!("{}", n));
        // exact order, independently
        let mut o = g;
        for _ in 1..k {
            o = o * o;
        }
        c.check(if k == 0 { o == F::ONE } else { o == F::NEG_ONE }, &s("root-order"), || format!("2^{}", k));
        let reps = if k < 8 { c.n(24, 100) } else if k < 12 { 8 } else { 2 };
        for st in 0..reps {
            let a = coeffs::<F>(&mut rng, n, st);
            let d = || format!("{} n=2^{} style={}", F::NAME, k, st);
            c.case(&s("fft"), d, || {
                c.ev(&kind, &kf(&a), a.iter().any(|x| x.is_nonzero()));
                let vals = fft_with_precomputation_power_of_2(&a, &pre);
                let want = if k <= 6 {
                    let mut x = F::ONE;
                    (0..n)
                        .map(|_| {
                            let v = horner(&a, x);
                            x = x * g;
                            v
                        })
                        .collect()
                } else {
                    dft(&a, g)
                };
                c.check(vals == want, &s("fft"), || format!("{} first difference at {:?}", d(), vals.iter().zip(&want).position(|(x, y)| x != y)));
                c.check(fft_with_precomputation(&a, &pre) == want, &s("fft_with_precomputation"), d);
                if k <= 11 {
                    c.check(fft(&a) == want, &s("fft-plain"), d);
                }
                let back = ifft_with_precomputation_power_of_2(&vals, &pre);
                c.check(back == a, &s("ifft"), d);
                // inverse transform of arbitrary values: evaluate back
                let iv = ifft_with_precomputation_power_of_2(&a, &pre);
                let re = dft(&iv, g);
                c.check(iv.len() == n && re == a, &s("interpolation"), d);
                // polynomial-level wrappers
                let p = Polynomial::from(a.clone());
                c.check(p.eval_domain(&pre) == want, &s("eval_domain"), d);
                c.check(Polynomial::from_evaluations(&a, &pre).coeffs() == &iv[..], &s("from_evaluations"), d);
            });
        }
        // shorter inputs are zero-padded
        if k >= 1 {
            let mut lens: Vec<usize> = vec![n / 2 + 1, n - 1, n / 2 + n / 4 + 1];
            for _ in 0..3 {
                lens.push(rng.gen_range(n / 2 + 1, n + 1));
            }
            for len in lens {
                if len <= n / 2 || len > n {
                    continue;
                }
                let a = coeffs::<F>(&mut rng, len, 0);
                let mut ap = a.clone();
                ap.resize(n, F::ZERO);
                let want = dft(&ap, g);
                let d = || format!("{} len {} in 2^{}", F::NAME, len, k);
                c.case(&s("fft-short"), d, || {
                    c.ev(&s("padding"), &kf(&a), true);
                    c.check(fft(&a) == want, &s("fft-short"), d);
                    c.check(fft_precompute::<F>(len).size() == n, &s("precompute-size"), d);
                    c.check(fft_with_precomputation(&a, &pre) == want, &s("fft-short-pre"), d);
                });
            }
            // low-degree extension: a short polynomial on a larger domain
            for len in [0usize, 1, n / 8, n / 4, n / 2].iter() {
                let a = coeffs::<F>(&mut rng, *len, 0);
                let mut ap = a.clone();
                ap.resize(n, F::ZERO);
                let want = dft(&ap, g);
                let p = Polynomial::from(a.clone());
                let d = || format!("{} lde {} -> 2^{}", F::NAME, len, k);
                c.case(&s("lde"), d, || {
                    c.ev(&s("lde"), &(k, kf(&a)), *len > 0);
                    c.check(p.eval_domain(&pre) == want, &s("lde"), d);
                    c.check(p.padded(n).eval_domain(&pre) == want, &s("lde-padded"), d);
                });
            }
        }
    }
    c.sample(&kind, || format!("sizes 2^0..2^{}", maxp));
    // large domains: every value against the independent transform, and the way back
    let big: Vec<usize> = if c.thorough { vec![17, 18, 19, 20] } else { vec![17, 18] };
    for k in big {
        if k > 17 && !c.thorough && (c.seed as usize + k + F::NAME.len()) % 3 != 0 {
            continue;
        }
        let n = 1usize << k;
        let g = F::primitive_root_of_unity(k);
        let len = if c.thorough { n } else { n - rng.gen_range(0, n / 3) };
        // uniform: `coeffs` would spend most of the time on its hostile shapes
        let (x0, mut x) = (rf::<F>(&mut rng), rf::<F>(&mut rng));
        let mut a: Vec<F> = (0..len)
            .map(|_| {
                x = x * x + x0;
                x
            })
            .collect();
        a.resize(n, F::ZERO);
        let d = || format!("{} n=2^{} len {}", F::NAME, k, len);
        c.case(&s("fft-large"), d, || {
            c.ev(&s("large"), &(k, h64(&a[..16])), true);
            let pre = fft_precompute::<F>(n);
            let want = dft(&a, g);
            let vals = fft_with_precomputation_power_of_2(&a, &pre);
            c.check(vals == want, &s("fft-large"), || format!("{} first difference at {:?}", d(), vals.iter().zip(&want).position(|(x, y)| x != y)));
            let back = ifft_with_precomputation_power_of_2(&want, &pre);
            c.check(back == a, &s("ifft-large"), || format!("{} first difference at {:?}", d(), back.iter().zip(&a).position(|(x, y)| x != y)));
        });
    }
    // results do not depend on the pool size
    let a = coeffs::<F>(&mut rng, 1 << 13, 0);
    let want = fft(&a);
    for t in [1usize, 3, 16].iter() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*t).build().unwrap();
        c.ev(&s("pool"), t, true);
        c.check(pool.install(|| fft(&a)) == want, &s("fft-pool"), || format!("{}", t));
    }
}

/// Domain helpers as used by circuits: the extended values of every preprocessed polynomial.
fn c05_circuit<C: HaloCurve>(c: &Ctx)
where
    C::ScalarField: FieldSpec,
{
    let mut rng = c.rng("circuit");
    let mut b = CircuitBuilder::<C>::new(128);
    let x = b.add_virtual_target();
    let mut y = b.constant_wire(rf(&mut rng));
    for i in 0..rng.gen_range(3, 20) {
        let k = b.constant_wire(rf(&mut rng));
        y = if i % 2 == 0 { b.mul(y, x) } else { b.mul_add(y, k, x) };
    }
    let cir = b.build();
    let n = cir.degree();
    let (gn, g8) = (cir.subgroup_generator_n, cir.subgroup_generator_8n);
    let nm = C::ScalarField::NAME;
    c.check(g8.exp_usize(8) == gn, "subgroup-8n", || nm.into());
    let mut x8 = vec![<C::ScalarField as Field>::ONE];
    for i in 1..8 * n {
        let v = x8[i - 1] * g8;
        x8.push(v);
    }
    c.check(cir.subgroup_8n == x8, "subgroup-8n", || nm.into());
    c.check(cir.subgroup_n == x8.iter().step_by(8).copied().collect::<Vec<_>>(), "subgroup-n", || nm.into());
    c.check(cir.fft_precomputation_n.size() == n && cir.fft_precomputation_8n.size() == 8 * n, "precomp-size", || nm.into());
    for (polys, vals, what) in [(&cir.constant_polynomials, &cir.constants_8n, "constants"), (&cir.s_sigma_polynomials, &cir.s_sigma_values_8n, "sigmas")].iter() {
        c.check(polys.len() == vals.len(), "lde-count", || what.to_string());
        for (p, v) in polys.iter().zip(vals.iter()) {
            c.ev("circuit-lde", &(nm, what, kf(v)), true);
            let mut ap = p.coeffs().to_vec();
            c.check(ap.len() <= n, "lde-degree", || what.to_string());
            ap.resize(8 * n, <C::ScalarField as Field>::ZERO);
            c.check(&dft(&ap, g8) == v, "circuit-lde", || format!("{} {}", nm, what));
        }
    }
    for (i, row) in cir.gate_constants.iter().enumerate() {
        for j in 0..6 {
            let want = row.get(j).copied().unwrap_or(<C::ScalarField as Field>::ZERO);
            c.check(cir.constants_8n[j][8 * i] == want, "constants-on-rows", || format!("{} row {} const {}", nm, i, j));
        }
    }
}

// ---------------------------------------------------------------- polynomials

fn trimmed<F: Field>(a: &[F]) -> Vec<F> {
    let mut v = a.to_vec();
    while v.last().map_or(false, |x| x.is_zero()) {
        v.pop();
    }
    v
}
fn school_mul<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        if x.is_zero() {
            continue;
        }
        for (j, y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + *x * *y;
        }
    }
    trimmed(&r)
}
fn school_add<F: Field>(a: &[F], b: &[F]) -> Vec<F> {
    let n = a.len().max(b.len());
    trimmed(&(0..n).map(|i| a.get(i).copied().unwrap_or(F::ZERO) + b.get(i).copied().unwrap_or(F::ZERO)).collect::<Vec<_>>())
}
fn school_div<F: Field>(a: &[F], b: &[F]) -> (Vec<F>, Vec<F>) {
    let b = trimmed(b);
    let mut r = trimmed(a);
    if r.len() < b.len() {
        return (vec![], r);
    }
    let inv = F::ONE / *b.last().unwrap();
    let mut q = vec![F::ZERO; r.len() - b.len() + 1];
    for k in (0..q.len()).rev() {
        let t = r[k + b.len() - 1] * inv;
        q[k] = t;
        if t.is_nonzero() {
            for i in 0..b.len() {
                r[k + i] = r[k + i] - t * b[i];
            }
        }
    }
    (trimmed(&q), trimmed(&r))
}

/// Operand of a given shape: dense, low zeros, sparse, zero, constant, monomial, each optionally padded.
fn operand<F: FieldSpec>(rng: &mut R, max: usize) -> Vec<F> {
    let n = *[0usize, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, max / 2, max].choose(rng).unwrap();
    let n = n.min(max);
    let st = rng.gen_range(0, 9);
    let mut v: Vec<F> = (0..n)
        .map(|i| match st {
            0 | 1 => rf::<F>(rng),
            2 => F::ZERO,
            3 => {
                if i == n - 1 {
                    F::ONE
                } else {
                    F::ZERO
                }
            }
            4 => {
                if i * 2 >= n {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
            5 => {
                if rng.gen_range(0, 5) == 0 {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
            6 => {
                if i == 0 {
                    F::NEG_ONE
                } else if i == n - 1 {
                    F::ONE
                } else {
                    F::ZERO
                }
            }
            7 => F::from_canonical_u32(rng.gen_range(0, 3)),
            _ => {
                if i == 0 || i == n - 1 || rng.gen_range(0, 3) == 0 {
                    rf::<F>(rng)
                } else {
                    F::ZERO
                }
            }
        })
        .collect();
    if rng.gen_range(0, 3) == 0 {
        let extra = rng.gen_range(1, 9);
        v.resize(v.len() + extra, F::ZERO);
    }
    v
}

fn c06<F: FieldSpec>(c: &Ctx) {
    let mut rng = c.rng(F::NAME);
    let s = |n: &str| format!("{}:{}", n, F::NAME);
    let fmt = |v: &[F]| format!("{:?}", v.iter().map(|x| x.val().to_string()).map(|x| if x.len() > 12 { format!("~{}", &x[x.len() - 6..]) } else { x }).collect::<Vec<_>>());
    let kind = s("ring");
    let it = c.n(2500, 40_000);
    for i in 0..it {
        let big = i % 20 == 0;
        let a = operand::<F>(&mut rng, if big { 130 } else { 24 });
        let b = operand::<F>(&mut rng, if big { 70 } else { 24 });
        let (pa, pb) = (Polynomial::from(a.clone()), Polynomial::from_coeffs(&b));
        let d = || format!("{} a={} b={}", F::NAME, fmt(&a), fmt(&b));
        let x = rf::<F>(&mut rng);
        c.case(&s("poly"), d, || {
            c.ev(&kind, &(kf(&a), kf(&b)), !trimmed(&a).is_empty());
            // representation
            c.check(pa.len() == a.len() && pa.coeffs() == &a[..] && pa.is_empty() == a.is_empty(), &s("coeffs"), d);
            c.check(pa.is_zero() == trimmed(&a).is_empty(), &s("is_zero"), d);
            c.check((pa == pb) == (trimmed(&a) == trimmed(&b)), &s("eq"), d);
            if !pa.is_zero() {
                c.check(pa.degree() == trimmed(&a).len() - 1, &s("degree"), d);
            }
            c.check(pa.lead() == trimmed(&a).last().copied().unwrap_or(F::ZERO), &s("lead"), d);
            let mut t = pa.clone();
            t.trim();
            c.check(t.coeffs() == &trimmed(&a)[..], &s("trim"), d);
            let tl = t.len();
            let p = pa.padded(tl + 3);
            c.check(p.len() == tl + 3 && trimmed(p.coeffs()) == trimmed(&a), &s("padded"), d);
            c.check(pa == p && p == pa, &s("eq-padded"), d);
            // evaluation
            let want = {
                let mut r = F::ZERO;
                let mut xp = F::ONE;
                for k in &a {
                    r = r + *k * xp;
                    xp = xp * x;
                }
                r
            };
            c.check(pa.eval(x) == want, &s("eval"), d);
            c.check(pa.eval(F::ZERO) == a.get(0).copied().unwrap_or(F::ZERO), &s("eval0"), d);
            let pw = plonky::plonk_util::powers(x, a.len());
            c.check(pw.len() == a.len() && pa.eval_from_power(&pw) == want, &s("eval_from_power"), d);
            c.check(plonky::plonk_util::eval_poly(&a, x) == want, &s("eval_poly"), d);
            c.check(plonky::plonk_util::reduce_with_powers(&a, x) == want, &s("reduce_with_powers"), d);
            // ring operations
            let sum = pa.add(&pb);
            c.check(trimmed(sum.coeffs()) == school_add(&a, &b), &s("add"), || format!("{} got {}", d(), fmt(sum.coeffs())));
            let prod = pa.mul(&pb);
            c.check(trimmed(prod.coeffs()) == school_mul(&trimmed(&a), &trimmed(&b)), &s("mul"), || format!("{} got {}", d(), fmt(prod.coeffs())));
            c.check(prod == pb.mul(&pa), &s("mul-comm"), d);
        });
        // division
        if trimmed(&b).is_empty() {
            c.check(guard(|| pa.polynomial_division(&pb)).is_err() && guard(|| pa.polynomial_long_division(&pb)).is_err(), &s("division-by-zero"), d);
            continue;
        }
        let (q, r) = school_div(&a, &b);
        c.ev(&s("division"), &(kf(&a), kf(&b)), !q.is_empty() && trimmed(&b).len() > 1);
        for (what, res) in vec![("fast", guard(|| pa.polynomial_division(&pb))), ("long", guard(|| pa.polynomial_long_division(&pb)))] {
            match res {
                Err(e) => c.viol(&s(&format!("division-{}-crash", what)), format!("{}: {}", d(), e)),
                Ok((gq, gr)) => {
                    c.check(trimmed(gq.coeffs()) == q && trimmed(gr.coeffs()) == r, &s(&format!("division-{}", what)), || {
                        format!("{} got q={} r={} want q={} r={}", d(), fmt(gq.coeffs()), fmt(gr.coeffs()), fmt(&q), fmt(&r))
                    });
                }
            }
        }
        // exact products divide back
        let prod = school_mul(&trimmed(&a), &trimmed(&b));
        for (what, res) in vec![("fast", guard(|| Polynomial::from(prod.clone()).polynomial_division(&pb))), ("long", guard(|| Polynomial::from(prod.clone()).polynomial_long_division(&pb)))] {
            match res {
                Err(e) => c.viol(&s(&format!("exact-{}-crash", what)), format!("{}: {}", d(), e)),
                Ok((gq, gr)) => {
                    c.check(trimmed(gq.coeffs()) == trimmed(&a) && trimmed(gr.coeffs()).is_empty(), &s(&format!("exact-{}", what)), d);
                }
            }
        }
    }
    c.sample(&kind, || "operands: dense, sparse, low zeros, monomials, x^n-1, small coefficients, zero; zero-padded or not".into());
    // larger divisions
    for i in 0..c.n(6, 60) {
        let (la, lb) = (rng.gen_range(200, 900), rng.gen_range(1, 400));
        let a = coeffs::<F>(&mut rng, la, i);
        let b = coeffs::<F>(&mut rng, lb, i / 2);
        if trimmed(&b).is_empty() || trimmed(&a).is_empty() {
            continue;
        }
        let (q, r) = school_div(&a, &b);
        c.ev(&s("division"), &(kf(&a), kf(&b)), true);
        let d = || format!("{} lens {} {} style {}", F::NAME, a.len(), b.len(), i);
        c.case(&s("division-large"), d, || {
            let (gq, gr) = Polynomial::from(a.clone()).polynomial_division(&Polynomial::from(b.clone()));
            c.check(trimmed(gq.coeffs()) == q && trimmed(gr.coeffs()) == r, &s("division-large"), d);
            let p = Polynomial::from(a.clone()).mul(&Polynomial::from(b.clone()));
            c.check(trimmed(p.coeffs()) == school_mul(&trimmed(&a), &trimmed(&b)), &s("mul-large"), d);
        });
    }
    // division by X^n - 1
    let kind = s("z_h");
    for i in 0..c.n(250, 4000) {
        let n = match i % 3 {
            0 => 1usize << rng.gen_range(0, 8),
            1 => rng.gen_range(1, 70),
            _ => 1usize << rng.gen_range(0, 5),
        };
        let q = operand::<F>(&mut rng, 100);
        let mut z = vec![F::ZERO; n + 1];
        z[0] = F::NEG_ONE;
        z[n] = F::ONE;
        let mut a = school_mul(&trimmed(&q), &z);
        if i % 4 == 0 {
            let e = rng.gen_range(1, 20);
            a.resize(a.len() + e, F::ZERO);
        }
        let d = || format!("{} n={} q={}", F::NAME, n, fmt(&q));
        c.case(&s("divide_by_z_h"), d, || {
            c.ev(&kind, &(n, kf(&q)), !trimmed(&q).is_empty());
            let got = Polynomial::from(a.clone()).divide_by_z_h(n);
            c.check(trimmed(got.coeffs()) == trimmed(&q), &s("divide_by_z_h"), d);
        });
    }
    // interpolation on the root-of-unity domain agrees with the polynomial
    for i in 0..c.n(40, 300) {
        let k = i % 8;
        let pre = fft_precompute::<F>(1 << k);
        let vals = coeffs::<F>(&mut rng, 1 << k, i);
        let p = Polynomial::from_evaluations(&vals, &pre);
        let g = F::primitive_root_of_unity(k);
        let mut x = F::ONE;
        c.ev(&s("interp"), &kf(&vals), true);
        for v in &vals {
            c.check(p.eval(x) == *v, &s("interp"), || format!("{} 2^{}", F::NAME, k));
            x = x * g;
        }
    }
    // zero / empty constructors
    c.check(Polynomial::<F>::empty().len() == 0 && Polynomial::<F>::zero(5).len() == 5 && Polynomial::<F>::zero(5).is_zero() && Polynomial::<F>::empty().is_zero(), &s("zero"), || String::new());
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or("C05".into());
    let c = Ctx::new(&id);
    let mut jobs: Vec<(String, fn(&Ctx))> = Vec::new();
    macro_rules! each { ($f:ident) => { each!(@ $f; TweedledeeBase, TweedledumBase, PallasBase, VestaBase, Bls12377Base, Bls12377Scalar) }; (@ $f:ident; $($t:ident),*) => { $( jobs.push((format!("{}:{}", stringify!($f), stringify!($t)), $f::<$t>)); )* } }
    match id.as_str() {
        "C05" => {
            each!(c05);
            jobs.push(("circuit:dee".into(), c05_circuit::<Tweedledee>));
            jobs.push(("circuit:vesta".into(), c05_circuit::<Vesta>));
            for f in &["TweedledeeBase", "TweedledumBase", "PallasBase", "VestaBase", "Bls12377Base", "Bls12377Scalar"] {
                c.require(&format!("fft:{}", f), 100);
            }
            c.assume("field arithmetic is that of C01; the recursive DFT and Horner evaluation of the harness are the oracle");
        }
        "C06" => {
            each!(c06);
            for f in &["TweedledeeBase", "TweedledumBase", "PallasBase", "VestaBase", "Bls12377Base", "Bls12377Scalar"] {
                c.require(&format!("division:{}", f), 1000);
            }
            c.assume("field arithmetic is that of C01; schoolbook polynomial arithmetic of the harness is the oracle");
        }
        _ => panic!("unknown property"),
    }
    let _ = num::BigUint::zero();
    jobs.into_par_iter().for_each(|(n, f)| c.section(&n, |c| f(c)));
    c.finish()
}
