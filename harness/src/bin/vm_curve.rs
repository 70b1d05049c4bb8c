//! C03 (group law), C04 (multiplication, MSM, summation), C08 (hash to curve).
use num::{BigUint, One, Zero};
use plonky::plonk_util::{halo_n, halo_n_mul};
use plonky::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use vmon::big::*;
use vmon::refs::*;
use vmon::*;

trait CN: Curve {
    const N: &'static str;
}
impl CN for Tweedledee { const N: &'static str = "Tweedledee"; }
impl CN for Tweedledum { const N: &'static str = "Tweedledum"; }
impl CN for Pallas { const N: &'static str = "Pallas"; }
impl CN for Vesta { const N: &'static str = "Vesta"; }
impl CN for Bls12377 { const N: &'static str = "Bls12377"; }

fn kp(p: &Pt) -> u64 {
    h64(&p.as_ref().map(|(x, y)| (x.to_u32_digits(), y.to_u32_digits())))
}

/// Pool of points: identity, small and large multiples of the generator, opposites, endomorphism images
/// (same y, different x), points of order two or three where the curve has them, hashed points.
fn pool<C: CN>(rc: &RefCurve, rng: &mut R, extra: usize) -> Vec<Pt>
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let g = pt::<C>(&C::GENERATOR_AFFINE);
    let p = &rc.p;
    let mut v: Vec<Pt> = vec![None];
    for k in [1u32, 2, 3, 4, 7, 16].iter() {
        let q = rc.mul(&BigUint::from(*k), &g);
        v.push(rc.neg(&q));
        v.push(q);
    }
    // halves of the generator etc.: 2H = G so that sums hit doubling results
    v.push(rc.mul(&((&rc.r + 1u32) >> 1), &g));
    for _ in 0..extra {
        let k = hostile(rng, &rc.r);
        let q = rc.mul(&k, &g);
        // cube roots of unity: same y, different x
        if (p % 3u32).is_one() {
            if let Some((x, y)) = &q {
                let mut w = BigUint::one();
                let mut b = 2u32;
                while w.is_one() {
                    w = BigUint::from(b).modpow(&((p - 1u32) / 3u32), p);
                    b += 1;
                }
                if rc.a.is_zero() {
                    v.push(Some((mulm(x, &w, p), y.clone())));
                    v.push(Some((mulm(&mulm(x, &w, p), &w, p), subm(&BigUint::zero(), y, p))));
                }
            }
        }
        v.push(q);
    }
    // arbitrary curve points by x (on BLS12-377 mostly outside the prime-order subgroup), and y = 0
    let mut x = 0u32;
    let mut found = 0;
    while found < 4 {
        let xx = BigUint::from(x);
        let rhs = (&xx * &xx * &xx + &rc.a * &xx + &rc.b) % p;
        if is_qr(&rhs, p) {
            if let Some(y) = C::BaseField::mk(&rhs).square_root() {
                v.push(Some((xx, y.val())));
                found += 1;
            }
        }
        x += 1;
    }
    // order two: x^3 = -b; for b = 1 that is x = -1 (and its conjugates)
    if rc.b.is_one() && rc.a.is_zero() {
        let m1 = p - 1u32;
        v.push(Some((m1.clone(), BigUint::zero())));
        let mut w = BigUint::one();
        let mut b = 2u32;
        while w.is_one() {
            w = BigUint::from(b).modpow(&((p - 1u32) / 3u32), p);
            b += 1;
        }
        v.push(Some((mulm(&m1, &w, p), BigUint::zero())));
        // x = 0 : (0, 1) has order three
        v.push(Some((BigUint::zero(), BigUint::one())));
        v.push(Some((BigUint::zero(), m1)));
    }
    for q in &v {
        assert!(rc.on(q));
    }
    v
}

fn scaled<C: CN>(q: &Pt, rng: &mut R) -> ProjectivePoint<C>
where
    C::BaseField: FieldSpec,
{
    match q {
        None => match rng.gen_range(0, 3) {
            0 => ProjectivePoint::ZERO,
            // identity carrying unrelated coordinates
            1 => ProjectivePoint { x: C::GENERATOR_AFFINE.x, y: C::GENERATOR_AFFINE.y, z: C::BaseField::ONE, zero: true },
            _ => ProjectivePoint { x: rf(rng), y: rf(rng), z: rf(rng), zero: true },
        },
        Some((x, y)) => {
            let mut z: C::BaseField = match rng.gen_range(0, 4) {
                0 => C::BaseField::ONE,
                1 => C::BaseField::NEG_ONE,
                _ => rf(rng),
            };
            if z.is_zero() {
                z = C::BaseField::ONE;
            }
            ProjectivePoint { x: C::BaseField::mk(x) * z, y: C::BaseField::mk(y) * z, z, zero: false }
        }
    }
}
fn affv<C: CN>(q: &Pt, rng: &mut R) -> AffinePoint<C>
where
    C::BaseField: FieldSpec,
{
    match q {
        None => match rng.gen_range(0, 2) {
            0 => AffinePoint::ZERO,
            _ => AffinePoint { x: C::GENERATOR_AFFINE.x, y: C::GENERATOR_AFFINE.y, zero: true },
        },
        _ => aff::<C>(q),
    }
}

fn c03<C: CN>(c: &Ctx)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let mut rng = c.rng(C::N);
    let s = |n: &str| format!("{}:{}", n, C::N);
    let kind = s("constants");
    // constants
    let g = pt::<C>(&C::GENERATOR_AFFINE);
    c.ev(&kind, "gen", true);
    c.check(rc.on(&g) && g.is_some(), &s("generator-off-curve"), || format!("{:?}", g));
    c.check(rc.mul(&rc.r, &g).is_none(), &s("generator-order"), || format!("{:?}", g));
    c.check(ppt::<C>(&C::GENERATOR_PROJECTIVE) == g, &s("generator-projective"), || String::new());
    let disc = (&rc.a * &rc.a * &rc.a * 4u32 + &rc.b * &rc.b * 27u32) % &rc.p;
    c.check(!disc.is_zero() && C::is_safe_curve(), &s("singular"), || String::new());

    let pool = pool::<C>(&rc, &mut rng, c.n(7, 30));
    let kind = s("unary");
    for q in &pool {
        for rep in 0..3 {
            let a = affv::<C>(q, &mut rng);
            let j = scaled::<C>(q, &mut rng);
            let key = (kp(q), rep);
            let d = || format!("{} {:?}", C::N, q);
            c.case(&s("unary"), d, || {
                c.ev(&kind, &key, q.is_some());
                c.check(a.is_valid() && j.is_valid(), &s("is_valid"), d);
                c.eq(&pt(&j.to_affine()), q, &s("to_affine"), d);
                c.eq(&ppt(&a.to_projective()), q, &s("to_projective"), d);
                let dbl = rc.add(q, q);
                c.eq(&pt(&a.double()), &dbl, &s("double-affine"), d);
                c.eq(&ppt(&j.double()), &dbl, &s("double-projective"), d);
                let n = rc.neg(q);
                c.eq(&pt(&(-a)), &n, &s("neg-affine"), d);
                c.eq(&ppt(&(-j)), &n, &s("neg-projective"), d);
                c.eq(&ppt(&j.neg()), &n, &s("neg-projective"), d);
                // near misses are off the curve
                if let Some((x, y)) = q {
                    let bad = AffinePoint::<C> { x: C::BaseField::mk(x), y: C::BaseField::mk(&((y + 1u32) % &rc.p)), zero: false };
                    let ref_ok = rc.on(&pt(&bad));
                    c.check(bad.is_valid() == ref_ok, &s("is_valid-bad"), d);
                    let bad = AffinePoint::<C> { x: C::BaseField::mk(&((x + 1u32) % &rc.p)), y: C::BaseField::mk(y), zero: false };
                    c.check(bad.is_valid() == rc.on(&pt(&bad)), &s("is_valid-bad"), d);
                }
            });
        }
    }
    c.sample(&kind, || format!("{} pool of {} points, e.g. {:?}", C::N, pool.len(), pool[pool.len() - 1]));
    let kind = s("pairs");
    let reps = c.n(2, 12);
    for q in &pool {
        for r in &pool {
            let want = rc.add(q, r);
            for rep in 0..reps {
                let (a1, a2) = (affv::<C>(q, &mut rng), affv::<C>(r, &mut rng));
                let (j1, j2) = (scaled::<C>(q, &mut rng), scaled::<C>(r, &mut rng));
                let d = || format!("{} {:?} + {:?} (z1={:?} z2={:?})", C::N, q, r, j1.z, j2.z);
                c.case(&s("add"), d, || {
                    c.ev(&kind, &(kp(q), kp(r), rep), q.is_some() && r.is_some());
                    c.eq(&ppt(&(a1 + a2)), &want, &s("add-aff-aff"), d);
                    c.eq(&ppt(&(j1 + a2)), &want, &s("add-proj-aff"), d);
                    c.eq(&ppt(&(j1 + j2)), &want, &s("add-proj-proj"), d);
                    c.eq(&pt(&(j1 + j2).to_affine()), &want, &s("add-to_affine"), d);
                    c.check((a1 == a2) == (q == r), &s("eq-affine"), d);
                    c.check((j1 == j2) == (q == r), &s("eq-projective"), d);
                    c.check(((a1 + a2) == (j2 + a1)) && ((j1 + j2) == (j2 + j1)), &s("add-commutes"), d);
                    c.check((j1 + j2).is_valid(), &s("add-valid"), d);
                });
            }
        }
    }
    // associativity-like accumulations through exceptional cases, mixed formulas
    let kind = s("chains");
    for i in 0..c.n(60, 600) {
        let len = rng.gen_range(2, 12);
        let terms: Vec<Pt> = (0..len).map(|_| pool[rng.gen_range(0, pool.len().min(if i % 2 == 0 { 8 } else { pool.len() }))].clone()).collect();
        let mut want: Pt = None;
        let mut acc = ProjectivePoint::<C>::ZERO;
        for (k, t) in terms.iter().enumerate() {
            want = rc.add(&want, t);
            acc = match (k + i) % 3 {
                0 => acc + aff::<C>(t),
                1 => acc + scaled::<C>(t, &mut rng),
                _ => scaled::<C>(t, &mut rng) + acc,
            };
        }
        c.ev(&kind, &terms.iter().map(kp).collect::<Vec<_>>(), true);
        c.eq(&ppt(&acc), &want, &s("chain"), || format!("{} {:?}", C::N, terms));
    }
    // batch conversions
    let kind = s("batch");
    for len in 0..c.n(30, 120) + 3 * pool.len() {
        // lists of every length; then every point of the pool at the start, the end and alone
        let at = len.checked_sub(c.n(30, 120));
        let len = match at { None => len, Some(k) => [1, 2, 5][k % 3] };
        let mut qs: Vec<Pt> = (0..len).map(|i| if (i + len) % 4 == 0 { None } else { pool[rng.gen_range(0, pool.len())].clone() }).collect();
        if let Some(k) = at {
            let end = if k % 2 == 0 { len - 1 } else { 0 };
            qs[end] = pool[k / 3].clone();
        }
        let js: Vec<ProjectivePoint<C>> = qs.iter().map(|q| scaled(q, &mut rng)).collect();
        let rs: Vec<Pt> = (0..len).map(|_| pool[rng.gen_range(0, pool.len())].clone()).collect();
        let jr: Vec<ProjectivePoint<C>> = rs.iter().map(|q| scaled(q, &mut rng)).collect();
        c.ev(&kind, &qs.iter().map(kp).collect::<Vec<_>>(), len > 0);
        let d = || format!("{} {:?}", C::N, qs);
        c.case(&s("batch"), d, || {
            let b: Vec<Pt> = ProjectivePoint::batch_to_affine(&js).iter().map(pt).collect();
            c.eq(&b, &qs, &s("batch_to_affine"), d);
            let affs: Vec<AffinePoint<C>> = qs.iter().map(|q| aff(q)).collect();
            let b: Vec<Pt> = AffinePoint::batch_to_projective(&affs).iter().map(ppt).collect();
            c.eq(&b, &qs, &s("batch_to_projective"), d);
            let sums: Vec<Pt> = ProjectivePoint::add_slices(&js, &jr).iter().map(ppt).collect();
            let want: Vec<Pt> = qs.iter().zip(&rs).map(|(a, b)| rc.add(a, b)).collect();
            c.eq(&sums, &want, &s("add_slices"), d);
        });
    }
}

fn c03_endo<C: CN + HaloCurve>(c: &Ctx)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let mut rng = c.rng(&format!("endo-{}", C::N));
    let (zb, zs) = (C::ZETA.val(), C::ZETA_SCALAR.val());
    let s = |n: &str| format!("{}:{}", n, C::N);
    let kind = s("endomorphism");
    for (z, p, n) in [(&zb, &rc.p, "base"), (&zs, &rc.r, "scalar")].iter() {
        let cube = mulm(&mulm(z, z, p), z, p);
        c.ev(&kind, n, true);
        c.check(cube.is_one() && !z.is_one(), &s("zeta-order"), || format!("{} {}", n, z));
    }
    for _ in 0..c.n(25, 200) {
        let q = rc.mul(&hostile(&mut rng, &rc.r), &pt::<C>(&C::GENERATOR_AFFINE));
        c.ev(&kind, &kp(&q), q.is_some());
        c.eq(&pt(&aff::<C>(&q).endomorphism()), &rc.mul(&zs, &q), &s("endomorphism"), || format!("{:?}", q));
    }
    c.check(AffinePoint::<C>::ZERO.endomorphism() == AffinePoint::ZERO, &s("endomorphism"), || "identity".into());
}

fn scalars<S: FieldSpec>(rng: &mut R, i: usize) -> BigUint {
    let r = S::pr();
    match i % 9 {
        0 => BigUint::zero(),
        1 => BigUint::one(),
        2 => r - 1u32,
        3 => BigUint::one() << rng.gen_range(0, r.bits() as usize - 1),
        4 => BigUint::from(rng.gen_range(0u32, 40)),
        5 => r - rng.gen_range(1u32, 40),
        _ => hostile(rng, r),
    }
}

fn c04<C: CN>(c: &Ctx)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let mut rng = c.rng(C::N);
    let s = |n: &str| format!("{}:{}", n, C::N);
    let g = pt::<C>(&C::GENERATOR_AFFINE);
    let full = pool::<C>(&rc, &mut rng, 4);
    // single multiplications
    let kind = s("mul");
    for i in 0..c.n(70, 1500) {
        let k = scalars::<C::ScalarField>(&mut rng, i);
        let q = full[rng.gen_range(0, full.len())].clone();
        let want = rc.mul(&k, &q);
        let j = scaled::<C>(&q, &mut rng);
        let ks = C::ScalarField::mk(&k);
        let d = || format!("{} {} * {:?}", C::N, k, q);
        c.case(&s("mul"), d, || {
            c.ev(&kind, &(k.to_u32_digits(), kp(&q)), q.is_some() && k > BigUint::one());
            c.eq(&ppt(&(C::convert(ks) * j)), &want, &s("mul"), d);
            let pre = j.mul_precompute();
            c.eq(&ppt(&j.mul_with_precomputation(ks, pre.clone())), &want, &s("mul-precomputed"), d);
            // reuse of the table for another scalar
            let k2 = &k ^ BigUint::from(5u32);
            if k2 < rc.r {
                c.eq(&ppt(&j.mul_with_precomputation(C::ScalarField::mk(&k2), pre)), &rc.mul(&k2, &q), &s("mul-precomputed"), d);
            }
        });
    }
    // slices
    for len in [0usize, 1, 5].iter() {
        let qs: Vec<Pt> = (0..*len).map(|_| full[rng.gen_range(0, full.len())].clone()).collect();
        let k = hostile(&mut rng, &rc.r);
        let js: Vec<ProjectivePoint<C>> = qs.iter().map(|q| scaled(q, &mut rng)).collect();
        let got: Vec<Pt> = C::ScalarField::mk(&k).scale_proj_point_slice(&js).iter().map(ppt).collect();
        let want: Vec<Pt> = qs.iter().map(|q| rc.mul(&k, q)).collect();
        c.ev(&kind, &(len, k.to_u32_digits()), *len > 0);
        c.eq(&got, &want, &s("scale_slice"), || format!("{}", len));
    }
    // pool of known multiples of the generator: every multi-scalar product reduces to one multiplication
    let mut logs: Vec<BigUint> = vec![BigUint::zero(), BigUint::one(), &rc.r - 1u32, BigUint::from(2u32), &rc.r - 2u32, BigUint::from(3u32)];
    for i in 0..24 {
        logs.push(scalars::<C::ScalarField>(&mut rng, 3 + i));
    }
    // powers of two times the generator collide with window tables
    for w in [1usize, 4, 7, 8, 11].iter() {
        logs.push(BigUint::one() << *w);
    }
    let kpts: Vec<Pt> = logs.iter().map(|k| rc.mul(k, &g)).collect();
    let kind = s("msm");
    let mut lens = vec![0usize, 1, 2, 3, 5, 8, 13, 33];
    lens.extend(if c.thorough { vec![64, 90, 100, 200, 333, 500] } else { vec![90] });
    for (li, len) in lens.iter().enumerate() {
        for (wi, w) in [1usize, 2, 3, 4, 5, 7, 8, 10, 11, 13].iter().enumerate() {
            if !c.thorough && *len > 13 && (wi + li) % 5 != 0 {
                continue;
            }
            let style = (li + wi) % 4;
            let idx: Vec<usize> = (0..*len)
                .map(|i| match style {
                    0 => rng.gen_range(0, logs.len()),
                    1 => 1 + (i % 2), // G and -G alternating
                    2 => 1,           // all equal
                    _ => rng.gen_range(0, 8),
                })
                .collect();
            let ss: Vec<BigUint> = if style == 2 {
                let k = scalars::<C::ScalarField>(&mut rng, wi);
                vec![k; *len]
            } else {
                (0..*len).map(|i| scalars::<C::ScalarField>(&mut rng, i + wi)).collect()
            };
            let mut tot = BigUint::zero();
            for (i, k) in idx.iter().zip(&ss) {
                tot = (tot + &logs[*i] * k) % &rc.r;
            }
            let want = rc.mul(&tot, &g);
            let gens: Vec<ProjectivePoint<C>> = idx.iter().map(|i| scaled(&kpts[*i], &mut rng)).collect();
            let sc: Vec<C::ScalarField> = ss.iter().map(C::ScalarField::mk).collect();
            let d = || format!("{} len={} w={} style={} scalars={:?}", C::N, len, w, style, ss);
            c.case(&s("msm"), d, || {
                c.ev(&kind, &(len, w, style, tot.to_u32_digits()), *len > 0);
                let pre = msm_precompute(&gens, *w);
                c.eq(&ppt(&msm_execute(&pre, &sc)), &want, &s("msm-sequential"), d);
                c.eq(&ppt(&msm_execute_parallel(&pre, &sc)), &want, &s("msm-parallel"), d);
                c.eq(&ppt(&msm_parallel(&sc, &gens, *w)), &want, &s("msm_parallel"), d);
                if *len > 1 {
                    // the table is reusable with other scalars
                    let mut sc2 = sc.clone();
                    sc2.rotate_left(1);
                    let mut tot2 = BigUint::zero();
                    for (i, k) in idx.iter().zip(ss.iter().cycle().skip(1)) {
                        tot2 = (tot2 + &logs[*i] * k) % &rc.r;
                    }
                    c.eq(&ppt(&msm_execute_parallel(&pre, &sc2)), &rc.mul(&tot2, &g), &s("msm-reuse"), d);
                }
            });
        }
    }
    // one table shared by many products (as the prover does), window 8
    let gens: Vec<ProjectivePoint<C>> = kpts.iter().map(|q| scaled(q, &mut rng)).collect();
    let pre = msm_precompute(&gens, 8);
    for i in 0..c.n(12, 200) {
        let ss: Vec<BigUint> = (0..gens.len()).map(|j| if i % 3 == 0 { scalars::<C::ScalarField>(&mut rng, j) } else { hostile(&mut rng, &rc.r) }).collect();
        let mut tot = BigUint::zero();
        for (l, k) in logs.iter().zip(&ss) {
            tot = (tot + l * k) % &rc.r;
        }
        let sc: Vec<C::ScalarField> = ss.iter().map(C::ScalarField::mk).collect();
        c.ev(&kind, &("shared", tot.to_u32_digits()), true);
        let want = rc.mul(&tot, &g);
        c.eq(&ppt(&msm_execute_parallel(&pre, &sc)), &want, &s("msm-parallel"), || format!("shared table {:?}", ss));
        c.eq(&ppt(&msm_execute(&pre, &sc)), &want, &s("msm-sequential"), || format!("shared table {:?}", ss));
    }
    c.sample(&kind, || format!("lengths {:?} x windows 1..13, scalars incl. 0, 1, r-1, 2^k, duplicates; generators incl. identity/opposites", lens));
    // summations, through every strategy and around the strategy threshold
    let kind = s("sum");
    let mut lens: Vec<usize> = (0..12).collect();
    lens.extend_from_slice(&[31, 32, 33, 64, 138, 139, 140, 141, 142, 143, 200, 281, 300]);
    if c.thorough {
        lens.extend((130..300).step_by(3));
        lens.extend_from_slice(&[500, 777, 1000]);
    }
    for (li, len) in lens.iter().enumerate() {
        for style in 0..4 {
            let mut idx: Vec<usize> = (0..*len)
                .map(|i| match style {
                    0 => rng.gen_range(0, logs.len()),
                    1 => 1 + (i / 2) % 2 + (i % 2) * 0,
                    2 => *[0usize, 1, 2, 1, 1, 3, 4, 0].get(rng.gen_range(0, 8)).unwrap(),
                    _ => (i * 7 + li) % logs.len(),
                })
                .collect();
            if style == 3 {
                idx.shuffle(&mut rng);
            }
            let mut tot = BigUint::zero();
            for i in &idx {
                tot = (tot + &logs[*i]) % &rc.r;
            }
            let want = rc.mul(&tot, &g);
            let pts: Vec<AffinePoint<C>> = idx.iter().map(|i| affv(&kpts[*i], &mut rng)).collect();
            let d = || format!("{} len={} style={} logs={:?}", C::N, len, style, idx);
            c.case(&s("sum"), d, || {
                c.ev(&kind, &(len, style, &idx), *len > 1);
                c.eq(&ppt(&affine_summation_best(pts.clone())), &want, &s("sum-best"), d);
                c.eq(&ppt(&affine_summation_pairwise(pts.clone())), &want, &s("sum-pairwise"), d);
                c.eq(&ppt(&affine_summation_batch_inversion(pts.clone())), &want, &s("sum-batch"), d);
                c.eq(&ppt(&pts.iter().copied().sum::<ProjectivePoint<C>>()), &want, &s("sum-iter-affine"), d);
                let js: Vec<ProjectivePoint<C>> = idx.iter().map(|i| scaled(&kpts[*i], &mut rng.clone())).collect();
                c.eq(&ppt(&js.into_iter().sum::<ProjectivePoint<C>>()), &want, &s("sum-iter-proj"), d);
            });
        }
    }
    // points of order two, three and outside the prime subgroup
    for i in 0..c.n(20, 200) {
        let len = [2usize, 3, 5, 9, 150][i % 5];
        let qs: Vec<Pt> = (0..len).map(|_| full[full.len() - 1 - rng.gen_range(0, full.len().min(9))].clone()).collect();
        let mut want: Pt = None;
        for q in &qs {
            want = rc.add(&want, q);
        }
        let pts: Vec<AffinePoint<C>> = qs.iter().map(|q| aff(q)).collect();
        let d = || format!("{} special {:?}", C::N, qs);
        c.case(&s("sum"), d, || {
            c.ev(&kind, &("special", qs.iter().map(kp).collect::<Vec<_>>()), true);
            c.eq(&ppt(&affine_summation_batch_inversion(pts.clone())), &want, &s("sum-batch"), d);
            c.eq(&ppt(&affine_summation_pairwise(pts.clone())), &want, &s("sum-pairwise"), d);
            c.eq(&ppt(&affine_summation_best(pts.clone())), &want, &s("sum-best"), d);
        });
    }
    // several sums at once, mixed lengths incl. empty
    let kind = s("multisum");
    for i in 0..c.n(20, 200) {
        let sets: Vec<Vec<usize>> = (0..rng.gen_range(0, 9)).map(|_| { let n = *[0usize, 1, 2, 3, 10, 41, 150].choose(&mut rng).unwrap(); (0..n).map(|_| rng.gen_range(0, if i % 2 == 0 { 6 } else { logs.len() })).collect() }).collect();
        let want: Vec<Pt> = sets
            .iter()
            .map(|s| {
                let mut t = BigUint::zero();
                for i in s {
                    t = (t + &logs[*i]) % &rc.r;
                }
                rc.mul(&t, &g)
            })
            .collect();
        let ps: Vec<Vec<AffinePoint<C>>> = sets.iter().map(|s| s.iter().map(|i| aff(&kpts[*i])).collect()).collect();
        let d = || format!("{} sets={:?}", C::N, sets);
        c.case(&s("multisum"), d, || {
            c.ev(&kind, &sets, sets.len() > 1);
            let f = |v: Vec<ProjectivePoint<C>>| v.iter().map(ppt).collect::<Vec<Pt>>();
            c.eq(&f(affine_multisummation_best(ps.clone())), &want, &s("multisum-best"), d);
            c.eq(&f(affine_multisummation_pairwise(ps.clone())), &want, &s("multisum-pairwise"), d);
            c.eq(&f(affine_multisummation_batch_inversion(ps.clone())), &want, &s("multisum-batch"), d);
        });
    }
}

fn c04_endo<C: CN + HaloCurve>(c: &Ctx)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let mut rng = c.rng(&format!("endo-{}", C::N));
    let s = |n: &str| format!("{}:{}", n, C::N);
    let g = pt::<C>(&C::GENERATOR_AFFINE);
    let zs = C::ZETA_SCALAR.val();
    let r = &rc.r;
    let kind = s("halo_n");
    for i in 0..c.n(70, 1500) {
        let nb = 2 * *[0usize, 1, 2, 3, 4, 8, 63, 64, 64, 64].choose(&mut rng).unwrap();
        let bits: Vec<bool> = (0..nb)
            .map(|j| match i % 5 {
                0 => false,
                1 => true,
                2 => j % 2 == 0,
                3 => j % 4 < 2,
                _ => rng.gen(),
            })
            .collect();
        // reference: Horner over pairs: n <- 2n + (±1 or ±zeta)
        let mut n = BigUint::zero();
        for ch in bits.chunks(2) {
            let t = if ch[1] { zs.clone() } else { BigUint::one() };
            n = (&n * 2u32) % r;
            n = if ch[0] { addm(&n, &t, r) } else { subm(&n, &t, r) };
        }
        c.ev(&kind, &bits, nb > 0);
        c.eq(&halo_n::<C>(&bits).val(), &n, &s("halo_n"), || format!("{:?}", bits));
        let q = match i % 7 {
            0 => None,
            1 => g.clone(),
            _ => rc.mul(&hostile(&mut rng, r), &g),
        };
        let d = || format!("{} bits={:?} p={:?}", C::N, bits, q);
        c.case(&s("halo_n_mul"), d, || {
            c.eq(&pt(&halo_n_mul::<C>(&bits, aff(&q))), &rc.mul(&n, &q), &s("halo_n_mul"), d);
        });
    }
    // injective on the challenge space: distinct bit strings give distinct scalars
    let mut seen = std::collections::HashMap::new();
    for v in 0..(1u32 << 12) {
        let bits: Vec<bool> = (0..12).map(|i| v >> i & 1 == 1).collect();
        let n = halo_n::<C>(&bits).val();
        c.ev("halo_n-injective", &(C::N, v), true);
        if let Some(o) = seen.insert(n.to_u32_digits(), v) {
            c.viol(&s("halo_n-collision"), format!("{} and {}", o, v));
        }
    }
}

fn c08<C: CN>(c: &Ctx)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let mut rng = c.rng(C::N);
    let s = |n: &str| format!("{}:{}", n, C::N);
    let p = &rc.p;
    let check = |seed: &BigUint, q: AffinePoint<C>, x: &BigUint, neg: bool, what: &str| {
        let v = pt(&q);
        let d = || format!("{} seed={} got={:?}", what, seed, v);
        if !c.check(v.is_some() && rc.on(&v), &s(&format!("{}-invalid", what)), d) {
            return;
        }
        let rhs = (x * x * x + &rc.a * x + &rc.b) % p;
        let root = C::BaseField::mk(&rhs).square_root().map(|y| y.val()).unwrap_or_default();
        let want = if neg { subm(&BigUint::zero(), &root, p) } else { root };
        c.eq(&v, &Some((x.clone(), want)), &s(what), d);
    };
    let kind = s("blake");
    let mut seeds: Vec<BigUint> = (0..c.n(600, 6000) as u32).map(BigUint::from).collect();
    seeds.extend(boundary_values(p));
    for _ in 0..c.n(300, 6000) {
        seeds.push(hostile(&mut rng, p));
    }
    seeds.sort();
    seeds.dedup();
    let pts: Vec<(BigUint, AffinePoint<C>, AffinePoint<C>)> = seeds
        .par_iter()
        .map(|sd| {
            let f = C::BaseField::mk(sd);
            (sd.clone(), blake_hash_base_field_to_curve::<C>(f), blake_hash_base_field_to_curve::<C>(f))
        })
        .collect();
    let mut xs = std::collections::HashMap::new();
    let mut signs = [0u32; 2];
    for (sd, q, q2) in &pts {
        let (x, neg) = ref_blake_to_curve::<C>(sd);
        signs[neg as usize] += 1;
        c.ev(&kind, &sd.to_u32_digits(), true);
        check(sd, *q, &x, neg, "blake");
        c.check(q == q2 && pt(q) == pt(q2), &s("blake-nondeterministic"), || format!("{}", sd));
        if let Some((x, _)) = pt(q) {
            if let Some(o) = xs.insert(x.to_u32_digits(), sd.clone()) {
                c.viol(&s("blake-collision"), format!("seeds {} and {} give points with the same x", o, sd));
            }
        }
    }
    c.check(signs[0] > 0 && signs[1] > 0, &s("blake-sign"), || format!("{:?}", signs));
    c.sample(&kind, || format!("{} seeds, signs {:?}", pts.len(), signs));
    for sd in [0usize, 1, 2, 255, 256, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX - 1, usize::MAX, 1 << 63].iter() {
        let b = BigUint::from(*sd);
        let (x, neg) = ref_blake_to_curve::<C>(&b);
        c.ev(&kind, &("usize", sd), true);
        check(&b, blake_hash_usize_to_curve::<C>(*sd), &x, neg, "blake-usize");
    }
    // expansion to a field element: in range, depends on both inputs
    let kind = s("blake_field");
    for sd in seeds.iter().take(c.n(200, 3000)) {
        for it in [0u8, 1, 2, 7, 128, 254, 255].iter() {
            let (x, neg) = blake_field::<C::BaseField>(*it, C::BaseField::mk(sd));
            let (rx, rneg) = ref_blake_field::<C::BaseField>(*it, sd);
            c.ev(&kind, &(it, sd.to_u32_digits()), true);
            c.check(x.val() == rx && neg == rneg && &limbs(&x.raw()) < p, &s("blake_field"), || format!("iter={} seed={} got {:?},{} want {},{}", it, sd, x, neg, rx, rneg));
        }
    }
    // concurrent callers see the same points
    let kind = s("concurrent");
    let sub: Vec<usize> = (0..64).collect();
    let seq: Vec<Pt> = sub.iter().map(|i| pt(&blake_hash_usize_to_curve::<C>(*i))).collect();
    for n in [2usize, 8, 16].iter() {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap();
        let par: Vec<Pt> = pool.install(|| sub.par_iter().map(|i| pt(&blake_hash_usize_to_curve::<C>(*i))).collect());
        c.ev(&kind, n, true);
        c.check(par == seq, &s("concurrent"), || format!("{} threads", n));
    }
    // Rescue-based variant
    let kind = s("rescue");
    for sec in [128usize, 80, 160].iter() {
        let rr = RefRescue::<C::BaseField>::new(4, *sec);
        let mut sds: Vec<BigUint> = (0..c.n(2, 12) as u32).map(BigUint::from).collect();
        sds.push(p - 1u32);
        if *sec == 128 {
            for _ in 0..c.n(3, 30) {
                sds.push(hostile(&mut rng, p));
            }
            sds.push(BigUint::from(u32::MAX));
        }
        let res: Vec<(BigUint, AffinePoint<C>)> = sds.par_iter().map(|sd| (sd.clone(), hash_base_field_to_curve::<C>(C::BaseField::mk(sd), *sec))).collect();
        for (sd, q) in res {
            let mut i = 0u32;
            let (x, neg) = loop {
                let o = rr.sponge(&[C::BaseField::mk(&sd), C::BaseField::mk(&BigUint::from(i))], 2);
                let x = o[0].val();
                if is_qr(&((&x * &x * &x + &rc.a * &x + &rc.b) % p), p) {
                    break (x, !(o[1].val() % 2u32).is_zero());
                }
                i += 1;
            };
            c.ev(&kind, &(sec, sd.to_u32_digits()), true);
            check(&sd, q, &x, neg, "rescue");
            if let Some(d) = sd.to_u32_digits().get(0).copied().or(Some(0)) {
                if BigUint::from(d) == sd && *sec == 128 {
                    c.check(hash_u32_to_curve::<C>(d, *sec) == q && hash_usize_to_curve::<C>(d as usize, *sec) == q, &s("rescue-wrappers"), || format!("{}", sd));
                }
            }
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or("C03".into());
    let c = Ctx::new(&id);
    let mut jobs: Vec<(String, fn(&Ctx))> = Vec::new();
    macro_rules! each { ($f:ident) => { each!(@ $f; Tweedledee, Tweedledum, Pallas, Vesta, Bls12377) }; (@ $f:ident; $($t:ident),*) => { $( jobs.push((format!("{}:{}", stringify!($f), stringify!($t)), $f::<$t>)); )* } }
    macro_rules! halo { ($f:ident) => { each!(@ $f; Tweedledee, Tweedledum, Pallas, Vesta) } }
    c.assume("num::BigUint arithmetic and the chord-and-tangent reference in harness/src/refs.rs are correct");
    match id.as_str() {
        "C03" => {
            each!(c03);
            halo!(c03_endo);
            for t in &["Tweedledee", "Tweedledum", "Pallas", "Vesta", "Bls12377"] {
                c.require(&format!("pairs:{}", t), 1000);
            }
        }
        "C04" => {
            each!(c04);
            halo!(c04_endo);
            for t in &["Tweedledee", "Tweedledum", "Pallas", "Vesta", "Bls12377"] {
                c.require(&format!("msm:{}", t), 40);
                c.require(&format!("sum:{}", t), 60);
            }
        }
        "C08" => {
            each!(c08);
            for t in &["Tweedledee", "Tweedledum", "Pallas", "Vesta", "Bls12377"] {
                c.require(&format!("blake:{}", t), 500);
            }
        }
        _ => panic!("unknown property"),
    }
    jobs.into_par_iter().for_each(|(n, f)| c.section(&n, |c| f(c)));
    c.finish()
}
