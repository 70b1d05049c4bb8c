//! Random satisfied circuits to prove things about.
use crate::big::*;
use crate::refs::*;
use crate::zk::*;
use crate::*;
use num::BigUint;
use plonky::*;
use rand::Rng;

pub struct Made<C: HaloCurve> {
    pub circ: Circuit<C>,
    pub e: Enforced<SF<C>>,
    pub wit: Witness<SF<C>>,
    pub rows: Vec<Vec<SF<C>>>,
    pub pis: Vec<SF<C>>,
    pub vk: VerificationKey<C>,
    pub inputs: Vec<(Target<SF<C>>, SF<C>)>,
    pub gates: Vec<&'static str>,
    pub text: String,
}

/// What a circuit is made of.
#[derive(Clone, Debug)]
pub struct Recipe {
    pub sec: usize,
    pub npis: usize,
    /// step kinds of `Dag::step_kind`; 19: square root, 30: curve operations, 31: a Rescue hash, 32: buffers only,
    /// 33: scalar multiplication
    pub steps: Vec<usize>,
    pub pad: usize,
}

pub fn convertible<C: HaloCurve>(v: SF<C>) -> bool {
    C::try_convert_s2b(v).is_ok()
}

pub fn make<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(rng: &mut R, rc: &Recipe) -> Result<Made<C>, String>
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut last = String::new();
    for _ in 0..20 {
        let mut d: Dag<C> = Dag::new(rc.sec);
        let curve = RefCurve::of::<I>();
        let built = guard(|| {
            // a few private values, so that gadgets have something to work on, and the public inputs
            for _ in 0..2 {
                let v = uf(rng);
                d.input(false, v);
            }
            for _ in 0..rc.npis {
                let v: SF<C> = if rng.gen_range(0, 5) == 0 { SF::<C>::from_canonical_u64(rng.gen_range(0, 3)) } else { uf(rng) };
                d.input(true, v);
            }
            for &s in &rc.steps {
                match s {
                    30 => {
                        let q = curve.mul(&BigUint::from(rng.gen_range(2u64, 1 << 40)), &pt::<I>(&I::GENERATOR_AFFINE));
                        let q2 = curve.mul(&BigUint::from(rng.gen_range(1u64 << 41, 1 << 50)), &pt::<I>(&I::GENERATOR_AFFINE));
                        let (a, a2): (AffinePoint<I>, AffinePoint<I>) = (aff(&q), aff(&q2));
                        let t = AffinePointTarget { x: d.input(false, a.x), y: d.input(false, a.y) };
                        let t2 = d.b.constant_affine_point::<I>(a2);
                        d.b.curve_assert_valid::<I>(t);
                        let s = d.b.curve_add::<I>(t, t2);
                        let dbl = d.b.curve_double::<I>(t);
                        let sub = d.b.curve_sub::<I>(t, t2);
                        for (t, v) in &[(s, curve.add(&q, &q2)), (dbl, curve.add(&q, &q)), (sub, curve.add(&q, &curve.neg(&q2)))] {
                            let v: AffinePoint<I> = aff(v);
                            d.pool.push((t.x, v.x));
                            d.pool.push((t.y, v.y));
                        }
                    }
                    31 => {
                        let n = rng.gen_range(1, 5);
                        let ins: Vec<_> = (0..n).map(|_| d.pick(rng)).collect();
                        let h = d.b.rescue_hash_n_to_1(&ins.iter().map(|x| x.0).collect::<Vec<_>>());
                        let v = rescue_hash_n_to_1(ins.iter().map(|x| x.1).collect(), rc.sec);
                        d.pool.push((h, v));
                    }
                    32 => d.b.add_gate_no_constants(BufferGate::new(d.b.num_gates())),
                    33 => {
                        let q = curve.mul(&BigUint::from(rng.gen_range(2u64, 1 << 40)), &pt::<I>(&I::GENERATOR_AFFINE));
                        let a: AffinePoint<I> = aff(&q);
                        let p = d.b.constant_affine_point::<I>(a);
                        let v: SF<C> = SF::<C>::mk(&BigUint::from(rng.gen_range(2u64, 1 << 60)));
                        let s = d.input(false, v);
                        let r = d.b.curve_mul::<I>(CurveMulOp { scalar: s, point: p });
                        let w: AffinePoint<I> = aff(&curve.mul(&v.val(), &q));
                        d.pool.push((r.x, w.x));
                        d.pool.push((r.y, w.y));
                    }
                    k => {
                        d.step_kind(rng, k);
                    }
                }
            }
            while d.b.num_gates() < rc.pad {
                d.b.add_gate_no_constants(BufferGate::new(d.b.num_gates()));
            }
        });
        if let Err(e) = built {
            return Err(format!("building {:?}: {}", rc, e));
        }
        if !d.pis.iter().all(|&v| convertible::<C>(v)) {
            last = "public inputs not convertible".into();
            continue;
        }
        let pis = d.pis.clone();
        let pw = d.partial();
        let inputs = d.inputs.clone();
        let circ = guard(|| d.b.build()).map_err(|e| format!("build {:?}: {}", rc, e))?;
        let wit = guard(|| circ.generate_witness(pw)).map_err(|e| format!("generate_witness {:?}: {}", rc, e))?;
        let e = decode_sigma(&circ).map_err(|e| format!("sigma {:?}: {}", rc, e))?;
        let rows = rows_of(&wit, circ.degree());
        let vk = circ.to_vk();
        let mut gates: Vec<&'static str> = circ.gate_constants.iter().map(|k| gate_name(k)).collect();
        gates.sort();
        gates.dedup();
        let text = format!("{:?} degree {} pis {}", rc, circ.degree(), pis.len());
        return Ok(Made { circ, e, wit, rows, pis, vk, inputs, gates, text });
    }
    Err(last)
}

// Alterations of single parts

pub fn add_g<C: HaloCurve>(p: AffinePoint<C>) -> AffinePoint<C> {
    (p.to_projective() + C::GENERATOR_AFFINE.to_projective()).to_affine()
}

pub fn neg_pt<C: HaloCurve>(p: AffinePoint<C>) -> AffinePoint<C> {
    let mut q = p;
    q.y = C::BaseField::ZERO - q.y;
    q
}

pub fn alter_pt<C: HaloCurve>(x: &mut AffinePoint<C>, op: usize, other: AffinePoint<C>) -> &'static str {
    let one = <C::BaseField as Field>::ONE;
    match op {
        0 => { *x = add_g(*x); "plus generator" }
        1 => { *x = neg_pt(*x); "negated" }
        2 => { *x = AffinePoint::ZERO; "identity" }
        3 => { x.x = x.x + one; "off the curve (x + 1)" }
        4 => { x.y = x.y + one; "off the curve (y + 1)" }
        5 => { *x = C::GENERATOR_AFFINE; "generator" }
        6 => { *x = other; "of another proof" }
        7 => { x.zero = !x.zero; "identity flag flipped" }
        8 => { x.x = C::BaseField::ZERO; x.y = C::BaseField::ZERO; x.zero = false; "(0, 0)" }
        9 => { *x = x.endomorphism(); "endomorphism image" }
        10 => { *x = x.to_projective().double().to_affine(); "doubled" }
        _ => { std::mem::swap(&mut x.x, &mut x.y); "coordinates swapped" }
    }
}

pub fn alter_el<F: FieldSpec>(x: &mut F, op: usize, other: F, rng: &mut R) -> &'static str {
    match op {
        0 => { *x = *x + F::ONE; "plus one" }
        1 => { *x = F::ZERO; "zero" }
        2 => { *x = F::ZERO - *x; "negated" }
        3 => { *x = uf(rng); "random" }
        4 => { *x = other; "of another proof" }
        5 => { *x = F::mk(&(F::p() - 1u32)); "minus one" }
        6 => { *x = *x + *x; "doubled" }
        _ => { *x = F::ONE; "one" }
    }
}

