//! C25: the parts of in-circuit verification. Most are private: they are observed when the library is built with
//! `--cfg plonky_hooks` (see recur.sh), otherwise only the population of targets is.
#![cfg_attr(not(plonky_hooks), allow(dead_code, unused_imports))]
use num::{BigUint, One, Zero};
#[cfg(plonky_hooks)]
use plonky::hooks::*;
use plonky::plonk_challenger::Challenger;
use plonky::*;
use rand::Rng;
use std::sync::Arc;
use vmon::big::*;
use vmon::refs::*;
use vmon::work::*;
use vmon::zk::*;
use vmon::*;

fn any<F: FieldSpec>(rng: &mut R) -> F {
    match rng.gen_range(0, 6) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::mk(&hostile(rng, F::pr())),
        _ => uf(rng),
    }
}

fn ipow<F: FieldSpec>(x: F, k: usize) -> F {
    let mut r = F::ONE;
    for _ in 0..k {
        r = r * x;
    }
    r
}

fn rinv<F: FieldSpec>(x: F) -> F {
    F::mk(&inv(&x.val(), F::pr()))
}

fn rpt<I: HaloCurve>(rng: &mut R) -> AffinePoint<I>
where
    I::BaseField: FieldSpec,
    SF<I>: FieldSpec,
{
    let rc = RefCurve::of::<I>();
    aff(&rc.mul(&BigUint::from(rng.gen_range(2u64, u64::max_value())), &pt::<I>(&I::GENERATOR_AFFINE)))
}

/// Observe a finished circuit: honest inputs, further honest inputs, and cheating.
fn watch<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, tag: &str, d: Dag<C>, more: &[Vec<(Target<SF<C>>, SF<C>)>], rng: &mut R, attacks: usize)
where
    SF<C>: FieldSpec,
{
    let Dag { b, claims, inputs, pis, .. } = d;
    match guard(|| b.build()) {
        Ok(circ) => {
            probe::<C, I>(c, tag, &circ, &claims, &inputs, &pis, rng, &ProbeOpts { solver_attacks: attacks, wire_attacks: attacks / 2 });
            honest_rounds::<C, I>(c, tag, &circ, &claims, more);
        }
        Err(e) => c.viol(&format!("{}/build-crash", tag), e),
    }
}

/// Random histories of observations and requests.
#[cfg(plonky_hooks)]
fn transcript<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("transcript{}", name));
    for it in 0..c.n(3, 60) {
        if !c.time_left() {
            return;
        }
        let sec = [128, 80, 160, 100][it % 4];
        let rr = Arc::new(RefRescue::<SF<C>>::new(4, sec));
        let mut d: Dag<C> = Dag::new(sec);
        let mut ins: Vec<Target<SF<C>>> = vec![];
        let mut hist: Vec<(usize, usize)> = vec![]; // how many observed, how many drawn after them
        let mut outs: Vec<Target<SF<C>>> = vec![];
        let mut text = String::new();
        let budget = c.n(22, 60);
        let r = guard(|| {
            let mut t = Transcript::<SF<C>>::new(&mut d.b);
            let mut cost = 0;
            let steps = rng.gen_range(2, 12);
            for s in 0..steps {
                if cost > budget {
                    break;
                }
                // also: challenges before anything is observed, observations of nothing
                let kind = if s == 0 && it % 3 == 0 { 5 } else { rng.gen_range(0, 10) };
                let mut fresh: Vec<Target<SF<C>>> = vec![];
                let mut drawn: Vec<Target<SF<C>>> = vec![];
                match kind {
                    0 | 1 => {
                        let v = any(&mut rng);
                        let x = d.input(rng.gen_range(0, 4) == 0, v);
                        t.observe_element(x);
                        fresh.push(x);
                    }
                    2 | 3 => {
                        for _ in 0..rng.gen_range(0, 9) {
                            let v = any(&mut rng);
                            fresh.push(if !ins.is_empty() && rng.gen_range(0, 5) == 0 { ins[rng.gen_range(0, ins.len())] } else { d.input(false, v) });
                        }
                        t.observe_elements(&fresh);
                    }
                    4 => {
                        let n = rng.gen_range(0, 4);
                        let ps: Vec<AffinePointTarget<I>> = (0..n)
                            .map(|_| {
                                let p: AffinePoint<I> = rpt(&mut rng);
                                AffinePointTarget { x: d.input(false, p.x), y: d.input(false, p.y) }
                            })
                            .collect();
                        if n == 1 {
                            t.observe_point(ps[0]);
                        } else {
                            t.observe_points(&ps);
                        }
                        for p in &ps {
                            fresh.push(p.x);
                            fresh.push(p.y);
                        }
                    }
                    5 | 6 => drawn = t.get_1(&mut d.b),
                    7 => drawn = t.get_2(&mut d.b),
                    8 => drawn = t.get_3(&mut d.b),
                    _ => drawn = t.get_n(&mut d.b, rng.gen_range(0, 8)),
                }
                text += &format!("{}+{}-{} ", kind, fresh.len(), drawn.len());
                cost += fresh.len() / 3 + drawn.len() / 3 + 1;
                hist.push((fresh.len(), drawn.len()));
                ins.extend(fresh);
                outs.extend(drawn);
            }
            let last = t.get_1(&mut d.b);
            hist.push((0, 1));
            outs.extend(last);
        });
        if let Err(e) = r {
            c.viol(&format!("transcript/{}/crash", name), e);
            continue;
        }
        c.ev("history", &(it, name, &text), true);
        c.sample("history", || format!("{} security {}: {}", name, sec, text));
        let h2 = hist.clone();
        d.claim("transcript", ins, outs, move |v| {
            let mut want = vec![];
            let mut r = RefDuplex::new();
            let mut native = Challenger::<SF<C>>::new(sec);
            let mut k = 0;
            let mut agree = true;
            for &(o, g) in &h2 {
                for _ in 0..o {
                    r.observe(v[k]);
                    native.observe_element(v[k]);
                    k += 1;
                }
                for _ in 0..g {
                    let x = r.draw(&rr);
                    agree &= x == native.get_challenge();
                    want.push(x);
                }
            }
            if agree { Expect::Outs(want) } else { Expect::False }
        });
        let more: Vec<Vec<_>> = (0..c.n(2, 6)).map(|_| d.inputs.iter().map(|&(t, _)| (t, any(&mut rng))).collect()).collect();
        watch::<C, I>(c, &format!("transcript/{}", name), d, &more, &mut rng, c.n(60, 600));
    }
}

/// Powers, weighted sums, composite evaluations and the polynomial g.
#[cfg(plonky_hooks)]
fn algebra<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("algebra{}", name));
    for it in 0..c.n(4, 80) {
        if !c.time_left() {
            return;
        }
        let mut d: Dag<C> = Dag::new(128);
        let mut nonzero: Vec<Target<SF<C>>> = vec![];
        let r = guard(|| {
            for k in 0..7usize {
                // small ones, those of the size of all openings and more, and others
                let n = match it { 0 => k, 1 => rng.gen_range(28, 45), _ => rng.gen_range(0, 22) };
                let v = any(&mut rng);
                let x = d.input(false, v);
                match k {
                    0 => {
                        let o = powers(&mut d.b, x, n);
                        c.check(o.len() == n, &format!("algebra/{}/powers-length", name), || format!("asked {} got {}", n, o.len()));
                        d.claim("powers", vec![x], o, move |v| Expect::Outs((0..n).map(|k| ipow(v[0], k)).collect()));
                    }
                    1 | 2 | 3 => {
                        let mut ts = vec![];
                        for _ in 0..n {
                            let v = any(&mut rng);
                            ts.push(if !ts.is_empty() && rng.gen_range(0, 6) == 0 { ts[rng.gen_range(0, ts.len())] } else { d.input(false, v) });
                        }
                        if k == 3 {
                            // more coefficients than terms is how the verifier calls it
                            let mut cs = vec![];
                            for _ in 0..n + rng.gen_range(0, 3) {
                                let v = any(&mut rng);
                                cs.push(d.input(false, v));
                            }
                            let o = combine_with_coefficients(&mut d.b, &ts, &cs);
                            let mut ins = ts.clone();
                            ins.extend(cs);
                            d.claim("combine_with_coefficients", ins, vec![o], move |v| {
                                let mut s = SF::<C>::ZERO;
                                for i in 0..n {
                                    s = s + v[i] * v[n + i];
                                }
                                Expect::Outs(vec![s])
                            });
                        } else {
                            let o = if k == 1 { combine_with_powers(&mut d.b, &ts, x) } else { composite_evaluation(&mut d.b, &ts, x) };
                            let mut ins = ts.clone();
                            ins.push(x);
                            d.claim(if k == 1 { "combine_with_powers" } else { "composite_evaluation" }, ins, vec![o], move |v| {
                                let mut s = SF::<C>::ZERO;
                                for i in 0..n {
                                    s = s + v[i] * ipow(v[n], i);
                                }
                                Expect::Outs(vec![s])
                            });
                        }
                    }
                    _ => {
                        let n = n % 12;
                        let mut us = vec![];
                        for _ in 0..n {
                            let v = loop {
                                let v: SF<C> = any(&mut rng);
                                if !v.is_zero() {
                                    break v;
                                }
                            };
                            let t = d.input(false, v);
                            nonzero.push(t);
                            us.push(t);
                        }
                        let o = g_evaluation(&mut d.b, x, &us);
                        let mut ins = us.clone();
                        ins.push(x);
                        d.claim("g_evaluation", ins, vec![o], move |v| match ref_g(v[n], &v[..n]) {
                            Some(g) => Expect::Outs(vec![g]),
                            None => Expect::False,
                        });
                    }
                }
            }
        });
        if let Err(e) = r {
            c.viol(&format!("algebra/{}/crash", name), e);
            continue;
        }
        let more: Vec<Vec<_>> = (0..c.n(20, 60))
            .map(|_| {
                d.inputs
                    .iter()
                    .map(|&(t, _)| {
                        let mut v: SF<C> = any(&mut rng);
                        while v.is_zero() && nonzero.contains(&t) {
                            v = any(&mut rng);
                        }
                        (t, v)
                    })
                    .collect()
            })
            .collect();
        watch::<C, I>(c, &format!("algebra/{}", name), d, &more, &mut rng, c.n(150, 1000));
    }
}

/// g(X) of the Halo paper: the product of u_i X^(2^i) + 1/u_i, the last challenge going with X itself.
fn ref_g<F: FieldSpec>(x: F, us: &[F]) -> Option<F> {
    let mut p = F::ONE;
    let mut xp = x;
    for u in us.iter().rev() {
        if u.is_zero() {
            return None;
        }
        p = p * (*u * xp + rinv(*u));
        xp = xp * xp;
    }
    Some(p)
}

/// The evaluations of the old proofs' polynomials at zeta.
#[cfg(plonky_hooks)]
fn old_evaluations<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("old{}", name));
    for it in 0..c.n(2, 40) {
        let (k, m) = [(2, 3), (1, 7), (3, 2), (0, 4), (1, 0)][(it + c.seed as usize) % 5];
        let mut d: Dag<C> = Dag::new(128);
        let zv: SF<C> = uf(&mut rng);
        let zeta = d.input(false, zv);
        let mut olds = vec![];
        let mut opens = vec![];
        for _ in 0..k {
            let vs: Vec<SF<C>> = (0..m).map(|_| uf(&mut rng)).collect();
            let us: Vec<_> = vs.iter().map(|&v| d.input(false, v)).collect();
            opens.push((us.clone(), ref_g(zv, &vs).unwrap()));
            olds.push(OldProofTarget::<I> { halo_g: d.b.add_virtual_point_target(), halo_us: Target::convert_slice(&us) });
        }
        let o: Vec<_> = opens.iter().map(|x| d.input(false, x.1)).collect();
        let mut spare = |d: &mut Dag<C>, n: usize| -> Vec<Target<SF<C>>> { (0..n).map(|_| d.b.add_virtual_target()).collect() };
        let set = OpeningSetTarget::<C> {
            o_constants: spare(&mut d, 6),
            o_plonk_sigmas: spare(&mut d, NR),
            o_wires: spare(&mut d, NW),
            o_plonk_z: d.b.add_virtual_target(),
            o_plonk_t: spare(&mut d, 7),
            o_old_proofs: o.clone(),
        };
        let r = guard(|| old_proof_evaluation::<C, I>(&mut d.b, &olds, &set, zeta));
        if let Err(e) = r {
            c.viol(&format!("old/{}/crash", name), e);
            continue;
        }
        for (i, (us, _)) in opens.iter().enumerate() {
            let mut ins = us.clone();
            ins.push(zeta);
            ins.push(o[i]);
            let m = us.len();
            d.claim("old_proof_evaluation", ins, vec![], move |v| match ref_g(v[m], &v[..m]) {
                Some(g) if g == v[m + 1] => Expect::Outs(vec![]),
                _ => Expect::False,
            });
        }
        watch::<C, I>(c, &format!("old/{}", name), d, &[], &mut rng, c.n(300, 3000));
    }
}

/// The values an assumption check looks at.
#[derive(Clone)]
struct Av<F> {
    beta: F,
    gamma: F,
    alpha: F,
    zeta: F,
    k: Vec<F>,
    s: Vec<F>,
    l: Vec<F>,
    r: Vec<F>,
    b: Vec<F>,
    z: F,
    zr: F,
    t: Vec<F>,
}

impl<F: FieldSpec> Av<F> {
    fn flat(&self) -> Vec<F> {
        let mut v = vec![self.beta, self.gamma, self.alpha, self.zeta, self.z, self.zr];
        for x in &[&self.k, &self.s, &self.l, &self.r, &self.b, &self.t] {
            v.extend(x.iter().copied());
        }
        v
    }
    fn unflat(v: &[F]) -> Self {
        let mut k = 6;
        let mut take = |n: usize| {
            k += n;
            v[k - n..k].to_vec()
        };
        Av { beta: v[0], gamma: v[1], alpha: v[2], zeta: v[3], z: v[4], zr: v[5], k: take(6), s: take(NR), l: take(NW), r: take(NW), b: take(NW), t: v[6 + 6 + NR + 3 * NW..].to_vec() }
    }
    /// Both sides of the quotient identity, None where zeta lies in the subgroup (no verifier gets there).
    fn identity<C: HaloCurve<ScalarField = F>, I: HaloCurve<BaseField = F>>(&self, pow: usize, shifts: &[F]) -> Option<(F, F)> {
        let mut zd = self.zeta;
        for _ in 0..pow {
            zd = zd * zd;
        }
        let zh = zd - F::ONE;
        if zh.is_zero() {
            return None;
        }
        let n = F::mk(&(BigUint::one() << pow));
        let l1 = zh * rinv(n * (self.zeta - F::ONE));
        let (mut f, mut g) = (F::ONE, F::ONE);
        for i in 0..NR {
            f = f * (self.l[i] + self.beta * shifts[i] * self.zeta + self.gamma);
            g = g * (self.l[i] + self.beta * self.s[i] + self.gamma);
        }
        let mut terms = vec![l1 * (self.z - F::ONE), f * self.z - g * self.zr];
        terms.extend(evaluate_all_constraints::<C, I>(&self.k, &self.l, &self.r, &self.b));
        let mut sum = F::ZERO;
        for t in terms.iter().rev() {
            sum = sum * self.alpha + *t;
        }
        let mut q = F::ZERO;
        for t in self.t.iter().rev() {
            q = q * zd + *t;
        }
        Some((sum * rinv(zh), q))
    }
}

/// The quotient identity over an inner proof's data: made up data, and the data of real proofs.
#[cfg(plonky_hooks)]
fn assumptions<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("assumptions{}", name));
    for it in 0..c.n(1, 12) {
        if !c.time_left() {
            return;
        }
        // a real proof over C, its challenges and openings
        let rc = Recipe { sec: 128, npis: [2, 0, 10, 1][it % 4], steps: [vec![2, 4, 9, 19], vec![30, 12], vec![31, 5]][(it + c.seed as usize) % 3].clone(), pad: 0 };
        let real = make::<C, I>(&mut rng, &rc).and_then(|m| {
            for _ in 0..40 {
                if let Ok(Ok(p)) = guard(|| m.circ.generate_proof::<I>(&m.wit, &[], true)) {
                    let ch = p.get_challenges(&m.pis, &[], rc.sec).map_err(|e| format!("{:?}", e))?;
                    return Ok((m.circ.degree_pow(), p, ch, m.e.shifts.clone()));
                }
            }
            Err("no proof in 40 attempts".into())
        });
        let (pow, p, ch, shifts) = match real {
            Ok(x) => x,
            Err(e) => {
                c.note(format!("assumptions {}: {}", name, e));
                continue;
            }
        };
        let av = Av {
            beta: ch.beta,
            gamma: ch.gamma,
            alpha: ch.alpha,
            zeta: ch.zeta,
            k: p.o_local.o_constants.clone(),
            s: p.o_local.o_plonk_sigmas.clone(),
            l: p.o_local.o_wires.clone(),
            r: p.o_right.o_wires.clone(),
            b: p.o_below.o_wires.clone(),
            z: p.o_local.o_plonk_z,
            zr: p.o_right.o_plonk_z,
            t: p.o_local.o_plonk_t.clone(),
        };
        match av.identity::<C, I>(pow, &shifts) {
            Some((a, b)) if a == b => c.ev("real-proof-identity", &(it, name), true),
            _ => {
                c.note(format!("assumptions {}: the data of a real proof fails the stated identity", name));
                continue;
            }
        }
        for (w, pow) in [(0, pow), (1, [1, 3, 14, 9][(it + c.seed as usize) % 4])].iter().copied() {
            let mut av = av.clone();
            if w == 1 {
                // made up data for another degree, the quotient made to fit
                let n = av.flat().len();
                av = Av::unflat(&(0..n).map(|_| uf(&mut rng)).collect::<Vec<_>>());
                fit::<C, I>(&mut av, pow, &shifts);
            }
            let mut d: Dag<C> = Dag::new(128);
            let ts: Vec<_> = av.flat().into_iter().map(|v| d.input(false, v)).collect();
            let a = Av::<SF<C>>::unflat(&av.flat());
            let mut k = 6;
            let mut take = |n: usize| {
                k += n;
                ts[k - n..k].to_vec()
            };
            let a = Assumptions {
                beta: ts[0],
                gamma: ts[1],
                alpha: ts[2],
                zeta: ts[3],
                o_plonk_z_local: ts[4],
                o_plonk_z_right: ts[5],
                o_constants: take(6),
                o_plonk_sigmas: take(NR),
                o_local_wires: take(NW),
                o_right_wires: take(NW),
                o_below_wires: take(NW),
                o_plonk_t: take(a.t.len()),
                halo_us: vec![],
                old_proofs: vec![],
            };
            if let Err(e) = guard(|| check_assumptions::<C, I>(&mut d.b, pow, &a)) {
                c.viol(&format!("assumptions/{}/crash", name), e);
                continue;
            }
            c.ev("assumption-circuit", &(w, pow, d.b.num_gates()), true);
            let sh = shifts.clone();
            d.claim("assumptions", ts.clone(), vec![], move |v| match Av::unflat(v).identity::<C, I>(pow, &sh) {
                Some((a, b)) if a == b => Expect::Outs(vec![]),
                Some(_) => Expect::False,
                None => Expect::Any,
            });
            let more: Vec<Vec<_>> = (0..c.n(6, 40))
                .map(|j| {
                    let n = ts.len();
                    let mut x = Av::unflat(&(0..n).map(|i| if i == 3 || j % 2 == 0 { uf(&mut rng) } else { any(&mut rng) }).collect::<Vec<_>>());
                    fit::<C, I>(&mut x, pow, &shifts);
                    ts.iter().copied().zip(x.flat()).collect()
                })
                .collect();
            watch::<C, I>(c, &format!("assumptions/{}", name), d, &more, &mut rng, c.n(300, 4000));
        }
    }
}

/// Make the identity hold by the choice of one quotient component.
fn fit<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(a: &mut Av<SF<C>>, pow: usize, shifts: &[SF<C>])
where
    SF<C>: FieldSpec,
{
    if let Some((x, y)) = a.identity::<C, I>(pow, shifts) {
        a.t[0] = a.t[0] + x - y;
    }
}

/// The final equation of the opening argument.
#[cfg(plonky_hooks)]
fn final_equations<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("final{}", name));
    let rc = RefCurve::of::<I>();
    for it in 0..c.n(1, 6) {
        if !c.time_left() {
            return;
        }
        let pow = [3, 7, 1][(it + c.seed as usize) % 3];
        let sec = [128, 100][it % 2];
        let h = pt::<I>(&hash_usize_to_curve::<I>(1 << pow, sec));
        let mut d: Dag<C> = Dag::new(sec);
        let xy = |q: &Pt| -> [SF<C>; 2] {
            let a: AffinePoint<I> = aff(q);
            [a.x, a.y]
        };
        // honest values: r is whatever makes the equation true
        let honest = |rng: &mut R| -> Vec<SF<C>> {
            let u = pt::<I>(&rpt::<I>(rng));
            let q = pt::<I>(&rpt::<I>(rng));
            let g = pt::<I>(&rpt::<I>(rng));
            let mut sc: Vec<SF<C>> = (0..4).map(|i| if i == 0 { uf(rng) } else if rng.gen() { uf(rng) } else { SF::<C>::mk(&BigUint::from(rng.gen_range(2u64, 1 << 40))) }).collect();
            for x in sc.iter_mut() {
                // the multiplication gadget covers scalars below 2^254
                while x.val().bits() > 254 || x.val() < BigUint::from(2u32) {
                    *x = uf(rng);
                }
            }
            let rhs = rc.add(&rc.mul(&sc[2].val(), &rc.add(&g, &rc.mul(&sc[1].val(), &u))), &rc.mul(&sc[3].val(), &h));
            let r = rc.add(&rhs, &rc.neg(&rc.mul(&sc[0].val(), &q)));
            let mut v = sc;
            for p in &[u, q, g, r] {
                v.extend(&xy(p));
            }
            v
        };
        let v0 = honest(&mut rng);
        let ts: Vec<_> = v0.iter().map(|&v| d.input(false, v)).collect();
        let p = |k: usize| AffinePointTarget::<I> { x: ts[4 + 2 * k], y: ts[5 + 2 * k] };
        let (u, q, g, r) = (p(0), p(1), p(2), p(3));
        let proof = proof_targets::<C, I>(&mut d.b, pow, 0);
        let proof = ProofTarget { halo_g: g, schnorr_proof: SchnorrProofTarget { r, z1: ts[2].convert(), z2: ts[3].convert() }, ..proof };
        if let Err(e) = guard(|| final_equation::<C, I>(&mut d.b, &proof, u, q, ts[1], ts[0], sec)) {
            c.viol(&format!("final/{}/crash", name), e);
            continue;
        }
        c.ev("final-equation-circuit", &(pow, d.b.num_gates()), true);
        let rc2 = RefCurve::of::<I>();
        let h2 = h.clone();
        d.claim("final_equation", ts.clone(), vec![], move |v| {
            let get = |k: usize| -> Pt { pt::<I>(&AffinePoint::<I> { x: v[4 + 2 * k], y: v[5 + 2 * k], zero: false }) };
            let (u, q, g, r) = (get(0), get(1), get(2), get(3));
            if [&u, &q, &g, &r].iter().any(|p| !rc2.on(p)) || v[..4].iter().any(|x| x.val().bits() > 254 || x.is_zero()) {
                return Expect::Any;
            }
            let lhs = rc2.add(&rc2.mul(&v[0].val(), &q), &r);
            let rhs = rc2.add(&rc2.mul(&v[2].val(), &rc2.add(&g, &rc2.mul(&v[1].val(), &u))), &rc2.mul(&v[3].val(), &h2));
            if lhs == rhs { Expect::Outs(vec![]) } else { Expect::False }
        });
        let more: Vec<Vec<_>> = (0..c.n(4, 12)).map(|_| ts.iter().copied().zip(honest(&mut rng)).collect()).collect();
        let Dag { b, claims, inputs, .. } = d;
        let circ = match guard(|| b.build()) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("final/{}/build-crash", name), e);
                continue;
            }
        };
        honest_rounds::<C, I>(c, &format!("final/{}", name), &circ, &claims, &more);
        // each part in turn replaced, everything else answered as well as the circuit's own generators can
        let enf = match decode_sigma(&circ) {
            Ok(e) => e,
            Err(e) => {
                c.viol(&format!("final/{}/sigma", name), e);
                continue;
            }
        };
        let sv = Solver::new(&circ);
        let other = honest(&mut rng);
        let mut lies: Vec<(String, Vec<(Target<SF<C>>, SF<C>)>)> = vec![];
        for i in 0..4 {
            for &x in &[v0[i] + SF::<C>::ONE, other[i], v0[(i + 1) % 4]] {
                if x != v0[i] && x.val().bits() <= 254 {
                    lies.push((format!("scalar {}", i), inputs.iter().map(|&(t, v)| if t == ts[i] { (t, x) } else { (t, v) }).collect()));
                }
            }
        }
        for k in 0..4 {
            for &(x, y) in &[(other[4 + 2 * k], other[5 + 2 * k]), (v0[4 + 2 * k], SF::<C>::ZERO - v0[5 + 2 * k])] {
                lies.push((format!("point {}", k), inputs.iter().map(|&(t, v)| if t == ts[4 + 2 * k] { (t, x) } else if t == ts[5 + 2 * k] { (t, y) } else { (t, v) }).collect()));
            }
        }
        // sides which agree in one coordinate only
        let get = |k: usize| -> Pt { pt::<I>(&AffinePoint::<I> { x: v0[4 + 2 * k], y: v0[5 + 2 * k], zero: false }) };
        let cq = rc.mul(&v0[0].val(), &get(1));
        let side: AffinePoint<I> = aff(&rc.add(&cq, &get(3)));
        let same_y = AffinePoint::<I> { x: side.x * I::ZETA, y: side.y, zero: false };
        for (what, p) in vec![("same x", rc.neg(&pt::<I>(&side))), ("same y", pt::<I>(&same_y))] {
            let r = xy(&rc.add(&p, &rc.neg(&cq)));
            lies.push((what.to_string(), inputs.iter().map(|&(t, v)| if t == ts[10] { (t, r[0]) } else if t == ts[11] { (t, r[1]) } else { (t, v) }).collect()));
        }
        use rayon::prelude::*;
        lies.par_iter().for_each(|(what, inp)| {
            let s = sv.solve(&[], inp, None);
            c.tick();
            let ok = unsat::<C, I>(&circ, &enf, &s.rows, None);
            c.ev("final-equation-lie", &(what, it, name, ok.is_some()), true);
            if ok.is_none() {
                for cl in &claims {
                    if let Err(e) = cl.judge(&|t| sv.read(&s, t)) {
                        c.viol(&format!("final/{}/false-claim-accepted", name), format!("{} replaced: {}", what, e));
                    }
                }
            }
        });
    }
}

fn opening_targets<C: HaloCurve>(b: &mut CircuitBuilder<C>, olds: usize) -> OpeningSetTarget<C> {
    OpeningSetTarget {
        o_constants: b.add_virtual_targets(6),
        o_plonk_sigmas: b.add_virtual_targets(NR),
        o_wires: b.add_virtual_targets(NW),
        o_plonk_z: b.add_virtual_target(),
        o_plonk_t: b.add_virtual_targets(7),
        o_old_proofs: b.add_virtual_targets(olds),
    }
}

fn proof_targets<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(b: &mut CircuitBuilder<C>, pow: usize, olds: usize) -> ProofTarget<C, I> {
    ProofTarget {
        c_wires: b.add_virtual_point_targets(NW),
        c_plonk_z: b.add_virtual_point_target(),
        c_plonk_t: b.add_virtual_point_targets(7),
        o_public_inputs: None,
        o_local: opening_targets(b, olds),
        o_right: opening_targets(b, olds),
        o_below: opening_targets(b, olds),
        halo_l_i: b.add_virtual_point_targets(pow),
        halo_r_i: b.add_virtual_point_targets(pow),
        halo_g: b.add_virtual_point_target(),
        schnorr_proof: SchnorrProofTarget { r: b.add_virtual_point_target(), z1: b.add_virtual_target().convert(), z2: b.add_virtual_target().convert() },
    }
}

/// A proof-shaped value with independent random parts.
fn fake_proof<I: HaloCurve>(rng: &mut R, pow: usize, olds: usize, nt: usize, fits: bool) -> Proof<I>
where
    SF<I>: FieldSpec,
    I::BaseField: FieldSpec,
{
    let el = |rng: &mut R| -> SF<I> {
        loop {
            let v: SF<I> = if rng.gen_range(0, 5) == 0 { SF::<I>::mk(&hostile(rng, SF::<I>::pr())) } else { uf(rng) };
            if !fits || v.val() < *<I::BaseField as FieldSpec>::pr() {
                return v;
            }
        }
    };
    let os = |rng: &mut R| OpeningSet { o_constants: (0..6).map(|_| el(rng)).collect(), o_plonk_sigmas: (0..NR).map(|_| el(rng)).collect(), o_wires: (0..NW).map(|_| el(rng)).collect(), o_plonk_z: el(rng), o_plonk_t: (0..nt).map(|_| el(rng)).collect(), o_old_proofs: (0..olds).map(|_| el(rng)).collect(), o_pi_quotient: el(rng) };
    Proof {
        c_wires: (0..NW).map(|_| rpt(rng)).collect(),
        c_plonk_z: rpt(rng),
        c_plonk_t: (0..nt).map(|_| rpt(rng)).collect(),
        c_pis_quotient: rpt(rng),
        o_local: os(rng),
        o_right: os(rng),
        o_below: os(rng),
        halo_l: (0..pow).map(|_| rpt(rng)).collect(),
        halo_r: (0..pow).map(|_| rpt(rng)).collect(),
        halo_g: rpt(rng),
        schnorr_proof: SchnorrProof { r: rpt(rng), z1: el(rng), z2: el(rng) },
    }
}

fn to_sf<C: HaloCurve, F: FieldSpec>(v: F) -> SF<C>
where
    SF<C>: FieldSpec,
{
    SF::<C>::mk(&v.val())
}

/// Proof targets receive each value of a proof, in the order of the native transcript.
fn population<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("population{}", name));
    for it in 0..c.n(12, 200) {
        let (pow, olds) = (rng.gen_range(0, 9), rng.gen_range(0, 4));
        let mut b = CircuitBuilder::<C>::new(128);
        let t = proof_targets::<C, I>(&mut b, pow, olds);
        let p: Proof<I> = fake_proof::<I>(&mut rng, pow, olds, 7, true);
        let mut w = PartialWitness::new();
        let tag = format!("population/{}", name);
        match guard(|| t.populate_witness(&mut w, p.clone())) {
            Ok(Ok(())) => {}
            e => {
                c.viol(&format!("{}/refused", tag), format!("{:?}", e));
                continue;
            }
        }
        c.ev("populated", &(it, name, pow, olds), true);
        let get = |t: Target<SF<C>>| if w.contains_target(t) { Some(w.get_target(t)) } else { None };
        let at = |what: &str, t: Target<SF<C>>, v: SF<C>| {
            c.check(get(t) == Some(v), &format!("{}/{}", tag, what), || format!("target of {} holds {:?}, the proof {:?}", what, get(t), v));
        };
        let mut count = 0;
        let mut point = |what: &str, t: &AffinePointTarget<I>, v: &AffinePoint<I>| {
            at(what, t.x, v.x);
            at(what, t.y, v.y);
            count += 2;
        };
        for i in 0..NW {
            point("c_wires", &t.c_wires[i], &p.c_wires[i]);
        }
        point("c_plonk_z", &t.c_plonk_z, &p.c_plonk_z);
        for i in 0..7 {
            point("c_plonk_t", &t.c_plonk_t[i], &p.c_plonk_t[i]);
        }
        for i in 0..pow {
            point("halo_l", &t.halo_l_i[i], &p.halo_l[i]);
            point("halo_r", &t.halo_r_i[i], &p.halo_r[i]);
        }
        point("halo_g", &t.halo_g, &p.halo_g);
        point("schnorr r", &t.schnorr_proof.r, &p.schnorr_proof.r);
        at("z1", t.schnorr_proof.z1.convert(), to_sf::<C, _>(p.schnorr_proof.z1));
        at("z2", t.schnorr_proof.z2.convert(), to_sf::<C, _>(p.schnorr_proof.z2));
        count += 2;
        let mut order: Vec<SF<C>> = vec![];
        for (what, ot, ov) in &[("o_local", &t.o_local, &p.o_local), ("o_right", &t.o_right, &p.o_right), ("o_below", &t.o_below, &p.o_below)] {
            let pairs: [(&[Target<SF<C>>], &[SF<I>]); 6] = [(&ot.o_constants, &ov.o_constants), (&ot.o_plonk_sigmas, &ov.o_plonk_sigmas), (&ot.o_wires, &ov.o_wires), (&[ot.o_plonk_z], &[ov.o_plonk_z]), (&ot.o_plonk_t, &ov.o_plonk_t), (&ot.o_old_proofs, &ov.o_old_proofs)];
            for (ts, vs) in pairs.iter() {
                for (t, v) in ts.iter().zip(vs.iter()) {
                    at(what, *t, to_sf::<C, _>(*v));
                    order.push(to_sf::<C, _>(*v));
                    count += 1;
                }
            }
            // one set on its own: the native order, without the public-input quotient that only native proofs have
            let nv: Vec<SF<C>> = { let mut v = ov.to_vec(); v.pop(); v.into_iter().map(to_sf::<C, _>).collect() };
            let tv: Vec<Option<SF<C>>> = ot.to_vec().into_iter().map(get).collect();
            c.check(tv == nv.iter().map(|&v| Some(v)).collect::<Vec<_>>(), &format!("{}/set-order", tag), || format!("{}: {:?} against {:?}", what, tv, nv));
        }
        let tv: Vec<Option<SF<C>>> = t.all_opening_targets().into_iter().map(get).collect();
        c.check(tv == order.iter().map(|&v| Some(v)).collect::<Vec<_>>(), &format!("{}/opening-order", tag), || "openings come in another order than in the native transcript".to_string());
        c.check(t.all_opening_sets().len() == 3, &format!("{}/sets", tag), || format!("{} opening sets", t.all_opening_sets().len()));
        c.check(w.all_populated_targets().len() == count, &format!("{}/count", tag), || format!("{} targets set, {} expected", w.all_populated_targets().len(), count));
        // with openings at the public input gates, those come first
        let mut t2 = proof_targets::<C, I>(&mut b, pow, olds);
        let extra: Vec<OpeningSetTarget<C>> = (0..rng.gen_range(1, 4)).map(|_| opening_targets(&mut b, olds)).collect();
        let want: Vec<_> = extra.iter().map(|s| s.to_vec()).chain([&t2.o_local, &t2.o_right, &t2.o_below].iter().map(|s| s.to_vec())).flatten().collect();
        t2.o_public_inputs = Some(extra);
        c.check(t2.all_opening_targets() == want, &format!("{}/public-input-openings-first", tag), || "another order".to_string());
        // an old proof
        let m = rng.gen_range(0, 8);
        let ot = OldProofTarget::<I> { halo_g: b.add_virtual_point_target(), halo_us: Target::convert_slice(&b.add_virtual_targets(m)) };
        let ov = OldProof::<I> { halo_g: rpt(&mut rng), halo_us: fake_proof::<I>(&mut rng, 0, m, 1, true).o_local.o_old_proofs };
        let mut w: PartialWitness<SF<C>> = PartialWitness::new();
        match guard(|| ot.populate_witness(&mut w_cast::<C, I>(&mut w), &ov)) {
            Ok(Ok(())) => {
                c.ev("old-proof-populated", &(it, m), true);
                let g = w.get_point_target(ot.halo_g);
                c.check(g == ov.halo_g, &format!("{}/old-g", tag), || format!("{:?} for {:?}", g, ov.halo_g));
                for i in 0..m {
                    let t: Target<SF<C>> = ot.halo_us[i].convert();
                    c.check(w.contains_target(t) && w.get_target(t) == to_sf::<C, _>(ov.halo_us[i]), &format!("{}/old-us", tag), || format!("challenge {}", i));
                }
            }
            e => c.viol(&format!("{}/old-refused", tag), format!("{:?}", e)),
        }
        // a value which does not fit the circuit's field is refused, not reduced
        let (ps, pb) = (SF::<I>::pr(), <SF<C> as FieldSpec>::pr());
        if ps > pb {
            let big = SF::<I>::mk(&(ps - 1u32));
            let mut q = p.clone();
            let spot = rng.gen_range(0, 5);
            match spot {
                0 => q.schnorr_proof.z1 = big,
                1 => q.schnorr_proof.z2 = big,
                2 => q.o_local.o_wires[3] = big,
                3 => q.o_right.o_plonk_z = big,
                _ => q.o_below.o_plonk_t[2] = big,
            }
            let mut w = PartialWitness::new();
            let r = guard(|| t.populate_witness(&mut w, q));
            c.ev("unrepresentable-value", &(it, spot), true);
            c.check(matches!(r, Ok(Err(_))), &format!("{}/unrepresentable", tag), || format!("spot {}: {:?}", spot, r));
        }
    }
}

fn w_cast<'a, C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(w: &'a mut PartialWitness<SF<C>>) -> &'a mut PartialWitness<I::BaseField> {
    w
}

/// The whole recursive circuit on a real inner proof. It cannot be satisfied yet (its endomorphism gadget is a known
/// finding), but what it exposes is still determined by its inputs.
#[cfg(plonky_hooks)]
fn whole<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("whole{}", name));
    for it in 0..c.n(2, 4) {
        // the inner circuit is itself a recursive one, with at least as many public inputs as are read from it
        let (pow, olds) = [(2, 1), (3, 0), (1, 2)][(it + c.seed as usize) % 3];
        let npis = 60 + pow + olds * (2 + pow) + 9 * rng.gen_range(0, 2);
        let t0 = std::time::Instant::now();
        let rcirc = match guard(|| recursive_verification_circuit::<C, I>(pow, 128, npis, olds)) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("whole/{}/crash", name), e);
                continue;
            }
        };
        if std::env::var("VMON_TIMES").is_ok() {
            eprintln!("recursive circuit degree {} built in {:?}", rcirc.circuit.degree(), t0.elapsed());
        }
        let mut b = CircuitBuilder::<C>::new(128);
        let _ = &mut b;
        let mut p: Proof<I> = fake_proof::<I>(&mut rng, pow, olds, 7, true);
        p.c_pis_quotient = AffinePoint::ZERO;
        let mut w = PartialWitness::new();
        if !matches!(guard(|| rcirc.proof.populate_witness(&mut w, p.clone())), Ok(Ok(()))) {
            c.viol(&format!("whole/{}/populate", name), "the proof targets refuse a proof of their shape");
            continue;
        }
        let ops: Vec<OldProof<I>> = (0..olds).map(|_| OldProof { halo_g: rpt(&mut rng), halo_us: fake_proof::<I>(&mut rng, 0, pow, 1, true).o_local.o_old_proofs }).collect();
        for (t, v) in rcirc.old_proofs.iter().zip(&ops) {
            if !matches!(guard(|| t.populate_witness(&mut w, v)), Ok(Ok(()))) {
                c.viol(&format!("whole/{}/populate-old", name), "refused");
            }
        }
        let inputs: Vec<_> = w.all_populated_targets().into_iter().map(|t| (t, w.get_target(t))).collect();
        let circ = &rcirc.circuit;
        let sv = Solver::new(circ);
        let s = sv.solve(&[], &inputs, None);
        c.tick();
        let a = exposed(&rcirc.public_inputs);
        // the challenges of the native transcript over the same observations
        let mut ch = Challenger::<SF<C>>::new(128);
        ch.observe_affine_points(&p.c_wires);
        let (beta, gamma) = ch.get_2_challenges();
        ch.observe_affine_point(p.c_plonk_z);
        let alpha = ch.get_challenge();
        ch.observe_affine_points(&p.c_plonk_t);
        let zeta = ch.get_challenge();
        let mut want: Vec<(&str, Target<SF<C>>, SF<C>)> = vec![("beta", a.beta, beta), ("gamma", a.gamma, gamma), ("alpha", a.alpha, alpha), ("zeta", a.zeta, zeta)];
        let mut list = |n: &'static str, ts: &[Target<SF<C>>], vs: &[SF<I>]| {
            c.check(ts.len() == vs.len(), &format!("whole/{}/{}-count", name, n), || format!("{} exposed, {} opened", ts.len(), vs.len()));
            for (t, v) in ts.iter().zip(vs) {
                want.push((n, *t, to_sf::<C, _>(*v)));
            }
        };
        list("o_constants", &a.o_constants, &p.o_local.o_constants);
        list("o_plonk_sigmas", &a.o_plonk_sigmas, &p.o_local.o_plonk_sigmas);
        list("o_local_wires", &a.o_local_wires, &p.o_local.o_wires);
        list("o_right_wires", &a.o_right_wires, &p.o_right.o_wires);
        list("o_below_wires", &a.o_below_wires, &p.o_below.o_wires);
        list("o_plonk_z_local", &[a.o_plonk_z_local], &[p.o_local.o_plonk_z]);
        list("o_plonk_z_right", &[a.o_plonk_z_right], &[p.o_right.o_plonk_z]);
        c.check(a.old_proofs.len() == olds * (2 + pow), &format!("whole/{}/old-count", name), || format!("{}", a.old_proofs.len()));
        for (i, o) in ops.iter().enumerate() {
            let mut vs = vec![o.halo_g.x, o.halo_g.y];
            vs.extend(o.halo_us.iter().map(|&u| to_sf::<C, _>(u)));
            for (j, v) in vs.into_iter().enumerate() {
                want.push(("old_proofs", a.old_proofs[i * (2 + pow) + j], v));
            }
        }
        let enf = match decode_sigma(circ) {
            Ok(e) => e,
            Err(e) => {
                c.viol(&format!("whole/{}/sigma", name), e);
                continue;
            }
        };
        let broken = |rows: &[Vec<SF<C>>]| -> std::collections::HashSet<usize> {
            enf.cycles.iter().enumerate().filter(|(_, cy)| cy.iter().any(|&k| rows[k % enf.n][k / enf.n] != rows[cy[0] % enf.n][cy[0] / enf.n])).map(|x| x.0).collect()
        };
        let base = broken(&s.rows);
        for (n, t, v) in &want {
            let got = sv.read(&s, *t);
            c.ev(&format!("exposed:{}", n), &(it, name, format!("{:?}", t)), true);
            c.check(got == Some(*v), &format!("whole/{}/{}", name, n), || format!("public input {:?} takes {:?}, expected {:?}", t, got, v));
        }
        // a lie in an exposed value must break a copy constraint that held
        let picks: Vec<usize> = (0..c.n(24, 200)).map(|_| rng.gen_range(0, want.len())).collect();
        use rayon::prelude::*;
        picks.par_iter().for_each(|&i| {
            let (n, t, v) = want[i];
            let mut rows = s.rows.clone();
            if let Target::PublicInput(pi) = t {
                let mut k = 0;
                while t != Target::PublicInput(PublicInput::new(k)) {
                    k += 1;
                }
                let _ = pi;
                let wi = sv.pi_wire(k);
                rows[wi.gate][wi.input] = v + SF::<C>::ONE;
                if wi.input >= NR {
                    rows[wi.gate + 1][wi.input - NR] = v + SF::<C>::ONE;
                }
            } else {
                return;
            }
            c.tick();
            let now = broken(&rows);
            c.ev("exposed-lie", &(n, i, it), true);
            c.check(now.difference(&base).next().is_some(), &format!("whole/{}/unbound/{}", name, n), || format!("public input {:?} ({}) can be changed without breaking a copy constraint", t, n));
        });
    }
}

pub fn main() {
    let c = Ctx::new("C25");
    #[cfg(plonky_hooks)]
    c.section("transcript", |c| {
        transcript::<Tweedledee, Tweedledum>(c, "Tweedledee");
        transcript::<Tweedledum, Tweedledee>(c, "Tweedledum");
        transcript::<Pallas, Vesta>(c, "Pallas");
        transcript::<Vesta, Pallas>(c, "Vesta");
    });
    #[cfg(plonky_hooks)]
    c.section("algebra", |c| {
        algebra::<Tweedledee, Tweedledum>(c, "Tweedledee");
        algebra::<Tweedledum, Tweedledee>(c, "Tweedledum");
        algebra::<Pallas, Vesta>(c, "Pallas");
        algebra::<Vesta, Pallas>(c, "Vesta");
    });
    #[cfg(plonky_hooks)]
    c.section("old", |c| {
        old_evaluations::<Tweedledee, Tweedledum>(c, "Tweedledee");
        old_evaluations::<Tweedledum, Tweedledee>(c, "Tweedledum");
        old_evaluations::<Pallas, Vesta>(c, "Pallas");
    });
    #[cfg(plonky_hooks)]
    c.section("assumptions", |c| {
        assumptions::<Tweedledee, Tweedledum>(c, "Tweedledee");
        assumptions::<Tweedledum, Tweedledee>(c, "Tweedledum");
        assumptions::<Vesta, Pallas>(c, "Vesta");
    });
    #[cfg(plonky_hooks)]
    c.section("final", |c| {
        final_equations::<Tweedledum, Tweedledee>(c, "Tweedledum");
        if c.thorough {
            final_equations::<Tweedledee, Tweedledum>(c, "Tweedledee");
            final_equations::<Pallas, Vesta>(c, "Pallas");
        }
    });
    c.section("population", |c| {
        population::<Tweedledee, Tweedledum>(c, "Tweedledee");
        population::<Tweedledum, Tweedledee>(c, "Tweedledum");
        population::<Pallas, Vesta>(c, "Pallas");
        population::<Vesta, Pallas>(c, "Vesta");
    });
    #[cfg(plonky_hooks)]
    c.section("whole", |c| {
        whole::<Tweedledum, Tweedledee>(c, "Tweedledum");
        if c.thorough {
            whole::<Tweedledee, Tweedledum>(c, "Tweedledee");
        }
    });
    #[cfg(plonky_hooks)]
    c.require("history", 4);
    #[cfg(not(plonky_hooks))]
    c.note("the hooks do not compile against this tree: only the population of targets was observed");
    c.require("populated", 4);
    let _ = BigUint::zero();
    c.finish()
}
