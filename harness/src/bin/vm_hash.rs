//! C09: Rescue permutation, sponge and MDS against an independent reference.
//! C10: Fiat-Shamir transcript against a duplex trace specification.
use num::{BigUint, Zero};
use plonky::*;
use plonky::plonk_challenger::Challenger;
use rand::Rng;
use rayon::prelude::*;
use std::collections::HashSet;
use vmon::big::*;
use vmon::refs::*;
use vmon::*;

fn det<F: FieldSpec>(m: &[Vec<BigUint>]) -> BigUint {
    let p = F::pr();
    if m.len() == 1 {
        return m[0][0].clone();
    }
    let mut acc = BigUint::zero();
    for j in 0..m.len() {
        let sub: Vec<Vec<BigUint>> = m[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, v)| v.clone()).collect()).collect();
        let t = mulm(&m[0][j], &det::<F>(&sub), p);
        acc = if j % 2 == 0 { addm(&acc, &t, p) } else { subm(&acc, &t, p) };
    }
    acc
}

fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}

/// The library's MDS matrix is not public; recover it from the permutation's linear behaviour through the
/// in-circuit gate constraints is not needed: equality of permutations on random states pins it down, so the
/// minors are taken on the reference matrix that those equalities confirmed.
fn c09<F: FieldSpec>(c: &Ctx) {
    let s = |x: &str| format!("{}/{}", x, F::NAME);
    let mut rng = c.rng(F::NAME);
    let specials: Vec<BigUint> = boundary_values(F::pr());
    // permutation, several widths and security levels
    let mut outs: std::collections::HashMap<Vec<BigUint>, Vec<BigUint>> = Default::default();
    for &(w, sec, q, t) in [(4usize, 128usize, 60usize, 600usize), (4, 80, 10, 60), (4, 1, 4, 20), (4, 81, 4, 20), (4, 88, 4, 20), (4, 160, 4, 30), (4, 256, 4, 40), (4, 257, 3, 20), (3, 128, 8, 50), (2, 128, 8, 50), (5, 128, 6, 40), (8, 128, 4, 20), (1, 128, 4, 20), (12, 128, 2, 10)].iter() {
        let rr = RefRescue::<F>::new(w, sec);
        let mut states: Vec<Vec<F>> = Vec::new();
        for i in 0..c.n(q, t) {
            let mut st: Vec<F> = (0..w)
                .map(|_| match rng.gen_range(0, 4) {
                    0 => F::mk(&specials[rng.gen_range(0, specials.len())]),
                    1 => F::mk(&hostile(&mut rng, F::pr())),
                    _ => rf(&mut rng),
                })
                .collect();
            if i == 0 {
                st = vec![F::ZERO; w];
            }
            if i == 1 {
                st = vec![-<F as Field>::ONE; w];
            }
            // neighbours: permutations and single-element changes of an earlier state must map elsewhere
            if i % 4 == 3 {
                let prev: &Vec<F> = &states[i - 1];
                st = prev.clone();
                if i % 8 == 3 {
                    let k = rng.gen_range(0, w);
                    st[k] = st[k] + <F as Field>::ONE;
                } else {
                    st.rotate_left(1);
                }
            }
            states.push(st);
        }
        let res: Vec<(Result<Vec<F>, String>, Vec<F>)> = states.par_iter().map(|st| (guard(|| rescue_permutation(st, sec)), rr.permute(st))).collect();
        for (st, (got, want)) in states.iter().zip(res) {
            let key: Vec<BigUint> = st.iter().map(|x| x.val()).collect();
            c.ev(&s("permutation"), &(w, sec, &key), true);
            let d = || format!("{} width {} security {} state {:?}", F::NAME, w, sec, key);
            match got {
                Err(e) => c.viol(&s("permutation-crash"), format!("{}: {}", d(), e)),
                Ok(g) => {
                    c.check(g == want, &s("permutation"), d);
                    if (w, sec) == (4, 128) {
                        let gv: Vec<BigUint> = g.iter().map(|x| x.val()).collect();
                        if let Some(other) = outs.insert(gv, key.clone()) {
                            c.check(other == key, &s("permutation-collision"), || format!("{} and {:?}", d(), other));
                        }
                    }
                }
            }
        }
        // every square submatrix of the confirmed matrix is invertible
        if w <= 8 {
            let m: Vec<Vec<BigUint>> = rr.mds.iter().map(|r| r.iter().map(|x| x.val()).collect()).collect();
            let maxk = if w == 8 { 3 } else { w };
            for k in 1..=maxk {
                for rows in subsets(w, k) {
                    for cols in subsets(w, k) {
                        let sub: Vec<Vec<BigUint>> = rows.iter().map(|&r| cols.iter().map(|&q| m[r][q].clone()).collect()).collect();
                        c.ev(&s("mds-minor"), &(w, &rows, &cols), true);
                        c.check(!det::<F>(&sub).is_zero(), &s("mds-minor"), || format!("{} width {} rows {:?} cols {:?} singular", F::NAME, w, rows, cols));
                    }
                }
            }
        }
    }
    // sponge and wrappers
    let rr = RefRescue::<F>::new(4, 128);
    let mut cases: Vec<(Vec<F>, usize)> = Vec::new();
    for len in 0..c.n(14, 40) {
        for outs in vec![1usize, 2, 3, 4, 6, 7] {
            if (len + outs) % 3 == 0 || c.thorough || len < 5 {
                cases.push(((0..len).map(|_| if rng.gen_range(0, 5) == 0 { F::ZERO } else { rf(&mut rng) }).collect(), outs));
            }
        }
    }
    let res: Vec<_> = cases.par_iter().map(|(i, o)| (guard(|| rescue_sponge(i.clone(), *o, 128)), rr.sponge(i, *o))).collect();
    for ((i, o), (got, want)) in cases.iter().zip(res) {
        let key: Vec<BigUint> = i.iter().map(|x| x.val()).collect();
        c.ev(&s("sponge"), &(&key, o), true);
        match got {
            Err(e) => c.viol(&s("sponge-crash"), format!("{} len {} outs {}: {}", F::NAME, i.len(), o, e)),
            Ok(g) => {
                c.check(g == want, &s("sponge"), || format!("{} len {} outs {}", F::NAME, i.len(), o));
            }
        }
    }
    for k in 0..c.n(10, 60) {
        let i: Vec<F> = (0..k % 9).map(|_| rf(&mut rng)).collect();
        let sec = *[128usize, 80, 160].get(k % 3).unwrap();
        let want = {
            let r2 = RefRescue::<F>::new(4, sec);
            r2.sponge(&i, 3)
        };
        c.ev(&s("wrappers"), &(k, i.len()), true);
        let d = || format!("{} n_to_k len {} sec {}", F::NAME, i.len(), sec);
        c.case(&s("wrappers"), d, || {
            let a = rescue_hash_n_to_1(i.clone(), sec);
            let b = rescue_hash_n_to_2(i.clone(), sec);
            let e = rescue_hash_n_to_3(i.clone(), sec);
            c.check(a == want[0] && b == (want[0], want[1]) && e == (want[0], want[1], want[2]), &s("wrappers"), d);
        });
        let x = rf::<F>(&mut rng);
        c.case(&s("wrappers"), d, || {
            let h = rescue_hash_1_to_1(x, sec);
            c.check(h == RefRescue::<F>::new(4, sec).sponge(&[x], 1)[0], &s("hash-1-to-1"), d);
            if sec == 128 {
                c.check(RescuePrf::default().rand(x) == h, &s("prf"), d);
            }
        });
    }
    c.sample(&s("permutation"), || "states of zeros, minus ones, boundary limbs, random, and neighbours (one element +1, rotated) of earlier states; widths 1..12, security 1..257".into());
}

/// A pseudorandom function anyone can follow: the generator must be its iteration, whatever mix of requests is made.
struct Affine;

impl<F: FieldSpec> PRF<F> for Affine {
    fn rand(&self, x: F) -> F {
        x * x + x + F::mk(&BigUint::from(7u32))
    }
}

fn c09_generator<F: FieldSpec>(c: &Ctx) {
    let s = |x: &str| format!("{}/{}", x, F::NAME);
    let mut rng = c.rng(&format!("generator{}", F::NAME));
    for k in 0..c.n(24, 400) {
        let seed: F = if k == 0 { F::ZERO } else { rf(&mut rng) };
        let rescue = k % 2 == 0;
        let rr = RefRescue::<F>::new(4, 128);
        let step = |x: F| -> F { if rescue { rr.sponge(&[x], 1)[0] } else { Affine.rand(x) } };
        let mut gen: Box<dyn PRG<F>> = match (rescue, seed.is_zero()) {
            (true, true) => Box::new(PRFBasedPRG::unseeded(RescuePrf::default())),
            (true, false) => Box::new(PRFBasedPRG::seeded(RescuePrf::default(), seed)),
            (false, true) => Box::new(PRFBasedPRG::unseeded(Affine)),
            (false, false) => Box::new(PRFBasedPRG::seeded(Affine, seed)),
        };
        let mut state = seed;
        let mut text = format!("{} rescue {} seed {:?}:", F::NAME, rescue, seed);
        for _ in 0..rng.gen_range(1, 7) {
            state = step(state);
            let val = state.val();
            let low = val.to_u32_digits().get(0).cloned().unwrap_or(0);
            let op = rng.gen_range(0, 3);
            text += &format!(" {}", op);
            let ok = match op {
                0 => guard(|| gen.next_field()).map(|x| x == state),
                1 => guard(|| gen.next_u32()).map(|x| x == low),
                _ => guard(|| gen.next_bool()).map(|x| x == (low % 2 == 1)),
            };
            c.check(ok == Ok(true), &s("generator"), || format!("{}: the last request should give {:?} (low word {})", text, state, low));
        }
        c.ev(&s("generator"), &text, true);
    }
}

/// Online monitor: replay a history of observe/draw events on the real transcript and on the model.
fn c10_histories<F: FieldSpec>(c: &Ctx) {
    let s = |x: &str| format!("{}/{}", x, F::NAME);
    for &sec in &[128usize, 80, 160] {
        let rr = RefRescue::<F>::new(4, sec);
        let count = if sec == 128 { c.n(36, 400) } else { c.n(6, 40) };
        let hs: Vec<Vec<(usize, Vec<F>)>> = {
            let mut rng = c.rng(&format!("h{}{}", F::NAME, sec));
            (0..count)
                .map(|i| {
                    // structured first: (observe k, draw m) for small k, m
                    let ops = if i < 12 { 2 } else { rng.gen_range(1, 9) };
                    (0..ops)
                        .map(|j| {
                            if i < 12 {
                                return if j == 0 { (0, (0..i % 4).map(|_| rf(&mut rng)).collect()) } else { (1, vec![F::ZERO; 2 + i / 2]) };
                            }
                            match rng.gen_range(0, 5) {
                                0 | 1 => (0, (0..rng.gen_range(0, 8)).map(|_| if rng.gen_range(0, 5) == 0 { F::ZERO } else { rf(&mut rng) }).collect()),
                                2 => (2, vec![]),
                                3 => (3, vec![]),
                                _ => (1, vec![F::ZERO; rng.gen_range(1, 8)]),
                            }
                        })
                        .collect()
                })
                .collect()
        };
        let res: Vec<Result<(Vec<F>, Vec<F>), String>> = hs
            .par_iter()
            .map(|h| {
                guard(|| {
                    let mut ch = Challenger::<F>::new(sec);
                    let mut model = RefDuplex::<F>::new();
                    let (mut got, mut want) = (vec![], vec![]);
                    for (op, xs) in h {
                        match op {
                            0 => {
                                if xs.len() % 2 == 0 {
                                    ch.observe_elements(xs);
                                } else {
                                    xs.iter().for_each(|x| ch.observe_element(*x));
                                }
                                xs.iter().for_each(|x| model.observe(*x));
                            }
                            1 => {
                                got.extend(ch.get_n_challenges(xs.len()));
                                (0..xs.len()).for_each(|_| want.push(model.draw(&rr)));
                            }
                            2 => {
                                let (a, b) = ch.get_2_challenges();
                                got.extend(vec![a, b]);
                                (0..2).for_each(|_| want.push(model.draw(&rr)));
                            }
                            _ => {
                                let (a, b, e) = ch.get_3_challenges();
                                got.extend(vec![a, b, e]);
                                (0..3).for_each(|_| want.push(model.draw(&rr)));
                            }
                        }
                    }
                    (got, want)
                })
            })
            .collect();
        for (h, r) in hs.iter().zip(res) {
            let shape: Vec<(usize, usize)> = h.iter().map(|(o, x)| (*o, x.len())).collect();
            c.ev(&s("history"), &(sec, &shape), true);
            let d = || format!("{} security {} history {:?}", F::NAME, sec, shape);
            match r {
                Err(e) => c.viol(&s("history-crash"), format!("{}: {}", d(), e)),
                Ok((got, want)) => {
                    // distinct, unless the model itself repeats (fresh all-zero state before any observation)
                    let gs: HashSet<BigUint> = got.iter().map(|x| x.val()).collect();
                    c.check(gs.len() == got.len(), &s("challenges-repeat"), || format!("{}: {} draws, {} distinct", d(), got.len(), gs.len()));
                    // the order of reading a block of outputs is a convention: compare as blocks would be too lax
                    // across prover and verifier, so the exact published sequence is required
                    c.check(got == want, &s("history"), || format!("{}: sequence differs from the duplex specification", d()));
                }
            }
        }
        c.sample(&s("history"), || "sequences of observe(k), draw(m), draw2, draw3 incl. empty observations and draws across squeeze boundaries".into());
    }
    // sensitivity: alter one observed element / its position; everything drawn afterwards changes, nothing before
    let mut rng = c.rng(&format!("s{}", F::NAME));
    let cases: Vec<(Vec<F>, usize, usize, u8)> = (0..c.n(40, 500)).map(|i| ((0..rng.gen_range(2, 11)).map(|_| rf(&mut rng)).collect(), rng.gen_range(1, 5), i, rng.gen_range(0, 4))).collect();
    let draw = |xs: &[F], every: usize| -> Vec<F> {
        let mut ch = Challenger::<F>::new(128);
        let mut o = vec![];
        for (i, x) in xs.iter().enumerate() {
            ch.observe_element(*x);
            if i % every == every - 1 {
                o.push(ch.get_challenge());
            }
        }
        o.push(ch.get_challenge());
        o.push(ch.get_challenge());
        o
    };
    let res: Vec<_> = cases
        .par_iter()
        .map(|(xs, every, i, kind)| {
            let a = i % xs.len();
            let mut ys = xs.clone();
            match kind {
                0 => ys[a] = ys[a] + <F as Field>::ONE,
                1 => ys[a] = -ys[a],
                2 => {
                    let b = (a + 1) % xs.len();
                    ys.swap(a, b)
                }
                _ => ys[a] = F::ZERO,
            }
            let first = if *kind == 2 { a.min((a + 1) % xs.len()) } else { a };
            (guard(|| (draw(xs, *every), draw(&ys, *every))), first)
        })
        .collect();
    for ((xs, every, i, kind), (r, first)) in cases.iter().zip(res) {
        c.ev(&s("sensitivity"), &(i, xs.len(), every, kind), true);
        match r {
            Err(e) => c.viol(&s("history-crash"), e),
            Ok((a, b)) => {
                for k in 0..a.len() {
                    // draw k happens after elements 0..(k+1)*every (the last two after all)
                    let seen = ((k + 1) * every).min(xs.len());
                    let differs = a[k] != b[k];
                    c.check(differs == (first < seen), &s("sensitivity"), || format!("{} len {} draw-every {} alteration kind {} at {}: draw {} differs={} ", F::NAME, xs.len(), every, kind, first, k, differs));
                }
            }
        }
    }
}

fn c10_points<C: Curve>(c: &Ctx, name: &str)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let mut rng = c.rng(name);
    let rr = RefRescue::<C::BaseField>::new(4, 128);
    for i in 0..c.n(8, 60) {
        let pts: Vec<ProjectivePoint<C>> = (0..1 + i % 4)
            .map(|_| {
                let p = CurveScalar::<C>(uf::<C::ScalarField>(&mut rng)) * C::GENERATOR_PROJECTIVE;
                p
            })
            .collect();
        let affs: Vec<AffinePoint<C>> = pts.iter().map(|p| p.to_affine()).collect();
        let d = || format!("{} points {}", name, i);
        c.ev(&format!("points/{}", name), &i, true);
        c.case("points", d, || {
            let mut model = RefDuplex::new();
            for a in &affs {
                model.observe(a.x);
                model.observe(a.y);
            }
            let want = model.draw(&rr);
            let mut c1 = Challenger::new(128);
            c1.observe_affine_points(&affs);
            let mut c2 = Challenger::new(128);
            c2.observe_proj_points(&pts);
            let mut c3 = Challenger::new(128);
            let mut c4 = Challenger::new(128);
            for (a, p) in affs.iter().zip(&pts) {
                c3.observe_affine_point(*a);
                c4.observe_proj_point(*p);
            }
            let got = vec![c1.get_challenge(), c2.get_challenge(), c3.get_challenge(), c4.get_challenge()];
            c.check(got.iter().all(|g| *g == want), "points", d);
            let mut c5 = Challenger::new(128);
            for (k, a) in affs.iter().enumerate() {
                c5.observe_affine_point(if k == i % affs.len() { -*a } else { *a });
            }
            c.check(c5.get_challenge() != want, "point-sign-ignored", d);
        });
    }
}

/// Challenge stages in order; a message first observed in stage k must leave stages < k alone and change all >= k.
fn c10_proof<C: HaloCurve>(c: &Ctx, name: &str)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let s = |x: &str| format!("{}/{}", x, name);
    let mut rng = c.rng(&format!("proof{}", name));
    let g = C::GENERATOR_PROJECTIVE;
    let small = |rng: &mut R| -> C::ScalarField { C::ScalarField::mk(&(uf::<C::ScalarField>(rng).val() >> 3)) };
    let point = |rng: &mut R| -> AffinePoint<C> { (CurveScalar::<C>(uf(rng)) * g).to_affine() };
    let oset = |rng: &mut R| OpeningSet {
        o_constants: (0..6).map(|_| small(rng)).collect(),
        o_plonk_sigmas: (0..6).map(|_| small(rng)).collect(),
        o_wires: (0..9).map(|_| small(rng)).collect(),
        o_plonk_z: small(rng),
        o_plonk_t: (0..7).map(|_| small(rng)).collect(),
        o_old_proofs: (0..2).map(|_| small(rng)).collect(),
        o_pi_quotient: small(rng),
    };
    type Stat<C> = (Proof<C>, Vec<<C as Curve>::ScalarField>, Vec<OldProof<C>>);
    let make = |rng: &mut R, rounds: usize| -> Stat<C> {
        (
            Proof {
                c_wires: (0..9).map(|_| point(rng)).collect(),
                c_plonk_z: point(rng),
                c_plonk_t: (0..7).map(|_| point(rng)).collect(),
                c_pis_quotient: point(rng),
                o_local: oset(rng),
                o_right: oset(rng),
                o_below: oset(rng),
                halo_l: (0..rounds).map(|_| point(rng)).collect(),
                halo_r: (0..rounds).map(|_| point(rng)).collect(),
                halo_g: point(rng),
                schnorr_proof: SchnorrProof { r: point(rng), z1: small(rng), z2: small(rng) },
            },
            (0..4).map(|_| small(rng)).collect(),
            (0..2).map(|_| OldProof { halo_g: point(rng), halo_us: vec![small(rng), small(rng)] }).collect(),
        )
    };
    // stages: 0 beta 1 gamma 2 alpha 3 zeta 4 v 5 u 6 u_scaling 7.. rounds, last schnorr
    let stages = |st: &Stat<C>| -> Option<Vec<BigUint>> {
        let ch = st.0.get_challenges(&st.1, &st.2, 128).ok()?;
        let mut v: Vec<BigUint> = [ch.beta, ch.gamma, ch.alpha, ch.zeta, ch.v, ch.u, ch.u_scaling].iter().map(|x| x.val()).collect();
        v.extend(ch.halo_us.iter().map(|x| x.val()));
        v.push(ch.schnorr_challenge.val());
        Some(v)
    };
    const ALPHA: usize = 2;
    const ZETA: usize = 3;
    const V: usize = 4;
    // (name, first stage that must change, may it change earlier stages?, alteration)
    type Alt<C> = (String, usize, bool, Box<dyn Fn(&mut Stat<C>, &mut R) + Sync + Send>);
    let newp = |q: AffinePoint<C>| -> AffinePoint<C> { (q.to_projective() + C::GENERATOR_PROJECTIVE).to_affine() };
    let mut alts: Vec<Alt<C>> = Vec::new();
    for i in 0..9 {
        alts.push((format!("c_wires[{}]", i), 0, false, Box::new(move |s, _| s.0.c_wires[i] = newp(s.0.c_wires[i]))));
        alts.push((format!("-c_wires[{}]", i), 0, false, Box::new(move |s, _| s.0.c_wires[i] = -s.0.c_wires[i])));
    }
    alts.push(("swap c_wires".into(), 0, false, Box::new(|s, _| s.0.c_wires.swap(1, 5))));
    alts.push(("drop c_wire".into(), 0, false, Box::new(|s, _| { s.0.c_wires.pop(); })));
    alts.push(("c_plonk_z".into(), ALPHA, false, Box::new(move |s, _| s.0.c_plonk_z = newp(s.0.c_plonk_z))));
    alts.push(("-c_plonk_z".into(), ALPHA, false, Box::new(move |s, _| s.0.c_plonk_z = -s.0.c_plonk_z)));
    for i in 0..7 {
        alts.push((format!("c_plonk_t[{}]", i), ZETA, false, Box::new(move |s, _| s.0.c_plonk_t[i] = newp(s.0.c_plonk_t[i]))));
        alts.push((format!("-c_plonk_t[{}]", i), ZETA, false, Box::new(move |s, _| s.0.c_plonk_t[i] = -s.0.c_plonk_t[i])));
    }
    alts.push(("c_pis_quotient".into(), ZETA, false, Box::new(move |s, _| s.0.c_pis_quotient = newp(s.0.c_pis_quotient))));
    alts.push(("-c_pis_quotient".into(), ZETA, false, Box::new(move |s, _| s.0.c_pis_quotient = -s.0.c_pis_quotient)));
    for i in 0..4 {
        alts.push((format!("public_input[{}]", i), ALPHA, true, Box::new(move |s, _| s.1[i] = s.1[i] + <C::ScalarField as Field>::ONE)));
    }
    alts.push(("swap public inputs".into(), ALPHA, true, Box::new(|s, _| s.1.swap(0, 3))));
    alts.push(("drop public input".into(), ALPHA, true, Box::new(|s, _| { s.1.pop(); })));
    alts.push(("extra public input".into(), ALPHA, true, Box::new(|s, _| s.1.push(<C::ScalarField as Field>::ONE))));
    for i in 0..2 {
        alts.push((format!("old_proof[{}].halo_g", i), ZETA, true, Box::new(move |s, _| s.2[i].halo_g = newp(s.2[i].halo_g))));
    }
    alts.push(("swap old proofs".into(), ZETA, true, Box::new(|s, _| s.2.swap(0, 1))));
    alts.push(("drop old proof".into(), ZETA, true, Box::new(|s, _| { s.2.pop(); })));
    for set in 0..3usize {
        for k in 0..32usize {
            alts.push((format!("opening set {} element {}", set, k), V, false, Box::new(move |s, _| {
                let o = match set { 0 => &mut s.0.o_local, 1 => &mut s.0.o_right, _ => &mut s.0.o_below };
                let mut all: Vec<&mut C::ScalarField> = vec![];
                all.extend(o.o_constants.iter_mut());
                all.extend(o.o_plonk_sigmas.iter_mut());
                all.extend(o.o_wires.iter_mut());
                all.push(&mut o.o_plonk_z);
                all.extend(o.o_plonk_t.iter_mut());
                all.extend(o.o_old_proofs.iter_mut());
                all.push(&mut o.o_pi_quotient);
                assert_eq!(all.len(), 32);
                *all[k] = *all[k] + <C::ScalarField as Field>::ONE;
            })));
        }
    }
    let base = make(&mut rng, 0);
    let b0 = match guard(|| stages(&base)) {
        Ok(Some(v)) => v,
        e => {
            c.viol(&s("proof-challenges"), format!("no challenges for a well-formed proof: {:?}", e));
            return;
        }
    };
    c.ev(&s("proof-distinct"), &b0, true);
    let set: HashSet<&BigUint> = b0.iter().collect();
    c.check(set.len() == b0.len(), &s("proof-challenges-repeat"), || format!("challenges of one proof coincide: {:?}", b0));
    let r0 = c.rng("unused");
    let res: Vec<_> = alts
        .par_iter()
        .map(|a| {
            let mut st = base.clone();
            let mut r = r0.clone();
            (a.3)(&mut st, &mut r);
            guard(|| stages(&st))
        })
        .collect();
    for (a, r) in alts.iter().zip(res) {
        c.ev(&s("proof-binding"), &a.0, true);
        match r {
            Err(e) => c.viol(&s("proof-challenges-crash"), format!("{}: {}", a.0, e)),
            Ok(None) => {}
            Ok(Some(v)) => {
                for (k, (x, y)) in b0.iter().zip(&v).enumerate() {
                    if k >= a.1 {
                        c.check(x != y, &s("proof-binding"), || format!("{} {}: challenge #{} does not depend on it", name, a.0, k));
                    } else if !a.2 {
                        c.check(x == y, &s("proof-early"), || format!("{} {}: earlier challenge #{} depends on it", name, a.0, k));
                    }
                }
            }
        }
    }
    // rounds and the Schnorr commitment: two rounds, retried until n(r) is square
    let mut tries = 0;
    let mut done = 0;
    while done < c.n(2, 12) && tries < 400 {
        tries += 1;
        let st = make(&mut rng, 2);
        let b = match guard(|| stages(&st)) {
            Ok(Some(v)) => v,
            Ok(None) => continue,
            Err(e) => {
                c.viol(&s("proof-challenges-crash"), e);
                break;
            }
        };
        done += 1;
        let set: HashSet<&BigUint> = b.iter().collect();
        c.check(set.len() == b.len(), &s("proof-challenges-repeat"), || format!("challenges of one proof coincide: {:?}", b));
        // (first stage, alteration)
        let kinds: Vec<(usize, &str)> = vec![(7, "l0"), (7, "r0"), (7, "-r0"), (8, "l1"), (8, "r1"), (9, "schnorr.r"), (9, "-schnorr.r"), (7, "swap lr 0")];
        for (first, kind) in kinds {
            for _ in 0..40 {
                let mut t = st.clone();
                let q = point(&mut rng);
                match kind {
                    "l0" => t.0.halo_l[0] = q,
                    "r0" => t.0.halo_r[0] = q,
                    "-r0" => t.0.halo_r[0] = -t.0.halo_r[0],
                    "l1" => t.0.halo_l[1] = q,
                    "r1" => t.0.halo_r[1] = q,
                    "schnorr.r" => t.0.schnorr_proof.r = q,
                    "swap lr 0" => {
                        let x = t.0.halo_l[0];
                        t.0.halo_l[0] = t.0.halo_r[0];
                        t.0.halo_r[0] = x;
                    }
                    _ => t.0.schnorr_proof.r = -t.0.schnorr_proof.r,
                }
                let v = match guard(|| stages(&t)) {
                    Ok(Some(v)) => v,
                    Err(e) => {
                        c.viol(&s("proof-challenges-crash"), e);
                        break;
                    }
                    Ok(None) => {
                        if kind.starts_with('-') || kind.starts_with("swap") {
                            break;
                        }
                        continue;
                    }
                };
                c.ev(&s("proof-binding"), &(done, kind), true);
                for k in 0..b.len() {
                    c.check((b[k] != v[k]) == (k >= first), &s(if k >= first { "proof-binding" } else { "proof-early" }), || format!("{} {}: challenge #{}", name, kind, k));
                }
                break;
            }
        }
    }
    c.sample(&s("proof-binding"), || format!("{} single alterations of proof and statement, e.g. {}", alts.len(), alts[20].0));
}

fn main() {
    let which = std::env::args().nth(1).unwrap_or("C09".into());
    let c = Ctx::new(&which);
    if which == "C09" {
        c.section("rescue", |c| {
            c09::<TweedledeeBase>(c);
            c09::<TweedledumBase>(c);
            c09::<PallasBase>(c);
            c09::<VestaBase>(c);
            c09::<Bls12377Scalar>(c);
            c09::<Bls12377Base>(c);
        });
        c.section("generator", |c| {
            c09_generator::<TweedledeeBase>(c);
            c09_generator::<TweedledumBase>(c);
            c09_generator::<PallasBase>(c);
            c09_generator::<VestaBase>(c);
            c09_generator::<Bls12377Scalar>(c);
            c09_generator::<Bls12377Base>(c);
        });
        c.assume("the published parameters: width-indexed Cauchy MDS 1/(n+r-c), ChaCha8 seed 1337 round constants, rounds = max(10, ceil(security/(2 width)))");
    } else {
        c.section("histories", |c| {
            c10_histories::<TweedledeeBase>(c);
            c10_histories::<TweedledumBase>(c);
            c10_histories::<PallasBase>(c);
            c10_histories::<VestaBase>(c);
        });
        c.section("points", |c| {
            c10_points::<Tweedledee>(c, "Tweedledee");
            c10_points::<Vesta>(c, "Vesta");
            c10_points::<Bls12377>(c, "Bls12377");
        });
        c.section("proofs", |c| {
            c10_proof::<Tweedledee>(c, "Tweedledee");
            c10_proof::<Tweedledum>(c, "Tweedledum");
            c10_proof::<Pallas>(c, "Pallas");
            c10_proof::<Vesta>(c, "Vesta");
        });
    }
    c.finish()
}
