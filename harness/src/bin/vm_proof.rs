//! C11-C13, C19, C20, C22: proofs end to end, seen by honest, careless and hostile provers.
use num::BigUint;
use plonky::halo::*;
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Mutex;
use vmon::adv::*;
use vmon::big::*;
use vmon::refs::*;
use vmon::work::*;
use vmon::zk::*;
use vmon::*;

/// Run a generic function for the curve cycles, `$k` of them starting from a seed-dependent one.
macro_rules! cycles {
    ($c:expr, $k:expr, $f:ident) => {{
        let c: &Ctx = $c;
        let first = c.seed as usize % 4;
        let picks: Vec<usize> = (0..$k).map(|i| (first + i) % 4).collect();
        picks.par_iter().for_each(|&p| match p {
            0 => c.section(concat!(stringify!($f), "/Tweedledee"), |c| $f::<Tweedledee, Tweedledum>(c, "Tweedledee")),
            1 => c.section(concat!(stringify!($f), "/Tweedledum"), |c| $f::<Tweedledum, Tweedledee>(c, "Tweedledum")),
            2 => c.section(concat!(stringify!($f), "/Pallas"), |c| $f::<Pallas, Vesta>(c, "Pallas")),
            _ => c.section(concat!(stringify!($f), "/Vesta"), |c| $f::<Vesta, Pallas>(c, "Vesta")),
        });
    }};
}

// ---------------------------------------------------------------- C11

fn recipes(rng: &mut R, i: usize, thorough: bool) -> Recipe {
    let sec = [128, 126, 100, 64][[0, 0, 1, 0, 2, 0, 3, 0][i % 8]];
    let npis = [1, 0, 6, 7, 9, 10, 18, 19, 2, 27, 28][i % 11];
    let mut steps = vec![];
    match i % 7 {
        0 => steps.extend((0..6).map(|_| rng.gen_range(0, 9))),
        1 => steps.extend((0..8).map(|_| rng.gen_range(0, 19))),
        2 => steps.extend(&[30, 2, 4, 12]),
        3 => steps.extend(&[31, 16, 13, 11]),
        4 => steps.extend(vec![32; rng.gen_range(0, 12)]),
        5 => steps.extend(&[16, 30, 31, 9, 17, 18]),
        _ => steps.extend(&[19, 3, 5, 14]),
    }
    // sizes on both sides of powers of two
    let pad = match rng.gen_range(0, 6) {
        0 => [6, 7, 8, 12, 13, 14, 28, 29, 30][rng.gen_range(0, 9)],
        1 => rng.gen_range(60, 70),
        2 if thorough => rng.gen_range(200, 260),
        _ => 0,
    };
    Recipe { sec, npis, steps, pad }
}

fn clear<C: HaloCurve>(vk: &VerificationKey<C>, k: usize) -> VerificationKey<C> {
    let mut v = vk.clone();
    match k % 4 {
        1 => v.clear_fft_precomputation(),
        2 => v.clear_msm_precomputation(),
        3 => v.clear_all(),
        _ => {}
    }
    v
}

/// Verify in every mode; all must accept. Returns the deferred data.
fn accept_all<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, what: &str, pis: &[SF<C>], p: &Proof<C>, olds: &[OldProof<C>], vk: &VerificationKey<C>, k: usize, g: bool) -> Option<OldProof<C>> {
    let mut out = None;
    for (i, &mode) in [false, true].iter().enumerate() {
        if mode && !g {
            continue;
        }
        let v = clear(vk, k + i);
        match judge::<C, I>(pis, p, olds, &v, mode) {
            Verdict::Accept(o) => {
                c.check(o.is_some() != mode, &format!("{}/deferred-data-presence", name), || format!("{} verify_g {} returned deferred data: {}", what, mode, o.is_some()));
                out = o.or(out);
            }
            Verdict::Refuse(e) => c.viol(&format!("{}/honest-refused", name), format!("{} verify_g {} caches cleared {}: {}", what, mode, (k + i) % 4, e)),
            Verdict::Crash(e) => c.viol(&format!("{}/honest-verify-crash", name), format!("{} verify_g {}: {}", what, mode, e)),
        }
        c.ev("honest-verify", &(name, what, mode, (k + i) % 4), true);
    }
    out
}

fn prove<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(m: &Circuit<C>, w: &Witness<SF<C>>, olds: &[OldProof<C>], blind: bool) -> Result<Proof<C>, String> {
    guard(|| m.generate_proof::<I>(w, olds, blind)).and_then(|r| r.map_err(|e| e.to_string()))
}

/// Other assignments the circuit accepts: wires nothing depends on, set to anything.
fn loosen<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(m: &Made<C>, rng: &mut R) -> (Vec<Vec<SF<C>>>, usize)
where
    SF<C>: FieldSpec,
{
    let mut rows = m.rows.clone();
    let n = m.e.n;
    let mut changed = 0;
    for _ in 0..60 {
        let (i, j) = (rng.gen_range(0, n), rng.gen_range(0, NW));
        if i >= m.circ.num_gates_without_pis {
            continue;
        }
        let mut r = rows.clone();
        r[i][j] = rf(rng);
        if unsat::<C, I>(&m.circ, &m.e, &r, Some(&rows)).is_none() {
            rows = r;
            changed += 1;
        }
    }
    (rows, changed)
}

fn c11<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let k = c.n(7, 60);
    let deferred: Mutex<Vec<(usize, OldProof<C>)>> = Mutex::new(vec![]);
    (0..k).collect::<Vec<_>>().par_chunks(1).for_each(|ch| {
        let i = ch[0];
        if c.thorough && !c.time_left() {
            return;
        }
        let mut rng = c.rng(&format!("{}-{}", name, i));
        let rc = recipes(&mut rng, i + if c.thorough { 0 } else { (c.seed as usize + name.len() * 5) % 77 }, c.thorough);
        let m = match make::<C, I>(&mut rng, &rc) {
            Ok(m) => m,
            Err(e) => return c.viol(&format!("{}/no-witness", name), e),
        };
        for g in &m.gates {
            c.ev(&format!("gate:{}", g), &(name, i), true);
        }
        c.ev("circuit", &(name, format!("{:?}", rc)), true);
        c.sample("circuit", || m.text.clone());
        c.ev(&format!("degree:{}", m.circ.degree()), &(name, i), true);
        c.ev(&format!("security:{}", rc.sec), &(name, i), true);
        c.eq(&m.circ.get_public_inputs(&m.wit), &m.pis, &format!("{}/reported-public-inputs", name), || m.text.clone());
        if let Some(u) = unsat::<C, I>(&m.circ, &m.e, &m.rows, None) {
            return c.viol(&format!("{}/witness-violates", name), format!("{}: {}", m.text, u));
        }
        // two proofs: one plain, one with earlier deferred proofs and (if it makes a difference) another
        // satisfying assignment
        let blind = rng.gen();
        let olds0: Vec<OldProof<C>> = vec![];
        let p0 = match prove::<C, I>(&m.circ, &m.wit, &olds0, blind) {
            Ok(p) => p,
            Err(e) => return c.viol(&format!("{}/proving-failed", name), format!("{} blinding {}: {}", m.text, blind, e)),
        };
        let d = m.circ.degree();
        let o = accept_all::<C, I>(c, name, &format!("{} blinding {}", m.text, blind), &m.pis, &p0, &[], &m.vk, i, d <= 256);
        let mut mine: Vec<OldProof<C>> = vec![];
        if let Some(o) = o {
            deferred.lock().unwrap().push((d, o.clone()));
            mine.push(o);
        }
        // absorb it, along with what other circuits no larger than this one left behind
        mine.extend(deferred.lock().unwrap().iter().filter(|x| x.0 <= d).map(|x| x.1.clone()).take(3));
        mine.shuffle(&mut rng);
        mine.truncate(rng.gen_range(1, 4));
        let (rows, changed) = loosen::<C, I>(&m, &mut rng);
        if changed > 0 {
            c.ev("other-satisfying-assignment", &(name, i, changed), true);
        }
        let blind = !blind;
        match prove::<C, I>(&m.circ, &Witness::new(rows), &mine, blind) {
            Ok(p) => {
                c.ev(&format!("absorbed:{}", mine.len()), &(name, i), true);
                accept_all::<C, I>(c, name, &format!("{} blinding {} absorbing {} with {} free wires changed", m.text, blind, mine.len(), changed), &m.pis, &p, &mine, &m.vk, i + 2, false);
            }
            Err(e) => c.viol(&format!("{}/proving-failed", name), format!("{} blinding {} absorbing {} with {} free wires changed: {}", m.text, blind, mine.len(), changed, e)),
        }
        let vk = m.vk;
        let vk2 = VerificationKey::from(m.circ);
        c.check(vk == vk2, &format!("{}/key-conversion", name), || "to_vk and From<Circuit> differ".into());
    });
}

/// Public inputs at the edge of what both fields can hold.
fn c11_range<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
    C::BaseField: FieldSpec,
{
    let (p, q) = (SF::<C>::p(), <C::BaseField as FieldSpec>::p());
    let least = if p < q { p } else { q };
    let vals: Vec<(&str, BigUint)> = vec![("zero", BigUint::from(0u32)), ("largest-in-both", &least - 1u32), ("minus-one", SF::<C>::p() - 1u32)];
    for (what, v) in vals {
        let x = SF::<C>::mk(&v);
        let mut b = CircuitBuilder::<C>::new(128);
        let t = b.add_public_input();
        let y = b.square(t);
        b.assert_nonzero(y);
        let nz = v != BigUint::from(0u32);
        let circ = b.build();
        let mut w = PartialWitness::new();
        w.set_target(t, x);
        let r = guard(|| circ.generate_witness(w)).and_then(|w| prove::<C, I>(&circ, &w, &[], true));
        c.ev("public-input-range", &(name, what), true);
        match r {
            Ok(p) => {
                let ok = matches!(judge::<C, I>(&[x], &p, &[], &circ.to_vk(), false), Verdict::Accept(_));
                c.check(ok || !nz, &format!("public-input={}:{}", what, name), || format!("honest proof with public input {} refused", v));
            }
            Err(e) => {
                c.check(!nz, &format!("public-input={}:{}", what, name), || format!("proving with public input {} failed: {}", v, e));
            }
        }
    }
}

/// Large and lopsided circuits: many gadgets waiting for one value, deep chains, sums of everything. The witness
/// generator has to finish them all; every wire is known beforehand.
fn c11_wide<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut shapes: Vec<(usize, usize)> = vec![];
    for shape in 0..6 {
        for &k in if c.thorough { &[5usize, 33, 64, 65, 129, 257, 600, 1500, 5000, 20000][..] } else { &[33usize, 129, 300][..] } {
            shapes.push((shape, k));
        }
    }
    if !c.thorough {
        shapes.extend(&[(0, 1100), (3, 1100)]);
    }
    shapes.par_iter().with_max_len(1).for_each(|&(shape, k)| {
        if c.thorough && !c.time_left() {
            return;
        }
        let mut rng = c.rng(&format!("{}-wide{}-{}", name, shape, k));
        let what = format!("shape {} width {}", shape, k);
        let r = guard(|| {
            let mut b = CircuitBuilder::<C>::new(100);
            let mut w = PartialWitness::new();
            let mut known: Vec<(Target<SF<C>>, SF<C>)> = vec![];
            let (x, y): (SF<C>, SF<C>) = (uf(&mut rng), uf(&mut rng));
            let (tx, ty) = (b.add_virtual_target(), b.add_virtual_target());
            w.set_target(tx, x);
            w.set_target(ty, y);
            match shape {
                // every gate waits for the same value
                0 => for _ in 0..k {
                    let t = b.mul(tx, ty);
                    known.push((t, x * y));
                },
                // ... which itself comes at the end of a chain
                1 => {
                    let (mut t, mut v) = (tx, x);
                    for _ in 0..10 {
                        t = b.mul(t, ty);
                        v = v * y;
                    }
                    for i in 0..k {
                        let s = if i % 3 == 0 { b.add(t, tx) } else { b.mul(tx, t) };
                        known.push((s, if i % 3 == 0 { v + x } else { x * v }));
                    }
                }
                // a chain
                2 => {
                    let (mut t, mut v) = (tx, x);
                    for i in 0..k {
                        if i % 2 == 0 { t = b.mul(t, ty); v = v * y; } else { t = b.add(t, tx); v = v + x; }
                        known.push((t, v));
                    }
                }
                // values copied along a long chain of virtual targets, in any order
                3 => {
                    let ts: Vec<_> = (0..k).map(|_| b.add_virtual_target()).collect();
                    let mut pairs: Vec<_> = (0..k).map(|i| if i == 0 { (ty, ts[0]) } else { (ts[i - 1], ts[i]) }).collect();
                    pairs.shuffle(&mut rng);
                    for (p, q) in pairs {
                        if rng.gen() { b.copy(p, q) } else { b.copy(q, p) }
                    }
                    let t = b.mul(ts[k - 1], tx);
                    known.push((t, x * y));
                    let t = b.add(ts[k / 2], tx);
                    known.push((t, x + y));
                    for i in 0..k {
                        known.push((ts[i], y));
                    }
                }
                // many independent inputs, each used, then all added
                4 => {
                    let vs: Vec<SF<C>> = (0..k).map(|_| uf(&mut rng)).collect();
                    let ts: Vec<_> = vs.iter().map(|&v| { let t = b.add_virtual_target(); w.set_target(t, v); t }).collect();
                    let (mut s, mut sv) = (ty, y);
                    for i in 0..k {
                        let q = b.mul(ts[i], ts[(i * 7 + 1) % k]);
                        s = b.add(s, q);
                        sv = sv + vs[i] * vs[(i * 7 + 1) % k];
                    }
                    known.push((s, sv));
                }
                // different gadgets all waiting for the same late value
                _ => {
                    let t = b.mul(tx, ty);
                    let v = x * y;
                    for i in 0..k {
                        match i % 5 {
                            0 => { let q = b.inv(t); known.push((q, finv(v))) }
                            1 => { let q = b.square(t); known.push((q, v * v)) }
                            2 => { let z = b.is_zero(t); known.push((z, SF::<C>::ZERO)) }
                            3 => { let q = b.neg(t); known.push((q, SF::<C>::ZERO - v)) }
                            _ => { let q = b.double(t); known.push((q, v + v)) }
                        }
                    }
                }
            }
            // all of them constrained on wires
            let circ = b.build();
            let wit = circ.generate_witness(w);
            (circ, wit, known)
        });
        let (circ, wit, known) = match r {
            Ok(x) => x,
            Err(e) => return c.viol(&format!("{}/wide-crash", name), format!("{}: {}", what, e)),
        };
        c.ev("wide", &(name, shape, k), true);
        c.ev(&format!("degree:{}", circ.degree()), &(name, shape, k), true);
        let e = match decode_sigma(&circ) {
            Ok(e) => e,
            Err(e) => return c.viol(&format!("{}/wide-sigma", name), format!("{}: {}", what, e)),
        };
        let rows = rows_of(&wit, circ.degree());
        if let Some(u) = unsat::<C, I>(&circ, &e, &rows, None) {
            c.viol(&format!("{}/wide-unsatisfied", name), format!("{}: {}", what, u));
        }
        for (t, v) in known {
            if let Target::Wire(w) = t {
                c.eq(&rows[w.gate][w.input], &v, &format!("{}/wide-value", name), || format!("{}: {:?}", what, w));
            }
        }
        // a few are proved, too
        if circ.degree() <= 128 && k >= 33 {
            match prove::<C, I>(&circ, &wit, &[], true) {
                Ok(p) => { accept_all::<C, I>(c, name, &what, &[], &p, &[], &circ.to_vk(), shape, true); }
                Err(e) => c.viol(&format!("{}/wide-proof", name), format!("{}: {}", what, e)),
            }
        }
    });
}

/// A false proof whose last generator was chosen to fit: deferring accepts it, the complete check must not, whatever
/// the size of the circuit.
fn complete_check<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let t = Tally::new();
    let pads = if c.thorough { vec![0, 6, 13, 29, 60, 124, 252] } else { vec![0, 6, 13, 29, 60] };
    pads.par_iter().with_max_len(1).for_each(|&pad| {
        let mut rng = c.rng(&format!("complete{}-{}", name, pad));
        let m = match make::<C, I>(&mut rng, &Recipe { sec: 128, npis: pad % 4, steps: if pad == 0 { vec![] } else { vec![2] }, pad }) {
            Ok(m) => m,
            Err(e) => return c.viol(&format!("{}/no-witness", name), e),
        };
        let d = m.circ.degree();
        for k in 0..3 {
            let mut a = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), vec![], k % 2 == 0, c.rng(&format!("complete{}-{}-{}", name, pad, k)));
            if !matches!(a.honest_to_openings(), Ok(true)) {
                t.add("reference prover failed".into());
                continue;
            }
            if k > 0 {
                let all = slots(0);
                let mut s = all[rng.gen_range(0, all.len())];
                // not the one that the others are then balanced with
                if k == 1 && s == Slot::T(0) {
                    s = Slot::T(1);
                }
                let x = slot(a.openings(k - 1), s);
                *x = *x + SF::<C>::ONE;
                if !a.gaps().0.is_zero() && !a.solve_slot(0, Slot::T(0)) {
                    continue;
                }
            }
            if a.ipa(if k == 0 { Lie::No } else { Lie::G }).is_err() {
                t.add("prover gave up".into());
                continue;
            }
            for i in 0..4 {
                let vk = clear(&m.vk, i);
                let (lazy, full) = (a.verdict(&vk, false), a.verdict(&vk, true));
                c.ev(&format!("complete-check:{}", if k == 0 { "honest" } else { "forged" }), &(name, d, k, i), true);
                match lazy {
                    Verdict::Accept(_) => {}
                    _ if k == 0 => { c.viol(&format!("{}/honest-refused", name), format!("degree {} deferring", d)); continue }
                    _ => { t.add("forged refused without the generator".into()); continue }
                }
                match full {
                    Verdict::Accept(_) => { c.check(k == 0, &format!("{}/forged-generator-accepted", name), || format!("degree {}, {} public inputs, key caches {}: a generator that commits to something else was accepted by the complete check", d, m.pis.len(), i)); }
                    Verdict::Refuse(e) => { c.check(k > 0, &format!("{}/honest-refused", name), || format!("degree {}: {}", d, e)); }
                    Verdict::Crash(e) => c.viol(&format!("{}/complete-crash", name), format!("degree {}: {}", d, e)),
                }
            }
            c.ev(&format!("degree:{}", d), &(name, pad, k), true);
        }
    });
    for (k, v) in t.m.lock().unwrap().iter() {
        c.note(format!("{}: complete check: {} {}", name, v, k));
    }
}

// ---------------------------------------------------------------- C12

type Muts<'a, T> = Vec<(String, &'a mut T)>;

fn pts<C: HaloCurve>(p: &mut Proof<C>) -> Muts<AffinePoint<C>> {
    let mut v: Muts<AffinePoint<C>> = vec![];
    v.extend(p.c_wires.iter_mut().enumerate().map(|(i, x)| (format!("c_wires[{}]", i), x)));
    v.push(("c_plonk_z".into(), &mut p.c_plonk_z));
    v.extend(p.c_plonk_t.iter_mut().enumerate().map(|(i, x)| (format!("c_plonk_t[{}]", i), x)));
    v.push(("c_pis_quotient".into(), &mut p.c_pis_quotient));
    v.extend(p.halo_l.iter_mut().enumerate().map(|(i, x)| (format!("halo_l[{}]", i), x)));
    v.extend(p.halo_r.iter_mut().enumerate().map(|(i, x)| (format!("halo_r[{}]", i), x)));
    v.push(("halo_g".into(), &mut p.halo_g));
    v.push(("schnorr.r".into(), &mut p.schnorr_proof.r));
    v
}

fn set_els<'a, F: Field>(n: &str, o: &'a mut OpeningSet<F>) -> Muts<'a, F> {
    let mut v: Muts<F> = vec![];
    for (k, w) in vec![("o_constants", &mut o.o_constants), ("o_plonk_sigmas", &mut o.o_plonk_sigmas), ("o_wires", &mut o.o_wires), ("o_plonk_t", &mut o.o_plonk_t), ("o_old_proofs", &mut o.o_old_proofs)] {
        v.extend(w.iter_mut().enumerate().map(|(i, x)| (format!("{}.{}[{}]", n, k, i), x)));
    }
    v.push((format!("{}.o_plonk_z", n), &mut o.o_plonk_z));
    v.push((format!("{}.o_pi_quotient", n), &mut o.o_pi_quotient));
    v
}

fn els<C: HaloCurve>(p: &mut Proof<C>) -> Muts<SF<C>> {
    let mut v = set_els("o_local", &mut p.o_local);
    v.extend(set_els("o_right", &mut p.o_right));
    v.extend(set_els("o_below", &mut p.o_below));
    v.push(("schnorr.z1".into(), &mut p.schnorr_proof.z1));
    v.push(("schnorr.z2".into(), &mut p.schnorr_proof.z2));
    v
}

fn pt_vecs<C: HaloCurve>(p: &mut Proof<C>) -> Muts<Vec<AffinePoint<C>>> {
    vec![("c_wires".into(), &mut p.c_wires), ("c_plonk_t".into(), &mut p.c_plonk_t), ("halo_l".into(), &mut p.halo_l), ("halo_r".into(), &mut p.halo_r)]
}

fn el_vecs<C: HaloCurve>(p: &mut Proof<C>) -> Muts<Vec<SF<C>>> {
    let mut v: Muts<Vec<SF<C>>> = vec![];
    for (n, o) in vec![("o_local", &mut p.o_local), ("o_right", &mut p.o_right), ("o_below", &mut p.o_below)] {
        for (k, w) in vec![("o_constants", &mut o.o_constants), ("o_plonk_sigmas", &mut o.o_plonk_sigmas), ("o_wires", &mut o.o_wires), ("o_plonk_t", &mut o.o_plonk_t), ("o_old_proofs", &mut o.o_old_proofs)] {
            v.push((format!("{}.{}", n, k), w));
        }
    }
    v
}

fn reshape<T: Clone>(v: &mut Vec<T>, op: usize) -> &'static str {
    match op {
        0 => { v.pop(); "drop last" }
        1 => { if !v.is_empty() { v.remove(0); } "drop first" }
        2 => { v.clear(); "empty" }
        3 => { if let Some(x) = v.last().cloned() { v.push(x) } "repeat last" }
        4 => { if let Some(x) = v.first().cloned() { v.insert(0, x) } "repeat first" }
        5 => { v.reverse(); "reverse" }
        6 => { if v.len() > 1 { v.swap(0, 1) } "swap first two" }
        7 => { if v.len() > 1 { v.rotate_left(1) } "rotate" }
        8 => { let w = v.clone(); v.extend(w); "double" }
        _ => { let k = v.len() / 2; v.truncate(k); "halve" }
    }
}

struct Alt<C: HaloCurve> {
    what: String,
    pis: Vec<SF<C>>,
    p: Proof<C>,
    olds: Vec<OldProof<C>>,
    vk: VerificationKey<C>,
}

/// Every altered variant of (public inputs, proof, earlier proofs, key) must be refused with an error.
fn refused<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, kind: &str, mut alts: Vec<Alt<C>>, g: bool, sample: usize) {
    let mut cnt = c.seed as usize;
    alts.retain(|_| { cnt += 1; cnt % sample == 0 });
    let tally: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    alts.into_par_iter().for_each(|a| {
        match judge::<C, I>(&a.pis, &a.p, &a.olds, &a.vk, g) {
            Verdict::Accept(_) => c.viol(&format!("{}/accepted:{}", name, kind), a.what.clone()),
            Verdict::Crash(e) => c.viol(&format!("{}/crash:{}", name, kind), format!("{}: {}", a.what, e)),
            Verdict::Refuse(e) => {
                let e: String = e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
                *tally.lock().unwrap().entry(e).or_insert(0) += 1;
            }
        }
        c.ev(&format!("alter:{}", kind), &(name, a.what), true);
    });
    for (e, n) in tally.into_inner().unwrap() {
        c.evn(&format!("refusal: {}", e), n, &[h64(&(name, kind))]);
    }
}

fn c12_light<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    c12_at::<C, I>(c, name, 10)
}

fn c12<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    c12_at::<C, I>(c, name, 1)
}

fn c12_at<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, sample: usize)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(name);
    let npis = [3, 10, 1, 12][(c.seed as usize + name.len()) % 4].max(2);
    let m = match make::<C, I>(&mut rng, &Recipe { sec: 128, npis, steps: vec![2, 4, 5], pad: 0 }) {
        Ok(m) => m,
        Err(e) => return c.viol(&format!("{}/no-witness", name), e),
    };
    // same circuit shape, other content
    let m2 = make::<C, I>(&mut rng, &Recipe { sec: 128, npis, steps: vec![2, 4, 5, 0], pad: 0 }).expect("second circuit");
    let pr = |m: &Made<C>, olds: &[OldProof<C>], blind: bool| prove::<C, I>(&m.circ, &m.wit, olds, blind);
    let get = |m: &Made<C>, p: &Proof<C>, olds: &[OldProof<C>]| match judge::<C, I>(&m.pis, p, olds, &m.vk, false) {
        Verdict::Accept(o) => o,
        _ => None,
    };
    let base = (|| -> Option<_> {
        let q0 = pr(&m, &[], true).ok()?;
        let q1 = pr(&m, &[], false).ok()?;
        let q2 = pr(&m2, &[], true).ok()?;
        let (o0, o1, o2) = (get(&m, &q0, &[])?, get(&m, &q1, &[])?, get(&m2, &q2, &[])?);
        let olds = vec![o0, o1];
        let p = pr(&m, &olds, true).ok()?;
        get(&m, &p, &olds)?;
        let other = pr(&m, &olds, true).ok()?;
        Some((q0, q1, q2, o2, olds, p, other))
    })();
    let (q0, q1, q2, o2, olds, p, other) = match base {
        Some(x) => x,
        None => return c.viol(&format!("{}/no-accepted-proof", name), format!("no accepted proof to alter: {}", m.text)),
    };
    c.ev("accepted-base", &name, true);
    let none: Vec<OldProof<C>> = vec![];
    let mut prf: Vec<Alt<C>> = vec![];
    for (tag, base, olds, other, sample) in vec![("absorbing", &p, &olds, &other, sample), ("plain unblinded", &q1, &none, &q0, if c.thorough { 1 } else { 6 * sample })] {
        let mk = |what: String, p: Proof<C>| Alt { what: format!("{} proof: {}", tag, what), pis: m.pis.clone(), p, olds: olds.clone(), vk: clear(&m.vk, what.len()) };
        let mut oth = other.clone();
        let opts: Vec<AffinePoint<C>> = pts(&mut oth).into_iter().map(|x| *x.1).collect();
        let oels: Vec<SF<C>> = els(&mut oth).into_iter().map(|x| *x.1).collect();
        let mut cnt = c.seed as usize;
        let mut keep = || { cnt += 1; cnt % sample == 0 };
        for i in 0..opts.len() {
            for op in 0..12 {
                if !keep() { continue; }
                let mut q = base.clone();
                let (n, what) = { let mut v = pts(&mut q); let w = alter_pt(v[i].1, op, opts[i]); (v[i].0.clone(), w) };
                prf.push(mk(format!("{} {}", n, what), q));
            }
            // another of the same proof's points
            if !keep() { continue; }
            let mut q = base.clone();
            let j = (i + 1) % opts.len();
            let mut v = pts(&mut q);
            let (a, b) = (*v[i].1, *v[j].1);
            *v[i].1 = b;
            let n = format!("{} replaced by {}", v[i].0, v[j].0);
            prf.push(mk(n, q));
            let mut q = base.clone();
            let mut v = pts(&mut q);
            *v[i].1 = b;
            *v[j].1 = a;
            let n = format!("{} and {} swapped", v[i].0, v[j].0);
            prf.push(mk(n, q));
        }
        for i in 0..oels.len() {
            for op in 0..8 {
                if !keep() || (op > 2 && op != 4 && !c.thorough && (i + op + c.seed as usize) % 4 != 0) { continue; }
                let mut q = base.clone();
                let (n, what) = { let mut v = els(&mut q); let w = alter_el(v[i].1, op, oels[i], &mut rng); (v[i].0.clone(), w) };
                prf.push(mk(format!("{} {}", n, what), q));
            }
            let j = (i + 1) % oels.len();
            if !keep() { continue; }
            let mut q = base.clone();
            let mut v = els(&mut q);
            let (a, b) = (*v[i].1, *v[j].1);
            *v[i].1 = b;
            *v[j].1 = a;
            let n = format!("{} and {} swapped", v[i].0, v[j].0);
            prf.push(mk(n, q));
            // an alteration of a pair that keeps the sum
            let mut q = base.clone();
            let mut v = els(&mut q);
            let k = rng.gen_range(0, oels.len());
            if k != i {
                let d: SF<C> = uf(&mut rng);
                *v[i].1 = *v[i].1 + d;
                *v[k].1 = *v[k].1 - d;
                let n = format!("{} and {} shifted against each other", v[i].0, v[k].0);
                prf.push(mk(n, q));
            }
        }
        // shapes
        for op in 0..10 {
            for i in 0..4 {
                if !keep() { continue; }
                let mut q = base.clone();
                let (n, what) = { let mut v = pt_vecs(&mut q); let w = reshape(v[i].1, op); (v[i].0.clone(), w) };
                prf.push(mk(format!("{} {}", n, what), q));
                // both sides of the opening argument at once
                let mut q = base.clone();
                reshape(&mut q.halo_l, op);
                reshape(&mut q.halo_r, op);
                if i == 0 {
                    prf.push(mk(format!("halo_l and halo_r {}", what), q));
                }
            }
            for i in 0..15 {
                if !keep() { continue; }
                let mut q = base.clone();
                let (n, what) = { let mut v = el_vecs(&mut q); let w = reshape(v[i].1, op); (v[i].0.clone(), w) };
                prf.push(mk(format!("{} {}", n, what), q));
                if i < 5 {
                    let mut q = base.clone();
                    { let mut v = el_vecs(&mut q); for s in 0..3 { reshape(v[5 * s + i].1, op); } }
                    prf.push(mk(format!("{} {} in all three sets", n, what), q));
                }
            }
        }
        // the same flat list of openings cut at other places
        for a in 0..5usize {
            for sets in &[1usize, 7] {
                let mut q = base.clone();
                for (s, o) in vec![&mut q.o_local, &mut q.o_right, &mut q.o_below].into_iter().enumerate() {
                    if sets >> s & 1 == 0 { continue; }
                    match a {
                        0 => { let x = o.o_plonk_sigmas.remove(0); o.o_constants.push(x) }
                        1 => { let x = o.o_constants.pop().unwrap(); o.o_plonk_sigmas.insert(0, x) }
                        2 => { let x = o.o_wires.remove(0); o.o_plonk_sigmas.push(x) }
                        3 => { let x = o.o_plonk_sigmas.pop().unwrap(); o.o_wires.insert(0, x) }
                        _ => { let x = o.o_plonk_t.pop().unwrap(); o.o_old_proofs.insert(0, x) }
                    }
                }
                prf.push(mk(format!("openings re-cut {} sets {}", a, sets), q));
            }
        }
        for (a, b) in &[(0usize, 1usize), (0, 2), (1, 2)] {
            let mut q = base.clone();
            let mut s = vec![q.o_local.clone(), q.o_right.clone(), q.o_below.clone()];
            s.swap(*a, *b);
            q.o_local = s[0].clone();
            q.o_right = s[1].clone();
            q.o_below = s[2].clone();
            if q != *base {
                prf.push(mk(format!("opening sets {} and {} swapped", a, b), q));
            }
        }
        let mut q = base.clone();
        std::mem::swap(&mut q.halo_l, &mut q.halo_r);
        prf.push(mk("halo_l and halo_r swapped".into(), q));
        let mut q = base.clone();
        q.schnorr_proof = other.schnorr_proof;
        prf.push(mk("Schnorr proof of another proof".into(), q));
        let mut q = base.clone();
        q.halo_l = other.halo_l.clone();
        q.halo_r = other.halo_r.clone();
        q.halo_g = other.halo_g;
        q.schnorr_proof = other.schnorr_proof;
        prf.push(mk("opening argument of another proof".into(), q));
        let mut q = base.clone();
        q.o_local = other.o_local.clone();
        q.o_right = other.o_right.clone();
        q.o_below = other.o_below.clone();
        prf.push(mk("openings of another proof".into(), q));
        prf.retain(|a| a.p != *base);
    }
    let half = prf.len();
    refused::<C, I>(c, name, "proof", prf, false, 1);
    c.evn("proof-variants", half as u64, &[half as u64]);

    // statements
    let mk = |what: String, pis: Vec<SF<C>>| Alt { what: format!("public inputs: {}", what), pis, p: p.clone(), olds: olds.clone(), vk: clear(&m.vk, what.len()) };
    let mut v = vec![];
    for i in 0..m.pis.len() {
        for op in 0..8 {
            let mut x = m.pis.clone();
            let w = alter_el(&mut x[i], op, m.pis[(i + 1) % m.pis.len()], &mut rng);
            v.push(mk(format!("{} {}", i, w), x));
        }
        let mut x = m.pis.clone();
        let j = (i + 1) % x.len();
        x.swap(i, j);
        v.push(mk(format!("{} and {} swapped", i, j), x));
    }
    for op in 0..10 {
        let mut x = m.pis.clone();
        let w = reshape(&mut x, op);
        v.push(mk(format!("all {}", w), x));
    }
    let mut x = m.pis.clone();
    x.push(SF::<C>::ZERO);
    v.push(mk("extra zero".into(), x));
    v.retain(|a| a.pis != m.pis);
    refused::<C, I>(c, name, "public-inputs", v, false, sample);

    // earlier proofs
    let mk = |what: &str, olds: Vec<OldProof<C>>| Alt { what: format!("earlier proofs: {}", what), pis: m.pis.clone(), p: p.clone(), olds, vk: clear(&m.vk, what.len()) };
    let mut v = vec![
        mk("none", vec![]),
        mk("first only", vec![olds[0].clone()]),
        mk("second only", vec![olds[1].clone()]),
        mk("swapped", vec![olds[1].clone(), olds[0].clone()]),
        mk("first twice", vec![olds[0].clone(), olds[0].clone()]),
        mk("one more", vec![olds[0].clone(), olds[1].clone(), o2.clone()]),
        mk("foreign for the first", vec![o2.clone(), olds[1].clone()]),
        mk("foreign for the second", vec![olds[0].clone(), o2.clone()]),
    ];
    for i in 0..2 {
        for op in 0..12 {
            let mut o = olds.clone();
            let w = alter_pt(&mut o[i].halo_g, op, o2.halo_g);
            v.push(mk(&format!("generator of {} {}", i, w), o));
        }
        let k = olds[i].halo_us.len();
        for j in 0..k {
            for op in 0..8 {
                let mut o = olds.clone();
                let w = alter_el(&mut o[i].halo_us[j], op, o2.halo_us[j], &mut rng);
                v.push(mk(&format!("challenge {} of {} {}", j, i, w), o));
            }
        }
        if let Ok(ch) = p.get_challenges(&m.pis, &olds, 128) {
            for kind in 0..3 {
                for j in 0..k {
                    if let Some(us) = fitted(&olds[i].halo_us, ch.zeta, kind, j, &mut rng) {
                        let mut o = olds.clone();
                        o[i].halo_us = us;
                        v.push(mk(&format!("challenge {} of {} and what makes up for it (kind {})", j, i, kind), o));
                    }
                }
            }
        }
        for op in 0..10 {
            let mut o = olds.clone();
            let w = reshape(&mut o[i].halo_us, op);
            v.push(mk(&format!("challenges of {} {}", i, w), o));
        }
    }
    refused::<C, I>(c, name, "earlier-proofs", v, false, sample);
    let v = vec![
        Alt { what: "a plain proof with an earlier proof attached".into(), pis: m.pis.clone(), p: q0.clone(), olds: vec![olds[0].clone()], vk: m.vk.clone() },
        Alt { what: "a plain proof with two earlier proofs attached".into(), pis: m.pis.clone(), p: q0.clone(), olds: olds.clone(), vk: m.vk.clone() },
    ];
    refused::<C, I>(c, name, "earlier-proofs", v, false, sample);

    // keys
    let mk = |what: String, vk: VerificationKey<C>| Alt { what: format!("key: {}", what), pis: m.pis.clone(), p: p.clone(), olds: olds.clone(), vk };
    let mut v = vec![];
    for set in 0..2 {
        let len = if set == 0 { m.vk.c_constants.len() } else { m.vk.c_s_sigmas.len() };
        let nm = ["c_constants", "c_s_sigmas"][set];
        for i in 0..len {
            for op in 0..12 {
                let mut k = clear(&m.vk, i);
                let o = if set == 0 { m2.vk.c_constants[i] } else { m2.vk.c_s_sigmas[i] };
                let x = if set == 0 { &mut k.c_constants[i] } else { &mut k.c_s_sigmas[i] };
                let w = alter_pt(x, op, o);
                v.push(mk(format!("{}[{}] {}", nm, i, w), k));
            }
        }
        for op in 0..10 {
            let mut k = m.vk.clone();
            let w = reshape(if set == 0 { &mut k.c_constants } else { &mut k.c_s_sigmas }, op);
            v.push(mk(format!("{} {}", nm, w), k));
        }
    }
    let mut k = m.vk.clone();
    std::mem::swap(&mut k.c_constants, &mut k.c_s_sigmas);
    v.push(mk("constants and sigmas swapped".into(), k));
    let d = m.vk.degree;
    for nd in vec![d * 2, d / 2, d * 4, 0, 1, 2, 3, d + 1, d - 1] {
        let mut k = clear(&m.vk, nd);
        k.degree = nd;
        v.push(mk(format!("degree {} for {}", nd, d), k.clone()));
        k.clear_all();
        v.push(mk(format!("degree {} for {}, no caches", nd, d), k));
    }
    for s in vec![126usize, 130, 64, 127, 0, 1, 2, 254, 255, 256, 300, 1 << 20] {
        let mut k = m.vk.clone();
        k.security_bits = s;
        v.push(mk(format!("security level {}", s), k));
    }
    for n in vec![0usize, npis - 1, npis + 1, npis + 9, 1000] {
        let mut k = m.vk.clone();
        k.num_public_inputs = n;
        v.push(mk(format!("{} public inputs", n), k));
    }
    let w = m.vk.num_gates_without_pis;
    for n in vec![w + 1, w - 1, w + 2, 0, 1 % d] {
        let mut k = m.vk.clone();
        k.num_gates_without_pis = n;
        v.push(mk(format!("public inputs at row {} for {}", n, w), k));
    }
    v.push(Alt { what: "another circuit's key".into(), vk: m2.vk.clone(), ..mk("".into(), m.vk.clone()) });
    v.push(Alt { what: "another circuit's statement, proof and this key".into(), pis: m2.pis.clone(), p: q2.clone(), olds: vec![], vk: m.vk.clone() });
    let plain = clear(&m.vk, 3);
    v.retain(|a| clear(&a.vk, 3) != plain);
    refused::<C, I>(c, name, "key", v, false, sample);

    // changes that only a complete verification can be asked to notice, and a sample of the above
    let mk = |what: &str, f: &dyn Fn(&mut Proof<C>)| { let mut q = p.clone(); f(&mut q); Alt { what: what.to_string(), pis: m.pis.clone(), p: q, olds: olds.clone(), vk: m.vk.clone() } };
    refused::<C, I>(c, name, "complete", vec![
        mk("generator replaced", &|q| q.halo_g = add_g(q.halo_g)),
        mk("generator negated", &|q| q.halo_g = neg_pt(q.halo_g)),
        mk("wire commitment replaced", &|q| q.c_wires[8] = add_g(q.c_wires[8])),
        mk("response replaced", &|q| q.schnorr_proof.z2 = q.schnorr_proof.z2 + SF::<C>::ONE),
        mk("wire opening replaced", &|q| q.o_below.o_wires[3] = q.o_below.o_wires[3] + SF::<C>::ONE),
    ], true, 1);
    // still accepted as it was
    for g in &[false, true] {
        match judge::<C, I>(&m.pis, &p, &olds, &m.vk, *g) {
            Verdict::Accept(_) => c.ev("accepted-base", &(name, *g), true),
            _ => c.viol(&format!("{}/unaltered-refused", name), m.text.clone()),
        }
    }
}

// ---------------------------------------------------------------- C13

struct Tally {
    m: Mutex<BTreeMap<String, u64>>,
}

impl Tally {
    fn new() -> Self {
        Tally { m: Mutex::new(BTreeMap::new()) }
    }
    fn add(&self, k: String) {
        *self.m.lock().unwrap().entry(k).or_insert(0) += 1;
    }
    fn flush(&self, c: &Ctx, name: &str) {
        for (k, n) in self.m.lock().unwrap().iter() {
            c.evn(k, *n, &[h64(&(name, k))]);
        }
    }
}

fn short(e: &str) -> String {
    e.chars().filter(|c| !c.is_ascii_digit()).take(50).collect()
}

/// Finish a dishonest proof and put it before the verifier, which must refuse it.
fn fight<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, t: &Tally, name: &str, kind: &str, what: &str, a: &mut Adv<C, I>, vk: &VerificationKey<C>, lie: Lie, g: bool)
where
    SF<C>: FieldSpec,
{
    if let Err(e) = a.ipa(lie) {
        t.add(format!("prover gave up: {}: {}", kind, short(&e)));
        return;
    }
    judge_refuse::<C, I>(c, t, name, kind, what, a, vk, lie, g)
}

fn judge_refuse<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, t: &Tally, name: &str, kind: &str, what: &str, a: &Adv<C, I>, vk: &VerificationKey<C>, lie: Lie, g: bool)
where
    SF<C>: FieldSpec,
{
    match a.verdict(vk, g) {
        Verdict::Accept(_) => c.viol(&format!("{}/accepted:{}", name, kind), format!("a false proof was accepted: {} ({:?}, verify_g {})", what, lie, g)),
        Verdict::Crash(e) => c.viol(&format!("{}/crash:{}", name, kind), format!("{}: {}", what, e)),
        Verdict::Refuse(e) => t.add(format!("refused {}: {}", kind, short(&e))),
    }
    c.ev(&format!("cheat:{}", kind), &(name, what, lie, g), true);
}

fn touches_pis<C: HaloCurve>(m: &Made<C>, i: usize) -> bool {
    let k = m.circ.num_gates_without_pis;
    i >= k && i < k + 2 * ((m.pis.len() + NW - 1) / NW)
}

/// Assignments that break exactly one kind of gate constraint, with all copies intact.
fn gate_breaks<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(m: &Made<C>, rng: &mut R, max: usize) -> Vec<(String, Vec<Vec<SF<C>>>)>
where
    SF<C>: FieldSpec,
{
    let n = m.e.n;
    let mut seen: HashMap<String, usize> = HashMap::new();
    let mut out = vec![];
    let mut at: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..NW).map(move |j| (i, j))).collect();
    at.shuffle(rng);
    for (i, j) in at {
        let members: Vec<usize> = if j < NR { m.e.cycles[m.e.cyc_of[j * n + i]].clone() } else { vec![j * n + i] };
        if members.iter().any(|&k| touches_pis(m, k % n)) {
            continue;
        }
        let mut r = m.rows.clone();
        let v = r[i][j] + if rng.gen() { SF::<C>::ONE } else { uf(rng) };
        for &k in &members {
            r[k % n][k / n] = v;
        }
        if let Some(u) = unsat::<C, I>(&m.circ, &m.e, &r, Some(&m.rows)) {
            let key: String = u.split('(').nth(1).unwrap_or("?").to_string();
            let k = seen.entry(key.clone()).or_insert(0);
            *k += 1;
            if *k <= max {
                out.push((format!("{} broken by wire {} of row {}", u, j, i), r));
            }
        }
    }
    out
}

fn gates_ok<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(m: &Made<C>, rows: &[Vec<SF<C>>]) -> bool {
    let n = m.e.n;
    let changed = |i: usize| rows[i % n] != m.rows[i % n];
    (0..n).filter(|&i| changed(i) || changed(i + 1) || changed(i + GRID)).all(|i| evaluate_all_constraints::<C, I>(&m.circ.gate_constants[i], &rows[i], &rows[(i + 1) % n], &rows[(i + GRID) % n]).iter().all(|x| x.is_zero()))
}

/// Assignments with all gates satisfied and a copy constraint broken. The flag: the break is at a public
/// input, which is then claimed to be the new value.
fn copy_breaks<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(m: &Made<C>, rng: &mut R, max: usize) -> Vec<(String, Vec<Vec<SF<C>>>, Vec<SF<C>>)>
where
    SF<C>: FieldSpec,
{
    let n = m.e.n;
    let mut out = vec![];
    let mut pi_at = vec![];
    for k in 0..m.pis.len() {
        pi_at.push((m.circ.num_gates_without_pis + 2 * (k / NW), k % NW));
    }
    // a public input other than the one that was used
    for (k, &(i, j)) in pi_at.iter().enumerate().take(max) {
        let mut r = m.rows.clone();
        let v: SF<C> = uf(rng);
        r[i][j] = v;
        if j >= NR {
            r[i + 1][j - NR] = v;
        }
        if gates_ok::<C, I>(m, &r) && unsat::<C, I>(&m.circ, &m.e, &r, Some(&m.rows)).is_some() {
            let mut p = m.pis.clone();
            p[k] = v;
            out.push((format!("public input {} differs from the value used", k), r, p));
        }
    }
    // arithmetic gates computing on other operands, and single wires
    let mut at: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..NW).map(move |j| (i, j))).collect();
    at.shuffle(rng);
    let mut cnt = 0;
    for (i, j) in at {
        if touches_pis(m, i) || cnt >= max {
            continue;
        }
        let mut r = m.rows.clone();
        r[i][j] = uf(rng);
        let k = &m.circ.gate_constants[i];
        if gate_name(k) == "Arithmetic" {
            r[i][3] = k[4] * r[i][0] * r[i][1] + k[5] * r[i][2];
        }
        if gates_ok::<C, I>(m, &r) && unsat::<C, I>(&m.circ, &m.e, &r, Some(&m.rows)).is_some() {
            out.push((format!("{} row {} computes on another wire {}", gate_name(k), i, j), r, m.pis.clone()));
            cnt += 1;
        }
    }
    out
}

/// Make the identities hold at zeta by lying about one opening (two where needed).
fn cover<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(a: &mut Adv<C, I>, how: usize) -> Option<String>
where
    SF<C>: FieldSpec,
{
    let (set, s) = match how % 20 {
        0 => (0, Slot::T(0)),
        1 => (0, Slot::T(6)),
        2 => (0, Slot::Z),
        3 => (1, Slot::Z),
        4 => (0, Slot::Sigma(how / 20 % NR)),
        5 => (0, Slot::K(4)),
        6 => (0, Slot::K(5)),
        7 => (0, Slot::Wire(how / 20 % NR)),
        8 => (1, Slot::Wire(how / 20 % 4)),
        9 => (0, Slot::K(how / 20 % 4)),
        10 => (0, Slot::T(how / 20 % 7)),
        11 => {
            if !a.solve_pair(how / 20 % 6, (how / 20 + 1) % 6) {
                return None;
            }
            a.fix_q();
            return Some("two wires".into());
        }
        _ => (0, Slot::T(1 + how % 5)),
    };
    if a.gaps().0.is_zero() || !a.solve_slot(set, s) {
        return None;
    }
    a.fix_q();
    let (x, y) = a.gaps();
    if x.is_zero() && y.is_zero() {
        Some(format!("{:?} of set {}", s, set))
    } else {
        None
    }
}

/// Which challenges must depend on which part of a proof.
fn c13_binding<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, pis: &[SF<C>], p: &Proof<C>, olds: &[OldProof<C>], sec: usize, rng: &mut R, share: usize)
where
    SF<C>: FieldSpec,
{
    let list = |pis: &[SF<C>], p: &Proof<C>, olds: &[OldProof<C>]| -> Result<Vec<SF<C>>, String> {
        let ch = guard(|| p.get_challenges(pis, olds, sec)).and_then(|r| r.map_err(|e| e.to_string()))?;
        let mut v = vec![ch.beta, ch.gamma, ch.alpha, ch.zeta, ch.v, ch.u, ch.u_scaling];
        v.extend(ch.halo_us.iter().map(|&u| u * u));
        v.push(ch.schnorr_challenge);
        Ok(v)
    };
    let mut short = p.clone();
    short.halo_l.clear();
    short.halo_r.clear();
    let full = match list(pis, p, olds) {
        Ok(v) => v,
        Err(e) => return c.viol(&format!("{}/challenges", name), e),
    };
    let brief = list(pis, &short, olds).unwrap();
    let mut d: Vec<SF<C>> = full.clone();
    d.sort_by_key(|x| x.val());
    d.dedup();
    c.check(d.len() == full.len(), &format!("{}/repeated-challenge", name), || format!("challenges repeat: {:?}", full.iter().map(|x| x.val()).collect::<Vec<_>>()));
    let names = ["beta", "gamma", "alpha", "zeta", "v", "u", "u_scaling"];
    let mut jobs: Vec<(String, usize, bool, Vec<SF<C>>, Proof<C>, Vec<OldProof<C>>)> = vec![];
    let mut q0 = p.clone();
    let np = pts(&mut q0).len();
    for i in 0..np {
        for op in &[0usize, 1, 2, 9, 12] {
            let mut q = p.clone();
            let nm = {
                let mut v = pts(&mut q);
                if *op == 12 {
                    if i + 1 == np || v[i].0.split('[').next() != v[i + 1].0.split('[').next() {
                        continue;
                    }
                    let (a, b) = (*v[i].1, *v[i + 1].1);
                    *v[i].1 = b;
                    *v[i + 1].1 = a;
                    format!("{} swapped with the next", v[i].0)
                } else {
                    let w = alter_pt(v[i].1, *op, C::GENERATOR_AFFINE);
                    format!("{} {}", v[i].0, w)
                }
            };
            let (from, whole) = if nm.starts_with("c_wires") {
                (0, false)
            } else if nm.starts_with("c_plonk_z") {
                (2, false)
            } else if nm.starts_with("c_plonk_t") || nm.starts_with("c_pis") {
                (3, false)
            } else if nm.starts_with("halo_l") || nm.starts_with("halo_r") {
                let k: usize = nm.split('[').nth(1).unwrap().split(']').next().unwrap().parse().unwrap();
                (7 + k, true)
            } else if nm.starts_with("schnorr") {
                (usize::MAX, true)
            } else {
                continue;
            };
            if q == *p {
                continue;
            }
            if !whole {
                q.halo_l.clear();
                q.halo_r.clear();
            }
            jobs.push((nm, from, whole, pis.to_vec(), q, olds.to_vec()));
        }
    }
    let ne = els(&mut q0).len();
    for i in 0..ne {
        for op in &[0usize, 2, 12] {
            let mut q = short.clone();
            let nm = {
                let mut v = els(&mut q);
                if v[i].0.starts_with("schnorr") {
                    continue;
                }
                if *op == 12 {
                    let (a, b) = (*v[i].1, *v[(i + 1) % (ne - 2)].1);
                    *v[i].1 = b;
                    *v[(i + 1) % (ne - 2)].1 = a;
                    format!("{} swapped with the next", v[i].0)
                } else {
                    let w = alter_el(v[i].1, *op, SF::<C>::ONE, rng);
                    format!("{} {}", v[i].0, w)
                }
            };
            if q == short {
                continue;
            }
            jobs.push((nm, 4, false, pis.to_vec(), q, olds.to_vec()));
        }
    }
    for i in 0..pis.len() {
        let mut x = pis.to_vec();
        x[i] = x[i] + SF::<C>::ONE;
        jobs.push((format!("public input {}", i), 0, false, x, short.clone(), olds.to_vec()));
        if i > 0 && pis[i] != pis[i - 1] {
            let mut x = pis.to_vec();
            x.swap(i, i - 1);
            jobs.push((format!("public inputs {} and {} swapped", i, i - 1), 0, false, x, short.clone(), olds.to_vec()));
        }
    }
    for i in 0..olds.len() {
        for op in &[0usize, 1] {
            let mut o = olds.to_vec();
            alter_pt(&mut o[i].halo_g, *op, C::GENERATOR_AFFINE);
            jobs.push((format!("generator of earlier proof {}", i), 3, false, pis.to_vec(), short.clone(), o));
        }
    }
    let share = share.min(8);
    let mut cnt = c.seed as usize;
    jobs.retain(|_| { cnt += 1; cnt % share == 0 });
    jobs.into_par_iter().for_each(|(nm, from, whole, x, q, o)| {
        // a message is observed before the next challenge, so that one and all later ones must change; an
        // altered opening round may leave a transcript the prover would have to redo
        match list(&x, &q, &o) {
            Err(e) => {
                c.check(whole || e.contains("field failed"), &format!("{}/challenges", name), || format!("{}: {}", nm, e));
                c.ev("binding-invalid-transcript", &(name, nm), true);
            }
            Ok(v) => {
                let base = if whole { &full } else { &brief };
                let from = from.min(base.len() - 1);
                for k in from..base.len() {
                    let cn = if k < 7 { names[k].to_string() } else if k + 1 == base.len() { "Schnorr challenge".into() } else { format!("round {}", k - 7) };
                    c.check(v[k] != base[k], &format!("{}/predictable:{}", name, nm.split(|c: char| c == '[' || c == ' ').next().unwrap_or("")), || format!("{} does not depend on {}", cn, nm));
                }
                c.ev("binding", &(name, nm), true);
            }
        }
    });
}

type Job<'a> = Box<dyn Fn() + Send + Sync + 'a>;

fn c13_light<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    c13_at::<C, I>(c, name, "little", 12)
}

fn c13<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    c13_at::<C, I>(c, name, "small", 1)
}

/// Rows below differ from rows to the right from 128 rows on.
fn c13_large<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    c13_at::<C, I>(c, name, "large", if c.thorough { 2 } else { 24 })
}

fn c13_at<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, size: &str, share: usize)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("{}-{}", name, size));
    let steps = if size == "large" { vec![30, 31, 16, 9] } else { vec![2, 5, 16, 13] };
    let m = match make::<C, I>(&mut rng, &Recipe { sec: 128, npis: if size == "large" { 11 } else { 4 + (c.seed as usize + name.len()) % 8 }, steps, pad: 0 }) {
        Ok(m) => m,
        Err(e) => return c.note(format!("{}: no circuit: {}", name, e)),
    };
    c.sample("statement", || m.text.clone());
    let t = Tally::new();
    let vk = &m.vk;
    let new = |rows: &Vec<Vec<SF<C>>>, pis: &Vec<SF<C>>, olds: &Vec<OldProof<C>>, k: u64| {
        let mut a = Adv::<C, I>::new(&m.circ, &m.e, rows.clone(), pis.clone(), olds.clone(), true, c.rng(&format!("{}-{}-adv{}", name, size, k)));
        a.blind = k % 2 == 0;
        a
    };
    // control: the same prover without the cheating is accepted
    let mut honest = new(&m.rows, &m.pis, &vec![], 0);
    let ok = honest.honest_to_openings();
    if !matches!(ok, Ok(true)) {
        return c.note(format!("{} {}: the reference prover finds {:?} for an honest witness; attacks skipped", name, size, ok));
    }
    let mut first = honest.fork(1);
    let mut olds = vec![];
    match first.ipa(Lie::No).map(|_| first.verdict(vk, true)) {
        Ok(Verdict::Accept(_)) => c.ev("control-accepted", &(name, size), true),
        r => {
            let own = prove::<C, I>(&m.circ, &m.wit, &[], false).map(|p| matches!(judge::<C, I>(&m.pis, &p, &[], vk, true), Verdict::Accept(_)));
            if own == Ok(true) {
                // the verifier no longer checks the statement of the protocol, whatever it checks instead
                let e = match r { Ok(Verdict::Refuse(e)) | Ok(Verdict::Crash(e)) | Err(e) => e, _ => String::new() };
                c.viol(&format!("{}/protocol-departed", name), format!("{}: an honest proof made by the reference prover is refused ({}), one made by the library for the same witness is accepted", size, e));
            }
            return c.note(format!("{} {}: the reference prover is refused for an honest witness; attacks skipped", name, size));
        }
    }
    if let Verdict::Accept(Some(o)) = first.verdict(vk, false) {
        olds.push(o);
    }
    c13_binding::<C, I>(c, name, &m.pis, &first.p, &[], 128, &mut rng, share);
    // the same with an earlier proof attached
    let mut with_old = new(&m.rows, &m.pis, &olds, 2);
    let have_old = !olds.is_empty() && matches!(with_old.honest_to_openings(), Ok(true));

    let breaks = gate_breaks::<C, I>(&m, &mut rng, c.n(1, 4));
    let copies = copy_breaks::<C, I>(&m, &mut rng, c.n(3, 8));
    let mut jobs: Vec<Job> = vec![];
    let mut cnt = c.seed as usize + name.len();
    let mut keep = |share: usize| { cnt += 1; cnt % share == 0 };

    // every opened value wrong, the identities patched up elsewhere
    for (tag, base, no) in vec![("", &honest, 0usize), ("absorbing ", &with_old, 1)] {
        if no == 1 && !have_old {
            continue;
        }
        for set in 0..3usize {
            for s in slots(no) {
                let old = matches!(s, Slot::Old(_));
                if !keep(if no == 1 && !old { share * 8 } else { share }) {
                    continue;
                }
                let seed = rng.gen::<u64>();
                let m = &m;
                let t = &t;
                jobs.push(Box::new(move || {
                    let mut a = base.fork(seed);
                    let d: SF<C> = uf(&mut a.rng);
                    let x = slot(a.openings(set), s);
                    *x = *x + d;
                    if s != Slot::Q || set != 0 {
                        a.fix_q();
                    }
                    let lie_t = if s == Slot::T(0) && set == 0 { Slot::T(1) } else { Slot::T(0) };
                    if !a.gaps().0.is_zero() {
                        a.solve_slot(0, lie_t);
                    }
                    let kind = format!("opening-{}", ["local", "right", "below"][set]);
                    fight(c, t, name, &kind, &format!("{}{}{:?} opened wrong", tag, kind, s), &mut a, &m.vk, Lie::No, false);
                    if seed % 8 == 0 {
                        fight(c, t, name, &kind, &format!("{}{}{:?} opened wrong", tag, kind, s), &mut a, &m.vk, Lie::G, true);
                    }
                }));
            }
        }
    }
    // two openings wrong by opposite amounts
    for k in 0..24 / share.min(12) {
        let seed = rng.gen::<u64>();
        let (m, t, honest) = (&m, &t, &honest);
        jobs.push(Box::new(move || {
            let mut a = honest.fork(seed);
            let d: SF<C> = uf(&mut a.rng);
            let all = slots(0);
            let s1 = all[a.rng.gen_range(0, all.len())];
            let (set1, set2, s2) = if k % 2 == 0 { (1, 2, s1) } else { (2, 2, all[a.rng.gen_range(0, all.len())]) };
            if set1 == set2 && s1 == s2 {
                return;
            }
            let x = slot(a.openings(set1), s1);
            *x = *x + d;
            let x = slot(a.openings(set2), s2);
            *x = *x - d;
            let (g, _) = a.gaps();
            if !g.is_zero() {
                a.solve_slot(0, Slot::T(0));
            }
            fight(c, t, name, "openings-cancelling", &format!("{:?} of set {} and {:?} of set {} wrong by opposite amounts", s1, set1, s2, set2), &mut a, &m.vk, Lie::No, false);
        }));
    }
    // one message chosen after the fact
    let late: Vec<Lie> = {
        let mut v = vec![Lie::G, Lie::R];
        let r = m.e.n.trailing_zeros() as usize;
        for i in 0..r {
            v.push(Lie::Left(i));
            v.push(Lie::Right(i));
        }
        v.extend((0..NW + 1 + NT + 1).map(Lie::Commitment));
        v
    };
    for lie in late {
        if lie != Lie::G && lie != Lie::R && !keep(share) {
            continue;
        }
        let seed = rng.gen::<u64>();
        let (m, t, honest) = (&m, &t, &honest);
        jobs.push(Box::new(move || {
            let mut a = honest.fork(seed);
            let x = slot(a.openings(1), Slot::T(3));
            *x = *x + SF::<C>::ONE;
            fight(c, t, name, "late-message", &format!("{:?} chosen last", lie), &mut a, &m.vk, lie, lie == Lie::G);
        }));
    }
    // Schnorr responses that do not answer the challenge
    for k in 0..4 {
        let seed = rng.gen::<u64>();
        let (m, t, honest) = (&m, &t, &honest);
        jobs.push(Box::new(move || {
            let mut a = honest.fork(seed);
            if a.ipa(Lie::No).is_err() {
                return;
            }
            let s = &mut a.p.schnorr_proof;
            let one = SF::<C>::ONE;
            match k {
                0 => s.z1 = s.z1 + one,
                1 => s.z2 = s.z2 + one,
                2 => { s.z1 = SF::<C>::ZERO; s.z2 = SF::<C>::ZERO }
                _ => std::mem::swap(&mut s.z1, &mut s.z2),
            }
            judge_refuse(c, t, name, "schnorr", &format!("response altered {}", k), &a, &m.vk, Lie::No, k % 2 == 0);
        }));
    }
    // a witness that violates a gate
    for (what, rows) in &breaks {
        for plan in 0..3usize {
            if plan > 0 && !keep(share.min(2) * if c.thorough { 1 } else { 3 }) {
                continue;
            }
            let seed = rng.gen::<u64>();
            let (m, t, new) = (&m, &t, &new);
            jobs.push(Box::new(move || {
                let mut a = new(rows, &m.pis, &vec![], seed);
                if a.honest_to_openings().is_err() {
                    return;
                }
                match plan {
                    0 => fight(c, t, name, "gate", &format!("{}, quotient rounded", what), &mut a, &m.vk, Lie::No, false),
                    _ => {
                        if let Some(h) = cover(&mut a, (seed % 240) as usize) {
                            fight(c, t, name, "gate-covered", &format!("{}, covered by {}", what, h), &mut a, &m.vk, if plan == 1 { Lie::No } else { Lie::G }, plan == 2);
                        }
                    }
                }
            }));
        }
    }
    // a witness that violates a copy constraint
    for (what, rows, pis) in &copies {
        for plan in 0..9usize {
            if plan > 0 && !keep(if c.thorough { 1 } else { share.min(3) }) {
                continue;
            }
            let seed = rng.gen::<u64>();
            let (m, t, new) = (&m, &t, &new);
            jobs.push(Box::new(move || {
                let mut a = new(rows, pis, &vec![], seed);
                a.wires();
                let ch = match a.chal() { Ok(c) => c, Err(_) => return };
                let n = a.n;
                let one = SF::<C>::ONE;
                let how = ["product does not close", "product restarted in the middle", "product restarted at row 1", "product zero", "product one", "product closes from the end", "product starts at two", "product random", "product does not close"][plan];
                let z = match plan {
                    0 | 8 => a.product(ch.beta, ch.gamma, one, n),
                    1 => { let k = a.rng.gen_range(2, n); a.product(ch.beta, ch.gamma, one, k) }
                    2 => a.product(ch.beta, ch.gamma, one, 1),
                    3 => vec![SF::<C>::ZERO; n],
                    4 => vec![one; n],
                    5 => a.product(ch.beta, ch.gamma, one, 0),
                    6 => a.product(ch.beta, ch.gamma, one + one, n),
                    _ => (0..n).map(|_| uf(&mut a.rng)).collect(),
                };
                a.set_z(z);
                if a.finish_polys().is_err() {
                    return;
                }
                if plan < 8 {
                    fight(c, t, name, "copy", &format!("{}, {}", what, how), &mut a, &m.vk, Lie::No, false);
                }
                if plan == 8 || m.e.n < 64 && seed % 3 == 0 {
                    if let Some(h) = cover(&mut a, (seed % 240) as usize) {
                        fight(c, t, name, "copy-covered", &format!("{}, {}, covered by {}", what, how, h), &mut a, &m.vk, Lie::No, false);
                    }
                }
            }));
        }
    }
    // an honest witness with other public inputs claimed
    for k in 0..if share == 1 { 12 } else { 4 } {
        let seed = rng.gen::<u64>();
        let (m, t, new) = (&m, &t, &new);
        jobs.push(Box::new(move || {
            let mut a = new(&m.rows, &m.pis, &vec![], seed);
            let mut what;
            let i = a.rng.gen_range(0, m.pis.len());
            let j = a.rng.gen_range(0, m.pis.len());
            match k % 6 {
                0 => { a.pis[i] = a.pis[i] + SF::<C>::ONE; what = format!("public input {} off by one", i); }
                1 => { a.pis.swap(i, j); what = format!("public inputs {} and {} swapped", i, j); }
                2 => { a.pis[i] = SF::<C>::ZERO; what = format!("public input {} zero", i); }
                _ => {
                    // shifted so that the combination is unchanged for the alpha of another transcript
                    a.wires();
                    let ch = match a.chal() { Ok(c) => c, Err(_) => return };
                    if ch_set_z(&mut a, &ch).is_err() {
                        return;
                    }
                    let alpha = match a.chal() { Ok(c) => c.alpha, Err(_) => return };
                    let i = i % NW;
                    let j = (i + 1) % m.pis.len().min(NW);
                    if i == j || i >= m.pis.len() {
                        return;
                    }
                    let d: SF<C> = uf(&mut a.rng);
                    a.pis[i] = a.pis[i] + d;
                    a.pis[j] = a.pis[j] - d * alpha.exp_usize(i) * finv(alpha.exp_usize(j));
                    what = format!("public inputs {} and {} shifted to suit alpha", i, j);
                    if k % 6 == 3 {
                        // keep the messages of the first transcript
                        let (q, exact) = a.pi_quotient(alpha);
                        if !exact {
                            return;
                        }
                        let (tq, _) = a.quotient(&a.vanishing(&ch_alpha(&ch, alpha)));
                        a.set_t(&tq);
                        a.set_q(q);
                        if a.open().is_err() {
                            return;
                        }
                        fight(c, t, name, "public-input", &what, &mut a, &m.vk, Lie::No, false);
                        return;
                    }
                }
            }
            if a.pis == m.pis {
                return;
            }
            if a.honest_to_openings().is_err() {
                return;
            }
            if k % 2 == 1 {
                a.fix_q();
                what += ", quotient opened to suit";
            }
            fight(c, t, name, "public-input", &what, &mut a, &m.vk, Lie::No, false);
        }));
    }
    // polynomials exchanged: z, t or the public-input quotient of something else
    for k in 0..4 {
        if share > 1 && k > 1 {
            continue;
        }
        let seed = rng.gen::<u64>();
        let (m, t, honest) = (&m, &t, &honest);
        jobs.push(Box::new(move || {
            let mut a = honest.fork(seed);
            match k {
                0 => { let q: Vec<SF<C>> = (0..NT * a.n).map(|_| uf(&mut a.rng)).collect(); a.set_t(&q) }
                1 => a.set_q(vec![SF::<C>::ZERO; a.n]),
                2 => { let q = vec![SF::<C>::ZERO; NT * a.n]; a.set_t(&q) }
                _ => { let q: Vec<SF<C>> = (0..a.n).map(|_| uf(&mut a.rng)).collect(); a.set_q(q) }
            }
            if a.open().is_err() {
                return;
            }
            fight(c, t, name, "forged-quotient", &format!("quotient exchanged {}", k), &mut a, &m.vk, Lie::No, false);
            if k == 0 || k == 2 {
                a.solve_slot(0, Slot::T(0));
            } else {
                a.fix_q();
            }
            fight(c, t, name, "forged-quotient", &format!("quotient exchanged and opened to suit {}", k), &mut a, &m.vk, Lie::G, true);
        }));
    }
    c.evn("cheats-planned", jobs.len() as u64, &[h64(&(name, size, jobs.len()))]);
    jobs.par_iter().with_max_len(1).for_each(|j| {
        if !c.thorough || c.time_left() {
            j()
        }
    });
    drop(jobs);
    t.flush(c, name);
}

fn ch_set_z<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(a: &mut Adv<C, I>, ch: &ProofChallenge<C>) -> Result<(), String>
where
    SF<C>: FieldSpec,
{
    let v = a.product(ch.beta, ch.gamma, SF::<C>::ONE, a.n);
    a.set_z(v);
    Ok(())
}

fn ch_alpha<C: HaloCurve>(ch: &ProofChallenge<C>, alpha: SF<C>) -> ProofChallenge<C> {
    let mut c = ch.clone();
    c.alpha = alpha;
    c
}

/// The library's own prover, run over a circuit that is not the one of the key: other permutation polynomials, or
/// rows stripped of their gates. Its statement is true for the altered circuit and false for the key's. This needs no
/// model of the protocol, so it also works when prover and verifier agree on leaving something out.
fn c13_puppet<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("{}-puppet", name));
    let t = Tally::new();
    for round in 0..c.n(1, 6) {
        let recipe = Recipe { sec: 128, npis: 1 + rng.gen_range(0, 10), steps: vec![2, 5, 16, 13], pad: 0 };
        let mut again = rng.clone();
        // the key's circuit, and one built the same way to be altered
        let (m, mut k) = match (make::<C, I>(&mut rng, &recipe), make::<C, I>(&mut again, &recipe)) {
            (Ok(m), Ok(k)) => (m, k.circ),
            (Err(e), _) | (_, Err(e)) => { c.note(format!("{}: no circuit: {}", name, e)); continue }
        };
        let n = m.circ.degree();
        // per sigma column and per constant column: the values over the n rows
        let table = |cols: Vec<Vec<SF<C>>>| {
            let polys: Vec<Polynomial<SF<C>>> = cols.iter().map(|v| Polynomial::from_evaluations(v, &m.circ.fft_precomputation_n)).collect();
            let wide: Vec<Vec<SF<C>>> = polys.iter().map(|p| p.eval_domain(&m.circ.fft_precomputation_8n)).collect();
            (polys, wide)
        };
        let commit = |p: &[Polynomial<SF<C>>]| PolynomialCommitment::coeffs_vec_to_commitments(&p.iter().map(|p| { let mut p = p.clone(); p.pad(n); p.coeffs().to_vec() }).collect::<Vec<_>>().iter().map(|v| &v[..]).collect::<Vec<_>>(), &m.circ.pedersen_g_msm_precomputation, m.circ.pedersen_h, false);
        let one = |k: &Circuit<C>, kind: &str, what: &str, rows: &Vec<Vec<SF<C>>>, pis: &Vec<SF<C>>| -> bool {
            let p = match prove::<C, I>(k, &Witness::new(rows.clone()), &[], false) {
                Ok(p) => p,
                Err(e) => { t.add(format!("puppet {} gave up: {}", kind, short(&e))); return false }
            };
            let mut accepted = true;
            for g in 0..2 {
                let v = judge::<C, I>(pis, &p, &[], &m.vk, g == 1);
                c.ev(&format!("puppet:{}", kind), &(name, round, what, g), true);
                match v {
                    Verdict::Accept(_) if kind == "control" => continue,
                    Verdict::Accept(_) => c.viol(&format!("{}/accepted:puppet-{}", name, kind), format!("the library's prover on a circuit with {} proved for the key: {} (verify_g {})", kind, what, g)),
                    Verdict::Crash(e) => c.viol(&format!("{}/crash:puppet-{}", name, kind), format!("{}: {}", what, e)),
                    Verdict::Refuse(e) => t.add(format!("refused puppet {}: {}", kind, short(&e))),
                }
                accepted = false;
            }
            accepted
        };
        if !one(&k, "control", "", &m.rows, &m.pis) {
            c.note(format!("{}: the library's own proof of an honest witness is refused", name));
            continue;
        }
        // a permutation that joins nothing
        let ident: Vec<Vec<SF<C>>> = m.e.shifts.iter().map(|s| m.circ.subgroup_n.iter().map(|g| *g * *s).collect()).collect();
        let (polys, wide) = table(ident);
        k.s_sigma_polynomials = polys.clone();
        k.s_sigma_values_8n = wide;
        let breaks = copy_breaks::<C, I>(&m, &mut rng, 2);
        for own in 0..2 {
            if own == 1 {
                k.c_s_sigmas = commit(&polys);
            }
            for (what, rows, pis) in &breaks {
                one(&k, "no-copies", &format!("{} (own commitments {})", what, own), rows, pis);
            }
        }
        k.s_sigma_polynomials = m.circ.s_sigma_polynomials.clone();
        k.s_sigma_values_8n = m.circ.s_sigma_values_8n.clone();
        k.c_s_sigmas = m.circ.c_s_sigmas.clone();
        // gates that constrain nothing
        let idle = m.circ.gate_constants[m.circ.num_gates_without_pis - 2].clone();
        if gate_name(&idle) == "Buffer" {
            let pi0 = m.circ.num_gates_without_pis;
            let consts: Vec<Vec<SF<C>>> = (0..n).map(|i| if i >= pi0 { m.circ.gate_constants[i].clone() } else { idle.clone() }).collect();
            let width = m.circ.constant_polynomials.len();
            let cols = (0..width).map(|j| (0..n).map(|i| consts[i].get(j).copied().unwrap_or(SF::<C>::ZERO)).collect()).collect();
            let (polys, wide) = table(cols);
            k.gate_constants = consts;
            k.constant_polynomials = polys.clone();
            k.constants_8n = wide;
            let breaks = gate_breaks::<C, I>(&m, &mut rng, 1);
            for own in 0..2 {
                if own == 1 {
                    k.c_constants = commit(&polys);
                }
                for (what, rows) in breaks.iter().take(c.n(3, 12)) {
                    one(&k, "no-gates", &format!("{} (own commitments {})", what, own), rows, &m.pis);
                }
            }
        }
    }
    t.flush(c, name);
}

// ---------------------------------------------------------------- C19

fn c19_commit<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    C::BaseField: FieldSpec,
{
    let rc = RefCurve::of::<C>();
    let h: AffinePoint<C> = blake_hash_usize_to_curve(1000);
    let hp = pt::<C>(&h);
    let degrees: Vec<usize> = if c.thorough { vec![1, 2, 3, 4, 5, 7, 8, 16, 17, 32, 33, 64] } else { vec![1, 2, 3, 8, 13, 16] };
    degrees.par_iter().for_each(|&d| {
        let mut rng = c.rng(&format!("commit{}-{}", name, d));
        let g: Vec<AffinePoint<C>> = (0..d).map(blake_hash_usize_to_curve::<C>).collect();
        let gp: Vec<Pt> = g.iter().map(|p| pt::<C>(p)).collect();
        let reference = |a: &[SF<C>], r: SF<C>| {
            let mut s = rc.mul(&r.val(), &hp);
            for (x, p) in a.iter().zip(&gp) {
                s = rc.add(&s, &rc.mul(&x.val(), p));
            }
            s
        };
        for round in 0..c.n(3, 12) {
            let w = 1 + rng.gen_range(0, 10);
            let pre = msm_precompute(&AffinePoint::batch_to_projective(&g), w);
            let hostile_poly = |rng: &mut R, k: usize| -> Vec<SF<C>> {
                match k % 5 {
                    0 => vec![SF::<C>::ZERO; d],
                    1 => { let mut v = vec![SF::<C>::ZERO; d]; v[rng.gen_range(0, d)] = uf(rng); v }
                    2 => (0..d).map(|_| rf(rng)).collect(),
                    3 => { let x = rf(rng); vec![x; d] }
                    _ => (0..d).map(|_| uf(rng)).collect(),
                }
            };
            let off = rng.gen_range(0, 5);
            let polys: Vec<Vec<SF<C>>> = (0..4).map(|k| hostile_poly(&mut rng, k + off)).collect();
            let refs: Vec<&[SF<C>]> = polys.iter().map(|p| &p[..]).collect();
            for &blind in &[false, true] {
                let batch = PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, &pre, h, blind);
                let list = commit_polynomials::<C>(&polys.iter().map(|p| Polynomial::from(p.clone())).collect::<Vec<_>>(), &pre, h, blind);
                let aff_all = PolynomialCommitment::commitments_to_affine_vec(&batch);
                c.check(batch.len() == polys.len() && list.len() == polys.len(), &format!("{}/commitment-count", name), || format!("{} {}", batch.len(), list.len()));
                for (k, a) in polys.iter().enumerate() {
                    let one = PolynomialCommitment::<C>::coeffs_to_commitment(a, &pre, h, blind);
                    let poly = Polynomial::from(a.clone()).commit(&pre, h, blind);
                    for (how, cm) in &[("single", one), ("batch", batch[k]), ("list", list[k]), ("polynomial", poly)] {
                        c.check(blind || cm.randomness.is_zero(), &format!("{}/unblinded-randomness", name), || format!("{} degree {}", how, d));
                        let want = reference(a, cm.randomness);
                        c.eq(&pt::<C>(&cm.to_affine()), &want, &format!("{}/commitment-{}", name, how), || format!("degree {} window {} blinding {}", d, w, blind));
                        c.ev("commitment", &(name, d, round, k, how, blind), a.iter().any(|x| !x.is_zero()));
                    }
                    c.check(aff_all[k] == batch[k].to_affine(), &format!("{}/affine-list", name), || format!("{}", k));
                    let direct = pedersen_hash(a, &pre);
                    c.eq(&pt::<C>(&direct.to_affine()), &reference(a, SF::<C>::ZERO), &format!("{}/pedersen-hash", name), || format!("degree {}", d));
                }
                // lists that mix both representations, in any order, keep every commitment and its randomness
                for mix in 0..6usize {
                    let mut l: Vec<PolynomialCommitment<C>> = vec![];
                    for _ in 0..[0, 1, 2, 3, 5, 8][mix] {
                        let k = rng.gen_range(0, polys.len());
                        let one = PolynomialCommitment::<C>::coeffs_to_commitment(&polys[k], &pre, h, blind);
                        l.push(match rng.gen_range(0, 3) {
                            0 => one,
                            1 => PolynomialCommitment::from(one.to_affine()),
                            _ => batch[k],
                        });
                    }
                    let before: Vec<_> = l.iter().map(|x| (x.to_affine(), x.randomness)).collect();
                    PolynomialCommitment::batch_to_affine(&mut l);
                    let after: Vec<_> = l.iter().map(|x| (x.to_affine(), x.randomness)).collect();
                    c.check(before == after, &format!("{}/mixed-list", name), || format!("degree {} list of {}", d, l.len()));
                    c.check(PolynomialCommitment::commitments_to_affine_vec(&l) == before.iter().map(|x| x.0).collect::<Vec<_>>(), &format!("{}/mixed-list", name), || format!("degree {} list of {}", d, l.len()));
                    c.ev("mixed-list", &(name, d, round, mix), mix > 0);
                }
                // additivity, randomness included
                let sum: Vec<SF<C>> = (0..d).map(|i| polys[0][i] + polys[1][i] + polys[2][i]).collect();
                let cs = PolynomialCommitment::<C>::coeffs_to_commitment(&sum, &pre, h, false).to_affine().to_projective() + C::convert(batch[0].randomness + batch[1].randomness + batch[2].randomness) * h.to_projective();
                let added = aff_all[0].to_projective() + aff_all[1].to_projective() + aff_all[2].to_projective();
                c.check(cs.to_affine() == added.to_affine(), &format!("{}/additivity", name), || format!("degree {} blinding {}", d, blind));
                c.ev("additivity", &(name, d, round, blind), true);
            }
            // every coefficient matters, by exactly its base
            let a = &polys[(4 + 5 - off) % 4];
            let base = pedersen_hash(a, &pre);
            for i in 0..d {
                let mut b = a.clone();
                let delta: SF<C> = if i % 2 == 0 { SF::<C>::ONE } else { uf(&mut rng) };
                b[i] = b[i] + delta;
                let moved = pedersen_hash(&b, &pre).to_affine();
                let want = (base + C::convert(delta) * g[i].to_projective()).to_affine();
                c.check(moved == want && moved != base.to_affine(), &format!("{}/coefficient", name), || format!("degree {} coefficient {}", d, i));
                c.ev("coefficient", &(name, d, round, i), true);
            }
        }
        // the bases are distinct and on the curve
        let set: HashSet<String> = gp.iter().chain(std::iter::once(&hp)).map(|p| format!("{:?}", p)).collect();
        c.check(set.len() == d + 1 && gp.iter().all(|p| rc.on(p) && p.is_some()), &format!("{}/bases", name), || format!("degree {}", d));
    });
}

struct Opening<C: HaloCurve> {
    l: Vec<AffinePoint<C>>,
    r: Vec<AffinePoint<C>>,
    g: AffinePoint<C>,
    cm: ProjectivePoint<C>,
    value: SF<C>,
    b: SF<C>,
    us: Vec<SF<C>>,
    u_prime: ProjectivePoint<C>,
    h: AffinePoint<C>,
    ch: SF<C>,
    sp: SchnorrProof<C>,
}

impl<C: HaloCurve> Opening<C> {
    fn ok(&self) -> Result<bool, String> {
        guard(|| verify_ipa::<C>(&self.l, &self.r, self.g, self.cm, self.value, self.b, &self.us, self.u_prime, self.h, self.ch, self.sp))
    }
}

fn c19_open<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    C::BaseField: FieldSpec,
{
    let cases: Vec<(u32, usize)> = (0..c.n(14, 120)).map(|i| (1 + (i as u32 * 5 + c.seed as u32) % if c.thorough { 8 } else { 6 }, i)).collect();
    cases.par_iter().with_max_len(1).for_each(|&(lg, i)| {
        if c.thorough && !c.time_left() {
            return;
        }
        let mut rng = c.rng(&format!("open{}-{}", name, i));
        let d = 1usize << lg;
        let sec = [128, 126, 64, 100][i % 4];
        let np = [1, 2, 5, 12][rng.gen_range(0, 4)];
        let nx = 1 + i % 4;
        let blind = rng.gen();
        let g: Vec<AffinePoint<C>> = (0..d).map(blake_hash_usize_to_curve::<C>).collect();
        let h: AffinePoint<C> = blake_hash_usize_to_curve(d);
        let uc: AffinePoint<C> = blake_hash_usize_to_curve(d + 1);
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&g), 8);
        let polys: Vec<Vec<SF<C>>> = (0..np)
            .map(|k| match (k + i) % 5 {
                0 => vec![SF::<C>::ZERO; d],
                1 => (0..d).map(|_| rf(&mut rng)).collect(),
                2 => { let mut v = vec![SF::<C>::ZERO; d]; v[d - 1] = uf(&mut rng); v }
                _ => (0..d).map(|_| uf(&mut rng)).collect(),
            })
            .collect();
        let refs: Vec<&[SF<C>]> = polys.iter().map(|p| &p[..]).collect();
        let cms = PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, &pre, h, blind);
        let special = |rng: &mut R| -> SF<C> { if rng.gen_range(0, 4) == 0 { rf(rng) } else { uf(rng) } };
        let pts: Vec<SF<C>> = (0..nx).map(|_| special(&mut rng)).collect();
        let (u, v, us) = (special(&mut rng), special(&mut rng), uf::<SF<C>>(&mut rng));
        let mut ch = Challenger::<C::BaseField>::new(sec);
        for _ in 0..rng.gen_range(0, 7) {
            ch.observe_element(uf(&mut rng));
        }
        let start = ch.clone();
        let what = format!("degree {} polys {} points {} blinding {} security {} u {:?} v {:?}", d, np, nx, blind, sec, u, v);
        let op = match guard(|| batch_opening_proof::<C>(&refs, &cms, &pts, &g, h.to_projective(), uc, u, v, us, d, sec, &mut ch)) {
            Ok(Ok(o)) => o,
            Ok(Err(e)) => return c.viol(&format!("{}/opening-failed", name), format!("{}: {}", what, e)),
            Err(e) => return c.viol(&format!("{}/opening-crash", name), format!("{}: {}", what, e)),
        };
        c.sample("opening", || what.clone());
        // the verifier's side, from the definitions
        let mut t = start.clone();
        let mut usv = vec![];
        if op.halo_l.len() != lg as usize || op.halo_r.len() != lg as usize {
            return c.viol(&format!("{}/round-count", name), what);
        }
        for k in 0..op.halo_l.len() {
            t.observe_affine_points(&[op.halo_l[k], op.halo_r[k]]);
            let r = t.get_challenge().try_convert::<SF<C>>().expect("conversion");
            match halo_n::<C>(&r.to_canonical_bool_vec()[..sec]).square_root() {
                Some(x) => usv.push(x),
                None => return c.viol(&format!("{}/round-challenge-not-square", name), what),
            }
        }
        t.observe_affine_point(op.schnorr_proof.r);
        let sch = t.get_challenge().try_convert::<SF<C>>().expect("conversion");
        // both parties end in the same transcript state
        let (mut e1, mut e2) = (t.clone(), ch.clone());
        c.check(e1.get_challenge() == e2.get_challenge(), &format!("{}/transcript-state", name), || what.clone());
        let mut wts = vec![];
        let mut x = SF::<C>::ONE;
        for _ in 0..np {
            wts.push(halo_n::<C>(&x.to_canonical_bool_vec()[..sec]));
            x = x * u;
        }
        let mut cm = ProjectivePoint::<C>::ZERO;
        for (w, p) in wts.iter().zip(&cms) {
            cm = cm + C::convert(*w) * p.to_affine().to_projective();
        }
        let at = |x: SF<C>| polys.iter().zip(&wts).fold(SF::<C>::ZERO, |s, (p, &w)| s + w * horner(p, x));
        let value = horner(&pts.iter().map(|&x| at(x)).collect::<Vec<_>>(), v);
        // s_i: product of u or 1/u, most significant bit first
        let s: Vec<SF<C>> = (0..d)
            .map(|i| (0..lg as usize).fold(SF::<C>::ONE, |a, k| a * if i >> (lg as usize - 1 - k) & 1 == 1 { usv[k] } else { finv(usv[k]) }))
            .collect();
        c.check(halo_s(&usv) == s, &format!("{}/halo-s", name), || what.clone());
        for &x in pts.iter().chain(&[uf(&mut rng), SF::<C>::ZERO, SF::<C>::ONE]) {
            c.check(halo_g(x, &usv) == horner(&s, x), &format!("{}/halo-g", name), || format!("{} at {:?}", what, x));
            c.ev("halo-g", &(name, i, x.val()), true);
        }
        let b = horner(&pts.iter().map(|&x| horner(&s, x)).collect::<Vec<_>>(), v);
        let mut want_g = ProjectivePoint::<C>::ZERO;
        for (x, p) in s.iter().zip(&g) {
            want_g = want_g + C::convert(*x) * p.to_projective();
        }
        c.check(op.halo_g == want_g.to_affine(), &format!("{}/final-generator", name), || what.clone());
        let u_prime = halo_n_mul::<C>(&us.to_canonical_bool_vec()[..sec], uc).to_projective();
        let base = || Opening { l: op.halo_l.clone(), r: op.halo_r.clone(), g: op.halo_g, cm, value, b, us: usv.clone(), u_prime, h, ch: sch, sp: op.schnorr_proof };
        match base().ok() {
            Ok(true) => c.ev("opening-accepted", &(name, i, d, np, nx), true),
            Ok(false) => return c.viol(&format!("{}/opening-refused", name), what),
            Err(e) => return c.viol(&format!("{}/opening-check-crash", name), format!("{}: {}", what, e)),
        }
        // everything it depends on, altered
        let one = SF::<C>::ONE;
        let gen = C::GENERATOR_AFFINE;
        let mut alts: Vec<(String, Opening<C>)> = vec![];
        let mut alt = |n: &str, f: &dyn Fn(&mut Opening<C>)| { let mut o = base(); f(&mut o); alts.push((n.to_string(), o)) };
        let dl: SF<C> = uf(&mut rng);
        alt("value plus one", &|o| o.value = o.value + one);
        alt("value random", &|o| o.value = dl);
        alt("commitment plus generator", &|o| o.cm = o.cm + gen.to_projective());
        alt("commitment plus blinding base", &|o| o.cm = o.cm + h.to_projective());
        alt("commitment plus first base", &|o| o.cm = o.cm + g[0].to_projective());
        alt("final generator plus generator", &|o| o.g = add_g(o.g));
        alt("evaluation of the folded points", &|o| o.b = o.b + one);
        alt("Schnorr challenge", &|o| o.ch = o.ch + one);
        alt("z1", &|o| o.sp.z1 = o.sp.z1 + one);
        alt("z2", &|o| o.sp.z2 = o.sp.z2 + one);
        alt("r", &|o| o.sp.r = add_g(o.sp.r));
        alt("value base", &|o| o.u_prime = o.u_prime.double());
        alt("blinding base", &|o| o.h = add_g(o.h));
        for k in 0..lg as usize {
            alt(&format!("left message {}", k), &|o| o.l[k] = add_g(o.l[k]));
            alt(&format!("right message {}", k), &|o| o.r[k] = add_g(o.r[k]));
            alt(&format!("left and right message {} exchanged", k), &|o| std::mem::swap(&mut o.l[k], &mut o.r[k]));
            alt(&format!("challenge {}", k), &|o| o.us[k] = o.us[k] + one);
            alt(&format!("challenge {} inverted", k), &|o| o.us[k] = finv(o.us[k]));
            alt(&format!("challenge {} one", k), &|o| o.us[k] = one);
        }
        // a value or commitment of other polynomials
        for k in 0..np {
            let w = wts[k];
            alt(&format!("opened value of polynomial {} off by one", k), &|o| o.value = o.value + w);
            alt(&format!("commitment {} off", k), &|o| o.cm = o.cm + C::convert(w) * gen.to_projective());
        }
        for (n, o) in alts {
            match o.ok() {
                Ok(r) => { c.check(!r, &format!("{}/altered-opening-accepted", name), || format!("{}: {} altered", what, n)); }
                Err(e) => c.viol(&format!("{}/altered-opening-crash", name), format!("{}: {} altered: {}", what, n, e)),
            }
            c.ev("opening-altered", &(name, i, n), true);
        }
    });
}

fn c19<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    C::BaseField: FieldSpec,
{
    c19_commit::<C, I>(c, name);
    c19_open::<C, I>(c, name);
}

// ---------------------------------------------------------------- C20

fn commit_s<C: HaloCurve>(us: &[SF<C>]) -> AffinePoint<C>
where
    SF<C>: FieldSpec,
{
    // from the definition: sum of products of challenges times the fixed bases
    let lg = us.len();
    let mut s = ProjectivePoint::<C>::ZERO;
    for i in 0..1usize << lg {
        let x = (0..lg).fold(SF::<C>::ONE, |a, k| a * if i >> (lg - 1 - k) & 1 == 1 { us[k] } else { finv(us[k]) });
        s = s + C::convert(x) * blake_hash_usize_to_curve::<C>(i).to_projective();
    }
    s.to_affine()
}

/// Challenges other than `us` whose polynomial has the value at x that the polynomial of `us` has. The first two
/// kinds name another polynomial, the last one the same.
fn fitted<F: FieldSpec>(us: &[F], x: F, kind: usize, i: usize, rng: &mut R) -> Option<Vec<F>> {
    let k = us.len();
    let mut v = us.to_vec();
    let xp = |j: usize| (0..k - 1 - j).fold(x, |a, _| a.square());
    let f = |u: F, j: usize| u * xp(j) + finv(u);
    let i = i % k;
    match kind {
        // one factor has two roots
        0 => v[i] = finv(us[i] * xp(i)),
        // one challenge chosen at will, another made up for it
        1 => {
            let j = (i + 1) % k;
            if i == j {
                return None;
            }
            let mut found = false;
            for _ in 0..40 {
                v[i] = uf(rng);
                let t = f(us[i], i) * f(us[j], j) * finv(f(v[i], i));
                let four = F::TWO.double();
                if let Some(r) = (t * t - four * xp(j)).square_root() {
                    v[j] = (t + r) * finv(xp(j).double());
                    found = v[j].is_nonzero();
                    if found {
                        break;
                    }
                }
            }
            if !found {
                return None;
            }
        }
        // two signs
        _ => {
            let j = (i + 1) % k;
            if i == j {
                return None;
            }
            v[i] = F::ZERO - v[i];
            v[j] = F::ZERO - v[j];
        }
    }
    if v == us || v.iter().any(|u| u.is_zero()) {
        return None;
    }
    Some(v)
}

fn c20<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(name);
    let mk = |rng: &mut R, npis: usize, steps: Vec<usize>, pad: usize| make::<C, I>(rng, &Recipe { sec: 128, npis, steps, pad });
    let ms: Vec<Made<C>> = [(2usize, vec![2usize, 5], 0usize), (0, vec![4], 0), (3, vec![4, 2, 16], 26)].iter().filter_map(|(n, s, p)| mk(&mut rng, *n, s.clone(), *p).ok()).collect();
    if ms.len() < 3 {
        return c.note(format!("{}: circuits could not be built", name));
    }
    let t = Tally::new();
    // honest chains: each proof absorbs some of those before it
    let mut pool: Vec<(usize, OldProof<C>)> = vec![];
    let steps = c.n(5, 24);
    for k in 0..steps {
        let m = &ms[k % 3];
        let d = m.circ.degree();
        let mut olds: Vec<OldProof<C>> = pool.iter().filter(|x| x.0 <= d).map(|x| x.1.clone()).collect();
        olds.shuffle(&mut rng);
        olds.truncate(k % 4);
        let p = match prove::<C, I>(&m.circ, &m.wit, &olds, k % 2 == 0) {
            Ok(p) => p,
            Err(e) => { c.viol(&format!("{}/proving-failed", name), format!("absorbing {}: {}", olds.len(), e)); continue }
        };
        let o = match judge::<C, I>(&m.pis, &p, &olds, &m.vk, false) {
            Verdict::Accept(Some(o)) => o,
            Verdict::Accept(None) => { c.viol(&format!("{}/no-deferred-data", name), "deferred verification returned nothing"); continue }
            Verdict::Refuse(e) | Verdict::Crash(e) => { c.viol(&format!("{}/honest-chain-refused", name), format!("link {} absorbing {}: {}", k, olds.len(), e)); continue }
        };
        match judge::<C, I>(&m.pis, &p, &olds, &m.vk, true) {
            Verdict::Accept(None) => {}
            Verdict::Accept(Some(_)) => c.viol(&format!("{}/deferred-data-after-complete-check", name), ""),
            Verdict::Refuse(e) | Verdict::Crash(e) => c.viol(&format!("{}/honest-chain-refused", name), format!("link {} absorbing {}, complete: {}", k, olds.len(), e)),
        }
        c.ev(&format!("chain-link absorbing {}", olds.len()), &(name, k), true);
        // what was returned is what the proof says
        let us = p.get_challenges(&m.pis, &olds, 128).map(|x| x.halo_us);
        c.check(o.halo_g == p.halo_g, &format!("{}/deferred-generator", name), || format!("link {}", k));
        c.check(us.as_ref().map(|u| *u == o.halo_us).unwrap_or(false), &format!("{}/deferred-challenges", name), || format!("link {}", k));
        c.check(commit_s::<C>(&o.halo_us) == o.halo_g, &format!("{}/deferred-generator-commits", name), || format!("link {}: the generator of an honest proof is not the commitment of its polynomial", k));
        let co = o.coeffs();
        c.check(co.len() == d && pedersen_hash(&co, &m.circ.pedersen_g_msm_precomputation).to_affine() == o.halo_g, &format!("{}/deferred-coefficients", name), || format!("link {}", k));
        for _ in 0..3 {
            let x = uf(&mut rng);
            c.check(o.evaluate_g(x) == horner(&co, x), &format!("{}/deferred-evaluation", name), || format!("link {}", k));
            c.ev("deferred-evaluation", &(name, k, x.val()), true);
        }
        // claims about earlier proofs made up once the evaluation point is known
        if let (false, Ok(zeta)) = (olds.is_empty(), p.get_challenges(&m.pis, &olds, 128).map(|x| x.zeta)) {
            let mut alts = vec![];
            for i in 0..olds.len() {
                for kind in 0..2 {
                    for at in 0..olds[i].halo_us.len() {
                        let us = match fitted(&olds[i].halo_us, zeta, kind, at, &mut rng) {
                            Some(us) => us,
                            None => continue,
                        };
                        let mut x = olds.clone();
                        x[i].halo_us = us;
                        c.ev("claim fitted to the evaluation point", &(name, k, i, kind, at), true);
                        if commit_s::<C>(&x[i].halo_us) == x[i].halo_g {
                            continue;
                        }
                        alts.push(Alt { what: format!("link {}: challenges of earlier proof {} of {} fitted at {} (kind {}) so that another polynomial has the same value at zeta", k, i, olds.len(), at, kind), pis: m.pis.clone(), p: p.clone(), olds: x, vk: m.vk.clone() });
                    }
                }
            }
            refused::<C, I>(c, name, "fitted-claims", alts, false, 1);
        }
        // altered lists of earlier proofs
        if olds.len() > 1 {
            let mut alts = vec![];
            let mk = |what: &str, olds: Vec<OldProof<C>>| Alt { what: format!("link {}: {}", k, what), pis: m.pis.clone(), p: p.clone(), olds, vk: m.vk.clone() };
            for i in 0..olds.len() {
                let mut x = olds.clone();
                x.remove(i);
                alts.push(mk("one missing", x));
                let mut x = olds.clone();
                x.push(olds[i].clone());
                alts.push(mk("one twice", x));
                let mut x = olds.clone();
                x[i] = o.clone();
                alts.push(mk("a foreign one", x));
                let mut x = olds.clone();
                x[i].halo_g = o.halo_g;
                alts.push(mk("a foreign generator", x));
                let mut x = olds.clone();
                x[i].halo_us = o.halo_us.clone();
                alts.push(mk("foreign challenges", x));
            }
            let mut x = olds.clone();
            x.rotate_left(1);
            alts.push(mk("reordered", x));
            let mut x = olds.clone();
            let (a, b) = (olds[0].halo_g, olds[1].halo_g);
            x[0].halo_g = b;
            x[1].halo_g = a;
            alts.push(mk("generators exchanged", x));
            refused::<C, I>(c, name, "earlier-proofs", alts, false, 1);
        }
        pool.push((d, o));
    }

    // Many earlier proofs at once: every one of them counts, whatever its place.
    for many in 0..c.n(1, 3) {
        let m = &ms[2 * (many % 2)];
        let d = m.circ.degree();
        let fit: Vec<&OldProof<C>> = pool.iter().filter(|x| x.0 <= d).map(|x| &x.1).collect();
        if fit.is_empty() {
            continue;
        }
        let l = 17 + rng.gen_range(0, 4) + [0, 20, 60][many];
        let olds: Vec<OldProof<C>> = (0..l).map(|i| fit[(i + rng.gen_range(0, 2)) % fit.len()].clone()).collect();
        match prove::<C, I>(&m.circ, &m.wit, &olds, true) {
            Err(e) => c.viol(&format!("{}/proving-failed", name), format!("absorbing {}: {}", l, e)),
            Ok(p) => {
                for &g in &[false, true] {
                    if let Verdict::Refuse(e) | Verdict::Crash(e) = judge::<C, I>(&m.pis, &p, &olds, &m.vk, g) {
                        c.viol(&format!("{}/honest-chain-refused", name), format!("absorbing {}: {}", l, e));
                    }
                }
            }
        }
        c.ev("many-absorbed", &(name, many, l), true);
        // the true polynomial behind each generator is opened, but one claim is about another one
        let mut sane = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), olds.clone(), true, rng.clone());
        if !matches!(sane.honest_to_openings(), Ok(true)) || sane.ipa(Lie::No).is_err() {
            c.note(format!("{}: reference prover failed with {} earlier proofs", name, l));
            continue;
        }
        if let Verdict::Refuse(e) | Verdict::Crash(e) = sane.verdict(&m.vk, false) {
            c.viol(&format!("{}/honest-chain-refused", name), format!("reference prover absorbing {}: {}", l, e));
        }
        let (t_, m_, olds_, seed) = (&t, &*m, &olds, rng.gen::<u64>());
        let mut at: Vec<usize> = (0..l).collect();
        at.shuffle(&mut rng);
        at.truncate(c.n(6, l));
        at.push(l - 1);
        at.into_par_iter().with_max_len(1).for_each(|i| {
            let rng = c.rng(&format!("{}-many{}-{}", name, i, seed));
            let mut a = Adv::<C, I>::new(&m_.circ, &m_.e, m_.rows.clone(), m_.pis.clone(), olds_.clone(), true, rng);
            let us = &mut a.olds[i].halo_us;
            let k = i % us.len();
            us[k] = us[k] + SF::<C>::ONE;
            if !us[k].is_nonzero() {
                us[k] = SF::<C>::ONE + SF::<C>::ONE;
            }
            if !matches!(a.honest_to_openings(), Ok(true)) {
                return t_.add("reference prover failed".into());
            }
            fight(c, t_, name, "claim-of-many", &format!("claim {} of {} is about another polynomial", i, l), &mut a, &m.vk, Lie::No, false);
        });
    }

    // forged links: a false proof whose final generator was chosen to fit. Deferring accepts it (it has to),
    // the complete check does not, and nothing that absorbs it survives.
    let m = &ms[0];
    let small: Vec<OldProof<C>> = pool.iter().filter(|x| x.0 <= m.circ.degree()).map(|x| x.1.clone()).collect();
    let (m_, t_, small_) = (&*m, &t, &small);
    let mut jobs: Vec<Job> = vec![];
    for k in 0..c.n(6, 40) {
        let seed = rng.gen::<u64>();
        jobs.push(Box::new(move || {
            let (m, t, small) = (m_, t_, small_);
            let mut rng = c.rng(&format!("{}-forge{}-{}", name, k, seed));
            let mut a = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), vec![], true, rng.clone());
            if !matches!(a.honest_to_openings(), Ok(true)) {
                return t.add("reference prover failed".into());
            }
            // false openings
            let all = slots(0);
            let s = all[rng.gen_range(0, all.len())];
            let x = slot(a.openings(1 + k % 2), s);
            *x = *x + SF::<C>::ONE;
            if !a.gaps().0.is_zero() && !a.solve_slot(0, Slot::T(0)) {
                return;
            }
            if a.ipa(Lie::G).is_err() {
                return t.add("prover gave up".into());
            }
            let forged = match a.verdict(&m.vk, false) {
                Verdict::Accept(Some(o)) => o,
                _ => return t.add("forged link already refused".into()),
            };
            t.add("forged link deferred".into());
            if let Verdict::Accept(_) = a.verdict(&m.vk, true) {
                c.viol(&format!("{}/forged-generator-accepted", name), format!("{:?} opened wrong, generator chosen to fit, complete check accepts", s));
            }
            c.ev("forged-complete", &(name, k), true);
            c.check(commit_s::<C>(&forged.halo_us) != forged.halo_g && forged.halo_g == a.p.halo_g, &format!("{}/forged-generator-commits", name), || "a forged generator commits to its polynomial".into());
            // absorb it, alone or among honest ones
            let mut olds = vec![forged.clone()];
            if k % 3 > 0 {
                olds.extend(small.iter().take(k % 3).cloned());
                olds.shuffle(&mut rng);
            }
            let at = olds.iter().position(|o| o.halo_g == forged.halo_g).unwrap();
            // by the library's prover
            match prove::<C, I>(&m.circ, &m.wit, &olds, true) {
                Ok(p) => {
                    for &g in &[false, true] {
                        match judge::<C, I>(&m.pis, &p, &olds, &m.vk, g) {
                            Verdict::Accept(_) => c.viol(&format!("{}/forged-absorbed", name), format!("a proof absorbing a forged generator (position {} of {}) was accepted, verify_g {}", at, olds.len(), g)),
                            Verdict::Crash(e) => c.viol(&format!("{}/forged-crash", name), e),
                            Verdict::Refuse(e) => t.add(format!("absorbing proof refused: {}", short(&e))),
                        }
                        c.ev("forged-absorbed", &(name, k, g), true);
                    }
                }
                Err(e) => t.add(format!("library prover: {}", short(&e))),
            }
            // by a prover that cheats again
            let mut b = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), olds.clone(), true, rng.clone());
            if !matches!(b.honest_to_openings(), Ok(true)) {
                return;
            }
            let mut b2 = b.fork(1);
            fight(c, t, name, "absorb-plain", "absorbing a forged generator", &mut b2, &m.vk, Lie::No, false);
            let mut b3 = b.fork(2);
            if b3.ipa(Lie::OldG(at)).is_ok() {
                // the earlier generator moved to fit at last
                judge_refuse(c, t, name, "absorb-late", "earlier generator chosen last", &b3, &m.vk, Lie::OldG(at), false);
            }
            let mut b4 = b.fork(3);
            let x = slot(b4.openings(0), Slot::Old(at));
            *x = *x + SF::<C>::ONE;
            fight(c, t, name, "absorb-wrong-opening", "earlier polynomial opened wrong", &mut b4, &m.vk, Lie::No, false);
            // pass the buck: forge this one too. It may be deferred, but the end of the chain is refused
            let mut b5 = b.fork(4);
            if b5.ipa(Lie::G).is_err() {
                return;
            }
            match b5.verdict(&m.vk, false) {
                Verdict::Accept(Some(o2)) => {
                    t.add("second forged link deferred".into());
                    c.check(commit_s::<C>(&o2.halo_us) != o2.halo_g, &format!("{}/forged-generator-commits", name), || "second level".into());
                    if let Verdict::Accept(_) = b5.verdict(&m.vk, true) {
                        c.viol(&format!("{}/forged-chain-accepted", name), "second forged link accepted by the complete check");
                    }
                    if let Ok(p) = prove::<C, I>(&m.circ, &m.wit, &[o2.clone()], false) {
                        for &g in &[false, true] {
                            if let Verdict::Accept(_) = judge::<C, I>(&m.pis, &p, &[o2.clone()], &m.vk, g) {
                                c.viol(&format!("{}/forged-chain-accepted", name), format!("third link accepted, verify_g {}", g));
                            }
                        }
                    }
                    c.ev("forged-chain", &(name, k), true);
                }
                _ => t.add("second forged link refused".into()),
            }
            // data that was never the output of a verification: claims about other polynomials
            for j in 0..3 {
                let mut o = forged.clone();
                match j {
                    0 => o.halo_g = commit_s::<C>(&forged.halo_us),
                    1 => o.halo_us = o.halo_us.iter().rev().copied().collect(),
                    _ => { let n = o.halo_us.len(); o.halo_us[n - 1] = o.halo_us[n - 1] + SF::<C>::ONE }
                }
                let good = commit_s::<C>(&o.halo_us) == o.halo_g;
                if let Ok(p) = prove::<C, I>(&m.circ, &m.wit, &[o.clone()], true) {
                    match judge::<C, I>(&m.pis, &p, &[o.clone()], &m.vk, false) {
                        Verdict::Accept(_) => { c.check(good, &format!("{}/bad-deferred-accepted", name), || format!("made-up deferred data {} absorbed", j)); }
                        Verdict::Refuse(e) => { c.check(!good, &format!("{}/good-deferred-refused", name), || e); }
                        Verdict::Crash(e) => c.viol(&format!("{}/deferred-crash", name), e),
                    }
                    c.ev("made-up-deferred", &(name, k, j), true);
                }
            }
        }));
    }
    jobs.par_iter().with_max_len(1).for_each(|j| if !c.thorough || c.time_left() { j() });
    drop(jobs);
    t.flush(c, name);
}

// ---------------------------------------------------------------- C22

fn parts<C: HaloCurve>(p: &Proof<C>) -> Vec<(String, String)> {
    let mut q = p.clone();
    let mut v: Vec<(String, String)> = pts(&mut q).into_iter().map(|(n, x)| (n, format!("{:?}{:?}", x.x, x.y))).collect();
    // opened wire values; the other openings may legitimately coincide (constants, sigmas, zero chunks of t)
    v.extend(els(&mut q).into_iter().filter(|(n, _)| n.contains("o_wires") || n.contains("schnorr")).map(|(n, x)| (n, format!("{:?}", x))));
    v
}

fn c22<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(name);
    let seedv = rng.gen::<u64>();
    // identical builds
    let build = |npis: usize, steps: &[usize]| {
        use rand::SeedableRng;
        let mut r = R::seed_from_u64(seedv);
        make::<C, I>(&mut r, &Recipe { sec: 128, npis, steps: steps.to_vec(), pad: 0 })
    };
    let (m, m2) = match (build(3, &[2, 4, 5, 16]), build(3, &[2, 4, 5, 16])) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => return c.viol(&format!("{}/no-circuit", name), format!("{:?} {:?}", a.err(), b.err())),
    };
    c.check(m.vk == m2.vk, &format!("{}/keys-differ", name), || "two builds of the same circuit give different keys".into());
    for (i, (a, b)) in m.circ.c_constants.iter().chain(&m.circ.c_s_sigmas).zip(m2.circ.c_constants.iter().chain(&m2.circ.c_s_sigmas)).enumerate() {
        c.check(a.to_affine() == b.to_affine() && a.randomness.is_zero() && b.randomness.is_zero(), &format!("{}/key-commitment", name), || format!("{}", i));
        c.ev("key-commitment", &(name, i), true);
    }
    c.ev("identical-builds", &name, true);

    // witnesses: the blinding rows
    let n_w = c.n(60, 600);
    let rows0 = m.circ.num_gates_without_pis;
    let npg = 2 * ((m.pis.len() + NW - 1) / NW);
    let pw = || { let mut w = PartialWitness::new(); for &(t, v) in &m.inputs { w.set_target(t, v) } w };
    let wits: Vec<Vec<Vec<SF<C>>>> = (0..n_w).into_par_iter().filter_map(|_| guard(|| rows_of(&m.circ.generate_witness(pw()), m.circ.degree())).ok()).collect();
    if wits.len() < n_w {
        return c.viol(&format!("{}/witness-crash", name), "generate_witness failed");
    }
    // a row is free if every wire of it can be anything; those must be the blinding rows and be fresh
    let fresh: Vec<usize> = (0..m.circ.degree()).filter(|&i| (0..NW).all(|j| wits.iter().map(|w| w[i][j].val()).collect::<HashSet<_>>().len() > 1)).collect();
    let nb = blind_rows::<C>();
    c.check(nb >= 3 && fresh == (rows0 - nb..rows0).collect::<Vec<_>>(), &format!("{}/blinding-rows", name), || format!("rows that vary on all wires between witnesses of the same inputs: {:?} of {} (public inputs from {})", fresh, m.circ.degree(), rows0));
    let mut seen: HashMap<BigUint, (usize, usize, usize)> = HashMap::new();
    // a random value may be there twice because a copy constraint says so
    let vars = blind_vars(&m, &fresh);
    let p = SF::<C>::p();
    let bits = p.bits();
    let mut ones = vec![0u64; bits as usize];
    let mut buckets = vec![0u64; 16];
    let mut total = 0u64;
    let mut keys = vec![];
    for (k, w) in wits.iter().enumerate() {
        for i in 0..m.circ.degree() {
            for j in 0..NW {
                if fresh.contains(&i) {
                    if !vars.iter().any(|v| v[0] == (i, j)) {
                        continue;
                    }
                    let v = w[i][j].val();
                    if let Some(o) = seen.insert(v.clone(), (k, i, j)) {
                        c.viol(&format!("{}/blinding-value-repeats", name), format!("witness {} row {} wire {} and {:?} share a value", k, i, j, o));
                    }
                    for b in 0..bits {
                        if v.bit(b as u64) {
                            ones[b as usize] += 1;
                        }
                    }
                    let bk: BigUint = (&v * 16u32) / &p;
                    buckets[bk.to_u64_digits().first().copied().unwrap_or(0) as usize] += 1;
                    total += 1;
                    keys.push(h64(&v));
                } else {
                    c.check(w[i][j] == wits[0][i][j], &format!("{}/unblinded-row-varies", name), || format!("row {} wire {}", i, j));
                }
            }
        }
    }
    c.evn("blinding-value", total, &keys);
    // uniform on [0, p): sixteen equal parts and each bit that is close to fair, 7 sigma
    let dev = |x: f64, q: f64| (x - total as f64 * q).abs() / (total as f64 * q * (1.0 - q)).sqrt();
    for (i, &b) in buckets.iter().enumerate() {
        c.check(dev(b as f64, 1.0 / 16.0) < 7.0, &format!("{}/blinding-distribution", name), || format!("sixteenth {} has {} of {}", i, b, total));
    }
    for b in 0..bits as usize - 3 {
        c.check(dev(ones[b] as f64, 0.5) < 7.0, &format!("{}/blinding-bit", name), || format!("bit {} set in {} of {}", b, ones[b], total));
    }
    c.ev("distribution", &(name, total), true);
    // the rows that matter are the ones opened unmasked otherwise: no constraint touches them
    for &i in &fresh {
        c.check(gate_name(&m.circ.gate_constants[i]) == "Buffer" && i < rows0 + npg, &format!("{}/blinding-row-gate", name), || format!("row {}", i));
    }

    // proofs of one witness
    let n_p = c.n(3, 10);
    let mut all: HashMap<String, String> = HashMap::new();
    let olds: Vec<OldProof<C>> = vec![];
    let proofs: Vec<Proof<C>> = (0..n_p).into_par_iter().filter_map(|_| prove::<C, I>(&m.circ, &m.wit, &olds, true).ok()).collect();
    c.check(proofs.len() == n_p, &format!("{}/proving-failed", name), || "".into());
    for (k, p) in proofs.iter().enumerate() {
        for (n, v) in parts(p) {
            // points never meet at all; an opening never meets the same opening of another proof (within one proof
            // the opening points can coincide, and a constant polynomial opens the same everywhere)
            let key = if n.starts_with("o_") { format!("{}={}", n, v) } else { v };
            if let Some(o) = all.insert(key, format!("{} of proof {}", n, k)) {
                c.viol(&format!("{}/shared-part", name), format!("{} of proof {} equals {}", n, k, o));
            }
            c.ev("blinded-part", &(name, k, n), true);
        }
    }
    // the blinding factors themselves
    let polys: Vec<Vec<SF<C>>> = vec![vec![SF::<C>::ZERO; m.circ.degree()]; 12];
    let refs: Vec<&[SF<C>]> = polys.iter().map(|p| &p[..]).collect();
    let pre = &m.circ.pedersen_g_msm_precomputation;
    let mut rs: HashSet<BigUint> = HashSet::new();
    for _ in 0..4 {
        let cm = PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, pre, m.circ.pedersen_h, true);
        for x in &cm {
            c.check(rs.insert(x.randomness.val()) && !x.randomness.is_zero(), &format!("{}/blinding-factor-repeats", name), || "".into());
            // of full size, not a small number
            c.check(x.randomness.val().bits() > 128, &format!("{}/blinding-factor-small", name), || format!("{:?}", x.randomness));
            c.ev("blinding-factor", &(name, x.randomness.val()), true);
        }
        for x in PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, pre, m.circ.pedersen_h, false) {
            c.check(x.randomness.is_zero() && x.to_affine() == AffinePoint::ZERO, &format!("{}/unblinded-zero", name), || "".into());
        }
    }
    // unblinded: the same commitments on every run, to the same witness
    let plain: Vec<Proof<C>> = (0..n_p).into_par_iter().filter_map(|_| prove::<C, I>(&m.circ, &m.wit, &olds, false).ok()).collect();
    c.check(plain.len() == n_p, &format!("{}/proving-failed", name), || "unblinded".into());
    let from_builds: Vec<Proof<C>> = [&m2.circ].iter().filter_map(|x| prove::<C, I>(x, &m.wit, &olds, false).ok()).collect();
    for (k, q) in plain.iter().chain(&from_builds).enumerate().skip(1) {
        let a = &plain[0];
        let same = a.c_wires == q.c_wires && a.c_plonk_z == q.c_plonk_z && a.c_plonk_t == q.c_plonk_t && a.c_pis_quotient == q.c_pis_quotient && a.o_local == q.o_local && a.o_right == q.o_right && a.o_below == q.o_below;
        c.check(same, &format!("{}/unblinded-differs", name), || format!("unblinded proof {} of the same witness has other commitments or openings", k));
        c.ev("unblinded-pair", &(name, k), true);
    }
    // and they are what the witness says
    let pre = &m.circ.pedersen_g_msm_precomputation;
    for j in 0..NW {
        let a = ifft(&m.rows.iter().map(|r| r[j]).collect::<Vec<_>>(), m.circ.subgroup_generator_n);
        let want = pedersen_hash(&a, pre).to_affine();
        c.check(plain[0].c_wires[j] == want, &format!("{}/unblinded-commitment", name), || format!("wire {}", j));
        for p in &proofs {
            c.check(p.c_wires[j] != want, &format!("{}/not-blinded", name), || format!("wire {} of a blinded proof is committed without blinding", j));
        }
        c.ev("unblinded-commitment", &(name, j), true);
    }
}

/// What hides the messages of blinded proofs, taken off with full knowledge of the witness: nothing goes unhidden
/// and nothing hides twice, in proofs of several shapes (with and without public inputs and earlier proofs).
fn c22_masks<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("{}-masks", name));
    let mut seen: HashMap<String, String> = HashMap::new();
    let mut olds: Vec<OldProof<C>> = vec![];
    let mut n = 0u64;
    let mut shapes: Vec<(usize, Vec<usize>, usize, usize)> = vec![
        (0, vec![2], 0, 0),
        (0, vec![32, 32], 0, 1),
        (2, vec![2, 4], 0, 0),
        (3, vec![4, 5], 0, 2),
        (12, vec![2, 16], 40, 1),
        (0, vec![19], 0, 2),
    ];
    if c.thorough {
        for k in 0..12 {
            shapes.push((rng.gen_range(0, 30), vec![2, 4, 5, rng.gen_range(1, 17)], 0, k % 3));
        }
    }
    for (k, (npis, steps, pad, no)) in shapes.into_iter().enumerate() {
        let m = match make::<C, I>(&mut rng, &Recipe { sec: 128, npis, steps, pad }) {
            Ok(m) => m,
            Err(e) => return c.viol(&format!("{}/no-circuit", name), e),
        };
        let d = m.circ.degree().trailing_zeros() as usize;
        let have: Vec<OldProof<C>> = olds.iter().filter(|o| o.halo_us.len() <= d).take(no).cloned().collect();
        let no = have.len();
        for t in 0..c.n(2, 4) {
            let p = match prove::<C, I>(&m.circ, &m.wit, &have, true) {
                Ok(p) => p,
                Err(e) => return c.viol(&format!("{}/proving-failed", name), format!("{} absorbing {}: {}", m.text, no, e)),
            };
            let who = format!("proof {} of circuit {} ({} public inputs, {} earlier proofs)", t, k, m.pis.len(), no);
            let mut a = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), have.clone(), false, c.rng("unused"));
            match guard(|| a.masks(&p)).and_then(|r| r) {
                Err(e) => {
                    c.note(format!("masks {}: {}: {}", name, who, e));
                }
                Ok(v) => {
                    for (what, x) in v {
                        let p1 = x.to_affine();
                        c.check(!p1.zero, &format!("{}/unhidden", name), || format!("{} of {} is not blinded", what, who));
                        // neither the same mask nor its negative, double or triple
                        for (f, q) in vec![("", x), ("twice ", x + x), ("three times ", x + x + x)] {
                            let q = q.to_affine();
                            if q.zero {
                                continue;
                            }
                            if let Some(o) = seen.insert(format!("{:?}", q.x), format!("{}{} of {}", f, what, who)) {
                                c.viol(&format!("{}/hides-twice", name), format!("up to sign, {}the blinding of {} of {} is {}", f, what, who, o));
                            }
                        }
                        c.ev("mask", &(name, k, t, what, format!("{:?}", p1.x)), true);
                        n += 1;
                    }
                }
            }
            if t == 0 && olds.len() < 3 {
                if let Verdict::Accept(Some(o)) = judge::<C, I>(&m.pis, &p, &have, &m.vk, false) {
                    olds.push(o);
                }
            }
        }
    }
    c.sample(&format!("masks:{}", name), || format!("{} masks", n));
}

/// The random values of the given rows: each with the wires that hold it.
fn blind_vars<C: HaloCurve>(m: &Made<C>, rows: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let n = m.circ.degree();
    let mut v: Vec<Vec<(usize, usize)>> = vec![];
    for &i in rows {
        for j in 0..NW {
            if j >= NR {
                v.push(vec![(i, j)]);
                continue;
            }
            let mut at: Vec<(usize, usize)> = m.e.cycles[m.e.cyc_of[j * n + i]].iter().map(|&k| (k % n, k / n)).collect();
            at.sort();
            // a value that is also used elsewhere is no mask
            if at[0] == (i, j) && at.iter().all(|x| rows.contains(&x.0)) {
                v.push(at);
            }
        }
    }
    v
}

/// What somebody who guesses the witness can check: the openings of blinded proofs are compared with what they
/// would be under the right guess, and their dependence on the random values of the witness is measured.
fn c22_guess<C: HaloCurve + PartialEq, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("{}-guess", name));
    let mut shapes: Vec<(usize, Vec<usize>, usize)> = vec![(0, vec![], 0), (3, vec![2, 4, 5], 0), (0, vec![32, 19], 70), (0, vec![2], 0)];
    if c.thorough {
        for k in 0..12 {
            shapes.push((rng.gen_range(0, 30), vec![2, 4, 5, rng.gen_range(1, 17)], 30 * (k % 4)));
        }
    }
    for (k, (npis, steps, pad)) in shapes.into_iter().enumerate() {
        let m = match make::<C, I>(&mut rng, &Recipe { sec: 128, npis, steps, pad }) {
            Ok(m) => m,
            Err(e) => return c.viol(&format!("{}/no-circuit", name), e),
        };
        let n = m.circ.degree();
        let g = m.circ.subgroup_generator_n;
        let rows0 = m.circ.num_gates_without_pis;
        let nb = blind_rows::<C>();
        let vars = blind_vars(&m, &(rows0 - nb..rows0).collect::<Vec<_>>());
        let pw = || {
            let mut w = PartialWitness::new();
            for &(t, v) in &m.inputs {
                w.set_target(t, v)
            }
            w
        };
        for t in 0..c.n(if pad > 0 { 1 } else { 2 }, 4) {
            let p = match prove::<C, I>(&m.circ, &m.wit, &[], true) {
                Ok(p) => p,
                Err(e) => return c.viol(&format!("{}/proving-failed", name), format!("{}: {}", m.text, e)),
            };
            let ch = match guard(|| p.get_challenges(&m.pis, &[], 128)).and_then(|r| r.map_err(|e| e.to_string())) {
                Ok(x) => x,
                Err(e) => return c.viol(&format!("{}/no-challenges", name), e),
            };
            let xs = [ch.zeta, ch.zeta * g, ch.zeta * g.exp_usize(GRID)];
            let os = [&p.o_local, &p.o_right, &p.o_below];
            // the same inputs once more, as somebody would who guessed them
            let other = match guard(|| rows_of(&m.circ.generate_witness(pw()), n)) {
                Ok(r) => r,
                Err(e) => return c.viol(&format!("{}/witness-crash", name), e),
            };
            let a = Adv::<C, I>::new(&m.circ, &m.e, other.clone(), m.pis.clone(), vec![], false, c.rng("unused"));
            let z = ifft(&a.product(ch.beta, ch.gamma, SF::<C>::ONE, n), g);
            for (x, o) in xs.iter().zip(&os) {
                c.check(horner(&z, *x) != o.o_plonk_z, &format!("{}/guess-confirmed", name), || format!("{}: the permutation polynomial of a blinded proof opens as the inputs alone determine, so a guess of them can be confirmed", m.text));
            }
            for j in 0..NW {
                let w = ifft(&other.iter().map(|r| r[j]).collect::<Vec<_>>(), g);
                for (x, o) in xs.iter().zip(&os) {
                    c.check(horner(&w, *x) != o.o_wires[j], &format!("{}/guess-confirmed", name), || format!("{}: wire polynomial {} of a blinded proof opens as the inputs alone determine", m.text, j));
                }
            }
            c.ev("guess", &(name, k, t), true);
            // the circuit of three different opening points is a large one
            if t == 0 && (pad == 0 || c.thorough || name == "Tweedledee" || name == "Pallas") {
                let a = Adv::<C, I>::new(&m.circ, &m.e, m.rows.clone(), m.pis.clone(), vec![], false, c.rng("unused"));
                match guard(|| a.masked_rank(&p, &vars)).and_then(|r| r) {
                    Ok(Some((r, want))) => {
                        c.check(r >= want, &format!("{}/openings-underdetermined", name), || {
                            format!("{}: {} random values make only {} of {} openings move independently: whoever guesses the witness can test the guess against the rest", m.text, vars.len(), r, want)
                        });
                        c.ev("masked-openings", &(name, k, r), true);
                        c.sample(&format!("masked-openings:{}:{}", name, k), || format!("degree {}: {} random values, {} of {} openings independent", n, vars.len(), r, want));
                    }
                    // hidden in some other way
                    Ok(None) => c.note(format!("masks {}: the openings are not those of the witness", name)),
                    Err(e) => c.viol(&format!("{}/masks-crash", name), e),
                }
            }
        }
    }
}

fn main() {
    let id = std::env::args().nth(1).expect("property id");
    let c = Ctx::new(&id);
    match id.as_str() {
        "C11" => {
            cycles!(&c, 4, c11);
            cycles!(&c, 4, c11_wide);
            c.section("range/Tweedledee", |c| c11_range::<Tweedledee, Tweedledum>(c, "Tweedledee"));
            c.section("range/Tweedledum", |c| c11_range::<Tweedledum, Tweedledee>(c, "Tweedledum"));
            c.require("honest-verify", 60);
            c.assume("earlier deferred proofs come from circuits no larger than the absorbing one (the fixed bases do not reach further)");
        }
        "C12" => {
            let k = c.n(1, 4);
            cycles!(&c, k, c12);
            if !c.thorough {
                cycles!(&c, 3, c12_light);
            }
            let k = c.n(2, 4);
            cycles!(&c, k, complete_check);
            c.require("alter:proof", 1000);
            c.require("alter:key", 150);
            c.assume("the optional precomputed tables cached in a verification key are trusted caches of public data, not part of its meaning");
        }
        "C13" => {
            let k = c.n(1, 4);
            rayon::join(
                || cycles!(&c, k, c13),
                || {
                    if !c.thorough {
                        cycles!(&c, 2, c13_light);
                    }
                    cycles!(&c, k, c13_large);
                },
            );
            cycles!(&c, 4, c13_puppet);
            let k = c.n(2, 4);
            cycles!(&c, k, complete_check);
            c.require("binding", 200);
            c.require("puppet:no-copies", 8);
            c.require("puppet:no-gates", 8);
            c.assume("provers outside the modelled catalogue of deviations (for example solving discrete logarithms or inverting the transcript hash) are not tried");
        }
        "C19" => {
            cycles!(&c, 4, c19);
            c.require("opening-accepted", 30);
            c.require("opening-altered", 500);
        }
        "C20" => {
            let k = c.n(2, 4);
            cycles!(&c, k, c20);
            cycles!(&c, k, complete_check);
            c.require("complete-check:forged", 20);
            c.require("deferred-evaluation", 10);
            
        }
        "C22" => {
            cycles!(&c, 4, c22);
            cycles!(&c, 4, c22_masks);
            cycles!(&c, 4, c22_guess);
            c.require("mask", 200);
            c.require("blinding-value", 2000);
            c.require("guess", 12);
            c.assume("uniformity of randomness is observed statistically (seven sigma over thousands of values), not proved");
        }
        _ => panic!("unknown property"),
    }
    c.finish();
}
