//! C26: witness assembly, observed with instrumented value generators and compared with a reference evaluator.
use num::{BigUint, One, Zero};
use plonky::*;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use vmon::big::*;
use vmon::refs::*;
use vmon::work::*;
use vmon::zk::*;
use vmon::*;

/// Wires of a gate, and how many of them can be copied.
const NW: usize = 9;
const NR: usize = 6;
/// Documented: "We use 86-bit limbs".
const LIMB: usize = 86;

fn w<F: Field>(gate: usize, input: usize) -> Target<F> {
    Target::Wire(Wire { gate, input })
}

fn v<F: Field>(index: usize) -> Target<F> {
    Target::VirtualTarget(VirtualTarget { index })
}

fn pi<F: Field>(index: usize) -> Target<F> {
    Target::PublicInput(PublicInput::new(index))
}

fn any_target<F: Field>(rng: &mut R) -> Target<F> {
    let small = |rng: &mut R| if rng.gen_range(0, 8) == 0 { rng.gen_range(0, 1usize << 40) } else { rng.gen_range(0, 7usize) };
    match rng.gen_range(0, 3) {
        0 => w(small(rng), rng.gen_range(0, NW)),
        1 => v(small(rng)),
        _ => pi(small(rng)),
    }
}

fn edge<F: FieldSpec>(rng: &mut R) -> F {
    match rng.gen_range(0, 6) {
        0 => F::ZERO,
        1 => F::mk(&(F::p() - 1u32)),
        2 => F::mk(&BigUint::from(rng.gen_range(0u64, 4))),
        3 => F::mk(&(((BigUint::one() << rng.gen_range(1usize, F::BITS - 1)) - 1u32 + rng.gen_range(0u32, 3)) % F::p())),
        _ => uf(rng),
    }
}

/// Random operations on the sparse store, against an ordered list of pairs.
fn store<F: FieldSpec>(c: &Ctx, tag: &str, n: usize) {
    let mut rng = c.rng(&format!("store{}", tag));
    for round in 0..n {
        let mut pw: PartialWitness<F> = if round % 2 == 0 { PartialWitness::new() } else { Default::default() };
        let mut model: Vec<(Target<F>, F)> = vec![];
        let get = |m: &Vec<(Target<F>, F)>, t: Target<F>| m.iter().find(|x| x.0 == t).map(|x| x.1);
        c.check(pw.is_empty() && pw.all_populated_targets().is_empty(), &format!("{}/new-not-empty", tag), || "a new assignment holds values".into());
        let ops = rng.gen_range(1, 60);
        let mut text = String::new();
        for _ in 0..ops {
            let t = any_target::<F>(&mut rng);
            let x: F = edge(&mut rng);
            let op = rng.gen_range(0, 7);
            match op {
                0 | 1 | 2 => {
                    match get(&model, t) {
                        Some(old) if old != x => {
                            // contradictory: refused; the same value again: accepted
                            if rng.gen() {
                                let r = guard(|| {
                                    if op == 0 { pw.set_target(t, x) } else { pw.set_targets(&[t], &[x]) }
                                });
                                c.check(r.is_err(), &format!("{}/contradiction-accepted", tag), || format!("{:?} set to {:?} and then to {:?}", t, old, x));
                                c.ev("store:contradiction-refused", &(h64(&format!("{:?}{:?}{:?}", t, old, x))), true);
                                // what the store holds after a refusal is unspecified
                                let mut fresh = PartialWitness::new();
                                for &(t, x) in &model {
                                    fresh.set_target(t, x);
                                }
                                pw = fresh;
                            } else {
                                pw.set_target(t, old);
                                c.ev("store:same-again", &h64(&format!("{:?}{:?}", t, old)), true);
                            }
                        }
                        Some(_) => pw.set_target(t, x),
                        None => {
                            match (op, t) {
                                (0, _) => pw.set_target(t, x),
                                (1, Target::Wire(wi)) => pw.set_wire(wi, x),
                                _ => pw.set_targets(&[t], &[x]),
                            }
                            model.push((t, x));
                        }
                    }
                }
                3 => {
                    // several at once
                    let mut ts = vec![];
                    let mut xs = vec![];
                    for _ in 0..rng.gen_range(0, 6) {
                        let t = any_target::<F>(&mut rng);
                        if get(&model, t).is_none() && !ts.contains(&t) {
                            ts.push(t);
                            xs.push(edge::<F>(&mut rng));
                        }
                    }
                    pw.set_targets(&ts, &xs);
                    model.extend(ts.iter().cloned().zip(xs.iter().cloned()));
                    c.eq(&pw.get_targets(&ts), &xs, &format!("{}/set-targets", tag), || format!("targets {:?}", ts));
                }
                4 => {
                    // another assignment, agreeing where both have a value
                    let mut o = PartialWitness::new();
                    for _ in 0..rng.gen_range(0, 6) {
                        let t = any_target::<F>(&mut rng);
                        if o.contains_target(t) {
                            continue;
                        }
                        let x = get(&model, t).unwrap_or_else(|| edge::<F>(&mut rng));
                        o.set_target(t, x);
                        if get(&model, t).is_none() {
                            model.push((t, x));
                        }
                    }
                    pw.extend(o);
                }
                5 => {
                    // another assignment that contradicts this one
                    if let Some(&(t, old)) = model.choose(&mut rng) {
                        let mut o = PartialWitness::new();
                        o.set_target(t, old + F::ONE);
                        let mut p2 = PartialWitness::new();
                        for &(t, x) in &model {
                            p2.set_target(t, x);
                        }
                        c.check(guard(|| p2.extend(o)).is_err(), &format!("{}/extend-contradiction-accepted", tag), || format!("{:?} holds {:?}, extended with one more", t, old));
                        c.ev("store:extend-contradiction-refused", &h64(&format!("{:?}{:?}", t, old)), true);
                    }
                }
                _ => {}
            }
            // look the target up, whether it is there or not
            let want = get(&model, t);
            c.eq(&pw.contains_target(t), &want.is_some(), &format!("{}/contains", tag), || format!("{:?} after {}", t, text));
            if let Target::Wire(wi) = t {
                c.eq(&pw.contains_wire(wi), &want.is_some(), &format!("{}/contains-wire", tag), || format!("{:?}", t));
                if let Some(x) = want {
                    c.eq(&pw.get_wire(wi), &x, &format!("{}/get-wire", tag), || format!("{:?}", t));
                }
            }
            match want {
                Some(x) => {
                    c.eq(&pw.get_target(t), &x, &format!("{}/get", tag), || format!("{:?} after {}", t, text));
                }
                None => {
                    c.check(guard(|| pw.get_target(t)).is_err(), &format!("{}/get-of-nothing", tag), || format!("{:?} has no value but one was returned", t));
                }
            }
            text += &format!("{},", op);
        }
        let mut got: Vec<String> = pw.all_populated_targets().iter().map(|t| format!("{:?}={:?}", t, pw.get_target(*t))).collect();
        let mut want: Vec<String> = model.iter().map(|x| format!("{:?}={:?}", x.0, x.1)).collect();
        got.sort();
        want.sort();
        c.eq(&got, &want, &format!("{}/populated", tag), || text.clone());
        c.eq(&pw.is_empty(), &model.is_empty(), &format!("{}/is-empty", tag), || text.clone());
        // contains_all: every subset has all, and one more target that is absent spoils it wherever it stands
        let mut some: Vec<Target<F>> = model.iter().map(|x| x.0).filter(|_| rng.gen()).collect();
        some.shuffle(&mut rng);
        c.check(pw.contains_all_targets(&some), &format!("{}/contains-all", tag), || format!("{:?}", some));
        let gone = v::<F>(999_999);
        let at = rng.gen_range(0, some.len() + 1);
        some.insert(at, gone);
        c.check(!pw.contains_all_targets(&some), &format!("{}/contains-all-too-much", tag), || format!("{:?}", some));
        c.ev("store:history", &text, model.len() > 2);
    }
}

/// Values of larger types, stored as several targets.
fn typed<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>, FF: FieldSpec>(c: &Ctx, tag: &str, n: usize)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("typed{}", tag));
    let curve = RefCurve::of::<I>();
    let mask = (BigUint::one() << LIMB) - 1u32;
    for _ in 0..n {
        let limbs = rng.gen_range(1usize, 6);
        // targets need not be consecutive, nor of one kind
        let mut ts: Vec<Target<SF<C>>> = vec![];
        while ts.len() < limbs {
            let t = any_target(&mut rng);
            if !ts.contains(&t) {
                ts.push(t);
            }
        }
        let bits = rng.gen_range(0, LIMB * limbs + 1);
        let x = match rng.gen_range(0, 4) {
            0 => (BigUint::one() << bits) - 1u32,
            1 if bits > 0 => BigUint::one() << (bits - 1),
            2 => (BigUint::one() << (LIMB * rng.gen_range(0, limbs))) - rng.gen_range(0u32, 2),
            _ => BigUint::from_slice(&(0..14).map(|_| rng.gen::<u32>()).collect::<Vec<_>>()) % (BigUint::one() << bits),
        };
        let bt = if rng.gen() { BigIntTarget::new_unbounded(ts.clone()) } else { BigIntTarget::new_bounded(ts.clone(), x.clone()) };
        let d = || format!("{} limbs, value {}", limbs, x);
        let mut pw = PartialWitness::new();
        if let Err(e) = guard(|| pw.set_bigint_target(&bt, &x)) {
            c.viol(&format!("{}/set-bigint-crash", tag), format!("{}: {}", d(), e));
            continue;
        }
        for (i, &t) in ts.iter().enumerate() {
            c.eq(&pw.get_target(t).val(), &((&x >> (LIMB * i)) & &mask), &format!("{}/limb", tag), || format!("limb {} of {}", i, d()));
        }
        c.eq(&pw.get_bigint_target(&bt), &x, &format!("{}/bigint", tag), d);
        c.ev("typed:bigint", &(limbs, x.to_bytes_le()), limbs > 1);
        // limbs beyond 86 bits still add up
        let mut pw = PartialWitness::new();
        let mut want = BigUint::zero();
        for (i, &t) in ts.iter().enumerate() {
            let l: SF<C> = edge(&mut rng);
            pw.set_target(t, l);
            want += l.val() << (LIMB * i);
        }
        c.eq(&pw.get_bigint_target(&bt), &want, &format!("{}/bigint-overlap", tag), || format!("limbs {:?}", pw.get_targets(&ts)));
        // too large for its limbs
        let big = &x + (BigUint::one() << (LIMB * limbs));
        let mut pw = PartialWitness::new();
        c.check(guard(|| pw.set_bigint_target(&bt, &big)).is_err(), &format!("{}/bigint-too-large", tag), || format!("{} stored in {} limbs", big, limbs));
        c.ev("typed:bigint-too-large-refused", &(limbs, big.to_bytes_le()), true);
        // foreign field elements, set and read through the accessors, and made from a constant's targets
        let mut b = CircuitBuilder::<C>::new(128);
        let y: FF = edge(&mut rng);
        let mut ft = b.constant_foreign_field::<FF>(y);
        let k = (FF::BITS + LIMB - 1) / LIMB;
        let off = rng.gen_range(0usize, 50);
        ft.value = BigIntTarget::new_bounded((0..k).map(|i| v(off + i)).collect(), FF::p());
        let mut pw = PartialWitness::new();
        if let Err(e) = guard(|| pw.set_foreign_field_target(&ft, y)) {
            c.viol(&format!("{}/set-foreign-crash", tag), format!("{:?}: {}", y, e));
            continue;
        }
        for i in 0..k {
            c.eq(&pw.get_target(v(off + i)).val(), &((y.val() >> (LIMB * i)) & &mask), &format!("{}/foreign-limb", tag), || format!("limb {} of {:?}", i, y));
        }
        c.eq(&pw.get_foreign_field_target::<FF>(&ft), &y, &format!("{}/foreign", tag), || format!("{:?}", y));
        c.ev("typed:foreign", &h64(&format!("{:?}", y)), y != FF::ZERO);
        // points
        let m = rng.gen_range(1usize, 4);
        let pts: Vec<AffinePoint<I>> = (0..m).map(|_| aff(&curve.mul(&BigUint::from(rng.gen_range(1u64, 1 << 30)), &vmon::refs::pt::<I>(&I::GENERATOR_AFFINE)))).collect();
        let pts: Vec<AffinePoint<I>> = pts.iter().map(|&p| if rng.gen() { neg_pt(p) } else { p }).collect();
        let mut ids: Vec<usize> = (0..2 * m).collect();
        ids.shuffle(&mut rng);
        let tg: Vec<AffinePointTarget<I>> = (0..m).map(|i| AffinePointTarget { x: v(ids[2 * i]), y: v(ids[2 * i + 1]) }).collect();
        let mut pw = PartialWitness::new();
        let r = guard(|| {
            if rng.gen() {
                pw.set_point_targets(&tg, &pts);
            } else {
                for i in 0..m {
                    pw.set_point_target(tg[i], pts[i]);
                }
            }
        });
        if let Err(e) = r {
            c.viol(&format!("{}/set-point-crash", tag), e);
            continue;
        }
        for i in 0..m {
            c.eq(&(pw.get_target(tg[i].x), pw.get_target(tg[i].y)), &(pts[i].x, pts[i].y), &format!("{}/point-coordinates", tag), || format!("{:?}", pts[i]));
            match guard(|| pw.get_point_target(tg[i])) {
                Ok(p) => {
                    c.check(p.x == pts[i].x && p.y == pts[i].y && !p.zero, &format!("{}/point", tag), || format!("{:?} read back as {:?}", pts[i], p));
                }
                Err(e) => c.viol(&format!("{}/get-point-crash", tag), e),
            }
        }
        c.ev("typed:points", &h64(&format!("{:?}", pts)), m > 1);
        // orderings
        let ot = OrderingTarget { lt: v(ids[0]), eq: v(ids[1]), gt: v(100) };
        for &o in &[Ordering::Less, Ordering::Equal, Ordering::Greater] {
            let mut pw = PartialWitness::new();
            pw.set_ordering_target(ot, o);
            let b = |x: bool| if x { SF::<C>::ONE } else { SF::<C>::ZERO };
            c.eq(
                &pw.get_targets(&[ot.lt, ot.eq, ot.gt]),
                &vec![b(o == Ordering::Less), b(o == Ordering::Equal), b(o == Ordering::Greater)],
                &format!("{}/ordering-flags", tag),
                || format!("{:?}", o),
            );
            match guard(|| pw.get_ordering_target(ot)) {
                Ok(g) => {
                    c.eq(&g, &o, &format!("{}/ordering", tag), || format!("{:?}", o));
                }
                Err(e) => c.viol(&format!("{}/ordering-crash", tag), e),
            }
            c.ev("typed:ordering", &(o as i32, ids[0], ids[1]), true);
        }
        let flags: Vec<SF<C>> = (0..3).map(|_| SF::<C>::mk(&BigUint::from(rng.gen_range(0u64, 3)))).collect();
        let ones = flags.iter().filter(|f| **f == SF::<C>::ONE).count();
        if !(ones == 1 && flags.iter().filter(|f| f.is_zero()).count() == 2) {
            let mut pw = PartialWitness::new();
            pw.set_targets(&[ot.lt, ot.eq, ot.gt], &flags);
            c.check(guard(|| pw.get_ordering_target(ot)).is_err(), &format!("{}/ordering-invalid", tag), || format!("flags {:?} read as an ordering", flags));
            c.ev("typed:ordering-invalid-refused", &format!("{:?}", flags), true);
        }
        // dense form
        let deg = rng.gen_range(1usize, 12);
        let rows: Vec<Vec<SF<C>>> = (0..deg).map(|_| (0..NW).map(|_| edge(&mut rng)).collect()).collect();
        let wit = Witness::new(rows.clone());
        let tr = wit.transpose();
        let mut pw = PartialWitness::new();
        let mut want = rows.clone();
        for i in 0..deg {
            for j in 0..NW {
                c.check(
                    wit.get(Wire { gate: i, input: j }) == rows[i][j] && wit.get_indices(i, j) == rows[i][j] && tr.len() == NW && tr[j].len() == deg && tr[j][i] == rows[i][j],
                    &format!("{}/dense", tag),
                    || format!("row {} wire {} of {:?}", i, j, rows),
                );
                if rng.gen_range(0, 3) > 0 {
                    pw.set_wire(Wire { gate: i, input: j }, rows[i][j]);
                } else {
                    want[i][j] = SF::<C>::ZERO;
                }
            }
        }
        pw.set_target(v(3), SF::<C>::ONE);
        pw.set_target(w(deg + 5, 0), SF::<C>::ONE);
        c.eq(&rows_of(&Witness::from_partial(&pw, deg), deg), &want, &format!("{}/from-partial", tag), || format!("{} rows", deg));
        c.ev("typed:dense", &h64(&format!("{:?}", want)), deg > 1);
        // targets of one circuit renamed for another field
        let t: Target<SF<C>> = any_target(&mut rng);
        let q: Target<FF> = t.convert();
        let same = match (t, q) {
            (Target::Wire(a), Target::Wire(b)) => a == b,
            (Target::VirtualTarget(a), Target::VirtualTarget(b)) => a == b,
            (Target::PublicInput(a), Target::PublicInput(b)) => a.index == b.index,
            _ => false,
        };
        c.check(same && Target::<SF<C>>::convert_slice::<FF>(&[t, ts[0]]) == vec![q, ts[0].convert()], &format!("{}/convert", tag), || format!("{:?} became {:?}", t, q));
        c.ev("typed:convert", &format!("{:?}", t), true);
    }
}

/// A value generator which records how it was run.
struct Probe<F: Field> {
    id: usize,
    deps: Vec<Target<F>>,
    /// For every output: its target, and whether it is made from the dependencies or invented.
    outs: Vec<(Target<F>, bool)>,
    log: Arc<Mutex<Vec<Run<F>>>>,
}

#[derive(Clone, Debug)]
struct Run<F: Field> {
    id: usize,
    seen: Vec<Option<F>>,
    made: Vec<F>,
}

/// The function of a generator's output number `k`.
fn mix<F: FieldSpec>(id: usize, k: usize, xs: &[F]) -> F {
    let mut a = F::mk(&BigUint::from(id as u64 * 1009 + k as u64 * 17 + 5));
    for (i, &x) in xs.iter().enumerate() {
        a = a * F::mk(&BigUint::from(i as u64 + 3)) + x * x + x;
    }
    a
}

impl<F: FieldSpec> WitnessGenerator<F> for Probe<F> {
    fn dependencies(&self) -> Vec<Target<F>> {
        self.deps.clone()
    }

    fn generate(&self, _constants: &[Vec<F>], wit: &PartialWitness<F>) -> PartialWitness<F> {
        let seen: Vec<Option<F>> = self.deps.iter().map(|&t| if wit.contains_target(t) { Some(wit.get_target(t)) } else { None }).collect();
        let xs: Vec<F> = seen.iter().map(|x| x.unwrap_or(F::ZERO)).collect();
        let mut log = self.log.lock().unwrap();
        let n = log.len();
        let made: Vec<F> = self
            .outs
            .iter()
            .enumerate()
            .map(|(k, o)| if o.1 { mix(self.id, k, &xs) } else { F::mk(&(BigUint::from(h64(&(self.id, k, n, 77))) + 1u32)) })
            .collect();
        log.push(Run { id: self.id, seen, made: made.clone() });
        let mut r = PartialWitness::new();
        for (o, &x) in self.outs.iter().zip(&made) {
            r.set_target(o.0, x);
        }
        r
    }
}

/// The plan of an instrumented circuit: classes of targets joined by copies, and generators between the classes.
struct Plan<F: Field> {
    classes: Vec<Vec<Target<F>>>,
    /// (dependencies as (class, member), outputs as (class, member, deterministic))
    gens: Vec<(Vec<(usize, usize)>, Vec<(usize, usize, bool)>)>,
    npis: usize,
    /// classes fed by the user
    free: Vec<usize>,
}

/// Circuits made of buffer gates, copies and instrumented generators only.
fn instrumented<C: HaloCurve>(c: &Ctx, tag: &str, n: usize)
where
    SF<C>: FieldSpec,
{
    (0..n).into_par_iter().for_each(|round| {
        if !c.time_left() {
            return;
        }
        let mut rng = c.rng(&format!("instrumented{}{}", tag, round));
        let rng = &mut rng;
        c.tick();
        let mut b = CircuitBuilder::<C>::new(128);
        let log: Arc<Mutex<Vec<Run<SF<C>>>>> = Arc::new(Mutex::new(vec![]));
        let ngates = rng.gen_range(1usize, 12);
        let npis = match rng.gen_range(0, 6) {
            0 => 0,
            1 => rng.gen_range(1, 4),
            2 => rng.gen_range(6, 12),
            3 => NW * rng.gen_range(1usize, 3),
            _ => rng.gen_range(1, 30),
        };
        let nvirt = rng.gen_range(2usize, 40);
        let mut all: Vec<Target<SF<C>>> = b.add_virtual_targets(nvirt);
        let pis: Vec<Target<SF<C>>> = b.add_public_inputs(npis);
        // public inputs keep their order, among the other targets
        all.extend(pis.iter().cloned());
        for g in 0..ngates {
            b.add_gate_no_constants(BufferGate::new(g));
            for j in 0..NR {
                if rng.gen_range(0, 3) == 0 {
                    all.push(w(g, j));
                }
            }
        }
        all.shuffle(rng);
        // classes, joined by a random tree of copies and some extra ones
        let mut classes: Vec<Vec<Target<SF<C>>>> = vec![];
        let mut rest = all.clone();
        while !rest.is_empty() {
            let k = match rng.gen_range(0, 4) {
                0 | 1 => 1,
                2 => rng.gen_range(1, 4),
                _ => rng.gen_range(1, 12),
            };
            let k = k.min(rest.len());
            classes.push(rest.split_off(rest.len() - k));
        }
        let mut copies = vec![];
        for cl in &classes {
            for i in 1..cl.len() {
                let j = if rng.gen() { i - 1 } else { rng.gen_range(0, i) };
                copies.push(if rng.gen() { (cl[i], cl[j]) } else { (cl[j], cl[i]) });
            }
            for _ in 0..rng.gen_range(0, 3) {
                copies.push((*cl.choose(rng).unwrap(), *cl.choose(rng).unwrap()));
            }
        }
        copies.shuffle(rng);
        // the first classes are free, each later one is made by one generator, or by nobody
        let nfree = rng.gen_range(0, classes.len()).max(1);
        let free: Vec<usize> = (0..nfree).collect();
        let mut gens: Vec<(Vec<(usize, usize)>, Vec<(usize, usize, bool)>)> = vec![];
        let mut next = nfree;
        while next < classes.len() {
            if rng.gen_range(0, 12) == 0 {
                next += 1;
                continue;
            }
            let outs_n = rng.gen_range(1usize, 4).min(classes.len() - next);
            let nd = match rng.gen_range(0, 6) {
                0 => 0,
                1 => 1,
                2 => rng.gen_range(1, 9),
                _ => rng.gen_range(1, 4),
            };
            // often the class made just before, so that chains get long
            // now and then very many, the newest last
            let many = if rng.gen_range(0, 12) == 0 { rng.gen_range(20usize, 300) } else { 0 };
            let deps: Vec<(usize, usize)> = (0..many)
                .map(|_| {
                    let cl = rng.gen_range(0, nfree);
                    (cl, rng.gen_range(0, classes[cl].len()))
                })
                .collect::<Vec<_>>()
                .into_iter()
                .chain((0..nd).map(|_| {
                    let cl = if rng.gen() { next - 1 } else { rng.gen_range(0, next) };
                    (cl, rng.gen_range(0, classes[cl].len()))
                }))
                .collect();
            let outs: Vec<(usize, usize, bool)> = (0..outs_n).map(|k| (next + k, rng.gen_range(0, classes[next + k].len()), rng.gen_range(0, 4) > 0)).collect();
            next += outs_n;
            gens.push((deps, outs));
        }
        // a class may be needed by a generator made earlier in the list: order of registration is arbitrary
        let mut order: Vec<usize> = (0..gens.len()).collect();
        match rng.gen_range(0, 3) {
            0 => order.reverse(),
            1 => order.shuffle(rng),
            _ => {}
        }
        for &i in &order {
            let (deps, outs) = &gens[i];
            b.add_generator(Probe {
                id: i,
                deps: deps.iter().map(|&(k, m)| classes[k][m]).collect(),
                outs: outs.iter().map(|&(k, m, d)| (classes[k][m], d)).collect(),
                log: log.clone(),
            });
        }
        for &(x, y) in &copies {
            b.copy(x, y);
        }
        let circ = match guard(|| b.build()) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("{}/build-crash", tag), e);
                return;
            }
        };
        let plan = Plan { classes, gens, npis, free };
        let text = format!("{} round {}: {} classes, {} free, {} generators, {} copies, {} public inputs, {} gates", tag, round, plan.classes.len(), plan.free.len(), plan.gens.len(), copies.len(), npis, ngates);
        for rep in 0..4 {
            // all free classes, most of them, or a few
            let keep = [100, 100, 80, 30][rep];
            let given: Vec<usize> = plan.free.iter().cloned().filter(|_| rng.gen_range(0, 100) < keep).collect();
            observe(c, tag, &circ, &plan, &log, &given, rng, &format!("{} run {}", text, rep));
        }
    });
}

fn set_all<F: FieldSpec>(inputs: &[(Target<F>, F)], rng: &mut R) -> PartialWitness<F> {
    // in any order, in one go or as several assignments put together
    let mut ins = inputs.to_vec();
    ins.shuffle(rng);
    let mut pw = PartialWitness::new();
    let mut part = PartialWitness::new();
    for (i, &(t, x)) in ins.iter().enumerate() {
        if i % 3 == 1 {
            part.set_target(t, x);
            if rng.gen() {
                pw.extend(part);
                part = PartialWitness::new();
            }
        } else {
            pw.set_target(t, x);
        }
    }
    pw.extend(part);
    pw
}

fn observe<C: HaloCurve>(c: &Ctx, tag: &str, circ: &Circuit<C>, p: &Plan<SF<C>>, log: &Arc<Mutex<Vec<Run<SF<C>>>>>, given: &[usize], rng: &mut R, text: &str)
where
    SF<C>: FieldSpec,
{
    log.lock().unwrap().clear();
    let mut val: Vec<Option<SF<C>>> = vec![None; p.classes.len()];
    let mut inputs: Vec<(Target<SF<C>>, SF<C>)> = vec![];
    for &k in given {
        let x: SF<C> = edge(rng);
        val[k] = Some(x);
        // through one member of the class, or several
        let m = if rng.gen_range(0, 4) == 0 { rng.gen_range(1, p.classes[k].len() + 1) } else { 1 };
        let mut ms = p.classes[k].clone();
        ms.shuffle(rng);
        for &t in &ms[..m] {
            inputs.push((t, x));
        }
    }
    let pw = set_all(&inputs, rng);
    let out = match guard(|| circ.generate_partial_witness(pw)) {
        Ok(x) => x,
        Err(e) => {
            c.viol(&format!("{}/generation-crash", tag), format!("{}, inputs {:?}: {}", text, inputs, e));
            return;
        }
    };
    let runs = log.lock().unwrap().clone();
    // the reference: generators in dependency order (a generator only needs classes before its outputs)
    let mut reached = 0;
    let mut of: HashMap<usize, Vec<&Run<SF<C>>>> = HashMap::new();
    for r in &runs {
        of.entry(r.id).or_default().push(r);
    }
    for (i, (deps, outs)) in p.gens.iter().enumerate() {
        let xs: Option<Vec<SF<C>>> = deps.iter().map(|&(k, _)| val[k]).collect();
        let mine = of.remove(&i).unwrap_or_default();
        match xs {
            None => {
                c.check(mine.is_empty(), &format!("{}/ran-without-dependencies", tag), || format!("{}: generator {} ran though not all of {:?} can be known", text, i, deps));
                c.ev("generator:not-reached", &(h64(text), i), true);
            }
            Some(xs) => {
                reached += 1;
                if !c.check(mine.len() == 1, &format!("{}/not-run-once", tag), || format!("{}: generator {} with dependencies {:?} ran {} times", text, i, deps, mine.len())) {
                    if mine.is_empty() {
                        return;
                    }
                }
                let r = mine[0];
                let seen: Vec<Option<SF<C>>> = xs.iter().map(|&x| Some(x)).collect();
                c.eq(&r.seen, &seen, &format!("{}/dependencies-seen", tag), || format!("{}: generator {}", text, i));
                for (k, o) in outs.iter().enumerate() {
                    val[o.0] = Some(if o.2 { mix(i, k, &xs) } else { r.made[k] });
                }
                c.ev("generator:ran-once", &(h64(text), i), deps.len() > 1);
            }
        }
    }
    // every member of every class
    let mut wires: BTreeMap<(usize, usize), Option<SF<C>>> = BTreeMap::new();
    for (k, cl) in p.classes.iter().enumerate() {
        for &t in cl {
            let got = if out.contains_target(t) { Some(out.get_target(t)) } else { None };
            // a public input's own target stands for its wires
            let ok = if let Target::PublicInput(_) = t { got == val[k] || (got.is_none() && val[k].is_none()) } else { got == val[k] };
            c.check(ok, &format!("{}/value", tag), || format!("{}: {:?} is {:?}, should be {:?} (class of {} targets, {})", text, t, got, val[k], cl.len(), if given.contains(&k) { "given" } else { "generated" }));
            if let Target::Wire(x) = t {
                wires.insert((x.gate, x.input), val[k]);
            }
        }
        c.ev(if val[k].is_some() { "class:known" } else { "class:unknown" }, &(h64(text), k), cl.len() > 1);
    }
    let n = circ.degree();
    let rows = match guard(|| rows_of(&Witness::from_partial(&out, n), n)) {
        Ok(x) => x,
        Err(e) => {
            c.viol(&format!("{}/dense-crash", tag), format!("{}: {}", text, e));
            return;
        }
    };
    let npi_at = circ.num_gates_without_pis;
    for g in 0..npi_at.saturating_sub(blind_rows::<C>()) {
        for j in 0..NW {
            let want = wires.get(&(g, j)).cloned().flatten().unwrap_or(SF::<C>::ZERO);
            c.check(rows[g][j] == want, &format!("{}/row", tag), || format!("{}: row {} wire {} is {:?}, should be {:?}", text, g, j, rows[g][j], want));
        }
    }
    // the public inputs, as the proof system reads them
    let mut pivals = vec![SF::<C>::ZERO; p.npis];
    for (k, cl) in p.classes.iter().enumerate() {
        for &t in cl {
            if let Target::PublicInput(x) = t {
                pivals[x.index] = val[k].unwrap_or(SF::<C>::ZERO);
            }
        }
    }
    let dense = Witness::from_partial(&out, n);
    match guard(|| circ.get_public_inputs(&dense)) {
        Ok(x) => {
            c.eq(&x, &pivals, &format!("{}/public-inputs", tag), || text.to_string());
            c.ev("public-inputs", &h64(&format!("{}{:?}", text, x)), p.npis > NR);
        }
        Err(e) => c.viol(&format!("{}/public-inputs-crash", tag), format!("{}: {}", text, e)),
    }
    c.ev("assembly", &(h64(text), runs.len()), reached > 2);
    c.sample("assembly", || format!("{}: {} inputs given, {} of {} generators reached, order of the runs {:?}", text, inputs.len(), reached, p.gens.len(), runs.iter().map(|r| r.id).take(20).collect::<Vec<_>>()));

    // a contradiction: two members of a class, or a generated class, given another value
    for _ in 0..2 {
        let k = rng.gen_range(0, p.classes.len());
        let x = match val[k] {
            Some(x) => x,
            None => continue,
        };
        // only values which do not depend on the run
        if !given.contains(&k) && p.gens.iter().any(|g| g.1.iter().any(|o| o.0 == k && !o.2)) {
            continue;
        }
        let t = *p.classes[k].choose(rng).unwrap();
        let lie = if rng.gen() { x + SF::<C>::ONE } else { uf(rng) };
        if inputs.iter().any(|i| i.0 == t) || lie == x {
            continue;
        }
        // whatever else depends on the class must not hide it: the lie is given as well as everything else
        let mut ins = inputs.clone();
        ins.push((t, lie));
        let pw = set_all(&ins, rng);
        let r = guard(|| circ.generate_partial_witness(pw));
        c.check(r.is_err(), &format!("{}/contradiction-accepted", tag), || format!("{}: {:?} given as {:?}, which contradicts {:?} of its class ({})", text, t, lie, x, if given.contains(&k) { "given" } else { "generated" }));
        c.ev(if given.contains(&k) { "contradiction:given" } else { "contradiction:generated" }, &(h64(text), k), true);
    }
}

/// Circuits made of the real gadgets.
fn circuits<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, tag: &str, n: usize)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    (0..n).into_par_iter().for_each(|round| {
        if !c.time_left() {
            return;
        }
        c.tick();
        let mut rng = c.rng(&format!("circuits{}{}", tag, round));
        let rng = &mut rng;
        let mut steps: Vec<usize> = (0..rng.gen_range(3, 14)).map(|_| rng.gen_range(0, 19)).collect();
        for &k in &[19, 30, 31, 32] {
            if rng.gen_range(0, 3) == 0 {
                steps.push(k);
            }
        }
        if round % 5 == 0 {
            steps.push(33);
        }
        steps.shuffle(rng);
        let rc = Recipe { sec: 128, npis: rng.gen_range(0, 14), steps, pad: 0 };
        let m = match make::<C, I>(rng, &rc) {
            Ok(m) => m,
            Err(e) => {
                if !e.contains("not convertible") {
                    c.viol(&format!("{}/make", tag), e);
                }
                return;
            }
        };
        let n = m.circ.degree();
        let nb = blind_rows::<C>();
        let blind = m.circ.num_gates_without_pis - nb;
        let is_blind = |t: &Target<SF<C>>| match t {
            Target::Wire(x) => x.gate >= blind && x.gate < blind + nb,
            _ => false,
        };
        let run = |pw: PartialWitness<SF<C>>| guard(|| m.circ.generate_partial_witness(pw));
        let full = match run(set_all(&m.inputs, rng)) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("{}/generation-crash", tag), format!("{}: {}", m.text, e));
                return;
            }
        };
        let table = |w: &PartialWitness<SF<C>>| -> HashMap<Target<SF<C>>, SF<C>> { w.all_populated_targets().into_iter().filter(|t| !is_blind(t)).map(|t| (t, w.get_target(t))).collect() };
        let want = table(&full);
        // kept
        for &(t, x) in &m.inputs {
            c.check(want.get(&t) == Some(&x), &format!("{}/input-lost", tag), || format!("{}: {:?} given as {:?}, became {:?}", m.text, t, x, want.get(&t)));
        }
        // joined targets are equal, in the plan and in the permutation the proof uses
        for (&t, &x) in &want {
            for &s in m.circ.routing_target_partitions.get_partition_checked(t) {
                c.check(want.get(&s) == Some(&x), &format!("{}/copy-unequal", tag), || format!("{}: {:?} = {:?} but {:?} = {:?}", m.text, t, x, s, want.get(&s)));
            }
        }
        let rows = rows_of(&Witness::from_partial(&full, n), n);
        for g in (0..n).filter(|g| *g < blind || *g >= blind + nb) {
            for j in 0..NW {
                let x = want.get(&w(g, j)).cloned().unwrap_or(SF::<C>::ZERO);
                c.check(rows[g][j] == x, &format!("{}/dense", tag), || format!("{}: row {} wire {}", m.text, g, j));
            }
        }
        c.ev("circuit", &m.text, want.len() > 20);
        c.sample("circuit", || format!("{}: {} values from {} inputs, {} generators", m.text, want.len(), m.inputs.len(), m.circ.generators.len()));
        c.eq(&m.circ.get_public_inputs(&m.wit), &m.pis, &format!("{}/public-inputs", tag), || m.text.clone());
        // another order, another run
        match run(set_all(&m.inputs, rng)) {
            Ok(x) => {
                let got = table(&x);
                c.check(got == want, &format!("{}/order-dependent", tag), || format!("{}: another order of the same inputs gives {} values, {} of them different", m.text, got.len(), got.iter().filter(|(t, x)| want.get(t) != Some(x)).count()));
                c.ev("circuit:again", &m.text, true);
            }
            Err(e) => c.viol(&format!("{}/order-crash", tag), format!("{}: {}", m.text, e)),
        }
        // some inputs first, the others later: on the way nothing else is assigned, at the end everything is
        for _ in 0..3 {
            let (a, b): (Vec<_>, Vec<_>) = m.inputs.iter().cloned().partition(|_| rng.gen());
            let first = match run(set_all(&a, rng)) {
                Ok(x) => x,
                Err(e) => {
                    c.viol(&format!("{}/partial-crash", tag), format!("{}: with {} of {} inputs: {}", m.text, a.len(), m.inputs.len(), e));
                    continue;
                }
            };
            let got = table(&first);
            let bad = got.iter().find(|(t, x)| want.get(t) != Some(x));
            c.check(bad.is_none(), &format!("{}/partial-differs", tag), || format!("{}: with {} of {} inputs {:?} is assigned, later {:?}", m.text, a.len(), m.inputs.len(), bad, bad.map(|x| want.get(x.0))));
            let mut ins: Vec<_> = got.iter().map(|(&t, &x)| (t, x)).collect();
            ins.extend(b.iter().cloned().filter(|x| !got.contains_key(&x.0)));
            match run(set_all(&ins, rng)) {
                Ok(x) => {
                    let again = table(&x);
                    c.check(again == want, &format!("{}/resumed-differs", tag), || format!("{}: resumed with the other inputs gives {} values instead of {}", m.text, again.len(), want.len()));
                    c.ev("circuit:resumed", &(&m.text, got.len()), got.len() < want.len());
                }
                Err(e) => c.viol(&format!("{}/resumed-crash", tag), format!("{}: {}", m.text, e)),
            }
        }
        // a wrong value for something that is computed
        let mut computed: Vec<Target<SF<C>>> = want.keys().cloned().filter(|t| !m.inputs.iter().any(|x| x.0 == *t)).collect();
        computed.sort_by_key(|t| format!("{:?}", t));
        for _ in 0..6 {
            let t = match computed.choose(rng) {
                Some(&t) => t,
                None => break,
            };
            let mut ins = m.inputs.clone();
            let lie = if rng.gen() { want[&t] + SF::<C>::ONE } else { uf(rng) };
            if lie == want[&t] {
                continue;
            }
            ins.push((t, lie));
            let r = run(set_all(&ins, rng));
            c.check(r.is_err(), &format!("{}/contradiction-accepted", tag), || format!("{}: {:?} given as {:?}, though the inputs make it {:?} (public inputs start at gate {})", m.text, t, lie, want[&t], m.circ.num_gates_without_pis));
            c.ev("circuit:contradiction", &(&m.text, h64(&format!("{:?}", t))), true);
        }
    });
}

trait Checked<F: Field> {
    fn get_partition_checked(&self, t: Target<F>) -> &[Target<F>];
}

impl<F: Field> Checked<F> for TargetPartitions<F> {
    fn get_partition_checked(&self, t: Target<F>) -> &[Target<F>] {
        guard(|| self.get_partition(t)).unwrap_or(&[])
    }
}

fn main() {
    let prop = std::env::args().nth(1).unwrap_or_default();
    let c = Ctx::new(&prop);
    match prop.as_str() {
        "C26" => {
            c.section("store", |c| {
                store::<TweedledeeBase>(c, "TweedledeeBase", c.n(1500, 12000));
                store::<Bls12377Scalar>(c, "Bls12377Scalar", c.n(600, 6000));
            });
            c.section("typed", |c| {
                typed::<Tweedledee, Tweedledum, TweedledeeBase>(c, "Tweedledee", c.n(300, 4000));
                typed::<Tweedledum, Tweedledee, Bls12377Base>(c, "Tweedledum", c.n(300, 4000));
                typed::<Pallas, Vesta, PallasBase>(c, "Pallas", c.n(300, 4000));
            });
            c.section("instrumented", |c| {
                instrumented::<Tweedledee>(c, "Tweedledee", c.n(60, 3000));
                instrumented::<Tweedledum>(c, "Tweedledum", c.n(40, 2000));
                instrumented::<Pallas>(c, "Pallas", c.n(20, 1000));
            });
            c.section("circuits", |c| {
                circuits::<Tweedledee, Tweedledum>(c, "gadgets:Tweedledee", c.n(16, 500));
                circuits::<Tweedledum, Tweedledee>(c, "gadgets:Tweedledum", c.n(12, 300));
                circuits::<Pallas, Vesta>(c, "gadgets:Pallas", c.n(8, 200));
            });
            c.require("store:contradiction-refused", 20);
            c.require("typed:bigint", 50);
            c.require("generator:ran-once", 200);
            c.require("generator:not-reached", 50);
            c.require("contradiction:given", 5);
            c.require("contradiction:generated", 5);
            c.require("circuit", 5);
            c.require("circuit:resumed", 10);
            c.assume("Contradictory assignments are refused by debug assertions: observed in builds that keep them, as this repository's do.");
        }
        _ => {
            eprintln!("vm_witness decides C26");
            std::process::exit(3);
        }
    }
    c.finish();
}
