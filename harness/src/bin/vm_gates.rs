//! C14-C18: circuits, gadgets, gates and copy constraints, observed on honest and dishonest assignments.
use num::{BigUint, One, Zero};
use plonky::*;
use rand::Rng;
use std::sync::Arc;
use vmon::big::*;
use vmon::refs::*;
use vmon::zk::*;
use vmon::*;

fn dag<C: HaloCurve>(c: &Ctx, rng: &mut R, steps: usize, sec: usize, hashes: usize, sqrt: bool) -> Dag<C>
where
    SF<C>: FieldSpec,
{
    let mut d: Dag<C> = Dag::new(sec);
    let p = SF::<C>::pr().clone();
    let sp = boundary_values(&p);
    for i in 0..rng.gen_range(1, 14) {
        let v = match rng.gen_range(0, 4) {
            0 => SF::<C>::mk(&sp[rng.gen_range(0, sp.len())]),
            1 => SF::<C>::mk(&hostile(rng, &p)),
            2 => SF::<C>::mk(&BigUint::from(rng.gen_range(0u32, 4))),
            _ => rf(rng),
        };
        d.input(i == 0 || rng.gen_range(0, 3) == 0, v);
    }
    let rr = Arc::new(RefRescue::<SF<C>>::new(4, sec));
    for i in 0..steps {
        let g0 = d.b.num_gates();
        let k = d.step(rng, 19);
        if std::env::var("VMON_STEPS").is_ok() {
            eprintln!("{} gates {}..{}", k, g0, d.b.num_gates());
        }
        c.ev(&format!("step:{}", k), &(i, d.b.num_gates()), true);
    }
    for _ in 0..hashes {
        d.hash_step(rng, &rr);
    }
    if sqrt {
        let before = d.claims.len();
        while d.claims.len() == before {
            d.step_kind(rng, 19);
        }
    }
    for _ in 0..steps / 4 {
        d.step(rng, 19);
    }
    // expose some results publicly
    for _ in 0..rng.gen_range(0, 12) {
        let x = d.pick(rng);
        let t = d.b.add_public_input();
        d.pis.push(x.1);
        d.b.copy(t, x.0);
    }
    d
}

/// Every arithmetic gadget on fixed input targets, under many input values.
fn c14_panel<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let mut rng = c.rng(&format!("panel{}", name));
    let mut d: Dag<C> = Dag::new(128);
    for i in 0..5 {
        d.input(i % 2 == 0, rf(&mut rng));
    }
    for _ in 0..c.n(2, 4) {
        for k in (0..13).chain(14..15) {
            d.step_kind(&mut rng, k);
        }
    }
    for _ in 0..2 {
        d.hash_step(&mut rng, &Arc::new(RefRescue::<SF<C>>::new(4, 128)));
    }
    let free = d.inputs.len();
    let nz = d.input(false, SF::<C>::ONE);
    let t = d.b.inv(nz);
    d.claim("inv", vec![nz], vec![t], |v| if v[0].is_zero() { Expect::False } else { Expect::Outs(vec![SF::<C>::mk(&inv(&v[0].val(), SF::<C>::pr()))]) });
    d.b.assert_nonzero(nz);
    let dg = d.input(false, SF::<C>::ZERO);
    d.b.assert_all_base_4(&[dg]);
    let bit = d.input(true, SF::<C>::ONE);
    d.b.assert_binary(bit);
    let Dag { b, claims, inputs, .. } = d;
    let circ = b.build();
    let p = SF::<C>::pr().clone();
    let sp = boundary_values(&p);
    let rounds: Vec<Vec<_>> = (0..c.n(150, 3000))
        .map(|r| {
            let mut inp: Vec<(Target<SF<C>>, SF<C>)> = inputs.clone();
            for i in 0..free {
                inp[i].1 = match rng.gen_range(0, 5) {
                    0 => SF::<C>::mk(&sp[rng.gen_range(0, sp.len())]),
                    1 => SF::<C>::mk(&hostile(&mut rng, &p)),
                    2 if i > 0 => inp[rng.gen_range(0, i)].1,
                    3 => SF::<C>::mk(&BigUint::from(rng.gen_range(0u32, 3))),
                    _ => rf(&mut rng),
                };
            }
            inp[free].1 = loop {
                let v = if r % 2 == 0 { SF::<C>::mk(&sp[rng.gen_range(0, sp.len())]) } else { rf::<SF<C>>(&mut rng) };
                if !v.is_zero() {
                    break v;
                }
            };
            inp[free + 1].1 = SF::<C>::mk(&BigUint::from(r % 4));
            inp[free + 2].1 = SF::<C>::mk(&BigUint::from(r % 2));
            inp
        })
        .collect();
    honest_rounds::<C, I>(c, &format!("panel/{}", name), &circ, &claims, &rounds);
}

fn c14<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let mut rng = c.rng(name);
    for i in 0..c.n(2, 60) {
        if !c.time_left() {
            c.note(format!("{}: stopped after {} circuits", name, i));
            break;
        }
        let i = if c.thorough { i } else { i + (c.seed as usize + name.len()) % 4 };
        let steps = [25, 60, 110, 8, 200, 3][i % 6];
        let sec = [128, 80, 128, 100, 128, 160][i % 6];
        let d: Dag<C> = match guard(|| dag(c, &mut rng, steps, sec, [1, 3, 0, 0, 1, 0][i % 6], i % 2 == 0)) {
            Ok(d) => d,
            Err(e) => {
                c.viol(&format!("{}/builder-crash", name), e);
                continue;
            }
        };
        let Dag { b, claims, inputs, pis, .. } = d;
        let circ = match guard(|| b.build()) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("{}/build-crash", name), e);
                continue;
            }
        };
        probe::<C, I>(c, name, &circ, &claims, &inputs, &pis, &mut rng, &ProbeOpts { solver_attacks: c.n(700, 20000), wire_attacks: c.n(3000, 20000) });
    }
}

/// One gadget at a time in circuits small enough for every cheating strategy to be tried.
fn c14_solo<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let mut rng = c.rng(&format!("solo{}", name));
    let rr = Arc::new(RefRescue::<SF<C>>::new(4, 128));
    let p = SF::<C>::pr().clone();
    for it in 0..c.n(1, 8) {
        for kind in 0..22usize {
            let reps = match kind { 15 => 4, 16 => 8, _ => 1 };
            for _ in 0..reps {
                if !c.time_left() {
                    return;
                }
                let r = guard(|| {
                    let mut d: Dag<C> = Dag::new(128);
                    for i in 0..3 {
                        let v = if i == 0 || rng.gen() { rf(&mut rng) } else { SF::<C>::mk(&hostile(&mut rng, &p)) };
                        d.input(rng.gen(), v);
                    }
                    let mut tries = 0;
                    loop {
                        let before = d.claims.len();
                        let k = if kind < 20 { d.step_kind(&mut rng, kind) } else { d.hash_step(&mut rng, &rr); "hash" };
                        tries += 1;
                        if d.claims.len() > before || tries > 20 {
                            c.ev(&format!("solo:{}", k), &(it, d.b.num_gates()), true);
                            break;
                        }
                        if kind == 19 || kind == 13 {
                            d.input(false, rf(&mut rng));
                        }
                    }
                    let Dag { b, claims, inputs, pis, .. } = d;
                    (b.build(), claims, inputs, pis)
                });
                match r {
                    Ok((circ, claims, inputs, pis)) => probe::<C, I>(c, &format!("solo/{}", name), &circ, &claims, &inputs, &pis, &mut rng, &ProbeOpts { solver_attacks: c.n(if kind >= 19 { 1200 } else { 400 }, 6000), wire_attacks: c.n(200, 2000) }),
                    Err(e) => c.viol(&format!("solo/{}/crash", name), e),
                }
            }
        }
    }
}

/// Big integers in circuit, with their native values.
struct BDag<C: HaloCurve> {
    d: Dag<C>,
    bigs: Vec<(BigIntTarget<SF<C>>, BigUint)>,
}

fn lim() -> BigUint {
    BigUint::one() << 86
}

fn join<F: FieldSpec>(v: &[F]) -> Option<BigUint> {
    let mut r = BigUint::zero();
    for (i, x) in v.iter().enumerate() {
        let x = x.val();
        if x >= lim() {
            return None;
        }
        r += x << (86 * i);
    }
    Some(r)
}

fn digits<F: FieldSpec>(v: &BigUint, n: usize) -> Vec<F> {
    let m = lim() - 1u32;
    let mut o: Vec<F> = (0..n).map(|i| F::mk(&((v >> (86 * i)) & &m))).collect();
    // a value that does not fit is no correct answer at all
    if !(v >> (86 * n)).is_zero() {
        o.push(F::mk(&(v >> (86 * n))));
    }
    o
}

/// A random value of at most `bits` bits with special limb patterns.
fn big_value(rng: &mut R, bits: usize) -> BigUint {
    if bits == 0 {
        return BigUint::zero();
    }
    let top = BigUint::one() << bits;
    let mut v = BigUint::zero();
    match rng.gen_range(0, 8) {
        0 => return BigUint::zero(),
        1 => return &top - 1u32,
        2 => return BigUint::from(rng.gen_range(0u32, 5)) % top,
        3 => return (BigUint::one() << rng.gen_range(0, bits)) - rng.gen_range(0u32, 2),
        _ => {}
    }
    for i in 0..=(bits / 86) {
        let l: BigUint = match rng.gen_range(0, 4) {
            0 => BigUint::zero(),
            1 => lim() - 1u32,
            _ => (BigUint::from(rng.gen::<u128>())) % lim(),
        };
        v += l << (86 * i);
    }
    v % top
}

impl<C: HaloCurve> BDag<C>
where
    SF<C>: FieldSpec,
{
    fn konst(&mut self, v: BigUint) {
        let t = self.d.b.constant_bigint(&v);
        let w = v.clone();
        let n = t.limbs.len();
        self.d.claim("constant_bigint", vec![], t.limbs.clone(), move |_| Expect::Outs(digits(&w, n)));
        self.bigs.push((t, v));
    }

    fn var(&mut self, v: BigUint, max: BigUint) {
        let t = self.d.b.add_virtual_bigint_target(&max, true);
        let n = t.limbs.len();
        for (i, l) in digits::<SF<C>>(&v, n).into_iter().enumerate() {
            self.d.inputs.push((t.limbs[i], l));
        }
        let bits = max.bits() as usize;
        self.d.claim("range_checked_limbs", t.limbs.clone(), vec![], move |x| {
            for (i, l) in x.iter().enumerate() {
                // every limb keeps to its 86 bits, the top one to the bits of the bound (in whole base-4 digits)
                let b = (bits - 86 * i).min(86);
                if l.val().bits() as usize > b + b % 2 {
                    return Expect::False;
                }
            }
            Expect::Outs(vec![])
        });
        self.bigs.push((t, v));
    }

    fn pick(&self, rng: &mut R, maxl: usize) -> (BigIntTarget<SF<C>>, BigUint) {
        loop {
            let x = &self.bigs[rng.gen_range(0, self.bigs.len())];
            if x.0.limbs.len() <= maxl {
                return x.clone();
            }
        }
    }

    fn op(&mut self, name: &str, ins: &[(BigIntTarget<SF<C>>, BigUint)], out: Vec<BigIntTarget<SF<C>>>, f: impl Fn(&[BigUint]) -> Option<Vec<BigUint>> + Send + Sync + 'static) {
        let lens: Vec<usize> = ins.iter().map(|x| x.0.limbs.len()).collect();
        let maxes: Vec<BigUint> = ins.iter().map(|x| x.0.max.clone()).collect();
        let outl: Vec<usize> = out.iter().map(|x| x.limbs.len()).collect();
        let outmax: Vec<BigUint> = out.iter().map(|x| x.max.clone()).collect();
        let vals: Vec<BigUint> = ins.iter().map(|x| x.1.clone()).collect();
        if let Some(r) = f(&vals) {
            for (t, v) in out.iter().zip(r) {
                self.bigs.push((t.clone(), v));
            }
        }
        let its: Vec<_> = ins.iter().flat_map(|x| x.0.limbs.clone()).collect();
        let ots: Vec<_> = out.iter().flat_map(|x| x.limbs.clone()).collect();
        self.d.claim(name, its, ots, move |x| {
            let mut k = 0;
            let mut v = Vec::new();
            for (l, m) in lens.iter().zip(&maxes) {
                match join(&x[k..k + l]) {
                    // operands outside their declared bound are not covered
                    Some(w) if w <= *m => v.push(w),
                    _ => return Expect::Any,
                }
                k += l;
            }
            match f(&v) {
                None => Expect::False,
                Some(r) => {
                    if r.iter().zip(&outmax).any(|(r, m)| r > m) {
                        return Expect::False; // the declared bound of the result must hold it
                    }
                    let mut o = Vec::new();
                    for (r, l) in r.iter().zip(&outl) {
                        o.extend(digits::<SF<C>>(r, *l));
                    }
                    Expect::Outs(o)
                }
            }
        });
    }

    fn cmp(&mut self, x: (BigIntTarget<SF<C>>, BigUint), y: (BigIntTarget<SF<C>>, BigUint)) {
        let o = self.d.b.bigint_cmp(&x.0, &y.0);
        let (nx, mx, my) = (x.0.limbs.len(), x.0.max.clone(), y.0.max.clone());
        let mut ins = x.0.limbs.clone();
        ins.extend(y.0.limbs.iter().copied());
        self.d.claim("bigint_cmp", ins, vec![o.lt, o.eq, o.gt], move |v| match (join(&v[..nx]), join(&v[nx..])) {
            (Some(a), Some(b)) if a <= mx && b <= my => Expect::Outs([a < b, a == b, a > b].iter().map(|&t| if t { SF::<C>::ONE } else { SF::<C>::ZERO }).collect()),
            _ => Expect::Any,
        });
    }

    fn step(&mut self, rng: &mut R, kind: usize) -> &'static str {
        match kind {
            0 => {
                let (x, y) = (self.pick(rng, 5), self.pick(rng, 5));
                let z = self.d.b.bigint_add(&x.0, &y.0);
                self.op("bigint_add", &[x, y], vec![z], |v| Some(vec![&v[0] + &v[1]]));
                "bigint_add"
            }
            1 => {
                let n = rng.gen_range(1, 6);
                let xs: Vec<_> = (0..n).map(|_| self.pick(rng, 4)).collect();
                let ts: Vec<_> = xs.iter().map(|x| x.0.clone()).collect();
                let z = self.d.b.bigint_add_many(&ts);
                self.op("bigint_add_many", &xs, vec![z], |v| {
                    let mut s = BigUint::zero();
                    for x in v {
                        s += x;
                    }
                    Some(vec![s])
                });
                "bigint_add_many"
            }
            2 => {
                let (x, y) = (self.pick(rng, 3), self.pick(rng, 3));
                let z = self.d.b.bigint_mul(&x.0, &y.0);
                self.op("bigint_mul", &[x, y], vec![z], |v| Some(vec![&v[0] * &v[1]]));
                "bigint_mul"
            }
            3 | 4 | 5 => {
                let mut x = self.pick(rng, 6);
                let mut y = self.pick(rng, 3);
                while y.1.is_zero() {
                    y = self.pick(rng, 3);
                    if rng.gen_range(0, 20) == 0 {
                        let v = big_value(rng, 90) + 1u32;
                        self.konst(v);
                    }
                }
                if rng.gen_range(0, 3) == 0 {
                    // no remainder
                    let (m, vary) = (big_value(rng, 90) + 1u32, rng.gen::<bool>());
                    let v = &y.1 * m;
                    if vary { self.var(v.clone(), v) } else { self.konst(v) }
                    x = self.bigs.last().unwrap().clone();
                }
                let f = |v: &[BigUint], k: usize| {
                    if v[1].is_zero() {
                        return None;
                    }
                    let (q, r) = (&v[0] / &v[1], &v[0] % &v[1]);
                    Some(if k == 3 { vec![q, r] } else if k == 4 { vec![q] } else { vec![r] })
                };
                match kind {
                    3 => {
                        let (q, r) = self.d.b.bigint_div_rem(&x.0, &y.0);
                        self.op("bigint_div_rem", &[x, y], vec![q, r], move |v| f(v, 3));
                    }
                    4 => {
                        let q = self.d.b.bigint_div(&x.0, &y.0);
                        self.op("bigint_div", &[x, y], vec![q], move |v| f(v, 4));
                    }
                    _ => {
                        let q = self.d.b.bigint_rem(&x.0, &y.0);
                        self.op("bigint_rem", &[x, y], vec![q], move |v| f(v, 5));
                    }
                }
                "bigint_div_rem"
            }
            6 | 7 => {
                let x = self.pick(rng, 6);
                let mut y = self.pick(rng, 6);
                match rng.gen_range(0, 4) {
                    0 => {
                        // equal, or differing in the lowest or highest limb only
                        let l = x.0.limbs.len().max(1);
                        let d = BigUint::one() << (86 * rng.gen_range(0, l));
                        let v = match rng.gen_range(0, 3) {
                            0 => x.1.clone(),
                            1 => &x.1 + d,
                            _ => if x.1 >= d { &x.1 - d } else { x.1.clone() },
                        };
                        self.konst(v);
                        y = self.bigs.last().unwrap().clone();
                    }
                    1 => {
                        let v = x.1.clone();
                        let m = (BigUint::one() << (86 * x.0.limbs.len() + 1)) - 1u32;
                        self.var(v, m);
                        y = self.bigs.last().unwrap().clone();
                    }
                    _ => {}
                }
                if rng.gen() {
                    self.cmp(x, y)
                } else {
                    self.cmp(y, x)
                }
                "bigint_cmp"
            }
            8 => {
                let x = self.pick(rng, 5);
                let v = x.1.clone();
                let extra = rng.gen_range(0, 2) * 86;
                let m = (BigUint::one() << (x.1.bits() as usize + extra + rng.gen_range(0, 3))) - 1u32;
                if rng.gen() {
                    self.var(v, m);
                } else {
                    self.konst(v);
                }
                let y = self.bigs.last().unwrap().clone();
                self.d.b.copy_bigint(&x.0, &y.0);
                self.op("copy_bigint", &[x, y], vec![], |v| if v[0] == v[1] { Some(vec![]) } else { None });
                "copy_bigint"
            }
            9 => {
                use std::cmp::Ordering::*;
                for o in [Less, Equal, Greater].iter() {
                    let t = self.d.b.constant_ordering(*o);
                    let want: Vec<SF<C>> = [Less, Equal, Greater].iter().map(|q| if q == o { SF::<C>::ONE } else { SF::<C>::ZERO }).collect();
                    self.d.claim("constant_ordering", vec![], vec![t.lt, t.eq, t.gt], move |_| Expect::Outs(want.clone()));
                }
                let t = self.d.b.add_virtual_ordering_target(true);
                let k = rng.gen_range(0, 3);
                for (i, &x) in [t.lt, t.eq, t.gt].iter().enumerate() {
                    self.d.inputs.push((x, if i == k { SF::<C>::ONE } else { SF::<C>::ZERO }));
                }
                self.d.claim("ordering_assert_valid", vec![t.lt, t.eq, t.gt], vec![], |v| {
                    let ones = v.iter().filter(|x| **x == SF::<C>::ONE).count();
                    let zeros = v.iter().filter(|x| x.is_zero()).count();
                    if ones == 1 && zeros == 2 { Expect::Outs(vec![]) } else { Expect::False }
                });
                "ordering"
            }
            _ => "skip",
        }
    }

    fn foreign<FF: FieldSpec>(&mut self, rng: &mut R, muls: usize) {
        let q = FF::pr().clone();
        let sp = boundary_values(&q);
        let mut pool: Vec<(ForeignFieldTarget<SF<C>, FF>, BigUint)> = Vec::new();
        for i in 0..3 {
            let v = match (i, rng.gen_range(0, 3)) {
                (0, _) => &q - 1u32,
                (_, 0) => sp[rng.gen_range(0, sp.len())].clone(),
                (_, 1) => hostile(rng, &q),
                _ => rf::<FF>(rng).val(),
            };
            let t = self.d.b.constant_foreign_field(FF::mk(&v));
            let (w, n) = (v.clone(), t.value.limbs.len());
            self.d.claim("constant_foreign_field", vec![], t.value.limbs.clone(), move |_| Expect::Outs(digits(&w, n)));
            pool.push((t, v));
        }
        if rng.gen() {
            pool.push((ForeignFieldTarget::zero(), BigUint::zero()));
        }
        for k in 0..muls + 2 {
            let n = if k < muls { 2 } else { rng.gen_range(1, 5) };
            let mut xs: Vec<(ForeignFieldTarget<SF<C>, FF>, BigUint)> = Vec::new();
            for j in 0..n {
                let i = if j == 0 && k > 0 { pool.len() - 1 } else { rng.gen_range(0, pool.len()) };
                xs.push((pool[i].0.clone(), pool[i].1.clone()));
            }
            if k >= muls && (k == muls || rng.gen_range(0, 3) == 0) {
                // a sum which is a multiple of the modulus
                let mut s = xs[..n - 1].iter().fold(BigUint::zero(), |a, x| a + &x.1) % &q;
                if s.is_zero() {
                    s = q.clone();
                }
                let v = &q - s;
                xs[n - 1] = (self.d.b.constant_foreign_field(FF::mk(&v)), v);
            }
            let ts: Vec<_> = xs.iter().map(|x| x.0.clone()).collect();
            let bx: Vec<_> = xs.iter().map(|x| (x.0.value.clone(), x.1.clone())).collect();
            let q2 = q.clone();
            let (z, v, name): (_, BigUint, &str) = if k < muls {
                (self.d.b.foreign_field_mul::<FF>(&ts[0], &ts[1]), (&xs[0].1 * &xs[1].1) % &q, "foreign_field_mul")
            } else if n == 2 {
                (self.d.b.foreign_field_add::<FF>(&ts[0], &ts[1]), (&xs[0].1 + &xs[1].1) % &q, "foreign_field_add")
            } else {
                let mut s = BigUint::zero();
                for x in &xs {
                    s += &x.1;
                }
                (self.d.b.foreign_field_add_many::<FF>(&ts), s % &q, "foreign_field_add_many")
            };
            let mul = k < muls;
            self.op(name, &bx, vec![z.value.clone()], move |v| {
                let mut s = if mul { BigUint::one() } else { BigUint::zero() };
                for x in v {
                    if mul {
                        s *= x;
                    } else {
                        s += x;
                    }
                }
                Some(vec![s % &q2])
            });
            self.bigs.pop();
            pool.push((z, v));
        }
    }
}

/// Every big-integer gadget on fixed bounded targets, under many operand values.
fn c15_panel<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let mut rng = c.rng(&format!("panel{}", name));
    let shapes = [(255usize, 255usize), (258, 172), (172, 100), (86, 86), (85, 87), (430, 255)];
    for k in 0..c.n(3, 7) {
        // once with full limbs, so that sums carry out of the top
        let full = k + 1 == c.n(3, 7) as usize;
        let (bx, by) = if full { (86 * rng.gen_range(1, 3), 86) } else if k == 0 { shapes[rng.gen_range(0, 2)] } else if c.thorough { shapes[k] } else { shapes[rng.gen_range(2, 5)] };
        let one = BigUint::one();
        let mx = if full || rng.gen() { (&one << bx) - 1u32 } else { &one << (bx - 1) };
        let my = if full || rng.gen() { (&one << by) - 1u32 } else { &one << (by - 1) };
        let mut d: BDag<C> = BDag { d: Dag::new(128), bigs: vec![] };
        d.var(mx.clone(), mx.clone());
        d.var(my.clone(), my.clone());
        let (x, y) = (d.bigs[0].clone(), d.bigs[1].clone());
        let z = d.d.b.bigint_add(&x.0, &y.0);
        d.op("bigint_add", &[x.clone(), y.clone()], vec![z], |v| Some(vec![&v[0] + &v[1]]));
        let z = d.d.b.bigint_add_many(&[x.0.clone(), y.0.clone(), x.0.clone()]);
        d.op("bigint_add_many", &[x.clone(), y.clone()], vec![z], |v| Some(vec![&v[0] + &v[1] + &v[0]]));
        let z = d.d.b.bigint_mul(&x.0, &y.0);
        d.op("bigint_mul", &[x.clone(), y.clone()], vec![z], |v| Some(vec![&v[0] * &v[1]]));
        let (q, r) = d.d.b.bigint_div_rem(&x.0, &y.0);
        d.op("bigint_div_rem", &[x.clone(), y.clone()], vec![q, r], |v| if v[1].is_zero() { None } else { Some(vec![&v[0] / &v[1], &v[0] % &v[1]]) });
        d.cmp(x.clone(), y.clone());
        d.cmp(y.clone(), x.clone());
        let Dag { b, claims, .. } = d.d;
        let circ = b.build();
        let rounds: Vec<Vec<_>> = (0..c.n(60, 1500))
            .map(|r| {
                let fit = |v: BigUint, m: &BigUint| if v > *m { v % (m + 1u32) } else { v };
                let mut yv = fit(big_value(&mut rng, by), &my);
                if yv.is_zero() {
                    yv = one.clone();
                }
                let mut xv = fit(big_value(&mut rng, bx), &mx);
                match r % 6 {
                    0 => xv = fit(yv.clone(), &mx),
                    1 => xv = fit(&yv + 1u32, &mx),
                    2 => xv = fit(&yv - 1u32, &mx),
                    3 => xv = fit(&yv * big_value(&mut rng, bx.saturating_sub(by).max(1)), &mx),
                    _ => {}
                }
                if r == 7 {
                    xv = mx.clone();
                    yv = my.clone();
                }
                if r == 8 {
                    xv = mx.clone();
                    yv = one.clone();
                }
                let mut inp = Vec::new();
                for (t, v) in x.0.limbs.iter().zip(digits::<SF<C>>(&xv, x.0.limbs.len())).chain(y.0.limbs.iter().zip(digits::<SF<C>>(&yv, y.0.limbs.len()))) {
                    inp.push((*t, v));
                }
                inp
            })
            .collect();
        honest_rounds::<C, I>(c, &format!("panel/{}", name), &circ, &claims, &rounds);
    }
}

fn c15<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(name);
    for i in 0..c.n(3, 60) {
        if !c.time_left() {
            c.note(format!("{}: stopped after {} circuits", name, i));
            break;
        }
        let mut bd: BDag<C> = BDag { d: Dag::new(128), bigs: vec![] };
        let r = guard(|| {
            if i % 3 == 2 {
                match rng.gen_range(0, 3) {
                    0 => bd.foreign::<SF<I>>(&mut rng, 1),
                    1 => bd.foreign::<SF<C>>(&mut rng, 1),
                    _ => bd.foreign::<Bls12377Scalar>(&mut rng, 1),
                }
                if rng.gen_range(0, 6) == 0 {
                    bd.foreign::<Bls12377Base>(&mut rng, 0);
                }
                return;
            }
            for k in 0..6 {
                let bits = [1, 86, 87, 172, 255, 258][rng.gen_range(0, 6)];
                let v = big_value(&mut rng, bits);
                if k % 2 == 0 {
                    bd.konst(v);
                } else {
                    let max = if rng.gen() { (BigUint::one() << bits) - 1u32 } else { v.clone() + rng.gen_range(0u32, 3) };
                    if max.is_zero() {
                        continue;
                    }
                    bd.var(v, max);
                }
            }
            for j in 0..6 {
                let kind = if j == 0 { (i / 3 * 2 + i % 3) % 3 + 2 } else { rng.gen_range(0, 10) };
                let k = bd.step(&mut rng, kind);
                c.ev(&format!("step:{}", k), &(i, bd.d.b.num_gates()), true);
                if bd.d.b.num_gates() > 900 {
                    break;
                }
            }
        });
        if let Err(e) = r {
            c.viol(&format!("{}/builder-crash", name), e);
            continue;
        }
        let Dag { b, claims, inputs, pis, .. } = bd.d;
        let circ = match guard(|| b.build()) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("{}/build-crash", name), e);
                continue;
            }
        };
        probe::<C, I>(c, name, &circ, &claims, &inputs, &pis, &mut rng, &ProbeOpts { solver_attacks: c.n(700, 20000), wire_attacks: c.n(3000, 20000) });
    }
}

/// One gadget at a time, with bounds of every digit count, in circuits small enough for every cheating strategy.
fn c15_solo<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("solo{}", name));
    let kinds: Vec<usize> = if c.thorough { (0..10).chain(100..145).chain(200..230).collect() } else { let mut v: Vec<usize> = (0..10).collect(); v.extend((0..14).map(|d| 100 + d)); v.extend(&[200, 201, 141, 142, 142]); v };
    for it in 0..c.n(1, 3) {
        for &kind in &kinds {
            if !c.time_left() {
                return;
            }
            let mut bd: BDag<C> = BDag { d: Dag::new(128), bigs: vec![] };
            let r = guard(|| match kind {
                100..=199 => {
                    // one range check of a given number of base-4 digits, alone or above full limbs
                    let bits = 2 * (kind - 99) - rng.gen_range(0, 2) + 86 * if rng.gen_range(0, 3) == 0 { 1 } else { 0 };
                    let m = (BigUint::one() << bits) - 1u32;
                    let v = match rng.gen_range(0, 3) { 0 => m.clone(), 1 => BigUint::zero(), _ => big_value(&mut rng, bits) };
                    bd.var(v, m);
                }
                200..=299 => match rng.gen_range(0, 2) {
                    0 => bd.foreign::<SF<I>>(&mut rng, 0),
                    _ => bd.foreign::<SF<C>>(&mut rng, 0),
                },
                k => {
                    for j in 0..3 {
                        let bits = [3, 88, 172, 258][rng.gen_range(0, 4)];
                        let v = big_value(&mut rng, bits);
                        if j == 0 || v.is_zero() {
                            bd.konst(v);
                        } else {
                            let max = v.clone() + rng.gen_range(0u32, 9);
                            bd.var(v, max);
                        }
                    }
                    bd.step(&mut rng, k);
                }
            });
            if let Err(e) = r {
                c.viol(&format!("solo/{}/crash", name), e);
                continue;
            }
            let Dag { b, claims, inputs, pis, .. } = bd.d;
            match guard(|| b.build()) {
                Ok(circ) => {
                    c.ev(&format!("solo:{}", kind), &it, true);
                    probe::<C, I>(c, &format!("solo/{}", name), &circ, &claims, &inputs, &pis, &mut rng, &ProbeOpts { solver_attacks: c.n(400, 6000), wire_attacks: c.n(200, 2000) });
                }
                Err(e) => c.viol(&format!("solo/{}/build-crash", name), e),
            }
        }
    }
}

type CP<I> = (AffinePointTarget<I>, Pt);

struct CDag<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>> {
    d: Dag<C>,
    pts: Vec<CP<I>>,
    rc: RefCurve,
}

fn rand_pt<I: HaloCurve>(rc: &RefCurve, rng: &mut R) -> Pt
where
    I::BaseField: FieldSpec,
{
    let k = match rng.gen_range(0, 4) {
        0 => BigUint::from(rng.gen_range(1u32, 5)),
        1 => &rc.r - rng.gen_range(1u32, 5),
        _ => BigUint::from(rng.gen::<u128>()) * BigUint::from(rng.gen::<u128>()) % &rc.r + 1u32,
    };
    rc.mul(&k, &pt::<I>(&I::GENERATOR_AFFINE))
}

impl<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>> CDag<C, I>
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    fn new(sec: usize) -> Self {
        CDag { d: Dag::new(sec), pts: vec![], rc: RefCurve::of::<I>() }
    }

    /// A point that becomes known in one of several ways.
    fn point(&mut self, rng: &mut R, q: Pt) -> CP<I> {
        let a: AffinePoint<I> = aff(&q);
        let t = match rng.gen_range(0, 4) {
            0 => {
                let t = self.d.b.constant_affine_point::<I>(a);
                let w = vec![a.x, a.y];
                self.d.claim("constant_affine_point", vec![], t.to_vec(), move |_| Expect::Outs(w.clone()));
                t
            }
            1 => AffinePointTarget { x: self.d.input(true, a.x), y: self.d.input(true, a.y) },
            2 => {
                let t = self.d.b.add_virtual_point_target::<I>();
                self.d.inputs.push((t.x, a.x));
                self.d.inputs.push((t.y, a.y));
                t
            }
            _ => {
                // known late: copied from an arithmetic result
                let h: SF<C> = rf(rng);
                let (hx, gx) = (self.d.input(false, h), self.d.input(true, a.x - h));
                let x = self.d.b.add(hx, gx);
                let (hy, gy) = (self.d.input(false, a.y), self.d.b.one_wire());
                let y = self.d.b.mul(hy, gy);
                let t = self.d.b.add_virtual_point_target::<I>();
                let s = AffinePointTarget { x, y };
                self.d.b.copy_curve(s, t);
                self.d.claim("copy_curve", vec![s.x, s.y, t.x, t.y], vec![], |v| if v[0] == v[2] && v[1] == v[3] { Expect::Outs(vec![]) } else { Expect::False });
                t
            }
        };
        self.pts.push((t, q.clone()));
        (t, q)
    }

    fn claim_pts(&mut self, name: &str, ins: &[CP<I>], out: AffinePointTarget<I>, f: impl Fn(&RefCurve, &[Pt]) -> Option<Pt> + Send + Sync + 'static) {
        let rc = self.rc.clone();
        let vals: Vec<Pt> = ins.iter().map(|x| x.1.clone()).collect();
        if let Some(v) = f(&rc, &vals) {
            self.pts.push((out, v));
        }
        let its: Vec<_> = ins.iter().flat_map(|x| x.0.to_vec()).collect();
        self.d.claim(name, its, out.to_vec(), move |v| {
            let q: Vec<Pt> = v.chunks(2).map(|c| Some((c[0].val(), c[1].val()))).collect();
            if q.iter().any(|x| !rc.on(x)) {
                return Expect::Any;
            }
            match f(&rc, &q) {
                None => Expect::False,
                Some(r) => {
                    let a: AffinePoint<I> = aff(&r);
                    Expect::Outs(vec![a.x, a.y])
                }
            }
        });
    }

    fn step(&mut self, rng: &mut R) -> &'static str {
        let x = self.pts[rng.gen_range(0, self.pts.len())].clone();
        let y = self.pts[rng.gen_range(0, self.pts.len())].clone();
        let ex = |a: &Pt, b: &Pt| a.as_ref().unwrap().0 == b.as_ref().unwrap().0;
        match rng.gen_range(0, 6) {
            0 => {
                if ex(&x.1, &y.1) {
                    return "skip";
                }
                let t = self.d.b.curve_add::<I>(x.0, y.0);
                self.claim_pts("curve_add", &[x, y], t, |rc, v| if v[0].as_ref().unwrap().0 == v[1].as_ref().unwrap().0 { None } else { Some(rc.add(&v[0], &v[1])) });
                "curve_add"
            }
            1 => {
                if ex(&x.1, &y.1) {
                    return "skip";
                }
                let t = self.d.b.curve_sub::<I>(x.0, y.0);
                self.claim_pts("curve_sub", &[x, y], t, |rc, v| if v[0].as_ref().unwrap().0 == v[1].as_ref().unwrap().0 { None } else { Some(rc.add(&v[0], &rc.neg(&v[1]))) });
                "curve_sub"
            }
            2 => {
                let t = self.d.b.curve_double::<I>(x.0);
                self.claim_pts("curve_double", &[x], t, |rc, v| Some(rc.add(&v[0], &v[0])));
                "curve_double"
            }
            3 => {
                let t = self.d.b.curve_neg::<I>(x.0);
                self.claim_pts("curve_neg", &[x], t, |rc, v| Some(rc.neg(&v[0])));
                "curve_neg"
            }
            4 => {
                self.d.b.curve_assert_valid::<I>(x.0);
                let rc = self.rc.clone();
                self.d.claim("curve_assert_valid", x.0.to_vec(), vec![], move |v| if rc.on(&Some((v[0].val(), v[1].val()))) { Expect::Outs(vec![]) } else { Expect::False });
                "curve_assert_valid"
            }
            _ => {
                let q = rand_pt::<I>(&self.rc, rng);
                self.point(rng, q);
                "point"
            }
        }
    }

    fn scalar(&mut self, rng: &mut R, k: usize) -> (Target<SF<C>>, BigUint) {
        let top = BigUint::one() << 254;
        let v = match k % 7 {
            0 => BigUint::one(),
            1 => &top - 1u32,
            2 => BigUint::one() << rng.gen_range(0, 254),
            3 => BigUint::from(rng.gen_range(2u32, 9)),
            _ => (BigUint::from(rng.gen::<u128>()) << 127) % &top + 1u32,
        };
        let t = match rng.gen_range(0, 4) {
            0 => self.d.input(true, SF::<C>::mk(&v)),
            1 => self.d.b.constant_wire(SF::<C>::mk(&v)),
            2 => self.d.input(false, SF::<C>::mk(&v)),
            _ => {
                let h: SF<C> = rf(rng);
                let a = self.d.input(false, h);
                let b = self.d.input(true, SF::<C>::mk(&v) - h);
                self.d.b.add(a, b)
            }
        };
        (t, v)
    }

    fn msm(&mut self, rng: &mut R, n: usize, seed: usize) {
        let mut ins = Vec::new();
        let mut parts = Vec::new();
        for j in 0..n {
            // scalars are sometimes declared before and sometimes after their points
            let s = self.scalar(rng, seed + j);
            let q = if self.pts.is_empty() || rng.gen() { let q = rand_pt::<I>(&self.rc, rng); self.point(rng, q) } else { self.pts[rng.gen_range(0, self.pts.len())].clone() };
            ins.push((s.clone(), q.clone()));
            parts.push(CurveMulOp { scalar: s.0, point: q.0 });
        }
        let t = if n == 1 { self.d.b.curve_mul::<I>(parts.pop().unwrap()) } else { self.d.b.curve_msm::<I>(&parts) };
        let rc = self.rc.clone();
        let its: Vec<_> = ins.iter().flat_map(|x| vec![(x.0).0, (x.1).0.x, (x.1).0.y]).collect();
        self.d.claim(if n == 1 { "curve_mul" } else { "curve_msm" }, its, t.to_vec(), move |v| {
            let mut acc: Pt = None;
            for c in v.chunks(3) {
                let q = Some((c[1].val(), c[2].val()));
                if c[0].val() >= BigUint::one() << 254 || !rc.on(&q) {
                    return Expect::Any;
                }
                acc = rc.add(&acc, &rc.mul(&c[0].val(), &q));
            }
            if acc.is_none() {
                return Expect::False;
            }
            let a: AffinePoint<I> = aff(&acc);
            Expect::Outs(vec![a.x, a.y])
        });
    }
}

fn c16<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(name);
    for i in 0..c.n(3, 60) {
        if !c.time_left() {
            c.note(format!("{}: stopped after {} circuits", name, i));
            break;
        }
        let mut cd: CDag<C, I> = CDag::new(128);
        let r = guard(|| {
            if i % 3 == 1 {
                cd.msm(&mut rng, 1 + (i / 3) % 3 + if c.thorough { 0 } else { (c.seed as usize + name.len()) % 2 }, i + c.seed as usize);
                return;
            }
            for _ in 0..3 {
                let q = rand_pt::<I>(&cd.rc, &mut rng);
                cd.point(&mut rng, q);
            }
            for j in 0..if i % 3 == 0 { 14 } else { 40 } {
                let k = cd.step(&mut rng);
                c.ev(&format!("step:{}", k), &(name, i, j), k != "skip");
            }
        });
        if let Err(e) = r {
            c.viol(&format!("{}/builder-crash", name), e);
            continue;
        }
        let Dag { b, claims, inputs, pis, .. } = cd.d;
        let circ = match guard(|| b.build()) {
            Ok(x) => x,
            Err(e) => {
                c.viol(&format!("{}/build-crash", name), e);
                continue;
            }
        };
        probe::<C, I>(c, name, &circ, &claims, &inputs, &pis, &mut rng, &ProbeOpts { solver_attacks: if i % 3 == 1 { c.n(250, 4000) } else { c.n(1200, 15000) }, wire_attacks: c.n(4000, 20000) });
    }
}

/// Many points and scalars through one circuit.
fn c16_panel<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let mut rng = c.rng(&format!("panel{}", name));
    let mut cd: CDag<C, I> = CDag::new(128);
    let g = pt::<I>(&I::GENERATOR_AFFINE);
    for i in 0..2 {
        let a: AffinePoint<I> = aff(&cd.rc.mul(&BigUint::from(i + 2u32), &g));
        let t = AffinePointTarget { x: cd.d.input(true, a.x), y: cd.d.input(false, a.y) };
        cd.pts.push((t, pt::<I>(&a)));
    }
    let (p, q) = (cd.pts[0].clone(), cd.pts[1].clone());
    let b = &mut cd.d.b;
    b.curve_assert_valid::<I>(p.0);
    let add = b.curve_add::<I>(p.0, q.0);
    let sub = b.curve_sub::<I>(p.0, q.0);
    let dbl = b.curve_double::<I>(q.0);
    let ng = b.curve_neg::<I>(p.0);
    cd.claim_pts("curve_add", &[p.clone(), q.clone()], add, |rc, v| Some(rc.add(&v[0], &v[1])));
    cd.claim_pts("curve_sub", &[p.clone(), q.clone()], sub, |rc, v| Some(rc.add(&v[0], &rc.neg(&v[1]))));
    cd.claim_pts("curve_double", &[q.clone()], dbl, |rc, v| Some(rc.add(&v[0], &v[0])));
    cd.claim_pts("curve_neg", &[p.clone()], ng, |rc, v| Some(rc.neg(&v[0])));
    let s = cd.d.input(false, SF::<C>::ONE);
    let m = cd.d.b.curve_mul::<I>(CurveMulOp { scalar: s, point: p.0 });
    let rc = cd.rc.clone();
    cd.d.claim("curve_mul", vec![s, p.0.x, p.0.y], m.to_vec(), move |v| {
        let a: AffinePoint<I> = aff(&rc.mul(&v[0].val(), &Some((v[1].val(), v[2].val()))));
        Expect::Outs(vec![a.x, a.y])
    });
    let rc = cd.rc.clone();
    let Dag { b, claims, .. } = cd.d;
    let circ = b.build();
    let rounds: Vec<Vec<_>> = (0..c.n(40, 800))
        .map(|r| {
            let (mut x, mut y) = (None, None);
            while x == y || x == rc.neg(&y) {
                x = rand_pt::<I>(&rc, &mut rng);
                y = rand_pt::<I>(&rc, &mut rng);
            }
            let k = match r % 5 {
                0 => BigUint::from(r / 5 + 1),
                1 => BigUint::one() << rng.gen_range(0, 254),
                2 => (BigUint::one() << 254) - 1u32 - rng.gen_range(0u32, 3),
                _ => (BigUint::from(rng.gen::<u128>()) << 126) + BigUint::from(rng.gen::<u128>()),
            };
            let (ax, ay): (AffinePoint<I>, AffinePoint<I>) = (aff(&x), aff(&y));
            vec![(p.0.x, ax.x), (p.0.y, ax.y), (q.0.x, ay.x), (q.0.y, ay.y), (s, SF::<C>::mk(&k))]
        })
        .collect();
    honest_rounds::<C, I>(c, &format!("panel/{}", name), &circ, &claims, &rounds);
}

/// The endomorphism-based multiplication, on one fixed input.
fn c16_endo(c: &Ctx) {
    type C = Tweedledee;
    type I = Tweedledum;
    let mut b = CircuitBuilder::<C>::new(128);
    let s = b.constant_wire(<SF<C> as FieldSpec>::mk(&BigUint::from(5u32)));
    let p = b.constant_affine_point::<I>(I::GENERATOR_AFFINE);
    let m = b.curve_mul_endo::<I>(CurveMulOp { scalar: s, point: p }).mul_result;
    let circ = b.build();
    let bits: Vec<bool> = (0..128).map(|i| 5u32.checked_shr(i).unwrap_or(0) & 1 == 1).collect();
    let want: AffinePoint<I> = plonky::plonk_util::halo_n_mul::<I>(&bits, I::GENERATOR_AFFINE);
    let ok = guard(|| {
        let pw = circ.generate_partial_witness(PartialWitness::new());
        let e = decode_sigma(&circ).unwrap();
        let rows = rows_of(&Witness::from_partial(&pw, e.n), e.n);
        unsat::<C, I>(&circ, &e, &rows, None).is_none() && pw.contains_target(m.x) && pw.get_point_target(m) == want
    });
    c.ev("curve_mul_endo", &5, true);
    match ok {
        Ok(true) => {}
        Ok(false) => c.viol("curve_mul_endo:scalar=5:generator:Tweedledee", "the generated assignment is refused or its result is not [n(5)] G"),
        Err(e) => c.viol("curve_mul_endo:scalar=5:generator:Tweedledee", e),
    }
}

struct Rows<F: Field> {
    k: Vec<F>,
    l: Vec<F>,
    r: Vec<F>,
    b: Vec<F>,
}

/// Rows that satisfy the relation of a gate, everything the relation does not mention being random.
fn satisfied<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(kind: usize, rng: &mut R, rr: &RefRescue<SF<C>>) -> Rows<SF<C>>
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let (name, prefix) = GATES[kind];
    let p = SF::<C>::pr().clone();
    let one = SF::<C>::ONE;
    let mut v = |rng: &mut R, n: usize| -> Vec<SF<C>> { (0..n).map(|_| if rng.gen_range(0, 5) == 0 { SF::<C>::mk(&hostile(rng, &p)) } else { rf(rng) }).collect() };
    let mut k = v(rng, 6);
    for (i, &x) in prefix.iter().enumerate() {
        k[i] = if x == 1 { one } else { SF::<C>::ZERO };
    }
    let (mut l, mut r, mut b) = (v(rng, NW), v(rng, NW), v(rng, NW));
    let m = |x: &BigUint| SF::<C>::mk(x);
    let bit = |rng: &mut R| if rng.gen() { one } else { SF::<C>::ZERO };
    let fifth = |x: SF<C>| m(&x.val().modpow(&inv_mod(&BigUint::from(5u32), &(&p - 1u32)), &p));
    let invf = |x: SF<C>| m(&inv(&x.val(), &p));
    match name {
        "PublicInput" => {
            for i in 0..3 {
                r[i] = l[6 + i];
            }
        }
        "Constant" => l[0] = k[5],
        "Arithmetic" => l[3] = k[4] * l[0] * l[1] + k[5] * l[2],
        "Base4Sum" => {
            let mut acc = l[0];
            for i in 0..7 {
                l[2 + i] = m(&BigUint::from(rng.gen_range(0u32, 4)));
                acc = acc * m(&BigUint::from(4u32)) + l[2 + i];
            }
            l[1] = acc;
        }
        "RescueA" => {
            for i in 0..4 {
                l[4 + i] = fifth(l[i]);
            }
            let o = rr.mix(&l[4..8], &k[2..6]);
            r[..4].copy_from_slice(&o);
        }
        "RescueB" => {
            let s: Vec<SF<C>> = l[..4].iter().map(|&x| x * x * x * x * x).collect();
            let o = rr.mix(&s, &k[2..6]);
            r[..4].copy_from_slice(&o);
        }
        "CurveAdd" | "CurveEndo" => {
            let rc = RefCurve::of::<I>();
            let pts: Vec<AffinePoint<I>> = (0..2).map(|_| aff(&rand_pt::<I>(&rc, rng))).collect();
            if rng.gen_range(0, 3) > 0 {
                l[0] = pts[0].x;
                l[1] = pts[0].y;
                l[4] = pts[1].x;
                l[5] = pts[1].y;
            }
            l[6] = bit(rng);
            if name == "CurveEndo" {
                l[7] = bit(rng);
                let x2 = if l[7].is_zero() { l[4] } else { I::ZETA * l[4] };
                let y2 = if l[6].is_zero() { SF::<C>::ZERO - l[5] } else { l[5] };
                l[8] = invf(l[0] - x2);
                let lam = (l[1] - y2) * l[8];
                r[0] = lam * lam - l[0] - x2;
                r[1] = lam * (l[0] - r[0]) - l[1];
                let four = m(&BigUint::from(4u32));
                b[2] = four * l[2] + l[7] + l[7] + l[6];
                let mut limb = if l[7].is_zero() { one } else { I::ZETA };
                if l[6].is_zero() {
                    limb = SF::<C>::ZERO - limb;
                }
                b[3] = l[3] + l[3] + limb;
            } else {
                l[3] = l[2] + l[2] + l[6];
                l[7] = invf(l[0] - l[4]);
                l[8] = (l[1] - l[5]) * l[7];
                r[0] = l[0];
                r[1] = l[1];
                if !l[6].is_zero() {
                    r[0] = l[8] * l[8] - l[0] - l[4];
                    r[1] = l[8] * (l[0] - r[0]) - l[1];
                }
            }
        }
        "CurveDbl" => {
            l[4] = invf(l[1] + l[1]);
            l[5] = (m(&BigUint::from(3u32)) * l[0] * l[0] + I::A) * l[4];
            l[2] = l[5] * l[5] - l[0] - l[0];
            l[3] = l[5] * (l[0] - l[2]) - l[1];
        }
        _ => {}
    }
    Rows { k, l, r, b }
}

fn c17<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let s = |x: &str| format!("{}/{}", x, name);
    let mut rng = c.rng(name);
    let rr = RefRescue::<SF<C>>::new(4, 128);
    let one = SF::<C>::ONE;
    let two = one + one;
    let p = SF::<C>::pr().clone();
    let eval = |x: &Rows<SF<C>>| evaluate_all_constraints::<C, I>(&x.k, &x.l, &x.r, &x.b);
    let ok = |x: &Rows<SF<C>>| guard(|| eval(x).iter().all(|v| v.is_zero()));
    for kind in 0..GATES.len() {
        let g = GATES[kind].0;
        for it in 0..c.n(25, 600) {
            let base = satisfied::<C, I>(kind, &mut rng, &rr);
            let judge = |x: &Rows<SF<C>>, what: &str| {
                let want = gate_relation::<C, I>(g, &x.k, &x.l, &x.r, &x.b, &rr);
                match ok(x) {
                    Ok(got) => {
                        c.ev(&format!("relation:{}:{}", g, if want { "holds" } else { "fails" }), &(name, format!("{:?}{:?}{:?}", x.l, x.r, x.b)), true);
                        c.check(got == want, &s(&format!("relation/{}", g)), || format!("{}: constraints {} but the relation {}: constants {:?} local {:?} right {:?} below {:?}", what, if got { "hold" } else { "fail" }, if want { "holds" } else { "fails" }, x.k, x.l, x.r, x.b));
                    }
                    Err(e) => c.viol(&s(&format!("crash/{}", g)), e),
                }
            };
            judge(&base, "constructed");
            // each wire of the three rows changed in several ways
            for w in 0..3 * NW {
                let old = [&base.l, &base.r, &base.b][w / NW][w % NW];
                let mut vals = vec![old + one, old - one, SF::<C>::ZERO - old, SF::<C>::ZERO, one, two, two + one, two + two, SF::<C>::ZERO - one, rf(&mut rng)];
                if !c.thorough {
                    vals.truncate(10);
                }
                for v in vals {
                    let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                    [&mut x.l, &mut x.r, &mut x.b][w / NW][w % NW] = v;
                    judge(&x, &format!("wire {} of row {} changed", w % NW, ["local", "right", "below"][w / NW]));
                }
            }
            // two wires changed with offsetting deltas, swapped, or both negated
            for _ in 0..c.n(40, 100) {
                let (a, b) = (rng.gen_range(0, 3 * NW), rng.gen_range(0, 3 * NW));
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                let get = |x: &Rows<SF<C>>, w: usize| [&x.l, &x.r, &x.b][w / NW][w % NW];
                let (va, vb) = (get(&x, a), get(&x, b));
                let (na, nb) = match rng.gen_range(0, 6) {
                    0 => (va + one, vb - one),
                    1 => (va + two + two, vb - one),
                    2 => (vb, va),
                    3 => (SF::<C>::ZERO - va, SF::<C>::ZERO - vb),
                    4 => (va + two, vb - one),
                    _ => (va + one, vb + one),
                };
                [&mut x.l, &mut x.r, &mut x.b][a / NW][a % NW] = na;
                [&mut x.l, &mut x.r, &mut x.b][b / NW][b % NW] = nb;
                judge(&x, "two wires changed");
            }
            // a result not on the relation although all inputs are; constants of the gate changed (not the prefix)
            for i in GATES[kind].1.len()..6 {
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                x.k[i] = x.k[i] + one;
                judge(&x, "free constant changed");
            }
            // the curve gates' other root: the chord with the opposite slope, the other sign of the result
            if g == "CurveAdd" || g == "CurveDbl" {
                let (li, x0) = if g == "CurveAdd" { (8, 0) } else { (5, 0) };
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                x.l[li] = SF::<C>::ZERO - x.l[li];
                let lam = x.l[li];
                if g == "CurveAdd" {
                    x.r[1] = lam * (x.l[x0] - x.r[0]) - x.l[1];
                } else {
                    x.l[3] = lam * (x.l[0] - x.l[2]) - x.l[1];
                }
                judge(&x, "opposite slope");
            }
            // a digit or bit outside its range with everything else recomputed
            if g == "Base4Sum" {
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                x.l[2 + it % 7] = [two + two, SF::<C>::ZERO - one, rf(&mut rng), SF::<C>::mk(&(&p >> 1))][it % 4];
                let mut acc = x.l[0];
                for i in 0..7 {
                    acc = acc * (two + two) + x.l[2 + i];
                }
                x.l[1] = acc;
                judge(&x, "digit out of range");
            }
            if g == "CurveAdd" || g == "CurveEndo" {
                // non-binary bits, with the accumulators and sums recomputed as the formulas give them
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                let bad = [two, SF::<C>::ZERO - one, rf(&mut rng)][it % 3];
                if g == "CurveAdd" {
                    x.l[6] = bad;
                    x.l[3] = x.l[2] + x.l[2] + bad;
                    let x3 = x.l[8] * x.l[8] - x.l[0] - x.l[4];
                    let y3 = x.l[8] * (x.l[0] - x3) - x.l[1];
                    x.r[0] = bad * x3 + (one - bad) * x.l[0];
                    x.r[1] = bad * y3 + (one - bad) * x.l[1];
                } else {
                    x.l[6 + it % 2] = bad;
                    let (b0, b1) = (x.l[6], x.l[7]);
                    let mul = (I::ZETA - one) * b1 + one;
                    let sg = b0 + b0 - one;
                    let (x2, y2) = (mul * x.l[4], sg * x.l[5]);
                    if x2 == x.l[0] {
                        continue;
                    }
                    x.l[8] = SF::<C>::mk(&inv(&(x.l[0] - x2).val(), &p));
                    let lam = (x.l[1] - y2) * x.l[8];
                    x.r[0] = lam * lam - x.l[0] - x2;
                    x.r[1] = lam * (x.l[0] - x.r[0]) - x.l[1];
                    x.b[2] = (two + two) * x.l[2] + b1 + b1 + b0;
                    x.b[3] = x.l[3] + x.l[3] + sg * mul;
                }
                judge(&x, "non-binary bit");
                // doubling through the addition gate: equal abscissas with an arbitrary "inverse" and slope
                let mut x = Rows { k: base.k.clone(), l: base.l.clone(), r: base.r.clone(), b: base.b.clone() };
                x.l[4] = x.l[0];
                x.l[5] = if it % 2 == 0 { x.l[1] } else { SF::<C>::ZERO - x.l[1] };
                if g == "CurveAdd" {
                    x.l[8] = rf(&mut rng);
                    x.r[0] = x.l[8] * x.l[8] - x.l[0] - x.l[4];
                    x.r[1] = x.l[8] * (x.l[0] - x.r[0]) - x.l[1];
                    x.l[6] = one;
                    x.l[3] = x.l[2] + x.l[2] + one;
                }
                judge(&x, "equal abscissas");
            }
            // wholly random rows
            let x = Rows { k: base.k.clone(), l: (0..NW).map(|_| rf(&mut rng)).collect(), r: (0..NW).map(|_| rf(&mut rng)).collect(), b: (0..NW).map(|_| rf(&mut rng)).collect() };
            judge(&x, "random rows");
        }
        c.sample(&format!("relation:{}:fails", g), || format!("{} rows with prefix {:?}, one or two wires changed", g, GATES[kind].1));
    }
    // degree of the filtered constraints along random lines: at most 8 (so that after division by the
    // vanishing polynomial seven chunks of the quotient suffice)
    for it in 0..c.n(6, 60) {
        let mut a: Vec<SF<C>> = (0..6 + 3 * NW).map(|_| rf(&mut rng)).collect();
        let d: Vec<SF<C>> = (0..6 + 3 * NW).map(|_| rf(&mut rng)).collect();
        let mut vals: Vec<Vec<SF<C>>> = Vec::new();
        for _ in 0..10 {
            vals.push(evaluate_all_constraints::<C, I>(&a[..6], &a[6..15], &a[15..24], &a[24..33]));
            for (x, y) in a.iter_mut().zip(&d) {
                *x = *x + *y;
            }
        }
        for k in 0..vals[0].len() {
            let mut col: Vec<SF<C>> = vals.iter().map(|v| v[k]).collect();
            for _ in 0..9 {
                col = (1..col.len()).map(|i| col[i] - col[i - 1]).collect();
            }
            c.ev("filtered-degree", &(name, it, k), true);
            c.check(col[0].is_zero(), &s("degree"), || format!("constraint {} has degree above 8 along a random line", k));
        }
    }
    // the in-circuit form, on arbitrary field values (also constants that are no gate's prefix)
    let circ = guard(|| {
        let mut b = CircuitBuilder::<C>::new(128);
        let t = b.add_virtual_targets(6 + 3 * NW);
        let o = evaluate_all_constraints_recursively::<C, I>(&mut b, &t[..6], &t[6..15], &t[15..24], &t[24..33]);
        (t, o, b.build())
    });
    let (t, o, circ) = match circ {
        Ok(x) => x,
        Err(e) => {
            c.viol(&s("recursive-crash"), e);
            return;
        }
    };
    let mut cases: Vec<Rows<SF<C>>> = Vec::new();
    for it in 0..c.n(60, 600) {
        let mut x = satisfied::<C, I>(it % GATES.len(), &mut rng, &rr);
        match it / GATES.len() % 3 {
            0 => {}
            1 => {
                x.l = (0..NW).map(|_| rf(&mut rng)).collect();
                x.r = (0..NW).map(|_| rf(&mut rng)).collect();
                x.b = (0..NW).map(|_| rf(&mut rng)).collect();
            }
            _ => {
                x.k = (0..6).map(|_| if rng.gen_range(0, 4) == 0 { SF::<C>::mk(&hostile(&mut rng, &p)) } else { rf(&mut rng) }).collect();
                x.l = (0..NW).map(|_| rf(&mut rng)).collect();
            }
        }
        cases.push(x);
    }
    use rayon::prelude::*;
    cases.par_iter().enumerate().for_each(|(i, x)| {
        let mut w = PartialWitness::new();
        let vals: Vec<SF<C>> = [&x.k[..], &x.l, &x.r, &x.b].concat();
        w.set_targets(&t, &vals);
        let want = eval(x);
        match guard(|| circ.generate_partial_witness(w)) {
            Ok(pw) => {
                let got: Vec<Option<SF<C>>> = o.iter().map(|&t| if pw.contains_target(t) { Some(pw.get_target(t)) } else { None }).collect();
                let want2: Vec<Option<SF<C>>> = want.iter().map(|&x| Some(x)).collect();
                c.ev("recursive-form", &(name, i), true);
                c.check(got == want2, &s("recursive-form"), || format!("constants {:?} local {:?} right {:?} below {:?}: native {:?} in-circuit {:?}", x.k, x.l, x.r, x.b, want, got));
            }
            Err(e) => c.viol(&s("recursive-crash"), e),
        }
    });
}

/// Disjoint sets over 0..n.
struct Uf(Vec<usize>);
impl Uf {
    fn find(&mut self, mut x: usize) -> usize {
        while self.0[x] != x {
            self.0[x] = self.0[self.0[x]];
            x = self.0[x];
        }
        x
    }
    fn join(&mut self, a: usize, b: usize) {
        let (a, b) = (self.find(a), self.find(b));
        self.0[a] = b;
    }
}

/// A random list of copies over `m` items: chains, rings, stars, repeats, self copies, late joins of large classes.
fn copy_graph(rng: &mut R, m: usize) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = Vec::new();
    if m < 2 {
        return out;
    }
    for _ in 0..rng.gen_range(0, 7) {
        let k = rng.gen_range(1, 2 + m.min(40));
        let pts: Vec<usize> = (0..k).map(|_| rng.gen_range(0, m)).collect();
        match rng.gen_range(0, 6) {
            0 => out.extend(pts.windows(2).map(|w| (w[0], w[1]))),
            1 => {
                out.extend(pts.windows(2).map(|w| (w[1], w[0])));
                out.push((pts[k - 1], pts[0]));
            }
            2 => out.extend(pts.iter().map(|&x| (pts[0], x))),
            3 => out.extend(pts.iter().map(|&x| (x, pts[0]))),
            4 => out.extend(pts.iter().map(|&x| (x, x))),
            _ => {
                // two stars joined at their rims, then re-joined the other way round
                let h = k / 2;
                out.extend(pts[..h].iter().map(|&x| (x, pts[0])));
                out.extend(pts[h..].iter().map(|&x| (pts[h], x)));
                out.push((pts[rng.gen_range(0, k)], pts[rng.gen_range(0, k)]));
                out.push((pts[k - 1], pts[0]));
            }
        }
    }
    if !out.is_empty() {
        for _ in 0..rng.gen_range(0, 4) {
            let x = out[rng.gen_range(0, out.len())];
            out.push(if rng.gen() { x } else { (x.1, x.0) });
        }
        if rng.gen() {
            use rand::seq::SliceRandom;
            out.shuffle(rng);
        }
    }
    out
}

fn c18_circuit<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str, it: usize, rng: &mut R, blind: &[((usize, usize), (usize, usize))])
where
    SF<C>: FieldSpec,
{
    let s = |x: &str| format!("{}:{}", x, name);
    let rows = [1, 2, 5, 12, 40, 90][rng.gen_range(0, 6)];
    let nv = rng.gen_range(0, 12);
    let np = [0, 0, 1, 6, 7, 9, 10, 16, 20][rng.gen_range(0, 9)];
    // items: routed wires of the free rows, virtual targets, public inputs
    let mut b = CircuitBuilder::<C>::new(128);
    let mut items: Vec<Target<SF<C>>> = Vec::new();
    for i in 0..rows {
        b.add_gate_no_constants(BufferGate::new(i));
        for j in 0..NR {
            items.push(Target::Wire(Wire { gate: i, input: j }));
        }
    }
    let virt0 = items.len();
    items.extend(b.add_virtual_targets(nv));
    let pi0 = items.len();
    for _ in 0..np {
        items.push(b.add_public_input());
    }
    let m = items.len();
    // concentrate some graphs on virtual targets and public inputs
    let mut copies = copy_graph(rng, m);
    if m > virt0 && rng.gen() {
        for _ in 0..rng.gen_range(1, 8) {
            copies.push((rng.gen_range(virt0, m), rng.gen_range(0, m)));
        }
    }
    for &(x, y) in &copies {
        b.copy(items[x], items[y]);
    }
    let circ = match guard(|| b.build()) {
        Ok(x) => x,
        Err(e) => {
            c.viol(&s("build-crash"), format!("{} rows, {} virtual targets, {} public inputs, copies {:?}: {}", rows, nv, np, copies, e));
            return;
        }
    };
    let n = circ.degree();
    let off = circ.num_gates_without_pis;
    // universe: every routed wire j*n+i, then virtual targets; public inputs stand for their routable wires
    let id = |k: usize| -> usize {
        if k < virt0 {
            (k % NR) * n + k / NR
        } else if k < pi0 {
            NR * n + (k - virt0)
        } else {
            let i = k - pi0;
            let (r, w) = (off + 2 * (i / NW), i % NW);
            if w < NR { w * n + r } else { (w - NR) * n + r + 1 }
        }
    };
    let mut uf = Uf((0..NR * n + nv).collect());
    for &(x, y) in &copies {
        uf.join(id(x), id(y));
    }
    // random values that are there twice
    let b0 = off - blind_rows::<C>();
    for (x, y) in blind {
        uf.join(x.1 * n + b0 + x.0, y.1 * n + b0 + y.0);
    }
    let root: Vec<usize> = (0..NR * n + nv).map(|x| uf.find(x)).collect();
    // the cycles really encoded
    let e = match decode_sigma(&circ) {
        Ok(e) => e,
        Err(e) => {
            c.viol(&s("labels"), e);
            return;
        }
    };
    let mut root_of_cycle: Vec<Option<usize>> = vec![None; e.cycles.len()];
    let mut cycle_of_root: std::collections::HashMap<usize, usize> = Default::default();
    for k in 0..NR * n {
        let (cy, r) = (e.cyc_of[k], root[k]);
        let good = *root_of_cycle[cy].get_or_insert(r) == r && *cycle_of_root.entry(r).or_insert(cy) == cy;
        if !good {
            c.viol(&s("cycles"), format!("{} rows, {} virtual targets, {} public inputs, copies {:?}: routed wire row {} column {} is in the wrong cycle", rows, nv, np, copies, k % n, k / n));
            return;
        }
    }
    let classes = {
        let mut m: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for k in 0..NR * n {
            m.entry(root[k]).or_default().push(k);
        }
        let mut v: Vec<Vec<usize>> = m.into_iter().map(|x| x.1).collect();
        v.sort();
        v
    };
    let big = classes.iter().filter(|x| x.len() > 1).count();
    c.ev("cycle-structure", &(name, it, big), big > 0);
    c.sample("copies", || format!("{} rows, {} virtual targets, {} public inputs, {} copies: {} joined classes, largest {}", rows, nv, np, copies.len(), big, classes.iter().map(|x| x.len()).max().unwrap()));

    // witness generation: one member of each class is told, all members must end up with that value
    let mut told: std::collections::HashMap<usize, SF<C>> = Default::default();
    let mut pw = PartialWitness::new();
    let mut set: Vec<(usize, SF<C>)> = Vec::new();
    let mut order: Vec<usize> = (0..m).collect();
    {
        use rand::seq::SliceRandom;
        order.shuffle(rng);
    }
    for &k in &order {
        let r = root[id(k)];
        if rng.gen_range(0, 4) == 0 {
            continue;
        }
        if let Some(&v) = told.get(&r) {
            // tell a second member the same value now and then
            if rng.gen_range(0, 4) == 0 {
                set.push((k, v));
            }
        } else {
            let v = if rng.gen_range(0, 8) == 0 { SF::<C>::ZERO } else { rf(rng) };
            told.insert(r, v);
            set.push((k, v));
        }
    }
    for &(k, v) in &set {
        pw.set_target(items[k], v);
    }
    let free_wire = Wire { gate: rng.gen_range(0, rows), input: rng.gen_range(NR, NW) };
    let fv: SF<C> = rf(rng);
    pw.set_wire(free_wire, fv);
    let done = match guard(|| circ.generate_partial_witness(pw)) {
        Ok(x) => x,
        Err(e) => {
            c.viol(&s("witness-crash"), format!("consistent values, copies {:?}, told {:?}: {}", copies, set.iter().map(|x| x.0).collect::<Vec<_>>(), e));
            return;
        }
    };
    let w = Witness::from_partial(&done, n);
    let grid = rows_of(&w, n);
    let blind = off - blind_rows::<C>()..off;
    for k in 0..NR * n {
        if blind.contains(&(k % n)) {
            continue;
        }
        let want = told.get(&root[k]).copied().unwrap_or(SF::<C>::ZERO);
        if !c.check(grid[k % n][k / n] == want, &s("witness-class"), || format!("copies {:?}, told {:?}: row {} column {} has {:?}, its class {:?}", copies, set, k % n, k / n, grid[k % n][k / n], want)) {
            return;
        }
    }
    for k in virt0..m {
        if let Some(&want) = told.get(&root[id(k)]) {
            let got = if done.contains_target(items[k]) { Some(done.get_target(items[k])) } else { None };
            if k < pi0 || got.is_some() {
                c.check(got == Some(want), &s("witness-virtual"), || format!("copies {:?}, told {:?}: {:?} has {:?}, its class {:?}", copies, set, items[k], got, want));
            }
        }
    }
    c.check(w.get(free_wire) == fv, &s("witness-free"), || format!("{:?} set to {:?} became {:?}", free_wire, fv, w.get(free_wire)));
    let pis = circ.get_public_inputs(&w);
    for i in 0..np {
        let want = told.get(&root[id(pi0 + i)]).copied().unwrap_or(SF::<C>::ZERO);
        c.check(pis.get(i) == Some(&want), &s("public-input-value"), || format!("copies {:?}, told {:?}: public input {} reads {:?}, its class has {:?}", copies, set, i, pis.get(i), want));
    }
    c.ev("witness-classes", &(name, it, set.len()), big > 0 && !set.is_empty());

    // conflicting values for one class must be refused
    let joined: Vec<(usize, usize)> = (0..m).flat_map(|x| (x + 1..m).map(move |y| (x, y))).filter(|&(x, y)| root[id(x)] == root[id(y)]).take(400).collect();
    for _ in 0..2 {
        if joined.is_empty() {
            break;
        }
        let (mut x, mut y) = joined[rng.gen_range(0, joined.len())];
        if rng.gen() {
            std::mem::swap(&mut x, &mut y);
        }
        let (vx, vy): (SF<C>, SF<C>) = (rf(rng), vmon::big::uf(rng));
        let r = guard(|| {
            let mut pw = PartialWitness::new();
            pw.set_target(items[x], vx);
            pw.set_target(items[y], vy);
            circ.generate_witness(pw)
        });
        c.ev("conflict-refused", &(name, it, x, y), true);
        if let Ok(w) = r {
            let g = rows_of(&w, n);
            let bad = unsat::<C, I>(&circ, &e, &g, None).is_some();
            c.check(bad, &s("conflict-accepted"), || format!("copies {:?}: {:?} and {:?} were given different values and a satisfying witness came out", copies, items[x], items[y]));
        }
    }

    // the permutation product: closes on class-wise equal assignments, on no other
    let (beta, gamma): (SF<C>, SF<C>) = (vmon::big::uf(rng), vmon::big::uf(rng));
    let closing = |g: &Vec<Vec<SF<C>>>, tag: &str| -> Option<SF<C>> {
        let w = Witness::new(g.clone());
        let z = match guard(|| plonk_util::permutation_polynomial(n, &circ.subgroup_n, &w, &circ.s_sigma_values_8n, beta, gamma)) {
            Ok(z) => z,
            Err(er) => {
                c.viol(&s("permutation-crash"), er);
                return None;
            }
        };
        let mut acc = SF::<C>::mk(&BigUint::one());
        let mut good = z.len() == n;
        for i in 0..n {
            good = good && z[i] == acc;
            let (mut nu, mut de) = (SF::<C>::mk(&BigUint::one()), SF::<C>::mk(&BigUint::one()));
            for j in 0..NR {
                let t = e.perm[j * n + i];
                nu = nu * (g[i][j] + beta * e.shifts[j] * circ.subgroup_n[i] + gamma);
                de = de * (g[i][j] + beta * e.shifts[t / n] * circ.subgroup_n[t % n] + gamma);
            }
            acc = acc * nu * SF::<C>::mk(&inv(&de.val(), SF::<C>::pr()));
        }
        c.check(good, &s("permutation-product"), || format!("{} assignment, copies {:?}: running product differs from its definition", tag, copies));
        Some(acc)
    };
    let one = SF::<C>::mk(&BigUint::one());
    let full: Vec<Vec<SF<C>>> = {
        // give every class its own random value
        let vals: Vec<SF<C>> = (0..NR * n + nv).map(|_| vmon::big::uf(rng)).collect();
        (0..n).map(|i| (0..NW).map(|j| if j < NR { vals[root[j * n + i]] } else { rf(rng) }).collect()).collect()
    };
    for g in &[&grid, &full] {
        if let Some(end) = closing(g, "equal") {
            c.ev("product-closes", &(name, it), true);
            c.check(end == one, &s("product-open"), || format!("copies {:?}: the product does not close on an assignment respecting every copy", copies));
        }
    }
    let multi: Vec<&Vec<usize>> = classes.iter().filter(|x| x.len() > 1).collect();
    for round in 0..3 {
        if multi.is_empty() {
            break;
        }
        let mut g = full.clone();
        let cl = multi[rng.gen_range(0, multi.len())];
        let k = cl[rng.gen_range(0, cl.len())];
        match round {
            0 => g[k % n][k / n] = vmon::big::uf(rng),
            1 => g[k % n][k / n] = g[k % n][k / n] + one,
            _ => {
                // exchange the values of two wires, one of them in a larger class
                let k2 = rng.gen_range(0, NR * n);
                if root[k2] == root[k] {
                    continue;
                }
                let (a, d) = (g[k % n][k / n], g[k2 % n][k2 / n]);
                g[k % n][k / n] = d;
                g[k2 % n][k2 / n] = a;
            }
        }
        if let Some(end) = closing(&g, "broken") {
            c.ev("product-stays-open", &(name, it, round, k), true);
            c.check(end != one, &s("product-closes-on-unequal"), || format!("copies {:?}: the product closes although row {} column {} differs from its class", copies, k % n, k / n));
        }
    }
}

fn c18<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    use rayon::prelude::*;
    let s = |x: &str| format!("{}:{}", x, name);
    let rounds = c.n(24, 400);
    let blind = guard(|| blind_joins::<C>()).unwrap_or_default();
    (0..rounds).into_par_iter().for_each(|it| {
        let mut rng = c.rng(&format!("c18:{}:{}", name, it));
        c18_circuit::<C, I>(c, name, it, &mut rng, &blind);
    });
    // copies that no permutation could enforce must not be dropped silently
    let mut rng = c.rng(&format!("c18u:{}", name));
    for it in 0..c.n(3, 20) {
        let (g1, j1) = (rng.gen_range(0, 5), rng.gen_range(NR, NW));
        let (g2, j2) = ((g1 + rng.gen_range(1, 5)) % 5, rng.gen_range(0, NW));
        let swap = rng.gen::<bool>();
        let (x, y) = (Target::Wire(Wire { gate: g1, input: j1 }), Target::Wire(Wire { gate: g2, input: j2 }));
        let r = guard(|| {
            let mut b = CircuitBuilder::<C>::new(128);
            for i in 0..5 {
                b.add_gate_no_constants(BufferGate::new(i));
            }
            if swap {
                b.copy(x, y)
            } else {
                b.copy(y, x)
            }
            b.build()
        });
        c.ev("unroutable-refused", &(name, it, j1, j2), true);
        if r.is_ok() {
            c.viol(&s("unroutable-accepted"), format!("a circuit with the copy {:?} = {:?}, which no permutation enforces, was built", x, y));
        }
    }
    // the two constants of a copied pair must agree
    for it in 0..c.n(2, 10) {
        let (v1, v2): (SF<C>, SF<C>) = (rf(&mut rng), vmon::big::uf(&mut rng));
        let r = guard(|| {
            let mut b = CircuitBuilder::<C>::new(128);
            let x = b.constant_wire(v1);
            let v = b.add_virtual_target();
            let y = b.constant_wire(v2);
            b.copy(x, v);
            b.copy(v, y);
            let circ = b.build();
            let w = circ.generate_witness(PartialWitness::new());
            let e = decode_sigma(&circ).unwrap();
            unsat::<C, I>(&circ, &e, &rows_of(&w, circ.degree()), None).is_some()
        });
        c.ev("constants-conflict", &(name, it), true);
        c.check(r != Ok(false), &s("constants-conflict"), || format!("copied constants {:?} and {:?} were both satisfied", v1, v2));
    }
    // a constant used many times is one class per builder cache entry, and all uses share it
    // identity labels: distinct for every power-of-two size the field supports
    let p = SF::<C>::pr().clone();
    let n = 8usize;
    let g = SF::<C>::primitive_root_of_unity(3);
    let ident: Vec<usize> = (0..NR * n).collect();
    let lab = plonk_util::sigma_polynomials::<SF<C>>(ident, n, g);
    let k: Vec<BigUint> = (0..NR).map(|j| lab[j][0].val()).collect();
    for a in 0..NR {
        for i in 0..n {
            let want = &k[a] * &lab[0][i].val() % &p * inv(&k[0], &p) % &p;
            c.eq(&lab[a][i].val(), &want, &s("label-form"), || format!("label of column {} row {}", a, i));
        }
        for d in 0..a {
            let mut q = &k[a] * inv(&k[d], &p) % &p;
            for t in 0..=SF::<C>::TWO_ADICITY {
                c.ev("coset-labels", &(name, a, d, t), true);
                c.check(!q.is_one(), &s("label-collision"), || format!("columns {} and {} share labels at 2^{} rows", a, d, t));
                q = &q * &q % &p;
            }
        }
    }
}

/// The partition structure on its own, with thousands of targets and long merge histories.
fn c18_partitions(c: &Ctx) {
    type F = TweedledeeBase;
    let mut rng = c.rng("c18p");
    for it in 0..c.n(30, 400) {
        let gates = [1, 3, 17, 120][rng.gen_range(0, 4)];
        let nv = rng.gen_range(0, 50);
        let mut items: Vec<Target<F>> = Vec::new();
        for gate in 0..gates {
            for input in 0..NW {
                items.push(Target::Wire(Wire { gate, input }));
            }
        }
        items.extend((0..nv).map(|index| Target::VirtualTarget(VirtualTarget { index })));
        let routable: Vec<usize> = (0..items.len()).filter(|&k| k >= gates * NW || k % NW < NR).collect();
        let copies: Vec<(usize, usize)> = copy_graph(&mut rng, routable.len()).into_iter().map(|(x, y)| (routable[x], routable[y])).collect();
        let mut uf = Uf((0..items.len()).collect());
        let mut tp = TargetPartitions::<F>::new();
        for &t in &items {
            tp.add_partition(t);
        }
        let mut bad = None;
        for &(x, y) in &copies {
            if let Err(e) = guard(|| tp.merge(items[x], items[y])) {
                bad = Some(e);
                break;
            }
            uf.join(x, y);
        }
        if let Some(e) = bad {
            c.viol("partition-crash", format!("merging {:?}: {}", copies, e));
            continue;
        }
        let mut class: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for k in 0..items.len() {
            class.entry(uf.find(k)).or_default().push(k);
        }
        for k in 0..items.len() {
            let mut got: Vec<String> = tp.get_partition(items[k]).iter().map(|t| format!("{:?}", t)).collect();
            let mut want: Vec<String> = class[&uf.find(k)].iter().map(|&x| format!("{:?}", items[x])).collect();
            got.sort();
            want.sort();
            if !c.check(got == want, "partition-members", || format!("{} gates, {} virtual targets, merges {:?}: the partition of {:?} has {:?}", gates, nv, copies, items[k], got)) {
                break;
            }
        }
        c.ev("partition-members", &(it, gates, nv), !copies.is_empty());
        match guard(|| tp.to_wire_partitions().to_sigma()) {
            Ok(sigma) => {
                // walk the cycles
                let len_ok = sigma.len() == NR * gates;
                let mut ok = len_ok;
                let mut seen = vec![false; NR * gates];
                for st in 0..NR * gates {
                    if !ok || seen[st] {
                        continue;
                    }
                    let idx = |q: usize| (q % gates) * NW + q / gates;
                    let r = uf.find(idx(st));
                    let want = class[&r].iter().filter(|&&x| x < gates * NW).count();
                    let (mut q, mut cnt) = (st, 0);
                    loop {
                        if q >= seen.len() || seen[q] || uf.find(idx(q)) != r {
                            ok = false;
                            break;
                        }
                        seen[q] = true;
                        cnt += 1;
                        q = sigma[q];
                        if q == st {
                            break;
                        }
                    }
                    ok = ok && cnt == want;
                }
                c.ev("partition-sigma", &(it, gates, nv), !copies.is_empty());
                c.check(ok, "partition-sigma", || format!("{} gates, {} virtual targets, merges {:?}: sigma {:?}", gates, nv, copies, sigma));
            }
            Err(e) => c.viol("partition-crash", e),
        }
    }
}

fn main() {
    let which = std::env::args().nth(1).unwrap_or("C14".into());
    let c = Ctx::new(&which);
    match which.as_str() {
        "C14" => {
            c.section("panel", |c| {
                c14_panel::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c14_panel::<Vesta, Pallas>(c, "Vesta");
                if c.thorough {
                    c14_panel::<Tweedledum, Tweedledee>(c, "Tweedledum");
                    c14_panel::<Pallas, Vesta>(c, "Pallas");
                }
            });
            c.section("solo", |c| {
                c14_solo::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c14_solo::<Vesta, Pallas>(c, "Vesta");
                if c.thorough {
                    c14_solo::<Tweedledum, Tweedledee>(c, "Tweedledum");
                    c14_solo::<Pallas, Vesta>(c, "Pallas");
                }
            });
            c.section("gadgets", |c| {
                c14::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c14::<Vesta, Pallas>(c, "Vesta");
                c14::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c14::<Pallas, Vesta>(c, "Pallas");
            });
        }
        "C15" => {
            c.section("panel", |c| {
                c15_panel::<Tweedledum, Tweedledee>(c, "Tweedledum");
                if c.thorough {
                    c15_panel::<Vesta, Pallas>(c, "Vesta");
                }
            });
            c.section("solo", |c| {
                c15_solo::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c15_solo::<Vesta, Pallas>(c, "Vesta");
            });
            c.section("bigint", |c| {
                c15::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c15::<Vesta, Pallas>(c, "Vesta");
                c15::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c15::<Pallas, Vesta>(c, "Pallas");
            });
        }
        "C16" => {
            c.section("panel", |c| {
                c16_panel::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c16_panel::<Vesta, Pallas>(c, "Vesta");
                if c.thorough {
                    c16_panel::<Tweedledum, Tweedledee>(c, "Tweedledum");
                    c16_panel::<Pallas, Vesta>(c, "Pallas");
                }
            });
            c.section("curves", |c| {
                c16::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c16::<Vesta, Pallas>(c, "Vesta");
                c16::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c16::<Pallas, Vesta>(c, "Pallas");
            });
            c.section("endo", c16_endo);
        }
        "C17" => {
            c.section("gates", |c| {
                c17::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c17::<Vesta, Pallas>(c, "Vesta");
                c17::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c17::<Pallas, Vesta>(c, "Pallas");
            });
        }
        "C18" => {
            c.section("partitions", c18_partitions);
            c.section("circuits", |c| {
                c18::<Tweedledee, Tweedledum>(c, "Tweedledee");
                c18::<Vesta, Pallas>(c, "Vesta");
                c18::<Tweedledum, Tweedledee>(c, "Tweedledum");
                c18::<Pallas, Vesta>(c, "Pallas");
            });
        }
        _ => {}
    }
    c.finish()
}
