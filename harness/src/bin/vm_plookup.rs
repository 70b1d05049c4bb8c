//! C21: lookup proofs, from honest and cheating provers.

use plonky::plonk_util::*;
use plonky::*;
use plookup::plookup::prove;
use plookup::table::Table;
use plookup::verifier::verify;
use rand::seq::SliceRandom;
use rand::Rng;
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vmon::adv::*;
use vmon::big::*;
use vmon::work::*;
use vmon::zk::*;
use vmon::*;

const BITS: usize = 128;
const POINTS: [&str; 6] = ["c_f", "c_t", "c_h1", "c_h2", "c_z", "c_quotient"];
const OPENINGS: [&str; 6] = ["f", "t", "h1", "h2", "z", "quotient"];

/// The contents of a lookup proof.
#[derive(Clone)]
struct Snap<C: HaloCurve> {
    c: [AffinePoint<C>; 6],
    o: [[SF<C>; 2]; 6],
    l: Vec<AffinePoint<C>>,
    r: Vec<AffinePoint<C>>,
    g: AffinePoint<C>,
    sp: SchnorrProof<C>,
    n: usize,
}

#[derive(Clone, PartialEq, Debug)]
struct Ch<F: Field> {
    beta: F,
    gamma: F,
    alpha: F,
    zeta: F,
    v: F,
    u: F,
    us: F,
    halo: Vec<F>,
    last: F,
}

/// The library, with proofs as `Snap`s (its own proof type cannot be named or copied from outside).
struct Lib<C: HaloCurve> {
    prove: Box<dyn Fn(&[SF<C>], &[SF<C>]) -> Result<Snap<C>, String> + Sync>,
    verify: Box<dyn Fn(&[SF<C>], &Snap<C>) -> Verdict3 + Sync>,
    chal: Box<dyn Fn(&Snap<C>) -> Option<Ch<SF<C>>> + Sync>,
    row2: Box<dyn Fn(&Table<SF<C>, 2>, &Table<SF<C>, 2>) -> Result<Snap<C>, String> + Sync>,
    verify2: Box<dyn Fn(&Table<SF<C>, 2>, &Snap<C>) -> Verdict3 + Sync>,
    row3: Box<dyn Fn(&Table<SF<C>, 3>, &Table<SF<C>, 3>) -> Result<Snap<C>, String> + Sync>,
    col3: Box<dyn Fn(&Table<SF<C>, 3>, &[Vec<SF<C>>; 3]) -> Result<Snap<C>, String> + Sync>,
    verify3: Box<dyn Fn(&Table<SF<C>, 3>, &Snap<C>) -> Verdict3 + Sync>,
}

#[derive(Clone, PartialEq, Debug)]
enum Verdict3 {
    Accept,
    Refuse(String),
    Crash(String),
}

fn flat<T>(r: Result<anyhow::Result<T>, String>) -> Result<T, String> {
    match r {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("error: {}", e)),
        Err(e) => Err(format!("panic: {}", e)),
    }
}
fn verdict(r: Result<anyhow::Result<()>, String>) -> Verdict3 {
    match r {
        Ok(Ok(())) => Verdict3::Accept,
        Ok(Err(e)) => Verdict3::Refuse(e.to_string()),
        Err(e) => Verdict3::Crash(e),
    }
}

/// Proofs that can be overwritten, recycled because making one costs more than checking one.
struct Pool<P> {
    free: Mutex<Vec<P>>,
    make: Box<dyn Fn() -> P + Sync + Send>,
}
impl<P> Pool<P> {
    fn with<T>(&self, load: impl FnOnce(&mut P), f: impl FnOnce(&P) -> T) -> T {
        let q = self.free.lock().unwrap().pop();
        let mut p = q.unwrap_or_else(|| (self.make)());
        load(&mut p);
        let t = f(&p);
        self.free.lock().unwrap().push(p);
        t
    }
}

fn lib<C: HaloCurve>() -> Lib<C> {
    macro_rules! save {
        ($p:expr) => {{
            let p = $p;
            let o = &p.openings;
            Snap {
                c: [p.c_f, p.c_t, p.c_h1, p.c_h2, p.c_z, p.c_quotient],
                o: [[o.f.local, o.f.right], [o.t.local, o.t.right], [o.h1.local, o.h1.right], [o.h2.local, o.h2.right], [o.z.local, o.z.right], [o.quotient.local, o.quotient.right]],
                l: p.halo_proof.halo_l.clone(),
                r: p.halo_proof.halo_r.clone(),
                g: p.halo_proof.halo_g,
                sp: p.halo_proof.schnorr_proof,
                n: p.n,
            }
        }};
    }
    let one = <SF<C> as Field>::ONE;
    let pool = Arc::new(Pool { free: Mutex::new(vec![]), make: Box::new(move || prove::<C>(&[one, one, one], &[one, one]).expect("a proof to overwrite")) });
    macro_rules! with {
        ($pool:expr, $s:expr, $f:expr) => {{
            let s: &Snap<C> = $s;
            $pool.with(
                |p| {
                    p.c_f = s.c[0];
                    p.c_t = s.c[1];
                    p.c_h1 = s.c[2];
                    p.c_h2 = s.c[3];
                    p.c_z = s.c[4];
                    p.c_quotient = s.c[5];
                    let o = &mut p.openings;
                    for (k, x) in vec![&mut o.f, &mut o.t, &mut o.h1, &mut o.h2, &mut o.z, &mut o.quotient].into_iter().enumerate() {
                        x.local = s.o[k][0];
                        x.right = s.o[k][1];
                    }
                    p.halo_proof.halo_l = s.l.clone();
                    p.halo_proof.halo_r = s.r.clone();
                    p.halo_proof.halo_g = s.g;
                    p.halo_proof.schnorr_proof = s.sp;
                    p.n = s.n;
                },
                $f,
            )
        }};
    }
    let (p1, p2, p3, p4) = (pool.clone(), pool.clone(), pool.clone(), pool);
    Lib {
        prove: Box::new(|f, t| flat(guard(|| prove::<C>(f, t))).map(|p| save!(p))),
        verify: Box::new(move |t, s| with!(p1, s, |p| verdict(guard(|| verify::<C>(t, p))))),
        chal: Box::new(move |s| {
            with!(p2, s, |p| flat(guard(|| p.get_challenges())).ok().map(|c| Ch { beta: c.beta, gamma: c.gamma, alpha: c.alpha, zeta: c.zeta, v: c.v, u: c.u, us: c.u_scaling, halo: c.halo_us, last: c.schnorr_challenge }))
        }),
        row2: Box::new(|t, w| flat(guard(|| t.prove_row::<C>(w))).map(|p| save!(p))),
        verify2: Box::new(move |t, s| with!(p3, s, |p| verdict(guard(|| t.verify::<C>(p))))),
        row3: Box::new(|t, w| flat(guard(|| t.prove_row::<C>(w))).map(|p| save!(p))),
        col3: Box::new(|t, w| flat(guard(|| t.prove_column::<C>(w))).map(|p| save!(p))),
        verify3: Box::new(move |t, s| with!(p4, s, |p| verdict(guard(|| t.verify::<C>(p))))),
    }
}

// ---------------------------------------------------------------- honest provers

fn tables<F: FieldSpec>(rng: &mut R, len: usize, kind: usize) -> (Vec<F>, &'static str) {
    let small = |x: usize| F::mk(&x.into());
    let mut t: Vec<F> = (0..len).map(|_| uf(rng)).collect();
    let what = match kind {
        0 => "random",
        1 => {
            t = (0..len).map(|i| small(i)).collect();
            "0, 1, 2, ..."
        }
        2 => {
            t = (0..len).map(|i| small(i + 1)).collect();
            "1, 2, 3, ..."
        }
        3 => {
            for i in 0..len {
                t[i] = t[i / 2];
            }
            "each value twice in a row"
        }
        4 => {
            for i in 0..len {
                t[i] = t[i % ((len + 1) / 2)];
            }
            "repeated as a whole"
        }
        5 => {
            t = vec![t[0]; len];
            "one value"
        }
        6 => {
            t[len / 2] = F::ZERO;
            "zero in the middle"
        }
        7 => {
            t[0] = F::ZERO;
            t[len - 1] = F::ZERO;
            "zero first and last"
        }
        8 => {
            t = vec![F::ZERO; len];
            "all zero"
        }
        _ => {
            for i in 0..len {
                if rng.gen_bool(0.6) {
                    t[i] = t[rng.gen_range(0, i + 1)];
                }
            }
            t.shuffle(rng);
            "repeats anywhere"
        }
    };
    (t, what)
}

fn queries<F: FieldSpec>(rng: &mut R, t: &[F], len: usize, kind: usize) -> (Vec<F>, &'static str) {
    let any = |rng: &mut R| t[rng.gen_range(0, t.len())];
    match kind {
        0 => ((0..len).map(|_| any(rng)).collect(), "random"),
        1 => (vec![any(rng); len], "one value"),
        2 => ((0..len).map(|i| t[t.len() - 1 - i % t.len()]).collect(), "reversed"),
        3 => (vec![t[0]; len], "the first value"),
        4 => (vec![t[t.len() - 1]; len], "the last value"),
        _ => ((0..len).map(|i| t[i % t.len()]).collect(), "in order"),
    }
}

const LENGTHS: [usize; 14] = [1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32];

fn honest<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let mut rng = c.rng(&format!("{}-honest", name));
    let mut work = vec![];
    // every pair of small lengths, with the kinds in rotation
    let top = c.n(9, 14);
    let mut k = c.seed as usize;
    for &tl in &LENGTHS[..top] {
        for fl in std::iter::once(0).chain(LENGTHS[..top].iter().copied()) {
            k += 1;
            if !c.thorough && tl > 9 && fl > 9 {
                continue;
            }
            work.push((tl, fl, k % 10, (k / 10) % 6));
        }
    }
    for i in 0..c.n(24, 400) {
        work.push((LENGTHS[rng.gen_range(0, if c.thorough { 14 } else { 11 })], LENGTHS[rng.gen_range(0, if c.thorough { 14 } else { 11 })], i % 10, rng.gen_range(0, 6)));
    }
    if !c.thorough {
        // every kind at each length class, every third per run
        let s = c.seed as usize;
        work = work.into_iter().enumerate().filter(|(i, _)| (i + s) % 2 == 0).map(|x| x.1).collect();
    }
    for n in &[33usize, 64, 100] {
        if c.thorough || (*n + c.seed as usize) % 2 == 0 {
            work.push((*n, n + 5, 9, 0));
            work.push((7, *n, 0, 0));
        }
    }
    let seeds: Vec<u64> = work.iter().map(|_| rng.gen()).collect();
    work.into_par_iter().zip(seeds).for_each(|((tl, fl, tk, fk), sd)| {
        if !c.time_left() {
            return;
        }
        use rand::SeedableRng;
        let mut rng = R::seed_from_u64(sd);
        let (t, tw) = tables::<SF<C>>(&mut rng, tl, tk);
        let (f, fw) = queries(&mut rng, &t, fl, fk);
        let what = format!("table {} x {}, queries {} x {}", tl, tw, fl, fw);
        match (lib.prove)(&f, &t) {
            Err(e) => c.viol(&format!("{}/honest-not-provable", name), format!("{}: {}", what, e)),
            Ok(p) => {
                let v = (lib.verify)(&t, &p);
                c.check(v == Verdict3::Accept, &format!("{}/honest-refused", name), || format!("{}: {:?}", what, v));
                c.ev("honest", &(name, tl, fl, tk, fk), fl > 0);
                if tl.is_power_of_two() || fl.is_power_of_two() {
                    c.ev("honest at a power of two", &(name, tl, fl), true);
                }
                // the claim of the proof, given its table, is about that table
                for k in 0..3 {
                    let mut t2 = t.clone();
                    let kind = match k {
                        0 => { let i = rng.gen_range(0, tl); t2[i] = t2[i] + <SF<C> as Field>::ONE; "one value changed" }
                        1 => { t2.push(uf(&mut rng)); "one value more" }
                        _ => { t2 = t2.iter().map(|&x| x + x + <SF<C> as Field>::ONE).collect(); "all changed" }
                    };
                    if !t2.iter().any(|x| !t.contains(x)) && t.iter().all(|x| t2.contains(x)) {
                        continue;
                    }
                    match (lib.verify)(&t2, &p) {
                        Verdict3::Refuse(_) => {}
                        v => c.viol(&format!("{}/another-table:{}", name, if v == Verdict3::Accept { "accepted" } else { "crash" }), format!("{}, {}: {:?}", what, kind, v)),
                    }
                    c.ev("another-table", &(name, tl, fl, tk, k), true);
                }
            }
        }
        // a value that is not there
        if fl == 0 {
            return;
        }
        for k in 0..4 {
            let bad = match k {
                0 => SF::<C>::ZERO,
                1 => t[0] + <SF<C> as Field>::ONE,
                2 => SF::<C>::ZERO - t[tl - 1],
                _ => uf(&mut rng),
            };
            if t.contains(&bad) {
                continue;
            }
            let mut g = f.clone();
            let all = rng.gen_bool(0.2);
            let i = [0, fl - 1, rng.gen_range(0, fl)][k % 3];
            g[i] = bad;
            if all {
                g = vec![bad; fl];
            }
            if let Ok(p) = (lib.prove)(&g, &t) {
                let v = (lib.verify)(&t, &p);
                c.check(v != Verdict3::Accept, &format!("{}/missing-value-accepted", name), || format!("{}: query {} replaced by {:?}", what, i, bad.val()));
            }
            c.ev("missing-value", &(name, tl, fl, tk, k), true);
        }
    });
    // degenerate tables
    match (lib.prove)(&[], &[]) {
        Ok(p) => { let v = (lib.verify)(&[], &p); c.check(!matches!(v, Verdict3::Crash(_)), &format!("{}/empty", name), || format!("{:?}", v)); }
        Err(_) => {}
    }
    let x: SF<C> = uf(&mut rng);
    if let Ok(p) = (lib.prove)(&[x], &[x]) {
        let v = (lib.verify)(&[], &p);
        c.check(matches!(v, Verdict3::Refuse(_)), &format!("{}/empty-table", name), || format!("{:?}", v));
        c.ev("empty-table", &name, true);
    }
    if let Ok(p) = (lib.prove)(&[x], &[]) {
        let v = (lib.verify)(&[], &p);
        c.check(v != Verdict3::Accept, &format!("{}/empty-table", name), || "a value was found in an empty table".into());
    }
}

/// Values that do not fit the other field of the cycle, opened as they are.
fn range<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let m = SF::<C>::ZERO - <SF<C> as Field>::ONE;
    let ok = match (lib.prove)(&[m], &[m]) {
        Ok(p) => (lib.verify)(&[m], &p) == Verdict3::Accept,
        Err(_) => false,
    };
    c.check(ok, &format!("constant-table=minus-one:{}", name), || "a table whose only value is -1 cannot be looked up".into());
    c.ev("range", &name, true);
}

// ---------------------------------------------------------------- tables with several columns

fn columns<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let mut rng = c.rng(&format!("{}-columns", name));
    let sm = |x: usize| SF::<C>::mk(&x.into());
    for round in 0..c.n(3, 24) {
        // functions, by explicit domain and by product
        let a: SF<C> = uf(&mut rng);
        let fun = move |x: [SF<C>; 2]| x[0] * x[1] + a * x[0] - x[1];
        let dom: Vec<[SF<C>; 2]> = (0..rng.gen_range(1, 9)).map(|_| [uf(&mut rng), hostile_f(&mut rng)]).collect();
        let t = Table::<SF<C>, 3>::from_function(&fun, &dom);
        c.check(t.0.len() == dom.len() && t.0.iter().zip(&dom).all(|(r, d)| r[0] == d[0] && r[1] == d[1] && r[2] == fun(*d)), &format!("{}/from-function", name), || format!("{} rows", dom.len()));
        let one: Vec<SF<C>> = (0..1 + round % 4).map(|i| sm(i * i)).collect();
        let tc = Table::<SF<C>, 3>::from_function_cartesian(&fun, &one);
        let mut want: Vec<[SF<C>; 3]> = vec![];
        for &x in &one {
            for &y in &one {
                want.push([x, y, fun([x, y])]);
            }
        }
        c.check(tc.0.len() == want.len() && want.iter().all(|w| tc.0.contains(w)), &format!("{}/from-function-cartesian", name), || format!("{} values", one.len()));
        c.ev("table-built", &(name, round), true);
        for t in &[t, tc] {
            let rows = &t.0;
            let w: Vec<[SF<C>; 3]> = (0..rng.gen_range(1, 10)).map(|_| rows[rng.gen_range(0, rows.len())]).collect();
            let cols = |w: &[[SF<C>; 3]]| [0, 1, 2].iter().map(|&j| w.iter().map(|r| r[j]).collect::<Vec<_>>()).collect::<Vec<_>>();
            let col = |w: &[[SF<C>; 3]]| { let mut v = cols(w).into_iter(); [v.next().unwrap(), v.next().unwrap(), v.next().unwrap()] };
            for by_row in &[true, false] {
                let go = |w: &[[SF<C>; 3]]| if *by_row { (lib.row3)(t, &Table(w.to_vec())) } else { (lib.col3)(t, &col(w)) };
                let what = format!("{} rows of {}, by {}", w.len(), rows.len(), if *by_row { "row" } else { "column" });
                match go(&w) {
                    Err(e) => c.viol(&format!("{}/honest-rows-not-provable", name), format!("{}: {}", what, e)),
                    Ok(p) => {
                        let v = (lib.verify3)(t, &p);
                        c.check(v == Verdict3::Accept, &format!("{}/honest-rows-refused", name), || format!("{}: {:?}", what, v));
                        c.ev("honest-rows", &(name, round, rows.len(), by_row), true);
                        // not for a table that differs in one entry
                        let mut t2 = Table(rows.clone());
                        let (i, j) = (rng.gen_range(0, rows.len()), rng.gen_range(0, 3));
                        t2.0[i][j] = t2.0[i][j] + <SF<C> as Field>::ONE;
                        let v = (lib.verify3)(&t2, &p);
                        c.check(matches!(v, Verdict3::Refuse(_)), &format!("{}/another-table-of-rows", name), || format!("{}: {:?}", what, v));
                        c.ev("another-table", &(name, round, i, j, by_row), true);
                    }
                }
                // rows that are not there: one entry changed, entries exchanged, a row made of two
                for k in 0..4 {
                    let mut x = w.clone();
                    let i = rng.gen_range(0, x.len());
                    match k {
                        0 => { let j = rng.gen_range(0, 3); x[i][j] = x[i][j] + <SF<C> as Field>::ONE }
                        1 => x[i].swap(0, 1),
                        2 => x[i][2] = rows[rng.gen_range(0, rows.len())][2],
                        _ => x[i] = [SF::<C>::ZERO; 3],
                    }
                    if rows.contains(&x[i]) {
                        continue;
                    }
                    if let Ok(p) = go(&x) {
                        let v = (lib.verify3)(t, &p);
                        c.check(v != Verdict3::Accept, &format!("{}/missing-row-accepted", name), || format!("{}, kind {}", what, k));
                    }
                    c.ev("missing-row", &(name, round, rows.len(), by_row, k), true);
                }
            }
        }
    }
}

/// Rows are checked through a random combination of their entries.
fn folding<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let sm = |x: usize| SF::<C>::mk(&x.into());
    // the challenge that folds a row into one value does not depend on the queried rows, which can thus be chosen after it
    let t = Table::<SF<C>, 2>(vec![[sm(1), sm(2)], [sm(3), sm(4)], [sm(5), sm(6)]]);
    let v = t.to_vec();
    let alpha = v[0] - sm(2);
    if v[1] == alpha * sm(3) + sm(4) {
        let ghost = [sm(7), v[0] - alpha * sm(7)];
        let ok = match (lib.row2)(&t, &Table(vec![ghost])) {
            Ok(p) => (lib.verify2)(&t, &p) == Verdict3::Accept,
            Err(_) => false,
        };
        c.check(!ok, "colliding-row", || "a row that is not in the table, but folds to the value of one that is, is proved and accepted".into());
        c.ev("colliding-row", &name, true);
    }
}

fn hostile_f<F: FieldSpec>(rng: &mut R) -> F {
    rf(rng)
}

// ---------------------------------------------------------------- altered proofs

fn altered<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let mut rng = c.rng(&format!("{}-altered", name));
    let mk = |rng: &mut R, tl: usize, fl: usize| {
        let (t, _) = tables::<SF<C>>(rng, tl, 0);
        let (f, _) = queries(rng, &t, fl, 0);
        (lib.prove)(&f, &t).map(|p| (t, p))
    };
    let (a, b) = match (mk(&mut rng, 5, 6), mk(&mut rng, 7, 3)) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.viol(&format!("{}/honest-not-provable", name), format!("{:?} {:?}", x.err(), y.err())),
    };
    let mut alts: Vec<(String, Snap<C>)> = vec![];
    let (t, p) = (&a.0, &a.1);
    let q = &b.1;
    let mut pt = |what: String, get: &dyn Fn(&mut Snap<C>) -> &mut AffinePoint<C>, other: AffinePoint<C>| {
        for op in 0..12 {
            let mut s = p.clone();
            let before = *get(&mut s);
            let how = alter_pt(get(&mut s), op, other);
            let after = *get(&mut s);
            if before != after || before.zero != after.zero {
                alts.push((format!("{} {}", what, how), s));
            }
        }
    };
    for k in 0..6 {
        pt(POINTS[k].into(), &move |s| at_idx(&mut s.c, k), q.c[k]);
    }
    for i in 0..p.l.len() {
        pt(format!("halo_l[{}]", i), &move |s| &mut s.l[i], q.l[i.min(q.l.len() - 1)]);
        pt(format!("halo_r[{}]", i), &move |s| &mut s.r[i], q.r[i.min(q.r.len() - 1)]);
    }
    pt("halo_g".into(), &|s| &mut s.g, q.g);
    pt("schnorr.r".into(), &|s| &mut s.sp.r, q.sp.r);
    for k in 0..6 {
        for side in 0..2 {
            for op in 0..8 {
                let mut s = p.clone();
                let how = alter_el(&mut s.o[k][side], op, q.o[k][side], &mut rng);
                if s.o[k][side] != p.o[k][side] {
                    alts.push((format!("opening of {} ({}) {}", OPENINGS[k], ["local", "right"][side], how), s));
                }
            }
        }
    }
    for op in 0..8 {
        let mut s = p.clone();
        let how = alter_el(&mut s.sp.z1, op, q.sp.z1, &mut rng);
        alts.push((format!("schnorr.z1 {}", how), s));
        let mut s = p.clone();
        let how = alter_el(&mut s.sp.z2, op, q.sp.z2, &mut rng);
        alts.push((format!("schnorr.z2 {}", how), s));
    }
    for &n in &[0usize, 1, 2, 3, 4, 5, 6, 8, 14, 15, 16, 31, 63, 1 << 20, (1 << 32) - 1, (1 << 33) - 1, usize::MAX / 2, usize::MAX - 1, usize::MAX] {
        let mut s = p.clone();
        s.n = n;
        if n != p.n {
            alts.push((format!("n = {}", n), s));
        }
    }
    for which in 0..3 {
        for op in 0..7 {
            let mut s = p.clone();
            let f = |v: &mut Vec<AffinePoint<C>>| match op {
                0 => v.clear(),
                1 => { v.pop(); }
                2 => { v.remove(0); }
                3 => { let x = v[0]; v.push(x) }
                4 => v.rotate_left(1),
                5 => v.reverse(),
                _ => v.extend(vec![AffinePoint::ZERO; 40]),
            };
            if which != 1 {
                f(&mut s.l);
            }
            if which != 0 {
                f(&mut s.r);
            }
            alts.push((format!("halo vectors reshaped ({}, {})", which, op), s));
        }
    }
    // exchanges within the proof
    for i in 0..6 {
        for j in 0..i {
            let mut s = p.clone();
            s.o.swap(i, j);
            alts.push((format!("openings {} and {} exchanged", OPENINGS[i], OPENINGS[j]), s.clone()));
            if j != 1 && i != 1 {
                s.c.swap(i, j);
                alts.push((format!("{} and {} exchanged with their openings", POINTS[i], POINTS[j]), s));
            }
        }
        let mut s = p.clone();
        s.o[i].swap(0, 1);
        alts.push((format!("openings of {} exchanged", OPENINGS[i]), s));
    }
    let mut s = p.clone();
    std::mem::swap(&mut s.l, &mut s.r);
    alts.push(("halo_l and halo_r exchanged".into(), s));
    // parts of the other proof
    for k in 0..4 {
        let mut s = p.clone();
        match k {
            0 => s.c = q.c,
            1 => s.o = q.o,
            2 => { s.l = q.l.clone(); s.r = q.r.clone(); s.g = q.g; s.sp = q.sp }
            _ => s = Snap { c: p.c, ..q.clone() },
        }
        alts.push((format!("parts of another proof ({})", k), s));
    }
    alts.push(("a proof for another table".into(), q.clone()));
    alts.into_par_iter().for_each(|(what, s)| {
        match (lib.verify)(t, &s) {
            Verdict3::Refuse(_) => {}
            Verdict3::Accept => c.viol(&format!("{}/altered-accepted", name), what.clone()),
            Verdict3::Crash(e) => c.viol(&format!("{}/altered-crash", name), format!("{}: {}", what, e)),
        }
        c.ev("altered", &(name, what), true);
    });
}

fn at_idx<T>(v: &mut [T], k: usize) -> &mut T {
    &mut v[k]
}

// ---------------------------------------------------------------- cheating provers

type P1<F> = Vec<F>;
fn pmul<F: Field>(a: &[F], b: &[F]) -> P1<F> {
    let mut r = vec![F::ZERO; a.len() + b.len() - 1];
    for (i, &x) in a.iter().enumerate() {
        for (j, &y) in b.iter().enumerate() {
            r[i + j] = r[i + j] + x * y;
        }
    }
    r
}
fn padd<F: Field>(a: &[F], b: &[F]) -> P1<F> {
    (0..a.len().max(b.len())).map(|i| a.get(i).copied().unwrap_or(F::ZERO) + b.get(i).copied().unwrap_or(F::ZERO)).collect()
}
fn pscale<F: Field>(a: &[F], s: F) -> P1<F> {
    a.iter().map(|&x| x * s).collect()
}

struct Cheat<'a, C: HaloCurve> {
    lib: &'a Lib<C>,
    n: usize,
    w: SF<C>,
    gs: Vec<AffinePoint<C>>,
    h: AffinePoint<C>,
    ucurve: AffinePoint<C>,
    /// f, t, h1, h2, z, quotient: coefficients and blinding
    polys: Vec<P1<SF<C>>>,
    rs: Vec<SF<C>>,
    p: Snap<C>,
    rng: R,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Plan {
    /// the product does not close
    Last,
    /// the product is wrong in one step
    Step,
    /// the product does not start at one
    Start,
    /// the product is zero everywhere
    Zero,
    /// the product is one everywhere
    One,
    /// the sorted list is two lists that do not meet
    Link,
    /// another table
    Table,
    /// the sorted list is not made of f and t
    Sorted,
}
const PLANS: [Plan; 8] = [Plan::Last, Plan::Step, Plan::Start, Plan::Zero, Plan::One, Plan::Link, Plan::Table, Plan::Sorted];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fake {
    No,
    G,
    Resp,
    Left(usize),
    Right(usize),
    Commitment(usize),
}

impl<'a, C: HaloCurve> Cheat<'a, C>
where
    SF<C>: FieldSpec,
{
    fn mulp(s: SF<C>, p: AffinePoint<C>) -> ProjectivePoint<C> {
        C::convert(s) * p.to_projective()
    }
    fn commit(&mut self, k: usize, blind: bool) {
        let r: SF<C> = if blind { uf(&mut self.rng) } else { SF::<C>::ZERO };
        self.rs[k] = r;
        let s = self.polys[k].iter().zip(&self.gs).fold(Self::mulp(r, self.h), |s, (&x, &g)| s + Self::mulp(x, g));
        self.p.c[k] = s.to_affine();
    }
    fn chal(&self) -> Result<Ch<SF<C>>, String> {
        (self.lib.chal)(&self.p).ok_or_else(|| "no challenges".to_string())
    }
    fn new(lib: &'a Lib<C>, base: &Snap<C>, rng: R) -> Self {
        let n = base.n;
        let gs: Vec<AffinePoint<C>> = (0..2 * n + 2).map(blake_hash_usize_to_curve::<C>).collect();
        let mut lg = 0;
        while 1 << lg < n + 1 {
            lg += 1;
        }
        Cheat {
            lib,
            n,
            w: SF::<C>::primitive_root_of_unity(lg),
            gs,
            h: blake_hash_usize_to_curve(2 * n + 2),
            ucurve: blake_hash_usize_to_curve(2 * n + 3),
            polys: vec![vec![]; 6],
            rs: vec![SF::<C>::ZERO; 6],
            p: base.clone(),
            rng,
        }
    }
    /// the four constraints at the opened values; all are to vanish on the subgroup
    fn terms(&self, o: &[[SF<C>; 2]; 6], x: SF<C>, ch: &Ch<SF<C>>) -> [SF<C>; 4] {
        let one = <SF<C> as Field>::ONE;
        let (b, g, n) = (ch.beta, ch.gamma, self.n);
        let b1 = b + one;
        let gb = g * b1;
        let last = self.w.exp_usize(n);
        let zh = x.exp_usize(n + 1) - one;
        let li = |r: SF<C>| r * zh * finv(SF::<C>::from_canonical_usize(n + 1) * (x - r));
        [
            li(one) * (o[4][0] - one),
            (x - last) * (o[4][0] * b1 * (g + o[0][0]) * (gb + o[1][0] + b * o[1][1]) - o[4][1] * (gb + o[2][0] + b * o[2][1]) * (gb + o[3][0] + b * o[3][1])),
            li(last) * (o[2][0] - o[3][1]),
            li(last) * (o[4][0] - one),
        ]
    }
    /// how far the opened quotient is from what the other openings say
    fn gap(&self, o: &[[SF<C>; 2]; 6], ch: &Ch<SF<C>>, skip: Option<usize>) -> SF<C> {
        let mut t = self.terms(o, ch.zeta, ch);
        if let Some(k) = skip {
            t[k] = SF::<C>::ZERO;
        }
        horner(&t, ch.alpha) - o[5][0] * (ch.zeta.exp_usize(self.n + 1) - <SF<C> as Field>::ONE)
    }
    fn interp(&self, v: &[SF<C>]) -> P1<SF<C>> {
        ifft(v, self.w)
    }
    fn shift(&self, p: &[SF<C>]) -> P1<SF<C>> {
        let mut x = <SF<C> as Field>::ONE;
        p.iter().map(|&c| { let r = c * x; x = x * self.w; r }).collect()
    }
    /// The constraint polynomials with the challenges of the transcript.
    fn constraint_polys(&self, ch: &Ch<SF<C>>) -> Vec<P1<SF<C>>> {
        let one = <SF<C> as Field>::ONE;
        let n = self.n;
        let (b, g) = (ch.beta, ch.gamma);
        let b1 = b + one;
        let gb = g * b1;
        let unit = |i: usize| { let mut v = vec![SF::<C>::ZERO; n + 1]; v[i] = one; self.interp(&v) };
        let cst = |x: SF<C>| vec![x];
        let p = |i: usize| &self.polys[i];
        let s = |i: usize| self.shift(&self.polys[i]);
        let zm = padd(p(4), &cst(SF::<C>::ZERO - one));
        let pair = |i: usize| padd(&cst(gb), &padd(p(i), &pscale(&s(i), b)));
        let lhs = pscale(&pmul(&pmul(p(4), &padd(&cst(g), p(0))), &pair(1)), b1);
        let rhs = pmul(&pmul(&s(4), &pair(2)), &pair(3));
        let lin = vec![SF::<C>::ZERO - self.w.exp_usize(n), one];
        vec![
            pmul(&unit(0), &zm),
            pmul(&lin, &padd(&lhs, &pscale(&rhs, SF::<C>::ZERO - one))),
            pmul(&unit(n), &padd(p(2), &pscale(&s(3), SF::<C>::ZERO - one))),
            pmul(&unit(n), &zm),
        ]
    }
    /// Divide by x^(n+1) - 1; returns whether that was exact.
    fn divide(&self, mut a: P1<SF<C>>) -> (P1<SF<C>>, bool) {
        let m = self.n + 1;
        let mut q = vec![SF::<C>::ZERO; a.len().saturating_sub(m).max(1)];
        for i in (m..a.len()).rev() {
            let c = a[i];
            q[i - m] = c;
            a[i] = SF::<C>::ZERO;
            a[i - m] = a[i - m] + c;
        }
        (q, a.iter().all(|x| x.is_zero()))
    }
    /// Everything before the openings for the lists; `skip` leaves one constraint out of the quotient, its power
    /// of alpha unused or, with `close`, taken by the next one.
    fn go(&mut self, f: &[SF<C>], t: &[SF<C>], s: &[Vec<SF<C>>; 2], plan: Plan, skip: Option<usize>, close: bool) -> Result<bool, String> {
        let one = <SF<C> as Field>::ONE;
        let n = self.n;
        self.p.l.clear();
        self.p.r.clear();
        let mut fp = f.to_vec();
        fp.push(SF::<C>::ZERO);
        self.polys[0] = self.interp(&fp);
        self.polys[1] = self.interp(t);
        self.polys[2] = self.interp(&s[0]);
        self.polys[3] = self.interp(&s[1]);
        for k in 0..4 {
            self.commit(k, k != 1);
        }
        let ch = self.chal()?;
        let (b, g) = (ch.beta, ch.gamma);
        let b1 = b + one;
        let gb = g * b1;
        let ratio = |i: usize| b1 * (g + f[i]) * (gb + t[i] + b * t[i + 1]) * finv((gb + s[0][i] + b * s[0][i + 1]) * (gb + s[1][i] + b * s[1][i + 1]));
        let mut z = vec![one];
        for i in 0..n {
            let x = z[i] * ratio(i);
            z.push(x);
        }
        match plan {
            Plan::Step => z[n] = one,
            Plan::Start => { let k = finv(z[n]); z.iter_mut().for_each(|x| *x = *x * k) }
            Plan::Zero => z = vec![SF::<C>::ZERO; n + 1],
            Plan::One => z = vec![one; n + 1],
            _ => {}
        }
        self.polys[4] = self.interp(&z);
        self.commit(4, true);
        let ch = self.chal()?;
        let cp = self.constraint_polys(&ch);
        let mut sum = vec![];
        let mut ap = one;
        for (i, q) in cp.iter().enumerate() {
            if skip != Some(i) {
                sum = padd(&sum, &pscale(q, ap));
            } else if close {
                continue;
            }
            ap = ap * ch.alpha;
        }
        let (mut q, exact) = self.divide(sum);
        while q.len() > 1 && q.last().unwrap().is_zero() {
            q.pop();
        }
        if q.len() > 2 * n + 2 {
            return Err("quotient too long".into());
        }
        self.polys[5] = q;
        self.commit(5, true);
        let ch = self.chal()?;
        for k in 0..6 {
            self.p.o[k] = [horner(&self.polys[k], ch.zeta), horner(&self.polys[k], ch.zeta * self.w)];
        }
        Ok(exact)
    }
    /// Make one opened value such that the quotient equation holds.
    fn bend(&mut self, k: usize, side: usize) -> Result<bool, String> {
        let ch = self.chal()?;
        let mut o = self.p.o;
        let at = |o: &mut [[SF<C>; 2]; 6], x: SF<C>, me: &Self| { o[k][side] = x; me.gap(o, &ch, None) };
        let (g0, g1) = (at(&mut o, SF::<C>::ZERO, self), at(&mut o, <SF<C> as Field>::ONE, self));
        if g0 == g1 {
            return Ok(false);
        }
        self.p.o[k][side] = SF::<C>::ZERO - g0 * finv(g1 - g0);
        Ok(self.gap(&self.p.o, &ch, None).is_zero())
    }
    /// The opening argument for the true polynomials, and variants of it where one message is chosen after the last
    /// challenge.
    fn open(&mut self, fakes: &[Fake]) -> Result<Vec<Snap<C>>, String> {
        self.p.l.clear();
        self.p.r.clear();
        let size = 2 * self.n + 2;
        let ch = self.chal()?;
        let bits = |x: SF<C>| x.to_canonical_bool_vec()[..BITS].to_vec();
        let ws: Vec<SF<C>> = powers(ch.u, 6).iter().map(|&x| halo_n::<C>(&bits(x))).collect();
        let up = halo_n_mul(&bits(ch.us), self.ucurve);
        let mul = |s: SF<C>, p: ProjectivePoint<C>| C::convert(s) * p;
        let mut a = vec![SF::<C>::ZERO; size];
        let mut rand = SF::<C>::ZERO;
        for k in 0..6 {
            a = padd(&a, &pscale(&self.polys[k], ws[k]));
            rand = rand + ws[k] * self.rs[k];
        }
        let (pa, pb) = (powers(ch.zeta, size), powers(ch.zeta * self.w, size));
        let mut b: Vec<SF<C>> = (0..size).map(|i| pa[i] + ch.v * pb[i]).collect();
        let mut g: Vec<ProjectivePoint<C>> = self.gs.iter().map(|p| p.to_projective()).collect();
        let dot = |x: &[SF<C>], y: &[SF<C>]| x.iter().zip(y).fold(SF::<C>::ZERO, |s, (&p, &q)| s + p * q);
        let msm = |x: &[SF<C>], y: &[ProjectivePoint<C>]| x.iter().zip(y).fold(ProjectivePoint::<C>::ZERO, |s, (&p, &q)| s + mul(p, q));
        let (h, up) = (self.h.to_projective(), up.to_projective());
        while a.len() > 1 {
            let m = a.len() / 2;
            let l0 = msm(&a[..m], &g[m..]) + mul(dot(&a[..m], &b[m..]), up);
            let r0 = msm(&a[m..], &g[..m]) + mul(dot(&a[m..], &b[..m]), up);
            let mut tries = 0;
            let u = loop {
                let (bl, br): (SF<C>, SF<C>) = (uf(&mut self.rng), uf(&mut self.rng));
                self.p.l.push((l0 + mul(bl, h)).to_affine());
                self.p.r.push((r0 + mul(br, h)).to_affine());
                if let Ok(c) = self.chal() {
                    let u = *c.halo.last().ok_or("no round challenge")?;
                    let ui = finv(u);
                    rand = rand + u * u * bl + ui * ui * br;
                    break u;
                }
                self.p.l.pop();
                self.p.r.pop();
                tries += 1;
                if tries > 60 {
                    return Err("no usable round challenge".into());
                }
            };
            let ui = finv(u);
            a = (0..m).map(|i| ui * a[m + i] + u * a[i]).collect();
            b = (0..m).map(|i| ui * b[i] + u * b[m + i]).collect();
            g = (0..m).map(|i| mul(ui, g[i]) + mul(u, g[m + i])).collect();
        }
        let (d, s): (SF<C>, SF<C>) = (uf(&mut self.rng), uf(&mut self.rng));
        self.p.g = g[0].to_affine();
        let base = g[0] + mul(b[0], up);
        self.p.sp.r = (mul(d, base) + mul(s, h)).to_affine();
        let ch = self.chal()?;
        self.p.sp.z1 = a[0] * ch.last + d;
        self.p.sp.z2 = rand * ch.last + s;
        let mut out = vec![];
        let v: Vec<SF<C>> = (0..2).map(|side| dot(&self.p.o.iter().map(|o| o[side]).collect::<Vec<_>>(), &ws)).collect();
        let mut q = msm(&ws, &self.p.c.iter().map(|p| p.to_projective()).collect::<Vec<_>>()) + mul(v[0] + ch.v * v[1], up);
        for (i, &u) in ch.halo.iter().enumerate() {
            q = q + mul(u * u, self.p.l[i].to_projective()) + mul(finv(u * u), self.p.r[i].to_projective());
        }
        let minus = SF::<C>::ZERO - <SF<C> as Field>::ONE;
        let miss = mul(self.p.sp.z1, base) + mul(self.p.sp.z2, h) + mul(minus, self.p.sp.r.to_projective() + mul(ch.last, q));
        let add = |p: &mut AffinePoint<C>, s: SF<C>| *p = (p.to_projective() + mul(s, miss)).to_affine();
        let ci = finv(ch.last);
        for &fake in fakes {
            let mut x = self.p.clone();
            match fake {
                Fake::No => {}
                Fake::G => add(&mut x.g, SF::<C>::ZERO - finv(x.sp.z1)),
                Fake::Resp => add(&mut x.sp.r, <SF<C> as Field>::ONE),
                Fake::Left(i) => add(&mut x.l[i], ci * finv(ch.halo[i] * ch.halo[i])),
                Fake::Right(i) => add(&mut x.r[i], ci * ch.halo[i] * ch.halo[i]),
                Fake::Commitment(k) => add(&mut x.c[k], ci * finv(ws[k])),
            }
            out.push(x);
        }
        Ok(out)
    }
}

/// f in the order of t, in two overlapping halves
fn sorted<F: FieldSpec>(f: &[F], t: &[F]) -> [Vec<F>; 2] {
    let mut s = vec![];
    let mut left = f.to_vec();
    for &x in t {
        s.push(x);
        while let Some(i) = left.iter().position(|&y| y == x) {
            left.remove(i);
            s.push(x);
        }
    }
    // strangers go to the end
    s.extend(left);
    let n = f.len();
    [s[..n + 1].to_vec(), s[n..].to_vec()]
}

fn cheats<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let mut rng = c.rng(&format!("{}-cheats", name));
    let one = <SF<C> as Field>::ONE;
    let reasons: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let mut jobs: Vec<(usize, Plan, usize, u64)> = vec![];
    for &n in if c.thorough { &[3usize, 7, 15][..] } else { &[3usize][..] } {
        for (i, &plan) in PLANS.iter().enumerate() {
            for k in 0..c.n(2, 30) {
                jobs.push((n, plan, k + i + c.seed as usize, rng.gen()));
            }
        }
    }
    let control = Mutex::new(0);
    jobs.into_par_iter().for_each(|(n, plan, k, sd)| {
        if !c.time_left() {
            return;
        }
        use rand::SeedableRng;
        let mut rng = R::seed_from_u64(sd);
        let t: Vec<SF<C>> = (0..n + 1).map(|i| if k % 4 == 3 { SF::<C>::mk(&(i + 1).into()) } else { uf(&mut rng) }).collect();
        let f: Vec<SF<C>> = (0..n).map(|_| t[rng.gen_range(0, n + 1)]).collect();
        let base = match (lib.prove)(&f, &t) {
            Ok(p) if p.n == n => p,
            _ => return c.viol(&format!("{}/honest-not-provable", name), format!("n = {}", n)),
        };
        let mut a = Cheat::new(&lib, &base, R::seed_from_u64(sd ^ 1));
        // the stranger
        let x = match k % 3 {
            0 => uf(&mut rng),
            1 => SF::<C>::ZERO,
            _ => t[0] + t[1] + one,
        };
        if t.contains(&x) {
            return;
        }
        // control: the machinery gives an accepted proof when nothing is false
        if k % 4 == 0 {
            let r = a.go(&f, &t, &sorted(&f, &t), Plan::Last, None, false).and_then(|e| a.open(&[Fake::No]).map(|_| e));
            let v = (lib.verify)(&t, &a.p);
            if r == Ok(true) && v == Verdict3::Accept {
                *control.lock().unwrap() += 1;
            } else {
                c.note(format!("{}: the harness's own prover is refused: {:?} {:?}", name, r, v));
            }
            c.ev("own-prover", &(name, n, k), true);
        }
        let mut f2 = f.clone();
        let mut t2 = t.clone();
        let mut skip = vec![None];
        let mut s;
        match plan {
            Plan::Link => {
                f2 = vec![x; n];
                s = [t.clone(), vec![x; n + 1]];
                skip.push(Some(2));
            }
            Plan::Table => {
                let i = rng.gen_range(0, n + 1);
                t2[i] = x;
                f2[rng.gen_range(0, n)] = x;
                f2.iter_mut().for_each(|y| if *y == t[i] { *y = x });
                s = sorted(&f2, &t2);
            }
            Plan::Sorted => {
                let i = rng.gen_range(0, n);
                let s0 = sorted(&f2, &t);
                s = s0;
                f2[i] = x;
                skip.push(Some(3));
                skip.push(Some(1));
            }
            _ => {
                let i = [0, n - 1, rng.gen_range(0, n)][k % 3];
                f2[i] = x;
                s = sorted(&f2, &t);
                skip.push(Some(match plan {
                    Plan::Last => 3,
                    Plan::Start => 0,
                    _ => 1,
                }));
                if plan == Plan::Zero {
                    skip.push(Some(0));
                    skip.push(Some(3));
                }
            }
        }
        if k % 5 == 4 {
            s.swap(0, 1);
        }
        let skip: Vec<(Option<usize>, bool)> = skip.iter().map(|&k| (k, false)).chain(skip.iter().filter(|k| k.map_or(false, |k| k < 3)).map(|&k| (k, true))).collect();
        for (sk, close) in skip {
            let exact = a.go(&f2, &t2, &s, plan, sk, close);
            if let Err(e) = exact {
                *reasons.lock().unwrap().entry(format!("gave up: {}", e)).or_insert(0) += 1;
                continue;
            }
            let ready = a.p.clone();
            for bend in 0..7 {
                if (!c.thorough && bend > 1 && (k + bend) % 5 != 0) || (close && bend > 0) {
                    continue;
                }
                a.p = ready.clone();
                if plan == Plan::Table && bend % 2 == 0 {
                    // the true commitment of the true table
                    a.p.c[1] = base.c[1];
                }
                let rounds = base.l.len();
                let fakes = [Fake::No, Fake::G, Fake::Resp, Fake::Left(rng.gen_range(0, rounds)), Fake::Right(rng.gen_range(0, rounds)), Fake::Commitment(rng.gen_range(0, 6))];
                let r = (|| -> Result<Vec<Snap<C>>, String> {
                    let (slot, side) = [(5, 0), (5, 0), (4, 1), (2, 1), (3, 1), (1, 1), (0, 0)][bend];
                    if bend > 0 && !a.bend(slot, side)? {
                        return Err("nothing to bend".into());
                    }
                    a.open(&fakes)
                })();
                match r {
                    Err(e) => *reasons.lock().unwrap().entry(format!("gave up: {}", e)).or_insert(0) += 1,
                    Ok(ps) => {
                        for (fake, p) in fakes.iter().zip(&ps) {
                            let what = format!("n = {}, {:?}, constraint left out {:?} (closed up: {}), bent {}, faked {:?}", n, plan, sk, close, bend, fake);
                            match (lib.verify)(&t, p) {
                                Verdict3::Accept => c.viol(&format!("{}/cheat-accepted", name), what.clone()),
                                Verdict3::Crash(e) => c.viol(&format!("{}/cheat-crash", name), format!("{}: {}", what, e)),
                                Verdict3::Refuse(e) => *reasons.lock().unwrap().entry(format!("refused: {}", e)).or_insert(0) += 1,
                            }
                            c.ev(&format!("cheat:{:?}", plan), &(name, n, k, (sk, close), bend, format!("{:?}", fake)), true);
                        }
                    }
                }
            }
        }
    });
    for (r, k) in reasons.into_inner().unwrap() {
        c.evn(&format!("cheat {}", r), k, &[h64(name)]);
    }
    if *control.lock().unwrap() > 0 {
        c.ev("own-prover-accepted", &name, true);
    }
}

/// Every message is bound by the challenges that follow it.
fn binding<C: HaloCurve>(c: &Ctx, name: &str)
where
    SF<C>: FieldSpec,
{
    let lib = lib::<C>();
    let mut rng = c.rng(&format!("{}-binding", name));
    let (t, _) = tables::<SF<C>>(&mut rng, 4, 0);
    let p = match (lib.prove)(&t[..3], &t) {
        Ok(p) => p,
        Err(e) => return c.viol(&format!("{}/honest-not-provable", name), e),
    };
    // without rounds there is always an answer
    let bare = |s: &Snap<C>| { let mut s = s.clone(); s.l.clear(); s.r.clear(); (lib.chal)(&s) };
    let (full, b0) = match ((lib.chal)(&p), bare(&p)) {
        (Some(a), Some(b)) => (a, b),
        _ => return c.note(format!("{}: challenges cannot be looked at", name)),
    };
    c.check(b0 == (Ch { halo: vec![], last: b0.last, ..full.clone() }), &format!("{}/challenges-look-ahead", name), || "".into());
    let rounds = |s: &Snap<C>| -> Vec<Option<Ch<SF<C>>>> {
        (1..=s.l.len()).map(|k| { let mut x = s.clone(); x.l.truncate(k); x.r.truncate(k); (lib.chal)(&x) }).collect()
    };
    let ch_list = |x: &Ch<SF<C>>| vec![("beta", x.beta), ("gamma", x.gamma), ("alpha", x.alpha), ("zeta", x.zeta), ("v", x.v), ("u", x.u), ("u_scaling", x.us)];
    let try_one = |what: String, s: Snap<C>, from: usize| {
        match bare(&s) {
            Some(y) => {
                for (i, ((n, a), (_, b))) in ch_list(&b0).into_iter().zip(ch_list(&y)).enumerate() {
                    if i >= from {
                        c.check(a != b, &format!("{}/not-bound", name), || format!("{} does not change {}", what, n));
                    }
                }
                c.check(y.last != b0.last, &format!("{}/not-bound", name), || format!("{} does not change the final challenge", what));
                c.ev("bound", &(name, what), true);
            }
            None => c.ev("bound", &(name, what, "refused"), false),
        }
    };
    for k in 0..6 {
        for op in &[0usize, 1, 6] {
            let mut s = p.clone();
            let how = alter_pt(&mut s.c[k], *op, C::GENERATOR_AFFINE);
            try_one(format!("{} {}", POINTS[k], how), s, [0, 0, 0, 0, 2, 3][k]);
        }
        for side in 0..2 {
            for op in &[0usize, 2, 3] {
                let mut s = p.clone();
                let how = alter_el(&mut s.o[k][side], *op, one::<C>(), &mut rng);
                try_one(format!("opening {} {} {}", OPENINGS[k], side, how), s, 4);
            }
        }
    }
    let r0 = rounds(&p);
    for i in 0..p.l.len() {
        for left in &[true, false] {
            // look for a variant that has a challenge at all
            for op in &[0usize, 1, 10, 9, 5] {
                let mut s = p.clone();
                alter_pt(if *left { &mut s.l[i] } else { &mut s.r[i] }, *op, C::GENERATOR_AFFINE);
                if let (Some(Some(a)), Some(Some(b))) = (r0.get(i), rounds(&s).get(i).cloned()) {
                    c.check(a.halo[i] != b.halo[i] && a.last != b.last, &format!("{}/not-bound", name), || format!("round {} {} does not change the round's challenge", i, left));
                    c.ev("bound", &(name, i, left, op), true);
                }
            }
        }
    }
    let mut s = p.clone();
    s.sp.r = add_g(s.sp.r);
    if let Some(y) = (lib.chal)(&s) {
        c.check(y.last != full.last, &format!("{}/not-bound", name), || "schnorr.r does not change the final challenge".into());
        c.ev("bound", &(name, "schnorr.r"), true);
    }
}
fn one<C: HaloCurve>() -> SF<C> {
    <SF<C> as Field>::ONE
}

macro_rules! all_curves {
    ($c:expr, $f:ident, $k:expr) => {{
        let c: &Ctx = $c;
        let s = c.seed as usize;
        (0..$k).into_par_iter().for_each(|i: usize| match (i + s) % 4 {
            0 => c.section(concat!(stringify!($f), "/Tweedledee"), |c| $f::<Tweedledee>(c, "Tweedledee")),
            1 => c.section(concat!(stringify!($f), "/Tweedledum"), |c| $f::<Tweedledum>(c, "Tweedledum")),
            2 => c.section(concat!(stringify!($f), "/Pallas"), |c| $f::<Pallas>(c, "Pallas")),
            _ => c.section(concat!(stringify!($f), "/Vesta"), |c| $f::<Vesta>(c, "Vesta")),
        });
    }};
}

fn main() {
    let c = Ctx::new("C21");
    all_curves!(&c, range, 4);
    c.section("folding", |c| folding::<Tweedledee>(c, "Tweedledee"));
    all_curves!(&c, binding, 4);
    let k = c.n(2, 4);
    all_curves!(&c, honest, k);
    all_curves!(&c, altered, k);
    all_curves!(&c, cheats, k);
    all_curves!(&c, columns, k);
    c.require("honest", 60);
    c.require("altered", 300);
    c.require("missing-value", 60);
    c.assume("a list of queries is what the proof's commitment c_f opens to; the verifier is given no other handle on the queries");
    c.assume("tables that hold the same values in the same order up to repeats of the last one are the same table");
    c.finish();
}
