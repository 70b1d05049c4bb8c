//! C01 (field arithmetic) and C02 (field encodings): every result of the real operators is compared with
//! an independent integer computation on the raw representation.
use num::{BigUint, Integer, One, ToPrimitive, Zero};
use plonky::*;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use rayon::prelude::*;
use vmon::big::*;
use vmon::*;

fn k(parts: &[&BigUint]) -> u64 {
    let v: Vec<Vec<u32>> = parts.iter().map(|b| b.to_u32_digits()).collect();
    h64(&v)
}

struct M<'a> {
    c: &'a Ctx,
    keys: Vec<u64>,
    n: u64,
    kind: String,
}
impl<'a> M<'a> {
    fn new(c: &'a Ctx, kind: String) -> Self {
        M { c, keys: vec![], n: 0, kind }
    }
    /// The observed element must be reduced and have the expected value.
    fn el<F: FieldSpec>(&mut self, op: &str, got: F, want: &BigUint, args: &[&BigUint]) {
        self.n += 1;
        let raw = limbs(&got.raw());
        if &raw >= F::pr() {
            self.c.viol(&format!("unreduced:{}:{}", F::NAME, op), format!("{} {} args={:?} raw={}", F::NAME, op, args, raw));
        }
        let v = got.val();
        if &v != want {
            self.c.viol(&format!("arith:{}:{}", F::NAME, op), format!("{} {} args={:?} got={} want={}", F::NAME, op, args, v, want));
        }
    }
    fn b(&mut self, ok: bool, op: &str, d: impl FnOnce() -> String) {
        self.n += 1;
        if !ok {
            self.c.viol(op, d());
        }
    }
    fn key(&mut self, args: &[&BigUint]) {
        self.keys.push(k(args));
        if self.keys.len() >= 8192 {
            self.c.evn(&self.kind, self.n, &self.keys);
            self.n = 0;
            self.keys.clear();
        }
    }
    fn done(self) {
        self.c.evn(&self.kind, self.n, &self.keys);
    }
}

fn pow(a: &BigUint, e: &BigUint, p: &BigUint) -> BigUint {
    a.modpow(e, p)
}

fn binary_ops<F: FieldSpec>(m: &mut M, a: &BigUint, b: &BigUint) {
    let p = F::pr();
    let (x, y) = (F::mk(a), F::mk(b));
    m.key(&[a, b]);
    m.el("add", x + y, &addm(a, b, p), &[a, b]);
    m.el("sub", x - y, &subm(a, b, p), &[a, b]);
    m.el("mul", x * y, &mulm(a, b, p), &[a, b]);
    m.b((x == y) == (a == b), &format!("eq:{}", F::NAME), || format!("{} {}", a, b));
}

fn unary_ops<F: FieldSpec>(m: &mut M, a: &BigUint, sqrt: bool) {
    let p = F::pr();
    let x = F::mk(a);
    m.key(&[a]);
    m.el("neg", -x, &subm(&BigUint::zero(), a, p), &[a]);
    m.el("square", x.square(), &mulm(a, a, p), &[a]);
    m.el("cube", x.cube(), &mulm(&mulm(a, a, p), a, p), &[a]);
    m.el("double", x.double(), &mulm(a, &BigUint::from(2u8), p), &[a]);
    m.el("triple", x.triple(), &mulm(a, &BigUint::from(3u8), p), &[a]);
    m.el("quadruple", x.quadruple(), &mulm(a, &BigUint::from(4u8), p), &[a]);
    m.b(x.is_zero() == a.is_zero() && x.is_nonzero() != a.is_zero() && x.is_one() == a.is_one(), &format!("iszero:{}", F::NAME), || format!("{}", a));
    match x.multiplicative_inverse() {
        None => m.b(a.is_zero(), &format!("inv-none:{}", F::NAME), || format!("no inverse of {}", a)),
        Some(i) => {
            m.b(!a.is_zero(), &format!("inv-zero:{}", F::NAME), || "zero has an inverse".into());
            if !a.is_zero() {
                m.el("inv", i, &inv(a, p), &[a]);
            }
        }
    }
    if sqrt {
        let qr = is_qr(a, p);
        m.b(x.is_quadratic_residue() == qr, &format!("qr:{}", F::NAME), || format!("{} qr={}", a, qr));
        match x.square_root() {
            None => m.b(!qr, &format!("sqrt-none:{}", F::NAME), || format!("no root of {}", a)),
            Some(r) => {
                m.b(qr, &format!("sqrt-of-nonresidue:{}", F::NAME), || format!("{}", a));
                let rv = r.val();
                m.b(&limbs(&r.raw()) < p, &format!("unreduced:{}:sqrt", F::NAME), || format!("{}", a));
                m.b(mulm(&rv, &rv, p) == *a, &format!("sqrt:{}", F::NAME), || format!("{} -> {}", a, rv));
                m.b(x.square_root() == Some(r), &format!("sqrt-det:{}", F::NAME), || format!("{}", a));
            }
        }
    }
}

fn c01<F: FieldSpec>(c: &Ctx) {
    let p = F::pr();
    let mut rng = c.rng(&format!("c01-{}", F::NAME));
    // constants
    let mut m = M::new(c, format!("constants:{}", F::NAME));
    for (n, x, v) in vec![
        ("ZERO", F::ZERO, 0u32),
        ("ONE", F::ONE, 1),
        ("TWO", F::TWO, 2),
        ("THREE", F::THREE, 3),
        ("FOUR", F::FOUR, 4),
        ("FIVE", F::FIVE, 5),
        ("default", F::default(), 0),
    ] {
        m.key(&[&BigUint::from(v)]);
        m.el(n, x, &BigUint::from(v), &[]);
    }
    m.el("NEG_ONE", F::NEG_ONE, &(p - 1u32), &[]);
    let pm1 = p - 1u32;
    let ta = F::TWO_ADICITY;
    m.b((&pm1 >> ta) << ta == pm1 && (&pm1 >> ta).is_odd(), &format!("two-adicity:{}", F::NAME), || format!("{}", ta));
    m.el("T", F::T, &(&pm1 >> ta), &[]);
    m.b(F::BITS == p.bits() as usize && F::BYTES == F::RLIMBS * 8, &format!("bits:{}", F::NAME), || format!("{} {}", F::BITS, F::BYTES));
    let alpha = F::ALPHA.val();
    m.b(alpha.gcd(&pm1).is_one() && alpha > BigUint::one(), &format!("alpha:{}", F::NAME), || format!("{}", alpha));
    // the generator must generate the whole 2-primary part (what roots of unity and cosets rely on)
    let g = F::MULTIPLICATIVE_SUBGROUP_GENERATOR.val();
    m.b(!is_qr(&g, p), &format!("generator:{}", F::NAME), || format!("{} is a square", g));
    // roots of unity: exact order, compatible tower
    for i in 0..=ta {
        let r = F::primitive_root_of_unity(i);
        let rv = r.val();
        m.key(&[&BigUint::from(i + 1000)]);
        let want = if i == 0 { BigUint::one() } else { pm1.clone() };
        let half = if i == 0 { rv.clone() } else { pow(&rv, &(BigUint::one() << (i - 1)), p) };
        m.b(half == want, &format!("root-order:{}", F::NAME), || format!("2^{} root {}", i, rv));
        if i > 0 {
            m.el("root-tower", r.square(), &F::primitive_root_of_unity(i - 1).val(), &[&BigUint::from(i)]);
        }
        if i <= 10 {
            let n = 1usize << i;
            let s = F::cyclic_subgroup_known_order(r, n);
            let s2 = F::cyclic_subgroup_unknown_order(r);
            m.b(s == s2 && s.len() == n && F::generator_order(r) == n, &format!("subgroup:{}", F::NAME), || format!("2^{}", i));
            let mut cur = BigUint::one();
            for x in &s {
                m.el("subgroup-el", *x, &cur, &[&BigUint::from(i)]);
                cur = mulm(&cur, &rv, p);
            }
        }
    }
    // orders of non-2-power roots of unity (small odd factors)
    for q in [3u32, 5, 7, 11, 13].iter() {
        if (&pm1 % *q).is_zero() {
            let r = (2u32..200).map(|b| pow(&BigUint::from(b), &(&pm1 / *q), p)).find(|r| !r.is_one()).unwrap();
            let o = F::generator_order(F::mk(&r));
            m.b(o == *q as usize, &format!("order:{}", F::NAME), || format!("{} order {}", q, o));
        }
    }
    m.done();

    // boundary x boundary, exhaustively
    let bv = boundary_values(p);
    let mut m = M::new(c, format!("boundary-pairs:{}", F::NAME));
    for a in &bv {
        for b in &bv {
            binary_ops::<F>(&mut m, a, b);
        }
        unary_ops::<F>(&mut m, a, true);
        m.el("mul-canon", F::mk(a) * F::ONE, a, &[a]);
    }
    m.done();
    c.sample(&format!("boundary-pairs:{}", F::NAME), || format!("{} boundary integers, e.g. {:?}", bv.len(), &bv[bv.len() / 2]));
    // hostile random
    let mut m = M::new(c, format!("hostile:{}", F::NAME));
    let n = c.n(150_000, 4_000_000);
    for i in 0..n {
        let (a, b) = (hostile(&mut rng, p), hostile(&mut rng, p));
        binary_ops::<F>(&mut m, &a, &b);
        let heavy = i % 16 == 0;
        if i % 4 == 0 {
            unary_ops::<F>(&mut m, &a, heavy);
        }
        if heavy && !b.is_zero() {
            m.el("div", F::mk(&a) / F::mk(&b), &mulm(&a, &inv(&b, p), p), &[&a, &b]);
        }
        if i == 7 {
            c.sample(&format!("hostile:{}", F::NAME), || format!("a={} b={}", a, b));
        }
    }
    m.b(guard(|| F::ONE / F::ZERO).is_err(), &format!("div-zero:{}", F::NAME), || "1/0 returned a value".into());
    m.done();
    // powers
    let mut m = M::new(c, format!("powers:{}", F::NAME));
    let mut exps: Vec<BigUint> = bv.clone();
    for i in 0..p.bits() as usize {
        exps.push(BigUint::one() << i);
    }
    for _ in 0..c.n(600, 20000) {
        exps.push(hostile(&mut rng, p));
    }
    for e in exps.iter().filter(|e| *e < p) {
        let a = hostile(&mut rng, p);
        m.key(&[&a, e]);
        m.el("exp", F::mk(&a).exp(F::mk(e)), &pow(&a, e, p), &[&a, e]);
    }
    for e in [0u32, 1, 2, 3, 5, 31, 32, 63, 64, 65, 255, 256, 65535, 65537, u32::MAX - 1, u32::MAX].iter() {
        for a in [BigUint::zero(), BigUint::one(), &pm1 - 5u32, hostile(&mut rng, p)].iter() {
            m.key(&[a, &BigUint::from(*e)]);
            m.el("exp_u32", F::mk(a).exp_u32(*e), &pow(a, &BigUint::from(*e), p), &[a]);
            m.el("exp_usize", F::mk(a).exp_usize(*e as usize * 4097), &pow(a, &(BigUint::from(*e) * 4097u32), p), &[a]);
        }
    }
    m.el("exp_usize", F::FIVE.exp_usize(usize::MAX), &pow(&BigUint::from(5u8), &BigUint::from(u64::MAX), p), &[]);
    // k-th roots for every small k coprime to p-1
    let mut ks: Vec<u32> = (1..c.n(40, 200) as u32).collect();
    ks.extend_from_slice(&[257, 65537, 1000003]);
    for kk in ks {
        if kk > 300 && (!c.thorough && kk > 300) {
            if kk != 257 && kk != 65537 {
                continue;
            }
        }
        if !BigUint::from(kk).gcd(&pm1).is_one() {
            continue;
        }
        for a in [BigUint::zero(), BigUint::one(), pm1.clone(), hostile(&mut rng, p)].iter() {
            let r = F::mk(a).kth_root_u32(kk);
            m.key(&[a, &BigUint::from(kk)]);
            let rv = r.val();
            m.b(&pow(&rv, &BigUint::from(kk), p) == a && &limbs(&r.raw()) < p, &format!("kth-root:{}", F::NAME), || format!("{}^(1/{}) = {}", a, kk, rv));
        }
    }
    let a = hostile(&mut rng, p);
    let r = F::mk(&a).kth_root(F::ALPHA);
    m.b(pow(&r.val(), &alpha, p) == a, &format!("kth-root:{}", F::NAME), || format!("alpha root of {}", a));
    m.done();
    // slices: batch inversion, inner products, scaling, addition
    let mut m = M::new(c, format!("slices:{}", F::NAME));
    for len in 0..c.n(60, 300) {
        let mut xs: Vec<BigUint> = (0..len).map(|_| hostile(&mut rng, p)).collect();
        let ys: Vec<BigUint> = (0..len).map(|_| hostile(&mut rng, p)).collect();
        if len > 1 && len % 3 == 0 {
            let i = rng.gen_range(0, len);
            xs[i] = xs[0].clone();
        }
        let fx: Vec<F> = xs.iter().map(F::mk).collect();
        let fy: Vec<F> = ys.iter().map(F::mk).collect();
        m.key(&xs.iter().collect::<Vec<_>>());
        let mut zx = xs.clone();
        for (i, z) in zx.iter_mut().enumerate() {
            if len % 2 == 1 && (i * 7 + len) % 4 == 0 || len % 5 == 4 {
                *z = BigUint::zero();
            }
        }
        let fz: Vec<F> = zx.iter().map(F::mk).collect();
        let opt = F::batch_multiplicative_inverse_opt(&fz);
        m.b(opt.len() == len, &format!("batchinv-len:{}", F::NAME), || format!("{}", len));
        for (z, o) in zx.iter().zip(opt) {
            match o {
                None => m.b(z.is_zero(), &format!("batchinv-none:{}", F::NAME), || format!("{}", z)),
                Some(v) if z.is_zero() => m.b(false, &format!("batchinv-zero:{}", F::NAME), || format!("{:?}", v)),
                Some(v) => m.el("batchinv_opt", v, &inv(z, p), &[z]),
            }
        }
        let nz: Vec<BigUint> = xs.iter().filter(|x| !x.is_zero()).cloned().collect();
        let fnz: Vec<F> = nz.iter().map(F::mk).collect();
        let bi = F::batch_multiplicative_inverse(&fnz);
        m.b(bi.len() == nz.len(), &format!("batchinv-len:{}", F::NAME), || format!("{}", len));
        for (z, v) in nz.iter().zip(bi) {
            m.el("batchinv", v, &inv(z, p), &[z]);
        }
        let mut ip = BigUint::zero();
        for i in 0..len {
            ip = (ip + &xs[i] * &ys[i]) % p;
        }
        m.el("inner_product", F::inner_product(&fx, &fy), &ip, &[]);
        let s = F::add_slices(&fx, &fy);
        let a = hostile(&mut rng, p);
        let sc = F::mk(&a).scale_slice(&fx);
        m.b(s.len() == len && sc.len() == len, &format!("slice-len:{}", F::NAME), || format!("{}", len));
        for i in 0..len {
            m.el("add_slices", s[i], &addm(&xs[i], &ys[i], p), &[&xs[i], &ys[i]]);
            m.el("scale_slice", sc[i], &mulm(&xs[i], &a, p), &[&xs[i], &a]);
        }
    }
    m.done();
    // long batch (one large product chain)
    let mut m = M::new(c, format!("slices:{}", F::NAME));
    let xs: Vec<BigUint> = (0..700).map(|_| hostile(&mut rng, p)).filter(|x| !x.is_zero()).collect();
    let fx: Vec<F> = xs.iter().map(F::mk).collect();
    for (x, v) in fx.iter().zip(F::batch_multiplicative_inverse(&fx)) {
        m.b((*x * v).val().is_one(), &format!("batchinv-long:{}", F::NAME), || format!("{:?}", x));
    }
    m.done();
}

fn bytes_le(v: &BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    while b.len() < n {
        b.push(0);
    }
    b
}

fn c02<F: FieldSpec>(c: &Ctx) {
    let p = F::pr();
    let nb = F::RLIMBS * 8;
    let mut rng = c.rng(&format!("c02-{}", F::NAME));
    let mut vals = boundary_values(p);
    for _ in 0..c.n(8000, 400_000) {
        vals.push(hostile(&mut rng, p));
    }
    let mut m = M::new(c, format!("roundtrip:{}", F::NAME));
    let s = |n: &str| format!("{}:{}", n, F::NAME);
    for a in &vals {
        let x = F::mk(a);
        m.key(&[a]);
        let l64 = x.to_canonical_u64_vec();
        m.b(l64 == to_limbs(a, F::RLIMBS), &s("u64"), || format!("{} {:?}", a, l64));
        let l32 = x.to_canonical_u32_vec();
        m.b(l32.len() == 2 * F::RLIMBS && BigUint::from_slice(&l32) == *a, &s("u32"), || format!("{} {:?}", a, l32));
        let l8 = x.to_canonical_u8_vec();
        m.b(l8 == bytes_le(a, nb), &s("u8"), || format!("{} {:?}", a, l8));
        let bits = x.to_canonical_bool_vec();
        m.b(bits.len() == 8 * nb && (0..8 * nb).all(|i| bits[i] == ((&l8[i / 8] >> (i % 8)) & 1 == 1)), &s("bits"), || format!("{}", a));
        m.b(field_to_biguint(x) == *a, &s("biguint"), || format!("{}", a));
        m.el("from_u64", F::from_canonical_u64_vec(to_limbs(a, F::RLIMBS)), a, &[a]);
        m.el("from_u32", F::from_canonical_u32_vec(l32), a, &[a]);
        m.el("from_biguint", biguint_to_field::<F>(a.clone()), a, &[a]);
        m.b(u64_slice_to_biguint(&l64) == *a, &s("u64_slice"), || format!("{}", a));
        match F::from_canonical_u8_vec(bytes_le(a, nb)) {
            Ok(y) => m.el("from_u8", y, a, &[a]),
            Err(_) => m.b(false, &s("refused-valid"), || format!("{}", a)),
        }
        m.b(F::is_valid_canonical_u64(&l64), &s("valid"), || format!("{}", a));
        m.b(x.num_bits() == a.bits() as usize, &s("num_bits"), || format!("{} -> {}", a, x.num_bits()));
        m.b(format!("{}", x) == format!("{}", a), &s("display"), || format!("{}", a));
    }
    for _ in 0..c.n(500, 20000) {
        let n: u64 = match rng.gen_range(0, 3) {
            0 => rng.gen(),
            1 => u64::MAX - rng.gen_range(0, 5),
            _ => 1u64 << rng.gen_range(0, 64),
        };
        m.key(&[&BigUint::from(n)]);
        m.el("from_canonical_u64", F::from_canonical_u64(n), &BigUint::from(n), &[]);
        m.el("from_canonical_u32", F::from_canonical_u32(n as u32), &BigUint::from(n as u32), &[]);
        m.el("from_canonical_usize", F::from_canonical_usize(n as usize), &BigUint::from(n), &[]);
        m.el("from_canonical_bool", F::from_canonical_bool(n & 1 == 1), &BigUint::from(n & 1), &[]);
    }
    m.done();
    // ordering: all pairs of boundary values + sorted random
    let mut m = M::new(c, format!("ordering:{}", F::NAME));
    let bv = boundary_values(p);
    for a in &bv {
        for b in &bv {
            m.key(&[a, b]);
            m.b(F::mk(a).cmp(&F::mk(b)) == a.cmp(b), &s("cmp"), || format!("{} {}", a, b));
        }
    }
    for _ in 0..c.n(20000, 400_000) {
        let (a, b) = (hostile(&mut rng, p), hostile(&mut rng, p));
        m.key(&[&a, &b]);
        m.b(F::mk(&a).cmp(&F::mk(&b)) == a.cmp(&b) && F::mk(&a).partial_cmp(&F::mk(&b)) == Some(a.cmp(&b)), &s("cmp"), || format!("{} {}", a, b));
    }
    m.done();
    // invalid encodings
    let mut m = M::new(c, format!("invalid:{}", F::NAME));
    let max = (BigUint::one() << (8 * nb)) - 1u32;
    let mut bad: Vec<BigUint> = Vec::new();
    for i in 0..40u32 {
        bad.push(p + i);
        bad.push(&max - i);
    }
    for i in 0..8 * nb {
        let x = p + (BigUint::one() << i);
        if x <= max {
            bad.push(x);
        }
        let x = BigUint::one() << i;
        if &x >= p {
            bad.push(x);
        }
    }
    for v in bv.iter() {
        let x = p + v;
        if x <= max {
            bad.push(x);
        }
        bad.push(&max - v);
    }
    for _ in 0..c.n(1000, 40_000) {
        let b: Vec<u8> = (0..nb).map(|_| rng.gen()).collect();
        bad.push(BigUint::from_bytes_le(&b));
        bad.push(p + hostile(&mut rng, p));
        bad.push(p * 2u32 + rng.gen::<u32>());
    }
    for b in bad.iter().filter(|b| *b <= &max) {
        m.key(&[b]);
        let want = b < p;
        m.b(F::is_valid_canonical_u64(&to_limbs(b, F::RLIMBS)) == want, &s("validity"), || format!("{} want {}", b, want));
        match guard(|| F::from_canonical_u8_vec(bytes_le(b, nb))) {
            Ok(Ok(y)) => {
                m.b(want, &s("accepted-out-of-range"), || format!("{} -> {:?}", b, y));
            }
            Ok(Err(_)) => m.b(!want, &s("refused-valid"), || format!("{}", b)),
            Err(e) => m.b(false, &s("decode-crash"), || format!("{}: {}", b, e)),
        }
    }
    // wrong lengths
    for len in 0..nb + 20 {
        if len == nb {
            continue;
        }
        for fill in [0u8, 1, 255].iter() {
            m.key(&[&BigUint::from(len * 256 + *fill as usize)]);
            match guard(|| F::from_canonical_u8_vec(vec![*fill; len])) {
                Ok(r) => m.b(r.is_err(), &s("accepted-wrong-length"), || format!("{} bytes {}", len, fill)),
                Err(e) => m.b(false, &s("decode-crash-length"), || format!("{} bytes: {}", len, e)),
            }
        }
        if len <= 10 {
            m.b(F::is_valid_canonical_u64(&vec![0; len]) == (len == F::RLIMBS), &s("validity-len"), || format!("{}", len));
        }
    }
    m.done();
    // sampling: reduced, uses the whole range, never repeats, deterministic from a seed
    let mut m = M::new(c, format!("sampling:{}", F::NAME));
    let mut seen = std::collections::HashSet::new();
    let mut r1 = ChaCha8Rng::seed_from_u64(c.seed);
    let mut r2 = ChaCha8Rng::seed_from_u64(c.seed);
    let n = c.n(1500, 20_000);
    let mut buckets = [0u32; 8];
    let mut low = vec![0u32; 16];
    for i in 0..n {
        let x = if i % 2 == 0 { F::rand() } else { F::rand_from_rng(&mut r1) };
        if i % 2 == 1 {
            m.b(F::rand_from_rng(&mut r2) == x, &s("rand-det"), || format!("{}", i));
        }
        let raw = limbs(&x.raw());
        m.b(&raw < p, &s("rand-unreduced"), || format!("{}", raw));
        let v = x.val();
        m.key(&[&v]);
        m.b(seen.insert(v.clone()), &s("rand-repeat"), || format!("{}", v));
        let b = (&v * 8u32 / p).to_u32_digits().get(0).copied().unwrap_or(0);
        buckets[b as usize & 7] += 1;
        low[(&v % 16u32).to_u32_digits().get(0).copied().unwrap_or(0) as usize] += 1;
    }
    // each octile expects n/8; 0 < count far below expectation has negligible probability (< 2^-60)
    m.b(buckets.iter().all(|b| *b as usize > n / 16 && (*b as usize) < n / 4), &s("rand-range"), || format!("{:?}", buckets));
    m.b(low.iter().all(|b| *b as usize > n / 64 && (*b as usize) < n / 5), &s("rand-low-bits"), || format!("{:?}", low));
    c.sample(&format!("sampling:{}", F::NAME), || format!("octiles {:?}", buckets));
    m.done();
    // degenerate generators: the words they yield hit the prime and its neighbours exactly, in every alignment of the
    // unused top bits, then the generator turns honest; a sample must be reduced whatever the generator yields
    let mut m = M::new(c, format!("degenerate-generator:{}", F::NAME));
    let top = 64 * F::RLIMBS - p.bits() as usize;
    for d in 0..c.n(40, 400) as u32 {
        for sign in 0..2 {
            let v = if sign == 0 { p + d } else { p - d };
            for align in 0..5 {
                let whole = |x: BigUint| to_limbs(&x, F::RLIMBS);
                let ones = (BigUint::one() << top) - 1u32;
                let mut w = whole(v.clone());
                match align {
                    0 => {}
                    1 => w = whole(&v << top),
                    2 => w = whole((&v << top) + ones),
                    3 => w = whole(&v + (ones << p.bits() as usize)),
                    // only the top word carries its bits high, the others are plain
                    _ => w[F::RLIMBS - 1] <<= top,
                };
                // one to three hostile draws, the middle ones the prime itself
                let mut words = Vec::new();
                for j in 0..1 + d % 3 {
                    let mut x = w.clone();
                    if j == 1 {
                        x[0] = u64::MAX;
                    }
                    if align == 4 {
                        // low bits of the top limb are shifted out
                        x[F::RLIMBS - 1] |= rng.gen::<u64>() & ((1u64 << top) - 1);
                    }
                    words.extend(x);
                }
                m.key(&[&limbs(&words)]);
                let mut g = Scripted { words, pos: 0, then: ChaCha8Rng::seed_from_u64(d as u64) };
                match guard(|| F::rand_from_rng(&mut g)) {
                    Ok(x) => m.b(&limbs(&x.raw()) < p, &s("rand-unreduced"), || format!("generator near the order (distance {} sign {} align {}) gave {:?}", d, sign, align, x.raw())),
                    Err(e) => m.b(false, &s("rand-crash"), || e),
                }
            }
        }
    }
    m.done();
}

/// Yields the scripted words first, then an honest stream.
struct Scripted {
    words: Vec<u64>,
    pos: usize,
    then: ChaCha8Rng,
}
impl rand::RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.pos += 1;
        self.words.get(self.pos - 1).copied().unwrap_or_else(|| self.then.gen())
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

/// Conversions between fields: accepted iff the integer fits, value preserved.
fn conv<A: FieldSpec, B: FieldSpec>(c: &Ctx) {
    let mut rng = c.rng(&format!("conv-{}-{}", A::NAME, B::NAME));
    let mut m = M::new(c, "conversion".to_string());
    let sig = format!("conversion:{}->{}", A::NAME, B::NAME);
    let mut vals = boundary_values(A::pr());
    for v in boundary_values(B::pr()) {
        vals.push(v.clone() % A::pr());
        vals.push((v + B::pr()) % A::pr());
    }
    let (lo, hi) = if A::pr() < B::pr() { (A::pr(), B::pr()) } else { (B::pr(), A::pr()) };
    for i in 0..50u32 {
        // the gap between the two primes, where an element fits only one field
        vals.push((lo + ((hi - lo) * i) / 50u32) % A::pr());
        vals.push((lo + i) % A::pr());
        if lo > &BigUint::from(i) {
            vals.push((lo - i) % A::pr());
        }
    }
    for _ in 0..c.n(200, 5000) {
        vals.push(hostile(&mut rng, A::pr()));
    }
    for a in &vals {
        m.key(&[a, &BigUint::from(h64(&sig))]);
        let fits = a < B::pr();
        let r = guard(|| A::mk(a).try_convert::<B>());
        match r {
            Ok(Ok(y)) => {
                m.b(fits, &format!("{}:accepted", sig), || format!("{} -> {:?}", a, y));
                if fits {
                    m.el(&sig, y, a, &[a]);
                }
            }
            Ok(Err(_)) => m.b(!fits || A::BYTES != B::BYTES, &format!("{}:refused", sig), || format!("{}", a)),
            Err(e) => m.b(false, &format!("{}:crash", sig), || format!("{} {}", a, e)),
        }
    }
    // slices: all or nothing, in order
    if A::BYTES == B::BYTES {
        let good: Vec<BigUint> = vals.iter().filter(|v| *v < B::pr()).take(60).cloned().collect();
        let fs: Vec<A> = good.iter().map(A::mk).collect();
        match A::try_convert_all::<B>(&fs) {
            Ok(ys) => {
                m.b(ys.len() == fs.len(), &format!("{}:all-len", sig), || String::new());
                for (g, y) in good.iter().zip(ys) {
                    m.el(&sig, y, g, &[g]);
                }
            }
            Err(_) => m.b(false, &format!("{}:all-refused", sig), || String::new()),
        }
        if let Some(badv) = vals.iter().find(|v| *v >= B::pr()) {
            for pos in [0, fs.len() / 2, fs.len()].iter() {
                let mut g = fs.clone();
                g.insert(*pos, A::mk(badv));
                m.b(A::try_convert_all::<B>(&g).is_err(), &format!("{}:all-accepted", sig), || format!("pos {}", pos));
            }
        }
    }
    m.done();
}

fn main() {
    let id = std::env::args().nth(1).unwrap_or("C01".into());
    let c = Ctx::new(&id);
    let mut jobs: Vec<(String, fn(&Ctx))> = Vec::new();
    macro_rules! each { ($f:ident) => {{
        jobs.push((format!("{}:TweedledeeBase", stringify!($f)), $f::<TweedledeeBase>));
        jobs.push((format!("{}:TweedledumBase", stringify!($f)), $f::<TweedledumBase>));
        jobs.push((format!("{}:PallasBase", stringify!($f)), $f::<PallasBase>));
        jobs.push((format!("{}:VestaBase", stringify!($f)), $f::<VestaBase>));
        jobs.push((format!("{}:Bls12377Base", stringify!($f)), $f::<Bls12377Base>));
        jobs.push((format!("{}:Bls12377Scalar", stringify!($f)), $f::<Bls12377Scalar>));
    }} }
    macro_rules! convs { ($($a:ident),*) => { $( convs!(@ $a; TweedledeeBase, TweedledumBase, PallasBase, VestaBase, Bls12377Base, Bls12377Scalar); )* };
        (@ $a:ident; $($b:ident),*) => { $( jobs.push((format!("conv:{}:{}", stringify!($a), stringify!($b)), conv::<$a, $b>)); )* } }
    match id.as_str() {
        "C01" => {
            each!(c01);
            for f in &["TweedledeeBase", "TweedledumBase", "PallasBase", "VestaBase", "Bls12377Base", "Bls12377Scalar"] {
                c.require(&format!("boundary-pairs:{}", f), 5000);
                c.require(&format!("hostile:{}", f), 20000);
                c.require(&format!("powers:{}", f), 300);
            }
            c.assume("num::BigUint arithmetic is correct; the moduli written in harness/src/big.rs are the published ones");
        }
        "C02" => {
            each!(c02);
            convs!(TweedledeeBase, TweedledumBase, PallasBase, VestaBase, Bls12377Base, Bls12377Scalar);
            c.require("conversion", 5000);
            c.assume("octile frequencies of 1500 uniform samples stay within [n/16, n/4] (failure probability below 2^-60)");
        }
        _ => panic!("unknown property"),
    }
    jobs.into_par_iter().for_each(|(n, f)| c.section(&n, |c| f(c)));
    let _ = 0usize.to_u64();
    c.finish()
}
