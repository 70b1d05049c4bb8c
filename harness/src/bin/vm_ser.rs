//! C07: serialised values round-trip, stay aligned in streams, and malformed bytes are refused.
use num::{BigUint, One, Zero};
use plonky::*;
use rand::Rng;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_cbor::Value;
use vmon::big::*;
use vmon::refs::*;
use vmon::*;

/// A reader that hands out at most `step` bytes per call and counts what was taken.
struct Drip<'a> {
    buf: &'a [u8],
    pos: usize,
    step: usize,
}
impl<'a> std::io::Read for Drip<'a> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let n = out.len().min(self.step).min(self.buf.len() - self.pos);
        out[..n].copy_from_slice(&self.buf[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
/// A writer that accepts at most `step` bytes per call.
struct DripW {
    buf: Vec<u8>,
    step: usize,
}
impl std::io::Write for DripW {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.step);
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn le(v: &BigUint, n: usize) -> Vec<u8> {
    let mut b = v.to_bytes_le();
    if v.is_zero() {
        b.clear();
    }
    b.resize(n, 0);
    b
}

fn fields<F: FieldSpec>(c: &Ctx) {
    let s = |x: &str| format!("{}/{}", x, F::NAME);
    let mut rng = c.rng(&format!("f{}", F::NAME));
    let n = F::RLIMBS * 8;
    let p = F::pr();
    let mut vals = boundary_values(p);
    for _ in 0..c.n(200, 4000) {
        vals.push(rf::<F>(&mut rng).val());
    }
    for v in &vals {
        let x = F::mk(v);
        let d = || format!("{} value {}", F::NAME, v);
        c.ev(&s("field-roundtrip"), v, true);
        c.case(&s("field-roundtrip"), d, || {
            let mut buf = Vec::new();
            x.write(&mut buf).unwrap();
            c.check(buf == le(v, n), &s("field-bytes"), d);
            let mut dr = Drip { buf: &buf, pos: 0, step: rng.gen_range(1, n + 2) };
            match F::read(&mut dr) {
                Ok(y) => c.check(y.val() == *v && y == x, &s("field-roundtrip"), d),
                Err(e) => c.check(false, &s("field-roundtrip"), || format!("{} refused: {}", d(), e)),
            };
            c.check(dr.pos == n, &s("field-consumed"), || format!("{} consumed {} of {}", d(), dr.pos, n));
            let mut w = DripW { buf: vec![], step: 3 };
            x.write(&mut w).unwrap();
            c.check(w.buf == buf, &s("field-partial-write"), d);
        });
    }
    // hostile byte strings: integer value decides acceptance
    let mut hostile: Vec<BigUint> = Vec::new();
    let top = BigUint::one() << (8 * n);
    for k in 0..60u32 {
        hostile.push(p + k);
        hostile.push(p * 2u32 + k);
        if (p * 3u32 + k) < top {
            hostile.push(p * 3u32 + k);
        }
        hostile.push(&top - 1u32 - k);
        hostile.push(p - 1u32 - k);
    }
    for b in 0..(8 * n) {
        hostile.push(BigUint::one() << b);
        hostile.push(p + (BigUint::one() << b));
        if (BigUint::one() << b) < *p {
            hostile.push(p - (BigUint::one() << b));
        }
    }
    for _ in 0..c.n(300, 6000) {
        let bytes: Vec<u8> = (0..n).map(|_| rng.gen()).collect();
        hostile.push(BigUint::from_bytes_le(&bytes));
        hostile.push(p + rf::<F>(&mut rng).val() % (&top - p));
        // one limb of the modulus replaced
        let mut l = to_limbs(p, F::RLIMBS);
        let i = rng.gen_range(0, l.len());
        l[i] = match rng.gen_range(0, 4) {
            0 => l[i].wrapping_add(1),
            1 => l[i].wrapping_sub(1),
            2 => u64::MAX,
            _ => rng.gen(),
        };
        hostile.push(limbs(&l));
    }
    for v in hostile.iter().filter(|v| **v < top) {
        c.ev(&s("field-hostile"), v, true);
        let d = || format!("{} bytes of {}", F::NAME, v);
        match guard(|| F::read(&le(v, n)[..])) {
            Err(e) => c.viol(&s("field-reader-crash"), format!("{}: {}", d(), e)),
            Ok(Ok(x)) => {
                c.check(v < p, &s("field-noncanonical-accepted"), d);
                c.check(x.val() == *v, &s("field-decoded-value"), d);
            }
            Ok(Err(_)) => {
                c.check(v >= p, &s("field-valid-refused"), d);
            }
        }
    }
    for len in 0..n {
        let b = le(&vals[len % vals.len()], n);
        c.ev(&s("field-truncated"), &len, true);
        match guard(|| F::read(&b[..len])) {
            Err(e) => c.viol(&s("field-reader-crash"), format!("{} truncated {}: {}", F::NAME, len, e)),
            Ok(r) => {
                c.check(r.is_err(), &s("field-truncated-accepted"), || format!("{} {}", F::NAME, len));
            }
        }
    }
    // CBOR byte strings of every length
    for len in 0..(n + 20) {
        let mut b = le(&vals[len % vals.len()], n);
        b.resize(len, 0);
        let mut cb = cbor_bytes(&b);
        c.ev(&s("field-cbor-length"), &len, true);
        match guard(|| serde_cbor::from_slice::<F>(&cb)) {
            Err(e) => c.viol(&s("field-cbor-crash"), format!("{} len {}: {}", F::NAME, len, e)),
            Ok(r) => {
                c.check(r.is_ok() == (len == n), &s("field-cbor-length"), || format!("{} byte string of length {} gives ok={}", F::NAME, len, r.is_ok()));
            }
        }
        cb.truncate(cb.len().saturating_sub(1));
        match guard(|| serde_cbor::from_slice::<F>(&cb)) {
            Err(e) => c.viol(&s("field-cbor-crash"), format!("{} cut len {}: {}", F::NAME, len, e)),
            Ok(r) => {
                c.check(r.is_err(), &s("field-cbor-cut"), || format!("{} cut byte string accepted, len {}", F::NAME, len));
            }
        }
    }
    c.sample(&s("field-hostile"), || format!("p+k, 2p+k, p+2^b, limb-altered p, random bytes; e.g. {}", p + 1u32));
}

fn cbor_bytes(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    if b.len() < 24 {
        o.push(0x40 + b.len() as u8);
    } else if b.len() < 256 {
        o.push(0x58);
        o.push(b.len() as u8);
    } else {
        o.push(0x59);
        o.push((b.len() >> 8) as u8);
        o.push(b.len() as u8);
    }
    o.extend_from_slice(b);
    o
}

fn points<C: Curve>(c: &Ctx, name: &str)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let s = |x: &str| format!("{}/{}", x, name);
    let mut rng = c.rng(name);
    let rc = RefCurve::of::<C>();
    let n = <C::BaseField as FieldSpec>::RLIMBS * 8;
    let p = <C::BaseField as FieldSpec>::pr();
    let g = pt(&C::GENERATOR_AFFINE);
    let mut pts: Vec<Pt> = vec![None, g.clone(), rc.neg(&g)];
    let mut q = g.clone();
    for i in 0..c.n(120, 1500) {
        let k = BigUint::from(rng.gen::<u64>() >> (i % 60));
        q = rc.add(&q, &if i % 3 == 0 { rc.mul(&k, &g) } else { g.clone() });
        pts.push(q.clone());
        pts.push(rc.neg(&q));
    }
    // points of order two, if any (y = 0)
    let mut two = None;
    for x in 0..50u32 {
        let x = subm(&BigUint::from(25u32), &BigUint::from(x), p);
        let cand = Some((x, BigUint::zero()));
        if rc.on(&cand) {
            two = Some(cand);
        }
    }
    if let Some(t) = &two {
        pts.push(t.clone());
        c.note(format!("{}: includes a point of order two", name));
    }
    for q in &pts {
        let a = aff::<C>(q);
        let d = || format!("{} point {:?}", name, q);
        c.ev(&s("point-roundtrip"), q, q.is_some());
        c.case(&s("point-roundtrip"), d, || {
            let mut buf = Vec::new();
            a.write(&mut buf).unwrap();
            let step = rng.gen_range(1, n + 2);
            let mut dr = Drip { buf: &buf, pos: 0, step };
            match AffinePoint::<C>::read(&mut dr) {
                Ok(b) => c.check(pt(&b) == *q && b == a, &s("point-roundtrip"), || format!("{} decoded {:?}", d(), b)),
                Err(e) => c.check(false, &s("point-roundtrip"), || format!("{} refused: {}", d(), e)),
            };
            c.check(dr.pos == buf.len(), &s("point-consumed"), || format!("{} wrote {} bytes, reader consumed {}", d(), buf.len(), dr.pos));
            let cb = serde_cbor::to_vec(&a).unwrap();
            let b: AffinePoint<C> = serde_cbor::from_slice(&cb).unwrap();
            c.check(pt(&b) == *q, &s("point-cbor"), d);
            let b: AffinePoint<C> = serde_cbor::from_reader(&cb[..]).unwrap();
            c.check(pt(&b) == *q, &s("point-cbor-reader"), d);
            let fine = AffinePoint::<C>::read(&buf[..buf.len() - 1]).is_err();
            c.check(fine, &s("point-truncated-accepted"), d);
        });
    }
    // every first byte with every kind of x: an accepted string must be exactly what the decoded point writes
    let mut xs: Vec<BigUint> = vec![BigUint::zero(), BigUint::one(), p.clone(), p - 1u32, p + 1u32, (BigUint::one() << (8 * n)) - 1u32];
    for q in pts.iter().take(14) {
        if let Some((x, _)) = q {
            xs.push(x.clone());
            xs.push(x + p);
        }
    }
    if let Some(Some((x, _))) = &two {
        xs.push(x.clone());
    }
    for _ in 0..c.n(20, 200) {
        xs.push(rf::<C::BaseField>(&mut rng).val());
    }
    let top = BigUint::one() << (8 * n);
    for (i, x) in xs.iter().filter(|x| **x < top).enumerate() {
        let masks: Vec<u8> = if i < 20 { (0..=255u8).collect() } else { vec![0, 1, 2, 3, 4, 6, 128, 130, rng.gen(), rng.gen()] };
        for m in masks {
            let mut b = vec![m];
            b.extend(le(x, n));
            let d = || format!("{} mask {} x {}", name, m, x);
            c.ev(&s("point-hostile"), &(m, x), true);
            match guard(|| AffinePoint::<C>::read(&b[..])) {
                Err(e) => c.viol(&s("point-reader-crash"), format!("{}: {}", d(), e)),
                Ok(Err(_)) => {
                    // must not refuse a canonical encoding
                    let rhs = (x * x * x + C::A.val() * x + C::B.val()) % p;
                    let canonical = (m == 1 && x.is_zero()) || (x < p && ((m == 0 && is_qr(&rhs, p)) || (m == 2 && is_qr(&rhs, p) && !rhs.is_zero())));
                    c.check(!canonical, &s("point-valid-refused"), d);
                }
                Ok(Ok(q)) => {
                    let v = pt(&q);
                    c.check(rc.on(&v), &s("point-offcurve-accepted"), d);
                    let mut w = Vec::new();
                    let _ = q.write(&mut w);
                    c.check(w == b, &s("point-noncanonical-accepted"), || format!("{} decoded to {:?}, whose encoding differs", d(), v));
                }
            }
        }
    }
    for len in 0..(n + 12) {
        let mut buf = Vec::new();
        aff::<C>(&pts[len % pts.len()]).write(&mut buf).unwrap();
        let full = buf.len();
        buf.resize(len, 0);
        c.ev(&s("point-cbor-length"), &len, true);
        match guard(|| serde_cbor::from_slice::<AffinePoint<C>>(&cbor_bytes(&buf))) {
            Err(e) => c.viol(&s("point-cbor-crash"), format!("{} len {}: {}", name, len, e)),
            Ok(r) => {
                c.check(r.is_ok() == (len == full), &s("point-cbor-length"), || format!("{} byte string of length {} gives ok={}", name, len, r.is_ok()));
            }
        }
    }
    // mixed streams stay aligned
    for i in 0..c.n(60, 600) {
        let n = rng.gen_range(1, 12);
        let seq: Vec<(usize, Pt, BigUint, BigUint)> = (0..n)
            .map(|_| (rng.gen_range(0, 3), if rng.gen_range(0, 4) == 0 { None } else { pts[rng.gen_range(0, pts.len())].clone() }, rf::<C::BaseField>(&mut rng).val(), rf::<C::ScalarField>(&mut rng).val()))
            .collect();
        c.ev(&s("stream"), &(i, &seq), true);
        let d = || format!("{} stream {:?}", name, seq.iter().map(|t| (t.0, t.1.is_none())).collect::<Vec<_>>());
        c.case(&s("stream"), d, || {
            let mut buf = Vec::new();
            for (k, q, b, sc) in &seq {
                match k {
                    0 => aff::<C>(q).write(&mut buf).unwrap(),
                    1 => C::BaseField::mk(b).write(&mut buf).unwrap(),
                    _ => C::ScalarField::mk(sc).write(&mut buf).unwrap(),
                }
            }
            let mut r = Drip { buf: &buf, pos: 0, step: rng.gen_range(1, 40) };
            let mut ok = true;
            for (k, q, b, sc) in &seq {
                ok &= match k {
                    0 => AffinePoint::<C>::read(&mut r).map(|v| pt(&v) == *q).unwrap_or(false),
                    1 => C::BaseField::read(&mut r).map(|v| v.val() == *b).unwrap_or(false),
                    _ => C::ScalarField::read(&mut r).map(|v| v.val() == *sc).unwrap_or(false),
                };
            }
            c.check(ok && r.pos == buf.len(), &s("stream"), d);
        });
    }
    c.sample(&s("stream"), || "sequences of points (1/4 identity), base and scalar elements written back to back".into());
}

/// Positions of byte-string payloads in a CBOR document (definite lengths, as serde_cbor writes them).
fn payloads(b: &[u8]) -> Vec<(usize, usize)> {
    fn item(b: &[u8], mut i: usize, out: &mut Vec<(usize, usize)>) -> usize {
        let h = b[i];
        let (maj, add) = (h >> 5, h & 31);
        i += 1;
        let mut arg = add as u64;
        if add >= 24 && add <= 27 {
            let k = 1usize << (add - 24);
            arg = 0;
            for _ in 0..k {
                arg = arg << 8 | b[i] as u64;
                i += 1;
            }
        }
        match maj {
            2 => {
                out.push((i, i + arg as usize));
                i += arg as usize;
            }
            3 => i += arg as usize,
            4 => {
                for _ in 0..arg {
                    i = item(b, i, out);
                }
            }
            5 => {
                for _ in 0..2 * arg {
                    i = item(b, i, out);
                }
            }
            _ => {}
        }
        i
    }
    let mut out = Vec::new();
    let end = item(b, 0, &mut out);
    assert_eq!(end, b.len());
    out
}

enum Slot {
    Key(Value),
    At(usize),
}
impl Clone for Slot {
    fn clone(&self) -> Self {
        match self {
            Slot::Key(k) => Slot::Key(k.clone()),
            Slot::At(i) => Slot::At(*i),
        }
    }
}

fn slots(v: &Value, at: &mut Vec<Slot>, out: &mut Vec<Vec<Slot>>) {
    let mut go = |s: Slot, w: &Value| {
        at.push(s);
        out.push(at.clone());
        slots(w, at, out);
        at.pop();
    };
    match v {
        Value::Map(m) => m.iter().for_each(|(k, w)| go(Slot::Key(k.clone()), w)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, w)| go(Slot::At(i), w)),
        _ => {}
    }
}

fn doc<T: Serialize + DeserializeOwned + PartialEq>(c: &Ctx, sig: &str, v: &T, valid: impl Fn(&T) -> bool, budget: usize) {
    let mut rng = c.rng(sig);
    let b = match guard(|| serde_cbor::to_vec(v)) {
        Ok(Ok(b)) => b,
        e => {
            c.viol(&format!("{}-write", sig), format!("{:?}", e.map(|x| x.map(|_| ()))));
            return;
        }
    };
    c.ev(&format!("{}-roundtrip", sig), &b, true);
    match guard(|| serde_cbor::from_slice::<T>(&b)) {
        Ok(Ok(w)) => {
            c.check(&w == v, &format!("{}-roundtrip", sig), || "decoded value differs".into());
            c.check(valid(&w), &format!("{}-valid", sig), || "decoded value is not valid".into());
            c.check(serde_cbor::to_vec(&w).map(|x| x == b).unwrap_or(false), &format!("{}-reencode", sig), || "second encoding differs".into());
        }
        Ok(Err(e)) => c.viol(&format!("{}-roundtrip", sig), format!("refused: {}", e)),
        Err(e) => c.viol(&format!("{}-roundtrip", sig), e),
    }
    let pl = payloads(&b);
    let inside = |i: usize| pl.iter().any(|(a, z)| i >= *a && i < *z);
    for k in 0..budget {
        let mut m = b.clone();
        let mut only_payload = true;
        let what;
        match k % 5 {
            0 => {
                // one bit
                let i = if rng.gen() { let p = pl[rng.gen_range(0, pl.len())]; rng.gen_range(p.0, p.1) } else { rng.gen_range(0, m.len()) };
                let bit = 1u8 << rng.gen_range(0, 8);
                m[i] ^= bit;
                only_payload = inside(i);
                what = format!("bit {:02x} of byte {}", bit, i);
            }
            1 => {
                let cut = rng.gen_range(0, m.len());
                m.truncate(cut);
                only_payload = true;
                what = format!("cut at {}", cut);
            }
            2 => {
                // a payload byte run set to ff
                let p = pl[rng.gen_range(0, pl.len())];
                let from = rng.gen_range(p.0, p.1);
                for x in m[from..p.1].iter_mut() {
                    *x = 0xff;
                }
                what = format!("ff from {} to {}", from, p.1);
            }
            3 => {
                // mask byte of a point, or first byte of an element
                let p = pl[rng.gen_range(0, pl.len())];
                m[p.0] = m[p.0].wrapping_add(rng.gen_range(1, 255));
                what = format!("first byte of payload at {}", p.0);
            }
            _ => {
                for _ in 0..rng.gen_range(1, 6) {
                    let i = rng.gen_range(0, m.len());
                    m[i] = rng.gen();
                }
                only_payload = false;
                what = "random bytes".into();
            }
        }
        if m == b {
            continue;
        }
        c.ev(&format!("{}-mutated", sig), &m, true);
        match guard(|| serde_cbor::from_slice::<T>(&m)) {
            Err(e) => c.viol(&format!("{}-reader-crash", sig), format!("{}: {}", what, e)),
            Ok(Ok(w)) => {
                c.check(valid(&w), &format!("{}-invalid-accepted", sig), || format!("{}: decoded an invalid value", what));
                if only_payload {
                    c.check(&w != v, &format!("{}-not-unique", sig), || format!("{}: altered bytes decode to the same value", what));
                    c.check(serde_cbor::to_vec(&w).map(|x| x == m).unwrap_or(false), &format!("{}-noncanonical", sig), || format!("{}: accepted bytes are not the encoding of the decoded value", what));
                }
            }
            Ok(Err(_)) => {}
        }
    }
    // whole fields and list entries removed, repeated or exchanged
    if b.len() < 200_000 {
        if let Ok(root) = serde_cbor::from_slice::<Value>(&b) {
            let mut paths = vec![];
            slots(&root, &mut vec![], &mut paths);
            let n = paths.len();
            for k in 0..budget.min(3 * n) {
                let path = if budget >= 3 * n { &paths[k / 3] } else { &paths[rng.gen_range(0, n)] };
                let mut r = root.clone();
                let (parent, key) = (&path[..path.len() - 1], &path[path.len() - 1]);
                let mut node = &mut r;
                for s in parent {
                    node = match (node, s) {
                        (Value::Map(m), Slot::Key(k)) => m.get_mut(k).unwrap(),
                        (Value::Array(a), Slot::At(i)) => &mut a[*i],
                        _ => unreachable!(),
                    };
                }
                let what;
                let mut null = false;
                match (node, key) {
                    (Value::Map(m), Slot::Key(x)) => {
                        if k % 3 == 0 {
                            null = m.remove(x) == Some(Value::Null);
                            what = format!("field {:?} removed", x);
                        } else {
                            // the value of a sibling
                            let o = m.values().nth(rng.gen_range(0, m.len())).unwrap().clone();
                            *m.get_mut(x).unwrap() = o;
                            what = format!("field {:?} replaced by a sibling's value", x);
                        }
                    }
                    (Value::Array(a), Slot::At(i)) => match k % 3 {
                        0 => { a.remove(*i); what = format!("entry {} removed", i); }
                        1 => { let x = a[*i].clone(); a.insert(*i, x); what = format!("entry {} repeated", i); }
                        _ => { let j = rng.gen_range(0, a.len()); a.swap(*i, j); what = format!("entries {} and {} exchanged", i, j); }
                    },
                    _ => unreachable!(),
                }
                if r == root || null {
                    continue;
                }
                let m = serde_cbor::to_vec(&r).unwrap();
                c.ev(&format!("{}-restructured", sig), &m, true);
                match guard(|| serde_cbor::from_slice::<T>(&m)) {
                    Err(e) => c.viol(&format!("{}-reader-crash", sig), format!("{}: {}", what, e)),
                    Ok(Ok(w)) => {
                        c.check(valid(&w), &format!("{}-invalid-accepted", sig), || format!("{}: decoded an invalid value", what));
                        c.check(&w != v, &format!("{}-not-unique", sig), || format!("{}: decodes to the same value", what));
                    }
                    Ok(Err(_)) => {}
                }
            }
        }
    }
    c.sample(&format!("{}-mutated", sig), || format!("document of {} bytes with {} byte strings; bit flips, cuts, ff runs, header bytes, random bytes", b.len(), pl.len()));
}

fn proofs<C: HaloCurve + Default + Serialize + DeserializeOwned + PartialEq, I: HaloCurve<BaseField = C::ScalarField>>(c: &Ctx, name: &str)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let s = |x: &str| format!("{}/{}", x, name);
    let rc = RefCurve::of::<C>();
    let mut b = CircuitBuilder::<C>::new(128);
    let pis = b.add_public_inputs(4);
    let mut acc = b.one_wire();
    for &t in &pis {
        acc = b.mul_add(acc, t, t);
    }
    let circuit = b.build();
    let mut w = PartialWitness::new();
    for (i, &t) in pis.iter().enumerate() {
        w.set_target(t, C::ScalarField::from_canonical_usize(3 + i));
    }
    let w = circuit.generate_witness(w);
    let proof = circuit.generate_proof::<I>(&w, &[], true).unwrap();
    let vk = circuit.to_vk();
    let fok = |f: &C::ScalarField| limbs(&f.raw()) < *<C::ScalarField as FieldSpec>::pr();
    let pok = |p: &AffinePoint<C>| rc.on(&pt(p)) && limbs(&p.x.raw()) < *<C::BaseField as FieldSpec>::pr() && limbs(&p.y.raw()) < *<C::BaseField as FieldSpec>::pr();
    let sok = |o: &OpeningSet<C::ScalarField>| o.to_vec().iter().all(|f| fok(f));
    let prok = |p: &Proof<C>| {
        p.c_wires.iter().all(|x| pok(x))
            && pok(&p.c_plonk_z)
            && p.c_plonk_t.iter().all(|x| pok(x))
            && pok(&p.c_pis_quotient)
            && sok(&p.o_local)
            && sok(&p.o_right)
            && sok(&p.o_below)
            && p.halo_l.iter().all(|x| pok(x))
            && p.halo_r.iter().all(|x| pok(x))
            && pok(&p.halo_g)
            && pok(&p.schnorr_proof.r)
            && fok(&p.schnorr_proof.z1)
            && fok(&p.schnorr_proof.z2)
    };
    doc(c, &s("proof"), &proof, &prok, c.n(400, 15000));
    // proofs with earlier proofs attached, and of circuits without public inputs or blinding
    let olds: Vec<OldProof<C>> = (0..3)
        .map(|i| {
            let p = circuit.generate_proof::<I>(&w, &[], i != 1).unwrap();
            verify_proof::<C, I>(&circuit.get_public_inputs(&w), &p, &[], &vk, false).unwrap().unwrap()
        })
        .collect();
    for n in 1..=3 {
        let p = circuit.generate_proof::<I>(&w, &olds[..n], n == 2).unwrap();
        doc(c, &s(&format!("proof-absorbing-{}", n)), &p, &prok, c.n(60, 3000));
        doc(c, &s("openings-absorbing"), &p.o_right, &sok, c.n(30, 1000));
        let p2: Result<Proof<C>, _> = serde_cbor::to_vec(&p).and_then(|b| serde_cbor::from_slice(&b));
        let pv = circuit.get_public_inputs(&w);
        c.ev(&s("decoded-verifies"), &(n + 1), true);
        let r = guard(|| p2.map_err(|e| e.to_string()).map(|p2| verify_proof::<C, I>(&pv, &p2, &olds[..n], &vk, true).is_ok()));
        c.check(r == Ok(Ok(true)), &s("decoded-verifies"), || format!("absorbing {}: {:?}", n, r));
    }
    {
        let mut b = CircuitBuilder::<C>::new(128);
        for _ in 0..20 {
            let k = b.num_gates();
            b.add_gate_no_constants(BufferGate::new(k));
        }
        let circuit = b.build();
        let w = circuit.generate_witness(PartialWitness::new());
        let p = circuit.generate_proof::<I>(&w, &[], false).unwrap();
        doc(c, &s("proof-of-nothing"), &p, |_| true, c.n(60, 3000));
        let mut v = circuit.to_vk();
        v.clear_all();
        doc(c, &s("vk-of-nothing"), &v, |_| true, c.n(60, 3000));
    }
    let pre: FftPrecomputation<C::ScalarField> = fft_precompute(8);
    doc(c, &s("fft-table"), &pre, |_| true, c.n(100, 2000));
    let pre = msm_precompute(&[C::GENERATOR_PROJECTIVE, C::GENERATOR_PROJECTIVE.double()], 4);
    doc(c, &s("msm-table"), &pre, |_| true, c.n(40, 400));
    doc(c, &s("schnorr"), &proof.schnorr_proof, |p| pok(&p.r) && fok(&p.z1) && fok(&p.z2), c.n(150, 3000));
    doc(c, &s("openings"), &proof.o_below, &sok, c.n(200, 3000));
    let vkok = |v: &VerificationKey<C>| v.c_constants.iter().all(|x| pok(x)) && v.c_s_sigmas.iter().all(|x| pok(x));
    let mut bare = vk.clone();
    bare.clear_all();
    doc(c, &s("vk-bare"), &bare, &vkok, c.n(250, 6000));
    let mut nomsm = vk.clone();
    nomsm.clear_msm_precomputation();
    doc(c, &s("vk-fft"), &nomsm, &vkok, c.n(60, 600));
    doc(c, &s("vk"), &vk, &vkok, c.n(1, 10));
    // identity commitments inside proofs survive the trip and what follows them stays aligned
    let mut z = proof.clone();
    z.c_wires[1] = AffinePoint::ZERO;
    z.halo_l[0] = AffinePoint::ZERO;
    z.schnorr_proof.r = AffinePoint::ZERO;
    doc(c, &s("proof-with-identity"), &z, &prok, c.n(120, 2000));
    // the decoded key and proof still work
    let v2: VerificationKey<C> = serde_cbor::from_slice(&serde_cbor::to_vec(&bare).unwrap()).unwrap();
    let p2: Proof<C> = serde_cbor::from_slice(&serde_cbor::to_vec(&proof).unwrap()).unwrap();
    let pv = circuit.get_public_inputs(&w);
    c.ev(&s("decoded-verifies"), &1, true);
    let r = guard(|| verify_proof::<C, I>(&pv, &p2, &[], &v2, true).is_ok());
    c.check(r == Ok(true), &s("decoded-verifies"), || format!("{:?}", r));
}

fn main() {
    let c = Ctx::new("C07");
    c.section("fields", |c| {
        fields::<TweedledeeBase>(c);
        fields::<TweedledumBase>(c);
        fields::<PallasBase>(c);
        fields::<VestaBase>(c);
        fields::<Bls12377Base>(c);
        fields::<Bls12377Scalar>(c);
    });
    c.section("points", |c| {
        points::<Tweedledee>(c, "Tweedledee");
        points::<Tweedledum>(c, "Tweedledum");
        points::<Pallas>(c, "Pallas");
        points::<Vesta>(c, "Vesta");
        points::<Bls12377>(c, "Bls12377");
    });
    c.section("proofs", |c| {
        rayon::join(
            || rayon::join(|| proofs::<Tweedledee, Tweedledum>(c, "Tweedledee"), || proofs::<Tweedledum, Tweedledee>(c, "Tweedledum")),
            || rayon::join(|| proofs::<Pallas, Vesta>(c, "Pallas"), || proofs::<Vesta, Pallas>(c, "Vesta")),
        );
    });
    c.assume("CBOR (serde_cbor) is the container; uniqueness is judged inside byte-string payloads, where this library decides");
    c.finish()
}
