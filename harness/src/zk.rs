//! Circuit observation: which assignments a built circuit really accepts (gate constraints on every row plus
//! the copy cycles encoded in its sigma polynomials), an independent statement of what each gate means, a
//! cheating witness solver, and a generator of random circuits that tracks natively what they compute.
use crate::big::*;
use crate::refs::*;
use crate::*;
use num::{BigUint, One, Zero};
use plonky::*;
use rand::Rng;
use std::collections::HashMap;

pub type SF<C> = <C as Curve>::ScalarField;
pub const NW: usize = 9;
pub const NR: usize = 6;
pub const GRID: usize = 65;

/// The copy constraints a circuit really enforces, decoded from its permutation polynomials.
#[derive(Clone)]
pub struct Enforced<F: Field> {
    pub n: usize,
    /// sigma over the index j * n + i of routed wire (row i, column j)
    pub perm: Vec<usize>,
    pub cycles: Vec<Vec<usize>>,
    /// cycle of each index
    pub cyc_of: Vec<usize>,
    pub shifts: Vec<F>,
}

/// How many rows every circuit ends with that hold nothing but random values: those of an empty circuit.
pub fn blind_rows<C: HaloCurve>() -> usize {
    use once_map::*;
    get(std::any::type_name::<C>(), || CircuitBuilder::<C>::new(128).build().num_gates_without_pis)
}

/// Which of their routed wires are copies of each other: (row, column) pairs, rows counted from the first of them.
pub fn blind_joins<C: HaloCurve>() -> Vec<((usize, usize), (usize, usize))> {
    let c = CircuitBuilder::<C>::new(128).build();
    let (n, nb) = (c.degree(), c.num_gates_without_pis);
    let e = match decode_sigma(&c) {
        Ok(e) => e,
        Err(_) => return vec![],
    };
    let mut v = vec![];
    for cy in &e.cycles {
        let at: Vec<(usize, usize)> = cy.iter().map(|&k| (k % n, k / n)).filter(|x| x.0 < nb).collect();
        v.extend(at.windows(2).map(|w| (w[0], w[1])));
    }
    v
}

mod once_map {
    use std::collections::HashMap;
    use std::sync::Mutex;
    static mut M: Option<Mutex<HashMap<&'static str, usize>>> = None;
    static I: std::sync::Once = std::sync::Once::new();
    pub fn get(k: &'static str, f: impl FnOnce() -> usize) -> usize {
        // written once, before any use
        let m = unsafe {
            I.call_once(|| M = Some(Mutex::new(HashMap::new())));
            M.as_ref().unwrap()
        };
        if let Some(&v) = m.lock().unwrap().get(k) {
            return v;
        }
        let v = f();
        m.lock().unwrap().insert(k, v);
        v
    }
}

/// The coset multipliers, taken from a never-copied blinding row (fixed points of sigma).
pub fn decode_sigma<C: HaloCurve>(c: &Circuit<C>) -> Result<Enforced<SF<C>>, String> {
    let n = c.degree();
    if c.s_sigma_values_8n.len() != NR {
        return Err(format!("{} sigma columns", c.s_sigma_values_8n.len()));
    }
    let row = c.num_gates_without_pis - 2;
    let mut shifts = Vec::new();
    for j in 0..NR {
        let x = c.s_sigma_values_8n[j][8 * row];
        shifts.push(x / c.subgroup_n[row]);
    }
    let mut labels: HashMap<SF<C>, usize> = HashMap::new();
    for j in 0..NR {
        let mut g = shifts[j];
        for i in 0..n {
            if let Some(o) = labels.insert(g, j * n + i) {
                return Err(format!("identity labels of wires {} and {} coincide", o, j * n + i));
            }
            g = g * c.subgroup_generator_n;
        }
    }
    let mut perm = vec![usize::MAX; NR * n];
    let mut hit = vec![false; NR * n];
    for j in 0..NR {
        for i in 0..n {
            let x = c.s_sigma_values_8n[j][8 * i];
            let t = match labels.get(&x) {
                Some(&t) => t,
                None => return Err(format!("sigma label of row {} column {} is no identity label", i, j)),
            };
            if hit[t] {
                return Err(format!("two routed wires map to the same label {}", t));
            }
            hit[t] = true;
            perm[j * n + i] = t;
        }
    }
    let mut cyc_of = vec![usize::MAX; NR * n];
    let mut cycles = Vec::new();
    for s in 0..NR * n {
        if cyc_of[s] != usize::MAX {
            continue;
        }
        let mut cyc = Vec::new();
        let mut k = s;
        while cyc_of[k] == usize::MAX {
            cyc_of[k] = cycles.len();
            cyc.push(k);
            k = perm[k];
        }
        cycles.push(cyc);
    }
    Ok(Enforced { n, perm, cycles, cyc_of, shifts })
}

pub fn rows_of<F: Field>(w: &Witness<F>, n: usize) -> Vec<Vec<F>> {
    (0..n).map(|i| (0..NW).map(|j| w.get_indices(i, j)).collect()).collect()
}

/// Does the circuit accept this assignment? Returns the first violated constraint. With `base`, only rows that
/// can differ from that (already accepted) assignment are evaluated.
pub fn unsat<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(
    c: &Circuit<C>,
    e: &Enforced<SF<C>>,
    rows: &[Vec<SF<C>>],
    base: Option<&[Vec<SF<C>>]>,
) -> Option<String> {
    let n = e.n;
    for cyc in &e.cycles {
        if cyc.len() > 1 {
            let v = rows[cyc[0] % n][cyc[0] / n];
            for &k in &cyc[1..] {
                if rows[k % n][k / n] != v {
                    return Some(format!("copy row {} col {} != row {} col {}", cyc[0] % n, cyc[0] / n, k % n, k / n));
                }
            }
        }
    }
    let mut todo = vec![base.is_none(); n];
    if let Some(b) = base {
        for i in 0..n {
            if rows[i] != b[i] {
                todo[i] = true;
                todo[(i + n - 1) % n] = true;
                todo[(i + n - GRID % n) % n] = true;
            }
        }
    }
    for i in 0..n {
        if todo[i] {
            let v = evaluate_all_constraints::<C, I>(&c.gate_constants[i], &rows[i], &rows[(i + 1) % n], &rows[(i + GRID) % n]);
            if let Some(k) = v.iter().position(|x| !x.is_zero()) {
                return Some(format!("row {} ({}) constraint {}", i, gate_name(&c.gate_constants[i]), k));
            }
        }
    }
    None
}

pub const GATES: [(&str, &[u8]); 10] = [
    ("PublicInput", &[1, 0, 1, 0, 0, 1]),
    ("CurveAdd", &[1, 0, 1, 0, 1]),
    ("Buffer", &[1, 0, 1, 0, 0, 0]),
    ("CurveDbl", &[1, 0, 1, 1, 1]),
    ("CurveEndo", &[1, 1]),
    ("Base4Sum", &[1, 0, 0, 0]),
    ("Constant", &[1, 0, 1, 1, 0]),
    ("Arithmetic", &[1, 0, 0, 1]),
    ("RescueA", &[0, 0]),
    ("RescueB", &[0, 1]),
];

pub fn gate_name<F: Field>(k: &[F]) -> &'static str {
    for (n, p) in GATES.iter() {
        if p.iter().enumerate().all(|(i, &b)| if b == 1 { k[i].is_one() } else { k[i].is_zero() }) {
            return n;
        }
    }
    "?"
}

fn fu<F: FieldSpec>(v: u64) -> F {
    F::mk(&BigUint::from(v))
}

/// The relation a gate stands for, stated over its own, next and below rows.
pub fn gate_relation<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(
    kind: &str,
    k: &[SF<C>],
    l: &[SF<C>],
    r: &[SF<C>],
    b: &[SF<C>],
    rr: &RefRescue<SF<C>>,
) -> bool
where
    SF<C>: FieldSpec,
{
    let one = fu::<SF<C>>(1);
    let two = fu::<SF<C>>(2);
    let bin = |x: SF<C>| x == one || x.is_zero();
    match kind {
        "PublicInput" => (0..3).all(|i| l[6 + i] == r[i]),
        "Buffer" => true,
        "Constant" => l[0] == k[5],
        "Arithmetic" => l[3] == k[4] * l[0] * l[1] + k[5] * l[2],
        "Base4Sum" => {
            let mut acc = l[0];
            for i in 0..7 {
                if l[2 + i].val() > BigUint::from(3u32) {
                    return false;
                }
                acc = acc * fu(4) + l[2 + i];
            }
            acc == l[1]
        }
        "RescueA" => (0..4).all(|i| l[4 + i] * l[4 + i] * l[4 + i] * l[4 + i] * l[4 + i] == l[i]) && rr.mix(&l[4..8], &k[2..6]) == r[..4].to_vec(),
        "RescueB" => {
            let s: Vec<SF<C>> = l[..4].iter().map(|&x| x * x * x * x * x).collect();
            rr.mix(&s, &k[2..6]) == r[..4].to_vec()
        }
        "CurveAdd" => {
            // acc (l0,l1) + addend (l4,l5) if bit l6, into (r0,r1); scalar acc l3 = 2 l2 + l6
            let dx = l[0] - l[4];
            if !bin(l[6]) || l[3] != two * l[2] + l[6] || dx.is_zero() || l[7] * dx != one || l[8] * dx != l[1] - l[5] {
                return false;
            }
            if l[6].is_zero() {
                return r[0] == l[0] && r[1] == l[1];
            }
            let x3 = l[8] * l[8] - l[0] - l[4];
            r[0] == x3 && r[1] == l[8] * (l[0] - x3) - l[1]
        }
        "CurveDbl" => {
            if l[1].is_zero() || l[4] * two * l[1] != one || l[5] * two * l[1] != fu::<SF<C>>(3) * l[0] * l[0] + I::A {
                return false;
            }
            let x3 = l[5] * l[5] - l[0] - l[0];
            l[2] == x3 && l[3] == l[5] * (l[0] - x3) - l[1]
        }
        "CurveEndo" => {
            if !bin(l[6]) || !bin(l[7]) {
                return false;
            }
            // bit 1 applies the endomorphism, bit 0 set means "keep the sign"
            let x2 = if l[7].is_zero() { l[4] } else { I::ZETA * l[4] };
            let y2 = if l[6].is_zero() { -l[5] } else { l[5] };
            let dx = l[0] - x2;
            if dx.is_zero() || l[8] * dx != one {
                return false;
            }
            let lam = (l[1] - y2) * l[8];
            let x3 = lam * lam - l[0] - x2;
            let mut limb = if l[7].is_zero() { one } else { I::ZETA };
            if l[6].is_zero() {
                limb = -limb;
            }
            r[0] == x3
                && r[1] == lam * (l[0] - x3) - l[1]
                && b[2] == fu::<SF<C>>(4) * l[2] + two * l[7] + l[6]
                && b[3] == two * l[3] + limb
        }
        _ => panic!("unknown gate"),
    }
}

/// An assignment under construction: targets to values, first assignment wins.
pub struct Solver<'a, C: HaloCurve> {
    pub c: &'a Circuit<C>,
    pub zero: SF<C>,
    deps: Vec<Vec<Target<SF<C>>>>,
    by_dep: HashMap<Target<SF<C>>, Vec<usize>>,
}

pub struct Solved<F: Field> {
    pub vals: HashMap<Target<F>, F>,
    pub rows: Vec<Vec<F>>,
    pub conflicts: usize,
    pub first_conflict: Option<(Target<F>, F, F)>,
    pub gens_run: usize,
    pub gens_failed: usize,
    /// What each generator that ran produced.
    pub gen_outs: Vec<Vec<(Target<F>, F)>>,
}

impl<'a, C: HaloCurve> Solver<'a, C>
where
    SF<C>: FieldSpec,
{
    pub fn new(c: &'a Circuit<C>) -> Self {
        let deps: Vec<Vec<_>> = c.generators.iter().map(|g| g.dependencies()).collect();
        let mut by_dep: HashMap<Target<SF<C>>, Vec<usize>> = HashMap::new();
        for (i, d) in deps.iter().enumerate() {
            for t in d {
                by_dep.entry(*t).or_default().push(i);
            }
        }
        Solver { c, zero: SF::<C>::ZERO, deps, by_dep }
    }

    /// The value an assignment really gives to a target: that of a wire it is routed to, if there is one.
    pub fn read(&self, s: &Solved<SF<C>>, t: Target<SF<C>>) -> Option<SF<C>> {
        if let Target::Wire(w) = t {
            return Some(s.rows[w.gate][w.input]);
        }
        let mut part: Vec<Target<SF<C>>> = match t {
            Target::PublicInput(p) => {
                let w = self.pi_wire(p.index);
                return Some(s.rows[w.gate][w.input]);
            }
            t => self.c.routing_target_partitions.get_partition(t).to_vec(),
        };
        for t in &part {
            if let Target::Wire(w) = t {
                return Some(s.rows[w.gate][w.input]);
            }
        }
        part.sort_by_key(|t| t.index());
        part.iter().find_map(|t| s.vals.get(t).copied())
    }

    pub fn pi_wire(&self, i: usize) -> Wire {
        Wire { gate: self.c.num_gates_without_pis + 2 * (i / NW), input: i % NW }
    }

    fn siblings(&self, t: Target<SF<C>>) -> Vec<Target<SF<C>>> {
        let off = self.c.num_gates_without_pis;
        let npi = (self.c.num_public_inputs + NW - 1) / NW;
        let mut v = Vec::new();
        match t {
            Target::PublicInput(p) => {
                let w = self.pi_wire(p.index);
                v.push(Target::Wire(w));
                if w.input >= NR {
                    v.push(Target::Wire(Wire { gate: w.gate + 1, input: w.input - NR }));
                }
                return v;
            }
            Target::Wire(w) => {
                if w.gate >= off && w.gate < off + 2 * npi {
                    let k = w.gate - off;
                    let idx = if k % 2 == 0 {
                        Some(k / 2 * NW + w.input)
                    } else if w.input < NW - NR {
                        Some(k / 2 * NW + NR + w.input)
                    } else {
                        None
                    };
                    if let Some(i) = idx {
                        if i < self.c.num_public_inputs {
                            v.push(Target::PublicInput(PublicInput::new(i)));
                        }
                        if i % NW >= NR {
                            v.push(Target::Wire(self.pi_wire(i)));
                            v.push(Target::Wire(Wire { gate: w.gate / 1 - k % 2 + 1, input: i % NW - NR }));
                        }
                    }
                }
            }
            _ => {}
        }
        v.extend_from_slice(self.c.routing_target_partitions.get_partition(t));
        v
    }

    /// Complete `forced` and then `inputs` by running the circuit's own generators, keeping whatever was set
    /// first: a prover that lies about the forced targets and answers everything else as well as it can.
    /// `late`: a generator held back until nothing else can run (its lie is spread by the other gates first).
    pub fn solve(&self, forced: &[(Target<SF<C>>, SF<C>)], inputs: &[(Target<SF<C>>, SF<C>)], late: Option<usize>) -> Solved<SF<C>> {
        let n = self.c.degree();
        let mut missing: Vec<usize> = self.deps.iter().map(|d| { let mut d = d.clone(); d.sort_by_key(|t| format!("{:?}", t)); d.dedup(); d.len() }).collect();
        let mut pw = PartialWitness::new();
        let mut vals: HashMap<Target<SF<C>>, SF<C>> = HashMap::new();
        let mut conflicts = 0;
        let mut first_conflict = None;
        let (mut gens_run, mut gens_failed) = (0, 0);
        let mut ready: Vec<usize> = (0..missing.len()).filter(|&i| missing[i] == 0).collect();
        let mut stack: Vec<(Target<SF<C>>, SF<C>)> = Vec::new();
        let feed = |stack: &mut Vec<(Target<SF<C>>, SF<C>)>, ready: &mut Vec<usize>, missing: &mut Vec<usize>, pw: &mut PartialWitness<SF<C>>, vals: &mut HashMap<Target<SF<C>>, SF<C>>, conflicts: &mut usize, first: &mut Option<(Target<SF<C>>, SF<C>, SF<C>)>| {
            while let Some((t, v)) = stack.pop() {
                if let Some(o) = vals.get(&t) {
                    if *o != v {
                        *conflicts += 1;
                        first.get_or_insert((t, *o, v));
                    }
                    continue;
                }
                vals.insert(t, v);
                pw.set_target(t, v);
                for s in self.siblings(t) {
                    if !vals.contains_key(&s) {
                        stack.push((s, v));
                    }
                }
                if let Some(gs) = self.by_dep.get(&t) {
                    let mut gs = gs.clone();
                    gs.sort();
                    gs.dedup();
                    for g in gs {
                        missing[g] -= 1;
                        if missing[g] == 0 {
                            ready.push(g);
                        }
                    }
                }
            }
        };
        for &(t, v) in forced.iter().chain(inputs) {
            stack.push((t, v));
            feed(&mut stack, &mut ready, &mut missing, &mut pw, &mut vals, &mut conflicts, &mut first_conflict);
        }
        let mut gen_outs = vec![Vec::new(); self.deps.len()];
        let mut held = None;
        loop {
            let g = match ready.pop() {
                Some(g) if Some(g) == late && held.is_none() => {
                    held = Some(g);
                    continue;
                }
                Some(g) => g,
                None => match held.take() {
                    Some(g) => {
                        held = Some(usize::MAX);
                        if g == usize::MAX {
                            break;
                        }
                        g
                    }
                    None => break,
                },
            };
            let r = guard(|| self.c.generators[g].generate(&self.c.gate_constants, &pw));
            match r {
                Ok(r) => {
                    gens_run += 1;
                    let mut outs = r.all_populated_targets();
                    outs.sort_by_key(|t| match t {
                        Target::PublicInput(p) => (0, p.index, 0),
                        Target::VirtualTarget(v) => (1, v.index, 0),
                        Target::Wire(w) => (2, w.gate, w.input),
                        _ => (3, 0, 0),
                    });
                    for t in outs {
                        gen_outs[g].push((t, r.get_target(t)));
                        stack.push((t, r.get_target(t)));
                        feed(&mut stack, &mut ready, &mut missing, &mut pw, &mut vals, &mut conflicts, &mut first_conflict);
                    }
                }
                Err(_) => gens_failed += 1,
            }
        }
        let rows = (0..n)
            .map(|gate| (0..NW).map(|input| vals.get(&Target::Wire(Wire { gate, input })).copied().unwrap_or(SF::<C>::ZERO)).collect())
            .collect();
        Solved { vals, rows, conflicts, first_conflict, gens_run, gens_failed, gen_outs }
    }
}

pub enum Expect<F> {
    /// The outputs must be exactly these.
    Outs(Vec<F>),
    /// The asserted condition is false for these inputs: no accepted assignment may show them.
    False,
    /// Outside the documented domain.
    Any,
}

pub struct Claim<F: Field> {
    pub name: String,
    pub ins: Vec<Target<F>>,
    pub outs: Vec<Target<F>>,
    pub f: Box<dyn Fn(&[F]) -> Expect<F> + Send + Sync>,
}

impl<F: Field> Claim<F> {
    /// Err(text) if the claim is false for this assignment.
    pub fn judge(&self, get: &dyn Fn(Target<F>) -> Option<F>) -> Result<bool, String> {
        let i: Option<Vec<F>> = self.ins.iter().map(|&t| get(t)).collect();
        let o: Option<Vec<F>> = self.outs.iter().map(|&t| get(t)).collect();
        let (i, o) = match (i, o) {
            (Some(i), Some(o)) => (i, o),
            _ => return Err(format!("{}: a target of the gadget has no value", self.name)),
        };
        match (self.f)(&i) {
            Expect::Any => Ok(false),
            Expect::False => Err(format!("{}: holds although the asserted condition is false for {:?}", self.name, i)),
            Expect::Outs(w) => {
                if w == o {
                    Ok(true)
                } else {
                    Err(format!("{}({:?}) gave {:?}, native result {:?}", self.name, i, o, w))
                }
            }
        }
    }
}

/// A circuit under random construction with native value tracking.
pub struct Dag<C: HaloCurve> {
    pub b: CircuitBuilder<C>,
    pub pool: Vec<(Target<SF<C>>, SF<C>)>,
    pub inputs: Vec<(Target<SF<C>>, SF<C>)>,
    pub claims: Vec<Claim<SF<C>>>,
    pub nvirt: usize,
    pub pis: Vec<SF<C>>,
    pub sec: usize,
}

impl<C: HaloCurve> Dag<C>
where
    SF<C>: FieldSpec,
{
    pub fn new(sec: usize) -> Self {
        Dag { b: CircuitBuilder::new(sec), pool: vec![], inputs: vec![], claims: vec![], nvirt: 0, pis: vec![], sec }
    }

    pub fn input(&mut self, public: bool, v: SF<C>) -> Target<SF<C>> {
        let t = if public {
            self.pis.push(v);
            self.b.add_public_input()
        } else {
            self.b.add_virtual_target()
        };
        self.inputs.push((t, v));
        self.pool.push((t, v));
        t
    }

    pub fn pick(&self, rng: &mut R) -> (Target<SF<C>>, SF<C>) {
        self.pool[rng.gen_range(0, self.pool.len())]
    }

    pub fn claim(&mut self, name: &str, ins: Vec<Target<SF<C>>>, outs: Vec<Target<SF<C>>>, f: impl Fn(&[SF<C>]) -> Expect<SF<C>> + Send + Sync + 'static) {
        self.claims.push(Claim { name: name.to_string(), ins, outs, f: Box::new(f) });
    }

    /// Number of virtual targets allocated so far (indices are consecutive).
    pub fn virt_count(&mut self) -> usize {
        match self.b.add_virtual_target() {
            Target::VirtualTarget(v) => v.index,
            _ => 0,
        }
    }

    fn out1(&mut self, name: &str, ins: &[(Target<SF<C>>, SF<C>)], out: Target<SF<C>>, f: impl Fn(&[SF<C>]) -> Expect<SF<C>> + Send + Sync + 'static) {
        let vals: Vec<SF<C>> = ins.iter().map(|x| x.1).collect();
        if let Expect::Outs(o) = f(&vals) {
            self.pool.push((out, o[0]));
        }
        self.claim(name, ins.iter().map(|x| x.0).collect(), vec![out], f);
    }

    /// Add one random arithmetic or logic gadget. Inputs are chosen so that the circuit stays satisfiable.
    pub fn step(&mut self, rng: &mut R, kinds: usize) -> &'static str {
        let k = rng.gen_range(0, kinds);
        self.step_kind(rng, k)
    }

    pub fn step_kind(&mut self, rng: &mut R, kind: usize) -> &'static str {
        use Expect::*;
        let one = SF::<C>::ONE;
        let x = self.pick(rng);
        let y = self.pick(rng);
        let z = self.pick(rng);
        match kind {
            0 => {
                let v: SF<C> = rf(rng);
                let t = self.b.constant_wire(v);
                self.pool.push((t, v));
                self.claim("constant_wire", vec![], vec![t], move |_| Outs(vec![v]));
                "constant_wire"
            }
            1 => {
                let k = rng.gen_range(0, 5);
                let u: u32 = rng.gen();
                let (t, v) = match k {
                    0 => (self.b.zero_wire(), fu(0)),
                    1 => (self.b.one_wire(), fu(1)),
                    2 => (self.b.two_wire(), fu(2)),
                    3 => (self.b.neg_one_wire(), SF::<C>::mk(&(SF::<C>::p() - 1u32))),
                    _ => (self.b.constant_wire_u32(u), fu(u as u64)),
                };
                self.pool.push((t, v));
                self.claim("small_constant", vec![], vec![t], move |_| Outs(vec![v]));
                "small_constant"
            }
            2 => {
                let t = self.b.add(x.0, y.0);
                self.out1("add", &[x, y], t, |v| Outs(vec![v[0] + v[1]]));
                "add"
            }
            3 => {
                let t = self.b.sub(x.0, y.0);
                self.out1("sub", &[x, y], t, |v| Outs(vec![v[0] - v[1]]));
                "sub"
            }
            4 => {
                let t = self.b.mul(x.0, y.0);
                self.out1("mul", &[x, y], t, |v| Outs(vec![v[0] * v[1]]));
                "mul"
            }
            5 => {
                let t = self.b.mul_add(x.0, y.0, z.0);
                self.out1("mul_add", &[x, y, z], t, |v| Outs(vec![v[0] * v[1] + v[2]]));
                "mul_add"
            }
            6 => {
                let t = self.b.mul_sub(x.0, y.0, z.0);
                self.out1("mul_sub", &[x, y, z], t, |v| Outs(vec![v[0] * v[1] - v[2]]));
                "mul_sub"
            }
            7 => {
                let n = rng.gen_range(0, 4);
                let xs: Vec<_> = (0..n).map(|_| self.pick(rng)).collect();
                let ts: Vec<_> = xs.iter().map(|x| x.0).collect();
                if rng.gen() {
                    let t = self.b.add_many(&ts);
                    self.out1("add_many", &xs, t, |v| { let mut s = SF::<C>::ZERO; for &a in v { s = s + a; } Outs(vec![s]) });
                } else {
                    let t = self.b.mul_many(&ts);
                    self.out1("mul_many", &xs, t, |v| { let mut s = SF::<C>::ONE; for &a in v { s = s * a; } Outs(vec![s]) });
                }
                "many"
            }
            8 => {
                match rng.gen_range(0, 3) {
                    0 => { let t = self.b.double(x.0); self.out1("double", &[x], t, |v| Outs(vec![v[0] + v[0]])); }
                    1 => { let t = self.b.square(x.0); self.out1("square", &[x], t, |v| Outs(vec![v[0] * v[0]])); }
                    _ => { let t = self.b.neg(x.0); self.out1("neg", &[x], t, |v| Outs(vec![SF::<C>::ZERO - v[0]])); }
                }
                "unary"
            }
            9 => {
                let t = self.b.is_zero(x.0);
                self.out1("is_zero", &[x], t, move |v| Outs(vec![if v[0].is_zero() { one } else { SF::<C>::ZERO }]));
                "is_zero"
            }
            10 => {
                let t = self.b.is_nonzero(x.0);
                self.out1("is_nonzero", &[x], t, move |v| Outs(vec![if v[0].is_zero() { SF::<C>::ZERO } else { one }]));
                "is_nonzero"
            }
            11 => {
                // equal values at different targets are the interesting case
                let y = if rng.gen() { let v = x.1; let public = rng.gen_range(0, 3) == 0 && self.pis.len() < 20; (self.input(public, v), v) } else { y };
                if rng.gen() {
                    let t = self.b.is_equal(x.0, y.0);
                    self.out1("is_equal", &[x, y], t, move |v| Outs(vec![if v[0] == v[1] { one } else { SF::<C>::ZERO }]));
                } else {
                    let t = self.b.is_not_equal(x.0, y.0);
                    self.out1("is_not_equal", &[x, y], t, move |v| Outs(vec![if v[0] != v[1] { one } else { SF::<C>::ZERO }]));
                }
                "is_equal"
            }
            12 => {
                let b = self.bit(rng);
                let t = self.b.select(b.0, x.0, y.0);
                self.out1("select", &[b, x, y], t, move |v| if v[0] == one { Outs(vec![v[1]]) } else if v[0].is_zero() { Outs(vec![v[2]]) } else { Any });
                let t = self.b.not(b.0);
                self.out1("not", &[b], t, move |v| if v[0] == one { Outs(vec![SF::<C>::ZERO]) } else if v[0].is_zero() { Outs(vec![one]) } else { Any });
                "select"
            }
            13 => {
                if x.1.is_zero() {
                    return "skip";
                }
                if rng.gen() {
                    let t = self.b.inv(x.0);
                    self.out1("inv", &[x], t, move |v| if v[0].is_zero() { False } else { Outs(vec![SF::<C>::mk(&inv(&v[0].val(), SF::<C>::pr()))]) });
                } else {
                    let t = self.b.div(y.0, x.0);
                    self.out1("div", &[y, x], t, move |v| if v[1].is_zero() { False } else { Outs(vec![v[0] * SF::<C>::mk(&inv(&v[1].val(), SF::<C>::pr()))]) });
                }
                "inv"
            }
            14 => {
                let e: BigUint = match rng.gen_range(0, 6) {
                    0 => BigUint::from(rng.gen_range(0u32, 9)),
                    1 => BigUint::from(rng.gen::<u16>()),
                    2 => BigUint::one() << rng.gen_range(0, 70),
                    3 => BigUint::from(rng.gen::<u64>() >> 40),
                    4 => (BigUint::one() << 65) + rng.gen_range(0u32, 5),
                    _ => BigUint::from(rng.gen_range(0u32, 40)),
                };
                let ef = SF::<C>::mk(&e);
                let small = e < BigUint::from(1u64 << 31);
                let t = if small && rng.gen() { self.b.exp_constant_usize(x.0, e.to_u64_digits().get(0).copied().unwrap_or(0) as usize) } else { self.b.exp_constant(x.0, ef) };
                self.out1("exp_constant", &[x], t, move |v| Outs(vec![SF::<C>::mk(&v[0].val().modpow(&e, SF::<C>::pr()))]));
                "exp_constant"
            }
            15 => {
                // assertions, on values that satisfy them
                match rng.gen_range(0, 5) {
                    0 => {
                        let d = self.b.sub(x.0, x.0);
                        self.b.assert_zero(d);
                        let z = self.input(false, SF::<C>::ZERO);
                        self.b.assert_zero(z);
                        self.claim("assert_zero", vec![z], vec![], |v| if v[0].is_zero() { Outs(vec![]) } else { False });
                    }
                    1 => {
                        let z = self.input(false, one);
                        self.b.assert_one(z);
                        self.claim("assert_one", vec![z], vec![], move |v| if v[0] == one { Outs(vec![]) } else { False });
                    }
                    2 => {
                        let b = self.bit(rng);
                        self.b.assert_binary(b.0);
                        self.claim("assert_binary", vec![b.0], vec![], move |v| if v[0] == one || v[0].is_zero() { Outs(vec![]) } else { False });
                    }
                    3 => {
                        if !x.1.is_zero() {
                            self.b.assert_nonzero(x.0);
                            self.claim("assert_nonzero", vec![x.0], vec![], move |v| if v[0].is_zero() { False } else { Outs(vec![]) });
                        }
                    }
                    _ => {
                        let t = self.b.add_virtual_target();
                        let v: SF<C> = rf(rng);
                        self.b.generate_constant(t, v);
                        self.pool.push((t, v));
                    }
                }
                "assert"
            }
            16 => {
                let n = rng.gen_range(0, 10);
                let ls: Vec<_> = (0..n).map(|_| { let v = fu(rng.gen_range(0, 4)); let public = rng.gen_range(0, 6) == 0; (self.input(public, v), v) }).collect();
                let ts: Vec<_> = ls.iter().map(|x| x.0).collect();
                self.b.assert_all_base_4(&ts);
                self.claim("assert_all_base_4", ts, vec![], |v| if v.iter().all(|x| x.val() < BigUint::from(4u32)) { Outs(vec![]) } else { False });
                "assert_all_base_4"
            }
            17 => {
                // conditional copy: equal values, or a zero condition
                let (cv, yv) = if rng.gen() { (rf::<SF<C>>(rng), x.1) } else { (SF::<C>::ZERO, rf::<SF<C>>(rng)) };
                let cnd = self.input(false, cv);
                let yt = self.input(false, yv);
                self.b.conditional_copy(cnd, x.0, yt);
                self.claim("conditional_copy", vec![cnd, x.0, yt], vec![], |v| if v[0].is_zero() || v[1] == v[2] { Outs(vec![]) } else { False });
                "conditional_copy"
            }
            18 => {
                // plain copy
                let yv = x.1;
                let public = rng.gen_range(0, 3) == 0 && self.pis.len() < 20;
                let yt = if rng.gen() { let t = self.b.add_virtual_target(); self.pool.push((t, yv)); t } else { self.input(public, yv) };
                self.b.copy(x.0, yt);
                self.claim("copy", vec![x.0, yt], vec![], |v| if v[0] == v[1] { Outs(vec![]) } else { False });
                "copy"
            }
            19 => {
                let sq = x.1 * x.1;
                let p = SF::<C>::pr();
                let even = if x.1.val().bit(0) { p - x.1.val() } else { x.1.val() };
                if even >= BigUint::one() << 254 {
                    // outside the documented domain (most significant bit unset)
                    return "skip";
                }
                let s = self.b.square(x.0);
                self.pool.push((s, sq));
                let t = self.b.deterministic_square_root(s);
                let lim = BigUint::one() << 254;
                self.claim("deterministic_square_root", vec![s], vec![t], move |v| {
                    let p = SF::<C>::pr();
                    if v[0].is_zero() {
                        return Outs(vec![v[0]]);
                    }
                    if !is_qr(&v[0].val(), p) {
                        return False;
                    }
                    let r = ref_sqrt(&v[0].val(), p);
                    let r = if r.bit(0) { p - &r } else { r };
                    if r >= lim { Any } else { Outs(vec![SF::<C>::mk(&r)]) }
                });
                "deterministic_square_root"
            }
            _ => "skip",
        }
    }

    pub fn bit(&mut self, rng: &mut R) -> (Target<SF<C>>, SF<C>) {
        let v = if rng.gen() { SF::<C>::ONE } else { SF::<C>::ZERO };
        let k: Vec<_> = self.pool.iter().copied().filter(|p| p.1 == v).collect();
        if !k.is_empty() && rng.gen() {
            return k[rng.gen_range(0, k.len())];
        }
        (self.input(false, v), v)
    }

    pub fn hash_step(&mut self, rng: &mut R, rr: &std::sync::Arc<RefRescue<SF<C>>>) {
        use Expect::*;
        let n = rng.gen_range(0, 8);
        let xs: Vec<_> = (0..n).map(|_| self.pick(rng)).collect();
        let ts: Vec<_> = xs.iter().map(|x| x.0).collect();
        let r2 = rr.clone();
        match rng.gen_range(0, 5) {
            0 => {
                let xs: Vec<_> = (0..4).map(|_| self.pick(rng)).collect();
                let ts: Vec<_> = xs.iter().map(|x| x.0).collect();
                let o = self.b.rescue_permutation(&ts);
                self.claim("rescue_permutation", ts, o, move |v| Outs(r2.permute(v)));
            }
            1 => {
                let o = self.b.rescue_hash_n_to_1(&ts);
                self.claim("rescue_hash_n_to_1", ts, vec![o], move |v| Outs(r2.sponge(v, 1)));
            }
            2 => {
                let o = self.b.rescue_hash_n_to_2(&ts);
                self.claim("rescue_hash_n_to_2", ts, vec![o.0, o.1], move |v| Outs(r2.sponge(v, 2)));
            }
            3 => {
                let o = self.b.rescue_hash_n_to_3(&ts);
                self.claim("rescue_hash_n_to_3", ts, vec![o.0, o.1, o.2], move |v| Outs(r2.sponge(v, 3)));
            }
            _ => {
                let k = rng.gen_range(1, 8);
                let o = self.b.rescue_sponge(&ts, k);
                self.claim("rescue_sponge", ts, o, move |v| Outs(r2.sponge(v, k)));
            }
        }
        // feed an output on
        let cl = self.claims.last().unwrap();
        let ins: Vec<SF<C>> = cl.ins.iter().map(|t| self.pool.iter().find(|p| p.0 == *t).unwrap().1).collect();
        if let Outs(o) = (cl.f)(&ins) {
            let t = cl.outs[0];
            self.pool.push((t, o[0]));
        }
    }

    pub fn partial(&self) -> PartialWitness<SF<C>> {
        let mut w = PartialWitness::new();
        for &(t, v) in &self.inputs {
            w.set_target(t, v);
        }
        w
    }
}

pub fn bu(v: u64) -> BigUint {
    BigUint::from(v)
}
pub fn zero_bu() -> BigUint {
    BigUint::zero()
}

#[derive(Clone, Debug)]
pub struct Attack<F: Field> {
    pub kind: &'static str,
    pub forced: Vec<(Target<F>, F)>,
    pub late: Option<usize>,
}

pub struct ProbeOpts {
    /// Cap on the solver attacks of one circuit.
    pub solver_attacks: usize,
    /// Cap on the single-wire changes of one circuit.
    pub wire_attacks: usize,
}


/// The weights with which a generator's answers add up to `v`, if they are the digits of `v` in a common base.
fn digit_weights<F: FieldSpec>(outs: &[(Target<F>, F)], v: F) -> Option<Vec<F>> {
    if outs.len() < 2 {
        return None;
    }
    let shapes: [&dyn Fn(usize) -> usize; 4] = [&|i| i, &|i| 2 * i, &|i| if i < 2 { i } else { 2 * i - 2 }, &|i| 86 * i];
    for sh in shapes.iter() {
        let ws: Vec<F> = (0..outs.len()).map(|i| F::mk(&(BigUint::one() << sh(i)))).collect();
        let mut s = F::ZERO;
        for (w, o) in ws.iter().zip(outs) {
            s = s + *w * o.1;
        }
        if s == v {
            return Some(ws);
        }
    }
    None
}

/// Observe one built circuit: the honest assignment must be accepted with every claim true, and no accepted
/// assignment found by any of the cheating strategies may falsify a claim.
pub fn probe<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(
    c: &Ctx,
    tag: &str,
    circ: &Circuit<C>,
    claims: &[Claim<SF<C>>],
    inputs: &[(Target<SF<C>>, SF<C>)],
    pis: &[SF<C>],
    rng: &mut R,
    o: &ProbeOpts,
) where
    SF<C>: FieldSpec,
{
    use rayon::prelude::*;
    let n = circ.degree();
    let enf = match decode_sigma(circ) {
        Ok(e) => e,
        Err(e) => {
            c.viol(&format!("{}/sigma", tag), e);
            return;
        }
    };
    // honest assignment, by the library
    let mut w = PartialWitness::new();
    for &(t, v) in inputs {
        w.set_target(t, v);
    }
    let pw = match guard(|| circ.generate_partial_witness(w)) {
        Ok(w) => w,
        Err(e) => {
            if std::env::var("VMON_STEPS").is_ok() {
                let sv = Solver::new(circ);
                let s = sv.solve(&[], inputs, None);
                eprintln!("conflicts {} first {:?} without pis {} npi {} unsat {:?}", s.conflicts, s.first_conflict, circ.num_gates_without_pis, circ.num_public_inputs, unsat::<C, I>(circ, &enf, &s.rows, None));
                for cl in claims {
                    eprintln!("{} {:?} -> {:?}", cl.name, cl.ins, cl.outs);
                }
            }
            c.viol(&format!("{}/witness-crash", tag), format!("honest inputs: {}", e));
            return;
        }
    };
    let wit = Witness::from_partial(&pw, n);
    let base = rows_of(&wit, n);
    let key = h64(&format!("{:?}", base.iter().take(40).collect::<Vec<_>>()));
    c.ev("honest-assignment", &(tag, key), true);
    if let Some(e) = unsat::<C, I>(circ, &enf, &base, None) {
        c.viol(&format!("{}/honest-unsatisfied", tag), format!("honest inputs give an assignment the circuit refuses: {}", e));
        return;
    }
    let got = circ.get_public_inputs(&wit);
    c.check(got == pis, &format!("{}/public-inputs", tag), || format!("assigned {:?}, reported {:?}", pis, got));
    let sv = Solver::new(circ);
    for (i, cl) in claims.iter().enumerate() {
        let r = cl.judge(&|t| if pw.contains_target(t) { Some(pw.get_target(t)) } else { None });
        match r {
            Ok(b) => c.ev(&format!("honest:{}", cl.name), &(key, i), b),
            Err(e) => {
                c.viol(&format!("{}/honest/{}", tag, cl.name), e);
            }
        }
    }
    // who generates what
    let hs = sv.solve(&[], inputs, None);
    if hs.conflicts > 0 {
        c.viol(&format!("{}/generators-disagree", tag), format!("{} conflicting generated values on honest inputs", hs.conflicts));
        return;
    }
    let f = |v: &BigUint| SF::<C>::mk(v);
    let p = SF::<C>::pr().clone();
    let one = fu::<SF<C>>(1);
    let limb = f(&(BigUint::one() << 86));
    let nb = blind_rows::<C>();
    let blind = circ.num_gates_without_pis - nb;
    let skip = |t: &Target<SF<C>>| matches!(t, Target::Wire(w) if w.gate >= blind && w.gate < blind + nb);
    let (mut attacks, mut sure): (Vec<Attack<SF<C>>>, Vec<Attack<SF<C>>>) = (Vec::new(), Vec::new());
    let lies = |rng: &mut R, v: SF<C>| {
        let mut l = vec![v + one, SF::<C>::ZERO, one, -v, -one, v - one, rf::<SF<C>>(rng), v + v, v + f(&(&p >> 1)), v + limb, f(&(v.val() >> 1))];
        if v.is_zero() {
            l.push(fu(2));
        }
        l.retain(|x| *x != v);
        l
    };
    for (g, outs) in hs.gen_outs.iter().enumerate() {
        if outs.iter().any(|x| skip(&x.0)) {
            continue;
        }
        for &(t, v) in outs {
            for l in lies(rng, v) {
                attacks.push(Attack { kind: "late-generator", forced: vec![(t, l)], late: Some(g) });
            }
            let ls = lies(rng, v);
            attacks.push(Attack { kind: "one-output", forced: vec![(t, ls[rng.gen_range(0, ls.len())])], late: None });
        }
        for k in 1..outs.len() {
            let (a, b) = (outs[k - 1], outs[k]);
            for &(da, db) in &[(4i64, -1i64), (-4, 1), (2, -1), (-2, 1), (1, -1), (-1, 4), (1, 1), (0, 0), (7, 7), (-1, 2)] {
                let m = |v: SF<C>, d: i64| if d < 0 { v - fu::<SF<C>>(-d as u64) } else { v + fu::<SF<C>>(d as u64) };
                let (x, y) = match (da, db) {
                    (0, 0) => (a.1 + limb, b.1 - one),
                    (7, 7) => (b.1, a.1),
                    _ => (m(a.1, da), m(b.1, db)),
                };
                attacks.push(Attack { kind: "split-pair", forced: vec![(a.0, x), (b.0, y)], late: Some(g) });
            }
            attacks.push(Attack { kind: "pair-zero-one", forced: vec![(a.0, if rng.gen() { one } else { SF::<C>::ZERO }), (b.0, if rng.gen() { one } else { SF::<C>::ZERO })], late: Some(g) });
        }
        // a changed input whose old answer is kept, whole or with a single place making up the difference
        let mut deps = sv.deps[g].clone();
        deps.sort_by_key(|t| format!("{:?}", t));
        deps.dedup();
        for &t in deps.iter().take(3) {
            let v = match sv.read(&hs, t) {
                Some(v) => v,
                None => continue,
            };
            let ls = [-v, v + one, rf::<SF<C>>(rng)];
            for &l in ls.iter().filter(|l| **l != v) {
                let mut forced = vec![(t, l)];
                forced.extend(outs.iter().copied());
                attacks.push(Attack { kind: "stale-answer", forced, late: None });
            }
            if let Some(ws) = digit_weights(outs, v) {
                let m = outs.len();
                let mut places: Vec<usize> = (0..m.min(3)).collect();
                places.extend(&[m - 1, rng.gen_range(0, m), rng.gen_range(0, m), rng.gen_range(0, m), rng.gen_range(0, m)]);
                places.sort();
                places.dedup();
                for &i in &places {
                    let back = f(&inv(&ws[i].val(), &p));
                    for &l in ls.iter().filter(|l| **l != v) {
                        let mut forced = vec![(t, l)];
                        forced.extend(outs.iter().copied());
                        forced[i + 1].1 = outs[i].1 + (l - v) * back;
                        attacks.push(Attack { kind: "digit-makes-up", forced, late: None });
                    }
                    let j = rng.gen_range(0, m);
                    if j != i {
                        let mut forced = outs.clone();
                        let d = if rng.gen() { one } else { rf::<SF<C>>(rng) };
                        forced[j].1 = forced[j].1 + d;
                        forced[i].1 = forced[i].1 - d * ws[j] * back;
                        attacks.push(Attack { kind: "digits-trade", forced, late: None });
                    }
                }
            }
        }
        // a quotient and a remainder which differ from the canonical ones: x = (q - k) y + (r + k y)
        let dv: Option<Vec<SF<C>>> = sv.deps[g].iter().map(|&t| sv.read(&hs, t)).collect();
        if let Some(dv) = dv.filter(|d| d.len() < 16 && outs.len() < 16 && d.len() + outs.len() > 3) {
            let join = |v: &[SF<C>]| v.iter().enumerate().fold(BigUint::zero(), |a, (i, x)| a + (x.val() << (86 * i)));
            let mask: BigUint = (BigUint::one() << 86) - 1u32;
            for k in 1..dv.len() {
                let (x, y) = (join(&dv[..k]), join(&dv[k..]));
                for j in 0..outs.len() {
                    let ov: Vec<SF<C>> = outs.iter().map(|o| o.1).collect();
                    let (q, r) = (join(&ov[..j]), join(&ov[j..]));
                    // (the number of limbs of each is not known: every split that fits is tried)
                    if q.is_zero() || y.is_zero() || x != &q * &y + &r {
                        continue;
                    }
                    for k in &[BigUint::one(), BigUint::from(2u32), q.clone()] {
                        if k <= &q {
                            let (q2, r2) = (&q - k, &r + k * &y);
                            let put = |v: &BigUint, i: usize, n: usize| if i + 1 == n { f(&((v >> (86 * i)) % &p)) } else { f(&((v >> (86 * i)) & &mask)) };
                            let forced = outs.iter().enumerate().map(|(i, o)| (o.0, if i < j { put(&q2, i, j) } else { put(&r2, i - j, outs.len() - j) })).collect();
                            sure.push(Attack { kind: "quotient-trade", forced, late: None });
                        }
                    }
                }
            }
        }
        if outs.len() > 2 {
            // a whole other value in place of an output group: e.g. the digits of v + p
            for _ in 0..2 {
                let a = rng.gen_range(0, outs.len());
                let b = rng.gen_range(0, outs.len());
                if a != b && outs[a].1 != outs[b].1 {
                    attacks.push(Attack { kind: "swap-outputs", forced: vec![(outs[a].0, outs[b].1), (outs[b].0, outs[a].1)], late: Some(g) });
                }
            }
            for mult in 1..3u32 {
                // the base-4, base-2 and base-2^86 digits of (value + k p) where the outputs are digits
                for &bits in &[1usize, 2, 86] {
                    let mut v = BigUint::zero();
                    for (i, x) in outs.iter().enumerate() {
                        v += x.1.val() << (bits * i);
                    }
                    v += &p * mult;
                    let mask = (BigUint::one() << bits) - 1u32;
                    let forced = outs.iter().enumerate().map(|(i, x)| (x.0, if i + 1 == outs.len() { f(&((&v >> (bits * i)) % &p)) } else { f(&((&v >> (bits * i)) & &mask)) })).collect();
                    attacks.push(Attack { kind: "digits-plus-modulus", forced, late: Some(g) });
                }
            }
        }
    }
    // outputs of gadgets, whoever generates them
    for cl in claims {
        for &t in cl.outs.iter().chain(&cl.ins) {
            if let Some(v) = sv.read(&hs, t) {
                let out = cl.outs.contains(&t);
                for l in lies(rng, v) {
                    attacks.push(Attack { kind: if out { "output" } else { "input" }, forced: vec![(t, l)], late: None });
                }
            }
        }
        if cl.outs.len() > 1 {
            let vs: Vec<SF<C>> = cl.outs.iter().filter_map(|&t| sv.read(&hs, t)).collect();
            if vs.len() == cl.outs.len() {
                for k in 1..vs.len() {
                    attacks.push(Attack { kind: "outputs-rotated", forced: cl.outs.iter().enumerate().map(|(i, &t)| (t, vs[(i + k) % vs.len()])).collect(), late: None });
                    attacks.push(Attack { kind: "outputs-carry", forced: vec![(cl.outs[k - 1], vs[k - 1] + limb), (cl.outs[k], vs[k] - one)], late: None });
                    attacks.push(Attack { kind: "outputs-borrow", forced: vec![(cl.outs[k - 1], vs[k - 1] - limb), (cl.outs[k], vs[k] + one)], late: None });
                }
            }
        }
    }
    // keep an even sample, of at most half from the plentiful generator attacks
    let total = attacks.len();
    let (mut attacks, mut plenty): (Vec<_>, Vec<_>) = attacks.into_iter().partition(|a| !matches!(a.kind, "late-generator" | "one-output" | "split-pair" | "pair-zero-one" | "stale-answer" | "digit-makes-up" | "digits-trade"));
    while attacks.len() > o.solver_attacks / 2 {
        let i = rng.gen_range(0, attacks.len());
        attacks.swap_remove(i);
    }
    // the kinds take turns, so that the rarer ones are not crowded out
    let mut kinds: std::collections::BTreeMap<&'static str, Vec<Attack<SF<C>>>> = Default::default();
    while !plenty.is_empty() {
        let i = rng.gen_range(0, plenty.len());
        let a = plenty.swap_remove(i);
        kinds.entry(a.kind).or_default().push(a);
    }
    while attacks.len() < o.solver_attacks && !kinds.is_empty() {
        for l in kinds.values_mut() {
            if let Some(a) = l.pop() {
                attacks.push(a);
            }
        }
        kinds = kinds.into_iter().filter(|x| !x.1.is_empty()).collect();
    }
    while sure.len() > o.solver_attacks / 2 {
        let i = rng.gen_range(0, sure.len());
        sure.swap_remove(i);
    }
    attacks.append(&mut sure);
    let judge = |kind: &'static str, s: &Solved<SF<C>>, what: &dyn Fn() -> String, gbase: Option<&[Vec<SF<C>>]>| -> (&'static str, u64, String) {
        match unsat::<C, I>(circ, &enf, &s.rows, gbase) {
            Some(e) => {
                let e = if e.starts_with("copy") { "copy".to_string() } else { e.split('(').nth(1).unwrap_or("").split(')').next().unwrap_or("").to_string() };
                (kind, 0, e)
            }
            None => {
                for cl in claims {
                    let ok: Option<Vec<SF<C>>> = cl.ins.iter().chain(&cl.outs).map(|&t| sv.read(s, t)).collect();
                    if ok.is_none() {
                        continue;
                    }
                    if let Err(e) = cl.judge(&|t| sv.read(s, t)) {
                        c.viol(&format!("{}/false-claim-accepted/{}", tag, cl.name), format!("{}: accepted assignment in which {}", what(), e));
                        return (kind, 2, String::new());
                    }
                }
                (kind, 1, String::new())
            }
        }
    };
    let res: Vec<(&'static str, u64, String, u64)> = attacks
        .par_iter()
        .map(|a| {
            let s = sv.solve(&a.forced, inputs, a.late);
            let h = h64(&format!("{:?}", a.forced));
            let r = judge(a.kind, &s, &|| format!("{} {:?} late={:?}", a.kind, a.forced, a.late), Some(&base));
            c.tick();
            (r.0, r.1, r.2, h ^ key)
        })
        .collect();
    // single wires changed in the honest assignment, nothing recomputed
    let mut wires: Vec<(usize, usize, SF<C>)> = Vec::new();
    for _ in 0..o.wire_attacks {
        let i = rng.gen_range(0, n);
        if i >= blind && i < blind + nb {
            continue;
        }
        let j = rng.gen_range(0, NW);
        let l = lies(rng, base[i][j]);
        wires.push((i, j, l[rng.gen_range(0, l.len())]));
    }
    let res2: Vec<(&'static str, u64, String, u64)> = wires
        .par_iter()
        .map(|&(i, j, v)| {
            let mut rows = base.clone();
            rows[i][j] = v;
            let kind = "single-wire";
            let s = Solved { vals: hs.vals.clone(), rows, conflicts: 0, first_conflict: None, gens_run: 0, gens_failed: 0, gen_outs: vec![] };
            let r = judge(kind, &s, &|| format!("row {} wire {} set to {:?}", i, j, v), Some(&base));
            (r.0, r.1, r.2, h64(&(i, j, v)) ^ key)
        })
        .collect();
    let mut by: HashMap<String, Vec<u64>> = HashMap::new();
    for (k, r, e, h) in res.into_iter().chain(res2) {
        by.entry(format!("attack:{}:{}", k, if r == 0 { "refused" } else { "accepted-claims-true" })).or_default().push(h);
        if r == 0 {
            by.entry(format!("refused-by:{}", e)).or_default().push(h);
        }
    }
    for (k, v) in by {
        c.evn(&k, v.len() as u64, &v);
    }
    c.sample("attack", || format!("{}: degree {}, {} generators, {} claims, {} possible solver attacks", tag, n, circ.generators.len(), claims.len(), total));
}

/// Run many in-domain inputs through one circuit: each must give an accepted assignment with every claim true.
pub fn honest_rounds<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(
    c: &Ctx,
    tag: &str,
    circ: &Circuit<C>,
    claims: &[Claim<SF<C>>],
    inputs: &[Vec<(Target<SF<C>>, SF<C>)>],
) where
    SF<C>: FieldSpec,
{
    use rayon::prelude::*;
    let enf = match decode_sigma(circ) {
        Ok(e) => e,
        Err(e) => {
            c.viol(&format!("{}/sigma", tag), e);
            return;
        }
    };
    let by: Vec<HashMap<String, Vec<u64>>> = inputs
        .par_iter()
        .map(|inp| {
            let mut by: HashMap<String, Vec<u64>> = HashMap::new();
            let mut w = PartialWitness::new();
            for &(t, v) in inp {
                w.set_target(t, v);
            }
            let pw = match guard(|| circ.generate_partial_witness(w)) {
                Ok(w) => w,
                Err(e) => {
                    c.viol(&format!("{}/witness-crash", tag), format!("honest inputs {:?}: {}", inp, e));
                    return by;
                }
            };
            let key = h64(&format!("{:?}", inp));
            let base = rows_of(&Witness::from_partial(&pw, enf.n), enf.n);
            by.entry("panel-assignment".into()).or_default().push(key);
            if let Some(e) = unsat::<C, I>(circ, &enf, &base, None) {
                c.viol(&format!("{}/honest-unsatisfied", tag), format!("inputs {:?} give an assignment the circuit refuses: {}", inp, e));
                return by;
            }
            for (i, cl) in claims.iter().enumerate() {
                match cl.judge(&|t| if pw.contains_target(t) { Some(pw.get_target(t)) } else { None }) {
                    Ok(_) => by.entry(format!("panel:{}", cl.name)).or_default().push(key ^ i as u64),
                    Err(e) => c.viol(&format!("{}/honest/{}", tag, cl.name), e),
                }
            }
            by
        })
        .collect();
    for b in by {
        for (k, v) in b {
            c.evn(&k, v.len() as u64, &v);
        }
    }
}
