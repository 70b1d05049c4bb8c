//! C23: the same results whatever the threads do. The parent runs copies of itself with different worker pools,
//! orders, callers, delays and processors, compares every result with that of a single thread, and watches for
//! hangs; one copy is built with ThreadSanitizer.
use plonky::plonk_challenger::Challenger;
use plonky::plonk_util::*;
use plonky::*;
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rayon::prelude::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use std::time::{Duration, Instant};
use vmon::big::*;
use vmon::work::*;
use vmon::zk::*;
use vmon::*;

type Op = (String, Box<dyn Fn() -> u64 + Sync + Send>);

fn hp<C: Curve>(p: AffinePoint<C>) -> u64
where
    C::BaseField: FieldSpec,
{
    if p.zero {
        h64("zero")
    } else {
        h64(&(p.x.val(), p.y.val()))
    }
}
fn hs<F: FieldSpec>(v: &[F]) -> u64 {
    h64(&v.iter().map(|x| x.val()).collect::<Vec<_>>())
}

fn curve_ops<C: Curve>(ops: &mut Vec<Op>, name: &'static str, rng: &mut R, light: bool)
where
    C::BaseField: FieldSpec,
    C::ScalarField: FieldSpec,
{
    let sizes: &[usize] = if light { &[1, 9, 40] } else { &[1, 2, 17, 70, 150] };
    for (k, &n) in sizes.iter().enumerate() {
        let w = [8usize, 4, 8, 11, 5][k];
        let sc: Vec<C::ScalarField> = (0..n).map(|_| rf(rng)).collect();
        let mut g = C::GENERATOR_PROJECTIVE;
        let gens: Vec<ProjectivePoint<C>> = (0..n)
            .map(|i| {
                g = if i % 7 == 3 { g } else { g.double() + C::GENERATOR_PROJECTIVE };
                g
            })
            .collect();
        let (s2, g2) = (sc.clone(), gens.clone());
        ops.push((format!("{}/msm_parallel {} {}", name, n, w), Box::new(move || hp(msm_parallel(&s2, &g2, w).to_affine()))));
        let (s2, g2) = (sc.clone(), gens.clone());
        ops.push((format!("{}/msm_execute_parallel {} {}", name, n, w), Box::new(move || {
            let pre = msm_precompute(&g2, w);
            let a = hp(msm_execute_parallel(&pre, &s2).to_affine());
            let b = hp(msm_execute(&pre, &s2).to_affine());
            h64(&(a, b, a == b))
        })));
        ops.push((format!("{}/multisummation {}", name, n), Box::new(move || {
            let aff = ProjectivePoint::batch_to_affine(&gens);
            let v = affine_multisummation_best((0..4).map(|i| aff[..n * i / 3].to_vec()).collect::<Vec<_>>());
            h64(&v.into_iter().map(|p| hp(p.to_affine())).collect::<Vec<_>>())
        })));
    }
}

fn field_ops<F: FieldSpec>(ops: &mut Vec<Op>, name: &'static str, rng: &mut R, light: bool) {
    let sizes: &[usize] = if light { &[64, 8192] } else { &[2, 64, 4096, 8192, 16384] };
    for &n in sizes {
        let v: Vec<F> = (0..n).map(|_| rf(rng)).collect();
        let w = v.clone();
        ops.push((format!("{}/fft {}", name, n), Box::new(move || hs(&plonky::fft(&w)))));
        ops.push((format!("{}/ifft {}", name, n), Box::new(move || {
            let pre = fft_precompute(n);
            let a = ifft_with_precomputation_power_of_2(&v, &pre);
            h64(&(hs(&a), hs(&fft_with_precomputation_power_of_2(&a, &pre))))
        })));
    }
    let v: Vec<F> = (0..1000).map(|_| rf(rng)).collect();
    ops.push((format!("{}/batch inverse", name), Box::new(move || {
        let nz: Vec<F> = v.iter().copied().filter(|x| !x.is_zero()).collect();
        hs(&F::batch_multiplicative_inverse(&nz))
    })));
}

/// What the shared caches serve.
fn hash_ops<F: FieldSpec>(ops: &mut Vec<Op>, name: &'static str, rng: &mut R, light: bool) {
    for width in 1..if light { 4usize } else { 7 } {
        let v: Vec<F> = (0..width).map(|_| rf(rng)).collect();
        let w = v.clone();
        ops.push((format!("{}/rescue_permutation {}", name, width), Box::new(move || hs(&rescue_permutation(&v, 128)))));
        let bits = [128, 64][width % 2];
        ops.push((format!("{}/rescue_sponge {} {}", name, width, bits), Box::new(move || hs(&rescue_sponge(w.clone(), 5, bits)))));
    }
    let v: Vec<F> = (0..9).map(|_| rf(rng)).collect();
    ops.push((format!("{}/challenger", name), Box::new(move || {
        let mut c = Challenger::new(128);
        let mut out = vec![];
        for chunk in v.chunks(4) {
            c.observe_elements(chunk);
            out.push(c.get_challenge());
        }
        hs(&out)
    })));
}

fn halo_ops<C: HaloCurve>(ops: &mut Vec<Op>, name: &'static str, rng: &mut R, light: bool)
where
    C::BaseField: FieldSpec,
    SF<C>: FieldSpec,
{
    for i in 0..3usize {
        let s = rng.gen_range(0, 100_000) + i;
        ops.push((format!("{}/blake_hash_usize_to_curve {}", name, s), Box::new(move || hp(blake_hash_usize_to_curve::<C>(s)))));
    }
    let n = if light { 16 } else { 32 };
    let polys: Vec<Vec<SF<C>>> = (0..6).map(|_| (0..n).map(|_| rf(rng)).collect()).collect();
    ops.push((format!("{}/commit {}", name, n), Box::new(move || {
        let gs: Vec<AffinePoint<C>> = (0..n).map(blake_hash_usize_to_curve::<C>).collect();
        let h = blake_hash_usize_to_curve::<C>(n);
        let pre = msm_precompute(&AffinePoint::batch_to_projective(&gs), 8);
        let refs: Vec<&[SF<C>]> = polys.iter().map(|p| &p[..]).collect();
        let mut v = PolynomialCommitment::<C>::coeffs_vec_to_commitments(&refs, &pre, h, false);
        PolynomialCommitment::batch_to_affine(&mut v);
        h64(&v.iter().map(|x| hp(x.to_affine())).collect::<Vec<_>>())
    })));
    let us: Vec<SF<C>> = (0..10).map(|_| uf(rng)).collect();
    ops.push((format!("{}/halo_s", name), Box::new(move || hs(&halo_s(&us)))));
}

/// Rows all of whose wires differ between two witnesses of the same inputs.
fn fresh_rows<F: FieldSpec>(a: &[Vec<F>], b: &[Vec<F>]) -> Vec<usize> {
    (0..a.len()).filter(|&i| (0..a[i].len()).all(|j| a[i][j] != b[i][j])).collect()
}

fn circuit_recipe(light: bool) -> Recipe {
    Recipe { sec: 128, npis: 3, steps: if light { vec![2, 4] } else { vec![2, 4, 16, 31, 30, 5] }, pad: 0 }
}

fn vk_hash<C: HaloCurve>(m: &Made<C>) -> u64
where
    C::BaseField: FieldSpec,
    SF<C>: FieldSpec,
{
    h64(&(
        m.vk.c_constants.iter().chain(&m.vk.c_s_sigmas).map(|p| hp(*p)).collect::<Vec<_>>(),
        m.vk.degree,
        m.vk.num_gates_without_pis,
        m.circ.gate_constants.iter().map(|k| hs(k)).collect::<Vec<_>>(),
    ))
}

fn circuit_ops<C: HaloCurve, I: HaloCurve<BaseField = SF<C>>>(ops: &mut Vec<Op>, name: &'static str, rng: &mut R, light: bool, shared: bool)
where
    C::BaseField: FieldSpec,
    SF<C>: FieldSpec,
    SF<I>: FieldSpec,
{
    let seed: u64 = rng.gen();
    let wit_seed: u64 = rng.gen();
    let build = move || make::<C, I>(&mut R::seed_from_u64(seed), &circuit_recipe(light));
    let witness = |m: &Made<C>| {
        let pw = || {
            let mut w = PartialWitness::new();
            for &(t, v) in &m.inputs {
                w.set_target(t, v)
            }
            w
        };
        let (a, b) = (rows_of(&m.circ.generate_witness(pw()), m.circ.degree()), rows_of(&m.circ.generate_witness(pw()), m.circ.degree()));
        let f = fresh_rows(&a, &b);
        let rest: Vec<u64> = (0..a.len()).filter(|i| !f.contains(i)).map(|i| h64(&(hs(&a[i]), a[i] == b[i]))).collect();
        (h64(&(f.len(), rest)), a, f)
    };
    let proof = move |m: &Made<C>, a: &[Vec<SF<C>>], f: &[usize]| -> u64 {
        // the random rows are fixed, so that the proof's commitments are
        let mut r = R::seed_from_u64(wit_seed);
        let mut rows = a.to_vec();
        for &i in f {
            for x in &mut rows[i] {
                *x = uf(&mut r);
            }
        }
        let w = Witness::new(rows);
        let p = match m.circ.generate_proof::<I>(&w, &[], false) {
            Ok(p) => p,
            Err(e) => return h64(&format!("proving failed: {}", e)),
        };
        let pts: Vec<u64> = p.c_wires.iter().chain(&[p.c_plonk_z]).chain(&p.c_plonk_t).chain(&[p.c_pis_quotient]).map(|x| hp(*x)).collect();
        let os: Vec<u64> = p.all_opening_sets().iter().map(|o| hs(&o.to_vec())).collect();
        let ok = verify_proof::<C, I>(&m.pis, &p, &[], &m.vk, true).is_ok();
        let mut q = p.clone();
        q.o_local.o_wires[0] = q.o_local.o_wires[0] + <SF<C> as Field>::ONE;
        let bad = verify_proof::<C, I>(&m.pis, &q, &[], &m.vk, true).is_ok();
        h64(&(pts, os, ok, bad))
    };
    if shared {
        // one circuit for all callers
        let m: &'static Result<Made<C>, String> = Box::leak(Box::new(build()));
        ops.push((format!("{}/build", name), Box::new(move || m.as_ref().map(vk_hash).unwrap_or(1))));
        ops.push((format!("{}/witness", name), Box::new(move || m.as_ref().map(|m| witness(m).0).unwrap_or(1))));
        ops.push((format!("{}/proof", name), Box::new(move || m.as_ref().map(|m| { let w = witness(m); proof(m, &w.1, &w.2) }).unwrap_or(1))));
    } else {
        ops.push((format!("{}/build", name), Box::new(move || build().as_ref().map(vk_hash).unwrap_or(1))));
        ops.push((format!("{}/witness", name), Box::new(move || build().as_ref().map(|m| witness(m).0).unwrap_or(1))));
        ops.push((format!("{}/proof", name), Box::new(move || build().as_ref().map(|m| { let w = witness(m); proof(m, &w.1, &w.2) }).unwrap_or(1))));
    }
}

/// The operations; their inputs depend on the seed only. `set`: all, first (what uses the shared caches), tsan.
fn ops(seed: u64, set: &str, shared: bool) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let light = set == "tsan";
    // each group has its own stream, so that its inputs are the same in every set of the same weight
    macro_rules! r {
        ($n:expr) => {
            &mut R::seed_from_u64(seed ^ h64($n))
        };
    }
    hash_ops::<TweedledeeBase>(&mut v, "TweedledeeBase", r!("h1"), light);
    hash_ops::<TweedledumBase>(&mut v, "TweedledumBase", r!("h2"), light);
    hash_ops::<PallasBase>(&mut v, "PallasBase", r!("h3"), light);
    hash_ops::<VestaBase>(&mut v, "VestaBase", r!("h4"), light);
    if !light {
        hash_ops::<Bls12377Scalar>(&mut v, "Bls12377Scalar", r!("h5"), light);
        hash_ops::<Bls12377Base>(&mut v, "Bls12377Base", r!("h6"), light);
    }
    if set == "first" {
        circuit_ops::<Tweedledee, Tweedledum>(&mut v, "Tweedledee", r!("z1"), true, shared);
        v.retain(|x| !x.0.ends_with("proof") && !x.0.ends_with("witness"));
        return v;
    }
    curve_ops::<Tweedledee>(&mut v, "Tweedledee", r!("c1"), light);
    halo_ops::<Tweedledee>(&mut v, "Tweedledee", r!("a1"), light);
    field_ops::<TweedledeeBase>(&mut v, "TweedledeeBase", r!("f1"), light);
    if !light {
        curve_ops::<Tweedledum>(&mut v, "Tweedledum", r!("c2"), light);
        curve_ops::<Pallas>(&mut v, "Pallas", r!("c3"), light);
        curve_ops::<Vesta>(&mut v, "Vesta", r!("c4"), light);
        curve_ops::<Bls12377>(&mut v, "Bls12377", r!("c5"), light);
        halo_ops::<Tweedledum>(&mut v, "Tweedledum", r!("a2"), light);
        halo_ops::<Pallas>(&mut v, "Pallas", r!("a3"), light);
        halo_ops::<Vesta>(&mut v, "Vesta", r!("a4"), light);
        field_ops::<PallasBase>(&mut v, "PallasBase", r!("f2"), light);
        field_ops::<Bls12377Scalar>(&mut v, "Bls12377Scalar", r!("f3"), light);
        circuit_ops::<Pallas, Vesta>(&mut v, "Pallas", r!("z3"), set == "all", shared);
    }
    if set == "full" {
        circuit_ops::<Tweedledum, Tweedledee>(&mut v, "Tweedledum", r!("z2"), light, shared);
        circuit_ops::<Vesta, Pallas>(&mut v, "Vesta", r!("z4"), light, shared);
    }
    circuit_ops::<Tweedledee, Tweedledum>(&mut v, "Tweedledee", r!("z1"), light || set == "all", shared);
    v
}

fn delay(rng: &mut R) {
    match rng.gen_range(0, 6) {
        0 | 1 => {}
        2 => std::thread::yield_now(),
        3 => {
            let t = Instant::now();
            let d = rng.gen_range(1, 80);
            while t.elapsed() < Duration::from_micros(d) {
                std::hint::spin_loop();
            }
        }
        _ => std::thread::sleep(Duration::from_micros(rng.gen_range(1, 400))),
    }
}

/// A child: runs the operations in one of the ways and prints what each gave.
fn child(mode: &str, set: &str, seed: u64, threads: usize, sched: u64) {
    let all = ops(seed, set, set != "first" && (mode != "seq" || sched != 0));
    let clock = AtomicU64::new(0);
    let log: Mutex<Vec<(u64, usize, usize)>> = Mutex::new(vec![]);
    let out: Mutex<Vec<(usize, u64)>> = Mutex::new(vec![]);
    let run = |who: usize, order: &[usize], rng: &mut R, slow: bool| {
        let mut mine = vec![];
        let mut res = vec![];
        for &i in order {
            if slow {
                delay(rng);
            }
            mine.push((clock.fetch_add(1, Ordering::Relaxed), who, 2 * i));
            let r = guard(|| (all[i].1)()).unwrap_or_else(|e| h64(&format!("panic {}", e)));

            mine.push((clock.fetch_add(1, Ordering::Relaxed), who, 2 * i + 1));
            res.push((i, r));
        }
        log.lock().unwrap().extend(mine);
        out.lock().unwrap().extend(res);
    };
    let order = |rng: &mut R| {
        let mut o: Vec<usize> = (0..all.len()).collect();
        if sched != 0 {
            o.shuffle(rng);
        }
        o
    };
    let mut rng = R::seed_from_u64(sched);
    match mode {
        "seq" => run(0, &order(&mut rng), &mut rng, false),
        // callers of their own, starting together
        "callers" => {
            let bar = Barrier::new(threads);
            on_threads(threads, |k| {
                let mut rng = R::seed_from_u64(sched.wrapping_mul(1000) + k as u64);
                let mut o = order(&mut rng);
                if k % 3 == 1 {
                    // several threads begin with the same operation
                    o = order(&mut R::seed_from_u64(sched));
                }
                if set != "first" && o.len() > 40 {
                    // each does a part; every operation is done by several
                    let len = (o.len() * 5 / (2 * threads)).max(10).min(o.len());
                    o.truncate(len);
                }
                bar.wait();
                run(k, &o, &mut rng, true);
            });
        }
        // callers that are workers of the pool themselves
        "workers" => {
            let mut jobs: Vec<usize> = vec![];
            for _ in 0..if set == "first" { 3 } else { 1 } {
                jobs.extend(order(&mut rng));
            }
            let seeds: Vec<u64> = jobs.iter().map(|_| rng.gen()).collect();
            (0..jobs.len()).into_par_iter().with_max_len(1).for_each(|j| {
                let mut rng = R::seed_from_u64(seeds[j]);
                run(rayon::current_thread_index().unwrap_or(99), &[jobs[j]], &mut rng, j % 3 == 0);
            });
        }
        // several pools at once, of different sizes
        "pools" => {
            let bar = Barrier::new(threads);
            on_threads(threads, |k| {
                let mut rng = R::seed_from_u64(sched.wrapping_mul(77) + k as u64);
                let pool = rayon::ThreadPoolBuilder::new().num_threads(1 + (k * 5 + sched as usize) % 7).build().unwrap();
                let mut o = order(&mut rng);
                let len = (o.len() * 5 / (2 * threads)).max(10).min(o.len());
                o.truncate(len);
                bar.wait();
                pool.install(|| run(k, &o, &mut rng, true));
            });
        }
        _ => panic!("unknown mode"),
    }
    let mut log = log.into_inner().unwrap();
    log.sort();
    println!("S {} {}", log.len(), h64(&log.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>()));
    for (i, r) in out.into_inner().unwrap() {
        println!("R {:016x} {}", r, all[i].0);
    }
    println!("DONE");
}

#[derive(Clone, Debug)]
struct Run {
    mode: &'static str,
    set: &'static str,
    pool: usize,
    threads: usize,
    sched: u64,
    cpus: usize,
    tsan: bool,
}

enum Outcome {
    Done(String, String),
    Hung(String),
    Died(String),
}

fn spawn(r: &Run, seed: u64, limit: Duration) -> Outcome {
    let exe = if r.tsan { std::env::var("VMON_TSAN_BIN").unwrap_or_default() } else { std::env::current_exe().unwrap().to_string_lossy().to_string() };
    let mut cmd = if r.cpus > 0 {
        let mut c = Command::new("taskset");
        let first = r.sched as usize % 8;
        let list: Vec<String> = (0..r.cpus).map(|i| ((first + i) % 8).to_string()).collect();
        c.arg("-c").arg(list.join(",")).arg(&exe);
        c
    } else {
        Command::new(&exe)
    };
    cmd.args(&["--child", r.mode, r.set]).arg(seed.to_string()).arg(r.threads.to_string()).arg(r.sched.to_string());
    cmd.env("RAYON_NUM_THREADS", r.pool.to_string());
    cmd.env("TSAN_OPTIONS", "exitcode=0 history_size=3 report_thread_leaks=0 halt_on_error=0");
    cmd.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return Outcome::Died(format!("could not start: {}", e)),
    };
    let (mut so, mut se) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
    let t1 = std::thread::spawn(move || { let mut s = vec![]; let _ = so.read_to_end(&mut s); String::from_utf8_lossy(&s).to_string() });
    let t2 = std::thread::spawn(move || { let mut s = vec![]; let _ = se.read_to_end(&mut s); String::from_utf8_lossy(&s).to_string() });
    let start = Instant::now();
    let mut cpu_last = 0u64;
    let mut still = 0;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break Some(s),
            _ => {}
        }
        std::thread::sleep(Duration::from_millis(20));
        // a hang: the time is up, or the process has used no processor time at all for a long while
        if start.elapsed().as_millis() as u64 / 1000 > still {
            still += 1;
            let cpu = std::fs::read_to_string(format!("/proc/{}/stat", ch.id())).ok().and_then(|s| {
                let v: Vec<String> = s.rsplit(')').next()?.split_whitespace().map(|x| x.to_string()).collect();
                Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
            }).unwrap_or(0);
            if cpu != cpu_last {
                cpu_last = cpu;
                IDLE.with(|x| x.set(0));
            } else {
                IDLE.with(|x| x.set(x.get() + 1));
            }
        }
        if start.elapsed() > limit || IDLE.with(|x| x.get()) > 25 {
            let _ = ch.kill();
            let _ = ch.wait();
            break None;
        }
    };
    let idle = IDLE.with(|x| x.replace(0));
    let (o, e) = (t1.join().unwrap_or_default(), t2.join().unwrap_or_default());
    match status {
        None => Outcome::Hung(format!("after {:.0} s ({} s without using the processor)", start.elapsed().as_secs_f64(), idle)),
        Some(s) if s.success() && o.contains("DONE") => Outcome::Done(o, e),
        Some(s) => Outcome::Died(format!("{}: {}", s, e.lines().rev().take(5).collect::<Vec<_>>().join(" | "))),
    }
}
thread_local!(static IDLE: std::cell::Cell<u64> = std::cell::Cell::new(0));

/// Data race reports whose accesses are made by the library's own code.
fn races(err: &str) -> Vec<String> {
    let mut out = vec![];
    for rep in err.split("WARNING: ThreadSanitizer:").skip(1) {
        let kind = rep.lines().next().unwrap_or("").trim().to_string();
        // the frames of the first two stacks, innermost first
        let mut stacks: Vec<Vec<String>> = vec![];
        for l in rep.lines() {
            let t = l.trim();
            if t.starts_with('#') {
                if let Some(s) = stacks.last_mut() {
                    s.push(t.splitn(2, ' ').nth(1).unwrap_or("").to_string());
                }
            } else if t.ends_with(':') || t.contains(" by ") {
                stacks.push(vec![]);
            }
        }
        // the innermost frame that is not of the standard library
        let own = |s: &Vec<String>| s.iter().find(|f| !["core::", "alloc::", "std::", "<core", "<alloc", "<std", "__tsan", "memcpy", "memmove", "malloc", "free", "__interceptor"].iter().any(|p| f.starts_with(p))).map(|f| f.contains("plonky") || f.contains("plookup") || f.contains("/repo/")).unwrap_or(false);
        if stacks.iter().take(2).any(own) {
            out.push(format!("{}: {}", kind, stacks.iter().take(2).map(|s| s.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")).collect::<Vec<_>>().join("  AND  ")));
        }
    }
    out
}

fn parent(c: &Ctx) {
    let seed = c.seed;
    let tsan = std::env::var("VMON_TSAN_BIN").map(|p| std::path::Path::new(&p).exists()).unwrap_or(false);
    let limit = Duration::from_secs(if c.thorough { 900 } else { 350 });
    // the reference: one thread, one order
    let mut want: BTreeMap<&'static str, BTreeMap<String, String>> = BTreeMap::new();
    let big = if c.thorough { "full" } else { "all" };
    let sets: Vec<&'static str> = vec![big, "first", "tsan"];
    let refs: Vec<(&'static str, Outcome)> = sets.par_iter().map(|&s| (s, spawn(&Run { mode: "seq", set: s, pool: 1, threads: 1, sched: 0, cpus: 0, tsan: false }, seed, limit))).collect();
    for (s, o) in refs {
        match o {
            Outcome::Done(o, _) => {
                let m: BTreeMap<String, String> = o.lines().filter_map(|l| l.strip_prefix("R ")).map(|l| (l[17..].to_string(), l[..16].to_string())).collect();
                c.evn(&format!("operation of set {}", s), m.len() as u64, &m.keys().map(|k| h64(k)).collect::<Vec<_>>());
                want.insert(s, m);
            }
            Outcome::Hung(e) => return c.viol("hang", format!("a single thread, set {}: {}", s, e)),
            Outcome::Died(e) => return c.viol("crash", format!("a single thread, set {}: {}", s, e)),
        }
    }
    let mut runs: Vec<Run> = vec![];
    let mut rng = c.rng("runs");
    let mut sched = || rng.gen_range(1u64, 1 << 40);
    let base = Run { mode: "seq", set: big, pool: 1, threads: 1, sched: 0, cpus: 0, tsan: false };
    for &p in &[2usize, 5, 16] {
        runs.push(Run { pool: p, sched: sched(), ..base.clone() });
    }
    for k in 0..c.n(1, 8) {
        for &(t, p, cpus) in &[(2usize, 1usize, 0usize), (4, 2, 1), (8, 4, 2), (6, 3, 0), (16, 8, 3)] {
            runs.push(Run { mode: "callers", threads: t, pool: p, cpus, sched: sched(), ..base.clone() });
        }
        for &(p, cpus) in &[(1usize, 0usize), (2, 1), (4, 0), (16, 2)] {
            runs.push(Run { mode: "workers", pool: p, cpus, sched: sched(), ..base.clone() });
        }
        for &(t, cpus) in &[(3usize, 0usize), (6, 2)] {
            runs.push(Run { mode: "pools", threads: t, pool: 2, cpus, sched: sched(), ..base.clone() });
        }
        let _ = k;
    }
    // concurrent first use, in fresh processes
    for k in 0..c.n(24, 600) {
        let mode = ["callers", "workers", "callers", "pools", "seq"][k % 5];
        runs.push(Run { mode, set: "first", threads: [2, 3, 8, 16, 5, 4][k % 6], pool: [4, 1, 2, 8, 3, 16, 5][k % 7], cpus: [0, 1, 0, 2, 3][k / 2 % 5], sched: sched(), ..base.clone() });
    }
    if tsan {
        for k in 0..c.n(3, 40) {
            let mode = ["callers", "workers", "pools"][k % 3];
            runs.push(Run { mode, set: "tsan", threads: 4, pool: [3, 4, 2][k % 3], tsan: true, sched: sched(), ..base.clone() });
        }
    } else {
        c.note("no ThreadSanitizer build was found");
    }
    // the long ones first; two or three children at a time
    runs.sort_by_key(|r| (!r.tsan, r.set == "first"));
    let queue = Mutex::new(runs.into_iter());
    let sigs: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    let work = || loop {
        let r = match queue.lock().unwrap().next() {
            Some(r) => r,
            None => return,
        };
        if c.thorough && !c.time_left() {
            return;
        }
        let what = format!("{:?}", r);
        match spawn(&r, seed, limit) {
            Outcome::Hung(e) => c.viol(&format!("hang:{}:{}", r.mode, r.set), format!("{}: {}", what, e)),
            Outcome::Died(e) => c.viol(&format!("crash:{}:{}", r.mode, r.set), format!("{}: {}", what, e)),
            Outcome::Done(o, e) => {
                let w = &want[r.set];
                let mut n = 0;
                for l in o.lines() {
                    if let Some(l) = l.strip_prefix("R ") {
                        let (got, op) = (&l[..16], &l[17..]);
                        n += 1;
                        if w.get(op).map(|x| x != got).unwrap_or(true) {
                            c.viol(&format!("differs:{}", op.split('/').last().unwrap_or("").split(' ').next().unwrap_or("")), format!("{}: {} gave {}, a single thread {:?}", what, op, got, w.get(op)));
                        }
                    } else if let Some(l) = l.strip_prefix("S ") {
                        let mut it = l.split(' ');
                        let ev: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        let sig: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        sigs.lock().unwrap().insert(sig);
                        c.evn("scheduling events seen", ev, &[sig]);
                        c.ev("distinct interleavings of operations", &sig, r.mode != "seq");
                    }
                }
                c.evn(&format!("result compared: {} {}{}", r.mode, r.set, if r.tsan { " (ThreadSanitizer)" } else { "" }), n, &[h64(&what)]);
                c.ev("run", &what, true);
                if r.tsan {
                    let all = e.matches("WARNING: ThreadSanitizer").count();
                    let own = races(&e);
                    c.evn("ThreadSanitizer report outside the library (not counted)", (all - own.len()) as u64, &[h64(&what)]);
                    for x in own {
                        c.viol("data-race", x);
                    }
                    c.ev("ThreadSanitizer run", &what, true);
                }
            }
        }
    };
    on_threads(c.n(4, 4), |_| work());
    c.sample("interleavings", || format!("{} distinct orders of starts and ends of operations", sigs.lock().unwrap().len()));
    c.require("run", 20);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|x| x == "--child").unwrap_or(false) {
        return child(&a[2], &a[3], a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    }
    let c = Ctx::new("C23");
    c.section("runs", parent);
    c.assume("ThreadSanitizer sees the library, rayon and the harness, but not the precompiled standard library; reports whose accesses lie in other crates are not counted");
    c.finish();
}
