//! C28: the multi-threaded prover gives the sequential result on every schedule.
//!
//! The same program is built with and without the prover's `parallel` feature. The sequential
//! build is the reference; both builds are then run as workers that produce the same results
//! under varied numbers of threads, orders, injected delays and neighbours.
use harness::cairoair::{self, subject, table_of};
use harness::progair::*;
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::traits::Serializable;
use lambdaworks_stark::cairo::air::{CairoAIR, PublicInputs};
use lambdaworks_stark::starks::constraints::boundary::BoundaryConstraints;
use lambdaworks_stark::starks::constraints::evaluator::ConstraintEvaluator;
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::{PrimeField, FE};
use serde_json::json;
use sha3::{Digest, Sha3_256};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---- what the monitor sees of the schedule ----

static NEXT: AtomicU64 = AtomicU64::new(1);
static LOG: Mutex<Vec<u64>> = Mutex::new(vec![]);
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static MOST_INSIDE: AtomicUsize = AtomicUsize::new(0);
static DELAYS: AtomicU64 = AtomicU64::new(0);
thread_local! {
    static ME: u64 = NEXT.fetch_add(1, SeqCst);
    static DICE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A point where the schedule is recorded and disturbed.
fn point(jitter: u64) {
    if jitter == 0 {
        return;
    }
    let me = ME.with(|m| *m);
    let k = INSIDE.fetch_add(1, SeqCst) + 1;
    MOST_INSIDE.fetch_max(k, SeqCst);
    if let Ok(mut l) = LOG.try_lock() {
        l.push(me);
    }
    let x = DICE.with(|d| {
        let mut x = d.get();
        if x == 0 {
            x = jitter ^ me.wrapping_mul(0x9e3779b97f4a7c15) | 1;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        d.set(x);
        x
    });
    match x >> 20 & 0x7f {
        0..=9 => std::thread::yield_now(),
        10..=13 => {
            let t = Instant::now();
            while t.elapsed() < Duration::from_micros(20) {
                std::hint::spin_loop()
            }
        }
        14 => std::thread::sleep(Duration::from_micros(100)),
        _ => {
            INSIDE.fetch_sub(1, SeqCst);
            return;
        }
    }
    DELAYS.fetch_add(1, SeqCst);
    INSIDE.fetch_sub(1, SeqCst);
}

/// A computation whose constraint evaluation passes through `point`.
#[derive(Clone)]
struct Watched<A> {
    inner: A,
    jitter: u64,
}

impl<A: AIR> AIR for Watched<A>
where
    A::PublicInputs: Clone,
{
    type Field = A::Field;
    type RAPChallenges = A::RAPChallenges;
    type PublicInputs = (A::PublicInputs, u64);

    fn new(n: usize, p: &(A::PublicInputs, u64), o: &ProofOptions) -> Self {
        Watched { inner: A::new(n, &p.0, o), jitter: p.1 }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<A::Field>, c: &A::RAPChallenges) -> TraceTable<A::Field> {
        self.inner.build_auxiliary_trace(main, c)
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> A::RAPChallenges {
        self.inner.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.inner.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.inner.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<A::Field>, c: &A::RAPChallenges) -> Vec<lambdaworks_math::field::element::FieldElement<A::Field>> {
        point(self.jitter);
        self.inner.compute_transition(f, c)
    }
    fn boundary_constraints(&self, c: &A::RAPChallenges) -> BoundaryConstraints<A::Field> {
        self.inner.boundary_constraints(c)
    }
    fn context(&self) -> &AirContext {
        self.inner.context()
    }
    fn trace_length(&self) -> usize {
        self.inner.trace_length()
    }
    fn pub_inputs(&self) -> &(A::PublicInputs, u64) {
        unimplemented!("not used by the prover")
    }
}

// ---- the work ----

enum Job {
    Prove { case: Case },
    Evaluate { case: Case, table: TraceTable<PrimeField>, chals: Vec<FE>, bw: Vec<(FE, FE)>, tw: Vec<(FE, FE)> },
    Cairo { main: TraceTable<PrimeField>, pi: PublicInputs, o: ProofOptions },
    EvaluateCairo { n: usize, table: TraceTable<PrimeField>, ch: cairoair::Ch, pi: PublicInputs, o: ProofOptions, bw: Vec<(FE, FE)>, tw: Vec<(FE, FE)> },
}

fn weights(rng: &mut Rng, k: usize) -> Vec<(FE, FE)> {
    (0..k).map(|_| (rng.fe_big(), rng.fe_big())).collect()
}
fn random_table(rows: usize, cols: usize, rng: &mut Rng) -> TraceTable<PrimeField> {
    TraceTable { table: (0..rows * cols).map(|_| rng.fe()).collect(), n_cols: cols }
}

fn job(seed: u64, k: usize, deep: bool) -> Job {
    let mut rng = Rng::new(seed.wrapping_mul(1_000_003) + k as u64, "C28 job");
    let big = if deep { 4096 } else { 1024 };
    let lim = Limits {
        min_log_n: [1, 4, 2, 5][k / 4 % 4],
        max_log_n: [3, 7, 5, 8][k / 4 % 4],
        max_lde: [128, big, 512, big][k / 4 % 4],
        queries: (1, 6),
        max_grind: [0, 8, 3, 11][k / 2 % 4],
        max_cols: [2, 8, 5, 3][k % 4],
    };
    if k % 64 == 17 {
        // a long one, which no pool of threads takes in one piece
        let lim = Limits { min_log_n: 11, max_log_n: if deep { 14 } else { 13 }, max_lde: if deep { 1 << 16 } else { 1 << 14 }, queries: (1, 3), max_grind: 3, max_cols: 2 };
        return Job::Prove { case: gen_case(&mut rng, &lim) };
    }
    match k % 8 {
        3 | 6 => {
            let mut c = gen_case(&mut rng, &lim);
            for con in c.spec.cons.iter_mut() {
                if rng.chance(1, 2) {
                    con.exempt = rng.below(c.n.min(5));
                }
            }
            let m = c.n * c.opts.blowup as usize;
            let table = random_table(m, c.spec.width(), &mut rng);
            let chals = (0..c.spec.chals).map(|_| rng.fe_big()).collect();
            let (bw, tw) = (weights(&mut rng, c.spec.bcs.len()), weights(&mut rng, c.spec.cons.len()));
            Job::Evaluate { case: c, table, chals, bw, tw }
        }
        5 | 7 => loop {
            let Some((_, main, mut pi)) = subject(rng.below(3), &mut rng) else { continue };
            let o = ProofOptions {
                blowup_factor: [2, 4, 8][rng.below(3)],
                fri_number_of_queries: rng.range(1, 5),
                coset_offset: 3,
                grinding_factor: [0, 4, 9][rng.below(3)],
            };
            if k % 8 == 5 {
                return Job::Cairo { main: table_of(&main), pi, o };
            }
            pi.range_check_min = Some(0);
            pi.range_check_max = Some(65535);
            let n = 1 << rng.range(2, 7);
            let rc = cairoair::has_rc(&pi);
            let table = random_table(n * o.blowup_factor as usize, cairoair::main_cols(rc) + cairoair::AUX, &mut rng);
            let ch = cairoair::Ch::random(&mut rng);
            let a = cairoair::air(&pi, n, &o);
            let b = a.boundary_constraints(&ch.real()).constraints.len();
            let t = a.context().num_transition_constraints;
            let (bw, tw) = (weights(&mut rng, b), weights(&mut rng, t));
            return Job::EvaluateCairo { n, table, ch, pi, o, bw, tw };
        },
        _ => Job::Prove { case: gen_case(&mut rng, &lim) },
    }
}

fn digest(b: &[u8]) -> String {
    Sha3_256::digest(b).iter().take(16).map(|x| format!("{x:02x}")).collect()
}
fn digest_of_values(v: &[FE]) -> String {
    digest(&v.iter().flat_map(|x| x.to_bytes_be()).collect::<Vec<u8>>())
}

impl Job {
    fn brief(&self) -> String {
        match self {
            Job::Prove { case } => format!("proof of {}", case.brief()),
            Job::Evaluate { case, .. } => format!("evaluations of {}", case.brief()),
            Job::Cairo { main, pi, o } => format!("Cairo proof, {} rows, {} steps, {o:?}", main.n_rows(), pi.num_steps),
            Job::EvaluateCairo { n, o, .. } => format!("Cairo evaluations, {n} rows, {o:?}"),
        }
    }
    /// A digest of the proof or of all evaluations, and its size.
    fn run(&self, jitter: u64) -> (String, usize) {
        match self {
            Job::Prove { case } => {
                let p = prove::<F, Watched<ProgAir>>(&to_table(&case.main), &(Arc::new(case.spec.clone()), jitter), &case.opts.real());
                let b = p.map(|p| p.serialize()).unwrap_or_default();
                (digest(&b), b.len())
            }
            Job::Evaluate { case, table, chals, bw, tw } => {
                let air = <Watched<ProgAir> as AIR>::new(case.n, &(Arc::new(case.spec.clone()), jitter), &case.opts.real());
                let t = ConstraintEvaluator::new(&air, chals).evaluate(table, &Domain::new(&air), tw, bw, chals);
                (digest_of_values(&t.evaluations_acc), t.evaluations_acc.len())
            }
            Job::Cairo { main, pi, o } => {
                let p = prove::<PrimeField, Watched<CairoAIR>>(main, &(pi.clone(), jitter), o);
                let b = p.map(|p| p.serialize()).unwrap_or_default();
                (digest(&b), b.len())
            }
            Job::EvaluateCairo { n, table, ch, pi, o, bw, tw } => {
                let air = <Watched<CairoAIR> as AIR>::new(*n, &(pi.clone(), jitter), o);
                let c = ch.real();
                let t = ConstraintEvaluator::new(&air, &c).evaluate(table, &Domain::new(&air), tw, bw, &c);
                (digest_of_values(&t.evaluations_acc), t.evaluations_acc.len())
            }
        }
    }
}

/// What a worker is told, in one line.
#[derive(Clone, Debug)]
struct Order {
    seed: u64,
    jobs: usize,
    deep: bool,
    /// provers running at a time
    together: usize,
    /// times each job is done
    rounds: usize,
    jitter: u64,
}

fn worker(s: &str) {
    let x: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
    let o = Order { seed: x[0], jobs: x[1] as usize, deep: x[2] == 1, together: x[3] as usize, rounds: x[4] as usize, jitter: x[5] };
    let jobs: Vec<Job> = (0..o.jobs).map(|k| job(o.seed, k, o.deep)).collect();
    let mut rng = Rng::new(o.seed ^ o.jitter.rotate_left(17), "C28 worker");
    let mut list: Vec<usize> = (0..o.rounds).flat_map(|_| 0..o.jobs).collect();
    rng.shuffle(&mut list);
    let next = AtomicUsize::new(0);
    let out = Mutex::new(());
    let schedules: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    let threads: Mutex<BTreeSet<u64>> = Mutex::new(BTreeSet::new());
    let switches = AtomicU64::new(0);
    let points = AtomicU64::new(0);
    let active = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..o.together {
            s.spawn(|| loop {
                let i = next.fetch_add(1, SeqCst);
                let Some(k) = list.get(i) else { break };
                most.fetch_max(active.fetch_add(1, SeqCst) + 1, SeqCst);
                let jitter = if o.jitter == 0 { 0 } else { o.jitter.wrapping_add((i as u64) << 8) | 1 };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| jobs[*k].run(jitter)));
                active.fetch_sub(1, SeqCst);
                let _g = out.lock().unwrap();
                match r {
                    Ok((h, n)) => println!("DONE {k} {h} {n}"),
                    Err(_) => println!("PANIC {k}"),
                }
                let l = std::mem::take(&mut *LOG.lock().unwrap());
                if !l.is_empty() {
                    points.fetch_add(l.len() as u64, SeqCst);
                    switches.fetch_add(l.windows(2).filter(|w| w[0] != w[1]).count() as u64, SeqCst);
                    // the schedule: which thread came when, whatever the threads are called
                    let mut names: BTreeMap<u64, u64> = BTreeMap::new();
                    let mut h = *k as u64;
                    for t in &l {
                        let n = names.len() as u64;
                        let id = *names.entry(*t).or_insert(n);
                        h = (h ^ id).wrapping_mul(0x100000001b3).rotate_left(5);
                    }
                    schedules.lock().unwrap().insert(h);
                    threads.lock().unwrap().extend(l);
                }
            });
        }
    });
    println!(
        "SEEN {} {} {} {} {} {} {}",
        points.load(SeqCst),
        switches.load(SeqCst),
        schedules.lock().unwrap().len(),
        threads.lock().unwrap().len(),
        MOST_INSIDE.load(SeqCst),
        most.load(SeqCst),
        DELAYS.load(SeqCst)
    );
}

/// Runs a worker and returns its lines; None when it does not end in time.
fn employ(bin: &str, threads: usize, o: &Order, cpus: Option<usize>, limit: Duration) -> Option<(Vec<String>, Option<i32>)> {
    let order = format!("{},{},{},{},{},{}", o.seed, o.jobs, o.deep as u8, o.together, o.rounds, o.jitter);
    let mut c = match cpus {
        Some(n) => {
            let mut c = Command::new("taskset");
            c.args(["-c", &format!("0-{}", n - 1), bin]);
            c
        }
        None => Command::new(bin),
    };
    let mut ch = c
        .env("VERIF_C28_ORDER", order)
        .env("RAYON_NUM_THREADS", threads.to_string())
        .env_remove("VERIF_CHILD")
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let out = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = BufReader::new(out).read_to_string(&mut s);
        s.lines().map(|l| l.to_string()).collect::<Vec<_>>()
    });
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            return Some((reader.join().unwrap_or_default(), st.code()));
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn main() {
    if let Ok(o) = std::env::var("VERIF_C28_ORDER") {
        std::panic::set_hook(Box::new(|_| {}));
        return worker(&o);
    }
    let mut ck = Check::new(
        "C28",
        "one evaluation per proof, or table of constraint evaluations at every domain point, produced by a worker under some \
         number of threads, order, injected delays and neighbours, and compared byte for byte with the sequential result; \
         distinct by job and configuration",
    );
    let seq = std::env::current_exe().unwrap().to_string_lossy().to_string();
    let Ok(par) = std::env::var("VERIF_PAR_BIN") else {
        println!("VERIF_PAR_BIN is not set");
        std::process::exit(2)
    };
    let _ = std::io::stdin().lock().lines();
    let rounds = ck.n(1, 12);
    let deep = ck.thorough();
    let taskset = Command::new("taskset").arg("-V").output().map_or(false, |o| o.status.success());
    for round in 0..rounds {
        if ck.stop() {
            break;
        }
        let seed = ck.rng.u64() >> 8;
        let n = if deep { 96 } else { 64 };
        ck.begin(&format!("reference, round {round}, seed {seed}"));
        let jobs: Vec<Job> = (0..n).map(|k| job(seed, k, deep)).collect();
        let mut want: Vec<Option<(String, usize)>> = vec![];
        for (k, j) in jobs.iter().enumerate() {
            want.push(ck.run("reference-panic", || json!({"seed": seed, "job": k, "what": j.brief()}), || j.run(0)));
        }
        let o = Order { seed, jobs: n, deep, together: 1, rounds: 1, jitter: 0 };
        let mut plan: Vec<(&str, usize, Order, Option<usize>)> = vec![];
        // the sequential prover, several at a time and in another order
        plan.push(("sequential", 1, Order { together: 1, jitter: 3, ..o.clone() }, None));
        plan.push(("sequential", 1, Order { together: 6, rounds: 2, jitter: 5, ..o.clone() }, None));
        for t in [1, 2, 3, 4, 7, 8, 16, 33] {
            plan.push(("parallel", t, Order { jitter: 11 * t as u64, ..o.clone() }, None));
        }
        for t in [2, 8] {
            plan.push(("parallel", t, o.clone(), None));
        }
        for (t, together) in [(2, 5), (3, 2), (8, 4), (8, 12), (16, 3)] {
            plan.push(("parallel", t, Order { together, rounds: if deep { 4 } else { 2 }, jitter: 1000 + t as u64, ..o.clone() }, None));
        }
        if taskset {
            // more threads than processors
            plan.push(("parallel", 8, Order { together: 3, jitter: 77, ..o.clone() }, Some(1)));
            plan.push(("parallel", 5, Order { together: 2, jitter: 78, ..o.clone() }, Some(2)));
        }
        for (build, threads, o, cpus) in plan {
            if ck.stop() {
                break;
            }
            let conf = json!({"build": build, "threads": threads, "provers at a time": o.together, "delays": o.jitter != 0, "processors": cpus, "seed": seed, "order": format!("{o:?}")});
            ck.begin(&conf.to_string());
            let bin = if build == "parallel" { &par } else { &seq };
            let Some((lines, code)) = employ(bin, threads, &o, cpus, Duration::from_secs(200)) else {
                ck.violation("no-answer", json!({"configuration": conf, "detail": "the worker did not end within 200 s"}));
                continue;
            };
            let mut done = 0;
            let mut ended = false;
            for l in &lines {
                let w: Vec<&str> = l.split(' ').collect();
                match w[0] {
                    "DONE" => {
                        let k: usize = w[1].parse().unwrap();
                        done += 1;
                        let Some(r) = &want[k] else { continue };
                        let same = r.0 == w[2] && r.1.to_string() == w[3];
                        ck.expect(same, "differs", || json!({"configuration": conf, "job": k, "what": jobs[k].brief(), "got": w[2], "size": w[3], "sequential": r}));
                        ck.count(match jobs[k] {
                            Job::Prove { .. } => "proofs compared",
                            Job::Cairo { .. } => "Cairo proofs compared",
                            _ => "evaluation tables compared",
                        }, 1);
                        ck.count("bytes or points compared", r.1 as u64);
                        ck.eval(format!("{k} {conf}").as_bytes(), r.1 > 0);
                    }
                    "PANIC" => {
                        let k: usize = w[1].parse().unwrap();
                        done += 1;
                        ck.violation("panic", json!({"configuration": conf, "job": k, "what": jobs[k].brief()}));
                    }
                    "SEEN" => {
                        ended = true;
                        let x: Vec<u64> = w[1..].iter().map(|x| x.parse().unwrap()).collect();
                        if o.jitter != 0 && build == "parallel" {
                            ck.count("scheduling points recorded", x[0]);
                            ck.count("changes of thread between points", x[1]);
                            ck.count("different schedules recorded", x[2]);
                            ck.count("delays injected", x[6]);
                            ck.seen("most threads inside the evaluation at once", &[x[4] as u8]);
                            ck.seen("threads evaluating, per worker", &[x[3] as u8]);
                        }
                        if o.together > 1 {
                            ck.seen("proofs in flight at once", &[x[5] as u8]);
                        }
                    }
                    _ => {}
                }
            }
            ck.expect(ended && done == o.jobs * o.rounds, "worker-died", || json!({"configuration": conf, "done": done, "of": o.jobs * o.rounds, "exit": code}));
            ck.seen("configurations", conf.to_string().as_bytes());
            ck.sample(conf);
        }
    }
    ck.assume("schedules are those the operating system and the injected delays bring about");
    ck.finish();
}
