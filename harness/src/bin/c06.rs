//! C06: verification always returns a verdict, whatever proof and public input it is given.
use harness::cairo::hex;
use harness::cairoair::{subject, table_of};
use harness::progair::*;
use harness::proofs::*;
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof};
use harness::shipped;
use lambdaworks_stark::starks::example::fibonacci_rap::{FibonacciRAP, FibonacciRAPPublicInputs};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::starks::{prover::prove, verifier::verify};
use serde_json::json;

/// Parts of other proofs, nonsense, several alterations at once.
fn wreck(p: &P, others: &[P], rng: &mut Rng) -> (String, P) {
    let mut q = copy(p);
    let mut how = vec![];
    for _ in 0..rng.range(1, 4) {
        let o = &others[rng.below(others.len())];
        match rng.below(16) {
            0 => {
                q.trace_length = length(rng);
                how.push("length".to_string());
            }
            1 => {
                q.trace_ood_frame_evaluations = frame(rng);
                how.push("frame".into());
            }
            2 => {
                q.query_list = list(rng, 9, decommitment);
                how.push("queries".into());
            }
            3 => {
                q.deep_poly_openings = list(rng, 9, opening);
                how.push("openings".into());
            }
            4 => {
                if !q.query_list.is_empty() {
                    let k = rng.below(q.query_list.len());
                    q.query_list[k] = decommitment(rng);
                }
                how.push("one query".into());
            }
            5 => {
                if !q.deep_poly_openings.is_empty() {
                    let k = rng.below(q.deep_poly_openings.len());
                    q.deep_poly_openings[k] = opening(rng);
                }
                how.push("one opening".into());
            }
            6 => {
                q.fri_layers_merkle_roots = list(rng, 12, |r| r.bytes32());
                how.push("layers".into());
            }
            7 => {
                q.lde_trace_merkle_roots = list(rng, 4, |r| r.bytes32());
                how.push("roots".into());
            }
            8 => {
                let x = copy(o);
                match rng.below(6) {
                    0 => q.trace_length = x.trace_length,
                    1 => q.trace_ood_frame_evaluations = x.trace_ood_frame_evaluations,
                    2 => q.query_list = x.query_list,
                    3 => q.deep_poly_openings = x.deep_poly_openings,
                    4 => q.fri_layers_merkle_roots = x.fri_layers_merkle_roots,
                    _ => q.lde_trace_merkle_roots = x.lde_trace_merkle_roots,
                }
                how.push("part of another proof".into());
            }
            _ => {
                // alter() works on proofs that have parts to alter
                let whole = !q.query_list.is_empty()
                    && q.deep_poly_openings.len() >= q.query_list.len()
                    && !q.fri_layers_merkle_roots.is_empty()
                    && !q.lde_trace_merkle_roots.is_empty()
                    && guard(|| frame_rows(&q.trace_ood_frame_evaluations).len()).map_or(false, |n| n > 0);
                if whole {
                    let which = rng.below(COMPONENTS);
                    if let Ok(h) = guard(|| {
                        let mut t = copy(&q);
                        let h = alter(&mut t, which, rng);
                        (h, t)
                    }) {
                        q = h.1;
                        how.push(h.0);
                    }
                }
            }
        }
    }
    (how.join(", "), q)
}

/// The proof, for a trace of 2^k rows: everything that depends on its length is there.
fn stretch(p: &P, k: usize, blowup: usize, rng: &mut Rng) -> P {
    let mut q = copy(p);
    let layers = k.max(1);
    let path = k + blowup.trailing_zeros() as usize;
    let fit = |path: &mut Vec<[u8; 32]>, n: usize, rng: &mut Rng| path.resize_with(n, || rng.bytes32());
    q.trace_length = 1 << k;
    q.fri_layers_merkle_roots.resize_with(layers, || rng.bytes32());
    for o in &mut q.deep_poly_openings {
        fit(&mut o.lde_composition_poly_proof.merkle_path, path, rng);
        for m in &mut o.lde_trace_merkle_proofs {
            fit(&mut m.merkle_path, path, rng);
        }
    }
    for d in &mut q.query_list {
        for v in [&mut d.layers_evaluations, &mut d.layers_evaluations_sym] {
            v.resize_with(layers, || rng.fe());
        }
        for v in [&mut d.layers_auth_paths, &mut d.layers_auth_paths_sym] {
            v.resize_with(layers, || lambdaworks_crypto::merkle_tree::proof::Proof { merkle_path: vec![] });
            for (l, m) in v.iter_mut().enumerate() {
                fit(&mut m.merkle_path, path - l, rng);
            }
        }
    }
    q
}

fn options(o: &ProofOptions, rng: &mut Rng) -> ProofOptions {
    let mut o = o.clone();
    if rng.chance(1, 3) {
        match rng.below(4) {
            0 => o.blowup_factor = 1 << rng.range(1, 5),
            1 => o.fri_number_of_queries = rng.below(20),
            2 => o.grinding_factor = rng.below(70) as u8,
            _ => o.coset_offset = [3, 5, 7, 1 << 40][rng.below(4)],
        }
    }
    o
}

fn main() {
    let mut ck = Check::new(
        "C06",
        "one evaluation per verification of a hostile proof (parts replaced by nonsense, cut, swapped between proofs, \
         decoded from damaged bytes, made up altogether), public input or option set; a panic, an overflow or no answer \
         within the watchdog's limit is a violation; distinct by proof bytes",
    );
    let mut rng = ck.rng.clone();
    let rounds = ck.n(140, 3000);
    let per = ck.n(180, 400);
    let mut pool: Vec<P> = vec![];
    let mut verdict = |ck: &mut Check, what: &str, d: serde_json::Value, q: &P, f: &dyn Fn() -> bool| {
        ck.begin(&d.to_string());
        let t = std::time::Instant::now();
        match guard(f) {
            Ok(v) => ck.count(if v { "accepted" } else { "rejected" }, 1),
            Err(p) => ck.violation(
                "verification-panic",
                json!({"case": d, "panic": p, "proof": guard(|| q.serialize()).map_or(String::new(), |b| b.iter().take(40_000).map(|x| format!("{x:02x}")).collect::<String>())}),
            ),
        }
        // minutes of work for a small proof would be no verdict either; domains of 2^19 points take about a second
        ck.expect(t.elapsed().as_secs() < 60, "verification-too-slow", || d.clone());
        ck.count(what, 1);
        let bytes = guard(|| q.serialize()).unwrap_or_default();
        ck.eval(&[d.to_string().into_bytes(), bytes].concat(), true);
    };
    for i in 0..rounds {
        if ck.stop() {
            break;
        }
        let cairo = i % 4 == 3;
        if !cairo {
            let lim = Limits {
                min_log_n: [0, 1, 2, 3][i % 4],
                max_log_n: [1, 3, 5, 6][i % 4],
                max_lde: 512,
                queries: (1, 9),
                max_grind: 2,
                max_cols: [2, 4, 8, 3][i % 4],
            };
            let c = gen_case(&mut rng, &lim);
            ck.begin(&c.brief().to_string());
            let Ok(p) = guard(|| prove_trace(&c.spec, &c.main, &c.opts)) else { continue };
            pool.push(copy(&p));
            if pool.len() > 12 {
                pool.remove(0);
            }
            for j in 0..per {
                if ck.stop() {
                    break;
                }
                let (how, q) = match j % 10 {
                    0 => ("nonsense".to_string(), nonsense(&mut rng)),
                    1 => {
                        let k = rng.below(pool.len());
                        ("another proof".into(), copy(&pool[k]))
                    }
                    2 => {
                        let mut b = p.serialize();
                        for _ in 0..rng.range(1, 6) {
                            let at = if rng.chance(1, 2) { rng.below(b.len()) } else { rng.below(b.len().min(64)) };
                            b[at] ^= 1 << rng.below(8);
                        }
                        match guard(|| P::deserialize(&b)) {
                            Ok(Ok(q)) => ("damaged bytes".into(), q),
                            _ => continue,
                        }
                    }
                    3 => {
                        let k = rng.below(56);
                        ("stretched".into(), stretch(&p, k, c.opts.real().blowup_factor as usize, &mut rng))
                    }
                    _ => wreck(&p, &pool, &mut rng),
                };
                if how == "stretched" {
                    ck.seen("lengths of proofs stretched to fit them", &q.trace_length.to_be_bytes());
                }
                let mut spec = c.spec.clone();
                let mut asserted = "";
                if j % 7 == 0 && !spec.bcs.is_empty() {
                    // a public input with odd assertions
                    let k = rng.below(spec.bcs.len());
                    spec.bcs[k].step = match rng.below(4) {
                        0 => usize::MAX,
                        1 => c.n,
                        2 => rng.u64() as usize,
                        _ => rng.below(4 * c.n),
                    };
                    asserted = "odd step";
                }
                let mut o = c.opts.clone();
                if j % 5 == 0 {
                    let r = options(&o.real(), &mut rng);
                    o.blowup = r.blowup_factor;
                    o.queries = r.fri_number_of_queries;
                    o.grinding = r.grinding_factor;
                }
                let d = json!({"proof": how, "assertions": asserted, "options": o.json(), "length": q.trace_length, "case": c.brief()});
                verdict(&mut ck, "hostile proofs of generated computations", d.clone(), &q, &|| accepts(&q, &spec, &o));
                ck.sample(json!({"proof": how, "length": q.trace_length}));
            }
        } else {
            let Some((run, main, pi)) = subject(i, &mut rng) else { continue };
            let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: rng.range(1, 5), coset_offset: 3, grinding_factor: 0 };
            let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &pi, &o)) else { continue };
            pool.push(copy(&p));
            for j in 0..per {
                if ck.stop() {
                    break;
                }
                let (how, q) = match j % 4 {
                    0 => ("itself".to_string(), copy(&p)),
                    1 if j % 8 == 1 => ("nonsense".to_string(), nonsense(&mut rng)),
                    2 if j % 8 == 2 => {
                        let k = rng.below(61);
                        ck.seen("lengths of Cairo proofs stretched to fit them", &[k as u8]);
                        ("stretched".into(), stretch(&p, k, 2, &mut rng))
                    }
                    _ => wreck(&p, &pool, &mut rng),
                };
                let pi2 = if j % 3 == 0 { inputs(&pi, &mut rng) } else { pi.clone() };
                let o2 = if j % 4 == 1 { options(&o, &mut rng) } else { o.clone() };
                // small domains: a Cairo frame is wide
                let d = json!({"proof": how, "length": q.trace_length, "run": run.brief(), "options": format!("{o2:?}"),
                    "input": format!("{:?}", (hex(&pi2.pc_init), pi2.num_steps, pi2.range_check_min, pi2.range_check_max, &pi2.memory_segments, pi2.public_memory.len()))});
                verdict(&mut ck, "hostile Cairo proofs and inputs", d, &q, &|| verify_cairo_proof(&q, &pi2, &o2));
            }
        }
    }
    // A shipped computation whose number of exempt rows follows from its public input.
    type A = FibonacciRAP<F>;
    for i in 0..ck.n(12, 200) {
        if ck.stop() {
            break;
        }
        let long = i % 6 == 5;
        let steps = if long { 1 << 10 } else { rng.range(2, 40) };
        let x = shipped::rap::<F>(&mut rng, steps, false);
        let o = Opts { blowup: 2, queries: rng.range(1, 5), coset: 3, grinding: 0 };
        let t = shipped::table(&x.cols);
        let begun = std::time::Instant::now();
        ck.begin(&x.brief.to_string());
        let Ok(Ok(p)) = guard(|| prove::<F, A>(&t, &x.pubs, &o.real())) else { continue };
        let proving = begun.elapsed();
        let begun = std::time::Instant::now();
        let d = json!({"proof": "itself", "run": x.brief, "options": o.json()});
        verdict(&mut ck, "proofs of a shipped computation", d.clone(), &p, &|| verify::<F, A>(&p, &x.pubs, &o.real()));
        if long {
            let verifying = begun.elapsed();
            ck.expect(verifying < proving, "verification-dearer-than-proving", || {
                json!({"case": d, "proving_ms": proving.as_millis() as u64, "verifying_ms": verifying.as_millis() as u64})
            });
            ck.count("verification timed against proving", 1);
            continue;
        }
        for j in 0..per {
            if ck.stop() {
                break;
            }
            let (how, q) = match j % 4 {
                _ if i == 0 && j < 2 => {
                    let mut q = copy(&p);
                    q.trace_length = [1, 1 << 40][j];
                    ("another length".into(), q)
                }
                0 => ("nonsense".to_string(), nonsense(&mut rng)),
                1 | 2 => ("stretched".into(), stretch(&p, (i + j) % 57, 2, &mut rng)),
                _ => wreck(&p, &pool, &mut rng),
            };
            let steps = match j % 5 {
                0 if i == 0 => 100,
                0 => rng.range(0, 300),
                1 => rng.range(0, 5),
                _ => x.pubs.steps,
            };
            let pubs = FibonacciRAPPublicInputs { steps, a0: x.pubs.a0.clone(), a1: x.pubs.a1.clone() };
            let d = json!({"proof": how, "length": q.trace_length, "run": x.brief, "steps claimed": steps, "options": o.json()});
            // the number of exempt rows is the claimed length less the claimed steps, plus two
            if q.trace_length.checked_add(2).is_some_and(|n| n < steps) {
                if guard(|| verify::<F, A>(&q, &pubs, &o.real())).is_err() {
                    ck.violation("rap-short-claim", d);
                }
                continue;
            }
            if q.trace_length > 1 << 12 {
                // not verified: only looked at
                if q.trace_length > 1 << 30 && q.trace_length < 1 << 62 {
                    let a = guard(|| <A as AIR>::new(q.trace_length, &pubs, &o.real()));
                    if a.is_ok_and(|a| a.context().transition_exemptions.iter().any(|e| *e > 1 << 29)) {
                        ck.violation("rap-long-claim", d);
                    }
                }
                continue;
            }
            verdict(&mut ck, "hostile proofs of a shipped computation", d, &q, &|| verify::<F, A>(&q, &pubs, &o.real()));
        }
    }
    ck.finish();
}
