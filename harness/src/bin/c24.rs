//! C24: every valid Cairo run can be proved and its proof verified.
use harness::cairo::*;
use harness::progair::gen_opts;
use harness::report::{guard, Check};
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::PrimeField;
use serde_json::{json, Value};

fn prove_and_verify(t: &TraceTable<PrimeField>, pi: &PublicInputs, o: &ProofOptions, again: bool, d: &Value, ck: &mut Check) {
    let Some(p) = ck.run("prove-panic", || d.clone(), || generate_cairo_proof(t, pi, o)) else { return };
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ck.violation("no-proof", json!({"case": d, "error": format!("{e:?}")}));
            return;
        }
    };
    let v = guard(|| verify_cairo_proof(&p, pi, o));
    ck.expect(v == Ok(true), "rejected", || json!({"case": d, "verdict": format!("{v:?}")}));
    if again {
        let r = guard(|| {
            let q = StarkProof::<PrimeField>::deserialize(&p.serialize()).map_err(|e| format!("{e:?}"))?;
            let i = PublicInputs::deserialize(&pi.serialize()).map_err(|e| format!("{e:?}"))?;
            Ok::<[bool; 3], String>([verify_cairo_proof(&q, &i, o), verify_cairo_proof(&p, &i, o), verify_cairo_proof(&q, pi, o)])
        });
        ck.expect(r == Ok(Ok([true; 3])), "rejected-after-serialization", || json!({"case": d, "outcome": format!("{r:?}")}));
        ck.count("proofs verified after serialization", 1);
    }
    ck.count("proofs verified", 1);
}

fn main() {
    let mut ck = Check::new(
        "C24",
        "one evaluation per Cairo run proved and verified by the real code: random programs executed by the check's own \
         machine, random programs executed by the virtual machine behind generate_prover_args (Cairo 0 and 1); distinct by run and options",
    );
    let n = ck.n(520, 12_000);
    let most = ck.n(512, 1 << 13);
    for kind in [0, 1, 4].into_iter().cycle().take(ck.n(3, 12)) {
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let run = if kind == 4 {
            let Some(r) = wild(20, &[(1, 40), (66_000, 66_040)], 18, &mut rng) else { continue };
            r
        } else {
            large(kind, false, &mut rng)
        };
        let mut pi = run.inputs();
        let d = json!({"kind": "large", "run": run.brief()});
        ck.begin(&d.to_string());
        let Some(t) = ck.run("trace-panic", || d.clone(), || build_main_trace(&run.states(), &run.memory(), &mut pi)) else { continue };
        let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 2, coset_offset: 3, grinding_factor: 0 };
        prove_and_verify(&t, &pi, &o, true, &d, &mut ck);
        ck.count("large", 1);
        ck.seen("trace lengths", &t.n_rows().to_be_bytes());
        ck.eval(d.to_string().as_bytes(), true);
    }
    for k in 0..n {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let kind = ["own", "own", "wild", "vm", "cairo1"][k % 5];
        ck.begin(kind);
        let (t, pi, what) = match kind {
            "own" | "wild" => {
                let run = if kind == "own" {
                    let mut g = structured(&mut rng, if k % 25 == 0 { 200 } else { 60 });
                    g.vm = false;
                    if k % 20 == 1 {
                        // mostly public
                        g.code = rng.range(100, 400) as u64;
                        g.steps = rng.range(2, 5);
                    }
                    if k % 15 == 5 {
                        g.out = Some(rng.range(8, 40));
                        g.steps = g.steps.max(40);
                        g.code = g.code.max(160);
                    }
                    generate(&g, &mut rng)
                } else {
                    let (steps, program) = (if rng.chance(1, 8) { 1 } else { rng.range(2, 24) }, rng.range(4, 22) as u64);
                    let set = if k % 300 == 112 {
                        // offsets thousands apart
                        &[(1, 40), (5_800, 5_840)][..]
                    } else {
                        [&[(1, 40)][..], &[(1, 60), (200, 260)], &[(1, 400)], &[(1, 30), (900, 930)]][rng.below(4)]
                    };
                    let Some(mut r) = wild(steps, set, program, &mut rng) else { continue };
                    if rng.chance(1, 2) {
                        with_output(&mut r, &mut rng);
                    }
                    r
                };
                if run.rc.map_or(false, |(s, e)| (e - s) as usize > run.regs.len()) {
                    continue;
                }
                for f in &run.features {
                    ck.seen("instruction forms proved", f.as_bytes());
                }
                let mut pi = run.inputs();
                let d = json!({"kind": kind, "run": run.brief()});
                ck.begin(&d.to_string());
                let Some(t) = ck.run("trace-panic", || d.clone(), || build_main_trace(&run.states(), &run.memory(), &mut pi)) else { continue };
                (t, pi, d)
            }
            _ => {
                let (program, version, out) = if kind == "vm" {
                    let mut g = structured(&mut rng, 50);
                    g.vm = true;
                    g.abrupt = false;
                    g.rc = [None, Some(6)][rng.below(2)];
                    g.out = [None, Some(6)][rng.below(2)];
                    let r = generate(&g, &mut rng);
                    if r.rc.map_or(false, |(s, e)| (e - s) as usize > r.regs.len()) {
                        continue;
                    }
                    for f in &r.features {
                        ck.seen("instruction forms proved", f.as_bytes());
                    }
                    // the output is given by whoever runs the program, or left private
                    let out = r.out.filter(|_| k % 10 != 3).map(|(s, e)| s..e);
                    (r.program_json(), CairoVersion::V0, out)
                } else if k % 40 == 4 {
                    let s = include_str!("../../data/fibonacci_cairo1.casm");
                    let v: Value = serde_json::from_str(s).unwrap();
                    (v, CairoVersion::V1, None)
                } else {
                    (cairo1(&mut rng), CairoVersion::V1, None)
                };
                let text = program.to_string();
                let d = json!({"kind": kind, "output": out.clone().map(|o| [o.start, o.end]), "program": program});
                ck.begin(&d.to_string());
                match guard(|| generate_prover_args(text.as_bytes(), &version, &out)) {
                    Ok(Ok((t, pi))) => (t, pi, d),
                    e => {
                        let e = match e {
                            Err(p) => p,
                            Ok(Err(e)) => format!("{e:?}"),
                            _ => unreachable!(),
                        };
                        ck.violation("not-run", json!({"case": d, "error": e}));
                        continue;
                    }
                }
            }
        };
        let rows = t.n_rows();
        if rows > if k % 300 == 112 { 1 << 14 } else { most } {
            ck.count("runs left out for their length", 1);
            continue;
        }
        let o = if k % 3 == 0 { gen_opts(&mut rng, rows, 1 << 12, (1, 5), 4) } else { gen_opts(&mut rng, rows, 0, (1, 3), 2) };
        let o = o.real();
        // composition of degree 2n needs an evaluation domain larger than that
        let o = ProofOptions { blowup_factor: o.blowup_factor.max(2), ..o };
        let d = json!({"case": what, "rows": rows, "options": format!("{o:?}")});
        prove_and_verify(&t, &pi, &o, k % 2 == 0, &d, &mut ck);
        ck.count(kind, 1);
        ck.seen("trace lengths", &rows.to_be_bytes());
        ck.eval(d.to_string().as_bytes(), true);
        ck.sample(json!({"kind": kind, "rows": rows, "steps": pi.num_steps, "public cells": pi.public_memory.len(),
            "segments": format!("{:?}", pi.memory_segments), "options": format!("{o:?}")}));
    }
    ck.finish();
}
