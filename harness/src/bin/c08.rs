//! C08: serialization of proofs and public inputs is lossless.
use harness::cairo::hex;
use harness::cairoair::{subject, table_of};
use harness::progair::*;
use harness::proofs::*;
use harness::shipped::{round, Sections};
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, MemorySegment, PublicInputs};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings;
use lambdaworks_stark::FE;
use serde_json::{json, Value};

/// Decodes the encoding; what went wrong, if anything.
fn there_and_back<T: Serializable + Deserializable>(x: &T, same: impl Fn(&T, &T) -> bool) -> Result<(T, Vec<u8>), String> {
    let b = guard(|| x.serialize()).map_err(|e| format!("encoding panicked: {e}"))?;
    let y = guard(|| T::deserialize(&b)).map_err(|e| format!("decoding panicked: {e}"))?;
    let y = y.map_err(|e| format!("own encoding does not decode: {e:?}"))?;
    if !same(x, &y) {
        return Err("decodes to another value".into());
    }
    let b2 = guard(|| y.serialize()).map_err(|e| format!("encoding again panicked: {e}"))?;
    if b != b2 {
        return Err("encodes differently the second time".into());
    }
    Ok((y, b))
}

fn sorted(p: &PublicInputs) -> (Vec<[u8; 32]>, Option<u16>, Option<u16>, Vec<(u8, u64, u64)>, Vec<(Vec<u8>, Vec<u8>)>, usize) {
    let mut m: Vec<_> = p.public_memory.iter().map(|(a, v)| (a.to_bytes_be(), v.to_bytes_be())).collect();
    m.sort();
    let mut s: Vec<_> = p
        .memory_segments
        .iter()
        .map(|(k, r)| (matches!(k, MemorySegment::Output) as u8, r.start, r.end))
        .collect();
    s.sort();
    (
        [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final].map(|x| harness::cairoair::canon(x)).to_vec(),
        p.range_check_min,
        p.range_check_max,
        s,
        m,
        p.num_steps,
    )
}

fn input_back(p: &PublicInputs) -> Result<PublicInputs, String> {
    let b = guard(|| p.serialize()).map_err(|e| format!("encoding panicked: {e}"))?;
    let q = guard(|| PublicInputs::deserialize(&b)).map_err(|e| format!("decoding panicked: {e}"))?;
    let q = q.map_err(|e| format!("own encoding does not decode: {e:?}"))?;
    if sorted(p) != sorted(&q) {
        return Err("decodes to another value".into());
    }
    // maps may come in another order
    let b2 = guard(|| q.serialize()).map_err(|e| format!("encoding again panicked: {e}"))?;
    let (mut x, mut y) = (b.clone(), b2.clone());
    x.sort_unstable();
    y.sort_unstable();
    if x != y {
        return Err("encodes to other bytes the second time".into());
    }
    match guard(|| PublicInputs::deserialize(&b2)) {
        Ok(Ok(r)) if sorted(&r) == sorted(p) => Ok(q),
        _ => Err("second encoding decodes to another value".into()),
    }
}

/// Components by themselves.
fn parts(ck: &mut Check, p: &P, d: &Value) {
    let f: Result<_, String> = there_and_back::<Frame<F>>(&p.trace_ood_frame_evaluations, |a, b| format!("{a:?}") == format!("{b:?}"));
    if let Err(e) = f {
        ck.violation("frame", json!({"case": d, "what": e}));
    }
    for q in p.query_list.iter().take(3) {
        if let Err(e) = there_and_back::<FriDecommitment<F>>(q, same_query) {
            ck.violation("decommitment", json!({"case": d, "what": e, "lists": [q.layers_auth_paths_sym.len(), q.layers_evaluations_sym.len(), q.layers_auth_paths.len(), q.layers_evaluations.len()]}));
        }
    }
    for o in p.deep_poly_openings.iter().take(3) {
        if let Err(e) = there_and_back::<DeepPolynomialOpenings<F>>(o, same_opening) {
            ck.violation("opening", json!({"case": d, "what": e}));
        }
    }
    ck.count("components", 1 + p.query_list.len().min(3) as u64 + p.deep_poly_openings.len().min(3) as u64);
}

fn extreme(rng: &mut Rng) -> FE {
    match rng.below(5) {
        0 => FE::zero(),
        1 => -FE::one(),
        2 => FE::from_hex("0x7ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff").unwrap_or_else(|_| rng.fe_big()),
        _ => rng.fe_big(),
    }
}

fn random_input(rng: &mut Rng) -> PublicInputs {
    let mut seg = lambdaworks_stark::cairo::air::MemorySegmentMap::new();
    for s in [MemorySegment::RangeCheck, MemorySegment::Output] {
        if rng.chance(1, 2) {
            let (a, b) = (rng.u64() >> rng.below(64), rng.u64() >> rng.below(64));
            seg.insert(s, a..b);
        }
    }
    let b = |rng: &mut Rng| [None, Some(0), Some(65535), Some(rng.u64() as u16), Some(256)][rng.below(5)];
    let n = [0, 1, 2, 30, 300][rng.below(5)];
    PublicInputs {
        pc_init: extreme(rng),
        ap_init: extreme(rng),
        fp_init: extreme(rng),
        pc_final: extreme(rng),
        ap_final: extreme(rng),
        range_check_min: b(rng),
        range_check_max: b(rng),
        memory_segments: seg,
        public_memory: (0..n).map(|_| (if rng.chance(1, 2) { FE::from(rng.u64()) } else { extreme(rng) }, extreme(rng))).collect(),
        num_steps: rng.u64() as usize >> rng.below(64),
    }
}

/// Every list in turn longer than one or two bytes can count.
fn long_lists(ck: &mut Check, rng: &mut Rng) {
    const LISTS: usize = 15;
    for which in 0..LISTS {
        for long in [rng.range(256, 300), rng.range(65_536, 66_000)] {
            let mut p = nonsense(rng);
            p.trace_length = 1 << 20;
            p.query_list = (0..2).map(|_| decommitment(rng)).collect();
            p.deep_poly_openings = (0..2).map(|_| opening(rng)).collect();
            let q = rng.below(2);
            let nodes = |rng: &mut Rng| -> Vec<[u8; 32]> { (0..long).map(|_| rng.bytes32()).collect() };
            let values = |rng: &mut Rng| -> Vec<FE> { (0..long).map(|_| rng.fe()).collect() };
            let some = || Path { merkle_path: vec![[7; 32]] };
            match which {
                0 => p.lde_trace_merkle_roots = nodes(rng),
                1 => p.trace_ood_frame_evaluations = Frame::new(values(rng), 1),
                2 => p.trace_ood_frame_evaluations = Frame::new(values(rng), long),
                3 => p.fri_layers_merkle_roots = nodes(rng),
                4 => p.query_list[q].layers_evaluations = values(rng),
                5 => p.query_list[q].layers_evaluations_sym = values(rng),
                6 => p.query_list[q].layers_auth_paths = vec![some(), Path { merkle_path: nodes(rng) }, some()],
                7 => p.query_list[q].layers_auth_paths_sym = vec![some(), Path { merkle_path: nodes(rng) }, some()],
                8 => p.query_list[q].layers_auth_paths = (0..long).map(|_| some()).collect(),
                9 => p.query_list[q].layers_auth_paths_sym = (0..long).map(|_| some()).collect(),
                10 => p.deep_poly_openings[q].lde_composition_poly_proof = Path { merkle_path: nodes(rng) },
                11 => p.deep_poly_openings[q].lde_trace_merkle_proofs = (0..long).map(|_| some()).collect(),
                12 => p.deep_poly_openings[q].lde_trace_evaluations = values(rng),
                13 => p.query_list = (0..long).map(|_| FriDecommitment { layers_auth_paths_sym: vec![], layers_evaluations_sym: vec![rng.fe()], layers_auth_paths: vec![], layers_evaluations: vec![] }).collect(),
                _ => {
                    let o = opening(rng);
                    p.deep_poly_openings = (0..long)
                        .map(|_| DeepPolynomialOpenings {
                            lde_composition_poly_proof: some(),
                            lde_composition_poly_even_evaluation: o.lde_composition_poly_even_evaluation.clone(),
                            lde_composition_poly_odd_evaluation: rng.fe(),
                            lde_trace_merkle_proofs: vec![],
                            lde_trace_evaluations: vec![],
                        })
                        .collect();
                }
            }
            let d = json!({"long list": which, "entries": long});
            ck.begin(&d.to_string());
            match there_and_back::<P>(&p, |a, b| difference(a, b).is_none()) {
                Ok((_, b)) => ck.eval(&b, true),
                Err(e) => {
                    ck.violation("proof", json!({"case": d, "what": e}));
                }
            }
            parts(ck, &p, &d);
            ck.count("proofs with a long list", 1);
        }
    }
    for cells in [256usize, 65_536, 70_001] {
        let mut pi = random_input(rng);
        pi.public_memory = (0..cells).map(|i| (FE::from(i as u64), rng.fe())).collect();
        let d = json!({"cells": cells});
        ck.begin(&d.to_string());
        if let Err(e) = input_back(&pi) {
            ck.violation("public-input", json!({"case": d, "what": e}));
        }
        ck.eval(&pi.serialize(), true);
    }
}

fn main() {
    let mut ck = Check::new(
        "C08",
        "one evaluation per value encoded, decoded and encoded again, with the verdict on proofs compared before and after: \
         proofs of generated computations and Cairo runs, altered and made-up proofs, public inputs; distinct by encoding",
    );
    let mut rng = ck.rng.clone();
    for _ in 0..ck.n(1, 6) {
        long_lists(&mut ck, &mut rng);
    }
    let n = ck.n(800, 8000);
    for i in 0..n {
        if ck.stop() {
            break;
        }
        let mut judge = |ck: &mut Check, p: &P, d: Value, kind: &str, verdict: &dyn Fn(&P) -> Result<bool, String>| {
            ck.begin(&d.to_string());
            match there_and_back::<P>(p, |a, b| difference(a, b).is_none()) {
                Ok((q, b)) => {
                    let (v, w) = (verdict(p), verdict(&q));
                    ck.expect(v.is_err() == w.is_err() && v.clone().ok() == w.clone().ok(), "verdict", || json!({"case": d, "before": format!("{v:?}"), "after": format!("{w:?}")}));
                    ck.count(if v == Ok(true) { "accepted proofs" } else { "rejected proofs" }, 1);
                    ck.seen("encoding sizes", &b.len().to_be_bytes());
                    ck.eval(&b, true);
                }
                Err(e) => {
                    ck.violation("proof", json!({"case": d, "what": e}));
                }
            }
            ck.count(kind, 1);
        };
        if i % 5 < 3 {
            let lim = Limits {
                min_log_n: [0, 1, 2, 3][i % 4],
                max_log_n: [2, 3, 5, 6][i % 4],
                max_lde: 512,
                queries: (1, 9),
                max_grind: 3,
                max_cols: [1, 4, 9, 3][i % 4],
            }.rare(i, 40);
            let c = gen_case(&mut rng, &lim);
            ck.begin(&c.brief().to_string());
            let Ok(p) = guard(|| prove_trace(&c.spec, &c.main, &c.opts)) else { continue };
            let verdict = |q: &P| guard(|| accepts(q, &c.spec, &c.opts));
            judge(&mut ck, &p, json!({"case": c.brief()}), "proofs", &verdict);
            parts(&mut ck, &p, &json!({"case": c.brief()}));
            for which in 0..COMPONENTS {
                let mut q = copy(&p);
                let how = alter(&mut q, which, &mut rng);
                if q.trace_length > 1 << 14 {
                    continue;
                }
                let d = json!({"altered": how, "case": c.brief()});
                judge(&mut ck, &q, d.clone(), "altered proofs", &verdict);
                parts(&mut ck, &q, &d);
            }
            for k in 0..8 {
                let q = nonsense(&mut rng);
                let d = json!({"nonsense": k});
                judge(&mut ck, &q, d.clone(), "made-up proofs", &|_| Ok(false));
                parts(&mut ck, &q, &d);
            }
        } else if i % 5 == 3 {
            let Some((run, main, pi)) = subject(i, &mut rng) else { continue };
            let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: rng.range(1, 5), coset_offset: 3, grinding_factor: rng.below(3) as u8 };
            let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &pi, &o)) else { continue };
            let d = json!({"run": run.brief()});
            judge(&mut ck, &p, d.clone(), "Cairo proofs", &|q| guard(|| verify_cairo_proof(q, &pi, &o)));
            match input_back(&pi) {
                Ok(pi2) => {
                    let (v, w) = (guard(|| verify_cairo_proof(&p, &pi, &o)), guard(|| verify_cairo_proof(&p, &pi2, &o)));
                    ck.expect(v == w, "input-verdict", || json!({"case": d, "before": format!("{v:?}"), "after": format!("{w:?}")}));
                }
                Err(e) => ck.violation("public-input", json!({"case": d, "what": e})),
            }
            for _ in 0..20 {
                let pi2 = inputs(&pi, &mut rng);
                match input_back(&pi2) {
                    Ok(pi3) => {
                        let (v, w) = (guard(|| verify_cairo_proof(&p, &pi2, &o)), guard(|| verify_cairo_proof(&p, &pi3, &o)));
                        ck.expect(v.is_err() == w.is_err() && v.clone().ok() == w.clone().ok(), "input-verdict", || json!({"case": d, "before": format!("{v:?}"), "after": format!("{w:?}")}));
                        ck.eval(&pi2.serialize(), true);
                        ck.count("public inputs of runs", 1);
                    }
                    Err(e) => ck.violation("public-input", json!({"case": d, "what": e, "steps": pi2.num_steps})),
                }
            }
        } else {
            for _ in 0..60 {
                let pi = random_input(&mut rng);
                let d = json!({"pc": hex(&pi.pc_init), "steps": pi.num_steps, "bounds": [pi.range_check_min, pi.range_check_max],
                    "segments": format!("{:?}", pi.memory_segments), "cells": pi.public_memory.len()});
                ck.begin(&d.to_string());
                if let Err(e) = input_back(&pi) {
                    ck.violation("public-input", json!({"case": d, "what": e}));
                }
                ck.count("made-up public inputs", 1);
                ck.eval(&pi.serialize(), true);
                ck.sample(d);
            }
        }
    }
    ck.assume("maps inside a public input may be written in any order: bytes are compared up to order, values exactly");
    // the computations that ship with the library, over two further fields as well
    for i in 0..ck.n(80, 800) {
        if ck.stop() {
            break;
        }
        let s = Sections { honest: true, codec: true, ..Default::default() };
        round(&mut ck, &mut rng, i, 5, 256, &s);
    }
    ck.finish();
}
