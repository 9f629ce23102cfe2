//! C26: a Cairo proof is bound to its program, registers, steps and memory.
use harness::cairo::*;
use harness::cairoair::{air, exec_rows, extend, extend_up_to, not_an_execution, sorted_offsets, subject, table_of, Ch, Rows};
use harness::proofs::{alter_fe, P};
use harness::refstark::root_of_unity;
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_crypto::fiat_shamir::log::{self, Event};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof, MemorySegment, PublicInputs};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::{json, Value};

fn field(b: &[u8; 32]) -> FE {
    let mut b = *b;
    b[0] &= 0x07;
    FE::from_bytes_be(&b).unwrap()
}
use lambdaworks_math::traits::ByteConversion;

/// The accepted proof's challenges, from the verifier's own transcript.
fn challenges(p: &P, pi: &PublicInputs, o: &ProofOptions) -> Option<Vec<[u8; 32]>> {
    log::start();
    let ok = guard(|| verify_cairo_proof(p, pi, o));
    let ev = log::take();
    (ok == Ok(true)).then(|| {
        ev.iter()
            .filter_map(|e| match e {
                Event::Challenge(_, c) => Some(*c),
                _ => None,
            })
            .collect()
    })
}

fn pick_cell(pi: &PublicInputs, rng: &mut Rng) -> (FE, FE) {
    let mut v: Vec<(FE, FE)> = pi.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
    v.sort_by_key(|(a, _)| a.to_bytes_be());
    v[rng.below(v.len())].clone()
}

/// A changed public input, and what was changed. None when nothing changed.
fn alter(pi: &PublicInputs, run: &Run, rows: usize, rng: &mut Rng) -> (String, PublicInputs) {
    let mut q = pi.clone();
    let n = pi.num_steps;
    let what = match rng.below(18) {
        0 => {
            alter_fe(&mut q.pc_init, rng);
            "initial pc"
        }
        1 => {
            alter_fe(&mut q.ap_init, rng);
            "initial ap"
        }
        2 => {
            alter_fe(&mut q.fp_init, rng);
            "initial fp"
        }
        3 => {
            alter_fe(&mut q.pc_final, rng);
            "final pc"
        }
        4 => {
            alter_fe(&mut q.ap_final, rng);
            "final ap"
        }
        5 => {
            // registers of other steps of the same run
            let r = run.regs[rng.below(run.regs.len())];
            match rng.below(4) {
                0 => (q.pc_final, q.ap_final) = (FE::from(r.0), FE::from(r.1)),
                1 => (q.pc_init, q.ap_init, q.fp_init) = (FE::from(r.0), FE::from(r.1), FE::from(r.2)),
                2 => {
                    let k = rng.below(run.regs.len());
                    q.num_steps = k + 1;
                    (q.pc_final, q.ap_final) = (FE::from(run.regs[k].0), FE::from(run.regs[k].1))
                }
                _ => std::mem::swap(&mut q.pc_init, &mut q.pc_final),
            }
            "registers of another step"
        }
        6 | 7 => {
            q.num_steps = match rng.below(12) {
                0 => n + 1,
                1 => n - 1,
                2 => n + rows,
                3 => n + rows * rng.range(1, 1 << 20),
                4 => rows,
                5 => rows + 1,
                6 => 1,
                7 => 0,
                8 => usize::MAX,
                9 => usize::MAX - (rows - n),
                10 => rng.below(2 * rows),
                _ => n ^ (1 << rng.below(63)),
            };
            "number of steps"
        }
        8 | 9 => {
            let r = if rng.chance(1, 2) { &mut q.range_check_min } else { &mut q.range_check_max };
            let v = r.unwrap();
            *r = match rng.below(6) {
                0 => None,
                1 => Some(v.wrapping_add(1)),
                2 => Some(v.wrapping_sub(1)),
                3 => Some([0, 65535, 32768][rng.below(3)]),
                4 => Some(rng.u64() as u16),
                _ => Some(v ^ (1 << rng.below(16))),
            };
            "range-check bound"
        }
        10 => {
            let k = rng.range(1, 3);
            for _ in 0..k {
                let (a, mut v) = pick_cell(pi, rng);
                alter_fe(&mut v, rng);
                q.public_memory.insert(a, v);
            }
            "value of a public cell"
        }
        11 => {
            let (a, v) = pick_cell(pi, rng);
            q.public_memory.remove(&a);
            let mut b = a.clone();
            alter_fe(&mut b, rng);
            if pi.public_memory.contains_key(&b) {
                // exchange the two
                let w = q.public_memory.insert(b, v).unwrap();
                q.public_memory.insert(a, w);
            } else {
                q.public_memory.insert(b, v);
            }
            "address of a public cell"
        }
        12 => {
            let k = [1, 1, 2, 4, usize::MAX][rng.below(5)];
            if k == usize::MAX {
                let (a, v) = (pi.pc_init.clone(), pi.public_memory[&pi.pc_init].clone());
                q.public_memory.clear();
                q.public_memory.insert(a, v);
            }
            for _ in 0..k.min(8) {
                let (a, _) = pick_cell(pi, rng);
                q.public_memory.remove(&a);
            }
            "public cell removed"
        }
        13 => {
            let a = match rng.below(4) {
                0 => FE::from(*run.mem.keys().nth(rng.below(run.mem.len())).unwrap()),
                1 => FE::zero(),
                2 => FE::from(rng.below(2 * rows * 4) as u64),
                _ => rng.fe_big(),
            };
            let v = match rng.below(3) {
                // the cell's own value, made public
                0 => harness::cairo::small(&a).and_then(|x| run.mem.get(&x).cloned()).unwrap_or_else(FE::zero),
                1 => FE::zero(),
                _ => rng.fe(),
            };
            q.public_memory.insert(a, v);
            "public cell added"
        }
        // one claim equal to another one, or to something special
        15 | 16 => {
            let all = [&pi.pc_init, &pi.ap_init, &pi.fp_init, &pi.pc_final, &pi.ap_final].map(|x| x.clone());
            let v = match rng.below(8) {
                0 => FE::zero(),
                1 => FE::one(),
                2 => FE::from(n as u64),
                _ => all[rng.below(5)].clone(),
            };
            *[&mut q.pc_init, &mut q.ap_init, &mut q.fp_init, &mut q.pc_final, &mut q.ap_final][rng.below(5)] = v;
            if rng.chance(1, 4) {
                if rng.chance(1, 2) {
                    q.range_check_min = q.range_check_max;
                } else {
                    q.range_check_max = q.range_check_min;
                }
            }
            "claim equal to another"
        }
        14 => {
            let ((a, v), (b, w)) = (pick_cell(pi, rng), pick_cell(pi, rng));
            q.public_memory.insert(a, w);
            q.public_memory.insert(b, v);
            "values of two public cells exchanged"
        }
        _ => {
            if q.memory_segments.remove(&MemorySegment::RangeCheck).is_none() {
                q.memory_segments.insert(MemorySegment::RangeCheck, 10..12);
            }
            "range-check builtin"
        }
    };
    (what.to_string(), q)
}

fn bound_part(p: &PublicInputs) -> String {
    let mut m: Vec<_> = p.public_memory.iter().map(|(a, v)| (a.to_bytes_be(), v.to_bytes_be())).collect();
    m.sort();
    format!(
        "{:?}{:?}{:?}{m:?}{}",
        [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final].map(|x| x.to_bytes_be()),
        (p.range_check_min, p.range_check_max),
        p.num_steps,
        p.memory_segments.contains_key(&MemorySegment::RangeCheck)
    )
}

/// Public inputs made to fit, knowing the challenges that were drawn for the true one.
fn adapted(p: &P, pi: &PublicInputs, o: &ProofOptions, rows: usize, rng: &mut Rng) -> Vec<(&'static str, PublicInputs)> {
    let Some(c) = challenges(p, pi, o) else { return vec![] };
    let mut out = vec![];
    let (alpha, z) = (field(&c[0]), field(&c[1]));
    let term = |a: &FE, v: &FE| &z - (a + &alpha * v);
    // the product over the public memory stays the same
    if pi.public_memory.len() > 1 {
        for _ in 0..3 {
            let ((a, v), (b, w)) = (pick_cell(pi, rng), pick_cell(pi, rng));
            if a == b || a == pi.pc_init || b == pi.pc_init {
                continue;
            }
            let v2 = rng.fe_big();
            let want = term(&a, &v) * term(&b, &w) * term(&a, &v2).inv();
            let mut q = pi.clone();
            q.public_memory.insert(a.clone(), v2.clone());
            q.public_memory.insert(b.clone(), (&z - want - &b) * alpha.inv());
            out.push(("values of two cells, same product", q));
            // one cell traded against its own address
            let mut q = pi.clone();
            q.public_memory.remove(&a);
            let a2 = &z - term(&a, &v) - &alpha * &v2;
            if !pi.public_memory.contains_key(&a2) {
                q.public_memory.insert(a2, v2);
                out.push(("address and value of a cell, same term", q));
            }
        }
        let v = rng.fe_big();
        let mut q = pi.clone();
        q.public_memory.insert(-(&alpha * &v), v);
        out.push(("cell added, same factor", q));
    }
    // two asserted values move against each other: at step 0 and at the last step
    let a = air(pi, rows, o);
    let chal = Ch { alpha: alpha.clone(), z: z.clone(), z_rc: field(&c[2]) };
    let bcs = a.boundary_constraints(&chal.real()).constraints;
    let nb = bcs.len();
    let coef = |k: usize| (field(&c[3 + k]), field(&c[3 + nb + k]));
    let nt = a.num_transition_constraints();
    let zc = field(&c[3 + 2 * nb + 2 * nt]);
    let g = root_of_unity(rows.trailing_zeros());
    let weight = |k: usize| {
        let (al, be) = coef(k);
        (al * zc.pow(rows) + be) * (&zc - g.pow(bcs[k].step)).inv()
    };
    for (i, j, name) in [(1usize, 2usize, "initial ap and fp"), (3, 4, "final pc and ap"), (2, 4, "initial fp and final ap"), (1, 3, "initial ap and final pc")] {
        let (_, mut vals) = (0, [&pi.pc_init, &pi.ap_init, &pi.fp_init, &pi.pc_final, &pi.ap_final].map(|x| x.clone()));
        let d = rng.fe_nonzero();
        let e = -(&d * weight(i) * weight(j).inv());
        vals[i] = &vals[i] + &d;
        vals[j] = &vals[j] + &e;
        let mut q = pi.clone();
        q.pc_init = vals[0].clone();
        q.ap_init = vals[1].clone();
        q.fp_init = vals[2].clone();
        q.pc_final = vals[3].clone();
        q.ap_final = vals[4].clone();
        out.push((name, q));
    }
    out
}

/// Why a claim does not fit the trace: it is no such execution, or its offsets lie otherwise.
fn false_claim(main: &Rows, q: &PublicInputs) -> Option<String> {
    not_an_execution(main, q).or_else(|| {
        let offs = sorted_offsets(main);
        let (lo, hi) = (offs.first()?, offs.last()?);
        let (a, b) = (q.range_check_min?, q.range_check_max?);
        (*lo != FE::from(a as u64) || *hi != FE::from(b as u64)).then(|| "range-check bounds".to_string())
    })
}

/// A loop of thousands of steps, and claims about where it ended.
fn long_run(ck: &mut Check, o: &ProofOptions, back: i32) {
    let keep = Instr {
        off_dst: -1,
        off_op0: -1,
        off_op1: 1,
        dst_fp: true,
        op0_fp: true,
        op1: Op1::Imm,
        res: Res::Op1,
        pc: Pc::Rel,
        ap: Ap::Inc,
        opc: Opc::Nop,
    };
    // three jumps to each other for ever, each of them with ap++
    let steps = 1101 + 2 * ck.rng.below(450);
    let mut rng = ck.rng.clone();
    ck.rng.u64();
    let code = [(keep, Some(FE::from(2))), (keep, Some(FE::from(2))), (keep, Some(-FE::from(4)))];
    let Ok(mut run) = by_hand(&code, &[], steps, None) else { panic!("long run") };
    run.exec_end = 0;
    let exec = exec_rows(&run).unwrap();
    let mut pi = run.inputs();
    let main = extend(&exec, &mut pi).unwrap();
    let rows = main.len();
    let d0 = json!({"steps": pi.num_steps, "rows": rows});
    ck.expect(pi.num_steps == run.regs.len(), "steps-misstated", || json!({"executed": run.regs.len(), "case": d0}));
    ck.begin(&d0.to_string());
    let p = match guard(|| generate_cairo_proof(&table_of(&main), &pi, o)) {
        Ok(Ok(p)) if guard(|| verify_cairo_proof(&p, &pi, o)) == Ok(true) => {
            ck.count("accepted proofs of runs longer than 1024 steps", 1);
            Some(p)
        }
        _ => {
            ck.count("long runs without an accepted proof", 1);
            None
        }
    };
    // steps that a truncated or bounded number of steps would lead to
    let near = [(steps) & 0xff, steps & 0x1ff, steps & 0x3ff, 255, 256, 511, 512, 1023];
    for j in 0..6 + 2 * near.len() {
        let mut q = pi.clone();
        match j {
            // where it was one step before: with the claim for two steps before, all that any other row can hold
            5 => q.pc_final = FE::from(run.regs[steps - 2].0),
            6.. => {
                let r = run.regs[near[(j - 6) / 2]];
                if j % 2 == 0 {
                    q.pc_final = FE::from(r.0);
                }
                q.ap_final = FE::from(r.1);
            }
            // where it was some steps before
            0 => q.ap_final = &q.ap_final - FE::from(back as u64),
            1 => q.ap_final = FE::from(run.regs[1024].1),
            2 => q.pc_final = FE::from(run.regs[steps - 3].0),
            3 => q.num_steps -= back as usize,
            _ => {
                q.num_steps = 1025;
                q.pc_final = &q.pc_final + FE::one();
            }
        }
        // with a misstated number of steps some of them are true
        let Some(why) = false_claim(&main, &q) else { continue };
        let d = json!({"claim": j, "why": why, "run": d0});
        if let Some(p) = &p {
            let v = guard(|| verify_cairo_proof(p, &q, o));
            ck.expect(v != Ok(true), "accepted-for-another-input", || d.clone());
            ck.eval(d.to_string().as_bytes(), true);
        }
        if j != 3 && j != 4 || rng.chance(1, 4) {
            let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &q, o)) else { continue };
            let v = guard(|| verify_cairo_proof(&p, &q, o));
            ck.expect(v != Ok(true), "false-claim-accepted", || d.clone());
            ck.count("proofs of false claims judged", 1);
            ck.eval(format!("s{d}").as_bytes(), true);
        }
    }
}

/// Thousands of public cells, and claims about the last of them.
fn wide_run(ck: &mut Check, o: &ProofOptions, kind: usize) {
    let mut rng = ck.rng.clone();
    ck.rng.u64();
    let run = large(kind, false, &mut rng);
    let mut pi = run.inputs();
    let Some(main) = exec_rows(&run).ok().and_then(|e| extend_up_to(&e, &mut pi, 1 << 18)) else { panic!("wide run") };
    let rows = main.len();
    let d0 = json!({"run": run.brief(), "rows": rows, "public cells": pi.public_memory.len()});
    ck.begin(&d0.to_string());
    let cells = run.public_cells();
    let mut addresses: Vec<u64> = cells.keys().cloned().collect();
    let known: Vec<([u8; 32], [u8; 32])> = addresses.iter().map(|a| (FE::from(*a).to_bytes_be().try_into().unwrap(), cells[a].to_bytes_be().try_into().unwrap())).collect();
    let mut stated: Vec<([u8; 32], [u8; 32])> =
        pi.public_memory.iter().map(|(a, v)| (a.to_bytes_be().try_into().unwrap(), v.to_bytes_be().try_into().unwrap())).collect();
    stated.sort();
    ck.expect(known == stated, "public-memory-incomplete", || json!({"stated": stated.len(), "public": known.len(), "case": d0}));
    ck.expect(pi.num_steps == run.regs.len(), "steps-misstated", || json!({"stated": pi.num_steps, "case": d0}));
    let p = match guard(|| generate_cairo_proof(&table_of(&main), &pi, o)) {
        Ok(Ok(p)) if guard(|| verify_cairo_proof(&p, &pi, o)) == Ok(true) => {
            ck.count("accepted proofs with more than 1024 public cells", 1);
            Some(p)
        }
        _ => {
            ck.count("wide runs without an accepted proof", 1);
            None
        }
    };
    addresses.retain(|a| pi.public_memory.contains_key(&FE::from(*a)));
    let n = addresses.len();
    let (start, program) = (run.out.map_or(0, |o| o.0), run.program);
    let mut claims: Vec<(String, PublicInputs)> = vec![];
    for k in 0..26 {
        let mut q = pi.clone();
        let out: Vec<u64> = addresses.iter().cloned().filter(|a| *a >= start && *a > program).collect();
        let a = match k {
            0 => program,
            1 => addresses[n - 1],
            2 => out.get(256).cloned().unwrap_or(addresses[n - 1]),
            3 => program.min(257),
            4 => program.min(1025),
            5 => program - 1,
            _ => addresses[rng.below(n)],
        };
        let at = FE::from(a);
        let Some(old) = q.public_memory.get(&at).cloned() else { continue };
        match rng.below(if k < 6 { 1 } else { 5 }) {
            0 => {
                q.public_memory.insert(at, old + rng.fe_nonzero());
                claims.push((format!("value of cell {a}"), q));
            }
            1 => {
                q.public_memory.remove(&at);
                claims.push((format!("cell {a} left out"), q));
            }
            2 => {
                let b = FE::from(addresses[rng.below(n)]);
                let w = q.public_memory.insert(b, old).unwrap();
                q.public_memory.insert(at, w);
                claims.push((format!("cell {a} exchanged"), q));
            }
            _ => claims.push(alter(&pi, &run, rows, &mut rng)),
        }
    }
    for (k, (what, q)) in claims.into_iter().enumerate() {
        if bound_part(&q) == bound_part(&pi) {
            continue;
        }
        let d = json!({"changed": what, "to": format!("{:?}", brief_inputs(&q)), "case": d0});
        ck.begin(&d.to_string());
        if let Some(p) = &p {
            let v = guard(|| verify_cairo_proof(p, &q, o));
            ck.expect(v != Ok(true), "accepted-for-another-input", || d.clone());
            ck.eval(format!("w{k}{d}").as_bytes(), true);
        }
        if (k < 3 || rng.chance(1, 12)) && q.num_steps <= rows {
            let Some(why) = false_claim(&main, &q) else { continue };
            let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &q, o)) else { continue };
            let v = guard(|| verify_cairo_proof(&p, &q, o));
            ck.expect(v != Ok(true), "false-claim-accepted", || json!({"why": why, "case": d}));
            ck.count("proofs of false claims judged", 1);
            ck.eval(format!("ws{k}{d}").as_bytes(), true);
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C26",
        "one evaluation per accepted Cairo proof verified against another public input (register, step count, bound, public cell; \
         changed at random, taken from other steps of the run, or fitted to the challenges of the accepted proof); distinct by run and change",
    );
    for _ in 0..ck.n(1, 6) {
        let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 3, coset_offset: 3, grinding_factor: 0 };
        let back = ck.rng.range(1, 60) as i32;
        long_run(&mut ck, &o, back);
    }
    for kind in [0, 1].into_iter().cycle().take(ck.n(2, 8)) {
        let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 8, coset_offset: 3, grinding_factor: 0 };
        wide_run(&mut ck, &o, kind);
    }
    let n = ck.n(150, 4000);
    for k in 0..n {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let Some((run, main, pi)) = subject(k, &mut rng) else { continue };
        let rows = main.len();
        let o = ProofOptions {
            blowup_factor: [2, 4][k % 2],
            fri_number_of_queries: rng.range(3, 8),
            coset_offset: 3,
            grinding_factor: rng.below(3) as u8,
        };
        let d0 = json!({"run": run.brief(), "rows": rows});
        ck.begin(&d0.to_string());
        let p = match guard(|| generate_cairo_proof(&table_of(&main), &pi, &o)) {
            Ok(Ok(p)) if guard(|| verify_cairo_proof(&p, &pi, &o)) == Ok(true) => {
                ck.count("accepted proofs", 1);
                Some(p)
            }
            _ => {
                ck.count("runs without an accepted proof", 1);
                None
            }
        };
        let mut cases: Vec<(String, PublicInputs, bool)> = (0..40)
            .map(|_| {
                let (w, q) = alter(&pi, &run, rows, &mut rng);
                (w, q, false)
            })
            .collect();
        // bounds one off inwards, first
        if let (Some(lo), Some(hi)) = (pi.range_check_min, pi.range_check_max) {
            for (lo, hi) in [(lo.wrapping_add(1), hi), (lo, hi.wrapping_sub(1))] {
                let q = PublicInputs { range_check_min: Some(lo), range_check_max: Some(hi), ..pi.clone() };
                cases.insert(0, ("range-check bound".to_string(), q, false));
            }
        }
        if let Some(Ok(v)) = p.as_ref().map(|p| guard(|| adapted(p, &pi, &o, rows, &mut rng))) {
            cases.extend(v.into_iter().map(|(w, q)| (w.to_string(), q, true)));
        }
        let mut from_start = 0;
        for (what, q, fitted) in cases {
            if bound_part(&q) == bound_part(&pi) {
                continue;
            }
            let d: Value = json!({"changed": what, "to": format!("{:?}", brief_inputs(&q)), "from": format!("{:?}", brief_inputs(&pi)), "case": d0});
            ck.begin(&d.to_string());
            if let Some(p) = &p {
                let v = guard(|| verify_cairo_proof(p, &q, &o));
                if v.is_err() {
                    ck.count("verifier panicked", 1);
                }
                ck.expect(v != Ok(true), if fitted { "accepted-for-fitted-input" } else { "accepted-for-another-input" }, || d.clone());
                ck.count(&format!("changed {what}"), 1);
                ck.eval(format!("{d}{}", bound_part(&q)).as_bytes(), true);
            }
            ck.sample(json!({"changed": what, "rows": rows}));
            // the prover makes the false claim from the start
            if !fitted && q.num_steps <= rows && from_start < 14 {
                let Some(why) = false_claim(&main, &q) else { continue };
                from_start += 1;
                let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &q, &o)) else { continue };
                let v = guard(|| verify_cairo_proof(&p, &q, &o));
                ck.expect(v != Ok(true), "false-claim-accepted", || json!({"why": why, "case": d}));
                ck.count("proofs of false claims judged", 1);
                ck.eval(format!("s{d}{}", bound_part(&q)).as_bytes(), true);
            }
        }
    }
    ck.finish();
}

fn brief_inputs(p: &PublicInputs) -> (Vec<String>, usize, Option<u16>, Option<u16>, usize) {
    (
        [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final].map(hex).to_vec(),
        p.num_steps,
        p.range_check_min,
        p.range_check_max,
        p.public_memory.len(),
    )
}
