//! C22: auxiliary columns are a sorted permutation with correct running products.
use harness::cairo::*;
use harness::cairoair::*;
use harness::report::Check;
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::{json, Value};

fn one(main: &Rows, pi: &PublicInputs, ch: &Ch, honest: bool, what: &Value, ck: &mut Check) {
    let o = ProofOptions { blowup_factor: 4, fri_number_of_queries: 1, coset_offset: 3, grinding_factor: 0 };
    let n = main.len();
    let detail = |x: Value| json!({"case": what, "what": x, "challenges": [hex(&ch.alpha), hex(&ch.z), hex(&ch.z_rc)]});
    let Some(t) = ck.run("panic", || detail(json!("building")), || {
        air(pi, n, &o).build_auxiliary_trace(&table_of(main), &ch.real())
    }) else {
        return;
    };
    let shape = t.n_cols == AUX && t.table.len() == AUX * n;
    ck.expect(shape, "shape", || detail(json!({"columns": t.n_cols, "cells": t.table.len()})));
    if !shape {
        return;
    }
    let aux = rows_of(&t);
    let flat = |from: usize, w: usize| -> Vec<FE> { aux.iter().flat_map(|r| r[from..from + w].to_vec()).collect() };
    // offsets
    let offs = flat(A_OFF, 3);
    let want = sorted_offsets(main);
    ck.expect(offs == want, "offsets", || {
        let k = (0..want.len()).find(|k| offs[*k] != want[*k]).unwrap();
        detail(json!({"entry": k, "got": hex(&offs[k]), "expected": hex(&want[k])}))
    });
    // memory: the accesses with the public memory in the place of as many dummies at the end
    let mut src = accesses(main);
    let own = src.len() - pi.public_memory.len();
    src.truncate(own);
    src.extend(public_sorted(pi));
    let got: Vec<(FE, FE)> = flat(A_ADDR, 4).into_iter().zip(flat(A_VAL, 4)).collect();
    let unordered = (1..got.len()).find(|k| canon(&got[*k].0) < canon(&got[*k - 1].0));
    ck.expect(unordered.is_none(), "memory-order", || detail(json!({"entry": unordered})));
    let key = |v: &[(FE, FE)]| {
        let mut k: Vec<_> = v.iter().map(|(a, x)| (canon(a), canon(x))).collect();
        k.sort();
        k
    };
    let (a, b) = (key(&src), key(&got));
    ck.expect(a == b, "memory-permutation", || {
        let k = (0..a.len()).find(|k| a[*k] != b[*k]).unwrap();
        detail(json!({"expected": format!("{:02x?}", a[k]), "got": format!("{:02x?}", b[k])}))
    });
    // running products
    let terms = |m: &[(FE, FE)]| m.iter().map(|(a, v)| ch.term(a, v)).collect::<Vec<_>>();
    let p = products(&terms(&accesses(main)), &terms(&got), &FE::one());
    let q = flat(A_PERM, 4);
    ck.expect(p == q, "memory-product", || detail(json!({"entry": (0..p.len()).find(|k| p[*k] != q[*k])})));
    let zs = |m: &[FE]| m.iter().map(|x| &ch.z_rc - x).collect::<Vec<_>>();
    let p2 = products(&zs(&offsets(main)), &zs(&offs), &FE::one());
    let q2 = flat(A_RCPERM, 3);
    ck.expect(p2 == q2, "offset-product", || detail(json!({"entry": (0..p2.len()).find(|k| p2[*k] != q2[*k])})));
    ck.expect(q2.last() == Some(&FE::one()), "offset-product-end", || detail(json!(null)));
    if honest {
        let public = pi.public_memory.iter().fold(FE::one(), |p, (a, v)| p * ch.term(a, v));
        let factor = ch.z.pow(pi.public_memory.len()) * public.inv();
        ck.expect(q.last() == Some(&factor), "memory-product-end", || detail(json!(null)));
    }
    ck.count("memory entries checked", got.len() as u64);
    ck.count("offset entries checked", offs.len() as u64);
    ck.count("equal neighbours in memory order", (1..got.len()).filter(|k| got[*k].0 == got[*k - 1].0).count() as u64);
}

fn main() {
    let mut ck = Check::new(
        "C22",
        "one evaluation per main trace and challenge set: auxiliary columns compared with the sorted sources and running \
         products computed independently; distinct by trace, public memory and challenges",
    );
    let first = ck.n(4, 20);
    let n = ck.n(1000, 40_000);
    for k in 0..n {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let big = k < first;
        let run = if big {
            match k % 4 {
                3 => {
                    let Some(r) = wild(20, &[(1, 40), (66_000, 66_040)], 18, &mut rng) else { continue };
                    r
                }
                kind => large(kind, false, &mut rng),
            }
        } else if k % 3 == 0 {
            let program = rng.range(4, 22) as u64;
            let steps = rng.range(1, 24);
            let Some(mut r) = wild(steps, [&[(1, 40)][..], &[(1, 60), (200, 260)], &[(1, 400)]][k % 9 / 3], program, &mut rng) else { continue };
            if rng.chance(1, 2) {
                with_output(&mut r, &mut rng);
            }
            r
        } else {
            let g = structured(&mut rng, 50);
            let r = generate(&g, &mut rng);
            if r.rc.map_or(false, |(s, e)| (e - s) as usize > r.regs.len()) {
                continue;
            }
            r
        };
        let mut pi = run.inputs();
        ck.begin(&run.brief().to_string());
        // the main trace is the tree's own, or one completed in another way
        let other = rng.chance(1, 3);
        let main = if other {
            let Some(m) = exec_rows(&run).ok().and_then(|e| extend_up_to(&e, &mut pi, if big { 1 << 18 } else { 1 << 14 })) else { continue };
            m
        } else {
            rows_of(&build_main_trace(&run.states(), &run.memory(), &mut pi))
        };
        if main.len() > if big { 1 << 17 } else { ck.n(1024, 1 << 14) } || main.len() * 4 <= pi.public_memory.len() {
            continue;
        }
        let mut ch = Ch::random(&mut rng);
        if rng.chance(1, 8) {
            ch.alpha = rng.fe();
        }
        let what = json!({"run": run.brief(), "completed by": if other { "the check" } else { "the tree" }, "rows": main.len()});
        one(&main, &pi, &ch, true, &what, &mut ck);
        ck.count("traces of more than 4096 rows", (main.len() > 4096) as u64);
        // traces that are no execution
        let mut odd = main.clone();
        let free = main.len() - pi.public_memory.len() / 4 - 1;
        for _ in 0..rng.range(1, 12) {
            let r = rng.below(free);
            match rng.below(4) {
                0 => odd[r][OFF_DST + rng.below(3)] = FE::from(rng.below(1 << 16) as u64),
                1 => odd[r][PC + rng.below(4)] = if rng.chance(1, 2) { FE::from(rng.below(60) as u64) } else { rng.fe_big() },
                2 => odd[r][INST + rng.below(4)] = rng.fe_big(),
                _ => {
                    let s = rng.below(free);
                    let x = odd[s].clone();
                    odd[r] = x;
                }
            }
        }
        one(&odd, &pi, &ch, false, &json!({"base": what, "changed": true}), &mut ck);
        let mut fp = canon(&ch.z).to_vec();
        fp.extend(odd.iter().flatten().flat_map(canon));
        ck.eval(&fp, main.len() > 1);
        ck.sample(what);
    }
    ck.finish();
}
