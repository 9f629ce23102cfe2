//! C21: padding and hole filling keep the Cairo trace complete and continuous.
use harness::cairo::*;
use harness::cairoair::*;
use harness::report::Check;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::FE;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

fn one(run: &Run, kind: &str, ck: &mut Check) {
    let want = exec_rows(run).unwrap_or_else(|e| panic!("generator: {e} {kind} {} {:?}", run.brief(), run.regs));
    let detail = |x: serde_json::Value| json!({"kind": kind, "run": run.brief(), "what": x});
    let mut pi = run.inputs();
    let public = run.public_cells();
    let Some(t) = ck.run("panic", || detail(json!("building the trace")), || build_main_trace(&run.states(), &run.memory(), &mut pi)) else {
        return;
    };
    let width = want[0].len();
    let shape = t.n_cols == width && t.table.len() % width == 0 && (t.table.len() / width).is_power_of_two() && t.table.len() / width > want.len();
    ck.expect(shape, "shape", || detail(json!({"columns": t.n_cols, "cells": t.table.len(), "executed": want.len()})));
    if !shape {
        return;
    }
    let rows = rows_of(&t);
    let n = rows.len();
    // the execution is left alone
    let same = rows[..want.len()] == want[..];
    ck.expect(same, "execution-changed", || {
        let at = (0..want.len()).find(|k| rows[*k] != want[*k]).unwrap();
        let c = (0..width).find(|c| rows[at][*c] != want[at][*c]).unwrap();
        detail(json!({"row": at, "column": c}))
    });
    // added rows do nothing
    let active = (want.len()..n).find(|k| rows[*k][SEL] != FE::zero());
    ck.expect(active.is_none(), "added-row-active", || detail(json!({"row": active})));
    // offsets
    let offs: Vec<Option<u64>> = offsets(&rows).iter().map(small).collect();
    let set: BTreeSet<u64> = offs.iter().flatten().cloned().collect();
    let (lo, hi) = (*set.iter().next().unwrap(), *set.iter().last().unwrap());
    let whole = offs.iter().all(|o| o.is_some()) && hi < 1 << 16 && set.len() as u64 == hi - lo + 1;
    ck.expect(whole, "offset-gap", || {
        detail(json!({"from": lo, "to": hi, "missing": (lo..=hi).find(|o| !set.contains(o))}))
    });
    let ends = pi.range_check_min.map(|x| x as u64) == Some(lo) && pi.range_check_max.map(|x| x as u64) == Some(hi);
    ck.expect(ends, "offset-bounds", || {
        detail(json!({"published": [pi.range_check_min, pi.range_check_max], "in the trace": [lo, hi]}))
    });
    let executed: BTreeSet<u64> = offsets(&want).iter().filter_map(small).collect();
    let tight = executed.iter().next() == Some(&lo) && executed.iter().last() == Some(&hi);
    ck.expect(tight, "offset-range-widened", || detail(json!({"trace": [lo, hi], "execution": [executed.iter().next(), executed.iter().last()]})));
    // memory
    let acc = accesses(&rows);
    let zero = (FE::zero(), FE::zero());
    let dummies = acc.iter().filter(|a| **a == zero).count();
    let reserved = acc.iter().rev().take_while(|a| **a == zero).count();
    ck.expect(dummies >= public.len() && reserved >= public.len(), "too-few-dummies", || {
        detail(json!({"public cells": public.len(), "dummy accesses": dummies, "at the end": reserved}))
    });
    let mut cells: BTreeMap<u64, FE> = public.clone();
    let mut wrong = None;
    for (k, (a, v)) in acc.iter().enumerate().take(acc.len() - public.len().min(acc.len())) {
        match small(a) {
            None => wrong = Some(json!({"row": k / 4, "address": hex(a)})),
            Some(x) => {
                if let Some(w) = cells.insert(x, v.clone()) {
                    if w != *v && wrong.is_none() {
                        wrong = Some(json!({"row": k / 4, "cell": x, "values": [hex(&w), hex(v)]}));
                    }
                }
            }
        }
    }
    ck.expect(wrong.is_none(), "second-value", || detail(json!(wrong)));
    let (first, last) = (*cells.keys().next().unwrap(), *cells.keys().last().unwrap());
    ck.expect(cells.len() as u64 == last - first + 1, "memory-gap", || {
        detail(json!({"from": first, "to": last, "missing": (first..=last).find(|a| !cells.contains_key(a))}))
    });
    // the real cells are all still there, as they were
    for (a, v) in accesses(&want) {
        if cells.get(&small(&a).unwrap_or(u64::MAX)) != Some(&v) {
            ck.violation("cell-lost", detail(json!({"cell": hex(&a)})));
            break;
        }
    }
    // nothing else in the way of a proof
    if n <= ck.n(1 << 11, 1 << 14) {
        let ch = Ch::random(&mut ck.rng);
        if let Some(m) = sorted_memory(&rows, &pi) {
            let aux = aux_rows(&rows, &m, &sorted_offsets(&rows), &ch, &FE::one(), &FE::one());
            let b = broken(&rows, &aux, &pi, &ch);
            ck.expect(b.is_none(), "constraint-broken", || detail(json!(b)));
            ck.count("complete traces checked against all constraints", 1);
        }
    }
    ck.count("rows added", (n - want.len()) as u64);
    ck.count("offset holes filled", (hi - lo + 1) - executed.len() as u64);
    let real: BTreeSet<u64> = accesses(&want).iter().filter_map(|a| small(&a.0)).chain(public.keys().cloned()).collect();
    ck.count("memory holes filled", cells.keys().filter(|a| **a != 0 && !real.contains(a)).count() as u64);
    ck.seen("trace lengths", &n.to_be_bytes());
    let mut fp = format!("{kind}{:?}{:?}{:?}", run.regs, run.rc, run.out).into_bytes();
    fp.extend(run.mem.values().flat_map(|v| v.to_bytes_be()));
    ck.eval(&fp, n > want.len());
    ck.sample(json!({"kind": kind, "run": run.brief(), "rows": n}));
}

fn main() {
    let mut ck = Check::new(
        "C21",
        "one evaluation per generated run: the main trace built from it checked as a whole for continuity of offsets and \
         memory, untouched execution rows and inert padding; distinct by registers and memory",
    );
    let (a, b, c) = (ck.n(400, 30_000), ck.n(500, 40_000), ck.n(6, 300));
    for kind in [0, 1, 2].into_iter().cycle().take(ck.n(3, 15)) {
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let run = large(kind, false, &mut rng);
        ck.begin(&run.brief().to_string());
        one(&run, "large", &mut ck);
        ck.count("large runs", 1);
    }
    // cells and offsets as far apart as they can be
    let widest: [&[(u64, u64)]; 3] = [&[(1, 40), (66_000, 66_040)], &[(1, 40), (32_700, 32_800), (131_200, 131_240)], &[(1, 40), (32_750, 32_808), (65_530, 65_600)]];
    for k in 0..ck.n(9, 60) {
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let (steps, program) = (rng.range(6, 24), rng.range(4, 22) as u64);
        let Some(run) = wild(steps, widest[k % 3], program, &mut rng) else { continue };
        ck.begin(&run.brief().to_string());
        one(&run, "widest", &mut ck);
        ck.count("runs with cells more than 2^15 apart", 1);
    }
    for k in 0..a {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let mut g = structured(&mut rng, 60);
        if k % 7 == 0 {
            g.holes = rng.range(6, 50) as u64;
        }
        let run = generate(&g, &mut rng);
        if run.rc.map_or(false, |(s, e)| (e - s) as usize > run.regs.len()) {
            continue;
        }
        ck.begin(&run.brief().to_string());
        one(&run, "structured", &mut ck);
    }
    let sets: [&[(u64, u64)]; 4] = [&[(1, 40)], &[(1, 60), (200, 260)], &[(1, 400)], &[(1, 30), (33, 37), (41, 47), (600, 640)]];
    let far: [&[(u64, u64)]; 3] = [&[(1, 40), (4_000, 4_040)], &[(1, 30), (12_000, 12_040)], &[(1, 40), (32_700, 32_900)]];
    for k in 0..b + c {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let steps = rng.range(1, 24);
        let program = rng.range(4, 22) as u64;
        let set = if k < b { sets[k % 4] } else { far[k % 3] };
        let Some(mut run) = wild(steps, set, program, &mut rng) else { continue };
        if rng.chance(1, 2) {
            with_output(&mut run, &mut rng);
        }
        ck.begin(&run.brief().to_string());
        one(&run, if k < b { "wild" } else { "far" }, &mut ck);
    }
    ck.finish();
}
