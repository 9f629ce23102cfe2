//! C20: the execution trace states what each instruction really did.
use harness::cairo::*;
use harness::cairoair::*;
use harness::report::Check;
use lambdaworks_stark::cairo::execution_trace::build_cairo_execution_trace;
use serde_json::json;

const NAMES: [&str; 18] = [
    "res", "ap", "fp", "pc", "dst_addr", "op0_addr", "op1_addr", "inst", "dst", "op0", "op1", "off_dst", "off_op0", "off_op1",
    "t0", "t1", "mul", "selector",
];

fn column(c: usize) -> String {
    match c {
        0..=15 => format!("flag {c}"),
        16..=33 => NAMES[c - 16].to_string(),
        34..=41 => format!("range-check limb {}", c - 34),
        _ => "range-check value".into(),
    }
}

fn one(run: &Run, kind: &str, ck: &mut Check) {
    let want = match exec_rows(run) {
        Ok(w) => w,
        Err(e) => panic!("generator: {e}: {}", run.brief()),
    };
    let detail = |x: serde_json::Value| json!({"kind": kind, "run": run.brief(), "what": x});
    let mut pi = run.inputs();
    let Some(t) = ck.run("panic", || detail(json!("building the trace")), || build_cairo_execution_trace(&run.states(), &run.memory(), &mut pi)) else {
        return;
    };
    let ok = t.n_cols == want[0].len() && t.table.len() == want.len() * want[0].len();
    ck.expect(ok, "shape", || detail(json!({"columns": t.n_cols, "cells": t.table.len(), "expected rows": want.len()})));
    if !ok {
        return;
    }
    let got = rows_of(&t);
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        for c in 0..w.len() {
            if g[c] != w[c] {
                ck.violation(
                    "cell",
                    detail(json!({"row": k, "column": column(c), "got": hex(&g[c]), "expected": hex(&w[c]),
                        "instruction": hex(&w[INST]), "registers": run.regs[k]})),
                );
                return;
            }
        }
        ck.count("cells compared", w.len() as u64);
    }
    ck.count("rows compared", got.len() as u64);
    for f in &run.features {
        ck.seen("instruction forms executed", f.as_bytes());
    }
    let mut fp = format!("{kind}{:?}{:?}{:?}", run.regs, run.rc, run.out).into_bytes();
    for v in run.mem.values() {
        fp.extend(v.to_bytes_be());
    }
    ck.eval(&fp, got.len() > 1);
    ck.sample(json!({"kind": kind, "run": run.brief()}));
}

fn main() {
    let mut ck = Check::new(
        "C20",
        "one evaluation per generated run: the built execution trace compared cell by cell with the rows an independent \
         interpreter computes; distinct by registers and memory; non-trivial with at least two steps",
    );
    for kind in [0, 1, 1, 3, 2].into_iter().cycle().take(ck.n(5, 25)) {
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let run = large(kind, false, &mut rng);
        ck.begin(&run.brief().to_string());
        one(&run, "large", &mut ck);
        ck.count("runs of more than 1000 steps", (run.regs.len() > 1000) as u64);
        ck.count("range-checked values in large runs", run.rc.map_or(0, |(s, e)| e - s));
    }
    let (a, b) = (ck.n(9000, 60_000), ck.n(54000, 400_000));
    for _ in 0..a {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let g = structured(&mut rng, 90);
        let run = generate(&g, &mut rng);
        // the builtin columns hold a value per step
        if run.rc.map_or(false, |(s, e)| (e - s) as usize > run.regs.len()) {
            continue;
        }
        ck.begin(&run.brief().to_string());
        one(&run, "structured", &mut ck);
    }
    let sets: [&[(u64, u64)]; 5] = [
        &[(1, 60)],
        &[(1, 300)],
        &[(1, 40), (32_700, 32_800)],
        &[(1, 40), (32_760, 32_775), (65_520, 65_545)],
        &[(1, 20), (30_000, 30_050), (60_000, 60_020), ((1 << 40) - 5, (1 << 40) + 30), ((1 << 32) - 8, (1 << 32) + 8)],
    ];
    for k in 0..b {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let steps = rng.range(1, 24);
        let Some(run) = wild(steps, sets[k % 5], 18, &mut rng) else {
            ck.count("wild runs given up", 1);
            continue;
        };
        ck.begin(&run.brief().to_string());
        one(&run, "wild", &mut ck);
    }
    ck.finish();
}
