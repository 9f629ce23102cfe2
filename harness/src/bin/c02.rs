//! C02: a trace that breaks any constraint never yields an accepted proof, and one that does
//! not, does.
use harness::progair::*;
use lambdaworks_stark::FE;
use harness::shipped::{round, Sections};
use harness::report::{guard, Check};
use serde_json::json;

fn main() {
    let mut ck = Check::new(
        "C02",
        "one evaluation per tampered (or untouched) trace: an independent row-by-row judge says whether it satisfies \
         the computation, and the verdict on its proof has to be that; non-trivial when the trace is unsatisfying or \
         was really changed; distinct by computation shape and change",
    );
    let mut rng = ck.rng.clone();
    let n = ck.n(450, 7000);
    let mut done = 0;
    while done < n && !ck.stop() {
        let i = done;
        done += 1;
        let lim = Limits {
            min_log_n: 1,
            max_log_n: [3, 4, 5, 7][i % 4],
            max_lde: [128, 128, 256, 1024][i % 4],
            queries: (1, 4),
            max_grind: 2,
            max_cols: [3, 5, 8, 4][i % 4],
        }.rare(i, 25);
        let base = gen_case(&mut rng, &lim);
        for k in 0..5 {
            let mut c = base.clone();
            let how = if k == 0 && i % 5 == 0 { "nothing".to_string() } else { tamper(&mut rng, &mut c) };
            let verdict = c.spec.satisfied(&c.main, &mut rng);
            let changed = c.main != base.main || c.spec.aux_fault.is_some();
            ck.begin(&format!("{how} {}", c.brief()));
            let d = json!({"changed": how, "broken": verdict, "case": c.brief()});
            let p = match guard(|| prove_trace(&c.spec, &c.main, &c.opts)) {
                Ok(p) => p,
                Err(m) => {
                    // No proof, so nothing false is accepted; but valid traces have to be proved.
                    ck.count("prover gave up", 1);
                    ck.expect(verdict.is_some(), "prover-panics-on-valid-trace", || json!({"panic": m, "case": d}));
                    continue;
                }
            };
            let Some(ok) = ck.run("verifier-panics", || d.clone(), || accepts(&p, &c.spec, &c.opts)) else { continue };
            match &verdict {
                Some(v) => {
                    ck.count("unsatisfying traces", 1);
                    ck.seen("broken constraints or assertions", v.as_bytes());
                    ck.seen("kinds of change", how.split(' ').next().unwrap().as_bytes());
                    ck.expect(!ok, "false-trace-accepted", || d.clone());
                }
                None => {
                    ck.count("satisfying traces", 1);
                    if changed {
                        ck.count("satisfying traces changed in cells nothing constrains", 1);
                    }
                    ck.expect(ok, "valid-trace-rejected", || d.clone());
                }
            }
            ck.eval(format!("{how} {}", c.brief()).as_bytes(), changed);
            if verdict.is_some() {
                ck.sample(d);
            }
        }
    }
    // An assertion that holds on every row but its own, or on one other row only.
    for i in 0..ck.n(60, 800) {
        if ck.stop() {
            break;
        }
        let n = 1usize << if i % 3 == 0 { rng.range(8, 10) } else { rng.range(1, 7) };
        let cols = rng.range(1, 3);
        let (a, b) = (rng.fe(), rng.fe_nonzero());
        let s = rng.below(n);
        let t = match rng.below(3) {
            0 => (s + 1) % n,
            _ => s ^ (1 << rng.below(n.trailing_zeros() as usize)),
        };
        let col = rng.below(cols);
        let mut main: Cols = (0..cols).map(|_| (0..n).map(|_| rng.fe()).collect()).collect();
        let only = rng.chance(1, 2);
        main[col] = (0..n).map(|r| if only == (r == t) { a.clone() } else { &a + if only { rng.fe_nonzero() } else { b.clone() } }).collect();
        if !only {
            // everywhere but in one row
            main[col] = (0..n).map(|r| if r == s { &a + &b } else { a.clone() }).collect();
        }
        let mut bcs = vec![Bc { col, step: s, value: vec![(a.clone(), None)] }];
        for _ in 0..rng.below(3) {
            let (c, r) = (rng.below(cols), rng.below(n));
            if (c, r) != (col, s) && !bcs.iter().any(|x| (x.col, x.step) == (c, r)) {
                bcs.insert(rng.below(bcs.len() + 1), Bc { col: c, step: r, value: vec![(main[c][r].clone(), None)] });
            }
        }
        // a computation has at least one transition constraint: a constant column
        let k = rng.fe_nonzero();
        main.push(vec![k.clone(); n]);
        let con = Con {
            terms: vec![Term { coef: FE::one(), chal: None, vars: vec![(0, cols)] }, Term { coef: -k, chal: None, vars: vec![] }],
            degree: 1,
            exempt: 0,
        };
        let spec = Spec { main: cols + 1, offsets: vec![0], cons: vec![con], bcs, chals: 0, aux: vec![], dfac: 1, aux_fault: None };
        let opts = gen_opts(&mut rng, n, 2048, (1, 3), 1);
        let d = json!({"asserted": s, "holds": if only { json!(t) } else { json!("everywhere else") }, "rows": n, "spec": spec.brief(), "options": opts.json()});
        ck.begin(&d.to_string());
        for honest in [false, true] {
            let mut main = main.clone();
            if honest {
                main[col][s] = a.clone();
            }
            assert_eq!(spec.satisfied(&main, &mut rng).is_none(), honest);
            let Ok(p) = guard(|| prove_trace(&spec, &main, &opts)) else {
                ck.count("prover gave up", 1);
                ck.expect(!honest, "prover-panics-on-valid-trace", || d.clone());
                continue;
            };
            let Some(ok) = ck.run("verifier-panics", || d.clone(), || accepts(&p, &spec, &opts)) else { continue };
            ck.expect(ok == honest, if honest { "valid-trace-rejected" } else { "false-trace-accepted" }, || json!({"honest": honest, "case": d}));
            ck.count("assertions that hold elsewhere", 1);
            ck.eval(format!("{honest}{d}").as_bytes(), !honest);
        }
    }
    // Two constraints, or two assertions, broken by opposite amounts in the same rows: only their
    // weights, which have to be drawn one for each, tell the sum from that of a satisfying trace.
    for i in 0..ck.n(700, 9000) {
        if ck.stop() {
            break;
        }
        let n = 1usize << rng.range(2, 4);
        let many = rng.range(2, [6, 20, 40, 70][i % 4]);
        let a = rng.below(many);
        let b = match rng.below(3) {
            0 => (a + 1) % many,
            1 => a ^ (1 << rng.below(7)),
            _ => rng.below(many),
        };
        if a == b || b >= many {
            continue;
        }
        let of_constraints = i % 3 != 0;
        let v = rng.fe_nonzero();
        // column 0 is broken, column 1 is its opposite, column 2 is constant
        let off = rng.below(n);
        let x: Vec<FE> = (0..n).map(|r| if r == off { &v + rng.fe_nonzero() } else { v.clone() }).collect();
        let main: Cols = vec![x.clone(), x.iter().map(|x| -x.clone()).collect(), vec![v.clone(); n]];
        let con = |col: usize| Con {
            terms: vec![
                Term { coef: FE::one(), chal: None, vars: vec![(0, col)] },
                Term { coef: if col == 1 { v.clone() } else { -v.clone() }, chal: None, vars: vec![] },
            ],
            degree: 1,
            exempt: 0,
        };
        let cell = |col: usize| Bc { col, step: off, value: vec![(if col == 1 { -v.clone() } else { v.clone() }, None)] };
        let col_of = |k: usize| if k == a { 0 } else if k == b { 1 } else { 2 };
        let (cons, bcs): (Vec<Con>, Vec<Bc>) = match of_constraints {
            true => ((0..many).map(|k| con(col_of(k))).collect(), vec![cell(2)]),
            false => (vec![con(2)], (0..many).map(|k| cell(col_of(k))).collect()),
        };
        let spec = Spec { main: 3, offsets: vec![0], cons, bcs, chals: 0, aux: vec![], dfac: 1, aux_fault: None };
        let opts = gen_opts(&mut rng, n, 256, (1, 3), 1);
        let d = json!({"broken": [a, b], "of": if of_constraints { "constraints" } else { "assertions" }, "among": many, "rows": n, "options": opts.json()});
        ck.begin(&d.to_string());
        assert!(spec.satisfied(&main, &mut rng).is_some());
        let Ok(p) = guard(|| prove_trace(&spec, &main, &opts)) else {
            ck.count("prover gave up", 1);
            continue;
        };
        let Some(ok) = ck.run("verifier-panics", || d.clone(), || accepts(&p, &spec, &opts)) else { continue };
        ck.expect(!ok, "false-trace-accepted", || d.clone());
        ck.count("pairs broken by opposite amounts", 1);
        ck.eval(d.to_string().as_bytes(), true);
        ck.sample(d);
    }
    // the computations that ship with the library, over two further fields as well
    for i in 0..ck.n(40, 800) {
        if ck.stop() {
            break;
        }
        let s = Sections { deviations: 6, ..Default::default() };
        round(&mut ck, &mut rng, i, 5, 256, &s);
    }
    ck.assume("a proof of a false statement is accepted by luck with probability below 2^-200 here: the out-of-domain identity alone rejects it");
    ck.finish();
}
