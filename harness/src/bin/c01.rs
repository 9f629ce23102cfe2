//! C01: every valid computation gets a proof that verifies; proving is deterministic.
use harness::progair::*;
use harness::proofs::difference;
use harness::refstark;
use harness::shipped::{round, Sections};
use harness::report::Check;
use serde_json::json;

fn one(ck: &mut Check, c: &Case, repeat: bool) {
    let mut r = ck.rng.clone();
    if let Some(v) = c.spec.satisfied(&c.main, &mut r) {
        panic!("generator made an unsatisfied case: {v} {}", c.brief());
    }
    ck.begin(&c.brief().to_string());
    let Some(p) = ck.run("prover-panics", || c.brief(), || prove_trace(&c.spec, &c.main, &c.opts)) else {
        return;
    };
    let Some(ok) = ck.run("verifier-panics", || c.brief(), || accepts(&p, &c.spec, &c.opts)) else {
        return;
    };
    ck.expect(ok, "valid-proof-rejected", || c.brief());
    ck.count("proofs made", 1);
    ck.count(if ok { "accepted" } else { "rejected" }, 1);
    if repeat {
        if let Some(q) = ck.run("prover-panics", || c.brief(), || prove_trace(&c.spec, &c.main, &c.opts)) {
            let d = difference(&p, &q);
            ck.expect(d.is_none(), "not-deterministic", || json!({"differs": d, "case": c.brief()}));
            ck.count("proofs repeated", 1);
        }
    }
    let shape = c.brief().to_string();
    ck.seen("shapes", shape.as_bytes());
    ck.seen("trace lengths", &c.n.to_be_bytes());
    ck.seen("blowups", &[c.opts.blowup]);
    ck.seen("offset lists", format!("{:?}", c.spec.offsets).as_bytes());
    let ex: Vec<usize> = c.spec.cons.iter().map(|c| c.exempt).collect();
    ck.seen("exemption lists", format!("{ex:?}").as_bytes());
    ck.eval(shape.as_bytes(), true);
    ck.sample(c.brief());
}

fn main() {
    let mut ck = Check::new(
        "C01",
        "one evaluation per computation with a satisfying trace (judged row by row beforehand): proved, verified, \
         some proved twice; distinct by shape (columns, offsets, degrees, exemptions, assertions, options)",
    );
    let n = ck.n(2100, 9000);
    for i in 0..n {
        if ck.stop() {
            break;
        }
        let lim = Limits {
            max_log_n: [4, 6, 6, 8][i % 4],
            max_lde: [256, 512, 1024, 2048][i % 4],
            queries: (1, [4, 8, 20, 3][i % 4]),
            max_grind: [0, 6, 10, 3][i % 4],
            max_cols: [2, 6, 12, 4][i % 4],
            min_log_n: [0, 1, 1, 2][i % 4],
        };
        let mut rng = ck.rng.clone();
        let c = gen_case(&mut rng, &lim);
        ck.rng = rng;
        one(&mut ck, &c, i % 3 == 0);
    }
    // large traces
    for i in 0..ck.n(12, 60) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 9, max_log_n: 12, max_lde: 1 << 14, queries: (1, 40), max_grind: 12, max_cols: 4 };
        let mut rng = ck.rng.clone();
        let mut c = gen_case(&mut rng, &lim);
        ck.rng = rng;
        // as the presets ask for
        if i % 6 == 3 {
            c.opts.grinding = 20;
        }
        one(&mut ck, &c, false);
    }
    // the sizes met in practice
    for i in 0..ck.n(4, 28) {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        let c = big_case(&mut rng, i, (1, 40), 3);
        ck.rng = rng;
        one(&mut ck, &c, false);
    }
    // wide traces
    for i in 0..ck.n(18, 60) {
        if ck.stop() {
            break;
        }
        let cols = if i % 9 == 4 { 400 } else { 60 };
        let lim = Limits { min_log_n: 2, max_log_n: 5, max_lde: if cols > 60 { 64 } else { 256 }, queries: (1, 6), max_grind: 2, max_cols: cols };
        let mut rng = ck.rng.clone();
        let c = gen_case(&mut rng, &lim);
        ck.rng = rng;
        one(&mut ck, &c, true);
    }
    // How often the independent prover makes the very same proof (observed, not judged).
    for i in 0..ck.n(180, 600) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 1, max_log_n: 4, max_lde: 128, queries: (1, 6), max_grind: 5, max_cols: 5 }.rare(i, 30);
        let mut rng = ck.rng.clone();
        let c = match i % 60 {
            1 => many_rows(&mut rng),
            2 => big_case(&mut rng, [2, 4, 6][(i / 60) % 3], (1, 6), 2),
            _ => gen_case(&mut rng, &lim),
        };
        ck.rng = rng;
        ck.begin(&c.brief().to_string());
        let Some((p, _)) = refstark::prove(&c.spec, &c.main, &c.opts, &refstark::HONEST) else { continue };
        one(&mut ck, &c, false);
        let Some(q) = ck.run("prover-panics", || c.brief(), || prove_trace(&c.spec, &c.main, &c.opts)) else { continue };
        ck.count("compared with the independent prover", 1);
        ck.count("proofs equal to the independent prover's", difference(&p, &q).is_none() as u64);
    }
    let mut shipped_rng = ck.rng.clone();
    // the computations that ship with the library, over two further fields as well
    for i in 0..ck.n(240, 1500) {
        if ck.stop() {
            break;
        }
        let s = Sections { honest: true, ..Default::default() };
        round(&mut ck, &mut shipped_rng, i, 5, 256, &s);
    }
    ck.assume("computations follow the protocol's own preconditions: the first row offset is 0, constraint degrees fit the declared bound, exempted constraints keep the composition polynomial within what two half-degree columns can hold");
    ck.finish();
}
