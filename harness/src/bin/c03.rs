//! C03: any alteration of an accepted proof makes verification fail.
use harness::progair::*;
use harness::proofs::*;
use harness::report::Check;
use lambdaworks_math::traits::{Deserializable, Serializable};
use serde_json::json;

fn main() {
    let mut ck = Check::new(
        "C03",
        "one evaluation per altered proof that differs from the accepted one and was verified; every component is \
         altered in turn; distinct by computation shape and alteration",
    );
    let mut rng = ck.rng.clone();
    let usual = ck.n(120, 3000);
    for i in 0..usual + ck.n(3, 14) {
        if ck.stop() {
            break;
        }
        // the last ones are as large as a prover meets in practice
        let large = i >= usual;
        // enough queries and positions that no nonce or position change passes by luck
        let lim = Limits {
            min_log_n: [2, 3, 4, 5][i % 4],
            max_log_n: [3, 4, 5, 6][i % 4],
            max_lde: 512,
            queries: (8, 12),
            max_grind: [0, 3, 6, 0][i % 4],
            max_cols: [2, 5, 9, 4][i % 4],
        }.rare(i, 20);
        let new = |rng: &mut harness::rng::Rng| match large {
            true => big_case(rng, i, (8, 12), 3),
            false => gen_case(rng, &lim),
        };
        let mut c = new(&mut rng);
        while (c.opts.blowup as usize) * c.n < 32 || !aperiodic(&c.main) {
            c = new(&mut rng);
        }
        ck.begin(&c.brief().to_string());
        let p = prove_trace(&c.spec, &c.main, &c.opts);
        if !accepts(&p, &c.spec, &c.opts) {
            // nothing to alter: C01 judges this
            ck.count("proofs rejected before any alteration", 1);
            continue;
        }
        ck.count("accepted proofs", 1);
        let per = if large { 20 } else { ck.n(6, 12) };
        for which in 0..COMPONENTS {
            for _ in 0..per {
                let mut q = copy(&p);
                let how = alter(&mut q, which, &mut rng);
                let Some(field) = difference(&p, &q) else {
                    ck.count("alterations without effect", 1);
                    continue;
                };
                let d = json!({"altered": how, "field": field, "case": c.brief()});
                ck.begin(&d.to_string());
                // a panic is not an acceptance; C06 judges panics
                let ok = harness::report::guard(|| accepts(&q, &c.spec, &c.opts));
                ck.expect(!matches!(ok, Ok(true)), "altered-proof-accepted", || d.clone());
                if ok.is_err() {
                    ck.count("verifier panicked", 1);
                }
                ck.seen("alterations", how.split(' ').filter(|w| w.parse::<usize>().is_err()).collect::<String>().as_bytes());
                ck.count(&format!("altered {field}"), 1);
                ck.eval(d.to_string().as_bytes(), true);
                if which % 7 == 0 {
                    ck.sample(d);
                }
            }
        }
        // the same, through the serialized form
        let bytes = p.serialize();
        for _ in 0..ck.n(60, 300) {
            let mut b = bytes.clone();
            let at = rng.below(b.len());
            let bit = rng.below(8);
            b[at] ^= 1 << bit;
            let q = match harness::report::guard(|| P::deserialize(&b)) {
                Ok(Ok(q)) => q,
                _ => {
                    ck.count("flipped bits that do not decode", 1);
                    continue;
                }
            };
            let Some(field) = difference(&p, &q) else {
                ck.count("flipped bits without effect", 1);
                continue;
            };
            if q.trace_length > 1 << 18 {
                continue;
            }
            let d = json!({"flipped": [at, bit], "field": field, "case": c.brief()});
            ck.begin(&d.to_string());
            let ok = harness::report::guard(|| accepts(&q, &c.spec, &c.opts));
            ck.expect(!matches!(ok, Ok(true)), "altered-proof-accepted", || d.clone());
            ck.count("flipped bits that decode to another proof", 1);
            ck.eval(d.to_string().as_bytes(), true);
        }
    }
    ck.assume("at least 8 queries over at least 32 positions: an altered proof that changes the query positions passes by luck with probability below 2^-40");
    ck.assume("some column has no period: with only periodic columns, positions a period apart open to the very same values and paths, and a nonce leading to those is as good");
    ck.finish();
}
