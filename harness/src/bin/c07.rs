//! C07: a prover that departs from the protocol cannot get a false proof accepted.
use harness::progair::*;
use harness::refstark::*;
use harness::report::{guard, Check};
use harness::rng::Rng;
use serde_json::json;

fn cheats(rng: &mut Rng, layers: usize, width: usize, rows: usize) -> Vec<Cheat> {
    let mut out = vec![];
    let h = [H::Honest, H::Zero];
    let oods = |rng: &mut Rng| [Ood::Honest, Ood::Even, Ood::Odd, Ood::Trace(rng.below(rows), rng.below(width)), Ood::Trace(rng.below(rows), rng.below(width))];
    let opens = |rng: &mut Rng| {
        [Open::Honest, Open::Even, Open::Odd, Open::Trace(rng.below(width)), Open::First, Open::FirstAndSym, Open::Evaluations]
    };
    let fris = |rng: &mut Rng| {
        [Fri::Honest, Fri::Zero, Fri::ZeroFrom(rng.below(layers)), Fri::ZeroFrom(layers - 1), Fri::Layers(-1), Fri::Layers(1), Fri::LowDegree, Fri::Detour(rng.below(layers), rng.chance(1, 2))]
    };
    let omits = [
        Omit::Openings, Omit::Queries, Omit::Layers, Omit::LayerPaths, Omit::SymPaths, Omit::Evaluations,
        Omit::TracePaths, Omit::AllButOneOpening, Omit::AllButOneQuery,
    ];
    let owns = [Own::ConstraintCoeffs, Own::Gammas, Own::Zetas, Own::Positions, Own::LastValue];
    for h in h {
        for ood in oods(rng) {
            // each way to make the later rounds agree with the wrong claim
            for fri in fris(rng) {
                let all = opens(rng);
                let open = *rng.pick(&all);
                out.push(Cheat { h, ood, fri, open, ..HONEST });
            }
            for open in opens(rng) {
                let fri = *rng.pick(&[Fri::Zero, Fri::Honest]);
                out.push(Cheat { h, ood, fri, open, ..HONEST });
            }
            for omit in omits {
                let all = opens(rng);
                let open = *rng.pick(&all);
                let all = fris(rng);
                let fri = *rng.pick(&all);
                out.push(Cheat { h, ood, fri, open, omit, ..HONEST });
                out.push(Cheat { h, ood, omit, ..HONEST });
            }
            // a value of the first layer alone is not that of the commitment
            for open in [Open::FirstAndSym, Open::First, Open::Evaluations] {
                for k in [1, layers - 1] {
                    out.push(Cheat { h, ood, fri: Fri::ZeroFrom(k), open, ..HONEST });
                }
            }
            // some query passes by luck, and the others are forged
            for lucky in [Lucky::First, Lucky::Last, Lucky::Middle, Lucky::FirstAndLast] {
                for fri in [Fri::LowDegree, Fri::Honest] {
                    for open in opens(rng) {
                        out.push(Cheat { h, ood, fri, open, lucky, ..HONEST });
                    }
                }
            }
            for own in owns {
                let all = opens(rng);
                let open = *rng.pick(&all);
                let all = fris(rng);
                let fri = *rng.pick(&all);
                out.push(Cheat { h, ood, own, ..HONEST });
                out.push(Cheat { h, ood, fri, open, own, ..HONEST });
            }
        }
    }
    out
}

/// The folding goes wrong in one layer, in each of them.
fn deep_cheats(rng: &mut Rng, layers: usize) -> Vec<Cheat> {
    let mut out = vec![];
    // the identity out of the domain holds, so that all depends on the folding
    let base = |rng: &mut Rng| Cheat { ood: *rng.pick(&[Ood::Even, Ood::Odd]), ..HONEST };
    for k in 0..layers {
        for open in [Open::Honest, *rng.pick(&[Open::First, Open::FirstAndSym, Open::Evaluations, Open::Even, Open::Odd])] {
            out.push(Cheat { fri: Fri::ZeroFrom(k), open, ..base(rng) });
        }
        for unbound in [false, true] {
            out.push(Cheat { fri: Fri::Detour(k, unbound), ..base(rng) });
        }
    }
    out.push(Cheat { own: Own::LastValue, ..base(rng) });
    out.push(Cheat { fri: Fri::LowDegree, open: Open::Even, ..base(rng) });
    out.push(Cheat { h: H::Zero, ood: Ood::Even, ..HONEST });
    out
}

fn main() {
    let mut ck = Check::new(
        "C07",
        "one evaluation per proof made by an independent prover, for a trace that does not satisfy the statement, that \
         departs from the protocol in one or more rounds; the verifier has to reject; distinct by computation shape and \
         strategy. Each computation's honest proof by the same prover, for the satisfying trace, was accepted",
    );
    let mut rng = ck.rng.clone();
    let usual = ck.n(26, 400);
    for i in 0..usual + ck.n(4, 16) {
        if ck.stop() {
            break;
        }
        // the last ones have traces of the lengths met in practice, and cheats in each of their layers
        let large = i >= usual;
        let lim = match large {
            true => {
                let log_n = [9, 11, 8, 10, 12, 13][(i - usual) % 6];
                Limits { min_log_n: log_n, max_log_n: log_n, max_lde: 4 << log_n, queries: (26, 28), max_grind: 2, max_cols: 2 }
            }
            false => Limits {
                min_log_n: 3,
                max_log_n: [3, 4, 4, 5][i % 4],
                max_lde: 128,
                queries: (26, 30),
                max_grind: 2,
                max_cols: [2, 4, 6, 3][i % 4],
            },
        };
        // some have many columns, some have many rows in their frames
        let new = |rng: &mut Rng| match i % 13 {
            // more than 8 bits count
            5 if !large && i % 26 == 18 => gen_case(rng, &Limits { max_cols: 500, max_log_n: 3, max_lde: 32, ..lim }),
            5 if !large => gen_case(rng, &Limits { max_cols: 90, max_log_n: 4, ..lim }),
            9 if !large => many_rows(rng),
            _ => gen_case(rng, &lim),
        };
        let mut c = new(&mut rng);
        while c.opts.blowup < 4 || !aperiodic(&c.main) {
            c = new(&mut rng);
        }
        ck.begin(&c.brief().to_string());
        let (hp, _) = prove(&c.spec, &c.main, &c.opts, &HONEST).expect("honest");
        match guard(|| accepts(&hp, &c.spec, &c.opts)) {
            Ok(true) => ck.count("honest proofs of the independent prover accepted", 1),
            // the verifier does not play this protocol: nothing a cheater does in it is decided
            got => {
                ck.count("honest proofs of the independent prover rejected", 1);
                ck.expect(false, "verifier-departs-from-the-protocol", || json!({"case": c.brief(), "panic": got.err()}));
                continue;
            }
        }
        // a false statement: a tampered trace, or another asserted value
        let mut bad = c.clone();
        let mut tries = 0;
        let why = loop {
            tries += 1;
            if tries > 50 {
                break None;
            }
            bad = c.clone();
            if !bad.spec.bcs.is_empty() && rng.chance(1, 2) {
                let k = rng.below(bad.spec.bcs.len());
                harness::proofs::alter_fe(&mut bad.spec.bcs[k].value[0].0, &mut rng);
            } else {
                let (k, r) = (rng.below(bad.main.len()), rng.below(bad.n));
                harness::proofs::alter_fe(&mut bad.main[k][r], &mut rng);
            }
            if let Some(v) = bad.spec.satisfied(&bad.main, &mut rng) {
                break Some(v);
            }
        };
        let Some(why) = why else { continue };
        let layers = (bad.n.trailing_zeros() as usize).max(1);
        let all = match large {
            true => deep_cheats(&mut rng, layers),
            false => {
                let mut all = cheats(&mut rng, layers, bad.spec.width(), bad.spec.offsets.len());
                rng.shuffle(&mut all);
                all.truncate(ck.n(130, 260));
                all
            }
        };
        for cheat in all {
            let Ok(Some((p, _))) = guard(|| prove(&bad.spec, &bad.main, &bad.opts, &cheat)) else { continue };
            let d = json!({"strategy": format!("{cheat:?}"), "false_because": why, "case": bad.brief()});
            ck.begin(&d.to_string());
            let got = guard(|| accepts(&p, &bad.spec, &bad.opts));
            if got.is_err() {
                ck.count("verifier panicked", 1);
            }
            ck.expect(!matches!(got, Ok(true)), "cheating-prover-accepted", || d.clone());
            ck.seen("strategies", format!("{cheat:?}").as_bytes());
            ck.count("false proofs rejected", !matches!(got, Ok(true)) as u64);
            ck.eval(d.to_string().as_bytes(), true);
            ck.sample(d);
        }
    }
    ck.assume("at least 26 queries with blowup at least 4: a proof whose committed polynomial is not low degree passes by luck with probability below 2^-45");
    ck.assume("strategies are the library in harness/src/refstark.rs; a cheat outside it is not tried");
    ck.finish();
}
