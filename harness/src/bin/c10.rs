//! C10: prover and verifier follow the same complete Fiat-Shamir transcript.
//! An online log of all absorptions and draws on both sides, checked against a trace specification.
use harness::cairoair::{air, subject, table_of, Ch};
use harness::progair::*;
use harness::proofs::*;
use harness::report::{guard, Check};
use lambdaworks_crypto::fiat_shamir::log::{self, Event};
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{generate_cairo_proof, verify_cairo_proof};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// What happened on one transcript: bytes absorbed before each challenge, and the challenges.
#[derive(Clone, Debug, Default, PartialEq)]
struct Story {
    absorbed: Vec<Vec<u8>>,
    drawn: Vec<[u8; 32]>,
}

/// The stories of all transcripts with at least one draw, in order of appearance. How absorbed
/// bytes are cut into calls does not matter.
fn stories(ev: &[Event]) -> Vec<Story> {
    let mut order = vec![];
    let mut open: BTreeMap<u64, (Story, Vec<u8>)> = BTreeMap::new();
    for e in ev {
        let id = match e {
            Event::New(i) | Event::Append(i, _) | Event::Challenge(i, _) => *i,
        };
        let (s, pending) = open.entry(id).or_insert_with(|| {
            order.push(id);
            Default::default()
        });
        match e {
            Event::New(_) => {}
            Event::Append(_, b) => pending.extend(b),
            Event::Challenge(_, c) => {
                s.absorbed.push(std::mem::take(pending));
                s.drawn.push(*c);
            }
        }
    }
    order.into_iter().map(|i| open.remove(&i).unwrap().0).filter(|s| !s.drawn.is_empty()).collect()
}

/// A block of draws, and what has to be absorbed before it (and after the previous block).
struct Block {
    name: &'static str,
    draws: usize,
    needs: Vec<(String, Vec<Vec<u8>>)>,
}

fn felt(v: &FE) -> Vec<Vec<u8>> {
    let b = v.to_bytes_be();
    let mut l = b.clone();
    l.reverse();
    vec![b, l]
}

/// How often the bytes occur (occurrences may overlap: small values have many zero bytes).
fn occurrences(hay: &[u8], needle: &[u8]) -> usize {
    hay.windows(needle.len()).filter(|w| *w == needle).count()
}

/// The claims of a proof in protocol order.
fn blocks(p: &P, rap: usize, constraints: usize, assertions: &[FE], public: &[(FE, FE)], cols: usize, offs: usize, queries: usize) -> Vec<Block> {
    let mut first = vec![("main trace root".to_string(), vec![p.lde_trace_merkle_roots[0].to_vec()])];
    for (a, v) in public {
        first.push(("public memory address".into(), felt(a)));
        first.push(("public memory value".into(), felt(v)));
    }
    let mut second = vec![];
    if p.lde_trace_merkle_roots.len() > 1 {
        second.push(("auxiliary trace root".to_string(), vec![p.lde_trace_merkle_roots[1].to_vec()]));
    }
    for v in assertions {
        second.push(("asserted value".to_string(), felt(v)));
    }
    let mut out = vec![];
    if rap > 0 {
        out.push(Block { name: "auxiliary challenges", draws: rap, needs: first });
    } else {
        second.extend(first);
    }
    out.push(Block { name: "constraint coefficients", draws: 2 * (constraints + assertions.len()), needs: second });
    out.push(Block { name: "out-of-domain point", draws: 1, needs: vec![("composition root".into(), vec![p.composition_poly_root.to_vec()])] });
    let mut ood = vec![
        ("even out-of-domain value".to_string(), felt(&p.composition_poly_even_ood_evaluation)),
        ("odd out-of-domain value".to_string(), felt(&p.composition_poly_odd_ood_evaluation)),
    ];
    for r in frame_rows(&p.trace_ood_frame_evaluations) {
        for v in r {
            ood.push(("trace out-of-domain value".into(), felt(&v)));
        }
    }
    out.push(Block { name: "DEEP coefficients", draws: 2 + cols * offs, needs: ood });
    for (k, r) in p.fri_layers_merkle_roots.iter().enumerate() {
        out.push(Block { name: "folding challenge", draws: 1, needs: vec![(format!("layer {k} root"), vec![r.to_vec()])] });
    }
    out.push(Block { name: "grinding challenge", draws: 1, needs: vec![("last folding value".into(), felt(&p.fri_last_value))] });
    out.push(Block { name: "query positions", draws: queries, needs: vec![("nonce".into(), vec![p.nonce.to_be_bytes().to_vec(), p.nonce.to_le_bytes().to_vec()])] });
    out
}

/// Checks a story against the blocks; the out-of-domain point may take several draws.
fn follows(s: &Story, blocks: &[Block]) -> Result<(), String> {
    let total: usize = blocks.iter().map(|b| b.draws).sum();
    if s.drawn.len() < total {
        return Err(format!("{} draws instead of {total}", s.drawn.len()));
    }
    let extra = s.drawn.len() - total;
    if extra > 3 {
        return Err(format!("{} draws instead of {total}", s.drawn.len()));
    }
    let mut at = 0;
    for b in blocks {
        for (name, forms) in &b.needs {
            let times = b.needs.iter().filter(|(_, f)| f == forms).count();
            if !forms.iter().any(|f| occurrences(&s.absorbed[at], f) >= times) {
                return Err(format!("{name} is not absorbed before the {} (draw {at})", b.name));
            }
        }
        at += b.draws + if b.name == "out-of-domain point" { extra } else { 0 };
    }
    Ok(())
}

/// The coarser rule when draws are arranged in another way: everything is absorbed somewhere in time.
fn judge(ck: &mut Check, d: &Value, prover: &[Event], verifier: &[Event], blocks: &[Block]) {
    let (a, b) = (stories(prover), stories(verifier));
    ck.expect(a == b, "different-transcripts", || {
        let first = a
            .first()
            .zip(b.first())
            .map(|(x, y)| {
                let k = x.absorbed.iter().zip(&y.absorbed).position(|(p, q)| p != q);
                format!("prover {} draws, verifier {} draws, first different absorption before draw {k:?}", x.drawn.len(), y.drawn.len())
            })
            .unwrap_or_default();
        json!({"case": d, "transcripts": [a.len(), b.len()], "what": first})
    });
    for (side, s) in [("prover", &a), ("verifier", &b)] {
        let Some(s) = s.iter().max_by_key(|s| s.drawn.len()) else {
            ck.violation("no-transcript", json!({"case": d, "side": side}));
            continue;
        };
        if let Err(e) = follows(s, blocks) {
            ck.violation("incomplete-transcript", json!({"case": d, "side": side, "what": e}));
        }
        ck.count("draws observed", s.drawn.len() as u64);
        ck.count("bytes absorbed", s.absorbed.iter().map(|x| x.len() as u64).sum());
        // no two draws give the same challenge: each sees the ones before it
        let distinct: std::collections::HashSet<_> = s.drawn.iter().collect();
        ck.expect(distinct.len() == s.drawn.len(), "repeated-challenge", || json!({"case": d, "side": side}));
    }
    ck.seen("transcript shapes", format!("{:?}", a.iter().map(|s| s.absorbed.iter().map(|x| x.len()).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes());
}

fn main() {
    let mut ck = Check::new(
        "C10",
        "one evaluation per accepted proof whose prover and verifier transcripts were recorded, compared and checked against \
         the order the protocol prescribes; distinct by computation or run and options",
    );
    let mut rng = ck.rng.clone();
    let n = ck.n(3000, 12_000);
    for i in 0..n {
        if ck.stop() {
            break;
        }
        if i % 6 != 5 {
            let lim = Limits {
                min_log_n: [0, 1, 2, 3][i % 4],
                max_log_n: [2, 3, 5, 6][i % 4],
                max_lde: 512,
                queries: (1, 10),
                max_grind: [0, 3, 6, 2][i % 4],
                max_cols: [1, 4, 9, 3][i % 4],
            }.rare(i, 30);
            // some as large as a prover meets in practice
            let c = if i % 400 == 0 { big_case(&mut rng, i / 400, (1, 5), 2) } else { gen_case(&mut rng, &lim) };
            let d = c.brief();
            ck.begin(&d.to_string());
            log::start();
            let p = guard(|| prove_trace(&c.spec, &c.main, &c.opts));
            let pe = log::take();
            let Ok(p) = p else { continue };
            log::start();
            let v = guard(|| accepts(&p, &c.spec, &c.opts));
            let ve = log::take();
            if v != Ok(true) {
                // also a different transcript leads here: judge it when the two differ
                ck.count("proofs rejected", 1);
                ck.expect(v.is_err() || stories(&pe) == stories(&ve), "different-transcripts", || json!({"case": d, "verdict": "rejected"}));
                continue;
            }
            // the values asserted, under the challenges of this transcript
            let chals: Vec<FE> = stories(&pe)
                .first()
                .map(|s| {
                    s.drawn[..c.spec.chals]
                        .iter()
                        .map(|b| {
                            let mut b = *b;
                            b[0] &= 7;
                            FE::from_bytes_be(&b).unwrap()
                        })
                        .collect()
                })
                .unwrap_or_default();
            let asserted: Vec<FE> = (0..c.spec.bcs.len()).map(|k| c.spec.bc_value(k, &chals)).collect();
            let b = blocks(&p, c.spec.chals, c.spec.cons.len(), &asserted, &[], c.spec.width(), c.spec.offsets.len(), c.opts.queries);
            judge(&mut ck, &d, &pe, &ve, &b);
            ck.eval(d.to_string().as_bytes(), true);
            ck.count("generated computations", 1);
            ck.sample(d);
        } else {
            let Some((run, main, pi)) = subject(i, &mut rng) else { continue };
            let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: rng.range(1, 6), coset_offset: 3, grinding_factor: rng.below(4) as u8 };
            let d = json!({"run": run.brief(), "options": format!("{o:?}")});
            ck.begin(&d.to_string());
            log::start();
            let p = guard(|| generate_cairo_proof(&table_of(&main), &pi, &o));
            let pe = log::take();
            let Ok(Ok(p)) = p else { continue };
            log::start();
            let v = guard(|| verify_cairo_proof(&p, &pi, &o));
            let ve = log::take();
            if v != Ok(true) {
                ck.count("proofs rejected", 1);
                ck.expect(v.is_err() || stories(&pe) == stories(&ve), "different-transcripts", || json!({"case": d, "verdict": "rejected"}));
                continue;
            }
            let c: Vec<FE> = stories(&pe)[0].drawn[..3]
                .iter()
                .map(|b| {
                    let mut b = *b;
                    b[0] &= 7;
                    FE::from_bytes_be(&b).unwrap()
                })
                .collect();
            let a = air(&pi, main.len(), &o);
            let ch = Ch { alpha: c[0].clone(), z: c[1].clone(), z_rc: c[2].clone() };
            let asserted: Vec<FE> = a.boundary_constraints(&ch.real()).constraints.iter().map(|b| b.value.clone()).collect();
            let public: Vec<(FE, FE)> = pi.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
            let b = blocks(&p, 3, a.num_transition_constraints(), &asserted, &public, a.context().trace_columns, 2, o.fri_number_of_queries);
            judge(&mut ck, &d, &pe, &ve, &b);
            ck.eval(d.to_string().as_bytes(), true);
            ck.count("Cairo runs", 1);
        }
    }
    ck.finish();
}
