//! C13: the low-degree test folds correctly, commits truly and opens faithfully.
use harness::progair::*;
use harness::refmerkle::{leaf, opens, root};
use harness::refstark::{horner, root_of_unity, values_on};
use harness::report::{guard, Check};
use harness::rng::Rng;
use harness::script::Scripted;
use lambdaworks_crypto::fiat_shamir::log::{self, Event};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::fri::{fri_commit_phase, fri_commitment::FriLayer, fri_decommit::FriDecommitment, fri_query_phase};
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::json;
use std::sync::Arc;

fn felt(c: &[u8; 32]) -> FE {
    let mut c = *c;
    c[0] &= 7;
    FE::from_bytes_be(&c).unwrap()
}

/// Values of a polynomial on offset * <w>, in order.
fn values(c: &[FE], off: &FE, m: usize) -> Vec<FE> {
    if m > 256 {
        return values_on(c, off, m);
    }
    let w = root_of_unity(m.trailing_zeros());
    let mut x = off.clone();
    (0..m)
        .map(|_| {
            let v = horner(c, &x);
            x = &x * &w;
            v
        })
        .collect()
}

fn fold(c: &[FE], z: &FE) -> Vec<FE> {
    (0..c.len().div_ceil(2))
        .map(|i| {
            let odd = c.get(2 * i + 1).cloned().unwrap_or(FE::zero());
            &c[2 * i] + z * odd
        })
        .collect()
}

/// Some air whose options ask for this many queries.
fn air(queries: usize, n: usize, rng: &mut Rng) -> ProgAir {
    let lim = Limits { max_cols: 1, ..Limits::default() };
    let mut c = gen_case(rng, &lim);
    c.opts.queries = queries;
    <ProgAir as AIR>::new(n, &Arc::new(c.spec), &c.opts.real())
}

fn coefficients(rng: &mut Rng, m: usize) -> Vec<FE> {
    let len = match rng.below(6) {
        0 => 0,
        1 => 1,
        2 => m,
        3 => m / 2,
        _ => rng.range(1, m),
    };
    match rng.below(6) {
        0 => (0..len).map(|i| if i % 2 == 0 { rng.fe() } else { FE::zero() }).collect(),
        1 => (0..len).map(|i| if i % 2 == 1 { rng.fe() } else { FE::zero() }).collect(),
        2 => (0..len).map(|i| if i + 1 == len { rng.fe_nonzero() } else { FE::zero() }).collect(),
        _ => (0..len).map(|_| rng.fe()).collect(),
    }
}

/// The opened values and paths of one query against layers known by root, size and, if given, values.
fn check_query(ck: &mut Check, d: &serde_json::Value, q: &FriDecommitment<F>, iota: usize, sizes: &[usize], roots: &[[u8; 32]], evals: Option<&[Vec<FE>]>) {
    let l = sizes.len();
    let shape = (q.layers_evaluations.len(), q.layers_evaluations_sym.len(), q.layers_auth_paths.len(), q.layers_auth_paths_sym.len());
    if !ck.expect(shape == (l, l, l, l), "decommitment-shape", || json!({"case": d, "layers": l, "lengths": format!("{shape:?}")})) {
        return;
    }
    for k in 0..l {
        let m = sizes[k];
        let depth = m.trailing_zeros() as usize;
        let i = iota % m;
        let s = (i + m / 2) % m;
        let what = |side: &str| json!({"case": d, "layer": k, "size": m, "query": iota, "side": side});
        for (side, i, v, p) in [
            ("queried", i, &q.layers_evaluations[k], &q.layers_auth_paths[k]),
            ("symmetric", s, &q.layers_evaluations_sym[k], &q.layers_auth_paths_sym[k]),
        ] {
            if let Some(e) = evals {
                ck.expect(*v == e[k][i], "opened-value-differs", || what(side));
            }
            ck.expect(opens(&roots[k], depth, i, &leaf(&[v.clone()]), &p.merkle_path), "opening-does-not-verify", || what(side));
            ck.count("openings checked", 1);
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C13",
        "one evaluation per polynomial folded, committed and queried against direct folding, evaluation and hashing, and per \
         proof whose decommitments were checked against its own transcript; non-trivial when the polynomial is not constant; \
         distinct by polynomial, sizes, offset and challenges",
    );
    let mut rng = ck.rng.clone();
    let large = ck.n(3, 12);
    for i in 0..ck.n(10000, 40_000) {
        if ck.stop() {
            break;
        }
        let log_m = if i < large { 17 - i % 6 } else { rng.range(1, [3, 5, 7, 8][i % 4]) };
        let m = 1usize << log_m;
        let layers = match rng.below(4) {
            0 => log_m,
            1 => 1,
            _ => rng.range(1, log_m),
        };
        let c = coefficients(&mut rng, m);
        let off = match rng.below(4) {
            0 => FE::from(3),
            1 => FE::from(rng.u64() | 2),
            2 => FE::one(),
            _ => rng.fe_nonzero(),
        };
        // folding challenges, also special ones
        let script: Vec<[u8; 32]> = (0..layers)
            .map(|_| match rng.below(6) {
                0 => [0; 32],
                1 => FE::one().to_bytes_be().try_into().unwrap(),
                2 => [255; 32],
                _ => rng.bytes32(),
            })
            .collect();
        let d = json!({"coefficients": c.len(), "domain": m, "layers": layers, "offset": harness::cairo::hex(&off)});
        ck.begin(&d.to_string());
        let mut t = Scripted::new(script.clone(), &mut rng);
        let p0 = Polynomial::new(&c);
        let Some((last, ls)) = ck.run("commit-panics", || d.clone(), || fri_commit_phase::<F, Scripted>(layers, p0.clone(), &mut t, &off, m)) else { continue };
        if !ck.expect(ls.len() == layers, "number-of-layers", || json!({"case": d, "got": ls.len()})) {
            continue;
        }
        let zetas: Vec<FE> = script.iter().map(felt).collect();
        ck.expect(t.drawn().len() == layers, "number-of-draws", || json!({"case": d, "got": t.drawn().len()}));
        let mut cur = c.clone();
        let (mut o, mut size) = (off.clone(), m);
        let mut want_absorbed: Vec<Vec<u8>> = vec![];
        let (mut sizes, mut evals, mut roots) = (vec![], vec![], vec![]);
        for k in 0..layers {
            let v = values(&cur, &o, size);
            let r = root(&v.iter().map(|x| leaf(&[x.clone()])).collect::<Vec<_>>());
            let l: &FriLayer<F> = &ls[k];
            let at = |what: &str| json!({"case": d, "layer": k, "what": what});
            ck.expect(l.evaluation == v, "layer-values", || at("evaluation"));
            ck.expect(l.merkle_tree.root == r, "layer-commitment", || at("root"));
            ck.expect(l.domain_size == size, "layer-domain", || at("domain size"));
            ck.expect(l.coset_offset == o, "layer-domain", || at("offset"));
            want_absorbed.push(r.to_vec());
            sizes.push(size);
            evals.push(v);
            roots.push(r);
            cur = fold(&cur, &zetas[k]);
            o = &o * &o;
            size /= 2;
            ck.count("layers checked", 1);
        }
        let want_last = cur.first().cloned().unwrap_or(FE::zero());
        ck.expect(last == want_last, "last-value", || d.clone());
        want_absorbed.push(want_last.to_bytes_be());
        ck.expect(t.absorbed() == want_absorbed, "transcript", || json!({"case": d, "lengths": t.absorbed().iter().map(|b| b.len()).collect::<Vec<_>>()}));
        // queries
        let nq = rng.range(0, 12);
        let script: Vec<[u8; 32]> = (0..nq)
            .map(|_| {
                let mut b = rng.bytes32();
                let head = match rng.below(5) {
                    0 => u64::MAX - rng.below(3) as u64,
                    1 => rng.below(m) as u64,
                    2 => (m / 2 + rng.below(2)) as u64 - 1,
                    _ => rng.u64(),
                };
                b[..8].copy_from_slice(&head.to_be_bytes());
                b
            })
            .collect();
        let want: Vec<usize> = script
            .iter()
            .map(|b| (b[..8].iter().fold(0u64, |a, x| (a << 8) | *x as u64) % m as u64) as usize)
            .collect();
        let a = air(nq, m.max(2), &mut rng);
        let mut t = Scripted::new(script, &mut rng);
        let Some((qs, iotas)) = ck.run("query-panics", || d.clone(), || fri_query_phase::<F, ProgAir, Scripted>(&a, m, &ls, &mut t)) else { continue };
        ck.expect(iotas == want, "query-positions", || json!({"case": d, "got": iotas, "want": want}));
        ck.expect(qs.len() == nq, "number-of-queries", || json!({"case": d, "got": qs.len(), "want": nq}));
        ck.expect(t.drawn().len() == nq && t.absorbed().iter().all(|b| b.is_empty()), "query-transcript", || d.clone());
        for (q, i) in qs.iter().zip(&want) {
            check_query(&mut ck, &d, q, *i, &sizes, &roots, Some(&evals));
            ck.seen("query positions", &[(*i).to_be_bytes(), m.to_be_bytes()].concat());
        }
        let nontrivial = c.iter().skip(1).any(|x| *x != FE::zero());
        ck.eval(format!("{d}{}", c.iter().map(harness::cairo::hex).collect::<String>()).as_bytes(), nontrivial);
        ck.sample(d);
    }
    // Decommitments inside real proofs, judged by the transcript of the prover that made them.
    for i in 0..ck.n(3200, 12_000) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: [0, 1, 2, 3][i % 4], max_log_n: [1, 3, 5, 7][i % 4], max_lde: 512, queries: (1, 10), max_grind: 2, max_cols: 3 }.rare(i, 40);
        let c = if i < large { big_case(&mut rng, i, (3, 20), 2) } else { gen_case(&mut rng, &lim) };
        ck.seen("domain sizes of proofs", &(c.n * c.opts.blowup as usize).to_be_bytes());
        let d = c.brief();
        ck.begin(&d.to_string());
        log::start();
        let p = guard(|| prove_trace(&c.spec, &c.main, &c.opts));
        let ev = log::take();
        let Ok(p) = p else {
            ck.count("prover panics", 1);
            continue;
        };
        let mut drawn: Vec<[u8; 32]> = ev.iter().filter_map(|e| if let Event::Challenge(_, b) = e { Some(*b) } else { None }).collect();
        let l = (c.n.trailing_zeros() as usize).max(1);
        if !ck.expect(p.fri_layers_merkle_roots.len() == l, "number-of-layers", || json!({"case": d, "got": p.fri_layers_merkle_roots.len(), "want": l})) {
            continue;
        }
        let m = c.n * c.opts.blowup as usize;
        let iotas: Vec<usize> = drawn
            .split_off(drawn.len() - c.opts.queries)
            .iter()
            .map(|b| (b[..8].iter().fold(0u64, |a, x| (a << 8) | *x as u64) % m as u64) as usize)
            .collect();
        drawn.pop(); // grinding
        let zetas: Vec<FE> = drawn.split_off(drawn.len() - l).iter().map(felt).collect();
        let sizes: Vec<usize> = (0..l).map(|k| m >> k).collect();
        ck.expect(p.query_list.len() == iotas.len(), "number-of-queries", || d.clone());
        let half = FE::from(2).inv();
        for (q, iota) in p.query_list.iter().zip(&iotas) {
            check_query(&mut ck, &d, q, *iota, &sizes, &p.fri_layers_merkle_roots, None);
            if q.layers_evaluations.len() != l || q.layers_evaluations_sym.len() != l {
                continue;
            }
            let mut off = FE::from(c.opts.coset);
            for k in 0..l {
                let i = iota % sizes[k];
                let x = &off * root_of_unity(sizes[k].trailing_zeros()).pow(i);
                let (a, b) = (&q.layers_evaluations[k], &q.layers_evaluations_sym[k]);
                let f = (a + b) * &half + &zetas[k] * (a - b) * &half * x.inv();
                let next = if k + 1 < l { &q.layers_evaluations[k + 1] } else { &p.fri_last_value };
                // the next layer is queried at iota modulo its size, where the fold of this pair lies
                ck.expect(f == *next, "fold-differs", || json!({"case": d, "layer": k, "query": iota}));
                off = &off * &off;
            }
        }
        ck.eval(d.to_string().as_bytes(), true);
        ck.count("proofs", 1);
    }
    ck.finish();
}
