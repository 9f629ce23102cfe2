//! C15: column interpolation, extension and domains are mathematically exact.
use harness::cairo::hex;
use harness::progair::*;
use harness::proofs::frame_rows;
use harness::refmerkle::{leaf, root};
use harness::refstark::{horner, root_of_unity, values_on};
use harness::report::{guard, Check};
use lambdaworks_crypto::fiat_shamir::log::{self, Event};
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::constraints::evaluator::ConstraintEvaluator;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::prover::evaluate_polynomial_on_lde_domain;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::json;
use std::sync::Arc;

fn offset(rng: &mut harness::rng::Rng) -> FE {
    match rng.below(5) {
        0 => FE::from(3),
        1 => FE::one(),
        2 => FE::from(rng.u64() | 1),
        3 => root_of_unity(rng.range(1, 12) as u32),
        _ => rng.fe_nonzero(),
    }
}

/// The evaluation domain as the evaluator uses it. With weights (0, 1), a single assertion
/// "column 0 is zero at step 0" and a trace of ones, the value at x is 1 / (x - 1).
fn domain_points(n: usize, o: &Opts) -> Vec<FE> {
    let spec = Spec {
        main: 1,
        offsets: vec![0],
        cons: vec![Con { terms: vec![], degree: 1, exempt: 0 }],
        bcs: vec![Bc { col: 0, step: 0, value: vec![] }],
        chals: 0,
        aux: vec![],
        dfac: 1,
        aux_fault: None,
    };
    let air = <ProgAir as AIR>::new(n, &Arc::new(spec), &o.real());
    let domain = Domain::new(&air);
    let m = n * o.blowup as usize;
    let t = to_table(&vec![vec![FE::one(); m]]);
    let r = ConstraintEvaluator::<F, ProgAir>::new(&air, &vec![]).evaluate(
        &t,
        &domain,
        &[(FE::zero(), FE::zero())],
        &[(FE::zero(), FE::one())],
        &vec![],
    );
    r.evaluations_acc.iter().map(|v| v.inv() + FE::one()).collect()
}

fn main() {
    let mut ck = Check::new(
        "C15",
        "one evaluation per column interpolated, polynomial extended, domain read off the evaluator, frame evaluated and proof \
         whose trace commitment was recomputed; non-trivial when longer than one row; distinct by the data used",
    );
    let mut rng = ck.rng.clone();
    // Interpolation of trace columns.
    for i in 0..ck.n(3000, 10_000) {
        if ck.stop() {
            break;
        }
        let n = 1usize << rng.range(0, [3, 5, 7, 8][i % 4]);
        let w = rng.range(1, 5);
        let cols: Cols = (0..w)
            .map(|_| match rng.below(5) {
                0 => vec![rng.fe(); n],
                1 => (0..n).map(|k| FE::from(k as u64)).collect(),
                2 => {
                    let mut v = vec![FE::zero(); n];
                    v[rng.below(n)] = rng.fe_nonzero();
                    v
                }
                _ => (0..n).map(|_| rng.fe()).collect(),
            })
            .collect();
        let d = json!({"rows": n, "columns": w, "first": hex(&cols[0][0])});
        ck.begin(&d.to_string());
        let Some(ps) = ck.run("interpolation-panics", || d.clone(), || to_table(&cols).compute_trace_polys()) else { continue };
        ck.expect(ps.len() == w, "number-of-polynomials", || d.clone());
        let g = root_of_unity(n.trailing_zeros());
        for (c, p) in ps.iter().enumerate() {
            let co = p.coefficients();
            ck.expect(co.len() <= n, "interpolation-degree", || json!({"case": d, "column": c, "coefficients": co.len()}));
            let mut x = FE::one();
            for k in 0..n {
                if horner(co, &x) != cols[c][k] {
                    ck.violation("interpolation-differs", json!({"case": d, "column": c, "row": k}));
                    break;
                }
                x = &x * &g;
            }
            ck.count("interpolation points", n as u64);
        }
        ck.eval(format!("t{d}{}", cols.iter().flatten().map(hex).collect::<String>()).as_bytes(), n > 1);
        ck.sample(d);
    }
    // Extension, also of polynomials longer than the trace and longer than the domain.
    for i in 0..ck.n(4200, 14_000) {
        if ck.stop() {
            break;
        }
        let n = 1usize << rng.range(0, [2, 4, 6, 7][i % 4]);
        let b = 1usize << rng.range(0, 3);
        let len = match rng.below(6) {
            0 => 0,
            1 => n,
            2 => rng.range(0, n),
            3 => rng.range(0, n * b),
            4 => rng.range(0, 4 * n * b).min(1024),
            _ => n * b,
        };
        let c: Vec<FE> = (0..len).map(|_| rng.fe()).collect();
        let off = offset(&mut rng);
        let d = json!({"rows": n, "blowup": b, "coefficients": len, "offset": hex(&off)});
        ck.begin(&d.to_string());
        let Some(r) = ck.run("extension-panics", || d.clone(), || evaluate_polynomial_on_lde_domain(&Polynomial::new(&c), b, n, &off)) else { continue };
        let Ok(v) = r else {
            ck.violation("extension-fails", d);
            continue;
        };
        let m = n * b;
        if !ck.expect(v.len() == m, "number-of-values", || json!({"case": d, "got": v.len()})) {
            continue;
        }
        let w = root_of_unity(m.trailing_zeros());
        let mut x = off.clone();
        for k in 0..m {
            if v[k] != horner(&c, &x) {
                ck.violation("extension-differs", json!({"case": d, "point": k}));
                break;
            }
            x = &x * &w;
        }
        ck.count("extension points", m as u64);
        ck.eval(format!("e{d}{}", c.iter().map(hex).collect::<String>()).as_bytes(), len > 1);
    }
    // Long columns and large domains, against transforms of our own.
    for i in 0..ck.n(7, 42) {
        if ck.stop() {
            break;
        }
        let (log_n, b) = LADDER[i % LADDER.len()];
        let (n, m) = (1usize << log_n, (b as usize) << log_n);
        let c: Vec<FE> = (0..if i % 3 == 2 { rng.range(1, n) } else { n }).map(|_| rng.fe_big()).collect();
        let off = if i % 2 == 0 { FE::from(3) } else { rng.fe_nonzero() };
        let d = json!({"rows": n, "blowup": b, "coefficients": c.len(), "offset": hex(&off)});
        ck.begin(&d.to_string());
        let column = values_on(&c, &FE::one(), n);
        let mut other = column.clone();
        other.rotate_left(1);
        let Some(ps) = ck.run("interpolation-panics", || d.clone(), || to_table(&vec![column, other]).compute_trace_polys()) else { continue };
        let ok = ps.len() == 2 && ps[0].coefficients() == &c[..];
        ck.expect(ok, "interpolation-differs", || d.clone());
        // moved by one row: the polynomial at the next root of unity
        let (g, mut x) = (root_of_unity(log_n as u32), FE::one());
        let turned: Vec<FE> = c.iter().map(|v| { let y = v * &x; x = &x * &g; y }).collect();
        ck.expect(ps.len() == 2 && ps[1].coefficients() == &turned[..], "interpolation-differs", || json!({"case": d, "column": 1}));
        let Some(Ok(v)) = ck.run("extension-panics", || d.clone(), || evaluate_polynomial_on_lde_domain(&Polynomial::new(&c), b as usize, n, &off)) else {
            ck.violation("extension-fails", d);
            continue;
        };
        ck.expect(v == values_on(&c, &off, m), "extension-differs", || d.clone());
        let o = Opts { blowup: b, queries: 3, coset: 3, grinding: 0 };
        if let Some(p) = ck.run("domain-panics", || d.clone(), || domain_points(n, &o)) {
            let w = root_of_unity(m.trailing_zeros());
            let mut x = FE::from(3);
            let mut ok = p.len() == m;
            for v in &p {
                ok &= *v == x;
                x = &x * &w;
            }
            ck.expect(ok, "domain-differs", || d.clone());
        }
        ck.count("points of large domains", m as u64);
        ck.eval(format!("big{d}").as_bytes(), true);
    }
    // Domains, for the same length, blowup and offset under different other options.
    for i in 0..ck.n(1500, 4000) {
        if ck.stop() {
            break;
        }
        let n = 1usize << rng.range(0, [2, 4, 6, 8][i % 4]);
        let mut o = gen_opts(&mut rng, n, 1024, (0, 20), 8);
        let m = n * o.blowup as usize;
        let w = root_of_unity(m.trailing_zeros());
        let h = FE::from(o.coset);
        for again in 0..2 {
            let d = json!({"rows": n, "options": o.json()});
            ck.begin(&d.to_string());
            let Some(p) = ck.run("domain-panics", || d.clone(), || domain_points(n, &o)) else { continue };
            let ok = p.len() == m && (0..m).all(|k| p[k] == &h * w.pow(k));
            ck.expect(ok, "domain-differs", || d.clone());
            ck.count("domain points", m as u64);
            ck.eval(format!("d{d}").as_bytes(), m > 1);
            if again == 0 {
                o.queries = rng.below(50);
                o.grinding = rng.u64() as u8;
            }
        }
    }
    // Frames at any point.
    for _ in 0..ck.n(3000, 10_000) {
        if ck.stop() {
            break;
        }
        let log_n = if rng.chance(1, 6) { rng.range(7, 12) } else { rng.range(0, 6) } as u32;
        let g = root_of_unity(log_n);
        let polys: Vec<Vec<FE>> = (0..rng.range(1, 5)).map(|_| (0..rng.range(0, 1 << log_n.min(6))).map(|_| rng.fe()).collect()).collect();
        let offs: Vec<usize> = (0..rng.range(1, 5)).map(|_| match rng.below(4) {
            0 => rng.below(1 << log_n),
            1 => rng.below(5000),
            _ => rng.below(4),
        }).collect();
        let x = match rng.below(4) {
            0 => FE::zero(),
            1 => g.pow(rng.below(8)),
            _ => rng.fe(),
        };
        let d = json!({"log_rows": log_n, "columns": polys.len(), "offsets": offs, "point": hex(&x)});
        ck.begin(&d.to_string());
        let ps: Vec<Polynomial<FE>> = polys.iter().map(|c| Polynomial::new(c)).collect();
        let Some(v) = ck.run("frame-panics", || d.clone(), || Frame::<F>::get_trace_evaluations(&ps, &x, &offs, &g)) else { continue };
        let want: Vec<Vec<FE>> = offs.iter().map(|o| {
            let mut y = x.clone();
            for _ in 0..*o {
                y = y * &g;
            }
            polys.iter().map(|c| horner(c, &y)).collect()
        }).collect();
        ck.expect(v == want, "frame-differs", || d.clone());
        ck.eval(format!("f{d}").as_bytes(), polys.iter().any(|p| p.len() > 1));
    }
    // What the prover commits to and claims.
    for i in 0..ck.n(720, 2500) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: [0, 1, 3][i % 3], max_log_n: [1, 3, 5][i % 3], max_lde: 256, queries: (1, 3), max_grind: 0, max_cols: [1, 3, 6][i % 3] }.rare(i, 30);
        let c = gen_case(&mut rng, &lim);
        let d = c.brief();
        ck.begin(&d.to_string());
        log::start();
        let p = guard(|| prove_trace(&c.spec, &c.main, &c.opts));
        let ev = log::take();
        let Ok(p) = p else { continue };
        let drawn: Vec<FE> = ev
            .iter()
            .filter_map(|e| if let Event::Challenge(_, b) = e { Some(*b) } else { None })
            .map(|mut b| {
                b[0] &= 7;
                FE::from_bytes_be(&b).unwrap()
            })
            .collect();
        let mut full = c.main.clone();
        full.extend(c.spec.build_aux(&c.main, &drawn[..c.spec.chals]));
        let (n, m) = (c.n, c.n * c.opts.blowup as usize);
        let (g, w, h) = (root_of_unity(n.trailing_zeros()), root_of_unity(m.trailing_zeros()), FE::from(c.opts.coset));
        let polys: Vec<Vec<FE>> = full.iter().map(|col| harness::refstark::interpolate(col, &g, &FE::one())).collect();
        let rows = |a: usize, b: usize| -> [u8; 32] {
            let l: Vec<[u8; 32]> = (0..m).map(|k| {
                let x = &h * w.pow(k);
                leaf(&polys[a..b].iter().map(|p| horner(p, &x)).collect::<Vec<_>>())
            }).collect();
            root(&l)
        };
        let mut want = vec![rows(0, c.spec.main)];
        if !c.spec.aux.is_empty() {
            want.push(rows(c.spec.main, c.spec.width()));
        }
        ck.expect(p.lde_trace_merkle_roots == want, "commitment-differs", || d.clone());
        let z = &drawn[c.spec.chals + 2 * (c.spec.cons.len() + c.spec.bcs.len())];
        let want: Vec<Vec<FE>> = c.spec.offsets.iter().map(|o| polys.iter().map(|p| horner(p, &(z * g.pow(*o)))).collect()).collect();
        ck.expect(frame_rows(&p.trace_ood_frame_evaluations) == want, "claimed-frame-differs", || d.clone());
        ck.eval(format!("p{d}").as_bytes(), n > 1);
        ck.count("proofs", 1);
    }
    let _ = TraceTable::<F>::empty();
    ck.finish();
}
