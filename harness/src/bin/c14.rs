//! C14: the composition polynomial is exactly the weighted sum of all quotients.
use harness::cairo::hex;
use harness::cairoair;
use harness::progair::*;
use harness::refstark::{composition_at, horner, interpolate, root_of_unity, values_on};
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_stark::starks::constraints::{evaluation_table::ConstraintEvaluationTable, evaluator::ConstraintEvaluator};
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::json;
use std::sync::Arc;

fn weights(rng: &mut Rng, k: usize) -> Vec<(FE, FE)> {
    let kind = rng.below(6);
    (0..k)
        .map(|_| match kind {
            0 => (FE::zero(), rng.fe_big()),
            1 => (rng.fe_big(), FE::zero()),
            _ => (rng.fe(), rng.fe_big()),
        })
        .collect()
}

/// Also shapes that no proof could be made for: any exemption, any number of constraints.
fn bend(rng: &mut Rng, c: &mut Case) {
    for k in c.spec.cons.iter_mut() {
        if rng.chance(1, 2) {
            k.exempt = match rng.below(4) {
                0 => 0,
                1 => rng.below(c.n),
                _ => rng.below(c.n.min(4)),
            };
        }
        if rng.chance(1, 4) {
            k.degree = rng.range(1, c.spec.dfac + 1);
        }
    }
    if rng.chance(1, 3) {
        c.spec.bcs.clear();
    }
    for _ in 0..rng.below(4) {
        let (col, step) = (rng.below(c.spec.width()), rng.below(c.n));
        c.spec.bcs.push(Bc { col, step, value: vec![(rng.fe(), if c.spec.chals > 0 && rng.chance(1, 2) { Some(rng.below(c.spec.chals)) } else { None })] });
    }
    if rng.chance(1, 4) {
        c.spec.dfac += rng.below(3);
    }
    if rng.chance(1, 3) {
        // rows far away, so that frames wrap around the end
        for o in c.spec.offsets.iter_mut().skip(1) {
            *o = rng.below(c.n);
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C14",
        "one evaluation per evaluation table compared with the formula at every domain point, and per composition polynomial \
         compared with it outside of the domain; distinct by computation, options, trace and weights",
    );
    let mut rng = ck.rng.clone();
    for i in 0..ck.n(2100, 14_000) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: [0, 1, 2, 3][i % 4], max_log_n: [1, 3, 4, 6][i % 4], max_lde: [64, 128, 256, 512][i % 4], queries: (1, 1), max_grind: 0, max_cols: [2, 4, 8, 3][i % 4] }.rare(i, 100);
        let mut c = gen_case(&mut rng, &lim);
        let honest = i % 2 == 0;
        if !honest {
            bend(&mut rng, &mut c);
        }
        let (n, b) = (c.n, c.opts.blowup as usize);
        let m = n * b;
        let (g, w, h) = (root_of_unity(n.trailing_zeros()), root_of_unity(m.trailing_zeros()), FE::from(c.opts.coset));
        let chals: Vec<FE> = (0..c.spec.chals).map(|_| rng.fe_big()).collect();
        let (bw, tw) = (weights(&mut rng, c.spec.bcs.len()), weights(&mut rng, c.spec.cons.len()));
        let mut points = vec![h.clone()];
        for k in 1..m {
            points.push(&points[k - 1] * &w);
        }
        // the extended trace: of a satisfying trace, or arbitrary values
        let polys: Vec<Vec<FE>>;
        let lde: Cols;
        if honest {
            let mut full = c.main.clone();
            full.extend(c.spec.build_aux(&c.main, &chals));
            polys = full.iter().map(|col| interpolate(col, &g, &FE::one())).collect();
            lde = polys.iter().map(|p| points.iter().map(|x| horner(p, x)).collect()).collect();
        } else {
            polys = vec![];
            lde = (0..c.spec.width()).map(|_| (0..m).map(|_| rng.fe()).collect()).collect();
        }
        let d = json!({"satisfied": honest, "case": c.brief()});
        ck.begin(&d.to_string());
        let air = <ProgAir as AIR>::new(n, &Arc::new(c.spec.clone()), &c.opts.real());
        let Some(table) = ck.run("evaluator-panics", || d.clone(), || {
            let domain = Domain::new(&air);
            let e = ConstraintEvaluator::<F, ProgAir>::new(&air, &chals);
            e.evaluate(&to_table(&lde), &domain, &tw, &bw, &chals)
        }) else {
            continue;
        };
        if !ck.expect(table.evaluations_acc.len() == m, "number-of-evaluations", || json!({"case": d, "got": table.evaluations_acc.len()})) {
            continue;
        }
        let mut bad = 0;
        for k in 0..m {
            let frame: Vec<Vec<FE>> = c.spec.offsets.iter().map(|o| lde.iter().map(|l| l[(k + o * b) % m].clone()).collect()).collect();
            let want = composition_at(&c.spec, n, &points[k], &frame, &chals, &bw, &tw);
            if table.evaluations_acc[k] != want {
                bad += 1;
                if bad == 1 {
                    ck.violation("evaluation-differs", json!({"case": d, "point": k, "got": hex(&table.evaluations_acc[k]), "want": hex(&want)}));
                }
            }
        }
        ck.count("domain points", m as u64);
        ck.count("quotients", (m * (c.spec.cons.len() + c.spec.bcs.len())) as u64);
        let Some(h_poly) = ck.run("interpolation-panics", || d.clone(), || table.compute_composition_poly(&h)) else { continue };
        let co = h_poly.coefficients().to_vec();
        // through the values, in order
        for k in [0, 1 % m, m / 2, m - 1, rng.below(m)] {
            ck.expect(horner(&co, &points[k]) == table.evaluations_acc[k], "interpolation-differs", || json!({"case": d, "point": k}));
        }
        ck.expect(co.len() <= m, "composition-degree", || json!({"case": d, "coefficients": co.len()}));
        if honest {
            for _ in 0..3 {
                let x = rng.fe_big();
                let frame: Vec<Vec<FE>> = c.spec.offsets.iter().map(|o| polys.iter().map(|p| horner(p, &(&x * g.pow(*o)))).collect()).collect();
                let want = composition_at(&c.spec, n, &x, &frame, &chals, &bw, &tw);
                ck.expect(horner(&co, &x) == want, "composition-differs-outside", || json!({"case": d, "point": hex(&x)}));
            }
            ck.count("satisfied traces", 1);
        } else {
            ck.count("arbitrary traces", 1);
        }
        for k in &c.spec.cons {
            ck.seen("degree and exemption", &[k.degree.to_be_bytes(), k.exempt.to_be_bytes()].concat());
        }
        ck.eval(format!("{d}{}", hex(&lde[0][0])).as_bytes(), true);
        ck.sample(d);
    }
    // Long traces in large domains, at some of the points: the corners and arbitrary ones.
    for i in 0..ck.n(4, 28) {
        if ck.stop() {
            break;
        }
        let c = big_case(&mut rng, i, (1, 1), 2);
        let (n, b) = (c.n, c.opts.blowup as usize);
        let m = n * b;
        let (w, h) = (root_of_unity(m.trailing_zeros()), FE::from(c.opts.coset));
        let chals: Vec<FE> = (0..c.spec.chals).map(|_| rng.fe_big()).collect();
        let (bw, tw) = (weights(&mut rng, c.spec.bcs.len()), weights(&mut rng, c.spec.cons.len()));
        let lde: Cols = (0..c.spec.width()).map(|_| (0..m).map(|_| rng.fe_big()).collect()).collect();
        let d = json!({"points": m, "case": c.brief()});
        ck.begin(&d.to_string());
        let air = <ProgAir as AIR>::new(n, &Arc::new(c.spec.clone()), &c.opts.real());
        let Some(table) = ck.run("evaluator-panics", || d.clone(), || {
            let domain = Domain::new(&air);
            let e = ConstraintEvaluator::<F, ProgAir>::new(&air, &chals);
            e.evaluate(&to_table(&lde), &domain, &tw, &bw, &chals)
        }) else {
            continue;
        };
        if !ck.expect(table.evaluations_acc.len() == m, "number-of-evaluations", || json!({"case": d, "got": table.evaluations_acc.len()})) {
            continue;
        }
        let mut ks: Vec<usize> = (0..40).map(|_| rng.below(m)).collect();
        for e in 0..m.trailing_zeros() {
            ks.extend([1usize << e, (1 << e) - 1, m - (1 << e)]);
        }
        for k in ks {
            let frame: Vec<Vec<FE>> = c.spec.offsets.iter().map(|o| lde.iter().map(|l| l[(k + o * b) % m].clone()).collect()).collect();
            let want = composition_at(&c.spec, n, &(&h * w.pow(k)), &frame, &chals, &bw, &tw);
            ck.expect(table.evaluations_acc[k] == want, "evaluation-differs", || json!({"case": d, "point": k}));
            ck.count("points of large domains", 1);
        }
        let Some(h_poly) = ck.run("interpolation-panics", || d.clone(), || table.compute_composition_poly(&h)) else { continue };
        let co = h_poly.coefficients();
        ck.expect(co.len() <= m && values_on(co, &h, m) == table.evaluations_acc, "interpolation-differs", || d.clone());
        ck.eval(format!("big{d}").as_bytes(), true);
    }
    // The evaluator on the Cairo constraint system.
    for i in 0..ck.n(36, 200) {
        if ck.stop() {
            break;
        }
        let Some((run, main, pi)) = cairoair::subject(i, &mut rng) else { continue };
        let o = lambdaworks_stark::starks::proof::options::ProofOptions {
            blowup_factor: if i % 2 == 0 { 2 } else { 4 },
            fri_number_of_queries: 1,
            coset_offset: 3,
            grinding_factor: 0,
        };
        let a = cairoair::air(&pi, main.len(), &o);
        let n = main.len();
        let (b, ctx) = (o.blowup_factor as usize, a.context().clone());
        let m = n * b;
        let d = json!({"run": run.brief(), "rows": n, "options": format!("{o:?}")});
        ck.begin(&d.to_string());
        let ch = cairoair::Ch { alpha: rng.fe_big(), z: rng.fe_big(), z_rc: rng.fe_big() };
        let (bcs, width) = (a.boundary_constraints(&ch.real()), ctx.trace_columns);
        let (bw, tw) = (weights(&mut rng, bcs.constraints.len()), weights(&mut rng, ctx.num_transition_constraints));
        let lde: Cols = (0..width).map(|_| (0..m).map(|_| rng.fe()).collect()).collect();
        let real = ch.real();
        let Some(table) = ck.run("evaluator-panics", || d.clone(), || {
            let domain = Domain::new(&a);
            ConstraintEvaluator::new(&a, &real).evaluate(&to_table(&lde), &domain, &tw, &bw, &real)
        }) else {
            continue;
        };
        let (g, w) = (root_of_unity(n.trailing_zeros()), root_of_unity(m.trailing_zeros()));
        let dd = a.composition_poly_degree_bound();
        for _ in 0..24 {
            let k = match rng.below(4) {
                0 => m - 1 - rng.below(b),
                _ => rng.below(m),
            };
            let x = FE::from(3) * w.pow(k);
            let rows: Vec<FE> = ctx.transition_offsets.iter().flat_map(|o| lde.iter().map(|l| l[(k + o * b) % m].clone()).collect::<Vec<_>>()).collect();
            let frame = lambdaworks_stark::starks::frame::Frame::new(rows, width);
            let ev = a.compute_transition(&frame, &real);
            let mut want = FE::zero();
            for (bc, (al, be)) in bcs.constraints.iter().zip(&bw) {
                want = want + (&lde[bc.col][k] - &bc.value) * (&x - g.pow(bc.step)).inv() * (al * x.pow(dd - n) + be);
            }
            let zinv = (x.pow(n) - FE::one()).inv();
            for (j, e) in ev.iter().enumerate() {
                let mut ex = FE::one();
                for r in 0..ctx.transition_exemptions[j] {
                    ex = ex * (&x - g.pow(n - 1 - r));
                }
                want = want + e * &zinv * (&tw[j].0 * x.pow(dd - n * (ctx.transition_degrees[j] - 1)) + &tw[j].1) * ex;
            }
            ck.expect(table.evaluations_acc.get(k) == Some(&want), "evaluation-differs", || json!({"case": d, "point": k}));
            ck.count("Cairo domain points", 1);
        }
        ck.eval(d.to_string().as_bytes(), true);
    }
    // Interpolation of any evaluations over any coset.
    for _ in 0..ck.n(600, 3000) {
        let m = 1usize << rng.range(0, 7);
        let off = if rng.chance(1, 2) { FE::from(rng.u64() | 1) } else { rng.fe_nonzero() };
        let mut t = ConstraintEvaluationTable::<F>::new(1, &vec![FE::zero(); m]);
        t.evaluations_acc = (0..m).map(|_| rng.fe()).collect();
        let d = json!({"size": m, "offset": hex(&off)});
        let Some(p) = ck.run("interpolation-panics", || d.clone(), || t.compute_composition_poly(&off)) else { continue };
        let w = root_of_unity(m.trailing_zeros());
        let c = p.coefficients().to_vec();
        let ok = c.len() <= m && (0..m).all(|k| horner(&c, &(&off * w.pow(k))) == t.evaluations_acc[k]);
        ck.expect(ok, "interpolation-differs", || d.clone());
        ck.eval(format!("i{d}{}", hex(&t.evaluations_acc[0])).as_bytes(), m > 1);
    }
    ck.finish();
}
