//! C18: the debug trace validator agrees exactly with the constraints.
use harness::cairoair;
use harness::progair::*;
use harness::refstark::coefficients;
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_stark::starks::debug::validate_trace;
use lambdaworks_stark::starks::domain::Domain;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::json;
use std::sync::Arc;

/// Row by row, with the computation's own constraints: what is broken first.
fn broken<A: AIR<Field = F>>(air: &A, cols: &Cols, ch: &A::RAPChallenges) -> Option<String> {
    let n = cols[0].len();
    for (k, b) in air.boundary_constraints(ch).constraints.iter().enumerate() {
        if cols[b.col][b.step] != b.value {
            return Some(format!("assertion {k}"));
        }
    }
    let ctx = air.context();
    for s in 0..n {
        let rows: Vec<FE> = ctx.transition_offsets.iter().flat_map(|o| cols.iter().map(move |c| c[(s + o) % n].clone())).collect();
        let e = air.compute_transition(&Frame::new(rows, cols.len()), ch);
        for (k, v) in e.iter().enumerate() {
            if s + ctx.transition_exemptions[k] < n && *v != FE::zero() {
                return Some(format!("constraint {k} at row {s} of {n}"));
            }
        }
    }
    None
}

fn compare<A: AIR<Field = F>>(ck: &mut Check, air: &A, cols: &Cols, ch: &A::RAPChallenges, d: &serde_json::Value) {
    let polys: Vec<Polynomial<FE>> = cols.iter().map(|c| Polynomial::new(&coefficients(c))).collect();
    let want = broken(air, cols, ch);
    let Some(got) = ck.run("validator-panics", || d.clone(), || validate_trace(air, &polys, &Domain::new(air), ch)) else { return };
    ck.expect(got == want.is_none(), if got { "broken-trace-passes" } else { "valid-trace-refused" }, || json!({"broken": want, "case": d}));
    match &want {
        None => ck.count("satisfying traces", 1),
        Some(w) => {
            ck.count("broken traces", 1);
            ck.seen("what is broken", w.as_bytes());
        }
    }
}

/// Exemptions, assertions and offsets that need not suit a proof.
fn bend(rng: &mut Rng, c: &mut Case) {
    for k in c.spec.cons.iter_mut() {
        if rng.chance(1, 3) {
            k.exempt = rng.below(c.n + 1);
        }
    }
    if rng.chance(1, 3) {
        let (col, step) = (rng.below(c.spec.main), rng.below(c.n));
        let v = if rng.chance(1, 2) { c.main[col][step].clone() } else { rng.fe() };
        c.spec.bcs.push(Bc { col, step, value: vec![(v, None)] });
    }
}

/// A constraint broken on a single row: the last one it applies to, or the first exempt one.
fn at_the_border(rng: &mut Rng, c: &mut Case) -> Option<String> {
    let n = c.n;
    let col = c.main.len();
    let e = rng.below(n.min(5));
    let r = (n - e).checked_sub(rng.below(2)).filter(|r| *r < n)?;
    let mut v = vec![FE::zero(); n];
    v[r] = rng.fe_nonzero();
    // a new main column would shift the auxiliary ones: only without them
    if !c.spec.aux.is_empty() {
        return None;
    }
    c.main.push(v);
    c.spec.main += 1;
    let o = rng.below(c.spec.offsets.len());
    c.spec.cons.push(Con { terms: vec![Term { coef: FE::one(), chal: None, vars: vec![(o, col)] }], degree: 1, exempt: e });
    Some(format!("border row {r}, exemption {e}, offset {}", c.spec.offsets[o]))
}

fn main() {
    let mut ck = Check::new(
        "C18",
        "one evaluation per trace whose validation was compared with a row-by-row evaluation of all assertions and \
         constraints; non-trivial when the trace was changed; distinct by computation and change",
    );
    let mut rng = ck.rng.clone();
    for i in 0..ck.n(4500, 25_000) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 0, max_log_n: [2, 3, 5, 6][i % 4], max_lde: 256, queries: (1, 1), max_grind: 0, max_cols: [2, 4, 6, 10][i % 4] }.rare(i, 30);
        // some as long as the validator meets in practice
        let base = if i % 450 == 449 { big_case(&mut rng, i / 450, (1, 1), 2) } else { gen_case(&mut rng, &lim) };
        ck.seen("trace lengths", &base.n.to_be_bytes());
        for k in 0..5 {
            let mut c = base.clone();
            let how = match k {
                0 => "nothing".to_string(),
                1 => match at_the_border(&mut rng, &mut c) {
                    Some(h) => h,
                    None => continue,
                },
                _ if c.n > 1 => tamper(&mut rng, &mut c),
                _ => "nothing".into(),
            };
            if k > 2 {
                bend(&mut rng, &mut c);
            }
            let chals: Vec<FE> = (0..c.spec.chals).map(|_| rng.fe_big()).collect();
            let mut full = c.main.clone();
            full.extend(c.spec.build_aux(&c.main, &chals));
            let d = json!({"changed": how, "case": c.brief()});
            ck.begin(&d.to_string());
            let air = <ProgAir as AIR>::new(c.n, &Arc::new(c.spec.clone()), &c.opts.real());
            compare(&mut ck, &air, &full, &chals, &d);
            ck.eval(format!("{d}{:?}", harness::cairo::hex(&full[0][0])).as_bytes(), how != "nothing");
            ck.sample(d);
        }
    }
    // Cairo traces.
    for i in 0..ck.n(30, 150) {
        if ck.stop() {
            break;
        }
        let Some((run, main, pi)) = cairoair::subject(i, &mut rng) else { continue };
        let o = lambdaworks_stark::starks::proof::options::ProofOptions { blowup_factor: 2, fri_number_of_queries: 1, coset_offset: 3, grinding_factor: 0 };
        let a = cairoair::air(&pi, main.len(), &o);
        let ch = cairoair::Ch::random(&mut rng).real();
        let aux = a.build_auxiliary_trace(&cairoair::table_of(&main), &ch);
        let mut cols: Cols = (0..main[0].len()).map(|c| main.iter().map(|r| r[c].clone()).collect()).collect();
        cols.extend(aux.cols());
        for k in 0..6 {
            let mut t = cols.clone();
            let mut how = "nothing".to_string();
            if k > 0 {
                let (c, r) = (rng.below(t.len()), if k == 1 { t[0].len() - 1 } else { rng.below(t[0].len()) });
                t[c][r] = &t[c][r] + rng.fe_nonzero();
                how = format!("column {c} row {r}");
            }
            let d = json!({"changed": how, "run": run.brief()});
            ck.begin(&d.to_string());
            compare(&mut ck, &a, &t, &ch, &d);
            ck.count("Cairo traces", 1);
            ck.eval(d.to_string().as_bytes(), k > 0);
        }
    }
    ck.assume("assertions are about steps of the trace");
    ck.finish();
}
