//! C04: a proof is bound to the statement it was made for.
use harness::progair::*;
use harness::proofs::alter_fe;
use harness::refstark::{self, horner, interpolate, root_of_unity};
use harness::shipped::{round, Sections};
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_stark::FE;
use serde_json::json;

/// Does the committed trace distinguish the two statements' constraints at a random point?
fn distinguishes(c: &Case, a: &Spec, b: &Spec, rng: &mut Rng) -> bool {
    if a.chals != b.chals || a.main != b.main || a.aux.len() != b.aux.len() {
        return true;
    }
    if a.cons.len() != b.cons.len() || a.offsets != b.offsets || a.bcs.len() != b.bcs.len() {
        return true;
    }
    let n = c.n;
    let g = root_of_unity(n.trailing_zeros());
    let chals: Vec<FE> = (0..a.chals).map(|_| rng.fe_big()).collect();
    for k in 0..a.bcs.len() {
        if (a.bcs[k].col, a.bcs[k].step, a.bc_value(k, &chals)) != (b.bcs[k].col, b.bcs[k].step, b.bc_value(k, &chals)) {
            return true;
        }
    }
    let mut full = c.main.clone();
    full.extend(c.spec.build_aux(&c.main, &chals));
    let polys: Vec<Vec<FE>> = full.iter().map(|v| interpolate(v, &g, &FE::one())).collect();
    let x = rng.fe_big();
    let frame: Vec<Vec<FE>> = a
        .offsets
        .iter()
        .map(|o| polys.iter().map(|p| horner(p, &(&x * g.pow(*o)))).collect())
        .collect();
    let co = |k: usize, rng: &mut Rng| -> Vec<(FE, FE)> { (0..k).map(|_| (rng.fe_big(), rng.fe_big())).collect() };
    let (cb, ct) = (co(a.bcs.len(), rng), co(a.cons.len(), rng));
    refstark::composition_at(a, n, &x, &frame, &chals, &cb, &ct)
        != refstark::composition_at(b, n, &x, &frame, &chals, &cb, &ct)
}

fn mutate(rng: &mut Rng, c: &Case) -> (String, Spec) {
    let mut s = c.spec.clone();
    let n = c.n;
    let nb = s.bcs.len();
    let how = match rng.below(15) {
        0..=2 if nb > 0 => {
            let k = rng.below(nb);
            let j = rng.below(s.bcs[k].value.len());
            alter_fe(&mut s.bcs[k].value[j].0, rng);
            "asserted value"
        }
        3 if nb > 0 => {
            let k = rng.below(nb);
            s.bcs[k].step = match rng.below(3) {
                0 => (s.bcs[k].step + 1) % n,
                1 => rng.below(n),
                _ => n - 1 - s.bcs[k].step,
            };
            "asserted step"
        }
        4 if nb > 0 => {
            let k = rng.below(nb);
            s.bcs[k].step += n * rng.range(1, 3);
            "asserted step beyond the trace"
        }
        5 if nb > 0 => {
            let k = rng.below(nb);
            s.bcs[k].col = rng.below(s.width());
            "asserted column"
        }
        6 if nb > 0 => {
            s.bcs.remove(rng.below(nb));
            "assertion removed"
        }
        7 => {
            let (col, step) = (rng.below(s.main), rng.below(n));
            let mut v = c.main[col][step].clone();
            if rng.chance(1, 2) {
                alter_fe(&mut v, rng);
            }
            s.bcs.insert(rng.below(nb + 1), Bc { col, step, value: vec![(v, None)] });
            "assertion added"
        }
        8 if nb > 1 => {
            let (a, b) = (rng.below(nb), rng.below(nb));
            let t = s.bcs[a].value.clone();
            s.bcs[a].value = s.bcs[b].value.clone();
            s.bcs[b].value = t;
            "asserted values exchanged"
        }
        9 => {
            let k = rng.below(s.cons.len());
            let j = rng.below(s.cons[k].terms.len());
            alter_fe(&mut s.cons[k].terms[j].coef, rng);
            "constraint coefficient"
        }
        10 => {
            let k = rng.below(s.cons.len());
            let j = rng.below(s.cons[k].terms.len());
            let w = s.width();
            let o = s.offsets.len();
            let t = &mut s.cons[k].terms[j];
            if t.vars.is_empty() {
                t.vars.push((rng.below(o), rng.below(w)));
            } else {
                let v = rng.below(t.vars.len());
                t.vars[v] = (rng.below(o), rng.below(w));
            }
            "constraint variable"
        }
        11 => {
            let k = rng.below(s.cons.len());
            let e = rng.below(n.min(4));
            s.cons[k].exempt = e;
            "exempt rows"
        }
        12 => {
            if s.cons.len() > 1 && rng.chance(1, 2) {
                s.cons.remove(rng.below(s.cons.len()));
                "constraint removed"
            } else {
                let k = rng.below(s.cons.len());
                let c = s.cons[k].clone();
                s.cons.push(c);
                "constraint added"
            }
        }
        13 if s.offsets.len() > 1 => {
            let k = rng.range(1, s.offsets.len() - 1);
            s.offsets[k] = rng.below(n);
            "row offset"
        }
        14 if s.aux.is_empty() => {
            s.main += 1;
            "column added"
        }
        _ => {
            s.dfac = 3 - s.dfac;
            "degree bound"
        }
    };
    (how.to_string(), s)
}

fn main() {
    let mut ck = Check::new(
        "C04",
        "one evaluation per accepted proof verified against another statement (changed assertion, constraint or shape), \
         including assertions chosen after seeing the challenges so that the consistency identity still holds; \
         distinct by computation shape and change",
    );
    let mut rng = ck.rng.clone();
    for i in 0..ck.n(700, 9000) {
        if ck.stop() {
            break;
        }
        let lim = Limits {
            min_log_n: [1, 2, 3, 4][i % 4],
            max_log_n: [3, 4, 5, 6][i % 4],
            max_lde: 256,
            queries: (8, 12),
            max_grind: 2,
            max_cols: [2, 4, 8, 3][i % 4],
        }.rare(i, 25);
        let mut c = gen_case(&mut rng, &lim);
        while !aperiodic(&c.main) {
            c = gen_case(&mut rng, &lim);
        }
        ck.begin(&c.brief().to_string());
        let p = prove_trace(&c.spec, &c.main, &c.opts);
        if !accepts(&p, &c.spec, &c.opts) {
            ck.count("proofs rejected for their own statement", 1);
            continue;
        }
        ck.count("accepted proofs", 1);
        for _ in 0..14 {
            let (how, s) = mutate(&mut rng, &c);
            if s == c.spec || s.dfac * c.n < c.n {
                continue;
            }
            // what the verifier can be asked at all: declared degrees fit the declared bound
            if s.cons.iter().any(|k| k.degree > s.dfac + 1) {
                continue;
            }
            if !distinguishes(&c, &c.spec, &s, &mut rng) {
                ck.count("statements the trace does not tell apart", 1);
                continue;
            }
            let d = json!({"changed": how, "statement": s.brief(), "case": c.brief()});
            ck.begin(&d.to_string());
            let ok = guard(|| accepts(&p, &s, &c.opts));
            if ok.is_err() {
                ck.count("verifier panicked", 1);
            }
            ck.expect(!matches!(ok, Ok(true)), "accepted-for-another-statement", || d.clone());
            ck.count(&format!("changed {how}"), 1);
            ck.eval(d.to_string().as_bytes(), true);
            ck.sample(d);
        }
        // Assertions chosen after the fact: the values of two assertions move so that their
        // part of the composition at z stays the same.
        if c.spec.bcs.len() >= 2 && c.n <= 16 {
            let Some((rp, ch)) = refstark::prove(&c.spec, &c.main, &c.opts, &refstark::HONEST) else { continue };
            let g = root_of_unity(c.n.trailing_zeros());
            let w = |k: usize| {
                let (al, be) = &ch.boundary[k];
                (al * ch.z.pow((c.spec.dfac - 1) * c.n) + be) * (&ch.z - g.pow(c.spec.bcs[k].step)).inv()
            };
            let a = rng.below(c.spec.bcs.len());
            let b = (a + rng.range(1, c.spec.bcs.len() - 1)) % c.spec.bcs.len();
            let da = rng.fe_nonzero();
            let db = -(&da * w(a) * w(b).inv());
            let mut s = c.spec.clone();
            s.bcs[a].value.push((da, None));
            s.bcs[b].value.push((db, None));
            for q in [&p, &rp] {
                let ok = guard(|| accepts(q, &s, &c.opts));
                ck.expect(!matches!(ok, Ok(true)), "accepted-for-adapted-assertions", || json!({"case": c.brief(), "assertions": [a, b]}));
                ck.count("assertions adapted to the challenges", 1);
                ck.eval(format!("adapted {} {a} {b}", c.brief()).as_bytes(), true);
            }
        }
    }
    // the computations that ship with the library, over two further fields as well
    for i in 0..ck.n(60, 1200) {
        if ck.stop() {
            break;
        }
        let s = Sections { others: true, ..Default::default() };
        round(&mut ck, &mut rng, i, 5, 256, &s);
    }
    ck.assume("two statements whose constraints take the same values on the committed trace (say, a factor in front of a term that is zero everywhere) are the same statement for that trace and are not compared");
    ck.assume("some column has no period: for a trace of constant columns every quotient is zero and true statements about it share their proof");
    ck.finish();
}
