//! C23: the Cairo constraint system equals its specification, constraint by constraint.
use harness::cairo::*;
use harness::cairoair::*;
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_stark::cairo::air::{CairoAIR, PublicInputs};
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::FE;
use serde_json::{json, Value};
use std::collections::BTreeSet;

fn name(k: usize) -> String {
    match k {
        0..=15 => format!("flag {k}"),
        16 => "instruction".into(),
        17..=19 => format!("operand address {}", k - 17),
        20..=25 => ["next ap", "next fp", "next pc 1", "next pc 2", "t0", "t1"][k - 20].into(),
        26..=30 => ["mul", "res", "call 1", "call 2", "assert"][k - 26].into(),
        31..=34 => format!("memory order {}", k - 31),
        35..=38 => format!("memory value {}", k - 35),
        39..=42 => format!("memory permutation {}", k - 39),
        43..=45 => format!("offset order {}", k - 43),
        46..=48 => format!("offset permutation {}", k - 46),
        49 => "selector".into(),
        _ => "range-check value".into(),
    }
}

fn eval(a: &CairoAIR, c: &[FE], n: &[FE], ch: &Ch) -> Result<Vec<FE>, String> {
    let f = Frame::new([c.to_vec(), n.to_vec()].concat(), c.len());
    harness::report::guard(|| a.compute_transition(&f, &ch.real()))
}

/// Rows and what they are like.
fn frame(width: usize, real: &Rows, ch: &Ch, rc: bool, rng: &mut Rng) -> (Vec<FE>, Vec<FE>, &'static str) {
    let m = main_cols(rc);
    let wild = |rng: &mut Rng| (0..width).map(|_| rng.fe()).collect::<Vec<FE>>();
    match rng.below(7) {
        0 => (wild(rng), wild(rng), "random"),
        1 => {
            let sparse = |rng: &mut Rng| (0..width).map(|_| if rng.chance(1, 2) { FE::zero() } else { rng.fe() }).collect();
            (sparse(rng), sparse(rng), "sparse")
        }
        2 | 3 => {
            // flags of a real instruction or any bits, the rest anything
            let (mut c, mut n) = (wild(rng), wild(rng));
            let bits = rng.u64();
            for k in 0..16 {
                let b = FE::from(if k == 15 { bits >> 32 & bits >> 33 & 1 } else { bits >> k & 1 });
                c[k] = b;
                n[k] = FE::from(rng.below(2) as u64);
            }
            c[SEL] = if rng.chance(4, 5) { FE::one() } else { FE::zero() };
            n[SEL] = FE::from(rng.below(2) as u64);
            if rng.chance(1, 2) {
                // continuous memory and offsets
                for k in 1..4 {
                    c[m + A_ADDR + k] = &c[m + A_ADDR + k - 1] + FE::from(rng.below(3) as u64);
                }
                for k in 1..3 {
                    c[m + A_OFF + k] = &c[m + A_OFF + k - 1] + FE::from(rng.below(3) as u64);
                }
                n[m + A_ADDR] = &c[m + A_ADDR + 3] + FE::from(rng.below(3) as u64);
                n[m + A_OFF] = &c[m + A_OFF + 2] + FE::from(rng.below(3) as u64);
            }
            (c, n, "bits")
        }
        _ => {
            // two consecutive rows of a complete trace, a few cells changed
            let i = rng.below(real.len());
            let (mut c, mut n) = (real[i].clone(), real[(i + 1) % real.len()].clone());
            let _ = ch;
            for _ in 0..rng.below(4) {
                let v = if rng.chance(1, 3) { &c[rng.below(width)] + FE::one() } else { rng.fe() };
                if rng.chance(2, 3) {
                    let k = rng.below(width);
                    c[k] = v;
                } else {
                    let k = rng.below(width);
                    n[k] = v;
                }
            }
            (c, n, "near a real step")
        }
    }
}

fn declarations(a: &CairoAIR, pi: &PublicInputs, rows: usize, rc: bool, what: &Value, ck: &mut Check) {
    let x = a.context();
    let d = declared(rc);
    let detail = |k: &str, v: Value| json!({"case": what, k: v});
    ck.expect(x.num_transition_constraints == d.len(), "number-of-constraints", || detail("declared", json!(x.num_transition_constraints)));
    ck.expect(x.trace_columns == main_cols(rc) + AUX, "columns", || detail("declared", json!(x.trace_columns)));
    ck.expect(x.transition_offsets == vec![0, 1], "row-offsets", || detail("declared", json!(x.transition_offsets)));
    ck.expect(a.number_auxiliary_rap_columns() == AUX, "aux-columns", || detail("declared", json!(a.number_auxiliary_rap_columns())));
    ck.expect(a.trace_length() == rows, "trace-length", || detail("declared", json!(a.trace_length())));
    let same = x.transition_exemptions.len() == d.len() && x.transition_exemptions.iter().zip(&d).all(|(e, d)| *e == d.1);
    ck.expect(same, "exemptions", || detail("declared", json!(x.transition_exemptions)));
    let bound = x.transition_degrees.len() == d.len() && x.transition_degrees.iter().zip(&d).all(|(e, d)| *e >= d.0 && *e >= 1);
    ck.expect(bound, "degrees", || detail("declared", json!(x.transition_degrees)));
    // the quotients fit into the composition polynomial
    let most = x.transition_degrees.iter().zip(&x.transition_exemptions).map(|(d, e)| (d * (rows - 1) + e).saturating_sub(rows)).max().unwrap_or(0);
    let b = a.composition_poly_degree_bound();
    ck.expect(b > most && b % rows == 0 && b / rows == 2, "composition-bound", || detail("declared", json!([b, most])));
    let _ = pi;
}

fn boundary(a: &CairoAIR, pi: &PublicInputs, rows: usize, ch: &Ch, what: &Value, ck: &mut Check) {
    let want: BTreeSet<(usize, usize, [u8; 32])> = boundaries(pi, ch, rows).into_iter().map(|(c, r, v)| (c, r, canon(&v))).collect();
    let Some(b) = ck.run("boundary-panic", || json!({"case": what}), || a.boundary_constraints(&ch.real())) else { return };
    let got: BTreeSet<(usize, usize, [u8; 32])> = b.constraints.iter().map(|c| (c.col, c.step, canon(&c.value))).collect();
    ck.count("boundary assertions compared", want.len() as u64);
    ck.expect(got == want, "boundary-assertions", || {
        let show = |s: Vec<&(usize, usize, [u8; 32])>| s.iter().map(|x| format!("column {} row {} value {:02x?}", x.0, x.1, &x.2[24..])).collect::<Vec<_>>();
        json!({"case": what, "missing": show(want.difference(&got).collect()), "unexpected": show(got.difference(&want).collect())})
    });
}

fn main() {
    let mut ck = Check::new(
        "C23",
        "one evaluation per evaluation frame: the value of every constraint compared (up to sign) with the specification's \
         formula; degrees and row dependence measured on lines of frames; distinct by frame and challenges",
    );
    let o = ProofOptions { blowup_factor: 4, fri_number_of_queries: 1, coset_offset: 3, grinding_factor: 0 };
    let bases = ck.n(144, 400);
    let frames = ck.n(2500, 8000);
    for i in 0..bases {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let mut g = structured(&mut rng, 20);
        g.rc = if i % 2 == 0 { Some(2) } else { None };
        let run = generate(&g, &mut rng);
        if run.rc.map_or(false, |(s, e)| (e - s) as usize > run.regs.len()) {
            continue;
        }
        let what = json!({"run": run.brief()});
        ck.begin(&what.to_string());
        let rc = run.rc.is_some();
        let mut pi = run.inputs();
        let main = rows_of(&build_main_trace(&run.states(), &run.memory(), &mut pi));
        if main.len() > 4096 {
            continue;
        }
        let rows = main.len();
        let ch = Ch::random(&mut rng);
        let Some(sorted) = sorted_memory(&main, &pi) else { continue };
        let aux = aux_rows(&main, &sorted, &sorted_offsets(&main), &ch, &FE::one(), &FE::one());
        let full: Rows = main.iter().zip(&aux).map(|(a, b)| [a.clone(), b.clone()].concat()).collect();
        let a = air(&pi, rows, &o);
        let width = full[0].len();
        declarations(&a, &pi, rows, rc, &what, &mut ck);
        boundary(&a, &pi, rows, &ch, &what, &mut ck);
        // assertions for any claim
        for j in 0..14 {
            let mut q = pi.clone();
            q.pc_init = if rng.chance(1, 2) { FE::from(rng.range(1, run.program as usize) as u64) } else { rng.fe() };
            q.ap_init = rng.fe();
            q.fp_init = rng.fe();
            q.pc_final = rng.fe();
            q.ap_final = rng.fe();
            let (x, y) = (rng.below(1 << 16), rng.below(1 << 16));
            q.range_check_min = Some(x.min(y) as u16);
            q.range_check_max = Some(x.max(y) as u16);
            q.num_steps = if rng.chance(1, 4) { rng.range(1, 2) } else { rng.range(1, rows) };
            for _ in 0..rng.below(4) {
                q.public_memory.insert(rng.fe(), rng.fe());
            }
            let mut n = if rng.chance(1, 2) { rows } else { 1 << rng.range(3, 14) };
            q.num_steps = q.num_steps.min(n);
            if j >= 12 {
                // larger than any 8 or 16 bits
                n = 1 << rng.range(9, 28);
                q.num_steps = if rng.chance(1, 2) { n - rng.below(n / 2) } else { rng.range(1, n) };
                let cells = match (i % 36, j) {
                    (0, 12) => rng.range(65_500, 66_500),
                    (_, 12) => rng.range(200, 3000),
                    _ => rng.below(20),
                };
                for k in 0..cells {
                    q.public_memory.insert(FE::from(1_000_000 + k as u64), FE::from(rng.u64()));
                }
                ck.seen("orders of public cells", &[q.public_memory.len().ilog2() as u8]);
                ck.seen("orders of rows", &[n.ilog2() as u8]);
            }
            let b = air(&q, n, &o);
            let w = json!({"claim": format!("steps {} rows {n} range {:?}-{:?} rc {rc}", q.num_steps, q.range_check_min, q.range_check_max)});
            declarations(&b, &q, n, rc, &w, &mut ck);
            boundary(&b, &q, n, &Ch::random(&mut rng), &w, &mut ck);
            // what the constraints compute does not depend on the claim
            for _ in 0..6 {
                let c2 = Ch::random(&mut rng);
                let (c, n, kind) = frame(width, &full, &ch, rc, &mut rng);
                let want = transitions(&c, &n, &c2, rc);
                let got = eval(&b, &c, &n, &c2);
                let same = got.as_ref().map_or(false, |g| want.len() == g.len() && (0..want.len()).all(|k| g[k] == want[k] || g[k] == -&want[k]));
                ck.expect(same, "constraints-of-a-claim", || json!({"case": what, "claim": w, "frame": kind, "values": format!("{:?}", got.as_ref().err())}));
                ck.count("constraint values under other claims", want.len() as u64);
            }
        }
        // values
        for _ in 0..frames {
            let c2 = if rng.chance(1, 2) { ch.clone() } else { Ch::random(&mut rng) };
            let (c, n, kind) = frame(width, &full, &ch, rc, &mut rng);
            let want = transitions(&c, &n, &c2, rc);
            let got = match eval(&a, &c, &n, &c2) {
                Ok(g) => g,
                Err(e) => {
                    ck.violation("panic", json!({"case": what, "frame": kind, "panic": e}));
                    break;
                }
            };
            let mut fp = vec![];
            fp.extend(c.iter().chain(&n).flat_map(canon));
            ck.eval(&fp, true);
            ck.count(kind, 1);
            ck.count("constraint values compared", want.len() as u64);
            ck.count("constraint values that are zero", want.iter().filter(|x| **x == FE::zero()).count() as u64);
            let bad = (0..want.len()).find(|k| got.get(*k).map_or(true, |g| *g != want[*k] && *g != -&want[*k]));
            if let Some(k) = bad {
                let show = |v: &[FE]| v.iter().map(hex).collect::<Vec<_>>();
                let d = json!({"constraint": name(k), "frame": kind, "range-check columns": rc, "current row": show(&c), "next row": show(&n),
                    "got": got.get(k).map(hex), "expected": hex(&want[k])});
                ck.violation(&format!("constraint-{k}"), d);
            }
            if got.len() != want.len() {
                ck.violation("number-of-values", json!({"got": got.len(), "expected": want.len()}));
            }
        }
        // degrees and dependence, measured
        for _ in 0..ck.n(2, 10) {
            let line: Vec<[Vec<FE>; 2]> = (0..2).map(|_| [0, 1].map(|_| (0..width).map(|_| rng.fe_big()).collect::<Vec<FE>>())).collect();
            let at = |t: u64, r: usize| -> Vec<FE> { (0..width).map(|c| &line[0][r][c] + FE::from(t) * &line[1][r][c]).collect() };
            let values: Vec<Vec<FE>> = (0..6).filter_map(|t| eval(&a, &at(t, 0), &at(t, 1), &ch).ok()).collect();
            if values.len() != 6 {
                continue;
            }
            let degs = a.context().transition_degrees.clone();
            for k in 0..declared(rc).len().min(degs.len()) {
                let mut d: Vec<FE> = values.iter().map(|v| v[k].clone()).collect();
                let mut degree = 0;
                let mut order = 0;
                while d.len() > 1 {
                    d = d.windows(2).map(|w| &w[1] - &w[0]).collect();
                    order += 1;
                    if d.iter().any(|x| *x != FE::zero()) {
                        degree = order;
                    }
                }
                ck.expect(degree <= degs[k], "degree-exceeded", || json!({"constraint": name(k), "declared": degs[k], "measured": degree}));
                ck.count("degrees measured", 1);
            }
            let mut n2 = at(0, 1);
            for x in n2.iter_mut() {
                *x = rng.fe_big();
            }
            if let Ok(v) = eval(&a, &at(0, 0), &n2, &ch) {
                let ex = &a.context().transition_exemptions;
                for k in 0..v.len().min(ex.len()) {
                    let looks = v[k] != values[0][k];
                    ck.expect(ex[k] == 0 || looks && ex[k] == 1, "needless-exemption", || json!({"constraint": name(k), "exempt": ex[k], "looks at the next row": looks}));
                    ck.count("row dependences measured", 1);
                }
            }
        }
        ck.sample(what);
    }
    ck.finish();
}
