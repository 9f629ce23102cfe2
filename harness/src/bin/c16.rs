//! C16: trace tables, frames and boundary sets behave as plain matrices and lists.
use harness::cairo::hex;
use harness::progair::F;
use harness::refstark::{horner, root_of_unity};
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::FE;
use serde_json::json;

type M = Vec<Vec<FE>>;

fn flat(m: &M) -> Vec<FE> {
    m.iter().flatten().cloned().collect()
}
fn columns(m: &M, w: usize) -> M {
    (0..w).map(|c| m.iter().map(|r| r[c].clone()).collect()).collect()
}
fn matrix(rng: &mut Rng, h: usize, w: usize) -> M {
    let kind = rng.below(4);
    (0..h)
        .map(|r| {
            (0..w)
                .map(|c| match kind {
                    // every cell recognizable
                    0 | 1 => FE::from((r * 1000 + c + 1) as u64),
                    2 => FE::from(rng.below(3) as u64),
                    _ => rng.fe(),
                })
                .collect()
        })
        .collect()
}
fn is(t: &TraceTable<F>, m: &M, w: usize) -> bool {
    t.n_cols == w && t.table == flat(m)
}

/// A sequence of operations on one table, mirrored on a matrix.
fn tables(ck: &mut Check, rng: &mut Rng) {
    let (h, mut w) = match rng.below(4000) {
        0 => (rng.range(65_530, 66_000), 1),
        1 => (rng.range(256, 300), rng.range(256, 300)),
        k if k < 1000 => (1, rng.range(1, 12)),
        _ => (rng.range(1, 40), rng.range(1, 12)),
    };
    let mut m = matrix(rng, h, w);
    let mut ops: Vec<String> = vec![];
    let by_cols = rng.chance(1, 2);
    let built = if by_cols { "columns" } else { "cells" };
    let d0 = json!({"rows": h, "columns": w, "built_from": built});
    let Some(mut t) = ck.run("table-panics", || d0.clone(), || match by_cols {
        true => TraceTable::<F>::new_from_cols(&columns(&m, w)),
        false => TraceTable::<F>::new(flat(&m), w),
    }) else {
        return;
    };
    for _ in 0..rng.range(3, 12) {
        let d = || json!({"rows": h, "columns": w, "built_from": built, "operations": ops});
        let d1 = d();
        ck.begin(&d1.to_string());
        if !ck.expect(is(&t, &m, w), "table-differs", || d1.clone()) {
            return;
        }
        let ok = |ck: &mut Check, what: &str, r: Option<bool>| {
            if r == Some(false) {
                ck.violation("view-differs", json!({"case": d1, "view": what}));
            }
            ck.count("views compared", 1);
        };
        let r = ck.run("view-panics", || d1.clone(), || t.n_rows() == h && !t.is_empty());
        ok(ck, "n_rows", r);
        let r = ck.run("view-panics", || d1.clone(), || t.rows() == m);
        ok(ck, "rows", r);
        let r = ck.run("view-panics", || d1.clone(), || t.cols() == columns(&m, w));
        ok(ck, "cols", r);
        let r = ck.run("view-panics", || d1.clone(), || t.last_row() == &m[h - 1][..]);
        ok(ck, "last_row", r);
        for _ in 0..3 {
            let (a, b) = (rng.below(h), rng.below(w));
            let r = ck.run("view-panics", || d1.clone(), || t.get_row(a) == &m[a][..]);
            ok(ck, "get_row", r);
            let r = ck.run("view-panics", || d1.clone(), || t.get(a, b) == m[a][b]);
            ok(ck, "get", r);
        }
        match rng.below(4) {
            0 => {
                // rows -> columns -> rows
                ops.push("columns and back".into());
                let cols = t.cols();
                match ck.run("table-panics", || d1.clone(), || TraceTable::<F>::new_from_cols(&cols)) {
                    Some(x) => {
                        ck.expect(is(&x, &m, w), "conversion-loses", || d1.clone());
                        t = x
                    }
                    None => return,
                }
            }
            1 => {
                let k = rng.range(1, w.min(8) + 1);
                let sel: Vec<usize> = (0..k).map(|_| rng.below(w)).collect();
                ops.push(format!("select {sel:?}"));
                match ck.run("table-panics", || d1.clone(), || t.get_cols(&sel)) {
                    Some(x) => t = x,
                    None => return,
                }
                m = m.iter().map(|r| sel.iter().map(|c| r[*c].clone()).collect()).collect();
                w = k;
            }
            2 if w < 40 => {
                let k = rng.range(0, 6);
                let more = matrix(rng, h, k);
                ops.push(format!("concatenate {k}"));
                match ck.run("table-panics", || d1.clone(), || t.concatenate(flat(&more), k)) {
                    Some(x) => t = x,
                    None => return,
                }
                for (a, b) in m.iter_mut().zip(more) {
                    a.extend(b);
                }
                w += k;
            }
            _ => {
                let x = t.clone();
                ck.expect(is(&x, &m, w), "copy-differs", || d1.clone());
                // nothing selected: the empty table
                if let Some(e) = ck.run("table-panics", || d1.clone(), || t.get_cols(&[])) {
                    ck.expect(e.is_empty() && e.n_rows() == 0 && is(&e, &vec![], 0) && is(&TraceTable::empty(), &vec![], 0), "empty-selection", || d1.clone());
                }
            }
        }
        ck.count("table operations", 1);
    }
    ck.expect(is(&t, &m, w), "table-differs", || json!({"columns": w, "operations": ops}));
    ck.eval(format!("t{h},{w},{ops:?},{}", hex(&m[0][0])).as_bytes(), h > 1 && w > 1);
    ck.sample(json!({"rows": h, "columns": w, "operations": ops}));
}

fn frames(ck: &mut Check, rng: &mut Rng) {
    let (h, w) = match rng.below(3000) {
        0 => (rng.range(65_530, 66_000), rng.range(1, 3)),
        1 => (rng.range(256, 300), rng.range(256, 300)),
        _ => (rng.range(1, 40), rng.range(1, 10)),
    };
    let m = matrix(rng, h, w);
    let t = TraceTable::<F> { table: flat(&m), n_cols: w };
    let blowup = *rng.pick(&[1u8, 1, 2, 4, 8, 16, 128, 255]);
    let offs: Vec<usize> = (0..rng.range(1, 6))
        .map(|_| match rng.below(4) {
            0 => rng.below(4 * h),
            1 => h,
            _ => rng.below(5),
        })
        .collect();
    let step = match rng.below(4) {
        0 => h - 1,
        1 => h + rng.below(3 * h),
        _ => rng.below(h),
    };
    let d = json!({"rows": h, "columns": w, "step": step, "blowup": blowup, "offsets": offs});
    ck.begin(&d.to_string());
    let Some(mut f) = ck.run("frame-panics", || d.clone(), || Frame::read_from_trace(&t, step, blowup, &offs)) else { return };
    let want: M = offs.iter().map(|o| m[(step + o * blowup as usize) % h].clone()).collect();
    ck.expect(f.num_rows() == offs.len() && f.num_columns() == w, "frame-dimensions", || d.clone());
    ck.expect((0..offs.len()).all(|k| f.get_row(k) == &want[k][..]), "frame-differs", || d.clone());
    let g = Frame::<F>::new(flat(&want), w);
    ck.expect(g.num_rows() == offs.len() && (0..offs.len()).all(|k| g.get_row(k) == &want[k][..]), "frame-differs", || d.clone());
    // writing one cell changes that cell and nothing else
    let (a, b) = (rng.below(offs.len()), rng.below(w));
    let v = rng.fe();
    let mut want = want;
    want[a][b] = v.clone();
    if ck.run("frame-panics", || d.clone(), || f.get_row_mut(a)[b] = v).is_some() {
        ck.expect((0..offs.len()).all(|k| f.get_row(k) == &want[k][..]), "frame-write", || d.clone());
    }
    ck.count("frame rows", offs.len() as u64);
    ck.eval(format!("f{d}{}", hex(&m[0][0])).as_bytes(), h > 1);
}

fn boundaries(ck: &mut Check, rng: &mut Rng) {
    let log_n = if rng.chance(1, 400) { *rng.pick(&[7, 8, 9, 10, 11, 12, 14, 17]) } else { rng.range(0, 6) } as u32;
    let n = 1usize << log_n;
    let ncols = rng.range(1, 6);
    let k = rng.range(0, 12);
    let list: Vec<(usize, usize, FE)> = (0..k).map(|_| (rng.below(ncols), rng.below(n), rng.fe())).collect();
    let d = json!({"rows": n, "assertions": list.iter().map(|(c, s, v)| json!([c, s, hex(v)])).collect::<Vec<_>>()});
    ck.begin(&d.to_string());
    let set = BoundaryConstraints::<F>::from_constraints(list.iter().map(|(c, s, v)| BoundaryConstraint::new(*c, *s, v.clone())).collect());
    let same = set.constraints.len() == k && set.constraints.iter().zip(&list).all(|(a, b)| (a.col, a.step, &a.value) == (b.0, b.1, &b.2));
    ck.expect(same, "assertions-differ", || d.clone());
    let g = root_of_unity(log_n);
    let first = |f: &dyn Fn(&(usize, usize, FE)) -> usize| -> Vec<usize> {
        let mut out = vec![];
        for l in &list {
            if !out.contains(&f(l)) {
                out.push(f(l));
            }
        }
        out
    };
    let per = |c: usize| list.iter().filter(move |l| l.0 == c);
    let cols: Vec<usize> = match rng.below(3) {
        0 => (0..ncols + 2).collect(),
        1 => (0..rng.range(0, 6)).map(|_| rng.below(ncols + 1)).collect(),
        _ => first(&|l| l.0),
    };
    let ok = |ck: &mut Check, what: &str, r: Option<bool>| {
        if r == Some(false) {
            ck.violation("query-differs", json!({"case": d, "query": what, "columns": cols}));
        }
        ck.count("boundary queries", 1);
    };
    let r = ck.run("query-panics", || d.clone(), || set.steps_for_boundary() == first(&|l| l.1));
    ok(ck, "steps_for_boundary", r);
    let r = ck.run("query-panics", || d.clone(), || set.cols_for_boundary() == first(&|l| l.0));
    ok(ck, "cols_for_boundary", r);
    let r = ck.run("query-panics", || d.clone(), || {
        set.values(&cols) == cols.iter().map(|c| per(*c).map(|l| l.2.clone()).collect()).collect::<M>()
    });
    ok(ck, "values", r);
    let r = ck.run("query-panics", || d.clone(), || {
        set.generate_roots_of_unity(&g, &cols) == cols.iter().map(|c| per(*c).map(|l| g.pow(l.1)).collect()).collect::<M>()
    });
    ok(ck, "generate_roots_of_unity", r);
    for c in 0..ncols + 1 {
        let r = ck.run("query-panics", || d.clone(), || set.steps(c) == per(c).map(|l| l.1).collect::<Vec<_>>());
        ok(ck, "steps", r);
        let Some(z) = ck.run("query-panics", || d.clone(), || set.compute_zerofier(&g, c)) else { continue };
        let co = z.coefficients();
        let zero_on: Vec<usize> = (0..n).filter(|s| horner(co, &g.pow(*s)) == FE::zero()).collect();
        let mut asserted: Vec<usize> = per(c).map(|l| l.1).collect();
        asserted.sort();
        let degree = asserted.len();
        asserted.dedup();
        ck.expect(zero_on == asserted, "zerofier-zeros", || json!({"case": d, "column": c, "vanishes_on": zero_on, "asserted": asserted}));
        // no other roots, and monic: it is the product of its linear factors
        ck.expect(co.len() == degree + 1 || co.len() == asserted.len() + 1, "zerofier-degree", || json!({"case": d, "column": c, "coefficients": co.len()}));
        let x = rng.fe_big();
        let all = per(c).fold(FE::one(), |a, l| a * (&x - g.pow(l.1)));
        let distinct = asserted.iter().fold(FE::one(), |a, s| a * (&x - g.pow(*s)));
        let v = horner(co, &x);
        ck.expect(v == all || v == distinct, "zerofier-differs", || json!({"case": d, "column": c}));
    }
    if let Some((_, s, v)) = list.first() {
        let b = BoundaryConstraint::<F>::new_simple(*s, v.clone());
        ck.expect((b.col, b.step, &b.value) == (0, *s, v), "assertions-differ", || d.clone());
    }
    let e = BoundaryConstraints::<F>::new();
    ck.expect(e.constraints.is_empty() && e.steps(0).is_empty(), "assertions-differ", || d.clone());
    ck.eval(format!("b{d}").as_bytes(), k > 1);
}

fn main() {
    let mut ck = Check::new(
        "C16",
        "one evaluation per sequence of table operations mirrored on a matrix, per frame read and per set of boundary \
         assertions queried; non-trivial for more than one row, column and assertion; distinct by contents",
    );
    let mut rng = ck.rng.clone();
    for _ in 0..ck.n(32000, 80_000) {
        if ck.stop() {
            break;
        }
        tables(&mut ck, &mut rng);
        frames(&mut ck, &mut rng);
        boundaries(&mut ck, &mut rng);
    }
    ck.finish();
}
