//! Computations as data: an AIR whose columns, row offsets, constraints, exemptions, boundary
//! assertions and auxiliary columns come from a `Spec`, a generator of random specs together
//! with satisfying traces, and an independent row-by-row judge of whether a trace satisfies one.
use crate::rng::Rng;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_stark::starks::{
    constraints::boundary::{BoundaryConstraint, BoundaryConstraints},
    context::AirContext,
    frame::Frame,
    proof::options::ProofOptions,
    trace::TraceTable,
    traits::AIR,
    transcript::transcript_to_field,
};
use lambdaworks_stark::FE;
use std::sync::Arc;

pub type F = Stark252PrimeField;
pub type Cols = Vec<Vec<FE>>;

#[derive(Clone, Debug, PartialEq)]
pub struct Term {
    pub coef: FE,
    pub chal: Option<usize>,
    /// (index into the offsets, column)
    pub vars: Vec<(usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Con {
    pub terms: Vec<Term>,
    pub degree: usize,
    pub exempt: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Bc {
    pub col: usize,
    pub step: usize,
    /// Sum of coefficient times challenge (or one).
    pub value: Vec<(FE, Option<usize>)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum AuxRule {
    /// a[r] = sum coef * challenge * main[col][r] (+ coef * challenge without column)
    Linear(Vec<(FE, Option<usize>, Option<usize>)>),
    /// a[0] = z - m[0]; a[r+1] = a[r] * (z - m[r+1])
    RunProd { chal: usize, col: usize },
    /// a[0] = start; a[r+1] = a[r] + z * m[r]
    RunSum { chal: usize, col: usize, start: FE },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Spec {
    pub main: usize,
    pub offsets: Vec<usize>,
    pub cons: Vec<Con>,
    pub bcs: Vec<Bc>,
    pub chals: usize,
    pub aux: Vec<AuxRule>,
    /// Composition degree bound is this times the trace length.
    pub dfac: usize,
    /// Added to one cell (row, aux column) of the auxiliary trace the prover builds.
    pub aux_fault: Option<(usize, usize, FE)>,
}

impl Spec {
    pub fn width(&self) -> usize {
        self.main + self.aux.len()
    }
    pub fn eval_con(&self, k: usize, chals: &[FE], cell: &dyn Fn(usize, usize) -> FE) -> FE {
        self.cons[k].terms.iter().fold(FE::zero(), |acc, t| {
            let mut v = t.coef.clone();
            if let Some(c) = t.chal {
                v = v * &chals[c];
            }
            for (o, c) in &t.vars {
                v = v * cell(*o, *c);
            }
            acc + v
        })
    }
    pub fn bc_value(&self, k: usize, chals: &[FE]) -> FE {
        self.bcs[k]
            .value
            .iter()
            .fold(FE::zero(), |a, (c, h)| match h {
                Some(h) => a + c * &chals[*h],
                None => a + c,
            })
    }
    pub fn build_aux(&self, main: &Cols, chals: &[FE]) -> Cols {
        let n = main[0].len();
        let mut cols: Cols = self
            .aux
            .iter()
            .map(|r| match r {
                AuxRule::Linear(t) => (0..n)
                    .map(|i| {
                        t.iter().fold(FE::zero(), |a, (k, ch, col)| {
                            let mut v = k.clone();
                            if let Some(ch) = ch {
                                v = v * &chals[*ch];
                            }
                            if let Some(col) = col {
                                v = v * &main[*col][i];
                            }
                            a + v
                        })
                    })
                    .collect(),
                AuxRule::RunProd { chal, col } => {
                    let mut v = FE::one();
                    (0..n)
                        .map(|i| {
                            v = &v * (&chals[*chal] - &main[*col][i]);
                            v.clone()
                        })
                        .collect()
                }
                AuxRule::RunSum { chal, col, start } => {
                    let mut v = start.clone();
                    (0..n)
                        .map(|i| {
                            let r = v.clone();
                            v = &v + &chals[*chal] * &main[*col][i];
                            r
                        })
                        .collect()
                }
            })
            .collect();
        if let Some((r, c, d)) = &self.aux_fault {
            cols[*c][*r] = &cols[*c][*r] + d;
        }
        cols
    }
    /// First broken assertion or constraint of a full (main plus auxiliary) trace, if any.
    pub fn first_violation(&self, full: &Cols, chals: &[FE]) -> Option<String> {
        let n = full[0].len();
        for k in 0..self.bcs.len() {
            let b = &self.bcs[k];
            if full[b.col][b.step] != self.bc_value(k, chals) {
                return Some(format!("boundary {k} (column {}, step {})", b.col, b.step));
            }
        }
        for k in 0..self.cons.len() {
            for s in 0..n - self.cons[k].exempt {
                let v = self.eval_con(k, chals, &|o, c| {
                    full[c][(s + self.offsets[o]) % n].clone()
                });
                if v != FE::zero() {
                    return Some(format!("constraint {k} at row {s}"));
                }
            }
        }
        None
    }
    /// Judges a main trace with random challenges (twice, against coincidences).
    pub fn satisfied(&self, main: &Cols, rng: &mut Rng) -> Option<String> {
        let mut out = None;
        for _ in 0..2 {
            let chals: Vec<FE> = (0..self.chals).map(|_| rng.fe_big()).collect();
            let mut full = main.clone();
            full.extend(self.build_aux(main, &chals));
            out = out.or(self.first_violation(&full, &chals));
        }
        out
    }
    /// Which constraint columns/rows look at this main cell at all (statically).
    pub fn context(&self, options: &ProofOptions) -> AirContext {
        let ex: Vec<usize> = self.cons.iter().map(|c| c.exempt).collect();
        let mut uniq: Vec<usize> = ex.iter().cloned().filter(|e| *e > 0).collect();
        uniq.sort();
        uniq.dedup();
        AirContext {
            proof_options: options.clone(),
            trace_columns: self.width(),
            transition_degrees: self.cons.iter().map(|c| c.degree).collect(),
            transition_offsets: self.offsets.clone(),
            transition_exemptions: ex,
            num_transition_constraints: self.cons.len(),
            num_transition_exemptions: uniq.len(),
        }
    }
    pub fn brief(&self) -> serde_json::Value {
        serde_json::json!({
            "main": self.main, "aux": self.aux.len(), "offsets": self.offsets,
            "degrees": self.cons.iter().map(|c| c.degree).collect::<Vec<_>>(),
            "exemptions": self.cons.iter().map(|c| c.exempt).collect::<Vec<_>>(),
            "terms": self.cons.iter().map(|c| c.terms.len()).collect::<Vec<_>>(),
            "boundary": self.bcs.iter().map(|b| [b.col, b.step]).collect::<Vec<_>>(),
            "challenges": self.chals, "degree_bound": format!("{}n", self.dfac),
            "aux_fault": self.aux_fault.as_ref().map(|f| [f.0, f.1]),
        })
    }
}

#[derive(Clone)]
pub struct ProgAir {
    pub spec: Arc<Spec>,
    ctx: AirContext,
    n: usize,
}

impl AIR for ProgAir {
    type Field = F;
    type RAPChallenges = Vec<FE>;
    type PublicInputs = Arc<Spec>;

    fn new(n: usize, spec: &Arc<Spec>, options: &ProofOptions) -> Self {
        ProgAir {
            spec: spec.clone(),
            ctx: spec.context(options),
            n,
        }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, chals: &Vec<FE>) -> TraceTable<F> {
        if self.spec.aux.is_empty() {
            return TraceTable::empty();
        }
        let n = main.table.len() / main.n_cols;
        let cols: Cols = (0..main.n_cols)
            .map(|c| {
                (0..n)
                    .map(|r| main.table[r * main.n_cols + c].clone())
                    .collect()
            })
            .collect();
        to_table(&self.spec.build_aux(&cols, chals))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> Vec<FE> {
        (0..self.spec.chals).map(|_| transcript_to_field(t)).collect()
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.spec.aux.len()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.spec.dfac * self.n
    }
    fn compute_transition(&self, frame: &Frame<F>, chals: &Vec<FE>) -> Vec<FE> {
        (0..self.spec.cons.len())
            .map(|k| {
                self.spec
                    .eval_con(k, chals, &|o, c| frame.get_row(o)[c].clone())
            })
            .collect()
    }
    fn boundary_constraints(&self, chals: &Vec<FE>) -> BoundaryConstraints<F> {
        BoundaryConstraints::from_constraints(
            (0..self.spec.bcs.len())
                .map(|k| {
                    BoundaryConstraint::new(
                        self.spec.bcs[k].col,
                        self.spec.bcs[k].step,
                        self.spec.bc_value(k, chals),
                    )
                })
                .collect(),
        )
    }
    fn context(&self) -> &AirContext {
        &self.ctx
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Arc<Spec> {
        &self.spec
    }
}

/// Row-major table from columns, without the code under test.
pub fn to_table(cols: &Cols) -> TraceTable<F> {
    let n = cols[0].len();
    let mut t = Vec::with_capacity(n * cols.len());
    for r in 0..n {
        for c in cols {
            t.push(c[r].clone());
        }
    }
    TraceTable {
        table: t,
        n_cols: cols.len(),
    }
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub blowup: u8,
    pub queries: usize,
    pub coset: u64,
    pub grinding: u8,
}

impl Opts {
    pub fn real(&self) -> ProofOptions {
        ProofOptions {
            blowup_factor: self.blowup,
            fri_number_of_queries: self.queries,
            coset_offset: self.coset,
            grinding_factor: self.grinding,
        }
    }
    pub fn json(&self) -> serde_json::Value {
        serde_json::json!({"blowup": self.blowup, "queries": self.queries, "coset": self.coset, "grinding": self.grinding})
    }
}

/// The evaluation coset must miss the trace domain.
pub fn coset_ok(coset: u64, lde_size: usize) -> bool {
    coset != 0 && FE::from(coset).pow(lde_size) != FE::one()
}

pub fn gen_opts(rng: &mut Rng, n: usize, max_lde: usize, queries: (usize, usize), max_grind: usize) -> Opts {
    loop {
        let blowup = *rng.pick(&[2u8, 4, 4, 8, 8, 16, 32, 64, 128]);
        if blowup as usize * n > max_lde && blowup > 4 {
            continue;
        }
        let coset = match rng.below(4) {
            0 => 3,
            1 => *rng.pick(&[2u64, 5, 7, 11, 13, 17, 1 << 32, u64::MAX]),
            2 => rng.u64() >> rng.below(60),
            _ => rng.u64(),
        };
        if !coset_ok(coset, blowup as usize * n) {
            continue;
        }
        return Opts {
            blowup,
            queries: rng.range(queries.0, queries.1),
            coset,
            grinding: rng.below(max_grind + 1) as u8,
        };
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub spec: Spec,
    pub main: Cols,
    pub n: usize,
    pub opts: Opts,
}

impl Case {
    pub fn brief(&self) -> serde_json::Value {
        serde_json::json!({"n": self.n, "options": self.opts.json(), "spec": self.spec.brief()})
    }
    /// The largest exemption a constraint of this degree may have without pushing the
    /// composition polynomial past what the protocol can commit to.
    pub fn max_exempt(n: usize, blowup: usize, dfac: usize, d: usize) -> usize {
        let cap = (2 * n + 1).min(blowup * n - 1);
        // degree of the composition part: dfac*n - d + e
        (cap + d).saturating_sub(dfac * n).min(n - 1)
    }
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub max_log_n: usize,
    pub max_lde: usize,
    pub queries: (usize, usize),
    pub max_grind: usize,
    pub max_cols: usize,
    pub min_log_n: usize,
}

impl Default for Limits {
    fn default() -> Self {
        Limits {
            max_log_n: 6,
            max_lde: 512,
            queries: (1, 8),
            max_grind: 6,
            max_cols: 6,
            min_log_n: 1,
        }
    }
}

impl Limits {
    /// Sizes that are too dear to use always: every so many cases a trace longer than 255 rows,
    /// one with many columns (now and then with more than 256), one with many queries.
    pub fn rare(self, i: usize, every: usize) -> Self {
        let turn = i / every;
        let i = i % every;
        if i == every / 4 && turn % 6 == 1 {
            // more columns than 8 bits count
            let most = self.max_log_n.min(3).max(self.min_log_n);
            Limits { max_log_n: most, max_lde: 32.max(2 << most), queries: (1, 4), max_cols: 500, ..self }
        } else if i == every / 2 {
            Limits { min_log_n: 8, max_log_n: 9, max_lde: 2048, max_cols: self.max_cols.min(3), ..self }
        } else if i == every / 4 {
            Limits { max_log_n: self.max_log_n.min(4).max(self.min_log_n), max_lde: self.max_lde.min(128), max_cols: 90, ..self }
        } else if i == every - 1 {
            Limits { queries: (33, 100), ..self }
        } else {
            self
        }
    }
}

/// Sizes a prover meets in practice: (log2 of the trace length, blowup factor), from a small trace in
/// a domain of 2^17 points to a trace of 2^16 rows.
pub const LADDER: [(usize, u8); 7] = [(10, 128), (16, 2), (12, 8), (13, 16), (9, 128), (14, 4), (11, 32)];

pub fn big_case(rng: &mut Rng, i: usize, queries: (usize, usize), max_cols: usize) -> Case {
    let (log_n, blowup) = LADDER[i % LADDER.len()];
    let lim = Limits { min_log_n: log_n, max_log_n: log_n, max_lde: (blowup as usize) << log_n, queries, max_grind: 8, max_cols };
    let n = 1usize << log_n;
    let mut opts = gen_opts(rng, n, lim.max_lde, queries, 8);
    opts.blowup = blowup;
    while !coset_ok(opts.coset, blowup as usize * n) {
        opts.coset = rng.u64();
    }
    gen_case_with(rng, &lim, n, opts)
}

/// A computation whose frames have many rows.
pub fn many_rows(rng: &mut Rng) -> Case {
    let lim = Limits { min_log_n: 4, max_log_n: 5, max_lde: 128, queries: (26, 28), max_grind: 2, max_cols: 3 };
    loop {
        let c = gen_case(rng, &lim);
        if c.spec.offsets.len() > 6 {
            return c;
        }
    }
}

/// A random computation with a satisfying trace.
pub fn gen_case(rng: &mut Rng, lim: &Limits) -> Case {
    let n = 1usize << rng.range(lim.min_log_n, lim.max_log_n);
    let opts = gen_opts(rng, n, lim.max_lde, lim.queries, lim.max_grind);
    gen_case_with(rng, lim, n, opts)
}

pub fn gen_case_with(rng: &mut Rng, lim: &Limits, n: usize, opts: Opts) -> Case {
    let blowup = opts.blowup as usize;
    let dfac = rng.range(1, 2);
    let maxdeg = dfac + 1;
    let main = rng.range(if lim.max_cols > 50 { lim.max_cols / 2 } else { 1 }, lim.max_cols);
    // Row offsets: 0 first, the rest any distinct ones in any order, contiguous or not.
    let mut offsets = vec![0];
    let span = (n - 1).min(6);
    match rng.below(4) {
        0 => {}
        _ if span == 0 => {}
        1 => offsets.extend(1..=rng.range(1, span.min(3))),
        _ => {
            let mut pool: Vec<usize> = (1..=span).collect();
            rng.shuffle(&mut pool);
            let k = rng.range(1, pool.len().min(3));
            offsets.extend(&pool[..k]);
        }
    }
    // many of them
    if n > 8 && main <= 4 && rng.chance(1, 50) {
        let mut pool: Vec<usize> = (1..n.min(40)).collect();
        rng.shuffle(&mut pool);
        pool.truncate(rng.range(5, pool.len().min(24)));
        offsets.truncate(1);
        offsets.extend(pool);
    }
    if n > 8 && rng.chance(1, 6) {
        offsets.insert(rng.range(1, offsets.len()), if rng.chance(1, 4) { n - 1 } else { rng.range(7, n - 1) });
    }
    let mut cons: Vec<Con> = vec![];
    let mut cols: Cols = vec![vec![FE::zero(); n]; main];
    // Column kinds, filled in dependency order row by row below.
    #[derive(Clone)]
    enum Kind {
        Free,
        Bool(usize),
        Const,
        Prod(Vec<usize>, FE),
        Rec { to: usize, terms: Vec<Term>, exempt: usize, gate: Option<usize> },
    }
    let mut kinds: Vec<Kind> = vec![];
    let ex = |rng: &mut Rng, d: usize, least: usize| -> Option<usize> {
        let hi = Case::max_exempt(n, blowup, dfac, d);
        if hi < least {
            return None;
        }
        Some(match rng.below(4) {
            0 if rng.chance(1, 20) => rng.range(least, hi),
            0 => rng.range(least, hi.min(least + 6)),
            _ => least,
        })
    };
    for c in 0..main {
        let kind = match rng.below(8) {
            0 => Kind::Free,
            1 if maxdeg >= 2 => Kind::Bool(if rng.chance(1, 4) { ex(rng, 2, 0).unwrap_or(0) } else { 0 }),
            2 => Kind::Const,
            3 | 4 if c > 0 => {
                let d = rng.range(1, maxdeg);
                Kind::Prod((0..d).map(|_| rng.below(c)).collect(), rng.fe_nonzero())
            }
            _ => {
                // x_c(s + o_to) = sum of terms in cells already known at that point
                let d = rng.range(1, maxdeg);
                let cand: Vec<usize> = (1..offsets.len())
                    .filter(|j| offsets[*j] <= Case::max_exempt(n, blowup, dfac, d))
                    .collect();
                if cand.is_empty() {
                    Kind::Free
                } else {
                    let to = *rng.pick(&cand);
                    let gates: Vec<usize> = (0..c)
                        .filter(|g| d >= 2 && matches!(kinds[*g], Kind::Bool(_)))
                        .collect();
                    let gate = if !gates.is_empty() && rng.chance(2, 3) {
                        Some(*rng.pick(&gates))
                    } else {
                        None
                    };
                    let dt = if gate.is_some() { d - 1 } else { d };
                    let nt = rng.range(1, 3);
                    let mut terms = vec![];
                    for t in 0..nt {
                        let deg = if t == 0 { dt } else { rng.below(dt + 1) };
                        let vars = (0..deg)
                            .map(|_| {
                                // an earlier offset of any column, or this one of an earlier column
                                let ok: Vec<usize> = (0..offsets.len())
                                    .filter(|j| offsets[*j] < offsets[to])
                                    .collect();
                                if c > 0 && rng.chance(1, 4) {
                                    (to, rng.below(c))
                                } else {
                                    let j = *rng.pick(&ok);
                                    (j, if rng.chance(1, 2) { c } else { rng.below(main) })
                                }
                            })
                            .collect();
                        terms.push(Term { coef: rng.fe_nonzero(), chal: None, vars });
                    }
                    let exempt = ex(rng, d, offsets[to]).unwrap();
                    Kind::Rec { to, terms, exempt, gate }
                }
            }
        };
        kinds.push(kind);
    }
    let consts: Vec<FE> = (0..main).map(|_| rng.fe()).collect();
    for r in 0..n {
        for c in 0..main {
            cols[c][r] = match &kinds[c] {
                Kind::Free => rng.fe(),
                Kind::Bool(e) if r >= n - e && rng.chance(1, 2) => rng.fe(),
                Kind::Bool(_) => FE::from(rng.below(2) as u64),
                Kind::Const => consts[c].clone(),
                Kind::Prod(f, k) => f.iter().fold(k.clone(), |a, x| a * &cols[*x][r]),
                Kind::Rec { to, terms, exempt, gate } => {
                    let o = offsets[*to];
                    let free = r < o
                        || r - o >= n - exempt
                        || gate.map_or(false, |g| cols[g][r - o] == FE::zero());
                    if free {
                        rng.fe()
                    } else {
                        let s = r - o;
                        terms.iter().fold(FE::zero(), |a, t| {
                            a + t.vars.iter().fold(t.coef.clone(), |v, (j, c2)| {
                                v * &cols[*c2][s + offsets[*j]]
                            })
                        })
                    }
                }
            };
        }
    }
    for c in 0..main {
        let one = |v: Vec<(usize, usize)>, k: FE| Term { coef: k, chal: None, vars: v };
        match kinds[c].clone() {
            Kind::Free => {}
            Kind::Bool(e) => {
                cons.push(Con {
                    terms: vec![one(vec![(0, c), (0, c)], FE::one()), one(vec![(0, c)], -FE::one())],
                    degree: 2,
                    exempt: e,
                })
            }
            Kind::Const => {
                if offsets.len() > 1 {
                    let j = rng.range(1, offsets.len() - 1);
                    cons.push(Con {
                        terms: vec![one(vec![(j, c)], FE::one()), one(vec![(0, c)], -FE::one())],
                        degree: rng.range(1, maxdeg),
                        exempt: 0,
                    })
                }
            }
            Kind::Prod(f, k) => {
                let d = f.len().max(1);
                cons.push(Con {
                    terms: vec![
                        one(vec![(0, c)], FE::one()),
                        one(f.iter().map(|x| (0, *x)).collect(), -k),
                    ],
                    degree: rng.range(d, maxdeg),
                    exempt: 0,
                })
            }
            Kind::Rec { to, terms, exempt, gate } => {
                let mut t = vec![one(vec![(to, c)], FE::one())];
                t.extend(terms.into_iter().map(|mut x| {
                    x.coef = -x.coef;
                    x
                }));
                if let Some(g) = gate {
                    for x in t.iter_mut() {
                        x.vars.push((0, g));
                    }
                }
                let d = t.iter().map(|x| x.vars.len()).max().unwrap().max(1);
                cons.push(Con { terms: t, degree: rng.range(d, maxdeg), exempt })
            }
        }
    }
    // Auxiliary columns
    let mut aux: Vec<AuxRule> = vec![];
    let mut bcs: Vec<Bc> = vec![];
    let mut chals = 0;
    if rng.chance(1, 2) {
        chals = rng.range(1, 3);
        let next = (1..offsets.len()).find(|j| offsets[*j] == 1);
        for a in 0..rng.range(1, 3) {
            let col = main + a;
            let chal = rng.below(chals);
            let m = rng.below(main);
            let one = |v: Vec<(usize, usize)>, k: FE, ch: Option<usize>| Term { coef: k, chal: ch, vars: v };
            let prod_ok = maxdeg >= 2 && Case::max_exempt(n, blowup, dfac, 2) >= 1;
            let sum_ok = Case::max_exempt(n, blowup, dfac, 1) >= 1;
            match (rng.below(3), next) {
                (0, Some(j)) if prod_ok => {
                    aux.push(AuxRule::RunProd { chal, col: m });
                    // a(1) - a(0) z + a(0) m(1) = 0
                    cons.push(Con {
                        terms: vec![
                            one(vec![(j, col)], FE::one(), None),
                            one(vec![(0, col)], -FE::one(), Some(chal)),
                            one(vec![(0, col), (j, m)], FE::one(), None),
                        ],
                        degree: 2,
                        exempt: 1,
                    });
                    bcs.push(Bc {
                        col,
                        step: 0,
                        value: vec![(FE::one(), Some(chal)), (-cols[m][0].clone(), None)],
                    });
                }
                (1, Some(j)) if sum_ok => {
                    let start = rng.fe();
                    aux.push(AuxRule::RunSum { chal, col: m, start: start.clone() });
                    cons.push(Con {
                        terms: vec![
                            one(vec![(j, col)], FE::one(), None),
                            one(vec![(0, col)], -FE::one(), None),
                            one(vec![(0, m)], -FE::one(), Some(chal)),
                        ],
                        degree: 1,
                        exempt: 1,
                    });
                    bcs.push(Bc { col, step: 0, value: vec![(start.clone(), None)] });
                    let r = rng.below(n);
                    let sum = cols[m][..r].iter().fold(FE::zero(), |a, x| a + x);
                    bcs.push(Bc { col, step: r, value: vec![(start, None), (sum, Some(chal))] });
                }
                _ => {
                    let terms: Vec<(FE, Option<usize>, Option<usize>)> = (0..rng.range(1, 3))
                        .map(|_| {
                            (
                                rng.fe_nonzero(),
                                if rng.chance(2, 3) { Some(rng.below(chals)) } else { None },
                                if rng.chance(3, 4) { Some(rng.below(main)) } else { None },
                            )
                        })
                        .collect();
                    let mut t = vec![one(vec![(0, col)], FE::one(), None)];
                    for (k, ch, c) in &terms {
                        t.push(one(c.iter().map(|c| (0, *c)).collect(), -k.clone(), *ch));
                    }
                    cons.push(Con { terms: t, degree: rng.range(1, maxdeg), exempt: 0 });
                    if rng.chance(1, 2) {
                        let r = rng.below(n);
                        bcs.push(Bc {
                            col,
                            step: r,
                            value: terms
                                .iter()
                                .map(|(k, ch, c)| match c {
                                    Some(c) => (k * &cols[*c][r], *ch),
                                    None => (k.clone(), *ch),
                                })
                                .collect(),
                        });
                    }
                    aux.push(AuxRule::Linear(terms));
                }
            }
        }
    } else if rng.chance(1, 6) {
        chals = 1;
    }
    if cons.is_empty() {
        // a constraint that always holds because column 0 is made constant zero
        cols[0].iter_mut().for_each(|x| *x = FE::zero());
        for b in bcs.iter_mut() {
            b.step = b.step.min(n - 1);
        }
        cons.push(Con {
            terms: vec![Term { coef: rng.fe_nonzero(), chal: None, vars: vec![(0, 0)] }],
            degree: 1,
            exempt: 0,
        });
    }
    // Boundary assertions on main cells
    let many = match rng.below(12) {
        0 if rng.chance(1, 10) => rng.range(25, 90),
        0 => rng.range(5, 24),
        _ => rng.below(5),
    };
    for _ in 0..many {
        let col = rng.below(main);
        let step = match rng.below(4) {
            0 => 0,
            1 => n - 1,
            _ => rng.below(n),
        };
        bcs.push(Bc { col, step, value: vec![(cols[col][step].clone(), None)] });
    }
    rng.shuffle(&mut bcs);
    if rng.chance(1, 2) {
        rng.shuffle(&mut cons);
    }
    Case {
        spec: Spec { main, offsets, cons, bcs, chals, aux, dfac, aux_fault: None },
        main: cols,
        n,
        opts,
    }
}

/// The proof the real prover makes for a trace.
pub fn prove_trace(spec: &Spec, main: &Cols, opts: &Opts) -> crate::proofs::P {
    lambdaworks_stark::starks::prover::prove::<F, ProgAir>(&to_table(main), &Arc::new(spec.clone()), &opts.real())
        .expect("the prover returned an error")
}

/// The verdict of the real verifier.
pub fn accepts(p: &crate::proofs::P, spec: &Spec, opts: &Opts) -> bool {
    lambdaworks_stark::starks::verifier::verify::<F, ProgAir>(p, &Arc::new(spec.clone()), &opts.real())
}

/// Whether some column has no period. When every column has one, whole subtrees of the
/// commitments repeat and openings at different positions can be the same.
pub fn aperiodic(main: &Cols) -> bool {
    main.iter().any(|c| {
        let h = c.len() / 2;
        h > 0 && (0..h).any(|i| c[i] != c[i + h])
    })
}

/// Changes the trace; returns a name.
pub fn tamper(rng: &mut Rng, c: &mut Case) -> String {
    let n = c.n;
    let w = c.main.len();
    let emax = c.spec.cons.iter().map(|c| c.exempt).max().unwrap_or(0);
    let row = |rng: &mut Rng| match rng.below(6) {
        0 => 0,
        1 => n - 1,
        // around the border of the exempt rows
        2 if emax > 0 => (n - emax).saturating_sub(rng.below(2)),
        3 => n.saturating_sub(2),
        _ => rng.below(n),
    };
    let change = |rng: &mut Rng, v: &FE| {
        let mut x = v.clone();
        crate::proofs::alter_fe(&mut x, rng);
        x
    };
    match rng.below(11) {
        9 => {
            // two mistakes that cancel in the sum of any two constraints alike
            let (r, a, b) = (row(rng), rng.below(w), rng.below(w));
            let d = rng.fe_nonzero();
            c.main[a][r] = &c.main[a][r] + &d;
            let q = if a == b { row(rng) } else { r };
            c.main[b][q] = &c.main[b][q] - &d;
            format!("columns {a} and {b} changed by opposite amounts")
        }
        10 if c.spec.bcs.iter().any(|b| b.col < w) => {
            let l: Vec<_> = c.spec.bcs.iter().filter(|b| b.col < w).map(|b| (b.col, b.step)).collect();
            let (k, r) = *rng.pick(&l);
            c.main[k][r] = change(rng, &c.main[k][r]);
            format!("asserted cell column {k} row {r}")
        }
        0..=3 => {
            let (r, k) = (row(rng), rng.below(w));
            c.main[k][r] = change(rng, &c.main[k][r]);
            format!("cell column {k} row {r}")
        }
        4 => {
            let m = rng.range(2, 4);
            for _ in 0..m {
                let (r, k) = (row(rng), rng.below(w));
                c.main[k][r] = change(rng, &c.main[k][r]);
            }
            format!("{m} cells")
        }
        5 => {
            let (a, b, k) = (rng.below(n), rng.below(n), rng.below(w));
            c.main[k].swap(a, b);
            format!("rows {a} and {b} of column {k} swapped")
        }
        6 => {
            let k = rng.below(w);
            let d = rng.fe_nonzero();
            for v in c.main[k].iter_mut() {
                *v = &*v + &d;
            }
            format!("constant added to column {k}")
        }
        7 if !c.spec.aux.is_empty() => {
            let (r, k) = (row(rng), rng.below(c.spec.aux.len()));
            c.spec.aux_fault = Some((r, k, rng.fe_nonzero()));
            format!("auxiliary cell column {k} row {r}")
        }
        8 => {
            let k = rng.below(w);
            c.main[k].rotate_left(rng.range(1, n.max(2) - 1));
            format!("column {k} rotated")
        }
        _ => {
            let r = row(rng);
            for k in 0..w {
                c.main[k][r] = change(rng, &c.main[k][r]);
            }
            format!("whole row {r}")
        }
    }
}
