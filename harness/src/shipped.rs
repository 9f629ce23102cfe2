//! The computations that ship with the library (src/starks/example), stated independently:
//! for each the trace its builder should make, and when a trace satisfies it.
use crate::progair::Opts;
use crate::report::{guard, Check};
use crate::rng::Rng;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use crate::proofs::difference;
use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
use lambdaworks_stark::starks::{
    example::{
        dummy_air::{dummy_trace, DummyAIR},
        fibonacci_2_columns::{fibonacci_trace_2_columns, Fibonacci2ColsAIR},
        fibonacci_rap::{fibonacci_rap_trace, FibonacciRAP, FibonacciRAPPublicInputs},
        quadratic_air::{quadratic_trace, QuadraticAIR, QuadraticPublicInputs},
        simple_fibonacci::{fibonacci_trace, FibonacciAIR, FibonacciPublicInputs},
    },
    proof::stark::StarkProof,
    prover::prove,
    trace::TraceTable,
    traits::AIR,
    verifier::verify,
};
use serde_json::{json, Value};

pub type E<G> = FieldElement<G>;
pub type Table<G> = Vec<Vec<E<G>>>;

/// A field the computations run over.
pub trait Field: IsFFTField + Send + Sync + 'static
where
    FieldElement<Self>: ByteConversion,
{
    const NAME: &'static str;
    /// Large enough that a false statement has no chance of passing by luck.
    const SOUND: bool;
    fn coset(rng: &mut Rng) -> u64;
}
impl Field for crate::progair::F {
    const NAME: &'static str = "stark252";
    const SOUND: bool = true;
    fn coset(rng: &mut Rng) -> u64 {
        *rng.pick(&[3, 3, 5, 7, 11, u64::MAX])
    }
}
impl Field for lambdaworks_math::field::fields::u64_prime_field::Goldilocks {
    const NAME: &'static str = "goldilocks";
    const SOUND: bool = true;
    fn coset(rng: &mut Rng) -> u64 {
        *rng.pick(&[7, 7, 7u64.pow(3), 7u64.pow(5), 7u64.pow(7)])
    }
}
impl Field for lambdaworks_math::field::fields::u64_prime_field::F17 {
    const NAME: &'static str = "f17";
    const SOUND: bool = false;
    fn coset(_: &mut Rng) -> u64 {
        3
    }
}

pub fn elem<G: IsFFTField>(rng: &mut Rng) -> E<G> {
    match rng.below(5) {
        0 => E::from(rng.below(4) as u64),
        1 => -E::<G>::from(rng.below(3) as u64),
        _ => {
            // more than 64 bits where the field has them
            let mut x = E::<G>::from(rng.u64());
            for _ in 0..3 {
                x = x * E::from(1 << 32) * E::from(1 << 32) + E::from(rng.u64());
            }
            x
        }
    }
}

pub fn table<G: IsFFTField>(cols: &[Vec<E<G>>]) -> TraceTable<G> {
    TraceTable::new_from_cols(cols)
}

pub fn text<G: IsFFTField>(x: &E<G>) -> String
where
    FieldElement<G>: ByteConversion,
{
    x.to_bytes_be().iter().map(|b| format!("{b:02x}")).collect::<String>().trim_start_matches('0').to_string()
}

/// One instance of a shipped computation.
pub struct Instance<A: AIR> {
    pub name: &'static str,
    pub brief: Value,
    pub pubs: A::PublicInputs,
    /// What the builder makes, and what it should make.
    pub built: Result<TraceTable<A::Field>, String>,
    pub cols: Table<A::Field>,
    /// Does this trace satisfy the computation with these public inputs?
    pub holds: Box<dyn Fn(&Table<A::Field>, &A::PublicInputs) -> bool>,
    /// Other public inputs, and whether a proof for the built trace is to be rejected under them.
    pub others: Vec<(String, A::PublicInputs)>,
    /// The same computation begun with other values.
    pub elsewhere: Table<A::Field>,
}

fn fib<G: IsFFTField>(a: &E<G>, b: &E<G>, n: usize) -> Vec<E<G>> {
    let mut v = vec![a.clone(), b.clone()];
    while v.len() < n {
        v.push(&v[v.len() - 1] + &v[v.len() - 2]);
    }
    v
}

fn is_fib<G: IsFFTField>(v: &[E<G>]) -> bool {
    v.windows(3).all(|w| &w[0] + &w[1] == w[2])
}

fn other<G: IsFFTField>(rng: &mut Rng, x: &E<G>) -> E<G> {
    loop {
        let y = match rng.below(4) {
            0 => x + E::one(),
            1 => -x.clone(),
            _ => elem(rng),
        };
        if &y != x {
            return y;
        }
    }
}

pub fn simple<G: Field>(rng: &mut Rng, log_n: usize) -> Instance<FibonacciAIR<G>>
where
    FieldElement<G>: ByteConversion,
{
    let n = 1 << log_n.max(1);
    let (a, b) = (elem::<G>(rng), elem::<G>(rng));
    let (a2, b2) = (other(rng, &a), other(rng, &b));
    let p = |a: &E<G>, b: &E<G>| FibonacciPublicInputs { a0: a.clone(), a1: b.clone() };
    Instance {
        name: "fibonacci",
        brief: json!({"a0": text(&a), "a1": text(&b), "n": n}),
        built: guard(|| fibonacci_trace([a.clone(), b.clone()], n)),
        cols: vec![fib(&a, &b, n)],
        holds: Box::new(|c, p| c[0][0] == p.a0 && c[0][1] == p.a1 && is_fib(&c[0])),
        others: vec![
            ("a0".into(), p(&a2, &b)),
            ("a1".into(), p(&a, &b2)),
            ("both".into(), p(&a2, &b2)),
            ("exchanged".into(), p(&b, &a)),
        ],
        elsewhere: match rng.below(3) {
            0 => vec![fib(&a2, &b, n)],
            1 => vec![fib(&a, &b2, n)],
            _ => vec![fib(&a2, &b2, n)],
        },
        pubs: p(&a, &b),
    }
}

pub fn two_columns<G: Field>(rng: &mut Rng, log_n: usize) -> Instance<Fibonacci2ColsAIR<G>>
where
    FieldElement<G>: ByteConversion,
{
    let n = 1 << log_n;
    let (a, b) = (elem::<G>(rng), elem::<G>(rng));
    let (a2, b2) = (other(rng, &a), other(rng, &b));
    let p = |a: &E<G>, b: &E<G>| FibonacciPublicInputs { a0: a.clone(), a1: b.clone() };
    let split = |v: Vec<E<G>>| -> Table<G> { (0..2).map(|k| v.iter().skip(k).step_by(2).cloned().collect()).collect() };
    Instance {
        name: "fibonacci in two columns",
        brief: json!({"a0": text(&a), "a1": text(&b), "n": n}),
        built: guard(|| fibonacci_trace_2_columns([a.clone(), b.clone()], n)),
        cols: split(fib(&a, &b, 2 * n)),
        holds: Box::new(|c, p| {
            let flat: Vec<E<G>> = c[0].iter().zip(&c[1]).flat_map(|(x, y)| [x.clone(), y.clone()]).collect();
            flat[0] == p.a0 && flat[1] == p.a1 && is_fib(&flat)
        }),
        others: vec![
            ("a0".into(), p(&a2, &b)),
            ("a1".into(), p(&a, &b2)),
            ("both".into(), p(&a2, &b2)),
            ("exchanged".into(), p(&b, &a)),
        ],
        elsewhere: match rng.below(3) {
            0 => split(fib(&a2, &b, 2 * n)),
            1 => split(fib(&a, &b2, 2 * n)),
            _ => split(fib(&a2, &b2, 2 * n)),
        },
        pubs: p(&a, &b),
    }
}

pub fn quadratic<G: Field>(rng: &mut Rng, log_n: usize) -> Instance<QuadraticAIR<G>>
where
    FieldElement<G>: ByteConversion,
{
    let n = 1 << log_n;
    let a = elem::<G>(rng);
    let a2 = other(rng, &a);
    let squares = |a: &E<G>| {
        let mut v = vec![a.clone()];
        while v.len() < n {
            let x = v.last().unwrap();
            v.push(x * x);
        }
        vec![v]
    };
    Instance {
        name: "squares",
        brief: json!({"a0": text(&a), "n": n}),
        built: guard(|| quadratic_trace(a.clone(), n)),
        cols: squares(&a),
        holds: Box::new(|c, p| c[0][0] == p.a0 && c[0].windows(2).all(|w| &w[0] * &w[0] == w[1])),
        others: vec![("a0".into(), QuadraticPublicInputs { a0: a2.clone() })],
        elsewhere: squares(&a2),
        pubs: QuadraticPublicInputs { a0: a },
    }
}

pub fn dummy(rng: &mut Rng, log_n: usize) -> Instance<DummyAIR> {
    type G = crate::progair::F;
    let n = 1 << log_n.max(1);
    let one = E::<G>::one();
    Instance {
        name: "bits and fibonacci",
        brief: json!({"n": n}),
        built: guard(|| dummy_trace::<G>(n)),
        cols: vec![vec![one.clone(); n], fib(&one, &one, n)],
        holds: Box::new(|c, _| {
            let one = E::<G>::one();
            c[0].iter().all(|x| *x == one || *x == E::zero()) && c[1][0] == one && c[1][1] == one && is_fib(&c[1])
        }),
        others: vec![],
        elsewhere: {
            let (a2, b2) = (other(rng, &one), other(rng, &one));
            let bits = vec![one.clone(); n];
            match rng.below(3) {
                0 => vec![bits, fib(&a2, &one, n)],
                1 => vec![bits, fib(&one, &b2, n)],
                _ => vec![bits, fib(&a2, &b2, n)],
            }
        },
        pubs: (),
    }
}

pub const RAP: &str = "fibonacci with a permuted copy";

fn rap_cols<G: IsFFTField>(a: &E<G>, b: &E<G>, steps: usize) -> Table<G> {
    let rows = (steps + 1).next_power_of_two();
    let mut f = fib(a, b, steps);
    let mut g = f.clone();
    g.swap(0, steps - 1);
    f.resize(rows, E::zero());
    g.resize(rows, E::zero());
    vec![f, g]
}

/// Fibonacci with a second column that is a permutation of the first (the last row, which the
/// running product does not reach, excepted).
///
/// Two known findings are about it: initial values other than one, and copies that are no permutation.
pub fn rap<G: Field>(rng: &mut Rng, steps: usize, any_values: bool) -> Instance<FibonacciRAP<G>>
where
    FieldElement<G>: ByteConversion,
{
    let steps = steps.max(2);
    let (a, b) = if any_values { (elem::<G>(rng), elem::<G>(rng)) } else { (E::one(), E::one()) };
    let (a2, b2) = (other(rng, &a), other(rng, &b));
    let p = |steps: usize, a: &E<G>, b: &E<G>| FibonacciRAPPublicInputs { steps, a0: a.clone(), a1: b.clone() };
    Instance {
        name: RAP,
        brief: json!({"a0": text(&a), "a1": text(&b), "steps": steps}),
        built: guard(|| fibonacci_rap_trace([a.clone(), b.clone()], steps)),
        cols: rap_cols(&a, &b, steps),
        holds: Box::new(|c, p| {
            let bag = |v: &[E<G>]| {
                let mut b: Vec<Vec<u8>> = v[..v.len() - 1].iter().map(|x| x.to_bytes_be()).collect();
                b.sort();
                b
            };
            c[0][0] == p.a0 && c[0][1] == p.a1 && is_fib(&c[0][..p.steps.min(c[0].len())]) && bag(&c[0]) == bag(&c[1])
        }),
        others: vec![
            ("a0".into(), p(steps, &a2, &b)),
            ("a1".into(), p(steps, &a, &b2)),
            ("both".into(), p(steps, &a2, &b2)),
            ("exchanged".into(), p(steps, &b, &a)),
            ("a step more".into(), p(steps + 1, &a, &b)),
            ("a step less".into(), p(steps - 1, &a, &b)),
            ("twice the steps".into(), p(2 * steps, &a, &b)),
        ],
        elsewhere: match rng.below(3) {
            0 => rap_cols(&a2, &b, steps),
            1 => rap_cols(&a, &b2, steps),
            _ => rap_cols(&a2, &b2, steps),
        },
        pubs: p(steps, &a, &b),
    }
}

/// A trace that differs from the given one, and how.
fn deviation<G: IsFFTField>(rng: &mut Rng, cols: &Table<G>, elsewhere: &Table<G>) -> (String, Table<G>) {
    let (w, n) = (cols.len(), cols[0].len());
    let mut c = cols.clone();
    let row = |rng: &mut Rng| match rng.below(6) {
        0 => 0,
        1 => 1 % n,
        2 => n - 1,
        3 => n.saturating_sub(2),
        _ => rng.below(n),
    };
    let how = match rng.below(9) {
        0..=2 => {
            let (k, i) = (rng.below(w), row(rng));
            c[k][i] = other(rng, &c[k][i].clone());
            format!("cell {k},{i}")
        }
        3 => {
            let (k, i, j) = (rng.below(w), row(rng), row(rng));
            c[k].swap(i, j);
            format!("rows {i} and {j} of column {k} exchanged")
        }
        4 => {
            // the sequence goes on from a wrong value
            let (k, i) = (rng.below(w), row(rng));
            for j in i..n {
                c[k][j] = &c[k][j] + E::from(1 + (j - i) as u64);
            }
            format!("column {k} wrong from row {i} on")
        }
        5 => {
            let i = row(rng);
            for col in c.iter_mut() {
                let x = other(rng, &col[i].clone());
                col[i] = x;
            }
            format!("whole row {i}")
        }
        6 => {
            let (i, x) = (row(rng), elem::<G>(rng));
            for col in c.iter_mut() {
                col[i] = x.clone();
            }
            format!("one value across row {i}")
        }
        7 => {
            let k = rng.below(w);
            let b = if rng.chance(1, 2) { E::zero() } else { E::one() };
            let i = row(rng);
            c[k][i] = b;
            format!("a bit at {k},{i}")
        }
        _ => {
            c = elsewhere.clone();
            "begun with other values".into()
        }
    };
    (how, c)
}

pub fn options<G: Field>(rng: &mut Rng, n: usize, max_lde: usize) -> Opts
where
    FieldElement<G>: ByteConversion,
{
    let fits: Vec<u8> = [2u8, 4, 8, 16].into_iter().filter(|b| *b as usize * n <= max_lde || *b <= 2).collect();
    Opts {
        blowup: *rng.pick(&fits),
        queries: rng.range(10, 20),
        coset: G::coset(rng),
        grinding: rng.below(5) as u8,
    }
}

/// Runs one instance: builder, completeness, deviating traces, other public inputs.
/// Sections are chosen by the caller: C01 wants the first two, C02 the third, C04 the last.
#[derive(Default)]
pub struct Sections {
    pub honest: bool,
    /// Encode and decode the proof (its elements may take fewer than 32 bytes).
    pub codec: bool,
    pub deviations: usize,
    pub others: bool,
    /// Go where the known findings about the permuted copy are.
    pub findings: bool,
}

pub fn exercise<A>(ck: &mut Check, rng: &mut Rng, x: &Instance<A>, o: &Opts, s: &Sections)
where
    A: AIR + Send + Sync,
    A::RAPChallenges: Send + Sync,
    A::Field: Field,
    FieldElement<A::Field>: ByteConversion + Send + Sync,
{
    let f = <A::Field as Field>::NAME;
    let d = || json!({"computation": x.name, "field": f, "instance": x.brief, "options": o.json()});
    ck.begin(&d().to_string());
    let opts = o.real();
    let run = |c: &Table<A::Field>| -> Result<Option<StarkProof<A::Field>>, String> {
        let t = table(c);
        guard(|| prove::<A::Field, A>(&t, &x.pubs, &opts).ok())
    };
    let ask = |p: &StarkProof<A::Field>, i: &A::PublicInputs| guard(|| verify::<A::Field, A>(p, i, &opts));
    if s.honest {
        match &x.built {
            Ok(t) => {
                ck.expect(t.cols() == x.cols, "builder-differs", d);
                ck.count("traces built", 1);
            }
            Err(p) => ck.violation("builder-panics", json!({"case": d(), "panic": p})),
        }
    }
    let honest = match run(&x.cols) {
        Ok(Some(p)) => p,
        r => {
            ck.violation("shipped-not-provable", json!({"case": d(), "result": r.err()}));
            return;
        }
    };
    let v = ask(&honest, &x.pubs);
    let one = E::<A::Field>::one();
    if x.name == RAP && (x.cols[0][0] != one || x.cols[0][1] != one) && v == Ok(false) {
        ck.violation("rap-initial-values", json!({"case": d(), "what": "its proof is rejected"}));
        return;
    }
    ck.expect(v == Ok(true), "shipped-proof-rejected", || json!({"case": d(), "verdict": format!("{v:?}")}));
    ck.count("shipped computations proved", 1);
    ck.eval(format!("{}", d()).as_bytes(), true);
    ck.sample(d());
    if s.codec {
        match guard(|| StarkProof::<A::Field>::deserialize(&honest.serialize()).map_err(|e| format!("{e:?}"))) {
            Ok(Ok(q)) => {
                let b = honest.serialize();
                let same = difference(&honest, &q).is_none() && q.serialize() == b;
                ck.expect(same, "shipped-proof-not-restored", || json!({"case": d(), "differs": difference(&honest, &q)}));
                ck.expect(ask(&q, &x.pubs) == v, "verdict", d);
                for _ in 0..3 {
                    let k = rng.below(b.len());
                    let r = guard(|| StarkProof::<A::Field>::deserialize(&b[..k]).is_ok());
                    ck.expect(r == Ok(false), "shipped-proof-prefix-decodes", || json!({"case": d(), "of": b.len(), "cut": k, "result": format!("{r:?}")}));
                }
            }
            r => ck.violation("shipped-proof-does-not-decode", json!({"case": d(), "result": format!("{:?}", r.map(|r| r.err()))})),
        }
        ck.count("proofs of shipped computations encoded and decoded", 1);
    }
    if <A::Field as Field>::SOUND {
        for _ in 0..s.deviations {
            let (how, c) = deviation(rng, &x.cols, &x.elsewhere);
            let e = || json!({"case": d(), "deviation": how});
            let valid = (x.holds)(&c, &x.pubs);
            // only the second column is wrong
            let copy = x.name == RAP && !valid && (x.holds)(&vec![c[0].clone(), c[0].clone()], &x.pubs);
            if copy && !s.findings {
                continue;
            }
            match run(&c) {
                Ok(Some(p)) => {
                    let v = ask(&p, &x.pubs);
                    if copy && v == Ok(true) {
                        ck.violation("rap-any-copy", json!({"case": e()}));
                        continue;
                    }
                    ck.expect(v == Ok(valid), if valid { "shipped-valid-rejected" } else { "shipped-deviation-accepted" }, || json!({"case": e(), "verdict": format!("{v:?}")}));
                }
                r => {
                    ck.expect(!valid, "shipped-not-provable", || json!({"case": e(), "result": r.err()}));
                }
            }
            ck.count(if valid { "deviating traces that satisfy it" } else { "deviating traces that do not" }, 1);
            ck.eval(format!("{}{how}", d()).as_bytes(), true);
        }
        if s.others {
            for (how, i) in &x.others {
                // another number of steps excuses other rows: every constraint that is not zero
                // on all rows, the end of the trace included, then has another quotient
                let idle = x.cols.iter().flatten().all(|v| *v == E::zero());
                if if how.contains("step") { idle } else { (x.holds)(&x.cols, i) } {
                    continue;
                }
                let e = || json!({"case": d(), "other public input": how});
                let values = x.name == RAP && !how.contains("step");
                if values && !s.findings {
                    continue;
                }
                // more steps than rows: see the finding rap-short-claim of C06
                if how == "twice the steps" && 2 * x.brief["steps"].as_u64().unwrap() as usize > x.cols[0].len() + 2 {
                    continue;
                }
                let v = ask(&honest, i);
                if values && v == Ok(true) {
                    ck.violation("rap-initial-values", json!({"case": e(), "what": "a proof is accepted under others"}));
                    continue;
                }
                ck.expect(v == Ok(false), "shipped-other-input-accepted", || json!({"case": e(), "verdict": format!("{v:?}")}));
                ck.count("other public inputs", 1);
                ck.eval(format!("{}{how}o", d()).as_bytes(), true);
            }
        }
    }
}

/// One of each computation over each field.
pub fn round(ck: &mut Check, rng: &mut Rng, i: usize, max_log: usize, max_lde: usize, s: &Sections) {
    use lambdaworks_math::field::fields::u64_prime_field::{Goldilocks, F17};
    fn over<G: Field>(ck: &mut Check, rng: &mut Rng, max_log: usize, max_lde: usize, s: &Sections)
    where
        FieldElement<G>: ByteConversion + Send + Sync,
    {
        let l = rng.range(0, max_log);
        let x = simple::<G>(rng, l);
        let o = options::<G>(rng, x.cols[0].len(), max_lde);
        exercise(ck, rng, &x, &o, s);
        let x = two_columns::<G>(rng, l);
        let o = options::<G>(rng, x.cols[0].len(), max_lde);
        exercise(ck, rng, &x, &o, s);
        let x = quadratic::<G>(rng, l);
        let o = options::<G>(rng, x.cols[0].len(), max_lde);
        exercise(ck, rng, &x, &o, s);
        let steps = rng.range(2, (1 << max_log) - 1);
        let any = s.findings && rng.chance(1, 3);
        let x = rap::<G>(rng, steps, any);
        let o = options::<G>(rng, x.cols[0].len(), max_lde);
        exercise(ck, rng, &x, &o, s);
    }
    over::<crate::progair::F>(ck, rng, max_log, max_lde, s);
    let l = rng.range(0, max_log);
    let x = dummy(rng, l);
    let o = options::<crate::progair::F>(rng, x.cols[0].len(), max_lde);
    exercise(ck, rng, &x, &o, s);
    if i % 2 == 0 {
        over::<Goldilocks>(ck, rng, max_log, max_lde, s);
    }
    if s.honest {
        // in a field of 17 elements the evaluation domain must leave room
        let l = rng.range(1, 2);
        let x = simple::<F17>(rng, l);
        let mut o = options::<F17>(rng, x.cols[0].len(), 8);
        o.blowup = if l == 1 { o.blowup.min(4) } else { 2 };
        exercise(ck, rng, &x, &o, s);
        let x = two_columns::<F17>(rng, l);
        exercise(ck, rng, &x, &o, s);
    }
}
