#![allow(dead_code, unused_imports)]
//! A small computation given by lists of constraints and assertions.
pub use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
pub use lambdaworks_math::field::element::FieldElement;
pub use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
pub use lambdaworks_math::traits::{ByteConversion, Deserializable, Serializable};
pub use lambdaworks_stark::starks::constraints::boundary::{BoundaryConstraint, BoundaryConstraints};
pub use lambdaworks_stark::starks::context::AirContext;
pub use lambdaworks_stark::starks::frame::Frame;
pub use lambdaworks_stark::starks::proof::options::ProofOptions;
pub use lambdaworks_stark::starks::proof::stark::StarkProof;
pub use lambdaworks_stark::starks::prover::prove;
pub use lambdaworks_stark::starks::trace::TraceTable;
pub use lambdaworks_stark::starks::traits::AIR;
pub use lambdaworks_stark::starks::verifier::verify;

pub type F = Stark252PrimeField;
pub type FE = FieldElement<F>;

/// constraint over the rows of a frame, degree, exempted rows at the end
pub type Con = (fn(&Frame<F>) -> FE, usize, usize);

#[derive(Clone)]
pub struct Spec {
    pub cols: usize,
    pub offsets: Vec<usize>,
    pub cons: Vec<Con>,
    /// column, step, value
    pub asserts: Vec<(usize, usize, FE)>,
    /// the auxiliary column is the product of the first column's cells so far, shifted by a challenge
    pub aux: bool,
}

#[derive(Clone)]
pub struct Mini {
    pub context: AirContext,
    pub n: usize,
    pub spec: Spec,
}

impl AIR for Mini {
    type Field = F;
    type RAPChallenges = FE;
    type PublicInputs = Spec;

    fn new(n: usize, spec: &Spec, o: &ProofOptions) -> Self {
        let (mut degrees, mut exemptions): (Vec<usize>, Vec<usize>) = spec.cons.iter().map(|c| (c.1, c.2)).unzip();
        if spec.aux {
            degrees.push(2);
            exemptions.push(1);
        }
        let mut kinds: Vec<usize> = exemptions.iter().cloned().filter(|e| *e > 0).collect();
        kinds.sort();
        kinds.dedup();
        Mini {
            context: AirContext {
                proof_options: o.clone(),
                trace_columns: spec.cols + spec.aux as usize,
                num_transition_constraints: degrees.len(),
                transition_degrees: degrees,
                transition_exemptions: exemptions,
                transition_offsets: spec.offsets.clone(),
                num_transition_exemptions: kinds.len(),
            },
            n,
            spec: spec.clone(),
        }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<F>, c: &FE) -> TraceTable<F> {
        if !self.spec.aux {
            return TraceTable::empty();
        }
        let mut acc = FE::one();
        let mut v = vec![];
        for k in 0..main.n_rows() {
            v.push(acc.clone());
            acc = acc * (&main.get_row(k)[0] + c);
        }
        TraceTable::new_from_cols(&[v])
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> FE {
        if self.spec.aux {
            lambdaworks_stark::starks::transcript::transcript_to_field(t)
        } else {
            FE::zero()
        }
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.spec.aux as usize
    }
    fn composition_poly_degree_bound(&self) -> usize {
        2 * self.n
    }
    fn compute_transition(&self, f: &Frame<F>, c: &FE) -> Vec<FE> {
        let mut v: Vec<FE> = self.spec.cons.iter().map(|k| (k.0)(f)).collect();
        if self.spec.aux {
            let (a, b) = (f.get_row(0), f.get_row(1));
            v.push(&b[self.spec.cols] - &a[self.spec.cols] * (&a[0] + c));
        }
        v
    }
    fn boundary_constraints(&self, _: &FE) -> BoundaryConstraints<F> {
        let mut v: Vec<_> = self.spec.asserts.iter().map(|(c, s, x)| BoundaryConstraint::new(*c, *s, x.clone())).collect();
        if self.spec.aux {
            v.push(BoundaryConstraint::new(self.spec.cols, 0, FE::one()));
        }
        BoundaryConstraints::from_constraints(v)
    }
    fn context(&self) -> &AirContext {
        &self.context
    }
    fn trace_length(&self) -> usize {
        self.n
    }
    fn pub_inputs(&self) -> &Spec {
        &self.spec
    }
}

pub fn fe(x: u64) -> FE {
    FE::from(x)
}

pub fn options(blowup: u8, queries: usize, grinding: u8) -> ProofOptions {
    ProofOptions { blowup_factor: blowup, fri_number_of_queries: queries, coset_offset: 3, grinding_factor: grinding }
}

/// Fibonacci in one column.
pub fn fibonacci(n: usize) -> (Spec, Vec<Vec<FE>>) {
    let mut v = vec![fe(1), fe(1)];
    for k in 2..n {
        v.push(&v[k - 1] + &v[k - 2]);
    }
    let con: Con = (|f| &f.get_row(2)[0] - &f.get_row(1)[0] - &f.get_row(0)[0], 1, 2);
    let last = v[n - 1].clone();
    (Spec { cols: 1, offsets: vec![0, 1, 2], cons: vec![con], asserts: vec![(0, 0, fe(1)), (0, 1, fe(1)), (0, n - 1, last)], aux: false }, vec![v])
}

pub fn proof_of(spec: &Spec, cols: &[Vec<FE>], o: &ProofOptions) -> StarkProof<F> {
    prove::<F, Mini>(&TraceTable::new_from_cols(cols), spec, o).expect("a proof")
}
pub fn accepts(p: &StarkProof<F>, spec: &Spec, o: &ProofOptions) -> bool {
    verify::<F, Mini>(p, spec, o)
}
