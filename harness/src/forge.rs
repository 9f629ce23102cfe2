//! A Cairo prover whose auxiliary trace is whatever a cheater wants: main trace and constraints
//! are the real ones, the verifier is the real verifier.
use crate::cairoair::*;
use crate::rng::Rng;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use lambdaworks_stark::cairo::air::{verify_cairo_proof, CairoAIR, CairoRAPChallenges, PublicInputs};
use lambdaworks_stark::starks::constraints::boundary::BoundaryConstraints;
use lambdaworks_stark::starks::context::AirContext;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use lambdaworks_stark::starks::prover::prove;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::{PrimeField, FE};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Memory {
    /// As an honest prover would sort it.
    Honest,
    /// Only the accesses of the trace, in order.
    Own,
    /// As many dummy accesses replaced by the trace's own values of the public cells.
    OwnPublic,
    /// The public memory in place, cells with two values left out of it.
    Reconciled,
    /// One value per cell, the first one.
    First,
    /// Continuous addresses enforced by repeating and dropping.
    Squeezed,
    /// Honest, with the order broken at one place.
    Jump(usize),
    /// What would give a cell its second value, or exceed the range, is put out of order there.
    Stash(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Start {
    One,
    /// The value that makes the end come out right.
    Fitting,
    Zero,
    /// Corrected somewhere in the middle (the products jump in one row).
    Patched(usize),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub pi: PublicInputs,
    pub memory: Memory,
    pub start: Start,
    pub offsets: Memory,
    pub rc_start: Start,
    /// Fix row 0 the way the first assertions of the memory argument want it.
    pub first: bool,
}

#[derive(Clone)]
pub struct ForgeAir {
    inner: CairoAIR,
    plan: Arc<Plan>,
}

fn squeeze(v: &mut Vec<(FE, FE)>) {
    // makes neighbours differ by at most one in the address, keeping as many entries as possible
    let n = v.len();
    let mut out = vec![v[0].clone()];
    for x in v.iter().skip(1) {
        let d = &x.0 - &out.last().unwrap().0;
        if d == FE::zero() {
            if x.1 == out.last().unwrap().1 {
                out.push(x.clone());
            }
        } else {
            let mut next = &out.last().unwrap().0 + FE::one();
            while next != x.0 && out.len() < n {
                out.push((next.clone(), FE::zero()));
                next = next + FE::one();
            }
            out.push(x.clone());
        }
        if out.len() >= n {
            break;
        }
    }
    out.truncate(n);
    while out.len() < n {
        out.push(out.last().unwrap().clone());
    }
    *v = out;
}

fn one_value_each(v: &mut [(FE, FE)]) {
    for i in 1..v.len() {
        if v[i].0 == v[i - 1].0 {
            v[i].1 = v[i - 1].1.clone();
        }
    }
}

pub fn plan_memory(main: &Rows, pi: &PublicInputs, m: Memory) -> Vec<(FE, FE)> {
    let zero = (FE::zero(), FE::zero());
    let honest = || {
        sorted_memory(main, pi).unwrap_or_else(|| {
            let mut v = accesses(main);
            sort_by_address(&mut v);
            v
        })
    };
    match m {
        Memory::Honest => honest(),
        Memory::Own => {
            let mut v = accesses(main);
            sort_by_address(&mut v);
            v
        }
        Memory::OwnPublic | Memory::Reconciled => {
            let own = accesses(main);
            let mut v = own.clone();
            for (a, x) in public_sorted(pi) {
                if let Some(p) = v.iter().position(|e| *e == zero) {
                    let mine = own.iter().find(|e| e.0 == a).map(|e| e.1.clone());
                    v[p] = match (m, mine) {
                        (_, Some(y)) => (a, y),
                        (_, None) => (a, x),
                    };
                }
            }
            sort_by_address(&mut v);
            v
        }
        Memory::First => {
            let mut v = honest();
            one_value_each(&mut v);
            v
        }
        Memory::Squeezed => {
            let mut v = honest();
            squeeze(&mut v);
            v
        }
        Memory::Jump(k) => {
            let mut v = honest();
            let k = k % v.len();
            v.rotate_left(k);
            v
        }
        Memory::Stash(k) => {
            let v = honest();
            let (mut keep, mut away): (Vec<(FE, FE)>, Vec<(FE, FE)>) = (vec![], vec![]);
            // the value that is zero is the false one
            let two = |a: &FE| v.iter().any(|x| x.0 == *a && x.1 != FE::zero());
            for x in &v {
                if x.1 == FE::zero() && two(&x.0) {
                    away.push(x.clone());
                } else {
                    keep.push(x.clone());
                }
            }
            let zeros = keep.iter().take_while(|x| **x == zero).count();
            if zeros > 1 {
                let at = 1 + k % (zeros - 1);
                keep.splice(at..at, away);
                keep
            } else {
                v
            }
        }
    }
}

pub fn forged_aux(main: &Rows, p: &Plan, ch: &Ch) -> Rows {
    let n = main.len();
    let memory = plan_memory(main, &p.pi, p.memory);
    let mut offs = sorted_offsets(main);
    match p.offsets {
        Memory::Honest => {}
        Memory::Jump(k) => {
            let k = k % offs.len();
            offs.rotate_left(k)
        }
        Memory::Stash(k) => {
            let (lo, hi) = (p.pi.range_check_min.unwrap_or(0) as u64, p.pi.range_check_max.unwrap_or(0) as u64);
            let (mut keep, away): (Vec<FE>, Vec<FE>) =
                offs.iter().cloned().partition(|x| crate::cairo::small(x).map(|x| lo <= x && x <= hi).unwrap_or(false));
            let at = if keep.is_empty() { 0 } else { 1 + k % keep.len() };
            let at = at.min(keep.len());
            keep.splice(at..at, away);
            offs = keep;
        }
        // a proper range from the claimed bounds, whatever the trace says
        _ => {
            let lo = p.pi.range_check_min.unwrap_or(0) as u64;
            let hi = p.pi.range_check_max.unwrap_or(0) as u64;
            let len = offs.len() as u64;
            offs = (0..len).map(|k| FE::from((lo + k).min(hi))).collect();
        }
    }
    let bounds = if p.pi.num_steps == 0 || p.pi.num_steps > n { vec![] } else { boundaries(&p.pi, ch, n) };
    let m = main_cols(has_rc(&p.pi));
    let want = |c: usize, r: usize| bounds.iter().find(|b| b.0 == m + c && b.1 == r).map(|b| b.2.clone()).unwrap_or(FE::one());
    let plain = aux_rows(main, &memory, &offs, ch, &FE::one(), &FE::one());
    let fit = |end: FE, got: FE| if got == FE::zero() { FE::one() } else { end * got.inv() };
    let f = fit(want(A_PERM + 3, n - 1), plain[n - 1][A_PERM + 3].clone());
    let g = fit(FE::one(), plain[n - 1][A_RCPERM + 2].clone());
    let s = match p.start {
        Start::One | Start::Patched(_) => FE::one(),
        Start::Fitting => f.clone(),
        Start::Zero => FE::zero(),
    };
    let r = match p.rc_start {
        Start::One | Start::Patched(_) => FE::one(),
        Start::Fitting => g.clone(),
        Start::Zero => FE::zero(),
    };
    let mut rows = aux_rows(main, &memory, &offs, ch, &s, &r);
    if let Start::Patched(k) = p.start {
        for i in k % (4 * n)..4 * n {
            let x = &mut rows[i / 4][A_PERM + i % 4];
            *x = &*x * &f;
        }
    }
    if let Start::Patched(k) = p.rc_start {
        for i in k % (3 * n)..3 * n {
            let x = &mut rows[i / 3][A_RCPERM + i % 3];
            *x = &*x * &g;
        }
    }
    if p.first {
        rows[0][A_PERM] = want(A_PERM, 0);
    }
    rows
}

impl AIR for ForgeAir {
    type Field = PrimeField;
    type RAPChallenges = CairoRAPChallenges;
    type PublicInputs = Arc<Plan>;

    fn new(n: usize, plan: &Arc<Plan>, o: &ProofOptions) -> Self {
        ForgeAir { inner: CairoAIR::new(n, &plan.pi, o), plan: plan.clone() }
    }
    fn build_auxiliary_trace(&self, main: &TraceTable<PrimeField>, ch: &CairoRAPChallenges) -> TraceTable<PrimeField> {
        table_of(&forged_aux(&rows_of(main), &self.plan, &Ch::of(ch)))
    }
    fn build_rap_challenges<T: Transcript>(&self, t: &mut T) -> CairoRAPChallenges {
        self.inner.build_rap_challenges(t)
    }
    fn number_auxiliary_rap_columns(&self) -> usize {
        self.inner.number_auxiliary_rap_columns()
    }
    fn composition_poly_degree_bound(&self) -> usize {
        self.inner.composition_poly_degree_bound()
    }
    fn compute_transition(&self, f: &Frame<PrimeField>, ch: &CairoRAPChallenges) -> Vec<FE> {
        self.inner.compute_transition(f, ch)
    }
    fn boundary_constraints(&self, ch: &CairoRAPChallenges) -> BoundaryConstraints<PrimeField> {
        self.inner.boundary_constraints(ch)
    }
    fn context(&self) -> &AirContext {
        self.inner.context()
    }
    fn trace_length(&self) -> usize {
        self.inner.trace_length()
    }
    fn pub_inputs(&self) -> &Arc<Plan> {
        &self.plan
    }
}

pub fn prove_forged(main: &Rows, plan: &Arc<Plan>, o: &ProofOptions) -> Option<StarkProof<PrimeField>> {
    crate::report::guard(|| prove::<PrimeField, ForgeAir>(&table_of(main), plan, o).ok()).ok().flatten()
}
pub fn accepted(p: &StarkProof<PrimeField>, pi: &PublicInputs, o: &ProofOptions) -> Result<bool, String> {
    crate::report::guard(|| verify_cairo_proof(p, pi, o))
}

pub fn random_plan(pi: &PublicInputs, rows: usize, rng: &mut Rng) -> Plan {
    // what it takes for a memory or range-check argument that is not tied down at one end
    let base = Plan {
        pi: pi.clone(),
        memory: Memory::Honest,
        start: Start::One,
        offsets: Memory::Honest,
        rc_start: Start::One,
        first: false,
    };
    let ends = |rng: &mut Rng| match rng.below(8) {
        0..=2 => Start::Fitting,
        3 => Start::Patched(3 * rows - 1 - rng.below(4)),
        4 => Start::Patched(4 * rows - 1 - rng.below(4)),
        5 => Start::Patched(1 + rng.below(5)),
        6 => Start::Patched(rng.below(4 * rows)),
        _ => Start::Zero,
    };
    match rng.below(6) {
        5 => return Plan { memory: Memory::Stash(rng.below(4 * rows)), offsets: Memory::Stash(rng.below(3 * rows)), ..base },
        0 | 1 => {
            let memory = *rng.pick(&[Memory::First, Memory::First, Memory::Own, Memory::OwnPublic, Memory::Squeezed]);
            return Plan { memory, start: ends(rng), first: rng.chance(1, 4), ..base };
        }
        2 => return Plan { offsets: Memory::Own, rc_start: ends(rng), ..base },
        _ => {}
    }
    let near_end = |rng: &mut Rng, n: usize| if rng.chance(1, 2) { n - 1 - rng.below(n.min(6)) } else { rng.below(n) };
    let memory = match rng.below(9) {
        0 => Memory::Honest,
        1 | 2 => Memory::Own,
        3 => Memory::OwnPublic,
        4 => Memory::Reconciled,
        5 | 6 => Memory::First,
        7 => Memory::Squeezed,
        _ => Memory::Jump(near_end(rng, 4 * rows)),
    };
    let start = |rng: &mut Rng| match rng.below(6) {
        0 => Start::One,
        1..=3 => Start::Fitting,
        4 => Start::Patched(near_end(rng, 4 * rows)),
        _ => Start::Zero,
    };
    let offsets = match rng.below(4) {
        0 => Memory::Own,
        1 => Memory::Jump(near_end(rng, 3 * rows)),
        _ => Memory::Honest,
    };
    Plan {
        pi: pi.clone(),
        memory,
        start: start(rng),
        offsets,
        rc_start: if offsets == Memory::Honest { Start::One } else { start(rng) },
        first: rng.chance(1, 2),
    }
}
