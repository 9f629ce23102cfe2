//! Taking proofs apart: copies, field-for-field comparison, alterations of every component.
use crate::progair::F;
use crate::rng::Rng;
use lambdaworks_math::field::{element::FieldElement, traits::IsFFTField};
use lambdaworks_crypto::merkle_tree::proof::Proof;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use lambdaworks_stark::cairo::air::{MemorySegment, PublicInputs};
use lambdaworks_stark::FE;

pub type P = StarkProof<F>;
pub type Path = Proof<[u8; 32]>;

/// Rows of a frame, read through its public interface.
pub fn frame_rows<G: IsFFTField>(f: &Frame<G>) -> Vec<Vec<FieldElement<G>>> {
    if f.num_columns() == 0 {
        return vec![];
    }
    (0..f.num_rows()).map(|i| f.get_row(i).to_vec()).collect()
}

pub fn copy(p: &P) -> P {
    StarkProof {
        trace_length: p.trace_length,
        lde_trace_merkle_roots: p.lde_trace_merkle_roots.clone(),
        trace_ood_frame_evaluations: p.trace_ood_frame_evaluations.clone(),
        composition_poly_root: p.composition_poly_root,
        composition_poly_even_ood_evaluation: p.composition_poly_even_ood_evaluation.clone(),
        composition_poly_odd_ood_evaluation: p.composition_poly_odd_ood_evaluation.clone(),
        fri_layers_merkle_roots: p.fri_layers_merkle_roots.clone(),
        fri_last_value: p.fri_last_value.clone(),
        query_list: p.query_list.clone(),
        deep_poly_openings: p.deep_poly_openings.clone(),
        nonce: p.nonce,
    }
}

pub fn same_query<G: IsFFTField>(a: &FriDecommitment<G>, b: &FriDecommitment<G>) -> bool {
    a.layers_auth_paths_sym == b.layers_auth_paths_sym
        && a.layers_evaluations_sym == b.layers_evaluations_sym
        && a.layers_auth_paths == b.layers_auth_paths
        && a.layers_evaluations == b.layers_evaluations
}

pub fn same_opening<G: IsFFTField>(a: &DeepPolynomialOpenings<G>, b: &DeepPolynomialOpenings<G>) -> bool {
    a.lde_composition_poly_proof == b.lde_composition_poly_proof
        && a.lde_composition_poly_even_evaluation == b.lde_composition_poly_even_evaluation
        && a.lde_composition_poly_odd_evaluation == b.lde_composition_poly_odd_evaluation
        && a.lde_trace_merkle_proofs == b.lde_trace_merkle_proofs
        && a.lde_trace_evaluations == b.lde_trace_evaluations
}

/// The first field in which two proofs differ.
pub fn difference<G: IsFFTField>(a: &StarkProof<G>, b: &StarkProof<G>) -> Option<&'static str> {
    if a.trace_length != b.trace_length {
        return Some("trace_length");
    }
    if a.lde_trace_merkle_roots != b.lde_trace_merkle_roots {
        return Some("lde_trace_merkle_roots");
    }
    let dims = |p: &StarkProof<G>| {
        (
            p.trace_ood_frame_evaluations.num_columns(),
            frame_rows(&p.trace_ood_frame_evaluations),
        )
    };
    if dims(a) != dims(b) {
        return Some("trace_ood_frame_evaluations");
    }
    if a.composition_poly_root != b.composition_poly_root {
        return Some("composition_poly_root");
    }
    if a.composition_poly_even_ood_evaluation != b.composition_poly_even_ood_evaluation {
        return Some("composition_poly_even_ood_evaluation");
    }
    if a.composition_poly_odd_ood_evaluation != b.composition_poly_odd_ood_evaluation {
        return Some("composition_poly_odd_ood_evaluation");
    }
    if a.fri_layers_merkle_roots != b.fri_layers_merkle_roots {
        return Some("fri_layers_merkle_roots");
    }
    if a.fri_last_value != b.fri_last_value {
        return Some("fri_last_value");
    }
    if a.query_list.len() != b.query_list.len()
        || !a.query_list.iter().zip(&b.query_list).all(|(x, y)| same_query(x, y))
    {
        return Some("query_list");
    }
    if a.deep_poly_openings.len() != b.deep_poly_openings.len()
        || !a
            .deep_poly_openings
            .iter()
            .zip(&b.deep_poly_openings)
            .all(|(x, y)| same_opening(x, y))
    {
        return Some("deep_poly_openings");
    }
    if a.nonce != b.nonce {
        return Some("nonce");
    }
    None
}

pub fn alter_fe(v: &mut FE, rng: &mut Rng) {
    let old = v.clone();
    while *v == old {
        *v = match rng.below(6) {
            0 => &old + FE::one(),
            1 => &old - FE::one(),
            2 => -old.clone(),
            3 => FE::zero(),
            4 => old.double(),
            _ => rng.fe_big(),
        };
    }
}

pub fn alter_bytes(v: &mut [u8; 32], rng: &mut Rng) {
    let i = rng.below(32);
    match rng.below(3) {
        0 => v[i] ^= 1 << rng.below(8),
        1 => v[i] = v[i].wrapping_add(1),
        _ => {
            let old = *v;
            while *v == old {
                *v = rng.bytes32();
            }
        }
    }
}

fn alter_list<T: Clone>(v: &mut Vec<T>, rng: &mut Rng) -> &'static str {
    match (rng.below(5), v.len()) {
        (0, l) if l > 0 => {
            let i = rng.below(l);
            v.remove(i);
            "removed"
        }
        (1, l) if l > 0 => {
            let x = v[rng.below(l)].clone();
            let at = rng.below(l + 1);
            v.insert(at, x);
            "duplicated"
        }
        (2, l) if l > 1 => {
            let i = rng.below(l);
            let j = (i + 1 + rng.below(l - 1)) % l;
            v.swap(i, j);
            "swapped"
        }
        (3, l) if l > 1 => {
            v.rotate_left(1 + rng.below(l - 1));
            "rotated"
        }
        (_, l) if l > 0 => {
            v.pop();
            "truncated"
        }
        _ => "unchanged",
    }
}

pub const COMPONENTS: usize = 30;

/// Alters one component; returns its name. The proof may come out equal (say, two equal
/// entries swapped): compare with `difference`.
pub fn alter(p: &mut P, which: usize, rng: &mut Rng) -> String {
    let q = p.query_list.len().max(1);
    let qi = rng.below(q);
    let path = |paths: &mut Vec<Path>, rng: &mut Rng| -> String {
        if paths.is_empty() {
            return "no path".into();
        }
        let k = rng.below(paths.len());
        let n = paths[k].merkle_path.len();
        if n == 0 {
            paths[k].merkle_path.push(rng.bytes32());
            return "node added".into();
        }
        match rng.below(4) {
            0 => format!("nodes {}", alter_list(&mut paths[k].merkle_path, rng)),
            _ => {
                let i = rng.below(n);
                alter_bytes(&mut paths[k].merkle_path[i], rng);
                format!("layer {k} node {i}")
            }
        }
    };
    let one = |v: &mut Vec<FE>, rng: &mut Rng| -> String {
        if v.is_empty() {
            return "none".into();
        }
        let k = rng.below(v.len());
        alter_fe(&mut v[k], rng);
        format!("{k}")
    };
    match which {
        0 => {
            p.trace_length = match rng.below(5) {
                0 => p.trace_length * 2,
                1 => p.trace_length / 2,
                2 => p.trace_length + 1,
                3 => 0,
                _ => p.trace_length * 4,
            };
            "trace_length".into()
        }
        1 => {
            let i = rng.below(p.lde_trace_merkle_roots.len());
            alter_bytes(&mut p.lde_trace_merkle_roots[i], rng);
            format!("trace root {i}")
        }
        2 => format!("trace roots {}", alter_list(&mut p.lde_trace_merkle_roots, rng)),
        3 | 4 => {
            let mut rows = frame_rows(&p.trace_ood_frame_evaluations);
            let w = p.trace_ood_frame_evaluations.num_columns();
            let (r, c) = (rng.below(rows.len()), rng.below(w));
            alter_fe(&mut rows[r][c], rng);
            p.trace_ood_frame_evaluations = Frame::new(rows.concat(), w);
            format!("OOD frame row {r} column {c}")
        }
        5 => {
            let mut rows = frame_rows(&p.trace_ood_frame_evaluations);
            let w = p.trace_ood_frame_evaluations.num_columns();
            let how = alter_list(&mut rows, rng);
            p.trace_ood_frame_evaluations = Frame::new(rows.concat(), w);
            format!("OOD frame rows {how}")
        }
        6 => {
            let rows = frame_rows(&p.trace_ood_frame_evaluations);
            let w = p.trace_ood_frame_evaluations.num_columns();
            let mut data = rows.concat();
            let how = alter_list(&mut data, rng);
            p.trace_ood_frame_evaluations = Frame::new(data, w);
            format!("OOD frame cells {how}")
        }
        7 => {
            alter_bytes(&mut p.composition_poly_root, rng);
            "composition root".into()
        }
        8 => {
            alter_fe(&mut p.composition_poly_even_ood_evaluation, rng);
            "even OOD evaluation".into()
        }
        9 => {
            alter_fe(&mut p.composition_poly_odd_ood_evaluation, rng);
            "odd OOD evaluation".into()
        }
        10 => {
            std::mem::swap(
                &mut p.composition_poly_even_ood_evaluation,
                &mut p.composition_poly_odd_ood_evaluation,
            );
            "even and odd OOD evaluations swapped".into()
        }
        11 => {
            let i = rng.below(p.fri_layers_merkle_roots.len());
            alter_bytes(&mut p.fri_layers_merkle_roots[i], rng);
            format!("FRI root {i}")
        }
        12 => format!("FRI roots {}", alter_list(&mut p.fri_layers_merkle_roots, rng)),
        13 => {
            alter_fe(&mut p.fri_last_value, rng);
            "FRI last value".into()
        }
        14 => format!("queries {}", alter_list(&mut p.query_list, rng)),
        15 => format!("openings {}", alter_list(&mut p.deep_poly_openings, rng)),
        16 => format!("query {qi} evaluation {}", one(&mut p.query_list[qi].layers_evaluations, rng)),
        17 => format!(
            "query {qi} symmetric evaluation {}",
            one(&mut p.query_list[qi].layers_evaluations_sym, rng)
        ),
        18 => format!("query {qi} path {}", path(&mut p.query_list[qi].layers_auth_paths, rng)),
        19 => format!(
            "query {qi} symmetric path {}",
            path(&mut p.query_list[qi].layers_auth_paths_sym, rng)
        ),
        20 => format!(
            "query {qi} evaluations {}",
            alter_list(&mut p.query_list[qi].layers_evaluations, rng)
        ),
        21 => format!(
            "query {qi} symmetric evaluations {}",
            alter_list(&mut p.query_list[qi].layers_evaluations_sym, rng)
        ),
        22 => format!(
            "query {qi} paths {}",
            alter_list(&mut p.query_list[qi].layers_auth_paths, rng)
        ),
        23 => format!(
            "query {qi} symmetric paths {}",
            alter_list(&mut p.query_list[qi].layers_auth_paths_sym, rng)
        ),
        24 => {
            let o = &mut p.deep_poly_openings[qi];
            let mut paths = vec![o.lde_composition_poly_proof.clone()];
            let s = path(&mut paths, rng);
            o.lde_composition_poly_proof = paths.pop().unwrap();
            format!("opening {qi} composition path {s}")
        }
        25 => {
            let o = &mut p.deep_poly_openings[qi];
            match rng.below(3) {
                0 => alter_fe(&mut o.lde_composition_poly_even_evaluation, rng),
                1 => alter_fe(&mut o.lde_composition_poly_odd_evaluation, rng),
                _ => std::mem::swap(
                    &mut o.lde_composition_poly_even_evaluation,
                    &mut o.lde_composition_poly_odd_evaluation,
                ),
            }
            format!("opening {qi} composition evaluation")
        }
        26 => format!(
            "opening {qi} trace path {}",
            path(&mut p.deep_poly_openings[qi].lde_trace_merkle_proofs, rng)
        ),
        27 => format!(
            "opening {qi} trace paths {}",
            alter_list(&mut p.deep_poly_openings[qi].lde_trace_merkle_proofs, rng)
        ),
        28 => format!(
            "opening {qi} trace evaluation {}",
            one(&mut p.deep_poly_openings[qi].lde_trace_evaluations, rng)
        ),
        29 => {
            if rng.chance(1, 2) {
                p.nonce = match rng.below(3) {
                    0 => p.nonce.wrapping_add(1),
                    1 => p.nonce ^ (1 << rng.below(64)),
                    _ => rng.u64(),
                };
                "nonce".into()
            } else {
                format!(
                    "opening {qi} trace evaluations {}",
                    alter_list(&mut p.deep_poly_openings[qi].lde_trace_evaluations, rng)
                )
            }
        }
        _ => unreachable!(),
    }
}

/// Trace lengths whose domains fit the machine, or that no machine could hold.
pub fn length(rng: &mut Rng) -> usize {
    match rng.below(8) {
        0 => 0,
        1 => 1,
        2 => rng.below(64),
        3 => 1 << rng.below(15),
        4 => rng.below(1 << 14),
        5 => 1 << 63,
        6 => usize::MAX - rng.below(64),
        // not a power of two: never a domain
        _ => ((rng.u64() as usize) << 1) | 3,
    }
}

pub fn list<T>(rng: &mut Rng, most: usize, f: impl Fn(&mut Rng) -> T) -> Vec<T> {
    let n = match rng.below(4) {
        0 => 0,
        1 => 1,
        _ => rng.below(most + 1),
    };
    (0..n).map(|_| f(rng)).collect()
}
pub fn path(rng: &mut Rng) -> Path {
    Proof { merkle_path: list(rng, 9, |r| r.bytes32()) }
}
pub fn decommitment(rng: &mut Rng) -> FriDecommitment<F> {
    FriDecommitment {
        layers_auth_paths_sym: list(rng, 6, path),
        layers_evaluations_sym: list(rng, 6, |r| r.fe()),
        layers_auth_paths: list(rng, 6, path),
        layers_evaluations: list(rng, 6, |r| r.fe()),
    }
}
pub fn opening(rng: &mut Rng) -> DeepPolynomialOpenings<F> {
    DeepPolynomialOpenings {
        lde_composition_poly_proof: path(rng),
        lde_composition_poly_even_evaluation: rng.fe(),
        lde_composition_poly_odd_evaluation: rng.fe(),
        lde_trace_merkle_proofs: list(rng, 3, path),
        lde_trace_evaluations: list(rng, 60, |r| r.fe()),
    }
}
pub fn frame(rng: &mut Rng) -> Frame<F> {
    let data = list(rng, 130, |r| r.fe());
    let w = match rng.below(5) {
        0 => 0,
        1 => 1,
        2 => usize::MAX - rng.below(3),
        3 => data.len(),
        _ => rng.below(60),
    };
    Frame::new(data, w)
}

/// A proof made of nothing.
pub fn nonsense(rng: &mut Rng) -> P {
    P {
        trace_length: length(rng),
        lde_trace_merkle_roots: list(rng, 3, |r| r.bytes32()),
        trace_ood_frame_evaluations: frame(rng),
        composition_poly_root: rng.bytes32(),
        composition_poly_even_ood_evaluation: rng.fe(),
        composition_poly_odd_ood_evaluation: rng.fe(),
        fri_layers_merkle_roots: list(rng, 8, |r| r.bytes32()),
        fri_last_value: rng.fe(),
        query_list: list(rng, 9, decommitment),
        deep_poly_openings: list(rng, 9, opening),
        nonce: rng.u64(),
    }
}


/// A public input with odd parts.
pub fn inputs(pi: &PublicInputs, rng: &mut Rng) -> PublicInputs {
    let mut q = pi.clone();
    for _ in 0..rng.below(4) {
        let odd = |rng: &mut Rng| -> usize {
            match rng.below(6) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => usize::MAX - rng.below(3),
                4 => 1 << rng.below(64),
                _ => rng.below(1 << 12),
            }
        };
        match rng.below(9) {
            0 | 1 => q.num_steps = odd(rng),
            2 => q.range_check_min = [None, Some(0), Some(65535), Some(rng.u64() as u16)][rng.below(4)],
            3 => q.range_check_max = [None, Some(0), Some(65535), Some(rng.u64() as u16)][rng.below(4)],
            4 => q.public_memory = (0..rng.below(300)).map(|_| (rng.fe(), rng.fe())).collect(),
            5 => {
                let a = rng.fe();
                if rng.chance(1, 2) {
                    q.public_memory.insert(q.pc_init.clone(), a);
                } else {
                    q.public_memory.clear();
                }
            }
            6 => q.pc_init = rng.fe(),
            7 => {
                let (a, b) = (odd(rng) as u64, odd(rng) as u64);
                let s = if rng.chance(1, 2) { MemorySegment::Output } else { MemorySegment::RangeCheck };
                q.memory_segments.insert(s, a..b);
            }
            _ => {
                q.memory_segments.clear();
            }
        }
    }
    q
}

