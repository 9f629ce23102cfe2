//! An independent prover for programmable computations, written from the protocol, that can
//! depart from it in a chosen round. Everything is computed pointwise on the evaluation coset.
use crate::progair::{Cols, F, Opts, Spec};
use crate::proofs::P;
use lambdaworks_crypto::fiat_shamir::{default_transcript::DefaultTranscript, transcript::Transcript};
use lambdaworks_crypto::merkle_tree::{
    backends::types::{BatchKeccak256Tree, Keccak256Tree},
    merkle::MerkleTree,
    proof::Proof,
};
use lambdaworks_math::field::traits::IsFFTField;
use lambdaworks_math::polynomial::Polynomial;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::starks::{
    frame::Frame,
    fri::fri_decommit::FriDecommitment,
    proof::stark::{DeepPolynomialOpenings, StarkProof},
};
use lambdaworks_stark::FE;
use sha3::{Digest, Keccak256};

pub type Batch = MerkleTree<BatchKeccak256Tree<F>>;
pub type Single = MerkleTree<Keccak256Tree<F>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum H {
    /// Interpolated from the constraint evaluations (cut to the degree that can be committed).
    Honest,
    Zero,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ood {
    Honest,
    /// This claimed value is chosen so that the consistency check at z passes.
    Even,
    Odd,
    Trace(usize, usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fri {
    Honest,
    /// All layers commit to the zero function.
    Zero,
    /// From this layer on, the zero function.
    ZeroFrom(usize),
    /// The layers are as they are; the last value is the average of what it should be.
    Layers(isize),
    /// The first layer is the polynomial of low degree that agrees with the DEEP function on a
    /// part of the domain.
    LowDegree,
    /// A polynomial of low degree takes over: in this layer, whose values in the openings are not the
    /// committed ones but fit both neighbours (false); or after it, its symmetric value being fitted (true).
    Detour(usize, bool),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Open {
    Honest,
    /// This opened value is chosen so that the DEEP value matches the first layer's.
    Even,
    Odd,
    Trace(usize),
    /// The first-layer value is claimed to be what the openings give.
    First,
    /// Like First, and the symmetric value is chosen so that the fold matches.
    FirstAndSym,
    /// The value claimed of each following layer is what the fold gives.
    Evaluations,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Omit {
    Nothing,
    Openings,
    Queries,
    Layers,
    LayerPaths,
    SymPaths,
    Evaluations,
    TracePaths,
    AllButOneOpening,
    AllButOneQuery,
}
/// Challenges the prover chooses itself instead of drawing them.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Own {
    Nothing,
    ConstraintCoeffs,
    Gammas,
    Zetas,
    /// Query positions: the ones where a folding chain of the wrong degree looks consistent.
    Positions,
    /// The final constant: the one that makes the first query's folding end in it.
    LastValue,
    /// This nonce, whatever its work.
    Nonce(u64),
}

/// The cheater tries nonces until the checks of these queries pass by luck.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Lucky {
    Nobody,
    First,
    Last,
    Middle,
    FirstAndLast,
}

#[derive(Clone, Debug)]
pub struct Cheat {
    pub h: H,
    pub ood: Ood,
    pub fri: Fri,
    pub open: Open,
    pub omit: Omit,
    pub own: Own,
    pub lucky: Lucky,
}

pub const HONEST: Cheat = Cheat {
    h: H::Honest,
    ood: Ood::Honest,
    fri: Fri::Honest,
    open: Open::Honest,
    omit: Omit::Nothing,
    own: Own::Nothing,
    lucky: Lucky::Nobody,
};

pub fn draw(t: &mut DefaultTranscript) -> FE {
    let mut b = t.challenge();
    // 252-bit field: 251 bits are kept
    b[0] &= 0x07;
    FE::from_bytes_be(&b).unwrap()
}

pub fn work(challenge: &[u8; 32], nonce: u64) -> u32 {
    let mut d = challenge.to_vec();
    d.extend(nonce.to_le_bytes());
    let h = Keccak256::digest(&d);
    let mut head = 0u64;
    for b in &h[..8] {
        head = (head << 8) | *b as u64;
    }
    head.trailing_zeros()
}

/// Some nonce with at least this much work, found by all cores from a place of its own.
pub fn mine(challenge: &[u8; 32], factor: u32, from: u64) -> u64 {
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    let found = AtomicBool::new(false);
    let threads = 8u64;
    std::thread::scope(|s| {
        let all: Vec<_> = (0..threads)
            .map(|k| {
                let found = &found;
                s.spawn(move || {
                    let mut n = from.wrapping_add(k);
                    for i in 0u64.. {
                        if work(challenge, n) >= factor {
                            found.store(true, Relaxed);
                            return Some(n);
                        }
                        if i % 1024 == 0 && found.load(Relaxed) {
                            return None;
                        }
                        n = n.wrapping_add(threads);
                    }
                    None
                })
            })
            .collect();
        all.into_iter().filter_map(|h| h.join().unwrap()).next().unwrap()
    })
}

pub fn root_of_unity(log: u32) -> FE {
    F::get_primitive_root_of_unity(log as u64).unwrap()
}

/// Naive inverse DFT: coefficients of the polynomial with these values on h * <w>.
pub fn interpolate(values: &[FE], w: &FE, h: &FE) -> Vec<FE> {
    let n = values.len();
    let winv = w.inv();
    let mut pw = vec![FE::one()];
    for i in 1..n {
        pw.push(&pw[i - 1] * &winv);
    }
    let ninv = FE::from(n as u64).inv();
    let hinv = h.inv();
    let mut hk = FE::one();
    (0..n)
        .map(|k| {
            let s = (0..n).fold(FE::zero(), |a, i| a + &values[i] * &pw[(i * k) % n]);
            let c = s * &ninv * &hk;
            hk = &hk * &hinv;
            c
        })
        .collect()
}

pub fn horner(c: &[FE], x: &FE) -> FE {
    c.iter().rev().fold(FE::zero(), |a, k| a * x + k)
}

/// Values on offset * <w>, in order, by halving; a few of them are checked one by one.
pub fn values_on(c: &[FE], off: &FE, m: usize) -> Vec<FE> {
    fn dft(a: &[FE], log: u32) -> Vec<FE> {
        if log == 0 {
            return a.to_vec();
        }
        let half = a.len() / 2;
        let even: Vec<FE> = a.iter().step_by(2).cloned().collect();
        let odd: Vec<FE> = a.iter().skip(1).step_by(2).cloned().collect();
        let (e, o) = (dft(&even, log - 1), dft(&odd, log - 1));
        let w = root_of_unity(log);
        let mut out = vec![FE::zero(); a.len()];
        let mut x = FE::one();
        for k in 0..half {
            let t = &x * &o[k];
            out[k] = &e[k] + &t;
            out[k + half] = &e[k] - &t;
            x = &x * &w;
        }
        out
    }
    let mut a = vec![FE::zero(); m];
    let mut x = FE::one();
    for (i, v) in c.iter().enumerate() {
        a[i % m] = &a[i % m] + v * &x;
        x = &x * off;
    }
    let out = dft(&a, m.trailing_zeros());
    let w = root_of_unity(m.trailing_zeros());
    for k in [0, m / 3, m - 1] {
        assert!(out[k] == horner(c, &(off * w.pow(k))), "harness: wrong values");
    }
    out
}

/// The coefficients of the polynomial with these values on the subgroup of as many elements.
pub fn coefficients(values: &[FE]) -> Vec<FE> {
    let n = values.len();
    let ninv = FE::from(n as u64).inv();
    let mut c: Vec<FE> = values_on(values, &FE::one(), n).iter().map(|x| x * &ninv).collect();
    c[1..].reverse();
    c
}

/// All the challenges of a run, for monitors.
#[derive(Clone, Debug, Default)]
pub struct Challenges {
    pub rap: Vec<FE>,
    pub boundary: Vec<(FE, FE)>,
    pub transition: Vec<(FE, FE)>,
    pub z: FE,
    pub gammas: (FE, FE),
    pub trace_gammas: Vec<Vec<FE>>,
    pub zetas: Vec<FE>,
    pub iotas: Vec<usize>,
    pub grind: [u8; 32],
}

/// The composition formula at a point, from the values there of each column at each offset.
pub fn composition_at(
    spec: &Spec,
    n: usize,
    x: &FE,
    frame: &[Vec<FE>],
    ch: &[FE],
    boundary: &[(FE, FE)],
    transition: &[(FE, FE)],
) -> FE {
    let g = root_of_unity(n.trailing_zeros());
    let ginv = g.inv();
    let d = spec.dfac * n;
    let mut acc = FE::zero();
    for (k, b) in spec.bcs.iter().enumerate() {
        let (al, be) = &boundary[k];
        let num = &frame[0][b.col] - spec.bc_value(k, ch);
        let den = (x - g.pow(b.step)).inv();
        acc = acc + num * den * (al * x.pow(d - n) + be);
    }
    let zinv = (x.pow(n) - FE::one()).inv();
    for (k, c) in spec.cons.iter().enumerate() {
        let (al, be) = &transition[k];
        let e = spec.eval_con(k, ch, &|o, col| frame[o][col].clone());
        let mut ex = FE::one();
        let mut last = ginv.clone();
        for _ in 0..c.exempt {
            ex = ex * (x - &last);
            last = last * &ginv;
        }
        acc = acc + e * &zinv * (al * x.pow(d - n * (c.degree - 1)) + be) * ex;
    }
    acc
}

/// One over each, with a single division.
fn inverses(v: &[FE]) -> Vec<FE> {
    let mut acc = FE::one();
    let mut before = vec![];
    for x in v {
        before.push(acc.clone());
        acc = acc * x;
    }
    let mut k = acc.inv();
    let mut out = vec![FE::zero(); v.len()];
    for i in (0..v.len()).rev() {
        out[i] = &k * &before[i];
        k = k * &v[i];
    }
    out
}

thread_local! {
    static LAST: std::cell::RefCell<(String, Vec<FE>)> = const { std::cell::RefCell::new((String::new(), Vec::new())) };
}

/// The values found for this key last time, when it is the same key.
fn remembered(key: String, values: impl FnOnce() -> Vec<FE>) -> Vec<FE> {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if l.0 != key {
            *l = (key, values());
        }
        l.1.clone()
    })
}

/// Returns the proof and the challenges the prover used. None when the requested departure
/// does not apply to this computation.
pub fn prove(spec: &Spec, main: &Cols, opts: &Opts, cheat: &Cheat) -> Option<(P, Challenges)> {
    let n = main[0].len();
    let log_n = n.trailing_zeros();
    let bl = opts.blowup as usize;
    let nn = n * bl;
    let g = root_of_unity(log_n);
    let w = root_of_unity(nn.trailing_zeros());
    let h = FE::from(opts.coset);
    let mut dom = vec![h.clone()];
    for i in 1..nn {
        dom.push(&dom[i - 1] * &w);
    }
    let mut t = DefaultTranscript::new();
    let mut c = Challenges::default();

    // Round 1
    // long columns by halving
    let long = n >= 64;
    let on = |values: &[FE], w: &FE, h: &FE| -> Vec<FE> {
        if !long {
            return interpolate(values, w, h);
        }
        let hinv = h.inv();
        let mut k = FE::one();
        coefficients(values)
            .into_iter()
            .map(|c| {
                let v = c * &k;
                k = &k * &hinv;
                v
            })
            .collect()
    };
    let poly = |col: &Vec<FE>| on(col, &g, &FE::one());
    let lde = |p: &Vec<FE>| match long {
        true => values_on(p, &h, nn),
        false => dom.iter().map(|x| horner(p, x)).collect::<Vec<FE>>(),
    };
    let rows = |cols: &[Vec<FE>]| -> Vec<Vec<FE>> {
        (0..nn).map(|i| cols.iter().map(|c| c[i].clone()).collect()).collect()
    };
    let mut polys: Vec<Vec<FE>> = main.iter().map(poly).collect();
    let mut ldes: Vec<Vec<FE>> = polys.iter().map(lde).collect();
    let mut trees = vec![Batch::build(&rows(&ldes))];
    t.append(&trees[0].root);
    c.rap = (0..spec.chals).map(|_| draw(&mut t)).collect();
    if !spec.aux.is_empty() {
        let aux = spec.build_aux(main, &c.rap);
        let ap: Vec<Vec<FE>> = aux.iter().map(poly).collect();
        let al: Vec<Vec<FE>> = ap.iter().map(lde).collect();
        trees.push(Batch::build(&rows(&al)));
        t.append(&trees[1].root);
        polys.extend(ap);
        ldes.extend(al);
    }

    // Round 2
    for (k, b) in spec.bcs.iter().enumerate() {
        t.append(&(b.col as u64).to_be_bytes());
        t.append(&(b.step as u64).to_be_bytes());
        t.append(&spec.bc_value(k, &c.rap).to_bytes_be());
    }
    let batch = |t: &mut DefaultTranscript, k: usize| (0..k).map(|_| draw(t)).collect::<Vec<FE>>();
    let (ba, bb) = (batch(&mut t, spec.bcs.len()), batch(&mut t, spec.bcs.len()));
    let (ta, tb) = (batch(&mut t, spec.cons.len()), batch(&mut t, spec.cons.len()));
    c.boundary = ba.into_iter().zip(bb).collect();
    c.transition = ta.into_iter().zip(tb).collect();
    if cheat.own == Own::ConstraintCoeffs {
        for v in c.boundary.iter_mut().chain(c.transition.iter_mut()) {
            *v = (FE::zero(), FE::zero());
        }
    }
    let hcoef: Vec<FE> = match cheat.h {
        H::Zero => vec![FE::zero(); 2 * n],
        H::Honest => {
            let all = || -> Vec<FE> {
                (0..nn).map(|i| {
                    let frame: Vec<Vec<FE>> = spec
                        .offsets
                        .iter()
                        .map(|o| ldes.iter().map(|l| l[(i + o * bl) % nn].clone()).collect())
                        .collect();
                    composition_at(spec, n, &dom[i], &frame, &c.rap, &c.boundary, &c.transition)
                })
                .collect()
            };
            let vals = match long {
                true => remembered(format!("{:?}", (trees[0].root, &c.boundary, &c.transition)), all),
                false => all(),
            };
            let mut k = on(&vals, &w, &h);
            k.truncate(2 * n + 2);
            k
        }
    };
    let h1: Vec<FE> = hcoef.iter().step_by(2).cloned().collect();
    let h2: Vec<FE> = hcoef.iter().skip(1).step_by(2).cloned().collect();
    let (l1, l2) = (lde(&h1), lde(&h2));
    let htree = Batch::build(&rows(&[l1.clone(), l2.clone()]));
    t.append(&htree.root);

    // Round 3
    let g_dom: Vec<FE> = (0..n).map(|i| g.pow(i)).collect();
    c.z = loop {
        let z = draw(&mut t);
        if !dom.contains(&z) && !g_dom.contains(&z) {
            break z;
        }
    };
    let z2 = &c.z * &c.z;
    let mut h1z = horner(&h1, &z2);
    let mut h2z = horner(&h2, &z2);
    let mut frame: Vec<Vec<FE>> = spec
        .offsets
        .iter()
        .map(|o| polys.iter().map(|p| horner(p, &(&c.z * g.pow(*o)))).collect())
        .collect();
    let at_z =
        |frame: &[Vec<FE>]| composition_at(spec, n, &c.z, frame, &c.rap, &c.boundary, &c.transition);
    match cheat.ood {
        Ood::Honest => {}
        Ood::Even => h1z = at_z(&frame) - &c.z * &h2z,
        Ood::Odd => h2z = (at_z(&frame) - &h1z) * c.z.inv(),
        Ood::Trace(r, col) => {
            // solve for this value if the identity is linear in it
            if r >= frame.len() || col >= frame[0].len() {
                return None;
            }
            let target = &h1z + &c.z * &h2z;
            let mut f = |v: FE| {
                frame[r][col] = v;
                at_z(&frame) - &target
            };
            let (a, b, d) = (f(FE::zero()), f(FE::one()), f(FE::from(2)));
            let slope = &b - &a;
            if slope == FE::zero() || &d - &b != slope {
                return None;
            }
            let v = -(a * slope.inv());
            frame[r][col] = v;
            if at_z(&frame) != target {
                return None;
            }
        }
    }
    t.append(&h1z.to_bytes_be());
    t.append(&h2z.to_bytes_be());
    for v in frame.iter().flatten() {
        t.append(&v.to_bytes_be());
    }

    // Round 4
    c.gammas = (draw(&mut t), draw(&mut t));
    c.trace_gammas = (0..polys.len())
        .map(|_| (0..spec.offsets.len()).map(|_| draw(&mut t)).collect())
        .collect();
    if cheat.own == Own::Gammas {
        c.gammas = (FE::zero(), FE::zero());
        c.trace_gammas.iter_mut().flatten().for_each(|v| *v = FE::zero());
    }
    // one over the distances to the points asked for
    let over = |p: FE| inverses(&dom.iter().map(|x| x - &p).collect::<Vec<FE>>());
    let over_z2 = over(z2.clone());
    let over_rows: Vec<Vec<FE>> = spec.offsets.iter().map(|o| over(&c.z * g.pow(*o))).collect();
    let deep = |i: usize, e: &FE, o: &FE, tr: &[FE]| -> FE {
        let di = &over_z2[i];
        let mut s = (e - &h1z) * di * &c.gammas.0 + (o - &h2z) * di * &c.gammas.1;
        for k in 0..spec.offsets.len() {
            let di = &over_rows[k][i];
            for (j, v) in tr.iter().enumerate() {
                s = s + (v - &frame[k][j]) * di * &c.trace_gammas[j][k];
            }
        }
        s
    };
    let at = |i: usize| -> Vec<FE> { ldes.iter().map(|l| l[i].clone()).collect() };
    let p0: Vec<FE> = (0..nn).map(|i| deep(i, &l1[i], &l2[i], &at(i))).collect();
    let mut layers = (log_n as usize).max(1);
    if let Fri::Layers(k) = cheat.fri {
        let l = layers as isize + k;
        if l < 0 || l as usize > nn.trailing_zeros() as usize {
            return None;
        }
        layers = l as usize;
    }
    if cheat.omit == Omit::Layers {
        layers = 0;
    }
    let half = FE::from(2).inv();
    let fold = |f: &[FE], off: &FE, zeta: &FE| -> Vec<FE> {
        let m = f.len();
        let wk = root_of_unity(m.trailing_zeros()).inv();
        let mut x = off.inv();
        (0..m / 2)
            .map(|i| {
                let xi = x.clone();
                x = &x * &wk;
                let (a, b) = (&f[i], &f[i + m / 2]);
                (a + b) * &half + zeta * (a - b) * &half * xi
            })
            .collect()
    };
    let mut fs: Vec<Vec<FE>> = vec![];
    let mut ftrees = vec![];
    let mut cur = p0.clone();
    if cheat.fri == Fri::LowDegree {
        let vals: Vec<FE> = p0.iter().step_by(bl).cloned().collect();
        cur = lde(&on(&vals, &g, &h));
    }
    let mut off = h.clone();
    let mut own = DefaultTranscript::new();
    own.append(&trees[0].root);
    for k in 0..layers {
        let zero = match cheat.fri {
            Fri::Zero => true,
            Fri::ZeroFrom(j) => k >= j,
            _ => false,
        };
        if zero {
            cur.iter_mut().for_each(|v| *v = FE::zero());
        }
        if matches!(cheat.fri, Fri::Detour(j, sym) if k == j + sym as usize) {
            let c: Vec<FE> = (0..(n >> k).max(1)).map(|_| draw(&mut own)).collect();
            cur = values_on(&c, &off, cur.len());
        }
        let tree = Single::build(&cur);
        t.append(&tree.root);
        ftrees.push(tree);
        let mut zeta = draw(&mut t);
        if cheat.own == Own::Zetas {
            zeta = FE::zero();
        }
        fs.push(cur.clone());
        cur = fold(&cur, &off, &zeta);
        off = &off * &off;
        c.zetas.push(zeta);
    }
    if matches!(cheat.fri, Fri::ZeroFrom(j) if j >= layers) {
        return None;
    }
    if matches!(cheat.fri, Fri::Detour(j, _) if j >= layers) {
        return None;
    }
    let mut last = match cheat.fri {
        Fri::Detour(j, true) if j == layers - 1 => draw(&mut own),
        _ => cur[0].clone(),
    };
    if cheat.own == Own::LastValue {
        last = cur[cur.len() / 2].clone();
    }
    t.append(&last.to_bytes_be());
    c.grind = t.challenge();
    let positions = |nonce: u64| -> Vec<usize> {
        // the state of the transcript is the last challenge drawn
        let mut t = DefaultTranscript::new();
        t.append(&c.grind);
        t.append(&nonce.to_be_bytes());
        (0..opts.queries)
            .map(|_| {
                let b = t.challenge();
                let mut v = 0usize;
                for x in &b[..8] {
                    v = (v << 8) | *x as usize;
                }
                v % nn
            })
            .collect()
    };
    let wanted = match cheat.lucky {
        Lucky::Nobody => vec![],
        Lucky::First => vec![0],
        Lucky::Last => vec![opts.queries - 1],
        Lucky::Middle => vec![opts.queries / 2],
        Lucky::FirstAndLast => vec![0, opts.queries - 1],
    };
    let passes = |i: usize| -> bool {
        match cheat.fri {
            Fri::LowDegree => i % bl == 0,
            // the last value is what this position folds to
            _ => cur[i % cur.len()] == last,
        }
    };
    let nonce = match cheat.own {
        Own::Nonce(k) => k,
        _ => (0..if wanted.is_empty() { u64::MAX } else { 20000 }).find(|k| {
            work(&c.grind, *k) >= opts.grinding as u32 && {
                let at = if wanted.is_empty() { vec![] } else { positions(*k) };
                wanted.iter().all(|q| passes(at[*q]))
            }
        })?,
    };
    c.iotas = positions(nonce);

    let mut query_list = vec![];
    let mut openings = vec![];
    if cheat.own == Own::Positions {
        let k = nn >> layers;
        c.iotas.iter_mut().for_each(|i| *i -= *i % k.max(1));
    }
    for &i in &c.iotas {
        let mut q = FriDecommitment {
            layers_auth_paths_sym: vec![],
            layers_evaluations_sym: vec![],
            layers_auth_paths: vec![],
            layers_evaluations: vec![],
        };
        for (f, tree) in fs.iter().zip(&ftrees) {
            let m = f.len();
            let (a, b) = (i % m, (i + m / 2) % m);
            q.layers_evaluations.push(f[a].clone());
            q.layers_evaluations_sym.push(f[b].clone());
            q.layers_auth_paths.push(tree.get_proof_by_pos(a).unwrap());
            q.layers_auth_paths_sym.push(tree.get_proof_by_pos(b).unwrap());
        }
        if let Fri::Detour(j, sym) = cheat.fri {
            let m = nn >> j;
            let x = dom[0].pow(1usize << j) * root_of_unity(m.trailing_zeros()).pow(i % m);
            let next = if j + 1 < layers { fs[j + 1][i % (m / 2)].clone() } else { last.clone() };
            if !sym {
                // what the layer before folds to; the first is the DEEP function
                q.layers_evaluations[j] = match j {
                    0 => p0[i].clone(),
                    _ => {
                        let m = 2 * m;
                        let x = dom[0].pow(1usize << (j - 1)) * root_of_unity(m.trailing_zeros()).pow(i % m);
                        let (a, b) = (&q.layers_evaluations[j - 1], &q.layers_evaluations_sym[j - 1]);
                        (a + b) * &half + &c.zetas[j - 1] * (a - b) * &half * x.inv()
                    }
                };
            }
            // (a + b) / 2 + zeta (a - b) / 2x is the next value
            let a = q.layers_evaluations[j].clone();
            let t = &c.zetas[j] * x.inv();
            let k = FE::one() - &t;
            if k == FE::zero() {
                return None;
            }
            q.layers_evaluations_sym[j] = (next.double() - &a * (FE::one() + t)) * k.inv();
        }
        let (mut e, mut o, mut tr) = (l1[i].clone(), l2[i].clone(), at(i));
        let claimed = q.layers_evaluations.first().cloned().unwrap_or(FE::zero());
        let miss = &claimed - deep(i, &e, &o, &tr);
        let x = &dom[i];
        match cheat.open {
            Open::Honest => {}
            Open::Even => e = e + &miss * (x - &z2) * c.gammas.0.inv(),
            Open::Odd => o = o + &miss * (x - &z2) * c.gammas.1.inv(),
            Open::Trace(j) => {
                if j >= tr.len() {
                    return None;
                }
                let k = spec.offsets.iter().enumerate().fold(FE::zero(), |s, (k, off)| {
                    s + (x - &c.z * g.pow(*off)).inv() * &c.trace_gammas[j][k]
                });
                if k == FE::zero() {
                    return None;
                }
                tr[j] = &tr[j] + &miss * k.inv();
            }
            Open::First | Open::FirstAndSym | Open::Evaluations => {
                let v = deep(i, &e, &o, &tr);
                if q.layers_evaluations.is_empty() {
                    q.layers_evaluations.push(v);
                } else {
                    let xi = x.inv();
                    // next = (v+s)/2 + zeta (v-s)/(2x)
                    let next = match q.layers_evaluations.get(1) {
                        Some(v) => v.clone(),
                        None => last.clone(),
                    };
                    q.layers_evaluations[0] = v.clone();
                    if cheat.open == Open::FirstAndSym {
                        let k = &c.zetas[0] * &xi;
                        // next = v(1+k)/2 + s(1-k)/2
                        let num = next.double() - &v * (FE::one() + &k);
                        let den = FE::one() - &k;
                        if den == FE::zero() {
                            return None;
                        }
                        q.layers_evaluations_sym[0] = num * den.inv();
                    }
                    if cheat.open == Open::Evaluations {
                        let mut v = v;
                        let mut xi = xi;
                        for k in 0..q.layers_evaluations.len() {
                            q.layers_evaluations[k] = v.clone();
                            let s = &q.layers_evaluations_sym[k];
                            v = (&v + s) * &half + &c.zetas[k] * (&v - s) * &half * &xi;
                            xi = &xi * &xi;
                        }
                        // the last fold has to give the last value: choose the last symmetric value
                        let k = q.layers_evaluations.len() - 1;
                        let mut xi = x.inv();
                        for _ in 0..k {
                            xi = &xi * &xi;
                        }
                        let kk = &c.zetas[k] * &xi;
                        let den = FE::one() - &kk;
                        if den == FE::zero() {
                            return None;
                        }
                        q.layers_evaluations_sym[k] = (last.double()
                            - &q.layers_evaluations[k] * (FE::one() + &kk))
                            * den.inv();
                    }
                }
            }
        }
        let mut paths: Vec<Proof<[u8; 32]>> =
            trees.iter().map(|t| t.get_proof_by_pos(i).unwrap()).collect();
        match cheat.omit {
            Omit::LayerPaths => q.layers_auth_paths.clear(),
            Omit::SymPaths => {
                q.layers_auth_paths_sym.clear();
                q.layers_evaluations_sym.clear()
            }
            Omit::Evaluations => {
                let v = deep(i, &e, &o, &tr);
                q.layers_evaluations = vec![v];
            }
            Omit::TracePaths => paths.clear(),
            _ => {}
        }
        openings.push(DeepPolynomialOpenings {
            lde_composition_poly_proof: htree.get_proof_by_pos(i).unwrap(),
            lde_composition_poly_even_evaluation: e,
            lde_composition_poly_odd_evaluation: o,
            lde_trace_merkle_proofs: paths,
            lde_trace_evaluations: tr,
        });
        query_list.push(q);
    }
    match cheat.omit {
        Omit::Openings => openings.clear(),
        Omit::Queries => query_list.clear(),
        Omit::AllButOneOpening => openings.truncate(1),
        Omit::AllButOneQuery => query_list.truncate(1),
        _ => {}
    }
    let width = polys.len();
    Some((
        StarkProof {
            trace_length: n,
            lde_trace_merkle_roots: trees.iter().map(|t| t.root).collect(),
            trace_ood_frame_evaluations: Frame::new(frame.concat(), width),
            composition_poly_root: htree.root,
            composition_poly_even_ood_evaluation: h1z,
            composition_poly_odd_ood_evaluation: h2z,
            fri_layers_merkle_roots: ftrees.iter().map(|t| t.root).collect(),
            fri_last_value: last,
            query_list,
            deep_poly_openings: openings,
            nonce,
        },
        c,
    ))
}

/// The polynomial with these coefficients.
pub fn poly(c: &[FE]) -> Polynomial<FE> {
    Polynomial::new(c)
}
