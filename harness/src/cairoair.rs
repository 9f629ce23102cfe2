//! The Cairo constraint system, restated from the Cairo whitepaper (sections 9.1 to 9.10):
//! expected trace rows, transition constraints, boundary assertions and auxiliary columns.
use crate::cairo::*;
use crate::rng::Rng;
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::cairo::air::{CairoAIR, CairoRAPChallenges, MemorySegment};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::trace::TraceTable;
use lambdaworks_stark::starks::traits::AIR;
use lambdaworks_stark::{PrimeField, FE};
use std::collections::BTreeMap;

pub const RES: usize = 16;
pub const AP: usize = 17;
pub const FP: usize = 18;
pub const PC: usize = 19;
pub const DST_ADDR: usize = 20;
pub const OP0_ADDR: usize = 21;
pub const OP1_ADDR: usize = 22;
pub const INST: usize = 23;
pub const DST: usize = 24;
pub const OP0: usize = 25;
pub const OP1: usize = 26;
pub const OFF_DST: usize = 27;
pub const T0: usize = 30;
pub const T1: usize = 31;
pub const MUL: usize = 32;
pub const SEL: usize = 33;
pub const RC0: usize = 34;
pub const RC_VALUE: usize = 42;

/// Number of main columns.
pub fn main_cols(rc: bool) -> usize {
    if rc {
        43
    } else {
        34
    }
}
pub const AUX: usize = 18;
/// Offsets of the auxiliary columns after the main ones.
pub const A_OFF: usize = 0;
pub const A_ADDR: usize = 3;
pub const A_VAL: usize = 7;
pub const A_PERM: usize = 11;
pub const A_RCPERM: usize = 15;

pub type Rows = Vec<Vec<FE>>;

fn bit(x: bool) -> FE {
    if x {
        FE::one()
    } else {
        FE::zero()
    }
}

/// The row of one executed step.
pub fn row(r: (u64, u64, u64), s: &Step) -> Vec<FE> {
    let f = s.instr.flags();
    let mut v: Vec<FE> = (0..16).map(|k| bit(f >> k & 1 == 1)).collect();
    let jnz = s.instr.pc == Pc::Jnz;
    let res = match (&s.res, s.instr.opc) {
        (None, _) if s.dst == FE::zero() => FE::zero(),
        (None, _) => s.dst.inv(),
        (Some(x), _) => x.clone(),
    };
    let t0 = if jnz { s.dst.clone() } else { FE::zero() };
    v.push(res.clone());
    v.extend([r.1, r.2, r.0, s.dst_addr, s.op0_addr, s.op1_addr].map(FE::from));
    v.extend([s.word.clone(), s.dst.clone(), s.op0.clone(), s.op1.clone()]);
    v.extend([s.instr.off_dst, s.instr.off_op0, s.instr.off_op1].map(|o| FE::from((o + 32768) as u64)));
    v.extend([t0.clone(), &t0 * &res, &s.op0 * &s.op1]);
    v
}

/// All rows of an execution, without anything added.
pub fn exec_rows(run: &Run) -> Result<Rows, String> {
    let mem = |a: u64| run.mem.get(&a).cloned();
    let n = run.regs.len();
    let mut out = vec![];
    for (k, r) in run.regs.iter().enumerate() {
        let s = step(r.0, r.1, r.2, &mem).map_err(|e| format!("step {k}: {e}"))?;
        if let Some(nx) = run.regs.get(k + 1) {
            if s.next != (FE::from(nx.0), FE::from(nx.1), FE::from(nx.2)) {
                return Err(format!("step {k}: wrong registers afterwards"));
            }
        }
        let mut v = row(*r, &s);
        v.push(bit(k + 1 != n));
        if let Some((a, b)) = run.rc {
            let value = if a + (k as u64) < b { run.mem[&(a + k as u64)].clone() } else { FE::zero() };
            let bytes = value.to_bytes_be();
            for l in 0..8 {
                let o = 30 - 2 * l;
                v.push(FE::from(u16::from_be_bytes([bytes[o], bytes[o + 1]]) as u64));
            }
            v.push(value);
        }
        out.push(v);
    }
    Ok(out)
}

pub fn rows_of(t: &TraceTable<PrimeField>) -> Rows {
    (0..t.n_rows()).map(|i| t.table[i * t.n_cols..(i + 1) * t.n_cols].to_vec()).collect()
}
pub fn table_of(rows: &Rows) -> TraceTable<PrimeField> {
    TraceTable::new(rows.concat(), rows[0].len())
}

pub fn canon(v: &FE) -> [u8; 32] {
    v.to_bytes_be().try_into().unwrap()
}

/// Memory accesses of a main trace in the order of the permutation argument.
pub fn accesses(rows: &Rows) -> Vec<(FE, FE)> {
    rows.iter()
        .flat_map(|r| {
            [(PC, INST), (DST_ADDR, DST), (OP0_ADDR, OP0), (OP1_ADDR, OP1)].map(|(a, v)| (r[a].clone(), r[v].clone()))
        })
        .collect()
}
pub fn offsets(rows: &Rows) -> Vec<FE> {
    rows.iter().flat_map(|r| r[OFF_DST..OFF_DST + 3].to_vec()).collect()
}
pub fn sort_by_address(v: &mut [(FE, FE)]) {
    v.sort_by_key(|(a, _)| canon(a));
}
pub fn public_sorted(pi: &PublicInputs) -> Vec<(FE, FE)> {
    let mut v: Vec<(FE, FE)> = pi.public_memory.iter().map(|(a, v)| (a.clone(), v.clone())).collect();
    sort_by_address(&mut v);
    v
}

#[derive(Clone, Debug)]
pub struct Ch {
    pub alpha: FE,
    pub z: FE,
    pub z_rc: FE,
}
impl Ch {
    pub fn random(rng: &mut Rng) -> Ch {
        Ch { alpha: rng.fe_big(), z: rng.fe_big(), z_rc: rng.fe_big() }
    }
    pub fn real(&self) -> CairoRAPChallenges {
        CairoRAPChallenges { alpha_memory: self.alpha.clone(), z_memory: self.z.clone(), z_range_check: self.z_rc.clone() }
    }
    pub fn of(c: &CairoRAPChallenges) -> Ch {
        Ch { alpha: c.alpha_memory.clone(), z: c.z_memory.clone(), z_rc: c.z_range_check.clone() }
    }
    pub fn term(&self, a: &FE, v: &FE) -> FE {
        &self.z - a - &self.alpha * v
    }
}

/// Declared degree, number of exempted rows, looks at the next row.
pub fn declared(rc: bool) -> Vec<(usize, usize, bool)> {
    let mut v = vec![(2, 0, false); 15];
    v.push((1, 0, false)); // the sixteenth flag
    v.extend([(3, 0, false); 4]); // instruction, addresses
    v.extend([(3, 1, true); 4]); // next ap, fp, pc
    v.extend([(3, 0, false); 7]); // helpers, opcodes
    for _ in 0..3 {
        v.extend([(2, 0, false); 3]); // memory order, values, permutation
        v.push((2, 1, true));
    }
    v.extend([(2, 0, false), (2, 0, false), (2, 1, true)]); // offsets in order
    v.extend([(2, 0, false), (2, 0, false), (2, 0, true)]); // offsets permuted, all the way around
    v.push((2, 1, true)); // selector
    if rc {
        v.push((1, 0, false));
    }
    v
}

/// Values of all constraints on two consecutive rows (main columns followed by auxiliary ones).
pub fn transitions(c: &[FE], n: &[FE], ch: &Ch, rc: bool) -> Vec<FE> {
    let one = FE::one();
    let two = FE::from(2u64);
    let half = FE::from(1u64 << 15);
    let f = |k: usize| c[k].clone();
    let [dst_fp, op0_fp, imm, op1_fp, op1_ap, add, mul, abs, rel, jnz, ap_add, ap_one, call, ret, aeq] =
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14].map(f);
    let size = &imm + &one;
    let after = &c[PC] + &size;
    let pick = |sel: &FE, a: &FE, b: &FE| b + sel * (a - b);
    let mut v: Vec<FE> = (0..15).map(|k| &c[k] * &c[k] - &c[k]).collect();
    v.push(c[15].clone());
    let mut gated = vec![];
    // the word is its parts
    let mut word = FE::zero();
    for k in (0..15).rev() {
        word = word * &two + &c[k];
    }
    for k in (0..3).rev() {
        word = word * FE::from(1u64 << 16) + &c[OFF_DST + k];
    }
    gated.push(word - &c[INST]);
    gated.push(pick(&dst_fp, &c[FP], &c[AP]) + &c[OFF_DST] - &half - &c[DST_ADDR]);
    gated.push(pick(&op0_fp, &c[FP], &c[AP]) + &c[OFF_DST + 1] - &half - &c[OP0_ADDR]);
    let base = &imm * (&c[PC] - &c[OP0]) + &op1_ap * (&c[AP] - &c[OP0]) + &op1_fp * (&c[FP] - &c[OP0]) + &c[OP0];
    gated.push(base + &c[OFF_DST + 2] - &half - &c[OP1_ADDR]);
    // registers
    gated.push(&c[AP] + &ap_add * &c[RES] + &ap_one + &call * &two - &n[AP]);
    gated.push(&c[FP] + &ret * (&c[DST] - &c[FP]) + &call * (&c[AP] + &two - &c[FP]) - &n[FP]);
    gated.push((&c[T1] - &jnz) * (&n[PC] - &after));
    let regular = &one - &abs - &rel - &jnz;
    let planned = &regular * &after + &abs * &c[RES] + &rel * (&c[PC] + &c[RES]);
    gated.push(&c[T0] * (&n[PC] - &c[PC] - &c[OP1]) + (&one - &jnz) * &n[PC] - planned);
    gated.push(&jnz * &c[DST] - &c[T0]);
    gated.push(&c[T0] * &c[RES] - &c[T1]);
    // opcodes
    gated.push(&c[MUL] - &c[OP0] * &c[OP1]);
    let plain = &one - &add - &mul - &jnz;
    gated.push(&add * (&c[OP0] + &c[OP1]) + &mul * &c[MUL] + plain * &c[OP1] - (&one - &jnz) * &c[RES]);
    gated.push(&call * (&c[DST] - &c[FP]));
    gated.push(&call * (&c[OP0] - &after));
    gated.push(&aeq * (&c[DST] - &c[RES]));
    v.extend(gated.iter().map(|x| x * &c[SEL]));
    // memory
    let m = main_cols(rc);
    let addr = |k: usize| if k < 4 { &c[m + A_ADDR + k] } else { &n[m + A_ADDR] };
    let val = |k: usize| if k < 4 { &c[m + A_VAL + k] } else { &n[m + A_VAL] };
    let perm = |k: usize| if k < 4 { &c[m + A_PERM + k] } else { &n[m + A_PERM] };
    let src = |k: usize| {
        let (a, v) = [(PC, INST), (DST_ADDR, DST), (OP0_ADDR, OP0), (OP1_ADDR, OP1)][k % 4];
        if k < 4 {
            (&c[a], &c[v])
        } else {
            (&n[a], &n[v])
        }
    };
    for k in 0..4 {
        let d = addr(k + 1) - addr(k);
        v.push(-&d * (&d - &one));
    }
    for k in 0..4 {
        v.push((val(k) - val(k + 1)) * (addr(k + 1) - addr(k) - &one));
    }
    for k in 0..4 {
        let (a, x) = src(k + 1);
        v.push(ch.term(addr(k + 1), val(k + 1)) * perm(k + 1) - ch.term(a, x) * perm(k));
    }
    // offsets
    let off = |k: usize| if k < 3 { &c[m + A_OFF + k] } else { &n[m + A_OFF] };
    let perm = |k: usize| if k < 3 { &c[m + A_RCPERM + k] } else { &n[m + A_RCPERM] };
    let src = |k: usize| if k < 3 { &c[OFF_DST + k] } else { &n[OFF_DST] };
    for k in 0..3 {
        let d = off(k + 1) - off(k);
        v.push(-&d * (&d - &one));
    }
    for k in 0..3 {
        v.push((&ch.z_rc - off(k + 1)) * perm(k + 1) - (&ch.z_rc - src(k + 1)) * perm(k));
    }
    v.push(&n[SEL] * (&one - &c[SEL]));
    if rc {
        let mut x = FE::zero();
        for k in (0..8).rev() {
            x = x * FE::from(1u64 << 16) + &c[RC0 + k];
        }
        v.push(x - &c[RC_VALUE]);
    }
    v
}

pub fn has_rc(pi: &PublicInputs) -> bool {
    pi.memory_segments.contains_key(&MemorySegment::RangeCheck)
}

/// Boundary assertions (column, row, value).
pub fn boundaries(pi: &PublicInputs, ch: &Ch, rows: usize) -> Vec<(usize, usize, FE)> {
    let m = main_cols(has_rc(pi));
    let product = pi.public_memory.iter().fold(FE::one(), |p, (a, v)| p * ch.term(a, v));
    let factor = ch.z.pow(pi.public_memory.len()) * product.inv();
    let last = pi.num_steps - 1;
    let first = pi.public_memory.get(&pi.pc_init).cloned().unwrap_or(FE::zero());
    let mut v = vec![
        (PC, 0, pi.pc_init.clone()),
        (AP, 0, pi.ap_init.clone()),
        (FP, 0, pi.fp_init.clone()),
        (PC, last, pi.pc_final.clone()),
        (AP, last, pi.ap_final.clone()),
        // the memory argument starts from the first access and an access of the dummy cell
        (INST, 0, first.clone()),
        (m + A_ADDR, 0, FE::zero()),
        (m + A_VAL, 0, FE::zero()),
        (m + A_PERM, 0, ch.term(&pi.pc_init, &first) * ch.z.inv()),
        (m + A_PERM + 3, rows - 1, factor),
        (m + A_RCPERM + 2, rows - 1, FE::one()),
        (m + A_OFF, 0, FE::from(pi.range_check_min.unwrap() as u64)),
        (m + A_OFF + 2, rows - 1, FE::from(pi.range_check_max.unwrap() as u64)),
    ];
    if pi.num_steps > 1 {
        v.push((SEL, pi.num_steps - 2, FE::one()));
    }
    v
}

/// Running product of source terms over sorted terms.
pub fn products(src: &[FE], sorted: &[FE], start: &FE) -> Vec<FE> {
    let mut p = start.clone();
    src.iter()
        .zip(sorted)
        .map(|(a, b)| {
            p = &p * a * b.inv();
            p.clone()
        })
        .collect()
}

/// Auxiliary rows for given sorted memory and offsets, with the products starting as given.
pub fn aux_rows(main: &Rows, memory: &[(FE, FE)], offs: &[FE], ch: &Ch, start: &FE, rc_start: &FE) -> Rows {
    let terms = |m: &[(FE, FE)]| m.iter().map(|(a, v)| ch.term(a, v)).collect::<Vec<_>>();
    let perm = products(&terms(&accesses(main)), &terms(memory), start);
    let zs = |m: &[FE]| m.iter().map(|x| &ch.z_rc - x).collect::<Vec<_>>();
    let rcp = products(&zs(&offsets(main)), &zs(offs), rc_start);
    (0..main.len())
        .map(|i| {
            let mut r: Vec<FE> = offs[3 * i..3 * i + 3].to_vec();
            r.extend(memory[4 * i..4 * i + 4].iter().map(|x| x.0.clone()));
            r.extend(memory[4 * i..4 * i + 4].iter().map(|x| x.1.clone()));
            r.extend_from_slice(&perm[4 * i..4 * i + 4]);
            r.extend_from_slice(&rcp[3 * i..3 * i + 3]);
            r
        })
        .collect()
}

/// Sorted accesses with the public memory in place of as many dummy accesses.
pub fn sorted_memory(main: &Rows, pi: &PublicInputs) -> Option<Vec<(FE, FE)>> {
    let mut v = accesses(main);
    let zero = (FE::zero(), FE::zero());
    let mut left = pi.public_memory.len();
    v.retain(|x| {
        if left > 0 && *x == zero {
            left -= 1;
            false
        } else {
            true
        }
    });
    if left > 0 {
        return None;
    }
    v.extend(public_sorted(pi));
    sort_by_address(&mut v);
    Some(v)
}
pub fn sorted_offsets(main: &Rows) -> Vec<FE> {
    let mut v = offsets(main);
    v.sort_by_key(canon);
    v
}

/// Why a main trace does not describe an execution of this public input: the oracle.
/// Independent of how proofs work: rows are decoded and executed one by one.
pub fn not_an_execution(main: &Rows, pi: &PublicInputs) -> Option<String> {
    let n = pi.num_steps;
    if n == 0 || n > main.len() {
        return Some("steps".into());
    }
    // one value per address over the executed rows, the public memory included
    let mut mem: BTreeMap<[u8; 32], FE> = pi.public_memory.iter().map(|(a, v)| (canon(a), v.clone())).collect();
    for (k, r) in main.iter().enumerate() {
        if k + 1 >= n && r[SEL] == FE::zero() {
            continue;
        }
        for (a, v) in accesses(&vec![r.clone()]) {
            match mem.get(&canon(&a)) {
                Some(w) if *w != v => return Some(format!("row {k}: cell {} has two values", hex(&a))),
                _ => {
                    mem.insert(canon(&a), v);
                }
            }
        }
    }
    let at = |a: u64| mem.get(&canon(&FE::from(a))).cloned();
    for k in 0..n.saturating_sub(1) {
        let r = &main[k];
        let (Some(pc), Some(ap), Some(fp)) = (small(&r[PC]), small(&r[AP]), small(&r[FP])) else {
            return Some(format!("row {k}: registers are no addresses"));
        };
        let s = match step(pc, ap, fp, &at) {
            Ok(s) => s,
            Err(e) => return Some(format!("row {k}: {e}")),
        };
        let w = row((pc, ap, fp), &s);
        let jnz_idle = s.instr.pc == Pc::Jnz && s.dst == FE::zero();
        for c in 0..33 {
            // the result of a conditional jump that is not taken means nothing
            if c == RES && jnz_idle {
                continue;
            }
            if w[c] != r[c] {
                return Some(format!("row {k}: column {c}"));
            }
        }
        let nx = &main[k + 1];
        if (&nx[PC], &nx[AP], &nx[FP]) != (&s.next.0, &s.next.1, &s.next.2) {
            return Some(format!("row {k}: registers afterwards"));
        }
    }
    let (a, b) = (&main[0], &main[n - 1]);
    if (&a[PC], &a[AP], &a[FP]) != (&pi.pc_init, &pi.ap_init, &pi.fp_init) {
        return Some("initial registers".into());
    }
    if (&b[PC], &b[AP]) != (&pi.pc_final, &pi.ap_final) {
        return Some("final registers".into());
    }
    None
}

/// Fails with the first constraint or assertion a full trace breaks.
pub fn broken(main: &Rows, aux: &Rows, pi: &PublicInputs, ch: &Ch) -> Option<String> {
    let rc = has_rc(pi);
    let full: Rows = main.iter().zip(aux).map(|(a, b)| [a.clone(), b.clone()].concat()).collect();
    let n = full.len();
    let decl = declared(rc);
    for i in 0..n {
        let v = transitions(&full[i], &full[(i + 1) % n], ch, rc);
        for (k, x) in v.iter().enumerate() {
            if i + decl[k].1 < n && *x != FE::zero() {
                return Some(format!("constraint {k} at row {i}"));
            }
        }
    }
    for (c, r, v) in boundaries(pi, ch, n) {
        if full[r][c] != v {
            return Some(format!("assertion on column {c} at row {r}"));
        }
    }
    None
}

/// Every constraint (with the first row) and every assertion (by number) a full trace breaks.
pub fn all_broken(main: &Rows, aux: &Rows, pi: &PublicInputs, ch: &Ch) -> (BTreeMap<usize, usize>, Vec<usize>) {
    let rc = has_rc(pi);
    let full: Rows = main.iter().zip(aux).map(|(a, b)| [a.clone(), b.clone()].concat()).collect();
    let n = full.len();
    let decl = declared(rc);
    let mut cons = BTreeMap::new();
    for i in 0..n {
        let v = transitions(&full[i], &full[(i + 1) % n], ch, rc);
        for (k, x) in v.iter().enumerate() {
            if i + decl[k].1 < n && *x != FE::zero() {
                cons.entry(k).or_insert(i);
            }
        }
    }
    let asserts = boundaries(pi, ch, n)
        .iter()
        .enumerate()
        .filter(|(_, (c, r, v))| full.get(*r).map(|x| x[*c] != *v).unwrap_or(true))
        .map(|(k, _)| k)
        .collect();
    (cons, asserts)
}

pub fn air(pi: &PublicInputs, rows: usize, o: &ProofOptions) -> CairoAIR {
    CairoAIR::new(rows, pi, o)
}

/// Completes executed rows to a full main trace in a way of its own: offsets and memory made
/// continuous, dummy accesses for the public memory, padding. Sets the range-check bounds.
pub fn extend(exec: &Rows, pi: &mut PublicInputs) -> Option<Rows> {
    extend_up_to(exec, pi, 1 << 14)
}

/// With addresses up to `most`.
pub fn extend_up_to(exec: &Rows, pi: &mut PublicInputs, most: u64) -> Option<Rows> {
    let mut rows = exec.clone();
    let width = rows[0].len();
    let blank = vec![FE::zero(); width];
    let val = |x: &FE| small(x).filter(|v| *v < 1 << 16);
    let mut offs = vec![];
    for o in offsets(&rows) {
        // what is no offset at all is a cheater's
        offs.extend(val(&o));
    }
    offs.sort();
    let (lo, hi) = (offs[0], offs[offs.len() - 1]);
    // any value in between fills the unused offsets; the extremes may then be there only once
    let fill = [hi, lo, (lo + hi) / 2][exec.len() % 3];
    let have: std::collections::BTreeSet<u64> = offs.into_iter().collect();
    let missing: Vec<u64> = (lo..=hi).filter(|o| !have.contains(o)).collect();
    for c in missing.chunks(3) {
        let mut r = blank.clone();
        for k in 0..3 {
            r[OFF_DST + k] = FE::from(*c.get(k).unwrap_or(&fill));
        }
        rows.push(r);
    }
    let mut filler = blank.clone();
    for k in 0..3 {
        filler[OFF_DST + k] = FE::from(fill);
    }
    let mut addrs: std::collections::BTreeSet<u64> = pi.public_memory.keys().filter_map(small).collect();
    for (a, _) in accesses(&rows) {
        addrs.insert(small(&a)?);
    }
    let top = *addrs.iter().last()?;
    if top > most {
        return None;
    }
    let holes: Vec<u64> = (1..top).filter(|a| !addrs.contains(a)).collect();
    for c in holes.chunks(4) {
        let mut r = filler.clone();
        for (k, a) in c.iter().enumerate() {
            r[[PC, DST_ADDR, OP0_ADDR, OP1_ADDR][k]] = FE::from(*a);
        }
        rows.push(r);
    }
    for _ in 0..pi.public_memory.len() / 4 + 1 {
        rows.push(filler.clone());
    }
    while !rows.len().is_power_of_two() {
        rows.push(filler.clone());
    }
    pi.range_check_min = Some(lo as u16);
    pi.range_check_max = Some(hi as u16);
    Some(rows)
}

/// A small valid run with its extended trace and public input.
pub fn subject(k: usize, rng: &mut Rng) -> Option<(Run, Rows, PublicInputs)> {
    let run = if k % 3 == 2 {
        let mut r = wild(rng.range(2, 20), &[(1, 50), (60, 80)], rng.range(4, 20) as u64, rng)?;
        if rng.chance(1, 2) {
            with_output(&mut r, rng);
        }
        r
    } else {
        let mut g = structured(rng, 24);
        g.vm = false;
        generate(&g, rng)
    };
    if run.rc.map_or(false, |(s, e)| (e - s) as usize > run.regs.len()) {
        return None;
    }
    let exec = exec_rows(&run).ok()?;
    let mut pi = run.inputs();
    let main = extend(&exec, &mut pi)?;
    (main.len() <= 256).then_some((run, main, pi))
}

