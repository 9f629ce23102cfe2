//! C25: a Cairo execution that did not happen cannot be proved.
use harness::cairo::*;
use harness::cairoair::*;
use harness::forge::*;
use harness::report::Check;
use harness::rng::Rng;
use lambdaworks_stark::cairo::air::PublicInputs;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::FE;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

struct Base {
    run: Run,
    pi: PublicInputs,
    exec: Rows,
    main: Rows,
}

fn base(rng: &mut Rng, i: usize) -> Option<Base> {
    let g = Gen {
        steps: rng.range(3, 14),
        code: rng.range(20, 44) as u64,
        rc: if i % 3 == 0 { Some(3) } else { None },
        out: if i % 4 == 1 { Some(3) } else { None },
        vm: i % 5 == 2,
        holes: rng.below(3) as u64,
        abrupt: i % 2 == 0,
    };
    let mut run = generate(&g, rng);
    let mut exec = exec_rows(&run).ok()?;
    // half of the runs call something, not as their last step
    for _ in 0..30 {
        if i % 2 == 0 || exec[..exec.len() - 1].iter().any(|r| r[12] == FE::one()) {
            break;
        }
        run = generate(&g, rng);
        exec = exec_rows(&run).ok()?;
    }
    let mut pi = run.inputs();
    let main = rows_of(&build_main_trace(&run.states(), &run.memory(), &mut pi));
    if main.len() > 128 || exec.len() < 3 {
        return None;
    }
    Some(Base { run, pi, exec, main })
}

fn other(rng: &mut Rng, v: &FE, row: &[FE]) -> FE {
    loop {
        let w = match rng.below(7) {
            0 => v + FE::one(),
            1 => v - FE::one(),
            2 => FE::zero(),
            3 => FE::one(),
            4 => rng.fe_big(),
            5 => v + FE::from(1u64 << [15, 16, 32, 48][rng.below(4)]),
            _ => row[rng.below(row.len())].clone(),
        };
        if w != *v {
            return w;
        }
    }
}

/// A departure from the execution: main trace, claim, description.
fn tamper(b: &Base, rng: &mut Rng) -> Option<(Rows, PublicInputs, String)> {
    let n = b.pi.num_steps;
    let last = n - 1;
    let k = pick_step(b, rng);
    let mut pi = b.pi.clone();
    let mut main = b.main.clone();
    let kind = rng.below(26);
    let what = match kind {
        // some cell
        0..=3 => {
            let c = rng.below(34);
            main[k][c] = other(rng, &main[k][c], &b.main[k]);
            format!("row {k} column {c}")
        }
        // several cells of one row
        4 => {
            let cs: Vec<usize> = (0..rng.range(2, 4)).map(|_| rng.below(34)).collect();
            for c in &cs {
                main[k][*c] = other(rng, &main[k][*c], &b.main[k]);
            }
            format!("row {k} columns {cs:?}")
        }
        // one access reads something else, everything else follows from it
        5..=7 => return lie(b, k, rng),
        // a step left out, repeated or exchanged
        8 => {
            let mut e = b.exec.clone();
            let w = rng.below(3);
            let j = rng.below(last);
            match w {
                0 => {
                    e.remove(k);
                }
                1 => {
                    let r = e[k].clone();
                    e.insert(k, r)
                }
                _ => e.swap(k, j),
            }
            pi.num_steps = e.len();
            fix_selector(&mut e);
            pi.pc_init = e[0][PC].clone();
            pi.ap_init = e[0][AP].clone();
            pi.fp_init = e[0][FP].clone();
            let z = &e[e.len() - 1];
            pi.pc_final = z[PC].clone();
            pi.ap_final = z[AP].clone();
            if pi.num_steps < 2 {
                return None;
            }
            main = extend(&e, &mut pi)?;
            format!("steps {} {k} {j}", ["without", "twice", "exchanged"][w])
        }
        // constraints switched off
        9 | 10 => {
            let w = rng.below(3);
            let j = rng.range(k, last);
            for r in main.iter_mut().take(if w == 0 { n } else { j + 1 }).skip(k) {
                r[SEL] = if w == 2 { rng.fe() } else { FE::zero() };
            }
            // and something wrong in a row that is off
            let c = rng.below(33);
            main[k][c] = other(rng, &main[k][c], &b.main[k]);
            format!("selector changed from row {k}, column {c} too")
        }
        // the instruction taken apart in another way
        11 => {
            let j = rng.below(2);
            let up = rng.chance(1, 2);
            let d = FE::from(1u64 << 16);
            if up {
                main[k][OFF_DST + j] = &main[k][OFF_DST + j] + &d;
                main[k][OFF_DST + j + 1] = &main[k][OFF_DST + j + 1] - FE::one();
            } else {
                main[k][OFF_DST + j] = &main[k][OFF_DST + j] - &d;
                main[k][OFF_DST + j + 1] = &main[k][OFF_DST + j + 1] + FE::one();
            }
            if rng.chance(1, 2) {
                // move the addresses along
                let (x, y) = ([DST_ADDR, OP0_ADDR][j], [OP0_ADDR, OP1_ADDR][j]);
                let s = |p: FE, up: bool, d: FE| if up { p + d } else { p - d };
                main[k][x] = s(main[k][x].clone(), up, d);
                main[k][y] = s(main[k][y].clone(), !up, FE::one());
            }
            format!("row {k} offsets {j} carried")
        }
        // a memory cell changed wherever it is accessed, and not in the public memory
        12 => {
            let acc = accesses(&b.exec);
            let (a, v) = acc[rng.below(acc.len())].clone();
            let w = other(rng, &v, &b.main[k]);
            for r in main.iter_mut() {
                for (x, y) in [(PC, INST), (DST_ADDR, DST), (OP0_ADDR, OP0), (OP1_ADDR, OP1)] {
                    if r[x] == a {
                        r[y] = w.clone();
                    }
                }
            }
            format!("cell {} changed", hex(&a))
        }
        // the claim is changed, the trace is not
        13 => {
            let w = rng.below(7);
            // near, special, or equal to another claim
            let near = |x: &FE, rng: &mut Rng| match rng.below(3) {
                0 => x + FE::from(rng.range(1, 3) as u64),
                1 => x - FE::from(rng.range(1, 3) as u64),
                _ => {
                    let all = [&b.pi.pc_init, &b.pi.ap_init, &b.pi.fp_init, &b.pi.pc_final, &b.pi.ap_final];
                    let steps = FE::from(n as u64);
                    let special = [FE::zero(), FE::one(), steps, -FE::one()];
                    if rng.chance(2, 3) { all[rng.below(5)].clone() } else { special[rng.below(4)].clone() }
                }
            };
            match w {
                0 => pi.pc_init = near(&pi.pc_init, rng),
                1 => pi.ap_init = near(&pi.ap_init, rng),
                2 => pi.fp_init = near(&pi.fp_init, rng),
                3 => pi.pc_final = near(&pi.pc_final, rng),
                4 => pi.ap_final = near(&pi.ap_final, rng),
                5 => pi.num_steps = rng.range(1, n - 1),
                _ => {
                    let keys: Vec<FE> = public_sorted(&pi).into_iter().map(|x| x.0).collect();
                    let a = keys[rng.below(keys.len())].clone();
                    let v = pi.public_memory[&a].clone();
                    let v = other(rng, &v, &b.main[k]);
                    pi.public_memory.insert(a, v);
                }
            }
            format!("claim {w}")
        }
        // one fact about a step is false, everything else follows from it
        14..=24 => return fault(b, k, rng),
        // columns of two rows exchanged
        _ => {
            let j = rng.below(last);
            let c = rng.below(34);
            let (x, y) = (main[k][c].clone(), main[j][c].clone());
            main[k][c] = y;
            main[j][c] = x;
            format!("rows {k} and {j} column {c} exchanged")
        }
    };
    Some((main, pi, what))
}

/// A step before the last: rare kinds of instructions as likely as frequent ones.
fn pick_step(b: &Base, rng: &mut Rng) -> usize {
    let last = b.pi.num_steps - 1;
    if rng.chance(1, 5) {
        return last - 1;
    }
    let mut kinds: BTreeMap<Vec<[u8; 32]>, Vec<usize>> = Default::default();
    for k in 0..last {
        kinds.entry([7, 8, 9, 12, 13, 14].iter().map(|c| canon(&b.exec[k][*c])).collect()).or_default().push(k);
    }
    let v: Vec<&Vec<usize>> = kinds.values().collect();
    let v = v[rng.below(v.len())];
    v[rng.below(v.len())]
}

/// Gives unknown cells the values that let this step happen.
fn supply(pc: u64, ap: u64, fp: u64, mem: &mut Mem, rng: &mut Rng) -> Option<Step> {
    let i = Instr::decode(small(mem.get(&pc)?)?)?;
    let at = |base: u64, o: i32| base.checked_add_signed(o as i64).filter(|a| *a > 0 && *a < 1 << 13);
    let d = at(if i.dst_fp { fp } else { ap }, i.off_dst)?;
    let o = at(if i.op0_fp { fp } else { ap }, i.off_op0)?;
    if i.opc == Opc::Call {
        mem.entry(d).or_insert(FE::from(fp));
        mem.entry(o).or_insert(FE::from(pc + i.size()));
    }
    mem.entry(o).or_insert_with(|| FE::from(rng.range(1, 60) as u64));
    let base = match i.op1 {
        Op1::Op0 => small(&mem[&o])?,
        Op1::Imm => pc,
        Op1::Fp => fp,
        Op1::Ap => ap,
    };
    mem.entry(at(base, i.off_op1)?).or_insert_with(|| FE::from(rng.range(0, 60) as u64));
    if !mem.contains_key(&d) {
        let v = if i.opc == Opc::Aeq {
            let mut free = i;
            free.opc = Opc::Nop;
            let w = FE::from(free.encode());
            mem.insert(d, FE::zero());
            let r = step(pc, ap, fp, &|x| if x == pc { Some(w.clone()) } else { mem.get(&x).cloned() }).ok()?.res?;
            mem.remove(&d);
            r
        } else if i.opc == Opc::Ret {
            FE::from(fp)
        } else {
            FE::from(rng.below(3) as u64)
        };
        mem.insert(d, v);
    }
    step(pc, ap, fp, &|x| mem.get(&x).cloned()).ok()
}

type Mem = BTreeMap<u64, FE>;

/// The run again, from the start, with one false fact about step k.
fn fault(b: &Base, k: usize, rng: &mut Rng) -> Option<(Rows, PublicInputs, String)> {
    let mut mem: Mem = b.run.mem.clone();
    let (pc, ap, fp) = b.run.regs[k];
    let s0 = step(pc, ap, fp, &|a| mem.get(&a).cloned()).ok()?;
    let mut kind = rng.below(19);
    match s0.instr.opc {
        Opc::Call if rng.chance(1, 2) => kind = 0,
        Opc::Aeq if rng.chance(1, 5) => kind = 0,
        _ => {}
    }
    let near = |v: &FE, rng: &mut Rng| match rng.below(6) {
        0 | 1 => v + FE::one(),
        2 => v - FE::one(),
        3 => v + FE::from(2u64),
        4 => b.exec[k][rng.below(33)].clone(),
        _ => FE::from(rng.below(50) as u64),
    };
    if kind == 0 {
        // a cell holds something else throughout, and the step's own check is forgotten
        let a = [s0.dst_addr, s0.op0_addr, s0.op1_addr][rng.below(3)];
        if b.pi.public_memory.contains_key(&FE::from(a)) {
            return None;
        }
        let v = near(&mem[&a], rng);
        mem.insert(a, v);
    }
    let (mut pc, mut ap, mut fp) = b.run.regs[0];
    let mut exec: Rows = vec![];
    let most = b.pi.num_steps + rng.below(4);
    let mut what = String::new();
    let width = b.exec[0].len();
    let tail = |e: usize| -> Vec<FE> { b.exec.get(e).map(|r| r[34..].to_vec()).unwrap_or(vec![FE::zero(); width - 34]) };
    while exec.len() + 1 < most {
        let j = exec.len();
        if j == k && (11..=16).contains(&kind) {
            let word = small(mem.get(&pc)?)?;
            let mut f: Vec<FE> = (0..16).map(|i| FE::from(word >> (48 + i) & 1)).collect();
            let mut offs: Vec<FE> = (0..3).map(|i| FE::from(word >> (16 * i) & 0xffff)).collect();
            let mut helpers = [None, None, None];
            match kind {
                // flags that are not bits, with the same word
                11..=13 => {
                    let i = rng.below(14);
                    let j = (i + 1 + rng.below(4)).min(14);
                    let (d, one) = (FE::from(1u64 << (j - i)), FE::one());
                    // the other flag stays a bit, mostly
                    let up = (f[j] == one) != rng.chance(1, 8);
                    if up {
                        f[i] = &f[i] + d;
                        f[j] = &f[j] - one;
                    } else {
                        f[i] = &f[i] - d;
                        f[j] = &f[j] + one;
                    }
                    what = format!("step {k}, flags {i} and {j} are no bits");
                }
                // offsets outside of their range, with the same word
                14 => {
                    let i = rng.below(3);
                    let d = FE::from(1u64 << 16);
                    let next = if i < 2 { &mut offs[i + 1] } else { &mut f[0] };
                    if rng.chance(1, 2) {
                        *next = &*next - FE::one();
                        offs[i] = &offs[i] + d;
                    } else {
                        *next = &*next + FE::one();
                        offs[i] = &offs[i] - d;
                    }
                    what = format!("step {k}, offset {i} carried");
                }
                // a helper column
                _ => {
                    let i = rng.below(3);
                    let w = b.exec[k][[T0, T1, MUL][i]].clone();
                    helpers[i] = Some(near(&w, rng));
                    what = format!("step {k}, helper {i}");
                }
            }
            let (mut r, next) = algebra(b, &f, &offs, &helpers, (pc, ap, fp), &mut mem, &exec)?;
            r.push(FE::one());
            r.extend(tail(j));
            exec.push(r);
            let (Some(x), Some(y), Some(z)) = (small(&next.0), small(&next.1), small(&next.2)) else {
                let mut q = exec.last()?.clone();
                (q[PC], q[AP], q[FP]) = next;
                return finish(b, exec, q, what, rng);
            };
            (pc, ap, fp) = (x, y, z);
            continue;
        }
        let s = if j == k && kind == 10 {
            // another instruction is executed than the one in memory
            let word = small(mem.get(&pc)?)?;
            let other = match rng.below(3) {
                0 => word ^ 1 << (48 + rng.below(15)),
                1 => word.checked_add(1 << (16 * rng.below(3)))?,
                _ => word.checked_sub(1 << (16 * rng.below(3)))?,
            };
            Instr::decode(other)?;
            let old = mem.insert(pc, FE::from(other))?;
            let s = supply(pc, ap, fp, &mut mem, rng);
            mem.insert(pc, old.clone());
            s.map(|mut s| {
                s.word = old;
                s
            })
        } else if j == k && kind == 0 {
            // as if the instruction checked nothing
            let i = Instr::decode(small(mem.get(&pc)?)?)?;
            match step(pc, ap, fp, &|a| mem.get(&a).cloned()) {
                Ok(s) => Some(s),
                Err(_) if i.opc == Opc::Aeq || i.opc == Opc::Call => {
                    let mut free = i;
                    free.opc = Opc::Nop;
                    let w = FE::from(free.encode());
                    let t = step(pc, ap, fp, &|x| if x == pc { Some(w.clone()) } else { mem.get(&x).cloned() }).ok();
                    t.map(|mut t| {
                        t.instr = i;
                        t.word = mem[&pc].clone();
                        if i.opc == Opc::Call {
                            t.next.1 = FE::from(ap + 2);
                            t.next.2 = FE::from(ap + 2);
                        }
                        t
                    })
                }
                Err(_) => None,
            }
        } else {
            supply(pc, ap, fp, &mut mem, rng)
        };
        let Some(mut s) = s else { break };
        if j == k {
            what = format!("step {k}, fact {kind}");
            let cells: Vec<u64> = mem.keys().cloned().collect();
            let addr = |a: u64, rng: &mut Rng| -> u64 {
                match rng.below(3) {
                    0 => a + 1,
                    1 => a.saturating_sub(1).max(1),
                    _ => cells[rng.below(cells.len())],
                }
            };
            // what follows from the operands
            let follow = |s: &mut Step, res: bool| {
                if res && s.res.is_some() {
                    s.res = Some(match s.instr.res {
                        Res::Op1 => s.op1.clone(),
                        Res::Add => &s.op0 + &s.op1,
                        Res::Mul => &s.op0 * &s.op1,
                    });
                }
                let seq = FE::from(pc + s.instr.size());
                if let Some(r) = s.res.clone() {
                    match s.instr.pc {
                        Pc::Abs => s.next.0 = r.clone(),
                        Pc::Rel => s.next.0 = FE::from(pc) + &r,
                        _ => {}
                    }
                    if s.instr.opc != Opc::Call && s.instr.ap == Ap::AddRes {
                        s.next.1 = FE::from(ap) + &r;
                    }
                }
                if s.instr.pc == Pc::Jnz {
                    s.next.0 = if s.dst == FE::zero() { seq } else { FE::from(pc) + &s.op1 };
                }
                if s.instr.opc == Opc::Ret {
                    s.next.2 = s.dst.clone();
                }
            };
            let read = |a: u64| mem.get(&a).cloned().unwrap_or(FE::zero());
            match kind {
                0 => {}
                // read as zero, this once
                17 | 18 => {
                    match rng.below(3) {
                        0 => s.dst = FE::zero(),
                        1 => s.op0 = FE::zero(),
                        _ => s.op1 = FE::zero(),
                    }
                    follow(&mut s, true);
                }
                1 => {
                    s.dst_addr = addr(s.dst_addr, rng);
                    s.dst = read(s.dst_addr);
                    follow(&mut s, true);
                }
                2 => {
                    s.op0_addr = addr(s.op0_addr, rng);
                    s.op0 = read(s.op0_addr);
                    follow(&mut s, true);
                }
                3 => {
                    s.op1_addr = addr(s.op1_addr, rng);
                    s.op1 = read(s.op1_addr);
                    follow(&mut s, true);
                }
                4 => {
                    let r = s.res.clone()?;
                    s.res = Some(near(&r, rng));
                    follow(&mut s, false);
                }
                10 => {}
                5 => s.next.0 = near(&s.next.0, rng),
                6 | 7 => s.next.1 = near(&s.next.1, rng),
                8 => s.next.2 = near(&s.next.2, rng),
                _ => {
                    // a conditional jump goes the other way
                    if s.instr.pc != Pc::Jnz {
                        s.next.1 = near(&s.next.1, rng);
                    } else if s.dst == FE::zero() {
                        s.next.0 = FE::from(pc) + &s.op1;
                    } else {
                        s.next.0 = FE::from(pc + s.instr.size());
                    }
                }
            }
        }
        let mut r = row((pc, ap, fp), &s);
        r.push(FE::one());
        r.extend(tail(j));
        exec.push(r);
        let (Some(x), Some(y), Some(z)) = (small(&s.next.0), small(&s.next.1), small(&s.next.2)) else {
            // registers that are no addresses end the run
            let mut q = exec.last()?.clone();
            (q[PC], q[AP], q[FP]) = (s.next.0.clone(), s.next.1.clone(), s.next.2.clone());
            return finish(b, exec, q, what, rng);
        };
        (pc, ap, fp) = (x, y, z);
    }
    if exec.len() <= k {
        return None;
    }
    // the last step is never executed: only its registers count
    let mut q = exec.last()?.clone();
    (q[PC], q[AP], q[FP]) = (FE::from(pc), FE::from(ap), FE::from(fp));
    q[INST] = mem.get(&pc).cloned().unwrap_or(FE::zero());
    finish(b, exec, q, what, rng)
}

/// A row that satisfies the equations of a step for these flags, offsets and helpers, whether they
/// make sense or not, as far as possible.
#[allow(clippy::type_complexity)]
fn algebra(
    b: &Base,
    f: &[FE],
    offs: &[FE],
    helpers: &[Option<FE>; 3],
    (pc, ap, fp): (u64, u64, u64),
    mem: &mut Mem,
    before: &Rows,
) -> Option<(Vec<FE>, (FE, FE, FE))> {
    let one = FE::one();
    let half = FE::from(1u64 << 15);
    let (fpc, fap, ffp) = (FE::from(pc), FE::from(ap), FE::from(fp));
    let mut read = |a: &FE, default: FE| -> Option<FE> {
        let a = small(a).filter(|a| *a > 0 && *a < 1 << 13)?;
        Some(mem.entry(a).or_insert(default).clone())
    };
    let inst = read(&fpc, FE::zero())?;
    let dst_addr = &fap + &f[0] * (&ffp - &fap) + &offs[0] - &half;
    let op0_addr = &fap + &f[1] * (&ffp - &fap) + &offs[1] - &half;
    let size = &f[2] + &one;
    let after = &fpc + &size;
    let op0 = read(&op0_addr, if f[12] == one { after.clone() } else { one.clone() })?;
    let op1_addr = &op0 + &f[2] * (&fpc - &op0) + &f[4] * (&fap - &op0) + &f[3] * (&ffp - &op0) + &offs[2] - &half;
    let op1 = read(&op1_addr, one.clone())?;
    let mul = helpers[2].clone().unwrap_or(&op0 * &op1);
    let jnz = &f[9];
    let num = &f[5] * (&op0 + &op1) + &f[6] * &mul + (&one - &f[5] - &f[6] - jnz) * &op1;
    let fixed = (jnz != &one).then(|| &num * (&one - jnz).inv());
    let default = if f[14] != FE::zero() { fixed.clone().unwrap_or(one.clone()) } else { ffp.clone() };
    let mut dst = read(&dst_addr, default)?;
    if let (true, Some(r)) = (f[14] != FE::zero(), &fixed) {
        // an asserted cell nobody has seen yet takes the value that fits
        let seen = accesses(before).iter().any(|x| x.0 == dst_addr) || b.pi.public_memory.contains_key(&dst_addr);
        if !seen && dst_addr != op0_addr && dst_addr != op1_addr && dst_addr != fpc {
            mem.insert(small(&dst_addr)?, r.clone());
            dst = r.clone();
        }
    }
    let t0 = helpers[0].clone().unwrap_or(jnz * &dst);
    let res = match fixed {
        Some(r) => r,
        None if t0 != FE::zero() => t0.inv(),
        None => FE::zero(),
    };
    let t1 = helpers[1].clone().unwrap_or(&t0 * &res);
    let planned = (&one - &f[7] - &f[8] - jnz) * &after + &f[7] * &res + &f[8] * (&fpc + &res);
    let den = &t0 + &one - jnz;
    let npc = if den == FE::zero() { after } else { (planned + &t0 * (&fpc + &op1)) * den.inv() };
    let nap = &fap + &f[10] * &res + &f[11] + &f[12] * FE::from(2u64);
    let nfp = &ffp + &f[13] * (&dst - &ffp) + &f[12] * (&fap + FE::from(2u64) - &ffp);
    let mut r = f.to_vec();
    r.extend([res, fap, ffp, fpc, dst_addr, op0_addr, op1_addr, inst, dst, op0, op1]);
    r.extend(offs.iter().cloned());
    r.extend([t0, t1, mul]);
    Some((r, (npc, nap, nfp)))
}

fn finish(b: &Base, mut exec: Rows, mut q: Vec<FE>, what: String, rng: &mut Rng) -> Option<(Rows, PublicInputs, String)> {
    for c in 34..q.len() {
        q[c] = FE::zero();
    }
    if let Some(r) = b.exec.get(exec.len()) {
        q[34..].clone_from_slice(&r[34..]);
    }
    exec.push(q);
    fix_selector(&mut exec);
    let mut pi = b.pi.clone();
    pi.num_steps = exec.len();
    let z = &exec[exec.len() - 1];
    pi.pc_final = z[PC].clone();
    pi.ap_final = z[AP].clone();
    let mut main = extend(&exec, &mut pi)?;
    // the unused accesses and offsets of the other rows are free
    let (n, steps) = (main.len(), exec.len());
    let fill = main[n - 1][OFF_DST].clone();
    let acc = accesses(&exec);
    let twice = acc.iter().find(|x| x.1 == FE::zero() && acc.iter().any(|y| y.0 == x.0 && y.1 != x.1)).cloned();
    let lo = pi.range_check_min? as u64;
    let hi = pi.range_check_max? as u64;
    let odd = offsets(&exec).into_iter().find(|x| small(x).map(|x| x < lo || x > hi).unwrap_or(true));
    for (what, copies) in [(twice, 3usize), (odd.map(|x| (x, FE::zero())), 2)] {
        let (Some((a, v)), true) = (what, rng.chance(2, 3)) else { continue };
        let mut left = copies;
        for k in (steps..n).rev() {
            if copies == 3 {
                for (x, y) in [(PC, INST), (DST_ADDR, DST), (OP0_ADDR, OP0), (OP1_ADDR, OP1)] {
                    if left > 0 && k + 1 < n && main[k][x] == FE::zero() && main[k][y] == FE::zero() {
                        main[k][x] = a.clone();
                        main[k][y] = v.clone();
                        left -= 1;
                    }
                }
            } else {
                for c in OFF_DST..OFF_DST + 3 {
                    if left > 0 && main[k][c] == fill {
                        main[k][c] = a.clone();
                        left -= 1;
                    }
                }
            }
        }
    }
    Some((main, pi, what))
}

fn fix_selector(e: &mut Rows) {
    let n = e.len();
    for (k, r) in e.iter_mut().enumerate() {
        r[SEL] = if k + 1 == n { FE::zero() } else { FE::one() };
    }
}

fn lie(b: &Base, k: usize, rng: &mut Rng) -> Option<(Rows, PublicInputs, String)> {
    let (pc, ap, fp) = b.run.regs[k];
    let get = |a: u64| b.run.mem.get(&a).cloned();
    let s = step(pc, ap, fp, &get).ok()?;
    let mut lies: Vec<(u64, FE)> = vec![];
    let places = [s.dst_addr, s.op0_addr, s.op1_addr];
    let a = places[rng.below(3)];
    let v = get(a)?;
    let mut row_values: Vec<FE> = b.exec[k].clone();
    row_values.push(FE::from(rng.below(40) as u64));
    lies.push((a, other(rng, &v, &row_values)));
    let read = |lies: &Vec<(u64, FE)>, a: u64| lies.iter().find(|l| l.0 == a).map(|l| l.1.clone()).or(get(a));
    let mut t = step(pc, ap, fp, &|x| read(&lies, x));
    if t.is_err() && s.instr.opc == Opc::Aeq {
        // let the asserted cell follow
        let mut free = s.clone();
        free.instr.opc = Opc::Nop;
        let w = FE::from(free.instr.encode());
        let f = step(pc, ap, fp, &|x| if x == pc { Some(w.clone()) } else { read(&lies, x) }).ok()?;
        lies.push((s.dst_addr, f.res?));
        t = step(pc, ap, fp, &|x| read(&lies, x));
    }
    let t = t.ok()?;
    let mut pi = b.pi.clone();
    let mut exec: Rows = b.exec[..k].to_vec();
    let mut r = row((pc, ap, fp), &t);
    r.push(FE::one());
    r.extend(b.exec[k][34..].iter().cloned());
    exec.push(r.clone());
    if t.next == s.next {
        exec.extend(b.exec[k + 1..].iter().cloned());
    } else {
        // the machine goes on from where the lie took it
        let (mut pc, mut ap, mut fp) = (small(&t.next.0)?, small(&t.next.1)?, small(&t.next.2)?);
        let mut more = rng.below(4);
        while more > 0 {
            let Ok(u) = step(pc, ap, fp, &get) else { break };
            let (Some(x), Some(y), Some(z)) = (small(&u.next.0), small(&u.next.1), small(&u.next.2)) else { break };
            let mut q = row((pc, ap, fp), &u);
            q.push(FE::one());
            q.resize(r.len(), FE::zero());
            exec.push(q);
            (pc, ap, fp) = (x, y, z);
            more -= 1;
        }
        // the last step is never executed: only its registers count
        let mut q = r.clone();
        (q[PC], q[AP], q[FP]) = (FE::from(pc), FE::from(ap), FE::from(fp));
        q[INST] = get(pc).unwrap_or(FE::zero());
        exec.push(q);
        for (i, q) in exec.iter_mut().enumerate() {
            if i > 0 {
                for c in 34..q.len() {
                    q[c] = FE::zero();
                }
            }
        }
    }
    fix_selector(&mut exec);
    pi.num_steps = exec.len();
    let z = &exec[exec.len() - 1];
    pi.pc_final = z[PC].clone();
    pi.ap_final = z[AP].clone();
    let main = extend(&exec, &mut pi)?;
    Some((main, pi, format!("step {k} reads {} at {a} instead", hex(&lies[0].1))))
}

fn detail(b: &Base, what: &str, why: &str, plan: &Plan) -> Value {
    json!({"run": b.run.brief(), "departure": what, "why": why, "aux": format!("{:?}/{:?}/{:?}/{:?}/{}", plan.memory, plan.start, plan.offsets, plan.rc_start, plan.first)})
}

/// A run that checks the range of a number above 2^128: it never happened, the builtin refuses it.
fn out_of_range(ck: &mut Check, o: &ProofOptions, extra: u64) -> Result<(), String> {
    let big = FE::from(2u64).pow(128u64) + FE::from(extra);
    let i = Instr {
        off_dst: 0,
        off_op0: -1,
        off_op1: 1,
        dst_fp: false,
        op0_fp: true,
        op1: Op1::Imm,
        res: Res::Op1,
        pc: Pc::Next,
        ap: Ap::Inc,
        opc: Opc::Aeq,
    };
    let check = Instr { off_dst: -1, off_op0: -2, off_op1: 0, op0_fp: false, op1: Op1::Op0, ap: Ap::Keep, ..i };
    let jump = Instr { op1: Op1::Imm, off_op1: 1, pc: Pc::Rel, opc: Opc::Nop, ap: Ap::Keep, off_dst: -1, ..i };
    // 1: [ap] = rc; 3: [ap] = big; 5: [ap-1] = [[ap-2]]; 6: jmp rel 0
    let exec = 8;
    let rc = exec + 5;
    let code = [(i, Some(FE::from(rc))), (i, Some(big.clone())), (check, None), (jump, Some(FE::zero()))];
    let cells = [(exec + 2, FE::from(rc)), (exec + 3, big.clone()), (exec + 4, FE::zero()), (rc, big.clone())];
    let run = by_hand(&code, &cells, 3, Some((rc, rc + 1)))?;
    let mut exec = exec_rows(&run)?;
    for r in exec.iter_mut() {
        for c in 34..r.len() {
            r[c] = FE::zero();
        }
    }
    let mut pi = run.inputs();
    let main = extend(&exec, &mut pi).ok_or("no completion")?;
    let plan = Plan { pi: pi.clone(), memory: Memory::Honest, start: Start::One, offsets: Memory::Honest, rc_start: Start::One, first: false };
    let p = prove_forged(&main, &Arc::new(plan), o).ok_or("no proof")?;
    ck.count("out-of-range builtin cells judged", 1);
    if accepted(&p, &pi, o) == Ok(true) {
        ck.violation("rc-cell-out-of-range", json!({"range-check cell": hex(&big), "program": run.program_json()}));
    }
    Ok(())
}

type Candidate = (Rows, PublicInputs, String, String, Plan, BTreeMap<usize, usize>, Vec<usize>, Option<(usize, usize)>);

fn main() {
    let mut ck = Check::new(
        "C25",
        "one evaluation per false execution (the oracle, executing the trace row by row, says why it is false) turned into \
         a proof with honest or forged auxiliary columns and given to the real verifier; distinct by run, departure and plan",
    );
    let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 8, coset_offset: 3, grinding_factor: 0 };
    let o4 = ProofOptions { blowup_factor: 4, fri_number_of_queries: 5, coset_offset: 3, grinding_factor: 1 };
    let mut alone: BTreeMap<(usize, usize), usize> = BTreeMap::new();
    let n = ck.n(36, 700);
    let per = ck.n(40, 60);
    for i in 0..n {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        let Some(b) = base(&mut rng, i) else { continue };
        let o = if i % 4 == 3 { &o4 } else { &o };
        // the honest way works
        let ch = Ch::random(&mut rng);
        let honest = Plan {
            pi: b.pi.clone(),
            memory: Memory::Honest,
            start: Start::One,
            offsets: Memory::Honest,
            rc_start: Start::One,
            first: false,
        };
        ck.begin(&b.run.brief().to_string());
        if let Some(p) = prove_forged(&b.main, &Arc::new(honest.clone()), o) {
            if accepted(&p, &b.pi, o) == Ok(true) {
                ck.count("true executions accepted", 1);
            } else {
                ck.count("true executions rejected", 1);
            }
        }
        if let Some(why) = not_an_execution(&b.main, &b.pi) {
            panic!("oracle disagrees with the generator: {why} {}", b.run.brief());
        }
        for _ in 0..per {
            if ck.stop() {
                break;
            }
            // of a few candidates, the one that stands on the fewest constraints, the least tried first
            let mut best: Option<(usize, Candidate)> = None;
            for _ in 0..if rng.chance(1, 4) { 1 } else { 6 } {
                let Some((main, pi, what)) = tamper(&b, &mut rng) else { continue };
                let Some(why) = not_an_execution(&main, &pi) else {
                    ck.count("departures without consequence", 1);
                    continue;
                };
                let mut plan = if rng.chance(3, 5) { Plan { pi: pi.clone(), ..honest.clone() } } else { random_plan(&pi, main.len(), &mut rng) };
                plan.pi = pi.clone();
                let (cons, asserts) = all_broken(&main, &forged_aux(&main, &plan, &ch), &pi, &ch);
                let n = pi.num_steps;
                let place = |r: usize| if r == 0 { 0 } else if r + 2 >= n && r < n { 1 } else if r >= n { 2 } else { 3 };
                let sole = match (cons.len(), asserts.len()) {
                    (1, 0) => cons.iter().next().map(|(k, r)| (*k, place(*r))),
                    (0, 1) => Some((100 + asserts[0], 0)),
                    (0, 0) => Some((1000, 0)),
                    _ => None,
                };
                let score = match &sole {
                    Some(k) => *alone.get(k).unwrap_or(&0),
                    None => 100_000 + cons.len() + asserts.len(),
                };
                if best.as_ref().map(|x| score < x.0).unwrap_or(true) {
                    best = Some((score, (main, pi, what, why, plan, cons, asserts, sole)));
                }
            }
            let Some((_, (main, pi, what, why, plan, cons, asserts, sole))) = best else { continue };
            if let Some(k) = sole {
                *alone.entry(k).or_insert(0) += 1;
            }
            let d = detail(&b, &what, &why, &plan);
            ck.begin(&d.to_string());
            let Some(p) = prove_forged(&main, &Arc::new(plan.clone()), o) else {
                ck.count("cheater could not make a proof", 1);
                continue;
            };
            match (cons.len(), asserts.len()) {
                (1, 0) => {
                    let (k, r) = cons.iter().next().unwrap();
                    let opcode: String = main[*r][..15].iter().map(|x| if *x == FE::zero() { '0' } else { '1' }).collect();
                    ck.seen("constraints broken alone", k.to_string().as_bytes());
                    ck.seen("constraints broken alone, by kind of instruction", format!("{k} {opcode}").as_bytes());
                    ck.count("proofs that break a single constraint", 1);
                }
                (0, 1) => {
                    ck.seen("assertions broken alone", format!("{asserts:?}").as_bytes());
                    ck.count("proofs that break a single assertion", 1);
                }
                (0, 0) => ck.count("proofs that break nothing in the reference", 1),
                _ => ck.count("proofs that break several constraints", 1),
            }
            let verdict = accepted(&p, &pi, o);
            ck.count("false proofs judged", 1);
            ck.seen("reasons", why.split(": ").last().unwrap_or("").split(" 0x").next().unwrap().as_bytes());
            ck.seen("plans", format!("{:?}{:?}", std::mem::discriminant(&plan.memory), std::mem::discriminant(&plan.start)).as_bytes());
            if verdict == Ok(true) {
                let key = match (plan.memory, plan.start, plan.offsets) {
                    (Memory::Honest, Start::One, Memory::Honest) => "false-execution-accepted",
                    _ => "forged-columns-accepted",
                };
                ck.violation(key, d.clone());
            }
            ck.eval(d.to_string().as_bytes(), true);
            ck.sample(d);
        }
    }
    for k in 0..3 {
        if let Err(e) = out_of_range(&mut ck, &o, k) {
            ck.violation("rc-case", json!({"error": e}));
        }
    }
    if std::env::var("DBG25").is_ok() {
        println!("{alone:?}");
    }
    ck.finish();
}
