//! Cairo, written independently of the code under test: instruction encoding, a machine that
//! makes up random programs while it runs them, and the trace the semantics call for.
use crate::rng::Rng;
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::FE;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op1 {
    Op0,
    Imm,
    Fp,
    Ap,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res {
    Op1,
    Add,
    Mul,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pc {
    Next,
    Abs,
    Rel,
    Jnz,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ap {
    Keep,
    AddRes,
    Inc,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Opc {
    Nop,
    Call,
    Ret,
    Aeq,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Instr {
    pub off_dst: i32,
    pub off_op0: i32,
    pub off_op1: i32,
    pub dst_fp: bool,
    pub op0_fp: bool,
    pub op1: Op1,
    pub res: Res,
    pub pc: Pc,
    pub ap: Ap,
    pub opc: Opc,
}

impl Instr {
    pub fn flags(&self) -> u64 {
        self.dst_fp as u64
            | (self.op0_fp as u64) << 1
            | match self.op1 {
                Op1::Op0 => 0,
                Op1::Imm => 1,
                Op1::Fp => 2,
                Op1::Ap => 4,
            } << 2
            | match self.res {
                Res::Op1 => 0,
                Res::Add => 1,
                Res::Mul => 2,
            } << 5
            | match self.pc {
                Pc::Next => 0,
                Pc::Abs => 1,
                Pc::Rel => 2,
                Pc::Jnz => 4,
            } << 7
            | match self.ap {
                Ap::Keep => 0,
                Ap::AddRes => 1,
                Ap::Inc => 2,
            } << 10
            | match self.opc {
                Opc::Nop => 0,
                Opc::Call => 1,
                Opc::Ret => 2,
                Opc::Aeq => 4,
            } << 12
    }
    pub fn encode(&self) -> u64 {
        let b = |o: i32| (o + 0x8000) as u64;
        b(self.off_dst) | b(self.off_op0) << 16 | b(self.off_op1) << 32 | self.flags() << 48
    }
    pub fn decode(w: u64) -> Option<Instr> {
        let o = |k: u32| ((w >> k) & 0xffff) as i32 - 0x8000;
        let f = w >> 48;
        Some(Instr {
            off_dst: o(0),
            off_op0: o(16),
            off_op1: o(32),
            dst_fp: f & 1 == 1,
            op0_fp: f >> 1 & 1 == 1,
            op1: match f >> 2 & 7 {
                0 => Op1::Op0,
                1 => Op1::Imm,
                2 => Op1::Fp,
                4 => Op1::Ap,
                _ => return None,
            },
            res: match f >> 5 & 3 {
                0 => Res::Op1,
                1 => Res::Add,
                2 => Res::Mul,
                _ => return None,
            },
            pc: match f >> 7 & 7 {
                0 => Pc::Next,
                1 => Pc::Abs,
                2 => Pc::Rel,
                4 => Pc::Jnz,
                _ => return None,
            },
            ap: match f >> 10 & 3 {
                0 => Ap::Keep,
                1 => Ap::AddRes,
                2 => Ap::Inc,
                _ => return None,
            },
            opc: match f >> 12 & 7 {
                0 => Opc::Nop,
                1 => Opc::Call,
                2 => Opc::Ret,
                4 => Opc::Aeq,
                _ => return None,
            },
        })
    }
    pub fn size(&self) -> u64 {
        if self.op1 == Op1::Imm {
            2
        } else {
            1
        }
    }
}

/// The value of a field element if it is below 2^64.
pub fn small(v: &FE) -> Option<u64> {
    let b = v.to_bytes_be();
    if b[..24].iter().any(|x| *x != 0) {
        return None;
    }
    Some(u64::from_be_bytes(b[24..32].try_into().unwrap()))
}
pub fn signed(v: &FE) -> Option<i64> {
    small(v)
        .filter(|x| *x < 1 << 62)
        .map(|x| x as i64)
        .or_else(|| small(&-v.clone()).filter(|x| *x < 1 << 62).map(|x| -(x as i64)))
}
pub fn felt(i: i64) -> FE {
    if i < 0 {
        -FE::from(i.unsigned_abs())
    } else {
        FE::from(i as u64)
    }
}
/// The decimal or hexadecimal text of a field element.
pub fn hex(v: &FE) -> String {
    let s: String = v.to_bytes_be().iter().map(|b| format!("{b:02x}")).collect();
    let t = s.trim_start_matches('0');
    format!("0x{}", if t.is_empty() { "0" } else { t })
}

/// A finished run: what a virtual machine would hand over.
#[derive(Clone, Debug)]
pub struct Run {
    /// (pc, ap, fp) before each executed instruction
    pub regs: Vec<(u64, u64, u64)>,
    pub mem: BTreeMap<u64, FE>,
    pub program: u64,
    pub rc: Option<(u64, u64)>,
    pub out: Option<(u64, u64)>,
    pub features: BTreeSet<String>,
    /// Program offset of the entry point
    pub entry: u64,
    pub exec_end: u64,
}

impl Run {
    pub fn states(&self) -> RegisterStates {
        RegisterStates {
            rows: self
                .regs
                .iter()
                .map(|(pc, ap, fp)| RegistersState { pc: *pc, ap: *ap, fp: *fp })
                .collect(),
        }
    }
    pub fn memory(&self) -> CairoMemory {
        CairoMemory::new(self.mem.iter().map(|(a, v)| (*a, v.clone())).collect::<HashMap<u64, FE>>())
    }
    pub fn segments(&self) -> MemorySegmentMap {
        let mut m = MemorySegmentMap::new();
        if let Some((s, e)) = self.rc {
            m.insert(MemorySegment::RangeCheck, s..e);
        }
        if let Some((s, e)) = self.out {
            m.insert(MemorySegment::Output, s..e);
        }
        m
    }
    /// The public cells: the program and the output.
    pub fn public_cells(&self) -> BTreeMap<u64, FE> {
        let mut m: BTreeMap<u64, FE> = (1..=self.program).map(|a| (a, self.mem[&a].clone())).collect();
        if let Some((s, e)) = self.out {
            for a in s..e {
                m.insert(a, self.mem[&a].clone());
            }
        }
        m
    }
    pub fn inputs(&self) -> PublicInputs {
        PublicInputs::from_regs_and_mem(&self.states(), &self.memory(), self.program as usize, &self.segments())
    }
    pub fn brief(&self) -> serde_json::Value {
        serde_json::json!({
            "steps": self.regs.len(), "program": self.program, "memory": self.mem.len(),
            "range_check": self.rc, "output": self.out, "first": self.regs.first(), "last": self.regs.last(),
            "features": self.features,
        })
    }
    pub fn program_json(&self) -> serde_json::Value {
        let mut builtins = vec![];
        if self.out.is_some() {
            builtins.push("output");
        }
        if self.rc.is_some() {
            builtins.push("range_check");
        }
        serde_json::json!({
            "data": (1..=self.program).map(|a| hex(&self.mem[&a])).collect::<Vec<_>>(),
            "builtins": builtins,
            "hints": {},
            "identifiers": {"__main__.main": {"pc": self.entry}},
        })
    }
}

/// What one executed instruction reads and computes.
#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub instr: Instr,
    pub word: FE,
    pub dst_addr: u64,
    pub op0_addr: u64,
    pub op1_addr: u64,
    pub dst: FE,
    pub op0: FE,
    pub op1: FE,
    /// None for conditional jumps
    pub res: Option<FE>,
    /// Registers afterwards, as field elements: (pc, ap, fp)
    pub next: (FE, FE, FE),
}

/// Executes the instruction at `pc` on known memory.
pub fn step(pc: u64, ap: u64, fp: u64, mem: &dyn Fn(u64) -> Option<FE>) -> Result<Step, String> {
    let word = mem(pc).ok_or("no instruction")?;
    let w = small(&word).ok_or("wide instruction")?;
    if w >> 63 != 0 {
        return Err("high bit".into());
    }
    let i = Instr::decode(w).ok_or("reserved encoding")?;
    if i.opc == Opc::Call && i.ap != Ap::Keep
        || i.pc == Pc::Jnz && (i.res != Res::Op1 || i.opc != Opc::Nop || i.ap == Ap::AddRes)
    {
        return Err("undefined behaviour".into());
    }
    let at = |base: u64, o: i32| base.checked_add_signed(o as i64).ok_or("negative address".to_string());
    let dst_addr = at(if i.dst_fp { fp } else { ap }, i.off_dst)?;
    let op0_addr = at(if i.op0_fp { fp } else { ap }, i.off_op0)?;
    let dst = mem(dst_addr).ok_or("dst unknown")?;
    let op0 = mem(op0_addr).ok_or("op0 unknown")?;
    let op1_addr = at(
        match i.op1 {
            Op1::Op0 => small(&op0).ok_or("op0 is no address")?,
            Op1::Imm => pc,
            Op1::Fp => fp,
            Op1::Ap => ap,
        },
        i.off_op1,
    )?;
    let op1 = mem(op1_addr).ok_or("op1 unknown")?;
    let res = match (i.pc, i.res) {
        (Pc::Jnz, _) => None,
        (_, Res::Op1) => Some(op1.clone()),
        (_, Res::Add) => Some(&op0 + &op1),
        (_, Res::Mul) => Some(&op0 * &op1),
    };
    let fpc = FE::from(pc);
    let seq = FE::from(pc + i.size());
    let npc = match i.pc {
        Pc::Next => seq.clone(),
        Pc::Abs => res.clone().unwrap(),
        Pc::Rel => &fpc + res.as_ref().unwrap(),
        Pc::Jnz if dst == FE::zero() => seq.clone(),
        Pc::Jnz => &fpc + &op1,
    };
    let nap = match (i.opc, i.ap) {
        (Opc::Call, _) => FE::from(ap + 2),
        (_, Ap::Keep) => FE::from(ap),
        (_, Ap::AddRes) => FE::from(ap) + res.clone().ok_or("ap += nothing")?,
        (_, Ap::Inc) => FE::from(ap + 1),
    };
    let nfp = match i.opc {
        Opc::Call => FE::from(ap + 2),
        Opc::Ret => dst.clone(),
        _ => FE::from(fp),
    };
    match i.opc {
        Opc::Aeq if res.as_ref() != Some(&dst) => return Err("assertion fails".into()),
        Opc::Call if dst != FE::from(fp) || op0 != seq => return Err("call frame".into()),
        _ => {}
    }
    Ok(Step { instr: i, word, dst_addr, op0_addr, op1_addr, dst, op0, op1, res, next: (npc, nap, nfp) })
}

#[derive(Clone, Copy, Debug)]
pub struct Gen {
    pub steps: usize,
    /// Words of program memory
    pub code: u64,
    pub rc: Option<usize>,
    pub out: Option<usize>,
    /// Only what a virtual machine can work out by itself, ended by returning from main.
    pub vm: bool,
    /// Largest ap increments (holes)
    pub holes: u64,
    /// May stop without returning from every call
    pub abrupt: bool,
}

struct Machine<'a> {
    rng: Rng,
    g: &'a Gen,
    mem: BTreeMap<u64, FE>,
    ptr: BTreeSet<u64>,
    code: Vec<bool>, // taken words
    pc: u64,
    ap: u64,
    fp: u64,
    frames: usize,
    regs: Vec<(u64, u64, u64)>,
    exec: u64,
    rc_base: u64,
    out_base: u64,
    rc_n: u64,
    out_n: u64,
    stack0: u64,
    features: BTreeSet<String>,
    known: Vec<u64>,
    top: u64,
    room: u64,
}

fn value(rng: &mut Rng) -> FE {
    match rng.below(6) {
        0 => FE::from(rng.below(3) as u64),
        1 => FE::from(rng.below(1 << 16) as u64),
        2 => -FE::from(rng.below(1 << 10) as u64),
        3 => FE::from(rng.u64()),
        _ => rng.fe_big(),
    }
}

impl<'a> Machine<'a> {
    fn free(&self, from: u64, n: u64) -> bool {
        (from..from + n).all(|a| a >= 1 && a <= self.g.code && !self.code[a as usize])
    }
    fn take(&mut self, from: u64, n: u64) {
        for a in from..from + n {
            self.code[a as usize] = true;
        }
    }
    fn region(&mut self) -> Option<u64> {
        for _ in 0..40 {
            let a = self.rng.range(1, self.g.code as usize) as u64;
            if self.free(a, 8) {
                return Some(a);
            }
        }
        (1..=self.g.code).find(|a| self.free(*a, 4))
    }
    fn set(&mut self, a: u64, v: FE) {
        if a >= self.exec && a < self.rc_base && a < self.out_base {
            if !self.mem.contains_key(&a) {
                self.known.push(a);
            }
            self.top = self.top.max(a);
        }
        self.mem.insert(a, v);
    }
    /// Pushes the current registers, executes the instruction at pc.
    fn exec_here(&mut self) -> bool {
        let m = &self.mem;
        let Ok(s) = step(self.pc, self.ap, self.fp, &|a| m.get(&a).cloned()) else {
            return false;
        };
        for a in [s.dst_addr, s.op0_addr, s.op1_addr] {
            if a >= self.exec && a < self.rc_base && a < self.out_base {
                self.top = self.top.max(a);
            }
        }
        let (Some(pc), Some(ap), Some(fp)) = (small(&s.next.0), small(&s.next.1), small(&s.next.2)) else {
            return false;
        };
        self.regs.push((self.pc, self.ap, self.fp));
        let i = s.instr;
        self.features.insert(format!("{:?}/{:?}/{:?}/{:?}/{:?}", i.opc, i.pc, i.ap, i.res, i.op1));
        self.pc = pc;
        self.ap = ap;
        self.fp = fp;
        true
    }
    /// A cell that has a value: (relative to fp, offset, address)
    fn known_cell(&mut self, number: bool) -> Option<(bool, i32, u64)> {
        for _ in 0..12 {
            let n = self.known.len();
            if n == 0 {
                return None;
            }
            let k = if self.rng.chance(2, 3) { n - 1 - self.rng.below(n.min(8)) } else { self.rng.below(n) };
            let a = self.known[k];
            if number && self.ptr.contains(&a) {
                continue;
            }
            let by_fp = self.rng.chance(1, 2);
            let o = a as i64 - if by_fp { self.fp } else { self.ap } as i64;
            if (-0x8000..0x8000).contains(&o) {
                return Some((by_fp, o as i32, a));
            }
        }
        None
    }
    fn any_cell(&mut self, fresh: bool) -> Option<(bool, i32, u64)> {
        if !fresh || self.g.vm || self.rng.chance(3, 5) {
            return self.known_cell(self.g.vm);
        }
        let a = self.ap + self.rng.below(3) as u64 - if self.ap > self.stack0 + 4 { self.rng.below(3) as u64 } else { 0 };
        let by_fp = self.rng.chance(1, 2) && a - self.fp.min(a) < 0x7000;
        let o = a as i64 - if by_fp { self.fp } else { self.ap } as i64;
        (-0x8000..0x8000).contains(&o).then_some((by_fp, o as i32, a))
    }
    fn write(&mut self, i: &Instr, imm: Option<FE>) {
        let w = FE::from(i.encode());
        self.mem.insert(self.pc, w);
        self.take(self.pc, 1);
        if let Some(v) = imm {
            self.mem.insert(self.pc + 1, v);
            self.take(self.pc + 1, 1);
        }
    }
    fn jump_imm(&mut self, target: u64, ap_inc: bool) -> bool {
        let abs = !self.g.vm && self.rng.chance(1, 2);
        let Some((f, o, _)) = self.known_cell(self.g.vm) else { return false };
        let Some((f2, o2, _)) = self.known_cell(self.g.vm) else { return false };
        let i = Instr {
            off_dst: o,
            off_op0: o2,
            off_op1: 1,
            dst_fp: f,
            op0_fp: f2,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: if abs { Pc::Abs } else { Pc::Rel },
            ap: if ap_inc { Ap::Inc } else { Ap::Keep },
            opc: Opc::Nop,
        };
        let imm = if abs { FE::from(target) } else { felt(target as i64 - self.pc as i64) };
        self.write(&i, Some(imm));
        self.exec_here()
    }
    /// `[ap] = imm; ap++`
    fn push_imm(&mut self, v: FE) -> bool {
        let ap = self.ap;
        if self.mem.contains_key(&ap) {
            return false;
        }
        let Some((f, o, _)) = self.known_cell(self.g.vm) else { return false };
        let i = Instr {
            off_dst: 0,
            off_op0: o,
            off_op1: 1,
            dst_fp: false,
            op0_fp: f,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: Pc::Next,
            ap: Ap::Inc,
            opc: Opc::Aeq,
        };
        self.write(&i, Some(v.clone()));
        self.set(ap, v);
        self.exec_here()
    }
    /// Writes a builtin cell: `[[fp0 + slot] + k] = cell`
    fn builtin(&mut self, rc: bool) -> bool {
        let (base, n, slot) = if rc {
            (self.rc_base, self.rc_n, self.stack0 - 3)
        } else {
            (self.out_base, self.out_n, self.stack0 - 3 - self.g.rc.is_some() as u64)
        };
        let a = base + n;
        let o = slot as i64 - self.fp as i64;
        let (f0, o0) = if (-0x8000..0x8000).contains(&o) { (true, o as i32) } else { return false };
        let small_v = |v: &FE| v.to_bytes_be()[..16].iter().all(|b| *b == 0);
        let dst = self.known_cell(true).filter(|d| !rc || small_v(&self.mem[&d.2]));
        let (f, od, v) = match dst {
            Some((f, od, d)) if self.g.vm || self.rng.chance(1, 2) => (f, od, self.mem[&d].clone()),
            _ if self.g.vm => {
                // push a number first
                let v = if rc { self.rc_value() } else { value(&mut self.rng) };
                let ap = self.ap;
                if !self.free(self.pc, 5) || !self.push_imm(v.clone()) || self.ap != ap + 1 {
                    return false;
                }
                (false, -1, v)
            }
            _ => {
                let ap = self.ap;
                if self.mem.contains_key(&ap) {
                    return false;
                }
                let v = if rc { self.rc_value() } else { value(&mut self.rng) };
                self.set(ap, v.clone());
                (false, 0, v)
            }
        };
        if !self.free(self.pc, 3) {
            return true;
        }
        let i = Instr {
            off_dst: od,
            off_op0: o0,
            off_op1: n as i32,
            dst_fp: f,
            op0_fp: f0,
            op1: Op1::Op0,
            res: Res::Op1,
            pc: Pc::Next,
            ap: if self.rng.chance(1, 3) { Ap::Inc } else { Ap::Keep },
            opc: Opc::Aeq,
        };
        self.mem.insert(a, v);
        if rc {
            self.rc_n += 1
        } else {
            self.out_n += 1
        }
        self.write(&i, None);
        self.exec_here()
    }
    fn rc_value(&mut self) -> FE {
        match self.rng.below(6) {
            0 => FE::from(self.rng.below(4) as u64),
            1 => FE::from(self.rng.u64()),
            2 => {
                // 2^128 - 1
                let m = FE::from(u64::MAX);
                let s = &m + FE::one();
                &m * &s + &m
            }
            3 => {
                let k = self.rng.below(8);
                FE::from(2u64).pow(16 * k) * FE::from(self.rng.below(1 << 16) as u64)
            }
            _ => {
                let (a, b) = (self.rng.u64(), self.rng.u64());
                FE::from(a) * (FE::from(u64::MAX) + FE::one()) + FE::from(b)
            }
        }
    }
    fn call(&mut self) -> bool {
        let ap = self.ap;
        if self.mem.contains_key(&ap) || self.mem.contains_key(&(ap + 1)) {
            return false;
        }
        let imm = self.g.vm || self.rng.chance(2, 3);
        let size = if imm { 2 } else { 1 };
        if !self.free(self.pc, size + 2) {
            return false;
        }
        self.take(self.pc, size + 2);
        let Some(target) = self.region() else {
            for a in self.pc..self.pc + size + 2 {
                self.code[a as usize] = false;
            }
            return false;
        };
        let abs = !self.g.vm && self.rng.chance(1, 2);
        let goal = if abs { FE::from(target) } else { felt(target as i64 - self.pc as i64) };
        let mut i = Instr {
            off_dst: 0,
            off_op0: 1,
            off_op1: 1,
            dst_fp: false,
            op0_fp: false,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: if abs { Pc::Abs } else { Pc::Rel },
            ap: Ap::Keep,
            opc: Opc::Call,
        };
        if imm {
            self.write(&i, Some(goal));
        } else {
            // the target is in a cell above the frame
            let a = ap + 2 + self.rng.below(2) as u64;
            if self.mem.contains_key(&a) {
                return false;
            }
            let by_fp = self.rng.chance(1, 2);
            let o = a as i64 - if by_fp { self.fp } else { ap } as i64;
            if o >= 0x8000 {
                return false;
            }
            i.op1 = if by_fp { Op1::Fp } else { Op1::Ap };
            i.off_op1 = o as i32;
            self.set(a, goal);
            self.write(&i, None);
        }
        let ret = self.pc + size;
        let fp = self.fp;
        self.set(ap, FE::from(fp));
        self.set(ap + 1, FE::from(ret));
        self.ptr.insert(ap);
        self.ptr.insert(ap + 1);
        self.frames += 1;
        self.exec_here()
    }
    fn ret(&mut self) -> bool {
        let i = Instr {
            off_dst: -2,
            off_op0: -1,
            off_op1: -1,
            dst_fp: true,
            op0_fp: true,
            op1: Op1::Fp,
            res: Res::Op1,
            pc: Pc::Abs,
            ap: Ap::Keep,
            opc: Opc::Ret,
        };
        self.write(&i, None);
        // the two words after the call were kept for this
        let Some(back) = self.mem.get(&(self.fp.wrapping_sub(1))).and_then(small) else { return false };
        if self.frames > 0 && back + 2 > self.code.len() as u64 {
            return false;
        }
        if self.frames > 0 {
            for a in back..back + 2 {
                self.code[a as usize] = false;
            }
            self.frames -= 1;
        }
        self.exec_here()
    }
    /// A loop: counts a cell down to zero.
    fn count_down(&mut self) -> bool {
        let n = self.rng.range(1, 5);
        if !self.free(self.pc, 8) || (0..=n as u64).any(|k| self.mem.contains_key(&(self.ap + k))) {
            return false;
        }
        if !self.push_imm(FE::from(n as u64)) {
            return false;
        }
        let top = self.pc;
        let dec = Instr {
            off_dst: 0,
            off_op0: -1,
            off_op1: 1,
            dst_fp: false,
            op0_fp: false,
            op1: Op1::Imm,
            res: Res::Add,
            pc: Pc::Next,
            ap: Ap::Inc,
            opc: Opc::Aeq,
        };
        self.write(&dec, Some(felt(-1)));
        let jnz = Instr {
            off_dst: -1,
            off_op0: -1,
            off_op1: 1,
            dst_fp: false,
            op0_fp: false,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: Pc::Jnz,
            ap: Ap::Keep,
            opc: Opc::Nop,
        };
        let here = self.pc;
        self.pc = top + 2;
        self.write(&jnz, Some(felt(-2)));
        self.pc = here;
        for k in (0..n).rev() {
            let ap = self.ap;
            self.set(ap, FE::from(k as u64));
            if !self.exec_here() || !self.exec_here() {
                return false;
            }
        }
        true
    }
    /// `ap += imm`, leaving cells behind without a value
    fn gap(&mut self) -> bool {
        let d = self.rng.range(1, self.g.holes.max(1) as usize) as u64;
        let (Some((f, o, _)), Some((f2, o2, _))) = (self.known_cell(self.g.vm), self.known_cell(self.g.vm)) else {
            return false;
        };
        let i = Instr {
            off_dst: o,
            off_op0: o2,
            off_op1: 1,
            dst_fp: f,
            op0_fp: f2,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: Pc::Next,
            ap: Ap::AddRes,
            opc: Opc::Nop,
        };
        self.write(&i, Some(FE::from(d)));
        self.exec_here()
    }

    /// Some instruction with free choice of flags and operands.
    fn general(&mut self) -> bool {
        if !self.free(self.pc, 4) {
            return false;
        }
        let vm = self.g.vm;
        let opc = if self.rng.chance(2, 3) { Opc::Aeq } else { Opc::Nop };
        let pcu = match self.rng.below(10) {
            0 if !vm || opc == Opc::Nop => Pc::Rel,
            1 if !vm => Pc::Abs,
            2 | 3 if opc == Opc::Nop => Pc::Jnz,
            _ => Pc::Next,
        };
        let apu = match (opc, pcu) {
            (Opc::Nop, Pc::Next) if !vm || self.rng.chance(1, 2) => {
                if vm {
                    Ap::Inc
                } else {
                    Ap::AddRes
                }
            }
            _ => match self.rng.below(8) {
                0 if !vm && pcu == Pc::Next => Ap::AddRes,
                1..=5 => Ap::Inc,
                _ => Ap::Keep,
            },
        };
        let res = if pcu == Pc::Jnz { Res::Op1 } else { *self.rng.pick(&[Res::Op1, Res::Add, Res::Mul, Res::Add]) };
        let op1s = if vm {
            *self.rng.pick(&[Op1::Imm, Op1::Fp, Op1::Ap, Op1::Imm])
        } else {
            *self.rng.pick(&[Op1::Imm, Op1::Fp, Op1::Ap, Op1::Imm, Op1::Op0])
        };
        let size = if op1s == Op1::Imm { 2 } else { 1 };
        // where to go
        let mut reserved = vec![];
        let target = if pcu == Pc::Next {
            None
        } else {
            self.take(self.pc, 4);
            let t = self.region();
            for a in self.pc..self.pc + 4 {
                self.code[a as usize] = false;
            }
            reserved.push(t);
            match t {
                None => return false,
                t => t,
            }
        };
        let mut new: BTreeMap<u64, FE> = BTreeMap::new();
        // dst
        let dst = if opc == Opc::Aeq && (vm || self.rng.chance(4, 5)) {
            let a = self.ap;
            if self.mem.contains_key(&a) {
                return false;
            }
            (false, 0, a)
        } else {
            match self.any_cell(true) {
                Some(c) => c,
                None => return false,
            }
        };
        let Some(op0) = self.any_cell(true) else { return false };
        let get = |m: &BTreeMap<u64, FE>, n: &BTreeMap<u64, FE>, a: u64| m.get(&a).or(n.get(&a)).cloned();
        // what the result has to be
        let mut want: Option<FE> = None;
        match pcu {
            Pc::Abs => want = target.map(FE::from),
            Pc::Rel => want = target.map(|t| felt(t as i64 - self.pc as i64)),
            Pc::Jnz => {
                let zero = match get(&self.mem, &new, dst.2) {
                    Some(v) => v == FE::zero(),
                    None => {
                        let v = if self.rng.chance(1, 2) { FE::zero() } else { value(&mut self.rng) };
                        new.insert(dst.2, v.clone());
                        v == FE::zero()
                    }
                };
                if !zero {
                    want = target.map(|t| felt(t as i64 - self.pc as i64));
                }
            }
            Pc::Next => {}
        }
        if apu == Ap::AddRes {
            let d = FE::from(self.rng.below(3 + self.g.holes as usize) as u64);
            match &want {
                Some(w) if *w != d => return false,
                _ => want = Some(d),
            }
        }
        if opc == Opc::Aeq {
            if let Some(d) = get(&self.mem, &new, dst.2) {
                match &want {
                    Some(w) if *w != d => return false,
                    _ => want = Some(d),
                }
            }
        }
        // op1's place
        let mut off1 = 1;
        let mut op0v = get(&self.mem, &new, op0.2);
        let a1 = match op1s {
            Op1::Imm => {
                if !vm && self.rng.chance(1, 12) {
                    // some other word of the program
                    let a = self.rng.range(1, self.g.code as usize) as u64;
                    let o = a as i64 - self.pc as i64;
                    if self.mem.contains_key(&a) && want.is_none() && (-0x8000..0x8000).contains(&o) {
                        off1 = o as i32;
                        a
                    } else {
                        self.pc + 1
                    }
                } else {
                    self.pc + 1
                }
            }
            Op1::Fp | Op1::Ap => {
                let fresh = want.is_some() || self.rng.chance(1, 3);
                let Some(c) = self.any_cell(fresh) else { return false };
                let o = c.2 as i64 - if op1s == Op1::Fp { self.fp } else { self.ap } as i64;
                if !(-0x8000..0x8000).contains(&o) {
                    return false;
                }
                off1 = o as i32;
                c.2
            }
            Op1::Op0 => {
                let Some(c) = self.any_cell(true) else { return false };
                match &op0v {
                    Some(v) => {
                        let Some(b) = small(v) else { return false };
                        if b > 1 << 40 {
                            return false;
                        }
                        let o = c.2 as i64 - b as i64;
                        if !(-0x8000..0x8000).contains(&o) {
                            return false;
                        }
                        off1 = o as i32;
                    }
                    None => {
                        let o = self.rng.below(40) as i64 - 20;
                        let b = (c.2 as i64 - o).max(0);
                        off1 = (c.2 as i64 - b) as i32;
                        new.insert(op0.2, FE::from(b as u64));
                        op0v = Some(FE::from(b as u64));
                    }
                }
                c.2
            }
        };
        let mut op1v = get(&self.mem, &new, a1);
        // solve
        if op0v.is_none() && a1 == op0.2 && op1v.is_none() {
            let v = value(&mut self.rng);
            new.insert(op0.2, v.clone());
            op0v = Some(v.clone());
            op1v = Some(v);
        }
        if op0v.is_none() {
            let v = match (&want, &op1v, res) {
                (Some(w), Some(b), Res::Add) => w - b,
                (Some(w), Some(b), Res::Mul) if *b != FE::zero() => w * b.inv(),
                _ => value(&mut self.rng),
            };
            new.insert(op0.2, v.clone());
            op0v = Some(v);
        }
        let op0v = op0v.unwrap();
        if op1v.is_none() {
            let v = match (&want, res) {
                (Some(w), Res::Op1) => w.clone(),
                (Some(w), Res::Add) => w - &op0v,
                (Some(w), Res::Mul) if op0v != FE::zero() => w * op0v.inv(),
                _ => value(&mut self.rng),
            };
            new.insert(a1, v.clone());
            op1v = Some(v);
        }
        let op1v = op1v.unwrap();
        let r = match res {
            Res::Op1 => op1v,
            Res::Add => op0v + op1v,
            Res::Mul => op0v * op1v,
        };
        if want.as_ref().map_or(false, |w| *w != r) {
            return false;
        }
        if get(&self.mem, &new, dst.2).is_none() {
            let v = if opc == Opc::Aeq { r } else { value(&mut self.rng) };
            new.insert(dst.2, v);
        }
        let i = Instr {
            off_dst: dst.1,
            off_op0: op0.1,
            off_op1: off1,
            dst_fp: dst.0,
            op0_fp: op0.0,
            op1: op1s,
            res,
            pc: pcu,
            ap: apu,
            opc,
        };
        // everything must be consistent before it is kept
        let pc = self.pc;
        let word = FE::from(i.encode());
        let imm_unused = size == 2 && !new.contains_key(&(pc + 1));
        let mem = &self.mem;
        let Ok(s) = step(pc, self.ap, self.fp, &|a| {
            if a == pc {
                Some(word.clone())
            } else {
                new.get(&a).or(mem.get(&a)).cloned()
            }
        }) else {
            return false;
        };
        let (Some(npc), Some(nap), Some(_)) = (small(&s.next.0), small(&s.next.1), small(&s.next.2)) else {
            return false;
        };
        if nap > self.ap + 64 || npc == 0 || npc > self.g.code || !(self.free(npc, 2) || npc == pc + size) {
            return false;
        }
        if npc == pc + size && !self.free(npc, 2) {
            return false;
        }
        for (a, v) in new {
            if a == pc + 1 && size == 2 {
                continue;
            }
            self.set(a, v);
        }
        let imm = (size == 2).then(|| if imm_unused { value(&mut self.rng) } else { s.op1.clone() });
        if vm && opc == Opc::Aeq && self.ptr.contains(&a1) && res == Res::Op1 {
            self.ptr.insert(dst.2);
        }
        self.write(&i, imm);
        self.exec_here()
    }

    fn run(&mut self) -> bool {
        let limit = self.g.steps;
        let stop_frames = if self.g.abrupt { self.rng.below(2) == 0 } else { false };
        let mut idle = 0;
        while self.regs.len() < limit && idle < 60 {
            // always leave two words for a jump or a return
            if !self.free(self.pc, 8) && !self.free(self.pc, 4) {
                let here = self.pc;
                if !self.free(here, 2) {
                    return false;
                }
                self.take(here, 2);
                let t = self.region();
                for a in here..here + 2 {
                    self.code[a as usize] = false;
                }
                match t {
                    Some(t) => {
                        let inc = self.rng.chance(1, 4);
                        if !self.jump_imm(t, inc) {
                            return false;
                        }
                    }
                    None => break,
                }
                continue;
            }
            let before = self.regs.len();
            let steps_ok = match self.rng.below(24) {
                0 if self.frames < 12 => self.call(),
                1 if self.frames > 0 && self.rng.chance(2, 3) => self.ret(),
                2 => self.count_down(),
                3 if self.g.holes > 0 => self.gap(),
                4 | 5 if self.g.rc.map_or(false, |n| (self.rc_n as usize) < n) => self.builtin(true),
                6 if self.g.out.map_or(false, |n| (self.out_n as usize) < n) => self.builtin(false),
                7 => {
                    let v = value(&mut self.rng);
                    self.push_imm(v)
                }
                _ => self.general(),
            };
            let _ = steps_ok;
            if self.regs.len() == before {
                idle += 1;
            } else {
                idle = 0;
            }
        }
        if stop_frames {
            return !self.regs.is_empty();
        }
        // return from everything
        while self.frames > 0 {
            if !self.free(self.pc, 1) || !self.ret() {
                return false;
            }
        }
        if self.g.vm && (self.g.rc.is_some() || self.g.out.is_some()) {
            // return the builtin pointers: the two words are not enough, go to the room kept for it
            let t = self.room;
            for a in t..self.g.code + 1 {
                self.code[a as usize] = false;
            }
            if !self.free(self.pc, 2) || !self.jump_imm(t, false) {
                return false;
            }
            let mut bs = vec![];
            if self.g.out.is_some() {
                bs.push((self.out_n, self.stack0 - 3 - self.g.rc.is_some() as u64));
            }
            if self.g.rc.is_some() {
                bs.push((self.rc_n, self.stack0 - 3));
            }
            for (n, slot) in bs {
                let ap = self.ap;
                if self.mem.contains_key(&ap) {
                    return false;
                }
                let i = Instr {
                    off_dst: 0,
                    off_op0: (slot as i64 - self.fp as i64) as i32,
                    off_op1: 1,
                    dst_fp: false,
                    op0_fp: true,
                    op1: Op1::Imm,
                    res: Res::Add,
                    pc: Pc::Next,
                    ap: Ap::Inc,
                    opc: Opc::Aeq,
                };
                let v = &self.mem[&slot] + FE::from(n);
                self.set(ap, v);
                self.ptr.insert(ap);
                self.write(&i, Some(FE::from(n)));
                if !self.exec_here() {
                    return false;
                }
            }
        }
        self.ret()
    }
}

fn attempt(g: &Gen, rng: &Rng, exec_size: u64, out_size: u64, rc_size: u64) -> Option<(Run, u64)> {
    let exec = g.code + 1;
    let mut n = 0;
    let out_base = exec + exec_size;
    let rc_base = out_base + out_size;
    let nb = g.rc.is_some() as u64 + g.out.is_some() as u64;
    let mut rng = rng.clone();
    // main need not be the first word
    let entry = if rng.chance(1, 3) && g.code > 24 { rng.range(1, 8) as u64 } else { 1 };
    let room = if g.vm && nb > 0 { g.code - 4 } else { g.code + 1 };
    let mut m = Machine {
        rng,
        g,
        mem: BTreeMap::new(),
        ptr: BTreeSet::new(),
        code: vec![false; g.code as usize + 16],
        pc: entry,
        ap: exec + nb + 2,
        fp: exec + nb + 2,
        frames: 0,
        regs: vec![],
        exec,
        rc_base,
        out_base,
        rc_n: 0,
        out_n: 0,
        stack0: exec + nb + 2,
        features: BTreeSet::new(),
        known: vec![],
        top: exec,
        room,
    };
    for a in room..=g.code {
        m.code[a as usize] = true;
    }
    let end = rc_base + rc_size;
    let mut stack = vec![];
    if g.out.is_some() {
        stack.push(out_base);
    }
    if g.rc.is_some() {
        stack.push(rc_base);
    }
    stack.push(end);
    stack.push(end);
    for v in stack {
        m.set(exec + n, FE::from(v));
        m.ptr.insert(exec + n);
        n += 1;
    }
    // numbers for the operands of the first instructions
    if g.vm {
        // only cells the program wrote itself may be used: the first instruction has to be
        // one whose operands are all pointers
        let i = Instr {
            off_dst: 0,
            off_op0: -1,
            off_op1: 1,
            dst_fp: false,
            op0_fp: true,
            op1: Op1::Imm,
            res: Res::Op1,
            pc: Pc::Next,
            ap: Ap::Inc,
            opc: Opc::Aeq,
        };
        let v = value(&mut m.rng);
        let ap = m.ap;
        m.write(&i, Some(v.clone()));
        m.set(ap, v);
        if !m.exec_here() {
            return None;
        }
    } else {
        for k in 0..m.rng.below(3) as u64 {
            let v = value(&mut m.rng);
            let ap = m.ap;
            m.set(ap + k, v);
        }
    }
    if !m.run() {
        return None;
    }
    // the rest of the program is data
    for a in 1..=g.code {
        if !m.mem.contains_key(&a) {
            let v = match m.rng.below(12) {
                0..=3 => FE::from(m.rng.u64() >> 1),
                4 => FE::from(a),
                _ => value(&mut m.rng),
            };
            m.mem.insert(a, v);
        }
    }
    let top = m.top;
    let run = Run {
        rc: g.rc.map(|_| (rc_base, rc_base + m.rc_n)),
        out: g.out.map(|_| (out_base, out_base + m.out_n)),
        regs: m.regs,
        mem: m.mem,
        program: g.code,
        features: m.features,
        entry: entry - 1,
        exec_end: out_base,
    };
    // sizes of the builtin segments as they came out
    Some((run, top + 1 - exec))
}

/// Every step follows from the memory as it is in the end.
fn consistent(r: &Run) -> bool {
    r.regs.iter().enumerate().all(|(k, (pc, ap, fp))| {
        let Ok(s) = step(*pc, *ap, *fp, &|a| r.mem.get(&a).cloned()) else { return false };
        r.regs.get(k + 1).map_or(true, |n| s.next == (FE::from(n.0), FE::from(n.1), FE::from(n.2)))
    })
}

/// A random program and its run.
pub fn generate(g: &Gen, rng: &mut Rng) -> Run {
    loop {
        let seed = Rng::new(rng.u64(), "program");
        // first with far too large segments, then with the sizes they turned out to have
        let Some((first, size)) = attempt(g, &seed, 1 << 20, 1 << 10, 1 << 10) else { continue };
        let used = |r: &Run| {
            let n = |s: Option<(u64, u64)>| s.map_or(0, |(s, e)| e - s);
            (n(r.out), n(r.rc))
        };
        let (out, rc) = used(&first);
        let Some((second, size2)) = attempt(g, &seed, size, out, rc) else { continue };
        if size2 == size && second.regs.len() == first.regs.len() && used(&second) == (out, rc) && consistent(&second) {
            return second;
        }
    }
}

/// A run written by hand: `code` from address 1, `cells` besides it, `steps` executed steps and
/// the registers after them.
pub fn by_hand(code: &[(Instr, Option<FE>)], cells: &[(u64, FE)], steps: usize, rc: Option<(u64, u64)>) -> Result<Run, String> {
    let words: Vec<FE> = code.iter().flat_map(|(i, v)| std::iter::once(FE::from(i.encode())).chain(v.clone())).collect();
    let mut mem: BTreeMap<u64, FE> = words.iter().enumerate().map(|(k, w)| (k as u64 + 1, w.clone())).collect();
    mem.extend(cells.iter().cloned());
    let exec = words.len() as u64 + 1;
    let (mut pc, mut ap, mut fp) = (1, exec + 2, exec + 2);
    mem.entry(exec).or_insert(FE::from(exec));
    mem.entry(exec + 1).or_insert(FE::zero());
    let mut regs = vec![(pc, ap, fp)];
    let mut features = BTreeSet::new();
    for _ in 0..steps {
        let s = step(pc, ap, fp, &|a| mem.get(&a).cloned())?;
        let no = || "registers are no addresses".to_string();
        (pc, ap, fp) = (small(&s.next.0).ok_or_else(no)?, small(&s.next.1).ok_or_else(no)?, small(&s.next.2).ok_or_else(no)?);
        features.insert(format!("{:?}", s.instr.opc));
        regs.push((pc, ap, fp));
    }
    step(pc, ap, fp, &|a| mem.get(&a).cloned())?;
    let end = mem.keys().last().unwrap() + 1;
    Ok(Run { regs, mem, program: words.len() as u64, rc, out: None, features, entry: 0, exec_end: end })
}

/// A run of instructions without any convention: any defined combination of flags, operands and
/// registers anywhere on the given islands of addresses, memory filled in as it is needed.
pub fn wild(steps: usize, islands: &[(u64, u64)], program: u64, rng: &mut Rng) -> Option<Run> {
    let place = |rng: &mut Rng| {
        let (a, b) = *rng.pick(islands);
        rng.range(a as usize, b as usize) as u64
    };
    let inside = |a: u64| islands.iter().any(|(x, y)| (*x..=*y).contains(&a));
    let mut mem: BTreeMap<u64, FE> = BTreeMap::new();
    let (mut pc, mut ap, mut fp) = (rng.range(1, program as usize) as u64, place(rng), place(rng));
    let mut regs = vec![];
    let mut features = BTreeSet::new();
    let mut stuck = 0;
    while regs.len() < steps {
        let mut new: BTreeMap<u64, FE> = BTreeMap::new();
        if !mem.contains_key(&pc) {
            // a target whose offset fits
            let aim = |base: u64, rng: &mut Rng, mem: &BTreeMap<u64, FE>| -> Option<(i32, u64)> {
                for _ in 0..20 {
                    let a = if rng.chance(1, 3) && !mem.is_empty() {
                        *mem.keys().nth(rng.below(mem.len())).unwrap()
                    } else {
                        place(rng)
                    };
                    let o = a as i64 - base as i64;
                    if (-0x8000..0x8000).contains(&o) {
                        return Some((o as i32, a));
                    }
                }
                None
            };
            let opc = *rng.pick(&[Opc::Nop, Opc::Nop, Opc::Call, Opc::Ret, Opc::Aeq, Opc::Aeq]);
            let mut i = Instr {
                off_dst: 0,
                off_op0: 0,
                off_op1: 1,
                dst_fp: rng.chance(1, 2),
                op0_fp: rng.chance(1, 2),
                op1: *rng.pick(&[Op1::Op0, Op1::Imm, Op1::Fp, Op1::Ap]),
                res: *rng.pick(&[Res::Op1, Res::Add, Res::Mul]),
                pc: *rng.pick(&[Pc::Next, Pc::Abs, Pc::Rel, Pc::Jnz, Pc::Next]),
                ap: *rng.pick(&[Ap::Keep, Ap::AddRes, Ap::Inc]),
                opc,
            };
            if opc == Opc::Call {
                i.ap = Ap::Keep;
            }
            if i.pc == Pc::Jnz {
                i.res = Res::Op1;
                i.opc = Opc::Nop;
                if i.ap == Ap::AddRes {
                    i.ap = Ap::Keep;
                }
            }
            let tries = (|| {
                let (o, dst) = aim(if i.dst_fp { fp } else { ap }, rng, &mem)?;
                i.off_dst = o;
                let (o, op0) = aim(if i.op0_fp { fp } else { ap }, rng, &mem)?;
                i.off_op0 = o;
                let get = |n: &BTreeMap<u64, FE>, m: &BTreeMap<u64, FE>, a: u64| n.get(&a).or(m.get(&a)).cloned();
                if i.opc == Opc::Call {
                    new.entry(dst).or_insert(get(&BTreeMap::new(), &mem, dst).unwrap_or(FE::from(fp)));
                    new.entry(op0).or_insert(get(&BTreeMap::new(), &mem, op0).unwrap_or(FE::from(pc + i.size())));
                }
                if i.opc == Opc::Ret && get(&new, &mem, dst).is_none() {
                    new.insert(dst, FE::from(place(rng)));
                }
                let base1 = match i.op1 {
                    Op1::Imm => pc,
                    Op1::Fp => fp,
                    Op1::Ap => ap,
                    Op1::Op0 => {
                        if get(&new, &mem, op0).is_none() {
                            new.insert(op0, FE::from(place(rng)));
                        }
                        small(&get(&new, &mem, op0)?).filter(|x| *x < 1 << 40)?
                    }
                };
                let op1 = if i.op1 == Op1::Imm && rng.chance(2, 3) {
                    pc + 1
                } else {
                    let (o, a) = aim(base1, rng, &mem)?;
                    i.off_op1 = o;
                    a
                };
                if new.contains_key(&pc) || [dst, op0, op1].contains(&pc) {
                    return None;
                }
                // what the result has to be
                let to = place(rng);
                let mut want = match i.pc {
                    Pc::Abs => Some(FE::from(to)),
                    Pc::Rel => Some(felt(to as i64 - pc as i64)),
                    _ => None,
                };
                if i.pc == Pc::Jnz {
                    let d = get(&new, &mem, dst).unwrap_or_else(|| if rng.chance(1, 3) { FE::zero() } else { value(rng) });
                    new.insert(dst, d.clone());
                    if d != FE::zero() {
                        want = Some(felt(to as i64 - pc as i64));
                    }
                }
                if i.ap == Ap::AddRes && want.is_none() {
                    want = Some(felt(place(rng) as i64 - ap as i64));
                }
                if i.opc == Opc::Aeq && want.is_none() {
                    want = get(&new, &mem, dst);
                }
                let v0 = match get(&new, &mem, op0) {
                    Some(v) => v,
                    None => {
                        let v = match (get(&new, &mem, op1), &want, i.res) {
                            (Some(b), Some(w), Res::Add) => w - b,
                            (Some(b), Some(w), Res::Mul) if b != FE::zero() => w * b.inv(),
                            _ => value(rng),
                        };
                        new.insert(op0, v.clone());
                        v
                    }
                };
                let v1 = match get(&new, &mem, op1) {
                    Some(v) => v,
                    None => {
                        let v = match (&want, i.res) {
                            (Some(w), Res::Op1) => w.clone(),
                            (Some(w), Res::Add) => w - &v0,
                            (Some(w), Res::Mul) if v0 != FE::zero() => w * v0.inv(),
                            _ => value(rng),
                        };
                        new.insert(op1, v.clone());
                        v
                    }
                };
                let r = match i.res {
                    Res::Op1 => v1,
                    Res::Add => v0 + v1,
                    Res::Mul => v0 * v1,
                };
                if get(&new, &mem, dst).is_none() {
                    new.insert(dst, if i.opc == Opc::Aeq { r } else { value(rng) });
                }
                Some(())
            })();
            if tries.is_none() {
                stuck += 1;
                if stuck > 400 {
                    return None;
                }
                continue;
            }
            new.insert(pc, FE::from(i.encode()));
        }
        let word = new.get(&pc).or(mem.get(&pc)).cloned();
        let s = step(pc, ap, fp, &|a| new.get(&a).or(mem.get(&a)).cloned());
        let next = s.as_ref().ok().and_then(|s| Some((small(&s.next.0)?, small(&s.next.1)?, small(&s.next.2)?)));
        let good = |x: &(u64, u64, u64)| inside(x.0) && inside(x.1) && inside(x.2);
        match next {
            Some(n) if good(&n) || regs.len() + 1 == steps => {
                let s = s.unwrap();
                let i = s.instr;
                features.insert(format!("{:?}/{:?}/{:?}/{:?}/{:?}", i.opc, i.pc, i.ap, i.res, i.op1));
                mem.extend(new);
                regs.push((pc, ap, fp));
                (pc, ap, fp) = n;
                // a memory cell the machine may not run into a dead end on
                if regs.len() < steps && mem.get(&pc).is_some() {
                    if step(pc, ap, fp, &|a| mem.get(&a).cloned()).is_err() {
                        if regs.len() < 2 {
                            return None;
                        }
                        break;
                    }
                }
            }
            _ => {
                let _ = word;
                stuck += 1;
                if stuck > 400 || mem.contains_key(&pc) {
                    if regs.len() < 2 {
                        return None;
                    }
                    break;
                }
            }
        }
    }
    for a in 1..=program {
        mem.entry(a).or_insert_with(|| value(rng));
    }
    let end = mem.keys().last().unwrap() + 1;
    Some(Run { regs, mem, program, rc: None, out: None, features, entry: 0, exec_end: end })
}

/// Structured runs of all kinds.
pub fn structured(rng: &mut Rng, most_steps: usize) -> Gen {
    let steps = rng.range(2, most_steps.max(3));
    Gen {
        steps,
        code: rng.range(24.max(steps), 40 + 3 * steps) as u64,
        rc: rng.chance(1, 2).then(|| rng.range(0, 9)),
        out: rng.chance(1, 3).then(|| rng.range(0, 9)),
        vm: rng.chance(1, 4),
        holes: rng.below(6) as u64,
        abrupt: rng.chance(1, 2),
    }
}

/// Runs as long and wide as practice has them. Kind 0: more than 1024 steps; 1: thousands of steps, hundreds of
/// cells in every segment; 2: more than 2^16 public cells; 3: more than 2^16 steps.
pub fn large(kind: usize, vm: bool, rng: &mut Rng) -> Run {
    let few = |rng: &mut Rng, a: usize| rng.range(a, a + a / 4);
    if kind == 3 {
        return long_loop(rng.range(66_000, 70_000), rng);
    }
    let g = Gen {
        steps: few(rng, [1100, 4200, 300][kind]),
        code: few(rng, [3600, 14_000, 66_000][kind]) as u64,
        rc: Some(few(rng, [300, 700, 60][kind])),
        out: Some(few(rng, [400, 800, 80][kind])),
        vm,
        holes: rng.below(6) as u64,
        abrupt: false,
    };
    loop {
        let mut r = generate(&g, rng);
        if r.regs.len() * 10 < g.steps * 9 {
            continue;
        }
        if !vm && kind < 2 {
            // a long output segment, after everything else
            let s = r.mem.keys().last().unwrap() + rng.range(1, 4) as u64;
            let e = s + rng.range(280, 900) as u64;
            for a in s..e {
                r.mem.insert(a, value(rng));
            }
            r.out = Some((s, e));
        }
        return r;
    }
}

/// A short program that goes round and round: sums, products, copies and jumps.
fn long_loop(steps: usize, rng: &mut Rng) -> Run {
    let base = Instr {
        off_dst: 0,
        off_op0: -1,
        off_op1: 1,
        dst_fp: false,
        op0_fp: false,
        op1: Op1::Imm,
        res: Res::Op1,
        pc: Pc::Next,
        ap: Ap::Inc,
        opc: Opc::Aeq,
    };
    let mut code = vec![];
    // what the sums and products do to the last value
    let mut work = vec![];
    for _ in 0..rng.range(2, 6) {
        let imm = value(rng);
        let res = if rng.chance(1, 2) { Res::Add } else { Res::Mul };
        if rng.chance(1, 3) {
            // [ap] = [ap - 1] op [ap - 2]
            code.push((Instr { op1: Op1::Ap, off_op1: -2, res, ..base }, None));
            work.push((res, None));
        } else {
            code.push((Instr { res, ..base }, Some(imm.clone())));
            work.push((res, Some(imm)));
        }
    }
    let words: i64 = code.iter().map(|(_, v)| 1 + v.is_some() as i64).sum();
    code.push((Instr { off_dst: -1, dst_fp: true, op0_fp: true, pc: Pc::Rel, ap: Ap::Keep, opc: Opc::Nop, ..base }, Some(felt(-words))));
    let exec = words as u64 + 3;
    let mut v = vec![FE::from(exec), FE::zero()];
    for k in 0..steps + 2 {
        let (res, imm) = &work[k % work.len()];
        let (a, b) = (v[v.len() - 1].clone(), imm.clone().unwrap_or_else(|| v[v.len() - 2].clone()));
        v.push(if *res == Res::Add { a + b } else { a * b });
    }
    let cells: Vec<(u64, FE)> = v.into_iter().enumerate().map(|(k, x)| (exec + k as u64, x)).collect();
    by_hand(&code, &cells, steps, None).unwrap_or_else(|e| panic!("long loop: {e}"))
}

/// Makes part of the memory of a run its output segment.
pub fn with_output(run: &mut Run, rng: &mut Rng) {
    let top = *run.mem.keys().last().unwrap();
    let s = rng.range(run.program as usize + 1, top.max(run.program + 2) as usize + 2) as u64;
    let e = s + rng.below(12) as u64;
    for a in s..e {
        run.mem.entry(a).or_insert_with(|| if rng.chance(1, 6) { FE::from(a) } else { value(rng) });
    }
    run.out = Some((s, e));
}

/// A Cairo 1 program (compiled form): straight-line work on its frame, hints, range checks, jumps.
pub fn cairo1(rng: &mut Rng) -> serde_json::Value {
    let base = Instr {
        off_dst: 0,
        off_op0: -1,
        off_op1: 1,
        dst_fp: false,
        op0_fp: true,
        op1: Op1::Imm,
        res: Res::Op1,
        pc: Pc::Next,
        ap: Ap::Inc,
        opc: Opc::Aeq,
    };
    let mut code: Vec<FE> = vec![];
    let mut hints: Vec<serde_json::Value> = vec![];
    let put = |code: &mut Vec<FE>, i: Instr, imm: Option<FE>| {
        code.push(FE::from(i.encode()));
        code.extend(imm);
    };
    // values at fp + k, for k from 0; small ones are known
    let mut known: Vec<Option<u64>> = vec![];
    let mut checked = 0;
    let ops = rng.range(1, 25);
    for _ in 0..ops {
        let d = known.len() as i32;
        match rng.below(8) {
            1 | 2 if d > 1 => {
                let (a, b) = (rng.below(d as usize) as i32, rng.below(d as usize) as i32);
                let i = Instr {
                    off_op0: a - if rng.chance(1, 2) { 0 } else { d },
                    off_op1: b,
                    op1: Op1::Fp,
                    res: if rng.chance(1, 2) { Res::Add } else { Res::Mul },
                    ..base
                };
                let i = Instr { op0_fp: i.off_op0 >= 0, ..i };
                put(&mut code, i, None);
                known.push(None);
            }
            3 | 4 if known.iter().any(|k| k.is_some()) => {
                let k = (0..known.len()).filter(|k| known[*k].is_some()).last().unwrap() as i32;
                // [fp + k] = [[fp - 7] + n]
                put(&mut code, Instr { off_dst: k, dst_fp: true, off_op0: -7, off_op1: checked, op1: Op1::Op0, ap: Ap::Keep, ..base }, None);
                checked += 1;
            }
            5 => {
                // jump over something that is no code
                let n = rng.range(0, 3);
                put(&mut code, Instr { off_dst: -1, pc: Pc::Rel, ap: Ap::Keep, opc: Opc::Nop, ..base }, Some(FE::from(2 + n as u64)));
                for _ in 0..n {
                    code.push(value(rng));
                }
            }
            6 if d > 0 && known[d as usize - 1].is_some() => {
                let x = known[d as usize - 1].unwrap();
                let y = if rng.chance(1, 2) { x } else { rng.below(1000) as u64 };
                let or_eq = rng.chance(1, 2);
                let name = if or_eq { "TestLessThanOrEqual" } else { "TestLessThan" };
                let here = code.len();
                hints.push(serde_json::json!([here, [{name: {"lhs": {"Immediate": format!("{y:#x}")}, "rhs": {"Deref": {"register": "AP", "offset": -1}},
                    "dst": {"register": "AP", "offset": 0}}}]]));
                // jmp rel 4 if [ap] != 0; ap++
                put(&mut code, Instr { pc: Pc::Jnz, opc: Opc::Nop, ..base }, Some(FE::from(4u64)));
                put(&mut code, Instr { off_dst: -1, pc: Pc::Rel, ap: Ap::Keep, opc: Opc::Nop, ..base }, Some(FE::from(2u64)));
                known.push(Some(if y < x || or_eq && y == x { 1 } else { 0 }));
            }
            7 => {
                hints.push(serde_json::json!([code.len(), [{"AllocSegment": {"dst": {"register": "AP", "offset": 0}}}]]));
                // ap += 1 by way of an addition
                put(&mut code, Instr { off_dst: -1, ap: Ap::AddRes, opc: Opc::Nop, ..base }, Some(FE::one()));
                known.push(None);
                let k = known.len() as i32 - 1;
                if rng.chance(1, 2) {
                    // [[fp + k] + j] = a number
                    let v = rng.below(1 << 20) as u64;
                    put(&mut code, base, Some(FE::from(v)));
                    known.push(Some(v));
                    put(&mut code, Instr { off_dst: -1, off_op0: k, off_op1: rng.below(3) as i32, op1: Op1::Op0, ap: Ap::Keep, ..base }, None);
                }
                // the pointer is no operand of arithmetic
                let v = rng.below(1 << 20) as u64;
                put(&mut code, base, Some(FE::from(v)));
                let at = known.len() as i32;
                known.push(Some(v));
                let copies = known.len();
                let _ = (at, copies);
                break;
            }
            _ => {
                let v = rng.u64() >> rng.below(64);
                put(&mut code, base, Some(FE::from(v)));
                known.push(Some(v));
            }
        }
    }
    let d = known.len() as i32;
    if d == 0 {
        put(&mut code, base, Some(FE::one()));
    }
    put(&mut code, Instr { off_dst: -2, off_op0: -1, off_op1: -1, dst_fp: true, op1: Op1::Fp, pc: Pc::Abs, ap: Ap::Keep, opc: Opc::Ret, ..base }, None);
    serde_json::json!({
        "prime": "0x800000000000011000000000000000000000000000000000000000000000001",
        "compiler_version": "1.1.0",
        "bytecode": code.iter().map(hex).collect::<Vec<_>>(),
        "hints": hints,
        "entry_points_by_type": {"EXTERNAL": [], "L1_HANDLER": [], "CONSTRUCTOR": []},
    })
}
