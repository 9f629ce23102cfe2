//! C19: instructions decode to exactly their bit fields.
use harness::cairo::felt;
use harness::report::{guard, Check};
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::decode::instruction_flags::*;
use lambdaworks_stark::cairo::decode::instruction_offsets::InstructionOffsets;
use lambdaworks_stark::cairo::errors::InstructionDecodingError as E;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::{PrimeField, FE};
use serde_json::json;

/// The fields of a word, straight from its bits.
#[derive(Clone, Debug, PartialEq)]
struct Fields {
    dst: u64,
    op0: u64,
    op1: u64,
    res: u64,
    pc: u64,
    ap: u64,
    opc: u64,
    off: [i64; 3],
}
fn fields(w: u64) -> Fields {
    let bit = |lo: u32, n: u32| (w >> (48 + lo)) & ((1 << n) - 1);
    let off = |k: u32| ((w >> (16 * k)) & 0xffff) as i64 - 32768;
    Fields {
        dst: bit(0, 1),
        op0: bit(1, 1),
        op1: bit(2, 3),
        res: bit(5, 2),
        pc: bit(7, 3),
        ap: bit(10, 2),
        opc: bit(12, 3),
        off: [off(0), off(1), off(2)],
    }
}

/// Which errors a word may be reported with; empty for a proper instruction.
fn faults(v: &FE) -> Vec<&'static str> {
    let b = v.to_bytes_be();
    let wide = b[..24].iter().any(|x| *x != 0) || b[24] & 0x80 != 0;
    let f = fields(u64::from_be_bytes(b[24..].try_into().unwrap()));
    let mut e = vec![];
    if wide {
        e.push("InstructionTooLarge");
    }
    if ![0, 1, 2, 4].contains(&f.op1) {
        e.push("InvalidOp1Src");
    }
    if f.res == 3 {
        e.push("InvalidResLogic");
    }
    if ![0, 1, 2, 4].contains(&f.pc) {
        e.push("InvalidPcUpdate");
    }
    if f.ap == 3 {
        e.push("InvalidApUpdate");
    }
    if ![0, 1, 2, 4].contains(&f.opc) {
        e.push("InvalidOpcode");
    }
    e
}

fn of_flags(f: &CairoInstructionFlags) -> [u64; 7] {
    [
        matches!(f.dst_reg, DstReg::FP) as u64,
        matches!(f.op0_reg, Op0Reg::FP) as u64,
        match f.op1_src {
            Op1Src::Op0 => 0,
            Op1Src::Imm => 1,
            Op1Src::FP => 2,
            Op1Src::AP => 4,
        },
        match f.res_logic {
            ResLogic::Op1 => 0,
            ResLogic::Add => 1,
            ResLogic::Mul => 2,
            ResLogic::Unconstrained => 99,
        },
        match f.pc_update {
            PcUpdate::Regular => 0,
            PcUpdate::Jump => 1,
            PcUpdate::JumpRel => 2,
            PcUpdate::Jnz => 4,
        },
        match f.ap_update {
            ApUpdate::Regular => 0,
            ApUpdate::Add => 1,
            ApUpdate::Add1 => 2,
            ApUpdate::Add2 => 99,
        },
        match f.opcode {
            CairoOpcode::NOp => 0,
            CairoOpcode::Call => 1,
            CairoOpcode::Ret => 2,
            CairoOpcode::AssertEq => 4,
        },
    ]
}

fn one(ck: &mut Check, v: &FE) {
    let b = v.to_bytes_be();
    let w = u64::from_be_bytes(b[24..].try_into().unwrap());
    let f = fields(w);
    let want = [f.dst, f.op0, f.op1, f.res, f.pc, f.ap, f.opc];
    let bad = faults(v);
    let word = || json!(v.to_bytes_be().iter().map(|b| format!("{b:02x}")).collect::<String>());
    ck.count(if bad.is_empty() { "proper instructions" } else { "words with a reserved value" }, 1);
    // all at once
    match guard(|| CairoInstructionFlags::try_from(v)) {
        Err(m) => ck.violation("decoding-panics", json!({"word": word(), "panic": m})),
        Ok(Ok(g)) => {
            ck.expect(bad.is_empty(), "reserved-value-accepted", || json!({"word": word(), "faults": bad}));
            ck.expect(of_flags(&g) == want, "wrong-fields", || json!({"word": word(), "got": of_flags(&g), "want": want}));
            if bad.is_empty() {
                match guard(|| g.to_trace_representation()) {
                    Err(m) => ck.violation("expanding-panics", json!({"word": word(), "panic": m})),
                    Ok(bits) => {
                        let again = bits.iter().enumerate().try_fold(0u64, |a, (i, x)| {
                            if *x == FE::zero() {
                                Some(a)
                            } else if *x == FE::one() {
                                Some(a | 1 << i)
                            } else {
                                None
                            }
                        });
                        ck.expect(again == Some(w >> 48), "flags-not-reproduced", || json!({"word": word(), "bits": again}));
                    }
                }
            }
        }
        Ok(Err(e)) => {
            let name = format!("{e:?}");
            ck.expect(bad.contains(&name.as_str()), "wrong-error", || json!({"word": word(), "error": name, "faults": bad}));
            ck.seen("errors", name.as_bytes());
        }
    }
    // field by field
    macro_rules! part {
        ($t:ty, $err:pat, $name:literal, $get:expr, $val:expr, $ok:expr) => {
            match guard(|| <$t>::try_from(v)) {
                Err(m) => ck.violation("decoding-panics", json!({"word": word(), "part": $name, "panic": m})),
                Ok(Ok(x)) => {
                    ck.expect($ok && $get(x) == $val, "wrong-field", || json!({"word": word(), "part": $name}));
                }
                Ok(Err(e)) => {
                    let as_it_should = !$ok && matches!(e, $err);
                    ck.expect(as_it_should, "wrong-field-error", || json!({"word": word(), "part": $name, "error": format!("{e:?}")}));
                }
            }
        };
    }
    let one_hot = |x: u64| [0, 1, 2, 4].contains(&x);
    part!(DstReg, E::InvalidDstReg, "dst", |x| (x == DstReg::FP) as u64, f.dst, true);
    part!(Op0Reg, E::InvalidOp0Reg, "op0", |x| (x == Op0Reg::FP) as u64, f.op0, true);
    part!(Op1Src, E::InvalidOp1Src, "op1", |x: Op1Src| x as u64, f.op1, one_hot(f.op1));
    part!(ResLogic, E::InvalidResLogic, "res", |x: ResLogic| x as u64, f.res, f.res != 3);
    part!(PcUpdate, E::InvalidPcUpdate, "pc", |x: PcUpdate| x as u64, f.pc, one_hot(f.pc));
    part!(ApUpdate, E::InvalidApUpdate, "ap", |x: ApUpdate| x as u64, f.ap, f.ap != 3);
    part!(CairoOpcode, E::InvalidOpcode, "opcode", |x: CairoOpcode| x as u64, f.opc, one_hot(f.opc));
    // offsets
    match guard(|| {
        let o = InstructionOffsets::new(v);
        let d = [0, 16, 32].map(|k| InstructionOffsets::decode_offset(v, k) as i64);
        let r = o.to_trace_representation::<PrimeField>();
        ([o.off_dst as i64, o.off_op0 as i64, o.off_op1 as i64], d, r)
    }) {
        Err(m) => ck.violation("decoding-panics", json!({"word": word(), "part": "offsets", "panic": m})),
        Ok((o, d, r)) => {
            ck.expect(o == f.off && d == f.off, "wrong-offsets", || json!({"word": word(), "got": o, "single": d, "want": f.off}));
            let back = f.off.map(|x| felt(x) + FE::from(32768u64));
            ck.expect(r == back, "offsets-not-reproduced", || json!({"word": word()}));
            let sum = &r[0] + &r[1] * FE::from(1u64 << 16) + &r[2] * FE::from(1u64 << 32) + FE::from(w >> 48) * FE::from(1u64 << 48);
            if bad.is_empty() {
                ck.expect(sum == *v, "offsets-not-reproduced", || json!({"word": word()}));
            }
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C19",
        "one evaluation per instruction word: every part decoded and re-expanded, compared with its bits; all 2^16 values \
         of the flags and of every offset are covered, the other bits are random; distinct by word",
    );
    let turns = ck.n(2, 20);
    for t in 0..turns {
        if ck.stop() {
            break;
        }
        for x in 0..1u64 << 16 {
            let r = ck.rng.u64();
            // legal flags so that the offsets are also seen through whole instructions
            let legal = [0x4806, 0x208b, 0x0000, 0x1104, 0x4017, 0x0206, 0x0066][(r % 7) as usize] << 48;
            let edge = [0u64, 0x7fff, 0x8000, 0xffff][(r >> 20) as usize % 4];
            let o = if t % 2 == 0 { r & ((1 << 48) - 1) } else { edge | edge << 32 | (r >> 40 & 0xffff) << 16 };
            let mut words = vec![x << 48 | o];
            for k in [0, 16, 32] {
                words.push(legal | (o & !(0xffff << k)) | x << k);
            }
            for w in words {
                let v = FE::from(w);
                ck.begin(&format!("{w:x}"));
                one(&mut ck, &v);
                ck.eval(&w.to_be_bytes(), true);
            }
        }
    }
    // wider than a word
    for _ in 0..ck.n(100_000, 400_000) {
        if ck.stop() {
            break;
        }
        let low = 0x480680017fff8000u64 ^ (if ck.rng.chance(1, 2) { 0 } else { ck.rng.u64() });
        let hi = match ck.rng.below(4) {
            0 => FE::from(2u64).pow(64 + ck.rng.below(187)),
            1 => FE::from(2u64).pow(63usize),
            2 => ck.rng.fe_big(),
            _ => -FE::from(ck.rng.u64() >> 1),
        };
        let v = hi + FE::from(low);
        ck.begin("wide word");
        one(&mut ck, &v);
        ck.eval(&v.to_bytes_be(), true);
    }
    // whole traces
    for _ in 0..ck.n(1500, 5000) {
        if ck.stop() {
            break;
        }
        let n = ck.rng.range(1, 12);
        let wild = ck.rng.chance(1, 3);
        let mut mem = std::collections::HashMap::new();
        let mut rows = vec![];
        let mut words = vec![];
        for _ in 0..n {
            let pc = if ck.rng.chance(1, 8) { ck.rng.u64() } else { ck.rng.below(20) as u64 };
            let o = ck.rng.u64();
            let w = if wild && ck.rng.chance(1, 4) { o } else { [0x4806u64, 0x208b, 0, 0x1104, 0x4017][o as usize % 5] << 48 | o >> 16 };
            let present = !mem.contains_key(&pc) && !(wild && ck.rng.chance(1, 10));
            if present {
                mem.insert(pc, FE::from(w));
            }
            rows.push(RegistersState { pc, fp: ck.rng.u64(), ap: ck.rng.u64() });
        }
        for r in &rows {
            words.push(mem.get(&r.pc).cloned());
        }
        let memory = CairoMemory::new(mem);
        let t = RegisterStates { rows };
        let ok = words.iter().all(|w| w.as_ref().map_or(false, |w| faults(w).is_empty()));
        ck.begin("trace");
        let Some(got) = ck.run("decoding-panics", || json!("trace"), || t.flags_and_offsets(&memory)) else { continue };
        ck.expect(got.is_ok() == ok, "trace-verdict", || json!({"ok": ok, "got": format!("{got:?}")}));
        if let Ok(g) = got {
            ck.expect(g.len() == words.len(), "trace-length", || json!({"got": g.len(), "want": words.len()}));
            for (x, w) in g.iter().zip(&words) {
                let Some(w) = w else { continue };
                let f = fields(u64::from_be_bytes(w.to_bytes_be()[24..].try_into().unwrap()));
                let want = [f.dst, f.op0, f.op1, f.res, f.pc, f.ap, f.opc];
                let o = [x.1.off_dst as i64, x.1.off_op0 as i64, x.1.off_op1 as i64];
                ck.expect(of_flags(&x.0) == want && o == f.off, "trace-row", || json!({"want": format!("{f:?}")}));
            }
        }
        ck.count("traces decoded", 1);
        ck.eval(format!("trace {words:?}").as_bytes(), true);
    }
    ck.finish();
}
