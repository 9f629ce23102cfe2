//! C27: running and importing Cairo programs preserves every trace and memory entry.
use cairo_vm::cairo_run::{cairo_run, CairoRunConfig};
use cairo_vm::felt::Felt252;
use cairo_vm::hint_processor::builtin_hint_processor::builtin_hint_processor_definition::BuiltinHintProcessor;
use cairo_vm::types::program::Program;
use cairo_vm::vm::runners::cairo_runner::CairoRunner;
use cairo_vm::vm::trace::trace_entry::TraceEntry;
use harness::cairo::*;
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_stark::cairo::air::{MemorySegment, MemorySegmentMap, PublicInputs};
use lambdaworks_stark::cairo::cairo_layout::CairoLayout;
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::execution_trace::build_main_trace;
use lambdaworks_stark::cairo::register_states::{RegisterStates, RegistersState};
use lambdaworks_stark::cairo::runner::file_writer::FileWriter;
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, run_program, CairoVersion};
use lambdaworks_stark::cairo::runner::vec_writer::VecWriter;
use lambdaworks_stark::FE;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::ops::Range;

type Rows = Vec<(u64, u64, u64)>; // pc, ap, fp
type Mem = BTreeMap<u64, FE>;
type Got = (Rows, Mem, usize, Option<Range<u64>>);

fn layouts() -> Vec<(CairoLayout, &'static str)> {
    use CairoLayout::*;
    vec![
        (Plain, "plain"),
        (Small, "small"),
        (Dex, "dex"),
        (Recursive, "recursive"),
        (Starknet, "starknet"),
        (StarknetWithKeccak, "starknet_with_keccak"),
        (RecursiveLargeOutput, "recursive_large_output"),
        (AllCairo, "all_cairo"),
        (AllSolidity, "all_solidity"),
        (Dynamic, "dynamic"),
    ]
}

fn rows(r: &RegisterStates) -> Rows {
    r.rows.iter().map(|r| (r.pc, r.ap, r.fp)).collect()
}
fn cells(m: &CairoMemory) -> Mem {
    m.data.iter().map(|(a, v)| (*a, v.clone())).collect()
}
fn canon(v: &FE) -> [u8; 32] {
    v.to_bytes_le().try_into().unwrap()
}

fn real(entry: Option<&str>, layout: CairoLayout, text: &[u8], v: &CairoVersion) -> Result<Result<Got, String>, String> {
    guard(|| {
        run_program(entry, layout, text, v)
            .map(|(r, m, n, rc)| (rows(&r), cells(&m), n, rc))
            .map_err(|e| format!("{e:?}"))
    })
}

/// The same program, given to the virtual machine directly.
fn machine(entry: &str, layout: &str, text: &[u8]) -> Result<Got, String> {
    let mut h = BuiltinHintProcessor::new_empty();
    let c = CairoRunConfig { entrypoint: entry, trace_enabled: true, relocate_mem: true, layout, proof_mode: false, secure_run: None };
    let (runner, vm) = cairo_run(text, &c, &mut h).map_err(|e| format!("{e:?}"))?;
    let t = vm.get_relocated_trace().map_err(|e| format!("{e:?}"))?;
    let regs = t.iter().map(|e| (e.pc as u64, e.ap as u64, e.fp as u64)).collect();
    let mem = runner.relocated_memory.iter().enumerate().filter_map(|(a, v)| v.as_ref().map(|v| (a as u64, v.0.clone()))).collect();
    let rc = vm.get_range_check_builtin().ok().map(|b| {
        let (seg, stop) = b.get_memory_segment_addresses();
        let mut at = 1u64;
        for s in 0..seg {
            at += vm.get_segment_size(s).unwrap() as u64;
        }
        at..at + stop.unwrap_or(0) as u64
    });
    Ok((regs, mem, runner.get_program().data_len(), rc))
}

/// The first difference.
fn differ(a: &Got, b: &Got) -> Option<String> {
    if a.0.len() != b.0.len() {
        return Some(format!("{} steps for {}", a.0.len(), b.0.len()));
    }
    if let Some(k) = (0..a.0.len()).find(|k| a.0[*k] != b.0[*k]) {
        return Some(format!("registers at step {k}: {:?} for {:?}", a.0[k], b.0[k]));
    }
    for k in a.1.keys().chain(b.1.keys()) {
        let (x, y) = (a.1.get(k), b.1.get(k));
        if x.map(canon) != y.map(canon) {
            return Some(format!("memory at {k}: {:?} for {:?}", x.map(hex), y.map(hex)));
        }
    }
    if a.2 != b.2 {
        return Some(format!("program length {} for {}", a.2, b.2));
    }
    (a.3 != b.3).then(|| format!("range-check segment {:?} for {:?}", a.3, b.3))
}

fn public_of(r: &Rows, m: &Mem, program: usize, out: &Option<Range<u64>>) -> Mem {
    let _ = r;
    let mut p: Mem = (1..=program as u64).map(|a| (a, m[&a].clone())).collect();
    for a in out.clone().into_iter().flatten() {
        p.insert(a, m[&a].clone());
    }
    p
}

/// What is wrong with a derived public input.
fn inputs_differ(pi: &PublicInputs, r: &Rows, m: &Mem, program: usize, segs: &MemorySegmentMap) -> Option<String> {
    let (f, l) = (r[0], r[r.len() - 1]);
    let regs = [(&pi.pc_init, f.0, "first pc"), (&pi.ap_init, f.1, "first ap"), (&pi.fp_init, f.2, "first fp"), (&pi.pc_final, l.0, "last pc"), (&pi.ap_final, l.1, "last ap")];
    for (g, w, what) in regs {
        if canon(g) != canon(&FE::from(w)) {
            return Some(format!("{what}: {} for {w:#x}", hex(g)));
        }
    }
    if pi.num_steps != r.len() {
        return Some(format!("{} steps for {}", pi.num_steps, r.len()));
    }
    if &pi.memory_segments != segs {
        return Some(format!("segments {:?} for {:?}", pi.memory_segments, segs));
    }
    let want: BTreeMap<[u8; 32], [u8; 32]> = public_of(r, m, program, &segs.get(&MemorySegment::Output).cloned())
        .iter()
        .map(|(a, v)| (canon(&FE::from(*a)), canon(v)))
        .collect();
    let got: BTreeMap<[u8; 32], [u8; 32]> = pi.public_memory.iter().map(|(a, v)| (canon(a), canon(v))).collect();
    (want != got).then(|| format!("public memory of {} cells for {}", got.len(), want.len()))
}

fn encode_rows(r: &Rows) -> Vec<u8> {
    let mut b = vec![];
    for (pc, ap, fp) in r {
        for x in [ap, fp, pc] {
            b.extend(x.to_le_bytes());
        }
    }
    b
}
fn encode_cells(c: &[(u64, FE)]) -> Vec<u8> {
    let mut b = vec![];
    for (a, v) in c {
        b.extend(a.to_le_bytes());
        b.extend(canon(v));
    }
    b
}

fn word(rng: &mut Rng) -> u64 {
    match rng.below(6) {
        0 => rng.below(4) as u64,
        1 => u64::MAX - rng.below(4) as u64,
        2 => 1 << rng.below(64),
        3 => rng.below(1 << 16) as u64,
        _ => rng.u64(),
    }
}
fn felt_any(rng: &mut Rng) -> FE {
    match rng.below(5) {
        0 => FE::zero(),
        1 => -FE::one(),
        2 => FE::from(word(rng)),
        _ => rng.fe_big(),
    }
}
/// A different address for each of `n` cells.
fn any_cells(n: usize, rng: &mut Rng) -> Vec<(u64, FE)> {
    let mut m: BTreeMap<u64, FE> = BTreeMap::new();
    let base = word(rng);
    while m.len() < n {
        let a = if rng.chance(1, 2) { base.wrapping_add(rng.below(4 * n + 4) as u64) } else { word(rng) };
        m.insert(a, felt_any(rng));
    }
    let mut v: Vec<_> = m.into_iter().collect();
    rng.shuffle(&mut v);
    v
}

struct Scratch(std::path::PathBuf);
impl Scratch {
    fn new() -> Self {
        let p = std::path::PathBuf::from(format!("{}/work/c27-{}", std::env::var("VERIF_ROOT").unwrap_or("/verif".into()), std::process::id()));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    fn at(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn dumps(ck: &mut Check, rng: &mut Rng, dir: &Scratch, big: bool) {
    // registers
    let n = if big { 66_000 + rng.below(1000) } else { [0, 1, 2, rng.below(40), rng.below(3000)][rng.below(5)] };
    let r: Rows = (0..n).map(|_| (word(rng), word(rng), word(rng))).collect();
    let b = encode_rows(&r);
    let f = dir.at("trace");
    std::fs::write(&f, &b).unwrap();
    for (how, got) in [("bytes", guard(|| RegisterStates::from_bytes_le(&b))), ("file", guard(|| RegisterStates::from_file(&f)))] {
        let got = got.map(|g| g.map(|g| (g.steps(), rows(&g))).map_err(|e| format!("{e:?}")));
        ck.expect(got == Ok(Ok((n, r.clone()))), "register-dump", || json!({"from": how, "rows": n, "got": format!("{got:?}").chars().take(600).collect::<String>(), "wanted": format!("{r:?}").chars().take(600).collect::<String>()}));
        ck.count("register dumps read", 1);
        ck.count("register rows compared", n as u64);
    }
    ck.eval(&[b"regs", &b[..]].concat(), n > 0);
    // memory
    let n = if big { 66_000 + rng.below(1000) } else { [0, 1, 2, rng.below(40), rng.below(2000)][rng.below(5)] };
    let c = any_cells(n, rng);
    let b = encode_cells(&c);
    let f = dir.at("memory");
    std::fs::write(&f, &b).unwrap();
    let want: Mem = c.iter().cloned().collect();
    for (how, got) in [("bytes", guard(|| CairoMemory::from_bytes_le(&b))), ("file", guard(|| CairoMemory::from_file(&f)))] {
        match got {
            Ok(Ok(m)) => {
                let ok = m.len() == n
                    && m.is_empty() == (n == 0)
                    && cells(&m).iter().map(|(a, v)| (*a, canon(v))).eq(want.iter().map(|(a, v)| (*a, canon(v))))
                    && want.iter().all(|(a, v)| m.get(a) == Some(v))
                    && (0..20).all(|_| {
                        let a = word(rng);
                        m.get(&a).is_some() == want.contains_key(&a)
                    });
                ck.expect(ok, "memory-dump", || json!({"from": how, "cells": n, "read": m.len()}));
            }
            e => ck.violation("memory-dump", json!({"from": how, "cells": n, "got": format!("{e:?}").chars().take(400).collect::<String>()})),
        }
        ck.count("memory dumps read", 1);
        ck.count("memory cells compared", n as u64);
    }
    ck.eval(&[b"mem", &b[..]].concat(), n > 0);
    // sizes that no dump has
    let len = [rng.below(200), rng.below(100_000)][rng.below(2)];
    let junk = rng.bytes(len);
    let f = dir.at("junk");
    std::fs::write(&f, &junk).unwrap();
    for (size, what) in [(24, "registers"), (40, "memory")] {
        for from_file in [false, true] {
            let got = guard(|| match (size, from_file) {
                (24, false) => RegisterStates::from_bytes_le(&junk).map(|r| r.steps()),
                (24, true) => RegisterStates::from_file(&f).map(|r| r.steps()),
                (_, false) => CairoMemory::from_bytes_le(&junk).map(|m| m.len()),
                _ => CairoMemory::from_file(&f).map(|m| m.len()),
            });
            let ok = match &got {
                Ok(Ok(n)) => len % size == 0 && (size == 40 && *n <= len / size || *n == len / size),
                Ok(Err(_)) => len % size != 0,
                Err(_) => false,
            };
            ck.expect(ok, "dump-size", || json!({"what": what, "bytes": len, "file": from_file, "got": format!("{:?}", got.as_ref().map(|r| r.as_ref().map_err(|e| e.to_string())))}));
            ck.count(if len % size == 0 { "whole dumps of nonsense" } else { "malformed dump sizes" }, 1);
        }
    }
    // files that are not there
    for p in [dir.at("not-there"), dir.at(""), dir.at("trace/below"), String::new(), "/".into(), dir.at("nul\0inside")] {
        let a = guard(|| RegisterStates::from_file(&p).is_err());
        let b = guard(|| CairoMemory::from_file(&p).is_err());
        ck.expect(a == Ok(true) && b == Ok(true), "missing-file", || json!({"path": p, "registers": format!("{a:?}"), "memory": format!("{b:?}")}));
        ck.count("missing files", 2);
    }
}

fn writers(ck: &mut Check, rng: &mut Rng, dir: &Scratch) {
    let n = rng.below(60);
    let r: Rows = (0..n).map(|_| (word(rng), word(rng), word(rng))).collect();
    let t: Vec<TraceEntry> = r.iter().map(|(pc, ap, fp)| TraceEntry { pc: *pc as usize, ap: *ap as usize, fp: *fp as usize }).collect();
    let m: Vec<Option<Felt252>> = (0..rng.below(200)).map(|_| rng.chance(2, 3).then(|| Felt252(felt_any(rng)))).collect();
    let c: Vec<(u64, FE)> = m.iter().enumerate().filter_map(|(a, v)| v.as_ref().map(|v| (a as u64, v.0.clone()))).collect();
    let got = guard(|| {
        let (mut a, mut b) = (vec![], vec![]);
        let mut w = VecWriter::new(&mut a);
        w.write_encoded_trace(&t);
        w.flush().unwrap();
        let mut w = VecWriter::new(&mut b);
        w.write_encoded_memory(&m);
        w.flush().unwrap();
        (a, b)
    });
    let ok = matches!(&got, Ok((a, b)) if *a == encode_rows(&r) && *b == encode_cells(&c));
    ck.expect(ok, "encoding", || json!({"rows": n, "cells": c.len()}));
    // raw writers
    let parts: Vec<Vec<u8>> = (0..rng.below(20))
        .map(|_| {
            let n = rng.below(5000);
            rng.bytes(n)
        })
        .collect();
    let f = dir.at("written");
    let got = guard(|| {
        use bincode::enc::write::Writer;
        let mut v = vec![];
        let mut a = VecWriter::new(&mut v);
        let mut b = FileWriter::new(std::io::BufWriter::new(std::fs::File::create(&f).unwrap()));
        for p in &parts {
            a.write(p).unwrap();
            b.write(p).unwrap();
        }
        a.flush().unwrap();
        b.flush().unwrap();
        let on_disk = std::fs::read(&f).unwrap();
        (v, on_disk)
    });
    let want = parts.concat();
    ck.expect(got == Ok((want.clone(), want.clone())), "writer", || json!({"parts": parts.iter().map(|p| p.len()).collect::<Vec<_>>()}));
    // a device that takes nothing
    let full = guard(|| {
        use bincode::enc::write::Writer;
        let file = std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap();
        let mut b = FileWriter::new(std::io::BufWriter::with_capacity(16, file));
        b.write(&[7; 400]).is_err() || b.flush().is_err()
    });
    ck.expect(full == Ok(true), "writer-full", || json!({"outcome": format!("{full:?}")}));
    ck.count("entries encoded by the writers", (n + c.len()) as u64);
    ck.eval(&[encode_rows(&r), encode_cells(&c), want].concat(), true);
}

fn derived(ck: &mut Check, rng: &mut Rng, big: bool) {
    let n = if big { 66_000 + rng.below(1000) } else { rng.range(1, 60) };
    let r: Rows = (0..n).map(|_| (word(rng), word(rng), word(rng))).collect();
    let program = if big { 66_000 + rng.below(1000) } else { rng.below(40) };
    let mut m: Mem = any_cells(rng.below(40), rng).into_iter().collect();
    for a in 1..=program as u64 {
        m.insert(a, felt_any(rng));
    }
    let mut segs = MemorySegmentMap::new();
    if rng.chance(1, 2) {
        let s = rng.below(1 << 20) as u64;
        segs.insert(MemorySegment::RangeCheck, s..s + rng.below(50) as u64);
    }
    if big || rng.chance(2, 3) {
        // anywhere, also over the program
        let s = if !big && rng.chance(1, 3) { rng.range(1, 50) as u64 } else { word(rng).min(u64::MAX - 100) };
        let s = if big { s.min(u64::MAX - 4000) } else { s };
        let e = s + if big { rng.range(300, 3000) } else { rng.below(30) } as u64;
        for a in s..e {
            m.entry(a).or_insert_with(|| felt_any(rng));
        }
        segs.insert(MemorySegment::Output, s..e);
    }
    let states = RegisterStates { rows: r.iter().map(|(pc, ap, fp)| RegistersState { pc: *pc, ap: *ap, fp: *fp }).collect() };
    let mem = CairoMemory::new(m.iter().map(|(a, v)| (*a, v.clone())).collect::<HashMap<_, _>>());
    let d = || json!({"steps": n, "program": program, "segments": format!("{segs:?}"), "cells": m.len()});
    let Some(pi) = ck.run("derive-panic", d, || PublicInputs::from_regs_and_mem(&states, &mem, program, &segs)) else { return };
    let w = inputs_differ(&pi, &r, &m, program, &segs);
    ck.expect(w.is_none() && pi.range_check_min.is_none() && pi.range_check_max.is_none(), "derived-input", || json!({"case": d(), "difference": w}));
    ck.count("public inputs derived", 1);
    ck.eval(format!("{r:?}{segs:?}{program}").as_bytes(), true);
}

/// Programs that cannot be run, and why.
fn hopeless(p: &Value, rng: &mut Rng) -> (&'static str, Vec<u8>, Option<String>) {
    let mut q = p.clone();
    match rng.below(11) {
        0 => ("no program", [&b""[..], b"{", b"[]", b"null", b"\xff\xfe", b"{\"data\": 3}", b"7"][rng.below(7)].to_vec(), None),
        1 => {
            let t = p.to_string().into_bytes();
            let n = rng.below(t.len());
            ("cut", t[..n].to_vec(), None)
        }
        2 => {
            q["identifiers"] = json!({});
            ("no entry", q.to_string().into_bytes(), None)
        }
        3 => ("another entry", p.to_string().into_bytes(), Some(["other", "", "main ", "Main", "__main__.main"][rng.below(5)].to_string())),
        4 => {
            q["builtins"] = json!([*rng.pick(&["pedersen", "ecdsa", "keccak", "unheard_of"])]);
            ("builtin that is not there", q.to_string().into_bytes(), None)
        }
        5 => {
            let pc = p["identifiers"]["__main__.main"]["pc"].as_u64().unwrap() as usize;
            q["data"][pc] = json!(["0x0", "0x8000000000000000", "0x7fff7fff7fff7fff", "0x10000000000000000", "0x800000000000011000000000000000000000000000000000000000000000000"][rng.below(5)]);
            ("no instruction", q.to_string().into_bytes(), None)
        }
        6 => {
            q["hints"] = json!({p["identifiers"]["__main__.main"]["pc"].to_string(): [{"code": *rng.pick(&["import os", "memory[ap] = x", "segments.add("])}]});
            ("unknown hint", q.to_string().into_bytes(), None)
        }
        7 => {
            q["identifiers"]["__main__.main"]["pc"] = json!(p["data"].as_array().unwrap().len() + rng.below(5));
            ("entry outside of the program", q.to_string().into_bytes(), None)
        }
        8 => {
            q["data"] = json!(["nonsense", 5, {}]);
            ("words that are none", q.to_string().into_bytes(), None)
        }
        9 => {
            // assert 1 = 2
            q["data"] = json!(["0x480680017fff8000", "0x1", "0x400680017fff7fff", "0x2", "0x208b7fff7fff7ffe"]);
            q["identifiers"]["__main__.main"]["pc"] = json!(0);
            q["builtins"] = json!([]);
            ("failing assertion", q.to_string().into_bytes(), None)
        }
        _ => {
            q["data"] = json!([]);
            ("empty", q.to_string().into_bytes(), None)
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C27",
        "one evaluation per program run (Cairo 0 and 1), dump read, public input derived, encoding written or hopeless program; \
         programs compared entry by entry with an independent interpreter and with the virtual machine's own records; distinct by content",
    );
    let dir = Scratch::new();
    for (l, name) in layouts() {
        ck.expect(l.as_str() == name && l.clone() == l, "layout-name", || json!({"layout": format!("{l:?}"), "name": l.as_str(), "machine": name}));
        let p = Program::from_bytes(b"{\"data\": []}", None).unwrap();
        ck.expect(CairoRunner::new(&p, l.as_str(), false).is_ok(), "layout-unknown", || json!({"layout": format!("{l:?}"), "name": l.as_str()}));
        ck.eval(name.as_bytes(), true);
        ck.count("layouts", 1);
    }
    let n = ck.n(24000, 200_000);
    for k in 0..n {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        ck.begin(&format!("case {k}"));
        match k % 8 {
            5 => dumps(&mut ck, &mut rng, &dir, k % 12_000 == 5),
            6 => writers(&mut ck, &mut rng, &dir),
            7 => derived(&mut ck, &mut rng, k % 4000 == 7),
            4 => {
                // Cairo 1
                let v = if k == 4 { serde_json::from_str(include_str!("../../data/fibonacci_cairo1.casm")).unwrap() } else { cairo1(&mut rng) };
                let text = v.to_string().into_bytes();
                if rng.chance(1, 4) {
                    // damaged
                    let mut q = v.clone();
                    let (what, b) = match rng.below(7) {
                        0 => ("cut", text[..rng.below(text.len())].to_vec()),
                        1 => ("nonsense", rng.bytes(30)),
                        2 => {
                            q["bytecode"] = json!(["zz"]);
                            ("words that are none", q.to_string().into_bytes())
                        }
                        3 => {
                            q["bytecode"][0] = json!("0xffffffffffffffffff");
                            ("no instruction", q.to_string().into_bytes())
                        }
                        4 => {
                            q.as_object_mut().unwrap().remove("bytecode");
                            ("no code", q.to_string().into_bytes())
                        }
                        5 => {
                            q["hints"] = json!([[0, [{"Unheard": {}}]]]);
                            ("unknown hint", q.to_string().into_bytes())
                        }
                        _ => {
                            q["bytecode"] = json!([]);
                            ("empty", q.to_string().into_bytes())
                        }
                    };
                    // an empty program is the two words after it, the first of which returns
                    let got = real(None, CairoLayout::Plain, &b, &CairoVersion::V1);
                    let ok = match &got {
                        Ok(Ok(_)) => what == "empty",
                        Ok(Err(_)) => true,
                        Err(_) => false,
                    };
                    ck.expect(ok, "hopeless-program", || json!({"version": 1, "what": what, "program": String::from_utf8_lossy(&b), "outcome": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(|_| "run")))}));
                    ck.seen("kinds of hopeless programs", format!("1 {what}").as_bytes());
                    ck.count("hopeless programs", 1);
                    ck.eval(&b, true);
                    continue;
                }
                let (l, name) = layouts()[rng.below(10)].clone();
                let d = || json!({"version": 1, "layout": name, "program": v});
                let got = match real(None, l, &text, &CairoVersion::V1) {
                    Ok(Ok(g)) => g,
                    e => {
                        ck.violation("not-run", json!({"case": d(), "error": format!("{e:?}").chars().take(500).collect::<String>()}));
                        continue;
                    }
                };
                let (r, m, len, rc) = &got;
                let code: Vec<FE> = v["bytecode"].as_array().unwrap().iter().map(|x| Felt252::from_hex(x.as_str().unwrap()).unwrap().0).collect();
                let mut bad = None;
                if *len != code.len() {
                    bad = Some("program length".to_string());
                }
                // the program, a return and the pointer to the builtin costs, then the stack
                for (i, w) in code.iter().chain([&FE::from(0x208B7FFF7FFF7FFEu64)]).enumerate() {
                    if m.get(&(i as u64 + 1)).map(canon) != Some(canon(w)) {
                        bad.get_or_insert(format!("program word {i}"));
                    }
                }
                let exec = code.len() as u64 + 3;
                if r.first() != Some(&(1, exec + 7, exec + 7)) {
                    bad.get_or_insert(format!("first registers {:?}", r.first()));
                }
                // each step is what the instruction does on that memory
                for (i, x) in r.iter().enumerate() {
                    match step(x.0, x.1, x.2, &|a| m.get(&a).cloned()) {
                        Err(e) => {
                            bad.get_or_insert(format!("step {i}: {e}"));
                            break;
                        }
                        Ok(s) => {
                            let want = r.get(i + 1);
                            if want.map_or(false, |n| s.next != (FE::from(n.0), FE::from(n.1), FE::from(n.2))) {
                                bad.get_or_insert(format!("step {i} leads to {:?}", s.next));
                                break;
                            }
                            if want.is_none() {
                                // it ended where it was told to, with the caller's frame of 0
                                let end = m.get(&(exec + 6));
                                if end.map(canon) != Some(canon(&s.next.0)) || canon(&s.next.2) != [0; 32] {
                                    bad.get_or_insert("the last step does not end the run".into());
                                }
                            }
                        }
                    }
                    if i > 0 && r.len() > 5000 && i % 7 != 0 {
                        continue;
                    }
                }
                // the arguments: range-check pointer, gas, syscalls, no call data
                let arg = |i: u64| m.get(&(exec + i)).cloned().unwrap_or(FE::from(123_456_789_012u64));
                let rcp = arg(0);
                let ok = arg(1) == FE::from(u64::MAX)
                    && arg(3) == arg(4)
                    && arg(5) == FE::zero()
                    && rc.as_ref().map_or(false, |x| FE::from(x.start) == rcp && x.end == x.start)
                    && small(&rcp).map_or(false, |a| m.keys().all(|k| *k < a || *k >= a) && r.iter().all(|x| x.1 <= a));
                if !ok {
                    bad.get_or_insert(format!("arguments or range-check segment {rc:?}"));
                }
                ck.expect(bad.is_none(), "cairo1-run", || json!({"case": d(), "what": bad}));
                ck.count("Cairo 1 programs", 1);
                ck.count("register rows compared", r.len() as u64);
                ck.count("memory cells compared", m.len() as u64);
                ck.eval(&text, true);
            }
            _ => {
                let mut g = structured(&mut rng, 60);
                g.vm = true;
                g.abrupt = false;
                let run = match k {
                    0 => large(0, true, &mut rng),
                    8 => large(1, true, &mut rng),
                    16 => large(2, true, &mut rng),
                    _ => generate(&g, &mut rng),
                };
                ck.count("programs of more than 1000 steps", (run.regs.len() > 1000) as u64);
                let mut p = run.program_json();
                if k % 8 == 3 {
                    let (what, b, entry) = hopeless(&p, &mut rng);
                    let (l, name) = layouts()[rng.range(1, 9)].clone();
                    let got = real(entry.as_deref(), l, &b, &CairoVersion::V0);
                    let direct = machine(entry.as_deref().unwrap_or("main"), name, &b);
                    let ok = match (&got, &direct) {
                        (Ok(Err(_)), Err(_)) => true,
                        (Ok(Ok(a)), Ok(b)) => differ(a, b).is_none(),
                        _ => false,
                    };
                    ck.expect(ok, "hopeless-program", || json!({"version": 0, "what": what, "program": String::from_utf8_lossy(&b), "machine": direct.as_ref().err(), "outcome": format!("{:?}", got.as_ref().map(|g| g.as_ref().map(|_| "run")))}));
                    if direct.is_err() {
                        ck.count("hopeless programs", 1);
                        ck.seen("kinds of hopeless programs", what.as_bytes());
                    }
                    // neither does anything else come of it
                    if entry.is_none() && name == "small" {
                        let a = guard(|| generate_prover_args(&b, &CairoVersion::V0, &None).is_err());
                        ck.expect(a == Ok(direct.is_err()), "hopeless-args", || json!({"what": what, "program": String::from_utf8_lossy(&b), "outcome": format!("{a:?}")}));
                    }
                    ck.eval(&[&b[..], name.as_bytes()].concat(), true);
                    continue;
                }
                // the entry point: main, or another function with main somewhere else
                let entry = if rng.chance(1, 2) { None } else { Some(["main", "f", "start_here", "fib"][rng.below(4)]) };
                let at = p["identifiers"]["__main__.main"]["pc"].clone();
                if let Some(e) = entry.filter(|e| *e != "main") {
                    p["identifiers"] = json!({
                        "__main__.main": {"pc": rng.below(run.program as usize)},
                        format!("__main__.{e}"): {"pc": at},
                        format!("__main__.{e}x"): {"pc": 0},
                    });
                }
                let builtins = run.rc.is_some() || run.out.is_some();
                let (l, name) = layouts()[rng.range(builtins as usize, 9)].clone();
                let text = p.to_string().into_bytes();
                let d = || json!({"version": 0, "layout": name, "entry": entry, "run": run.brief(), "program": p});
                ck.begin(&d().to_string());
                let got = match real(entry, l, &text, &CairoVersion::V0) {
                    Ok(Ok(g)) => g,
                    e => {
                        ck.violation("not-run", json!({"case": d(), "error": format!("{e:?}").chars().take(500).collect::<String>()}));
                        continue;
                    }
                };
                let own = (run.regs.clone(), run.mem.clone(), run.program as usize, run.rc.map(|(s, e)| s..e));
                let w = differ(&got, &own);
                ck.expect(w.is_none(), "run", || json!({"case": d(), "difference from the interpreter": w}));
                let w = match machine(entry.unwrap_or("main"), name, &text) {
                    Ok(m) => differ(&got, &m),
                    Err(e) => Some(format!("the machine reports {e}")),
                };
                ck.expect(w.is_none(), "run", || json!({"case": d(), "difference from the machine": w}));
                if builtins && rng.chance(1, 4) {
                    let plain = real(entry, CairoLayout::Plain, &text, &CairoVersion::V0);
                    ck.expect(matches!(plain, Ok(Err(_))), "layout-ignored", || d());
                }
                ck.count("Cairo 0 programs", 1);
                ck.seen("layouts run", name.as_bytes());
                ck.count("register rows compared", got.0.len() as u64);
                ck.count("memory cells compared", got.1.len() as u64);
                for f in &run.features {
                    ck.seen("instruction forms run", f.as_bytes());
                }
                // and what the prover is given
                if entry.map_or(true, |e| e == "main") && run.rc.map_or(true, |(s, e)| (e - s) as usize <= run.regs.len()) {
                    let out = run.out.filter(|_| rng.chance(2, 3)).map(|(s, e)| s..e);
                    let mut segs = run.segments();
                    if out.is_none() {
                        segs.remove(&MemorySegment::Output);
                    }
                    match guard(|| generate_prover_args(&text, &CairoVersion::V0, &out)) {
                        Ok(Ok((t, pi))) => {
                            let w = inputs_differ(&pi, &run.regs, &run.mem, run.program as usize, &segs);
                            ck.expect(w.is_none(), "prover-input", || json!({"case": d(), "difference": w}));
                            let mut pi2 = PublicInputs::from_regs_and_mem(&run.states(), &run.memory(), run.program as usize, &segs);
                            if let Some(t2) = ck.run("trace-panic", d, || build_main_trace(&run.states(), &run.memory(), &mut pi2)) {
                                let same = t.n_cols == t2.n_cols && t.table == t2.table && pi.range_check_min == pi2.range_check_min && pi.range_check_max == pi2.range_check_max;
                                ck.expect(same, "prover-trace", || d());
                            }
                            ck.count("prover arguments compared", 1);
                        }
                        e => ck.violation("prover-args", json!({"case": d(), "error": format!("{:?}", e.map(|r| r.map(|_| ())))})),
                    }
                }
                ck.eval(&text, true);
                ck.sample(json!({"layout": name, "entry": entry, "run": run.brief()}));
            }
        }
    }
    drop(dir);
    ck.assume("the virtual machine is the stand-in of shims/cairo-vm: the real one is not available offline");
    ck.finish();
}
