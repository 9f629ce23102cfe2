//! C09: decoding untrusted bytes returns a value or an error, never a crash.
use harness::cairoair::{subject, table_of};
use harness::progair::*;
use harness::proofs::*;
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{generate_cairo_proof, PublicInputs};
use lambdaworks_stark::cairo::cairo_mem::CairoMemory;
use lambdaworks_stark::cairo::register_states::RegisterStates;
use lambdaworks_stark::starks::frame::Frame;
use lambdaworks_stark::starks::fri::fri_decommit::FriDecommitment;
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::DeepPolynomialOpenings;
use lambdaworks_stark::starks::utils::{deserialize_proof, serialize_proof};
use serde_json::json;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

/// Monitor: memory in use and its peak.
struct Meter;
static USED: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let u = USED.fetch_add(l.size(), Relaxed) + l.size();
        PEAK.fetch_max(u, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        USED.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // old and new exist together
        let u = USED.fetch_add(n, Relaxed) + n;
        PEAK.fetch_max(u, Relaxed);
        CALLS.fetch_add(1, Relaxed);
        let r = System.realloc(p, l, n);
        USED.fetch_sub(l.size(), Relaxed);
        r
    }
}
#[global_allocator]
static METER: Meter = Meter;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Proof,
    Decommitment,
    Opening,
    Frame,
    Inputs,
    Path,
    Registers,
    Memory,
}
use Kind::*;
const KINDS: [Kind; 8] = [Proof, Decommitment, Opening, Frame, Inputs, Path, Registers, Memory];

/// Decodes; whether that gave a value.
fn decode(k: Kind, b: &[u8]) -> bool {
    match k {
        Proof => P::deserialize(b).is_ok(),
        Decommitment => FriDecommitment::<F>::deserialize(b).is_ok(),
        Opening => DeepPolynomialOpenings::<F>::deserialize(b).is_ok(),
        Kind::Frame => harness_frame(b),
        Inputs => PublicInputs::deserialize(b).is_ok(),
        Path => deserialize_proof(b).is_ok(),
        Registers => RegisterStates::from_bytes_le(b).is_ok(),
        Memory => CairoMemory::from_bytes_le(b).is_ok(),
    }
}
fn harness_frame(b: &[u8]) -> bool {
    Frame::<F>::deserialize(b).is_ok()
}

/// Encodings to start from.
fn valid(i: usize, rng: &mut Rng) -> Vec<(Kind, Vec<u8>)> {
    let mut out = vec![];
    let from = |p: &P, out: &mut Vec<(Kind, Vec<u8>)>| {
        out.push((Proof, p.serialize()));
        if let Some(q) = p.query_list.first() {
            out.push((Decommitment, q.serialize()));
        }
        if let Some(q) = p.deep_poly_openings.first() {
            out.push((Opening, q.serialize()));
            out.push((Path, serialize_proof(&q.lde_composition_poly_proof)));
        }
        out.push((Kind::Frame, p.trace_ood_frame_evaluations.serialize()));
    };
    match i % 4 {
        0 | 1 => {
            let lim = Limits { min_log_n: 0, max_log_n: 5, max_lde: 128, queries: (1, 4), max_grind: 1, max_cols: 4 };
            let c = gen_case(rng, &lim);
            from(&prove_trace(&c.spec, &c.main, &c.opts), &mut out);
        }
        2 => {
            if let Some((run, main, pi)) = subject(i, rng) {
                let o = ProofOptions { blowup_factor: 2, fri_number_of_queries: 2, coset_offset: 3, grinding_factor: 0 };
                if let Ok(Ok(p)) = guard(|| generate_cairo_proof(&table_of(&main), &pi, &o)) {
                    from(&p, &mut out);
                }
                out.push((Inputs, pi.serialize()));
                out.push((Inputs, inputs(&pi, rng).serialize()));
                let mut r = vec![];
                for (pc, ap, fp) in &run.regs {
                    for x in [ap, fp, pc] {
                        r.extend(x.to_le_bytes());
                    }
                }
                out.push((Registers, r));
                let mut m = vec![];
                for (a, v) in &run.mem {
                    m.extend(a.to_le_bytes());
                    let mut x = harness::cairoair::canon(v).to_vec();
                    x.reverse();
                    m.extend(x);
                }
                out.push((Memory, m));
            }
        }
        _ => from(&nonsense(rng), &mut out),
    }
    out
}

/// Positions that look like a length: eight bytes with a small big-endian value.
fn lengths(b: &[u8]) -> Vec<usize> {
    (0..b.len().saturating_sub(7)).filter(|p| b[*p..*p + 6] == [0; 6]).collect()
}

fn damage(b: &[u8], rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let mut v = b.to_vec();
    let how = match rng.below(10) {
        0 => {
            v.truncate(rng.below(b.len() + 1));
            "cut"
        }
        1..=4 => {
            let l = lengths(b);
            for _ in 0..rng.range(1, 2) {
                if let Some(p) = (!l.is_empty()).then(|| l[rng.below(l.len())]) {
                    let old = u64::from_be_bytes(v[p..p + 8].try_into().unwrap());
                    let new = match rng.below(14) {
                        0 => u64::MAX,
                        1 => 1 << 63,
                        2 => 1 << rng.below(64),
                        3 => b.len() as u64,
                        4 => b.len() as u64 + rng.below(64) as u64,
                        5 => (b.len() - p) as u64,
                        6 => (b.len() - p - 8) as u64,
                        7 => 0,
                        8 => old.wrapping_add(1),
                        9 => old.wrapping_sub(1),
                        10 => u64::MAX - rng.below(64) as u64,
                        11 => u64::MAX / 32 + rng.below(3) as u64,
                        12 => rng.below(40) as u64,
                        _ => rng.u64() >> rng.below(64),
                    };
                    v[p..p + 8].copy_from_slice(&new.to_be_bytes());
                }
            }
            "lengths"
        }
        5 => {
            for _ in 0..rng.range(1, 8) {
                if !v.is_empty() {
                    let p = rng.below(v.len());
                    v[p] ^= 1 << rng.below(8);
                }
            }
            "bits"
        }
        6 => {
            let (a, z) = (rng.below(v.len() + 1), rng.below(v.len() + 1));
            v.drain(a.min(z)..a.max(z));
            "hole"
        }
        7 => {
            let (a, z) = (rng.below(v.len() + 1), rng.below(v.len() + 1));
            let part = v[a.min(z)..a.max(z)].to_vec();
            let at = rng.below(v.len() + 1);
            v.splice(at..at, part);
            "repeated part"
        }
        8 => {
            v.extend((0..rng.below(70)).map(|_| rng.u64() as u8).collect::<Vec<_>>());
            "tail"
        }
        _ => {
            let n = rng.below(400);
            let sparse = rng.chance(1, 2);
            v = (0..n).map(|_| if sparse && !rng.chance(1, 24) { 0 } else { rng.u64() as u8 }).collect();
            "made up"
        }
    };
    (how, v)
}

fn judge(ck: &mut Check, k: Kind, b: &[u8], how: &str) -> Option<bool> {
    let short: String = b.iter().take(1200).map(|x| format!("{x:02x}")).collect();
    let d = json!({"decoded as": format!("{k:?}"), "damage": how, "length": b.len(), "bytes": short});
    ck.begin(&d.to_string());
    let base = USED.load(Relaxed);
    PEAK.store(base, Relaxed);
    let calls = CALLS.load(Relaxed);
    let t = std::time::Instant::now();
    let r = guard(|| decode(k, b));
    let (dt, peak, calls) = (t.elapsed(), PEAK.load(Relaxed).saturating_sub(base), CALLS.load(Relaxed) - calls);
    ck.count(&format!("{k:?} decoded"), 1);
    ck.eval(&[format!("{k:?}").as_bytes(), b].concat(), !b.is_empty());
    match &r {
        Err(p) => {
            ck.violation("decoding-panic", json!({"case": d, "panic": p}));
            return None;
        }
        Ok(v) => ck.count(if *v { "values" } else { "errors" }, 1),
    }
    // a pair of words decodes to a list header at worst
    ck.expect(peak <= 64 * b.len() + (1 << 16), "memory", || json!({"case": d, "peak bytes": peak}));
    ck.expect(calls <= 4 * b.len() + 1000, "work", || json!({"case": d, "allocations": calls}));
    ck.expect(dt.as_secs() < 10, "time", || json!({"case": d, "seconds": dt.as_secs()}));
    r.ok()
}

fn main() {
    let mut ck = Check::new(
        "C09",
        "one evaluation per byte string decoded: every strict prefix of valid encodings (must be an error), and encodings with \
         damaged lengths, bits, holes, tails, or made up; panics, overflows, crashes, memory over 64 bytes per input byte are \
         violations; distinct by type and bytes",
    );
    let mut rng = ck.rng.clone();
    let n = ck.n(64, 3000);
    for i in 0..n {
        if ck.stop() {
            break;
        }
        ck.begin("proving");
        let Ok(all) = guard(|| valid(i, &mut rng)) else { continue };
        for (k, b) in all {
            if ck.stop() {
                break;
            }
            if judge(&mut ck, k, &b, "none") == Some(false) {
                ck.violation("valid-encoding-refused", json!({"kind": format!("{k:?}"), "length": b.len()}));
            }
            let row = match k {
                Registers => 24,
                Memory => 40,
                _ => 0,
            };
            // every prefix of short encodings; of long ones those at field boundaries and a sample
            let step = if b.len() < 1500 { 1 } else { (b.len() / ck.n(150, 600)).max(1) };
            let off = rng.below(step);
            for l in (off..b.len()).step_by(step).chain([b.len() - 1, b.len().saturating_sub(8), b.len().saturating_sub(9)]) {
                if l >= b.len() {
                    continue;
                }
                if let Some(v) = judge(&mut ck, k, &b[..l], "prefix") {
                    let want = row != 0 && l % row == 0;
                    ck.expect(v == want, "prefix-accepted", || json!({"kind": format!("{k:?}"), "length": b.len(), "prefix": l, "bytes": b.iter().take(2000).map(|x| format!("{x:02x}")).collect::<String>()}));
                    ck.count("prefixes", 1);
                }
            }
            for _ in 0..ck.n(120, 400) {
                let (how, v) = damage(&b, &mut rng);
                judge(&mut ck, k, &v, how);
                ck.count(&format!("damage: {how}"), 1);
                if row != 0 {
                    let ok = guard(|| decode(k, &v));
                    ck.expect(ok == Ok(v.len() % row == 0), "dump-size", || json!({"kind": format!("{k:?}"), "length": v.len()}));
                }
                // other decoders get it too
                let other = KINDS[rng.below(KINDS.len())];
                judge(&mut ck, other, &v, how);
                ck.sample(json!({"kind": format!("{k:?}"), "damage": how, "length": v.len()}));
            }
        }
    }
    ck.finish();
}
