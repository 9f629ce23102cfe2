//! C29: the command-line tool, as a black box: the real binary is run in scratch folders on
//! generated, damaged and foreign files, and its output, exit status and files are judged.
use harness::cairo::*;
use harness::proofs::{alter, copy, difference, inputs, nonsense, COMPONENTS};
use harness::report::{guard, Check};
use harness::rng::Rng;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::traits::{Deserializable, Serializable};
use lambdaworks_stark::cairo::air::{verify_cairo_proof, MemorySegment, PublicInputs};
use lambdaworks_stark::cairo::runner::run::{generate_prover_args, CairoVersion};
use lambdaworks_stark::starks::proof::options::ProofOptions;
use lambdaworks_stark::starks::proof::stark::StarkProof;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

type P = StarkProof<Stark252PrimeField>;

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// What the run is expected to come to.
#[derive(Clone)]
enum Want {
    /// a proof in the file of that name
    Proof(String),
    /// a verdict
    Verdict(bool),
    /// anything but a success report
    NotAccepted,
    /// neither a verdict nor a new file
    Message,
    /// a proof that the tool accepts, or a message
    ProofOrMessage(String),
    /// an accepting verdict, or a message
    AcceptedOrMessage,
}

/// One run of the tool, in a folder of its own.
struct Task {
    what: String,
    args: Vec<OsString>,
    /// what is in the folder beforehand
    files: Vec<(String, Vec<u8>)>,
    folders: Vec<String>,
    want: Want,
}

struct Seen {
    out: String,
    err: String,
    code: Option<i32>,
    signal: Option<i32>,
    late: bool,
    /// files afterwards
    files: BTreeMap<String, Vec<u8>>,
    took: Duration,
}

fn files_in(d: &Path, at: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
        let name = format!("{at}{}", e.file_name().to_string_lossy());
        match e.file_type() {
            Ok(t) if t.is_dir() => files_in(&e.path(), &format!("{name}/"), out),
            _ => {
                out.insert(name, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
}

fn run(bin: &str, dir: &Path, t: &Task) -> Seen {
    let _ = std::fs::create_dir_all(dir);
    for f in &t.folders {
        std::fs::create_dir_all(dir.join(f)).unwrap();
    }
    for (n, b) in &t.files {
        std::fs::write(dir.join(n), b).unwrap();
    }
    let start = Instant::now();
    let mut c = Command::new(bin);
    c.args(&t.args)
        .current_dir(dir)
        .env_remove("VERIF_CHILD")
        .env("RUST_BACKTRACE", "0")
        // damaged programs that run on and on are given up by the virtual machine
        .env("VERIF_VM_STEPS", "4000")
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(dir.with_extension("out")).unwrap())
        .stderr(std::fs::File::create(dir.with_extension("err")).unwrap());
    unsafe {
        c.pre_exec(|| {
            setrlimit(9, &[3 << 30, 3 << 30]);
            setrlimit(4, &[0, 0]);
            prctl(1, 9, 0, 0, 0);
            Ok(())
        });
    }
    let mut seen = Seen { out: String::new(), err: String::new(), code: None, signal: None, late: false, files: BTreeMap::new(), took: Duration::ZERO };
    let mut ch = c.spawn().expect("the tool starts");
    loop {
        if let Ok(Some(st)) = ch.try_wait() {
            seen.code = st.code();
            seen.signal = st.signal();
            break;
        }
        if start.elapsed() > Duration::from_secs(120) {
            seen.late = true;
            let _ = ch.kill();
            let _ = ch.wait();
            break;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    seen.took = start.elapsed();
    let text = |e: &str| String::from_utf8_lossy(&std::fs::read(dir.with_extension(e)).unwrap_or_default()).to_string();
    seen.out = text("out");
    seen.err = text("err");
    files_in(dir, "", &mut seen.files);
    let _ = std::fs::remove_dir_all(dir);
    seen
}

fn run_all(bin: &str, dir: &Path, tasks: &[Task]) -> Vec<Seen> {
    let next = AtomicUsize::new(0);
    let got: std::sync::Mutex<BTreeMap<usize, Seen>> = Default::default();
    std::thread::scope(|s| {
        for w in 0..7 {
            let (next, got) = (&next, &got);
            s.spawn(move || loop {
                let k = next.fetch_add(1, SeqCst);
                let Some(t) = tasks.get(k) else { break };
                let r = run(bin, &dir.join(format!("w{w}")), t);
                got.lock().unwrap().insert(k, r);
            });
        }
    });
    got.into_inner().unwrap().into_values().collect()
}

impl Seen {
    fn accepted(&self) -> bool {
        self.out.to_lowercase().contains("verification succe")
    }
    fn rejected(&self) -> bool {
        self.out.to_lowercase().contains("verification failed")
    }
    fn brief(&self) -> Value {
        let cut = |s: &str| s.chars().rev().take(400).collect::<String>().chars().rev().collect::<String>();
        json!({"stdout": cut(&self.out), "stderr": cut(&self.err), "code": self.code, "signal": self.signal, "files": self.files.iter().map(|(n, b)| format!("{n}: {} bytes", b.len())).collect::<Vec<_>>()})
    }
}

fn options() -> ProofOptions {
    ProofOptions::default_test_options()
}

/// Splits a proof file.
fn decode(b: &[u8]) -> Option<(P, PublicInputs)> {
    let n = u64::from_be_bytes(b.get(..8)?.try_into().unwrap());
    let n = usize::try_from(n).ok()?;
    let p = P::deserialize(b[8..].get(..n)?).ok()?;
    let pi = PublicInputs::deserialize(&b[8 + n..]).ok()?;
    Some((p, pi))
}
fn encode(p: &[u8], pi: &[u8]) -> Vec<u8> {
    let mut b = (p.len() as u64).to_be_bytes().to_vec();
    b.extend(p);
    b.extend(pi);
    b
}
/// Everything of a public input that a proof is bound to.
fn bound_part(p: &PublicInputs) -> String {
    let mut m: Vec<_> = p.public_memory.iter().map(|(a, v)| (a.to_bytes_be(), v.to_bytes_be())).collect();
    m.sort();
    format!(
        "{:?}{:?}{m:?}{}{}",
        [&p.pc_init, &p.ap_init, &p.fp_init, &p.pc_final, &p.ap_final].map(|x| x.to_bytes_be()),
        (p.range_check_min, p.range_check_max),
        p.num_steps,
        p.memory_segments.contains_key(&MemorySegment::RangeCheck)
    )
}
fn all_parts(p: &PublicInputs) -> String {
    let mut s: Vec<_> = p.memory_segments.iter().map(|(k, r)| format!("{k:?}{r:?}")).collect();
    s.sort();
    format!("{}{s:?}", bound_part(p))
}

/// Judges one run by what holds for all of them, then by what was expected.
fn judge(ck: &mut Check, t: &Task, s: &Seen) {
    let d = || json!({"what": t.what, "arguments": t.args.iter().map(|a| a.to_string_lossy().to_string()).collect::<Vec<_>>(), "files": t.files.iter().map(|(n, b)| json!({"name": n, "bytes": b.len(), "content": b.iter().take(6000).map(|x| format!("{x:02x}")).collect::<String>()})).collect::<Vec<_>>(), "seen": s.brief()});
    ck.count("runs of the tool", 1);
    ck.seen("kinds of runs", t.what.as_bytes());
    ck.eval(format!("{}{:?}{:?}", t.what, t.args, t.files).as_bytes(), true);
    ck.expect(!s.late, "no-answer", d);
    ck.expect(s.signal.is_none() && s.code != Some(101) && !s.err.contains("panicked at"), "panic", d);
    ck.expect(!s.out.trim().is_empty() || !s.err.trim().is_empty(), "silent", d);
    ck.expect(!(s.accepted() && s.rejected()), "two-verdicts", d);
    // what was there stays as it was, unless a proof is written over it
    let out = match &t.want {
        Want::Proof(o) | Want::ProofOrMessage(o) => Some(o.clone()),
        _ => None,
    };
    let wrote = s.out.to_lowercase().contains("proof written");
    for (n, b) in &t.files {
        let kept = s.files.get(n) == Some(b);
        let over = wrote && Some(n) == out.as_ref();
        ck.expect(kept || over, "file-changed", d);
    }
    for n in s.files.keys() {
        let known = t.files.iter().any(|(m, _)| m == n);
        ck.expect(known || (wrote && Some(n) == out.as_ref()), "file-left-behind", d);
    }
    let proof = |ck: &mut Check, n: &str| {
        let good = s.files.get(n).and_then(|b| guard(|| decode(b)).ok().flatten().map(|x| (x, b.len())));
        let whole = good.as_ref().map_or(false, |((p, pi), len)| 8 + p.serialize().len() + pi.serialize().len() == *len);
        let ok = whole && good.map_or(false, |((p, pi), _)| guard(|| verify_cairo_proof(&p, &pi, &options())) == Ok(true));
        ck.expect(ok, "bad-proof-file", d);
        ck.count("proof files written", 1);
    };
    match &t.want {
        Want::Proof(n) => {
            ck.expect(wrote && !s.rejected(), "not-proved", d);
            proof(ck, n);
        }
        Want::Verdict(v) => {
            ck.expect((s.accepted(), s.rejected()) == (*v, !*v), if *v { "true-proof-refused" } else { "false-proof-accepted" }, d);
            ck.count(if *v { "accepted" } else { "refused" }, 1);
        }
        Want::NotAccepted => {
            ck.expect(!s.accepted(), "false-proof-accepted", d);
            ck.count(if s.rejected() { "refused" } else { "not readable" }, 1);
        }
        Want::Message => {
            ck.expect(!s.accepted() && !s.rejected() && !wrote, "no-message", d);
            ck.count("messages", 1);
        }
        Want::ProofOrMessage(n) => {
            ck.expect(!s.accepted() && !s.rejected(), "verdict-of-a-proof", d);
            if wrote {
                proof(ck, n);
            } else {
                ck.count("messages", 1);
            }
        }
        Want::AcceptedOrMessage => {
            ck.expect(!s.rejected(), "own-proof-refused", d);
            ck.count(if s.accepted() { "accepted" } else { "messages" }, 1);
        }
    }
}

fn args(a: &[&str]) -> Vec<OsString> {
    a.iter().map(OsString::from).collect()
}

/// A program that runs to its end: name of its file and text.
fn program(k: usize, rng: &mut Rng) -> (String, Vec<u8>) {
    if k % 4 == 1 {
        let v = if k == 1 { serde_json::from_str(include_str!("../../data/fibonacci_cairo1.casm")).unwrap() } else { cairo1(rng) };
        return ("program.casm".into(), v.to_string().into_bytes());
    }
    let mut g = structured(rng, 60);
    g.vm = true;
    g.abrupt = false;
    let r = generate(&g, rng);
    let name = ["program.json", "p", "a b.json", "-p.json", "prögram.json"][rng.below(5)];
    (name.into(), r.program_json().to_string().into_bytes())
}

/// A damaged program and how.
fn damage(text: &[u8], rng: &mut Rng) -> (&'static str, Vec<u8>) {
    let v: Value = serde_json::from_slice(text).unwrap();
    let code = if v.get("bytecode").is_some() { "bytecode" } else { "data" };
    let word = |rng: &mut Rng| {
        let f = [0x480680017fff8000u64, 0x208b7fff7fff7ffe, 0x10780017fff7fff, 0x400380007ffc7ffd, 0x482480017ffc8000][rng.below(5)];
        match rng.below(6) {
            0 => json!(format!("{:#x}", f)),
            1 => json!(format!("{:#x}", f ^ 1 << rng.below(64))),
            2 => json!(format!("{:#x}", rng.below(70000))),
            3 => json!(hex(&rng.fe())),
            4 => json!(["", "0x", "zz", "-0x1", "0x10000000000000000000000000000000000000000000000000000000000000000000000000"][rng.below(5)]),
            _ => json!(format!("{:#x}", rng.u64() >> 1)),
        }
    };
    let mut q = v.clone();
    match rng.below(10) {
        0 => ("cut program", text[..rng.below(text.len())].to_vec()),
        1 => {
            let mut b = text.to_vec();
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(b.len());
                b[i] ^= 1 << rng.below(8);
            }
            ("program with flipped bits", b)
        }
        2 => {
            let i = rng.below(text.len());
            let j = i + rng.below(text.len() - i);
            let mut b = text[..i].to_vec();
            b.extend(&text[j..]);
            ("program with a hole", b)
        }
        3 | 4 | 5 => {
            let n = q[code].as_array().unwrap().len();
            for _ in 0..rng.range(1, 2) {
                let i = rng.below(n);
                q[code][i] = word(rng);
            }
            ("program with another word", q.to_string().into_bytes())
        }
        6 => {
            let l = q[code].as_array_mut().unwrap();
            let i = rng.below(l.len());
            match rng.below(3) {
                0 => {
                    l.remove(i);
                }
                1 => l.truncate(i),
                _ => {
                    let w = l[i].clone();
                    l.insert(rng.below(i + 1), w)
                }
            }
            ("program with words moved", q.to_string().into_bytes())
        }
        7 => {
            let keys: Vec<String> = q.as_object().unwrap().keys().cloned().collect();
            let k = rng.pick(&keys).clone();
            if rng.chance(1, 2) {
                q.as_object_mut().unwrap().remove(&k);
            } else {
                q[k] = [json!(null), json!([]), json!({}), json!("x"), json!(-1), json!(1e300), json!([[]]), json!(["output"]), json!(["range_check", "output"])][rng.below(9)].clone();
            }
            ("program with another part", q.to_string().into_bytes())
        }
        8 => {
            if code == "data" {
                let n = v["data"].as_array().unwrap().len();
                q["identifiers"]["__main__.main"]["pc"] = json!([rng.below(n), n, n + 1, usize::MAX >> rng.below(40)][rng.below(4)]);
                if rng.chance(1, 2) {
                    q["builtins"] = json!([["output"], ["range_check"]][rng.below(2)]);
                }
            } else {
                q["hints"] = json!([]);
            }
            ("program entered elsewhere", q.to_string().into_bytes())
        }
        _ => {
            let n = 1 << rng.below(12);
            let b = match rng.below(4) {
                0 => rng.bytes(n),
                1 => vec![0; n],
                2 => "[".repeat(n).into_bytes(),
                _ => "{\"data\":".repeat(n).into_bytes(),
            };
            ("no program", b)
        }
    }
}

/// A changed proof file, and how it was changed.
fn corrupt(file: &[u8], other: &[u8], rng: &mut Rng) -> (String, Vec<u8>) {
    let (p, pi) = decode(file).unwrap();
    let n = u64::from_be_bytes(file[..8].try_into().unwrap()) as usize;
    let (pb, ib) = (&file[8..8 + n], &file[8 + n..]);
    match rng.below(13) {
        0 | 1 => {
            let mut b = file.to_vec();
            for _ in 0..rng.range(1, 3) {
                let i = if rng.chance(1, 3) { 8 + n + rng.below(ib.len()) } else { rng.below(b.len()) };
                b[i] ^= 1 << rng.below(8);
            }
            ("flipped bits".into(), b)
        }
        2 => {
            let at = match rng.below(4) {
                0 => rng.below(9),
                1 => 8 + n + rng.below(ib.len()),
                2 => file.len() - 1 - rng.below(8),
                _ => rng.below(file.len()),
            };
            ("cut".into(), file[..at].to_vec())
        }
        3 => {
            let l = match rng.below(12) {
                8 => n as u64 ^ 1 << rng.range(20, 63),
                9 => n as u64 | 1 << rng.range(31, 40),
                10 => n as u64 | 1 << rng.range(48, 63),
                11 => n as u64 | rng.u64() << 32,
                0 => u64::MAX,
                1 => u64::MAX - rng.below(16) as u64,
                2 => 0,
                3 => n as u64 + 1,
                4 => n as u64 - 1,
                5 => (file.len() - 8 + rng.below(3)) as u64,
                6 => 1 << rng.below(64),
                _ => rng.below(file.len()) as u64,
            };
            let mut b = file.to_vec();
            b[..8].copy_from_slice(&l.to_be_bytes());
            ("another length".into(), b)
        }
        4 => {
            let (mut q, k) = (copy(&p), rng.below(COMPONENTS));
            let w = alter(&mut q, k, rng);
            (format!("proof changed: {w}"), encode(&q.serialize(), ib))
        }
        5 => {
            // any number of the input's own bytes, as the encoding of a number would be changed
            let mut b = ib.to_vec();
            let i = match rng.below(3) {
                0 => rng.below(8 + 32 * 5),
                1 => b.len() - 1 - rng.below(8),
                _ => rng.below(b.len()),
            };
            b[i] = [0, 1, 255, b[i].wrapping_add(1), rng.u64() as u8][rng.below(5)];
            ("byte of the public input".into(), encode(pb, &b))
        }
        6 => {
            let q = inputs(&pi, rng);
            ("odd public input".into(), encode(pb, &q.serialize()))
        }
        7 => {
            let mut q = pi.clone();
            let w = match rng.below(8) {
                0 => {
                    q.pc_init += lambdaworks_stark::FE::one();
                    "first pc"
                }
                1 => {
                    q.ap_init += lambdaworks_stark::FE::one();
                    "first ap"
                }
                2 => {
                    q.fp_init = rng.fe();
                    "first fp"
                }
                3 => {
                    q.pc_final = rng.fe();
                    "last pc"
                }
                4 => {
                    q.ap_final += lambdaworks_stark::FE::one();
                    "last ap"
                }
                5 => {
                    q.num_steps = [q.num_steps + 1, q.num_steps - 1, q.num_steps * 2, 0][rng.below(4)];
                    "steps"
                }
                6 => {
                    let mut k: Vec<_> = q.public_memory.keys().cloned().collect();
                    k.sort_by_key(|a| a.to_bytes_be());
                    let a = rng.pick(&k).clone();
                    let v = rng.fe();
                    q.public_memory.insert(a, v);
                    "program"
                }
                _ => {
                    q.range_check_max = [None, Some(65535), Some(0)][rng.below(3)];
                    "bound"
                }
            };
            (format!("public input changed: {w}"), encode(pb, &q.serialize()))
        }
        8 => {
            let m = u64::from_be_bytes(other[..8].try_into().unwrap()) as usize;
            match rng.below(2) {
                0 => ("another input's".into(), encode(pb, &other[8 + m..])),
                _ => ("another proof".into(), encode(&other[8..8 + m], ib)),
            }
        }
        9 => {
            let q = nonsense(rng);
            ("nonsense proof".into(), encode(&q.serialize(), ib))
        }
        10 => {
            // bytes added, where they do or do not belong
            let l = rng.range(1, 64);
            let extra = rng.bytes(l);
            match rng.below(3) {
                0 => ("bytes after the end".into(), [file, &extra[..]].concat()),
                1 => ("bytes after the proof".into(), encode(&[pb, &extra[..]].concat(), ib)),
                _ => {
                    let at = rng.below(file.len());
                    ("bytes in between".into(), [&file[..at], &extra[..], &file[at..]].concat())
                }
            }
        }
        11 => {
            let i = rng.below(file.len());
            let l = rng.range(1, 200).min(file.len() - i);
            let mut b = file.to_vec();
            match rng.below(3) {
                0 => b[i..i + l].fill(0),
                1 => b[i..i + l].fill(255),
                _ => {
                    b.drain(i..i + l);
                }
            }
            ("piece wiped out".into(), b)
        }
        _ => {
            let l = [0, 1, 7, 8, 9, 100, 5000][rng.below(7)];
            let b = match rng.below(4) {
                0 => rng.bytes(l),
                1 => vec![0; l],
                2 => vec![255; l],
                _ => "Lorem ipsum dolor sit amet\n".repeat(l / 20 + 1).into_bytes(),
            };
            ("foreign file".into(), b)
        }
    }
}

fn main() {
    let mut ck = Check::new(
        "C29",
        "one evaluation per run of the real command-line binary in a scratch folder, judged by its standard output, exit status and \
         the files afterwards; distinct by arguments and files",
    );
    let Ok(bin) = std::env::var("VERIF_CLI_BIN") else {
        println!("VERIF_CLI_BIN is not set");
        std::process::exit(2)
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
    let dir = Scratch(PathBuf::from(format!("{root}/work/c29-{}", std::process::id())));
    std::fs::create_dir_all(&dir.0).unwrap();
    let rounds = ck.n(3, 40);
    for round in 0..rounds {
        if ck.stop() {
            break;
        }
        let mut rng = ck.rng.clone();
        ck.rng.u64();
        // programs that run: prove, then verify the file, and both in one step
        ck.begin(&format!("round {round}: programs"));
        let progs: Vec<(String, Vec<u8>)> = (0..28).map(|k| program(k, &mut rng)).collect();
        let mut tasks = vec![];
        for (name, text) in &progs {
            let mut files = vec![(name.clone(), text.clone())];
            let mut folders = vec![];
            let out = match rng.below(5) {
                0 => {
                    // over an old file
                    files.push(("proof".into(), rng.bytes(100_000)));
                    "proof"
                }
                1 => {
                    folders.push("sub".to_string());
                    "sub/proof.bin"
                }
                _ => "out proof",
            };
            let path = format!("{}{name}", ["", "./"][rng.below(2)]);
            let mut a = args(&["prove", &path, out]);
            if rng.chance(1, 6) {
                a.push("further".into());
            }
            tasks.push(Task { what: "prove".into(), args: a, files, folders, want: Want::Proof(out.into()) });
            tasks.push(Task { what: "prove_and_verify".into(), args: args(&["prove_and_verify", &path]), files: vec![(name.clone(), text.clone())], folders: vec![], want: Want::Verdict(true) });
        }
        let mut proofs: Vec<Vec<u8>> = vec![];
        for (k, s) in run_all(&bin, &dir.0, &tasks).iter().enumerate() {
            ck.begin(&format!("round {round}: {}", tasks[k].what));
            judge(&mut ck, &tasks[k], s);
            if let Want::Proof(n) = &tasks[k].want {
                let Some(b) = s.files.get(n) else { continue };
                let Some(Some((p, pi))) = guard(|| decode(b)).ok() else { continue };
                // it is a proof of this program
                let (name, text) = &tasks[k].files[0];
                let v = if name.contains(".casm") { CairoVersion::V1 } else { CairoVersion::V0 };
                let own = guard(|| generate_prover_args(text, &v, &None).ok()).ok().flatten();
                let fits = own.map_or(false, |(_, q)| {
                    let mut q = q;
                    // the bounds are found while the trace is extended
                    if q.range_check_min.is_none() {
                        (q.range_check_min, q.range_check_max) = (pi.range_check_min, pi.range_check_max);
                    }
                    all_parts(&q) == all_parts(&pi)
                });
                ck.expect(fits, "proof-of-something-else", || json!({"program": String::from_utf8_lossy(text), "input": format!("{pi:?}")}));
                let _ = p;
                proofs.push(b.clone());
            }
        }
        if proofs.len() < 2 {
            ck.expect(false, "no-proofs", || json!({"round": round, "proofs": proofs.len()}));
            continue;
        }
        let verify = |b: &[u8], what: String, want: Want, rng: &mut Rng| {
            let name = ["proof", "a proof", "program.casm", "./proof.json"][rng.below(4)];
            let file = name.trim_start_matches("./").to_string();
            Task { what, args: args(&["verify", name]), files: vec![(file, b.to_vec())], folders: vec![], want }
        };
        let mut tasks: Vec<Task> = proofs.iter().map(|b| verify(b, "verify".into(), Want::Verdict(true), &mut rng)).collect();
        let n = if ck.thorough() { 1500 } else { 700 };
        for _ in 0..n {
            let (i, j) = (rng.below(proofs.len()), rng.below(proofs.len()));
            let (what, b) = corrupt(&proofs[i], &proofs[j], &mut rng);
            let (p, pi) = decode(&proofs[i]).unwrap();
            // the true outcome: the verifier's verdict on what the file says, which must not be
            // success when that is anything else than what was proved
            let want = match guard(|| decode(&b)) {
                Ok(Some((q, qi))) => {
                    let (r, ri) = decode(&proofs[j]).unwrap();
                    let own = difference(&p, &q).is_none() && bound_part(&pi) == bound_part(&qi);
                    let others = difference(&r, &q).is_none() && bound_part(&ri) == bound_part(&qi);
                    if own || others {
                        match guard(|| verify_cairo_proof(&q, &qi, &options())) {
                            Ok(v) => Want::Verdict(v),
                            Err(_) => Want::NotAccepted,
                        }
                    } else {
                        Want::Verdict(false)
                    }
                }
                _ => Want::Message,
            };
            tasks.push(verify(&b, format!("verify: {what}"), want, &mut rng));
        }
        // a program is not a proof, nor the other way round
        for (name, text) in progs.iter().take(3) {
            tasks.push(verify(text, format!("verify: program {name}"), Want::Message, &mut rng));
        }
        for b in proofs.iter().take(3) {
            for n in ["x", "x.casm"] {
                tasks.push(Task { what: "prove: proof file".into(), args: args(&["prove", n, "out"]), files: vec![(n.into(), b.clone())], folders: vec![], want: Want::Message });
            }
        }
        // damaged programs
        for _ in 0..n / 2 {
            let (name, text) = rng.pick(&progs).clone();
            let (what, b) = damage(&text, &mut rng);
            let mut files = vec![(name.clone(), b)];
            if rng.chance(1, 3) {
                files.push(("out".into(), rng.bytes(50)));
            }
            let both = rng.chance(1, 4);
            let (a, want) = if both {
                (args(&["prove_and_verify", &name]), Want::AcceptedOrMessage)
            } else {
                (args(&["prove", &name, "out"]), Want::ProofOrMessage("out".into()))
            };
            tasks.push(Task { what: format!("prove: {what}"), args: a, files, folders: vec![], want });
        }
        // arguments
        let (name, text) = progs[0].clone();
        let mut odd = |what: &str, a: Vec<OsString>| {
            tasks.push(Task { what: format!("arguments: {what}"), args: a, files: vec![(name.clone(), text.clone()), ("proof".into(), proofs[0].clone())], folders: vec!["folder".into()], want: Want::Message })
        };
        odd("none", vec![]);
        for c in ["prove", "verify", "prove_and_verify"] {
            odd("too few", args(&[c]));
            odd("missing file", args(&[c, "absent", "out"]));
            odd("missing file", args(&[c, "absent/absent", "out"]));
            odd("folder", args(&[c, "folder", "out"]));
            odd("no name", args(&[c, "", "out"]));
            odd("long name", args(&[c, &"x".repeat(5000), "out"]));
            odd("null device", args(&[c, "/dev/null", "out"]));
            odd("bytes that are no text", vec![c.into(), OsString::from_vec(vec![b'a', 255, 254]), "out".into()]);
            odd("bytes that are no text", vec![OsString::from_vec([c.as_bytes(), &[0xc3]].concat()), name.clone().into(), "out".into()]);
            odd("unknown", args(&[&format!("{c} "), &name, "out"]));
            odd("unknown", args(&[&c.to_uppercase(), &name, "out"]));
            odd("unknown", args(&[&format!("--{c}"), &name, "out"]));
            odd("order", args(&[&name, c, "out"]));
        }
        odd("too few", args(&["prove", &name]));
        for c in ["", "help", "--help", "prove-and-verify", "proveverify", "verify\n", "--", "-"] {
            odd("unknown", args(&[c, &name, "out"]));
            odd("unknown", args(&[c]));
        }
        // places a proof cannot be written to
        for o in ["", "folder", "absent/out", "folder/", &format!("{name}/out"), "/dev/full", &"y".repeat(300), ".", ".."] {
            odd("output", args(&["prove", &name, o]));
        }
        odd("output", vec!["prove".into(), name.clone().into(), OsString::from_vec(vec![b'a', 255])]);
        for (k, s) in run_all(&bin, &dir.0, &tasks).iter().enumerate() {
            ck.begin(&format!("round {round}: {} {:?}", tasks[k].what, tasks[k].args));
            judge(&mut ck, &tasks[k], s);
            if s.took > Duration::from_secs(5) {
                ck.count("runs of more than 5 s", 1);
            }
            ck.sample(json!({"what": tasks[k].what, "code": s.code, "last line": s.out.trim().lines().last()}));
        }
    }
    let _ = OsString::new().as_bytes();
    ck.assume("Cairo programs are run by the stand-in virtual machine");
    ck.finish();
}
