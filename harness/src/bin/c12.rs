//! C12: security accounting never passes options below the requested level.
use harness::report::Check;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField};
use lambdaworks_math::field::fields::u64_prime_field::{F17, U64PrimeField};
use lambdaworks_math::field::traits::IsPrimeField;
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::starks::proof::errors::InsecureOptionError;
use lambdaworks_stark::starks::proof::options::{ProofOptions, SecurityLevel};
use serde_json::json;

macro_rules! modulus {
    ($name:ident, $field:ident, $hex:expr) => {
        #[derive(Clone, Debug)]
        struct $name;
        impl IsModulus<U256> for $name {
            const MODULUS: U256 = U256::from_hex_unchecked($hex);
        }
        type $field = U256PrimeField<$name>;
    };
}
// Fields around the sizes where the verdict changes (only their bit size matters here).
modulus!(M241, F241, "0001000000000011000000000000000000000000000000000000000000000001");
modulus!(M249, F249, "0100000000000011000000000000000000000000000000000000000000000001");
modulus!(M168, F168, "0000000000000000000000800000000000000000000000000000000000000031");
modulus!(M169, F169, "0000000000000000000001000000000000000000000000000000000000000031");
modulus!(M140, F140, "0000000000000000000000000000080000000000000000000000000000000031");
modulus!(M121, F121, "0000000000000000000000000000000001000000000000000000000000000031");
type G64 = U64PrimeField<18446744069414584321>;
type F31 = U64PrimeField<2147483647>;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Verdict {
    Ok,
    Field,
    Bits,
}

fn real<F: IsPrimeField>(provable: bool, b: u8, q: usize, h: u64, g: u8, t: u8) -> (Verdict, Option<ProofOptions>) {
    let r = match provable {
        false => ProofOptions::new_with_checked_security::<F>(b, q, h, g, t),
        true => ProofOptions::new_with_checked_provable_security::<F>(b, q, h, g, t),
    };
    match r {
        Ok(o) => (Verdict::Ok, Some(o)),
        Err(InsecureOptionError::FieldSize) => (Verdict::Field, None),
        Err(InsecureOptionError::SecurityBits) => (Verdict::Bits, None),
        #[allow(unreachable_patterns)]
        Err(_) => unreachable!("another error"),
    }
}

/// log2 of the largest power of two dividing the blowup factor (nothing for zero).
fn log2(b: u8) -> u128 {
    match b {
        0 => 0,
        _ => (0..8).take_while(|k| b as u32 % (2 << k) == 0).count() as u128,
    }
}

/// The ethSTARK estimates, in exact arithmetic.
fn spec(bits: usize, provable: bool, b: u8, q: usize, g: u8, t: u8) -> Verdict {
    if (bits as u128) <= t as u128 + 40 {
        return Verdict::Field;
    }
    let term = log2(b) * q as u128;
    let est = match provable {
        // target below grinding + queries * log2(blowup) - 1
        false => (g as u128 + term).saturating_sub(1),
        true => g as u128 + term / 2,
    };
    if (t as u128) < est {
        Verdict::Ok
    } else {
        Verdict::Bits
    }
}

fn main() {
    let mut ck = Check::new(
        "C12",
        "one evaluation per call of a checked constructor compared with the exact estimate, and per preset; \
         distinct by field, kind, blowup, queries, grinding and target",
    );
    let mut rng = ck.rng.clone();
    let presets: [(&str, fn() -> SecurityLevel, u128, bool); 6] = [
        ("conjecturable 80", || SecurityLevel::Conjecturable80Bits, 80, false),
        ("conjecturable 100", || SecurityLevel::Conjecturable100Bits, 100, false),
        ("conjecturable 128", || SecurityLevel::Conjecturable128Bits, 128, false),
        ("provable 80", || SecurityLevel::Provable80Bits, 80, true),
        ("provable 100", || SecurityLevel::Provable100Bits, 100, true),
        ("provable 128", || SecurityLevel::Provable128Bits, 128, true),
    ];
    for (name, level, bits, provable) in presets {
        for h in [0u64, 1, 3, 7, u64::MAX, rng.u64(), rng.u64()] {
            let o = ProofOptions::new_secure(level(), h);
            let term = log2(o.blowup_factor) * o.fri_number_of_queries as u128;
            let est = o.grinding_factor as u128 + if provable { term / 2 } else { term.saturating_sub(1) };
            let d = json!({"preset": name, "options": format!("{o:?}"), "estimate": est.to_string()});
            ck.expect(est >= bits, "preset-below-its-level", || d.clone());
            ck.expect(o.coset_offset == h, "parameters-changed", || d.clone());
            ck.expect(o.blowup_factor.is_power_of_two(), "preset-blowup", || d.clone());
            ck.eval(d.to_string().as_bytes(), true);
            // and the constructors agree with their names
            let v = real::<Stark252PrimeField>(provable, o.blowup_factor, o.fri_number_of_queries, h, o.grinding_factor, bits as u8 - 1);
            ck.expect(v.0 == Verdict::Ok, "preset-refused", || d.clone());
            ck.sample(d);
        }
    }
    type Ctor = fn(bool, u8, usize, u64, u8, u8) -> (Verdict, Option<ProofOptions>);
    let fields: [(&str, usize, Ctor); 10] = [
        ("stark252", 252, real::<Stark252PrimeField>),
        ("241 bits", 241, real::<F241>),
        ("249 bits", 249, real::<F249>),
        ("168 bits", 168, real::<F168>),
        ("169 bits", 169, real::<F169>),
        ("140 bits", 140, real::<F140>),
        ("121 bits", 121, real::<F121>),
        ("goldilocks", 64, real::<G64>),
        ("31 bits", 31, real::<F31>),
        ("17", 5, real::<F17>),
    ];
    let n = ck.n(4000000, 12_000_000);
    for i in 0..n {
        if i % 1024 == 0 && ck.stop() {
            break;
        }
        let (fname, bits, ctor) = if i % 3 == 0 { *rng.pick(&fields) } else { fields[rng.below(3)] };
        let provable = rng.chance(1, 2);
        let mut b = match rng.below(4) {
            0 => rng.u64() as u8,
            _ => 1u8 << rng.below(8),
        };
        if rng.chance(1, 60) {
            b = 0;
        }
        let mut g = match rng.below(3) {
            0 => rng.u64() as u8,
            _ => rng.below(40) as u8,
        };
        let mut t = match rng.below(4) {
            0 => rng.u64() as u8,
            1 => *rng.pick(&[80u8, 100, 128, 0, 255, 212, 211, 213]),
            _ => rng.range(1, 212) as u8,
        };
        let l = log2(b) as usize;
        let mut q = match rng.below(8) {
            0 => *rng.pick(&[0usize, 1, usize::MAX, usize::MAX / 2, usize::MAX / 7, 1 << 62, usize::MAX - 255, 1 << 32]),
            1 => rng.u64() as usize,
            // around the boundary
            2..=6 if l > 0 => {
                let k = if provable { 2 } else { 1 };
                ((t as usize).saturating_sub(g as usize) * k / l + rng.below(4)).saturating_sub(1)
            }
            _ => rng.below(200),
        };
        if rng.chance(1, 200) {
            (g, t) = (255, 255);
        }
        if rng.chance(1, 200) {
            (q, g) = (0, rng.below(3) as u8);
            t = rng.below(3) as u8;
        }
        let h = rng.u64();
        let d = || json!({"field": fname, "provable": provable, "blowup": b, "queries": q.to_string(), "coset": h.to_string(), "grinding": g, "target": t});
        let Some((got, o)) = ck.run("constructor-panics", d, || ctor(provable, b, q, h, g, t)) else { continue };
        let want = spec(bits, provable, b, q, g, t);
        // A factor that is no power of two may be credited with up to the whole part of its logarithm.
        let generous = got == Verdict::Ok
            && b > 0
            && spec(bits, provable, 1 << b.ilog2(), q, g, t) == Verdict::Ok;
        if got != want && !(generous && !b.is_power_of_two()) {
            let key = match (got, want) {
                (Verdict::Ok, _) => "insecure-options-accepted",
                (_, Verdict::Ok) => "secure-options-refused",
                _ => "wrong-error",
            };
            ck.violation(key, json!({"case": d(), "got": format!("{got:?}"), "want": format!("{want:?}")}));
        }
        if let Some(o) = o {
            let same = (o.blowup_factor, o.fri_number_of_queries, o.coset_offset, o.grinding_factor) == (b, q, h, g);
            ck.expect(same, "parameters-changed", || json!({"case": d(), "got": format!("{o:?}")}));
        }
        ck.count(&format!("{} {want:?}", if provable { "provable" } else { "conjecturable" }), 1);
        ck.eval(format!("{fname}{provable}{b},{q},{g},{t}").as_bytes(), true);
        if i % 997 == 0 {
            ck.sample(d());
        }
    }
    ck.assume("a blowup factor that is not a power of two may count with any whole number of bits from the largest power of two dividing it up to its logarithm");
    ck.finish();
}
