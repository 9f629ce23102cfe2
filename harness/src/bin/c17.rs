//! C17: challenges are canonical, unbiased truncations of transcript output.
use harness::cairo::hex;
use harness::progair::*;
use harness::refstark::root_of_unity;
use harness::report::Check;
use harness::rng::Rng;
use harness::script::Scripted;
use lambdaworks_math::field::element::FieldElement;
use lambdaworks_math::field::fields::fft_friendly::stark_252_prime_field::Stark252PrimeField;
use lambdaworks_math::field::fields::u64_prime_field::{Goldilocks, F17};
use lambdaworks_math::field::fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField};
use lambdaworks_math::field::traits::IsPrimeField;
use lambdaworks_math::traits::ByteConversion;
use lambdaworks_math::unsigned_integer::element::U256;
use lambdaworks_stark::starks::transcript::{batch_sample_challenges, sample_z_ood, transcript_to_field, transcript_to_usize};
use lambdaworks_stark::FE;
use serde_json::json;

macro_rules! fields {
    ($($m:ident, $f:ident, $bits:expr, $hex:expr;)*) => {
        $(
            #[derive(Clone, Debug)]
            struct $m;
            impl IsModulus<U256> for $m {
                const MODULUS: U256 = U256::from_hex_unchecked($hex);
            }
            type $f = U256PrimeField<$m>;
        )*
        fn other_fields(ck: &mut Check, rng: &mut Rng) {
            $( one_field::<$f>(ck, rng, stringify!($f), $bits); )*
        }
    };
}
// Odd moduli of various bit lengths; challenges only need reduction and byte conversion.
fields! {
    M241, F241, 241, "0001000000000011000000000000000000000000000000000000000000000001";
    M249, F249, 249, "0100000000000011000000000000000000000000000000000000000000000001";
    M250, F250, 250, "0200000000000011000000000000000000000000000000000000000000000001";
    M248, F248, 248, "0080000000000011000000000000000000000000000000000000000000000001";
    M254, F254, 254, "2000000000000011000000000000000000000000000000000000000000000001";
    M233, F233, 233, "0000010000000011000000000000000000000000000000000000000000000001";
    M201, F201, 201, "0000000000000100000000000000000000000000000000000000000000000031";
    M193, F193, 193, "0000000000000001000000000000000000000000000000000000000000000031";
    M129, F129, 129, "0000000000000000000000000000000100000000000000000000000000000031";
    M066, F066, 66, "0000000000000000000000000000000000000000000000020000000000000031";
    M017, F017, 17, "0000000000000000000000000000000000000000000000000000000000010001";
}

fn output(rng: &mut Rng) -> [u8; 32] {
    match rng.below(8) {
        0 => [0; 32],
        1 => [255; 32],
        2 => {
            let mut b = [0u8; 32];
            b[rng.below(32)] = 1 << rng.below(8);
            b
        }
        3 => {
            let mut b = [255u8; 32];
            b[rng.below(32)] ^= 1 << rng.below(8);
            b
        }
        4 => {
            // 251 bits and more set
            let mut b = rng.bytes32();
            b[0] |= 0xf8;
            b
        }
        _ => rng.bytes32(),
    }
}

/// The low bits of a big-endian number.
fn masked(b: &[u8; 32], bits: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    for k in 0..bits {
        let (byte, bit) = (31 - k / 8, k % 8);
        out[byte] |= b[byte] & (1 << bit);
    }
    out
}

fn one_field<G: IsPrimeField>(ck: &mut Check, rng: &mut Rng, name: &str, bits: usize)
where
    FieldElement<G>: ByteConversion,
{
    let b = output(rng);
    let d = || json!({"field": name, "output": b.iter().map(|x| format!("{x:02x}")).collect::<String>()});
    let mut t = Scripted::new(vec![b], rng);
    let Some(v) = ck.run("challenge-panics", d, || transcript_to_field::<G, Scripted>(&mut t)) else { return };
    let got = v.to_bytes_be();
    let want = masked(&b, bits - 1);
    // an element may be encoded in fewer bytes than a transcript output has
    ck.expect(got[..] == want[32 - got.len()..], "challenge-differs", || json!({"case": d(), "got": v.to_bytes_be().iter().map(|x| format!("{x:02x}")).collect::<String>()}));
    ck.expect(t.drawn().len() == 1 && t.log.len() == 1, "draws", || json!({"case": d(), "events": t.log.len()}));
    ck.eval(format!("{name}{b:?}").as_bytes(), true);
    ck.count(&format!("challenges of {bits} bit fields"), 1);
}

fn main() {
    let mut ck = Check::new(
        "C17",
        "one evaluation per scripted transcript output turned into a field element, an index, an out-of-domain point or a \
         batch, compared with its definition; distinct by field and output",
    );
    let mut rng = ck.rng.clone();
    for _ in 0..ck.n(200000, 500_000) {
        if ck.stop() {
            break;
        }
        one_field::<Stark252PrimeField>(&mut ck, &mut rng, "stark252", 252);
        if rng.chance(1, 2) {
            other_fields(&mut ck, &mut rng);
            one_field::<F17>(&mut ck, &mut rng, "f17", 5);
            one_field::<Goldilocks>(&mut ck, &mut rng, "goldilocks", 64);
        }
        let b = output(&mut rng);
        let mut t = Scripted::new(vec![b], &mut rng);
        if let Some(v) = ck.run("index-panics", || json!(b), || transcript_to_usize(&mut t)) {
            let want = b[..8].iter().fold(0u64, |a, x| (a << 8) | *x as u64);
            ck.expect(v as u64 == want, "index-differs", || json!({"output": b, "got": v.to_string()}));
            ck.expect(t.drawn().len() == 1 && t.log.len() == 1, "draws", || json!(b));
            ck.count("indices", 1);
            ck.eval(format!("i{b:?}").as_bytes(), true);
        }
    }
    // Batches.
    for _ in 0..ck.n(5000, 10_000) {
        let k = if rng.chance(1, 50) { rng.range(20, 300) } else { rng.below(20) };
        let script: Vec<[u8; 32]> = (0..k + 3).map(|_| output(&mut rng)).collect();
        let want: Vec<FE> = script[..k].iter().map(|b| FE::from_bytes_be(&masked(b, 251)).unwrap()).collect();
        let mut t = Scripted::new(script.clone(), &mut rng);
        let Some(v) = ck.run("batch-panics", || json!(k), || batch_sample_challenges::<F, Scripted>(k, &mut t)) else { continue };
        ck.expect(v == want && t.drawn().len() == k && t.log.len() == k, "batch-differs", || json!({"size": k, "outputs": script}));
        ck.count("batches", 1);
        ck.eval(format!("b{script:?}").as_bytes(), k > 1);
    }
    // Out-of-domain points: outputs that lie on the domains first.
    for i in 0..ck.n(15000, 30_000) {
        if ck.stop() {
            break;
        }
        let n = 1usize << rng.range(0, 6);
        let o = gen_opts(&mut rng, n, 256, (1, 1), 0);
        let m = n * o.blowup as usize;
        let (g, w, h) = (root_of_unity(n.trailing_zeros()), root_of_unity(m.trailing_zeros()), FE::from(o.coset));
        let coset: Vec<FE> = (0..m).map(|k| &h * w.pow(k)).collect();
        let trace: Vec<FE> = (0..n).map(|k| g.pow(k)).collect();
        // domain points that 251 bits can express, with the bits above them set at will
        let on: Vec<[u8; 32]> = coset
            .iter()
            .chain(&trace)
            .map(|x| x.to_bytes_be().try_into().unwrap())
            .filter(|b: &[u8; 32]| b[0] < 8)
            .collect();
        let mut script: Vec<[u8; 32]> = vec![];
        for _ in 0..rng.below(6) {
            let mut b = match rng.below(5) {
                0 => *rng.pick(&on[..1.min(on.len()).max(1)]),
                1 => on[on.len() - 1],
                _ => *rng.pick(&on),
            };
            b[0] |= (rng.below(32) as u8) << 3;
            script.push(b);
        }
        let clean = match rng.below(4) {
            // next to a domain point
            0 => {
                let mut b = *rng.pick(&on);
                b[31] ^= 1;
                b
            }
            1 => [0; 32],
            _ => rng.bytes32(),
        };
        script.push(clean);
        script.push(rng.bytes32());
        let bad = |b: &[u8; 32]| {
            let v = FE::from_bytes_be(&masked(b, 251)).unwrap();
            coset.contains(&v) || trace.contains(&v)
        };
        let at = script.iter().position(|b| !bad(b)).unwrap();
        let want = FE::from_bytes_be(&masked(&script[at], 251)).unwrap();
        let d = json!({"rows": n, "options": o.json(), "outputs_on_domains": at, "draw": i});
        ck.begin(&d.to_string());
        let mut t = Scripted::new(script, &mut rng);
        let Some(z) = ck.run("point-panics", || d.clone(), || sample_z_ood::<F, Scripted>(&coset, &trace, &mut t)) else { continue };
        ck.expect(!coset.contains(&z) && !trace.contains(&z), "point-on-domain", || json!({"case": d, "point": hex(&z)}));
        ck.expect(z == want && t.drawn().len() == at + 1 && t.log.len() == at + 1, "not-the-first-point", || json!({"case": d, "got": hex(&z), "draws": t.drawn().len()}));
        ck.count("outputs on a domain", at as u64);
        ck.seen("rejections in a row", &at.to_be_bytes());
        ck.eval(d.to_string().as_bytes(), at > 0);
        ck.sample(d);
    }
    ck.finish();
}
