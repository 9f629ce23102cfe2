//! C11: grinding nonces are minimal, checked and measured the same on both sides.
use harness::progair::*;
use harness::refstark::{self, work, Cheat, Own, HONEST};
use harness::report::{guard, Check};
use lambdaworks_stark::starks::grinding::{
    generate_nonce_with_grinding, hash_transcript_with_int_and_get_leading_zeros as measure,
};
use serde_json::json;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    let mut ck = Check::new(
        "C11",
        "one evaluation per (challenge, nonce) measured, per nonce search compared with an independent smallest-nonce search, \
         and per proof with a chosen nonce verified under a grinding factor; distinct by challenge, nonce and factor",
    );
    let mut rng = ck.rng.clone();
    // The measure, at random, extreme and structured inputs, and at nonces with much work.
    for i in 0..ck.n(20_000, 600_000) {
        if ck.stop() {
            break;
        }
        let ch = match i % 8 {
            0 => [0u8; 32],
            1 => [255u8; 32],
            2 => {
                let mut c = [0u8; 32];
                c[rng.below(32)] = rng.u64() as u8;
                c
            }
            _ => rng.bytes32(),
        };
        let nonce = match rng.below(8) {
            0 => rng.below(4) as u64,
            1 => u64::MAX - rng.below(4) as u64,
            2 => 1 << rng.below(64),
            3 => (rng.u64() as u32) as u64,
            4 => rng.u64() << 32,
            _ => rng.u64() >> rng.below(64),
        };
        let d = || json!({"challenge": hex(&ch), "nonce": nonce});
        if let Some(got) = ck.run("measure-panics", d, || measure(&ch, nonce)) {
            let want = work(&ch, nonce);
            ck.expect(got as u32 == want, "work-differs", || json!({"challenge": hex(&ch), "nonce": nonce, "got": got, "want": want}));
            ck.seen("works measured", &[got]);
            ck.eval(format!("m{}{nonce}", hex(&ch)).as_bytes(), true);
        }
    }
    // Much work.
    for i in 0..ck.n(4, 40) {
        if ck.stop() {
            break;
        }
        let ch = rng.bytes32();
        let nonce = refstark::mine(&ch, [22, 24, 25, 20][i % 4], if i % 2 == 0 { rng.u64() } else { 0 });
        let want = work(&ch, nonce);
        let d = json!({"challenge": hex(&ch), "nonce": nonce, "want": want});
        if let Some(got) = ck.run("measure-panics", || d.clone(), || measure(&ch, nonce)) {
            ck.expect(got as u32 == want, "work-differs", || json!({"case": d, "got": got}));
            ck.seen("works measured", &[got]);
            ck.eval(format!("m{}{nonce}", hex(&ch)).as_bytes(), true);
        }
    }
    // The search.
    for i in 0..ck.n(600, 12_000) {
        if ck.stop() {
            break;
        }
        let ch = rng.bytes32();
        let (low, top) = if i % 300 == 150 { (20, 20) } else if i % 40 == 0 { (15, 18) } else { (0, [2, 5, 8, 11][i % 4]) };
        let f = rng.range(low, top) as u8;
        let d = json!({"challenge": hex(&ch), "factor": f});
        ck.begin(&d.to_string());
        let Some(got) = ck.run("search-panics", || d.clone(), || generate_nonce_with_grinding(&ch, f)) else { continue };
        let want = (0u64..).find(|k| work(&ch, *k) >= f as u32).unwrap();
        ck.expect(got == Some(want), "nonce-not-minimal", || json!({"case": d, "got": got, "want": want}));
        ck.seen("smallest nonces", &want.to_be_bytes());
        ck.count("nonces scanned by the reference", want + 1);
        ck.eval(format!("s{}{f}", hex(&ch)).as_bytes(), f > 0);
        ck.sample(d);
    }
    // Verification, of proofs whose nonce was chosen before the queries were drawn.
    for i in 0..ck.n(80, 1500) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 1, max_log_n: 3, max_lde: 64, queries: (1, 3), max_grind: [0, 3, 7][i % 3], max_cols: 2 };
        let mut c = gen_case(&mut rng, &lim);
        while c.opts.blowup as usize * c.n > 128 {
            c = gen_case(&mut rng, &lim);
        }
        let d = c.brief();
        ck.begin(&d.to_string());
        // the prover's own nonce
        let Ok(p) = guard(|| prove_trace(&c.spec, &c.main, &c.opts)) else { continue };
        let Some((_, hc)) = refstark::prove(&c.spec, &c.main, &c.opts, &HONEST) else { continue };
        let want = (0u64..).find(|k| work(&hc.grind, *k) >= c.opts.grinding as u32).unwrap();
        ck.expect(p.nonce == want, "prover-nonce-not-minimal", || json!({"case": d, "got": p.nonce, "want": want}));
        let mut nonces: Vec<u64> = vec![0, 1, u64::MAX, rng.u64(), rng.u64() >> 20];
        // one of each amount of work within reach
        for w in 0..9u32 {
            if let Some(k) = (0..3000u64).map(|k| k.wrapping_mul(rng.u64() | 1)).find(|k| work(&hc.grind, *k) == w) {
                nonces.push(k);
            }
        }
        for nonce in nonces {
            let cheat = Cheat { own: Own::Nonce(nonce), ..HONEST };
            let Some((q, _)) = refstark::prove(&c.spec, &c.main, &c.opts, &cheat) else { continue };
            let w = work(&hc.grind, nonce);
            let mut factors = vec![0u8, w as u8, w as u8 + 1, w as u8 + 2, 255, 64];
            if w > 0 {
                factors.push(w as u8 - 1);
            }
            for f in factors {
                let o = Opts { grinding: f, ..c.opts.clone() };
                let Ok(got) = guard(|| accepts(&q, &c.spec, &o)) else {
                    ck.count("verification panics", 1);
                    continue;
                };
                let want = w >= f as u32;
                ck.expect(got == want, if got { "too-little-work-accepted" } else { "enough-work-rejected" }, || {
                    json!({"case": d, "nonce": nonce, "work": w, "factor": f})
                });
                ck.count(if got { "nonces accepted" } else { "nonces refused" }, 1);
                ck.eval(format!("v{d}{nonce}{f}").as_bytes(), true);
            }
        }
    }
    ck.finish();
}
