//! C05: a proof is accepted only under options at least as weak as it satisfies.
use harness::progair::*;
use harness::refstark::{self, Cheat, Own, HONEST};
use harness::report::{guard, Check};
use lambdaworks_crypto::fiat_shamir::log::{self, Event};
use serde_json::json;

/// The challenge a verification of this proof would grind on: the last one drawn before the
/// nonce is absorbed.
fn grind_challenge(p: &harness::proofs::P, c: &Case) -> Option<[u8; 32]> {
    log::start();
    let _ = guard(|| accepts(p, &c.spec, &c.opts));
    let ev = log::take();
    let nonce = p.nonce.to_be_bytes().to_vec();
    let mut last = None;
    let mut found = None;
    for e in ev {
        match e {
            Event::Challenge(_, b) => last = Some(b),
            Event::Append(_, b) if b == nonce => found = last,
            _ => {}
        }
    }
    found
}

fn main() {
    let mut ck = Check::new(
        "C05",
        "one evaluation per accepted proof verified under other options; the verdict must be reject for another \
         blowup, query count or coset, and for grinding it must be accept exactly when the nonce has that much work; \
         distinct by computation shape and options",
    );
    let mut rng = ck.rng.clone();
    for i in 0..ck.n(600, 8000) {
        if ck.stop() {
            break;
        }
        let lim = Limits {
            min_log_n: 2,
            max_log_n: [3, 4, 5, 6][i % 4],
            max_lde: 512,
            queries: ([1, 2, 8, 16][i % 4], [4, 8, 12, 24][i % 4]),
            max_grind: [0, 4, 8, 11][i % 4],
            max_cols: 4,
        }.rare(i, 25);
        let mut c = gen_case(&mut rng, &lim);
        while !aperiodic(&c.main) {
            c = gen_case(&mut rng, &lim);
        }
        ck.begin(&c.brief().to_string());
        let p = prove_trace(&c.spec, &c.main, &c.opts);
        if !accepts(&p, &c.spec, &c.opts) {
            ck.count("proofs rejected under their own options", 1);
            continue;
        }
        ck.count("accepted proofs", 1);
        let Some(gc) = grind_challenge(&p, &c) else {
            ck.count("no grinding challenge seen", 1);
            continue;
        };
        let work = refstark::work(&gc, p.nonce);
        ck.seen("nonce work", &work.to_be_bytes());
        let o = c.opts.clone();
        let mut tries: Vec<(&str, Opts, Option<bool>)> = vec![];
        for b in [2u8, 4, 8, 16, 32, 64, 128] {
            if b != o.blowup && coset_ok(o.coset, b as usize * c.n) {
                tries.push(("blowup", Opts { blowup: b, ..o.clone() }, Some(false)));
            }
        }
        for q in [0, 1, 2, o.queries / 2, o.queries - 1, o.queries + 1, o.queries * 2, o.queries + 100] {
            if q != o.queries {
                tries.push(("queries", Opts { queries: q, ..o.clone() }, Some(false)));
            }
        }
        for h in [1u64, 2, 3, 5, 7, o.coset.wrapping_add(1), o.coset - 1, o.coset ^ 2, o.coset.wrapping_mul(2), rng.u64(), 0x8000_0000_0000_0000] {
            if h != o.coset && coset_ok(h, o.blowup as usize * c.n) {
                tries.push(("coset", Opts { coset: h, ..o.clone() }, Some(false)));
            }
        }
        for g in 0..=(o.grinding as usize + 6) {
            let want = work >= g as u32;
            tries.push(("grinding", Opts { grinding: g as u8, ..o.clone() }, Some(want)));
        }
        for g in [32u8, 63, 64, 65, 128, 255] {
            tries.push(("grinding", Opts { grinding: g, ..o.clone() }, Some(work >= g as u32)));
        }
        // several at once
        for _ in 0..4 {
            let t = Opts {
                blowup: *rng.pick(&[2u8, 4, 8, 16]),
                queries: rng.range(1, 20),
                coset: rng.u64() | 1,
                grinding: rng.below(4) as u8,
            };
            if coset_ok(t.coset, t.blowup as usize * c.n)
                && (t.blowup, t.queries, t.coset) != (o.blowup, o.queries, o.coset)
            {
                tries.push(("several", t, Some(false)));
            }
        }
        for (what, t, want) in tries {
            let d = json!({"changed": what, "verified_under": t.json(), "nonce_work": work, "case": c.brief()});
            ck.begin(&d.to_string());
            let got = guard(|| accepts(&p, &c.spec, &t)).unwrap_or(false);
            if let Some(w) = want {
                let key = if got { "accepted-under-other-options" } else { "rejected-under-weaker-grinding" };
                ck.expect(got == w, key, || d.clone());
            }
            ck.count(&format!("{what} {}", if got { "accepted" } else { "rejected" }), 1);
            ck.eval(d.to_string().as_bytes(), true);
            if what == "grinding" || what == "queries" {
                ck.sample(d);
            }
        }
        // More queries asked for than answered: the missing ones filled with what is there, one of
        // them (or all of them) wrong.
        for more in [1, 2, o.queries.min(30), 40] {
            let t = Opts { queries: o.queries + more, ..o.clone() };
            let mut q = harness::proofs::copy(&p);
            let bad = rng.below(more);
            let all = rng.chance(1, 2);
            for k in 0..more {
                let src = harness::proofs::copy(&p);
                let j = rng.below(o.queries);
                q.query_list.push(src.query_list.into_iter().nth(j).unwrap());
                let mut op = src.deep_poly_openings.into_iter().nth(j).unwrap();
                if all || k == bad {
                    let c = rng.below(op.lde_trace_evaluations.len());
                    op.lde_trace_evaluations[c] = &op.lde_trace_evaluations[c] + rng.fe_nonzero();
                }
                q.deep_poly_openings.push(op);
            }
            let d = json!({"queries added": more, "wrong": if all { more } else { 1 }, "verified_under": t.json(), "case": c.brief()});
            ck.begin(&d.to_string());
            let got = guard(|| accepts(&q, &c.spec, &t)).unwrap_or(false);
            ck.expect(!got, "accepted-with-wrong-queries", || d.clone());
            ck.count("proofs with made-up queries", 1);
            ck.eval(d.to_string().as_bytes(), true);
        }
        // A proof with less work than asked: the nonce is replaced by one of every smaller work.
        if o.grinding > 0 {
            for k in 0..40u64 {
                let w = refstark::work(&gc, k);
                if w < o.grinding as u32 {
                    let mut q = harness::proofs::copy(&p);
                    q.nonce = k;
                    let got = guard(|| accepts(&q, &c.spec, &o)).unwrap_or(false);
                    let d = json!({"nonce": k, "work": w, "case": c.brief()});
                    ck.expect(!got, "accepted-without-the-work", || d.clone());
                    ck.count("nonces with too little work", 1);
                    ck.eval(d.to_string().as_bytes(), true);
                }
            }
        }
    }
    // Nonces at the ends of what a nonce can be: the work counts, not the number.
    for _ in 0..ck.n(40, 400) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 1, max_log_n: 4, max_lde: 64, queries: (1, 6), max_grind: 0, max_cols: 2 };
        let mut c = gen_case(&mut rng, &lim);
        while !aperiodic(&c.main) || c.opts.blowup as usize * c.n > 128 {
            c = gen_case(&mut rng, &lim);
        }
        let d = c.brief();
        ck.begin(&d.to_string());
        let Some((_, hc)) = refstark::prove(&c.spec, &c.main, &c.opts, &HONEST) else { continue };
        for nonce in [0, 1, 2, 255, 256, 65535, 65536, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX - 1, u64::MAX, rng.u64(), rng.u64() << 32] {
            let Some((p, _)) = refstark::prove(&c.spec, &c.main, &c.opts, &Cheat { own: Own::Nonce(nonce), ..HONEST }) else { continue };
            let work = refstark::work(&hc.grind, nonce);
            for g in [0, work, work + 1, work + 2, 7, 8, 9, 16, 17, 20, 24, 32, 33, 64, 65, 128, 255] {
                let t = Opts { grinding: g as u8, ..c.opts.clone() };
                let got = guard(|| accepts(&p, &c.spec, &t)).unwrap_or(false);
                let key = if got { "accepted-without-the-work" } else { "rejected-under-weaker-grinding" };
                ck.expect(got == (work >= g), key, || json!({"nonce": nonce, "work": work, "factor": g, "case": d}));
                ck.eval(format!("own{d}{nonce}{g}").as_bytes(), true);
            }
            ck.count("nonces chosen by the check", 1);
        }
    }
    // Nonces that took work: as much as grinding asks for in practice.
    for i in 0..ck.n(3, 24) {
        if ck.stop() {
            break;
        }
        let lim = Limits { min_log_n: 2, max_log_n: 4, max_lde: 64, queries: (1, 6), max_grind: 0, max_cols: 2 };
        let mut c = gen_case(&mut rng, &lim);
        while !aperiodic(&c.main) || c.opts.blowup as usize * c.n > 128 {
            c = gen_case(&mut rng, &lim);
        }
        c.opts.grinding = [25, 20, 22][i % 3];
        let d = c.brief();
        ck.begin(&d.to_string());
        let Some((_, hc)) = refstark::prove(&c.spec, &c.main, &Opts { grinding: 0, ..c.opts.clone() }, &HONEST) else { continue };
        let nonce = refstark::mine(&hc.grind, c.opts.grinding as u32, rng.u64());
        let cheat = Cheat { own: Own::Nonce(nonce), ..HONEST };
        let Some((p, _)) = refstark::prove(&c.spec, &c.main, &c.opts, &cheat) else { continue };
        let work = refstark::work(&hc.grind, nonce);
        for g in 0..=80u8 {
            let t = Opts { grinding: g, ..c.opts.clone() };
            let got = guard(|| accepts(&p, &c.spec, &t)).unwrap_or(false);
            let want = work >= g as u32;
            let key = if got { "accepted-without-the-work" } else { "rejected-under-weaker-grinding" };
            ck.expect(got == want, key, || json!({"nonce": nonce, "work": work, "factor": g, "case": d}));
            ck.eval(format!("mined{d}{nonce}{g}").as_bytes(), true);
        }
        ck.count("nonces of 20 bits of work and more", 1);
    }
    ck.assume("the nonce's work is measured on the challenge the verifier itself drew right before absorbing the nonce (read from the transcript log)");
    ck.finish();
}
