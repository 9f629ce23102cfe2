//! C30: the computations shipped with the library prove what they describe.
use harness::report::Check;
use harness::shipped::*;

fn main() {
    let mut ck = Check::new(
        "C30",
        "one evaluation per shipped computation proved and verified, per deviating trace (judged independently) proved and \
         verified, and per other public input verified; distinct by computation, field, instance, options and deviation",
    );
    let mut rng = ck.rng.clone();
    for i in 0..ck.n(300, 6000) {
        if ck.stop() {
            break;
        }
        let s = Sections { honest: true, codec: true, deviations: 8, others: true, findings: true };
        let (max_log, max_lde) = [(3, 64), (4, 128), (5, 256), (6, 1024)][i % 4];
        round(&mut ck, &mut rng, i, max_log, max_lde, &s);
    }
    ck.finish()
}
