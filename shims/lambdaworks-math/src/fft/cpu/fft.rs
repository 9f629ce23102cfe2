use super::bit_reversing::in_place_bit_reverse_permute;
use crate::field::{element::FieldElement, traits::IsField};

/// Iterative decimation in time; `root` is a primitive `input.len()`-th root of unity.
/// Natural order in, natural order out.
pub fn dft_in_place<F: IsField>(input: &mut [FieldElement<F>], root: &FieldElement<F>) {
    let n = input.len();
    if n <= 1 {
        return;
    }
    // powers of root
    let mut twiddles = Vec::with_capacity(n / 2);
    let mut w = FieldElement::<F>::one();
    for _ in 0..n / 2 {
        twiddles.push(w.clone());
        w = &w * root;
    }
    in_place_bit_reverse_permute(input);
    let mut len = 2;
    while len <= n {
        let half = len / 2;
        let stride = n / len;
        for start in (0..n).step_by(len) {
            for k in 0..half {
                let t = &input[start + k + half] * &twiddles[k * stride];
                let u = input[start + k].clone();
                input[start + k] = &u + &t;
                input[start + k + half] = &u - &t;
            }
        }
        len *= 2;
    }
}
