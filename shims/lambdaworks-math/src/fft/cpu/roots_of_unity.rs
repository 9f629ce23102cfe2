use crate::fft::errors::FFTError;
use crate::field::{
    element::FieldElement,
    traits::{IsFFTField, RootsConfig},
};

/// Returns `count` powers of the primitive root of order 2^n, multiplied by `offset`.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    let mut results = Vec::with_capacity(count.min(1 << 30));
    let mut w = offset.clone();
    for _ in 0..count {
        results.push(w.clone());
        w = &w * &root;
    }
    Ok(results)
}

pub fn get_powers_of_primitive_root<F: IsFFTField>(
    n: u64,
    count: usize,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if count == 0 {
        return Ok(Vec::new());
    }
    let mut root = F::get_primitive_root_of_unity(n)?;
    if matches!(config, RootsConfig::NaturalInversed | RootsConfig::BitReverseInversed) {
        root = root.inv();
    }
    let mut v = Vec::with_capacity(count);
    let mut w = FieldElement::<F>::one();
    for _ in 0..count {
        v.push(w.clone());
        w = &w * &root;
    }
    if matches!(config, RootsConfig::BitReverse | RootsConfig::BitReverseInversed) {
        super::bit_reversing::in_place_bit_reverse_permute(&mut v);
    }
    Ok(v)
}

pub fn get_twiddles<F: IsFFTField>(
    order: u64,
    config: RootsConfig,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if order > 63 {
        return Err(FFTError::OrderError(order));
    }
    get_powers_of_primitive_root(order, (1 << order) / 2, config)
}
