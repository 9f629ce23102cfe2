use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

pub fn fft<F: IsFFTField>(
    input: &[FieldElement<F>],
    inverse: bool,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    if !input.len().is_power_of_two() {
        return Err(FFTError::InputError(input.len()));
    }
    let order = input.len().trailing_zeros() as u64;
    let mut root = F::get_primitive_root_of_unity(order)?;
    if inverse {
        root = root.inv();
    }
    let mut v = input.to_vec();
    super::fft::dft_in_place(&mut v, &root);
    Ok(v)
}
