use super::{cpu::ops, errors::FFTError};
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    /// Evaluations over a domain of size `max(len, domain_size).next_power_of_two() * blowup`.
    fn evaluate_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = core::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        ops::fft(&coeffs, false)
    }

    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        let scaled = self.scale(offset);
        scaled.evaluate_fft(blowup_factor, domain_size)
    }

    fn interpolate_fft(
        fft_evals: &[FieldElement<F>],
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let coeffs = ops::fft(fft_evals, true)?;
        let n_inv = FieldElement::<F>::from(fft_evals.len() as u64).inv();
        Ok(Polynomial::new(&coeffs.iter().map(|c| c * &n_inv).collect::<Vec<_>>()))
    }

    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError> {
        let scaled = Polynomial::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}

pub fn compose_fft<F: IsFFTField>(
    poly_1: &Polynomial<FieldElement<F>>,
    poly_2: &Polynomial<FieldElement<F>>,
) -> Polynomial<FieldElement<F>> {
    let evals = poly_2.evaluate_fft(1, None).unwrap();
    let values: Vec<_> = evals.iter().map(|v| poly_1.evaluate(v)).collect();
    Polynomial::interpolate_fft(&values).unwrap()
}
