use crate::field::element::FieldElement;
use crate::field::fields::montgomery_backed_prime_fields::{IsModulus, U256PrimeField};
use crate::field::traits::IsFFTField;
use crate::unsigned_integer::element::{UnsignedInteger, U256};

pub type Stark252FieldElement = FieldElement<Stark252PrimeField>;

#[derive(Clone, Debug, Hash, Copy)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 = U256::from_hex_unchecked(
        "800000000000011000000000000000000000000000000000000000000000001",
    );
}

pub type Stark252PrimeField = U256PrimeField<MontgomeryConfigStark252PrimeField>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    // Changing this value affects proofs (not their validity).
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 = UnsignedInteger::from_hex_unchecked(
        "5282db87529cfa3f0464519c8b0fa5ad187148e11a61616070024f42f8ef94",
    );
    fn field_name() -> &'static str {
        "stark256"
    }
}
