use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsFFTField, IsField, IsPrimeField};
use crate::traits::ByteConversion;

/// Type representing prime fields over unsigned 64-bit integers.
#[derive(Debug, Clone, Copy, Hash, PartialOrd, Ord, PartialEq, Eq)]
pub struct U64PrimeField<const MODULUS: u64>;
pub type U64FieldElement<const MODULUS: u64> = FieldElement<U64PrimeField<MODULUS>>;

pub type F17 = U64PrimeField<17>;
pub type FE17 = U64FieldElement<17>;

impl IsFFTField for F17 {
    const TWO_ADICITY: u64 = 4;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = 3;
}

/// 2^64 - 2^32 + 1: a field whose elements are encoded in 8 bytes and that is large enough
/// for proofs to mean something.
pub type Goldilocks = U64PrimeField<0xFFFF_FFFF_0000_0001>;

impl IsFFTField for Goldilocks {
    const TWO_ADICITY: u64 = 32;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = 1_753_635_133_440_165_772;
}

impl<const MODULUS: u64> IsField for U64PrimeField<MODULUS> {
    type BaseType = u64;
    fn add(a: &u64, b: &u64) -> u64 {
        ((*a as u128 + *b as u128) % MODULUS as u128) as u64
    }
    fn sub(a: &u64, b: &u64) -> u64 {
        (((*a as u128 + MODULUS as u128) - *b as u128) % MODULUS as u128) as u64
    }
    fn neg(a: &u64) -> u64 {
        (MODULUS - a) % MODULUS
    }
    fn mul(a: &u64, b: &u64) -> u64 {
        ((*a as u128 * *b as u128) % MODULUS as u128) as u64
    }
    fn div(a: &u64, b: &u64) -> u64 {
        Self::mul(a, &Self::inv(b))
    }
    fn inv(a: &u64) -> u64 {
        assert_ne!(*a, 0, "Cannot invert zero element");
        Self::pow(a, MODULUS - 2)
    }
    fn eq(a: &u64, b: &u64) -> bool {
        Self::from_u64(*a) == Self::from_u64(*b)
    }
    fn zero() -> u64 {
        0
    }
    fn one() -> u64 {
        1
    }
    fn from_u64(x: u64) -> u64 {
        x % MODULUS
    }
    fn from_base_type(x: u64) -> u64 {
        Self::from_u64(x)
    }
}

impl<const MODULUS: u64> IsPrimeField for U64PrimeField<MODULUS> {
    type RepresentativeType = u64;
    fn representative(x: &u64) -> u64 {
        *x
    }
    fn field_bit_size() -> usize {
        (64 - (MODULUS - 1).leading_zeros()) as usize
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError> {
        let s = hex_string.strip_prefix("0x").unwrap_or(hex_string);
        u64::from_str_radix(s, 16)
            .map(|x| x % MODULUS)
            .map_err(|_| CreationError::InvalidHexString)
    }
}

impl<const MODULUS: u64> ByteConversion for U64FieldElement<MODULUS> {
    fn to_bytes_be(&self) -> Vec<u8> {
        u64::to_be_bytes(*self.value()).into()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        u64::to_le_bytes(*self.value()).into()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let bytes: [u8; 8] = bytes
            .get(0..8)
            .ok_or(ByteConversionError::FromBEBytesError)?
            .try_into()
            .map_err(|_| ByteConversionError::FromBEBytesError)?;
        Ok(Self::from(u64::from_be_bytes(bytes)))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let bytes: [u8; 8] = bytes
            .get(0..8)
            .ok_or(ByteConversionError::FromLEBytesError)?
            .try_into()
            .map_err(|_| ByteConversionError::FromLEBytesError)?;
        Ok(Self::from(u64::from_le_bytes(bytes)))
    }
}
