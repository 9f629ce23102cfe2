use super::element::FieldElement;
use crate::errors::CreationError;
use crate::fft::errors::FFTError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use core::fmt::Debug;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

pub trait IsField: Debug + Clone {
    type BaseType: Clone + Debug + Send + Sync + Unpin;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn double(a: &Self::BaseType) -> Self::BaseType {
        Self::add(a, a)
    }
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }
    fn pow<T: IsUnsignedInteger>(a: &Self::BaseType, mut exponent: T) -> Self::BaseType {
        let zero = T::from(0u16);
        let one = T::from(1u16);
        let mut result = Self::one();
        let mut base = a.clone();
        while exponent > zero {
            if exponent & one == one {
                result = Self::mul(&result, &base);
            }
            exponent = exponent >> 1usize;
            if exponent > zero {
                base = Self::square(&base);
            }
        }
        result
    }
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType;
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
    fn zero() -> Self::BaseType;
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;
    fn field_name() -> &'static str {
        ""
    }
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger;

    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError>;
    /// Number of bits of the max element of the field.
    fn field_bit_size() -> usize;
}

pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn field_name() -> &'static str {
        ""
    }

    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FFTError>
    where
        Self: Sized,
    {
        let two_adic_primitive_root_of_unity =
            FieldElement::new(Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY);
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FFTError::RootOfUnityError(order));
        }
        let log_power = Self::TWO_ADICITY - order;
        let root =
            (0..log_power).fold(two_adic_primitive_root_of_unity, |acc, _| acc.square());
        Ok(root)
    }
}
