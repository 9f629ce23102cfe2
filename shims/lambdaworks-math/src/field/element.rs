use super::traits::{IsFFTField, IsField, IsPrimeField};
use crate::errors::CreationError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

#[derive(Debug, Clone, Copy)]
pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> FieldElement<F> {
    /// Montgomery's trick. Panics if any of the numbers is zero.
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        if numbers.is_empty() {
            return;
        }
        let count = numbers.len();
        let mut prod_prefix = Vec::with_capacity(count);
        prod_prefix.push(numbers[0].clone());
        for i in 1..count {
            prod_prefix.push(&prod_prefix[i - 1] * &numbers[i]);
        }
        let mut bi_inv = prod_prefix[count - 1].inv();
        for i in (1..count).rev() {
            let ai_inv = &bi_inv * &prod_prefix[i - 1];
            bi_inv = &bi_inv * &numbers[i];
            numbers[i] = ai_inv;
        }
        numbers[0] = bi_inv;
    }

    pub fn new(value: F::BaseType) -> Self {
        Self { value: F::from_base_type(value) }
    }
    /// Wraps a value which already is in internal representation.
    pub const fn from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub const fn const_from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn to_raw(self) -> F::BaseType {
        self.value
    }
    pub fn inv(&self) -> Self {
        Self { value: F::inv(&self.value) }
    }
    pub fn square(&self) -> Self {
        Self { value: F::square(&self.value) }
    }
    pub fn double(&self) -> Self {
        Self { value: F::double(&self.value) }
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self { value: F::pow(&self.value, exponent) }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
}

impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(&self.value)
    }
    pub fn from_hex(hex_string: &str) -> Result<Self, CreationError> {
        Ok(Self { value: F::from_hex(hex_string)? })
    }
}

impl<F: IsFFTField> FieldElement<F> {
    pub fn get_primitive_root_of_unity(order: u64) -> Result<Self, crate::fft::errors::FFTError> {
        F::get_primitive_root_of_unity(order)
    }
}

impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self { value: F::from_u64(value) }
    }
}
impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self { value: F::from_base_type(value.clone()) }
    }
}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self { value: F::zero() }
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsPrimeField> core::hash::Hash for FieldElement<F>
where
    F::BaseType: core::hash::Hash,
{
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
        self.value.hash(state);
    }
}
impl<F: IsPrimeField> fmt::Display for FieldElement<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.representative())
    }
}

macro_rules! binop {
    ($tr:ident, $f:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> Self::Output {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> Self::Output {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: &FieldElement<F>) -> Self::Output {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline(always)]
            fn $f(self, rhs: FieldElement<F>) -> Self::Output {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
    };
}
binop!(Add, add);
binop!(Sub, sub);
binop!(Mul, mul);
binop!(Div, div);

macro_rules! assignop {
    ($tr:ident, $f:ident, $b:ident) => {
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            fn $f(&mut self, rhs: FieldElement<F>) {
                self.value = F::$b(&self.value, &rhs.value);
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            fn $f(&mut self, rhs: &FieldElement<F>) {
                self.value = F::$b(&self.value, &rhs.value);
            }
        }
    };
}
assignop!(AddAssign, add_assign, add);
assignop!(SubAssign, sub_assign, sub);
assignop!(MulAssign, mul_assign, mul);

impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> Self::Output {
        FieldElement { value: F::neg(&self.value) }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> Self::Output {
        -&self
    }
}
impl<F: IsField> Sum<FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<'a, F: IsField> Sum<&'a FieldElement<F>> for FieldElement<F> {
    fn sum<I: Iterator<Item = &'a Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> core::iter::Product<FieldElement<F>> for FieldElement<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
