use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use core::fmt::Debug;
use core::marker::PhantomData;

pub type U384PrimeField<M> = MontgomeryBackendPrimeField<M, 6>;
pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;
pub type U64PrimeField<M> = MontgomeryBackendPrimeField<M, 1>;

pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub struct MontgomeryBackendPrimeField<M, const NUM_LIMBS: usize> {
    phantom: PhantomData<M>,
}

impl<M, const NUM_LIMBS: usize> MontgomeryBackendPrimeField<M, NUM_LIMBS>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>>,
{
    pub const R2: UnsignedInteger<NUM_LIMBS> = Self::compute_r2(M::MODULUS);
    /// -M^{-1} mod 2^64
    pub const MU: u64 = Self::compute_mu(M::MODULUS);
    pub const ZERO: UnsignedInteger<NUM_LIMBS> = UnsignedInteger::from_u64(0);
    pub const MODULUS: UnsignedInteger<NUM_LIMBS> = M::MODULUS;

    const fn compute_mu(m: UnsignedInteger<NUM_LIMBS>) -> u64 {
        let m0 = m.limbs[NUM_LIMBS - 1];
        let mut inv: u64 = 1;
        let mut i = 0;
        while i < 6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m0.wrapping_mul(inv)));
            i += 1;
        }
        inv.wrapping_neg()
    }

    const fn double_mod(
        a: UnsignedInteger<NUM_LIMBS>,
        m: UnsignedInteger<NUM_LIMBS>,
    ) -> UnsignedInteger<NUM_LIMBS> {
        let (d, carry) = UnsignedInteger::const_add(&a, &a);
        let (s, borrow) = UnsignedInteger::const_sub(&d, &m);
        if carry || !borrow {
            s
        } else {
            d
        }
    }

    const fn compute_r2(m: UnsignedInteger<NUM_LIMBS>) -> UnsignedInteger<NUM_LIMBS> {
        let mut c = UnsignedInteger::from_u64(1);
        let mut i = 0;
        while i < 2 * 64 * NUM_LIMBS {
            c = Self::double_mod(c, m);
            i += 1;
        }
        c
    }

    #[inline(always)]
    pub const fn montgomery_mul(
        a: &UnsignedInteger<NUM_LIMBS>,
        b: &UnsignedInteger<NUM_LIMBS>,
    ) -> UnsignedInteger<NUM_LIMBS> {
        let m = &M::MODULUS;
        let mut t = [0u64; NUM_LIMBS];
        let mut t_hi: u64 = 0;
        let mut i = NUM_LIMBS;
        // limbs are stored big endian; t[NUM_LIMBS-1] is the least significant
        while i > 0 {
            i -= 1;
            let bi = b.limbs[i] as u128;
            let mut carry: u128 = 0;
            let mut j = NUM_LIMBS;
            while j > 0 {
                j -= 1;
                let cs = t[j] as u128 + a.limbs[j] as u128 * bi + carry;
                t[j] = cs as u64;
                carry = cs >> 64;
            }
            let cs = t_hi as u128 + carry;
            t_hi = cs as u64;
            let t_hi2 = (cs >> 64) as u64;

            let k = (t[NUM_LIMBS - 1]).wrapping_mul(Self::MU) as u128;
            let cs = t[NUM_LIMBS - 1] as u128 + k * m.limbs[NUM_LIMBS - 1] as u128;
            let mut carry = cs >> 64;
            let mut j = NUM_LIMBS - 1;
            while j > 0 {
                j -= 1;
                let cs = t[j] as u128 + k * m.limbs[j] as u128 + carry;
                t[j + 1] = cs as u64;
                carry = cs >> 64;
            }
            let cs = t_hi as u128 + carry;
            t[0] = cs as u64;
            t_hi = t_hi2 + (cs >> 64) as u64;
        }
        let r = UnsignedInteger { limbs: t };
        let (s, borrow) = UnsignedInteger::const_sub(&r, m);
        if t_hi != 0 || !borrow {
            s
        } else {
            r
        }
    }

    pub const fn to_montgomery(x: &UnsignedInteger<NUM_LIMBS>) -> UnsignedInteger<NUM_LIMBS> {
        Self::montgomery_mul(x, &Self::R2)
    }
}

impl<M, const NUM_LIMBS: usize> IsField for MontgomeryBackendPrimeField<M, NUM_LIMBS>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>> + Clone + Debug,
{
    type BaseType = UnsignedInteger<NUM_LIMBS>;

    #[inline(always)]
    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (sum, carry) = UnsignedInteger::const_add(a, b);
        let (red, borrow) = UnsignedInteger::const_sub(&sum, &M::MODULUS);
        if carry || !borrow {
            red
        } else {
            sum
        }
    }
    #[inline(always)]
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::montgomery_mul(a, b)
    }
    #[inline(always)]
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        let (d, borrow) = UnsignedInteger::const_sub(a, b);
        if borrow {
            UnsignedInteger::const_add(&d, &M::MODULUS).0
        } else {
            d
        }
    }
    #[inline(always)]
    fn neg(a: &Self::BaseType) -> Self::BaseType {
        if a == &Self::ZERO {
            *a
        } else {
            UnsignedInteger::const_sub(&M::MODULUS, a).0
        }
    }
    fn inv(a: &Self::BaseType) -> Self::BaseType {
        if a == &Self::ZERO {
            panic!("Division by zero error.")
        }
        // Fermat: a^(p-2)
        let (e, _) = UnsignedInteger::const_sub(&M::MODULUS, &UnsignedInteger::from_u64(2));
        let mut result = Self::one();
        for limb in e.limbs.iter() {
            for bit in (0..64).rev() {
                result = Self::montgomery_mul(&result, &result);
                if (limb >> bit) & 1 == 1 {
                    result = Self::montgomery_mul(&result, a);
                }
            }
        }
        result
    }
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    #[inline(always)]
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool {
        a == b
    }
    #[inline(always)]
    fn zero() -> Self::BaseType {
        Self::ZERO
    }
    #[inline(always)]
    fn one() -> Self::BaseType {
        Self::from_u64(1)
    }
    #[inline(always)]
    fn from_u64(x: u64) -> Self::BaseType {
        Self::to_montgomery(&UnsignedInteger::from_u64(x))
    }
    fn from_base_type(x: Self::BaseType) -> Self::BaseType {
        Self::to_montgomery(&x)
    }
}

impl<M, const NUM_LIMBS: usize> IsPrimeField for MontgomeryBackendPrimeField<M, NUM_LIMBS>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>> + Clone + Debug,
{
    type RepresentativeType = UnsignedInteger<NUM_LIMBS>;

    fn representative(x: &Self::BaseType) -> Self::RepresentativeType {
        Self::montgomery_mul(x, &UnsignedInteger::from_u64(1))
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, CreationError> {
        let integer = UnsignedInteger::<NUM_LIMBS>::from_hex(hex_string)?;
        Ok(Self::to_montgomery(&integer))
    }
    fn field_bit_size() -> usize {
        let (e, _) = UnsignedInteger::const_sub(&M::MODULUS, &UnsignedInteger::from_u64(1));
        for (i, l) in e.limbs.iter().enumerate() {
            if *l != 0 {
                return (NUM_LIMBS - i) * 64 - l.leading_zeros() as usize;
            }
        }
        0
    }
}

impl<M, const NUM_LIMBS: usize> FieldElement<MontgomeryBackendPrimeField<M, NUM_LIMBS>>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>> + Clone + Debug,
{
    /// Creates a field element from a hex string; no checks are made.
    pub const fn from_hex_unchecked(hex: &str) -> Self {
        let integer = UnsignedInteger::<NUM_LIMBS>::from_hex_unchecked(hex);
        FieldElement::from_raw(
            MontgomeryBackendPrimeField::<M, NUM_LIMBS>::to_montgomery(&integer),
        )
    }
}

impl<M, const NUM_LIMBS: usize> FieldElement<MontgomeryBackendPrimeField<M, NUM_LIMBS>>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>> + Clone + Debug,
{
    pub fn to_bytes_be(&self) -> Vec<u8> {
        self.representative().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> Vec<u8> {
        self.representative().to_bytes_le()
    }
}

impl<M, const NUM_LIMBS: usize> ByteConversion
    for FieldElement<MontgomeryBackendPrimeField<M, NUM_LIMBS>>
where
    M: IsModulus<UnsignedInteger<NUM_LIMBS>> + Clone + Debug,
{
    fn to_bytes_be(&self) -> Vec<u8> {
        self.representative().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.representative().to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_be(bytes)?))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        Ok(Self::new(UnsignedInteger::from_bytes_le(bytes)?))
    }
}
