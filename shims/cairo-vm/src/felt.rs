use lambdaworks_math::{
    field::{
        element::FieldElement, fields::fft_friendly::stark_252_prime_field::Stark252PrimeField,
    },
    traits::ByteConversion,
};

pub type FE = FieldElement<Stark252PrimeField>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Felt252(pub FE);

impl Felt252 {
    pub fn to_le_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_le().try_into().unwrap()
    }
    pub fn to_be_bytes(&self) -> [u8; 32] {
        self.0.to_bytes_be().try_into().unwrap()
    }
    pub fn from_hex(s: &str) -> Option<Self> {
        let digits = s.strip_prefix("0x")?;
        if digits.is_empty() {
            return None;
        }
        let mut v = FE::zero();
        let sixteen = FE::from(16u64);
        for c in digits.chars() {
            v = v * &sixteen + FE::from(c.to_digit(16)? as u64);
        }
        Some(Felt252(v))
    }
    /// Canonical value, if it fits in a u64.
    pub fn to_u64(&self) -> Option<u64> {
        let b = self.to_le_bytes();
        if b[8..].iter().any(|x| *x != 0) {
            return None;
        }
        Some(u64::from_le_bytes(b[..8].try_into().unwrap()))
    }
    /// Canonical value as a signed offset, if small.
    pub fn to_i64(&self) -> Option<i64> {
        if let Some(v) = self.to_u64() {
            return i64::try_from(v).ok();
        }
        Felt252(-&self.0)
            .to_u64()
            .and_then(|v| i64::try_from(v).ok())
            .map(|v| -v)
    }
    pub fn is_zero(&self) -> bool {
        self.0 == FE::zero()
    }
    pub fn bits_at_most(&self, n: usize) -> bool {
        let b = self.to_le_bytes();
        b[n / 8..].iter().all(|x| *x == 0)
    }
}

impl From<u64> for Felt252 {
    fn from(v: u64) -> Self {
        Felt252(FE::from(v))
    }
}
impl From<usize> for Felt252 {
    fn from(v: usize) -> Self {
        Felt252(FE::from(v as u64))
    }
}
