use super::traits::IsUnsignedInteger;
use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use core::cmp::Ordering;
use core::fmt::{self, Debug, Display};
use core::ops::{Add, BitAnd, BitOr, BitXor, Mul, Shl, Shr, ShrAssign, Sub};

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;

/// A fixed size unsigned integer; limbs in big-endian order.
#[derive(Clone, Copy, Hash, PartialEq, Eq)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> UnsignedInteger<N> {
    pub const NUM_LIMBS: usize = N;

    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }
    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }
    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        limbs[N - 2] = (value >> 64) as u64;
        Self { limbs }
    }
    pub const fn const_add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let c = a.limbs[i] as u128 + b.limbs[i] as u128 + carry;
            limbs[i] = c as u64;
            carry = c >> 64;
        }
        (Self { limbs }, carry > 0)
    }
    pub const fn const_sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (x, b1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (y, b2) = x.overflowing_sub(borrow as u64);
            limbs[i] = y;
            borrow = b1 || b2;
        }
        (Self { limbs }, borrow)
    }
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        Self::const_add(a, b)
    }
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        Self::const_sub(a, b)
    }

    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let string = value.strip_prefix("0x").unwrap_or(value);
        if string.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !string.bytes().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        if string.len() > N * 16 {
            return Err(CreationError::HexStringIsTooBig);
        }
        Ok(Self::from_hex_unchecked(string))
    }

    pub const fn from_hex_unchecked(value: &str) -> Self {
        let mut limbs = [0u64; N];
        let bytes = value.as_bytes();
        let mut i = bytes.len();
        let mut limb_index = N;
        let mut shift = 64;
        let start = if bytes.len() > 2 && bytes[0] == b'0' && bytes[1] == b'x' { 2 } else { 0 };
        while i > start {
            i -= 1;
            let d = match bytes[i] {
                c @ b'0'..=b'9' => c - b'0',
                c @ b'a'..=b'f' => c - b'a' + 10,
                c @ b'A'..=b'F' => c - b'A' + 10,
                _ => panic!("Malformed hex expression."),
            } as u64;
            if shift == 64 {
                shift = 0;
                limb_index -= 1;
            }
            limbs[limb_index] |= d << shift;
            shift += 4;
        }
        Self { limbs }
    }

    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() {
            return Err(CreationError::InvalidDecString);
        }
        let mut res = Self::from_u64(0);
        for b in value.bytes() {
            if !b.is_ascii_digit() {
                return Err(CreationError::InvalidDecString);
            }
            let mut carry = (b - b'0') as u128;
            for l in res.limbs.iter_mut().rev() {
                let v = *l as u128 * 10 + carry;
                *l = v as u64;
                carry = v >> 64;
            }
        }
        Ok(res)
    }

    pub fn to_hex(&self) -> String {
        let s: String = self.limbs.iter().map(|l| format!("{:016X}", l)).collect();
        let t = s.trim_start_matches('0');
        if t.is_empty() { "0".into() } else { t.into() }
    }
    pub fn bits_le(&self) -> usize {
        for (i, l) in self.limbs.iter().enumerate() {
            if *l != 0 {
                return (N - i) * 64 - l.leading_zeros() as usize;
            }
        }
        0
    }
}

impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.limbs.iter().flat_map(|l| l.to_be_bytes()).collect()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.limbs.iter().rev().flat_map(|l| l.to_le_bytes()).collect()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromBEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[i] = u64::from_be_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let needed = bytes.get(0..N * 8).ok_or(ByteConversionError::FromLEBytesError)?;
        let mut limbs = [0u64; N];
        for (i, c) in needed.chunks_exact(8).enumerate() {
            limbs[N - 1 - i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        Ok(Self { limbs })
    }
}

impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        self.limbs.cmp(&other.limbs)
    }
}
impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(value: u128) -> Self {
        Self::from_u128(value)
    }
}
impl<const N: usize> From<u64> for UnsignedInteger<N> {
    fn from(value: u64) -> Self {
        Self::from_u64(value)
    }
}
impl<const N: usize> From<u16> for UnsignedInteger<N> {
    fn from(value: u16) -> Self {
        Self::from_u64(value as u64)
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(hex: &str) -> Self {
        Self::from_hex_unchecked(hex)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(value: UnsignedInteger<N>) -> Self {
        value.limbs[N - 1] as u16
    }
}
impl<const N: usize> Add<&UnsignedInteger<N>> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn add(self, other: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let (r, overflow) = UnsignedInteger::const_add(self, other);
        debug_assert!(!overflow, "UnsignedInteger addition overflow.");
        r
    }
}
impl<const N: usize> Add for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn add(self, other: Self) -> Self {
        &self + &other
    }
}
impl<const N: usize> Sub<&UnsignedInteger<N>> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn sub(self, other: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let (r, underflow) = UnsignedInteger::const_sub(self, other);
        debug_assert!(!underflow, "UnsignedInteger subtraction underflow.");
        r
    }
}
impl<const N: usize> Sub for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn sub(self, other: Self) -> Self {
        &self - &other
    }
}
impl<const N: usize> Mul for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn mul(self, other: Self) -> Self {
        let mut limbs = [0u64; N];
        for i in (0..N).rev() {
            let mut carry = 0u128;
            for j in (0..N).rev() {
                let pos = i + j;
                if pos + 1 < N {
                    continue;
                }
                let k = pos + 1 - N;
                let v = self.limbs[i] as u128 * other.limbs[j] as u128 + limbs[k] as u128 + carry;
                limbs[k] = v as u64;
                carry = v >> 64;
            }
        }
        Self { limbs }
    }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        for i in 0..N {
            if i + a < N {
                limbs[i] = self.limbs[i + a] << b;
                if b > 0 && i + a + 1 < N {
                    limbs[i] |= self.limbs[i + a + 1] >> (64 - b);
                }
            }
        }
        UnsignedInteger { limbs }
    }
}
impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> Self {
        &self << times
    }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> {
        let mut limbs = [0u64; N];
        let (a, b) = (times / 64, times % 64);
        for i in 0..N {
            if i >= a {
                limbs[i] = self.limbs[i - a] >> b;
                if b > 0 && i >= a + 1 {
                    limbs[i] |= self.limbs[i - a - 1] << (64 - b);
                }
            }
        }
        UnsignedInteger { limbs }
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> Self {
        &self >> times
    }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, times: usize) {
        *self = *self >> times;
    }
}
macro_rules! bit {
    ($tr:ident, $f:ident, $op:tt) => {
        impl<const N: usize> $tr for UnsignedInteger<N> {
            type Output = Self;
            fn $f(self, rhs: Self) -> Self {
                let mut limbs = self.limbs;
                for i in 0..N { limbs[i] = self.limbs[i] $op rhs.limbs[i]; }
                Self { limbs }
            }
        }
    };
}
bit!(BitAnd, bitand, &);
bit!(BitOr, bitor, |);
bit!(BitXor, bitxor, ^);

impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "0x{}", self.to_hex().to_lowercase())
    }
}
impl<const N: usize> Debug for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(self, f)
    }
}
impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {}
