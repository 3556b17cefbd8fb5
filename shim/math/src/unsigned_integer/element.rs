use super::traits::IsUnsignedInteger;
use crate::errors::{ByteConversionError, CreationError};
use crate::traits::ByteConversion;
use core::cmp::Ordering;
use core::fmt::{self, Debug, Display};
use core::ops::{Add, BitAnd, BitAndAssign, BitOr, BitXor, Shl, ShlAssign, Shr, ShrAssign, Sub, Mul};

pub type U384 = UnsignedInteger<6>;
pub type U256 = UnsignedInteger<4>;
pub type U128 = UnsignedInteger<2>;
pub type U64 = UnsignedInteger<1>;

/// Big-endian limbs: `limbs[0]` is the most significant.
#[derive(Clone, Copy, Eq, Hash)]
pub struct UnsignedInteger<const NUM_LIMBS: usize> {
    pub limbs: [u64; NUM_LIMBS],
}

impl<const N: usize> Default for UnsignedInteger<N> {
    fn default() -> Self {
        Self { limbs: [0; N] }
    }
}
// written out: a model checker unrolls it limb by limb
#[allow(clippy::derived_hash_with_manual_eq)]
impl<const N: usize> PartialEq for UnsignedInteger<N> {
    fn eq(&self, other: &Self) -> bool {
        let mut r = true;
        let mut i = 0;
        while i < N {
            r &= self.limbs[i] == other.limbs[i];
            i += 1;
        }
        r
    }
}
impl<const N: usize> PartialOrd for UnsignedInteger<N> {
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
        Some(self.cmp(other))
    }
}
impl<const N: usize> Ord for UnsignedInteger<N> {
    fn cmp(&self, other: &Self) -> Ordering {
        let mut i = 0;
        while i < N {
            if self.limbs[i] != other.limbs[i] {
                return if self.limbs[i] < other.limbs[i] { Ordering::Less } else { Ordering::Greater };
            }
            i += 1;
        }
        Ordering::Equal
    }
}
impl<const N: usize> Debug for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl<const N: usize> Display for UnsignedInteger<N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut started = false;
        write!(f, "0x")?;
        for l in self.limbs.iter() {
            if started {
                write!(f, "{:016x}", l)?;
            } else if *l != 0 {
                write!(f, "{:x}", l)?;
                started = true;
            }
        }
        if !started {
            write!(f, "0")?;
        }
        Ok(())
    }
}
macro_rules! from_small {
    ($($t:ty),*) => {$(
    impl<const N: usize> From<$t> for UnsignedInteger<N> {
        fn from(value: $t) -> Self {
            let mut limbs = [0u64; N];
            limbs[N - 1] = value as u64;
            Self { limbs }
        }
    })*};
}
from_small!(u64, u32, u16, u8, usize);
impl<const N: usize> From<u128> for UnsignedInteger<N> {
    fn from(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        if N > 1 {
            limbs[N - 2] = (value >> 64) as u64;
        }
        Self { limbs }
    }
}
impl<const N: usize> From<&str> for UnsignedInteger<N> {
    fn from(hex: &str) -> Self {
        Self::from_hex_unchecked(hex)
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u16 {
    fn from(value: UnsignedInteger<N>) -> Self {
        value.limbs[N - 1] as u16
    }
}
impl<const N: usize> From<UnsignedInteger<N>> for u64 {
    fn from(value: UnsignedInteger<N>) -> Self {
        value.limbs[N - 1]
    }
}
macro_rules! refs {
    ($tr:ident, $m:ident) => {
        impl<const N: usize> $tr<UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> { $tr::$m(&self, &o) }
        }
        impl<const N: usize> $tr<&UnsignedInteger<N>> for UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> { $tr::$m(&self, o) }
        }
        impl<const N: usize> $tr<UnsignedInteger<N>> for &UnsignedInteger<N> {
            type Output = UnsignedInteger<N>;
            fn $m(self, o: UnsignedInteger<N>) -> UnsignedInteger<N> { $tr::$m(self, &o) }
        }
    };
}
impl<const N: usize> BitAnd for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn bitand(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut r = self.limbs;
        let mut i = 0;
        while i < N { r[i] &= o.limbs[i]; i += 1; }
        UnsignedInteger { limbs: r }
    }
}
impl<const N: usize> BitOr for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn bitor(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut r = self.limbs;
        let mut i = 0;
        while i < N { r[i] |= o.limbs[i]; i += 1; }
        UnsignedInteger { limbs: r }
    }
}
impl<const N: usize> BitXor for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn bitxor(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut r = self.limbs;
        let mut i = 0;
        while i < N { r[i] ^= o.limbs[i]; i += 1; }
        UnsignedInteger { limbs: r }
    }
}
impl<const N: usize> Add for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn add(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> { UnsignedInteger::add(self, o).0 }
}
impl<const N: usize> Sub for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn sub(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> { UnsignedInteger::sub(self, o).0 }
}
impl<const N: usize> Mul for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn mul(self, o: &UnsignedInteger<N>) -> UnsignedInteger<N> {
        let mut r = [0u64; N];
        for i in 0..N {
            let mut carry: u128 = 0;
            for j in 0..N - i {
                let k = N - 1 - i - j;
                let t = (self.limbs[N - 1 - i] as u128) * (o.limbs[N - 1 - j] as u128) + r[k] as u128 + carry;
                r[k] = t as u64;
                carry = t >> 64;
            }
        }
        UnsignedInteger { limbs: r }
    }
}
refs!(BitAnd, bitand);
refs!(BitOr, bitor);
refs!(BitXor, bitxor);
refs!(Add, add);
refs!(Sub, sub);
refs!(Mul, mul);
impl<const N: usize> BitAndAssign for UnsignedInteger<N> {
    fn bitand_assign(&mut self, o: Self) { *self = &*self & &o; }
}
impl<const N: usize> Shr<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> {
        let (a, b) = (times / 64, (times % 64) as u32);
        let mut r = [0u64; N];
        let mut i = N;
        while i > 0 {
            i -= 1;
            if i >= a {
                let src = i - a;
                r[i] = self.limbs[src] >> b;
                if b > 0 && src > 0 {
                    r[i] |= self.limbs[src - 1] << (64 - b);
                }
            }
        }
        UnsignedInteger { limbs: r }
    }
}
impl<const N: usize> Shr<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shr(self, times: usize) -> UnsignedInteger<N> { &self >> times }
}
impl<const N: usize> Shl<usize> for &UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> {
        let (a, b) = (times / 64, (times % 64) as u32);
        let mut r = [0u64; N];
        let mut i = 0;
        while i + a < N {
            let src = i + a;
            r[i] = self.limbs[src] << b;
            if b > 0 && src + 1 < N {
                r[i] |= self.limbs[src + 1] >> (64 - b);
            }
            i += 1;
        }
        UnsignedInteger { limbs: r }
    }
}
impl<const N: usize> Shl<usize> for UnsignedInteger<N> {
    type Output = UnsignedInteger<N>;
    fn shl(self, times: usize) -> UnsignedInteger<N> { &self << times }
}
impl<const N: usize> ShrAssign<usize> for UnsignedInteger<N> {
    fn shr_assign(&mut self, times: usize) { *self = &*self >> times; }
}
impl<const N: usize> ShlAssign<usize> for UnsignedInteger<N> {
    fn shl_assign(&mut self, times: usize) { *self = &*self << times; }
}

impl<const N: usize> UnsignedInteger<N> {
    pub const fn from_limbs(limbs: [u64; N]) -> Self {
        Self { limbs }
    }
    pub const fn from_u64(value: u64) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value;
        Self { limbs }
    }
    pub const fn from_u128(value: u128) -> Self {
        let mut limbs = [0u64; N];
        limbs[N - 1] = value as u64;
        limbs[N - 2] = (value >> 64) as u64;
        Self { limbs }
    }
    pub fn from_hex(value: &str) -> Result<Self, CreationError> {
        let mut string = value;
        let mut char_iterator = value.chars();
        if string.len() > 2 && char_iterator.next().unwrap() == '0' && char_iterator.next().unwrap() == 'x' {
            string = &string[2..];
        }
        if string.is_empty() {
            return Err(CreationError::EmptyString);
        }
        if !string.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err(CreationError::InvalidHexString);
        }
        if string.len() > N * 16 {
            return Err(CreationError::HexStringIsTooBig);
        }
        Ok(Self::from_hex_unchecked(string))
    }
    pub const fn from_hex_unchecked(value: &str) -> Self {
        let bytes = value.as_bytes();
        let start = if bytes.len() > 2 && bytes[0] == b'0' && bytes[1] == b'x' { 2 } else { 0 };
        let mut result = [0u64; N];
        let mut limb_index = N;
        let mut shift = 64;
        let mut i = bytes.len();
        while i > start {
            i -= 1;
            if shift == 64 {
                limb_index -= 1;
                shift = 0;
            }
            let b = bytes[i];
            let d = match b {
                b'0'..=b'9' => b - b'0',
                b'a'..=b'f' => b - b'a' + 10,
                b'A'..=b'F' => b - b'A' + 10,
                _ => 0,
            };
            result[limb_index] |= (d as u64) << shift;
            shift += 4;
        }
        Self { limbs: result }
    }
    pub fn from_dec_str(value: &str) -> Result<Self, CreationError> {
        if value.is_empty() { return Err(CreationError::EmptyString); }
        let mut r = Self::default();
        for c in value.chars() {
            let d = c.to_digit(10).ok_or(CreationError::InvalidDecString)?;
            r = &(&r * &Self::from(10u64)) + &Self::from(d as u64);
        }
        Ok(r)
    }
    pub fn to_hex(&self) -> String {
        format!("{}", self).trim_start_matches("0x").to_string()
    }
    pub const fn const_ne(a: &Self, b: &Self) -> bool {
        let mut i = 0;
        while i < N {
            if a.limbs[i] != b.limbs[i] { return true; }
            i += 1;
        }
        false
    }
    pub const fn add(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut carry = 0u128;
        let mut i = N;
        while i > 0 {
            let c = a.limbs[i - 1] as u128 + b.limbs[i - 1] as u128 + carry;
            limbs[i - 1] = c as u64;
            carry = c >> 64;
            i -= 1;
        }
        (Self { limbs }, carry > 0)
    }
    pub const fn sub(a: &Self, b: &Self) -> (Self, bool) {
        let mut limbs = [0u64; N];
        let mut borrow = false;
        let mut i = N;
        while i > 0 {
            i -= 1;
            let (x, c1) = a.limbs[i].overflowing_sub(b.limbs[i]);
            let (y, c2) = x.overflowing_sub(borrow as u64);
            limbs[i] = y;
            borrow = c1 | c2;
        }
        (Self { limbs }, borrow)
    }
}
impl<const N: usize> IsUnsignedInteger for UnsignedInteger<N> {
    fn exp_is_zero(&self) -> bool { self.limbs.iter().all(|x| *x == 0) }
    fn exp_is_odd(&self) -> bool { self.limbs[N - 1] & 1 == 1 }
    fn exp_half(&self) -> Self { self >> 1 }
}
impl<const N: usize> ByteConversion for UnsignedInteger<N> {
    fn to_bytes_be(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(N * 8);
        for l in self.limbs.iter() {
            v.extend_from_slice(&l.to_be_bytes());
        }
        v
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(N * 8);
        for l in self.limbs.iter().rev() {
            v.extend_from_slice(&l.to_le_bytes());
        }
        v
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        // Extra bytes are cut off, as in the original.
        if bytes.len() < N * 8 {
            return Err(ByteConversionError::FromBEBytesError);
        }
        let mut limbs = [0u64; N];
        let mut i = 0;
        while i < N {
            let b = i * 8;
            limbs[i] = u64::from_be_bytes(crate::helpers::eight(&bytes[b..b + 8]));
            i += 1;
        }
        Ok(Self { limbs })
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        if bytes.len() < N * 8 {
            return Err(ByteConversionError::FromLEBytesError);
        }
        let mut limbs = [0u64; N];
        let mut i = 0;
        while i < N {
            let b = i * 8;
            limbs[N - 1 - i] = u64::from_le_bytes(crate::helpers::eight(&bytes[b..b + 8]));
            i += 1;
        }
        Ok(Self { limbs })
    }
}
