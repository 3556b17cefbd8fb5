use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsFFTField, IsField, IsPrimeField};
use crate::traits::ByteConversion;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct U64PrimeField<const MODULUS: u64>;
pub type U64FieldElement<const MODULUS: u64> = FieldElement<U64PrimeField<MODULUS>>;
pub type F17 = U64PrimeField<17>;
pub type FE17 = U64FieldElement<17>;

impl IsFFTField for F17 {
    const TWO_ADICITY: u64 = 4;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: u64 = 3;
}
impl<const M: u64> IsField for U64PrimeField<M> {
    type BaseType = u64;
    fn add(a: &u64, b: &u64) -> u64 {
        ((*a as u128 + *b as u128) % M as u128) as u64
    }
    fn sub(a: &u64, b: &u64) -> u64 {
        (((*a as u128 + M as u128) - *b as u128) % M as u128) as u64
    }
    fn neg(a: &u64) -> u64 {
        (M - *a) % M
    }
    fn mul(a: &u64, b: &u64) -> u64 {
        ((*a as u128 * *b as u128) % M as u128) as u64
    }
    fn inv(a: &u64) -> u64 {
        assert_ne!(*a, 0, "Cannot invert zero element");
        Self::pow(a, M - 2)
    }
    fn eq(a: &u64, b: &u64) -> bool {
        Self::from_u64(*a) == Self::from_u64(*b)
    }
    fn zero() -> u64 {
        0
    }
    fn one() -> u64 {
        1
    }
    fn from_u64(x: u64) -> u64 {
        x % M
    }
    fn from_base_type(x: u64) -> u64 {
        x % M
    }
}
impl<const M: u64> IsPrimeField for U64PrimeField<M> {
    type RepresentativeType = u64;
    fn representative(a: &u64) -> u64 {
        *a
    }
    fn field_bit_size() -> usize {
        (64 - (M - 1).leading_zeros()) as usize
    }
    fn from_hex(hex: &str) -> Result<u64, CreationError> {
        let h = hex.strip_prefix("0x").unwrap_or(hex);
        u64::from_str_radix(h, 16).map(|x| x % M).map_err(|_| CreationError::InvalidHexString)
    }
}
impl<const M: u64> ByteConversion for U64FieldElement<M> {
    fn to_bytes_be(&self) -> Vec<u8> {
        self.value().to_be_bytes().into()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.value().to_le_bytes().into()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let b: [u8; 8] = bytes.get(0..8).and_then(|b| b.try_into().ok()).ok_or(ByteConversionError::FromBEBytesError)?;
        Ok(Self::from(u64::from_be_bytes(b)))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let b: [u8; 8] = bytes.get(0..8).and_then(|b| b.try_into().ok()).ok_or(ByteConversionError::FromLEBytesError)?;
        Ok(Self::from(u64::from_le_bytes(b)))
    }
}
