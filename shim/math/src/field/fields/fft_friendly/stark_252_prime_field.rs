use crate::field::fields::montgomery_backed_prime_fields::{stark, IsModulus, U256PrimeField};
use crate::field::traits::IsFFTField;
use crate::unsigned_integer::element::{UnsignedInteger, U256};

#[derive(Clone, Debug, Hash, Copy, PartialEq, Eq)]
pub struct MontgomeryConfigStark252PrimeField;
impl IsModulus<U256> for MontgomeryConfigStark252PrimeField {
    const MODULUS: U256 =
        UnsignedInteger::from_hex_unchecked("800000000000011000000000000000000000000000000000000000000000001");
}
pub type Stark252PrimeField = U256PrimeField<MontgomeryConfigStark252PrimeField>;

impl IsFFTField for Stark252PrimeField {
    const TWO_ADICITY: u64 = 192;
    // 3^((p-1)/2^192)
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: U256 = stark::ROOT_192;
    fn field_name() -> &'static str {
        "stark256"
    }
}

impl crate::field::element::FieldElement<Stark252PrimeField> {
    pub fn to_bytes_le(&self) -> [u8; 32] {
        let mut b = self.to_bytes_be();
        b.reverse();
        b
    }
    pub fn to_bytes_be(&self) -> [u8; 32] {
        let l = &self.value().limbs;
        let mut b = [0u8; 32];
        let mut i = 0;
        while i < 4 {
            let x = l[i].to_be_bytes();
            let mut j = 0;
            while j < 8 {
                b[8 * i + j] = x[j];
                j += 1;
            }
            i += 1;
        }
        b
    }
}
