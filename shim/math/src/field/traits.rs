use super::element::FieldElement;
use super::errors::FieldError;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use core::fmt::Debug;
use core::hash::Hash;

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum RootsConfig {
    Natural,
    NaturalInversed,
    BitReverse,
    BitReverseInversed,
}

pub trait IsField: Debug + Clone {
    type BaseType: Clone + Copy + Debug + Hash + Unpin + Send + Sync + 'static;

    fn add(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn double(a: &Self::BaseType) -> Self::BaseType {
        Self::add(a, a)
    }
    fn mul(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn square(a: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, a)
    }
    fn pow<T: IsUnsignedInteger>(a: &Self::BaseType, exponent: T) -> Self::BaseType {
        let mut e = exponent;
        let mut base = *a;
        let mut acc = Self::one();
        while !e.exp_is_zero() {
            if e.exp_is_odd() {
                acc = Self::mul(&acc, &base);
            }
            e = e.exp_half();
            if !e.exp_is_zero() {
                base = Self::square(&base);
            }
        }
        acc
    }
    fn sub(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType;
    fn neg(a: &Self::BaseType) -> Self::BaseType;
    fn inv(a: &Self::BaseType) -> Self::BaseType;
    fn div(a: &Self::BaseType, b: &Self::BaseType) -> Self::BaseType {
        Self::mul(a, &Self::inv(b))
    }
    fn eq(a: &Self::BaseType, b: &Self::BaseType) -> bool;
    fn zero() -> Self::BaseType;
    fn one() -> Self::BaseType;
    fn from_u64(x: u64) -> Self::BaseType;
    fn from_base_type(x: Self::BaseType) -> Self::BaseType;
    /// True when the value is zero for every valuation of its symbols (environment model only).
    fn is_surely_zero(a: &Self::BaseType) -> bool {
        Self::eq(a, &Self::zero())
    }
}

pub trait IsPrimeField: IsField {
    type RepresentativeType: IsUnsignedInteger + Clone + Ord + core::fmt::Display;
    fn representative(a: &Self::BaseType) -> Self::RepresentativeType;
    fn modulus_minus_one() -> Self::RepresentativeType {
        Self::representative(&Self::neg(&Self::one()))
    }
    fn field_bit_size() -> usize {
        let mut e = Self::modulus_minus_one();
        let mut n = 0;
        while !e.exp_is_zero() {
            e = e.exp_half();
            n += 1;
        }
        n
    }
    fn from_hex(hex_string: &str) -> Result<Self::BaseType, crate::errors::CreationError>;
}

pub trait IsFFTField: IsPrimeField {
    const TWO_ADICITY: u64;
    const TWO_ADIC_PRIMITVE_ROOT_OF_UNITY: Self::BaseType;

    fn field_name() -> &'static str {
        ""
    }
    fn get_primitive_root_of_unity(order: u64) -> Result<FieldElement<Self>, FieldError> {
        if order == 0 {
            return Ok(FieldElement::one());
        }
        if order > Self::TWO_ADICITY {
            return Err(FieldError::RootOfUnityError(order));
        }
        let mut r = FieldElement::<Self>::from_raw_base(Self::from_base_type(Self::TWO_ADIC_PRIMITVE_ROOT_OF_UNITY));
        for _ in 0..Self::TWO_ADICITY - order {
            r = r.square();
        }
        Ok(r)
    }
}
