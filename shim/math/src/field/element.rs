use super::traits::{IsField, IsPrimeField};
use crate::errors::{ByteConversionError, CreationError};
use crate::unsigned_integer::element::UnsignedInteger;
use crate::unsigned_integer::traits::IsUnsignedInteger;
use core::fmt::Debug;
use core::hash::{Hash, Hasher};
use core::iter::Sum;
use core::ops::{Add, AddAssign, Div, Mul, MulAssign, Neg, Sub, SubAssign};

pub struct FieldElement<F: IsField> {
    value: F::BaseType,
}

impl<F: IsField> Clone for FieldElement<F> {
    #[inline]
    fn clone(&self) -> Self {
        Self { value: self.value }
    }
}
impl<F: IsField> Copy for FieldElement<F> {}
impl<F: IsField> Debug for FieldElement<F> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_struct("FieldElement").field("value", &self.value).finish()
    }
}
impl<F: IsField> Hash for FieldElement<F> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.value.hash(state)
    }
}
impl<F: IsField> PartialEq for FieldElement<F> {
    fn eq(&self, other: &Self) -> bool {
        F::eq(&self.value, &other.value)
    }
}
impl<F: IsField> Eq for FieldElement<F> {}
impl<F: IsField> Default for FieldElement<F> {
    fn default() -> Self {
        Self::zero()
    }
}
impl<F: IsField> From<&F::BaseType> for FieldElement<F> {
    fn from(value: &F::BaseType) -> Self {
        Self { value: F::from_base_type(*value) }
    }
}
impl<F: IsField> From<u64> for FieldElement<F> {
    fn from(value: u64) -> Self {
        Self { value: F::from_u64(value) }
    }
}
impl<F: IsField> FieldElement<F> {
    pub fn new(value: F::BaseType) -> Self {
        Self { value: F::from_base_type(value) }
    }
    #[doc(hidden)]
    pub const fn from_raw_base(value: F::BaseType) -> Self {
        Self { value }
    }
    pub const fn from_raw(value: F::BaseType) -> Self {
        Self { value }
    }
    pub const fn value(&self) -> &F::BaseType {
        &self.value
    }
    pub fn inv(&self) -> Self {
        Self { value: F::inv(&self.value) }
    }
    pub fn square(&self) -> Self {
        Self { value: F::square(&self.value) }
    }
    pub fn double(&self) -> Self {
        Self { value: F::double(&self.value) }
    }
    pub fn pow<T: IsUnsignedInteger>(&self, exponent: T) -> Self {
        Self { value: F::pow(&self.value, exponent) }
    }
    pub fn one() -> Self {
        Self { value: F::one() }
    }
    pub fn zero() -> Self {
        Self { value: F::zero() }
    }
    #[doc(hidden)]
    pub fn is_surely_zero(&self) -> bool {
        F::is_surely_zero(&self.value)
    }
    /// In-place inversion of every element (panics on zero, like the original).
    pub fn inplace_batch_inverse(numbers: &mut [Self]) {
        for n in numbers.iter_mut() {
            *n = n.inv();
        }
    }
}
impl<F: IsPrimeField> FieldElement<F> {
    pub fn representative(&self) -> F::RepresentativeType {
        F::representative(self.value())
    }
    pub fn from_hex(hex: &str) -> Result<Self, CreationError> {
        Ok(Self { value: F::from_hex(hex)? })
    }
}
impl<C, const N: usize> FieldElement<super::fields::montgomery_backed_prime_fields::MontgomeryBackendPrimeField<C, N>>
where
    C: super::fields::montgomery_backed_prime_fields::IsModulus<UnsignedInteger<N>> + Clone + Debug,
{
    pub const fn from_hex_unchecked(hex: &str) -> Self {
        let mut v = UnsignedInteger::<N>::from_hex_unchecked(hex);
        // at most 32 subtractions for the moduli in use with a full first limb
        loop {
            let (d, borrow) = UnsignedInteger::<N>::sub(&v, &C::MODULUS);
            if borrow {
                break;
            }
            v = d;
        }
        Self { value: v }
    }
}

macro_rules! ops {
    ($tr:ident, $m:ident, $f:ident) => {
        impl<F: IsField> $tr<&FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<&FieldElement<F>> for FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: &FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
        impl<F: IsField> $tr<FieldElement<F>> for &FieldElement<F> {
            type Output = FieldElement<F>;
            #[inline]
            fn $m(self, rhs: FieldElement<F>) -> FieldElement<F> {
                FieldElement { value: F::$f(&self.value, &rhs.value) }
            }
        }
    };
}
ops!(Add, add, add);
ops!(Sub, sub, sub);
ops!(Mul, mul, mul);
ops!(Div, div, div);
impl<F: IsField> AddAssign<FieldElement<F>> for FieldElement<F> {
    fn add_assign(&mut self, rhs: FieldElement<F>) {
        self.value = F::add(&self.value, &rhs.value);
    }
}
impl<F: IsField> SubAssign<FieldElement<F>> for FieldElement<F> {
    fn sub_assign(&mut self, rhs: FieldElement<F>) {
        self.value = F::sub(&self.value, &rhs.value);
    }
}
impl<F: IsField> MulAssign<FieldElement<F>> for FieldElement<F> {
    fn mul_assign(&mut self, rhs: FieldElement<F>) {
        self.value = F::mul(&self.value, &rhs.value);
    }
}
impl<F: IsField> MulAssign<&FieldElement<F>> for FieldElement<F> {
    fn mul_assign(&mut self, rhs: &FieldElement<F>) {
        self.value = F::mul(&self.value, &rhs.value);
    }
}
impl<F: IsField> Neg for &FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        FieldElement { value: F::neg(&self.value) }
    }
}
impl<F: IsField> Neg for FieldElement<F> {
    type Output = FieldElement<F>;
    fn neg(self) -> FieldElement<F> {
        -&self
    }
}
impl<F: IsField> Sum for FieldElement<F> {
    fn sum<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::zero(), |a, b| a + b)
    }
}
impl<F: IsField> core::iter::Product for FieldElement<F> {
    fn product<I: Iterator<Item = Self>>(iter: I) -> Self {
        iter.fold(Self::one(), |a, b| a * b)
    }
}
impl<F> crate::traits::Serializable for FieldElement<F>
where
    F: IsField,
    FieldElement<F>: crate::traits::ByteConversion,
{
    fn serialize(&self) -> Vec<u8> {
        crate::traits::ByteConversion::to_bytes_be(self)
    }
}
#[allow(dead_code)]
type _E = ByteConversionError;
