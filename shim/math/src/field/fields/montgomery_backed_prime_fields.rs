use crate::errors::{ByteConversionError, CreationError};
use crate::field::element::FieldElement;
use crate::field::traits::{IsField, IsPrimeField};
use crate::traits::ByteConversion;
use crate::unsigned_integer::element::UnsignedInteger;
use core::fmt::Debug;
use core::marker::PhantomData;

pub type U256PrimeField<M> = MontgomeryBackendPrimeField<M, 4>;

pub trait IsModulus<U>: Debug {
    const MODULUS: U;
}

/// The representation is the canonical one (not Montgomery form).
#[derive(Clone, Debug, Hash, Copy)]
pub struct MontgomeryBackendPrimeField<C, const NUM_LIMBS: usize> {
    phantom: PhantomData<C>,
}

type U<const N: usize> = UnsignedInteger<N>;

/// Multiplication specialised to p = 2^251 + 17*2^192 + 1.
pub mod stark {
    use super::*;
    pub const P: [u64; 4] = [1, 0, 0, 0x0800_0000_0000_0011]; // little endian
    pub const MODULUS: U<4> = U::<4>::from_limbs([P[3], P[2], P[1], P[0]]);
    const fn geq(a: &[u64; 4]) -> bool {
        let mut i = 4;
        while i > 0 {
            i -= 1;
            if a[i] != P[i] {
                return a[i] > P[i];
            }
        }
        true
    }
    const fn subp(a: &[u64; 4]) -> [u64; 4] {
        let mut r = [0u64; 4];
        let mut b = false;
        let mut i = 0;
        while i < 4 {
            let (x, c1) = a[i].overflowing_sub(P[i]);
            let (y, c2) = x.overflowing_sub(b as u64);
            r[i] = y;
            b = c1 | c2;
            i += 1;
        }
        r
    }
    const fn dbl(a: &[u64; 4]) -> [u64; 4] {
        let r = [a[0] << 1, a[1] << 1 | a[0] >> 63, a[2] << 1 | a[1] >> 63, a[3] << 1 | a[2] >> 63];
        if geq(&r) { subp(&r) } else { r }
    }
    const R2: [u64; 4] = {
        let mut r = [1u64, 0, 0, 0];
        let mut i = 0;
        while i < 512 {
            r = dbl(&r);
            i += 1;
        }
        r
    };
    /// a*b/2^256 mod p  (-p^-1 mod 2^64 = 2^64-1 because p = 1 mod 2^64)
    const fn mont(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
        let mut t = [0u64; 6];
        let mut i = 0;
        while i < 4 {
            let mut c: u128 = 0;
            let mut j = 0;
            while j < 4 {
                let s = t[j] as u128 + (a[j] as u128) * (b[i] as u128) + c;
                t[j] = s as u64;
                c = s >> 64;
                j += 1;
            }
            let s = t[4] as u128 + c;
            t[4] = s as u64;
            t[5] = (s >> 64) as u64;
            let m = t[0].wrapping_neg();
            let s = t[0] as u128 + (m as u128) * (P[0] as u128);
            c = s >> 64;
            j = 1;
            while j < 4 {
                let s = t[j] as u128 + (m as u128) * (P[j] as u128) + c;
                t[j - 1] = s as u64;
                c = s >> 64;
                j += 1;
            }
            let s = t[4] as u128 + c;
            t[3] = s as u64;
            t[4] = t[5] + (s >> 64) as u64;
            t[5] = 0;
            i += 1;
        }
        let r = [t[0], t[1], t[2], t[3]];
        if t[4] != 0 || geq(&r) { subp(&r) } else { r }
    }
    const fn le(a: &U<4>) -> [u64; 4] {
        [a.limbs[3], a.limbs[2], a.limbs[1], a.limbs[0]]
    }
    const fn be(a: [u64; 4]) -> U<4> {
        U::<4>::from_limbs([a[3], a[2], a[1], a[0]])
    }
    /// Under the executor of tools/ll the field operations are single terms: 0 reduce, 1 add, 2 sub, 3 mul, 4 inverse.
    #[cfg(ll)]
    pub fn term(op: u64, a: &U<4>, b: &U<4>) -> U<4> {
        extern "C" {
            fn ll_field(op: u64, out: *mut u64, a: *const u64, b: *const u64);
        }
        let mut r = [0u64; 4];
        unsafe { ll_field(op, r.as_mut_ptr(), a.limbs.as_ptr(), b.limbs.as_ptr()) }
        U::<4>::from_limbs(r)
    }
    pub const fn mul(a: &U<4>, b: &U<4>) -> U<4> {
        be(mont(&mont(&le(a), &le(b)), &R2))
    }
    pub const fn add(a: &U<4>, b: &U<4>) -> U<4> {
        let r = le(&U::<4>::add(a, b).0);
        be(if geq(&r) { subp(&r) } else { r })
    }
    pub const fn sub(a: &U<4>, b: &U<4>) -> U<4> {
        let (r, borrow) = U::<4>::sub(a, b);
        if borrow { U::<4>::add(&r, &MODULUS).0 } else { r }
    }
    pub const fn reduce_const(a: U<4>) -> U<4> {
        // p = 2^251 + 17 2^192 + 1: the quotient is a >> 251 or one less
        let q = a.limbs[0] >> 59;
        let m = U::<4>::from_limbs([q * (MODULUS.limbs[0]), 0, 0, q]);
        let (r, borrow) = U::<4>::sub(&a, &m);
        if borrow { U::<4>::add(&r, &MODULUS).0 } else { r }
    }
    pub const fn pow_const(a: &U<4>, e: &U<4>) -> U<4> {
        let mut acc = U::<4>::from_u64(1);
        let mut i = 0;
        while i < 256 {
            acc = mul(&acc, &acc);
            if (e.limbs[i / 64] >> (63 - (i % 64))) & 1 == 1 {
                acc = mul(&acc, a);
            }
            i += 1;
        }
        acc
    }
    pub fn inv(a: &U<4>) -> U<4> {
        let e = U::<4>::sub(&MODULUS, &U::<4>::from_u64(2)).0;
        pow_const(a, &e)
    }
    // (p-1)/2^192 = 2^59 + 17
    pub const ROOT_192: U<4> = pow_const(&U::<4>::from_u64(3), &U::<4>::from_u64((1 << 59) + 17));
}

impl<C: IsModulus<U<N>> + Clone + Debug, const N: usize> MontgomeryBackendPrimeField<C, N> {
    const IS_STARK: bool = {
        if N != 4 {
            false
        } else {
            C::MODULUS.limbs[0] == stark::P[3]
                && C::MODULUS.limbs[1] == 0
                && C::MODULUS.limbs[2] == 0
                && C::MODULUS.limbs[3] == 1
        }
    };
    #[inline]
    fn to4(a: &U<N>) -> U<4> {
        U::<4>::from_limbs([a.limbs[0], a.limbs[1], a.limbs[2], a.limbs[3]])
    }
    #[inline]
    fn of4(a: U<4>) -> U<N> {
        let mut limbs = [0u64; N];
        limbs[..4].copy_from_slice(&a.limbs);
        U { limbs }
    }
    fn reduce(a: U<N>) -> U<N> {
        if Self::IS_STARK {
            #[cfg(feature = "sym")]
            if crate::sym::is_sym(&Self::to4(&a)) {
                return a;
            }
            #[cfg(ll)]
            return Self::of4(stark::term(0, &Self::to4(&a), &Self::to4(&a)));
            if a < C::MODULUS {
                return a;
            }
            return Self::of4(stark::reduce_const(Self::to4(&a)));
        }
        if a < C::MODULUS {
            return a;
        }
        #[cfg(kani)]
        panic!("an element of a field other than the STARK field is built from a value above its modulus");
        let mut r = U::<N>::default();
        for i in 0..64 * N {
            let bit = (a.limbs[i / 64] >> (63 - i % 64)) & 1;
            r = Self::add_c(&r, &r);
            if bit == 1 {
                r = Self::add_c(&r, &U::from(1u64));
            }
        }
        r
    }
    fn add_c(a: &U<N>, b: &U<N>) -> U<N> {
        let (s, overflow) = U::<N>::add(a, b);
        if overflow || s >= C::MODULUS { U::<N>::sub(&s, &C::MODULUS).0 } else { s }
    }
    fn mul_c(a: &U<N>, b: &U<N>) -> U<N> {
        let mut r = U::<N>::default();
        for i in 0..64 * N {
            r = Self::add_c(&r, &r);
            if (a.limbs[i / 64] >> (63 - i % 64)) & 1 == 1 {
                r = Self::add_c(&r, b);
            }
        }
        r
    }
}

impl<C: IsModulus<U<N>> + Clone + Debug, const N: usize> IsField for MontgomeryBackendPrimeField<C, N> {
    type BaseType = U<N>;

    fn add(a: &U<N>, b: &U<N>) -> U<N> {
        if Self::IS_STARK {
            let (x, y) = (Self::to4(a), Self::to4(b));
            #[cfg(feature = "sym")]
            if crate::sym::is_sym(&x) || crate::sym::is_sym(&y) {
                return Self::of4(crate::sym::add(&x, &y));
            }
            #[cfg(ll)]
            return Self::of4(stark::term(1, &x, &y));
            #[cfg(not(ll))]
            return Self::of4(stark::add(&x, &y));
        }
        Self::add_c(a, b)
    }
    fn sub(a: &U<N>, b: &U<N>) -> U<N> {
        if Self::IS_STARK {
            let (x, y) = (Self::to4(a), Self::to4(b));
            #[cfg(feature = "sym")]
            if crate::sym::is_sym(&x) || crate::sym::is_sym(&y) {
                return Self::of4(crate::sym::sub(&x, &y));
            }
            #[cfg(ll)]
            return Self::of4(stark::term(2, &x, &y));
            #[cfg(not(ll))]
            return Self::of4(stark::sub(&x, &y));
        }
        Self::add_c(a, &Self::neg(b))
    }
    fn mul(a: &U<N>, b: &U<N>) -> U<N> {
        if Self::IS_STARK {
            let (x, y) = (Self::to4(a), Self::to4(b));
            #[cfg(feature = "sym")]
            if crate::sym::is_sym(&x) || crate::sym::is_sym(&y) {
                return Self::of4(crate::sym::mul(&x, &y));
            }
            #[cfg(ll)]
            return Self::of4(stark::term(3, &x, &y));
            #[cfg(not(ll))]
            return Self::of4(stark::mul(&x, &y));
        }
        Self::mul_c(a, b)
    }
    fn neg(a: &U<N>) -> U<N> {
        Self::sub_from_zero(a)
    }
    fn inv(a: &U<N>) -> U<N> {
        if Self::IS_STARK {
            let x = Self::to4(a);
            #[cfg(feature = "sym")]
            if crate::sym::is_sym(&x) {
                return Self::of4(crate::sym::inv(&x));
            }
            if *a == U::<N>::default() {
                panic!("Division by zero error.")
            }
            #[cfg(ll)]
            return Self::of4(stark::term(4, &x, &x));
            #[cfg(not(ll))]
            return Self::of4(stark::inv(&x));
        }
        if *a == U::<N>::default() {
            panic!("Division by zero error.")
        }
        let e = U::<N>::sub(&C::MODULUS, &U::from(2u64)).0;
        Self::pow(a, e)
    }
    fn eq(a: &U<N>, b: &U<N>) -> bool {
        #[cfg(feature = "sym")]
        if Self::IS_STARK {
            let (x, y) = (Self::to4(a), Self::to4(b));
            if crate::sym::is_sym(&x) || crate::sym::is_sym(&y) {
                return crate::sym::eq(&x, &y);
            }
        }
        a == b
    }
    fn zero() -> U<N> {
        U::default()
    }
    fn one() -> U<N> {
        U::from(1u64)
    }
    fn from_u64(x: u64) -> U<N> {
        Self::reduce(U::from(x))
    }
    fn from_base_type(x: U<N>) -> U<N> {
        Self::reduce(x)
    }
    fn is_surely_zero(a: &U<N>) -> bool {
        *a == U::default()
    }
}
impl<C: IsModulus<U<N>> + Clone + Debug, const N: usize> MontgomeryBackendPrimeField<C, N> {
    fn sub_from_zero(a: &U<N>) -> U<N> {
        if Self::IS_STARK {
            return <Self as IsField>::sub(&U::default(), a);
        }
        if *a == U::default() { *a } else { U::<N>::sub(&C::MODULUS, a).0 }
    }
}

impl<C: IsModulus<U<N>> + Clone + Debug, const N: usize> IsPrimeField for MontgomeryBackendPrimeField<C, N> {
    type RepresentativeType = U<N>;
    fn representative(a: &U<N>) -> U<N> {
        #[cfg(feature = "sym")]
        if Self::IS_STARK && crate::sym::is_sym(&Self::to4(a)) {
            return Self::of4(crate::sym::concretize(&Self::to4(a)));
        }
        *a
    }
    fn field_bit_size() -> usize {
        let top = C::MODULUS.limbs[0];
        if top != 0 {
            return N * 64 - top.leading_zeros() as usize;
        }
        let mut n = 0;
        let mut e = C::MODULUS;
        while e != U::default() {
            e = &e >> 1;
            n += 1;
        }
        n
    }
    fn from_hex(hex: &str) -> Result<U<N>, CreationError> {
        Ok(Self::reduce(U::<N>::from_hex(hex)?))
    }
}

impl<C: IsModulus<U<N>> + Clone + Debug, const N: usize> ByteConversion
    for FieldElement<MontgomeryBackendPrimeField<C, N>>
{
    fn to_bytes_be(&self) -> Vec<u8> {
        self.value().to_bytes_be()
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.value().to_bytes_le()
    }
    fn from_bytes_be(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let v = U::<N>::from_bytes_be(bytes)?;
        #[cfg(feature = "sym")]
        let v = crate::sym::untag(v);
        Ok(Self::new(v))
    }
    fn from_bytes_le(bytes: &[u8]) -> Result<Self, ByteConversionError> {
        let v = U::<N>::from_bytes_le(bytes)?;
        #[cfg(feature = "sym")]
        let v = crate::sym::untag(v);
        Ok(Self::new(v))
    }
}
