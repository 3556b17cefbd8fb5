use core::fmt::Debug;
/// Exponent types accepted by `FieldElement::pow`.
pub trait IsUnsignedInteger: Copy + Debug {
    fn exp_is_zero(&self) -> bool;
    fn exp_is_odd(&self) -> bool;
    fn exp_half(&self) -> Self;
}
macro_rules! imp {
    ($($t:ty),*) => {$(impl IsUnsignedInteger for $t {
        #[inline] fn exp_is_zero(&self) -> bool { *self == 0 }
        #[inline] fn exp_is_odd(&self) -> bool { *self & 1 == 1 }
        #[inline] fn exp_half(&self) -> Self { *self >> 1 }
    })*};
}
imp!(u8, u16, u32, u64, u128, usize);
