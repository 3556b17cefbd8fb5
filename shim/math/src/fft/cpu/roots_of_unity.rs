use crate::fft::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};

/// `count` powers `offset * w^i` of the primitive root of order 2^n.
pub fn get_powers_of_primitive_root_coset<F: IsFFTField>(
    n: u64,
    count: usize,
    offset: &FieldElement<F>,
) -> Result<Vec<FieldElement<F>>, FFTError> {
    let root = F::get_primitive_root_of_unity(n)?;
    let mut v = Vec::with_capacity(count);
    let mut x = offset.clone();
    for _ in 0..count {
        v.push(x.clone());
        x = &x * &root;
    }
    Ok(v)
}
