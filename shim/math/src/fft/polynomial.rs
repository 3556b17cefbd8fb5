use super::cpu::roots_of_unity::get_powers_of_primitive_root_coset;
use super::errors::FFTError;
use crate::field::{element::FieldElement, traits::IsFFTField};
use crate::polynomial::Polynomial;

pub trait FFTPoly<F: IsFFTField> {
    fn evaluate_fft(&self, blowup_factor: usize, domain_size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError>;
    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Polynomial<FieldElement<F>>, FFTError>;
    fn interpolate_offset_fft(
        fft_evals: &[FieldElement<F>],
        offset: &FieldElement<F>,
    ) -> Result<Polynomial<FieldElement<F>>, FFTError>;
}

fn ntt<F: IsFFTField>(c: &[FieldElement<F>], tw: &[FieldElement<F>], stride: usize) -> Vec<FieldElement<F>> {
    let n = c.len();
    if n == 1 {
        return c.to_vec();
    }
    let e: Vec<_> = c.iter().step_by(2).cloned().collect();
    let o: Vec<_> = c.iter().skip(1).step_by(2).cloned().collect();
    let e = ntt(&e, tw, stride * 2);
    let o = ntt(&o, tw, stride * 2);
    let mut r = vec![FieldElement::zero(); n];
    for i in 0..n / 2 {
        let t = &o[i] * &tw[i * stride];
        r[i] = &e[i] + &t;
        r[i + n / 2] = &e[i] - &t;
    }
    r
}

pub fn evaluate_fft_cpu<F: IsFFTField>(coeffs: &[FieldElement<F>]) -> Result<Vec<FieldElement<F>>, FFTError> {
    if !coeffs.len().is_power_of_two() {
        return Err(FFTError::InputError(coeffs.len()));
    }
    let order = coeffs.len().trailing_zeros() as u64;
    let tw = get_powers_of_primitive_root_coset(order, coeffs.len(), &FieldElement::one())?;
    Ok(ntt(coeffs, &tw, 1))
}

impl<F: IsFFTField> FFTPoly<F> for Polynomial<FieldElement<F>> {
    fn evaluate_fft(&self, blowup_factor: usize, domain_size: Option<usize>) -> Result<Vec<FieldElement<F>>, FFTError> {
        let domain_size = domain_size.unwrap_or(0);
        let len = core::cmp::max(self.coeff_len(), domain_size).next_power_of_two() * blowup_factor;
        if self.coefficients().is_empty() {
            return Ok(vec![FieldElement::zero(); len]);
        }
        let mut coeffs = self.coefficients().to_vec();
        coeffs.resize(len, FieldElement::zero());
        evaluate_fft_cpu(&coeffs)
    }
    fn evaluate_offset_fft(
        &self,
        blowup_factor: usize,
        domain_size: Option<usize>,
        offset: &FieldElement<F>,
    ) -> Result<Vec<FieldElement<F>>, FFTError> {
        self.scale(offset).evaluate_fft(blowup_factor, domain_size)
    }
    fn interpolate_fft(fft_evals: &[FieldElement<F>]) -> Result<Self, FFTError> {
        let n = fft_evals.len();
        if !n.is_power_of_two() {
            return Err(FFTError::InputError(n));
        }
        let order = n.trailing_zeros() as u64;
        let inv_root = F::get_primitive_root_of_unity(order)?.inv();
        let mut tw = Vec::with_capacity(n);
        let mut x = FieldElement::<F>::one();
        for _ in 0..n {
            tw.push(x.clone());
            x = &x * &inv_root;
        }
        let scale = FieldElement::<F>::from(n as u64).inv();
        let c: Vec<_> = ntt(fft_evals, &tw, 1).into_iter().map(|v| v * &scale).collect();
        Ok(Polynomial::new(&c))
    }
    fn interpolate_offset_fft(fft_evals: &[FieldElement<F>], offset: &FieldElement<F>) -> Result<Self, FFTError> {
        let scaled = Polynomial::interpolate_fft(fft_evals)?;
        Ok(scaled.scale(&offset.inv()))
    }
}
