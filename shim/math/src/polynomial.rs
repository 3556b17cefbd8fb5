use crate::field::element::FieldElement;
use crate::field::traits::IsField;
use core::ops::{Add, Div, Mul, Neg, Sub};

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

#[derive(Debug)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    /// Trailing zero coefficients are removed.
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let mut n = coefficients.len();
        while n > 0 && coefficients[n - 1].is_surely_zero() {
            n -= 1;
        }
        Polynomial { coefficients: coefficients[..n].to_vec() }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut c = vec![FieldElement::zero(); degree];
        c.push(coefficient);
        Self::new(&c)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn interpolate(xs: &[FieldElement<F>], ys: &[FieldElement<F>]) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        let mut result = Self::zero();
        for i in 0..xs.len() {
            let mut num = Polynomial::new_monomial(FieldElement::one(), 0);
            let mut den = FieldElement::one();
            for j in 0..xs.len() {
                if i != j {
                    num = num * Polynomial::new(&[-&xs[j], FieldElement::one()]);
                    den = den * (&xs[i] - &xs[j]);
                }
            }
            if den.is_surely_zero() {
                return Err(InterpolateError::NonUniqueXs);
            }
            result = result + num * (&ys[i] * den.inv());
        }
        Ok(result)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients.iter().rev().fold(FieldElement::zero(), |acc, c| acc * x + c)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        if self.coefficients.is_empty() { 0 } else { self.coefficients.len() - 1 }
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or_else(FieldElement::zero)
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients.len()
    }
    pub fn pad_with_zero_coefficients_to_length(pa: &mut Self, n: usize) {
        pa.coefficients.resize(n, FieldElement::zero());
    }
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let n = core::cmp::max(pa.coefficients.len(), pb.coefficients.len());
        let (mut a, mut b) = (pa.clone(), pb.clone());
        a.coefficients.resize(n, FieldElement::zero());
        b.coefficients.resize(n, FieldElement::zero());
        (a, b)
    }
    /// Quotient of the division by (x - b), in place.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            core::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut p = self.clone();
        p.ruffini_division_inplace(b);
        Self::new(&p.coefficients)
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        let mut n = self;
        let d = dividend;
        if d.coefficients.len() > n.coefficients.len() {
            return (Polynomial::zero(), n);
        }
        let mut q = vec![FieldElement::zero(); n.coefficients.len() - d.coefficients.len() + 1];
        let lead_inv = d.leading_coefficient().inv();
        while n.coefficients.len() >= d.coefficients.len() && !n.coefficients.is_empty() {
            let k = n.coefficients.len() - d.coefficients.len();
            let c = n.leading_coefficient() * &lead_inv;
            for (i, dc) in d.coefficients.iter().enumerate() {
                n.coefficients[k + i] = &n.coefficients[k + i] - &c * dc;
            }
            q[k] = c;
            n.coefficients.pop();
        }
        (Polynomial::new(&q), Polynomial::new(&n.coefficients))
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut x = FieldElement::one();
        let mut c = Vec::with_capacity(self.coefficients.len());
        for a in self.coefficients.iter() {
            c.push(a * &x);
            x = &x * factor;
        }
        Self { coefficients: c }
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        Self { coefficients: self.coefficients.iter().map(|c| c * factor).collect() }
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Self::zero();
        }
        let mut c = vec![FieldElement::zero(); self.degree() + factor.degree() + 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] = &c[i + j] + a * b;
            }
        }
        Self::new(&c)
    }
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let even: Vec<_> = self.coefficients.iter().step_by(2).cloned().collect();
        let odd: Vec<_> = self.coefficients.iter().skip(1).step_by(2).cloned().collect();
        let (even, odd) = Self::pad_with_zero_coefficients(&Self::new(&even), &Self::new(&odd));
        (even, odd)
    }
    pub fn break_in_parts(&self, number_of_parts: usize) -> Vec<Self> {
        (0..number_of_parts)
            .map(|i| Self::new(&self.coefficients.iter().skip(i).step_by(number_of_parts).cloned().collect::<Vec<_>>()))
            .collect()
    }
    fn add_ref(&self, o: &Self) -> Self {
        let (a, b) = Self::pad_with_zero_coefficients(self, o);
        Self::new(&a.coefficients.iter().zip(b.coefficients.iter()).map(|(x, y)| x + y).collect::<Vec<_>>())
    }
    fn sub_ref(&self, o: &Self) -> Self {
        let (a, b) = Self::pad_with_zero_coefficients(self, o);
        Self::new(&a.coefficients.iter().zip(b.coefficients.iter()).map(|(x, y)| x - y).collect::<Vec<_>>())
    }
    fn mul_fe(&self, m: &FieldElement<F>) -> Self {
        Self::new(&self.coefficients.iter().map(|c| c * m).collect::<Vec<_>>())
    }
    fn constant(c: &FieldElement<F>) -> Self {
        Self::new(core::slice::from_ref(c))
    }
}
pub fn pad_with_zero_coefficients<F: IsField>(
    pa: &Polynomial<FieldElement<F>>,
    pb: &Polynomial<FieldElement<F>>,
) -> (Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>) {
    Polynomial::pad_with_zero_coefficients(pa, pb)
}
pub fn compose<F: IsField>(
    p: &Polynomial<FieldElement<F>>,
    q: &Polynomial<FieldElement<F>>,
) -> Polynomial<FieldElement<F>> {
    p.coefficients.iter().rev().fold(Polynomial::zero(), |acc, c| acc * q + Polynomial::constant(c))
}

macro_rules! refs {
    ($tr:ident, $m:ident, $l:ty, $r:ty, |$a:ident, $b:ident| $e:expr) => {
        impl<F: IsField> $tr<&$r> for &$l {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &$r) -> Self::Output { let ($a, $b) = (self, o); $e }
        }
        impl<F: IsField> $tr<$r> for &$l {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: $r) -> Self::Output { let ($a, $b) = (self, &o); $e }
        }
        impl<F: IsField> $tr<&$r> for $l {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: &$r) -> Self::Output { let ($a, $b) = (&self, o); $e }
        }
        impl<F: IsField> $tr<$r> for $l {
            type Output = Polynomial<FieldElement<F>>;
            fn $m(self, o: $r) -> Self::Output { let ($a, $b) = (&self, &o); $e }
        }
    };
}
type P<F> = Polynomial<FieldElement<F>>;
refs!(Add, add, P<F>, P<F>, |a, b| a.add_ref(b));
refs!(Sub, sub, P<F>, P<F>, |a, b| a.sub_ref(b));
refs!(Mul, mul, P<F>, P<F>, |a, b| a.mul_with_ref(b));
refs!(Add, add, P<F>, FieldElement<F>, |a, b| a.add_ref(&Polynomial::constant(b)));
refs!(Sub, sub, P<F>, FieldElement<F>, |a, b| a.sub_ref(&Polynomial::constant(b)));
refs!(Mul, mul, P<F>, FieldElement<F>, |a, b| a.mul_fe(b));
refs!(Add, add, FieldElement<F>, P<F>, |a, b| b.add_ref(&Polynomial::constant(a)));
refs!(Sub, sub, FieldElement<F>, P<F>, |a, b| Polynomial::constant(a).sub_ref(b));
refs!(Mul, mul, FieldElement<F>, P<F>, |a, b| b.mul_fe(a));
impl<F: IsField> Div<P<F>> for P<F> {
    type Output = P<F>;
    fn div(self, o: P<F>) -> P<F> { self.div_with_ref(&o) }
}
impl<F: IsField> Neg for P<F> {
    type Output = P<F>;
    fn neg(self) -> P<F> { Polynomial::new(&self.coefficients.iter().map(|c| -c).collect::<Vec<_>>()) }
}
impl<F: IsField> Neg for &P<F> {
    type Output = P<F>;
    fn neg(self) -> P<F> { Polynomial::new(&self.coefficients.iter().map(|c| -c).collect::<Vec<_>>()) }
}
