use crate::field::element::FieldElement;
use crate::field::traits::IsField;
use core::ops::{Add, Mul, Neg, Sub};

/// Univariate polynomial: coefficients in ascending order.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Polynomial<FE> {
    pub coefficients: Vec<FE>,
}

#[derive(Debug)]
pub enum InterpolateError {
    UnequalLengths(usize, usize),
    NonUniqueXs,
}

impl<F: IsField> Polynomial<FieldElement<F>> {
    /// Leading (highest order) zeros are removed.
    pub fn new(coefficients: &[FieldElement<F>]) -> Self {
        let zero = FieldElement::zero();
        let mut n = coefficients.len();
        while n > 0 && coefficients[n - 1] == zero {
            n -= 1;
        }
        Polynomial { coefficients: coefficients[..n].to_vec() }
    }
    pub fn new_monomial(coefficient: FieldElement<F>, degree: usize) -> Self {
        let mut coefficients = vec![FieldElement::zero(); degree];
        coefficients.push(coefficient);
        Self::new(&coefficients)
    }
    pub fn zero() -> Self {
        Self::new(&[])
    }
    pub fn interpolate(
        xs: &[FieldElement<F>],
        ys: &[FieldElement<F>],
    ) -> Result<Self, InterpolateError> {
        if xs.len() != ys.len() {
            return Err(InterpolateError::UnequalLengths(xs.len(), ys.len()));
        }
        let mut result = Self::zero();
        for i in 0..xs.len() {
            let mut num = Self::new(&[ys[i].clone()]);
            let mut den = FieldElement::<F>::one();
            for j in 0..xs.len() {
                if i != j {
                    if xs[i] == xs[j] {
                        return Err(InterpolateError::NonUniqueXs);
                    }
                    num = num * Self::new(&[-&xs[j], FieldElement::one()]);
                    den = den * (&xs[i] - &xs[j]);
                }
            }
            result = result + num * den.inv();
        }
        Ok(result)
    }
    pub fn evaluate(&self, x: &FieldElement<F>) -> FieldElement<F> {
        self.coefficients
            .iter()
            .rev()
            .fold(FieldElement::zero(), |acc, coeff| coeff + acc * x)
    }
    pub fn evaluate_slice(&self, input: &[FieldElement<F>]) -> Vec<FieldElement<F>> {
        input.iter().map(|x| self.evaluate(x)).collect()
    }
    pub fn degree(&self) -> usize {
        if self.coefficients.is_empty() { 0 } else { self.coefficients.len() - 1 }
    }
    pub fn leading_coefficient(&self) -> FieldElement<F> {
        self.coefficients.last().cloned().unwrap_or_else(FieldElement::zero)
    }
    pub fn coefficients(&self) -> &[FieldElement<F>] {
        &self.coefficients
    }
    pub fn coeff_len(&self) -> usize {
        self.coefficients().len()
    }
    pub fn differentiate(&self) -> Self {
        let d: Vec<_> = self
            .coefficients
            .iter()
            .enumerate()
            .skip(1)
            .map(|(i, c)| c * FieldElement::<F>::from(i as u64))
            .collect();
        Self::new(&d)
    }
    /// Computes quotient with `x - b` in place.
    pub fn ruffini_division_inplace(&mut self, b: &FieldElement<F>) {
        let mut c = FieldElement::zero();
        for coeff in self.coefficients.iter_mut().rev() {
            *coeff = &*coeff + b * &c;
            core::mem::swap(coeff, &mut c);
        }
        self.coefficients.pop();
    }
    pub fn ruffini_division(&self, b: &FieldElement<F>) -> Self {
        let mut p = self.clone();
        p.ruffini_division_inplace(b);
        Self::new(&p.coefficients)
    }
    pub fn long_division_with_remainder(self, dividend: &Self) -> (Self, Self) {
        let divisor = Self::new(&dividend.coefficients);
        let mut n = Self::new(&self.coefficients);
        if divisor.coefficients.is_empty() {
            panic!("polynomial division by zero");
        }
        if n.coeff_len() < divisor.coeff_len() {
            return (Self::zero(), n);
        }
        let mut q = vec![FieldElement::zero(); n.coeff_len() - divisor.coeff_len() + 1];
        let inv = divisor.leading_coefficient().inv();
        while !n.coefficients.is_empty() && n.coeff_len() >= divisor.coeff_len() {
            let shift = n.coeff_len() - divisor.coeff_len();
            let c = n.leading_coefficient() * &inv;
            q[shift] = c.clone();
            for (i, d) in divisor.coefficients.iter().enumerate() {
                n.coefficients[shift + i] = &n.coefficients[shift + i] - &(&c * d);
            }
            n = Self::new(&n.coefficients);
        }
        (Self::new(&q), n)
    }
    pub fn div_with_ref(self, dividend: &Self) -> Self {
        self.long_division_with_remainder(dividend).0
    }
    pub fn mul_with_ref(&self, factor: &Self) -> Self {
        if self.coefficients.is_empty() || factor.coefficients.is_empty() {
            return Self::zero();
        }
        let mut c =
            vec![FieldElement::zero(); self.coefficients.len() + factor.coefficients.len() - 1];
        for (i, a) in self.coefficients.iter().enumerate() {
            for (j, b) in factor.coefficients.iter().enumerate() {
                c[i + j] += a * b;
            }
        }
        Self::new(&c)
    }
    pub fn scale(&self, factor: &FieldElement<F>) -> Self {
        let mut power = FieldElement::<F>::one();
        let coefficients = self
            .coefficients
            .iter()
            .map(|c| {
                let r = c * &power;
                power = &power * factor;
                r
            })
            .collect();
        Self { coefficients }
    }
    pub fn scale_coeffs(&self, factor: &FieldElement<F>) -> Self {
        Self { coefficients: self.coefficients.iter().map(|c| c * factor).collect() }
    }
    /// Returns a vector of polynomials [p₀, p₁, ..., p_{d-1}] with p(x) = Σ xⁱ pᵢ(x^d)
    pub fn break_in_parts(&self, number_of_parts: usize) -> Vec<Self> {
        (0..number_of_parts)
            .map(|i| {
                Self::new(
                    &self
                        .coefficients
                        .iter()
                        .skip(i)
                        .step_by(number_of_parts)
                        .cloned()
                        .collect::<Vec<_>>(),
                )
            })
            .collect()
    }
    /// For the given polynomial, returns a tuple `(even, odd)` of polynomials
    /// with the even and odd coefficients respectively.
    /// Note that `even` and `odd` ARE NOT actually even/odd polynomials themselves.
    ///
    /// Example: if poly = 3 X^3 + X^2 + 2X + 1, then
    /// `poly.even_odd_decomposition = (even, odd)` with
    /// `even` = X + 1 and `odd` = 3X + 1.
    pub fn even_odd_decomposition(&self) -> (Self, Self) {
        let coef = self.coefficients();
        let even_coef: Vec<_> = coef.iter().step_by(2).cloned().collect();
        let odd_coef: Vec<_> = coef.iter().skip(1).step_by(2).cloned().collect();
        Polynomial::pad_with_zero_coefficients(
            &Polynomial::new(&even_coef),
            &Polynomial::new(&odd_coef),
        )
    }
    /// Pads polynomial representations with minimum number of zeros to match lengths.
    pub fn pad_with_zero_coefficients(pa: &Self, pb: &Self) -> (Self, Self) {
        let n = pa.coefficients.len().max(pb.coefficients.len());
        let pad = |p: &Self| {
            let mut c = p.coefficients.clone();
            c.resize(n, FieldElement::zero());
            Polynomial { coefficients: c }
        };
        (pad(pa), pad(pb))
    }
}

impl<F: IsField> Add<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn add(self, a: &Polynomial<FieldElement<F>>) -> Self::Output {
        let (pa, pb) = Polynomial::pad_with_zero_coefficients(self, a);
        let c: Vec<_> = pa.coefficients.iter().zip(&pb.coefficients).map(|(x, y)| x + y).collect();
        Polynomial::new(&c)
    }
}
impl<F: IsField> Sub<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn sub(self, a: &Polynomial<FieldElement<F>>) -> Self::Output {
        self + (-a)
    }
}
impl<F: IsField> Mul<&Polynomial<FieldElement<F>>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn mul(self, a: &Polynomial<FieldElement<F>>) -> Self::Output {
        self.mul_with_ref(a)
    }
}
impl<F: IsField> Neg for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        Polynomial { coefficients: self.coefficients.iter().map(|x| -x).collect() }
    }
}
impl<F: IsField> Neg for Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn neg(self) -> Self::Output {
        -&self
    }
}

// scalar operations
impl<F: IsField> Add<&FieldElement<F>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn add(self, e: &FieldElement<F>) -> Self::Output {
        self + &Polynomial::new(core::slice::from_ref(e))
    }
}
impl<F: IsField> Sub<&FieldElement<F>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn sub(self, e: &FieldElement<F>) -> Self::Output {
        self + &Polynomial::new(&[-e])
    }
}
impl<F: IsField> Mul<&FieldElement<F>> for &Polynomial<FieldElement<F>> {
    type Output = Polynomial<FieldElement<F>>;
    fn mul(self, e: &FieldElement<F>) -> Self::Output {
        Polynomial::new(&self.coefficients.iter().map(|c| c * e).collect::<Vec<_>>())
    }
}
impl<F: IsField> Add<&Polynomial<FieldElement<F>>> for &FieldElement<F> {
    type Output = Polynomial<FieldElement<F>>;
    fn add(self, p: &Polynomial<FieldElement<F>>) -> Self::Output {
        p + self
    }
}
impl<F: IsField> Sub<&Polynomial<FieldElement<F>>> for &FieldElement<F> {
    type Output = Polynomial<FieldElement<F>>;
    fn sub(self, p: &Polynomial<FieldElement<F>>) -> Self::Output {
        &-p + self
    }
}
impl<F: IsField> Mul<&Polynomial<FieldElement<F>>> for &FieldElement<F> {
    type Output = Polynomial<FieldElement<F>>;
    fn mul(self, p: &Polynomial<FieldElement<F>>) -> Self::Output {
        p * self
    }
}

macro_rules! by_value {
    ($tr:ident, $f:ident, $l:ty, $r:ty) => {
        impl<F: IsField> $tr<$r> for $l {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: $r) -> Self::Output { (&self).$f(&rhs) }
        }
        impl<F: IsField> $tr<&$r> for $l {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: &$r) -> Self::Output { (&self).$f(rhs) }
        }
        impl<F: IsField> $tr<$r> for &$l {
            type Output = Polynomial<FieldElement<F>>;
            fn $f(self, rhs: $r) -> Self::Output { self.$f(&rhs) }
        }
    };
}
by_value!(Add, add, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>);
by_value!(Sub, sub, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>);
by_value!(Mul, mul, Polynomial<FieldElement<F>>, Polynomial<FieldElement<F>>);
by_value!(Add, add, Polynomial<FieldElement<F>>, FieldElement<F>);
by_value!(Sub, sub, Polynomial<FieldElement<F>>, FieldElement<F>);
by_value!(Mul, mul, Polynomial<FieldElement<F>>, FieldElement<F>);
by_value!(Add, add, FieldElement<F>, Polynomial<FieldElement<F>>);
by_value!(Sub, sub, FieldElement<F>, Polynomial<FieldElement<F>>);
by_value!(Mul, mul, FieldElement<F>, Polynomial<FieldElement<F>>);
