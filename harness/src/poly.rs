//! Recipes of polynomials and points.

use crate::gen::*;
use ark_ff::PrimeField;
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_std::rand::Rng as _;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Shape {
    Zero,
    Const,
    Full,
    Short(u16),
}

impl Shape {
    pub fn len(&self, max: usize) -> usize {
        match self {
            Shape::Zero => 0,
            Shape::Const => 1.min(max),
            Shape::Full => max,
            Shape::Short(s) => *s as usize % (max + 1),
        }
    }
    pub fn class(&self) -> &'static str {
        match self {
            Shape::Zero => "zero polynomial",
            Shape::Const => "constant polynomial",
            Shape::Full => "full polynomial",
            Shape::Short(_) => "short polynomial",
        }
    }
}

pub fn shape() -> BoxedStrategy<Shape> {
    prop_oneof![
        1 => Just(Shape::Zero),
        1 => Just(Shape::Const),
        3 => Just(Shape::Full),
        4 => any::<u16>().prop_map(Shape::Short),
    ]
    .boxed()
}

/// Coefficients from the constant one on
pub fn eval<F: PrimeField>(p: &[F], z: &F) -> F {
    p.iter().rev().fold(F::zero(), |r, c| r * z + c)
}

/// p * (X - z), within the same number of coefficients
pub fn with_root<F: PrimeField>(p: &[F], z: &F) -> Vec<F> {
    let n = p.len();
    let mut r = vec![F::zero(); n];
    for i in 0..n.saturating_sub(1) {
        r[i + 1] += p[i];
        r[i] -= p[i] * z;
    }
    r
}

pub fn dense<F: PrimeField>(p: &[F]) -> DensePolynomial<F> {
    DensePolynomial::from_coefficients_vec(p.to_vec())
}

/// Rows of a bivariate polynomial: sum of x^i rows[i](y)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Biv {
    pub rows: Shape,
    /// lengths of the rows: all of one shape, or of random lengths
    pub row: Result<Shape, u64>,
    pub coeffs: Vs,
}

impl Biv {
    pub fn f<F: PrimeField>(&self, rows: usize, len: usize) -> Vec<Vec<F>> {
        let all = self.coeffs.f::<F>(rows * len);
        let m = self.rows.len(rows);
        let mut r = rng(*self.row.as_ref().err().unwrap_or(&0));
        (0..m)
            .map(|i| {
                let l = match &self.row {
                    Ok(s) => s.len(len),
                    Err(_) => r.gen_range(0..=len),
                };
                all[i * len..i * len + l].to_vec()
            })
            .collect()
    }
}

pub fn biv() -> BoxedStrategy<Biv> {
    let row = prop_oneof![1 => shape().prop_map(Ok), 1 => any::<u64>().prop_map(Err)];
    (shape(), row, vs()).prop_map(|(rows, row, coeffs)| Biv { rows, row, coeffs }).boxed()
}

pub fn eval2<F: PrimeField>(rows: &[Vec<F>], x: &F, y: &F) -> F {
    rows.iter().rev().fold(F::zero(), |r, p| r * x + eval(p, y))
}

/// sum of x^i rows[i], as a polynomial of `len` coefficients
pub fn partial<F: PrimeField>(rows: &[Vec<F>], x: &F, len: usize) -> Vec<F> {
    let mut r = vec![F::zero(); len];
    let mut c = F::one();
    for p in rows {
        for (a, b) in r.iter_mut().zip(p) {
            *a += c * b;
        }
        c *= x;
    }
    r
}
