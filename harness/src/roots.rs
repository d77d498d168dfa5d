//! Roots of small polynomials over a prime field (coefficients from the constant one on).

use crate::gen::rng;
use ark_ff::{BigInteger, Field, PrimeField};

type Poly<F> = Vec<F>;

fn trim<F: Field>(p: &mut Poly<F>) {
    while p.last().map_or(false, |x| x.is_zero()) {
        p.pop();
    }
}

fn divrem<F: Field>(a: &[F], m: &[F]) -> (Poly<F>, Poly<F>) {
    let mut r = a.to_vec();
    trim(&mut r);
    let d = m.len();
    let lead = m[d - 1].inverse().unwrap();
    let mut q = vec![F::zero(); r.len().saturating_sub(d - 1)];
    while r.len() >= d {
        let f = r[r.len() - 1] * lead;
        let s = r.len() - d;
        q[s] = f;
        for (i, x) in m.iter().enumerate() {
            r[s + i] -= f * x;
        }
        trim(&mut r);
    }
    (q, r)
}

fn mulmod<F: Field>(a: &[F], b: &[F], m: &[F]) -> Poly<F> {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut p = vec![F::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            p[i + j] += *x * y;
        }
    }
    divrem(&p, m).1
}

fn powmod<F: PrimeField>(a: &[F], e: &F::BigInt, m: &[F]) -> Poly<F> {
    let mut r = divrem(&[F::one()], m).1;
    for b in e.to_bits_be() {
        r = mulmod(&r, &r, m);
        if b {
            r = mulmod(&r, a, m);
        }
    }
    r
}

fn gcd<F: Field>(a: &[F], b: &[F]) -> Poly<F> {
    let (mut a, mut b) = (a.to_vec(), b.to_vec());
    trim(&mut a);
    trim(&mut b);
    while !b.is_empty() {
        let r = divrem(&a, &b).1;
        a = b;
        b = r;
    }
    a
}

/// A root, if there is one
pub fn root<F: PrimeField>(p: &[F], seed: u64) -> Option<F> {
    let mut p = p.to_vec();
    trim(&mut p);
    if p.len() < 2 {
        return None;
    }
    // product of the linear factors
    let mut xp = if p.len() == 2 { vec![] } else { powmod(&[F::zero(), F::one()], &F::MODULUS, &p) };
    if p.len() > 2 {
        xp.resize(xp.len().max(2), F::zero());
        xp[1] -= F::one();
        p = gcd(&p, &xp);
    }
    let mut r = rng(seed);
    let mut half = F::MODULUS_MINUS_ONE_DIV_TWO;
    for _ in 0..200 {
        if p.len() < 2 {
            return None;
        }
        if p.len() == 2 {
            return Some(-p[0] * p[1].inverse()?);
        }
        let s = F::rand(&mut r);
        let mut h = powmod(&[s, F::one()], &half, &p);
        h.resize(h.len().max(1), F::zero());
        h[0] -= F::one();
        let g = gcd(&p, &h);
        if g.len() >= 2 && g.len() < p.len() {
            p = g;
        }
        half = F::MODULUS_MINUS_ONE_DIV_TWO;
    }
    None
}

/// A scalar whose powers fold to `target` under the challenges (first round first), for up to
/// four rounds.
pub fn scalar_for<F: PrimeField>(ch: &[F], target: &F, seed: u64) -> Option<F> {
    let mut p = vec![F::one()];
    for (i, c) in ch.iter().rev().enumerate() {
        // times 1 + y^(2^i) / c
        let mut q = p.clone();
        q.resize(p.len() + (1 << i), F::zero());
        for (j, x) in p.iter().enumerate() {
            q[j + (1 << i)] += *x * c.inverse()?;
        }
        p = q;
    }
    p[0] -= target;
    if p.len() > 16 {
        return None;
    }
    root(&p, seed)
}
