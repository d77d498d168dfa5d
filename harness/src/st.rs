//! Recipes of GIPA-type statements and shared attack recipes.

use crate::gen::*;
use crate::inst::*;
use ark_ff::PrimeField;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct St {
    /// log2 of the length
    pub k: u32,
    pub a: Vs,
    pub b: Vs,
    pub ka: Vs,
    pub kb: Vs,
    pub kt: Sc,
}

impl St {
    pub fn dl<I: Inst>(&self) -> Dl<I::S> {
        self.dl_n::<I>(1 << self.k)
    }
    pub fn dl_n<I: Inst>(&self, n: usize) -> Dl<I::S> {
        Dl::new::<I>(self.a.f(n), self.b.f(n), self.ka.f(n), self.kb.f(n), self.kt.nz())
    }
    pub fn n(&self) -> usize {
        1 << self.k
    }
}

/// Any statement, degenerate values included
pub fn st(lo: u32, hi: u32) -> BoxedStrategy<St> {
    let key = prop_oneof![4 => vs_rand(), 1 => vs()].boxed();
    (logn(lo, hi), vs(), vs(), key.clone(), key, sc())
        .prop_map(|(k, a, b, ka, kb, kt)| St { k, a, b, ka, kb, kt })
        .boxed()
}

/// Statements of random, distinct values
pub fn st_rand(lo: u32, hi: u32) -> BoxedStrategy<St> {
    (logn(lo, hi), vs_rand(), vs_rand(), vs_rand(), vs_rand(), sc_rand())
        .prop_map(|(k, a, b, ka, kb, kt)| St { k, a, b, ka, kb, kt })
        .boxed()
}

/// Non-zero differences: mostly random, sometimes one or minus one
pub fn delta() -> BoxedStrategy<Sc> {
    prop_oneof![1 => Just(Sc::One), 1 => Just(Sc::NegOne), 4 => sc_rand()].boxed()
}

pub fn nclass(n: usize) -> &'static str {
    match n {
        0 => "n=0",
        1 => "n=1",
        2 => "n=2",
        3..=8 => "n=3..8",
        9..=32 => "n=9..32",
        _ => "n>32",
    }
}

/// Position inside a proof
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct At {
    pub round: u16,
    pub side: bool,
    pub slot: u8,
    /// repairs change both messages of the round: by opposite or by equal amounts
    pub both: Option<bool>,
}

impl At {
    /// With the challenge `c` of a round known, change its messages such that the equation of the
    /// slot moves by `e`
    pub fn repair<F: PrimeField>(&self, s: &mut [[F; 3]; 2], slot: usize, c: &F, e: &F) {
        let ci = c.inverse().unwrap();
        match self.both {
            None if self.side => s[1][slot] += *e * c,
            None => s[0][slot] += *e * ci,
            Some(opposite) => {
                let d = if opposite { *c - ci } else { *c + ci };
                let x = *e * d.inverse().unwrap_or_default();
                s[0][slot] += x;
                s[1][slot] += if opposite { -x } else { x };
            }
        }
    }
    pub fn round(&self, rounds: usize) -> usize {
        self.round as usize % rounds
    }
    pub fn side(&self) -> usize {
        self.side as usize
    }
    pub fn slot(&self) -> usize {
        self.slot as usize % 3
    }
}

pub fn at() -> BoxedStrategy<At> {
    let both = prop_oneof![3 => Just(None), 1 => any::<bool>().prop_map(Some)];
    (any::<u16>(), any::<bool>(), 0u8..3, both).prop_map(|(round, side, slot, both)| At { round, side, slot, both }).boxed()
}

pub fn add_mask<F: PrimeField>(com: &[F; 3], mask: u8, d: &F) -> [F; 3] {
    let mut c = *com;
    let mut e = *d;
    for i in 0..3 {
        if mask & (1 << i) != 0 {
            c[i] += e;
            e = e.square() + F::from(3u64);
        }
    }
    c
}

/// The difference from a value to another one: to its negative, double, square or inverse, to one
/// or zero, and mostly just `d` (which also decides)
pub fn toward<F: PrimeField>(x: &F, d: &F) -> F {
    let e = match d.into_bigint().as_ref()[0] % 16 {
        0 | 1 => -x.double(),
        2 => *x,
        3 => x.square() - x,
        4 => x.inverse().unwrap_or_default() - x,
        5 => F::one() - x,
        6 => -*x,
        _ => *d,
    };
    if e.is_zero() { *d } else { e }
}

/// A sequence related to one: its negative, double, reverse or rotation, for a fourth of the seeds
pub fn relative<F: PrimeField>(seed: u64, v: &[F]) -> Option<Vec<F>> {
    if seed % 4 != 0 || seed == 0 { return None; }
    let mut q = v.to_vec();
    match seed / 4 % 5 {
        0 | 1 => q.iter_mut().for_each(|x| *x = -*x),
        2 => q.iter_mut().for_each(|x| *x = x.double()),
        3 => q.reverse(),
        _ => q.rotate_left(1 % v.len().max(1)),
    }
    Some(q)
}

/// The factor of `Scaled` attacks: often -1, never one
pub fn factor<F: PrimeField>(d: &F) -> F {
    if d.into_bigint().as_ref()[0] & 1 == 0 || d.is_one() { -F::one() } else { *d }
}

/// `add_mask` with related values
pub fn move_mask<F: PrimeField>(com: &[F; 3], mask: u8, d: &F) -> [F; 3] {
    let mut c = *com;
    let mut e = *d;
    for i in 0..3 {
        if mask & (1 << i) != 0 {
            c[i] += toward(&c[i], &e);
            // the same relation for all of them, or others
            if d.into_bigint().as_ref()[0] & 16 == 0 { e = e.square() + F::from(3u64); }
        }
    }
    c
}

/// Change a value to one that is related to it, or by the difference given
#[macro_export]
macro_rules! change {
    ($x:expr, $d:expr) => {{
        let e = $crate::st::toward(&$x, &$d);
        $x += e;
    }};
}

/// Errors for two different ones of `k` equations, equal or opposite
pub fn two_errors<F: PrimeField>(k: usize, i: u8, j: u8, same: bool, d: &F) -> Vec<F> {
    let mut e = vec![F::zero(); k];
    let i = i as usize % k;
    let j = (i + 1 + j as usize % (k - 1)) % k;
    e[i] = *d;
    e[j] = if same { *d } else { -*d };
    e
}
