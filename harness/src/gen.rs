//! Recipes: small serializable descriptions of scalars, vectors, sizes, from which the actual
//! algebraic values are computed. All randomness is in the recipe.

use ark_ff::PrimeField;
use ark_std::rand::SeedableRng;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

pub type Rng = rand_chacha::ChaCha20Rng;

pub fn rng(seed: u64) -> Rng {
    Rng::seed_from_u64(seed)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sc {
    Zero,
    One,
    NegOne,
    Small(u8),
    /// a power of two
    Two(u16),
    R(u64),
}

impl Sc {
    pub fn f<F: PrimeField>(&self) -> F {
        match self {
            Sc::Zero => F::zero(),
            Sc::One => F::one(),
            Sc::NegOne => -F::one(),
            Sc::Small(k) => F::from(*k as u64),
            Sc::Two(k) => F::from(2u64).pow([*k as u64 % F::MODULUS_BIT_SIZE as u64]),
            Sc::R(s) => F::rand(&mut rng(*s)),
        }
    }
    /// As `f`, but never zero.
    pub fn nz<F: PrimeField>(&self) -> F {
        let x = self.f::<F>();
        if x.is_zero() {
            F::from(3u64)
        } else {
            x
        }
    }
}

pub fn sc() -> BoxedStrategy<Sc> {
    prop_oneof![
        1 => Just(Sc::Zero),
        1 => Just(Sc::One),
        1 => Just(Sc::NegOne),
        1 => (2u8..).prop_map(Sc::Small),
        1 => prop_oneof![any::<u16>(), (0u16..5).prop_map(|k| 64 * k)].prop_map(Sc::Two),
        6 => any::<u64>().prop_map(Sc::R),
    ]
    .boxed()
}

/// Mostly random scalars
pub fn sc_rand() -> BoxedStrategy<Sc> {
    any::<u64>().prop_map(Sc::R).boxed()
}

/// Random scalars, and often one of those at which shortcuts are taken
pub fn sc_point() -> BoxedStrategy<Sc> {
    prop_oneof![3 => sc_rand(), 1 => Just(Sc::Zero), 1 => Just(Sc::One), 1 => Just(Sc::NegOne), 1 => sc()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Pat {
    Rand(u64),
    Const(Sc),
    Alt(Sc, Sc),
    /// powers of a scalar
    Pow(Sc),
    /// random, second half equal to the first
    Halves(u64),
    /// random, second half the negative of the first
    AntiHalves(u64),
    /// random in the eighths of the vector given by bits, zero elsewhere
    Part(u64, u8),
    /// zero but for one element (the first, the last or any)
    One(u16, Sc),
    /// zero but for the first and the last element
    Ends(Sc, Sc),
}

/// A vector: a pattern and a few overridden positions.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Vs {
    pub pat: Pat,
    pub over: Vec<(u16, Sc)>,
}

impl Vs {
    pub fn f<F: PrimeField>(&self, n: usize) -> Vec<F> {
        let mut v: Vec<F> = match &self.pat {
            Pat::Rand(s) => {
                let mut r = rng(*s);
                (0..n).map(|_| F::rand(&mut r)).collect()
            }
            Pat::Const(s) => vec![s.f(); n],
            Pat::Alt(s, t) => (0..n).map(|i| if i % 2 == 0 { s.f() } else { t.f() }).collect(),
            Pat::Pow(s) => {
                let b: F = s.f();
                let mut c = F::one();
                (0..n)
                    .map(|_| {
                        let x = c;
                        c *= b;
                        x
                    })
                    .collect()
            }
            Pat::Part(s, bits) => {
                let mut r = rng(*s);
                (0..n).map(|i| if bits >> (i * 8 / n) & 1 == 1 { F::rand(&mut r) } else { F::zero() }).collect()
            }
            Pat::One(i, s) => {
                let mut v = vec![F::zero(); n];
                if n > 0 {
                    v[match i % 4 { 0 => 0, 1 => n - 1, _ => (*i / 4) as usize % n }] = s.nz();
                }
                v
            }
            Pat::Ends(s, t) => {
                let mut v = vec![F::zero(); n];
                if n > 0 {
                    v[0] = s.nz();
                    v[n - 1] = t.nz();
                }
                v
            }
            Pat::Halves(s) | Pat::AntiHalves(s) => {
                let mut r = rng(*s);
                let h = (n + 1) / 2;
                let base: Vec<F> = (0..h).map(|_| F::rand(&mut r)).collect();
                (0..n)
                    .map(|i| {
                        if i < h {
                            base[i]
                        } else if matches!(self.pat, Pat::Halves(_)) {
                            base[i - h]
                        } else {
                            -base[i - h]
                        }
                    })
                    .collect()
            }
        };
        for (i, s) in &self.over {
            if n > 0 {
                let k = *i as usize % n;
                v[k] = s.f();
            }
        }
        v
    }
    pub fn is_random(&self) -> bool {
        matches!(self.pat, Pat::Rand(_)) && self.over.is_empty()
    }
    pub fn class(&self) -> &'static str {
        match (&self.pat, self.over.is_empty()) {
            (Pat::Rand(_), true) => "random",
            (Pat::Rand(_), false) => "random+special",
            (Pat::Const(_), _) => "constant",
            (Pat::Alt(..), _) => "alternating",
            (Pat::Pow(_), _) => "powers",
            (Pat::Part(..), _) => "zero in parts",
            (Pat::One(..), true) => "one non-zero element",
            (Pat::One(..), false) => "few non-zero elements",
            (Pat::Ends(..), _) => "few non-zero elements",
            (Pat::Halves(_), _) | (Pat::AntiHalves(_), _) => "halves",
        }
    }
}

pub fn vs() -> BoxedStrategy<Vs> {
    // halves, quarters, every other quarter, one entry
    let bits = prop_oneof![2 => Just(0x0fu8), 1 => Just(0xf0u8), 1 => Just(0x03u8), 1 => Just(0x33u8), 1 => Just(0xccu8), 1 => Just(0x55u8), 1 => any::<u8>()];
    let pat = prop_oneof![
        6 => any::<u64>().prop_map(Pat::Rand),
        2 => sc().prop_map(Pat::Const),
        1 => (sc(), sc()).prop_map(|(a, b)| Pat::Alt(a, b)),
        1 => sc().prop_map(Pat::Pow),
        1 => any::<u64>().prop_map(Pat::Halves),
        1 => any::<u64>().prop_map(Pat::AntiHalves),
        2 => (any::<u64>(), bits).prop_map(|(s, b)| Pat::Part(s, b)),
    ];
    let sparse = prop_oneof![2 => (any::<u16>(), sc()).prop_map(|(i, s)| Pat::One(i, s)), 1 => (sc(), sc()).prop_map(|(s, t)| Pat::Ends(s, t))];
    prop_oneof![
        6 => (pat, prop::collection::vec((any::<u16>(), sc()), 0..4)).prop_map(|(pat, over)| Vs { pat, over }),
        1 => sparse.prop_map(|pat| Vs { pat, over: vec![] }),
    ]
    .boxed()
}

/// Random vectors without degenerate entries (for soundness oracles).
pub fn vs_rand() -> BoxedStrategy<Vs> {
    any::<u64>().prop_map(|s| Vs { pat: Pat::Rand(s), over: vec![] }).boxed()
}

/// log2 of a size, small ones more often
pub fn logn(lo: u32, hi: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        3 => lo..=hi.min(lo + 3),
        2 => lo..=hi,
    ]
    .boxed()
}

pub fn threads() -> BoxedStrategy<usize> {
    prop_oneof![3 => Just(1usize), 1 => 2usize..=9, 1 => Just(16usize)].boxed()
}

pub fn dot<F: PrimeField>(a: &[F], b: &[F]) -> F {
    assert_eq!(a.len(), b.len());
    a.iter().zip(b).map(|(x, y)| *x * y).sum()
}

pub fn powers<F: PrimeField>(n: usize, b: F) -> Vec<F> {
    let mut c = F::one();
    (0..n)
        .map(|_| {
            let x = c;
            c *= b;
            x
        })
        .collect()
}
