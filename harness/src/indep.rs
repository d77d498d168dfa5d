//! Keys from setups: known logarithms, relations among keys, and the randomness each one takes.

use crate::curves::*;
use crate::ensure;
use crate::gen::{rng, Rng};
use crate::inst::inv;
use ark_ec::{pairing::Pairing, Group};
use ark_ff::PrimeField;
use ark_std::rand::{Rng as _, RngCore};
use std::collections::HashSet;

type Sf<P> = <P as Pairing>::ScalarField;

/// Groups whose discrete logarithms can be read
pub trait Dlog: CurveEx {
    fn d1(x: &Self::G1) -> Sf<Self>;
    fn d2(x: &Self::G2) -> Sf<Self>;
}
impl Dlog for Big {
    fn d1(x: &Self::G1) -> Sf<Self> {
        x.0 * inv(&Self::G1::generator().0)
    }
    fn d2(x: &Self::G2) -> Sf<Self> {
        x.0 * inv(&Self::G2::generator().0)
    }
}

/// Random keys: no element is a simple combination of others
pub fn independent<F: PrimeField>(what: &str, k: &[F]) -> Result<(), String> {
    let mut seen = HashSet::new();
    for x in k {
        ensure!(!x.is_zero(), "{}: the identity is a key", what);
        ensure!(seen.insert(*x) && !seen.contains(&-*x), "{}: a key is there twice", what);
        ensure!(!x.is_one(), "{}: the generator is a key", what);
    }
    let (mut quo, mut dif, mut sum) = (HashSet::new(), HashSet::new(), HashSet::new());
    for w in k.windows(2) {
        ensure!(quo.insert(w[1] * inv(&w[0])), "{}: three keys are powers of a scalar", what);
        ensure!(dif.insert(w[1] - w[0]), "{}: keys have the same difference", what);
        ensure!(sum.insert(w[1] + w[0]), "{}: keys have the same sum", what);
    }
    // doubles, and sums of consecutive keys
    for i in 0..k.len() {
        let mut s = k[i];
        ensure!(!seen.contains(&s.double()), "{}: a key is the double of another", what);
        for x in k[i + 1..].iter().take(if k.len() > 300 { 8 } else { 64 }) {
            s += x;
            ensure!(!seen.contains(&s) && !seen.contains(&-s), "{}: a key is the sum of others", what);
        }
    }
    if k.len() <= 150 {
        for i in 0..k.len() {
            for j in 0..i {
                ensure!(!seen.contains(&(k[i] + k[j])), "{}: a key is the sum of two others", what);
            }
        }
    }
    Ok(())
}

/// Randomness from a seed, with the lowest bit of one word inverted
pub struct Flip {
    r: Rng,
    words: usize,
    flip: usize,
}

impl Flip {
    pub fn new(seed: u64, flip: usize) -> Self {
        Flip { r: rng(seed), words: 0, flip }
    }
    fn bit(&mut self) -> u8 {
        self.words += 1;
        (self.words - 1 == self.flip) as u8
    }
}

impl RngCore for Flip {
    fn next_u32(&mut self) -> u32 {
        self.r.next_u32() ^ self.bit() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.r.next_u64() ^ self.bit() as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            self.r.fill_bytes(c);
            c[0] ^= self.bit();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// Independent secrets: a word of the randomness has a share in one of them at most, and each has
/// words of its own. (A change of the lowest bit of a word of a sample does not make the sampler
/// reject it, except with negligible probability.)
pub fn own_randomness<F: PrimeField>(what: &str, seed: u64, setup: &dyn Fn(&mut Flip) -> Result<Vec<F>, String>) -> Result<(), String> {
    let mut r = Flip::new(seed, usize::MAX);
    let base = setup(&mut r)?;
    let words = r.words;
    let all = words <= 160;
    let mut pick = rng(!seed);
    let tried: Vec<usize> = if all { (0..words).collect() } else { (0..40).map(|_| pick.gen_range(0..words)).collect() };
    let mut changed = vec![false; base.len()];
    for w in tried {
        let other = setup(&mut Flip::new(seed, w))?;
        ensure!(other.len() == base.len(), "{}: {} and {} secrets of the same setup", what, base.len(), other.len());
        let d: Vec<usize> = (0..base.len()).filter(|i| base[*i] != other[*i]).collect();
        ensure!(d.len() <= 1, "{}: the same word of randomness determines {} secrets of {}", what, d.len(), base.len());
        d.iter().for_each(|i| changed[*i] = true);
    }
    if all {
        if let Some(i) = changed.iter().position(|c| !c) {
            return Err(format!("{}: secret {} of {} does not depend on the randomness", what, i, base.len()));
        }
    }
    Ok(())
}

/// Rank over GF(2) of the differences to the first row
pub fn rank(rows: &[Vec<u64>]) -> usize {
    let mut rows: Vec<Vec<u64>> = rows[1..].iter().map(|r| r.iter().zip(&rows[0]).map(|(x, y)| x ^ y).collect()).collect();
    let (mut rank, bits) = (0, rows[0].len() * 64);
    for b in 0..bits {
        let bit = |r: &Vec<u64>| r[b / 64] >> (b % 64) & 1 == 1;
        let Some(i) = (rank..rows.len()).find(|i| bit(&rows[*i])) else { continue };
        rows.swap(rank, i);
        let pivot = rows[rank].clone();
        for r in rows[rank + 1..].iter_mut() {
            if bit(r) {
                r.iter_mut().zip(&pivot).for_each(|(x, y)| *x ^= y);
            }
        }
        rank += 1;
    }
    rank
}

/// Rank of a matrix over a field
fn field_rank<F: PrimeField>(mut rows: Vec<Vec<F>>) -> usize {
    let mut rank = 0;
    for c in 0..rows[0].len() {
        let Some(i) = (rank..rows.len()).find(|i| !rows[*i][c].is_zero()) else { continue };
        rows.swap(rank, i);
        let pivot = rows[rank].clone();
        let d = inv(&pivot[c]);
        for r in rows[rank + 1..].iter_mut() {
            let k = r[c] * d;
            r.iter_mut().zip(&pivot).skip(c).for_each(|(x, y)| *x -= k * y);
        }
        rank += 1;
    }
    rank
}

/// No polynomial of small degree, with the same coefficients in all samples, relates the values of
/// a sample: their monomials are linearly independent over the samples
pub fn unrelated<F: PrimeField>(what: &str, samples: &[Vec<F>]) -> Result<(), String> {
    let k = samples[0].len();
    let top = match k {
        1 => 12,
        2 => 2,
        _ => 1i32,
    };
    let power = |x: &F, e: i32| if e < 0 { inv(x).pow([(-e) as u64]) } else { x.pow([e as u64]) };
    let row = |v: &Vec<F>| {
        ensure!(v.iter().all(|x| !x.is_zero()), "{}: zero", what);
        let mut row = vec![F::one()];
        for x in v {
            row = row.iter().flat_map(|m| (-top..=top).map(|e| *m * power(x, e)).collect::<Vec<_>>()).collect();
        }
        if k == 2 {
            row.extend(v.iter().flat_map(|x| [-4, -3, 3, 4, 5].map(|e| power(x, e))));
        }
        Ok(row)
    };
    let rows = samples.iter().map(row).collect::<Result<Vec<_>, String>>()?;
    let columns = rows[0].len();
    assert!(rows.len() >= columns);
    let r = field_rank(rows);
    ensure!(r == columns, "{}: only {} of {} monomials are independent", what, r, columns);
    Ok(())
}

/// Samples that `unrelated` needs
pub const SAMPLES: usize = 40;
