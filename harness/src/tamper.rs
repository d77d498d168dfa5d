//! Alterations of an honest GIPA proof.

use crate::inst::*;
use crate::st::{at, At};
use ark_ff::{One, Zero};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    /// add to one round message
    Step(At),
    /// replace one by the identity
    StepZero(At),
    /// one round message with the other sign
    StepNeg(At),
    /// the final messages (left, right) with the other sign
    BaseNeg(bool, bool),
    /// add to two messages, equal or opposite amounts
    Two(At, At, bool),
    /// exchange the two sides of a round (one slot, or all)
    Sides(At, bool),
    /// exchange two rounds
    Rounds(u16, u16),
    DropRound(u16),
    DupRound(u16),
    /// add a round of identities at the start or the end
    NullRound(bool),
    /// scale the two sides of a round by a factor and its inverse
    Scale(At),
    BaseA,
    BaseB,
    /// scale both final messages, keeping their product
    BaseScale,
}

pub fn tamper() -> BoxedStrategy<Tamper> {
    prop_oneof![
        4 => at().prop_map(Tamper::Step),
        2 => at().prop_map(Tamper::StepZero),
        1 => at().prop_map(Tamper::StepNeg),
        1 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Tamper::BaseNeg(a, b)),
        2 => (at(), at(), any::<bool>()).prop_map(|(a, b, s)| Tamper::Two(a, b, s)),
        2 => (at(), any::<bool>()).prop_map(|(a, b)| Tamper::Sides(a, b)),
        1 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| Tamper::Rounds(a, b)),
        1 => any::<u16>().prop_map(Tamper::DropRound),
        1 => any::<u16>().prop_map(Tamper::DupRound),
        1 => any::<bool>().prop_map(Tamper::NullRound),
        1 => at().prop_map(Tamper::Scale),
        1 => Just(Tamper::BaseA),
        1 => Just(Tamper::BaseB),
        1 => Just(Tamper::BaseScale),
    ]
    .boxed()
}

impl Tamper {
    pub fn name(&self) -> String {
        let s = format!("{:?}", self);
        s.split(['(', ' ']).next().unwrap().to_string()
    }
    /// Alter the proof; None if the alteration does not apply or changes nothing.
    pub fn apply<I: Inst, D: Digest>(&self, p: GpProof<I, D>, delta: &I::S) -> Option<GpProof<I, D>> {
        let (mut steps, mut base) = p.verif_into_parts();
        let (orig, orig_base) = (steps.clone(), base.clone());
        let len = steps.len();
        let z = I::S::zero();
        let two = I::S::from(2u64);
        let f = if delta.is_one() || (-*delta).is_one() { two } else { *delta };
        match self {
            Tamper::NullRound(_) | Tamper::BaseA | Tamper::BaseB | Tamper::BaseScale | Tamper::BaseNeg(..) => {}
            Tamper::Rounds(..) if len < 2 => return None,
            _ if len == 0 => return None,
            _ => {}
        }
        match self {
            Tamper::Step(_) | Tamper::Two(..) => {
                let mut add = |at: &At, delta: &I::S| {
                    let s = &mut steps[at.round(len)];
                    let x = if at.side { &mut s.0 } else { &mut s.1 };
                    match at.slot() {
                        0 => x.0 = x.0.clone() + I::lo(delta),
                        1 => x.1 = x.1.clone() + I::ro(delta),
                        _ => x.2 = x.2.clone() + I::to(delta),
                    }
                };
                match self {
                    Tamper::Two(a, b, same) => {
                        add(a, delta);
                        add(b, &if *same { *delta } else { -*delta });
                    }
                    Tamper::Step(a) => add(a, delta),
                    _ => unreachable!(),
                }
            }
            Tamper::StepZero(at) => {
                let s = &mut steps[at.round(len)];
                let x = if at.side { &mut s.0 } else { &mut s.1 };
                match at.slot() {
                    0 => x.0 = I::lo(&z),
                    1 => x.1 = I::ro(&z),
                    _ => x.2 = I::to(&z),
                }
            }
            Tamper::StepNeg(at) => {
                let s = &mut steps[at.round(len)];
                let x = if at.side { &mut s.0 } else { &mut s.1 };
                let minus = -I::S::one();
                match at.slot() {
                    0 => x.0 *= minus,
                    1 => x.1 *= minus,
                    _ => x.2 *= minus,
                }
            }
            Tamper::BaseNeg(left, right) => {
                let minus = -I::S::one();
                if *left { base.0 *= minus }
                if *right { base.1 *= minus }
            }
            Tamper::Sides(at, all) => {
                let s = &mut steps[at.round(len)];
                let (x, y) = (&mut s.0, &mut s.1);
                if *all {
                    std::mem::swap(x, y);
                } else {
                    match at.slot() {
                        0 => std::mem::swap(&mut x.0, &mut y.0),
                        1 => std::mem::swap(&mut x.1, &mut y.1),
                        _ => std::mem::swap(&mut x.2, &mut y.2),
                    }
                }
            }
            Tamper::Rounds(i, j) => {
                let i = *i as usize % len;
                let j = (i + 1 + *j as usize % (len - 1)) % len;
                steps.swap(i, j);
            }
            Tamper::DropRound(i) => {
                steps.remove(*i as usize % len);
            }
            Tamper::DupRound(i) => {
                let s = steps[*i as usize % len].clone();
                steps.insert(*i as usize % len, s);
            }
            Tamper::NullRound(end) => {
                let o = || (I::lo(&z), I::ro(&z), I::to(&z));
                steps.insert(if *end { len } else { 0 }, (o(), o()));
            }
            Tamper::Scale(at) => {
                let s = &mut steps[at.round(len)];
                let g = inv(&f);
                s.0 .0 *= f;
                s.0 .1 *= f;
                s.0 .2 *= f;
                s.1 .0 *= g;
                s.1 .1 *= g;
                s.1 .2 *= g;
            }
            Tamper::BaseA => base.0 = base.0 + I::lm(delta),
            Tamper::BaseB => base.1 = base.1 + I::rm(delta),
            Tamper::BaseScale => {
                base.0 *= f;
                base.1 *= inv(&f);
            }
        }
        if steps == orig && base == orig_base {
            return None;
        }
        Some(GpProof::<I, D>::verif_from_parts(steps, base))
    }
}
