//! A GIPA prover on discrete logarithms, which follows the protocol for arbitrary (false)
//! statements and may change what it sent after it has seen the challenge.

use crate::gen::dot;
use crate::inst::*;
use digest::Digest;

pub type Step<S> = [[S; 3]; 2];

/// Proof elements as discrete logarithms, first round first
#[derive(Clone, Debug)]
pub struct Prog<S> {
    pub steps: Vec<Step<S>>,
    pub base: (S, S),
    /// challenge that the prover used in each round
    pub ch: Vec<S>,
    pub ck_base: (S, S),
}

pub fn el3<I: Inst>(c: &[I::S; 3]) -> (I::LO, I::RO, I::TO) {
    (I::lo(&c[0]), I::ro(&c[1]), I::to(&c[2]))
}

pub fn proof_of<I: Inst, D: Digest>(steps: &[Step<I::S>], base: &(I::S, I::S)) -> GpProof<I, D> {
    GpProof::<I, D>::verif_from_parts(
        steps.iter().rev().map(|s| (el3::<I>(&s[0]), el3::<I>(&s[1]))).collect(),
        (I::lm(&base.0), I::rm(&base.1)),
    )
}

/// Challenges of all rounds, first round first, as the library derives them
pub fn challenges<I: Inst, D: Digest>(com: &[I::S; 3], steps: &[Step<I::S>]) -> Vec<I::S> {
    challenges_el::<I, D>(&el3::<I>(com), steps)
}

pub fn challenges_el<I: Inst, D: Digest>(c: &(I::LO, I::RO, I::TO), steps: &[Step<I::S>]) -> Vec<I::S> {
    let p = proof_of::<I, D>(steps, &(I::S::from(0u64), I::S::from(0u64)));
    let (_, mut t) = Gp::<I, D>::verify_recursive_challenge_transcript((&c.0, &c.1, &c.2), &p).unwrap();
    t.reverse();
    t
}

/// Follow the protocol for the vectors of `d`, deriving the challenges for the statement `com`.
/// `pre` may change the round messages before they are hashed, `post` afterwards.
pub fn prove<I: Inst, D: Digest>(
    d: &Dl<I::S>,
    com: &[I::S; 3],
    pre: &dyn Fn(usize, &mut Step<I::S>),
    post: &dyn Fn(usize, &I::S, &mut Step<I::S>),
) -> Prog<I::S> {
    prove_el::<I, D>(d, &el3::<I>(com), pre, post)
}

/// The same, with the statement as elements
pub fn prove_el<I: Inst, D: Digest>(
    d: &Dl<I::S>,
    com: &(I::LO, I::RO, I::TO),
    pre: &dyn Fn(usize, &mut Step<I::S>),
    post: &dyn Fn(usize, &I::S, &mut Step<I::S>),
) -> Prog<I::S> {
    let (mut a, mut b, mut ka, mut kb) = (d.a.clone(), d.b.clone(), d.ka.clone(), d.kb.clone());
    let mut steps: Vec<Step<I::S>> = vec![];
    let mut ch = vec![];
    while a.len() > 1 {
        let h = a.len() / 2;
        let (al, ar) = a.split_at(h);
        let (bl, br) = b.split_at(h);
        let (kal, kar) = ka.split_at(h);
        let (kbl, kbr) = kb.split_at(h);
        let mut s: Step<I::S> = [
            [dot(kal, ar), dot(kbr, bl), d.kt * dot(ar, bl)],
            [dot(kar, al), dot(kbl, br), d.kt * dot(al, br)],
        ];
        let i = steps.len();
        pre(i, &mut s);
        steps.push(s);
        let c = *challenges_el::<I, D>(com, &steps).last().unwrap();
        post(i, &c, &mut steps[i]);
        let ci = inv(&c);
        let f = |x: &[I::S], y: &[I::S], e: I::S| -> Vec<I::S> { x.iter().zip(y).map(|(x, y)| *x + *y * e).collect() };
        let (na, nb, nka, nkb) = (f(al, ar, c), f(bl, br, ci), f(kal, kar, ci), f(kbl, kbr, c));
        a = na;
        b = nb;
        ka = nka;
        kb = nkb;
        ch.push(c);
    }
    Prog { steps, base: (a[0], b[0]), ch, ck_base: (ka[0], kb[0]) }
}

pub fn honest<I: Inst, D: Digest>(d: &Dl<I::S>, com: &[I::S; 3]) -> Prog<I::S> {
    prove::<I, D>(d, com, &|_, _| {}, &|_, _, _| {})
}

impl<S: ark_ff::PrimeField> Prog<S> {
    pub fn proof<I: Inst<S = S>, D: Digest>(&self) -> GpProof<I, D> {
        proof_of::<I, D>(&self.steps, &self.base)
    }
}
