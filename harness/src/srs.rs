//! TIPA setups with known secrets, and TIPA provers on discrete logarithms.

use crate::adv::*;
use crate::curves::CurveEx;
use crate::digests::record;
use crate::fw::verdict;
use crate::gen::*;
use crate::inst::*;
use ark_ff::{Field, PrimeField, Zero};
use ark_ip_proofs::tipa::{VerifierSRS, SRS};
use digest::Digest;

/// The secrets of a setup for n elements
#[derive(Clone, Debug)]
pub struct SrsDl<F> {
    pub n: usize,
    pub alpha: F,
    pub beta: F,
}

impl<F: PrimeField> SrsDl<F> {
    pub fn srs<P: CurveEx<ScalarField = F>>(&self) -> SRS<P> {
        SRS {
            g_alpha_powers: P::g1s(&powers(2 * self.n - 1, self.alpha)),
            h_beta_powers: P::g2s(&powers(2 * self.n - 1, self.beta)),
            g_beta: P::g1(&self.beta),
            h_alpha: P::g2(&self.alpha),
        }
    }
    pub fn vk<P: CurveEx<ScalarField = F>>(&self) -> VerifierSRS<P> {
        VerifierSRS {
            g: P::g1(&F::one()),
            h: P::g2(&F::one()),
            g_beta: P::g1(&self.beta),
            h_alpha: P::g2(&self.alpha),
        }
    }
    /// left keys shifted by r
    pub fn ka(&self, r: &F) -> Vec<F> {
        key_polys(self.n, &self.beta, &inv(r))
    }
    pub fn kb(&self) -> Vec<F> {
        key_polys(self.n, &self.alpha, &F::one())
    }
}

/// (z^2 s)^i scaled powers: the polynomials of the keys at z
pub fn key_polys<F: PrimeField>(n: usize, z: &F, s: &F) -> Vec<F> {
    powers(n, z.square() * s)
}

pub fn fold<F: PrimeField>(v: &[F], ch: &[F]) -> F {
    let mut v = v.to_vec();
    for c in ch {
        let h = v.len() / 2;
        v = (0..h).map(|i| v[i] + v[h + i] * c).collect();
    }
    v[0]
}

pub fn invs<F: PrimeField>(ch: &[F]) -> Vec<F> {
    ch.iter().map(inv).collect()
}

/// Point of the key opening: the last hash output of a verification
pub fn last_challenge<F: Field>(outputs: &[Vec<u8>]) -> Option<F> {
    outputs.last().and_then(|o| F::from_random_bytes(o))
}

#[derive(Clone, Debug)]
pub struct Fin<F> {
    pub ck: (F, F),
    pub pi: (F, F),
    pub z: F,
}

pub fn tipa_proof_of<I: TInst<P>, P: CurveEx, D: Digest>(prog: &Prog<I::S>, fin: &Fin<I::S>) -> TpProof<I, P, D> {
    TpProof::<I, P, D>::verif_from_parts(
        prog.proof::<I, D>(),
        (P::g2(&fin.ck.0), P::g1(&fin.ck.1)),
        (P::g2(&fin.pi.0), P::g1(&fin.pi.1)),
    )
}

/// Complete a GIPA proof to a TIPA proof. The keys used are the values of polynomials: `ga` and
/// `gb` give the values of these polynomials at any point.
#[allow(clippy::too_many_arguments)]
pub fn finish_tipa<I: TInst<P>, P: CurveEx, D: Digest>(
    s: &SrsDl<I::S>,
    prog: &Prog<I::S>,
    com: &[I::S; 3],
    kt: &I::S,
    shift: &I::S,
    ga: &dyn Fn(&I::S) -> Vec<I::S>,
    gb: &dyn Fn(&I::S) -> Vec<I::S>,
) -> Option<Fin<I::S>> {
    let zero = I::S::zero();
    let mut fin = Fin { ck: prog.ck_base, pi: (zero, zero), z: zero };
    let p = tipa_proof_of::<I, P, D>(prog, &fin);
    let c = el3::<I>(com);
    let (_, _, outs) = record(|| {
        verdict(|| Tp::<I, P, D>::verify_with_srs_shift(&s.vk::<P>(), &I::tk(kt), (&c.0, &c.1, &c.2), &p, shift))
    });
    fin.z = last_challenge(&outs)?;
    fin.pi = open_keys(s, prog, &fin, ga, gb)?;
    Some(fin)
}

pub fn open_keys<F: PrimeField>(
    s: &SrsDl<F>,
    prog: &Prog<F>,
    fin: &Fin<F>,
    ga: &dyn Fn(&F) -> Vec<F>,
    gb: &dyn Fn(&F) -> Vec<F>,
) -> Option<(F, F)> {
    let (va, vb) = (fold(&ga(&fin.z), &invs(&prog.ch)), fold(&gb(&fin.z), &prog.ch));
    Some((
        (fin.ck.0 - va) * (s.beta - fin.z).inverse()?,
        (fin.ck.1 - vb) * (s.alpha - fin.z).inverse()?,
    ))
}

pub fn ssm_proof_of<I: SInst<P>, P: CurveEx, D: Digest>(prog: &Prog<I::S>, fin: &Fin<I::S>) -> TsProof<I, P, D> {
    TsProof::<I, P, D>::verif_from_parts(prog.proof::<Ssm<I>, D>(), P::g2(&fin.ck.0), P::g2(&fin.pi.0))
}

pub fn finish_ssm<I: SInst<P>, P: CurveEx, D: Digest>(
    s: &SrsDl<I::S>,
    prog: &Prog<I::S>,
    com: &[I::S; 3],
    b: &I::S,
    kt: &I::S,
    ga: &dyn Fn(&I::S) -> Vec<I::S>,
) -> Option<Fin<I::S>> {
    let zero = I::S::zero();
    let mut fin = Fin { ck: prog.ck_base, pi: (zero, zero), z: zero };
    let p = ssm_proof_of::<I, P, D>(prog, &fin);
    let (ca, ct) = (I::lo(&com[0]), I::to(&com[2]));
    let (_, _, outs) = record(|| {
        verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&s.vk::<P>(), &I::tk(kt), (&ca, &ct), b, &p))
    });
    fin.z = last_challenge(&outs)?;
    let va = fold(&ga(&fin.z), &invs(&prog.ch));
    fin.pi.0 = (fin.ck.0 - va) * (s.beta - fin.z).inverse()?;
    Some(fin)
}
