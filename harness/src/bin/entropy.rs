//! C26: the challenges of every argument have (almost) as many bits as the security level, all of
//! them free, in every round. The challenges are not taken from the library but computed from the
//! proofs, over groups in which all logarithms are visible.
use ark_ec::pairing::Pairing;
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use ark_groth16::Proof as GrothProof;
use ark_ip_proofs::applications::groth16_aggregation::aggregate_proofs;
use ark_sipp::{product_of_pairings_with_coeffs, SIPP};
use blake2::{Blake2b, Blake2s};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::curves::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::indep::rank;
use ripp_check::inst::*;
use ripp_check::mock::dual::{dl1, dl2, dlt, Fr};
use ripp_check::srs::*;
use serde::{Deserialize, Serialize};

/// of the 128 bits of a challenge, so many have to be free
const FREE: usize = 120;

/// Many statements of the same length: unrelated ones, or ones that differ in one element by 1, 2, ..
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    k: u32,
    count: Option<u16>,
    /// of the structured messages: the scalar differs instead
    scalar: bool,
    s: (Sc, Sc, Sc),
    seed: u64,
}

fn case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static {
    move || {
        let count = prop_oneof![1 => Just(None), 2 => any::<u16>().prop_map(Some)];
        (lo..=hi, count, any::<bool>(), (sc_rand(), sc_rand(), sc_rand()), any::<u64>())
            .prop_map(|(k, count, scalar, s, seed)| Case { k, count, scalar, s, seed })
            .boxed()
    }
}

impl Case {
    fn n(&self) -> usize {
        1 << self.k
    }
    fn v<F: PrimeField>(&self, i: u64, n: usize) -> Vec<F> {
        Vs { pat: Pat::Rand(self.seed ^ i << 32), over: vec![] }.f(n)
    }
    fn without_scalar(&self) -> Self {
        Case { scalar: false, ..self.clone() }
    }
    /// the left vector of the j-th statement
    fn a<F: PrimeField>(&self, j: usize) -> Vec<F> {
        let n = self.n();
        match self.count {
            None => self.v(1000 + j as u64, n),
            Some(p) => {
                let mut a: Vec<F> = self.v(1000, n);
                if !self.scalar {
                    a[p as usize % n] += F::from(j as u64);
                }
                a
            }
        }
    }
    fn scalar<F: PrimeField>(&self, j: usize) -> F {
        match self.count {
            None => self.v(2000 + j as u64, 1)[0],
            Some(_) => self.s.2.nz::<F>() + F::from(if self.scalar { j as u64 } else { 0 }),
        }
    }
}

fn low<F: PrimeField>(x: &F) -> [u64; 2] {
    let b = x.into_bigint().to_bytes_le();
    [0, 8].map(|i| u64::from_le_bytes(b[i..i + 8].try_into().unwrap()))
}

/// `f` gives the challenges of the j-th statement; none where one is not determined
fn spread<F: PrimeField>(c: &Case, challenges: usize, f: impl Fn(usize) -> Result<Option<Vec<F>>, String>) -> R {
    ensure!(challenges > 0, "harness: no challenges");
    let mut all: Vec<Vec<F>> = vec![];
    for j in 0..128 * challenges + 64 {
        if let Some(v) = f(j)? {
            ensure!(v.len() == challenges, "harness: {} challenges instead of {}", v.len(), challenges);
            all.push(v);
        }
    }
    if all.len() < 128 * challenges + 32 {
        return Ok(pass(false).class("not determined"));
    }
    let inverse = |x: &F| x.inverse().unwrap_or(*x);
    for (name, g) in [("challenges", &(|x: &F| *x) as &dyn Fn(&F) -> F), ("inverses of the challenges", &inverse), ("opposites of the challenges", &|x: &F| -*x)] {
        let vals: Vec<Vec<F>> = all.iter().map(|v| v.iter().map(g).collect()).collect();
        for i in 0..challenges {
            let r = rank(&vals.iter().map(|v| low(&v[i]).to_vec()).collect::<Vec<_>>());
            ensure!(r >= FREE, "only {} of 128 bits of the {} of round {} are free ({} statements)", r, name, i, all.len());
            for p in [3u64, 5, 7, 11, 13] {
                let m = |x: &F| x.into_bigint().to_bytes_be().iter().fold(0u64, |s, b| (s * 256 + *b as u64) % p);
                let first = m(&vals[0][i]);
                ensure!(vals.iter().any(|v| m(&v[i]) != first), "the {} of round {} are all {} modulo {}", name, i, first, p);
            }
        }
        let r = rank(&vals.iter().map(|v| v.iter().flat_map(low).collect()).collect::<Vec<_>>());
        ensure!(r >= FREE * challenges, "only {} of {} bits of the {} of all rounds are free ({} statements)", r, 128 * challenges, name, all.len());
    }
    Ok(pass(true)
        .class(format!("{} challenges", challenges))
        .class(match (c.count, c.scalar) {
            (None, _) => "unrelated statements",
            (_, true) => "scalar (of aggregations: one proof) counted up",
            _ => "one element counted up",
        }))
}

/// The challenges by which a is folded, from the values a[half] of the rounds (the first included)
/// and, if it is known, the single element that is left
fn unfold<F: PrimeField>(mut a: Vec<F>, seen: &[F], end: Option<F>) -> Result<Option<Vec<F>>, String> {
    let mut out = vec![];
    let rounds = a.len().trailing_zeros() as usize;
    ensure!(seen.len() == rounds, "{} rounds for {} elements", seen.len(), a.len());
    for j in 0..rounds {
        let h = a.len() / 2;
        ensure!(seen[j] == a[h], "round {} is not about the vector as folded so far", j);
        let (i, next) = match (seen.get(j + 1), end) {
            (Some(x), _) => (h / 2, *x),
            (None, Some(x)) => (0, x),
            (None, None) => break,
        };
        let Some(d) = a[h + i].inverse() else { return Ok(None) };
        let c = (next - a[i]) * d;
        a = (0..h).map(|i| a[i] + a[h + i] * c).collect();
        out.push(c);
    }
    Ok(Some(out))
}

fn unit<F: PrimeField>(b0: F, n: usize) -> Vec<F> {
    let mut b = vec![F::zero(); n];
    b[0] = b0;
    b
}

fn sipp<D: Digest<OutputSize = digest::generic_array::typenum::U32> + 'static>(c: &Case) -> R {
    let c = &c.without_scalar();
    let n = c.n();
    let r: Vec<Fr> = c.v(3, n);
    let b0: Fr = c.s.0.nz();
    let (pb, b0_inv) = (Dual::g2a(&unit(b0, n)), inv(&b0));
    spread(c, c.k as usize - 1, |j| {
        let a: Vec<Fr> = c.a(j);
        let pa = Dual::g1a(&a);
        let value = product_of_pairings_with_coeffs::<Dual>(&pa, &pb, &r);
        let proof = SIPP::<Dual, D>::prove(&pa, &pb, &r, value).map_err(|_| "no proof")?;
        let seen: Vec<Fr> = proof.verif_into_parts().iter().map(|(l, _)| dlt(l) * b0_inv).collect();
        unfold(a.iter().zip(&r).map(|(a, r)| *a * r).collect(), &seen, None)
    })
}

fn gipa<I: Inst, D: Digest + 'static>(c: &Case, left: fn(&I::LM) -> I::S, prod: fn(&I::TO) -> I::S) -> R {
    let c = &c.without_scalar();
    let n = c.n();
    let b0: I::S = c.s.0.nz();
    let (b, b0_inv) = (I::rms(&unit(b0, n)), inv(&b0));
    let (ka, kb, kt) = (I::lks(&c.v::<I::S>(1, n)), I::rks(&c.v::<I::S>(2, n)), I::tk(&c.s.1.nz()));
    spread(c, c.k as usize, |j| {
        let a: Vec<I::S> = c.a(j);
        let (proof, _) = attempt(|| Gp::<I, D>::prove_with_aux((&I::lms(&a), &b), (&ka, &kb, &[kt.clone()])))?;
        let (steps, base) = proof.verif_into_parts();
        let seen: Vec<I::S> = steps.iter().rev().map(|(l, _)| prod(&l.2) * b0_inv).collect();
        unfold(a, &seen, Some(left(&base.0)))
    })
}

fn ssm<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Case, left: fn(&I::LM) -> I::S) -> R {
    let (ka, kt) = (I::lks(&c.v::<I::S>(1, 2)), I::tk(&c.s.1.nz()));
    spread(c, 1, |j| {
        let (a, s): (Vec<I::S>, I::S) = (c.a(j), c.scalar(j));
        let proof = attempt(|| Gs::<I, D>::prove_with_structured_scalar_message((&I::lms(&a), &powers(2, s)), (&ka, &kt)))?;
        let (_, base) = proof.verif_into_parts();
        Ok(a[1].inverse().map(|d| vec![(left(&base.0) - a[0]) * d]))
    })
}

/// the point at which 1 + x X^2 is opened; ck and pi are its value and that of its quotient at the secret
fn point(ck: Fr, pi: Fr, secret: Fr) -> Option<Fr> {
    let x = (ck - Fr::from(1u64)) * inv(&secret.square());
    x.inverse().map(|d| pi * d - secret)
}

fn tipa<I: TInst<Dual> + Inst<S = Fr>, D: Digest + 'static>(c: &Case) -> R {
    let c = &c.without_scalar();
    let s = SrsDl { n: 2, alpha: c.s.0.nz(), beta: c.s.1.nz::<Fr>() };
    let (srs, kt) = (s.srs::<Dual>(), I::tk(&c.s.2.nz()));
    let (ka, kb) = (I::lks(&s.ka(&Fr::from(1u64))), I::rks(&s.kb()));
    let b = I::rms(&c.v::<Fr>(2, 2));
    spread(c, 1, |j| {
        let a: Vec<Fr> = c.a(j);
        let proof = attempt(|| Tp::<I, Dual, D>::prove(&srs, (&I::lms(&a), &b), (&ka, &kb, &kt)))?;
        let (_, ck, pi) = proof.verif_into_parts();
        let z = (point(dl2(&ck.0), dl2(&pi.0), s.beta), point(dl1(&ck.1), dl1(&pi.1), s.alpha));
        ensure!(z.0 == z.1, "the two keys are opened at different points");
        Ok(z.0.map(|z| vec![z]))
    })
}

fn tipa_ssm<I: SInst<Dual> + Inst<S = Fr>, D: Digest + 'static>(c: &Case) -> R {
    let s = SrsDl { n: 2, alpha: c.s.0.nz(), beta: c.s.1.nz::<Fr>() };
    let (srs, kt, ka) = (s.srs::<Dual>(), I::tk(&c.s.2.nz()), I::lks(&s.ka(&Fr::from(1u64))));
    spread(c, 1, |j| {
        let (a, b): (Vec<Fr>, Fr) = (c.a(j), c.scalar(j));
        let proof = attempt(|| Ts::<I, Dual, D>::prove_with_structured_scalar_message(&srs, (&I::lms(&a), &powers(2, b)), (&ka, &kt)))?;
        let (_, ck, pi) = proof.verif_into_parts();
        Ok(point(dl2(&ck), dl2(&pi), s.beta).map(|z| vec![z]))
    })
}

fn groth<D: Digest + 'static>(c: &Case) -> R {
    let n = c.n();
    let s = SrsDl { n, alpha: c.s.0.nz(), beta: c.s.1.nz::<Fr>() };
    let srs = s.srs::<Dual>();
    let (b, last) = (Dual::g2a(&c.v::<Fr>(2, n)), c.v::<Fr>(4, 2));
    let cs: Vec<Fr> = (0..n).map(|i| if i < 2 { last[i] } else { Fr::zero() }).collect();
    spread(c, 1, |j| {
        // the challenge depends on the commitments to all three parts
        let (a, mut cs) = (c.a::<Fr>(j), cs.clone());
        if c.scalar {
            cs[0] += Fr::from(j as u64);
        }
        let (pa, pc) = (Dual::g1a(&a), Dual::g1a(&cs));
        let proofs: Vec<GrothProof<Dual>> = (0..n).map(|i| GrothProof { a: pa[i], b: b[i], c: pc[i] }).collect();
        let agg = attempt(|| aggregate_proofs::<Dual, D>(&srs, &proofs))?;
        let (_, _, agg_c, _, _) = agg.verif_into_parts();
        Ok(cs[1].inverse().map(|d| vec![(dl1(&agg_c) - cs[0]) * d]))
    })
}

fn first<T: Clone>(v: &ark_dh_commitments::identity::IdentityOutput<T>) -> T
where
    T: ark_serialize::CanonicalSerialize + ark_serialize::CanonicalDeserialize + Default + Eq,
{
    v.0[0].clone()
}

fn c26() -> Vec<Scenario> {
    type B = <Bls as Pairing>::ScalarField;
    vec![
        Scenario::new("sipp", 60, 1500, case(2, 5), sipp::<Blake2s>),
        Scenario::new("gipa/scalar", 60, 1500, case(1, 5), |c| gipa::<Scal<Dual>, Blake2b>(c, |x| *x, |t| first(t))),
        Scenario::new("gipa/multiexp", 60, 1500, case(1, 4), |c| gipa::<Msm<Dual>, Blake2b>(c, dl1, |t| dl1(&first(t)))),
        Scenario::new("gipa/multiexp/digest-32", 60, 1500, case(1, 3), |c| gipa::<Msm<Dual>, Blake2s>(c, dl1, |t| dl1(&first(t)))),
        Scenario::new("gipa/pairing", 60, 1500, case(1, 4), |c| gipa::<Pair<Dual>, Blake2b>(c, dl1, |t| dlt(&first(t)))),
        Scenario::new("gipa/scalar/bls12-381", 3, 40, case(1, 2), |c| gipa::<Scal<Bls>, Blake2b>(c, |x: &B| *x, |t| first(t))),
        Scenario::new("ssm/multiexp", 100, 3000, case(1, 1), |c| ssm::<Msm<Dual>, Blake2b>(c, dl1)),
        Scenario::new("ssm/scalar", 100, 3000, case(1, 1), |c| ssm::<Scal<Dual>, Blake2s>(c, |x| *x)),
        Scenario::new("tipa/pairing", 100, 3000, case(1, 1), tipa::<Pair<Dual>, Blake2b>),
        Scenario::new("tipa/multiexp", 100, 3000, case(1, 1), tipa::<Msm<Dual>, Blake2s>),
        Scenario::new("tipa/scalar-keyed", 100, 3000, case(1, 1), tipa::<ScalKey<Dual>, Blake2b>),
        Scenario::new("tipa-ssm/multiexp", 100, 3000, case(1, 1), tipa_ssm::<Msm<Dual>, Blake2b>),
        Scenario::new("tipa-ssm/scalar", 100, 3000, case(1, 1), tipa_ssm::<Scal<Dual>, Blake2s>),
        Scenario::new("groth16", 60, 1500, case(1, 3), groth::<Blake2b>),
        Scenario::new("groth16/digest-32", 60, 1500, case(1, 2), groth::<Blake2s>),
    ]
}

fn main() {
    ripp_check::fw::main(&[Property {
        id: "C26",
        rule: "the challenges of at least 160 statements are computed from the proofs, and tested",
        assumptions: &["the challenges of arguments over the mock curves are derived as those over real ones", "dependences that are not linear over the bits, the bits of the inverses or those of the opposites, nor constant modulo 3, 5, 7, 11 or 13, are not searched for"],
        scenarios: c26,
    }]);
}
