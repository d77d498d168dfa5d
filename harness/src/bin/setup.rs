//! C22: setups, commitment and verifier keys, power helpers.
use ark_ec::{pairing::Pairing, AffineRepr, CurveGroup, VariableBaseMSM};
use ark_dh_commitments::afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2};
use ark_dh_commitments::pedersen::PedersenCommitment;
use ark_dh_commitments::DoublyHomomorphicCommitment;
use ark_ff::{Field, One, PrimeField, UniformRand, Zero};
use ark_ip_proofs::applications::groth16_aggregation::setup_inner_product;
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tpc;
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use ark_ip_proofs::tipa::{structured_generators_scalar_power, VerifierSRS, SRS};
use ark_std::rand::{Rng as _, RngCore, SeedableRng};
use blake2::Blake2b;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::curves::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::indep::*;
use ripp_check::inst::*;
use serde::{Deserialize, Serialize};

type Sf<P> = <P as Pairing>::ScalarField;

/// Another source of randomness, without seeking or buffering
struct Lcg(u128);
impl RngCore for Lcg {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_mul(0x2360_ed05_1fc6_5da4_4385_df64_9fcc_f645).wrapping_add(0x5851_f42d_4c95_7f2d_1405_7b7e_f767_814f);
        ((self.0 >> 64) ^ self.0) as u64
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Source {
    ChaCha,
    Lcg,
}

enum AnyRng {
    C(rand_chacha::ChaCha20Rng),
    L(Lcg),
}
impl AnyRng {
    fn new(s: Source, seed: u64) -> Self {
        match s {
            Source::ChaCha => AnyRng::C(rand_chacha::ChaCha20Rng::seed_from_u64(seed)),
            Source::Lcg => AnyRng::L(Lcg(((seed as u128) << 64) | (seed.rotate_left(17) ^ 0x9e37_79b9_7f4a_7c15) as u128)),
        }
    }
}
impl RngCore for AnyRng {
    fn next_u32(&mut self) -> u32 {
        match self { AnyRng::C(r) => r.next_u32(), AnyRng::L(r) => r.next_u32() }
    }
    fn next_u64(&mut self) -> u64 {
        match self { AnyRng::C(r) => r.next_u64(), AnyRng::L(r) => r.next_u64() }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self { AnyRng::C(r) => r.fill_bytes(d), AnyRng::L(r) => r.fill_bytes(d) }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), ark_std::rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    TipaPair,
    TipaMsm,
    TipaScalKey,
    SsmMsm,
    SsmScalKey,
    Groth,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    n: usize,
    source: Source,
    seed: u64,
    /// a second draw from the same source, and one from a different seed
    other: u64,
    threads: usize,
}

fn size(hi: usize) -> BoxedStrategy<usize> {
    let p = (hi as f64).log2() as u32;
    prop_oneof![
        3 => 1..=hi.min(9),
        3 => (0..=p).prop_map(|k| 1usize << k),
        2 => (0..=p).prop_map(|k| (1usize << k) + 1),
        2 => (1..=p).prop_map(|k| (1usize << k) - 1),
        3 => 1..=hi,
    ]
    .boxed()
}

fn source() -> BoxedStrategy<Source> {
    prop_oneof![Just(Source::ChaCha), Just(Source::Lcg)].boxed()
}

fn case(hi: usize) -> impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static {
    move || {
        let kind = prop_oneof![
            Just(Kind::TipaPair), Just(Kind::TipaMsm), Just(Kind::TipaScalKey), Just(Kind::SsmMsm), Just(Kind::SsmScalKey), Just(Kind::Groth),
        ];
        (kind, size(hi), source(), any::<u64>(), any::<u64>(), threads())
            .prop_map(|(kind, n, source, seed, other, threads)| Case { kind, n, source, seed, other, threads })
            .boxed()
    }
}

fn tipa_setup<P: CurveEx>(kind: Kind, r: &mut impl RngCore, n: usize) -> Result<(SRS<P>, Option<P::G1>), String> {
    type D = Blake2b;
    match kind {
        Kind::TipaPair => attempt(|| Tp::<Pair<P>, P, D>::setup(r, n)).map(|(s, _)| (s, None)),
        Kind::TipaMsm => attempt(|| Tp::<Msm<P>, P, D>::setup(r, n)).map(|(s, _)| (s, None)),
        Kind::TipaScalKey => attempt(|| Tp::<ScalKey<P>, P, D>::setup(r, n)).map(|(s, k)| (s, Some(k))),
        Kind::SsmMsm => attempt(|| Ts::<Msm<P>, P, D>::setup(r, n)).map(|(s, _)| (s, None)),
        Kind::SsmScalKey => attempt(|| Ts::<ScalKey<P>, P, D>::setup(r, n)).map(|(s, k)| (s, Some(k))),
        Kind::Groth => attempt(|| setup_inner_product::<P, D, _>(r, n)).map(|s| (s, None)),
    }
}

fn same_srs<P: Pairing>(a: &SRS<P>, b: &SRS<P>) -> bool {
    a.g_alpha_powers == b.g_alpha_powers && a.h_beta_powers == b.h_beta_powers && a.g_beta == b.g_beta && a.h_alpha == b.h_alpha
}

/// Geometric progressions
fn consecutive<F: PrimeField>(what: &str, v: &[F], ratio: &F) -> Result<(), String> {
    for i in 1..v.len() {
        ensure!(v[i] == v[i - 1] * ratio, "{}: element {} of {} is not the one before times the secret", what, i, v.len());
    }
    Ok(())
}

/// Secrets of one setup: neither trivial nor related in a way that gives one from the other
fn secrets<F: PrimeField>(alpha: &F, beta: &F) -> Result<(), String> {
    let small = |x: &F| x.into_bigint().as_ref().iter().skip(1).all(|l| *l == 0) || (-*x).into_bigint().as_ref().iter().skip(1).all(|l| *l == 0);
    ensure!(!alpha.is_zero() && !beta.is_zero(), "a secret is zero");
    ensure!(!small(alpha) && !small(beta), "a secret has 64 bits or less");
    ensure!(alpha != beta, "both secrets are the same");
    for x in [*alpha + beta, *alpha - beta, *alpha * inv(beta), *alpha * beta, alpha.square() * inv(beta), beta.square() * inv(alpha)] {
        ensure!(!small(&x), "the secrets are related");
    }
    Ok(())
}

/// All elements of an SRS over groups with known logarithms; gives the secrets
fn srs_dl<P: Dlog>(s: &SRS<P>) -> Result<(Sf<P>, Sf<P>), String> {
    ensure!(!s.g_alpha_powers.is_empty() && !s.h_beta_powers.is_empty(), "no elements");
    let a: Vec<Sf<P>> = s.g_alpha_powers.iter().map(P::d1).collect();
    let b: Vec<Sf<P>> = s.h_beta_powers.iter().map(P::d2).collect();
    let (g, h) = (a[0], b[0]);
    ensure!(!g.is_zero() && !h.is_zero(), "the first elements are no generators");
    let (alpha, beta) = (P::d2(&s.h_alpha) * inv(&h), P::d1(&s.g_beta) * inv(&g));
    consecutive("powers of alpha", &a, &alpha)?;
    consecutive("powers of beta", &b, &beta)?;
    secrets(&alpha, &beta)?;
    Ok((alpha, beta))
}

fn keys<P: Pairing>(s: &SRS<P>) -> Result<(usize, usize), String> {
    let (k1, k2) = quiet(|| s.get_commitment_keys())?;
    for (i, k) in k1.iter().enumerate() {
        ensure!(s.h_beta_powers.get(2 * i) == Some(k), "commitment key {} of the first group is not power {}", i, 2 * i);
    }
    for (i, k) in k2.iter().enumerate() {
        ensure!(s.g_alpha_powers.get(2 * i) == Some(k), "commitment key {} of the second group is not power {}", i, 2 * i);
    }
    let v: VerifierSRS<P> = quiet(|| s.get_verifier_key())?;
    ensure!(
        v.g == s.g_alpha_powers[0] && v.h == s.h_beta_powers[0] && v.g_beta == s.g_beta && v.h_alpha == s.h_alpha,
        "the verifier key differs from the SRS"
    );
    Ok((k1.len(), k2.len()))
}

fn tipa<P: Dlog>(c: &Case) -> R {
    let mut r = AnyRng::new(c.source, c.seed);
    let (s, kt) = with_threads(c.threads, || tipa_setup::<P>(c.kind, &mut r, c.n))?;
    let (alpha, beta) = srs_dl::<P>(&s)?;
    ensure!(s.g_alpha_powers.len() >= 2 * c.n - 1 && s.h_beta_powers.len() >= 2 * c.n - 1, "{} and {} powers for {} elements", s.g_alpha_powers.len(), s.h_beta_powers.len(), c.n);
    ensure!(keys::<P>(&s)? == (c.n, c.n), "commitment keys of another length than {}", c.n);
    if let Some(k) = &kt {
        let k = P::d1(k);
        ensure!(!k.is_zero(), "the product's key is the identity");
        ensure!(![Sf::<P>::one(), alpha, beta, alpha * beta, alpha.square(), beta.square()].contains(&k), "the product's key is known");
    }
    // the same randomness gives the same
    let mut r2 = AnyRng::new(c.source, c.seed);
    let (s2, kt2) = tipa_setup::<P>(c.kind, &mut r2, c.n)?;
    ensure!(same_srs(&s, &s2) && kt == kt2, "the same randomness gives another setup");
    ensure!(r.next_u64() == r2.next_u64(), "another amount of randomness is taken");
    // continuing, or another seed: nothing in common
    for mut q in [r, AnyRng::new(c.source, if c.other == c.seed { !c.seed } else { c.other })] {
        let (s3, kt3) = tipa_setup::<P>(c.kind, &mut q, c.n)?;
        let (a3, b3) = srs_dl::<P>(&s3)?;
        ensure!(![a3, b3].contains(&alpha) && ![a3, b3].contains(&beta), "a secret does not depend on the randomness");
        ensure!(kt.is_none() || kt != kt3, "the product's key does not depend on the randomness");
    }
    if c.n <= 300 {
        own_randomness("secrets", c.other, &|r| {
            let (s, k) = tipa_setup::<P>(c.kind, r, c.n)?;
            let (alpha, beta) = srs_dl::<P>(&s)?;
            Ok([alpha, beta].into_iter().chain(k.map(|k| P::d1(&k))).collect())
        })?;
    }
    Ok(pass(c.n > 1).class(format!("{:?}", c.kind)).class(format!("{:?}", c.source)).class(format!("2^{}..", c.n.ilog2())))
}

/// On real curves: one random linear combination of all pairing equations
fn srs_pairing<P: CurveEx>(s: &SRS<P>, seed: u64) -> Result<(), String> {
    let mut g = rng(seed);
    let (a, b) = (&s.g_alpha_powers, &s.h_beta_powers);
    ensure!(!a[0].is_zero() && !b[0].is_zero() && !s.g_beta.is_zero() && !s.h_alpha.is_zero(), "identity elements");
    let w: Vec<Sf<P>> = (0..a.len().max(b.len())).map(|_| Sf::<P>::rand(&mut g)).collect();
    let (aa, ba) = (P::G1::normalize_batch(a), P::G2::normalize_batch(b));
    let l = a.len() - 1;
    let (low, high) = (P::G1::msm(&aa[..l], &w[..l]).unwrap(), P::G1::msm(&aa[1..], &w[..l]).unwrap());
    ensure!(P::pairing(low, s.h_alpha) == P::pairing(high, b[0]), "the first group does not hold consecutive powers");
    let l = b.len() - 1;
    let (low, high) = (P::G2::msm(&ba[..l], &w[..l]).unwrap(), P::G2::msm(&ba[1..], &w[..l]).unwrap());
    ensure!(P::pairing(s.g_beta, low) == P::pairing(a[0], high), "the second group does not hold consecutive powers");
    ensure!(P::pairing(a[0], s.h_alpha) != P::pairing(s.g_beta, b[0]), "both secrets are the same");
    ensure!(s.g_beta != a[0] && s.h_alpha != b[0], "a secret is one");
    Ok(())
}

fn tipa_real<P: CurveEx>(c: &Case) -> R {
    let mut r = AnyRng::new(c.source, c.seed);
    let (s, kt) = with_threads(c.threads, || tipa_setup::<P>(c.kind, &mut r, c.n))?;
    srs_pairing::<P>(&s, c.seed ^ c.other)?;
    ensure!(s.g_alpha_powers.len() >= 2 * c.n - 1 && s.h_beta_powers.len() >= 2 * c.n - 1, "too few powers");
    ensure!(keys::<P>(&s)? == (c.n, c.n), "commitment keys of another length than {}", c.n);
    if let Some(k) = &kt {
        ensure!(!k.is_zero() && ![s.g_alpha_powers[0], s.g_beta].contains(k), "the product's key is known");
    }
    let (s2, kt2) = tipa_setup::<P>(c.kind, &mut AnyRng::new(c.source, c.seed), c.n)?;
    ensure!(same_srs(&s, &s2) && kt == kt2, "the same randomness gives another setup");
    let (s3, _) = tipa_setup::<P>(c.kind, &mut r, c.n)?;
    ensure!(s3.g_beta != s.g_beta && s3.h_alpha != s.h_alpha, "a secret does not depend on the randomness");
    Ok(pass(c.n > 1).class(format!("{:?}", c.kind)))
}

// ---------------------------------------------------------------- polynomial commitments

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Poly {
    Kzg(usize),
    Biv(usize, usize),
    Uni(usize),
    TransBiv(usize, usize),
    TransUni(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyCase {
    poly: Poly,
    source: Source,
    seed: u64,
    other: u64,
}

fn poly_case(hi: usize) -> impl Fn() -> BoxedStrategy<PolyCase> + Send + Sync + 'static {
    move || {
        let deg = move || size(hi).prop_map(|n| n - 1);
        let xdeg = move || (0u32..=(hi as f64).log2() as u32 - 2).prop_map(|k| (1usize << k) - 1);
        let p = prop_oneof![
            deg().prop_map(Poly::Kzg),
            (xdeg(), size(hi / 4).prop_map(|n| n - 1)).prop_map(|(x, y)| Poly::Biv(x, y)),
            deg().prop_map(Poly::Uni),
            (xdeg(), xdeg()).prop_map(|(x, y)| Poly::TransBiv(x, y)),
            deg().prop_map(Poly::TransUni),
        ];
        (p, source(), any::<u64>(), any::<u64>()).prop_map(|(poly, source, seed, other)| PolyCase { poly, source, seed, other }).boxed()
    }
}

enum Out<P: Pairing> {
    Kzg(Vec<P::G1Affine>, VerifierSRS<P>),
    Srs(SRS<P>, Vec<P::G1Affine>),
    Keys(Vec<P::G1>, Vec<P::G2>),
}

fn poly_setup<P: CurveEx>(p: &Poly, r: &mut impl RngCore) -> Result<Out<P>, String> {
    type D = Blake2b;
    Ok(match *p {
        Poly::Kzg(d) => {
            let (p, v) = attempt(|| pc::KZG::<P>::setup(r, d))?;
            Out::Kzg(p, v)
        }
        Poly::Biv(x, y) => {
            let (s, k) = attempt(|| pc::BivariatePolynomialCommitment::<P, D>::setup(r, x, y))?;
            Out::Srs(s, k)
        }
        Poly::Uni(d) => {
            let (s, k) = attempt(|| pc::UnivariatePolynomialCommitment::<P, D>::setup(r, d))?;
            Out::Srs(s, k)
        }
        Poly::TransBiv(x, y) => {
            let (a, b) = attempt(|| tpc::BivariatePolynomialCommitment::<P, D>::setup(r, x, y))?;
            Out::Keys(a, b)
        }
        Poly::TransUni(d) => {
            let (a, b) = attempt(|| tpc::UnivariatePolynomialCommitment::<P, D>::setup(r, d))?;
            Out::Keys(a, b)
        }
    })
}

fn same_out<P: Pairing>(a: &Out<P>, b: &Out<P>) -> bool {
    match (a, b) {
        (Out::Kzg(p, v), Out::Kzg(q, w)) => p == q && v.g == w.g && v.h == w.h && v.g_beta == w.g_beta && v.h_alpha == w.h_alpha,
        (Out::Srs(s, k), Out::Srs(t, l)) => same_srs(s, t) && k == l,
        (Out::Keys(a, b), Out::Keys(c, d)) => a == c && b == d,
        _ => false,
    }
}

/// Number of rows and columns the setup has to have
fn capacity(p: &Poly, rows: usize, cols: usize) -> Result<(), String> {
    match *p {
        Poly::Kzg(d) => ensure!(cols >= d + 1, "{} powers for degree {}", cols, d),
        Poly::Biv(x, y) | Poly::TransBiv(x, y) => {
            ensure!(rows == x + 1 && cols >= y + 1, "keys for {} by {} coefficients, degrees are {} and {}", rows, cols, x, y)
        }
        Poly::Uni(d) | Poly::TransUni(d) => {
            ensure!(rows * cols >= d + 1, "keys for {} by {} coefficients, degree {}", rows, cols, d);
            ensure!(rows.is_power_of_two(), "{} rows", rows);
        }
    }
    Ok(())
}

fn poly<P: Dlog>(c: &PolyCase) -> R {
    let mut r = AnyRng::new(c.source, c.seed);
    let o = poly_setup::<P>(&c.poly, &mut r)?;
    let mut r2 = AnyRng::new(c.source, c.seed);
    ensure!(same_out(&o, &poly_setup::<P>(&c.poly, &mut r2)?), "the same randomness gives another setup");
    ensure!(r.next_u64() == r2.next_u64(), "another amount of randomness is taken");
    let mut known = vec![];
    let second = poly_setup::<P>(&c.poly, &mut r)?;
    let third = poly_setup::<P>(&c.poly, &mut AnyRng::new(c.source, if c.other == c.seed { !c.seed } else { c.other }))?;
    for o in [&o, &second, &third] {
        match o {
            Out::Kzg(p, v) => {
                capacity(&c.poly, 1, p.len())?;
                let a: Vec<Sf<P>> = p.iter().map(|x| P::d1(&x.into_group())).collect();
                let (g, h) = (P::d1(&v.g), P::d2(&v.h));
                ensure!(a[0] == g && !g.is_zero() && !h.is_zero(), "generators of powers and verifier key differ, or are zero");
                let (alpha, beta) = (P::d2(&v.h_alpha) * inv(&h), P::d1(&v.g_beta) * inv(&g));
                consecutive("powers of alpha", &a, &alpha)?;
                secrets(&alpha, &beta)?;
                known.extend([alpha, beta]);
            }
            Out::Srs(s, k) => {
                let (rows, _) = keys::<P>(s)?;
                capacity(&c.poly, rows, k.len())?;
                // alpha from h_alpha; its powers are those of the second tuple
                let (alpha, beta) = srs_dl::<P>(s)?;
                let a: Vec<Sf<P>> = k.iter().map(|x| P::d1(&x.into_group())).collect();
                ensure!(a[0] == P::d1(&s.g_alpha_powers[0]), "generators differ");
                consecutive("powers of alpha", &a, &alpha)?;
                known.extend([alpha, beta]);
            }
            Out::Keys(a, b) => {
                capacity(&c.poly, b.len(), a.len())?;
                let a: Vec<Sf<P>> = a.iter().map(P::d1).collect();
                let b: Vec<Sf<P>> = b.iter().map(P::d2).collect();
                ensure!(a.len().is_power_of_two() && b.len().is_power_of_two(), "{} and {} keys", a.len(), b.len());
                independent("first tier", &a)?;
                independent("second tier", &b)?;
                ensure!(a.iter().all(|x| !b.contains(x)), "both tiers have a key in common");
                known.extend(a);
                known.extend(b);
            }
        }
    }
    own_randomness("secrets and keys", c.seed ^ c.other, &|r| {
        Ok(match poly_setup::<P>(&c.poly, r)? {
            Out::Kzg(_, v) => vec![P::d2(&v.h_alpha), P::d1(&v.g_beta)],
            Out::Srs(s, _) => vec![P::d2(&s.h_alpha), P::d1(&s.g_beta)],
            Out::Keys(a, b) => a.iter().map(P::d1).chain(b.iter().map(P::d2)).collect(),
        })
    })?;
    let n = known.len();
    known.sort();
    known.dedup();
    ensure!(n == known.len(), "secrets or keys do not depend on the randomness");
    let nontrivial = !matches!(c.poly, Poly::Kzg(0) | Poly::Uni(0) | Poly::TransUni(0));
    Ok(pass(nontrivial).class(format!("{:?}", c.poly).split('(').next().unwrap().to_string()))
}

fn poly_real<P: CurveEx>(c: &PolyCase) -> R {
    let mut r = AnyRng::new(c.source, c.seed);
    let o = poly_setup::<P>(&c.poly, &mut r)?;
    ensure!(same_out(&o, &poly_setup::<P>(&c.poly, &mut AnyRng::new(c.source, c.seed))?), "the same randomness gives another setup");
    ensure!(!same_out(&o, &poly_setup::<P>(&c.poly, &mut r)?), "other randomness gives the same setup");
    let full = |p: &[P::G1Affine], g_beta, h, h_alpha| SRS::<P> { g_alpha_powers: p.iter().map(|x| x.into_group()).collect(), h_beta_powers: vec![h], g_beta, h_alpha };
    match &o {
        Out::Kzg(p, v) => {
            capacity(&c.poly, 1, p.len())?;
            ensure!(p[0].into_group() == v.g, "generators differ");
            srs_pairing::<P>(&full(p, v.g_beta, v.h, v.h_alpha), c.other)?;
        }
        Out::Srs(s, k) => {
            let (rows, _) = keys::<P>(s)?;
            capacity(&c.poly, rows, k.len())?;
            ensure!(k[0].into_group() == s.g_alpha_powers[0], "generators differ");
            srs_pairing::<P>(s, c.other)?;
            srs_pairing::<P>(&full(k, s.g_beta, s.h_beta_powers[0], s.h_alpha), c.other)?;
        }
        Out::Keys(a, b) => {
            capacity(&c.poly, b.len(), a.len())?;
            ensure!(a.iter().all(|x| !x.is_zero()) && b.iter().all(|x| !x.is_zero()), "an identity is a key");
        }
    }
    Ok(pass(true).class(format!("{:?}", c.poly).split('(').next().unwrap().to_string()))
}

// ---------------------------------------------------------------- power helpers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pw {
    n: usize,
    base: Sc,
    s: Sc,
    threads: usize,
}

fn pw(hi: usize) -> impl Fn() -> BoxedStrategy<Pw> + Send + Sync + 'static {
    move || (size(hi), sc(), sc_point(), threads()).prop_map(|(n, base, s, threads)| Pw { n, base, s, threads }).boxed()
}

fn group_powers<G: CurveGroup>(c: &Pw) -> R {
    let (b, s): (G::ScalarField, G::ScalarField) = (c.base.f(), c.s.f());
    let g = G::generator() * b;
    let v = with_threads(c.threads, || quiet(|| structured_generators_scalar_power(c.n, &g, &s)))?;
    ensure!(v.len() == c.n, "{} powers instead of {}", v.len(), c.n);
    let mut x = b;
    for (i, p) in v.iter().enumerate() {
        ensure!(*p == G::generator() * x, "element {} of {} is not base * s^{}", i, c.n, i);
        x *= s;
    }
    Ok(pass(!b.is_zero() && !s.is_zero() && c.n > 1).class(format!("2^{}..", c.n.ilog2())).class(format!("{:?}", c.s).split('(').next().unwrap().to_string()))
}

/// Many powers: relation of neighbours with random weights, and single elements
fn group_powers_sampled<G: CurveGroup>(c: &Pw) -> R {
    let (b, s): (G::ScalarField, G::ScalarField) = (c.base.nz(), c.s.f());
    let g = G::generator() * b;
    let v = with_threads(c.threads, || quiet(|| structured_generators_scalar_power(c.n, &g, &s)))?;
    ensure!(v.len() == c.n, "{} powers instead of {}", v.len(), c.n);
    let want = powers(c.n, s);
    let mut r = rng(c.n as u64);
    let w: Vec<G::ScalarField> = (0..c.n).map(|_| G::ScalarField::rand(&mut r)).collect();
    let got = G::msm(&G::normalize_batch(&v), &w).unwrap();
    let sum: G::ScalarField = want.iter().zip(&w).map(|(x, w)| *x * w).sum();
    ensure!(got == g * sum, "the powers are not base * s^i ({} of them)", c.n);
    Ok(pass(!s.is_zero() && c.n > 1).class(format!("2^{}..", c.n.ilog2())))
}

fn scalar_powers<F: PrimeField>(c: &Pw) -> R {
    let s: F = c.s.f();
    let v = with_threads(c.threads, || quiet(|| structured_scalar_power(c.n, &s)))?;
    ensure!(v.len() == c.n, "{} powers instead of {}", v.len(), c.n);
    let mut x = F::one();
    for (i, p) in v.iter().enumerate() {
        ensure!(*p == x, "element {} of {} is not s^{}", i, c.n, i);
        x *= s;
    }
    Ok(pass(!s.is_zero() && !s.is_one() && c.n > 1).class(format!("2^{}..", c.n.ilog2())))
}

/// Commitment and verifier key of any SRS, however it was made
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Any {
    n: usize,
    m: usize,
    v: Vs,
    w: Vs,
}

fn any_srs<P: Dlog>(c: &Any) -> R {
    let (a, b): (Vec<Sf<P>>, Vec<Sf<P>>) = (c.v.f(c.n), c.w.f(c.m));
    let s = SRS::<P> { g_alpha_powers: P::g1s(&a), h_beta_powers: P::g2s(&b), g_beta: P::g1(&b[c.m - 1]), h_alpha: P::g2(&a[c.n - 1]) };
    let (k1, k2) = keys::<P>(&s)?;
    ensure!(k1 == (c.m + 1) / 2 && k2 == (c.n + 1) / 2, "{} and {} keys from {} and {} powers", k1, k2, c.m, c.n);
    Ok(pass(c.n > 1 && c.m > 1))
}

fn c22() -> Vec<Scenario> {
    let any = || (size(40), size(40), vs(), vs()).prop_map(|(n, m, v, w)| Any { n, m, v, w }).boxed();
    vec![
        Scenario::new("tipa", 1500, 40_000, case(80), tipa::<Big>),
        Scenario::new("tipa/large", 24, 400, case(3000), tipa::<Big>),
        Scenario::new("tipa/bls12-381", 60, 1000, case(40), tipa_real::<Bls>),
        Scenario::new("tipa/bls12-377", 20, 400, case(20), tipa_real::<Bls377>),
        Scenario::new("tipa/bw6-761", 6, 100, case(10), tipa_real::<Bw6>),
        Scenario::new("poly-commit", 1500, 40_000, poly_case(256), poly::<Big>),
        Scenario::new("poly-commit/large", 24, 400, poly_case(6000), poly::<Big>),
        Scenario::new("poly-commit/bls12-381", 40, 600, poly_case(64), poly_real::<Bls>),
        Scenario::new("keys", 500, 10_000, any, any_srs::<Big>),
        Scenario::new("powers/group", 1500, 40_000, pw(300), group_powers::<<Big as Pairing>::G1>),
        Scenario::new("powers/group/large", 60, 1000, pw(9000), group_powers::<<Big as Pairing>::G2>),
        Scenario::new("powers/group/small-order", 800, 20_000, pw(600), group_powers::<<Small as Pairing>::G1>),
        Scenario::new("powers/group/bls12-381", 60, 1000, pw(80), group_powers::<<Bls as Pairing>::G1>),
        Scenario::new("powers/group/bls12-381-g2", 30, 500, pw(40), group_powers::<<Bls as Pairing>::G2>),
        Scenario::new("powers/group/bls12-381-large", 16, 200, pw(3000), group_powers_sampled::<<Bls as Pairing>::G1>),
        Scenario::new("powers/group/jubjub", 60, 1000, pw(80), group_powers::<ark_ed_on_bls12_381::EdwardsProjective>),
        Scenario::new("powers/scalar", 3000, 80_000, pw(600), scalar_powers::<Sf<Big>>),
        Scenario::new("powers/scalar/large", 300, 8000, pw(30_000), scalar_powers::<Sf<Bls>>),
        Scenario::new("powers/scalar/small-field", 1000, 20_000, pw(1200), scalar_powers::<Sf<Small>>),
    ]
}

// ---------------------------------------------------------------- C27: entropy

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Which {
    Afgho1(usize),
    Afgho2(usize),
    Pedersen(usize),
    GipaPair(usize),
    GipaScal(usize),
    GipaSsm(usize),
    Tipa(Kind, usize),
    Poly(Poly),
}

/// One setup, run with many randomnesses
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Family {
    which: Which,
    from: From,
    seed: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum From {
    /// a generator each, of unrelated seeds
    Seeds,
    /// a generator each, of consecutive seeds
    Counted,
    /// all from one generator
    Stream,
}

fn family(hi: usize) -> impl Fn() -> BoxedStrategy<Family> + Send + Sync + 'static {
    move || {
        let n = move || 1..=hi;
        let kind = prop_oneof![
            Just(Kind::TipaPair), Just(Kind::TipaMsm), Just(Kind::TipaScalKey), Just(Kind::SsmMsm), Just(Kind::SsmScalKey), Just(Kind::Groth),
        ];
        let deg = move || 0..4 * hi;
        let xdeg = || (0u32..=2).prop_map(|k| (1usize << k) - 1);
        let poly = prop_oneof![
            deg().prop_map(Poly::Kzg),
            (xdeg(), deg()).prop_map(|(x, y)| Poly::Biv(x, y)),
            deg().prop_map(Poly::Uni),
            (xdeg(), xdeg()).prop_map(|(x, y)| Poly::TransBiv(x, y)),
            (0..=hi).prop_map(Poly::TransUni),
        ];
        let which = prop_oneof![
            1 => n().prop_map(Which::Afgho1), 1 => n().prop_map(Which::Afgho2), 1 => n().prop_map(Which::Pedersen),
            1 => n().prop_map(Which::GipaPair), 1 => n().prop_map(Which::GipaScal), 1 => n().prop_map(Which::GipaSsm),
            4 => (kind, n()).prop_map(|(k, n)| Which::Tipa(k, n)), 4 => poly.prop_map(Which::Poly),
        ];
        let from = prop_oneof![Just(From::Seeds), Just(From::Counted), Just(From::Stream)];
        (which, from, any::<u64>()).prop_map(|(which, from, seed)| Family { which, from, seed }).boxed()
    }
}

/// Everything random in a setup, as logarithms
fn unknowns<P: Dlog>(w: &Which, r: &mut impl RngCore) -> Result<Vec<Sf<P>>, String> {
    type D = Blake2b;
    let s1 = |k: Vec<P::G1>| k.iter().map(P::d1).collect::<Vec<_>>();
    let s2 = |k: Vec<P::G2>| k.iter().map(P::d2).collect::<Vec<_>>();
    Ok(match *w {
        Which::Afgho1(n) => s2(attempt(|| AFGHOCommitmentG1::<P>::setup(r, n))?),
        Which::Afgho2(n) => s1(attempt(|| AFGHOCommitmentG2::<P>::setup(r, n))?),
        Which::Pedersen(n) => s1(attempt(|| PedersenCommitment::<P::G1>::setup(r, n))?),
        Which::GipaPair(n) => {
            let (a, b, _) = attempt(|| Gp::<Pair<P>, D>::setup(r, n))?;
            s2(a).into_iter().chain(s1(b)).collect()
        }
        Which::GipaScal(n) => {
            let (a, b, t) = attempt(|| Gp::<ScalKey<P>, D>::setup(r, n))?;
            s2(a).into_iter().chain(s1(b)).chain(s1(vec![t])).collect()
        }
        Which::GipaSsm(n) => {
            let (a, t) = attempt(|| Gs::<ScalKey<P>, D>::setup(r, n))?;
            s2(a).into_iter().chain(s1(vec![t])).collect()
        }
        Which::Tipa(kind, n) => {
            let (s, k) = tipa_setup::<P>(kind, r, n)?;
            [P::d2(&s.h_alpha) * inv(&P::d2(&s.h_beta_powers[0])), P::d1(&s.g_beta) * inv(&P::d1(&s.g_alpha_powers[0]))]
                .into_iter()
                .chain(k.map(|k| P::d1(&k)))
                .collect()
        }
        Which::Poly(ref p) => match poly_setup::<P>(p, r)? {
            Out::Kzg(_, v) => vec![P::d2(&v.h_alpha) * inv(&P::d2(&v.h)), P::d1(&v.g_beta) * inv(&P::d1(&v.g))],
            Out::Srs(s, _) => {
                vec![P::d2(&s.h_alpha) * inv(&P::d2(&s.h_beta_powers[0])), P::d1(&s.g_beta) * inv(&P::d1(&s.g_alpha_powers[0]))]
            }
            Out::Keys(a, b) => s1(a).into_iter().chain(s2(b)).collect(),
        },
    })
}

/// The bits of a setup's secrets, their inverses and opposites take all values, jointly
fn entropy<P: Dlog>(c: &Family) -> R {
    let m = unknowns::<P>(&c.which, &mut rng(c.seed))?.len();
    let bits = Sf::<P>::MODULUS_BIT_SIZE as usize;
    let count = bits * m + 64;
    let all = sample::<P>(c, count)?;
    let limbs = |x: &Sf<P>| x.into_bigint().as_ref().to_vec();
    let inverse = |x: &Sf<P>| inv(x);
    for (name, g) in [("secrets", &(|x: &Sf<P>| *x) as &dyn Fn(&Sf<P>) -> Sf<P>), ("inverses of the secrets", &inverse), ("opposites of the secrets", &|x: &Sf<P>| -*x)] {
        let rows: Vec<Vec<Vec<u64>>> = all.iter().map(|v| v.iter().map(|x| limbs(&g(x))).collect()).collect();
        for i in 0..m {
            let r = rank(&rows.iter().map(|v| v[i].clone()).collect::<Vec<_>>());
            ensure!(r + 8 >= bits, "only {} of {} bits of number {} of the {} are free ({} setups)", r, bits, i, name, count);
        }
        let r = rank(&rows.iter().map(|v| v.concat()).collect::<Vec<_>>());
        ensure!(r + 8 * m >= bits * m, "only {} of {} bits of all {} are free ({} setups)", r, bits * m, name, count);
    }
    let w = format!("{:?}", c.which);
    Ok(pass(true).class(w.replace("Tipa(", "").replace("Poly(", "").split('(').next().unwrap().split(',').next().unwrap().to_string()).class(format!("{:?}", c.from)))
}

fn sample<P: Dlog>(c: &Family, count: usize) -> Result<Vec<Vec<Sf<P>>>, String> {
    let mut one = rng(c.seed);
    let all = (0..count as u64)
        .map(|j| match c.from {
            From::Stream => unknowns::<P>(&c.which, &mut one),
            From::Counted => unknowns::<P>(&c.which, &mut rng(c.seed.wrapping_add(j))),
            From::Seeds => unknowns::<P>(&c.which, &mut rng(c.seed.wrapping_add(j).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(29))),
        })
        .collect::<Result<Vec<_>, String>>()?;
    let m = all[0].len();
    ensure!(m > 0, "no secrets");
    ensure!(all.iter().all(|v| v.len() == m), "setups with different numbers of secrets");
    Ok(all)
}

/// No secret of a setup is an algebraic function of another one, of the same or of the previous
/// setup, and none shares its randomness with another
fn dependence<P: Dlog>(c: &Family) -> R {
    let all = sample::<P>(c, SAMPLES + 1)?;
    let m = all[0].len();
    let mut g = rng(!c.seed);
    let mut groups: Vec<Vec<usize>> = (0..m).map(|i| vec![i]).take(20).collect();
    groups.extend((1..m).map(|i| vec![i - 1, i]).take(12));
    groups.extend((2..m).map(|i| vec![i - 2, i - 1, i]).take(6));
    if m > 2 {
        for _ in 0..12 {
            let (i, j) = (g.gen_range(0..m), g.gen_range(0..m));
            if i != j {
                groups.push(vec![i, j]);
            }
        }
    }
    for i in groups {
        let v: Vec<Vec<Sf<P>>> = all[1..].iter().map(|v| i.iter().map(|i| v[*i]).collect()).collect();
        unrelated(&format!("secrets {:?} of {}", i, m), &v)?;
    }
    for k in 0..m.min(8) {
        let (i, j) = if k < 2 { (k, k) } else { (g.gen_range(0..m), g.gen_range(0..m)) };
        let v: Vec<Vec<Sf<P>>> = all.windows(2).map(|w| vec![w[0][i], w[1][j]]).collect();
        unrelated(&format!("secret {} of a setup and {} of the next one", i, j), &v)?;
    }
    own_randomness("secrets", c.seed, &|r| unknowns::<P>(&c.which, r))?;
    let w = format!("{:?}", c.which);
    Ok(pass(m > 1).class(w.replace("Tipa(", "").replace("Poly(", "").split('(').next().unwrap().split(',').next().unwrap().to_string()).class(format!("{:?}", c.from)))
}

fn c27() -> Vec<Scenario> {
    vec![
        Scenario::new("setups", 400, 8000, family(4), entropy::<Big>),
        Scenario::new("setups/larger", 30, 500, family(12), entropy::<Big>),
        Scenario::new("dependence", 400, 8000, family(8), dependence::<Big>),
        Scenario::new("dependence/larger", 100, 2000, family(50), dependence::<Big>),
    ]
}

fn main() {
    ripp_check::fw::main(&[Property {
        id: "C22",
        rule: "more than one element, and neither base nor scalar degenerate",
        assumptions: &["arkworks groups and fields compute correctly"],
        scenarios: c22,
    }, Property {
        id: "C27",
        rule: "the logarithms of all secrets and keys of as many setups as they have bits, and 64 more, are read and tested",
        assumptions: &["setups over the mock curve take their secrets as those over real ones do", "the randomness handed in is good", "dependences that are neither linear over the bits of the secrets, of their inverses or of their opposites, nor algebraic of small degree, are recognised only by the words of randomness that two secrets share"],
        scenarios: c27,
    }]);
}
