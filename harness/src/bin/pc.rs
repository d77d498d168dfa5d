//! C12 (KZG), C13 and C14 (polynomial commitments with an SRS).
use ark_ec::CurveGroup;
use ark_ff::{Field, One, PrimeField, Zero};
use ark_ip_proofs::applications::poly_commit::{
    BivariatePolynomial, BivariatePolynomialCommitment, OpeningProof, UnivariatePolynomialCommitment, KZG,
};
use ark_ip_proofs::tipa::{VerifierSRS, SRS};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, Prog};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::poly::*;
use ripp_check::srs::*;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};

type Sf<P> = <P as ark_ec::pairing::Pairing>::ScalarField;
type A1<P> = <P as ark_ec::pairing::Pairing>::G1Affine;

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

fn first_word(s: String) -> String {
    s.split(['(', ' ']).next().unwrap().to_string()
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KzgDo {
    Honest,
    /// a sum of two polynomials, and a multiple
    Add(Vs, Shape, Sc),
    TooLong(u8),
    WrongValue,
    WrongCom,
    WrongPoint,
    WrongProof,
    ZeroProof,
    /// value and proof of another polynomial
    OtherPoly(u64),
    /// wrong value, with the proof that would fit if the point were something else
    OtherPointProof,
    OtherKey(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Kz {
    degree: usize,
    /// secret; None: the library's setup
    alpha: Option<Sc>,
    seed: u64,
    shape: Shape,
    coeffs: Vs,
    point: Sc,
    /// the point is the secret, or a root of the polynomial
    special: u8,
    what: KzgDo,
    delta: Sc,
    threads: usize,
}

fn kzg_case(max: usize) -> impl Fn() -> BoxedStrategy<Kz> + Send + Sync + 'static {
    move || {
        let what = prop_oneof![
            6 => Just(KzgDo::Honest),
            2 => (vs(), shape(), sc()).prop_map(|(a, b, c)| KzgDo::Add(a, b, c)),
            2 => (1u8..20).prop_map(KzgDo::TooLong),
            2 => Just(KzgDo::WrongValue),
            1 => Just(KzgDo::WrongCom),
            1 => Just(KzgDo::WrongPoint),
            2 => Just(KzgDo::WrongProof),
            1 => Just(KzgDo::ZeroProof),
            2 => any::<u64>().prop_map(KzgDo::OtherPoly),
            1 => Just(KzgDo::OtherPointProof),
            2 => (0u8..3).prop_map(KzgDo::OtherKey),
        ];
        let degree = prop_oneof![3 => 0..=8usize, 2 => 0..=40usize, 1 => 0..=max].prop_map(move |d| d.min(max));
        ((degree, prop::option::of(sc()), any::<u64>(), shape(), vs()), (sc(), 0u8..6, what, delta(), threads()))
            .prop_map(|((degree, alpha, seed, shape, coeffs), (point, special, what, delta, threads))| Kz {
                degree, alpha, seed, shape, coeffs, point, special, what, delta, threads,
            })
            .boxed()
    }
}

fn kzg<P: CurveEx>(c: &Kz) -> R {
    let n = c.degree + 1;
    let f = |p: &[Sf<P>]| dense(p);
    let (mut coeffs, mut z): (Vec<Sf<P>>, Sf<P>) = (c.coeffs.f(c.shape.len(n)), c.point.f());
    let delta: Sf<P> = c.delta.nz();
    let related = delta.into_bigint().as_ref()[0] % 4 == 0;
    let one = Sf::<P>::one();
    let (powers, mut vk, alpha): (Vec<A1<P>>, VerifierSRS<P>, Option<Sf<P>>) = match &c.alpha {
        Some(a) => {
            let a: Sf<P> = a.nz();
            let beta = Sf::<P>::from(c.seed | 1);
            let vk = VerifierSRS { g: P::g1(&one), h: P::g2(&one), g_beta: P::g1(&beta), h_alpha: P::g2(&a) };
            (P::g1a(&ripp_check::gen::powers(n, a)), vk, Some(a))
        }
        None => {
            let (p, v) = attempt(|| KZG::<P>::setup(&mut rng(c.seed), c.degree))?;
            ensure!(p.len() >= n, "setup for degree {} has {} powers", c.degree, p.len());
            (p, v, None)
        }
    };
    match (c.special, alpha) {
        (0, Some(a)) => z = a,
        (1, _) => coeffs = with_root(&coeffs, &z),
        _ => {}
    }
    let v = eval(&coeffs, &z);
    let poly = f(&coeffs);
    let (com, proof) = run(c.threads, || -> Result<_, String> {
        Ok((attempt(|| KZG::<P>::commit(&powers, &poly))?, attempt(|| KZG::<P>::open(&powers, &poly, &z))?))
    })?;
    if let Some(a) = alpha {
        ensure!(com == P::g1(&eval(&coeffs, &a)), "commitment is not the evaluation in the exponent");
    }
    let ver = |vk: &VerifierSRS<P>, com: &P::G1, z: &Sf<P>, v: &Sf<P>, p: &P::G1| verdict(|| KZG::<P>::verify(vk, com, z, v, p));
    let r = ver(&vk, &com, &z, &v, &proof);
    ensure!(r == V::True, "honest opening of a polynomial of {} coefficients (setup degree {}): {:?}", coeffs.len(), c.degree, r);
    let name = first_word(format!("{:?}", c.what));
    let ok = |nt: bool| Ok(pass(nt).class(name.clone()).class(c.shape.class()));
    let reject = |r: V| {
        ensure!(r != V::True, "accepted: {:?}", c.what);
        Ok(pass(true).class(name.clone()).class(c.shape.class()))
    };
    match &c.what {
        KzgDo::Honest => ok(poly.coeffs.len() > 1),
        KzgDo::Add(o, s, k) => {
            let q: Vec<Sf<P>> = o.f(s.len(n));
            let k: Sf<P> = k.f();
            let sum: Vec<Sf<P>> = (0..n)
                .map(|i| coeffs.get(i).copied().unwrap_or_default() + k * q.get(i).copied().unwrap_or_default())
                .collect();
            let cq = attempt(|| KZG::<P>::commit(&powers, &f(&q)))?;
            let cs = attempt(|| KZG::<P>::commit(&powers, &f(&sum)))?;
            ensure!(cs == com + cq * k, "commitments are not additive");
            let (pq, ps) = (attempt(|| KZG::<P>::open(&powers, &f(&q), &z))?, attempt(|| KZG::<P>::open(&powers, &f(&sum), &z))?);
            ensure!(ps == proof + pq * k, "openings are not additive");
            ok(true)
        }
        KzgDo::TooLong(k) => {
            let mut p = coeffs.clone();
            p.resize(powers.len() + *k as usize, Sf::<P>::zero());
            *p.last_mut().unwrap() = delta;
            ensure!(attempt(|| KZG::<P>::commit(&powers, &f(&p))).is_err(), "a polynomial of {} coefficients is committed to under {} powers", p.len(), powers.len());
            ensure!(attempt(|| KZG::<P>::open(&powers, &f(&p), &z)).is_err(), "a polynomial of {} coefficients is opened under {} powers", p.len(), powers.len());
            ok(true)
        }
        KzgDo::WrongValue => reject(ver(&vk, &com, &z, &(v + toward(&v, &delta)), &proof)),
        KzgDo::WrongCom => {
            let other = if related && !com.is_zero() { -com } else { com + P::g1(&delta) };
            reject(ver(&vk, &other, &z, &v, &proof))
        }
        KzgDo::WrongPoint => {
            let z2 = z + toward(&z, &delta);
            if eval(&coeffs, &z2) == v || proof.is_zero() { return skip("still true"); }
            reject(ver(&vk, &com, &z2, &v, &proof))
        }
        KzgDo::WrongProof => {
            if Some(z) == alpha { return skip("proof is immaterial at the secret"); }
            let other = if related && !proof.is_zero() { -proof } else { proof + P::g1(&delta) };
            reject(ver(&vk, &com, &z, &v, &other))
        }
        KzgDo::ZeroProof => {
            if proof.is_zero() || Some(z) == alpha { return skip("proof is zero"); }
            reject(ver(&vk, &com, &z, &v, &P::G1::zero()))
        }
        KzgDo::OtherPoly(s) => {
            let q: Vec<Sf<P>> = Vs { pat: Pat::Rand(*s), over: vec![] }.f(n);
            let vq = eval(&q, &z);
            if vq == v || Some(z) == alpha { return skip("same value"); }
            let pq = attempt(|| KZG::<P>::open(&powers, &f(&q), &z))?;
            let cq = attempt(|| KZG::<P>::commit(&powers, &f(&q)))?;
            for (c, v, p) in [(&com, &vq, &pq), (&com, &vq, &proof), (&cq, &v, &pq), (&cq, &v, &proof)] {
                if ver(&vk, c, &z, v, p) == V::True {
                    return reject(V::True);
                }
            }
            reject(V::False)
        }
        KzgDo::OtherPointProof => {
            let z2 = z + toward(&z, &delta);
            let v2 = eval(&coeffs, &z2);
            if v2 == v { return skip("same value"); }
            let p2 = attempt(|| KZG::<P>::open(&powers, &poly, &z2))?;
            let r = ver(&vk, &com, &z, &v2, &p2);
            reject(r)
        }
        KzgDo::OtherKey(k) => {
            match k {
                0 => vk.g += P::g1(&delta),
                1 => vk.h += P::g2(&delta),
                _ => vk.h_alpha += P::g2(&delta),
            }
            if (*k == 0 && v.is_zero()) || (*k == 2 && proof.is_zero()) { return skip("element is not used"); }
            if *k == 1 {
                // h occurs on both sides
                let lhs_changes = com != P::g1(&v);
                let rhs_changes = !(proof * z).is_zero();
                if !lhs_changes && !rhs_changes { return skip("element is not used"); }
                if let Some(a) = alpha {
                    let q = if a == z { return skip("at the secret") } else { (eval(&coeffs, &a) - v) * inv(&(a - z)) };
                    // (p(a) - v) * (1 + delta) == q * (a - z * (1 + delta))
                    if (eval(&coeffs, &a) - v) * (one + delta) == q * (a - z * (one + delta)) { return skip("still true"); }
                }
                if alpha.is_none() { return skip("unknown secret"); }
            }
            reject(ver(&vk, &com, &z, &v, &proof))
        }
    }
}

fn c12() -> Vec<Scenario> {
    vec![
        Scenario::new("mock", 12_000, 300_000, kzg_case(300), kzg::<Big>),
        Scenario::new("small-group", 3000, 60_000, kzg_case(60), kzg_small),
        Scenario::new("bls12-381", 800, 20_000, kzg_case(24), kzg::<Bls>),
        Scenario::new("bls12-377", 300, 8_000, kzg_case(16), kzg::<Bls377>),
        Scenario::new("bw6-761", 40, 1000, kzg_case(12), kzg::<Bw6>),
        Scenario::new("long/bls12-381", 24, 400, kzg_case(300), kzg::<Bls>),
    ]
}

/// In the 251-element group wrong openings are accepted by chance; only the honest ones are judged.
fn kzg_small(c: &Kz) -> R {
    let mut c = c.clone();
    if !matches!(c.what, KzgDo::Honest | KzgDo::Add(..) | KzgDo::TooLong(_)) {
        c.what = KzgDo::Honest;
    }
    kzg::<Small>(&c)
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    /// univariate: setup degree; bivariate: log2 of the number of rows
    size: usize,
    /// bivariate: degree of the rows
    y_degree: usize,
    shape: Shape,
    biv: Biv,
    root: bool,
    x: Sc,
    y: Sc,
    secrets: Option<(Sc, Sc)>,
    seed: u64,
    /// coefficient that is changed to get another polynomial
    other: (u16, Sc),
    /// beyond the capacity: this many more coefficients (or rows)
    beyond: Option<(u8, bool)>,
    threads: usize,
}

fn complete_case(sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, y_max: usize) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        let beyond = prop::option::weighted(0.15, (1u8..12, any::<bool>()));
        let y = prop_oneof![2 => 0..=3usize, 2 => 0..=y_max].prop_map(move |d| d.min(y_max));
        let root = prop::bool::weighted(0.3);
        (
            (sizes(), y, shape(), biv(), root, sc(), sc()),
            (prop::option::of((sc(), sc())), any::<u64>(), (any::<u16>(), delta()), beyond, threads()),
        )
            .prop_map(|((size, y_degree, shape, biv, root, x, y), (secrets, seed, other, beyond, threads))| Complete {
                size, y_degree, shape, biv, root, x, y, secrets, seed, other, beyond, threads,
            })
            .boxed()
    }
}

fn degrees(max: usize) -> BoxedStrategy<usize> {
    // around the powers of four the shape of the setup changes
    let edge = (0u32..10, 0usize..4).prop_map(move |(k, d)| ((1usize << k) + d).saturating_sub(2).min(max));
    prop_oneof![3 => 0..=max.min(20), 2 => edge, 2 => 0..=max].boxed()
}

type Srs<P> = (SRS<P>, Vec<A1<P>>);

/// A setup of the same shape with given secrets
fn own_srs<P: CurveEx>(like: &Srs<P>, alpha: &Sf<P>, beta: &Sf<P>) -> Srs<P> {
    (
        SRS {
            g_alpha_powers: vec![P::g1(&Sf::<P>::one())],
            h_beta_powers: P::g2s(&powers(like.0.h_beta_powers.len(), *beta)),
            g_beta: P::g1(beta),
            h_alpha: P::g2(alpha),
        },
        P::g1a(&powers(like.1.len(), *alpha)),
    )
}

fn complete_uni<P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    type Upc<P, D> = UnivariatePolynomialCommitment<P, D>;
    let degree = c.size;
    let mut srs = attempt(|| Upc::<P, D>::setup(&mut rng(c.seed), degree)).map_err(|e| format!("setup for degree {}: {}", degree, e))?;
    let capacity = (srs.0.h_beta_powers.len() + 1) / 2 * srs.1.len();
    ensure!(capacity > degree, "setup for degree {} has room for {} coefficients", degree, capacity);
    if let Some((a, b)) = &c.secrets {
        srs = own_srs::<P>(&srs, &a.nz(), &b.nz());
    }
    let vk = srs.0.get_verifier_key();
    let z: Sf<P> = c.y.f();
    let all = c.biv.coeffs.f::<Sf<P>>(degree + 1);
    let mut p = all[..c.shape.len(degree + 1)].to_vec();
    if c.root {
        p = with_root(&p, &z);
    }
    if let Some((k, _)) = c.beyond {
        p.resize(capacity + k as usize, Sf::<P>::zero());
        *p.last_mut().unwrap() = c.other.1.nz();
        let poly = dense(&p);
        ensure!(attempt(|| Upc::<P, D>::commit(&srs, &poly)).is_err(), "a polynomial of {} coefficients is committed to under a setup for {}", p.len(), capacity);
        // row commitments of a truncated polynomial
        let (_, rows) = attempt(|| Upc::<P, D>::commit(&srs, &dense(&p[..capacity])))?;
        ensure!(attempt(|| Upc::<P, D>::open(&srs, &poly, &rows, &z)).is_err(), "a polynomial of {} coefficients is opened under a setup for {}", p.len(), capacity);
        return Ok(pass(true).class("too long"));
    }
    let (v, poly) = (eval(&p, &z), dense(&p));
    let res = run(c.threads, || -> Result<V, String> {
        let (com, rows) = attempt(|| Upc::<P, D>::commit(&srs, &poly))?;
        let proof = attempt(|| Upc::<P, D>::open(&srs, &poly, &rows, &z))?;
        // another polynomial has another commitment
        let mut q = p.clone();
        q.resize(degree + 1, Sf::<P>::zero());
        q[c.other.0 as usize % (degree + 1)] += c.other.1.nz::<Sf<P>>();
        let (com2, _) = attempt(|| Upc::<P, D>::commit(&srs, &dense(&q)))?;
        ensure!(com != com2 || P::NAME == "mock251", "two polynomials of degree at most {} have the same commitment", degree);
        Ok(verdict(|| Upc::<P, D>::verify(&vk, degree, &com, &z, &v, &proof)))
    })?;
    ensure!(res == V::True, "honest opening of {} coefficients, setup degree {}: {:?}", p.len(), degree, res);
    Ok(pass(poly.coeffs.len() > 1)
        .class(c.shape.class())
        .class(if z.is_zero() { "point 0" } else if v.is_zero() { "root" } else { "other point" })
        .class(match degree { 0 => "degree 0", 1..=8 => "degree 1..8", 9..=63 => "degree 9..63", _ => "degree 64.." }))
}

fn complete_biv<P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    type Bpc<P, D> = BivariatePolynomialCommitment<P, D>;
    let (rows, len) = (1usize << c.size, c.y_degree + 1);
    let mut srs = attempt(|| Bpc::<P, D>::setup(&mut rng(c.seed), rows - 1, len - 1))?;
    let vk0 = srs.0.get_verifier_key();
    ensure!(srs.0.get_commitment_keys().0.len() == rows && srs.1.len() == len, "setup of another shape");
    let mut model = None;
    if let Some((a, b)) = &c.secrets {
        let (alpha, beta): (Sf<P>, Sf<P>) = (a.nz(), b.nz());
        srs = own_srs::<P>(&srs, &alpha, &beta);
        model = Some((alpha, beta));
    }
    let vk = if model.is_some() { srs.0.get_verifier_key() } else { vk0 };
    let (x, y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let mut p = c.biv.f::<Sf<P>>(rows, len);
    if c.root {
        p = p.iter().map(|r| with_root(r, &y)).collect();
    }
    let f = |p: &[Vec<Sf<P>>]| BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
    if let Some((k, too_many_rows)) = c.beyond {
        if too_many_rows {
            p.resize(rows + k as usize, vec![]);
            p.last_mut().unwrap().push(c.other.1.nz());
        } else {
            p.resize(p.len().max(1), vec![]);
            let i = c.other.0 as usize % p.len();
            p[i].resize(len + k as usize, Sf::<P>::zero());
            *p[i].last_mut().unwrap() = c.other.1.nz();
        }
        ensure!(attempt(|| Bpc::<P, D>::commit(&srs, &f(&p))).is_err(), "a polynomial beyond {} rows of {} is committed to", rows, len);
        // with the row commitments of the part that fits
        let fits: Vec<_> = p.iter().take(rows).map(|r| r[..r.len().min(len)].to_vec()).collect();
        let (_, coms) = attempt(|| Bpc::<P, D>::commit(&srs, &f(&fits)))?;
        ensure!(attempt(|| Bpc::<P, D>::open(&srs, &f(&p), &coms, &(x, y))).is_err(), "a polynomial beyond {} rows of {} is opened", rows, len);
        return Ok(pass(true).class(if too_many_rows { "too many rows" } else { "row too long" }));
    }
    let v = eval2(&p, &x, &y);
    ensure!(f(&p).evaluate(&(x, y)) == v, "evaluate() is wrong");
    let res = run(c.threads, || -> Result<V, String> {
        let (com, row_coms) = attempt(|| Bpc::<P, D>::commit(&srs, &f(&p)))?;
        if let Some((alpha, beta)) = model {
            let d: Sf<P> = p.iter().zip(powers(rows, beta * beta)).map(|(r, k)| eval(r, &alpha) * k).sum();
            ensure!(com == P::gt(&d), "commitment is not that of the rows");
        }
        let proof = attempt(|| Bpc::<P, D>::open(&srs, &f(&p), &row_coms, &(x, y)))?;
        let mut q = p.clone();
        q.resize(rows, vec![]);
        let i = c.other.0 as usize % rows;
        q[i].resize(len, Sf::<P>::zero());
        q[i][c.other.0 as usize / rows % len] += c.other.1.nz::<Sf<P>>();
        let (com2, _) = attempt(|| Bpc::<P, D>::commit(&srs, &f(&q)))?;
        ensure!(com != com2 || P::NAME == "mock251", "two polynomials have the same commitment");
        Ok(verdict(|| Bpc::<P, D>::verify(&vk, &com, &(x, y), &v, &proof)))
    })?;
    ensure!(res == V::True, "honest opening, setup of {} rows of {}: {:?}", rows, len, res);
    Ok(pass(p.iter().any(|r| r.len() > 1))
        .class(c.biv.rows.class())
        .class(if v.is_zero() { "value 0" } else { "other value" })
        .class(format!("{} rows", if rows > 4 { "8.." } else { ["1", "2", "", "4"][rows - 1] })))
}

fn c13() -> Vec<Scenario> {
    use blake2::Blake2b;
    let k = |lo, hi| move || logn(lo, hi).prop_map(|x| x as usize).boxed();
    vec![
        Scenario::new("univariate/mock", 2500, 60_000, complete_case(|| degrees(300), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/long", 40, 800, complete_case(|| (300usize..4200).boxed(), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/longer", 60, 800, complete_case(|| prop_oneof![2 => 3000usize..9000, 2 => 9000usize..40_000, 1 => (12u32..=15, -3i64..=3).prop_map(|(k, d)| ((1i64 << k) + d) as usize)].boxed(), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/rare-challenges", 1500, 30_000, complete_case(|| degrees(120), 0), complete_uni::<Small, Rec64>),
        Scenario::new("univariate/unusable-digests", 300, 5000, complete_case(|| degrees(60), 0), complete_uni::<Big, Mixed64>),
        Scenario::new("univariate/bls12-381", 48, 800, complete_case(|| degrees(40), 0), complete_uni::<Bls, Blake2b>),
        Scenario::new("univariate/bls12-377", 16, 300, complete_case(|| degrees(20), 0), complete_uni::<Bls377, Blake2b>),
        Scenario::new("univariate/bw6-761", 8, 200, complete_case(|| degrees(12), 0), complete_uni::<Bw6, Blake2b>),
        Scenario::new("bivariate/mock", 2500, 60_000, complete_case(k(0, 5), 20), complete_biv::<Big, Rec64>),
        Scenario::new("bivariate/rare-challenges", 1500, 30_000, complete_case(k(0, 4), 8), complete_biv::<Small, Rec64>),
        Scenario::new("bivariate/long", 24, 400, complete_case(k(5, 8), 70), complete_biv::<Big, Rec64>),
        Scenario::new("bivariate/bls12-381", 48, 800, complete_case(k(0, 2), 6), complete_biv::<Bls, Blake2b>),
    ]
}

// ---------------------------------------------------------------- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// an honest opening with another value, commitment, point or verifier key
    Value,
    /// the claimed value zero
    ValueZero,
    Com,
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    Point(bool),
    Vk(u8),
    /// the opening of another polynomial
    OtherPoly(u64),
    /// tiers of two openings of the same polynomial at points that share a coordinate
    MixTiers(bool),
    /// opens another partially evaluated polynomial: the second tier is right for it, the rest is
    /// that of the committed polynomial
    FalsePartial(u64),
    /// the partial evaluation is right, the value and its proof are those of another polynomial
    FalseValue(u64),
    /// as FalsePartial, with a round message repaired after its challenge
    Delayed(At, u64),
    /// a false round message; partial evaluation or commitment chosen afterwards
    DelayedStatement(At),
    /// the point chosen after the rounds (two rows)
    DelayedPoint(u64),
    /// row commitments exchanged within the commitment
    SwapRows(u16, u16),
    Proof(Tamper),
    YEval,
    YEvalZero,
    Kzg,
    KzgZero,
    FinalCk,
    CkProof,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    /// univariate with this setup degree, or bivariate with 2^k rows of some length
    uni: bool,
    size: usize,
    y_len: usize,
    coeffs: u64,
    x: Sc,
    y: Sc,
    alpha: Sc,
    beta: Sc,
    attack: Attack,
    delta: Sc,
}

fn attack_case(uni: bool, sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, y_max: usize) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let u = || any::<u64>();
        let attack = prop_oneof![
            2 => Just(Attack::Value),
            1 => Just(Attack::ValueZero),
            1 => Just(Attack::Com),
            3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            2 => any::<bool>().prop_map(Attack::Point),
            2 => (0u8..4).prop_map(Attack::Vk),
            2 => u().prop_map(Attack::OtherPoly),
            2 => any::<bool>().prop_map(Attack::MixTiers),
            3 => u().prop_map(Attack::FalsePartial),
            3 => u().prop_map(Attack::FalseValue),
            4 => (at(), u()).prop_map(|(a, s)| Attack::Delayed(a, s)),
            4 => at().prop_map(Attack::DelayedStatement),
            2 => u().prop_map(Attack::DelayedPoint),
            2 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| Attack::SwapRows(i, j)),
            5 => tamper().prop_map(Attack::Proof),
            1 => Just(Attack::YEval),
            1 => Just(Attack::YEvalZero),
            1 => Just(Attack::Kzg),
            1 => Just(Attack::KzgZero),
            1 => Just(Attack::FinalCk),
            1 => Just(Attack::CkProof),
        ];
        ((sizes(), 1..=y_max, u(), sc_point(), sc_point()), (sc_rand(), sc_rand(), attack, delta()))
            .prop_map(move |((size, y_len, coeffs, x, y), (alpha, beta, attack, delta))| Atk {
                uni, size, y_len, coeffs, x, y, alpha, beta, attack, delta,
            })
            .boxed()
    }
}

/// The zero polynomial, or claims for it
fn zero_case(uni: bool, sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, len: usize) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    let f = attack_case(uni, sizes, len);
    move || {
        let u = || prop_oneof![2 => any::<u64>(), 1 => Just(0u64)];
        let attack = prop_oneof![
            2 => Just(Attack::Value),
            2 => Just(Attack::ValueZero),
            1 => Just(Attack::Com),
            2 => u().prop_map(Attack::OtherPoly),
            2 => any::<u64>().prop_map(Attack::FalsePartial),
        ];
        (f(), any::<bool>(), attack)
            .prop_map(|(c, zero, attack)| Atk { coeffs: if zero { 0 } else { c.coeffs }, attack, ..c })
            .boxed()
    }
}

struct Parts<F> {
    prog: Prog<F>,
    fin: Fin<F>,
    y_eval: F,
    kzg: F,
}

fn opening<P: CurveEx, D: Digest + 'static>(p: &Parts<Sf<P>>) -> OpeningProof<P, D> {
    OpeningProof::verif_from_parts(ssm_proof_of::<Msm<P>, P, D>(&p.prog, &p.fin), P::g1(&p.y_eval), P::g1(&p.kzg))
}

fn soundness<P: CurveEx, D: Digest + 'static>(c: &Atk) -> R {
    type S<P> = Ssm<Msm<P>>;
    let (alpha, beta): (Sf<P>, Sf<P>) = (c.alpha.nz(), c.beta.nz());
    let (mut x, mut y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let delta: Sf<P> = c.delta.nz();
    let one = Sf::<P>::one();
    let (rows, len) = if c.uni {
        let srs = attempt(|| UnivariatePolynomialCommitment::<P, D>::setup(&mut rng(c.coeffs), c.size))?;
        let (rows, len) = ((srs.0.h_beta_powers.len() + 1) / 2, srs.1.len());
        x = y.pow([len as u64]);
        (rows, len)
    } else {
        (1usize << c.size, c.y_len)
    };
    let rounds = rows.trailing_zeros() as usize;
    let used = if c.uni { c.size + 1 } else { rows * len };
    let coeffs = Vs { pat: Pat::Rand(c.coeffs), over: vec![] }.f::<Sf<P>>(used);
    let grid = |seed: u64| -> Vec<Vec<Sf<P>>> {
        let mut v = Vs { pat: Pat::Rand(seed), over: vec![] }.f::<Sf<P>>(used);
        if seed == 0 { v.iter_mut().for_each(|x| *x = Sf::<P>::zero()); }
        if seed != c.coeffs {
            if let Some(r) = relative(seed, &coeffs) { v = r }
        }
        v.resize(rows * len, Sf::<P>::zero());
        v.chunks(len).map(|c| c.to_vec()).collect()
    };
    let p = grid(c.coeffs);
    // another partial evaluation
    let other = |seed: u64| -> Vec<Sf<P>> {
        let px = powers(rows, x);
        let q0: Vec<Sf<P>> = (0..len).map(|j| (0..rows).map(|i| p[i][j] * px[i]).sum()).collect();
        relative(seed, &q0).unwrap_or_else(|| Vs { pat: Pat::Rand(seed), over: vec![] }.f(len))
    };
    let s = SrsDl { n: rows, alpha, beta };
    let ka = s.ka(&one);
    let a: Vec<Sf<P>> = p.iter().map(|r| eval(r, &alpha)).collect();
    let com = dot(&ka, &a);
    let v = eval2(&p, &x, &y);
    let mut vk = s.vk::<P>();
    let ver = |vk: &VerifierSRS<P>, com: &Sf<P>, x: &Sf<P>, y: &Sf<P>, v: &Sf<P>, o: &OpeningProof<P, D>| {
        let com = P::gt(com);
        verdict(|| {
            if c.uni {
                UnivariatePolynomialCommitment::<P, D>::verify(vk, c.size, &com, y, v, o)
            } else {
                BivariatePolynomialCommitment::<P, D>::verify(vk, &com, &(*x, *y), v, o)
            }
        })
    };
    let name = match &c.attack {
        Attack::Proof(t) => format!("Proof.{}", t.name()),
        a => first_word(format!("{:?}", a)),
    };
    let done = |r: V| {
        ensure!(r != V::True, "accepted: {:?} with {} rows of {}", c.attack, rows, len);
        Ok(pass(true).class(name.clone()).class(nclass(rows)).class(match r { V::False => "rejected", V::Error(_) => "error", _ => "panic" }))
    };
    // values of polynomials and their proofs
    let kzg_proof = |q_alpha: &Sf<P>, y: &Sf<P>, v: &Sf<P>| (*q_alpha - v) * inv(&(alpha - y));
    if alpha == y { return skip("point is the secret"); }
    let ga = |z: &Sf<P>| key_polys(rows, z, &one);
    let finish = |prog: Prog<Sf<P>>, com: &Sf<P>, t: &Sf<P>, x: &Sf<P>, kzg: Sf<P>| -> Option<Parts<Sf<P>>> {
        let fin = finish_ssm::<Msm<P>, P, D>(&s, &prog, &[*com, *x, *t], x, &one, &ga)?;
        Some(Parts { prog, fin, y_eval: *t, kzg })
    };
    let dl = |a: &[Sf<P>], x: &Sf<P>| Dl::new::<S<P>>(a.to_vec(), powers(rows, *x), ka.clone(), vec![Sf::<P>::zero(); rows], one);
    let d = dl(&a, &x);
    let t = d.com[2];
    let honest = |with_x: bool, a: &[Sf<P>], com: &Sf<P>, t: &Sf<P>, x: &Sf<P>| {
        adv::honest::<S<P>, D>(&dl(a, x), &[*com, if with_x { *x } else { Sf::<P>::zero() }, *t])
    };
    let mut found = None;
    for with_x in [true, false] {
        let Some(h) = finish(honest(with_x, &a, &com, &t, &x), &com, &t, &x, kzg_proof(&t, &y, &v)) else { continue };
        if ver(&vk, &com, &x, &y, &v, &opening::<P, D>(&h)) == V::True {
            found = Some((with_x, h));
            break;
        }
    }
    let Some((with_x, h)) = found else { return skip("adversary does not follow the protocol") };
    let hx = |x: &Sf<P>| if with_x { *x } else { Sf::<P>::zero() };
    match &c.attack {
        Attack::ValueZero => {
            if v.is_zero() { return skip("still true"); }
            let z = Sf::<P>::zero();
            let r = ver(&vk, &com, &x, &y, &z, &opening::<P, D>(&h));
            if r == V::True { return done(r); }
            // the value zero, and proofs of zero
            let Some(o) = finish(honest(with_x, &a, &com, &z, &x), &com, &z, &x, z) else { return skip("no opening point") };
            done(ver(&vk, &com, &x, &y, &z, &opening::<P, D>(&o)))
        }
        Attack::Value => done(ver(&vk, &com, &x, &y, &(v + toward(&v, &delta)), &opening::<P, D>(&h))),
        Attack::Com => done(ver(&vk, &(com + toward(&com, &delta)), &x, &y, &v, &opening::<P, D>(&h))),
        Attack::Point(other_x) => {
            if *other_x { ripp_check::change!(x, delta) } else { ripp_check::change!(y, delta) }
            if c.uni { x = y.pow([len as u64]); }
            if eval2(&p, &x, &y) == v { return skip("still true"); }
            done(ver(&vk, &com, &x, &y, &v, &opening::<P, D>(&h)))
        }
        Attack::Vk(i) => {
            match i {
                0 => vk.g += P::g1(&delta),
                1 => vk.h += P::g2(&delta),
                2 => {
                    if rows < 2 { return skip("one row"); }
                    vk.g_beta += P::g1(&delta)
                }
                _ => {
                    if h.kzg.is_zero() { return skip("constant"); }
                    vk.h_alpha += P::g2(&delta)
                }
            }
            if rows < 2 && h.kzg.is_zero() { return skip("constant"); }
            done(ver(&vk, &com, &x, &y, &v, &opening::<P, D>(&h)))
        }
        Attack::Cancel(i, j, same) => {
            // commitment, opening of its key, partial evaluation, evaluation proof
            let e = two_errors(4, *i, *j, *same, &delta);
            let (cm, te) = (com + e[0], t + e[2]);
            if rows < 2 && !e[1].is_zero() { return skip("one row"); }
            let Some(mut o) = finish(honest(with_x, &a, &cm, &te, &x), &cm, &te, &x, kzg_proof(&te, &y, &v) + e[3] * inv(&(alpha - y))) else { return skip("no opening point") };
            o.fin.pi.0 += e[1] * inv(&(beta - o.fin.z));
            done(ver(&vk, &cm, &x, &y, &v, &opening::<P, D>(&o)))
        }
        Attack::OtherPoly(seed) => {
            let q = grid(*seed);
            if eval2(&q, &x, &y) == v { return skip("same value"); }
            let aq: Vec<Sf<P>> = q.iter().map(|r| eval(r, &alpha)).collect();
            let (vq, tq) = (eval2(&q, &x, &y), dot(&aq, &powers(rows, x)));
            // as a proof of the other polynomial, and computed for the commitment of this one
            let comq = dot(&ka, &aq);
            for cm in [comq, com] {
                let Some(o) = finish(honest(with_x, &aq, &cm, &tq, &x), &cm, &tq, &x, kzg_proof(&tq, &y, &vq)) else { return skip("no opening point") };
                let r = ver(&vk, &com, &x, &y, &vq, &opening::<P, D>(&o));
                if r == V::True { return done(r); }
            }
            done(V::False)
        }
        Attack::MixTiers(second) => {
            if c.uni { return skip("one coordinate"); }
            if rows < 2 && *second { return skip("one row"); }
            let (x2, y2) = if *second { (x + toward(&x, &delta), y) } else { (x, y + toward(&y, &delta)) };
            if alpha == y2 { return skip("point is the secret"); }
            let (v2, t2) = (eval2(&p, &x2, &y2), dot(&a, &powers(rows, x2)));
            if v2 == v { return skip("same value"); }
            let Some(o) = finish(honest(with_x, &a, &com, &t2, &x2), &com, &t2, &x2, kzg_proof(&t2, &y2, &v2)) else { return skip("no opening point") };
            // second tier at (x, y), first tier of the other one, and the other way round
            for y_eval in [h.y_eval, o.y_eval] {
                let m = Parts { prog: h.prog.clone(), fin: h.fin.clone(), y_eval, kzg: o.kzg };
                let r = ver(&vk, &com, &x, &y, &v2, &opening::<P, D>(&m));
                if r == V::True { return done(r); }
            }
            done(V::False)
        }
        Attack::FalsePartial(seed) => {
            let q = other(*seed);
            let (tq, vq) = (eval(&q, &alpha), eval(&q, &y));
            if vq == v { return skip("same value"); }
            let Some(o) = finish(honest(with_x, &a, &com, &tq, &x), &com, &tq, &x, kzg_proof(&tq, &y, &vq)) else { return skip("no opening point") };
            done(ver(&vk, &com, &x, &y, &vq, &opening::<P, D>(&o)))
        }
        Attack::FalseValue(seed) => {
            let q = other(*seed);
            let (tq, vq) = (eval(&q, &alpha), eval(&q, &y));
            if vq == v { return skip("same value"); }
            let o = Parts { kzg: kzg_proof(&tq, &y, &vq), prog: h.prog.clone(), fin: h.fin.clone(), y_eval: h.y_eval };
            done(ver(&vk, &com, &x, &y, &vq, &opening::<P, D>(&o)))
        }
        Attack::Delayed(at, seed) => {
            if rounds == 0 { return skip("no rounds"); }
            let q = other(*seed);
            let (tq, vq) = (eval(&q, &alpha), eval(&q, &y));
            let dl_t = tq - t;
            if dl_t.is_zero() { return skip("same polynomial"); }
            let ro = at.round(rounds);
            let prog = adv::prove::<S<P>, D>(&d, &[com, hx(&x), tq], &|_, _| {}, &|i, ch, st| {
                if i == ro {
                    at.repair(st, 2, ch, &-dl_t);
                }
            });
            let Some(o) = finish(prog, &com, &tq, &x, kzg_proof(&tq, &y, &vq)) else { return skip("no opening point") };
            done(ver(&vk, &com, &x, &y, &vq, &opening::<P, D>(&o)))
        }
        Attack::DelayedStatement(at) => {
            if rounds == 0 { return skip("no rounds"); }
            let ro = at.round(rounds); let side = at.side();
            let slot = if at.slot() == 0 { 0 } else { 2 };
            let prog = adv::prove::<S<P>, D>(&d, &[com, hx(&x), t], &|i, st| {
                if i == ro {
                    st[side][slot] += delta;
                }
            }, &|_, _, _| {});
            let shift = delta * if side == 0 { prog.ch[ro] } else { inv(&prog.ch[ro]) };
            let (com2, t2, v2) = if slot == 0 { (com - shift, t, v) } else { (com, t - shift, v - shift) };
            let Some(o) = finish(prog, &com2, &t2, &x, kzg_proof(&t2, &y, &v2)) else { return skip("no opening point") };
            done(ver(&vk, &com2, &x, &y, &v2, &opening::<P, D>(&o)))
        }
        Attack::DelayedPoint(seed) => {
            if rows != 2 || c.uni { return skip("not two rows"); }
            // rounds for any right vector, then the x that fits
            let w: Vec<Sf<P>> = Vs { pat: Pat::Rand(*seed), over: vec![] }.f(rows);
            let mut d2 = d.clone();
            d2.b = w;
            d2.com = d2.commit();
            let t2 = d2.com[2];
            let prog = adv::honest::<S<P>, D>(&d2, &[com, hx(&x), t2]);
            let x2 = (prog.base.1 - one) * prog.ch[0];
            // any polynomial with this value at the secret
            let v2 = t2;
            if eval2(&p, &x2, &y) == v2 { return skip("still true"); }
            let Some(o) = finish(prog, &com, &t2, &x2, kzg_proof(&t2, &y, &v2)) else { return skip("no opening point") };
            done(ver(&vk, &com, &x2, &y, &v2, &opening::<P, D>(&o)))
        }
        Attack::SwapRows(i, j) => {
            if rows < 2 { return skip("one row"); }
            let i = *i as usize % rows;
            let j = (i + 1 + *j as usize % (rows - 1)) % rows;
            let (mut q, mut aq) = (p.clone(), a.clone());
            q.swap(i, j);
            aq.swap(i, j);
            let (vq, tq) = (eval2(&q, &x, &y), dot(&aq, &powers(rows, x)));
            if vq == v { return skip("same rows"); }
            let Some(o) = finish(honest(with_x, &aq, &com, &tq, &x), &com, &tq, &x, kzg_proof(&tq, &y, &vq)) else { return skip("no opening point") };
            done(ver(&vk, &com, &x, &y, &vq, &opening::<P, D>(&o)))
        }
        Attack::Proof(tm) => {
            if matches!(tm, Tamper::BaseB | Tamper::BaseNeg(false, _)) { return skip("not part of the statement"); }
            let (ip, ye, kz) = opening::<P, D>(&h).verif_into_parts();
            let (g, ck, pi) = ip.verif_into_parts();
            let Some(g) = tm.apply::<S<P>, D>(g, &delta) else { return skip("does not apply") };
            let ip = TsProof::<Msm<P>, P, D>::verif_from_parts(g, ck, pi);
            done(ver(&vk, &com, &x, &y, &v, &OpeningProof::verif_from_parts(ip, ye, kz)))
        }
        a => {
            let mut o = Parts { prog: h.prog.clone(), fin: h.fin.clone(), ..h };
            match a {
                Attack::YEval => ripp_check::change!(o.y_eval, delta),
                Attack::YEvalZero => o.y_eval = Sf::<P>::zero(),
                Attack::Kzg => ripp_check::change!(o.kzg, delta),
                Attack::KzgZero => o.kzg = Sf::<P>::zero(),
                Attack::FinalCk => ripp_check::change!(o.fin.ck.0, delta),
                _ => ripp_check::change!(o.fin.pi.0, delta),
            }
            if o.y_eval == h.y_eval && o.kzg == h.kzg && o.fin.ck == h.fin.ck && o.fin.pi == h.fin.pi { return skip("already zero"); }
            done(ver(&vk, &com, &x, &y, &v, &opening::<P, D>(&o)))
        }
    }
}

fn c14() -> Vec<Scenario> {
    let k = |lo, hi| move || logn(lo, hi).prop_map(|x| x as usize).boxed();
    vec![
        Scenario::new("bivariate/mock", 7000, 200_000, attack_case(false, k(0, 4), 8), soundness::<Big, Rec64>),
        Scenario::new("univariate/mock", 4000, 120_000, attack_case(true, || degrees(40), 1), soundness::<Big, Rec64>),
        Scenario::new("bivariate/zero", 1000, 30_000, zero_case(false, k(0, 4), 8), soundness::<Big, Rec64>),
        Scenario::new("univariate/zero", 600, 20_000, zero_case(true, || degrees(40), 1), soundness::<Big, Rec64>),
        Scenario::new("univariate/long", 80, 1600, attack_case(true, || degrees(700), 1), soundness::<Big, Rec64>),
        Scenario::new("bivariate/long", 60, 1200, attack_case(false, k(5, 6), 20), soundness::<Big, Rec64>),
        Scenario::new("univariate/longer", 120, 400, attack_case(true, || (3000usize..9000).boxed(), 1), soundness::<Big, Rec64>),
        Scenario::new("bivariate/longer", 100, 400, attack_case(false, k(7, 8), 130), soundness::<Big, Rec64>),
        Scenario::new("bivariate/bls12-381", 60, 2000, attack_case(false, k(0, 2), 4), soundness::<Bls, Rec64>),
        Scenario::new("univariate/bls12-381", 50, 1500, attack_case(true, || degrees(15), 1), soundness::<Bls, Rec64>),
    ]
}

fn main() {
    let _ = <ark_bls12_381::G1Projective as CurveGroup>::into_affine;
    let _ = <ark_bls12_381::Fr as PrimeField>::MODULUS;
    ripp_check::fw::main(&[
        Property {
            id: "C12",
            rule: "A case is a setup degree, a polynomial (zero, constant, short or full; random or patterned coefficients), a point (special, the secret, a root or random) and one action: honest opening, sum with another polynomial, a polynomial beyond the setup, or a wrong value, commitment, point, proof or key. Non-trivial: the polynomial is not constant, or the altered opening is of a false statement.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c12,
        },
        Property {
            id: "C13",
            rule: "A case is a setup (the library's, or of the same shape with given secrets) for a degree or a number of rows and a row degree, a polynomial (zero, constant, short, full, patterned, with or without a root at the point, rows of any lengths), a point (0, 1, -1, small, random) and a number of threads, or a polynomial beyond the capacity. Non-trivial: a row or polynomial that is not constant.",
            assumptions: &["arkworks pairings, groups, fields and polynomials are correct"],
            scenarios: c13,
        },
        Property {
            id: "C14",
            rule: "A case is a random polynomial committed under a setup of known secrets (used only to compute discrete logarithms) and one attack: false values and points, proofs of other polynomials, mixed tiers, protocol-following provers that open another partial evaluation (with the first or the second tier valid), also after they know the challenges, and alterations of each part. Non-trivial: the attack applied and the same prover is accepted on the true value.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c14,
        },
    ])
}
