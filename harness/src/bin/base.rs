//! C03 (inner products) and C04 (commitments).
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment,
};
use ark_ec::{pairing::{Pairing, PairingOutput}, CurveGroup};
use ark_ff::PrimeField;
use ark_inner_products::{
    cfg_multi_pairing, InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct,
};
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::curves::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::indep::*;
use ripp_check::inst::*;
use serde::{Deserialize, Serialize};

type JubJub = ark_ed_on_bls12_381::EdwardsProjective;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IpCase {
    n: usize,
    a: Vs,
    b: Vs,
    r: Vs,
    threads: usize,
}

fn size(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![4 => 0..=max.min(12), 3 => 0..=max.min(70), 1 => 0..=max].boxed()
}

fn ip_case(max: usize) -> impl Fn() -> BoxedStrategy<IpCase> + Send + Sync + 'static {
    move || {
        (size(max), vs(), vs(), vs(), threads())
            .prop_map(|(n, a, b, r, threads)| IpCase { n, a, b, r, threads })
            .boxed()
    }
}

fn info<F: PrimeField>(c: &IpCase, d: F) -> Info {
    pass(c.n >= 2 && !d.is_zero())
        .class(match c.n {
            0 => "n=0",
            1 => "n=1",
            2..=8 => "n=2..8",
            9..=64 => "n=9..64",
            _ => "n>64",
        })
        .class(if c.threads == 1 { "1 thread" } else if c.threads > c.n { "more threads than terms" } else { "several threads" })
        .class(c.a.class())
}

fn pairing_ip<P: CurveEx>(c: &IpCase) -> R {
    let (a, b) = (c.a.f::<P::ScalarField>(c.n), c.b.f::<P::ScalarField>(c.n));
    let want = P::gt(&dot(&a, &b));
    let (pa, pb) = (P::g1s(&a), P::g2s(&b));
    let (x, y) = with_threads(c.threads, || {
        (
            PairingInnerProduct::<P>::inner_product(&pa, &pb).map_err(|e| e.to_string()),
            cfg_multi_pairing::<P>(&pa, &pb),
        )
    });
    let x = x?;
    ensure!(x == want, "pairing inner product of {} terms is wrong", c.n);
    ensure!(y == Some(want), "cfg_multi_pairing of {} terms is wrong", c.n);
    Ok(info(c, dot(&a, &b)))
}

fn msm_ip<G: CurveGroup>(c: &IpCase) -> R {
    let (a, b) = (c.a.f::<G::ScalarField>(c.n), c.b.f::<G::ScalarField>(c.n));
    let d = dot(&a, &b);
    let pa: Vec<G> = a.iter().map(|x| G::generator() * x).collect();
    let x = with_threads(c.threads, || {
        MultiexponentiationInnerProduct::<G>::inner_product(&pa, &b).map_err(|e| e.to_string())
    })?;
    ensure!(x == G::generator() * d, "multiexponentiation inner product of {} terms is wrong", c.n);
    Ok(info(c, d))
}

fn scalar_ip<F: PrimeField>(c: &IpCase) -> R {
    let (a, b) = (c.a.f::<F>(c.n), c.b.f::<F>(c.n));
    let x = with_threads(c.threads, || ScalarInnerProduct::<F>::inner_product(&a, &b).map_err(|e| e.to_string()))?;
    ensure!(x == dot(&a, &b), "scalar inner product of {} terms is wrong", c.n);
    Ok(info(c, x))
}

fn sipp_products<P: CurveEx>(c: &IpCase) -> R {
    let f = |v: &Vs| v.f::<P::ScalarField>(c.n);
    let (a, b, r) = (f(&c.a), f(&c.b), f(&c.r));
    let ar: Vec<_> = a.iter().zip(&r).map(|(x, y)| *x * y).collect();
    let (pa, pb) = (P::g1a(&a), P::g2a(&b));
    let (x, y) = with_threads(c.threads, || {
        (product_of_pairings_with_coeffs::<P>(&pa, &pb, &r), product_of_pairings::<P>(&pa, &pb))
    });
    ensure!(x == P::gt(&dot(&ar, &b)), "product_of_pairings_with_coeffs of {} terms is wrong", c.n);
    ensure!(y == P::gt(&dot(&a, &b)), "product_of_pairings of {} terms is wrong", c.n);
    Ok(info(c, dot(&ar, &b)))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MisCase {
    n: usize,
    m: usize,
    a: Vs,
    b: Vs,
    threads: usize,
}

fn mismatch_case() -> BoxedStrategy<MisCase> {
    (0usize..20, 1usize..20, any::<bool>(), vs(), vs(), threads())
        .prop_map(|(n, d, swap, a, b, threads)| {
            let (n, m) = if swap { (n + d, n) } else { (n, n + d) };
            MisCase { n, m, a, b, threads }
        })
        .boxed()
}

fn mismatch<P: CurveEx>(c: &MisCase) -> R {
    let (a, b) = (c.a.f::<P::ScalarField>(c.n), c.b.f::<P::ScalarField>(c.m));
    let (g1a, g2b) = (P::g1s(&a), P::g2s(&b));
    let show = |r: Result<bool, String>| r;
    for (name, r) in [
        ("pairing", show(attempt(|| PairingInnerProduct::<P>::inner_product(&g1a, &g2b).map(|_| true)))),
        ("multiexponentiation", show(attempt(|| MultiexponentiationInnerProduct::<P::G1>::inner_product(&g1a, &b).map(|_| true)))),
        ("multiexponentiation G2", show(attempt(|| MultiexponentiationInnerProduct::<P::G2>::inner_product(&g2b, &a).map(|_| true)))),
        ("scalar", show(attempt(|| ScalarInnerProduct::<P::ScalarField>::inner_product(&a, &b).map(|_| true)))),
    ] {
        match r {
            Err(e) if e.starts_with("error") => {}
            other => return Err(format!("{} inner product of {} and {} terms: {:?}, not an error", name, c.n, c.m, other)),
        }
    }
    // the pairing products have no error to return, but must not come to a value all the same
    let (a1, b2) = (P::g1a(&a), P::g2a(&b));
    let r = |m: usize| c.a.f::<P::ScalarField>(m);
    let none = |x| if let Some(x) = x { Ok(x) } else { Err("none") };
    for (name, x) in [
        ("cfg_multi_pairing", attempt(|| with_threads(c.threads, || none(cfg_multi_pairing::<P>(&g1a, &g2b))))),
        ("product_of_pairings", attempt(|| with_threads(c.threads, || Ok::<_, ()>(product_of_pairings::<P>(&a1, &b2))))),
        (
            "product_of_pairings_with_coeffs",
            attempt(|| with_threads(c.threads, || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&a1, &b2, &r(c.n))))),
        ),
        (
            "product_of_pairings_with_coeffs, other number of coefficients",
            attempt(|| with_threads(c.threads, || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&a1, &P::g2a(&r(c.n)), &r(c.m))))),
        ),
    ] {
        ensure!(x.is_err(), "{} of {} and {} terms returned a value ({} threads)", name, c.n, c.m, c.threads);
    }
    Ok(pass(true).class(if c.n < c.m { "left shorter" } else { "right shorter" }).class(if c.n.min(c.m) == 0 { "one side empty" } else { "both non-empty" }))
}

fn c03() -> Vec<Scenario> {
    vec![
        Scenario::new("pairing/mock", 3000, 200_000, ip_case(600), pairing_ip::<Big>),
        Scenario::new("pairing/large", 40, 600, ip_case(9000), pairing_ip::<Big>),
        Scenario::new("msm/large", 40, 600, ip_case(9000), msm_ip::<<Big as Pairing>::G1>),
        Scenario::new("scalar/large", 40, 600, ip_case(20_000), scalar_ip::<<Bls as Pairing>::ScalarField>),
        Scenario::new("sipp-products/large", 40, 600, ip_case(9000), sipp_products::<Big>),
        Scenario::new("msm/bls12-381-g1/large", 6, 60, ip_case(2000), msm_ip::<<Bls as Pairing>::G1>),
        Scenario::new("pairing/mock251", 1000, 50_000, ip_case(100), pairing_ip::<Small>),
        Scenario::new("pairing/bls12-381", 60, 3000, ip_case(14), pairing_ip::<Bls>),
        Scenario::new("msm/mock-g1", 1000, 100_000, ip_case(600), msm_ip::<<Big as Pairing>::G1>),
        Scenario::new("msm/bls12-381-g1", 100, 4000, ip_case(40), msm_ip::<<Bls as Pairing>::G1>),
        Scenario::new("msm/bls12-381-g2", 60, 3000, ip_case(20), msm_ip::<<Bls as Pairing>::G2>),
        Scenario::new("msm/jubjub", 200, 8000, ip_case(80), msm_ip::<JubJub>),
        Scenario::new("scalar", 3000, 200_000, ip_case(600), scalar_ip::<<Bls as Pairing>::ScalarField>),
        Scenario::new("sipp-products/mock", 3000, 200_000, ip_case(600), sipp_products::<Big>),
        Scenario::new("sipp-products/bls12-377", 60, 3000, ip_case(14), sipp_products::<Bls377>),
        Scenario::new("sipp-products/bw6-761", 16, 400, ip_case(8), sipp_products::<Bw6>),
        Scenario::new("mismatch/mock", 2000, 50_000, mismatch_case, mismatch::<Big>),
        Scenario::new("mismatch/bls12-381", 20, 500, mismatch_case, mismatch::<Bls>),
    ]
}

// ---------------------------------------------------------------------------------------------

/// A commitment scheme seen through discrete logarithms.
trait Scheme: 'static {
    type C: DoublyHomomorphicCommitment;
    const KEYED: bool;
    fn key(x: &F<Self>) -> K<Self>;
    fn msg(x: &F<Self>) -> M<Self>;
    fn out(k: &[F<Self>], m: &[F<Self>]) -> O<Self>;
}
type F<S> = <<S as Scheme>::C as DoublyHomomorphicCommitment>::Scalar;
type K<S> = <<S as Scheme>::C as DoublyHomomorphicCommitment>::Key;
type M<S> = <<S as Scheme>::C as DoublyHomomorphicCommitment>::Message;
type O<S> = <<S as Scheme>::C as DoublyHomomorphicCommitment>::Output;

struct Afgho1<P>(P);
impl<P: CurveEx> Scheme for Afgho1<P> {
    type C = AFGHOCommitmentG1<P>;
    const KEYED: bool = true;
    fn key(x: &P::ScalarField) -> P::G2 {
        P::g2(x)
    }
    fn msg(x: &P::ScalarField) -> P::G1 {
        P::g1(x)
    }
    fn out(k: &[P::ScalarField], m: &[P::ScalarField]) -> PairingOutput<P> {
        P::gt(&dot(k, m))
    }
}
struct Afgho2<P>(P);
impl<P: CurveEx> Scheme for Afgho2<P> {
    type C = AFGHOCommitmentG2<P>;
    const KEYED: bool = true;
    fn key(x: &P::ScalarField) -> P::G1 {
        P::g1(x)
    }
    fn msg(x: &P::ScalarField) -> P::G2 {
        P::g2(x)
    }
    fn out(k: &[P::ScalarField], m: &[P::ScalarField]) -> PairingOutput<P> {
        P::gt(&dot(k, m))
    }
}
struct Ped<G>(G);
impl<G: CurveGroup> Scheme for Ped<G> {
    type C = PedersenCommitment<G>;
    const KEYED: bool = true;
    fn key(x: &G::ScalarField) -> G {
        G::generator() * x
    }
    fn msg(x: &G::ScalarField) -> G::ScalarField {
        *x
    }
    fn out(k: &[G::ScalarField], m: &[G::ScalarField]) -> G {
        G::generator() * dot(k, m)
    }
}
struct Ident<G>(G);
impl<G: CurveGroup> Scheme for Ident<G> {
    type C = IdentityCommitment<G, G::ScalarField>;
    const KEYED: bool = false;
    fn key(_: &G::ScalarField) -> K<Self> {
        Default::default()
    }
    fn msg(x: &G::ScalarField) -> G {
        G::generator() * x
    }
    fn out(_: &[G::ScalarField], m: &[G::ScalarField]) -> IdentityOutput<G> {
        IdentityOutput(m.iter().map(|x| G::generator() * x).collect())
    }
}
struct IdentF<T>(T);
impl<T: PrimeField> Scheme for IdentF<T> {
    type C = IdentityCommitment<T, T>;
    const KEYED: bool = false;
    fn key(_: &T) -> K<Self> {
        Default::default()
    }
    fn msg(x: &T) -> T {
        *x
    }
    fn out(_: &[T], m: &[T]) -> IdentityOutput<T> {
        IdentityOutput(m.to_vec())
    }
}
struct IdentGt<P>(P);
impl<P: CurveEx> Scheme for IdentGt<P> {
    type C = IdentityCommitment<PairingOutput<P>, P::ScalarField>;
    const KEYED: bool = false;
    fn key(_: &P::ScalarField) -> K<Self> {
        Default::default()
    }
    fn msg(x: &P::ScalarField) -> PairingOutput<P> {
        P::gt(x)
    }
    fn out(_: &[P::ScalarField], m: &[P::ScalarField]) -> IdentityOutput<PairingOutput<P>> {
        IdentityOutput(m.iter().map(|x| P::gt(x)).collect())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ComCase {
    n: usize,
    k1: Vs,
    k2: Vs,
    m1: Vs,
    m2: Vs,
    x: Sc,
    pos: u16,
    delta: Sc,
    seed: u64,
    threads: usize,
    other_len: usize,
}

fn com_case(max: usize) -> impl Fn() -> BoxedStrategy<ComCase> + Send + Sync + 'static {
    move || {
        (
            (size(max), vs(), vs(), vs(), vs()),
            (sc(), any::<u16>(), sc(), any::<u64>(), threads(), 0usize..12),
        )
            .prop_map(|((n, k1, k2, m1, m2), (x, pos, delta, seed, threads, other_len))| ComCase {
                n, k1, k2, m1, m2, x, pos, delta, seed, threads, other_len,
            })
            .boxed()
    }
}

fn scale<T: Clone + std::ops::MulAssign<X>, X: Clone>(v: &[T], x: &X) -> Vec<T> {
    v.iter()
        .map(|e| {
            let mut e = e.clone();
            e *= x.clone();
            e
        })
        .collect()
}
fn addv<T: Clone + std::ops::Add<T, Output = T>>(v: &[T], w: &[T]) -> Vec<T> {
    v.iter().zip(w).map(|(a, b)| a.clone() + b.clone()).collect()
}

fn commitment<S: Scheme>(c: &ComCase) -> R
where
    F<S>: Sync,
{
    with_threads(c.threads, || commitment_::<S>(c))
}

fn commitment_<S: Scheme>(c: &ComCase) -> R {
    let n = c.n;
    let e = |e: Box<dyn std::error::Error>| e.to_string();
    let commit = |k: &[K<S>], m: &[M<S>]| S::C::commit(k, m).map_err(e);
    let (k1, k2) = (c.k1.f::<F<S>>(n), c.k2.f::<F<S>>(n));
    let (m1, m2) = (c.m1.f::<F<S>>(n), c.m2.f::<F<S>>(n));
    let keys = |k: &[F<S>]| k.iter().map(S::key).collect::<Vec<_>>();
    let msgs = |m: &[F<S>]| m.iter().map(S::msg).collect::<Vec<_>>();
    let (pk1, pk2, pm1, pm2) = (keys(&k1), keys(&k2), msgs(&m1), msgs(&m2));
    let x: F<S> = c.x.f();

    let c11 = commit(&pk1, &pm1)?;
    ensure!(c11 == S::out(&k1, &m1), "commit to {} elements differs from the definition", n);
    let c12 = commit(&pk1, &pm2)?;
    ensure!(commit(&pk1, &addv(&pm1, &pm2))? == c11.clone() + c12.clone(), "not additive in the message, n={}", n);
    let mut xc = c11.clone();
    xc *= x;
    ensure!(commit(&pk1, &scale(&pm1, &x))? == xc, "not scalar-homomorphic in the message, n={}", n);
    if S::KEYED {
        let c21 = commit(&pk2, &pm1)?;
        ensure!(commit(&addv(&pk1, &pk2), &pm1)? == c11.clone() + c21.clone(), "not additive in the key, n={}", n);
        ensure!(commit(&scale(&pk1, &x), &pm1)? == xc, "not scalar-homomorphic in the key, n={}", n);
    }
    let verify = |k: &[K<S>], m: &[M<S>], o: &O<S>| S::C::verify(k, m, o).map_err(e);
    ensure!(verify(&pk1, &pm1, &c11)?, "own commitment not verified, n={}", n);
    // verify must agree with the model for another message, key or commitment
    ensure!(verify(&pk1, &pm2, &c11)? == (S::out(&k1, &m2) == c11), "verify with another message, n={}", n);
    if S::KEYED {
        ensure!(verify(&pk2, &pm1, &c11)? == (S::out(&k2, &m1) == c11), "verify with another key, n={}", n);
    }
    ensure!(verify(&pk1, &pm1, &c12)? == (c12 == c11), "verify with another commitment, n={}", n);
    let mut rejected = false;
    if n > 0 {
        let p = c.pos as usize % n;
        let d: F<S> = c.delta.nz();
        let mut m3 = m1.clone();
        m3[p] += d;
        let want = S::out(&k1, &m3) == c11;
        rejected |= !want;
        ensure!(verify(&pk1, &msgs(&m3), &c11)? == want, "verify with message {} of {} changed", p, n);
        if S::KEYED {
            let mut k3 = k1.clone();
            k3[p] += d;
            let want = S::out(&k3, &m1) == c11;
            ensure!(verify(&keys(&k3), &pm1, &c11)? == want, "verify with key {} of {} changed", p, n);
            // a permuted message
            let q = c.pos as usize / 7 % n;
            let mut m4 = m1.clone();
            m4.swap(p, q);
            let want = S::out(&k1, &m4) == c11;
            ensure!(verify(&pk1, &msgs(&m4), &c11)? == want, "verify with messages {} and {} swapped", p, q);
        }
    }
    // message and key of different length
    if S::KEYED && c.other_len != n {
        let m5 = msgs(&c.m1.f::<F<S>>(c.other_len));
        let r = attempt(|| S::C::commit(&pk1, &m5).map(|_| ()));
        ensure!(matches!(&r, Err(s) if s.starts_with("error")), "commit to {} elements with {} keys: {:?}", c.other_len, n, r);
        let v = verdict(|| S::C::verify(&pk1, &m5, &c11));
        ensure!(matches!(v, V::Error(_)), "verify of {} elements with {} keys: {:?}", c.other_len, n, v);
    }
    Ok(pass(n >= 2 && rejected).class(match n { 0 => "n=0", 1 => "n=1", _ => "n>=2" }).class(c.m1.class()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SetupCase {
    n: usize,
    seed: u64,
    seed2: u64,
}

fn setup_case() -> BoxedStrategy<SetupCase> {
    (0usize..40, any::<u64>(), any::<u64>()).prop_map(|(n, seed, seed2)| SetupCase { n, seed, seed2 }).boxed()
}

fn com_setup<S: Scheme>(c: &SetupCase) -> R {
    let mk = |s: u64, n: usize| S::C::setup(&mut rng(s), n).map_err(|e| e.to_string());
    let k = mk(c.seed, c.n)?;
    ensure!(k.len() == c.n, "setup of size {} returned {} keys", c.n, k.len());
    ensure!(k == mk(c.seed, c.n)?, "setup is not a function of the randomness");
    if S::KEYED {
        let k2 = mk(c.seed2, c.n)?;
        for i in 0..c.n {
            ensure!(k[i] != K::<S>::default(), "key {} is the identity", i);
            for j in 0..i {
                ensure!(k[i] != k[j], "keys {} and {} are equal", i, j);
            }
            ensure!(c.seed == c.seed2 || k2.iter().all(|x| *x != k[i]), "setups with different randomness share a key");
        }
        // no key is the sum or the double of others (first few)
        for i in 0..c.n.min(6) {
            for j in 0..c.n.min(6) {
                let s = k[i].clone() + k[j].clone();
                ensure!(k.iter().take(6).all(|x| *x != s), "keys are related linearly");
            }
        }
    }
    Ok(pass(c.n >= 2))
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
enum What {
    Afgho1,
    Afgho2,
    Pedersen1,
    Pedersen2,
    GipaPair,
    GipaScal,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeysCase {
    what: What,
    n: usize,
    seed: u64,
}

fn keys_case(hi: usize) -> impl Fn() -> BoxedStrategy<KeysCase> + Send + Sync + 'static {
    move || {
        let what = prop_oneof![Just(What::Afgho1), Just(What::Afgho2), Just(What::Pedersen1), Just(What::Pedersen2), Just(What::GipaPair), Just(What::GipaScal)];
        let p = (hi as f64).log2() as u32;
        let n = prop_oneof![2 => 0..=hi, 2 => (0..=p).prop_map(|k| 1usize << k), 1 => 1..hi.min(40)];
        (what, n, any::<u64>()).prop_map(|(what, n, seed)| KeysCase { what, n, seed }).boxed()
    }
}

/// Keys over groups with known logarithms
fn keys_dl<P: Dlog>(what: What, n: usize, r: &mut Flip) -> Result<Vec<P::ScalarField>, String> {
    type D = blake2::Blake2b;
    let s1 = |k: Vec<P::G1>| k.iter().map(P::d1).collect::<Vec<_>>();
    let s2 = |k: Vec<P::G2>| k.iter().map(P::d2).collect::<Vec<_>>();
    Ok(match what {
        What::Afgho1 => s2(attempt(|| AFGHOCommitmentG1::<P>::setup(r, n))?),
        What::Afgho2 => s1(attempt(|| AFGHOCommitmentG2::<P>::setup(r, n))?),
        What::Pedersen1 => s1(attempt(|| PedersenCommitment::<P::G1>::setup(r, n))?),
        What::Pedersen2 => s2(attempt(|| PedersenCommitment::<P::G2>::setup(r, n))?),
        What::GipaPair => {
            let (a, b, _) = attempt(|| Gp::<Pair<P>, D>::setup(r, n))?;
            s2(a).into_iter().chain(s1(b)).collect()
        }
        What::GipaScal => {
            let (a, b, t) = attempt(|| Gp::<ScalKey<P>, D>::setup(r, n))?;
            s2(a).into_iter().chain(s1(b)).chain(s1(vec![t])).collect()
        }
    })
}

fn keys_independent<P: Dlog>(c: &KeysCase) -> R {
    let k = keys_dl::<P>(c.what, c.n, &mut Flip::new(c.seed, usize::MAX))?;
    let want = match c.what {
        What::GipaPair => 2 * c.n,
        What::GipaScal => 2 * c.n + 1,
        _ => c.n,
    };
    ensure!(k.len() == want, "{} keys, {} expected", k.len(), want);
    independent("setup", &k)?;
    own_randomness("setup", c.seed, &|r| keys_dl::<P>(c.what, c.n, r))?;
    Ok(pass(c.n >= 2).class(format!("{:?}", c.what)).class(match c.n { 0 => "n=0", 1 => "n=1", 2..=32 => "n=2..32", 33..=300 => "n=33..300", _ => "n>300" }))
}

fn c04() -> Vec<Scenario> {
    type B1 = <Big as Pairing>::G1;
    type R1 = <Bls as Pairing>::G1;
    type R2 = <Bls as Pairing>::G2;
    type RF = <Bls as Pairing>::ScalarField;
    vec![
        Scenario::new("afgho-g1/mock", 1500, 60_000, com_case(80), commitment::<Afgho1<Big>>),
        Scenario::new("afgho-g2/mock", 1500, 60_000, com_case(80), commitment::<Afgho2<Big>>),
        Scenario::new("afgho-g1/large", 24, 300, com_case(3000), commitment::<Afgho1<Big>>),
        Scenario::new("afgho-g2/large", 24, 300, com_case(3000), commitment::<Afgho2<Big>>),
        Scenario::new("pedersen/large", 24, 300, com_case(3000), commitment::<Ped<B1>>),
        Scenario::new("identity/large", 24, 300, com_case(3000), commitment::<Ident<B1>>),
        Scenario::new("afgho-g1/mock251", 500, 20_000, com_case(40), commitment::<Afgho1<Small>>),
        Scenario::new("afgho-g2/mock251", 500, 20_000, com_case(40), commitment::<Afgho2<Small>>),
        Scenario::new("pedersen/mock", 1500, 60_000, com_case(80), commitment::<Ped<B1>>),
        Scenario::new("identity-group/mock", 1000, 30_000, com_case(80), commitment::<Ident<B1>>),
        Scenario::new("identity-scalar", 1000, 30_000, com_case(80), commitment::<IdentF<RF>>),
        Scenario::new("identity-gt/mock", 500, 20_000, com_case(20), commitment::<IdentGt<Big>>),
        Scenario::new("afgho-g1/bls12-381", 16, 800, com_case(8), commitment::<Afgho1<Bls>>),
        Scenario::new("afgho-g2/bls12-381", 16, 800, com_case(8), commitment::<Afgho2<Bls>>),
        Scenario::new("pedersen/bls12-381-g1", 40, 2000, com_case(16), commitment::<Ped<R1>>),
        Scenario::new("pedersen/bls12-381-g2", 24, 1000, com_case(12), commitment::<Ped<R2>>),
        Scenario::new("pedersen/jubjub", 60, 3000, com_case(24), commitment::<Ped<JubJub>>),
        Scenario::new("identity-group/bls12-381", 30, 1000, com_case(16), commitment::<Ident<R1>>),
        Scenario::new("setup/independent", 500, 10_000, keys_case(300), keys_independent::<Big>),
        Scenario::new("setup/independent/large", 24, 300, keys_case(3000), keys_independent::<Big>),
        Scenario::new("setup/afgho-g1", 100, 3000, setup_case, com_setup::<Afgho1<Big>>),
        Scenario::new("setup/afgho-g2", 100, 3000, setup_case, com_setup::<Afgho2<Big>>),
        Scenario::new("setup/pedersen", 100, 3000, setup_case, com_setup::<Ped<JubJub>>),
        Scenario::new("setup/identity", 100, 3000, setup_case, com_setup::<IdentF<RF>>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C03",
            rule: "A case is a length (0..600), two or three vectors given by patterns (random, constant, alternating, powers, repeated or opposite halves, special entries 0, 1, -1 anywhere) and a number of threads (1..16). Expected values come from the discrete logarithms. Non-trivial: at least two terms and a non-zero result, or different lengths in the mismatch scenarios.",
            assumptions: &["arkworks pairings, groups and fields are correct (mock curves: exponent arithmetic and GT in F_q^2 are correct)"],
            scenarios: c03,
        },
        Property {
            id: "C04",
            rule: "A case is a length, two keys, two messages, a scalar, a position and a change; commit and verify are compared with the discrete-logarithm model. Non-trivial: at least two elements and a changed message that the model rejects; for setups at least two keys.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c04,
        },
    ])
}
