//! C01 (SIPP completeness), C02 (SIPP soundness), C24 (Fiat-Shamir generator).
use ark_ec::pairing::PairingOutput;
use ark_ff::{Field, PrimeField, UniformRand, Zero};
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, rng::FiatShamirRng, Proof, SIPP};
use ark_std::rand::{RngCore, SeedableRng};
use digest::{generic_array::typenum::U32, Digest};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::inv;
use ripp_check::mock::record_msms;
use ripp_check::st::{delta, factor, nclass};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    k: u32,
    a: Vs,
    b: Vs,
    r: Vs,
    threads: (usize, usize),
}

fn complete_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        (logn(lo, hi), vs(), vs(), vs(), (threads(), threads()))
            .prop_map(|(k, a, b, r, threads)| Complete { k, a, b, r, threads })
            .boxed()
    }
}

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn complete<P: CurveEx, D: Digest<OutputSize = U32>>(c: &Complete) -> R {
    let n = 1usize << c.k;
    let f = |v: &Vs| v.f::<P::ScalarField>(n);
    let (a, b, r) = (f(&c.a), f(&c.b), f(&c.r));
    let ar: Vec<P::ScalarField> = a.iter().zip(&r).map(|(x, y)| *x * y).collect();
    let t = dot(&ar, &b);
    let (pa, pb, v) = (P::g1a(&a), P::g2a(&b), P::gt(&t));
    let proof = run(c.threads.0, || {
        let w = quiet(|| product_of_pairings_with_coeffs::<P>(&pa, &pb, &r))?;
        ensure!(w == v, "product_of_pairings_with_coeffs of {} terms is wrong", n);
        let w = quiet(|| product_of_pairings::<P>(&pa, &pb))?;
        ensure!(w == P::gt(&dot(&a, &b)), "product_of_pairings of {} terms is wrong", n);
        attempt(|| SIPP::<P, D>::prove(&pa, &pb, &r, v))
    })?;
    let parts = proof.verif_into_parts();
    ensure!(parts.len() == c.k as usize, "{} pairs of elements in a proof for 2^{}", parts.len(), c.k);
    let proof = Proof::<P>::verif_from_parts(parts);
    let res = run(c.threads.1, || verdict(|| SIPP::<P, D>::verify(&pa, &pb, &r, v, &proof)));
    ensure!(res == V::True, "honest proof of length {}: {:?}", n, res);
    Ok(pass(!t.is_zero()).class(nclass(n)).class(if t.is_zero() { "product one" } else { "product not one" }).class(format!("left {}", c.a.class())))
}

fn c01() -> Vec<Scenario> {
    vec![
        Scenario::new("mock", 5000, 150_000, complete_case(1, 6), complete::<Big, Rec32>),
        Scenario::new("blake2s/mock", 1500, 40_000, complete_case(1, 6), complete::<Big, blake2::Blake2s>),
        Scenario::new("long/mock", 60, 1000, complete_case(7, 11), complete::<Big, Rec32>),
        Scenario::new("bls12-377", 120, 2000, complete_case(1, 3), complete::<Bls377, blake2::Blake2s>),
        Scenario::new("bls12-381", 120, 2000, complete_case(1, 3), complete::<Bls, blake2::Blake2s>),
        Scenario::new("long/bls12-377", 8, 60, complete_case(4, 6), complete::<Bls377, blake2::Blake2s>),
        Scenario::new("bw6-761", 24, 400, complete_case(1, 3), complete::<Bw6, blake2::Blake2s>),
    ]
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Value,
    ValueZero,
    A(u16),
    B(u16),
    R(u16),
    SwapA(u16, u16),
    SwapB(u16, u16),
    SwapR(u16, u16),
    ExchangeAllA,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Tamper {
    Elem(u16, bool),
    /// two elements by equal or opposite amounts
    Two(u16, bool, u16, bool, bool),
    Zero(u16, bool),
    Sides(u16),
    Rounds(u16, u16),
    Drop(u16),
    Dup(u16),
    Null(bool),
    Scale(u16),
    Empty,
    Random(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// the library's prover on a false value
    Prover,
    /// an honest proof of another statement
    Other(u64),
    /// the statement changed under an honest proof
    Changed(Change),
    Proof(Tamper),
    /// a round message repaired after its challenge is known, for a false value (in its left or
    /// right element)
    Delayed(u16, bool),
    /// the same in both elements, their sum or difference left as it is
    DelayedBoth(u16, bool),
    /// a false round message, repaired by the choice of the value
    DelayedValue(u16, bool),
    /// value and messages multiplied by a factor, often -1
    Scaled,
    /// points or coefficients changed so that the folded points stay what they are
    DelayedA(u16, u16),
    DelayedB(u16, u16),
    DelayedR(u16, u16),
    /// all pairs (0: points a, 1: points b) replaced such that only the folded points match
    Fold(u16),
    /// an extra first round of identities, with the challenges computed for it
    Extra(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    k: u32,
    a: Vs,
    b: Vs,
    r: Vs,
    attack: Attack,
    delta: Sc,
}

/// `degenerate`: zeros, patterns and special values among the points and coefficients
fn attack_case(degenerate: bool, lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let u = || any::<u16>();
        let uu = || (any::<u16>(), any::<u16>());
        let ub = || (any::<u16>(), any::<bool>());
        let change = prop_oneof![
            2 => Just(Change::Value),
            1 => Just(Change::ValueZero),
            2 => u().prop_map(Change::A),
            2 => u().prop_map(Change::B),
            2 => u().prop_map(Change::R),
            1 => uu().prop_map(|(i, j)| Change::SwapA(i, j)),
            1 => uu().prop_map(|(i, j)| Change::SwapB(i, j)),
            1 => uu().prop_map(|(i, j)| Change::SwapR(i, j)),
            1 => Just(Change::ExchangeAllA),
        ];
        let tamper = prop_oneof![
            4 => ub().prop_map(|(i, s)| Tamper::Elem(i, s)),
            2 => (ub(), ub(), any::<bool>()).prop_map(|((i, s), (j, t), e)| Tamper::Two(i, s, j, t, e)),
            2 => ub().prop_map(|(i, s)| Tamper::Zero(i, s)),
            2 => u().prop_map(Tamper::Sides),
            1 => uu().prop_map(|(i, j)| Tamper::Rounds(i, j)),
            1 => u().prop_map(Tamper::Drop),
            1 => u().prop_map(Tamper::Dup),
            1 => any::<bool>().prop_map(Tamper::Null),
            1 => u().prop_map(Tamper::Scale),
            1 => Just(Tamper::Empty),
            1 => any::<u64>().prop_map(Tamper::Random),
        ];
        let attack = prop_oneof![
            2 => Just(Attack::Prover),
            2 => any::<u64>().prop_map(Attack::Other),
            5 => change.prop_map(Attack::Changed),
            6 => tamper.prop_map(Attack::Proof),
            4 => ub().prop_map(|(i, s)| Attack::Delayed(i, s)),
            3 => ub().prop_map(|(i, s)| Attack::DelayedBoth(i, s)),
            2 => Just(Attack::Scaled),
            4 => ub().prop_map(|(i, s)| Attack::DelayedValue(i, s)),
            3 => uu().prop_map(|(i, j)| Attack::DelayedA(i, j)),
            3 => uu().prop_map(|(i, j)| Attack::DelayedB(i, j)),
            3 => uu().prop_map(|(i, j)| Attack::DelayedR(i, j)),
            2 => u().prop_map(Attack::Fold),
            1 => (0u8..3).prop_map(Attack::Extra),
        ];
        let v = if degenerate { vs } else { vs_rand };
        (logn(lo, hi), v(), v(), v(), attack, delta())
            .prop_map(|(k, a, b, r, attack, delta)| Atk { k, a, b, r, attack, delta })
            .boxed()
    }
}

type Z<F> = Vec<(F, F)>;

/// A statement as discrete logarithms
#[derive(Clone)]
struct Stm<F> {
    a: Vec<F>,
    b: Vec<F>,
    r: Vec<F>,
    v: F,
}

impl<F: PrimeField> Stm<F> {
    fn truth(&self) -> F {
        self.a.iter().zip(&self.b).zip(&self.r).map(|((a, b), r)| *a * b * r).sum()
    }
}

fn verify<P: CurveEx>(s: &Stm<P::ScalarField>, z: &Z<P::ScalarField>) -> V {
    let proof = Proof::<P>::verif_from_parts(z.iter().map(|(l, r)| (P::gt(l), P::gt(r))).collect());
    verify_proof::<P>(s, &proof)
}

fn verify_proof<P: CurveEx>(s: &Stm<P::ScalarField>, proof: &Proof<P>) -> V {
    let (a, b, v) = (P::g1a(&s.a), P::g2a(&s.b), P::gt(&s.v));
    verdict(|| SIPP::<P, Rec32>::verify(&a, &b, &s.r, v, proof))
}

/// How to find out the challenges of the verifier
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    /// generator seeded with the hash outputs
    Hashes,
    /// scalars of its first multi-exponentiation (mock groups only)
    Scalars,
}

/// The challenges for these round messages (the last one of `z` included), as the verifier of a
/// statement derives them; `rounds` is the number of rounds it expects.
fn challenges<P: CurveEx>(mode: Mode, s: &Stm<P::ScalarField>, z: &Z<P::ScalarField>, rounds: usize) -> Option<Vec<P::ScalarField>> {
    let mut zz = z.clone();
    let zero = P::ScalarField::zero();
    zz.resize(rounds.max(z.len()), (zero, zero));
    let ((_, outs, _), msms) = {
        let (r, msms) = record_msms(|| {
            let (t, ins, outs) = record(|| verify::<P>(s, &zz));
            (t, outs, ins)
        });
        (r, msms)
    };
    let ch: Vec<P::ScalarField> = match mode {
        Mode::Hashes => outs
            .iter()
            .skip(1)
            .map(|o| {
                let seed: [u8; 32] = o[..].try_into().unwrap();
                let mut g = rand_chacha::ChaChaRng::from_seed(seed);
                P::ScalarField::from(u128::rand(&mut g))
            })
            .collect(),
        Mode::Scalars => {
            let m = msms.iter().find(|m| m.len() == s.a.len())?;
            if s.r.iter().any(|r| r.is_zero()) {
                return None;
            }
            let m: Vec<P::ScalarField> = m.iter().map(|b| P::ScalarField::from_le_bytes_mod_order(b)).collect();
            let f = |i: usize| m[i] * inv(&s.r[i]);
            (0..zz.len()).map(|j| f(1 << (zz.len() - j - 1)) * inv(&f(0))).collect()
        }
    };
    if ch.len() < z.len() || ch.iter().any(|c| c.is_zero()) {
        return None;
    }
    Some(ch[..z.len()].to_vec())
}

/// Follow the protocol for vectors x, y with the challenges of the statement s.
fn follow<P: CurveEx>(
    mode: Mode,
    s: &Stm<P::ScalarField>,
    x: &[P::ScalarField],
    y: &[P::ScalarField],
    null_rounds: usize,
    pre: &dyn Fn(usize, &mut (P::ScalarField, P::ScalarField)),
    post: &dyn Fn(usize, &P::ScalarField, &mut (P::ScalarField, P::ScalarField)),
) -> Option<(Z<P::ScalarField>, Vec<P::ScalarField>)> {
    let rounds = s.a.len().trailing_zeros() as usize;
    let zero = P::ScalarField::zero();
    let (mut x, mut y) = (x.to_vec(), y.to_vec());
    let mut z: Z<P::ScalarField> = vec![(zero, zero); null_rounds];
    let mut ch = vec![];
    while x.len() > 1 {
        let h = x.len() / 2;
        let mut m = (dot(&x[h..], &y[..h]), dot(&x[..h], &y[h..]));
        let i = z.len();
        pre(i, &mut m);
        z.push(m);
        let c = *challenges::<P>(mode, s, &z, rounds)?.last()?;
        post(i, &c, &mut z[i]);
        let ci = inv(&c);
        x = (0..h).map(|i| x[i] + x[h + i] * c).collect();
        y = (0..h).map(|i| y[i] + y[h + i] * ci).collect();
        ch.push(c);
    }
    Some((z, ch))
}

fn s_vector<F: Field>(n: usize, ch: &[F]) -> Vec<F> {
    (0..n)
        .map(|i| ch.iter().enumerate().filter(|(j, _)| i >> (ch.len() - j - 1) & 1 == 1).map(|(_, c)| *c).product())
        .collect()
}

fn soundness<P: CurveEx>(c: &Atk) -> R {
    let n = 1usize << c.k;
    let k = c.k as usize;
    let f = |s: u64| Vs { pat: Pat::Rand(s), over: vec![] }.f::<P::ScalarField>(n);
    let delta: P::ScalarField = c.delta.nz();
    let mut s = Stm { a: c.a.f(n), b: c.b.f(n), r: c.r.f(n), v: P::ScalarField::zero() };
    s.v = s.truth();
    let skip = |why: &str| Ok(pass(false).class(format!("skipped: {}", why)));
    let scaled = |s: &Stm<P::ScalarField>| -> Vec<P::ScalarField> { s.a.iter().zip(&s.r).map(|(a, r)| *a * r).collect() };
    let lib_prove = |s: &Stm<P::ScalarField>| {
        let (a, b, v) = (P::g1a(&s.a), P::g2a(&s.b), P::gt(&s.v));
        attempt(|| SIPP::<P, Rec32>::prove(&a, &b, &s.r, v))
    };
    let name = match &c.attack {
        Attack::Proof(t) => format!("Proof.{:?}", t).split(['(', ' ']).next().unwrap().to_string(),
        Attack::Changed(t) => format!("Changed.{:?}", t).split(['(', ' ']).next().unwrap().to_string(),
        a => format!("{:?}", a).split(['(', ' ']).next().unwrap().to_string(),
    };
    let pair = |i: u16, j: u16| {
        let i = i as usize % n;
        (i, (i + 1 + j as usize % (n - 1)) % n)
    };
    let done = |v: V| {
        ensure!(v != V::True, "accepted: {:?} at length {}", c.attack, n);
        Ok(pass(true).class(name.clone()).class(nclass(n)).class(match v {
            V::False => "rejected",
            V::Error(_) => "error",
            _ => "panic",
        }))
    };
    match &c.attack {
        Attack::Prover => {
            let mut w = s.clone();
            ripp_check::change!(w.v, delta);
            return match lib_prove(&w) {
                Ok(p) => done(verify_proof::<P>(&w, &p)),
                Err(_) => Ok(pass(true).class(name).class("prover refuses")),
            };
        }
        Attack::Other(seed) => {
            let p = lib_prove(&s)?;
            let mut w = s.clone();
            match seed % 3 {
                0 => w.a = f(*seed),
                1 => w.b = f(*seed),
                _ => w.r = f(*seed),
            }
            if seed % 2 == 0 {
                w.v = w.truth();
            }
            if w.a == s.a && w.b == s.b && w.r == s.r {
                return skip("same statement");
            }
            if w.v == w.truth() {
                let p = p.verif_into_parts();
                if lib_prove(&w)?.verif_into_parts() == p {
                    return skip("the honest proof of both statements");
                }
                return done(verify_proof::<P>(&w, &Proof::<P>::verif_from_parts(p)));
            }
            return done(verify_proof::<P>(&w, &p));
        }
        Attack::Changed(t) => {
            let p = lib_prove(&s)?;
            let mut w = s.clone();
            match t {
                Change::Value => ripp_check::change!(w.v, delta),
                Change::ValueZero => w.v = P::ScalarField::zero(),
                Change::A(i) => ripp_check::change!(w.a[*i as usize % n], delta),
                Change::B(i) => ripp_check::change!(w.b[*i as usize % n], delta),
                Change::R(i) => ripp_check::change!(w.r[*i as usize % n], delta),
                Change::SwapA(i, j) => { let (i, j) = pair(*i, *j); w.a.swap(i, j) }
                Change::SwapB(i, j) => { let (i, j) = pair(*i, *j); w.b.swap(i, j) }
                Change::SwapR(i, j) => { let (i, j) = pair(*i, *j); w.r.swap(i, j) }
                Change::ExchangeAllA => w.a.reverse(),
            }
            if w.v == w.truth() {
                return skip("still true");
            }
            return done(verify_proof::<P>(&w, &p));
        }
        Attack::Proof(t) => {
            let p = lib_prove(&s)?;
            let mut z = p.verif_into_parts();
            let orig = z.clone();
            let zero = PairingOutput::<P>::zero();
            let fac = if delta == P::ScalarField::from(1u64) { P::ScalarField::from(2u64) } else { delta };
            match t {
                Tamper::Two(i, l, j, m, same) => {
                    let d = P::gt(&delta);
                    let e = &mut z[*i as usize % k];
                    *(if *l { &mut e.0 } else { &mut e.1 }) += d;
                    let e = &mut z[*j as usize % k];
                    *(if *m { &mut e.0 } else { &mut e.1 }) += if *same { d } else { -d };
                }
                Tamper::Elem(i, left) => {
                    let e = &mut z[*i as usize % k];
                    if *left { e.0 += P::gt(&delta) } else { e.1 += P::gt(&delta) }
                }
                Tamper::Zero(i, left) => {
                    let e = &mut z[*i as usize % k];
                    if *left { e.0 = zero } else { e.1 = zero }
                }
                Tamper::Sides(i) => {
                    let e = &mut z[*i as usize % k];
                    *e = (e.1, e.0);
                }
                Tamper::Rounds(i, j) => {
                    if k < 2 { return skip("one round"); }
                    let i = *i as usize % k;
                    z.swap(i, (i + 1 + *j as usize % (k - 1)) % k);
                }
                Tamper::Drop(i) => drop(z.remove(*i as usize % k)),
                Tamper::Dup(i) => { let e = z[*i as usize % k]; z.insert(*i as usize % k, e); }
                Tamper::Null(end) => z.insert(if *end { k } else { 0 }, (zero, zero)),
                Tamper::Scale(i) => {
                    let e = &mut z[*i as usize % k];
                    e.0 *= fac;
                    e.1 *= inv(&fac);
                }
                Tamper::Empty => z.clear(),
                Tamper::Random(seed) => {
                    z = f(*seed)[..k].iter().map(|x| (P::gt(x), P::gt(&x.square()))).collect();
                }
            }
            if z == orig {
                return skip("nothing changed");
            }
            return done(verify_proof::<P>(&s, &Proof::<P>::verif_from_parts(z)));
        }
        _ => {}
    }
    // protocol-following provers: they have to be accepted on the true statement
    let none = |_: usize, _: &mut (P::ScalarField, P::ScalarField)| {};
    let none2 = |_: usize, _: &P::ScalarField, _: &mut (P::ScalarField, P::ScalarField)| {};
    let mut honest = None;
    for mode in [Mode::Hashes, Mode::Scalars] {
        if let Ok(Some((z, ch))) = quiet(|| follow::<P>(mode, &s, &scaled(&s), &s.b, 0, &none, &none2)) {
            if verify::<P>(&s, &z) == V::True {
                honest = Some((mode, z, ch));
                break;
            }
        }
    }
    let Some((mode, z, ch)) = honest else {
        return skip("adversary does not follow the protocol");
    };
    let sv = s_vector(n, &ch);
    match &c.attack {
        Attack::Delayed(i, left) => {
            let ro = *i as usize % k;
            let mut w = s.clone();
            w.v += delta;
            let g = follow::<P>(mode, &w, &scaled(&s), &s.b, 0, &none, &|i, c, m| {
                if i == ro {
                    if *left { m.0 -= delta * inv(c) } else { m.1 -= delta * c }
                }
            });
            let Some((z, _)) = g else { return skip("challenge zero") };
            done(verify::<P>(&w, &z))
        }
        Attack::Scaled => {
            let f = factor(&delta);
            let mut w = s.clone();
            w.v *= f;
            if w.v == s.v { return skip("still true"); }
            let g = follow::<P>(mode, &w, &scaled(&s), &s.b, 0, &|_, m| { m.0 *= f; m.1 *= f }, &none2);
            let Some((z, _)) = g else { return skip("challenge zero") };
            done(verify::<P>(&w, &z))
        }
        Attack::DelayedBoth(i, sum) => {
            let ro = *i as usize % k;
            let mut w = s.clone();
            w.v += delta;
            let g = follow::<P>(mode, &w, &scaled(&s), &s.b, 0, &none, &|i, c, m| {
                if i == ro {
                    // x c -+ x / c = delta
                    let x = delta * inv(&if *sum { *c - inv(c) } else { *c + inv(c) });
                    m.0 -= x;
                    if *sum { m.1 += x } else { m.1 -= x }
                }
            });
            let Some((z, _)) = g else { return skip("challenge zero") };
            done(verify::<P>(&w, &z))
        }
        Attack::DelayedValue(i, left) => {
            let ro = *i as usize % k;
            let g = follow::<P>(mode, &s, &scaled(&s), &s.b, 0, &|i, m| {
                if i == ro {
                    if *left { m.0 += delta } else { m.1 += delta }
                }
            }, &none2);
            let Some((z, ch)) = g else { return skip("challenge zero") };
            let mut w = s.clone();
            w.v -= delta * if *left { ch[ro] } else { inv(&ch[ro]) };
            done(verify::<P>(&w, &z))
        }
        Attack::DelayedA(i, j) | Attack::DelayedB(i, j) | Attack::DelayedR(i, j) => {
            let (i, j) = pair(*i, *j);
            let mut w = s.clone();
            let divisors = match &c.attack {
                Attack::DelayedA(..) => &s.r,
                Attack::DelayedR(..) => &s.a,
                _ => &sv,
            };
            if divisors[i].is_zero() || divisors[j].is_zero() {
                return skip("zero element");
            }
            match &c.attack {
                Attack::DelayedA(..) => {
                    w.a[i] += delta * inv(&(sv[i] * s.r[i]));
                    w.a[j] -= delta * inv(&(sv[j] * s.r[j]));
                }
                Attack::DelayedB(..) => {
                    w.b[i] += delta * sv[i];
                    w.b[j] -= delta * sv[j];
                }
                _ => {
                    w.r[i] += delta * inv(&(sv[i] * s.a[i]));
                    w.r[j] -= delta * inv(&(sv[j] * s.a[j]));
                }
            }
            if w.v == w.truth() {
                return skip("still true");
            }
            done(verify::<P>(&w, &z))
        }
        Attack::Fold(m) => {
            // fewer rounds: the product of the vectors folded without challenges
            let m = *m as usize % k;
            let h = 1 << m;
            let sum = |v: &[P::ScalarField]| -> Vec<P::ScalarField> { (0..h).map(|i| v.iter().skip(i).step_by(h).sum()).collect() };
            let (x, y) = (sum(&scaled(&s)), sum(&s.b));
            let mut w = s.clone();
            w.v = dot(&x, &y);
            // without these rounds the verifier may derive the challenges from the shorter proof
            let g = quiet(|| follow::<P>(mode, &w, &x, &y, 0, &none, &none2));
            let Ok(Some((z, _))) = g else { return skip("no challenges") };
            done(verify::<P>(&w, &z))
        }
        Attack::Extra(m) => {
            let m = 1 + *m as usize;
            let g = quiet(|| follow_extra::<P>(mode, &s, &scaled(&s), m));
            let Ok(Some(z)) = g else { return Ok(pass(true).class(name).class("refused before the challenges")) };
            done(verify::<P>(&s, &z))
        }
        _ => unreachable!(),
    }
}

fn follow_extra<P: CurveEx>(mode: Mode, s: &Stm<P::ScalarField>, x: &[P::ScalarField], m: usize) -> Option<Z<P::ScalarField>> {
    follow::<P>(mode, s, x, &s.b, m, &|_, _| {}, &|_, _, _| {}).map(|(z, _)| z)
}

fn c02() -> Vec<Scenario> {
    vec![
        Scenario::new("mock", 12_000, 400_000, attack_case(false, 1, 4), soundness::<Big>),
        Scenario::new("degenerate/mock", 6000, 200_000, attack_case(true, 1, 4), soundness::<Big>),
        Scenario::new("long/mock", 200, 5000, attack_case(false, 5, 7), soundness::<Big>),
        Scenario::new("bls12-377", 160, 4000, attack_case(false, 1, 2), soundness::<Bls377>),
        Scenario::new("degenerate/bls12-377", 60, 2000, attack_case(true, 1, 2), soundness::<Bls377>),
        Scenario::new("bw6-761", 40, 800, attack_case(false, 1, 2), soundness::<Bw6>),
        Scenario::new("longer/mock", 80, 500, attack_case(false, 8, 10), soundness::<Big>),
        Scenario::new("bls12-381", 160, 4000, attack_case(false, 1, 2), soundness::<Bls>),
    ]
}

// ---------------------------------------------------------------- C24

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Data {
    Bytes(Vec<u8>),
    /// many bytes from a seed
    Long(u32, u64),
    Const(u16, u8),
}

impl Data {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Data::Bytes(b) => b.clone(),
            Data::Long(n, s) => {
                let mut v = vec![0; *n as usize];
                rng(*s).fill_bytes(&mut v);
                v
            }
            Data::Const(n, b) => vec![*b; *n as usize],
        }
    }
}

fn data() -> BoxedStrategy<Data> {
    prop_oneof![
        4 => prop::collection::vec(any::<u8>(), 0..40).prop_map(Data::Bytes),
        2 => (0u32..600, any::<u64>()).prop_map(|(n, s)| Data::Long(n, s)),
        1 => (0u32..70_000, any::<u64>()).prop_map(|(n, s)| Data::Long(n, s)),
        1 => (0u16..300, any::<u8>()).prop_map(|(n, b)| Data::Const(n, b)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Absorb(Data),
    U32,
    U64,
    /// whole words
    Fill(u8),
    TryFill(u8),
}

fn ops() -> BoxedStrategy<Vec<Op>> {
    let op = prop_oneof![
        3 => data().prop_map(Op::Absorb),
        1 => Just(Op::U32),
        1 => Just(Op::U64),
        2 => any::<u8>().prop_map(Op::Fill),
        1 => any::<u8>().prop_map(Op::TryFill),
    ];
    prop::collection::vec(op, 0..14).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct History {
    seed: Data,
    ops: Vec<Op>,
}

fn read<D: Digest<OutputSize = U32>>(g: &mut FiatShamirRng<D>, op: &Op) -> Vec<u8> {
    match op {
        Op::Absorb(d) => {
            g.absorb(&d.bytes());
            vec![]
        }
        Op::U32 => g.next_u32().to_le_bytes().to_vec(),
        Op::U64 => g.next_u64().to_le_bytes().to_vec(),
        Op::Fill(w) => {
            let mut v = vec![0; *w as usize * 4];
            g.fill_bytes(&mut v);
            v
        }
        Op::TryFill(w) => {
            let mut v = vec![0; *w as usize * 4];
            g.try_fill_bytes(&mut v).unwrap();
            v
        }
    }
}

/// The stream after the absorbed strings, in a single request of a fresh generator
fn stream<D: Digest<OutputSize = U32>>(absorbed: &[Vec<u8>], len: usize) -> Vec<u8> {
    let mut g = FiatShamirRng::<D>::from_seed(&absorbed[0]);
    for a in &absorbed[1..] {
        g.absorb(a);
    }
    let mut v = vec![0; len];
    g.fill_bytes(&mut v);
    v
}

fn history<D: Digest<OutputSize = U32>>(h: &History) -> R {
    let mut absorbed = vec![h.seed.bytes()];
    let mut g = FiatShamirRng::<D>::from_seed(&absorbed[0]);
    let mut out: Vec<u8> = vec![];
    let (mut reads, mut epochs) = (0, 0);
    for op in &h.ops {
        if let Op::Absorb(d) = op {
            if !out.is_empty() {
                let want = stream::<D>(&absorbed, out.len());
                ensure!(out == want, "the output after {} strings depends on more than these strings and the position", absorbed.len());
                epochs += 1;
            }
            g.absorb(&d.bytes());
            absorbed.push(d.bytes());
            out.clear();
        } else {
            reads += 1;
            out.extend(read(&mut g, op));
        }
    }
    let mut last = vec![0; 64];
    g.fill_bytes(&mut last);
    out.extend(last);
    ensure!(out == stream::<D>(&absorbed, out.len()), "the output after {} strings depends on more than these strings and the position", absorbed.len());
    Ok(pass(reads > 0 && absorbed.len() > 1)
        .class(format!("{} strings", absorbed.len().min(6)))
        .class(if epochs > 0 { "reads before absorbing" } else { "reads at the end only" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    /// another byte at a position of a string
    Byte(u16, u32, u8),
    Omit(u16),
    Insert(u16, Data),
    Swap(u16, u16),
    /// the last byte of a string removed
    Shorten(u16),
    /// a byte appended or put in front
    Longer(u16, u8, bool),
    /// the last byte of a string moved to the next one
    Move(u16),
    Reverse,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Differs {
    strings: Vec<Data>,
    edit: Edit,
    /// words read after each string in both generators
    reads: u8,
}

fn differs_case() -> BoxedStrategy<Differs> {
    let u = || any::<u16>();
    let edit = prop_oneof![
        6 => (u(), any::<u32>(), 1u8..).prop_map(|(a, b, c)| Edit::Byte(a, b, c)),
        2 => u().prop_map(Edit::Omit),
        1 => (u(), data()).prop_map(|(a, b)| Edit::Insert(a, b)),
        2 => (u(), u()).prop_map(|(a, b)| Edit::Swap(a, b)),
        1 => u().prop_map(Edit::Shorten),
        2 => (u(), any::<u8>(), any::<bool>()).prop_map(|(a, b, c)| Edit::Longer(a, b, c)),
        1 => u().prop_map(Edit::Move),
        1 => Just(Edit::Reverse),
    ];
    (prop::collection::vec(data(), 1..8), edit, 0u8..40)
        .prop_map(|(strings, edit, reads)| Differs { strings, edit, reads })
        .boxed()
}

fn outputs<D: Digest<OutputSize = U32>>(strings: &[Vec<u8>], words: usize) -> Vec<Vec<u8>> {
    let mut g = FiatShamirRng::<D>::from_seed(&strings[0]);
    let mut res = vec![];
    for (i, s) in strings.iter().enumerate() {
        if i > 0 {
            g.absorb(s);
        }
        let mut v = vec![0; words * 4];
        g.fill_bytes(&mut v);
        res.push(v);
    }
    res
}

fn differs<D: Digest<OutputSize = U32>>(c: &Differs) -> R {
    let x: Vec<Vec<u8>> = c.strings.iter().map(|d| d.bytes()).collect();
    let mut y = x.clone();
    let n = x.len();
    let skip = |why: &str| Ok(pass(false).class(format!("skipped: {}", why)));
    match &c.edit {
        Edit::Byte(i, p, e) => {
            let s = &mut y[*i as usize % n];
            if s.is_empty() { return skip("empty string"); }
            let p = *p as usize % s.len();
            s[p] ^= e;
        }
        Edit::Omit(i) => {
            if n < 2 { return skip("one string"); }
            y.remove(*i as usize % n);
        }
        Edit::Insert(i, d) => y.insert(*i as usize % (n + 1), d.bytes()),
        Edit::Swap(i, j) => y.swap(*i as usize % n, *j as usize % n),
        Edit::Shorten(i) => { y[*i as usize % n].pop(); }
        Edit::Longer(i, b, front) => {
            let s = &mut y[*i as usize % n];
            if *front { s.insert(0, *b) } else { s.push(*b) }
        }
        Edit::Move(i) => {
            if n < 2 { return skip("one string"); }
            let i = *i as usize % (n - 1);
            let Some(b) = y[i].pop() else { return skip("empty string") };
            y[i + 1].insert(0, b);
        }
        Edit::Reverse => y.reverse(),
    }
    if x == y {
        return skip("nothing changed");
    }
    let words = c.reads as usize;
    let (ox, oy) = (outputs::<D>(&x, words), outputs::<D>(&y, words));
    // equal as long as the strings are equal, different from the first difference on
    let common = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    ensure!(ox[..common] == oy[..common], "outputs differ before the first difference of what was absorbed");
    if words >= 4 {
        for i in common..ox.len().min(oy.len()) {
            ensure!(ox[i][..16] != oy[i][..16], "the same output after string {} for different histories ({:?})", i, c.edit);
        }
    }
    let (fx, fy) = (stream::<D>(&x, 32), stream::<D>(&y, 32));
    for w in 0..4 {
        ensure!(fx[8 * w..8 * w + 8] != fy[8 * w..8 * w + 8], "the same output after all strings for different histories ({:?})", c.edit);
    }
    Ok(pass(true).class(format!("{:?}", c.edit).split(['(', ' ']).next().unwrap().to_string()))
}

/// Words of the streams of many different histories do not repeat.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spread {
    strings: Vec<Data>,
    which: u16,
}

fn spread<D: Digest<OutputSize = U32>>(c: &Spread) -> R {
    let mut seen = std::collections::HashSet::new();
    let x: Vec<Vec<u8>> = c.strings.iter().map(|d| d.bytes()).collect();
    let i = c.which as usize % x.len();
    for v in 0..200u32 {
        let mut y = x.clone();
        y[i].extend_from_slice(&v.to_le_bytes());
        let s = stream::<D>(&y, 64);
        for w in s.chunks(8) {
            ensure!(seen.insert(w.to_vec()), "a 64-bit word occurs twice in the streams of 200 histories");
        }
    }
    Ok(pass(true).class(format!("{} strings", x.len())))
}

fn c24() -> Vec<Scenario> {
    fn hist() -> BoxedStrategy<History> {
        (data(), ops()).prop_map(|(seed, ops)| History { seed, ops }).boxed()
    }
    fn spr() -> BoxedStrategy<Spread> {
        (prop::collection::vec(data(), 1..4), any::<u16>()).prop_map(|(strings, which)| Spread { strings, which }).boxed()
    }
    vec![
        Scenario::new("histories/blake2s", 6000, 200_000, hist, history::<blake2::Blake2s>),
        Scenario::new("histories/blake2b-256", 2000, 50_000, hist, history::<Rec32>),
        Scenario::new("differences/blake2s", 12_000, 400_000, differs_case, differs::<blake2::Blake2s>),
        Scenario::new("differences/blake2b-256", 3000, 80_000, differs_case, differs::<Rec32>),
        Scenario::new("spread/blake2s", 60, 1000, spr, spread::<blake2::Blake2s>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C01",
            rule: "A case is a size 2^k (k from 1), points a, points b and coefficients r given by patterns (random, constant, alternating, powers, repeated or opposite halves, special entries such as the identity), and thread counts for prover and verifier. Non-trivial: the product is not one.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c01,
        },
        Property {
            id: "C02",
            rule: "A case is a statement (random, or with zeros and patterns in points and coefficients) and one attack: the library's prover on a false value, honest proofs under another or a changed statement, altered proofs, and protocol-following provers that repair a round message, the value, points or coefficients after they know the challenges, or use another number of rounds. Non-trivial: the attack applied, the statement is false or the proof differs, and (for provers of the harness) the same prover is accepted on the true statement.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c02,
        },
        Property {
            id: "C24",
            rule: "A case is a history of absorbed strings (0 to 70000 bytes) and reads of 32-bit words in various ways, compared with a fresh generator that absorbed the same strings and is read in one request; or two histories that differ in one edit. Non-trivial: at least two strings and one read; the edit changed something.",
            assumptions: &["no collisions of the digest on the generated strings"],
            scenarios: c24,
        },
    ])
}
