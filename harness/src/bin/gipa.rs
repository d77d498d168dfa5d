//! C05 (GIPA completeness), C06 (GIPA soundness), C07 (provers refuse false statements).
use ark_dh_commitments::DoublyHomomorphicCommitment;
use ark_ff::Zero;
use ark_inner_products::InnerProduct;
use ark_ip_proofs::applications::groth16_aggregation::{aggregate_proofs, setup_inner_product};
use ark_ip_proofs::applications::poly_commit::{self, transparent};
use ark_poly::{univariate::DensePolynomial, DenseUVPolynomial};
use ark_sipp::SIPP;
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, el3};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    st: St,
    threads: usize,
}

fn complete_case(hi: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || (st(0, hi), threads()).prop_map(|(st, threads)| Complete { st, threads }).boxed()
}

fn complete<I: Inst, D: Digest + 'static>(c: &Complete) -> R {
    let d = c.st.dl::<I>();
    let (a, b) = (I::lms(&d.a), I::rms(&d.b));
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (t, com) = (I::tm(&d.t()), el3::<I>(&d.com));
    let (v1, v2) = with_threads_local(c.threads, || {
        let proof = attempt(|| Gp::<I, D>::prove((&a, &b, &t), (&ka, &kb, &kt), (&com.0, &com.1, &com.2)))?;
        let v1 = verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &proof));
        let (proof, _) = attempt(|| Gp::<I, D>::prove_with_aux((&a, &b), (&ka, &kb, &[kt.clone()])))?;
        let v2 = verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &proof));
        Ok::<_, String>((v1, v2))
    })?;
    ensure!(v1 == V::True, "honest proof of length {}: {:?}", d.n(), v1);
    ensure!(v2 == V::True, "honest proof (prove_with_aux) of length {}: {:?}", d.n(), v2);
    Ok(pass(d.n() >= 2 && !d.t().is_zero())
        .class(nclass(d.n()))
        .class(if d.t().is_zero() { "product zero" } else { "product non-zero" })
        .class(if is_zero3(&d.com) { "all commitments zero" } else { "commitments non-zero" })
        .class(format!("left {}", c.st.a.class())))
}

/// The recording digests are thread local and the argument types not all Send: run in place when
/// there is one thread.
fn with_threads_local<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WithSetup {
    k: u32,
    a: Vs,
    b: Vs,
    seed: u64,
}

fn setup_case(hi: u32) -> impl Fn() -> BoxedStrategy<WithSetup> + Send + Sync + 'static {
    move || (logn(0, hi), vs(), vs(), any::<u64>()).prop_map(|(k, a, b, seed)| WithSetup { k, a, b, seed }).boxed()
}

/// As a user does it: keys from setup, commitments from the library
fn complete_setup<I: Inst, D: Digest + 'static>(c: &WithSetup) -> R {
    let n = 1 << c.k;
    let (ka, kb, kt) = attempt(|| Gp::<I, D>::setup(&mut rng(c.seed), n))?;
    ensure!(ka.len() == n && kb.len() == n, "setup({}) gave {} and {} keys", n, ka.len(), kb.len());
    let (x, y) = (c.a.f::<I::S>(n), c.b.f::<I::S>(n));
    let (a, b) = (I::lms(&x), I::rms(&y));
    let t = attempt(|| I::IP::inner_product(&a, &b))?;
    let com = (
        attempt(|| I::L::commit(&ka, &a))?,
        attempt(|| I::R::commit(&kb, &b))?,
        attempt(|| I::C::commit(&[kt.clone()], &[t.clone()]))?,
    );
    let proof = attempt(|| Gp::<I, D>::prove((&a, &b, &t), (&ka, &kb, &kt), (&com.0, &com.1, &com.2)))?;
    let v = verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &proof));
    ensure!(v == V::True, "honest proof of length {} with setup keys: {:?}", n, v);
    Ok(pass(n >= 2 && !dot(&x, &y).is_zero()).class(nclass(n)))
}

fn c05() -> Vec<Scenario> {
    vec![
        Scenario::new("pairing/mock", 900, 40_000, complete_case(7), complete::<Pair<Big>, Rec64>),
        Scenario::new("multiexp/mock", 900, 40_000, complete_case(7), complete::<Msm<Big>, Rec64>),
        Scenario::new("multiexp-keyed/mock", 900, 40_000, complete_case(7), complete::<MsmKey<Big>, Rec64>),
        Scenario::new("multiexp-g2/mock", 900, 40_000, complete_case(7), complete::<MsmG2<Big>, Rec64>),
        Scenario::new("scalar/mock", 900, 40_000, complete_case(8), complete::<Scal<Big>, Rec64>),
        Scenario::new("scalar-keyed/mock", 900, 40_000, complete_case(8), complete::<ScalKey<Big>, Rec64>),
        Scenario::new("long/pairing", 24, 400, long_case(8, 10), complete::<Pair<Big>, Rec64>),
        Scenario::new("long/scalar", 24, 400, long_case(9, 11), complete::<Scal<Big>, Rec64>),
        Scenario::new("rare-challenges/pairing", 1500, 40_000, complete_case(5), complete::<Pair<Small>, Rec64>),
        Scenario::new("rare-challenges/multiexp", 1500, 40_000, complete_case(5), complete::<Msm<Small>, Rec64>),
        Scenario::new("rare-challenges/scalar", 1500, 40_000, complete_case(5), complete::<Scal<Small>, Rec64>),
        Scenario::new("zero-digests/pairing", 500, 10_000, complete_case(5), complete::<Pair<Big>, Zeros64>),
        Scenario::new("zero-digests/scalar-keyed", 500, 10_000, complete_case(5), complete::<ScalKey<Big>, Zeros64>),
        Scenario::new("digest-32/multiexp", 300, 5000, complete_case(5), complete::<Msm<Big>, Rec32>),
        Scenario::new("setup-keys/pairing", 300, 10_000, setup_case(5), complete_setup::<Pair<Big>, Rec64>),
        Scenario::new("setup-keys/multiexp-keyed", 300, 10_000, setup_case(5), complete_setup::<MsmKey<Big>, Rec64>),
        Scenario::new("setup-keys/scalar-keyed", 300, 10_000, setup_case(5), complete_setup::<ScalKey<Big>, Rec64>),
        Scenario::new("pairing/bls12-381", 24, 600, complete_case(3), complete::<Pair<Bls>, blake2::Blake2b>),
        Scenario::new("multiexp/bls12-381", 24, 600, complete_case(3), complete::<Msm<Bls>, blake2::Blake2b>),
        Scenario::new("multiexp-keyed/bls12-381", 16, 400, complete_case(3), complete::<MsmKey<Bls>, blake2::Blake2b>),
        Scenario::new("scalar/bls12-381", 32, 800, complete_case(4), complete::<Scal<Bls>, blake2::Blake2b>),
        Scenario::new("pairing/bls12-377", 8, 200, complete_case(2), complete::<Pair<Bls377>, blake2::Blake2s>),
        Scenario::new("pairing/bw6-761", 8, 200, complete_case(2), complete::<Pair<Bw6>, blake2::Blake2b>),
        Scenario::new("multiexp-keyed/bw6-761", 8, 200, complete_case(2), complete::<MsmKey<Bw6>, blake2::Blake2s>),
        Scenario::new("setup-keys/pairing/bls12-381", 16, 300, setup_case(3), complete_setup::<Pair<Bls>, blake2::Blake2b>),
    ]
}

fn long_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || (st(lo, hi), threads()).prop_map(|(st, threads)| Complete { st, threads }).boxed()
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// follow the protocol for wrong commitments (bits: which)
    WrongCom(u8),
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    /// one commitment claimed to be that of zeros
    ClaimZero(u8),
    /// statement and messages of one commitment multiplied by a factor, often -1 (bits: which)
    Scaled(u8),
    /// library proof of the true statement, verified with wrong commitments
    OtherCom(u8),
    /// follow the protocol for a wrong commitment, repair one round message after its challenge
    Delayed(At),
    /// derive the statement from the challenges
    DelayedStatement(At),
    /// alter an honest proof
    Proof(Tamper),
    KeyA(u16),
    KeyB(u16),
    KeyT,
    /// two elements of a key exchanged
    KeySwap(bool, u16, u16),
    /// proof of another statement
    OtherStatement(u64),
    /// a round message given by several or no components in place of one
    ShapeT(At, bool),
    /// a commitment of the product with several or no components
    ShapeCom(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    st: St,
    attack: Attack,
    delta: Sc,
}

fn attack_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let attack = prop_oneof![
            3 => (1u8..8).prop_map(Attack::WrongCom),
            2 => (1u8..8).prop_map(Attack::Scaled),
            1 => (0u8..3).prop_map(Attack::ClaimZero),
            3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => (1u8..8).prop_map(Attack::OtherCom),
            4 => at().prop_map(Attack::Delayed),
            4 => at().prop_map(Attack::DelayedStatement),
            14 => tamper().prop_map(Attack::Proof),
            1 => any::<u16>().prop_map(Attack::KeyA),
            1 => any::<u16>().prop_map(Attack::KeyB),
            1 => Just(Attack::KeyT),
            1 => (any::<bool>(), any::<u16>(), any::<u16>()).prop_map(|(a, b, c)| Attack::KeySwap(a, b, c)),
            1 => any::<u64>().prop_map(Attack::OtherStatement),
            1 => (at(), any::<bool>()).prop_map(|(a, b)| Attack::ShapeT(a, b)),
            1 => any::<bool>().prop_map(Attack::ShapeCom),
        ];
        (st_rand(lo, hi), attack, delta()).prop_map(|(st, attack, delta)| Atk { st, attack, delta }).boxed()
    }
}

/// Degenerate statements (zeros, patterns), false claims about them
fn degenerate_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    let f = attack_case(lo, hi);
    move || {
        let attack = prop_oneof![
            2 => (1u8..8).prop_map(Attack::WrongCom),
            1 => (1u8..8).prop_map(Attack::OtherCom),
            2 => (0u8..3).prop_map(Attack::ClaimZero),
            1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => at().prop_map(Attack::Delayed),
            1 => at().prop_map(Attack::DelayedStatement),
        ];
        (f(), vs(), vs(), attack)
            .prop_map(|(c, a, b, attack)| Atk { st: St { a, b, ..c.st }, attack, delta: c.delta })
            .boxed()
    }
}

/// Instantiations whose commitment of the product has a shape (a list of components)
trait Shape: Inst {
    fn shape(x: &Self::TO, extra: bool) -> Option<Self::TO>;
}
macro_rules! shape {
    (id $($t:ident),*) => { $(impl<P: CurveEx> Shape for $t<P> {
        fn shape(x: &Self::TO, extra: bool) -> Option<Self::TO> {
            let mut y = x.clone();
            if extra { let e = y.0[0].clone(); y.0.push(e); } else { y.0.clear(); }
            Some(y)
        }
    })* };
    (no $($t:ident),*) => { $(impl<P: CurveEx> Shape for $t<P> {
        fn shape(_: &Self::TO, _: bool) -> Option<Self::TO> { None }
    })* };
}
shape!(id Pair, Msm, MsmG2, Scal);
shape!(no MsmKey, ScalKey);

fn soundness<I: Shape, D: Digest + 'static>(c: &Atk) -> R {
    let d = c.st.dl::<I>();
    let n = d.n();
    let rounds = c.st.k as usize;
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let delta: I::S = c.delta.nz();
    let ver = |keys: (&[I::LK], &[I::RK], &I::TK), com: &(I::LO, I::RO, I::TO), p: &GpProof<I, D>| {
        verdict(|| Gp::<I, D>::verify(keys, (&com.0, &com.1, &com.2), p))
    };
    let keys = (&ka[..], &kb[..], &kt);
    let name = match &c.attack {
        Attack::Proof(t) => t.name(),
        a => format!("{:?}", a).split(['(', ' ']).next().unwrap().to_string(),
    };
    let skip = |why: &str| Ok(pass(false).class(format!("skipped: {}", why)));
    // the adversary has to be a valid prover for the true statement, else its attacks mean nothing
    let adversarial = matches!(c.attack, Attack::WrongCom(_) | Attack::Scaled(_) | Attack::ClaimZero(_) | Attack::Cancel(..) | Attack::Delayed(_) | Attack::DelayedStatement(_));
    if adversarial {
        let p = adv::honest::<I, D>(&d, &d.com).proof::<I, D>();
        if ver(keys, &el3::<I>(&d.com), &p) != V::True {
            return skip("adversary does not follow the protocol");
        }
    }
    let lib = || {
        attempt(|| {
            let (a, b) = (I::lms(&d.a), I::rms(&d.b));
            let e = el3::<I>(&d.com);
            Gp::<I, D>::prove((&a, &b, &I::tm(&d.t())), keys, (&e.0, &e.1, &e.2))
        })
    };
    let mut statement = el3::<I>(&d.com);
    let (mut ka2, mut kb2, mut kt2) = (ka.clone(), kb.clone(), kt.clone());
    let proof: GpProof<I, D>;
    match &c.attack {
        Attack::WrongCom(_) | Attack::Cancel(..) | Attack::ClaimZero(_) => {
            let mut com = d.com;
            match &c.attack {
                Attack::WrongCom(mask) => com = move_mask(&d.com, *mask, &delta),
                Attack::ClaimZero(i) => com[*i as usize] = I::S::zero(),
                Attack::Cancel(i, j, same) => com.iter_mut().zip(two_errors(3, *i, *j, *same, &delta)).for_each(|(x, e)| *x += e),
                _ => unreachable!(),
            }
            if com == d.com { return skip("still true"); }
            statement = el3::<I>(&com);
            proof = adv::honest::<I, D>(&d, &com).proof::<I, D>();
        }
        Attack::Scaled(mask) => {
            let f = factor(&delta);
            let scale = |x: &mut [I::S; 3]| (0..3).filter(|i| mask >> i & 1 == 1).for_each(|i| x[i] *= f);
            let mut com = d.com;
            scale(&mut com);
            if com == d.com { return skip("still true"); }
            statement = el3::<I>(&com);
            proof = adv::prove::<I, D>(&d, &com, &|_, s| s.iter_mut().for_each(&scale), &|_, _, _| {}).proof::<I, D>();
        }
        Attack::OtherCom(mask) => {
            statement = el3::<I>(&move_mask(&d.com, *mask, &delta));
            proof = match lib() { Ok(p) => p, Err(_) => return skip("no honest proof") };
        }
        Attack::Delayed(at) => {
            if rounds == 0 { return skip("no rounds"); }
            let (r, slot) = (at.round(rounds), at.slot());
            let com = add_mask(&d.com, 1 << slot, &delta);
            statement = el3::<I>(&com);
            let p = adv::prove::<I, D>(&d, &com, &|_, _| {}, &|i, ch, s| {
                if i == r {
                    at.repair(s, slot, ch, &-delta);
                }
            });
            proof = p.proof::<I, D>();
        }
        Attack::DelayedStatement(at) => {
            if rounds == 0 { return skip("no rounds"); }
            let (r, slot) = (at.round(rounds), at.slot()); let side = at.side();
            let p = adv::prove::<I, D>(&d, &d.com, &|i, s| {
                if i == r {
                    s[side][slot] += delta;
                }
            }, &|_, _, _| {});
            let mut com = d.com;
            com[slot] -= delta * if side == 0 { p.ch[r] } else { inv(&p.ch[r]) };
            statement = el3::<I>(&com);
            proof = p.proof::<I, D>();
        }
        other => {
            let p = match lib() { Ok(p) => p, Err(_) => return skip("no honest proof") };
            if ver(keys, &statement, &p) != V::True {
                return skip("honest proof rejected");
            }
            let mut p2 = p.clone();
            match other {
                Attack::Proof(t) => match t.apply::<I, D>(p, &delta) {
                    Some(p) => p2 = p,
                    None => return skip("does not apply"),
                },
                Attack::KeyA(i) => {
                    let i = *i as usize % n;
                    ka2[i] = ka2[i].clone() + I::lk(&toward(&d.ka[i], &delta));
                }
                Attack::KeyB(i) => {
                    let i = *i as usize % n;
                    kb2[i] = kb2[i].clone() + I::rk(&toward(&d.kb[i], &delta));
                }
                Attack::KeyT => {
                    if !I::KEYED { return skip("no key for the product"); }
                    kt2 = kt2 + I::tk(&toward(&d.kt, &delta));
                }
                Attack::KeySwap(left, i, j) => {
                    if n < 2 { return skip("one key"); }
                    let i = *i as usize % n;
                    let j = (i + 1 + *j as usize % (n - 1)) % n;
                    if *left { ka2.swap(i, j) } else { kb2.swap(i, j) }
                }
                Attack::OtherStatement(seed) => {
                    let other = St { a: Vs { pat: Pat::Rand(*seed), over: vec![] }, ..c.st.clone() };
                    if other.a == c.st.a { return skip("same statement"); }
                    statement = el3::<I>(&other.dl::<I>().com);
                }
                Attack::ShapeT(at, extra) => {
                    let (mut steps, base) = p.verif_into_parts();
                    let len = steps.len();
                    if len == 0 { return skip("no rounds"); }
                    let s = &mut steps[at.round(len)];
                    let x = if at.side { &mut s.0 } else { &mut s.1 };
                    match I::shape(&x.2, *extra) {
                        Some(y) => x.2 = y,
                        None => return skip("no shape"),
                    }
                    p2 = GpProof::<I, D>::verif_from_parts(steps, base);
                }
                Attack::ShapeCom(extra) => match I::shape(&statement.2, *extra) {
                    Some(y) => statement.2 = y,
                    None => return skip("no shape"),
                },
                _ => unreachable!(),
            }
            proof = p2;
        }
    }
    let v = ver((&ka2, &kb2, &kt2), &statement, &proof);
    ensure!(v != V::True, "accepted: {:?} at length {}", c.attack, n);
    Ok(pass(true).class(name).class(nclass(n)).class(match v { V::False => "rejected", V::Error(_) => "error", _ => "panic" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Surplus {
    st: St,
    /// components that the product claimed has beyond its value
    more: Vec<Sc>,
}

fn surplus_case() -> BoxedStrategy<Surplus> {
    (st(0, 4), prop::collection::vec(sc(), 1..4)).prop_map(|(st, more)| Surplus { st, more }).boxed()
}

/// The product is one value: a prover who follows the protocol for a "product" of several cannot
/// have it accepted, whatever the value of the first.
fn surplus<I: Inst, D: Digest + 'static>(c: &Surplus) -> R {
    let d = c.st.dl::<I>();
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let mut v = vec![d.com[2]];
    v.extend(c.more.iter().map(|x| x.nz::<I::S>()));
    for several in [false, true] {
        let com = (I::lo(&d.com[0]), I::ro(&d.com[1]), I::tos(if several { &v } else { &v[..1] }));
        let p = adv::prove_el::<I, D>(&d, &com, &|_, _| {}, &|_, _, _| {}).proof::<I, D>();
        let r = verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &p));
        if several {
            ensure!(r != V::True, "a product of {} components is accepted", v.len());
        } else {
            ensure!(r == V::True, "harness: the proof of the true product: {:?}", r);
        }
    }
    Ok(pass(c.st.k > 0).class(nclass(d.n())))
}

fn c06() -> Vec<Scenario> {
    vec![
        Scenario::new("surplus-components/pairing", 500, 10_000, surplus_case, surplus::<Pair<Big>, Rec64>),
        Scenario::new("surplus-components/multiexp", 500, 10_000, surplus_case, surplus::<Msm<Big>, Rec64>),
        Scenario::new("surplus-components/scalar", 500, 10_000, surplus_case, surplus::<Scal<Big>, Rec64>),
        Scenario::new("pairing/mock", 2500, 80_000, attack_case(0, 4), soundness::<Pair<Big>, Rec64>),
        Scenario::new("multiexp/mock", 2500, 80_000, attack_case(0, 4), soundness::<Msm<Big>, Rec64>),
        Scenario::new("multiexp-keyed/mock", 2500, 80_000, attack_case(0, 4), soundness::<MsmKey<Big>, Rec64>),
        Scenario::new("multiexp-g2/mock", 1500, 40_000, attack_case(0, 4), soundness::<MsmG2<Big>, Rec64>),
        Scenario::new("scalar/mock", 2500, 80_000, attack_case(0, 4), soundness::<Scal<Big>, Rec64>),
        Scenario::new("scalar-keyed/mock", 2500, 80_000, attack_case(0, 4), soundness::<ScalKey<Big>, Rec64>),
        Scenario::new("degenerate/pairing", 1500, 40_000, degenerate_case(0, 4), soundness::<Pair<Big>, Rec64>),
        Scenario::new("degenerate/multiexp-keyed", 1000, 40_000, degenerate_case(0, 4), soundness::<MsmKey<Big>, Rec64>),
        Scenario::new("degenerate/scalar", 1000, 40_000, degenerate_case(0, 4), soundness::<Scal<Big>, Rec64>),
        Scenario::new("long/pairing", 60, 2000, attack_case(5, 7), soundness::<Pair<Big>, Rec64>),
        Scenario::new("digest-32/multiexp", 300, 5000, attack_case(1, 3), soundness::<Msm<Big>, Rec32>),
        Scenario::new("pairing/bls12-381", 60, 2000, attack_case(0, 2), soundness::<Pair<Bls>, blake2::Blake2b>),
        Scenario::new("multiexp-keyed/bls12-381", 60, 2000, attack_case(0, 2), soundness::<MsmKey<Bls>, blake2::Blake2b>),
        Scenario::new("scalar/bls12-381", 100, 3000, attack_case(0, 3), soundness::<Scal<Bls>, blake2::Blake2b>),
        Scenario::new("longer/pairing", 60, 500, attack_case(8, 9), soundness::<Pair<Big>, Rec64>),
        Scenario::new("longer/scalar-keyed", 300, 500, attack_case(8, 10), soundness::<ScalKey<Big>, Rec64>),
        Scenario::new("multiexp/bw6-761", 24, 400, attack_case(0, 2), soundness::<Msm<Bw6>, blake2::Blake2b>),
    ]
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Bad {
    /// wrong product, commitment of the true one
    Product,
    /// wrong product, and the commitment is that of the wrong product
    ProductAndCom,
    /// wrong commitments (bits: which)
    Com(u8),
    /// one element of the message differs from the committed one; the product is that of the message
    Message(bool, u16),
    /// lengths of left, right, left key, right key changed by one (add or remove)
    Len(u8, bool),
    /// consistent statement of another length
    NotPow2(u16),
    Empty,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    st: St,
    bad: Bad,
    delta: Sc,
}

fn refuse_case(hi: u32) -> impl Fn() -> BoxedStrategy<Refuse> + Send + Sync + 'static {
    move || {
        let bad = prop_oneof![
            3 => Just(Bad::Product),
            2 => Just(Bad::ProductAndCom),
            4 => (1u8..8).prop_map(Bad::Com),
            3 => (any::<bool>(), any::<u16>()).prop_map(|(a, b)| Bad::Message(a, b)),
            5 => (1u8..16, any::<bool>()).prop_map(|(a, b)| Bad::Len(a, b)),
            4 => (3u16..40).prop_map(Bad::NotPow2),
            1 => Just(Bad::Empty),
        ];
        (st(0, hi), bad, delta()).prop_map(|(st, bad, delta)| Refuse { st, bad, delta }).boxed()
    }
}

fn resize<T: Clone>(v: &mut Vec<T>, add: bool, x: T) {
    if add {
        v.push(x)
    } else {
        v.pop();
    }
}

fn refuse<I: Inst, D: Digest + 'static>(c: &Refuse) -> R {
    let delta: I::S = c.delta.nz();
    let mut d = c.st.dl::<I>();
    let mut t = d.t();
    let mut com = d.com;
    match &c.bad {
        Bad::Product => ripp_check::change!(t, delta),
        Bad::ProductAndCom => {
            ripp_check::change!(t, delta);
            com[2] = d.kt * t;
        }
        Bad::Com(mask) => com = move_mask(&com, *mask, &delta),
        Bad::Message(left, i) => {
            let i = *i as usize % d.n();
            if *left { ripp_check::change!(d.a[i], delta) } else { ripp_check::change!(d.b[i], delta) }
            t = d.t();
            com[2] = d.kt * t;
            let now = d.commit();
            if now[0] == com[0] && now[1] == com[1] {
                return Ok(pass(false).class("skipped: the key element is zero"));
            }
        }
        Bad::Len(mask, add) => {
            let mut m = *mask;
            // all changed alike: a consistent statement of length n+-1
            if m == 15 {
                m = 7;
            }
            if m & 1 != 0 { resize(&mut d.a, *add, delta) }
            if m & 2 != 0 { resize(&mut d.b, *add, delta) }
            if m & 4 != 0 { resize(&mut d.ka, *add, delta) }
            if m & 8 != 0 { resize(&mut d.kb, *add, delta) }
            if d.a.len() == d.b.len() {
                t = dot(&d.a, &d.b);
            }
            if d.a.len() == d.ka.len() { com[0] = dot(&d.ka, &d.a) }
            if d.b.len() == d.kb.len() { com[1] = dot(&d.kb, &d.b) }
            com[2] = d.kt * t;
        }
        Bad::NotPow2(n) => {
            let n = *n as usize;
            d = c.st.dl_n::<I>(if n.is_power_of_two() { n + 1 } else { n });
            t = d.t();
            com = d.com;
        }
        Bad::Empty => {
            d = c.st.dl_n::<I>(0);
            t = d.t();
            com = d.com;
        }
    }
    let (a, b) = (I::lms(&d.a), I::rms(&d.b));
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (t, e) = (I::tm(&t), el3::<I>(&com));
    let r = attempt(|| Gp::<I, D>::prove((&a, &b, &t), (&ka, &kb, &kt), (&e.0, &e.1, &e.2)));
    match r {
        Ok(_) => Err(format!("a proof was returned for a false statement ({:?})", c.bad)),
        Err(m) if m.starts_with("error") => Ok(pass(true)
            .class(format!("{:?}", c.bad).split('(').next().unwrap().to_string())
            .class(nclass(d.n()))),
        Err(m) => Err(format!("the prover did not return an error ({:?}): {}", c.bad, m)),
    }
}

/// Verifier: keys of unequal or unsupported length are refused, also with a proof that is valid
/// for a part of them.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keys {
    st: St,
    left: i8,
    right: i8,
    cut: bool,
}

fn keys_case() -> BoxedStrategy<Keys> {
    (st_rand(0, 4), -3i8..6, -3i8..6, any::<bool>())
        .prop_filter("changed", |(_, l, r, _)| *l != 0 || *r != 0)
        .prop_map(|(st, left, right, cut)| Keys { st, left, right, cut })
        .boxed()
}

fn keys_refused<I: Inst, D: Digest + 'static>(c: &Keys) -> R {
    let d = c.st.dl::<I>();
    let (a, b) = (I::lms(&d.a), I::rms(&d.b));
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let com = el3::<I>(&d.com);
    let proof = match attempt(|| Gp::<I, D>::prove((&a, &b, &I::tm(&d.t())), (&ka, &kb, &kt), (&com.0, &com.1, &com.2))) {
        Ok(p) => p,
        Err(_) => return Ok(pass(false)),
    };
    let n = d.n() as i64;
    let (l, r) = ((n + c.left as i64).max(0) as usize, (n + c.right as i64).max(0) as usize);
    if l == r && l.is_power_of_two() {
        return Ok(pass(false).class("valid length"));
    }
    let (mut ka, mut kb) = (ka, kb);
    // continue the keys with new elements (or identities)
    let mut r2 = rng((c.left as i64 + 40) as u64);
    ka.resize_with(l, || if c.cut { I::lk(&I::S::zero()) } else { I::lk(&ark_ff::UniformRand::rand(&mut r2)) });
    kb.resize_with(r, || if c.cut { I::rk(&I::S::zero()) } else { I::rk(&ark_ff::UniformRand::rand(&mut r2)) });
    let v = verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &proof));
    ensure!(matches!(v, V::Error(_)), "verify with {} and {} keys: {:?}", l, r, v);
    Ok(pass(true).class(if l == r { "equal lengths" } else { "unequal lengths" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Other {
    which: u8,
    n: u16,
    /// difference of the other length; 0: all of the same, unsupported length n
    diff: i8,
    a: Vs,
    b: Vs,
    r: Sc,
    seed: u64,
}

fn other_case() -> BoxedStrategy<Other> {
    (0u8..12, 0u16..18, prop_oneof![1 => Just(0i8), 2 => -4i8..5], vs(), vs(), sc(), any::<u64>())
        .prop_map(|(which, n, diff, a, b, r, seed)| Other { which, n, diff, a, b, r, seed })
        .boxed()
}

fn other_provers<P: CurveEx>(c: &Other) -> R {
    type D = Rec64;
    let n = c.n as usize;
    let m = (n as i64 + c.diff as i64).max(0) as usize;
    if n == m && n.is_power_of_two() {
        return Ok(pass(false).class("supported length"));
    }
    let (x, y) = (c.a.f::<P::ScalarField>(n), c.b.f::<P::ScalarField>(m));
    let (g1, g2) = (P::g1s(&x), P::g2s(&y));
    let mut r = rng(c.seed);
    let keys = |len: usize, seed: u64| Vs { pat: Pat::Rand(seed), over: vec![] }.f::<P::ScalarField>(len);
    let size = n.max(m).max(1);
    let hold = ark_dh_commitments::identity::HomomorphicPlaceholderValue;
    let (name, res): (&str, Result<(), String>) = match c.which {
        0 | 1 => {
            let (ka, kb) = (P::g2s(&keys(n, 1)), P::g1s(&keys(m, 2)));
            ("GIPA::prove_with_aux", attempt(|| Gp::<Pair<P>, D>::prove_with_aux((&g1, &g2), (&ka, &kb, &[hold.clone()]))).map(|_| ()))
        }
        2 | 3 => {
            let (srs, _) = attempt(|| Tp::<Pair<P>, P, D>::setup(&mut r, size))?;
            let (mut ka, mut kb) = srs.get_commitment_keys();
            ka.truncate(n);
            kb.truncate(m);
            let s: P::ScalarField = c.r.nz();
            (
                "TIPA::prove",
                attempt(|| {
                    if c.which == 2 {
                        Tp::<Pair<P>, P, D>::prove(&srs, (&g1, &g2), (&ka, &kb, &hold))
                    } else {
                        Tp::<Pair<P>, P, D>::prove_with_srs_shift(&srs, (&g1, &g2), (&ka, &kb, &hold), &s)
                    }
                })
                .map(|_| ()),
            )
        }
        4 => {
            let (srs, _) = attempt(|| Ts::<Msm<P>, P, D>::setup(&mut r, size))?;
            let (mut ka, _) = srs.get_commitment_keys();
            ka.truncate(n);
            ("TIPAWithSSM", attempt(|| Ts::<Msm<P>, P, D>::prove_with_structured_scalar_message(&srs, (&g1, &y), (&ka, &hold))).map(|_| ()))
        }
        5 => {
            let ka = P::g2s(&keys(n, 1));
            ("GIPAWithSSM", attempt(|| Gs::<Msm<P>, D>::prove_with_structured_scalar_message((&g1, &y), (&ka, &hold))).map(|_| ()))
        }
        6 => {
            // left message and key of unequal lengths
            let ka = P::g2s(&keys(m, 1));
            let pw = powers(n, c.r.f::<P::ScalarField>());
            ("GIPAWithSSM (key)", attempt(|| Gs::<Msm<P>, D>::prove_with_structured_scalar_message((&g1, &pw), (&ka, &hold))).map(|_| ()))
        }
        7 | 8 => {
            let (a, b) = (P::g1a(&x), P::g2a(&y));
            let co = keys(if c.which == 7 { n } else { m }, 3);
            let v = P::gt(&x.iter().zip(&y).zip(&co).map(|((x, y), r)| *x * y * r).sum());
            ("SIPP", attempt(|| SIPP::<P, Rec32>::prove(&a, &b, &co, v).map_err(|_| "err")).map(|_| ()))
        }
        9 => {
            // a, b equal; other number of coefficients
            let n2 = n.max(2).next_power_of_two();
            let m2 = (n2 as i64 + c.diff as i64).max(0) as usize;
            if n2 == m2 {
                return Ok(pass(false).class("supported length"));
            }
            let (a, b) = (P::g1a(&keys(n2, 1)), P::g2a(&keys(n2, 2)));
            let co = keys(m2, 3);
            let v = P::gt(&c.r.f());
            ("SIPP (coefficients)", attempt(|| SIPP::<P, Rec32>::prove(&a, &b, &co, v).map_err(|_| "err")).map(|_| ()))
        }
        10 => {
            // n proofs, setup for m
            if m == 0 || n == m && n.is_power_of_two() {
                return Ok(pass(false).class("supported length"));
            }
            let srs = attempt(|| setup_inner_product::<P, D, _>(&mut r, m))?;
            let z = P::g2a(&keys(n, 3));
            let cs = P::g1a(&keys(n, 4));
            let proofs: Vec<_> = P::g1a(&x)
                .into_iter()
                .zip(z)
                .zip(cs)
                .map(|((a, b), c)| ark_groth16::Proof::<P> { a, b, c })
                .collect();
            ("aggregate_proofs", attempt(|| aggregate_proofs::<P, D>(&srs, &proofs)).map(|_| ()))
        }
        _ => {
            // opening with another number of row commitments than the key has
            let rows = n.max(1).next_power_of_two();
            let m = (rows as i64 + c.diff as i64).max(0) as usize;
            if m == rows {
                return Ok(pass(false).class("supported length"));
            }
            let coms = P::g1s(&keys(m, 5));
            let polys: Vec<_> = (0..rows)
                .map(|i| DensePolynomial::from_coefficients_vec(keys(2, 6 + i as u64)))
                .collect();
            let point = (c.r.f::<P::ScalarField>(), P::ScalarField::from(5u64));
            if c.seed % 2 == 0 {
                let srs = attempt(|| poly_commit::BivariatePolynomialCommitment::<P, D>::setup(&mut r, rows - 1, 1))?;
                let f = poly_commit::BivariatePolynomial::verif_new(polys);
                ("bivariate open", attempt(|| poly_commit::BivariatePolynomialCommitment::<P, D>::open(&srs, &f, &coms, &point)).map(|_| ()))
            } else {
                let ck = attempt(|| transparent::BivariatePolynomialCommitment::<P, D>::setup(&mut r, rows - 1, 1))?;
                let f = transparent::BivariatePolynomial::verif_new(polys);
                ("transparent bivariate open", attempt(|| transparent::BivariatePolynomialCommitment::<P, D>::open(&ck, &f, &coms, &point)).map(|_| ()))
            }
        }
    };
    ensure!(res.is_err(), "{} returned a proof for lengths {} and {}", name, n, m);
    Ok(pass(true).class(name).class(if n == m { "unsupported" } else { "unequal" }))
}

fn c07() -> Vec<Scenario> {
    vec![
        Scenario::new("pairing/mock", 2500, 60_000, refuse_case(5), refuse::<Pair<Big>, Rec64>),
        Scenario::new("multiexp/mock", 2500, 60_000, refuse_case(5), refuse::<Msm<Big>, Rec64>),
        Scenario::new("multiexp-keyed/mock", 2500, 60_000, refuse_case(5), refuse::<MsmKey<Big>, Rec64>),
        Scenario::new("scalar/mock", 2500, 60_000, refuse_case(6), refuse::<Scal<Big>, Rec64>),
        Scenario::new("scalar-keyed/mock", 2500, 60_000, refuse_case(6), refuse::<ScalKey<Big>, Rec64>),
        Scenario::new("verifier-keys/pairing", 1200, 20_000, keys_case, keys_refused::<Pair<Big>, Rec64>),
        Scenario::new("verifier-keys/multiexp-keyed", 1200, 20_000, keys_case, keys_refused::<MsmKey<Big>, Rec64>),
        Scenario::new("verifier-keys/scalar", 1200, 20_000, keys_case, keys_refused::<Scal<Big>, Rec64>),
        Scenario::new("other-provers/mock", 5000, 100_000, other_case, other_provers::<Big>),
        Scenario::new("pairing/bls12-381", 60, 1500, refuse_case(2), refuse::<Pair<Bls>, blake2::Blake2b>),
        Scenario::new("scalar-keyed/bls12-381", 100, 1500, refuse_case(3), refuse::<ScalKey<Bls>, blake2::Blake2b>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C05",
            rule: "A case is a length 2^k (k from 0), two message vectors and two keys given by patterns (random, constant, alternating, powers, repeated or opposite halves, special entries 0, 1, -1), a key for the product and a number of threads. Statements are computed from discrete logarithms. Non-trivial: at least two elements and a non-zero product. The 251-element groups and the zero digests make unusable challenges frequent.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c05,
        },
        Property {
            id: "C06",
            rule: "A case is a random statement and one attack: protocol-following provers on discrete logarithms for wrong commitments, that repair a round message or the statement after the challenge, and alterations of every part of an honest proof, key or statement. Non-trivial: the attack applied, changed something, and (for own provers) the same prover is accepted on the true statement.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c06,
        },
        Property {
            id: "C07",
            rule: "A case is a statement with one defect (product, any commitments, message, lengths, unsupported length) given to the GIPA prover, which must return an error; keys of wrong lengths given to the verifier; or vectors of wrong length given to the other provers. Non-trivial: the statement is really false or the lengths really unsupported.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c07,
        },
    ])
}
