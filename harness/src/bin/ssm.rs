//! C10 (structured-scalar completeness), C11 (structured-scalar soundness).
use ark_dh_commitments::{identity::HomomorphicPlaceholderValue, DoublyHomomorphicCommitment};
use ark_ff::{Field, One, PrimeField, Zero};
use ark_inner_products::InnerProduct;
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, proof_of, Prog};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::roots::root;
use ripp_check::srs::*;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};


// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    k: u32,
    a: Vs,
    b: Sc,
    ka: Vs,
    kt: Sc,
    /// secrets of the setup; None: the library's
    srs: Option<(Sc, Sc)>,
    seed: u64,
    threads: usize,
}

fn complete_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        let key = prop_oneof![4 => vs_rand(), 1 => vs()];
        (logn(lo, hi), vs(), sc(), key, sc(), prop::option::of((sc(), sc())), any::<u64>(), threads())
            .prop_map(|(k, a, b, ka, kt, srs, seed, threads)| Complete { k, a, b, ka, kt, srs, seed, threads })
            .boxed()
    }
}

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn info<F: PrimeField>(c: &Complete, b: &F, t: &F) -> Info {
    pass(c.k >= 1 && !t.is_zero())
        .class(nclass(1 << c.k))
        .class(if b.is_zero() { "b=0" } else if b.is_one() { "b=1" } else { "other b" })
        .class(format!("left {}", c.a.class()))
}

/// Version with a full commitment key
fn complete_gipa<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Complete) -> R {
    let n = 1usize << c.k;
    let b: I::S = c.b.f();
    let d = Dl::new::<I>(c.a.f(n), powers(n, b), c.ka.f(n), vec![I::S::zero(); n], c.kt.nz());
    let (ma, mb, ka, kt) = (I::lms(&d.a), structured_scalar_power(n, &b), I::lks(&d.ka), I::tk(&d.kt));
    ensure!(mb == d.b, "structured_scalar_power({}) is not the vector of the powers", n);
    let (ca, ct) = (I::lo(&d.com[0]), I::to(&d.com[2]));
    let v = run(c.threads, || {
        let p = attempt(|| Gs::<I, D>::prove_with_structured_scalar_message((&ma, &mb), (&ka, &kt)))?;
        Ok::<_, String>(verdict(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), &b, &p)))
    })?;
    ensure!(v == V::True, "honest proof of length {}: {:?}", n, v);
    Ok(info(c, &b, &d.t()))
}

/// Version with a setup
fn complete_tipa<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    let n = 1usize << c.k;
    let b: I::S = c.b.f();
    let a = c.a.f::<I::S>(n);
    let (srs, ck_t) = match &c.srs {
        None => attempt(|| Ts::<I, P, D>::setup(&mut rng(c.seed), n))?,
        Some((x, y)) => (SrsDl { n, alpha: x.nz(), beta: y.nz() }.srs::<P>(), I::tk(&c.kt.nz())),
    };
    let (ka, _) = srs.get_commitment_keys();
    let vk = srs.get_verifier_key();
    ensure!(ka.len() == n, "setup for {} has {} keys", n, ka.len());
    let (ma, mb) = (I::lms(&a), structured_scalar_power(n, &b));
    ensure!(mb == powers(n, b), "structured_scalar_power({}) is not the vector of the powers", n);
    let t = dot(&a, &mb);
    let com_a = attempt(|| I::L::commit(&ka, &ma))?;
    let tm = attempt(|| I::IP::inner_product(&ma, &mb))?;
    ensure!(tm == I::tm(&t), "inner product is wrong");
    let com_t = attempt(|| I::C::commit(&[ck_t.clone()], &[tm]))?;
    let v = run(c.threads, || {
        let p = attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&srs, (&ma, &mb), (&ka, &ck_t)))?;
        Ok::<_, String>(verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &ck_t, (&com_a, &com_t), &b, &p)))
    })?;
    ensure!(v == V::True, "honest proof of length {}: {:?}", n, v);
    Ok(info(c, &b, &t))
}

fn c10() -> Vec<Scenario> {
    use blake2::{Blake2b, Blake2s};
    vec![
        Scenario::new("key/multiexp", 1500, 40_000, complete_case(0, 6), complete_gipa::<Msm<Big>, Rec64>),
        Scenario::new("key/multiexp-keyed", 1200, 40_000, complete_case(0, 6), complete_gipa::<MsmKey<Big>, Rec64>),
        Scenario::new("key/multiexp-g2", 800, 20_000, complete_case(0, 6), complete_gipa::<MsmG2<Big>, Rec64>),
        Scenario::new("key/scalar", 1800, 40_000, complete_case(0, 7), complete_gipa::<Scal<Big>, Rec64>),
        Scenario::new("key/scalar-keyed", 1500, 40_000, complete_case(0, 7), complete_gipa::<ScalKey<Big>, Rec64>),
        Scenario::new("key/long", 32, 400, complete_case(8, 11), complete_gipa::<Scal<Big>, Rec64>),
        Scenario::new("srs/multiexp", 1500, 40_000, complete_case(0, 6), complete_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("srs/multiexp-keyed", 1200, 40_000, complete_case(0, 6), complete_tipa::<MsmKey<Big>, Big, Rec64>),
        Scenario::new("srs/scalar", 1800, 40_000, complete_case(0, 7), complete_tipa::<Scal<Big>, Big, Rec64>),
        Scenario::new("srs/scalar-keyed", 1500, 40_000, complete_case(0, 7), complete_tipa::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("srs/long", 32, 400, complete_case(7, 10), complete_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("rare-challenges/key", 1500, 40_000, complete_case(0, 4), complete_gipa::<Scal<Small>, Rec64>),
        Scenario::new("rare-challenges/srs", 1500, 40_000, complete_case(0, 4), complete_tipa::<Msm<Small>, Small, Rec64>),
        Scenario::new("zero-digests/key", 500, 10_000, complete_case(0, 4), complete_gipa::<Scal<Big>, Zeros64>),
        Scenario::new("unusable-digests/srs", 500, 10_000, complete_case(0, 4), complete_tipa::<Msm<Big>, Big, Mixed64>),
        Scenario::new("digest-32/srs", 300, 5000, complete_case(0, 4), complete_tipa::<Scal<Big>, Big, Rec32>),
        Scenario::new("key/scalar/bls12-381", 60, 1000, complete_case(0, 3), complete_gipa::<ScalKey<Bls>, Blake2b>),
        Scenario::new("key/multiexp/bls12-381", 40, 1000, complete_case(0, 3), complete_gipa::<Msm<Bls>, Blake2b>),
        Scenario::new("srs/multiexp/bls12-381", 40, 1000, complete_case(0, 3), complete_tipa::<Msm<Bls>, Bls, Blake2b>),
        Scenario::new("srs/scalar/bls12-377", 16, 400, complete_case(0, 2), complete_tipa::<ScalKey<Bls377>, Bls377, Blake2s>),
        Scenario::new("srs/multiexp/bw6-761", 16, 400, complete_case(0, 2), complete_tipa::<Msm<Bw6>, Bw6, Blake2b>),
    ]
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Right {
    /// one entry changed
    Entry(u16),
    /// powers of another scalar
    OtherB,
    /// all entries times a factor
    Scaled,
    Swapped(u16, u16),
    Random(u64),
    Reversed,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// follows the protocol with false commitments (1: left, 2: product, 3: both)
    WrongCom(u8),
    /// statement and messages of one commitment multiplied by a factor, often -1
    Scaled(u8),
    OtherCom(u8),
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    /// one commitment claimed to be that of zeros
    ClaimZero(bool),
    /// a proof for b under b'
    OtherB,
    /// follows the protocol for b', with the powers of b
    ProverOtherB(bool),
    /// follows the protocol for b, with a right vector that is not its powers
    Unstructured(Right),
    /// false product, with the final right message that fits it
    ForgedBase,
    Delayed(At),
    DelayedStatement(At),
    /// b chosen after the rounds: the product is that of another right vector
    DelayedB(u64),
    /// b and the product chosen after the rounds
    DelayedBT,
    /// keys outside the SRS, opened as what they are (exchanged, one changed, random)
    KeySwap(u16, u16),
    KeyAdd(u16, u16),
    KeyRandom(u64),
    /// verification with another key (version with full key), or another SRS
    OtherKey(u16),
    Point,
    Poly,
    DelayedKey,
    Proof(Tamper),
    FinalCk,
    FinalCkZero,
    Opening,
    OpeningZero,
    Vk(u8),
    KeyT,
    Mix(u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    k: u32,
    a: Vs,
    b: Sc,
    ka: Vs,
    kt: Sc,
    beta: Sc,
    attack: Attack,
    delta: Sc,
}

fn attack_case(lo: u32, hi: u32, srs: bool) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let uu = || (any::<u16>(), any::<u16>());
        let right = prop_oneof![
            3 => any::<u16>().prop_map(Right::Entry),
            1 => Just(Right::OtherB),
            1 => Just(Right::Scaled),
            1 => uu().prop_map(|(i, j)| Right::Swapped(i, j)),
            2 => any::<u64>().prop_map(Right::Random),
            1 => Just(Right::Reversed),
        ];
        let both = prop_oneof![
            3 => (1u8..4).prop_map(Attack::WrongCom),
            2 => (1u8..4).prop_map(Attack::Scaled),
            1 => (1u8..4).prop_map(Attack::OtherCom),
            1 => any::<bool>().prop_map(Attack::ClaimZero),
            3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => Just(Attack::OtherB),
            1 => any::<bool>().prop_map(Attack::ProverOtherB),
            4 => right.prop_map(Attack::Unstructured),
            1 => Just(Attack::ForgedBase),
            4 => at().prop_map(Attack::Delayed),
            4 => at().prop_map(Attack::DelayedStatement),
            3 => any::<u64>().prop_map(Attack::DelayedB),
            2 => Just(Attack::DelayedBT),
            8 => tamper().prop_map(Attack::Proof),
            1 => Just(Attack::KeyT),
            2 => any::<u16>().prop_map(Attack::OtherKey),
        ];
        let attack = if srs {
            prop_oneof![
                3 => both,
                2 => prop_oneof![
                    2 => uu().prop_map(|(i, j)| Attack::KeySwap(i, j)),
                    2 => uu().prop_map(|(i, j)| Attack::KeyAdd(i, j)),
                    2 => any::<u64>().prop_map(Attack::KeyRandom),
                    2 => Just(Attack::Point),
                    2 => Just(Attack::Poly),
                    2 => Just(Attack::DelayedKey),
                    2 => Just(Attack::FinalCk),
                    1 => Just(Attack::FinalCkZero),
                    2 => Just(Attack::Opening),
                    1 => Just(Attack::OpeningZero),
                    2 => (0u8..3).prop_map(Attack::Vk),
                    2 => (0u8..4, any::<u64>()).prop_map(|(a, b)| Attack::Mix(a, b)),
                ],
            ]
            .boxed()
        } else {
            both.boxed()
        };
        let b = prop_oneof![6 => sc_rand(), 1 => Just(Sc::Zero), 1 => Just(Sc::One), 1 => Just(Sc::NegOne)];
        (logn(lo, hi), vs_rand(), b, vs_rand(), sc_rand(), sc_rand(), attack, delta())
            .prop_map(|(k, a, b, ka, kt, beta, attack, delta)| Atk { k, a, b, ka, kt, beta, attack, delta })
            .boxed()
    }
}

/// Degenerate statements (zeros, patterns), false claims about them
fn degenerate_case(lo: u32, hi: u32, srs: bool) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    let f = attack_case(lo, hi, srs);
    move || {
        let attack = prop_oneof![
            2 => (1u8..4).prop_map(Attack::WrongCom),
            1 => (1u8..4).prop_map(Attack::OtherCom),
            2 => any::<bool>().prop_map(Attack::ClaimZero),
            1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => at().prop_map(Attack::Delayed),
            1 => at().prop_map(Attack::DelayedStatement),
        ];
        (f(), vs(), vs(), attack)
            .prop_map(|(c, a, b, attack)| Atk { a, b: if let Pat::Const(x) = b.pat { x } else { c.b }, attack, ..c })
            .boxed()
    }
}

/// What a protocol-following prover presents: left and product commitment, scalar, proof
struct Claim<S> {
    com: [S; 3],
    b: S,
    prog: Prog<S>,
}

fn b_base<S: Field>(b: &S, ch: &[S]) -> S {
    // rounds from the longest vector on
    let mut p = *b;
    let mut r = S::one();
    for c in ch.iter().rev() {
        r *= S::one() + p * inv(c);
        p.square_in_place();
    }
    r
}

/// Statement that the challenges are derived for: scalar in the place of the right commitment, or not
fn hashed<S: PrimeField>(com: &[S; 3], b: &S, with_b: bool) -> [S; 3] {
    [com[0], if with_b { *b } else { S::zero() }, com[2]]
}

/// The attacks on the inner product argument itself; Err: does not apply.
fn rounds_attack<I: Inst>(c: &Atk, d: &Dl<I::S>, b: &I::S, with_b: bool, delta: &I::S, dg: impl ProveWith<I>) -> Result<Claim<I::S>, &'static str> {
    let n = d.n();
    let rounds = c.k as usize;
    let delta = *delta;
    let honest = |d: &Dl<I::S>, com: [I::S; 3], b: I::S| Claim { com, b, prog: dg.prove(d, &hashed(&com, &b, with_b), &|_, _| {}, &|_, _, _| {}) };
    let mask = |m: u8| (m & 1) | (m & 2) << 1;
    let slot = |at: &At| if at.slot() == 1 { 2 } else { at.slot() };
    Ok(match &c.attack {
        Attack::WrongCom(m) => honest(d, move_mask(&d.com, mask(*m), &delta), *b),
        Attack::Scaled(m) => {
            let (f, m) = (factor(&delta), mask(*m));
            let scale = |x: &mut [I::S; 3]| [0, 2].into_iter().filter(|i| m >> i & 1 == 1).for_each(|i| x[i] *= f);
            let mut com = d.com;
            scale(&mut com);
            if com == d.com { return Err("still true"); }
            Claim { com, b: *b, prog: dg.prove(d, &hashed(&com, b, with_b), &|_, s| s.iter_mut().for_each(&scale), &|_, _, _| {}) }
        }
        Attack::ClaimZero(t) => {
            let mut com = d.com;
            com[if *t { 2 } else { 0 }] = I::S::zero();
            if com == d.com { return Err("still true"); }
            honest(d, com, *b)
        }
        Attack::Cancel(i, j, same) => {
            let mut com = d.com;
            // the third equation is that of the opening, see soundness_tipa
            let e = two_errors(3, *i, *j, *same, &delta);
            com[0] += e[0];
            com[2] += e[1];
            honest(d, com, *b)
        }
        Attack::OtherCom(m) => {
            let mut cl = honest(d, d.com, *b);
            cl.com = move_mask(&d.com, mask(*m), &delta);
            cl
        }
        Attack::OtherB => {
            if n < 2 { return Err("no structure"); }
            let mut cl = honest(d, d.com, *b);
            ripp_check::change!(cl.b, delta);
            cl
        }
        Attack::ProverOtherB(fit) => {
            if n < 2 { return Err("no structure"); }
            let b2 = *b + toward(b, &delta);
            let d2 = if *fit { Dl { b: powers(n, b2), ..d.clone() } } else { d.clone() };
            // the product of the powers of b under the scalar b'; `fit`: rounds with the powers of b'
            honest(&d2, d.com, b2)
        }
        Attack::Unstructured(r) => {
            let mut v = d.b.clone();
            match r {
                Right::Entry(i) => ripp_check::change!(v[*i as usize % n], delta),
                Right::OtherB => v = powers(n, *b + toward(b, &delta)),
                Right::Scaled => v.iter_mut().for_each(|x| *x *= delta + I::S::from(7u64)),
                Right::Swapped(i, j) => v.swap(*i as usize % n, *j as usize % n),
                Right::Random(s) => v = Vs { pat: Pat::Rand(*s), over: vec![] }.f(n),
                Right::Reversed => v.reverse(),
            }
            if v == d.b { return Err("is the structured vector"); }
            let mut d2 = Dl { b: v, ..d.clone() };
            d2.com = d2.commit();
            if d2.com == d.com { return Err("same product"); }
            honest(&d2, d2.com, *b)
        }
        Attack::ForgedBase => {
            let com = add_mask(&d.com, 4, &delta);
            let mut cl = honest(d, com, *b);
            if cl.prog.base.0.is_zero() { return Err("zero"); }
            cl.prog.base.1 += delta * inv(&(d.kt * cl.prog.base.0));
            cl
        }
        Attack::Delayed(at) => {
            if rounds == 0 { return Err("no rounds"); }
            let (ro, slot) = (at.round(rounds), slot(at));
            let com = add_mask(&d.com, 1 << slot, &delta);
            let prog = dg.prove(d, &hashed(&com, b, with_b), &|_, _| {}, &|i, ch, st| {
                if i == ro {
                    at.repair(st, slot, ch, &-delta);
                }
            });
            Claim { com, b: *b, prog }
        }
        Attack::DelayedStatement(at) => {
            if rounds == 0 { return Err("no rounds"); }
            let (ro, slot) = (at.round(rounds), slot(at)); let side = at.side();
            let prog = dg.prove(d, &hashed(&d.com, b, with_b), &|i, st| {
                if i == ro {
                    st[side][slot] += delta;
                }
            }, &|_, _, _| {});
            let mut com = d.com;
            com[slot] -= delta * if side == 0 { prog.ch[ro] } else { inv(&prog.ch[ro]) };
            Claim { com, b: *b, prog }
        }
        Attack::DelayedB(seed) => {
            if rounds == 0 { return Err("no rounds"); }
            // any right vector v; afterwards b' such that the powers of b' fold to the same value
            let v: Vec<I::S> = Vs { pat: Pat::Rand(*seed), over: vec![] }.f(n);
            let mut d2 = Dl { b: v, ..d.clone() };
            d2.com = d2.commit();
            let mut cl = honest(&d2, d2.com, *b);
            let mut p = vec![I::S::one()];
            for (i, c) in cl.prog.ch.iter().rev().enumerate() {
                // times 1 + y^(2^i) / c
                let mut q = p.clone();
                q.resize(p.len() + (1 << i), I::S::zero());
                for (j, x) in p.iter().enumerate() {
                    q[j + (1 << i)] += *x * inv(c);
                }
                p = q;
            }
            p[0] -= cl.prog.base.1;
            if p.len() > 16 { return Err("too long to solve"); }
            let Some(y) = root(&p, *seed) else { return Err("no such scalar") };
            if b_base(&y, &cl.prog.ch) != cl.prog.base.1 { return Err("internal"); }
            cl.b = y;
            if dot(&d.a, &powers(n, y)) * d.kt == cl.com[2] { return Err("still true"); }
            cl
        }
        Attack::DelayedBT => {
            if rounds == 0 { return Err("no rounds"); }
            let mut cl = honest(d, d.com, *b);
            ripp_check::change!(cl.b, delta);
            let nb = b_base(&cl.b, &cl.prog.ch);
            cl.com[2] += d.kt * cl.prog.base.0 * (nb - cl.prog.base.1);
            cl.prog.base.1 = nb;
            if dot(&d.a, &powers(n, cl.b)) * d.kt == cl.com[2] { return Err("still true"); }
            cl
        }
        _ => honest(d, d.com, *b),
    })
}

trait ProveWith<I: Inst> {
    #[allow(clippy::type_complexity)]
    fn prove(
        &self,
        d: &Dl<I::S>,
        com: &[I::S; 3],
        pre: &dyn Fn(usize, &mut adv::Step<I::S>),
        post: &dyn Fn(usize, &I::S, &mut adv::Step<I::S>),
    ) -> Prog<I::S>;
}
struct With<D>(std::marker::PhantomData<D>);
impl<I: Inst, D: Digest> ProveWith<I> for With<D> {
    fn prove(
        &self,
        d: &Dl<I::S>,
        com: &[I::S; 3],
        pre: &dyn Fn(usize, &mut adv::Step<I::S>),
        post: &dyn Fn(usize, &I::S, &mut adv::Step<I::S>),
    ) -> Prog<I::S> {
        adv::prove::<I, D>(d, com, pre, post)
    }
}

fn name(a: &Attack) -> String {
    match a {
        Attack::Proof(t) => format!("Proof.{}", t.name()),
        Attack::Unstructured(t) => format!("Unstructured.{:?}", t).split(['(', ' ']).next().unwrap().to_string(),
        a => format!("{:?}", a).split(['(', ' ']).next().unwrap().to_string(),
    }
}

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

fn done(c: &Atk, v: V) -> R {
    let n = 1usize << c.k;
    ensure!(v != V::True, "accepted: {:?} at length {}", c.attack, n);
    Ok(pass(true).class(name(&c.attack)).class(nclass(n)).class(match v {
        V::False => "rejected",
        V::Error(_) => "error",
        _ => "panic",
    }))
}

fn soundness_gipa<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Atk) -> R {
    let n = 1usize << c.k;
    let b: I::S = c.b.f();
    let delta: I::S = c.delta.nz();
    let d = Dl::new::<Ssm<I>>(c.a.f(n), powers(n, b), c.ka.f(n), vec![I::S::zero(); n], c.kt.nz());
    let _ = HomomorphicPlaceholderValue;
    let ver = |ka: &[I::S], kt: &I::S, com: &[I::S; 3], b: &I::S, p: &GpProof<Ssm<I>, D>| {
        let (ka, kt, ca, ct) = (I::lks(ka), I::tk(kt), I::lo(&com[0]), I::to(&com[2]));
        verdict(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&ca, &ct), b, p))
    };
    let dg = With::<D>(std::marker::PhantomData);
    let mut found = None;
    for with_b in [true, false] {
        let p = adv::honest::<Ssm<I>, D>(&d, &hashed(&d.com, &b, with_b));
        let proof = p.proof::<Ssm<I>, D>();
        if ver(&d.ka, &d.kt, &d.com, &b, &proof) == V::True {
            found = Some((with_b, proof));
            break;
        }
    }
    let Some((with_b, hproof)) = found else { return skip("adversary does not follow the protocol") };
    let (mut ka, mut kt) = (d.ka.clone(), d.kt);
    match &c.attack {
        Attack::Proof(t) => {
            let Some(p) = t.apply::<Ssm<I>, D>(hproof, &delta) else { return skip("does not apply") };
            return done(c, ver(&ka, &kt, &d.com, &b, &p));
        }
        Attack::OtherKey(i) => ripp_check::change!(ka[*i as usize % n], delta),
        Attack::KeyT => {
            if !I::KEYED { return skip("no key for the product"); }
            ripp_check::change!(kt, delta);
        }
        _ => {}
    }
    if ka != d.ka || kt != d.kt {
        return done(c, ver(&ka, &kt, &d.com, &b, &hproof));
    }
    match rounds_attack::<Ssm<I>>(c, &d, &b, with_b, &delta, dg) {
        Err(w) => skip(w),
        Ok(cl) => done(c, ver(&d.ka, &d.kt, &cl.com, &cl.b, &proof_of::<Ssm<I>, D>(&cl.prog.steps, &cl.prog.base))),
    }
}

fn soundness_tipa<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Atk) -> R {
    let n = 1usize << c.k;
    let rounds = c.k as usize;
    let b: I::S = c.b.f();
    let delta: I::S = c.delta.nz();
    let s = SrsDl { n, alpha: I::S::from(5u64), beta: c.beta.nz() };
    let one = I::S::one();
    let d = Dl::new::<Ssm<I>>(c.a.f(n), powers(n, b), s.ka(&one), vec![I::S::zero(); n], c.kt.nz());
    let ver = |vk: &_, kt: &I::S, com: &[I::S; 3], b: &I::S, p: &TsProof<I, P, D>| {
        let (kt, ca, ct) = (I::tk(kt), I::lo(&com[0]), I::to(&com[2]));
        verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(vk, &kt, (&ca, &ct), b, p))
    };
    let mut vk = s.vk::<P>();
    let ga = |z: &I::S| key_polys(n, z, &one);
    let finish = |p: &Prog<I::S>, com: &[I::S; 3], b: &I::S, g: &dyn Fn(&I::S) -> Vec<I::S>| finish_ssm::<I, P, D>(&s, p, com, b, &d.kt, g);
    let mut found = None;
    for with_b in [true, false] {
        let p = adv::honest::<Ssm<I>, D>(&d, &hashed(&d.com, &b, with_b));
        let Some(f) = finish(&p, &d.com, &b, &ga) else { continue };
        let proof = ssm_proof_of::<I, P, D>(&p, &f);
        if ver(&vk, &d.kt, &d.com, &b, &proof) == V::True {
            found = Some((with_b, p, f, proof));
            break;
        }
    }
    let Some((with_b, honest, hfin, hproof)) = found else { return skip("adversary does not follow the protocol") };
    let open = |p: &Prog<I::S>, f: &Fin<I::S>| -> Option<I::S> {
        let va = fold(&ga(&f.z), &invs(&p.ch));
        Some((f.ck.0 - va) * (s.beta - f.z).inverse()?)
    };
    let mut kt = d.kt;
    let mut fin = hfin.clone();
    let with_key = |d2: &Dl<I::S>| adv::honest::<Ssm<I>, D>(d2, &hashed(&d2.com, &b, with_b));
    match &c.attack {
        Attack::Proof(t) => {
            if matches!(t, Tamper::BaseB | Tamper::BaseNeg(false, _)) { return skip("not part of the statement"); }
            let (g, ck, pi) = hproof.verif_into_parts();
            let Some(g) = t.apply::<Ssm<I>, D>(g, &delta) else { return skip("does not apply") };
            let p = TsProof::<I, P, D>::verif_from_parts(g, ck, pi);
            done(c, ver(&vk, &kt, &d.com, &b, &p))
        }
        Attack::KeySwap(..) | Attack::KeyAdd(..) => {
            if n < 2 { return skip("one key"); }
            let g = |z: &I::S| -> Vec<I::S> {
                let mut v = key_polys(n, z, &one);
                match &c.attack {
                    Attack::KeySwap(i, j) => {
                        let i = *i as usize % n;
                        v.swap(i, (i + 1 + *j as usize % (n - 1)) % n);
                    }
                    Attack::KeyAdd(i, j) => v[*i as usize % n] += powers(2 * n - 1, *z)[(2 * (*j as usize % (n - 1)) + 1) % (2 * n - 1)] * delta,
                    _ => unreachable!(),
                }
                v
            };
            let mut d2 = d.clone();
            d2.ka = g(&s.beta);
            d2.com = d2.commit();
            let p = with_key(&d2);
            let Some(f) = finish(&p, &d2.com, &b, &g) else { return skip("no opening point") };
            done(c, ver(&vk, &kt, &d2.com, &b, &ssm_proof_of::<I, P, D>(&p, &f)))
        }
        Attack::KeyRandom(seed) => {
            let mut d2 = d.clone();
            d2.ka = Vs { pat: Pat::Rand(*seed), over: vec![] }.f(n);
            d2.com = d2.commit();
            let p = with_key(&d2);
            let Some(mut f) = finish(&p, &d2.com, &b, &ga) else { return skip("no opening point") };
            let right = Fin { ck: (fold(&s.ka(&one), &invs(&p.ch)), f.ck.1), ..f.clone() };
            f.pi.0 = open(&p, &right).unwrap();
            done(c, ver(&vk, &kt, &d2.com, &b, &ssm_proof_of::<I, P, D>(&p, &f)))
        }
        Attack::Point => {
            ripp_check::change!(fin.z, delta);
            let Some(pi) = open(&honest, &fin) else { return skip("no opening point") };
            if pi == hfin.pi.0 { return skip("constant polynomial"); }
            fin.pi.0 = pi;
            done(c, ver(&vk, &kt, &d.com, &b, &ssm_proof_of::<I, P, D>(&honest, &fin)))
        }
        Attack::Poly => {
            if rounds == 0 { return skip("no rounds"); }
            let mut other = honest.clone();
            ripp_check::change!(other.ch[0], delta);
            if other.ch[0].is_zero() { return skip("challenge zero"); }
            let f2 = Fin { ck: (fold(&s.ka(&one), &invs(&other.ch)), hfin.ck.1), ..hfin.clone() };
            fin.pi.0 = open(&other, &f2).unwrap();
            done(c, ver(&vk, &kt, &d.com, &b, &ssm_proof_of::<I, P, D>(&honest, &fin)))
        }
        Attack::DelayedKey => {
            // another product: left message and final key scaled after the opening point is known
            let l = if delta.is_one() { I::S::from(2u64) } else { delta };
            let mut p = honest.clone();
            p.base.0 *= l;
            fin.ck.0 *= inv(&l);
            let Some(pi) = open(&p, &fin) else { return skip("no opening point") };
            fin.pi.0 = pi;
            let mut com = d.com;
            com[2] += d.kt * (l - one) * honest.base.0 * honest.base.1;
            if com == d.com { return skip("same product"); }
            // as the statement is hashed in the rounds, also the true one under the altered key
            let p1 = ssm_proof_of::<I, P, D>(&p, &fin);
            let v = ver(&vk, &kt, &com, &b, &p1);
            if v == V::True {
                return done(c, v);
            }
            if rounds > 0 {
                // false product, repaired by the last message of the product alone
                let q = adv::prove::<Ssm<I>, D>(&d, &hashed(&d.com, &b, with_b), &|i, st| {
                    if i + 1 == rounds { st[0][2] += delta }
                }, &|_, _, _| {});
                let t = q.base.0 * q.base.1 * d.kt + delta * q.ch[rounds - 1];
                let l = t * inv(&(q.base.0 * q.base.1 * d.kt));
                if l.is_zero() { return skip("zero"); }
                let mut q = q;
                q.base.0 *= l;
                let Some(mut f) = finish(&q, &d.com, &b, &ga) else { return skip("no opening point") };
                f.ck.0 *= inv(&l);
                let Some(pi) = open(&q, &f) else { return skip("no opening point") };
                f.pi.0 = pi;
                return done(c, ver(&vk, &kt, &d.com, &b, &ssm_proof_of::<I, P, D>(&q, &f)));
            }
            done(c, v)
        }
        Attack::FinalCk | Attack::FinalCkZero | Attack::Opening | Attack::OpeningZero => {
            let x = if matches!(c.attack, Attack::FinalCk | Attack::FinalCkZero) { &mut fin.ck.0 } else { &mut fin.pi.0 };
            if matches!(c.attack, Attack::FinalCk | Attack::Opening) {
                ripp_check::change!(*x, delta);
            } else if x.is_zero() {
                return skip("already zero");
            } else {
                *x = I::S::zero();
            }
            done(c, ver(&vk, &kt, &d.com, &b, &ssm_proof_of::<I, P, D>(&honest, &fin)))
        }
        Attack::Vk(_) | Attack::OtherKey(_) => {
            if n < 2 { return skip("one key"); }
            match &c.attack {
                Attack::Vk(0) => vk.g += P::g1(&delta),
                Attack::Vk(1) => vk.h += P::g2(&delta),
                _ => vk.g_beta += P::g1(&delta),
            }
            done(c, ver(&vk, &kt, &d.com, &b, &hproof))
        }
        Attack::KeyT => {
            if !I::KEYED { return skip("no key for the product"); }
            ripp_check::change!(kt, delta);
            done(c, ver(&vk, &kt, &d.com, &b, &hproof))
        }
        Attack::Mix(what, seed) => {
            let d2 = Dl::new::<Ssm<I>>(Vs { pat: Pat::Rand(*seed), over: vec![] }.f(n), d.b.clone(), d.ka.clone(), d.kb.clone(), d.kt);
            if d2.a == d.a { return skip("same statement"); }
            let p2 = with_key(&d2);
            let Some(f2) = finish(&p2, &d2.com, &b, &ga) else { return skip("no opening point") };
            match what {
                0 => fin = Fin { z: hfin.z, ..f2.clone() },
                1 => fin.pi = f2.pi,
                2 => fin.ck = f2.ck,
                _ => {}
            }
            let p = if *what == 3 {
                ssm_proof_of::<I, P, D>(&p2, &f2)
            } else if fin.ck.0 == hfin.ck.0 && fin.pi.0 == hfin.pi.0 {
                return skip("same keys");
            } else {
                ssm_proof_of::<I, P, D>(&honest, &fin)
            };
            done(c, ver(&vk, &kt, &d.com, &b, &p))
        }
        _ => {
            let cl = match rounds_attack::<Ssm<I>>(c, &d, &b, with_b, &delta, With::<D>(std::marker::PhantomData)) {
                Err(w) => return skip(w),
                Ok(cl) => cl,
            };
            let Some(mut f) = finish(&cl.prog, &cl.com, &cl.b, &ga) else { return skip("no opening point") };
            if let Attack::Cancel(i, j, same) = &c.attack {
                f.pi.0 += two_errors(3, *i, *j, *same, &delta)[2] * inv(&(s.beta - f.z));
            }
            done(c, ver(&vk, &kt, &cl.com, &cl.b, &ssm_proof_of::<I, P, D>(&cl.prog, &f)))
        }
    }
}

fn c11() -> Vec<Scenario> {
    vec![
        Scenario::new("key/multiexp", 2500, 80_000, attack_case(0, 4, false), soundness_gipa::<Msm<Big>, Rec64>),
        Scenario::new("key/multiexp-keyed", 2000, 60_000, attack_case(0, 4, false), soundness_gipa::<MsmKey<Big>, Rec64>),
        Scenario::new("key/scalar", 2500, 80_000, attack_case(0, 4, false), soundness_gipa::<Scal<Big>, Rec64>),
        Scenario::new("key/scalar-keyed", 2000, 60_000, attack_case(0, 4, false), soundness_gipa::<ScalKey<Big>, Rec64>),
        Scenario::new("degenerate/key/multiexp", 1000, 40_000, degenerate_case(0, 4, false), soundness_gipa::<Msm<Big>, Rec64>),
        Scenario::new("degenerate/key/scalar-keyed", 1000, 40_000, degenerate_case(0, 4, false), soundness_gipa::<ScalKey<Big>, Rec64>),
        Scenario::new("degenerate/srs/multiexp", 1000, 40_000, degenerate_case(0, 4, true), soundness_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("degenerate/srs/scalar-keyed", 1000, 40_000, degenerate_case(0, 4, true), soundness_tipa::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("key/long", 100, 2000, attack_case(5, 7, false), soundness_gipa::<Scal<Big>, Rec64>),
        Scenario::new("key/bls12-381", 60, 2000, attack_case(0, 2, false), soundness_gipa::<ScalKey<Bls>, Rec64>),
        Scenario::new("srs/multiexp", 3000, 80_000, attack_case(0, 4, true), soundness_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("srs/multiexp-keyed", 2500, 60_000, attack_case(0, 4, true), soundness_tipa::<MsmKey<Big>, Big, Rec64>),
        Scenario::new("srs/scalar", 2500, 80_000, attack_case(0, 4, true), soundness_tipa::<Scal<Big>, Big, Rec64>),
        Scenario::new("srs/scalar-keyed", 2000, 60_000, attack_case(0, 4, true), soundness_tipa::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("srs/long", 60, 2000, attack_case(5, 6, true), soundness_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("key/longer", 120, 500, attack_case(8, 10, false), soundness_gipa::<Msm<Big>, Rec64>),
        Scenario::new("srs/longer", 120, 500, attack_case(7, 9, true), soundness_tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("srs/multiexp/bw6-761", 16, 400, attack_case(0, 2, true), soundness_tipa::<Msm<Bw6>, Bw6, Rec64>),
        Scenario::new("srs/digest-32", 300, 5000, attack_case(1, 3, true), soundness_tipa::<Msm<Big>, Big, Rec32>),
        Scenario::new("srs/bls12-381", 60, 2000, attack_case(0, 2, true), soundness_tipa::<Msm<Bls>, Bls, Rec64>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C10",
            rule: "A case is a size 2^k (k from 0), a left message given by a pattern, a scalar b (0, 1, -1, small or random), a key or setup (the library's or given secrets) and a number of threads. Non-trivial: at least two elements and a non-zero product. The 251-element groups and the digests that give zeros or non-canonical values make unusable challenges frequent.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c10,
        },
        Property {
            id: "C11",
            rule: "A case is a random statement with a key or a setup of known secrets (used only to compute discrete logarithms) and one attack: protocol-following provers for wrong commitments, another scalar, right vectors that are not its powers, or keys outside the SRS; round messages, scalar, product or final key chosen after the challenges; openings at other points or of other polynomials; alterations of every part of the proof and the statement. Non-trivial: the attack applied, changed something, and the same prover is accepted on the true statement.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c11,
        },
    ])
}
