//! C15 and C16: transparent polynomial commitments.
use ark_ff::{Field, One, Zero};
use ark_ip_proofs::applications::poly_commit::transparent::{
    BivariatePolynomial, BivariatePolynomialCommitment, OpeningProof, UnivariatePolynomialCommitment,
};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, Prog};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::poly::*;
use ripp_check::roots::scalar_for;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};

type Sf<P> = <P as ark_ec::pairing::Pairing>::ScalarField;
type Ck<P> = (Vec<<P as ark_ec::pairing::Pairing>::G1>, Vec<<P as ark_ec::pairing::Pairing>::G2>);
type Upc<P, D> = UnivariatePolynomialCommitment<P, D>;
type Bpc<P, D> = BivariatePolynomialCommitment<P, D>;
/// second tier: row commitments; first tier: coefficients of the partially evaluated polynomial
type T2<P> = Ssm<Msm<P>>;
type T1<P> = Ssm<ScalG1<P>>;

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

fn first_word(s: String) -> String {
    s.split(['(', ' ']).next().unwrap().to_string()
}

fn degrees(max: usize) -> BoxedStrategy<usize> {
    let edge = (0u32..12, 0usize..4).prop_map(move |(k, d)| ((1usize << k) + d).saturating_sub(2).min(max));
    prop_oneof![3 => 0..=max.min(20), 2 => edge, 2 => 0..=max].boxed()
}

// ---------------------------------------------------------------- C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    /// univariate: setup degree; bivariate: log2 of the number of rows
    size: usize,
    /// bivariate: log2 of the row length
    len: u32,
    shape: Shape,
    biv: Biv,
    root: bool,
    x: Sc,
    y: Sc,
    /// own keys (first and second tier) instead of the library's
    keys: Option<(Vs, Vs)>,
    seed: u64,
    other: (u16, Sc),
    beyond: Option<(u8, bool)>,
    threads: usize,
}

fn complete_case(sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, len_max: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        let beyond = prop::option::weighted(0.15, (1u8..12, any::<bool>()));
        let key = || prop_oneof![4 => vs_rand(), 1 => vs()];
        let keys = prop::option::of((key(), key()));
        (
            (sizes(), logn(0, len_max), shape(), biv(), prop::bool::weighted(0.3), sc(), sc()),
            (keys, any::<u64>(), (any::<u16>(), delta()), beyond, threads()),
        )
            .prop_map(|((size, len, shape, biv, root, x, y), (keys, seed, other, beyond, threads))| Complete {
                size, len, shape, biv, root, x, y, keys, seed, other, beyond, threads,
            })
            .boxed()
    }
}

/// Own keys of the same lengths, with their discrete logarithms
fn own_keys<P: CurveEx>(ck: &Ck<P>, k: &(Vs, Vs)) -> (Ck<P>, Vec<Sf<P>>, Vec<Sf<P>>) {
    let (k1, k2): (Vec<Sf<P>>, Vec<Sf<P>>) = (k.0.f(ck.0.len()), k.1.f(ck.1.len()));
    ((P::g1s(&k1), P::g2s(&k2)), k1, k2)
}

fn complete_uni<P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    let degree = c.size;
    let mut ck = attempt(|| Upc::<P, D>::setup(&mut rng(c.seed), degree)).map_err(|e| format!("setup for degree {}: {}", degree, e))?;
    let capacity = ck.0.len() * ck.1.len();
    ensure!(capacity > degree, "setup for degree {} has room for {} coefficients", degree, capacity);
    let mut binding = P::NAME != "mock251";
    let mut model = None;
    if let Some(k) = &c.keys {
        let (own, k1, k2) = own_keys::<P>(&ck, k);
        ck = own;
        model = Some((k1, k2));
        binding = binding && k.0.is_random() && k.1.is_random();
    }
    let z: Sf<P> = c.y.f();
    let all = c.biv.coeffs.f::<Sf<P>>(degree + 1);
    let mut p = all[..c.shape.len(degree + 1)].to_vec();
    if c.root {
        p = with_root(&p, &z);
    }
    if let Some((k, _)) = c.beyond {
        p.resize(capacity + k as usize, Sf::<P>::zero());
        *p.last_mut().unwrap() = c.other.1.nz();
        let poly = dense(&p);
        ensure!(attempt(|| Upc::<P, D>::commit(&ck, &poly)).is_err(), "a polynomial of {} coefficients is committed to under a setup for {}", p.len(), capacity);
        let (_, rows) = attempt(|| Upc::<P, D>::commit(&ck, &dense(&p[..capacity])))?;
        ensure!(attempt(|| Upc::<P, D>::open(&ck, &poly, &rows, &z)).is_err(), "a polynomial of {} coefficients is opened under a setup for {}", p.len(), capacity);
        return Ok(pass(true).class("too long"));
    }
    let (v, poly) = (eval(&p, &z), dense(&p));
    let res = run(c.threads, || -> Result<V, String> {
        let (com, rows) = attempt(|| Upc::<P, D>::commit(&ck, &poly))?;
        let proof = attempt(|| Upc::<P, D>::open(&ck, &poly, &rows, &z))?;
        let mut q = p.clone();
        q.resize(degree + 1, Sf::<P>::zero());
        q[c.other.0 as usize % (degree + 1)] += c.other.1.nz::<Sf<P>>();
        let (com2, _) = attempt(|| Upc::<P, D>::commit(&ck, &dense(&q)))?;
        ensure!(com != com2 || !binding, "two polynomials of degree at most {} have the same commitment", degree);
        if let Some((k1, k2)) = &model {
            let mut p = p.clone();
            p.resize(capacity, Sf::<P>::zero());
            let d: Sf<P> = p.chunks(k1.len()).zip(k2).map(|(r, k)| dot(r, k1) * k).sum();
            ensure!(com == P::gt(&d), "commitment is not that of the rows");
        }
        Ok(verdict(|| Upc::<P, D>::verify(&ck, &com, &z, &v, &proof)))
    })?;
    ensure!(res == V::True, "honest opening of {} coefficients, setup degree {}: {:?}", p.len(), degree, res);
    Ok(pass(poly.coeffs.len() > 1)
        .class(c.shape.class())
        .class(if z.is_zero() { "point 0" } else if v.is_zero() { "root" } else { "other point" })
        .class(match degree { 0 => "degree 0", 1..=8 => "degree 1..8", 9..=63 => "degree 9..63", _ => "degree 64.." }))
}

fn complete_biv<P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    let (rows, len) = (1usize << c.size, 1usize << c.len);
    let mut ck = attempt(|| Bpc::<P, D>::setup(&mut rng(c.seed), rows - 1, len - 1))?;
    ensure!(ck.1.len() == rows && ck.0.len() == len, "setup of another shape");
    let mut binding = P::NAME != "mock251";
    let mut model = None;
    if let Some(k) = &c.keys {
        let (own, k1, k2) = own_keys::<P>(&ck, k);
        ck = own;
        model = Some((k1, k2));
        binding = binding && k.0.is_random() && k.1.is_random();
    }
    let (x, y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let mut p = c.biv.f::<Sf<P>>(rows, len);
    if c.root {
        p = p.iter().map(|r| with_root(r, &y)).collect();
    }
    let f = |p: &[Vec<Sf<P>>]| BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
    if let Some((k, too_many_rows)) = c.beyond {
        if too_many_rows {
            p.resize(rows + k as usize, vec![]);
            p.last_mut().unwrap().push(c.other.1.nz());
        } else {
            p.resize(p.len().max(1), vec![]);
            let i = c.other.0 as usize % p.len();
            p[i].resize(len + k as usize, Sf::<P>::zero());
            *p[i].last_mut().unwrap() = c.other.1.nz();
        }
        ensure!(attempt(|| Bpc::<P, D>::commit(&ck, &f(&p))).is_err(), "a polynomial beyond {} rows of {} is committed to", rows, len);
        // with the row commitments of the part that fits
        let fits: Vec<_> = p.iter().take(rows).map(|r| r[..r.len().min(len)].to_vec()).collect();
        let (_, coms) = attempt(|| Bpc::<P, D>::commit(&ck, &f(&fits)))?;
        ensure!(attempt(|| Bpc::<P, D>::open(&ck, &f(&p), &coms, &(x, y))).is_err(), "a polynomial beyond {} rows of {} is opened", rows, len);
        return Ok(pass(true).class(if too_many_rows { "too many rows" } else { "row too long" }));
    }
    let v = eval2(&p, &x, &y);
    ensure!(f(&p).evaluate(&(x, y)) == v, "evaluate() is wrong");
    let res = run(c.threads, || -> Result<V, String> {
        let (com, row_coms) = attempt(|| Bpc::<P, D>::commit(&ck, &f(&p)))?;
        if let Some((k1, k2)) = &model {
            let d: Sf<P> = p.iter().zip(k2).map(|(r, k)| dot(r, &k1[..r.len()]) * k).sum();
            ensure!(com == P::gt(&d), "commitment is not that of the rows");
        }
        let proof = attempt(|| Bpc::<P, D>::open(&ck, &f(&p), &row_coms, &(x, y)))?;
        let mut q = p.clone();
        q.resize(rows, vec![]);
        let i = c.other.0 as usize % rows;
        q[i].resize(len, Sf::<P>::zero());
        q[i][c.other.0 as usize / rows % len] += c.other.1.nz::<Sf<P>>();
        let (com2, _) = attempt(|| Bpc::<P, D>::commit(&ck, &f(&q)))?;
        ensure!(com != com2 || !binding, "two polynomials have the same commitment");
        Ok(verdict(|| Bpc::<P, D>::verify(&ck, &com, &(x, y), &v, &proof)))
    })?;
    ensure!(res == V::True, "honest opening, setup of {} rows of {}: {:?}", rows, len, res);
    Ok(pass(p.iter().any(|r| r.len() > 1))
        .class(c.biv.rows.class())
        .class(if v.is_zero() { "value 0" } else { "other value" })
        .class(format!("{} rows", if rows > 4 { "8.." } else { ["1", "2", "", "4"][rows - 1] }))
        .class(format!("{} columns", if len > 4 { "8.." } else { ["1", "2", "", "4"][len - 1] })))
}

fn c15() -> Vec<Scenario> {
    use blake2::Blake2b;
    let k = |lo, hi| move || logn(lo, hi).prop_map(|x| x as usize).boxed();
    vec![
        Scenario::new("univariate/mock", 2500, 60_000, complete_case(|| degrees(300), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/long", 40, 800, complete_case(|| (300usize..4200).boxed(), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/longer", 60, 800, complete_case(|| prop_oneof![2 => 3000usize..9000, 2 => 9000usize..40_000, 1 => (12u32..=15, -3i64..=3).prop_map(|(k, d)| ((1i64 << k) + d) as usize)].boxed(), 0), complete_uni::<Big, Rec64>),
        Scenario::new("univariate/rare-challenges", 1500, 30_000, complete_case(|| degrees(120), 0), complete_uni::<Small, Rec64>),
        Scenario::new("univariate/unusable-digests", 300, 5000, complete_case(|| degrees(60), 0), complete_uni::<Big, Mixed64>),
        Scenario::new("univariate/bls12-381", 48, 800, complete_case(|| degrees(40), 0), complete_uni::<Bls, Blake2b>),
        Scenario::new("univariate/bls12-377", 16, 300, complete_case(|| degrees(20), 0), complete_uni::<Bls377, Blake2b>),
        Scenario::new("univariate/bw6-761", 8, 200, complete_case(|| degrees(12), 0), complete_uni::<Bw6, Blake2b>),
        Scenario::new("bivariate/mock", 2500, 60_000, complete_case(k(0, 5), 5), complete_biv::<Big, Rec64>),
        Scenario::new("bivariate/rare-challenges", 1500, 30_000, complete_case(k(0, 4), 4), complete_biv::<Small, Rec64>),
        Scenario::new("bivariate/long", 24, 400, complete_case(k(5, 8), 7), complete_biv::<Big, Rec64>),
        Scenario::new("bivariate/bls12-381", 48, 800, complete_case(k(0, 2), 3), complete_biv::<Bls, Blake2b>),
    ]
}

// ---------------------------------------------------------------- C16

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// an honest opening with another value, commitment, point or key
    Value,
    /// the claimed value zero
    ValueZero,
    Com,
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    Point(bool),
    /// tier, element of the key
    Key(bool, u16),
    /// tier, half or double the key
    KeySize(bool, bool),
    /// the opening of another polynomial
    OtherPoly(u64),
    /// tiers of two openings of the same polynomial at points that share a coordinate
    MixTiers(bool),
    /// opens another partially evaluated polynomial: the first tier is right for it
    FalsePartial(u64),
    /// the second tier is right, the first is that of another polynomial (challenges for the
    /// claim, or for the other polynomial)
    FalseFirst(u64, bool),
    /// first tier follows the protocol for another product
    FalseProduct,
    /// a round message repaired after its challenge. Tier, position, other polynomial
    Delayed(bool, At, u64),
    /// a false round message; partial evaluation, value or commitment chosen afterwards
    DelayedStatement(bool, At),
    /// one coordinate of the point chosen after the rounds
    DelayedPoint(bool, u64),
    /// final message of the first or second tier chosen to fit a false product
    ForgedBase(bool),
    SwapRows(u16, u16),
    SwapColumns(u16, u16),
    Proof(bool, Tamper),
    YEval,
    YEvalZero,
    /// partial evaluation commitment altered with the first tier recomputed for it
    YEvalShift,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    uni: bool,
    size: usize,
    len: u32,
    coeffs: u64,
    x: Sc,
    y: Sc,
    k1: u64,
    k2: u64,
    attack: Attack,
    delta: Sc,
}

fn attack_case(uni: bool, sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, len_max: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let u = || any::<u64>();
        let b = || any::<bool>();
        let ij = || (any::<u16>(), any::<u16>());
        let attack = prop_oneof![
            2 => Just(Attack::Value),
            1 => Just(Attack::ValueZero),
            1 => Just(Attack::Com),
            3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            2 => b().prop_map(Attack::Point),
            2 => (b(), any::<u16>()).prop_map(|(t, i)| Attack::Key(t, i)),
            1 => (b(), b()).prop_map(|(t, i)| Attack::KeySize(t, i)),
            2 => u().prop_map(Attack::OtherPoly),
            2 => b().prop_map(Attack::MixTiers),
            3 => u().prop_map(Attack::FalsePartial),
            3 => (u(), b()).prop_map(|(s, c)| Attack::FalseFirst(s, c)),
            2 => Just(Attack::FalseProduct),
            5 => (b(), at(), u()).prop_map(|(t, a, s)| Attack::Delayed(t, a, s)),
            5 => (b(), at()).prop_map(|(t, a)| Attack::DelayedStatement(t, a)),
            4 => (b(), u()).prop_map(|(t, s)| Attack::DelayedPoint(t, s)),
            2 => b().prop_map(Attack::ForgedBase),
            1 => ij().prop_map(|(i, j)| Attack::SwapRows(i, j)),
            1 => ij().prop_map(|(i, j)| Attack::SwapColumns(i, j)),
            6 => (b(), tamper()).prop_map(|(t, x)| Attack::Proof(t, x)),
            1 => Just(Attack::YEval),
            1 => Just(Attack::YEvalZero),
            2 => Just(Attack::YEvalShift),
        ];
        ((sizes(), logn(0, len_max), u(), sc_point(), sc_point()), (u(), u(), attack, delta()))
            .prop_map(move |((size, len, coeffs, x, y), (k1, k2, attack, delta))| Atk {
                uni, size, len, coeffs, x, y, k1, k2, attack, delta,
            })
            .boxed()
    }
}

/// The zero polynomial, or claims for it
fn zero_case(uni: bool, sizes: impl Fn() -> BoxedStrategy<usize> + Send + Sync + 'static, len: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    let f = attack_case(uni, sizes, len);
    move || {
        let u = || prop_oneof![2 => any::<u64>(), 1 => Just(0u64)];
        let attack = prop_oneof![
            2 => Just(Attack::Value),
            2 => Just(Attack::ValueZero),
            1 => Just(Attack::Com),
            2 => u().prop_map(Attack::OtherPoly),
            2 => any::<u64>().prop_map(Attack::FalsePartial),
        ];
        (f(), any::<bool>(), attack)
            .prop_map(|(c, zero, attack)| Atk { coeffs: if zero { 0 } else { c.coeffs }, attack, ..c })
            .boxed()
    }
}

#[derive(Clone)]
struct Parts<F> {
    p2: Prog<F>,
    y_eval: F,
    p1: Prog<F>,
}

fn opening<P: CurveEx, D: Digest + 'static>(p: &Parts<Sf<P>>) -> OpeningProof<P, D> {
    OpeningProof::verif_from_parts(p.p2.proof::<T2<P>, D>(), P::g1(&p.y_eval), p.p1.proof::<T1<P>, D>())
}

fn rnd<F: ark_ff::PrimeField>(seed: u64, n: usize) -> Vec<F> {
    Vs { pat: Pat::Rand(seed), over: vec![] }.f(n)
}

fn soundness<P: CurveEx, D: Digest + 'static>(c: &Atk) -> R {
    let (mut x, mut y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let delta: Sf<P> = c.delta.nz();
    let (zero, one) = (Sf::<P>::zero(), Sf::<P>::one());
    let (rows, len) = if c.uni {
        let ck = attempt(|| Upc::<P, D>::setup(&mut rng(c.coeffs), c.size))?;
        x = y.pow([ck.0.len() as u64]);
        (ck.1.len(), ck.0.len())
    } else {
        (1usize << c.size, 1usize << c.len)
    };
    let used = if c.uni { c.size + 1 } else { rows * len };
    let grid = |seed: u64| -> Vec<Vec<Sf<P>>> {
        let mut v = rnd::<Sf<P>>(seed, used);
        if seed == 0 { v.iter_mut().for_each(|x| *x = zero); }
        if seed != c.coeffs {
            if let Some(r) = relative(seed, &rnd::<Sf<P>>(c.coeffs, used)) { v = r }
        }
        v.resize(rows * len, zero);
        v.chunks(len).map(|c| c.to_vec()).collect()
    };
    let p = grid(c.coeffs);
    let (k1, k2): (Vec<Sf<P>>, Vec<Sf<P>>) = (rnd(c.k1, len), rnd(c.k2, rows));
    let row_coms = |p: &[Vec<Sf<P>>]| -> Vec<Sf<P>> { p.iter().map(|r| dot(r, &k1)).collect() };
    let a = row_coms(&p);
    let com = dot(&k2, &a);
    let q0 = partial(&p, &x, len);
    let t = dot(&q0, &k1);
    let v = eval(&q0, &y);
    let ver = |ck: &Ck<P>, com: &Sf<P>, x: &Sf<P>, y: &Sf<P>, v: &Sf<P>, o: &OpeningProof<P, D>| {
        let com = P::gt(com);
        verdict(|| {
            if c.uni {
                Upc::<P, D>::verify(ck, &com, y, v, o)
            } else {
                Bpc::<P, D>::verify(ck, &com, &(*x, *y), v, o)
            }
        })
    };
    let mut ck: Ck<P> = (P::g1s(&k1), P::g2s(&k2));
    let name = match &c.attack {
        Attack::Proof(s, t) => format!("Proof{}.{}", if *s { 2 } else { 1 }, t.name()),
        Attack::Delayed(s, ..) | Attack::DelayedStatement(s, _) | Attack::DelayedPoint(s, _) => {
            format!("{}{}", first_word(format!("{:?}", c.attack)), if *s { 2 } else { 1 })
        }
        a => first_word(format!("{:?}", a)),
    };
    let done = |r: V| {
        ensure!(r != V::True, "accepted: {:?} with {} rows of {}", c.attack, rows, len);
        Ok(pass(true).class(name.clone()).class(nclass(rows)).class(match r { V::False => "rejected", V::Error(_) => "error", _ => "panic" }))
    };
    let d2 = |a: &[Sf<P>], x: &Sf<P>| Dl::new::<T2<P>>(a.to_vec(), powers(rows, *x), k2.clone(), vec![zero; rows], one);
    let d1 = |q: &[Sf<P>], y: &Sf<P>| Dl::new::<T1<P>>(q.to_vec(), powers(len, *y), k1.clone(), vec![zero; len], one);
    let h2 = |with: bool, a: &[Sf<P>], com: &Sf<P>, t: &Sf<P>, x: &Sf<P>| {
        adv::honest::<T2<P>, D>(&d2(a, x), &[*com, if with { *x } else { zero }, *t])
    };
    let h1 = |with: bool, q: &[Sf<P>], t: &Sf<P>, v: &Sf<P>, y: &Sf<P>| {
        adv::honest::<T1<P>, D>(&d1(q, y), &[*t, if with { *y } else { zero }, *v])
    };
    // an adversary that follows the protocol is accepted
    let mut found = None;
    for with in [true, false] {
        let h = Parts { p2: h2(with, &a, &com, &t, &x), y_eval: t, p1: h1(with, &q0, &t, &v, &y) };
        if ver(&ck, &com, &x, &y, &v, &opening::<P, D>(&h)) == V::True {
            found = Some((with, h));
            break;
        }
    }
    let Some((with, h)) = found else { return skip("adversary does not follow the protocol") };
    let w = |x: &Sf<P>| if with { *x } else { zero };
    let (r2, r1) = (rows.trailing_zeros() as usize, len.trailing_zeros() as usize);
    let ok = |com: &Sf<P>, x: &Sf<P>, y: &Sf<P>, v: &Sf<P>, o: &Parts<Sf<P>>| done(ver(&ck, com, x, y, v, &opening::<P, D>(o)));
    match &c.attack {
        Attack::ValueZero => {
            if v.is_zero() { return skip("still true"); }
            let r = ver(&ck, &com, &x, &y, &zero, &opening::<P, D>(&h));
            if r == V::True { return done(r); }
            let q = vec![zero; len];
            let o = Parts { p2: h2(with, &a, &com, &zero, &x), y_eval: zero, p1: h1(with, &q, &zero, &zero, &y) };
            ok(&com, &x, &y, &zero, &o)
        }
        Attack::Value => ok(&com, &x, &y, &(v + toward(&v, &delta)), &h),
        Attack::Com => ok(&(com + toward(&com, &delta)), &x, &y, &v, &h),
        Attack::Point(other_x) => {
            if *other_x { ripp_check::change!(x, delta) } else { ripp_check::change!(y, delta) }
            if c.uni { x = y.pow([len as u64]); }
            if eval2(&p, &x, &y) == v { return skip("still true"); }
            ok(&com, &x, &y, &v, &h)
        }
        Attack::Key(second, i) => {
            if *second {
                ck.1[*i as usize % rows] += P::g2(&delta);
            } else {
                ck.0[*i as usize % len] += P::g1(&delta);
            }
            done(ver(&ck, &com, &x, &y, &v, &opening::<P, D>(&h)))
        }
        Attack::KeySize(second, double) => {
            if !double && if *second { rows < 2 } else { len < 2 } { return skip("one element"); }
            match (second, double) {
                (true, true) => ck.1.extend(P::g2s(&vec![delta; rows])),
                (true, false) => ck.1.truncate(rows / 2),
                (false, true) => ck.0.extend(P::g1s(&vec![delta; len])),
                (false, false) => ck.0.truncate(len / 2),
            }
            done(ver(&ck, &com, &x, &y, &v, &opening::<P, D>(&h)))
        }
        Attack::Cancel(i, j, same) => {
            // commitment, partial evaluation in both tiers, value
            let e = two_errors(4, *i, *j, *same, &delta);
            let (cm, t2, t1, v2) = (com + e[0], t + e[1], t + e[2], v + e[3]);
            for y_eval in [t2, t1] {
                let o = Parts { p2: h2(with, &a, &cm, &y_eval, &x), y_eval, p1: h1(with, &q0, &y_eval, &v2, &y) };
                if com == cm && y_eval == t && v2 == v { continue; }
                let r = ver(&ck, &cm, &x, &y, &v2, &opening::<P, D>(&o));
                if r == V::True { return done(r); }
            }
            done(V::False)
        }
        Attack::OtherPoly(seed) => {
            let q = grid(*seed);
            if q == p { return skip("same polynomial"); }
            let aq = row_coms(&q);
            let q1 = partial(&q, &x, len);
            let (tq, vq) = (dot(&q1, &k1), eval(&q1, &y));
            if vq == v { return skip("same value"); }
            let comq = dot(&k2, &aq);
            for cm in [comq, com] {
                let o = Parts { p2: h2(with, &aq, &cm, &tq, &x), y_eval: tq, p1: h1(with, &q1, &tq, &vq, &y) };
                let r = ver(&ck, &com, &x, &y, &vq, &opening::<P, D>(&o));
                if r == V::True { return done(r); }
            }
            done(V::False)
        }
        Attack::MixTiers(second) => {
            if c.uni { return skip("one coordinate"); }
            if if *second { rows < 2 } else { len < 2 } { return skip("one element"); }
            let (x2, y2) = if *second { (x + toward(&x, &delta), y) } else { (x, y + toward(&y, &delta)) };
            let q2 = partial(&p, &x2, len);
            let (t2, v2) = (dot(&q2, &k1), eval(&q2, &y2));
            if v2 == v { return skip("same value"); }
            let o = Parts { p2: h2(with, &a, &com, &t2, &x2), y_eval: t2, p1: h1(with, &q2, &t2, &v2, &y2) };
            for y_eval in [h.y_eval, o.y_eval] {
                let m = Parts { p2: h.p2.clone(), y_eval, p1: o.p1.clone() };
                let r = ver(&ck, &com, &x, &y, &v2, &opening::<P, D>(&m));
                if r == V::True { return done(r); }
            }
            ok(&com, &x, &y, &v2, &o)
        }
        Attack::FalsePartial(seed) => {
            let q: Vec<Sf<P>> = relative(*seed, &q0).unwrap_or_else(|| rnd(*seed, len));
            let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
            if vq == v { return skip("same value"); }
            for tc in [tq, t] {
                let o = Parts { p2: h2(with, &a, &com, &tc, &x), y_eval: tq, p1: h1(with, &q, &tq, &vq, &y) };
                let r = ver(&ck, &com, &x, &y, &vq, &opening::<P, D>(&o));
                if r == V::True { return done(r); }
            }
            done(V::False)
        }
        Attack::FalseFirst(seed, claim) => {
            let q: Vec<Sf<P>> = relative(*seed, &q0).unwrap_or_else(|| rnd(*seed, len));
            let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
            if vq == v { return skip("same value"); }
            let o = Parts { p1: h1(with, &q, if *claim { &t } else { &tq }, &vq, &y), ..h };
            ok(&com, &x, &y, &vq, &o)
        }
        Attack::FalseProduct => {
            let v2 = v + delta;
            let o = Parts { p1: h1(with, &q0, &t, &v2, &y), ..h };
            ok(&com, &x, &y, &v2, &o)
        }
        Attack::Delayed(true, at, seed) => {
            if r2 == 0 { return skip("no rounds"); }
            let ro = at.round(r2);
            let fix = |e: Sf<P>, slot: usize| move |i: usize, ch: &Sf<P>, st: &mut adv::Step<Sf<P>>| {
                if i == ro {
                    at.repair(st, slot, ch, &e);
                }
            };
            if at.slot() == 0 {
                // rows of another polynomial, whose commitment is made to fit
                let q = grid(*seed);
                let aq = row_coms(&q);
                let q1 = partial(&q, &x, len);
                let (tq, vq) = (dot(&q1, &k1), eval(&q1, &y));
                if vq == v { return skip("same value"); }
                let e = dot(&k2, &aq) - com;
                let p2 = adv::prove::<T2<P>, D>(&d2(&aq, &x), &[com, w(&x), tq], &|_, _| {}, &fix(e, 0));
                ok(&com, &x, &y, &vq, &Parts { p2, y_eval: tq, p1: h1(with, &q1, &tq, &vq, &y) })
            } else {
                let q: Vec<Sf<P>> = relative(*seed, &q0).unwrap_or_else(|| rnd(*seed, len));
                let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
                if vq == v { return skip("same value"); }
                let p2 = adv::prove::<T2<P>, D>(&d2(&a, &x), &[com, w(&x), tq], &|_, _| {}, &fix(t - tq, 2));
                ok(&com, &x, &y, &vq, &Parts { p2, y_eval: tq, p1: h1(with, &q, &tq, &vq, &y) })
            }
        }
        Attack::Delayed(false, at, seed) => {
            if r1 == 0 { return skip("no rounds"); }
            let ro = at.round(r1);
            let fix = |e: Sf<P>, slot: usize| move |i: usize, ch: &Sf<P>, st: &mut adv::Step<Sf<P>>| {
                if i == ro {
                    at.repair(st, slot, ch, &e);
                }
            };
            if at.slot() == 0 {
                let q: Vec<Sf<P>> = relative(*seed, &q0).unwrap_or_else(|| rnd(*seed, len));
                let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
                if vq == v { return skip("same value"); }
                let p1 = adv::prove::<T1<P>, D>(&d1(&q, &y), &[t, w(&y), vq], &|_, _| {}, &fix(tq - t, 0));
                ok(&com, &x, &y, &vq, &Parts { p1, ..h })
            } else {
                let v2 = v + delta;
                let p1 = adv::prove::<T1<P>, D>(&d1(&q0, &y), &[t, w(&y), v2], &|_, _| {}, &fix(-delta, 2));
                ok(&com, &x, &y, &v2, &Parts { p1, ..h })
            }
        }
        Attack::DelayedStatement(true, at) => {
            if r2 == 0 { return skip("no rounds"); }
            let ro = at.round(r2); let side = at.side();
            let slot = if at.slot() == 0 { 0 } else { 2 };
            let p2 = adv::prove::<T2<P>, D>(&d2(&a, &x), &[com, w(&x), t], &|i, st| {
                if i == ro {
                    st[side][slot] += delta;
                }
            }, &|_, _, _| {});
            let shift = delta * if side == 0 { p2.ch[ro] } else { inv(&p2.ch[ro]) };
            if slot == 0 {
                ok(&(com - shift), &x, &y, &v, &Parts { p2, ..h })
            } else {
                // a partial evaluation that has the commitment that fits
                let mut q = q0.clone();
                let i = at.round as usize % len;
                q[i] -= shift * inv(&k1[i]);
                let (t2, v2) = (t - shift, eval(&q, &y));
                if v2 == v { return skip("same value"); }
                let p1 = h1(with, &q, &t2, &v2, &y);
                ok(&com, &x, &y, &v2, &Parts { p2, y_eval: t2, p1 })
            }
        }
        Attack::DelayedStatement(false, at) => {
            if r1 == 0 { return skip("no rounds"); }
            let ro = at.round(r1); let side = at.side();
            let p1 = adv::prove::<T1<P>, D>(&d1(&q0, &y), &[t, w(&y), v], &|i, st| {
                if i == ro {
                    st[side][2] += delta;
                }
            }, &|_, _, _| {});
            let shift = delta * if side == 0 { p1.ch[ro] } else { inv(&p1.ch[ro]) };
            ok(&com, &x, &y, &(v - shift), &Parts { p1, ..h })
        }
        Attack::DelayedPoint(second, seed) => {
            if c.uni { return skip("one coordinate"); }
            if *second {
                if r2 == 0 { return skip("no rounds"); }
                let mut d = d2(&a, &x);
                d.b = rnd(*seed, rows);
                d.com = d.commit();
                let t2 = d.com[2];
                let p2 = adv::honest::<T2<P>, D>(&d, &[com, w(&x), t2]);
                let Some(x2) = scalar_for(&p2.ch, &p2.base.1, *seed) else { return skip("no such scalar") };
                let mut q = partial(&p, &x2, len);
                let e = (t2 - dot(&q, &k1)) * inv(&k1[0]);
                q[0] += e;
                let v2 = eval(&q, &y);
                if eval2(&p, &x2, &y) == v2 { return skip("still true"); }
                ok(&com, &x2, &y, &v2, &Parts { p2, y_eval: t2, p1: h1(with, &q, &t2, &v2, &y) })
            } else {
                if r1 == 0 { return skip("no rounds"); }
                let mut d = d1(&q0, &y);
                d.b = rnd(*seed, len);
                d.com = d.commit();
                let v2 = d.com[2];
                let p1 = adv::honest::<T1<P>, D>(&d, &[t, w(&y), v2]);
                let Some(y2) = scalar_for(&p1.ch, &p1.base.1, *seed) else { return skip("no such scalar") };
                if eval(&q0, &y2) == v2 { return skip("still true"); }
                ok(&com, &x, &y2, &v2, &Parts { p1, ..h })
            }
        }
        Attack::ForgedBase(second) => {
            if *second {
                let mut q = q0.clone();
                q[0] += delta;
                let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
                let mut p2 = h2(with, &a, &com, &tq, &x);
                if p2.base.0.is_zero() { return skip("zero"); }
                p2.base.1 += (tq - t) * inv(&p2.base.0);
                ok(&com, &x, &y, &vq, &Parts { p2, y_eval: tq, p1: h1(with, &q, &tq, &vq, &y) })
            } else {
                let v2 = v + delta;
                let mut p1 = h1(with, &q0, &t, &v2, &y);
                if p1.base.0.is_zero() { return skip("zero"); }
                p1.base.1 += delta * inv(&p1.base.0);
                ok(&com, &x, &y, &v2, &Parts { p1, ..h })
            }
        }
        Attack::SwapRows(i, j) => {
            if rows < 2 { return skip("one row"); }
            let i = *i as usize % rows;
            let j = (i + 1 + *j as usize % (rows - 1)) % rows;
            let mut q = p.clone();
            q.swap(i, j);
            let aq = row_coms(&q);
            let q1 = partial(&q, &x, len);
            let (tq, vq) = (dot(&q1, &k1), eval(&q1, &y));
            if vq == v { return skip("same value"); }
            ok(&com, &x, &y, &vq, &Parts { p2: h2(with, &aq, &com, &tq, &x), y_eval: tq, p1: h1(with, &q1, &tq, &vq, &y) })
        }
        Attack::SwapColumns(i, j) => {
            if len < 2 { return skip("one column"); }
            let i = *i as usize % len;
            let j = (i + 1 + *j as usize % (len - 1)) % len;
            let mut q = q0.clone();
            q.swap(i, j);
            let vq = eval(&q, &y);
            if vq == v { return skip("same value"); }
            ok(&com, &x, &y, &vq, &Parts { p1: h1(with, &q, &t, &vq, &y), ..h })
        }
        Attack::Proof(second, tm) => {
            if matches!(tm, Tamper::BaseB | Tamper::BaseNeg(false, _)) { return skip("not part of the statement"); }
            let (p2, ye, p1) = opening::<P, D>(&h).verif_into_parts();
            let o = if *second {
                let Some(g) = tm.apply::<T2<P>, D>(p2, &delta) else { return skip("does not apply") };
                OpeningProof::verif_from_parts(g, ye, p1)
            } else {
                let Some(g) = tm.apply::<T1<P>, D>(p1, &delta) else { return skip("does not apply") };
                OpeningProof::verif_from_parts(p2, ye, g)
            };
            done(ver(&ck, &com, &x, &y, &v, &o))
        }
        Attack::YEval | Attack::YEvalZero => {
            let mut o = h.clone();
            if matches!(c.attack, Attack::YEval) { ripp_check::change!(o.y_eval, delta) } else { o.y_eval = zero }
            if o.y_eval == h.y_eval { return skip("already zero"); }
            ok(&com, &x, &y, &v, &o)
        }
        Attack::YEvalShift => {
            let mut q = q0.clone();
            q[0] += delta;
            let (tq, vq) = (dot(&q, &k1), eval(&q, &y));
            ok(&com, &x, &y, &vq, &Parts { y_eval: tq, p1: h1(with, &q, &tq, &vq, &y), ..h })
        }
    }
}

fn c16() -> Vec<Scenario> {
    let k = |lo, hi| move || logn(lo, hi).prop_map(|x| x as usize).boxed();
    vec![
        Scenario::new("bivariate/mock", 8000, 200_000, attack_case(false, k(0, 4), 4), soundness::<Big, Rec64>),
        Scenario::new("univariate/mock", 4000, 120_000, attack_case(true, || degrees(40), 0), soundness::<Big, Rec64>),
        Scenario::new("bivariate/zero", 1000, 30_000, zero_case(false, k(0, 4), 4), soundness::<Big, Rec64>),
        Scenario::new("univariate/zero", 600, 20_000, zero_case(true, || degrees(40), 0), soundness::<Big, Rec64>),
        Scenario::new("univariate/long", 80, 1600, attack_case(true, || degrees(700), 0), soundness::<Big, Rec64>),
        Scenario::new("bivariate/long", 60, 1200, attack_case(false, k(5, 6), 6), soundness::<Big, Rec64>),
        Scenario::new("univariate/longer", 120, 400, attack_case(true, || (3000usize..9000).boxed(), 0), soundness::<Big, Rec64>),
        Scenario::new("bivariate/longer", 100, 400, attack_case(false, k(7, 8), 8), soundness::<Big, Rec64>),
        Scenario::new("bivariate/bls12-381", 60, 2000, attack_case(false, k(0, 2), 2), soundness::<Bls, Rec64>),
        Scenario::new("univariate/bls12-381", 50, 1500, attack_case(true, || degrees(15), 0), soundness::<Bls, Rec64>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C15",
            rule: "A case is a setup (the library's, or own keys of the same shape with known discrete logarithms) for a degree or a power-of-two shape, a polynomial (zero, constant, short, full, patterned, with or without a root at the point, rows of any lengths), a point (0, 1, -1, small, random) and a number of threads, or a polynomial beyond the capacity. Non-trivial: a row or polynomial that is not constant.",
            assumptions: &["arkworks pairings, groups, fields and polynomials are correct"],
            scenarios: c15,
        },
        Property {
            id: "C16",
            rule: "A case is a random polynomial committed under keys of known discrete logarithms and one attack: false values and points, proofs of other polynomials, mixed tiers, protocol-following provers for which exactly one tier is false, also after they know the challenges, and alterations of each part. Non-trivial: the attack applied and the same prover is accepted on the true value.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c16,
        },
    ])
}
