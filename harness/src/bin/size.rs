//! C25: proofs are logarithmic, their size is a function of the length of the statement alone, and
//! the verifiers that have a verification key do a logarithmic amount of work.
use ark_ec::pairing::Pairing;
use ark_groth16::{Proof as GrothProof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::{aggregate_proofs, verify_aggregate_proof, AggregateProof};
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tpc;
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use ark_sipp::{product_of_pairings_with_coeffs, Proof as SippProof, SIPP};
use blake2::{Blake2b, Blake2s};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::el3;
use ripp_check::curves::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::mock::count_ops;
use ripp_check::poly::*;
use ripp_check::srs::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::Mutex;

type Sf<P> = <P as Pairing>::ScalarField;
type D = Blake2b;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Which {
    Pairing,
    Multiexp,
    MultiexpKeyed,
    MultiexpG2,
    Scalar,
    ScalarKeyed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    Sipp,
    Gipa(Which),
    Tipa(Which),
    SsmKey(Which),
    SsmSrs(Which),
    Biv,
    Trans,
    Groth,
}

/// A statement of 2^k elements (rows, proofs); 2^l is the second dimension, of polynomials
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    kind: Kind,
    k: u32,
    l: u32,
    /// inputs of each of the aggregated proofs
    m: usize,
    a: Vs,
    b: Vs,
    c: Vs,
    s: (Sc, Sc, Sc),
    seed: u64,
}

fn plain(kind: Kind, k: u32, l: u32, m: usize) -> Case {
    let v = |s| Vs { pat: Pat::Rand(s), over: vec![] };
    Case { kind, k, l, m, a: v(1), b: v(2), c: v(3), s: (Sc::R(4), Sc::R(5), Sc::R(6)), seed: 7 }
}

/// What a proof is like
#[derive(Clone, Debug, Default, PartialEq)]
struct Meas {
    rounds: Vec<usize>,
    /// compressed and uncompressed
    bytes: (usize, usize),
    /// of the verifier: multiplications and pairings
    ops: u64,
    pairings: u64,
}

impl Meas {
    fn add<T: CanonicalSerialize>(&mut self, x: &T) -> Result<(), String> {
        let (mut c, mut u) = (vec![], vec![]);
        x.serialize_compressed(&mut c).map_err(|e| format!("{:?}", e))?;
        x.serialize_uncompressed(&mut u).map_err(|e| format!("{:?}", e))?;
        self.bytes.0 += c.len();
        self.bytes.1 += u.len();
        Ok(())
    }
    fn verified<E: std::fmt::Debug>(&mut self, f: impl FnOnce() -> Result<bool, E>) -> Result<(), String> {
        let (v, ops, pairings) = count_ops(|| verdict(f));
        ensure!(v == V::True, "honest proof: {:?}", v);
        (self.ops, self.pairings) = (ops, pairings);
        Ok(())
    }
}

fn again<T: CanonicalSerialize + CanonicalDeserialize>(x: &T) -> Result<T, String> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    T::deserialize_uncompressed(&v[..]).map_err(|e| format!("{:?}", e))
}

fn srs_dl<F: ark_ff::PrimeField>(c: &Case, n: usize) -> SrsDl<F> {
    SrsDl { n, alpha: F::rand(&mut rng(c.seed ^ 1)), beta: F::rand(&mut rng(c.seed ^ 2)) }
}

fn gipa<I: Inst>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let n = 1 << c.k;
    let d = Dl::new::<I>(c.a.f(n), c.b.f(n), c.c.f(n), Vs { pat: Pat::Rand(c.seed), over: vec![] }.f(n), c.s.0.nz());
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let com = el3::<I>(&d.com);
    let p = attempt(|| Gp::<I, D>::prove((&a, &b, &I::tm(&d.t())), (&ka, &kb, &kt), (&com.0, &com.1, &com.2)))?;
    o.add(&p)?;
    o.verified(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &p))?;
    o.rounds.push(p.verif_into_parts().0.len());
    Ok(())
}

fn tipa<I: TInst<P>, P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let n = 1 << c.k;
    let s = srs_dl(c, n);
    let shift: Sf<P> = c.s.2.nz();
    let d = Dl::new::<I>(c.a.f(n), c.b.f(n), s.ka(&shift), s.kb(), c.s.0.nz());
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let com = el3::<I>(&d.com);
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let p = attempt(|| Tp::<I, P, D>::prove_with_srs_shift(&srs, (&a, &b), (&ka, &kb, &kt), &shift))?;
    o.add(&p)?;
    o.verified(|| Tp::<I, P, D>::verify_with_srs_shift(&vk, &kt, (&com.0, &com.1, &com.2), &p, &shift))?;
    o.rounds.push(p.verif_into_parts().0.verif_into_parts().0.len());
    Ok(())
}

fn ssm_key<I: Inst<RM = <I as Inst>::S>>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let x: I::S = c.s.2.f();
    let n = 1 << c.k;
    let d = Dl::new::<I>(c.a.f(n), powers(n, x), c.c.f(n), vec![I::S::from(0u64); n], c.s.0.nz());
    let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let com = (I::lo(&d.com[0]), I::to(&d.com[2]));
    let p = attempt(|| Gs::<I, D>::prove_with_structured_scalar_message((&a, &d.b), (&ka, &kt)))?;
    o.add(&p)?;
    o.verified(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&com.0, &com.1), &x, &p))?;
    o.rounds.push(p.verif_into_parts().0.len());
    Ok(())
}

fn ssm_srs<I: SInst<P>, P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let x: I::S = c.s.2.f();
    let n = 1 << c.k;
    let s = srs_dl(c, n);
    let d = Dl::new::<I>(c.a.f(n), powers(n, x), s.ka(&Sf::<P>::from(1u64)), vec![I::S::from(0u64); n], c.s.0.nz());
    let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let com = (I::lo(&d.com[0]), I::to(&d.com[2]));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let p = attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&srs, (&a, &d.b), (&ka, &kt)))?;
    o.add(&p)?;
    o.verified(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &kt, (&com.0, &com.1), &x, &p))?;
    o.rounds.push(p.verif_into_parts().0.verif_into_parts().0.len());
    Ok(())
}

fn sipp<P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let n = 1 << c.k;
    let (a, b, r): (Vec<Sf<P>>, Vec<Sf<P>>, Vec<Sf<P>>) = (c.a.f(n), c.b.f(n), c.c.f(n));
    let (a, b) = (P::g1a(&a), P::g2a(&b));
    let value = product_of_pairings_with_coeffs::<P>(&a, &b, &r);
    let p = attempt(|| SIPP::<P, Blake2s>::prove(&a, &b, &r, value))?;
    let parts = p.verif_into_parts();
    o.add(&parts)?;
    o.rounds.push(parts.len());
    let p = SippProof::<P>::verif_from_parts(parts);
    o.verified(|| SIPP::<P, Blake2s>::verify(&a, &b, &r, value, &p))
}

fn rows<F: ark_ff::PrimeField>(c: &Case) -> Vec<Vec<F>> {
    let len = 1usize << c.l;
    c.a.f::<F>(len << c.k).chunks(len).map(|r| r.to_vec()).collect()
}

fn biv<P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    type B<P> = pc::BivariatePolynomialCommitment<P, D>;
    let (x, y): (Sf<P>, Sf<P>) = (c.s.0.f(), c.s.2.f());
    let rows = rows::<Sf<P>>(c);
    let s = attempt(|| B::<P>::setup(&mut rng(c.seed), rows.len() - 1, rows[0].len() - 1))?;
    let f = pc::BivariatePolynomial::verif_new(rows.iter().map(|r| dense(r)).collect());
    let com = attempt(|| B::<P>::commit(&s, &f))?;
    let p = attempt(|| B::<P>::open(&s, &f, &com.1, &(x, y)))?;
    let v = eval2(&rows, &x, &y);
    o.verified(|| B::<P>::verify(&s.0.get_verifier_key(), &com.0, &(x, y), &v, &p))?;
    biv_size::<P>(p, o)
}

fn biv_size<P: CurveEx>(p: pc::OpeningProof<P, D>, o: &mut Meas) -> Result<(), String> {
    let (ip, ye, kz) = p.verif_into_parts();
    o.add(&ip)?;
    o.add(&(ye, kz))?;
    o.rounds.push(ip.verif_into_parts().0.verif_into_parts().0.len());
    Ok(())
}

fn trans<P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    type B<P> = tpc::BivariatePolynomialCommitment<P, D>;
    let (x, y): (Sf<P>, Sf<P>) = (c.s.0.f(), c.s.2.f());
    let rows = rows::<Sf<P>>(c);
    let s = attempt(|| B::<P>::setup(&mut rng(c.seed), rows.len() - 1, rows[0].len() - 1))?;
    let f = tpc::BivariatePolynomial::verif_new(rows.iter().map(|r| dense(r)).collect());
    let com = attempt(|| B::<P>::commit(&s, &f))?;
    let p = attempt(|| B::<P>::open(&s, &f, &com.1, &(x, y)))?;
    let v = eval2(&rows, &x, &y);
    o.verified(|| B::<P>::verify(&s, &com.0, &(x, y), &v, &p))?;
    trans_size::<P>(p, o)
}

fn trans_size<P: CurveEx>(p: tpc::OpeningProof<P, D>, o: &mut Meas) -> Result<(), String> {
    let (second, ye, first) = p.verif_into_parts();
    o.add(&second)?;
    o.add(&first)?;
    o.add(&ye)?;
    o.rounds.push(second.verif_into_parts().0.len());
    o.rounds.push(first.verif_into_parts().0.len());
    Ok(())
}

fn groth<P: CurveEx>(c: &Case, o: &mut Meas) -> Result<(), String> {
    let (n, m) = (1usize << c.k, c.m);
    let [al, be, ga, de]: [Sf<P>; 4] = powers::<Sf<P>>(5, Sc::R(c.seed).f())[1..].try_into().unwrap();
    let ic: Vec<Sf<P>> = c.c.f(m + 1);
    let inputs: Vec<Vec<Sf<P>>> = {
        let all = Vs { pat: Pat::Rand(c.seed), over: c.c.over.clone() }.f::<Sf<P>>(n * m);
        (0..n).map(|i| all[i * m..(i + 1) * m].to_vec()).collect()
    };
    let (a, b): (Vec<Sf<P>>, Vec<Sf<P>>) = (c.a.f(n), c.b.f(n));
    let cs: Vec<Sf<P>> =
        (0..n).map(|i| (a[i] * b[i] - al * be - (ic[0] + dot(&ic[1..], &inputs[i])) * ga) * inv(&de)).collect();
    let (pa, pb, pcc) = (P::g1a(&a), P::g2a(&b), P::g1a(&cs));
    let proofs: Vec<GrothProof<P>> = (0..n).map(|i| GrothProof { a: pa[i], b: pb[i], c: pcc[i] }).collect();
    let g2 = P::g2a(&[be, ga, de]);
    let key = VerifyingKey::<P> { alpha_g1: P::g1a(&[al])[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: P::g1a(&ic) };
    let s = srs_dl(c, n);
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let agg = attempt(|| aggregate_proofs::<P, D>(&srs, &proofs))?;
    let (com, ip, ac, ab, cc) = agg.verif_into_parts();
    o.add(&(com.0, com.1, com.2))?;
    o.add(&(ip, ac))?;
    o.add(&ab)?;
    o.add(&cc)?;
    for g in [again(&ab)?.verif_into_parts().0.verif_into_parts().0.len(), again(&cc)?.verif_into_parts().0.verif_into_parts().0.len()] {
        o.rounds.push(g);
    }
    let agg = AggregateProof::verif_from_parts(com, ip, ac, ab, cc);
    o.verified(|| verify_aggregate_proof::<P, D>(&vk, &key, &inputs, &agg))
}

fn measure<P: CurveEx>(c: &Case) -> Result<Meas, String> {
    let mut out = Meas::default();
    let o = &mut out;
    let r = match c.kind {
        Kind::Sipp => sipp::<P>(c, o),
        Kind::Gipa(w) => match w {
            Which::Pairing => gipa::<Pair<P>>(c, o),
            Which::Multiexp => gipa::<Msm<P>>(c, o),
            Which::MultiexpKeyed => gipa::<MsmKey<P>>(c, o),
            Which::MultiexpG2 => gipa::<MsmG2<P>>(c, o),
            Which::Scalar => gipa::<Scal<P>>(c, o),
            Which::ScalarKeyed => gipa::<ScalKey<P>>(c, o),
        },
        Kind::Tipa(w) => match w {
            Which::Pairing | Which::MultiexpG2 => tipa::<Pair<P>, P>(c, o),
            Which::Multiexp => tipa::<Msm<P>, P>(c, o),
            Which::MultiexpKeyed => tipa::<MsmKey<P>, P>(c, o),
            Which::Scalar => tipa::<Scal<P>, P>(c, o),
            Which::ScalarKeyed => tipa::<ScalKey<P>, P>(c, o),
        },
        Kind::SsmKey(w) => match w {
            Which::Pairing | Which::Multiexp => ssm_key::<Msm<P>>(c, o),
            Which::MultiexpKeyed => ssm_key::<MsmKey<P>>(c, o),
            Which::MultiexpG2 => ssm_key::<MsmG2<P>>(c, o),
            Which::Scalar => ssm_key::<Scal<P>>(c, o),
            Which::ScalarKeyed => ssm_key::<ScalKey<P>>(c, o),
        },
        Kind::SsmSrs(w) => match w {
            Which::Pairing | Which::Multiexp | Which::MultiexpG2 => ssm_srs::<Msm<P>, P>(c, o),
            Which::MultiexpKeyed => ssm_srs::<MsmKey<P>, P>(c, o),
            Which::Scalar => ssm_srs::<Scal<P>, P>(c, o),
            Which::ScalarKeyed => ssm_srs::<ScalKey<P>, P>(c, o),
        },
        Kind::Biv => biv::<P>(c, o),
        Kind::Trans => trans::<P>(c, o),
        Kind::Groth => groth::<P>(c, o),
    };
    r.map(|()| out).map_err(|e| format!("{:?} for 2^{}: {}", c.kind, c.k, e))
}

/// The measures of small random statements
fn baseline<P: CurveEx>(kind: Kind, k: u32, l: u32, m: usize) -> Result<Meas, String> {
    static KNOWN: Mutex<Option<HashMap<String, Meas>>> = Mutex::new(None);
    let key = format!("{} {:?} {} {} {}", P::NAME, kind, k, l, m);
    if let Some(x) = KNOWN.lock().unwrap().get_or_insert_with(HashMap::new).get(&key) {
        return Ok(x.clone());
    }
    let x = measure::<P>(&plain(kind, k, l, m))?;
    KNOWN.lock().unwrap().as_mut().unwrap().insert(key, x.clone());
    Ok(x)
}

/// Value at k of the linear function with these values at 1 and 2
fn line(k: u32, v1: usize, v2: usize) -> i64 {
    v1 as i64 + (k as i64 - 1) * (v2 as i64 - v1 as i64)
}

fn check<P: CurveEx>(c: &Case) -> R {
    // one thread, on which the operations are counted
    with_threads(1, || check_here::<P>(c))
}

fn check_here<P: CurveEx>(c: &Case) -> R {
    let x = measure::<P>(c)?;
    let (k, l) = (c.k, if c.kind == Kind::Trans { c.l } else { 1 });
    let b1 = baseline::<P>(c.kind, 1, 1, 1)?;
    let b2 = baseline::<P>(c.kind, 2, 1, 1)?;
    let b3 = if c.kind == Kind::Trans { baseline::<P>(c.kind, 1, 2, 1)? } else { b1.clone() };
    let rounds = match c.kind {
        Kind::Trans => vec![k as usize, l as usize],
        Kind::Groth => vec![k as usize; 2],
        _ => vec![k as usize],
    };
    ensure!(x.rounds == rounds, "{:?}: {:?} rounds for 2^{} elements", c.kind, x.rounds, k);
    for (what, got, f) in [
        ("compressed", x.bytes.0, (|m: &Meas| m.bytes.0) as fn(&Meas) -> usize),
        ("uncompressed", x.bytes.1, |m: &Meas| m.bytes.1),
    ] {
        let want = line(k, f(&b1), f(&b2)) + (l as i64 - 1) * (f(&b3) as i64 - f(&b1) as i64);
        ensure!(got as i64 == want, "{:?}: {} bytes ({}) for 2^{} elements, {} by those of 2 and 4 elements", c.kind, got, what, k, want);
    }
    // a verifier with the whole commitment keys works linearly; SIPP's statement is linear
    let keyless = matches!(c.kind, Kind::Tipa(_) | Kind::SsmSrs(_) | Kind::Biv | Kind::Groth);
    if keyless {
        let per = line(k, b1.ops as usize, b2.ops as usize).max(b1.ops as i64);
        let inputs = if c.kind == Kind::Groth { 2 * c.m as i64 } else { 0 };
        let bound = 2 * per + inputs + 16;
        ensure!(x.ops as i64 <= bound, "{:?}: the verifier makes {} multiplications for 2^{} elements, {} and {} for 2 and 4", c.kind, x.ops, k, b1.ops, b2.ops);
    }
    if (keyless || c.kind == Kind::Sipp) && k > 0 {
        ensure!(x.pairings <= b1.pairings.max(b2.pairings), "{:?}: the verifier computes {} pairings for 2^{} elements, {} for 2", c.kind, x.pairings, k, b1.pairings);
        ensure!(c.kind != Kind::Sipp || x.pairings <= 1, "SIPP: the verifier computes {} pairings", x.pairings);
    }
    let kind = format!("{:?}", c.kind);
    Ok(pass(k > 2).class(kind.split('(').next().unwrap().to_string()).class(format!("2^{}", k)))
}

fn kind() -> BoxedStrategy<Kind> {
    let w = || {
        prop_oneof![
            Just(Which::Pairing),
            Just(Which::Multiexp),
            Just(Which::MultiexpKeyed),
            Just(Which::MultiexpG2),
            Just(Which::Scalar),
            Just(Which::ScalarKeyed),
        ]
    };
    prop_oneof![
        2 => Just(Kind::Sipp),
        2 => w().prop_map(Kind::Gipa),
        3 => w().prop_map(Kind::Tipa),
        2 => w().prop_map(Kind::SsmKey),
        3 => w().prop_map(Kind::SsmSrs),
        2 => Just(Kind::Biv),
        2 => Just(Kind::Trans),
        3 => Just(Kind::Groth),
    ]
    .boxed()
}

/// lo to hi for the first dimension
fn case(lo: u32, hi: u32, l: u32, m: usize) -> impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static {
    move || {
        ((kind(), lo..=hi, 0..=l, 0..=m), (vs(), vs(), vs()), (sc(), sc(), sc()), any::<u64>())
            .prop_map(|((kind, k, l, m), (a, b, c), s, seed)| {
                // SIPP's smallest statement has two elements
                let k = if kind == Kind::Sipp { k.max(1) } else { k };
                Case { kind, k, l, m, a, b, c, s, seed }
            })
            .boxed()
    }
}

// ---------------------------------------------------------------- univariate

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Uni {
    degree: usize,
    shape: Shape,
    coeffs: Vs,
    point: Sc,
    seed: u64,
    /// setup only
    huge: bool,
    transparent: bool,
}

fn uni_case(max: usize, huge: bool) -> impl Fn() -> BoxedStrategy<Uni> + Send + Sync + 'static {
    move || {
        let edge = (0u32..24, 0usize..4).prop_map(move |(k, d)| ((1usize << k) + d).saturating_sub(2).min(max));
        let degree = prop_oneof![2 => 0..=max.min(20), 2 => edge, 2 => 0..=max];
        (degree, shape(), vs(), sc(), any::<u64>(), any::<bool>())
            .prop_map(move |(degree, shape, coeffs, point, seed, transparent)| Uni { degree, shape, coeffs, point, seed, huge, transparent })
            .boxed()
    }
}

fn log_up(n: usize) -> usize {
    n.next_power_of_two().ilog2() as usize
}

fn uni<P: CurveEx>(c: &Uni) -> R {
    with_threads(1, || uni_here::<P>(c))
}

fn uni_here<P: CurveEx>(c: &Uni) -> R {
    let n = c.degree + 1;
    let z: Sf<P> = c.point.f();
    let coeffs: Vec<Sf<P>> = if c.huge { vec![] } else { c.coeffs.f(c.shape.len(n)) };
    let root = (n as f64).sqrt();
    // the split into rows is skewed by a constant
    let bound = (64.0 * root) as usize + 64;
    let size = |what: &str, got: usize| -> Result<(), String> {
        ensure!(got <= bound, "setup for degree {}: {} elements ({}), which is not of the order of the square root", c.degree, got, what);
        Ok(())
    };
    let mut o = Meas::default();
    let f = dense(&coeffs);
    let (kind, k, l);
    if c.transparent {
        type U<P> = tpc::UnivariatePolynomialCommitment<P, D>;
        kind = Kind::Trans;
        let s = attempt(|| U::<P>::setup(&mut rng(c.seed), c.degree))?;
        size("transparent", s.0.len() + s.1.len())?;
        (k, l) = (s.1.len().ilog2(), s.0.len().ilog2());
        if !c.huge {
            let com = attempt(|| U::<P>::commit(&s, &f))?;
            ensure!(com.1.len() <= bound, "{} row commitments for degree {}", com.1.len(), c.degree);
            let p = attempt(|| U::<P>::open(&s, &f, &com.1, &z))?;
            o.verified(|| U::<P>::verify(&s, &com.0, &z, &eval(&coeffs, &z), &p))?;
            trans_size::<P>(p, &mut o)?;
        }
    } else {
        type U<P> = pc::UnivariatePolynomialCommitment<P, D>;
        kind = Kind::Biv;
        let s = attempt(|| U::<P>::setup(&mut rng(c.seed), c.degree))?;
        size("structured", s.0.g_alpha_powers.len() + s.0.h_beta_powers.len() + s.1.len())?;
        (k, l) = (((s.0.h_beta_powers.len() + 1) / 2).ilog2(), 1);
        if !c.huge {
            let com = attempt(|| U::<P>::commit(&s, &f))?;
            ensure!(com.1.len() <= bound, "{} row commitments for degree {}", com.1.len(), c.degree);
            let p = attempt(|| U::<P>::open(&s, &f, &com.1, &z))?;
            o.verified(|| U::<P>::verify(&s.0.get_verifier_key(), c.degree, &com.0, &z, &eval(&coeffs, &z), &p))?;
            biv_size::<P>(p, &mut o)?;
        }
    }
    if !c.huge {
        ensure!(o.rounds.iter().sum::<usize>() <= log_up(n) + 4, "opening of a polynomial of {} coefficients: {:?} rounds", n, o.rounds);
        let b = |k, l| baseline::<P>(kind, k, l, 1);
        let (b1, b2, b3) = (b(1, 1)?, b(2, 1)?, b(1, 2)?);
        let want = line(k, b1.bytes.0, b2.bytes.0) + (l as i64 - 1) * (b3.bytes.0 as i64 - b1.bytes.0 as i64);
        ensure!(o.bytes.0 as i64 == want, "opening of a polynomial of {} coefficients: {} bytes, not {}", n, o.bytes.0, want);
    }
    Ok(pass(n > 8).class(if c.transparent { "transparent" } else { "structured" }).class(c.shape.class()))
}

fn c25() -> Vec<Scenario> {
    vec![
        Scenario::new("any", 2000, 60_000, case(0, 5, 4, 4), check::<Big>),
        Scenario::new("any/large", 240, 3000, case(6, 11, 3, 3), check::<Big>),
        Scenario::new("any/bls12-381", 40, 800, case(0, 4, 2, 2), check::<Bls>),
        Scenario::new("any/bls12-377", 16, 300, case(0, 4, 2, 2), check::<Bls377>),
        Scenario::new("any/bw6-761", 8, 150, case(0, 3, 2, 2), check::<Bw6>),
        Scenario::new("univariate", 600, 12_000, uni_case(600, false), uni::<Big>),
        Scenario::new("univariate/large", 40, 600, uni_case(20_000, false), uni::<Big>),
        Scenario::new("univariate/setup", 60, 800, uni_case(1 << 20, true), uni::<Big>),
        Scenario::new("univariate/bls12-381", 12, 200, uni_case(60, false), uni::<Bls>),
    ]
}

fn main() {
    ripp_check::fw::main(&[Property {
        id: "C25",
        rule: "more than four elements (rows, proofs), or polynomials of more than eight coefficients",
        assumptions: &["the encoding of a proof has all that a verifier is given", "group operations of the mock curves stand for those of real ones"],
        scenarios: c25,
    }]);
}
