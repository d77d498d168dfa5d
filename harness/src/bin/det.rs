//! C20: results do not depend on threads, earlier or concurrent calls, or the parallel feature.
//!
//! The build without the parallel feature (directory target-serial) is this same program; it is run
//! as `det serve`, reads cases from its standard input and answers with the outcomes.
use ark_ec::{pairing::Pairing, pairing::PairingOutput, CurveGroup};
use ark_ff::{UniformRand, Zero};
use ark_groth16::{Proof as GrothProof, VerifyingKey};
use ark_inner_products::{cfg_multi_pairing, InnerProduct};
use ark_ip_proofs::applications::groth16_aggregation::{aggregate_proofs, setup_inner_product, verify_aggregate_proof, AggregateProof};
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tpc;
use ark_ip_proofs::tipa::structured_scalar_message::structured_scalar_power;
use ark_ip_proofs::tipa::{structured_generators_scalar_power, SRS};
use ark_dh_commitments::{identity::{IdentityCommitment, IdentityOutput}, DoublyHomomorphicCommitment};
use ark_serialize::CanonicalSerialize;
use ark_sipp::{product_of_pairings, product_of_pairings_with_coeffs, Proof as SippProof, SIPP};
use blake2::{Blake2b, Blake2s, Digest};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::el3;
use ripp_check::curves::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::poly::*;
use ripp_check::srs::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

type Sf<P> = <P as Pairing>::ScalarField;
type D = Blake2b;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Which {
    Pairing,
    Multiexp,
    MultiexpKeyed,
    MultiexpG2,
    Scalar,
    ScalarKeyed,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    InnerProduct(Which),
    Commit(Which),
    Products,
    Sipp,
    Gipa(Which),
    Tipa(Which),
    SsmKey(Which),
    SsmSrs(Which),
    Kzg,
    Biv,
    Uni,
    TransBiv,
    TransUni,
    Groth,
    Setup,
    Powers,
}

/// What is wrong with the statement: nothing, a claim, or the lengths of the vectors
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Wrong {
    No,
    Claim(u8),
    Length,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Job {
    op: Op,
    n: usize,
    a: Vs,
    b: Vs,
    c: Vs,
    s: (Sc, Sc, Sc),
    seed: u64,
    wrong: Wrong,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Curve {
    Big,
    Small,
    Bls,
    Bls377,
}

// ---------------------------------------------------------------- outcomes

/// Everything that an operation gives, and how it ended
#[derive(Default)]
struct Outcome(Vec<(String, Vec<u8>)>);

impl Outcome {
    fn put<T: CanonicalSerialize>(&mut self, what: &str, x: &T) {
        let mut v = vec![];
        x.serialize_uncompressed(&mut v).unwrap();
        self.0.push((what.into(), v));
    }
    fn res<T, E>(&mut self, what: &str, f: impl FnOnce() -> Result<T, E>) -> Option<T> {
        match quiet(f) {
            Err(_) => self.note(what, "panic"),
            Ok(Err(_)) => self.note(what, "error"),
            Ok(Ok(x)) => return Some(x),
        }
        None
    }
    fn note(&mut self, what: &str, s: &str) {
        self.0.push((what.into(), s.as_bytes().to_vec()));
    }
    fn verdict<E>(&mut self, what: &str, f: impl FnOnce() -> Result<bool, E>) {
        if let Some(b) = self.res(what, f) {
            self.note(what, if b { "true" } else { "false" });
        }
    }
    /// The names, and a digest of each value
    fn digests(&self) -> Vec<(String, String)> {
        self.0
            .iter()
            .map(|(n, v)| {
                let h = Blake2b::digest(v);
                let hex: String = h[..12].iter().map(|b| format!("{:02x}", b)).collect();
                let note = [&b"panic"[..], b"error", b"true", b"false"].contains(&&v[..]);
                (n.clone(), if note { String::from_utf8_lossy(v).into_owned() } else { hex })
            })
            .collect()
    }
}

fn dl<I: Inst>(j: &Job) -> Dl<I::S> {
    let n = j.n;
    Dl::new::<I>(j.a.f(n), j.b.f(n), j.c.f(n), Vs { pat: Pat::Rand(j.seed), over: vec![] }.f(n), j.s.0.nz())
}

fn short<T: Clone>(j: &Job, v: &[T]) -> Vec<T> {
    let m = if j.wrong == Wrong::Length && !v.is_empty() { v.len() - 1 } else { v.len() };
    v[..m].to_vec()
}

fn wrong3<S: ark_ff::PrimeField>(j: &Job, com: &[S; 3]) -> [S; 3] {
    let mut c = *com;
    if let Wrong::Claim(i) = j.wrong {
        c[i as usize % 3] += j.s.1.nz::<S>();
    }
    c
}

fn inner<I: Inst>(j: &Job, o: &mut Outcome) {
    let d = dl::<I>(j);
    if let Some(x) = o.res("inner product", || I::IP::inner_product(&I::lms(&d.a), &short(j, &I::rms(&d.b)))) {
        o.put("inner product", &x);
    }
}

fn commit<I: Inst>(j: &Job, o: &mut Outcome) {
    let d = dl::<I>(j);
    if let Some(x) = o.res("left", || I::L::commit(&I::lks(&d.ka), &short(j, &I::lms(&d.a)))) {
        o.put("left", &x);
        o.verdict("left verified", || I::L::verify(&I::lks(&d.ka), &I::lms(&d.a), &x));
    }
    if let Some(x) = o.res("right", || I::R::commit(&I::rks(&d.kb), &short(j, &I::rms(&d.b)))) {
        o.put("right", &x);
        o.verdict("right verified", || I::R::verify(&I::rks(&d.kb), &I::rms(&d.b), &x));
    }
    if let Some(x) = o.res("product", || I::C::commit(&[I::tk(&d.kt)], &[I::tm(&d.t())])) {
        o.put("product", &x);
    }
    if let Some(x) = o.res("setup", || I::L::setup(&mut rng(j.seed), j.n)) {
        o.put("setup", &x);
    }
    if let Some(x) = o.res("identity", || IdentityCommitment::<I::S, I::S>::commit(&[], &d.a)) {
        o.put("identity", &IdentityOutput(x.0));
    }
}

fn gipa<I: Inst>(j: &Job, o: &mut Outcome) {
    let d = dl::<I>(j);
    let (a, b, ka, kb, kt) = (I::lms(&d.a), short(j, &I::rms(&d.b)), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let com = el3::<I>(&wrong3(j, &d.com));
    if let Some((k, l, m)) = o.res("setup", || Gp::<I, D>::setup(&mut rng(j.seed), j.n)) {
        o.put("setup", &(k, l, m));
    }
    if let Some(p) = o.res("prove", || Gp::<I, D>::prove((&a, &b, &I::tm(&d.t())), (&ka, &kb, &kt), (&com.0, &com.1, &com.2))) {
        o.put("proof", &p);
    }
    if let Some((p, aux)) = o.res("prove with aux", || Gp::<I, D>::prove_with_aux((&a, &b), (&ka, &kb, &[kt.clone()]))) {
        o.put("proof with aux", &p);
        let (ch, ck) = aux.verif_into_parts();
        o.put("challenges", &ch);
        o.put("final keys", &(ck.0, ck.1));
        o.verdict("verify", || Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &p));
    }
}

fn srs_dl<F: ark_ff::PrimeField>(j: &Job) -> SrsDl<F> {
    let two = F::from(2u64);
    let nz = |x: F| if x.is_zero() { two } else { x };
    SrsDl { n: j.n, alpha: nz(F::rand(&mut rng(j.seed ^ 1))), beta: nz(F::rand(&mut rng(j.seed ^ 2))) }
}

fn put_srs<P: Pairing>(o: &mut Outcome, what: &str, s: &SRS<P>) {
    o.put(what, &(s.g_alpha_powers.clone(), s.h_beta_powers.clone(), s.g_beta, s.h_alpha));
    let k = s.get_commitment_keys();
    o.put("commitment keys", &k);
    let v = s.get_verifier_key();
    o.put("verifier key", &(v.g, v.h, v.g_beta, v.h_alpha));
}

fn tipa<I: TInst<P>, P: CurveEx>(j: &Job, o: &mut Outcome) {
    let s = srs_dl(j);
    let shift: Sf<P> = j.s.2.nz();
    let d = Dl::new::<I>(j.a.f(j.n), j.b.f(j.n), s.ka(&shift), s.kb(), j.s.0.nz());
    let (a, b, ka, kb, kt) = (I::lms(&d.a), short(j, &I::rms(&d.b)), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let com = el3::<I>(&wrong3(j, &d.com));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    if let Some(p) = o.res("prove", || Tp::<I, P, D>::prove_with_srs_shift(&srs, (&a, &b), (&ka, &kb, &kt), &shift)) {
        o.put("proof", &p);
        o.verdict("verify", || Tp::<I, P, D>::verify_with_srs_shift(&vk, &kt, (&com.0, &com.1, &com.2), &p, &shift));
        o.verdict("verify, no shift", || Tp::<I, P, D>::verify(&vk, &kt, (&com.0, &com.1, &com.2), &p));
    }
    if let Some(s) = o.res("setup", || Tp::<I, P, D>::setup(&mut rng(j.seed), j.n)) {
        put_srs(o, "setup", &s.0);
    }
}

fn ssm_key<I: Inst<RM = <I as Inst>::S>>(j: &Job, o: &mut Outcome) {
    let x: I::S = j.s.2.f();
    let n = j.n;
    let d = Dl::new::<I>(j.a.f(n), powers(n, x), j.c.f(n), vec![I::S::zero(); n], j.s.0.nz());
    let (a, b, ka, kt) = (I::lms(&d.a), short(j, &d.b), I::lks(&d.ka), I::tk(&d.kt));
    let w = wrong3(j, &d.com);
    let com = (I::lo(&w[0]), x + w[1], I::to(&w[2]));
    if let Some(p) = o.res("prove", || Gs::<I, D>::prove_with_structured_scalar_message((&a, &b), (&ka, &kt))) {
        o.put("proof", &p);
        o.verdict("verify", || Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&com.0, &com.2), &com.1, &p));
    }
}

fn ssm_srs<I: SInst<P>, P: CurveEx>(j: &Job, o: &mut Outcome) {
    let x: I::S = j.s.2.f();
    let n = j.n;
    let s = srs_dl(j);
    let d = Dl::new::<I>(j.a.f(n), powers(n, x), s.ka(&<Sf<P> as ark_ff::One>::one()), vec![I::S::zero(); n], j.s.0.nz());
    let (a, b, ka, kt) = (I::lms(&d.a), short(j, &d.b), I::lks(&d.ka), I::tk(&d.kt));
    let w = wrong3(j, &d.com);
    let com = (I::lo(&w[0]), x + w[1], I::to(&w[2]));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    if let Some(p) = o.res("prove", || Ts::<I, P, D>::prove_with_structured_scalar_message(&srs, (&a, &b), (&ka, &kt))) {
        o.put("proof", &p);
        o.verdict("verify", || Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &kt, (&com.0, &com.2), &com.1, &p));
    }
}

fn products<P: CurveEx>(j: &Job, o: &mut Outcome) {
    let n = j.n;
    let (a, b, r): (Vec<Sf<P>>, Vec<Sf<P>>, Vec<Sf<P>>) = (j.a.f(n), j.b.f(n), j.c.f(n));
    let (a, b, r) = (P::g1a(&a), short(j, &P::g2a(&b)), short(j, &r));
    if let Some(x) = o.res("with coefficients", || Ok::<_, ()>(product_of_pairings_with_coeffs::<P>(&a, &b, &r))) {
        o.put("with coefficients", &x);
    }
    if let Some(x) = o.res("plain", || Ok::<_, ()>(product_of_pairings::<P>(&a, &b))) {
        o.put("plain", &x);
    }
    let (a, b): (Vec<P::G1>, Vec<P::G2>) = (a.iter().map(|x| (*x).into()).collect(), b.iter().map(|x| (*x).into()).collect());
    if let Some(x) = o.res("multi-pairing", || cfg_multi_pairing::<P>(&a, &b).ok_or("none")) {
        o.put("multi-pairing", &x);
    }
}

fn sipp<P: CurveEx>(j: &Job, o: &mut Outcome) {
    let n = j.n;
    let (a, b, r): (Vec<Sf<P>>, Vec<Sf<P>>, Vec<Sf<P>>) = (j.a.f(n), j.b.f(n), j.c.f(n));
    let (a, b, r) = (P::g1a(&a), P::g2a(&b), r);
    let value = product_of_pairings_with_coeffs::<P>(&a, &b, &r);
    let claim = if let Wrong::Claim(_) = j.wrong { value + P::gt(&j.s.1.nz()) } else { value };
    let b2 = short(j, &b);
    if let Some(p) = o.res("prove", || SIPP::<P, Blake2s>::prove(&a, &b2, &r, value)) {
        let parts = p.verif_into_parts();
        o.put("proof", &parts);
        let p = SippProof::<P>::verif_from_parts(parts);
        o.verdict("verify", || SIPP::<P, Blake2s>::verify(&a, &b, &r, claim, &p));
    }
}

fn put_rows<P: Pairing>(o: &mut Outcome, x: &(PairingOutput<P>, Vec<P::G1>)) {
    o.put("commitment", &(x.0, x.1.clone()));
}

fn poly<P: CurveEx>(j: &Job, o: &mut Outcome) {
    // a polynomial of n coefficients, or k rows of n / k
    let (x, y): (Sf<P>, Sf<P>) = (j.s.0.f(), j.s.2.f());
    let wrong = |v: Sf<P>| if let Wrong::Claim(_) = j.wrong { v + j.s.1.nz::<Sf<P>>() } else { v };
    let rows = 1usize << (j.seed % 3).min(j.n.ilog2() as u64);
    let cols = (j.n / rows).max(1);
    let coeffs: Vec<Sf<P>> = j.a.f(j.n.max(rows * cols));
    let uni = &coeffs[..j.n];
    let biv: Vec<Vec<Sf<P>>> = (0..rows).map(|i| coeffs[i * cols..(i + 1) * cols].to_vec()).collect();
    let mut r = rng(j.seed);
    match j.op {
        Op::Kzg => {
            type K<P> = pc::KZG<P>;
            let Some((pw, vk)) = o.res("setup", || K::<P>::setup(&mut r, j.n - 1)) else { return };
            o.put("setup", &pw);
            o.put("setup, verifier key", &(vk.g, vk.h, vk.g_beta, vk.h_alpha));
            let f = dense(uni);
            let Some(c) = o.res("commit", || K::<P>::commit(&pw, &f)) else { return };
            o.put("commitment", &c);
            let Some(p) = o.res("open", || K::<P>::open(&pw, &f, &x)) else { return };
            o.put("opening", &p);
            let v = wrong(eval(uni, &x));
            o.verdict("verify", || K::<P>::verify(&vk, &c, &x, &v, &p));
        }
        Op::Biv => {
            type B<P> = pc::BivariatePolynomialCommitment<P, D>;
            let Some(s) = o.res("setup", || B::<P>::setup(&mut r, rows - 1, cols - 1)) else { return };
            put_srs(o, "setup", &s.0);
            o.put("setup powers", &s.1);
            let f = pc::BivariatePolynomial::verif_new(biv.iter().map(|r| dense(r)).collect());
            let Some(c) = o.res("commit", || B::<P>::commit(&s, &f)) else { return };
            put_rows(o, &c);
            let Some(p) = o.res("open", || B::<P>::open(&s, &f, &c.1, &(x, y))) else { return };
            let (ip, ye, kz) = p.verif_into_parts();
            o.put("opening", &ip);
            o.put("opening, rest", &(ye, kz));
            let p = pc::OpeningProof::verif_from_parts(ip, ye, kz);
            let v = wrong(eval2(&biv, &x, &y));
            o.verdict("verify", || B::<P>::verify(&s.0.get_verifier_key(), &c.0, &(x, y), &v, &p));
        }
        Op::Uni => {
            type U<P> = pc::UnivariatePolynomialCommitment<P, D>;
            let Some(s) = o.res("setup", || U::<P>::setup(&mut r, j.n - 1)) else { return };
            put_srs(o, "setup", &s.0);
            o.put("setup powers", &s.1);
            let f = dense(uni);
            let Some(c) = o.res("commit", || U::<P>::commit(&s, &f)) else { return };
            put_rows(o, &c);
            let Some(p) = o.res("open", || U::<P>::open(&s, &f, &c.1, &x)) else { return };
            let (ip, ye, kz) = p.verif_into_parts();
            o.put("opening", &ip);
            o.put("opening, rest", &(ye, kz));
            let p = pc::OpeningProof::verif_from_parts(ip, ye, kz);
            let v = wrong(eval(uni, &x));
            o.verdict("verify", || U::<P>::verify(&s.0.get_verifier_key(), j.n - 1, &c.0, &x, &v, &p));
        }
        Op::TransBiv => {
            type B<P> = tpc::BivariatePolynomialCommitment<P, D>;
            let cols = cols.next_power_of_two();
            let Some(s) = o.res("setup", || B::<P>::setup(&mut r, rows - 1, cols - 1)) else { return };
            o.put("setup", &s);
            let f = tpc::BivariatePolynomial::verif_new(biv.iter().map(|r| dense(r)).collect());
            let Some(c) = o.res("commit", || B::<P>::commit(&s, &f)) else { return };
            put_rows(o, &c);
            let Some(p) = o.res("open", || B::<P>::open(&s, &f, &c.1, &(x, y))) else { return };
            let (a, ye, b) = p.verif_into_parts();
            o.put("opening", &a);
            o.put("opening, rest", &b);
            o.put("opening, value", &ye);
            let p = tpc::OpeningProof::verif_from_parts(a, ye, b);
            let v = wrong(eval2(&biv, &x, &y));
            o.verdict("verify", || B::<P>::verify(&s, &c.0, &(x, y), &v, &p));
        }
        _ => {
            type U<P> = tpc::UnivariatePolynomialCommitment<P, D>;
            let Some(s) = o.res("setup", || U::<P>::setup(&mut r, j.n - 1)) else { return };
            o.put("setup", &s);
            let f = dense(uni);
            let Some(c) = o.res("commit", || U::<P>::commit(&s, &f)) else { return };
            put_rows(o, &c);
            let Some(p) = o.res("open", || U::<P>::open(&s, &f, &c.1, &x)) else { return };
            let (a, ye, b) = p.verif_into_parts();
            o.put("opening", &a);
            o.put("opening, rest", &b);
            o.put("opening, value", &ye);
            let p = tpc::OpeningProof::verif_from_parts(a, ye, b);
            let v = wrong(eval(uni, &x));
            o.verdict("verify", || U::<P>::verify(&s, &c.0, &x, &v, &p));
        }
    }
}

fn groth<P: CurveEx>(j: &Job, o: &mut Outcome) {
    let n = j.n;
    let m = (j.seed % 3) as usize;
    let mut r = rng(j.seed);
    let mut f = || Sf::<P>::rand(&mut r);
    let nz = |x: Sf<P>| if x.is_zero() { <Sf<P> as ark_ff::One>::one() } else { x };
    let (al, be, ga, de) = (f(), nz(f()), f(), f());
    let ic: Vec<Sf<P>> = (0..=m).map(|_| f()).collect();
    let (bs, cs): (Vec<Sf<P>>, Vec<Sf<P>>) = (j.b.f(n), j.c.f(n));
    let mut inputs: Vec<Vec<Sf<P>>> = (0..n).map(|_| (0..m).map(|_| f()).collect()).collect();
    let mut p = vec![];
    for i in 0..n {
        let x = ic[0] + dot(&ic[1..], &inputs[i]);
        let b = nz(bs[i]);
        let a = (al * be + x * ga + cs[i] * de) * inv(&b);
        p.push((a, b, cs[i]));
    }
    match j.wrong {
        Wrong::Claim(0) => p[j.seed as usize % n].2 += j.s.1.nz::<Sf<P>>(),
        Wrong::Claim(_) if m > 0 => inputs[j.seed as usize % n][0] += j.s.1.nz::<Sf<P>>(),
        _ => (),
    }
    let col = |g: &dyn Fn(&(Sf<P>, Sf<P>, Sf<P>)) -> Sf<P>| p.iter().map(g).collect::<Vec<_>>();
    let (pa, pb, pcc) = (P::g1a(&col(&|p| p.0)), P::g2a(&col(&|p| p.1)), P::g1a(&col(&|p| p.2)));
    let proofs: Vec<GrothProof<P>> = (0..n).map(|i| GrothProof { a: pa[i], b: pb[i], c: pcc[i] }).collect();
    let g2 = P::g2a(&[be, ga, de]);
    let key = VerifyingKey::<P> { alpha_g1: P::g1a(&[al])[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: P::g1a(&ic) };
    let Some(srs) = o.res("setup", || setup_inner_product::<P, D, _>(&mut rng(j.seed), n)) else { return };
    put_srs(o, "setup", &srs);
    let Some(agg) = o.res("aggregate", || aggregate_proofs::<P, D>(&srs, &proofs)) else { return };
    let (c, ip, ac, ab, cc) = agg.verif_into_parts();
    o.put("aggregate", &(c.0, c.1, c.2));
    o.put("aggregate, rest", &(ip, ac));
    o.put("first argument", &ab);
    o.put("second argument", &cc);
    let agg = AggregateProof::verif_from_parts(c, ip, ac, ab, cc);
    o.verdict("verify", || verify_aggregate_proof::<P, D>(&srs.get_verifier_key(), &key, &inputs, &agg));
    if n > 1 {
        o.verdict("verify with fewer inputs", || verify_aggregate_proof::<P, D>(&srs.get_verifier_key(), &key, &inputs[1..].to_vec(), &agg));
    }
}

fn powers_op<P: CurveEx>(j: &Job, o: &mut Outcome) {
    let s: Sf<P> = j.s.2.f();
    let n = j.n;
    if let Some(x) = o.res("group", || Ok::<_, ()>(structured_generators_scalar_power(n, &P::g1(&j.s.0.f()), &s))) {
        o.put("group", &P::G1::normalize_batch(&x));
    }
    if let Some(x) = o.res("group 2", || Ok::<_, ()>(structured_generators_scalar_power(n, &P::g2(&j.s.0.f()), &s))) {
        o.put("group 2", &P::G2::normalize_batch(&x));
    }
    if let Some(x) = o.res("scalar", || Ok::<_, ()>(structured_scalar_power(n, &s))) {
        o.put("scalar", &x);
    }
}

fn run_on<P: CurveEx>(j: &Job) -> Outcome {
    let mut out = Outcome::default();
    let o = &mut out;
    macro_rules! per_inst {
        ($w:expr, $f:ident) => {
            match $w {
                Which::Pairing => $f::<Pair<P>>(j, o),
                Which::Multiexp => $f::<Msm<P>>(j, o),
                Which::MultiexpKeyed => $f::<MsmKey<P>>(j, o),
                Which::MultiexpG2 => $f::<MsmG2<P>>(j, o),
                Which::Scalar => $f::<Scal<P>>(j, o),
                Which::ScalarKeyed => $f::<ScalKey<P>>(j, o),
            }
        };
    }
    match j.op {
        Op::InnerProduct(w) => per_inst!(w, inner),
        Op::Commit(w) => per_inst!(w, commit),
        Op::Gipa(w) => per_inst!(w, gipa),
        Op::Tipa(w) => match w {
            Which::Pairing | Which::MultiexpG2 => tipa::<Pair<P>, P>(j, o),
            Which::Multiexp => tipa::<Msm<P>, P>(j, o),
            Which::MultiexpKeyed => tipa::<MsmKey<P>, P>(j, o),
            Which::Scalar => tipa::<Scal<P>, P>(j, o),
            Which::ScalarKeyed => tipa::<ScalKey<P>, P>(j, o),
        },
        Op::SsmKey(w) => match w {
            Which::Pairing | Which::Multiexp => ssm_key::<Msm<P>>(j, o),
            Which::MultiexpKeyed => ssm_key::<MsmKey<P>>(j, o),
            Which::MultiexpG2 => ssm_key::<MsmG2<P>>(j, o),
            Which::Scalar => ssm_key::<Scal<P>>(j, o),
            Which::ScalarKeyed => ssm_key::<ScalKey<P>>(j, o),
        },
        Op::SsmSrs(w) => match w {
            Which::Pairing | Which::Multiexp | Which::MultiexpG2 => ssm_srs::<Msm<P>, P>(j, o),
            Which::MultiexpKeyed => ssm_srs::<MsmKey<P>, P>(j, o),
            Which::Scalar => ssm_srs::<Scal<P>, P>(j, o),
            Which::ScalarKeyed => ssm_srs::<ScalKey<P>, P>(j, o),
        },
        Op::Products => products::<P>(j, o),
        Op::Sipp => sipp::<P>(j, o),
        Op::Kzg | Op::Biv | Op::Uni | Op::TransBiv | Op::TransUni => poly::<P>(j, o),
        Op::Groth => groth::<P>(j, o),
        Op::Setup => tipa::<Pair<P>, P>(j, o),
        Op::Powers => powers_op::<P>(j, o),
    }
    out
}

fn run(curve: Curve, j: &Job) -> Vec<(String, String)> {
    match curve {
        Curve::Big => run_on::<Big>(j),
        Curve::Small => run_on::<Small>(j),
        Curve::Bls => run_on::<Bls>(j),
        Curve::Bls377 => run_on::<Bls377>(j),
    }
    .digests()
}

// ---------------------------------------------------------------- the other build

struct Other {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}

impl Drop for Other {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static OTHER: RefCell<Option<Other>> = const { RefCell::new(None) };
}

fn other_build(curve: Curve, j: &Job) -> Vec<(String, String)> {
    OTHER.with(|o| {
        let mut o = o.borrow_mut();
        let o = o.get_or_insert_with(|| {
            let path = std::env::var("VERIF_SERIAL").unwrap_or_else(|_| format!("{}/harness/target-serial/lean/det", std::env::var("VERIF_ROOT").unwrap_or("/verif".into())));
            let mut child = Command::new(&path)
                .arg("serve")
                .stdin(Stdio::piped())
                .stdout(Stdio::piped())
                .spawn()
                .unwrap_or_else(|e| {
                    eprintln!("cannot run {}: {}", path, e);
                    std::process::exit(3)
                });
            let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
            Other { child, to, from }
        });
        let mut line = serde_json::to_string(&(curve, j)).unwrap();
        line.push('\n');
        let mut answer = String::new();
        let ok = o.to.write_all(line.as_bytes()).and_then(|_| o.to.flush()).and_then(|_| o.from.read_line(&mut answer));
        match ok.ok().and_then(|_| serde_json::from_str(&answer).ok()) {
            Some(x) => x,
            None => vec![("the build without the parallel feature".into(), "crashed".into())],
        }
    })
}

fn serve() {
    std::panic::set_hook(Box::new(|_| ()));
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let Ok((curve, j)) = serde_json::from_str::<(Curve, Job)>(&line) else { return };
        let r = std::panic::catch_unwind(|| run(curve, &j)).unwrap_or_else(|_| vec![("run".into(), "panicked".into())]);
        println!("{}", serde_json::to_string(&r).unwrap());
    }
}

// ---------------------------------------------------------------- cases

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    job: Job,
    /// thread counts
    threads: Vec<usize>,
    /// another job, run before and at the same time
    second: Job,
    concurrent: bool,
}

fn which() -> BoxedStrategy<Which> {
    prop_oneof![
        Just(Which::Pairing), Just(Which::Multiexp), Just(Which::MultiexpKeyed), Just(Which::MultiexpG2), Just(Which::Scalar), Just(Which::ScalarKeyed),
    ]
    .boxed()
}

fn base_op() -> BoxedStrategy<Op> {
    prop_oneof![3 => which().prop_map(Op::InnerProduct), 2 => which().prop_map(Op::Commit), 2 => Just(Op::Products), 1 => Just(Op::Powers)].boxed()
}

fn proof_op() -> BoxedStrategy<Op> {
    prop_oneof![
        3 => which().prop_map(Op::Gipa), 2 => which().prop_map(Op::Tipa), 2 => which().prop_map(Op::SsmKey), 2 => which().prop_map(Op::SsmSrs),
        2 => Just(Op::Sipp), 2 => Just(Op::Groth),
    ]
    .boxed()
}

fn poly_op() -> BoxedStrategy<Op> {
    prop_oneof![Just(Op::Kzg), Just(Op::Biv), Just(Op::Uni), Just(Op::TransBiv), Just(Op::TransUni)].boxed()
}

fn job(op: BoxedStrategy<Op>, hi: usize) -> BoxedStrategy<Job> {
    let top = (hi as f64).log2() as u32;
    (op, 0..=top, 1..=hi, (vs(), vs(), vs()), (sc(), sc(), sc_point()), any::<u64>(), 0u8..12)
        .prop_map(|(op, k, n, (a, b, c), s, seed, w)| {
            let free = matches!(op, Op::InnerProduct(_) | Op::Commit(_) | Op::Products | Op::Powers | Op::Kzg | Op::Uni | Op::TransUni | Op::Setup);
            let n = if free { n } else { 1usize << k };
            let n = if op == Op::Sipp { n.max(2) } else { n };
            let wrong = match w {
                0 | 1 => Wrong::Claim((seed % 3) as u8),
                2 => Wrong::Length,
                _ => Wrong::No,
            };
            Job { op, n, a, b, c, s, seed, wrong }
        })
        .boxed()
}

fn case(op: fn() -> BoxedStrategy<Op>, hi: usize) -> impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static {
    move || {
        let t = prop_oneof![3 => 2usize..=16, 1 => Just(7usize), 1 => Just(16usize)];
        (job(op(), hi), prop::collection::vec(t, 1..=3), job(op(), hi.min(16)), prop::bool::weighted(0.3))
            .prop_map(|(job, threads, second, concurrent)| Case { job, threads, second, concurrent })
            .boxed()
    }
}

fn differ(what: &str, a: &[(String, String)], b: &[(String, String)]) -> Result<(), String> {
    if a == b {
        return Ok(());
    }
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    let show = |v: &[(String, String)]| v.get(i).map_or("nothing".to_string(), |(n, d)| format!("{} {}", n, d));
    Err(format!("{}: {} and {}", what, show(a), show(b)))
}

fn check(curve: Curve, c: &Case) -> R {
    let reference = with_threads(1, || run(curve, &c.job));
    ensure!(!reference.is_empty(), "nothing computed");
    // the same again, after something else
    let _ = with_threads(1, || run(curve, &c.second));
    differ("a second run gives something else", &reference, &with_threads(1, || run(curve, &c.job)))?;
    for t in &c.threads {
        differ(&format!("{} threads give something else than one", t), &reference, &with_threads(*t, || run(curve, &c.job)))?;
    }
    if c.concurrent {
        let t = c.threads[0];
        let (x, y) = with_threads(t.max(2), || rayon::join(|| run(curve, &c.job), || run(curve, &c.second)));
        differ("run at the same time as another operation", &reference, &x)?;
        let alone = with_threads(1, || run(curve, &c.second));
        differ("run at the same time as another operation", &alone, &y)?;
    }
    differ("the build without the parallel feature gives something else", &reference, &other_build(curve, &c.job))?;
    let op = format!("{:?}", c.job.op);
    Ok(pass(c.job.n > 1).class(op.split('(').next().unwrap().to_string()).class(match c.job.wrong {
        Wrong::No => "honest",
        Wrong::Claim(_) => "wrong claim",
        Wrong::Length => "unequal lengths",
    }))
}

fn c20() -> Vec<Scenario> {
    let s = |name: &str, q, t, curve, op, hi| Scenario::new(name, q, t, case(op, hi), move |c: &Case| check(curve, c));
    vec![
        s("basic", 700, 40_000, Curve::Big, base_op, 64),
        s("basic/large", 200, 4000, Curve::Big, base_op, 700),
        s("basic/small-order", 300, 8000, Curve::Small, base_op, 100),
        s("basic/bls12-381", 48, 1500, Curve::Bls, base_op, 40),
        s("basic/bls12-377", 12, 400, Curve::Bls377, base_op, 40),
        s("proofs", 420, 30_000, Curve::Big, proof_op, 32),
        s("proofs/large", 40, 1000, Curve::Big, proof_op, 256),
        s("proofs/bls12-381", 24, 800, Curve::Bls, proof_op, 8),
        s("proofs/bls12-377", 8, 200, Curve::Bls377, proof_op, 8),
        s("polynomials", 240, 16_000, Curve::Big, poly_op, 64),
        s("polynomials/large", 40, 800, Curve::Big, poly_op, 1000),
        s("polynomials/bls12-381", 16, 300, Curve::Bls, poly_op, 16),
    ]
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("serve") {
        return serve();
    }
    ripp_check::fw::main(&[Property {
        id: "C20",
        rule: "more than one element, run with one thread, again, with other numbers of threads and in the serial build",
        assumptions: &["arkworks' own parallel algorithms are deterministic", "digests of 96 bits stand for the values"],
        scenarios: c20,
    }]);
}
