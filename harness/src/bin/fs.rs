//! C19: Fiat-Shamir challenges.
use ark_ff::{Field, One, Zero};
use ark_groth16::Proof as GrothProof;
use ark_ip_proofs::applications::groth16_aggregation::{aggregate_proofs, verify_aggregate_proof, AggregateProof};
use ark_ip_proofs::applications::poly_commit as pc;
use ark_ip_proofs::applications::poly_commit::transparent as tpc;
use ark_serialize::CanonicalSerialize;
use ark_sipp::{product_of_pairings_with_coeffs, Proof as SippProof, SIPP};
use digest::{generic_array::typenum::U32, Digest};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::el3;
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::poly::*;
use ripp_check::srs::*;
use ripp_check::st::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

type Sf<P> = <P as ark_ec::pairing::Pairing>::ScalarField;

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

/// Different outputs of the hash function while f ran
fn outs<T>(f: impl FnOnce() -> T) -> (T, HashSet<Vec<u8>>) {
    let (t, _, o) = record(f);
    (t, o.into_iter().collect())
}

/// The hash outputs of prover and verifier, which have to be the same and at least `least` many
fn agree(prover: &HashSet<Vec<u8>>, verifier: &HashSet<Vec<u8>>, least: usize) -> Result<(), String> {
    ensure!(prover == verifier, "prover and verifier derive different challenges ({} and {} hash outputs)", prover.len(), verifier.len());
    ensure!(verifier.len() >= least, "{} different challenges, {} expected", verifier.len(), least);
    Ok(())
}

/// How many hash outputs of a verification are left after a change, `challenges` being derived in
/// the first one: some outputs may be unusable and have been replaced by others
fn left(what: &str, challenges: usize, before: &HashSet<Vec<u8>>, after: &HashSet<Vec<u8>>, most: usize) -> Result<(), String> {
    let n = before.intersection(after).count();
    let most = if most == 0 { 0 } else { most + before.len().saturating_sub(challenges) };
    ensure!(n <= most, "{} changed, but {} of {} challenges are still the same ({} at most may be)", what, n, before.len(), most);
    Ok(())
}

fn bytes<T: CanonicalSerialize>(x: &T) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_uncompressed(&mut v).unwrap();
    v
}

/// What is changed
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Part {
    /// one of the commitments (or the structured scalar) of the statement
    Com(u8),
    /// two of them exchanged, or two messages of a round
    Swap(At, u8),
    Step(At),
    /// one of the commitments of the statement (true) or a message of a round, with the other sign
    Neg(At, bool),
    Drop,
    FinalKey(bool),
    /// an additional component of a commitment of a product in the clear
    Component(At, bool),
}

fn part() -> BoxedStrategy<Part> {
    prop_oneof![
        4 => (0u8..3).prop_map(Part::Com),
        2 => (at(), 0u8..4).prop_map(|(a, k)| Part::Swap(a, k)),
        5 => at().prop_map(Part::Step),
        2 => (at(), any::<bool>()).prop_map(|(a, c)| Part::Neg(a, c)),
        1 => Just(Part::Drop),
        2 => any::<bool>().prop_map(Part::FinalKey),
        1 => (at(), any::<bool>()).prop_map(|(a, s)| Part::Component(a, s)),
    ]
    .boxed()
}

fn name(p: &Part) -> String {
    format!("{:?}", p).split(['(', ' ']).next().unwrap().to_string()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    st: St,
    /// secrets of the setup and scalar of the structured message or shift
    s: (Sc, Sc, Sc),
    part: Part,
    delta: Sc,
}

fn case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Case> + Send + Sync + 'static {
    move || {
        let sts = prop_oneof![3 => st_rand(lo, hi), 1 => st(lo, hi)];
        (sts, (sc_rand(), sc_rand(), prop_oneof![3 => sc_rand(), 1 => sc()]), part(), delta())
            .prop_map(|(st, s, part, delta)| Case { st, s, part, delta })
            .boxed()
    }
}

type Msg<I> = (<I as Inst>::LO, <I as Inst>::RO, <I as Inst>::TO);

fn add<I: Inst>(m: &mut Msg<I>, slot: usize, d: &I::S) {
    match slot {
        0 => m.0 = m.0.clone() + I::lo(d),
        1 => m.1 = m.1.clone() + I::ro(d),
        _ => m.2 = m.2.clone() + I::to(d),
    }
}

fn swap<I: Inst>(a: &mut Msg<I>, b: &mut Msg<I>, slot: u8) -> bool {
    let before = (a.clone(), b.clone());
    match slot {
        0 => std::mem::swap(&mut a.0, &mut b.0),
        1 => std::mem::swap(&mut a.1, &mut b.1),
        2 => std::mem::swap(&mut a.2, &mut b.2),
        _ => std::mem::swap(a, b),
    }
    before != (a.clone(), b.clone())
}

fn neg<I: Inst>(m: &mut Msg<I>, slot: usize) -> bool {
    let before = m.clone();
    let minus = -I::S::one();
    match slot {
        0 => m.0 *= minus,
        1 => m.1 *= minus,
        _ => m.2 *= minus,
    }
    before != *m
}

/// Change statement and round messages; gives the first round whose challenge has to change
fn alter<I: Inst>(part: &Part, com: &mut Msg<I>, steps: &mut Vec<(Msg<I>, Msg<I>)>, d: &I::S) -> Option<usize> {
    // steps are stored last round first
    let k = steps.len();
    match part {
        Part::Com(i) => {
            add::<I>(com, *i as usize, d);
            Some(0)
        }
        Part::Swap(at, slot) => {
            if k == 0 { return None; }
            let i = at.round(k);
            let s = &mut steps[k - 1 - i];
            let changed = if at.slot() == 0 {
                swap::<I>(&mut s.0, &mut s.1, *slot)
            } else {
                let other = if at.side { &mut s.0 } else { &mut s.1 };
                swap::<I>(com, other, *slot)
            };
            if !changed { return None; }
            Some(if at.slot() == 0 { i } else { 0 })
        }
        Part::Step(at) => {
            if k == 0 { return None; }
            let i = at.round(k);
            let s = &mut steps[k - 1 - i];
            add::<I>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), d);
            Some(i)
        }
        Part::Neg(at, true) => neg::<I>(com, at.slot()).then_some(0),
        Part::Neg(at, false) => {
            if k == 0 { return None; }
            let i = at.round(k);
            let s = &mut steps[k - 1 - i];
            neg::<I>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot()).then_some(i)
        }
        Part::Drop => {
            if k == 0 { return None; }
            steps.remove(0);
            Some(k - 1)
        }
        Part::FinalKey(_) | Part::Component(..) => None,
    }
}

// ---------------------------------------------------------------- GIPA

fn gipa<I: Inst, D: Digest + 'static>(c: &Case) -> R {
    let d = c.st.dl::<I>();
    let k = c.st.k as usize;
    let com = el3::<I>(&d.com);
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (r, p) = outs(|| attempt(|| Gp::<I, D>::prove_with_aux((&a, &b), (&ka, &kb, &[kt.clone()]))));
    let (proof, aux) = r?;
    let (ch, fin) = aux.verif_into_parts();
    let (r, v) = outs(|| verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), &proof)));
    ensure!(r == V::True, "honest proof: {:?}", r);
    agree(&p, &v, k)?;
    let (p2, _) = outs(|| attempt(|| Gp::<I, D>::prove((&a, &b, &I::tm(&d.t())), (&ka, &kb, &kt), (&com.0, &com.1, &com.2))));
    ensure!(bytes(&p2?) == bytes(&proof), "prove and prove_with_aux give different proofs");
    let tr = |com: &Msg<I>, p: &GpProof<I, D>| attempt(|| Gp::<I, D>::verify_recursive_challenge_transcript((&com.0, &com.1, &com.2), p));
    let (_, t) = tr(&com, &proof)?;
    ensure!(t == ch, "prover and verifier have different challenges");
    ensure!(t.len() == k, "{} challenges for 2^{} elements", t.len(), k);
    let all: HashSet<I::S> = t.iter().copied().collect();
    ensure!(all.len() == k && !all.contains(&I::S::zero()) && !all.contains(&I::S::one()), "challenges repeat, or are zero or one");
    // the challenges are those that the vectors are folded with
    let rounds: Vec<I::S> = t.iter().rev().copied().collect();
    let inverse = invs(&rounds);
    ensure!(fin == (I::lk(&fold(&d.ka, &inverse)), I::rk(&fold(&d.kb, &rounds))), "final keys are not folded with the challenges");
    let (mut steps, base) = proof.verif_into_parts();
    let fa = d.a.clone();
    // the left message is folded from its second half
    let left_base = { let mut v = fa; for c in &rounds { let h = v.len() / 2; v = (0..h).map(|i| v[i] + v[h + i] * c).collect(); } v[0] };
    ensure!(base.0 == I::lm(&left_base) && base.1 == I::rm(&fold(&d.b, &inverse)), "final messages are not folded with the challenges");
    let mut com2 = com.clone();
    let Some(i) = alter::<I>(&c.part, &mut com2, &mut steps, &c.delta.nz()) else { return skip("not applicable") };
    if k == 0 { return skip("no round"); }
    let q = GpProof::<I, D>::verif_from_parts(steps, base);
    let (_, t2) = tr(&com2, &q)?;
    let (one, two): (Vec<_>, Vec<_>) = (t.iter().rev().collect(), t2.iter().rev().collect());
    ensure!(one[..i.min(k)] == two[..i.min(k)], "{:?} changes challenges of earlier rounds", c.part);
    for x in &two[i.min(two.len())..] {
        ensure!(!one.contains(x), "{:?}: a challenge of round {} or later is still the same ({} rounds)", c.part, i, k);
    }
    Ok(pass(true).class(name(&c.part)).class(nclass(d.n())))
}

/// IdentityOutput with an additional component: part of the message, so it changes the challenges
fn components(c: &Case) -> R {
    type I = Pair<Big>;
    let d = c.st.dl::<I>();
    let com = el3::<I>(&d.com);
    let k = c.st.k as usize;
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (proof, _) = attempt(|| Gp::<I, Rec64>::prove_with_aux((&a, &b), (&ka, &kb, &[kt.clone()])))?;
    let (mut steps, base) = proof.clone().verif_into_parts();
    if k == 0 { return skip("no round"); }
    let at = match &c.part { Part::Step(a) | Part::Component(a, _) | Part::Swap(a, _) => a.clone(), _ => At { round: 0, side: true, slot: 2, both: None } };
    let mut com2 = com.clone();
    let x = Big::gt(&c.delta.nz());
    let i = at.round(k);
    let s = &mut steps[k - 1 - i];
    let mut first = i;
    match &c.part {
        Part::Component(_, true) | Part::Com(_) => {
            com2.2 .0.push(x);
            first = 0;
        }
        Part::Swap(..) => {
            // move a component from one message of the round to the other
            let y = s.0 .2 .0.pop().unwrap();
            s.1 .2 .0.insert(0, y);
        }
        Part::Drop => {
            s.0 .2 .0.clear();
        }
        Part::FinalKey(_) => {
            let y = s.0 .2 .0.pop().unwrap();
            com2.2 .0.push(y);
            first = 0;
        }
        _ => s.1 .2 .0.push(x),
    }
    let q = GpProof::<I, Rec64>::verif_from_parts(steps, base);
    let t = attempt(|| Gp::<I, Rec64>::verify_recursive_challenge_transcript((&com.0, &com.1, &com.2), &proof))?.1;
    let r = attempt(|| Gp::<I, Rec64>::verify_recursive_challenge_transcript((&com2.0, &com2.1, &com2.2), &q));
    let Ok((_, t2)) = r else { return skip("refused") };
    let (one, two): (Vec<_>, Vec<_>) = (t.iter().rev().collect(), t2.iter().rev().collect());
    for x in &two[first.min(two.len())..] {
        ensure!(!one.contains(x), "components moved or added: a challenge of round {} or later is still the same", first);
    }
    Ok(pass(true).class(name(&c.part)))
}

// ---------------------------------------------------------------- TIPA and structured scalars

/// The point of the key opening is the output of a hash, not a value known before
fn opened_at<P: CurveEx>(what: &str, ck: &P::G2, pi: &P::G2, beta: &Sf<P>, key: &dyn Fn(&Sf<P>) -> Sf<P>, known: &[Sf<P>]) -> Result<(), String> {
    let f = |x: u64| Sf::<P>::from(x);
    for z in [f(0), f(1), -f(1), f(2), f(3)].iter().chain(known) {
        ensure!(*pi * (*beta - z) != *ck - P::g2(&key(z)), "{}: the key is opened at a point that was known before", what);
    }
    Ok(())
}

fn tipa<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Case) -> R {
    let n = c.st.n();
    let k = c.st.k as usize;
    let s = SrsDl { n, alpha: c.s.0.nz(), beta: c.s.1.nz::<I::S>() };
    let shift: I::S = c.s.2.nz();
    let d = Dl::new::<I>(c.st.a.f(n), c.st.b.f(n), s.ka(&shift), s.kb(), c.st.kt.nz());
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let com = el3::<I>(&d.com);
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (r, p) = outs(|| attempt(|| Tp::<I, P, D>::prove_with_srs_shift(&srs, (&a, &b), (&ka, &kb, &kt), &shift)));
    let proof = r?;
    let ver = |com: &Msg<I>, p: &TpProof<I, P, D>| outs(|| verdict(|| Tp::<I, P, D>::verify_with_srs_shift(&vk, &kt, (&com.0, &com.1, &com.2), p, &shift)));
    let (r, v) = ver(&com, &proof);
    ensure!(r == V::True, "honest proof: {:?}", r);
    agree(&p, &v, k + 1)?;
    let (g, ck, pi) = proof.verif_into_parts();
    let (_, t) = attempt(|| Gp::<I, D>::verify_recursive_challenge_transcript((&com.0, &com.1, &com.2), &g))?;
    let rounds: Vec<I::S> = t.iter().rev().copied().collect();
    if k > 0 {
        let known: Vec<I::S> = rounds.iter().copied().chain(invs(&rounds)).collect();
        let key = |z: &I::S| fold(&key_polys(n, z, &inv(&shift)), &invs(&rounds));
        opened_at::<P>("left", &ck.0, &pi.0, &s.beta, &key, &known)?;
    }
    let (mut steps, base) = g.verif_into_parts();
    let (mut com2, mut ck2) = (com.clone(), ck);
    let dl: I::S = c.delta.nz();
    let most = match &c.part {
        Part::FinalKey(left) => {
            if *left { ck2.0 += P::g2(&dl) } else { ck2.1 += P::g1(&dl) }
            k
        }
        p => match alter::<I>(p, &mut com2, &mut steps, &dl) {
            Some(i) if k > 0 => i,
            _ => return skip("not applicable"),
        },
    };
    let q = TpProof::<I, P, D>::verif_from_parts(GpProof::<I, D>::verif_from_parts(steps, base), ck2, pi);
    let (_, w) = ver(&com2, &q);
    left(&format!("{:?}", c.part), k + 1, &v, &w, most)?;
    Ok(pass(true).class(name(&c.part)).class(nclass(n)))
}

fn ssm_key<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Case) -> R {
    let n = c.st.n();
    let k = c.st.k as usize;
    let b: I::S = c.s.2.f();
    let d = Dl::new::<I>(c.st.a.f(n), powers(n, b), c.st.ka.f(n), vec![I::S::zero(); n], c.st.kt.nz());
    let (ma, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let com: Msg<Ssm<I>> = (I::lo(&d.com[0]), b, I::to(&d.com[2]));
    let (r, p) = outs(|| attempt(|| Gs::<I, D>::prove_with_structured_scalar_message((&ma, &d.b), (&ka, &kt))));
    let proof = r?;
    type Pr<I, D> = GpProof<Ssm<I>, D>;
    let ver = |com: &Msg<Ssm<I>>, p: &Pr<I, D>| {
        outs(|| verdict(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&com.0, &com.2), &com.1, p)))
    };
    let (r, v) = ver(&com, &proof);
    ensure!(r == V::True, "honest proof: {:?}", r);
    agree(&p, &v, k)?;
    let (mut steps, base) = proof.verif_into_parts();
    let mut com2 = com;
    let Some(i) = alter::<Ssm<I>>(&c.part, &mut com2, &mut steps, &c.delta.nz()) else { return skip("not applicable") };
    if k == 0 { return skip("no round"); }
    let (_, w) = ver(&com2, &Pr::<I, D>::verif_from_parts(steps, base));
    left(&format!("{:?}", c.part), k, &v, &w, i)?;
    Ok(pass(true).class(name(&c.part)).class(nclass(n)))
}

fn ssm_srs<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Case) -> R {
    let n = c.st.n();
    let k = c.st.k as usize;
    let b: I::S = c.s.2.f();
    let one = I::S::one();
    let s = SrsDl { n, alpha: c.s.0.nz(), beta: c.s.1.nz::<I::S>() };
    let d = Dl::new::<I>(c.st.a.f(n), powers(n, b), s.ka(&one), vec![I::S::zero(); n], c.st.kt.nz());
    let (ma, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let com: Msg<Ssm<I>> = (I::lo(&d.com[0]), b, I::to(&d.com[2]));
    let (r, p) = outs(|| attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&srs, (&ma, &d.b), (&ka, &kt))));
    let proof = r?;
    let ver = |com: &Msg<Ssm<I>>, p: &TsProof<I, P, D>| {
        outs(|| verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &kt, (&com.0, &com.2), &com.1, p)))
    };
    let (r, v) = ver(&com, &proof);
    ensure!(r == V::True, "honest proof: {:?}", r);
    agree(&p, &v, k + 1)?;
    let (g, ck, pi) = proof.verif_into_parts();
    let (_, t) = attempt(|| Gp::<Ssm<I>, D>::verify_recursive_challenge_transcript((&com.0, &com.1, &com.2), &g))?;
    let rounds: Vec<I::S> = t.iter().rev().copied().collect();
    if k > 0 {
        let known: Vec<I::S> = rounds.iter().copied().chain(invs(&rounds)).chain([b]).collect();
        let key = |z: &I::S| fold(&key_polys(n, z, &one), &invs(&rounds));
        opened_at::<P>("key", &ck, &pi, &s.beta, &key, &known)?;
    }
    let (mut steps, base) = g.verif_into_parts();
    let (mut com2, mut ck2) = (com.clone(), ck);
    let dl: I::S = c.delta.nz();
    let most = match &c.part {
        Part::FinalKey(_) => {
            ck2 += P::g2(&dl);
            k
        }
        p => match alter::<Ssm<I>>(p, &mut com2, &mut steps, &dl) {
            Some(i) if k > 0 => i,
            _ => return skip("not applicable"),
        },
    };
    let q = TsProof::<I, P, D>::verif_from_parts(GpProof::<Ssm<I>, D>::verif_from_parts(steps, base), ck2, pi);
    let (_, w) = ver(&com2, &q);
    left(&format!("{:?}", c.part), k + 1, &v, &w, most)?;
    Ok(pass(true).class(name(&c.part)).class(nclass(n)))
}

// ---------------------------------------------------------------- Groth16 aggregation

#[derive(Clone, Debug, Serialize, Deserialize)]
enum AggPart {
    /// one of the commitments of the aggregate
    Com(u8),
    IpAb,
    AggC,
    /// a commitment, the pairing product or the combination, with the other sign
    Neg(u8),
    StepAb(At),
    StepC(At),
    KeyAb(bool),
    KeyC,
    /// one element of one of the aggregated proofs
    Element(u16, u8),
    Swap(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Agg {
    k: u32,
    seed: u64,
    s: (Sc, Sc),
    part: AggPart,
    delta: Sc,
}

fn agg_case(hi: u32) -> impl Fn() -> BoxedStrategy<Agg> + Send + Sync + 'static {
    move || {
        let part = prop_oneof![
            3 => (0u8..3).prop_map(AggPart::Com),
            1 => Just(AggPart::IpAb),
            1 => Just(AggPart::AggC),
            1 => (0u8..5).prop_map(AggPart::Neg),
            2 => at().prop_map(AggPart::StepAb),
            2 => at().prop_map(AggPart::StepC),
            1 => any::<bool>().prop_map(AggPart::KeyAb),
            1 => Just(AggPart::KeyC),
            3 => (any::<u16>(), 0u8..3).prop_map(|(i, j)| AggPart::Element(i, j)),
            1 => (any::<u16>(), any::<u16>()).prop_map(|(i, j)| AggPart::Swap(i, j)),
        ];
        (logn(1, hi), any::<u64>(), (sc_rand(), sc_rand()), part, delta())
            .prop_map(|(k, seed, s, part, delta)| Agg { k, seed, s, part, delta })
            .boxed()
    }
}

fn gproofs<P: CurveEx>(p: &[[Sf<P>; 3]]) -> Vec<GrothProof<P>> {
    let col = |i: usize| p.iter().map(|p| p[i]).collect::<Vec<_>>();
    let (a, b, c) = (P::g1a(&col(0)), P::g2a(&col(1)), P::g1a(&col(2)));
    (0..p.len()).map(|i| GrothProof { a: a[i], b: b[i], c: c[i] }).collect()
}

fn groth<P: CurveEx, D: Digest + 'static>(c: &Agg) -> R {
    let n = 1usize << c.k;
    let k = c.k as usize;
    let mut g = rng(c.seed);
    let mut f = || <Sf<P> as ark_ff::UniformRand>::rand(&mut g);
    // proofs valid for a key without inputs; only the first two third elements are not zero, so
    // that the combiner shows
    let (al, be, ga, de, ic) = (f(), f(), f(), f(), f());
    let cs: Vec<Sf<P>> = (0..n).map(|i| if i < 2 { f() } else { Sf::<P>::zero() }).collect();
    let mut p: Vec<[Sf<P>; 3]> = cs.iter().map(|c| {
        let b = f();
        [(al * be + ic * ga + *c * de) * inv(&b), b, *c]
    }).collect();
    let (g1, g2) = (P::g1a(&[al, ic]), P::g2a(&[be, ga, de]));
    let key = ark_groth16::VerifyingKey::<P> { alpha_g1: g1[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: vec![g1[1]] };
    let s = SrsDl { n, alpha: c.s.0.nz(), beta: c.s.1.nz::<Sf<P>>() };
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let inputs = vec![vec![]; n];
    let prove = |p: &[[Sf<P>; 3]]| outs(|| attempt(|| aggregate_proofs::<P, D>(&srs, &gproofs::<P>(p))));
    let ver = |a: &AggregateProof<P, D>| outs(|| verdict(|| verify_aggregate_proof::<P, D>(&vk, &key, &inputs, a)));
    let (agg, po) = prove(&p);
    let agg = agg?;
    let (r, v) = ver(&agg);
    ensure!(r == V::True, "honest aggregate: {:?}", r);
    agree(&po, &v, 2 * (k + 1) + 1)?;
    let (mut coms, mut ip, mut ac, ab, cc) = agg.verif_into_parts();
    for r in [0u64, 1, 2, 3].map(Sf::<P>::from).into_iter().chain([-Sf::<P>::one()]) {
        ensure!(ac != P::g1(&(p[0][2] + r * p[1][2])), "the combiner is a constant: {}", r);
    }
    let (gab, mut ckab, piab) = ab.verif_into_parts();
    let (gc, mut ckc, pic) = cc.verif_into_parts();
    let (mut sab, bab) = gab.verif_into_parts();
    let (mut sc, bc) = gc.verif_into_parts();
    let dl: Sf<P> = c.delta.nz();
    let most = match &c.part {
        AggPart::Com(i) => {
            let x = match i { 0 => &mut coms.0, 1 => &mut coms.1, _ => &mut coms.2 };
            *x = *x + P::gt(&dl);
            // the argument for the first two commitments has its own challenges
            if *i == 2 { k + 1 } else { 0 }
        }
        AggPart::IpAb => {
            ip = ip + P::gt(&dl);
            k + 2
        }
        AggPart::AggC => {
            ac += P::g1(&dl);
            k + 2
        }
        AggPart::Neg(4) => {
            if ac == -ac { return skip("nothing changed"); }
            ac = -ac;
            k + 2
        }
        AggPart::Neg(i) => {
            let x = match i { 0 => &mut coms.0, 1 => &mut coms.1, 2 => &mut coms.2, _ => &mut ip };
            if *x == -*x { return skip("nothing changed"); }
            *x = -*x;
            match i { 3 => k + 2, 2 => k + 1, _ => 0 }
        }
        AggPart::StepAb(at) => {
            let i = at.round(k);
            let s = &mut sab[k - 1 - i];
            add::<Pair<P>>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), &dl);
            k + 2 + i
        }
        AggPart::StepC(at) => {
            let i = at.round(k);
            let s = &mut sc[k - 1 - i];
            add::<Ssm<Msm<P>>>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), &dl);
            k + 2 + i
        }
        AggPart::KeyAb(left) => {
            if *left { ckab.0 += P::g2(&dl) } else { ckab.1 += P::g1(&dl) }
            2 * k + 2
        }
        AggPart::KeyC => {
            ckc += P::g2(&dl);
            2 * k + 2
        }
        AggPart::Element(..) | AggPart::Swap(..) => {
            match &c.part {
                AggPart::Element(i, j) => p[*i as usize % n][*j as usize % 3] += dl,
                AggPart::Swap(i, j) => {
                    let (i, j) = (*i as usize % n, *j as usize % n);
                    if i == j { return skip("same position"); }
                    p.swap(i, j);
                }
                _ => unreachable!(),
            }
            let (other, w) = prove(&p);
            let other = other?;
            left(&format!("{:?}", c.part), 2 * (k + 1) + 1, &po, &w, 0)?;
            let _ = other;
            return Ok(pass(true).class(format!("{:?}", c.part).split('(').next().unwrap().to_string()));
        }
    };
    let q = AggregateProof::verif_from_parts(
        coms, ip, ac,
        TpProof::<Pair<P>, P, D>::verif_from_parts(GpProof::<Pair<P>, D>::verif_from_parts(sab, bab), ckab, piab),
        TsProof::<Msm<P>, P, D>::verif_from_parts(GpProof::<Ssm<Msm<P>>, D>::verif_from_parts(sc, bc), ckc, pic),
    );
    let (_, w) = ver(&q);
    left(&format!("{:?}", c.part), 2 * (k + 1) + 1, &v, &w, most)?;
    Ok(pass(true).class(format!("{:?}", c.part).split('(').next().unwrap().to_string()).class(nclass(n)))
}

/// Hash outputs that cannot be used: the combiner is neither zero nor one nor any other constant,
/// and prover and verifier take the same.
fn groth_retry<P: CurveEx, D: Digest + 'static>(c: &Agg) -> R {
    let n = 1usize << c.k;
    let mut g = rng(c.seed);
    let mut f = || <Sf<P> as ark_ff::UniformRand>::rand(&mut g);
    let (al, be, ga, de, ic) = (f(), f(), f(), f(), f());
    let mut p: Vec<[Sf<P>; 3]> = (0..n).map(|i| {
        let (b, c) = (f(), if i < 2 { f() } else { Sf::<P>::zero() });
        [(al * be + ic * ga + c * de) * inv(&b), b, c]
    }).collect();
    let (g1, g2) = (P::g1a(&[al, ic]), P::g2a(&[be, ga, de]));
    let key = ark_groth16::VerifyingKey::<P> { alpha_g1: g1[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: vec![g1[1]] };
    let s = SrsDl { n, alpha: c.s.0.nz(), beta: c.s.1.nz::<Sf<P>>() };
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let mut aggs = vec![];
    for round in 0..2 {
        if round == 1 {
            // multiply a third element and choose a first element that fits
            p[0][2] += c.delta.nz::<Sf<P>>();
            p[0][0] = (al * be + ic * ga + p[0][2] * de) * inv(&p[0][1]);
        }
        let agg = attempt(|| aggregate_proofs::<P, D>(&srs, &gproofs::<P>(&p)))?;
        let r = verdict(|| verify_aggregate_proof::<P, D>(&vk, &key, &vec![vec![]; n], &agg));
        ensure!(r == V::True, "honest aggregate: {:?}", r);
        let (_, _, ac, _, _) = agg.verif_into_parts();
        for r in [0u64, 1, 2, 3].map(Sf::<P>::from).into_iter().chain([-Sf::<P>::one()]) {
            ensure!(ac != P::g1(&(p[0][2] + r * p[1][2])), "the combiner is a constant: {}", r);
        }
        // r * p1 = ac - p0
        aggs.push(ac - P::g1(&p[0][2]));
    }
    ensure!(aggs[0] != aggs[1], "the combiner is the same for two statements");
    Ok(pass(true).class(nclass(n)))
}

// ---------------------------------------------------------------- polynomial commitments

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PcPart {
    Com,
    X,
    Y,
    Value,
    YEval,
    Step(At),
    Step1(At),
    Key,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pc {
    k: u32,
    len: usize,
    biv: Biv,
    x: Sc,
    y: Sc,
    seed: u64,
    part: PcPart,
    delta: Sc,
}

fn pc_case(hi: u32, len: usize) -> impl Fn() -> BoxedStrategy<Pc> + Send + Sync + 'static {
    move || {
        let part = prop_oneof![
            Just(PcPart::Com), Just(PcPart::X), Just(PcPart::Y), Just(PcPart::Value), Just(PcPart::YEval), Just(PcPart::Key),
            at().prop_map(PcPart::Step), at().prop_map(PcPart::Step1),
        ];
        (logn(1, hi), 1..=len, biv(), sc_point(), sc_point(), any::<u64>(), part, delta())
            .prop_map(|(k, len, biv, x, y, seed, part, delta)| Pc { k, len, biv, x, y, seed, part, delta })
            .boxed()
    }
}

fn pc_srs<P: CurveEx, D: Digest + 'static>(c: &Pc) -> R {
    use pc::*;
    type Bpc<P, D> = BivariatePolynomialCommitment<P, D>;
    let (k, rows) = (c.k as usize, 1usize << c.k);
    let srs = attempt(|| Bpc::<P, D>::setup(&mut rng(c.seed), rows - 1, c.len - 1))?;
    let vk = srs.0.get_verifier_key();
    let (mut x, mut y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let p = c.biv.f::<Sf<P>>(rows, c.len);
    let mut val = eval2(&p, &x, &y);
    let poly = BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
    let (mut com, row_coms) = attempt(|| Bpc::<P, D>::commit(&srs, &poly))?;
    let (proof, po) = outs(|| attempt(|| Bpc::<P, D>::open(&srs, &poly, &row_coms, &(x, y))));
    let proof = proof?;
    let (r, v) = outs(|| verdict(|| Bpc::<P, D>::verify(&vk, &com, &(x, y), &val, &proof)));
    ensure!(r == V::True, "honest opening: {:?}", r);
    agree(&po, &v, k + 1)?;
    let (ip, mut ye, kz) = proof.verif_into_parts();
    let (g, mut ck, pi) = ip.verif_into_parts();
    let (mut steps, base) = g.verif_into_parts();
    let dl: Sf<P> = c.delta.nz();
    let most = match &c.part {
        PcPart::Com => { com = com + P::gt(&dl); 0 }
        PcPart::X => { x += dl; 0 }
        PcPart::YEval => { ye += P::g1(&dl); 0 }
        // not part of the argument's statement: checked directly
        PcPart::Y => { y += dl; return skip("no challenge after it"); }
        PcPart::Value => { val += dl; return skip("no challenge after it"); }
        PcPart::Step(at) | PcPart::Step1(at) => {
            let i = at.round(k);
            let s = &mut steps[k - 1 - i];
            add::<Ssm<Msm<P>>>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), &dl);
            i
        }
        PcPart::Key => { ck += P::g2(&dl); k }
    };
    let q = OpeningProof::verif_from_parts(TsProof::<Msm<P>, P, D>::verif_from_parts(GpProof::<Ssm<Msm<P>>, D>::verif_from_parts(steps, base), ck, pi), ye, kz);
    let (_, w) = outs(|| verdict(|| Bpc::<P, D>::verify(&vk, &com, &(x, y), &val, &q)));
    left(&format!("{:?}", c.part), k + 1, &v, &w, most)?;
    Ok(pass(true).class(format!("{:?}", c.part).split('(').next().unwrap().to_string()))
}

fn pc_trans<P: CurveEx, D: Digest + 'static>(c: &Pc) -> R {
    use tpc::*;
    type Bpc<P, D> = BivariatePolynomialCommitment<P, D>;
    let (k, rows) = (c.k as usize, 1usize << c.k);
    let len = c.len.next_power_of_two();
    let k1 = len.trailing_zeros() as usize;
    let keys = attempt(|| Bpc::<P, D>::setup(&mut rng(c.seed), rows - 1, len - 1))?;
    let (mut x, mut y): (Sf<P>, Sf<P>) = (c.x.f(), c.y.f());
    let p = c.biv.f::<Sf<P>>(rows, len);
    let mut val = eval2(&p, &x, &y);
    let poly = BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
    let (mut com, row_coms) = attempt(|| Bpc::<P, D>::commit(&keys, &poly))?;
    let (proof, po) = outs(|| attempt(|| Bpc::<P, D>::open(&keys, &poly, &row_coms, &(x, y))));
    let proof = proof?;
    let (r, v) = outs(|| verdict(|| Bpc::<P, D>::verify(&keys, &com, &(x, y), &val, &proof)));
    ensure!(r == V::True, "honest opening: {:?}", r);
    agree(&po, &v, k + k1)?;
    let (g2, mut ye, g1) = proof.verif_into_parts();
    let (mut s2, b2) = g2.verif_into_parts();
    let (mut s1, b1) = g1.verif_into_parts();
    let dl: Sf<P> = c.delta.nz();
    let most = match &c.part {
        PcPart::Com => { com = com + P::gt(&dl); k1 }
        PcPart::X => { x += dl; k1 }
        PcPart::YEval => { ye += P::g1(&dl); 0 }
        PcPart::Y => { y += dl; k }
        PcPart::Value => { val += dl; k }
        PcPart::Step(at) => {
            let i = at.round(k);
            let s = &mut s2[k - 1 - i];
            add::<Ssm<Msm<P>>>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), &dl);
            k1 + i
        }
        PcPart::Step1(_) if k1 == 0 => return skip("no round"),
        PcPart::Step1(at) => {
            let i = at.round(k1);
            let s = &mut s1[k1 - 1 - i];
            add::<Ssm<ScalG1<P>>>(if at.side { &mut s.0 } else { &mut s.1 }, at.slot(), &dl);
            k + i
        }
        PcPart::Key => return skip("no key opening"),
    };
    let q = OpeningProof::verif_from_parts(GpProof::<Ssm<Msm<P>>, D>::verif_from_parts(s2, b2), ye, GpProof::<Ssm<ScalG1<P>>, D>::verif_from_parts(s1, b1));
    let (_, w) = outs(|| verdict(|| Bpc::<P, D>::verify(&keys, &com, &(x, y), &val, &q)));
    left(&format!("{:?}", c.part), k + k1, &v, &w, most)?;
    Ok(pass(true).class(format!("{:?}", c.part).split('(').next().unwrap().to_string()))
}

/// Univariate: the point is split in two
fn pc_uni<P: CurveEx, D: Digest + 'static>(c: &Pc) -> R {
    let degree = (c.len << c.k) - 1;
    let z: Sf<P> = c.x.f();
    let p: Vec<Sf<P>> = c.biv.coeffs.f(degree + 1);
    let val = eval(&p, &z);
    let poly = dense(&p);
    let dl: Sf<P> = c.delta.nz();
    let one = Sf::<P>::one();
    {
        type U<P, D> = pc::UnivariatePolynomialCommitment<P, D>;
        let srs = attempt(|| U::<P, D>::setup(&mut rng(c.seed), degree))?;
        let vk = srs.0.get_verifier_key();
        let (com, rows) = attempt(|| U::<P, D>::commit(&srs, &poly))?;
        let (proof, po) = outs(|| attempt(|| U::<P, D>::open(&srs, &poly, &rows, &z)));
        let proof = proof?;
        let ver = |com: &_, z: &Sf<P>| outs(|| verdict(|| U::<P, D>::verify(&vk, degree, com, z, &val, &proof)));
        let (r, v) = ver(&com, &z);
        ensure!(r == V::True, "honest opening: {:?}", r);
        agree(&po, &v, 1)?;
        if srs.0.h_beta_powers.len() > 1 {
            left("commitment", 1, &v, &ver(&(com + P::gt(&dl)), &z).1, 0)?;
            let z2 = z + dl;
            let l = srs.1.len() as u64;
            if z.pow([l]) != z2.pow([l]) && z2 != one {
                left("point", 1, &v, &ver(&com, &z2).1, 0)?;
            }
        }
    }
    {
        type U<P, D> = tpc::UnivariatePolynomialCommitment<P, D>;
        let keys = attempt(|| U::<P, D>::setup(&mut rng(c.seed), degree))?;
        let (com, rows) = attempt(|| U::<P, D>::commit(&keys, &poly))?;
        let (proof, po) = outs(|| attempt(|| U::<P, D>::open(&keys, &poly, &rows, &z)));
        let proof = proof?;
        let ver = |com: &_, z: &Sf<P>, v: &Sf<P>| outs(|| verdict(|| U::<P, D>::verify(&keys, com, z, v, &proof)));
        let (r, v) = ver(&com, &z, &val);
        ensure!(r == V::True, "honest opening: {:?}", r);
        let (k1, k2) = (keys.0.len().trailing_zeros() as usize, keys.1.len().trailing_zeros() as usize);
        agree(&po, &v, k1 + k2)?;
        left("commitment", k1 + k2, &v, &ver(&(com + P::gt(&dl)), &z, &val).1, k1)?;
        left("value", k1 + k2, &v, &ver(&com, &z, &(val + dl)).1, k2)?;
        let z2 = z + dl;
        let l = keys.0.len() as u64;
        if z.pow([l]) != z2.pow([l]) {
            left("point", k1 + k2, &v, &ver(&com, &z2, &val).1, 0)?;
        }
    }
    Ok(pass(true).class(format!("2^{} coefficients", (degree + 1).ilog2())))
}

// ---------------------------------------------------------------- SIPP

#[derive(Clone, Debug, Serialize, Deserialize)]
enum SippPart {
    A(u16),
    B(u16),
    R(u16),
    SwapA(u16, u16),
    SwapB(u16, u16),
    SwapR(u16, u16),
    Value,
    Round(u16, bool),
    Sides(u16),
    /// with the other sign: a point or coefficient, the value, or a message of a round
    NegA(u16),
    NegB(u16),
    NegR(u16),
    NegValue,
    NegRound(u16, bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sipp {
    k: u32,
    a: Vs,
    b: Vs,
    r: Vs,
    part: SippPart,
    delta: Sc,
}

fn sipp_case(hi: u32) -> impl Fn() -> BoxedStrategy<Sipp> + Send + Sync + 'static {
    move || {
        let u = || any::<u16>();
        let part = prop_oneof![
            2 => u().prop_map(SippPart::A),
            2 => u().prop_map(SippPart::B),
            2 => u().prop_map(SippPart::R),
            1 => (u(), u()).prop_map(|(i, j)| SippPart::SwapA(i, j)),
            1 => (u(), u()).prop_map(|(i, j)| SippPart::SwapB(i, j)),
            1 => (u(), u()).prop_map(|(i, j)| SippPart::SwapR(i, j)),
            1 => Just(SippPart::Value),
            4 => (u(), any::<bool>()).prop_map(|(i, s)| SippPart::Round(i, s)),
            1 => u().prop_map(SippPart::Sides),
            1 => u().prop_map(SippPart::NegA),
            1 => u().prop_map(SippPart::NegB),
            1 => u().prop_map(SippPart::NegR),
            1 => Just(SippPart::NegValue),
            1 => (u(), any::<bool>()).prop_map(|(i, s)| SippPart::NegRound(i, s)),
        ];
        let v = || prop_oneof![3 => vs_rand(), 1 => vs()];
        (logn(1, hi), v(), v(), v(), part, delta()).prop_map(|(k, a, b, r, part, delta)| Sipp { k, a, b, r, part, delta }).boxed()
    }
}

fn sipp<P: CurveEx, D: Digest<OutputSize = U32> + 'static>(c: &Sipp) -> R {
    let n = 1usize << c.k;
    let k = c.k as usize;
    let (mut a, mut b, mut r): (Vec<Sf<P>>, Vec<Sf<P>>, Vec<Sf<P>>) = (c.a.f(n), c.b.f(n), c.r.f(n));
    let (pa, pb) = (P::g1a(&a), P::g2a(&b));
    let mut value = product_of_pairings_with_coeffs::<P>(&pa, &pb, &r);
    let (proof, po) = outs(|| attempt(|| SIPP::<P, D>::prove(&pa, &pb, &r, value)));
    let mut parts = proof?.verif_into_parts();
    let proof = SippProof::<P>::verif_from_parts(parts.clone());
    let (res, v) = outs(|| verdict(|| SIPP::<P, D>::verify(&pa, &pb, &r, value, &proof)));
    ensure!(res == V::True, "honest proof: {:?}", res);
    // the statement, and then every round
    agree(&po, &v, k + 1)?;
    let dl: Sf<P> = c.delta.nz();
    let ix = |i: &u16| *i as usize % n;
    let before = (a.clone(), b.clone(), r.clone());
    let first = match &c.part {
        SippPart::A(i) => { a[ix(i)] += dl; 0 }
        SippPart::B(i) => { b[ix(i)] += dl; 0 }
        SippPart::R(i) => { r[ix(i)] += dl; 0 }
        SippPart::SwapA(i, j) => { a.swap(ix(i), ix(j)); 0 }
        SippPart::SwapB(i, j) => { b.swap(ix(i), ix(j)); 0 }
        SippPart::SwapR(i, j) => { r.swap(ix(i), ix(j)); 0 }
        SippPart::Value => { value = value + P::gt(&dl); 0 }
        SippPart::NegA(i) => { a[ix(i)] = -a[ix(i)]; 0 }
        SippPart::NegB(i) => { b[ix(i)] = -b[ix(i)]; 0 }
        SippPart::NegR(i) => { r[ix(i)] = -r[ix(i)]; 0 }
        SippPart::NegValue => {
            let v = -value;
            if v == value { return skip("nothing changed"); }
            value = v;
            0
        }
        SippPart::NegRound(i, left) => {
            let i = *i as usize % k;
            let e = &mut parts[i];
            let x = if *left { &mut e.0 } else { &mut e.1 };
            if *x == -*x { return skip("nothing changed"); }
            *x = -*x;
            i + 1
        }
        SippPart::Round(i, left) => {
            let i = *i as usize % k;
            let e = &mut parts[i];
            if *left { e.0 = e.0 + P::gt(&dl) } else { e.1 = e.1 + P::gt(&dl) }
            // the seed and the earlier rounds
            i + 1
        }
        SippPart::Sides(i) => {
            let i = *i as usize % k;
            let e = &mut parts[i];
            if e.0 == e.1 { return skip("same sides"); }
            std::mem::swap(&mut e.0, &mut e.1);
            i + 1
        }
    };
    if first == 0 && !matches!(c.part, SippPart::Value | SippPart::NegValue) && before == (a.clone(), b.clone(), r.clone()) {
        return skip("nothing changed");
    }
    let q = SippProof::<P>::verif_from_parts(parts);
    let (pa, pb) = (P::g1a(&a), P::g2a(&b));
    let (_, w) = outs(|| verdict(|| SIPP::<P, D>::verify(&pa, &pb, &r, value, &q)));
    left(&format!("{:?}", c.part), k, &v, &w, first)?;
    Ok(pass(true).class(format!("{:?}", c.part).split('(').next().unwrap().to_string()).class(nclass(n)))
}

fn c19() -> Vec<Scenario> {
    vec![
        Scenario::new("gipa/pairing", 1500, 40_000, case(0, 5), gipa::<Pair<Big>, Rec64>),
        Scenario::new("gipa/multiexp", 1200, 40_000, case(0, 5), gipa::<Msm<Big>, Rec64>),
        Scenario::new("gipa/multiexp-keyed", 1000, 30_000, case(0, 5), gipa::<MsmKey<Big>, Rec64>),
        Scenario::new("gipa/scalar", 2000, 40_000, case(0, 6), gipa::<Scal<Big>, Rec64>),
        Scenario::new("gipa/digest-32", 500, 10_000, case(0, 5), gipa::<ScalKey<Big>, Rec32>),
        Scenario::new("gipa/unusable", 1500, 40_000, case(0, 5), gipa::<Scal<Big>, Zeros64>),
        Scenario::new("gipa/components", 1000, 20_000, case(1, 4), components),
        Scenario::new("gipa/bls12-381", 48, 800, case(1, 3), gipa::<Msm<Bls>, Rec64>),
        Scenario::new("tipa/pairing", 1200, 40_000, case(0, 4), tipa::<Pair<Big>, Big, Rec64>),
        Scenario::new("tipa/multiexp", 1000, 30_000, case(0, 4), tipa::<Msm<Big>, Big, Rec64>),
        Scenario::new("tipa/scalar-keyed", 1200, 30_000, case(0, 5), tipa::<ScalKey<Big>, Big, Rec32>),
        Scenario::new("tipa/bls12-381", 24, 400, case(1, 2), tipa::<Pair<Bls>, Bls, Rec64>),
        Scenario::new("ssm/key", 1500, 40_000, case(0, 5), ssm_key::<Msm<Big>, Rec64>),
        Scenario::new("ssm/key/scalar", 1500, 40_000, case(0, 5), ssm_key::<ScalKey<Big>, Rec64>),
        Scenario::new("ssm/srs", 1200, 40_000, case(0, 4), ssm_srs::<Msm<Big>, Big, Rec64>),
        Scenario::new("ssm/srs/scalar", 1200, 40_000, case(0, 5), ssm_srs::<Scal<Big>, Big, Rec32>),
        Scenario::new("ssm/srs/bls12-381", 24, 400, case(1, 2), ssm_srs::<Msm<Bls>, Bls, Rec64>),
        Scenario::new("groth16", 1000, 30_000, agg_case(4), groth::<Big, Rec64>),
        Scenario::new("groth16/digest-32", 300, 8000, agg_case(3), groth::<Big, Rec32>),
        Scenario::new("groth16/bls12-381", 16, 300, agg_case(2), groth::<Bls, Rec64>),
        Scenario::new("groth16/unusable/zeros", 300, 8000, agg_case(3), groth_retry::<Big, Zeros64>),
        Scenario::new("groth16/unusable/ones", 300, 8000, agg_case(3), groth_retry::<Big, Ones64>),
        Scenario::new("groth16/unusable/mixed", 300, 8000, agg_case(3), groth_retry::<Big, Mixed64>),
        Scenario::new("poly-commit", 1200, 30_000, pc_case(4, 8), pc_srs::<Big, Rec64>),
        Scenario::new("poly-commit/transparent", 1200, 30_000, pc_case(4, 8), pc_trans::<Big, Rec64>),
        Scenario::new("poly-commit/univariate", 500, 12_000, pc_case(4, 8), pc_uni::<Big, Rec64>),
        Scenario::new("poly-commit/bls12-381", 16, 300, pc_case(2, 3), pc_srs::<Bls, Rec64>),
        Scenario::new("sipp", 3000, 80_000, sipp_case(6), sipp::<Big, Rec32>),
        Scenario::new("sipp/bls12-377", 60, 1000, sipp_case(3), sipp::<Bls377, Rec32>),
        Scenario::new("gipa/bw6-761", 8, 150, case(1, 2), gipa::<Msm<Bw6>, Rec64>),
    ]
}

fn main() {
    ripp_check::fw::main(&[Property {
        id: "C19",
        rule: "a part of the statement or a message was changed and there was at least one challenge after it, or (unusable digests) the challenges of two statements were compared",
        assumptions: &[
            "the digest behaves like a random oracle: equal outputs mean equal inputs",
            "challenges are the outputs of the digest that the argument is instantiated with",
        ],
        scenarios: c19,
    }]);
}
