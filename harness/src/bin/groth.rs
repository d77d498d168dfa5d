//! C17 and C18: aggregation of Groth16 proofs.
use ark_ec::AffineRepr;
use ark_ff::{One, PrimeField, Zero};
use ark_groth16::{prepare_verifying_key, Groth16, Proof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::{
    aggregate_proofs, setup_inner_product, verify_aggregate_proof, AggregateProof,
};
use ark_ip_proofs::tipa::VerifierSRS;
use ark_relations::{
    lc,
    r1cs::{ConstraintSynthesizer, ConstraintSystemRef, SynthesisError, Variable},
};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, Prog};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::srs::*;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};

type Sf<P> = <P as ark_ec::pairing::Pairing>::ScalarField;

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

fn first_word(s: String) -> String {
    s.split(['(', ' ']).next().unwrap().to_string()
}

/// Verification key with its trapdoors
#[derive(Clone, Debug)]
struct Vk<F> {
    alpha: F,
    beta: F,
    gamma: F,
    delta: F,
    abc: Vec<F>,
}

impl<F: PrimeField> Vk<F> {
    fn key<P: CurveEx<ScalarField = F>>(&self) -> VerifyingKey<P> {
        let (g2, g1) = (P::g2a(&[self.beta, self.gamma, self.delta]), P::g1a(&[self.alpha]));
        VerifyingKey { alpha_g1: g1[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: P::g1a(&self.abc) }
    }
    fn ic(&self, x: &[F]) -> F {
        self.abc[0] + dot(&self.abc[1..], x)
    }
    /// third element of the simulated proof
    fn c(&self, a: &F, b: &F, x: &[F]) -> F {
        (*a * b - self.alpha * self.beta - self.ic(x) * self.gamma) * inv(&self.delta)
    }
    fn valid(&self, p: &[F; 3], x: &[F]) -> bool {
        p[2] == self.c(&p[0], &p[1], x)
    }
    /// what the aggregate of the products must be
    fn ppe(&self, inputs: &[Vec<F>], r: &F, agg_c: &F) -> F {
        inputs.iter().zip(powers(inputs.len(), *r)).map(|(x, e)| e * (self.alpha * self.beta + self.ic(x) * self.gamma)).sum::<F>()
            + *agg_c * self.delta
    }
}

fn groth_proofs<P: CurveEx>(p: &[[Sf<P>; 3]]) -> Vec<Proof<P>> {
    let col = |i: usize| p.iter().map(|p| p[i]).collect::<Vec<_>>();
    let (a, b, c) = (P::g1a(&col(0)), P::g2a(&col(1)), P::g1a(&col(2)));
    (0..p.len()).map(|i| Proof { a: a[i], b: b[i], c: c[i] }).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VkCase {
    trap: (Sc, Sc, Sc, Sc),
    abc: Vs,
    m: usize,
}

impl VkCase {
    fn f<F: PrimeField>(&self) -> Vk<F> {
        Vk { alpha: self.trap.0.f(), beta: self.trap.1.f(), gamma: self.trap.2.f(), delta: self.trap.3.nz(), abc: self.abc.f(self.m + 1) }
    }
}

/// a number of inputs: a few, and now and then many
fn n_inputs(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![5 => 0..=max, 1 => 0..=max * 9].boxed()
}

fn vk_case(max: usize) -> BoxedStrategy<VkCase> {
    let trap = prop_oneof![
        3 => (sc_rand(), sc_rand(), sc_rand(), sc_rand()),
        1 => (sc(), sc(), sc(), sc()),
    ];
    (trap, prop_oneof![3 => vs_rand(), 1 => vs()], n_inputs(max)).prop_map(|(trap, abc, m)| VkCase { trap, abc, m }).boxed()
}

// ---------------------------------------------------------------- C17

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    k: u32,
    vk: VkCase,
    a: Vs,
    b: Vs,
    inputs: Vs,
    /// positions whose proof and inputs are those of another
    copies: Vec<(u16, u16)>,
    secrets: Option<(Sc, Sc)>,
    seed: u64,
    threads: usize,
}

fn complete_case(hi: u32, max: usize) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        let copies = prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u16>(), any::<u16>()), 1..4)];
        let secrets = prop::option::of((sc(), sc()));
        ((logn(0, hi), vk_case(max), vs(), vs(), vs()), (copies, secrets, any::<u64>(), threads()))
            .prop_map(|((k, vk, a, b, inputs), (copies, secrets, seed, threads))| Complete { k, vk, a, b, inputs, copies, secrets, seed, threads })
            .boxed()
    }
}

fn rows<F: PrimeField>(v: &Vs, n: usize, m: usize) -> Vec<Vec<F>> {
    let all = v.f::<F>(n * m);
    (0..n).map(|i| all[i * m..(i + 1) * m].to_vec()).collect()
}

fn complete<P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    let n = 1usize << c.k;
    let vk: Vk<Sf<P>> = c.vk.f();
    let (a, b): (Vec<Sf<P>>, Vec<Sf<P>>) = (c.a.f(n), c.b.f(n));
    let mut inputs = rows::<Sf<P>>(&c.inputs, n, c.vk.m);
    let mut p: Vec<[Sf<P>; 3]> = (0..n).map(|i| [a[i], b[i], vk.c(&a[i], &b[i], &inputs[i])]).collect();
    for (i, j) in &c.copies {
        let (i, j) = (*i as usize % n, *j as usize % n);
        p[i] = p[j];
        inputs[i] = inputs[j].clone();
    }
    let key = vk.key::<P>();
    let proofs = groth_proofs::<P>(&p);
    // the model of validity is that of the Groth16 verifier
    let pvk = prepare_verifying_key(&key);
    let i = c.seed as usize % n;
    ensure!(Groth16::<P>::verify_proof(&pvk, &proofs[i], &inputs[i]).unwrap(), "harness: the proofs are not valid");
    let srs = match &c.secrets {
        Some((x, y)) => SrsDl { n, alpha: x.nz(), beta: y.nz() }.srs::<P>(),
        None => attempt(|| setup_inner_product::<P, D, _>(&mut rng(c.seed), n))?,
    };
    let v = run(c.threads, || {
        let agg = attempt(|| aggregate_proofs::<P, D>(&srs, &proofs))?;
        Ok::<_, String>(verdict(|| verify_aggregate_proof::<P, D>(&srs.get_verifier_key(), &key, &inputs, &agg)))
    })?;
    ensure!(v == V::True, "aggregate of {} valid proofs with {} inputs: {:?}", n, c.vk.m, v);
    Ok(pass(n > 1 && p.iter().any(|p| p.iter().any(|x| !x.is_zero())))
        .class(nclass(n))
        .class(format!("{} inputs", if c.vk.m > 3 { "4..".into() } else { c.vk.m.to_string() }))
        .class(if c.copies.is_empty() { "distinct proofs" } else { "repeated proofs" }))
}

/// in_i = w^(i+2), and one constraint that has no input
#[derive(Clone)]
struct Circ<F> {
    w: F,
    m: usize,
}

impl<F: PrimeField> Circ<F> {
    fn inputs(&self) -> Vec<F> {
        (0..self.m).map(|i| self.w.pow([i as u64 + 2])).collect()
    }
}

impl<F: PrimeField> ConstraintSynthesizer<F> for Circ<F> {
    fn generate_constraints(self, cs: ConstraintSystemRef<F>) -> Result<(), SynthesisError> {
        let w = cs.new_witness_variable(|| Ok(self.w))?;
        let mut cur: Variable = w;
        for x in self.inputs() {
            let v = cs.new_input_variable(|| Ok(x))?;
            cs.enforce_constraint(lc!() + cur, lc!() + w, lc!() + v)?;
            cur = v;
        }
        let s = cs.new_witness_variable(|| Ok(self.w.square() + self.w))?;
        cs.enforce_constraint(lc!() + w, lc!() + w + Variable::One, lc!() + s)?;
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Real {
    k: u32,
    m: usize,
    w: Vs,
    seed: u64,
    /// at this position the input at that index is changed
    bad: Option<(u16, u16, Sc)>,
}

fn real_case() -> BoxedStrategy<Real> {
    (0u32..=3, 0usize..=3, vs(), any::<u64>(), prop::option::of((any::<u16>(), any::<u16>(), delta())))
        .prop_map(|(k, m, w, seed, bad)| Real { k, m, w, seed, bad })
        .boxed()
}

fn real<P: CurveEx, D: Digest + 'static>(c: &Real, judge_bad: bool) -> R {
    let n = 1usize << c.k;
    let mut r = rng(c.seed);
    let ws: Vec<Sf<P>> = c.w.f(n);
    let circ = |i: usize| Circ { w: ws[i], m: c.m };
    let pk = Groth16::<P>::generate_random_parameters_with_reduction(circ(0), &mut r).map_err(|e| format!("harness: {:?}", e))?;
    let proofs: Vec<Proof<P>> = (0..n).map(|i| Groth16::<P>::create_random_proof_with_reduction(circ(i), &pk, &mut r).unwrap()).collect();
    let mut inputs: Vec<Vec<Sf<P>>> = (0..n).map(|i| circ(i).inputs()).collect();
    if let (Some((i, j, d)), true) = (&c.bad, judge_bad) {
        if c.m == 0 { return skip("no inputs"); }
        inputs[*i as usize % n][*j as usize % c.m] += d.nz::<Sf<P>>();
    }
    let pvk = prepare_verifying_key(&pk.vk);
    let all = (0..n).all(|i| Groth16::<P>::verify_proof(&pvk, &proofs[i], &inputs[i]).unwrap());
    let srs = attempt(|| setup_inner_product::<P, D, _>(&mut r, n))?;
    let agg = attempt(|| aggregate_proofs::<P, D>(&srs, &proofs))?;
    let v = verdict(|| verify_aggregate_proof::<P, D>(&srs.get_verifier_key(), &pk.vk, &inputs, &agg));
    if all {
        ensure!(v == V::True, "aggregate of {} valid proofs of a circuit with {} inputs: {:?}", n, c.m, v);
    } else {
        ensure!(v != V::True, "aggregate of {} proofs accepted, but one is not valid for its inputs", n);
    }
    Ok(pass(n > 1 || !all).class(if all { "all valid" } else { "one invalid" }).class(nclass(n)))
}

fn c17() -> Vec<Scenario> {
    use blake2::Blake2b;
    vec![
        Scenario::new("simulated/mock", 3000, 80_000, complete_case(5, 5), complete::<Big, Rec64>),
        Scenario::new("simulated/long", 32, 500, complete_case(8, 8), complete::<Big, Rec64>),
        Scenario::new("rare-challenges", 2000, 40_000, complete_case(3, 3), complete::<Small, Rec64>),
        Scenario::new("unusable-digests/ones", 300, 5000, complete_case(3, 3), complete::<Big, Ones64>),
        Scenario::new("unusable-digests/mixed", 300, 5000, complete_case(3, 3), complete::<Big, Mixed64>),
        Scenario::new("digest-32", 200, 4000, complete_case(3, 3), complete::<Big, Rec32>),
        Scenario::new("simulated/bls12-381", 40, 800, complete_case(3, 3), complete::<Bls, Blake2b>),
        Scenario::new("simulated/bls12-377", 16, 300, complete_case(2, 3), complete::<Bls377, Blake2b>),
        Scenario::new("simulated/bw6-761", 10, 200, complete_case(2, 3), complete::<Bw6, Blake2b>),
        Scenario::new("circuits/bls12-381", 32, 600, real_case, |c| real::<Bls, Blake2b>(c, false)),
    ]
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Inputs {
    Entry(u16, u16),
    /// an input changed, where it and all later ones were zero in all proofs
    ZeroTail(u16, u16, u16),
    SwapRows(u16, u16),
    SwapEntries(u16, u16, u16),
    DropRow(u16),
    DropRows,
    AddRow(u16),
    AddZeroRow,
    CopyRow(u16, u16),
    ShortRow(u16),
    /// without its last input, which was zero
    ShortZero(u16),
    LongRow(u16, bool),
    AllShort,
    AllLong,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    /// library-made aggregate of proofs of which some are invalid: position, element, and whether
    /// another proof has the opposite error
    Invalid(u16, u8, Option<u16>),
    /// one element of all proofs multiplied by a factor, often -1
    AllScaled(u8),
    /// an aggregate made with another SRS
    OtherSrs(u8),
    /// prover for an invalid proof claims the product that satisfies the Groth16 equation
    ForcedIp(u16, u8),
    /// the same with the aggregate of the third elements
    ForcedAggC(u16, u8),
    /// the claimed product or aggregate altered so that the Groth16 equation still holds, the
    /// arguments recomputed for the claims
    ForcedBoth(bool),
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    /// as ForcedIp or ForcedAggC, with one round message repaired after its challenge
    Delayed(bool, At, u16),
    /// false round message, claims and an input chosen afterwards
    DelayedStatement(bool, At),
    /// one of the committed vectors chosen after the combiner r is known (for another commitment)
    Late(u8, u16),
    /// aggregates weighted with another scalar than r
    OtherR,
    /// arguments with powers of another scalar: unshifted A, or unstructured weights of C
    Unweighted(bool),
    Inputs(Inputs),
    Vk(u8, u16),
    VerifierSrs(u8),
    /// alterations of an honest aggregate
    Com(u8),
    ComSwap,
    IpAb,
    AggC,
    IpAbAggC,
    Zeros,
    TipaAb(Tamper),
    TipaC(Tamper),
    FinalKey(u8),
    /// parts of the aggregate of other valid proofs
    Mix(u8, u64),
    /// inputs of two proofs changed so that their combination with r stays the same
    InputsAfterR(u16, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    k: u32,
    vk: VkCase,
    seed: u64,
    alpha: Sc,
    beta: Sc,
    attack: Attack,
    delta: Sc,
}

fn attack_case(lo: u32, hi: u32, max: usize) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let w = || any::<u16>();
        let b = || any::<bool>();
        let inputs = prop_oneof![
            3 => (w(), w()).prop_map(|(i, j)| Inputs::Entry(i, j)),
            3 => (w(), w(), w()).prop_map(|(i, j, cut)| Inputs::ZeroTail(i, j, cut)),
            2 => (w(), w()).prop_map(|(i, j)| Inputs::SwapRows(i, j)),
            1 => (w(), w(), w()).prop_map(|(i, j, k)| Inputs::SwapEntries(i, j, k)),
            1 => w().prop_map(Inputs::DropRow),
            1 => Just(Inputs::DropRows),
            1 => w().prop_map(Inputs::AddRow),
            1 => Just(Inputs::AddZeroRow),
            1 => (w(), w()).prop_map(|(i, j)| Inputs::CopyRow(i, j)),
            1 => w().prop_map(Inputs::ShortRow),
            1 => w().prop_map(Inputs::ShortZero),
            2 => (w(), b()).prop_map(|(i, z)| Inputs::LongRow(i, z)),
            1 => Just(Inputs::AllShort),
            1 => Just(Inputs::AllLong),
        ];
        let attack = prop_oneof![
            2 => (0u8..3).prop_map(Attack::AllScaled),
            6 => (w(), 0u8..7, prop::option::of(w())).prop_map(|(i, e, o)| Attack::Invalid(i, e, o)),
            1 => (0u8..3).prop_map(Attack::OtherSrs),
            3 => (w(), 0u8..7).prop_map(|(i, e)| Attack::ForcedIp(i, e)),
            3 => (w(), 0u8..4).prop_map(|(i, e)| Attack::ForcedAggC(i, e)),
            2 => b().prop_map(Attack::ForcedBoth),
            5 => (any::<u8>(), any::<u8>(), b()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            4 => (b(), at(), w()).prop_map(|(c, a, i)| Attack::Delayed(c, a, i)),
            3 => (b(), at()).prop_map(|(c, a)| Attack::DelayedStatement(c, a)),
            4 => (0u8..3, w()).prop_map(|(v, i)| Attack::Late(v, i)),
            1 => Just(Attack::OtherR),
            2 => b().prop_map(Attack::Unweighted),
            8 => inputs.prop_map(Attack::Inputs),
            4 => (0u8..5, w()).prop_map(|(e, i)| Attack::Vk(e, i)),
            2 => (0u8..4).prop_map(Attack::VerifierSrs),
            2 => (0u8..3).prop_map(Attack::Com),
            1 => Just(Attack::ComSwap),
            1 => Just(Attack::IpAb),
            1 => Just(Attack::AggC),
            1 => Just(Attack::IpAbAggC),
            1 => Just(Attack::Zeros),
            4 => tamper().prop_map(Attack::TipaAb),
            4 => tamper().prop_map(Attack::TipaC),
            4 => (0u8..6).prop_map(Attack::FinalKey),
            3 => (0u8..5, any::<u64>()).prop_map(|(e, s)| Attack::Mix(e, s)),
            2 => (w(), w()).prop_map(|(i, j)| Attack::InputsAfterR(i, j)),
        ];
        let vk = ((sc_rand(), sc_rand(), sc_rand(), sc_rand()), vs_rand(), n_inputs(max)).prop_map(|(trap, abc, m)| VkCase { trap, abc, m });
        ((logn(lo, hi), vk, any::<u64>()), (sc_rand(), sc_rand(), attack, delta()))
            .prop_map(|((k, vk, seed), (alpha, beta, attack, delta))| Atk { k, vk, seed, alpha, beta, attack, delta })
            .boxed()
    }
}

/// An aggregate as discrete logarithms
#[derive(Clone)]
struct Agg<F> {
    com: [F; 3],
    ip: F,
    agg_c: F,
    ab: (Prog<F>, Fin<F>),
    c: (Prog<F>, Fin<F>),
}

impl<F: PrimeField> Agg<F> {
    fn proof<P: CurveEx<ScalarField = F>, D: Digest + 'static>(&self) -> AggregateProof<P, D> {
        AggregateProof::verif_from_parts(
            (P::gt(&self.com[0]), P::gt(&self.com[1]), P::gt(&self.com[2])),
            P::gt(&self.ip),
            P::g1(&self.agg_c),
            tipa_proof_of::<Pair<P>, P, D>(&self.ab.0, &self.ab.1),
            ssm_proof_of::<Msm<P>, P, D>(&self.c.0, &self.c.1),
        )
    }
}

struct Setting<F> {
    s: SrsDl<F>,
    key: Vk<F>,
    inputs: Vec<Vec<F>>,
    with_r: bool,
}

type Post<'a, F> = &'a dyn Fn(usize, &F, &mut adv::Step<F>);
type Pre<'a, F> = &'a dyn Fn(usize, &mut adv::Step<F>);

fn no_pre<F>(_: usize, _: &mut adv::Step<F>) {}
fn no_post<F>(_: usize, _: &F, _: &mut adv::Step<F>) {}

impl<F: PrimeField> Setting<F> {
    fn coms(&self, p: &[[F; 3]]) -> [F; 3] {
        let col = |i: usize| p.iter().map(|p| p[i]).collect::<Vec<F>>();
        let (ka, kb) = (self.s.ka(&F::one()), self.s.kb());
        [dot(&ka, &col(0)), dot(&kb, &col(1)), dot(&ka, &col(2))]
    }
    /// The combiner that the verifier derives from the commitments
    fn r<P: CurveEx<ScalarField = F>, D: Digest + 'static>(&self, com: &[F; 3]) -> Option<F> {
        let z = F::zero();
        let prog = Prog { steps: vec![], base: (z, z), ch: vec![], ck_base: (z, z) };
        let fin = Fin { ck: (z, z), pi: (z, z), z };
        let a = Agg { com: *com, ip: z, agg_c: z, ab: (prog.clone(), fin.clone()), c: (prog, fin) }.proof::<P, D>();
        let key = self.key.key::<P>();
        let (_, _, outs) = record(|| verdict(|| verify_aggregate_proof::<P, D>(&self.s.vk::<P>(), &key, &self.inputs, &a)));
        outs.iter().filter_map(|o| F::from_random_bytes(o)).find(|r| !r.is_zero() && !r.is_one())
    }
    /// argument for the product of A and B, weighted with wr, under the shift r
    #[allow(clippy::too_many_arguments)]
    fn ab<P: CurveEx<ScalarField = F>, D: Digest + 'static>(
        &self, p: &[[F; 3]], r: &F, wr: &F, claim: &[F; 3], pre: Pre<F>, post: Post<F>,
    ) -> Option<(Prog<F>, Fin<F>)> {
        let n = p.len();
        let w = powers(n, *wr);
        let a: Vec<F> = (0..n).map(|i| p[i][0] * w[i]).collect();
        let b: Vec<F> = p.iter().map(|p| p[1]).collect();
        let d = Dl::new::<Pair<P>>(a, b, self.s.ka(wr), self.s.kb(), F::one());
        let prog = adv::prove::<Pair<P>, D>(&d, claim, pre, post);
        let sh = inv(wr);
        let fin = finish_tipa::<Pair<P>, P, D>(&self.s, &prog, claim, &F::one(), r, &|z| key_polys(n, z, &sh), &|z| key_polys(n, z, &F::one()))?;
        Some((prog, fin))
    }
    fn c<P: CurveEx<ScalarField = F>, D: Digest + 'static>(
        &self, p: &[[F; 3]], r: &F, right: &[F], claim: (&F, &F), pre: Pre<F>, post: Post<F>,
    ) -> Option<(Prog<F>, Fin<F>)> {
        let n = p.len();
        let c: Vec<F> = p.iter().map(|p| p[2]).collect();
        let one = F::one();
        let d = Dl::new::<Ssm<Msm<P>>>(c, right.to_vec(), self.s.ka(&one), vec![F::zero(); n], one);
        let prog = adv::prove::<Ssm<Msm<P>>, D>(&d, &[*claim.0, if self.with_r { *r } else { F::zero() }, *claim.1], pre, post);
        let fin = finish_ssm::<Msm<P>, P, D>(&self.s, &prog, &[*claim.0, *r, *claim.1], r, &one, &|z| key_polys(n, z, &one))?;
        Some((prog, fin))
    }
    fn ip(p: &[[F; 3]], r: &F) -> F {
        p.iter().zip(powers(p.len(), *r)).map(|(p, w)| p[0] * p[1] * w).sum()
    }
    fn agg_c(p: &[[F; 3]], r: &F) -> F {
        p.iter().zip(powers(p.len(), *r)).map(|(p, w)| p[2] * w).sum()
    }
    /// Both arguments follow the protocol for the claims (true or not) with the combiner r.
    fn agg<P: CurveEx<ScalarField = F>, D: Digest + 'static>(&self, p: &[[F; 3]], com: &[F; 3], r: &F, ip: &F, agg_c: &F) -> Option<Agg<F>> {
        Some(Agg {
            com: *com,
            ip: *ip,
            agg_c: *agg_c,
            ab: self.ab::<P, D>(p, r, r, &[com[0], com[1], *ip], &no_pre, &no_post)?,
            c: self.c::<P, D>(p, r, &powers(p.len(), *r), (&com[2], agg_c), &no_pre, &no_post)?,
        })
    }
    fn honest<P: CurveEx<ScalarField = F>, D: Digest + 'static>(&self, p: &[[F; 3]]) -> Option<(Agg<F>, F)> {
        let com = self.coms(p);
        let r = self.r::<P, D>(&com)?;
        Some((self.agg::<P, D>(p, &com, &r, &Self::ip(p, &r), &Self::agg_c(p, &r))?, r))
    }
}

/// error in the first, second or third element, in all, or one replaced by the identity
fn spoil<F: PrimeField>(p: &mut [F; 3], e: u8, d: &F) {
    match e {
        0..=2 => p[e as usize] += d,
        4..=6 => p[e as usize - 4] = F::zero(),
        _ => {
            p[0] += d;
            p[1] -= *d * F::from(5u64);
            p[2] += d.square();
        }
    }
}

fn soundness<P: CurveEx, D: Digest + 'static>(c: &Atk) -> R {
    let n = 1usize << c.k;
    let m = c.vk.m;
    let delta: Sf<P> = c.delta.nz();
    let (zero, one) = (Sf::<P>::zero(), Sf::<P>::one());
    let vk: Vk<Sf<P>> = c.vk.f();
    let rv = |i: u64, n: usize| -> Vec<Sf<P>> { Vs { pat: Pat::Rand(c.seed ^ i), over: vec![] }.f(n) };
    let mut flat = rv(3, n * m);
    if let (Attack::Inputs(Inputs::ShortZero(i)), true) = (&c.attack, m > 0) {
        flat[*i as usize % n * m + m - 1] = zero;
    }
    let cut = |cut: &u16| *cut as usize % m;
    if let (Attack::Inputs(Inputs::ZeroTail(_, _, x)), true) = (&c.attack, m > 0) {
        (0..n * m).filter(|i| i % m >= cut(x)).for_each(|i| flat[i] = zero);
    }
    let inputs: Vec<Vec<Sf<P>>> = (0..n).map(|i| flat[i * m..(i + 1) * m].to_vec()).collect();
    let (av, bv) = (rv(1, n), rv(2, n));
    let p: Vec<[Sf<P>; 3]> = (0..n).map(|i| [av[i], bv[i], vk.c(&av[i], &bv[i], &inputs[i])]).collect();
    let mut st = Setting { s: SrsDl { n, alpha: c.alpha.nz(), beta: c.beta.nz() }, key: vk.clone(), inputs: inputs.clone(), with_r: true };
    let key = vk.key::<P>();
    let vsrs = st.s.vk::<P>();
    let ver = |s: &VerifierSRS<P>, key: &VerifyingKey<P>, x: &Vec<Vec<Sf<P>>>, a: &AggregateProof<P, D>| verdict(|| verify_aggregate_proof::<P, D>(s, key, x, a));
    let name = match &c.attack {
        Attack::TipaAb(t) => format!("TipaAb.{}", t.name()),
        Attack::TipaC(t) => format!("TipaC.{}", t.name()),
        Attack::Inputs(i) => format!("Inputs.{}", first_word(format!("{:?}", i))),
        a => first_word(format!("{:?}", a)),
    };
    let done = |r: V| {
        ensure!(r != V::True, "accepted: {:?} with {} proofs of {} inputs", c.attack, n, m);
        Ok(pass(true).class(name.clone()).class(nclass(n)).class(match r { V::False => "rejected", V::Error(_) => "error", _ => "panic" }))
    };
    // library-made aggregates
    if let Attack::Invalid(..) | Attack::AllScaled(_) | Attack::OtherSrs(_) = &c.attack {
        let mut q = p.clone();
        let mut s2 = st.s.clone();
        match &c.attack {
            Attack::Invalid(i, e, other) => {
                let i = *i as usize % n;
                let old = q[i];
                spoil(&mut q[i], *e, &delta);
                if let Some(j) = other {
                    // unweighted errors cancel
                    if n < 2 { return skip("one proof"); }
                    let j = (i + 1 + *j as usize % (n - 1)) % n;
                    let err = |x: &[Sf<P>; 3]| x[0] * x[1] - x[2] * vk.delta;
                    let e = err(&q[i]) - err(&old);
                    q[j][2] += e * inv(&vk.delta);
                }
                if vk.valid(&q[i], &inputs[i]) { return skip("still valid"); }
            }
            Attack::AllScaled(e) => {
                let f = factor(&delta);
                q.iter_mut().for_each(|p| p[*e as usize] *= f);
                if q.iter().zip(&inputs).all(|(p, x)| vk.valid(p, x)) { return skip("still valid"); }
            }
            Attack::OtherSrs(e) => {
                if n < 2 { return skip("one proof"); }
                if e % 3 != 1 { ripp_check::change!(s2.alpha, delta) }
                if e % 3 != 0 { ripp_check::change!(s2.beta, delta) }
            }
            _ => unreachable!(),
        }
        let srs = s2.srs::<P>();
        let agg = match attempt(|| aggregate_proofs::<P, D>(&srs, &groth_proofs::<P>(&q))) {
            Ok(a) => a,
            Err(_) => return Ok(pass(true).class(name).class("refused by the aggregator")),
        };
        return done(ver(&vsrs, &key, &inputs, &agg));
    }
    // an adversary that follows the protocol is accepted
    let mut found = None;
    for with_r in [true, false] {
        st.with_r = with_r;
        let Some((h, r)) = st.honest::<P, D>(&p) else { continue };
        if ver(&vsrs, &key, &inputs, &h.proof()) == V::True {
            found = Some((h, r));
            break;
        }
    }
    let Some((h, r)) = found else { return skip("adversary does not follow the protocol") };
    let rounds = c.k as usize;
    let ok = |x: &Vec<Vec<Sf<P>>>, a: &Agg<Sf<P>>| done(ver(&vsrs, &key, x, &a.proof()));
    type S<P> = Setting<Sf<P>>;
    match &c.attack {
        Attack::Invalid(..) | Attack::AllScaled(_) | Attack::OtherSrs(_) => unreachable!(),
        Attack::ForcedIp(i, e) | Attack::ForcedAggC(i, e) => {
            let mut q = p.clone();
            let i = *i as usize % n;
            spoil(&mut q[i], *e, &delta);
            if vk.valid(&q[i], &inputs[i]) { return skip("still valid"); }
            let com = st.coms(&q);
            let Some(r) = st.r::<P, D>(&com) else { return skip("no combiner") };
            let (mut ip, mut agg_c) = (S::<P>::ip(&q, &r), S::<P>::agg_c(&q, &r));
            if matches!(c.attack, Attack::ForcedIp(..)) {
                ip = vk.ppe(&inputs, &r, &agg_c);
            } else {
                agg_c = (ip - vk.ppe(&inputs, &r, &zero)) * inv(&vk.delta);
            }
            let Some(a) = st.agg::<P, D>(&q, &com, &r, &ip, &agg_c) else { return skip("no opening point") };
            ok(&inputs, &a)
        }
        Attack::Cancel(i, j, same) => {
            let e = two_errors(9, *i, *j, *same, &delta);
            let com = st.coms(&p);
            let com = [com[0] + e[0], com[1] + e[1], com[2] + e[2]];
            let Some(r) = st.r::<P, D>(&com) else { return skip("no combiner") };
            let (ip, agg_c) = (S::<P>::ip(&p, &r) + e[3], S::<P>::agg_c(&p, &r) + e[4]);
            if n < 2 && e[5..8].iter().any(|e| !e.is_zero()) { return skip("one proof"); }
            let Some(mut a) = st.agg::<P, D>(&p, &com, &r, &ip, &agg_c) else { return skip("no opening point") };
            a.ab.1.pi.0 += e[5] * inv(&(st.s.beta - a.ab.1.z));
            a.ab.1.pi.1 += e[6] * inv(&(st.s.alpha - a.ab.1.z));
            a.c.1.pi.0 += e[7] * inv(&(st.s.beta - a.c.1.z));
            let mut x = inputs.clone();
            if m > 0 {
                x[0][0] += (ip - vk.ppe(&inputs, &r, &agg_c) + e[8]) * inv(&(vk.gamma * vk.abc[1]));
            } else if !e[8].is_zero() {
                return skip("no inputs");
            }
            ok(&x, &a)
        }
        Attack::ForcedBoth(recompute) => {
            let (ip, agg_c) = (h.ip + delta * vk.delta, h.agg_c + delta);
            let a = if *recompute {
                let Some(a) = st.agg::<P, D>(&p, &h.com, &r, &ip, &agg_c) else { return skip("no opening point") };
                a
            } else {
                Agg { ip, agg_c, ..h }
            };
            ok(&inputs, &a)
        }
        Attack::Delayed(in_c, at, i) => {
            if rounds == 0 { return skip("no rounds"); }
            // an invalid proof: the statement holds for the claimed product or aggregate only
            let mut q = p.clone();
            q[*i as usize % n][0] += delta;
            if vk.valid(&q[*i as usize % n], &inputs[*i as usize % n]) { return skip("still valid"); }
            let com = st.coms(&q);
            let Some(r) = st.r::<P, D>(&com) else { return skip("no combiner") };
            let (ip, agg_c) = (S::<P>::ip(&q, &r), S::<P>::agg_c(&q, &r));
            let ro = at.round(rounds);
            let fix = |e: Sf<P>| move |i: usize, ch: &Sf<P>, s: &mut adv::Step<Sf<P>>| {
                if i == ro {
                    at.repair(s, 2, ch, &e);
                }
            };
            let a = if *in_c {
                let claim = (ip - vk.ppe(&inputs, &r, &zero)) * inv(&vk.delta);
                let (Some(ab), Some(cc)) = (
                    st.ab::<P, D>(&q, &r, &r, &[com[0], com[1], ip], &no_pre, &no_post),
                    st.c::<P, D>(&q, &r, &powers(n, r), (&com[2], &claim), &no_pre, &fix(agg_c - claim)),
                ) else { return skip("no opening point") };
                Agg { com, ip, agg_c: claim, ab, c: cc }
            } else {
                let claim = vk.ppe(&inputs, &r, &agg_c);
                let (Some(ab), Some(cc)) = (
                    st.ab::<P, D>(&q, &r, &r, &[com[0], com[1], claim], &no_pre, &fix(ip - claim)),
                    st.c::<P, D>(&q, &r, &powers(n, r), (&com[2], &agg_c), &no_pre, &no_post),
                ) else { return skip("no opening point") };
                Agg { com, ip: claim, agg_c, ab, c: cc }
            };
            ok(&inputs, &a)
        }
        Attack::DelayedStatement(in_c, at) => {
            if rounds == 0 { return skip("no rounds"); }
            if m == 0 { return skip("no inputs"); }
            let ro = at.round(rounds); let side = at.side();
            let pre = |i: usize, s: &mut adv::Step<Sf<P>>| {
                if i == ro {
                    s[side][2] += delta;
                }
            };
            let shift = |ch: &[Sf<P>]| delta * if side == 0 { ch[ro] } else { inv(&ch[ro]) };
            let mut a = h.clone();
            // the rounds are computed for the true claims, then the claims are changed to fit; the
            // opening of the keys is done for the changed claims
            if *in_c {
                let Some((prog, _)) = st.c::<P, D>(&p, &r, &powers(n, r), (&h.com[2], &h.agg_c), &pre, &no_post) else { return skip("no opening point") };
                a.agg_c -= shift(&prog.ch);
                let Some(fin) = finish_ssm::<Msm<P>, P, D>(&st.s, &prog, &[h.com[2], r, a.agg_c], &r, &one, &|z| key_polys(n, z, &one)) else { return skip("no opening point") };
                a.c = (prog, fin);
            } else {
                let Some((prog, _)) = st.ab::<P, D>(&p, &r, &r, &[h.com[0], h.com[1], h.ip], &pre, &no_post) else { return skip("no opening point") };
                a.ip -= shift(&prog.ch);
                let sh = inv(&r);
                let Some(fin) = finish_tipa::<Pair<P>, P, D>(&st.s, &prog, &[h.com[0], h.com[1], a.ip], &one, &r, &|z| key_polys(n, z, &sh), &|z| key_polys(n, z, &one)) else { return skip("no opening point") };
                a.ab = (prog, fin);
            }
            // an input for which the Groth16 equation holds
            let mut x = inputs.clone();
            let e = a.ip - vk.ppe(&inputs, &r, &a.agg_c);
            x[0][0] += e * inv(&(vk.gamma * vk.abc[1]));
            ok(&x, &a)
        }
        Attack::Late(which, i) => {
            // vectors of invalid proofs; r is derived from their commitments
            let i = *i as usize % n;
            let mut q = p.clone();
            q[i][*which as usize] += delta;
            let com0 = st.coms(&q);
            let Some(r) = st.r::<P, D>(&com0) else { return skip("no combiner") };
            // then one entry elsewhere is chosen such that the combined equation holds
            let j = (i + 1) % n;
            let wj = powers(n, r)[j];
            let e = S::<P>::ip(&q, &r) - vk.ppe(&inputs, &r, &S::<P>::agg_c(&q, &r));
            match which {
                0 => { let y = q[j][1]; q[j][0] -= e * inv(&(wj * y)) }
                1 => { let y = q[j][0]; q[j][1] -= e * inv(&(wj * y)) }
                _ => q[j][2] += e * inv(&(wj * vk.delta)),
            }
            if (0..n).all(|i| vk.valid(&q[i], &inputs[i])) { return skip("all valid"); }
            let com = st.coms(&q);
            let Some(a) = st.agg::<P, D>(&q, &com, &r, &S::<P>::ip(&q, &r), &S::<P>::agg_c(&q, &r)) else { return skip("no opening point") };
            ok(&inputs, &a)
        }
        Attack::OtherR => {
            if n < 2 { return skip("one proof"); }
            let r2 = r + toward(&r, &delta);
            if r2.is_zero() { return skip("zero"); }
            let Some(a) = st.agg::<P, D>(&p, &h.com, &r2, &S::<P>::ip(&p, &r2), &S::<P>::agg_c(&p, &r2)) else { return skip("no opening point") };
            ok(&inputs, &a)
        }
        Attack::Unweighted(in_c) => {
            if n < 2 { return skip("one proof"); }
            let mut a = h.clone();
            // weights of the wrong scalar, with inputs such that the Groth16 equation holds
            let r2 = r + toward(&r, &delta);
            if r2.is_zero() || m == 0 { return skip("no inputs"); }
            if *in_c {
                a.agg_c = S::<P>::agg_c(&p, &r2);
                let Some(cc) = st.c::<P, D>(&p, &r, &powers(n, r2), (&h.com[2], &a.agg_c), &no_pre, &no_post) else { return skip("no opening point") };
                a.c = cc;
            } else {
                a.ip = S::<P>::ip(&p, &r2);
                let Some(ab) = st.ab::<P, D>(&p, &r, &r2, &[h.com[0], h.com[1], a.ip], &no_pre, &no_post) else { return skip("no opening point") };
                a.ab = ab;
            }
            let mut x = inputs.clone();
            let e = a.ip - vk.ppe(&inputs, &r, &a.agg_c);
            if e.is_zero() { return skip("same"); }
            x[0][0] += e * inv(&(vk.gamma * vk.abc[1]));
            ok(&x, &a)
        }
        Attack::Inputs(what) => {
            let mut x = inputs.clone();
            let row = |i: &u16| *i as usize % n;
            match what {
                Inputs::Entry(i, j) => {
                    if m == 0 { return skip("no inputs"); }
                    ripp_check::change!(x[row(i)][*j as usize % m], delta);
                }
                Inputs::ZeroTail(i, j, z) => {
                    if m == 0 { return skip("no inputs"); }
                    let cut = cut(z);
                    x[row(i)][cut + *j as usize % (m - cut)] += delta;
                }
                Inputs::SwapRows(i, j) => x.swap(row(i), row(j)),
                Inputs::SwapEntries(i, j, k) => {
                    if m == 0 { return skip("no inputs"); }
                    x[row(i)].swap(*j as usize % m, *k as usize % m);
                }
                Inputs::DropRow(i) => {
                    x.remove(row(i));
                }
                Inputs::DropRows => x.clear(),
                Inputs::AddRow(i) => x.push(inputs[row(i)].clone()),
                Inputs::AddZeroRow => x.push(vec![zero; m]),
                Inputs::CopyRow(i, j) => x[row(i)] = inputs[row(j)].clone(),
                Inputs::ShortRow(i) | Inputs::ShortZero(i) => {
                    if m == 0 { return skip("no inputs"); }
                    x[row(i)].pop();
                }
                Inputs::LongRow(i, z) => x[row(i)].push(if *z { zero } else { delta }),
                Inputs::AllShort => {
                    if m == 0 { return skip("no inputs"); }
                    x.iter_mut().for_each(|r| { r.pop(); });
                }
                Inputs::AllLong => x.iter_mut().for_each(|r| r.push(delta)),
            }
            if x == inputs { return skip("same inputs"); }
            ok(&x, &h)
        }
        Attack::Vk(e, i) => {
            let mut k2 = vk.clone();
            match e {
                0 => ripp_check::change!(k2.alpha, delta),
                1 => ripp_check::change!(k2.beta, delta),
                2 => ripp_check::change!(k2.gamma, delta),
                3 => ripp_check::change!(k2.delta, delta),
                _ => ripp_check::change!(k2.abc[*i as usize % (m + 1)], delta),
            }
            if h.ip == k2.ppe(&inputs, &r, &h.agg_c) { return skip("still true"); }
            done(ver(&vsrs, &k2.key::<P>(), &inputs, &h.proof()))
        }
        Attack::VerifierSrs(e) => {
            let mut s = vsrs.clone();
            if n < 2 && *e > 1 { return skip("one proof"); }
            match e {
                0 => s.g += P::g1(&delta),
                1 => s.h += P::g2(&delta),
                2 => s.g_beta += P::g1(&delta),
                _ => s.h_alpha += P::g2(&delta),
            }
            done(ver(&s, &key, &inputs, &h.proof()))
        }
        Attack::Mix(e, seed) => {
            let o: Vec<Sf<P>> = Vs { pat: Pat::Rand(*seed), over: vec![] }.f(2 * n);
            let q: Vec<[Sf<P>; 3]> = (0..n).map(|i| [o[i], o[n + i], vk.c(&o[i], &o[n + i], &inputs[i])]).collect();
            if q == p { return skip("same proofs"); }
            let Some((g, _)) = st.honest::<P, D>(&q) else { return skip("no opening point") };
            let mut a = h.clone();
            match e {
                0 => a.ab = g.ab,
                1 => a.c = g.c,
                2 => { a.ip = g.ip; a.agg_c = g.agg_c; }
                3 => a.com = g.com,
                _ => { a.ab = g.ab; a.c = g.c; a.ip = g.ip; a.agg_c = g.agg_c; }
            }
            ok(&inputs, &a)
        }
        Attack::InputsAfterR(i, j) => {
            if n < 2 || m == 0 { return skip("one proof or no inputs"); }
            let i = *i as usize % n;
            let j = (i + 1 + *j as usize % (n - 1)) % n;
            let w = powers(n, r);
            let k = c.seed as usize % m;
            let mut x = inputs.clone();
            x[i][k] += delta * inv(&w[i]);
            x[j][k] -= delta * inv(&w[j]);
            let v = ver(&vsrs, &key, &x, &h.proof());
            let info = pass(true).class(name.clone()).class(nclass(n));
            if v == V::True {
                return Ok(info.finding(
                    "groth16-combiner-does-not-bind-inputs",
                    "the inputs of two proofs changed by amounts that cancel under the combiner r, which is derived from the commitments alone, verify with the same aggregate",
                ));
            }
            Ok(info)
        }
        Attack::TipaAb(_) | Attack::TipaC(_) => {
            let (coms, ip, ac, ab, cc) = h.proof::<P, D>().verif_into_parts();
            let a = if let Attack::TipaAb(t) = &c.attack {
                let (g, ck, pi) = ab.verif_into_parts();
                let Some(g) = t.apply::<Pair<P>, D>(g, &delta) else { return skip("does not apply") };
                AggregateProof::verif_from_parts(coms, ip, ac, TpProof::<Pair<P>, P, D>::verif_from_parts(g, ck, pi), cc)
            } else if let Attack::TipaC(t) = &c.attack {
                if matches!(t, Tamper::BaseB | Tamper::BaseNeg(false, _)) { return skip("not part of the statement"); }
                let (g, ck, pi) = cc.verif_into_parts();
                let Some(g) = t.apply::<Ssm<Msm<P>>, D>(g, &delta) else { return skip("does not apply") };
                AggregateProof::verif_from_parts(coms, ip, ac, ab, TsProof::<Msm<P>, P, D>::verif_from_parts(g, ck, pi))
            } else {
                unreachable!()
            };
            done(ver(&vsrs, &key, &inputs, &a))
        }
        alter => {
            let mut a = h.clone();
            match alter {
                Attack::Com(i) => ripp_check::change!(a.com[*i as usize], delta),
                Attack::ComSwap => a.com.swap(0, 2),
                Attack::IpAb => ripp_check::change!(a.ip, delta),
                Attack::AggC => ripp_check::change!(a.agg_c, delta),
                Attack::IpAbAggC => {
                    a.ip += delta;
                    a.agg_c += delta;
                }
                Attack::Zeros => {
                    a.ip = zero;
                    a.agg_c = zero;
                    a.com = [zero; 3];
                }
                Attack::FinalKey(e) => match e {
                    0 => ripp_check::change!(a.ab.1.ck.0, delta),
                    1 => ripp_check::change!(a.ab.1.ck.1, delta),
                    2 => ripp_check::change!(a.ab.1.pi.0, delta),
                    3 => ripp_check::change!(a.ab.1.pi.1, delta),
                    4 => ripp_check::change!(a.c.1.ck.0, delta),
                    _ => ripp_check::change!(a.c.1.pi.0, delta),
                },
                _ => unreachable!(),
            }
            ok(&inputs, &a)
        }
    }
}

fn c18() -> Vec<Scenario> {
    use blake2::Blake2b;
    vec![
        Scenario::new("mock", 9000, 250_000, attack_case(0, 4, 4), soundness::<Big, Rec64>),
        Scenario::new("long", 80, 2000, attack_case(5, 6, 6), soundness::<Big, Rec64>),
        Scenario::new("longer", 48, 500, attack_case(7, 8, 8), soundness::<Big, Rec64>),
        Scenario::new("bw6-761", 10, 300, attack_case(0, 2, 2), soundness::<Bw6, Rec64>),
        Scenario::new("digest-32", 400, 6000, attack_case(0, 3, 3), soundness::<Big, Rec32>),
        Scenario::new("bls12-381", 90, 2000, attack_case(0, 2, 2), soundness::<Bls, Rec64>),
        Scenario::new("circuits/bls12-381", 32, 600, real_case, |c| real::<Bls, Blake2b>(c, true)),
    ]
}

fn main() {
    let _ = <ark_bls12_381::G1Affine as AffineRepr>::generator;
    ripp_check::fw::main(&[
        Property {
            id: "C17",
            rule: "A case is a number 2^k of proofs, a verification key with known trapdoors (random, or with zeros, ones and equal elements) and 0 to 5 inputs (now and then up to 45), simulated proofs for patterned inputs (with copies), a setup (the library's, or with given secrets) and a number of threads; or proofs of a generated circuit. Non-trivial: more than one proof, not all of them zero.",
            assumptions: &["arkworks pairings, groups and Groth16 are correct"],
            scenarios: c17,
        },
        Property {
            id: "C18",
            rule: "A case is a set of valid simulated proofs under known trapdoors and one attack: library-made aggregates with invalid proofs (also with errors that cancel without weights), aggregates that follow the protocol for false claims that satisfy the Groth16 equation, vectors or claims chosen after the combiner or after the rounds, changed inputs and keys, and alterations of every part. Non-trivial: the attack applied, changed the statement or the aggregate, and the same adversary is accepted on the true statement.",
            assumptions: &["arkworks pairings, groups and Groth16 are correct", "the digest behaves like a random oracle"],
            scenarios: c18,
        },
    ])
}
