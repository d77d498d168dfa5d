//! C21 (serialization) and C23 (verifiers that are given malformed proofs).
use ark_dh_commitments::identity::{HomomorphicPlaceholderValue, IdentityOutput};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ec::short_weierstrass::{Affine, Projective, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, Group};
use ark_ff::{BigInteger, Field, Fp12, Fp12Config, One, PrimeField, UniformRand, Zero};
use ark_groth16::{Proof, VerifyingKey};
use ark_ip_proofs::applications::groth16_aggregation::{aggregate_proofs, verify_aggregate_proof, AggregateProof};
use ark_ip_proofs::applications::poly_commit::{self as pc, transparent as tpc};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::malform::{how, mangle_gp, mangle_tp, mangle_ts, How, Op};
use ripp_check::poly::*;
use ripp_check::srs::*;
use ripp_check::st::*;
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

type Sf<P> = <P as Pairing>::ScalarField;

// ---------------------------------------------------------------- memory

/// Counts the bytes that a thread has requested
struct Counting;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + l.size() as u64));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

fn allocated<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = BYTES.with(|b| b.get());
    let t = f();
    (t, BYTES.with(|b| b.get()) - before)
}

/// What a verifier may request for a proof and key of that many bytes: far above what it needs, far
/// below anything exponential in the number of rounds.
fn allowance(bytes: usize) -> u64 {
    (48 << 20) + 2000 * bytes as u64
}

fn skip(why: &str) -> R {
    Ok(pass(false).class(format!("skipped: {}", why)))
}

fn enc<T: CanonicalSerialize>(x: &T, c: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, c).unwrap();
    v
}

const MODES: [Compress; 2] = [Compress::Yes, Compress::No];
fn mode(c: Compress) -> &'static str {
    match c {
        Compress::Yes => "compressed",
        Compress::No => "uncompressed",
    }
}

// ---------------------------------------------------------------- C21: what is written is read back

/// Encode and decode in all modes; returns the decoded values.
fn roundtrip<T: CanonicalSerialize + CanonicalDeserialize + Clone>(what: &str, x: &T, same: &dyn Fn(&T) -> bool, c: &Rt) -> Result<Vec<T>, String> {
    let mut out = vec![];
    for m in MODES {
        let mut b = vec![];
        attempt(|| x.serialize_with_mode(&mut b, m)).map_err(|e| format!("{}: {}", what, e))?;
        ensure!(b.len() == x.serialized_size(m), "{} ({}): {} bytes, but the announced size is {}", what, mode(m), b.len(), x.serialized_size(m));
        let mut b2 = vec![];
        match m {
            Compress::Yes => attempt(|| x.serialize_compressed(&mut b2))?,
            Compress::No => attempt(|| x.serialize_uncompressed(&mut b2))?,
        }
        let announced = if m == Compress::Yes { x.compressed_size() } else { x.uncompressed_size() };
        ensure!(b == b2 && announced == b.len(), "{} ({}): encoded in two ways", what, mode(m));
        ensure!(enc(&x.clone(), m) == b, "{} ({}): a copy of it has another encoding", what, mode(m));
        let mut data = b.clone();
        data.extend((0..c.trail).map(|i| i.wrapping_mul(37) ^ 0xa5));
        for v in [Validate::Yes, Validate::No] {
            let mut r = &data[..];
            let y = attempt(|| T::deserialize_with_mode(&mut r, m, v)).map_err(|e| format!("{} ({}) is not read back: {}", what, mode(m), e))?;
            ensure!(r.len() == c.trail as usize, "{} ({}): {} bytes left of {}", what, mode(m), r.len(), c.trail);
            ensure!(same(&y), "{} ({}): another value is read back", what, mode(m));
            ensure!(enc(&y, m) == b, "{} ({}): what is read back has another encoding", what, mode(m));
            out.push(y);
        }
        let cuts: Vec<usize> = if b.len() <= 400 {
            (0..b.len()).collect()
        } else {
            let some = c.cuts.iter().map(|i| *i as usize * b.len() / 65536);
            [0, 1, 7, 8, b.len() / 2, b.len() - 1].into_iter().chain(some).collect()
        };
        for i in cuts {
            for v in [Validate::Yes, Validate::No] {
                match quiet(|| T::deserialize_with_mode(&b[..i], m, v).is_ok()) {
                    Ok(false) => {}
                    Ok(true) => return Err(format!("{} ({}): the first {} of {} bytes are read as a value", what, mode(m), i, b.len())),
                    Err(p) => return Err(format!("{} ({}): reading the first {} of {} bytes panics: {}", what, mode(m), i, b.len(), p)),
                }
            }
        }
    }
    Ok(out)
}

fn plain<T: CanonicalSerialize + CanonicalDeserialize + PartialEq + Clone>(what: &str, x: &T, c: &Rt) -> Result<(), String> {
    roundtrip(what, x, &|y| y == x, c).map(|_| ())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    st: St,
    secrets: (Sc, Sc),
    delta: Sc,
    mask: u8,
    cuts: Vec<u16>,
    trail: u8,
    /// components of outputs in the clear
    comps: Vs,
    ncomps: usize,
}

fn rt_case(hi: u32) -> impl Fn() -> BoxedStrategy<Rt> + Send + Sync + 'static {
    move || {
        ((st(0, hi), (sc(), sc()), delta(), 1u8..8), (prop::collection::vec(any::<u16>(), 6), 0u8..20, vs(), 0usize..12))
            .prop_map(|((st, secrets, delta, mask), (cuts, trail, comps, ncomps))| Rt { st, secrets, delta, mask, cuts, trail, comps, ncomps })
            .boxed()
    }
}

fn gp_eq<I: Inst, D: Digest>(a: &GpProof<I, D>, b: &GpProof<I, D>) -> bool {
    a.clone().verif_into_parts() == b.clone().verif_into_parts()
}

/// The verdicts for the true and for an altered statement are those of the original
fn same_verdicts<T>(what: &str, orig: &T, decoded: &[T], truth: bool, f: &dyn Fn(&T, bool) -> V) -> Result<(), String> {
    for altered in [false, true] {
        let v = f(orig, altered);
        if !altered && truth {
            ensure!(v == V::True, "harness: honest {}: {:?}", what, v);
        }
        for d in decoded {
            let w = f(d, altered);
            ensure!(v == w, "{}: {:?} before, {:?} after serialization ({} statement)", what, v, w, if altered { "false" } else { "true" });
        }
    }
    Ok(())
}

fn elements<I: Inst>(d: &Dl<I::S>, c: &Rt) -> Result<(), String> {
    plain("left commitment", &I::lo(&d.com[0]), c)?;
    plain("right commitment", &I::ro(&d.com[1]), c)?;
    plain("commitment of the product", &I::to(&d.com[2]), c)?;
    plain("output of several components", &I::tos(&c.comps.f(c.ncomps)), c)?;
    plain("statement", &(I::lo(&d.com[0]), I::ro(&d.com[1]), I::to(&d.com[2])), c)?;
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    plain("left key", &ka, c)?;
    plain("right key", &kb, c)?;
    plain("product key", &kt, c)?;
    plain("left message", &I::lms(&d.a), c)?;
    plain("right message", &I::rms(&d.b), c)
}

fn ok(n: usize, c: &Rt) -> R {
    Ok(pass(n > 1).class(nclass(n)).class(if c.ncomps == 1 { "one component" } else if c.ncomps == 0 { "no components" } else { "several components" }))
}

fn decoded_for<T>(all: Vec<T>, real: bool) -> Vec<T> {
    // on real curves, two of the four are judged by the verifier
    if real { all.into_iter().step_by(2).collect() } else { all }
}

fn rt_gipa<I: Inst, D: Digest + 'static>(c: &Rt, real: bool) -> R {
    let d = c.st.dl::<I>();
    elements::<I>(&d, c)?;
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (proof, _) = attempt(|| Gp::<I, D>::prove_with_aux((&a, &b), (&ka, &kb, &[kt.clone()])))?;
    let dec = decoded_for(roundtrip("proof", &proof, &|y| gp_eq::<I, D>(y, &proof), c)?, real);
    let e = add_mask(&d.com, c.mask, &c.delta.nz());
    same_verdicts("proof", &proof, &dec, true, &|p, altered| {
        let com = if altered { &e } else { &d.com };
        verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&I::lo(&com[0]), &I::ro(&com[1]), &I::to(&com[2])), p))
    })?;
    // several proofs in one stream
    let many: Vec<GpProof<I, D>> = dec.into_iter().take(c.ncomps % 3).collect();
    roundtrip("list of proofs", &many, &|y| y.len() == many.len() && y.iter().zip(&many).all(|(y, p)| gp_eq::<I, D>(y, p)), c)?;
    ok(d.n(), c)
}

/// The scalar whose powers are the right message
fn powers_st<I: Inst<RM = <I as Inst>::S>>(c: &Rt) -> (I::S, Dl<I::S>) {
    let (n, s) = (c.st.n(), c.secrets.0.f::<I::S>());
    (s, Dl::new::<Ssm<I>>(c.st.a.f(n), powers(n, s), c.st.ka.f(n), vec![], c.st.kt.nz()))
}

fn rt_gssm<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Rt, real: bool) -> R {
    let (s, d) = powers_st::<I>(c);
    elements::<Ssm<I>>(&d, c)?;
    let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let proof = attempt(|| Gs::<I, D>::prove_with_structured_scalar_message((&a, &d.b), (&ka, &kt)))?;
    let dec = decoded_for(roundtrip("proof", &proof, &|y| gp_eq::<Ssm<I>, D>(y, &proof), c)?, real);
    let e = add_mask(&d.com, c.mask, &c.delta.nz());
    same_verdicts("proof", &proof, &dec, true, &|p, altered| {
        let com = if altered { &e } else { &d.com };
        verdict(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&I::lo(&com[0]), &I::to(&com[2])), &s, p))
    })?;
    ok(d.n(), c)
}

fn rt_tipa<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Rt, real: bool) -> R {
    let n = c.st.n();
    let s = SrsDl { n, alpha: c.secrets.0.nz(), beta: c.secrets.1.nz() };
    let one = I::S::one();
    let d = Dl::new::<I>(c.st.a.f(n), c.st.b.f(n), s.ka(&one), s.kb(), c.st.kt.nz());
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let proof = attempt(|| Tp::<I, P, D>::prove(&srs, (&a, &b), (&ka, &kb, &kt)))?;
    let parts = |p: &TpProof<I, P, D>| {
        let (g, ck, pi) = p.clone().verif_into_parts();
        (g.verif_into_parts(), ck, pi)
    };
    let dec = decoded_for(roundtrip("proof", &proof, &|y| parts(y) == parts(&proof), c)?, real);
    let e = add_mask(&d.com, c.mask, &c.delta.nz());
    same_verdicts("proof", &proof, &dec, true, &|p, altered| {
        let com = if altered { &e } else { &d.com };
        verdict(|| Tp::<I, P, D>::verify(&vk, &kt, (&I::lo(&com[0]), &I::ro(&com[1]), &I::to(&com[2])), p))
    })?;
    plain("opening keys", &(srs.g_alpha_powers.clone(), srs.h_beta_powers.clone()), c)?;
    ok(n, c)
}

fn rt_tssm<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Rt, real: bool) -> R {
    let n = c.st.n();
    let b = c.st.kt.f::<I::S>();
    let s = SrsDl { n, alpha: c.secrets.0.nz(), beta: c.secrets.1.nz() };
    let one = I::S::one();
    let d = Dl::new::<Ssm<I>>(c.st.a.f(n), powers(n, b), s.ka(&one), vec![], c.st.kt.nz());
    let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let (srs, vk) = (s.srs::<P>(), s.vk::<P>());
    let proof = attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&srs, (&a, &d.b), (&ka, &kt)))?;
    let parts = |p: &TsProof<I, P, D>| {
        let (g, ck, pi) = p.clone().verif_into_parts();
        (g.verif_into_parts(), ck, pi)
    };
    let dec = decoded_for(roundtrip("proof", &proof, &|y| parts(y) == parts(&proof), c)?, real);
    let e = add_mask(&d.com, c.mask, &c.delta.nz());
    same_verdicts("proof", &proof, &dec, true, &|p, altered| {
        let com = if altered { &e } else { &d.com };
        verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &kt, (&I::lo(&com[0]), &I::to(&com[2])), &b, p))
    })?;
    ok(n, c)
}

// ---------------------------------------------------------------- C21: elements outside the groups

/// Elements that belong to a larger structure, but not to the group of prime order
trait Outside: Sized + Clone {
    fn outside(&self, kind: u8, seed: u64) -> Option<Self>;
    /// only the uncompressed form can represent it
    fn only_uncompressed(_kind: u8) -> bool {
        false
    }
    /// scalars that occur in it
    fn scalars(&self) -> Vec<Vec<u8>> {
        vec![]
    }
    fn modulus() -> Vec<u8> {
        vec![]
    }
}

impl<C: SWCurveConfig> Outside for Projective<C> {
    fn only_uncompressed(kind: u8) -> bool {
        kind % 5 >= 3
    }
    fn outside(&self, kind: u8, seed: u64) -> Option<Self> {
        let mut r = rng(seed);
        let good = self.into_affine();
        match kind % 5 {
            // a point off the curve: another ordinate, or unrelated coordinates
            3 => {
                if good.is_zero() {
                    return None;
                }
                let p = Affine::<C>::new_unchecked(good.x, good.y + C::BaseField::one());
                return (!p.is_on_curve()).then(|| p.into());
            }
            4 => {
                let p = Affine::<C>::new_unchecked(C::BaseField::rand(&mut r), C::BaseField::rand(&mut r));
                return (!p.is_on_curve()).then(|| p.into());
            }
            _ => {}
        }
        let p = loop {
            if let Some(p) = Affine::<C>::get_point_from_x_unchecked(C::BaseField::rand(&mut r), seed & 1 == 1) {
                break p.into_group();
            }
        };
        let p = match kind % 5 {
            0 => p,
            // its component of cofactor order, alone or added to the right element
            1 => p.mul_bigint(C::ScalarField::MODULUS),
            _ => *self + p.mul_bigint(C::ScalarField::MODULUS),
        };
        (!p.mul_bigint(C::ScalarField::MODULUS).is_zero()).then(|| p.into_affine().into())
    }
}

/// Elements of the target field outside the group
trait FieldOutside: Field {
    fn cyclotomic(&self) -> Option<Self>;
}
impl<C: Fp12Config> FieldOutside for Fp12<C> {
    fn cyclotomic(&self) -> Option<Self> {
        let mut c = *self;
        c.conjugate_in_place();
        let f = c * self.inverse()?;
        Some(f.frobenius_map(2) * f)
    }
}

impl<P: Pairing> Outside for PairingOutput<P>
where
    P::TargetField: FieldOutside,
{
    fn outside(&self, kind: u8, seed: u64) -> Option<Self> {
        let mut r = rng(seed);
        let x = P::TargetField::rand(&mut r);
        let y = match kind % 6 {
            0 => x,
            1 => x.cyclotomic()?,
            2 => self.0 * x.cyclotomic()?.pow(P::ScalarField::characteristic()),
            3 => -self.0,
            4 => -P::TargetField::one(),
            _ => P::TargetField::zero(),
        };
        (y.pow(P::ScalarField::characteristic()) != P::TargetField::one()).then(|| PairingOutput(y))
    }
}

macro_rules! scalar_outside {
    ($F:ty) => {
        impl Outside for $F {
            fn outside(&self, _: u8, _: u64) -> Option<Self> {
                None
            }
            fn scalars(&self) -> Vec<Vec<u8>> {
                vec![enc(self, Compress::Yes)]
            }
            fn modulus() -> Vec<u8> {
                <$F>::MODULUS.to_bytes_le()
            }
        }
    };
}
scalar_outside!(ark_bls12_381::Fr);
scalar_outside!(ark_bls12_377::Fr);

impl Outside for HomomorphicPlaceholderValue {
    fn outside(&self, _: u8, _: u64) -> Option<Self> {
        None
    }
}

impl<T> Outside for IdentityOutput<T>
where
    T: Outside + CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq,
{
    fn only_uncompressed(kind: u8) -> bool {
        T::only_uncompressed(kind)
    }
    /// one to four components, of which one is wrong
    fn outside(&self, kind: u8, seed: u64) -> Option<Self> {
        let n = 1 + (seed >> 8) as usize % 4;
        let mut v: Vec<T> = (0..n).map(|_| self.0.first().cloned().unwrap_or_default()).collect();
        let i = (seed >> 16) as usize % n;
        v[i] = v[i].outside(kind, seed)?;
        Some(IdentityOutput(v))
    }
    fn scalars(&self) -> Vec<Vec<u8>> {
        self.0.iter().flat_map(|x| x.scalars()).collect()
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bad {
    st: St,
    secrets: (Sc, Sc),
    at: At,
    /// which part holds the wrong element
    part: u8,
    kind: u8,
    seed: u64,
}

fn bad_case(hi: u32) -> impl Fn() -> BoxedStrategy<Bad> + Send + Sync + 'static {
    move || {
        (st_rand(0, hi), (sc_rand(), sc_rand()), at(), 0u8..10, any::<u8>(), any::<u64>())
            .prop_map(|(st, secrets, at, part, kind, seed)| Bad { st, secrets, at, part, kind, seed })
            .boxed()
    }
}

fn refused<T: CanonicalSerialize + CanonicalDeserialize>(what: &str, x: &T, only_uncompressed: bool) -> Result<(), String> {
    for m in MODES {
        if only_uncompressed && m == Compress::Yes {
            continue;
        }
        let b = enc(x, m);
        match quiet(|| T::deserialize_with_mode(&b[..], m, Validate::Yes).is_ok()) {
            Ok(false) => {}
            Ok(true) => return Err(format!("{} ({}) with an element outside the group is read", what, mode(m))),
            Err(p) => return Err(format!("{} ({}) with an element outside the group: reading panics: {}", what, mode(m), p)),
        }
        // the methods that users call
        let r = match m {
            Compress::Yes => quiet(|| T::deserialize_compressed(&b[..]).is_ok()),
            Compress::No => quiet(|| T::deserialize_uncompressed(&b[..]).is_ok()),
        };
        ensure!(r == Ok(false), "{} ({}) with an element outside the group: {:?}", what, mode(m), r);
    }
    Ok(())
}

/// Replace the first occurrence of a scalar by the same number plus the modulus
fn overflow(b: &[u8], s: &[u8], modulus: &[u8]) -> Option<Vec<u8>> {
    let i = b.windows(s.len()).position(|w| w == s)?;
    let mut out = b.to_vec();
    let mut carry = 0u16;
    for j in 0..s.len() {
        let t = s[j] as u16 + *modulus.get(j).unwrap_or(&0) as u16 + carry;
        out[i + j] = t as u8;
        carry = t >> 8;
    }
    (carry == 0).then_some(out)
}

fn refuse_scalars<T: CanonicalSerialize + CanonicalDeserialize>(what: &str, x: &T, scalars: &[Vec<u8>], modulus: &[u8], i: usize) -> Result<bool, String> {
    if scalars.is_empty() {
        return Ok(false);
    }
    let s = &scalars[i % scalars.len()];
    for m in MODES {
        let b = enc(x, m);
        let Some(c) = overflow(&b, s, modulus) else { return Err("harness: the scalar is not found".into()) };
        for v in [Validate::Yes, Validate::No] {
            let r = quiet(|| T::deserialize_with_mode(&c[..], m, v).is_ok());
            ensure!(r == Ok(false), "{} ({}) with a scalar beyond the modulus: {:?}", what, mode(m), r);
        }
    }
    Ok(true)
}

type Parts<I> = (
    Vec<((<I as Inst>::LO, <I as Inst>::RO, <I as Inst>::TO), (<I as Inst>::LO, <I as Inst>::RO, <I as Inst>::TO))>,
    (<I as Inst>::LM, <I as Inst>::RM),
);

/// Put an element outside the group into a GIPA proof. Some(only uncompressed).
fn spoil<I: Inst>(p: &mut Parts<I>, c: &Bad) -> Option<bool>
where
    I::LO: Outside,
    I::RO: Outside,
    I::TO: Outside,
    I::LM: Outside,
    I::RM: Outside,
{
    macro_rules! put {
        ($x:expr, $t:ty) => {{
            *$x = $x.outside(c.kind, c.seed)?;
            Some(<$t>::only_uncompressed(c.kind))
        }};
    }
    if c.part == 0 {
        return put!(&mut p.1 .0, I::LM);
    }
    if c.part == 1 {
        return put!(&mut p.1 .1, I::RM);
    }
    let len = p.0.len();
    if len == 0 {
        return None;
    }
    let s = &mut p.0[c.at.round(len)];
    let x = if c.at.side { &mut s.0 } else { &mut s.1 };
    match c.at.slot() {
        0 => put!(&mut x.0, I::LO),
        1 => put!(&mut x.1, I::RO),
        _ => put!(&mut x.2, I::TO),
    }
}

fn all_scalars<I: Inst>(p: &Parts<I>) -> (Vec<Vec<u8>>, Vec<u8>)
where
    I::RO: Outside,
    I::TO: Outside,
    I::LM: Outside,
    I::RM: Outside,
    I::S: Outside,
{
    let mut v = vec![];
    for s in &p.0 {
        for x in [&s.0, &s.1] {
            v.extend(x.1.scalars());
            v.extend(x.2.scalars());
        }
    }
    v.extend(p.1 .0.scalars());
    v.extend(p.1 .1.scalars());
    (v, I::S::modulus())
}

fn bad_gipa<I: Inst, D: Digest + 'static>(c: &Bad) -> R
where
    I::LO: Outside,
    I::RO: Outside,
    I::TO: Outside,
    I::LM: Outside,
    I::RM: Outside,
    I::LK: Outside,
    I::RK: Outside,
    I::S: Outside,
{
    let d = c.st.dl::<I>();
    let i = c.at.round as usize;
    let done = |what: &str| Ok(pass(true).class(what).class(format!("kind {}", c.kind % 6)));
    match c.part {
        7 => {
            let Some(x) = I::lo(&d.com[0]).outside(c.kind, c.seed) else { return skip("no such element") };
            refused("left commitment", &x, I::LO::only_uncompressed(c.kind))?;
            if let Some(x) = I::ro(&d.com[1]).outside(c.kind, c.seed) {
                refused("right commitment", &x, I::RO::only_uncompressed(c.kind))?;
            }
            return done("commitment");
        }
        8 => {
            let mut v = I::lks(&d.ka);
            let i = i % v.len();
            let Some(x) = v[i].outside(c.kind, c.seed) else { return skip("no such element") };
            v[i] = x;
            refused("left key", &v, I::LK::only_uncompressed(c.kind))?;
            let mut v = I::rks(&d.kb);
            if let Some(x) = v[i].outside(c.kind, c.seed) {
                v[i] = x;
                refused("right key", &v, I::RK::only_uncompressed(c.kind))?;
            }
            return done("keys");
        }
        9 => {
            let x = I::tos(&[d.com[2], d.a[0], d.b[0]]);
            if let Some(x) = x.outside(c.kind, c.seed) {
                refused("product", &x, I::TO::only_uncompressed(c.kind))?;
                return done("product");
            }
            if refuse_scalars("product", &x, &x.scalars(), &I::S::modulus(), i)? {
                return done("product");
            }
            return skip("no such element");
        }
        _ => {}
    }
    let prog = ripp_check::adv::honest::<I, D>(&d, &d.com);
    let mut parts = prog.proof::<I, D>().verif_into_parts();
    if c.part == 2 {
        let (s, m) = all_scalars::<I>(&parts);
        let p = GpProof::<I, D>::verif_from_parts(parts.0, parts.1);
        return if refuse_scalars("proof", &p, &s, &m, i)? { done("scalar beyond the modulus") } else { skip("no scalars") };
    }
    let Some(only) = spoil::<I>(&mut parts, c) else { return skip("no such element") };
    refused("proof", &GpProof::<I, D>::verif_from_parts(parts.0, parts.1), only)?;
    done(if c.part < 2 { "final message" } else { ["left round message", "right round message", "round product"][c.at.slot()] })
}

fn bad_tipa<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Bad) -> R
where
    I::LO: Outside,
    I::RO: Outside,
    I::TO: Outside,
    I::LM: Outside,
    I::RM: Outside,
    P::G1: Outside,
    P::G2: Outside,
{
    let s = SrsDl { n: c.st.n(), alpha: c.secrets.0.nz::<I::S>(), beta: c.secrets.1.nz() };
    let d = Dl::new::<I>(c.st.a.f(s.n), c.st.b.f(s.n), s.ka(&I::S::one()), s.kb(), c.st.kt.nz());
    let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let proof = attempt(|| Tp::<I, P, D>::prove(&s.srs::<P>(), (&a, &b), (&ka, &kb, &kt)))?;
    let (g, mut ck, mut pi) = proof.verif_into_parts();
    let mut parts = g.verif_into_parts();
    let g2 = |x: &P::G2| x.outside(c.kind, c.seed);
    let g1 = |x: &P::G1| x.outside(c.kind, c.seed);
    let only = <P::G1 as Outside>::only_uncompressed(c.kind);
    let (found, what) = match c.part {
        2 | 6 => (g2(&ck.0).map(|x| { ck.0 = x; only }), "final key"),
        3 | 7 => (g1(&ck.1).map(|x| { ck.1 = x; only }), "final key"),
        4 | 8 => (g2(&pi.0).map(|x| { pi.0 = x; only }), "key opening"),
        5 | 9 => (g1(&pi.1).map(|x| { pi.1 = x; only }), "key opening"),
        _ => (spoil::<I>(&mut parts, c), "final message"),
    };
    let Some(only) = found else { return skip("no such element") };
    let g = GpProof::<I, D>::verif_from_parts(parts.0, parts.1);
    refused("proof", &TpProof::<I, P, D>::verif_from_parts(g, ck, pi), only)?;
    Ok(pass(true).class(what).class(format!("kind {}", c.kind % 6)))
}

fn bad_tssm<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Bad) -> R
where
    I::LO: Outside,
    I::TO: Outside,
    I::LM: Outside,
    I::S: Outside,
    P::G2: Outside,
{
    let s = SrsDl { n: c.st.n(), alpha: c.secrets.0.nz::<I::S>(), beta: c.secrets.1.nz() };
    let d = Dl::new::<Ssm<I>>(c.st.a.f(s.n), powers(s.n, c.secrets.0.f()), s.ka(&I::S::one()), vec![], c.st.kt.nz());
    let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
    let proof = attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&s.srs::<P>(), (&a, &d.b), (&ka, &kt)))?;
    let (g, mut ck, mut pi) = proof.verif_into_parts();
    let mut parts = g.verif_into_parts();
    let only = <P::G2 as Outside>::only_uncompressed(c.kind);
    let (found, what) = match c.part {
        2..=4 => (ck.outside(c.kind, c.seed).map(|x| { ck = x; only }), "final key"),
        5..=7 => (pi.outside(c.kind, c.seed).map(|x| { pi = x; only }), "key opening"),
        9 => {
            let (sc, m) = all_scalars::<Ssm<I>>(&parts);
            let p = TsProof::<I, P, D>::verif_from_parts(GpProof::<Ssm<I>, D>::verif_from_parts(parts.0, parts.1), ck, pi);
            refuse_scalars("proof", &p, &sc, &m, c.at.round as usize)?;
            return Ok(pass(true).class("scalar beyond the modulus"));
        }
        _ => (spoil::<Ssm<I>>(&mut parts, c), "inner proof"),
    };
    let Some(only) = found else { return skip("no such element") };
    let g = GpProof::<Ssm<I>, D>::verif_from_parts(parts.0, parts.1);
    refused("proof", &TsProof::<I, P, D>::verif_from_parts(g, ck, pi), only)?;
    Ok(pass(true).class(what).class(format!("kind {}", c.kind % 6)))
}

fn c21() -> Vec<Scenario> {
    use blake2::Blake2b;
    vec![
        Scenario::new("gipa/pairing", 500, 15_000, rt_case(5), |c| rt_gipa::<Pair<Big>, Rec64>(c, false)),
        Scenario::new("gipa/multiexp", 500, 15_000, rt_case(5), |c| rt_gipa::<Msm<Big>, Rec64>(c, false)),
        Scenario::new("gipa/multiexp-keyed", 400, 15_000, rt_case(5), |c| rt_gipa::<MsmKey<Big>, Rec64>(c, false)),
        Scenario::new("gipa/multiexp-g2", 300, 10_000, rt_case(4), |c| rt_gipa::<MsmG2<Big>, Rec64>(c, false)),
        Scenario::new("gipa/scalar", 500, 15_000, rt_case(5), |c| rt_gipa::<Scal<Big>, Rec64>(c, false)),
        Scenario::new("gipa/scalar-keyed", 400, 15_000, rt_case(5), |c| rt_gipa::<ScalKey<Big>, Rec64>(c, false)),
        Scenario::new("gipa-ssm/multiexp", 400, 15_000, rt_case(5), |c| rt_gssm::<Msm<Big>, Rec64>(c, false)),
        Scenario::new("gipa-ssm/scalar", 400, 15_000, rt_case(5), |c| rt_gssm::<ScalG1<Big>, Rec64>(c, false)),
        Scenario::new("tipa/pairing", 500, 15_000, rt_case(4), |c| rt_tipa::<Pair<Big>, Big, Rec64>(c, false)),
        Scenario::new("tipa/multiexp-keyed", 500, 15_000, rt_case(4), |c| rt_tipa::<MsmKey<Big>, Big, Rec64>(c, false)),
        Scenario::new("tipa/scalar", 500, 15_000, rt_case(4), |c| rt_tipa::<Scal<Big>, Big, Rec64>(c, false)),
        Scenario::new("tipa-ssm/multiexp", 500, 15_000, rt_case(4), |c| rt_tssm::<Msm<Big>, Big, Rec64>(c, false)),
        Scenario::new("tipa-ssm/scalar-keyed", 500, 15_000, rt_case(4), |c| rt_tssm::<ScalKey<Big>, Big, Rec64>(c, false)),
        Scenario::new("gipa/bls12-381/pairing", 16, 400, rt_case(2), |c| rt_gipa::<Pair<Bls>, Blake2b>(c, true)),
        Scenario::new("gipa/bls12-381/multiexp", 16, 400, rt_case(2), |c| rt_gipa::<Msm<Bls>, Blake2b>(c, true)),
        Scenario::new("gipa/bls12-381/scalar", 16, 400, rt_case(3), |c| rt_gipa::<Scal<Bls>, Blake2b>(c, true)),
        Scenario::new("tipa/bls12-381/pairing", 16, 400, rt_case(2), |c| rt_tipa::<Pair<Bls>, Bls, Blake2b>(c, true)),
        Scenario::new("tipa-ssm/bls12-381/multiexp", 16, 400, rt_case(2), |c| rt_tssm::<Msm<Bls>, Bls, Blake2b>(c, true)),
        Scenario::new("tipa-ssm/bls12-377/scalar", 10, 200, rt_case(2), |c| rt_tssm::<Scal<Bls377>, Bls377, Blake2b>(c, true)),
        Scenario::new("tipa-ssm/bw6-761/multiexp", 8, 150, rt_case(2), |c| rt_tssm::<Msm<Bw6>, Bw6, Blake2b>(c, true)),
        Scenario::new("outside/gipa/pairing", 150, 3000, bad_case(2), bad_gipa::<Pair<Bls>, Blake2b>),
        Scenario::new("outside/gipa/multiexp", 150, 3000, bad_case(2), bad_gipa::<Msm<Bls>, Blake2b>),
        Scenario::new("outside/gipa/multiexp-keyed", 80, 2000, bad_case(2), bad_gipa::<MsmKey<Bls>, Blake2b>),
        Scenario::new("outside/gipa/multiexp-g2", 80, 2000, bad_case(2), bad_gipa::<MsmG2<Bls>, Blake2b>),
        Scenario::new("outside/gipa/scalar", 150, 3000, bad_case(2), bad_gipa::<Scal<Bls>, Blake2b>),
        Scenario::new("outside/gipa/scalar/bls12-377", 60, 1000, bad_case(2), bad_gipa::<Scal<Bls377>, Blake2b>),
        Scenario::new("outside/tipa/pairing", 80, 2000, bad_case(1), bad_tipa::<Pair<Bls>, Bls, Blake2b>),
        Scenario::new("outside/tipa/multiexp/bls12-377", 40, 1000, bad_case(1), bad_tipa::<Msm<Bls377>, Bls377, Blake2b>),
        Scenario::new("outside/tipa-ssm/multiexp", 80, 2000, bad_case(1), bad_tssm::<Msm<Bls>, Bls, Blake2b>),
        Scenario::new("outside/tipa-ssm/scalar", 80, 2000, bad_case(1), bad_tssm::<Scal<Bls>, Bls, Blake2b>),
    ]
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Claim {
    True,
    /// wrong commitments, product, scalar or value
    Wrong(u8),
    /// a product of that many components
    Comps(u8),
    Zero,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mf {
    st: St,
    other: St,
    how: How,
    /// for the second proof where there are two
    how2: How,
    /// other elements of the proof
    outer: Vec<(u8, Option<u64>)>,
    claim: Claim,
    delta: Sc,
    /// the keys are others, of the length that fits the number of rounds
    rekey: Option<u64>,
    secrets: (Sc, Sc),
    seed: u64,
}

fn mf_case(hi: u32, many: bool) -> impl Fn() -> BoxedStrategy<Mf> + Send + Sync + 'static {
    move || {
        let claim = prop_oneof![3 => Just(Claim::True), 4 => (1u8..8).prop_map(Claim::Wrong), 2 => (0u8..5).prop_map(Claim::Comps), 1 => Just(Claim::Zero)];
        let outer = prop_oneof![
            2 => Just(vec![]),
            1 => prop::collection::vec((any::<u8>(), prop::option::of(any::<u64>())), 1..3),
        ];
        (
            (st_rand(0, hi), st_rand(0, hi), how(many), how(many), outer),
            (claim, delta(), prop::option::weighted(0.2, any::<u64>()), (sc_rand(), sc_rand()), any::<u64>()),
        )
            .prop_map(|((st, other, how, how2, outer), (claim, delta, rekey, secrets, seed))| Mf {
                st, other, how, how2, outer, claim, delta, rekey, secrets, seed,
            })
            .boxed()
    }
}

/// Deform, verify, judge. None: nothing that can be decoded.
fn present<T>(
    hows: (&How, &How),
    mangle: &dyn Fn((&How, &How)) -> Result<Option<T>, String>,
    size: &dyn Fn(&T) -> usize,
    verify: &dyn Fn(&T) -> V,
    is_false: bool,
) -> Result<Option<(T, V)>, String> {
    let mut all = vec![];
    let (t1, t2) = (hows.0.tame(), hows.1.tame());
    if t1.is_some() || t2.is_some() {
        all.push((t1.map_or(hows.0.clone(), |t| t.0), t2.map_or(hows.1.clone(), |t| t.0)));
    }
    all.push((hows.0.clone(), hows.1.clone()));
    let mut last = None;
    for (a, b) in &all {
        let (p, bytes) = allocated(|| mangle((a, b)));
        let Some(p) = p? else { return Ok(None) };
        let n = size(&p);
        ensure!(bytes <= allowance(n), "making or decoding a proof of {} bytes takes {} bytes", n, bytes);
        let (v, bytes) = allocated(|| verify(&p));
        if let V::Panic(e) = &v {
            return Err(format!("the verifier panics: {}", e));
        }
        ensure!(bytes <= allowance(n), "the verifier requests {} bytes for a proof of {} bytes", bytes, n);
        ensure!(!(is_false && v == V::True), "a proof is accepted for a false statement");
        last = Some((p, v));
    }
    Ok(last)
}

fn report(c: &Mf, res: Option<V>, unchanged: bool, is_false: bool, hows: &[&How]) -> R {
    let Some(v) = res else { return skip("does not decode") };
    if unchanged && !is_false && !matches!(c.claim, Claim::Zero) && c.rekey.is_none() {
        ensure!(v == V::True, "the honest proof: {:?}", v);
    }
    let mut p = pass(!unchanged || is_false);
    for h in hows {
        p = p.class(h.class());
    }
    Ok(p.class(match v { V::True => "accepted", V::False => "false", _ => "error" })
        .class(if is_false { "false statement" } else if matches!(c.claim, Claim::Zero) { "zero statement" } else { "true statement" }))
}

/// The statement presented, and whether it is false
fn claimed<I: Inst>(c: &Mf, com: &[I::S; 3]) -> ((I::LO, I::RO, I::TO), bool) {
    let z = I::S::zero();
    match &c.claim {
        Claim::True => (ripp_check::adv::el3::<I>(com), c.rekey.is_some()),
        Claim::Wrong(mask) => {
            let e = add_mask(com, *mask, &c.delta.nz());
            // one element: the structured message is (1), whatever the scalar
            let same = !I::RIGHT && c.st.k == 0 && mask & 5 == 0;
            (ripp_check::adv::el3::<I>(&e), !same || c.rekey.is_some())
        }
        Claim::Comps(n) => {
            let mut r = rng(c.seed);
            let mut v: Vec<I::S> = (0..*n).map(|_| I::S::rand(&mut r)).collect();
            if let Some(x) = v.first_mut() {
                if c.seed & 1 == 0 {
                    *x = com[2];
                }
            }
            let bad = if I::KEYED { v.first() != Some(&com[2]) } else { v != [com[2]] };
            ((I::lo(&com[0]), I::ro(&com[1]), I::tos(&v)), bad || c.rekey.is_some())
        }
        Claim::Zero => (ripp_check::adv::el3::<I>(&[z, z, z]), false),
    }
}

fn gp_size<I: Inst, D: Digest>(p: &GpProof<I, D>) -> usize {
    p.serialized_size(Compress::No)
}

fn mal_gipa<I: Inst, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let (mut d, o) = (c.st.dl::<I>(), c.other.dl::<I>());
    let honest = ripp_check::adv::honest::<I, D>(&d, &d.com).proof::<I, D>();
    let other = ripp_check::adv::honest::<I, D>(&o, &o.com).proof::<I, D>();
    let (com, is_false) = claimed::<I>(c, &d.com);
    let is_false = is_false && sound;
    let mangle = |h: (&How, &How)| mangle_gp::<I, D>(h.0, honest.clone(), &other);
    if let Some(s) = c.rekey {
        let rounds = mangle((&c.how, &c.how2))?.map_or(0, |p| p.verif_into_parts().0.len()).min(6);
        let mut r = rng(s);
        d.ka = (0..1 << rounds).map(|_| I::S::rand(&mut r)).collect();
        d.kb = (0..1 << rounds).map(|_| I::S::rand(&mut r)).collect();
    }
    let (ka, kb, kt) = (I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
    let verify = |p: &GpProof<I, D>| verdict(|| Gp::<I, D>::verify((&ka, &kb, &kt), (&com.0, &com.1, &com.2), p));
    let r = present((&c.how, &c.how), &mangle, &|p| gp_size::<I, D>(p) + 1000 * ka.len(), &verify, is_false)?;
    let same = r.as_ref().map_or(false, |r| gp_eq::<I, D>(&r.0, &honest));
    report(c, r.map(|r| r.1), same, is_false || !sound, &[&c.how])
}

fn mal_gssm<I: Inst<RM = <I as Inst>::S>, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let make = |st: &St, s: I::S| {
        let n = st.n();
        let mut d = Dl::new::<Ssm<I>>(st.a.f(n), powers(n, s), st.ka.f(n), vec![], st.kt.nz());
        d.com[1] = s;
        d
    };
    let (mut d, o) = (make(&c.st, c.secrets.0.f()), make(&c.other, c.secrets.1.f()));
    let honest = ripp_check::adv::honest::<Ssm<I>, D>(&d, &d.com).proof::<Ssm<I>, D>();
    let other = ripp_check::adv::honest::<Ssm<I>, D>(&o, &o.com).proof::<Ssm<I>, D>();
    let (com, is_false) = claimed::<Ssm<I>>(c, &d.com);
    let is_false = is_false && sound;
    let mangle = |h: (&How, &How)| mangle_gp::<Ssm<I>, D>(h.0, honest.clone(), &other);
    if let Some(s) = c.rekey {
        let rounds = mangle((&c.how, &c.how2))?.map_or(0, |p| p.verif_into_parts().0.len()).min(6);
        let mut r = rng(s);
        d.ka = (0..1 << rounds).map(|_| I::S::rand(&mut r)).collect();
    }
    let (ka, kt) = (I::lks(&d.ka), I::tk(&d.kt));
    let verify = |p: &GpProof<Ssm<I>, D>| verdict(|| Gs::<I, D>::verify_with_structured_scalar_message((&ka, &kt), (&com.0, &com.2), &com.1, p));
    let r = present((&c.how, &c.how), &mangle, &|p| gp_size::<Ssm<I>, D>(p) + 1000 * ka.len(), &verify, is_false)?;
    let same = r.as_ref().map_or(false, |r| gp_eq::<Ssm<I>, D>(&r.0, &honest));
    report(c, r.map(|r| r.1), same, is_false || !sound, &[&c.how])
}

fn mal_tipa<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let mut c = c.clone();
    c.rekey = None;
    let (alpha, beta) = (c.secrets.0.nz::<I::S>(), c.secrets.1.nz());
    let make = |st: &St| {
        let s = SrsDl { n: st.n(), alpha, beta };
        let d = Dl::new::<I>(st.a.f(s.n), st.b.f(s.n), s.ka(&I::S::one()), s.kb(), c.st.kt.nz());
        let (a, b, ka, kb, kt) = (I::lms(&d.a), I::rms(&d.b), I::lks(&d.ka), I::rks(&d.kb), I::tk(&d.kt));
        let p = attempt(|| Tp::<I, P, D>::prove(&s.srs::<P>(), (&a, &b), (&ka, &kb, &kt)))?;
        Ok::<_, String>((s.vk::<P>(), d, p))
    };
    let ((vk, d, honest), (_, _, other)) = (make(&c.st)?, make(&c.other)?);
    let (com, is_false) = claimed::<I>(&c, &d.com);
    let is_false = is_false && sound;
    let kt = I::tk(&d.kt);
    let r = present(
        (&c.how, &c.how),
        &|h| mangle_tp::<I, P, D>(h.0, honest.clone(), &other),
        &|p| p.serialized_size(Compress::No),
        &|p| verdict(|| Tp::<I, P, D>::verify(&vk, &kt, (&com.0, &com.1, &com.2), p)),
        is_false,
    )?;
    let same = r.as_ref().map_or(false, |r| enc(&r.0, Compress::No) == enc(&honest, Compress::No));
    report(&c, r.map(|r| r.1), same, is_false || !sound, &[&c.how])
}

fn mal_tssm<I: SInst<P>, P: CurveEx, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let mut c = c.clone();
    c.rekey = None;
    let (alpha, beta) = (c.secrets.0.nz::<I::S>(), c.secrets.1.nz());
    let make = |st: &St| {
        let s = SrsDl { n: st.n(), alpha, beta };
        let b: I::S = rng_scalar(c.seed);
        let mut d = Dl::new::<Ssm<I>>(st.a.f(s.n), powers(s.n, b), s.ka(&I::S::one()), vec![], c.st.kt.nz());
        d.com[1] = b;
        let (a, ka, kt) = (I::lms(&d.a), I::lks(&d.ka), I::tk(&d.kt));
        let p = attempt(|| Ts::<I, P, D>::prove_with_structured_scalar_message(&s.srs::<P>(), (&a, &d.b), (&ka, &kt)))?;
        Ok::<_, String>((s.vk::<P>(), d, p))
    };
    let ((vk, d, honest), (_, _, other)) = (make(&c.st)?, make(&c.other)?);
    let (com, is_false) = claimed::<Ssm<I>>(&c, &d.com);
    let is_false = is_false && sound;
    let kt = I::tk(&d.kt);
    let r = present(
        (&c.how, &c.how),
        &|h| mangle_ts::<I, P, D>(h.0, honest.clone(), &other),
        &|p| p.serialized_size(Compress::No),
        &|p| verdict(|| Ts::<I, P, D>::verify_with_structured_scalar_message(&vk, &kt, (&com.0, &com.2), &com.1, p)),
        is_false,
    )?;
    let same = r.as_ref().map_or(false, |r| enc(&r.0, Compress::No) == enc(&honest, Compress::No));
    report(&c, r.map(|r| r.1), same, is_false || !sound, &[&c.how])
}

fn rng_scalar<F: PrimeField>(s: u64) -> F {
    F::rand(&mut rng(s))
}

/// Element number i of those beside the inner proofs is replaced: by zero, or by a random one
fn outer_scalar<F: PrimeField>(c: &Mf, i: usize, of: usize) -> Option<F> {
    c.outer.iter().find(|(k, _)| *k as usize % of == i).map(|(_, s)| s.map_or(F::zero(), rng_scalar))
}

fn biv_poly<F: PrimeField>(st: &St, len: usize) -> Vec<Vec<F>> {
    let all = st.a.f::<F>(st.n() * len);
    all.chunks(len).map(|c| c.to_vec()).collect()
}

fn value<F: PrimeField>(c: &Mf, v: &F) -> (F, bool) {
    match c.claim {
        Claim::True | Claim::Comps(_) => (*v, false),
        Claim::Wrong(_) => (*v + c.delta.nz::<F>(), true),
        Claim::Zero => (F::zero(), true),
    }
}

fn mal_pc<P: CurveEx, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let mut c = c.clone();
    c.rekey = None;
    let len = 1 << c.other.k;
    let srs = attempt(|| pc::BivariatePolynomialCommitment::<P, D>::setup(&mut rng(c.seed), c.st.n() - 1, len - 1))?;
    let vk = srs.0.get_verifier_key();
    let point = (c.secrets.0.f::<Sf<P>>(), c.secrets.1.f::<Sf<P>>());
    let open = |st: &St| {
        let p = biv_poly::<Sf<P>>(st, len);
        let f = pc::BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
        let (com, rows) = attempt(|| pc::BivariatePolynomialCommitment::<P, D>::commit(&srs, &f))?;
        let proof = attempt(|| pc::BivariatePolynomialCommitment::<P, D>::open(&srs, &f, &rows, &point))?;
        Ok::<_, String>((com, eval2(&p, &point.0, &point.1), proof.verif_into_parts()))
    };
    let (com, v, honest) = open(&c.st)?;
    let (_, _, other) = open(&St { a: c.st.b.clone(), ..c.st.clone() })?;
    let (v, is_false) = value(&c, &v);
    let is_false = is_false && sound;
    let r = present(
        (&c.how, &c.how),
        &|h| {
            let Some(ts) = mangle_ts::<Msm<P>, P, D>(h.0, honest.0.clone(), &other.0)? else { return Ok(None) };
            let ye = outer_scalar(&c, 0, 2).map_or(honest.1, |x| P::g1(&x));
            let kz = outer_scalar(&c, 1, 2).map_or(honest.2, |x| P::g1(&x));
            Ok(Some((enc(&ts, Compress::No).len(), pc::OpeningProof::<P, D>::verif_from_parts(ts, ye, kz))))
        },
        &|p| p.0,
        &|p| verdict(|| pc::BivariatePolynomialCommitment::<P, D>::verify(&vk, &com, &point, &v, &p.1)),
        is_false,
    )?;
    let same = c.outer.is_empty() && matches!(&c.how, How::Bytes(o, ..) if o.iter().all(|o| matches!(o, Op::Nothing)));
    c.claim = if is_false { c.claim } else { Claim::True };
    report(&c, r.map(|r| r.1), same, is_false || !sound, &[&c.how])
}

fn mal_tpc<P: CurveEx, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let mut c = c.clone();
    c.rekey = None;
    type B<P, D> = tpc::BivariatePolynomialCommitment<P, D>;
    let len = 1 << c.other.k;
    let ck = attempt(|| B::<P, D>::setup(&mut rng(c.seed), c.st.n() - 1, len - 1))?;
    let point = (c.secrets.0.f::<Sf<P>>(), c.secrets.1.f::<Sf<P>>());
    let open = |st: &St| {
        let p = biv_poly::<Sf<P>>(st, len);
        let f = tpc::BivariatePolynomial::verif_new(p.iter().map(|r| dense(r)).collect());
        let (com, rows) = attempt(|| B::<P, D>::commit(&ck, &f))?;
        let proof = attempt(|| B::<P, D>::open(&ck, &f, &rows, &point))?;
        Ok::<_, String>((com, eval2(&p, &point.0, &point.1), proof.verif_into_parts()))
    };
    let (com, v, honest) = open(&c.st)?;
    let (_, _, other) = open(&St { a: c.st.b.clone(), ..c.st.clone() })?;
    let (v, is_false) = value(&c, &v);
    let is_false = is_false && sound;
    let nothing = How::Bytes(vec![Op::Nothing], true, true);
    // one of the two tiers, or both
    let hows = match c.seed % 3 {
        0 => (&c.how, &nothing),
        1 => (&nothing, &c.how2),
        _ => (&c.how, &c.how2),
    };
    let r = present(
        hows,
        &|h| {
            let Some(p2) = mangle_gp::<Ssm<Msm<P>>, D>(h.0, honest.0.clone(), &other.0)? else { return Ok(None) };
            let Some(p1) = mangle_gp::<Ssm<ScalG1<P>>, D>(h.1, honest.2.clone(), &other.2)? else { return Ok(None) };
            let ye = outer_scalar(&c, 0, 1).map_or(honest.1, |x| P::g1(&x));
            let n = enc(&p2, Compress::No).len() + enc(&p1, Compress::No).len();
            Ok(Some((n, tpc::OpeningProof::<P, D>::verif_from_parts(p2, ye, p1))))
        },
        &|p| p.0 + 1000 * (ck.0.len() + ck.1.len()),
        &|p| verdict(|| B::<P, D>::verify(&ck, &com, &point, &v, &p.1)),
        is_false,
    )?;
    let same = c.outer.is_empty() && [hows.0, hows.1].iter().all(|h| matches!(h, How::Bytes(o, ..) if o.iter().all(|o| matches!(o, Op::Nothing))));
    c.claim = if is_false { c.claim.clone() } else { Claim::True };
    report(&c, r.map(|r| r.1), same, is_false || !sound, &[hows.0, hows.1])
}

fn mal_groth<P: CurveEx, D: Digest + 'static>(c: &Mf, sound: bool) -> R {
    let mut c = c.clone();
    c.rekey = None;
    let (n, m) = (c.st.n(), 1 + c.other.n() % 4);
    let mut r = rng(c.seed);
    let t: Vec<Sf<P>> = (0..4).map(|_| Sf::<P>::rand(&mut r)).collect();
    let abc: Vec<Sf<P>> = (0..=m).map(|_| Sf::<P>::rand(&mut r)).collect();
    let (alpha, beta, gamma, delta) = (t[0], t[1], t[2], if t[3].is_zero() { Sf::<P>::one() } else { t[3] });
    let g2 = P::g2a(&[beta, gamma, delta]);
    let vk = VerifyingKey::<P> { alpha_g1: P::g1a(&[alpha])[0], beta_g2: g2[0], gamma_g2: g2[1], delta_g2: g2[2], gamma_abc_g1: P::g1a(&abc) };
    let s = SrsDl { n, alpha: c.secrets.0.nz::<Sf<P>>(), beta: c.secrets.1.nz() };
    let srs = s.srs::<P>();
    let aggregate = |a: &Vs, b: &Vs, x: &Vs| {
        let (a, b): (Vec<Sf<P>>, Vec<Sf<P>>) = (a.f(n), b.f(n));
        let inputs: Vec<Vec<Sf<P>>> = x.f::<Sf<P>>(n * m).chunks(m).map(|c| c.to_vec()).collect();
        let proofs: Vec<Proof<P>> = (0..n)
            .map(|i| {
                let ic = abc[0] + dot(&abc[1..], &inputs[i]);
                let k = (a[i] * b[i] - alpha * beta - ic * gamma) * inv(&delta);
                Proof { a: P::g1a(&[a[i]])[0], b: P::g2a(&[b[i]])[0], c: P::g1a(&[k])[0] }
            })
            .collect();
        let agg = attempt(|| aggregate_proofs::<P, D>(&srs, &proofs))?;
        Ok::<_, String>((inputs, agg.verif_into_parts()))
    };
    let (mut inputs, honest) = aggregate(&c.st.a, &c.st.b, &c.st.ka)?;
    let (_, other) = aggregate(&c.st.b, &c.st.ka, &c.st.kb)?;
    let i = c.seed as usize % n;
    let is_false = match &c.claim {
        Claim::True => false,
        Claim::Wrong(k) => {
            inputs[i][*k as usize % m] += c.delta.nz::<Sf<P>>();
            true
        }
        Claim::Comps(k) => {
            // another number of rows
            let rows = inputs.len();
            inputs.resize(1 + *k as usize, vec![c.delta.nz(); m]);
            inputs.len() != rows
        }
        Claim::Zero => {
            inputs.iter_mut().for_each(|x| x.iter_mut().for_each(|x| *x = Sf::<P>::zero()));
            true
        }
    } && sound;
    let nothing = How::Bytes(vec![Op::Nothing], true, true);
    let hows = match c.seed >> 8 & 3 {
        0 => (&nothing, &nothing),
        1 => (&nothing, &c.how2),
        2 => (&c.how, &nothing),
        _ => (&c.how, &c.how2),
    };
    let (gt, g1) = (|i: usize| outer_scalar(&c, i, 5).map(|x| P::gt(&x)), |i: usize| outer_scalar(&c, i, 5).map(|x| P::g1(&x)));
    let r = present(
        hows,
        &|h| {
            let Some(ab) = mangle_tp::<Pair<P>, P, D>(h.0, honest.3.clone(), &other.3)? else { return Ok(None) };
            let Some(cc) = mangle_ts::<Msm<P>, P, D>(h.1, honest.4.clone(), &other.4)? else { return Ok(None) };
            let coms = (gt(0).unwrap_or(honest.0 .0), gt(1).unwrap_or(honest.0 .1), gt(2).unwrap_or(honest.0 .2));
            let n = enc(&ab, Compress::No).len() + enc(&cc, Compress::No).len();
            Ok(Some((n, AggregateProof::<P, D>::verif_from_parts(coms, gt(3).unwrap_or(honest.1), g1(4).unwrap_or(honest.2), ab, cc))))
        },
        &|p| p.0 + 1000 * inputs.len(),
        &|p| verdict(|| verify_aggregate_proof::<P, D>(&s.vk::<P>(), &vk, &inputs, &p.1)),
        is_false,
    )?;
    let same = c.outer.is_empty() && [hows.0, hows.1].iter().all(|h| matches!(h, How::Bytes(o, ..) if o.iter().all(|o| matches!(o, Op::Nothing))));
    let used = [hows.0, hows.1];
    c.claim = if is_false { c.claim.clone() } else { Claim::True };
    report(&c, r.map(|r| r.1), same, is_false || !sound, &used)
}

fn c23() -> Vec<Scenario> {
    use blake2::Blake2b;
    vec![
        Scenario::new("gipa/pairing", 1500, 60_000, mf_case(4, true), |c| mal_gipa::<Pair<Big>, Rec64>(c, true)),
        Scenario::new("gipa/multiexp", 1500, 60_000, mf_case(4, true), |c| mal_gipa::<Msm<Big>, Rec64>(c, true)),
        Scenario::new("gipa/multiexp-keyed", 1000, 60_000, mf_case(4, true), |c| mal_gipa::<MsmKey<Big>, Rec64>(c, true)),
        Scenario::new("gipa/scalar", 2000, 60_000, mf_case(4, true), |c| mal_gipa::<Scal<Big>, Rec64>(c, true)),
        Scenario::new("gipa/scalar-keyed", 1000, 60_000, mf_case(4, true), |c| mal_gipa::<ScalKey<Big>, Rec64>(c, true)),
        Scenario::new("gipa-ssm/multiexp", 1500, 60_000, mf_case(4, true), |c| mal_gssm::<Msm<Big>, Rec64>(c, true)),
        Scenario::new("gipa-ssm/scalar", 1500, 60_000, mf_case(4, true), |c| mal_gssm::<ScalG1<Big>, Rec64>(c, true)),
        Scenario::new("tipa/pairing", 1500, 60_000, mf_case(3, true), |c| mal_tipa::<Pair<Big>, Big, Rec64>(c, true)),
        Scenario::new("tipa/multiexp-keyed", 1000, 60_000, mf_case(3, true), |c| mal_tipa::<MsmKey<Big>, Big, Rec64>(c, true)),
        Scenario::new("tipa/scalar", 1500, 60_000, mf_case(3, true), |c| mal_tipa::<Scal<Big>, Big, Rec64>(c, true)),
        Scenario::new("tipa-ssm/multiexp", 1500, 60_000, mf_case(3, true), |c| mal_tssm::<Msm<Big>, Big, Rec64>(c, true)),
        Scenario::new("tipa-ssm/scalar", 1500, 60_000, mf_case(3, true), |c| mal_tssm::<Scal<Big>, Big, Rec64>(c, true)),
        Scenario::new("tipa-ssm/scalar-keyed", 800, 40_000, mf_case(3, true), |c| mal_tssm::<ScalKey<Big>, Big, Rec64>(c, true)),
        Scenario::new("polynomials/srs", 1500, 60_000, mf_case(3, true), |c| mal_pc::<Big, Rec64>(c, true)),
        Scenario::new("polynomials/transparent", 1500, 60_000, mf_case(3, true), |c| mal_tpc::<Big, Rec64>(c, true)),
        Scenario::new("aggregation", 1500, 60_000, mf_case(3, true), |c| mal_groth::<Big, Rec64>(c, true)),
        Scenario::new("rare-values/gipa", 1000, 40_000, mf_case(3, false), |c| mal_gipa::<Pair<Small>, Rec64>(c, false)),
        Scenario::new("rare-values/gipa-ssm", 1000, 40_000, mf_case(3, false), |c| mal_gssm::<Scal<Small>, Rec64>(c, false)),
        Scenario::new("rare-values/tipa", 1000, 40_000, mf_case(3, false), |c| mal_tipa::<Msm<Small>, Small, Rec64>(c, false)),
        Scenario::new("rare-values/tipa-ssm", 1000, 40_000, mf_case(3, false), |c| mal_tssm::<Msm<Small>, Small, Rec64>(c, false)),
        Scenario::new("rare-values/polynomials", 800, 30_000, mf_case(3, false), |c| mal_pc::<Small, Rec64>(c, false)),
        Scenario::new("rare-values/aggregation", 800, 30_000, mf_case(3, false), |c| mal_groth::<Small, Rec64>(c, false)),
        Scenario::new("digest-32/tipa", 200, 5000, mf_case(2, false), |c| mal_tipa::<Pair<Big>, Big, Rec32>(c, true)),
        Scenario::new("gipa/bls12-381/pairing", 60, 1500, mf_case(2, false), |c| mal_gipa::<Pair<Bls>, Blake2b>(c, true)),
        Scenario::new("gipa/bls12-381/scalar", 60, 1500, mf_case(2, false), |c| mal_gipa::<Scal<Bls>, Blake2b>(c, true)),
        Scenario::new("tipa/bls12-381/pairing", 60, 1500, mf_case(1, false), |c| mal_tipa::<Pair<Bls>, Bls, Blake2b>(c, true)),
        Scenario::new("tipa-ssm/bls12-381/multiexp", 60, 1500, mf_case(1, false), |c| mal_tssm::<Msm<Bls>, Bls, Blake2b>(c, true)),
        Scenario::new("polynomials/bls12-381", 40, 1000, mf_case(1, false), |c| mal_pc::<Bls, Blake2b>(c, true)),
        Scenario::new("aggregation/bls12-381", 40, 1000, mf_case(1, false), |c| mal_groth::<Bls, Blake2b>(c, true)),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C21",
            rule: "A round trip case is a statement (size, messages, keys by pattern), points at which the encoding is cut, bytes that follow it, and the components of an output in the clear; proof, commitments, keys and messages of it are encoded and decoded in both modes, with and without validation, and the decoded proofs are judged by the verifier for the true and for an altered statement. A case with an element outside its group is a proof, commitment or key, the place of the element and how it was made (on the curve but of another order, torsion added, off the curve, field elements of other orders, scalars beyond the modulus). Non-trivial: at least two elements, or a wrong element was placed.",
            assumptions: &["the encodings of arkworks' field elements and curve points are correct"],
            scenarios: c21,
        },
        Property {
            id: "C23",
            rule: "A case is an honest proof of a random statement, a way to deform it (number of rounds, messages replaced, numbers of components, other openings; or bytes of its encoding changed, spliced with another proof, cut, with other length prefixes) and the statement it is presented for (the true one or a false one). Only what decodes is presented. Non-trivial: the proof presented differs from the honest one, or the statement is false.",
            assumptions: &["arkworks pairings, groups and fields are correct", "memory is counted as bytes requested by the verifying thread"],
            scenarios: c23,
        },
    ])
}
