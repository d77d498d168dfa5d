//! Instantiations of the inner product arguments, with a map from discrete logarithms to every
//! kind of element that occurs in them.

use crate::curves::{CurveEx, El};
use ark_dh_commitments::{
    afgho16::{AFGHOCommitmentG1, AFGHOCommitmentG2},
    identity::{HomomorphicPlaceholderValue, IdentityCommitment, IdentityOutput},
    pedersen::PedersenCommitment,
    DoublyHomomorphicCommitment,
};
use ark_ec::pairing::{Pairing, PairingOutput};
use ark_ff::{Field, PrimeField, Zero};
use ark_inner_products::{
    InnerProduct, MultiexponentiationInnerProduct, PairingInnerProduct, ScalarInnerProduct,
};
use ark_ip_proofs::gipa::{GIPAAux, GIPAProof, GIPA};
use ark_ip_proofs::tipa::{
    structured_scalar_message::{
        GIPAWithSSM, SSMPlaceholderCommitment, TIPAWithSSM, TIPAWithSSMProof,
    },
    TIPACompatibleSetup, TIPAProof, TIPA,
};
use std::marker::PhantomData;

pub trait Inst: Send + Sync + 'static {
    const NAME: &'static str;
    /// the product is committed to under a key (not in the clear)
    const KEYED: bool;
    /// the right message is committed to under a key (false: structured scalar placeholder)
    const RIGHT: bool;
    type S: PrimeField;
    type LM: El<Self::S>;
    type RM: El<Self::S>;
    type TM: El<Self::S>;
    type LK: El<Self::S>;
    type RK: El<Self::S>;
    type TK: El<Self::S>;
    type LO: El<Self::S>;
    type RO: El<Self::S>;
    type TO: El<Self::S>;
    type L: DoublyHomomorphicCommitment<Scalar = Self::S, Message = Self::LM, Key = Self::LK, Output = Self::LO>;
    type R: DoublyHomomorphicCommitment<Scalar = Self::S, Message = Self::RM, Key = Self::RK, Output = Self::RO>;
    type C: DoublyHomomorphicCommitment<Scalar = Self::S, Message = Self::TM, Key = Self::TK, Output = Self::TO>;
    type IP: InnerProduct<LeftMessage = Self::LM, RightMessage = Self::RM, Output = Self::TM> + Send + Sync;
    fn lm(x: &Self::S) -> Self::LM;
    fn rm(x: &Self::S) -> Self::RM;
    fn tm(x: &Self::S) -> Self::TM;
    fn lk(x: &Self::S) -> Self::LK;
    fn rk(x: &Self::S) -> Self::RK;
    fn tk(x: &Self::S) -> Self::TK;
    fn lo(x: &Self::S) -> Self::LO;
    fn ro(x: &Self::S) -> Self::RO;
    fn to(x: &Self::S) -> Self::TO;
    /// a value with any number of components where there can be several, else of the first
    fn tos(v: &[Self::S]) -> Self::TO;
    fn lms(v: &[Self::S]) -> Vec<Self::LM> {
        v.iter().map(Self::lm).collect()
    }
    fn rms(v: &[Self::S]) -> Vec<Self::RM> {
        v.iter().map(Self::rm).collect()
    }
    fn lks(v: &[Self::S]) -> Vec<Self::LK> {
        v.iter().map(Self::lk).collect()
    }
    fn rks(v: &[Self::S]) -> Vec<Self::RK> {
        v.iter().map(Self::rk).collect()
    }
}

pub type Gp<I, D> = GIPA<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::R, <I as Inst>::C, D>;
pub type GpProof<I, D> = GIPAProof<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::R, <I as Inst>::C, D>;
pub type GpAux<I, D> = GIPAAux<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::R, <I as Inst>::C, D>;
pub type Gs<I, D> = GIPAWithSSM<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::C, D>;
pub type Tp<I, P, D> = TIPA<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::R, <I as Inst>::C, P, D>;
pub type TpProof<I, P, D> = TIPAProof<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::R, <I as Inst>::C, P, D>;
pub type Ts<I, P, D> = TIPAWithSSM<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::C, P, D>;
pub type TsProof<I, P, D> = TIPAWithSSMProof<<I as Inst>::IP, <I as Inst>::L, <I as Inst>::C, P, D>;

type F<P> = <P as Pairing>::ScalarField;
type G1<P> = <P as Pairing>::G1;
type G2<P> = <P as Pairing>::G2;
type GT<P> = PairingOutput<P>;
type Hold = HomomorphicPlaceholderValue;

macro_rules! inst {
    ($name:ident, $label:literal, keyed $keyed:literal,
     IP $ip:ty, L $l:ty, R $r:ty, C $c:ty,
     M($lm:ty, $rm:ty, $tm:ty) K($lk:ty, $rk:ty, $tk:ty) O($lo:ty, $ro:ty, $to:ty),
     m($flm:expr, $frm:expr, $ftm:expr) k($flk:expr, $frk:expr, $ftk:expr) o($flo:expr, $fro:expr, $fto:expr $(, $ftos:expr)?)) => {
        pub struct $name<P>(PhantomData<fn() -> P>);
        impl<P: CurveEx> Inst for $name<P> {
            const NAME: &'static str = $label;
            const KEYED: bool = $keyed;
            const RIGHT: bool = true;
            type S = F<P>;
            type LM = $lm;
            type RM = $rm;
            type TM = $tm;
            type LK = $lk;
            type RK = $rk;
            type TK = $tk;
            type LO = $lo;
            type RO = $ro;
            type TO = $to;
            type L = $l;
            type R = $r;
            type C = $c;
            type IP = $ip;
            fn lm(x: &F<P>) -> $lm { $flm(x) }
            fn rm(x: &F<P>) -> $rm { $frm(x) }
            fn tm(x: &F<P>) -> $tm { $ftm(x) }
            fn lk(x: &F<P>) -> $lk { $flk(x) }
            fn rk(x: &F<P>) -> $rk { $frk(x) }
            fn tk(x: &F<P>) -> $tk { $ftk(x) }
            fn lo(x: &F<P>) -> $lo { $flo(x) }
            fn ro(x: &F<P>) -> $ro { $fro(x) }
            fn to(x: &F<P>) -> $to { $fto(x) }
            fn tos(v: &[F<P>]) -> $to { inst!(@tos v, $fto $(, $ftos)?) }
        }
    };
    (@tos $v:ident, $fto:expr) => { $fto($v.first().unwrap_or(&F::<P>::zero())) };
    (@tos $v:ident, $fto:expr, $each:expr) => { IdentityOutput($v.iter().map($each).collect()) };
}

inst!(Pair, "pairing", keyed false,
    IP PairingInnerProduct<P>, L AFGHOCommitmentG1<P>, R AFGHOCommitmentG2<P>, C IdentityCommitment<GT<P>, F<P>>,
    M(G1<P>, G2<P>, GT<P>) K(G2<P>, G1<P>, Hold) O(GT<P>, GT<P>, IdentityOutput<GT<P>>),
    m(P::g1, P::g2, P::gt) k(P::g2, P::g1, |_| HomomorphicPlaceholderValue) o(P::gt, P::gt, |x| IdentityOutput(vec![P::gt(x)]), P::gt));
inst!(Msm, "multiexp", keyed false,
    IP MultiexponentiationInnerProduct<G1<P>>, L AFGHOCommitmentG1<P>, R PedersenCommitment<G1<P>>, C IdentityCommitment<G1<P>, F<P>>,
    M(G1<P>, F<P>, G1<P>) K(G2<P>, G1<P>, Hold) O(GT<P>, G1<P>, IdentityOutput<G1<P>>),
    m(P::g1, |x: &F<P>| *x, P::g1) k(P::g2, P::g1, |_| HomomorphicPlaceholderValue) o(P::gt, P::g1, |x| IdentityOutput(vec![P::g1(x)]), P::g1));
inst!(MsmKey, "multiexp-keyed", keyed true,
    IP MultiexponentiationInnerProduct<G1<P>>, L AFGHOCommitmentG1<P>, R PedersenCommitment<G1<P>>, C AFGHOCommitmentG1<P>,
    M(G1<P>, F<P>, G1<P>) K(G2<P>, G1<P>, G2<P>) O(GT<P>, G1<P>, GT<P>),
    m(P::g1, |x: &F<P>| *x, P::g1) k(P::g2, P::g1, P::g2) o(P::gt, P::g1, P::gt));
inst!(MsmG2, "multiexp-g2", keyed false,
    IP MultiexponentiationInnerProduct<G2<P>>, L AFGHOCommitmentG2<P>, R PedersenCommitment<G2<P>>, C IdentityCommitment<G2<P>, F<P>>,
    M(G2<P>, F<P>, G2<P>) K(G1<P>, G2<P>, Hold) O(GT<P>, G2<P>, IdentityOutput<G2<P>>),
    m(P::g2, |x: &F<P>| *x, P::g2) k(P::g1, P::g2, |_| HomomorphicPlaceholderValue) o(P::gt, P::g2, |x| IdentityOutput(vec![P::g2(x)]), P::g2));
inst!(Scal, "scalar", keyed false,
    IP ScalarInnerProduct<F<P>>, L PedersenCommitment<G2<P>>, R PedersenCommitment<G1<P>>, C IdentityCommitment<F<P>, F<P>>,
    M(F<P>, F<P>, F<P>) K(G2<P>, G1<P>, Hold) O(G2<P>, G1<P>, IdentityOutput<F<P>>),
    m(|x: &F<P>| *x, |x: &F<P>| *x, |x: &F<P>| *x) k(P::g2, P::g1, |_| HomomorphicPlaceholderValue) o(P::g2, P::g1, |x: &F<P>| IdentityOutput(vec![*x]), |x: &F<P>| *x));
inst!(ScalKey, "scalar-keyed", keyed true,
    IP ScalarInnerProduct<F<P>>, L PedersenCommitment<G2<P>>, R PedersenCommitment<G1<P>>, C PedersenCommitment<G1<P>>,
    M(F<P>, F<P>, F<P>) K(G2<P>, G1<P>, G1<P>) O(G2<P>, G1<P>, G1<P>),
    m(|x: &F<P>| *x, |x: &F<P>| *x, |x: &F<P>| *x) k(P::g2, P::g1, P::g1) o(P::g2, P::g1, P::g1));

inst!(ScalG1, "scalar-g1", keyed false,
    IP ScalarInnerProduct<F<P>>, L PedersenCommitment<G1<P>>, R PedersenCommitment<G1<P>>, C IdentityCommitment<F<P>, F<P>>,
    M(F<P>, F<P>, F<P>) K(G1<P>, G1<P>, Hold) O(G1<P>, G1<P>, IdentityOutput<F<P>>),
    m(|x: &F<P>| *x, |x: &F<P>| *x, |x: &F<P>| *x) k(P::g1, P::g1, |_| HomomorphicPlaceholderValue) o(P::g1, P::g1, |x: &F<P>| IdentityOutput(vec![*x]), |x: &F<P>| *x));

/// The structured-scalar version of an instantiation: the right commitment is the library's
/// placeholder, whose place in the statement is taken by the scalar b.
pub struct Ssm<I>(PhantomData<fn() -> I>);
impl<I: Inst<RM = <I as Inst>::S>> Inst for Ssm<I> {
    const NAME: &'static str = I::NAME;
    const KEYED: bool = I::KEYED;
    const RIGHT: bool = false;
    type S = I::S;
    type LM = I::LM;
    type RM = I::S;
    type TM = I::TM;
    type LK = I::LK;
    type RK = Hold;
    type TK = I::TK;
    type LO = I::LO;
    type RO = I::S;
    type TO = I::TO;
    type L = I::L;
    type R = SSMPlaceholderCommitment<I::S>;
    type C = I::C;
    type IP = I::IP;
    fn lm(x: &I::S) -> I::LM { I::lm(x) }
    fn rm(x: &I::S) -> I::S { *x }
    fn tm(x: &I::S) -> I::TM { I::tm(x) }
    fn lk(x: &I::S) -> I::LK { I::lk(x) }
    fn rk(_: &I::S) -> Hold { HomomorphicPlaceholderValue }
    fn tk(x: &I::S) -> I::TK { I::tk(x) }
    fn lo(x: &I::S) -> I::LO { I::lo(x) }
    fn ro(x: &I::S) -> I::S { *x }
    fn to(x: &I::S) -> I::TO { I::to(x) }
    fn tos(v: &[I::S]) -> I::TO { I::tos(v) }
}

/// Instantiations that fit the TIPA setup over P
pub trait TInst<P: CurveEx>:
    Inst<S = <P as Pairing>::ScalarField, LK = <P as Pairing>::G2, RK = <P as Pairing>::G1, L: TIPACompatibleSetup, R: TIPACompatibleSetup>
{
}
impl<P: CurveEx, I> TInst<P> for I where
    I: Inst<S = <P as Pairing>::ScalarField, LK = <P as Pairing>::G2, RK = <P as Pairing>::G1, L: TIPACompatibleSetup, R: TIPACompatibleSetup>
{
}

/// Instantiations that fit the structured-scalar TIPA over P
pub trait SInst<P: CurveEx>:
    Inst<S = <P as Pairing>::ScalarField, RM = <P as Pairing>::ScalarField, LK = <P as Pairing>::G2, L: TIPACompatibleSetup>
{
}
impl<P: CurveEx, I> SInst<P> for I where
    I: Inst<S = <P as Pairing>::ScalarField, RM = <P as Pairing>::ScalarField, LK = <P as Pairing>::G2, L: TIPACompatibleSetup>
{
}

/// A statement with its witness, as discrete logarithms.
#[derive(Clone, Debug)]
pub struct Dl<S> {
    pub a: Vec<S>,
    pub b: Vec<S>,
    pub ka: Vec<S>,
    pub kb: Vec<S>,
    /// key of the commitment of the product (one if it is in the clear)
    pub kt: S,
    pub com: [S; 3],
}

impl<S: PrimeField> Dl<S> {
    pub fn new<I: Inst<S = S>>(a: Vec<S>, b: Vec<S>, ka: Vec<S>, kb: Vec<S>, kt: S) -> Self {
        let kt = if I::KEYED { kt } else { S::one() };
        let kb = if I::RIGHT { kb } else { vec![S::zero(); b.len()] };
        let mut d = Dl { a, b, ka, kb, kt, com: [S::zero(); 3] };
        d.com = d.commit();
        d
    }
    pub fn t(&self) -> S {
        crate::gen::dot(&self.a, &self.b)
    }
    pub fn commit(&self) -> [S; 3] {
        use crate::gen::dot;
        [dot(&self.ka, &self.a), dot(&self.kb, &self.b), self.kt * self.t()]
    }
    pub fn n(&self) -> usize {
        self.a.len()
    }
}

pub fn inv<S: Field>(x: &S) -> S {
    x.inverse().expect("challenge is zero")
}

pub fn is_zero3<S: Zero>(x: &[S; 3]) -> bool {
    x.iter().all(|x| x.is_zero())
}
