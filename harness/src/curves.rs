//! Curves with a map from discrete logarithms to elements. Every group element the harness makes
//! has a known discrete logarithm, so all oracles are plain field arithmetic.

use crate::mock;
use ark_ec::{
    pairing::{Pairing, PairingOutput},
    CurveGroup, Group,
};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
use std::ops::{Add, MulAssign};
use std::sync::OnceLock;

pub trait El<S>:
    CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq + Send + Sync + Add<Self, Output = Self> + MulAssign<S> + 'static
{
}
impl<S, T> El<S> for T where
    T: CanonicalSerialize + CanonicalDeserialize + Clone + Default + Eq + Send + Sync + Add<T, Output = T> + MulAssign<S> + 'static
{
}

pub trait CurveEx: Pairing {
    const NAME: &'static str;
    fn gt(x: &Self::ScalarField) -> PairingOutput<Self>;
    fn g1(x: &Self::ScalarField) -> Self::G1 {
        Self::G1::generator() * x
    }
    fn g2(x: &Self::ScalarField) -> Self::G2 {
        Self::G2::generator() * x
    }
    fn g1s(x: &[Self::ScalarField]) -> Vec<Self::G1> {
        x.iter().map(|x| Self::g1(x)).collect()
    }
    fn g2s(x: &[Self::ScalarField]) -> Vec<Self::G2> {
        x.iter().map(|x| Self::g2(x)).collect()
    }
    fn g1a(x: &[Self::ScalarField]) -> Vec<Self::G1Affine> {
        Self::G1::normalize_batch(&Self::g1s(x))
    }
    fn g2a(x: &[Self::ScalarField]) -> Vec<Self::G2Affine> {
        Self::G2::normalize_batch(&Self::g2s(x))
    }
}

macro_rules! curve_ex {
    ($P:ty, $n:literal) => {
        impl CurveEx for $P {
            const NAME: &'static str = $n;
            fn gt(x: &Self::ScalarField) -> PairingOutput<Self> {
                static G: OnceLock<PairingOutput<$P>> = OnceLock::new();
                *G.get_or_init(|| {
                    <$P>::pairing(<$P as Pairing>::G1::generator(), <$P as Pairing>::G2::generator())
                }) * x
            }
        }
    };
}
curve_ex!(mock::big::Mock, "mock243");
curve_ex!(mock::small::Mock, "mock251");
curve_ex!(mock::dual::Mock, "mock243-dual");
curve_ex!(ark_bls12_381::Bls12_381, "bls12-381");
curve_ex!(ark_bls12_377::Bls12_377, "bls12-377");
curve_ex!(ark_bw6_761::BW6_761, "bw6-761");

pub type Big = mock::big::Mock;
pub type Small = mock::small::Mock;
pub type Dual = mock::dual::Mock;
pub type Bls = ark_bls12_381::Bls12_381;
pub type Bls377 = ark_bls12_377::Bls12_377;
pub type Bw6 = ark_bw6_761::BW6_761;
