//! "Exponent" bilinear groups: G1, G2 are written as their discrete logarithms, GT is a real
//! order-r subgroup of F_{q^2}.  They satisfy arkworks' `Pairing` contract exactly, cost a few
//! microseconds per pairing instead of a millisecond, and make every discrete logarithm visible
//! to the oracle.  `big` has a 243-bit order (random checks are sound); `small` has order 251, so
//! that rare challenge values (zero, one, non-canonical samples) occur all the time.
thread_local! {
    static MSMS: std::cell::RefCell<Option<Vec<Vec<Vec<u8>>>>> = const { std::cell::RefCell::new(None) };
}

/// Scalars (little endian) of all multi-exponentiations that `f` makes on this thread.
pub fn record_msms<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<Vec<u8>>>) {
    MSMS.with(|m| *m.borrow_mut() = Some(vec![]));
    let t = f();
    (t, MSMS.with(|m| m.borrow_mut().take()).unwrap_or_default())
}

thread_local! {
    static OPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static PAIRINGS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Multiplications in G1 and G2 (terms of multi-exponentiations included), and pairings, that `f`
/// makes on this thread.
pub fn count_ops<T>(f: impl FnOnce() -> T) -> (T, u64, u64) {
    OPS.with(|c| c.set(0));
    PAIRINGS.with(|c| c.set(0));
    let t = f();
    (t, OPS.with(|c| c.get()), PAIRINGS.with(|c| c.get()))
}

fn pairing() {
    PAIRINGS.with(|c| c.set(c.get() + 1));
}

fn ops(n: usize) {
    OPS.with(|c| c.set(c.get() + n as u64));
}

fn note_msm(f: impl FnOnce() -> Vec<Vec<u8>>) {
    MSMS.with(|m| {
        if let Some(v) = m.borrow_mut().as_mut() {
            v.push(f());
        }
    });
}

macro_rules! mock_group {
    ($P:ident, $A:ident, $Cfg:ident, $Fr:ty, $gen:expr) => {
        #[derive(
            Clone, Copy, PartialEq, Eq, Hash, Debug, Default, CanonicalSerialize, CanonicalDeserialize,
        )]
        pub struct $P(pub $Fr);
        #[derive(
            Clone, Copy, PartialEq, Eq, Hash, Debug, Default, CanonicalSerialize, CanonicalDeserialize,
        )]
        pub struct $A(pub $Fr);
        pub struct $Cfg;
        impl CurveConfig for $Cfg {
            type BaseField = $Fr;
            type ScalarField = $Fr;
            const COFACTOR: &'static [u64] = &[1];
            const COFACTOR_INV: $Fr = <$Fr as Field>::ONE;
        }
        impl Display for $P {
            fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
                write!(f, "{}", self.0)
            }
        }
        impl Display for $A {
            fn fmt(&self, f: &mut Formatter<'_>) -> FmtResult {
                write!(f, "{}", self.0)
            }
        }
        impl Zeroize for $P {
            fn zeroize(&mut self) {
                self.0.zeroize()
            }
        }
        impl Zeroize for $A {
            fn zeroize(&mut self) {
                self.0.zeroize()
            }
        }
        impl From<$A> for $P {
            fn from(a: $A) -> Self {
                $P(a.0)
            }
        }
        impl From<$P> for $A {
            fn from(a: $P) -> Self {
                $A(a.0)
            }
        }
        impl<'a> From<&'a $P> for $A {
            fn from(a: &'a $P) -> Self {
                $A(a.0)
            }
        }
        impl<'a> From<&'a $A> for $A {
            fn from(a: &'a $A) -> Self {
                *a
            }
        }
        impl Zero for $P {
            fn zero() -> Self {
                $P(<$Fr>::zero())
            }
            fn is_zero(&self) -> bool {
                self.0.is_zero()
            }
        }
        impl Neg for $P {
            type Output = $P;
            fn neg(self) -> $P {
                $P(-self.0)
            }
        }
        impl Neg for $A {
            type Output = $A;
            fn neg(self) -> $A {
                $A(-self.0)
            }
        }
        mock_group!(@bin $P, $P, $P);
        mock_group!(@bin $P, $A, $P);
        mock_group!(@add $A, $A, $P);
        mock_group!(@add $A, $P, $P);
        mock_group!(@assign $P, $P);
        mock_group!(@assign $P, $A);
        mock_group!(@mul $P, $P, $Fr);
        mock_group!(@mul $A, $P, $Fr);
        impl MulAssign<$Fr> for $P {
            fn mul_assign(&mut self, o: $Fr) {
                super::ops(1);
                self.0 *= o;
            }
        }
        impl<'a> MulAssign<&'a $Fr> for $P {
            fn mul_assign(&mut self, o: &'a $Fr) {
                super::ops(1);
                self.0 *= o;
            }
        }
        mock_group!(@sum $P, $P);
        mock_group!(@sum $P, $A);
        impl Distribution<$P> for Standard {
            fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $P {
                $P(<$Fr>::rand(r))
            }
        }
        impl Distribution<$A> for Standard {
            fn sample<R: Rng + ?Sized>(&self, r: &mut R) -> $A {
                $A(<$Fr>::rand(r))
            }
        }
        impl Group for $P {
            type ScalarField = $Fr;
            fn generator() -> Self {
                $P(<$Fr>::from($gen as u64))
            }
            fn double_in_place(&mut self) -> &mut Self {
                self.0.double_in_place();
                self
            }
            fn mul_bigint(&self, other: impl AsRef<[u64]>) -> Self {
                super::ops(1);
                let mut res = <$Fr>::zero();
                for b in BitIteratorBE::without_leading_zeros(other) {
                    res.double_in_place();
                    if b {
                        res += self.0;
                    }
                }
                $P(res)
            }
        }
        impl ScalarMul for $P {
            type MulBase = $A;
            const NEGATION_IS_CHEAP: bool = true;
            fn batch_convert_to_mul_base(bases: &[Self]) -> Vec<$A> {
                bases.iter().map(|b| $A(b.0)).collect()
            }
        }
        impl VariableBaseMSM for $P {
            fn msm_bigint(bases: &[$A], bigints: &[<$Fr as PrimeField>::BigInt]) -> Self {
                super::note_msm(|| {
                    bigints.iter().map(|e| ark_ff::BigInteger::to_bytes_le(e)).collect()
                });
                super::ops(bigints.len());
                let mut s = <$Fr>::zero();
                for (b, e) in bases.iter().zip(bigints) {
                    s += b.0 * <$Fr>::from_bigint(*e).unwrap();
                }
                $P(s)
            }
        }
        impl CurveGroup for $P {
            type Config = $Cfg;
            type BaseField = $Fr;
            type Affine = $A;
            type FullGroup = $A;
            fn normalize_batch(v: &[Self]) -> Vec<$A> {
                v.iter().map(|b| $A(b.0)).collect()
            }
        }
        impl AffineRepr for $A {
            type Config = $Cfg;
            type ScalarField = $Fr;
            type BaseField = $Fr;
            type Group = $P;
            fn xy(&self) -> Option<(&$Fr, &$Fr)> {
                if self.0.is_zero() {
                    None
                } else {
                    // as on a curve, a point and its negative have the same first coordinate
                    // (leaked: nothing in the tree asks for coordinates)
                    Some((Box::leak(Box::new(self.0 * self.0)), &self.0))
                }
            }
            fn zero() -> Self {
                $A(<$Fr>::zero())
            }
            fn generator() -> Self {
                $A(<$Fr>::from($gen as u64))
            }
            fn from_random_bytes(b: &[u8]) -> Option<Self> {
                <$Fr>::from_random_bytes(b).map($A)
            }
            fn mul_bigint(&self, by: impl AsRef<[u64]>) -> $P {
                $P(self.0).mul_bigint(by)
            }
            fn clear_cofactor(&self) -> Self {
                *self
            }
            fn mul_by_cofactor_to_group(&self) -> $P {
                $P(self.0)
            }
        }
    };
    (@bin $L:ident, $R:ident, $O:ident) => {
        mock_group!(@add $L, $R, $O);
        impl Sub<$R> for $L {
            type Output = $O;
            fn sub(self, o: $R) -> $O {
                $O(self.0 - o.0)
            }
        }
        impl<'a> Sub<&'a $R> for $L {
            type Output = $O;
            fn sub(self, o: &'a $R) -> $O {
                $O(self.0 - o.0)
            }
        }
    };
    (@add $L:ident, $R:ident, $O:ident) => {
        impl Add<$R> for $L {
            type Output = $O;
            fn add(self, o: $R) -> $O {
                $O(self.0 + o.0)
            }
        }
        impl<'a> Add<&'a $R> for $L {
            type Output = $O;
            fn add(self, o: &'a $R) -> $O {
                $O(self.0 + o.0)
            }
        }
    };
    (@assign $L:ident, $R:ident) => {
        impl AddAssign<$R> for $L {
            fn add_assign(&mut self, o: $R) {
                self.0 += o.0;
            }
        }
        impl<'a> AddAssign<&'a $R> for $L {
            fn add_assign(&mut self, o: &'a $R) {
                self.0 += o.0;
            }
        }
        impl SubAssign<$R> for $L {
            fn sub_assign(&mut self, o: $R) {
                self.0 -= o.0;
            }
        }
        impl<'a> SubAssign<&'a $R> for $L {
            fn sub_assign(&mut self, o: &'a $R) {
                self.0 -= o.0;
            }
        }
    };
    (@mul $L:ident, $O:ident, $Fr:ty) => {
        impl Mul<$Fr> for $L {
            type Output = $O;
            fn mul(self, o: $Fr) -> $O {
                super::ops(1);
                $O(self.0 * o)
            }
        }
        impl<'a> Mul<&'a $Fr> for $L {
            type Output = $O;
            fn mul(self, o: &'a $Fr) -> $O {
                super::ops(1);
                $O(self.0 * o)
            }
        }
    };
    (@sum $P:ident, $R:ident) => {
        impl Sum<$R> for $P {
            fn sum<I: Iterator<Item = $R>>(it: I) -> Self {
                it.fold($P::zero(), |a, b| a + b)
            }
        }
        impl<'a> Sum<&'a $R> for $P {
            fn sum<I: Iterator<Item = &'a $R>>(it: I) -> Self {
                it.fold($P::zero(), |a, b| a + b)
            }
        }
    };
}

macro_rules! mock_curve {
    ($modname:ident, $r:literal, $rgen:literal, $q:literal, $qgen:literal, $gt0:literal, $gt1:literal, $rl:literal, $ql:literal) => {
        #[allow(non_local_definitions)]
        pub mod $modname {
            use ark_ec::{
                pairing::{MillerLoopOutput, Pairing, PairingOutput},
                AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM,
            };
            use ark_ff::{
                BitIteratorBE, CyclotomicMultSubgroup, Field, Fp, Fp2, Fp2Config, MontBackend,
                MontConfig, MontFp, PrimeField, UniformRand, Zero,
            };
            use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
            use ark_std::rand::{
                distributions::{Distribution, Standard},
                Rng,
            };
            use std::fmt::{Display, Formatter, Result as FmtResult};
            use std::hash::Hash;
            use std::iter::Sum;
            use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
            use zeroize::Zeroize;

            #[derive(MontConfig)]
            #[modulus = $r]
            #[generator = $rgen]
            pub struct FrConfig;
            pub type Fr = Fp<MontBackend<FrConfig, $rl>, $rl>;
            #[derive(MontConfig)]
            #[modulus = $q]
            #[generator = $qgen]
            pub struct FqConfig;
            pub type Fq = Fp<MontBackend<FqConfig, $ql>, $ql>;
            pub struct F2;
            impl Fp2Config for F2 {
                type Fp = Fq;
                const NONRESIDUE: Fq = MontFp!("-1");
                const FROBENIUS_COEFF_FP2_C1: &'static [Fq] = &[MontFp!("1"), MontFp!("-1")];
            }
            pub type Gt = Fp2<F2>;

            mock_group!(G1, G1A, G1Cfg, Fr, 5);
            mock_group!(G2, G2A, G2Cfg, Fr, 7);

            #[derive(Clone, Copy, Debug, PartialEq, Eq)]
            pub struct Mock;
            impl Pairing for Mock {
                type BaseField = Fq;
                type ScalarField = Fr;
                type G1 = G1;
                type G1Affine = G1A;
                type G1Prepared = G1A;
                type G2 = G2;
                type G2Affine = G2A;
                type G2Prepared = G2A;
                type TargetField = Gt;
                fn multi_miller_loop(
                    a: impl IntoIterator<Item = impl Into<G1A>>,
                    b: impl IntoIterator<Item = impl Into<G2A>>,
                ) -> MillerLoopOutput<Self> {
                    let mut e = Fr::zero();
                    let mut a = a.into_iter();
                    let mut b = b.into_iter();
                    loop {
                        match (a.next(), b.next()) {
                            (Some(x), Some(y)) => {
                                super::pairing();
                                e += x.into().0 * y.into().0
                            }
                            (None, None) => break,
                            _ => panic!("multi_miller_loop: sequences of different length"),
                        }
                    }
                    let gt = Gt::new(MontFp!($gt0), MontFp!($gt1));
                    MillerLoopOutput(gt.cyclotomic_exp(e.into_bigint()))
                }
                fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
                    Some(PairingOutput(m.0))
                }
            }
        }
    };
}

mock_curve!(
    big,
    "12871651049856112785315403297310201713633191192796066666581119800076317993",
    "5",
    "13849896529645177356999373947905777043869313723448567733241284904882118160467",
    "2",
    "7022861929275108061807443311680254130026531203950201172778770503097128075491",
    "12800827390991522017736443164137843928360504213892594979329187849369732113326",
    4,
    4
);
mock_curve!(small, "251", "2", "3011", "2", "1769", "719", 1, 1);

/// As `big`, but logarithms in GT are visible as well: GT is the group of 1 + x e with e^2 = 0 over
/// the scalar field, which is isomorphic to the scalars under addition.
#[allow(non_local_definitions)]
pub mod dual {
    pub use super::big::Fr;
    use ark_ec::{
        pairing::{MillerLoopOutput, Pairing, PairingOutput},
        AffineRepr, CurveConfig, CurveGroup, Group, ScalarMul, VariableBaseMSM,
    };
    use ark_ff::{BitIteratorBE, Field, Fp2, Fp2Config, MontFp, One, PrimeField, UniformRand, Zero};
    use ark_serialize::{CanonicalDeserialize, CanonicalSerialize};
    use ark_std::rand::{
        distributions::{Distribution, Standard},
        Rng,
    };
    use std::fmt::{Display, Formatter, Result as FmtResult};
    use std::hash::Hash;
    use std::iter::Sum;
    use std::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
    use zeroize::Zeroize;

    pub struct F2;
    impl Fp2Config for F2 {
        type Fp = Fr;
        const NONRESIDUE: Fr = MontFp!("0");
        const FROBENIUS_COEFF_FP2_C1: &'static [Fr] = &[MontFp!("1"), MontFp!("-1")];
    }
    pub type Gt = Fp2<F2>;

    mock_group!(G1, G1A, G1Cfg, Fr, 5);
    mock_group!(G2, G2A, G2Cfg, Fr, 7);

    /// logarithms to the generators
    pub fn dl1(x: &G1) -> Fr {
        x.0 / Fr::from(5u64)
    }
    pub fn dl2(x: &G2) -> Fr {
        x.0 / Fr::from(7u64)
    }
    pub fn dlt(x: &PairingOutput<Mock>) -> Fr {
        x.0.c1 / Fr::from(35u64)
    }

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Mock;
    impl Pairing for Mock {
        type BaseField = Fr;
        type ScalarField = Fr;
        type G1 = G1;
        type G1Affine = G1A;
        type G1Prepared = G1A;
        type G2 = G2;
        type G2Affine = G2A;
        type G2Prepared = G2A;
        type TargetField = Gt;
        fn multi_miller_loop(
            a: impl IntoIterator<Item = impl Into<G1A>>,
            b: impl IntoIterator<Item = impl Into<G2A>>,
        ) -> MillerLoopOutput<Self> {
            let mut e = Fr::zero();
            let mut a = a.into_iter();
            let mut b = b.into_iter();
            loop {
                match (a.next(), b.next()) {
                    (Some(x), Some(y)) => {
                        super::pairing();
                        e += x.into().0 * y.into().0
                    }
                    (None, None) => break,
                    _ => panic!("multi_miller_loop: sequences of different length"),
                }
            }
            MillerLoopOutput(Gt::new(Fr::one(), e))
        }
        fn final_exponentiation(m: MillerLoopOutput<Self>) -> Option<PairingOutput<Self>> {
            Some(PairingOutput(m.0))
        }
    }
}
