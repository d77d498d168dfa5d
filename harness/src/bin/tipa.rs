//! C08 (TIPA completeness), C09 (TIPA soundness).
use ark_dh_commitments::DoublyHomomorphicCommitment;
use ark_ff::{One, Zero};
use ark_inner_products::InnerProduct;
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use ripp_check::adv::{self, el3};
use ripp_check::curves::*;
use ripp_check::digests::*;
use ripp_check::ensure;
use ripp_check::fw::*;
use ripp_check::gen::*;
use ripp_check::inst::*;
use ripp_check::srs::*;
use ripp_check::st::*;
use ripp_check::tamper::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Complete {
    k: u32,
    a: Vs,
    b: Vs,
    kt: Sc,
    /// None: unshifted functions
    shift: Option<Sc>,
    srs: Setup,
    threads: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Setup {
    /// the library's setup
    Lib(u64),
    /// given secrets
    Own(Sc, Sc),
}

fn complete_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Complete> + Send + Sync + 'static {
    move || {
        let setup = prop_oneof![
            any::<u64>().prop_map(Setup::Lib),
            (sc(), sc()).prop_map(|(a, b)| Setup::Own(a, b)),
        ];
        let shift = prop_oneof![1 => Just(None), 2 => sc().prop_map(Some)];
        (logn(lo, hi), vs(), vs(), sc(), shift, setup, threads())
            .prop_map(|(k, a, b, kt, shift, srs, threads)| Complete { k, a, b, kt, shift, srs, threads })
            .boxed()
    }
}

fn run<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
    if n == 1 {
        f()
    } else {
        with_threads(n, f)
    }
}

fn complete<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Complete) -> R {
    let n = 1usize << c.k;
    let (x, y) = (c.a.f::<I::S>(n), c.b.f::<I::S>(n));
    let (srs, ck_t) = match &c.srs {
        Setup::Lib(seed) => attempt(|| Tp::<I, P, D>::setup(&mut rng(*seed), n))?,
        Setup::Own(a, b) => (
            SrsDl { n, alpha: a.nz(), beta: b.nz() }.srs::<P>(),
            I::tk(&c.kt.nz()),
        ),
    };
    let (mut ka, kb) = srs.get_commitment_keys();
    ensure!(ka.len() == n && kb.len() == n, "setup for {} has keys for {} and {}", n, ka.len(), kb.len());
    let vk = srs.get_verifier_key();
    let r: I::S = c.shift.as_ref().map_or(I::S::one(), |s| s.nz());
    // commitments of the unshifted message under the unshifted key
    let com_a = attempt(|| I::L::commit(&ka, &I::lms(&x)))?;
    let rp = powers(n, r);
    let xr: Vec<I::S> = x.iter().zip(&rp).map(|(x, r)| *x * r).collect();
    for (k, r) in ka.iter_mut().zip(&rp) {
        *k *= inv(r);
    }
    let (a, b) = (I::lms(&xr), I::rms(&y));
    let com_b = attempt(|| I::R::commit(&kb, &b))?;
    let t = attempt(|| I::IP::inner_product(&a, &b))?;
    ensure!(t == I::tm(&dot(&xr, &y)), "inner product is wrong");
    let com_t = attempt(|| I::C::commit(&[ck_t.clone()], &[t]))?;
    let v = run(c.threads, || {
        if c.shift.is_none() {
            let p = attempt(|| Tp::<I, P, D>::prove(&srs, (&a, &b), (&ka, &kb, &ck_t)))?;
            Ok::<_, String>(verdict(|| Tp::<I, P, D>::verify(&vk, &ck_t, (&com_a, &com_b, &com_t), &p)))
        } else {
            let p = attempt(|| Tp::<I, P, D>::prove_with_srs_shift(&srs, (&a, &b), (&ka, &kb, &ck_t), &r))?;
            Ok(verdict(|| Tp::<I, P, D>::verify_with_srs_shift(&vk, &ck_t, (&com_a, &com_b, &com_t), &p, &r)))
        }
    })?;
    ensure!(v == V::True, "honest proof of length {}: {:?}", n, v);
    Ok(pass(n >= 2 && !dot(&xr, &y).is_zero())
        .class(nclass(n))
        .class(match &c.shift { None => "not shifted", Some(_) if r.is_one() => "shift 1", _ => "shifted" })
        .class(match c.srs { Setup::Lib(_) => "setup", _ => "given secrets" })
        .class(format!("left {}", c.a.class())))
}

fn c08() -> Vec<Scenario> {
    vec![
        Scenario::new("pairing/mock", 1200, 40_000, complete_case(0, 6), complete::<Pair<Big>, Big, Rec64>),
        Scenario::new("multiexp/mock", 1200, 40_000, complete_case(0, 6), complete::<Msm<Big>, Big, Rec64>),
        Scenario::new("multiexp-keyed/mock", 1000, 30_000, complete_case(0, 6), complete::<MsmKey<Big>, Big, Rec64>),
        Scenario::new("scalar/mock", 1500, 40_000, complete_case(0, 7), complete::<Scal<Big>, Big, Rec64>),
        Scenario::new("scalar-keyed/mock", 1200, 30_000, complete_case(0, 7), complete::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("long/pairing", 24, 300, complete_case(7, 9), complete::<Pair<Big>, Big, Rec64>),
        Scenario::new("long/scalar", 24, 300, complete_case(8, 10), complete::<Scal<Big>, Big, Rec64>),
        Scenario::new("rare-challenges/pairing", 1500, 40_000, complete_case(0, 4), complete::<Pair<Small>, Small, Rec64>),
        Scenario::new("rare-challenges/scalar", 1500, 40_000, complete_case(0, 4), complete::<Scal<Small>, Small, Rec64>),
        Scenario::new("zero-digests/multiexp", 500, 10_000, complete_case(0, 4), complete::<Msm<Big>, Big, Zeros64>),
        Scenario::new("unusable-digests/pairing", 500, 10_000, complete_case(0, 4), complete::<Pair<Big>, Big, Mixed64>),
        Scenario::new("unusable-digests/scalar-keyed", 500, 10_000, complete_case(0, 4), complete::<ScalKey<Big>, Big, Ones64>),
        Scenario::new("digest-32/multiexp", 300, 5000, complete_case(0, 4), complete::<Msm<Big>, Big, Rec32>),
        Scenario::new("pairing/bls12-381", 32, 600, complete_case(0, 3), complete::<Pair<Bls>, Bls, blake2::Blake2b>),
        Scenario::new("multiexp/bls12-381", 32, 600, complete_case(0, 3), complete::<Msm<Bls>, Bls, blake2::Blake2b>),
        Scenario::new("scalar/bls12-381", 40, 800, complete_case(0, 3), complete::<Scal<Bls>, Bls, blake2::Blake2b>),
        Scenario::new("scalar-keyed/bls12-381", 24, 400, complete_case(0, 3), complete::<ScalKey<Bls>, Bls, blake2::Blake2b>),
        Scenario::new("pairing/bls12-377", 8, 200, complete_case(0, 2), complete::<Pair<Bls377>, Bls377, blake2::Blake2s>),
        Scenario::new("pairing/bw6-761", 8, 200, complete_case(0, 2), complete::<Pair<Bw6>, Bw6, blake2::Blake2b>),
    ]
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Attack {
    WrongCom(u8),
    /// statement and messages of one commitment multiplied by a factor, often -1 (bits: which)
    Scaled(u8),
    /// errors in two of the verification equations, equal or opposite
    Cancel(u8, u8, bool),
    /// one commitment claimed to be that of zeros
    ClaimZero(u8),
    OtherCom(u8),
    Delayed(At),
    DelayedStatement(At),
    /// use (and open correctly) keys that are not those of the SRS: some of them exchanged
    /// (left side, i, j), or one of them changed by a multiple of another element of the SRS
    KeySwap(bool, u16, u16),
    KeyAdd(bool, u16, u16),
    /// keys of unknown structure, with the opening of the right polynomial
    KeyRandom(bool, u64),
    /// open the keys at another point
    Point(bool),
    /// open another polynomial (of other challenges)
    Poly(bool),
    /// scale final messages and final keys after the opening point is known
    DelayedKey,
    Proof(Tamper),
    FinalCk(bool),
    FinalCkZero(bool),
    Opening(bool),
    OpeningZero(bool),
    /// change an element of the verifier key
    Vk(u8),
    Shift,
    /// the verifier key of another setup
    OtherSrs(bool, bool),
    KeyT,
    /// the opening proof and the final keys of another proof
    Mix(u8, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Atk {
    k: u32,
    a: Vs,
    b: Vs,
    kt: Sc,
    alpha: Sc,
    beta: Sc,
    shift: Option<Sc>,
    attack: Attack,
    delta: Sc,
}

fn attack_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    move || {
        let bu = || (any::<bool>(), any::<u16>(), any::<u16>());
        let attack = prop_oneof![
            4 => (1u8..8).prop_map(Attack::WrongCom),
            2 => (1u8..8).prop_map(Attack::Scaled),
            1 => (0u8..3).prop_map(Attack::ClaimZero),
            3 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => (1u8..8).prop_map(Attack::OtherCom),
            4 => at().prop_map(Attack::Delayed),
            4 => at().prop_map(Attack::DelayedStatement),
            2 => bu().prop_map(|(l, i, j)| Attack::KeySwap(l, i, j)),
            2 => bu().prop_map(|(l, i, j)| Attack::KeyAdd(l, i, j)),
            2 => (any::<bool>(), any::<u64>()).prop_map(|(l, s)| Attack::KeyRandom(l, s)),
            2 => any::<bool>().prop_map(Attack::Point),
            2 => any::<bool>().prop_map(Attack::Poly),
            2 => Just(Attack::DelayedKey),
            8 => tamper().prop_map(Attack::Proof),
            2 => any::<bool>().prop_map(Attack::FinalCk),
            1 => any::<bool>().prop_map(Attack::FinalCkZero),
            2 => any::<bool>().prop_map(Attack::Opening),
            1 => any::<bool>().prop_map(Attack::OpeningZero),
            3 => (0u8..4).prop_map(Attack::Vk),
            2 => Just(Attack::Shift),
            1 => (any::<bool>(), any::<bool>()).prop_map(|(a, b)| Attack::OtherSrs(a, b)),
            1 => Just(Attack::KeyT),
            2 => (0u8..4, any::<u64>()).prop_map(|(a, b)| Attack::Mix(a, b)),
        ];
        let shift = prop_oneof![2 => Just(None), 2 => sc_rand().prop_map(Some), 1 => Just(Some(Sc::NegOne))];
        (logn(lo, hi), vs_rand(), vs_rand(), sc_rand(), sc_rand(), sc_rand(), shift, attack, delta())
            .prop_map(|(k, a, b, kt, alpha, beta, shift, attack, delta)| Atk { k, a, b, kt, alpha, beta, shift, attack, delta })
            .boxed()
    }
}

/// Degenerate statements (zeros, patterns), false claims about them
fn degenerate_case(lo: u32, hi: u32) -> impl Fn() -> BoxedStrategy<Atk> + Send + Sync + 'static {
    let f = attack_case(lo, hi);
    move || {
        let attack = prop_oneof![
            2 => (1u8..8).prop_map(Attack::WrongCom),
            1 => (1u8..8).prop_map(Attack::OtherCom),
            2 => (0u8..3).prop_map(Attack::ClaimZero),
            1 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(i, j, s)| Attack::Cancel(i, j, s)),
            1 => at().prop_map(Attack::Delayed),
            1 => at().prop_map(Attack::DelayedStatement),
        ];
        (f(), vs(), vs(), attack)
            .prop_map(|(c, a, b, attack)| Atk { a, b, attack, ..c })
            .boxed()
    }
}

fn soundness<I: TInst<P>, P: CurveEx, D: Digest + 'static>(c: &Atk) -> R {
    let n = 1usize << c.k;
    let rounds = c.k as usize;
    let s = SrsDl { n, alpha: c.alpha.nz::<I::S>(), beta: c.beta.nz() };
    let r: I::S = c.shift.as_ref().map_or(I::S::one(), |x| x.nz());
    let d = Dl::new::<I>(c.a.f(n), c.b.f(n), s.ka(&r), s.kb(), c.kt.nz());
    let mut vk = s.vk::<P>();
    let delta: I::S = c.delta.nz();
    let ver = |vk: &_, kt: &I::S, com: &(I::LO, I::RO, I::TO), p: &TpProof<I, P, D>, r: &I::S| {
        verdict(|| {
            if r.is_one() && (c.shift.is_none() || matches!(c.attack, Attack::Shift)) {
                Tp::<I, P, D>::verify(vk, &I::tk(kt), (&com.0, &com.1, &com.2), p)
            } else {
                Tp::<I, P, D>::verify_with_srs_shift(vk, &I::tk(kt), (&com.0, &com.1, &com.2), p, r)
            }
        })
    };
    let name = match &c.attack {
        Attack::Proof(t) => format!("Proof.{}", t.name()),
        a => format!("{:?}", a).split(['(', ' ']).next().unwrap().to_string(),
    };
    let skip = |why: &str| Ok(pass(false).class(format!("skipped: {}", why)));
    let r_inv = inv(&r);
    let ga = |z: &I::S| key_polys(n, z, &r_inv);
    let gb = |z: &I::S| key_polys(n, z, &I::S::one());
    // the adversary has to be a valid prover for the true statement, else its attacks mean nothing
    let honest = adv::honest::<I, D>(&d, &d.com);
    let Some(hfin) = finish_tipa::<I, P, D>(&s, &honest, &d.com, &d.kt, &r, &ga, &gb) else {
        return skip("no opening point");
    };
    let hproof = tipa_proof_of::<I, P, D>(&honest, &hfin);
    let mut statement = el3::<I>(&d.com);
    if ver(&vk, &d.kt, &statement, &hproof, &r) != V::True {
        return skip("adversary does not follow the protocol");
    }
    let (mut kt, mut shift) = (d.kt, r);
    let mut proof = hproof.clone();
    let swap_polys = |left: bool, i: usize, j: usize, add: bool| {
        move |z: &I::S| -> Vec<I::S> {
            let mut v = key_polys(n, z, &if left { r_inv } else { I::S::one() });
            if add {
                // a multiple of an odd power, which is in the SRS but in no key
                let p = powers(2 * n - 1, *z);
                v[i] += p[(2 * j + 1) % (2 * n - 1)] * delta;
            } else {
                v.swap(i, j);
            }
            v
        }
    };
    match &c.attack {
        Attack::WrongCom(_) | Attack::Cancel(..) | Attack::ClaimZero(_) => {
            let mut com = d.com;
            let mut e = vec![I::S::zero(); 5];
            match &c.attack {
                Attack::WrongCom(mask) => com = move_mask(&d.com, *mask, &delta),
                Attack::ClaimZero(i) => com[*i as usize] = I::S::zero(),
                Attack::Cancel(i, j, same) => e = two_errors(5, *i, *j, *same, &delta),
                _ => unreachable!(),
            }
            com.iter_mut().zip(&e).for_each(|(x, e)| *x += e);
            if com == d.com && e[3].is_zero() && e[4].is_zero() { return skip("still true"); }
            if n < 2 && !(e[3].is_zero() && e[4].is_zero()) { return skip("no opening"); }
            statement = el3::<I>(&com);
            let p = adv::honest::<I, D>(&d, &com);
            let Some(mut f) = finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            f.pi.0 += e[3] * inv(&(s.beta - f.z));
            f.pi.1 += e[4] * inv(&(s.alpha - f.z));
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::Scaled(mask) => {
            let x = factor(&delta);
            let scale = |c: &mut [I::S; 3]| (0..3).filter(|i| mask >> i & 1 == 1).for_each(|i| c[i] *= x);
            let mut com = d.com;
            scale(&mut com);
            if com == d.com { return skip("still true"); }
            statement = el3::<I>(&com);
            let p = adv::prove::<I, D>(&d, &com, &|_, s| s.iter_mut().for_each(&scale), &|_, _, _| {});
            let Some(f) = finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::OtherCom(mask) => statement = el3::<I>(&move_mask(&d.com, *mask, &delta)),
        Attack::Delayed(at) => {
            if rounds == 0 { return skip("no rounds"); }
            let (ro, slot) = (at.round(rounds), at.slot());
            let com = add_mask(&d.com, 1 << slot, &delta);
            statement = el3::<I>(&com);
            let p = adv::prove::<I, D>(&d, &com, &|_, _| {}, &|i, ch, st| {
                if i == ro {
                    at.repair(st, slot, ch, &-delta);
                }
            });
            let Some(f) = finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::DelayedStatement(at) => {
            if rounds == 0 { return skip("no rounds"); }
            let (ro, slot) = (at.round(rounds), at.slot()); let side = at.side();
            let p = adv::prove::<I, D>(&d, &d.com, &|i, st| {
                if i == ro {
                    st[side][slot] += delta;
                }
            }, &|_, _, _| {});
            let mut com = d.com;
            com[slot] -= delta * if side == 0 { p.ch[ro] } else { inv(&p.ch[ro]) };
            statement = el3::<I>(&com);
            let Some(f) = finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::KeySwap(left, i, j) | Attack::KeyAdd(left, i, j) => {
            let add = matches!(c.attack, Attack::KeyAdd(..));
            if n < 2 { return skip("one key"); }
            let i = *i as usize % n;
            let j = if add { *j as usize % (n - 1) } else { (i + 1 + *j as usize % (n - 1)) % n };
            let g = swap_polys(*left, i, j, add);
            let mut d2 = d.clone();
            if *left { d2.ka = g(&s.beta) } else { d2.kb = g(&s.alpha) }
            let com = d2.commit();
            statement = el3::<I>(&com);
            let p = adv::honest::<I, D>(&d2, &com);
            let f = if *left {
                finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &g, &gb)
            } else {
                finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &g)
            };
            let Some(f) = f else { return skip("no opening point") };
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::KeyRandom(left, seed) => {
            let mut d2 = d.clone();
            let v = Vs { pat: Pat::Rand(*seed), over: vec![] }.f(n);
            if *left { d2.ka = v } else { d2.kb = v }
            let com = d2.commit();
            statement = el3::<I>(&com);
            let p = adv::honest::<I, D>(&d2, &com);
            let Some(mut f) = finish_tipa::<I, P, D>(&s, &p, &com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            // the opening of the polynomial of the right keys
            let right = Fin { ck: (fold(&s.ka(&r), &invs(&p.ch)), fold(&s.kb(), &p.ch)), ..f.clone() };
            f.pi = open_keys(&s, &p, &right, &ga, &gb).unwrap();
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::Point(left) => {
            let mut f = hfin.clone();
            ripp_check::change!(f.z, delta);
            let Some(pi) = open_keys(&s, &honest, &f, &ga, &gb) else { return skip("no opening point") };
            if pi.0 == hfin.pi.0 || pi.1 == hfin.pi.1 { return skip("constant polynomial"); }
            if *left { f.pi = (pi.0, hfin.pi.1) } else { f.pi = (hfin.pi.0, pi.1) }
            proof = tipa_proof_of::<I, P, D>(&honest, &f);
        }
        Attack::Poly(left) => {
            if rounds == 0 { return skip("no rounds"); }
            let mut other = honest.clone();
            ripp_check::change!(other.ch[0], delta);
            if other.ch[0].is_zero() { return skip("challenge zero"); }
            let f2 = Fin { ck: (fold(&s.ka(&r), &invs(&other.ch)), fold(&s.kb(), &other.ch)), ..hfin.clone() };
            let pi = open_keys(&s, &other, &f2, &ga, &gb).unwrap();
            let mut f = hfin.clone();
            if *left { f.pi.0 = pi.0 } else { f.pi.1 = pi.1 }
            proof = tipa_proof_of::<I, P, D>(&honest, &f);
        }
        Attack::DelayedKey => {
            let l = if delta.is_one() { I::S::from(2u64) } else { delta };
            let mut p = honest.clone();
            p.base = (p.base.0 * l, p.base.1 * inv(&l));
            let mut f = hfin.clone();
            f.ck = (f.ck.0 * inv(&l), f.ck.1 * l);
            let Some(pi) = open_keys(&s, &p, &f, &ga, &gb) else { return skip("no opening point") };
            f.pi = pi;
            proof = tipa_proof_of::<I, P, D>(&p, &f);
        }
        Attack::Proof(t) => {
            let (g, ck, pi) = hproof.verif_into_parts();
            match t.apply::<I, D>(g, &delta) {
                Some(g) => proof = TpProof::<I, P, D>::verif_from_parts(g, ck, pi),
                None => return skip("does not apply"),
            }
        }
        Attack::FinalCk(left) | Attack::FinalCkZero(left) | Attack::Opening(left) | Attack::OpeningZero(left) => {
            let mut f = hfin.clone();
            let x = match (&c.attack, left) {
                (Attack::FinalCk(_) | Attack::FinalCkZero(_), true) => &mut f.ck.0,
                (Attack::FinalCk(_) | Attack::FinalCkZero(_), false) => &mut f.ck.1,
                (_, true) => &mut f.pi.0,
                _ => &mut f.pi.1,
            };
            if matches!(c.attack, Attack::FinalCk(_) | Attack::Opening(_)) {
                ripp_check::change!(*x, delta);
            } else if x.is_zero() {
                return skip("already zero");
            } else {
                *x = I::S::zero();
            }
            proof = tipa_proof_of::<I, P, D>(&honest, &f);
        }
        Attack::Vk(i) => {
            if n < 2 { return skip("one key"); }
            match i {
                0 => vk.g += P::g1(&delta),
                1 => vk.h += P::g2(&delta),
                2 => vk.g_beta += P::g1(&delta),
                _ => vk.h_alpha += P::g2(&delta),
            }
        }
        Attack::Shift => {
            if n < 2 { return skip("one key"); }
            ripp_check::change!(shift, delta);
            if shift.is_zero() { return skip("shift zero"); }
        }
        Attack::OtherSrs(a, b) => {
            if n < 2 || (!a && !b) { return skip("one key"); }
            let mut s2 = s.clone();
            if *a { ripp_check::change!(s2.alpha, delta) }
            if *b { ripp_check::change!(s2.beta, delta) }
            vk = s2.vk::<P>();
        }
        Attack::KeyT => {
            if !I::KEYED { return skip("no key for the product"); }
            ripp_check::change!(kt, delta);
        }
        Attack::Mix(what, seed) => {
            let d2 = Dl::new::<I>(Vs { pat: Pat::Rand(*seed), over: vec![] }.f(n), d.b.clone(), d.ka.clone(), d.kb.clone(), d.kt);
            if d2.a == d.a { return skip("same statement"); }
            let p2 = adv::honest::<I, D>(&d2, &d2.com);
            let Some(f2) = finish_tipa::<I, P, D>(&s, &p2, &d2.com, &d.kt, &r, &ga, &gb) else { return skip("no opening point") };
            let mut f = hfin.clone();
            match what {
                0 => { f.ck = f2.ck; f.pi = f2.pi; }
                1 => f.pi = f2.pi,
                2 => f.ck = f2.ck,
                _ => {}
            }
            let same = f.ck == hfin.ck && f.pi == hfin.pi;
            if *what == 3 {
                proof = tipa_proof_of::<I, P, D>(&p2, &f2);
            } else if same {
                return skip("same keys");
            } else {
                proof = tipa_proof_of::<I, P, D>(&honest, &f);
            }
        }
    }
    let v = ver(&vk, &kt, &statement, &proof, &shift);
    ensure!(v != V::True, "accepted: {:?} at length {}", c.attack, n);
    Ok(pass(true).class(name).class(nclass(n)).class(match v { V::False => "rejected", V::Error(_) => "error", _ => "panic" }))
}

fn c09() -> Vec<Scenario> {
    vec![
        Scenario::new("pairing/mock", 2500, 80_000, attack_case(0, 4), soundness::<Pair<Big>, Big, Rec64>),
        Scenario::new("multiexp/mock", 2500, 80_000, attack_case(0, 4), soundness::<Msm<Big>, Big, Rec64>),
        Scenario::new("multiexp-keyed/mock", 2500, 80_000, attack_case(0, 4), soundness::<MsmKey<Big>, Big, Rec64>),
        Scenario::new("scalar/mock", 2500, 80_000, attack_case(0, 4), soundness::<Scal<Big>, Big, Rec64>),
        Scenario::new("scalar-keyed/mock", 2500, 80_000, attack_case(0, 4), soundness::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("degenerate/pairing", 1500, 40_000, degenerate_case(0, 4), soundness::<Pair<Big>, Big, Rec64>),
        Scenario::new("degenerate/multiexp-keyed", 1000, 40_000, degenerate_case(0, 4), soundness::<MsmKey<Big>, Big, Rec64>),
        Scenario::new("degenerate/scalar", 1000, 40_000, degenerate_case(0, 4), soundness::<Scal<Big>, Big, Rec64>),
        Scenario::new("long/pairing", 60, 2000, attack_case(5, 6), soundness::<Pair<Big>, Big, Rec64>),
        Scenario::new("digest-32/multiexp", 300, 5000, attack_case(1, 3), soundness::<Msm<Big>, Big, Rec32>),
        Scenario::new("pairing/bls12-381", 60, 2000, attack_case(0, 2), soundness::<Pair<Bls>, Bls, Rec64>),
        Scenario::new("scalar-keyed/bls12-381", 80, 2000, attack_case(0, 2), soundness::<ScalKey<Bls>, Bls, Rec64>),
        Scenario::new("longer/pairing", 40, 400, attack_case(7, 8), soundness::<Pair<Big>, Big, Rec64>),
        Scenario::new("longer/scalar-keyed", 300, 500, attack_case(8, 9), soundness::<ScalKey<Big>, Big, Rec64>),
        Scenario::new("multiexp/bw6-761", 16, 400, attack_case(0, 2), soundness::<Msm<Bw6>, Bw6, Rec64>),
    ]
}

fn main() {
    ripp_check::fw::main(&[
        Property {
            id: "C08",
            rule: "A case is a size 2^k (k from 0), two message vectors given by patterns (random, constant, alternating, powers, repeated or opposite halves, special entries), a setup (the library's, or given non-zero secrets), no shift or any non-zero shift, and a number of threads. Non-trivial: at least two elements and a non-zero product. The 251-element groups and the digests that give zeros or non-canonical values make unusable challenges frequent.",
            assumptions: &["arkworks pairings, groups and fields are correct"],
            scenarios: c08,
        },
        Property {
            id: "C09",
            rule: "A case is a random statement under a setup with known secrets (used only to compute discrete logarithms) and one attack: protocol-following provers for wrong commitments or keys outside the SRS (opened correctly as what they are), repaired round messages, delayed statements, delayed final keys, openings at other points or of other polynomials, and alterations of every part of the proof, the verifier key and the shift. Non-trivial: the attack applied, changed something, and the same prover is accepted on the true statement.",
            assumptions: &["arkworks pairings, groups and fields are correct", "the digest behaves like a random oracle"],
            scenarios: c09,
        },
    ])
}
