//! Deformed proofs: any number of rounds, any elements, any number of components, and whatever can
//! be decoded from changed bytes.

use crate::curves::CurveEx;
use crate::fw::quiet;
use crate::gen::*;
use crate::inst::*;
use crate::st::{at, At};
use ark_ff::{UniformRand, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use digest::Digest;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Rounds {
    Keep,
    Set(u8),
    More(u8),
    Fewer(u8),
    /// only where the number of rounds may be large
    Many(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum El {
    Zero,
    Rand(u64),
    /// the element at another place
    Other(At),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fill {
    /// the honest rounds over and over
    Cycle,
    Zero,
    Rand(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Shape {
    pub rounds: Rounds,
    /// what stands in the rounds that are not kept
    pub fill: Fill,
    /// the honest rounds are replaced too
    pub all: bool,
    pub set: Vec<(At, El)>,
    /// number of components of products (None: of all products in the proof)
    pub comps: Vec<(Option<At>, u8, u64)>,
    pub base: (Option<El>, Option<El>),
    /// final keys and their openings
    pub fin: [Option<El>; 4],
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Flip(u16, u8),
    Byte(u16, u8),
    /// length prefix: which one, and its new value
    Len(u16, u8),
    /// copy bytes from the other proof, same offset
    Splice(u16, u8),
    /// copy bytes from elsewhere in the same proof
    Move(u16, u16, u8),
    Delete(u16, u8),
    Insert(u16, Vec<u8>),
    Cut(u16),
    Blob(u64, u16),
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum How {
    Shape(Shape),
    /// operations on the bytes; aligned to the elements or not; compressed or not
    Bytes(Vec<Op>, bool, bool),
}

impl How {
    pub fn class(&self) -> String {
        match self {
            How::Shape(s) => match s.rounds {
                Rounds::Keep => "same number of rounds".into(),
                Rounds::Many(_) => "very many rounds".into(),
                _ => "other number of rounds".into(),
            },
            How::Bytes(o, ..) => {
                let s = format!("{:?}", o.first());
                let s = s.trim_start_matches("Some(").split(['(', ')']).next().unwrap().to_string();
                format!("bytes: {}", s)
            }
        }
    }
    /// The same with a smaller number of rounds, to see how the cost grows before it is too much
    pub fn tame(&self) -> Option<(How, usize)> {
        match self {
            How::Shape(s) => match s.rounds {
                Rounds::Many(m) => {
                    let mut t = s.clone();
                    t.rounds = Rounds::Set(22);
                    Some((How::Shape(t), m as usize))
                }
                _ => None,
            },
            _ => None,
        }
    }
}

fn el() -> BoxedStrategy<El> {
    prop_oneof![2 => Just(El::Zero), 2 => any::<u64>().prop_map(El::Rand), 1 => at().prop_map(El::Other)].boxed()
}

pub fn how(many: bool) -> BoxedStrategy<How> {
    let m = if many { 1 } else { 0 };
    let rounds = prop_oneof![
        5 => Just(Rounds::Keep),
        3 => (0u8..8).prop_map(Rounds::Set),
        1 => (0u8..24).prop_map(Rounds::Set),
        2 => (1u8..4).prop_map(Rounds::More),
        2 => (1u8..4).prop_map(Rounds::Fewer),
        m => (25u16..900).prop_map(Rounds::Many),
    ];
    let fill = prop_oneof![2 => Just(Fill::Cycle), 1 => Just(Fill::Zero), 2 => any::<u64>().prop_map(Fill::Rand)];
    let comps = prop::collection::vec((prop::option::weighted(0.7, at()), prop_oneof![3 => Just(0u8), 2 => Just(2u8), 1 => 1u8..9], any::<u64>()), 0..3);
    let o = || prop::option::weighted(0.25, el());
    let fin = (o(), o(), o(), o()).prop_map(|(a, b, c, d)| [a, b, c, d]);
    let shape = (rounds, fill, prop::bool::weighted(0.2), prop::collection::vec((at(), el()), 0..3), comps, (o(), o()), fin)
        .prop_map(|(rounds, fill, all, set, comps, base, fin)| How::Shape(Shape { rounds, fill, all, set, comps, base, fin }));
    let p = any::<u16>;
    let op = prop_oneof![
        2 => (p(), 0u8..8).prop_map(|(a, b)| Op::Flip(a, b)),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Op::Byte(a, b)),
        3 => (p(), any::<u8>()).prop_map(|(a, b)| Op::Len(a, b)),
        3 => (p(), any::<u8>()).prop_map(|(a, b)| Op::Splice(a, b)),
        3 => (p(), p(), any::<u8>()).prop_map(|(a, b, c)| Op::Move(a, b, c)),
        1 => (p(), any::<u8>()).prop_map(|(a, b)| Op::Delete(a, b)),
        1 => (p(), prop::collection::vec(any::<u8>(), 0..40)).prop_map(|(a, b)| Op::Insert(a, b)),
        1 => p().prop_map(Op::Cut),
        1 => (any::<u64>(), 0u16..600).prop_map(|(a, b)| Op::Blob(a, b)),
        1 => Just(Op::Nothing),
    ];
    let bytes = (prop::collection::vec(op, 1..4), prop::bool::weighted(0.8), any::<bool>()).prop_map(|(o, a, c)| How::Bytes(o, a, c));
    prop_oneof![3 => shape, 2 => bytes].boxed()
}

type Side<I> = (<I as Inst>::LO, <I as Inst>::RO, <I as Inst>::TO);
pub type Parts<I> = (Vec<(Side<I>, Side<I>)>, (<I as Inst>::LM, <I as Inst>::RM));

fn three<I: Inst>(s: u64) -> Side<I> {
    let mut r = rng(s);
    (I::lo(&I::S::rand(&mut r)), I::ro(&I::S::rand(&mut r)), I::to(&I::S::rand(&mut r)))
}

fn scalar<I: Inst>(e: &El) -> I::S {
    match e {
        El::Rand(s) => I::S::rand(&mut rng(*s)),
        _ => I::S::zero(),
    }
}

impl Shape {
    pub fn gipa<I: Inst>(&self, p: Parts<I>) -> Parts<I> {
        let (honest, mut base) = p;
        let (k, z) = (honest.len(), I::S::zero());
        let n = match self.rounds {
            Rounds::Keep => k,
            Rounds::Set(m) => m as usize,
            Rounds::More(m) => k + m as usize,
            Rounds::Fewer(m) => k.saturating_sub(m as usize),
            Rounds::Many(m) => m as usize,
        };
        let zero = || (I::lo(&z), I::ro(&z), I::to(&z));
        // a few random rounds are enough, group elements are expensive
        let pool: Vec<_> = match self.fill {
            Fill::Rand(s) => (0..4).map(|i| (three::<I>(s ^ i), three::<I>(s ^ (i + 77)))).collect(),
            Fill::Cycle if k > 0 => honest.clone(),
            _ => vec![(zero(), zero())],
        };
        let mut v: Vec<_> = (0..n)
            .map(|i| if i < k && !self.all { honest[i].clone() } else { pool[i % pool.len()].clone() })
            .collect();
        if n > 0 {
            for (at, e) in &self.set {
                let other = match e {
                    El::Other(o) => {
                        let s = &v[o.round(n)];
                        if o.side { s.0.clone() } else { s.1.clone() }
                    }
                    _ => {
                        let x = scalar::<I>(e);
                        (I::lo(&x), I::ro(&x), I::to(&x))
                    }
                };
                let s = &mut v[at.round(n)];
                let x = if at.side { &mut s.0 } else { &mut s.1 };
                match at.slot() {
                    0 => x.0 = other.0,
                    1 => x.1 = other.1,
                    _ => x.2 = other.2,
                }
            }
            for (at, m, seed) in &self.comps {
                let mut r = rng(*seed);
                let x: Vec<I::S> = (0..*m).map(|_| I::S::rand(&mut r)).collect();
                let x = I::tos(&x);
                match at {
                    Some(at) => {
                        let s = &mut v[at.round(n)];
                        if at.side { s.0 .2 = x } else { s.1 .2 = x }
                    }
                    None => v.iter_mut().for_each(|s| {
                        s.0 .2 = x.clone();
                        s.1 .2 = x.clone();
                    }),
                }
            }
        }
        if let Some(e) = &self.base.0 {
            base.0 = I::lm(&scalar::<I>(e));
        }
        if let Some(e) = &self.base.1 {
            base.1 = I::rm(&scalar::<I>(e));
        }
        (v, base)
    }
}

fn encode<T: CanonicalSerialize>(x: &T, c: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, c).unwrap();
    v
}

/// Where the elements of an encoded GIPA proof begin, and where its length prefixes are
fn layout<I: Inst>(p: &Parts<I>, c: Compress) -> (Vec<usize>, Vec<usize>) {
    let (mut at, mut begins, mut lens) = (8, vec![0, 8], vec![0]);
    for s in &p.0 {
        for x in [&s.0, &s.1] {
            at += x.0.serialized_size(c);
            begins.push(at);
            at += x.1.serialized_size(c);
            begins.push(at);
            if !I::KEYED {
                lens.push(at);
            }
            at += x.2.serialized_size(c);
            begins.push(at);
        }
    }
    at += p.1 .0.serialized_size(c);
    begins.push(at);
    begins.push(at + p.1 .1.serialized_size(c));
    (begins, lens)
}

fn apply(ops: &[Op], aligned: bool, b: &mut Vec<u8>, other: &[u8], begins: &[usize], lens: &[usize]) {
    for op in ops {
        if b.is_empty() && !matches!(op, Op::Insert(..) | Op::Blob(..)) {
            continue;
        }
        let len = b.len().max(1);
        let spot = |i: &u16| if aligned { begins[*i as usize % begins.len()].min(len - 1) } else { *i as usize % len };
        // aligned ranges cover whole elements
        let range = |i: &u16, n: &u8| -> std::ops::Range<usize> {
            let (a, e) = if aligned {
                let i = *i as usize % begins.len();
                (begins[i], begins[(i + 1 + *n as usize % 4).min(begins.len() - 1)])
            } else {
                (*i as usize % len, *i as usize % len + *n as usize % 70)
            };
            a.min(len)..e.min(len)
        };
        match op {
            Op::Nothing => {}
            Op::Flip(i, k) => {
                if let Some(x) = b.get_mut(*i as usize % len) {
                    *x ^= 1 << k;
                }
            }
            Op::Byte(i, x) => {
                let i = spot(i);
                if let Some(y) = b.get_mut(i) {
                    *y = *x;
                }
            }
            Op::Len(i, v) => {
                let at = lens[*i as usize % lens.len()];
                if at + 8 <= b.len() {
                    let old = u64::from_le_bytes(b[at..at + 8].try_into().unwrap());
                    let new = match v % 10 {
                        0 => 0,
                        1 => 1,
                        2 => 2,
                        3 => old.wrapping_add(1),
                        4 => old.wrapping_sub(1),
                        5 => 1 << 20,
                        6 => 1 << 33,
                        7 => 1 << 59,
                        8 => u64::MAX,
                        _ => *v as u64,
                    };
                    b[at..at + 8].copy_from_slice(&new.to_le_bytes());
                }
            }
            Op::Splice(i, n) => {
                let r = range(i, n);
                let r = r.start.min(other.len())..r.end.min(other.len());
                let m = r.len().min(b.len().saturating_sub(r.start));
                b[r.start..r.start + m].copy_from_slice(&other[r.start..r.start + m]);
            }
            Op::Move(i, j, n) => {
                let (r, to) = (range(i, n), spot(j));
                let src = b[r.start.min(b.len())..r.end.min(b.len())].to_vec();
                let m = src.len().min(b.len().saturating_sub(to));
                b[to..to + m].copy_from_slice(&src[..m]);
            }
            Op::Delete(i, n) => {
                let r = range(i, n);
                b.drain(r.start.min(b.len())..r.end.min(b.len()));
            }
            Op::Insert(i, x) => {
                let i = spot(i).min(b.len());
                b.splice(i..i, x.iter().cloned());
            }
            Op::Cut(i) => {
                let i = spot(i);
                b.truncate(i);
            }
            Op::Blob(s, n) => {
                use ark_std::rand::RngCore;
                let mut x = vec![0; *n as usize];
                rng(*s).fill_bytes(&mut x);
                *b = x;
            }
        }
    }
}

/// What a changed encoding is decoded to. Err: decoding panicked.
fn decode<T: CanonicalDeserialize>(b: &[u8], c: Compress) -> Result<Option<T>, String> {
    quiet(|| T::deserialize_with_mode(b, c, Validate::Yes).ok()).map_err(|e| format!("decoding panics: {}", e))
}

fn comp(c: bool) -> Compress {
    if c { Compress::Yes } else { Compress::No }
}

/// A deformed GIPA proof; None if the bytes do not decode.
pub fn mangle_gp<I: Inst, D: Digest>(how: &How, p: GpProof<I, D>, other: &GpProof<I, D>) -> Result<Option<GpProof<I, D>>, String> {
    match how {
        How::Shape(s) => {
            let (v, b) = s.gipa::<I>(p.verif_into_parts());
            Ok(Some(GpProof::<I, D>::verif_from_parts(v, b)))
        }
        How::Bytes(ops, aligned, c) => {
            let c = comp(*c);
            let mut b = encode(&p, c);
            let (begins, lens) = layout::<I>(&p.verif_into_parts(), c);
            apply(ops, *aligned, &mut b, &encode(other, c), &begins, &lens);
            decode(&b, c)
        }
    }
}

pub fn mangle_tp<I: TInst<P>, P: CurveEx, D: Digest>(
    how: &How,
    p: TpProof<I, P, D>,
    other: &TpProof<I, P, D>,
) -> Result<Option<TpProof<I, P, D>>, String> {
    match how {
        How::Shape(s) => {
            let (g, mut ck, mut pi) = p.verif_into_parts();
            let (v, b) = s.gipa::<I>(g.verif_into_parts());
            for (i, e) in s.fin.iter().enumerate() {
                if let Some(e) = e {
                    let x = scalar::<I>(e);
                    match i {
                        0 => ck.0 = P::g2(&x),
                        1 => ck.1 = P::g1(&x),
                        2 => pi.0 = P::g2(&x),
                        _ => pi.1 = P::g1(&x),
                    }
                }
            }
            Ok(Some(TpProof::<I, P, D>::verif_from_parts(GpProof::<I, D>::verif_from_parts(v, b), ck, pi)))
        }
        How::Bytes(ops, aligned, c) => {
            let c = comp(*c);
            let mut b = encode(&p, c);
            let (g, ck, pi) = p.verif_into_parts();
            let (mut begins, lens) = layout::<I>(&g.verif_into_parts(), c);
            for n in [ck.0.serialized_size(c), ck.1.serialized_size(c), pi.0.serialized_size(c), pi.1.serialized_size(c)] {
                begins.push(begins.last().unwrap() + n);
            }
            apply(ops, *aligned, &mut b, &encode(other, c), &begins, &lens);
            decode(&b, c)
        }
    }
}

pub fn mangle_ts<I: SInst<P>, P: CurveEx, D: Digest>(
    how: &How,
    p: TsProof<I, P, D>,
    other: &TsProof<I, P, D>,
) -> Result<Option<TsProof<I, P, D>>, String> {
    match how {
        How::Shape(s) => {
            let (g, mut ck, mut pi) = p.verif_into_parts();
            let (v, b) = s.gipa::<Ssm<I>>(g.verif_into_parts());
            if let Some(e) = &s.fin[0] {
                ck = P::g2(&scalar::<I>(e));
            }
            if let Some(e) = &s.fin[2] {
                pi = P::g2(&scalar::<I>(e));
            }
            Ok(Some(TsProof::<I, P, D>::verif_from_parts(GpProof::<Ssm<I>, D>::verif_from_parts(v, b), ck, pi)))
        }
        How::Bytes(ops, aligned, c) => {
            let c = comp(*c);
            let mut b = encode(&p, c);
            let (g, ck, pi) = p.verif_into_parts();
            let (mut begins, lens) = layout::<Ssm<I>>(&g.verif_into_parts(), c);
            for n in [ck.serialized_size(c), pi.serialized_size(c)] {
                begins.push(begins.last().unwrap() + n);
            }
            apply(ops, *aligned, &mut b, &encode(other, c), &begins, &lens);
            decode(&b, c)
        }
    }
}
