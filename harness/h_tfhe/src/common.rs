//! Generators and reference arithmetic shared by the checks of sunscreen_tfhe.
use num::traits::{WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{entities::*, *};
use vkit::proptest::prelude::*;
use vkit::proptest::strategy::Union;

/// View an overlay reference as its raw slice (they are repr(transparent) over a slice).
#[macro_export]
macro_rules! raw {
    ($r:expr, $t:ident, $e:ty) => {{
        let r: &sunscreen_tfhe::entities::$t<_> = &$r;
        unsafe { &*(r as *const _ as *const [$e]) }
    }};
}
#[macro_export]
macro_rules! raw_mut {
    ($r:expr, $t:ident, $e:ty) => {{
        let r: &mut sunscreen_tfhe::entities::$t<_> = &mut $r;
        unsafe { &mut *(r as *mut _ as *mut [$e]) }
    }};
}

pub fn mask(bits: u32) -> u64 {
    if bits >= 64 {
        u64::MAX
    } else {
        (1u64 << bits) - 1
    }
}

/// 64-bit words with plenty of edge values.
pub fn word() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => any::<u64>(),
        2 => (0u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64)),
        2 => (0u32..64, -2i64..3).prop_map(|(k, d)| (1u64 << k).wrapping_add(d as u64).wrapping_neg()),
        1 => (0u32..64, 0u32..64).prop_map(|(a, b)| mask(a) ^ mask(b)),
        1 => prop::sample::select(vec![0u64, 1, u64::MAX, 1 << 63, (1 << 63) - 1, 1 << 31, 1 << 32, 0xFFFF_FFFF]),
        1 => 0u64..16,
        // both halves edgy: covers 32-bit words too
        1 => (0u32..32, -1i64..2, any::<u32>()).prop_map(|(k, d, h)| ((h as u64) << 32) | ((1u64 << k).wrapping_add(d as u64) & 0xFFFF_FFFF)),
    ]
    .boxed()
}

pub fn words(n: impl Into<prop::collection::SizeRange>) -> BoxedStrategy<Vec<u64>> {
    prop::collection::vec(word(), n).boxed()
}

/// How the coefficients of a (large) polynomial are produced from a seed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fill {
    Zero,
    Max,
    Min,
    Random,
    /// one non-zero coefficient
    Monomial(u16, u64),
    Small(u32),
    Edge,
}

pub fn fill() -> BoxedStrategy<Fill> {
    Union::new_weighted(vec![
        (1, Just(Fill::Zero).boxed()),
        (1, Just(Fill::Max).boxed()),
        (1, Just(Fill::Min).boxed()),
        (6, Just(Fill::Random).boxed()),
        (2, (any::<u16>(), word()).prop_map(|(i, v)| Fill::Monomial(i, v)).boxed()),
        (2, (1u32..40).prop_map(Fill::Small).boxed()),
        (2, Just(Fill::Edge).boxed()),
    ])
    .boxed()
}

pub struct Sm(pub u64);
impl Sm {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
}

/// Expand a fill description; a pure function of its arguments.
pub fn expand(f: &Fill, n: usize, seed: u64) -> Vec<u64> {
    let mut r = Sm(seed);
    match f {
        Fill::Zero => vec![0; n],
        Fill::Max => vec![i64::MAX as u64; n],
        Fill::Min => vec![i64::MIN as u64; n],
        Fill::Random => (0..n).map(|_| r.next()).collect(),
        Fill::Monomial(i, v) => {
            let mut x = vec![0; n];
            x[*i as usize % n] = *v;
            x
        }
        Fill::Small(b) => (0..n).map(|_| ((r.next() & mask(*b)) as i64 - (1i64 << (b - 1))) as u64).collect(),
        Fill::Edge => (0..n)
            .map(|_| {
                let k = r.below(64);
                let d = r.below(3);
                let v = (1u64 << k).wrapping_add(d).wrapping_sub(1);
                if r.below(2) == 0 {
                    v
                } else {
                    v.wrapping_neg()
                }
            })
            .collect(),
    }
}

/// Words the torus can be built on; lets each check run at both sizes.
pub trait Word:
    TorusOps
    + Serialize
    + for<'a> Deserialize<'a>
    + WrappingAdd
    + WrappingSub
    + WrappingMul
    + WrappingNeg
{
    const NAME: &'static str;
    fn gen_ssk(key: &mut SchemeSwitchKeyRef<Self>, sk: &GlweSecretKeyRef<Self>, g: &GlweDef, r: &RadixDecomposition);
    fn of(x: u64) -> Self;
    fn u(self) -> u64;
    fn bits() -> u32 {
        <Self as NumBits>::BITS
    }
    /// Signed representative of a word held in a u64.
    fn signed(x: u64) -> i128 {
        let x = x & mask(Self::bits());
        if x >> (Self::bits() - 1) & 1 == 1 {
            x as i128 - (1i128 << Self::bits())
        } else {
            x as i128
        }
    }
    fn trunc(x: i128) -> u64 {
        (x as u128 & mask(Self::bits()) as u128) as u64
    }
}
impl Word for u32 {
    const NAME: &'static str = "u32";
    fn gen_ssk(key: &mut SchemeSwitchKeyRef<Self>, sk: &GlweSecretKeyRef<Self>, g: &GlweDef, r: &RadixDecomposition) {
        sunscreen_tfhe::ops::bootstrapping::generate_scheme_switch_key(key, sk, g, r)
    }
    fn of(x: u64) -> u32 {
        x as u32
    }
    fn u(self) -> u64 {
        self as u64
    }
}
impl Word for u64 {
    const NAME: &'static str = "u64";
    fn gen_ssk(key: &mut SchemeSwitchKeyRef<Self>, sk: &GlweSecretKeyRef<Self>, g: &GlweDef, r: &RadixDecomposition) {
        sunscreen_tfhe::ops::bootstrapping::generate_scheme_switch_key(key, sk, g, r)
    }
    fn of(x: u64) -> u64 {
        x
    }
    fn u(self) -> u64 {
        self
    }
}

pub fn t<S: Word>(x: u64) -> Torus<S> {
    Torus::from(S::of(x))
}

/// Schoolbook negacyclic product of words, modulo 2^bits.
pub fn negacyclic_mul<S: Word>(a: &[u64], b: &[u64]) -> Vec<u64> {
    let n = a.len();
    let mut c = vec![0u64; n];
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = a[i].wrapping_mul(b[j]);
            if i + j < n {
                c[i + j] = c[i + j].wrapping_add(p);
            } else {
                c[i + j - n] = c[i + j - n].wrapping_sub(p);
            }
        }
    }
    for x in c.iter_mut() {
        *x &= mask(S::bits());
    }
    c
}

/// X^k * a in the negacyclic ring for any integer k.
pub fn monomial_mul<S: Word>(a: &[u64], k: i64) -> Vec<u64> {
    let n = a.len() as i64;
    let mut c = vec![0u64; a.len()];
    for (i, x) in a.iter().enumerate() {
        let e = (i as i64 + k).rem_euclid(2 * n);
        if e < n {
            c[e as usize] = *x & mask(S::bits());
        } else {
            c[(e - n) as usize] = x.wrapping_neg() & mask(S::bits());
        }
    }
    c
}

pub fn poly<S: Word>(a: &[u64]) -> Polynomial<S> {
    Polynomial::new(&a.iter().map(|x| S::of(*x)).collect::<Vec<_>>())
}
pub fn tpoly<S: Word>(a: &[u64]) -> Polynomial<Torus<S>> {
    Polynomial::new(&a.iter().map(|x| t::<S>(*x)).collect::<Vec<_>>())
}
pub fn upoly<S: Word>(p: &PolynomialRef<S>) -> Vec<u64> {
    p.coeffs().iter().map(|x| x.u()).collect()
}
pub fn utpoly<S: Word>(p: &PolynomialRef<Torus<S>>) -> Vec<u64> {
    p.coeffs().iter().map(|x| x.inner().u()).collect()
}

/// Signed distance a-b on the torus of word S, in units of 2^-bits.
pub fn tdist<S: Word>(a: u64, b: u64) -> i128 {
    S::signed(a.wrapping_sub(b))
}
