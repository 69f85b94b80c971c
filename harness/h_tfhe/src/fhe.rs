//! Parameter generation, independent decryption and error bounds shared by the FHE checks.
use crate::common::*;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{entities::*, rand::verif_rng, rand::Stddev, *};
use vkit::proptest::prelude::*;
use vkit::*;

/// Seeds this thread's library randomness for one case.
pub struct Seeded;
impl Seeded {
    pub fn new(seed: u64) -> Seeded {
        verif_rng::seed(Some(seed));
        Seeded
    }
}
impl Drop for Seeded {
    fn drop(&mut self) {
        verif_rng::seed(None)
    }
}

pub fn lwe_def(dim: usize, std: f64) -> LweDef {
    LweDef { dim: LweDimension(dim), std: Stddev(std) }
}
pub fn glwe_def(n: usize, k: usize, std: f64) -> GlweDef {
    GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(n), size: GlweSize(k) }, std: Stddev(std) }
}
pub fn rad(log: usize, count: usize) -> RadixDecomposition {
    RadixDecomposition { count: RadixCount(count), radix_log: RadixLog(log) }
}

/// A radix described relative to the word it is used on: log in 1..=max_log, count*log <= bits.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Rx {
    pub log: u8,
    pub count: u8,
}
impl Rx {
    pub fn log(&self) -> usize {
        self.log as usize
    }
    pub fn count(&self) -> usize {
        self.count as usize
    }
    pub fn rad(&self) -> RadixDecomposition {
        rad(self.log(), self.count())
    }
    pub fn exact<S: Word>(&self) -> bool {
        self.log() * self.count() == S::bits() as usize
    }
    /// Half of the smallest gadget factor: the most rounding can change a decomposed word.
    pub fn round_unit<S: Word>(&self) -> i128 {
        let rest = S::bits() as usize - self.log() * self.count();
        if rest == 0 {
            0
        } else {
            1i128 << (rest - 1)
        }
    }
}

/// Any radix for words of `bits` bits with digits of at most `max_log` bits and at most
/// `max_count` digits; one in four covers the whole word exactly when that is possible.
pub fn rx(bits: u32, max_log: u32, max_count: u32) -> BoxedStrategy<Rx> {
    (1..=max_log.min(bits - 1), 0.0f64..1.0, 0u8..4)
        .prop_map(move |(log, c, exact)| {
            let top = (bits / log).min(max_count).max(1);
            let mut log = log;
            let mut count = 1 + (c * top as f64) as u32;
            if exact == 0 {
                // nearest divisor of the word
                let mut d = log.next_power_of_two();
                while d > max_log || d >= bits {
                    d /= 2;
                }
                if d > 0 && bits / d <= max_count {
                    log = d;
                    count = bits / d;
                }
            }
            Rx { log: log as u8, count: count.min(top.max(count)) as u8 }
        })
        .boxed()
}

/// 0 means no noise, otherwise a standard deviation of 2^-x.
pub fn std_of(x: u8) -> f64 {
    if x == 0 {
        0.0
    } else {
        2f64.powi(-(x as i32))
    }
}
pub fn std_log(wide: bool) -> BoxedStrategy<u8> {
    if wide {
        prop_oneof![2 => Just(0u8), 5 => 20u8..56].boxed()
    } else {
        prop_oneof![2 => Just(0u8), 5 => 12u8..29].boxed()
    }
}
/// Twelve standard deviations in units of 2^-bits (0 when noise is off).
pub fn noise12<S: Word>(std: f64) -> i128 {
    if std == 0.0 {
        0
    } else {
        (12.0 * std * 2f64.powi(S::bits() as i32)).ceil() as i128 + 1
    }
}

pub fn uraw<S: Word>(x: &[Torus<S>]) -> Vec<u64> {
    x.iter().map(|t| t.inner().u()).collect()
}
pub fn dirty<S: Word>(x: &mut [Torus<S>], seed: u64) {
    // every third case leaves the buffer as it is
    if seed % 3 == 0 {
        return;
    }
    let mut r = Sm(seed ^ 0xd1);
    for c in x.iter_mut() {
        *c = t::<S>(r.next());
    }
}

// ------------------------------------------------------------- secret keys

pub fn lwe_key<S: Word>(d: &LweDef, uniform: bool) -> LweSecretKey<S> {
    if uniform {
        LweSecretKey::generate_uniform(d)
    } else {
        LweSecretKey::generate_binary(d)
    }
}
pub fn glwe_key<S: Word>(d: &GlweDef, uniform: bool) -> GlweSecretKey<S> {
    if uniform {
        GlweSecretKey::generate_uniform(d)
    } else {
        GlweSecretKey::generate_binary(d)
    }
}
pub fn lwe_key_words<S: Word>(k: &LweSecretKeyRef<S>) -> Vec<u64> {
    raw!(*k, LweSecretKeyRef, S).iter().map(|x| x.u()).collect()
}
pub fn glwe_key_polys<S: Word>(k: &GlweSecretKeyRef<S>, d: &GlweDef) -> Vec<Vec<u64>> {
    let n = d.dim.polynomial_degree.0;
    raw!(*k, GlweSecretKeyRef, S).chunks(n).map(|c| c.iter().map(|x| x.u()).collect()).collect()
}
/// Largest absolute value of a sum of key coefficients times unit errors.
pub fn l1<S: Word>(s: &[u64]) -> i128 {
    s.iter().map(|x| S::signed(*x).abs()).sum()
}
pub fn l1s<S: Word>(s: &[Vec<u64>]) -> i128 {
    s.iter().map(|p| l1::<S>(p)).sum()
}

// ------------------------------------------------------------- independent decryption

pub fn lwe_phase<S: Word>(ct: &[u64], s: &[u64]) -> u64 {
    let n = s.len();
    assert_eq!(ct.len(), n + 1);
    let mut b = ct[n];
    for i in 0..n {
        b = b.wrapping_sub(ct[i].wrapping_mul(s[i]));
    }
    b & mask(S::bits())
}
pub fn lphase<S: Word>(ct: &LweCiphertextRef<S>, s: &[u64]) -> u64 {
    lwe_phase::<S>(&uraw(raw!(*ct, LweCiphertextRef, Torus<S>)), s)
}
/// b - sum a_i * s_i in the negacyclic ring, by schoolbook arithmetic on raw words.
pub fn glwe_phase<S: Word>(ct: &[u64], s: &[Vec<u64>]) -> Vec<u64> {
    let k = s.len();
    let n = s[0].len();
    assert_eq!(ct.len(), n * (k + 1));
    let mut b: Vec<u64> = ct[k * n..].to_vec();
    for i in 0..k {
        let a = &ct[i * n..(i + 1) * n];
        sub_mul(&mut b, &s[i], a);
    }
    for x in b.iter_mut() {
        *x &= mask(S::bits());
    }
    b
}
/// out -= s*a mod X^n+1 (wrapping at 64 bits; callers mask)
fn sub_mul(out: &mut [u64], s: &[u64], a: &[u64]) {
    let n = s.len();
    for (i, &si) in s.iter().enumerate() {
        if si == 0 {
            continue;
        }
        let (lo, hi) = out.split_at_mut(i);
        for (o, x) in hi.iter_mut().zip(&a[..n - i]) {
            *o = o.wrapping_sub(x.wrapping_mul(si));
        }
        for (o, x) in lo.iter_mut().zip(&a[n - i..]) {
            *o = o.wrapping_add(x.wrapping_mul(si));
        }
    }
}
pub fn gphase<S: Word>(ct: &GlweCiphertextRef<S>, s: &[Vec<u64>]) -> Vec<u64> {
    glwe_phase::<S>(&uraw(raw!(*ct, GlweCiphertextRef, Torus<S>)), s)
}

/// Split the raw words of a gadget object into its GLWE ciphertexts' phases.
pub fn phases<S: Word>(words: &[u64], s: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let sz = (s.len() + 1) * s[0].len();
    assert_eq!(words.len() % sz, 0);
    words.chunks(sz).map(|c| glwe_phase::<S>(c, s)).collect()
}

pub fn scale<S: Word>(p: &[u64], log: usize, level: usize) -> Vec<u64> {
    let f = S::bits() as usize - log * (level + 1);
    p.iter().map(|x| (x << f) & mask(S::bits())).collect()
}
pub fn neg<S: Word>(p: &[u64]) -> Vec<u64> {
    p.iter().map(|x| x.wrapping_neg() & mask(S::bits())).collect()
}
pub fn addp<S: Word>(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(a, b)| a.wrapping_add(*b) & mask(S::bits())).collect()
}
pub fn constant(n: usize, v: u64) -> Vec<u64> {
    let mut p = vec![0; n];
    p[0] = v;
    p
}

/// Expected phases, level by level then row by row, of a gadget-vector of `m`.
pub fn glev_messages<S: Word>(m: &[u64], r: &Rx) -> Vec<Vec<u64>> {
    (0..r.count()).map(|j| scale::<S>(m, r.log(), j)).collect()
}
/// Expected phases of a gadget-matrix of `m`: rows -m*s_i, then m.
pub fn ggsw_messages<S: Word>(m: &[u64], s: &[Vec<u64>], r: &Rx) -> Vec<Vec<u64>> {
    let mut out = vec![];
    for si in s {
        out.extend(glev_messages::<S>(&neg::<S>(&negacyclic_mul::<S>(m, si)), r));
    }
    out.extend(glev_messages::<S>(m, r));
    out
}

/// Largest |phase - expected| over all coefficients.
pub fn worst<S: Word>(got: &[u64], want: &[u64]) -> (i128, usize) {
    assert_eq!(got.len(), want.len());
    let mut w = (0, 0);
    for (i, (g, e)) in got.iter().zip(want).enumerate() {
        let d = tdist::<S>(*g, *e).abs();
        if d > w.0 {
            w = (d, i);
        }
    }
    w
}

/// Every phase within `bound` of what it should be.
pub fn near<S: Word>(got: &[u64], want: &[u64], bound: i128, sig: &str, ctx: &str) -> Res {
    let (d, i) = worst::<S>(got, want);
    ensure!(
        d <= bound,
        sig,
        "{} coefficient {} has phase {:#x}, expected {:#x}: error {} (2^{:.1}) exceeds {} (2^{:.1}); {}",
        S::NAME,
        i,
        got[i],
        want[i],
        d,
        (d as f64).log2(),
        bound,
        (bound.max(1) as f64).log2(),
        ctx
    );
    Ok(())
}
pub fn near_all<S: Word>(got: &[Vec<u64>], want: &[Vec<u64>], bound: i128, sig: &str, ctx: &str) -> Res {
    ensure_eq!(got.len(), want.len(), sig);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        near::<S>(g, w, bound, sig, &format!("entry {i}; {ctx}"))?;
    }
    Ok(())
}

// ------------------------------------------------------------- error bounds

/// Error of one Fourier product of two length-n polynomials with the given Euclidean norms
/// (the bound T03 establishes), rounded to the integer grid.
pub fn fft_err(n: usize, na: f64, nb: f64) -> f64 {
    24.0 * ((n as f64).log2() + 4.0) * 2f64.powi(-53) * na * nb + 1.0
}

/// Bound on |phase(out) - M*phase(in)| for an external product with a gadget-matrix whose
/// entries have error at most `noise`, for a message with 1-norm `m1`, key 1-norm `s1`.
pub fn ext_bound<S: Word>(n: usize, k: usize, r: &Rx, m1: i128, s1: i128, noise: i128, fourier: bool) -> i128 {
    let rows = (k + 1) * r.count();
    let round = r.round_unit::<S>().saturating_mul(s1 + 1).saturating_mul(m1);
    let digits = 1i128 << (r.log() - 1);
    let noise = rows as i128 * n as i128 * digits * noise;
    let fft = if fourier {
        let na = (n as f64).sqrt() * digits as f64;
        let nb = (n as f64).sqrt() * 2f64.powi(S::bits() as i32 - 1);
        // each output polynomial (k masks times key, and the body) carries this error
        ((rows as f64 * fft_err(n, na, nb)) * (1.0 + s1 as f64)).ceil() as i128
    } else {
        0
    };
    round.saturating_add(noise).saturating_add(fft)
}

/// Bound on the error a ring key switch adds.
pub fn ks_bound<S: Word>(n: usize, k: usize, r: &Rx, from_s1: i128, to_s1: i128, noise: i128, fourier: bool) -> i128 {
    let rows = k * r.count();
    let digits = 1i128 << (r.log() - 1);
    let fft = if fourier {
        let na = (n as f64).sqrt() * digits as f64;
        let nb = (n as f64).sqrt() * 2f64.powi(S::bits() as i32 - 1);
        ((rows as f64 * fft_err(n, na, nb)) * (1.0 + to_s1 as f64)).ceil() as i128
    } else {
        0
    };
    r.round_unit::<S>().saturating_mul(from_s1).saturating_add(rows as i128 * n as i128 * digits * noise).saturating_add(fft)
}

/// True when an error bound says something: below 1/16 of the torus.
pub fn meaningful<S: Word>(bound: i128) -> bool {
    bound < 1i128 << (S::bits() - 4)
}
