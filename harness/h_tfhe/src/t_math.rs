//! T01 torus, T02 radix, T03 polynomials, T04 kernels, T15 scratch.
use crate::common::*;
use aligned_vec::AVec;
use num::traits::{MulAdd, WrappingNeg};
use num::Complex;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{
    entities::*,
    polynomial::*,
    radix::*,
    scratch::allocate_scratch,
    simd::{self, verif_isa, VectorOps},
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

pub fn checks() -> Vec<Check> {
    vec![t01(), t02(), t03(), t04(), t15()]
}

/// Which kernels dispatch may use; every arithmetic check generates it.
pub fn level() -> BoxedStrategy<u8> {
    prop_oneof![3 => Just(2u8), 2 => Just(1u8), 2 => Just(0u8)].boxed()
}
pub struct Level;
impl Level {
    pub fn set(l: u8) -> Level {
        verif_isa::set_max_level(l);
        Level
    }
}
impl Drop for Level {
    fn drop(&mut self) {
        verif_isa::set_max_level(2)
    }
}

// ---------------------------------------------------------------- T01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCase {
    wide: bool,
    bits: u32,
    msg: u64,
    err: u64,
    neg: bool,
}

fn enc_case() -> BoxedStrategy<EncCase> {
    (any::<bool>(), 0.0f64..1.0, word(), word(), prop_oneof![3 => Just(0u32), 1 => 0u32..64], any::<bool>())
        .prop_map(|(wide, b, msg, err, shrink, neg)| {
            let w = if wide { 64 } else { 32 };
            let bits = 1 + (b * (w - 1) as f64) as u32;
            let half = w - bits - 1;
            EncCase { wide, bits, msg: msg & mask(bits), err: (err & mask(half)) >> shrink.min(half), neg }
        })
        .boxed()
}

fn enc_check<S: Word>(c: &EncCase, cov: &Cover) -> Res {
    let w = S::bits();
    let p = PlaintextBits(c.bits);
    let e = Torus::<S>::encode(S::of(c.msg), p);
    ensure_eq!(e.inner().u(), (c.msg << (w - c.bits)) & mask(w), "encode");
    let err = if c.neg { c.err.wrapping_neg() } else { c.err };
    let noisy = e + t::<S>(err);
    ensure_eq!(noisy.decode(p).u(), c.msg, "decode-perturbed", "width {} bits {} err {}", w, c.bits, err as i64);
    // The list forms do the same for each coefficient.
    let m = poly::<S>(&[c.msg, 0, c.msg]);
    let mut enc = Polynomial::<Torus<S>>::zero(3);
    sunscreen_tfhe::ops::polynomial::encode_polynomial(&mut enc, &m, p);
    ensure_eq!(utpoly(&enc), vec![e.inner().u(), 0, e.inner().u()], "encode-polynomial");
    let nz = tpoly::<S>(&[noisy.inner().u(), err, noisy.inner().u()]);
    let mut dec = Polynomial::<S>::zero(3);
    sunscreen_tfhe::ops::polynomial::decode_polynomial(&mut dec, &nz, p);
    ensure_eq!(upoly(&dec), vec![c.msg, 0, c.msg], "decode-polynomial");
    cov.label(format!("{}:{}", S::NAME, if c.bits >= 32 { "bits>=32" } else { "bits<32" }));
    cov.nontrivial_if(c.err != 0 && c.msg != 0);
    Ok(())
}

fn arith_check<S: Word>(a: u64, b: u64, s: u64, k: u32, cov: &Cover) -> Res {
    let w = S::bits();
    let m = mask(w);
    let (ta, tb) = (t::<S>(a), t::<S>(b));
    let (a, b, s) = (a & m, b & m, s & m);
    let ss = S::of(s);
    ensure_eq!((ta + tb).inner().u(), a.wrapping_add(b) & m, "add");
    ensure_eq!((&ta + &tb).inner().u(), a.wrapping_add(b) & m, "add-ref");
    ensure_eq!((ta - tb).inner().u(), a.wrapping_sub(b) & m, "sub");
    ensure_eq!((-ta).inner().u(), a.wrapping_neg() & m, "neg");
    ensure_eq!(WrappingNeg::wrapping_neg(&ta).inner().u(), a.wrapping_neg() & m, "wrapping-neg");
    ensure_eq!((ta * ss).inner().u(), a.wrapping_mul(s) & m, "mul");
    ensure_eq!(ta.mul_add(ss, tb).inner().u(), a.wrapping_mul(s).wrapping_add(b) & m, "mul-add");
    ensure_eq!((ta & tb).inner().u(), a & b, "and");
    let sh = (k % w) as usize;
    ensure_eq!((ta << sh).inner().u(), (a << sh) & m, "shl");
    ensure_eq!((ta >> sh).inner().u(), a >> sh, "shr");
    let mut x = ta;
    x += tb;
    x -= &ta;
    ensure_eq!(x.inner().u(), b, "add-sub-assign");
    ensure_eq!([ta, tb, ta].into_iter().sum::<Torus<S>>().inner().u(), a.wrapping_add(b).wrapping_add(a) & m, "sum");
    // distance
    let d = normalized_torus_distance(&ta, &tb);
    let exact = tdist::<S>(b, a);
    let want = exact as f64 / 2f64.powi(w as i32);
    let tie = exact == -(1i128 << (w - 1));
    ensure!((d - want).abs() < 1e-15 || (tie && (d.abs() - 0.5).abs() < 1e-15), "distance", "a={a:#x} b={b:#x} got {d} want {want}");
    ensure!((ta.normalized_torus_distance(&tb) - d).abs() < 1e-15, "distance-method");
    let n = ta.normalized_torus();
    ensure!((n - a as f64 / 2f64.powi(w as i32)).abs() < 1e-15, "normalized", "a={a:#x} got {n}");
    // integer-valued floats in range convert exactly to the same residue
    let sa = S::signed(a);
    if (sa as f64) as i128 == sa {
        ensure_eq!(S::from_f64(sa as f64).u(), a, "from-f64");
    }
    cov.nontrivial_if(a != 0 && b != 0);
    Ok(())
}

fn div_check(a: u64, b: u64, cov: &Cover) -> Res {
    // nearest integer; a tie may go either way
    fn near(a: i128, d: i128, q: i128) -> bool {
        (2 * (a - q * d)).abs() <= d.abs()
    }
    macro_rules! go {
        ($($t:ty),*) => {$({
            let (x, y) = (a as $t, b as $t);
            if y != 0 && !(y == (0 as $t).wrapping_sub(1) && <$t>::MIN != 0 && x == <$t>::MIN) {
                let q = x.div_rounded(y);
                ensure!(near(x as i128, y as i128, q as i128), concat!("div-rounded-", stringify!($t)), "{x} / {y} rounded to {q}");
            }
        })*};
    }
    go!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
    cov.nontrivial_if(b > 2 && a > b);
    Ok(())
}

fn t01() -> Check {
    Check {
        id: "T01",
        assumptions: vec!["wrapping release arithmetic, as the crate is built everywhere in the repository"],
        subs: vec![
            sub("encode_decode", 960_000, 6_000_000,
                "word size, plaintext width 1..BITS-1, message and error |e| < half a step, edge-biased; non-trivial: error and message both non-zero",
                enc_case(), |c: &EncCase, cov| if c.wide { enc_check::<u64>(c, cov) } else { enc_check::<u32>(c, cov) }),
            sub("arithmetic", 960_000, 6_000_000,
                "edge-biased words a, b and scalar s on both word sizes against integer arithmetic; non-trivial: both non-zero",
                (any::<bool>(), word(), word(), word(), 0u32..64), |c: &(bool, u64, u64, u64, u32), cov| {
                    if c.0 { arith_check::<u64>(c.1, c.2, c.3, c.4, cov) } else { arith_check::<u32>(c.1, c.2, c.3, c.4, cov) }
                }),
            sub("switch_modulus", 320_000, 1_000_000, "edge-biased 64-bit words to a 32-bit or 64-bit modulus; non-trivial: the dropped half is non-zero",
                word(), |x: &u64, cov| {
                    let y: Torus<u32> = t::<u64>(*x).switch_modulus_smaller::<u32>();
                    ensure_eq!(y.inner(), (*x >> 32) as u32, "switch-smaller");
                    let z: Torus<u64> = t::<u64>(*x).switch_modulus_smaller::<u64>();
                    ensure_eq!(z.inner(), *x, "switch-same");
                    cov.nontrivial_if(*x as u32 != 0);
                    Ok(())
                }),
            sub("div_rounded", 480_000, 3_000_000, "edge-biased dividend and divisor at every integer width, against the definition of nearest integer; non-trivial: dividend > divisor > 2",
                (word(), prop_oneof![word(), 1u64..300]), |c: &(u64, u64), cov| div_check(c.0, c.1, cov)),
        ],
    }
}

// ---------------------------------------------------------------- T02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RadixCase {
    wide: bool,
    level: u8,
    log: usize,
    count: usize,
    vals: Vec<u64>,
    dst: Vec<u64>,
}

fn radix_case() -> BoxedStrategy<RadixCase> {
    (any::<bool>(), 0.0f64..1.0, 0.0f64..1.0, level(), prop_oneof![6 => 1usize..20, 1 => 20usize..70])
        .prop_flat_map(|(wide, l, c, level, n)| {
            let w = if wide { 64usize } else { 32 };
            // small bases are the practical ones
            let log = 1 + ((l * l) * (w - 1) as f64) as usize;
            let maxc = w / log;
            let count = if c > 0.8 { maxc } else { 1 + (c / 0.8 * maxc as f64) as usize }.clamp(1, maxc);
            (Just((wide, level, log, count)), words(n), words(n))
        })
        .prop_map(|((wide, level, log, count), vals, dst)| RadixCase { wide, level, log, count, vals, dst })
        .boxed()
}

/// round(x * B^count / q) mod B^count, written from the definition over integers
fn round_ref<S: Word>(x: u64, total: u32) -> u64 {
    let w = S::bits();
    let x = (x & mask(w)) as u128;
    let sh = w - total;
    let r = if sh == 0 { x } else { (x + (1u128 << (sh - 1))) >> sh };
    (r & mask(total) as u128) as u64
}

fn radix_check<S: Word>(c: &RadixCase, cov: &Cover) -> Res {
    let _l = Level::set(c.level);
    let w = S::bits();
    let total = (c.log * c.count) as u32;
    let rd = RadixDecomposition { count: RadixCount(c.count), radix_log: RadixLog(c.log) };
    rd.assert_valid::<S>();
    let half = 1i128 << (c.log - 1);
    let verify = |x: u64, digits: &[u64], what: &str| -> Res {
        ensure_eq!(digits.len(), c.count, format!("{what}-digit-count"));
        let mut acc = 0u64;
        for (i, d) in digits.iter().enumerate() {
            let s = S::signed(*d);
            ensure!(s >= -half && s <= half, format!("{what}-digit-range"), "digit {s} base 2^{}", c.log);
            let level = c.count - i; // least significant first
            let f = 1u64.wrapping_shl(w - (level * c.log) as u32);
            acc = acc.wrapping_add(d.wrapping_mul(f));
        }
        let want = round_ref::<S>(x, total).wrapping_shl(w - total) & mask(w);
        ensure!(acc & mask(w) == want, format!("{what}-recompose"), "x={:#x} base 2^{} count {}: digits {:x?} recompose to {:#x}, want {:#x}", x & mask(w), c.log, c.count, digits, acc & mask(w), want);
        Ok(())
    };
    for x in &c.vals {
        let digits: Vec<u64> = ScalarRadixIterator::new(t::<S>(*x), &rd).take(c.count + 5).map(|d| d.u()).collect();
        verify(*x, &digits, "scalar")?;
    }
    let n = c.vals.len();
    let p = tpoly::<S>(&c.vals);
    let mut scratch = poly::<S>(&c.dst);
    let mut levels: Vec<Vec<u64>> = vec![];
    {
        let mut it = PolynomialRadixIterator::new(&p, &mut scratch, &rd);
        let mut out = poly::<S>(&c.dst);
        while it.write_next(&mut out).is_some() {
            levels.push(upoly(&out));
            if levels.len() > c.count + 4 {
                break;
            }
        }
        ensure!(it.write_next(&mut out).is_none(), "poly-extra-digit");
    }
    for i in 0..n {
        let d: Vec<u64> = levels.iter().map(|l| l[i]).collect();
        verify(c.vals[i], &d, "poly")?;
    }
    ensure_eq!(utpoly(&p), c.vals.iter().map(|x| x & mask(w)).collect::<Vec<_>>(), "poly-input-changed");
    // recompose_and_add: dst + rounded value
    let flat: Vec<S> = levels.iter().flatten().map(|x| S::of(*x)).collect();
    let mut list = PolynomialList::<S>::new(PolynomialDegree(n), c.count);
    raw_mut!(list, PolynomialListRef, S).copy_from_slice(&flat);
    let mut dst = tpoly::<S>(&c.dst);
    let mut it = list.iter(PolynomialDegree(n));
    recompose_and_add(&mut dst, &mut it, rd.radix_log, rd.count);
    for i in 0..n {
        let want = c.dst[i].wrapping_add(round_ref::<S>(c.vals[i], total).wrapping_shl(w - total)) & mask(w);
        ensure_eq!(dst.coeffs()[i].inner().u(), want, "recompose-and-add");
    }
    for j in 0..c.count {
        let f = scale_by_decomposition_factor(S::of(c.vals[0]), j, &rd).u();
        ensure_eq!(f, c.vals[0].wrapping_shl(w - (c.log * (j + 1)) as u32) & mask(w), "decomposition-factor");
    }
    cov.label(format!("{}:lvl{}", S::NAME, c.level));
    cov.label_if(total == w, "uses-whole-word");
    cov.nontrivial_if(c.vals.iter().any(|x| x & mask(w) != 0));
    cov.comparisons((n * c.count) as u64);
    Ok(())
}

fn t02() -> Check {
    Check {
        id: "T02",
        assumptions: vec!["radix_log < BITS (a base of 2^BITS is not representable in the word)"],
        subs: vec![sub("decompose", 480_000, 3_000_000,
            "word size, kernel level, base 2^1..2^(BITS-1), digit count with count*log <= BITS, 1..70 edge-biased coefficients; digits are judged by range, count and recomposition against integer rounding; non-trivial: some coefficient non-zero",
            radix_case(), |c: &RadixCase, cov| if c.wide { radix_check::<u64>(c, cov) } else { radix_check::<u32>(c, cov) })],
    }
}

// ---------------------------------------------------------------- T03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyCase {
    wide: bool,
    level: u8,
    log_n: u32,
    a: Fill,
    b: Fill,
    c: Fill,
    seed: u64,
    s: u64,
    k: i64,
}

fn poly_case(max_log: u32) -> BoxedStrategy<PolyCase> {
    (any::<bool>(), level(), prop_oneof![5 => 0u32..6, 2 => 6u32..=max_log], fill(), fill(), fill(), any::<u64>(), word(),
        prop_oneof![-40i64..40, -5000i64..5000, -10_000_000i64..10_000_000])
        .prop_map(|(wide, level, log_n, a, b, c, seed, s, k)| PolyCase { wide, level, log_n, a, b, c, seed, s, k })
        .boxed()
}

fn poly_check<S: Word>(c: &PolyCase, cov: &Cover) -> Res
where
    std::num::Wrapping<S>: std::ops::Sub<std::num::Wrapping<S>, Output = std::num::Wrapping<S>>
        + std::ops::Add<std::num::Wrapping<S>, Output = std::num::Wrapping<S>>
        + std::ops::Mul<std::num::Wrapping<S>, Output = std::num::Wrapping<S>>,
{
    let _l = Level::set(c.level);
    let n = 1usize << c.log_n;
    let m = mask(S::bits());
    let (a, b, d) = (expand(&c.a, n, c.seed), expand(&c.b, n, c.seed ^ 1), expand(&c.c, n, c.seed ^ 2));
    let zip = |f: &dyn Fn(u64, u64) -> u64| -> Vec<u64> { a.iter().zip(&b).map(|(x, y)| f(*x, *y) & m).collect() };
    let (ta, tb) = (tpoly::<S>(&a), tpoly::<S>(&b));
    let add = zip(&|x, y| x.wrapping_add(y));
    let subd = zip(&|x, y| x.wrapping_sub(y));
    let mut o = tpoly::<S>(&d);
    polynomial_add(&mut o, &ta, &tb);
    ensure_eq!(utpoly(&o), add, "add");
    let mut o = tpoly::<S>(&d);
    polynomial_sub(&mut o, &ta, &tb);
    ensure_eq!(utpoly(&o), subd, "sub");
    let mut o = ta.clone();
    polynomial_add_assign(&mut o, &tb);
    ensure_eq!(utpoly(&o), add, "add-assign");
    let mut o = ta.clone();
    polynomial_sub_assign(&mut o, &tb);
    ensure_eq!(utpoly(&o), subd, "sub-assign");
    let mut o = ta.clone();
    polynomial_negate(&mut o);
    ensure_eq!(utpoly(&o), a.iter().map(|x| x.wrapping_neg() & m).collect::<Vec<_>>(), "negate");
    ensure_eq!(utpoly(&(ta.as_ref() + tb.as_ref())), add, "add-op");
    ensure_eq!(utpoly(&(ta.as_ref() - tb.as_ref())), subd, "sub-op");
    let mut o = tpoly::<S>(&d);
    polynomial_scalar_mul(&mut o, &ta, S::of(c.s));
    ensure_eq!(utpoly(&o), a.iter().map(|x| x.wrapping_mul(c.s) & m).collect::<Vec<_>>(), "scalar-mul");
    let mad: Vec<u64> = a.iter().zip(&d).map(|(x, y)| x.wrapping_mul(c.s).wrapping_add(*y) & m).collect();
    let mut o = tpoly::<S>(&d);
    polynomial_scalar_mad(&mut o, &ta, S::of(c.s));
    ensure_eq!(utpoly(&o), mad, "scalar-mad");
    let mut o = tpoly::<S>(&d);
    polynomial_small_scalar_mad(&mut o, &ta, t::<S>(c.s));
    ensure_eq!(utpoly(&o), mad, "small-scalar-mad");
    let mut o = poly::<S>(&d);
    polynomial_small_scalar_mad(&mut o, &poly::<S>(&a), S::of(c.s));
    ensure_eq!(upoly(&o), mad, "small-scalar-mad-int");
    // products
    let pb = poly::<S>(&b);
    if n <= 512 || c.seed % 8 == 0 && n <= 4096 {
        let prod = negacyclic_mul::<S>(&a, &b);
        let prod_add: Vec<u64> = prod.iter().zip(&d).map(|(x, y)| x.wrapping_add(*y) & m).collect();
        let mut o = tpoly::<S>(&d);
        polynomial_external_mad(&mut o, &ta, &pb);
        ensure_eq!(utpoly(&o), prod_add, "external-mad");
        let mut o = poly::<S>(&d);
        polynomial_mad_by_wrap(&mut o, &poly::<S>(&a), &pb);
        ensure_eq!(upoly(&o), prod_add, "mad-by-wrap");
        let mut o = poly::<S>(&d);
        let (wa, wb) = (poly::<S>(&a), pb.clone());
        polynomial_mad(o.as_wrapping_mut(), wa.as_wrapping(), wb.as_wrapping());
        ensure_eq!(upoly(&o), prod_add, "mad");
        ensure_eq!(utpoly(&(ta.as_ref() * pb.as_ref())), prod, "mul-op");
    }
    // monomials
    let mut o = ta.clone();
    o.mul_by_monomial_negacyclic(c.k as isize);
    ensure_eq!(utpoly(&o), monomial_mul::<S>(&a, c.k), "monomial", "k={}", c.k);
    let ku = c.k.unsigned_abs();
    let mut o = ta.clone();
    o.mul_by_positive_monomial_negacyclic(ku as usize);
    ensure_eq!(utpoly(&o), monomial_mul::<S>(&a, ku as i64), "monomial-pos", "k={}", ku);
    let mut o = ta.clone();
    o.mul_by_negative_monomial_negacyclic(ku as usize);
    ensure_eq!(utpoly(&o), monomial_mul::<S>(&a, -(ku as i64)), "monomial-neg", "k={}", ku);
    // X -> X^k, an automorphism for odd k
    let ko = (ku | 1) as usize;
    let mut want = vec![0u64; n];
    for (i, x) in a.iter().enumerate() {
        let e = (i as u128 * ko as u128 % (2 * n) as u128) as usize;
        if e < n {
            want[e] = *x & m;
        } else {
            want[e - n] = x.wrapping_neg() & m;
        }
    }
    let mut o = tpoly::<S>(&d);
    sunscreen_tfhe::ops::polynomial::polynomial_pow_k::<_, S>(&mut o, &ta, ko);
    ensure_eq!(utpoly(&o), want, "pow-k", "k={}", ko);
    // rounding shift
    let sh = 1 + (c.seed % (S::bits() as u64 - 1)) as u32;
    let mut o = tpoly::<S>(&d);
    sunscreen_tfhe::ops::polynomial::polynomial_shr_round(&mut o, &ta, sh);
    let want: Vec<u64> = a.iter().map(|x| ((x & m) >> sh).wrapping_add((x >> (sh - 1)) & 1) & m).collect();
    ensure_eq!(utpoly(&o), want, "shr-round");
    ensure_eq!(utpoly(&ta), a.iter().map(|x| x & m).collect::<Vec<_>>(), "operand-changed");
    let mapped = ta.map(|x| S::of(x.inner().u().wrapping_add(1)));
    ensure_eq!(upoly(&mapped), a.iter().map(|x| x.wrapping_add(1) & m).collect::<Vec<_>>(), "map");
    cov.label(format!("{}:lvl{}", S::NAME, c.level));
    cov.label(format!("N={n}"));
    cov.nontrivial_if(a.iter().any(|x| *x != 0) && b.iter().any(|x| *x != 0));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FftCase {
    wide: bool,
    level: u8,
    log_n: u32,
    a: Fill,
    abits: u32,
    bbits: u32,
    b: Fill,
    c: Fill,
    seed: u64,
    terms: u8,
}

fn fft_case() -> BoxedStrategy<FftCase> {
    (any::<bool>(), level(), prop_oneof![4 => 1u32..7, 3 => 7u32..10, 1 => 10u32..13], fill(), 1u32..65, 1u32..21, fill(), fill(), any::<u64>(), 1u8..4)
        .prop_map(|(wide, level, log_n, a, abits, bbits, b, c, seed, terms)| FftCase {
            wide, level, log_n, a, abits, bbits, b, c, seed, terms,
        })
        .boxed()
}

/// sign-extend the low `bits` bits
fn clamp_bits(x: u64, bits: u32) -> u64 {
    let s = 64 - bits.min(64);
    (((x << s) as i64) >> s) as u64
}

fn fft_check<S: Word>(c: &FftCase, cov: &Cover) -> Res
where
    Torus<S>: ReinterpretAsSigned,
    S: ReinterpretAsSigned,
{
    let _l = Level::set(c.level);
    let n = 1usize << c.log_n;
    let w = S::bits();
    let abits = c.abits.min(w);
    let gen = |f: &Fill, s: u64, bits: u32| -> Vec<u64> { expand(f, n, s).into_iter().map(|x| clamp_bits(x, bits)).collect() };
    let a0 = gen(&c.a, c.seed, abits);
    let amax = a0.iter().map(|x| S::signed(*x).unsigned_abs()).max().unwrap() as f64;
    let norm = |v: &[u64]| -> f64 { v.iter().map(|x| (S::signed(*x) as f64).powi(2)).sum::<f64>().sqrt() };
    // round trip. The transform's error is relative to the 2-norm of the vector.
    let pa = tpoly::<S>(&a0);
    let mut f = PolynomialFft::new(&vec![Complex::new(7.5, -3.25); n / 2]);
    pa.fft(&mut f);
    let mut back = tpoly::<S>(&expand(&Fill::Random, n, c.seed ^ 77));
    f.ifft(&mut back);
    let eps = 2f64.powi(-53);
    let bound = norm(&a0) * eps * 24.0 * (c.log_n as f64 + 4.0);
    let bound = if bound < 0.25 { 0.0 } else { bound + 1.0 };
    for i in 0..n {
        let e = tdist::<S>(back.coeffs()[i].inner().u(), a0[i]).unsigned_abs() as f64;
        ensure!(e <= bound, "fft-roundtrip", "N={n} i={i} value {:#x} back {:#x} bound {bound}", a0[i], back.coeffs()[i].inner().u());
    }
    cov.label(if bound == 0.0 { "roundtrip-exact" } else { "roundtrip-rounded" });
    // sum of products in the Fourier domain; 16 coefficients is the least the kernel accepts
    if n >= 16 {
        let mut acc = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
        let start = gen(&c.c, c.seed ^ 5, abits);
        tpoly::<S>(&start).fft(&mut acc);
        let mut want: Vec<i128> = start.iter().map(|x| S::signed(*x)).collect();
        let mut err = norm(&start) * eps * 24.0 * (c.log_n as f64 + 4.0);
        for k in 0..c.terms as u64 {
            let (a, b) = (gen(&c.a, c.seed ^ (k + 10), abits), gen(&c.b, c.seed ^ (k + 20), c.bbits));
            let (mut fa, mut fb) = (f.clone(), f.clone());
            tpoly::<S>(&a).fft(&mut fa);
            poly::<S>(&b).fft(&mut fb);
            acc.multiply_add(&fa, &fb);
            // integer product, not reduced: only its residue matters
            let prod = negacyclic_mul::<u64>(&a.iter().map(|x| S::signed(*x) as u64).collect::<Vec<_>>(), &b.iter().map(|x| S::signed(*x) as u64).collect::<Vec<_>>());
            for i in 0..n {
                want[i] = want[i].wrapping_add(prod[i] as i64 as i128);
            }
            err += norm(&a) * norm(&b) * eps * 24.0 * (c.log_n as f64 + 4.0);
        }
        let bound = if err < 0.25 { 0.0 } else { err + 1.0 };
        let mut out = tpoly::<S>(&expand(&Fill::Random, n, c.seed ^ 78));
        acc.ifft(&mut out);
        if bound < 2f64.powi(w as i32 - 2) {
            for i in 0..n {
                let e = tdist::<S>(out.coeffs()[i].inner().u(), want[i] as u64).unsigned_abs() as f64;
                ensure!(e <= bound, "fft-product", "N={n} i={i} got {:#x} want {:#x} bound {bound}", out.coeffs()[i].inner().u(), (want[i] as u64) & mask(w));
            }
            cov.label(if bound == 0.0 { "product-exact" } else { "product-rounded" });
        } else {
            cov.label("product-beyond-precision");
        }
    }
    cov.label(format!("{}:lvl{}", S::NAME, c.level));
    cov.nontrivial_if(amax > 0.0);
    Ok(())
}

fn t03() -> Check {
    Check {
        id: "T03",
        assumptions: vec![
            "Fourier error bound 24*(log2 N + 4)*2^-53*||a||*||b||, exact when that is below 1/4",
            "index-power substitution only for odd exponents (it is not defined on the quotient ring for even ones)",
        ],
        subs: vec![
            sub("ring_ops", 96_000, 500_000, "word size, kernel level, degree 1..512 (products) with zero/max/min/random/monomial/small/edge operands; non-trivial: both operands non-zero",
                poly_case(9), |c: &PolyCase, cov| if c.wide { poly_check::<u64>(c, cov) } else { poly_check::<u32>(c, cov) }),
            sub("ring_ops_large", 2_400, 20_000, "as ring_ops with degrees up to 4096 (no products); non-trivial: both operands non-zero",
                (10u32..13, poly_case(9)).prop_map(|(l, mut c)| { c.log_n = l; c }), |c: &PolyCase, cov| if c.wide { poly_check::<u64>(c, cov) } else { poly_check::<u32>(c, cov) }),
            sub("fourier", 24_000, 150_000, "degree 2..4096, operand widths 1..64 and 1..20 bits, kernel level, 1-3 accumulated products against integer schoolbook; non-trivial: operand non-zero",
                fft_case(), |c: &FftCase, cov| if c.wide { fft_check::<u64>(c, cov) } else { fft_check::<u32>(c, cov) }),
        ],
    }
}

// ---------------------------------------------------------------- T04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KernCase {
    wide: bool,
    a: Vec<u64>,
    b: Vec<u64>,
    c: Vec<u64>,
    s: u64,
    k: u32,
    /// offset in words from a 64-byte boundary
    off: usize,
}

fn kern_case() -> BoxedStrategy<KernCase> {
    prop_oneof![4 => 0usize..40, 2 => prop::sample::select(vec![8usize, 16, 24, 32, 48, 64]), 1 => 40usize..200]
        .prop_flat_map(|n| (any::<bool>(), words(n), words(n), words(n), word(), any::<u32>(), prop_oneof![2 => Just(0usize), 1 => 0usize..8]))
        .prop_map(|(wide, a, b, c, s, k, off)| KernCase { wide, a, b, c, s, k, off })
        .boxed()
}

const GUARD: usize = 40;
const SENT: u64 = 0xA5A5_5A5A_C3C3_3C3C;

/// A slice with sentinels on both sides, at a chosen offset from a 64-byte boundary.
struct Guarded<T> {
    v: AVec<T>,
    at: usize,
    n: usize,
    sent: T,
}
impl<T: Copy + PartialEq> Guarded<T> {
    fn new(x: &[T], off: usize, sent: T) -> Self {
        let at = 64 + off;
        let mut v = AVec::with_capacity(64, at + x.len() + GUARD);
        for _ in 0..at {
            v.push(sent);
        }
        for y in x {
            v.push(*y);
        }
        for _ in 0..GUARD {
            v.push(sent);
        }
        Self { v, at, n: x.len(), sent }
    }
    fn s(&self) -> &[T] {
        &self.v[self.at..self.at + self.n]
    }
    fn m(&mut self) -> &mut [T] {
        &mut self.v[self.at..self.at + self.n]
    }
    fn intact(&self) -> bool {
        self.v[..self.at].iter().all(|x| *x == self.sent) && self.v[self.at + self.n..].iter().all(|x| *x == self.sent)
    }
}

fn kern_check<S: Word>(c: &KernCase, cov: &Cover) -> Res {
    let n = c.a.len();
    let m = mask(S::bits());
    let conv = |v: &[u64]| -> Vec<S> { v.iter().map(|x| S::of(*x)).collect() };
    let (a, b, d) = (conv(&c.a), conv(&c.b), conv(&c.c));
    let s = S::of(c.s);
    let log = 1 + (c.k % (S::bits() - 1)) as usize;
    let sh = 1 + (c.k / 64) % (S::bits() - 1);
    let sent = S::of(SENT);
    for lvl in 0..3u8 {
        let _l = Level::set(lvl);
        let g = |x: &[S]| Guarded::new(x, c.off, sent);
        let (ga, gb) = (g(&a), g(&b));
        macro_rules! expect {
            ($name:literal, $out:expr, $f:expr) => {{
                let f = $f;
                for i in 0..n {
                    let want: u64 = f(i) & m;
                    ensure!($out.s()[i].u() == want, concat!("kernel-", $name), "lvl {lvl} {} n={n} off={} i={i}: got {:#x} want {:#x}", S::NAME, c.off, $out.s()[i].u(), want);
                }
                ensure!($out.intact() && ga.intact() && gb.intact(), concat!("outside-", $name), "lvl {lvl} n={n} off={}", c.off);
                ensure!(ga.s() == &a[..] && gb.s() == &b[..], concat!("operand-", $name));
            }};
        }
        let mut o = g(&d);
        S::vector_add(o.m(), ga.s(), gb.s());
        expect!("add", o, |i: usize| c.a[i].wrapping_add(c.b[i]));
        let mut o = g(&d);
        S::vector_sub(o.m(), ga.s(), gb.s());
        expect!("sub", o, |i: usize| c.a[i].wrapping_sub(c.b[i]));
        let mut o = g(&d);
        S::vector_scalar_mad(o.m(), ga.s(), s);
        expect!("scalar-mad", o, |i: usize| c.c[i].wrapping_add(c.a[i].wrapping_mul(c.s)));
        let mut o = g(&d);
        S::vector_shr_round(o.m(), ga.s(), sh);
        expect!("shr-round", o, |i: usize| ((c.a[i] & m) >> sh).wrapping_add((c.a[i] >> (sh - 1)) & 1));
        // digit extraction: state -> (digit, next state), from the definition
        let step = |x: u64| -> (u64, u64) {
            let x = x & m;
            let digit = x & mask(log as u32);
            let carry = digit >> (log - 1);
            (digit.wrapping_sub(carry << log) & m, (x >> log).wrapping_add(carry) & m)
        };
        let mut st = g(&a);
        let mut o = g(&d);
        S::vector_next_decomp(st.m(), o.m(), log);
        expect!("next-decomp", o, |i: usize| step(c.a[i]).0);
        expect!("next-decomp-state", st, |i: usize| step(c.a[i]).1);
        // torus forms forward to the word's kernels
        let tv = |v: &[u64]| -> Vec<Torus<S>> { v.iter().map(|x| t::<S>(*x)).collect() };
        let (ta, tb) = (tv(&c.a), tv(&c.b));
        let mut o = tv(&c.c);
        Torus::<S>::vector_sub(&mut o, &ta, &tb);
        ensure!((0..n).all(|i| o[i].inner().u() == c.a[i].wrapping_sub(c.b[i]) & m), "kernel-torus-sub");
        let mut o = tv(&c.c);
        Torus::<S>::vector_add(&mut o, &ta, &tb);
        ensure!((0..n).all(|i| o[i].inner().u() == c.a[i].wrapping_add(c.b[i]) & m), "kernel-torus-add");
    }
    cov.label(S::NAME);
    cov.label_if(n % 16 != 0, "length-not-multiple-of-16");
    cov.label_if(c.off != 0, "unaligned");
    cov.comparisons(6 * 3 * n as u64);
    cov.nontrivial_if(n > 0 && c.a.iter().any(|x| *x != 0));
    Ok(())
}

/// A finite double: sign, 53-bit mantissa and exponent chosen so all magnitudes up to 2^130 occur.
fn float() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (any::<bool>(), word(), -10i32..80).prop_map(|(s, m, e)| {
            let v = (m >> 11) as f64 * 2f64.powi(e);
            if s { -v } else { v }
        }),
        2 => (0i32..130, -2i32..3, any::<bool>()).prop_map(|(e, d, s)| { let v = 2f64.powi(e) + d as f64; if s { -v } else { v } }),
        1 => (word(), 0u32..64).prop_map(|(x, k)| ((x as i64) >> k) as f64),
        1 => (0u64..8, 0u32..66).prop_map(|(x, k)| (x as f64 - 4.0) * 2f64.powi(k as i32) / 2.0),
    ]
    .boxed()
}

fn rem_pow2(x: f64, w: u32) -> u64 {
    // exact residue of an integer-valued double
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32 - 1075;
    let man = if (bits >> 52) & 0x7ff == 0 { (bits & mask(52)) << 1 } else { (bits & mask(52)) | (1 << 52) };
    let v = if e >= 64 { 0 } else if e >= 0 { man.wrapping_shl(e as u32) } else if e > -64 { man >> (-e) } else { 0 };
    (if x < 0.0 { v.wrapping_neg() } else { v }) & mask(w)
}

fn modf_check<S: Word>(x: &[f64], off: usize, cov: &Cover) -> Res {
    let w = S::bits();
    for lvl in 0..3u8 {
        let _l = Level::set(lvl);
        let ga = Guarded::new(x, off, -1.5f64);
        let mut o = Guarded::new(&vec![S::of(7); x.len()], off, S::of(SENT));
        S::vector_mod_pow2_q_f64(o.m(), ga.s(), w as u64);
        for (i, v) in x.iter().enumerate() {
            let got = o.s()[i].u();
            if v.fract() == 0.0 {
                let want = rem_pow2(*v, w);
                ensure!(got == want, "kernel-mod-q", "lvl {lvl} {} value {v:e}: got {got:#x} want {want:#x}", S::NAME);
            } else {
                let (f, c) = (rem_pow2(v.floor(), w), rem_pow2(v.ceil(), w));
                ensure!(got == f || got == c, "kernel-mod-q-fraction", "lvl {lvl} {} value {v:e}: got {got:#x}", S::NAME);
            }
        }
        ensure!(o.intact(), "outside-mod-q");
    }
    cov.nontrivial_if(x.iter().any(|v| v.abs() >= 2f64.powi(w as i32 - 1)));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CplxCase {
    blocks: usize,
    exact: bool,
    seed: u64,
    off: usize,
}

fn cplx_check(c: &CplxCase, cov: &Cover) -> Res {
    let n = c.blocks * 8;
    let mut r = Sm(c.seed);
    let gen = |r: &mut Sm| -> Vec<Complex<f64>> {
        (0..n)
            .map(|_| {
                let mut one = || {
                    if c.exact {
                        (r.below(1 << 21) as i64 - (1 << 20)) as f64
                    } else {
                        let e = r.below(60) as i32 - 20;
                        (r.next() as i64 as f64) * 2f64.powi(e)
                    }
                };
                Complex::new(one(), one())
            })
            .collect()
    };
    let (a, b, d) = (gen(&mut r), gen(&mut r), gen(&mut r));
    let s = Complex::new(1.5, -2.5);
    for lvl in 0..3u8 {
        let _l = Level::set(lvl);
        let (ga, gb, mut o) = (Guarded::new(&a, 0, s), Guarded::new(&b, 0, s), Guarded::new(&d, 0, s));
        simd::complex_mad(o.m(), ga.s(), gb.s());
        for i in 0..n {
            let want = d[i] + a[i] * b[i];
            let tol = if c.exact { 0.0 } else { 8.0 * f64::EPSILON * (d[i].norm() + a[i].norm() * b[i].norm()) };
            ensure!((o.s()[i].re - want.re).abs() <= tol && (o.s()[i].im - want.im).abs() <= tol, "kernel-complex-mad", "lvl {lvl} i={i} got {} want {want}", o.s()[i]);
        }
        ensure!(o.intact() && ga.intact() && gb.intact(), "outside-complex-mad");
        ensure!(ga.s() == &a[..] && gb.s() == &b[..], "operand-complex-mad");
        // twist / untwist on any length
        let k = n.saturating_sub(c.off % 8);
        let re: Vec<f64> = a[..k].iter().map(|x| x.re).collect();
        let im: Vec<f64> = a[..k].iter().map(|x| x.im).collect();
        let mut o = Guarded::new(&d[..k], c.off, s);
        simd::complex_twist(o.m(), &re, &im, &b[..k]);
        for i in 0..k {
            let want = a[i] * b[i];
            let tol = if c.exact { 0.0 } else { 8.0 * f64::EPSILON * a[i].norm() * b[i].norm() };
            ensure!((o.s()[i] - want).norm() <= tol * 2.0, "kernel-twist", "lvl {lvl} i={i}");
        }
        ensure!(o.intact(), "outside-twist");
        if k > 0 {
            let tw: Vec<Complex<f64>> = b[..k].iter().map(|x| x / (x.norm() + 1.0)).collect();
            let mut o = Guarded::new(&vec![0.5f64; 2 * k], c.off, 9.25);
            simd::complex_untwist(o.m(), &a[..k], &tw);
            for i in 0..k {
                let want = a[i] * tw[i] / k as f64;
                let tol = 16.0 * f64::EPSILON * a[i].norm() + 1e-9;
                for (got, w) in [(o.s()[i], want.re), (o.s()[i + k], want.im)] {
                    ensure!(got.fract() == 0.0 && (got - w).abs() <= 0.5 + tol, "kernel-untwist", "lvl {lvl} i={i} got {got} want round({w})");
                }
            }
            ensure!(o.intact(), "outside-untwist");
        }
    }
    cov.label(if c.exact { "exact" } else { "rounded" });
    cov.nontrivial_if(n > 0);
    Ok(())
}

fn t04() -> Check {
    Check {
        id: "T04",
        assumptions: vec!["complex_mad is called with 64-byte aligned slices whose length is a multiple of 8, as documented", "rounding shift by at least one bit", "kernels the CPU lacks are not exercised"],
        subs: vec![
            sub("integer_kernels", 160_000, 1_000_000, "lengths 0..200, alignments 0..7 words off a 64-byte boundary, both word sizes, each of the scalar, AVX2 and AVX-512 dispatch levels against integer definitions, with sentinels around every slice; non-trivial: non-zero data",
                kern_case(), |c: &KernCase, cov| if c.wide { kern_check::<u64>(c, cov) } else { kern_check::<u32>(c, cov) }),
            sub("float_mod", 160_000, 1_000_000, "doubles up to 2^130 of both signs incl. exact powers of two and half-integers, reduced modulo 2^32 / 2^64, each dispatch level; non-trivial: some value needs reduction",
                (any::<bool>(), prop::collection::vec(float(), 0..40), 0usize..8), |c: &(bool, Vec<f64>, usize), cov| if c.0 { modf_check::<u64>(&c.1, c.2, cov) } else { modf_check::<u32>(&c.1, c.2, cov) }),
            sub("complex_kernels", 80_000, 500_000, "complex vectors of 0..20 blocks, exactly representable or arbitrary magnitudes, each dispatch level against the textbook definition; non-trivial: non-empty",
                (0usize..20, any::<bool>(), any::<u64>(), 0usize..8).prop_map(|(blocks, exact, seed, off)| CplxCase { blocks, exact, seed, off }), cplx_check),
        ],
    }
}

// ---------------------------------------------------------------- T15

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ScrOp {
    Alloc { ty: u8, count: usize },
    Free(u16),
    Rewrite(u16, u64),
    Check(u16),
    /// library code that takes scratch itself
    Fft(u8, u64),
}

fn scr_ops() -> BoxedStrategy<Vec<ScrOp>> {
    let op = prop_oneof![
        5 => (0u8..9, prop_oneof![4 => 0usize..40, 2 => 0usize..3000, 1 => 3000usize..40_000]).prop_map(|(ty, count)| ScrOp::Alloc { ty, count }),
        4 => any::<u16>().prop_map(ScrOp::Free),
        1 => (any::<u16>(), any::<u64>()).prop_map(|(i, v)| ScrOp::Rewrite(i, v)),
        1 => any::<u16>().prop_map(ScrOp::Check),
        1 => (1u8..9, any::<u64>()).prop_map(|(l, s)| ScrOp::Fft(l, s)),
    ];
    prop::collection::vec(op, 1..80).boxed()
}

trait Buf {
    fn range(&self) -> (usize, usize);
    fn len(&self) -> usize;
    fn align_ok(&self) -> bool;
    fn fill(&mut self, v: u64);
    fn holds(&self, v: u64) -> bool;
}
struct Held<T: 'static> {
    b: scratch::ScratchBuffer<'static, T>,
    mk: fn(u64) -> T,
    count: usize,
}
impl<T: Copy + PartialEq + 'static> Buf for Held<T> {
    fn range(&self) -> (usize, usize) {
        let s = self.b.as_slice();
        (s.as_ptr() as usize, s.as_ptr() as usize + std::mem::size_of_val(s))
    }
    fn len(&self) -> usize {
        self.b.as_slice().len()
    }
    fn align_ok(&self) -> bool {
        let p = self.b.as_slice().as_ptr() as usize;
        p % std::mem::align_of::<T>() == 0 && p % scratch::SIMD_ALIGN == 0
    }
    fn fill(&mut self, v: u64) {
        let n = self.count;
        let s = self.b.as_mut_slice();
        assert_eq!(s.len(), n);
        let mut r = Sm(v);
        for x in s {
            *x = (self.mk)(r.next());
        }
    }
    fn holds(&self, v: u64) -> bool {
        let mut r = Sm(v);
        self.b.as_slice().iter().all(|x| *x == (self.mk)(r.next()))
    }
}

fn scr_alloc(ty: u8, count: usize) -> Box<dyn Buf> {
    macro_rules! h {
        ($t:ty, $f:expr) => {
            Box::new(Held::<$t> { b: allocate_scratch::<$t>(count), mk: $f, count })
        };
    }
    match ty {
        0 => h!(u8, |x| x as u8),
        1 => h!(u16, |x| x as u16),
        2 => h!(u32, |x| x as u32),
        3 => h!(u64, |x| x),
        4 => h!(u128, |x| (x as u128) << 64 | !x as u128),
        5 => h!(f64, |x| x as f64),
        6 => h!(Complex<f64>, |x| Complex::new(x as f64, (x >> 7) as f64)),
        7 => h!(Torus<u64>, |x| Torus::from(x)),
        _ => h!(i32, |x| x as i32),
    }
}

fn scr_run(ops: &[ScrOp], cov: Option<&Cover>) -> Res {
    // (buffer, size asked, pattern seed)
    let mut live: Vec<(Box<dyn Buf>, usize, u64)> = vec![];
    let mut tag = 1u64;
    let (mut out_of_order, mut max_live) = (false, 0);
    for op in ops {
        match op {
            ScrOp::Alloc { ty, count } => {
                let mut b = scr_alloc(*ty, *count);
                ensure_eq!(b.len(), *count, "scratch-length");
                ensure!(b.align_ok(), "scratch-align", "type {ty} count {count}");
                let (s, e) = b.range();
                for (o, _, _) in &live {
                    let (s2, e2) = o.range();
                    ensure!(s == e || s2 == e2 || e <= s2 || e2 <= s, "scratch-overlap", "new {s:#x}..{e:#x} over {s2:#x}..{e2:#x}");
                }
                tag += 1;
                b.fill(tag);
                live.push((b, *count, tag));
            }
            ScrOp::Free(i) if !live.is_empty() => {
                let k = *i as usize % live.len();
                out_of_order |= k + 1 != live.len();
                let (b, n, tg) = live.remove(k);
                ensure_eq!(b.len(), n, "scratch-length-later");
                ensure!(b.holds(tg), "scratch-contents", "contents changed while live");
            }
            ScrOp::Rewrite(i, v) if !live.is_empty() => {
                let k = *i as usize % live.len();
                live[k].0.fill(*v);
                live[k].2 = *v;
            }
            ScrOp::Check(i) if !live.is_empty() => {
                let k = *i as usize % live.len();
                ensure!(live[k].0.holds(live[k].2), "scratch-contents", "contents changed while live");
            }
            ScrOp::Fft(l, s) => {
                let n = 1usize << *l;
                let a: Vec<u64> = expand(&Fill::Small(20), n, *s);
                let mut f = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
                let mut out = tpoly::<u64>(&vec![0; n]);
                let p = tpoly::<u64>(&a);
                p.fft(&mut f);
                f.ifft(&mut out);
                ensure_eq!(utpoly(&out), a, "scratch-fft-among-buffers");
            }
            _ => {}
        }
        max_live = max_live.max(live.len());
    }
    for (b, n, tg) in &live {
        ensure_eq!(b.len(), *n, "scratch-length-later");
        ensure!(b.holds(*tg), "scratch-contents", "contents changed while live");
    }
    if let Some(c) = cov {
        c.label_if(out_of_order, "out-of-order-release");
        c.nontrivial_if(max_live >= 2);
    }
    Ok(())
}

fn t15() -> Check {
    Check {
        id: "T15",
        assumptions: vec!["a buffer stays on the thread that allocated it (it is not Send)"],
        subs: vec![
            sub("history", 96_000, 600_000, "1..80 allocations (9 element types, 0..40000 items), releases in any order, rewrites, re-reads and library FFT calls in between, on a thread whose pool already has history, against a model of each buffer's contents; non-trivial: two buffers live at once",
                scr_ops(), |ops: &Vec<ScrOp>, cov| scr_run(ops, Some(cov))),
            sub("fresh_threads", 12_000, 60_000, "2..4 fresh threads run independent histories at the same time; non-trivial: always",
                prop::collection::vec(scr_ops(), 2..5), |hs: &Vec<Vec<ScrOp>>, cov| {
                    cov.nontrivial();
                    let rs: Vec<Res> = std::thread::scope(|s| {
                        let js: Vec<_> = hs.iter().map(|h| s.spawn(move || catch(|| scr_run(h, None)).unwrap_or_else(|e| fail("scratch-thread-panic", e)))).collect();
                        js.into_iter().map(|j| j.join().unwrap()).collect()
                    });
                    rs.into_iter().collect::<Res>()
                }),
        ],
    }
}
