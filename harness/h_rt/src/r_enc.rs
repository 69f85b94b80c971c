//! R04: encryption routes and ciphertext conversions.
use crate::common::*;
use crate::r_prog::T;
use parasol_concurrency::AtomicRefCell;
use parasol_runtime::{fluent::*, safe_bincode::GetSize, *};
use serde::{Deserialize, Serialize};
use std::result::Result;
use std::sync::Arc;
use sunscreen_tfhe::Torus;
use sunscreen_tfhe::entities::{Polynomial, PolynomialRef};
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
enum Route {
    Secret,
    Public,
    Trivial,
}

/// A binary polynomial.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum P {
    Zero,
    Ones,
    One(u16),
    Random(u64),
}
impl P {
    fn coeffs(&self, n: usize) -> Vec<bool> {
        match self {
            P::Zero => vec![false; n],
            P::Ones => vec![true; n],
            P::One(i) => (0..n).map(|j| j == *i as usize * n / 65536).collect(),
            P::Random(s) => {
                let mut x = *s;
                (0..n)
                    .map(|_| {
                        x = x.wrapping_add(0x9e3779b97f4a7c15);
                        let z = (x ^ x >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
                        ((z ^ z >> 27).wrapping_mul(0x94d049bb133111eb) >> 40) & 1 == 1
                    })
                    .collect()
            }
        }
    }
}
fn poly(b: &[bool]) -> Polynomial<u64> {
    Polynomial::new(&b.iter().map(|x| *x as u64).collect::<Vec<_>>())
}
fn any_p() -> BoxedStrategy<P> {
    prop_oneof![1 => Just(P::Zero), 1 => Just(P::Ones), 2 => any::<u16>().prop_map(P::One), 6 => any::<u64>().prop_map(P::Random)].boxed()
}
fn words(p: &PolynomialRef<u64>) -> Vec<u64> {
    p.coeffs().to_vec()
}
fn same(got: &PolynomialRef<u64>, want: &[bool], sig: &str, what: &str) -> Res {
    let got = words(got);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if *g != *w as u64 {
            return fail(sig, format!("{what}: coefficient {i} of {} is {g}, not {}", want.len(), *w as u64));
        }
    }
    ensure!(got.len() == want.len(), sig, "{what}: {} coefficients", got.len());
    Ok(())
}
fn has_pk(c: &Ctx) -> bool {
    c.pk.is_some()
}

fn glwe_of(c: &Ctx, p: &[bool], r: Route) -> L1GlweCiphertext {
    match r {
        Route::Secret => c.enc.encrypt_glwe_l1_secret(&poly(p), &c.sk),
        Route::Public if has_pk(c) => c.enc.encrypt_rlwe_l1(&poly(p), c.pk()),
        Route::Public => <L1GlweCiphertext as PolynomialCiphertextOps>::encrypt_secret(&poly(p), &c.enc, &c.sk),
        Route::Trivial => c.enc.trivial_glwe_l1(&poly(p)),
    }
}
fn glev_of(c: &Ctx, p: &[bool], r: Route) -> L1GlevCiphertext {
    match r {
        Route::Secret => c.enc.encrypt_glev_l1_secret(&poly(p), &c.sk),
        Route::Public if has_pk(c) => c.enc.encrypt_rlev_l1(&poly(p), c.pk()),
        Route::Public => c.enc.encrypt_glev_l1_secret(&poly(p), &c.sk),
        Route::Trivial => sunscreen_tfhe::high_level::encryption::trivial_binary_glev(&poly(p), &c.params.l1_params, &c.params.cbs_radix).into(),
    }
}
fn at0(c: &Ctx, v: bool) -> Vec<bool> {
    let mut p = vec![false; c.params.l1_poly_degree().0];
    p[0] = v;
    p
}

// ---- bits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BitCase {
    ctx: usize,
    t: T,
    route: Route,
    v: bool,
    hops: Vec<Hop>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hop {
    /// which of the conversions of the kind at hand
    pick: u8,
    n: u16,
    p: P,
    q: P,
    r: [Route; 2],
}

enum Ct {
    L0(L0LweCiphertext),
    L1(L1LweCiphertext),
    Glwe(L1GlweCiphertext),
    Ggsw(L1GgswCiphertext),
    Glev(L1GlevCiphertext),
}
impl Ct {
    fn t(&self) -> T {
        match self {
            Ct::L0(_) => T::L0,
            Ct::L1(_) => T::L1,
            Ct::Glwe(_) => T::Glwe,
            Ct::Ggsw(_) => T::Ggsw,
            Ct::Glev(_) => T::Glev,
        }
    }
}

fn enc_bit<C: CiphertextOps>(c: &Ctx, v: bool, r: Route) -> C {
    match r {
        Route::Trivial => C::trivial_encryption(v, &c.enc, &c.eval),
        _ => C::encrypt_secret(v, &c.enc, &c.sk),
    }
}
/// through the crate's own bit type, and directly
fn dec_bit<C: CiphertextOps>(c: &Ctx, x: &C) -> (bool, bool) {
    (x.decrypt(&c.enc, &c.sk), Bit::from(Arc::new(AtomicRefCell::new(x.clone()))).decrypt(&c.enc, &c.sk))
}
fn check_bit(c: &Ctx, x: &Ct, v: bool, what: &str) -> Res {
    let (a, b) = match x {
        Ct::L0(x) => dec_bit(c, x),
        Ct::L1(x) => dec_bit(c, x),
        Ct::Glwe(x) => dec_bit(c, x),
        Ct::Ggsw(x) => dec_bit(c, x),
        Ct::Glev(x) => dec_bit(c, x),
    };
    ensure!(a == v && b == v, "bit", "{what}: {:?} of {v} decrypts to {a} / {b}", x.t());
    // away from the threshold too
    if c.params.l1_params.dim.polynomial_degree.0 <= 128 {
        for d in [1u64 << 60, (1u64 << 60).wrapping_neg()] {
            let far = match x {
                Ct::L0(x) => {
                    let mut y = x.clone();
                    *y.0.a_b_mut(&c.params.l0_params).1 += Torus::from(d);
                    dec_bit(c, &y).0
                }
                Ct::L1(x) => {
                    let mut y = x.clone();
                    *y.0.a_b_mut(&c.params.l1_params.as_lwe_def()).1 += Torus::from(d);
                    dec_bit(c, &y).0
                }
                Ct::Glwe(x) => {
                    let mut y = x.clone();
                    y.0.a_b_mut(&c.params.l1_params).1.coeffs_mut()[0] += Torus::from(d);
                    dec_bit(c, &y).0
                }
                _ => v,
            };
            ensure!(far == v, "noise", "{what}: {:?} of {v} is within 1/16 of the decision threshold", x.t());
        }
    }
    let sized = match x {
        Ct::L0(x) => x.check_is_valid(&c.params),
        Ct::L1(x) => x.check_is_valid(&c.params),
        Ct::Glwe(x) => x.check_is_valid(&c.params),
        Ct::Ggsw(_) => Ok(()),
        Ct::Glev(x) => x.check_is_valid(&c.params),
    };
    ensure!(sized.is_ok(), "shape", "{what}: {:?} is not of the parameters' shape", x.t());
    Ok(())
}

fn bits(case: &BitCase, cov: &Cover) -> Res {
    let c = ctx(case.ctx);
    let n = c.params.l1_poly_degree().0;
    let (mut v, r) = (case.v, case.route);
    let mut x = match case.t {
        T::L0 => Ct::L0(enc_bit(c, v, r)),
        T::L1 => Ct::L1(enc_bit(c, v, r)),
        T::Ggsw => Ct::Ggsw(enc_bit(c, v, r)),
        T::Glwe if r == Route::Public => Ct::Glwe(glwe_of(c, &at0(c, v), r)),
        T::Glwe => Ct::Glwe(enc_bit(c, v, r)),
        T::Glev if r == Route::Public => Ct::Glev(glev_of(c, &at0(c, v), r)),
        T::Glev => Ct::Glev(enc_bit(c, v, r)),
    };
    check_bit(c, &x, v, "as encrypted")?;
    cov.label(match r {
        Route::Secret => "secret",
        Route::Public => "public",
        Route::Trivial => "trivial",
    });
    // scheme switches since the last bootstrap
    let mut dirty = false;
    let mut ops = 0;
    for h in &case.hops {
        let big = case.ctx == 3;
        let what;
        x = match x {
            Ct::L0(x) => {
                let mut o = c.enc.allocate_ggsw_l1();
                c.eval.circuit_bootstrap(&mut o, &x);
                what = "circuit bootstrap";
                dirty = false;
                Ct::Ggsw(o)
            }
            Ct::L1(x) => {
                let mut o = c.enc.allocate_lwe_l0();
                c.eval.keyswitch_lwe_l1_lwe_l0(&mut o, &x);
                what = "key switch";
                Ct::L0(o)
            }
            Ct::Glev(x) => {
                let mut o = c.enc.allocate_ggsw_l1();
                c.eval.scheme_switch(&mut o, &x);
                what = "scheme switch";
                dirty = true;
                Ct::Ggsw(o)
            }
            Ct::Glwe(x) => match h.pick % 5 {
                0 => {
                    let mut o = c.enc.allocate_lwe_l1();
                    c.eval.sample_extract_l1(&mut o, &x, 0);
                    what = "sample extract";
                    Ct::L1(o)
                }
                1 => {
                    // rotated, the bit is elsewhere
                    let i = h.n as usize % n;
                    let (mut y, mut o) = (c.enc.allocate_glwe_l1(), c.enc.allocate_lwe_l1());
                    c.eval.mul_xn(&mut y, &x, i);
                    c.eval.sample_extract_l1(&mut o, &y, i);
                    what = "rotate and extract";
                    Ct::L1(o)
                }
                2 => {
                    let mut o = c.enc.allocate_glwe_l1();
                    c.eval.not(&mut o, &x);
                    v = !v;
                    what = "not";
                    Ct::Glwe(o)
                }
                3 => {
                    let p = h.p.coeffs(n);
                    let mut o = c.enc.allocate_glwe_l1();
                    c.eval.xor(&mut o, &x, &glwe_of(c, &p, h.r[0]));
                    v ^= p[0];
                    what = "xor";
                    Ct::Glwe(o)
                }
                _ => {
                    let s = h.n & 1 == 1;
                    let mut o = c.enc.allocate_glwe_l1();
                    c.eval.multiply_glwe_ggsw(&mut o, &x, &enc_bit(c, s, h.r[0]));
                    v &= s;
                    what = "multiply by ggsw";
                    Ct::Glwe(o)
                }
            },
            Ct::Ggsw(x) => {
                let (p, q) = (h.p.coeffs(n), h.q.coeffs(n));
                if h.pick & 1 == 1 && !dirty && !big {
                    let bit = |p: &[bool], r| glev_of(c, &at0(c, p[0]), r);
                    let mut o = c.enc.allocate_glev_l1();
                    c.eval.glev_cmux(&mut o, &x, &bit(&p, h.r[0]), &bit(&q, h.r[1]));
                    v = if v { q[0] } else { p[0] };
                    what = "glev select";
                    Ct::Glev(o)
                } else {
                    let mut o = c.enc.allocate_glwe_l1();
                    if h.pick & 2 == 0 {
                        c.eval.cmux(&mut o, &x, &glwe_of(c, &p, h.r[0]), &glwe_of(c, &q, h.r[1]));
                        v = if v { q[0] } else { p[0] };
                        what = "select";
                    } else {
                        c.eval.multiply_glwe_ggsw(&mut o, &glwe_of(c, &p, h.r[0]), &x);
                        v &= p[0];
                        what = "multiply by ggsw";
                    }
                    Ct::Glwe(o)
                }
            }
        };
        check_bit(c, &x, v, what)?;
        cov.label(what);
        ops += 1;
    }
    cov.comparisons(2 + 2 * ops);
    cov.nontrivial_if(ops > 0);
    Ok(())
}

// ---- polynomials

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PolyCase {
    ctx: usize,
    p: P,
    r: Route,
    glev: bool,
    ops: Vec<PolyOp>,
    at: u16,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum PolyOp {
    Rotate(u16),
    Not,
    Xor(P, Route, bool),
    /// select between this and another; the other first; by a selector made how
    Select(P, Route, bool, bool, u8),
    And(bool, u8),
    /// forget it and encrypt something else into the same object
    Overwrite(P),
}

fn selector(c: &Ctx, s: bool, how: u8) -> L1GgswCiphertext {
    match how % 3 {
        0 => c.enc.encrypt_ggsw_l1_secret(s, &c.sk),
        1 => (if s { c.eval.l1ggsw_one() } else { c.eval.l1ggsw_zero() }).clone(),
        _ => {
            let mut o = c.enc.allocate_ggsw_l1();
            c.eval.circuit_bootstrap(&mut o, &c.enc.encrypt_lwe_l0_secret(s, &c.sk));
            o
        }
    }
}

fn polys(case: &PolyCase, cov: &Cover) -> Res {
    let c = ctx(case.ctx);
    let n = c.params.l1_poly_degree().0;
    let ke = KeylessEvaluation::new(&c.params, &c.enc);
    let mut p = case.p.coeffs(n);
    cov.nontrivial_if(p.iter().any(|x| *x));
    if case.glev {
        let mut x = glev_of(c, &p, case.r);
        let mut dirty = false;
        same(&c.enc.decrypt_glev_l1(&x, &c.sk), &p, "glev", "as encrypted")?;
        for op in &case.ops {
            let (q, r, s, swap, how) = match op {
                PolyOp::Select(q, r, s, swap, how) => (q, *r, *s, *swap, *how),
                PolyOp::Xor(q, r, s) => (q, *r, *s, false, 0),
                _ => continue,
            };
            if case.ctx == 3 && dirty {
                continue;
            }
            let q = q.coeffs(n);
            let y = glev_of(c, &q, r);
            let sel = selector(c, s, how);
            // what is in the output before must not matter
            let mut o = glev_of(c, &q, Route::Trivial);
            if swap {
                ke.glev_cmux(&mut o, &sel, &y, &x);
            } else {
                ke.glev_cmux(&mut o, &sel, &x, &y);
            }
            if s != swap {
                p = q;
            }
            x = o;
            dirty = true;
            same(&c.enc.decrypt_glev_l1(&x, &c.sk), &p, "glev-select", &format!("select {s} swapped {swap}"))?;
            cov.label("glev select");
        }
        let sign = c.enc.decrypt_glev_l1(&x, &c.sk);
        same(&sign, &p, "glev", "through Encryption")?;
        ensure!(CiphertextOps::decrypt(&x, &c.enc, &c.sk) == p[0], "glev", "as a bit");
        cov.comparisons(n as u64);
        cov.label("glev");
        return Ok(());
    }
    let mut x = glwe_of(c, &p, case.r);
    same(&c.enc.decrypt_glwe_l1(&x, &c.sk), &p, "glwe", "as encrypted")?;
    for op in &case.ops {
        let mut o = glwe_of(c, &vec![true; n], Route::Trivial);
        let what = match op {
            PolyOp::Rotate(by) => {
                let i = *by as usize % n;
                ke.mul_xn(&mut o, &x, i);
                p.rotate_right(i);
                "rotate"
            }
            PolyOp::Not => {
                ke.not(&mut o, &x);
                p[0] ^= true;
                "not"
            }
            PolyOp::Xor(q, r, swap) => {
                let q = q.coeffs(n);
                let y = glwe_of(c, &q, *r);
                if *swap {
                    ke.xor(&mut o, &y, &x);
                } else {
                    ke.xor(&mut o, &x, &y);
                }
                p.iter_mut().zip(&q).for_each(|(a, b)| *a ^= b);
                "xor"
            }
            PolyOp::Select(q, r, s, swap, how) => {
                let q = q.coeffs(n);
                let y = glwe_of(c, &q, *r);
                let sel = selector(c, *s, *how);
                if *swap {
                    ke.cmux(&mut o, &sel, &y, &x);
                } else {
                    ke.cmux(&mut o, &sel, &x, &y);
                }
                if s != swap {
                    p = q;
                }
                "select"
            }
            PolyOp::And(s, how) => {
                ke.multiply_glwe_ggsw(&mut o, &x, &selector(c, *s, *how));
                if !s {
                    p = vec![false; n];
                }
                "multiply by ggsw"
            }
            PolyOp::Overwrite(q) => {
                p = q.coeffs(n);
                o = <L1GlweCiphertext as PolynomialCiphertextOps>::encrypt_secret(&poly(&p), &c.enc, &c.sk);
                "encrypt"
            }
        };
        x = o;
        same(&PolynomialCiphertextOps::decrypt(&x, &c.enc, &c.sk), &p, "glwe-op", what)?;
        cov.label(what);
    }
    let at: Vec<usize> = if n > 500 { vec![0, n - 1, case.at as usize % n] } else { (0..n).collect() };
    for i in at {
        let mut o = c.enc.allocate_lwe_l1();
        ke.sample_extract_l1(&mut o, &x, i);
        ensure_eq!(c.enc.decrypt_lwe_l1(&o, &c.sk), p[i], "extract", "coefficient {i}");
    }
    cov.comparisons(2 * n as u64);
    Ok(())
}

// ---- integers

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    ctx: usize,
    signed: bool,
    w: usize,
    v: u128,
    t: T,
    how: How,
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum How {
    Dynamic(Route),
    /// a type whose width is a constant
    Sized(Route),
    Packed(Route),
    SizedPacked(Route),
    /// bits given one by one, any pattern
    Bits(bool),
}

trait Plain: Sign {
    fn pt(v: u128) -> Self::PlaintextType;
    fn un(v: &Self::PlaintextType) -> u128;
    const SIGNED: bool;
}
impl Plain for Unsigned {
    fn pt(v: u128) -> u128 {
        v
    }
    fn un(v: &u128) -> u128 {
        *v
    }
    const SIGNED: bool = false;
}
impl Plain for Signed {
    fn pt(v: u128) -> i128 {
        v as i128
    }
    fn un(v: &i128) -> u128 {
        *v as u128
    }
    const SIGNED: bool = true;
}
/// The bits of the value in `w` places, or nothing when it does not fit.
fn places<U: Plain>(v: u128, w: usize) -> Option<Bits> {
    let top = U::SIGNED && v >> 127 == 1;
    let bit = |i: usize| if i < 128 { v >> i & 1 == 1 } else { top };
    let fill = if U::SIGNED { w > 0 && bit(w - 1) } else { false };
    (w..128).all(|i| bit(i) == fill).then(|| (0..w).map(bit).collect())
}
/// The value of the bits, or nothing when it does not fit the plaintext type.
fn value<U: Plain>(b: &[bool]) -> Option<u128> {
    let fill = if U::SIGNED { *b.last().unwrap() } else { false };
    let bit = |i: usize| if i < b.len() { b[i] } else { fill };
    if U::SIGNED {
        (128..b.len()).all(|i| b[i] == b[127]).then_some(())?;
    } else {
        (128..b.len()).all(|i| !b[i]).then_some(())?;
    }
    Some((0..128).fold(0, |s, i| s | (bit(i) as u128) << i))
}

fn verify_int<C: CiphertextOps, U: Plain>(c: &Ctx, made: Result<DynamicGenericInt<C, U>, String>, case: &IntCase, cov: &Cover) -> Res {
    let want = places::<U>(case.v, case.w);
    let int = match (made, &want) {
        (Err(_), None) => {
            cov.label("refused");
            cov.comparisons(1);
            cov.nontrivial();
            return Ok(());
        }
        (Err(e), Some(_)) => return fail("valid-integer-refused", format!("{case:?}: {e}")),
        (Ok(_), None) => return fail("out-of-range-accepted", format!("{case:?}")),
        (Ok(i), Some(_)) => i,
    };
    let want = want.unwrap();
    ensure!(int.bits.len() == want.len(), "width", "{} bits, not {}", int.bits.len(), want.len());
    for (i, (b, w)) in int.bits.iter().zip(&want).enumerate() {
        ensure!(b.borrow().decrypt(&c.enc, &c.sk) == *w, "bit-order", "bit {i} of {case:?}");
    }
    let got = catch(|| int.decrypt(&c.enc, &c.sk));
    match got {
        Err(e) => return fail("integer", format!("{case:?}: decryption: {e}")),
        Ok(g) => ensure!(U::un(&g) == case.v, "integer", "{case:?}: decrypts to {g:?}"),
    }
    let custom = int.with_decryption_fn(|x| x.decrypt(&c.enc, &c.sk));
    ensure!(U::un(&custom) == case.v, "integer", "with a custom decryption");
    cov.comparisons(want.len() as u64 + 2);
    cov.label("round trip");
    cov.nontrivial();
    Ok(())
}

macro_rules! widths {
    ($w:expr, $n:ident => $e:expr) => {
        match $w {
            1 => { const $n: usize = 1; Some($e) }
            2 => { const $n: usize = 2; Some($e) }
            7 => { const $n: usize = 7; Some($e) }
            8 => { const $n: usize = 8; Some($e) }
            16 => { const $n: usize = 16; Some($e) }
            32 => { const $n: usize = 32; Some($e) }
            64 => { const $n: usize = 64; Some($e) }
            127 => { const $n: usize = 127; Some($e) }
            128 => { const $n: usize = 128; Some($e) }
            129 => { const $n: usize = 129; Some($e) }
            256 => { const $n: usize = 256; Some($e) }
            _ => None,
        }
    };
}
const WIDTHS: [usize; 11] = [1, 2, 7, 8, 16, 32, 64, 127, 128, 129, 256];

fn unpacked<C: CiphertextOps, U: Plain>(c: &Ctx, case: &IntCase, cov: &Cover) -> Res {
    let (e, w) = (&c.enc, case.w);
    let pt = || U::pt(case.v);
    match case.how {
        How::Bits(deep) => {
            // a pattern of w bits: the words of v, repeated
            let b: Bits = (0..w).map(|i| case.v >> (i % 128) & 1 == 1 && !(i >= 128 && case.v & 3 == 0)).collect();
            let cts: Vec<C> = b.iter().map(|x| C::trivial_encryption(*x, e, &c.eval)).collect();
            let int: DynamicGenericInt<C, U> = if deep {
                DynamicGenericInt::from_bits_deep(cts)
            } else {
                DynamicGenericInt::from_bits_shallow(cts.into_iter().map(|x| Arc::new(AtomicRefCell::new(x))).collect())
            };
            let got = catch(|| int.decrypt(e, &c.sk));
            match (value::<U>(&b), got) {
                (None, Err(_)) => cov.label("too wide to read"),
                (None, Ok(g)) => return fail("integer", format!("{case:?}: bits that fit no plaintext read as {g:?}")),
                (Some(v), Err(x)) => return fail("integer", format!("{case:?}: bits of {v} refused: {x}")),
                (Some(v), Ok(g)) => {
                    ensure!(U::un(&g) == v, "integer", "{case:?}: bits of {v} read as {g:?}");
                    cov.label("from bits");
                }
            }
            cov.comparisons(1);
            cov.nontrivial();
            Ok(())
        }
        How::Sized(r) if WIDTHS.contains(&w) && r != Route::Public => {
            let made: Result<DynamicGenericInt<C, U>, String> = widths!(w, K => catch(|| {
                let x: GenericInt<K, C, U> = if r == Route::Trivial { GenericInt::trivial(pt(), e, &c.eval) } else { GenericInt::encrypt_secret(pt(), e, &c.sk) };
                let d: DynamicGenericInt<C, U> = x.into();
                d
            }))
            .unwrap();
            verify_int(c, made, case, cov)
        }
        How::Dynamic(Route::Trivial) | How::Sized(Route::Trivial) => verify_int(c, catch(|| DynamicGenericInt::<C, U>::trivial(pt(), e, &c.eval, w)), case, cov),
        _ => verify_int(c, catch(|| DynamicGenericInt::<C, U>::encrypt_secret(pt(), e, &c.sk, w)), case, cov),
    }
}

/// Public and packed integers: GLWE only (the public route needs k = 1).
fn glwe_ints<U: Plain>(c: &Ctx, case: &IntCase, cov: &Cover) -> Res {
    let (e, w) = (&c.enc, case.w);
    let n = c.params.l1_poly_degree().0;
    let pt = || U::pt(case.v);
    let made: Result<PackedDynamicGenericInt<L1GlweCiphertext, U>, String> = match case.how {
        How::Dynamic(_) => return verify_int(c, catch(|| DynamicGenericInt::<L1GlweCiphertext, U>::encrypt(pt(), e, c.pk(), w)), case, cov),
        How::Sized(_) | How::Bits(_) => {
            let made = widths!(w, K => catch(|| {
                let d: DynamicGenericInt<L1GlweCiphertext, U> = GenericInt::<K, L1GlweCiphertext, U>::encrypt(pt(), e, c.pk()).into();
                d
            }));
            return match made {
                Some(m) => verify_int(c, m, case, cov),
                None => verify_int(c, catch(|| DynamicGenericInt::<L1GlweCiphertext, U>::encrypt(pt(), e, c.pk(), w)), case, cov),
            };
        }
        How::SizedPacked(r) if WIDTHS.contains(&w) => widths!(w, K => catch(|| {
            let x: PackedGenericInt<K, L1GlweCiphertext, U> = if r == Route::Trivial || !has_pk(c) { PackedGenericInt::trivial_encrypt(pt(), e) } else { PackedGenericInt::encrypt(pt(), e, c.pk()) };
            let direct = x.decrypt(e, &c.sk);
            let d: PackedDynamicGenericInt<L1GlweCiphertext, U> = x.into();
            assert!(direct == d.decrypt(e, &c.sk), "the two packed types decrypt differently");
            d
        }))
        .unwrap(),
        How::SizedPacked(r) | How::Packed(r) => catch(|| {
            if r == Route::Trivial || !has_pk(c) {
                PackedDynamicGenericInt::trivial_encrypt(pt(), e, w)
            } else {
                PackedDynamicGenericInt::encrypt(pt(), e, c.pk(), w)
            }
        }),
    };
    let want = places::<U>(case.v, w).filter(|_| w < n);
    let int = match (made, &want) {
        (Err(_), None) => {
            cov.label("refused");
            cov.comparisons(1);
            cov.nontrivial();
            return Ok(());
        }
        (Err(x), Some(_)) => return fail("valid-integer-refused", format!("{case:?}: {x}")),
        (Ok(_), None) => return fail("out-of-range-accepted", format!("packed {case:?}")),
        (Ok(i), Some(_)) => i,
    };
    let want = want.unwrap();
    let inner = int.inner();
    let mut full = want.clone();
    full.resize(n, false);
    same(&e.decrypt_glwe_l1(&inner, &c.sk), &full, "packing", "packed bits")?;
    let got = int.decrypt(e, &c.sk);
    ensure!(U::un(&got) == case.v, "integer", "packed {case:?}: decrypts to {got:?}");
    // taken apart coefficient by coefficient it is the same integer
    let ke = KeylessEvaluation::new(&c.params, e);
    let bits: Vec<L1LweCiphertext> = (0..w)
        .map(|i| {
            let mut o = e.allocate_lwe_l1();
            ke.sample_extract_l1(&mut o, &inner, i);
            o
        })
        .collect();
    let apart = DynamicGenericInt::<L1LweCiphertext, U>::from_bits_deep(bits).decrypt(e, &c.sk);
    ensure!(U::un(&apart) == case.v, "integer", "unpacked {case:?}: decrypts to {apart:?}");
    if has_pk(c) {
        // under a one-time pad: nobody without the pad, exactly the value with it
        let (public, secret) = generate_one_time_pad(&c.params, e, c.pk());
        let hidden = int.recrypt(e, &ke, &public).decrypt(e, &c.sk);
        let got = hidden.decrypt(&secret);
        ensure!(U::un(&got) == case.v, "one-time-pad", "{case:?}: recrypted, decrypts to {got:?}");
    }
    cov.comparisons(w as u64 + n as u64);
    cov.label("packed");
    cov.nontrivial();
    Ok(())
}

fn ints(case: &IntCase, cov: &Cover) -> Res {
    let c = ctx(case.ctx);
    let glwe = match case.how {
        How::Packed(_) | How::SizedPacked(_) => true,
        How::Dynamic(r) | How::Sized(r) => case.t == T::Glwe && r == Route::Public && has_pk(c),
        How::Bits(_) => false,
    };
    macro_rules! go {
        ($u:ident) => {
            match case.t {
                _ if glwe => glwe_ints::<$u>(c, case, cov),
                T::L0 => unpacked::<L0LweCiphertext, $u>(c, case, cov),
                T::L1 => unpacked::<L1LweCiphertext, $u>(c, case, cov),
                T::Glwe => unpacked::<L1GlweCiphertext, $u>(c, case, cov),
                T::Ggsw => unpacked::<L1GgswCiphertext, $u>(c, case, cov),
                T::Glev => unpacked::<L1GlevCiphertext, $u>(c, case, cov),
            }
        };
    }
    if case.signed {
        go!(Signed)
    } else {
        go!(Unsigned)
    }
}

// ---- one-time pads, freshness

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PadCase {
    ctx: usize,
    p: P,
    r: Route,
    pads: usize,
}
fn pads(case: &PadCase, cov: &Cover) -> Res {
    let c = ctx(case.ctx);
    let n = c.params.l1_poly_degree().0;
    let ke = KeylessEvaluation::new(&c.params, &c.enc);
    let p = case.p.coeffs(n);
    let zero = c.enc.trivial_glwe_l1_zero();
    let mut seen: Vec<Vec<u64>> = vec![];
    for _ in 0..case.pads {
        let x = glwe_of(c, &p, case.r);
        let (public, secret) = generate_one_time_pad(&c.params, &c.enc, c.pk());
        // the pad itself: recrypting nothing shows what the public part encrypts
        let pad = c.enc.decrypt_glwe_l1(&recrypt_one_time_pad(&zero, &public, &ke, &c.enc), &c.sk);
        let none = decrypt_one_time_pad(&pad, &secret);
        same(&none, &vec![false; n], "one-time-pad", "the public pad does not encrypt the secret one")?;
        let hidden = c.enc.decrypt_glwe_l1(&recrypt_one_time_pad(&x, &public, &ke, &c.enc), &c.sk);
        same(&decrypt_one_time_pad(&hidden, &secret), &p, "one-time-pad", "recrypted polynomial")?;
        for (i, h) in words(&hidden).iter().enumerate() {
            ensure!(*h == (p[i] as u64 ^ pad.coeffs()[i]), "one-time-pad", "coefficient {i} is not the message under the pad");
        }
        seen.push(words(&pad));
    }
    // pads are fresh, and as far as sixteen thousand coin flips can tell, fair: every coefficient
    // takes both values and the ones are within ten standard deviations of half
    let total = (case.pads * n) as f64;
    let ones: u64 = seen.iter().flatten().sum();
    ensure!((ones as f64 - total / 2.0).abs() <= 10.0 * (total / 4.0).sqrt(), "pad-bias", "{ones} ones in {total} pad bits");
    if case.pads >= 64 {
        for i in 0..n {
            let s: u64 = seen.iter().map(|p| p[i]).sum();
            ensure!(s != 0 && s != case.pads as u64, "pad-bias", "pad bit {i} is always {}", seen[0][i]);
        }
    }
    for i in 1..seen.len() {
        ensure!(seen[i] != seen[i - 1], "pad-repeats", "two pads are the same");
    }
    cov.comparisons(3 * case.pads as u64 * n as u64);
    cov.nontrivial();
    Ok(())
}

/// Encryption twice of the same thing: different ciphertexts, whichever the route and kind (other
/// than trivial), and never the message in the clear.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FreshCase {
    ctx: usize,
    t: T,
    public: bool,
    p: P,
}
fn fresh(case: &FreshCase, cov: &Cover) -> Res {
    let c = ctx(case.ctx);
    let n = c.params.l1_poly_degree().0;
    let p = case.p.coeffs(n);
    let r = if case.public { Route::Public } else { Route::Secret };
    let raw = || -> Vec<u64> {
        let b = match case.t {
            T::L0 => bincode::serialize(&c.enc.encrypt_lwe_l0_secret(p[0], &c.sk)),
            T::L1 => bincode::serialize(&c.enc.encrypt_lwe_l1_secret(p[0], &c.sk)),
            T::Glwe => bincode::serialize(&glwe_of(c, &p, r)),
            T::Glev => bincode::serialize(&glev_of(c, &p, r)),
            T::Ggsw => {
                let g = c.enc.encrypt_ggsw_l1_secret(p[0], &c.sk);
                let mut s = sunscreen_tfhe::entities::GgswCiphertext::<u64>::new(&c.params.l1_params, &c.params.cbs_radix);
                g.0.ifft(&mut s, &c.params.l1_params, &c.params.cbs_radix);
                bincode::serialize(&s)
            }
        }
        .unwrap();
        b[8..].chunks(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()
    };
    let (a, b) = (raw(), raw());
    // the mask of each row
    let (row, body) = match case.t {
        T::L0 => (c.params.l0_params.dim.0 + 1, 1),
        T::L1 => (c.params.l1_params.dim.size.0 * n + 1, 1),
        _ => ((c.params.l1_params.dim.size.0 + 1) * n, n),
    };
    for (i, (x, y)) in a.chunks(row).zip(b.chunks(row)).enumerate() {
        let (x, y) = (&x[..row - body], &y[..row - body]);
        let equal = x.iter().zip(y).filter(|(a, b)| a == b).count();
        // of words of 64 random bits (four of the smallest kind), one coincidence is beyond belief;
        // Fourier rounding keeps 50 bits of them
        ensure!(equal == 0, "not-fresh", "{:?} row {i}: {equal} of {} mask words the same in two encryptions", case.t, x.len());
    }
    cov.comparisons(a.len() as u64);
    cov.nontrivial();
    Ok(())
}

pub fn check() -> Check {
    let route = || prop::sample::select(vec![Route::Secret, Route::Public, Route::Trivial]);
    let t = || prop::sample::select(vec![T::L0, T::L1, T::Glwe, T::Ggsw, T::Glev]);
    let which = || prop_oneof![6 => 0usize..2, 2 => Just(2usize)];
    let hop = (any::<u8>(), any::<u16>(), any_p(), any_p(), [route(), route()]).prop_map(|(pick, n, p, q, r)| Hop { pick, n, p, q, r });
    let bit_case = move |which: BoxedStrategy<usize>, len: std::ops::Range<usize>| {
        (which, t(), route(), any::<bool>(), prop::collection::vec(hop.clone(), len)).prop_map(|(ctx, t, route, v, hops)| BitCase { ctx, t, route, v, hops }).boxed()
    };
    let op = prop_oneof![
        any::<u16>().prop_map(PolyOp::Rotate),
        Just(PolyOp::Not),
        (any_p(), route(), any::<bool>()).prop_map(|(p, r, s)| PolyOp::Xor(p, r, s)),
        (any_p(), route(), any::<bool>(), any::<bool>(), any::<u8>()).prop_map(|(p, r, a, b, h)| PolyOp::Select(p, r, a, b, h)),
        (any::<bool>(), any::<u8>()).prop_map(|(s, h)| PolyOp::And(s, h)),
        any_p().prop_map(PolyOp::Overwrite),
    ];
    let poly_case = move |which: BoxedStrategy<usize>, len: std::ops::Range<usize>| {
        (which, any_p(), route(), prop::bool::weighted(0.3), prop::collection::vec(op.clone(), len), any::<u16>()).prop_map(|(ctx, p, r, glev, ops, at)| PolyCase { ctx, p, r, glev, ops, at }).boxed()
    };
    let width = prop_oneof![4 => 1usize..18, 4 => prop::sample::select(WIDTHS.to_vec()), 2 => 1usize..257];
    let val = (any::<u128>(), 0u32..130, 0u8..5).prop_map(|(v, s, m)| match m {
        // sized around powers of two, of either sign
        0 => v.checked_shr(s).unwrap_or(0),
        1 => !v.checked_shr(s).unwrap_or(0),
        2 => 1u128.checked_shl(s).unwrap_or(0).wrapping_sub((v & 1) as u128),
        3 => 1u128.checked_shl(s).unwrap_or(0).wrapping_neg().wrapping_sub((v & 1) as u128),
        _ => v,
    });
    let int_case = move |which: BoxedStrategy<usize>| {
        let how = prop_oneof![
            3 => route().prop_map(How::Dynamic),
            2 => route().prop_map(How::Sized),
            2 => route().prop_map(How::Packed),
            2 => route().prop_map(How::SizedPacked),
            1 => any::<bool>().prop_map(How::Bits)
        ];
        (which, any::<bool>(), width.clone(), val.clone(), prop::bool::weighted(0.6), prop_oneof![5 => Just(T::L0), 5 => Just(T::L1), 8 => Just(T::Glwe), 1 => Just(T::Ggsw), 1 => Just(T::Glev)], how)
            .prop_map(|(ctx, signed, w, v, fit, t, how)| {
                // the bounds of the width, give or take one
                if v % 5 == 0 {
                    let at = if signed { w - 1 } else { w };
                    let edge = 1u128.checked_shl(at as u32).unwrap_or(0);
                    let edge = match (v >> 8) % 3 {
                        0 => 0,
                        1 => edge,
                        _ => edge.wrapping_neg(),
                    };
                    return IntCase { ctx, signed, w, v: edge.wrapping_add((v >> 16) % 3).wrapping_sub(1), t, how };
                }
                // half of the values are brought into range
                let v = match (fit, signed) {
                    (true, false) if w < 128 => v & ((1 << w) - 1),
                    (true, true) if w < 128 => ((v << (128 - w)) as i128 >> (128 - w)) as u128,
                    _ => v,
                };
                IntCase { ctx, signed, w, v, t, how }
            })
            .boxed()
    };
    let pad = move |ctx: BoxedStrategy<usize>, pads: usize| (ctx, any_p(), route()).prop_map(move |(ctx, p, r)| PadCase { ctx, p, r, pads }).boxed();
    Check {
        id: "R04",
        assumptions: vec![
            "small parameters with noise far below the decision threshold, plus cases at the 128-bit parameters".into(),
            "a selector that came out of a scheme switch only selects between GLWE ciphertexts; at the 128-bit parameters computed GLEV ciphertexts are not scheme switched".into(),
            "width 0 is excluded; packed integers are narrower than the polynomial degree".into(),
            "GLEV bits of a select are constant polynomials".into(),
        ],
        subs: vec![
            sub("bits", 1500, 120_000, "at least one conversion", bit_case(which().boxed(), 0..9), bits),
            sub("polys", 900, 60_000, "a polynomial other than zero", poly_case(which().boxed(), 0..5), polys),
            sub("ints", 1600, 400_000, "every case", int_case(which().boxed()), ints),
            sub("pads", 40, 2000, "every case", pad((0usize..2).boxed(), 64), pads),
            sub("fresh", 1500, 60_000, "every case", (which(), t(), any::<bool>(), any_p()).prop_map(|(ctx, t, public, p)| FreshCase { ctx, t, public, p }), fresh),
            sub("bits-128", 2, 300, "at least one conversion", bit_case(Just(3usize).boxed(), 2..7), bits),
            sub("polys-128", 4, 400, "a polynomial other than zero", poly_case(Just(3usize).boxed(), 0..3), polys),
            sub("ints-128", 12, 1500, "every case", int_case(Just(3usize).boxed()), ints),
        ],
    }
}
