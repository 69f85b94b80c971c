//! T08 linear operations, T09 rotation / extraction / trace.
use crate::common::*;
use crate::fhe::*;
use crate::t_enc::{glwe_case, GlweCase};
use num::traits::{WrappingAdd, WrappingNeg, WrappingSub};
use num::Complex;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{
    entities::*,
    high_level::evaluation,
    ops::{automorphisms::*, bootstrapping::*, ciphertext::*, fft_ops, homomorphisms::lwe_rotate},
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

pub fn checks() -> Vec<Check> {
    vec![t08(), t09()]
}

// ------------------------------------------------------------------------------- T08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LinOp {
    Add(u8, u8, u8, u8),
    Sub(u8, u8, u8, u8),
    Neg(u8, u8, u8),
    /// dst += src * scalar
    Scalar(u8, u8, u64),
    /// dst += src * polynomial
    Poly(u8, u8, Fill, u64),
    /// add a constant to every body coefficient
    Rotate(u8, u8, u64),
    /// divide by a power of two with rounding
    Shift(u8, u8, u8),
    /// start over with another raw ciphertext
    Fresh(u8, Fill, u64),
}

fn lin_op() -> BoxedStrategy<LinOp> {
    let i = || 0u8..4;
    prop_oneof![
        3 => (i(), i(), i(), 0u8..4).prop_map(|(a, b, c, f)| LinOp::Add(a, b, c, f)),
        3 => (i(), i(), i(), 0u8..4).prop_map(|(a, b, c, f)| LinOp::Sub(a, b, c, f)),
        2 => (i(), i(), 0u8..4).prop_map(|(a, b, f)| LinOp::Neg(a, b, f)),
        2 => (i(), i(), word()).prop_map(|(a, b, w)| LinOp::Scalar(a, b, w)),
        2 => (i(), i(), fill(), any::<u64>()).prop_map(|(a, b, f, s)| LinOp::Poly(a, b, f, s)),
        1 => (i(), i(), word()).prop_map(|(a, b, w)| LinOp::Rotate(a, b, w)),
        1 => (i(), i(), any::<u8>()).prop_map(|(a, b, w)| LinOp::Shift(a, b, w)),
        1 => (i(), fill(), any::<u64>()).prop_map(|(a, f, s)| LinOp::Fresh(a, f, s)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    wide: bool,
    log_n: u8,
    k: u8,
    uniform: bool,
    ops: Vec<LinOp>,
    seed: u64,
}

fn lin_case(max_log_n: u8, max_ops: usize) -> BoxedStrategy<LinCase> {
    (any::<bool>(), 0..=max_log_n, 1u8..=4, any::<bool>(), prop::collection::vec(lin_op(), 1..max_ops), any::<u64>())
        .prop_map(|(wide, log_n, k, uniform, ops, seed)| LinCase { wide, log_n, k, uniform, ops, seed })
        .boxed()
}

type G<S> = GlweCiphertext<S>;
fn ga<S: Word>(x: &mut G<S>) -> Vec<u64> {
    uraw(raw!(*x, GlweCiphertextRef, Torus<S>))
}
fn gset<S: Word>(x: &mut G<S>, w: &[u64]) {
    for (a, b) in raw_mut!(*x, GlweCiphertextRef, Torus<S>).iter_mut().zip(w) {
        *a = t::<S>(*b);
    }
}
fn shr_round<S: Word>(x: u64, n: u32) -> u64 {
    let x = x as u128;
    (((x + (1u128 << (n - 1))) >> n) as u64) & mask(S::bits())
}

/// Ring ciphertexts: four slots of raw ciphertexts and the phases a model says they have.
fn glwe_lin<S: Word>(c: &LinCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let n = 1usize << c.log_n;
    let d = glwe_def(n, c.k as usize, 0.0);
    let sk = glwe_key::<S>(&d, c.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    let s1 = l1s::<S>(&s);
    let sz = n * (c.k as usize + 1);
    let m = mask(S::bits());
    let mut cts: Vec<G<S>> = vec![];
    for i in 0..4u64 {
        let mut x = G::<S>::new(&d);
        gset(&mut x, &expand(&if i == 3 { Fill::Edge } else { Fill::Random }, sz, c.seed ^ i));
        cts.push(x);
    }
    let mut model: Vec<Vec<u64>> = cts.iter_mut().map(|x| glwe_phase::<S>(&ga(x), &s)).collect();
    let mut kinds = std::collections::BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let ctx = format!("step {step} {op:?} n {n} k {}", c.k);
        let dst;
        match op {
            LinOp::Add(a, b, o, f) => {
                kinds.insert("add");
                let (x, y) = (cts[*a as usize].clone(), cts[*b as usize].clone());
                let want = addp::<S>(&model[*a as usize], &model[*b as usize]);
                dst = *o as usize;
                match f {
                    0 => add_glwe_ciphertexts(&mut cts[dst], &x, &y, &d),
                    1 => {
                        let mut z = x.clone();
                        glwe_add_assign(&mut z, &y, &d);
                        cts[dst] = z;
                    }
                    2 => {
                        let z = x.wrapping_add(&y);
                        ensure_eq!(ga(&mut z.clone()), ga(&mut (x.clone() + y.clone())), "glwe-add-forms", "{}", ctx);
                        cts[dst] = z;
                    }
                    _ => {
                        let mut z = x.clone();
                        z += y.clone();
                        ensure_eq!(ga(&mut z.clone()), ga(&mut (x.as_ref() + y.as_ref())), "glwe-add-forms", "{}", ctx);
                        cts[dst] = z;
                    }
                }
                model[dst] = want;
            }
            LinOp::Sub(a, b, o, f) => {
                kinds.insert("sub");
                let (x, y) = (cts[*a as usize].clone(), cts[*b as usize].clone());
                let want = addp::<S>(&model[*a as usize], &neg::<S>(&model[*b as usize]));
                dst = *o as usize;
                match f {
                    0 | 1 => sub_glwe_ciphertexts(&mut cts[dst], &x, &y, &d),
                    2 => {
                        let z = x.wrapping_sub(&y);
                        ensure_eq!(ga(&mut z.clone()), ga(&mut (x.clone() - y.clone())), "glwe-sub-forms", "{}", ctx);
                        cts[dst] = z;
                    }
                    _ => {
                        let mut z = x.clone();
                        z -= y.clone();
                        ensure_eq!(ga(&mut z.clone()), ga(&mut (x.as_ref() - y.as_ref())), "glwe-sub-forms", "{}", ctx);
                        cts[dst] = z;
                    }
                }
                model[dst] = want;
            }
            LinOp::Neg(a, o, f) => {
                kinds.insert("neg");
                let x = cts[*a as usize].clone();
                let want = neg::<S>(&model[*a as usize]);
                dst = *o as usize;
                cts[dst] = match f {
                    0 | 1 => {
                        let mut z = x.clone();
                        glwe_negate_inplace(&mut z, &d);
                        z
                    }
                    2 => x.wrapping_neg(),
                    _ => -x.clone(),
                };
                model[dst] = want;
            }
            LinOp::Scalar(o, a, w) => {
                kinds.insert("scalar");
                let x = cts[*a as usize].clone();
                dst = *o as usize;
                glwe_scalar_mad(&mut cts[dst], &x, S::of(*w), &d);
                let p: Vec<u64> = model[*a as usize].iter().map(|y| (*y).wrapping_mul(*w) & m).collect();
                model[dst] = addp::<S>(&model[dst], &p);
            }
            LinOp::Poly(o, a, f, seed) => {
                kinds.insert("poly");
                let x = cts[*a as usize].clone();
                dst = *o as usize;
                let p: Vec<u64> = expand(f, n, *seed).iter().map(|x| x & m).collect();
                glwe_polynomial_mad(&mut cts[dst], &x, &poly::<S>(&p), &d);
                model[dst] = addp::<S>(&model[dst], &negacyclic_mul::<S>(&model[*a as usize], &p));
            }
            LinOp::Rotate(o, a, w) => {
                kinds.insert("rotate");
                let x = cts[*a as usize].clone();
                dst = *o as usize;
                glwe_rotate(&mut cts[dst], &x, t::<S>(*w), &d);
                model[dst] = model[*a as usize].iter().map(|y| (*y).wrapping_add(*w) & m).collect();
            }
            LinOp::Shift(o, a, w) => {
                kinds.insert("shift");
                let sh = 1 + *w as u32 % (S::bits() - 1);
                let mut x = cts[*a as usize].clone();
                dst = *o as usize;
                glwe_mod_switch_and_expand_pow_2(&mut cts[dst], &x, &d, sh);
                let want: Vec<u64> = ga(&mut x).iter().map(|v| shr_round::<S>(*v, sh)).collect();
                let got = ga(&mut cts[dst]);
                ensure_eq!(got, want, "glwe-mod-switch", "{}", ctx);
                // and what that means for the message: it is divided by 2^sh on the smaller torus
                let p = glwe_phase::<S>(&got, &s);
                let back: Vec<u64> = p.iter().map(|v| (v << sh) & m).collect();
                let bound = (1i128 << (sh - 1)).saturating_mul(s1 + 1);
                if meaningful::<S>(bound) {
                    near::<S>(&back, &model[*a as usize], bound, "glwe-mod-switch-message", &ctx)?;
                    kinds.insert("shift-message");
                }
                model[dst] = p;
            }
            LinOp::Fresh(o, f, seed) => {
                dst = *o as usize;
                gset(&mut cts[dst], &expand(f, sz, *seed));
                model[dst] = glwe_phase::<S>(&ga(&mut cts[dst]), &s);
            }
        }
        // every slot, so an operation that disturbs its inputs is seen too
        for i in 0..4 {
            let p = glwe_phase::<S>(&ga(&mut cts[i]), &s);
            ensure_eq!(p, model[i], "glwe-linear", "slot {} after {}", i, ctx);
        }
        cov.comparisons(4);
        let _ = dst;
    }
    for k in &kinds {
        cov.label(format!("{}:{k}", S::NAME));
    }
    cov.nontrivial_if(kinds.len() >= 2);
    Ok(())
}

fn lwe_lin<S: Word>(c: &LinCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    // scalar ciphertexts of any dimension, not only powers of two
    let n = 1 + (c.seed % (4 << c.log_n)) as usize;
    let d = lwe_def(n, 0.0);
    let sk = lwe_key::<S>(&d, c.uniform);
    let s = lwe_key_words::<S>(&sk);
    let s1 = l1::<S>(&s);
    let m = mask(S::bits());
    type L<S> = LweCiphertext<S>;
    let get = |x: &L<S>| uraw(raw!(*x, LweCiphertextRef, Torus<S>));
    let set = |x: &mut L<S>, w: &[u64]| {
        for (a, b) in raw_mut!(*x, LweCiphertextRef, Torus<S>).iter_mut().zip(w) {
            *a = t::<S>(*b);
        }
    };
    let mut cts: Vec<L<S>> = vec![];
    for i in 0..4u64 {
        let mut x = L::<S>::new(&d);
        set(&mut x, &expand(&if i == 3 { Fill::Edge } else { Fill::Random }, n + 1, c.seed ^ i));
        cts.push(x);
    }
    let mut model: Vec<u64> = cts.iter().map(|x| lwe_phase::<S>(&get(x), &s)).collect();
    let mut kinds = std::collections::BTreeSet::new();
    for (step, op) in c.ops.iter().enumerate() {
        let ctx = format!("step {step} {op:?} dim {n}");
        match op {
            LinOp::Add(a, b, o, f) => {
                kinds.insert("add");
                let (x, y) = (cts[*a as usize].clone(), cts[*b as usize].clone());
                let want = model[*a as usize].wrapping_add(model[*b as usize]) & m;
                let z = match f {
                    0 => {
                        let mut z = x.clone();
                        add_lwe_inplace(&mut z, &y, &d);
                        z
                    }
                    1 => x.wrapping_add(&y),
                    2 => x.clone() + y.clone(),
                    _ => {
                        let mut z = x.clone();
                        z += y.clone();
                        ensure_eq!(get(&z), get(&(x.as_ref() + y.as_ref())), "lwe-add-forms", "{}", ctx);
                        z
                    }
                };
                cts[*o as usize] = z;
                model[*o as usize] = want;
            }
            LinOp::Sub(a, b, o, f) => {
                kinds.insert("sub");
                let (x, y) = (cts[*a as usize].clone(), cts[*b as usize].clone());
                let want = model[*a as usize].wrapping_sub(model[*b as usize]) & m;
                let z = match f {
                    0 | 1 => x.wrapping_sub(&y),
                    2 => x.clone() - y.clone(),
                    _ => {
                        let mut z = x.clone();
                        z -= y.clone();
                        ensure_eq!(get(&z), get(&(x.as_ref() - y.as_ref())), "lwe-sub-forms", "{}", ctx);
                        z
                    }
                };
                cts[*o as usize] = z;
                model[*o as usize] = want;
            }
            LinOp::Neg(a, o, f) => {
                kinds.insert("neg");
                let x = cts[*a as usize].clone();
                cts[*o as usize] = if f & 1 == 0 { x.wrapping_neg() } else { -x };
                model[*o as usize] = model[*a as usize].wrapping_neg() & m;
            }
            LinOp::Rotate(o, a, w) | LinOp::Scalar(o, a, w) => {
                kinds.insert("rotate");
                let x = cts[*a as usize].clone();
                lwe_rotate(&mut cts[*o as usize], &x, t::<S>(*w), &d);
                model[*o as usize] = model[*a as usize].wrapping_add(*w) & m;
            }
            LinOp::Poly(o, _, _, w) | LinOp::Fresh(o, _, w) => {
                // modulus switching: keep log_modulus - log_v top bits after log_chi, then shift up
                kinds.insert("switch");
                let a = *o as usize ^ 1;
                let x = cts[a].clone();
                let lm = 1 + (*w % (S::bits() as u64 - 1)) as u32;
                let lv = (*w >> 8) as u32 % lm.min(8);
                let chi = if *w >> 16 & 1 == 1 { 0 } else { (*w >> 20) as u32 % 4 };
                let mut z = x.clone();
                lwe_ciphertext_modulus_switch(&mut z, chi, lv, lm, &d);
                let keep = lm - lv;
                let exp: Vec<u64> = get(&x)
                    .iter()
                    .map(|v| {
                        let v = (v << chi) & m;
                        // round to the nearest multiple of 2^(bits-keep), ties up, modulo 2^lm
                        let r = (v as u128 + (1u128 << (S::bits() - keep - 1))) >> (S::bits() - keep);
                        ((r << lv) as u64) & mask(lm)
                    })
                    .collect();
                let got: Vec<u64> = get(&z).iter().map(|v| v & mask(lm)).collect();
                ensure_eq!(got, exp, "lwe-modulus-switch", "{} chi {} v {} modulus 2^{}", ctx, chi, lv, lm);
                // the message on the smaller torus
                let bound = ((1i128 << lv).saturating_mul(s1 + 1) + 1) / 2;
                if bound < 1i128 << lm.saturating_sub(4) {
                    let p = lwe_phase::<S>(&get(&z), &s) & mask(lm);
                    // compare p * 2^(bits-lm) with phase * 2^chi on the big torus
                    let up = S::bits() - lm;
                    let d = tdist::<S>(p << up, (lwe_phase::<S>(&get(&x), &s) << chi) & m).abs();
                    let bound = bound << up;
                    ensure!(d <= bound, "lwe-modulus-switch-message", "{} chi {} v {} modulus 2^{}: distance {} exceeds {}", ctx, chi, lv, lm, d, bound);
                    kinds.insert("switch-message");
                }
            }
            LinOp::Shift(o, _, _) => {
                let w = expand(&Fill::Edge, n + 1, c.seed ^ step as u64);
                set(&mut cts[*o as usize], &w);
                model[*o as usize] = lwe_phase::<S>(&get(&cts[*o as usize]), &s);
            }
        }
        for i in 0..4 {
            ensure_eq!(lwe_phase::<S>(&get(&cts[i]), &s), model[i], "lwe-linear", "slot {} after {}", i, ctx);
        }
        cov.comparisons(4);
    }
    // secret keys form a module too
    let other = lwe_key::<S>(&d, !c.uniform);
    let w = lwe_key_words::<S>(&other);
    let pair = |f: &dyn Fn(u64, u64) -> u64| -> Vec<u64> { s.iter().zip(&w).map(|(a, b)| f(*a, *b) & m).collect() };
    ensure_eq!(lwe_key_words::<S>(&(sk.clone() + other.clone())), pair(&|a, b| a.wrapping_add(b)), "key-add");
    ensure_eq!(lwe_key_words::<S>(&(sk.clone() - other.clone())), pair(&|a, b| a.wrapping_sub(b)), "key-sub");
    ensure_eq!(lwe_key_words::<S>(&(-sk.clone())), pair(&|a, _| a.wrapping_neg()), "key-neg");
    for k in &kinds {
        cov.label(format!("{}:{k}", S::NAME));
    }
    cov.nontrivial_if(kinds.len() >= 2);
    Ok(())
}

/// Fourier-domain multiplication by a plaintext polynomial with bounded coefficients.
fn fft_poly<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let n = c.n();
    let k = c.k as usize;
    let sk = glwe_key::<S>(&d, false);
    let s = glwe_key_polys::<S>(&sk, &d);
    let s1 = l1s::<S>(&s);
    let sz = n * (k + 1);
    let mut a = G::<S>::new(&d);
    gset(&mut a, &expand(&Fill::Random, sz, c.seed));
    let mut x = G::<S>::new(&d);
    gset(&mut x, &expand(&Fill::Edge, sz, c.seed ^ 1));
    let bits = 1 + c.bits as u32 % 10;
    let p: Vec<u64> = match &c.fill {
        Fill::Monomial(i, v) => expand(&Fill::Monomial(*i, v & mask(bits)), n, 0),
        _ => expand(&Fill::Small(bits), n, c.seed).iter().map(|x| x & mask(S::bits())).collect(),
    };
    let pa = glwe_phase::<S>(&ga(&mut a), &s);
    let px = glwe_phase::<S>(&ga(&mut x), &s);
    let (mut af, mut xf) = (GlweCiphertextFft::new(&d), GlweCiphertextFft::new(&d));
    a.fft(&mut af, &d);
    x.fft(&mut xf, &d);
    let mut pf = PolynomialFft::new(&vec![Complex::new(0.0, 0.0); n / 2]);
    poly::<S>(&p).fft(&mut pf);
    fft_ops::glwe_polynomial_mad(&mut xf, &af, &pf, &d);
    let mut out = G::<S>::new(&d);
    dirty::<S>(raw_mut!(out, GlweCiphertextRef, Torus<S>), c.seed);
    xf.ifft(&mut out, &d);
    let got = glwe_phase::<S>(&ga(&mut out), &s);
    let want = addp::<S>(&px, &negacyclic_mul::<S>(&pa, &p));
    let np = p.iter().map(|x| (S::signed(*x) as f64).powi(2)).sum::<f64>().sqrt();
    let na = (n as f64).sqrt() * 2f64.powi(S::bits() as i32 - 1);
    let bound = (2.0 * fft_err(n, na, np.max(1.0)) * (1.0 + s1 as f64)).ceil() as i128;
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    near::<S>(&got, &want, bound, "fourier-polynomial-mad", &format!("n {n} k {k} bits {bits}"))?;
    cov.label(format!("{}:k{}", S::NAME, k.min(3)));
    cov.nontrivial_if(p.iter().filter(|x| **x != 0).count() > 1);
    Ok(())
}

fn t08() -> Check {
    Check {
        id: "T08",
        assumptions: vec![
            "modulus-switch outputs are compared modulo the switched modulus; right shifts are by at least one place",
            "Fourier products are compared within the floating-point error bound of T03",
        ],
        subs: vec![
            sub("ring", 72000, 1000000, "1..24 operations over four raw ring ciphertexts (u32/u64, N 1..=32, k 1..=4, binary/uniform keys), phases of all slots compared exactly with a plaintext model after each; non-trivial: two kinds of operation",
                lin_case(5, 24), |c: &LinCase, cov| if c.wide { glwe_lin::<u64>(c, cov) } else { glwe_lin::<u32>(c, cov) }),
            sub("ring_large", 3600, 40000, "as ring with N up to 512 and up to 6 operations",
                lin_case(9, 7), |c: &LinCase, cov| if c.wide { glwe_lin::<u64>(c, cov) } else { glwe_lin::<u32>(c, cov) }),
            sub("scalar", 150000, 2000000, "1..30 operations over four raw scalar ciphertexts of dimension 1..256 incl. modulus switching with skipped and padded bits; non-trivial: two kinds of operation",
                lin_case(6, 30), |c: &LinCase, cov| if c.wide { lwe_lin::<u64>(c, cov) } else { lwe_lin::<u32>(c, cov) }),
            sub("fourier_polynomial", 24000, 300000, "ring ciphertexts times plaintext polynomials in the Fourier domain, N 16..=512, k 1..=3, coefficients up to 10 bits; non-trivial: more than a monomial",
                glwe_case(4..=9, 3, 8, 2), |c: &GlweCase, cov| if c.wide { fft_poly::<u64>(c, cov) } else { fft_poly::<u32>(c, cov) }),
        ],
    }
}

// ------------------------------------------------------------------------------- T09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MoveCase {
    g: GlweCase,
    rot: i64,
    h: u16,
}

fn move_case(log_n: std::ops::RangeInclusive<u8>, max_k: u8, max_log: u32, max_count: u32) -> BoxedStrategy<MoveCase> {
    glwe_case(log_n, max_k, max_log, max_count)
        .prop_flat_map(|g| {
            let n = g.n() as i64;
            let rot = prop_oneof![4 => -2 * n..=2 * n, 1 => prop::sample::select(vec![0, 1, -1, n, -n, 2 * n, -2 * n, n - 1, 1 - n, n + 1]), 1 => -40 * n..=40 * n];
            let h = prop_oneof![3 => 0..g.n() as u16, 1 => Just(0u16), 1 => Just(g.n() as u16 - 1)];
            (Just(g), rot, h)
        })
        .prop_map(|(g, rot, h)| MoveCase { g, rot, h })
        .boxed()
}

fn raw_glwe<S: Word>(d: &GlweDef, f: &Fill, seed: u64) -> G<S> {
    let sz = d.dim.polynomial_degree.0 * (d.dim.size.0 + 1);
    let mut a = G::<S>::new(d);
    let mut w = expand(f, sz, seed);
    // masks are random whatever the shape of the body
    let body = d.dim.polynomial_degree.0 * d.dim.size.0;
    w[..body].copy_from_slice(&expand(&Fill::Random, body, seed ^ 77));
    gset(&mut a, &w);
    a
}

fn rotate_extract<S: Word>(c: &MoveCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let n = c.g.n();
    let sk = glwe_key::<S>(&d, c.g.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    let ct = raw_glwe::<S>(&d, &c.g.fill, c.g.seed);
    let before = uraw(raw!(ct, GlweCiphertextRef, Torus<S>));
    let p = glwe_phase::<S>(&before, &s);
    let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 3);
    rotate_glwe_monomial_negacyclic(&mut out, &ct, c.rot as isize, &d);
    let want = monomial_mul::<S>(&p, c.rot);
    let ctx = format!("n {n} k {} rotation {}", c.g.k, c.rot);
    ensure_eq!(gphase::<S>(&out, &s), want, "rotate", "{}", ctx);
    let mut out2 = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 4);
    let mag = c.rot.unsigned_abs() as usize;
    if c.rot >= 0 {
        rotate_glwe_positive_monomial_negacyclic(&mut out2, &ct, mag, &d);
    } else {
        rotate_glwe_negative_monomial_negacyclic(&mut out2, &ct, mag, &d);
    }
    ensure_eq!(gphase::<S>(&out2, &s), want, "rotate-signed", "{}", ctx);
    // rotations compose
    let mut back = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 5);
    rotate_glwe_monomial_negacyclic(&mut back, &out, -c.rot as isize, &d);
    ensure_eq!(uraw(raw!(back, GlweCiphertextRef, Torus<S>)), before, "rotate-back", "{}", ctx);

    // extraction under the flattened key
    let h = c.h as usize;
    let flat = s.concat();
    let mut l = LweCiphertext::<S>::new(&d.as_lwe_def());
    dirty::<S>(raw_mut!(l, LweCiphertextRef, Torus<S>), c.g.seed);
    sample_extract(&mut l, &ct, h, &d);
    ensure_eq!(lphase::<S>(&l, &flat), p[h], "extract", "n {} k {} coefficient {}", n, c.g.k, h);
    ensure_eq!(sk.to_lwe_secret_key().decrypt_without_decode(&l, &d.as_lwe_def()).inner().u(), p[h], "extract-decrypt");
    if c.g.wide {
        let ct: &GlweCiphertextRef<u64> = unsafe { &*(&*ct as *const _ as *const GlweCiphertextRef<u64>) };
        let l = evaluation::sample_extract(ct, &d, h);
        ensure_eq!(lphase::<u64>(&l, &flat), p[h], "extract-high-level");
    }
    cov.label(format!("{}:{}", S::NAME, if c.rot < 0 { "left" } else { "right" }));
    cov.label_if(mag >= n, "wraps");
    cov.nontrivial_if(mag % (2 * n) != 0 || h > 0);
    cov.comparisons(5);
    Ok(())
}

fn blind<S: Word>(c: &MoveCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let n = c.g.n();
    let k = c.g.k as usize;
    let r = c.g.r.rad();
    let sk = glwe_key::<S>(&d, false);
    let s = glwe_key_polys::<S>(&sk, &d);
    let s1 = l1s::<S>(&s);
    let bound = c.g.log_n as i128 * ext_bound::<S>(n, k, &c.g.r, 1, s1, noise12::<S>(d.std.0), true);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let rot = (c.rot.unsigned_abs() as usize) % n;
    let mut shift = BlindRotationShiftFft::new(&d, &r);
    // any plaintext width holds a bit
    generate_blind_rotation_shift::<S>(&mut shift, rot, &sk, &d, &r, PlaintextBits(1 + (c.h as u32 % (S::bits() - 1))));
    let ct = raw_glwe::<S>(&d, &c.g.fill, c.g.seed);
    let p = gphase::<S>(&ct, &s);
    let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 3);
    blind_rotation(&mut out, &shift, &ct, &d, &r);
    near::<S>(&gphase::<S>(&out, &s), &monomial_mul::<S>(&p, -(rot as i64)), bound, "blind-rotation", &format!("n {n} k {k} rotation {rot} {:?}", c.g.r))?;
    cov.label(format!("{}:k{}", S::NAME, k));
    cov.label_if(c.g.std == 0, "noiseless");
    cov.nontrivial_if(rot != 0);
    Ok(())
}

fn trace_check<S: Word>(c: &MoveCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let n = c.g.n();
    let k = c.g.k as usize;
    let r = c.g.r.rad();
    let sk = glwe_key::<S>(&d, false);
    let s = glwe_key_polys::<S>(&sk, &d);
    let s1 = l1s::<S>(&s);
    // e' = 2e + ks over log2(n) stages
    let bound = (n as i128 - 1) * ks_bound::<S>(n, k, &c.g.r, s1, s1, noise12::<S>(d.std.0), true);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let mut ak = AutomorphismKey::<S>::new(&d, &r);
    generate_automorphism_key(&mut ak, &sk, &d, &r);
    let mut akf = AutomorphismKeyFft::new(&d, &r);
    ak.fft(&mut akf, &d, &r);
    let ct = raw_glwe::<S>(&d, &c.g.fill, c.g.seed);
    let p = gphase::<S>(&ct, &s);
    let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 3);
    trace(&mut out, &ct, &akf, &d, &r);
    let want = constant(n, p[0].wrapping_mul(n as u64) & mask(S::bits()));
    near::<S>(&gphase::<S>(&out, &s), &want, bound, "trace", &format!("n {n} k {k} {:?}", c.g.r))?;
    cov.label(format!("{}:k{}", S::NAME, k));
    cov.label_if(c.g.std == 0, "noiseless");
    cov.nontrivial_if(want[0] != 0);
    Ok(())
}

fn t09() -> Check {
    Check {
        id: "T09",
        assumptions: vec![
            "blind rotation and trace are judged where the worst-case error bound stays below 1/16 of the torus",
            "rotations are tried up to 40 times the ring degree in either direction",
        ],
        subs: vec![
            sub("rotate_extract", 360000, 5000000, "any raw ring ciphertext (u32/u64, N 1..=128, k 1..=4, binary/uniform keys), rotations -40N..40N, every coefficient; exact; non-trivial: rotation not 0 mod 2N or coefficient not 0",
                move_case(0..=7, 4, 8, 2), |c: &MoveCase, cov| if c.g.wide { rotate_extract::<u64>(c, cov) } else { rotate_extract::<u32>(c, cov) }),
            sub("rotate_extract_large", 6000, 100000, "as rotate_extract, N 256..=2048",
                move_case(8..=11, 2, 8, 2), |c: &MoveCase, cov| if c.g.wide { rotate_extract::<u64>(c, cov) } else { rotate_extract::<u32>(c, cov) }),
            sub("blind_rotation", 9000, 120000, "rotation by an encrypted amount, N 16..=128, k 1..=3, any radix with digits up to 12 bits; counted only where the error bound is meaningful; non-trivial: amount not 0",
                move_case(4..=7, 3, 12, 8), |c: &MoveCase, cov| if c.g.wide { blind::<u64>(c, cov) } else { blind::<u32>(c, cov) }),
            sub("trace", 9000, 120000, "homomorphic trace, N 16..=256, k 1..=3; non-trivial: constant coefficient not 0",
                move_case(4..=8, 3, 12, 8), |c: &MoveCase, cov| if c.g.wide { trace_check::<u64>(c, cov) } else { trace_check::<u32>(c, cov) }),
        ],
    }
}
