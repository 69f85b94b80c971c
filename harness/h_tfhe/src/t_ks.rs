//! T10 key switching, T11 external products and multiplexing.
use crate::common::*;
use crate::fhe::*;
use crate::t_enc::{cbs_messages, glwe_case, GlweCase};
use num::Complex;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{
    entities::*,
    high_level::{evaluation, keygen},
    ops::{
        ciphertext::*,
        encryption::*,
        fft_ops,
        keyswitch::{
            glwe_keyswitch::keyswitch_glwe_to_glwe, glwe_keyswitch_key::generate_keyswitch_key_glwe,
            lwe_keyswitch::keyswitch_lwe_to_lwe, lwe_keyswitch_key::generate_keyswitch_key_lwe,
            private_functional_keyswitch::*, public_functional_keyswitch::*,
        },
    },
    radix::{PolynomialRadixIterator, ScalarRadixIterator},
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

pub fn checks() -> Vec<Check> {
    vec![t10(), t11()]
}

pub fn raw_lwe<S: Word>(d: &LweDef, f: &Fill, seed: u64) -> LweCiphertext<S> {
    let mut x = LweCiphertext::<S>::new(d);
    let w = expand(f, d.dim.0 + 1, seed);
    for (a, b) in raw_mut!(x, LweCiphertextRef, Torus<S>).iter_mut().zip(w) {
        *a = t::<S>(b);
    }
    x
}
pub fn raw_glwe<S: Word>(d: &GlweDef, f: &Fill, seed: u64) -> GlweCiphertext<S> {
    let mut x = GlweCiphertext::<S>::new(d);
    let w = expand(f, d.dim.polynomial_degree.0 * (d.dim.size.0 + 1), seed);
    for (a, b) in raw_mut!(x, GlweCiphertextRef, Torus<S>).iter_mut().zip(w) {
        *a = t::<S>(b);
    }
    x
}
pub fn raw_glev<S: Word>(d: &GlweDef, r: &RadixDecomposition, seed: u64) -> GlevCiphertext<S> {
    let mut x = GlevCiphertext::<S>::new(d, r);
    let raw = raw_mut!(x, GlevCiphertextRef, Torus<S>);
    let w = expand(&Fill::Random, raw.len(), seed);
    for (a, b) in raw.iter_mut().zip(w) {
        *a = t::<S>(b);
    }
    x
}

// ------------------------------------------------------------------------------- T10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LksCase {
    wide: bool,
    from: u16,
    to: u16,
    from_uniform: bool,
    to_uniform: bool,
    std: u8,
    r: Rx,
    fill: Fill,
    seed: u64,
}

fn lks_case(max: u16, max_log: u32, max_count: u32) -> BoxedStrategy<LksCase> {
    any::<bool>()
        .prop_flat_map(move |wide| {
            let w = if wide { 64 } else { 32 };
            (Just(wide), 1..=max, 1..=max, 0u8..4, std_log(wide), rx(w, max_log, max_count), fill(), any::<u64>())
        })
        .prop_map(|(wide, from, to, u, std, r, fill, seed)| LksCase { wide, from, to, from_uniform: u & 1 == 1, to_uniform: u & 2 == 2, std, r, fill, seed })
        .boxed()
}

fn lwe_ks<S: Word>(c: &LksCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let (from, to) = (lwe_def(c.from as usize, 0.0), lwe_def(c.to as usize, std_of(c.std)));
    let r = c.r.rad();
    let fk = lwe_key::<S>(&from, c.from_uniform);
    let tk = lwe_key::<S>(&to, c.to_uniform);
    let (fs, ts) = (lwe_key_words::<S>(&fk), lwe_key_words::<S>(&tk));
    let n12 = noise12::<S>(to.std.0);
    let digits = 1i128 << (c.r.log() - 1);
    let bound = (c.r.round_unit::<S>().saturating_mul(l1::<S>(&fs))).saturating_add((c.from as i128 * c.r.count() as i128 * digits).saturating_mul(n12));
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let mut ksk = LweKeyswitchKey::<S>::new(&from, &to, &r);
    dirty::<S>(raw_mut!(ksk, LweKeyswitchKeyRef, Torus<S>), c.seed);
    generate_keyswitch_key_lwe(&mut ksk, &fk, &tk, &from, &to, &r);
    let ctx = format!("{} -> {} radix {:?} std 2^-{}", c.from, c.to, c.r, c.std);
    for (i, (ct, seed)) in [(&c.fill, c.seed), (&Fill::Random, c.seed ^ 1), (&Fill::Edge, c.seed ^ 2)].into_iter().enumerate() {
        let ct = raw_lwe::<S>(&from, ct, seed);
        let p = lphase::<S>(&ct, &fs);
        let mut out = raw_lwe::<S>(&to, &Fill::Random, c.seed ^ 8);
        keyswitch_lwe_to_lwe(&mut out, &ct, &ksk, &from, &to, &r);
        near::<S>(&[lphase::<S>(&out, &ts)], &[p], bound, "lwe-keyswitch", &ctx)?;
        if c.wide && i == 0 {
            let ct: &LweCiphertextRef<u64> = unsafe { &*(&*ct as *const _ as *const LweCiphertextRef<u64>) };
            let (fk, tk): (&LweSecretKeyRef<u64>, &LweSecretKeyRef<u64>) = unsafe { (&*(&*fk as *const _ as *const _), &*(&*tk as *const _ as *const _)) };
            let key = keygen::generate_ksk(fk, tk, &from, &to, &r);
            let out = evaluation::keyswitch_lwe_to_lwe(ct, &key, &from, &to, &r);
            near::<u64>(&[lphase::<u64>(&out, &ts)], &[p], bound, "lwe-keyswitch-high-level", &ctx)?;
        }
    }
    // the gadget product accumulates
    let x = raw_lwe::<S>(&to, &Fill::Random, c.seed ^ 9);
    let mut acc = x.clone();
    let row = ksk.rows(&to, &r).next().unwrap();
    let v = Sm(c.seed).next() & mask(S::bits());
    let mut scratch = poly::<S>(&[0]);
    let tv = tpoly::<S>(&[v]);
    decomposed_scalar_lev_mad(&mut acc, PolynomialRadixIterator::new(&tv, &mut scratch, &r), row, &to);
    let want = lphase::<S>(&x, &ts).wrapping_add(v.wrapping_mul(fs[0])) & mask(S::bits());
    near::<S>(&[lphase::<S>(&acc, &ts)], &[want], bound, "scalar-lev-mad", &ctx)?;
    cov.label(format!("{}:{}-{}", S::NAME, if c.from_uniform { "uniform" } else { "binary" }, if c.to_uniform { "uniform" } else { "binary" }));
    cov.label_if(c.r.exact::<S>(), "exact-radix");
    cov.label_if(bound == 0, "error-free");
    cov.nontrivial_if(c.from != c.to);
    Ok(())
}

fn glwe_ks<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let (n, k) = (c.n(), c.k as usize);
    let r = c.r.rad();
    // the seed decides which keys are uniform; rounding errors scale with the source key
    let fk = glwe_key::<S>(&d, c.uniform && c.seed & 1 == 1);
    let tk = glwe_key::<S>(&d, c.uniform && c.seed & 2 == 2);
    let (fs, ts) = (glwe_key_polys::<S>(&fk, &d), glwe_key_polys::<S>(&tk, &d));
    let n12 = noise12::<S>(d.std.0);
    let (f1, t1) = (l1s::<S>(&fs), l1s::<S>(&ts));
    let bound = ks_bound::<S>(n, k, &c.r, f1, t1, n12, false);
    let fbound = ks_bound::<S>(n, k, &c.r, f1, t1, n12, true);
    if !meaningful::<S>(bound) && !meaningful::<S>(fbound) {
        return Ok(());
    }
    let mut ksk = GlweKeyswitchKey::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(ksk, GlweKeyswitchKeyRef, Torus<S>), c.seed);
    generate_keyswitch_key_glwe(&mut ksk, &fk, &tk, &d, &r);
    let want: Vec<_> = fs.iter().flat_map(|s| glev_messages::<S>(s, &c.r)).collect();
    near_all::<S>(&phases::<S>(&uraw(raw!(ksk, GlweKeyswitchKeyRef, Torus<S>)), &ts), &want, n12, "glwe-keyswitch-key", "")?;
    let ct = raw_glwe::<S>(&d, &c.fill, c.seed ^ 4);
    let p = gphase::<S>(&ct, &fs);
    let ctx = format!("n {n} k {k} radix {:?} std 2^-{}", c.r, c.std);
    if meaningful::<S>(bound) {
        let mut out = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 8);
        keyswitch_glwe_to_glwe(&mut out, &ct, &ksk, &d, &r);
        near::<S>(&gphase::<S>(&out, &ts), &p, bound, "glwe-keyswitch", &ctx)?;
        cov.label(format!("{}:coefficient", S::NAME));
    }
    if meaningful::<S>(fbound) && n >= 16 {
        let mut kf = GlweKeyswitchKeyFft::new(&d, &r);
        ksk.fft(&mut kf, &d, &r);
        let mut out = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 9);
        fft_ops::keyswitch_glwe_to_glwe(&mut out, &ct, &kf, &d, &r);
        near::<S>(&gphase::<S>(&out, &ts), &p, fbound, "glwe-keyswitch-fourier", &ctx)?;
        cov.label(format!("{}:fourier", S::NAME));
    }
    cov.label_if(bound == 0, "error-free");
    cov.nontrivial_if(p.iter().any(|x| *x != 0));
    Ok(())
}

/// A generated integer-linear map from `inputs` torus values to polynomials: input, coefficient,
/// multiplier. Entries may repeat, so they must accumulate into a cleared polynomial.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FksCase {
    g: GlweCase,
    from: u16,
    from_uniform: bool,
    inputs: u8,
    map: Vec<(u8, u16, i8)>,
}

fn fks_case(log_n: std::ops::RangeInclusive<u8>, max_from: u16, max_inputs: u8) -> BoxedStrategy<FksCase> {
    (glwe_case(log_n, 3, 16, 6), 1..=max_from, prop::bool::weighted(0.2), 1..=max_inputs, prop::collection::vec((any::<u8>(), any::<u16>(), -3i8..=3), 0..12), any::<bool>())
        .prop_map(|(g, from, from_uniform, inputs, mut map, packing)| {
            let inputs = inputs.min(g.n() as u8);
            if packing {
                map = (0..inputs).map(|i| (i, i as u16, 1)).collect();
            }
            FksCase { g, from, from_uniform, inputs, map }
        })
        .boxed()
}

fn apply<S: Word>(map: &[(u8, u16, i8)], n: usize, x: &[u64]) -> Vec<u64> {
    let mut p = vec![0u64; n];
    for (i, c, m) in map {
        let c = *c as usize % n;
        p[c] = p[c].wrapping_add(x[*i as usize % x.len()].wrapping_mul(*m as i64 as u64)) & mask(S::bits());
    }
    p
}
/// Largest total multiplier on one coefficient.
fn map_norm(map: &[(u8, u16, i8)], n: usize) -> i128 {
    let mut p = vec![0i128; n];
    for (_, c, m) in map {
        p[*c as usize % n] += m.unsigned_abs() as i128;
    }
    p.into_iter().max().unwrap_or(0)
}

fn public_fks<S: Word>(c: &FksCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let (n, k) = (c.g.n(), c.g.k as usize);
    let r = c.g.r.rad();
    let from = lwe_def(c.from as usize, 0.0);
    let fk = lwe_key::<S>(&from, c.from_uniform);
    let tk = glwe_key::<S>(&d, false);
    let fs = lwe_key_words::<S>(&fk);
    let ts = glwe_key_polys::<S>(&tk, &d);
    let bound = ks_bound::<S>(n, c.from as usize, &c.g.r, l1::<S>(&fs), l1s::<S>(&ts), noise12::<S>(d.std.0), true);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let mut key = PublicFunctionalKeyswitchKey::<S>::new(&from, &d, &r);
    generate_public_functional_keyswitch_key(&mut key, &fk, &tk, &from, &d, &r);
    let inputs: Vec<_> = (0..c.inputs as u64).map(|i| raw_lwe::<S>(&from, if i == 0 { &c.g.fill } else { &Fill::Random }, c.g.seed ^ i)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = inputs.iter().map(|x| x.as_ref()).collect();
    let ph: Vec<u64> = inputs.iter().map(|x| lphase::<S>(x, &fs)).collect();
    let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 50);
    let map = &c.map;
    let f = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        for (i, pos, m) in map {
            let v = &mut p.coeffs_mut()[*pos as usize % n];
            *v = t::<S>(v.inner().u().wrapping_add(x[*i as usize % x.len()].inner().u().wrapping_mul(*m as i64 as u64)));
        }
    };
    public_functional_keyswitch(&mut out, &refs, &key, f, &from, &d, &r);
    near::<S>(&gphase::<S>(&out, &ts), &apply::<S>(map, n, &ph), bound, "public-functional-keyswitch", &format!("dim {} inputs {} n {n} k {k} radix {:?}", c.from, c.inputs, c.g.r))?;
    cov.label(format!("{}:inputs{}", S::NAME, if c.inputs > 3 { "4+".into() } else { c.inputs.to_string() }));
    cov.nontrivial_if(!map.is_empty());
    Ok(())
}

fn private_fks<S: Word>(c: &FksCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let (n, k) = (c.g.n(), c.g.k as usize);
    let r = c.g.r.rad();
    let from = lwe_def(c.from as usize, 0.0);
    let fk = lwe_key::<S>(&from, c.from_uniform);
    let tk = glwe_key::<S>(&d, c.g.uniform);
    let fs = lwe_key_words::<S>(&fk);
    let ts = glwe_key_polys::<S>(&tk, &d);
    let n12 = noise12::<S>(d.std.0);
    let digits = 1i128 << (c.g.r.log() - 1);
    let words = c.inputs as i128 * (c.from as i128 + 1);
    let bound = (c.g.r.round_unit::<S>().saturating_mul((l1::<S>(&fs) + 1) * map_norm(&c.map, n))).saturating_add((words * c.g.r.count() as i128 * digits).saturating_mul(n12));
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let cnt = PrivateFunctionalKeyswitchLweCount(c.inputs as usize);
    let mut key = PrivateFunctionalKeyswitchKey::<S>::new(&from, &d, &r, &cnt);
    let map = c.map.clone();
    let f = move |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
        for (i, pos, m) in &map {
            let v = &mut p.coeffs_mut()[*pos as usize % n];
            *v = t::<S>(v.inner().u().wrapping_add(x[*i as usize % x.len()].inner().u().wrapping_mul(*m as i64 as u64)));
        }
    };
    generate_private_functional_keyswitch_key(&mut key, &fk, &tk, f, &from, &d, &r, &cnt);
    let inputs: Vec<_> = (0..c.inputs as u64).map(|i| raw_lwe::<S>(&from, if i == 0 { &c.g.fill } else { &Fill::Random }, c.g.seed ^ i)).collect();
    let refs: Vec<&LweCiphertextRef<S>> = inputs.iter().map(|x| x.as_ref()).collect();
    let ph: Vec<u64> = inputs.iter().map(|x| lphase::<S>(x, &fs)).collect();
    let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 50);
    private_functional_keyswitch(&mut out, &refs, &key, &from, &d, &r, &cnt);
    near::<S>(&gphase::<S>(&out, &ts), &apply::<S>(&c.map, n, &ph), bound, "private-functional-keyswitch", &format!("dim {} inputs {} n {n} k {k} radix {:?}", c.from, c.inputs, c.g.r))?;
    cov.label(format!("{}:inputs{}", S::NAME, if c.inputs > 3 { "4+".into() } else { c.inputs.to_string() }));
    cov.label_if(bound == 0, "error-free");
    cov.nontrivial_if(!c.map.is_empty());
    Ok(())
}

/// The keys circuit bootstrapping switches with: each applies x -> -x*s_i, the last x -> x.
fn cbs_keys<S: Word>(c: &FksCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let (n, k) = (c.g.n(), c.g.k as usize);
    let r = c.g.r.rad();
    let from = lwe_def(c.from as usize, 0.0);
    let fk = lwe_key::<S>(&from, c.from_uniform);
    let tk = glwe_key::<S>(&d, c.g.uniform);
    let fs = lwe_key_words::<S>(&fk);
    let ts = glwe_key_polys::<S>(&tk, &d);
    let n12 = noise12::<S>(d.std.0);
    let mut key = CircuitBootstrappingKeyswitchKeys::<S>::new(&from, &d, &r);
    dirty::<S>(raw_mut!(key, CircuitBootstrappingKeyswitchKeysRef, Torus<S>), c.g.seed);
    generate_circuit_bootstrapping_pfks_keys(&mut key, &fk, &tk, &from, &d, &r);
    let got = phases::<S>(&uraw(raw!(key, CircuitBootstrappingKeyswitchKeysRef, Torus<S>)), &ts);
    near_all::<S>(&got, &cbs_messages::<S>(&fs, &ts, &c.g.r), n12, "circuit-bootstrap-key", "")?;
    let digits = 1i128 << (c.g.r.log() - 1);
    let input = raw_lwe::<S>(&from, &c.g.fill, c.g.seed ^ 3);
    let ph = lphase::<S>(&input, &fs);
    let keys: Vec<_> = key.keys(&from, &d, &r).collect();
    ensure_eq!(keys.len(), k + 1, "circuit-bootstrap-key-count");
    let mut judged = 0;
    for (i, pk) in keys.iter().enumerate() {
        let m = if i < k { ts[i].iter().map(|s| S::signed(*s).abs()).max().unwrap() } else { 1 };
        let bound = (c.g.r.round_unit::<S>().saturating_mul((l1::<S>(&fs) + 1).saturating_mul(m))).saturating_add(((c.from as i128 + 1) * c.g.r.count() as i128 * digits).saturating_mul(n12));
        if !meaningful::<S>(bound) {
            continue;
        }
        judged += 1;
        let mut out = raw_glwe::<S>(&d, &Fill::Random, c.g.seed ^ 50);
        private_functional_keyswitch(&mut out, &[input.as_ref()], pk, &from, &d, &r, &PrivateFunctionalKeyswitchLweCount(1));
        let want: Vec<u64> = if i < k { ts[i].iter().map(|s| ph.wrapping_mul(*s).wrapping_neg() & mask(S::bits())).collect() } else { constant(n, ph) };
        near::<S>(&gphase::<S>(&out, &ts), &want, bound, "circuit-bootstrap-keyswitch", &format!("key {i} of {k}+1 n {n} dim {} radix {:?}", c.from, c.g.r))?;
    }
    cov.label(format!("{}:{}", S::NAME, if judged > 0 { "switched" } else { "key-only" }));
    cov.nontrivial_if(judged > 0);
    Ok(())
}

/// <decomposition(a), gadget-vector(m)> = a*m, accumulated.
fn gadget_product<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let (n, k) = (c.n(), c.k as usize);
    let r = c.r.rad();
    let sk = glwe_key::<S>(&d, c.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    let n12 = noise12::<S>(d.std.0);
    // small messages so that rounding the decomposed operand is bounded
    let bits = 1 + c.bits as u32 % 8;
    let m: Vec<u64> = expand(&c.fill, n, c.seed).iter().map(|x| x & mask(bits)).collect();
    let m1 = l1::<S>(&m);
    let mut lev = GlevCiphertext::<S>::new(&d, &r);
    encrypt_secret_glev_ciphertext(&mut lev, &tpoly::<S>(&m), &sk, &d, &r);
    let x = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 2);
    let px = gphase::<S>(&x, &s);
    let a = expand(&Fill::Random, n, c.seed ^ 3).iter().map(|x| x & mask(S::bits())).collect::<Vec<_>>();
    let digits = 1i128 << (c.r.log() - 1);
    let rows = c.r.count() as i128;
    let bound = (c.r.round_unit::<S>() * m1).saturating_add((rows * n as i128 * digits).saturating_mul(n12));
    let ctx = format!("n {n} k {k} radix {:?} message bits {bits}", c.r);
    let want = addp::<S>(&px, &negacyclic_mul::<S>(&a, &m));
    let mut judged = false;
    if meaningful::<S>(bound) {
        judged = true;
        let mut acc = x.clone();
        let mut scratch = poly::<S>(&expand(&Fill::Random, n, 5));
        let ta = tpoly::<S>(&a);
        decomposed_polynomial_glev_mad(&mut acc, PolynomialRadixIterator::new(&ta, &mut scratch, &r), &lev, &d);
        near::<S>(&gphase::<S>(&acc, &s), &want, bound, "polynomial-glev-mad", &ctx)?;
        // scalar operand
        let bound = (c.r.round_unit::<S>() * (1i128 << bits)).saturating_add((rows * digits).saturating_mul(n12));
        let mut acc = x.clone();
        decomposed_scalar_glev_mad(&mut acc, ScalarRadixIterator::new(t::<S>(a[0]), &r), &lev, &d);
        let want = addp::<S>(&px, &m.iter().map(|v| v.wrapping_mul(a[0]) & mask(S::bits())).collect::<Vec<_>>());
        near::<S>(&gphase::<S>(&acc, &s), &want, bound, "scalar-glev-mad", &ctx)?;
    }
    if n >= 16 && !c.uniform {
        let s1 = l1s::<S>(&s);
        let na = (n as f64).sqrt() * 2f64.powi(S::bits() as i32 - 1);
        let fft = (((rows + 1) as f64 * fft_err(n, (n as f64).sqrt() * digits as f64, na)) * (1.0 + s1 as f64)).ceil() as i128;
        if meaningful::<S>(bound.saturating_add(fft)) {
            judged = true;
            let mut buf: aligned_vec::AVec<Complex<f64>> = aligned_vec::AVec::new(64);
            buf.resize(GlevCiphertextFftRef::<Complex<f64>>::size((d.dim, r.count)), Complex::new(0.0, 0.0));
            let lf = unsafe { &mut *(buf.as_mut_slice() as *mut [Complex<f64>] as *mut GlevCiphertextFftRef<Complex<f64>>) };
            let mut xf = GlweCiphertextFft::new(&d);
            lev.fft(lf, &d);
            x.fft(&mut xf, &d);
            let mut scratch = poly::<S>(&expand(&Fill::Random, n, 6));
            let ta = tpoly::<S>(&a);
            fft_ops::decomposed_polynomial_glev_mad(&mut xf, PolynomialRadixIterator::new(&ta, &mut scratch, &r), lf, &d);
            let mut acc = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 7);
            xf.ifft(&mut acc, &d);
            near::<S>(&gphase::<S>(&acc, &s), &want, bound + fft, "polynomial-glev-mad-fourier", &ctx)?;
            cov.label(format!("{}:fourier", S::NAME));
        }
    }
    cov.label_if(judged, S::NAME);
    cov.nontrivial_if(judged && m.iter().any(|x| *x != 0));
    Ok(())
}

fn t10() -> Check {
    Check {
        id: "T10",
        assumptions: vec![
            "cases count where the worst-case error bound (rounding, 12 sigma of key noise, Fourier error) is below 1/16 of the torus; many are error-free and judged exactly",
            "functional maps are integer-linear and rely on the cleared output polynomial they are promised",
        ],
        subs: vec![
            sub("lwe", 72000, 1000000, "scalar key switching between dimensions 1..=160, u32/u64, binary/uniform keys, any radix up to 20-bit digits, any noise, any raw ciphertext, dirty outputs; non-trivial: dimensions differ",
                lks_case(160, 20, 64), |c: &LksCase, cov| if c.wide { lwe_ks::<u64>(c, cov) } else { lwe_ks::<u32>(c, cov) }),
            sub("glwe", 48000, 600000, "ring key switching, coefficient and Fourier keys, N 1..=128, k 1..=4; non-trivial: message not 0",
                glwe_case(0..=7, 4, 16, 32), |c: &GlweCase, cov| if c.wide { glwe_ks::<u64>(c, cov) } else { glwe_ks::<u32>(c, cov) }),
            sub("public_functional", 30000, 400000, "public functional key switching of 1..=16 inputs of dimension 1..=24 through generated integer-linear maps, N 16..=64; non-trivial: map not empty",
                fks_case(4..=6, 24, 16), |c: &FksCase, cov| if c.g.wide { public_fks::<u64>(c, cov) } else { public_fks::<u32>(c, cov) }),
            sub("private_functional", 30000, 400000, "private functional key switching of 1..=6 inputs, N 1..=64; non-trivial: map not empty",
                fks_case(0..=6, 24, 6), |c: &FksCase, cov| if c.g.wide { private_fks::<u64>(c, cov) } else { private_fks::<u32>(c, cov) }),
            sub("circuit_bootstrap_keys", 24000, 300000, "the k+1 private keys of circuit bootstrapping, entry by entry and applied; non-trivial: applied within a meaningful bound",
                fks_case(0..=6, 24, 1), |c: &FksCase, cov| if c.g.wide { cbs_keys::<u64>(c, cov) } else { cbs_keys::<u32>(c, cov) }),
            sub("gadget_product", 48000, 600000, "decomposed polynomial/scalar times gadget-vector, accumulated into a non-zero ciphertext, both domains; non-trivial: message not 0",
                glwe_case(0..=7, 4, 16, 32), |c: &GlweCase, cov| if c.wide { gadget_product::<u64>(c, cov) } else { gadget_product::<u32>(c, cov) }),
        ],
    }
}

// ------------------------------------------------------------------------------- T11

fn ggsw<S: Word>(m: &[u64], sk: &GlweSecretKeyRef<S>, d: &GlweDef, r: &RadixDecomposition, bits: u32) -> GgswCiphertext<S> {
    let mut g = GgswCiphertext::<S>::new(d, r);
    encrypt_ggsw_ciphertext(&mut g, &poly::<S>(m), sk, d, r, PlaintextBits(bits));
    g
}
fn gfft<S: Word>(g: &GgswCiphertextRef<S>, d: &GlweDef, r: &RadixDecomposition) -> GgswCiphertextFft<Complex<f64>> {
    let mut f = GgswCiphertextFft::new(d, r);
    g.fft(&mut f, d, r);
    if S::BITS == 64 {
        // the convenience form
        let g: &GgswCiphertextRef<u64> = unsafe { &*(g as *const _ as *const _) };
        f = high_level::fft::fft_ggsw(g, d, r);
    }
    f
}

fn ext_product<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let (n, k) = (c.n(), c.k as usize);
    let r = c.r.rad();
    let sk = glwe_key::<S>(&d, c.uniform && c.r.exact::<S>());
    let s = glwe_key_polys::<S>(&sk, &d);
    let s1 = l1s::<S>(&s);
    let bits = 1 + c.bits as u32 % 8;
    let m: Vec<u64> = match &c.fill {
        // small sparse messages are the common use
        Fill::Small(_) => {
            let mut p = vec![0; n];
            let mut q = Sm(c.seed);
            for _ in 0..3 {
                p[q.below(n as u64) as usize] = q.next() & mask(bits);
            }
            p
        }
        f => expand(f, n, c.seed).iter().map(|x| x & mask(bits)).collect(),
    };
    let m1 = l1::<S>(&m);
    let n12 = noise12::<S>(d.std.0);
    let bound = ext_bound::<S>(n, k, &c.r, m1, s1, n12, false);
    let fbound = ext_bound::<S>(n, k, &c.r, m1, s1, n12, true);
    if !meaningful::<S>(bound) && !meaningful::<S>(fbound) {
        return Ok(());
    }
    let g = ggsw::<S>(&m, &sk, &d, &r, bits);
    let a = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 1);
    let x = raw_glwe::<S>(&d, &Fill::Edge, c.seed ^ 2);
    let (pa, px) = (gphase::<S>(&a, &s), gphase::<S>(&x, &s));
    let prod = negacyclic_mul::<S>(&pa, &m);
    let ctx = format!("n {n} k {k} radix {:?} std 2^-{} message bits {bits}", c.r, c.std);
    if meaningful::<S>(bound) {
        near::<S>(&gphase::<S>(&external_product_ggsw_glwe(&g, &a, &d, &r), &s), &prod, bound, "external-product", &ctx)?;
        near::<S>(&gphase::<S>(&a.external_product(&g, &d, &r), &s), &prod, bound, "external-product-glwe-method", &ctx)?;
        near::<S>(&gphase::<S>(&g.external_product(&a, &d, &r), &s), &prod, bound, "external-product-ggsw-method", &ctx)?;
        let mut acc = x.clone();
        glwe_ggsw_mad(&mut acc, &a, &g, &d, &r);
        near::<S>(&gphase::<S>(&acc, &s), &addp::<S>(&px, &prod), bound, "glwe-ggsw-mad", &ctx)?;
        cov.label(format!("{}:coefficient", S::NAME));
    }
    if meaningful::<S>(fbound) && n >= 16 {
        let gf = gfft::<S>(&g, &d, &r);
        let mut xf = GlweCiphertextFft::new(&d);
        x.fft(&mut xf, &d);
        fft_ops::glwe_ggsw_mad(&mut xf, &a, &gf, &d, &r);
        let mut acc = raw_glwe::<S>(&d, &Fill::Random, c.seed ^ 9);
        xf.ifft(&mut acc, &d);
        near::<S>(&gphase::<S>(&acc, &s), &addp::<S>(&px, &prod), fbound, "glwe-ggsw-mad-fourier", &ctx)?;
        cov.label(format!("{}:fourier", S::NAME));
    }
    cov.label_if(bound == 0, "error-free");
    cov.nontrivial_if(m1 > 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MuxCase {
    g: GlweCase,
    levels: u8,
    /// selector, d0, d1, destination
    steps: Vec<(u8, u8, u8, u8)>,
}

fn mux_case(log_n: std::ops::RangeInclusive<u8>, max_steps: usize) -> BoxedStrategy<MuxCase> {
    (glwe_case(log_n, 3, 12, 8), 1u8..=5, prop::collection::vec((0u8..4, 0u8..4, 0u8..4, 0u8..4), 1..=max_steps))
        .prop_map(|(g, levels, steps)| MuxCase { g, levels, steps })
        .boxed()
}

fn mux<S: Word>(c: &MuxCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let (n, k) = (c.g.n(), c.g.k as usize);
    let r = c.g.r.rad();
    let sk = glwe_key::<S>(&d, false);
    let s = glwe_key_polys::<S>(&sk, &d);
    let one = ext_bound::<S>(n, k, &c.g.r, 1, l1s::<S>(&s), noise12::<S>(d.std.0), true);
    if !meaningful::<S>(one) {
        return Ok(());
    }
    // selectors: 0, 1 and two drawn from the seed, under any plaintext width
    let bits: Vec<u64> = vec![0, 1, c.g.seed & 1, c.g.seed >> 1 & 1];
    let w = 1 + c.g.bits as u32 % (S::bits() - 1);
    let sel: Vec<_> = bits.iter().map(|b| gfft::<S>(&ggsw::<S>(&constant(n, *b), &sk, &d, &r, w), &d, &r)).collect();
    let mut cts: Vec<_> = (0..4u64).map(|i| raw_glwe::<S>(&d, if i == 0 { &c.g.fill } else { &Fill::Random }, c.g.seed ^ i)).collect();
    let mut model: Vec<Vec<u64>> = cts.iter().map(|x| gphase::<S>(x, &s)).collect();
    let mut err = vec![0i128; 4];
    let mut deep = 0;
    for (i, (b, x, y, o)) in c.steps.iter().enumerate() {
        let (b, x, y, o) = (*b as usize, *x as usize, *y as usize, *o as usize);
        let pick = if bits[b] == 1 { y } else { x };
        let ctx = format!("step {i}: select({}) slot {x} / slot {y}; n {n} k {k} radix {:?} std 2^-{} width {w}", bits[b], c.g.r, c.g.std);
        let e = err[pick] + one;
        if !meaningful::<S>(e) {
            break;
        }
        let out = if c.g.wide && i % 2 == 1 {
            let f = |v: &GlweCiphertext<S>| -> Vec<u64> { uraw(raw!(*v, GlweCiphertextRef, Torus<S>)) };
            let (a, bb) = (GlweCiphertext::<u64>::from_slice(&f(&cts[x]), &d), GlweCiphertext::<u64>::from_slice(&f(&cts[y]), &d));
            let res = evaluation::cmux(&sel[b], &a, &bb, &d, &r);
            GlweCiphertext::<S>::from_slice(&uraw(raw!(res, GlweCiphertextRef, Torus<u64>)).iter().map(|v| S::of(*v)).collect::<Vec<_>>(), &d)
        } else {
            let mut out = GlweCiphertext::<S>::new(&d);
            fft_ops::cmux(&mut out, &cts[x], &cts[y], &sel[b], &d, &r);
            out
        };
        cts[o] = out;
        // the message selected is the model's; errors add up along the chain
        model[o] = model[pick].clone();
        err[o] = e;
        near::<S>(&gphase::<S>(&cts[o], &s), &model[o], e, "cmux", &ctx)?;
        deep += 1;
        cov.comparisons(1);
    }
    cov.label(format!("{}:k{}", S::NAME, k));
    cov.label(match deep {
        0..=1 => "depth1",
        2..=4 => "depth2-4",
        _ => "depth5+",
    });
    cov.nontrivial_if(deep > 1);
    Ok(())
}

fn glev_mux<S: Word>(c: &MuxCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.g.seed);
    let d = c.g.def();
    let (n, k) = (c.g.n(), c.g.k as usize);
    let r = c.g.r.rad();
    let sk = glwe_key::<S>(&d, false);
    let s = glwe_key_polys::<S>(&sk, &d);
    let one = ext_bound::<S>(n, k, &c.g.r, 1, l1s::<S>(&s), noise12::<S>(d.std.0), true);
    if !meaningful::<S>(one) {
        return Ok(());
    }
    let b = c.g.seed & 1;
    let w = 1 + c.g.bits as u32 % (S::bits() - 1);
    let sel = gfft::<S>(&ggsw::<S>(&constant(n, b), &sk, &d, &r, w), &d, &r);
    // the operands' own radix is independent of the selector's
    let lr = rad(2, c.levels as usize);
    let (x, y) = (raw_glev::<S>(&d, &lr, c.g.seed ^ 1), raw_glev::<S>(&d, &lr, c.g.seed ^ 2));
    let ph = |v: &GlevCiphertext<S>| phases::<S>(&uraw(raw!(*v, GlevCiphertextRef, Torus<S>)), &s);
    let want = if b == 1 { ph(&y) } else { ph(&x) };
    let mut out = GlevCiphertext::<S>::new(&d, &lr);
    fft_ops::glev_cmux(&mut out, &x, &y, &sel, &d, &r);
    let ctx = format!("select({b}) n {n} k {k} levels {} selector radix {:?} width {w}", c.levels, c.g.r);
    near_all::<S>(&ph(&out), &want, one, "glev-cmux", &ctx)?;
    if c.g.wide {
        let (x, y): (&GlevCiphertextRef<u64>, &GlevCiphertextRef<u64>) = unsafe { (&*(&*x as *const _ as *const _), &*(&*y as *const _ as *const _)) };
        let out = evaluation::glev_cmux(&sel, x, y, &d, &r);
        near_all::<u64>(&phases::<u64>(&uraw(raw!(out, GlevCiphertextRef, Torus<u64>)), &s), &want, one, "glev-cmux-high-level", &ctx)?;
    }
    cov.label(format!("{}:{}", S::NAME, if c.levels as usize == c.g.r.count() { "same-levels" } else { "other-levels" }));
    cov.nontrivial_if(c.levels > 1);
    Ok(())
}

fn t11() -> Check {
    Check {
        id: "T11",
        assumptions: vec![
            "cases count where the worst-case error bound is below 1/16 of the torus",
            "multiplexers write to a fresh destination, as their documentation demands",
        ],
        subs: vec![
            sub("external_product", 72000, 1000000, "raw ring ciphertexts times gadget-matrices of generated messages up to 8 bits, N 1..=128, k 1..=4, any radix, both domains, accumulated; non-trivial: message not 0",
                glwe_case(0..=7, 4, 16, 32), |c: &GlweCase, cov| if c.wide { ext_product::<u64>(c, cov) } else { ext_product::<u32>(c, cov) }),
            sub("cmux_chain", 24000, 300000, "1..=24 selections over four raw ring ciphertexts by encrypted bits, judged against a plaintext model with accumulated error after each; N 16..=64; non-trivial: chain of two or more",
                mux_case(4..=6, 24), |c: &MuxCase, cov| if c.g.wide { mux::<u64>(c, cov) } else { mux::<u32>(c, cov) }),
            sub("cmux_large", 1800, 20000, "as cmux_chain with N 128..=1024 and up to 4 selections",
                mux_case(7..=10, 4), |c: &MuxCase, cov| if c.g.wide { mux::<u64>(c, cov) } else { mux::<u32>(c, cov) }),
            sub("glev_cmux", 24000, 300000, "gadget-vectors of 1..=5 levels selected by a bit under an independent radix; every level; non-trivial: more than one level",
                mux_case(4..=6, 1), |c: &MuxCase, cov| if c.g.wide { glev_mux::<u64>(c, cov) } else { glev_mux::<u32>(c, cov) }),
        ],
    }
}
