//! T16: operands of the wrong shape and invalid parameters are refused; right ones are not.
use crate::common::*;
use crate::fhe::*;
use num::complex::Complex64;
use num::Complex;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{
    entities::*,
    ops::{
        automorphisms::*,
        bootstrapping::{generate_scheme_switch_key as _, *},
        ciphertext::*,
        encryption::*,
        fft_ops,
        homomorphisms::*,
        keyswitch::{
            glwe_keyswitch::keyswitch_glwe_to_glwe, glwe_keyswitch_key::generate_keyswitch_key_glwe,
            lwe_keyswitch::keyswitch_lwe_to_lwe, lwe_keyswitch_key::generate_keyswitch_key_lwe,
            private_functional_keyswitch::*, public_functional_keyswitch::*,
        },
        polynomial::*,
    },
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Bad {
    No,
    RadixLogZero,
    RadixTooWide,
    RadixCountZero,
    LweDimZero,
    NoPolynomials,
    DegreeNotPowerOfTwo,
    PlaintextTooWide,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct ShapeCase {
    wide: bool,
    op: u16,
    /// 0: all shapes right; i: the i-th operand has another shape
    slot: u8,
    pert: u8,
    bad: Bad,
    /// which of several radix parameters is invalid
    which: u8,
    dim: u8,
    ddim: u8,
    log_n: u8,
    k: u8,
    log_n2: u8,
    k2: u8,
    rx: [(u8, u8); 4],
    idx: u8,
}

fn shape_case() -> BoxedStrategy<ShapeCase> {
    let bad = prop_oneof![
        6 => Just(Bad::No),
        1 => prop::sample::select(vec![Bad::RadixLogZero, Bad::RadixTooWide, Bad::RadixCountZero, Bad::LweDimZero, Bad::NoPolynomials, Bad::DegreeNotPowerOfTwo, Bad::PlaintextTooWide]),
    ];
    (
        (any::<bool>(), any::<u16>(), 0u8..=6, 0u8..16, bad, 0u8..4),
        (1u8..=5, 1u8..=5, 4u8..=6, 1u8..=3, 4u8..=6, 1u8..=3),
        prop::array::uniform4((1u8..=4, 1u8..=5)),
        any::<u8>(),
    )
        .prop_map(|((wide, op, slot, pert, bad, which), (dim, ddim, log_n, k, log_n2, k2), rx, idx)| ShapeCase {
            wide,
            op,
            slot: if bad == Bad::No { slot } else { 0 },
            pert,
            bad,
            which,
            dim,
            ddim,
            log_n,
            k,
            log_n2,
            k2,
            rx,
            idx,
        })
        .boxed()
}

/// Hands out operand shapes, one of which may be wrong, and parameters, one of which may be invalid.
struct W<'a> {
    c: &'a ShapeCase,
    i: u8,
    radix_i: u8,
    bits: u32,
    /// a wrong shape or invalid parameter has been handed out
    wrong: Option<String>,
}
impl W<'_> {
    fn hit(&mut self, what: &str) -> bool {
        self.i += 1;
        if self.i == self.c.slot {
            self.wrong = Some(format!("operand {} ({what})", self.i));
        }
        self.i == self.c.slot
    }
    fn pl(&self, d: &LweDef) -> LweDef {
        let n = d.dim.0;
        lwe_def(if self.c.pert % 2 == 0 || n == 1 { n + 1 + self.c.pert as usize / 4 } else { n - 1 }, d.std.0)
    }
    fn pg(&self, d: &GlweDef) -> GlweDef {
        let (n, k) = (d.dim.polynomial_degree.0, d.dim.size.0);
        match self.c.pert % 4 {
            0 => glwe_def(n * 2, k, d.std.0),
            1 if n >= 32 => glwe_def(n / 2, k, d.std.0),
            1 => glwe_def(n * 2, k, d.std.0),
            2 if k > 1 => glwe_def(n, k - 1, d.std.0),
            _ => glwe_def(n, k + 1, d.std.0),
        }
    }
    fn pr(&self, r: &RadixDecomposition) -> RadixDecomposition {
        let c = r.count.0;
        rad(r.radix_log.0, if self.c.pert % 2 == 0 || c == 1 { c + 1 } else { c - 1 })
    }
    /// The shape of the next operand.
    fn l(&mut self, d: &LweDef) -> LweDef {
        if self.hit("lwe") {
            self.pl(d)
        } else {
            *d
        }
    }
    fn g(&mut self, d: &GlweDef) -> GlweDef {
        if self.hit("glwe") {
            self.pg(d)
        } else {
            *d
        }
    }
    fn n(&mut self, n: usize) -> usize {
        if self.hit("polynomial") {
            match self.c.pert % 4 {
                0 => n * 2,
                1 if n > 1 => n / 2,
                2 => n + 1,
                _ if n > 1 => n - 1,
                _ => n + 1,
            }
        } else {
            n
        }
    }
    fn gr(&mut self, g: &GlweDef, r: &RadixDecomposition) -> (GlweDef, RadixDecomposition) {
        if self.hit("glwe, radix") {
            if self.c.pert % 8 < 4 {
                (self.pg(g), *r)
            } else {
                (*g, self.pr(r))
            }
        } else {
            (*g, *r)
        }
    }
    fn lgr(&mut self, l: &LweDef, g: &GlweDef, r: &RadixDecomposition) -> (LweDef, GlweDef, RadixDecomposition) {
        if self.hit("lwe, glwe, radix") {
            match self.c.pert % 12 {
                0..=3 => (*l, self.pg(g), *r),
                4..=7 => (*l, *g, self.pr(r)),
                _ => (self.pl(l), *g, *r),
            }
        } else {
            (*l, *g, *r)
        }
    }
    fn llr(&mut self, l: &LweDef, l2: &LweDef, r: &RadixDecomposition) -> (LweDef, LweDef, RadixDecomposition) {
        if self.hit("lwe, lwe, radix") {
            match self.c.pert % 12 {
                0..=3 => (self.pl(l), *l2, *r),
                4..=7 => (*l, self.pl(l2), *r),
                _ => (*l, *l2, self.pr(r)),
            }
        } else {
            (*l, *l2, *r)
        }
    }
    /// The parameters of the call.
    fn lwe(&mut self) -> LweDef {
        if self.c.bad == Bad::LweDimZero {
            self.wrong = Some("LWE dimension 0".into());
            return lwe_def(0, 0.0);
        }
        lwe_def(self.c.dim as usize, 0.0)
    }
    /// A second LWE instance of another dimension.
    fn lwe2(&mut self) -> LweDef {
        lwe_def(self.c.dim as usize + self.c.ddim as usize, 0.0)
    }
    fn bad_glwe(&mut self, n: usize, k: usize) -> GlweDef {
        match self.c.bad {
            Bad::NoPolynomials => {
                self.wrong = Some("GLWE without mask polynomials".into());
                glwe_def(n, 0, 0.0)
            }
            Bad::DegreeNotPowerOfTwo => {
                self.wrong = Some("GLWE degree not a power of two".into());
                glwe_def(n + n / 2, k, 0.0)
            }
            _ => glwe_def(n, k, 0.0),
        }
    }
    fn glwe(&mut self) -> GlweDef {
        self.bad_glwe(1 << self.c.log_n, self.c.k as usize)
    }
    fn glwe1(&mut self) -> GlweDef {
        self.bad_glwe(1 << self.c.log_n, 1)
    }
    fn glwe2(&mut self) -> GlweDef {
        glwe_def(1 << self.c.log_n2, self.c.k2 as usize, 0.0)
    }
    fn radix(&mut self) -> RadixDecomposition {
        let i = self.radix_i;
        self.radix_i += 1;
        let (log, count) = self.c.rx[i as usize % 4];
        let (log, count) = (log as usize, count as usize);
        if i != self.c.which % 4 {
            return rad(log, count);
        }
        let r = match self.c.bad {
            Bad::RadixLogZero => rad(0, count),
            Bad::RadixCountZero => rad(log, 0),
            Bad::RadixTooWide => rad(self.bits as usize / count + 1, count),
            _ => return rad(log, count),
        };
        self.wrong = Some(format!("radix {i} (invalid: {r:?})"));
        r
    }
    fn plaintext(&mut self) -> PlaintextBits {
        if self.c.bad == Bad::PlaintextTooWide {
            self.wrong = Some("as many plaintext bits as the word has".into());
            return PlaintextBits(self.bits + (self.c.pert as u32) % 3);
        }
        PlaintextBits(1 + (self.c.idx as u32) % 4)
    }
}

type Z = Complex64;
fn lwe<S: Word>(d: &LweDef) -> LweCiphertext<S> {
    LweCiphertext::new(d)
}
fn lkey<S: Word>(d: &LweDef) -> LweSecretKey<S> {
    LweSecretKey::generate_binary(d)
}
fn glwe<S: Word>(d: &GlweDef) -> GlweCiphertext<S> {
    GlweCiphertext::new(d)
}
fn glwe_fft(d: &GlweDef) -> GlweCiphertextFft<Z> {
    GlweCiphertextFft::new(d)
}
fn gkey<S: Word>(d: &GlweDef) -> GlweSecretKey<S> {
    GlweSecretKey::generate_binary(d)
}
fn glev<S: Word>(d: &(GlweDef, RadixDecomposition)) -> GlevCiphertext<S> {
    GlevCiphertext::new(&d.0, &d.1)
}
fn ggsw<S: Word>(d: &(GlweDef, RadixDecomposition)) -> GgswCiphertext<S> {
    GgswCiphertext::new(&d.0, &d.1)
}
fn ggsw_fft(d: &(GlweDef, RadixDecomposition)) -> GgswCiphertextFft<Z> {
    GgswCiphertextFft::new(&d.0, &d.1)
}
fn bsk_fft(d: &(LweDef, GlweDef, RadixDecomposition)) -> BootstrapKeyFft<Z> {
    BootstrapKeyFft::new(&d.0, &d.1, &d.2)
}
fn poly_t<S: Word>(n: usize) -> Polynomial<Torus<S>> {
    Polynomial::zero(n)
}
fn poly_s<S: Word>(n: usize) -> Polynomial<S> {
    Polynomial::zero(n)
}
fn lut<S: Word>(d: &GlweDef) -> UnivariateLookupTable<S> {
    let mut x = UnivariateLookupTable::trivial_from_fn(|_| 0, &glwe_def(16, 1, 0.0), PlaintextBits(1));
    if (d.dim.polynomial_degree.0, d.dim.size.0) != (16, 1) {
        x = UnivariateLookupTable::trivial_from_fn(|_| 0, d, PlaintextBits(1));
    }
    x
}
fn blut<S: Word>(d: &GlweDef) -> BivariateLookupTable<S> {
    BivariateLookupTable::trivial_from_fn(|_, _| 0, d, PlaintextBits(1), CarryBits(1))
}

type Op = (&'static str, fn(&mut W));

/// Every public operation that takes shapes.
#[rustfmt::skip]
#[allow(unused_must_use)]
fn ops<S: Word>() -> Vec<Op> {
    let v: Vec<Op> = vec![
        // LWE
        ("encrypt_lwe_ciphertext", |w: &mut W| { let p = w.lwe(); let k = lkey::<S>(&w.l(&p)); let mut c = lwe::<S>(&w.l(&p)); encrypt_lwe_ciphertext(&mut c, &k, t::<S>(0), &p); }),
        ("encode_and_encrypt_lwe_ciphertext", |w: &mut W| { let p = w.lwe(); let b = w.plaintext(); let k = lkey::<S>(&w.l(&p)); let mut c = lwe::<S>(&w.l(&p)); encode_and_encrypt_lwe_ciphertext(&mut c, &k, S::of(0), &p, b); }),
        ("trivially_encrypt_lwe_ciphertext", |w: &mut W| { let p = w.lwe(); let mut c = lwe::<S>(&w.l(&p)); trivially_encrypt_lwe_ciphertext(&mut c, &t::<S>(0), &p); }),
        ("LweSecretKey::encrypt", |w: &mut W| { let p = w.lwe(); let b = w.plaintext(); let k = lkey::<S>(&w.l(&p)); k.encrypt(S::of(0), &p, b); }),
        ("LweSecretKey::decrypt_without_decode", |w: &mut W| { let p = w.lwe(); let k = lkey::<S>(&w.l(&p)); let c = lwe::<S>(&w.l(&p)); k.decrypt_without_decode(&c, &p); }),
        ("LweSecretKey::decrypt", |w: &mut W| { let p = w.lwe(); let b = w.plaintext(); let k = lkey::<S>(&w.l(&p)); let c = lwe::<S>(&w.l(&p)); k.decrypt(&c, &p, b); }),
        ("LwePublicKey::generate", |w: &mut W| { let p = w.lwe(); let k = lkey::<S>(&w.l(&p)); LwePublicKey::<S>::generate(&k, &p); }),
        ("LwePublicKey::encrypt", |w: &mut W| { let p = w.lwe(); let b = w.plaintext(); let d = w.l(&p); let pk = LwePublicKey::<S>::generate(&lkey::<S>(&d), &d); pk.encrypt(S::of(0), &p, b); }),
        ("add_lwe_inplace", |w: &mut W| { let p = w.lwe(); let mut a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&w.l(&p)); add_lwe_inplace(&mut a, &b, &p); }),
        ("lwe_ciphertext_modulus_switch", |w: &mut W| { let p = w.lwe(); let mut a = lwe::<S>(&w.l(&p)); lwe_ciphertext_modulus_switch(&mut a, 0, 0, 5, &p); }),
        ("lwe_rotate", |w: &mut W| { let p = w.lwe(); let mut a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&w.l(&p)); lwe_rotate(&mut a, &b, t::<S>(1), &p); }),
        ("LweCiphertext + ", |w: &mut W| { let p = w.lwe2(); let a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&p); a + b; }),
        ("LweCiphertext - ", |w: &mut W| { let p = w.lwe2(); let a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&p); a - b; }),
        ("LweCiphertext += ", |w: &mut W| { let p = w.lwe2(); let mut a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&p); a += b; }),
        ("&LweCiphertext + ", |w: &mut W| { let p = w.lwe2(); let a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&p); &*a + &*b; }),
        ("LweSecretKey + ", |w: &mut W| { let p = w.lwe2(); let a = lkey::<S>(&w.l(&p)); let b = lkey::<S>(&p); a + b; }),
        ("LweSecretKey -= ", |w: &mut W| { let p = w.lwe2(); let mut a = lkey::<S>(&w.l(&p)); let b = lkey::<S>(&p); a -= b; }),
        ("LweCiphertext::clone_from_ref", |w: &mut W| { let p = w.lwe2(); let mut a = lwe::<S>(&w.l(&p)); let b = lwe::<S>(&p); a.clone_from_ref(&b); }),
        ("generate_keyswitch_key_lwe", |w: &mut W| { let p = w.lwe(); let q = w.lwe2(); let r = w.radix(); let d = w.llr(&p, &q, &r); let mut x = LweKeyswitchKey::<S>::new(&d.0, &d.1, &d.2); let a = lkey::<S>(&w.l(&p)); let b = lkey::<S>(&w.l(&q)); generate_keyswitch_key_lwe(&mut x, &a, &b, &p, &q, &r); }),
        ("keyswitch_lwe_to_lwe", |w: &mut W| { let p = w.lwe(); let q = w.lwe2(); let r = w.radix(); let d = w.llr(&p, &q, &r); let x = LweKeyswitchKey::<S>::new(&d.0, &d.1, &d.2); let a = lwe::<S>(&w.l(&p)); let mut b = lwe::<S>(&w.l(&q)); keyswitch_lwe_to_lwe(&mut b, &a, &x, &p, &q, &r); }),
        // GLWE
        ("encrypt_glwe_ciphertext_secret", |w: &mut W| { let p = w.glwe(); let k = gkey::<S>(&w.g(&p)); let mut c = glwe::<S>(&w.g(&p)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); encrypt_glwe_ciphertext_secret(&mut c, &m, &k, &p); }),
        ("trivially_encrypt_glwe_ciphertext", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); trivially_encrypt_glwe_ciphertext(&mut c, &m, &p); }),
        ("decrypt_glwe_ciphertext", |w: &mut W| { let p = w.glwe(); let k = gkey::<S>(&w.g(&p)); let c = glwe::<S>(&w.g(&p)); let mut m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); decrypt_glwe_ciphertext(&mut m, &c, &k, &p); }),
        ("GlweSecretKey::encode_encrypt_glwe", |w: &mut W| { let p = w.glwe(); let b = w.plaintext(); let k = gkey::<S>(&w.g(&p)); let m = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); k.encode_encrypt_glwe(&m, &p, b); }),
        ("GlweSecretKey::decrypt_decode_glwe", |w: &mut W| { let p = w.glwe(); let b = w.plaintext(); let k = gkey::<S>(&w.g(&p)); let c = glwe::<S>(&w.g(&p)); k.decrypt_decode_glwe(&c, &p, b); }),
        ("GlweSecretKey::encode_encrypt_ggsw", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let b = w.plaintext(); let k = gkey::<S>(&w.g(&p)); let m = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); k.encode_encrypt_ggsw(&m, &p, &r, b); }),
        ("rlwe_generate_public_key", |w: &mut W| { let p = w.glwe1(); let k = gkey::<S>(&w.g(&p)); let mut x = RlwePublicKey::<S>::new(&w.g(&p)); rlwe_generate_public_key(&mut x, &k, &p); }),
        ("rlwe_encrypt_public", |w: &mut W| { let p = w.glwe1(); let mut c = glwe::<S>(&w.g(&p)); let x = RlwePublicKey::<S>::new(&w.g(&p)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); rlwe_encrypt_public(&mut c, &m, &x, &p); }),
        ("rlwe_encode_encrypt_public", |w: &mut W| { let p = w.glwe1(); let b = w.plaintext(); let mut c = glwe::<S>(&w.g(&p)); let x = RlwePublicKey::<S>::new(&w.g(&p)); let m = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); rlwe_encode_encrypt_public(&mut c, &m, &x, &b, &p); }),
        ("add_glwe_ciphertexts", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&w.g(&p)); add_glwe_ciphertexts(&mut c, &a, &b, &p); }),
        ("sub_glwe_ciphertexts", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&w.g(&p)); sub_glwe_ciphertexts(&mut c, &a, &b, &p); }),
        ("glwe_add_assign", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); glwe_add_assign(&mut c, &a, &p); }),
        ("glwe_negate_inplace", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); glwe_negate_inplace(&mut c, &p); }),
        ("glwe_polynomial_mad", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); glwe_polynomial_mad(&mut c, &a, &b, &p); }),
        ("glwe_scalar_mad", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); glwe_scalar_mad(&mut c, &a, S::of(3), &p); }),
        ("glwe_ggsw_mad", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = ggsw::<S>(&w.gr(&p, &r)); glwe_ggsw_mad(&mut c, &a, &b, &p, &r); }),
        ("external_product_ggsw_glwe", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let a = glwe::<S>(&w.g(&p)); let b = ggsw::<S>(&w.gr(&p, &r)); external_product_ggsw_glwe(&b, &a, &p, &r); }),
        ("glwe_mod_switch_and_expand_pow_2", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); glwe_mod_switch_and_expand_pow_2(&mut c, &a, &p, 10); }),
        ("glwe_rotate", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); glwe_rotate(&mut c, &a, t::<S>(1), &p); }),
        ("sample_extract", |w: &mut W| { let p = w.glwe(); let mut c = lwe::<S>(&w.l(&p.as_lwe_def())); let a = glwe::<S>(&w.g(&p)); sample_extract(&mut c, &a, 0, &p); }),
        ("sample_extract index", |w: &mut W| { let p = glwe_def(16, w.c.k as usize, 0.0); let h = if w.hit("index") { 16 + w.c.pert as usize } else { w.c.idx as usize % 16 }; let mut c = lwe::<S>(&p.as_lwe_def()); let a = glwe::<S>(&p); sample_extract(&mut c, &a, h, &p); }),
        ("rotate_glwe_monomial_negacyclic", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); rotate_glwe_monomial_negacyclic(&mut c, &a, -3, &p); }),
        ("rotate_glwe_positive_monomial_negacyclic", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); rotate_glwe_positive_monomial_negacyclic(&mut c, &a, 3, &p); }),
        ("rotate_glwe_negative_monomial_negacyclic", |w: &mut W| { let p = w.glwe(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); rotate_glwe_negative_monomial_negacyclic(&mut c, &a, 3, &p); }),
        ("GlweCiphertext + ", |w: &mut W| { let p = w.glwe2(); let a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&p); a + b; }),
        ("GlweCiphertext -= ", |w: &mut W| { let p = w.glwe2(); let mut a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&p); a -= b; }),
        ("GlweSecretKey - ", |w: &mut W| { let p = w.glwe2(); let a = gkey::<S>(&w.g(&p)); let b = gkey::<S>(&p); a - b; }),
        ("GlweCiphertext::clone_from_ref", |w: &mut W| { let p = w.glwe2(); let mut a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&p); a.clone_from_ref(&b); }),
        ("GlweCiphertext::from_slice", |w: &mut W| { let p = w.glwe(); let n = w.n((p.dim.size.0 + 1) * p.dim.polynomial_degree.0); GlweCiphertext::<S>::from_slice(&vec![S::of(0); n], &p); }),
        ("GlweCiphertext::fft", |w: &mut W| { let p = w.glwe(); let a = glwe::<S>(&w.g(&p)); let mut f = glwe_fft(&w.g(&p)); a.fft(&mut f, &p); }),
        ("GlweCiphertextFft::ifft", |w: &mut W| { let p = w.glwe(); let mut a = glwe::<S>(&w.g(&p)); let f = glwe_fft(&w.g(&p)); f.ifft(&mut a, &p); }),
        // GLEV, GGSW
        ("encrypt_secret_glev_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut c = glev::<S>(&w.gr(&p, &r)); let k = gkey::<S>(&w.g(&p)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); encrypt_secret_glev_ciphertext(&mut c, &m, &k, &p, &r); }),
        ("trivially_encrypt_glev_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut c = glev::<S>(&w.gr(&p, &r)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); trivially_encrypt_glev_ciphertext(&mut c, &m, &p, &r); }),
        ("encrypt_rlev_ciphertext", |w: &mut W| { let p = w.glwe1(); let r = w.radix(); let mut c = glev::<S>(&w.gr(&p, &r)); let k = RlwePublicKey::<S>::new(&w.g(&p)); let m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); encrypt_rlev_ciphertext(&mut c, &m, &k, &p, &r); }),
        ("decrypt_glev_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let c = glev::<S>(&w.gr(&p, &r)); let k = gkey::<S>(&w.g(&p)); let mut m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); decrypt_glev_ciphertext(&mut m, &c, &k, &p, &r); }),
        ("encrypt_ggsw_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let b = w.plaintext(); let mut c = ggsw::<S>(&w.gr(&p, &r)); let k = gkey::<S>(&w.g(&p)); let m = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); encrypt_ggsw_ciphertext(&mut c, &m, &k, &p, &r, b); }),
        ("encrypt_ggsw_ciphertext_scalar", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let b = w.plaintext(); let mut c = ggsw::<S>(&w.gr(&p, &r)); let k = gkey::<S>(&w.g(&p)); encrypt_ggsw_ciphertext_scalar(&mut c, S::of(1), &k, &p, &r, b); }),
        ("trivially_encrypt_ggsw_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let b = w.plaintext(); let mut c = ggsw::<S>(&w.gr(&p, &r)); let m = poly_s::<S>(w.n(p.dim.polynomial_degree.0)); trivially_encrypt_ggsw_ciphertext(&mut c, &m, &p, &r, b); }),
        ("decrypt_ggsw_ciphertext", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let c = ggsw::<S>(&w.gr(&p, &r)); let k = gkey::<S>(&w.g(&p)); let mut m = poly_t::<S>(w.n(p.dim.polynomial_degree.0)); decrypt_ggsw_ciphertext(&mut m, &c, &k, &p, &r); }),
        ("GgswCiphertext::from_slice", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let n = w.n((p.dim.size.0 + 1) * (p.dim.size.0 + 1) * p.dim.polynomial_degree.0 * r.count.0); GgswCiphertext::<S>::from_slice(&vec![t::<S>(0); n], &p, &r); }),
        ("GgswCiphertext::fft", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let a = ggsw::<S>(&w.gr(&p, &r)); let mut f = ggsw_fft(&w.gr(&p, &r)); a.fft(&mut f, &p, &r); }),
        ("GgswCiphertextFft::ifft", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut a = ggsw::<S>(&w.gr(&p, &r)); let f = ggsw_fft(&w.gr(&p, &r)); f.ifft(&mut a, &p, &r); }),
        ("fft_ops::glwe_ggsw_mad", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut c = glwe_fft(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = ggsw_fft(&w.gr(&p, &r)); fft_ops::glwe_ggsw_mad(&mut c, &a, &b, &p, &r); }),
        ("fft_ops::glwe_polynomial_mad", |w: &mut W| { let p = w.glwe(); let mut c = glwe_fft(&w.g(&p)); let a = glwe_fft(&w.g(&p)); let n = p.dim.polynomial_degree.0 / 2; let b = PolynomialFft::<Z>::new(&vec![Complex::new(0.0, 0.0); w.n(n)]); fft_ops::glwe_polynomial_mad(&mut c, &a, &b, &p); }),
        ("fft_ops::cmux", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let mut c = glwe::<S>(&w.g(&p)); let a = glwe::<S>(&w.g(&p)); let b = glwe::<S>(&w.g(&p)); let s = ggsw_fft(&w.gr(&p, &r)); fft_ops::cmux(&mut c, &a, &b, &s, &p, &r); }),
        ("fft_ops::glev_cmux", |w: &mut W| { let p = w.glwe(); let r = w.radix(); let q = rad(w.c.rx[3].0 as usize, w.c.rx[3].1 as usize); let mut c = glev::<S>(&w.gr(&p, &q)); let a = glev::<S>(&w.gr(&p, &q)); let b = glev::<S>(&w.gr(&p, &q)); let s = ggsw_fft(&w.gr(&p, &r)); fft_ops::glev_cmux(&mut c, &a, &b, &s, &p, &r); }),
        // keys
        ("generate_bootstrap_key", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let d = w.lgr(&l, &g, &r); let mut x = BootstrapKey::<S>::new(&d.0, &d.1, &d.2); let a = lkey::<S>(&w.l(&l)); let b = gkey::<S>(&w.g(&g)); generate_bootstrap_key(&mut x, &a, &b, &l, &g, &r); }),
        ("BootstrapKey::fft", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let d = w.lgr(&l, &g, &r); let x = BootstrapKey::<S>::new(&d.0, &d.1, &d.2); let mut y = bsk_fft(&w.lgr(&l, &g, &r)); x.fft(&mut y, &l, &g, &r); }),
        ("generate_automorphism_key", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let mut x = AutomorphismKey::<S>::new(&d.0, &d.1); let b = gkey::<S>(&w.g(&g)); generate_automorphism_key(&mut x, &b, &g, &r); }),
        ("AutomorphismKey::fft", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let x = AutomorphismKey::<S>::new(&d.0, &d.1); let d = w.gr(&g, &r); let mut y = AutomorphismKeyFft::<Z>::new(&d.0, &d.1); x.fft(&mut y, &g, &r); }),
        ("trace", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let mut o = glwe::<S>(&w.g(&g)); let i = glwe::<S>(&w.g(&g)); let d = w.gr(&g, &r); let x = AutomorphismKeyFft::<Z>::new(&d.0, &d.1); trace(&mut o, &i, &x, &g, &r); }),
        ("generate_scheme_switch_key", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let mut x = SchemeSwitchKey::<S>::new(&d.0, &d.1); let b = gkey::<S>(&w.g(&g)); S::gen_ssk(&mut x, &b, &g, &r); }),
        ("SchemeSwitchKey::fft", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let x = SchemeSwitchKey::<S>::new(&d.0, &d.1); let d = w.gr(&g, &r); let mut y = SchemeSwitchKeyFft::<Z>::new(&d.0, &d.1); x.fft(&mut y, &g, &r); }),
        ("scheme_switch", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let q = w.radix(); let mut o = ggsw::<S>(&w.gr(&g, &r)); let i = glev::<S>(&w.gr(&g, &r)); let d = w.gr(&g, &q); let x = SchemeSwitchKey::<S>::new(&d.0, &d.1); scheme_switch(&mut o, &i, &x, &g, &r, &q); }),
        ("fft_ops::scheme_switch_fft", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let q = w.radix(); let mut o = ggsw_fft(&w.gr(&g, &r)); let i = glev::<S>(&w.gr(&g, &r)); let d = w.gr(&g, &q); let x = SchemeSwitchKeyFft::<Z>::new(&d.0, &d.1); fft_ops::scheme_switch_fft(&mut o, &i, &x, &g, &r, &q); }),
        ("generate_keyswitch_key_glwe", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let mut x = GlweKeyswitchKey::<S>::new(&d.0, &d.1); let a = gkey::<S>(&w.g(&g)); let b = gkey::<S>(&w.g(&g)); generate_keyswitch_key_glwe(&mut x, &a, &b, &g, &r); }),
        ("keyswitch_glwe_to_glwe", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let x = GlweKeyswitchKey::<S>::new(&d.0, &d.1); let a = glwe::<S>(&w.g(&g)); let mut b = glwe::<S>(&w.g(&g)); keyswitch_glwe_to_glwe(&mut b, &a, &x, &g, &r); }),
        ("fft_ops::keyswitch_glwe_to_glwe", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let x = GlweKeyswitchKeyFft::<Z>::new(&d.0, &d.1); let a = glwe::<S>(&w.g(&g)); let mut b = glwe::<S>(&w.g(&g)); fft_ops::keyswitch_glwe_to_glwe(&mut b, &a, &x, &g, &r); }),
        ("generate_private_functional_keyswitch_key", |w: &mut W| { let l = w.lwe(); let g = w.glwe2(); let r = w.radix(); let m = PrivateFunctionalKeyswitchLweCount(1 + w.c.idx as usize % 2); let d = w.lgr(&l, &g, &r); let mut x = PrivateFunctionalKeyswitchKey::<S>::new(&d.0, &d.1, &d.2, &m); let a = lkey::<S>(&w.l(&l)); let b = gkey::<S>(&w.g(&g)); generate_private_functional_keyswitch_key(&mut x, &a, &b, |_, _| {}, &l, &g, &r, &m); }),
        ("private_functional_keyswitch", |w: &mut W| { let l = w.lwe(); let g = w.glwe2(); let r = w.radix(); let m = PrivateFunctionalKeyswitchLweCount(2); let d = w.lgr(&l, &g, &r); let x = PrivateFunctionalKeyswitchKey::<S>::new(&d.0, &d.1, &d.2, &m); let a = lwe::<S>(&w.l(&l)); let b = lwe::<S>(&w.l(&l)); let mut o = glwe::<S>(&w.g(&g)); let n = if w.hit("number of inputs") { 1 } else { 2 }; private_functional_keyswitch(&mut o, &[&*a, &*b][..n], &x, &l, &g, &r, &m); }),
        ("generate_circuit_bootstrapping_pfks_keys", |w: &mut W| { let l = w.lwe(); let g = w.glwe2(); let r = w.radix(); let d = w.lgr(&l, &g, &r); let mut x = CircuitBootstrappingKeyswitchKeys::<S>::new(&d.0, &d.1, &d.2); let a = lkey::<S>(&w.l(&l)); let b = gkey::<S>(&w.g(&g)); generate_circuit_bootstrapping_pfks_keys(&mut x, &a, &b, &l, &g, &r); }),
        ("generate_public_functional_keyswitch_key", |w: &mut W| { let l = w.lwe(); let g = w.glwe2(); let r = w.radix(); let d = w.lgr(&l, &g, &r); let mut x = PublicFunctionalKeyswitchKey::<S>::new(&d.0, &d.1, &d.2); let a = lkey::<S>(&w.l(&l)); let b = gkey::<S>(&w.g(&g)); generate_public_functional_keyswitch_key(&mut x, &a, &b, &l, &g, &r); }),
        ("public_functional_keyswitch", |w: &mut W| { let l = w.lwe(); let g = w.glwe2(); let r = w.radix(); let d = w.lgr(&l, &g, &r); let x = PublicFunctionalKeyswitchKey::<S>::new(&d.0, &d.1, &d.2); let a = lwe::<S>(&w.l(&l)); let b = lwe::<S>(&w.l(&l)); let mut o = glwe::<S>(&w.g(&g)); public_functional_keyswitch(&mut o, &[&*a, &*b], &x, |_, _| {}, &l, &g, &r); }),
        // bootstrapping
        ("programmable_bootstrap_univariate", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let x = bsk_fft(&w.lgr(&l, &g, &r)); let i = lwe::<S>(&w.l(&l)); let t = lut::<S>(&w.g(&g)); let mut o = lwe::<S>(&w.l(&g.as_lwe_def())); programmable_bootstrap_univariate(&mut o, &i, &t, &x, &l, &g, &r); }),
        ("programmable_bootstrap_bivariate", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let x = bsk_fft(&w.lgr(&l, &g, &r)); let i = lwe::<S>(&w.l(&l)); let j = lwe::<S>(&w.l(&l)); let t = blut::<S>(&w.g(&g)); let mut o = lwe::<S>(&w.l(&g.as_lwe_def())); programmable_bootstrap_bivariate(&mut o, &i, &j, &t, &x, &l, &g, PlaintextBits(1), &r); }),
        ("generalized_programmable_bootstrap", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let x = bsk_fft(&w.lgr(&l, &g, &r)); let i = lwe::<S>(&w.l(&l)); let t = lut::<S>(&w.g(&g)); let mut o = glwe::<S>(&w.g(&g)); generalized_programmable_bootstrap(&mut o, &i, &t, &x, 0, 0, &l, &g, &r); }),
        ("generate_blind_rotation_shift", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let b = w.plaintext(); let d = w.gr(&g, &r); let mut x = BlindRotationShiftFft::<Z>::new(&d.0, &d.1); let k = gkey::<S>(&w.g(&g)); generate_blind_rotation_shift(&mut x, 3, &k, &g, &r, b); }),
        ("blind_rotation", |w: &mut W| { let g = w.glwe(); let r = w.radix(); let d = w.gr(&g, &r); let x = BlindRotationShiftFft::<Z>::new(&d.0, &d.1); let i = glwe::<S>(&w.g(&g)); let mut o = glwe::<S>(&w.g(&g)); blind_rotation(&mut o, &x, &i, &g, &r); }),
        ("circuit_bootstrap_via_pfks", |w: &mut W| { let l = w.lwe(); let g1 = w.glwe2(); let g2 = w.glwe(); let r = w.radix(); let c = w.radix(); let p = w.radix(); let mut o = ggsw::<S>(&w.gr(&g1, &c)); let i = lwe::<S>(&w.l(&l)); let x = bsk_fft(&w.lgr(&l, &g2, &r)); let d = w.lgr(&g2.as_lwe_def(), &g1, &p); let y = CircuitBootstrappingKeyswitchKeys::<S>::new(&d.0, &d.1, &d.2); circuit_bootstrap_via_pfks(&mut o, &i, &x, &y, &l, &g1, &g2, &r, &c, &p); }),
        ("apply_pfks_on_ggsw_components", |w: &mut W| { let g1 = w.glwe2(); let g2 = w.glwe(); let c = w.radix(); let p = w.radix(); let mut o = ggsw::<S>(&w.gr(&g1, &c)); let n = c.count.0; let n = w.n(n); let lw = w.l(&g2.as_lwe_def()); let i = LweCiphertextList::<S>::new(&lw, n); let d = w.lgr(&g2.as_lwe_def(), &g1, &p); let y = CircuitBootstrappingKeyswitchKeys::<S>::new(&d.0, &d.1, &d.2); apply_pfks_on_ggsw_components(&mut o, &i, &y, &g2, &g1, &p, &c); }),
        ("circuit_bootstrap_via_trace_and_scheme_switch", |w: &mut W| { let l = w.lwe(); let g = w.glwe(); let r = w.radix(); let t = w.radix(); let s = w.radix(); let c = w.radix(); let mut o = ggsw_fft(&w.gr(&g, &c)); let i = lwe::<S>(&w.l(&l)); let x = bsk_fft(&w.lgr(&l, &g, &r)); let d = w.gr(&g, &t); let y = AutomorphismKeyFft::<Z>::new(&d.0, &d.1); let d = w.gr(&g, &s); let z = SchemeSwitchKeyFft::<Z>::new(&d.0, &d.1); circuit_bootstrap_via_trace_and_scheme_switch(&mut o, &i, &x, &y, &z, &l, &g, &r, &t, &s, &c); }),
        // polynomials
        ("encode_polynomial", |w: &mut W| { let n = 1usize << w.c.log_n; let b = w.plaintext(); let mut o = poly_t::<S>(w.n(n)); let i = poly_s::<S>(n); encode_polynomial(&mut o, &i, b); }),
        ("decode_polynomial", |w: &mut W| { let n = 1usize << w.c.log_n; let b = w.plaintext(); let mut o = poly_s::<S>(w.n(n)); let i = poly_t::<S>(n); decode_polynomial(&mut o, &i, b); }),
        ("polynomial_pow_k", |w: &mut W| { let n = 1usize << w.c.log_n; let mut o = poly_s::<S>(w.n(n)); let i = poly_s::<S>(n); polynomial_pow_k(&mut o, &i, 3); }),
        ("scale_msg_by_gadget_factor", |w: &mut W| { let n = 1usize << w.c.log_n; let mut o = poly_t::<S>(w.n(n)); let i = poly_t::<S>(n); scale_msg_by_gadget_factor(&mut o, &i, 3, 1); }),
        ("Polynomial + ", |w: &mut W| { let n = 1usize << w.c.log_n; let a = poly_t::<S>(w.n(n)); let b = poly_t::<S>(n); a + b; }),
        ("Polynomial - ", |w: &mut W| { let n = 1usize << w.c.log_n; let a = poly_t::<S>(w.n(n)); let b = poly_t::<S>(n); a - b; }),
        ("Polynomial += ", |w: &mut W| { let n = 1usize << w.c.log_n; let mut a = poly_t::<S>(w.n(n)); let b = poly_t::<S>(n); *a += &*b; }),
        ("Polynomial -= ", |w: &mut W| { let n = 1usize << w.c.log_n; let mut a = poly_t::<S>(w.n(n)); let b = poly_t::<S>(n); *a -= &*b; }),
        ("Polynomial * ", |w: &mut W| { let n = 1usize << w.c.log_n; let a = poly_t::<S>(w.n(n)); let b = poly_s::<S>(n); &*a * &*b; }),
        ("Polynomial::map_into", |w: &mut W| { let n = 1usize << w.c.log_n; let mut a = poly_s::<S>(w.n(n)); let b = poly_t::<S>(n); b.map_into(&mut a, |x| x.inner()); }),
        ("Polynomial::fft", |w: &mut W| { let n = 1usize << w.c.log_n; let a = poly_t::<S>(n); let mut f = PolynomialFft::<Z>::new(&vec![Complex::new(0.0, 0.0); w.n(n / 2)]); a.fft(&mut f); }),
        ("PolynomialFft::ifft", |w: &mut W| { let n = 1usize << w.c.log_n; let mut a = poly_t::<S>(n); let f = PolynomialFft::<Z>::new(&vec![Complex::new(0.0, 0.0); w.n(n / 2)]); f.ifft(&mut a); }),
        ("PolynomialFft::multiply_add", |w: &mut W| { let n = 1usize << w.c.log_n; let z = |n| PolynomialFft::<Z>::new(&vec![Complex::new(0.0, 0.0); n]); let mut a = z(n); let (x, y) = (w.n(n), w.n(n)); let (b, c) = (z(x), z(y)); a.multiply_add(&b, &c); }),
        // parameters themselves
        ("LweDef::assert_valid", |w: &mut W| { let p = w.lwe(); p.assert_valid(); }),
        ("GlweDef::assert_valid", |w: &mut W| { let p = w.glwe(); p.assert_valid(); }),
        ("RadixDecomposition::assert_valid", |w: &mut W| { let p = w.radix(); p.assert_valid::<S>(); }),
        ("PrivateFunctionalKeyswitchLweCount::assert_valid", |w: &mut W| { let p = PrivateFunctionalKeyswitchLweCount(if w.hit("count") { 0 } else { w.c.idx as usize + 1 }); p.assert_valid(); }),
    ];
    v
}

fn shapes<S: Word>(c: &ShapeCase, cov: &Cover) -> Res {
    let ops = ops::<S>();
    let (name, f) = ops[c.op as usize % ops.len()];
    let mut w = W { c, i: 0, radix_i: 0, bits: S::bits(), wrong: None };
    let out = catch(|| f(&mut w));
    match (&out, &w.wrong) {
        (Err(e), None) => return vkit::fail(format!("refused-valid:{name}"), format!("{name} panicked although every shape is right: {e}")),
        (Ok(_), Some(what)) => return vkit::fail(format!("accepted-wrong:{name}:{}", what.split(" (").next().unwrap()), format!("{name} returned although {what} is wrong")),
        _ => {}
    }
    cov.label(if w.wrong.is_none() {
        "accepted"
    } else if c.bad == Bad::No {
        "shape-refused"
    } else {
        "parameter-refused"
    });
    cov.nontrivial_if(w.wrong.is_some());
    cov.comparisons(1);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "T16",
        assumptions: vec!["a buffer carries only its length, so only wrong shapes of another length can be refused"],
        subs: vec![sub("shapes", 1_000_000, 60_000_000, "any operation, with all shapes right, any one operand of another dimension, degree, size or count, or any one parameter invalid; non-trivial: something is wrong",
            shape_case(), |c: &ShapeCase, cov| if c.wide { shapes::<u64>(c, cov) } else { shapes::<u32>(c, cov) })],
    }]
}

/// Every disagreement, for development.
pub fn survey() {
    use vkit::proptest::{strategy::ValueTree, test_runner::TestRunner};
    let mut r = TestRunner::deterministic();
    let s = shape_case();
    let mut seen = std::collections::BTreeMap::new();
    for _ in 0..200_000 {
        let c = s.new_tree(&mut r).unwrap().current();
        let cov = Cover::default();
        let res = if c.wide { shapes::<u64>(&c, &cov) } else { shapes::<u32>(&c, &cov) };
        if let Err(e) = res {
            *seen.entry(e.msg.chars().take(230).collect::<String>().replace(|c: char| c.is_ascii_digit() && false, "")).or_insert(0) += 1;
        }
    }
    for (k, v) in seen {
        println!("{v:6} {k}");
    }
}
