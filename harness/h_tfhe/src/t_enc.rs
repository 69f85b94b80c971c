//! T05 secret/trivial encryption, T06 public-key encryption, T07 distributions.
use crate::common::*;
use crate::fhe::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::AsRawFd;
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption, keygen},
    ops::{
        automorphisms::generate_automorphism_key,
        bootstrapping::generate_bootstrap_key,
        encryption::*,
        keyswitch::{
            glwe_keyswitch_key::generate_keyswitch_key_glwe,
            lwe_keyswitch_key::generate_keyswitch_key_lwe,
            private_functional_keyswitch::*, public_functional_keyswitch::*,
        },
    },
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

pub fn checks() -> Vec<Check> {
    vec![t05(), t06(), t07()]
}

// ------------------------------------------------------------------------------- T05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LweCase {
    pub wide: bool,
    pub dim: u16,
    pub std: u8,
    pub uniform: bool,
    pub bits: u8,
    pub msg: u64,
    pub seed: u64,
}

pub fn lwe_case(max_dim: u16) -> BoxedStrategy<LweCase> {
    any::<bool>()
        .prop_flat_map(move |wide| {
            let w = if wide { 64u8 } else { 32 };
            (Just(wide), 1..=max_dim, std_log(wide), any::<bool>(), 1..w, word(), any::<u64>())
        })
        .prop_map(|(wide, dim, std, uniform, bits, msg, seed)| LweCase { wide, dim, std, uniform, bits, msg, seed })
        .boxed()
}

/// True when messages of `bits` bits survive an error of `err`.
fn decodes<S: Word>(bits: u32, err: i128) -> bool {
    err < 1i128 << (S::bits() - bits - 1)
}

fn lwe_check<S: Word>(c: &LweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = lwe_def(c.dim as usize, std_of(c.std));
    let n12 = noise12::<S>(d.std.0);
    let bits = (c.bits as u32).min(S::bits() - 1);
    let pb = PlaintextBits(bits);
    let m = c.msg & mask(bits);
    let enc = (m << (S::bits() - bits)) & mask(S::bits());
    let sk = lwe_key::<S>(&d, c.uniform);
    let s = lwe_key_words::<S>(&sk);
    ensure_eq!(s.len(), c.dim as usize, "lwe-key-length");
    ensure!(c.uniform || s.iter().all(|x| *x < 2), "binary-key", "binary key has a non-bit: {:?}", s);

    // any torus value, over a dirty destination
    let raw_msg = c.msg & mask(S::bits());
    let mut ct = LweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(ct, LweCiphertextRef, Torus<S>), c.seed);
    let e = encrypt_lwe_ciphertext(&mut ct, &sk, t::<S>(raw_msg), &d).inner().u();
    let p = lphase::<S>(&ct, &s);
    ensure_eq!(p, raw_msg.wrapping_add(e) & mask(S::bits()), "lwe-phase", "phase is not message plus the reported error");
    ensure!(S::signed(e).abs() <= n12, "lwe-noise", "error {} exceeds {}", S::signed(e), n12);
    ensure_eq!(sk.decrypt_without_decode(&ct, &d).inner().u(), p, "lwe-decrypt-phase");
    ensure!(n12 == 0 || c.dim < 8 || uraw(raw!(ct, LweCiphertextRef, Torus<S>))[..c.dim as usize].iter().any(|x| *x != 0), "lwe-mask-zero");

    // encode and encrypt
    let mut ct2 = LweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(ct2, LweCiphertextRef, Torus<S>), c.seed ^ 1);
    let e2 = encode_and_encrypt_lwe_ciphertext(&mut ct2, &sk, S::of(m), &d, pb).inner().u();
    ensure_eq!(lphase::<S>(&ct2, &s), enc.wrapping_add(e2) & mask(S::bits()), "lwe-encode-phase");
    let (ct3, e3) = sk.encrypt(S::of(m), &d, pb);
    ensure_eq!(lphase::<S>(&ct3, &s), enc.wrapping_add(e3.inner().u()) & mask(S::bits()), "lwe-method-phase");
    let can = decodes::<S>(bits, n12);
    if can {
        ensure_eq!(sk.decrypt(&ct2, &d, pb).u(), m, "lwe-decrypt", "bits {}", bits);
        ensure_eq!(sk.decrypt(&ct3, &d, pb).u(), m, "lwe-decrypt-method");
    }
    // trivial: independent of the key
    let mut tr = LweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(tr, LweCiphertextRef, Torus<S>), c.seed ^ 2);
    trivially_encrypt_lwe_ciphertext(&mut tr, &t::<S>(raw_msg), &d);
    ensure_eq!(lphase::<S>(&tr, &s), raw_msg, "lwe-trivial");
    ensure!(uraw(raw!(tr, LweCiphertextRef, Torus<S>))[..c.dim as usize].iter().all(|x| *x == 0), "lwe-trivial-mask");

    if c.wide {
        let sk: &LweSecretKeyRef<u64> = unsafe { &*(&*sk as *const _ as *const LweSecretKeyRef<u64>) };
        let ct = encryption::encrypt_lwe_secret(m, sk, &d, pb);
        ensure!(tdist::<u64>(lphase::<u64>(&ct, &s), enc).abs() <= n12, "lwe-high-level");
        let (ct4, r) = encryption::encrypt_lwe_secret_and_return_randomness(m, sk, &d, pb);
        ensure_eq!(lphase::<u64>(&ct4, &s), enc.wrapping_add(r.inner()), "lwe-high-level-randomness");
        let trv = encryption::trivial_lwe(m, &d, pb);
        ensure_eq!(lphase::<u64>(&trv, &s), enc, "lwe-high-level-trivial");
        if can {
            ensure_eq!(encryption::decrypt_lwe(&ct, sk, &d, pb), m, "lwe-high-level-decrypt");
            ensure_eq!(encryption::decrypt_lwe(&trv, sk, &d, pb), m, "lwe-high-level-decrypt-trivial");
            // with carry bits: the message sits in the low bits of a wider plaintext
            if bits >= 2 {
                let carry = 1 + (c.seed % (bits as u64 - 1)) as u32;
                let pl = bits - carry;
                ensure_eq!(
                    encryption::decrypt_lwe_with_carry(&ct, sk, &d, PlaintextBits(pl), CarryBits(carry)),
                    m & mask(pl),
                    "lwe-decrypt-carry",
                    "plaintext {} carry {} message {:#x}",
                    pl,
                    carry,
                    m
                );
            }
        }
    }
    cov.label(format!("{}:{}", S::NAME, if c.uniform { "uniform" } else { "binary" }));
    cov.label_if(c.std == 0, "noiseless");
    cov.label_if(can, "decoded");
    cov.nontrivial_if(m != 0);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GlweCase {
    pub wide: bool,
    pub log_n: u8,
    pub k: u8,
    pub std: u8,
    pub uniform: bool,
    pub bits: u8,
    pub r: Rx,
    pub fill: Fill,
    pub seed: u64,
}
impl GlweCase {
    pub fn n(&self) -> usize {
        1 << self.log_n
    }
    pub fn def(&self) -> GlweDef {
        glwe_def(self.n(), self.k as usize, std_of(self.std))
    }
}

pub fn glwe_case(log_n: std::ops::RangeInclusive<u8>, max_k: u8, max_log: u32, max_count: u32) -> BoxedStrategy<GlweCase> {
    any::<bool>()
        .prop_flat_map(move |wide| {
            let w = if wide { 64u8 } else { 32 };
            (
                (Just(wide), log_n.clone(), 1..=max_k, std_log(wide), any::<bool>()),
                (1..w, rx(w as u32, max_log, max_count), fill(), any::<u64>()),
            )
        })
        .prop_map(|((wide, log_n, k, std, uniform), (bits, r, fill, seed))| GlweCase { wide, log_n, k, std, uniform, bits, r, fill, seed })
        .boxed()
}

fn glwe_check<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let n = c.n();
    let n12 = noise12::<S>(d.std.0);
    let bits = (c.bits as u32).min(S::bits() - 1);
    let pb = PlaintextBits(bits);
    let raw_msg: Vec<u64> = expand(&c.fill, n, c.seed).iter().map(|x| x & mask(S::bits())).collect();
    let m: Vec<u64> = raw_msg.iter().map(|x| x & mask(bits)).collect();
    let enc: Vec<u64> = m.iter().map(|x| (x << (S::bits() - bits)) & mask(S::bits())).collect();
    let sk = glwe_key::<S>(&d, c.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    ensure_eq!(s.len(), c.k as usize, "glwe-key-size");
    let ctx = format!("n {} k {} std 2^-{}", n, c.k, c.std);

    let mut ct = GlweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(ct, GlweCiphertextRef, Torus<S>), c.seed);
    encrypt_glwe_ciphertext_secret(&mut ct, &tpoly::<S>(&raw_msg), &sk, &d);
    let p = gphase::<S>(&ct, &s);
    near::<S>(&p, &raw_msg, n12, "glwe-phase", &ctx)?;
    let mut out = tpoly::<S>(&expand(&Fill::Random, n, c.seed));
    decrypt_glwe_ciphertext(&mut out, &ct, &sk, &d);
    ensure_eq!(utpoly(&out), p, "glwe-decrypt-phase");

    let ct2 = sk.encode_encrypt_glwe(&poly::<S>(&m), &d, pb);
    near::<S>(&gphase::<S>(&ct2, &s), &enc, n12, "glwe-encode-phase", &ctx)?;
    let can = decodes::<S>(bits, n12);
    if can {
        ensure_eq!(upoly(&sk.decrypt_decode_glwe(&ct2, &d, pb)), m, "glwe-decrypt");
    }
    let mut tr = GlweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(tr, GlweCiphertextRef, Torus<S>), c.seed ^ 5);
    trivially_encrypt_glwe_ciphertext(&mut tr, &tpoly::<S>(&raw_msg), &d);
    ensure_eq!(gphase::<S>(&tr, &s), raw_msg, "glwe-trivial");
    ensure!(uraw(raw!(tr, GlweCiphertextRef, Torus<S>))[..n * c.k as usize].iter().all(|x| *x == 0), "glwe-trivial-mask");

    if c.wide {
        let sk: &GlweSecretKeyRef<u64> = unsafe { &*(&*sk as *const _ as *const GlweSecretKeyRef<u64>) };
        let pm = poly::<u64>(&m);
        let ct = encryption::encrypt_glwe(&pm, sk, &d, pb);
        near::<u64>(&gphase::<u64>(&ct, &s), &enc, n12, "glwe-high-level", &ctx)?;
        let trv = encryption::trivial_glwe(&pm, &d, pb);
        ensure_eq!(gphase::<u64>(&trv, &s), enc, "glwe-high-level-trivial");
        if can {
            ensure_eq!(upoly(&encryption::decrypt_glwe(&ct, sk, &d, pb)), m, "glwe-high-level-decrypt");
            ensure_eq!(upoly(&encryption::decrypt_glwe(&trv, sk, &d, pb)), m, "glwe-high-level-decrypt-trivial");
        }
    }
    // the flattened key decrypts coefficient 0 through a scalar ciphertext
    ensure_eq!(lwe_key_words::<S>(sk.to_lwe_secret_key()), s.concat(), "flattened-key");
    cov.label(format!("{}:k{}", S::NAME, c.k.min(3)));
    cov.label_if(c.std == 0, "noiseless");
    cov.label_if(can, "decoded");
    cov.nontrivial_if(m.iter().any(|x| *x != 0));
    Ok(())
}

fn gadget_check<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let d = c.def();
    let n = c.n();
    let r = c.r.rad();
    let n12 = noise12::<S>(d.std.0);
    let sk = glwe_key::<S>(&d, c.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    let ctx = format!("n {} k {} log {} count {}", n, c.k, c.r.log, c.r.count);
    let w = S::bits();
    // gadget-vector: any message words (they are reduced by the factor)
    let raw_msg: Vec<u64> = expand(&c.fill, n, c.seed).iter().map(|x| x & mask(w)).collect();
    let mut glev = GlevCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(glev, GlevCiphertextRef, Torus<S>), c.seed);
    encrypt_secret_glev_ciphertext(&mut glev, &tpoly::<S>(&raw_msg), &sk, &d, &r);
    let got = phases::<S>(&uraw(raw!(glev, GlevCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &glev_messages::<S>(&raw_msg, &c.r), n12, "glev-phase", &ctx)?;
    let mut tr = GlevCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(tr, GlevCiphertextRef, Torus<S>), c.seed ^ 7);
    trivially_encrypt_glev_ciphertext(&mut tr, &tpoly::<S>(&raw_msg), &d, &r);
    let got = phases::<S>(&uraw(raw!(tr, GlevCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &glev_messages::<S>(&raw_msg, &c.r), 0, "glev-trivial", &ctx)?;
    // messages below 2^radix_log decrypt
    let log = c.r.log() as u32;
    let small: Vec<u64> = raw_msg.iter().map(|x| x & mask(log)).collect();
    let can = n12 < 1i128 << (w - log - 1);
    let mut g2 = GlevCiphertext::<S>::new(&d, &r);
    encrypt_secret_glev_ciphertext(&mut g2, &tpoly::<S>(&small), &sk, &d, &r);
    let mut out = tpoly::<S>(&raw_msg);
    if can {
        decrypt_glev_ciphertext(&mut out, &g2, &sk, &d, &r);
        ensure_eq!(utpoly(&out), small, "glev-decrypt");
    }
    // single level scaling
    for j in 0..c.r.count() {
        let mut sc = tpoly::<S>(&raw_msg);
        scale_msg_by_gadget_factor(&mut sc, &tpoly::<S>(&small), c.r.log(), j);
        ensure_eq!(utpoly(&sc), scale::<S>(&small, c.r.log(), j), "gadget-factor");
    }

    // gadget-matrix: messages of plaintext_bits bits
    let pbits = (c.bits as u32).min(w - 1);
    let gm: Vec<u64> = raw_msg.iter().map(|x| x & mask(pbits)).collect();
    let mut gg = GgswCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(gg, GgswCiphertextRef, Torus<S>), c.seed ^ 9);
    encrypt_ggsw_ciphertext(&mut gg, &poly::<S>(&gm), &sk, &d, &r, PlaintextBits(pbits));
    let got = phases::<S>(&uraw(raw!(gg, GgswCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &ggsw_messages::<S>(&gm, &s, &c.r), n12, "ggsw-phase", &ctx)?;
    if can && pbits <= log {
        decrypt_ggsw_ciphertext(&mut out, &gg, &sk, &d, &r);
        ensure_eq!(utpoly(&out), gm, "ggsw-decrypt");
    }
    let gg2 = sk.encode_encrypt_ggsw(&poly::<S>(&gm), &d, &r, PlaintextBits(pbits));
    let got = phases::<S>(&uraw(raw!(gg2, GgswCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &ggsw_messages::<S>(&gm, &s, &c.r), n12, "ggsw-method-phase", &ctx)?;
    let mut gs = GgswCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(gs, GgswCiphertextRef, Torus<S>), c.seed ^ 11);
    encrypt_ggsw_ciphertext_scalar(&mut gs, S::of(gm[0]), &sk, &d, &r, PlaintextBits(pbits));
    let got = phases::<S>(&uraw(raw!(gs, GgswCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &ggsw_messages::<S>(&constant(n, gm[0]), &s, &c.r), n12, "ggsw-scalar-phase", &ctx)?;
    // trivial: rows that would carry the key are encrypted under the zero key
    let mut tg = GgswCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(tg, GgswCiphertextRef, Torus<S>), c.seed ^ 13);
    trivially_encrypt_ggsw_ciphertext(&mut tg, &poly::<S>(&gm), &d, &r, PlaintextBits(pbits));
    let zero = vec![vec![0u64; n]; c.k as usize];
    let got = phases::<S>(&uraw(raw!(tg, GgswCiphertextRef, Torus<S>)), &zero);
    near_all::<S>(&got, &ggsw_messages::<S>(&gm, &zero, &c.r), 0, "ggsw-trivial", &ctx)?;
    if pbits <= log {
        decrypt_ggsw_ciphertext(&mut out, &tg, &sk, &d, &r);
        ensure_eq!(utpoly(&out), gm, "ggsw-trivial-decrypt");
    }
    if c.wide {
        let sk: &GlweSecretKeyRef<u64> = unsafe { &*(&*sk as *const _ as *const GlweSecretKeyRef<u64>) };
        let h = encryption::encrypt_ggsw(gm[0], sk, &d, &r, PlaintextBits(pbits));
        let got = phases::<u64>(&uraw(raw!(h, GgswCiphertextRef, Torus<u64>)), &s);
        near_all::<u64>(&got, &ggsw_messages::<u64>(&constant(n, gm[0]), &s, &c.r), n12, "ggsw-high-level", &ctx)?;
        if can && pbits <= log {
            ensure_eq!(upoly(&encryption::decrypt_ggsw(&h, sk, &d, &r, PlaintextBits(pbits))), constant(n, gm[0]), "ggsw-high-level-decrypt");
        }
        let bin: Vec<u64> = raw_msg.iter().map(|x| x & 1).collect();
        let h = encryption::encrypt_binary_msg_secret_glev(&poly::<u64>(&bin), sk, &d, &r);
        let got = phases::<u64>(&uraw(raw!(h, GlevCiphertextRef, Torus<u64>)), &s);
        near_all::<u64>(&got, &glev_messages::<u64>(&bin, &c.r), n12, "glev-high-level", &ctx)?;
        let h = encryption::trivial_binary_glev(&poly::<u64>(&bin), &d, &r);
        let got = phases::<u64>(&uraw(raw!(h, GlevCiphertextRef, Torus<u64>)), &s);
        near_all::<u64>(&got, &glev_messages::<u64>(&bin, &c.r), 0, "glev-high-level-trivial", &ctx)?;
    }
    cov.label(format!("{}:levels{}", S::NAME, if c.r.count > 3 { "4+".to_string() } else { c.r.count.to_string() }));
    cov.label_if(c.r.exact::<S>(), "exact-radix");
    cov.label_if(can && pbits <= log, "ggsw-decrypted");
    cov.nontrivial_if(c.r.count > 1 && gm.iter().any(|x| *x != 0));
    Ok(())
}

fn t05() -> Check {
    Check {
        id: "T05",
        assumptions: vec![
            "gadget-vector decryption needs messages below 2^radix_log and gadget-matrix messages below 2^plaintext_bits (asserted by the code)",
            "a trivial gadget-matrix hides nothing: rows that would carry the secret are checked under the zero key",
            "errors are allowed up to 12 standard deviations",
        ],
        subs: vec![
            sub("lwe", 48_000, 300_000, "scalar ciphertexts: u32/u64, dimension 1..=120, any noise incl. none, binary/uniform keys, plaintext width 1..word-1, dirty destinations; phase, reported error, decryption, carry decryption and trivial forms; non-trivial: message not 0",
                lwe_case(120), |c: &LweCase, cov| if c.wide { lwe_check::<u64>(c, cov) } else { lwe_check::<u32>(c, cov) }),
            sub("glwe", 32_000, 150_000, "ring ciphertexts: N 1..=256, k 1..=4, any message polynomial; non-trivial: message not 0",
                glwe_case(0..=8, 4, 30, 8), |c: &GlweCase, cov| if c.wide { glwe_check::<u64>(c, cov) } else { glwe_check::<u32>(c, cov) }),
            sub("gadget", 12_800, 60_000, "gadget-vectors and gadget-matrices: N 1..=64, k 1..=3, every radix that fits incl. exact, each row and level compared with the scaled message; non-trivial: several levels and message not 0",
                glwe_case(0..=6, 3, 40, 12), |c: &GlweCase, cov| if c.wide { gadget_check::<u64>(c, cov) } else { gadget_check::<u32>(c, cov) }),
        ],
    }
}

// ------------------------------------------------------------------------------- T06

fn lwe_public<S: Word>(c: &LweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let n = c.dim as usize;
    let d = lwe_def(n, std_of(c.std));
    let n12 = noise12::<S>(d.std.0);
    let bits = (c.bits as u32).min(S::bits() - 1);
    let m = c.msg & mask(bits);
    let enc = (m << (S::bits() - bits)) & mask(S::bits());
    let sk = lwe_key::<S>(&d, c.uniform);
    let s = lwe_key_words::<S>(&sk);
    let pk = LwePublicKey::<S>::generate(&sk, &d);
    let pkw = uraw(raw!(pk, LwePublicKeyRef, Torus<S>));
    ensure_eq!(pkw.len(), n * (n + 1), "lwe-pk-size");
    for (i, z) in pkw.chunks(n + 1).enumerate() {
        let e = S::signed(lwe_phase::<S>(z, &s));
        ensure!(e.abs() <= n12, "lwe-pk-entry", "entry {i} encrypts {e}, not zero");
    }
    let (ct, rnd) = pk.encrypt(S::of(m), &d, PlaintextBits(bits));
    let check = |ct: &LweCiphertextRef<S>, rnd: &TlwePublicEncRandomness<S>| -> Res {
        let ew = uraw(raw!(rnd.e, LweCiphertextRef, Torus<S>));
        ensure_eq!(rnd.r.len(), n, "lwe-pk-randomness-length");
        ensure!(rnd.r.iter().all(|x| x.u() < 2), "lwe-pk-randomness-binary");
        ensure!(ew.iter().all(|x| S::signed(*x).abs() <= n12), "lwe-pk-randomness-noise", "errors {:?} bound {}", ew, n12);
        let mut want = ew.clone();
        for (z, r) in pkw.chunks(n + 1).zip(&rnd.r) {
            if r.u() == 1 {
                for (w, x) in want.iter_mut().zip(z) {
                    *w = w.wrapping_add(*x);
                }
            }
        }
        want[n] = want[n].wrapping_add(enc);
        let want: Vec<u64> = want.iter().map(|x| x & mask(S::bits())).collect();
        ensure_eq!(uraw(raw!(*ct, LweCiphertextRef, Torus<S>)), want, "lwe-pk-reproduce", "ciphertext is not pk*r + e + m");
        Ok(())
    };
    check(&ct, &rnd)?;
    let err = n12 * (n as i128 + 1 + l1::<S>(&s));
    let can = decodes::<S>(bits, err);
    if can {
        ensure_eq!(sk.decrypt(&ct, &d, PlaintextBits(bits)).u(), m, "lwe-pk-decrypt");
    }
    if c.wide {
        let (sk, pk): (&LweSecretKeyRef<u64>, &LwePublicKeyRef<u64>) =
            unsafe { (&*(&*sk as *const _ as *const _), &*(&*pk as *const _ as *const _)) };
        let ct = encryption::encrypt_lwe(m, pk, &d, PlaintextBits(bits));
        ensure!(tdist::<u64>(lphase::<u64>(&ct, &s), enc).abs() <= err.max(0), "lwe-pk-high-level");
        let (ct, r) = encryption::encrypt_lwe_and_return_randomness(m, pk, &d, PlaintextBits(bits));
        let (ct, r): (&LweCiphertextRef<S>, &TlwePublicEncRandomness<S>) = unsafe { (&*(&*ct as *const _ as *const _), &*(&r as *const _ as *const _)) };
        check(ct, r)?;
        if can {
            let pk2 = keygen::generate_lwe_pk(sk, &d);
            let ct = encryption::encrypt_lwe(m, &pk2, &d, PlaintextBits(bits));
            ensure_eq!(encryption::decrypt_lwe(&ct, sk, &d, PlaintextBits(bits)), m, "lwe-pk-high-level-decrypt");
        }
    }
    cov.label(S::NAME);
    cov.label_if(can, "decoded");
    cov.nontrivial_if(m != 0 && n > 1);
    Ok(())
}

fn ring_public<S: Word>(c: &GlweCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let n = c.n();
    let d = glwe_def(n, 1, std_of(c.std));
    let n12 = noise12::<S>(d.std.0);
    let bits = (c.bits as u32).min(S::bits() - 1);
    let raw_msg: Vec<u64> = expand(&c.fill, n, c.seed).iter().map(|x| x & mask(S::bits())).collect();
    let m: Vec<u64> = raw_msg.iter().map(|x| x & mask(bits)).collect();
    let enc: Vec<u64> = m.iter().map(|x| (x << (S::bits() - bits)) & mask(S::bits())).collect();
    let sk = glwe_key::<S>(&d, c.uniform);
    let s = glwe_key_polys::<S>(&sk, &d);
    let mut pk = RlwePublicKey::<S>::new(&d);
    dirty::<S>(raw_mut!(pk, RlwePublicKeyRef, Torus<S>), c.seed);
    rlwe_generate_public_key(&mut pk, &sk, &d);
    let pkw = uraw(raw!(pk, RlwePublicKeyRef, Torus<S>));
    near::<S>(&glwe_phase::<S>(&pkw, &s), &vec![0; n], n12, "rlwe-pk-entry", "public key does not encrypt zero")?;
    let (p0, p1) = (&pkw[..n], &pkw[n..]);
    ensure_eq!((utpoly(pk.p0_p1(&d).0), utpoly(pk.p0_p1(&d).1)), (p0.to_vec(), p1.to_vec()), "rlwe-pk-parts");

    let check = |ct: &GlweCiphertextRef<S>, r: &RlwePublicEncryptionRandomness<S>, m: &[u64], sig: &str| -> Res {
        let (e0, e1, u) = (utpoly(&r.e0), utpoly(&r.e1), upoly(&r.u));
        ensure!(u.iter().all(|x| *x < 2), "rlwe-randomness-binary");
        near::<S>(&e0, &vec![0; n], n12, "rlwe-randomness-noise", "e0")?;
        near::<S>(&e1, &vec![0; n], n12, "rlwe-randomness-noise", "e1")?;
        let a = addp::<S>(&negacyclic_mul::<S>(p0, &u), &e0);
        let b = addp::<S>(&addp::<S>(&negacyclic_mul::<S>(p1, &u), &e1), m);
        ensure_eq!(uraw(raw!(*ct, GlweCiphertextRef, Torus<S>)), [a, b].concat(), sig, "ciphertext is not (p0 u + e0, p1 u + e1 + m)");
        Ok(())
    };
    let mut ct = GlweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(ct, GlweCiphertextRef, Torus<S>), c.seed ^ 3);
    let rnd = rlwe_encrypt_public(&mut ct, &tpoly::<S>(&raw_msg), &pk, &d);
    check(&ct, &rnd, &raw_msg, "rlwe-reproduce")?;
    let mut ct = GlweCiphertext::<S>::new(&d);
    dirty::<S>(raw_mut!(ct, GlweCiphertextRef, Torus<S>), c.seed ^ 4);
    let rnd = rlwe_encode_encrypt_public(&mut ct, &poly::<S>(&m), &pk, &PlaintextBits(bits), &d);
    check(&ct, &rnd, &enc, "rlwe-encode-reproduce")?;
    // e_pk*u + e1 - e0*s
    let err = n12 * (n as i128 + 1 + l1s::<S>(&s));
    let can = decodes::<S>(bits, err);
    if can {
        ensure_eq!(upoly(&sk.decrypt_decode_glwe(&ct, &d, PlaintextBits(bits))), m, "rlwe-decrypt");
    }
    // gadget-vector, every level
    let r = c.r.rad();
    let mut rlev = GlevCiphertext::<S>::new(&d, &r);
    dirty::<S>(raw_mut!(rlev, GlevCiphertextRef, Torus<S>), c.seed ^ 5);
    encrypt_rlev_ciphertext(&mut rlev, &tpoly::<S>(&raw_msg), &pk, &d, &r);
    let got = phases::<S>(&uraw(raw!(rlev, GlevCiphertextRef, Torus<S>)), &s);
    near_all::<S>(&got, &glev_messages::<S>(&raw_msg, &c.r), err, "rlev-phase", "")?;
    if meaningful::<S>(err) {
        cov.label("rlev-meaningful");
    }
    let log = c.r.log() as u32;
    if err < 1i128 << (S::bits() - log - 1) {
        let small: Vec<u64> = raw_msg.iter().map(|x| x & mask(log)).collect();
        encrypt_rlev_ciphertext(&mut rlev, &tpoly::<S>(&small), &pk, &d, &r);
        let mut out = tpoly::<S>(&raw_msg);
        decrypt_glev_ciphertext(&mut out, &rlev, &sk, &d, &r);
        ensure_eq!(utpoly(&out), small, "rlev-decrypt");
    }
    if c.wide {
        let (sk, pk): (&GlweSecretKeyRef<u64>, &RlwePublicKeyRef<u64>) =
            unsafe { (&*(&*sk as *const _ as *const _), &*(&*pk as *const _ as *const _)) };
        let bin: Vec<u64> = raw_msg.iter().map(|x| x & 1).collect();
        let h = encryption::encrypt_binary_msg_rlev(&poly::<u64>(&bin), pk, &d, &r);
        let got = phases::<u64>(&uraw(raw!(h, GlevCiphertextRef, Torus<u64>)), &s);
        near_all::<u64>(&got, &glev_messages::<u64>(&bin, &c.r), err, "rlev-high-level", "")?;
        let pk2 = keygen::generate_rlwe_public_key(&sk.to_owned(), &d);
        near::<u64>(&glwe_phase::<u64>(&uraw(raw!(pk2, RlwePublicKeyRef, Torus<u64>)), &s), &vec![0; n], n12, "rlwe-pk-high-level", "")?;
    }
    cov.label(S::NAME);
    cov.label_if(can, "decoded");
    cov.nontrivial_if(m.iter().any(|x| *x != 0));
    Ok(())
}

/// Run `f` with standard output and error redirected to files; returns what was written.
fn captured(f: impl FnOnce()) -> Vec<u8> {
    extern "C" {
        fn dup(fd: i32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn close(fd: i32) -> i32;
    }
    let path = std::env::temp_dir().join(format!("vkit-capture-{}", std::process::id()));
    let mut file = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
    let _ = std::fs::remove_file(&path);
    unsafe {
        let (o, e) = (dup(1), dup(2));
        dup2(file.as_raw_fd(), 1);
        dup2(file.as_raw_fd(), 2);
        let r = catch(f);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        dup2(o, 1);
        dup2(e, 2);
        close(o);
        close(e);
        if let Err(m) = r {
            panic!("{m}");
        }
    }
    let mut out = vec![];
    file.seek(SeekFrom::Start(0)).unwrap();
    file.read_to_end(&mut out).unwrap();
    out
}

fn t06() -> Check {
    Check {
        id: "T06",
        assumptions: vec!["ring public keys exist only for k = 1 (asserted by the code)", "errors are allowed up to 12 standard deviations per sample, added in the worst case"],
        subs: vec![
            sub("lwe", 24_000, 120_000, "scalar public keys of dimension 1..=40 for both words, any noise, binary/uniform keys: every key entry encrypts zero, the ciphertext equals pk*r + e + m for the reported (r,e), decryption; non-trivial: message not 0 and dimension > 1",
                lwe_case(40), |c: &LweCase, cov| if c.wide { lwe_public::<u64>(c, cov) } else { lwe_public::<u32>(c, cov) }),
            sub("ring", 20_000, 100_000, "ring public keys N 1..=128, message polynomials of any shape, gadget-vectors at every radix, dirty destinations: reproduction from (e0,e1,u), per-level phases, decryption; non-trivial: message not 0",
                glwe_case(0..=7, 1, 40, 10), |c: &GlweCase, cov| if c.wide { ring_public::<u64>(c, cov) } else { ring_public::<u32>(c, cov) }),
            sub("no_side_output", 60, 2_000, "all public-key operations with standard output and error captured; non-trivial: always",
                (lwe_case(12), glwe_case(0..=5, 1, 40, 6)), |c: &(LweCase, GlweCase), cov| {
                    cov.nontrivial();
                    let mut r = Ok(());
                    let out = captured(|| {
                        let quiet = Cover::default();
                        r = if c.0.wide { lwe_public::<u64>(&c.0, &quiet) } else { lwe_public::<u32>(&c.0, &quiet) };
                        if r.is_ok() {
                            r = if c.1.wide { ring_public::<u64>(&c.1, &quiet) } else { ring_public::<u32>(&c.1, &quiet) };
                        }
                    });
                    r?;
                    ensure!(out.is_empty(), "side-output", "encryption wrote: {}", String::from_utf8_lossy(&out[..out.len().min(300)]));
                    Ok(())
                }).serial().shards(1).shrink(60),
        ],
    }
}

// ------------------------------------------------------------------------------- T07

/// Every place the library draws an error and a mask.
const KINDS: &[&str] = &[
    "lwe", "glwe", "glev", "ggsw", "ggsw-scalar", "lwe-pk", "rlwe-pk", "lwe-pk-enc", "rlwe-pk-enc", "rlev", "lwe-ksk", "glwe-ksk", "bsk", "ssk", "ak", "pufks", "pfks", "cbs", "rand", "rand-poly",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DistCase {
    kind: u8,
    wide: bool,
    uniform: bool,
    std: u8,
    log_n: u8,
    k: u8,
    r: Rx,
    seed: u64,
}

fn dist_case() -> BoxedStrategy<DistCase> {
    any::<bool>()
        .prop_flat_map(|wide| {
            let w = if wide { 64 } else { 32 };
            let std = if wide { 8u8..44 } else { 8u8..22 };
            (0..KINDS.len() as u8, Just(wide), any::<bool>(), std, prop_oneof![9 => 5u8..=7, 1 => 8u8..=10], 1u8..=3, rx(w, 12, 3), any::<u64>())
        })
        .prop_map(|(kind, wide, uniform, std, log_n, k, r, seed)| {
            let many = matches!(KINDS[kind as usize], "bsk" | "cbs" | "pfks");
            DistCase { kind, wide, uniform, std, log_n: if many { log_n.min(8) } else { log_n }, k: if log_n > 7 { 1 } else { k }, r, seed }
        })
        .boxed()
}

/// Errors and mask words of freshly generated material of one kind. `want` objects may be
/// generated several times to reach a useful sample.
pub struct Samples {
    pub errors: Vec<i128>,
    pub masks: Vec<u64>,
    /// bits that should be uniform
    pub bits: Vec<u64>,
}

pub fn sample_kind<S: Word>(kind: &str, n: usize, k: usize, std: f64, uniform: bool, rr: &Rx, want: usize) -> Samples {
    let mut out = Samples { errors: vec![], masks: vec![], bits: vec![] };
    let r = rr.rad();
    let k = if matches!(kind, "rlwe-pk" | "rlwe-pk-enc" | "rlev") { 1 } else { k };
    // scheme-switch keys take the product of key polynomials through the Fourier domain, which is
    // exact for binary keys only
    let uniform = uniform && kind != "ssk";
    let g = glwe_def(n, k, std);
    let l = lwe_def(n, std);
    // keys under which things are encrypted carry their own parameters; an unrelated second
    // standard deviation catches material that takes its noise from the wrong parameters
    let other_l = lwe_def(24, std * 16.0);
    let gk = glwe_key::<S>(&g, uniform);
    let gs = glwe_key_polys::<S>(&gk, &g);
    let lk = lwe_key::<S>(&l, uniform);
    let ls = lwe_key_words::<S>(&lk);
    let other_k = lwe_key::<S>(&other_l, false);
    let os = lwe_key_words::<S>(&other_k);
    let gl = |out: &mut Samples, words: &[u64], want: &[Vec<u64>]| {
        let sz = (k + 1) * n;
        for (c, w) in words.chunks(sz).zip(want) {
            let p = glwe_phase::<S>(c, &gs);
            out.errors.extend(p.iter().zip(w).map(|(a, b)| tdist::<S>(*a, *b)));
            out.masks.extend(&c[..k * n]);
        }
    };
    let mut round = 0u64;
    while out.errors.len() < want {
        round += 1;
        let m: Vec<u64> = expand(&Fill::Random, n, round);
        match kind {
            "lwe" => {
                let mut ct = LweCiphertext::<S>::new(&l);
                let e = encrypt_lwe_ciphertext(&mut ct, &lk, t::<S>(m[0]), &l).inner().u();
                out.errors.push(S::signed(e));
                out.masks.extend(&uraw(raw!(ct, LweCiphertextRef, Torus<S>))[..n]);
            }
            "glwe" => {
                let mut ct = GlweCiphertext::<S>::new(&g);
                encrypt_glwe_ciphertext_secret(&mut ct, &tpoly::<S>(&m), &gk, &g);
                gl(&mut out, &uraw(raw!(ct, GlweCiphertextRef, Torus<S>)), &[m]);
            }
            "glev" => {
                let mut ct = GlevCiphertext::<S>::new(&g, &r);
                encrypt_secret_glev_ciphertext(&mut ct, &tpoly::<S>(&m), &gk, &g, &r);
                gl(&mut out, &uraw(raw!(ct, GlevCiphertextRef, Torus<S>)), &glev_messages::<S>(&m, rr));
            }
            "ggsw" | "ggsw-scalar" => {
                let mut ct = GgswCiphertext::<S>::new(&g, &r);
                let m = if kind == "ggsw" { m.iter().map(|x| x & 15).collect() } else { constant(n, 1) };
                if kind == "ggsw" {
                    encrypt_ggsw_ciphertext(&mut ct, &poly::<S>(&m), &gk, &g, &r, PlaintextBits(4));
                } else {
                    encrypt_ggsw_ciphertext_scalar(&mut ct, S::of(1), &gk, &g, &r, PlaintextBits(1));
                }
                gl(&mut out, &uraw(raw!(ct, GgswCiphertextRef, Torus<S>)), &ggsw_messages::<S>(&m, &gs, rr));
            }
            "lwe-pk" => {
                let pk = LwePublicKey::<S>::generate(&lk, &l);
                for z in uraw(raw!(pk, LwePublicKeyRef, Torus<S>)).chunks(n + 1) {
                    out.errors.push(S::signed(lwe_phase::<S>(z, &ls)));
                    out.masks.extend(&z[..n]);
                }
            }
            "rlwe-pk" => {
                let mut pk = RlwePublicKey::<S>::new(&g);
                rlwe_generate_public_key(&mut pk, &gk, &g);
                gl(&mut out, &uraw(raw!(pk, RlwePublicKeyRef, Torus<S>)), &[vec![0; n]]);
            }
            "lwe-pk-enc" => {
                let d = lwe_def(32, std);
                let sk = lwe_key::<S>(&d, uniform);
                let pk = LwePublicKey::<S>::generate(&sk, &d);
                for _ in 0..16 {
                    let (ct, rnd) = pk.encrypt(S::of(round & 1), &d, PlaintextBits(1));
                    out.errors.extend(uraw(raw!(rnd.e, LweCiphertextRef, Torus<S>)).iter().map(|x| S::signed(*x)));
                    out.bits.extend(rnd.r.iter().map(|x| x.u()));
                    out.masks.extend(&uraw(raw!(ct, LweCiphertextRef, Torus<S>))[..32]);
                }
            }
            "rlwe-pk-enc" => {
                let mut pk = RlwePublicKey::<S>::new(&g);
                rlwe_generate_public_key(&mut pk, &gk, &g);
                for _ in 0..4 {
                    let mut ct = GlweCiphertext::<S>::new(&g);
                    let rnd = rlwe_encrypt_public(&mut ct, &tpoly::<S>(&m), &pk, &g);
                    out.errors.extend(utpoly(&rnd.e0).iter().map(|x| S::signed(*x)));
                    out.errors.extend(utpoly(&rnd.e1).iter().map(|x| S::signed(*x)));
                    out.bits.extend(upoly(&rnd.u));
                    out.masks.extend(&uraw(raw!(ct, GlweCiphertextRef, Torus<S>))[..n]);
                }
            }
            "rlev" => {
                // two encryptions of the same message differ by (p0 u', p1 u') + noise: check masks
                let mut pk = RlwePublicKey::<S>::new(&g);
                rlwe_generate_public_key(&mut pk, &gk, &g);
                gl(&mut out, &uraw(raw!(pk, RlwePublicKeyRef, Torus<S>)), &[vec![0; n]]);
                let mut ct = GlevCiphertext::<S>::new(&g, &r);
                encrypt_rlev_ciphertext(&mut ct, &tpoly::<S>(&m), &pk, &g, &r);
                for c in uraw(raw!(ct, GlevCiphertextRef, Torus<S>)).chunks(2 * n) {
                    out.masks.extend(&c[..n]);
                }
            }
            "lwe-ksk" => {
                let mut key = LweKeyswitchKey::<S>::new(&other_l, &l, &r);
                generate_keyswitch_key_lwe(&mut key, &other_k, &lk, &other_l, &l, &r);
                for (i, c) in uraw(raw!(key, LweKeyswitchKeyRef, Torus<S>)).chunks(n + 1).enumerate() {
                    let (row, lev) = (i / rr.count(), i % rr.count());
                    out.errors.push(tdist::<S>(lwe_phase::<S>(c, &ls), scale::<S>(&[os[row]], rr.log(), lev)[0]));
                    out.masks.extend(&c[..n]);
                }
            }
            "glwe-ksk" => {
                let from = glwe_key::<S>(&g, uniform);
                let fs = glwe_key_polys::<S>(&from, &g);
                let mut key = GlweKeyswitchKey::<S>::new(&g, &r);
                generate_keyswitch_key_glwe(&mut key, &from, &gk, &g, &r);
                let want: Vec<_> = fs.iter().flat_map(|s| glev_messages::<S>(s, rr)).collect();
                gl(&mut out, &uraw(raw!(key, GlweKeyswitchKeyRef, Torus<S>)), &want);
            }
            "bsk" => {
                let mut key = BootstrapKey::<S>::new(&other_l, &g, &r);
                generate_bootstrap_key(&mut key, &other_k, &gk, &other_l, &g, &r);
                let want: Vec<_> = os.iter().flat_map(|s| ggsw_messages::<S>(&constant(n, *s), &gs, rr)).collect();
                gl(&mut out, &uraw(raw!(key, BootstrapKeyRef, Torus<S>)), &want);
            }
            "ssk" => {
                let mut key = SchemeSwitchKey::<S>::new(&g, &r);
                S::gen_ssk(&mut key, &gk, &g, &r);
                let want = ssk_messages::<S>(&gs, rr);
                gl(&mut out, &uraw(raw!(key, SchemeSwitchKeyRef, Torus<S>)), &want);
            }
            "ak" => {
                let mut key = AutomorphismKey::<S>::new(&g, &r);
                generate_automorphism_key(&mut key, &gk, &g, &r);
                let want = ak_messages::<S>(&gs, rr);
                gl(&mut out, &uraw(raw!(key, AutomorphismKeyRef, Torus<S>)), &want);
            }
            "pufks" => {
                let mut key = PublicFunctionalKeyswitchKey::<S>::new(&other_l, &g, &r);
                generate_public_functional_keyswitch_key(&mut key, &other_k, &gk, &other_l, &g, &r);
                let want: Vec<_> = os.iter().flat_map(|s| glev_messages::<S>(&constant(n, *s), rr)).collect();
                gl(&mut out, &uraw(raw!(key, PublicFunctionalKeyswitchKeyRef, Torus<S>)), &want);
            }
            "pfks" => {
                let cnt = PrivateFunctionalKeyswitchLweCount(2);
                let mut key = PrivateFunctionalKeyswitchKey::<S>::new(&other_l, &g, &r, &cnt);
                let map = |p: &mut PolynomialRef<Torus<S>>, x: &[Torus<S>]| {
                    for (i, v) in x.iter().enumerate() {
                        p.coeffs_mut()[i] = *v;
                    }
                };
                generate_private_functional_keyswitch_key(&mut key, &other_k, &gk, map, &other_l, &g, &r, &cnt);
                let mut want = vec![];
                for z in 0..2 {
                    for s in os.iter().copied().chain([u64::MAX]) {
                        let mut p = vec![0; n];
                        p[z] = s;
                        want.extend(glev_messages::<S>(&p, rr));
                    }
                }
                gl(&mut out, &uraw(raw!(key, PrivateFunctionalKeyswitchKeyRef, Torus<S>)), &want);
            }
            "cbs" => {
                let mut key = CircuitBootstrappingKeyswitchKeys::<S>::new(&other_l, &g, &r);
                generate_circuit_bootstrapping_pfks_keys(&mut key, &other_k, &gk, &other_l, &g, &r);
                let want = cbs_messages::<S>(&os, &gs, rr);
                gl(&mut out, &uraw(raw!(key, CircuitBootstrappingKeyswitchKeysRef, Torus<S>)), &want);
            }
            "rand" => {
                out.errors.extend((0..100).map(|_| S::signed(rand::normal_torus::<S>(rand::Stddev(std)).inner().u())));
                out.masks.extend((0..100).map(|_| rand::uniform_torus::<S>().inner().u()));
                out.bits.extend((0..100).map(|_| rand::binary::<S>().u()));
            }
            "rand-poly" => {
                let mut p = tpoly::<S>(&m);
                rand::normal_torus_polynomial(&mut p, rand::Stddev(std));
                out.errors.extend(utpoly(&p).into_iter().map(S::signed));
                let mut p = poly::<S>(&m);
                rand::binary_torus_polynomial(&mut p);
                out.bits.extend(upoly(&p));
                out.masks.extend((0..n).map(|_| rand::uniform_torus::<S>().inner().u()));
            }
            _ => unreachable!(),
        }
    }
    out
}

/// s_i*s_j for i <= j, row by row, each at every level.
pub fn ssk_messages<S: Word>(gs: &[Vec<u64>], rr: &Rx) -> Vec<Vec<u64>> {
    let mut want = vec![];
    for i in 0..gs.len() {
        for j in i..gs.len() {
            want.extend(glev_messages::<S>(&negacyclic_mul::<S>(&gs[i], &gs[j]), rr));
        }
    }
    want
}
/// X -> X^k on a polynomial modulo X^n+1.
pub fn pow_k<S: Word>(p: &[u64], k: usize) -> Vec<u64> {
    let n = p.len();
    let mut out = vec![0u64; n];
    for (i, x) in p.iter().enumerate() {
        let e = i * k % (2 * n);
        let v = if e < n { *x } else { x.wrapping_neg() };
        out[e % n] = out[e % n].wrapping_add(v) & mask(S::bits());
    }
    out
}
/// Stage i switches from s(X^(N/2^(i-1)+1)) to s.
pub fn ak_messages<S: Word>(gs: &[Vec<u64>], rr: &Rx) -> Vec<Vec<u64>> {
    let n = gs[0].len();
    let mut want = vec![];
    for i in 1..=n.ilog2() {
        let k = n / (1 << (i - 1)) + 1;
        for s in gs {
            want.extend(glev_messages::<S>(&pow_k::<S>(s, k), rr));
        }
    }
    want
}
/// Key i maps x to -x*s_i (i < k) or to the constant x; rows are s_0.., -1.
pub fn cbs_messages<S: Word>(os: &[u64], gs: &[Vec<u64>], rr: &Rx) -> Vec<Vec<u64>> {
    let n = gs[0].len();
    let mut maps: Vec<Vec<u64>> = gs.iter().map(|s| neg::<S>(s)).collect();
    maps.push(constant(n, 1));
    let mut want = vec![];
    for mp in &maps {
        for s in os.iter().copied().chain([u64::MAX]) {
            let p: Vec<u64> = mp.iter().map(|x| x.wrapping_mul(s) & mask(S::bits())).collect();
            want.extend(glev_messages::<S>(&p, rr));
        }
    }
    want
}

fn bit_balance(name: &str, words: &[u64], bits: u32) -> Res {
    let n = words.len() as f64;
    for b in 0..bits {
        let ones = words.iter().filter(|x| *x >> b & 1 == 1).count() as f64;
        ensure!((ones - n / 2.0).abs() < 8.0 * n.sqrt() / 2.0 + 1.0, format!("{name}-bias"), "bit {} is one in {} of {}", b, ones, n);
    }
    Ok(())
}

fn error_stats<S: Word>(errors: &[i128], std: f64) -> Res {
    let n = errors.len() as f64;
    let sigma = std * 2f64.powi(S::bits() as i32);
    let e: Vec<f64> = errors.iter().map(|x| *x as f64 / sigma).collect();
    let mean = e.iter().sum::<f64>() / n;
    ensure!(mean.abs() < 8.0 / n.sqrt() + 1.0 / sigma, "noise-mean", "mean {} sigma over {} samples", mean, n);
    let var = e.iter().map(|x| x * x).sum::<f64>() / n;
    let tol = 9.0 * (2.0 / n).sqrt() + 1.0 / (6.0 * sigma * sigma) + 2e-3;
    ensure!((var - 1.0).abs() < tol, "noise-stddev", "standard deviation is {} times the specified {} ({} samples)", var.sqrt(), std, n);
    for (q, p) in [(0.5, 0.382_924_9), (1.0, 0.682_689_5), (2.0, 0.954_499_7)] {
        let f = e.iter().filter(|x| x.abs() < q).count() as f64 / n;
        let tol = 8.0 * (p * (1.0 - p) / n).sqrt() + 2.0 / sigma;
        ensure!((f - p).abs() < tol, "noise-shape", "{} of errors within {} sigma, expected {}", f, q, p);
    }
    let worst = e.iter().fold(0.0f64, |a, b| a.max(b.abs()));
    ensure!(worst < 12.0, "noise-tail", "an error of {} sigma", worst);
    // shared errors: consecutive correlation and repeats
    for lag in [1usize, 2, 32, 64, 128] {
        if e.len() > 4 * lag {
            let c = e.iter().zip(&e[lag..]).map(|(a, b)| a * b).sum::<f64>() / (n - lag as f64);
            ensure!(c.abs() < 9.0 / (n - lag as f64).sqrt(), "noise-correlated", "errors at distance {} correlate: {}", lag, c);
        }
    }
    let mut v = errors.to_vec();
    v.sort();
    let dup = v.windows(2).filter(|w| w[0] == w[1]).count() as f64;
    // pairs / (2 sqrt(pi) sigma)
    let expect = n * n / 2.0 / (2.0 * std::f64::consts::PI.sqrt() * sigma);
    if expect < n / 20.0 {
        ensure!(dup < expect + 8.0 * expect.sqrt() + 8.0, "noise-repeats", "{} repeated errors among {}, expected {:.1}", dup, n, expect);
    }
    Ok(())
}

fn mask_stats<S: Word>(masks: &[u64]) -> Res {
    bit_balance("mask", masks, S::bits())?;
    let mut v = masks.to_vec();
    v.sort();
    let n = v.len() as f64;
    let dup = v.windows(2).filter(|w| w[0] == w[1]).count() as f64;
    let expect = n * n / 2.0 / 2f64.powi(S::bits() as i32);
    ensure!(dup <= expect + 8.0 * expect.sqrt() + 3.0, "mask-repeats", "{} repeated mask words among {}, expected {:.2}", dup, n, expect);
    ensure!(masks.iter().filter(|x| **x == 0).count() < 4, "mask-zeros");
    Ok(())
}

fn dist_check<S: Word>(c: &DistCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let kind = KINDS[c.kind as usize];
    let std = std_of(c.std);
    let s = sample_kind::<S>(kind, 1 << c.log_n, c.k as usize, std, c.uniform, &c.r, 4_000);
    error_stats::<S>(&s.errors, std).map_err(|e| Fail { sig: e.sig, msg: format!("{kind} {}: {}", S::NAME, e.msg) })?;
    mask_stats::<S>(&s.masks).map_err(|e| Fail { sig: e.sig, msg: format!("{kind} {}: {}", S::NAME, e.msg) })?;
    if !s.bits.is_empty() {
        bit_balance("public-randomness", &s.bits, 1)?;
    }
    cov.label(kind);
    cov.comparisons(s.errors.len() as u64);
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    wide: bool,
    uniform: bool,
    log_n: u8,
    k: u8,
    seed: u64,
}

fn key_check<S: Word>(c: &KeyCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let (n, k) = (1usize << c.log_n, c.k as usize);
    let g = glwe_def(n, k, 1e-5);
    let l = lwe_def(n * k, 1e-5);
    let a = glwe_key::<S>(&g, c.uniform);
    let b = glwe_key::<S>(&g, c.uniform);
    let x = lwe_key::<S>(&l, c.uniform);
    let words = [glwe_key_polys::<S>(&a, &g).concat(), glwe_key_polys::<S>(&b, &g).concat(), lwe_key_words::<S>(&x)];
    for w in &words {
        ensure_eq!(w.len(), n * k, "key-length");
        if !c.uniform {
            ensure!(w.iter().all(|x| *x < 2), "binary-key");
        } else {
            mask_stats::<S>(w)?;
        }
    }
    let all = words.concat();
    bit_balance("key", &all, if c.uniform { S::bits() } else { 1 })?;
    // runs: a repeated component or key shows as equal halves
    let polys: Vec<&[u64]> = all.chunks(n).collect();
    for i in 0..polys.len() {
        for j in 0..i {
            let agree = polys[i].iter().zip(polys[j]).filter(|(a, b)| a == b).count() as f64;
            let lim = if c.uniform { 8.0 } else { n as f64 / 2.0 + 8.0 * (n as f64).sqrt() / 2.0 };
            ensure!(agree <= lim, "key-repeats", "components {} and {} agree in {} of {}", j, i, agree, n);
        }
    }
    if c.wide {
        // the high-level generators
        let hl = [
            lwe_key_words::<u64>(&keygen::generate_binary_lwe_sk(&l)),
            glwe_key_polys::<u64>(&keygen::generate_binary_glwe_sk(&g), &g).concat(),
        ];
        for w in hl {
            ensure!(w.iter().all(|x| *x < 2), "binary-key-high-level");
            bit_balance("key-high-level", &w, 1)?;
        }
        for w in [
            lwe_key_words::<u64>(&keygen::generate_uniform_lwe_sk(&l)),
            glwe_key_polys::<u64>(&keygen::generate_uniform_glwe_sk(&g), &g).concat(),
        ] {
            mask_stats::<u64>(&w)?;
        }
    }
    cov.label(if c.uniform { "uniform" } else { "binary" });
    cov.nontrivial();
    Ok(())
}

/// What `--entropy` prints: words of unseeded keys and ciphertexts of every kind.
pub fn entropy_words() -> Vec<u64> {
    let mut out = vec![];
    for kind in KINDS {
        let s = sample_kind::<u64>(kind, 16, 1, 2f64.powi(-20), true, &Rx { log: 8, count: 2 }, 8);
        out.extend(s.masks.iter().take(400));
        out.extend(s.errors.iter().take(8).map(|x| *x as u64));
    }
    let g = glwe_def(64, 1, 1e-5);
    for _ in 0..2 {
        let k = glwe_key_polys::<u64>(&glwe_key::<u64>(&g, false), &g).concat();
        out.push(k.iter().enumerate().fold(0, |a, (i, b)| a | b << i));
    }
    out
}

fn entropy_check(_: &u8, cov: &Cover) -> Res {
    let exe = std::env::current_exe().unwrap();
    let child = || -> Vec<u64> {
        let o = std::process::Command::new(&exe).arg("--entropy").output().unwrap();
        String::from_utf8(o.stdout).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect()
    };
    let mut lists = vec![child(), child()];
    lists.extend(std::thread::scope(|s| {
        let a = s.spawn(entropy_words);
        let b = s.spawn(entropy_words);
        vec![a.join().unwrap(), b.join().unwrap()]
    }));
    ensure!(lists.iter().all(|l| l.len() > 500), "entropy-run");
    let mut seen = std::collections::HashMap::new();
    let mut shared = 0;
    for (i, l) in lists.iter().enumerate() {
        for w in l {
            if let Some(j) = seen.insert(*w, i) {
                shared += 1;
                if i != j && shared > 6 {
                    return fail("entropy-repeats", format!("runs {j} and {i} produced the same random words"));
                }
            }
        }
    }
    cov.comparisons(seen.len() as u64);
    cov.nontrivial();
    Ok(())
}

fn t07() -> Check {
    Check {
        id: "T07",
        assumptions: vec![
            "statistical: tolerances of 8 to 9 standard errors (a false alarm is less likely than 1e-12 per case); generation that rayon spreads over threads draws unseeded randomness",
            "unpredictability is tested as: unbiased bits, no repeats within or between objects, threads and processes; cryptographic strength of the generator is assumed",
        ],
        subs: vec![
            sub("noise_and_masks", 2_880, 20_000, "4000+ errors and their masks of one of 18 kinds of encryption or key material, for a drawn noise level, shape and radix: mean, variance, quantiles, tail, correlation, repeats, per-bit balance; non-trivial: always",
                dist_case(), |c: &DistCase, cov| if c.wide { dist_check::<u64>(c, cov) } else { dist_check::<u32>(c, cov) }).shrink(30),
            sub("keys", 2_400, 10_000, "secret keys of every kind: bit range, balance per bit, no repeated components; non-trivial: always",
                (any::<bool>(), any::<bool>(), 8u8..=11, 1u8..=4, any::<u64>()).prop_map(|(wide, uniform, log_n, k, seed)| KeyCase { wide, uniform, log_n, k, seed }),
                |c: &KeyCase, cov| if c.wide { key_check::<u64>(c, cov) } else { key_check::<u32>(c, cov) }).shrink(60),
            sub("unseeded_entropy", 2, 20, "unseeded words of every kind from two child processes and two threads share nothing; non-trivial: always",
                any::<u8>(), entropy_check).serial().shards(1).shrink(0),
        ],
    }
}
