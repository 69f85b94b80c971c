use crate::common::*;
use parasol_runtime::*;
use sunscreen_tfhe::{entities::*, ops::encryption::*, Torus};
fn phase(ct: &GlweCiphertextRef<u64>, c: &Ctx) -> Vec<i64> {
    let mut p = Polynomial::<Torus<u64>>::zero(c.params.l1_params.dim.polynomial_degree.0);
    decrypt_glwe_ciphertext(&mut p, ct, &c.sk.glwe_1, &c.params.l1_params);
    p.coeffs().iter().map(|x| x.inner() as i64).collect()
}
fn glev_noise(g: &L1GlevCiphertext, bit: bool, c: &Ctx, s: &str) {
    print!("{s}: glev ");
    for (j, row) in g.0.glwe_ciphertexts(&c.params.l1_params).enumerate() {
        let mut p = phase(row, c);
        if bit { p[0] = p[0].wrapping_sub((1u64 << (64 - c.params.cbs_radix.radix_log.0 * (j + 1))) as i64) }
        let m = p.iter().map(|x| x.unsigned_abs()).max().unwrap();
        print!(" {:.1}", (m as f64).log2() - 64.);
    }
    println!();
}
pub fn run() {
    for (name, c) in [("small", ctx(0)), ("default", ctx(3))] {
        println!("{name}");
        let enc = &c.enc;
        let fresh = enc.encrypt_ggsw_l1_secret(true, &c.sk);
        let l0 = enc.encrypt_lwe_l0_secret(true, &c.sk);
        let mut g0 = enc.allocate_ggsw_l1();
        c.eval.circuit_bootstrap(&mut g0, &l0);
        for (n, g) in [("fresh", fresh), ("cbs", g0)] {
            let chain = |g: &L1GgswCiphertext, n: usize| {
                let mut a = enc.trivial_glev_l1_one();
                let zero = enc.trivial_glev_l1_zero();
                for i in 0..n {
                    let mut o = enc.allocate_glev_l1();
                    c.eval.glev_cmux(&mut o, g, &zero, &a);
                    glev_noise(&o, true, c, &format!("{n} {i}"));
                    a = o;
                }
                a
            };
            let a = chain(&g, 12);
            let mut g1 = enc.allocate_ggsw_l1();
            c.eval.scheme_switch(&mut g1, &a);
            let _ = chain(&g1, 12);
        }
    }
}
