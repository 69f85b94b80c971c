//! Small parameter sets whose worst-case error stays far below the decision threshold, keys for
//! them, and plaintext integers as bit vectors.
use parasol_runtime::*;
use std::sync::{Arc, OnceLock};
use sunscreen_tfhe::{rand::Stddev, GlweDef, GlweDimension, GlweSize, LweDef, LweDimension, PolynomialDegree, RadixCount, RadixDecomposition, RadixLog};

fn radix(log: usize, count: usize) -> RadixDecomposition {
    RadixDecomposition { radix_log: RadixLog(log), count: RadixCount(count) }
}

/// `small(k)`: every operation of the runtime at 1/1000 of the cost of DEFAULT_128. The modulus
/// switch error of circuit bootstrapping is at most (n+1)/(4N/8) = 5/64 < 1/4, the rest
/// stays more than ten standard deviations below the threshold for any computation generated here.
pub fn small(k: usize) -> Params {
    Params {
        l0_params: LweDef { dim: LweDimension(4), std: Stddev(1e-17) },
        l1_params: GlweDef { dim: GlweDimension { polynomial_degree: PolynomialDegree(128), size: GlweSize(k) }, std: Stddev(1e-17) },
        cbs_radix: radix(4, 7),
        pbs_radix: radix(8, 6),
        ks_radix: radix(4, 8),
        pfks_radix: radix(17, 2),
        ss_radix: radix(8, 6),
        tr_radix: radix(5, 11),
    }
}

pub struct Ctx {
    pub params: Params,
    pub enc: Encryption,
    pub sk: SecretKey,
    pub pk: Option<PublicKey>,
    pub compute_key: Arc<ComputeKey>,
    pub eval: Evaluation,
}

impl Ctx {
    fn new(params: Params) -> Self {
        let enc = Encryption::new(&params);
        let sk = SecretKey::generate(&params);
        let pk = (params.l1_params.dim.size.0 == 1).then(|| PublicKey::generate(&params, &sk));
        let compute_key = Arc::new(ComputeKey::generate(&sk, &params));
        let eval = Evaluation::new(compute_key.clone(), &params, &enc);
        Ctx { params, enc, sk, pk, compute_key, eval }
    }
    pub fn pk(&self) -> &PublicKey {
        self.pk.as_ref().unwrap()
    }
}

/// 0 and 1: two key sets of the small parameters; 2: GLWE size two; 3: the 128-bit parameters.
pub fn ctx(i: usize) -> &'static Ctx {
    static C: [OnceLock<Ctx>; 4] = [const { OnceLock::new() }; 4];
    C[i].get_or_init(|| {
        Ctx::new(match i {
            0 | 1 => small(1),
            2 => small(2),
            _ => DEFAULT_128,
        })
    })
}

/// An integer as its bits, least significant first.
pub type Bits = Vec<bool>;

pub fn to_bits(v: u128, w: usize) -> Bits {
    (0..w).map(|i| i < 128 && v >> i & 1 == 1).collect()
}
pub fn unsigned(b: &[bool]) -> u128 {
    b.iter().enumerate().fold(0, |s, (i, &x)| s | (x as u128) << i)
}
pub fn signed(b: &[bool]) -> i128 {
    let u = unsigned(b);
    let w = b.len();
    if w < 128 && *b.last().unwrap() {
        (u as i128) - (1i128 << w)
    } else {
        u as i128
    }
}
