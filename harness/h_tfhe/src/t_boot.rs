//! T12 programmable bootstrapping, T13 circuit bootstrapping and scheme switching.
use crate::common::*;
use crate::fhe::*;
use crate::t_enc::{cbs_messages, ssk_messages};
use crate::t_ks::{raw_glev, raw_glwe, raw_lwe};
use num::Complex;
use serde::{Deserialize, Serialize};
use sunscreen_tfhe::{
    entities::*,
    high_level::{encryption, evaluation, fft, keygen},
    ops::{automorphisms::*, bootstrapping::*, fft_ops, keyswitch::private_functional_keyswitch::*},
    *,
};
use vkit::proptest::prelude::*;
use vkit::*;

pub fn checks() -> Vec<Check> {
    vec![t12(), t13()]
}

/// A radix precise enough for chained products: `lo..=hi` bits in total.
fn fine(wide: bool) -> BoxedStrategy<Rx> {
    let (lo, hi, w) = if wide { (24u32, 60u32, 64u32) } else { (14, 32, 32) };
    (prop_oneof![1 => 2u32..4, 5 => 4u32..=if wide { 14 } else { 11 }], lo..=hi)
        .prop_map(move |(log, total)| Rx { log: log as u8, count: (total / log).clamp(1, (w / log).min(9)) as u8 })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Params {
    wide: bool,
    dim: u8,
    log_n: u8,
    k: u8,
    lstd: u8,
    std: u8,
    r: Rx,
    seed: u64,
}
impl Params {
    fn lwe(&self) -> LweDef {
        lwe_def(self.dim as usize, std_of(self.lstd))
    }
    fn glwe(&self) -> GlweDef {
        glwe_def(self.n(), self.k as usize, std_of(self.std))
    }
    fn n(&self) -> usize {
        1 << self.log_n
    }
    fn ctx(&self) -> String {
        format!("lwe {} n {} k {} radix {:?} std 2^-{}", self.dim, self.n(), self.k, self.r, self.std)
    }
}
/// Small values twice as often.
fn skew(r: &std::ops::RangeInclusive<u8>) -> BoxedStrategy<u8> {
    let (a, b) = (*r.start(), *r.end());
    prop_oneof![2 => a..=a + (b - a) / 2, 1 => a..=b].boxed()
}
fn params(dim: std::ops::RangeInclusive<u8>, log_n: std::ops::RangeInclusive<u8>, max_k: u8) -> BoxedStrategy<Params> {
    prop::bool::weighted(0.7)
        .prop_flat_map(move |wide| {
            let std = if wide { prop_oneof![1 => Just(0u8), 4 => 38u8..56].boxed() } else { prop_oneof![3 => Just(0u8), 1 => 26u8..29].boxed() };
            (Just(wide), skew(&dim), skew(&log_n), 1..=max_k, std_log(wide), std, fine(wide), any::<u64>())
        })
        .prop_map(|(wide, dim, log_n, k, lstd, std, r, seed)| Params { wide, dim, log_n, k, lstd, std, r, seed })
        .boxed()
}

/// Everything a bootstrap needs, with the worst-case error of its output.
struct Boot<S: Word> {
    lk: LweSecretKey<S>,
    gk: GlweSecretKey<S>,
    ls: Vec<u64>,
    gs: Vec<Vec<u64>>,
    bsk: BootstrapKeyFft<Complex<f64>>,
    bound: i128,
}
fn boot_bound<S: Word>(p: &Params, s1: i128) -> i128 {
    (p.dim as i128).saturating_mul(ext_bound::<S>(p.n(), p.k as usize, &p.r, 1, s1, noise12::<S>(p.glwe().std.0), true))
}
/// None when the parameters are too noisy for a verdict.
fn boot<S: Word>(p: &Params) -> Option<Boot<S>> {
    let (l, g, r) = (p.lwe(), p.glwe(), p.r.rad());
    let gk = glwe_key::<S>(&g, false);
    let gs = glwe_key_polys::<S>(&gk, &g);
    let bound = boot_bound::<S>(p, l1s::<S>(&gs));
    if !meaningful::<S>(bound) {
        return None;
    }
    let lk = lwe_key::<S>(&l, false);
    let ls = lwe_key_words::<S>(&lk);
    let mut bsk = BootstrapKey::<S>::new(&l, &g, &r);
    dirty::<S>(raw_mut!(bsk, BootstrapKeyRef, Torus<S>), p.seed);
    generate_bootstrap_key(&mut bsk, &lk, &gk, &l, &g, &r);
    let mut f = BootstrapKeyFft::new(&l, &g, &r);
    bsk.fft(&mut f, &l, &g, &r);
    Some(Boot { lk, gk, ls, gs, bsk: f, bound })
}

/// The definition of modulus switching: drop `chi` top bits, keep the next log_m - v bits rounded
/// half up, append v zeros.
fn ms<S: Word>(x: u64, chi: u32, v: u32, log_m: u32) -> u64 {
    let x = (x << chi) & mask(S::bits());
    let keep = log_m - v;
    let sh = S::bits() - keep;
    let up = (x as u128 + (1u128 << (sh - 1))) >> sh;
    ((up as u64) & mask(keep)) << v
}
/// Amount the table is rotated by for these input words.
fn rotation<S: Word>(ct: &[u64], s: &[u64], chi: u32, v: u32, log_m: u32) -> i64 {
    let n = s.len();
    let mut r = ms::<S>(ct[n], chi, v, log_m) as i64;
    for i in 0..n {
        r -= (ms::<S>(ct[i], chi, v, log_m) * s[i]) as i64;
    }
    r.rem_euclid(1i64 << log_m)
}
fn lwords<S: Word>(x: &LweCiphertextRef<S>) -> Vec<u64> {
    uraw(raw!(*x, LweCiphertextRef, Torus<S>))
}
fn gset<S: Word>(x: &mut GlweCiphertextRef<S>, w: &[u64]) {
    for (a, b) in raw_mut!(*x, GlweCiphertextRef, Torus<S>).iter_mut().zip(w) {
        *a = t::<S>(*b);
    }
}

// ------------------------------------------------------------------------------- T12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    p: Params,
    chi: u8,
    v: u8,
    trivial: bool,
    input: Fill,
    lut: Fill,
}
fn raw_case(dim: std::ops::RangeInclusive<u8>, log_n: std::ops::RangeInclusive<u8>, max_k: u8) -> BoxedStrategy<RawCase> {
    (params(dim, log_n, max_k), prop_oneof![2 => Just(0u8), 1 => 1u8..5], prop_oneof![2 => Just(0u8), 2 => 1u8..4], any::<bool>(), fill(), fill())
        .prop_map(|(p, chi, v, trivial, input, lut)| RawCase { v: v.min(p.log_n), p, chi, trivial, input, lut })
        .boxed()
}

fn raw_pbs<S: Word>(c: &RawCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let Some(b) = boot::<S>(p) else { return Ok(()) };
    let (l, g, r) = (p.lwe(), p.glwe(), p.r.rad());
    let (n, k) = (p.n(), p.k as usize);
    let mut w = expand(&c.lut, n * (k + 1), p.seed ^ 1);
    if c.trivial {
        w[..n * k].fill(0);
    }
    let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, &g, PlaintextBits(1));
    gset::<S>(lut.glwe_mut(), &w);
    let pl = gphase::<S>(lut.glwe(), &b.gs);
    let mut seen_neg = false;
    for i in 0..3u64 {
        let input = raw_lwe::<S>(&l, if i == 0 { &c.input } else { &Fill::Random }, p.seed ^ (i + 2));
        let iw = lwords::<S>(&input);
        let rot = rotation::<S>(&iw, &b.ls, c.chi as u32, c.v as u32, p.log_n as u32 + 1);
        seen_neg |= rot >= n as i64;
        let mut out = raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 9);
        generalized_programmable_bootstrap(&mut out, &input, &lut, &b.bsk, c.chi as u32, c.v as u32, &l, &g, &r);
        let want = monomial_mul::<S>(&pl, -rot);
        near::<S>(&gphase::<S>(&out, &b.gs), &want, b.bound, "bootstrap", &format!("{} chi {} v {} rotation {rot}", p.ctx(), c.chi, c.v))?;
        if i == 1 {
            let rot = rotation::<S>(&iw, &b.ls, 0, 0, p.log_n as u32 + 1);
            let want = monomial_mul::<S>(&pl, -rot)[0];
            let ld = g.as_lwe_def();
            let mut out = raw_lwe::<S>(&ld, &Fill::Random, p.seed ^ 10);
            programmable_bootstrap_univariate(&mut out, &input, &lut, &b.bsk, &l, &g, &r);
            near::<S>(&[lphase::<S>(&out, &b.gs.concat())], &[want], b.bound, "bootstrap-univariate", &p.ctx())?;
        }
        cov.comparisons(n as u64);
    }
    cov.label(format!("{}:k{}", S::NAME, k));
    cov.label_if(c.v > 0, "several-functions");
    cov.label_if(c.chi > 0, "drops-bits");
    cov.label_if(seen_neg, "negated-half");
    cov.nontrivial_if(pl.iter().any(|x| *x != pl[0]));
    Ok(())
}

/// A generated function 0..2^bits -> 0..2^bits.
fn table(seed: u64, bits: u32, j: u64) -> Vec<u64> {
    let mut s = Sm(seed ^ (j * 7919));
    (0..1u64 << bits).map(|_| s.next() & mask(bits)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsgCase {
    p: Params,
    bits: u8,
    /// 1 = single table, otherwise that many tables in one pass
    tables: u8,
    msgs: Vec<u64>,
    /// position of the input error inside the admissible window, in 1/128ths
    err: i8,
    high: bool,
}
fn msg_case(log_n: std::ops::RangeInclusive<u8>) -> BoxedStrategy<MsgCase> {
    (params(2..=24, log_n, 2), 1u8..=5, prop_oneof![2 => Just(1u8), 2 => 2u8..=7], prop::collection::vec(any::<u64>(), 1..4), any::<i8>(), any::<bool>())
        .prop_map(|(p, bits, tables, msgs, err, high)| MsgCase { p, bits, tables, msgs, err, high })
        .boxed()
}

fn ceil_log(v: u32) -> u32 {
    v.next_power_of_two().ilog2()
}

/// Encrypt `m` with `bits` bits and then shift its phase by exactly `e`.
fn shifted<S: Word>(b: &Boot<S>, l: &LweDef, m: u64, bits: u32, e: i128) -> LweCiphertext<S> {
    let zero = LweDef { dim: l.dim, std: rand::Stddev(0.0) };
    let mut ct = b.lk.encrypt(S::of(m), &zero, PlaintextBits(bits)).0;
    let body = ct.b(&zero).inner().u();
    *ct.b_mut(&zero) = t::<S>(body.wrapping_add(S::trunc(e)));
    ct
}

fn msg_pbs<S: Word>(c: &MsgCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let bits = c.bits as u32;
    let n = p.n();
    if 1usize << bits > n {
        return Ok(());
    }
    let stride = n >> bits;
    let v = ceil_log(c.tables as u32);
    let Some(b) = boot::<S>(p) else { return Ok(()) };
    let (l, g, r) = (p.lwe(), p.glwe(), p.r.rad());
    let hw = l1::<S>(&b.ls);
    // admissible input error: half a stride less the rounding of hw+1 words to multiples of 2^v
    let unit = 1i128 << (S::bits() - (p.log_n as u32 + 1));
    let room = unit * (stride as i128 / 2) - (hw + 1) * (unit << v) / 2 - unit / 4;
    if room <= 0 || stride < 2 << v || b.bound >= 1i128 << (S::bits() - bits - 2) {
        return Ok(());
    }
    let tabs: Vec<Vec<u64>> = (0..c.tables as u64).map(|j| table(p.seed, bits, j)).collect();
    let fns: Vec<_> = tabs.iter().map(|t| move |x: u64| t[x as usize]).collect();
    let e = room * c.err as i128 / 128;
    for (i, m) in c.msgs.iter().enumerate() {
        let m = m & mask(bits);
        let ct = shifted::<S>(&b, &l, m, bits + 1, if i % 2 == 0 { e } else { -e });
        let ctx = format!("{} table of {bits} bits, {} at once, message {m}, input error 2^{:.1}", p.ctx(), c.tables, (e.abs().max(1) as f64).log2());
        let ld = g.as_lwe_def();
        if c.tables == 1 {
            let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(&fns[0], &g, PlaintextBits(bits));
            if p.seed & 1 == 1 {
                // a table that held something else is filled again
                lut.glwe_mut().clone_from_ref(&raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 12));
                lut.fill_trivial_from_fns(&fns, &g, PlaintextBits(bits));
            }
            let want = tabs[0][m as usize];
            let mut out = raw_lwe::<S>(&ld, &Fill::Random, p.seed ^ 10);
            programmable_bootstrap_univariate(&mut out, &ct, &lut, &b.bsk, &l, &g, &r);
            near::<S>(&[lphase::<S>(&out, &b.gs.concat())], &[want << (S::bits() - bits)], b.bound, "table", &ctx)?;
            ensure_eq!(b.gk.to_lwe_secret_key().decrypt(&out, &ld, PlaintextBits(bits)).u(), want, "table-decrypt", "{}", ctx);
            if p.wide && c.high {
                let (lut, ct): (&UnivariateLookupTableRef<u64>, &LweCiphertextRef<u64>) = unsafe { (&*(&*lut as *const _ as *const _), &*(&*ct as *const _ as *const _)) };
                let gk: &GlweSecretKeyRef<u64> = unsafe { &*(&*b.gk as *const _ as *const _) };
                let lk: &LweSecretKeyRef<u64> = unsafe { &*(&*b.lk as *const _ as *const _) };
                let bsk = keygen::generate_bootstrapping_key(lk, gk, &l, &g, &r);
                let bsk = fft::fft_bootstrap_key(&bsk, &l, &g, &r);
                let out = evaluation::univariate_programmable_bootstrap(ct, lut, &bsk, &l, &g, &r);
                ensure_eq!(encryption::decrypt_lwe(&out, gk.to_lwe_secret_key(), &ld, PlaintextBits(bits)), want, "table-high-level", "{}", ctx);
            }
        } else {
            let mut lut = UnivariateLookupTable::<S>::trivivial_multifunctional(&fns, &g, PlaintextBits(bits));
            if p.seed & 1 == 1 {
                lut.glwe_mut().clone_from_ref(&raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 12));
                lut.fill_trivial_from_fns(&fns, &g, PlaintextBits(bits));
            }
            let mut out = raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 9);
            generalized_programmable_bootstrap(&mut out, &ct, &lut, &b.bsk, 0, v, &l, &g, &r);
            let got = gphase::<S>(&out, &b.gs);
            let want: Vec<u64> = tabs.iter().map(|t| t[m as usize] << (S::bits() - bits)).collect();
            near::<S>(&got[..tabs.len()], &want, b.bound, "tables", &ctx)?;
            for j in 0..tabs.len() {
                let mut o = LweCiphertext::<S>::new(&ld);
                ops::ciphertext::sample_extract(&mut o, &out, j, &g);
                ensure_eq!(b.gk.to_lwe_secret_key().decrypt(&o, &ld, PlaintextBits(bits)).u(), tabs[j][m as usize], "tables-decrypt", "{}", ctx);
            }
        }
        cov.comparisons(tabs.len() as u64);
    }
    // a constant table maps every input, whatever its phase, to the constant up to sign
    let mut lut = UnivariateLookupTable::<S>::trivial_from_fn(|_| 1, &g, PlaintextBits(bits));
    let val = tabs[0][0];
    lut.glwe_mut().clone_from_ref(&raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 13));
    lut.fill_with_constant(S::of(val), &g, PlaintextBits(bits));
    let enc = val << (S::bits() - bits);
    ensure_eq!(gphase::<S>(lut.glwe(), &b.gs), vec![enc; n], "constant-table");
    cov.label(format!("{}:{}", S::NAME, if c.tables == 1 { "one-table" } else { "several-tables" }));
    cov.label_if(c.err.unsigned_abs() > 100, "input-error-near-limit");
    cov.label(format!("bits{bits}"));
    cov.nontrivial_if(tabs.iter().any(|t| t.iter().any(|x| *x != t[0])));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BiCase {
    p: Params,
    bits: u8,
    extra_carry: u8,
    pairs: Vec<(u64, u64)>,
    err: i8,
}
fn bi_case(log_n: std::ops::RangeInclusive<u8>) -> BoxedStrategy<BiCase> {
    (params(2..=12, log_n, 2), 1u8..=3, prop_oneof![3 => Just(0u8), 1 => 1u8..3], prop::collection::vec((any::<u64>(), any::<u64>()), 1..5), any::<i8>())
        .prop_map(|(p, bits, extra_carry, pairs, err)| BiCase { p, bits, extra_carry, pairs, err })
        .boxed()
}
fn bi_pbs<S: Word>(c: &BiCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let bits = c.bits as u32;
    let carry = bits + c.extra_carry as u32;
    let total = bits + carry;
    let n = p.n();
    if 1usize << total > n / 2 {
        return Ok(());
    }
    let stride = n >> total;
    let Some(b) = boot::<S>(p) else { return Ok(()) };
    let (l, g, r) = (p.lwe(), p.glwe(), p.r.rad());
    let hw = l1::<S>(&b.ls);
    let unit = 1i128 << (S::bits() - (p.log_n as u32 + 1));
    let room = unit * (stride as i128 / 2) - (hw + 1) * unit / 2 - unit / 4;
    // left is scaled by 2^bits, so errors arrive as (2^bits + 1) * e
    let e = room / ((1 << bits) + 1) * c.err as i128 / 128;
    if room <= 0 || b.bound >= 1i128 << (S::bits() - total - 2) {
        return Ok(());
    }
    let tab = table(p.seed, 2 * bits, 3);
    let f = |x: u64, y: u64| tab[(x << bits | y) as usize] & mask(bits);
    let mut lut = BivariateLookupTable::<S>::trivial_from_fn(f, &g, PlaintextBits(bits), CarryBits(carry));
    if p.seed & 1 == 1 {
        lut.glwe_mut().clone_from_ref(&raw_glwe::<S>(&g, &Fill::Random, p.seed ^ 12));
        lut.fill_trivial_from_fn(f, &g, PlaintextBits(bits), CarryBits(carry));
    }
    ensure_eq!(uraw(raw!(lut.as_univariate().glwe(), GlweCiphertextRef, Torus<S>)), uraw(raw!(lut.glwe(), GlweCiphertextRef, Torus<S>)), "as-univariate");
    let ld = g.as_lwe_def();
    for (i, (x, y)) in c.pairs.iter().enumerate() {
        let (x, y) = (x & mask(bits), y & mask(bits));
        let s = if i % 2 == 0 { 1 } else { -1 };
        // message, carry and padding bits
        let left = shifted::<S>(&b, &l, x, total + 1, s * e);
        let right = shifted::<S>(&b, &l, y, total + 1, s * e);
        let mut out = raw_lwe::<S>(&ld, &Fill::Random, p.seed ^ 10);
        programmable_bootstrap_bivariate(&mut out, &left, &right, &lut, &b.bsk, &l, &g, PlaintextBits(bits), &r);
        let want = f(x, y);
        let ctx = format!("{} f({x},{y}) bits {bits} carry {carry}", p.ctx());
        near::<S>(&[lphase::<S>(&out, &b.gs.concat())], &[want << (S::bits() - total)], b.bound, "two-input-table", &ctx)?;
        if p.wide {
            let (o, k): (&LweCiphertextRef<u64>, &LweSecretKeyRef<u64>) = unsafe { (&*(&*out as *const _ as *const _), &*(b.gk.to_lwe_secret_key() as *const _ as *const _)) };
            ensure_eq!(encryption::decrypt_lwe_with_carry(o, k, &ld, PlaintextBits(bits), CarryBits(carry)), want, "two-input-table-decrypt", "{}", ctx);
        }
        cov.comparisons(1);
    }
    cov.label(format!("{}:bits{bits}+{carry}", S::NAME));
    cov.nontrivial_if(c.pairs.len() > 1);
    Ok(())
}

/// What a lookup table holds, entry by entry, and which functions it refuses to hold.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct EntryCase {
    wide: bool,
    log_n: u8,
    k: u8,
    bits: u8,
    carry: u8,
    /// 0 = two-input table, otherwise that many one-input tables
    tables: u8,
    /// an entry that does not fit: which table, which entry, and how far beyond
    bad: Option<(u8, u64, u64)>,
    refill: bool,
    seed: u64,
}
fn entry_case() -> BoxedStrategy<EntryCase> {
    let over = prop_oneof![3 => Just(0u64), 2 => 1u64..4, 1 => any::<u64>().prop_map(|x| x >> 1), 1 => Just((1u64 << 63) - 1)];
    (any::<bool>(), 2u8..=9, 1u8..=3, 1u8..=6, 0u8..=6, prop_oneof![1 => Just(0u8), 2 => 1u8..=9], prop::option::weighted(0.4, (any::<u8>(), any::<u64>(), over)), any::<bool>(), any::<u64>())
        .prop_map(|(wide, log_n, k, bits, carry, tables, bad, refill, seed)| EntryCase { wide, log_n, k, bits, carry, tables, bad, refill, seed })
        .boxed()
}
fn entries<S: Word>(c: &EntryCase, cov: &Cover) -> Res {
    let _s = Seeded::new(c.seed);
    let n = 1usize << c.log_n;
    let g = glwe_def(n, c.k as usize, 0.0);
    let two = c.tables == 0;
    let (bits, carry) = (c.bits as u32, if two { c.carry as u32 } else { 0 });
    // entries of the table: 2^total of them, each holding total bits
    let total = if two { bits + carry } else { bits };
    let nt = c.tables.max(1) as usize;
    // what each function gives at each argument it can be asked about
    let args = if two { 2 * bits } else { bits };
    let mut tabs: Vec<Vec<u64>> = (0..nt as u64).map(|j| { let mut s = Sm(c.seed ^ (j * 7919)); (0..1u64 << args).map(|_| s.next() & mask(bits)).collect() }).collect();
    if let Some((j, i, over)) = c.bad {
        tabs[j as usize % nt][(i & mask(args)) as usize] = (1u64 << bits) + over;
    }
    let fits = total <= c.log_n as u32 && total < S::bits() && (!two || bits <= carry);
    let stride = if fits { n >> total } else { 0 };
    let every = nt.next_power_of_two();
    let entry = |j: usize, x: u64| if j >= nt { 0 } else if two { let p = x & mask(2 * bits); tabs[0][p as usize] } else { tabs[j][x as usize] };
    // only the entries that are stored are looked at
    let ok = fits && (0..every.min(stride)).all(|j| (0..1u64 << total).all(|x| entry(j, x) < 1 << bits));
    let dirt = raw_glwe::<S>(&g, &Fill::Random, c.seed ^ 12);
    let got = catch(|| {
        let f2 = |x: u64, y: u64| tabs[0][(x << bits | y) as usize];
        let fns: Vec<_> = tabs.iter().map(|t| move |x: u64| t[x as usize]).collect();
        if two {
            let mut lut = BivariateLookupTable::<S>::trivial_from_fn(|x, y| if c.refill { 0 } else { f2(x, y) }, &g, PlaintextBits(bits), CarryBits(carry));
            if c.refill {
                lut.glwe_mut().clone_from_ref(&dirt);
                lut.fill_trivial_from_fn(f2, &g, PlaintextBits(bits), CarryBits(carry));
            }
            uraw(raw!(lut.glwe(), GlweCiphertextRef, Torus<S>))
        } else {
            let mut lut = if c.refill {
                UnivariateLookupTable::<S>::trivial_from_fn(|_| 0, &g, PlaintextBits(bits))
            } else if nt == 1 {
                UnivariateLookupTable::<S>::trivial_from_fn(&fns[0], &g, PlaintextBits(bits))
            } else {
                UnivariateLookupTable::<S>::trivivial_multifunctional(&fns, &g, PlaintextBits(bits))
            };
            if c.refill {
                lut.glwe_mut().clone_from_ref(&dirt);
                lut.fill_trivial_from_fns(&fns, &g, PlaintextBits(bits));
            }
            uraw(raw!(lut.glwe(), GlweCiphertextRef, Torus<S>))
        }
    });
    let ctx = format!("n {n} k {} bits {bits} carry {carry} tables {} {:?}", c.k, c.tables, c.bad);
    ensure_eq!(got.is_ok(), ok, if ok { "table-refused" } else { "impossible-table-accepted" }, "{}", ctx);
    if let Ok(w) = got {
        // entry x of table j sits at the places j, j + every, ... of the x-th step, all moved down by half a
        // step; what moves past the bottom comes back at the top negated
        let mut want = vec![0u64; n * (c.k as usize + 1)];
        let b = &mut want[n * c.k as usize..];
        for i in 0..n {
            let at = (i + stride / 2) % n;
            let (x, j) = (at / stride, at % stride % every);
            let v = entry(j, x as u64) << (S::bits() - total);
            b[i] = if i + stride / 2 >= n { v.wrapping_neg() & mask(S::bits()) } else { v };
        }
        ensure_eq!(w, want, "table-contents", "{}", ctx);
        if two {
            let mut lut = BivariateLookupTable::<S>::trivial_from_fn(|_, _| 0, &g, PlaintextBits(bits), CarryBits(carry));
            lut.glwe_mut().clone_from_ref(&dirt);
            lut.fill_with_constant(S::of(tabs[0][0]), &g, PlaintextBits(bits));
            let mut want = vec![0u64; n * (c.k as usize + 1)];
            want[n * c.k as usize..].fill(tabs[0][0] << (S::bits() - bits));
            ensure_eq!(uraw(raw!(lut.glwe(), GlweCiphertextRef, Torus<S>)), want, "constant-two-input-table", "{}", ctx);
        }
        cov.label(if two { "two-input" } else if nt > 1 { "several-tables" } else { "one-table" });
    } else {
        cov.label(if fits { "refused-entry" } else { "refused-size" });
    }
    cov.comparisons(n as u64);
    cov.nontrivial_if(fits);
    Ok(())
}

fn t12() -> Check {
    macro_rules! by_word {
        ($f:ident, $t:ty) => {
            |c: &$t, cov: &Cover| if c.p.wide { $f::<u64>(c, cov) } else { $f::<u32>(c, cov) }
        };
    }
    Check {
        id: "T12",
        assumptions: vec![
            "input keys are binary, as bootstrapping requires",
            "message-level cases keep the input error plus the worst modulus-switching error inside half a table step, up to its very edge; raw cases have no such restriction",
            "several tables in one pass need a table step of at least twice their rounded-up number",
            "counted only where the worst-case output error is below the output message spacing",
        ],
        subs: vec![
            sub("raw", 4000, 300_000, "any input words, any table contents (public or encrypted), dropped and appended bits, N 16..=256, dimension 1..=24: the output is the table rotated by the defined amount; non-trivial: table not constant",
                raw_case(1..=24, 4..=8, 3), by_word!(raw_pbs, RawCase)),
            sub("tables", 1400, 300_000, "1..=7 generated tables of 1..=5 bits, input errors across the admissible window, N 32..=512, dimension 2..=24; phase and decryption; non-trivial: some table not constant",
                msg_case(5..=9), by_word!(msg_pbs, MsgCase)),
            sub("two_inputs", 1400, 200_000, "generated two-input tables of 1..=3 bits with extra carry bits, N 64..=512; non-trivial: more than one pair",
                bi_case(6..=9), by_word!(bi_pbs, BiCase)),
            sub("entries", 400_000, 20_000_000, "one-input, several-at-once and two-input tables with any number of bits, fresh or refilled over other contents, sometimes with one entry too large or more entries than the ring holds: the stored words, or a refusal exactly when an entry does not fit; non-trivial: the table fits the ring",
                entry_case(), |c: &EntryCase, cov: &Cover| if c.wide { entries::<u64>(c, cov) } else { entries::<u32>(c, cov) }),
            sub("tables_large", 16, 2_000, "as tables with N 1024..=2048; non-trivial: some table not constant",
                msg_case(10..=11), by_word!(msg_pbs, MsgCase)),
            sub("large", 16, 3_000, "as raw with N 1024..=4096 and dimension 100..=250; non-trivial: table not constant",
                raw_case(100..=250, 10..=12, 1), by_word!(raw_pbs, RawCase)),
        ],
    }
}

// ------------------------------------------------------------------------------- T13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SsCase {
    p: Params,
    /// radix of the gadget vector
    rg: Rx,
    fill: Fill,
}
fn ss_case(log_n: std::ops::RangeInclusive<u8>) -> BoxedStrategy<SsCase> {
    (params(1..=1, log_n, 4), rx(32, 12, 6), fill()).prop_map(|(p, rg, fill)| SsCase { p, rg, fill }).boxed()
}

/// Worst error scheme switching adds to row i, and the factor input errors are amplified by.
fn ss_bound<S: Word>(p: &Params, rss: &Rx, gs: &[Vec<u64>], noise: i128, fourier: bool) -> i128 {
    let s1 = l1s::<S>(gs);
    let prod = gs.iter().map(|a| gs.iter().map(|b| l1::<S>(&negacyclic_mul::<S>(a, b))).sum::<i128>()).max().unwrap();
    ks_bound::<S>(p.n(), p.k as usize, rss, prod, s1, noise, fourier)
}
/// -s_i * p_j for each row, then the input.
fn switched<S: Word>(ph: &[Vec<u64>], gs: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = vec![];
    for s in gs {
        out.extend(ph.iter().map(|p| neg::<S>(&negacyclic_mul::<S>(p, s))));
    }
    out.extend(ph.iter().cloned());
    out
}
fn ggsw_phases<S: Word>(g: &GgswCiphertextRef<S>, gs: &[Vec<u64>]) -> Vec<Vec<u64>> {
    phases::<S>(&uraw(raw!(*g, GgswCiphertextRef, Torus<S>)), gs)
}

fn scheme<S: Word>(c: &SsCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let (g, rss, rg) = (p.glwe(), p.r.rad(), c.rg.rad());
    let (n, k) = (p.n(), p.k as usize);
    let gk = glwe_key::<S>(&g, false);
    let gs = glwe_key_polys::<S>(&gk, &g);
    let n12 = noise12::<S>(g.std.0);
    let bound = ss_bound::<S>(p, &p.r, &gs, n12, false);
    let fbound = ss_bound::<S>(p, &p.r, &gs, n12, true);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let mut ssk = SchemeSwitchKey::<S>::new(&g, &rss);
    dirty::<S>(raw_mut!(ssk, SchemeSwitchKeyRef, Torus<S>), p.seed);
    S::gen_ssk(&mut ssk, &gk, &g, &rss);
    near_all::<S>(&phases::<S>(&uraw(raw!(ssk, SchemeSwitchKeyRef, Torus<S>)), &gs), &ssk_messages::<S>(&gs, &p.r), n12, "scheme-switch-key", "")?;
    // whatever each level of the gadget vector holds, row i holds -s_i times it
    let mut glev = raw_glev::<S>(&g, &rg, p.seed ^ 5);
    let sz = n * (k + 1);
    for (j, x) in expand(&c.fill, sz, p.seed ^ 6).into_iter().enumerate() {
        raw_mut!(glev, GlevCiphertextRef, Torus<S>)[j] = t::<S>(x);
    }
    let ph = phases::<S>(&uraw(raw!(glev, GlevCiphertextRef, Torus<S>)), &gs);
    let want = switched::<S>(&ph, &gs);
    let ctx = format!("n {n} k {k} gadget {:?} switch radix {:?} std 2^-{}", c.rg, p.r, p.std);
    let mut out = GgswCiphertext::<S>::new(&g, &rg);
    dirty::<S>(raw_mut!(out, GgswCiphertextRef, Torus<S>), p.seed ^ 1);
    scheme_switch(&mut out, &glev, &ssk, &g, &rg, &rss);
    near_all::<S>(&ggsw_phases::<S>(&out, &gs), &want, bound, "scheme-switch", &ctx)?;
    let last = uraw(raw!(out, GgswCiphertextRef, Torus<S>));
    ensure_eq!(last[last.len() - sz * rg.count.0..].to_vec(), uraw(raw!(glev, GlevCiphertextRef, Torus<S>)), "scheme-switch-last-row");
    if meaningful::<S>(fbound) {
        let mut kf = SchemeSwitchKeyFft::new(&g, &rss);
        ssk.fft(&mut kf, &g, &rss);
        let mut of = GgswCiphertextFft::new(&g, &rg);
        // the destination holds another gadget-matrix
        let other = raw_ggsw::<S>(&g, &rg, p.seed ^ 8);
        other.fft(&mut of, &g, &rg);
        fft_ops::scheme_switch_fft(&mut of, &glev, &kf, &g, &rg, &rss);
        let mut back = GgswCiphertext::<S>::new(&g, &rg);
        of.ifft(&mut back, &g, &rg);
        near_all::<S>(&ggsw_phases::<S>(&back, &gs), &want, fbound, "scheme-switch-fourier", &ctx)?;
        cov.label(format!("{}:fourier", S::NAME));
    }
    cov.label(format!("{}:k{k}", S::NAME));
    cov.label_if(bound == 0, "error-free");
    cov.nontrivial_if(rg.count.0 > 1 || k > 1);
    cov.comparisons(want.len() as u64);
    Ok(())
}
fn raw_ggsw<S: Word>(d: &GlweDef, r: &RadixDecomposition, seed: u64) -> GgswCiphertext<S> {
    let mut x = GgswCiphertext::<S>::new(d, r);
    let raw = raw_mut!(x, GgswCiphertextRef, Torus<S>);
    let w = expand(&Fill::Random, raw.len(), seed);
    for (a, b) in raw.iter_mut().zip(w) {
        *a = t::<S>(b);
    }
    x
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CbsCase {
    p: Params,
    rt: Rx,
    rs: Rx,
    rc: Rx,
    /// ring of the result on the key-switching route
    log_n1: u8,
    k1: u8,
    bit: bool,
    /// input error in 1/128ths of the admissible window; None = any input words
    err: Option<i8>,
}
fn cbs_case(dim: std::ops::RangeInclusive<u8>, log_n: std::ops::RangeInclusive<u8>, max_k: u8) -> BoxedStrategy<CbsCase> {
    params(dim, log_n, max_k)
        .prop_flat_map(|p| {
            let w = p.wide;
            let rc = (1u8..=8, 1u8..=7).prop_map(move |(log, count)| {
                let bits = if w { 64 } else { 32 };
                Rx { log, count: count.min((bits - 2) / log).min(if w { 7 } else { 12 / log }).max(1) }
            });
            (Just(p), fine(w), fine(w), rc, 2u8..=6, 1u8..=3, any::<bool>(), prop::option::weighted(0.7, any::<i8>()))
        })
        .prop_map(|(p, rt, rs, rc, log_n1, k1, bit, err)| CbsCase { p, rt, rs, rc, log_n1, k1, bit, err })
        .boxed()
}

/// The input ciphertext and the bit it stands for after rounding to 2N positions.
fn cbs_input<S: Word>(c: &CbsCase, b: &Boot<S>) -> Option<(LweCiphertext<S>, u64)> {
    let p = &c.p;
    let l = p.lwe();
    let v = ceil_log(c.rc.count as u32);
    let log_m = p.log_n as u32 + 1;
    let ct = match c.err {
        Some(e) => {
            let unit = 1i128 << (S::bits() - log_m);
            let room = unit * (p.n() as i128 / 2) - (l1::<S>(&b.ls) + 1) * (unit << v) / 2 - unit / 4;
            if room <= 0 {
                return None;
            }
            shifted::<S>(b, &l, c.bit as u64, 1, room * e as i128 / 128)
        }
        None => raw_lwe::<S>(&l, &Fill::Random, p.seed ^ 3),
    };
    let mut w = lwords::<S>(&ct);
    let n = w.len();
    w[n - 1] = w[n - 1].wrapping_add(1 << (S::bits() - 2)) & mask(S::bits());
    let bit = (rotation::<S>(&w, &b.ls, 0, v, log_m) >= p.n() as i64) as u64;
    assert!(c.err.is_none() || bit == c.bit as u64, "harness: window too wide");
    Some((ct, bit))
}

/// Multiplex with the produced selector and check which operand comes out.
fn select<S: Word>(sel: &GgswCiphertextFftRef<Complex<f64>>, bit: u64, err: i128, d: &GlweDef, gs: &[Vec<u64>], rc: &Rx, seed: u64, cov: &Cover, ctx: &str) -> Res {
    let (n, k) = (d.dim.polynomial_degree.0, d.dim.size.0);
    if n < 16 {
        return Ok(());
    }
    let bound = ext_bound::<S>(n, k, rc, 1, l1s::<S>(gs), err, true);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let (x, y) = (raw_glwe::<S>(d, &Fill::Random, seed ^ 21), raw_glwe::<S>(d, &Fill::Random, seed ^ 22));
    let mut out = GlweCiphertext::<S>::new(d);
    fft_ops::cmux(&mut out, &x, &y, sel, d, &rc.rad());
    let want = gphase::<S>(if bit == 1 { &y } else { &x }, gs);
    cov.label("selects");
    near::<S>(&gphase::<S>(&out, gs), &want, bound, "circuit-bootstrap-selects", ctx)
}

fn cbs_trace<S: Word>(c: &CbsCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let (l, g, r, rt, rs, rc) = (p.lwe(), p.glwe(), p.r.rad(), c.rt.rad(), c.rs.rad(), c.rc.rad());
    let (n, k) = (p.n(), p.k as usize);
    let Some(b) = boot::<S>(p) else { return Ok(()) };
    let s1 = l1s::<S>(&b.gs);
    let n12 = noise12::<S>(g.std.0);
    // rounding by N is amplified back by N in the trace
    let shifted = (n as i128) * (s1 + 1) / 2 + n as i128;
    let glev_err = b.bound.saturating_add(shifted).saturating_add((n as i128 - 1).saturating_mul(ks_bound::<S>(n, k, &c.rt, s1, s1, n12, true)));
    let amp = b.gs.iter().map(|s| l1::<S>(s)).max().unwrap().max(1);
    let bound = glev_err.saturating_mul(amp).saturating_add(ss_bound::<S>(p, &c.rs, &b.gs, n12, true)).saturating_add(64);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let Some((ct, bit)) = cbs_input::<S>(c, &b) else { return Ok(()) };
    let mut ak = AutomorphismKey::<S>::new(&g, &rt);
    generate_automorphism_key(&mut ak, &b.gk, &g, &rt);
    let mut akf = AutomorphismKeyFft::new(&g, &rt);
    ak.fft(&mut akf, &g, &rt);
    let mut ssk = SchemeSwitchKey::<S>::new(&g, &rs);
    S::gen_ssk(&mut ssk, &b.gk, &g, &rs);
    let mut sf = SchemeSwitchKeyFft::new(&g, &rs);
    ssk.fft(&mut sf, &g, &rs);

    let ctx = format!("bit {bit} {} trace {:?} switch {:?} out {:?} input error {:?}", p.ctx(), c.rt, c.rs, c.rc, c.err);
    let want = ggsw_messages::<S>(&constant(n, bit), &b.gs, &c.rc);
    let mut out = GgswCiphertextFft::new(&g, &rc);
    raw_ggsw::<S>(&g, &rc, p.seed ^ 8).fft(&mut out, &g, &rc);
    circuit_bootstrap_via_trace_and_scheme_switch(&mut out, &ct, &b.bsk, &akf, &sf, &l, &g, &r, &rt, &rs, &rc);
    let judge = |o: &GgswCiphertextFftRef<Complex<f64>>, sig: &str| -> Res {
        let mut back = GgswCiphertext::<S>::new(&g, &rc);
        o.ifft(&mut back, &g, &rc);
        near_all::<S>(&ggsw_phases::<S>(&back, &b.gs), &want, bound, sig, &ctx)
    };
    judge(&out, "circuit-bootstrap-trace")?;
    select::<S>(&out, bit, bound, &g, &b.gs, &c.rc, p.seed, cov, &ctx)?;
    if p.wide {
        let ct: &LweCiphertextRef<u64> = unsafe { &*(&*ct as *const _ as *const _) };
        let gk: &GlweSecretKeyRef<u64> = unsafe { &*(&*b.gk as *const _ as *const _) };
        let ak = fft::fft_automorphism_key(&keygen::generate_automorphism_key(gk, &g, &rt), &g, &rt);
        let ss = fft::fft_scheme_switch_key(&keygen::generate_scheme_switch_key(gk, &g, &rs), &g, &rs);
        let o = evaluation::circuit_bootstrap(ct, &b.bsk, &ak, &ss, &l, &g, &r, &rt, &rs, &rc);
        judge(&o, "circuit-bootstrap-high-level")?;
    }
    let finest = 1i128 << (S::bits() - (c.rc.log() * c.rc.count()) as u32);
    cov.label(format!("{}:k{k}:bit{bit}", S::NAME));
    cov.label_if(bound < finest / 2, "every-level-resolved");
    cov.label(if c.err.is_some() { "bit-input" } else { "any-input" });
    cov.nontrivial_if(bound < 1i128 << (S::bits() - c.rc.log() as u32 - 1));
    cov.comparisons(want.len() as u64);
    Ok(())
}

#[allow(deprecated)]
fn cbs_pfks<S: Word>(c: &CbsCase, cov: &Cover) -> Res {
    let p = &c.p;
    let _s = Seeded::new(p.seed);
    let (l, g2, r, rp, rc) = (p.lwe(), p.glwe(), p.r.rad(), c.rt.rad(), c.rc.rad());
    let (n1, k1) = (1usize << c.log_n1, c.k1 as usize);
    let g1 = glwe_def(n1, k1, g2.std.0);
    let Some(b) = boot::<S>(p) else { return Ok(()) };
    let flat = b.gs.concat();
    let n12 = noise12::<S>(g1.std.0);
    let digits = 1i128 << (c.rt.log() - 1);
    let pf = c.rt.round_unit::<S>().saturating_mul(l1::<S>(&flat) + 1).saturating_add(((flat.len() as i128 + 1) * c.rt.count() as i128 * digits).saturating_mul(n12));
    let bound = b.bound.saturating_add(pf).saturating_add(4);
    if !meaningful::<S>(bound) {
        return Ok(());
    }
    let Some((ct, bit)) = cbs_input::<S>(c, &b) else { return Ok(()) };
    let k1s = glwe_key::<S>(&g1, false);
    let gs1 = glwe_key_polys::<S>(&k1s, &g1);
    let ld = g2.as_lwe_def();
    let mut key = CircuitBootstrappingKeyswitchKeys::<S>::new(&ld, &g1, &rp);
    generate_circuit_bootstrapping_pfks_keys(&mut key, b.gk.to_lwe_secret_key(), &k1s, &ld, &g1, &rp);
    near_all::<S>(&phases::<S>(&uraw(raw!(key, CircuitBootstrappingKeyswitchKeysRef, Torus<S>)), &gs1), &cbs_messages::<S>(&flat, &gs1, &c.rt), n12, "circuit-bootstrap-key", "")?;
    let mut out = GgswCiphertext::<S>::new(&g1, &rc);
    dirty::<S>(raw_mut!(out, GgswCiphertextRef, Torus<S>), p.seed);
    circuit_bootstrap_via_pfks(&mut out, &ct, &b.bsk, &key, &l, &g1, &g2, &r, &rc, &rp);
    let want = ggsw_messages::<S>(&constant(n1, bit), &gs1, &c.rc);
    let ctx = format!("bit {bit} {} to n {n1} k {k1} switch {:?} out {:?} input error {:?}", p.ctx(), c.rt, c.rc, c.err);
    near_all::<S>(&ggsw_phases::<S>(&out, &gs1), &want, bound, "circuit-bootstrap-pfks", &ctx)?;
    if n1 >= 16 {
        let mut f = GgswCiphertextFft::new(&g1, &rc);
        out.fft(&mut f, &g1, &rc);
        select::<S>(&f, bit, bound, &g1, &gs1, &c.rc, p.seed, cov, &ctx)?;
    }
    let finest = 1i128 << (S::bits() - (c.rc.log() * c.rc.count()) as u32);
    cov.label(format!("{}:bit{bit}", S::NAME));
    cov.label_if(bound < finest / 2, "every-level-resolved");
    cov.label(if c.err.is_some() { "bit-input" } else { "any-input" });
    cov.nontrivial_if(bound < 1i128 << (S::bits() - c.rc.log() as u32 - 1));
    cov.comparisons(want.len() as u64);
    Ok(())
}

fn t13() -> Check {
    Check {
        id: "T13",
        assumptions: vec![
            "binary keys (products of key polynomials are computed in floating point and are exact only for small keys)",
            "1..=7 output levels with level*radix_log+1 below the word size, as the code demands",
            "counted only where the worst-case error bound is below 1/16 of the torus; labels say how often it resolves every level",
        ],
        subs: vec![
            sub("scheme_switch", 5000, 300_000, "any gadget-vector of raw ciphertexts, N 16..=128, k 1..=4, independent radices, dirty outputs, coefficient and Fourier forms; row i = -s_i * input, last row = input; non-trivial: several rows or levels",
                ss_case(4..=7), |c: &SsCase, cov| if c.p.wide { scheme::<u64>(c, cov) } else { scheme::<u32>(c, cov) }),
            sub("via_trace", 5000, 200_000, "bits with input errors across the admissible window or any input words, N 16..=256, k 1..=2, four independent radices, dirty outputs; every entry, then used as a selector; non-trivial: first level resolved",
                cbs_case(1..=10, 4..=8, 2), |c: &CbsCase, cov| if c.p.wide { cbs_trace::<u64>(c, cov) } else { cbs_trace::<u32>(c, cov) }),
            sub("via_keyswitch", 1600, 100_000, "as via_trace by private functional key switching into a ring of a different shape (N 4..=64, k 1..=3); non-trivial: first level resolved",
                cbs_case(1..=10, 4..=7, 2), |c: &CbsCase, cov| if c.p.wide { cbs_pfks::<u64>(c, cov) } else { cbs_pfks::<u32>(c, cov) }),
            sub("large", 16, 2_000, "via_trace with N 1024..=2048 and dimension 50..=120; non-trivial: first level resolved",
                cbs_case(50..=120, 10..=11, 1), |c: &CbsCase, cov| if c.p.wide { cbs_trace::<u64>(c, cov) } else { cbs_trace::<u32>(c, cov) }),
        ],
    }
}
