//! M01.
use num::{BigUint, One as _, Zero as _};
use serde::{Deserialize, Serialize};
use sunscreen_math::{
    field::{Field, FieldConfig},
    ring::{extend_bigint, ArithmeticBackend, BarrettBackend, BarrettConfig, Ring, RingModulus, Uint, ZInt, Zq},
    One, ToBytes, Zero,
};
use sunscreen_tfhe::Pow;
use vkit::proptest::prelude::*;
use vkit::*;

/// A value described relative to the modulus, so that it can be near anything that matters.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum V {
    /// anchor (0, q, q/2, 2^64k, 2^32, ...) plus a small signed distance
    Near(u8, i16),
    /// all bits, then reduced
    Raw(Vec<u64>),
    /// 2^i - 2^j
    Run(u16, u16),
    Small(u16),
    /// the fraction i/65536 of the modulus
    Part(u16),
}

pub fn v() -> BoxedStrategy<V> {
    prop_oneof![
        3 => (0u8..8, -4i16..=4).prop_map(|(a, d)| V::Near(a, d)),
        4 => prop::collection::vec(prop_oneof![any::<u64>(), Just(0), Just(u64::MAX), Just(1 << 63)], 1..=16).prop_map(V::Raw),
        2 => (0u16..1024, 0u16..1024).prop_map(|(a, b)| V::Run(a, b)),
        1 => any::<u16>().prop_map(V::Small),
        1 => any::<u16>().prop_map(V::Part),
    ]
    .boxed()
}

fn big(words: &[u64]) -> BigUint {
    let mut r = BigUint::zero();
    for w in words.iter().rev() {
        r = (r << 64) + BigUint::from(*w);
    }
    r
}

impl V {
    /// The value before reduction, below 2^bits.
    pub fn raw(&self, q: &BigUint, bits: u64) -> BigUint {
        let one = BigUint::one();
        let m = (&one << bits) - &one;
        let r = match self {
            V::Near(a, d) => {
                let base = match a {
                    0 => BigUint::zero(),
                    1 => q.clone(),
                    2 => q >> 1,
                    3 => &one << 64,
                    4 => &one << 32,
                    5 => &one << (bits / 2),
                    6 => &one << (bits - 1),
                    _ => q << 1,
                };
                let two = &one << bits;
                (base + &two * 4u32 + BigUint::from((*d as i32 + 100000) as u32) - BigUint::from(100000u32)) % two
            }
            V::Raw(w) => big(w),
            V::Run(a, b) => {
                let (a, b) = (*a as u64 % bits, *b as u64 % bits);
                (&one << a.max(b)) - (&one << a.min(b))
            }
            V::Small(x) => BigUint::from(*x),
            V::Part(x) => (q * BigUint::from(*x)) >> 16,
        };
        r & m
    }
    pub fn get(&self, q: &BigUint, bits: u64) -> BigUint {
        self.raw(q, bits) % q
    }
}

pub fn uint<const N: usize>(x: &BigUint) -> Uint<N> {
    let d = x.to_u64_digits();
    let mut w = [0u64; N];
    w[..d.len()].copy_from_slice(&d);
    Uint::from_words(w)
}
pub fn of_uint<const N: usize>(x: &Uint<N>) -> BigUint {
    big(&x.to_words())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    modulus: u16,
    a: V,
    b: V,
    c: V,
    u: u64,
    i: i64,
    e: u64,
}

pub struct Entry {
    pub name: &'static str,
    pub limbs: usize,
    pub run: fn(&Case, &Cover) -> Res,
    pub poly: fn(&crate::poly::Case, &Cover) -> Res,
}

pub type Z<const N: usize, C> = Zq<N, BarrettBackend<N, C>>;

pub fn ring<const N: usize, C: BarrettConfig<N> + 'static>(name: &'static str) -> Entry {
    Entry { name, limbs: N, run: run::<N, C>, poly: crate::poly::run::<Z<N, C>> }
}
pub fn field<const N: usize, C: BarrettConfig<N> + FieldConfig + 'static>(name: &'static str) -> Entry {
    Entry { name, limbs: N, run: run_field::<N, C>, poly: crate::poly::run::<Z<N, C>> }
}

fn modulus<const N: usize, C: BarrettConfig<N>>() -> BigUint {
    of_uint(&C::MODULUS)
}

fn z<const N: usize, C: BarrettConfig<N>>(x: &BigUint) -> Result<Z<N, C>, Fail> {
    Z::<N, C>::try_from(uint::<N>(x)).map_err(|e| Fail { sig: "try_from".into(), msg: format!("{x} refused: {e}") })
}

/// The element is `want` and is stored canonically.
fn is<const N: usize, C: BarrettConfig<N>>(what: &str, got: Z<N, C>, want: &BigUint) -> Res {
    let g = of_uint(&got.into_bigint());
    ensure!(&g == want, what, "{what} mod {}: got {g}, expected {want}", modulus::<N, C>());
    // Equality is equality of residues.
    ensure!(got == z::<N, C>(want)?, "canonical", "{what}: {g} is not equal to its canonical form");
    Ok(())
}

fn run<const N: usize, C: BarrettConfig<N>>(c: &Case, cov: &Cover) -> Res {
    let q = modulus::<N, C>();
    let bits = 64 * N as u64;
    let (a, b, d) = (c.a.get(&q, bits), c.b.get(&q, bits), c.c.get(&q, bits));
    let (x, y, w) = (z::<N, C>(&a)?, z::<N, C>(&b)?, z::<N, C>(&d)?);
    is("value", x, &a)?;
    is("add", x + y, &((&a + &b) % &q))?;
    is("add", &x + y, &((&a + &b) % &q))?;
    is("add", x + &y, &((&a + &b) % &q))?;
    is("add", &x + &y, &((&a + &b) % &q))?;
    let diff = (&a + &q - &b) % &q;
    is("sub", x - y, &diff)?;
    is("sub", &x - y, &diff)?;
    is("sub", x - &y, &diff)?;
    is("sub", &x - &y, &diff)?;
    let prod = (&a * &b) % &q;
    is("mul", x * y, &prod)?;
    is("mul", &x * y, &prod)?;
    is("mul", x * &y, &prod)?;
    is("mul", &x * &y, &prod)?;
    is("neg", -x, &((&q - &a) % &q))?;
    is("neg", -&x, &((&q - &a) % &q))?;
    is("expression", x * y + w - x, &((&prod + &d + &q - &a) % &q))?;
    is("zero", Z::<N, C>::zero(), &BigUint::zero())?;
    is("one", Z::<N, C>::one(), &(BigUint::one() % &q))?;
    ensure_eq!(x.vartime_is_zero(), a.is_zero(), "is-zero");
    ensure_eq!(x == y, a == b, "eq");
    ensure_eq!(x != y, a != b, "eq");
    ensure_eq!(x.cmp(&y), a.cmp(&b), "cmp");
    ensure_eq!(x.partial_cmp(&y), Some(a.cmp(&b)), "cmp");
    ensure_eq!(x.clone(), x, "clone");
    // Powers.
    is("pow", x.pow(c.e), &a.modpow(&BigUint::from(c.e), &q))?;
    // Conversions from machine integers.
    let u = BigUint::from(c.u);
    is("from-u64", Z::<N, C>::from(c.u), &(&u % &q))?;
    is("from-u32", Z::<N, C>::from(c.u as u32), &(BigUint::from(c.u as u32) % &q))?;
    let half = &q >> 1;
    let mut signed = |what: &str, abs: u64, neg: bool, got: &dyn Fn() -> Z<N, C>| -> Res {
        let abs = BigUint::from(abs);
        if abs > half {
            return Ok(());
        }
        cov.label("signed");
        is(what, got(), &if neg { (&q - &abs) % &q } else { abs % &q })
    };
    signed("from-i64", c.i.unsigned_abs(), c.i < 0, &|| Z::<N, C>::from(c.i))?;
    signed("from-i32", (c.i as i32).unsigned_abs() as u64, (c.i as i32) < 0, &|| Z::<N, C>::from(c.i as i32))?;
    // Scaled into range, so that small moduli see signed values too.
    if !half.is_zero() {
        let lim = (&half).min(&BigUint::from(i64::MAX as u64)).to_u64_digits()[0];
        let s = (c.i.unsigned_abs() % (lim as u128 + 1) as u64) as i64 * c.i.signum();
        signed("from-i64", s.unsigned_abs(), s < 0, &|| Z::<N, C>::from(s))?;
    }
    // Every word pattern not below the modulus is refused.
    let raw = c.a.raw(&q, bits);
    match Z::<N, C>::try_from(uint::<N>(&raw)) {
        Ok(v) => {
            ensure!(raw < q, "try_from", "{raw} accepted although the modulus is {q}");
            is("try_from", v, &raw)?;
        }
        Err(_) => ensure!(raw >= q, "try_from", "{raw} refused although the modulus is {q}"),
    }
    // The multiplication reduces whatever words it is given.
    let raw2 = c.b.raw(&q, bits);
    let got = of_uint(&BarrettBackend::<N, C>::mul_mod(&uint::<N>(&raw), &uint::<N>(&raw2)));
    ensure_eq!(got, (&raw * &raw2) % &q, "mul-unreduced", "{raw} * {raw2} mod {q}");
    // The modulus as others see it.
    ensure_eq!(of_uint(&<Z<N, C> as RingModulus<N>>::field_modulus()), q, "modulus");
    ensure_eq!(of_uint(&<Z<N, C> as RingModulus<N>>::field_modulus_div_2()), &q >> 1, "modulus");
    ensure_eq!(of_uint(&<Z<N, C> as RingModulus<17>>::field_modulus()), q, "modulus");
    ensure_eq!(of_uint(&extend_bigint::<16, N>(&uint::<N>(&raw))), raw, "extend");
    // Storage.
    let bytes = bincode::serialize(&x).unwrap();
    let back: Z<N, C> = bincode::deserialize(&bytes).map_err(|e| Fail { sig: "serde".into(), msg: e.to_string() })?;
    is("serde", back, &a)?;
    // Stored words not below the modulus are refused: alter a stored element.
    let mut le = raw.to_bytes_le();
    le.resize(8 * N, 0);
    if bytes.ends_with(&{
        let mut t = a.to_bytes_le();
        t.resize(8 * N, 0);
        t
    }) {
        let mut forged = bytes.clone();
        let at = forged.len() - 8 * N;
        forged[at..].copy_from_slice(&le);
        match bincode::deserialize::<Z<N, C>>(&forged) {
            Ok(v) => {
                ensure!(raw < q, "serde-range", "stored words {raw} accepted although the modulus is {q}");
                is("serde", v, &raw)?;
            }
            Err(_) => ensure!(raw >= q, "serde-range", "stored words {raw} refused although the modulus is {q}"),
        }
        cov.label("forged");
    }
    cov.nontrivial_if(&a + &b >= q || &a * &b >= q);
    cov.label_if(&a * &b >= q, "product-reduced");
    cov.label_if(raw >= q, "unreduced-words");
    cov.label(format!("limbs{}", N.min(5)));
    cov.comparisons(30);
    Ok(())
}

fn run_field<const N: usize, C: BarrettConfig<N> + FieldConfig>(c: &Case, cov: &Cover) -> Res {
    run::<N, C>(c, cov)?;
    let q = modulus::<N, C>();
    let bits = 64 * N as u64;
    let a = c.a.get(&q, bits);
    if !a.is_zero() {
        let x = z::<N, C>(&a)?;
        let inv = x.inverse();
        let g = of_uint(&inv.into_bigint());
        ensure!(g < q, "inverse", "inverse of {a} mod {q} is {g}: not canonical");
        ensure!((&a * &g) % &q == BigUint::one(), "inverse", "{a} * {g} is not 1 mod {q}");
        is("inverse", x * inv, &BigUint::one())?;
        cov.label("inverse");
    }
    Ok(())
}

// ---- wrapping integers

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct WrapCase {
    width: u8,
    a: (u64, u64),
    b: (u64, u64),
    e: u64,
}

trait Wrap: sunscreen_math::ring::WrappingSemantics + Ord {
    const W: u64;
    fn of(x: u128) -> Self;
    fn big(self) -> BigUint;
}
macro_rules! wrap {
    ($($t:ty),*) => { $( impl Wrap for $t {
        const W: u64 = <$t>::BITS as u64;
        fn of(x: u128) -> Self { x as $t }
        fn big(self) -> BigUint { BigUint::from(self) }
    } )* };
}
wrap!(u8, u16, u32, u64, u128);

fn wrapping<T: Wrap>(c: &WrapCase, cov: &Cover) -> Res {
    let m = BigUint::one() << T::W;
    let (a, b) = (T::of((c.a.0 as u128) << 64 | c.a.1 as u128), T::of((c.b.0 as u128) << 64 | c.b.1 as u128));
    let (x, y) = (ZInt::new(a), ZInt::from(b));
    let (p, q) = (a.big(), b.big());
    let is = |what: &str, g: ZInt<T>, w: BigUint| -> Res {
        ensure!(g.0.big() == w, what, "{what} of {p}, {q} at {} bits: {} instead of {w}", T::W, g.0.big());
        Ok(())
    };
    for g in [x + y, &x + y, x + &y, &x + &y] {
        is("wrapping-add", g, (&p + &q) % &m)?;
    }
    for g in [x - y, &x - y, x - &y, &x - &y] {
        is("wrapping-sub", g, (&p + &m - &q) % &m)?;
    }
    for g in [x * y, &x * y, x * &y, &x * &y] {
        is("wrapping-mul", g, (&p * &q) % &m)?;
    }
    is("wrapping-neg", -x, (&m - &p) % &m)?;
    is("wrapping-neg", -&x, (&m - &p) % &m)?;
    is("zero", ZInt::zero(), BigUint::zero())?;
    is("one", ZInt::one(), BigUint::one())?;
    is("pow", x.pow(c.e), p.modpow(&BigUint::from(c.e), &m))?;
    ensure_eq!(x.vartime_is_zero(), p.is_zero(), "is-zero");
    ensure_eq!(x == y, p == q, "eq");
    ensure_eq!(x.cmp(&y), p.cmp(&q), "cmp");
    ensure_eq!(x.partial_cmp(&y), Some(p.cmp(&q)), "cmp");
    let n = (T::W / 8) as usize;
    let mut le = p.to_bytes_le();
    le.resize(n, 0);
    let got = x.to_le_bytes();
    ensure!(got.as_ref() == &le[..], "bytes", "le bytes {:?} != {le:?}", got.as_ref());
    let got = x.to_ne_bytes();
    ensure!(got.as_ref() == &le[..], "bytes", "ne bytes {:?} != {le:?}", got.as_ref());
    le.reverse();
    let got = x.to_be_bytes();
    ensure!(got.as_ref() == &le[..], "bytes", "be bytes {:?} != {le:?}", got.as_ref());
    cov.nontrivial_if(&p + &q >= m || &p * &q >= m);
    cov.comparisons(20);
    Ok(())
}

/// Ring laws as seen through the trait that generic code uses.
pub fn laws<R: Ring>(a: R, b: R, c: R) -> Res {
    ensure!(a.clone() * (b.clone() + &c) == a.clone() * &b + a.clone() * &c, "laws", "distributivity");
    ensure!(a.clone() + R::zero() == a && a.clone() * R::one() == a, "laws", "identities");
    ensure!((a.clone() + (-a.clone())).vartime_is_zero(), "laws", "additive inverse");
    ensure!(a.clone() - &b == a.clone() + (-b.clone()), "laws", "subtraction");
    ensure!((a.clone() * &b) * &c == a * (b * &c), "laws", "associativity");
    Ok(())
}

pub fn check() -> Check {
    let entries = crate::moduli::all();
    let n = entries.len();
    let e64 = || prop_oneof![2 => 0u64..20, 2 => any::<u64>(), 1 => (0u32..64).prop_map(|i| 1u64 << i), 1 => Just(u64::MAX)];
    let case = (any::<u16>(), v(), v(), v(), prop_oneof![3 => any::<u64>(), 1 => Just(u64::MAX), 1 => 0u64..300, 1 => Just(1 << 63)], prop_oneof![3 => any::<i64>(), 2 => -300i64..300, 1 => Just(i64::MIN), 1 => Just(i64::MAX), 1 => any::<i32>().prop_map(|x| x as i64)], e64())
        .prop_map(|(modulus, a, b, c, u, i, e)| Case { modulus, a, b, c, u, i, e });
    let w64 = || prop_oneof![4 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => Just(1u64 << 63), 1 => 0u64..300];
    Check {
        id: "M01",
        assumptions: vec!["num::BigUint as exact integer reference", "moduli are compile-time parameters: a fixed set of moduli of 1 to 16 limbs, operands generated"],
        subs: vec![
            sub("rings", 120_000, 6_000_000, "operands near 0, q, q/2, word boundaries or random, for each of the moduli in moduli.rs; non-trivial: the sum or product needs reduction",
                case, move |c: &Case, cov| (entries[c.modulus as usize % n].run)(c, cov)),
            sub("wrapping", 60_000, 3_000_000, "word-sized operands; non-trivial: a sum or product overflows",
                (0u8..5, (w64(), w64()), (w64(), w64()), e64()).prop_map(|(width, a, b, e)| WrapCase { width, a, b, e }),
                |c: &WrapCase, cov| match c.width {
                    0 => wrapping::<u8>(c, cov),
                    1 => wrapping::<u16>(c, cov),
                    2 => wrapping::<u32>(c, cov),
                    3 => wrapping::<u64>(c, cov),
                    _ => wrapping::<u128>(c, cov),
                }),
        ],
    }
}
