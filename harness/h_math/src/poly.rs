//! M02.
use crate::zq::{laws, of_uint, uint, v, Z, V};
use num::{BigUint, One as _, Zero as _};
use serde::{Deserialize, Serialize};
use sunscreen_math::{
    poly::Polynomial,
    ring::{BarrettConfig, Ring, ZInt},
    One, Zero,
};
use vkit::proptest::prelude::*;
use vkit::*;

/// A ring whose elements are residues the reference can compute with.
pub trait Model: Ring {
    fn q() -> BigUint;
    fn bits() -> u64;
    fn of(x: &BigUint) -> Self;
    fn big(&self) -> BigUint;
}
impl<const N: usize, C: BarrettConfig<N> + 'static> Model for Z<N, C> {
    fn q() -> BigUint {
        of_uint(&C::MODULUS)
    }
    fn bits() -> u64 {
        64 * N as u64
    }
    fn of(x: &BigUint) -> Self {
        Self::try_from(uint::<N>(x)).unwrap()
    }
    fn big(&self) -> BigUint {
        of_uint(&self.into_bigint())
    }
}
macro_rules! zint {
    ($($t:ty),*) => { $( impl Model for ZInt<$t> {
        fn q() -> BigUint { BigUint::one() << <$t>::BITS }
        fn bits() -> u64 { <$t>::BITS as u64 }
        fn of(x: &BigUint) -> Self { ZInt::new(<$t>::try_from(x).unwrap()) }
        fn big(&self) -> BigUint { BigUint::from(self.0) }
    } )* };
}
zint!(u8, u16, u32, u64, u128);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    ring: u16,
    a: Vec<V>,
    b: Vec<V>,
    c: Vec<V>,
    x: V,
    /// zeros appended to each operand
    pad: [u8; 3],
    /// how b relates to a: unrelated, equal up to trailing zeros, differing in one coefficient
    relate: u8,
    at: u8,
    monic: bool,
}

type P = Vec<BigUint>;
fn trim(mut p: P) -> P {
    while p.last().is_some_and(|x| x.is_zero()) {
        p.pop();
    }
    p
}
fn add(a: &P, b: &P, q: &BigUint) -> P {
    let z = BigUint::zero();
    trim((0..a.len().max(b.len())).map(|i| (a.get(i).unwrap_or(&z) + b.get(i).unwrap_or(&z)) % q).collect())
}
fn neg(a: &P, q: &BigUint) -> P {
    trim(a.iter().map(|x| (q - x) % q).collect())
}
fn mul(a: &P, b: &P, q: &BigUint) -> P {
    if a.is_empty() || b.is_empty() {
        return vec![];
    }
    let mut r = vec![BigUint::zero(); a.len() + b.len() - 1];
    for (i, x) in a.iter().enumerate() {
        for (j, y) in b.iter().enumerate() {
            r[i + j] += x * y;
        }
    }
    trim(r.into_iter().map(|x| x % q).collect())
}

fn build<R: Model>(p: &P) -> Polynomial<R> {
    Polynomial::new(&p.iter().map(R::of).collect::<Vec<_>>())
}

/// The coefficients say `want` (trailing zeros aside).
fn is<R: Model>(what: &str, got: &Polynomial<R>, want: &P) -> Res {
    let g = trim(got.coeffs.iter().map(|x| x.big()).collect());
    ensure!(&g == want, what, "{what} mod {}: got {g:?}, expected {want:?}", R::q());
    Ok(())
}

pub fn run<R: Model>(c: &Case, cov: &Cover) -> Res {
    let q = R::q();
    let get = |v: &Vec<V>| v.iter().map(|x| x.get(&q, R::bits())).collect::<P>();
    let pad = |mut p: P, n: u8| {
        p.extend(std::iter::repeat(BigUint::zero()).take(n as usize));
        p
    };
    let a = get(&c.a);
    let mut b = get(&c.b);
    match c.relate {
        1 => b = a.clone(),
        2 if !a.is_empty() => {
            b = a.clone();
            let i = c.at as usize % a.len();
            b[i] = (&b[i] + BigUint::one() + c.x.get(&q, R::bits())) % &q;
        }
        3 if !a.is_empty() => {
            // The leading coefficients alone differ.
            b = a.clone();
            let l = b.len() - 1;
            b[l] = (&b[l] + BigUint::one()) % &q;
        }
        _ => {}
    }
    let d = get(&c.c);
    let x = c.x.get(&q, R::bits());
    let (pa, pb, pd) = (build::<R>(&pad(a.clone(), c.pad[0])), build::<R>(&pad(b.clone(), c.pad[1])), build::<R>(&pad(d.clone(), c.pad[2])));
    let (a, b, d) = (trim(a), trim(b), trim(d));
    for g in [&pa + &pb, pa.clone() + &pb, &pa + pb.clone(), pa.clone() + pb.clone()] {
        is("add", &g, &add(&a, &b, &q))?;
    }
    let diff = add(&a, &neg(&b, &q), &q);
    for g in [&pa - &pb, pa.clone() - &pb, &pa - pb.clone(), pa.clone() - pb.clone()] {
        is("sub", &g, &diff)?;
    }
    let prod = mul(&a, &b, &q);
    for g in [&pa * &pb, pa.clone() * &pb, &pa * pb.clone(), pa.clone() * pb.clone()] {
        is("mul", &g, &prod)?;
    }
    is("neg", &-pa.clone(), &neg(&a, &q))?;
    let rx = R::of(&x);
    let scaled = trim(a.iter().map(|y| (y * &x) % &q).collect());
    for g in [&pa * &rx, pa.clone() * &rx, &pa * rx.clone(), pa.clone() * rx.clone()] {
        is("scale", &g, &scaled)?;
    }
    // Evaluation is a ring homomorphism with the obvious values.
    let eval = |p: &P| p.iter().rev().fold(BigUint::zero(), |s, k| (s * &x + k) % &q);
    ensure_eq!(pa.evaluate(&rx).big(), eval(&a), "evaluate", "at {x} mod {q}");
    ensure_eq!((&pa * &pb).evaluate(&rx).big(), (eval(&a) * eval(&b)) % &q, "evaluate", "product at {x}");
    // Equality and degree ignore trailing zeros and nothing else.
    ensure!((pa == pb) == (a == b), "eq", "{:?} == {:?} says {} (mod {q})", a, b, pa == pb);
    ensure!((pb == pa) == (a == b), "eq", "not symmetric");
    ensure!((pa != pb) == (a != b), "eq", "!= disagrees");
    ensure!(pa == build::<R>(&a), "eq", "padding matters");
    ensure_eq!(pa.vartime_is_zero(), a.is_empty(), "is-zero");
    ensure!(Polynomial::<R>::zero().vartime_is_zero() && (pa == Polynomial::zero()) == a.is_empty(), "zero");
    is("one", &Polynomial::<R>::one(), &trim(vec![BigUint::one() % &q]))?;
    match catch(|| pa.vartime_degree()) {
        Ok(n) => ensure!(!a.is_empty() && n == a.len() - 1, "degree", "degree of {a:?} (padded by {}) is {n}", c.pad[0]),
        Err(_) => ensure!(a.is_empty(), "degree", "no degree for {a:?}"),
    }
    for i in 0..pa.coeffs.len() {
        ensure!(pa[i] == pa.coeffs[i], "index");
    }
    laws(pa.clone(), pb.clone(), pd.clone())?;
    // Division by a monic polynomial; anything else is refused.
    let mut den = d.clone();
    if c.monic {
        den.push(BigUint::one());
    }
    let den = trim(den);
    let pden = build::<R>(&pad(den.clone(), c.pad[2]));
    let monic = den.last().is_some_and(|l| l.is_one());
    match catch(|| pa.vartime_div_rem_restricted_rhs(&pden)) {
        Ok((quo, rem)) => {
            ensure!(monic, "div-not-monic", "divided {a:?} by {den:?} mod {q}, whose leading coefficient is not one");
            let (g, r): (P, P) = (trim(quo.coeffs.iter().map(|x| x.big()).collect()), trim(rem.coeffs.iter().map(|x| x.big()).collect()));
            ensure!(r.len() < den.len(), "div-degree", "remainder {r:?} has no smaller degree than {den:?}");
            ensure!(add(&mul(&g, &den, &q), &r, &q) == a, "div", "{a:?} is not ({g:?}) * ({den:?}) + ({r:?}) mod {q}");
            cov.label_if(g.len() > 1, "divided");
        }
        Err(e) => ensure!(!monic, "div-refused", "refused to divide {a:?} by the monic {den:?} mod {q}: {e}"),
    }
    // Polynomials are a ring themselves: polynomials over polynomials.
    if pa.coeffs.len() <= 4 && pb.coeffs.len() <= 4 && pd.coeffs.len() <= 4 {
        let two = Polynomial::new(&[pa.clone(), pb.clone()]);
        let sq = &two * &two;
        is("nested", &sq.coeffs[0], &mul(&a, &a, &q))?;
        is("nested", &sq.coeffs[1], &add(&prod, &prod, &q))?;
        is("nested", &sq.coeffs[2], &mul(&b, &b, &q))?;
        let at = two.evaluate(&pd);
        is("nested", &at, &add(&a, &mul(&b, &d, &q), &q))?;
        cov.label("nested");
    }
    // Storage.
    let back: Polynomial<R> = {
        let coeffs = pa.coeffs.clone();
        Polynomial::new(&coeffs)
    };
    ensure!(back == pa && back.coeffs.len() == pa.coeffs.len(), "new");
    cov.nontrivial_if(a.len() != b.len() || c.pad[0] != c.pad[1] || c.relate > 0);
    cov.label_if(a == b, "equal");
    cov.label_if(c.relate == 3 && a != b, "leading-differs");
    cov.label_if(!monic, "not-monic");
    cov.comparisons(30);
    Ok(())
}

pub fn check() -> Check {
    let entries = crate::moduli::all();
    let n = entries.len();
    let p = |m: usize| prop_oneof![6 => prop::collection::vec(v(), 0..=5), 2 => prop::collection::vec(v(), 0..=m), 1 => prop::collection::vec(Just(V::Small(0)), 0..=3)];
    let case = (any::<u16>(), p(24), p(24), p(12), v(), prop::array::uniform3(prop_oneof![2 => Just(0u8), 1 => 1u8..4]), 0u8..4, any::<u8>(), any::<bool>())
        .prop_map(|(ring, a, b, c, x, pad, relate, at, monic)| Case { ring, a, b, c, x, pad, relate, at, monic });
    Check {
        id: "M02",
        assumptions: vec!["num::BigUint schoolbook arithmetic as reference"],
        subs: vec![sub(
            "algebra",
            60_000,
            3_000_000,
            "coefficient vectors of 0 to 24 entries with generated zero padding, related (equal, one coefficient changed, leading coefficient changed) or not, over wrapping integers and every modulus of moduli.rs; non-trivial: lengths or paddings differ or the operands are related",
            case,
            move |c: &Case, cov| {
                let k = c.ring as usize % (n + 5);
                match k.checked_sub(5) {
                    Some(i) => (entries[i].poly)(c, cov),
                    None => match k {
                        0 => run::<ZInt<u8>>(c, cov),
                        1 => run::<ZInt<u16>>(c, cov),
                        2 => run::<ZInt<u32>>(c, cov),
                        3 => run::<ZInt<u64>>(c, cov),
                        _ => run::<ZInt<u128>>(c, cov),
                    },
                }
            },
        )],
    }
}
