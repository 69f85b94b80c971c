//! M03.
use num::{BigInt, BigUint, One, ToPrimitive, Zero};
use serde::{Deserialize, Serialize};
use sunscreen_math::{combination::*, geometry::*, security::*, stats::RunningMeanVariance};
use vkit::proptest::prelude::*;
use vkit::*;

fn choose(n: usize, k: usize) -> BigUint {
    if k > n {
        return BigUint::zero();
    }
    let mut r = BigUint::one();
    for i in 1..=k.min(n - k) {
        r = r * (n - k.min(n - k) + i) / i;
    }
    r
}

// ---- combinations

/// Whole enumeration of small sets.
fn enumerate(&(n, t): &(usize, usize), cov: &Cover) -> Res {
    let c = match Combinations::new(n, t) {
        Ok(c) => {
            ensure!(n > 0 && t <= n, "new", "accepted n={n}, t={t}");
            c
        }
        Err(_) => {
            ensure!(n == 0 || t > n, "new", "refused n={n}, t={t}");
            return Ok(());
        }
    };
    let total = choose(n, t).to_usize().unwrap();
    ensure_eq!(c.number_combinations(), total, "count", "{n} choose {t}");
    let mut prev: Option<Vec<usize>> = None;
    let mut count = 0;
    let mut it = c.clone();
    while let Some(x) = it.next() {
        ensure!(x.len() == t && x.windows(2).all(|w| w[0] < w[1]) && x.iter().all(|e| *e < n), "enumeration", "{x:?} is no combination of {t} of {n}");
        if let Some(p) = &prev {
            ensure!(*p < x, "order", "{p:?} before {x:?}");
        }
        ensure_eq!(c.get_index(&x), Ok(count), "index", "{x:?} of {n} choose {t}");
        let unranked = c.at_index(count);
        ensure!(unranked.as_ref() == Some(&x), "unrank", "{count} of {n} choose {t}: {unranked:?} != {x:?}");
        prev = Some(x);
        count += 1;
        ensure!(count <= total, "enumeration", "more than {total} combinations");
    }
    ensure_eq!(count, total, "enumeration", "{n} choose {t}");
    ensure!(it.next().is_none() && it.next().is_none(), "enumeration", "continues after the end");
    ensure!(c.at_index(total).is_none() && c.at_index(usize::MAX).is_none(), "unrank", "index beyond the end");
    // The iterator's position does not change the indexing functions.
    ensure_eq!(it.at_index(0), Some((0..t).collect::<Vec<_>>()), "unrank", "after iteration");
    cov.nontrivial_if(total > 1);
    cov.comparisons(3 * total as u64);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Rank {
    n: usize,
    t: usize,
    index: u64,
    near: u8,
}

/// Single ranks of sets of any size whose number of combinations fits a word.
fn rank(r: &Rank, cov: &Cover) -> Res {
    let (n, mut t) = (r.n, r.t % (r.n + 1));
    let total = loop {
        match choose(n, t).to_usize() {
            Some(x) => break x,
            None => t = if t > n / 2 { t + 1 } else { t - 1 },
        }
    };
    let c = Combinations::new(n, t).unwrap();
    ensure_eq!(c.number_combinations(), total, "count", "{n} choose {t}");
    let i = match r.near {
        0 => 0,
        1 => total - 1,
        2 => total / 2,
        _ => (r.index as u128 * total as u128 >> 64) as usize,
    };
    let Some(x) = c.at_index(i) else { return fail("unrank", format!("no combination {i} of {total} ({n} choose {t})")) };
    ensure!(x.len() == t && x.windows(2).all(|w| w[0] < w[1]) && x.iter().all(|e| *e < n), "unrank", "{x:?} is no combination of {t} of {n}");
    // The rank by its definition: how many combinations come before x.
    let mut want = BigUint::zero();
    let mut from = 0;
    for (k, e) in x.iter().enumerate() {
        for j in from..*e {
            want += choose(n - 1 - j, t - 1 - k);
        }
        from = e + 1;
    }
    ensure_eq!(want, BigUint::from(i), "unrank", "{n} choose {t}: {x:?} returned for {i}");
    ensure_eq!(c.get_index(&x), Ok(i), "index", "{x:?} of {n} choose {t}");
    ensure!(c.at_index(total).is_none(), "unrank", "index {total} of {total}");
    // Wrong combinations are refused.
    let mut long = x.clone();
    long.push(n - 1);
    ensure_eq!(c.get_index(&long), Err(CombinationGetIndexError::IncorrectLength(t, t + 1)), "index-refuse");
    if t > 0 {
        ensure_eq!(c.get_index(&x[1..]), Err(CombinationGetIndexError::IncorrectLength(t, t - 1)), "index-refuse");
        let mut big = x.clone();
        big[t - 1] = n + r.near as usize;
        ensure_eq!(c.get_index(&big), Err(CombinationGetIndexError::ValueTooLarge(n - 1, n + r.near as usize)), "index-refuse");
    }
    cov.nontrivial_if(total > 1000);
    cov.label_if(total > 1 << 58, "huge");
    cov.comparisons(4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Insert {
    set: Vec<u8>,
    e: u8,
}
fn insert(c: &Insert, cov: &Cover) -> Res {
    let mut s: Vec<usize> = c.set.iter().map(|x| *x as usize).collect();
    s.sort();
    s.dedup();
    let e = c.e as usize;
    let mut want: Vec<usize> = s.iter().map(|x| if *x >= e { x + 1 } else { *x }).collect();
    want.push(e);
    want.sort();
    let at = want.iter().position(|x| *x == e).unwrap();
    ensure_eq!(insert_element_into_reduced_combination(e, &s), (at, want), "insert", "{e} into {s:?}");
    cov.nontrivial_if(at > 0 && at < s.len());
    Ok(())
}

// ---- statistics

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Samples {
    center: f64,
    scale: f64,
    xs: Vec<f64>,
}
fn stats(c: &Samples, cov: &Cover) -> Res {
    let xs: Vec<f64> = c.xs.iter().map(|x| c.center + c.scale * x).collect();
    let mut r = RunningMeanVariance::new();
    for (i, x) in xs.iter().enumerate() {
        r.add_sample(*x);
        let k = (i + 1) as f64;
        let s = &xs[..=i];
        let big = s.iter().fold(0.0f64, |m, x| m.max(x.abs()));
        let mean = s.iter().sum::<f64>() / k;
        ensure!((r.mean() - mean).abs() <= 1e-14 * big * k + 1e-300, "mean", "mean of {s:?}: {} instead of {mean}", r.mean());
        let var = s.iter().map(|x| (x - mean) * (x - mean)).sum::<f64>() / k;
        let spread = s.iter().fold(0.0f64, |m, x| m.max((x - mean).abs()));
        let tol = 1e-13 * k * (spread * big + var) + 1e-13 * (big * 1e-3).powi(2) * 1e-6 + 1e-300;
        ensure!((r.variance() - var).abs() <= tol, "variance", "variance of {s:?}: {} instead of {var}", r.variance());
        ensure!((r.std() - r.variance().sqrt()).abs() <= 1e-15 * r.std(), "std");
        ensure!(r.variance() >= 0.0, "variance", "negative");
    }
    cov.nontrivial_if(xs.len() >= 3);
    cov.comparisons(xs.len() as u64 * 2);
    Ok(())
}

// ---- geometry

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Geo {
    spaces: Vec<(i32, i32, i64)>,
    /// snap the i-th half space to the point's boundary, plus a small offset
    snap: Vec<i8>,
    p: (i32, i32),
}
fn geometry(c: &Geo, cov: &Cover) -> Res {
    // Coordinates are small integers scaled by a power of two: exact in floating point.
    let k = 1.0 / 64.0;
    let (px, py) = c.p;
    let p = Point2D::new(px as f64 * k, py as f64 * k);
    ensure!(p.x() == px as f64 * k && p.y() == py as f64 * k, "point");
    let mut hs = vec![];
    let mut want = vec![];
    let mut boundary = 0;
    for (i, (a, b, s)) in c.spaces.iter().enumerate() {
        let dot = *a as i64 * px as i64 + *b as i64 * py as i64;
        let rhs = match c.snap.get(i) {
            Some(o) if *o > -3 && *o < 3 => dot + *o as i64,
            _ => *s,
        };
        let h = HalfSpace2D::new((*a as f64 * k, *b as f64 * k), rhs as f64 * k * k);
        let inside = dot <= rhs;
        boundary += u64::from(dot == rhs);
        ensure_eq!(h.inside(p), inside, "half-space", "{a}x + {b}y <= {rhs} at {:?}", c.p);
        hs.push(h);
        want.push(inside);
    }
    let poly = ConvexPolytope2D::new(&hs);
    ensure_eq!(poly.inside(p), want.iter().all(|x| *x), "polytope", "{:?} at {:?}", c.spaces, c.p);
    let v: Vec<String> = poly.violations(p).iter().map(|h| format!("{h:?}")).collect();
    let w: Vec<String> = hs.iter().zip(&want).filter(|(_, i)| !**i).map(|(h, _)| format!("{h:?}")).collect();
    ensure_eq!(v, w, "violations");
    ensure_eq!(poly.half_spaces().len(), hs.len(), "half-spaces");
    cov.nontrivial_if(boundary > 0 || (want.iter().any(|x| *x) && want.iter().any(|x| !*x)));
    cov.label_if(boundary > 0, "boundary");
    cov.comparisons(hs.len() as u64 + 3);
    Ok(())
}

// ---- security estimates

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sec {
    dim: usize,
    level: f64,
    other_dim: usize,
    other_level: f64,
    std_log: f64,
}

/// The documented region of (dimension, level). The last constraint is the documented one on
/// dimensions above 1472.
fn level_region(dim: usize, level: f64) -> bool {
    (368..=2048).contains(&dim) && (78.0..=130.0).contains(&level) && 0.05678074392712544 * dim as f64 - level <= 3.5151045883938177
}
/// The documented region of (dimension, log10 of the deviation).
fn std_region(dim: usize, l: f64) -> bool {
    let d = dim as f64;
    (368..=2048).contains(&dim) && -0.012501482876757172 * d - l <= -0.5040411014606384 && 0.0077927720025765665 * d + l <= 0.7390928205510939 && -l <= 17.67
}

/// Each fit states a maximal error of 0.11 % of the level.
const MAX_ERR: f64 = 0.0011;

fn security(c: &Sec, cov: &Cover) -> Res {
    let (d, l) = (c.dim, c.level);
    // Which clause a wrong refusal violates: dimensions 368 to 385 are a known finding.
    let refused = |ok: bool, region: bool| if !ok && region && (368..386).contains(&d) { "std-refused-dimension-368-to-385" } else { "std-region" };
    let r = lwe_security_level_to_std(d, l);
    ensure!(r.is_ok() == level_region(d, l), "level-region", "dimension {d}, level {l}: {r:?}");
    match &r {
        Ok(s) => {
            ensure!(s.is_finite() && *s > 0.0 && *s < 1.0, "level-value", "dimension {d}, level {l}: {s}");
            let back = lwe_std_to_security_level(d, *s);
            let region = std_region(d, s.log10());
            ensure!(back.is_ok() == region, refused(back.is_ok(), region), "dimension {d}, deviation {s}: {back:?}");
            if let Ok(b) = back {
                ensure!((b - l).abs() <= 2.0 * MAX_ERR * l, "inverse", "dimension {d}: level {l} needs deviation {s}, which is estimated at level {b}");
                cov.nontrivial();
            }
            // More security needs more noise; a larger dimension needs less.
            let (l2, d2) = (c.other_level, c.other_dim);
            if (l2 - l).abs() > 0.05 {
                if let Ok(s2) = lwe_security_level_to_std(d, l2) {
                    ensure!((s2 > *s) == (l2 > l), "monotone", "dimension {d}: levels {l}, {l2} need deviations {s}, {s2}");
                    cov.label("monotone-level");
                }
            }
            if d2 != d {
                if let Ok(s2) = lwe_security_level_to_std(d2, l) {
                    ensure!((s2 < *s) == (d2 > d), "monotone", "level {l}: dimensions {d}, {d2} need deviations {s}, {s2}");
                    cov.label("monotone-dim");
                }
            }
        }
        Err(e) => {
            ensure!(e.value().0 == d as f64 && (e.value().1 == l || l.is_nan()), "error", "error reports {:?}", e.value());
            ensure!(e.dimensions() == &["dimension".to_string(), "security_level".to_string()], "error", "error reports {:?}", e.dimensions());
            ensure!(!e.polytope().inside(Point2D::new(d as f64, l)), "error", "error reports a region that contains the query");
            cov.label("level-refused");
        }
    }
    let std = 10f64.powf(c.std_log);
    let sl = std.log10();
    let r = lwe_std_to_security_level(d, std);
    let region = std_region(d, sl);
    ensure!(r.is_ok() == region, refused(r.is_ok(), region), "dimension {d}, log deviation {sl}: {r:?}");
    match &r {
        Ok(x) => {
            // The region is a little larger than the levels covered, never much.
            ensure!(*x > 70.0 && *x < 140.0, "std-value", "dimension {d}, log deviation {sl}: level {x}");
            if let Ok(s) = lwe_security_level_to_std(d, *x) {
                // 0.22 % of the level is at most 0.29 levels; one level is at most 0.06 in log10.
                ensure!((s.log10() - sl).abs() < 0.05, "inverse", "dimension {d}: deviation 10^{sl} gives level {x}, which needs deviation {s}");
                cov.nontrivial();
            }
            if let Ok(y) = lwe_std_to_security_level(d, 10f64.powf(c.std_log + 0.01)) {
                ensure!(y > *x, "monotone", "dimension {d}: log deviation {sl} gives {x}, 0.01 more gives {y}");
                cov.label("monotone-std");
            }
            if let Ok(y) = lwe_std_to_security_level(d + 4, std) {
                ensure!(y > *x, "monotone", "log deviation {sl}: dimension {d} gives {x}, {} gives {y}", d + 4);
            }
        }
        Err(e) => {
            ensure!(e.value().0 == d as f64 && e.value().1 == sl, "error", "error reports {:?}", e.value());
            ensure!(e.dimensions() == &["dimension".to_string(), "log_std".to_string()], "error", "error reports {:?}", e.dimensions());
            ensure!(!e.polytope().inside(Point2D::new(d as f64, sl)), "error", "error reports a region that contains the query");
            cov.label("std-refused");
        }
    }
    for bad in [0.0, -1.0, -std, f64::NAN, f64::INFINITY] {
        ensure!(lwe_std_to_security_level(d, bad).is_err(), "std-region", "deviation {bad} accepted");
    }
    for bad in [f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -l] {
        ensure!(lwe_security_level_to_std(d, bad).is_err(), "level-region", "level {bad} accepted");
    }
    cov.comparisons(10);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tail {
    ratio: f64,
    std_log: f64,
    more: f64,
}

/// log10 of the probability of a standard normal being farther than x from 0, by its own
/// continued fraction or series.
fn log10_tail(x: f64) -> f64 {
    if x < 2.0 {
        // erf by its series, exact to rounding for small arguments.
        let z = x / std::f64::consts::SQRT_2;
        let (mut term, mut sum, mut n) = (z, z, 0.0);
        while term.abs() > 1e-18 {
            n += 1.0;
            term *= -z * z / n;
            sum += term / (2.0 * n + 1.0);
        }
        return (1.0 - 2.0 / std::f64::consts::PI.sqrt() * sum).log10();
    }
    // Mills' ratio: Q(x) = phi(x) / (x + 1/(x + 2/(x + 3/(...)))).
    let mut f = x;
    for k in (1..=400).rev() {
        f = x + k as f64 / f;
    }
    (2.0f64).log10() - x * x / 2.0 * std::f64::consts::LOG10_E - (2.0 * std::f64::consts::PI).sqrt().log10() - f.log10()
}

fn tail(c: &Tail, cov: &Cover) -> Res {
    let s = 10f64.powf(c.std_log);
    let x = c.ratio * s;
    let g = probability_away_from_mean_gaussian(x, s);
    let ratio = x / s;
    let w = log10_tail(ratio);
    // Below 7 the exact formula loses accuracy to cancellation; above, it is a fit of the
    // logarithm, off by up to 0.0055 % at 7.
    let tol = if ratio < 7.0 { 1e-9 + 4e-16 / 10f64.powf(w) } else { 1e-4 * w.abs() };
    ensure!((g - w).abs() <= tol, "tail", "log10 P(|X| > {ratio} sigma) = {g}, expected {w}");
    let y = x * (1.0 + c.more);
    if c.more > 1e-3 && ratio > 1e-3 && y / s <= 30.0 {
        ensure!(probability_away_from_mean_gaussian(y, s) < g, "tail-monotone", "not decreasing from {x} to {y} (sigma {s})");
    }
    cov.nontrivial_if(ratio > 0.1);
    cov.label_if(ratio >= 7.0, "high");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Poly2 {
    c: Vec<Vec<i16>>,
    x: i8,
    y: i8,
}
fn poly2(c: &Poly2, cov: &Cover) -> Res {
    let mut m = [[0.0f64; 3]; 4];
    let mut want = BigInt::zero();
    for i in 0..4 {
        for j in 0..3 {
            let k = c.c[i][j];
            m[i][j] = k as f64;
            want += BigInt::from(k) * BigInt::from(c.x).pow(i as u32) * BigInt::from(c.y).pow(j as u32);
        }
    }
    // Small integers: exact.
    ensure_eq!(evaluate_polynomial_2d(&m, c.x as f64, c.y as f64), want.to_f64().unwrap(), "polynomial", "{:?}", c);
    cov.nontrivial_if(c.x != 0 && c.y != 0);
    Ok(())
}

pub fn check() -> Check {
    let dim = || prop_oneof![6 => 368usize..=2048, 2 => 360usize..392, 1 => 2040usize..2056, 1 => 0usize..4000, 1 => Just(1472usize)];
    let level = || prop_oneof![6 => 78.0f64..130.0, 1 => 77.9f64..78.1, 1 => 129.9f64..130.1, 1 => 0.0f64..300.0, 1 => Just(78.0), 1 => Just(130.0), 1 => (78u8..=130).prop_map(|x| x as f64)];
    let sec = (dim(), level(), dim(), level(), prop_oneof![1 => Just(None), 3 => (0.0f64..1.0).prop_map(Some)], -20.0f64..1.0).prop_map(|(dim, level, other_dim, other_level, inside, l)| {
        // Mostly inside the valid band of deviations for the dimension.
        let d = dim as f64;
        let (lo, hi) = ((0.5040411014606384 - 0.012501482876757172 * d).max(-17.67), 0.7390928205510939 - 0.0077927720025765665 * d);
        let std_log = match inside {
            Some(x) => lo - 0.02 + x * (hi - lo + 0.04),
            None => l,
        };
        Sec { dim, level, other_dim, other_level, std_log }
    });
    Check {
        id: "M03",
        assumptions: vec!["the region stated in the code's comments for dimensions above 1472 and for deviations is taken as specified", "dimension queries compared at a distance of 0.05 levels, 0.01 in log10 deviation or 4 dimensions"],
        subs: vec![
            sub("enumerate", 400, 3_000, "whole enumerations of up to 16 elements; non-trivial: more than one combination", (0usize..=16, 0usize..=17), enumerate),
            sub("rank", 40_000, 2_000_000, "rank and unrank in sets of up to 200 elements whose number of combinations fits 64 bits; non-trivial: more than 1000 combinations",
                (1usize..=200, any::<usize>(), any::<u64>(), 0u8..12).prop_map(|(n, t, index, near)| Rank { n: if near % 3 == 0 { 50 + n % 18 } else { n }, t: if near % 3 == 0 { (50 + n % 18) / 2 + t % 3 } else { t }, index, near }), rank),
            sub("insert", 10_000, 500_000, "random sets; non-trivial: inserted in the middle", (prop::collection::vec(0u8..40, 0..10), 0u8..42).prop_map(|(set, e)| Insert { set, e }), insert),
            sub("stats", 6_000, 300_000, "sample sequences of up to 60 values at several scales; non-trivial: at least three samples",
                (prop_oneof![Just(0.0), -1e6f64..1e6, Just(1e9)], prop_oneof![Just(1.0), Just(1e-6), Just(1e6), Just(0.0)], prop::collection::vec(-1.0f64..1.0, 0..60)).prop_map(|(center, scale, xs)| Samples { center, scale, xs }), stats),
            sub("geometry", 30_000, 1_500_000, "half-spaces and points with exactly representable coordinates, often on or next to a boundary; non-trivial: on a boundary or violating some but not all",
                (prop::collection::vec((-1000i32..1000, -1000i32..1000, -1_000_000i64..1_000_000), 0..6), prop::collection::vec(-6i8..6, 0..6), (-1000i32..1000, -1000i32..1000)).prop_map(|(spaces, snap, p)| Geo { spaces, snap, p }), geometry),
            sub("security", 60_000, 3_000_000, "dimensions, levels and deviations in and around the documented region; non-trivial: an estimate was inverted", sec, security),
            sub("tail", 20_000, 1_000_000, "distances of 0 to 30 deviations; non-trivial: more than 0.1 deviations",
                (prop_oneof![3 => 0.0f64..30.0, 1 => 6.9f64..7.1], -20.0f64..5.0, 0.0f64..0.5).prop_map(|(ratio, std_log, more)| Tail { ratio, std_log, more }), tail),
            sub("polynomial", 4_000, 100_000, "small integer coefficients and points; non-trivial: neither coordinate 0",
                (prop::collection::vec(prop::collection::vec(-200i16..200, 3..=3), 4..=4), -9i8..9, -9i8..9).prop_map(|(c, x, y)| Poly2 { c, x, y }), poly2),
        ],
    }
}
