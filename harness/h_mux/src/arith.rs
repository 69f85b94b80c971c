//! X01: every circuit of the standard library computes its integer function on every input.
use crate::flat::*;
use mux_circuits::{add, and, bitshift as bs, comparisons as cmp, convert_value_to_bits, mul, neg, or, sub as subt, test_mux_circuit, util, Bit, MuxCircuit};
use serde::{Deserialize, Serialize};
use std::{
    collections::HashMap,
    sync::{Arc, Mutex, OnceLock},
};
use vkit::proptest::prelude::*;
use vkit::*;

type V = Vec<(u128, u128, bool)>;
type Fn = std::result::Result<Arc<(MuxCircuit, Flat)>, Fail>;

/// Circuits are built once per process and parameter set.
fn cached(key: String, make: impl FnOnce() -> MuxCircuit) -> Fn {
    static C: OnceLock<Mutex<HashMap<String, Arc<OnceLock<Fn>>>>> = OnceLock::new();
    let slot = C.get_or_init(Default::default).lock().unwrap().entry(key).or_default().clone();
    slot.get_or_init(|| {
        let c = match catch(make) {
            Ok(c) => c,
            Err(e) => return fail("build", e),
        };
        let f = flatten(&c)?;
        Ok(Arc::new((c, f)))
    })
    .clone()
}

fn mask(n: usize) -> u128 {
    if n >= 128 { !0 } else { (1u128 << n) - 1 }
}
fn bit(x: u128, i: usize) -> bool {
    i < 128 && x >> i & 1 == 1
}

/// Values biased to the edges and to long carry chains.
fn word() -> BoxedStrategy<u128> {
    prop_oneof![
        4 => any::<u128>(),
        1 => prop::sample::select(vec![0u128, 1, 2, !0, !0 - 1, 1 << 127]),
        2 => (0..128u32, any::<i8>()).prop_map(|(k, d)| (1u128 << k).wrapping_add((d % 3) as u128)),
        1 => (0..128u32, 0..128u32).prop_map(|(a, b)| (!0u128 >> a) & (!0u128 << b)),
        1 => any::<u8>().prop_map(|x| x as u128),
    ]
    .boxed()
}
/// Pairs, often equal, adjacent, complementary or differing in one bit.
fn lanes() -> BoxedStrategy<V> {
    let pair = prop_oneof![
        4 => (word(), word()),
        1 => word().prop_map(|x| (x, x)),
        1 => (word(), any::<bool>()).prop_map(|(x, up)| (x, if up { x.wrapping_add(1) } else { x.wrapping_sub(1) })),
        1 => word().prop_map(|x| (x, !x)),
        1 => (word(), 0..128u32).prop_map(|(x, k)| (x, x ^ 1 << k)),
    ];
    prop::collection::vec((pair, any::<bool>()).prop_map(|((a, b), c)| (a, b, c)), 1..=64).boxed()
}

/// Runs a circuit on all lanes, given each lane's input bits, and compares each lane's output bits; the
/// crate's own evaluator has to agree on the first lane.
fn compare(c: &(MuxCircuit, Flat), ins: &[Vec<bool>], want: &[Vec<bool>], what: &dyn std::fmt::Display, cov: &Cover) -> Res {
    let (circ, f) = c;
    ensure_eq!(f.inputs, ins[0].len(), "shape", "{what}: inputs");
    ensure_eq!(f.outputs(), want[0].len(), "shape", "{what}: outputs");
    let m = circ.metrics();
    ensure_eq!((m.inputs, m.outputs, m.mux_gates), (f.inputs, f.outputs(), f.muxes), "metrics", "{what}");
    let mut x = vec![0u64; f.inputs];
    for (l, v) in ins.iter().enumerate() {
        for (i, b) in v.iter().enumerate() {
            x[i] |= (*b as u64) << l;
        }
    }
    let got = f.run(&x);
    for (l, w) in want.iter().enumerate() {
        let g: Vec<bool> = got.iter().map(|o| o >> l & 1 == 1).collect();
        ensure!(&g == w, "value", "{what}: inputs {} give {} instead of {}", show(&ins[l]), show(&g), show(w));
    }
    if f.muxes < 20_000 {
        let bits: Vec<Bit> = ins[0].iter().map(|b| Bit(*b)).collect();
        let t: Vec<bool> = test_mux_circuit(circ, &bits).iter().map(|b| b.0).collect();
        ensure!(t == want[0], "test_mux_circuit", "{what}: inputs {} give {} instead of {}", show(&ins[0]), show(&t), show(&want[0]));
    }
    cov.comparisons((want.len() * want[0].len()) as u64);
    Ok(())
}
fn show(b: &[bool]) -> String {
    b.iter().map(|x| if *x { '1' } else { '0' }).collect()
}

/// `LSB` first bits, interleaved until the shorter is exhausted.
fn interleave(a: u128, n: usize, b: u128, m: usize) -> Vec<bool> {
    let mut r = vec![];
    for i in 0..n.max(m) {
        if i < n {
            r.push(bit(a, i));
        }
        if i < m {
            r.push(bit(b, i));
        }
    }
    r
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case<P> {
    p: P,
    lanes: V,
}
fn case<P: Strategy + 'static>(p: P) -> BoxedStrategy<Case<P::Value>>
where
    P::Value: 'static,
{
    (p, lanes()).prop_map(|(p, lanes)| Case { p, lanes }).boxed()
}
/// 1..=max, mostly small.
fn width(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![2 => 1..=8usize.min(max), 1 => 1..=max, 1 => prop::sample::select([1usize, 8, 16, 32, 64, 127].into_iter().filter(|x| *x <= max).collect::<Vec<_>>())].boxed()
}

fn adder(k: &Case<(usize, usize, bool)>, cov: &Cover) -> Res {
    let (n, m, cin) = k.p;
    let c = cached(format!("add {n} {m} {cin}"), || add::ripple_carry_adder(n, m, cin))?;
    let (mut ins, mut want) = (vec![], vec![]);
    for (a, b, ci) in &k.lanes {
        let (a, b, ci) = (a & mask(n), b & mask(m), *ci && cin);
        let mut v = if cin { vec![ci] } else { vec![] };
        v.extend(interleave(a, n, b, m));
        ins.push(v);
        let s = a + b + ci as u128;
        want.push((0..=n.max(m)).map(|i| bit(s, i)).collect());
    }
    cov.nontrivial_if(n.min(m) > 1);
    cov.label_if(n != m, "unequal");
    cov.label_if(n.max(m) > 64, "wide");
    compare(&c, &ins, &want, &format!("add {n}+{m}, carry in {cin}"), cov)
}

fn subtractor(k: &Case<(usize, bool)>, cov: &Cover) -> Res {
    let (n, bin) = k.p;
    let c = cached(format!("sub {n} {bin}"), || subt::full_subtractor(n, bin))?;
    let (mut ins, mut want) = (vec![], vec![]);
    for (a, b, bi) in &k.lanes {
        let (a, b, bi) = (a & mask(n), b & mask(n), *bi && bin);
        let mut v = if bin { vec![bi] } else { vec![] };
        v.extend(interleave(a, n, b, n));
        ins.push(v);
        let d = a as i128 - b as i128 - bi as i128; // n <= 126
        let mut w: Vec<bool> = (0..n).map(|i| bit(d as u128, i)).collect();
        w.push(d < 0);
        want.push(w);
    }
    cov.nontrivial_if(n > 1);
    compare(&c, &ins, &want, &format!("sub {n}, borrow in {bin}"), cov)
}

fn unary(k: &Case<(usize, u8)>, cov: &Cover) -> Res {
    let (n, op) = k.p;
    let name = ["neg", "and", "or"][op as usize];
    let c = cached(format!("{name} {n}"), || match op {
        0 => neg::negator(n),
        1 => and::make_and_circuit(n as u16),
        _ => or::make_or_circuit(n as u16),
    })?;
    let (mut ins, mut want) = (vec![], vec![]);
    for (a, b, _) in &k.lanes {
        let (a, b) = (a & mask(n), b & mask(n));
        ins.push(if op == 0 { interleave(a, n, 0, 0) } else { interleave(a, n, b, n) });
        let r = match op {
            0 => a.wrapping_neg(),
            1 => a & b,
            _ => a | b,
        };
        want.push((0..n).map(|i| bit(r, i)).collect());
    }
    cov.label(name);
    cov.nontrivial_if(n > 1);
    compare(&c, &ins, &want, &format!("{name} {n}"), cov)
}

fn comparison(k: &Case<(usize, u8, bool, bool)>, cov: &Cover) -> Res {
    let (n, op, gt, eq) = k.p;
    let name = ["equal", "not equal", "unsigned", "signed"][op as usize];
    let c = cached(format!("cmp {n} {op} {gt} {eq}"), || match op {
        0 => cmp::compare_equal(n),
        1 => cmp::compare_not_equal(n),
        2 => cmp::compare_or_maybe_equal(n, gt, eq),
        _ => cmp::compare_or_maybe_equal_signed(n, gt, eq),
    })?;
    let (mut ins, mut want) = (vec![], vec![]);
    let sign = |x: u128| ((x << (128 - n)) as i128) >> (128 - n);
    for (a, b, _) in &k.lanes {
        let (a, b) = (a & mask(n), b & mask(n));
        ins.push(interleave(a, n, b, n));
        let ord = if op == 3 { sign(a).cmp(&sign(b)) } else { a.cmp(&b) };
        want.push(vec![match op {
            0 => ord.is_eq(),
            1 => ord.is_ne(),
            _ => (if gt { ord.is_gt() } else { ord.is_lt() }) || eq && ord.is_eq(),
        }]);
    }
    cov.label(name);
    cov.nontrivial_if(n > 1 && want.iter().any(|w| w[0]) && want.iter().any(|w| !w[0]));
    compare(&c, &ins, &want, &format!("{name} {n}, greater {gt}, or equal {eq}"), cov)
}

/// Direction, mode, width, extra shift bits.
fn shift(k: &Case<(u8, u16, u16)>, cov: &Cover) -> Res {
    let (kind, n, extra) = k.p;
    let need = (1..).find(|s| 1u32 << s >= n as u32).unwrap() as u16;
    let s = need + extra;
    let (dir, mode) = match kind {
        0 => (bs::ShiftDirection::Left, bs::ShiftMode::Logical),
        1 => (bs::ShiftDirection::Right, bs::ShiftMode::Logical),
        2 => (bs::ShiftDirection::Left, bs::ShiftMode::Rotation),
        3 => (bs::ShiftDirection::Right, bs::ShiftMode::Rotation),
        _ => (bs::ShiftDirection::Right, bs::ShiftMode::Arithmetic),
    };
    let n = if mode == bs::ShiftMode::Rotation { n.next_power_of_two() >> (n.next_power_of_two() > n) as u16 } else { n };
    let c = cached(format!("shift {kind} {n} {s}"), || bs::bitshift(n, s, dir, mode))?;
    let (w, sw) = (n as usize, s as usize);
    let (mut ins, mut want) = (vec![], vec![]);
    let mut moved = false;
    for (x, amt, small) in &k.lanes {
        let amt = if *small { amt % (2 * n as u128) } else { *amt } & mask(sw);
        let x = x & mask(w);
        let mut v: Vec<bool> = (0..w).rev().map(|i| bit(x, i)).collect();
        v.extend((0..sw).rev().map(|i| bit(amt, i)));
        ins.push(v);
        let msb = bit(x, w - 1);
        // Output bit i (LSB numbering).
        let out = |i: usize| -> bool {
            let i = i as u128;
            let wide = n as u128;
            match kind {
                0 => i >= amt && bit(x, (i - amt) as usize),
                1 => i + amt < wide && bit(x, (i + amt) as usize),
                2 => bit(x, ((i + wide - amt % wide) % wide) as usize),
                3 => bit(x, ((i + amt) % wide) as usize),
                _ => if i + amt < wide { bit(x, (i + amt) as usize) } else { msb },
            }
        };
        want.push((0..w).rev().map(out).collect());
        moved |= amt > 0 && x != 0;
    }
    cov.label(format!("{dir:?} {mode:?}"));
    cov.label_if(extra > 0, "excess shift bits");
    cov.nontrivial_if(n > 1 && moved);
    compare(&c, &ins, &want, &format!("{dir:?} {mode:?} of {n} bits by {s} bits"), cov)
}

fn multiply(k: &Case<(usize, usize, bool)>, cov: &Cover) -> Res {
    let (n, m, raw) = k.p;
    let c = cached(format!("mul {n} {m} {raw}"), || if raw { mul::multiplier_impl(mul::MultiplierParams { n, m }) } else { mul::unsigned_multiplier(n, m) })?;
    let (mut ins, mut want) = (vec![], vec![]);
    for (a, b, _) in &k.lanes {
        let (a, b) = (a & mask(n), b & mask(m));
        let mut v: Vec<bool> = (0..n).map(|i| bit(a, i)).collect();
        v.extend((0..m).map(|i| bit(b, i)));
        ins.push(v);
        want.push((0..n + m).map(|i| bit(a * b, i)).collect());
    }
    cov.nontrivial_if(n.min(m) > 1);
    cov.label_if(n != m, "unequal");
    cov.label_if(!raw && n == m && (n == 8 || n == 16), "stored");
    compare(&c, &ins, &want, &format!("{n}x{m} multiplier (generated {raw})"), cov)
}

/// The reduction of partial products, with its input encoding.
fn gradeschool(k: &Case<(usize, usize, bool)>, cov: &Cover) -> Res {
    let (mut n, mut m, raw) = k.p;
    let ((mut al, mut ah), (mut bl, mut bh)) = (mul::partition_integer(n), mul::partition_integer(m));
    // The documented assumptions on the lengths.
    if n < m || al < bl || ah < bh {
        m = n;
        (n, al, ah) = (m, al, ah);
        (bl, bh) = (al, ah);
    }
    ensure!(al + ah == n && bl + bh == m && al >= ah && bl >= bh, "partition", "{n} = {al}+{ah}, {m} = {bl}+{bh}");
    let c = cached(format!("grade {n} {m} {raw}"), || if raw { mul::gradeschool_reduce_impl(mul::MultiplierParams { n, m }) } else { mul::gradeschool_reduce(n, m) })?;
    let (mut ins, mut want) = (vec![], vec![]);
    for (a, b, _) in &k.lanes {
        let (a, b) = (a & mask(n), b & mask(m));
        let bits = |x: u128, w: usize| -> Vec<bool> { (0..w).map(|i| bit(x, i)).collect() };
        let (a0, a1, b0, b1) = (a & mask(al), a >> al, b & mask(bl), b >> bl);
        ins.push(mul::encode_gradeschool_reduction(n, m, &bits(a0 * b0, al + bl), &bits(a0 * b1, al + bh), &bits(a1 * b0, ah + bl), &bits(a1 * b1, ah + bh)));
        want.push(bits(a * b, n + m));
    }
    cov.nontrivial_if(ah > 0);
    cov.label_if(n != m, "unequal");
    cov.label_if(!raw && n == 64 && m == 64, "stored");
    compare(&c, &ins, &want, &format!("{n}x{m} partial product reduction (generated {raw})"), cov)
}

/// Parameters whose circuits get too big to build are left to the stored tables.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Util {
    a: u128,
    b: u128,
    bin: bool,
    w: u32,
    v: u64,
    bits: usize,
    n: usize,
}
fn utils(k: &Util, cov: &Cover) -> Res {
    let (d, bo) = util::borrowing_sub(k.a, k.b, k.bin);
    ensure_eq!(d, k.a.wrapping_sub(k.b).wrapping_sub(k.bin as u128), "borrowing_sub", "{k:?}");
    let borrow = k.a < k.b || k.a == k.b && k.bin;
    ensure_eq!(bo, borrow, "borrowing_sub", "borrow of {k:?}");
    let (a, b) = (k.a & mask(k.w as usize), k.b & mask(k.w as usize));
    let got = match catch(|| util::arbitrary_width_borrowing_sub(a, b, k.bin as u128, k.w)) {
        Ok(x) => x,
        Err(e) => return fail("arbitrary_width_borrowing_sub", format!("width {}: {e}", k.w)),
    };
    let want = (a.wrapping_sub(b).wrapping_sub(k.bin as u128) & mask(k.w as usize), (a < b || a == b && k.bin) as u128);
    ensure_eq!(got, want, "arbitrary_width_borrowing_sub", "{a} - {b} - {} in {} bits", k.bin, k.w);

    let bits: Vec<bool> = convert_value_to_bits(k.a, k.w);
    let want: Vec<bool> = (0..k.w as usize).map(|i| bit(k.a, i)).collect();
    ensure_eq!(bits, want, "convert_value_to_bits", "{k:?}");

    let r = match catch(|| util::try_to_bits(k.v, k.bits)) {
        Ok(x) => x,
        Err(e) => return fail("try_to_bits", format!("{} in {} bits: {e}", k.v, k.bits)),
    };
    if (k.v as u128) <= mask(k.bits) {
        let want: Vec<Bit> = (0..k.bits).map(|i| Bit(bit(k.v as u128, i))).collect();
        ensure!(matches!(&r, Ok(x) if *x == want), "try_to_bits", "{} in {} bits", k.v, k.bits);
    } else {
        ensure!(r.is_err(), "try_to_bits", "{} accepted in {} bits", k.v, k.bits);
    }
    let (lo, hi) = mul::partition_integer(k.n);
    ensure!(lo + hi == k.n && lo >= hi && (hi == 0 || lo - hi <= 1) && (k.n > 16) == (hi > 0), "partition", "{} = {lo} + {hi}", k.n);
    cov.nontrivial_if(k.w > 1 && k.bits > 1);
    cov.label_if(k.w == 128, "width 128");
    cov.comparisons(5);
    Ok(())
}
fn small(lim: u128, v: u128) -> u64 {
    (v & lim) as u64
}

/// A table shipped with the crate is the circuit its generator makes.
fn stored(k: &(u8, u64), cov: &Cover) -> Res {
    let (stored, made) = match k.0 {
        0 => (cached("mul 8 8 false".into(), || mul::unsigned_multiplier(8, 8))?, cached("mul 8 8 true".into(), || mul::multiplier_impl(mul::MultiplierParams { n: 8, m: 8 }))?),
        1 => (cached("grade 64 64 false".into(), || mul::gradeschool_reduce(64, 64))?, cached("grade 64 64 true".into(), || mul::gradeschool_reduce_impl(mul::MultiplierParams { n: 64, m: 64 }))?),
        _ => (cached("mul 16 16 false".into(), || mul::unsigned_multiplier(16, 16))?, cached("mul 16 16 true".into(), || mul::multiplier_impl(mul::MultiplierParams { n: 16, m: 16 }))?),
    };
    ensure_eq!((stored.1.inputs, stored.1.outputs()), (made.1.inputs, made.1.outputs()), "stored", "shape of table {}", k.0);
    // Random raw input words, for the reduction also such that are no partial products.
    let mut s = k.1;
    let x: Vec<u64> = (0..stored.1.inputs)
        .map(|_| {
            s = s.wrapping_add(0x9e3779b97f4a7c15);
            let z = (s ^ s >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
            let z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
            z ^ z >> 31
        })
        .collect();
    ensure!(stored.1.run(&x) == made.1.run(&x), "stored", "table {} and the generated circuit differ on seed {}", k.0, k.1);
    cov.nontrivial();
    cov.label(["8x8", "64x64 reduction", "16x16"][k.0 as usize]);
    cov.comparisons(64 * stored.1.outputs() as u64);
    Ok(())
}

/// Refused parameters: documented by panic.
fn refused(k: &(u8, u16, u16), cov: &Cover) -> Res {
    let (what, n, s) = *k;
    use bs::{ShiftDirection::*, ShiftMode::*};
    let need = (1..).find(|s| 1u32 << s >= n as u32).unwrap() as u16;
    let r = match what {
        0 => catch(|| bs::bitshift(n, s % need, if s & 1 == 0 { Left } else { Right }, Logical)), // too few shift bits
        1 => catch(|| bs::bitshift(if n.is_power_of_two() { 3 * n } else { n }, 16, if s & 1 == 0 { Left } else { Right }, Rotation)),
        2 => catch(|| bs::bitshift(n, need, Left, Arithmetic)),
        3 => catch(|| add::ripple_carry_adder(0, n as usize, s & 1 == 0)),
        4 => catch(|| add::ripple_carry_adder(n as usize, 0, s & 1 == 0)),
        5 => catch(|| subt::full_subtractor(0, s & 1 == 0)),
        6 => catch(|| neg::negator(0)),
        7 => catch(|| mul::multiplier_impl(mul::MultiplierParams { n: 0, m: n as usize })),
        8 => catch(|| cmp::compare_or_maybe_equal(0, s & 1 == 0, s & 2 == 0)),
        9 => catch(|| cmp::compare_or_maybe_equal_signed(0, s & 1 == 0, s & 2 == 0)),
        _ => catch(|| mul::gradeschool_reduce_impl(mul::MultiplierParams { n: n as usize, m: n as usize + 1 + (s % 9) as usize })),
    };
    ensure!(r.is_err(), "accepted", "invalid parameters {k:?} built a circuit");
    cov.label(format!("{what}"));
    cov.nontrivial();
    cov.comparisons(1);
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "X01",
        assumptions: vec![
            "multiplier parameters whose circuits are too big to generate are covered by the stored tables (8x8, 16x16) and by R-level multiplication".into(),
            "the 32x32 table is absent from this checkout (git LFS pointer missing) and not an input".into(),
            "bitshift circuits are explored up to 128 bits".into(),
        ],
        subs: vec![
            sub("adder", 600, 8000, "both operands wider than a bit", case((width(127), width(127), any::<bool>())).prop_map(|mut c| { if c.p.0 > 126 || c.p.1 > 126 { c.p.0 = c.p.0.min(126); c.p.1 = c.p.1.min(126); } c }), adder),
            sub("adder-equal", 400, 4000, "operands wider than a bit", case((width(126), any::<bool>())).prop_map(|c| Case { p: (c.p.0, c.p.0, c.p.1), lanes: c.lanes }), adder),
            sub("subtractor", 600, 8000, "wider than a bit", case((width(126), any::<bool>())), subtractor),
            sub("bitwise-neg", 600, 8000, "wider than a bit", case((width(127), 0..3u8)), unary),
            sub("comparison", 1500, 20000, "wider than a bit and both answers among the lanes", case((width(127), 0..4u8, any::<bool>(), any::<bool>())), comparison),
            sub("shift", 1500, 15000, "wider than a bit and a nonzero value really shifted", case((0..5u8, prop_oneof![3 => 1..=8u16, 2 => 9..=34u16, 1 => 35..=128u16], 0..5u16)), shift),
            sub("multiplier", 600, 8000, "both operands wider than a bit", case((1..=8usize, 1..=8usize, any::<bool>())), multiply),
            sub("multiplier-stored", 60, 2000, "always", case((prop::sample::select(vec![8usize, 16]), Just(0usize), Just(false))).prop_map(|c| Case { p: (c.p.0, c.p.0, false), lanes: c.lanes }), multiply),
            sub("reduction", 500, 6000, "the upper halves are not empty", case((prop_oneof![1 => 1..=16usize, 4 => 17..=40usize], prop_oneof![1 => 1..=16usize, 4 => 17..=40usize], any::<bool>())), gradeschool),
            sub("reduction-stored", 60, 2000, "always", case((Just(64usize), Just(64usize), Just(false))), gradeschool),
            sub("stored-tables", 20, 400, "always", (0..3u8, any::<u64>()), stored).shrink(0),
            sub("utils", 20000, 400000, "width and bit count above 1",
                (word(), word(), any::<bool>(), prop_oneof![3 => 1..=128u32, 1 => Just(128)], (word(), 0..=64u32), prop_oneof![3 => 0..=64usize, 1 => 64..=70usize], 0..400usize)
                    .prop_map(|(a, b, bin, w, (v, k), bits, n)| Util { a, b, bin, w, v: small(mask(k as usize), v), bits, n }), utils),
            sub("refused", 200, 2000, "always", (0..11u8, 2..=12u16, any::<u16>()), refused),
        ],
    }
}
