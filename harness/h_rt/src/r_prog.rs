//! R01: programs over the integer API against plaintext integers.
use std::result::Result;
use crate::{common::*, sym, sym::Sv};
use parasol_runtime::{fluent::*, *};
use petgraph::stable_graph::NodeIndex;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum T {
    L0,
    L1,
    Glwe,
    Ggsw,
    Glev,
}
impl T {
    pub fn ct(self) -> CiphertextType {
        match self {
            T::L0 => CiphertextType::L0LweCiphertext,
            T::L1 => CiphertextType::L1LweCiphertext,
            T::Glwe => CiphertextType::L1GlweCiphertext,
            T::Ggsw => CiphertextType::L1GgswCiphertext,
            T::Glev => CiphertextType::L1GlevCiphertext,
        }
    }
}
fn any_t() -> BoxedStrategy<T> {
    prop::sample::select(vec![T::L0, T::L1, T::Glwe, T::Ggsw, T::Glev]).boxed()
}

/// How an input is encrypted.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
enum Route {
    Secret,
    Public,
    Trivial,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Input { t: T, w: usize, v: u64, route: Route },
    Packed { w: usize, v: u64, trivial: bool },
    Convert { a: u16, t: T },
    Bin { op: u8, a: u16, b: u16, glev: bool },
    Cmp { op: u8, a: u16, b: u16, glev: bool },
    Select { c: u16, a: u16, b: u16 },
    Resize { a: u16, w: usize },
    Pack { a: u16 },
    Const { t: T, one: bool },
    BitConvert { a: u16, t: T },
    Output { a: u16 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Prog {
    signed: bool,
    steps: Vec<Step>,
}

pub trait Sg: Sign + 'static {
    const SIGNED: bool;
    fn pt(b: &[bool]) -> Self::PlaintextType;
}
impl Sg for Unsigned {
    const SIGNED: bool = false;
    fn pt(b: &[bool]) -> u128 {
        unsigned(b)
    }
}
impl Sg for Signed {
    const SIGNED: bool = true;
    fn pt(b: &[bool]) -> i128 {
        signed(b)
    }
}

enum Val<'a, U: Sign> {
    L0(DynamicGenericIntGraphNodes<'a, L0LweCiphertext, U>),
    L1(DynamicGenericIntGraphNodes<'a, L1LweCiphertext, U>),
    Glwe(DynamicGenericIntGraphNodes<'a, L1GlweCiphertext, U>),
    Ggsw(DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, U>),
    Glev(DynamicGenericIntGraphNodes<'a, L1GlevCiphertext, U>),
}
#[derive(Clone, Copy)]
enum BitVal {
    L0(BitNode<L0LweCiphertext>),
    L1(BitNode<L1LweCiphertext>),
    Glwe(BitNode<L1GlweCiphertext>),
    Ggsw(BitNode<L1GgswCiphertext>),
    Glev(BitNode<L1GlevCiphertext>),
}
/// run `$b` with `$x` bound to the typed value
macro_rules! each {
    ($e:expr, $k:ident, $x:ident => $b:expr) => {
        match $e {
            $k::L0($x) => $b,
            $k::L1($x) => $b,
            $k::Glwe($x) => $b,
            $k::Ggsw($x) => $b,
            $k::Glev($x) => $b,
        }
    };
}
/// construct the variant for a dynamic type, `$c!(Type)` giving the payload
macro_rules! with_type {
    ($t:expr, $k:ident, $c:ident) => {
        match $t {
            T::L0 => $k::L0($c!(L0LweCiphertext)),
            T::L1 => $k::L1($c!(L1LweCiphertext)),
            T::Glwe => $k::Glwe($c!(L1GlweCiphertext)),
            T::Ggsw => $k::Ggsw($c!(L1GgswCiphertext)),
            T::Glev => $k::Glev($c!(L1GlevCiphertext)),
        }
    };
}
impl<U: Sign> Val<'_, U> {
    fn t(&self) -> T {
        match self {
            Val::L0(_) => T::L0,
            Val::L1(_) => T::L1,
            Val::Glwe(_) => T::Glwe,
            Val::Ggsw(_) => T::Ggsw,
            Val::Glev(_) => T::Glev,
        }
    }
    fn nodes(&self) -> Vec<NodeIndex> {
        each!(self, Val, x => x.bits.iter().map(|b| b.node).collect())
    }
}
impl BitVal {
    fn t(&self) -> T {
        match self {
            BitVal::L0(_) => T::L0,
            BitVal::L1(_) => T::L1,
            BitVal::Glwe(_) => T::Glwe,
            BitVal::Ggsw(_) => T::Ggsw,
            BitVal::Glev(_) => T::Glev,
        }
    }
    fn node(&self) -> NodeIndex {
        each!(self, BitVal, x => x.node)
    }
}

/// bits of an integer in 64 lanes
type Lanes = Vec<u64>;
pub fn lane(l: &[u64], k: usize) -> Bits {
    l.iter().map(|x| x >> k & 1 == 1).collect()
}
pub fn from_lanes(f: impl Fn(usize) -> Bits, w: usize) -> Lanes {
    let mut r = vec![0u64; w];
    for k in 0..64 {
        for (i, b) in f(k).into_iter().enumerate() {
            r[i] |= (b as u64) << k;
        }
    }
    r
}
/// `w` bits in 64 lanes, with edge values in the first lanes; lane 0 is the low bits of `v`
pub fn spread(v: u64, w: usize) -> Lanes {
    let mut s = v ^ 0x9E37_79B9_7F4A_7C15;
    let mut next = || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s.wrapping_mul(0x2545_F491_4F6C_DD1D)
    };
    let vals: Vec<u128> = (0..64)
        .map(|k| {
            let r = (next() as u128) << 64 | next() as u128;
            match k {
                0 => v as u128,
                1 => 0,
                2 => u128::MAX,
                3 => 1u128.checked_shl(w as u32 - 1).unwrap_or(0),
                4 => (1u128 << (w - 1).min(127)).wrapping_sub(1),
                5 => 1,
                k if k < 24 => r >> (next() % 128),
                k if k < 32 => (r >> (next() % 128)).wrapping_neg(),
                _ => r,
            }
        })
        .collect();
    from_lanes(|k| to_bits(vals[k], w), w)
}
fn map2(a: &Lanes, b: &Lanes, w: usize, f: impl Fn(&[bool], &[bool]) -> u128) -> Lanes {
    from_lanes(|k| to_bits(f(&lane(a, k), &lane(b, k)), w), w)
}
fn bit2(a: &Lanes, b: &Lanes, f: impl Fn(&[bool], &[bool]) -> bool) -> u64 {
    (0..64).fold(0, |s, k| s | (f(&lane(a, k), &lane(b, k)) as u64) << k)
}

/// An integer's value; models are compared as mathematical integers.
fn value(s: bool, b: &[bool]) -> i128 {
    if s {
        signed(b)
    } else {
        unsigned(b) as i128
    }
}

enum Out<U: Sign> {
    Int(Box<dyn Fn(&Ctx) -> U::PlaintextType>, Lanes),
    Bit(Box<dyn Fn(&Ctx) -> bool>, u64),
}

/// An L0 ciphertext is as noisy as its source; a GGSW made by scheme switching carries the noise of
/// its GLEV. Counts scheme switches since the last bootstrap or encryption.
type Hops = u32;
const MAX_HOPS: Hops = 1;

struct Built {
    /// every value handle ever obtained
    ints: Vec<(Vec<NodeIndex>, T, Lanes, usize)>,
    bits: Vec<(NodeIndex, T, u64, usize)>,
    cells: HashMap<usize, Sv>,
    packed_out: Vec<(usize, Lanes, usize)>,
    width_max: usize,
    ops: usize,
    muls: usize,
    unequal: bool,
}

pub fn plain_enc() -> &'static Encryption {
    static E: OnceLock<Encryption> = OnceLock::new();
    E.get_or_init(|| Encryption::new(&small(1)))
}

macro_rules! sized_select {
    ($n:expr, $u:ident, $c:expr, $a:expr, $b:expr, $ctx:expr, [$($k:literal)*]) => {
        match $n {
            $($k => {
                let a = GenericIntGraphNodes::<$k, L1GlweCiphertext, $u>::from($a.convert::<L1GlweCiphertext>($ctx));
                let b = GenericIntGraphNodes::<$k, L1GlweCiphertext, $u>::from($b.convert::<L1GlweCiphertext>($ctx));
                let r: DynamicGenericIntGraphNodes<L1GlweCiphertext, $u> = $c.select(&a, &b, $ctx).into();
                Some(r)
            })*
            _ => None,
        }
    };
}

fn build<'a, U: Sg>(p: &Prog, ctx: &'a FheCircuitCtx, real: Option<&Ctx>, outs: &mut Vec<Out<U>>) -> Result<Built, Fail> {
    let enc = real.map(|c| &c.enc).unwrap_or_else(|| plain_enc());
    let mut ints: Vec<(Val<'a, U>, Lanes, Hops, usize)> = vec![];
    let mut bits: Vec<(BitVal, u64, Hops, usize)> = vec![];
    let mut cells: HashMap<usize, Sv> = HashMap::new();
    let mut packed_out = vec![];
    let (mut width_max, mut ops, mut muls, mut unequal) = (0, 0, 0, false);
    for (si, s) in p.steps.iter().enumerate() {
        // pick among the values satisfying `ok`
        let pick = |ints: &[(Val<'a, U>, Lanes, Hops, usize)], i: u16, ok: &dyn Fn(&(Val<'a, U>, Lanes, Hops, usize)) -> bool| {
            let c: Vec<usize> = (0..ints.len()).filter(|&k| ok(&ints[k])).collect();
            if c.is_empty() { None } else { Some(c[i as usize % c.len()]) }
        };
        match s {
            Step::Input { t, w, v, route } => {
                let l = spread(*v, *w);
                macro_rules! inp {
                    ($ty:ty) => {{
                        let b = lane(&l, 0);
                        let int = match real {
                            None => DynamicGenericInt::<$ty, U>::new(enc, *w),
                            Some(c) if *route == Route::Trivial => DynamicGenericInt::trivial(U::pt(&b), enc, &c.eval, *w),
                            Some(c) => DynamicGenericInt::encrypt_secret(U::pt(&b), enc, &c.sk, *w),
                        };
                        for (bit, l) in int.bits.iter().zip(&l) {
                            cells.insert(std::sync::Arc::as_ptr(bit) as usize, Sv::of(t.ct(), *l));
                        }
                        int.graph_inputs(ctx)
                    }};
                }
                let val = if let (Some(c), T::Glwe, Route::Public) = (real, t, route) {
                    let int = DynamicGenericInt::<L1GlweCiphertext, U>::encrypt(U::pt(&lane(&l, 0)), enc, c.pk(), *w);
                    for (bit, l) in int.bits.iter().zip(&l) {
                        cells.insert(std::sync::Arc::as_ptr(bit) as usize, Sv::of(t.ct(), *l));
                    }
                    Val::Glwe(int.graph_inputs(ctx))
                } else {
                    with_type!(t, Val, inp)
                };
                ints.push((val, l, 0, si));
                width_max = width_max.max(*w);
            }
            Step::Packed { w, v, trivial } => {
                let l = spread(*v, *w);
                let b = lane(&l, 0);
                let int: PackedDynamicGenericInt<L1GlweCiphertext, U> = match real {
                    None => (*w as u32, enc.allocate_glwe_l1()).into(),
                    Some(_) if *trivial => PackedDynamicGenericInt::trivial_encrypt(U::pt(&b), enc, *w),
                    Some(c) => PackedDynamicGenericInt::encrypt(U::pt(&b), enc, c.pk(), *w),
                };
                let before: HashSet<usize> = ctx.circuit.borrow().node_weights().filter_map(sym::cell).collect();
                let node = int.graph_input(ctx);
                for op in ctx.circuit.borrow().node_weights() {
                    if let Some(x) = sym::cell(op).filter(|x| !before.contains(x)) {
                        cells.insert(x, Sv::Glwe(l.iter().copied().enumerate().filter(|x| x.1 != 0).collect()));
                    }
                }
                ints.push((Val::L1(node.unpack(ctx)), l, 0, si));
                width_max = width_max.max(*w);
            }
            Step::Convert { a, t } => {
                let Some(i) = pick(&ints, *a, &|x| x.2 < MAX_HOPS || x.0.t() != T::Glev || *t == T::Glev) else { continue };
                let (v, l, h, _) = &ints[i];
                macro_rules! conv {
                    ($ty:ty) => {
                        each!(v, Val, x => x.convert::<$ty>(ctx))
                    };
                }
                let h = hops(v.t(), *t, *h);
                let r = (with_type!(t, Val, conv), l.clone(), h, si);
                ints.push(r);
            }
            Step::Bin { op, a, b, glev } => {
                let wmax = 8;
                let mul = *op == 3;
                let fits = |w: usize| !mul || w <= wmax || (real.is_none() && [16, 17, 18, 32].contains(&w));
                let Some(i) = pick(&ints, *a, &|x| x.0.t() == T::Ggsw && fits(x.1.len())) else { continue };
                let w = ints[i].1.len();
                let Some(j) = pick(&ints, *b, &|x| x.0.t() == T::Ggsw && x.1.len() == w) else { continue };
                let (Val::Ggsw(x), Val::Ggsw(y)) = (&ints[i].0, &ints[j].0) else { unreachable!() };
                if mul && w > 8 && muls > 1 {
                    continue;
                }
                let glev = glev_ok(*glev, real, ints[i].2.max(ints[j].2));
                macro_rules! run {
                    ($f:ident) => {
                        if glev {
                            Val::Glev(x.$f::<L1GlevCiphertext>(y, ctx))
                        } else {
                            Val::Glwe(x.$f::<L1GlweCiphertext>(y, ctx))
                        }
                    };
                }
                let (la, lb) = (&ints[i].1, &ints[j].1);
                let (r, l) = match op {
                    0 => (run!(add), map2(la, lb, w, |a, b| unsigned(a).wrapping_add(unsigned(b)))),
                    1 => (run!(sub), map2(la, lb, w, |a, b| unsigned(a).wrapping_sub(unsigned(b)))),
                    2 => (run!(and), map2(la, lb, w, |a, b| unsigned(a) & unsigned(b))),
                    _ => (run!(mul), map2(la, lb, w, |a, b| unsigned(a).wrapping_mul(unsigned(b)))),
                };
                let h = ints[i].2.max(ints[j].2);
                muls += mul as usize;
                ops += 1;
                ints.push((r, l, h, si));
            }
            Step::Cmp { op, a, b, glev } => {
                let Some(i) = pick(&ints, *a, &|x| x.0.t() == T::Ggsw) else { continue };
                let j = pick(&ints, *b, &|x| x.0.t() == T::Ggsw).unwrap();
                let (Val::Ggsw(x), Val::Ggsw(y)) = (&ints[i].0, &ints[j].0) else { unreachable!() };
                let glev = glev_ok(*glev, real, ints[i].2.max(ints[j].2));
                macro_rules! run {
                    ($f:ident) => {
                        if glev {
                            BitVal::Glev(x.$f::<L1GlevCiphertext>(y, ctx))
                        } else {
                            BitVal::Glwe(x.$f::<L1GlweCiphertext>(y, ctx))
                        }
                    };
                }
                let (la, lb) = (&ints[i].1, &ints[j].1);
                let c = |f: fn(i128, i128) -> bool| bit2(la, lb, move |a, b| f(value(U::SIGNED, a), value(U::SIGNED, b)));
                let (r, l) = match op {
                    0 => (run!(eq), c(|a, b| a == b)),
                    1 => (run!(neq), c(|a, b| a != b)),
                    2 => (run!(gt), c(|a, b| a > b)),
                    3 => (run!(ge), c(|a, b| a >= b)),
                    4 => (run!(lt), c(|a, b| a < b)),
                    _ => (run!(le), c(|a, b| a <= b)),
                };
                unequal |= la.len() != lb.len();
                ops += 1;
                bits.push((r, l, ints[i].2.max(ints[j].2), si));
            }
            Step::Select { c, a, b } => {
                let cs: Vec<usize> = (0..bits.len()).filter(|&k| bits[k].0.t() == T::Ggsw).collect();
                if cs.is_empty() {
                    continue;
                }
                let c = cs[*c as usize % cs.len()];
                let Some(i) = pick(&ints, *a, &|x| x.0.t() == T::Glwe) else { continue };
                let w = ints[i].1.len();
                let j = pick(&ints, *b, &|x| x.0.t() == T::Glwe && x.1.len() == w).unwrap();
                let (BitVal::Ggsw(s), Val::Glwe(x), Val::Glwe(y)) = (&bits[c].0, &ints[i].0, &ints[j].0) else { unreachable!() };
                let Some(r) = sized_select!(w, U, s, x, y, ctx, [1 2 3 4 5 6 7 8 9 10 11 12 16 17 24 32 33 48 64 65 100 127]) else { continue };
                let m = bits[c].1;
                let l = ints[i].1.iter().zip(&ints[j].1).map(|(x, y)| (x & m) | (y & !m)).collect();
                let h = bits[c].2.max(ints[i].2).max(ints[j].2);
                ops += 1;
                ints.push((Val::Glwe(r), l, h, si));
            }
            Step::Resize { a, w } => {
                // there is no trivial level-1 LWE constant to extend with
                let Some(i) = pick(&ints, *a, &|x| U::SIGNED || x.0.t() != T::L1) else { continue };
                let (v, l, h, _) = &ints[i];
                let mut l = l.clone();
                if U::SIGNED && *w < l.len() {
                    // shrinking keeps the sign bit and the low bits: the value if it fits
                    let s = *l.last().unwrap();
                    l.truncate(w - 1);
                    l.push(s);
                } else {
                    let fill = if U::SIGNED { *l.last().unwrap() } else { 0 };
                    l.resize(*w, fill);
                }
                macro_rules! rs {
                    ($k:ident, $x:ident) => {
                        Val::$k($x.resize(ctx, *w))
                    };
                }
                let r = match v {
                    Val::L0(x) => rs!(L0, x),
                    Val::L1(x) => rs!(L1, x),
                    Val::Glwe(x) => rs!(Glwe, x),
                    Val::Ggsw(x) => rs!(Ggsw, x),
                    Val::Glev(x) => rs!(Glev, x),
                };
                let r = (r, l, *h, si);
                ops += 1;
                ints.push(r);
            }
            Step::Pack { a } => {
                let Some(i) = pick(&ints, *a, &|x| x.0.t() == T::Glwe) else { continue };
                let Val::Glwe(x) = &ints[i].0 else { unreachable!() };
                let packed = x.pack(ctx, enc);
                let before: HashSet<usize> = ctx.circuit.borrow().node_weights().filter_map(sym::cell).collect();
                let o = packed.collect_output(ctx, enc);
                for op in ctx.circuit.borrow().node_weights() {
                    if let Some(x) = sym::cell(op).filter(|x| !before.contains(x)) {
                        packed_out.push((x, ints[i].1.clone(), si));
                    }
                }
                outs.push(Out::Int(Box::new(move |c| o.decrypt(&c.enc, &c.sk)), ints[i].1.clone()));
                let r = (Val::L1(packed.unpack(ctx)), ints[i].1.clone(), ints[i].2, si);
                ops += 1;
                ints.push(r);
            }
            Step::Const { t, one } => {
                if *t == T::L1 {
                    continue;
                }
                macro_rules! k {
                    ($ty:ty) => {
                        if *one { BitNode::<$ty>::one(ctx) } else { BitNode::<$ty>::zero(ctx) }
                    };
                }
                bits.push((with_type!(t, BitVal, k), if *one { !0 } else { 0 }, 0, si));
            }
            Step::BitConvert { a, t } => {
                // also the single bits of an integer
                let n = bits.len() + ints.iter().map(|x| x.1.len()).sum::<usize>();
                if n == 0 {
                    continue;
                }
                let mut k = *a as usize % n;
                let (b, l, h) = if k < bits.len() {
                    (bits[k].0, bits[k].1, bits[k].2)
                } else {
                    k -= bits.len();
                    let mut i = 0;
                    while k >= ints[i].1.len() {
                        k -= ints[i].1.len();
                        i += 1;
                    }
                    let b = match &ints[i].0 {
                        Val::L0(x) => BitVal::L0(x.bits[k]),
                        Val::L1(x) => BitVal::L1(x.bits[k]),
                        Val::Glwe(x) => BitVal::Glwe(x.bits[k]),
                        Val::Ggsw(x) => BitVal::Ggsw(x.bits[k]),
                        Val::Glev(x) => BitVal::Glev(x.bits[k]),
                    };
                    (b, ints[i].1[k], ints[i].2)
                };
                if h >= MAX_HOPS && b.t() == T::Glev && *t != T::Glev {
                    continue;
                }
                macro_rules! conv {
                    ($ty:ty) => {
                        each!(b, BitVal, x => x.convert::<$ty>(ctx))
                    };
                }
                bits.push((with_type!(t, BitVal, conv), l, hops(b.t(), *t, h), si));
            }
            Step::Output { a } => {
                if ints.len() + bits.len() == 0 {
                    continue;
                }
                output(&ints, &bits, *a as usize % (ints.len() + bits.len()), ctx, enc, outs);
            }
        }
    }
    // everything is also read at the end: a handle keeps its meaning whatever was built later
    for i in 0..ints.len() + bits.len() {
        output(&ints, &bits, i, ctx, enc, outs);
    }
    Ok(Built {
        ints: ints.iter().map(|x| (x.0.nodes(), x.0.t(), x.1.clone(), x.3)).collect(),
        bits: bits.iter().map(|x| (x.0.node(), x.0.t(), x.1, x.3)).collect(),
        cells,
        packed_out,
        width_max,
        ops,
        muls,
        unequal,
    })
}

/// A GLEV is decrypted at 2^-radix_log rather than 1/4 and keeps the noise a scheme switch amplifies.
/// Under encryption, selectors that came out of a scheme switch therefore only produce GLWEs, and at
/// the 128-bit parameters, whose scheme switching is experimental, GLEVs are only inputs.
fn glev_ok(want: bool, real: Option<&Ctx>, h: Hops) -> bool {
    want && real.map_or(true, |c| h == 0 && c.params.l1_poly_degree().0 < 2048)
}

fn hops(from: T, to: T, h: Hops) -> Hops {
    if from == to {
        return h;
    }
    match (from, to) {
        // bootstraps on the way
        (T::L0, _) | (T::L1, T::Ggsw | T::Glev | T::Glwe) | (T::Glwe, T::Ggsw | T::Glev) => 0,
        (T::Glev, _) => h + 1,
        _ => h,
    }
}

fn output<U: Sg>(ints: &[(Val<U>, Lanes, Hops, usize)], bits: &[(BitVal, u64, Hops, usize)], k: usize, ctx: &FheCircuitCtx, enc: &Encryption, outs: &mut Vec<Out<U>>) {
    if k < ints.len() {
        let (v, l, _, _) = &ints[k];
        each!(v, Val, x => {
            let o = x.collect_outputs(ctx, enc);
            outs.push(Out::Int(Box::new(move |c| o.decrypt(&c.enc, &c.sk)), l.clone()));
        });
    } else {
        let (b, l, _, _) = &bits[k - ints.len()];
        each!(b, BitVal, x => {
            let o = x.collect_output(ctx, enc);
            outs.push(Out::Bit(Box::new(move |c| o.decrypt(&c.enc, &c.sk)), *l));
        });
    }
}

fn step_name(p: &Prog, i: usize) -> String {
    let s = format!("{:?}", p.steps[i]);
    let op = |names: &[&str], o: u8| names[(o as usize).min(names.len() - 1)].to_string();
    match &p.steps[i] {
        Step::Bin { op: o, .. } => op(&["add", "sub", "and", "mul"], *o),
        Step::Cmp { op: o, .. } => op(&["eq", "neq", "gt", "ge", "lt", "le"], *o),
        _ => s.split([' ', '{']).next().unwrap().to_lowercase(),
    }
}

/// Judge the graph itself in 64 lanes of plaintext.
fn judge_graph<U: Sg>(p: &Prog, b: &Built, ctx: &FheCircuitCtx, n: usize, cov: &Cover) -> Res {
    let g = ctx.circuit.borrow();
    let v = match sym::eval(&g, &b.cells, n) {
        Ok(v) => v,
        Err(e) => return fail("ill-formed-graph", e),
    };
    for (nodes, t, want, si) in &b.ints {
        let got: Vec<Option<&Sv>> = nodes.iter().map(|x| v.node.get(x)).collect();
        let want: Vec<Sv> = want.iter().map(|x| Sv::of(t.ct(), *x)).collect();
        for (i, (g, w)) in got.iter().zip(&want).enumerate() {
            ensure!(*g == Some(w), format!("wrong-value:{}", step_name(p, *si)), "step {si}: bit {i} of {} is {g:?}, the program says {w:?}", want.len());
        }
        ensure!(got.len() == want.len(), "wrong-width", "step {si} {:?}: {} bits, want {}", p.steps[*si], got.len(), want.len());
        cov.comparisons(64 * got.len() as u64);
    }
    for (node, t, want, si) in &b.bits {
        let w = Sv::of(t.ct(), *want);
        let g = v.node.get(node);
        ensure!(g == Some(&w), format!("wrong-value:{}", step_name(p, *si)), "step {si}: bit is {g:?}, the program says {w:?}");
        cov.comparisons(64);
    }
    for (cell, want, si) in &b.packed_out {
        let w = Sv::Glwe(want.iter().copied().enumerate().filter(|x| x.1 != 0).collect());
        let g = v.out.get(cell);
        ensure!(g == Some(&w), "wrong-value:packed", "step {si}: packed integer holds {g:?}, want {w:?}");
    }
    Ok(())
}

fn coverage(b: &Built, p: &Prog, cov: &Cover) {
    cov.label(if p.signed { "signed" } else { "unsigned" });
    cov.label_if(b.muls > 0, "multiplies");
    cov.label_if(b.unequal, "compares unequal widths");
    cov.label_if(b.width_max > 16, "wider than 16");
    cov.nontrivial_if(b.ops >= 2);
}

fn symbolic_as<U: Sg>(p: &Prog, cov: &Cover) -> Res {
    let ctx = FheCircuitCtx::new();
    let mut outs: Vec<Out<U>> = vec![];
    let b = match catch(|| build::<U>(p, &ctx, None, &mut outs)) {
        Ok(b) => b?,
        Err(e) => return fail("panic-while-building", e),
    };
    coverage(&b, p, cov);
    judge_graph::<U>(p, &b, &ctx, 128, cov)
}
fn symbolic(p: &Prog, cov: &Cover) -> Res {
    if p.signed {
        symbolic_as::<Signed>(p, cov)
    } else {
        symbolic_as::<Unsigned>(p, cov)
    }
}

fn encrypted_as<U: Sg>(p: &Prog, c: &'static Ctx, cov: &Cover) -> Res
where
    U::PlaintextType: PartialEq + std::fmt::Debug,
{
    let ctx = FheCircuitCtx::new();
    let mut outs: Vec<Out<U>> = vec![];
    let b = match catch(|| build::<U>(p, &ctx, Some(c), &mut outs)) {
        Ok(b) => b?,
        Err(e) => return fail("panic-while-building", e),
    };
    coverage(&b, p, cov);
    judge_graph::<U>(p, &b, &ctx, c.params.l1_poly_degree().0, cov)?;
    let (mut proc, fc) = CircuitProcessor::new(256, None, &c.eval, &c.enc);
    let r = proc.run_graph_blocking(&ctx.circuit.borrow(), &fc);
    ensure!(r.is_ok(), "run-error", "{r:?}");
    for o in &outs {
        match o {
            Out::Int(f, l) => ensure_eq!(f(c), U::pt(&lane(l, 0)), "wrong-decryption"),
            Out::Bit(f, l) => ensure_eq!(f(c), *l & 1 == 1, "wrong-decryption"),
        }
        cov.comparisons(1);
    }
    Ok(())
}
fn encrypted(p: &Prog, k: usize, cov: &Cover) -> Res {
    if p.signed {
        encrypted_as::<Signed>(p, ctx(k), cov)
    } else {
        encrypted_as::<Unsigned>(p, ctx(k), cov)
    }
}

fn route() -> BoxedStrategy<Route> {
    prop::sample::select(vec![Route::Secret, Route::Public, Route::Trivial]).boxed()
}

/// Programs whose widths come from `widths`; a few starting integers in ready-to-use form, then a
/// mix of every operation. Three widths per program, so that operands often match.
fn programs(widths: BoxedStrategy<usize>, len: std::ops::Range<usize>) -> BoxedStrategy<Prog> {
    (prop::collection::vec(widths, 3), any::<bool>(), len)
        .prop_flat_map(|(ws, signed, n)| {
            let w = prop::sample::select(ws);
            let start = prop::collection::vec(
                prop_oneof![
                    6 => (prop_oneof![4 => Just(T::Ggsw), 1 => any_t()], w.clone(), any::<u64>(), route()).prop_map(|(t, w, v, route)| Step::Input { t, w, v, route }),
                    1 => (w.clone(), any::<u64>(), any::<bool>()).prop_map(|(w, v, trivial)| Step::Packed { w, v, trivial }),
                ],
                2..5,
            );
            let step = prop_oneof![
                2 => (any_t(), w.clone(), any::<u64>(), route()).prop_map(|(t, w, v, route)| Step::Input { t, w, v, route }),
                1 => (w.clone(), any::<u64>(), any::<bool>()).prop_map(|(w, v, trivial)| Step::Packed { w, v, trivial }),
                4 => (any::<u16>(), prop_oneof![2 => Just(T::Ggsw), 1 => Just(T::Glwe), 1 => any_t()]).prop_map(|(a, t)| Step::Convert { a, t }),
                6 => (0u8..4, any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(op, a, b, glev)| Step::Bin { op, a, b, glev }),
                4 => (0u8..6, any::<u16>(), any::<u16>(), any::<bool>()).prop_map(|(op, a, b, glev)| Step::Cmp { op, a, b, glev }),
                3 => (any::<u16>(), any::<u16>(), any::<u16>()).prop_map(|(c, a, b)| Step::Select { c, a, b }),
                2 => (any::<u16>(), w.clone()).prop_map(|(a, w)| Step::Resize { a, w }),
                1 => any::<u16>().prop_map(|a| Step::Pack { a }),
                1 => (any_t(), any::<bool>()).prop_map(|(t, one)| Step::Const { t, one }),
                2 => (any::<u16>(), prop_oneof![2 => Just(T::Ggsw), 1 => any_t()]).prop_map(|(a, t)| Step::BitConvert { a, t }),
                1 => any::<u16>().prop_map(|a| Step::Output { a }),
            ];
            (start, prop::collection::vec(step, n), Just(signed))
        })
        .prop_map(|(mut a, b, signed)| {
            a.extend(b);
            Prog { signed, steps: a }
        })
        .boxed()
}

pub fn check() -> Check {
    let wide = prop_oneof![3 => 1usize..=12, 2 => prop::sample::select(vec![16usize, 17, 18, 24, 32, 33, 48, 64, 65, 100, 127])].boxed();
    let narrow = prop_oneof![4 => 1usize..=5, 1 => 6usize..=8].boxed();
    let mut check = Check {
        id: "R01",
        assumptions: vec![
            "the graph's meaning is judged on plaintext in 64 lanes per program; encrypted runs use small parameters whose worst-case error cannot flip a bit, and a few use the 128-bit parameters".into(),
            "arithmetic operands of equal width (the API pairs bits one to one); comparisons of any widths; shrinking a signed integer keeps its sign bit and low bits".into(),
            "no level-1 LWE constants (unimplemented, so nothing of that kind is zero-extended); at most one scheme switch between bootstraps; under encryption GLEV outputs only from selectors that were not scheme switched, and none at the 128-bit parameters".into(),
            "multiplication widths up to 8, 16 to 18 and 32 in programs (larger single blocks without a stored table are slow to generate); see \"multiply\" for others".into(),
        ],
        subs: vec![
            sub("programs", 1000, 60000, "two or more operations", programs(wide, 3..14), symbolic),
            sub("programs-encrypted", 800, 40000, "two or more operations", programs(narrow.clone(), 3..12), |p, c| encrypted(p, 0, c)).serial(),
            sub("programs-default-params", 2, 150, "two or more operations", programs(narrow, 3..8), |p, c| encrypted(p, 3, c)).serial().shrink(20),
        ],
    };
    check.subs.extend(crate::r_circ::subs());
    check
}
