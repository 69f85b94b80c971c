//! U08: the repository's compiled programs compute their C source, for every input and every mix
//! of encrypted and plaintext inputs; packing keeps integers' values.
use crate::ctx::*;
use crate::rig::*;
use parasol_cpu::{ArgsBuilder, Byte, Error, Memory, Ptr32, ToArg};
use parasol_runtime::fluent::{DynamicGenericInt, DynamicInt, DynamicUInt, Int, PackedDynamicGenericInt, PackedGenericInt, UInt};
use parasol_runtime::L1GlweCiphertext;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::result::Result;
use std::sync::Arc;
use vkit::proptest;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    prog: u8,
    vals: Vec<u128>,
    /// which scalars are encrypted; 0 and all ones are frequent
    enc: u64,
    len: u8,
    threads: u8,
    /// how many calls in a row, on the same memory and processor
    calls: u8,
}

/// `(bytes, value)`
type S = (usize, u128);
enum A {
    /// a scalar that may be encrypted
    V(usize, u128),
    /// a scalar the program branches on
    P(usize, u128),
    /// a pointer to scalars of one width, which may be encrypted each; and what is there afterwards
    Arr(usize, Vec<u128>, Vec<u128>),
}
struct Spec {
    file: &'static str,
    func: &'static str,
    args: Vec<A>,
    /// size, alignment, fields
    ret: (usize, usize, Vec<(usize, S)>),
}

fn m(v: u128, bytes: usize) -> u128 {
    if bytes == 16 {
        v
    } else {
        v & ((1 << (8 * bytes)) - 1)
    }
}
fn sx(v: u128, bytes: usize) -> i128 {
    let s = 128 - 8 * bytes as u32;
    ((v << s) as i128) >> s
}

/// The C sources, by hand.
fn spec(c: &Case) -> Spec {
    let v = |i: usize, b: usize| m(c.vals[i % c.vals.len()], b);
    let none = (0, 1, vec![]);
    let one = |b: usize, x: u128| (b, b, vec![(0, (b, m(x, b)))]);
    let s = |file, func, args, ret| Spec { file, func, args, ret };
    match c.prog % 16 {
        0 => s("add", "add", vec![A::V(1, v(0, 1)), A::V(1, v(1, 1))], one(1, v(0, 1) + v(1, 1))),
        1 | 2 | 3 | 4 => {
            // a + b + c is an int sum in C: keep it in range
            let (a, b, cc, d, e) = (v(0, 1), v(1, 2), sx(v(2, 4), 4) / 4, v(3, 8), v(4, 16));
            let cu = m(cc as u128, 4);
            let sum = (sx(a, 1) + sx(b, 2) + cc).wrapping_add(sx(d, 8)).wrapping_add(e as i128) as u128;
            let fwd = || vec![A::V(1, a), A::V(2, b), A::V(4, cu), A::V(8, d), A::V(16, e)];
            let rev = || vec![A::V(16, e), A::V(8, d), A::V(4, cu), A::V(2, b), A::V(1, a)];
            match c.prog % 16 {
                1 => {
                    let mut args = fwd();
                    args.push(A::Arr(8, vec![v(5, 8)], vec![m(sum, 8)]));
                    s("args", "fn1", args, none)
                }
                2 => s("args", "fn2", fwd(), one(4, sum)),
                3 => s("args", "fn3", rev(), one(4, sum)),
                _ => s("args", "fn4", rev(), (32, 16, vec![(0, (1, a)), (2, (2, b)), (4, (4, cu)), (8, (8, d)), (16, (16, e))])),
            }
        }
        5 => {
            let n = 1 + c.len as usize % 5;
            let bids: Vec<u128> = (0..n).map(|i| v(i, 2)).collect();
            let (mut bid, mut idx) = (bids[0], 0);
            for i in 1..n {
                if bids[i] >= bid {
                    (bid, idx) = (bids[i], i as u128);
                }
            }
            s("auction", "auction", vec![A::Arr(2, bids.clone(), bids), A::P(2, n as u128), A::Arr(2, vec![v(6, 2), v(7, 2)], vec![bid, idx])], none)
        }
        6 => {
            let n = 1usize << (c.len % 3);
            let bids: Vec<u128> = (0..n).map(|i| v(i, 2)).collect();
            let before: Vec<u128> = (0..2 * n).map(|i| v(i + 3, 2)).collect();
            let mut sc = before.clone();
            for i in 0..n {
                (sc[2 * i], sc[2 * i + 1]) = (bids[i], i as u128);
            }
            let mut len = n / 2;
            while len > 0 {
                for i in 0..len {
                    let gt = sc[4 * i] > sc[4 * i + 2];
                    (sc[2 * i], sc[2 * i + 1]) = if gt { (sc[4 * i], sc[4 * i + 1]) } else { (sc[4 * i + 2], sc[4 * i + 3]) };
                }
                len /= 2;
            }
            let win = vec![sc[0], sc[1]];
            s("auction", "auction_optimized", vec![A::Arr(2, bids.clone(), bids), A::Arr(2, before, sc), A::P(2, n as u128), A::Arr(2, vec![v(6, 2), v(7, 2)], win)], none)
        }
        7 => {
            let (f, age, hdl, weight, height, act, alc) = (v(0, 1), v(1, 1), v(2, 1), v(3, 1), v(4, 1), v(5, 1), v(6, 1));
            let man = f & 1 == 1;
            let r = [
                man && age > 50,
                !man && age > 60,
                f & 2 != 0,
                f & 4 != 0,
                f & 8 != 0,
                hdl < 40,
                weight > m(height.wrapping_sub(90), 1),
                act < 30,
                man && alc > 3,
                !man && alc > 2,
            ];
            s("cardio", "cardio", [f, age, hdl, weight, height, act, alc].map(|x| A::V(1, x)).into(), one(1, r.iter().filter(|x| **x).count() as u128))
        }
        8 => {
            // int products in C: keep them in range
            let (n0, n1, n2) = (v(0, 2) % 80, v(1, 2) % 80, v(2, 2) % 80);
            let a = m((4 * n0 * n2).wrapping_sub(n1 * n1), 2);
            let (x, y) = (2 * n0 + n1, 2 * n2 + n1);
            let f = [a.wrapping_mul(a), 2 * x * x, x * y, 2 * y * y];
            s("chi_sq", "chi_sq", vec![A::V(2, n0), A::V(2, n1), A::V(2, n2)], (8, 2, f.iter().enumerate().map(|(i, x)| (2 * i, (2, m(*x, 2)))).collect()))
        }
        9 => s("cmux", "cmux", vec![A::V(1, v(0, 1)), A::V(1, v(1, 1)), A::V(1, v(2, 1))], one(1, if v(0, 1) > 10 { v(1, 1) } else { v(2, 1) })),
        10 => {
            let n = c.len as usize % 6;
            let a: Vec<u128> = (0..n).map(|i| v(i, 4)).collect();
            s("for_loop", "for_loop", vec![A::Arr(4, a.clone(), a.clone()), A::P(4, n as u128)], one(4, a.iter().sum()))
        }
        11 => {
            let n = c.len as usize % 3;
            let (a, b): (Vec<u128>, Vec<u128>) = (0..n).map(|i| (v(i, 1), v(i + 4, 1))).unzip();
            let d: u32 = a.iter().zip(&b).map(|(x, y)| (x ^ y).count_ones()).sum();
            s("hamming_distance", "hamming_distance", vec![A::Arr(1, a.clone(), a), A::Arr(1, b.clone(), b), A::P(1, n as u128)], one(1, d as u128))
        }
        12 => {
            let (am, bal) = (v(0, 4), v(1, 4));
            s("payment", "payment", vec![A::V(4, am), A::Arr(4, vec![bal], vec![bal - if am < bal { am } else { 0 }])], none)
        }
        13 => {
            let x = v(0, 2);
            let mut r = x;
            r ^= m(r << 7, 2);
            r ^= r >> 9;
            r ^= m(r << 8, 2);
            s("prng", "xor_shift", vec![A::Arr(2, vec![x], vec![r])], none)
        }
        14 => {
            let (snd, rec, t) = (v(0, 4), v(1, 4), v(2, 4));
            let f = if snd >= t && m(rec + t, 4) >= rec { t } else { 0 };
            s("transfer", "transfer", vec![A::Arr(4, vec![snd], vec![snd - f]), A::Arr(4, vec![rec], vec![m(rec + f, 4)]), A::V(4, t)], none)
        }
        _ if c.len % 2 == 0 => {
            let a: Vec<u128> = (0..8).map(|i| v(i, 1)).collect();
            let b: Vec<u128> = (0..8).map(|i| v(i + 3, 1)).collect();
            let r = (0..8).map(|i| m(a[i] + b[i], 1)).collect();
            s("vector_add", "vector_add", vec![A::Arr(1, a.clone(), a), A::Arr(1, b.clone(), b), A::Arr(1, vec![v(1, 1); 8], r)], none)
        }
        _ => {
            let (a, b) = (v(0, 1), v(1, 4));
            let b8 = m(b, 1);
            // the stored binary compares with the whole signed word, where the source has `char`
            // (a miscompilation the repository's own test relies on)
            let (sa, sb) = (a as i128, sx(b, 4));
            let both = (a > 0 && sb > 0) as u128;
            let cmp = if sa > sb { 14 } else { 9 };
            s(
                "zext_and_trunc",
                "zext_and_trunc",
                vec![
                    A::V(1, a),
                    A::V(4, b),
                    A::Arr(4, vec![v(2, 4)], vec![m(a + b, 4)]),
                    A::Arr(1, vec![v(3, 1)], vec![m(a + b8, 1)]),
                    A::Arr(1, vec![v(4, 1)], vec![both]),
                    A::Arr(4, vec![v(5, 4)], vec![cmp]),
                ],
                none,
            )
        }
    }
}

fn bytes(v: u128, n: usize, enc: bool) -> Vec<Byte> {
    bytes_of(crate::model::V { enc, val: v, w: 8 * n as u32 })
}
fn read(b: &[Byte], what: &str) -> Result<(u128, bool), Fail> {
    let enc = b[0].is_ciphertext();
    let mut v = 0;
    for (i, x) in b.iter().enumerate() {
        ensure!(x.is_ciphertext() == enc, "mixed-result", "{what}");
        v |= (byte_val(x).val as u128) << (8 * i);
    }
    Ok((v, enc))
}

fn elf(file: &str) -> Vec<u8> {
    let p = format!("/repo/parasol_cpu/tests/test_data/{file}");
    std::fs::read(&p).unwrap_or_else(|e| panic!("{p}: {e}"))
}

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let first = spec(c);
    let mem = Arc::new(Memory::new_from_elf(&elf(first.file)).map_err(|e| Fail { sig: "load".into(), msg: format!("{}: {e}", first.file) })?);
    let Some(pc) = mem.get_function_entry(first.func) else { return fail("symbol", first.func.to_string()) };
    let pc = u32::from(pc);
    with_rig(1 + c.threads as usize % 4, |rig| {
        for k in 0..=c.calls % 3 {
            let mut c = c.clone();
            if k > 0 {
                let n = c.vals.len();
                c.vals.rotate_left(k as usize % n);
                c.enc = c.enc.rotate_right(11 * k as u32);
                cov.label("another call on the same memory");
            }
            one(rig, &mem, pc, &c, cov).map_err(|f| Fail { sig: f.sig, msg: format!("call {k} of {}: {}", first.func, f.msg) })?;
        }
        Ok(())
    })
}

fn one(rig: &mut Rig, mem: &Arc<Memory>, pc: u32, c: &Case, cov: &Cover) -> Result<(), Fail> {
    let sp = spec(c);
    let mut bits = c.enc;
    let (mut any, mut all) = (false, true);
    let mut flag = || {
        let e = bits & 1 == 1;
        bits = bits.rotate_right(1);
        any |= e;
        all &= e;
        e
    };
    let mut b = ArgsBuilder::new();
    let mut after: Vec<(u32, usize, &Vec<u128>)> = vec![];
    for a in &sp.args {
        let (n, v) = match a {
            A::V(n, v) => (*n, bytes(*v, *n, flag())),
            A::P(n, v) => (*n, bytes(*v, *n, false)),
            A::Arr(w, vals, res) => {
                let at = u32::from(mem.try_allocate((w * vals.len()).max(1) as u32).unwrap());
                for (i, v) in vals.iter().enumerate() {
                    for (j, x) in bytes(*v, *w, flag()).into_iter().enumerate() {
                        poke(mem, at + (i * w + j) as u32, x).unwrap();
                    }
                }
                after.push((at, *w, res));
                (4, bytes(at as u128, 4, false))
            }
        };
        b = b.arg_dyn(DynRaw { align: n, bytes: v });
    }
    macro_rules! go {
        ($n:literal, $a:literal) => {
            rig.run_on(mem.clone(), pc, b.return_value::<Raw<$n, $a>>(), None).map(|r| r.result.map(|x| x.1 .0))
        };
    }
    let out = match (sp.ret.0, sp.ret.1) {
        (0, _) => rig.run_on(mem.clone(), pc, b.no_return_value(), None).map(|r| r.result.map(|_| vec![])),
        (1, 1) => go!(1, 1),
        (4, 4) => go!(4, 4),
        (8, 2) => go!(8, 2),
        (32, 16) => go!(32, 16),
        x => panic!("no return type {x:?}"),
    }?;
    if sp.func == "auction_optimized" && any && matches!(out, Err(Error::IllegalOperands { .. })) {
        // as compiled, the next bid's address depends on the comparison
        cov.label("secret address refused");
        return Ok(());
    }
    let out = out.map_err(|e| Fail { sig: "run".into(), msg: format!("{e}") })?;
    let check = |b: &[Byte], want: u128, what: String| -> Result<(), Fail> {
        let (v, enc) = read(b, &what)?;
        ensure!(v == want, "wrong-result", "{what}: got {v}, want {want}; encrypted inputs: any {any} all {all}");
        ensure!(any || !enc, "encrypted-from-plain", "{what}");
        Ok(())
    };
    for (off, (n, want)) in &sp.ret.2 {
        check(&out[*off..off + n], *want, format!("return value at {off}"))?;
    }
    for (k, (at, w, res)) in after.iter().enumerate() {
        for (i, want) in res.iter().enumerate() {
            let b: Vec<Byte> = (0..*w).map(|j| peek(mem, at + (i * w + j) as u32).unwrap()).collect();
            check(&b, *want, format!("array {k} element {i}"))?;
        }
    }
    cov.comparisons((sp.ret.2.len() + after.iter().map(|a| a.2.len()).sum::<usize>()) as u64);
    cov.label(&format!("{} {}", sp.func, if !any { "plaintext" } else if all { "encrypted" } else { "mixed" }));
    cov.nontrivial_if(any);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pack {
    val: u128,
    width: u8,
    signed: bool,
    /// pack and unpack this often, with other work in between
    rounds: u8,
    public: bool,
    fault: bool,
    dynamic: bool,
}

/// Statically sized integers of some widths.
macro_rules! static_widths {
    ($w:expr, $go:ident) => {
        match $w {
            1 => $go!(1),
            5 => $go!(5),
            8 => $go!(8),
            16 => $go!(16),
            31 => $go!(31),
            32 => $go!(32),
            64 => $go!(64),
            100 => $go!(100),
            _ => $go!(127),
        }
    };
}
const WIDTHS: [usize; 9] = [1, 5, 8, 16, 31, 32, 64, 100, 127];

fn check_pack(p: &Pack, cov: &Cover) -> Result<(), Fail> {
    let c = ctx(0);
    let w = if p.dynamic { 1 + p.width as usize % 127 } else { WIDTHS[p.width as usize % 9] };
    let want = p.val & ((1 << w) - 1);
    let sval = unsigned_to_signed(want, w);
    let cerr = |e: Error| Fail { sig: "pack-error".into(), msg: format!("{e}") };
    with_rig(2, |rig| {
        if p.fault {
            // a run that fails must not spoil what follows
            let r = rig.run(4, no_args(), None)?;
            ensure!(r.result.is_err(), "ran-unmapped", "address 4");
        }
        macro_rules! rounds {
            ($start:expr, $packed:expr, $pack:ident, $unpack:ident, $want:expr) => {{
                let comp = rig.comp.as_mut().unwrap();
                let mut x = match $packed {
                    Some(y) => comp.$unpack(y).map_err(cerr)?,
                    None => $start,
                };
                for r in 0..1 + p.rounds % 3 {
                    let y = comp.$pack(x).map_err(cerr)?;
                    let got = y.decrypt(&c.enc, &c.sk);
                    ensure!(got == $want, "packed-value", "round {r}: got {got}, want {}", $want);
                    x = comp.$unpack(y).map_err(cerr)?;
                    let got = x.decrypt(&c.enc, &c.sk);
                    ensure!(got == $want, "unpacked-value", "round {r}: got {got}, want {}", $want);
                    cov.comparisons(2);
                }
            }};
        }
        if p.dynamic {
            cov.label("dynamic");
            if p.signed {
                type D = DynamicInt<L1GlweCiphertext>;
                let packed = p.public.then(|| PackedDynamicGenericInt::encrypt(sval, &c.enc, c.pk(), w));
                let start: D = DynamicGenericInt::encrypt_secret(sval, &c.enc, &c.sk, w);
                rounds!(start, packed, pack_int_dyn, unpack_int_dyn, sval)
            } else {
                type D = DynamicUInt<L1GlweCiphertext>;
                let packed = p.public.then(|| PackedDynamicGenericInt::encrypt(want, &c.enc, c.pk(), w));
                let start: D = DynamicGenericInt::encrypt_secret(want, &c.enc, &c.sk, w);
                rounds!(start, packed, pack_int_dyn, unpack_int_dyn, want)
            }
        } else {
            cov.label("static");
            macro_rules! go {
                ($n:literal) => {
                    if p.signed {
                        let packed = p.public.then(|| PackedGenericInt::encrypt(sval, &c.enc, c.pk()));
                        let start = Int::<$n, L1GlweCiphertext>::encrypt_secret(sval, &c.enc, &c.sk);
                        rounds!(start, packed, pack_int, unpack_int, sval)
                    } else {
                        let packed = p.public.then(|| PackedGenericInt::encrypt(want, &c.enc, c.pk()));
                        let start = UInt::<$n, L1GlweCiphertext>::encrypt_secret(want, &c.enc, &c.sk);
                        rounds!(start, packed, pack_int, unpack_int, want)
                    }
                };
            }
            static_widths!(w, go)
        }
        cov.label_if(p.fault, "after a failed run");
        cov.label_if(p.public, "public-key encryption");
        cov.nontrivial();
        Ok(())
    })
}
fn unsigned_to_signed(v: u128, w: usize) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RunnerCase {
    val: u32,
    prog: u8,
    missing: bool,
}
/// The one-call runner, which works at the default parameters.
fn check_runner(r: &RunnerCase, cov: &Cover) -> Result<(), Fail> {
    let c = ctx(3);
    let ck = (*c.compute_key).clone();
    let e8 = |v: u32| UInt::<8, L1GlweCiphertext>::encrypt_secret((v & 255) as u128, &c.enc, &c.sk);
    let (a, b) = (r.val & 255, r.val >> 8 & 255);
    let (file, func, args, want) = match r.prog % 2 {
        0 => ("add", "add", ArgsBuilder::new().arg(e8(a)).arg(e8(b)), (a + b) & 255),
        _ => ("cmux", "cmux", ArgsBuilder::new().arg(e8(a)).arg(e8(b)).arg(e8(a ^ b)), if a > 10 { b } else { a ^ b }),
    };
    let func = if r.missing { "absent" } else { func };
    let got = catch(|| parasol_cpu::run_program(ck, &elf(file), func, args.return_value::<UInt<8, L1GlweCiphertext>>())).or_else(|e| fail("panic", e))?;
    cov.nontrivial();
    match got {
        Err(Error::ElfSymbolNotFound(s)) if r.missing => ensure!(s == "absent", "wrong-symbol", "{s}"),
        Err(e) => return fail("run", format!("{e}")),
        Ok(_) if r.missing => return fail("ran-missing-function", "absent"),
        Ok(v) => {
            let got = v.decrypt(&c.enc, &c.sk);
            ensure!(got == want as u128, "wrong-result", "{file}: got {got}, want {want}");
        }
    }
    Ok(())
}

pub fn check() -> Check {
    let val = prop_oneof![4 => any::<u128>(), 2 => 0u128..300, 1 => Just(u128::MAX), 1 => (0u32..128).prop_map(|k| 1 << k), 1 => (0u32..128, 0u128..3).prop_map(|(k, d)| (1u128 << k).wrapping_sub(d)), 1 => Just(0)];
    let enc = prop_oneof![2 => Just(0u64), 3 => Just(u64::MAX), 4 => any::<u64>()];
    let case = |enc: BoxedStrategy<u64>| (0u8..16, prop::collection::vec(val.clone(), 8..10), enc, any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(prog, vals, enc, len, threads, calls)| Case { prog, vals, enc, len, threads, calls });
    let pack = (val.clone(), any::<u8>(), any::<bool>(), any::<u8>(), any::<bool>(), prop::bool::weighted(0.2), any::<bool>())
        .prop_map(|(val, width, signed, rounds, public, fault, dynamic)| Pack { val, width, signed, rounds, public, fault, dynamic });
    let runner = (any::<u32>(), any::<u8>(), prop::bool::weighted(0.3)).prop_map(|(val, prog, missing)| RunnerCase { val, prog, missing });
    Check {
        id: "U08",
        assumptions: vec![
            "the compiled programs stored in parasol_cpu/tests/test_data, with inputs for which their C sources are defined (no signed overflow)",
            "lengths and pointers are plaintext; every other scalar may be encrypted or not",
            "packed integers of at most 127 bits at small parameters",
        ],
        subs: vec![
            sub("plaintext", 1000, 40_000, "always", case(Just(0u64).boxed()), |c: &Case, cov: &Cover| {
                cov.nontrivial();
                check_case(c, cov)
            }),
            sub("compiled", 140, 6_000, "some input was encrypted", case(enc.boxed()), check_case),
            sub("packing", 200, 8_000, "always", pack, check_pack),
            sub("runner", 2, 60, "always", runner, check_runner).serial(),
        ],
    }
}
