//! U01: every instruction on every mix of operands against its definition on clear values.
use crate::isa::{O::*, *};
use crate::model::*;
use crate::rig::*;
use serde::{Deserialize, Serialize};
use std::result::Result;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: O,
    srcs: Vec<V>,
    width: u32,
    imm: u32,
    /// registers: destinations then sources, as for an instruction
    regs: Vec<u8>,
}

const REG_OPS: [O; 29] = [
    LoadI, Trunc, Zext, Sext, Move, Not, And, Or, Xor, Add, AddC, Sub, SubB, Neg, Mul, Rotl, Rotr, Shl, Shr, Shra, CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS,
];

/// Values near the edges as often as anywhere.
fn value(w: u32, edge: u8, raw: u128) -> u128 {
    let m = mask(w);
    (match edge {
        0 => 0,
        1 => m,
        2 => m >> 1,
        3 => (m >> 1) + 1,
        4 => 1,
        5 => m - 1,
        6 => raw & mask((raw >> 120) as u32 % w.max(1) + 1),
        _ => raw,
    }) & m
}

fn strategy(encrypted: bool) -> impl Strategy<Value = Case> {
    let ops = prop_oneof![8 => prop::sample::select(REG_OPS.to_vec()), 1 => Just(Cmux)];
    // width choice
    let ws = if encrypted {
        prop_oneof![6 => 1u32..=10, 1 => Just(16u32), 1 => 11u32..=33].boxed()
    } else {
        prop_oneof![3 => 1u32..=128, 2 => prop::sample::select(vec![1u32, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128])].boxed()
    };
    (ops, ws, 0u32..=128, any::<u32>(), prop::collection::vec((0u8..14, any::<u128>(), any::<bool>()), 3), prop::collection::vec(3u8..64, 5), any::<u16>()).prop_map(
        move |(op, w, w2, imm, vals, mut regs, knobs)| {
            let d = op.dsts();
            let n = op.srcs();
            let w = match op {
                // wide products and shifts by an encrypted amount are costly
                Mul if encrypted => (w - 1) % 9 + 1,
                _ => w,
            };
            let any_enc = encrypted && n > 0;
            let mut srcs: Vec<V> = (0..n)
                .map(|i| {
                    let (edge, raw, e) = vals[i];
                    let mut wi = w;
                    if matches!(op, AddC | SubB) && i == 2 || op == Cmux && i == 0 {
                        wi = 1;
                    }
                    if matches!(op, Shl | Shr | Shra | Rotl | Rotr) && i == 1 {
                        wi = if encrypted && e { w2 % 9 + 1 } else { w2.max(1) };
                    }
                    // now and then a width that does not fit
                    if knobs % 23 == i as u16 {
                        wi = if encrypted { w2 % 12 + 1 } else { w2.max(1) };
                    }
                    let mut val = value(wi, edge, raw);
                    if matches!(op, Shl | Shr | Shra | Rotl | Rotr) && i == 1 && knobs >> 8 & 3 != 0 {
                        val = (val % (w as u128 + 2)) & mask(wi);
                    }
                    V { enc: any_enc && e, val, w: wi }
                })
                .collect();
            if any_enc && srcs.iter().all(|s| !s.enc) {
                let k = knobs as usize % n;
                srcs[k].enc = true;
                if matches!(op, Shl | Shr | Shra | Rotl | Rotr) && k == 1 {
                    srcs[1].w = srcs[1].w % 9 + 1;
                    srcs[1].val &= mask(srcs[1].w);
                }
            }
            if op == Mul && srcs.iter().any(|s| s.enc) {
                for s in srcs.iter_mut() {
                    s.w = s.w.min(9);
                    s.val &= mask(s.w);
                }
            }
            let width = match op {
                Trunc | Zext | Sext => {
                    let base = srcs[0].w;
                    match (op, knobs >> 4 & 7) {
                        (_, 0) => w2.max(1),
                        (_, 1) => base,
                        (Trunc, _) => w2 % base + 1,
                        _ => base + w2 % (129 - base),
                    }
                }
                LoadI => w2.max(1),
                _ => 0,
            };
            let imm = if op == LoadI {
                match knobs % 6 {
                    0 => imm & mask(width.min(32)) as u32,
                    1 => (imm as i32 >> (32 - width.min(32))) as u32,
                    2 => mask(width.min(32)) as u32,
                    3 => (-1i64 << (width.min(32) - 1)) as u32,
                    4 => (-1i64 << (width.min(32) - 1)).wrapping_sub(1) as u32,
                    _ => imm,
                }
            } else {
                0
            };
            // how an immediate with its top bit set extends beyond 32 bits is not defined
            let imm = if op == LoadI && width > 32 { imm & 0x7FFF_FFFF } else { imm };
            regs.truncate(d + n);
            // sources sharing a register share the value
            for i in 0..n {
                if knobs >> 12 & 1 == 1 && i > 0 && srcs[i] == srcs[i - 1] {
                    regs[d + i] = regs[d + i - 1];
                }
                for j in 0..i {
                    if regs[d + i] == regs[d + j] {
                        srcs[i] = srcs[j];
                    }
                }
            }
            // destinations on top of sources
            if knobs >> 13 & 1 == 1 && d > 0 && n > 0 {
                regs[0] = regs[d + (knobs as usize >> 14) % n];
            }
            if d == 2 && regs[0] == regs[1] {
                regs[1] = if regs[0] == 63 { 62 } else { regs[0] + 1 };
            }
            Case { op, srcs, width, imm, regs }
        },
    )
}

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let d = c.op.dsts();
    with_rig(2, |rig| {
        let mut p = vec![ins(LoadI, &[1], 32, rig.data)];
        for (i, s) in c.srcs.iter().enumerate() {
            let lw = s.w.next_multiple_of(8).next_power_of_two();
            let off = 16 * i as u32;
            rig.put(rig.data + off, V { w: lw, ..*s });
            let r = c.regs[d + i];
            p.push(ins(Load, &[r, 1], lw, off));
            if lw != s.w {
                p.push(ins(Trunc, &[r, r], s.w, 0));
            }
        }
        p.push(ins(c.op, &c.regs, c.width, c.imm));
        for r in &c.regs {
            p.push(ins(Dbg, &[*r], 0, 0));
        }
        p.push(ins(Ret, &[], 0, 0));
        let expect = alu(c.op, &c.srcs, c.width, c.imm);
        rig.write_words(rig.code, &words(&p));
        let ran = rig.run(rig.code, no_args(), None)?;
        let enc = c.srcs.iter().any(|s| s.enc);
        cov.label(format!("{:?}", c.op));
        cov.label_if(enc, "encrypted");
        cov.label_if(enc && c.srcs.iter().any(|s| !s.enc), "mixed");
        cov.label_if(c.srcs.iter().any(|s| s.w > 64), "wide");
        match (&expect, &ran.result) {
            (Err(f), Ok(_)) => fail(format!("accepted:{:?}", c.op), format!("should report {f:?}")),
            (Err(f), Err(e)) => {
                cov.label("error");
                let got = class(e);
                ensure_eq!(&got, f, "wrong-error", "{e}");
                cov.comparisons(1);
                Ok(())
            }
            (Ok((_, true)), Err(e)) => {
                let got = class(e);
                ensure!(matches!(got, F::UnsupportedWidth | F::WidthMismatch | F::IllegalOperands), "wrong-error", "{e}");
                cov.label("unsupported");
                Ok(())
            }
            (Ok(_), Err(e)) => fail(format!("refused:{:?}", c.op), format!("{e}")),
            (Ok((dst, _)), Ok(_)) => {
                cov.nontrivial();
                ensure_eq!(ran.dbg.len(), c.regs.len(), "debug-count", "");
                // later destinations win, sources keep their value unless overwritten
                for (k, r) in c.regs.iter().enumerate() {
                    let want = match c.regs[..d].iter().rposition(|x| x == r) {
                        Some(i) => dst[i],
                        None => c.srcs[k - d],
                    };
                    let got = ran.dbg[k].1.value()?;
                    let part = if k < d { "result" } else { "source" };
                    ensure!(got == want, format!("{part}:{:?}{}", c.op, if enc { ":encrypted" } else { "" }), "register {r}: {got:?}, expected {want:?}");
                    cov.comparisons(1);
                }
                Ok(())
            }
        }
    })
}

pub fn check() -> Check {
    Check {
        id: "U01",
        assumptions: vec![
            "immediates with the top bit set are not loaded at widths above 32 (their extension is not defined)",
            "products of encrypted operands are generated up to 9 bits, other encrypted operands up to 33 bits",
            "rotations by an encrypted amount of widths that are not powers of two may be refused",
        ],
        subs: vec![
            sub("plain", 40000, 1_000_000, "the instruction completed and every register was compared", strategy(false), check_case),
            sub("encrypted", 4000, 80_000, "the instruction completed and every register was compared", strategy(true), check_case),
            crate::u_far::far(),
        ],
    }
}
