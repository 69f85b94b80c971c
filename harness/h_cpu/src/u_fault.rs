//! U05: one illegal action in an otherwise correct program; gas.
use crate::gen::*;
use crate::isa::{O::*, *};
use crate::model::*;
use crate::rig::*;
use parasol_cpu::Error;
use serde::{Deserialize, Serialize};
use std::result::Result;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fault {
    before: Prog,
    after: Vec<Dice>,
    kind: u8,
    d: Dice,
    /// a gas limit no part of the program reaches
    limit: bool,
    threads: u8,
    log: bool,
}

const KINDS: u8 = 24;

/// The words of the illegal action; scratch registers are 48 to 59.
fn snippet(kind: u8, d: &Dice, rig: &Rig) -> Vec<u64> {
    let data = rig.data;
    let r = |base: u8, x: u8| base + x % 4;
    let (x, y) = (50 + d.a % 4, 54 + d.b % 4);
    let enc = |reg: u8, w: u32| ins(Load, &[reg, 1], w, ENC_CODE);
    let lit = |reg: u8, v: u32| ins(LoadI, &[reg], 32, v);
    let at = |n: usize| rig.code + 8 * n as u32;
    let _ = at;
    let v = match kind {
        0 => {
            let op = [Add, Sub, And, Or, Xor, Mul, CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS][d.imm as usize % 15];
            let (a, b) = (r(W8, d.c), r(W16, d.d));
            vec![if d.imm >> 8 & 1 == 1 { ins(op, &[x, a, b], 0, 0) } else { ins(op, &[x, b, a], 0, 0) }]
        }
        1 => vec![ins(Trunc, &[x, r(W8, d.c)], 9 + d.imm % 120, 0)],
        2 => vec![ins(if d.d & 1 == 1 { Zext } else { Sext }, &[x, r(W16, d.c)], 1 + d.imm % 15, 0)],
        3 => vec![ins(LoadI, &[x], 1 + d.imm % 31, ((1u64 << (1 + d.imm % 31)) + (d.c as u64)) as u32 & 0x7FFF_FFFF | 1 << (1 + d.imm % 31).min(30))],
        4 => vec![ins(Cmux, &[x, r(W8, d.c), r(W8, d.d), r(W8, d.a)], 0, 0)],
        5 => vec![ins(Cmux, &[x, r(W1, d.c), r(W8, d.d), r(W16, d.a)], 0, 0)],
        6 => vec![ins(if d.d & 1 == 1 { AddC } else { SubB }, &[x, y, r(W8, d.c), r(W8, d.a), r(W8, d.b)], 0, 0)],
        7 => vec![ins(if d.d & 1 == 1 { AddC } else { SubB }, &[x, y, r(W8, d.c), r(W16, d.a), r(W1, d.b)], 0, 0)],
        8 => vec![enc(x, [8, 16, 32][d.c as usize % 3]), ins(Load, &[y, x], 8, d.imm)],
        9 => vec![enc(x, [8, 16, 32][d.c as usize % 3]), ins(Store, &[x, r(W8, d.d)], 8, d.imm)],
        10 => {
            // an address only known once earlier encrypted work is done
            let mut v = vec![enc(x, 32), ins(Add, &[x, x, x], 0, 0)];
            v.push(if d.d & 1 == 1 { ins(Load, &[y, x], 16, 0) } else { ins(Store, &[x, r(W16, d.c)], 16, 0) });
            v
        }
        11 | 12 => {
            let w = [16, 32, 64, 128][d.c as usize % 4];
            let o = 1 + d.imm % (w / 8 - 1);
            vec![lit(x, data + PLAY), if kind == 11 { ins(Load, &[y, x], w, o) } else { ins(Store, &[x, r(W16, d.d)], w, o) }]
        }
        13 => {
            let w = [1, 7, 12, 24, 48, 100, 127, 4][d.c as usize % 8];
            vec![if d.d & 1 == 1 { ins(Load, &[y, 1], w, 0) } else { ins(Store, &[1, r(W8, d.a)], w, 0) }]
        }
        14 | 15 => {
            let w = [8, 16, 32, 64, 128][d.c as usize % 5];
            let a = match d.d % 5 {
                0 => 0,
                1 => data + DATA_BYTES,
                2 => 0x7FFF_FFF0,
                3 => 0x8000_1000,
                _ => 0x9000_0000 | (d.imm & 0x0FFF_FFF0),
            };
            let o = d.imm % 200 * 16;
            vec![lit(x, a.wrapping_sub(o)), if kind == 14 { ins(Load, &[y, x], w, o) } else { ins(Store, &[x, r(W8, d.a)], w, o) }]
        }
        16 => {
            let w = [8, 16, 32][d.c as usize % 3];
            let (a, o) = if d.imm & 1 == 1 { (d.imm % 4096, (-4096i32) as u32) } else { (u32::MAX - d.imm % 4096, 4096) };
            // immediates with the top bit set are fine at width 32
            vec![lit(x, a), if d.d & 1 == 1 { ins(Load, &[y, x], w, o) } else { ins(Store, &[x, r(W8, d.a)], w, o) }]
        }
        17 => {
            let w = [16, 32, 64, 128][d.c as usize % 4];
            vec![ins(Load, &[x, 1], w, MIXED + if d.d & 1 == 1 { 16 } else { 0 })]
        }
        18 => {
            let b = if d.d & 1 == 1 { BranchZero } else { BranchNonZero };
            let o = if d.imm & 1 == 1 { 8 } else { 0 };
            let mut v = vec![enc(x, 8)];
            if d.c & 1 == 1 {
                v.push(ins(CmpEq, &[x, x, r(W8, d.a)], 0, 0));
            }
            v.push(ins(b, &[x], 0, o));
            v
        }
        19 => {
            let mut z = (d.imm as u64) << 24 | (d.a as u64) << 16 | (d.b as u64) << 56 | (d.c as u64);
            if d.d & 1 == 1 {
                // a real opcode with stray bits
                z = ins(Add, &[x, y, x], 0, 0).word().0 | 1 << (40 + d.imm % 24);
            }
            while Ins::of_word(z).is_some() {
                z = z.rotate_left(1) ^ 2;
            }
            return vec![z];
        }
        20 => vec![ins(Branch, &[], 0, 8 * (d.imm % 3) + 1 + d.c as u32 % 7)],
        21 => vec![ins(Branch, &[], 0, match d.c % 3 {
            0 => 0x4000_0000,
            1 => (rig.data + DATA_BYTES).wrapping_sub(rig.code) & !7,
            _ => 0u32.wrapping_sub(rig.code) & !7,
        })],
        // into encrypted bytes, or off the end of everything mapped: distances are patched below
        22 => vec![ins(Branch, &[], 0, 0)],
        _ => vec![ins(Branch, &[], 0, 0)],
    };
    words(&v)
}

fn location(e: &Error) -> Option<u32> {
    match e {
        Error::WidthMismatch { pc, .. } | Error::UnsupportedWidth { pc, .. } | Error::IllegalOperands { pc, .. } => Some(*pc),
        _ => None,
    }
}

fn fault(c: &Fault, cov: &Cover) -> Result<(), Fail> {
    let t = [1usize, 2, 8][c.threads as usize % 3];
    let kind = c.kind % KINDS;
    with_rig(t, |rig| {
        let cells = data(&c.before);
        let mut p = assemble(&c.before, rig.data);
        p.extend([ins(Move, &[60, 60], 0, 0); 5]);
        let split = p.len();
        for d in &c.after {
            p.extend(expand(d));
        }
        p.extend([ins(Move, &[60, 60], 0, 0); 5]);
        p.push(ins(Ret, &[], 0, 0));
        if p.len() * 8 > CODE_BYTES as usize - 200 {
            return Ok(());
        }
        let Some((clean, _)) = patch(&mut p, rig, &cells) else { return Ok(()) };
        let mut code = words(&p[..split]);
        let mut snip = snippet(kind, &c.d, rig);
        // branches are relative to where they end up
        let here = rig.code + 8 * (code.len() + snip.len() - 1) as u32;
        let mut cells = cells;
        let fix = |dst: u32, snip: &mut Vec<u64>| {
            let b = ins(Branch, &[], 0, dst.wrapping_sub(here));
            *snip.last_mut().unwrap() = b.word().0;
        };
        match kind {
            21 => {
                let dst = match c.d.c % 3 {
                    0 => 0x4000_0000 | (c.d.imm & 0xFF8),
                    1 => rig.data + DATA_BYTES,
                    _ => 0,
                };
                fix(dst, &mut snip);
            }
            22 => fix(rig.data + ENC_CODE, &mut snip),
            23 => {
                // the last word of the data area is an instruction; nothing follows
                cells.resize(DATA_BYTES as usize, crate::u_mem::C::P(0));
                let w = ins(Move, &[50, 51], 0, 0).word().0;
                for (i, b) in w.to_le_bytes().iter().enumerate() {
                    cells[DATA_BYTES as usize - 8 + i] = crate::u_mem::C::P(*b);
                }
                fix(rig.data + DATA_BYTES - 8, &mut snip);
            }
            _ => {}
        }
        let at = code.len() + snip.len() - 1;
        code.extend(snip);
        code.extend(words(&p[split..]));
        let mut m = rig.machine();
        load_machine(&mut m, rig, &code, &cells);
        let (want, pc) = match m.run(4000) {
            Some(Err(f)) => (f, m.pc),
            // the action was not illegal after all
            _ => {
                cov.label("not illegal");
                return Ok(());
            }
        };
        ensure!(pc < rig.code || pc >= rig.code + 8 * (at as u32) || kind >= 20, "harness", "the prefix faults at {pc:#x}");
        load_rig(rig, &code, &cells);
        rig.log = c.log;
        let limit = c.limit.then_some((clean.gas + 10_000_000) as u32);
        let ran = rig.run(rig.code, no_args(), limit);
        rig.log = false;
        match ran?.result {
            Ok(_) => return fail(format!("fault-missed:{want:?}"), "the program ended normally".to_string()),
            Err(e) => {
                ensure_eq!(class(&e), want, "wrong-error", "{e}");
                if let Some(l) = location(&e) {
                    ensure_eq!(l, pc, "wrong-location", "{e}");
                }
                if let Error::IllegalInstruction(a) = e {
                    ensure_eq!(a, pc, "wrong-location", "{e}");
                }
            }
        }
        cov.label(format!("{want:?}"));
        cov.label(format!("kind {kind}"));
        cov.label_if(clean.gas > 100_000, "encrypted work in flight");
        cov.nontrivial();
        cov.comparisons(1);
        after(rig, &c.before)
    })
}

/// The next program on the same processor and memory.
fn after(rig: &mut Rig, p: &Prog) -> Result<(), Fail> {
    let a = V { enc: true, val: (p.seed & 0xFF) as u128, w: 8 };
    let b = V { enc: false, val: (p.seed >> 8 & 0xFF) as u128, w: 8 };
    rig.put(rig.data, a);
    rig.put(rig.data + 1, b);
    let q = [
        ins(Dbg, &[W8], 0, 0),
        ins(LoadI, &[1], 32, rig.data),
        ins(Load, &[W8, 1], 8, 0),
        ins(Load, &[W8 + 1, 1], 8, 1),
        ins(Add, &[W8 + 2, W8, W8 + 1], 0, 0),
        ins(Store, &[1, W8 + 2], 8, 2),
        ins(Load, &[W8 + 3, 1], 8, 2),
        ins(Dbg, &[W8 + 3], 0, 0),
        ins(Ret, &[], 0, 0),
    ];
    rig.write_words(rig.code, &words(&q));
    let ran = rig.run(rig.code, no_args(), None)?;
    match ran.result {
        Ok((gas, ())) => ensure_eq!(gas, 100_007, "gas-after-fault", ""),
        Err(e) => return fail("processor-spoiled", format!("the next program failed: {e}")),
    }
    ensure_eq!(ran.dbg.len(), 2, "debug-count", "");
    let first = ran.dbg[0].1.value()?;
    ensure!(first == plain(0, 32), "register-not-cleared", "{first:?}");
    let got = ran.dbg[1].1.value()?;
    let want = V { enc: true, val: (a.val + b.val) & 0xFF, w: 8 };
    ensure!(got == want, "processor-spoiled", "the next program computed {got:?}, expected {want:?}");
    Ok(())
}

// ---- gas ----
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Gas {
    prog: Prog,
    threads: u8,
    limits: Vec<(u8, u32)>,
}

fn gas_case(c: &Gas, cov: &Cover) -> Result<(), Fail> {
    let t = [1usize, 2, 8][c.threads as usize % 3];
    with_rig(t, |rig| {
        let cells = data(&c.prog);
        let mut p = assemble(&c.prog, rig.data);
        p.extend([ins(Move, &[60, 60], 0, 0); 5]);
        p.push(ins(Ret, &[], 0, 0));
        if p.len() * 8 > CODE_BYTES as usize {
            return Ok(());
        }
        let Some((m, _)) = patch(&mut p, rig, &cells) else { return Ok(()) };
        let total = m.gas;
        for (how, raw) in &c.limits {
            let limit = match how % 5 {
                0 => total,
                1 => total - 1,
                2 => *raw as u64 % total,
                3 => total + *raw as u64 % 1000,
                _ => total.saturating_sub(*raw as u64 % 5),
            };
            load_rig(rig, &words(&p), &cells);
            let ran = rig.run(rig.code, no_args(), Some(limit as u32))?;
            match ran.result {
                Ok((used, ())) => {
                    ensure!(limit >= total, "limit-ignored", "used {used}, limit {limit}, the work is {total}");
                    ensure_eq!(used as u64, total, "gas", "");
                    cov.label("within");
                }
                Err(Error::OutOfGas(used, l)) => {
                    ensure!(limit < total, "stopped-within-limit", "limit {limit}, the work is {total}");
                    ensure!(l as u64 == limit && used as u64 > limit, "gas-report", "used {used}, limit {l} of {limit}");
                    cov.label("out of gas");
                }
                Err(e) => return fail("wrong-error", format!("{e}")),
            }
            cov.comparisons(1);
        }
        cov.nontrivial();
        cov.label_if(total > 100_000, "encrypted");
        after(rig, &c.prog)
    })
}

// ---- programs that never end by themselves ----
const BIG: u32 = 4_000_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Endless {
    prog: Prog,
    threads: u8,
    limit: u32,
    back: u8,
}

fn endless(c: &Endless, cov: &Cover) -> Result<(), Fail> {
    let t = [1usize, 2, 8][c.threads as usize % 3];
    with_rig(t, |rig| {
        let cells = data(&c.prog);
        let mut p = assemble(&c.prog, rig.data);
        p.extend([ins(Move, &[60, 60], 0, 0); 5]);
        // one pass must not fault; the endless part is only what repeats harmlessly
        p.push(ins(Ret, &[], 0, 0));
        if p.len() * 8 > CODE_BYTES as usize - 64 {
            return Ok(());
        }
        if patch(&mut p, rig, &cells).is_none() {
            return Ok(());
        }
        p.pop();
        match c.back % 4 {
            _ if c.limit > BIG => {
                // costly steps up to the largest amounts
                p.push(ins(Load, &[50, 1], 8, ENC_CODE));
                p.push(ins(Trunc, &[50, 50], 1, 0));
                p.extend((0..40).map(|k| ins(Mul, &[51 + k % 8, 50, 50], 0, 0)));
                p.push(ins(Branch, &[], 0, (-8i32 * 40) as u32));
            }
            0 => p.push(ins(Branch, &[], 0, 0)),
            1 => p.extend([ins(Add, &[W8, W8, W8 + 1], 0, 0), ins(Branch, &[], 0, (-8i32) as u32)]),
            2 => p.extend([ins(LoadI, &[50], 8, 1), ins(BranchNonZero, &[50], 0, (-8i32) as u32)]),
            _ => {
                // from the start again
                let n = p.len() as i32;
                p.push(ins(Branch, &[], 0, (-8 * n) as u32));
            }
        }
        load_rig(rig, &words(&p), &cells);
        // going round from the start may fault in a later pass: the model knows
        let mut m = rig.machine();
        load_machine(&mut m, rig, &words(&p), &cells);
        let mut want = F::OutOfGas;
        while m.gas <= c.limit as u64 {
            match m.step() {
                Ok(Step::Next) => {}
                Ok(Step::Halt) => return fail("harness", "the endless program ended"),
                Err(f) => {
                    if m.gas <= c.limit as u64 {
                        want = f;
                    }
                    break;
                }
            }
        }
        let ran = rig.run(rig.code, no_args(), Some(c.limit))?;
        match ran.result {
            Ok(_) => return fail("limit-ignored", "an endless program ended normally"),
            Err(Error::OutOfGas(used, l)) => {
                ensure!(l == c.limit && used > l, "gas-report", "used {used}, limit {l} of {}", c.limit);
                cov.label("out of gas");
                cov.nontrivial();
            }
            Err(e) => {
                ensure!(class(&e) == want, "wrong-error", "{e}, expected {want:?}");
                cov.label("fault first");
            }
        }
        cov.comparisons(1);
        after(rig, &c.prog)
    })
}

pub fn check() -> Check {
    let prog = |enc: std::ops::Range<u8>, n: std::ops::Range<usize>| (any::<u64>(), enc, prop::collection::vec(dice(), n)).prop_map(|(seed, enc, body)| Prog { seed, enc, body });
    let f = (prog(1..9, 0..20), prop::collection::vec(dice(), 0..12), 0u8..KINDS, dice(), any::<bool>(), any::<u8>(), prop::bool::weighted(0.05))
        .prop_map(|(before, after, kind, d, limit, threads, log)| Fault { before, after, kind, d, limit, threads, log });
    let f2 = (prog(0..1, 0..20), prop::collection::vec(dice(), 0..12), 0u8..KINDS, dice(), any::<bool>(), any::<u8>(), prop::bool::weighted(0.05))
        .prop_map(|(before, after, kind, d, limit, threads, log)| Fault { before, after, kind, d, limit, threads, log });
    Check {
        id: "U05",
        assumptions: vec![
            "each program performs one illegal action; the state of memory after a fault is not examined",
            "a program that has not ended after 60 seconds never ends",
            "a limit of 2^32 - 1 gas cannot be exceeded by an amount that fits the counter: limits are below that",
            "the cost of each instruction is the table in the code (shifts are charged by the kind of the amount only)",
        ],
        subs: vec![
            sub("fault", 500, 10_000, "the program ended with the fault put in", f, fault),
            sub("fault-plain", 2500, 60_000, "the program ended with the fault put in", f2, fault),
            sub("gas", 100, 2000, "the program was run under every limit", (prog(1..9, 0..14), any::<u8>(), prop::collection::vec((0u8..5, any::<u32>()), 1..4)).prop_map(|(prog, threads, limits)| Gas { prog, threads, limits }), gas_case),
            sub("gas-plain", 1500, 40_000, "the program was run under every limit", (prog(0..1, 0..40), any::<u8>(), prop::collection::vec((0u8..5, any::<u32>()), 1..6)).prop_map(|(prog, threads, limits)| Gas { prog, threads, limits }), gas_case),
            sub(
                "endless",
                400,
                8_000,
                "the program was stopped by its limit",
                (prop_oneof![4 => prog(0..1, 0..20), 1 => prog(1..9, 0..6)], any::<u8>(), prop_oneof![2 => 1u32..3000, 1 => 1u32..1_500_000], any::<u8>()).prop_map(|(prog, threads, limit, back)| {
                    let limit = if prog.enc == 0 { limit.min(20_000) } else { limit };
                    Endless { prog, threads, limit, back }
                }),
                endless,
            ),
            sub(
                "endless-big",
                2,
                40,
                "the program was stopped by its limit",
                (prog(0..1, 0..6), any::<u8>(), 1u32..450_000).prop_map(|(prog, threads, below)| Endless { prog, threads, limit: u32::MAX - below, back: 0 }),
                endless,
            ),
        ],
    }
}
