//! Programs over a few registers of each width, so that hazards of every kind are common. Whatever
//! the model finds faulty is patched away, so a program has no fault unless one is put in.
use crate::isa::{O::*, *};
use crate::model::*;
use crate::rig::*;
use crate::u_mem::C;
use serde::{Deserialize, Serialize};
use vkit::proptest::prelude::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Dice {
    pub kind: u8,
    pub a: u8,
    pub b: u8,
    pub c: u8,
    pub d: u8,
    pub imm: u32,
}
pub fn dice() -> impl Strategy<Value = Dice> {
    (any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u32>()).prop_map(|(kind, a, b, c, d, imm)| Dice { kind, a, b, c, d, imm })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// initial kinds and values of the registers and the data bytes
    pub seed: u64,
    /// of 8: how many registers and bytes start encrypted
    pub enc: u8,
    pub body: Vec<Dice>,
}

/// Bytes of data the program plays with, then pointer cells, then fixed cells for faults.
pub const PLAY: u32 = 64;
pub const CELLS: u32 = 128;
pub const MIXED: u32 = 256;
/// One encrypted page-crossing-free code-like region.
pub const ENC_CODE: u32 = 320;

pub const W1: u8 = 3;
pub const W8: u8 = 12;
pub const W16: u8 = 24;
pub const PTR: u8 = 36;
pub const OFF: u8 = 40;
pub const CNT: u8 = 44;

fn mix(seed: u64, j: u64) -> u64 {
    let x = seed.wrapping_add(j.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    let x = (x ^ x >> 30).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    let x = (x ^ x >> 27).wrapping_mul(0x94D0_49BB_1331_11EB);
    x ^ x >> 31
}

pub fn prologue(p: &Prog, data: u32) -> Vec<Ins> {
    let mut v = vec![ins(LoadI, &[1], 32, data)];
    for i in 0..4u8 {
        // pointers
        v.push(ins(LoadI, &[PTR + i], 32, data + 16 * i as u32 + 2 * (mix(p.seed, 900 + i as u64) as u32 % 8)));
        // small offsets
        v.push(ins(LoadI, &[OFF + i], 32, [2, 4, (-2i32) as u32, 0][i as usize]));
        // pointer cells
        v.push(ins(Store, &[1, PTR + i], 32, CELLS + 4 * i as u32));
    }
    for i in 0..4u8 {
        for (base, w) in [(W8, 8), (W16, 16)] {
            let h = mix(p.seed, 1000 + base as u64 * 8 + i as u64);
            if h % 8 < p.enc as u64 {
                v.push(ins(Load, &[base + i, 1], w, (h >> 8) as u32 % 16 * 2 + 32));
            } else {
                v.push(ins(LoadI, &[base + i], w, (h >> 16) as u32 & mask(w) as u32));
            }
        }
    }
    for i in 0..4u8 {
        let h = mix(p.seed, 2000 + i as u64);
        v.push(ins(CmpLt, &[W1 + i, W8 + (h % 4) as u8, W8 + (h >> 4) as u8 % 4], 0, 0));
    }
    v
}

/// The instructions a body element stands for.
pub fn expand(d: &Dice) -> Vec<Ins> {
    let r = |base: u8, x: u8| base + x % 4;
    let (wb, w) = if d.d & 1 == 1 { (W16, 16) } else { (W8, 8) };
    let bin = |op: O| vec![ins(op, &[r(wb, d.a), r(wb, d.b), r(wb, d.c)], 0, 0)];
    let off = |n: i32| ((d.imm % 24) as i32 * n - 16) as u32;
    match d.kind % 40 {
        0 => bin(And),
        1 => bin(Or),
        2 => bin(Xor),
        3 => bin(Add),
        4 => bin(Sub),
        5 if w == 8 => bin(Mul),
        5 => bin(Add),
        6 => vec![ins([Rotl, Rotr, Shl, Shr, Shra][d.imm as usize % 5], &[r(wb, d.a), r(wb, d.b), r(W8, d.c)], 0, 0)],
        7 => vec![ins(AddC, &[r(wb, d.a), r(W1, d.imm as u8), r(wb, d.b), r(wb, d.c), r(W1, d.d >> 1)], 0, 0)],
        8 => vec![ins(SubB, &[r(wb, d.a), r(W1, d.imm as u8), r(wb, d.b), r(wb, d.c), r(W1, d.d >> 1)], 0, 0)],
        9 | 10 => {
            let op = [CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt, CmpLtS, CmpLe, CmpLeS][d.imm as usize % 9];
            vec![ins(op, &[r(W1, d.a), r(wb, d.b), r(wb, d.c)], 0, 0)]
        }
        11 => vec![ins(Cmux, &[r(wb, d.a), r(W1, d.imm as u8), r(wb, d.b), r(wb, d.c)], 0, 0)],
        12 => vec![ins(if d.imm & 1 == 1 { Not } else { Neg }, &[r(wb, d.a), r(wb, d.b)], 0, 0)],
        13 => vec![ins(Move, &[r(wb, d.a), r(wb, d.b)], 0, 0)],
        14 => vec![ins(LoadI, &[r(wb, d.a)], w, d.imm & mask(w) as u32)],
        15 => vec![if d.imm & 1 == 1 { ins(Zext, &[r(W16, d.a), r(W8, d.b)], 16, 0) } else { ins(Sext, &[r(W16, d.a), r(W8, d.b)], 16, 0) }],
        16 => vec![if d.imm & 1 == 1 { ins(Trunc, &[r(W8, d.a), r(W16, d.b)], 8, 0) } else { ins(Zext, &[r(W8, d.a), r(W1, d.b)], 8, 0) }],
        17..=20 => vec![ins(Store, &[r(PTR, d.a), r(wb, d.b)], w, off(w as i32 / 8))],
        21..=24 => vec![ins(Load, &[r(wb, d.b), r(PTR, d.a)], w, off(w as i32 / 8))],
        25 => vec![ins(Add, &[r(PTR, d.a), r(PTR, d.b), r(OFF, d.c)], 0, 0)],
        26 => vec![ins(Store, &[1, r(PTR, d.a)], 32, CELLS + 4 * (d.b as u32 % 4))],
        27 => vec![ins(Load, &[r(PTR, d.a), 1], 32, CELLS + 4 * (d.b as u32 % 4))],
        28 => vec![ins(Dbg, &[r(wb, d.a)], 0, d.imm % 4)],
        29 => vec![ins(if d.imm & 1 == 1 { BranchZero } else { BranchNonZero }, &[r(W1, d.a)], 0, 8 * (1 + d.b as u32 % 4))],
        30 => vec![ins(if d.imm & 1 == 1 { BranchZero } else { BranchNonZero }, &[r(wb, d.a)], 0, 8 * (1 + d.b as u32 % 4))],
        31 => vec![ins(Branch, &[], 0, 8 * (1 + d.b as u32 % 3))],
        // an address that waits for a store, which waits for a slow one
        32 | 33 => {
            let cell = CELLS + 4 * (d.b as u32 % 4);
            let (p, q) = (r(PTR, d.a), r(PTR, d.c));
            let mut v = vec![ins(Add, &[r(W16, d.b), r(W16, d.c), r(W16, d.a)], 0, 0), ins(Store, &[1, p], 32, cell), ins(Store, &[1, r(W16, d.b)], 16, cell + 2 * (d.imm >> 8 & 1)), ins(Store, &[1, p], 32, cell), ins(Load, &[q, 1], 32, cell)];
            if d.imm >> 9 & 1 == 1 {
                v.push(ins(Add, &[q, q, OFF + (d.imm >> 10) as u8 % 4], 0, 0));
            }
            v.push(if d.imm >> 12 & 1 == 1 { ins(Store, &[q, r(wb, d.b)], w, off(w as i32 / 8)) } else { ins(Load, &[r(wb, d.b), q], w, off(w as i32 / 8)) });
            v
        }
        // a condition that does
        34 => {
            let (x, y) = (r(W8, d.a), r(W8, d.b));
            let at = d.imm % 32;
            vec![
                ins(Add, &[x, x, y], 0, 0),
                ins(Store, &[1, x], 8, at),
                ins(LoadI, &[y], 8, d.imm >> 8 & 1),
                ins(Store, &[1, y], 8, at),
                ins(Load, &[x, 1], 8, at),
                ins(if d.imm >> 9 & 1 == 1 { BranchZero } else { BranchNonZero }, &[x], 0, 8 * (1 + d.c as u32 % 4)),
            ]
        }
        // a chain of plain work behind a slow debug handler
        35 => vec![ins(Dbg, &[r(wb, d.a)], 0, 3), ins(Add, &[r(PTR, d.a), r(PTR, d.a), r(OFF, d.c)], 0, 0), ins(Load, &[r(W8, d.b), r(PTR, d.a)], 8, d.imm % 8)],
        36 => bin(Add),
        37 => bin(Sub),
        38 => vec![ins(Store, &[r(PTR, d.a), r(wb, d.b)], w, off(w as i32 / 8)), ins(Load, &[r(wb, d.c), r(PTR, d.a)], w, off(w as i32 / 8))],
        _ => vec![ins(Load, &[r(wb, d.b), r(PTR, d.a)], w, off(w as i32 / 8)), ins(Store, &[r(PTR, d.a), r(wb, d.c)], w, off(w as i32 / 8))],
    }
}

/// The whole program, loops included, without the final Ret.
pub fn assemble(p: &Prog, data: u32) -> Vec<Ins> {
    let mut v = prologue(p, data);
    let mut i = 0;
    let mut loops = 0u8;
    while i < p.body.len() {
        let d = &p.body[i];
        // a loop over the next few elements
        if d.kind >= 240 && loops < 3 {
            let c = CNT + loops;
            loops += 1;
            let n = 1 + d.a as usize % 5;
            v.push(ins(LoadI, &[c], 8, 2 + d.b as u32 % 3));
            v.push(ins(LoadI, &[CNT + 4], 8, 1));
            let start = v.len();
            for e in p.body[i + 1..].iter().take(n) {
                if e.kind < 240 {
                    v.extend(expand(e));
                }
            }
            i += n.min(p.body.len() - i - 1);
            v.push(ins(Sub, &[c, c, CNT + 4], 0, 0));
            let back = (v.len() - start) as i32 * 8;
            v.push(ins(BranchNonZero, &[c], 0, (-back) as u32));
        } else {
            v.extend(expand(d));
        }
        i += 1;
    }
    v
}

/// The data area's initial bytes.
pub fn data(p: &Prog) -> Vec<C> {
    let mut out = vec![];
    for j in 0..PLAY / 2 {
        let h = mix(p.seed, 3000 + j as u64);
        // pairs share their kind; the second half is encrypted
        let enc = p.enc > 0 && (j >= 16 || h % 8 < p.enc as u64);
        for k in 0..2 {
            let b = (h >> (8 + 8 * k)) as u8;
            out.push(if enc { C::E(b % 16) } else { C::P(b) });
        }
    }
    out.resize(MIXED as usize, C::P(0));
    for j in 0..32 {
        out.push(if (j % 2 == 0) == (j < 16) { C::P(j) } else { C::E(j) });
    }
    out.resize(ENC_CODE as usize, C::P(0));
    for j in 0..16 {
        out.push(C::E(j));
    }
    out
}

pub fn load_machine(m: &mut Machine, rig: &Rig, code: &[u64], cells: &[C]) {
    m.mem.clear();
    for (i, w) in code.iter().enumerate() {
        m.put(rig.code + 8 * i as u32, plain(*w as u128, 64));
    }
    for (i, c) in cells.iter().enumerate() {
        let b = match c {
            C::P(v) => B { enc: false, val: *v },
            C::E(i) => B { enc: true, val: crate::u_mem::pool_val(*i as usize % 16) },
        };
        m.mem.insert(rig.data + i as u32, b);
    }
}
/// Put code and data into the real memory; the rest of both areas is zeroed.
pub fn load_rig(rig: &Rig, code: &[u64], cells: &[C]) {
    let mut b: Vec<parasol_cpu::Byte> = code.iter().flat_map(|w| w.to_le_bytes()).map(|x| x.into()).collect();
    b.resize(CODE_BYTES as usize, 0.into());
    rig.mem.try_write_type_dyn(parasol_cpu::Ptr32::from(rig.code), &DynRaw { align: 1, bytes: b }).unwrap();
    let mut b: Vec<parasol_cpu::Byte> = cells.iter().map(|c| c.real()).collect();
    b.resize(DATA_BYTES as usize, 0.into());
    rig.mem.try_write_type_dyn(parasol_cpu::Ptr32::from(rig.data), &DynRaw { align: 1, bytes: b }).unwrap();
}

/// Replace what faults by a move until nothing does. `None` if the program is too long.
pub fn patch(p: &mut [Ins], rig: &Rig, cells: &[C]) -> Option<(Machine, usize)> {
    let mut patched = 0;
    for _ in 0..200 {
        let mut m = rig.machine();
        let w: Vec<u64> = p.iter().map(|i| i.word().0).collect();
        load_machine(&mut m, rig, &w, cells);
        match m.run(3000)? {
            Ok(()) => return Some((m, patched)),
            Err(_) => {
                let at = (m.pc - rig.code) as usize / 8;
                if at >= p.len() {
                    return None;
                }
                p[at] = ins(Move, &[60, 60], 0, 0);
                patched += 1;
            }
        }
    }
    None
}
