//! The instruction set as data: operand counts, opcodes and bit layout, written down separately
//! from the macro that implements them.
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::tomasulo::registers::RegisterName;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum O {
    Store,
    Load,
    LoadI,
    Trunc,
    Zext,
    Sext,
    Move,
    Not,
    And,
    Or,
    Xor,
    Add,
    AddC,
    Sub,
    SubB,
    Neg,
    Mul,
    Rotl,
    Rotr,
    Shl,
    Shr,
    Shra,
    CmpEq,
    CmpGt,
    CmpGtS,
    CmpGe,
    CmpGeS,
    CmpLt,
    CmpLtS,
    CmpLe,
    CmpLeS,
    BranchNonZero,
    BranchZero,
    Branch,
    Ret,
    Cmux,
    Dbg,
}
use O::*;

pub const ALL: [O; 37] = [
    Store, Load, LoadI, Trunc, Zext, Sext, Move, Not, And, Or, Xor, Add, AddC, Sub, SubB, Neg, Mul, Rotl, Rotr, Shl, Shr, Shra, CmpEq, CmpGt, CmpGtS, CmpGe, CmpGeS, CmpLt,
    CmpLtS, CmpLe, CmpLeS, BranchNonZero, BranchZero, Branch, Ret, Cmux, Dbg,
];

/// What follows the registers in the word.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tail {
    None,
    /// 7-bit width (128 stored as 0)
    Width,
    /// 7-bit width, 32-bit offset
    WidthOffset,
    /// 32-bit immediate, 7-bit width
    ImmWidth,
    /// 32-bit immediate
    Imm,
}

impl O {
    /// opcode, destination registers, source registers, tail, ignored bits after the tail
    pub fn layout(self) -> (u8, usize, usize, Tail, u32) {
        match self {
            Store => (0x01, 0, 2, Tail::WidthOffset, 0),
            Load => (0x09, 1, 1, Tail::WidthOffset, 0),
            LoadI => (0x0A, 1, 0, Tail::ImmWidth, 0),
            Trunc => (0x11, 1, 1, Tail::Width, 7),
            Zext => (0x15, 1, 1, Tail::Width, 7),
            Sext => (0x16, 1, 1, Tail::Width, 7),
            Move => (0x21, 1, 1, Tail::None, 0),
            Not => (0x31, 1, 1, Tail::None, 0),
            And => (0x32, 1, 2, Tail::None, 0),
            Or => (0x33, 1, 2, Tail::None, 0),
            Xor => (0x34, 1, 2, Tail::None, 0),
            Add => (0x41, 1, 2, Tail::None, 0),
            AddC => (0x42, 2, 3, Tail::None, 0),
            Sub => (0x45, 1, 2, Tail::None, 0),
            SubB => (0x46, 2, 3, Tail::None, 0),
            Neg => (0x49, 1, 1, Tail::None, 0),
            Mul => (0x51, 1, 2, Tail::None, 0),
            Rotl => (0x81, 1, 2, Tail::None, 0),
            Rotr => (0x82, 1, 2, Tail::None, 0),
            Shl => (0x85, 1, 2, Tail::None, 0),
            Shr => (0x86, 1, 2, Tail::None, 0),
            Shra => (0x87, 1, 2, Tail::None, 0),
            CmpEq => (0x91, 1, 2, Tail::None, 0),
            CmpGt => (0x95, 1, 2, Tail::None, 0),
            CmpGtS => (0x96, 1, 2, Tail::None, 0),
            CmpGe => (0x97, 1, 2, Tail::None, 0),
            CmpGeS => (0x98, 1, 2, Tail::None, 0),
            CmpLt => (0x99, 1, 2, Tail::None, 0),
            CmpLtS => (0x9A, 1, 2, Tail::None, 0),
            CmpLe => (0x9B, 1, 2, Tail::None, 0),
            CmpLeS => (0x9C, 1, 2, Tail::None, 0),
            BranchNonZero => (0xB1, 0, 1, Tail::Imm, 0),
            BranchZero => (0xB2, 0, 1, Tail::Imm, 0),
            Branch => (0xB5, 0, 0, Tail::Imm, 0),
            Ret => (0xBA, 0, 0, Tail::None, 44),
            Cmux => (0xC1, 1, 3, Tail::None, 0),
            Dbg => (0xF0, 0, 1, Tail::Imm, 0),
        }
    }
    pub fn dsts(self) -> usize {
        self.layout().1
    }
    pub fn srcs(self) -> usize {
        self.layout().2
    }
    pub fn regs(self) -> usize {
        self.dsts() + self.srcs()
    }
}

/// One instruction: registers in encoding order (destinations first), width, immediate or offset.
/// Fields an opcode has no use for are zero.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Ins {
    pub op: O,
    pub r: [u8; 5],
    pub width: u32,
    pub imm: u32,
}

pub fn ins(op: O, regs: &[u8], width: u32, imm: u32) -> Ins {
    assert_eq!(regs.len(), op.regs(), "{op:?}");
    let mut r = [0; 5];
    r[..regs.len()].copy_from_slice(regs);
    Ins { op, r, width, imm }
}

fn rn<T>(n: u8) -> RegisterName<T> {
    RegisterName::new(n as usize)
}

impl Ins {
    pub fn dsts(&self) -> &[u8] {
        &self.r[..self.op.dsts()]
    }
    pub fn srcs(&self) -> &[u8] {
        &self.r[self.op.dsts()..self.op.regs()]
    }
    pub fn isa(&self) -> IsaOp {
        let [a, b, c, d, e] = self.r;
        let (w, i) = (self.width, self.imm);
        match self.op {
            Store => IsaOp::Store(rn(a), rn(b), w, i as i32),
            Load => IsaOp::Load(rn(a), rn(b), w, i as i32),
            LoadI => IsaOp::LoadI(rn(a), i, w),
            Trunc => IsaOp::Trunc(rn(a), rn(b), w),
            Zext => IsaOp::Zext(rn(a), rn(b), w),
            Sext => IsaOp::Sext(rn(a), rn(b), w),
            Move => IsaOp::Move(rn(a), rn(b)),
            Not => IsaOp::Not(rn(a), rn(b)),
            And => IsaOp::And(rn(a), rn(b), rn(c)),
            Or => IsaOp::Or(rn(a), rn(b), rn(c)),
            Xor => IsaOp::Xor(rn(a), rn(b), rn(c)),
            Add => IsaOp::Add(rn(a), rn(b), rn(c)),
            AddC => IsaOp::AddC(rn(a), rn(b), rn(c), rn(d), rn(e)),
            Sub => IsaOp::Sub(rn(a), rn(b), rn(c)),
            SubB => IsaOp::SubB(rn(a), rn(b), rn(c), rn(d), rn(e)),
            Neg => IsaOp::Neg(rn(a), rn(b)),
            Mul => IsaOp::Mul(rn(a), rn(b), rn(c)),
            Rotl => IsaOp::Rotl(rn(a), rn(b), rn(c)),
            Rotr => IsaOp::Rotr(rn(a), rn(b), rn(c)),
            Shl => IsaOp::Shl(rn(a), rn(b), rn(c)),
            Shr => IsaOp::Shr(rn(a), rn(b), rn(c)),
            Shra => IsaOp::Shra(rn(a), rn(b), rn(c)),
            CmpEq => IsaOp::CmpEq(rn(a), rn(b), rn(c)),
            CmpGt => IsaOp::CmpGt(rn(a), rn(b), rn(c)),
            CmpGtS => IsaOp::CmpGtS(rn(a), rn(b), rn(c)),
            CmpGe => IsaOp::CmpGe(rn(a), rn(b), rn(c)),
            CmpGeS => IsaOp::CmpGeS(rn(a), rn(b), rn(c)),
            CmpLt => IsaOp::CmpLt(rn(a), rn(b), rn(c)),
            CmpLtS => IsaOp::CmpLtS(rn(a), rn(b), rn(c)),
            CmpLe => IsaOp::CmpLe(rn(a), rn(b), rn(c)),
            CmpLeS => IsaOp::CmpLeS(rn(a), rn(b), rn(c)),
            BranchNonZero => IsaOp::BranchNonZero(rn(a), i as i32),
            BranchZero => IsaOp::BranchZero(rn(a), i as i32),
            Branch => IsaOp::Branch(i as i32),
            Ret => IsaOp::Ret(),
            Cmux => IsaOp::Cmux(rn(a), rn(b), rn(c), rn(d)),
            Dbg => IsaOp::Dbg(rn(a), i),
        }
    }
    /// The word of this instruction and the mask of its ignored bits.
    pub fn word(&self) -> (u64, u64) {
        let (code, d, s, tail, unused) = self.op.layout();
        let mut w = code as u128;
        let mut at = 8;
        let mut put = |v: u64, n: u32| {
            w |= (v as u128) << at;
            at += n;
        };
        for i in 0..d + s {
            put(self.r[i] as u64, 6);
        }
        let width = (self.width % 128) as u64;
        match tail {
            Tail::None => {}
            Tail::Width => put(width, 7),
            Tail::WidthOffset => {
                put(width, 7);
                put(self.imm as u64, 32);
            }
            Tail::ImmWidth => {
                put(self.imm as u64, 32);
                put(width, 7);
            }
            Tail::Imm => put(self.imm as u64, 32),
        }
        (w as u64, (((1u128 << unused) - 1) << at) as u64)
    }
    /// The unique instruction whose word this is, if any (ignored bits may be anything).
    pub fn of_word(x: u64) -> Option<Ins> {
        let op = *ALL.iter().find(|o| o.layout().0 == x as u8)?;
        let (_, d, s, tail, _) = op.layout();
        let mut at = 8;
        let mut get = |n: u32| {
            let v = x >> at & ((1u64 << n) - 1);
            at += n;
            v
        };
        let mut r = [0; 5];
        for q in r.iter_mut().take(d + s) {
            *q = get(6) as u8;
        }
        let width = |v: u64| if v == 0 { 128 } else { v as u32 };
        let (mut w, mut i) = (0, 0);
        match tail {
            Tail::None => {}
            Tail::Width => w = width(get(7)),
            Tail::WidthOffset => {
                w = width(get(7));
                i = get(32) as u32;
            }
            Tail::ImmWidth => {
                i = get(32) as u32;
                w = width(get(7));
            }
            Tail::Imm => i = get(32) as u32,
        }
        let out = Ins { op, r, width: w, imm: i };
        let (word, ignored) = out.word();
        (x & !ignored == word).then_some(out)
    }
}
