//! The machine executed one instruction at a time over clear values that remember whether they
//! are encrypted.
use crate::isa::*;
use parasol_cpu::Error;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

/// A register: its value, width in bits, and whether it is encrypted.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct V {
    pub enc: bool,
    pub val: u128,
    pub w: u32,
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1 << w) - 1
    }
}
pub fn plain(val: u128, w: u32) -> V {
    V { enc: false, val: val & mask(w), w }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum F {
    WidthMismatch,
    UnsupportedWidth,
    OutOfRange,
    IllegalOperands,
    Unaligned,
    Access,
    PtrOverflow,
    NotPlain,
    NotCipher,
    BranchEnc,
    Illegal,
    EncByte,
    OutOfGas,
    Other,
}
pub fn class(e: &Error) -> F {
    match e {
        Error::WidthMismatch { .. } => F::WidthMismatch,
        Error::UnsupportedWidth { .. } => F::UnsupportedWidth,
        Error::OutOfRange { .. } => F::OutOfRange,
        Error::IllegalOperands { .. } => F::IllegalOperands,
        Error::UnalignedAccess(_) => F::Unaligned,
        Error::AccessViolation(_) => F::Access,
        Error::PointerOverflow => F::PtrOverflow,
        Error::BufferNotAPlaintext => F::NotPlain,
        Error::BufferNotACiphertext => F::NotCipher,
        Error::BranchConditionNotPlaintext => F::BranchEnc,
        Error::IllegalInstruction(_) => F::Illegal,
        Error::UnexpectedEncryptedByte(_) => F::EncByte,
        Error::OutOfGas(..) => F::OutOfGas,
        _ => F::Other,
    }
}

fn sx(v: V) -> i128 {
    let s = 128 - v.w;
    ((v.val << s) as i128) >> s
}

/// What an instruction that touches only registers leaves in its destinations. The second part
/// says whether reporting an unsupported combination would be as good.
pub fn alu(op: O, s: &[V], width: u32, imm: u32) -> Result<(Vec<V>, bool), F> {
    use O::*;
    let enc = s.iter().any(|v| v.enc);
    let v = |val: u128, w: u32| V { enc, val: val & mask(w), w };
    let same = |a: V, b: V| if a.w == b.w { Ok(()) } else { Err(F::WidthMismatch) };
    let mut either = false;
    let out = match op {
        LoadI => {
            let signed_ok = width < 32 && (imm as i32) < 0 && (imm as i32) >= -(1i64 << (width - 1)) as i32;
            if (imm as u128) <= mask(width) || signed_ok {
                vec![plain(imm as u128, width)]
            } else {
                return Err(F::OutOfRange);
            }
        }
        Trunc if width > s[0].w => return Err(F::WidthMismatch),
        Zext | Sext if width < s[0].w => return Err(F::WidthMismatch),
        Trunc | Zext => vec![v(s[0].val, width)],
        Sext => vec![v(sx(s[0]) as u128, width)],
        Move => vec![s[0]],
        Not => vec![v(!s[0].val, s[0].w)],
        Neg => vec![v(s[0].val.wrapping_neg(), s[0].w)],
        And | Or | Xor | Add | Sub | Mul => {
            same(s[0], s[1])?;
            let (a, b) = (s[0].val, s[1].val);
            let r = match op {
                And => a & b,
                Or => a | b,
                Xor => a ^ b,
                Add => a.wrapping_add(b),
                Sub => a.wrapping_sub(b),
                _ => a.wrapping_mul(b),
            };
            vec![v(r, s[0].w)]
        }
        AddC => {
            same(s[0], s[1])?;
            if s[2].w != 1 {
                return Err(F::WidthMismatch);
            }
            let (x, c1) = s[0].val.overflowing_add(s[1].val);
            let (x, c2) = x.overflowing_add(s[2].val);
            let w = s[0].w;
            let c = if w == 128 { (c1 || c2) as u128 } else { x >> w & 1 };
            vec![v(x, w), v(c, 1)]
        }
        SubB => {
            same(s[0], s[1])?;
            if s[2].w != 1 {
                return Err(F::WidthMismatch);
            }
            let (x, c1) = s[0].val.overflowing_sub(s[1].val);
            let (x, c2) = x.overflowing_sub(s[2].val);
            vec![v(x, s[0].w), v((c1 || c2) as u128, 1)]
        }
        CmpEq | CmpGt | CmpGe | CmpLt | CmpLe | CmpGtS | CmpGeS | CmpLtS | CmpLeS => {
            same(s[0], s[1])?;
            let (a, b) = (s[0].val, s[1].val);
            let (x, y) = (sx(s[0]), sx(s[1]));
            let r = match op {
                CmpEq => a == b,
                CmpGt => a > b,
                CmpGe => a >= b,
                CmpLt => a < b,
                CmpLe => a <= b,
                CmpGtS => x > y,
                CmpGeS => x >= y,
                CmpLtS => x < y,
                _ => x <= y,
            };
            vec![v(r as u128, 1)]
        }
        Shl | Shr | Shra | Rotl | Rotr => {
            let (a, w) = (s[0].val, s[0].w);
            let n = s[1].val;
            let big = n >= w as u128;
            // rotating by an encrypted amount modulo such a width is not supported
            either = s[1].enc && matches!(op, Rotl | Rotr) && !w.is_power_of_two();
            let k = (n % w as u128) as u32;
            let rotl = |k: u32| if k == 0 { a } else { a << k | a >> (w - k) };
            let r = match op {
                Shl => if big { 0 } else { a << n },
                Shr => if big { 0 } else { a >> n },
                Shra => (sx(s[0]) >> if big { w - 1 } else { n as u32 }) as u128,
                Rotl => rotl(k),
                _ => rotl((w - k) % w),
            };
            vec![v(r, w)]
        }
        Cmux => {
            same(s[1], s[2])?;
            if s[0].w != 1 {
                return Err(F::WidthMismatch);
            }
            vec![v(if s[0].val == 1 { s[1].val } else { s[2].val }, s[1].w)]
        }
        _ => vec![],
    };
    Ok((out, either))
}

/// Gas of an instruction, from the kinds of its sources.
pub fn gas(op: O, s: &[V]) -> u64 {
    use O::*;
    let any = s.iter().any(|v| v.enc);
    match op {
        Load | LoadI | Store | BranchNonZero | BranchZero | Branch | Move | Dbg | Sext | Zext | Trunc => 1,
        Ret => 0,
        Shr | Shra | Shl | Rotr | Rotl => {
            if s[1].enc {
                100_000
            } else {
                1
            }
        }
        Mul if any => 500_000,
        _ if any => 100_000,
        _ => 1,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct B {
    pub enc: bool,
    pub val: u8,
}

#[derive(Clone)]
pub struct Machine {
    pub regs: Vec<V>,
    pub mem: HashMap<u32, B>,
    /// mapped ranges [start, end)
    pub mapped: Vec<(u64, u64)>,
    pub pc: u32,
    pub gas: u64,
    pub steps: u64,
    pub dbg: Vec<(u32, V)>,
}
pub enum Step {
    Next,
    Halt,
}

impl Machine {
    pub fn new(mapped: Vec<(u64, u64)>, pc: u32) -> Self {
        Machine { regs: vec![plain(0, 32); 64], mem: HashMap::new(), mapped, pc, gas: 0, steps: 0, dbg: vec![] }
    }
    pub fn is_mapped(&self, a: u32) -> bool {
        self.mapped.iter().any(|&(s, e)| s <= a as u64 && (a as u64) < e)
    }
    pub fn byte(&self, a: u32) -> Result<B, F> {
        if !self.is_mapped(a) {
            return Err(F::Access);
        }
        Ok(self.mem.get(&a).copied().unwrap_or(B { enc: false, val: 0 }))
    }
    pub fn put(&mut self, a: u32, v: V) {
        for i in 0..v.w / 8 {
            self.mem.insert(a + i, B { enc: v.enc, val: (v.val >> (8 * i)) as u8 });
        }
    }
    fn addr(&self, base: V, width: u32, off: u32) -> Result<u32, F> {
        if base.enc {
            return Err(F::IllegalOperands);
        }
        let a = (base.val as u32).checked_add_signed(off as i32).ok_or(F::PtrOverflow)?;
        let n = width / 8;
        if !matches!(width, 8 | 16 | 32 | 64 | 128) || a % n != 0 {
            return Err(F::Unaligned);
        }
        Ok(a)
    }
    pub fn fetch(&self) -> Result<Ins, F> {
        if self.pc % 8 != 0 {
            return Err(F::Unaligned);
        }
        let mut w = 0u64;
        for i in 0..8 {
            let b = self.byte(self.pc + i)?;
            if b.enc {
                return Err(F::EncByte);
            }
            w |= (b.val as u64) << (8 * i);
        }
        Ins::of_word(w).ok_or(F::Illegal)
    }
    pub fn step(&mut self) -> Result<Step, F> {
        let i = self.fetch()?;
        self.exec(&i)
    }
    pub fn exec(&mut self, i: &Ins) -> Result<Step, F> {
        use O::*;
        let s: Vec<V> = i.srcs().iter().map(|&r| self.regs[r as usize]).collect();
        self.gas += gas(i.op, &s);
        self.steps += 1;
        let mut next = self.pc.wrapping_add(8);
        match i.op {
            Load => {
                let a = self.addr(s[0], i.width, i.imm)?;
                let first = self.byte(a)?;
                let mut val = 0u128;
                for k in 0..i.width / 8 {
                    let b = self.byte(a + k)?;
                    if b.enc != first.enc {
                        return Err(if first.enc { F::NotCipher } else { F::NotPlain });
                    }
                    val |= (b.val as u128) << (8 * k);
                }
                self.regs[i.r[0] as usize] = V { enc: first.enc, val, w: i.width };
            }
            Store => {
                let a = self.addr(s[0], i.width, i.imm)?;
                if !self.is_mapped(a) {
                    return Err(F::Access);
                }
                self.put(a, V { w: i.width, ..s[1] });
            }
            BranchNonZero | BranchZero => {
                if s[0].enc {
                    return Err(F::BranchEnc);
                }
                if (s[0].val != 0) == (i.op == BranchNonZero) {
                    next = self.pc.wrapping_add(i.imm);
                }
            }
            Branch => next = self.pc.wrapping_add(i.imm),
            Ret => return Ok(Step::Halt),
            Dbg => self.dbg.push((i.imm, s[0])),
            _ => {
                let (d, _) = alu(i.op, &s, i.width, i.imm)?;
                for (r, v) in i.dsts().iter().zip(d) {
                    self.regs[*r as usize] = v;
                }
            }
        }
        self.pc = next;
        Ok(Step::Next)
    }
    /// Run to Ret; an error is the fault of the first faulting instruction, `None` after `limit`
    /// steps.
    pub fn run(&mut self, limit: u64) -> Option<Result<(), F>> {
        loop {
            if self.steps >= limit {
                return None;
            }
            match self.step() {
                Ok(Step::Next) => {}
                Ok(Step::Halt) => return Some(Ok(())),
                Err(f) => return Some(Err(f)),
            }
        }
    }
}
