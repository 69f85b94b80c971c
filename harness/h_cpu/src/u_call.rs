//! U04: calls with generated signatures, several on one memory.
use crate::elf::*;
use crate::isa::{O::*, *};
use crate::model::class;
use crate::model::F;
use crate::rig::*;
use crate::u_mem::*;
use parasol_cpu::{Arg, ArgsBuilder, Byte, CallData, Memory, MemoryConfigBuilder, Ptr32, ToArg};
use parasol_runtime::fluent::{DynamicInt, DynamicUInt, Int, UInt};
use parasol_runtime::L1GlweCiphertext;
use serde::{Deserialize, Serialize};
use std::result::Result;
use std::sync::Arc;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct A {
    kind: u8,
    seed: u32,
    /// length and alignment of an argument of arbitrary bytes
    len: u16,
    align: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Call {
    args: Vec<A>,
    ret: A,
    /// what the program does besides: bit 0 leaves the return value unwritten, bit 1 returns the
    /// other kind of bytes, bit 2 clobbers the stack pointer, bit 3 writes below it
    twist: u8,
    regs: Vec<u8>,
    /// the program faults at the end
    fault: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    stack_page: u32,
    stack_pages: u32,
    pushed: u8,
    push_align: u8,
    calls: Vec<Call>,
}

fn hash(seed: u32, j: usize) -> u8 {
    let x = (seed as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((j as u64).wrapping_mul(0xD1B5_4A32_D192_ED03));
    ((x ^ x >> 29).wrapping_mul(0xBF58_476D_1CE4_E5B9) >> 56) as u8
}
fn p_cell(seed: u32, j: usize) -> C {
    C::P(hash(seed, j))
}
fn e_cell(seed: u32, j: usize) -> C {
    C::E(hash(seed, j) % 16)
}
fn reals(c: &[C]) -> Vec<Byte> {
    c.iter().map(|c| c.real()).collect()
}
fn bits(c: &[C]) -> Vec<Bit> {
    c.iter().flat_map(|c| c.real().unwrap_ciphertext()).collect()
}
fn clear(c: &[C]) -> u128 {
    c.iter().take(16).enumerate().fold(0, |s, (i, c)| {
        s | (match c {
            C::P(v) => *v,
            C::E(i) => pool_val(*i as usize % 16),
        } as u128)
            << (8 * i)
    })
}

const KINDS: u8 = 33;

/// A value of kind `a.kind`: its alignment, its bytes (`None`: padding), and how to pass it.
/// The callback receives the value.
trait Visit {
    type Out;
    fn stat<T: ToArg + Send + 'static>(self, v: T, align: usize, cells: Vec<Option<C>>, show: fn(&T) -> Vec<(bool, u8)>) -> Self::Out;
    fn dynamic<T: parasol_cpu::DynamicToArg>(self, v: T, align: usize, cells: Vec<Option<C>>) -> Self::Out;
}

type Seen = Vec<(bool, u8)>;
fn seen_int<const N: usize>(v: [u8; N]) -> Seen {
    v.iter().map(|b| (false, *b)).collect()
}
fn seen_bits(b: &[Bit]) -> Seen {
    b.chunks(8).map(|c| (true, dec_bits(c) as u8)).collect()
}
fn seen_raw(b: &[Byte]) -> Seen {
    b.iter()
        .map(|b| {
            let v = byte_val(b);
            (v.enc, v.val)
        })
        .collect()
}

fn value<V: Visit>(a: &A, dynamics: bool, v: V) -> V::Out {
    let s = a.seed;
    let pc = |n: usize| (0..n).map(|j| p_cell(s, j)).collect::<Vec<_>>();
    let ec = |n: usize| (0..n).map(|j| e_cell(s, j)).collect::<Vec<_>>();
    let all = |c: &[C]| c.iter().map(|c| Some(*c)).collect::<Vec<_>>();
    macro_rules! int {
        ($t:ty) => {{
            let n = std::mem::size_of::<$t>();
            let c = pc(n);
            v.stat(clear(&c) as $t, n, all(&c), |x| seen_int(x.to_le_bytes()))
        }};
    }
    macro_rules! enc {
        ($t:ident, $n:literal) => {{
            let c = ec($n / 8);
            v.stat($t::<$n, L1GlweCiphertext>::from_bits_shallow(bits(&c)), $n / 8, all(&c), |x| seen_bits(&x.bits))
        }};
    }
    let kind = match a.kind % KINDS {
        k @ (21 | 22 | 29) if !dynamics => k - 10,
        k => k,
    };
    match kind {
        0 => int!(u8),
        1 => int!(u16),
        2 => int!(u32),
        3 => int!(u64),
        4 => int!(u128),
        5 => int!(i8),
        6 => int!(i16),
        7 => int!(i32),
        8 => int!(i64),
        9 => int!(i128),
        10 => {
            let c = pc(4);
            v.stat(Ptr32::from(clear(&c) as u32), 4, all(&c), |x| seen_int(u32::from(*x).to_le_bytes()))
        }
        11 => enc!(UInt, 8),
        12 => enc!(UInt, 16),
        13 => enc!(UInt, 32),
        14 => enc!(UInt, 64),
        15 => enc!(UInt, 128),
        16 => enc!(Int, 8),
        17 => enc!(Int, 16),
        18 => enc!(Int, 32),
        19 => enc!(Int, 64),
        20 => enc!(Int, 128),
        21 => {
            let n = 1 << (s % 5);
            let c = ec(n);
            v.dynamic(DynamicUInt::<L1GlweCiphertext>::from_bits_shallow(bits(&c)), n, all(&c))
        }
        22 => {
            let n = 1 << (s % 5);
            let c = ec(n);
            v.dynamic(DynamicInt::<L1GlweCiphertext>::from_bits_shallow(bits(&c)), n, all(&c))
        }
        23 => {
            let c = pc(6);
            v.stat(std::array::from_fn::<u16, 3, _>(|i| clear(&c[2 * i..2 * i + 2]) as u16), 2, all(&c), |x| x.iter().flat_map(|y| seen_int(y.to_le_bytes())).collect())
        }
        24 => {
            let c = ec(4);
            v.stat(
                std::array::from_fn::<_, 2, _>(|i| UInt::<16, L1GlweCiphertext>::from_bits_shallow(bits(&c[2 * i..2 * i + 2]))),
                2,
                all(&c),
                |x| x.iter().flat_map(|y| seen_bits(&y.bits)).collect(),
            )
        }
        25 => {
            // elements of five bytes aligned to four
            let c: Vec<C> = (0..15).map(|j| if s >> (j % 16) & 1 == 1 { e_cell(s, j) } else { p_cell(s, j) }).collect();
            let cells = c.chunks(5).flat_map(|c| c.iter().map(|c| Some(*c)).chain([None; 3])).collect();
            v.stat(std::array::from_fn::<_, 3, _>(|i| Raw::<5, 4>(reals(&c[5 * i..5 * i + 5]))), 4, cells, |x| {
                x.iter().flat_map(|y| seen_raw(&y.0).into_iter().chain([(false, 0); 3])).collect()
            })
        }
        26 => {
            let c = pc(3);
            v.stat(Raw::<3, 1>(reals(&c)), 1, all(&c), |x| seen_raw(&x.0))
        }
        27 => {
            let c = ec(24);
            v.stat(Raw::<24, 32>(reals(&c)), 32, all(&c), |x| seen_raw(&x.0))
        }
        28 => v.stat((), 1, vec![], |_| vec![]),
        29 => {
            let c: Vec<C> = (0..a.len as usize).map(|j| if s & 3 == 0 && hash(s, j) & 1 == 1 { e_cell(s, j) } else { p_cell(s, j) }).collect();
            v.dynamic(DynRaw { align: 1 << a.align, bytes: reals(&c) }, 1 << a.align, all(&c))
        }
        30 => enc!(UInt, 256),
        31 => {
            let c = pc(6);
            v.stat(std::array::from_fn::<[u8; 3], 2, _>(|i| std::array::from_fn(|j| clear(&c[3 * i + j..3 * i + j + 1]) as u8)), 1, all(&c), |x| {
                x.iter().flatten().map(|b| (false, *b)).collect()
            })
        }
        _ => v.stat::<[u8; 0]>([], 1, vec![], |_| vec![]),
    }
}

struct AddArg(ArgsBuilder);
impl Visit for AddArg {
    type Out = (ArgsBuilder, usize, Vec<Option<C>>);
    fn stat<T: ToArg + Send + 'static>(self, v: T, align: usize, cells: Vec<Option<C>>, _: fn(&T) -> Seen) -> Self::Out {
        (self.0.arg(v), align, cells)
    }
    fn dynamic<T: parasol_cpu::DynamicToArg>(self, v: T, align: usize, cells: Vec<Option<C>>) -> Self::Out {
        (self.0.arg_dyn(v), align, cells)
    }
}
/// The layout of the return value, without running anything.
struct Layout;
impl Visit for Layout {
    type Out = (usize, Vec<Option<C>>, usize);
    fn stat<T: ToArg + Send + 'static>(self, _: T, align: usize, cells: Vec<Option<C>>, _: fn(&T) -> Seen) -> Self::Out {
        (align, cells, T::size())
    }
    fn dynamic<T: parasol_cpu::DynamicToArg>(self, _: T, _: usize, _: Vec<Option<C>>) -> Self::Out {
        unreachable!()
    }
}
/// Make the call and show the value that came back.
struct Go<'a> {
    rig: &'a mut Rig,
    mem: Arc<Memory>,
    pc: u32,
    args: ArgsBuilder,
    total: usize,
}
type Went = Result<(parasol_cpu::Result<Seen>, Vec<(u32, Cap)>), Fail>;
impl Visit for Go<'_> {
    type Out = Went;
    fn stat<T: ToArg + Send + 'static>(self, _: T, _: usize, _: Vec<Option<C>>, show: fn(&T) -> Seen) -> Went {
        let data: CallData<T> = self.args.return_value::<T>();
        let size = data.alloc_size();
        ensure!(size >= self.total && size % 16 == 0, "alloc-size", "{size} for {} bytes", self.total);
        let ran = self.rig.run_on(self.mem, self.pc, data, None)?;
        Ok((ran.result.map(|(_, v)| show(&v)), ran.dbg))
    }
    fn dynamic<T: parasol_cpu::DynamicToArg>(self, _: T, _: usize, _: Vec<Option<C>>) -> Went {
        unreachable!()
    }
}

const AREA: u32 = 8 * 4096;

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let start = c.stack_page * 4096;
    let size = c.stack_pages * 4096;
    let cfg = MemoryConfigBuilder::new().stack_top(Ptr32::from(start)).stack_size(size).build();
    let img = Image::plain(vec![Seg { load: false, vaddr: 0, memsz: 1, file: vec![0] }]).bytes();
    let m = Arc::new(Memory::new_from_elf_with_config(&img, &cfg).map_err(|e| Fail { sig: "memory".into(), msg: format!("{e}") })?);
    // seen bytes, seen words, bytes to return
    let area = u32::from(m.try_allocate(3 * AREA).unwrap());
    // what the host put on the stack before
    let host: Vec<C> = (0..c.pushed as usize).map(|j| if j % 3 == 1 { e_cell(7, j) } else { p_cell(7, j) }).collect();
    if !host.is_empty() {
        m.try_push_arg_onto_stack(&Arg { alignment: 1 << c.push_align, bytes: reals(&host) }).map_err(|e| Fail { sig: "push".into(), msg: format!("{e}") })?;
    }
    let sp0 = u32::from(m.stack_ptr());
    with_rig(2, |rig| {
        for (k, call) in c.calls.iter().enumerate() {
            one(rig, &m, area, sp0, start, call, cov).map_err(|f| Fail { sig: f.sig, msg: format!("call {k}: {}", f.msg) })?;
            ensure_eq!(u32::from(m.stack_ptr()), sp0, "stack-not-restored", "after call {k}");
            for (i, h) in host.iter().enumerate() {
                let b = peek(&m, sp0 + i as u32).unwrap();
                ensure!(h.is(&b), "caller-stack-overwritten", "byte {i} after call {k}");
            }
            cov.label_if(k > 0, "second call");
        }
        Ok(())
    })
}

fn one(rig: &mut Rig, m: &Arc<Memory>, area: u32, sp0: u32, start: u32, call: &Call, cov: &Cover) -> Result<(), Fail> {
    let mut b = ArgsBuilder::new();
    let mut at = 0usize;
    let mut max = 16;
    let mut slots = vec![];
    for a in &call.args {
        let (nb, align, cells) = value(a, true, AddArg(b));
        b = nb;
        at = at.next_multiple_of(align);
        max = max.max(align);
        slots.push((at, align, cells.clone()));
        at += cells.len();
    }
    let (ralign, rcells, rsize) = value(&call.ret, false, Layout);
    ensure_eq!(rsize, rcells.len(), "type-size", "kind {}", call.ret.kind);
    let mut ret_off = 0;
    if rsize > 0 {
        at = at.next_multiple_of(ralign);
        max = max.max(ralign);
        ret_off = at;
        at += rsize;
    }
    let total = at;
    // the program
    let mut p = vec![ins(Dbg, &[2], 0, 0), ins(Dbg, &[10], 0, 0)];
    for r in &call.regs {
        p.push(ins(Dbg, &[*r], 0, 0));
    }
    p.push(ins(LoadI, &[5], 32, area));
    p.push(ins(LoadI, &[6], 32, area + AREA));
    p.push(ins(LoadI, &[7], 32, area + 2 * AREA));
    let mut n = 0u8;
    let mut copy = |p: &mut Vec<Ins>, dst: u8, doff: usize, src: u8, soff: usize, w: u32| {
        let t = 20 + n % 30;
        n = n.wrapping_add(1);
        p.push(ins(Load, &[t, src], w, soff as u32));
        p.push(ins(Store, &[dst, t], w, doff as u32));
    };
    let fits = sp0 as i64 - total.next_multiple_of(16) as i64;
    let fits = fits.div_euclid(max as i64) * max as i64 >= start as i64;
    let never = (sp0 as i64) - (total as i64) < start as i64;
    if fits {
        for (off, align, cells) in &slots {
            for j in 0..cells.len() {
                copy(&mut p, 5, off + j, 2, off + j, 8);
            }
            let n = cells.len();
            let same = cells.iter().all(|c| matches!(c, Some(C::P(_)))) || cells.iter().all(|c| matches!(c, Some(C::E(_))));
            if same && matches!(n, 2 | 4 | 8 | 16) && *align % n == 0 {
                copy(&mut p, 6, *off, 2, *off, 8 * n as u32);
            }
        }
    }
    let (unwritten, other) = (call.twist & 1 == 1, call.twist & 2 == 2);
    let sent: Vec<C> = rcells
        .iter()
        .enumerate()
        .map(|(j, c)| match c {
            Some(C::P(v)) if other => C::E(v % 16),
            Some(C::E(i)) if other => C::P(*i),
            Some(c) => *c,
            None => C::P(j as u8),
        })
        .collect();
    for (j, s) in sent.iter().enumerate() {
        poke(m, area + 2 * AREA + j as u32, s.real()).unwrap();
    }
    if !unwritten {
        let same = sent.iter().all(|c| matches!(c, C::P(_))) || sent.iter().all(|c| matches!(c, C::E(_)));
        if same && call.ret.seed & 1 == 1 && matches!(rsize, 1 | 2 | 4 | 8 | 16) && ralign % rsize == 0 {
            copy(&mut p, 10, 0, 7, 0, 8 * rsize as u32);
        } else {
            for j in 0..rsize {
                copy(&mut p, 10, j, 7, j, 8);
            }
        }
    }
    if call.twist & 8 == 8 && fits && sp0 - total as u32 > start + 4096 {
        p.push(ins(Store, &[2, 5], 32, (-16i32) as u32));
    }
    if call.twist & 4 == 4 {
        p.push(ins(LoadI, &[2], 32, 12345));
        p.push(ins(LoadI, &[10], 32, 77));
    }
    if call.fault {
        p.push(ins(LoadI, &[9], 8, 3));
        p.push(ins(Add, &[9, 9, 5], 0, 0));
    }
    p.push(ins(Ret, &[], 0, 0));
    let code: Vec<_> = p.iter().map(|i| i.isa()).collect();
    let pc = u32::from(m.allocate_program(&code));
    let wrote: Vec<C> = if unwritten { vec![C::P(0); rsize] } else { sent };
    let (result, dbg) = value(&call.ret, false, Go { rig, mem: m.clone(), pc, args: b, total })?;
    cov.label_if(call.args.len() > 3, "more than three arguments");
    if !fits {
        return match result {
            Err(e) => {
                let f = class(&e);
                ensure!(matches!(f, F::Access | F::PtrOverflow), "wrong-error", "stack overflow: {e}");
                cov.label("stack overflow");
                Ok(())
            }
            Ok(_) if !never => Ok(()),
            Ok(_) => fail("stack-overflow-accepted", format!("{total} bytes below {sp0:#x}, the stack starts at {start:#x}")),
        };
    }
    // entry state
    let mut caps = dbg.into_iter();
    let mut reg = || -> Result<_, Fail> {
        match caps.next() {
            Some((_, c)) => c.value(),
            None => fail("debug-count", match &result { Err(e) => format!("{e}"), Ok(_) => "missing".into() }),
        }
    };
    let sp = reg()?;
    let rp = reg()?;
    ensure!(!sp.enc && sp.w == 32 && !rp.enc && rp.w == 32, "entry-register", "{sp:?} {rp:?}");
    let (spv, rpv) = (sp.val as u32, rp.val as u32);
    ensure!(spv % 16 == 0, "stack-unaligned", "{spv:#x}");
    ensure!(spv >= start && spv as u64 + total as u64 <= sp0 as u64, "frame-outside", "{spv:#x}+{total} of {start:#x}..{sp0:#x}");
    if rsize > 0 {
        ensure!(rpv % ralign as u32 == 0, "return-pointer-unaligned", "{rpv:#x}");
        ensure_eq!(rpv as i64 - spv as i64, ret_off as i64, "return-slot", "");
    }
    for r in &call.regs {
        let v = reg()?;
        let want = match r {
            2 => spv,
            10 => rpv,
            _ => 0,
        };
        ensure!(!v.enc && v.w == 32 && v.val == want as u128, "entry-register", "register {r}: {v:?}");
    }
    let faulted = call.fault;
    match (&result, faulted) {
        (Err(e), true) => {
            ensure_eq!(class(e), F::WidthMismatch, "wrong-error", "{e}");
            cov.label("faulting call");
            return Ok(());
        }
        (Ok(_), true) => return fail("fault-lost", "the program faulted but the call succeeded"),
        _ => {}
    }
    // what the program saw
    for (k, (off, align, cells)) in slots.iter().enumerate() {
        ensure!((spv as usize + off) % align == 0, "argument-unaligned", "argument {k} at {:#x} for {align}", spv as usize + off);
        for (j, c) in cells.iter().enumerate() {
            let Some(c) = c else { continue };
            let a = area + (off + j) as u32;
            let b = peek(m, a).unwrap();
            ensure!(c.is(&b), "argument-value", "argument {k} byte {j}: expected {c:?}, {:?}", byte_val(&b));
            cov.comparisons(1);
        }
        let n = cells.len();
        let same = cells.iter().all(|c| matches!(c, Some(C::P(_)))) || cells.iter().all(|c| matches!(c, Some(C::E(_))));
        if same && matches!(n, 2 | 4 | 8 | 16) && align % n == 0 {
            for (j, c) in cells.iter().enumerate() {
                let b = peek(m, area + AREA + (off + j) as u32).unwrap();
                ensure!(c.unwrap().is(&b), "argument-word", "argument {k} byte {j}");
            }
        }
    }
    // what came back
    let kinds_ok = rcells.iter().zip(&wrote).all(|(r, w)| match (r, w) {
        (Some(C::P(_)), C::E(_)) | (Some(C::E(_)), C::P(_)) => rsize == 0,
        _ => true,
    });
    let raw = matches!(call.ret.kind % KINDS, 25 | 26 | 27);
    match result {
        Ok(v) => {
            ensure!(kinds_ok || raw, "kind-confused", "kind {} accepted bytes of the other kind", call.ret.kind);
            ensure_eq!(v.len(), rsize, "return-length", "");
            for (j, (got, w)) in v.iter().zip(&wrote).enumerate() {
                if rcells[j].is_none() {
                    continue;
                }
                let want = match w {
                    C::P(x) => (false, *x),
                    C::E(i) => (true, pool_val(*i as usize % 16)),
                };
                ensure_eq!(*got, want, "return-value", "byte {j} of kind {}", call.ret.kind);
                cov.comparisons(1);
            }
            cov.label_if(rsize > 0, "value returned");
            cov.nontrivial_if(!slots.is_empty() || rsize > 0);
        }
        Err(e) => {
            ensure!(!kinds_ok && !raw, "refused", "kind {}: {e}", call.ret.kind);
            ensure!(matches!(e, parasol_cpu::Error::EncryptionMismatch), "wrong-error", "{e}");
            cov.label("other kind returned");
        }
    }
    Ok(())
}

fn strategy() -> impl Strategy<Value = Case> {
    let a = (0u8..KINDS, any::<u32>(), prop_oneof![12 => 1u16..100, 1 => 1u16..3000, 1 => 3000u16..9000], prop_oneof![8 => 0u8..6, 1 => 6u8..13]).prop_map(|(kind, seed, len, align)| A { kind, seed, len, align });
    let twist = prop_oneof![6 => Just(0u8), 1 => Just(1), 1 => Just(2), 1 => Just(4), 1 => Just(8), 1 => Just(12)];
    let call = (prop::collection::vec(a.clone(), 0..9), a, twist, prop::collection::vec(1u8..64, 0..4), prop::bool::weighted(0.07)).prop_map(|(args, ret, twist, regs, fault)| Call { args, ret, twist, regs, fault });
    (
        prop_oneof![2 => Just(0x8_0000u32), 1 => Just(0xF_FFF8u32), 1 => 0x1000u32..0xF_0000],
        prop_oneof![1 => Just(1u32), 3 => 1u32..7],
        prop_oneof![2 => Just(0u8), 1 => 1u8..120],
        0u8..7,
        prop::collection::vec(call, 1..4),
    )
        .prop_map(|(stack_page, stack_pages, pushed, push_align, calls)| Case { stack_page, stack_pages, pushed, push_align, calls })
}

pub fn check() -> Check {
    Check {
        id: "U04",
        assumptions: vec![
            "zero-sized arguments have alignment one",
            "how far below the caller's stack pointer the frame lies is not checked beyond alignment and room",
            "calls on one memory are made one after another",
        ],
        subs: vec![sub("calls", 2000, 40_000, "arguments or a return value were passed and compared", strategy(), check_case)],
    }
}
