//! U02: histories of memory operations against pages of bytes.
use crate::ctx::*;
use crate::elf::*;
use crate::model::F;
use crate::rig::*;
use parasol_cpu::{Allocation, Arg, Byte, Extend, Memory, MemoryConfigBuilder, Ptr32, ToArg, Word};
use parasol_runtime::fluent::{DynamicInt, DynamicUInt, Int, UInt};
use parasol_runtime::L1GlweCiphertext;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeSet, HashMap};
use std::result::Result;
use std::sync::{Arc, OnceLock};
use vkit::proptest::prelude::*;
use vkit::*;

const PAGE: u32 = 4096;
const PAGES: u32 = 1 << 20;

/// Encrypted bytes to store; `POOL[i]` encrypts `i * 37 + 11`.
pub fn pool() -> &'static Vec<Byte> {
    static P: OnceLock<Vec<Byte>> = OnceLock::new();
    P.get_or_init(|| (0..16).map(|i| Byte::try_from(enc_bits(pool_val(i) as u128, 8)).unwrap()).collect())
}
pub fn pool_val(i: usize) -> u8 {
    (i * 37 + 11) as u8
}

/// A byte as the model keeps it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum C {
    P(u8),
    E(u8),
}
impl C {
    pub fn real(self) -> Byte {
        match self {
            C::P(v) => Byte::from(v),
            C::E(i) => pool()[i as usize % 16].clone(),
        }
    }
    pub fn is(self, b: &Byte) -> bool {
        match (self, b) {
            (C::P(v), Byte::Plaintext(w)) => v == *w,
            (C::E(i), Byte::Ciphertext(c)) => {
                let own = pool()[i as usize % 16].clone().unwrap_ciphertext();
                (c.len() == 8 && c.iter().zip(&own).all(|(a, b)| Arc::ptr_eq(a, b))) || dec_bits(c) == pool_val(i as usize % 16) as u128
            }
            _ => false,
        }
    }
}

/// Where an access starts.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum At {
    /// relative to the start of an earlier allocation, segment or the stack
    Start(u8, i32),
    /// relative to its end
    End(u8, i32),
    Abs(u32),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Alloc(u32),
    AllocType(u8, Vec<C>, bool),
    /// from the current allocation object, or a new one
    Sub(bool, u32, u8),
    Write(At, Vec<C>, u8, bool),
    Read(At, u16, u8, bool),
    Range(At, u32),
    Push(Vec<C>, u8),
    Int(At, u8, u128),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// `None`: the default stack; otherwise stack start, size and segments of an ELF image
    elf: Option<(u32, u32, Vec<Seg>)>,
    ops: Vec<Op>,
}

fn bytes(n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<C>> {
    (prop::collection::vec((any::<u8>(), any::<bool>()), n), 0u8..3).prop_map(|(v, mode)| {
        v.into_iter()
            .map(|(b, e)| match mode {
                0 => C::P(b),
                1 => C::E(b % 16),
                _ if e => C::E(b % 16),
                _ => C::P(b),
            })
            .collect()
    })
}
fn at() -> impl Strategy<Value = At> {
    prop_oneof![
        5 => (any::<u8>(), prop_oneof![4 => 0i32..80, 1 => -40i32..4200, 3 => 4070i32..4100, 1 => 8160i32..8200]).prop_map(|(i, o)| At::Start(i, o)),
        5 => (any::<u8>(), -48i32..20).prop_map(|(i, o)| At::End(i, o)),
        1 => prop_oneof![any::<u32>(), 0u32..40, (0u32..40).prop_map(|x| u32::MAX - x), (0u32..PAGES, 0u32..32).prop_map(|(p, o)| (p * PAGE).wrapping_sub(o))].prop_map(At::Abs),
    ]
}
fn align() -> impl Strategy<Value = u8> {
    prop_oneof![3 => Just(0u8), 2 => 0u8..6]
}
fn len_big() -> impl Strategy<Value = u32> {
    prop_oneof![6 => 0u32..64, 3 => 0u32..9000, 1 => 0u32..200_000, 1 => prop_oneof![0x8000_0000u32..=u32::MAX, (0u32..5000).prop_map(|x| u32::MAX - x)]]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        2 => len_big().prop_map(Op::Alloc),
        1 => (0u8..8, bytes(0..70), any::<bool>()).prop_map(|(a, b, d)| Op::AllocType(a, b, d)),
        2 => (any::<bool>(), prop_oneof![8 => 0u32..300, 1 => len_big()], 0u8..13).prop_map(|(n, l, a)| Op::Sub(n, l, a)),
        6 => (at(), bytes(0..40), align(), any::<bool>()).prop_map(|(p, b, a, d)| Op::Write(p, b, a, d)),
        4 => (at(), prop_oneof![6 => 0u16..50, 1 => 0u16..9000], align(), any::<bool>()).prop_map(|(p, n, a, d)| Op::Read(p, n, a, d)),
        2 => (at(), len_big()).prop_map(|(p, l)| Op::Range(p, l)),
        2 => (prop_oneof![8 => bytes(0..90), 1 => bytes(500..5000)], prop_oneof![6 => 0u8..8, 1 => 8u8..13]).prop_map(|(b, a)| Op::Push(b, a)),
        2 => (at(), 0u8..10, any::<u128>()).prop_map(|(p, k, v)| Op::Int(p, k, v)),
    ]
}
fn strategy() -> impl Strategy<Value = Case> {
    // pages at which segments and the stack may lie: both ends of the address space and the middle
    let page = prop_oneof![0u32..6, (PAGES - 6)..PAGES, Just(0x8_0000u32), Just(0x1234u32)];
    let seg = (page.clone(), 0u32..PAGE, 1u32..9000, bytes(0..60)).prop_map(|(p, o, memsz, b)| Seg {
        load: true,
        vaddr: p * PAGE + o,
        memsz,
        file: b.into_iter().map(|c| if let C::P(v) = c { v } else { 7 }).collect(),
    });
    let elf = (page, prop_oneof![Just(0u32), 0u32..PAGE], prop_oneof![1u32..12000, 1u32..300], prop::collection::vec(seg, 0..4)).prop_map(|(p, o, size, segs)| (p * PAGE + o, size, segs));
    (prop_oneof![1 => Just(None), 2 => elf.prop_map(Some)], prop::collection::vec(op(), 1..24)).prop_map(|(elf, ops)| Case { elf, ops })
}

struct Model {
    pages: BTreeSet<u32>,
    mem: HashMap<u32, C>,
    /// regions to aim at
    regions: Vec<(u32, u32)>,
    sp: u32,
}
impl Model {
    fn map(&mut self, start: u32, len: u32) {
        for p in start / PAGE..=((start as u64 + len as u64 - 1) / PAGE as u64) as u32 {
            self.pages.insert(p);
        }
        self.regions.push((start, len));
    }
    fn at(&self, a: &At) -> u32 {
        match a {
            At::Start(i, o) => self.regions[*i as usize % self.regions.len()].0.wrapping_add(*o as u32),
            At::End(i, o) => {
                let (s, l) = self.regions[*i as usize % self.regions.len()];
                s.wrapping_add(l).wrapping_add(*o as u32)
            }
            At::Abs(x) => *x,
        }
    }
    fn get(&self, a: u32) -> C {
        self.mem.get(&a).copied().unwrap_or(C::P(0))
    }
    /// The reasons for which an access may be refused; empty if it has to succeed.
    fn check(&self, a: u32, len: u64, align: u32) -> Vec<F> {
        let mut out = vec![];
        if align > 1 && a % align != 0 {
            out.push(F::Unaligned);
        }
        if len > 0 {
            let last = a as u64 + len - 1;
            if last > u32::MAX as u64 {
                out.push(F::PtrOverflow);
            }
            let end = last.min(u32::MAX as u64) / PAGE as u64;
            if (a / PAGE..=end as u32).any(|p| !self.pages.contains(&p)) {
                out.push(F::Access);
            }
        }
        out
    }
    fn free_run(&self, n: u64, limit: u32) -> bool {
        let mut from = 1u64;
        for p in self.pages.iter().map(|&p| p as u64).chain([limit as u64]) {
            if p >= from + n {
                return true;
            }
            from = from.max(p + 1);
        }
        false
    }
    /// Check where an allocation of `len` bytes went and note it.
    fn allocated(&mut self, m: &Memory, p: u32, len: u32) -> Result<(), Fail> {
        ensure!(p % PAGE == 0 && p != 0, "allocation-unaligned", "{p:#x}");
        let last = p as u64 + len as u64 - 1;
        ensure!(last <= u32::MAX as u64, "allocation-wraps", "{p:#x} + {len:#x}");
        for pg in p / PAGE..=(last / PAGE as u64) as u32 {
            ensure!(!self.pages.contains(&pg), "allocation-overlaps", "page {pg:#x} was in use");
        }
        self.map(p, len);
        ensure!(m.check_range_is_mapped(Ptr32::from(p), len).is_ok(), "allocation-not-mapped", "{p:#x} + {len:#x}");
        Ok(())
    }
    fn refused(&self, e: &parasol_cpu::Error, len: u64) -> Result<(), Fail> {
        let n = len.div_ceil(PAGE as u64);
        match e {
            parasol_cpu::Error::ZeroAllocation => {
                ensure!(len == 0, "wrong-error", "zero-size error for {len} bytes");
            }
            parasol_cpu::Error::NoContiguousChunk(_) => {
                ensure!(!self.free_run(n, PAGES - 1), "allocation-refused", "{n} free pages exist");
            }
            e => return fail("wrong-error", format!("allocating {len} bytes: {e}")),
        }
        Ok(())
    }
}

fn expect<T>(what: &str, r: parasol_cpu::Result<T>, reasons: &[F]) -> Result<Option<T>, Fail> {
    match r {
        Ok(v) if reasons.is_empty() => Ok(Some(v)),
        Ok(_) => fail(format!("{what}-accepted"), format!("should report {reasons:?}")),
        Err(e) if reasons.is_empty() => fail(format!("{what}-refused"), format!("{e}")),
        Err(e) => {
            ensure!(reasons.contains(&crate::model::class(&e)), "wrong-error", "{what}: {e}, expected {reasons:?}");
            Ok(None)
        }
    }
}

/// Static types of some sizes and alignments.
fn write_static(m: &Memory, a: u32, b: &[Byte], align: u8) -> Option<parasol_cpu::Result<()>> {
    macro_rules! go {
        ($($n:literal $a:literal),*) => { match (b.len(), align) {
            $(($n, $a) => Some(m.try_write_type(Ptr32::from(a), &Raw::<$n, { 1 << $a }>(b.to_vec()))),)*
            _ => None,
        } };
    }
    go!(0 0, 0 3, 1 0, 1 2, 2 1, 3 0, 4 2, 5 2, 8 3, 8 0, 12 2, 16 4, 17 0, 32 5, 33 1)
}
fn read_static(m: &Memory, a: u32, n: usize, align: u8) -> Option<parasol_cpu::Result<Vec<Byte>>> {
    macro_rules! go {
        ($($n:literal $a:literal),*) => { match (n, align) {
            $(($n, $a) => Some(m.try_load_type::<Raw<$n, { 1 << $a }>>(Ptr32::from(a)).map(|r| r.0)),)*
            _ => None,
        } };
    }
    go!(0 0, 0 3, 1 0, 1 2, 2 1, 3 0, 4 2, 5 2, 8 3, 8 0, 12 2, 16 4, 17 0, 32 5, 33 1)
}

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let mut md = Model { pages: BTreeSet::new(), mem: HashMap::new(), regions: vec![], sp: 0 };
    let m = match &c.elf {
        None => {
            md.map(0x8000_0000, PAGE);
            md.sp = 0x8000_1000;
            Memory::new_default_stack()
        }
        Some((start, size, segs)) => {
            // segments must not overlap or end outside the address space
            let mut segs = segs.clone();
            segs.retain(|s| s.vaddr as u64 + (s.memsz as u64) < 1 << 32);
            let mut taken: Vec<(u32, u32)> = vec![];
            segs.retain(|s| {
                let ok = taken.iter().all(|&(a, l)| s.vaddr as u64 >= a as u64 + l as u64 || a as u64 >= s.vaddr as u64 + s.memsz as u64);
                if ok {
                    taken.push((s.vaddr, s.memsz));
                }
                ok
            });
            let cfg = MemoryConfigBuilder::new().stack_top(Ptr32::from(*start)).stack_size(*size).build();
            let mut all = vec![Seg { load: false, vaddr: 0x5000_0000, memsz: 99, file: vec![1, 2, 3] }];
            all.extend(segs.clone());
            let img = Image::plain(all).bytes();
            let r = catch(|| Memory::new_from_elf_with_config(&img, &cfg)).or_else(|e| fail("panic", e))?;
            if *start as u64 + *size as u64 >= 1 << 32 {
                cov.label("stack at the very end");
                match r {
                    Err(e) => {
                        ensure!(matches!(e, parasol_cpu::Error::PointerOverflow), "wrong-error", "{e}");
                        return Ok(());
                    }
                    Ok(_) if *start as u64 + *size as u64 == 1 << 32 => return Ok(()),
                    Ok(_) => return fail("stack-wraps", "accepted a stack outside the address space"),
                }
            }
            md.map(*start, *size);
            md.sp = start + size;
            for s in &segs {
                md.map(s.vaddr, s.memsz);
                for (i, b) in s.file.iter().take(s.memsz as usize).enumerate() {
                    md.mem.insert(s.vaddr + i as u32, C::P(*b));
                }
            }
            match r {
                Ok(m) => m,
                Err(e) => return fail("elf-refused", format!("{e}")),
            }
        }
    };
    cov.label_if(c.elf.is_some(), "elf");
    let mut alloc: Option<Allocation> = None;
    let mut subs: Vec<(u32, u32)> = vec![];
    let mut done = 0;
    let run = |md: &mut Model, alloc: &mut Option<Allocation>, subs: &mut Vec<(u32, u32)>, o: &Op| -> Result<(), Fail> {
        match o {
            Op::Alloc(len) => match m.try_allocate(*len) {
                Ok(p) => {
                    ensure!(*len > 0, "zero-allocation", "");
                    md.allocated(&m, u32::from(p), *len)?;
                    cov.label("allocate");
                }
                Err(e) => {
                    md.refused(&e, *len as u64)?;
                    cov.label("allocate refused");
                }
            },
            Op::AllocType(a, b, dynamic) => {
                let b: &[C] = if *dynamic { b } else { &b[..b.len().min(12)] };
                let v: Vec<Byte> = b.iter().map(|c| c.real()).collect();
                let (r, len) = if *dynamic {
                    (m.try_allocate_type_dyn(&DynRaw { align: 1 << a, bytes: v }), b.len())
                } else {
                    let mut w = v.clone();
                    w.resize(12, Byte::from(9));
                    (m.try_allocate_type(&Raw::<12, 4>(w)), 12)
                };
                match r {
                    Ok(p) => {
                        let p = u32::from(p);
                        md.allocated(&m, p, len as u32)?;
                        for i in 0..len {
                            md.mem.insert(p + i as u32, b.get(i).copied().unwrap_or(C::P(9)));
                        }
                        cov.label("allocate type");
                    }
                    Err(e) => md.refused(&e, len as u64)?,
                }
            }
            Op::Sub(fresh, len, align) => {
                let al = 1u32 << align;
                let old = if *fresh { None } else { alloc.take() };
                let had = old.is_some();
                match Allocation::try_allocate(old, &m, *len, al) {
                    Ok((a, p)) => {
                        *alloc = Some(a);
                        let p = u32::from(p);
                        ensure!(p % al == 0, "suballocation-unaligned", "{p:#x} for alignment {al}");
                        if *len > 0 {
                            for &(s, l) in subs.iter() {
                                ensure!(p as u64 >= s as u64 + l as u64 || s as u64 >= p as u64 + *len as u64, "suballocation-overlaps", "{p:#x}+{len} and {s:#x}+{l}");
                            }
                            if md.check(p, *len as u64, 1).is_empty() {
                                // inside pages of an earlier one; nobody else may own this part
                                ensure!(had, "suballocation-overlaps", "{p:#x} was mapped before");
                                ensure!(subs.iter().any(|&(s, l)| p / PAGE <= (s + l - 1) / PAGE && p / PAGE >= s / PAGE), "suballocation-foreign", "{p:#x} is not in pages of this allocation");
                                ensure!(m.check_range_is_mapped(Ptr32::from(p), *len).is_ok(), "suballocation-not-mapped", "{p:#x}");
                                cov.label("suballocate shared");
                            } else {
                                md.allocated(&m, p, *len)?;
                            }
                            subs.push((p, *len));
                        } else {
                            ensure!(had, "zero-allocation", "");
                        }
                        cov.label("suballocate");
                    }
                    Err(e) => md.refused(&e, *len as u64)?,
                }
            }
            Op::Write(p, b, al, dynamic) => {
                let a = md.at(p);
                let v: Vec<Byte> = b.iter().map(|c| c.real()).collect();
                let st = if *dynamic { None } else { write_static(&m, a, &v, *al) };
                let r = st.unwrap_or_else(|| m.try_write_type_dyn(Ptr32::from(a), &DynRaw { align: 1 << al, bytes: v }));
                let why = md.check(a, b.len() as u64, 1 << al);
                if expect("write", r, &why)?.is_some() {
                    for (i, x) in b.iter().enumerate() {
                        md.mem.insert(a.wrapping_add(i as u32), *x);
                    }
                    cov.label("write");
                    cov.label_if(b.len() > 1 && a / PAGE != (a + b.len() as u32 - 1) / PAGE, "write over a page boundary");
                } else {
                    cov.label("write refused");
                }
            }
            Op::Read(p, n, al, dynamic) => {
                let a = md.at(p);
                let st = if *dynamic { None } else { read_static(&m, a, *n as usize, *al) };
                let r = st.unwrap_or_else(|| m.try_load_type_dyn::<DynRaw>(Ptr32::from(a), 1 << al, *n as usize).map(|d| d.bytes));
                let why = md.check(a, *n as u64, 1 << al);
                if let Some(v) = expect("read", r, &why)? {
                    ensure_eq!(v.len(), *n as usize, "read-length", "");
                    for (i, b) in v.iter().enumerate() {
                        let w = md.get(a + i as u32);
                        ensure!(w.is(b), "read-value", "{:#x} should hold {w:?}", a + i as u32);
                    }
                    cov.comparisons(*n as u64);
                    cov.label("read");
                }
            }
            Op::Range(p, len) => {
                let a = md.at(p);
                let why = md.check(a, *len as u64, 1);
                expect("range", m.check_range_is_mapped(Ptr32::from(a), *len), &why)?;
                cov.label_if(why.is_empty(), "range ok");
            }
            Op::Push(b, al) => {
                let al = 1u32 << al;
                let v: Vec<Byte> = b.iter().map(|c| c.real()).collect();
                let r = m.try_push_arg_onto_stack(&Arg { alignment: al as usize, bytes: v });
                let to = (md.sp as i64 - b.len() as i64).div_euclid(al as i64) * al as i64;
                let why = if to < 0 {
                    vec![F::PtrOverflow, F::Access]
                } else if md.sp == 0 {
                    vec![F::Access]
                } else {
                    md.check(to as u32, (md.sp as i64 - to) as u64, 1)
                };
                if let Some(p) = expect("push", r, &why)? {
                    ensure_eq!(u32::from(p), to as u32, "push-address", "");
                    for i in to as u32..md.sp {
                        md.mem.insert(i, b.get((i - to as u32) as usize).copied().unwrap_or(C::P(0)));
                    }
                    md.sp = to as u32;
                    cov.label("push");
                } else {
                    cov.label("push refused");
                }
                ensure_eq!(u32::from(m.stack_ptr()), md.sp, "stack-pointer", "");
            }
            Op::Int(p, k, v) => {
                let a = md.at(p);
                macro_rules! go {
                    ($t:ty) => {{
                        let x = *v as $t;
                        let n = std::mem::size_of::<$t>();
                        let why = md.check(a, n as u64, n as u32);
                        if expect("write-int", m.try_write_type(Ptr32::from(a), &x), &why)?.is_some() {
                            for i in 0..n {
                                md.mem.insert(a + i as u32, C::P((*v >> (8 * i)) as u8));
                            }
                            let y: $t = expect("read-int", m.try_load_type::<$t>(Ptr32::from(a)), &[])?.unwrap();
                            ensure_eq!(y, x, "integer-round-trip", "");
                            cov.label("integer");
                        }
                        // whatever lies next to it, read as the same type
                        let b = a.wrapping_sub(n as u32);
                        let mut why = md.check(b, n as u64, n as u32);
                        if why.is_empty() {
                            let cells: Vec<C> = (0..n).map(|i| md.get(b + i as u32)).collect();
                            let r = m.try_load_type::<$t>(Ptr32::from(b));
                            if cells.iter().all(|c| matches!(c, C::P(_))) {
                                let want = cells.iter().enumerate().fold(0u128, |s, (i, c)| s | (if let C::P(v) = c { *v as u128 } else { 0 }) << (8 * i)) as $t;
                                ensure_eq!(r.ok(), Some(want), "integer-value", "at {b:#x}");
                            } else {
                                ensure!(matches!(r, Err(parasol_cpu::Error::EncryptionMismatch)), "kind-confused", "encrypted bytes read as a plaintext integer");
                            }
                        } else {
                            why.push(F::Other);
                            ensure!(m.try_load_type::<$t>(Ptr32::from(b)).is_err(), "read-int-accepted", "{why:?}");
                        }
                    }};
                }
                match k {
                    0 => go!(u8),
                    1 => go!(u16),
                    2 => go!(u32),
                    3 => go!(u64),
                    4 => go!(u128),
                    5 => go!(i8),
                    6 => go!(i16),
                    7 => go!(i32),
                    8 => go!(i64),
                    _ => go!(i128),
                }
            }
        }
        Ok(())
    };
    for o in &c.ops {
        // gigabytes that are free are not asked for
        if let Op::Alloc(l) | Op::Sub(_, l, _) = o {
            if *l > 64 * PAGE && md.free_run(l.div_ceil(PAGE) as u64, PAGES) {
                continue;
            }
        }
        match catch(|| run(&mut md, &mut alloc, &mut subs, o)) {
            Ok(r) => r.map_err(|f| Fail { sig: f.sig, msg: format!("{o:?}: {}", f.msg) })?,
            Err(e) => return fail("panic", format!("{o:?}: {e}")),
        }
        done += 1;
    }
    cov.nontrivial_if(done >= 3);
    // everything mapped holds what it should, and nothing else is mapped
    let probe: BTreeSet<u32> = md.pages.iter().flat_map(|&p| [p.wrapping_sub(1), p, p.wrapping_add(1)]).filter(|&p| p < PAGES).collect();
    let big = md.pages.len() > 40;
    for p in probe {
        if !md.pages.contains(&p) {
            ensure!(m.check_range_is_mapped(Ptr32::from(p * PAGE), 1).is_err(), "page-too-many", "page {p:#x} is mapped");
            continue;
        }
        if big && !md.mem.keys().any(|a| a / PAGE == p) {
            continue;
        }
        let v = match m.try_load_type_dyn::<DynRaw>(Ptr32::from(p * PAGE), 1, PAGE as usize) {
            Ok(d) => d.bytes,
            Err(e) => return fail("page-lost", format!("page {p:#x}: {e}")),
        };
        for (i, b) in v.iter().enumerate() {
            let a = p * PAGE + i as u32;
            let w = md.get(a);
            ensure!(w.is(b), "final-value", "{a:#x} should hold {w:?}");
        }
        cov.comparisons(PAGE as u64);
    }
    Ok(())
}

// ---- typed values ----
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Typed {
    kind: u8,
    val: u128,
    hi: u128,
    off: u8,
    with: u8,
}

fn typed(c: &Typed, cov: &Cover) -> Result<(), Fail> {
    thread_local!(static M: (Memory, u32) = {
        let m = Memory::new_default_stack();
        let p = u32::from(m.try_allocate(8192).unwrap());
        (m, p)
    });
    let x = ctx(0);
    M.with(|(m, base)| {
        let at = base + PAGE - 64 + c.off as u32;
        // what lay there before
        for i in 0..64 {
            poke(m, at + i, if c.with >> (i % 8) & 1 == 1 { pool()[i as usize % 16].clone() } else { Byte::from(i as u8) }).unwrap();
        }
        macro_rules! enc {
            ($n:literal, $t:ident, $v:expr, $vt:ty) => {{
                let v: $vt = $v;
                let e = $t::<$n, L1GlweCiphertext>::encrypt_secret(v, &x.enc, &x.sk);
                let n = $n / 8u32;
                ensure_eq!(<$t<$n, L1GlweCiphertext> as ToArg>::size(), n as usize, "type-size", "");
                let r = m.try_write_type(Ptr32::from(at), &e);
                if at % n != 0 {
                    ensure!(matches!(r, Err(parasol_cpu::Error::UnalignedAccess(_))), "alignment", "{} bits at {at:#x}", $n);
                } else {
                    ensure!(r.is_ok(), "write-refused", "");
                    let back = m.try_load_type::<$t<$n, L1GlweCiphertext>>(Ptr32::from(at)).map_err(|e| Fail { sig: "read-refused".into(), msg: format!("{e}") })?;
                    let d: $vt = back.decrypt(&x.enc, &x.sk);
                    ensure_eq!(d, v, "round-trip", "{} bits", $n);
                    // byte by byte, least significant first
                    for i in 0..n.min(16) {
                        let b = byte_val(&peek(m, at + i).unwrap());
                        ensure!(b.enc && b.val == (v as u128 >> (8 * i)) as u8, "byte-order", "byte {i} of {} bits: {b:?}", $n);
                    }
                    ensure!(m.try_load_type::<u8>(Ptr32::from(at)).is_err(), "kind-confused", "");
                    cov.nontrivial();
                    cov.comparisons(2 + n as u64);
                }
                // a neighbouring plaintext byte makes it unreadable
                if at % n == 0 {
                    poke(m, at + c.off as u32 % n, Byte::from(1)).unwrap();
                    let r = m.try_load_type::<$t<$n, L1GlweCiphertext>>(Ptr32::from(at));
                    ensure!(matches!(r, Err(parasol_cpu::Error::EncryptionMismatch)), "kind-confused", "a plaintext byte inside {} encrypted bits", $n);
                }
            }};
        }
        let s = |w: u32| (c.val as i128) << (128 - w) >> (128 - w);
        let u = |w: u32| c.val << (128 - w) >> (128 - w);
        match c.kind {
            0 => enc!(8, UInt, u(8), u128),
            1 => enc!(16, UInt, u(16), u128),
            2 => enc!(32, UInt, u(32), u128),
            3 => enc!(64, UInt, u(64), u128),
            4 => enc!(128, UInt, u(128), u128),
            5 => enc!(8, Int, s(8), i128),
            6 => enc!(16, Int, s(16), i128),
            7 => enc!(32, Int, s(32), i128),
            8 => enc!(64, Int, s(64), i128),
            9 => enc!(128, Int, s(128), i128),
            10 => {
                // dynamic integers
                let w = 8 << (c.with % 5);
                let n = w / 8;
                let a = at - at % n;
                let sgn = c.hi & 1 == 1;
                let p = Ptr32::from(a);
                if sgn {
                    let e = DynamicInt::<L1GlweCiphertext>::encrypt_secret(s(w), &x.enc, &x.sk, w as usize);
                    m.try_write_type_dyn(p, &e).map_err(|e| Fail { sig: "write-refused".into(), msg: format!("{e}") })?;
                    let b: DynamicInt<L1GlweCiphertext> = m.try_load_type_dyn(p, n as usize, n as usize).map_err(|e| Fail { sig: "read-refused".into(), msg: format!("{e}") })?;
                    ensure_eq!(b.decrypt(&x.enc, &x.sk), s(w), "round-trip", "dynamic");
                } else {
                    let e = DynamicUInt::<L1GlweCiphertext>::encrypt_secret(u(w), &x.enc, &x.sk, w as usize);
                    m.try_write_type_dyn(p, &e).map_err(|e| Fail { sig: "write-refused".into(), msg: format!("{e}") })?;
                    let b: DynamicUInt<L1GlweCiphertext> = m.try_load_type_dyn(p, n as usize, n as usize).map_err(|e| Fail { sig: "read-refused".into(), msg: format!("{e}") })?;
                    ensure_eq!(b.decrypt(&x.enc, &x.sk), u(w), "round-trip", "dynamic");
                }
                cov.nontrivial();
                cov.comparisons(1);
            }
            11 => {
                // words from up to five bytes
                let n = c.with as usize % 6;
                let cells: Vec<C> = (0..n)
                    .map(|i| {
                        let v = (c.val >> (8 * i)) as u8;
                        if c.hi & 3 == 0 || (c.hi & 3 == 1 && c.hi >> (8 + i) & 1 == 1) {
                            C::E(v % 16)
                        } else {
                            C::P(v)
                        }
                    })
                    .collect();
                let signed = c.off & 1 == 1;
                let real: Vec<Byte> = cells.iter().map(|c| c.real()).collect();
                let r = Word::try_from_bytes(&real, if signed { Extend::Signed } else { Extend::Zero }, &x.enc);
                let encs = cells.iter().filter(|c| matches!(c, C::E(_))).count();
                if n > 4 {
                    ensure!(matches!(r, Err(parasol_cpu::Error::WordConversionTooManyBytes)), "word-accepted", "");
                } else if encs != 0 && encs != n {
                    ensure!(matches!(r, Err(parasol_cpu::Error::MixedData)), "word-mixed", "");
                } else {
                    let w = r.map_err(|e| Fail { sig: "word-refused".into(), msg: format!("{e}") })?;
                    let vals: Vec<u8> = cells.iter().map(|c| match c { C::P(v) => *v, C::E(i) => pool_val(*i as usize % 16) }).collect();
                    let ext = if signed && n > 0 && vals[n - 1] >> 7 == 1 { 0xFF } else { 0 };
                    for i in 0..4 {
                        let b = byte_val(&w.0[i]);
                        let want = vals.get(i).copied().unwrap_or(ext);
                        ensure!(b.val == want && b.enc == (encs > 0), "word-value", "byte {i}: {b:?}, expected {want}");
                    }
                    cov.nontrivial();
                    cov.comparisons(4);
                }
            }
            12 => {
                // pointer arithmetic
                let p = c.val as u32 >> (c.with % 32);
                let o = (c.val >> 32) as u32 >> (c.off % 32);
                let neg = (o as i32).wrapping_neg();
                ensure_eq!(Ptr32::from(p).try_offset(o).ok().map(u32::from), p.checked_add(o), "offset", "");
                for d in [o as i32, neg] {
                    let want = p as i64 + d as i64;
                    ensure_eq!(Ptr32::from(p).try_signed_offset(d).ok().map(|x| u32::from(x) as i64), (0..1 << 32).contains(&want).then_some(want), "signed-offset", "{p:#x} {d}");
                }
                cov.nontrivial();
                cov.comparisons(3);
            }
            13 => {
                // arrays and pointers
                let a = at - at % 16;
                let v: [u32; 5] = std::array::from_fn(|i| (c.val >> (16 * i)) as u32);
                m.try_write_type(Ptr32::from(a), &v).unwrap();
                for i in 0..5 {
                    ensure_eq!(m.try_load_type::<u32>(Ptr32::from(a + 4 * i)).ok(), Some(v[i as usize]), "array-element", "");
                }
                let q: [[u8; 2]; 3] = m.try_load_type(Ptr32::from(a + 1)).unwrap();
                for i in 0..6u32 {
                    let w = v[(i as usize + 1) / 4] >> (8 * ((i + 1) % 4));
                    ensure_eq!(q[i as usize / 2][i as usize % 2], w as u8, "array-nested", "");
                }
                let p = Ptr32::from(c.hi as u32);
                m.try_write_type(Ptr32::from(a + 4), &p).unwrap();
                ensure_eq!(m.try_load_type::<u32>(Ptr32::from(a + 4)).ok(), Some(c.hi as u32), "pointer", "");
                ensure_eq!(m.try_load_type::<Ptr32>(Ptr32::from(a + 4)).ok(), Some(p), "pointer", "");
                cov.nontrivial();
                cov.comparisons(13);
            }
            _ => enc!(256, UInt, c.val, u128),
        }
        Ok(())
    })
}

// ---- several threads on one memory ----
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Threads {
    lens: Vec<Vec<u32>>,
}
fn threads(c: &Threads, cov: &Cover) -> Result<(), Fail> {
    let m = Memory::new_default_stack();
    let got: Vec<Vec<(u32, u32)>> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .lens
            .iter()
            .enumerate()
            .map(|(t, ls)| {
                let m = &m;
                s.spawn(move || {
                    ls.iter()
                        .map(|&l| {
                            let p = u32::from(m.try_allocate(l).unwrap());
                            for i in [0, l - 1, l / 2] {
                                poke(m, p + i, Byte::from(t as u8 + 1)).unwrap();
                            }
                            (p, l)
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    let mut all: Vec<(u32, u32, usize)> = vec![];
    for (t, g) in got.iter().enumerate() {
        ensure_eq!(g.len(), c.lens[t].len(), "thread-failed", "");
        for &(p, l) in g {
            for &(q, k, _) in &all {
                ensure!(p >= q + k || q >= p + l, "allocation-overlaps", "{p:#x}+{l} and {q:#x}+{k}");
            }
            all.push((p, l, t));
        }
    }
    for (p, l, t) in all {
        for i in [0, l - 1, l / 2] {
            ensure!(matches!(peek(&m, p + i), Ok(Byte::Plaintext(v)) if v == t as u8 + 1), "lost-write", "{:#x}", p + i);
        }
        cov.comparisons(3);
    }
    cov.nontrivial_if(c.lens.len() > 1);
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "U02",
        assumptions: vec![
            "alignments are powers of two up to 4096",
            "a segment or stack that ends exactly at 2^32 may be refused, and the very last page need not be handed out",
            "when an access is wrong in several ways any of the matching errors is accepted",
            "the loads and stores of the processor are exercised by U01, U05 and U06",
        ],
        subs: vec![
            sub("histories", 6000, 60_000, "at least three operations", strategy(), check_case),
            sub(
                "typed",
                3000,
                200_000,
                "the value was written and read back",
                (prop_oneof![10 => 0u8..10, 2 => Just(10u8), 3 => Just(11u8), 3 => Just(12u8), 2 => Just(13u8), 1 => Just(14u8)], any::<u128>(), any::<u128>(), prop_oneof![3 => (0u8..4).prop_map(|x| x * 16), 1 => 0u8..64], any::<u8>())
                    .prop_map(|(kind, val, hi, off, with)| Typed { kind, val, hi, off, with }),
                typed,
            ),
            sub(
                "threads",
                60,
                3000,
                "more than one thread",
                prop::collection::vec(prop::collection::vec(1u32..9000, 1..12), 1..6).prop_map(|lens| Threads { lens }),
                threads,
            )
            .serial(),
        ],
    }
}
