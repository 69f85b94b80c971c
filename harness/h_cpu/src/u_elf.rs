//! U07: program images are loaded exactly as their headers say, and damaged ones are refused.
use crate::elf::*;
use crate::isa::*;
use crate::rig::*;
use crate::u_mem::C;
use parasol_cpu::{Error, Memory, MemoryConfigBuilder, Ptr32};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::result::Result;
use std::sync::Arc;
use vkit::proptest;
use vkit::*;

const PAGE: u64 = 4096;

/// Where a segment goes: near a fixed place, or right behind the previous one.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Place {
    base: u8,
    off: u32,
    memsz: u32,
    file: Vec<u8>,
    load: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    stack: (u32, u32),
    segs: Vec<Place>,
    /// (kind of symbol, name, value)
    syms: Option<Vec<(bool, u8, u32)>>,
    abi: u8,
    class64: bool,
    no_phdr: bool,
    /// functions in a code segment: what each of them reveals
    funcs: Vec<(u32, u16)>,
}

fn place() -> impl Strategy<Value = Place> {
    let size = prop_oneof![4 => 1u32..64, 2 => 1u32..9000, 1 => 4000u32..4200, 1 => Just(4096u32), 1 => Just(8192u32), 1 => Just(0u32)];
    let off = prop_oneof![2 => 0u32..5000, 1 => 4090u32..4100, 1 => 0u32..3, 2 => Just(0u32)];
    (0u8..10, off, size, prop::collection::vec(any::<u8>(), 0..6000), 0u8..4, any::<bool>()).prop_map(|(base, off, memsz, mut file, cut, load)| {
        match cut {
            0 => file.clear(),
            1 => {
                let mut k = 0u8;
                file.resize_with(memsz as usize, || {
                    k = k.wrapping_mul(5).wrapping_add(77);
                    k
                })
            }
            _ => file.truncate(memsz as usize),
        }
        file.truncate(memsz as usize);
        Place { base, off, memsz, file, load: load || base > 2 }
    })
}

fn strategy() -> impl Strategy<Value = Case> {
    let stack = prop_oneof![
        3 => Just((0xFFFF_8000u32, 0x4000u32)),
        2 => (0u32..0xF_0000, 1u32..5).prop_map(|(p, n)| (p * 4096, n * 4096)),
        2 => (any::<u32>(), 1u32..20_000).prop_map(|(s, n)| (s & 0xEFFF_FFF0, n & !15 | 16)),
        1 => (0xFFFF_0000u32.., 1u32..70_000),
    ];
    let sym = (any::<bool>(), 0u8..12, prop_oneof![any::<u32>(), 0x1000u32..0x9000]);
    let syms = prop_oneof![12 => prop::collection::vec(sym, 0..9).prop_map(Some), 1 => Just(None)];
    let abi = prop_oneof![20 => Just(3u8), 1 => any::<u8>(), 1 => 0u8..6];
    (stack, prop::collection::vec(place(), 0..7), syms, abi, prop::bool::weighted(0.06), prop::bool::weighted(0.06), prop::collection::vec((any::<u32>(), any::<u16>()), 0..4)).prop_map(
        |(stack, segs, syms, abi, class64, no_phdr, funcs)| Case { stack, segs, syms, abi, class64, no_phdr, funcs },
    )
}

const CODE: u32 = 0x2345_0000;
const FUNC_BYTES: u32 = 64;

/// The segments at their addresses, without those that overlap earlier ones.
fn resolve(c: &Case) -> (Vec<Seg>, bool) {
    let mut out: Vec<Seg> = vec![];
    let mut edge = false;
    let mut end = 0x10_0000u64;
    for p in &c.segs {
        let at = match p.base {
            0..=4 => end + p.off as u64 * (p.base as u64 % 2),
            5 => p.off as u64,
            6 => 0x4000_0000 + p.off as u64,
            7 => (1u64 << 32) - 40_000 + p.off as u64,
            8 => (1u64 << 32) - p.memsz as u64 - (p.off % 3) as u64,
            _ => (p.off as u64).wrapping_mul(0x9E37_79B9) & 0xFFF_FFFF,
        };
        if at + p.memsz as u64 > 1 << 32 || at >> 32 != 0 {
            continue;
        }
        let (a, b) = (at, at + p.memsz as u64);
        let free = out.iter().all(|s| !s.load || !p.load || a >= s.vaddr as u64 + s.memsz as u64 || b <= s.vaddr as u64);
        let code = a < CODE as u64 + 4096 && b > CODE as u64;
        if !free || code {
            continue;
        }
        edge |= b == 1 << 32 && p.load;
        end = b;
        out.push(Seg { load: p.load, vaddr: at as u32, memsz: p.memsz, file: p.file.clone() });
    }
    (out, edge)
}

fn name(n: u8) -> String {
    ["main", "a", "", "run_program", "f_0", "ünï", "main2", "mai", "_start", "x.y", "A", "ain"][n as usize % 12].to_string()
}

/// Page numbers that are mapped, and the bytes of segments.
struct Model {
    pages: BTreeSet<u64>,
    bytes: BTreeMap<u32, u8>,
}
impl Model {
    fn map(&mut self, at: u64, len: u64) {
        if len > 0 {
            self.pages.extend(at / PAGE..=(at + len - 1) / PAGE);
        }
    }
    fn verify(&self, m: &Memory, segs: &[Seg], stack: (u32, u32), cov: &Cover) -> Result<(), Fail> {
        let mut probes: BTreeSet<u64> = BTreeSet::new();
        for s in segs {
            let (a, l) = (s.vaddr as u64, s.memsz as u64);
            probes.extend(a.saturating_sub(70)..a + l + 70);
            for x in [a, a + l] {
                let p = x / PAGE * PAGE;
                for q in [p.wrapping_sub(PAGE), p, p + PAGE, p + 2 * PAGE] {
                    probes.extend([q, q + 1, q + PAGE - 1]);
                }
            }
        }
        for x in [stack.0 as u64, stack.0 as u64 + stack.1 as u64] {
            let p = x / PAGE * PAGE;
            for q in [p.wrapping_sub(PAGE), p, p + PAGE] {
                probes.extend([q, q + 1, q + PAGE - 1]);
            }
            probes.extend(x.saturating_sub(20)..x + 20);
        }
        let mut n = 0;
        for a in probes.into_iter().filter(|a| a >> 32 == 0) {
            n += 1;
            let got = peek(m, a as u32);
            if !self.pages.contains(&(a / PAGE)) {
                ensure!(matches!(&got, Err(Error::AccessViolation(x)) if *x as u64 == a), "mapped-outside", "address {a:#x} can be read, or fails oddly: {:?}", got.err());
                continue;
            }
            let want = self.bytes.get(&(a as u32)).copied().unwrap_or(0);
            match got {
                Err(e) => return fail("not-mapped", format!("address {a:#x}: {e}")),
                Ok(b) => ensure!(C::P(want).is(&b), "wrong-byte", "address {a:#x} should hold {want}"),
            }
        }
        cov.comparisons(n);
        Ok(())
    }
}

fn image(c: &Case) -> (Image, Vec<Seg>, bool, Vec<Sym>) {
    let (mut segs, edge) = resolve(c);
    let mut syms: Vec<Sym> = vec![];
    if let Some(list) = &c.syms {
        for (func, n, v) in list {
            let s = Sym { name: name(*n), value: *v, func: *func };
            // two functions of one name would be a different matter
            if !(s.func && syms.iter().any(|t| t.func && t.name == s.name)) {
                syms.push(s);
            }
        }
        if !c.funcs.is_empty() {
            let mut code = vec![];
            for (k, (imm, _)) in c.funcs.iter().enumerate() {
                let p = [
                    ins(O::LoadI, &[20], 32, *imm),
                    ins(O::Dbg, &[20], 0, 0),
                    ins(O::LoadI, &[21], 32, CODE + k as u32 * FUNC_BYTES + 56),
                    ins(O::Load, &[22, 21], 64, 0),
                    ins(O::Dbg, &[22], 0, 0),
                    ins(O::Ret, &[], 0, 0),
                ];
                let mut w = words(&p);
                w.resize(7, 0);
                w.push(imm.rotate_left(7) as u64 * 0x1_0000_0001);
                code.extend(w.iter().flat_map(|w| w.to_le_bytes()));
                syms.push(Sym { name: format!("func{k}"), value: CODE + k as u32 * FUNC_BYTES, func: true });
            }
            segs.push(Seg { load: true, vaddr: CODE, memsz: code.len() as u32 + c.funcs[0].1 as u32 % 100, file: code });
        }
    }
    let img = Image { segs: segs.clone(), syms: c.syms.as_ref().map(|_| syms.clone()), abi: c.abi, class64: c.class64, no_phdr: c.no_phdr };
    (img, segs, edge, syms)
}

fn check_image(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let (img, segs, edge, syms) = image(c);
    let cfg = MemoryConfigBuilder::new().stack_top(Ptr32::from(c.stack.0)).stack_size(c.stack.1).build();
    let bytes = img.bytes();
    let default = c.stack == (0xFFFF_8000, 0x4000);
    let r = catch(|| if default { Memory::new_from_elf(&bytes) } else { Memory::new_from_elf_with_config(&bytes, &cfg) }).or_else(|e| fail("panic", e))?;
    let stack_end = c.stack.0 as u64 + c.stack.1 as u64;
    let no_segs = c.no_phdr || segs.is_empty();
    // what a loader may complain about
    let mut wrong: Vec<fn(&Error) -> bool> = vec![];
    if stack_end >= 1 << 32 {
        wrong.push(|e| matches!(e, Error::PointerOverflow));
    }
    if c.abi != 3 {
        wrong.push(|e| matches!(e, Error::ElfUnsupportedAbiVersion(_)));
    }
    if c.class64 {
        wrong.push(|e| matches!(e, Error::ElfNotElf32));
    }
    if no_segs {
        wrong.push(|e| matches!(e, Error::ElfNoSegmentTable));
    }
    if c.syms.is_none() {
        wrong.push(|e| matches!(e, Error::ElfNoSymbolTable));
    }
    if edge && !no_segs {
        // the last byte of the address space may be out of reach
        wrong.push(|e| matches!(e, Error::PointerOverflow));
    }
    let may_load = !(stack_end > 1 << 32 || c.abi != 3 || c.class64 || no_segs || c.syms.is_none());
    let m = match r {
        Err(e) => {
            if wrong.is_empty() {
                return fail("refused", format!("{e}"));
            }
            ensure!(wrong.iter().any(|f| f(&e)), "wrong-error", "{e}");
            if let Error::ElfUnsupportedAbiVersion(v) = e {
                ensure_eq!(v, c.abi, "wrong-version", "reported");
            }
            cov.label("refused");
            cov.nontrivial();
            return Ok(());
        }
        Ok(_) if !may_load => return fail("accepted", format!("abi {}, 64-bit {}, no headers {}, symbols {}, stack to {stack_end:#x}", c.abi, c.class64, no_segs, c.syms.is_some())),
        Ok(m) => Arc::new(m),
    };
    cov.nontrivial_if(!segs.is_empty());
    let mut md = Model { pages: BTreeSet::new(), bytes: BTreeMap::new() };
    md.map(c.stack.0 as u64, c.stack.1 as u64);
    for s in segs.iter().filter(|s| s.load) {
        md.map(s.vaddr as u64, s.memsz as u64);
        md.bytes.extend(s.file.iter().enumerate().map(|(i, b)| (s.vaddr + i as u32, *b)));
        cov.label_if((s.file.len() as u32) < s.memsz, "zero-filled segment");
        cov.label_if(s.vaddr % 4096 != 0, "segment off a page boundary");
    }
    let shared = segs.iter().enumerate().any(|(i, s)| segs[..i].iter().any(|t| s.load && t.load && s.memsz > 0 && t.memsz > 0 && (s.vaddr / 4096 == (t.vaddr as u64 + t.memsz as u64 - 1) as u32 / 4096 || t.vaddr / 4096 == (s.vaddr as u64 + s.memsz as u64 - 1) as u32 / 4096)));
    cov.label_if(shared, "segments sharing a page");
    cov.label_if(segs.iter().any(|s| !s.load && s.memsz > 0), "segment not to be loaded");
    md.verify(&m, &segs, c.stack, cov)?;
    ensure_eq!(u32::from(m.stack_ptr()) as u64, stack_end, "stack-pointer", "after loading");
    // symbols
    let func = |n: &str| syms.iter().find(|s| s.func && s.name == n).map(|s| s.value);
    for n in (0..12).map(name).chain((0..5).map(|k| format!("func{k}"))).chain(["nothing".to_string()]) {
        let got = m.get_function_entry(&n).map(u32::from);
        ensure_eq!(got, func(&n), "symbol", "{n:?}");
    }
    cov.label_if(syms.iter().any(|s| s.func), "functions");
    // run what was loaded
    for (k, (imm, _)) in c.funcs.iter().enumerate() {
        let entry = u32::from(m.get_function_entry(&format!("func{k}")).unwrap());
        let m = m.clone();
        let ran = with_rig(2, |rig| rig.run_on(m, entry, no_args(), None))?;
        ran.result.map_err(|e| Fail { sig: "run".into(), msg: format!("function {k}: {e}") })?;
        let seen: Vec<Option<(u128, u32)>> = ran.dbg.iter().map(|(_, c)| if let Cap::Plain(v, w) = c { Some((*v, *w)) } else { None }).collect();
        let word = imm.rotate_left(7) as u64 * 0x1_0000_0001;
        ensure!(seen == vec![Some((*imm as u128, 32)), Some((word as u128, 64))], "wrong-function", "function {k}: {seen:?}");
        cov.label("function run");
    }
    if !c.funcs.is_empty() {
        // running left the loaded bytes alone
        md.map(0, 0);
        ensure_eq!(u32::from(m.stack_ptr()) as u64, stack_end, "stack-pointer", "after running");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Damaged {
    case: Case,
    /// (area, position, value)
    edits: Vec<(u8, u32, u8)>,
    cut: Option<u32>,
}

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    (0..n).map(|i| (*b.get(at + i).unwrap_or(&0) as u64) << (8 * i)).sum()
}

/// The loadable segments a file's headers name, if they are all there: (vaddr, memsz, off, filesz).
fn headers(f: &[u8]) -> Option<Vec<(u64, u64, u64, u64)>> {
    if f.len() < 52 {
        return None;
    }
    let w = f[4] == 2;
    let (off, ent, num) = if w { (le(f, 32, 8), le(f, 54, 2), le(f, 56, 2)) } else { (le(f, 28, 4), le(f, 42, 2), le(f, 44, 2)) };
    if ent == 0 || num == 0xFFFF || off.checked_add(ent * num)? > f.len() as u64 {
        return None;
    }
    Some(
        (0..num)
            .map(|i| (off + i * ent) as usize)
            .filter(|&p| le(f, p, 4) == 1)
            .map(|p| if w { (le(f, p + 16, 8), le(f, p + 40, 8), le(f, p + 8, 8), le(f, p + 32, 8)) } else { (le(f, p + 8, 4), le(f, p + 20, 4), le(f, p + 4, 4), le(f, p + 16, 4)) })
            .collect(),
    )
}

fn check_damaged(d: &Damaged, cov: &Cover) -> Result<(), Fail> {
    let (img, ..) = image(&d.case);
    let mut f = img.bytes();
    let before = f.clone();
    let eh = if img.class64 { 64 } else { 52 };
    let tables = eh + if img.no_phdr { 0 } else { img.segs.len() * if img.class64 { 56 } else { 32 } };
    let data: usize = img.segs.iter().map(|s| s.file.len()).sum();
    for (area, pos, v) in &d.edits {
        let (lo, hi) = match area % 5 {
            0 => (0, eh),
            1 | 2 => (eh, tables.max(eh + 1)),
            3 => ((tables + data).min(f.len() - 1), f.len()),
            _ => (0, f.len()),
        };
        let hi = hi.min(f.len());
        if lo < hi {
            f[lo + *pos as usize % (hi - lo)] = *v;
        }
    }
    if let Some(c) = d.cut {
        f.truncate(c as usize % (f.len() + 1));
    }
    // not more memory than a machine has
    let seen = headers(&f);
    if let Some(h) = &seen {
        if h.iter().map(|s| s.1 as u128).sum::<u128>() > 16 << 20 {
            cov.label("too big to try");
            return Ok(());
        }
    }
    cov.nontrivial_if(f != before);
    let r = catch(|| Memory::new_from_elf(&f)).or_else(|e| fail("panic", e))?;
    let Ok(m) = r else {
        cov.label("refused");
        return Ok(());
    };
    cov.label("loaded");
    ensure!(f.len() >= 52 && f[..4] == [0x7F, b'E', b'L', b'F'], "accepted", "no ELF header");
    ensure!(f[4] == 1 && f[8] == 3, "accepted", "class {}, version {}", f[4], f[8]);
    // every segment's bytes are in place, later segments over earlier ones
    let Some(h) = seen else { return Ok(()) };
    let mut bytes: BTreeMap<u64, u8> = BTreeMap::new();
    for (va, mem, off, fs) in h {
        if mem == 0 {
            continue;
        }
        ensure!(va + mem <= 1 << 32, "accepted-wrap", "segment {va:#x}+{mem:#x}");
        for i in 0..mem.min(fs) {
            let Some(b) = f.get((off + i) as usize) else { return fail("accepted-missing", format!("byte {i} of the segment at {va:#x} is not in the file")) };
            bytes.insert(va + i, *b);
        }
        for a in [va, va + mem - 1] {
            ensure!(peek(&m, a as u32).is_ok(), "not-mapped", "{a:#x}");
        }
    }
    for (a, b) in &bytes {
        let got = peek(&m, *a as u32).map_err(|e| Fail { sig: "not-mapped".into(), msg: format!("{a:#x}: {e}") })?;
        ensure!(C::P(*b).is(&got), "wrong-byte", "address {a:#x} should hold {b}");
    }
    cov.comparisons(bytes.len() as u64);
    Ok(())
}

pub fn check() -> Check {
    let edit = (any::<u8>(), any::<u32>(), prop_oneof![any::<u8>(), Just(0u8), Just(0xFFu8), Just(1u8), Just(0x80u8), 0u8..64]);
    let damaged = (strategy(), prop::collection::vec(edit, 0..6), prop::option::weighted(0.25, any::<u32>())).prop_map(|(mut case, edits, cut)| {
        if edits.first().map_or(false, |e| e.1 % 8 != 0) {
            (case.class64, case.no_phdr, case.abi) = (false, false, 3);
        }
        Damaged { case, edits, cut }
    });
    Check {
        id: "U07",
        assumptions: vec![
            "segments do not overlap, no two functions share a name, and p_filesz <= p_memsz in well-formed images",
            "a segment or stack that ends exactly at 2^32 may be refused",
            "damaged files whose segments ask for more than 16 MiB are not tried",
        ],
        subs: vec![
            sub("images", 1500, 60_000, "an image with segments was loaded, or was refused for a stated reason", strategy(), check_image),
            sub("damaged", 5_000, 400_000, "the file was changed", damaged, check_damaged),
        ],
    }
}
