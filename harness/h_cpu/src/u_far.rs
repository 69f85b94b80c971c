//! U01, continued: jumps and memory operands across the whole address space.
use crate::elf::*;
use crate::isa::{O::*, *};
use crate::model::*;
use crate::rig::*;
use parasol_cpu::{Memory, MemoryConfigBuilder, Ptr32};
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::result::Result;
use std::sync::Arc;
use vkit::proptest::prelude::*;
use vkit::*;

/// A few instructions on a page of their own, ending in a jump to the next such block.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Block {
    page: u32,
    off: u16,
    /// page and place of a datum the block reads its condition from, and how far the base is off
    cell: (u32, u16),
    delta: i32,
    /// width (of 5), condition value, kind of jump
    w: u8,
    val: u128,
    jump: u8,
    /// a jump not taken on the way
    skip: i32,
    store: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    blocks: Vec<Block>,
}

fn page() -> impl Strategy<Value = u32> {
    // not the first page, not the last; near, middling and far
    prop_oneof![2 => 1u32..0xF_FFFE, 1 => 0x8_0000u32 - 3..0x8_0000 + 3, 1 => 1u32..40, 1 => 0xF_FFE0u32..0xF_FFFE, 1 => 0x1000u32..0x1010]
}
fn strategy() -> impl Strategy<Value = Case> {
    let delta = prop_oneof![2 => any::<i32>(), 1 => -40_000i32..40_000, 1 => -9_000_000i32..9_000_000];
    let skip = prop_oneof![1 => any::<i32>(), 1 => -64i32..64];
    let val = prop_oneof![2 => any::<u128>(), 2 => (0u32..128).prop_map(|k| 1 << k), 3 => Just(0u128)];
    let block = (page(), 0u16..470, (page(), any::<u16>()), delta, 0u8..5, val, any::<u8>(), skip, any::<bool>())
        .prop_map(|(page, off, cell, delta, w, val, jump, skip, store)| Block { page, off, cell, delta, w, val, jump, skip, store });
    prop::collection::vec(block, 2..6).prop_map(|blocks| Case { blocks })
}

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let mut used = BTreeSet::from([0x7_0000u32]);
    let blocks: Vec<&Block> = c.blocks.iter().filter(|b| used.insert(b.page)).collect();
    let blocks: Vec<(&Block, u32)> = blocks.into_iter().filter_map(|b| used.insert(b.cell.0).then_some((b, b.page * 4096 + 8 * b.off as u32))).collect();
    if blocks.is_empty() {
        return Ok(());
    }
    let mut segs = vec![];
    let mut mapped = vec![(0x7000_0000u64, 0x7000_1000u64)];
    let mut image: Vec<(u32, Vec<u8>)> = vec![];
    for (k, (b, at)) in blocks.iter().enumerate() {
        let w = [8u32, 16, 32, 64, 128][b.w as usize];
        let n = w / 8;
        let cell = b.cell.0 * 4096 + (b.cell.1 as u32 % 4096) / n * n;
        // the base is where the sum does not leave the address space
        let (base, delta) = match cell.checked_add_signed(b.delta.wrapping_neg()) {
            Some(x) if b.delta != i32::MIN => (x, b.delta),
            _ => match cell.checked_add_signed(b.delta) {
                Some(x) => (x, b.delta.wrapping_neg()),
                None => (cell, 0),
            },
        };
        let val = b.val & mask(w);
        image.push((cell, val.to_le_bytes()[..n as usize].to_vec()));
        let mut p = vec![ins(LoadI, &[4], 32, base), ins(Load, &[5, 4], w, delta as u32), ins(Dbg, &[5], 0, 0)];
        if b.store {
            p.push(ins(Not, &[6, 5], 0, 0));
            p.push(ins(Store, &[4, 6], w, delta as u32));
            p.push(ins(Load, &[7, 4], w, delta as u32));
            p.push(ins(Dbg, &[7], 0, 0));
        }
        let (yes, no) = if val != 0 { (BranchNonZero, BranchZero) } else { (BranchZero, BranchNonZero) };
        p.push(ins(no, &[5], 0, b.skip as u32));
        if let Some((_, next)) = blocks.get(k + 1) {
            let d = next.wrapping_sub(at + 8 * p.len() as u32);
            p.push(if b.jump % 3 == 0 { ins(Branch, &[], 0, d) } else { ins(yes, &[5], 0, d) });
            let far = (d as i32).unsigned_abs();
            cov.label(match far {
                0..=0x7FFF => "jump within 15 bits",
                0x8000..=0x7F_FFFF => "jump within 23 bits",
                _ => "jump beyond 23 bits",
            });
            cov.label_if((d as i32) < 0, "jump backwards");
            cov.label_if(b.jump % 3 != 0, if val != 0 { "jump if not zero" } else { "jump if zero" });
        }
        // only the last block may end here
        p.push(ins(LoadI, &[8], 32, k as u32));
        p.push(ins(Dbg, &[8], 0, 0));
        p.push(ins(Ret, &[], 0, 0));
        assert!(p.len() * 8 + 8 * b.off as usize <= 4096);
        image.push((*at, p.iter().flat_map(|i| i.word().0.to_le_bytes()).collect()));
    }
    for (a, bytes) in &image {
        let start = (*a as u64) & !4095;
        mapped.push((start, start + 4096));
        segs.push(Seg { load: true, vaddr: *a, memsz: bytes.len() as u32, file: bytes.clone() });
    }
    let entry = blocks[0].1;
    let mut m = Machine::new(mapped, entry);
    m.regs[2] = plain(0x7000_1000, 32);
    for (a, bytes) in &image {
        for (i, b) in bytes.iter().enumerate() {
            m.mem.insert(a + i as u32, B { enc: false, val: *b });
        }
    }
    let want = m.run(1000);
    ensure!(matches!(want, Some(Ok(()))), "harness", "the model's run: {want:?}");
    let cfg = MemoryConfigBuilder::new().stack_top(Ptr32::from(0x7000_0000)).stack_size(4096).build();
    let bytes = Image::plain(segs).bytes();
    let mem = Arc::new(Memory::new_from_elf_with_config(&bytes, &cfg).map_err(|e| Fail { sig: "load".into(), msg: format!("{e}") })?);
    let ran = with_rig(2, |rig| rig.run_on(mem.clone(), entry, no_args(), None))?;
    match ran.result {
        Ok((gas, ())) => ensure_eq!(gas as u64, m.gas, "gas", ""),
        Err(e) => return fail("far:refused", format!("{e}")),
    }
    ensure_eq!(ran.dbg.len(), m.dbg.len(), "debug-count", "");
    for (k, ((_, cap), (_, want))) in ran.dbg.iter().zip(&m.dbg).enumerate() {
        let got = cap.value()?;
        ensure!(got == *want, "far:value", "debug instruction {k}: {got:?}, expected {want:?}");
        cov.comparisons(1);
    }
    for (a, bytes) in &image {
        for i in 0..bytes.len() as u32 {
            let got = byte_val(&peek(&mem, a + i).map_err(|e| Fail { sig: "far:peek".into(), msg: format!("{e}") })?);
            let want = m.byte(a + i).unwrap();
            ensure!(got == want, "far:memory", "byte {:#x}: {got:?}, expected {want:?}", a + i);
            cov.comparisons(1);
        }
    }
    cov.nontrivial_if(blocks.len() > 1);
    Ok(())
}

pub fn far() -> vkit::Sub {
    sub("far", 1200, 40_000, "a jump from one block of code to another was taken", strategy(), check_case)
}
