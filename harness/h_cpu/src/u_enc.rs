//! U03: instruction words against an independent table of the encoding.
use crate::isa::*;
use crate::model::F;
use crate::rig::*;
use parasol_cpu::assembly::IsaOp;
use parasol_cpu::{Memory, Ptr32};
use serde::{Deserialize, Serialize};
use std::result::Result;
use vkit::proptest::prelude::*;
use vkit::*;

fn edge32() -> impl Strategy<Value = u32> {
    prop_oneof![4 => any::<u32>(), 1 => (0u32..32).prop_map(|i| 1 << i), 1 => (0u32..32).prop_map(|i| u32::MAX >> i), 1 => (0u32..32).prop_map(|i| u32::MAX << i), 1 => Just(0)]
}
/// Any instruction; fields an opcode has no use for are zero.
pub fn any_ins() -> impl Strategy<Value = Ins> {
    (prop::sample::select(ALL.to_vec()), prop::collection::vec(0u8..64, 5), 1u32..=128, edge32()).prop_map(|(op, r, w, imm)| {
        let t = op.layout().3;
        let width = if matches!(t, Tail::None | Tail::Imm) { 0 } else { w };
        let imm = if matches!(t, Tail::None | Tail::Width) { 0 } else { imm };
        ins(op, &r[..op.regs()], width, imm)
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Ins,
    b: Ins,
    noise: u64,
}

fn encode(c: &Pair, cov: &Cover) -> Result<(), Fail> {
    let (wa, ia) = c.a.word();
    let real = match catch(|| u64::from(c.a.isa())) {
        Ok(x) => x,
        Err(e) => return fail("panic", e),
    };
    ensure!(real & !ia == wa, format!("encoding:{:?}", c.a.op), "{real:#018x}, expected {wa:#018x}");
    match catch(|| IsaOp::try_from(real)) {
        Ok(Ok(i)) => ensure!(i == c.a.isa(), format!("decoding:{:?}", c.a.op), "{i:?}"),
        Ok(Err(e)) => return fail(format!("refused:{:?}", c.a.op), format!("{e}")),
        Err(e) => return fail("panic", e),
    }
    let other = u64::from(c.b.isa());
    ensure!((real == other) == (c.a == c.b), "ambiguous", "{:?} and {:?}", c.a, c.b);
    // ignored bits may not select another instruction
    if let Ok(i) = IsaOp::try_from(real ^ (c.noise & ia)) {
        ensure!(i == c.a.isa(), "ignored-bits", "{i:?}");
    }
    cov.label(format!("{:?}", c.a.op));
    cov.nontrivial();
    cov.comparisons(4);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words(Vec<u64>);

fn decode(c: &Words, cov: &Cover) -> Result<(), Fail> {
    for &x in &c.0 {
        let r = match catch(|| IsaOp::try_from(x)) {
            Ok(r) => r,
            Err(e) => return fail("panic", format!("{x:#018x}: {e}")),
        };
        match (Ins::of_word(x), r) {
            (Some(i), Ok(j)) => {
                ensure!(j == i.isa(), format!("decoding:{:?}", i.op), "{x:#018x}: {j:?}");
                let (w, ignored) = i.word();
                ensure!(u64::from(j) & !ignored == w, "re-encoding", "{x:#018x}");
                cov.label("instruction");
            }
            (Some(i), Err(e)) => ensure!(x & i.word().1 != 0, "refused", "{x:#018x} is {i:?}: {e}"),
            (None, Ok(j)) => return fail("garbage-accepted", format!("{x:#018x} became {j:?}")),
            (None, Err(e)) => {
                let class = crate::model::class(&e);
                ensure!(class == F::Illegal, "wrong-error", "{e}");
                cov.label("rejected");
            }
        }
        cov.comparisons(1);
    }
    cov.nontrivial();
    Ok(())
}

/// Programs placed in memory are, byte for byte, the words of their instructions.
fn stored(c: &Vec<Ins>, cov: &Cover) -> Result<(), Fail> {
    let m = Memory::new_default_stack();
    let p: Vec<IsaOp> = c.iter().map(|i| i.isa()).collect();
    let at = u32::from(m.allocate_program(&p));
    ensure_eq!(at % 8, 0, "program-alignment", "");
    for (k, i) in c.iter().enumerate() {
        let w: u64 = m.try_load_type(Ptr32::from(at + 8 * k as u32)).map_err(|e| Fail { sig: "program-unreadable".into(), msg: format!("{e}") })?;
        let (want, ignored) = i.word();
        ensure!(w & !ignored == want, "program-word", "instruction {k}: {w:#018x}, expected {want:#018x}");
        let b = peek(&m, at + 8 * k as u32).unwrap();
        ensure_eq!(byte_val(&b).val, i.op.layout().0, "program-opcode", "instruction {k}");
        cov.comparisons(2);
    }
    cov.nontrivial_if(c.len() > 1);
    Ok(())
}

pub fn check() -> Check {
    let word = prop_oneof![
        2 => any::<u64>(),
        2 => (prop::sample::select(ALL.to_vec()), any::<u64>()).prop_map(|(o, x)| x & !0xFF | o.layout().0 as u64),
        3 => (any_ins(), 0u32..64).prop_map(|(i, b)| i.word().0 ^ (1 << b)),
        1 => (any_ins(), any::<u64>()).prop_map(|(i, x)| i.word().0 | (x & i.word().1)),
        1 => (0u64..256),
        2 => any_ins().prop_map(|i| i.word().0),
    ];
    Check {
        id: "U03",
        assumptions: vec![
            "widths are 1 to 128 (0 has no encoding)",
            "bits after the fields of Trunc, Zext, Sext and Ret may be ignored or refused",
        ],
        subs: vec![
            sub("encode", 300_000, 6_000_000, "the instruction was encoded and decoded", (any_ins(), any_ins(), any::<u64>(), 0u8..4).prop_map(|(a, mut b, noise, near)| {
                if near > 0 {
                    // the same opcode, differing in little
                    let mut x = a;
                    match (near, a.op.regs()) {
                        (1, n) if n > 0 => x.r[noise as usize % n] = b.r[0] % 64,
                        (2, _) if x.width > 0 => x.width = (noise % 128 + 1) as u32,
                        _ if !matches!(a.op.layout().3, Tail::None | Tail::Width) => x.imm ^= 1 << (noise % 32),
                        _ => {}
                    }
                    b = x;
                }
                Pair { a, b, noise }
            }), encode),
            sub("decode", 100_000, 2_000_000, "every word was decoded", prop::collection::vec(word, 1..24).prop_map(Words), decode),
            sub("stored", 1_000, 10_000, "more than one instruction", prop_oneof![6 => prop::collection::vec(any_ins(), 1..40), 1 => prop::collection::vec(any_ins(), 500..1600)], stored),
        ],
    }
}
