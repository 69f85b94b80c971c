//! U06: programs full of hazards, run out of order, against one instruction at a time.
use crate::gen::*;
use crate::isa::{O::*, *};
use crate::model::*;
use crate::rig::*;
use serde::{Deserialize, Serialize};
use std::result::Result;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    prog: Prog,
    threads: u8,
    log: bool,
}

fn check_case(c: &Case, cov: &Cover) -> Result<(), Fail> {
    let t = [1usize, 2, 8][c.threads as usize % 3];
    with_rig(t, |rig| {
        let cells = data(&c.prog);
        let mut p = assemble(&c.prog, rig.data);
        // branches near the end may leave the body
        p.extend([ins(Move, &[60, 60], 0, 0); 4]);
        for r in 0..64 {
            p.push(ins(Dbg, &[r], 0, 0));
        }
        p.push(ins(Ret, &[], 0, 0));
        if p.len() * 8 > CODE_BYTES as usize {
            return Ok(());
        }
        let Some((mut model, patched)) = patch(&mut p, rig, &cells) else { return Ok(()) };
        // the call pushes no data, so the stack pointer keeps its value
        let w = words(&p);
        load_rig(rig, &w, &cells);
        rig.log = c.log;
        let ran = rig.run(rig.code, no_args(), None);
        rig.log = false;
        let ran = ran?;
        let gas = match ran.result {
            Ok((gas, ())) => gas,
            Err(e) => return fail("refused", format!("{e}")),
        };
        ensure_eq!(gas as u64, model.gas, "gas", "");
        ensure_eq!(ran.dbg.len(), model.dbg.len(), "debug-count", "");
        model.regs[0] = model.dbg[model.dbg.len() - 64].1;
        let n = model.dbg.len();
        for (k, ((h, cap), (wh, want))) in ran.dbg.iter().zip(&model.dbg).enumerate() {
            let got = cap.value()?;
            let at = if k + 64 >= n { format!("register {} at the end", k + 64 - n) } else { format!("debug instruction {k}") };
            ensure!(h == wh && got == *want, if got.enc { "value:encrypted" } else { "value:plaintext" }, "{at}: {got:?}, expected {want:?}");
            cov.comparisons(1);
        }
        for a in rig.data..rig.data + CELLS + 16 {
            let got = byte_val(&peek(&rig.mem, a).unwrap());
            let want = model.byte(a).unwrap();
            ensure!(got == want, "memory", "byte {}: {got:?}, expected {want:?}", a - rig.data);
            cov.comparisons(1);
        }
        let enc = model.regs.iter().filter(|r| r.enc).count();
        cov.label(format!("{t} threads"));
        cov.label_if(enc > 0, "encrypted");
        cov.label_if(model.steps > p.len() as u64, "loops");
        cov.label_if(p.iter().any(|i| i.op == Store) && p.iter().any(|i| i.op == Load), "memory");
        cov.label_if(patched > 0, "patched");
        cov.label_if(c.log, "logged");
        cov.nontrivial_if(model.steps > 64 + 40 + 3);
        Ok(())
    })
}

fn strategy(enc: std::ops::Range<u8>, n: std::ops::Range<usize>) -> impl Strategy<Value = Case> {
    (any::<u64>(), enc, prop::collection::vec(dice(), n), any::<u8>(), prop::bool::weighted(0.05)).prop_map(|(seed, enc, body, threads, log)| Case { prog: Prog { seed, enc, body }, threads, log })
}

pub fn check() -> Check {
    Check {
        id: "U06",
        assumptions: vec![
            "thread timing is sampled by running on pools of 1, 2 and 8 threads with sleeping debug handlers, not enumerated",
            "programs do not modify their own code",
            "values are 1, 8, 16 and (addresses) 32 bits wide",
        ],
        subs: vec![
            sub("plain", 4000, 100_000, "the program executed at least four body instructions", strategy(0..1, 4..70), check_case),
            sub("mixed", 500, 10_000, "the program executed at least four body instructions", strategy(1..9, 4..34), check_case),
        ],
    }
}
