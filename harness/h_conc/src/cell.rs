use crate::sched::*;
use parasol_concurrency::{AtomicRefCell, Ref, RefMut};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Op {
    Borrow(u8),
    BorrowMut(u8),
    /// Release the i-th live borrow of this thread.
    Release(u8),
    /// Read (or write, if it allows that) through the i-th live borrow.
    Access(u8),
    Clone(u8),
    Serialize(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Case {
    cells: u8,
    threads: Vec<Vec<Op>>,
    schedule: Vec<u8>,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (0u8..2).prop_map(Op::Borrow),
        5 => (0u8..2).prop_map(Op::BorrowMut),
        8 => any::<u8>().prop_map(Op::Release),
        4 => any::<u8>().prop_map(Op::Access),
        1 => (0u8..2).prop_map(Op::Clone),
        1 => (0u8..2).prop_map(Op::Serialize),
    ]
    .boxed()
}

fn case(max_threads: usize, ops: usize) -> BoxedStrategy<Case> {
    (1u8..=2, prop::collection::vec(prop::collection::vec(op(), 1..=ops), 1..=max_threads), prop::collection::vec(any::<u8>(), 0..100))
        .prop_map(|(cells, threads, schedule)| Case { cells, threads, schedule })
        .boxed()
}

#[derive(Clone, Serialize, Deserialize)]
struct Payload {
    a: u64,
    b: u64,
}

enum Guard<'a> {
    R(Ref<'a, Payload>),
    M(RefMut<'a, Payload>),
}

/// As `catch`, but lets the scheduler's own unwinding through.
fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    // The message itself is not judged, only that the call refused.
    let hook_quiet = vkit::catch(|| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => Ok(Some(x)),
        Err(e) => {
            if e.downcast_ref::<Stop>().is_some() {
                Err(e)
            } else {
                Ok(None)
            }
        }
    });
    match hook_quiet {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => std::panic::resume_unwind(e),
        Err(_) => None,
    }
}

fn run(c: &Case, cov: &Cover) -> Res {
    let n = c.threads.len();
    let s = Sched::new(n, &c.schedule);
    let cells: Vec<AtomicRefCell<Payload>> = (0..c.cells).map(|_| AtomicRefCell::new(Payload { a: 0, b: 0 })).collect();
    let holds = Mutex::new(Vec::<Hold>::new());
    let refusals = Mutex::new(Vec::<Refusal>::new());
    let writes = Mutex::new(vec![0u64; c.cells as usize]);
    let bodies = c
        .threads
        .iter()
        .enumerate()
        .map(|(me, prog)| {
            let (s, cells, holds, refusals, writes) = (s.clone(), &cells, &holds, &refusals, &writes);
            let body = move || {
                let mut mine: Vec<(usize, Guard, usize)> = vec![];
                let touch = |l: usize, g: &mut Guard| {
                    let mut w = writes.lock().unwrap();
                    let (a, b) = match g {
                        Guard::R(g) => (g.a, g.b),
                        Guard::M(g) => (g.a, g.b),
                    };
                    s.access(l, matches!(g, Guard::M(_)));
                    if a != w[l] || b != w[l] {
                        s.fail("contents", format!("cell {l}: borrower sees ({a}, {b}) after {} writes", w[l]));
                    }
                    if let Guard::M(g) = g {
                        g.a += 1;
                        g.b += 1;
                        w[l] += 1;
                    }
                };
                let release = |(_, g, k): (usize, Guard, usize)| {
                    let i = s.begin(None);
                    drop(g);
                    let r = s.end();
                    holds.lock().unwrap()[k].rel = Some((i, r));
                };
                for o in prog {
                    match *o {
                        Op::Borrow(l) | Op::BorrowMut(l) => {
                            let l = l as usize % cells.len();
                            let exclusive = matches!(o, Op::BorrowMut(_));
                            let i = s.begin(None);
                            let g = if exclusive { attempt(|| Guard::M(cells[l].borrow_mut())) } else { attempt(|| Guard::R(cells[l].borrow())) };
                            let r = s.end();
                            match g {
                                Some(mut g) => {
                                    let k = {
                                        let mut h = holds.lock().unwrap();
                                        h.push(Hold { thread: me, object: l, exclusive, acq: (i, r), rel: None });
                                        h.len() - 1
                                    };
                                    touch(l, &mut g);
                                    mine.push((l, g, k));
                                }
                                None => refusals.lock().unwrap().push(Refusal { thread: me, object: l, exclusive, call: (i, r) }),
                            }
                        }
                        Op::Release(i) => {
                            if !mine.is_empty() {
                                let g = mine.remove(i as usize % mine.len());
                                release(g);
                            }
                        }
                        Op::Access(i) => {
                            if !mine.is_empty() {
                                let k = i as usize % mine.len();
                                s.begin(None);
                                let (l, g, _) = &mut mine[k];
                                touch(*l, g);
                                s.end();
                            }
                        }
                        Op::Clone(l) | Op::Serialize(l) => {
                            // Both borrow for the length of the call.
                            let l = l as usize % cells.len();
                            let i = s.begin(None);
                            let got = attempt(|| match o {
                                Op::Clone(_) => {
                                    let c = cells[l].clone();
                                    // A clone is a cell of its own, free to be borrowed.
                                    let x = c.borrow_mut();
                                    (x.a, x.b)
                                }
                                _ => {
                                    let v = serde_json::to_value(&cells[l]).unwrap();
                                    let c: AtomicRefCell<Payload> = serde_json::from_value(v).unwrap();
                                    let x = c.borrow_mut();
                                    (x.a, x.b)
                                }
                            });
                            let r = s.end();
                            match got {
                                Some((a, b)) => {
                                    if a != b {
                                        s.fail("contents", format!("cell {l}: copied ({a}, {b}) in the middle of a write"));
                                    }
                                    holds.lock().unwrap().push(Hold { thread: me, object: l, exclusive: false, acq: (i, r), rel: Some((i, r)) });
                                }
                                None => refusals.lock().unwrap().push(Refusal { thread: me, object: l, exclusive: false, call: (i, r) }),
                            }
                        }
                    }
                }
                for g in mine.drain(..) {
                    release(g);
                }
            };
            Box::new(body) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let out = s.run(bodies)?;
    ensure!(!out.stuck, "no-progress", "threads stuck");
    let holds = holds.into_inner().unwrap();
    let refusals = refusals.into_inner().unwrap();
    judge(&holds, &refusals)?;
    // Everything was released: both kinds of borrow are available again.
    let writes = writes.into_inner().unwrap();
    for (l, cell) in cells.iter().enumerate() {
        for _ in 0..2 {
            match catch(|| cell.borrow_mut().a) {
                Ok(a) => ensure_eq!(a, writes[l], "contents", "final value of cell {l}"),
                Err(e) => return fail("not-restored", format!("cell {l}: all borrows released, but borrow_mut refuses: {e}")),
            }
            if let Err(e) = catch(|| {
                let _a = cell.borrow();
                let _b = cell.borrow();
            }) {
                return fail("not-restored", format!("cell {l}: all borrows released, but borrow refuses: {e}"));
            }
            ensure!(catch(|| { let _a = cell.borrow(); let _b = cell.borrow_mut(); }).is_err(), "exclusion", "cell {l}: granted a mutable beside a shared borrow after the run");
        }
    }
    cov.label_if(refusals.iter().any(|r| r.exclusive), "mutable-refused");
    cov.label_if(refusals.iter().any(|r| !r.exclusive), "shared-refused");
    let shared = holds.iter().any(|a| holds.iter().any(|b| a.object == b.object && a.thread != b.thread && (a.exclusive || b.exclusive)));
    cov.label_if(shared, "handover");
    cov.label_if(out.observed == 0, "no-observed-step");
    cov.nontrivial_if((shared || !refusals.is_empty()) && (n == 1 || out.switches >= 2));
    cov.comparisons((holds.len() * holds.len() / 2 + refusals.len()) as u64);
    Ok(())
}

/// Free-running threads.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Native {
    threads: Vec<Vec<(bool, u8)>>,
    repeat: u16,
}

fn native(c: &Native, cov: &Cover) -> Res {
    let cell = AtomicRefCell::new(Payload { a: 0, b: 0 });
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    let (bad, done, refused) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|sc| {
        for prog in &c.threads {
            let (cell, bad, done, refused) = (&cell, &bad, &done, &refused);
            sc.spawn(move || {
                for _ in 0..c.repeat {
                    for &(write, work) in prog {
                        if write {
                            match catch(|| cell.borrow_mut()) {
                                Ok(mut g) => {
                                    if g.a != g.b {
                                        bad.fetch_add(1, Relaxed);
                                    }
                                    g.a += 1;
                                    for _ in 0..work {
                                        std::hint::spin_loop();
                                    }
                                    g.b += 1;
                                    done.fetch_add(1, Relaxed);
                                }
                                Err(_) => {
                                    refused.fetch_add(1, Relaxed);
                                }
                            }
                        } else if let Ok(g) = catch(|| cell.borrow()) {
                            for _ in 0..work {
                                std::hint::spin_loop();
                            }
                            if g.a != g.b {
                                bad.fetch_add(1, Relaxed);
                            }
                        }
                    }
                }
            });
        }
    });
    let done = done.into_inner();
    ensure!(bad.into_inner() == 0, "contents", "a borrower saw a writer's half-done work");
    let g = match catch(|| cell.borrow_mut()) {
        Ok(g) => g,
        Err(e) => return fail("not-restored", e),
    };
    ensure!(g.a == done && g.b == done, "contents", "{done} writes, but the payload says ({}, {})", g.a, g.b);
    cov.nontrivial_if(c.threads.len() > 1 && done > 0);
    cov.comparisons(done);
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C02",
        assumptions: vec![
            "interleavings are of the crate's own atomic steps, which the harness orders; stale reads of relaxed loads are not simulated, missing synchronisation is found by happens-before analysis of the orderings used",
        ],
        subs: vec![
            sub("schedules", 40_000, 3_000_000, "1-4 threads of borrow, mutable borrow, release, access, clone and serialize operations on one or two cells, under a generated schedule of atomic steps; non-trivial: a conflict or a handover between threads, with at least two context switches",
                case(4, 8), run),
            sub("pairs", 20_000, 1_000_000, "one or two threads, short programs; as above", case(2, 6), run),
            sub("native", 60, 2_000, "2-4 free-running threads; non-trivial: more than one thread wrote",
                (prop::collection::vec(prop::collection::vec((any::<bool>(), 0u8..20), 1..=4), 2..=4), 1u16..200).prop_map(|(threads, repeat)| Native { threads, repeat }), native).serial(),
        ],
    }
}
