use crate::sched::*;
use parasol_concurrency::{Spinlock, SpinlockHandle};
use serde::{Deserialize, Serialize};
use std::sync::Mutex;
use vkit::proptest::prelude::*;
use vkit::*;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
enum Op {
    Lock(u8),
    TryLock(u8),
    Release(u8),
    KeepLocked(u8),
    Forget(u8),
    Access(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Case {
    locks: u8,
    threads: Vec<Vec<Op>>,
    schedule: Vec<u8>,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        5 => (0u8..2).prop_map(Op::Lock),
        4 => (0u8..2).prop_map(Op::TryLock),
        5 => (0u8..2).prop_map(Op::Release),
        1 => (0u8..2).prop_map(Op::KeepLocked),
        1 => (0u8..2).prop_map(Op::Forget),
        4 => (0u8..2).prop_map(Op::Access),
    ]
    .boxed()
}

fn case(max_threads: usize, ops: usize) -> BoxedStrategy<Case> {
    (1u8..=2, prop::collection::vec(prop::collection::vec(op(), 1..=ops), 1..=max_threads), prop::collection::vec(any::<u8>(), 0..100))
        .prop_map(|(locks, threads, schedule)| Case { locks, threads, schedule })
        .boxed()
}

struct Payload {
    a: u64,
    b: u64,
}

fn run(c: &Case, cov: &Cover) -> Res {
    let n = c.threads.len();
    let s = Sched::new(n, &c.schedule);
    let locks: Vec<Spinlock<Payload>> = (0..c.locks).map(|_| Spinlock::new(Payload { a: 0, b: 0 })).collect();
    let holds = Mutex::new(vec![]);
    let refusals = Mutex::new(vec![]);
    let writes = Mutex::new(vec![0u64; c.locks as usize]);
    let bodies = c
        .threads
        .iter()
        .enumerate()
        .map(|(me, prog)| {
            let (s, locks, holds, refusals, writes) = (s.clone(), &locks, &holds, &refusals, &writes);
            let body = move || {
                // What this thread holds: (handle, index of its entry in `holds`).
                let mut mine: Vec<Option<(SpinlockHandle<Payload>, usize)>> = (0..locks.len()).map(|_| None).collect();
                let touch = |l: usize, h: &mut SpinlockHandle<Payload>| {
                    s.access(l, true);
                    let mut w = writes.lock().unwrap();
                    if h.a != w[l] || h.b != w[l] {
                        s.fail("contents", format!("lock {l}: holder sees ({}, {}) after {} writes", h.a, h.b, w[l]));
                    }
                    h.a += 1;
                    h.b += 1;
                    w[l] += 1;
                };
                let release = |l: usize, h: (SpinlockHandle<Payload>, usize)| {
                    let i = s.begin(None);
                    s.set_held(l, false);
                    drop(h.0);
                    let r = s.end();
                    let mut hs: std::sync::MutexGuard<Vec<Hold>> = holds.lock().unwrap();
                    hs[h.1].rel = Some((i, r));
                };
                let took = |l: usize, h: &mut SpinlockHandle<Payload>, acq| {
                    s.set_held(l, true);
                    let mut hs: std::sync::MutexGuard<Vec<Hold>> = holds.lock().unwrap();
                    hs.push(Hold { thread: me, object: l, exclusive: true, acq, rel: None });
                    let k = hs.len() - 1;
                    drop(hs);
                    touch(l, h);
                    k
                };
                for o in prog {
                    match *o {
                        Op::Lock(l) => {
                            let l = l as usize % locks.len();
                            if mine[l].is_some() {
                                continue;
                            }
                            let i = s.begin(Some(l));
                            let mut h = locks[l].lock();
                            let r = s.end();
                            let k = took(l, &mut h, (i, r));
                            mine[l] = Some((h, k));
                        }
                        Op::TryLock(l) => {
                            let l = l as usize % locks.len();
                            let i = s.begin(None);
                            let h = locks[l].try_lock();
                            let r = s.end();
                            match h {
                                Some(mut h) => {
                                    let k = took(l, &mut h, (i, r));
                                    if mine[l].is_some() {
                                        s.fail("exclusion", format!("try_lock succeeded on lock {l} which the same thread holds"));
                                        std::mem::forget(h);
                                        continue;
                                    }
                                    mine[l] = Some((h, k));
                                }
                                None => {
                                    let mut rs: std::sync::MutexGuard<Vec<Refusal>> = refusals.lock().unwrap();
                                    rs.push(Refusal { thread: me, object: l, exclusive: true, call: (i, r) })
                                }
                            }
                        }
                        Op::Release(l) => {
                            let l = l as usize % locks.len();
                            if let Some(h) = mine[l].take() {
                                release(l, h);
                            }
                        }
                        Op::KeepLocked(l) => {
                            let l = l as usize % locks.len();
                            if let Some(h) = mine[l].take() {
                                s.begin(None);
                                h.0.keep_locked();
                                s.end();
                            }
                        }
                        Op::Forget(l) => {
                            let l = l as usize % locks.len();
                            if let Some(h) = mine[l].take() {
                                std::mem::forget(h.0);
                            }
                        }
                        Op::Access(l) => {
                            let l = l as usize % locks.len();
                            if let Some(h) = &mut mine[l] {
                                s.begin(None);
                                touch(l, &mut h.0);
                                s.end();
                            }
                        }
                    }
                }
                for l in 0..locks.len() {
                    if let Some(h) = mine[l].take() {
                        release(l, h);
                    }
                }
            };
            Box::new(body) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let out = s.run(bodies)?;
    let holds = holds.into_inner().unwrap();
    let refusals = refusals.into_inner().unwrap();
    judge(&holds, &refusals)?;
    // Afterwards every lock is free exactly when its last holder released it (threads that were
    // stuck released what they held when they were stopped, outside the history).
    if !out.stuck {
        for (l, lock) in locks.iter().enumerate() {
            let kept = holds.iter().any(|h| h.object == l && h.rel.is_none());
            for _ in 0..2 {
                let got = lock.try_lock();
                ensure!(got.is_some() != kept, "final", "lock {l}: kept locked {kept}, but try_lock at the end gave {}", got.is_some());
            }
        }
    }
    cov.label_if(out.stuck, "waits-for-ever");
    cov.label_if(!refusals.is_empty(), "refusals");
    cov.label_if(holds.iter().any(|h| h.rel.is_none()), "kept-locked");
    let shared = holds.iter().any(|a| holds.iter().any(|b| a.object == b.object && a.thread != b.thread));
    cov.label_if(shared, "handover");
    cov.label_if(out.observed == 0, "no-observed-step");
    cov.nontrivial_if((shared || !refusals.is_empty()) && out.switches >= 2);
    cov.comparisons((holds.len() * holds.len() / 2 + refusals.len()) as u64);
    Ok(())
}

/// Real threads without a scheduler, as a cross-check that does not depend on instrumentation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
struct Native {
    threads: Vec<Vec<(bool, u8)>>,
    repeat: u16,
}

fn native(c: &Native, cov: &Cover) -> Res {
    let lock = Spinlock::new(Payload { a: 0, b: 0 });
    let bad = std::sync::atomic::AtomicU64::new(0);
    let done = std::sync::atomic::AtomicU64::new(0);
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::scope(|sc| {
        for prog in &c.threads {
            let (lock, bad, done) = (&lock, &bad, &done);
            sc.spawn(move || {
                for _ in 0..c.repeat {
                    for &(try_it, work) in prog {
                        let h = if try_it { lock.try_lock() } else { Some(lock.lock()) };
                        if let Some(mut h) = h {
                            if h.a != h.b {
                                bad.fetch_add(1, Relaxed);
                            }
                            h.a += 1;
                            for _ in 0..work {
                                std::hint::spin_loop();
                            }
                            h.b += 1;
                            done.fetch_add(1, Relaxed);
                        }
                    }
                }
            });
        }
    });
    let h = lock.lock();
    let done = done.into_inner();
    ensure!(bad.into_inner() == 0, "contents", "a holder saw another holder's half-done work");
    ensure!(h.a == done && h.b == done, "contents", "{done} critical sections, but the payload says ({}, {})", h.a, h.b);
    cov.nontrivial_if(c.threads.len() > 1);
    cov.comparisons(done);
    Ok(())
}

pub fn check() -> Check {
    Check {
        id: "C01",
        assumptions: vec![
            "interleavings are of the crate's own atomic steps, which the harness orders; stale reads of relaxed loads are not simulated, missing synchronisation is found by happens-before analysis of the orderings used",
        ],
        subs: vec![
            sub("schedules", 40_000, 3_000_000, "1-4 threads of lock, try-lock, release, keep-locked, forget and access operations on one or two locks, under a generated schedule of atomic steps; non-trivial: a lock changed hands or a request was refused, with at least two context switches",
                case(4, 7), run),
            sub("pairs", 20_000, 1_000_000, "two threads, short programs; as above", case(2, 5), run),
            sub("native", 60, 2_000, "2-4 free-running threads; non-trivial: more than one thread",
                (prop::collection::vec(prop::collection::vec((any::<bool>(), 0u8..20), 1..=4), 2..=4), 1u16..400).prop_map(|(threads, repeat)| Native { threads, repeat }), native).serial(),
        ],
    }
}
