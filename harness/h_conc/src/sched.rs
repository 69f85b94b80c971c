use parasol_concurrency::verif_atomic::{set_monitor, Monitor, Ordering, Step};
use std::{
    cell::Cell,
    collections::HashMap,
    sync::{Arc, Condvar, Mutex},
};
use vkit::*;

pub const MAXT: usize = 4;
pub type Clock = [u32; MAXT];

fn join(a: &mut Clock, b: &Clock) {
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

#[derive(Default)]
struct State {
    current: usize,
    finished: [bool; MAXT],
    threads: usize,
    schedule: Vec<u8>,
    pos: usize,
    /// global step counter: the time of the history
    now: u64,
    steps: u64,
    idle: u64,
    abort: bool,
    failure: Option<Fail>,
    stuck: bool,
    /// thread is inside a call that may wait for this lock
    waiting: [Option<usize>; MAXT],
    /// locks certainly held (by a thread, or kept locked)
    held: [bool; 4],
    clocks: [Clock; MAXT],
    released: HashMap<usize, Clock>,
    last_write: HashMap<usize, (usize, Clock)>,
    reads: HashMap<usize, [u32; MAXT]>,
    step_in_op: [u64; MAXT],
    switches: u64,
    observed: u64,
}

pub struct Sched {
    m: Mutex<State>,
    cv: Vec<Condvar>,
}

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Unwinds a thread whose program ends early.
pub struct Stop;

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

/// No operation that must not wait takes as many steps on its own.
const STEPS_PER_CALL: u64 = 2000;

impl Sched {
    pub fn new(threads: usize, schedule: &[u8]) -> Arc<Self> {
        let mut s = State { threads, schedule: schedule.to_vec(), ..Default::default() };
        for t in 0..threads {
            s.clocks[t][t] = 1;
        }
        Arc::new(Sched { m: Mutex::new(s), cv: (0..threads).map(|_| Condvar::new()).collect() })
    }

    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Pass the token on as the schedule says; returns when it comes back.
    fn yield_point(&self) {
        if std::thread::panicking() {
            return;
        }
        let me = ME.with(|x| x.get());
        let mut s = self.lock();
        if s.abort {
            drop(s);
            std::panic::resume_unwind(Box::new(Stop));
        }
        s.steps += 1;
        s.now += 1;
        s.idle += 1;
        s.step_in_op[me] += 1;
        let limit = 200 * s.threads as u64;
        if s.idle > limit && s.pos >= s.schedule.len() {
            // Nothing finished for many fair rounds: either everyone waits for a held lock, or
            // the code under test does not make progress.
            let legit = (0..s.threads).filter(|t| !s.finished[*t]).all(|t| matches!(s.waiting[t], Some(l) if s.held[l]));
            if legit {
                s.stuck = true;
            } else if s.failure.is_none() {
                let w = s.waiting;
                s.failure = Some(Fail { sig: "no-progress".into(), msg: format!("after {} fair steps no operation finished although not every thread waits for a held lock (waiting: {:?}, held: {:?})", limit, &w[..s.threads], s.held) });
            }
            s.abort = true;
        } else if s.waiting[me].is_none() && s.step_in_op[me] > STEPS_PER_CALL {
            if s.failure.is_none() {
                s.failure = Some(Fail { sig: "blocks".into(), msg: format!("a call that must not wait took more than {STEPS_PER_CALL} atomic steps") });
            }
            s.abort = true;
        }
        if s.abort {
            drop(s);
            for c in &self.cv {
                c.notify_all();
            }
            std::panic::resume_unwind(Box::new(Stop));
        }
        let next = self.pick(&mut s, me);
        if next != me {
            s.switches += 1;
            s.current = next;
            self.cv[next].notify_all();
            self.wait(s, me);
        }
    }

    fn pick(&self, s: &mut State, me: usize) -> usize {
        let live: Vec<usize> = (0..s.threads).filter(|t| !s.finished[*t]).collect();
        if live.is_empty() {
            return me;
        }
        if s.pos < s.schedule.len() {
            let b = s.schedule[s.pos] as usize;
            s.pos += 1;
            // Half of the byte values stay on the same thread.
            if b >= 128 && !s.finished[me] {
                return me;
            }
            return live[b % live.len()];
        }
        // Round robin.
        *live.iter().find(|t| **t > me).unwrap_or(&live[0])
    }

    fn wait(&self, mut s: std::sync::MutexGuard<'_, State>, me: usize) {
        while s.current != me && !s.abort {
            s = self.cv[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
        if s.abort {
            drop(s);
            std::panic::resume_unwind(Box::new(Stop));
        }
    }

    fn finish(&self, me: usize) {
        set_monitor(None);
        let mut s = self.lock();
        s.finished[me] = true;
        s.idle = 0;
        if s.abort {
            return;
        }
        let next = self.pick(&mut s, me);
        s.current = next;
        drop(s);
        for c in &self.cv {
            c.notify_all();
        }
    }

    /// Start an operation: a scheduling point. Returns the time of the invocation.
    pub fn begin(&self, waits_for: Option<usize>) -> u64 {
        self.yield_point();
        let me = ME.with(|x| x.get());
        let mut s = self.lock();
        s.waiting[me] = waits_for;
        s.step_in_op[me] = 0;
        s.now += 1;
        s.now
    }

    /// The operation returned.
    pub fn end(&self) -> u64 {
        let me = ME.with(|x| x.get());
        let mut s = self.lock();
        s.waiting[me] = None;
        s.idle = 0;
        if s.step_in_op[me] == 0 {
            // The call took no step this harness can see (atomics outside the instrumented
            // ones): assume full synchronisation rather than raise a false alarm.
            let all = s.clocks;
            for c in &all {
                join(&mut s.clocks[me], c);
            }
        } else {
            s.observed += 1;
        }
        s.now += 1;
        s.now
    }

    pub fn set_held(&self, l: usize, h: bool) {
        self.lock().held[l] = h;
    }

    pub fn fail(&self, sig: &str, msg: String) {
        let mut s = self.lock();
        if s.failure.is_none() {
            s.failure = Some(Fail { sig: sig.into(), msg });
        }
    }

    /// Report an access to protected data by the thread that runs.
    pub fn access(&self, data: usize, write: bool) {
        let me = ME.with(|x| x.get());
        let mut s = self.lock();
        let c = s.clocks[me];
        let mut race = None;
        if let Some((t, w)) = s.last_write.get(&data) {
            if *t != me && w[*t] > c[*t] {
                race = Some(format!("thread {me} {} data {data} without the last write by thread {t} happening before", if write { "writes" } else { "reads" }));
            }
        }
        if write {
            if let Some(r) = s.reads.get(&data) {
                for t in 0..MAXT {
                    if t != me && r[t] > c[t] {
                        race = Some(format!("thread {me} writes data {data} without a read by thread {t} happening before"));
                    }
                }
            }
            s.last_write.insert(data, (me, c));
        } else {
            s.reads.entry(data).or_default()[me] = c[me];
        }
        // A new epoch so that later accesses are told apart from what was released before.
        s.clocks[me][me] += 1;
        if let Some(m) = race {
            if s.failure.is_none() {
                s.failure = Some(Fail { sig: "visibility".into(), msg: m });
            }
        }
    }

    /// Run the bodies as threads under the schedule.
    pub fn run<'a>(self: &Arc<Self>, bodies: Vec<Box<dyn FnOnce() + Send + 'a>>) -> Result<Outcome, Fail> {
        let first = {
            let mut s = self.lock();
            let n = s.threads;
            let f = match s.schedule.first() {
                Some(b) => *b as usize % n,
                None => 0,
            };
            s.pos = 1.min(s.schedule.len());
            s.current = f;
            f
        };
        let _ = first;
        let panics: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for (i, b) in bodies.into_iter().enumerate() {
                let me = self.clone();
                let panics = &panics;
                sc.spawn(move || {
                    ME.with(|x| x.set(i));
                    set_monitor(Some(me.clone()));
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let s = me.lock();
                        me.wait(s, i);
                        b();
                    }));
                    if let Err(e) = r {
                        if e.downcast_ref::<Stop>().is_none() {
                            panics.lock().unwrap().push(format!("thread {i} panicked"));
                            let mut s = me.lock();
                            s.abort = true;
                            drop(s);
                            for c in &me.cv {
                                c.notify_all();
                            }
                        }
                    }
                    me.finish(i);
                });
            }
        });
        let s = self.lock();
        if let Some(f) = &s.failure {
            return Err(f.clone());
        }
        if let Some(p) = panics.into_inner().unwrap().first() {
            return fail("panic", p.clone());
        }
        Ok(Outcome { stuck: s.stuck, switches: s.switches, observed: s.observed })
    }
}

pub struct Outcome {
    pub stuck: bool,
    pub switches: u64,
    pub observed: u64,
}

impl Monitor for Sched {
    fn before(&self, _addr: usize, _step: Step) {
        self.yield_point();
    }

    fn after(&self, addr: usize, step: Step) {
        let me = ME.with(|x| x.get());
        if me == usize::MAX {
            return;
        }
        let mut s = self.lock();
        let s = &mut *s;
        let rel = s.released.entry(addr).or_default();
        match step {
            Step::Load(o) => {
                if acquires(o) {
                    join(&mut s.clocks[me], rel);
                }
            }
            Step::Store(o) => {
                if releases(o) {
                    *rel = s.clocks[me];
                    s.clocks[me][me] += 1;
                } else {
                    *rel = Clock::default();
                }
            }
            Step::Rmw(o) | Step::Cas(o, _) => {
                if acquires(o) {
                    join(&mut s.clocks[me], rel);
                }
                if releases(o) {
                    join(rel, &s.clocks[me]);
                    s.clocks[me][me] += 1;
                }
            }
        }
    }
}

/// One grant of access as seen from outside.
#[derive(Clone, Copy, Debug)]
pub struct Hold {
    pub thread: usize,
    pub object: usize,
    pub exclusive: bool,
    /// invocation and response of the acquiring call
    pub acq: (u64, u64),
    /// invocation and response of the release; `None`: never released
    pub rel: Option<(u64, u64)>,
}

impl Hold {
    pub fn certain(&self) -> (u64, u64) {
        (self.acq.1, self.rel.map_or(u64::MAX, |r| r.0))
    }
    pub fn possible(&self) -> (u64, u64) {
        (self.acq.0, self.rel.map_or(u64::MAX, |r| r.1))
    }
}

/// A refused request.
#[derive(Clone, Copy, Debug)]
pub struct Refusal {
    pub thread: usize,
    pub object: usize,
    pub exclusive: bool,
    pub call: (u64, u64),
}

fn overlap(a: (u64, u64), b: (u64, u64)) -> bool {
    a.0 < b.1 && b.0 < a.1
}

/// The history satisfies exclusion and every refusal has a reason.
pub fn judge(holds: &[Hold], refusals: &[Refusal]) -> Res {
    for (i, a) in holds.iter().enumerate() {
        for b in &holds[..i] {
            if a.object == b.object && (a.exclusive || b.exclusive) && overlap(a.certain(), b.certain()) {
                return fail("exclusion", format!("two holders at once: {a:?} and {b:?}"));
            }
        }
    }
    for r in refusals {
        let reason = holds.iter().any(|h| h.object == r.object && (h.exclusive || r.exclusive) && overlap(h.possible(), r.call));
        if !reason {
            return fail("refused-free", format!("refused although nothing conflicting was held at any time during the call: {r:?}; holds {holds:?}"));
        }
    }
    Ok(())
}
