//! C01, C02: generated thread programs under generated schedules.
//!
//! Every thread of a case is an OS thread, but only the one holding the token runs; the token
//! moves only at the atomic steps of the code under test (parasol_concurrency built with
//! cfg(spf_verif) reports them) and at the start of each operation, to the thread the generated
//! schedule names. What the code under test did is judged from the recorded history (intervals
//! between invocation and response in a global step order) and, for visibility, from vector
//! clocks derived from the memory orderings the code really used.
mod cell;
mod lock;
mod sched;

fn main() {
    vkit::main(vec![lock::check(), cell::check()])
}
