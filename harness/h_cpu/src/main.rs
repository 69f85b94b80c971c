//! U01 instructions, U02 memory, U03 encoding, U04 calls, U05 faults and gas, U06 ordering.
#[allow(dead_code)]
mod ctx;
mod isa;
mod model;
mod rig;
mod elf;
mod u_call;
mod gen;
mod u_far;
mod u_fault;
mod u_elf;
mod u_prog;
mod u_enc;
mod u_sched;
mod u_mem;
mod u_ops;

fn main() {
    vkit::main(vec![u_ops::check(), u_mem::check(), u_enc::check(), u_call::check(), u_sched::check(), u_fault::check(), u_elf::check(), u_prog::check()])
}
