//! R01 integer programs, R02 circuit executor, R03 stored objects, R04 encryption routes.
mod common;
mod r_circ;
mod r_prog;
mod r_enc;
mod r_store;
mod r_exec;
mod sym;
mod diag;

#[global_allocator]
static ALLOC: r_store::Counting = r_store::Counting;

fn main() {
    if std::env::var("DIAG").is_ok() { return diag::run(); }
    vkit::main(vec![r_prog::check(), r_exec::check(), r_store::check(), r_enc::check()])
}
