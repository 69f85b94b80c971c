//! X01 arithmetic circuits, X02 circuit transformations.
mod arith;
mod flat;
mod trans;

fn main() {
    vkit::main(vec![arith::check(), trans::check()])
}
