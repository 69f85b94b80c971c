//! M01 modular integers, M02 ring polynomials, M03 combinations, statistics, geometry, security.
mod misc;
mod moduli;
mod poly;
mod zq;

fn main() {
    vkit::main(vec![zq::check(), poly::check(), misc::check()])
}
