#[macro_use]
mod common;
mod fhe;
mod t_boot;
mod t_enc;
mod t_ks;
mod t_lin;
mod t_math;
mod t_shape;
mod t_view;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--entropy") {
        for w in t_enc::entropy_words() {
            println!("{w}");
        }
        return;
    }
    if std::env::args().nth(1).as_deref() == Some("--shape-survey") {
        return t_shape::survey();
    }
    let mut v = vec![];
    v.extend(t_math::checks());
    v.extend(t_enc::checks());
    v.extend(t_lin::checks());
    v.extend(t_ks::checks());
    v.extend(t_boot::checks());
    v.extend(t_view::checks());
    v.extend(t_shape::checks());
    vkit::main(v)
}
