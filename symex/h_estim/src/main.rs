//! Estimators and discretization.
#![allow(clippy::all)]
mod attitude;
mod eskf;
mod kf;
mod particle;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = vec![];
    v.extend(eskf::all());
    v.extend(attitude::all());
    v.extend(kf::all());
    v.extend(particle::all());
    engine::main_with(v);
}
