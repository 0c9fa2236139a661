//! Autodiff scalars, derivative front-ends, finite differences.
#![allow(clippy::all)]
mod fd;
mod fronts;
mod rules;
fn main() {
    let mut v = vec![];
    v.extend(rules::all());
    v.extend(fronts::all());
    v.extend(fd::all());
    engine::main_with(v);
}
