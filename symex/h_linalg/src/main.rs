//! Linear algebra: factorizations, decompositions, algebra.
#![allow(clippy::all)]
mod algebra;
mod eigen;
mod factor;
mod util;
fn main() {
    let mut v = vec![];
    v.extend(factor::all());
    v.extend(eigen::all());
    v.extend(algebra::all());
    engine::main_with(v);
}
