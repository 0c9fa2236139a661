//! Calculus: integrators, quadrature, roots, optimization, discretization, approximations.
#![allow(clippy::all)]
mod fields;
mod ode;
mod optim;
mod quad;
mod roots;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = vec![];
    v.extend(fields::all());
    v.extend(ode::all());
    v.extend(optim::all());
    v.extend(quad::all());
    v.extend(roots::all());
    engine::main_with(v);
}
