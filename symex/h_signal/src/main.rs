//! Filters and signal conditioning.
#![allow(clippy::all)]
mod conditioning;
mod design;
mod filters;
fn main() {
    let mut v = vec![];
    v.extend(filters::all());
    v.extend(design::all());
    v.extend(conditioning::all());
    engine::main_with(v);
}
