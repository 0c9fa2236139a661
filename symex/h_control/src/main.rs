//! Controllers.
#![allow(clippy::all)]
mod attitude;
mod guide;
mod pid;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = vec![];
    v.extend(pid::all());
    v.extend(attitude::all());
    v.extend(guide::all());
    engine::main_with(v);
}
