//! C37: a free rigid body and its rotors. C43: normal draws.
mod body;
mod normal;
mod rotors;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = body::all();
    v.extend(rotors::all());
    v.extend(normal::all());
    engine::main_with(v)
}
