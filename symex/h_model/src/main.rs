mod load;
mod mjcf;
mod urdf;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = mjcf::all();
    v.extend(urdf::all());
    engine::main_with(v)
}
