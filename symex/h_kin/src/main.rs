mod collide;
mod drive;
mod ik;
mod tree;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;
fn main() {
    let mut v = tree::all();
    v.extend(ik::all());
    v.extend(drive::all());
    v.extend(collide::all());
    engine::main_with(v)
}
