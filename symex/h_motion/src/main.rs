mod path;
mod profile;
mod snap;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    let mut v = vec![];
    v.extend(profile::all());
    v.extend(snap::all());
    v.extend(path::all());
    engine::main_with(v)
}
