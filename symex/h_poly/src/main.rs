mod algebra;
mod pieces;
mod roots;
#[path = "../../h_spatial/src/util.rs"]
#[allow(dead_code)]
mod util;

fn main() {
    let mut v = vec![];
    v.extend(algebra::all());
    v.extend(pieces::all());
    v.extend(roots::all());
    engine::main_with(v)
}
