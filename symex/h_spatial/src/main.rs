mod lie;
mod quat;
mod screw;
mod util;
fn main() {
    let mut v = quat::all();
    v.extend(lie::all());
    v.extend(screw::all());
    engine::main_with(v)
}
