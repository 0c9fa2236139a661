mod grid;
mod scan;

fn main() {
    let mut v = vec![];
    v.extend(grid::all());
    v.extend(scan::all());
    engine::main_with(v)
}
