//! C31: cells, rays and drawing.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::MappingError as E;
use multicalc::mapping::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// A map whose cells are free or blocked as the explorer likes, settled when they are first read.
struct Room<S: Sc> {
    columns: usize,
    rows: usize,
    resolution: S,
    origin: [S; 2],
    cx: *mut Cx<S>,
    read: RefCell<BTreeMap<(usize, usize), bool>>,
}
impl<S: Sc> OccupancyMap<S> for Room<S> {
    fn columns(&self) -> usize {
        self.columns
    }
    fn rows(&self) -> usize {
        self.rows
    }
    fn resolution(&self) -> S {
        self.resolution
    }
    fn origin(&self) -> [S; 2] {
        self.origin
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        if row >= self.rows || column >= self.columns {
            return false;
        }
        // the harness's own context, alive for the whole walk
        *self.read.borrow_mut().entry((row, column)).or_insert_with(|| unsafe { (*self.cx).choose(2) == 1 })
    }
}
/// A map that only remembers what was drawn.
struct Paper<S: Sc> {
    columns: usize,
    rows: usize,
    resolution: S,
    origin: [S; 2],
    drawn: BTreeMap<(usize, usize), bool>,
}
impl<S: Sc> OccupancyMap<S> for Paper<S> {
    fn columns(&self) -> usize {
        self.columns
    }
    fn rows(&self) -> usize {
        self.rows
    }
    fn resolution(&self) -> S {
        self.resolution
    }
    fn origin(&self) -> [S; 2] {
        self.origin
    }
    fn is_occupied(&self, row: usize, column: usize) -> bool {
        self.drawn.get(&(row, column)).copied().unwrap_or(false)
    }
}
impl<S: Sc> MutableOccupancyMap<S> for Paper<S> {
    fn set_cell(&mut self, row: usize, column: usize, occupied: bool) {
        self.drawn.insert((row, column), occupied);
    }
    fn clear(&mut self) {
        self.drawn.clear();
    }
}

fn cell<S: Sc>(cx: &mut Cx<S>) {
    let (columns, rows) = [(3, 2), (1, 3), (2, 0)][cx.choose(3)];
    let (res, o) = (cx.var_open("res", 0.0, 10.0), [cx.var_open("ox", -50.0, 50.0), cx.var_open("oy", -50.0, 50.0)]);
    let m = Paper { columns, rows, resolution: res, origin: o, drawn: BTreeMap::new() };
    let odd = cx.choose(7);
    let (u, v) = (cx.var_open("u", -3.0, 6.0), cx.var_open("v", -3.0, 6.0));
    let mut p = [o[0] + u * res, o[1] + v * res];
    if odd > 0 {
        p[(odd - 1) / 3] = [S::NAN, S::INFINITY, S::NEG_INFINITY][(odd - 1) % 3];
        cx.holds("nowhere", m.cell_of(p).is_none());
        return;
    }
    let inside = cx.ask(and(vec![le(S::ZERO, u), le(S::ZERO, v), lt(u, S::from_usize(columns)), lt(v, S::from_usize(rows))]));
    match m.cell_of(p) {
        None => cx.holds("off the map", !inside),
        Some((r, c)) => {
            cx.holds("on the map", inside && r < rows && c < columns);
            let (r, c) = (S::from_usize(r), S::from_usize(c));
            cx.check("its own square, lower edges included", and(vec![le(c, u), lt(u, c + S::ONE), le(r, v), lt(v, r + S::ONE)]));
        }
    }
}
/// the beam's point `t` along, in cells from the map's corner
fn along<S: Sc>(o: [S; 2], d: [S; 2], t: S) -> [S; 2] {
    [o[0] + d[0] * t, o[1] + d[1] * t]
}
fn cast<S: Sc>(cx: &mut Cx<S>, from_outside: Option<usize>, quadrant: usize, slanted: bool) {
    let (columns, rows) = if cx.thorough() || !slanted { (3usize, 2usize) } else { (2, 2) };
    let wide = columns as f64;
    let me: *mut Cx<S> = cx;
    let (res, o) = (S::c(0.5), [S::c(-1.0), S::c(0.25)]);
    let m = Room { columns, rows, resolution: res, origin: o, cx: me, read: RefCell::new(BTreeMap::new()) };
    // the start in cells
    let s = if let Some(side) = from_outside {
        let (u, v) = (cx.var_open("u", 0.01, wide - 0.01), cx.var_open("v", 0.01, 1.99));
        let w = cx.var_open("w", 0.01, 2.0);
        [[-w, v], [S::c(wide) + w, v], [u, -w], [u, S::TWO + w]][side]
    } else {
        [cx.var_open("u", 0.0, wide), cx.var_open("v", 0.0, 2.0)]
    };
    let bearing = if slanted {
        // tan of half the angle
        let b = cx.var_open("b", 0.02, 0.95);
        let b = (S::TWO * b).atan2(S::ONE - b * b);
        [b, S::PI - b, b - S::PI, -b][quadrant]
    } else {
        [S::ZERO, S::PI * S::HALF, S::PI, -S::PI * S::HALF][quadrant]
    };
    let d = [bearing.cos(), bearing.sin()];
    let d = if slanted { d } else { [[S::ONE, S::ZERO], [S::ZERO, S::ONE], [-S::ONE, S::ZERO], [S::ZERO, -S::ONE]][quadrant] };
    let reach = cx.var_open("reach", 0.0, 3.0);
    let start = [o[0] + s[0] * res, o[1] + s[1] * res];
    let got = m.cast_ray(start, bearing, reach);
    // distances in cells
    let cells = S::TWO;
    let t = cx.var_open("t", 0.0, 10.0);
    let blocked: Vec<_> = m.read.borrow().iter().filter(|e| *e.1).map(|e| *e.0).collect();
    let clear_until = match got {
        Some(distance) => {
            cx.check("within reach", and(vec![le(S::ZERO, distance), le(distance, reach)]));
            let p = along(s, d, distance * cells);
            let on: Vec<Prop<S>> = blocked
                .iter()
                .map(|(r, c)| {
                    let (r, c) = (S::from_usize(*r), S::from_usize(*c));
                    and(vec![near_le(c, p[0]), near_le(p[0], c + S::ONE), near_le(r, p[1]), near_le(p[1], r + S::ONE)])
                })
                .collect();
            cx.check("stops on a blocked cell", or(on));
            distance
        }
        None => reach,
    };
    cx.assume(lt(t, clear_until * cells));
    let p = along(s, d, t);
    for r in 0..rows {
        for c in 0..columns {
            if m.read.borrow().get(&(r, c)) != Some(&false) {
                let (r, c) = (S::from_usize(r), S::from_usize(c));
                let e = S::c(1e-9);
                cx.check("nothing that may be blocked is passed through", not(and(vec![lt(c + e, p[0]), lt(p[0], c + S::ONE - e), lt(r + e, p[1]), lt(p[1], r + S::ONE - e)])));
            }
        }
    }
}
fn near_le<S: Sc>(a: S, b: S) -> Prop<S> {
    le(a, b + S::c(1e-9))
}
fn ray_inside_left<S: Sc>(cx: &mut Cx<S>) {
    let q = if cx.thorough() { 1 + cx.choose(2) } else { 2 };
    cast(cx, None, q, true)
}
fn ray_inside_right<S: Sc>(cx: &mut Cx<S>) {
    let q = if cx.thorough() { 3 * cx.choose(2) } else { 0 };
    cast(cx, None, q, true)
}
/// beams that start beside the map; in the quick tier those that may meet it, one way each
fn outside<S: Sc>(cx: &mut Cx<S>, quick: &[(usize, usize)]) {
    let (side, q) = if cx.thorough() { (cx.choose(4), cx.choose(4)) } else { quick[cx.choose(quick.len() as u32)] };
    cast(cx, Some(side), q, true)
}
fn ray_outside<S: Sc>(cx: &mut Cx<S>) {
    outside(cx, &[(0, 0), (1, 1)])
}
fn ray_outside_up<S: Sc>(cx: &mut Cx<S>) {
    outside(cx, &[(2, 1), (3, 3)])
}
fn ray_straight<S: Sc>(cx: &mut Cx<S>) {
    let side = cx.choose(5);
    let q = cx.choose(4);
    cast(cx, if side == 4 { None } else { Some(side) }, q, false)
}
fn ray_nowhere<S: Sc>(cx: &mut Cx<S>) {
    let me: *mut Cx<S> = cx;
    let (columns, rows) = [(2, 2), (0, 2), (2, 0)][cx.choose(3)];
    let m = Room { columns, rows, resolution: S::ONE, origin: [S::ZERO; 2], cx: me, read: RefCell::new(BTreeMap::new()) };
    let (x, y, b) = (cx.any("x"), cx.any("y"), [S::ZERO, S::NAN, S::INFINITY][cx.choose(3)]);
    if x.is_finite() && y.is_finite() && b.is_finite() && columns * rows > 0 {
        return;
    }
    cx.holds("meets nothing", m.cast_ray([x, y], b, S::c(5.0)).is_none());
}
/// some drawn cell comes within `margin` cells of the point (given in cells)
fn covered<S: Sc>(m: &Paper<S>, p: [S; 2], margin: f64) -> Prop<S> {
    let e = S::c(margin);
    or(m.drawn
        .keys()
        .map(|(r, c)| {
            let (r, c) = (S::from_usize(*r), S::from_usize(*c));
            and(vec![le(c - e, p[0]), le(p[0], c + S::ONE + e), le(r - e, p[1]), le(p[1], r + S::ONE + e)])
        })
        .collect())
}
fn polyline<S: Sc>(cx: &mut Cx<S>) {
    // one edge at a time, from any place, whole-number directions
    let dirs = [[1.0, 0.0], [0.0, -1.0], [0.6, 0.8], [-0.8, 0.6], [-0.6, -0.8]];
    let d = dirs[cx.choose(if cx.thorough() { 5 } else { 3 })].map(S::c);
    let s = [cx.var_open("u", 1.5, 2.5), cx.var_open("v", 1.5, 2.5)];
    let l = cx.var_open("l", 0.05, if cx.thorough() { 1.5 } else { 0.8 });
    let (res, o) = (S::c(0.5), [S::c(-1.0), S::c(0.25)]);
    let mut m = Paper { columns: 5, rows: 5, resolution: res, origin: o, drawn: BTreeMap::new() };
    let at = |p: [S; 2]| [o[0] + p[0] * res, o[1] + p[1] * res];
    let e = along(s, d, l);
    m.occupy_polyline(&[at(s), at(e)], false);
    let t = cx.var_open("t", 0.0, 1.0);
    let p = along(s, d, l * t);
    cx.check("both ends drawn", and(vec![covered(&m, s, 1e-9), covered(&m, e, 1e-9)]));
    cx.check("no gap along the edge", covered(&m, p, 0.2));
    for (r, c) in m.drawn.keys() {
        cx.holds("blocked, not freed", m.drawn[&(*r, *c)]);
        // the cell's square meets the edge: some parameter lies between its four sides
        let (r, c) = (S::from_usize(*r), S::from_usize(*c));
        let (mut lo, mut hi) = (S::ZERO, l);
        for (a, k) in [(0, c), (1, r)] {
            if d[a] == S::ZERO {
                cx.check("drawn cells meet the edge", and(vec![near_le(k, s[a]), near_le(s[a], k + S::ONE)]));
            } else {
                let (x, y) = ((k - s[a]) / d[a], (k + S::ONE - s[a]) / d[a]);
                let (x, y) = if d[a] > S::ZERO { (x, y) } else { (y, x) };
                lo = lo.max(x);
                hi = hi.min(y);
            }
        }
        cx.check("drawn cells meet the edge", near_le(lo, hi));
    }
}
/// which edges are drawn, and in what shape
fn polyline_edges<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(5);
    let closed = cx.choose(2) == 1;
    let all = [[0.5, 0.5], [2.5, 0.5], [2.5, 3.5], [0.5, 3.5]];
    let dx = cx.var_open("dx", -0.05, 0.05);
    let pts: Vec<[S; 2]> = all[..n].iter().map(|p| [S::c(p[0]) + dx, S::c(p[1]) - dx]).collect();
    let mut m = Paper { columns: 4, rows: 5, resolution: S::ONE, origin: [S::ZERO; 2], drawn: BTreeMap::new() };
    m.occupy_polyline(&pts, closed);
    let mut want = std::collections::BTreeSet::new();
    let edges = if closed { n } else { n.saturating_sub(1) };
    for i in 0..edges {
        let (a, b) = (all[i], all[(i + 1) % n]);
        for k in 0..=20 {
            let f = k as f64 / 20.0;
            let (x, y) = (a[0] + f * (b[0] - a[0]), a[1] + f * (b[1] - a[1]));
            // places on a cell's side belong to a cell either way
            want.insert((y as usize, x as usize));
        }
    }
    let exact = n < 4 && (n != 3 || !closed);
    let got: std::collections::BTreeSet<_> = m.drawn.keys().copied().collect();
    if exact || n == 4 {
        cx.holds("the outline and nothing else", got == want);
    }
    cx.holds("corners", edges == 0 || pts.iter().all(|p| got.contains(&m.cell_of(*p).unwrap())));
}
fn circle<S: Sc>(cx: &mut Cx<S>) {
    let (radius, sign) = if cx.thorough() { ([0.3, 0.7, 1.2][cx.choose(3)], [1.0, -1.0][cx.choose(2)]) } else { [(0.3, 1.0), (0.7, -1.0)][cx.choose(2)] };
    // the centre anywhere in a cell, along lines through it
    let w = cx.var_open("w", 0.0, 1.0);
    let c = [[S::c(3.6), S::c(3.0) + w], [S::c(3.0) + w, S::c(3.0) + w], [S::c(3.0) + w, S::c(3.3)]][cx.choose(if cx.thorough() { 3 } else { 2 })];
    let (res, o) = (S::c(0.5), [S::c(-1.0), S::c(0.25)]);
    let mut m = Paper { columns: 7, rows: 7, resolution: res, origin: o, drawn: BTreeMap::new() };
    m.occupy_circle([o[0] + c[0] * res, o[1] + c[1] * res], S::c(radius * 0.5 * sign));
    let n = if cx.thorough() { 24 } else { 12 };
    for k in 0..n {
        let a = k as f64 / n as f64 * std::f64::consts::TAU;
        let p = [c[0] + S::c(radius * a.cos()), c[1] + S::c(radius * a.sin())];
        cx.check("no gap in the rim", covered(&m, p, 0.21));
    }
    for (r, q) in m.drawn.keys() {
        cx.holds("blocked, not freed", m.drawn[&(*r, *q)]);
        // nearest and farthest of the cell's square from the centre bracket the radius
        let (r, q) = (S::from_usize(*r), S::from_usize(*q));
        let (mut near, mut far) = (S::ZERO, S::ZERO);
        for (a, k) in [(0, q), (1, r)] {
            let (below, above) = (k - c[a], c[a] - k - S::ONE);
            let n = below.max(above).max(S::ZERO);
            let f = (-below).max(-above);
            near = near + n * n;
            far = far + f * f;
        }
        let rr = S::c(radius * radius);
        cx.check("drawn cells meet the rim", and(vec![near_le(near, rr), near_le(rr, far)]));
    }
}
fn circle_odd<S: Sc>(cx: &mut Cx<S>) {
    let mut m = Paper { columns: 3, rows: 3, resolution: S::ONE, origin: [S::ZERO; 2], drawn: BTreeMap::new() };
    match cx.choose(3) {
        0 => {
            let (x, y) = (cx.var_open("x", -1.0, 4.0), cx.var_open("y", -1.0, 4.0));
            m.occupy_circle([x, y], S::ZERO);
            let want = m.cell_of([x, y]);
            cx.holds("a point", m.drawn.keys().copied().collect::<Vec<_>>() == want.into_iter().collect::<Vec<_>>());
        }
        1 => {
            m.occupy_circle([S::NAN, S::ONE], S::ONE);
            cx.holds("nowhere", m.drawn.is_empty());
        }
        _ => {
            m.occupy_circle([S::ONE, S::ONE], [S::NAN, S::INFINITY, S::NEG_INFINITY][cx.choose(3)]);
            cx.holds("no rim", m.drawn.is_empty());
        }
    }
}
fn store<S: Sc>(cx: &mut Cx<S>) {
    let (columns, rows) = ([0, 2, usize::MAX / 2][cx.choose(3)], [0, 3][cx.choose(2)]);
    let (res, ox, oy) = (cx.any("res"), cx.any("ox"), cx.any("oy"));
    let g = DynamicOccupancyGrid::try_new(columns, rows, res, [ox, oy]);
    if columns == 0 || rows == 0 {
        cx.holds("empty", g.err() == Some(E::EmptyGrid));
    } else if columns > 2 {
        cx.holds("too large", g.err() == Some(E::GridTooLarge));
    } else if !res.is_finite() || !ox.is_finite() || !oy.is_finite() {
        cx.holds("non-finite", g.err() == Some(E::NonFinite));
    } else if cx.ask(le(res, S::ZERO)) {
        cx.holds("cell size", g.err() == Some(E::NonPositiveResolution));
    } else {
        let mut g = g.unwrap();
        cx.holds("size", g.columns() == columns && g.rows() == rows);
        cx.eq("cell size", g.resolution(), res);
        cx.eq("ox", g.origin()[0], ox);
        cx.eq("oy", g.origin()[1], oy);
        let cells = |g: &DynamicOccupancyGrid<S>| (0..4).flat_map(|r| (0..4).map(move |c| (r, c))).filter(|p| g.is_occupied(p.0, p.1)).collect::<Vec<_>>();
        cx.holds("starts free", cells(&g).is_empty());
        let (r, c) = (cx.choose(4), cx.choose(4));
        g.set_cell(r, c, true);
        g.set_cell(usize::MAX, 1, true);
        g.set_cell(1, usize::MAX, true);
        let on = if r < rows && c < columns { vec![(r, c)] } else { vec![] };
        cx.holds("that cell and no other", cells(&g) == on && !g.is_occupied(usize::MAX, usize::MAX));
        let (r2, c2) = (cx.choose(3), cx.choose(2));
        g.occupy_point([ox + res * (S::from_usize(c2) + S::HALF), oy + res * (S::from_usize(r2) + S::HALF)]);
        let mut both = on.clone();
        both.push((r2, c2));
        both.sort();
        both.dedup();
        cx.holds("the cell holding the point too", cells(&g) == both);
        g.set_cell(r, c, false);
        cx.holds("freed again", !g.is_occupied(r, c));
        g.set_cell(r2, c2, true);
        g.clear();
        cx.holds("cleared", cells(&g).is_empty());
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C31", cell, "OccupancyMap::cell_of; any cell size, corner and point, finite or not; maps of 3x2, 1x3 and 2x0 cells"),
        h!("C31", ray_inside_right, "OccupancyMap::cast_ray, entry_distance, boundary_distance, clamp_index; any start on a 2x2 (thorough: 3x2) map, bearings up and right (thorough: down too), any cells blocked", |x| { x.cfg.abs_fork = true; }),
        h!("C31", ray_inside_left, "as above, bearings down and left (thorough: up too)", |x| { x.cfg.abs_fork = true; }),
        h!("C31", ray_outside, "as above, starts left or right of the map", |x| { x.cfg.abs_fork = true; }),
        h!("C31", ray_outside_up, "as above, starts below or above the map", |x| { x.cfg.abs_fork = true; }),
        h!("C31", ray_straight, "as above, bearings along the axes, starts inside and beside the map"),
        h!("C31", ray_nowhere, "OccupancyMap::cast_ray; starts and bearings that are not finite, maps without cells"),
        h!("C31", polyline, "MutableOccupancyMap::{occupy_polyline,occupy_point}; one edge from anywhere, five directions, any length up to 0.8 (thorough: 1.5) cells", |x| { x.cfg.abs_fork = true; }),
        h!("C31", polyline_edges, "MutableOccupancyMap::occupy_polyline; 0-4 corners, open and closed", |x| { x.cfg.abs_fork = true; }),
        h!("C31", circle, "MutableOccupancyMap::occupy_circle; centres along two (thorough: three) lines across a cell, radius 0.3, 0.7 (thorough: 1.2) cells of either sign"),
        h!("C31", circle_odd, "MutableOccupancyMap::occupy_circle; radius zero, non-finite radius and centre"),
        h!("C31", store, "DynamicOccupancyGrid::{try_new,set_cell,is_occupied,clear,index_of}; sizes 0, 2, huge by 0, 3"),
    ]
}
