//! C30: polyline path queries.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::MotionError as E;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;

type P<S> = PolylinePath<4, 2, S>;
/// legs of whole length, one of them doubled back and one repeated waypoint
const SETS: [&[[f64; 2]]; 4] = [&[[0.0, 0.0], [3.0, 4.0], [3.0, 16.0]], &[[1.0, 1.0], [1.0, 1.0], [5.0, 1.0], [5.0, -2.0]], &[[0.0, 0.0], [6.0, 8.0], [3.0, 4.0]], &[[-1.0, 2.0], [-1.0, -4.0]]];
fn pts<S: Sc>(k: usize) -> Vec<Vector<2, S>> {
    SETS[k].iter().map(|p| Vector::new(p.map(S::c))).collect()
}
fn lens(k: usize) -> Vec<f64> {
    SETS[k].windows(2).map(|w| ((w[1][0] - w[0][0]).powi(2) + (w[1][1] - w[0][1]).powi(2)).sqrt()).collect()
}
fn sq<S: Sc>(a: Vector<2, S>, b: Vector<2, S>) -> S {
    (a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])
}
fn closest<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    let (w, l) = (pts::<S>(k), lens(k));
    let path = P::try_from_points(&w).unwrap();
    let q = Vector::new([cx.var_open("qx", -20.0, 20.0), cx.var_open("qy", -20.0, 20.0)]);
    for a in &w {
        cx.assume(lt(S::c(1e-3), sq(q, *a)));
    }
    let g = path.closest_point(q).unwrap();
    let i = g.segment_index();
    cx.holds("segment", i + 1 < w.len());
    let s = g.arc_length() - S::c(l[..i].iter().sum::<f64>());
    cx.check("arc length inside its segment", and(vec![le(S::ZERO, s), le(s, S::c(l[i]))]));
    let c = g.point();
    for a in 0..2 {
        cx.eq("point at that arc length", (c[a] - w[i][a]) * S::c(l[i].max(1e-300)), (w[i + 1][a] - w[i][a]) * s);
    }
    cx.check("distance", and(vec![le(S::ZERO, g.distance()), eq(g.distance() * g.distance(), sq(q, c))]));
    let u = cx.var_open("u", 0.0, 1.0);
    for j in 0..w.len() - 1 {
        let p = Vector::new([w[j][0] + (w[j + 1][0] - w[j][0]) * u, w[j][1] + (w[j + 1][1] - w[j][1]) * u]);
        cx.check("no path point is closer", le(sq(q, c), sq(q, p)));
    }
}
fn at_arc<S: Sc>(cx: &mut Cx<S>, k: usize, s: S) -> [S; 2] {
    let (w, l) = (pts::<S>(k), lens(k));
    let mut start = 0.0;
    for i in 0..l.len() {
        if l[i] > 0.0 && cx.ask(le(s, S::c(start + l[i]))) {
            let u = (s - S::c(start)) / S::c(l[i]);
            return [w[i][0] + (w[i + 1][0] - w[i][0]) * u, w[i][1] + (w[i + 1][1] - w[i][1]) * u];
        }
        start += l[i];
    }
    let e = w[w.len() - 1];
    [e[0], e[1]]
}
fn ahead_stop<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    let mut path = P::try_from_points(&pts::<S>(k)).unwrap();
    if cx.choose(2) == 1 {
        path = path.with_end_of_path(EndOfPath::Stop);
    }
    let (from, by) = (cx.nonneg("from"), cx.nonneg("by"));
    let g = path.lookahead_point(from, by).unwrap();
    let want = at_arc(cx, k, from + by);
    cx.eqs("point that far along, or the last waypoint", &[g[0], g[1]], &want);
}
fn ahead_loop<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    let path = P::try_from_points(&pts::<S>(k)).unwrap().with_end_of_path(EndOfPath::Loop);
    let total: f64 = lens(k).iter().sum();
    let (from, by) = (cx.var_open("from", -40.0, 40.0), cx.var_open("by", -40.0, 40.0));
    let g = path.lookahead_point(from, by).unwrap();
    // unwrap by whole laps
    let mut s = from + by;
    for _ in 0..40 {
        if cx.ask(lt(s, S::ZERO)) {
            s = s + S::c(total);
        } else if cx.ask(le(S::c(total), s)) {
            s = s - S::c(total);
        } else {
            break;
        }
    }
    let want = at_arc(cx, k, s);
    cx.eqs("point that far along, lap after lap", &[g[0], g[1]], &want);
}
fn lengths<S: Sc>(cx: &mut Cx<S>) {
    // push and try_from_points agree, and lengths accumulate
    let n = cx.choose(4);
    let w: Vec<Vector<2, S>> = (0..n).map(|i| Vector::new([cx.var_open(&format!("x{i}"), -9.0, 9.0), cx.var_open(&format!("y{i}"), -9.0, 9.0)])).collect();
    for i in 1..n {
        let d = sq(w[i], w[i - 1]);
        cx.assume(or(vec![eq(d, S::ZERO), lt(S::c(0.01), d)]));
    }
    let a = P::try_from_points(&w).unwrap();
    let mut b = P::new();
    for p in &w {
        b.push(*p).unwrap();
    }
    cx.holds("count", a.len() == n && b.len() == n && a.is_empty() == (n == 0) && a.waypoints().len() == n);
    cx.eq("both ways agree", a.total_arc_length(), b.total_arc_length());
    for i in 0..n {
        cx.eqs("waypoints", &[a.waypoints()[i][0], a.waypoints()[i][1]], &[w[i][0], w[i][1]]);
        cx.eqs("waypoints", &[b.waypoints()[i][0], b.waypoints()[i][1]], &[w[i][0], w[i][1]]);
    }
    let mut t = S::ZERO;
    for i in 1..n {
        t = t + sq(w[i], w[i - 1]).sqrt();
    }
    cx.eq("total is the sum of the legs", a.total_arc_length(), t);
}
fn short<S: Sc>(cx: &mut Cx<S>) {
    let q = Vector::new([cx.var_open("qx", -9.0, 9.0), cx.var_open("qy", -9.0, 9.0)]);
    let e = P::<S>::new();
    cx.holds("nothing to project on", e.closest_point(q).err() == Some(E::PathTooShort) && e.lookahead_point(S::ZERO, S::ONE).err() == Some(E::PathTooShort));
    cx.eq("no length", e.total_arc_length(), S::ZERO);
    let a = Vector::new([cx.var_open("x", -9.0, 9.0), cx.var_open("y", -9.0, 9.0)]);
    cx.assume(lt(S::c(0.01), sq(a, q)));
    let mut path = P::try_from_points(&[a]).unwrap();
    if cx.choose(2) == 1 {
        path = path.with_end_of_path(EndOfPath::Loop);
    }
    let g = path.closest_point(q).unwrap();
    cx.eqs("the one point", &[g.point()[0], g.point()[1]], &[a[0], a[1]]);
    cx.eq("distance", g.distance() * g.distance(), sq(a, q));
    cx.eq("arc length", g.arc_length(), S::ZERO);
    cx.holds("segment", g.segment_index() == 0);
    let s = cx.var("s");
    let p = path.lookahead_point(s, S::ONE).unwrap();
    cx.eqs("the one point", &[p[0], p[1]], &[a[0], a[1]]);
    // a loop of no length stays where it is
    let z = P::try_from_points(&[a, a]).unwrap().with_end_of_path(EndOfPath::Loop);
    let p = z.lookahead_point(s, S::ONE).unwrap();
    cx.eqs("no length", &[p[0], p[1]], &[a[0], a[1]]);
}
fn refuse<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.any("x");
    let n = cx.choose(6);
    let mut w: Vec<Vector<2, S>> = vec![Vector::new([S::ONE, S::TWO]); n];
    if n > 0 {
        w[n - 1] = Vector::new([S::ZERO, x]);
    }
    // a leg has to stay clear of the norm's extreme-magnitude branches
    if x.is_finite() {
        cx.assume(and(vec![lt(S::c(-100.0), x), lt(x, S::c(100.0))]));
    }
    let want = if n > 4 {
        Some(E::CapacityExceeded)
    } else if n > 0 && !x.is_finite() {
        Some(E::NonFinite)
    } else {
        None
    };
    cx.holds("from a slice", P::try_from_points(&w).err() == want);
    let mut p = P::new();
    let mut got = None;
    for (i, v) in w.iter().enumerate() {
        let r = p.push(*v);
        cx.holds("a refused point is not added", p.len() == if r.is_ok() { i + 1 } else { i });
        got = r.err();
    }
    cx.holds("one by one", got == want);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C30", closest, "PolylinePath::closest_point; four paths (bend, repeated waypoint, doubling back, single leg), arbitrary query", |x| { x.cfg.eps_zero = true; }),
        h!("C30", ahead_stop, "PolylinePath::lookahead_point, EndOfPath::Stop; four paths, arbitrary non-negative arc lengths"),
        h!("C30", ahead_loop, "PolylinePath::lookahead_point, EndOfPath::Loop; four paths, arbitrary arc lengths within 80"),
        h!("C30", lengths, "PolylinePath::{try_from_points,push,total_arc_length,waypoints}; 0-3 arbitrary waypoints", |x| { x.cfg.eps_zero = true; }),
        h!("C30", short, "empty, single-point and zero-length paths", |x| { x.cfg.eps_zero = true; }),
        h!("C30", refuse, "PolylinePath capacity and finiteness errors", |x| { x.cfg.eps_zero = true; }),
    ]
}
