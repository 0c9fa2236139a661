//! C29: minimum-snap planning.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::MotionError as E;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use multicalc::polynomial::PiecewisePolynomial;

/// n-th derivative of one piece against the shared parameter, at local 0 or 1
fn end<const P: usize, const D: usize, S: Sc>(c: &PiecewisePolynomial<P, 8, D, S>, piece: usize, axis: usize, at_end: bool, n: usize) -> S {
    let p = c.piece_polynomial(piece, axis).unwrap().coefficients();
    let mut t = S::ZERO;
    for k in n..8 {
        let ways: f64 = (0..n).map(|i| (k - i) as f64).product();
        if at_end || k == n {
            t = t + p[k] * S::c(ways);
        }
    }
    let s = c.span(piece).unwrap();
    for _ in 0..n {
        t = t / s;
    }
    t
}
fn plan<const N: usize, const D: usize, S: Sc>(cx: &mut Cx<S>, durations: [S; N]) {
    let w: Vec<Vector<D, S>> = (0..N + 1).map(|i| Vector::new(std::array::from_fn(|a| cx.var_open(&format!("w{i}{a}"), -8.0, 8.0)))).collect();
    let b: [[Vector<D, S>; 3]; 2] =
        std::array::from_fn(|s| std::array::from_fn(|k| Vector::new(std::array::from_fn(|a| cx.var_open(&format!("b{s}{k}{a}"), -4.0, 4.0)))));
    let set = |x: [Vector<D, S>; 3]| BoundaryDerivatives { velocity: x[0], acceleration: x[1], jerk: x[2] };
    let c = MinimumSnapPlanner::<N, 6, D, S>::new().with_start(set(b[0])).with_end(set(b[1])).plan(&w, &durations).unwrap();
    cx.holds("one piece per segment", c.piece_count() == N);
    for a in 0..D {
        for i in 0..N {
            cx.eq("span", c.span(i).unwrap(), durations[i]);
            cx.near("leaves its waypoint", end(&c, i, a, false, 0), w[i][a], 1e-6);
            cx.near("reaches the next one", end(&c, i, a, true, 0), w[i + 1][a], 1e-6);
        }
        for k in 0..3 {
            cx.near("start motion", end(&c, 0, a, false, k + 1), b[0][k][a], 1e-6);
            cx.near("end motion", end(&c, N - 1, a, true, k + 1), b[1][k][a], 1e-6);
        }
        for i in 1..N {
            for k in 1..4 {
                cx.near("smooth across the join", end(&c, i, a, false, k), end(&c, i - 1, a, true, k), 1e-5);
            }
            // The total snap is least exactly when its own first three derivatives also join up
            // (stationarity in the three free values at the join; the cost is convex).
            for k in 4..7 {
                cx.near("no smoother path exists", end(&c, i, a, false, k), end(&c, i - 1, a, true, k), 1e-3);
            }
        }
    }
}
fn one<S: Sc>(cx: &mut Cx<S>) {
    let t = [S::ONE, S::c(0.5), S::c(2.0)][cx.choose(3)];
    plan::<1, 1, S>(cx, [t]);
}
fn two<S: Sc>(cx: &mut Cx<S>) {
    let t = [[1.0, 1.0], [0.5, 2.0], [1.5, 0.75]][cx.choose(3)];
    plan::<2, 1, S>(cx, t.map(S::c));
}
fn two_axes<S: Sc>(cx: &mut Cx<S>) {
    plan::<2, 2, S>(cx, [S::ONE, S::c(1.5)]);
}
fn three<S: Sc>(cx: &mut Cx<S>) {
    let t = [[1.0, 1.0, 1.0], [0.5, 2.0, 1.0]][cx.choose(2)];
    plan::<3, 1, S>(cx, t.map(S::c));
}
fn standstill<S: Sc>(cx: &mut Cx<S>) {
    // default boundaries, and room for more segments than used
    let w: Vec<Vector<1, S>> = (0..3).map(|i| Vector::new([cx.var_open(&format!("w{i}"), -8.0, 8.0)])).collect();
    let c = MinimumSnapPlanner::<4, 9, 1, S>::new().plan(&w, &[S::ONE, S::TWO]).unwrap();
    for k in 1..4 {
        cx.near("start at rest", end(&c, 0, 0, false, k), S::ZERO, 1e-6);
        cx.near("finish at rest", end(&c, 1, 0, true, k), S::ZERO, 1e-6);
    }
    for k in 0..7 {
        cx.near("joined", end(&c, 1, 0, false, k), end(&c, 0, 0, true, k), 1e-3);
    }
    cx.near("through the middle", end(&c, 0, 0, true, 0), w[1][0], 1e-6);
}
fn refuse<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(5);
    let m = cx.choose(5);
    let bad_w = cx.choose(2) == 1;
    let x = if bad_w { cx.any("x") } else { S::ONE };
    let d = cx.any("d");
    let mut w: Vec<Vector<1, S>> = (0..n).map(|i| Vector::new([S::from_usize(i)])).collect();
    if n > 0 {
        w[n - 1] = Vector::new([x]);
    }
    let mut t = vec![S::ONE; m];
    if m > 0 {
        t[m - 1] = d;
    }
    let b = cx.choose(7);
    let mut bd = [BoundaryDerivatives::<1, S>::default(); 2];
    if b > 0 {
        let v = Vector::new([S::NAN]);
        let e = &mut bd[(b - 1) / 3];
        match (b - 1) % 3 {
            0 => e.velocity = v,
            1 => e.acceleration = v,
            _ => e.jerk = v,
        }
    }
    let g = MinimumSnapPlanner::<3, 3, 1, S>::new().with_start(bd[0]).with_end(bd[1]).plan(&w, &t);
    let want = if n < 2 {
        Some(E::PathTooShort)
    } else if n - 1 > 3 {
        Some(E::CapacityExceeded)
    } else if m != n - 1 {
        Some(E::SegmentCountMismatch)
    } else if !d.is_finite() || cx.ask(le(d, S::ZERO)) {
        Some(E::DurationNotPositive)
    } else if !x.is_finite() || b > 0 {
        Some(E::NonFinite)
    } else if n == 4 {
        Some(E::WorkspaceTooSmall)
    } else {
        return;
    };
    cx.holds("refused", g.err() == want);
}
fn durations<S: Sc>(cx: &mut Cx<S>) {
    let w: [Vector<2, S>; 3] = std::array::from_fn(|i| Vector::new([cx.var_open(&format!("x{i}"), -9.0, 9.0), cx.var_open(&format!("y{i}"), -9.0, 9.0)]));
    let v = cx.any("v");
    for i in 0..2 {
        // keep the norm in its ordinary branch
        let d = [w[i + 1][0] - w[i][0], w[i + 1][1] - w[i][1]];
        cx.assume(or(vec![and(vec![eq(d[0], S::ZERO), eq(d[1], S::ZERO)]), lt(S::c(0.01), d[0] * d[0] + d[1] * d[1])]));
    }
    let mut t = [S::ZERO; 2];
    let g = durations_from_average_speed(&w, v, &mut t);
    if !v.is_finite() || cx.ask(le(v, S::ZERO)) {
        cx.holds("speed", g.err() == Some(E::DurationNotPositive));
        return;
    }
    for i in 0..2 {
        if cx.ask(and(vec![eq(w[i][0], w[i + 1][0]), eq(w[i][1], w[i + 1][1])])) {
            cx.holds("no distance", g.err() == Some(E::DurationNotPositive));
            return;
        }
    }
    cx.holds("accepted", g.is_ok());
    for i in 0..2 {
        let d = [w[i + 1][0] - w[i][0], w[i + 1][1] - w[i][1]];
        cx.check("positive", lt(S::ZERO, t[i]));
        cx.eq("distance over speed", t[i] * t[i] * v * v, d[0] * d[0] + d[1] * d[1]);
    }
    cx.holds("count", durations_from_average_speed(&w, v, &mut [S::ZERO; 3]).err() == Some(E::SegmentCountMismatch));
    cx.holds("short", durations_from_average_speed(&w[..1], v, &mut []).err() == Some(E::PathTooShort));
    let bad = [w[0], Vector::new([S::NAN, S::ONE])];
    cx.holds("finite", durations_from_average_speed(&bad, v, &mut [S::ZERO]).err() == Some(E::NonFinite));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C29", one, "MinimumSnapPlanner::plan, from_endpoint_derivatives; 1 segment, arbitrary ends and boundary motion, durations 1, 1/2, 2", |x| { x.cfg.snap = true; }),
        h!("C29", two, "MinimumSnapPlanner::{plan,classify}, snap_cost, endpoint_mapping_inverse, lu_decompose, solve_matrix; 2 segments, three timings", |x| { x.cfg.snap = true; }),
        h!("C29", two_axes, "as above; 2 segments in 2 axes", |x| { x.cfg.snap = true; }),
        h!("C29", three, "as above; 3 segments, two timings", |x| { x.cfg.snap = true; }),
        h!("C29", standstill, "default boundaries, spare capacity", |x| { x.cfg.snap = true; }),
        h!("C29", refuse, "MinimumSnapPlanner::plan error reports; 0-4 waypoints and durations", |x| { x.cfg.snap = true; }),
        h!("C29", durations, "durations_from_average_speed; 3 arbitrary waypoints in the plane", |x| { x.cfg.snap = true; }),
    ]
}
