//! C12: pure pursuit, follow the gap, linear quadratic regulator.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::control::{FollowTheGap, Lqr, pure_pursuit_curvature};
use multicalc::error::{ControlError, LinalgError};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{SE2, SO2};

fn pursuit<S: Sc>(cx: &mut Cx<S>) {
    let u = cx.var_hint("u", -3.0, 3.0);
    let d = S::ONE + u * u;
    let (c, s) = ((S::ONE - u * u) / d, S::TWO * u / d);
    let Some(r) = SO2::try_from_matrix(Matrix::new([[c, -s], [s, c]])) else { return cx.holds("pose", false) };
    let (t, b): ([S; 2], [S; 2]) = (cx.vars("t"), cx.vars("b"));
    let pose = SE2::from_parts(r, Vector::new(t));
    let x = cx.any("x");
    if !cx.ask(Prop::Fin(x)) {
        let e = pure_pursuit_curvature(pose, Vector::new(b), x);
        cx.holds("distance not finite", matches!(e, Err(ControlError::NonPositiveLookaheadDistance)));
        let e = pure_pursuit_curvature(pose, Vector::new(if cx.choose(2) == 0 { [x, b[0]] } else { [b[0], x] }), S::ONE);
        cx.holds("point not finite", matches!(e, Err(ControlError::NonFinite)));
        return;
    }
    // the point seen from the robot
    let p = add(&t, &mv(&[[c, -s], [s, c]], &b));
    match pure_pursuit_curvature(pose, Vector::new(p), x) {
        Ok(k) => {
            cx.check("positive distance", lt(S::ZERO, x));
            cx.eq("curvature", k.value() * x * x, S::TWO * b[1]);
            let v = cx.var("v");
            let w = k.to_body_twist(v);
            cx.eq("speed", w.linear(), v);
            cx.eq("rate", w.angular(), v * k.value());
        }
        Err(e) => cx.check("distance not positive", if matches!(e, ControlError::NonPositiveLookaheadDistance) { le(x, S::ZERO) } else { Prop::B(false) }),
    }
    // with the distance to the point itself, the circle through the robot along its heading meets the point:
    // centre (0, 1/k), so b0^2 + (b1 - 1/k)^2 = 1/k^2
    let l2 = dot(&b, &b);
    if cx.ask(lt(S::c(0.01), l2)) {
        if let Ok(k) = pure_pursuit_curvature(pose, Vector::new(p), l2.sqrt()) {
            cx.eq("through the point", k.value() * l2, S::TWO * b[1]);
        } else {
            cx.holds("found", false);
        }
    }
}
const B: usize = 5;
/// Field of view of half a turn, so neighbouring beams are an eighth of a turn apart.
fn gap<const PART: usize, S: Sc>(cx: &mut Cx<S>) {
    let mask = cx.choose(1 << (B - 2)) as usize * 4 + PART;
    let (wide, top) = (cx.var_in("chassis", 0.1, 1.0), S::c(10.0));
    let thr = S::c(3.0);
    let bias = if cx.thorough() { cx.var_in("bias", 0.0, 2.0) } else { S::rat([0, 1, 3][(mask + mask / 4) % 3], 2) };
    let goal = if cx.thorough() { cx.var_in("goal", -1.5, 1.5) } else { S::rat([0, 3, -7][(mask + mask / 4 * 2) % 3], 8) };
    let r: [S; B] = std::array::from_fn(|i| {
        let free = mask >> i & 1 == 1;
        let beside = i > 0 && mask >> (i - 1) & 1 == 1 || mask >> (i + 1) & 1 == 1;
        if cx.thorough() || (!free && (beside || i == 2)) {
            if free { cx.var_in(&format!("r{i}"), 3.0, 9.0) } else { cx.var_open(&format!("r{i}"), 0.2, 3.0) }
        } else {
            S::rat(if free { 4 } else { 2 } + i as i64, if free { 1 } else { 3 })
        }
    });
    let f = FollowTheGap::<B, S>::try_new(S::PI, top, wide, thr, S::TWO).and_then(|f| f.with_goal_bias(bias));
    let Ok(f) = f else { return cx.holds("configured", false) };
    let Ok(o) = f.compute(&r, goal) else { return cx.holds("computed", false) };
    let ang = |i: usize| S::PI * S::rat(2 * i as i64 - 4, 8);
    for i in 0..B {
        match f.beam_angle(i) {
            Some(a) => cx.eq("beam angle", a, ang(i)),
            None => cx.holds("beam exists", false),
        }
    }
    cx.holds("no such beam", f.beam_angle(B).is_none());
    // every maximal open run that is wide enough, with where it would aim and its score
    let cosine = [S::ONE, S::HALF.sqrt(), S::ZERO, -S::HALF.sqrt(), -S::ONE];
    let mut runs: Vec<(usize, usize, S, S)> = vec![];
    let mut i = 0;
    while i < B {
        if mask >> i & 1 == 0 {
            i += 1;
            continue;
        }
        let s = i;
        while i < B && mask >> i & 1 == 1 {
            i += 1;
        }
        let e = i - 1;
        if s > 0 && e + 1 < B {
            let (x, y) = (r[s - 1], r[e + 1]);
            let chord2 = x * x + y * y - S::TWO * x * y * cosine[e + 1 - (s - 1)];
            cx.assume(lt(S::c(1e-6), (chord2 - wide * wide).abs()));
            if cx.ask(lt(chord2, wide * wide)) {
                continue;
            }
        }
        let inset = |x: S| (wide * S::HALF / x).atan();
        let low = if s > 0 { ang(s) + inset(r[s - 1]) } else { ang(s) };
        let high = if e + 1 < B { ang(e) - inset(r[e + 1]) } else { ang(e) };
        let aim = if low > high { (ang(s) + ang(e)) * S::HALF } else { goal.max(low).min(high) };
        runs.push((s, e, aim, (high - low).max(S::ZERO) - bias * (aim - goal).abs()));
    }
    // ties between scores are decided by rounding
    for i in 0..runs.len() {
        for j in 0..i {
            cx.assume(lt(S::c(1e-6), (runs[i].3 - runs[j].3).abs()));
        }
    }
    let least = o.minimum_clearance();
    cx.check("nearest obstacle", and(r.iter().map(|x| le(least, *x)).collect()));
    cx.check("nearest obstacle is one", or(r.iter().map(|x| eq(least, *x)).chain([eq(least, top)]).collect()));
    let t = o.body_twist();
    if runs.is_empty() {
        cx.holds("blocked", o.is_blocked());
        cx.eqs("full stop", &[t.linear(), t.angular(), o.heading()], &[S::ZERO; 3]);
        cx.holds("no gap", o.gap_start_index() == 0 && o.gap_end_index() == 0);
        return;
    }
    cx.holds("open", !o.is_blocked());
    cx.eq("turn rate", t.angular(), o.heading() * S::rat(3, 2));
    let chosen = runs.iter().find(|g| (g.0, g.1) == (o.gap_start_index(), o.gap_end_index()));
    cx.holds("a gap that is open and wide enough", chosen.is_some());
    if let Some(g) = chosen {
        cx.eq("heading", o.heading(), g.2);
        cx.check("the best gap", and(runs.iter().map(|x| le(x.3, g.3)).collect()));
    }
}
fn gap0<S: Sc>(cx: &mut Cx<S>) {
    gap::<0, S>(cx)
}
fn gap1<S: Sc>(cx: &mut Cx<S>) {
    gap::<1, S>(cx)
}
fn gap2<S: Sc>(cx: &mut Cx<S>) {
    gap::<2, S>(cx)
}
fn gap3<S: Sc>(cx: &mut Cx<S>) {
    gap::<3, S>(cx)
}
fn speed<S: Sc>(cx: &mut Cx<S>) {
    let (stop, clear) = (cx.var("stop"), cx.var("clear"));
    let (v, gain) = (cx.pos("v"), cx.pos("gain"));
    let base = FollowTheGap::<3, S>::try_new(S::ONE, S::c(10.0), S::c(0.2), S::c(2.0), v);
    let Ok(base) = base else { return cx.holds("configured", false) };
    let f = match base.with_speed_scaling(stop, clear) {
        Ok(f) => {
            cx.check("thresholds", and(vec![le(S::ZERO, stop), lt(stop, clear)]));
            f
        }
        Err(e) => {
            cx.check("refused thresholds", or(vec![lt(stop, S::ZERO), le(clear, stop)]));
            return cx.holds("scaling", matches!(e, ControlError::InvalidSpeedScaling));
        }
    };
    let h = cx.var_hint("h", -1.0, 1.0);
    let f = match f.with_frontal_half_angle(h) {
        Ok(f) => {
            cx.check("frontal angle", and(vec![lt(S::ZERO, h), le(h, S::HALF)]));
            f
        }
        Err(e) => {
            cx.check("refused angle", or(vec![le(h, S::ZERO), lt(S::HALF, h)]));
            return cx.holds("angle", matches!(e, ControlError::InvalidFieldOfView));
        }
    };
    let Ok(f) = f.with_steering_gain(gain) else { return cx.holds("gain", false) };
    let r = [cx.var_in("r0", 2.0, 9.0), cx.var_in("r1", 2.0, 9.0), cx.var_in("r2", 2.0, 9.0)];
    let goal = cx.var_in("goal", -0.4, 0.4);
    let Ok(o) = f.compute(&r, goal) else { return cx.holds("computed", false) };
    // all open: straight at the goal
    cx.eq("heading", o.heading(), goal);
    let t = o.body_twist();
    cx.eq("turn", t.angular(), gain * goal);
    // space ahead: the side beams count only when the frontal angle reaches them (half a radian)
    let mut ahead = r[1];
    if cx.ask(eq(h, S::HALF)) {
        for x in [r[0], r[2]] {
            if cx.ask(lt(x, ahead)) {
                ahead = x;
            }
        }
    }
    let want = if cx.ask(le(ahead, stop)) {
        S::ZERO
    } else if cx.ask(le(clear, ahead)) {
        v
    } else {
        v * (ahead - stop) / (clear - stop)
    };
    cx.eq("speed", t.linear(), want);
    cx.check("never above cruise or backwards", and(vec![le(S::ZERO, t.linear()), le(t.linear(), v)]));
}
/// Readings that are not finite, not positive or beyond the sensor's reach count as open space at the limit.
fn readings<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.any("x");
    let f = FollowTheGap::<3, S>::try_new(S::ONE, S::c(10.0), S::c(0.2), S::c(2.0), S::ONE).unwrap_or_else(|_| cx.stop());
    let k = cx.choose(3) as usize;
    let (mut a, mut b) = ([S::c(1.5), S::c(1.25), S::c(1.0)], [S::c(1.5), S::c(1.25), S::c(1.0)]);
    a[k] = x;
    let seen = if cx.ask(Prop::Fin(x)) && cx.ask(and(vec![lt(S::ZERO, x), lt(x, S::c(10.0))])) { x } else { S::c(10.0) };
    b[k] = seen;
    let goal = S::rat(1, 8);
    let (Ok(p), Ok(q)) = (f.compute(&a, goal), f.compute(&b, goal)) else { return cx.holds("computed", false) };
    cx.holds("same gap", p.gap_start_index() == q.gap_start_index() && p.gap_end_index() == q.gap_end_index() && p.is_blocked() == q.is_blocked());
    cx.eqs("same command", &[p.heading(), p.body_twist().linear(), p.body_twist().angular(), p.minimum_clearance()], &[q.heading(), q.body_twist().linear(), q.body_twist().angular(), q.minimum_clearance()]);
    if !cx.ask(Prop::Fin(x)) {
        cx.holds("goal not finite", matches!(f.compute(&b, x), Err(ControlError::NonFinite)));
        cx.holds("bias not finite", f.with_goal_bias(x).is_err() && f.with_steering_gain(x).is_err() && f.with_frontal_half_angle(x).is_err() && f.with_speed_scaling(x, S::ONE).is_err() && f.with_speed_scaling(S::ZERO, x).is_err());
    } else {
        let (nn, ps) = (cx.ask(le(S::ZERO, x)), cx.ask(lt(S::ZERO, x)));
        cx.holds("bias sign", f.with_goal_bias(x).is_ok() == nn);
        cx.holds("gain sign", f.with_steering_gain(x).is_ok() == ps);
    }
}
fn gap_rejects<S: Sc>(cx: &mut Cx<S>) {
    let a: [S; 5] = cx.vars("a");
    let new = |a: [S; 5]| FollowTheGap::<3, S>::try_new(a[0], a[1], a[2], a[3], a[4]);
    let ok = and(vec![
        lt(S::ZERO, a[0]),
        le(a[0], S::TWO_PI),
        lt(S::ZERO, a[1]),
        lt(S::ZERO, a[2]),
        lt(a[2] * S::HALF, a[1]),
        lt(S::ZERO, a[3]),
        le(a[3], a[1]),
        lt(S::ZERO, a[4]),
    ]);
    match new(a) {
        Ok(_) => cx.check("accepted only when valid", ok),
        Err(e) => {
            cx.check("refused only when invalid", not(ok));
            let why = match e {
                ControlError::InvalidFieldOfView => or(vec![le(a[0], S::ZERO), gt(a[0], S::TWO_PI)]),
                ControlError::NonPositiveRange => or(vec![le(a[1], S::ZERO), le(a[3], S::ZERO), gt(a[3], a[1])]),
                ControlError::NonPositiveChassisWidth => or(vec![le(a[2], S::ZERO), le(a[1], a[2] * S::HALF)]),
                ControlError::NonPositiveSpeed => le(a[4], S::ZERO),
                _ => Prop::B(false),
            };
            cx.check("the reason", why);
        }
    }
    let x = cx.any("x");
    if !cx.ask(Prop::Fin(x)) {
        let mut b = [S::ONE, S::ONE, S::HALF, S::HALF, S::ONE];
        b[cx.choose(5) as usize] = x;
        cx.holds("non-finite", matches!(new(b), Err(ControlError::NonFinite)));
    }
    let one = FollowTheGap::<1, S>::try_new(S::ONE, S::ONE, S::HALF, S::HALF, S::ONE);
    cx.holds("one beam", matches!(one, Err(ControlError::InvalidBeamCount)));
}
fn lqr<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, r) = (cx.var_in("a", 0.5, 1.5), cx.var_in("b", 0.5, 1.5), cx.var_in("r", 0.5, 1.5));
    let (q1, q2) = (cx.var_in("q1", 1.0, 2.0), cx.var_in("q2", 1.0, 2.0));
    let q = [[q1, S::rat(1, 10)], [S::rat(1, 10), q2]];
    let am = [[S::ZERO, a], [S::ZERO, S::ZERO]];
    let bm = [[b], [S::ZERO]];
    let Ok(c) = Lqr::new(Matrix::new(am), Matrix::new(bm), Matrix::new(q), Matrix::new([[r]])) else { return cx.holds("solved", false) };
    lqr_spec(cx, &c, &am, &bm, &q, r);
    match c.certify_stability() {
        Ok(p) => {
            let p = rows(&p);
            let k = rows(&c.closed_loop());
            let l = mm(&mm(&tr(&k), &p), &k);
            meq(cx, "certificate", &std::array::from_fn::<_, 2, _>(|i| std::array::from_fn(|j| l[i][j] - p[i][j] + q[i][j])), &[[S::ZERO; 2]; 2]);
        }
        Err(_) => cx.holds("certified", false),
    }
}
/// The law attains the cost to go, and no input does better.
fn lqr_spec<S: Sc>(cx: &mut Cx<S>, c: &Lqr<2, 1, S>, am: &Rows<S, 2, 2>, bm: &Rows<S, 2, 1>, q: &Rows<S, 2, 2>, r: S) {
    let p = rows(&c.cost_to_go());
    let (x, w): ([S; 2], S) = (cx.vars("x"), cx.var("w"));
    let u = c.control(Vector::new(x)).into_array()[0];
    let quad = |m: &Rows<S, 2, 2>, x: &[S; 2]| dot(x, &mv(m, x));
    let step = |u: S| add(&mv(am, &x), &[bm[0][0] * u, bm[1][0] * u]);
    let cost = |u: S| quad(q, &x) + r * u * u + quad(&p, &step(u));
    cx.eq("attains the cost to go", cost(u), quad(&p, &x));
    let weight = r + quad(&p, &[bm[0][0], bm[1][0]]);
    cx.eq("best input", cost(u + w) - cost(u), weight * w * w);
    cx.check("input is weighed", lt(S::ZERO, weight));
    cx.eqs("closed loop", &mv(&rows(&c.closed_loop()), &x), &step(u));
    cx.eq("gain", -dot(&rows(&c.gain())[0], &x), u);
    let (xr, ff): ([S; 2], S) = (cx.vars("ref"), cx.var("ff"));
    let e = c.control(Vector::new(sub(&x, &xr))).into_array()[0];
    cx.eq("tracking", c.control_tracking(Vector::new(x), Vector::new(xr), Vector::new([ff])).into_array()[0], ff + e);
}
fn lqr_dense<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.var_in("r", 0.5, 1.5);
    let (t, ti) = ([[S::ONE, S::ONE], [S::ONE, S::TWO]], [[S::TWO, -S::ONE], [-S::ONE, S::ONE]]);
    let am = mm(&mm(&t, &[[S::ZERO, S::rat(3, 4)], [S::ZERO, S::ZERO]]), &ti);
    let bm = mm(&t, &[[S::rat(5, 4)], [S::ZERO]]);
    let q = mm(&mm(&tr(&ti), &[[S::rat(7, 5), S::rat(1, 10)], [S::rat(1, 10), S::rat(3, 2)]]), &ti);
    let Ok(c) = Lqr::new(Matrix::new(am), Matrix::new(bm), Matrix::new(q), Matrix::new([[r]])) else { return cx.holds("solved", false) };
    lqr_spec(cx, &c, &am, &bm, &q, r);
}
fn lqr_rejects<S: Sc>(cx: &mut Cx<S>) {
    let i = Matrix::<2, 2, S>::identity();
    let x = cx.any("x");
    let bad = |m: Result<Lqr<2, 2, S>, ControlError>, f: fn(&LinalgError) -> bool| matches!(m, Err(ControlError::Linalg(e)) if f(&e));
    if !cx.ask(Prop::Fin(x)) {
        let mut m = [i; 4];
        let k = cx.choose(4) as usize;
        m[k][(cx.choose(2) as usize, cx.choose(2) as usize)] = x;
        return cx.holds("non-finite", bad(Lqr::new(m[0], m[1], m[2], m[3]), |e| matches!(e, LinalgError::NonFinite)));
    }
    if cx.ask(lt(S::c(1e-6), x.abs())) {
        let l = Matrix::new([[S::ONE, x], [S::ZERO, S::ONE]]);
        cx.holds("lopsided state cost", bad(Lqr::new(i, i, l, i), |e| matches!(e, LinalgError::NotSymmetric)));
        cx.holds("lopsided input cost", bad(Lqr::new(i, i, i, l), |e| matches!(e, LinalgError::NotSymmetric)));
    }
    if cx.ask(le(x, S::ZERO)) {
        let l = Matrix::new([[S::ONE, S::ZERO], [S::ZERO, x]]);
        cx.holds("input cost", bad(Lqr::new(i, i, i, l), |e| matches!(e, LinalgError::NotPositiveDefinite)));
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C12", pursuit, "pure_pursuit_curvature, Curvature::to_body_twist; all poses, points, distances"),
        h!("C12", gap0, "FollowTheGap::compute; 5 beams over half a turn, the open/blocked patterns that are 0 modulo 4, any obstacle distances"),
        h!("C12", gap1, "FollowTheGap::compute; 5 beams over half a turn, the open/blocked patterns that are 1 modulo 4, any obstacle distances"),
        h!("C12", gap2, "FollowTheGap::compute; 5 beams over half a turn, the open/blocked patterns that are 2 modulo 4, any obstacle distances"),
        h!("C12", gap3, "FollowTheGap::compute; 5 beams over half a turn, the open/blocked patterns that are 3 modulo 4, any obstacle distances"),
        h!("C12", speed, "FollowTheGap speed ramp and frontal cone; 3 beams"),
        h!("C12", readings, "FollowTheGap invalid readings and builder checks; one reading of any value"),
        h!("C12", gap_rejects, "FollowTheGap::try_new; all arguments"),
        h!("C12", lqr, "Lqr::new, control, certify_stability; a family of shift systems, any costs"),
        h!("C12", lqr_dense, "Lqr::new, control; a dense system"),
        h!("C12", lqr_rejects, "Lqr::new refusals"),
    ]
}
