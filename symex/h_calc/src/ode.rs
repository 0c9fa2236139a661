//! C21: ODE integrators.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::IntegrateError;
use multicalc::linear_algebra::Vector;
use multicalc::ode::*;
use multicalc::spatial::{Quaternion, SO3};
use std::cell::RefCell;

/// An arbitrary function of its arguments.
fn uf<S: Sc>(name: &str, args: &[S]) -> S {
    S::x_fresh_fn(&mut St::default(), name, args)
}
fn rate2<S: Sc>(t: S, y: &[S; 2]) -> [S; 2] {
    [uf("fa", &[t, y[0], y[1]]), uf("fb", &[t, y[0], y[1]])]
}
fn ax<S: Sc>(y: &[S; 2], terms: &[(S, [S; 2])]) -> [S; 2] {
    std::array::from_fn(|i| terms.iter().fold(y[i], |s, (c, k)| s + *c * k[i]))
}
fn classic<S: Sc>(t: S, y: &[S; 2], h: S) -> [S; 2] {
    let half = h * S::HALF;
    let k1 = rate2(t, y);
    let k2 = rate2(t + half, &ax(y, &[(half, k1)]));
    let k3 = rate2(t + half, &ax(y, &[(half, k2)]));
    let k4 = rate2(t + h, &ax(y, &[(h, k3)]));
    let r = |n, d| h * S::rat(n, d);
    ax(y, &[(r(1, 6), k1), (r(1, 3), k2), (r(1, 3), k3), (r(1, 6), k4)])
}
fn rk4_any<S: Sc>(cx: &mut Cx<S>) {
    let (t, h) = (cx.var("t"), cx.var("h"));
    let y: [S; 2] = cx.vars("y");
    let f = |t: S, y: &Vector<2, S>| Vector::new(rate2(t, &[y[0], y[1]]));
    let got = Rk4::step(&f, t, &Vector::new(y), h);
    cx.eqs("one step", got.as_slice(), &classic(t, &y, h));
    let n = cx.choose(3);
    let seen = RefCell::new(vec![]);
    let end = Rk4::integrate(&f, t, &Vector::new(y), h, n, |t, y| seen.borrow_mut().push((t, [y[0], y[1]])));
    let seen = seen.into_inner();
    cx.holds("every node reported", seen.len() == n + 1);
    let (mut tt, mut yy) = (t, y);
    for (i, (a, b)) in seen.iter().enumerate() {
        cx.eq("node time", *a, tt);
        cx.eqs("node state", b, &yy);
        if i < n {
            yy = classic(tt, &yy, h);
            tt = tt + h;
        }
    }
    cx.eqs("final state", end.as_slice(), &yy);
}
/// Exact for cubic rates of time, fourth order in a linear system, for either direction of time.
fn rk4_order<S: Sc>(cx: &mut Cx<S>) {
    let c: [S; 4] = cx.vars("c");
    let (t, h, y) = (cx.var("t"), cx.var("h"), cx.var("y"));
    let f = |t: S, _: &Vector<1, S>| Vector::new([c[0] + t * (c[1] + t * (c[2] + t * c[3]))]);
    let anti = |t: S| t * (c[0] + t * (c[1] * S::HALF + t * (c[2] * S::rat(1, 3) + t * c[3] * S::rat(1, 4))));
    let e = Rk4::integrate(&f, t, &Vector::new([y]), h, 2, |_, _| {});
    cx.eq("polynomial rate", e[0], y + anti(t + h * S::TWO) - anti(t));
    let a: [[S; 2]; 2] = cx.mat("a");
    let x: [S; 2] = cx.vars("x");
    let g = |_: S, y: &Vector<2, S>| Vector::new(mv(&a, &[y[0], y[1]]));
    let e = Rk4::step(&g, t, &Vector::new(x), h);
    let mut term = x;
    let mut sum = x;
    for k in 1..5 {
        term = scale(&mv(&a, &term), h / S::c(k as f64));
        sum = add(&sum, &term);
    }
    cx.eqs("series to fourth order", e.as_slice(), &sum);
}
/// Dormand and Prince's published coefficients.
const NODES: [(i64, i64); 7] = [(0, 1), (1, 5), (3, 10), (4, 5), (8, 9), (1, 1), (1, 1)];
const TAB: [&[(i64, i64)]; 7] = [
    &[],
    &[(1, 5)],
    &[(3, 40), (9, 40)],
    &[(44, 45), (-56, 15), (32, 9)],
    &[(19372, 6561), (-25360, 2187), (64448, 6561), (-212, 729)],
    &[(9017, 3168), (-355, 33), (46732, 5247), (49, 176), (-5103, 18656)],
    &[(35, 384), (0, 1), (500, 1113), (125, 192), (-2187, 6784), (11, 84)],
];
const FOURTH: [(i64, i64); 7] = [(5179, 57600), (0, 1), (7571, 16695), (393, 640), (-92097, 339200), (187, 2100), (1, 40)];
/// End state, estimated error and the rates at both ends of one attempt.
fn attempt<S: Sc>(f: &dyn Fn(S, S) -> S, t: S, y: S, h: S) -> (S, S, S, S) {
    let mut k: Vec<S> = vec![];
    let mut at = y;
    for i in 0..7 {
        at = TAB[i].iter().zip(&k).fold(y, |s, (&(n, d), k)| s + h * S::rat(n, d) * *k);
        k.push(f(t + h * S::rat(NODES[i].0, NODES[i].1), at));
    }
    let low = FOURTH.iter().zip(&k).fold(y, |s, (&(n, d), k)| s + h * S::rat(n, d) * *k);
    (at, at - low, k[0], k[6])
}
fn record<S: Sc>(seen: &RefCell<Vec<Step<1, S>>>) -> impl FnMut(&Step<1, S>) + '_ {
    |s| seen.borrow_mut().push(*s)
}
fn big<S: Sc>(a: S, b: S) -> S {
    a.abs().max(b.abs())
}
/// One attempt with an arbitrary rate: the published step, accepted exactly when its error is within tolerance.
fn rk45_attempt<S: Sc>(cx: &mut Cx<S>) {
    let (t, y) = (cx.var("t"), cx.var("y"));
    let h = cx.var_hint("h", -2.0, 2.0);
    cx.assume(or(vec![lt(S::c(0.01), h), lt(h, S::c(-0.01))]));
    let (atol, rtol) = (cx.var_open("atol", 0.001, 1.0), cx.var_open("rtol", 0.001, 1.0));
    let f = |t: S, y: &Vector<1, S>| Vector::new([uf("f", &[t, y[0]])]);
    let seen = RefCell::new(vec![]);
    let first = h.abs() * S::TWO;
    let r = Rk45::default().with_atol(atol).with_rtol(rtol).with_first_step(first).with_max_steps(1).for_each_step(&f, t, &Vector::new([y]), t + h, record(&seen));
    let (end, err, k0, k1) = attempt(&|t, y| uf("f", &[t, y]), t, y, h);
    let q = err / (atol + rtol * big(y, end));
    let seen = seen.into_inner();
    match r {
        Ok(v) => {
            cx.check("accepted within tolerance", le(q * q, S::ONE));
            cx.eq("end state", v[0], end);
            cx.holds("one step reported", seen.len() == 1);
            let s = seen[0];
            cx.eqs("step", &[s.time_start, s.time_end, s.state_start[0], s.state_end[0], s.derivative_start[0], s.derivative_end[0]], &[t, t + h, y, end, k0, k1]);
        }
        Err(e) => {
            cx.check("rejected beyond tolerance", lt(S::ONE, q * q));
            cx.holds("out of attempts", e == IntegrateError::DidNotConverge { steps: 1 });
            cx.holds("no step reported", seen.is_empty());
        }
    }
}
/// Two components count equally in the error.
fn rk45_norm<S: Sc>(cx: &mut Cx<S>) {
    let (c, y): ([S; 2], [S; 2]) = (std::array::from_fn(|i| cx.var_open(&format!("c{i}"), 0.0, 1000.0)), std::array::from_fn(|i| cx.var_open(&format!("y{i}"), 0.0, 1000.0)));
    let sign = [[S::ONE, S::ONE], [S::ONE, -S::ONE], [-S::ONE, -S::ONE]][cx.choose(3)];
    let (c, y): ([S; 2], [S; 2]) = (std::array::from_fn(|i| sign[i] * c[i]), std::array::from_fn(|i| sign[i] * y[i]));
    let (atol, rtol) = (cx.var_open("atol", 0.001, 1.0), cx.var_open("rtol", 0.001, 1.0));
    // rates that grow with the fourth power of time: the only power the two formulas differ on
    let f = |t: S, _: &Vector<2, S>| Vector::new([c[0] * t.powi(4), c[1] * t.powi(4)]);
    let h = S::ONE;
    let r = Rk45::default().with_atol(atol).with_rtol(rtol).with_first_step(S::ONE).with_max_steps(1).solve(&f, S::ZERO, &Vector::new(y), h);
    let unit = attempt(&|t: S, _| t.powi(4), S::ZERO, S::ZERO, S::ONE).1;
    let fifth = h * S::rat(1, 5);
    let q: [S; 2] = std::array::from_fn(|i| c[i] * unit / (atol + rtol * big(y[i], y[i] + c[i] * fifth)));
    let n = (q[0] * q[0] + q[1] * q[1]) * S::HALF;
    match r {
        Ok(v) => {
            cx.check("accepted within tolerance", le(n, S::ONE));
            cx.eqs("exact to the fourth power", v.as_slice(), &[y[0] + c[0] * fifth, y[1] + c[1] * fifth]);
        }
        Err(_) => cx.check("rejected beyond tolerance", lt(S::ONE, n)),
    }
}
/// Steps follow one another from start to end without a gap, in the right direction and within the cap.
fn rk45_march<S: Sc>(cx: &mut Cx<S>) {
    let back = cx.choose(2) == 1;
    let dir = if back { -S::ONE } else { S::ONE };
    let c = cx.var_open("c", 0.0, 100.0);
    let span = cx.var_open("span", 0.5, 2.0);
    let tf = dir * span;
    let cap = cx.var_open("cap", 0.2, 1.5);
    let h0 = cx.var_open("h0", 0.1, 2.5);
    let rate = |t: S, _: S| c * t.powi(4);
    let f = |t: S, y: &Vector<1, S>| Vector::new([rate(t, y[0])]);
    let seen = RefCell::new(vec![]);
    let n = if cx.thorough() { 3 } else { 2 };
    let r = Rk45::default().with_atol(S::c(0.01)).with_rtol(S::ZERO).with_first_step(h0).with_max_step(cap).with_max_steps(n).for_each_step(&f, S::ZERO, &Vector::new([S::ZERO]), tf, record(&seen));
    let seen = seen.into_inner();
    let mut at = (S::ZERO, S::ZERO, S::ZERO);
    for s in &seen {
        cx.eqs("continues where the last ended", &[s.time_start, s.state_start[0], s.derivative_start[0]], &[at.0, at.1, at.2]);
        let d = (s.time_end - s.time_start) * dir;
        cx.check("forward, capped, not past the end", and(vec![lt(S::ZERO, d), le(d, cap), le((s.time_end - tf) * dir, S::ZERO)]));
        let end = s.state_start[0] + c * (s.time_end.powi(5) - s.time_start.powi(5)) * S::rat(1, 5);
        cx.near("the exact step", s.state_end[0], end, 1e-5);
        cx.near("the rate at its end", s.derivative_end[0], rate(s.time_end, end), 1e-5);
        at = (s.time_end, s.state_end[0], s.derivative_end[0]);
    }
    match r {
        Ok(v) => {
            cx.eqs("arrives", &[at.0, at.1], &[tf, v[0]]);
        }
        Err(e) => cx.holds("out of attempts", e == IntegrateError::DidNotConverge { steps: n }),
    }
}
/// After a refused attempt the step shrinks to between a fifth of it and itself; after an accepted one it grows at most tenfold.
fn rk45_control<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.var_open("c", 0.0, 1e6);
    let h0 = cx.var_open("h0", 0.1, 2.0);
    let tol = cx.var_open("tol", 1e-4, 1.0);
    let cap = cx.var_open("cap", 1.0, 50.0);
    let asked = RefCell::new(vec![]);
    // error of one step is a multiple of c h^5
    let f = |t: S, _: &Vector<1, S>| {
        asked.borrow_mut().push(t);
        Vector::new([c * t.powi(4)])
    };
    let seen = RefCell::new(vec![]);
    let _ = Rk45::default().with_atol(tol).with_rtol(S::ZERO).with_first_step(h0).with_max_step(cap).with_max_steps(2).for_each_step(&f, S::ZERO, &Vector::new([S::ZERO]), S::c(1e4), record(&seen));
    let asked = asked.into_inner();
    let seen = seen.into_inner();
    let h0 = h0.min(cap);
    let took = !seen.is_empty() && cx.ask(lt(seen[0].time_start, S::c(1e-9))) && cx.ask(near(seen[0].time_end, h0, 1e-12));
    // first rate, then six per attempt; the first of the second attempt sits a fifth of the way in
    cx.holds("two attempts", asked.len() == 13);
    let base = if took { h0 } else { S::ZERO };
    let h1 = (asked[7] - base) * S::c(5.0);
    if took {
        cx.check("growth", and(vec![le(h0 * S::rat(1, 5), h1 + S::c(1e-6)), le(h1, h0 * S::c(10.0) + S::c(1e-6)), le(h1, cap + S::c(1e-6))]));
    } else {
        cx.check("shrink", and(vec![le(h0 * S::rat(1, 5), h1 + S::c(1e-6)), le(h1, h0 + S::c(1e-6))]));
    }
}
/// Sampling on a grid is the exact solution when that is a cubic of time.
fn grid<S: Sc>(cx: &mut Cx<S>) {
    let c: [S; 3] = cx.vars("c");
    let back = cx.choose(2) == 1;
    let dir = if back { -S::ONE } else { S::ONE };
    let (t0, y) = (cx.var_open("t", -3.0, 3.0), cx.var("y"));
    let span = cx.var_open("span", 0.5, 2.0);
    let h0 = cx.var_open("h0", 0.2, 2.5);
    let a: [S; 3] = [cx.var_in("a", 0.0, 1.0), cx.var_in("b", 0.0, 1.0), S::ONE];
    cx.assume(le(a[0], a[1]));
    let times = a.map(|a| t0 + dir * span * a);
    let f = |t: S, _: &Vector<1, S>| Vector::new([c[0] + t * (c[1] + t * c[2])]);
    let anti = |t: S| t * (c[0] + t * (c[1] * S::HALF + t * c[2] * S::rat(1, 3)));
    let mut out = [Vector::new([S::ZERO]); 3];
    let r = Rk45::default().with_atol(S::ONE).with_first_step(h0).solve_on_grid(&f, t0, &Vector::new([y]), &times, &mut out);
    cx.holds("sampled", r.is_ok());
    for i in 0..3 {
        cx.near("sample", out[i][0], y + anti(times[i]) - anti(t0), 1e-9);
    }
}
/// A step that falls a rounding error short of the final time still covers it.
fn grid_edge<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.var_open("c", -10.0, 10.0);
    let y = cx.var_open("y", -10.0, 10.0);
    let f = |t: S, _: &Vector<1, S>| Vector::new([c * t]);
    let short = [1.0, 1.0 - f64::EPSILON / 2.0, 1.0 - f64::EPSILON, 1.0 - 1.5 * f64::EPSILON][cx.choose(4)];
    let mut out = [Vector::new([S::ZERO]); 2];
    let seen = RefCell::new(vec![]);
    let solver = Rk45::default().with_atol(S::ONE).with_first_step(S::c(short));
    let r = solver.solve_on_grid(&f, S::ZERO, &Vector::new([y]), &[S::HALF, S::ONE], &mut out);
    cx.holds("sampled", r.is_ok());
    cx.near("middle", out[0][0], y + c * S::rat(1, 8), 1e-9);
    cx.near("end", out[1][0], y + c * S::HALF, 1e-9);
    let _ = solver.for_each_step(&f, S::ZERO, &Vector::new([y]), S::ONE, record(&seen));
    cx.eq("last step ends on the final time", seen.borrow().last().unwrap().time_end, S::ONE);
}
fn grid_refusals<S: Sc>(cx: &mut Cx<S>) {
    let f = |_: S, _: &Vector<1, S>| Vector::new([S::ONE]);
    let solver = Rk45::default().with_atol(S::ONE).with_first_step(S::c(9.0));
    let y = Vector::new([cx.var("y")]);
    let t0 = cx.var_open("t", -3.0, 3.0);
    let (a, b) = (cx.var_open("a", -2.0, 2.0), cx.var_open("b", 0.1, 2.0));
    let mut out = [y; 2];
    let r = solver.solve_on_grid(&f, t0, &y, &[t0 + a, t0 + b], &mut out);
    let fine = cx.ask(and(vec![le(S::ZERO, a), le(a, b)]));
    cx.holds("out of order or range refused", r.is_ok() == fine);
    if fine {
        cx.eqs("samples", &[out[0][0], out[1][0]], &[y[0] + a, y[0] + b]);
    } else {
        cx.holds("with its reason", r == Err(IntegrateError::LimitsIllDefined));
    }
    cx.holds("lengths differ", solver.solve_on_grid(&f, t0, &y, &[t0 + b], &mut out) == Err(IntegrateError::LimitsIllDefined));
    cx.holds("nothing asked", solver.solve_on_grid(&f, t0, &y, &[], &mut []) == Ok(()));
}
fn hermite<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.var("a"), cx.var("b"));
    cx.assume(ne(a, b));
    let [y0, y1, d0, d1]: [S; 4] = cx.vars("y");
    let s = Step { time_start: a, time_end: b, state_start: Vector::new([y0]), state_end: Vector::new([y1]), derivative_start: Vector::new([d0]), derivative_end: Vector::new([d1]) };
    cx.eq("start", s.interpolate(a)[0], y0);
    cx.eq("end", s.interpolate(b)[0], y1);
    let t = cx.var("t");
    let c: [S; 4] = cx.vars("c");
    let p = |t: S| c[0] + t * (c[1] + t * (c[2] + t * c[3]));
    let d = |t: S| c[1] + t * (S::TWO * c[2] + t * S::c(3.0) * c[3]);
    let s = Step { time_start: a, time_end: b, state_start: Vector::new([p(a)]), state_end: Vector::new([p(b)]), derivative_start: Vector::new([d(a)]), derivative_end: Vector::new([d(b)]) };
    cx.eq("cubics exactly", s.interpolate(t)[0], p(t));
}
fn refusals<S: Sc>(cx: &mut Cx<S>) {
    let (t, tf) = (cx.any("t"), cx.any("tf"));
    let y = cx.any("y");
    let k = cx.any("k");
    let f = |_: S, _: &Vector<1, S>| Vector::new([k]);
    for v in [t, tf, y, k] {
        cx.assume(if v.is_finite() { and(vec![lt(S::c(-1e3), v), lt(v, S::c(1e3))]) } else { Prop::B(true) });
    }
    let r = Rk45::default().with_atol(S::ONE).with_first_step(S::c(1e12)).with_max_steps(1).solve(&f, t, &Vector::new([y]), tf);
    let span_ok = t.is_finite() && tf.is_finite() && cx.ask(ne(t, tf));
    if !span_ok {
        cx.holds("span", r == Err(IntegrateError::LimitsIllDefined));
    } else if !y.is_finite() || !k.is_finite() {
        cx.holds("non-finite", r == Err(IntegrateError::NonFinite));
    } else {
        cx.holds("one step is enough", r.is_ok());
        cx.near("straight line", r.unwrap()[0], y + k * (tf - t), 1e-6);
    }
}
/// A later attempt goes bad, the step falls below the floor, the attempts run out.
fn failures<S: Sc>(cx: &mut Cx<S>) {
    let bad = cx.any("bad");
    let at = cx.choose(8);
    let n = RefCell::new(0usize);
    let f = |_: S, y: &Vector<1, S>| {
        *n.borrow_mut() += 1;
        Vector::new([if *n.borrow() == at + 1 { bad } else { S::ONE } + y[0] * S::rat(1, 8)])
    };
    let r = Rk45::default().with_atol(S::c(1e9)).with_rtol(S::ZERO).with_first_step(S::ONE).with_max_steps(1).solve(&f, S::ZERO, &Vector::new([S::ZERO]), S::ONE);
    if !bad.is_finite() && at < 7 {
        cx.holds("bad rate", r == Err(IntegrateError::NonFinite));
    } else if let Err(e) = r {
        cx.holds("out of attempts", e == IntegrateError::DidNotConverge { steps: 1 });
    }
    // constant rate of growth in the fourth power: refused whenever c is large
    let c = S::c([100.0, 1000.0][cx.choose(2)]);
    let floor = cx.var_open("floor", 0.3, 3.0);
    let g = |t: S, _: &Vector<1, S>| Vector::new([c * t.powi(4) * S::c(1e9)]);
    let r = Rk45::default().with_rtol(S::ZERO).with_first_step(S::ONE).with_min_step(floor).with_max_steps(1).solve(&g, S::ZERO, &Vector::new([S::ZERO]), S::ONE);
    let low = cx.ask(lt(S::rat(1, 5), floor));
    cx.holds("below the floor", low && r == Err(IntegrateError::StepSizeTooSmall));
}
/// Without a first step given, the documented defaults apply and the integration still arrives.
fn auto_start<S: Sc>(cx: &mut Cx<S>) {
    let span = cx.var_open("span", 0.0001, 0.005);
    let k = S::c([1.0, -300.0][cx.choose(2)]);
    let f = |_: S, _: &Vector<1, S>| Vector::new([k]);
    let seen = RefCell::new(vec![]);
    let r = Rk45::default().for_each_step(&f, S::ZERO, &Vector::new([S::ZERO]), span, record(&seen));
    let seen = seen.into_inner();
    cx.holds("arrives", r.is_ok());
    cx.near("straight line", r.unwrap()[0], k * span, 1e-9);
    let mut t = S::ZERO;
    for s in seen {
        cx.eq("no gap", s.time_start, t);
        t = s.time_end;
    }
    cx.near("to the end", t, span, 1e-12);
}
fn so3<S: Sc>(q: [S; 4]) -> SO3<S> {
    SO3::from_quaternion(Quaternion::from_array(q))
}
fn turn<S: Sc>(d: &[S; 3], t: S) -> Rows<S, 3, 3> {
    let (s, c) = (t.sin(), t.cos());
    let k = skew(d);
    let kk = mm(&k, &k);
    std::array::from_fn(|i| std::array::from_fn(|j| id::<S, 3>()[i][j] + s * k[i][j] + (S::ONE - c) * kk[i][j]))
}
fn rot<S: Sc>(r: &SO3<S>) -> Rows<S, 3, 3> {
    rows(&r.to_matrix())
}
/// Turning at a steady rate about a fixed axis is the rotation by rate times time, on the body side.
fn turning<S: Sc>(cx: &mut Cx<S>) {
    let q = ratq(cx, "q");
    let d = dirs::<S>(cx.choose(3));
    let (w, al) = (cx.var_open("w", 0.1, 2.0), cx.var_open("al", 0.1, 1.0));
    let h = cx.var_open("h", 0.1, 1.0);
    let v = |s: S| Vector::new(scale(&d, s));
    let a = ExponentialMap::attitude_step(so3(q), v(w), h);
    meq(cx, "steady", &rot(&a), &mm(&rotm(&q), &turn(&d, w * h)));
    let a = ExponentialMap::attitude_step_with_angular_acceleration(so3(q), v(w), v(al), h);
    meq(cx, "speeding up", &rot(&a), &mm(&rotm(&q), &turn(&d, w * h + al * h * h * S::HALF)));
}
/// The half-way scheme: exact for a rate linear in time about one axis, every node reported.
fn attitude_run<S: Sc>(cx: &mut Cx<S>) {
    let q = ratq(cx, "q");
    let d = dirs::<S>(0);
    let (w, al) = (cx.var_open("w", 0.1, 1.0), cx.var_open("al", 0.1, 0.5));
    let (t0, h) = (cx.var_open("t", 0.0, 1.0), cx.var_open("h", 0.1, 0.5));
    let n = cx.choose(3);
    let seen = RefCell::new(vec![]);
    let asked = RefCell::new(vec![]);
    let rate = |t: S, o: SO3<S>| {
        asked.borrow_mut().push((t, o));
        Vector::new(scale(&d, w + al * t))
    };
    let r = ExponentialMap::integrate_attitude(&rate, t0, so3(q), h, n, |t, o| seen.borrow_mut().push((t, o)));
    let seen = seen.into_inner();
    let asked = asked.into_inner();
    cx.holds("every node reported", r.is_ok() && seen.len() == n + 1 && asked.len() == 2 * n);
    let anti = |t: S| w * t + al * t * t * S::HALF;
    for (i, (t, o)) in seen.iter().enumerate() {
        let k = S::c(i as f64);
        cx.eq("node time", *t, t0 + h * k);
        meq(cx, "node facing", &rot(o), &mm(&rotm(&q), &turn(&d, anti(*t) - anti(t0))));
    }
    for i in 0..n {
        cx.eq("asked at the start", asked[2 * i].0, seen[i].0);
        meq(cx, "asked at the start facing", &rot(&asked[2 * i].1), &rot(&seen[i].1));
        cx.eq("asked half way", asked[2 * i + 1].0, seen[i].0 + h * S::HALF);
        let part = (w + al * seen[i].0) * h * S::HALF;
        meq(cx, "asked half way facing", &rot(&asked[2 * i + 1].1), &mm(&rot(&seen[i].1), &turn(&d, part)));
    }
    meq(cx, "final facing", &rot(&r.unwrap()), &rot(&seen[n].1));
}
fn attitude_refusals<S: Sc>(cx: &mut Cx<S>) {
    let h = cx.any("h");
    let w = cx.any("w");
    let late = cx.choose(2) == 1;
    let count = RefCell::new(0);
    let nodes = RefCell::new(0);
    let rate = |_: S, _: SO3<S>| {
        *count.borrow_mut() += 1;
        let use_it = !late || *count.borrow() == 2;
        Vector::new([S::ZERO, S::ZERO, if use_it { w } else { S::ZERO }])
    };
    cx.assume(if h.is_finite() { and(vec![lt(S::c(-0.5), h), lt(h, S::c(0.5))]) } else { Prop::B(true) });
    cx.assume(if w.is_finite() { eq(w, S::ZERO) } else { Prop::B(true) });
    let r = ExponentialMap::integrate_attitude(&rate, S::ZERO, SO3::identity(), h, 1, |_, _| *nodes.borrow_mut() += 1);
    if !h.is_finite() {
        cx.holds("timestep not finite", matches!(r, Err(IntegrateError::NonFinite)));
    } else if cx.ask(le(h, S::ZERO)) {
        cx.holds("timestep not positive", matches!(r, Err(IntegrateError::NonPositiveTimestep)));
    } else if !w.is_finite() {
        cx.holds("rate not finite", matches!(r, Err(IntegrateError::NonFinite)));
        cx.holds("only the start was reported", *nodes.borrow() == 1);
    } else {
        cx.holds("goes through", r.is_ok() && *nodes.borrow() == 2);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C21", rk4_any, "Rk4::{step,integrate}; any rate (uninterpreted), 2 states, 0..2 steps"),
        h!("C21", rk4_order, "Rk4::{step,integrate}; cubic rates of time, linear systems of 2"),
        h!("C21", rk45_attempt, "Rk45::{for_each_step,with_*}; any rate (uninterpreted), 1 attempt", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", rk45_norm, "Rk45::solve; 2 states, one attempt", |x| { x.cfg.eps_zero = true; x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", rk45_march, "Rk45::for_each_step; any rate, 2 attempts (thorough 3), both directions", |x| { x.cfg.eps_zero = true; x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", rk45_control, "Rk45 step control; 2 attempts", |x| { x.cfg.eps_zero = true; x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", grid, "Rk45::solve_on_grid, Step::interpolate; 3 times, rates quadratic in time", |x| { x.cfg.eps_zero = true; x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", grid_edge, "Rk45::{solve_on_grid,for_each_step}; first steps a few rounding errors short", |x| { x.cfg.snap = false; x.cfg.abs_fork = true; }),
        h!("C21", grid_refusals, "Rk45::solve_on_grid; 2 times in any order", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", hermite, "Step::interpolate; any times"),
        h!("C21", refusals, "Rk45::solve; non-finite and empty spans, states and rates", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", failures, "Rk45::solve; a bad rate at any stage, the floor, the attempt limit", |x| { x.cfg.eps_zero = true; x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", auto_start, "Rk45 automatic first step; constant rate", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C21", turning, "ExponentialMap::{attitude_step,attitude_step_with_angular_acceleration}; 3 axes", |x| { x.cfg.trig_base = 4; x.cfg.abs_fork = true; x.cfg.arc = true; }),
        h!("C21", attitude_run, "ExponentialMap::integrate_attitude; 0..2 steps, rate linear in time", |x| { x.cfg.trig_base = 4; x.cfg.abs_fork = true; x.cfg.arc = true; }),
        h!("C21", attitude_refusals, "ExponentialMap::integrate_attitude; non-finite and non-positive input", |x| { x.cfg.abs_fork = true; x.cfg.arc = true; }),
    ]
}
