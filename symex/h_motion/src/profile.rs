//! C28: point-to-point motion profiles.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::MotionError as E;
use multicalc::motion::*;

/// A planned move together with what it was asked to do.
struct Move<S: Sc> {
    p: MotionProfile<S>,
    d: S,
    v: S,
    a: S,
    j: Option<S>,
    sign: S,
}
/// Every displacement is one of: too short to reach the speed limit, or with a cruise of time `tc`.
fn trapezoid<S: Sc>(cx: &mut Cx<S>, loose: bool) -> Move<S> {
    let (v, a) = if loose { (cx.pos("v"), cx.pos("a")) } else { (S::c(3.0), S::c(2.0)) };
    let sign = if cx.choose(2) == 1 { S::ONE } else { -S::ONE };
    let d = if cx.choose(2) == 0 {
        let vp = cx.pos("vp");
        cx.assume(le(vp, v));
        vp * vp / a
    } else {
        v * v / a + v * cx.nonneg("tc")
    };
    let with_jerk = cx.choose(2) == 1;
    let l = ProfileLimits::try_new(v, a, if with_jerk { Some(S::ONE) } else { None }).unwrap();
    let mut pl = MotionProfilePlanner::new(l);
    if with_jerk {
        pl = pl.with_strategy(ProfileStrategy::Trapezoidal);
    }
    Move { p: pl.plan(d * sign).unwrap(), d: d * sign, v, a, j: None, sign }
}
/// The four shapes of a jerk-limited move.
fn scurve<S: Sc>(cx: &mut Cx<S>, loose: bool) -> Move<S> {
    scurve_in(cx, loose, None)
}
fn scurve_in<S: Sc>(cx: &mut Cx<S>, loose: bool, shape: Option<usize>) -> Move<S> {
    let sign = if cx.choose(2) == 1 { S::ONE } else { -S::ONE };
    let shape = shape.unwrap_or_else(|| cx.choose(4));
    let (v, a, j) = if loose {
        (cx.pos("v"), cx.pos("a"), cx.pos("j"))
    } else if shape == 2 {
        (S::ONE, S::c(2.0), S::c(1.5))
    } else {
        (S::c(3.0), S::c(2.0), S::c(1.5))
    };
    let d = match shape {
        // neither limit reached
        0 => {
            let jt = cx.pos("jt");
            cx.assume(lt(j * jt, a));
            cx.assume(le(j * jt * jt, v));
            S::TWO * j * jt * jt * jt
        }
        // acceleration limit reached, speed limit not
        1 => {
            let vp = cx.pos("vp");
            cx.assume(le(a * a, vp * j));
            cx.assume(le(vp, v));
            vp * vp / a + vp * a / j
        }
        // speed limit reached without reaching the acceleration limit
        2 => {
            let jt = cx.pos("jt");
            cx.assume(lt(j * jt, a));
            cx.assume(eq(j * jt * jt, v));
            S::TWO * v * jt + v * cx.nonneg("tc")
        }
        // both reached
        _ => {
            cx.assume(le(a * a, v * j));
            v * v / a + v * a / j + v * cx.nonneg("tc")
        }
    };
    let l = ProfileLimits::try_new(v, a, Some(j)).unwrap();
    let mut pl = MotionProfilePlanner::new(l);
    // a mirrored move is asked for through the explicit strategy unless every combination is wanted
    if if cx.thorough() { cx.choose(2) == 1 } else { sign < S::ZERO } {
        pl = pl.with_strategy(ProfileStrategy::JerkLimited);
    }
    Move { p: pl.plan(d * sign).unwrap(), d: d * sign, v, a, j: Some(j), sign }
}
/// arrives, at rest, exactly where asked; every limit is either saturated or its phase is empty
fn optimal<S: Sc>(cx: &mut Cx<S>, m: &Move<S>) {
    let p = &m.p;
    let t = p.phase_durations();
    let total = t.iter().fold(S::ZERO, |u, x| u + *x);
    cx.eq("duration is the sum of the phases", p.duration(), total);
    cx.check("no phase runs backward", and(t.iter().map(|x| le(S::ZERO, *x)).collect()));
    cx.eq("displacement", p.distance(), m.d);
    let s0 = p.state_at(S::ZERO).unwrap();
    cx.eq("starts at the origin", s0.position, S::ZERO);
    cx.eq("starts at rest", s0.velocity, S::ZERO);
    let s1 = p.state_at(p.duration()).unwrap();
    cx.eq("ends on target", s1.position, m.d);
    cx.eq("ends at rest", s1.velocity, S::ZERO);
    cx.eq("no acceleration left", s1.acceleration, S::ZERO);
    cx.eq("no jerk left", s1.jerk, S::ZERO);
    let peak = p.peak_speed() * m.sign;
    cx.check("peak speed within the limit", and(vec![le(S::ZERO, peak), le(peak, m.v)]));
    cx.check("cruises only at the speed limit", or(vec![eq(peak, m.v), eq(t[3], S::ZERO)]));
    cx.eq("symmetric ramps", t[1], t[5]);
    match m.j {
        None => {
            cx.check("no jerk phases", and([0, 2, 4, 6].iter().map(|i| eq(t[*i], S::ZERO)).collect()));
            cx.eq("accelerates at the limit", peak, m.a * t[1]);
        }
        Some(j) => {
            cx.check("jerk phases alike", and([2, 4, 6].iter().map(|i| eq(t[*i], t[0])).collect()));
            cx.check("peak acceleration within the limit", le(j * t[0], m.a));
            cx.check("holds only at the acceleration limit", or(vec![eq(j * t[0], m.a), eq(t[1], S::ZERO)]));
            cx.eq("peak speed from full jerk", peak, j * t[0] * (t[0] + t[1]));
        }
    }
}
fn trapezoid_plan<S: Sc>(cx: &mut Cx<S>) {
    let m = trapezoid(cx, true);
    optimal(cx, &m);
}
fn scurve_plan<S: Sc>(cx: &mut Cx<S>) {
    let loose = cx.thorough();
    let m = scurve(cx, loose);
    optimal(cx, &m);
}
/// state at any instant stays within the limits
fn within<S: Sc>(cx: &mut Cx<S>, m: &Move<S>) {
    let t = cx.var("t");
    let s = m.p.state_at(t).unwrap();
    let (x, v, a) = (s.position * m.sign, s.velocity * m.sign, s.acceleration * m.sign);
    cx.check("never overshoots", and(vec![le(S::ZERO, x), le(x, m.d * m.sign)]));
    cx.check("speed limit, never backward", and(vec![le(S::ZERO, v), le(v, m.v)]));
    cx.check("acceleration limit", and(vec![le(-m.a, a), le(a, m.a)]));
    if let Some(j) = m.j {
        cx.check("jerk is full or nothing", or(vec![eq(s.jerk, j), eq(s.jerk, -j), eq(s.jerk, S::ZERO)]));
    } else {
        cx.eq("no jerk", s.jerk, S::ZERO);
    }
    if cx.ask(le(t, S::ZERO)) {
        cx.eq("clamped to the start", x, S::ZERO);
        cx.eq("clamped to the start", v, S::ZERO);
    }
    if cx.ask(le(m.p.duration(), t)) {
        cx.eq("clamped to the end", x, m.d * m.sign);
        cx.eq("clamped to the end", v, S::ZERO);
        cx.eq("clamped to the end", a, S::ZERO);
    }
}
fn trapezoid_limits<S: Sc>(cx: &mut Cx<S>) {
    let loose = cx.thorough();
    let m = trapezoid(cx, loose);
    within(cx, &m);
}
fn scurve_limits<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(2);
    let m = scurve_in(cx, false, Some(k));
    within(cx, &m);
}
fn scurve_limits_fast<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(2) + 2;
    let m = scurve_in(cx, false, Some(k));
    within(cx, &m);
}
/// Two instants inside the same phase or across neighbouring ones: the state moves as its own rates say.
fn continuous<S: Sc>(cx: &mut Cx<S>, m: &Move<S>) {
    // right-continuous evaluation at each join against the state reached from the phase before
    let d = m.p.phase_durations();
    let mut start = S::ZERO;
    for i in 0..7 {
        if cx.ask(eq(d[i], S::ZERO)) {
            continue;
        }
        let s = m.p.state_at(start).unwrap();
        let h = d[i];
        let u = cx.var_open(&format!("u{i}"), 0.0, 1.0);
        let w = m.p.state_at(start + u * h).unwrap();
        let step = |k: S| {
            (
                s.position + s.velocity * k + s.acceleration * k * k * S::HALF + s.jerk * k * k * k / S::c(6.0),
                s.velocity + s.acceleration * k + s.jerk * k * k * S::HALF,
                s.acceleration + s.jerk * k,
            )
        };
        let (x, v, a) = step(u * h);
        cx.eq("position integrates velocity", w.position, x);
        cx.eq("velocity integrates acceleration", w.velocity, v);
        cx.eq("acceleration integrates jerk", w.acceleration, a);
        let e = m.p.state_at(start + h).unwrap();
        let (x, v, a) = step(h);
        cx.eq("position has no jump", e.position, x);
        cx.eq("velocity has no jump", e.velocity, v);
        if m.j.is_some() {
            cx.eq("acceleration has no jump", e.acceleration, a);
        }
        start = start + h;
    }
}
fn trapezoid_continuous<S: Sc>(cx: &mut Cx<S>) {
    let m = trapezoid(cx, false);
    continuous(cx, &m);
}
fn scurve_continuous<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(2) * 3;
    let m = scurve_in(cx, false, Some(k));
    continuous(cx, &m);
}
fn scurve_continuous_mixed<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(2) + 1;
    let m = scurve_in(cx, false, Some(k));
    continuous(cx, &m);
}
fn still<S: Sc>(cx: &mut Cx<S>) {
    let j = cx.choose(2) == 1;
    let (v, a) = (cx.pos("v"), cx.pos("a"));
    let l = ProfileLimits::try_new(v, a, if j { Some(cx.pos("j")) } else { None }).unwrap();
    let p = MotionProfilePlanner::new(l).plan(S::ZERO).unwrap();
    cx.eq("no time", p.duration(), S::ZERO);
    cx.eq("no displacement", p.distance(), S::ZERO);
    cx.eq("no speed", p.peak_speed(), S::ZERO);
    let t = cx.var("t");
    let s = p.state_at(t).unwrap();
    cx.eqs("at rest", &[s.position, s.velocity, s.acceleration, s.jerk], &[S::ZERO; 4]);
    let q = p.stretched_to(S::ONE);
    cx.eq("nothing to stretch", q.duration(), S::ZERO);
}
fn limits_build<S: Sc>(cx: &mut Cx<S>) {
    let (v, a) = (cx.any("v"), cx.any("a"));
    let j = if cx.choose(2) == 1 { Some(cx.any("j")) } else { None };
    let mut bad = false;
    for x in [Some(v), Some(a), j].into_iter().flatten() {
        if !x.is_finite() || cx.ask(le(x, S::ZERO)) {
            bad = true;
            break;
        }
    }
    let g = ProfileLimits::try_new(v, a, j);
    cx.holds("refused", g.err() == if bad { Some(E::LimitNotPositive) } else { None });
    if bad {
        return;
    }
    let l = g.unwrap();
    cx.eq("speed", l.speed(), v);
    cx.eq("acceleration", l.acceleration(), a);
    cx.holds("jerk kept", l.jerk().is_some() == j.is_some());
    if let (Some(x), Some(y)) = (l.jerk(), j) {
        cx.eq("jerk", x, y);
    }
    let p = MotionProfilePlanner::new(l);
    cx.holds("default shape", p.strategy() == ProfileStrategy::Automatic);
    cx.holds("needs a jerk limit", p.with_strategy(ProfileStrategy::JerkLimited).plan(S::ZERO).err() == if j.is_none() { Some(E::JerkLimitRequired) } else { None });
    for bad in [S::NAN, S::INFINITY, S::NEG_INFINITY] {
        cx.holds("displacement must be finite", p.plan(bad).err() == Some(E::NonFinite));
    }
    let m = p.plan(S::ZERO).unwrap();
    for bad in [S::NAN, S::INFINITY, S::NEG_INFINITY] {
        cx.holds("time must be finite", m.state_at(bad).err() == Some(E::NonFinite));
    }
}
fn stretch<S: Sc>(cx: &mut Cx<S>) {
    let m = if cx.choose(2) == 0 { trapezoid(cx, false) } else { scurve_in(cx, false, Some(3)) };
    let k = cx.pos("k");
    let q = m.p.stretched_to(m.p.duration() * k);
    let k = if cx.ask(le(k, S::ONE)) { S::ONE } else { k };
    cx.eq("duration", q.duration(), m.p.duration() * k);
    cx.eq("same displacement", q.distance(), m.d);
    let t = cx.var("t");
    let (a, b) = (q.state_at(t * k).unwrap(), m.p.state_at(t).unwrap());
    cx.eq("same path", a.position, b.position);
    cx.eq("slower", a.velocity * k, b.velocity);
    cx.eq("gentler", a.acceleration * k * k, b.acceleration);
    cx.eq("smoother", a.jerk * k * k * k, b.jerk);
    for bad in [S::NAN, S::INFINITY, S::ZERO, -S::ONE] {
        cx.eq("ignored", m.p.stretched_to(bad).duration(), m.p.duration());
    }
}
fn together<S: Sc>(cx: &mut Cx<S>) {
    let (t1, t2) = (cx.pos("t1"), cx.pos("t2"));
    let pl = MotionProfilePlanner::new(ProfileLimits::try_new(S::c(100.0), S::TWO, None).unwrap());
    cx.assume(and(vec![lt(t1, S::c(10.0)), lt(t2, S::c(10.0))]));
    // triangular moves taking 2 t1 and 2 t2, and one axis that stays put
    let axes = [pl.plan(S::TWO * t1 * t1).unwrap(), pl.plan(-(S::TWO * t2 * t2)).unwrap(), pl.plan(S::ZERO).unwrap()];
    let longest = if cx.ask(le(t1, t2)) { S::TWO * t2 } else { S::TWO * t1 };
    let (q, finish) = if cx.choose(2) == 0 {
        (SynchronizedProfile::from_profiles(axes), longest)
    } else {
        let w = cx.any("w");
        let g = SynchronizedProfile::try_from_profiles_over(axes, w);
        if !w.is_finite() || cx.ask(le(w, S::ZERO)) {
            cx.holds("refused", g.err() == Some(E::DurationNotPositive));
            return;
        }
        let f = if cx.ask(le(w, longest)) { longest } else { w };
        (g.unwrap(), f)
    };
    cx.eq("common finish", q.duration(), finish);
    for i in 0..2 {
        let p = q.axis(i).unwrap();
        cx.eq("every moving axis takes the whole time", p.duration(), finish);
        cx.eq("same displacement", p.distance(), axes[i].distance());
        cx.check("no faster than before", le(p.peak_speed().abs(), axes[i].peak_speed().abs()));
    }
    cx.eq("still axis", q.axis(2).unwrap().duration(), S::ZERO);
    cx.holds("no such axis", q.axis(3).is_none());
    let t = cx.var("t");
    let s = q.state_at(t).unwrap();
    for i in 0..3 {
        let w = q.axis(i).unwrap().state_at(t).unwrap();
        cx.eqs("axis by axis", &[s.position[i], s.velocity[i], s.acceleration[i], s.jerk[i]], &[w.position, w.velocity, w.acceleration, w.jerk]);
    }
    cx.holds("finite time", q.state_at(S::NAN).err() == Some(E::NonFinite));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C28", trapezoid_plan, "MotionProfilePlanner::plan, plan_trapezoidal, MotionProfile::from_phase_plan; arbitrary limits, every displacement", |x| { x.cfg.abs_fork = true; }),
        h!("C28", scurve_plan, "plan_jerk_limited, acceleration_ramp; all four shapes, every displacement, limits 3/2/1.5 (thorough: arbitrary)", |x| { x.cfg.abs_fork = true; }),
        h!("C28", trapezoid_limits, "MotionProfile::state_at at an arbitrary time; limits 3/2 (thorough: arbitrary)", |x| { x.cfg.abs_fork = true; }),
        h!("C28", scurve_limits, "MotionProfile::state_at at an arbitrary time; speed limit not reached, limits 3/2/1.5", |x| { x.cfg.abs_fork = true; }),
        h!("C28", scurve_limits_fast, "MotionProfile::state_at at an arbitrary time; speed limit reached, limits 3/2/1.5 or 1/2/1.5", |x| { x.cfg.abs_fork = true; }),
        h!("C28", trapezoid_continuous, "MotionProfile::state_at within and across every phase; limits 3/2", |x| { x.cfg.abs_fork = true; }),
        h!("C28", scurve_continuous, "MotionProfile::state_at within and across every phase; shapes without limits or with both", |x| { x.cfg.abs_fork = true; }),
        h!("C28", scurve_continuous_mixed, "MotionProfile::state_at within and across every phase; one limit reached", |x| { x.cfg.abs_fork = true; }),
        h!("C28", still, "plans of no displacement"),
        h!("C28", limits_build, "ProfileLimits::try_new and planner errors"),
        h!("C28", stretch, "MotionProfile::stretched_to; arbitrary factor and time", |x| { x.cfg.abs_fork = true; }),
        h!("C28", together, "SynchronizedProfile::{from_profiles,try_from_profiles_over,state_at}; two moving axes and a still one", |x| { x.cfg.abs_fork = true; }),
    ]
}
