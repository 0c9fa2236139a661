use engine::cx::*;
use engine::{Harness, h};
use multicalc::control::Pid;
use multicalc::error::ControlError;

/// Textbook reference written from the documentation.
struct Ref<S> {
    kp: S,
    ki: S,
    kd: S,
    dt: S,
    lo: S,
    hi: S,
    a: S,
    integral: S,
    d: Option<S>,
    prev: Option<(S, S)>,
}
impl<S: Sc> Ref<S> {
    fn step(&mut self, cx: &mut Cx<S>, r: S, y: S) -> S {
        let e = r - y;
        let raw = match self.prev {
            Some((_, m)) => (m - y) / self.dt,
            None => S::ZERO,
        };
        let d = match self.d {
            Some(p) => self.a * raw + (S::ONE - self.a) * p,
            None => raw,
        };
        self.d = Some(d);
        self.prev = Some((e, y));
        let inc = self.ki * e * self.dt;
        let u = self.kp * e + self.integral + inc + self.kd * d;
        let high = cx.ask(lt(self.hi, u));
        let low = cx.ask(lt(u, self.lo));
        let out = if high {
            self.hi
        } else if low {
            self.lo
        } else {
            u
        };
        // conditional integration: hold when the step would push deeper into the active limit
        let hold = (high && cx.ask(lt(S::ZERO, inc))) || (low && cx.ask(lt(inc, S::ZERO)));
        if !hold {
            self.integral = self.integral + inc;
        }
        out
    }
}
fn setup<S: Sc>(cx: &mut Cx<S>) -> (Pid<S>, Ref<S>) {
    let (kp, ki, kd) = (cx.var("kp"), cx.var("ki"), cx.var("kd"));
    let dt = cx.pos("dt");
    let a = cx.var_in("alpha", 0.0, 1.0);
    let lim = cx.choose(3);
    let (lo, hi) = match lim {
        0 => {
            let (lo, hi) = (cx.var_hint("lo", -3.0, 0.5), cx.var_hint("hi", -0.5, 3.0));
            cx.assume(le(lo, hi));
            (lo, hi)
        }
        1 => (S::NEG_INFINITY, cx.var("hi")),
        _ => (S::NEG_INFINITY, S::INFINITY),
    };
    let p = Pid::new(kp, ki, kd, dt).unwrap().with_output_limits(lo, hi).unwrap().with_derivative_filter(a).unwrap();
    (p, Ref { kp, ki, kd, dt, lo, hi, a, integral: S::ZERO, d: None, prev: None })
}

/// First updates from a fresh controller follow the law and stay in the limits.
fn pid_fresh<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, mut m) = setup(cx);
    for k in 0..2 {
        let (r, y) = (cx.var(&format!("r{k}")), cx.var(&format!("y{k}")));
        let u = p.update(r, y);
        cx.check("within limits", and(vec![le(m.lo, u), le(u, m.hi)]));
        let v = m.step(cx, r, y);
        cx.eq("output law", u, v);
        cx.eq("integral law", p.integral(), m.integral);
    }
}
/// One update from an arbitrary controller state.
fn pid_step<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, mut m) = setup(cx);
    // arbitrary integral, measurement history
    let (u0, r0, y0) = (cx.var("u0"), cx.var("r0"), cx.var("y0"));
    p.resume_from(u0, r0, y0).unwrap();
    m.integral = u0 - m.kp * (r0 - y0) - m.ki * (r0 - y0) * m.dt;
    m.d = None;
    m.prev = Some((r0 - y0, y0));
    cx.eq("resume integral", p.integral(), m.integral);
    let (r, y) = (cx.var("r1"), cx.var("y1"));
    let before = p.integral();
    let u = p.update(r, y);
    cx.check("within limits", and(vec![le(m.lo, u), le(u, m.hi)]));
    let v = m.step(cx, r, y);
    cx.eq("output law", u, v);
    cx.eq("integral law", p.integral(), m.integral);
    // saturated: the integral never moves further in the direction of the active limit
    cx.check("no wind-up high", implies(and(vec![eq(u, m.hi), lt(m.hi, m.kp * (r - y) + before + m.ki * (r - y) * m.dt + m.kd * m.d.unwrap())]), le(p.integral(), before)));
    cx.check("no wind-up low", implies(and(vec![eq(u, m.lo), lt(m.kp * (r - y) + before + m.ki * (r - y) * m.dt + m.kd * m.d.unwrap(), m.lo)]), le(before, p.integral())));
}
/// Taking over is bumpless: the next update with the same pair gives the command back, clamped.
fn pid_resume<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, m) = setup(cx);
    // some history before the takeover
    let (ra, ya) = (cx.var("ra"), cx.var("ya"));
    if cx.choose(2) == 1 {
        p.update(ra, ya);
    }
    let (u0, r0, y0) = (cx.var("u0"), cx.var("r0"), cx.var("y0"));
    p.resume_from(u0, r0, y0).unwrap();
    let u = p.update(r0, y0);
    cx.check("bumpless", or(vec![eq(u, u0), and(vec![lt(m.hi, u0), eq(u, m.hi)]), and(vec![lt(u0, m.lo), eq(u, m.lo)])]));
}
/// Changing gains leaves P + I + D at the present error and derivative where it was.
fn pid_set_gains<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, mut m) = setup(cx);
    let (u0, r0, y0) = (cx.var("u0"), cx.var("r0"), cx.var("y0"));
    p.resume_from(u0, r0, y0).unwrap();
    m.integral = p.integral();
    m.prev = Some((r0 - y0, y0));
    let (r, y) = (cx.var("r1"), cx.var("y1"));
    p.update(r, y);
    let _ = m.step(cx, r, y);
    let (kp, ki, kd) = (cx.var("kp2"), cx.var("ki2"), cx.var("kd2"));
    let before = p.integral();
    p.set_gains(kp, ki, kd).unwrap();
    let (e, d) = (m.prev.unwrap().0, m.d.unwrap());
    cx.eq("gain change keeps the command", p.integral() + kp * e + kd * d, before + m.kp * e + m.kd * d);
    // and the next command, at an unchanged setpoint and measurement, uses the new gains on top
    m.integral = p.integral();
    m.kp = kp;
    m.ki = ki;
    m.kd = kd;
    let u = p.update(r, y);
    let v = m.step(cx, r, y);
    cx.eq("next output", u, v);
}
/// A fresh controller and a reset one are indistinguishable; before any update a gain change moves nothing.
fn pid_reset<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, m) = setup(cx);
    let mut q = p;
    let (u0, r0, y0) = (cx.var("u0"), cx.var("r0"), cx.var("y0"));
    p.resume_from(u0, r0, y0).unwrap();
    p.update(cx.var("r1"), cx.var("y1"));
    p.reset();
    cx.eq("integral cleared", p.integral(), S::ZERO);
    if cx.choose(2) == 1 {
        let g = (cx.var("kp2"), cx.var("ki2"), cx.var("kd2"));
        p.set_gains(g.0, g.1, g.2).unwrap();
        q.set_gains(g.0, g.1, g.2).unwrap();
        cx.eq("nothing shifted", p.integral(), S::ZERO);
        cx.eq("nothing shifted fresh", q.integral(), S::ZERO);
    }
    let (r, y) = (cx.var("r2"), cx.var("y2"));
    cx.eq("first output after reset", p.update(r, y), q.update(r, y));
    let (r, y) = (cx.var("r3"), cx.var("y3"));
    if m.hi.is_infinite() {
        cx.eq("second output after reset", p.update(r, y), q.update(r, y));
    }
    cx.eq("integral after reset", p.integral(), q.integral());
}
/// Any sequence of operations, against the documented state: three chosen ones, then an update.
fn pid_sequence<S: Sc>(cx: &mut Cx<S>) {
    let (mut kp, mut ki, mut kd) = (cx.var("kp"), cx.var("ki"), cx.var("kd"));
    let (dt, a) = (cx.pos("dt"), cx.var_in("alpha", 0.0, 1.0));
    let mut p = Pid::new(kp, ki, kd, dt).unwrap().with_derivative_filter(a).unwrap();
    let mut integral = S::ZERO;
    let mut d: Option<S> = None;
    let mut prev: Option<(S, S)> = None;
    for k in 0..4 {
        let op = if k == 3 { 0 } else { cx.choose(4) };
        match op {
            0 => {
                let (r, y) = (cx.var(&format!("r{k}")), cx.var(&format!("y{k}")));
                let raw = prev.map_or(S::ZERO, |(_, y0)| (y0 - y) / dt);
                let f = d.map_or(raw, |d| d + a * (raw - d));
                integral = integral + ki * (r - y) * dt;
                d = Some(f);
                prev = Some((r - y, y));
                cx.eq("command", p.update(r, y), kp * (r - y) + integral + kd * f);
            }
            1 => {
                let g = (cx.var(&format!("kp{k}")), cx.var(&format!("ki{k}")), cx.var(&format!("kd{k}")));
                p.set_gains(g.0, g.1, g.2).unwrap();
                if let Some((e, _)) = prev {
                    integral = integral + (kp - g.0) * e + (kd - g.2) * d.unwrap_or(S::ZERO);
                }
                (kp, ki, kd) = g;
            }
            2 => {
                let (u, r, y) = (cx.var(&format!("u{k}")), cx.var(&format!("r{k}")), cx.var(&format!("y{k}")));
                p.resume_from(u, r, y).unwrap();
                integral = u - kp * (r - y) - ki * (r - y) * dt;
                d = None;
                prev = Some((r - y, y));
            }
            _ => {
                p.reset();
                (integral, d, prev) = (S::ZERO, None, None);
            }
        }
        cx.eq("integral", p.integral(), integral);
    }
}
/// Construction accepts exactly the documented arguments.
fn pid_validate<S: Sc>(cx: &mut Cx<S>) {
    let v: [S; 4] = [cx.any("a"), cx.any("b"), cx.any("c"), cx.any("d")];
    let fin = v.iter().all(|x| x.is_finite());
    let want = if !fin {
        Some(ControlError::NonFinite)
    } else if cx.ask(le(v[3], S::ZERO)) {
        Some(ControlError::NonPositiveTimestep)
    } else {
        None
    };
    let r = Pid::new(v[0], v[1], v[2], v[3]);
    cx.holds("constructor", r.err() == want);
    if let Ok(mut p) = r {
        let (lo, hi) = (cx.any("lo"), cx.any("hi"));
        let l = p.with_output_limits(lo, hi);
        let nan = lo.is_nan() || hi.is_nan();
        let w = if nan {
            Some(ControlError::NonFinite)
        } else if cx.ask(lt(hi, lo)) {
            Some(ControlError::InvalidOutputLimits)
        } else {
            None
        };
        cx.holds("limits", l.err() == w);
        let g = cx.any("g");
        cx.holds("gains", p.set_gains(v[0], g, v[2]).is_err() == !g.is_finite());
        cx.holds("resume", p.resume_from(v[0], g, v[2]).is_err() == !g.is_finite());
        let a = cx.any("alpha");
        let bad = !a.is_finite() || cx.ask(lt(a, S::ZERO)) || cx.ask(lt(S::ONE, a));
        cx.holds("filter", p.with_derivative_filter(a).is_err() == bad);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C10", pid_fresh, "Pid::{new,with_output_limits,with_derivative_filter,update,integral}; 2 updates from rest, all gains, limits finite/half-open/unbounded"),
        h!("C10", pid_step, "Pid::{resume_from,update,integral}; one update from an arbitrary integral and measurement history (inductive step)"),
        h!("C10", pid_resume, "Pid::resume_from then update with the same pair"),
        h!("C10", pid_set_gains, "Pid::set_gains after an arbitrary update"),
        h!("C10", pid_reset, "Pid::reset against a fresh controller, 2 updates"),
        h!("C10", pid_sequence, "Pid::{update,set_gains,resume_from,reset}; every sequence of three operations and an update"),
        h!("C10", pid_validate, "argument validation over finite, NaN and infinite arguments"),
    ]
}
