//! C37: sharing push and turn out over rotors, and how they catch up.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::PlantError as E;
use multicalc::linear_algebra::Vector;
use multicalc::plant::{MultirotorMixer, RotorLag, RotorSpin};
use RotorSpin::{Clockwise as R, CounterClockwise as L};

/// What the thrusts add up to, from where the rotors sit.
fn total<S: Sc, const N: usize>(at: &[[S; 3]; N], spin: &[RotorSpin; N], k: S, t: &[S; N]) -> [S; 4] {
    let mut w = [S::ZERO; 4];
    for i in 0..N {
        let turn = cross(&at[i], &[S::ZERO, S::ZERO, t[i]]);
        w[0] = w[0] + t[i];
        w[1] = w[1] + turn[0];
        w[2] = w[2] + turn[1];
        w[3] = if spin[i] == R { w[3] + k * t[i] } else { w[3] - k * t[i] };
    }
    w
}
/// Least-norm share, for layouts whose four rows are at right angles.
fn share<S: Sc, const N: usize>(at: &[[S; 3]; N], spin: &[RotorSpin; N], k: S, w: &[S; 4]) -> [S; N] {
    let n = S::from_usize(N);
    let (xx, yy) = at.iter().fold((S::ZERO, S::ZERO), |(a, b), p| (a + p[0] * p[0], b + p[1] * p[1]));
    std::array::from_fn(|i| {
        let s = if spin[i] == R { S::ONE } else { -S::ONE };
        w[0] / n + at[i][1] * w[1] / yy - at[i][0] * w[2] / xx + s * w[3] / (n * k)
    })
}
fn shared<S: Sc, const N: usize>(cx: &mut Cx<S>, m: &MultirotorMixer<N, S>, at: &[[S; 3]; N], spin: &[RotorSpin; N], k: S, lo: S, hi: S) {
    cx.eq("least", m.minimum_thrust(), lo);
    cx.eq("most", m.maximum_thrust(), hi);
    let w: [S; 4] = cx.vars("w");
    let want = share(at, spin, k, &w);
    let c = m.rotor_thrusts(w[0], Vector::new([w[1], w[2], w[3]]));
    let got = c.thrusts();
    let mut out = false;
    for i in 0..N {
        if cx.ask(lt(want[i], lo)) {
            out = true;
            cx.eq(&format!("held at the least[{i}]"), got[i], lo);
        } else if cx.ask(lt(hi, want[i])) {
            out = true;
            cx.eq(&format!("held at the most[{i}]"), got[i], hi);
        } else {
            cx.eq(&format!("share[{i}]"), got[i], want[i]);
        }
    }
    cx.holds("saturated", c.saturated() == out);
    let made = m.wrench(got);
    let t: [S; N] = *got.as_array();
    let sum = total(at, spin, k, &t);
    veq(cx, "push", made.force(), [S::ZERO, S::ZERO, sum[0]]);
    veq(cx, "turn", made.torque(), [sum[1], sum[2], sum[3]]);
    if !out {
        for i in 0..4 {
            cx.eq(&format!("as wanted[{i}]"), sum[i], w[i]);
        }
    }
}
fn any_wrench<S: Sc, const N: usize>(cx: &mut Cx<S>, m: &MultirotorMixer<N, S>, at: &[[S; 3]; N], spin: &[RotorSpin; N], k: S) {
    let t: [S; N] = cx.vars("t");
    let made = m.wrench(Vector::new(t));
    let sum = total(at, spin, k, &t);
    veq(cx, "adds up: push", made.force(), [S::ZERO, S::ZERO, sum[0]]);
    veq(cx, "adds up: turn", made.torque(), [sum[1], sum[2], sum[3]]);
    let a = rows(&m.allocation());
    let av = mv(&a, &t);
    for i in 0..4 {
        cx.eq(&format!("allocation[{i}]"), av[i], sum[i]);
    }
}
fn corners<S: Sc>(x: S, y: S, z: [S; 4]) -> [[S; 3]; 4] {
    [[x, -y, z[0]], [-x, y, z[1]], [x, y, z[2]], [-x, -y, z[3]]]
}
/// Four rotors decide the shares alone: what they make is what was wanted, within rounding.
fn made<S: Sc>(cx: &mut Cx<S>, m: &MultirotorMixer<4, S>, at: &[[S; 3]; 4], spin: &[RotorSpin; 4], k: S, lo: S, hi: S) {
    let w: [S; 4] = std::array::from_fn(|i| cx.var_open(&format!("w{i}"), -20.0, 20.0));
    // what each rotor would have to give, from the inverse of the layout
    let rows: Rows<S, 4, 4> = std::array::from_fn(|r| {
        let e: [[S; 4]; 4] = id();
        let cols: [[S; 4]; 4] = std::array::from_fn(|c| total(at, spin, k, &e[c]));
        std::array::from_fn(|c| cols[c][r])
    });
    let want: [S; 4] = {
        let d = det(&vv(&rows, 4));
        std::array::from_fn(|c| {
            let sub: Rows<S, 4, 4> = std::array::from_fn(|i| std::array::from_fn(|j| if j == c { w[i] } else { rows[i][j] }));
            det(&vv(&sub, 4)) / d
        })
    };
    let c = m.rotor_thrusts(w[0], Vector::new([w[1], w[2], w[3]]));
    let got = c.thrusts();
    let mut out = false;
    let hair = S::c(1e-9);
    let clear = |cx: &mut Cx<S>, x: S, lim: S| cx.assume(or(vec![lt(x, lim - hair), lt(lim + hair, x)]));
    for i in 0..4 {
        clear(cx, want[i], lo);
        clear(cx, want[i], hi);
        if cx.ask(lt(want[i], lo)) {
            out = true;
            cx.eq(&format!("held at the least[{i}]"), got[i], lo);
        } else if cx.ask(lt(hi, want[i])) {
            out = true;
            cx.eq(&format!("held at the most[{i}]"), got[i], hi);
        } else {
            cx.near(&format!("share[{i}]"), got[i], want[i], 1e-10);
        }
    }
    cx.holds("saturated", c.saturated() == out);
}
fn four<S: Sc>(cx: &mut Cx<S>) {
    let r = |n: i64, d: i64| S::rat(n, d);
    let o = S::ZERO;
    let (at, spin, k) = match cx.choose(4) {
        0 => (corners(r(1, 4), r(1, 8), [o; 4]), [R, R, L, L], r(1, 64)),
        1 => (corners(r(3, 10), r(2, 5), [o, r(1, 10), o, r(-1, 5)]), [L, L, R, R], r(1, 50)),
        // a lopsided layout and a plus
        2 => ([[r(1, 2), r(1, 10), o], [r(-1, 4), r(1, 3), o], [r(-1, 3), r(-1, 4), o], [r(1, 5), r(-2, 5), o]], [R, L, R, L], r(1, 10)),
        _ => ([[r(1, 4), o, o], [o, r(1, 4), o], [r(-1, 4), o, o], [o, r(-1, 4), o]], [R, L, R, L], r(1, 20)),
    };
    let lo = cx.var_open("lo", -5.0, 5.0);
    let hi = cx.var_open("hi", -5.0, 30.0);
    cx.assume(lt(lo, hi));
    let m = MultirotorMixer::new(at.map(Vector::new), spin, k, lo, hi);
    cx.holds("accepted", m.is_ok());
    let Ok(m) = m else { return };
    if cx.choose(2) == 1 { any_wrench(cx, &m, &at, &spin, k) } else { made(cx, &m, &at, &spin, k, lo, hi) }
}
/// Columns at right angles as well as rows, so that every symbol can stay free.
fn square<S: Sc>(cx: &mut Cx<S>) {
    let z: [S; 4] = cx.vars("z");
    let at = corners(S::ONE, S::ONE, z);
    let spin = if cx.choose(2) == 1 { [L, L, R, R] } else { [R, R, L, L] };
    let lo = cx.var("lo");
    let hi = cx.var("hi");
    cx.assume(lt(lo, hi));
    let m = MultirotorMixer::new(at.map(Vector::new), spin, S::ONE, lo, hi);
    cx.holds("accepted", m.is_ok());
    let Ok(m) = m else { return };
    if cx.choose(2) == 1 { any_wrench(cx, &m, &at, &spin, S::ONE) } else { shared(cx, &m, &at, &spin, S::ONE, lo, hi) }
}
fn cross_layout<S: Sc>(cx: &mut Cx<S>) {
    let (arm, k) = [(S::rat(1, 4), S::rat(1, 64)), (S::rat(3, 5), S::rat(1, 20)), (S::rat(1, 10), S::rat(1, 100))][cx.choose(3)];
    let (lo, hi) = (S::ZERO, cx.var_open("hi", 1.0, 20.0));
    let m = MultirotorMixer::quadrotor_x(arm, k, lo, hi);
    cx.holds("accepted", m.is_ok());
    let Ok(m) = m else { return };
    let half = arm / S::TWO.sqrt();
    let at = corners(half, half, [S::ZERO; 4]);
    let spin = [R, R, L, L];
    if cx.choose(2) == 1 {
        let t: [S; 4] = std::array::from_fn(|i| cx.var_open(&format!("t{i}"), -20.0, 20.0));
        let made = m.wrench(Vector::new(t));
        let sum = total(&at, &spin, k, &t);
        for i in 0..3 {
            cx.near(&format!("push[{i}]"), made.force()[i], if i == 2 { sum[0] } else { S::ZERO }, 1e-10);
            cx.near(&format!("turn[{i}]"), made.torque()[i], sum[i + 1], 1e-10);
        }
    } else {
        made(cx, &m, &at, &spin, k, lo, hi)
    }
}
fn eight<S: Sc>(cx: &mut Cx<S>) {
    let (x, y) = (cx.var_open("x", 0.3, 0.6), cx.var_open("y", 0.1, 0.2));
    let k = cx.var_open("k", 0.01, 0.05);
    let (a, b) = (corners(x, y, [S::ZERO; 4]), corners(S::rat(1, 2) * x, S::TWO * y, [S::ONE; 4]));
    let at: [[S; 3]; 8] = std::array::from_fn(|i| if i < 4 { a[i] } else { b[i - 4] });
    let spin = [R, R, L, L, L, L, R, R];
    let m = MultirotorMixer::new(at.map(Vector::new), spin, k, S::c(-1e6), S::c(1e6));
    cx.holds("accepted", m.is_ok());
    let Ok(m) = m else { return };
    if cx.choose(2) == 1 {
        return any_wrench(cx, &m, &at, &spin, k);
    }
    let w: [S; 4] = std::array::from_fn(|i| cx.var_open(&format!("w{i}"), -10.0, 10.0));
    let c = m.rotor_thrusts(w[0], Vector::new([w[1], w[2], w[3]]));
    cx.holds("within", !c.saturated());
    veq(cx, "share", c.thrusts(), share(&at, &spin, k, &w));
}
fn lacking<S: Sc>(cx: &mut Cx<S>) {
    let (x, y, k) = [(S::rat(1, 2), S::rat(1, 8), S::rat(1, 64)), (S::rat(3, 10), S::rat(1, 5), S::rat(1, 10)), (S::rat(1, 4), S::rat(1, 4), S::rat(1, 50))][cx.choose(3)];
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    cx.assume(lt(lo, hi));
    let o = S::ZERO;
    let at4 = corners(x, y, [o; 4]);
    let line = |a: S, b: S| [[a, o, o], [-a, o, o], [b, y, o], [-b, -y, o]].map(|p: [S; 3]| [p[0], p[0] + p[0], p[2]]);
    let e = match cx.choose(6) {
        // every rotor turns one way
        0 => MultirotorMixer::new(at4.map(Vector::new), [R; 4], k, lo, hi).err(),
        1 => MultirotorMixer::new(at4.map(Vector::new), [L; 4], k, lo, hi).err(),
        // all in a line
        2 => MultirotorMixer::new(line(x, y).map(Vector::new), [R, R, L, L], k, lo, hi).err(),
        3 => MultirotorMixer::new(at4.map(|p| Vector::new([p[0], o, p[2]])), [R, L, R, L], k, lo, hi).err(),
        // too few
        4 => MultirotorMixer::new([at4[0], at4[1], at4[2]].map(Vector::new), [R, L, R], k, lo, hi).err(),
        _ => MultirotorMixer::new([at4[0], at4[3]].map(Vector::new), [R, L], k, lo, hi).err(),
    };
    cx.holds("refused", matches!(e, Some(E::RotorLayoutNotIndependent)));
}
fn bad_numbers<S: Sc>(cx: &mut Cx<S>) {
    let at = cx.choose(8);
    let bad = cx.any("bad");
    let fin = bad.is_finite();
    let mut v = [S::rat(1, 4), S::rat(1, 8), S::ZERO, S::rat(1, 50), S::rat(-1, 10), S::TWO, S::rat(1, 3)];
    if at < 7 {
        v[at] = bad;
    }
    let (k, lo, hi) = (v[3], v[4], v[5]);
    let named = |e: E, cx: &mut Cx<S>| match e {
        E::NonFinite => cx.holds("not a number", !fin),
        E::NonPositiveTorqueRatio => cx.check("torque ratio", le(k, S::ZERO)),
        E::InvalidThrustLimits => cx.check("limits", le(hi, lo)),
        E::NonPositiveArmLength => cx.check("arm", le(v[6], S::ZERO)),
        _ => cx.holds("another error", false),
    };
    if at < 3 {
        // only whether the number is one: the layout itself is decided elsewhere
        if fin {
            cx.stop();
        }
        let mut p = corners(S::rat(1, 4), S::rat(1, 8), [S::ZERO; 4]);
        let r = cx.choose(4);
        p[r][at] = bad;
        let e = MultirotorMixer::new(p.map(Vector::new), [R, R, L, L], k, lo, hi).err();
        cx.holds("place", matches!(e, Some(E::NonFinite)));
    } else if at < 7 {
        if fin {
            cx.assume(lt(S::c(-100.0), bad));
            cx.assume(lt(bad, S::c(100.0)));
        }
        // the layout is fixed when it is not what is asked about
        if fin && (at == 3 || at == 6) {
            cx.assume(le(bad, S::ZERO));
        }
        match MultirotorMixer::quadrotor_x(v[6], k, lo, hi) {
            Ok(_) => {
                cx.holds("numbers", fin);
                cx.check("taken", and(vec![lt(S::ZERO, k), lt(lo, hi), lt(S::ZERO, v[6])]));
            }
            Err(e) => named(e, cx),
        }
    }
}
fn lag<S: Sc>(cx: &mut Cx<S>) {
    let (tau, h) = (cx.pos("tau"), cx.pos("h"));
    let Ok(r) = RotorLag::<2, S>::new(tau, h) else {
        cx.holds("accepted", false);
        cx.stop()
    };
    cx.eq("time constant", r.time_constant(), tau);
    cx.eq("tick", r.timestep(), h);
    veq(cx, "at rest", r.thrusts(), [S::ZERO; 2]);
    let (f, c): ([S; 2], [S; 2]) = (cx.vars("f"), cx.vars("c"));
    let d: [S; 2] = cx.vars("d");
    let mut r = r.with_thrusts(Vector::new(f));
    veq(cx, "started", r.thrusts(), f);
    let rate = r.rate(Vector::new(c));
    for i in 0..2 {
        cx.eq(&format!("rate[{i}]"), rate[i] * tau, c[i] - f[i]);
    }
    let mut other = r;
    let mut once = r;
    let keep = (-h / tau).exp();
    let want: [S; 2] = std::array::from_fn(|i| c[i] + (f[i] - c[i]) * keep);
    let got = r.stepped(Vector::new(c));
    veq(cx, "step", got, want);
    veq(cx, "kept", r.thrusts(), want);
    for i in 0..2 {
        // never past the command, always nearer to it
        cx.check(&format!("no overshoot[{i}]"), and(vec![le(S::ZERO, (c[i] - got[i]) * (c[i] - f[i])), le((c[i] - got[i]) * (c[i] - f[i]), (c[i] - f[i]) * (c[i] - f[i]))]));
    }
    // a second tick toward another command
    let got = r.stepped(Vector::new(d));
    let then: [S; 2] = std::array::from_fn(|i| d[i] + (want[i] - d[i]) * keep);
    veq(cx, "second step", got, then);
    veq(cx, "over the same tick", other.stepped_over(Vector::new(c), h), want);
    veq(cx, "over the same tick, kept", other.thrusts(), want);
    veq(cx, "and again", other.stepped_over(Vector::new(d), h), then);
    // two ticks are one of twice the length
    veq(cx, "over two", once.stepped_over(Vector::new(c), h + h), std::array::from_fn(|i| c[i] + (f[i] - c[i]) * keep * keep));
    cx.eq("tick unchanged", once.timestep(), h);
    once.reset();
    veq(cx, "reset", once.thrusts(), [S::ZERO; 2]);
    veq(cx, "from rest", once.stepped(Vector::new(c)), std::array::from_fn(|i| c[i] * (S::ONE - keep)));
}
fn lag_refused<S: Sc>(cx: &mut Cx<S>) {
    let (tau, h) = (cx.any("tau"), cx.any("h"));
    let fin = tau.is_finite() && h.is_finite();
    match RotorLag::<1, S>::new(tau, h) {
        Ok(_) => {
            cx.holds("numbers", fin);
            cx.check("positive", and(vec![lt(S::ZERO, tau), lt(S::ZERO, h)]));
        }
        Err(E::NonFinite) => cx.holds("not a number", !fin),
        Err(E::NonPositiveTimeConstant) => cx.check("time constant", le(tau, S::ZERO)),
        Err(E::NonPositiveTimestep) => cx.check("tick", le(h, S::ZERO)),
        Err(_) => cx.holds("another error", false),
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C37", four, "MultirotorMixer::{new,allocation,rotor_thrusts,wrench}; four layouts of four rotors, any limits to 30, wanted push and turn to 20, thrusts", |x| { x.cfg.abs_fork = true; x.cfg.const_f64 = true; }),
        h!("C37", square, "as above; rotors at (+-1, +-1), any heights, limits, wanted push and turn, thrusts", |x| x.cfg.abs_fork = true),
        h!("C37", cross_layout, "MultirotorMixer::quadrotor_x and as above; three arms and twist ratios", |x| { x.cfg.abs_fork = true; x.cfg.const_f64 = true; }),
        h!("C37", eight, "MultirotorMixer with eight rotors on two rectangles of any size 0.1-0.6; any push and turn, any thrusts", |x| x.cfg.abs_fork = true),
        h!("C37", lacking, "MultirotorMixer::new; rotors turning one way, in a line, too few; any limits", |x| { x.cfg.abs_fork = true; x.cfg.const_f64 = true; }),
        h!("C37", bad_numbers, "MultirotorMixer::{new,quadrotor_x}; any number, finite or not, in each place", |x| { x.cfg.abs_fork = true; x.cfg.const_f64 = true; }),
        h!("C37", lag, "RotorLag::{new,with_thrusts,stepped,stepped_over,rate,reset}; any time constant, tick, thrusts and commands"),
        h!("C37", lag_refused, "RotorLag::new; any numbers, finite or not"),
    ]
}
