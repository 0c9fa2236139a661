//! C14: designed filters have the gains they promise and are stable.
use crate::filters::coeffs;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::SignalError;
use multicalc::signal_processing::*;

fn design<S: Sc>(k: usize, f: S, q: S, dt: S) -> Result<BiquadCoefficients<S>, SignalError> {
    match k {
        0 => BiquadCoefficients::low_pass(f, q, dt),
        1 => BiquadCoefficients::high_pass(f, q, dt),
        2 => BiquadCoefficients::band_pass(f, q, dt),
        _ => BiquadCoefficients::notch(f, q, dt),
    }
}
/// A valid (frequency, sharpness, timestep); trigonometric facts of the angles involved are stated,
/// since the solver knows sine and cosine only through cos^2 + sin^2 = 1.
fn args<S: Sc>(cx: &mut Cx<S>) -> (S, S, S) {
    let f = cx.var_hint("f", 0.02, 1.9);
    let q = cx.var_hint("q", 0.1, 4.0);
    let dt = cx.var_hint("dt", 0.02, 0.6);
    cx.assume(and(vec![lt(S::ZERO, f), lt(S::ZERO, q), lt(S::ZERO, dt), lt(f * dt, S::HALF)]));
    // 0 < angle < pi
    let angle = S::TWO * S::PI * f * dt;
    cx.assume(lt(S::ZERO, angle.sin()));
    // 0 < angle / 2q < pi/2 exactly when f dt < q / 2
    let half = angle / (S::TWO * q);
    if cx.ask(lt(f * dt, S::HALF * q)) {
        cx.assume(and(vec![lt(S::ZERO, half.sin()), lt(S::ZERO, half.cos())]));
    } else {
        cx.assume(ne(half.cos(), S::ZERO));
    }
    (f, q, dt)
}
fn sum3<S: Sc>(v: [S; 3], z: S) -> S {
    v[0] + v[1] * z + v[2] * z * z
}
fn stable<S: Sc>(cx: &mut Cx<S>, k: usize) {
    let (f, q, dt) = args(cx);
    match design(k, f, q, dt) {
        Err(e) => {
            // a band edge at or past half the sampling rate cannot be realised
            cx.holds("rejected only out of range", e == SignalError::FrequencyOutOfRange && k >= 2);
            cx.check("rejected only when the band is too wide", le(S::HALF * q, f * dt));
        }
        Ok(c) => {
            let a = c.feedback();
            // Jury conditions: both poles strictly inside the unit circle
            cx.check("poles inside the unit circle", and(vec![lt(a[1], S::ONE), lt(-S::ONE - a[1], a[0]), lt(a[0], S::ONE + a[1])]));
            cx.holds("is_stable says so", c.is_stable());
            cx.eq("timestep kept", c.timestep(), dt);
        }
    }
}
fn low_pass_stable<S: Sc>(cx: &mut Cx<S>) {
    stable(cx, 0)
}
fn high_pass_stable<S: Sc>(cx: &mut Cx<S>) {
    stable(cx, 1)
}
fn band_pass_stable<S: Sc>(cx: &mut Cx<S>) {
    stable(cx, 2)
}
fn notch_stable<S: Sc>(cx: &mut Cx<S>) {
    stable(cx, 3)
}
/// Gains at DC, at Nyquist and at the design frequency.
fn gains<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    let (f, q, dt) = args(cx);
    let Ok(c) = design(k, f, q, dt) else { cx.stop() };
    let b = c.feed_forward();
    let a = [S::ONE, c.feedback()[0], c.feedback()[1]];
    let (dc_n, dc_d) = (sum3(b, S::ONE), sum3(a, S::ONE));
    let (ny_n, ny_d) = (sum3(b, -S::ONE), sum3(a, -S::ONE));
    // complex response at the design frequency, z^-1 = cos - i sin
    let w = S::TWO * S::PI * f * dt;
    let (co, si) = (w.cos(), w.sin());
    let (c2, s2) = (co * co - si * si, S::TWO * si * co);
    let part = |v: [S; 3]| (v[0] + v[1] * co + v[2] * c2, -(v[1] * si + v[2] * s2));
    let (nr, ni) = part(b);
    let (dr, di) = part(a);
    let (nn, dd) = (nr * nr + ni * ni, dr * dr + di * di);
    match k {
        0 => {
            cx.eq("low-pass passes dc", dc_n, dc_d);
            cx.eq("low-pass blocks nyquist", ny_n, S::ZERO);
            cx.eq("low-pass gain at cutoff is the sharpness", nn, q * q * dd);
        }
        1 => {
            cx.eq("high-pass blocks dc", dc_n, S::ZERO);
            cx.eq("high-pass passes nyquist", ny_n, ny_d);
            cx.eq("high-pass gain at cutoff is the sharpness", nn, q * q * dd);
        }
        2 => {
            cx.eq("band-pass blocks dc", dc_n, S::ZERO);
            cx.eq("band-pass blocks nyquist", ny_n, S::ZERO);
            cx.eq("band-pass unit gain at centre re", nr, dr);
            cx.eq("band-pass unit gain at centre im", ni, di);
        }
        _ => {
            cx.eq("notch passes dc", dc_n, dc_d);
            cx.eq("notch passes nyquist", ny_n, ny_d);
            cx.eq("notch removes centre re", nr, S::ZERO);
            cx.eq("notch removes centre im", ni, S::ZERO);
        }
    }
    // the shared denominator of each pair: bandwidth convention
    let t = if k < 2 { w.sin() / (S::TWO * q) } else { (w / (S::TWO * q)).tan() };
    cx.eq("damping convention", a[2] * (S::ONE + t), S::ONE - t);
}
/// At every frequency the gain stays at or below its promised ceiling (band-pass and notch never amplify).
fn ceilings<S: Sc>(cx: &mut Cx<S>) {
    let k = 2 + cx.choose(2);
    let (f, q, dt) = args(cx);
    let Ok(c) = design(k, f, q, dt) else { cx.stop() };
    let b = c.feed_forward();
    let a = [S::ONE, c.feedback()[0], c.feedback()[1]];
    let g = cx.var_hint("probe", 0.0, 1.0);
    let w = S::TWO * S::PI * g * dt;
    let (co, si) = (w.cos(), w.sin());
    let (c2, s2) = (co * co - si * si, S::TWO * si * co);
    let part = |v: [S; 3]| (v[0] + v[1] * co + v[2] * c2, -(v[1] * si + v[2] * s2));
    let (nr, ni) = part(b);
    let (dr, di) = part(a);
    cx.check("never amplifies", le(nr * nr + ni * ni, dr * dr + di * di));
}
/// The reported response is the transfer function on the unit circle.
fn response<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "");
    let g = cx.var_hint("g", 0.0, 1.0);
    let w = S::TWO * S::PI * g * c.timestep();
    let (co, si) = (w.cos(), w.sin());
    let (c2, s2) = (co * co - si * si, S::TWO * si * co);
    let part = |v: [S; 3]| (v[0] + v[1] * co + v[2] * c2, -(v[1] * si + v[2] * s2));
    let (nr, ni) = part(c.feed_forward());
    let (dr, di) = part([S::ONE, c.feedback()[0], c.feedback()[1]]);
    cx.assume(ne(dr * dr + di * di, S::ZERO));
    let m = c.magnitude_at(g);
    cx.eq("magnitude squared", m * m * (dr * dr + di * di), nr * nr + ni * ni);
    cx.check("magnitude nonnegative", le(S::ZERO, m));
}
fn phase<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "");
    let g = cx.var_hint("g", 0.05, 1.0);
    let (nr, ni, dr, di) = off_axis(cx, &c, g);
    let p = c.phase_at(g);
    // H = N / D has real part (nr dr + ni di)/|D|^2, imaginary part (ni dr - nr di)/|D|^2
    let (hr, hi) = (nr * dr + ni * di, ni * dr - nr * di);
    let (pc, ps) = (p.cos(), p.sin());
    cx.eq("phase direction", ps * hr, pc * hi);
    cx.check("phase sense", lt(S::ZERO, pc * hr + ps * hi));
    if cx.choose(2) == 1 {
        cx.eq("no delay at zero frequency", c.delay_at(S::ZERO), S::ZERO);
    } else {
        cx.assume(ne(g, S::ZERO));
        cx.eq("delay from phase", c.delay_at(g) * S::TWO * S::PI * g, -p);
    }
}
fn cascade_response<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    let g = cx.var_hint("g", 0.05, 1.0);
    let k = BiquadCascade::new([c, d]);
    let (m1, m2) = (c.magnitude_at(g), d.magnitude_at(g));
    if !m1.is_finite() || !m2.is_finite() {
        cx.stop();
    }
    cx.eq("gains multiply", k.magnitude_at(g), m1 * m2);
    cx.assume(and(vec![lt(S::ZERO, m1), lt(S::ZERO, m2)]));
    let db = S::from_f64(20.0 / core::f64::consts::LN_10);
    cx.eq("decibels", c.magnitude_in_decibels_at(g), db * m1.log());
    cx.eq("cascade decibels", k.magnitude_in_decibels_at(g), db * (m1 * m2).log());
}
/// The numerator and denominator responses at `g` stay off the axes (where a phase is a special case).
fn off_axis<S: Sc>(cx: &mut Cx<S>, c: &BiquadCoefficients<S>, g: S) -> (S, S, S, S) {
    let w = S::TWO * S::PI * g * c.timestep();
    let (co, si) = (w.cos(), w.sin());
    let (c2, s2) = (co * co - si * si, S::TWO * si * co);
    let part = |v: [S; 3]| (v[0] + v[1] * co + v[2] * c2, -(v[1] * si + v[2] * s2));
    let (nr, ni) = part(c.feed_forward());
    let (dr, di) = part([S::ONE, c.feedback()[0], c.feedback()[1]]);
    cx.assume(and(vec![ne(dr, S::ZERO), ne(di, S::ZERO), ne(nr, S::ZERO), ne(ni, S::ZERO)]));
    (nr, ni, dr, di)
}
fn cascade_phase<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    let g = cx.var_hint("g", 0.05, 1.0);
    cx.assume(lt(S::ZERO, g));
    for v in [&c, &d] {
        off_axis(cx, v, g);
    }
    let k = BiquadCascade::new([c, d]);
    let (p1, p2) = (c.phase_at(g), d.phase_at(g));
    cx.eq("phases add", k.phase_at(g), p1 + p2);
    cx.eq("cascade delay", k.delay_at(g) * S::TWO * S::PI * g, -(p1 + p2));
    cx.eq("cascade delay at zero", k.delay_at(S::ZERO), S::ZERO);
}
fn stability_test<S: Sc>(cx: &mut Cx<S>) {
    // is_stable holds exactly when every pole is strictly inside the unit circle
    let c = coeffs(cx, "");
    let a = c.feedback();
    let s = c.is_stable();
    let disc = a[0] * a[0] - S::c(4.0) * a[1];
    if cx.ask(lt(disc, S::ZERO)) {
        // complex pair, modulus squared a2
        cx.check("complex poles", if s { lt(a[1], S::ONE) } else { le(S::ONE, a[1]) });
    } else {
        let r = disc.sqrt();
        let (p, m) = ((-a[0] + r) * S::HALF, (-a[0] - r) * S::HALF);
        let inside = and(vec![lt(p, S::ONE), lt(-S::ONE, p), lt(m, S::ONE), lt(-S::ONE, m)]);
        cx.check("real poles", if s { inside } else { not(inside) });
    }
}
fn validate<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    let (f, q, dt) = (cx.any("f"), cx.any("q"), cx.any("dt"));
    let r = design(k, f, q, dt);
    if !f.is_finite() || !q.is_finite() || !dt.is_finite() {
        cx.holds("non-finite", r == Err(SignalError::NonFinite));
    } else if cx.ask(le(dt, S::ZERO)) {
        cx.holds("timestep", r == Err(SignalError::NonPositiveTimestep));
    } else if cx.ask(le(q, S::ZERO)) {
        cx.holds("sharpness", r == Err(SignalError::NonPositiveQualityFactor));
    } else if cx.ask(le(f, S::ZERO)) || cx.ask(le(S::HALF, f * dt)) {
        cx.holds("frequency", r == Err(SignalError::FrequencyOutOfRange));
    } else if cx.ask(lt(f * dt, S::HALF * q)) || k < 2 {
        cx.holds("accepted", r.is_ok());
    }
}
fn harmonic<S: Sc>(cx: &mut Cx<S>) {
    let (f, q, dt) = args(cx);
    // the half-bandwidth angles of the multiples that are in range lie below a quarter turn
    for i in [2.0, 3.0] {
        let n = f * S::c(i);
        if cx.ask(lt(n * dt, S::HALF * q)) {
            let half = S::TWO * S::PI * n * dt / (S::TWO * q);
            cx.assume(and(vec![lt(S::ZERO, half.sin()), lt(S::ZERO, half.cos())]));
        }
    }
    let r = harmonic_notch_coefficients::<3, S>(f, q, dt);
    let three = f * S::THREE * dt;
    match r {
        Ok(v) => {
            cx.check("highest multiple below nyquist", lt(three, S::HALF));
            for (i, c) in v.iter().enumerate() {
                let n = BiquadCoefficients::notch(f * S::c(i as f64 + 1.0), q, dt).unwrap();
                cx.eqs("section feed-forward", &c.feed_forward(), &n.feed_forward());
                cx.eqs("section feedback", &c.feedback(), &n.feedback());
            }
        }
        Err(e) => {
            cx.holds("error kind", e == SignalError::FrequencyOutOfRange);
            cx.check("only when out of range", or(vec![le(S::HALF, three), le(S::HALF * q, three)]));
        }
    }
}
fn harmonic_none<S: Sc>(cx: &mut Cx<S>) {
    let (f, q, dt) = args(cx);
    cx.holds("no sections", harmonic_notch_coefficients::<0, S>(f, q, dt) == Err(SignalError::WindowTooShort));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C14", low_pass_stable, "BiquadCoefficients::low_pass; all valid f, Q, dt"),
        h!("C14", high_pass_stable, "BiquadCoefficients::high_pass; all valid f, Q, dt"),
        h!("C14", band_pass_stable, "BiquadCoefficients::band_pass; all valid f, Q, dt"),
        h!("C14", notch_stable, "BiquadCoefficients::notch; all valid f, Q, dt"),
        h!("C14", gains, "four designs: gain at DC, Nyquist, design frequency; bandwidth convention"),
        h!("C14", ceilings, "band_pass and notch gain at every probe frequency"),
        h!("C14", response, "magnitude_at for arbitrary weights and frequency"),
        h!("C14", phase, "phase_at, delay_at for arbitrary weights; axis-aligned responses excluded"),
        h!("C14", cascade_response, "BiquadCascade::{magnitude_at,magnitude_in_decibels_at}, 2 sections", |x| { x.cfg.div_zero = engine::DivZero::Assume; }),
        h!("C14", cascade_phase, "BiquadCascade::{phase_at,delay_at}, 2 sections"),
        h!("C14", stability_test, "is_stable against the roots of the characteristic polynomial"),
        h!("C14", validate, "design argument validation over finite, NaN, infinite"),
        h!("C14", harmonic, "harmonic_notch_coefficients, 3 sections"),
        h!("C14", harmonic_none, "harmonic_notch_coefficients, 0 sections"),
    ]
}
