//! C13: the running filters obey their recurrences from any state.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::SignalError;
use multicalc::linear_algebra::Vector;
use multicalc::signal_processing::*;

pub fn coeffs<S: Sc>(cx: &mut Cx<S>, n: &str) -> BiquadCoefficients<S> {
    let b = cx.vars::<3>(&format!("{n}b"));
    let a = cx.vars::<2>(&format!("{n}a"));
    let dt = cx.pos(&format!("{n}dt"));
    BiquadCoefficients::new(b, a, dt).unwrap()
}
/// Direct-form reference: y_n = b0 x_n + b1 x_{n-1} + b2 x_{n-2} - a1 y_{n-1} - a2 y_{n-2}.
fn reference<S: Sc>(c: &BiquadCoefficients<S>, x: &[S]) -> Vec<S> {
    let (b, a) = (c.feed_forward(), c.feedback());
    let mut y: Vec<S> = vec![];
    for n in 0..x.len() {
        let xp = |k: usize| if n >= k { x[n - k] } else { S::ZERO };
        let yp = |k: usize, y: &Vec<S>| if n >= k { y[n - k] } else { S::ZERO };
        y.push(b[0] * xp(0) + b[1] * xp(1) + b[2] * xp(2) - a[0] * yp(1, &y) - a[1] * yp(2, &y));
    }
    y
}
fn biquad_recurrence<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "");
    let n = if cx.thorough() { 6 } else { 4 };
    let x: Vec<S> = (0..n).map(|i| cx.var(&format!("x{i}"))).collect();
    let want = reference(&c, &x);
    let mut f = Biquad::new(c);
    cx.eq("at rest", f.value(), S::ZERO);
    for i in 0..n {
        let y = f.filter(x[i]);
        cx.eq("difference equation", y, want[i]);
        cx.eq("value repeats the output", f.value(), y);
    }
    f.reset();
    cx.eq("reset value", f.value(), S::ZERO);
    cx.eq("reset is at rest", f.filter(x[0]), want[0]);
    cx.eq("reset is at rest 2", f.filter(x[1]), want[1]);
}
/// Swapping the weights mid-stream keeps the memory of recent samples: the transposed form's two states carry over.
fn biquad_swap<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "p");
    let d = coeffs(cx, "q");
    let x: [S; 4] = cx.vars("x");
    let mut f = Biquad::new(c);
    let y0 = f.filter(x[0]);
    let y1 = f.filter(x[1]);
    f.set_coefficients(d);
    cx.eq("value unchanged by the swap", f.value(), y1);
    cx.eqs("new weights in force", &f.coefficients().feed_forward(), &d.feed_forward());
    let (b, a) = (c.feed_forward(), c.feedback());
    let (b2, a2) = (d.feed_forward(), d.feedback());
    // the states left behind by the old weights
    let s2 = b[2] * x[1] - a[1] * y1;
    let s1 = b[1] * x[1] - a[0] * y1 + (b[2] * x[0] - a[1] * y0);
    let y2 = f.filter(x[2]);
    cx.eq("first output after the swap", y2, b2[0] * x[2] + s1);
    let y3 = f.filter(x[3]);
    cx.eq("second output after the swap", y3, b2[0] * x[3] + b2[1] * x[2] - a2[0] * y2 + s2);
}
/// settle_to(v) is the fixed point of a long run of v.
fn biquad_settle<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "");
    let v = cx.var("v");
    let mut f = Biquad::new(c);
    f.filter(cx.var("junk"));
    let (b, a) = (c.feed_forward(), c.feedback());
    cx.assume(ne(S::ONE + a[0] + a[1], S::ZERO));
    f.settle_to(v);
    let y = f.value();
    cx.eq("dc gain", y * (S::ONE + a[0] + a[1]), v * (b[0] + b[1] + b[2]));
    for _ in 0..3 {
        cx.eq("stays settled", f.filter(v), y);
    }
}
/// Linearity of a settled, disturbed filter: one step from an arbitrary state.
fn biquad_superposition<S: Sc>(cx: &mut Cx<S>) {
    let c = coeffs(cx, "");
    let (x, y): ([S; 3], [S; 3]) = (cx.vars("x"), cx.vars("y"));
    let k = cx.var("k");
    let (mut f, mut g, mut s) = (Biquad::new(c), Biquad::new(c), Biquad::new(c));
    for i in 0..3 {
        let (p, q) = (f.filter(x[i]), g.filter(y[i]));
        cx.eq("superposition", s.filter(x[i] + k * y[i]), p + k * q);
    }
}
fn cascade_composition<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    let x: [S; 3] = cx.vars("x");
    let mut k = BiquadCascade::new([c, d]);
    let (mut f, mut g) = (Biquad::new(c), Biquad::new(d));
    for i in 0..3 {
        let m = f.filter(x[i]);
        let y = g.filter(m);
        cx.eq("sections in series", k.filter(x[i]), y);
        cx.eq("value is the last section", k.value(), y);
    }
    // replacing one section keeps its memory
    let e = coeffs(cx, "r");
    let ix = cx.choose(3);
    let r = k.set_section(ix, e);
    match ix {
        0 => f.set_coefficients(e),
        1 => g.set_coefficients(e),
        _ => {}
    }
    cx.holds("index check", r == if ix < 2 { Ok(()) } else { Err(SignalError::SectionIndexOutOfRange) });
    let z = cx.var("z");
    let m = f.filter(z);
    let y = g.filter(m);
    cx.eq("after set_section", k.filter(z), y);
    k.reset();
    cx.eq("reset", k.value(), S::ZERO);
    let (mut f, mut g) = (Biquad::new(f.coefficients()), Biquad::new(g.coefficients()));
    let m = f.filter(z);
    cx.eq("reset is at rest", k.filter(z), g.filter(m));
}
fn cascade_settle<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    for w in [c, d] {
        cx.assume(ne(S::ONE + w.feedback()[0] + w.feedback()[1], S::ZERO));
    }
    let v = cx.var("v");
    let mut k = BiquadCascade::new([c, d]);
    k.filter(cx.var("junk"));
    k.settle_to(v);
    let y = k.value();
    let dc = |w: &BiquadCoefficients<S>| {
        let (b, a) = (w.feed_forward(), w.feedback());
        (b[0] + b[1] + b[2], S::ONE + a[0] + a[1])
    };
    let ((n1, d1), (n2, d2)) = (dc(&c), dc(&d));
    cx.eq("chain dc gain", y * d1 * d2, v * n1 * n2);
    cx.eq("stays settled", k.filter(v), y);
    cx.eq("stays settled 2", k.filter(v), y);
}
fn cascade_stability<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    let k = BiquadCascade::new([c, d]);
    let (s, t) = (c.is_stable(), d.is_stable());
    cx.holds("every section", k.is_stable() == (s && t));
}
fn multi_channel<S: Sc>(cx: &mut Cx<S>) {
    let (c, d) = (coeffs(cx, "p"), coeffs(cx, "q"));
    let mut m = MultiChannelBiquad::<3, S>::new(c);
    let mut f = [Biquad::new(c), Biquad::new(c), Biquad::new(c)];
    for i in 0..4 {
        let x: [S; 3] = cx.vars(&format!("x{i}_"));
        if i == 2 {
            m.set_coefficients(d);
            f.iter_mut().for_each(|f| f.set_coefficients(d));
        }
        let y = m.filter(Vector::new(x));
        let w = [f[0].filter(x[0]), f[1].filter(x[1]), f[2].filter(x[2])];
        cx.eqs("each channel is its own filter", &[y[0], y[1], y[2]], &w);
        let v = m.value();
        cx.eqs("value", &[v[0], v[1], v[2]], &w);
    }
    cx.assume(ne(S::ONE + d.feedback()[0] + d.feedback()[1], S::ZERO));
    let v: [S; 3] = cx.vars("v");
    m.settle_to(Vector::new(v));
    for k in 0..3 {
        f[k].settle_to(v[k]);
        cx.eq("settled", m.value()[k], f[k].value());
    }
    let y = m.filter(Vector::new(v));
    for k in 0..3 {
        cx.eq("stays settled", y[k], f[k].filter(v[k]));
    }
    m.reset();
    cx.eq("reset", m.value()[1], S::ZERO);
    let b = d.feed_forward();
    let y = m.filter(Vector::new(v));
    cx.eq("reset is at rest", y[2], b[0] * v[2]);
}
fn one_pole<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.var_in("alpha", 0.0, 1.0);
    let mut f = OnePoleLowPass::new(a).unwrap();
    let x: [S; 4] = cx.vars("x");
    let mut y = f.filter(x[0]);
    cx.eq("first sample seeds", y, x[0]);
    for i in 1..4 {
        let z = f.filter(x[i]);
        cx.eq("blend", z, a * x[i] + (S::ONE - a) * y);
        // a blend never leaves the span of its two ingredients
        cx.check("bounded", or(vec![and(vec![le(x[i], z), le(z, y)]), and(vec![le(y, z), le(z, x[i])])]));
        cx.eq("value", f.value(), z);
        y = z;
        if i > 1 && !cx.thorough() {
            break;
        }
    }
    f.reset();
    cx.eq("reset value", f.value(), S::ZERO);
    cx.eq("reset reseeds", f.filter(x[1]), x[1]);
}
fn one_pole_build<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.any("alpha");
    let r = OnePoleLowPass::new(a);
    let want = if !a.is_finite() {
        Some(SignalError::NonFinite)
    } else if cx.ask(lt(a, S::ZERO)) || cx.ask(lt(S::ONE, a)) {
        Some(SignalError::CoefficientOutOfRange)
    } else {
        None
    };
    cx.holds("new", r.err() == want);
    let (f, dt) = (cx.any("f"), cx.any("dt"));
    let r = OnePoleLowPass::from_cutoff(f, dt);
    let want = if !f.is_finite() || !dt.is_finite() {
        Some(SignalError::NonFinite)
    } else if cx.ask(le(dt, S::ZERO)) {
        Some(SignalError::NonPositiveTimestep)
    } else if cx.ask(lt(f, S::ZERO)) {
        Some(SignalError::FrequencyOutOfRange)
    } else {
        None
    };
    cx.holds("from_cutoff", r.err() == want);
    if let Ok(mut p) = r {
        let (x, y) = (cx.var("x"), cx.var("y"));
        p.filter(x);
        let z = p.filter(y);
        // smoothing = a/(a+1), a = 2 pi f dt
        let w = S::TWO * S::PI * f * dt;
        cx.eq("cutoff smoothing", z * (w + S::ONE), w * y + x);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C13", biquad_recurrence, "Biquad::{new,filter,value,reset} = difference equation, 4 samples (6 thorough), all weights and inputs"),
        h!("C13", biquad_swap, "Biquad::set_coefficients mid-stream, 2+2 samples"),
        h!("C13", biquad_settle, "Biquad::settle_to fixed point, 3 samples"),
        h!("C13", biquad_superposition, "Biquad::filter is linear, 3 samples"),
        h!("C13", cascade_composition, "BiquadCascade::{filter,value,set_section,reset} against two Biquads, 3+2 samples"),
        h!("C13", cascade_settle, "BiquadCascade::settle_to fixed point, 2 sections"),
        h!("C13", cascade_stability, "BiquadCascade::is_stable, 2 sections"),
        h!("C13", multi_channel, "MultiChannelBiquad against three Biquads, 4 samples, swap, settle, reset"),
        h!("C13", one_pole, "OnePoleLowPass::{filter,value,reset}, 3 samples (4 thorough)"),
        h!("C13", one_pole_build, "OnePoleLowPass::{new,from_cutoff} validation and smoothing formula"),
    ]
}
