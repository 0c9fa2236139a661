//! C15: conditioning blocks and window filters.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::SignalError;
use multicalc::signal_processing::*;

fn deadband<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.nonneg("t");
    let (p, r) = (Deadband::plain(t).unwrap(), Deadband::recentered(t).unwrap());
    cx.eq("threshold", p.threshold(), t);
    let x = cx.var("x");
    let (y, z) = (p.apply(x), r.apply(x));
    cx.check("plain", or(vec![and(vec![le(-t, x), le(x, t), eq(y, S::ZERO)]), and(vec![or(vec![lt(t, x), lt(x, -t)]), eq(y, x)])]));
    cx.check(
        "recentered",
        or(vec![and(vec![le(-t, x), le(x, t), eq(z, S::ZERO)]), and(vec![lt(t, x), eq(z, x - t)]), and(vec![lt(x, -t), eq(z, x + t)])]),
    );
    // the re-centered form never jumps: it is 1-Lipschitz and monotone
    let x2 = cx.var("x2");
    cx.assume(le(x, x2));
    let z2 = r.apply(x2);
    cx.check("monotone, no jump", and(vec![le(z, z2), le(z2 - z, x2 - x)]));
}
fn deadband_build<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.any("t");
    let want = if !t.is_finite() {
        Some(SignalError::NonFinite)
    } else if cx.ask(lt(t, S::ZERO)) {
        Some(SignalError::NegativeThreshold)
    } else {
        None
    };
    cx.holds("plain", Deadband::plain(t).err() == want);
    cx.holds("recentered", Deadband::recentered(t).err() == want);
}
fn hysteresis<S: Sc>(cx: &mut Cx<S>) {
    let (lo, hi) = (cx.any("lo"), cx.any("hi"));
    let r = Hysteresis::new(lo, hi);
    if !lo.is_finite() || !hi.is_finite() {
        cx.holds("non-finite", r.err() == Some(SignalError::NonFinite));
        return;
    }
    if cx.ask(le(hi, lo)) {
        cx.holds("order", r.err() == Some(SignalError::ThresholdsOutOfOrder));
        return;
    }
    let mut s = r.unwrap();
    cx.holds("starts as no", !s.is_high());
    let mut state = false;
    for i in 0..3 {
        let x = cx.var(&format!("x{i}"));
        let a = s.update(x);
        if cx.ask(lt(hi, x)) {
            state = true;
        } else if cx.ask(lt(x, lo)) {
            state = false;
        }
        cx.holds("answer", a == state && s.is_high() == state);
    }
    s.reset();
    cx.holds("reset", !s.is_high());
}
fn slew<S: Sc>(cx: &mut Cx<S>) {
    let (up, down, dt) = (cx.pos("up"), cx.pos("down"), cx.pos("dt"));
    let sym = cx.choose(2) == 1;
    let down = if sym { up } else { down };
    let mut s = if sym { SlewRateLimiter::symmetric(up, dt).unwrap() } else { SlewRateLimiter::new(up, down, dt).unwrap() };
    let x0 = cx.var("x0");
    let y0 = s.filter(x0);
    cx.eq("first call jumps", y0, x0);
    let mut y = y0;
    // the state is arbitrary (x0), so one step is the inductive step
    for i in 1..3 {
        let t = cx.var(&format!("x{i}"));
        let z = s.filter(t);
        cx.check("rise and fall limits", and(vec![le(z - y, up * dt), le(-(down * dt), z - y)]));
        cx.check("never past the target, never away", or(vec![and(vec![le(y, z), le(z, t)]), and(vec![le(t, z), le(z, y)])]));
        cx.check("reaches the target when allowed", or(vec![eq(z, t), eq(z - y, up * dt), eq(z - y, -(down * dt))]));
        cx.check("moves at the full rate otherwise", implies(lt(z, t), eq(z - y, up * dt)));
        cx.check("falls at the full rate otherwise", implies(lt(t, z), eq(z - y, -(down * dt))));
        cx.eq("value", s.value(), z);
        y = z;
    }
    s.reset();
    cx.eq("reset", s.value(), S::ZERO);
    cx.eq("jumps again", s.filter(x0), x0);
}
fn slew_build<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, dt) = (cx.any("a"), cx.any("b"), cx.any("dt"));
    let want = if !a.is_finite() || !b.is_finite() || !dt.is_finite() {
        Some(SignalError::NonFinite)
    } else if cx.ask(le(dt, S::ZERO)) {
        Some(SignalError::NonPositiveTimestep)
    } else if cx.ask(le(a, S::ZERO)) || cx.ask(le(b, S::ZERO)) {
        Some(SignalError::NonPositiveRate)
    } else {
        None
    };
    cx.holds("build", SlewRateLimiter::new(a, b, dt).err() == want);
}
fn moving_average<S: Sc>(cx: &mut Cx<S>) {
    let mut f = MovingAverage::<4, S>::new().unwrap();
    let n = 10;
    let x: Vec<S> = (0..n).map(|i| cx.var(&format!("x{i}"))).collect();
    for i in 0..n {
        let y = f.filter(x[i]);
        let mut t = S::ZERO;
        for k in 0..4 {
            t = t + if i >= k { x[i - k] } else { x[0] };
        }
        cx.eq("mean of the last four", y * S::c(4.0), t);
        cx.eq("value", f.value(), y);
    }
    f.reset();
    cx.eq("reseeds", f.filter(x[3]), x[3]);
    cx.eq("after reseed", f.filter(x[4]) * S::c(4.0), x[3] * S::THREE + x[4]);
    cx.holds("empty window", MovingAverage::<0, S>::new().err() == Some(SignalError::WindowTooShort));
}
fn median<const W: usize, S: Sc>(cx: &mut Cx<S>, n: usize) {
    let mut f = RunningMedian::<W, S>::new().unwrap();
    let x: Vec<S> = (0..n).map(|i| cx.var(&format!("x{i}"))).collect();
    for i in 0..n {
        let y = f.filter(x[i]);
        let w: Vec<S> = (0..W).map(|k| if i >= k { x[i - k] } else { x[0] }).collect();
        // a member of the window with at least half on each side
        cx.check("is a sample", or(w.iter().map(|s| eq(y, *s)).collect()));
        // every subset of (W+1)/2 members has one on each side: stated as counting over subsets
        let need = W / 2 + 1;
        let mut below = vec![];
        let mut above = vec![];
        for m in 0u32..(1 << W) {
            if m.count_ones() as usize == need {
                below.push(and((0..W).filter(|k| m >> k & 1 == 1).map(|k| le(w[k], y)).collect()));
                above.push(and((0..W).filter(|k| m >> k & 1 == 1).map(|k| le(y, w[k])).collect()));
            }
        }
        cx.check("half at or below", or(below));
        cx.check("half at or above", or(above));
    }
}
fn median3<S: Sc>(cx: &mut Cx<S>) {
    median::<3, S>(cx, 4);
    cx.holds("empty", RunningMedian::<0, S>::new().err() == Some(SignalError::WindowTooShort));
    cx.holds("even", RunningMedian::<4, S>::new().err() == Some(SignalError::WindowEvenLength));
}
fn median5<S: Sc>(cx: &mut Cx<S>) {
    let mut f = RunningMedian::<5, S>::new().unwrap();
    // one wild reading in an otherwise steady window never comes through
    let v = cx.var("v");
    let k = cx.choose(5);
    for i in 0..10 {
        let s = if i == k || i == k + 5 { cx.var(&format!("wild{}", i / 5)) } else { v };
        if i == 0 && k == 0 {
            f.filter(v);
            continue;
        }
        let y = f.filter(s);
        cx.eq("outlier removed", y, v);
    }
}
fn median5_full<S: Sc>(cx: &mut Cx<S>) {
    median::<5, S>(cx, 5);
}
/// The fit reproduces any polynomial of its order exactly: value, slope and bend, with the documented delay.
fn sav<const W: usize, const K: usize, S: Sc>(cx: &mut Cx<S>, centered: bool) {
    let dt = cx.pos("dt");
    let mut f = if centered { SavitzkyGolay::<W, K, S>::centered(dt).unwrap() } else { SavitzkyGolay::<W, K, S>::latest(dt).unwrap() };
    let c: Vec<S> = (0..K).map(|i| cx.var(&format!("c{i}"))).collect();
    let n = W + 2;
    let at = |t: S| {
        let (mut p, mut d, mut b) = (S::ZERO, S::ZERO, S::ZERO);
        for k in (0..K).rev() {
            b = b * t + S::TWO * d;
            d = d * t + p;
            p = p * t + c[k];
        }
        (p, d, b)
    };
    let delay = if centered { S::rat((W as i64 - 1) / 2, 1) * dt } else { S::ZERO };
    cx.eq("delay", f.delay(), delay);
    for i in 0..n {
        let y = f.filter(at(S::c(i as f64) * dt).0);
        if i == 0 {
            cx.near("seeded", y, c[0], 1e-9);
        }
        if i + 1 >= W {
            let (p, d, b) = at(S::c(i as f64) * dt - delay);
            cx.near("value", f.value(), p, 1e-9);
            cx.eq("filter returns the value", y, f.value());
            if K >= 2 {
                cx.near("slope", f.first_derivative(), d, 1e-9);
            }
            if K >= 3 {
                cx.near("bend", f.second_derivative(), b, 1e-9);
            }
        }
    }
}
fn savgol_latest<S: Sc>(cx: &mut Cx<S>) {
    sav::<4, 2, S>(cx, false)
}
fn savgol_centered<S: Sc>(cx: &mut Cx<S>) {
    sav::<5, 2, S>(cx, true)
}
fn savgol_quadratic<S: Sc>(cx: &mut Cx<S>) {
    sav::<5, 3, S>(cx, true)
}
fn savgol_build<S: Sc>(cx: &mut Cx<S>) {
    let dt = cx.any("dt");
    let bad = if !dt.is_finite() {
        Some(SignalError::NonFinite)
    } else if cx.ask(le(dt, S::ZERO)) {
        Some(SignalError::NonPositiveTimestep)
    } else {
        None
    };
    cx.holds("latest", SavitzkyGolay::<3, 2, S>::latest(dt).err() == bad);
    cx.holds("centered", SavitzkyGolay::<3, 2, S>::centered(dt).err() == bad);
    cx.holds("even", SavitzkyGolay::<4, 2, S>::centered(dt).err() == Some(SignalError::WindowEvenLength));
    if bad.is_none() {
        cx.holds("too many terms", SavitzkyGolay::<2, 3, S>::latest(dt).err() == Some(SignalError::PolynomialOrderTooHigh));
        cx.holds("no terms", SavitzkyGolay::<3, 0, S>::latest(dt).err() == Some(SignalError::WindowTooShort));
    }
    cx.holds("no window", SavitzkyGolay::<0, 1, S>::latest(S::ONE).err() == Some(SignalError::WindowTooShort));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C15", deadband, "Deadband::{plain,recentered,apply}"),
        h!("C15", deadband_build, "Deadband constructors over finite, NaN, infinite"),
        h!("C15", hysteresis, "Hysteresis::{new,update,reset}; 3 updates"),
        h!("C15", slew, "SlewRateLimiter::{new,symmetric,filter,reset}; 2 steps from an arbitrary state"),
        h!("C15", slew_build, "SlewRateLimiter::new validation"),
        h!("C15", moving_average, "MovingAverage<4>; 10 samples"),
        h!("C15", median3, "RunningMedian<3>; 4 samples"),
        h!("C15", median5, "RunningMedian<5>; wild readings in a steady window"),
        h!("C15", median5_full, "RunningMedian<5>; 5 arbitrary samples", |x| { x.deep = true; }),
        h!("C15", savgol_latest, "SavitzkyGolay<4,2>::latest reproduces lines"),
        h!("C15", savgol_centered, "SavitzkyGolay<5,2>::centered reproduces lines"),
        h!("C15", savgol_quadratic, "SavitzkyGolay<5,3>::centered reproduces parabolas"),
        h!("C15", savgol_build, "SavitzkyGolay construction errors"),
    ]
}
