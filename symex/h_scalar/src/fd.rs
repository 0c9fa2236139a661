//! C23: finite differences are the stated difference quotients.
use crate::fronts::{F3, V32};
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::scalar::{ScalarFn, ScalarFnN};
use multicalc::Numeric;

struct P<S: Sc>(Vec<S>);
impl<S: Sc> ScalarFn for P<S> {
    fn eval<N: Numeric>(&self, x: N) -> N {
        let mut p = N::ZERO;
        for c in self.0.iter().rev() {
            p = p * x + N::from_f64(c.f());
        }
        p
    }
}
impl<S: Sc> P<S> {
    fn d(&self, k: usize, x: S) -> S {
        let mut s = S::ZERO;
        for i in (k..self.0.len()).rev() {
            let mut f = S::ONE;
            for j in 0..k {
                f = f * S::c((i - j) as f64);
            }
            s = s * x + self.0[i] * f;
        }
        s
    }
}
fn mode(k: usize) -> (FiniteDifferenceMode, f64, f64) {
    match k {
        0 => (FiniteDifferenceMode::Forward, 0.0, 1.0),
        1 => (FiniteDifferenceMode::Backward, -1.0, 0.0),
        _ => (FiniteDifferenceMode::Central, -1.0, 1.0),
    }
}
fn single<S: Sc>(cx: &mut Cx<S>) {
    let p = P((0..6).map(|i| cx.var(&format!("c{i}"))).collect());
    let (x, hstep, m) = (cx.var("x"), cx.pos("h"), cx.pos("m"));
    let (md, lo, hi) = mode(cx.choose(3));
    let fd = FiniteDifferenceSingle::from_parameters(hstep, md, m);
    // nested difference quotients, each level with the step scaled
    fn quot<S: Sc>(p: &P<S>, k: usize, x: S, h: S, m: S, lo: f64, hi: f64) -> S {
        let (a, b) = (x + S::c(lo) * h, x + S::c(hi) * h);
        let (u, v) = if k == 1 { (p.eval(a), p.eval(b)) } else { (quot(p, k - 1, a, m * h, m, lo, hi), quot(p, k - 1, b, m * h, m, lo, hi)) };
        (v - u) / (S::c(hi - lo) * h)
    }
    let k = 1 + cx.choose(3);
    cx.eq(&format!("order {k} quotient"), fd.differentiate(k, &p, x).unwrap(), quot(&p, k, x, hstep, m, lo, hi));
    // exact on the polynomials of the stencil's degree
    let n = k + if lo < 0.0 && hi > 0.0 { 2 } else { 1 };
    let low = P(p.0[..n].to_vec());
    cx.eq(&format!("order {k} exact degree"), fd.differentiate(k, &low, x).unwrap(), low.d(k, x));
    if k == 1 {
        // leading error term
        let c = P(p.0[..4].to_vec());
        let e = fd.differentiate(1, &c, x).unwrap() - c.d(1, x);
        let want = if lo == -hi { hstep * hstep * c.d(3, x) / S::c(6.0) } else { S::c(lo + hi) * hstep * c.d(2, x) / S::TWO + hstep * hstep * c.d(3, x) / S::c(6.0) };
        cx.eq("first-order truncation error", e, want);
    }
}
fn multi<S: Sc>(cx: &mut Cx<S>) {
    let f = F3::new(cx, "w", 3);
    let x: [S; 3] = cx.vars("x");
    let (hs, m) = (cx.pos("h"), cx.pos("m"));
    let (md, lo, hi) = mode(cx.choose(3));
    let fd = FiniteDifferenceMulti::from_parameters(hs, md, m);
    let at = |i: usize, d: S| {
        let mut y = x;
        y[i] = y[i] + d;
        y
    };
    let i = cx.choose(3);
    let q = (f.eval(&at(i, S::c(hi) * hs)) - f.eval(&at(i, S::c(lo) * hs))) / (S::c(hi - lo) * hs);
    cx.eq("first quotient", fd.differentiate(&f, &[i], &x).unwrap(), q);
    for j in 0..3 {
        let at2 = |d: f64, e: f64| {
            let mut y = x;
            y[j] = y[j] + S::c(d) * hs;
            y[i] = y[i] + S::c(e) * m * hs;
            f.eval(&y)
        };
        let w = S::c(hi - lo);
        let q = (at2(hi, hi) - at2(hi, lo) - at2(lo, hi) + at2(lo, lo)) / (w * w * m * hs * hs);
        cx.eq("mixed quotient", fd.differentiate(&f, &[i, j], &x).unwrap(), q);
        if lo == -hi {
            cx.eq("central second difference of a cubic is exact", fd.differentiate(&f, &[i, j], &x).unwrap(), f.partial(&[i, j], &x));
        }
        for k in 0..3 {
            cx.eq("third difference of a cubic is exact", fd.differentiate(&f, &[i, j, k], &x).unwrap(), f.partial(&[i, j, k], &x));
        }
    }
    let v = V32(f, F3::new(cx, "u", 2));
    let col = fd.jacobian_column(&v, i, &x).unwrap();
    cx.eqs("jacobian column", &col, &[fd.differentiate(&v.0, &[i], &x).unwrap(), fd.differentiate(&v.1, &[i], &x).unwrap()]);
}
fn rejects<S: Sc>(cx: &mut Cx<S>) {
    let h = cx.any("h");
    let f = P(vec![S::ONE, S::TWO]);
    let g = F3 { c: vec![([1, 1, 0], S::ONE)] };
    let x = [S::ONE; 3];
    let (md, ..) = mode(cx.choose(3));
    let fs = FiniteDifferenceSingle::from_parameters(h, md, S::TEN);
    let fm = FiniteDifferenceMulti::from_parameters(h, md, S::TEN);
    cx.holds("order zero", fs.differentiate(0, &f, S::ONE) == Err(DiffError::OrderZero) && fm.differentiate::<_, 3, 0>(&g, &[], &x) == Err(DiffError::OrderZero));
    let want = if !h.is_finite() || cx.ask(lt(h, S::ZERO)) {
        Some(DiffError::InvalidStepSize)
    } else if cx.ask(eq(h, S::ZERO)) {
        Some(DiffError::StepSizeZero)
    } else {
        None
    };
    cx.holds("single step size", fs.differentiate(1, &f, S::ONE).err() == want);
    cx.holds("single step size, order 2", fs.differentiate(2, &f, S::ONE).err() == want);
    cx.holds("multi step size", fm.differentiate(&g, &[1], &x).err() == want);
    if want.is_none() {
        cx.holds("index", fm.differentiate(&g, &[3], &x) == Err(DiffError::IndexOutOfRange));
        cx.holds("index behind a valid one", fm.differentiate(&g, &[0, 3], &x) == Err(DiffError::IndexOutOfRange));
    }
    let v = V32(F3 { c: vec![([1, 1, 0], S::ONE)] }, g);
    cx.holds("column step size", fm.jacobian_column(&v, 0, &x).err() == want);
    if want.is_none() {
        cx.holds("column index", fm.jacobian_column(&v, 3, &x).err() == Some(DiffError::IndexOutOfRange));
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C23", single, "FiniteDifferenceSingle orders 1..=3, three stencils; general quintic, symbolic step and multiplier", |x| { x.cfg.check_tol = 1e-5; }),
        h!("C23", multi, "FiniteDifferenceMulti orders 1..=3, jacobian_column, three stencils; general cubic in 3 variables", |x| { x.cfg.check_tol = 1e-4; }),
        h!("C23", rejects, "step size and index validation over finite, NaN, infinite"),
    ]
}
