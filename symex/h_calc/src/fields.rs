//! C38: discretization; C40: Taylor approximations; C41: vector fields.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::Numeric;
use multicalc::approximation::*;
use multicalc::discretization::*;
use multicalc::error::{IntegrateError, LinalgError};
use multicalc::linear_algebra::Matrix;
use multicalc::numerical_derivative::{AutoDiffMulti, FiniteDifferenceMode, FiniteDifferenceMulti};
use multicalc::scalar::{ScalarFnN, VectorFn};
use multicalc::vector_field::*;

fn fresh<S: Sc>(name: &str, args: &[S]) -> S {
    S::x_fresh_fn(&mut St::default(), name, args)
}
// ---------------------------------------------------------------- C38
/// Chain of integrators, any input column: F and G are the exact integrals.
fn zoh_chain<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.var_open("t", 0.0, 1.5);
    let (z, o) = (S::ZERO, S::ONE);
    let g = cx.var_open("g", -1.0, 1.0);
    let b: [S; 2] = if cx.thorough() { [cx.var_open("b0", -1.0, 1.0), cx.var_open("b1", -1.0, 1.0)] } else { [S::HALF, cx.var_open("b1", -1.0, 1.0)] };
    if cx.choose(2) == 0 {
        let (f, h) = zoh::<2, 1, 3, S>(Matrix::new([[z, g], [z, z]]), Matrix::new([[b[0]], [b[1]]]), t).unwrap();
        meq(cx, "F", &f.into_array(), &[[o, g * t], [z, o]]);
        meq(cx, "G", &h.into_array(), &[[b[0] * t + g * b[1] * t * t * S::HALF], [b[1] * t]]);
        // lower triangular, two inputs
        let (f, h) = zoh::<2, 2, 4, S>(Matrix::new([[z, z], [g, z]]), Matrix::new([[b[0], o], [z, b[1]]]), t).unwrap();
        meq(cx, "F lower", &f.into_array(), &[[o, z], [g * t, o]]);
        meq(cx, "G lower", &h.into_array(), &[[b[0] * t, t], [g * b[0] * t * t * S::HALF, b[1] * t + g * t * t * S::HALF]]);
    } else {
        let a = [[z, o, z], [z, z, g], [z; 3]];
        let (f, h) = zoh::<3, 1, 4, S>(Matrix::new(a), Matrix::new([[b[0]], [z], [b[1]]]), t).unwrap();
        let (t2, t3) = (t * t * S::HALF, t * t * t * S::rat(1, 6));
        meq(cx, "F3", &f.into_array(), &[[o, t, g * t2], [z, o, g * t], [z, z, o]]);
        meq(cx, "G3", &h.into_array(), &[[b[0] * t + g * b[1] * t3], [g * b[1] * t2], [b[1] * t]]);
    }
}
/// A growing or decaying rate: the held input obeys a·G = (F - 1)·b, the noise 2a·Q = (F² - 1)·q.
fn rates<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.var_open("a", -1.0, 1.0), cx.var_open("b", -0.5, 0.5));
    let t = S::c(0.45);
    cx.assume(lt(S::c(0.01), a.abs()));
    let (f, g) = zoh::<1, 1, 2, S>(Matrix::new([[a]]), Matrix::new([[b]]), t).unwrap();
    let (f, g) = (f[(0, 0)], g[(0, 0)]);
    let (mut e, mut p) = (S::ONE, S::ONE);
    for k in 1..14 {
        p = p * a * t / S::c(k as f64);
        e = e + p;
    }
    cx.near("F is the exponential", f, e, 1e-12);
    cx.eq("held input", a * g, (f - S::ONE) * b);
}
fn noise_rate<S: Sc>(cx: &mut Cx<S>) {
    let (a, q) = (cx.var_open("a", -1.0, 1.0), cx.var_open("q", 0.0, 0.5));
    let t = S::c(0.45);
    cx.assume(lt(S::c(0.01), a.abs()));
    let (mut e, mut p) = (S::ONE, S::ONE);
    for k in 1..14 {
        p = p * a * t / S::c(k as f64);
        e = e + p;
    }
    let (f2, d) = van_loan::<1, 2, S>(Matrix::new([[a]]), Matrix::new([[q]]), t).unwrap();
    cx.near("same F", f2[(0, 0)], e, 1e-12);
    cx.near("noise", S::TWO * a * d[(0, 0)], (e * e - S::ONE) * q, 1e-11);
}
fn noise_chain<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.var_open("t", 0.0, 1.5);
    let (z, o) = (S::ZERO, S::ONE);
    let g = cx.var_open("g", -1.0, 1.0);
    let (p, r, q) = (cx.var_open("p", 0.0, 1.0), cx.var_open("r", -1.0, 1.0), cx.var_open("q", 0.0, 1.0));
    let half = S::HALF;
    let (t2, t3) = (t * t, t * t * t);
    let (f, d) = van_loan::<2, 4, S>(Matrix::new([[z, g], [z, z]]), Matrix::new([[p, r], [r, q]]), t).unwrap();
    meq(cx, "F", &f.into_array(), &[[o, g * t], [z, o]]);
    let m = r * t + g * q * t2 * half;
    meq(cx, "Q", &d.into_array(), &[[p * t + g * r * t2 + g * g * q * t3 * S::rat(1, 3), m], [m, q * t]]);
}
fn white_noise<S: Sc>(cx: &mut Cx<S>) {
    let (t, v) = (cx.var("t"), cx.var("v"));
    let (a, b) = (t * t * S::HALF, t * t * t * S::rat(1, 6));
    let q = q_discrete_white_noise::<2, S>(t, v).into_array();
    let g = [a, t];
    meq(cx, "two states", &q, &std::array::from_fn(|i| std::array::from_fn(|j| g[i] * g[j] * v)));
    let q = q_discrete_white_noise::<3, S>(t, v).into_array();
    let g = [a, t, S::ONE];
    meq(cx, "three states", &q, &std::array::from_fn(|i| std::array::from_fn(|j| g[i] * g[j] * v)));
    let q = q_discrete_white_noise::<4, S>(t, v).into_array();
    let g = [b, a, t, S::ONE];
    meq(cx, "four states", &q, &std::array::from_fn(|i| std::array::from_fn(|j| g[i] * g[j] * v)));
}
fn discrete_bad<S: Sc>(cx: &mut Cx<S>) {
    let t = cx.any("t");
    let (a, b) = (cx.var("a"), cx.var("b"));
    let one = |x: S| Matrix::<1, 1, S>::new([[x]]);
    let bad = |r: bool, e: Option<LinalgError>, cx: &mut Cx<S>, l: &str| cx.holds(l, r == (e == Some(LinalgError::InvalidTimestep)));
    let refused = !t.is_finite() || cx.ask(lt(t, S::ZERO));
    if !refused {
        // valid steps are covered elsewhere
        let t = S::ZERO;
        let (f, g) = zoh::<1, 1, 2, S>(one(a), one(b), t).unwrap();
        cx.eqs("no time passes", &[f[(0, 0)], g[(0, 0)]], &[S::ONE, S::ZERO]);
        let (f, g) = van_loan::<1, 2, S>(one(a), one(b), t).unwrap();
        cx.eqs("no noise gathers", &[f[(0, 0)], g[(0, 0)]], &[S::ONE, S::ZERO]);
        return;
    }
    bad(true, zoh::<1, 1, 2, S>(one(a), one(b), t).err(), cx, "hold");
    bad(true, van_loan::<1, 2, S>(one(a), one(b), t).err(), cx, "noise");
    let n = [S::NAN, S::INFINITY][cx.choose(2)];
    let k = cx.choose(2);
    let (x, y) = if k == 0 { (n, S::ONE) } else { (S::ONE, n) };
    cx.holds("bad matrix in hold", zoh::<1, 1, 2, S>(one(x), one(y), S::ONE).is_err_and(|e| e == LinalgError::NonFinite));
    cx.holds("bad matrix in noise", van_loan::<1, 2, S>(one(x), one(y), S::ONE).is_err_and(|e| e == LinalgError::NonFinite));
}
// ---------------------------------------------------------------- C40
/// c0 + c1 x + c2 y + c3 x² + c4 xy + c5 y² + c6 x²y
struct Poly2<S: Sc>([S; 7]);
impl<S: Sc> ScalarFnN<2> for Poly2<S> {
    fn eval<N: Numeric>(&self, p: &[N; 2]) -> N {
        let c: [N; 7] = std::array::from_fn(|i| N::from_f64(self.0[i].f()));
        let (x, y) = (p[0], p[1]);
        c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y + c[6] * x * x * y
    }
}
impl<S: Sc> Poly2<S> {
    fn at(&self, p: &[S; 2]) -> S {
        let c = &self.0;
        let (x, y) = (p[0], p[1]);
        c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y + c[6] * x * x * y
    }
    fn grad(&self, p: &[S; 2]) -> [S; 2] {
        let c = &self.0;
        let (x, y) = (p[0], p[1]);
        [c[1] + S::TWO * c[3] * x + c[4] * y + S::TWO * c[6] * x * y, c[2] + c[4] * x + S::TWO * c[5] * y + c[6] * x * x]
    }
    fn hess(&self, p: &[S; 2]) -> [[S; 2]; 2] {
        let c = &self.0;
        let m = c[4] + S::TWO * c[6] * p[0];
        [[S::TWO * c[3] + S::TWO * c[6] * p[1], m], [m, S::TWO * c[5]]]
    }
}
fn taylor<S: Sc>(cx: &mut Cx<S>) {
    let f = Poly2(cx.vars("c"));
    let (p, x): ([S; 2], [S; 2]) = (cx.vars("p"), cx.vars("x"));
    let (v, g, h) = (f.at(&p), f.grad(&p), f.hess(&p));
    let d = [x[0] - p[0], x[1] - p[1]];
    let line = v + g[0] * d[0] + g[1] * d[1];
    let l = LinearApproximator::<AutoDiffMulti<S>>::default().approximate(&f, &p).unwrap();
    cx.eqs("base point", l.point(), &p);
    cx.eqs("gradient", l.coefficients(), &g);
    cx.eq("first-order value", l.predict(&x), line);
    cx.eq("touches at the base", l.predict(&p), v);
    cx.eq("expanded form", l.intercept() + g[0] * x[0] + g[1] * x[1], line);
    let q = QuadraticApproximator::<AutoDiffMulti<S>>::default().approximate(&f, &p).unwrap();
    cx.eqs("base point of the quadratic", q.point(), &p);
    cx.eqs("gradient of the quadratic", q.gradient(), &g);
    meq(cx, "hessian", q.hessian(), &h);
    let bend = h[0][0] * d[0] * d[0] + S::TWO * h[0][1] * d[0] * d[1] + h[1][1] * d[1] * d[1];
    cx.eq("second-order value", q.predict(&x), line + S::HALF * bend);
    // three variables: every pair of the second derivatives
    let w: [S; 3] = cx.vars("w");
    let b = [p[0], p[1], S::HALF];
    let t = QuadraticApproximator::<AutoDiffMulti<S>>::default().approximate(&Pairs(w), &b).unwrap();
    meq(cx, "three variables", t.hessian(), &[[S::ZERO, w[0], w[1]], [w[0], S::ZERO, w[2]], [w[1], w[2], S::ZERO]]);
    cx.eqs("three slopes", t.gradient(), &[w[0] * b[1] + w[1] * b[2], w[0] * b[0] + w[2] * b[2], w[1] * b[0] + w[2] * b[1]]);
}
struct Pairs<S: Sc>([S; 3]);
impl<S: Sc> ScalarFnN<3> for Pairs<S> {
    fn eval<N: Numeric>(&self, p: &[N; 3]) -> N {
        let c: [N; 3] = std::array::from_fn(|i| N::from_f64(self.0[i].f()));
        c[0] * p[0] * p[1] + c[1] * p[0] * p[2] + c[2] * p[1] * p[2]
    }
}
/// Central differences are exact up to second order, so they give the same approximation.
fn taylor_diff<S: Sc>(cx: &mut Cx<S>) {
    let mut c: [S; 7] = cx.vars("c");
    c[6] = S::ZERO;
    let f = Poly2(c);
    let p: [S; 2] = cx.vars("p");
    let d = FiniteDifferenceMulti::<S>::from_parameters(S::c(0.125), FiniteDifferenceMode::Central, S::ONE);
    let l = LinearApproximator::from_derivator(d).approximate(&f, &p).unwrap();
    cx.eqs("gradient", l.coefficients(), &f.grad(&p));
    let q = QuadraticApproximator::from_derivator(d).approximate(&f, &p).unwrap();
    meq(cx, "hessian", q.hessian(), &f.hess(&p));
    let d = FiniteDifferenceMulti::<S>::from_parameters(S::ZERO, FiniteDifferenceMode::Central, S::ONE);
    cx.holds("no step", LinearApproximator::from_derivator(d).approximate(&f, &p).is_err() && QuadraticApproximator::from_derivator(d).approximate(&f, &p).is_err());
}
fn metrics<S: Sc>(cx: &mut Cx<S>) {
    // truth x² at three or four places against the tangent at a base point
    struct Sq;
    impl ScalarFnN<1> for Sq {
        fn eval<N: Numeric>(&self, p: &[N; 1]) -> N {
            p[0] * p[0]
        }
    }
    struct Flat;
    impl ScalarFnN<1> for Flat {
        fn eval<N: Numeric>(&self, _: &[N; 1]) -> N {
            N::TWO
        }
    }
    let kahan = cx.choose(2) == 1;
    let mut a = LinearApproximator::<AutoDiffMulti<S>>::default();
    let mut b = QuadraticApproximator::<AutoDiffMulti<S>>::default();
    if kahan {
        a = a.with_kahan_summation();
        b = b.with_kahan_summation();
    }
    let p = cx.var_open("p", -1.0, 1.0);
    let x: [S; 4] = [cx.var_open("x0", -2.0, 2.0), cx.var_open("x1", 2.5, 4.0), S::HALF, if cx.thorough() { cx.var_open("x3", -2.0, 2.0) } else { -S::ONE }];
    let l = a.approximate(&Sq, &[p]).unwrap();
    let m = l.prediction_metrics(&x.map(|v| [v]), &Sq);
    let n = S::c(4.0);
    let y = x.map(|v| v * v);
    let r: [S; 4] = std::array::from_fn(|i| p * p + S::TWO * p * (x[i] - p) - y[i]);
    let sum = |v: [S; 4]| v.iter().fold(S::ZERO, |s, e| s + *e);
    let mean = sum(y) / n;
    // the residual of a tangent to a parabola is never positive
    cx.eq("mean absolute error", m.mean_absolute_error, -sum(r) / n);
    let ss = sum(r.map(|e| e * e));
    cx.eq("mean squared error", m.mean_squared_error, ss / n);
    cx.eq("its root", m.root_mean_squared_error * m.root_mean_squared_error, ss / n);
    cx.check("its root is a length", le(S::ZERO, m.root_mean_squared_error));
    let tot = sum(y.map(|e| (e - mean) * (e - mean)));
    cx.eq("share explained", (S::ONE - m.r_squared) * tot, ss);
    cx.eq("adjusted for one coefficient", (S::ONE - m.adjusted_r_squared) * S::TWO, (S::ONE - m.r_squared) * S::c(3.0));
    let q = b.approximate(&Sq, &[p]).unwrap().prediction_metrics(&x.map(|v| [v]), &Sq);
    cx.eqs("a parabola is its own approximation", &[q.mean_absolute_error, q.mean_squared_error, q.root_mean_squared_error, q.r_squared, q.adjusted_r_squared], &[S::ZERO, S::ZERO, S::ZERO, S::ONE, S::ONE]);
    let q = b.approximate(&Sq, &[p]).unwrap().prediction_metrics(&[[x[0]], [x[1]], [x[2]]], &Sq);
    cx.holds("too few points for two coefficients", q.adjusted_r_squared.is_nan() && !q.r_squared.is_nan());
    let l2 = l.prediction_metrics(&[[x[0]], [x[1]]], &Sq);
    cx.holds("too few points for one", l2.adjusted_r_squared.is_nan() && !l2.r_squared.is_nan());
    let f = l.prediction_metrics(&x.map(|v| [v]), &Flat);
    cx.holds("a constant truth has no share", f.r_squared.is_nan());
}
// ---------------------------------------------------------------- C41
/// Quadratic components with free coefficients.
struct Field<S: Sc>([[S; 4]; 3]);
impl<S: Sc> Field<S> {
    fn comp<N: Numeric>(&self, i: usize, p: &[N; 3]) -> N {
        let c: [N; 4] = std::array::from_fn(|k| N::from_f64(self.0[i][k].f()));
        c[0] * p[0] + c[1] * p[1] * p[0] + c[2] * p[2] * p[1] + c[3] * p[1]
    }
    /// d component i / d coordinate j
    fn d(&self, i: usize, j: usize, p: &[S; 3]) -> S {
        let c = &self.0[i];
        match j {
            0 => c[0] + c[1] * p[1],
            1 => c[1] * p[0] + c[2] * p[2] + c[3],
            _ => c[2] * p[1],
        }
    }
}
impl<S: Sc> VectorFn<3, 3> for Field<S> {
    fn eval<N: Numeric>(&self, p: &[N; 3]) -> [N; 3] {
        std::array::from_fn(|i| self.comp(i, p))
    }
}
struct Flat2<S: Sc>(Field<S>);
impl<S: Sc> VectorFn<2, 2> for Flat2<S> {
    fn eval<N: Numeric>(&self, p: &[N; 2]) -> [N; 2] {
        let q = [p[0], p[1], N::ONE];
        std::array::from_fn(|i| self.0.comp(i, &q))
    }
}
fn curl_div<S: Sc>(cx: &mut Cx<S>) {
    let f = Field(cx.mat("c"));
    let p: [S; 3] = cx.vars("p");
    let d = |i, j| f.d(i, j, &p);
    let a = AutoDiffMulti::<S>::default;
    cx.eqs("curl", &curl_3d(a(), &f, &p).unwrap(), &[d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)]);
    cx.eq("divergence", divergence_3d(a(), &f, &p).unwrap(), d(0, 0) + d(1, 1) + d(2, 2));
    let k = FiniteDifferenceMulti::<S>::from_parameters(S::c(0.125), FiniteDifferenceMode::Central, S::ONE);
    cx.eqs("curl by differences", &curl_3d(k, &f, &p).unwrap(), &[d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)]);
    let q = [p[0], p[1], S::ONE];
    let g = Flat2(Field(f.0));
    let e = |i, j| g.0.d(i, j, &q);
    let p2 = [p[0], p[1]];
    cx.eq("plane curl", curl_2d(a(), &g, &p2).unwrap(), e(1, 0) - e(0, 1));
    cx.eq("plane divergence", divergence_2d(a(), &g, &p2).unwrap(), e(0, 0) + e(1, 1));
    let z = FiniteDifferenceMulti::<S>::from_parameters(S::ZERO, FiniteDifferenceMode::Central, S::ONE);
    cx.holds("no step", curl_2d(z, &g, &p2).is_err() && divergence_2d(z, &g, &p2).is_err() && curl_3d(z, &f, &p).is_err() && divergence_3d(z, &f, &p).is_err());
}
/// Any field along any curve: the trapezoids between evenly spaced stations.
fn curves<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.var("a");
    let w = cx.var_open("w", 0.0, 10.0);
    let n = 1 + cx.choose(if cx.thorough() { 4 } else { 3 });
    let (x, y, z) = (|t: S| fresh("x", &[t]), |t: S| fresh("y", &[t]), |t: S| fresh("z", &[t]));
    let (u, v) = (|p: &[S; 2]| fresh("u", p), |p: &[S; 2]| fresh("v", p));
    let at: Vec<[S; 3]> = (0..=n).map(|i| {
        let t = a + w * S::rat(i as i64, n as i64);
        [x(t), y(t), z(t)]
    }).collect();
    let lim = [a, a + w];
    let trap = |f: &dyn Fn(&[S; 3]) -> S, d: usize| (0..n).fold(S::ZERO, |s, i| s + (f(&at[i]) + f(&at[i + 1])) * S::HALF * (at[i + 1][d] - at[i][d]));
    let (u3, v3) = (|p: &[S; 3]| fresh("u", &p[..2]), |p: &[S; 3]| fresh("v", &p[..2]));
    let (ux, vy, uy, vx) = (trap(&u3, 0), trap(&v3, 1), trap(&u3, 1), trap(&v3, 0));
    let g = |r: Result<S, IntegrateError>| r.unwrap();
    let k = n as u64;
    cx.eq("work in the plane", g(line_integral_2d_custom(&[&u, &v], &[&x, &y], &lim, k)), ux + vy);
    for i in 0..2 {
        cx.eq("one component", g(line_integral_partial_2d(&[&u, &v], &[&x, &y], &lim, k, i)), [ux, vy][i]);
    }
    cx.eq("flux in the plane", g(flux_integral_2d_custom(&[&u, &v], &[&x, &y], &lim, k)), uy - vx);
    let (a3, b3, c3) = (|p: &[S; 3]| fresh("A", p), |p: &[S; 3]| fresh("B", p), |p: &[S; 3]| fresh("C", p));
    let parts = [trap(&a3, 0), trap(&b3, 1), trap(&c3, 2)];
    cx.eq("work in space", g(line_integral_3d_custom(&[&a3, &b3, &c3], &[&x, &y, &z], &lim, k)), parts[0] + parts[1] + parts[2]);
    for i in 0..3 {
        cx.eq("one component in space", g(line_integral_partial_3d(&[&a3, &b3, &c3], &[&x, &y, &z], &lim, k, i)), parts[i]);
    }
    cx.eq("what is called flux in space", g(flux_integral_3d_custom(&[&a3, &b3, &c3], &[&x, &y, &z], &lim, k)), parts[0] - parts[1] - parts[2]);
}
/// Linear fields on segments are integrated exactly, and a gradient's work depends on the ends alone.
fn segments<S: Sc>(cx: &mut Cx<S>) {
    let c: [[S; 3]; 2] = cx.mat("c");
    let (p, d): ([S; 2], [S; 2]) = (cx.vars("p"), cx.vars("d"));
    let f = |i: usize| move |q: &[S; 2]| c[i][0] + c[i][1] * q[0] + c[i][2] * q[1];
    let (u, v) = (f(0), f(1));
    let (x, y) = (|t: S| p[0] + t * d[0], |t: S| p[1] + t * d[1]);
    let n = 1 + cx.choose(3) as u64;
    let lim = [S::ZERO, S::ONE];
    let mid = [p[0] + d[0] * S::HALF, p[1] + d[1] * S::HALF];
    cx.eq("exact work", line_integral_2d_custom(&[&u, &v], &[&x, &y], &lim, n).unwrap(), u(&mid) * d[0] + v(&mid) * d[1]);
    cx.eq("exact flux", flux_integral_2d_custom(&[&u, &v], &[&x, &y], &lim, n).unwrap(), u(&mid) * d[1] - v(&mid) * d[0]);
    let (bx, by) = (|t: S| p[0] + (S::ONE - t) * d[0], |t: S| p[1] + (S::ONE - t) * d[1]);
    let there = line_integral_2d_custom(&[&u, &v], &[&x, &y], &lim, n).unwrap();
    cx.eq("back again", line_integral_2d_custom(&[&u, &v], &[&bx, &by], &lim, n).unwrap(), -there);
    // the potential c1/2 x² + c2 x y + c3/2 y²
    let (gx, gy) = (|q: &[S; 2]| c[0][0] * q[0] + c[0][1] * q[1], |q: &[S; 2]| c[0][1] * q[0] + c[0][2] * q[1]);
    let pot = |q: [S; 2]| S::HALF * c[0][0] * q[0] * q[0] + c[0][1] * q[0] * q[1] + S::HALF * c[0][2] * q[1] * q[1];
    let bent = |t: S| p[1] + t * t * d[1];
    cx.eq("a gradient's work", line_integral_2d_custom(&[&gx, &gy], &[&x, &bent], &lim, n).unwrap(), pot([p[0] + d[0], p[1] + d[1]]) - pot(p));
}
/// Around a square the divergence theorem holds exactly for linear fields.
fn theorem<S: Sc>(cx: &mut Cx<S>) {
    let c: [[S; 3]; 2] = cx.mat("c");
    let p: [S; 2] = cx.vars("p");
    let (w, h) = (cx.var("w"), cx.var("h"));
    let f = |i: usize| move |q: &[S; 2]| c[i][0] + c[i][1] * q[0] + c[i][2] * q[1];
    let (u, v) = (f(0), f(1));
    let corner = [[p[0], p[1]], [p[0] + w, p[1]], [p[0] + w, p[1] + h], [p[0], p[1] + h]];
    let (mut work, mut flux) = (S::ZERO, S::ZERO);
    for i in 0..4 {
        let (a, b) = (corner[i], corner[(i + 1) % 4]);
        let (x, y) = (|t: S| a[0] + t * (b[0] - a[0]), |t: S| a[1] + t * (b[1] - a[1]));
        work = work + line_integral_2d_custom(&[&u, &v], &[&x, &y], &[S::ZERO, S::ONE], 2).unwrap();
        flux = flux + flux_integral_2d_custom(&[&u, &v], &[&x, &y], &[S::ZERO, S::ONE], 2).unwrap();
    }
    cx.eq("curl times area", work, (c[1][1] - c[0][2]) * w * h);
    cx.eq("divergence times area", flux, (c[0][1] + c[1][2]) * w * h);
}
fn defaults<S: Sc>(cx: &mut Cx<S>) {
    // constant fields: any number of stations gives the difference of the ends
    let k: [S; 3] = cx.vars("k");
    let f = |i: usize| move |_: &[S; 2]| k[i];
    let g = |i: usize| move |_: &[S; 3]| k[i];
    let (x, y, z) = (|t: S| t * t, |t: S| t, |t: S| -t);
    let lim = [S::ZERO, S::ONE];
    cx.eq("work", line_integral_2d(&[&f(0), &f(1)], &[&x, &y], &lim).unwrap(), k[0] + k[1]);
    cx.eq("flux", flux_integral_2d(&[&f(0), &f(1)], &[&x, &y], &lim).unwrap(), k[0] - k[1]);
    cx.eq("work in space", line_integral_3d(&[&g(0), &g(1), &g(2)], &[&x, &y, &z], &lim).unwrap(), k[0] + k[1] - k[2]);
    cx.eq("flux in space", flux_integral_3d(&[&g(0), &g(1), &g(2)], &[&x, &y, &z], &lim).unwrap(), k[0] - k[1] + k[2]);
}
fn curve_bad<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.any("a"), cx.any("b"));
    let n = cx.choose(3) as u64;
    let (u, v) = (|_: &[S; 2]| S::ONE, |_: &[S; 2]| S::ONE);
    let w = |_: &[S; 3]| S::ONE;
    let x = |t: S| t;
    let ok = a.partial_cmp(&b) == Some(std::cmp::Ordering::Less);
    let r = [
        line_integral_2d_custom(&[&u, &v], &[&x, &x], &[a, b], n).err(),
        flux_integral_2d_custom(&[&u, &v], &[&x, &x], &[a, b], n).err(),
        line_integral_3d_custom(&[&w, &w, &w], &[&x, &x, &x], &[a, b], n).err(),
        flux_integral_3d_custom(&[&w, &w, &w], &[&x, &x, &x], &[a, b], n).err(),
    ];
    for e in r {
        cx.holds("refused as documented", e == if n == 0 { Some(IntegrateError::IterationsZero) } else if ok { None } else { Some(IntegrateError::LimitsIllDefined) });
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C38", zoh_chain, "zoh; integrator chains of 2 and 3 states, 1 or 2 inputs, steps below 1.5", |x| { x.cfg.snap = true; }),
        h!("C38", rates, "zoh; one state with any rate", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C38", noise_rate, "van_loan; one state with any rate", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C38", noise_chain, "van_loan; two states, any even noise", |x| { x.cfg.snap = true; }),
        h!("C38", white_noise, "q_discrete_white_noise; 2, 3 and 4 states"),
        h!("C38", discrete_bad, "refused steps and matrices; a step of zero", |x| { x.cfg.snap = true; }),
        h!("C40", taylor, "LinearApproximator, QuadraticApproximator, predict, accessors; any cubic-degree polynomial of 2 variables, 3 variables of products"),
        h!("C40", taylor_diff, "the same by central differences"),
        h!("C40", metrics, "prediction_metrics, both summations; 2 to 4 points", |x| { x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C41", curl_div, "curl_2d, curl_3d, divergence_2d, divergence_3d; quadratic fields"),
        h!("C41", curves, "line and flux integrals; any field on any curve (uninterpreted), up to 3 (thorough 4) stations"),
        h!("C41", segments, "exactness on segments, reversal, gradients"),
        h!("C41", theorem, "work and flux around a rectangle"),
        h!("C41", defaults, "the default number of stations"),
        h!("C41", curve_bad, "refused limits and counts"),
    ]
}
