//! C17: Kalman filters.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::Numeric;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::VectorFn;

/// A linear or quadratic map with symbolic weights.
struct Lin<S: Sc, const N: usize, const M: usize> {
    a: [[S; N]; M],
    c: [S; M],
    /// weight of x0*x1 and of x0^2 in every output
    q: [[S; 2]; M],
}
impl<S: Sc, const N: usize, const M: usize> VectorFn<N, M> for Lin<S, N, M> {
    fn eval<T: Numeric>(&self, x: &[T; N]) -> [T; M] {
        let k = |v: S| T::from_f64(v.f());
        std::array::from_fn(|i| {
            let l = (0..N).fold(k(self.c[i]), |s, j| s + k(self.a[i][j]) * x[j]);
            l + k(self.q[i][0]) * x[0] * x[1] + k(self.q[i][1]) * x[0] * x[0]
        })
    }
}
fn sym2<S: Sc>(a: S, b: S, c: S) -> Rows<S, 2, 2> {
    [[a, b], [b, c]]
}
/// Two states, one measurement: a symmetric covariance and everything else free.
struct Two<S: Sc> {
    x: [S; 2],
    p: Rows<S, 2, 2>,
    f: Rows<S, 2, 2>,
    h: Rows<S, 1, 2>,
    q: Rows<S, 2, 2>,
    r: S,
    z: S,
}
fn two<S: Sc>(cx: &mut Cx<S>) -> Two<S> {
    let p = sym2(cx.var("p00"), cx.var("p01"), cx.var("p11"));
    let q = sym2(cx.var("q00"), cx.var("q01"), cx.var("q11"));
    Two { x: cx.vars("x"), p, f: cx.mat("f"), h: cx.mat("h"), q, r: cx.var("r"), z: cx.var("z") }
}
impl<S: Sc> Two<S> {
    fn s(&self) -> S {
        mm(&mm(&self.h, &self.p), &tr(&self.h))[0][0] + self.r
    }
    fn gain(&self) -> [S; 2] {
        let s = self.s();
        mv(&self.p, &self.h[0]).map(|v| v / s)
    }
    fn kf(&self) -> KalmanFilter<2, 1, S> {
        KalmanFilter::new(
            Vector::new(self.x),
            Matrix::new(self.p),
            KalmanModel {
                state_transition: Matrix::new(self.f),
                measurement_model: Matrix::new(self.h),
                process_noise: Matrix::new(self.q),
                measurement_noise: Matrix::new([[self.r]]),
            },
        )
    }
    fn ekf(&self) -> ExtendedKalmanFilter<2, 1, S> {
        ExtendedKalmanFilter::new(Vector::new(self.x), Matrix::new(self.p), Matrix::new(self.q), Matrix::new([[self.r]]))
    }
    /// x and P after the update with residual y, the textbook way: x + K y, P - K S K'
    fn after(&self, y: S) -> ([S; 2], Rows<S, 2, 2>) {
        let (k, s) = (self.gain(), self.s());
        let x = add(&self.x, &k.map(|v| v * y));
        (x, std::array::from_fn(|i| std::array::from_fn(|j| self.p[i][j] - k[i] * s * k[j])))
    }
}
fn same_estimate<S: Sc>(cx: &mut Cx<S>, l: &str, x: Vector<2, S>, p: Matrix<2, 2, S>, to: &([S; 2], Rows<S, 2, 2>)) {
    veq(cx, &format!("{l} state"), x, to.0);
    meq(cx, &format!("{l} covariance"), &rows(&p), &to.1);
}
fn kf_predict<S: Sc>(cx: &mut Cx<S>) {
    let t = two(cx);
    let (b, u): (Rows<S, 2, 2>, [S; 2]) = (cx.mat("b"), cx.vars("u"));
    let mut k = t.kf();
    k.predict();
    let fp = mm(&mm(&t.f, &t.p), &tr(&t.f));
    let fp: Rows<S, 2, 2> = std::array::from_fn(|i| add(&fp[i], &t.q[i]));
    same_estimate(cx, "predict", k.state(), k.covariance(), &(mv(&t.f, &t.x), fp));
    let mut k = t.kf();
    k.predict_with_control(Matrix::new(b), Vector::new(u));
    same_estimate(cx, "driven", k.state(), k.covariance(), &(add(&mv(&t.f, &t.x), &mv(&b, &u)), fp));
    // the setters replace exactly what they name
    let (f2, q2): (Rows<S, 2, 2>, Rows<S, 2, 2>) = (cx.mat("g"), cx.mat("w"));
    let x2: [S; 2] = cx.vars("n");
    let mut k = t.kf();
    k.set_state_transition(Matrix::new(f2));
    k.set_process_noise(Matrix::new(q2));
    k.set_state(Vector::new(x2));
    k.predict();
    let fp = mm(&mm(&f2, &t.p), &tr(&f2));
    same_estimate(cx, "replaced", k.state(), k.covariance(), &(mv(&f2, &x2), std::array::from_fn(|i| add(&fp[i], &q2[i]))));
}
fn kf_update<S: Sc>(cx: &mut Cx<S>) {
    let t = two(cx);
    let s = t.s();
    let y = t.z - dot(&t.h[0], &t.x);
    let naive = cx.choose(2) == 1;
    let mut k = t.kf().with_covariance_update(if naive { CovarianceUpdate::Naive } else { CovarianceUpdate::Joseph });
    cx.holds("no innovation before an update", k.normalized_innovation_squared().is_err());
    match k.update(Vector::new([t.z])) {
        Ok(()) => {
            cx.check("gain defined", lt(S::ZERO, s));
            same_estimate(cx, "update", k.state(), k.covariance(), &t.after(y));
            cx.eq("innovation", k.innovation()[0], y);
            cx.eq("innovation covariance", k.innovation_covariance()[(0, 0)], s);
            match k.normalized_innovation_squared() {
                Ok(n) => cx.eq("normalized innovation", n * s, y * y),
                Err(_) => cx.holds("normalized innovation", false),
            }
            // the spread left is what any other gain would leave, less what its excess adds
            let g: [S; 2] = cx.vars("g");
            let m: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { S::ONE } else { S::ZERO } - g[i] * t.h[0][j]));
            let with_g = mm(&mm(&m, &t.p), &tr(&m));
            let best = t.gain();
            let c = rows(&k.covariance());
            for i in 0..2 {
                for j in 0..2 {
                    let other = with_g[i][j] + g[i] * t.r * g[j];
                    cx.eq("no gain does better", (other - c[i][j]) * s, (g[i] - best[i]) * (g[j] - best[j]) * s * s);
                }
            }
        }
        Err(e) => {
            cx.check("gain undefined", le(s, S::ZERO));
            cx.holds("reason", matches!(e, EstimationError::NotPositiveDefinite));
            same_estimate(cx, "untouched", k.state(), k.covariance(), &(t.x, t.p));
        }
    }
}
/// A spread that is not even, as a caller may seed it: the gain is still P H' S^-1 and the spread
/// left is (I - KH) P (I - KH)' + K R K', or (I - KH) P.
fn kf_uneven<S: Sc>(cx: &mut Cx<S>) {
    let mut t = two(cx);
    t.p[1][0] = cx.var("p10");
    let s = t.s();
    cx.assume(lt(S::c(0.01), s));
    let naive = cx.choose(2) == 1;
    let how = if naive { CovarianceUpdate::Naive } else { CovarianceUpdate::Joseph };
    let (done, state, covariance) = if cx.choose(2) == 0 {
        let mut k = t.kf().with_covariance_update(how);
        (k.update(Vector::new([t.z])).is_ok(), k.state(), k.covariance())
    } else {
        let mut k = t.ekf().with_covariance_update(how);
        let flat = Lin { a: t.h, c: [S::ZERO], q: [[S::ZERO; 2]] };
        (k.update(&flat, Vector::new([t.z])).is_ok(), k.state(), k.covariance())
    };
    cx.holds("updated", done);
    let y = t.z - dot(&t.h[0], &t.x);
    let g = t.gain();
    veq(cx, "state", state, add(&t.x, &g.map(|v| v * y)));
    let m: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { S::ONE } else { S::ZERO } - g[i] * t.h[0][j]));
    let mp = mm(&m, &t.p);
    let left = mm(&mp, &tr(&m));
    let want = if naive { mp } else { std::array::from_fn(|i| std::array::from_fn(|j| left[i][j] + g[i] * t.r * g[j])) };
    meq(cx, "covariance", &rows(&covariance), &want);
}
/// Two measurements of two states; the innovation covariance is any positive definite one.
fn kf_update2<S: Sc>(cx: &mut Cx<S>) {
    let (x, z): ([S; 2], [S; 2]) = (cx.vars("x"), cx.vars("z"));
    let l = [[cx.var_open("l0", 0.1, 10.0), S::ZERO], [cx.var("l1"), cx.var_open("l2", 0.1, 10.0)]];
    let s = mm(&l, &tr(&l));
    let (p, h) = if cx.thorough() {
        (sym2(cx.var("p00"), cx.var("p01"), cx.var("p11")), cx.mat("h"))
    } else {
        (sym2(S::TWO, cx.var("p01"), S::c(3.0)), [[S::ONE, cx.var("h01")], [S::ZERO, S::HALF]])
    };
    let hph = mm(&mm(&h, &p), &tr(&h));
    let r: Rows<S, 2, 2> = std::array::from_fn(|i| sub(&s[i], &hph[i]));
    let model = KalmanModel { state_transition: Matrix::identity(), measurement_model: Matrix::new(h), process_noise: Matrix::zeros(), measurement_noise: Matrix::new(r) };
    let mut k = KalmanFilter::<2, 2, S>::new(Vector::new(x), Matrix::new(p), model);
    let d = s[0][0] * s[1][1] - s[0][1] * s[0][1];
    let si = [[s[1][1] / d, -s[0][1] / d], [-s[0][1] / d, s[0][0] / d]];
    let gain = mm(&mm(&p, &tr(&h)), &si);
    let y = sub(&z, &mv(&h, &x));
    if k.update(Vector::new(z)).is_err() {
        return cx.holds("updated", false);
    }
    let ksk = mm(&mm(&gain, &s), &tr(&gain));
    same_estimate(cx, "update", k.state(), k.covariance(), &(add(&x, &mv(&gain, &y)), std::array::from_fn(|i| sub(&p[i], &ksk[i]))));
    veq(cx, "innovation", k.innovation(), y);
    meq(cx, "innovation covariance", &rows(&k.innovation_covariance()), &s);
    match k.normalized_innovation_squared() {
        Ok(n) => cx.eq("normalized innovation", n, dot(&y, &mv(&si, &y))),
        Err(_) => cx.holds("normalized innovation", false),
    }
}
/// Folding two independent readings in one at a time, in either order, is folding them in together.
fn kf_batch<S: Sc>(cx: &mut Cx<S>) {
    let (x, z): ([S; 2], [S; 2]) = (cx.vars("x"), cx.vars("z"));
    let p = sym2(cx.var_open("p00", 1.0, 2.0), cx.var_open("p01", -0.5, 0.5), cx.var_open("p11", 1.0, 2.0));
    let r = [cx.var_open("r0", 0.5, 2.0), cx.var_open("r1", 0.5, 2.0)];
    // each reading sees one state, or a mix
    let h = if cx.choose(2) == 0 { [[S::ONE, S::ZERO], [S::ZERO, S::ONE]] } else { [[S::ONE, S::ONE], [S::ONE, -S::ONE]] };
    let mut one: Vec<([S; 2], Rows<S, 2, 2>)> = vec![];
    for order in [[0, 1], [1, 0]] {
        let model = KalmanModel { state_transition: Matrix::identity(), measurement_model: Matrix::new([h[order[0]]]), process_noise: Matrix::zeros(), measurement_noise: Matrix::new([[r[order[0]]]]) };
        let mut k = KalmanFilter::<2, 1, S>::new(Vector::new(x), Matrix::new(p), model);
        for i in order {
            k.set_measurement_model(Matrix::new([h[i]]));
            k.set_measurement_noise(Matrix::new([[r[i]]]));
            if k.update(Vector::new([z[i]])).is_err() {
                return cx.holds("one at a time", false);
            }
        }
        one.push((k.state().into_array(), rows(&k.covariance())));
    }
    for i in 0..2 {
        cx.eqs("either order", &[one[0].0[i], one[0].1[i][0], one[0].1[i][1]], &[one[1].0[i], one[1].1[i][0], one[1].1[i][1]]);
    }
    // both at once, by the normal equations: (P^-1 + H' R^-1 H) x+ = P^-1 x + H' R^-1 z
    let d = p[0][0] * p[1][1] - p[0][1] * p[0][1];
    let pi = [[p[1][1] / d, -p[0][1] / d], [-p[0][1] / d, p[0][0] / d]];
    let hr: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| h[j][i] / r[j]));
    let hrh = mm(&hr, &h);
    let info: Rows<S, 2, 2> = std::array::from_fn(|i| add(&pi[i], &hrh[i]));
    let (xs, ps) = (one[0].0, one[0].1);
    cx.eqs("together", &mv(&info, &xs), &add(&mv(&pi, &x), &mv(&hr, &z)));
    meq(cx, "together", &mm(&info, &ps), &id());
}
fn kf_rejects<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.any("bad");
    if cx.ask(Prop::Fin(x)) {
        return cx.holds("finite", true);
    }
    let t = Two { x: [S::ONE, S::TWO], p: sym2(S::TWO, S::HALF, S::ONE), f: id(), h: [[S::ONE, S::ONE]], q: id(), r: S::ONE, z: S::ONE };
    let id1 = Lin::<S, 2, 1> { a: t.h, c: [S::ZERO], q: [[S::ZERO; 2]] };
    let step = Lin::<S, 2, 2> { a: t.f, c: [S::ZERO; 2], q: [[S::ZERO; 2]; 2] };
    let nf = |r: Result<(), EstimationError>| matches!(r, Err(EstimationError::NonFinite));
    let start = (t.x, t.p);
    let mut k = t.kf();
    cx.holds("reading", nf(k.update(Vector::new([x]))));
    k.set_measurement_noise(Matrix::new([[x]]));
    cx.holds("noise", nf(k.update(Vector::new([S::ONE]))));
    same_estimate(cx, "kf untouched", k.state(), k.covariance(), &start);
    let mut e = t.ekf();
    cx.holds("ekf reading", nf(e.update(&id1, Vector::new([x]))) && nf(e.update_with_residual(&id1, Vector::new([x]))));
    let bad1 = Lin::<S, 2, 1> { a: t.h, c: [x], q: [[S::ZERO; 2]] };
    cx.holds("ekf prediction", nf(e.update(&bad1, Vector::new([S::ONE]))));
    let bad2 = Lin::<S, 2, 2> { a: t.f, c: [S::ZERO, x], q: [[S::ZERO; 2]; 2] };
    cx.holds("ekf step", nf(e.predict(&bad2)));
    e.set_measurement_noise(Matrix::new([[x]]));
    cx.holds("ekf noise", nf(e.update(&id1, Vector::new([S::ONE]))));
    same_estimate(cx, "ekf untouched", e.state(), e.covariance(), &start);
    let mut u = UnscentedKalmanFilter::<2, 1, S>::new(Vector::new(t.x), Matrix::new(t.p), Matrix::new(t.q), Matrix::new([[t.r]]));
    cx.holds("ukf reading", nf(u.update(&id1, Vector::new([x]))) && nf(u.update_with_residual(&id1, Vector::new([x]))));
    cx.holds("ukf step", nf(u.predict(&bad2)));
    same_estimate(cx, "ukf untouched", u.state(), u.covariance(), &start);
    u.set_process_noise(Matrix::new([[S::ONE, S::ZERO], [S::ZERO, x]]));
    cx.holds("ukf noise", nf(u.predict(&step)));
    same_estimate(cx, "ukf untouched by noise", u.state(), u.covariance(), &start);
    let new = || UnscentedKalmanFilter::<2, 1, S>::new(Vector::new(t.x), Matrix::new(t.p), Matrix::new(t.q), Matrix::new([[t.r]]));
    let tune = |r: Result<UnscentedKalmanFilter<2, 1, S>, EstimationError>| matches!(r, Err(EstimationError::InvalidTuning));
    cx.holds("ukf scaling", tune(new().with_scaling(x, S::ONE, S::ONE)) && tune(new().with_scaling(S::ONE, x, S::ONE)) && tune(new().with_scaling(S::ONE, S::ONE, x)));
    cx.holds("ukf regularization", tune(new().with_regularization(x)));
}
/// With linear models the extended filter is the linear one; with others it uses their slope where the state is.
fn ekf<S: Sc>(cx: &mut Cx<S>) {
    let t = two(cx);
    let (c, cz): ([S; 2], S) = (cx.vars("c"), cx.var("cz"));
    let q: Rows<S, 2, 2> = cx.mat("bend");
    let qh: [S; 2] = cx.vars("bendh");
    let f = Lin { a: t.f, c, q };
    let hm = Lin { a: t.h, c: [cz], q: [qh] };
    let slope = |a: &[S; 2], q: &[S; 2]| [a[0] + q[0] * t.x[1] + S::TWO * q[1] * t.x[0], a[1] + q[0] * t.x[0]];
    let at = |a: &[S; 2], q: &[S; 2], c: S| c + dot(a, &t.x) + q[0] * t.x[0] * t.x[1] + q[1] * t.x[0] * t.x[0];
    if cx.choose(2) == 0 {
        let mut e = t.ekf();
        if e.predict(&f).is_err() {
            return cx.holds("predicted", false);
        }
        let j = [slope(&f.a[0], &q[0]), slope(&f.a[1], &q[1])];
        let jp = mm(&mm(&j, &t.p), &tr(&j));
        let want = (std::array::from_fn(|i| at(&f.a[i], &q[i], c[i])), std::array::from_fn(|i| add(&jp[i], &t.q[i])));
        return same_estimate(cx, "predict", e.state(), e.covariance(), &want);
    }
    let mut e = t.ekf();
    if cx.choose(2) == 1 {
        e = e.with_covariance_update(CovarianceUpdate::Naive);
    }
    let bent = Two { h: [slope(&t.h[0], &qh)], ..t };
    let y = t.z - at(&t.h[0], &qh, cz);
    let with_residual = cx.choose(2) == 1;
    let r = if with_residual { e.update_with_residual(&hm, Vector::new([y])) } else { e.update(&hm, Vector::new([t.z])) };
    match r {
        Ok(()) => {
            cx.check("gain defined", lt(S::ZERO, bent.s()));
            same_estimate(cx, "update", e.state(), e.covariance(), &bent.after(y));
            cx.eq("innovation", e.innovation()[0], y);
            cx.eq("innovation covariance", e.innovation_covariance()[(0, 0)], bent.s());
            match e.normalized_innovation_squared() {
                Ok(n) => cx.eq("normalized innovation", n * bent.s(), y * y),
                Err(_) => cx.holds("normalized innovation", false),
            }
        }
        Err(er) => {
            cx.check("gain undefined", le(bent.s(), S::ZERO));
            cx.holds("reason", matches!(er, EstimationError::NotPositiveDefinite));
            same_estimate(cx, "untouched", e.state(), e.covariance(), &(t.x, t.p));
        }
    }
}
/// The unscented filter is exact for linear models, and its mean for quadratic ones.
fn ukf<S: Sc>(cx: &mut Cx<S>) {
    let x: [S; 2] = cx.vars("x");
    let l = [[cx.var_open("l0", 0.2, 5.0), S::ZERO], [cx.var("l1"), cx.var_open("l2", 0.2, 5.0)]];
    let p = mm(&l, &tr(&l));
    let (alpha, w) = (cx.var_open("alpha", 0.1, 2.0), cx.var_open("w", 0.5, 2.0));
    let beta = cx.var("beta");
    let q = sym2(cx.var("q00"), cx.var("q01"), cx.var("q11"));
    let (f, h): (Rows<S, 2, 2>, Rows<S, 1, 2>) = (cx.mat("f"), cx.mat("h"));
    let (c, cz): ([S; 2], S) = (cx.vars("c"), cx.var("cz"));
    let (r, z) = (cx.var_open("r", 0.1, 5.0), cx.var("z"));
    let new = UnscentedKalmanFilter::<2, 1, S>::new(Vector::new(x), Matrix::new(p), Matrix::new(q), Matrix::new([[r]]));
    // n + kappa = w^2, so the spread is a square
    let Ok(mut u) = new.with_scaling(alpha, beta, w * w - S::TWO) else { return cx.holds("scaled", false) };
    if cx.choose(2) == 0 {
        let bend: Rows<S, 2, 2> = cx.mat("bend");
        let m = Lin { a: f, c, q: bend };
        if u.predict(&m).is_err() {
            return cx.holds("bent predicted", false);
        }
        // E f(x) for any distribution with this mean and covariance
        let want = std::array::from_fn(|i| c[i] + dot(&f[i], &x) + bend[i][0] * (x[0] * x[1] + p[0][1]) + bend[i][1] * (x[0] * x[0] + p[0][0]));
        veq(cx, "mean of a quadratic", u.state(), want);
        // the spread by definition: points x +- alpha w l_j, the middle one weighed by the tuning
        let g = alpha * w;
        let value = |d: [S; 2]| -> [S; 2] {
            let v = add(&x, &d);
            std::array::from_fn(|i| c[i] + dot(&f[i], &v) + bend[i][0] * v[0] * v[1] + bend[i][1] * v[0] * v[0] - want[i])
        };
        let side = S::HALF / (g * g);
        let middle = S::ONE - S::c(4.0) * side + S::ONE - alpha * alpha + beta;
        let mut spread = q;
        let mut push = |k: S, d: [S; 2]| {
            let v = value(d);
            for i in 0..2 {
                for j in 0..2 {
                    spread[i][j] = spread[i][j] + k * v[i] * v[j];
                }
            }
        };
        push(middle, [S::ZERO; 2]);
        for j in 0..2 {
            let d = [l[0][j] * g, l[1][j] * g];
            push(side, d);
            push(side, [-d[0], -d[1]]);
        }
        return meq(cx, "spread of a quadratic", &rows(&u.covariance()), &spread);
    }
    let m = Lin { a: f, c, q: [[S::ZERO; 2]; 2] };
    if u.predict(&m).is_err() {
        return cx.holds("predicted", false);
    }
    let fx = add(&mv(&f, &x), &c);
    let fp = mm(&mm(&f, &p), &tr(&f));
    let fpq: Rows<S, 2, 2> = std::array::from_fn(|i| add(&fp[i], &q[i]));
    same_estimate(cx, "linear", u.state(), u.covariance(), &(fx, fpq));
    // the kept points carry f P f' without the noise just added; the gain follows them
    let hm = Lin { a: h, c: [cz], q: [[S::ZERO; 2]] };
    let s = mm(&mm(&h, &fp), &tr(&h))[0][0] + r;
    cx.assume(lt(S::ZERO, s));
    let k = mv(&fp, &h[0]).map(|v| v / s);
    let y = z - cz - dot(&h[0], &fx);
    if u.update(&hm, Vector::new([z])).is_err() {
        return cx.holds("updated", false);
    }
    let want: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| fpq[i][j] - k[i] * s * k[j]));
    same_estimate(cx, "linear update", u.state(), u.covariance(), &(add(&fx, &k.map(|v| v * y)), want));
    cx.eq("innovation", u.innovation()[0], y);
    cx.eq("innovation covariance", u.innovation_covariance()[(0, 0)], s);
    match u.normalized_innovation_squared() {
        Ok(n) => cx.eq("normalized innovation", n * s, y * y),
        Err(_) => cx.holds("normalized innovation", false),
    }
}
/// A bent sensor on one state: innovation spread and gain by definition.
fn ukf_bent<S: Sc>(cx: &mut Cx<S>) {
    struct Bend<S>(S, S, S);
    impl<S: Sc> VectorFn<1, 1> for Bend<S> {
        fn eval<T: Numeric>(&self, x: &[T; 1]) -> [T; 1] {
            [T::from_f64(self.0.f()) + T::from_f64(self.1.f()) * x[0] + T::from_f64(self.2.f()) * x[0] * x[0]]
        }
    }
    let (x, l, z) = (cx.var("x"), cx.var_open("l", 0.2, 5.0), cx.var("z"));
    let (alpha, w) = (cx.var_open("alpha", 0.5, 2.0), cx.var_open("w", 0.5, 2.0));
    let (beta, q, r) = (cx.var("beta"), cx.var("q"), cx.var("r"));
    let h = Bend(cx.var("h0"), cx.var("h1"), cx.var("h2"));
    let at = |v: S| h.0 + h.1 * v + h.2 * v * v;
    let new = UnscentedKalmanFilter::<1, 1, S>::new(Vector::new([x]), Matrix::new([[l * l]]), Matrix::new([[q]]), Matrix::new([[r]]));
    let Ok(mut u) = new.with_scaling(alpha, beta, w * w - S::ONE) else { return cx.holds("scaled", false) };
    let held = Bend(S::ZERO, S::ONE, S::ZERO);
    if u.predict(&held).is_err() {
        return cx.holds("predicted", false);
    }
    let d = alpha * w * l;
    let side = S::HALF / (alpha * alpha * w * w);
    let mid = S::ONE - S::TWO * side;
    let mean = mid * at(x) + side * (at(x + d) + at(x - d));
    let dev = [at(x) - mean, at(x + d) - mean, at(x - d) - mean];
    let wc = [mid + S::ONE - alpha * alpha + beta, side, side];
    let s = r + (0..3).fold(S::ZERO, |t, i| t + wc[i] * dev[i] * dev[i]);
    let c = side * d * (dev[1] - dev[2]);
    let y = z - mean;
    let given = cx.choose(2) == 1;
    let done = if given { u.update_with_residual(&h, Vector::new([y])) } else { u.update(&h, Vector::new([z])) };
    match done {
        Ok(()) => {
            cx.check("gain defined", lt(S::ZERO, s));
            cx.eq("innovation covariance", u.innovation_covariance()[(0, 0)], s);
            cx.eq("innovation", u.innovation()[0], y);
            cx.eq("state", (u.state()[0] - x) * s, c * y);
            cx.eq("covariance", (l * l + q - u.covariance()[(0, 0)]) * s, c * c);
        }
        Err(e) => {
            cx.check("gain undefined", le(s, S::ZERO));
            cx.holds("reason", matches!(e, EstimationError::NotPositiveDefinite));
            cx.eqs("untouched", &[u.state()[0], u.covariance()[(0, 0)]], &[x, l * l + q]);
        }
    }
}
fn ukf_tuning<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, k) = (cx.var("alpha"), cx.var("beta"), cx.var("kappa"));
    let new = || UnscentedKalmanFilter::<2, 1, S>::new(Vector::zeros(), Matrix::identity(), Matrix::identity(), Matrix::identity());
    let ok = lt(S::ZERO, a * a * (S::TWO + k));
    match new().with_scaling(a, b, k) {
        Ok(_) => cx.check("scaling accepted", ok),
        Err(e) => {
            cx.check("scaling refused", not(ok));
            cx.holds("reason", matches!(e, EstimationError::InvalidTuning));
        }
    }
    match new().with_regularization(a) {
        Ok(_) => cx.check("regularization accepted", le(S::ZERO, a)),
        Err(e) => {
            cx.check("regularization refused", lt(a, S::ZERO));
            cx.holds("why", matches!(e, EstimationError::InvalidTuning));
        }
    }
    // a spread claiming nothing in one direction: refused as it is, carried with regularization
    let flat = Matrix::new([[S::ONE, S::ZERO], [S::ZERO, S::ZERO]]);
    let m = Lin::<S, 2, 2> { a: id(), c: [S::ZERO; 2], q: [[S::ZERO; 2]; 2] };
    let flat = UnscentedKalmanFilter::<2, 1, S>::new(Vector::zeros(), flat, Matrix::zeros(), Matrix::identity());
    cx.holds("flat refused", matches!({ flat }.predict(&m), Err(EstimationError::NotPositiveDefinite)));
    // before any predict the points all sit on the start, so a reading moves nothing
    let (x, z): ([S; 2], S) = (cx.vars("x"), cx.var("z"));
    let mut u = UnscentedKalmanFilter::<2, 1, S>::new(Vector::new(x), Matrix::identity(), Matrix::identity(), Matrix::identity());
    let hm = Lin::<S, 2, 1> { a: [[S::ONE, S::TWO]], c: [S::ZERO], q: [[S::ZERO; 2]] };
    cx.holds("update without predict", u.update(&hm, Vector::new([z])).is_ok());
    same_estimate(cx, "unmoved", u.state(), u.covariance(), &(x, id()));
}
/// Turning along an arc, in closed form.
fn turn_model<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.var_hint("heading", -1.0, 1.0);
    let (x, y, v) = (cx.var("x"), cx.var("y"), cx.var("v"));
    let (w, t) = (cx.var_hint("w", -1.0, 1.0), cx.var_open("t", 0.1, 1.0));
    cx.assume(and(vec![lt(w, S::ONE), lt(-S::ONE, w), lt(a, S::ONE), lt(-S::ONE, a)]));
    let m = ConstantTurnAndSpeed { timestep: t.f() };
    let o = m.eval(&[x, y, a, v, w]);
    cx.eqs("held", &o[3..], &[v, w]);
    // |heading| < 1 + 1 < pi: nothing to fold
    cx.eq("heading", o[2], a + w * t);
    if cx.ask(lt(S::c(1e-6), w.abs())) {
        // chord at half the turn, length 2 v/w sin(w t / 2)
        let half = w * t * S::HALF;
        let chord = S::TWO * v * half.sin();
        cx.eq("x", (o[0] - x) * w, chord * (a + half).cos());
        cx.eq("y", (o[1] - y) * w, chord * (a + half).sin());
    } else {
        cx.eq("straight x", o[0] - x, v * t * a.cos());
        cx.eq("straight y", o[1] - y, v * t * a.sin());
    }
}
fn readings<S: Sc>(cx: &mut Cx<S>) {
    let v: [S; 3] = cx.vars("v");
    let (i, j) = (cx.choose(5) as usize, cx.choose(5) as usize);
    match DirectMeasurement::<3, 2>::try_new([i, j]) {
        Ok(m) => {
            cx.holds("in range", i < 3 && j < 3 && m.indices() == [i, j]);
            if i < 3 && j < 3 {
                cx.eqs("components", &m.eval(&v), &[v[i], v[j]]);
            }
        }
        Err(e) => cx.holds("out of range", (i > 2 || j > 2) && matches!(e, EstimationError::StateIndexOutOfRange)),
    }
    if i < 3 && j < 3 {
        let p: [S; 3] = cx.vars("p");
        let r = residual_with_wrapped_angles(Vector::new(v), Vector::new(p), &[i, j]);
        for n in 0..3 {
            let d = v[n] - p[n];
            if n == i || n == j {
                cx.check("folded", and(vec![le(r[n], S::PI), le(-S::PI, r[n])]));
                let turns = (d - r[n]) / S::TWO_PI;
                cx.check("whole turns", eq(turns, turns.floor()));
            } else {
                cx.eq("difference", r[n], d);
            }
        }
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C17", kf_predict, "KalmanFilter predict, predict_with_control, setters; 2 states"),
        h!("C17", kf_update, "KalmanFilter::update, Joseph and naive; 2 states, 1 reading, all values"),
        h!("C17", kf_uneven, "KalmanFilter::update and ExtendedKalmanFilter::update from a covariance that is not symmetric, Joseph and naive; 2 states, 1 reading"),
        h!("C17", kf_update2, "KalmanFilter::update; 2 states, 2 readings, any positive definite innovation covariance"),
        h!("C17", kf_batch, "KalmanFilter::update twice; 2 states, independent readings in either order"),
        h!("C17", kf_rejects, "non-finite handling of the three filters"),
        h!("C17", ekf, "ExtendedKalmanFilter predict and update; quadratic models with free weights"),
        h!("C17", ukf, "UnscentedKalmanFilter predict and update; linear and quadratic models, any tuning"),
        h!("C17", ukf_bent, "UnscentedKalmanFilter::update; quadratic sensor on one state, any tuning"),
        h!("C17", ukf_tuning, "UnscentedKalmanFilter tuning"),
        h!("C17", turn_model, "ConstantTurnAndSpeed; turn rates and steps within one"),
        h!("C17", readings, "DirectMeasurement, residual_with_wrapped_angles"),
    ]
}
