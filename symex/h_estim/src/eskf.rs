//! C18: error-state Kalman filter.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::Numeric;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::Dual;
use multicalc::spatial::{Quaternion, SO3};

const E: usize = 15;
type P15<S> = Rows<S, E, E>;
type V3<S> = [S; 3];
fn v<S: Sc>(a: V3<S>) -> Vector<3, S> {
    Vector::new(a)
}
fn a3<S: Sc>(a: Vector<3, S>) -> V3<S> {
    [a[0], a[1], a[2]]
}
fn so3<S: Sc>(q: [S; 4]) -> SO3<S> {
    SO3::from_quaternion(Quaternion::from_array(q))
}
struct Parts<S> {
    p: V3<S>,
    u: V3<S>,
    q: [S; 4],
    g: V3<S>,
    a: V3<S>,
}
fn state<S: Sc>(s: &Parts<S>) -> NominalState<S> {
    NominalState::new(v(s.p), v(s.u), so3(s.q), v(s.g), v(s.a))
}
fn parts<S: Sc>(cx: &mut Cx<S>, n: &str) -> Parts<S> {
    Parts { p: cx.vars(&format!("{n}p")), u: cx.vars(&format!("{n}u")), q: ratq(cx, &format!("{n}q")), g: cx.vars(&format!("{n}g")), a: cx.vars(&format!("{n}a")) }
}
/// An angle below half a turn, whose half has positive sine and cosine.
fn angle<S: Sc>(cx: &mut Cx<S>, n: &str) -> S {
    let t = cx.var_in(n, 0.06, 3.0);
    let h = t * S::HALF;
    cx.assume(and(vec![lt(S::ZERO, h.sin()), lt(S::ZERO, h.cos())]));
    t
}
/// Rotation by an angle about a unit axis.
fn turn<S: Sc>(d: &V3<S>, t: S) -> Rows<S, 3, 3> {
    let (s, c) = (t.sin(), t.cos());
    let k = skew(d);
    let kk = mm(&k, &k);
    std::array::from_fn(|i| std::array::from_fn(|j| id::<S, 3>()[i][j] + s * k[i][j] + (S::ONE - c) * kk[i][j]))
}
fn same_state<S: Sc>(cx: &mut Cx<S>, l: &str, s: NominalState<S>, p: V3<S>, u: V3<S>, r: &Rows<S, 3, 3>, g: V3<S>, a: V3<S>) {
    veq(cx, &format!("{l} position"), s.position(), p);
    veq(cx, &format!("{l} velocity"), s.velocity(), u);
    meq(cx, &format!("{l} orientation"), &rows(&s.orientation().to_matrix()), r);
    veq(cx, &format!("{l} gyroscope bias"), s.gyroscope_bias(), g);
    veq(cx, &format!("{l} accelerometer bias"), s.accelerometer_bias(), a);
}
fn errors<S: Sc>(cx: &mut Cx<S>) {
    let s = parts(cx, "s");
    let k = cx.choose(3);
    let d = dirs::<S>(k);
    let t = angle(cx, "t");
    let e: [S; 12] = cx.vars("e");
    let full: [S; E] = std::array::from_fn(|i| match i {
        0..6 => e[i],
        6..9 => d[i - 6] * t,
        _ => e[i - 3],
    });
    let moved = state(&s).plus_error(Vector::new(full));
    let r = mm(&rotm(&s.q), &turn(&d, t));
    let [p0, p1, p2, u0, u1, u2, g0, g1, g2, b0, b1, b2] = e;
    same_state(cx, "moved", moved, add(&s.p, &[p0, p1, p2]), add(&s.u, &[u0, u1, u2]), &r, add(&s.g, &[g0, g1, g2]), add(&s.a, &[b0, b1, b2]));
    let back = moved.error_from(state(&s));
    for i in (0..6).chain(9..E) {
        cx.eq(&format!("read back {i}"), back[i], full[i]);
    }
    let none = state(&s).error_from(state(&s));
    cx.eqs("no error from itself", none.as_slice(), &[S::ZERO; E]);
    let still = NominalState::at_rest(so3(s.q));
    same_state(cx, "at rest", still, [S::ZERO; 3], [S::ZERO; 3], &rotm(&s.q), [S::ZERO; 3], [S::ZERO; 3]);
}
/// The error between two states is the shortest turn between them, and folding it in closes the gap.
fn difference<S: Sc>(cx: &mut Cx<S>) {
    let (s, o) = (parts(cx, "s"), parts(cx, "o"));
    let d = dirs::<S>(cx.choose(3));
    let u = cx.var_in("u", 0.1, 20.0);
    let k = S::ONE + u * u;
    let (c, n) = (S::ONE / k.sqrt(), u / k.sqrt());
    let facing = so3(s.q) * so3([c, d[0] * n, d[1] * n, d[2] * n]);
    let other = NominalState::new(v(o.p), v(o.u), facing, v(o.g), v(o.a));
    let e = other.error_from(state(&s));
    let parts = |i: usize| [e[i], e[i + 1], e[i + 2]];
    cx.eqs("position", &parts(0), &sub(&o.p, &s.p));
    cx.eqs("velocity", &parts(3), &sub(&o.u, &s.u));
    cx.eqs("gyroscope bias", &parts(9), &sub(&o.g, &s.g));
    cx.eqs("accelerometer bias", &parts(12), &sub(&o.a, &s.a));
    let w = parts(6);
    cx.eqs("turn axis", &cross(&w, &d), &[S::ZERO; 3]);
    cx.check("shortest turn", and(vec![lt(S::ZERO, dot(&w, &d)), le(dot(&w, &d), S::PI)]));
    let back = state(&s).plus_error(e);
    meq(cx, "closes the gap", &rows(&back.orientation().to_matrix()), &rows(&facing.to_matrix()));
}
fn moves<S: Sc>(cx: &mut Cx<S>) {
    let s = parts(cx, "s");
    let k = cx.choose(3);
    let d = dirs::<S>(k);
    let t = angle(cx, "t");
    let dt = cx.var_open("dt", 0.001, 2.0);
    let f: V3<S> = cx.vars("f");
    let g: V3<S> = cx.vars("gravity");
    let gyro = add(&s.g, &scale(&d, t / dt));
    let next = state(&s).propagated(v(gyro), v(add(&f, &s.a)), dt, v(g));
    let w = add(&mv(&rotm(&s.q), &f), &g);
    let p = add(&add(&s.p, &scale(&s.u, dt)), &scale(&w, dt * dt * S::HALF));
    same_state(cx, "next", next, p, add(&s.u, &scale(&w, dt)), &mm(&rotm(&s.q), &turn(&d, t)), s.g, s.a);
}
type F1<S> = ErrorStateKalmanFilter<1, S>;
fn imu<S: Sc>(k: [S; 4]) -> ImuNoise<S> {
    ImuNoise { gyroscope_noise_density: k[0], accelerometer_noise_density: k[1], gyroscope_bias_random_walk: k[2], accelerometer_bias_random_walk: k[3] }
}
fn block<S: Sc>(m: &P15<S>, i: usize, j: usize) -> Rows<S, 3, 3> {
    std::array::from_fn(|r| std::array::from_fn(|c| m[i + r][j + c]))
}
/// The step matrix is what a nudge of the state turns into after the step.
fn transition<S: Sc>(cx: &mut Cx<S>) {
    let s = parts(cx, "s");
    let k = cx.choose(3);
    let d = dirs::<S>(k);
    let t = angle(cx, "t");
    let dt = cx.var_open("dt", 0.001, 2.0);
    let (f, g): (V3<S>, V3<S>) = (cx.vars("f"), cx.vars("gravity"));
    let (gyro, acc) = (add(&s.g, &scale(&d, t / dt)), add(&f, &s.a));
    let filter = F1::new(state(&s), Matrix::identity(), imu([S::ONE; 4]), Matrix::identity()).with_gravity(v(g));
    let m = rows(&filter.error_state_transition(v(gyro), v(acc), dt));
    let z = Rows::<S, 3, 3>::from([[S::ZERO; 3]; 3]);
    let r = rotm(&s.q);
    let (i, neg) = (id::<S, 3>(), |m: &Rows<S, 3, 3>, k: S| m.map(|r| r.map(|x| -x * k)));
    let time = dg(&[dt; 3]);
    let want: [[Rows<S, 3, 3>; 5]; 5] = [
        [i, time, z, z, z],
        [z, i, neg(&mm(&r, &skew(&f)), dt), z, neg(&r, dt)],
        [z, z, tr(&turn(&d, t)), neg(&i, dt), z],
        [z, z, z, i, z],
        [z, z, z, z, i],
    ];
    for a in 0..5 {
        for b in 0..5 {
            meq(cx, &format!("block {a}{b}"), &block(&m, 3 * a, 3 * b), &want[a][b]);
        }
    }
    // the same from the derivative of the step itself, in the rows that are exact
    let column = cx.choose(9);
    let mut e = [Dual::constant(S::ZERO); E];
    e[column] = Dual::variable(S::ZERO);
    let c = |a: V3<S>| Vector::new(a.map(Dual::constant));
    let next = state(&s).lifted_to_dual().plus_error(Vector::new(e)).propagated(c(gyro), c(acc), Dual::constant(dt), c(g));
    for r in 0..3 {
        cx.eq("velocity row", m[3 + r][column], next.velocity()[r].deriv);
    }
    if column < 6 {
        for r in 0..3 {
            cx.eq("position row", m[r][column], next.position()[r].deriv);
        }
    }
    let q = next.orientation().quaternion().as_array();
    let (q0, q1) = (q.map(|x| x.value), q.map(|x| x.deriv));
    let slip = Quaternion::from_array(q0).conjugate() * Quaternion::from_array(q1);
    let slip = slip.as_array();
    for r in 0..3 {
        cx.eq("rotation row", m[6 + r][column], S::TWO * slip[1 + r]);
    }
}
/// A spread with a few free entries; the rest is a fixed lopsided background.
fn spread<S: Sc>(cx: &mut Cx<S>, free: &[(usize, usize)]) -> P15<S> {
    let mut p: P15<S> = [[S::ZERO; E]; E];
    for i in 0..E {
        p[i][i] = S::rat(2 + i as i64, 2);
    }
    for (a, b) in [(0, 4), (2, 7), (6, 8), (7, 10), (5, 13), (9, 14), (1, 6)] {
        p[a][b] = S::rat(1, 3 + a as i64);
        p[b][a] = p[a][b];
    }
    for (a, b) in free {
        p[*a][*b] = cx.var_hint(&format!("c{a}_{b}"), -0.3, 0.3);
        p[*b][*a] = p[*a][*b];
    }
    p
}
fn symm<S: Sc>(m: &P15<S>) -> P15<S> {
    std::array::from_fn(|i| std::array::from_fn(|j| (m[i][j] + m[j][i]) * S::HALF))
}
fn fixed<S: Sc>() -> Parts<S> {
    let c = |a: [i64; 3]| a.map(|x| S::rat(x, 4));
    Parts { p: c([1, -2, 5]), u: c([3, 2, -1]), q: [4, 2, -2, 1].map(|x| S::rat(x, 5)), g: c([1, -1, 2]), a: c([-1, 3, 1]) }
}
fn predict<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let free: &[(usize, usize)] = match cx.choose(3) {
        0 => &[(0, 0), (0, 3), (3, 6), (8, 8)],
        1 => &[(4, 14), (11, 11), (6, 9), (12, 12)],
        _ => &[(2, 12), (5, 5), (7, 8), (9, 13)],
    };
    let p = spread(cx, free);
    let d = dirs::<S>(1);
    let t = angle(cx, "t");
    let dt = if cx.thorough() { cx.var_open("dt", 0.01, 2.0) } else { S::rat(1, 8) };
    let f: V3<S> = [cx.var("f"), S::ONE, S::rat(-1, 2)];
    let noise: [S; 4] = cx.vars("noise");
    let mut filter = F1::new(state(&s), Matrix::new(p), imu(noise), Matrix::identity());
    let (gyro, acc) = (v(add(&s.g, &scale(&d, t / dt))), v(add(&f, &s.a)));
    let m = rows(&filter.error_state_transition(gyro, acc, dt));
    cx.holds("predicted", filter.predict(gyro, acc, dt).is_ok());
    let want = state(&s).propagated(gyro, acc, dt, v([S::ZERO, S::ZERO, S::c(-9.81)]));
    let n = filter.nominal_state();
    same_state(cx, "state", n, a3(want.position()), a3(want.velocity()), &rows(&want.orientation().to_matrix()), a3(want.gyroscope_bias()), a3(want.accelerometer_bias()));
    let mut w = mm(&mm(&m, &p), &tr(&m));
    for i in 0..3 {
        let sq = |x: S| x * x;
        w[3 + i][3 + i] = w[3 + i][3 + i] + sq(noise[1] * dt);
        w[6 + i][6 + i] = w[6 + i][6 + i] + sq(noise[0] * dt);
        w[9 + i][9 + i] = w[9 + i][9 + i] + sq(noise[2]) * dt;
        w[12 + i][12 + i] = w[12 + i][12 + i] + sq(noise[3]) * dt;
    }
    let g = rows(&filter.covariance());
    meq(cx, "spread", &g, &w);
}
/// Linear in every part of the state but the facing, which it sees through one carried vector.
struct Sensor<S>([S; 3], [S; 3], [S; 3], [S; 3], [S; 3], S);
impl<S: Sc> NominalStateFn<1> for Sensor<S> {
    fn eval<T: Numeric>(&self, x: &NominalState<T>) -> [T; 1] {
        let k = |v: S| T::from_f64(v.f());
        let d = |c: &[S; 3], v: Vector<3, T>| k(c[0]) * v[0] + k(c[1]) * v[1] + k(c[2]) * v[2];
        let seen = x.orientation().act(Vector::new(self.2.map(k)));
        [d(&self.0, x.position()) + d(&self.1, x.velocity()) + seen[1] + d(&self.3, x.gyroscope_bias()) + d(&self.4, x.accelerometer_bias()) + k(self.5) * x.position()[0] * x.velocity()[2]]
    }
}
impl<S: Sc> Sensor<S> {
    fn slope(&self, s: &Parts<S>) -> [S; E] {
        let r = mm(&rotm(&s.q), &skew(&self.2));
        let mut h = [S::ZERO; E];
        for i in 0..3 {
            h[i] = self.0[i];
            h[3 + i] = self.1[i];
            h[6 + i] = -r[1][i];
            h[9 + i] = self.3[i];
            h[12 + i] = self.4[i];
        }
        h[0] = h[0] + self.5 * s.u[2];
        h[5] = h[5] + self.5 * s.p[0];
        h
    }
    fn at(&self, s: &Parts<S>) -> S {
        dot(&self.0, &s.p) + dot(&self.1, &s.u) + mv(&rotm(&s.q), &self.2)[1] + dot(&self.3, &s.g) + dot(&self.4, &s.a) + self.5 * s.p[0] * s.u[2]
    }
}
struct Fold<S> {
    s: S,
    error: [S; E],
    p: P15<S>,
}
/// The correction as written down: gain, new spread, and the spread carried to the new facing.
fn fold<S: Sc>(h: &[S; E], p: &P15<S>, noise: S, y: S, joseph: bool) -> Fold<S> {
    let ph = mv(p, h);
    let s = dot(h, &ph) + noise;
    let k: [S; E] = ph.map(|x| x / s);
    let error = k.map(|x| x * y);
    let i: P15<S> = std::array::from_fn(|r| std::array::from_fn(|c| id::<S, E>()[r][c] - k[r] * h[c]));
    let mut n = mm(&i, p);
    if joseph {
        n = mm(&n, &tr(&i));
        for r in 0..E {
            for c in 0..E {
                n[r][c] = n[r][c] + k[r] * noise * k[c];
            }
        }
    }
    let mut g: P15<S> = id();
    let w = skew(&[error[6], error[7], error[8]]);
    for r in 0..3 {
        for c in 0..3 {
            g[6 + r][6 + c] = g[6 + r][6 + c] - S::HALF * w[r][c];
        }
    }
    Fold { s, error, p: symm(&mm(&mm(&g, &n), &tr(&g))) }
}
fn update<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let which = cx.choose(3);
    let z = [S::ZERO; 3];
    let k = |a: [i64; 3]| a.map(|x| S::rat(x, 2));
    let sensor = match which {
        0 => Sensor([cx.var("h0"), S::ONE, S::ZERO], [cx.var("h1"), S::ZERO, S::TWO], z, k([1, 0, 2]), z, cx.var("h2")),
        1 => Sensor(k([1, 0, 0]), z, [cx.var("h0"), S::ZERO, cx.var("h1")], z, k([0, 1, 0]), S::ZERO),
        _ => Sensor(z, k([0, 1, 0]), k([0, 2, 0]), [cx.var("h0"), S::ONE, S::ZERO], [S::ZERO, S::ZERO, cx.var("h1")], S::ZERO),
    };
    let p = spread(cx, &[[(0, 0), (3, 9)], [(6, 6), (1, 7)], [(8, 12), (2, 5)]][which]);
    let h = sensor.slope(&s);
    // the noise is what is left of the innovation spread
    let root = cx.var_open("root", 0.5, 3.0);
    let n = root * root - dot(&h, &mv(&p, &h));
    let joseph = cx.choose(2) == 0;
    let y = if cx.thorough() { cx.var_open("y", -1.0, 1.0) } else { S::rat(1, 4) };
    let f = fold(&h, &p, n, y, joseph);
    let mut filter = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::new([[n]]));
    if !joseph {
        filter = filter.with_covariance_update(CovarianceUpdate::Naive);
    }
    let measured = sensor.at(&s) + y;
    let r = if cx.choose(2) == 0 { filter.update(&sensor, Vector::new([measured])) } else { filter.update_with_residual(&sensor, Vector::new([y])) };
    cx.holds("updated", r.is_ok());
    cx.eq("innovation", filter.innovation()[0], y);
    cx.eq("innovation spread", filter.innovation_covariance()[(0, 0)], f.s);
    match filter.normalized_innovation_squared() {
        Ok(x) => cx.eq("surprise", x * f.s, y * y),
        Err(_) => cx.holds("surprise", false),
    }
    let want = state(&s).plus_error(Vector::new(f.error));
    let g = filter.nominal_state();
    veq(cx, "position", g.position(), a3(want.position()));
    veq(cx, "velocity", g.velocity(), a3(want.velocity()));
    veq(cx, "gyroscope bias", g.gyroscope_bias(), a3(want.gyroscope_bias()));
    veq(cx, "accelerometer bias", g.accelerometer_bias(), a3(want.accelerometer_bias()));
    let (a, b) = (g.orientation().quaternion().as_array(), want.orientation().quaternion().as_array());
    cx.eqs("orientation", &a, &b);
    let c = rows(&filter.covariance());
    let stride = if cx.thorough() { 1 } else { 2 };
    for i in 0..E {
        for j in (i..E).filter(|j| stride == 1 || (i + j) % 2 == 0 || (6..9).contains(j)) {
            cx.eq(&format!("spread[{i},{j}]"), c[i][j], f.p[i][j]);
            cx.eq(&format!("even[{i},{j}]"), c[i][j], c[j][i]);
        }
    }
}
struct Pair<S>(S, S);
impl<S: Sc> NominalStateFn<2> for Pair<S> {
    fn eval<T: Numeric>(&self, x: &NominalState<T>) -> [T; 2] {
        let k = |v: S| T::from_f64(v.f());
        [k(self.0) * x.position()[0], k(self.1) * x.velocity()[1]]
    }
}
/// A reading of another width goes through the same gain, and the kept innovation is not touched.
fn other<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let (a, b) = (cx.var_open("a", 0.3, 2.0), cx.var_open("b", 0.3, 2.0));
    let (p0, p1, x) = (cx.var_open("p0", 0.1, 3.0), cx.var_open("p1", 0.1, 3.0), cx.var("x"));
    let mut p: P15<S> = id();
    p[0][0] = p0;
    p[4][4] = p1 + x * x / p0;
    p[0][4] = x;
    p[4][0] = x;
    let (n, r): (S, [S; 2]) = (cx.var_open("n", 0.2, 2.0), cx.vars("r"));
    let first = Sensor([S::ZERO, S::ZERO, S::ONE], [S::ZERO; 3], [S::ZERO; 3], [S::ZERO; 3], [S::ZERO; 3], S::ZERO);
    let mut f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::new([[n]]));
    cx.holds("nothing to weigh yet", matches!(f.normalized_innovation_squared(), Err(EstimationError::NotPositiveDefinite)));
    cx.holds("first", f.update_with_residual(&first, Vector::new([S::ONE])).is_ok());
    let noise = [[n, S::ZERO], [S::ZERO, S::TWO]];
    cx.holds("second", f.update_other(&Pair(a, b), Vector::new(r), Matrix::new(noise)).is_ok());
    cx.eq("innovation kept", f.innovation()[0], S::ONE);
    cx.eq("innovation spread kept", f.innovation_covariance()[(0, 0)], S::ONE + n);
    let d = dg(&[a, b]);
    let q = [[p[0][0], x], [x, p[4][4]]];
    let ss = add2(&mm(&mm(&d, &q), &d), &noise);
    let det = ss[0][0] * ss[1][1] - ss[0][1] * ss[1][0];
    let inv = [[ss[1][1] / det, -ss[0][1] / det], [-ss[1][0] / det, ss[0][0] / det]];
    let k = mm(&mm(&q, &d), &inv);
    let e = mv(&k, &r);
    cx.eq("position", f.nominal_state().position()[0], s.p[0] + e[0]);
    cx.eq("velocity", f.nominal_state().velocity()[1], s.u[1] + e[1]);
    let kh = mm(&k, &d);
    let left = [[S::ONE - kh[0][0], -kh[0][1]], [-kh[1][0], S::ONE - kh[1][1]]];
    let post = mm(&left, &q);
    let c = f.covariance();
    meq(cx, "spread", &[[c[(0, 0)], c[(0, 4)]], [c[(4, 0)], c[(4, 4)]]], &post);
}
fn add2<S: Sc>(a: &Rows<S, 2, 2>, b: &Rows<S, 2, 2>) -> Rows<S, 2, 2> {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + b[i][j]))
}
/// An error of any size folded in by hand.
fn inject<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let k = cx.choose(2);
    let d = dirs::<S>(k);
    let t = angle(cx, "t");
    let p = spread(cx, &[(6, 6), (7, 12), (0, 8)]);
    let mut e = [S::ZERO; E];
    for i in 0..3 {
        e[6 + i] = d[i] * t;
        e[i] = S::rat(i as i64, 3);
    }
    e[14] = cx.var("e14");
    let mut f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::identity());
    f.inject_error_and_reset(Vector::new(e));
    let want = state(&s).plus_error(Vector::new(e));
    same_state(cx, "state", f.nominal_state(), a3(want.position()), a3(want.velocity()), &rows(&want.orientation().to_matrix()), a3(want.gyroscope_bias()), a3(want.accelerometer_bias()));
    let mut g: P15<S> = id();
    let w = skew(&scale(&d, t * S::HALF));
    for r in 0..3 {
        for c in 0..3 {
            g[6 + r][6 + c] = g[6 + r][6 + c] - w[r][c];
        }
    }
    meq(cx, "spread", &rows(&f.covariance()), &mm(&mm(&g, &p), &tr(&g)));
}
/// Directions below the floor are lifted to it; the rest stays.
fn conditioned<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let mut p: P15<S> = id();
    let (a, b, floor) = (cx.var_open("a", -2.0, 3.0), cx.var_open("b", -2.0, 3.0), cx.var_open("floor", 0.01, 0.5));
    // two directions mixed by a rational turn, and an uneven entry that evens out to nothing
    let (x, y) = (S::rat(3, 5), S::rat(4, 5));
    let (i, j) = (3, 11);
    p[i][i] = x * x * a + y * y * b;
    p[j][j] = y * y * a + x * x * b;
    p[i][j] = x * y * (a - b);
    p[j][i] = p[i][j];
    p[2][5] = S::ONE;
    p[5][2] = -S::ONE;
    cx.assume(and(vec![lt(S::c(1e-3), (a - b).abs()), lt(S::c(1e-3), (a - S::ONE).abs()), lt(S::c(1e-3), (b - S::ONE).abs())]));
    let mut f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::identity());
    cx.holds("conditioned", f.condition_covariance(floor).is_ok());
    let (u, w) = (a.max(floor), b.max(floor));
    let mut q: P15<S> = id();
    q[i][i] = x * x * u + y * y * w;
    q[j][j] = y * y * u + x * x * w;
    q[i][j] = x * y * (u - w);
    q[j][i] = q[i][j];
    meq(cx, "spread", &rows(&f.covariance()), &q);
}
fn surprise<S: Sc>(cx: &mut Cx<S>) {
    let s = parts(cx, "s");
    let e: [S; 12] = cx.vars("e");
    let full: [S; E] = std::array::from_fn(|i| match i {
        0..6 => e[i],
        6..9 => S::ZERO,
        _ => e[i - 3],
    });
    let truth = state(&s).plus_error(Vector::new(full));
    let mut p: P15<S> = id();
    let c: [S; 3] = std::array::from_fn(|i| cx.var_open(&format!("c{i}"), 0.1, 3.0));
    p[0][0] = c[0] * c[0];
    p[10][10] = c[1] * c[1];
    let x = cx.var("x");
    p[0][10] = x * c[0];
    p[10][0] = x * c[0];
    p[10][10] = x * x + c[1] * c[1];
    p[5][5] = c[2];
    let f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::identity());
    let Ok(got) = f.normalized_estimation_error_squared(truth) else { return cx.holds("weighed", false) };
    let det = p[0][0] * p[10][10] - p[0][10] * p[0][10];
    let pair = (p[10][10] * full[0] * full[0] - S::TWO * p[0][10] * full[0] * full[10] + p[0][0] * full[10] * full[10]) / det;
    let rest = (0..E).filter(|i| ![0, 5, 10].contains(i)).fold(S::ZERO, |s, i| s + full[i] * full[i]);
    cx.eq("weighed error", got, pair + full[5] * full[5] / c[2] + rest);
}
fn rejects<S: Sc>(cx: &mut Cx<S>) {
    let s = fixed();
    let x = cx.any("x");
    let p = spread(cx, &[]);
    let f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::new([[S::ONE]]));
    let sensor = Sensor([S::ONE; 3], [S::ZERO; 3], [S::ZERO; 3], [S::ZERO; 3], [S::ZERO; 3], S::ZERO);
    if cx.ask(Prop::Fin(x)) {
        // a noise that leaves no gain
        let mut f = F1::new(state(&s), Matrix::new(p), imu([S::ONE; 4]), Matrix::new([[x]]));
        let seen = dot(&sensor.slope(&s), &mv(&p, &sensor.slope(&s)));
        let r = f.update_with_residual(&sensor, Vector::new([S::ONE]));
        if cx.ask(le(x + seen, S::ZERO)) {
            cx.holds("no gain", matches!(r, Err(EstimationError::NotPositiveDefinite)));
            meq(cx, "spread kept", &rows(&f.covariance()), &p);
            cx.eq("state kept", f.nominal_state().position()[0], s.p[0]);
        } else {
            cx.holds("gain", r.is_ok());
        }
        return;
    }
    let one = v([S::ONE; 3]);
    let at = cx.choose(3);
    let mut bad = [S::ONE; 3];
    bad[at] = x;
    let bad = v(bad);
    let refused = |cx: &mut Cx<S>, l: &str, r: Result<(), EstimationError>, g: &F1<S>| {
        cx.holds(l, matches!(r, Err(EstimationError::NonFinite)));
        meq(cx, &format!("{l}: spread kept"), &rows(&g.covariance()), &p);
        cx.eq(&format!("{l}: state kept"), g.nominal_state().position()[0], s.p[0]);
        cx.eq(&format!("{l}: innovation kept"), g.innovation()[0], S::ZERO);
    };
    let mut g = f;
    let r = g.predict(bad, one, S::HALF);
    refused(cx, "turn rate", r, &g);
    let r = g.predict(one, bad, S::HALF);
    refused(cx, "push", r, &g);
    let r = g.predict(one, one, x);
    refused(cx, "timestep", r, &g);
    let r = g.update(&sensor, Vector::new([x]));
    refused(cx, "reading", r, &g);
    let r = g.update_with_residual(&sensor, Vector::new([x]));
    refused(cx, "residual", r, &g);
    let r = g.update_other(&Pair(S::ONE, S::ONE), Vector::new([S::ONE, x]), Matrix::identity());
    refused(cx, "other residual", r, &g);
    g.set_measurement_noise(Matrix::new([[x]]));
    let r = g.update_with_residual(&sensor, Vector::new([S::ONE]));
    refused(cx, "noise", r, &g);
    let mut q = p;
    q[4][9] = x;
    let mut g = F1::new(state(&s), Matrix::new(q), imu([S::ONE; 4]), Matrix::identity());
    cx.holds("conditioning", matches!(g.condition_covariance(S::ONE), Err(EstimationError::NonFinite)));
    for k in 0..5 {
        let mut y = fixed();
        match k {
            0 => y.p[at] = x,
            1 => y.u[at] = x,
            2 => y.q[at] = x,
            3 => y.g[at] = x,
            _ => y.a[at] = x,
        }
        cx.holds("state is not finite", !NominalState::new(v(y.p), v(y.u), so3(y.q), v(y.g), v(y.a)).is_finite());
    }
    cx.holds("state is finite", state(&s).is_finite());
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C18", errors, "NominalState::plus_error, error_from, at_rest; any state, three axes, any turn below half"),
        h!("C18", difference, "NominalState::error_from then plus_error; any two states, three axes", |x| { x.cfg.abs_fork = true; x.cfg.arc = true; }),
        h!("C18", moves, "NominalState::propagated; any state and readings, three turn axes"),
        h!("C18", transition, "error_state_transition against its blocks and the derivative of propagated over Dual"),
        h!("C18", predict, "ErrorStateKalmanFilter::predict; spread with four free entries"),
        h!("C18", update, "ErrorStateKalmanFilter::update, update_with_residual, Joseph and naive; three sensors"),
        h!("C18", other, "update_other; two readings"),
        h!("C18", inject, "inject_error_and_reset; any turn about two axes"),
        h!("C18", conditioned, "condition_covariance; two free directions", |x| { x.cfg.abs_fork = true; }),
        h!("C18", surprise, "normalized_estimation_error_squared"),
        h!("C18", rejects, "ErrorStateKalmanFilter refusals, NominalState::is_finite"),
    ]
}
