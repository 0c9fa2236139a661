//! C08: SO2, SO3, SE2, SE3.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::scalar::Dual;
use multicalc::spatial::{Quaternion, SE2, SE3, SO2, SO3};

fn rat2<S: Sc>(cx: &mut Cx<S>, n: &str) -> [S; 2] {
    let u = cx.var_hint(n, -3.0, 3.0);
    let d = S::ONE + u * u;
    [(S::ONE - u * u) / d, S::TWO * u / d]
}
fn so2<S: Sc>(a: [S; 2]) -> Option<SO2<S>> {
    SO2::try_from_matrix(Matrix::new([[a[0], -a[1]], [a[1], a[0]]]))
}
fn dual<S: Sc, const N: usize>(v: &[S; N], d: &[S; N]) -> Vector<N, Dual<S>> {
    Vector::new(std::array::from_fn(|i| Dual::new(v[i], d[i])))
}
fn dsplit<S: Sc, const N: usize>(m: Matrix<N, N, Dual<S>>) -> (Rows<S, N, N>, Rows<S, N, N>) {
    let a = m.into_array();
    (a.map(|r| r.map(|x| x.value)), a.map(|r| r.map(|x| x.deriv)))
}
/// An angle below half a turn, whose half has positive sine and cosine.
fn angle<S: Sc>(cx: &mut Cx<S>, n: &str, lo: f64) -> S {
    let t = cx.var_in(n, lo, 3.0);
    let h = t * S::HALF;
    cx.assume(and(vec![lt(S::ZERO, h.sin()), lt(S::ZERO, h.cos())]));
    t
}
fn planar<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (rat2(cx, "a"), rat2(cx, "b"));
    let (Some(p), Some(q)) = (so2(a), so2(b)) else { return cx.holds("a rotation is accepted", false) };
    let (mp, mq) = ([[a[0], -a[1]], [a[1], a[0]]], [[b[0], -b[1]], [b[1], b[0]]]);
    meq(cx, "round trip", &rows(&p.to_matrix()), &mp);
    meq(cx, "product", &rows(&(p * q).to_matrix()), &mm(&mp, &mq));
    meq(cx, "compose", &rows(&p.compose(q).to_matrix()), &mm(&mp, &mq));
    meq(cx, "inverse", &rows(&p.inverse().to_matrix()), &tr(&mp));
    meq(cx, "identity", &rows(&SO2::<S>::identity().to_matrix()), &id());
    meq(cx, "normalized", &rows(&p.normalized().to_matrix()), &mp);
    cx.eq("norm", p.norm(), S::ONE);
    cx.eq("adjoint", p.adjoint(), S::ONE);
    let v: [S; 2] = cx.vars("v");
    cx.eqs("act", p.act(Vector::new(v)).as_slice(), &mv(&mp, &v));
    let (t, u): ([S; 2], [S; 2]) = (cx.vars("t"), cx.vars("u"));
    let (g, k) = (SE2::from_parts(p, Vector::new(t)), SE2::from_parts(q, Vector::new(u)));
    let hom = |m: &Rows<S, 2, 2>, t: &[S; 2]| [[m[0][0], m[0][1], t[0]], [m[1][0], m[1][1], t[1]], [S::ZERO, S::ZERO, S::ONE]];
    let (mg, mk) = (hom(&mp, &t), hom(&mq, &u));
    meq(cx, "SE2 matrix", &rows(&g.to_matrix()), &mg);
    meq(cx, "SE2 product", &rows(&(g * k).to_matrix()), &mm(&mg, &mk));
    meq(cx, "SE2 compose", &rows(&g.compose(k).to_matrix()), &mm(&mg, &mk));
    meq(cx, "SE2 inverse", &mm(&rows(&g.inverse().to_matrix()), &mg), &id());
    meq(cx, "SE2 identity", &rows(&SE2::<S>::identity().to_matrix()), &id());
    let w = mv(&mg, &[v[0], v[1], S::ONE]);
    cx.eqs("SE2 act", g.act(Vector::new(v)).as_slice(), &w[..2]);
    match SE2::try_from_matrix(Matrix::new(mg)) {
        Some(x) => meq(cx, "SE2 round trip", &rows(&x.to_matrix()), &mg),
        None => cx.holds("a pose is accepted", false),
    }
    // T hat(xi) T^-1 = hat(Ad xi)
    let xi: [S; 3] = cx.vars("xi");
    let hat = |x: &[S; 3]| [[S::ZERO, -x[2], x[0]], [x[2], S::ZERO, x[1]], [S::ZERO; 3]];
    meq(cx, "SE2 hat", &rows(&SE2::hat(Vector::new(xi))), &hat(&xi));
    cx.eqs("SE2 vee", SE2::vee(Matrix::new(hat(&xi))).as_slice(), &xi);
    let ad = mv(&rows(&g.adjoint()), &xi);
    meq(cx, "SE2 adjoint", &mm(&mg, &hat(&xi)), &mm(&hat(&ad), &mg));
    meq(cx, "SO2 hat", &rows(&SO2::hat(xi[0])), &[[S::ZERO, -xi[0]], [xi[0], S::ZERO]]);
    cx.eq("SO2 vee", SO2::vee(SO2::hat(xi[0])), xi[0]);
}
fn so3_group<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (ratq(cx, "a"), ratq(cx, "b"));
    let p = SO3::from_quaternion(Quaternion::from_array(a));
    let q = SO3::from_quaternion(Quaternion::from_array(b));
    let (mp, mq) = (rotm(&a), rotm(&b));
    meq(cx, "matrix", &rows(&p.to_matrix()), &mp);
    meq(cx, "adjoint", &rows(&p.adjoint()), &mp);
    let v: [S; 3] = cx.vars("v");
    cx.eqs("act", p.act(Vector::new(v)).as_slice(), &mv(&mp, &v));
    cx.eqs("inverse", p.inverse().act(Vector::new(v)).as_slice(), &mv(&tr(&mp), &v));
    meq(cx, "identity", &rows(&SO3::<S>::identity().to_matrix()), &id());
    meq(cx, "hat", &rows(&SO3::hat(Vector::new(v))), &skew(&v));
    cx.eqs("vee", SO3::vee(Matrix::new(skew(&v))).as_slice(), &v);
    meq(cx, "normalized", &rows(&p.normalized().to_matrix()), &mp);
    let pq = qmul(&a, &b);
    cx.eqs("product", &(p * q).quaternion().as_array(), &pq);
    cx.eqs("compose", &p.compose(q).quaternion().as_array(), &pq);
    let (t, u): ([S; 3], [S; 3]) = (cx.vars("t"), cx.vars("u"));
    let (g, k) = (SE3::from_parts(p, Vector::new(t)), SE3::from_parts(q, Vector::new(u)));
    meq(cx, "SE3 matrix", &rows(&g.to_matrix()), &hom(&mp, &t));
    let gk = g * k;
    cx.eqs("SE3 product rotation", &gk.rotation().quaternion().as_array(), &pq);
    cx.eqs("SE3 product translation", gk.translation().as_slice(), &add(&mv(&mp, &u), &t));
    cx.eqs("SE3 compose translation", g.compose(k).translation().as_slice(), &add(&mv(&mp, &u), &t));
    meq(cx, "SE3 inverse", &mm(&rows(&g.inverse().to_matrix()), &hom(&mp, &t)), &id());
    cx.eqs("SE3 act", g.act(Vector::new(v)).as_slice(), &add(&mv(&mp, &v), &t));
    meq(cx, "SE3 identity", &rows(&SE3::<S>::identity().to_matrix()), &id());
    let _ = mq;
}
fn qmul<S: Sc>(a: &[S; 4], b: &[S; 4]) -> [S; 4] {
    (Quaternion::from_array(*a) * Quaternion::from_array(*b)).as_array()
}
fn hom<S: Sc>(m: &Rows<S, 3, 3>, t: &[S; 3]) -> Rows<S, 4, 4> {
    std::array::from_fn(|i| std::array::from_fn(|j| if i < 3 && j < 3 { m[i][j] } else if i < 3 { t[i] } else if j == 3 { S::ONE } else { S::ZERO }))
}
fn hat6<S: Sc>(x: &[S; 6]) -> Rows<S, 4, 4> {
    let s = skew(&[x[3], x[4], x[5]]);
    std::array::from_fn(|i| std::array::from_fn(|j| if i == 3 { S::ZERO } else if j < 3 { s[i][j] } else { x[i] }))
}
fn se3_adjoint<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let t: [S; 3] = cx.vars("t");
    let g = SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(a)), Vector::new(t));
    let m = hom(&rotm(&a), &t);
    let xi: [S; 6] = cx.vars("xi");
    meq(cx, "hat", &rows(&SE3::hat(Vector::new(xi))), &hat6(&xi));
    cx.eqs("vee", SE3::vee(Matrix::new(hat6(&xi))).as_slice(), &xi);
    let ad = mv(&rows(&g.adjoint()), &xi);
    meq(cx, "adjoint", &mm(&m, &hat6(&xi)), &mm(&hat6(&ad), &m));
    // the force adjoint is the inverse transpose
    let f = rows(&g.force_adjoint());
    meq(cx, "force adjoint", &mm(&tr(&f), &rows(&g.adjoint())), &id());
}
fn se3_matrix<S: Sc>(cx: &mut Cx<S>) {
    let (b, c) = (ratq_about(cx), cx.choose(4) as usize);
    let turn: [[S; 4]; 4] = std::array::from_fn(|k| std::array::from_fn(|i| if i == k { S::ONE } else { S::ZERO }));
    let a = qmul(&turn[c], &b);
    let t: [S; 3] = cx.vars("t");
    let m = hom(&rotm(&a), &t);
    match SE3::try_from_matrix(Matrix::new(m)) {
        Some(x) => meq(cx, "SE3 round trip", &rows(&x.to_matrix()), &m),
        None => cx.holds("a pose is accepted", false),
    }
    match SO3::try_from_matrix(Matrix::new(rotm(&a))) {
        Some(x) => meq(cx, "SO3 round trip", &rows(&x.to_matrix()), &rotm(&a)),
        None => cx.holds("a rotation is accepted", false),
    }
}
/// Rotation by any moderate angle about one of a few axes.
fn ratq_about<S: Sc>(cx: &mut Cx<S>) -> [S; 4] {
    let d = dirs::<S>(cx.choose(3));
    let u = cx.var_in("u", 0.01, 0.3);
    let (k, two) = (S::ONE + u * u, S::TWO);
    let (c, s) = ((S::ONE - u * u) / k, two * u / k);
    [c, d[0] * s, d[1] * s, d[2] * s]
}
/// Anything that is not a rotation is refused: a skewed entry, a reflection, a bad last row, a non-finite entry.
fn refusals<S: Sc>(cx: &mut Cx<S>) {
    let e = cx.var("e");
    cx.assume(lt(S::c(1e-6), e.abs()));
    let r = [[S::rat(2, 3), S::rat(-1, 3), S::rat(2, 3)], [S::rat(2, 3), S::rat(2, 3), S::rat(-1, 3)], [S::rat(-1, 3), S::rat(2, 3), S::rat(2, 3)]];
    let t = [S::rat(1, 2), S::rat(-3, 1), S::rat(7, 4)];
    let what = cx.choose(5);
    let (i, j) = (cx.choose(3) as usize, cx.choose(3) as usize);
    let mut m = hom(&r, &t);
    match what {
        0 => {
            // one entry moved: a column of a different length, unless it comes back on the other side of the circle
            cx.assume(lt(S::c(1e-6), (e + S::TWO * r[i][j]).abs()));
            m[i][j] += e;
        }
        1 => {
            // a reflection: orthogonal with determinant -1
            for k in 0..3 {
                m[k][j] = -m[k][j];
            }
        }
        2 => m[3][j] += e,
        3 => m[3][3] += e,
        _ => {
            let x = cx.any("x");
            if cx.ask(Prop::Fin(x)) {
                return;
            }
            let col = if i == 2 { 3 } else { j };
            m[if i == 0 { 3 } else { i }][col] = x;
        }
    }
    cx.holds("SE3 refused", SE3::try_from_matrix(Matrix::new(m)).is_none());
    if what < 2 {
        let b: Rows<S, 3, 3> = std::array::from_fn(|a| std::array::from_fn(|b| m[a][b]));
        cx.holds("SO3 refused", SO3::try_from_matrix(Matrix::new(b)).is_none());
    }
}
fn refusals2<S: Sc>(cx: &mut Cx<S>) {
    let e = cx.var("e");
    cx.assume(lt(S::c(1e-6), e.abs()));
    let (c, s) = (S::rat(3, 5), S::rat(4, 5));
    let mut m = [[c, -s, S::rat(1, 2)], [s, c, S::rat(-5, 2)], [S::ZERO, S::ZERO, S::ONE]];
    let what = cx.choose(4);
    let (i, j) = (cx.choose(3) as usize, cx.choose(2) as usize);
    match what {
        0 => {
            if i == 2 {
                m[2][j] += e;
            } else {
                cx.assume(lt(S::c(1e-6), (e + S::TWO * m[i][j]).abs()));
                m[i][j] += e;
            }
        }
        1 => {
            m[0][j] = -m[0][j];
            m[1][j] = -m[1][j];
        }
        2 => m[2][2] += e,
        _ => {
            let x = cx.any("x");
            if cx.ask(Prop::Fin(x)) {
                return;
            }
            m[i][if j == 1 { 2 } else { i % 2 }] = x;
        }
    }
    cx.holds("SE2 refused", SE2::try_from_matrix(Matrix::new(m)).is_none());
    if what == 1 || (what == 0 && i < 2) {
        cx.holds("SO2 refused", SO2::try_from_matrix(Matrix::new([[m[0][0], m[0][1]], [m[1][0], m[1][1]]])).is_none());
    }
    let bad = SO3::try_from_quaternion(Quaternion::new(S::ZERO, S::ZERO, S::ZERO, S::ZERO));
    cx.holds("no quaternion", bad.is_none());
    match SO3::try_from_quaternion(Quaternion::new(c * e, S::ZERO, s * e, S::ZERO)) {
        Some(q) => meq(cx, "scaled quaternion", &rows(&q.to_matrix()), &rotm(&[c, S::ZERO, s, S::ZERO])),
        None => cx.holds("scaled quaternion accepted", false),
    }
}
/// d exp(xi + eps eta) exp(xi)^-1 = hat(J_l eta), and the inverse and right-handed versions.
fn se2_exp<S: Sc>(cx: &mut Cx<S>) {
    let w = angle(cx, "w", 0.01) * if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let xi = [cx.var("x"), cx.var("y"), w];
    let eta: [S; 3] = cx.vars("n");
    let (m, d) = dsplit(SE2::exp(dual(&xi, &eta)).to_matrix());
    meq(cx, "value", &m, &rows(&SE2::exp(Vector::new(xi)).to_matrix()));
    let (jl, jr) = (rows(&SE2::left_jacobian(Vector::new(xi))), rows(&SE2::right_jacobian(Vector::new(xi))));
    let hat = |x: &[S; 3]| [[S::ZERO, -x[2], x[0]], [x[2], S::ZERO, x[1]], [S::ZERO; 3]];
    meq(cx, "left", &d, &mm(&hat(&mv(&jl, &eta)), &m));
    meq(cx, "right", &d, &mm(&m, &hat(&mv(&jr, &eta))));
    meq(cx, "left inverse", &mm(&jl, &rows(&SE2::left_jacobian_inverse(Vector::new(xi)))), &id());
    meq(cx, "right inverse", &mm(&jr, &rows(&SE2::right_jacobian_inverse(Vector::new(xi)))), &id());
    // along itself: the one-parameter subgroup
    let (_, d) = dsplit(SE2::exp(dual(&xi, &xi)).to_matrix());
    meq(cx, "subgroup", &d, &mm(&hat(&xi), &m));
    meq(cx, "exp of minus", &mm(&rows(&SE2::exp(Vector::new(xi.map(|x| -x))).to_matrix()), &m), &id());
    let (m, d) = dsplit(SO2::exp(Dual::new(w, eta[0])).to_matrix());
    meq(cx, "SO2", &d, &mm(&rows(&SO2::hat(eta[0])), &m));
    cx.eqs("SO2 jacobians", &[SO2::left_jacobian(w), SO2::right_jacobian(w), SO2::left_jacobian_inverse(w), SO2::right_jacobian_inverse(w)], &[S::ONE; 4]);
}
fn so3_exp<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let phi = scale(&d, angle(cx, "t", 0.06));
    let eta: [S; 3] = cx.vars("n");
    let (m, dm) = dsplit(SO3::exp(dual(&phi, &eta)).to_matrix());
    let v = Vector::new(phi);
    let (jl, jr) = (rows(&SO3::left_jacobian(v)), rows(&SO3::right_jacobian(v)));
    meq(cx, "left", &dm, &mm(&skew(&mv(&jl, &eta)), &m));
    meq(cx, "right", &dm, &mm(&m, &skew(&mv(&jr, &eta))));
    meq(cx, "left inverse", &mm(&jl, &rows(&SO3::left_jacobian_inverse(v))), &id());
    meq(cx, "right inverse", &mm(&jr, &rows(&SO3::right_jacobian_inverse(v))), &id());
    let (_, dm) = dsplit(SO3::exp(dual(&phi, &phi)).to_matrix());
    meq(cx, "subgroup", &dm, &mm(&skew(&phi), &m));
}
fn se3_exp<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let phi = scale(&d, angle(cx, "t", 0.06));
    let rho: [S; 3] = cx.vars("r");
    let xi = [rho[0], rho[1], rho[2], phi[0], phi[1], phi[2]];
    let mut eta = [S::ZERO; 6];
    eta[cx.choose(6) as usize] = S::ONE;
    let (m, dm) = dsplit(SE3::exp(dual(&xi, &eta)).to_matrix());
    let v = Vector::new(xi);
    let (jl, jr) = (rows(&SE3::left_jacobian(v)), rows(&SE3::right_jacobian(v)));
    meq(cx, "left", &dm, &mm(&hat6(&mv(&jl, &eta)), &m));
    meq(cx, "right", &dm, &mm(&m, &hat6(&mv(&jr, &eta))));
    let i = mv(&rows(&SE3::left_jacobian_inverse(v)), &mv(&jl, &eta));
    cx.eqs("left inverse", &i, &eta);
    let i = mv(&rows(&SE3::right_jacobian_inverse(v)), &mv(&jr, &eta));
    cx.eqs("right inverse", &i, &eta);
    let (_, dm) = dsplit(SE3::exp(dual(&xi, &xi)).to_matrix());
    meq(cx, "subgroup", &dm, &mm(&hat6(&xi), &m));
}
/// Small angles: the series of exp and of the Jacobians, truncated where the rest is below the tolerance.
fn small<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let t = cx.var_open("t", -0.05, 0.05);
    let phi = scale(&d, t);
    let mut r = [S::ZERO; 3];
    r[cx.choose(3) as usize] = S::ONE;
    let xi = [r[0], r[1], r[2], phi[0], phi[1], phi[2]];
    let v = Vector::new(xi);
    // ad(xi) for [v; w]
    let (p, w) = (skew(&r), skew(&phi));
    let ad: Rows<S, 6, 6> = std::array::from_fn(|i| {
        std::array::from_fn(|j| match (i < 3, j < 3) {
            (true, true) => w[i][j],
            (true, false) => p[i][j - 3],
            (false, true) => S::ZERO,
            (false, false) => w[i - 3][j - 3],
        })
    });
    // sum ad^k / (k+1)!
    let (mut term, mut jl): (Rows<S, 6, 6>, Rows<S, 6, 6>) = (id(), id());
    for k in 1..8 {
        term = mm(&term, &ad).map(|r| r.map(|x| x * S::rat(1, k + 1)));
        jl = std::array::from_fn(|i| std::array::from_fn(|j| jl[i][j] + term[i][j]));
    }
    let small = cx.ask(lt(t.abs(), S::c(6e-3)));
    if !small && !cx.thorough() {
        return;
    }
    mnear(cx, "left", &rows(&SE3::left_jacobian(v)), &jl, S::c(1e-9));
    mnear(cx, "left times its inverse", &mm(&rows(&SE3::left_jacobian_inverse(v)), &jl), &id(), S::c(1e-9));
    // exp
    let hx = hat6(&xi);
    let (mut term, mut e): (Rows<S, 4, 4>, Rows<S, 4, 4>) = (id(), id());
    for k in 1..8 {
        term = mm(&term, &hx).map(|r| r.map(|x| x * S::rat(1, k)));
        e = std::array::from_fn(|i| std::array::from_fn(|j| e[i][j] + term[i][j]));
    }
    let tiny = cx.ask(lt(t.abs(), S::c(1e-15)));
    if tiny {
        mnear(cx, "exp", &rows(&SE3::exp(v).to_matrix()), &e, S::c(1e-9));
    }
}
fn small2<S: Sc>(cx: &mut Cx<S>) {
    let w = cx.var_open("w", -1e-15, 1e-15);
    let r = if cx.choose(2) == 0 { [S::ONE, S::ZERO] } else { [S::ZERO, S::ONE] };
    let v = Vector::new([r[0], r[1], w]);
    let h = rows(&SE2::hat(v));
    let h2 = mm(&h, &h);
    let near: Rows<S, 3, 3> = std::array::from_fn(|i| std::array::from_fn(|j| (if i == j { S::ONE } else { S::ZERO }) + h[i][j] + h2[i][j] * S::HALF));
    // |w| < 1e-15: cos w = 1 and sin w = w to 1e-29, which the solver is told
    let (c, s) = (w.cos(), w.sin());
    cx.assume(and(vec![le((c - S::ONE).abs(), S::c(1e-20)), le((s - w).abs(), S::c(1e-20))]));
    mnear(cx, "exp", &rows(&SE2::exp(v).to_matrix()), &near, S::c(1e-12));
    // ad(xi) = [[0,-w,y],[w,0,-x],[0,0,0]]
    let ad = [[S::ZERO, -w, r[1]], [w, S::ZERO, -r[0]], [S::ZERO; 3]];
    let ad2 = mm(&ad, &ad);
    let j: Rows<S, 3, 3> = std::array::from_fn(|i| std::array::from_fn(|k| (if i == k { S::ONE } else { S::ZERO }) + ad[i][k] * S::HALF + ad2[i][k] * S::rat(1, 6)));
    mnear(cx, "left", &rows(&SE2::left_jacobian(v)), &j, S::c(1e-12));
    mnear(cx, "left times its inverse", &mm(&rows(&SE2::left_jacobian_inverse(v)), &j), &id(), S::c(1e-12));
    mnear(cx, "right times its inverse", &mm(&rows(&SE2::right_jacobian_inverse(v)), &rows(&SE2::right_jacobian(v))), &id(), S::c(1e-12));
}
/// Angles from ordinary down to rounding, each a machine number.
const ANGLES: [f64; 14] = [0.4, 0.07, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11, 1e-13, 7e-15, 1e-17];
fn some_angle<S: Sc>(cx: &mut Cx<S>) -> S {
    let t = S::c(ANGLES[cx.choose(14)]);
    if cx.choose(2) == 0 { t } else { -t }
}
/// sum of m^k / (k + shift)!
fn series<S: Sc, const N: usize>(m: &Rows<S, N, N>, shift: i64) -> Rows<S, N, N> {
    let (mut term, mut sum): (Rows<S, N, N>, Rows<S, N, N>) = (id(), id());
    for k in 1..12 {
        term = mm(&term, m).map(|r| r.map(|x| x * S::rat(1, k + shift)));
        sum = std::array::from_fn(|i| std::array::from_fn(|j| sum[i][j] + term[i][j]));
    }
    sum
}
/// In the machine's own arithmetic on the angle, the maps keep their digits however small the angle is.
fn rounded2<S: Sc>(cx: &mut Cx<S>) {
    let w = some_angle(cx);
    let r = [cx.var_in("x", -10.0, 10.0), cx.var_in("y", -10.0, 10.0)];
    let v = Vector::new([r[0], r[1], w]);
    let g = SE2::exp(v);
    mnear(cx, "exp", &rows(&g.to_matrix()), &series(&rows(&SE2::hat(v)), 0), S::c(1e-10));
    let ad = |w: S, r: &[S; 2]| [[S::ZERO, -w, r[1]], [w, S::ZERO, -r[0]], [S::ZERO; 3]];
    let (j, k) = (series(&ad(w, &r), 1), series(&ad(-w, &r.map(|x| -x)), 1));
    mnear(cx, "left", &rows(&SE2::left_jacobian(v)), &j, S::c(1e-10));
    mnear(cx, "right", &rows(&SE2::right_jacobian(v)), &k, S::c(1e-10));
    // entries of the product above the diagonal: exactly linear in the translation
    mnear(cx, "left inverse", &mm(&rows(&SE2::left_jacobian_inverse(v)), &j), &id(), S::c(1e-9));
    mnear(cx, "right inverse", &mm(&rows(&SE2::right_jacobian_inverse(v)), &k), &id(), S::c(1e-9));
    let b = g.log();
    for i in 0..3 {
        cx.near("log of exp", b.as_slice()[i], v.as_slice()[i], 1e-10);
    }
}
fn rounded3<S: Sc>(cx: &mut Cx<S>) {
    let phi = scale(&dirs::<S>(cx.choose(3)), some_angle(cx));
    let r: [S; 3] = ["x", "y", "z"].map(|n| cx.var_in(n, -10.0, 10.0));
    let xi = [r[0], r[1], r[2], phi[0], phi[1], phi[2]];
    let v = Vector::new(xi);
    let g = SE3::exp(v);
    mnear(cx, "exp", &rows(&g.to_matrix()), &series(&hat6(&xi), 0), S::c(1e-10));
    let ad = |p: &Rows<S, 3, 3>, w: &Rows<S, 3, 3>| -> Rows<S, 6, 6> {
        std::array::from_fn(|i| {
            std::array::from_fn(|j| match (i < 3, j < 3) {
                (true, true) => w[i][j],
                (true, false) => p[i][j - 3],
                (false, true) => S::ZERO,
                (false, false) => w[i - 3][j - 3],
            })
        })
    };
    let j = series(&ad(&skew(&r), &skew(&phi)), 1);
    mnear(cx, "left", &rows(&SE3::left_jacobian(v)), &j, S::c(1e-10));
    mnear(cx, "left inverse", &mm(&rows(&SE3::left_jacobian_inverse(v)), &j), &id(), S::c(1e-9));
    let (m, k) = (skew(&phi), Vector::new(phi));
    mnear(cx, "SO3 left", &rows(&SO3::left_jacobian(k)), &series(&m, 1), S::c(1e-10));
    mnear(cx, "SO3 right", &rows(&SO3::right_jacobian(k)), &series(&tr(&m), 1), S::c(1e-10));
    mnear(cx, "SO3 left inverse", &mm(&rows(&SO3::left_jacobian_inverse(k)), &series(&m, 1)), &id(), S::c(1e-10));
    let b = g.log();
    for i in 0..6 {
        cx.near("log of exp", b.as_slice()[i], xi[i], 1e-10);
    }
    let l = SO3::exp(k).log();
    for i in 0..3 {
        cx.near("SO3 log of exp", l.as_slice()[i], phi[i], 1e-15);
    }
}
fn planar_log<S: Sc>(cx: &mut Cx<S>) {
    // tangent of half the angle
    let u = cx.var_in("u", 0.01, 50.0) * if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let d = S::ONE + u * u;
    let (c, s) = ((S::ONE - u * u) / d, S::TWO * u / d);
    cx.assume(ne(c, S::ZERO));
    let Some(p) = so2([c, s]) else { return cx.holds("accepted", false) };
    meq(cx, "SO2 exp of log", &rows(&SO2::exp(p.log()).to_matrix()), &rows(&p.to_matrix()));
    cx.check("principal angle", and(vec![lt(-S::PI, p.log()), le(p.log(), S::PI)]));
    let t: [S; 2] = cx.vars("t");
    let g = SE2::from_parts(p, Vector::new(t));
    let l = g.log();
    cx.eq("angle", l[2], p.log());
    meq(cx, "SE2 exp of log", &rows(&SE2::exp(l).to_matrix()), &rows(&g.to_matrix()));
    let o = SE2::from_parts(SO2::identity(), Vector::new([cx.var("o0"), cx.var("o1")]));
    meq(cx, "SE2 start", &rows(&o.interpolate(g, S::ZERO).to_matrix()), &rows(&o.to_matrix()));
    meq(cx, "SE2 end", &rows(&o.interpolate(g, S::ONE).to_matrix()), &rows(&g.to_matrix()));
    let k = cx.var_in("k", 0.01, 1.0);
    let q = SO2::identity().interpolate(p, k);
    meq(cx, "SO2 in proportion", &rows(&q.to_matrix()), &rows(&SO2::exp(p.log() * k).to_matrix()));
}
fn se3_log<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let u = cx.var_in("u", 0.1, 20.0);
    let k = S::ONE + u * u;
    let (c, s) = (S::ONE / k.sqrt(), u / k.sqrt());
    let a = [c, d[0] * s, d[1] * s, d[2] * s];
    let p = SO3::from_quaternion(Quaternion::from_array(a));
    meq(cx, "SO3 exp of log", &rows(&SO3::exp(p.log()).to_matrix()), &rows(&p.to_matrix()));
    let t: [S; 3] = cx.vars("t");
    let g = SE3::from_parts(p, Vector::new(t));
    let l = g.log();
    meq(cx, "SE3 exp of log", &rows(&SE3::exp(l).to_matrix()), &rows(&g.to_matrix()));
    cx.eqs("rotation part", &l.as_slice()[3..], p.log().as_slice());
    let o = SE3::from_parts(SO3::identity(), Vector::new(cx.vars("o")));
    meq(cx, "SE3 start", &rows(&o.interpolate(g, S::ZERO).to_matrix()), &rows(&o.to_matrix()));
    meq(cx, "SE3 end", &rows(&o.interpolate(g, S::ONE).to_matrix()), &rows(&g.to_matrix()));
}
fn so3_interpolate<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let u = cx.var_in("u", 0.1, 0.8);
    let k = S::ONE + u * u;
    let (c, s) = ((S::ONE - u * u) / k, S::TWO * u / k);
    let b = qmul(&[S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2), S::rat(1, 2)], &[c, d[0] * s, d[1] * s, d[2] * s]);
    let p = SO3::from_quaternion(Quaternion::from_array([S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2), S::rat(1, 2)]));
    let q = SO3::from_quaternion(Quaternion::from_array(b));
    let t = cx.var_in("t", 0.0, 1.0);
    let m = p.interpolate(q, t);
    // p^-1 m is a turn about d by t times the whole angle
    let r = p.inverse().compose(m).quaternion().as_array();
    let th = c.acos();
    cx.eq("angle", r[0], (t * th).cos());
    for i in 0..3 {
        cx.eq("axis", r[i + 1], d[i] * (t * th).sin());
    }
}
fn two_pairs<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq_about(cx);
    let r = rotm(&a);
    let (k, l, m, n) = (cx.var_in("k", 0.1, 5.0), cx.var_in("l", 0.1, 5.0), cx.var_in("m", 0.1, 5.0), cx.var_in("n", 0.1, 5.0));
    let (e1, e2) = ([S::rat(2, 3), S::rat(-1, 3), S::rat(2, 3)], [S::rat(1, 3), S::rat(-2, 3), S::rat(-2, 3)]);
    // the secondary pair agrees only in the plane: x e1 + e2 against y e1 + e2
    let (x, y) = (cx.var_in("x", -2.0, 2.0), cx.var_in("y", -2.0, 2.0));
    let sec = |b: S| add(&scale(&e1, b), &e2);
    let (o1, o2) = (mv(&tr(&r), &e1), mv(&tr(&r), &sec(x)));
    match SO3::from_two_direction_pairs(Vector::new(scale(&o1, k)), Vector::new(scale(&o2, l)), Vector::new(scale(&e1, m)), Vector::new(scale(&sec(y), n))) {
        Some(q) => meq(cx, "the rotation", &rows(&q.to_matrix()), &r),
        None => cx.holds("found", false),
    }
}
fn two_pairs_refused<S: Sc>(cx: &mut Cx<S>) {
    let v: [S; 3] = std::array::from_fn(|i| cx.var_in(&format!("v{i}"), 0.5, 3.0));
    let w = [S::rat(1, 3), S::rat(-2, 3), S::rat(-2, 3)];
    let k = cx.var_in("k", -3.0, 3.0);
    cx.assume(lt(S::c(0.1), sub(&cross(&v, &w), &[S::ZERO; 3]).iter().fold(S::ZERO, |s, x| s + *x * *x)));
    let x = cx.any("x");
    let mut a = [v, w, v, w];
    match cx.choose(3) {
        0 => a[1] = scale(&v, k),
        1 => a[3] = scale(&v, k),
        _ => {
            if cx.ask(Prop::Fin(x)) {
                return;
            }
            a[cx.choose(4) as usize][cx.choose(3) as usize] = x;
        }
    }
    let [a, b, c, d] = a.map(Vector::new);
    cx.holds("refused", SO3::from_two_direction_pairs(a, b, c, d).is_none());
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C08", planar, "SO2, SE2 group operations, hat, vee, adjoint, matrices; all poses"),
        h!("C08", so3_group, "SO3, SE3 group operations, hat, vee, matrices; all poses"),
        h!("C08", se3_adjoint, "SE3 adjoint, force_adjoint, hat, vee; all poses and twists"),
        h!("C08", se3_matrix, "SO3, SE3 try_from_matrix; all four extraction branches"),
        h!("C08", refusals, "SO3, SE3 try_from_matrix on non-rotations; any perturbation of an entry above 1e-6"),
        h!("C08", refusals2, "SO2, SE2 try_from_matrix on non-rotations, SO3::try_from_quaternion"),
        h!("C08", se2_exp, "SE2, SO2 exp over Dual, left and right Jacobians and inverses; any angle up to 3, all translations"),
        h!("C08", so3_exp, "SO3 exp over Dual, Jacobians and inverses; three directions, any angle in 0.06 to 3"),
        h!("C08", se3_exp, "SE3 exp over Dual, Jacobians and inverses; three directions, any angle in 0.06 to 3, all translations"),
        h!("C08", small, "SE3, SO3 exp and Jacobians near zero against the power series; 6e-3 quick, 0.05 thorough"),
        h!("C08", rounded2, "SE2 exp, log and Jacobians in double precision at fourteen angles of either sign from 0.4 to 1e-17; translations to 10", |x| { x.cfg.const_f64 = true; }),
        h!("C08", rounded3, "SE3, SO3 exp, log and Jacobians in double precision at fourteen angles of either sign from 0.4 to 1e-17, three directions; translations to 10", |x| { x.cfg.const_f64 = true; }),
        h!("C08", small2, "SE2 exp and Jacobians near zero against the power series"),
        h!("C08", planar_log, "SO2, SE2 log and interpolate; any angle but an exact half turn", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C08", se3_log, "SO3, SE3 log and interpolate endpoints; three directions, any angle", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C08", so3_interpolate, "SO3 interpolate; three directions, any angle and amount", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C08", two_pairs, "SO3::from_two_direction_pairs; consistent pairs, any lengths"),
        h!("C08", two_pairs_refused, "SO3::from_two_direction_pairs; parallel, zero and non-finite pairs"),
    ]
}
