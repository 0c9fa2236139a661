//! C07: quaternions.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::Quaternion;

type Q4<S> = [S; 4];
fn qm<S: Sc>(a: &Q4<S>, b: &Q4<S>) -> Q4<S> {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn algebra<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, c): (Q4<S>, Q4<S>, Q4<S>) = (cx.vars("a"), cx.vars("b"), cx.vars("c"));
    let k = cx.var("k");
    let q = Quaternion::from_array;
    let (p, r, t) = (q(a), q(b), q(c));
    cx.eqs("product", &(p * r).as_array(), &qm(&a, &b));
    cx.eqs("associative", &((p * r) * t).as_array(), &(p * (r * t)).as_array());
    cx.eqs("distributive", &(p * (r + t)).as_array(), &(p * r + p * t).as_array());
    cx.eqs("sum", &(p + r).as_array(), &add(&a, &b));
    cx.eqs("difference", &(p - r).as_array(), &sub(&a, &b));
    cx.eqs("negation", &(-p).as_array(), &a.map(|x| -x));
    cx.eqs("scaled", &(p * k).as_array(), &a.map(|x| x * k));
    cx.eqs("conjugate", &p.conjugate().as_array(), &[a[0], -a[1], -a[2], -a[3]]);
    cx.eqs("conjugate of a product", &(p * r).conjugate().as_array(), &(r.conjugate() * p.conjugate()).as_array());
    cx.eq("norm squared", p.norm_squared(), dot(&a, &a));
    cx.eq("norm multiplicative", (p * r).norm_squared(), p.norm_squared() * r.norm_squared());
    cx.eq("dot", p.dot(r), dot(&a, &b));
    let n = p.norm();
    cx.eq("norm", n * n, dot(&a, &a));
    cx.check("norm sign", le(S::ZERO, n));
    cx.eqs("identity", &(p * Quaternion::identity()).as_array(), &a);
    cx.eqs("parts", &[p.w(), p.vec()[0], p.vec()[1], p.vec()[2]], &[a[0], p.x(), p.y(), p.z()]);
    cx.eqs("from parts", &Quaternion::from_scalar_vector(a[0], Vector::new([a[1], a[2], a[3]])).as_array(), &Quaternion::new(a[0], a[1], a[2], a[3]).as_array());
    if cx.ask(lt(S::c(0.01), dot(&a, &a))) {
        cx.eqs("inverse", &(p * p.inverse()).as_array(), &Quaternion::identity().as_array());
        cx.eqs("inverse left", &(p.inverse() * p).as_array(), &Quaternion::identity().as_array());
        let u = p.normalized();
        cx.eq("unit", u.norm_squared(), S::ONE);
        cx.eqs("direction", &(u * n).as_array(), &a);
        match p.try_normalized() {
            Some(v) => cx.eqs("try", &v.as_array(), &u.as_array()),
            None => cx.holds("nonzero normalizes", false),
        }
    } else if cx.ask(eq(dot(&a, &a), S::ZERO)) {
        cx.holds("zero does not normalize", p.try_normalized().is_none());
    }
}
fn rejects<S: Sc>(cx: &mut Cx<S>) {
    let mut a: Q4<S> = cx.vars("a");
    let k = cx.choose(4) as usize;
    let x = cx.any("x");
    a[k] = x;
    if !cx.ask(Prop::Fin(x)) {
        cx.holds("non-finite does not normalize", Quaternion::from_array(a).try_normalized().is_none());
    }
}
fn matrices<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let q = Quaternion::from_array(a);
    let m = rows(&q.to_rotation_matrix());
    meq(cx, "rotation matrix", &m, &rotm(&a));
    meq(cx, "orthogonal", &mm(&m, &tr(&m)), &id());
    cx.eq("proper", det(&vv(&m, 3)), S::ONE);
    let v: [S; 3] = cx.vars("v");
    cx.eqs("transform_point", q.transform_point(Vector::new(v)).as_slice(), &mv(&m, &v));
    cx.eqs("inverse_transform_point", q.inverse_transform_point(Vector::new(v)).as_slice(), &mv(&tr(&m), &v));
}
fn matrix_product<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (ratq(cx, "a"), ratq(cx, "b"));
    let p = Quaternion::from_array(a) * Quaternion::from_array(b);
    meq(cx, "product of rotations", &rows(&p.to_rotation_matrix()), &mm(&rotm(&a), &rotm(&b)));
}
/// All four extraction branches: the same rotation comes back.
fn from_matrix<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4) as usize;
    let b = ratq(cx, "a");
    // a quarter turn about each axis moves the large component around
    let turn: [Q4<S>; 4] = [
        [S::ONE, S::ZERO, S::ZERO, S::ZERO],
        [S::ZERO, S::ONE, S::ZERO, S::ZERO],
        [S::ZERO, S::ZERO, S::ONE, S::ZERO],
        [S::ZERO, S::ZERO, S::ZERO, S::ONE],
    ];
    for i in 1..4 {
        cx.assume(lt(b[i].abs(), S::rat(1, 2)));
    }
    cx.assume(lt(S::rat(1, 10), b[0]));
    let a = qm(&turn[k], &b);
    let Some(q) = Quaternion::try_from_rotation_matrix(Matrix::new(rotm(&a))) else { return cx.holds("extracted", false) };
    let q = q.as_array();
    let d = dot(&q, &a);
    cx.eq("the same rotation", d * d, S::ONE);
    cx.eq("unit", dot(&q, &q), S::ONE);
}
fn axis_angle<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(4));
    let (t, n) = (cx.var_in("t", 0.01, 3.0), cx.var_in("n", 0.1, 10.0));
    let axis = Vector::new(scale(&d, n));
    let q = Quaternion::from_axis_angle(axis, t);
    let (c, s) = ((t * S::HALF).cos(), (t * S::HALF).sin());
    cx.eqs("from_axis_angle", &q.as_array(), &[c, d[0] * s, d[1] * s, d[2] * s]);
    let r = Quaternion::from_scaled_axis(Vector::new(scale(&d, t)));
    cx.eqs("from_scaled_axis", &r.as_array(), &q.as_array());
    cx.eqs("negative angle", &Quaternion::from_axis_angle(axis, -t).as_array(), &q.conjugate().as_array());
    cx.eqs("no axis", &Quaternion::from_axis_angle(Vector::zeros(), t).as_array(), &Quaternion::identity().as_array());
    cx.eqs("no rotation", &Quaternion::from_scaled_axis(Vector::zeros()).as_array(), &Quaternion::<S>::identity().as_array());
}
fn to_axis_angle<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let q = Quaternion::from_array(a);
    let v = [a[1], a[2], a[3]];
    cx.assume(and(vec![lt(S::c(1e-4), dot(&v, &v)), ne(a[0], S::ZERO)]));
    let (axis, angle) = q.to_axis_angle();
    let ax = axis.into_array();
    cx.eq("unit axis", dot(&ax, &ax), S::ONE);
    cx.check("angle up to a half turn", and(vec![le(S::ZERO, angle), le(angle, S::PI)]));
    let sg = if cx.ask(lt(a[0], S::ZERO)) { -S::ONE } else { S::ONE };
    let (c, s) = ((angle * S::HALF).cos(), (angle * S::HALF).sin());
    cx.eq("cosine of half the angle", c, a[0] * sg);
    for i in 0..3 {
        cx.eq("sine of half the angle", ax[i] * s, v[i] * sg);
    }
    let w = q.to_scaled_axis().into_array();
    cx.eqs("scaled axis", &w, &scale(&ax, angle));
}
fn scaled_axis_back<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(4));
    // the half angle has tangent u: up to a half turn either way
    let u = cx.var_in("u", 0.01, 100.0);
    let k = S::ONE + u * u;
    let (c, s) = (S::ONE / k.sqrt(), u / k.sqrt());
    let sg = if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let a = [c, d[0] * s, d[1] * s, d[2] * s].map(|x| x * sg);
    let w = Quaternion::from_array(a).to_scaled_axis();
    cx.eqs("the rotation vector gives the rotation", &Quaternion::from_scaled_axis(w).as_array(), &a.map(|x| x * sg));
    let (ax, t) = Quaternion::from_array(a).to_axis_angle();
    cx.eqs("the axis", ax.as_slice(), &d);
    cx.eqs("the axis and angle give the rotation", &Quaternion::from_axis_angle(ax, t).as_array(), &a.map(|x| x * sg));
}
fn exp_log<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let (t, w) = (cx.var_in("t", 0.01, 3.0), cx.var_in("w", -2.0, 2.0));
    let v = scale(&d, t);
    let e = Quaternion::new(w, v[0], v[1], v[2]).exp();
    let k = w.exp();
    cx.eqs("exp", &e.as_array(), &[k * t.cos(), k * t.sin() * d[0], k * t.sin() * d[1], k * t.sin() * d[2]]);
    cx.eqs("exp of a scalar", &Quaternion::new(w, S::ZERO, S::ZERO, S::ZERO).exp().as_array(), &[k, S::ZERO, S::ZERO, S::ZERO]);
}
fn log_exp<S: Sc>(cx: &mut Cx<S>) {
    let a: Q4<S> = cx.vars("a");
    let v = [a[1], a[2], a[3]];
    for x in a {
        cx.assume(lt(x.abs(), S::c(10.0)));
    }
    cx.assume(and(vec![lt(S::c(0.01), dot(&v, &v)), ne(a[0], S::ZERO)]));
    let l = Quaternion::from_array(a).log();
    cx.eqs("exp of log", &l.exp().as_array(), &a);
    // the vector part is parallel, with an angle up to a half turn
    let lv = [l.x(), l.y(), l.z()];
    cx.check("same side", le(S::ZERO, dot(&lv, &v)));
}
/// The same with next to nothing off the real axis, on either side of zero.
fn log_short<S: Sc>(cx: &mut Cx<S>) {
    let back = cx.choose(2) == 1;
    let t = cx.var_open("t", 1e-17, if back { 1e-12 } else { 1e-15 });
    let w = if back { cx.var_in("w", -4.0, -0.5) } else { cx.var_in("w", 0.5, 4.0) };
    let u: [S; 3] = [[S::ZERO, S::ONE, S::ZERO], [S::rat(2, 3), S::rat(1, 3), -S::rat(2, 3)]][cx.choose(2) as usize];
    let a = [w, u[0] * t, u[1] * t, u[2] * t];
    let l = Quaternion::from_array(a).log();
    if back {
        cx.eqs("exp of log", &l.exp().as_array(), &a);
    } else {
        let n = (w * w + t * t).sqrt();
        cx.eq("length", l.w(), n.log());
        for (i, x) in [l.x(), l.y(), l.z()].into_iter().enumerate() {
            cx.near("turn", x * n, u[i] * t, 1e-20);
        }
    }
}
fn euler<S: Sc>(cx: &mut Cx<S>) {
    let (r, p, y) = (cx.var("r"), cx.var("p"), cx.var("y"));
    let q = Quaternion::from_euler_zyx(r, p, y);
    let z = S::ZERO;
    let rx = [[S::ONE, z, z], [z, r.cos(), -r.sin()], [z, r.sin(), r.cos()]];
    let ry = [[p.cos(), z, p.sin()], [z, S::ONE, z], [-p.sin(), z, p.cos()]];
    let rz = [[y.cos(), -y.sin(), z], [y.sin(), y.cos(), z], [z, z, S::ONE]];
    cx.eq("unit", q.norm_squared(), S::ONE);
    meq(cx, "yaw then pitch then roll", &rows(&q.to_rotation_matrix()), &mm(&mm(&rz, &ry), &rx));
}
fn to_euler<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let q = Quaternion::from_array(a);
    let m = rotm(&a);
    let sp = -m[2][0];
    cx.assume(and(vec![lt(sp.abs(), S::c(0.999)), ne(sp, S::ZERO), ne(m[2][1], S::ZERO), ne(m[2][2], S::ZERO), ne(m[1][0], S::ZERO), ne(m[0][0], S::ZERO)]));
    let (r, p, y) = q.to_euler_zyx();
    cx.eq("pitch", p.sin(), sp);
    cx.check("pitch within a quarter turn", lt(S::ZERO, p.cos()));
    let cp = p.cos();
    cx.eq("roll sine", r.sin() * cp, m[2][1]);
    cx.eq("roll cosine", r.cos() * cp, m[2][2]);
    cx.eq("yaw sine", y.sin() * cp, m[1][0]);
    cx.eq("yaw cosine", y.cos() * cp, m[0][0]);
}
fn gimbal<S: Sc>(cx: &mut Cx<S>) {
    // pitch exactly up or down: the rotation still comes back
    let y = cx.var_in("y", -3.0, 3.0);
    let h = y * S::HALF;
    cx.assume(and(vec![ne(h.cos(), S::ZERO), ne(h.sin(), S::ZERO), ne(y, S::ZERO)]));
    let down = cx.choose(2) == 1;
    let s = S::HALF.sqrt();
    // Rz(y) Ry(+-pi/2)
    let q = Quaternion::new(h.cos(), S::ZERO, S::ZERO, h.sin()) * Quaternion::new(s, S::ZERO, if down { -s } else { s }, S::ZERO);
    let (r, p, w) = q.to_euler_zyx();
    cx.eq("roll fixed", r, S::ZERO);
    cx.eq("pitch at the pole", p, if down { -S::PI * S::HALF } else { S::PI * S::HALF });
    meq(cx, "the same rotation", &rows(&Quaternion::from_euler_zyx(r, p, w).to_rotation_matrix()), &rotm(&q.as_array()));
}
fn two_vectors<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let f = [S::rat(2, 5), S::rat(-1, 3), cx.var_in("f2", -1.0, 1.0)];
    let (f, t, k) = if cx.choose(2) == 0 {
        let n = cx.var_in("n", 0.1, 10.0);
        (f, d, n)
    } else {
        let n = cx.var_in("n", 0.1, 10.0);
        (d, f, n)
    };
    let (fl, tl) = (dot(&f, &f).sqrt(), dot(&t, &t).sqrt());
    // not opposite
    cx.assume(lt(S::c(-0.9) * fl * tl, dot(&f, &t)));
    let q = Quaternion::from_two_vectors(Vector::new(scale(&f, k)), Vector::new(t)).as_array();
    cx.eq("unit", dot(&q, &q), S::ONE);
    let r = mv(&rotm(&q), &f);
    for i in 0..3 {
        cx.eq("turns one onto the other", r[i] * tl, t[i] * fl);
    }
    // least rotation: the axis is perpendicular to both, the scalar part not negative
    let v = [q[1], q[2], q[3]];
    cx.eq("axis perpendicular to the first", dot(&v, &f), S::ZERO);
    cx.eq("axis perpendicular to the second", dot(&v, &t), S::ZERO);
    cx.check("short way", le(S::ZERO, q[0]));
}
fn two_opposite<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(6));
    let (n, m) = (cx.var_in("n", 0.1, 10.0), cx.var_in("m", 0.1, 10.0));
    let q = Quaternion::from_two_vectors(Vector::new(scale(&d, n)), Vector::new(scale(&d, -m))).as_array();
    cx.eq("unit", dot(&q, &q), S::ONE);
    cx.eqs("turned around", &mv(&rotm(&q), &d), &d.map(|x| -x));
    let i = Quaternion::from_two_vectors(Vector::zeros(), Vector::new(scale(&d, m))).as_array();
    cx.eqs("no direction", &i, &Quaternion::identity().as_array());
    let x = cx.any("x");
    if !cx.ask(Prop::Fin(x)) {
        let i = Quaternion::from_two_vectors(Vector::new([n, x, m]), Vector::new(d)).as_array();
        cx.eqs("non-finite direction", &i, &Quaternion::identity().as_array());
    }
}
fn angle_between<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let b: Q4<S> = [S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2), S::rat(1, 2)];
    let d = dot(&a, &b);
    cx.assume(and(vec![ne(d, S::ZERO), lt(d * d, S::c(0.999))]));
    let (p, q) = (Quaternion::from_array(a), Quaternion::from_array(b));
    let t = p.rotation_angle_to(q);
    cx.check("range", and(vec![le(S::ZERO, t), le(t, S::PI)]));
    cx.eq("half-angle cosine", (t * S::HALF).cos(), d.abs());
    cx.eq("symmetric", q.rotation_angle_to(p), t);
    cx.eq("sign does not matter", (-p).rotation_angle_to(q), t);
}
fn slerp<S: Sc>(cx: &mut Cx<S>) {
    // in the plane of two quaternions at a known angle, either sign
    let a: Q4<S> = [S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2), S::rat(1, 2)];
    let o: Q4<S> = [S::rat(1, 2), S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2)];
    let u = cx.var_in("u", 0.001, 0.9);
    let den = S::ONE + u * u;
    let (c, s) = ((S::ONE - u * u) / den, S::TWO * u / den);
    cx.assume(and(vec![ne(u, S::ZERO), lt(S::c(0.01), c)]));
    let sg = if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let b: Q4<S> = std::array::from_fn(|i| sg * (a[i] * c + o[i] * s));
    let (p, q) = (Quaternion::from_array(a), Quaternion::from_array(b));
    let t = cx.var_in("t", 0.0, 1.0);
    let m = p.slerp(q, t);
    let r = m.as_array();
    cx.eq("unit", dot(&r, &r), S::ONE);
    cx.eqs("start", &p.slerp(q, S::ZERO).as_array(), &a);
    cx.eqs("end, the short way", &p.slerp(q, S::ONE).as_array(), &b.map(|x| x * sg));
    // uniform speed: the angle from the start grows in proportion
    let theta = c.acos();
    cx.eq("angle from the start", dot(&a, &r), (t * theta).cos());
    cx.eq("angle to the end", dot(&b, &r) * sg, ((S::ONE - t) * theta).cos());
    let h = p.slerp(q, S::HALF).as_array();
    cx.eq("half way", dot(&a, &h), dot(&b, &h) * sg);
}
fn slerp_same<S: Sc>(cx: &mut Cx<S>) {
    let a = ratq(cx, "a");
    let t = cx.var_in("t", 0.0, 1.0);
    let p = Quaternion::from_array(a);
    cx.eqs("same endpoints", &p.slerp(p, t).as_array(), &a);
    cx.eqs("opposite sign of the same rotation", &p.slerp(-p, t).as_array(), &a);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C07", algebra, "Quaternion arithmetic, norm, inverse, normalization; all components"),
        h!("C07", rejects, "try_normalized; non-finite components"),
        h!("C07", matrices, "to_rotation_matrix, transform_point, inverse_transform_point; all unit quaternions"),
        h!("C07", matrix_product, "product against rotation matrices; all unit quaternions"),
        h!("C07", from_matrix, "try_from_rotation_matrix; all four branches"),
        h!("C07", axis_angle, "from_axis_angle, from_scaled_axis; four directions, any angle and length"),
        h!("C07", to_axis_angle, "to_axis_angle, to_scaled_axis; all unit quaternions", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", scaled_axis_back, "to_scaled_axis, to_axis_angle and back; four directions, any angle", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", exp_log, "exp; three directions, any angle and scalar part"),
        h!("C07", log_exp, "log; all quaternions", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", log_short, "log; two directions, vector part down to 1e-17, both signs of the scalar part", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", euler, "from_euler_zyx; all angles"),
        h!("C07", to_euler, "to_euler_zyx; all unit quaternions away from the poles"),
        h!("C07", gimbal, "to_euler_zyx at both poles", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", two_vectors, "from_two_vectors; not opposite"),
        h!("C07", two_opposite, "from_two_vectors; opposite, zero and non-finite"),
        h!("C07", angle_between, "rotation_angle_to", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", slerp, "slerp; any angle and amount", |x| { x.cfg.abs_fork = true; x.cfg.arc = true }),
        h!("C07", slerp_same, "slerp between equal rotations"),
    ]
}
