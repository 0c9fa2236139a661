//! C09: twists, wrenches, inertias, the free joint.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{FreeJointState, Quaternion, SE3, SO3, SpatialInertia, Twist, Wrench};

fn pose<S: Sc>(cx: &mut Cx<S>) -> (SE3<S>, Rows<S, 3, 3>, [S; 3]) {
    let a = ratq(cx, "a");
    let t: [S; 3] = cx.vars("t");
    (SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(a)), Vector::new(t)), rotm(&a), t)
}
fn halves<S: Sc>(x: &[S; 6]) -> ([S; 3], [S; 3]) {
    ([x[0], x[1], x[2]], [x[3], x[4], x[5]])
}
fn join<S: Sc>(a: &[S; 3], b: &[S; 3]) -> [S; 6] {
    [a[0], a[1], a[2], b[0], b[1], b[2]]
}
fn frames<S: Sc>(cx: &mut Cx<S>) {
    let (g, r, t) = pose(cx);
    let (x, f): ([S; 6], [S; 6]) = (cx.vars("x"), cx.vars("f"));
    let ((v, w), (n, m)) = (halves(&x), halves(&f));
    let (rv, rw, rn, rm) = (mv(&r, &v), mv(&r, &w), mv(&r, &n), mv(&r, &m));
    let (a, b) = (g.act_twist(Twist::from_array(x)), g.act_wrench(Wrench::from_array(f)));
    cx.eqs("twist in the new frame", &a.as_array(), &join(&add(&rv, &cross(&t, &rw)), &rw));
    cx.eqs("wrench in the new frame", &b.as_array(), &join(&rn, &add(&rm, &cross(&t, &rn))));
    cx.eqs("twist matrix", (g.adjoint() * Vector::new(x)).as_slice(), &a.as_array());
    cx.eqs("wrench matrix", (g.force_adjoint() * Vector::new(f)).as_slice(), &b.as_array());
    cx.eqs("twist back", &g.inverse_act_twist(a).as_array(), &x);
    cx.eqs("wrench back", &g.inverse_act_wrench(b).as_array(), &f);
    cx.eq("power does not depend on the frame", a.dot_wrench(b), dot(&x, &f));
}
fn algebra<S: Sc>(cx: &mut Cx<S>) {
    let (x, y, f): ([S; 6], [S; 6], [S; 6]) = (cx.vars("x"), cx.vars("y"), cx.vars("f"));
    let z: [S; 6] = cx.vars("z");
    let t = Twist::from_array;
    let (u, v, w, g) = (t(x), t(y), t(z), Wrench::from_array(f));
    let ((v1, w1), (v2, w2)) = (halves(&x), halves(&y));
    cx.eqs("motion cross", &u.cross(v).as_array(), &join(&add(&cross(&w1, &v2), &cross(&v1, &w2)), &cross(&w1, &w2)));
    cx.eqs("antisymmetric", &u.cross(v).as_array(), &(-v.cross(u)).as_array());
    let j = u.cross(v.cross(w)) + v.cross(w.cross(u)) + w.cross(u.cross(v));
    cx.eqs("Jacobi", &j.as_array(), &[S::ZERO; 6]);
    let (n, m) = halves(&f);
    cx.eqs("force cross", &u.cross_wrench(g).as_array(), &join(&cross(&w1, &n), &add(&cross(&w1, &m), &cross(&v1, &n))));
    cx.eq("dual", u.cross(v).dot_wrench(g), -v.dot_wrench(u.cross_wrench(g)));
    cx.eq("power", u.dot_wrench(g), dot(&x, &f));
    let k = cx.var("k");
    cx.eqs("sum", &(u + v).as_array(), &add(&x, &y));
    cx.eqs("difference", &(u - v).as_array(), &sub(&x, &y));
    cx.eqs("negation", &(-u).as_array(), &x.map(|a| -a));
    cx.eqs("scaled", &u.scale(k).as_array(), &scale(&x, k));
    let h = Wrench::from_array(y);
    cx.eqs("wrench sum", &(g + h).as_array(), &add(&f, &y));
    cx.eqs("wrench difference", &(g - h).as_array(), &sub(&f, &y));
    cx.eqs("wrench negation", &(-g).as_array(), &f.map(|a| -a));
    cx.eqs("wrench scaled", &g.scale(k).as_array(), &scale(&f, k));
    cx.eqs("linear part", u.linear().as_slice(), &v1);
    cx.eqs("angular part", u.angular().as_slice(), &w1);
    cx.eqs("force part", g.force().as_slice(), &n);
    cx.eqs("torque part", g.torque().as_slice(), &m);
    cx.eqs("twist from parts", &Twist::new(Vector::new(v1), Vector::new(w1)).as_array(), &x);
    cx.eqs("wrench from parts", &Wrench::new(Vector::new(n), Vector::new(m)).as_array(), &f);
    cx.eqs("twist vector", u.to_vector().as_slice(), &x);
    cx.eqs("twist from vector", &Twist::from_vector(Vector::new(x)).as_array(), &x);
    cx.eqs("wrench vector", g.to_vector().as_slice(), &f);
    cx.eqs("wrench from vector", &Wrench::from_vector(Vector::new(f)).as_array(), &f);
}
fn body<S: Sc>(cx: &mut Cx<S>, n: &str) -> (SpatialInertia<S>, S, [S; 3], Rows<S, 3, 3>) {
    let m = cx.pos(&format!("{n}m"));
    let c: [S; 3] = cx.vars(&format!("{n}c"));
    let d: [S; 3] = std::array::from_fn(|i| cx.pos(&format!("{n}d{i}")));
    let o: [S; 3] = cx.vars(&format!("{n}o"));
    let i = [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]];
    match SpatialInertia::new(m, Vector::new(c), Matrix::new(i)) {
        Ok(b) => (b, m, c, i),
        Err(_) => {
            cx.holds("a body is accepted", false);
            cx.stop()
        }
    }
}
/// Inertia about the origin, from the definition.
fn i6<S: Sc>(m: S, c: &[S; 3], i: &Rows<S, 3, 3>) -> Rows<S, 6, 6> {
    let k = skew(c);
    let kk = mm(&k, &k);
    std::array::from_fn(|a| {
        std::array::from_fn(|b| match (a < 3, b < 3) {
            (true, true) => if a == b { m } else { S::ZERO },
            (true, false) => -m * k[a][b - 3],
            (false, true) => m * k[a - 3][b],
            (false, false) => i[a - 3][b - 3] - m * kk[a - 3][b - 3],
        })
    })
}
fn inertia<S: Sc>(cx: &mut Cx<S>) {
    let (b, m, c, i) = body(cx, "");
    let want = i6(m, &c, &i);
    meq(cx, "matrix", &rows(&b.to_matrix()), &want);
    let x: [S; 6] = cx.vars("x");
    let v = Twist::from_array(x);
    let p = b.momentum(v).as_array();
    cx.eqs("momentum", &p, &mv(&want, &x));
    cx.eq("kinetic energy", b.kinetic_energy(v), S::HALF * dot(&x, &mv(&want, &x)));
    cx.eqs("bias", &b.bias_wrench(v).as_array(), &v.cross_wrench(Wrench::from_array(mv(&want, &x))).as_array());
    cx.eq("bias does no work", v.dot_wrench(b.bias_wrench(v)), S::ZERO);
    let q: [S; 3] = cx.vars("q");
    let k = skew(&sub(&q, &c));
    let kk = mm(&k, &k);
    let about: Rows<S, 3, 3> = std::array::from_fn(|r| std::array::from_fn(|s| i[r][s] - m * kk[r][s]));
    meq(cx, "about a point", &rows(&b.inertia_about(Vector::new(q))), &about);
    meq(cx, "about its centre", &rows(&b.inertia_about(Vector::new(c))), &i);
    cx.eq("mass", b.mass(), m);
    cx.eqs("centre", b.center_of_mass().as_slice(), &c);
    meq(cx, "rotational", &rows(&b.rotational_inertia()), &i);
    cx.holds("finite", b.is_finite());
}
fn combined<S: Sc>(cx: &mut Cx<S>) {
    let (a, am, ac, ai) = body(cx, "a");
    let (b, bm, bc, bi) = body(cx, "b");
    let (x, y) = (i6(am, &ac, &ai), i6(bm, &bc, &bi));
    let s: Rows<S, 6, 6> = std::array::from_fn(|i| std::array::from_fn(|j| x[i][j] + y[i][j]));
    let c = a.combined(b);
    cx.eq("mass", c.mass(), am + bm);
    meq(cx, "matrices add", &rows(&c.to_matrix()), &s);
    meq(cx, "either order", &rows(&b.combined(a).to_matrix()), &s);
}
fn moved<S: Sc>(cx: &mut Cx<S>) {
    let d = dirs::<S>(cx.choose(3));
    let u = cx.var_hint("u", -0.9, 0.9);
    let k = S::ONE + u * u;
    let (c, s) = ((S::ONE - u * u) / k, S::TWO * u / k);
    let g = SE3::from_parts(SO3::from_quaternion(Quaternion::new(c, d[0] * s, d[1] * s, d[2] * s)), Vector::new(cx.vars("t")));
    let (b, m, ..) = body(cx, "");
    let x: [S; 6] = cx.vars("x");
    let v = Twist::from_array(x);
    let w = g.act_inertia(b);
    cx.eq("mass", w.mass(), m);
    cx.eqs("momentum moves along", &w.momentum(g.act_twist(v)).as_array(), &g.act_wrench(b.momentum(v)).as_array());
    let back = g.inverse_act_inertia(w);
    cx.eqs("centre back", back.center_of_mass().as_slice(), b.center_of_mass().as_slice());
    meq(cx, "inertia back", &rows(&back.rotational_inertia()), &rows(&b.rotational_inertia()));
    let o = g.inverse_act_inertia(b);
    cx.eqs("momentum moves back", &o.momentum(g.inverse_act_twist(v)).as_array(), &g.inverse_act_wrench(b.momentum(v)).as_array());
}
fn rejects<S: Sc>(cx: &mut Cx<S>) {
    let m = cx.var("m");
    let d: [S; 3] = cx.vars("d");
    let o: [S; 3] = cx.vars("o");
    let e = cx.var("e");
    let mut i = [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]];
    let (r, c) = [(0, 1), (1, 0), (0, 2), (2, 0), (1, 2), (2, 1)][cx.choose(6) as usize];
    i[r][c] += e;
    let ok = SpatialInertia::new(m, Vector::zeros(), Matrix::new(i)).is_ok();
    let positive = and(vec![lt(S::ZERO, m), lt(S::ZERO, d[0]), lt(S::ZERO, d[1]), lt(S::ZERO, d[2])]);
    if cx.ask(eq(e, S::ZERO)) {
        let want = cx.ask(positive);
        cx.holds("accepted exactly when positive", ok == want);
    } else {
        // an asymmetry that is not rounding
        cx.assume(lt(S::c(1e-6) * (S::ONE + o[0].abs() + o[1].abs() + o[2].abs() + d[0].abs() + d[1].abs() + d[2].abs()), e.abs()));
        cx.holds("asymmetric refused", !ok);
    }
}
fn non_finite<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.any("x");
    if cx.ask(Prop::Fin(x)) {
        return;
    }
    let (mut m, mut c) = (S::ONE, [S::ZERO; 3]);
    let mut i: Rows<S, 3, 3> = id();
    match cx.choose(3) {
        0 => m = x,
        1 => c[cx.choose(3) as usize] = x,
        _ => {
            let (a, b) = (cx.choose(3) as usize, cx.choose(3) as usize);
            i[a][b] = x;
            i[b][a] = x;
        }
    }
    cx.holds("refused", SpatialInertia::new(m, Vector::new(c), Matrix::new(i)).is_err());
    let d = [S::ONE, x, S::ONE];
    cx.holds("diagonal refused", SpatialInertia::from_diagonal_inertia(S::ONE, Vector::zeros(), Vector::new(d)).is_err());
    let k = cx.choose(4) as usize;
    let mut p = [S::ONE; 7];
    p[3 + k] = x;
    cx.holds("free joint refused", FreeJointState::from_generalized_vectors(p, [S::ZERO; 6]).is_none());
}
fn diagonal<S: Sc>(cx: &mut Cx<S>) {
    let (m, d): (S, [S; 3]) = (cx.var("m"), cx.vars("d"));
    let c: [S; 3] = cx.vars("c");
    let r = SpatialInertia::from_diagonal_inertia(m, Vector::new(c), Vector::new(d));
    let want = cx.ask(and(vec![lt(S::ZERO, m), lt(S::ZERO, d[0]), lt(S::ZERO, d[1]), lt(S::ZERO, d[2])]));
    cx.holds("accepted exactly when positive", r.is_ok() == want);
    if let Ok(b) = r {
        meq(cx, "diagonal", &rows(&b.rotational_inertia()), &dg(&d));
        cx.eqs("centre", b.center_of_mass().as_slice(), &c);
    }
}
fn free_joint<S: Sc>(cx: &mut Cx<S>) {
    let (p, q): ([S; 3], [S; 4]) = (cx.vars("p"), cx.vars("q"));
    let v: [S; 6] = cx.vars("v");
    let n = dot(&q, &q);
    let all = [p[0], p[1], p[2], q[0], q[1], q[2], q[3]];
    if !cx.ask(lt(S::c(1e-4), n)) {
        let z = FreeJointState::from_generalized_vectors([p[0], p[1], p[2], S::ZERO, S::ZERO, S::ZERO, S::ZERO], v);
        cx.holds("no orientation", z.is_none());
        return;
    }
    let Some(s) = FreeJointState::from_generalized_vectors(all, v) else { return cx.holds("accepted", false) };
    let g = s.generalized_position();
    cx.eqs("position", &g[..3], &p);
    cx.eqs("velocity", &s.generalized_velocity(), &v);
    cx.eqs("velocity twist", &s.velocity().as_array(), &v);
    let r = [g[3], g[4], g[5], g[6]];
    cx.eqs("orientation", &scale(&r, n.sqrt()), &q);
    cx.eqs("pose translation", s.pose().translation().as_slice(), &p);
    cx.eqs("pose rotation", &s.pose().rotation().quaternion().as_array(), &r);
    let t = FreeJointState::new(s.pose(), s.velocity());
    cx.eqs("from a pose", &t.generalized_position(), &g);
    cx.eqs("identity", &FreeJointState::<S>::identity().generalized_position(), &[S::ZERO, S::ZERO, S::ZERO, S::ONE, S::ZERO, S::ZERO, S::ZERO]);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C09", frames, "SE3 act_twist, act_wrench and inverses; all poses, twists, wrenches"),
        h!("C09", algebra, "Twist, Wrench arithmetic and cross products; all components"),
        h!("C09", inertia, "SpatialInertia momentum, energy, bias, matrix, inertia_about; all bodies and twists"),
        h!("C09", combined, "SpatialInertia::combined; all pairs of bodies"),
        h!("C09", moved, "SE3 act_inertia, inverse_act_inertia; three axes, any angle, all bodies"),
        h!("C09", rejects, "SpatialInertia::new; all masses, diagonals, off-diagonals"),
        h!("C09", non_finite, "constructors on non-finite numbers"),
        h!("C09", diagonal, "SpatialInertia::from_diagonal_inertia; all masses and diagonals"),
        h!("C09", free_joint, "FreeJointState; all positions, orientations above 0.01 in length and velocities"),
    ]
}
