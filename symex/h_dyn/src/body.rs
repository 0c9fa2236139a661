//! C37: Newton and Euler for one free body.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::dynamics::{RigidBody, RigidBodyAcceleration, free_joint_from_state_vector, state_vector_from_free_joint};
use multicalc::error::DynamicsError as E;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::ode::ExponentialMap;
use multicalc::spatial::{FreeJointState, Quaternion, SE3, SO3, SpatialInertia, Twist, Wrench};

fn turn<S: Sc>(q: &[S; 4]) -> SO3<S> {
    SO3::from_quaternion(Quaternion::new(q[0], q[1], q[2], q[3]))
}
struct Plant<S: Sc> {
    b: RigidBody<S>,
    m: S,
    c: [S; 3],
    i: Rows<S, 3, 3>,
    g: [S; 3],
}
/// Any inertia along the axes, or any multiple of three with coupled axes.
fn plant<S: Sc>(cx: &mut Cx<S>, full: bool) -> Plant<S> {
    let m = cx.var_open("m", 0.01, 100.0);
    let c: [S; 3] = cx.vars("c");
    let g: [S; 3] = cx.vars("g");
    let i = match if full { cx.choose(4) } else { 0 } {
        0 => {
            let d: [S; 3] = std::array::from_fn(|k| cx.var_open(&format!("d{k}"), 0.1, 10.0));
            dg(&d)
        }
        n => {
            let k = cx.var_open("k", 0.01, 10.0);
            let l: Rows<S, 3, 3> = cm([[[2, 0, 0], [1, 1, 0], [-1, 1, 2]], [[3, 0, 0], [-1, 2, 0], [2, 1, 1]], [[1, 0, 0], [0, 3, 0], [1, -2, 2]]][n - 1]);
            mm(&l, &tr(&l)).map(|r| r.map(|x| k * x))
        }
    };
    let s = SpatialInertia::new(m, Vector::new(c), Matrix::new(i));
    let b = s.ok().and_then(|s| RigidBody::new(s, Vector::new(g)).ok());
    cx.holds("accepted", b.is_some());
    let Some(b) = b else { cx.stop() };
    Plant { b, m, c, i, g }
}
/// m (acceleration of the balance point - g) = R f and I a + w x I w = t - c x f.
fn obeys<S: Sc>(cx: &mut Cx<S>, tag: &str, p: &Plant<S>, r: &Rows<S, 3, 3>, w: &[S; 3], f: &[S; 3], t: &[S; 3], got: &RigidBodyAcceleration<S>) {
    let (lin, a) = (*got.linear().as_array(), *got.angular().as_array());
    let swing = add(&cross(&a, &p.c), &cross(w, &cross(w, &p.c)));
    let at = add(&lin, &mv(r, &swing));
    let push = mv(r, f);
    let iw = mv(&p.i, w);
    let left = add(&mv(&p.i, &a), &cross(w, &iw));
    let right = sub(t, &cross(&p.c, f));
    for k in 0..3 {
        cx.eq(&format!("{tag} push[{k}]"), p.m * (at[k] - p.g[k]), push[k]);
        cx.eq(&format!("{tag} turn[{k}]"), left[k], right[k]);
    }
}
fn newton<S: Sc>(cx: &mut Cx<S>) {
    let p = plant(cx, true);
    let q = ratq(cx, "q");
    let (w, f, t): ([S; 3], [S; 3], [S; 3]) = (cx.vars("w"), cx.vars("f"), cx.vars("t"));
    let a = p.b.accelerations(turn(&q), Vector::new(w), Wrench::new(Vector::new(f), Vector::new(t)));
    obeys(cx, "at once", &p, &rotm(&q), &w, &f, &t, &a);
    veq(cx, "gravity", p.b.gravity(), p.g);
    cx.eq("mass", p.b.inertia().mass(), p.m);
}
fn derivative<S: Sc>(cx: &mut Cx<S>) {
    let p = plant(cx, false);
    let u = ratq(cx, "q");
    let k = cx.var_open("k", 0.5, 2.0);
    let k = if cx.choose(2) == 1 { -k } else { k };
    let q = scale(&u, k);
    let (x, v, w): ([S; 3], [S; 3], [S; 3]) = (cx.vars("x"), cx.vars("v"), cx.vars("w"));
    let (f, t): ([S; 3], [S; 3]) = (cx.vars("f"), cx.vars("t"));
    let s = Vector::new([x[0], x[1], x[2], q[0], q[1], q[2], q[3], v[0], v[1], v[2], w[0], w[1], w[2]]);
    let d = p.b.state_derivative(&s, Wrench::new(Vector::new(f), Vector::new(t)));
    // q' = q w / 2
    let qw = [S::ZERO, w[0], w[1], w[2]];
    let [a, b, c, e] = q;
    let [_, i, j, l] = qw;
    let half = [
        -(b * i + c * j + e * l),
        a * i + c * l - e * j,
        a * j + e * i - b * l,
        a * l + b * j - c * i,
    ];
    for n in 0..3 {
        cx.eq(&format!("going[{n}]"), d[n], v[n]);
    }
    for n in 0..4 {
        cx.eq(&format!("facing[{n}]"), d[3 + n] * S::TWO, half[n]);
    }
    let got = RigidBodyAcceleration::new(Vector::new([d[7], d[8], d[9]]), Vector::new([d[10], d[11], d[12]]));
    obeys(cx, "along the way", &p, &rotm(&u), &w, &f, &t, &got);
    let mut none = s;
    for n in 3..7 {
        none[n] = S::ZERO;
    }
    let d = p.b.state_derivative(&none, Wrench::new(Vector::new(f), Vector::new(t)));
    veq(cx, "no direction", d, [S::ZERO; 13]);
    cx.holds("no direction either", free_joint_from_state_vector(&none).is_none());
    let back = free_joint_from_state_vector(&s);
    cx.holds("direction", back.is_some());
    if let Some(back) = back {
        let sv = state_vector_from_free_joint(back);
        for n in 0..13 {
            let want = if (3..7).contains(&n) { if cx.ask(lt(S::ZERO, k)) { u[n - 3] } else { -u[n - 3] } } else { s[n] };
            cx.eq(&format!("round trip[{n}]"), sv[n], want);
        }
    }
}
fn tick<S: Sc>(cx: &mut Cx<S>) {
    let p = plant(cx, false);
    let q = ratq(cx, "q");
    let (x, v): ([S; 3], [S; 3]) = (cx.vars("x"), cx.vars("v"));
    let w = match cx.choose(2) {
        0 => [S::ZERO; 3],
        _ => scale(&dirs(cx.choose(2)), cx.var_open("w", 0.1, 3.0)),
    };
    let h = cx.var_open("h", 0.01, 0.5);
    // a turn along one axis at a time, so that the middle of the tick stays within reach
    let f: [S; 3] = cx.vars("f");
    let t: [S; 3] = if cx.thorough() { cx.vars("t") } else { let k = cx.var_open("t", 0.1, 5.0); add(&cross(&p.c, &f), &[S::ZERO, S::ZERO, k]) };
    let e = Wrench::new(Vector::new(f), Vector::new(t));
    let s = FreeJointState::new(SE3::from_parts(turn(&q), Vector::new(x)), Twist::new(Vector::new(v), Vector::new(w)));
    let n = p.b.stepped(s, e, h);
    let half = h * S::HALF;
    let a0 = p.b.accelerations(turn(&q), Vector::new(w), e);
    obeys(cx, "start", &p, &rotm(&q), &w, &f, &t, &a0);
    let mid = ExponentialMap::attitude_step(turn(&q), Vector::new(w), half);
    let vm = add(&v, &scale(a0.linear().as_array(), half));
    let wm = add(&w, &scale(a0.angular().as_array(), half));
    let a1 = p.b.accelerations(mid, Vector::new(wm), e);
    let end = ExponentialMap::attitude_step(turn(&q), Vector::new(wm), h);
    veq(cx, "place", n.pose().translation(), add(&x, &scale(&vm, h)));
    veq(cx, "speed", n.velocity().linear(), add(&v, &scale(a1.linear().as_array(), h)));
    veq(cx, "spin", n.velocity().angular(), add(&w, &scale(a1.angular().as_array(), h)));
    let (got, want) = (n.pose().rotation().quaternion().as_array(), end.quaternion().as_array());
    for k in 0..4 {
        cx.eq(&format!("facing[{k}]"), got[k], want[k]);
    }
}
/// Free fall from rest, or a push through the balance point: exact whatever the tick.
fn falling<S: Sc>(cx: &mut Cx<S>) {
    let p = plant(cx, true);
    let q = ratq(cx, "q");
    let (x, v): ([S; 3], [S; 3]) = (cx.vars("x"), cx.vars("v"));
    let h = cx.var("h");
    let f: [S; 3] = cx.vars("f");
    let t = cross(&p.c, &f);
    let s = FreeJointState::new(SE3::from_parts(turn(&q), Vector::new(x)), Twist::new(Vector::new(v), Vector::zeros()));
    let n = p.b.stepped(s, Wrench::new(Vector::new(f), Vector::new(t)), h);
    let a = add(&scale(&mv(&rotm(&q), &f), S::ONE / p.m), &p.g);
    veq(cx, "speed", n.velocity().linear(), add(&v, &scale(&a, h)));
    veq(cx, "place", n.pose().translation(), add(&x, &add(&scale(&v, h), &scale(&a, h * h * S::HALF))));
    veq(cx, "spin", n.velocity().angular(), [S::ZERO; 3]);
    let got = n.pose().rotation().quaternion().as_array();
    for k in 0..4 {
        cx.eq(&format!("facing[{k}]"), got[k], q[k]);
    }
}
fn accepted<S: Sc>(cx: &mut Cx<S>) {
    let d: [S; 3] = [[1, 4, 9], [4, 1, 25]][cx.choose(2)].map(|x| S::rat(x, 1));
    let at = cx.choose(3);
    let o: [S; 3] = std::array::from_fn(|k| if k == at || (cx.thorough() && k > at) { cx.var_open(&format!("o{k}"), -10.0, 10.0) } else { S::rat(1 - k as i64, 2) });
    let i = [[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]];
    let Ok(s) = SpatialInertia::new(S::ONE, Vector::zeros(), Matrix::new(i)) else { cx.stop() };
    let m2 = det(&vv(&i, 2));
    let m3 = det(&vv(&i, 3));
    // clear of the border, where rounding decides
    cx.assume(or(vec![lt(m2, S::c(-1e-6)), lt(S::c(1e-6), m2)]));
    cx.assume(or(vec![lt(m3, S::c(-1e-6)), lt(S::c(1e-6), m3)]));
    let r = RigidBody::new(s, Vector::zeros());
    let good = and(vec![lt(S::ZERO, m2), lt(S::ZERO, m3)]);
    match r {
        Ok(_) => cx.check("definite", good),
        Err(e) => {
            cx.check("not definite", not(good));
            cx.holds("named", matches!(e, E::NonPositiveInertia));
        }
    }
}
fn not_numbers<S: Sc>(cx: &mut Cx<S>) {
    let at = cx.choose(3);
    let g: [S; 3] = std::array::from_fn(|k| if k == at { cx.any("g") } else { S::ONE });
    let s = SpatialInertia::from_diagonal_inertia(S::ONE, Vector::zeros(), Vector::new([S::ONE; 3]));
    let Ok(s) = s else { cx.stop() };
    let fin = g.iter().all(|x| x.is_finite());
    match RigidBody::new(s, Vector::new(g)) {
        Ok(_) => cx.holds("finite", fin),
        Err(e) => cx.holds("refused", !fin && matches!(e, E::NonFinite)),
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C37", newton, "RigidBody::accelerations; any mass 0.01-100, balance point, inertia (along the axes, or any multiple of three others), gravity, orientation, spin, push and turn", |x| x.cfg.abs_fork = true),
        h!("C37", derivative, "RigidBody::state_derivative, state_vector_from_free_joint, free_joint_from_state_vector; any state, orientation numbers of length 0.5-2 or zero", |x| x.cfg.abs_fork = true),
        h!("C37", tick, "RigidBody::stepped; any body along its axes, any state, spin about two axes, tick 0.01-0.5, any push, turn about z (thorough: any)", |x| x.cfg.abs_fork = true),
        h!("C37", falling, "RigidBody::stepped without spin; any body, push through the balance point, tick", |x| x.cfg.abs_fork = true),
        h!("C37", accepted, "RigidBody::new; symmetric inertias with one (thorough: up to three) coupling terms free, to 10"),
        h!("C37", not_numbers, "RigidBody::new; any gravity, finite or not"),
    ]
}
