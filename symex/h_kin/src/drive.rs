//! C36: differential drive and odometry.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::{BodyArc, BodyTwist, DifferentialDrive, OdometryStep, Unicycle, WheelRotations, WheelVelocities, integrate};
use multicalc::linear_algebra::Vector;
use multicalc::scalar::{Dual, VectorFn};
use multicalc::spatial::{SE2, SO2};

fn drive<S: Sc>(cx: &mut Cx<S>) -> (DifferentialDrive<S>, S, S) {
    let (r, b) = (cx.pos("r"), cx.pos("b"));
    (DifferentialDrive::new(r, b).unwrap(), r, b)
}
/// Each wheel rolls without slipping: its contact moves as the body does there.
fn wheels<S: Sc>(cx: &mut Cx<S>) {
    let (d, r, b) = drive(cx);
    cx.eq("radius", d.wheel_radius(), r);
    cx.eq("track", d.wheelbase(), b);
    let (l, k) = (cx.var("l"), cx.var("k"));
    let t = d.forward(WheelVelocities::new(l, k));
    cx.eq("left rolls", t.linear() - t.angular() * b * S::HALF, r * l);
    cx.eq("right rolls", t.linear() + t.angular() * b * S::HALF, r * k);
    let w = d.inverse(t);
    cx.eqs("and back", &[w.left(), w.right()], &[l, k]);
    let (v, o) = (cx.var("v"), cx.var("o"));
    let w = d.inverse(BodyTwist::new(v, o));
    cx.eq("left wanted", r * w.left(), v - o * b * S::HALF);
    cx.eq("right wanted", r * w.right(), v + o * b * S::HALF);
    // the same over one tick
    let a = d.forward_arc(WheelRotations::new(l, k));
    cx.eqs("arc", &[a.linear(), a.angular()], &[t.linear(), t.angular()]);
    let w = d.inverse_arc(BodyArc::new(v, o));
    cx.eq("left turned", r * w.left(), v - o * b * S::HALF);
    cx.eq("right turned", r * w.right(), v + o * b * S::HALF);
    let h = cx.var("h");
    let a = BodyTwist::new(v, o).integrate_over(h);
    cx.eqs("held for a tick", &[a.linear(), a.angular()], &[v * h, o * h]);
    let (x, y) = d.wheel_travel(WheelRotations::new(l, k));
    cx.eqs("travel", &[x, y], &[l * r, k * r]);
    let w = d.wheel_rotations_from_travel(x, y);
    cx.eqs("travel back", &[w.left(), w.right()], &[l, k]);
    let t3: [S; 3] = cx.vars("t");
    let p = BodyTwist::project_tangent(Vector::new(t3));
    cx.eqs("projected", p.to_tangent().as_slice(), &[t3[0], S::ZERO, t3[2]]);
    cx.eq("slip", BodyTwist::tangent_slip(Vector::new(t3)), t3[1]);
    for z in [BodyTwist::<S>::zeros().linear(), BodyTwist::<S>::zeros().angular(), BodyArc::<S>::zeros().linear(), BodyArc::<S>::zeros().angular(), WheelVelocities::<S>::zeros().left(), WheelVelocities::<S>::zeros().right(), WheelRotations::<S>::zeros().left(), WheelRotations::<S>::zeros().right()] {
        cx.eq("at rest", z, S::ZERO);
    }
}
fn refused<S: Sc>(cx: &mut Cx<S>) {
    let (r, b) = (cx.any("r"), cx.any("b"));
    let want = if !r.is_finite() || !b.is_finite() {
        Err(E::NonFinite)
    } else if cx.ask(or(vec![le(r, S::ZERO), le(b, S::ZERO)])) {
        Err(E::NonPositiveParameter)
    } else {
        Ok(())
    };
    cx.holds("geometry", DifferentialDrive::new(r, b).map(|_| ()) == want);
}
fn start<S: Sc>(cx: &mut Cx<S>) -> (SE2<S>, [S; 2], S) {
    let p: [S; 2] = cx.vars("p");
    let f = cx.var_open("f", -1.5, 1.5);
    (SE2::from_parts(SO2::exp(f), Vector::new(p)), p, f)
}
fn facing<S: Sc>(cx: &mut Cx<S>, l: &str, g: &SE2<S>, f: S) {
    let m = rows(&g.rotation().to_matrix());
    let (s, c) = (f.sin(), f.cos());
    meq(cx, l, &m, &[[c, -s], [s, c]]);
}
/// A turn traces the circle of radius arc over angle.
fn circle<S: Sc>(cx: &mut Cx<S>) {
    let (g, p, f) = start(cx);
    let (s, mut th) = (cx.var("s"), cx.var_open("th", 0.001, 2.5));
    if cx.choose(2) == 1 {
        th = -th;
    }
    let n = integrate(g, BodyArc::new(s, th));
    let r = s / th;
    let want = [p[0] + r * ((f + th).sin() - f.sin()), p[1] - r * ((f + th).cos() - f.cos())];
    veq(cx, "place", n.translation(), want);
    facing(cx, "facing", &n, f + th);
    let half = BodyArc::new(s * S::HALF, th * S::HALF);
    let m = integrate(integrate(g, half), half);
    veq(cx, "two halves", m.translation(), want);
    facing(cx, "two halves facing", &m, f + th);
    let (d, _, _) = drive(cx);
    let m = d.odometry_step(g, d.inverse_arc(BodyArc::new(s, th)));
    veq(cx, "from the wheels", m.translation(), want);
    facing(cx, "from the wheels facing", &m, f + th);
}
fn straight<S: Sc>(cx: &mut Cx<S>) {
    let (g, p, f) = start(cx);
    let s = cx.var_open("s", -2.0, 2.0);
    let n = integrate(g, BodyArc::new(s, S::ZERO));
    veq(cx, "ahead", n.translation(), [p[0] + s * f.cos(), p[1] + s * f.sin()]);
    facing(cx, "unturned", &n, f);
}
fn nearly_straight<S: Sc>(cx: &mut Cx<S>) {
    let s = cx.var_open("s", -2.0, 2.0);
    let th = cx.var_open("th", -6e-15, 6e-15);
    // so small an angle has cosine 1 and sine itself to 1e-28, which the solver is told
    let (c, i) = (th.cos(), th.sin());
    cx.assume(and(vec![le((c - S::ONE).abs(), S::c(1e-20)), le((i - th).abs(), S::c(1e-20))]));
    let g = SE2::from_parts(SO2::<S>::identity(), Vector::new([S::ZERO, S::ZERO]));
    let n = integrate(g, BodyArc::new(s, th));
    let [x, y] = *n.translation().as_array();
    cx.near("forward", x, s, 1e-12);
    cx.near("aside", y, s * th * S::HALF, 1e-12);
}
/// Odometry solves the unicycle equations: at every moment the pose moves as the plant says.
fn plant<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 2] = cx.vars("p");
    let f = cx.var_open("f", -1.5, 1.5);
    let (v, w) = (cx.var("v"), cx.var_open("w", 0.1, 2.0));
    let u = Unicycle::new(BodyTwist::new(v, w));
    let y = Vector::new([p[0], p[1], f]);
    let want = [v * f.cos(), v * f.sin(), w];
    veq(cx, "derivative", u.derivative(&y), want);
    veq(cx, "field", u.field()(S::ONE, &y), want);
    let h = cx.var_open("h", 0.5, 1.0);
    let k = |x: S| Dual::new(x, S::ZERO);
    let g = SE2::from_parts(SO2::exp(k(f)), Vector::new(p.map(k)));
    let t = Dual::new(h, S::ONE);
    let n = integrate(g, BodyArc::new(k(v) * t, k(w) * t));
    let at = f + w * h;
    let [x, y] = *n.translation().as_array();
    cx.eq("along", x.deriv, v * at.cos());
    cx.eq("across", y.deriv, v * at.sin());
    let m = n.rotation().to_matrix().into_array();
    cx.eq("turning", m[1][0].deriv, w * at.cos());
}
/// The process model is the same step, with the heading in (-pi, pi].
fn model<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 2] = cx.vars("p");
    let s = cx.var("s");
    let k = cx.var_open("k", 0.1, 1.5);
    let k = if cx.choose(2) == 1 { -k } else { k };
    // turning from straight ahead, or going straight at any heading
    let (f, th) = if cx.choose(2) == 1 { (S::ZERO, k) } else { (k, S::ZERO) };
    let g = SE2::from_parts(SO2::exp(f), Vector::new(p));
    let n = integrate(g, BodyArc::new(s, th));
    let [x, y, a] = OdometryStep.eval(&[p[0], p[1], f, s, th]);
    veq(cx, "place", n.translation(), [x, y]);
    let pi = S::from_f64(core::f64::consts::PI);
    cx.check("wrapped", and(vec![lt(-pi - S::c(1e-9), a), lt(a, pi + S::c(1e-9))]));
    facing(cx, "heading", &n, a);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C36", wheels, "DifferentialDrive, WheelVelocities, WheelRotations, BodyTwist, BodyArc; all geometries and motions"),
        h!("C36", refused, "DifferentialDrive::new; any numbers, finite or not"),
        h!("C36", circle, "integrate, odometry_step; any pose, arc length, geometry, turns 0.001-2.5 either way", |x| x.cfg.trig_base = 4),
        h!("C36", straight, "integrate without turning; any pose and length"),
        h!("C36", nearly_straight, "integrate with turns below 6e-15"),
        h!("C36", plant, "Unicycle, integrate over Dual; any pose, speed, rate 0.1-2", |x| x.cfg.trig_base = 4),
        h!("C36", model, "OdometryStep; any place, heading or turn up to 1.5 either way, any length", |x| { x.cfg.abs_fork = true; x.cfg.arc = true; }),
    ]
}
