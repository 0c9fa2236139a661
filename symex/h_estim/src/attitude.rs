//! C20: Mahony and Madgwick attitude filters.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{Quaternion, SO3};

type V3<S> = [S; 3];
fn v<S: Sc>(a: V3<S>) -> Vector<3, S> {
    Vector::new(a)
}
fn so3<S: Sc>(q: [S; 4]) -> SO3<S> {
    SO3::from_quaternion(Quaternion::from_array(q))
}
fn angle<S: Sc>(cx: &mut Cx<S>, n: &str) -> S {
    let t = cx.var_in(n, 0.06, 3.0);
    let h = t * S::HALF;
    cx.assume(and(vec![lt(S::ZERO, h.sin()), lt(S::ZERO, h.cos())]));
    t
}
fn turn<S: Sc>(d: &V3<S>, t: S) -> Rows<S, 3, 3> {
    let (s, c) = (t.sin(), t.cos());
    let k = skew(d);
    let kk = mm(&k, &k);
    std::array::from_fn(|i| std::array::from_fn(|j| id::<S, 3>()[i][j] + s * k[i][j] + (S::ONE - c) * kk[i][j]))
}
/// What the sensors say is left to turn, from the directions they see and the directions they should see.
struct Scene<S> {
    q: [S; 4],
    acc: V3<S>,
    mag: Option<V3<S>>,
    pull: V3<S>,
}
/// A point of the unit circle.
fn circle<S: Sc>(cx: &mut Cx<S>, n: &str) -> [S; 2] {
    let a = cx.var_hint(n, -0.9, 0.9);
    let d = S::ONE + a * a;
    [(S::ONE - a * a) / d, S::TWO * a / d]
}
fn scene<S: Sc>(cx: &mut Cx<S>, up: &V3<S>, north: &V3<S>) -> Scene<S> {
    let full = cx.thorough();
    let q = if full { ratq(cx, "q") } else { [4, 2, -2, 1].map(|x| S::rat(x, 5)) };
    let r = rotm(&q);
    let back = |w: &V3<S>| mv(&tr(&r), w);
    let mut pull = [S::ZERO; 3];
    let which = cx.choose(5);
    let acc = if which == 0 || which == 3 {
        [S::ZERO; 3]
    } else {
        let [c, s] = circle(cx, "push");
        // for both sensors at once one of the directions is fixed in the quick tier
        let d = if which == 4 && !full { [S::rat(2, 7), S::rat(3, 7), S::rat(6, 7)] } else { add(&scale(&[S::ONE, S::ZERO, S::ZERO], c), &scale(&[S::ZERO, S::rat(3, 5), S::rat(4, 5)], s)) };
        pull = add(&pull, &cross(&d, &back(up)));
        let k = cx.var_open("pushes", 0.1, 20.0);
        scale(&d, k)
    };
    let mag = match which {
        1 => None,
        0 | 2 => Some([S::ZERO; 3]),
        _ => {
            // the field: some way up, the rest level, seen in world axes under the current facing
            let [h, z] = circle(cx, "dip");
            cx.assume(lt(S::c(1e-3), h));
            let [c, s] = if full || which == 3 { circle(cx, "swing") } else { [S::rat(3, 5), S::rat(4, 5)] };
            let east = cross(up, north);
            let level = add(&scale(north, c), &scale(&east, s));
            let seen = back(&add(&scale(&level, h), &scale(up, z)));
            let due = back(&add(&scale(north, h), &scale(up, z)));
            pull = add(&pull, &cross(&seen, &due));
            let k = cx.var_open("field", 0.1, 60.0);
            Some(scale(&seen, k))
        }
    };
    Scene { q, acc, mag, pull }
}
fn frame<S: Sc>(cx: &mut Cx<S>) -> (bool, V3<S>, V3<S>) {
    let (o, z) = (S::ONE, S::ZERO);
    if cx.choose(2) == 0 { (false, [z, z, o], [o, z, z]) } else { (true, [S::rat(1, 3), S::rat(2, 3), S::rat(2, 3)], [S::rat(2, 3), S::rat(1, 3), S::rat(-2, 3)]) }
}
fn mahony<S: Sc>(cx: &mut Cx<S>) {
    let (set, up, north) = frame(cx);
    let s = scene(cx, &up, &north);
    let (p, i) = (cx.var("p"), cx.var("i"));
    let bias: V3<S> = cx.vars("b");
    let dt = cx.var_open("dt", 0.001, 1.0);
    let d = dirs::<S>(1);
    let t = angle(cx, "t");
    let mut f = MahonyFilter::new(so3(s.q)).with_proportional_gain(p).with_integral_gain(i);
    f.set_gyroscope_bias(v(bias));
    if set {
        f = f.with_reference_directions(v(scale(&up, S::TWO)), v(add(&north, &scale(&up, S::rat(1, 4)))));
    }
    let bias2 = sub(&bias, &scale(&s.pull, i * dt));
    // a reading that makes the whole turn one known angle about a known axis
    let gyro = sub(&add(&scale(&d, t / dt), &bias2), &scale(&s.pull, p));
    let r = if s.mag.is_none() && cx.choose(2) == 0 { f.step_without_magnetometer(v(gyro), v(s.acc), dt) } else { f.step(v(gyro), v(s.acc), s.mag.map(v), dt) };
    cx.holds("stepped", r.is_ok());
    veq(cx, "bias", f.gyroscope_bias(), bias2);
    meq(cx, "facing", &rows(&f.orientation().to_matrix()), &mm(&rotm(&s.q), &turn(&d, t)));
}
fn madgwick<S: Sc>(cx: &mut Cx<S>) {
    let (set, up, north) = frame(cx);
    let s = scene(cx, &up, &north);
    let (p, i) = (cx.var("p"), cx.var("i"));
    let bias: V3<S> = cx.vars("b");
    let dt = cx.var_open("dt", 0.001, 1.0);
    let d = dirs::<S>(1);
    let t = angle(cx, "t");
    let mut f = MadgwickFilter::new(so3(s.q)).with_correction_gain(p).with_bias_gain(i);
    f.set_gyroscope_bias(v(bias));
    if set {
        f = f.with_reference_directions(v(scale(&up, S::TWO)), v(add(&north, &scale(&up, S::rat(1, 4)))));
    }
    let size = dot(&s.pull, &s.pull);
    let toward = if cx.ask(lt(S::c(1e-6), size)) {
        scale(&s.pull, S::ONE / size.sqrt())
    } else {
        cx.assume(eq(size, S::ZERO));
        [S::ZERO; 3]
    };
    let bias2 = sub(&bias, &scale(&toward, i * dt));
    let gyro = sub(&add(&scale(&d, t / dt), &bias2), &scale(&toward, p));
    let r = if s.mag.is_none() && cx.choose(2) == 0 { f.step_without_magnetometer(v(gyro), v(s.acc), dt) } else { f.step(v(gyro), v(s.acc), s.mag.map(v), dt) };
    cx.holds("stepped", r.is_ok());
    veq(cx, "bias", f.gyroscope_bias(), bias2);
    meq(cx, "facing", &rows(&f.orientation().to_matrix()), &mm(&rotm(&s.q), &turn(&d, t)));
}
/// Sensors that agree with the facing leave it alone, and the filter starts as documented.
fn agree<S: Sc>(cx: &mut Cx<S>) {
    let q = if cx.thorough() { ratq(cx, "q") } else { [4, 2, -2, 1].map(|x| S::rat(x, 5)) };
    let r = tr(&rotm(&q));
    let (o, z) = (S::ONE, S::ZERO);
    let dt = cx.var_open("dt", 0.001, 1.0);
    let k = cx.var_open("k", 0.1, 20.0);
    let a = cx.var_hint("dip", -0.9, 0.9);
    let d = S::ONE + a * a;
    let (set, up, north) = frame(cx);
    let field = mv(&r, &add(&scale(&north, (o - a * a) / d), &scale(&up, S::TWO * a / d)));
    cx.assume(lt(S::c(1e-3), (o - a * a) / d));
    let acc = scale(&mv(&r, &up), k);
    let with = cx.choose(2) == 1;
    let mag = if with { Some(v(field)) } else { None };
    let mut f = MahonyFilter::new(so3(q));
    if set {
        f = f.with_reference_directions(v(up), v(north));
    }
    cx.holds("stepped", f.step(v([z; 3]), v(acc), mag, dt).is_ok());
    meq(cx, "facing", &rows(&f.orientation().to_matrix()), &rotm(&q));
    veq(cx, "bias", f.gyroscope_bias(), [z; 3]);
}
/// The default gains, seen on one known step.
fn defaults<S: Sc>(cx: &mut Cx<S>) {
    let (o, z) = (S::ONE, S::ZERO);
    let dt = cx.var_open("dt", 0.001, 1.0);
    // a lean about x with sine 3/5: the pull is along x
    let k = cx.var_open("k", 0.1, 20.0);
    let acc = scale(&[z, S::rat(3, 5), S::rat(4, 5)], k);
    let mut f = MahonyFilter::new(SO3::<S>::identity());
    cx.holds("stepped", f.step_without_magnetometer(v([z; 3]), v(acc), dt).is_ok());
    veq(cx, "mahony bias", f.gyroscope_bias(), [-S::c(0.1) * S::rat(3, 5) * dt, z, z]);
    let rate = S::c(0.1) * S::rat(3, 5) * dt + S::rat(3, 5);
    let m = rows(&f.orientation().to_matrix());
    cx.eq("mahony turn", m[2][1], S::TWO * (rate * dt * S::HALF).sin() * (rate * dt * S::HALF).cos());
    cx.eq("mahony axis", m[0][0], o);
    let mut g = MadgwickFilter::new(SO3::<S>::identity());
    cx.holds("stepped", g.step_without_magnetometer(v([z; 3]), v(acc), dt).is_ok());
    veq(cx, "madgwick bias", g.gyroscope_bias(), [-S::c(0.01) * dt, z, z]);
    let rate = S::c(0.01) * dt + S::c(0.1);
    let m = rows(&g.orientation().to_matrix());
    cx.eq("madgwick turn", m[2][1], S::TWO * (rate * dt * S::HALF).sin() * (rate * dt * S::HALF).cos());
    cx.eq("madgwick axis", m[0][0], o);
}
fn refuses<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.any("x");
    let (o, z) = (S::ONE, S::ZERO);
    let q = [4, 2, -2, 1].map(|x| S::rat(x, 5));
    let b = [S::rat(1, 7), z, o];
    let mut f = MahonyFilter::new(so3(q));
    let mut g = MadgwickFilter::new(so3(q));
    f.set_gyroscope_bias(v(b));
    g.set_gyroscope_bias(v(b));
    if cx.ask(Prop::Fin(x)) {
        // two directions that are one direction are no frame: the old one stays
        let y = cx.nonzero("y");
        let one = [S::rat(2, 3), S::rat(1, 3), S::rat(-2, 3)];
        cx.assume(lt(S::c(1e-3), (x * y).abs()));
        let twin = (v(scale(&one, x)), v(scale(&one, y)));
        let dt = S::rat(1, 8);
        let f2 = f.with_reference_directions(twin.0, twin.1);
        let g2 = g.with_reference_directions(twin.0, twin.1);
        let a = v([o, z, z]);
        for m in [None, Some(v([z, S::rat(3, 5), S::rat(4, 5)]))] {
            let (mut f, mut g, mut f2, mut g2) = (f, g, f2, g2);
            cx.holds("stepped", f.step(v([o; 3]), a, m, dt).is_ok() && f2.step(v([o; 3]), a, m, dt).is_ok() && g.step(v([o; 3]), a, m, dt).is_ok() && g2.step(v([o; 3]), a, m, dt).is_ok());
            cx.eqs("mahony unchanged frame", f2.gyroscope_bias().as_slice(), f.gyroscope_bias().as_slice());
            cx.eqs("madgwick unchanged frame", g2.gyroscope_bias().as_slice(), g.gyroscope_bias().as_slice());
        }
        return;
    }
    let at = cx.choose(3);
    let mut bad = [o; 3];
    bad[at] = x;
    let (bad, one) = (v(bad), v([o; 3]));
    for (n, (w, a, m, dt)) in [(bad, one, None, o), (one, bad, None, o), (one, one, Some(bad), o), (one, one, Some(one), x)].into_iter().enumerate() {
        cx.holds(&format!("mahony {n}"), matches!(f.step(w, a, m, dt), Err(EstimationError::NonFinite)));
        cx.holds(&format!("madgwick {n}"), matches!(g.step(w, a, m, dt), Err(EstimationError::NonFinite)));
        cx.eqs("mahony facing kept", &f.orientation().quaternion().as_array(), &q);
        cx.eqs("madgwick facing kept", &g.orientation().quaternion().as_array(), &q);
        cx.eqs("mahony bias kept", f.gyroscope_bias().as_slice(), &b);
        cx.eqs("madgwick bias kept", g.gyroscope_bias().as_slice(), &b);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C20", mahony, "MahonyFilter::step; any gains, readings and offset, default and set frame", |x| { x.cfg.abs_fork = true; }),
        h!("C20", madgwick, "MadgwickFilter::step; any gains, readings and offset, default and set frame", |x| { x.cfg.abs_fork = true; }),
        h!("C20", agree, "MahonyFilter at rest; any facing and dip, default and set frame", |x| { x.cfg.abs_fork = true; }),
        h!("C20", defaults, "MahonyFilter, MadgwickFilter default gains", |x| { x.cfg.abs_fork = true; }),
        h!("C20", refuses, "MahonyFilter, MadgwickFilter refusals, with_reference_directions on one direction", |x| { x.cfg.abs_fork = true; }),
    ]
}
