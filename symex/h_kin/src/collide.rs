//! C35: clearance between spheres and capsules.
use crate::tree::{pose, quat};
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::{CollisionQuery, CollisionSource, Joint, JointParent, KinematicTree, Primitive, capsule_capsule_distance, sphere_capsule_distance, sphere_sphere_distance};
use multicalc::linear_algebra::Vector;

fn gap2<S: Sc>(a: &[S; 3], b: &[S; 3]) -> S {
    let d = sub(a, b);
    dot(&d, &d)
}
/// Local z of a turn.
fn up<S: Sc>(q: &[S; 4]) -> [S; 3] {
    let m = rotm(q);
    [m[0][2], m[1][2], m[2][2]]
}
fn clamp1<S: Sc>(cx: &mut Cx<S>, x: S, lim: S) -> S {
    if cx.ask(lt(x, -lim)) {
        -lim
    } else if cx.ask(lt(lim, x)) {
        lim
    } else {
        x
    }
}
/// Squared distance from a point to the segment of half-length `h` along the unit `u` about `c`.
fn to_segment<S: Sc>(cx: &mut Cx<S>, p: &[S; 3], c: &[S; 3], u: &[S; 3], h: S) -> S {
    let along = dot(&sub(p, c), u);
    let k = clamp1(cx, along, h);
    gap2(p, &add(c, &scale(u, k)))
}
fn spheres<S: Sc>(cx: &mut Cx<S>) {
    let (a, b): ([S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"));
    let (r, s) = (cx.nonneg("r"), cx.nonneg("s"));
    let (p, q) = (pose(quat(1), a), pose(quat(2), b));
    let d = sphere_sphere_distance(p, r, q, s);
    let c = d + r + s;
    cx.check("centres", le(S::ZERO, c));
    cx.eq("apart", c * c, gap2(&a, &b));
    cx.eq("same by shape", Primitive::Sphere { radius: r }.distance_to(p, Primitive::Sphere { radius: s }, q), d);
}
fn sphere_capsule<S: Sc>(cx: &mut Cx<S>) {
    let u = quat::<S>(cx.choose(4));
    let a: [S; 3] = cx.vars("a");
    let b = if cx.thorough() { cx.vars("b") } else { [S::ONE, S::rat(-1, 2), S::ZERO] };
    let h = match cx.choose(3) {
        0 => cx.var_open("h", 0.01, 3.0),
        1 => cx.var_open("h", 1e-6, 1e-4),
        _ => S::ZERO,
    };
    let (r, s) = (cx.nonneg("r"), cx.nonneg("s"));
    let (p, q) = (pose(quat(2), a), pose(u, b));
    let d = sphere_capsule_distance(p, r, q, s, h);
    let c = d + r + s;
    cx.check("sign", le(S::ZERO, c));
    let want = to_segment(cx, &a, &b, &up(&u), h);
    cx.eq("nearest of the axis", c * c, want);
    let (ball, rod) = (Primitive::Sphere { radius: r }, Primitive::Capsule { radius: s, half_length: h });
    cx.eq("either way round", ball.distance_to(p, rod, q), d);
    cx.eq("or the other", rod.distance_to(q, ball, p), d);
}
/// Two capsules: the squared distance is the least over the middle pair and the four ends.
fn capsules_in<S: Sc>(cx: &mut Cx<S>, qa: [S; 4], qb: [S; 4], tiny: bool) {
    let (u, v) = (up(&qa), up(&qb));
    let b: [S; 3] = std::array::from_fn(|i| cx.var_hint(&format!("b{i}"), -2.0, 2.0));
    let a = [S::ZERO; 3];
    let (h, k) = if tiny {
        (S::rat(1, 100000), S::rat(3, 200000))
    } else if cx.thorough() {
        (cx.var_open("h", 0.1, 2.0), cx.var_open("k", 0.1, 2.0))
    } else {
        (S::ONE, S::rat(3, 2))
    };
    let (r, s) = (S::rat(1, 8), S::rat(1, 4));
    let (p, q) = (pose(qa, a), pose(qb, b));
    let d = capsule_capsule_distance(p, r, h, q, s, k);
    let c = d + r + s;
    let c2 = c * c;
    cx.check("sign", le(S::ZERO, c));
    // ends of one against the other
    let mut best = vec![];
    for e in [S::ONE, S::c(-1.0)] {
        best.push(to_segment(cx, &add(&a, &scale(&u, h * e)), &b, &v, k));
        best.push(to_segment(cx, &add(&b, &scale(&v, k * e)), &a, &u, h));
    }
    // the feet of the common perpendicular, when both are inside
    let m = dot(&u, &v);
    let den = S::ONE - m * m;
    if !cx.ask(eq(den, S::ZERO)) {
        let w = sub(&b, &a);
        let (x, y) = (dot(&w, &u), dot(&w, &v));
        let (f, g) = ((x - m * y) / den, (m * x - y) / den);
        let inside = and(vec![le(-h, f), le(f, h), le(-k, g), le(g, k)]);
        if cx.ask(inside) {
            best.push(gap2(&add(&a, &scale(&u, f)), &add(&b, &scale(&v, g))));
        }
    }
    if tiny {
        let t = S::c(1e-13);
        for x in &best {
            cx.check("no farther than any", le(c2, *x + t));
        }
        cx.check("one of them", or(best.iter().map(|x| near(c2, *x, 1e-13)).collect()));
        return;
    }
    for x in &best {
        cx.check("no farther than any", le(c2, *x));
    }
    cx.check("one of them", or(best.iter().map(|x| eq(c2, *x)).collect()));
}
fn crossed<S: Sc>(cx: &mut Cx<S>) {
    // perpendicular without roots: (1,1,-1,1)/2 takes z to ±x or ±y
    capsules_in(cx, quat(0), quat(1), false)
}
fn slanted<S: Sc>(cx: &mut Cx<S>) {
    capsules_in(cx, quat(0), quat(2), false)
}
fn parallel<S: Sc>(cx: &mut Cx<S>) {
    let back = cx.choose(2) == 1;
    // the other way up: half a turn about x
    let q = if back { [S::ZERO, S::ONE, S::ZERO, S::ZERO] } else { quat(0) };
    capsules_in(cx, quat(0), q, false)
}
fn tiny<S: Sc>(cx: &mut Cx<S>) {
    capsules_in(cx, quat(0), quat(1), true)
}
/// A capsule of no length is a ball.
fn stubs<S: Sc>(cx: &mut Cx<S>) {
    let b: [S; 3] = cx.vars("b");
    let (r, s) = (cx.nonneg("r"), cx.nonneg("s"));
    let h = if cx.choose(2) == 0 { S::ZERO } else { cx.var_open("h", 0.1, 2.0) };
    let (p, q) = (pose(quat(1), [S::ZERO; 3]), pose(quat(2), b));
    let d = sphere_capsule_distance(p, r, q, s, h);
    cx.eq("first", capsule_capsule_distance(p, r, S::ZERO, q, s, h), d);
    cx.eq("second", capsule_capsule_distance(q, s, h, p, r, S::ZERO), d);
}
type Query<S> = CollisionQuery<4, 2, 2, S>;
/// The check takes the least clearance over every pair not left out, wherever the links stand.
fn query<S: Sc>(cx: &mut Cx<S>) {
    // balls on a slide along x, another along y, and on the ground
    let x = |k: usize| Vector::new(std::array::from_fn(|i| if i == k { S::ONE } else { S::ZERO }));
    let mut t = KinematicTree::<2, 2, S>::new();
    t.push(Joint::prismatic(x(0), pose(quat(0), [S::ZERO; 3])), JointParent::World).unwrap();
    // turned about x: everything stays on one line, where distances are plain differences
    t.push(Joint::prismatic(x(0), pose([S::rat(3, 5), S::rat(4, 5), S::ZERO, S::ZERO], [S::rat(1, 4), S::ZERO, S::ZERO])), JointParent::Joint(0)).unwrap();
    let c = [cx.var_open("c0", -4.0, 4.0), S::rat(1, 3)];
    let s = t.forward_kinematics(&Vector::new(c)).unwrap();
    let n = cx.choose(4) as usize;
    let env = cx.choose(3) as usize;
    let frames = [1usize, 0, 1];
    let mut q = Query::<S>::new();
    let mut centres = vec![];
    let mut radii = vec![];
    for i in 0..n {
        let off = [S::rat(i as i64, 1), S::ZERO, S::ZERO];
        let r = S::rat(1 + i as i64, 8);
        cx.holds("index", q.push_self_primitive(frames[i], Primitive::Sphere { radius: r }, pose(quat(3), off)) == Ok(i));
        let f = s.pose(frames[i]).unwrap();
        centres.push(add(&mv(&rows(&f.rotation().to_matrix()), &off), f.translation().as_array()));
        radii.push(r);
    }
    let mut ground = vec![];
    for i in 0..env {
        let p = [S::rat(3 * i as i64 - 1, 1), S::ZERO, S::ZERO];
        let r = cx.var_in(&format!("g{i}"), 0.0, 1.0);
        cx.holds("ground index", q.push_environment_primitive(Primitive::Sphere { radius: r }, pose(quat(0), p)) == Ok(i));
        ground.push((p, r));
    }
    cx.holds("counts", q.self_primitive_count() == n && q.environment_primitive_count() == env);
    let out = cx.choose(4);
    let mut left = vec![];
    if out & 1 == 1 {
        left.push((0, 1));
        cx.holds("left out", q.exclude_pair(1, 0) == Ok(()));
    }
    if out & 2 == 2 {
        left.push((1, 2));
        cx.holds("left out too", q.exclude_pair(1, 2) == Ok(()));
    }
    let r = q.check(&s).unwrap();
    let mut pairs = vec![];
    let apart = |a: &[S; 3], b: &[S; 3]| gap2(a, b).sqrt();
    for i in 0..n {
        for j in i + 1..n {
            if !left.contains(&(i, j)) {
                pairs.push(((CollisionSource::SelfPrimitive(i), CollisionSource::SelfPrimitive(j)), apart(&centres[i], &centres[j]) - radii[i] - radii[j]));
            }
        }
        for (j, (p, g)) in ground.iter().enumerate() {
            pairs.push(((CollisionSource::SelfPrimitive(i), CollisionSource::Environment(j)), apart(&centres[i], p) - radii[i] - *g));
        }
    }
    let need = cx.var_hint("need", -1.0, 1.0);
    match r.closest_pair {
        None => {
            cx.holds("nothing to check", pairs.is_empty());
            cx.eq("no clearance", r.minimum_clearance, S::ZERO);
            cx.holds("clear of nothing", r.is_clear(need));
        }
        Some(p) => {
            for (_, d) in &pairs {
                cx.check("least", le(r.minimum_clearance, *d));
            }
            let hit = pairs.iter().find(|x| x.0 == p);
            cx.holds("one of the pairs", hit.is_some());
            if let Some(h) = hit {
                cx.eq("its clearance", h.1, r.minimum_clearance);
            }
            let ok = cx.ask(le(need, r.minimum_clearance));
            cx.holds("clear", r.is_clear(need) == ok);
        }
    }
}
fn room<S: Sc>(cx: &mut Cx<S>) {
    let ball = Primitive::Sphere { radius: S::ONE };
    let o = pose(quat(0), [S::ZERO; 3]);
    let mut q = CollisionQuery::<2, 1, 1, S>::new();
    for i in 0..4 {
        let r = q.push_self_primitive(i, ball, o);
        cx.holds("self room", r == if i < 2 { Ok(i) } else { Err(E::CollisionCapacityExceeded) });
        let r = q.push_environment_primitive(ball, o);
        cx.holds("ground room", r == if i < 1 { Ok(i) } else { Err(E::CollisionCapacityExceeded) });
        let r = q.exclude_pair(0, 0);
        cx.holds("exclusion room", r == if i < 1 { Ok(()) } else { Err(E::CollisionCapacityExceeded) });
    }
    let t = KinematicTree::<2, 2, S>::try_from_joints(&[Joint::fixed(o)], &[JointParent::World]).unwrap();
    let s = t.forward_kinematics(&Vector::zeros()).unwrap();
    cx.holds("no such frame", q.check(&s).err() == Some(E::ToolIndexOutOfRange));
}
pub fn all() -> Vec<Harness> {
    let mut v = vec![
        h!("C35", spheres, "sphere_sphere_distance, Primitive::distance_to; all places and radii"),
        h!("C35", sphere_capsule, "sphere_capsule_distance, Primitive::distance_to; any place, half-lengths 0, 1e-6..1e-4, 0.01..3, four turns"),
        h!("C35", crossed, "capsule_capsule_distance; any place, perpendicular axes, half-lengths 1 and 1.5 (thorough: 0.1-2)"),
        h!("C35", slanted, "as above, slanted axes"),
        h!("C35", parallel, "as above, parallel axes either way up"),
        h!("C35", tiny, "as above, half-lengths 10 and 15 micrometres"),
        h!("C35", stubs, "capsule_capsule_distance with a zero half-length; any place, any other half-length"),
        h!("C35", query, "CollisionQuery::{push_*,exclude_pair,check}, CollisionReport::is_clear; 0-3 balls on two links, 0-2 on the ground, any slide and ground radius"),
        h!("C35", room, "CollisionQuery capacities and missing frames"),
    ];
    for x in v.iter_mut() {
        x.cfg.abs_fork = true;
    }
    v
}
