//! C33: kinematic trees.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::{JacobianFrame, Joint, JointKind, JointParent, KinematicTree};
use multicalc::linear_algebra::Vector;
use multicalc::scalar::{Dual, Numeric};
use multicalc::spatial::{Quaternion, SE3, SO3, Twist};

/// Affine map x -> r x + t, over any scalar: the reference.
#[derive(Clone, Copy)]
pub struct Aff<T> {
    pub r: [[T; 3]; 3],
    pub t: [T; 3],
}
impl<T: Numeric> Aff<T> {
    pub fn id() -> Self {
        Aff { r: std::array::from_fn(|i| std::array::from_fn(|j| if i == j { T::ONE } else { T::ZERO })), t: [T::ZERO; 3] }
    }
    pub fn turn(&self, v: &[T; 3]) -> [T; 3] {
        std::array::from_fn(|i| self.r[i][0] * v[0] + self.r[i][1] * v[1] + self.r[i][2] * v[2])
    }
    pub fn at(&self, v: &[T; 3]) -> [T; 3] {
        let x = self.turn(v);
        std::array::from_fn(|i| x[i] + self.t[i])
    }
    pub fn then(&self, o: &Self) -> Self {
        Aff { r: std::array::from_fn(|i| std::array::from_fn(|j| self.r[i][0] * o.r[0][j] + self.r[i][1] * o.r[1][j] + self.r[i][2] * o.r[2][j])), t: self.at(&o.t) }
    }
    /// Rodrigues' rotation by `a` about the unit direction `d` through `p`.
    pub fn about(d: &[T; 3], p: &[T; 3], a: T) -> Self {
        let (s, c) = (a.sin(), a.cos());
        let k = [[T::ZERO, -d[2], d[1]], [d[2], T::ZERO, -d[0]], [-d[1], d[0], T::ZERO]];
        let mut m = Self::id();
        for i in 0..3 {
            for j in 0..3 {
                let kk = k[i][0] * k[0][j] + k[i][1] * k[1][j] + k[i][2] * k[2][j];
                m.r[i][j] = m.r[i][j] + s * k[i][j] + (T::ONE - c) * kk;
            }
        }
        let q = m.turn(p);
        m.t = std::array::from_fn(|i| p[i] - q[i]);
        m
    }
}
/// One joint of a scene, with the numbers behind it.
#[derive(Clone, Copy)]
pub struct Link<S> {
    pub kind: char,
    pub parent: Option<usize>,
    pub dir: [S; 3],
    pub anchor: [S; 3],
    pub oq: [S; 4],
    pub ot: [S; 3],
    pub zero: S,
    /// how far past the zero offset the reading is
    pub disp: S,
}
/// Rational unit quaternions.
pub fn quat<S: Sc>(k: usize) -> [S; 4] {
    let (n, d): ([i64; 4], i64) = [([1, 0, 0, 0], 1), ([1, 1, -1, 1], 2), ([4, 0, 3, 0], 5), ([2, 1, 0, -2], 3)][k];
    n.map(|x| S::rat(x, d))
}
pub fn pose<S: Sc>(q: [S; 4], t: [S; 3]) -> SE3<S> {
    SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(q)), Vector::new(t))
}
pub fn joint<S: Sc>(l: &Link<S>, stretch: S) -> Joint<S> {
    let o = pose(l.oq, l.ot);
    let a = Vector::new(scale(&l.dir, stretch));
    match l.kind {
        'r' => Joint::revolute(a, o).with_anchor(Vector::new(l.anchor)).with_zero_offset(l.zero),
        'c' => Joint::continuous(a, o).with_anchor(Vector::new(l.anchor)).with_zero_offset(l.zero),
        'p' => Joint::prismatic(a, o).with_zero_offset(l.zero),
        _ => Joint::fixed(o),
    }
}
/// The joint frames by direct composition; `live` marks the reading to differentiate by.
pub fn reference<S: Sc>(links: &[Link<S>], live: usize) -> Vec<Aff<Dual<S>>> {
    let k = |x: S| Dual::new(x, S::ZERO);
    let mut out: Vec<Aff<Dual<S>>> = vec![];
    for (i, l) in links.iter().enumerate() {
        let m = rotm(&l.oq);
        let mut at = Aff { r: m.map(|r| r.map(k)), t: l.ot.map(k) };
        if let Some(p) = l.parent {
            at = out[p].then(&at);
        }
        let d = Dual::new(l.disp, if i == live { S::ONE } else { S::ZERO });
        let local = match l.kind {
            'r' | 'c' => Aff::about(&l.dir.map(k), &l.anchor.map(k), d),
            'p' => Aff { t: l.dir.map(|x| k(x) * d), ..Aff::id() },
            _ => Aff::id(),
        };
        out.push(at.then(&local));
    }
    out
}
/// Scenes: kind, parent, axis, origin turn.
fn scenes(k: usize) -> &'static [(char, Option<usize>, usize, usize)] {
    match k {
        0 => &[('r', None, 1, 1)],
        1 => &[('p', None, 0, 2), ('r', Some(0), 3, 0)],
        2 => &[('r', None, 2, 0), ('p', Some(0), 1, 1), ('c', Some(0), 4, 3)],
        3 => &[('f', None, 0, 3), ('c', Some(0), 3, 0), ('r', None, 5, 2)],
        4 => &[('c', None, 4, 0), ('f', Some(0), 0, 2), ('r', Some(1), 2, 1), ('p', Some(1), 1, 0)],
        _ => &[('r', None, 2, 0), ('r', Some(0), 4, 1), ('p', Some(1), 3, 0), ('c', Some(2), 2, 0)],
    }
}
pub fn draw<S: Sc>(cx: &mut Cx<S>, k: usize) -> Vec<Link<S>> {
    let list = scenes(k);
    let small = list.len() < 3;
    list.iter()
        .enumerate()
        .map(|(i, &(kind, parent, dir, turn))| {
            let mut v3 = |n: &str, on: bool, c: [i64; 3]| -> [S; 3] {
                std::array::from_fn(|j| if on { cx.var_hint(&format!("{n}{i}{j}"), -2.0, 2.0) } else { S::rat(c[j], 2) })
            };
            let ot = v3("o", small || i + 1 == list.len(), [1, -3, 2]);
            let anchor = v3("a", small || i == 0, [-1, 1, 4]);
            let zero = cx.var_hint(&format!("z{i}"), -1.0, 1.0);
            let disp = match kind {
                'p' => cx.var_hint(&format!("d{i}"), -2.0, 2.0),
                'f' => S::ZERO,
                _ => {
                    let a = cx.var_open(&format!("d{i}"), 0.1, 2.5);
                    if (k + i) % 2 == 1 { -a } else { a }
                }
            };
            Link { kind, parent, dir: dirs(dir), anchor, oq: quat(turn), ot, zero, disp }
        })
        .collect()
}
pub fn build<S: Sc, const N: usize, const C: usize>(links: &[Link<S>], stretch: S) -> KinematicTree<N, C, S> {
    let joints: Vec<_> = links.iter().map(|l| joint(l, stretch)).collect();
    let parents: Vec<_> = links.iter().map(|l| l.parent.map_or(JointParent::World, JointParent::Joint)).collect();
    KinematicTree::try_from_joints(&joints, &parents).unwrap()
}
pub fn readings<S: Sc, const C: usize>(links: &[Link<S>]) -> Vector<C, S> {
    Vector::new(std::array::from_fn(|i| links.get(i).map_or(S::ZERO, |l| if l.kind == 'f' { S::NAN } else { l.disp + l.zero })))
}
fn mat<S: Sc>(p: &SE3<S>) -> Rows<S, 3, 3> {
    rows(&p.rotation().to_matrix())
}
fn values<S: Sc>(a: &Aff<Dual<S>>) -> (Rows<S, 3, 3>, [S; 3]) {
    (a.r.map(|r| r.map(|x| x.value)), a.t.map(|x| x.value))
}
/// Every joint frame is its parent's, moved by the origin and by the joint's own motion.
fn frames_in<S: Sc>(cx: &mut Cx<S>, k: usize) {
    let links = draw(cx, k);
    let st = if k == 0 { cx.var_open("stretch", 0.2, 3.0) } else { S::rat(3, 2) };
    let t: KinematicTree<5, 5, S> = build(&links, st);
    let s = t.forward_kinematics(&readings(&links)).unwrap();
    cx.holds("shape", s.len() == links.len() && s.pose(links.len()).is_none() && t.len() == links.len() && s.poses().len() == links.len());
    for (i, a) in reference(&links, 99).iter().enumerate() {
        let p = s.pose(i).unwrap();
        let (r, x) = values(a);
        meq(cx, &format!("turn {i}"), &mat(&p), &r);
        veq(cx, &format!("place {i}"), p.translation(), x);
        cx.holds("listed", t.parent(i) == Some(links[i].parent.map_or(JointParent::World, JointParent::Joint)));
    }
}
fn frames<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(4);
    frames_in(cx, k)
}
fn frames_long<S: Sc>(cx: &mut Cx<S>) {
    let k = 4 + cx.choose(2);
    frames_in(cx, k)
}
/// Column j is the rate at which the frame moves and turns as reading j grows.
fn columns_in<S: Sc>(cx: &mut Cx<S>, k: usize) {
    let links = draw(cx, k);
    let n = links.len();
    let tool = cx.choose(n as u32);
    let t: KinematicTree<5, 6, S> = build(&links, S::TWO);
    let q = readings(&links);
    let j = t.geometric_jacobian_at(&q, tool, JacobianFrame::World).unwrap();
    cx.holds("shape", j.columns() == n && j.frame() == JacobianFrame::World && !j.is_empty() && j.column(n).is_none());
    for c in 0..n {
        let a = reference(&links, c)[tool];
        let col = *j.column(c).unwrap().to_vector().as_array();
        cx.eqs(&format!("column {c} travel"), &col[..3], &a.t.map(|x| x.deriv));
        // dR = [w] R
        let (r, _) = values(&a);
        let d = a.r.map(|r| r.map(|x| x.deriv));
        let w = mm(&d, &tr(&r));
        meq(cx, &format!("column {c} turn"), &skew(&[col[3], col[4], col[5]]), &w);
    }
    for c in n..6 {
        for r in 0..6 {
            cx.eq("unused slot", j.matrix()[(r, c)], S::ZERO);
        }
    }
}
fn columns_a<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(2);
    columns_in(cx, k)
}
fn columns_b<S: Sc>(cx: &mut Cx<S>) {
    let k = 2 + cx.choose(2);
    columns_in(cx, k)
}
fn columns_c<S: Sc>(cx: &mut Cx<S>) {
    let k = 4 + if cx.thorough() { cx.choose(2) } else { 0 };
    columns_in(cx, k)
}
/// Body columns are the world ones seen from the tool; rates combine linearly.
fn body<S: Sc>(cx: &mut Cx<S>) {
    let k = 1 + cx.choose(3);
    let links = draw(cx, k);
    let n = links.len();
    let tool = n - 1;
    let t: KinematicTree<5, 4, S> = build(&links, S::TWO);
    let s = t.forward_kinematics(&readings(&links)).unwrap();
    let w = t.geometric_jacobian(&s, tool, JacobianFrame::World).unwrap();
    let b = t.geometric_jacobian(&s, tool, JacobianFrame::Body).unwrap();
    cx.holds("frame", b.frame() == JacobianFrame::Body);
    let back = tr(&mat(&s.pose(tool).unwrap()));
    for c in 0..n {
        let wc = *w.column(c).unwrap().to_vector().as_array();
        let bc = *b.column(c).unwrap().to_vector().as_array();
        cx.eqs("travel", &bc[..3], &mv(&back, &[wc[0], wc[1], wc[2]]));
        cx.eqs("turn", &bc[3..], &mv(&back, &[wc[3], wc[4], wc[5]]));
    }
    let rates: [S; 4] = cx.vars("rate");
    let tw: Twist<S> = w.tool_twist(&Vector::new(rates));
    let mut sum = [S::ZERO; 6];
    for c in 0..n {
        sum = add(&sum, &scale(w.column(c).unwrap().to_vector().as_array(), rates[c]));
    }
    cx.eqs("twist", tw.to_vector().as_array(), &sum);
}
/// A floating root: its seven readings are a place in the origin's axes and an orientation of any
/// length; its six columns slide along the origin's axes and turn about the body's own.
fn floating<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 3] = cx.vars("p");
    let k = cx.var_open("len", 0.2, 3.0);
    let q = if cx.thorough() { ratq(cx, "q") } else { quat(3 - cx.choose(2)) };
    let oq = quat::<S>(cx.choose(3));
    let ot: [S; 3] = cx.vars("ot");
    let mut arm = draw(cx, 0)[0];
    arm.parent = Some(0);
    let mut t = KinematicTree::<3, 9, S>::new();
    t.push(Joint::floating(pose(oq, ot)), JointParent::World).unwrap();
    t.push(joint(&arm, S::TWO), JointParent::Joint(0)).unwrap();
    cx.holds("slots", t.has_floating_base() && t.config_len() == 8 && t.velocity_len() == 7 && t.config_offset(1) == Some(7) && t.velocity_offset(1) == Some(6) && t.config_offset(0) == Some(0) && t.velocity_offset(0) == Some(0) && t.config_offset(2).is_none() && t.velocity_offset(2).is_none());
    let [w, x, y, z] = scale(&q, k);
    let c = Vector::new([p[0], p[1], p[2], w, x, y, z, arm.disp + arm.zero, S::NAN]);
    let s = t.forward_kinematics(&c).unwrap();
    let root = Aff { r: rotm(&oq), t: ot };
    let base = root.then(&Aff { r: rotm(&q), t: p });
    meq(cx, "root turn", &mat(&s.pose(0).unwrap()), &base.r);
    veq(cx, "root place", s.pose(0).unwrap().translation(), base.t);
    let link = Aff { r: rotm(&arm.oq), t: arm.ot }.then(&Aff::about(&arm.dir, &arm.anchor, arm.disp));
    let tip = base.then(&link);
    meq(cx, "tip turn", &mat(&s.pose(1).unwrap()), &tip.r);
    veq(cx, "tip place", s.pose(1).unwrap().translation(), tip.t);
    let j = t.geometric_jacobian(&s, 1, JacobianFrame::World).unwrap();
    cx.holds("columns", j.columns() == 7);
    for i in 0..3 {
        let e: [S; 3] = std::array::from_fn(|n| if n == i { S::ONE } else { S::ZERO });
        let col = *j.column(i).unwrap().to_vector().as_array();
        cx.eqs("slide", &col[..3], &root.turn(&e));
        cx.eqs("slide turns nothing", &col[3..], &[S::ZERO; 3]);
        // the body turned on about its own axis i: R exp(a[e]) carries the arm along
        let col = *j.column(3 + i).unwrap().to_vector().as_array();
        let axis = base.turn(&e);
        cx.eqs("turn", &col[3..], &axis);
        cx.eqs("turn carries the tip", &col[..3], &cross(&axis, &sub(&tip.t, &base.t)));
    }
    let col = *j.column(6).unwrap().to_vector().as_array();
    let axis = base.then(&Aff { r: rotm(&arm.oq), t: arm.ot }).turn(&arm.dir);
    cx.eqs("arm", &col[3..], &axis);
}
/// Models that cannot be are refused, whichever joint they are at.
fn refusals<S: Sc>(cx: &mut Cx<S>) {
    let good = Joint::prismatic(Vector::new([S::ONE, S::ZERO, S::ZERO]), pose(quat(0), [S::ZERO; 3]));
    let v = cx.any("v");
    let fin = v.is_finite();
    let o = |t: S| pose(quat(0), [t, S::ZERO, S::ZERO]);
    let x = Vector::new([S::ONE, S::ZERO, S::ZERO]);
    let kind = cx.choose(4);
    let mk = |a: Vector<3, S>, or: SE3<S>| match kind {
        0 => Joint::revolute(a, or),
        1 => Joint::prismatic(a, or),
        2 => Joint::continuous(a, or),
        _ => Joint::fixed(or),
    };
    let mut limit = None;
    let j = match cx.choose(9) {
        0 => mk(x, o(v)),
        1 => mk(x, SE3::from_parts(SO3::from_quaternion(Quaternion::from_array([S::ONE, v, S::ZERO, S::ZERO])), Vector::new([S::ZERO; 3]))),
        2 => mk(x, o(S::ONE)).with_anchor(Vector::new([S::ZERO, S::ZERO, v])),
        3 => mk(x, o(S::ONE)).with_zero_offset(v),
        4 => mk(x, o(S::ONE)).with_armature(v),
        5 => mk(x, o(S::ONE)).with_damping(v),
        6 => mk(x, o(S::ONE)).with_friction_loss(v),
        7 => {
            limit = Some(cx.any("upper"));
            mk(x, o(S::ONE)).with_limits(v, limit.unwrap())
        }
        _ => {
            // an axis of any length, one entry of any value
            if fin && kind < 3 {
                let zero = cx.ask(eq(v, S::ZERO));
                if !zero {
                    cx.assume(or(vec![lt(v, S::c(-0.01)), lt(S::c(0.01), v)]));
                }
                let r = KinematicTree::<1, 1, S>::try_from_joints(&[mk(Vector::new([S::ZERO, v, S::ZERO]), o(S::ONE))], &[JointParent::World]);
                if zero {
                    cx.holds("no direction", r == Err(E::AxisHasNoDirection));
                } else {
                    let a = *r.unwrap().joint(0).unwrap().axis().as_array();
                    cx.eqs("unit axis", &a, &[S::ZERO, v / v.abs(), S::ZERO]);
                }
                return;
            }
            if kind == 3 {
                return;
            }
            mk(Vector::new([S::ZERO, v, S::ZERO]), o(S::ONE))
        }
    };
    let mut t = KinematicTree::<3, 3, S>::new();
    let at = cx.choose(2);
    for _ in 0..at {
        t.push(good, JointParent::World).unwrap();
    }
    let r = t.push(j, JointParent::World);
    let stays = if let Some(u) = limit {
        let want = if !fin || !u.is_finite() {
            Err(E::NonFinite)
        } else if cx.ask(lt(u, v)) {
            Err(E::LimitsReversed)
        } else if kind == 2 {
            Err(E::ContinuousJointHasLimits)
        } else {
            Ok(())
        };
        cx.holds("limits", r == want);
        want.is_ok()
    } else {
        cx.holds("finite numbers only", r == if fin { Ok(()) } else { Err(E::NonFinite) });
        fin
    };
    cx.holds("length", t.len() == at + stays as usize && t.is_empty() == (t.len() == 0) && t.config_len() == t.len() && t.velocity_len() == t.len());
    cx.holds("reads back", t.joint(t.len()).is_none() && t.parent(t.len()).is_none());
    if stays {
        let b = t.joint(at).unwrap();
        cx.holds("same joint", b.kind() == [JointKind::Revolute, JointKind::Prismatic, JointKind::Continuous, JointKind::Fixed][kind]);
    }
}
fn order<S: Sc>(cx: &mut Cx<S>) {
    let j = Joint::revolute(Vector::new([S::ONE, S::ZERO, S::ZERO]), pose(quat(0), [S::ZERO; 3]));
    let f = Joint::floating(pose(quat(0), [S::ZERO; 3]));
    let n = cx.choose(4);
    let first_floats = cx.choose(2) == 1;
    fn go<S: Sc, const C: usize>(cx: &mut Cx<S>, j: Joint<S>, f: Joint<S>, n: usize, first: bool) {
        let mut t = KinematicTree::<3, C, S>::new();
        let mut used = 0;
        for i in 0..n {
            let float = first && i == 0;
            let w = if float { 7 } else { 1 };
            let r = t.push(if float { f } else { j }, if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) });
            if used + w > C {
                cx.holds("no slots left", r == Err(E::ConfigurationCapacityExceeded));
                break;
            }
            used += w;
            cx.holds("fits", r.is_ok() && t.config_len() == used);
        }
        let have = t.len();
        cx.holds("widths", t.config_len() == used && t.velocity_len() == if first && have > 0 { have + 5 } else { have });
        if have == 3 {
            cx.holds("full", t.push(j, JointParent::World) == Err(E::CapacityExceeded));
            return;
        }
        for p in have..have + 2 {
            cx.holds("parent not yet there", t.push(j, JointParent::Joint(p)) == Err(E::ParentOutOfOrder));
        }
        if have > 0 {
            cx.holds("floats at the root only", t.push(f, JointParent::World) == Err(E::FloatingJointNotAtRoot) && t.push(f, JointParent::Joint(0)) == Err(E::FloatingJointNotAtRoot));
        }
        cx.holds("unchanged", t.len() == have && t.config_len() == used);
    }
    match cx.choose(4) {
        0 => go::<S, 2>(cx, j, f, n, first_floats),
        1 => go::<S, 3>(cx, j, f, n, first_floats),
        2 => go::<S, 8>(cx, j, f, n, first_floats),
        _ => go::<S, 9>(cx, j, f, n, first_floats),
    }
    cx.holds("counts differ", KinematicTree::<3, 3, S>::try_from_joints(&[j, j], &[JointParent::World]) == Err(E::JointCountMismatch));
}
/// Readings that are not finite stop the sweep, but a weld ignores its slot; bad tools and foreign
/// states are refused.
fn queries<S: Sc>(cx: &mut Cx<S>) {
    let links = draw(cx, 3);
    let t: KinematicTree<5, 4, S> = build(&links, S::TWO);
    let v = cx.any("v");
    cx.assume(if v.is_finite() { lt(S::rat(1, 10), v - links[1].zero) } else { Prop::B(true) });
    let at = cx.choose(4);
    let mut q = readings::<S, 4>(&links);
    if at == 1 || !v.is_finite() {
        q[at] = v;
    }
    let r = t.forward_kinematics(&q);
    if !v.is_finite() && (at == 1 || at == 2) {
        cx.holds("bad reading", r.err() == Some(E::NonFinite));
        cx.holds("bad reading, columns", t.geometric_jacobian_at(&q, 0, JacobianFrame::Body).err() == Some(E::NonFinite));
        return;
    }
    cx.holds("ignored slots", r.is_ok());
    let s = r.unwrap();
    for tool in 3..6 {
        cx.holds("no such tool", t.geometric_jacobian(&s, tool, JacobianFrame::World).err() == Some(E::ToolIndexOutOfRange));
    }
    let other: KinematicTree<5, 4, S> = build(&links[..2], S::TWO);
    cx.holds("foreign state", other.geometric_jacobian(&s, 1, JacobianFrame::World).err() == Some(E::StateShapeMismatch));
    // a floating joint with no orientation
    let mut f = KinematicTree::<1, 7, S>::new();
    f.push(Joint::floating(pose(quat(0), [S::ZERO; 3])), JointParent::World).unwrap();
    cx.holds("no orientation", f.forward_kinematics(&Vector::zeros()).err() == Some(E::OrientationHasNoDirection));
}
/// Distance between configurations: the root of the squared differences, the short way round for a
/// joint that turns without end, nothing for a weld.
fn distance<S: Sc>(cx: &mut Cx<S>) {
    let o = pose(quat(0), [S::ZERO; 3]);
    let x = Vector::new([S::ONE, S::ZERO, S::ZERO]);
    let joints = [Joint::revolute(x, o), Joint::continuous(x, o), Joint::fixed(o), Joint::prismatic(x, o)];
    let at = cx.choose(4);
    let t = KinematicTree::<4, 4, S>::try_from_joints(&joints, &[JointParent::World; 4]).unwrap();
    let (a, b): ([S; 4], [S; 4]) = (cx.vars("a"), cx.vars("b"));
    // one reading apart, then all but the endless one
    let d = a[at] - b[at];
    cx.assume(and(vec![lt(S::c(-8.0), d), lt(d, S::c(8.0))]));
    let mut far = a;
    far[at] = b[at];
    let r = t.configuration_distance(&Vector::new(a), &Vector::new(far));
    let tau = S::from_f64(core::f64::consts::TAU);
    match at {
        1 => {
            let ways = [d, d + tau, d - tau];
            for w in ways {
                cx.check("no longer than any way round", le(r, w.abs() + S::c(1e-12)));
            }
            cx.check("one of them", or(ways.iter().map(|w| near(r, w.abs(), 1e-12)).collect()));
        }
        2 => cx.eq("weld", r, S::ZERO),
        _ => cx.eq("plain", r, d.abs()),
    }
    let mut far = b;
    far[1] = a[1];
    let r = t.configuration_distance(&Vector::new(a), &Vector::new(far));
    cx.check("not negative", le(S::ZERO, r));
    cx.eq("sum of squares", r * r, (a[0] - b[0]) * (a[0] - b[0]) + (a[3] - b[3]) * (a[3] - b[3]));
}
fn distance_floating<S: Sc>(cx: &mut Cx<S>) {
    let mut t = KinematicTree::<2, 8, S>::new();
    t.push(Joint::floating(pose(quat(2), [S::ONE; 3])), JointParent::World).unwrap();
    t.push(Joint::prismatic(Vector::new([S::ONE, S::ZERO, S::ZERO]), pose(quat(0), [S::ZERO; 3])), JointParent::Joint(0)).unwrap();
    let (p, g): ([S; 4], [S; 4]) = (cx.vars("p"), cx.vars("g"));
    let q = quat::<S>(cx.choose(4));
    let u = cx.var_open("u", 0.05, 0.9);
    let d = dirs::<S>(cx.choose(2));
    let (s, c) = (S::TWO * u / (S::ONE + u * u), (S::ONE - u * u) / (S::ONE + u * u));
    let th = S::TWO * s.atan2(c);
    // q turned on by th about d, either sign and any length
    let k = if cx.choose(2) == 0 { S::rat(3, 2) } else { S::rat(-2, 1) };
    let v = scale(&d, s);
    let (w, u) = (q[0], [q[1], q[2], q[3]]);
    let uv = cross(&u, &v);
    let e = [w * c - dot(&u, &v), w * v[0] + c * u[0] + uv[0], w * v[1] + c * u[1] + uv[1], w * v[2] + c * u[2] + uv[2]].map(|x| x * k);
    let a = Vector::new([p[0], p[1], p[2], q[0], q[1], q[2], q[3], p[3]]);
    let b = Vector::new([g[0], g[1], g[2], e[0], e[1], e[2], e[3], g[3]]);
    let r = t.configuration_distance(&a, &b);
    let gap = sub(&p, &g);
    cx.check("not negative", le(S::ZERO, r));
    cx.eq("place, turn and slide", r * r, dot(&gap, &gap) + th * th);
}
pub fn all() -> Vec<Harness> {
    let arc = |x: &mut Harness| {
        x.cfg.abs_fork = true;
        x.cfg.arc = true;
        x.cfg.trig_base = 4;
    };
    let mut v = vec![
        h!("C33", frames, "KinematicTree::forward_kinematics; four scenes of 1-3 joints, all origins' places, anchors, zero offsets, readings; angles 0.1-2.5 of either sign"),
        h!("C33", frames_long, "as above; a branching and a serial scene of four joints"),
        h!("C33", columns_a, "KinematicTree::geometric_jacobian(_at), KinematicJacobian::column; one and two joints, every tool"),
        h!("C33", columns_b, "as above; three joints, branching"),
        h!("C33", columns_c, "as above; four joints"),
        h!("C33", body, "geometric_jacobian in the body frame, tool_twist; three scenes"),
        h!("C33", floating, "floating root: forward_kinematics, geometric_jacobian, offsets; any place and orientation length, two (thorough: all) orientations, three origins"),
        h!("C33", refusals, "KinematicTree::push, try_from_joints; any number finite or not in each place"),
        h!("C33", order, "push; capacity, parent order, floating roots, configuration slots of 2, 3, 8, 9"),
        h!("C33", queries, "forward_kinematics and geometric_jacobian on bad readings, tools and states"),
        h!("C33", distance, "configuration_distance; any readings up to 8 apart"),
        h!("C33", distance_floating, "configuration_distance with a floating root; any places, any angle 0.1-2.9 about two axes"),
    ];
    for x in v.iter_mut() {
        arc(x);
    }
    v
}
