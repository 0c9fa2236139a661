//! C34: inverse kinematics and singularity measures.
use crate::tree::{pose, quat};
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::{InverseKinematics as IK, InverseKinematicsReport as Report, InverseKinematicsTermination as End, JacobianFrame, Joint, JointParent, KinematicTree, MultiStartInverseKinematics, SecondaryObjective, SingularityKind};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::random::RandomSource;
use multicalc::spatial::SE3;

fn at<S: Sc>(t: [S; 3]) -> SE3<S> {
    pose(quat(0), t)
}
fn axis<S: Sc>(k: usize) -> Vector<3, S> {
    Vector::new(std::array::from_fn(|i| if i == k { S::ONE } else { S::ZERO }))
}
fn slide<S: Sc>(k: usize) -> Joint<S> {
    Joint::prismatic(axis(k), at([S::ZERO; 3]))
}
fn chain<S: Sc, const N: usize, const C: usize>(joints: &[Joint<S>]) -> KinematicTree<N, C, S> {
    let p: Vec<_> = (0..joints.len()).map(|i| if i == 0 { JointParent::World } else { JointParent::Joint(i - 1) }).collect();
    KinematicTree::try_from_joints(joints, &p).unwrap()
}
/// What every report must say, whatever was solved: residuals of the configuration it carries,
/// inside the limits, and arrived exactly when both residuals are within tolerance.
fn truth<S: Sc, const N: usize, const C: usize>(cx: &mut Cx<S>, t: &KinematicTree<N, C, S>, r: &Report<C, S>, target: &[S; 3], tol: S, budget: usize) {
    let here = *t.forward_kinematics(&r.joint_positions).unwrap().pose(t.len() - 1).unwrap().translation().as_array();
    let gap = sub(target, &here);
    cx.check("residual sign", le(S::ZERO, r.position_error));
    cx.eq("residual", r.position_error * r.position_error, dot(&gap, &gap));
    cx.eq("nothing to turn", r.orientation_error, S::ZERO);
    cx.holds("budget", r.iterations <= budget);
    match r.termination {
        End::Converged => cx.check("arrived", le(r.position_error, tol)),
        End::Stalled => cx.check("not arrived", lt(tol, r.position_error)),
        _ => {
            cx.holds("budget spent", r.iterations == budget);
            cx.check("not arrived yet", lt(tol, r.position_error));
        }
    }
    for (i, v) in r.joint_positions.as_slice().iter().enumerate() {
        if let Some((lo, hi)) = t.joint(i).and_then(|j| j.limits()) {
            cx.check("inside the limits", and(vec![le(lo, *v), le(*v, hi)]));
        }
    }
}
/// A slide along x, a weld and a slide along y: each step is the damped least-squares one, cut to
/// the longest step allowed and held inside the limits.
fn gantry<S: Sc>(cx: &mut Cx<S>) {
    let damped = cx.choose(2) == 1;
    let full = cx.thorough();
    let (lo, hi) = if full { (cx.var_open("lo", -1.5, -0.5), cx.var_open("hi", 0.5, 1.5)) } else { (S::c(-1.0), S::ONE) };
    let weld = at([S::ONE, S::ZERO, S::TWO]);
    let held = cx.choose(2) == 1;
    let x = if held { slide(0).with_limits(lo, hi) } else { slide(0) };
    let t: KinematicTree<3, 3, S> = chain(&[x, Joint::fixed(weld), slide(1)]);
    let s = [if held { cx.var_in("s0", -2.0, 2.0) } else { S::rat(1, 3) }, S::rat(1, 4), if full { cx.var_in("s1", -2.0, 2.0) } else { S::ZERO }];
    // the error in two perfect triples keeps its length rational
    let k = cx.choose(3);
    let dirn = [[S::ONE, S::ZERO], [S::rat(3, 5), S::rat(-4, 5)], [S::ZERO, S::ONE]][k];
    let d = cx.var_in("d", -2.0, 2.0);
    let start = if held { clamp(cx, s[0], lo, hi) } else { s[0] };
    let (ex, ey) = (dirn[0] * d, dirn[1] * d);
    let target = [start + ex + S::ONE, s[2] + ey, S::TWO];
    let tol = S::rat(1, 100);
    let cap = if full || !held { cx.var_open("cap", 0.1, 0.9) } else { S::rat(1, 2) };
    let lam = if damped { cx.var_open("lam", 0.1, 1.0) } else { S::ZERO };
    let w = if full { [cx.var_open("w0", 0.5, 2.0), S::ONE, S::TWO] } else { [S::TWO, S::ONE, S::TWO] };
    let ik = IK::<3, S>::new().with_position_tolerance(tol).with_orientation_tolerance(tol).with_maximum_iterations(1).with_singular_value_threshold(if damped { S::ONE } else { S::ZERO }).with_maximum_damping(lam).with_maximum_step_norm(cap).with_minimum_step_norm(S::rat(1, 1000)).with_joint_weights(Vector::new(w));
    let r = ik.solve(&t, 2, at(target), &Vector::new(s)).unwrap();
    truth(cx, &t, &r, &target, tol, 1);
    cx.eq("weld keeps its slot", r.joint_positions[1], s[1]);
    if r.iterations == 1 && r.termination == End::Converged && cx.ask(le(d.abs(), tol)) {
        cx.eq("already there", r.joint_positions[0], start);
        return;
    }
    // this many slides cannot span the task: damping is at its full value
    let share = |e: S, w: S| e / (S::ONE + lam * lam * w);
    let (mut qx, mut qy) = (share(ex, w[0]), share(ey, w[2]));
    let len = if k == 1 && damped && full { (qx * qx + qy * qy).sqrt() } else if k == 1 { share(d, w[0]).abs() } else { (qx + qy).abs() };
    if cx.ask(lt(cap, len)) {
        (qx, qy) = (qx * cap / len, qy * cap / len);
    }
    let want = if held { clamp(cx, start + qx, lo, hi) } else { start + qx };
    if r.termination == End::Stalled {
        let still = |a: S| and(vec![le(a, S::rat(1, 1000)), le(S::rat(-1, 1000), a)]);
        cx.check("hardly moved", and(vec![still(want - start), still(qy)]));
        cx.eqs("stays", r.joint_positions.as_slice(), &[start, s[1], s[2]]);
    } else {
        cx.eqs("step", r.joint_positions.as_slice(), &[want, s[1], s[2] + qy]);
    }
}
fn clamp<S: Sc>(cx: &mut Cx<S>, x: S, lo: S, hi: S) -> S {
    if cx.ask(lt(x, lo)) {
        lo
    } else if cx.ask(lt(hi, x)) {
        hi
    } else {
        x
    }
}
/// Several steps: the report is true at every budget, reachable targets are reached, and a stall
/// means the next step leads nowhere.
fn several<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(4) as usize;
    let t: KinematicTree<2, 2, S> = chain(&[slide(0).with_limits(S::c(-1.0), S::ONE), slide(1)]);
    let d = cx.var_in("d", -2.0, 2.0);
    let up = cx.choose(2) == 1;
    let s = [S::rat(1, 4), S::ZERO];
    let target = if up { [s[0], s[1] + d, S::ZERO] } else { [s[0] + d, s[1], S::ZERO] };
    let tol = S::rat(1, 50);
    let ik = IK::<2, S>::new().with_position_tolerance(tol).with_maximum_iterations(n).with_singular_value_threshold(S::ZERO).with_maximum_step_norm(S::rat(1, 2)).with_minimum_step_norm(S::rat(1, 100));
    let r = ik.solve(&t, 1, at(target), &Vector::new(s)).unwrap();
    truth(cx, &t, &r, &target, tol, n);
    let edge = if up { S::c(9.0) } else { cx.holds("keeps off the other slide", true); S::ONE };
    let reach = and(vec![le(d.abs(), S::from_f64(n as f64 * 0.5)), le(s[0] + d, edge), le(S::ZERO - edge, s[0] + d)]);
    cx.check("reached within its steps", or(vec![not(reach), Prop::B(r.termination == End::Converged)]));
    if r.termination == End::Stalled {
        let again = ik.solve(&t, 1, at(target), &r.joint_positions).unwrap();
        cx.holds("still stalled", again.termination == End::Stalled && again.iterations == 1);
        cx.eqs("same place", again.joint_positions.as_slice(), r.joint_positions.as_slice());
    }
}
/// Two slides along x and one along y: the posture wanted is followed only where the tool stays.
fn posture<S: Sc>(cx: &mut Cx<S>) {
    let free = cx.choose(2);
    let full = cx.thorough();
    let (lo, hi) = (cx.var_open("lo", -9.0, -5.0), if full { cx.var_open("hi", 5.0, 9.0) } else { S::c(7.0) });
    let joints = [slide(0).with_limits(lo, hi), slide(0), slide(1).with_limits(S::c(-8.0), S::c(8.0))];
    let t: KinematicTree<3, 3, S> = chain(&joints);
    let s: [S; 3] = std::array::from_fn(|i| if i == 0 || full { cx.var_in(&format!("s{i}"), -2.0, 2.0) } else { S::rat(1 - i as i64, 3) });
    let e = [cx.var_open("ex", 0.1, 1.0), S::ZERO];
    let target = [s[0] + s[1] + e[0], s[2] + e[1], S::ZERO];
    let g = if free == 1 || full { cx.var_open("gain", 0.05, 0.5) } else { S::rat(1, 5) };
    let w = if full { [cx.var_open("w0", 0.6, 0.9), S::TWO, S::ONE] } else { [S::rat(1, 2), S::TWO, S::ONE] };
    let p: [S; 3] = std::array::from_fn(|i| if free == 0 { cx.var_in(&format!("p{i}"), -2.0, 2.0) } else { S::ZERO });
    let (obj, bias) = if free == 0 {
        (SecondaryObjective::PreferredPosture(Vector::new(p)), [g * (p[0] - s[0]), g * (p[1] - s[1]), g * (p[2] - s[2])])
    } else {
        let mid = (lo + hi) * S::HALF;
        (SecondaryObjective::JointLimitMargin, [g * (mid - s[0]) / (hi - lo), S::ZERO, g * (S::ZERO - s[2]) / S::c(16.0)])
    };
    let ik = IK::<3, S>::new().with_position_tolerance(S::rat(1, 100)).with_maximum_iterations(1).with_singular_value_threshold(S::ZERO).with_maximum_step_norm(S::c(100.0)).with_joint_weights(Vector::new(w)).with_secondary_gain(g).with_secondary_objective(obj);
    let r = ik.solve(&t, 2, at(target), &Vector::new(s)).unwrap();
    truth(cx, &t, &r, &target, S::rat(1, 100), 1);
    cx.holds("arrives all the same", r.termination == End::Converged);
    cx.eq("the whole way", r.position_error, S::ZERO);
    let (a, b) = (S::ONE / w[0], S::ONE / w[1]);
    let first = s[0] + a / (a + b) * e[0] + bias[0] - a / (a + b) * (bias[0] + bias[1]);
    cx.eq("first slide", r.joint_positions[0], first);
    cx.eq("y slide", r.joint_positions[2], s[2] + e[1]);
}
/// Turning: one joint, any gap below half a turn, reported and closed in one step or cut short.
fn turning<S: Sc>(cx: &mut Cx<S>) {
    let endless = cx.choose(2) == 1;
    let o = at([S::ONE, S::ZERO, S::ZERO]);
    let j = if endless { Joint::continuous(axis(2), o) } else { Joint::revolute(axis(2), o) };
    let t: KinematicTree<1, 1, S> = chain(&[j]);
    let u = cx.var_open("u", 0.1, 0.9);
    let side = if cx.choose(2) == 1 { S::ONE } else { S::c(-1.0) };
    let (s, c) = (S::TWO * u / (S::ONE + u * u), (S::ONE - u * u) / (S::ONE + u * u));
    let th = S::TWO * s.atan2(c);
    let target = pose([c, S::ZERO, S::ZERO, s * side], [S::ONE, S::ZERO, S::ZERO]);
    let n = cx.choose(2) as usize;
    let ik = IK::<1, S>::new().with_maximum_iterations(n).with_singular_value_threshold(S::ZERO).with_maximum_step_norm(S::c(7.0));
    let r = ik.solve(&t, 0, target, &Vector::new([S::ZERO])).unwrap();
    cx.eq("no gap in place", r.position_error, S::ZERO);
    if n == 0 {
        cx.eq("gap", r.orientation_error, th);
        cx.holds("not arrived", r.termination == End::IterationBudget && r.iterations == 0);
    } else {
        cx.eq("turned on", r.joint_positions[0], th * side);
        cx.holds("arrived", r.termination == End::Converged);
    }
}
/// A floating root reaches any place in one step, whichever way its origin is turned.
fn afloat<S: Sc>(cx: &mut Cx<S>) {
    let oq = quat::<S>(cx.choose(3));
    let q = quat::<S>(2 * cx.choose(2));
    let t: KinematicTree<2, 8, S> = {
        let mut t = KinematicTree::new();
        t.push(Joint::floating(pose(oq, [S::ONE, S::ZERO, S::TWO])), JointParent::World).unwrap();
        t.push(Joint::fixed(at([S::ZERO, S::rat(1, 2), S::ZERO])), JointParent::Joint(0)).unwrap();
        t
    };
    let p: [S; 3] = cx.vars("p");
    let mut v = [S::ZERO; 8];
    v[..3].copy_from_slice(&p);
    v[3..7].copy_from_slice(&q);
    let here = t.forward_kinematics(&Vector::new(v)).unwrap().pose(1).unwrap();
    let k = cx.var_open("k", 0.1, 3.0);
    let d = scale(&dirs::<S>(cx.choose(2)), k);
    let to = SE3::from_parts(here.rotation(), Vector::new(add(here.translation().as_array(), &d)));
    let r = IK::<8, S>::new().with_maximum_step_norm(S::c(9.0)).with_maximum_iterations(1).solve(&t, 1, to, &Vector::new(v)).unwrap();
    cx.holds("arrived", r.termination == End::Converged);
    cx.eq("exactly", r.position_error, S::ZERO);
    cx.eq("without turning", r.orientation_error, S::ZERO);
    let back = mv(&tr(&rotm(&oq)), &d);
    cx.eqs("slides in its origin's axes", &r.joint_positions.as_slice()[..3], &add(&p, &back));
    // cut short, it goes that far along
    let r = IK::<8, S>::new().with_maximum_step_norm(S::rat(1, 20)).with_maximum_iterations(1).solve(&t, 1, to, &Vector::new(v)).unwrap();
    cx.eq("cut short", r.position_error, k - S::rat(1, 20));
}
fn refusals<S: Sc>(cx: &mut Cx<S>) {
    let t: KinematicTree<2, 3, S> = chain(&[slide(0), slide(1)]);
    let v = cx.any("v");
    let mut s = [S::ZERO; 3];
    let mut to = [S::ZERO; 3];
    let mut q = quat::<S>(0);
    let mut w = [S::ONE; 3];
    let tool = cx.choose(4) as usize;
    let place = cx.choose(4);
    match place {
        0 => s[cx.choose(2) as usize] = v,
        1 => to[cx.choose(3) as usize] = v,
        2 => {
            if !v.is_finite() {
                q[cx.choose(4) as usize] = v
            }
        }
        _ => w[cx.choose(3) as usize] = if v.is_finite() { v } else { S::ONE },
    }
    let heavy = if place == 3 { cx.ask(or(vec![le(w[0], S::ZERO), le(w[1], S::ZERO)])) } else { false };
    if !heavy && place == 3 {
        cx.assume(and(vec![or(vec![le(w[2], S::ZERO), lt(S::rat(1, 10), w[2])]), lt(S::rat(1, 10), w[0]), lt(S::rat(1, 10), w[1])]));
    }
    let ik = IK::<3, S>::new().with_maximum_iterations(0).with_joint_weights(Vector::new(w));
    let r = ik.solve(&t, tool, pose(q, to), &Vector::new(s));
    let r = r.map(|_| ());
    if tool >= 2 {
        cx.holds("no such tool", r == Err(E::ToolIndexOutOfRange));
    } else if place < 3 && !v.is_finite() {
        cx.holds("not finite", r == Err(E::NonFinite));
    } else if heavy {
        cx.holds("weight", r == Err(E::NonPositiveWeight));
    } else {
        cx.holds("fine", r.is_ok());
    }
    let j = t.geometric_jacobian_at(&Vector::zeros(), 1, JacobianFrame::World).unwrap();
    let r = j.damped_pseudo_inverse(&Vector::new(w), S::ONE).map(|_| ());
    cx.holds("weight of an inverse", r == if heavy { Err(E::NonPositiveWeight) } else { Ok(()) });
}
struct Script<S> {
    draws: Vec<S>,
    at: usize,
}
impl<S: Sc> RandomSource<S> for Script<S> {
    fn next_unit(&mut self) -> S {
        self.at += 1;
        self.draws[self.at - 1]
    }
    fn next_u32(&mut self) -> u32 {
        unreachable!()
    }
    fn standard_normal(&mut self) -> S {
        unreachable!()
    }
    fn get_cache(&mut self) -> Option<S> {
        None
    }
    fn set_cache(&mut self, _: S) {}
}
type Many<S> = MultiStartInverseKinematics<3, 2, S>;
/// Two slides along x leave a line of answers: those kept are apart, those dropped are near one
/// kept, and jittered starts are the ones drawn.
fn starts<S: Sc>(cx: &mut Cx<S>) {
    let (lo, hi) = (S::c(-3.0), S::c(5.0));
    let t: KinematicTree<2, 2, S> = chain(&[slide(0).with_limits(lo, hi), slide(0)]);
    let apart = cx.var_open("apart", 0.1, 1.0);
    let span = if cx.thorough() { cx.var_open("span", 0.5, 2.0) } else { S::rat(3, 2) };
    let ik = IK::<2, S>::new().with_position_tolerance(S::rat(1, 100)).with_maximum_iterations(1).with_singular_value_threshold(S::ZERO).with_maximum_step_norm(S::ONE).with_minimum_step_norm(S::ZERO).with_respect_limits(false);
    let m = Many::new().with_solver(ik).with_distinct_threshold(apart).with_jitter_span(span);
    let target = at([S::ONE, S::ZERO, S::ZERO]);
    let n = 1 + cx.choose(3) as usize;
    let base: [S; 2] = [if cx.thorough() { cx.var_in("b0", 0.0, 1.0) } else { S::rat(1, 3) }, S::rat(1, 4)];
    let draws: Vec<S> = (0..2 * (n - 1)).map(|i| if i % 2 == 0 && i < 2 + 2 * cx.thorough() as usize { cx.var_open(&format!("u{i}"), 0.35, 0.65) } else { S::rat(2 + i as i64, 8) }).collect();
    let mut src = Script { draws: draws.clone(), at: 0 };
    let r = m.solve_seeded(&t, 1, target, &Vector::new(base), &mut src, n).unwrap();
    cx.holds("draws", src.at == draws.len());
    let seeds: Vec<_> = (0..n).map(|i| if i == 0 { Vector::new(base) } else { Vector::new([lo + draws[2 * i - 2] * (hi - lo), base[1] - span + S::TWO * span * draws[2 * i - 1]]) }).collect();
    cx.holds("attempts", r.attempts() == n);
    let mut kept: Vec<Report<2, S>> = vec![];
    let far = |a: &Report<2, S>, b: &Vector<2, S>| {
        let d = sub(a.joint_positions.as_array(), b.as_array());
        dot(&d, &d)
    };
    for s in &seeds {
        let one = ik.solve(&t, 1, target, s).unwrap();
        if one.termination != End::Converged {
            continue;
        }
        let mut new = true;
        for k in &kept {
            new &= !cx.ask(lt(far(k, &one.joint_positions), apart * apart));
        }
        if new {
            kept.push(one);
        }
    }
    cx.holds("as many kept", r.len() == kept.len() && r.solutions().len() == kept.len() && r.is_empty() == kept.is_empty());
    for (a, b) in r.solutions().iter().zip(&kept) {
        cx.eqs("kept", a.joint_positions.as_slice(), b.joint_positions.as_slice());
        cx.holds("only arrivals", a.termination == End::Converged);
    }
    let to = Vector::new([cx.var_in("r", -2.0, 2.0), S::ZERO]);
    let c = r.closest_to(&t, &to);
    cx.holds("closest of something", c.is_some() != kept.is_empty());
    if let Some(c) = c {
        for k in &kept {
            cx.check("closest", le(far(c, &to), far(k, &to)));
        }
    }
    let v = m.solve_from_seeds(&t, 1, target, &seeds).unwrap();
    cx.holds("from seeds", v.len() == r.len() && v.attempts() == n);
    let many = vec![Vector::new(base); 4];
    cx.holds("too many", m.solve_from_seeds(&t, 1, target, &many).err() == Some(E::StartCapacityExceeded) && m.solve_seeded(&t, 1, target, &Vector::new(base), &mut Script { draws: vec![], at: 0 }, 4).err() == Some(E::StartCapacityExceeded));
}
/// Six or seven joints through one point: three slides, three turns, one of them on a lever.
fn wrist<S: Sc>(skip: &[usize], lever: Option<S>) -> KinematicTree<8, 8, S> {
    let o = at([S::ZERO; 3]);
    let mut joints = vec![];
    for i in 0..6 {
        if skip.contains(&i) {
            continue;
        }
        joints.push(if i < 3 { slide(i) } else { Joint::revolute(axis(i - 3), o) });
    }
    if let Some(l) = lever {
        // turning about z through (0, l, 0): the tool at the middle moves along x by l
        joints.push(Joint::revolute(axis(2), o).with_anchor(Vector::new([S::ZERO, l, S::ZERO])));
    }
    chain(&joints)
}
/// The direction a chain has lost is named by the share of travel and turn in it.
fn lost<S: Sc>(cx: &mut Cx<S>) {
    let u = cx.var_open("u", 0.1, 0.9);
    // 1 + l^2 a perfect square
    let l = S::TWO * u / (S::ONE - u * u);
    cx.assume(or(vec![lt(l * l, S::rat(98, 100)), lt(S::rat(102, 100), l * l)]));
    let t = wrist(&[0, 5], Some(l));
    let j = t.geometric_jacobian_at(&Vector::zeros(), 4, JacobianFrame::World).unwrap();
    let k = j.classify_singularity(S::rat(1, 1000)).unwrap();
    // lost: (1, -l) across travel along x and turn about z
    let (lin, ang) = (S::ONE, l * l);
    let third = |a: S, b: S| lt(S::TWO * b, a);
    let edge = |a: S, b: S| near(S::TWO * b, a, 1e-6);
    cx.assume(not(or(vec![edge(lin, ang), edge(ang, lin)])));
    let want = if cx.ask(third(lin, ang)) {
        SingularityKind::Positional
    } else if cx.ask(third(ang, lin)) {
        SingularityKind::Rotational
    } else {
        SingularityKind::Mixed
    };
    cx.holds("named", k == want);
    cx.near("no reach", j.smallest_singular_value().unwrap(), S::ZERO, 1e-6);
}
/// Plain cases: full rank down to the threshold, one slide or one turn missing.
fn plain<S: Sc>(cx: &mut Cx<S>) {
    let thr = cx.var_open("thr", 0.1, 3.0);
    cx.assume(or(vec![lt(thr, S::rat(99, 100)), lt(S::rat(101, 100), thr)]));
    let t = wrist::<S>(&[], None);
    let j = t.geometric_jacobian_at(&Vector::zeros(), 5, JacobianFrame::World).unwrap();
    cx.near("unit", j.smallest_singular_value().unwrap(), S::ONE, 1e-12);
    let full = cx.ask(le(thr, S::ONE));
    let k = j.classify_singularity(thr).unwrap();
    cx.holds("full rank above the threshold", (k == SingularityKind::None) == full);
    let miss = cx.choose(6) as usize;
    let t = wrist::<S>(&[miss], None);
    let j = t.geometric_jacobian_at(&Vector::zeros(), 4, JacobianFrame::World).unwrap();
    cx.near("degenerate", j.smallest_singular_value().unwrap(), S::ZERO, 1e-12);
    cx.holds("which half", j.classify_singularity(thr).unwrap() == if miss < 3 { SingularityKind::Positional } else { SingularityKind::Rotational });
}
/// The weighted damped inverse is the minimiser it claims to be, its projector leaves the tool be.
fn inverse<S: Sc>(cx: &mut Cx<S>) {
    // two slides along x, one along y: a redundant and a degenerate direction
    let t: KinematicTree<4, 5, S> = chain(&[slide(0), slide(1), Joint::fixed(at([S::ONE; 3])), slide(0)]);
    let j = t.geometric_jacobian_at(&Vector::zeros(), 3, JacobianFrame::World).unwrap();
    let w: [S; 5] = std::array::from_fn(|i| if i < 4 { cx.var_open(&format!("w{i}"), 0.5, 2.0) } else { S::ZERO });
    let damped = cx.choose(2) == 1;
    let lam = if damped { cx.var_open("lam", 0.1, 2.0) } else { S::ZERO };
    let p = rows(&j.damped_pseudo_inverse(&Vector::new(w), lam).unwrap());
    let m = rows(&j.matrix());
    // stationary: J' (J p - 1) + lam^2 W p = 0, and p in the row space over W
    let jp = mm(&m, &p);
    for c in 0..6 {
        for q in 0..5 {
            let pull = (0..6).fold(S::ZERO, |a, r| a + m[r][q] * (jp[r][c] - if r == c { S::ONE } else { S::ZERO }));
            cx.eq("least squares", pull + lam * lam * w[q] * p[q][c], S::ZERO);
        }
        cx.eq("least motion", p[0][c] * w[0], p[3][c] * w[3]);
        for idle in [2, 4] {
            cx.eq("idle slots", p[idle][c], S::ZERO);
        }
    }
    let n = j.null_space_projector(&Vector::new(w), lam).unwrap();
    let pj: Matrix<5, 5, S> = Matrix::new(mm(&p, &m));
    meq(cx, "projector", &rows(&n), &rows(&(Matrix::<5, 5, S>::identity() - pj)));
    if !damped {
        let still = mm(&m, &rows(&n));
        for r in still.iter().flatten() {
            cx.eq("leaves the tool be", *r, S::ZERO);
        }
        meq(cx, "projects once", &mm(&rows(&n), &rows(&n)), &rows(&n));
    }
}
pub fn all() -> Vec<Harness> {
    let mut v = vec![
        h!("C34", gantry, "InverseKinematics::solve, one step; slides along x and y with a weld, any seed, error along three directions, caps, limits, damping; thorough: any weights, caps and limits throughout"),
        h!("C34", several, "solve with budgets of 0-3 steps; any target along either slide"),
        h!("C34", posture, "solve with PreferredPosture and JointLimitMargin; any error, posture or gain, seed and limit; thorough: more of them at once"),
        h!("C34", turning, "solve on one revolute or continuous joint; any gap 0.4-2.9"),
        h!("C34", afloat, "solve on a floating root; any place and distance, three origins, two orientations, two directions"),
        h!("C34", refusals, "solve, damped_pseudo_inverse; any number finite or not in each place"),
        h!("C34", starts, "MultiStartInverseKinematics::{solve_seeded,solve_from_seeds}, MultiStartReport; 1-3 starts, any draws"),
        h!("C34", lost, "KinematicJacobian::{classify_singularity,smallest_singular_value}; any lever"),
        h!("C34", plain, "as above; full rank and one freedom missing, any threshold"),
        h!("C34", inverse, "KinematicJacobian::{damped_pseudo_inverse,null_space_projector}; any weights and damping"),
    ];
    for x in v.iter_mut() {
        x.cfg.abs_fork = true;
        x.cfg.arc = true;
        x.cfg.trig_base = 4;
    }
    v
}
