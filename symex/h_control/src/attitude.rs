//! C11: thrust command, geometric attitude control.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::control::{GeometricAttitudeController, thrust_command_from_acceleration};
use multicalc::error::ControlError;
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::spatial::{Quaternion, SO3};

fn so3<S: Sc>(q: [S; 4]) -> SO3<S> {
    SO3::from_quaternion(Quaternion::from_array(q))
}
/// cosine and sine from the tangent of half the angle
fn cs<S: Sc>(u: S) -> (S, S) {
    let d = S::ONE + u * u;
    ((S::ONE - u * u) / d, S::TWO * u / d)
}
/// The attitude is built from roll and pitch of the thrust axis and the heading; the command recovers it.
fn thrust<S: Sc>(cx: &mut Cx<S>) {
    let which = cx.choose(3);
    let (hu, ru, pu) = (
        if which == 0 || cx.thorough() { cx.var_in("h", -0.9, 0.9) } else { S::rat(2, 5) },
        if which == 1 || cx.thorough() { cx.var_in("r", -0.5, 0.5) } else { S::rat(-1, 4) },
        if which == 2 || cx.thorough() { cx.var_in("p", -0.5, 0.5) } else { S::rat(1, 3) },
    );
    if which > 0 && cx.thorough() {
        return;
    }
    let ((hc, hs), (rc, rs), (pc, ps)) = (cs(hu), cs(ru), cs(pu));
    let z = S::ZERO;
    let o = S::ONE;
    let rz = [[hc, -hs, z], [hs, hc, z], [z, z, o]];
    let rx = [[o, z, z], [z, rc, -rs], [z, rs, rc]];
    let ry = [[pc, z, ps], [z, o, z], [-ps, z, pc]];
    let r = mm(&mm(&rz, &rx), &ry);
    let (t, g) = (cx.var_in("t", 0.1, 30.0), cx.var_in("g", 0.1, 20.0));
    let up = [r[0][2], r[1][2], r[2][2]];
    let mut acc = scale(&up, t);
    acc[2] -= g;
    let heading = hs.atan2(hc);
    let m = cx.var("m");
    match thrust_command_from_acceleration(Vector::new(acc), heading, g) {
        Ok(c) => {
            cx.eq("thrust", c.thrust_acceleration(), t);
            cx.eq("force", c.thrust_force(m), t * m);
            meq(cx, "attitude", &rows(&c.attitude().to_matrix()), &r);
        }
        Err(_) => cx.holds("a command exists", false),
    }
}
fn thrust_rejects<S: Sc>(cx: &mut Cx<S>) {
    let g = cx.var_in("g", 0.1, 20.0);
    let x = cx.any("x");
    match cx.choose(3) {
        0 => {
            let r = thrust_command_from_acceleration(Vector::new([S::ZERO, S::ZERO, -g]), cx.var("h"), g);
            cx.holds("free fall", matches!(r, Err(ControlError::UndefinedThrustDirection)));
        }
        1 => {
            // straight along the heading, either way
            let k = cx.var("k");
            cx.assume(lt(S::c(0.01), k.abs()));
            let r = thrust_command_from_acceleration(Vector::new([k, S::ZERO, -g]), S::ZERO, g);
            cx.holds("along the heading", matches!(r, Err(ControlError::UndefinedHeadingDirection)));
        }
        _ => {
            if cx.ask(Prop::Fin(x)) {
                return;
            }
            let mut a = [S::ONE, S::ONE, S::ONE, S::ZERO, g];
            a[cx.choose(5) as usize] = x;
            let r = thrust_command_from_acceleration(Vector::new([a[0], a[1], a[2]]), a[3], a[4]);
            cx.holds("non-finite", matches!(r, Err(ControlError::NonFinite)));
        }
    }
}
fn spd<S: Sc>(cx: &mut Cx<S>) -> Rows<S, 3, 3> {
    // L L^T
    let l = [[cx.var_in("l0", 0.5, 2.0), S::ZERO, S::ZERO], [cx.var_in("l1", -1.0, 1.0), cx.var_in("l2", 0.5, 2.0), S::ZERO], [S::rat(1, 3), S::rat(-1, 5), S::rat(3, 4)]];
    mm(&l, &tr(&l))
}
fn error<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (ratq(cx, "a"), ratq(cx, "b"));
    let (r, d) = (rotm(&a), rotm(&b));
    let e = GeometricAttitudeController::attitude_error(so3(a), so3(b)).into_array();
    let k = mm(&tr(&d), &r);
    let want = [(k[2][1] - k[1][2]) * S::HALF, (k[0][2] - k[2][0]) * S::HALF, (k[1][0] - k[0][1]) * S::HALF];
    cx.eqs("half the skew part", &e, &want);
    cx.eqs("none when aligned", GeometricAttitudeController::attitude_error(so3(a), so3(a)).as_slice(), &[S::ZERO; 3]);
}
/// With the torque applied, the rate error obeys J e' = -k_R e_R - k_w e_w.
fn torque<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (ratq(cx, "a"), [S::rat(1, 2), S::rat(-1, 2), S::rat(1, 2), S::rat(1, 2)]);
    let j = spd(cx);
    let (kr, kw) = (cx.pos("kr"), cx.pos("kw"));
    let Ok(c) = GeometricAttitudeController::new(kr, kw, Matrix::new(j)) else { return cx.holds("accepted", false) };
    let (w, wd, ad): ([S; 3], [S; 3], [S; 3]) = (cx.vars("w"), cx.vars("d"), cx.vars("e"));
    let t = c.torque(so3(a), Vector::new(w), so3(b), Vector::new(wd), Vector::new(ad)).into_array();
    let rel = mm(&tr(&rotm(&a)), &rotm(&b));
    let er = GeometricAttitudeController::attitude_error(so3(a), so3(b)).into_array();
    let (cw, ca) = (mv(&rel, &wd), mv(&rel, &ad));
    let ew = sub(&w, &cw);
    // J w' = t - w x J w;  e_w' = w' + w x cw - ca
    let jw = sub(&t, &cross(&w, &mv(&j, &w)));
    let lhs = add(&jw, &mv(&j, &sub(&cross(&w, &cw), &ca)));
    let rhs: [S; 3] = std::array::from_fn(|i| -kr * er[i] - kw * ew[i]);
    cx.eqs("error dynamics", &lhs, &rhs);
    cx.eq("attitude gain", c.attitude_gain(), kr);
    cx.eq("rate gain", c.rate_gain(), kw);
    meq(cx, "inertia", &rows(&c.inertia()), &j);
}
fn rejects<S: Sc>(cx: &mut Cx<S>) {
    let mut j = spd(cx);
    let (kr, kw) = (cx.var("kr"), cx.var("kw"));
    let x = cx.any("x");
    match cx.choose(4) {
        0 => {
            let ok = cx.ask(and(vec![lt(S::ZERO, kr), lt(S::ZERO, kw)]));
            match GeometricAttitudeController::new(kr, kw, Matrix::new(j)) {
                Ok(_) => cx.holds("gains positive", ok),
                Err(e) => cx.holds("gains not positive", !ok && matches!(e, ControlError::NonPositiveGain)),
            }
        }
        1 => {
            cx.assume(lt(S::c(1e-3), kr.abs()));
            let (r, c) = [(0, 1), (1, 0), (2, 0), (1, 2)][cx.choose(4)];
            j[r][c] += kr;
            let e = GeometricAttitudeController::new(S::ONE, S::ONE, Matrix::new(j));
            cx.holds("lopsided", matches!(e, Err(ControlError::NotSymmetricInertia)));
        }
        2 => {
            // not positive definite: one diagonal entry of L L^T lowered by the square of its pivot and more
            let i = cx.choose(2) as usize;
            let l = if i == 0 { j[0][0] } else { j[1][1] - j[0][1] * j[0][1] / j[0][0] };
            let k = cx.var_in("k", 0.01, 2.0);
            j[i][i] -= l + k;
            let e = GeometricAttitudeController::new(S::ONE, S::ONE, Matrix::new(j));
            cx.holds("not positive definite", matches!(e, Err(ControlError::NonPositiveInertia)));
        }
        _ => {
            if cx.ask(Prop::Fin(x)) {
                return;
            }
            let k = cx.choose(3);
            let (r, c) = (cx.choose(3) as usize, cx.choose(3) as usize);
            if k == 2 {
                j[r][c] = x;
            }
            let e = GeometricAttitudeController::new(if k == 0 { x } else { S::ONE }, if k == 1 { x } else { S::ONE }, Matrix::new(j));
            cx.holds("non-finite", matches!(e, Err(ControlError::NonFinite)));
        }
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C11", thrust, "thrust_command_from_acceleration; any heading, roll or pitch within 50 degrees, any thrust and gravity", |x| { x.cfg.abs_fork = true; }),
        h!("C11", thrust_rejects, "thrust_command_from_acceleration; free fall, along the heading, non-finite", |x| { x.cfg.abs_fork = true; }),
        h!("C11", error, "attitude_error; all pairs of attitudes"),
        h!("C11", torque, "torque; all attitudes, rates, gains, a family of inertias"),
        h!("C11", rejects, "GeometricAttitudeController::new"),
    ]
}
