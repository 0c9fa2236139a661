//! C39: nonlinear least squares.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::Numeric;
use multicalc::error::{LinalgError, SolveError};
use multicalc::numerical_derivative::AutoDiffMulti;
use multicalc::optimization::*;
use multicalc::scalar::VectorFn;
use std::cell::RefCell;

type Gn<S> = GaussNewton<AutoDiffMulti<S>>;
type Lm<S> = LevenbergMarquardt<AutoDiffMulti<S>>;

fn plain<S: Sc, N: Numeric>() -> bool {
    std::any::type_name::<S>() == std::any::type_name::<N>()
}
fn cast<A: Copy, B: Copy>(a: A) -> B {
    assert!(size_of::<A>() == size_of::<B>());
    unsafe { std::mem::transmute_copy(&a) }
}
/// One residual of one parameter: values in the order asked for, whatever the point, and slopes likewise.
struct Told<S: Sc> {
    v: Vec<S>,
    d: Vec<S>,
    at: RefCell<Vec<S>>,
    n: RefCell<usize>,
}
impl<S: Sc> Told<S> {
    fn new(v: &[S], d: &[S]) -> Self {
        Told { v: v.to_vec(), d: d.to_vec(), at: RefCell::new(vec![]), n: RefCell::new(0) }
    }
    fn seen(&self) -> Vec<S> {
        self.at.borrow().clone()
    }
}
impl<S: Sc> VectorFn<1, 1> for Told<S> {
    fn eval<N: Numeric>(&self, x: &[N; 1]) -> [N; 1] {
        if plain::<S, N>() {
            let i = self.at.borrow().len();
            self.at.borrow_mut().push(cast(x[0]));
            return [cast(*self.v.get(i).unwrap_or(&S::ZERO))];
        }
        let i = *self.n.borrow();
        *self.n.borrow_mut() += 1;
        [x[0] * N::from_f64(self.d.get(i).unwrap_or(&S::ONE).f())]
    }
}
/// r = A x - b with fixed A
struct Lin<S: Sc, const M: usize>([[S; 2]; M], [S; M]);
impl<S: Sc, const M: usize> VectorFn<2, M> for Lin<S, M> {
    fn eval<N: Numeric>(&self, x: &[N; 2]) -> [N; M] {
        std::array::from_fn(|i| N::from_f64(self.0[i][0].f()) * x[0] + N::from_f64(self.0[i][1].f()) * x[1] - N::from_f64(self.1[i].f()))
    }
}
impl<S: Sc, const M: usize> Lin<S, M> {
    fn res(&self, x: &[S; 2]) -> [S; M] {
        std::array::from_fn(|i| self.0[i][0] * x[0] + self.0[i][1] * x[1] - self.1[i])
    }
}
fn linear<S: Sc>(cx: &mut Cx<S>) -> (Lin<S, 3>, [S; 2]) {
    let c = |v: i64| S::rat(v, 1);
    // columns of lengths 3 and 5 in the quick tier: orthogonal with rational lengths
    let a = if cx.choose(2) == 0 { [[c(2), c(-2)], [c(1), c(2)], [c(2), c(1)]] } else { [[c(0), c(4)], [c(3), c(0)], [c(0), c(3)]] };
    let b = [cx.var_open("b0", -3.0, 3.0), S::ONE, if cx.thorough() { cx.var_open("b2", -3.0, 3.0) } else { S::HALF }];
    let x0 = [S::HALF, -S::ONE];
    (Lin(a, b), x0)
}
fn stationary<S: Sc>(cx: &mut Cx<S>, f: &Lin<S, 3>, r: &MinimizationReport<2, S>) {
    let e = f.res(&r.solution);
    for j in 0..2 {
        let g = (0..3).fold(S::ZERO, |s, i| s + f.0[i][j] * e[i]);
        cx.near("residual square to every column", g, S::ZERO, 1e-6);
    }
    let o = e.iter().fold(S::ZERO, |s, v| s + *v * *v) * S::HALF;
    cx.near("half the squares", r.objective_function, o, 1e-6);
}
fn gn_linear<S: Sc>(cx: &mut Cx<S>) {
    let (f, x0) = linear(cx);
    let r = Gn::<S>::default().with_backtracking(cx.choose(2) == 1).minimize(&f, &x0);
    let Ok(r) = r else {
        cx.holds("solved", false);
        return;
    };
    stationary(cx, &f, &r);
}
fn lm_linear<S: Sc>(cx: &mut Cx<S>) {
    let (f, x0) = linear(cx);
    let r = Lm::<S>::default().with_scale_diag(cx.choose(2) == 1).minimize(&f, &x0);
    let Ok(r) = r else {
        cx.holds("solved", false);
        return;
    };
    stationary(cx, &f, &r);
}
/// Every decision of Gauss-Newton on one residual with any values and slopes.
fn gn_steps<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var_open("x", -4.0, 4.0);
    let v: Vec<S> = (0..3).map(|i| cx.var_open(&format!("v{i}"), -4.0, 4.0)).collect();
    let d: Vec<S> = (0..2).map(|i| cx.var_open(&format!("d{i}"), 0.1, 4.0)).collect();
    for a in &v {
        cx.assume(or(vec![eq(*a, S::ZERO), lt(S::c(0.001), *a), lt(*a, S::c(-0.001))]));
    }
    let (xtol, ftol) = if cx.thorough() { (cx.var_open("xtol", 0.0, 0.5), cx.var_open("ftol", 0.0, 0.5)) } else { (S::c(0.25), S::c(0.125)) };
    let f = Told::new(&v, &d);
    let r = Gn::<S>::default().with_xtol(xtol).with_ftol(ftol).with_patience(2).minimize(&f, &[x]);
    let at = f.seen();
    cx.eq("starts at the guess", at[0], x);
    for i in 0..2 {
        if cx.ask(eq(v[i], S::ZERO)) {
            let r = r.unwrap();
            cx.eqs("already there", &[r.solution[0], r.objective_function], &[at[i], S::ZERO]);
            cx.holds("already there reason", r.termination == TerminationReason::Gtol && r.evaluations == i + 1);
            return;
        }
        let step = v[i] / d[i];
        cx.eq("full step", at[i + 1], at[i] - step);
        let short = cx.ask(le(step.abs(), xtol * at[i + 1].abs()));
        let flat = cx.ask(le((v[i].abs() - v[i + 1].abs()).abs(), ftol * v[i].abs()));
        if short || flat {
            let r = r.unwrap();
            cx.eqs("stops", &[r.solution[0], r.objective_function], &[at[i + 1], S::HALF * v[i + 1] * v[i + 1]]);
            cx.holds("reason to stop", r.termination == if short { TerminationReason::Xtol } else { TerminationReason::Ftol } && r.evaluations == i + 2);
            return;
        }
    }
    cx.holds("out of rounds", r.is_err_and(|e| e == SolveError::DidNotConverge { iters: 3 }));
}
fn gn_back<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var_open("x", -4.0, 4.0);
    let sign = if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let v: Vec<S> = (0..4).map(|i| sign * cx.var_open(&format!("v{i}"), 0.01, 9.0)).collect();
    let d = cx.var_open("d", 0.1, 5.0);
    cx.assume(lt(v[3].abs(), v[0].abs()));
    let k = if cx.ask(lt(v[1].abs(), v[0].abs())) {
        1
    } else if cx.ask(lt(v[2].abs(), v[0].abs())) {
        2
    } else {
        3
    };
    let f = Told::new(&v, &[d; 2]);
    let r = Gn::<S>::default().with_xtol(S::c(-1.0)).with_ftol(S::c(-1.0)).with_backtracking(true).with_patience(1).minimize(&f, &[x]);
    let at = f.seen();
    cx.holds("tries until smaller", at.len() == k + 1 && r.is_err_and(|e| e == SolveError::DidNotConverge { iters: k + 1 }));
    for i in 1..=k {
        cx.eq("half as far each time", at[i], x - v[0] / d * S::rat(1, 1 << (i - 1)));
    }
}
/// Levenberg-Marquardt on one residual with any values: what it reports is never worse than where it
/// started, belongs to the point it names, and every trial starts from the best point so far.
fn lm_steps<S: Sc>(cx: &mut Cx<S>) {
    let n = if cx.thorough() { 4 } else { 3 };
    let v: Vec<S> = (0..n).map(|i| if i == 0 { S::ONE } else { cx.var_open(&format!("v{i}"), 0.1, 4.0) }).collect();
    let d = [S::ONE, S::TWO, S::ONE, S::ONE, S::ONE];
    let x = S::c(3.0);
    let f = Told::new(&v, &d);
    let r = Lm::<S>::default().with_patience(3).with_ftol(S::c(0.0625)).with_xtol(S::c(0.0625)).minimize(&f, &[x]);
    let at = f.seen();
    let worth = |i: usize| if i < n { v[i] } else { S::ZERO };
    cx.eq("starts at the guess", at[0], x);
    cx.eq("a full step first", at[1], x - v[0]);
    // which trials were kept: those that reduce the residual by enough
    let mut best = 0;
    let mut slope = 0;
    for i in 1..at.len() {
        let back = at[best] - at[i];
        let full = worth(best) / d[slope.min(4)];
        cx.check("downhill and not past the full step", and(vec![lt(S::ZERO, back), le(back, full * S::c(1.000001))]));
        if i + 1 == at.len() {
            break;
        }
        let kept = cx.ask(lt(worth(i), worth(best) * S::c(0.99)));
        if kept {
            best = i;
            slope += 1;
        } else if cx.ask(lt(worth(best), worth(i))) {
            cx.check("no longer after a failure", le(at[best] - at[i + 1], back * S::c(1.000001)));
        } else {
            // a gain too small to tell apart here
            cx.stop();
        }
    }
    match r {
        Ok(r) => {
            cx.check("never worse", le(r.objective_function, S::HALF * v[0] * v[0]));
            cx.holds("count", r.evaluations == at.len());
            let mut named = Prop::B(false);
            for i in 0..at.len() {
                named = or(vec![named, and(vec![eq(r.solution[0], at[i]), eq(r.objective_function, S::HALF * worth(i) * worth(i))])]);
            }
            cx.check("a point it saw, with its own value", named);
            for i in 0..at.len() {
                cx.check("the best it saw", le(r.objective_function, S::HALF * worth(i) * worth(i) * S::c(1.02)));
            }
        }
        Err(e) => cx.holds("out of rounds", e == SolveError::DidNotConverge { iters: at.len() }),
    }
}
/// A short first radius: the damped step lands on the boundary to a tenth.
fn lm_radius<S: Sc>(cx: &mut Cx<S>) {
    let v = cx.var_open("v", 0.1, 4.0);
    let sign = if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let d = if cx.choose(2) == 0 { S::TWO } else { S::HALF };
    let x = S::c(2.0);
    let bound = cx.var_open("bound", 0.05, 3.0);
    let f = Told::new(&[sign * v], &[d; 9]);
    let _ = Lm::<S>::default().with_stepbound(bound).with_patience(1).minimize(&f, &[x]);
    let at = f.seen();
    let step = (x - at[1]) * sign;
    let full = v / d;
    let radius = bound * x;
    if cx.ask(le(full, radius * S::c(1.1))) {
        cx.near("inside: the full step", step, full, 1e-9);
    } else {
        cx.check("outside: on the boundary", and(vec![le(step, radius * S::c(1.1000001)), le(radius * S::c(0.8999999), step)]));
    }
}
fn bad<S: Sc>(cx: &mut Cx<S>) {
    let n = [S::NAN, S::INFINITY, S::NEG_INFINITY][cx.choose(3)];
    let e = |r: Result<MinimizationReport<1, S>, SolveError>| r.is_err_and(|e| e == SolveError::NonFinite);
    cx.holds("start", e(Gn::<S>::default().minimize(&Told::new(&[n], &[]), &[S::ONE])) && e(Lm::<S>::default().minimize(&Told::new(&[n], &[]), &[S::ONE])));
    cx.holds("slope", e(Gn::<S>::default().minimize(&Told::new(&[S::ONE], &[n]), &[S::ONE])) && e(Lm::<S>::default().minimize(&Told::new(&[S::ONE], &[n]), &[S::ONE])));
    let v = vec![S::ONE, n];
    cx.holds("next", e(Gn::<S>::default().minimize(&Told::new(&v, &[]), &[S::ONE])) && e(Lm::<S>::default().minimize(&Told::new(&v, &[]), &[S::ONE])));
    let v = [vec![S::ONE], vec![n; 30]].concat();
    cx.holds("backtracking gives up", e(Gn::<S>::default().with_backtracking(true).minimize(&Told::new(&v, &[]), &[S::ONE])));
    let flat = Told::new(&[S::ONE], &[S::ZERO]);
    cx.holds("flat: a stationary point", Gn::<S>::default().minimize(&flat, &[S::ONE]).is_ok_and(|r| r.termination == TerminationReason::Gtol));
    let flat = Told::new(&[S::ONE], &[S::ZERO]);
    cx.holds("flat for the damped one", Lm::<S>::default().minimize(&flat, &[S::ONE]).is_ok_and(|r| r.termination == TerminationReason::Gtol));
    let z = Told::new(&[S::ZERO], &[S::ONE]);
    cx.holds("zero residual", Lm::<S>::default().minimize(&z, &[S::ONE]).is_ok_and(|r| r.termination == TerminationReason::Gtol && r.evaluations == 1));
    let k = Told::new(&[S::ONE], &[S::ONE]);
    cx.holds("no patience", Lm::<S>::default().with_patience(0).minimize(&k, &[S::ONE]).is_err_and(|e| e == SolveError::DidNotConverge { iters: 1 }));
    let k = Told::new(&[S::ONE], &[S::ONE]);
    cx.holds("no patience undamped", Gn::<S>::default().with_patience(0).minimize(&k, &[S::ONE]).is_err_and(|e| e == SolveError::DidNotConverge { iters: 1 }));
}
fn shapes<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.var_open("a", 0.5, 2.0), cx.var_open("b", 0.5, 2.0));
    let thin = Lin::<S, 1>([[a, b]], [S::ONE]);
    let u = |r: Result<MinimizationReport<2, S>, SolveError>| r.is_err_and(|e| e == SolveError::Linalg(LinalgError::Underdetermined));
    cx.holds("fewer residuals than parameters", u(Gn::<S>::default().minimize(&thin, &[S::ZERO; 2])) && u(Lm::<S>::default().minimize(&thin, &[S::ZERO; 2])));
    // only the first parameter matters
    let blind = Lin::<S, 2>([[a, S::ZERO], [S::ZERO, S::ZERO]], [b, S::ZERO]);
    let r = Gn::<S>::default().minimize(&blind, &[S::ZERO; 2]);
    cx.holds("rank deficient", r.is_err_and(|e| e == SolveError::Linalg(LinalgError::Singular)));
    let r = Lm::<S>::default().minimize(&blind, &[S::ZERO, S::HALF]);
    let Ok(r) = r else {
        cx.holds("the damped one copes", false);
        return;
    };
    cx.near("the damped one copes", r.solution[0] * a, b, 1e-6);
    cx.near("and leaves the rest alone", r.solution[1], S::HALF, 1e-9);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C39", gn_linear, "GaussNewton::minimize; 3 linear residuals of 2 parameters", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; x.cfg.eps_zero = true; }),
        h!("C39", lm_linear, "LevenbergMarquardt::minimize; 3 linear residuals of 2 parameters", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; x.cfg.eps_zero = true; }),
        h!("C39", gn_steps, "GaussNewton; any values and slopes (scripted), 2 rounds", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C39", gn_back, "GaussNewton backtracking, up to 3 trials", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C39", lm_steps, "LevenbergMarquardt; any values (scripted), 3 rounds", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C39", lm_radius, "LevenbergMarquardt first step against any radius", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C39", bad, "non-finite values, flat and zero residuals, no patience", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
        h!("C39", shapes, "underdetermined and rank-deficient problems", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; x.cfg.box_primal = true; }),
    ]
}
