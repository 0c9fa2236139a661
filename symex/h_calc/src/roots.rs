//! C24: root finding.
use engine::cx::*;
use engine::{DivZero, Harness, h};
use multicalc::Numeric;
use multicalc::error::{LinalgError, SolveError};
use multicalc::root_finding::*;
use multicalc::scalar::{ScalarFn, VectorFn};
use std::cell::RefCell;

/// Answers plain evaluations from a script, whatever the point, and records the points. Evaluations
/// at any other number type see a line of scripted slope: a derivative that is again arbitrary.
pub struct Script<S: Sc> {
    pub values: Vec<S>,
    pub slopes: Vec<S>,
    pub at: RefCell<Vec<S>>,
    pub derivs: RefCell<usize>,
}
fn plain<S: Sc, N: Numeric>() -> bool {
    std::any::type_name::<S>() == std::any::type_name::<N>()
}
fn cast<A: Copy, B: Copy>(a: A) -> B {
    assert!(size_of::<A>() == size_of::<B>());
    unsafe { std::mem::transmute_copy(&a) }
}
impl<S: Sc> Script<S> {
    fn new(values: Vec<S>, slopes: Vec<S>) -> Self {
        Script { values, slopes, at: RefCell::new(vec![]), derivs: RefCell::new(0) }
    }
    fn seen(&self) -> Vec<S> {
        self.at.borrow().clone()
    }
}
impl<S: Sc> ScalarFn for Script<S> {
    fn eval<N: Numeric>(&self, x: N) -> N {
        if plain::<S, N>() {
            let i = self.at.borrow().len();
            self.at.borrow_mut().push(cast(x));
            return cast(self.values[i]);
        }
        let i = *self.derivs.borrow();
        *self.derivs.borrow_mut() += 1;
        x * N::from_f64(self.slopes[i].f())
    }
}
pub struct Poly<S: Sc>(pub Vec<S>);
impl<S: Sc> ScalarFn for Poly<S> {
    fn eval<N: Numeric>(&self, x: N) -> N {
        self.0.iter().rev().fold(N::ZERO, |p, c| p * x + N::from_f64(c.f()))
    }
}
fn val<S: Sc>(c: &[S], x: S) -> S {
    c.iter().rev().fold(S::ZERO, |p, k| p * x + *k)
}
fn tols<S: Sc>(cx: &mut Cx<S>) -> (S, S) {
    (cx.var_open("xtol", 0.0, 1.0), cx.var_open("ftol", 0.0, 1.0))
}
fn ends<S: Sc>(cx: &mut Cx<S>) -> (S, S) {
    let a = cx.var("a");
    let w = cx.var_open("w", 0.01, 10.0);
    if cx.choose(2) == 0 { (a, a + w) } else { (a + w, a) }
}
fn script<S: Sc>(cx: &mut Cx<S>, n: usize) -> Vec<S> {
    (0..n).map(|i| cx.var(&format!("v{i}"))).collect()
}
/// Bisection of an arbitrary function: halves the bracket, keeps the sign change, stops for a true reason.
fn bisection<S: Sc>(cx: &mut Cx<S>) {
    let (xtol, ftol) = tols(cx);
    let (a, b) = ends(cx);
    let n = if cx.thorough() { 4 } else { 3 };
    let v = script(cx, n + 2);
    let f = Script::new(v.clone(), vec![]);
    let r = Bisection::new().with_xtol(xtol).with_ftol(ftol).with_max_iterations(n).solve(&f, a, b);
    let at = f.seen();
    cx.eqs("ends first", &at[..2], &[a, b]);
    for i in 0..2 {
        if cx.ask(eq(v[i], S::ZERO)) {
            let r = r.unwrap();
            cx.eqs("an end is a root", &[r.root, r.residual], &[at[i], S::ZERO]);
            cx.holds("at once", r.iterations == 0 && at.len() == 2 && r.termination == RootTermination::ResidualTolerance);
            return;
        }
    }
    let up = cx.ask(lt(S::ZERO, v[1]));
    if cx.ask(lt(S::ZERO, v[0])) == up {
        cx.holds("no sign change refused", r.is_err_and(|e| e == SolveError::InvalidBracket) && at.len() == 2);
        return;
    }
    let (mut lo, mut hi) = if cx.ask(lt(a, b)) { (a, b) } else { (b, a) };
    let falling = cx.ask(lt(a, b)) != up;
    for i in 2..at.len() {
        cx.eq("middle of the bracket", at[i], (lo + hi) * S::HALF);
        let done = i + 1 == at.len();
        let small = cx.ask(le(v[i].abs(), ftol));
        let narrow = cx.ask(le(hi - lo, xtol * (S::ONE + at[i].abs())));
        if small || narrow {
            cx.holds("stops as soon as it may", done);
            let Ok(r) = r else {
                cx.holds("stops well", false);
                return;
            };
            cx.eqs("last point reported", &[r.root, r.residual], &[at[i], v[i]]);
            cx.holds("count", r.iterations == i - 1);
            cx.holds("reason", r.termination == if small { RootTermination::ResidualTolerance } else { RootTermination::BracketWidth });
            return;
        }
        let positive = cx.ask(le(S::ZERO, v[i]));
        if positive == falling {
            lo = at[i];
        } else {
            hi = at[i];
        }
    }
    cx.holds("out of iterations", at.len() == n + 2 && r.is_err_and(|e| e == SolveError::DidNotConverge { iters: n }));
}
/// Brent on an arbitrary function: points stay inside the sign-changing bracket, the better end is reported.
fn brent<S: Sc>(cx: &mut Cx<S>) {
    let (xtol, ftol) = (S::c(0.0625), S::c(0.125));
    let (a, b) = if cx.choose(2) == 0 { (-S::ONE, S::TWO) } else { (S::TWO, -S::ONE) };
    let n = if cx.thorough() { 3 } else { 2 };
    let v: Vec<S> = (0..n + 2).map(|i| cx.var_open(&format!("v{i}"), -4.0, 4.0)).collect();
    let f = Script::new(v.clone(), vec![]);
    for i in 0..n + 2 {
        cx.assume(ne(v[i], S::ZERO));
    }
    let r = Brent::new().with_xtol(xtol).with_ftol(ftol).with_max_iterations(n).solve(&f, a, b);
    let at = f.seen();
    let sign: Vec<bool> = (0..at.len()).map(|i| cx.ask(lt(S::ZERO, v[i]))).collect();
    if sign[0] == sign[1] {
        cx.holds("no sign change refused", r.is_err_and(|e| e == SolveError::InvalidBracket) && at.len() == 2);
        return;
    }
    // indices of the two ends
    let (mut p, mut q) = (0, 1);
    for i in 2..at.len() {
        let (x, y) = (at[p], at[q]);
        cx.check("inside the bracket", and(vec![le(x.min(y), at[i]), le(at[i], x.max(y))]));
        if sign[i] == sign[p] {
            p = i;
        } else {
            q = i;
        }
    }
    let gap = (at[p] - at[q]).abs();
    match r {
        Ok(r) => {
            let best = if cx.ask(eq(r.root, at[p])) { p } else { q };
            let other = p + q - best;
            cx.eqs("an end of the bracket", &[r.root, r.residual], &[at[best], v[best]]);
            cx.check("the better end", le(v[best].abs(), v[other].abs()));
            cx.holds("count", r.iterations == at.len() - 2);
            match r.termination {
                RootTermination::ResidualTolerance => cx.check("small", le(v[best].abs(), ftol)),
                RootTermination::BracketWidth => cx.check("narrow", le(gap, S::TWO * xtol * (S::ONE + r.root.abs()))),
                _ => cx.holds("known reason", false),
            }
        }
        Err(e) => {
            cx.holds("out of iterations", at.len() == n + 2 && e == SolveError::DidNotConverge { iters: n });
            cx.check("nothing was close", and(vec![lt(ftol, v[p].abs()), lt(ftol, v[q].abs()), or(vec![lt(xtol, gap)])]));
        }
    }
}
/// One straight line: the secant hits its root at once, from either side.
fn brent_line<S: Sc>(cx: &mut Cx<S>) {
    let (c, r) = (cx.var("c"), cx.var_open("r", -1.0, 2.0));
    cx.assume(or(vec![lt(S::c(0.01), c), lt(c, S::c(-0.01))]));
    cx.assume(or(vec![lt(r, S::c(0.49)), lt(S::c(0.51), r)]));
    let (a, b) = if cx.choose(2) == 0 { (-S::ONE, S::TWO) } else { (S::TWO, -S::ONE) };
    let f = Poly(vec![-c * r, c]);
    let got = Brent::new().with_ftol(S::c(1e-9)).with_xtol(S::c(1e-9)).solve(&f, a, b);
    let Ok(got) = got else {
        cx.holds("solved", false);
        return;
    };
    cx.holds("one step", got.iterations <= 1);
    cx.near("root", got.root, r, 2e-7);
}
/// The second step passes an inverse parabola through the three points it has.
fn brent_curve<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (S::ZERO, S::ONE);
    let v0 = cx.var_open("v0", 1.0, 4.0);
    let v1 = cx.var_open("v1", -0.9, -0.1);
    let v2 = cx.var_open("v2", -0.09, 0.9);
    cx.assume(or(vec![lt(v2, S::c(-0.01)), lt(S::c(0.01), v2)]));
    let f = Script::new(vec![v0, v1, v2, S::ZERO], vec![]);
    let r = Brent::new().with_ftol(S::c(1e-6)).with_xtol(S::c(1e-6)).with_max_iterations(2).solve(&f, a, b);
    let at = f.seen();
    cx.holds("two steps", r.is_ok() && at.len() == 4);
    let secant = v0 / (v0 - v1);
    cx.eq("the secant first", at[2], secant);
    // divided differences of the inverse function through the three samples, read at zero
    let d01 = (b - a) / (v1 - v0);
    let d12 = (at[2] - b) / (v2 - v1);
    let d = (d12 - d01) / (v2 - v0);
    let curve = a - v0 * d01 + v0 * v1 * d;
    let (p, q) = if cx.ask(lt(v2, S::ZERO)) { (a, at[2]) } else { (b, at[2]) };
    let chord = (p * (if cx.ask(lt(v2, S::ZERO)) { v2 } else { v2 }) - q * (if cx.ask(lt(v2, S::ZERO)) { v0 } else { v1 })) / (v2 - (if cx.ask(lt(v2, S::ZERO)) { v0 } else { v1 }));
    let middle = (p + q) * S::HALF;
    cx.check("inverse parabola, chord or middle", or(vec![eq(at[3], curve), eq(at[3], chord), eq(at[3], middle)]));
}
/// A Newton step with arbitrary value and slope, and the reasons to stop.
fn newton<S: Sc>(cx: &mut Cx<S>) {
    let (xtol, ftol) = tols(cx);
    let x = cx.var("x");
    let v = script(cx, 3);
    let d: Vec<S> = (0..2).map(|i| cx.var(&format!("d{i}"))).collect();
    let f = Script::new(v.clone(), d.clone());
    let n = 2;
    let r = Newton::<multicalc::numerical_derivative::AutoDiffSingle<S>>::default().with_xtol(xtol).with_ftol(ftol).with_max_iterations(n).solve(&f, x);
    let at = f.seen();
    cx.eq("starts at the guess", at[0], x);
    let mut here = x;
    for i in 0..n {
        if cx.ask(le(v[i].abs(), ftol)) {
            let r = r.unwrap();
            cx.eqs("small residual", &[r.root, r.residual], &[here, v[i]]);
            cx.holds("small residual count", r.iterations == i + 1 && at.len() == i + 1 && r.termination == RootTermination::ResidualTolerance);
            return;
        }
        if cx.ask(eq(d[i], S::ZERO)) {
            cx.holds("flat", r.is_err_and(|e| e == SolveError::Linalg(LinalgError::Singular)));
            return;
        }
        let next = here - v[i] / d[i];
        cx.eq("the tangent's root", at[i + 1], next);
        if cx.ask(le((next - here).abs(), xtol * (S::ONE + next.abs()))) {
            let r = r.unwrap();
            cx.eqs("small step", &[r.root, r.residual], &[next, v[i + 1]]);
            cx.holds("small step count", r.iterations == i + 1 && r.termination == RootTermination::StepTolerance);
            return;
        }
        here = next;
    }
    cx.holds("out of iterations", r.is_err_and(|e| e == SolveError::DidNotConverge { iters: n }));
}
/// Backtracking halves the step until the residual shrinks.
fn newton_back<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let v = script(cx, 5);
    let d = cx.var_open("d", 0.1, 5.0);
    cx.assume(lt(S::c(0.01), v[0].abs()));
    let mut k = 4;
    for i in (1..4).rev() {
        if cx.ask(lt(v[i].abs(), v[0].abs())) {
            k = i;
        }
    }
    if k == 4 {
        cx.assume(lt(v[4].abs(), v[0].abs()));
    }
    let f = Script::new(v.clone(), vec![d; 2]);
    let r = Newton::<multicalc::numerical_derivative::AutoDiffSingle<S>>::default().with_xtol(S::c(-1.0)).with_ftol(S::ZERO).with_backtracking(true).with_max_iterations(1).solve(&f, x);
    let at = f.seen();
    cx.holds("tries until smaller", at.len() == k + 1 && r.is_err_and(|e| e == SolveError::DidNotConverge { iters: 1 }));
    for i in 1..=k {
        cx.eq("half as far each time", at[i], x - v[0] / d * S::rat(1, 1 << (i - 1)));
    }
}
/// A line is solved exactly in one step.
fn newton_line<S: Sc>(cx: &mut Cx<S>) {
    let (c, b, x) = (cx.var_open("c", -4.0, 4.0), cx.var_open("b", -9.0, 9.0), cx.var_open("x", -9.0, 9.0));
    cx.assume(or(vec![lt(S::c(0.01), c), lt(c, S::c(-0.01))]));
    let f = Poly(vec![b, c]);
    let r = Newton::<multicalc::numerical_derivative::AutoDiffSingle<S>>::default().with_backtracking(cx.choose(2) == 1).solve(&f, x);
    let Ok(r) = r else {
        cx.holds("solved", false);
        return;
    };
    cx.holds("at most two rounds", r.iterations <= 2);
    cx.near("root", r.root, -b / c, 1e-7);
    cx.near("residual", r.residual, S::ZERO, 1e-7);
}
/// The slope is the function's own.
fn newton_curve<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var_open("x", -2.0, 2.0);
    let q: [S; 3] = [cx.var_open("q0", -2.0, 2.0), cx.var_open("q1", -2.0, 2.0), cx.var_open("q2", -2.0, 2.0)];
    let f = Poly(q.to_vec());
    let (fx, dx) = (val(&q, x), q[1] + S::TWO * q[2] * x);
    cx.assume(and(vec![lt(S::c(0.1), fx), lt(S::c(0.1), dx)]));
    let r = Newton::<multicalc::numerical_derivative::AutoDiffSingle<S>>::default().with_xtol(S::c(1e6)).solve(&f, x);
    let r = r.unwrap();
    let next = x - fx / dx;
    cx.near("slope from the function itself", r.root, next, 1e-7);
    cx.near("residual there", r.residual, val(&q, next), 1e-5);
}
/// Non-finite values anywhere are reported as such.
fn bad_values<S: Sc>(cx: &mut Cx<S>) {
    let bad = [S::NAN, S::INFINITY, S::NEG_INFINITY][cx.choose(3)];
    let at = cx.choose(3);
    let mut v = vec![S::ONE, -S::ONE, S::HALF];
    v[at] = bad;
    let e = |r: Result<RootReport<S>, SolveError>| r.is_err_and(|e| e == SolveError::NonFinite);
    let b = Bisection::new().solve(&Script::new(v.clone(), vec![]), S::ZERO, S::ONE);
    cx.holds("bisection", e(b));
    let b = Brent::new().solve(&Script::new(v.clone(), vec![]), S::ZERO, S::ONE);
    cx.holds("Brent", e(b));
    type New<S> = Newton<multicalc::numerical_derivative::AutoDiffSingle<S>>;
    if at < 2 {
        let n = New::<S>::default().solve(&Script::new(v.clone(), vec![S::ONE; 3]), S::ZERO);
        cx.holds("Newton", e(n));
    }
    let n = New::<S>::default().solve(&Script::new(vec![S::ONE; 3], vec![bad; 3]), S::ZERO);
    cx.holds("Newton's slope", e(n));
    let n = New::<S>::default().with_backtracking(true).solve(&Script::new([vec![S::ONE], vec![bad; 30]].concat(), vec![S::ONE; 3]), S::ZERO);
    cx.holds("backtracking gives up", e(n));
    let n = New::<S>::default().with_max_iterations(0).solve(&Script::new(vec![S::ONE], vec![]), S::ZERO);
    cx.holds("no iterations", n.is_err_and(|e| e == SolveError::DidNotConverge { iters: 0 }));
}
pub struct Linear<S: Sc> {
    pub j: [[S; 2]; 2],
    pub k: [S; 2],
    /// coefficient of a product that bends both equations
    pub q: [S; 2],
}
impl<S: Sc> VectorFn<2, 2> for Linear<S> {
    fn eval<N: Numeric>(&self, x: &[N; 2]) -> [N; 2] {
        std::array::from_fn(|i| {
            N::from_f64(self.j[i][0].f()) * x[0] + N::from_f64(self.j[i][1].f()) * x[1] + N::from_f64(self.k[i].f()) + N::from_f64(self.q[i].f()) * x[0] * x[1]
        })
    }
}
impl<S: Sc> Linear<S> {
    pub fn at(&self, x: &[S; 2]) -> [S; 2] {
        std::array::from_fn(|i| self.j[i][0] * x[0] + self.j[i][1] * x[1] + self.k[i] + self.q[i] * x[0] * x[1])
    }
}
type System<S> = NewtonSystem<multicalc::numerical_derivative::AutoDiffMulti<S>>;
fn system<S: Sc>(cx: &mut Cx<S>) {
    let b = |cx: &mut Cx<S>, n: &str| cx.var_open(n, -1.0, 1.0);
    let f = Linear { j: [[S::c(4.0), S::ONE], [if cx.thorough() { b(cx, "m") } else { S::HALF }, S::c(-3.0)]], k: [b(cx, "k"), S::HALF], q: [S::ONE, S::ZERO] };
    let x: [S; 2] = if cx.thorough() { [b(cx, "x0"), S::HALF] } else { [S::c(0.25), S::HALF] };
    let g = [[f.j[0][0] + f.q[0] * x[1], f.j[0][1] + f.q[0] * x[0]], f.j[1]];
    let det = g[0][0] * g[1][1] - g[0][1] * g[1][0];
    let r0 = f.at(&x);
    cx.assume(lt(S::c(0.1), r0[0]));
    let s = [(-r0[0] * g[1][1] + r0[1] * g[0][1]) / det, (r0[0] * g[1][0] - r0[1] * g[0][0]) / det];
    let next = [x[0] + s[0], x[1] + s[1]];
    let r = System::<S>::default().with_xtol(S::c(1e12)).with_max_iterations(1).solve(&f, &x);
    let Ok(r) = r else {
        cx.holds("one step", false);
        return;
    };
    cx.near("solves the linearised system", r.root[0], next[0], 1e-7);
    cx.near("solves the linearised system", r.root[1], next[1], 1e-7);
    let res = f.at(&r.root);
    cx.near("residual", r.residual_norm * r.residual_norm, res[0] * res[0] + res[1] * res[1], 1e-7);
    cx.check("residual is a length", le(S::ZERO, r.residual_norm));
    cx.holds("stops after a small step", r.iterations == 1 && r.termination == RootTermination::StepTolerance);
}
fn system_stops<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.var_open("k", -3.0, 3.0);
    let ftol = cx.var_open("ftol", 0.01, 1.0);
    let xtol = cx.var_open("xtol", 0.01, 1.0);
    cx.assume(or(vec![lt(S::c(0.001), k), lt(k, S::c(-0.001))]));
    // two copies of a line: the length of the residual is exact
    let f = Linear { j: [[S::ONE, S::ZERO], [S::ZERO, S::ONE]], k: [k * S::c(3.0), k * S::c(4.0)], q: [S::ZERO; 2] };
    let r = System::<S>::default().with_xtol(xtol).with_ftol(ftol).with_max_iterations(1).solve(&f, &[S::ZERO; 2]);
    let size = k.abs() * S::c(5.0);
    if cx.ask(le(size, ftol)) {
        let r = r.unwrap();
        cx.eqs("already there", &[r.root[0], r.root[1], r.residual_norm], &[S::ZERO, S::ZERO, size]);
        cx.holds("already there reason", r.termination == RootTermination::ResidualTolerance && r.iterations == 1);
    } else if cx.ask(le(size, xtol * (S::ONE + size))) {
        let r = r.unwrap();
        cx.eqs("small step", &[r.root[0], r.root[1], r.residual_norm], &[-k * S::c(3.0), -k * S::c(4.0), S::ZERO]);
        cx.holds("small step reason", r.termination == RootTermination::StepTolerance && r.iterations == 1);
    } else {
        cx.holds("out of iterations", r.is_err_and(|e| e == SolveError::DidNotConverge { iters: 1 }));
    }
    let flat = Linear { j: [[S::ONE, k], [S::TWO, S::TWO * k]], k: [S::ONE, S::TWO], q: [S::ZERO; 2] };
    let r = System::<S>::default().solve(&flat, &[S::ZERO; 2]);
    cx.holds("singular", r.is_err_and(|e| e == SolveError::Linalg(LinalgError::Singular)));
}
/// Backtracking in several variables, by a rule that overshoots.
struct Steep<S: Sc> {
    v: Vec<S>,
    at: RefCell<Vec<[S; 1]>>,
}
impl<S: Sc> VectorFn<1, 1> for Steep<S> {
    fn eval<N: Numeric>(&self, x: &[N; 1]) -> [N; 1] {
        if plain::<S, N>() {
            let i = self.at.borrow().len();
            self.at.borrow_mut().push([cast(x[0])]);
            return [cast(self.v[i])];
        }
        [x[0]]
    }
}
fn system_back<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let sign = if cx.choose(2) == 0 { S::ONE } else { -S::ONE };
    let v: Vec<S> = (0..4).map(|i| sign * cx.var_open(&format!("v{i}"), 0.01, 9.0)).collect();
    cx.assume(lt(v[3].abs(), v[0].abs()));
    let k = if cx.ask(lt(v[1].abs(), v[0].abs())) {
        1
    } else if cx.ask(lt(v[2].abs(), v[0].abs())) {
        2
    } else {
        3
    };
    let f = Steep { v: v.clone(), at: RefCell::new(vec![]) };
    let r = System::<S>::default().with_xtol(S::c(-1.0)).with_ftol(S::ZERO).with_backtracking(true).with_max_iterations(1).solve(&f, &[x]);
    let at = f.at.into_inner();
    cx.holds("tries until smaller", at.len() == k + 1 && r.is_err_and(|e| e == SolveError::DidNotConverge { iters: 1 }));
    for i in 1..=k {
        cx.eq("half as far each time", at[i][0], x - v[0] * S::rat(1, 1 << (i - 1)));
    }
}
fn system_bad<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let bad = [S::NAN, S::INFINITY][cx.choose(2)];
    let f = Steep { v: vec![bad; 2], at: RefCell::new(vec![]) };
    let r = System::<S>::default().solve(&f, &[x]);
    cx.holds("bad start", r.is_err_and(|e| e == SolveError::NonFinite));
    let f = Steep { v: [vec![S::ONE], vec![bad; 30]].concat(), at: RefCell::new(vec![]) };
    let r = System::<S>::default().with_backtracking(cx.choose(2) == 1).solve(&f, &[x]);
    cx.holds("bad later", r.is_err_and(|e| e == SolveError::NonFinite));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C24", bisection, "Bisection::{solve,with_*}; any values (scripted), 3 iterations (thorough 4)", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", brent, "Brent::solve; any values (scripted), 2 iterations (thorough 3), fixed ends and tolerances", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; x.cfg.div_zero = DivZero::Assume; }),
        h!("C24", brent_line, "Brent::solve; any line", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; x.cfg.div_zero = DivZero::Assume; }),
        h!("C24", brent_curve, "Brent::solve; second step from three values", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; x.cfg.div_zero = DivZero::Assume; }),
        h!("C24", newton, "Newton::{solve,with_*}; any values and slopes (scripted), 2 iterations", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", newton_back, "Newton with backtracking; up to 4 trials", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", newton_line, "Newton::solve with automatic differentiation; lines and parabolas", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", bad_values, "non-finite values at any evaluation", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", newton_curve, "Newton::solve with automatic differentiation; one step on any bounded parabola", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", system_bad, "NewtonSystem on non-finite values", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", system, "NewtonSystem::solve; two equations, one bent", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", system_stops, "NewtonSystem termination and singular systems", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
        h!("C24", system_back, "NewtonSystem backtracking and non-finite values, one variable", |x| { x.cfg.box_primal = true; x.cfg.abs_fork = true; }),
    ]
}
