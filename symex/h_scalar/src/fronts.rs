//! C02: derivative front-ends return the true derivatives.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::DiffError;
use multicalc::numerical_derivative::*;
use multicalc::scalar::{ScalarFn, ScalarFnN, VectorFn};
use multicalc::Numeric;

/// exp(a x) * (c0 + c1 x + ...) + s sin(x)
pub struct F1<S: Sc> {
    pub c: Vec<S>,
    pub a: S,
    pub s: S,
}
impl<S: Sc> ScalarFn for F1<S> {
    fn eval<N: Numeric>(&self, x: N) -> N {
        let mut p = N::ZERO;
        for c in self.c.iter().rev() {
            p = p * x + N::from_f64(c.f());
        }
        p * (N::from_f64(self.a.f()) * x).exp() + N::from_f64(self.s.f()) * x.sin()
    }
}
impl<S: Sc> F1<S> {
    /// k-th derivative by the product rule on exp(ax) p: coefficients p <- a p + p'.
    pub fn d(&self, k: usize, x: S) -> S {
        let mut c = self.c.clone();
        for _ in 0..k {
            let n = c.len();
            c = (0..n).map(|i| self.a * c[i] + if i + 1 < n { S::c((i + 1) as f64) * c[i + 1] } else { S::ZERO }).collect();
        }
        let mut p = S::ZERO;
        for v in c.iter().rev() {
            p = p * x + *v;
        }
        let t = match k % 4 {
            0 => x.sin(),
            1 => x.cos(),
            2 => -x.sin(),
            _ => -x.cos(),
        };
        p * (self.a * x).exp() + self.s * t
    }
}
fn f1<S: Sc>(cx: &mut Cx<S>, n: usize) -> F1<S> {
    F1 { c: (0..n).map(|i| cx.var(&format!("c{i}"))).collect(), a: cx.var_hint("a", -1.0, 1.0), s: cx.var("s") }
}
/// All monomials of degree <= 3 in three variables with symbolic weights.
pub struct F3<S: Sc> {
    pub c: Vec<([i32; 3], S)>,
}
impl<S: Sc> F3<S> {
    pub fn new(cx: &mut Cx<S>, n: &str, deg: i32) -> Self {
        let mut c = vec![];
        for i in 0..=deg {
            for j in 0..=deg - i {
                for k in 0..=deg - i - j {
                    c.push(([i, j, k], cx.var(&format!("{n}{i}{j}{k}"))));
                }
            }
        }
        F3 { c }
    }
    pub fn partial(&self, idx: &[usize], x: &[S; 3]) -> S {
        let mut s = S::ZERO;
        for (e, w) in &self.c {
            let mut e = *e;
            let mut f = S::ONE;
            for i in idx {
                f = f * S::c(e[*i] as f64);
                e[*i] -= 1;
            }
            if e.iter().any(|v| *v < 0) {
                continue;
            }
            let mut t = *w * f;
            for k in 0..3 {
                for _ in 0..e[k] {
                    t = t * x[k];
                }
            }
            s = s + t;
        }
        s
    }
}
impl<S: Sc> ScalarFnN<3> for F3<S> {
    fn eval<N: Numeric>(&self, x: &[N; 3]) -> N {
        let mut s = N::ZERO;
        for (e, w) in &self.c {
            let mut t = N::from_f64(w.f());
            for k in 0..3 {
                t = t * x[k].powi(e[k]);
            }
            s = s + t;
        }
        s
    }
}
pub struct V32<S: Sc>(pub F3<S>, pub F3<S>);
impl<S: Sc> VectorFn<3, 2> for V32<S> {
    fn eval<N: Numeric>(&self, x: &[N; 3]) -> [N; 2] {
        [ScalarFnN::eval(&self.0, x), ScalarFnN::eval(&self.1, x)]
    }
}
fn single<S: Sc>(cx: &mut Cx<S>) {
    let f = f1(cx, 4);
    let x = cx.var("x");
    let ad = AutoDiffSingle::<S>::new();
    let k = cx.choose(8);
    match k {
        0 => {
            cx.holds("order zero", ad.differentiate(0, &f, x) == Err(DiffError::OrderZero));
            cx.eq("derivative", derivative(&f, x), f.d(1, x));
            cx.eq("second derivative", second_derivative(&f, x), f.d(2, x));
            cx.eq("first wrapper", ad.first_derivative(&f, x).unwrap(), f.d(1, x));
            cx.eq("second wrapper", ad.second_derivative(&f, x).unwrap(), f.d(2, x));
        }
        7 => cx.holds("order too high", ad.differentiate(7, &f, x) == Err(DiffError::OrderUnsupported)),
        k => cx.eq(&format!("order {k}"), ad.differentiate(k, &f, x).unwrap(), f.d(k, x)),
    }
}
fn partials<S: Sc>(cx: &mut Cx<S>) {
    let f = F3::new(cx, "w", 3);
    let x: [S; 3] = cx.vars("x");
    let ad = AutoDiffMulti::<S>::new();
    cx.holds("order zero", ad.differentiate::<_, 3, 0>(&f, &[], &x) == Err(DiffError::OrderZero));
    cx.holds("order four", ad.differentiate(&f, &[0, 0, 0, 0], &x) == Err(DiffError::OrderUnsupported));
    let i = cx.choose(4);
    if i == 3 {
        for bad in [3, 7] {
            cx.holds("index 1", ad.differentiate(&f, &[bad], &x) == Err(DiffError::IndexOutOfRange));
            cx.holds("index 2", ad.differentiate(&f, &[0, bad], &x) == Err(DiffError::IndexOutOfRange));
            cx.holds("index 3", ad.differentiate(&f, &[0, bad, 1], &x) == Err(DiffError::IndexOutOfRange));
            cx.holds("partial index", partial(&f, bad, &x) == Err(DiffError::IndexOutOfRange));
        }
        return;
    }
    cx.eq("first partial", ad.differentiate(&f, &[i], &x).unwrap(), f.partial(&[i], &x));
    cx.eq("partial()", partial(&f, i, &x).unwrap(), f.partial(&[i], &x));
    cx.eq("first wrapper", ad.first_partial_derivative(&f, i, &x).unwrap(), f.partial(&[i], &x));
    for j in 0..3 {
        cx.eq("second partial", ad.differentiate(&f, &[i, j], &x).unwrap(), f.partial(&[i, j], &x));
        cx.eq("second wrapper", ad.second_partial_derivative(&f, &[i, j], &x).unwrap(), f.partial(&[i, j], &x));
        for k in 0..3 {
            cx.eq("third partial", ad.differentiate(&f, &[i, j, k], &x).unwrap(), f.partial(&[i, j, k], &x));
        }
    }
}
fn matrices<S: Sc>(cx: &mut Cx<S>) {
    let v = V32(F3::new(cx, "p", 3), F3::new(cx, "q", 3));
    let x: [S; 3] = cx.vars("x");
    let jac = Jacobian::from_derivator(AutoDiffMulti::<S>::new());
    let j = jac.evaluate(&v, &x).unwrap();
    let jh = jac.evaluate_on_heap(&v, &x).unwrap();
    let hes = Hessian::from_derivator(AutoDiffMulti::<S>::new()).evaluate(&v.0, &x).unwrap();
    let fd = FiniteDifferenceMulti::from_parameters(S::rat(1, 8), FiniteDifferenceMode::Central, S::TEN);
    let hfd = Hessian::from_derivator(fd).evaluate(&v.1, &x).unwrap();
    let jfd = Jacobian::from_derivator(fd).evaluate(&v, &x).unwrap();
    for c in 0..3 {
        for (r, f) in [&v.0, &v.1].into_iter().enumerate() {
            cx.eq("jacobian", j[(r, c)], f.partial(&[c], &x));
            cx.eq("jacobian on heap", jh[r][c], f.partial(&[c], &x));
            cx.eq("finite-difference jacobian", jfd[(r, c)], fd.differentiate(f, &[c], &x).unwrap());
        }
        for d in 0..3 {
            cx.eq("hessian", hes[(c, d)], v.0.partial(&[c, d], &x));
            // a second difference of a cubic is exact, in whichever order
            cx.eq("finite-difference hessian", hfd[(c, d)], v.1.partial(&[c, d], &x));
        }
        let col = AutoDiffMulti::<S>::new().jacobian_column(&v, c, &x).unwrap();
        cx.eqs("jacobian column", &col, &[v.0.partial(&[c], &x), v.1.partial(&[c], &x)]);
    }
    cx.holds("column out of range", AutoDiffMulti::<S>::new().jacobian_column(&v, 3, &x).err() == Some(DiffError::IndexOutOfRange));
    struct Empty;
    impl VectorFn<3, 0> for Empty {
        fn eval<N: Numeric>(&self, _: &[N; 3]) -> [N; 0] {
            []
        }
    }
    cx.holds("no outputs", jac.evaluate(&Empty, &x).err() == Some(DiffError::EmptyFunctionSet));
    cx.holds("no outputs on heap", jac.evaluate_on_heap(&Empty, &x).err() == Some(DiffError::EmptyFunctionSet));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C02", single, "AutoDiffSingle orders 0..=7, derivative, second_derivative; exp(ax) cubic + s sin x with symbolic weights"),
        h!("C02", partials, "AutoDiffMulti orders 0..=4 over every index combination; general cubic in 3 variables"),
        h!("C02", matrices, "Jacobian (stack, heap), Hessian, jacobian_column over autodiff and central differences; two general cubics in 3 variables"),
    ]
}
