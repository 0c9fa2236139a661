//! C22: numerical integration; C42: summation.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::IntegrateError;
use multicalc::gaussian_tables::{MAX_ORDER, nodes};
use multicalc::numerical_integration::*;
use std::cell::RefCell;

pub fn uf<S: Sc>(name: &str, args: &[S]) -> S {
    S::x_fresh_fn(&mut St::default(), name, args)
}
use GaussianQuadratureMethod::{GaussHermite, GaussLaguerre, GaussLegendre};
use IterativeMethod::{Booles, Simpsons, Trapezoidal};
const RULES: [IterativeMethod; 3] = [Booles, Simpsons, Trapezoidal];
const BLOCK: [u64; 3] = [4, 3, 1];
const DEGREE: [usize; 3] = [5, 3, 1];
/// Closed Newton-Cotes weights of one panel, times the step.
const PANEL: [&[(i64, i64)]; 3] = [&[(14, 45), (64, 45), (24, 45), (64, 45), (14, 45)], &[(3, 8), (9, 8), (9, 8), (3, 8)], &[(1, 2), (1, 2)]];

fn limits<S: Sc>(cx: &mut Cx<S>, n: &str) -> [S; 2] {
    let a = cx.var(&format!("{n}a"));
    let w = cx.var_open(&format!("{n}w"), 0.01, 10.0);
    [a, a + w]
}
fn poly<S: Sc>(c: &[S], x: S) -> S {
    c.iter().rev().fold(S::ZERO, |s, k| s * x + *k)
}
fn integral_of<S: Sc>(c: &[S], l: [S; 2]) -> S {
    let anti = |x: S| c.iter().enumerate().fold(S::ZERO, |s, (i, k)| s + *k * x.powi(i as i32 + 1) * S::rat(1, i as i64 + 1));
    anti(l[1]) - anti(l[0])
}
/// The composite rule itself, for any integrand, with the count rounded up to whole panels.
fn composite<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let asked = if cx.thorough() { 1 + cx.choose(40) as u64 } else { [1, 2, 5, 12, 130][cx.choose(5)] };
    let kahan = cx.choose(2) == 1;
    let l = limits(cx, "");
    let n = asked.div_ceil(BLOCK[r]) * BLOCK[r];
    let at = RefCell::new(vec![]);
    let f = |x: S| {
        at.borrow_mut().push(x);
        uf("f", &[x])
    };
    let mut m = IterativeSingle::from_parameters(asked, RULES[r]);
    if kahan {
        m = m.with_kahan_summation();
    }
    let got = m.single_integral(&f, &l);
    cx.holds("integrated", got.is_ok());
    let step = (l[1] - l[0]) / S::c(n as f64);
    let x = |i: u64| l[0] + step * S::c(i as f64);
    let at = at.into_inner();
    cx.holds("samples", at.len() as u64 == n + 1);
    for (i, a) in at.iter().enumerate() {
        cx.eq("evenly spaced", *a, x(i as u64));
    }
    let mut sum = S::ZERO;
    for p in 0..n / BLOCK[r] {
        for (i, &(a, b)) in PANEL[r].iter().enumerate() {
            sum = sum + uf("f", &[x(p * BLOCK[r] + i as u64)]) * S::rat(a, b);
        }
    }
    cx.eq("composite rule", got.unwrap(), sum * step);
}
fn exact_degree<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let asked = [1, 5, 7][cx.choose(3)];
    let l = limits(cx, "");
    let c: [S; 6] = cx.vars("c");
    let c = &c[..DEGREE[r] + 1];
    let m = IterativeSingle::from_parameters(asked, RULES[r]);
    let got = m.single_integral(&|x| poly(c, x), &l);
    cx.eq("exact", got.unwrap(), integral_of(c, l));
    let other = limits(cx, "o");
    let got = m.double_integral(&|x| poly(c, x), &[l, other]);
    cx.eq("second integral is over a constant", got.unwrap(), integral_of(c, l) * (other[1] - other[0]));
}
fn short_way<S: Sc>(cx: &mut Cx<S>) {
    let l = limits(cx, "");
    let c: [S; 6] = cx.vars("c");
    cx.eq("integral", integral(&|x| poly(&c, x), l).unwrap(), integral_of(&c, l));
    let n = RefCell::new(0u64);
    let f = |x: S| {
        *n.borrow_mut() += 1;
        x
    };
    let _ = integral(&f, l);
    cx.holds("default step count", *n.borrow() == DEFAULT_TOTAL_ITERATIONS + 1);
}
/// Several variables: the chosen ones are integrated, innermost first, the others come from the point.
fn multi<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let kahan = cx.choose(2) == 1;
    let c: [[S; 2]; 2] = cx.mat("c");
    let p: [S; 3] = cx.vars("p");
    let (l, o) = (limits(cx, ""), limits(cx, "o"));
    let mut m = IterativeMulti::from_parameters([4, 3, 2][r], RULES[r]);
    if kahan {
        m = m.with_kahan_summation();
    }
    let f = |v: &[S; 3]| poly(&c[0], v[0]) * poly(&c[1], v[1]) * v[2];
    let got = m.single_partial_integral(&f, 0, &l, &p);
    cx.eq("over the first", got.unwrap(), integral_of(&c[0], l) * poly(&c[1], p[1]) * p[2]);
    let got = m.single_partial_integral(&f, 1, &l, &p);
    cx.eq("over the second", got.unwrap(), poly(&c[0], p[0]) * integral_of(&c[1], l) * p[2]);
    let got = m.double_partial_integral(&f, [0, 1], &[l, o], &p);
    cx.eq("over both", got.unwrap(), integral_of(&c[0], l) * integral_of(&c[1], o) * p[2]);
    let got = m.double_partial_integral(&f, [2, 0], &[l, o], &p);
    cx.eq("over the third and first", got.unwrap(), integral_of(&[S::ZERO, S::ONE], l) * integral_of(&c[0], o) * poly(&c[1], p[1]));
    let got = m.integrate([0, 1, 2], &f, &[l, o, l], &p);
    cx.eq("over all", got.unwrap(), integral_of(&c[0], l) * integral_of(&c[1], o) * integral_of(&[S::ZERO, S::ONE], l));
}
/// Infinite ranges: integrands that make the transform exact.
fn infinite<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let (a, k) = (cx.var_open("a", -100.0, 100.0), cx.var_open("k", -10.0, 10.0));
    let m = IterativeSingle::from_parameters([4, 3, 5][r], RULES[r]);
    let g = |x: S| k / ((S::ONE + x) * (S::ONE + x));
    cx.near("to plus infinity", m.single_integral(&|x| g(x - a), &[a, S::INFINITY]).unwrap(), k, 1e-9);
    cx.near("from minus infinity", m.single_integral(&|x| g(a - x), &[S::NEG_INFINITY, a]).unwrap(), k, 1e-9);
    let v = IterativeMulti::from_parameters([4, 3, 5][r], RULES[r]);
    let f = |p: &[S; 2]| g(p[0] - a) * p[1];
    let w = cx.var_open("w", -10.0, 10.0);
    cx.near("one of several to plus infinity", v.single_partial_integral(&f, 0, &[a, S::INFINITY], &[S::ZERO, w]).unwrap(), k * w, 1e-9);
    let f = |p: &[S; 2]| g(a - p[1]) * p[0];
    cx.near("one of several from minus infinity", v.double_partial_integral(&f, [1, 0], &[[S::NEG_INFINITY, a], [S::ZERO, S::ONE]], &[S::ZERO, w]).unwrap(), k * S::HALF, 1e-9);
    let f = |p: &[S; 2]| g(a - p[1]) * p[0];
    cx.near("inner finite, outer infinite", v.double_partial_integral(&f, [0, 1], &[[S::ZERO, S::ONE], [S::NEG_INFINITY, a]], &[S::ZERO, w]).unwrap(), k * S::HALF, 1e-9);
}
fn whole_line<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let k = cx.var_open("k", -10.0, 10.0);
    let m = IterativeSingle::from_parameters([4, 3, 4][r], RULES[r]);
    let got = m.single_integral(&|x| k / (S::ONE + x * x), &[S::NEG_INFINITY, S::INFINITY]).unwrap();
    cx.near("bell over the whole line", got, k * S::PI, 1e-6);
}
/// Every order: the tabulated rule applied to any integrand on any interval, with the stated domains.
fn gauss_rule<S: Sc>(cx: &mut Cx<S>) {
    let m = [GaussLegendre, GaussHermite, GaussLaguerre][cx.choose(3)];
    let order = if cx.thorough() { 1 + cx.choose(MAX_ORDER as u32) } else { [1, 2, 3, 4, 5, 12, 30][cx.choose(7)] };
    let table = nodes(m, order).unwrap();
    cx.holds("as many nodes as the order", table.len() == order);
    let l = match m {
        GaussLegendre => limits(cx, ""),
        GaussHermite => [S::NEG_INFINITY, S::INFINITY],
        GaussLaguerre => [S::ZERO, S::INFINITY],
    };
    let place = |x: f64| match m {
        GaussLegendre => (l[1] - l[0]) * S::HALF * S::c(x) + (l[0] + l[1]) * S::HALF,
        _ => S::c(x),
    };
    let half = match m {
        GaussLegendre => (l[1] - l[0]) * S::HALF,
        _ => S::ONE,
    };
    let f = |x: S| uf("f", &[x]);
    let g = GaussianSingle::<S>::from_parameters(order, m);
    let sum = table.iter().fold(S::ZERO, |s, &(w, x)| s + S::c(w) * f(place(x)));
    let total = table.iter().fold(S::ZERO, |s, &(w, _)| s + S::c(w));
    cx.eq("weighted samples", g.single_integral(&f, &l).unwrap(), half * sum);
    if order <= 12 {
        cx.eq("second integral is over a constant", g.double_integral(&f, &[l, l]).unwrap(), half * half * sum * total);
    }
    if order <= 5 {
        let v = GaussianMulti::<S>::from_parameters(order, m);
        let p: [S; 3] = cx.vars("p");
        let f3 = |x: &[S; 3]| uf("f3", x);
        let one = table.iter().fold(S::ZERO, |s, &(w, x)| s + S::c(w) * uf("f3", &[p[0], place(x), p[2]]));
        cx.eq("one of several", v.single_partial_integral(&f3, 1, &l, &p).unwrap(), half * one);
        let mut two = S::ZERO;
        for &(w, x) in table {
            for &(u, y) in table {
                two = two + S::c(w) * S::c(u) * uf("f3", &[place(y), p[1], place(x)]);
            }
        }
        cx.eq("two of several", v.double_partial_integral(&f3, [2, 0], &[l, l], &p).unwrap(), half * half * two);
    }
}
fn default_order<S: Sc>(cx: &mut Cx<S>) {
    let l = limits(cx, "");
    let f = |x: S| uf("f", &[x]);
    let four = GaussianSingle::<S>::from_parameters(4, GaussLegendre).single_integral(&f, &l).unwrap();
    cx.eq("four Legendre nodes unless asked otherwise", GaussianSingle::<S>::default().single_integral(&f, &l).unwrap(), four);
    let p: [S; 2] = cx.vars("p");
    let g = |x: &[S; 2]| uf("g", x);
    let four = GaussianMulti::<S>::from_parameters(4, GaussLegendre).single_partial_integral(&g, 0, &l, &p).unwrap();
    cx.eq("several variables alike", GaussianMulti::<S>::default().single_partial_integral(&g, 0, &l, &p).unwrap(), four);
}
/// A rule with n nodes is exact for polynomials up to degree 2n-1 against its own weight.
fn gauss_exact<S: Sc>(cx: &mut Cx<S>) {
    let m = [GaussLegendre, GaussHermite, GaussLaguerre][cx.choose(3)];
    let order = 1 + cx.choose(if cx.thorough() { MAX_ORDER as u32 } else { 12 });
    let l = match m {
        GaussLegendre => [-S::ONE, S::ONE],
        GaussHermite => [S::NEG_INFINITY, S::INFINITY],
        GaussLaguerre => [S::ZERO, S::INFINITY],
    };
    // terms scaled to a unit integral; the odd ones of a symmetric weight integrate to zero
    let terms = 2 * order;
    let c: Vec<S> = (0..terms).map(|i| cx.var_open(&format!("c{i}"), -1.0, 1.0)).collect();
    let mut size = vec![1.0f64; terms + 1];
    for k in 1..=terms {
        size[k] = match m {
            GaussLegendre => 1.0,
            GaussHermite => (size[k - 1] * ((k + 1) as f64 / 2.0).sqrt()).max(1e-300),
            GaussLaguerre => size[k - 1] * k as f64,
        };
    }
    if let GaussHermite = m {
        // Gamma((k+1)/2)
        size[0] = std::f64::consts::PI.sqrt();
        size[1] = 1.0;
        for k in 2..=terms {
            size[k] = size[k - 2] * (k as f64 - 1.0) / 2.0;
        }
    }
    let f = |x: S| {
        let mut p = S::ONE;
        let mut s = S::ZERO;
        for k in 0..terms {
            s = s + c[k] * p / S::c(size[k]);
            p = p * x;
        }
        s
    };
    let mut want = S::ZERO;
    for k in 0..terms {
        want = want
            + match m {
                GaussLegendre if k % 2 == 0 => c[k] * S::rat(2, k as i64 + 1),
                GaussHermite if k % 2 == 0 => c[k],
                GaussLaguerre => c[k],
                _ => S::ZERO,
            };
    }
    let got = GaussianSingle::<S>::from_parameters(order, m).single_integral(&f, &l).unwrap();
    cx.near("exact to degree 2n-1", got, want, 1e-11 * (1.0 + terms as f64));
}
fn kind<S: Sc>(cx: &mut Cx<S>, l: &str, r: Result<S, IntegrateError>, e: IntegrateError) {
    cx.holds(l, matches!(r, Err(x) if x == e));
}
/// Limits: everything that is not a proper range, finite or infinite, is refused.
fn refused_limits<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.any("a"), cx.any("b"));
    let good = cx.ask(lt(a, b)) && !(a == S::INFINITY) && !(b == S::NEG_INFINITY);
    let f = |x: S| uf("f", &[x]);
    let g = |x: &[S; 2]| uf("g", x);
    let p = [S::ONE, S::ONE];
    let legendre = good && a.is_finite() && b.is_finite();
    let one = IterativeSingle::from_parameters(1, Trapezoidal).single_integral(&f, &[a, b]);
    let many = IterativeMulti::from_parameters(1, Trapezoidal).single_partial_integral(&g, 0, &[a, b], &p);
    cx.holds("proper limits accepted", one.is_ok() == good && many.is_ok() == good);
    if !good {
        kind(cx, "improper limits", one, IntegrateError::LimitsIllDefined);
        kind(cx, "improper limits, several variables", many, IntegrateError::LimitsIllDefined);
    }
    let fine = [S::ZERO, S::ONE];
    let twice = IterativeSingle::from_parameters(1, Trapezoidal).double_integral(&f, &[fine, [a, b]]);
    cx.holds("outer limits checked", twice.is_ok() == good);
    for (m, ok) in [(GaussLegendre, legendre), (GaussHermite, a == S::NEG_INFINITY && b == S::INFINITY), (GaussLaguerre, a.is_finite() && cx.ask(eq(a, S::ZERO)) && b == S::INFINITY)] {
        let one = GaussianSingle::<S>::from_parameters(2, m).single_integral(&f, &[a, b]);
        let many = GaussianMulti::<S>::from_parameters(2, m).single_partial_integral(&g, 1, &[a, b], &p);
        cx.holds("quadrature domain", one.is_ok() == ok && many.is_ok() == ok);
        if !ok {
            kind(cx, "wrong domain", one, IntegrateError::LimitsIllDefined);
            kind(cx, "wrong domain, several variables", many, IntegrateError::LimitsIllDefined);
        }
    }
}
fn refusals<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.choose(3);
    let rule = RULES[r];
    let l = [S::ZERO, S::ONE];
    let bad = [S::ONE, S::ZERO];
    let f = |x: S| x;
    let g = |x: &[S; 2]| x[0];
    let p = [S::ONE, S::ONE];
    kind(cx, "no iterations comes first", IterativeSingle::from_parameters(0, rule).single_integral(&f, &bad), IntegrateError::IterationsZero);
    kind(cx, "no iterations comes first, several variables", IterativeMulti::from_parameters(0, rule).single_partial_integral(&g, 0, &bad, &p), IntegrateError::IterationsZero);
    let i = cx.choose(4);
    let got = IterativeMulti::from_parameters(3, rule).single_partial_integral(&g, i, &l, &p);
    let gauss = GaussianMulti::<S>::default().single_partial_integral(&g, i, &l, &p);
    cx.holds("only its own variables", got.is_ok() == (i < 2) && gauss.is_ok() == (i < 2));
    if i >= 2 {
        kind(cx, "variable out of range", got, IntegrateError::IndexOutOfRange);
        kind(cx, "variable out of range, quadrature", gauss, IntegrateError::IndexOutOfRange);
    }
    for m in [GaussLegendre, GaussHermite, GaussLaguerre] {
        for n in [0, MAX_ORDER + 1, MAX_ORDER + 2] {
            kind(cx, "order out of range", GaussianSingle::<S>::from_parameters(n, m).single_integral(&f, &bad), IntegrateError::QuadratureOrderOutOfRange);
            kind(cx, "order out of range, several variables", GaussianMulti::<S>::from_parameters(n, m).single_partial_integral(&g, 0, &bad, &p), IntegrateError::QuadratureOrderOutOfRange);
        }
    }
    // one sample goes bad, wherever it is
    let v = cx.any("v");
    let at = cx.choose(4);
    let n = RefCell::new(0);
    let pick = |x: S| {
        *n.borrow_mut() += 1;
        if *n.borrow() == at + 1 { v } else { x }
    };
    let got = IterativeSingle::from_parameters(3, Simpsons).single_integral(&pick, &l);
    cx.holds("bad sample", got.is_ok() == v.is_finite());
    if !v.is_finite() {
        kind(cx, "bad sample kind", got, IntegrateError::NonFinite);
    }
    *n.borrow_mut() = 0;
    let got = GaussianSingle::<S>::default().single_integral(&pick, &l);
    cx.holds("bad sample in quadrature", got.is_ok() == v.is_finite());
    *n.borrow_mut() = 0;
    let got = GaussianMulti::<S>::default().single_partial_integral(&|x: &[S; 2]| pick(x[0]), 0, &l, &p);
    cx.holds("bad sample in quadrature, several variables", got.is_ok() == v.is_finite());
    *n.borrow_mut() = 0;
    let got = IterativeMulti::from_parameters(3, Simpsons).single_partial_integral(&|x: &[S; 2]| pick(x[0]), 0, &l, &p);
    cx.holds("bad sample, several variables", got.is_ok() == v.is_finite());
}
/// The running sum is the sum, however many terms and whichever way it is kept (blocks of 128).
fn sums<S: Sc>(cx: &mut Cx<S>) {
    let n = if cx.thorough() { [126, 127, 128, 255, 256, 383, 512, 1000][cx.choose(8)] } else { [126, 127, 300][cx.choose(3)] };
    let kahan = cx.choose(2) == 1;
    // the sample at place i is a free value
    let at = RefCell::new(0usize);
    let free = n + 1;
    let f = |_: S| {
        let i = *at.borrow();
        *at.borrow_mut() += 1;
        uf("term", &[S::c(i as f64)])
    };
    let mut m = IterativeSingle::from_parameters(n as u64, Trapezoidal);
    if kahan {
        m = m.with_kahan_summation();
    }
    let got = m.single_integral(&f, &[S::ZERO, S::c(n as f64)]).unwrap();
    let mut sum = S::ZERO;
    for i in 0..free {
        let w = if i == 0 || i + 1 == free { S::HALF } else { S::ONE };
        sum = sum + w * uf("term", &[S::c(i as f64)]);
    }
    cx.eq("sum of all terms", got, sum);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C22", composite, "IterativeSingle::{from_parameters,with_kahan_summation,single_integral}; any integrand (uninterpreted), 5 counts (thorough 1..40)"),
        h!("C22", exact_degree, "IterativeSingle::{single_integral,double_integral}; polynomials to the rule's degree, any limits"),
        h!("C22", short_way, "numerical_integration::integral; polynomials of degree 5"),
        h!("C22", multi, "IterativeMulti::{single_partial_integral,double_partial_integral,integrate}; products of linear polynomials, 3 variables"),
        h!("C22", infinite, "IterativeSingle, IterativeMulti over half-infinite ranges; integrands that make the transform constant", |x| { x.cfg.div_zero = engine::DivZero::Assume; }),
        h!("C22", whole_line, "IterativeSingle over the whole line; k/(1+x^2)", |x| { x.cfg.div_zero = engine::DivZero::Assume; }),
        h!("C22", gauss_rule, "GaussianSingle, GaussianMulti, nodes; any integrand, 7 orders (thorough all 30), 3 families"),
        h!("C22", default_order, "GaussianSingle::default, GaussianMulti::default"),
        h!("C22", gauss_exact, "tables of Legendre, Hermite and Laguerre rules; orders 1..12 (thorough 30), polynomials of degree 2n-1"),
        h!("C22", refused_limits, "limit checks of all integrators; any limits", |x| { x.cfg.div_zero = engine::DivZero::Assume; }),
        h!("C22", refusals, "iteration count, variable index, order and non-finite samples"),
        h!("C42", sums, "PairwiseSum, KahanSum through IterativeSingle; up to 300 (thorough 1000) terms"),
    ]
}
