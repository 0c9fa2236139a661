//! C25: polynomial algebra and construction.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::*;
use multicalc::scalar::Jet;

/// sum of c_k x^k, as written in a textbook
pub fn at<S: Sc>(c: &[S], x: S) -> S {
    let mut p = S::ONE;
    let mut t = S::ZERO;
    for k in c {
        t = t + *k * p;
        p = p * x;
    }
    t
}
pub fn ff(k: usize, n: usize) -> f64 {
    (0..n).map(|i| k as f64 - i as f64).product()
}
/// n-th derivative of sum c_k x^k
pub fn dat<S: Sc>(c: &[S], x: S, n: usize) -> S {
    let mut t = S::ZERO;
    for (k, v) in c.iter().enumerate().skip(n) {
        let mut p = *v * S::c(ff(k, n));
        for _ in n..k {
            p = p * x;
        }
        t = t + p;
    }
    t
}

fn basics<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.vars::<5>("c");
    let p = Polynomial::new(c);
    let x = cx.var("x");
    cx.eqs("coefficients", p.coefficients(), &c);
    cx.eq("value", p.evaluate(x), at(&c, x));
    let d: [S; 7] = p.evaluate_with_derivatives(x);
    for n in 0..7 {
        cx.eq("derivative in one sweep", d[n], dat(&c, x, n));
        cx.eq("nth derivative", p.nth_derivative(n).evaluate(x), dat(&c, x, n));
    }
    let d1: [S; 1] = p.evaluate_with_derivatives(x);
    cx.eq("one order", d1[0], at(&c, x));
    cx.eq("derivative", p.derivative().evaluate(x), dat(&c, x, 1));
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    let anti = |u: S| {
        let mut t = S::ZERO;
        let mut q = u;
        for k in 0..5 {
            t = t + c[k] * q * S::rat(1, k as i64 + 1);
            q = q * u;
        }
        t
    };
    cx.eq("area", p.definite_integral(lo, hi), anti(hi) - anti(lo));
    for k in 0..7 {
        match p.coefficient(k) {
            Some(v) => cx.eq("coefficient", v, c[k]),
            None => cx.holds("past the end", k >= 5),
        }
    }
    let f = cx.nonzero("f");
    cx.eq("scale", p.scale(f).evaluate(x), f * at(&c, x));
    cx.eq("times", (p * f).evaluate(x), f * at(&c, x));
    cx.eq("divided", (p / f).evaluate(x) * f, at(&c, x));
    let e = cx.vars::<5>("e");
    let q = Polynomial::new(e);
    cx.eq("sum", (p + q).evaluate(x), at(&c, x) + at(&e, x));
    cx.eq("difference", (p - q).evaluate(x), at(&c, x) - at(&e, x));
    cx.eq("negated", (-p).evaluate(x), -at(&c, x));
    cx.eq("zeros", Polynomial::<5, S>::zeros().evaluate(x), S::ZERO);
    cx.eq("default", Polynomial::<5, S>::default().evaluate(x), S::ZERO);
}
fn argument<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.vars::<5>("c");
    let p = Polynomial::new(c);
    let (x, s, f) = (cx.var("x"), cx.var("s"), cx.var("f"));
    cx.eq("shifted", p.shift_argument(s).evaluate(x), at(&c, x + s));
    cx.eq("stretched", p.scale_argument(f).evaluate(x), at(&c, f * x));
    let r = p.reverse();
    for k in 0..5 {
        cx.eq("reversed", r.coefficients()[k], c[4 - k]);
    }
    let nz = cx.nonzero("nz");
    let p4 = nz * nz * nz * nz;
    cx.eq("reversal inverts the argument", r.evaluate(nz), p4 * at(&c, S::ONE / nz));
}
fn degree<S: Sc>(cx: &mut Cx<S>) {
    // each coefficient is zero or not, independently
    let mut c = [S::ZERO; 4];
    let mut top = None;
    for k in 0..4 {
        if cx.choose(2) == 1 {
            c[k] = cx.nonzero(&format!("c{k}"));
            top = Some(k);
        }
    }
    let p = Polynomial::new(c);
    cx.holds("degree", p.degree() == top);
    cx.holds("is_zero", p.is_zero() == top.is_none());
    match (p.leading_coefficient(), top) {
        (Some(v), Some(k)) => cx.eq("leading", v, c[k]),
        (a, b) => cx.holds("leading", a.is_none() && b.is_none()),
    }
    cx.holds("finite", p.is_finite());
    fn size<const N: usize, S: Sc>(cx: &mut Cx<S>, p: &Polynomial<4, S>, c: &[S; 4], top: Option<usize>) {
        match p.try_resize::<N>() {
            None => cx.holds("refused only when something would be lost", top.is_some_and(|k| k >= N)),
            Some(q) => {
                cx.holds("nothing lost", top.is_none_or(|k| k < N));
                for k in 0..N {
                    cx.eq("kept", q.coefficients()[k], if k < 4 { c[k] } else { S::ZERO });
                }
            }
        }
    }
    size::<1, S>(cx, &p, &c, top);
    size::<2, S>(cx, &p, &c, top);
    size::<3, S>(cx, &p, &c, top);
    size::<4, S>(cx, &p, &c, top);
    size::<6, S>(cx, &p, &c, top);
}
/// a coefficient list of length N whose degree is chosen
fn some<const N: usize, S: Sc>(cx: &mut Cx<S>, n: &str) -> ([S; N], Option<usize>) {
    let k = cx.choose(N as u32 + 1);
    let mut c = [S::ZERO; N];
    for i in 0..k {
        c[i] = if i + 1 == k { cx.nonzero(&format!("{n}{i}")) } else { cx.var(&format!("{n}{i}")) };
    }
    (c, k.checked_sub(1))
}
fn product_at<const O: usize, S: Sc>(cx: &mut Cx<S>, a: &[S; 3], b: &[S; 3], da: Option<usize>, db: Option<usize>, x: S) {
    let r = Polynomial::new(*a).multiply_into::<3, O>(&Polynomial::new(*b));
    let fits = match (da, db) {
        (Some(i), Some(j)) => i + j < O,
        _ => true,
    };
    match r {
        Ok(p) => {
            cx.holds("fits", fits);
            cx.eq("product", p.evaluate(x), at(a, x) * at(b, x));
        }
        Err(e) => cx.holds("overflow", !fits && e == E::DegreeOverflow),
    }
    let r = Polynomial::new(*a).compose_into::<3, O>(&Polynomial::new(*b));
    let fits = match (da, db) {
        (Some(i), Some(j)) => i * j < O,
        _ => true,
    };
    match r {
        Ok(p) => {
            cx.holds("composition fits", fits);
            cx.eq("composition", p.evaluate(x), at(a, at(b, x)));
        }
        Err(e) => cx.holds("composition overflow", !fits && e == E::DegreeOverflow),
    }
}
fn product<S: Sc>(cx: &mut Cx<S>) {
    let (a, da) = some::<3, S>(cx, "a");
    let (b, db) = some::<3, S>(cx, "b");
    let x = cx.var("x");
    match cx.choose(4) {
        0 => product_at::<2, S>(cx, &a, &b, da, db, x),
        1 => product_at::<3, S>(cx, &a, &b, da, db, x),
        2 => product_at::<4, S>(cx, &a, &b, da, db, x),
        _ => product_at::<5, S>(cx, &a, &b, da, db, x),
    }
}
fn division<S: Sc>(cx: &mut Cx<S>) {
    let p = cx.vars::<4>("p");
    let (d, dd) = some::<3, S>(cx, "d");
    let x = cx.var("x");
    let r = Polynomial::new(p).divide::<3, 4, 2>(&Polynomial::new(d));
    match dd {
        None => cx.holds("zero divisor", r.err() == Some(E::LeadingCoefficientZero)),
        Some(k) => {
            let (q, r) = r.unwrap();
            cx.eq("p = q d + r", q.evaluate(x) * at(&d, x) + r.evaluate(x), at(&p, x));
            for i in k..2 {
                cx.eq("remainder is lower than the divisor", r.coefficients()[i], S::ZERO);
            }
            for i in (4 - k)..4 {
                cx.eq("quotient degree", q.coefficients()[i], S::ZERO);
            }
        }
    }
}
fn division_room<S: Sc>(cx: &mut Cx<S>) {
    // the answer is refused only when a nonzero coefficient would not fit
    let p = cx.vars::<4>("p");
    let d = [cx.var("d0"), cx.nonzero("d1")];
    let r = Polynomial::new(p).divide::<2, 2, 1>(&Polynomial::new(d));
    match r {
        Ok((q, r)) => {
            let x = cx.var("x");
            cx.eq("p3", p[3], S::ZERO);
            cx.eq("p = q d + r", q.evaluate(x) * at(&d, x) + r.evaluate(x), at(&p, x));
        }
        Err(e) => {
            cx.holds("overflow", e == E::DegreeOverflow);
            cx.check("cubic term present", ne(p[3], S::ZERO));
        }
    }
    let r = Polynomial::new(p).divide::<2, 3, 0>(&Polynomial::new(d));
    let root = -d[0] / d[1];
    match r {
        Ok(_) => cx.eq("exact division", at(&p, root), S::ZERO),
        Err(e) => {
            cx.holds("overflow", e == E::DegreeOverflow);
            cx.check("inexact division", ne(at(&p, root), S::ZERO));
        }
    }
}
fn from_roots<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(5);
    let r: Vec<S> = (0..n).map(|i| cx.any(&format!("r{i}"))).collect();
    let g = Polynomial::<4, S>::from_roots(&r);
    if r.iter().any(|v| !v.is_finite()) {
        cx.holds("non-finite", g.err() == Some(E::NonFinite));
        return;
    }
    if n >= 4 {
        cx.holds("too many", g.err() == Some(E::DegreeOverflow));
        return;
    }
    let p = g.unwrap();
    let x = cx.var("x");
    let mut t = S::ONE;
    for v in &r {
        t = t * (x - *v);
    }
    cx.eq("product of (x - root)", p.evaluate(x), t);
    cx.eq("leading one", p.coefficients()[n], S::ONE);
}
fn from_jet<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.vars::<3>("c");
    let j = Jet { coeffs: c };
    let p = Polynomial::<4, S>::from_jet(&j).unwrap();
    cx.eqs("series", p.coefficients(), &[c[0], c[1], c[2], S::ZERO]);
    let p = Polynomial::<3, S>::from_jet(&j).unwrap();
    cx.eqs("series", p.coefficients(), &c);
    cx.holds("too many", Polynomial::<2, S>::from_jet(&j).err() == Some(E::DegreeOverflow));
}
fn chebyshev<S: Sc>(cx: &mut Cx<S>) {
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    cx.assume(lt(lo, hi));
    cx.assume(lt(hi, S::c(100.0)));
    cx.assume(lt(S::c(-100.0), lo));
    let x = Polynomial::<4, S>::chebyshev_nodes(lo, hi);
    cx.check("increasing", and((0..3).map(|i| lt(x[i], x[i + 1])).collect()));
    cx.check("inside", and(vec![lt(lo, x[0]), lt(x[3], hi)]));
    // roots of T4(u) = 8u^4 - 8u^2 + 1 on the stretched range
    for i in 0..4 {
        let u = (x[i] - lo) / (hi - lo) * S::TWO - S::ONE;
        cx.near("zero of the Chebyshev polynomial", S::c(8.0) * u * u * (u * u - S::ONE) + S::ONE, S::ZERO, 1e-12);
    }
}
fn from_points<S: Sc>(cx: &mut Cx<S>) {
    let (x, y) = (cx.vars::<3>("x"), cx.vars::<3>("y"));
    let g = Polynomial::<3, S>::from_points(&x, &y);
    if cx.ask(or(vec![eq(x[0], x[1]), eq(x[1], x[2]), eq(x[0], x[2])])) {
        cx.holds("duplicate", g.err() == Some(E::DuplicateNode));
        return;
    }
    let p = g.unwrap();
    for i in 0..3 {
        cx.eq("passes through", p.evaluate(x[i]), y[i]);
    }
}
fn from_points4<S: Sc>(cx: &mut Cx<S>) {
    // four points in an arbitrary order; the spacing is symbolic
    let base = cx.var_open("base", -10.0, 10.0);
    let gap = cx.var_open("gap", 0.25, 4.0);
    let o = [[0.0, 1.0, 2.5, 4.0], [2.5, 0.0, 4.0, 1.0], [4.0, 2.5, 1.0, 0.0]][cx.choose(3)];
    let x = o.map(|k| base + gap * S::c(k));
    let y = cx.vars::<4>("y");
    let p = Polynomial::<4, S>::from_points(&x, &y).unwrap();
    for i in 0..4 {
        cx.eq("passes through", p.evaluate(x[i]), y[i]);
    }
}
fn from_points_build<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, u, v) = (cx.any("a"), cx.any("b"), cx.any("u"), cx.any("v"));
    let g = Polynomial::<2, S>::from_points(&[a, b], &[u, v]);
    let want = if [a, b, u, v].iter().any(|t| !t.is_finite()) {
        Some(E::NonFinite)
    } else if cx.ask(eq(a, b)) {
        Some(E::DuplicateNode)
    } else {
        None
    };
    cx.holds("two points", g.err() == want);
    if want.is_none() {
        cx.eq("at a", g.unwrap().evaluate(a), u);
        cx.eq("at b", g.unwrap().evaluate(b), v);
    }
    let g = Polynomial::<1, S>::from_points(&[a], &[u]);
    if a.is_finite() && u.is_finite() {
        cx.eq("one point", g.unwrap().evaluate(S::TWO), u);
    } else {
        cx.holds("one point", g.err() == Some(E::NonFinite));
    }
    let f = Polynomial::<2, S>::fit_least_squares(&[a, b], &[u, v]);
    cx.holds("fit", f.err() == want);
    cx.holds("too few", Polynomial::<3, S>::fit_least_squares(&[a, b], &[u, v]).err() == Some(E::TooFewSamples));
}
fn fit<S: Sc>(cx: &mut Cx<S>) {
    // normal equations: the misses are orthogonal to every power
    let o = [[0.0, 1.0, 2.0, 4.0], [-1.0, 0.5, 3.0, 0.5], [10.0, 7.0, 8.0, 9.0]][cx.choose(3)];
    let base = if cx.thorough() { cx.var_open("base", -4.0, 4.0) } else { S::ZERO };
    let x = o.map(|k| base + S::c(k));
    let y: [S; 4] = std::array::from_fn(|i| cx.var_open(&format!("y{i}"), -8.0, 8.0));
    let p = Polynomial::<2, S>::fit_least_squares(&x, &y).unwrap();
    let e: Vec<S> = (0..4).map(|i| p.evaluate(x[i]) - y[i]).collect();
    for k in 0..2 {
        let mut t = S::ZERO;
        for i in 0..4 {
            t = t + e[i] * if k == 0 { S::ONE } else { x[i] };
        }
        cx.near("misses orthogonal to every power", t, S::ZERO, 1e-8);
    }
}
fn fit_quadratic<S: Sc>(cx: &mut Cx<S>) {
    let o = [[0.0, 1.0, 2.0, 4.0], [-1.0, 0.5, 3.0, -2.5]][cx.choose(2)];
    let x = o.map(|k| S::c(k));
    let y: [S; 4] = std::array::from_fn(|i| cx.var_open(&format!("y{i}"), -8.0, 8.0));
    let p = Polynomial::<3, S>::fit_least_squares(&x, &y).unwrap();
    let e: Vec<S> = (0..4).map(|i| p.evaluate(x[i]) - y[i]).collect();
    for k in 0..3 {
        let mut t = S::ZERO;
        for i in 0..4 {
            t = t + e[i] * S::c(o[i].powi(k));
        }
        cx.near("misses orthogonal to every power", t, S::ZERO, 1e-8);
    }
}
fn fit_single_position<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var("x");
    let y = cx.vars::<3>("y");
    cx.holds("one position", Polynomial::<2, S>::fit_least_squares(&[x; 3], &y).err() == Some(E::DuplicateNode));
}
fn endpoints<S: Sc>(cx: &mut Cx<S>) {
    let v = cx.vars::<4>("v");
    let span = cx.pos("span");
    let p = Polynomial::<4, S>::from_endpoint_derivatives(v[0], v[1], v[2], v[3], span).unwrap();
    let c = *p.coefficients();
    cx.eq("start", at(&c, S::ZERO), v[0]);
    cx.eq("start slope", dat(&c, S::ZERO, 1), v[1] * span);
    cx.eq("end", at(&c, S::ONE), v[2]);
    cx.eq("end slope", dat(&c, S::ONE, 1), v[3] * span);
}
fn endpoints7<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.vars::<4>("a"), cx.vars::<4>("b"));
    let span = if cx.thorough() { cx.var_open("span", 0.5, 2.0) } else { [S::ONE, S::c(0.5), S::c(3.0)][cx.choose(3)] };
    for v in a.iter().chain(b.iter()) {
        cx.assume(and(vec![lt(S::c(-10.0), *v), lt(*v, S::c(10.0))]));
    }
    let p = Polynomial::<8, S>::from_endpoint_derivatives(&a, &b, span).unwrap();
    let c = *p.coefficients();
    let mut s = S::ONE;
    for k in 0..4 {
        cx.near("start", dat(&c, S::ZERO, k), a[k] * s, 1e-6);
        cx.near("end", dat(&c, S::ONE, k), b[k] * s, 1e-6);
        s = s * span;
    }
}
fn endpoints_build<S: Sc>(cx: &mut Cx<S>) {
    let span = cx.any("span");
    let v = cx.any("v");
    let k = cx.choose(4);
    let mut w = [S::ZERO; 4];
    w[k] = v;
    let want = if !v.is_finite() || !span.is_finite() {
        Some(E::NonFinite)
    } else if cx.ask(le(span, S::ZERO)) {
        Some(E::SpanNotPositive)
    } else {
        None
    };
    cx.holds("cubic", Polynomial::<4, S>::from_endpoint_derivatives(w[0], w[1], w[2], w[3], span).err() == want);
    if want.is_some() {
        let z = [S::ONE; 4];
        cx.holds("seventh", Polynomial::<8, S>::from_endpoint_derivatives(&w, &z, span).err() == want);
        cx.holds("seventh", Polynomial::<8, S>::from_endpoint_derivatives(&z, &w, span).err() == want);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C25", basics, "Polynomial::{new,coefficient,evaluate,evaluate_with_derivatives,derivative,nth_derivative,definite_integral,scale} and the operators; 5 arbitrary coefficients, arbitrary argument"),
        h!("C25", argument, "Polynomial::{shift_argument,scale_argument,reverse}; 5 coefficients"),
        h!("C25", degree, "Polynomial::{degree,leading_coefficient,is_zero,try_resize}; every zero pattern of 4 coefficients, sizes 1-6"),
        h!("C25", product, "Polynomial::{multiply_into,compose_into}; every pair of degrees up to 2, output sizes 2-5"),
        h!("C25", division, "Polynomial::divide; degree <= 3 by every divisor degree up to 2"),
        h!("C25", division_room, "Polynomial::divide with too little room for the quotient or the remainder"),
        h!("C25", from_roots, "Polynomial::from_roots; 0-4 roots, finite or not"),
        h!("C25", from_jet, "Polynomial::from_jet; order 3 into 4, 3, 2 coefficients"),
        h!("C25", chebyshev, "Polynomial::chebyshev_nodes; 4 nodes, arbitrary range within 100"),
        h!("C25", from_points, "Polynomial::from_points, sample_range, multiply_in_a_root; 3 arbitrary points in any order, equal or not", |x| { x.cfg.snap = true; }),
        h!("C25", from_points4, "Polynomial::from_points; 4 points in three orders with symbolic origin and spacing", |x| { x.cfg.snap = true; }),
        h!("C25", from_points_build, "Polynomial::{from_points,fit_least_squares} error reports, 1-2 points", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C25", fit, "Polynomial::fit_least_squares; line through 4 samples at three sets of positions, arbitrary values", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C25", fit_quadratic, "Polynomial::fit_least_squares; parabola through 4 samples, two sets of positions", |x| { x.cfg.snap = true; x.cfg.abs_fork = true; }),
        h!("C25", fit_single_position, "Polynomial::fit_least_squares; every sample at one arbitrary position"),
        h!("C25", endpoints, "Polynomial<4>::from_endpoint_derivatives; arbitrary values and span"),
        h!("C25", endpoints7, "Polynomial<8>::from_endpoint_derivatives, endpoint_mapping(_inverse); arbitrary ends, spans 0.5, 1, 3 (thorough: any in (0.5,2))", |x| { x.cfg.snap = true; }),
        h!("C25", endpoints_build, "Polynomial::from_endpoint_derivatives error reports"),
    ]
}
