//! C27: piecewise curves and polynomials in several variables.
use crate::algebra::{at, dat};
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::*;

type Curve<S> = PiecewisePolynomial<3, 4, 2, S>;
struct Made<S: Sc> {
    curve: Curve<S>,
    c: Vec<[[S; 4]; 2]>,
    spans: Vec<S>,
}
fn curve<S: Sc>(cx: &mut Cx<S>, n: usize) -> Made<S> {
    let c: Vec<[[S; 4]; 2]> = (0..n).map(|i| std::array::from_fn(|a| cx.vars::<4>(&format!("p{i}{a}_")))).collect();
    let spans: Vec<S> = (0..n).map(|i| cx.pos(&format!("span{i}"))).collect();
    let pieces: Vec<[Polynomial<4, S>; 2]> = c.iter().map(|p| p.map(Polynomial::new)).collect();
    Made { curve: Curve::try_from_pieces(&pieces, &spans).unwrap(), c, spans }
}
/// where a parameter falls, by the documented rule
fn place<S: Sc>(cx: &mut Cx<S>, m: &Made<S>, t: S) -> (usize, S) {
    if cx.ask(le(t, S::ZERO)) {
        return (0, S::ZERO);
    }
    let mut start = S::ZERO;
    for (i, s) in m.spans.iter().enumerate() {
        if cx.ask(lt(t, start + *s)) {
            return (i, (t - start) / *s);
        }
        start = start + *s;
    }
    (m.spans.len() - 1, S::ONE)
}
fn evaluate<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(3) + 1;
    let m = curve(cx, n);
    let t = cx.var("t");
    let (i, u) = place(cx, &m, t);
    let v = m.curve.evaluate(t).unwrap();
    let d = m.curve.evaluate_with_derivatives::<5>(t).unwrap();
    for a in 0..2 {
        cx.eq("value", v[a], at(&m.c[i][a], u));
        let mut s = S::ONE;
        for k in 0..5 {
            cx.eq("derivative against the shared parameter", d[k][a] * s, dat(&m.c[i][a], u, k));
            s = s * m.spans[i];
        }
    }
    for k in 0..5 {
        let w = m.curve.nth_derivative(k).evaluate(t).unwrap();
        for a in 0..2 {
            cx.eq("derivative curve agrees", w[a], d[k][a]);
        }
    }
    let w = m.curve.derivative().evaluate(t).unwrap();
    cx.eqs("first derivative", &[w[0], w[1]], &[d[1][0], d[1][1]]);
}
fn shape<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(3) + 1;
    let m = curve(cx, n);
    cx.holds("pieces", m.curve.piece_count() == n && !m.curve.is_empty());
    let mut total = S::ZERO;
    for i in 0..4 {
        match m.curve.span(i) {
            Some(s) => {
                cx.eq("span", s, m.spans[i]);
                total = total + s;
            }
            None => cx.holds("past the last piece", i >= n),
        }
        for a in 0..3 {
            match m.curve.piece_polynomial(i, a) {
                Some(p) => cx.eqs("piece", p.coefficients(), &m.c[i][a]),
                None => cx.holds("no such piece or axis", i >= n || a >= 2),
            }
        }
    }
    cx.eq("total span", m.curve.total_span(), total);
}
fn area<S: Sc>(cx: &mut Cx<S>) {
    let n = if cx.thorough() { cx.choose(3) + 1 } else { 2 };
    let c: Vec<[S; 4]> = (0..n).map(|i| cx.vars::<4>(&format!("p{i}_"))).collect();
    let spans: Vec<S> = (0..n).map(|i| cx.pos(&format!("span{i}"))).collect();
    let pieces: Vec<[Polynomial<4, S>; 1]> = c.iter().map(|p| [Polynomial::new(*p)]).collect();
    let curve = PiecewisePolynomial::<3, 4, 1, S>::try_from_pieces(&pieces, &spans).unwrap();
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    let got = curve.definite_integral(lo, hi).unwrap()[0];
    // area from the very start up to a parameter
    let upto = |cx: &mut Cx<S>, t: S| {
        let mut total = S::ZERO;
        let mut start = S::ZERO;
        for i in 0..n {
            let u = if cx.ask(le(t, start)) {
                S::ZERO
            } else if cx.ask(lt(t, start + spans[i])) {
                (t - start) / spans[i]
            } else {
                S::ONE
            };
            let mut q = u;
            for k in 0..4 {
                total = total + c[i][k] * q * S::rat(1, k as i64 + 1) * spans[i];
                q = q * u;
            }
            start = start + spans[i];
        }
        total
    };
    let (a, b) = (upto(cx, lo), upto(cx, hi));
    cx.eq("area between, trimmed to the curve", got, b - a);
    let back = curve.definite_integral(hi, lo).unwrap()[0];
    cx.eq("bounds the wrong way round", back, -got);
}
fn refuse<S: Sc>(cx: &mut Cx<S>) {
    let p = [Polynomial::<4, S>::zeros(); 2];
    let np = cx.choose(5);
    let ns = cx.choose(5);
    let spans: Vec<S> = (0..ns).map(|i| if i < 2 { cx.any(&format!("s{i}")) } else { S::ONE }).collect();
    let want = if np == 0 || ns == 0 {
        Some(E::Empty)
    } else if np != ns || np > 3 {
        Some(E::CapacityExceeded)
    } else {
        let mut bad = false;
        for s in &spans {
            if !s.is_finite() || cx.ask(le(*s, S::ZERO)) {
                bad = true;
                break;
            }
        }
        if bad { Some(E::SpanNotPositive) } else { None }
    };
    let g = Curve::try_from_pieces(&vec![p; np], &spans);
    cx.holds("errors", g.err() == want);
}

type Term<S> = MultivariateTerm<2, S>;
const SHAPES: [[[u32; 2]; 3]; 4] = [[[2, 1], [0, 3], [0, 0]], [[1, 1], [1, 1], [2, 0]], [[3, 0], [0, 2], [3, 0]], [[0, 1], [1, 0], [0, 1]]];
fn poly3<S: Sc>(cx: &mut Cx<S>, n: &str) -> (MultivariatePolynomial<2, 3, S>, [S; 3], [[u32; 2]; 3]) {
    let e = SHAPES[cx.choose(4)];
    let c = cx.vars::<3>(n);
    let t: Vec<Term<S>> = (0..3).map(|i| Term::new(c[i], e[i])).collect();
    (MultivariatePolynomial::try_from_terms(&t).unwrap(), c, e)
}
fn mono<S: Sc>(v: [S; 2], e: [u32; 2]) -> S {
    let mut t = S::ONE;
    for k in 0..2 {
        for _ in 0..e[k] {
            t = t * v[k];
        }
    }
    t
}
fn value<S: Sc>(c: &[S; 3], e: &[[u32; 2]; 3], v: [S; 2]) -> S {
    (0..3).fold(S::ZERO, |t, i| t + c[i] * mono(v, e[i]))
}
fn slope<S: Sc>(c: &[S; 3], e: &[[u32; 2]; 3], v: [S; 2], k: usize) -> S {
    let mut t = S::ZERO;
    for i in 0..3 {
        if e[i][k] > 0 {
            let mut d = e[i];
            d[k] -= 1;
            t = t + c[i] * S::c(e[i][k] as f64) * mono(v, d);
        }
    }
    t
}
fn several<S: Sc>(cx: &mut Cx<S>) {
    let (p, c, e) = poly3(cx, "c");
    let v = cx.vars::<2>("v");
    cx.eq("value", p.evaluate(&v), value(&c, &e, v));
    let g = p.gradient_at(&v);
    for k in 0..2 {
        cx.eq("gradient", g[k], slope(&c, &e, v, k));
        cx.eq("partial", p.partial_derivative(k).unwrap().evaluate(&v), slope(&c, &e, v, k));
        let a = p.partial_antiderivative(k).unwrap();
        cx.eq("antiderivative differentiates back", a.partial_derivative(k).unwrap().evaluate(&v), value(&c, &e, v));
        let mut at0 = v;
        at0[k] = S::ZERO;
        cx.eq("no constant added", a.evaluate(&at0), S::ZERO);
        let w = cx.var(&format!("w{k}"));
        let mut vw = v;
        vw[k] = w;
        let s = p.substitute(k, w).unwrap();
        cx.eq("substituted", s.evaluate(&v), value(&c, &e, vw));
        cx.holds("fixed variable is gone", s.degree_in(k).is_none_or(|d| d == 0) && s.len() <= 3);
    }
    cx.holds(
        "no such variable",
        p.partial_derivative(2).err() == Some(E::VariableOutOfRange)
            && p.partial_antiderivative(2).err() == Some(E::VariableOutOfRange)
            && p.substitute(2, S::ONE).err() == Some(E::VariableOutOfRange)
            && p.degree_in(2).is_none(),
    );
    cx.holds("total degree", p.total_degree() == e.iter().map(|d| d[0] + d[1]).max());
    for k in 0..2 {
        cx.holds("degree in one variable", p.degree_in(k) == e.iter().map(|d| d[k]).max());
    }
}
fn combine<S: Sc>(cx: &mut Cx<S>) {
    let (p, c, e) = poly3(cx, "c");
    let (q, d, f) = poly3(cx, "d");
    let v = cx.vars::<2>("v");
    let s = p.add_into::<3, 6>(&q).unwrap();
    cx.eq("sum", s.evaluate(&v), value(&c, &e, v) + value(&d, &f, v));
    let m = p.multiply_into::<3, 9>(&q).unwrap();
    cx.eq("product", m.evaluate(&v), value(&c, &e, v) * value(&d, &f, v));
    for r in [s.terms(), m.terms()] {
        for i in 0..r.len() {
            for j in 0..i {
                cx.holds("like terms merged", r[i].exponents() != r[j].exponents());
            }
            cx.check("no cancelled term kept", ne(r[i].coefficient(), S::ZERO));
        }
    }
    cx.holds("sum does not fit", p.add_into::<3, 5>(&q).err() == Some(E::CapacityExceeded));
    cx.holds("product does not fit", p.multiply_into::<3, 8>(&q).err() == Some(E::CapacityExceeded));
}
fn collect<S: Sc>(cx: &mut Cx<S>) {
    let (mut p, c, e) = poly3(cx, "c");
    let v = cx.vars::<2>("v");
    p.collect_like_terms();
    cx.eq("same value", p.evaluate(&v), value(&c, &e, v));
    let r = p.terms();
    for i in 0..r.len() {
        for j in 0..i {
            cx.holds("like terms merged", r[i].exponents() != r[j].exponents());
        }
        cx.check("no cancelled term kept", ne(r[i].coefficient(), S::ZERO));
    }
    cx.holds("length", p.len() == r.len() && p.is_empty() == r.is_empty());
    cx.holds("degree of nothing", !p.is_empty() || (p.total_degree().is_none() && p.degree_in(0).is_none()));
}
fn limits<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.any("a");
    let t = Term::new(a, [1, 2]);
    let want = if a.is_finite() { None } else { Some(E::NonFinite) };
    let one = Term::new(S::ONE, [0, 0]);
    let mut p = MultivariatePolynomial::<2, 2, S>::new();
    cx.holds("empty", p.is_empty() && p.is_finite());
    cx.holds("push", p.push(t).err() == want);
    cx.holds("terms", MultivariatePolynomial::<2, 3, S>::try_from_terms(&[one, t]).err() == want);
    cx.holds("array", MultivariatePolynomial::<2, 2, S>::try_from_array([one, t]).err() == want);
    if want.is_none() {
        let v = cx.vars::<2>("v");
        cx.eq("array value", MultivariatePolynomial::<2, 2, S>::try_from_array([one, t]).unwrap().evaluate(&v), S::ONE + a * v[0] * v[1] * v[1]);
        cx.holds("second", p.push(one).is_ok() && p.len() == 2);
        cx.holds("full", p.push(one).err() == Some(E::CapacityExceeded) && p.len() == 2);
        cx.holds("too many", MultivariatePolynomial::<2, 1, S>::try_from_terms(&[one, t]).err() == Some(E::CapacityExceeded));
        let high = MultivariatePolynomial::<2, 1, S>::try_from_terms(&[Term::new(a, [u32::MAX, 1])]).unwrap();
        cx.holds("power too high", high.partial_antiderivative(0).err() == Some(E::DegreeOverflow));
        cx.holds("product too high", high.multiply_into::<2, 4>(&p).err() == Some(E::DegreeOverflow));
        cx.holds("saturates", high.total_degree() == Some(u32::MAX));
    }
}
fn crossing<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.vars::<4>("c");
    let x = cx.var("x");
    let d = Polynomial::new(c);
    let m = MultivariatePolynomial::<1, 4, S>::from_univariate(&d).unwrap();
    cx.eq("same value", m.evaluate(&[x]), at(&c, x));
    let back = m.to_univariate::<4>().unwrap();
    cx.eqs("round trip", back.coefficients(), &c);
    let small = m.to_univariate::<3>();
    match small {
        Ok(p) => {
            cx.eq("cubic term absent", c[3], S::ZERO);
            cx.eq("value", p.evaluate(x), at(&c, x));
        }
        Err(e) => {
            cx.holds("too high", e == E::DegreeOverflow);
            cx.check("cubic term present", ne(c[3], S::ZERO));
        }
    }
    let mut nonzero = 0;
    for v in &c {
        if cx.ask(ne(*v, S::ZERO)) {
            nonzero += 1;
        }
    }
    cx.holds("one term per nonzero coefficient", m.len() == nonzero);
    let r = MultivariatePolynomial::<1, 2, S>::from_univariate(&d);
    cx.holds("room", if nonzero > 2 { r.err() == Some(E::CapacityExceeded) } else { r.is_ok() });
    // repeated powers add up on the way across
    let t = [MultivariateTerm::new(c[0], [1]), MultivariateTerm::new(c[1], [1]), MultivariateTerm::new(c[2], [0])];
    let q = MultivariatePolynomial::<1, 3, S>::try_from_array(t).unwrap().to_univariate::<2>().unwrap();
    cx.eqs("repeated powers", q.coefficients(), &[c[2], c[0] + c[1]]);
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C27", evaluate, "PiecewisePolynomial::{locate,evaluate,evaluate_with_derivatives,nth_derivative,derivative}; 1-3 cubic pieces in 2 axes, arbitrary spans and parameter"),
        h!("C27", shape, "PiecewisePolynomial::{piece_count,span,piece_polynomial,total_span}; 1-3 pieces"),
        h!("C27", area, "PiecewisePolynomial::definite_integral; 2 cubic pieces (thorough: 1-3), arbitrary bounds on either side"),
        h!("C27", refuse, "PiecewisePolynomial::try_from_pieces; 0-4 pieces and spans, spans finite or not"),
        h!("C27", several, "MultivariatePolynomial::{evaluate,gradient_at,partial_derivative,partial_antiderivative,substitute,total_degree,degree_in}; four term shapes in two variables"),
        h!("C27", combine, "MultivariatePolynomial::{add_into,multiply_into,collect_like_terms}; every pair of four shapes"),
        h!("C27", collect, "MultivariatePolynomial::collect_like_terms; four shapes, cancelling or not"),
        h!("C27", limits, "MultivariatePolynomial capacity, power and finiteness errors"),
        h!("C27", crossing, "MultivariatePolynomial::{to_univariate,from_univariate}; every zero pattern of 4 coefficients"),
    ]
}
