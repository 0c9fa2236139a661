//! C26: real roots.
use crate::algebra::at;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::PolynomialError as E;
use multicalc::polynomial::*;

/// coefficients of lead * prod (x - r)
fn build<const N: usize, S: Sc>(lead: S, roots: &[S]) -> [S; N] {
    let mut c = [S::ZERO; N];
    c[0] = lead;
    for (n, r) in roots.iter().enumerate() {
        for k in (0..=n + 1).rev() {
            c[k] = (if k > 0 { c[k - 1] } else { S::ZERO }) - *r * c[k];
        }
    }
    c
}
fn ordered<S: Sc>(cx: &mut Cx<S>, r: &[S]) {
    for i in 1..r.len() {
        cx.check("increasing order", le(r[i - 1], r[i]));
    }
}
/// the reported roots with the leading coefficient rebuild the polynomial: every root, with its multiplicity
fn complete<S: Sc>(cx: &mut Cx<S>, c: &[S], r: &[S]) {
    let x = cx.var("x");
    let mut t = *c.last().unwrap();
    for v in r {
        t = t * (x - *v);
    }
    cx.eq("lead * prod (x - root) is the polynomial", t, at(c, x));
}
fn linear<S: Sc>(cx: &mut Cx<S>) {
    let c = [cx.any("c0"), cx.any("c1")];
    let g = Polynomial::new(c).real_roots();
    if c.iter().any(|v| !v.is_finite()) {
        cx.holds("non-finite", g.err() == Some(E::NonFinite));
    } else if cx.ask(eq(c[1], S::ZERO)) {
        cx.holds("no slope", g.err() == Some(E::LeadingCoefficientZero));
    } else {
        let g = g.unwrap();
        cx.holds("one root", g.len() == 1 && !g.is_empty());
        cx.eq("root", at(&c, g.as_slice()[0]), S::ZERO);
    }
}
fn quadratic<S: Sc>(cx: &mut Cx<S>) {
    let c = cx.vars::<3>("c");
    let g = Polynomial::new(c).real_roots();
    if cx.ask(eq(c[2], S::ZERO)) {
        cx.holds("no square", g.err() == Some(E::LeadingCoefficientZero));
        return;
    }
    let g = g.unwrap();
    if cx.ask(lt(c[1] * c[1], S::c(4.0) * c[0] * c[2])) {
        cx.holds("none", g.is_empty() && g.as_slice().is_empty());
        return;
    }
    cx.holds("two", g.len() == 2);
    let r = g.as_slice();
    ordered(cx, r);
    cx.eq("sum", c[2] * (r[0] + r[1]), -c[1]);
    cx.eq("product", c[2] * r[0] * r[1], c[0]);
}
fn quadratic_roots<S: Sc>(cx: &mut Cx<S>) {
    let (a, r, s) = (cx.nonzero("a"), cx.var("r"), cx.var("s"));
    cx.assume(le(r, s));
    let g = Polynomial::new(build::<3, S>(a, &[r, s])).real_roots().unwrap();
    cx.holds("two", g.len() == 2);
    cx.eqs("the roots it was built from", g.as_slice(), &[r, s]);
}
fn refuse<S: Sc>(cx: &mut Cx<S>) {
    let z = [S::ONE; 5];
    let bad = cx.any("bad");
    let i = cx.choose(5);
    let mut c = z;
    c[i] = bad;
    let want = |top: bool, cx: &mut Cx<S>| {
        if !bad.is_finite() {
            Some(E::NonFinite)
        } else if top && cx.ask(eq(bad, S::ZERO)) {
            Some(E::LeadingCoefficientZero)
        } else {
            None
        }
    };
    if i < 3 {
        let w = want(i == 2, cx);
        let g = Polynomial::new([c[0], c[1], c[2]]).real_roots();
        cx.holds("quadratic", g.err() == w);
    }
    if bad.is_finite() && !(i >= 3 && cx.ask(eq(bad, S::ZERO))) {
        return;
    }
    if i < 4 {
        let w = want(i == 3, cx);
        cx.holds("cubic", Polynomial::new([c[0], c[1], c[2], c[3]]).real_roots().err() == w);
    }
    if i != 3 || !bad.is_finite() {
        let w = want(i == 4, cx);
        cx.holds("quartic", Polynomial::new(c).real_roots().err() == w);
    }
    if i < 3 {
        cx.holds("bound", Polynomial::new(c).cauchy_root_bound().err() == Some(E::NonFinite));
        cx.holds("count", Polynomial::new(c).count_real_roots(S::ZERO, S::ONE).err() == Some(E::NonFinite));
        cx.holds("search", Polynomial::new(c).real_roots_in(S::ZERO, S::ONE, S::c(0.1), 9).err() == Some(E::NonFinite));
        let n = Polynomial::<4, S>::zeros();
        cx.holds("zero bound", n.cauchy_root_bound().err() == Some(E::LeadingCoefficientZero));
        cx.holds("zero count", n.count_real_roots(S::ZERO, S::ONE).err() == Some(E::LeadingCoefficientZero));
        cx.holds("zero search", n.real_roots_in(S::ZERO, S::ONE, S::c(0.1), 9).err() == Some(E::LeadingCoefficientZero));
    }
}
/// a ((x - s)^3 + p (x - s) + q)
fn slid3<S: Sc>(a: S, s: S, p: S, q: S) -> [S; 4] {
    let c0 = q - p * s - s * s * s;
    [a * c0, a * (p + S::THREE * s * s), -(a * S::THREE * s), a]
}
fn cubic_three<S: Sc>(cx: &mut Cx<S>) {
    // every cubic whose discriminant is >= 0 and which is not a pure cube, up to choice of (a, s, m, w)
    let (a, s) = (cx.nonzero("a"), cx.var("s"));
    let m = cx.pos("m");
    let w = cx.var("w");
    cx.assume(and(vec![le(S::c(-1.0), w), le(w, S::ONE)]));
    let c = slid3(a, s, -(S::THREE * m * m), -(S::TWO * m * m * m * w));
    let g = Polynomial::new(c).real_roots().unwrap();
    cx.holds("three", g.len() == 3);
    let r = g.as_slice();
    ordered(cx, r);
    complete(cx, &c, r);
}
fn cubic_one<S: Sc>(cx: &mut Cx<S>) {
    // every cubic with one real and two complex roots: x = s + u + v, u and v distinct and nonzero
    let (a, s, u, v) = (cx.nonzero("a"), cx.var("s"), cx.nonzero("u"), cx.nonzero("v"));
    cx.assume(ne(u, v));
    let c = slid3(a, s, -(S::THREE * u * v), -(u * u * u + v * v * v));
    let g = Polynomial::new(c).real_roots().unwrap();
    cx.holds("one", g.len() == 1);
    cx.eq("root", g.as_slice()[0], s + u + v);
}
fn cubic_pure<S: Sc>(cx: &mut Cx<S>) {
    // no linear term left after sliding: one root, or a root of multiplicity three
    let (a, s, k) = (cx.nonzero("a"), cx.var("s"), cx.var("k"));
    let c = slid3(a, s, S::ZERO, -(k * k * k));
    let g = Polynomial::new(c).real_roots().unwrap();
    if cx.ask(eq(k, S::ZERO)) {
        cx.holds("three", g.len() == 3);
        cx.eqs("triple", g.as_slice(), &[s, s, s]);
    } else {
        cx.holds("one", g.len() == 1);
        cx.eq("root", g.as_slice()[0], s + k);
    }
}
fn cubic_any<S: Sc>(cx: &mut Cx<S>) {
    // unconstrained coefficients: how many roots, and that each is one
    let c = [cx.var("c0"), cx.var("c1"), if cx.thorough() { cx.var("c2") } else { S::ZERO }, S::ONE];
    let g = Polynomial::new(c).real_roots().unwrap();
    let (p, q) = (c[1] - c[2] * c[2] / S::THREE, c[2] * c[2] * c[2] * S::rat(2, 27) - c[2] * c[1] / S::THREE + c[0]);
    let d = -(S::c(4.0) * p * p * p) - S::c(27.0) * q * q;
    let all = cx.ask(or(vec![lt(S::ZERO, d), eq(d, S::ZERO)]));
    cx.holds("count", g.len() == if all { 3 } else { 1 });
    for r in g.as_slice() {
        cx.eq("is a root", at(&c, *r), S::ZERO);
    }
}
/// a (y^4 + p y^2 + q y + t) with y = x - s
fn slid4<S: Sc>(a: S, s: S, p: S, q: S, t: S) -> [S; 5] {
    let s2 = s * s;
    [
        a * (s2 * s2 + p * s2 - q * s + t),
        a * (q - S::TWO * p * s - S::c(4.0) * s2 * s),
        a * (p + S::c(6.0) * s2),
        -(a * S::c(4.0) * s),
        a,
    ]
}
fn quartic_even<S: Sc>(cx: &mut Cx<S>) {
    // biquadratic: y^2 = +-k^2 and +-l^2
    let (a, s) = (cx.nonzero("a"), cx.var("s"));
    let (k, l) = (cx.nonneg("k"), cx.nonneg("l"));
    cx.assume(le(k, l));
    let (sk, sl) = (if cx.choose(2) == 1 { S::ONE } else { -S::ONE }, if cx.choose(2) == 1 { S::ONE } else { -S::ONE });
    let (g1, g2) = (sk * k * k, sl * l * l);
    let c = slid4(a, s, -(g1 + g2), S::ZERO, g1 * g2);
    let g = Polynomial::new(c).real_roots().unwrap();
    let mut want = vec![];
    let kz = cx.ask(eq(k, S::ZERO));
    let lz = cx.ask(eq(l, S::ZERO));
    if kz || sk > S::ZERO {
        want.extend([-k, k]);
    }
    if lz || sl > S::ZERO {
        want.insert(0, -l);
        want.push(l);
    }
    cx.holds("count", g.len() == want.len());
    for (r, w) in g.as_slice().iter().zip(&want) {
        cx.eq("root", *r, s + *w);
    }
}
fn quartic_even_none<S: Sc>(cx: &mut Cx<S>) {
    let (a, s, p, t) = (cx.nonzero("a"), cx.var("s"), cx.var("p"), cx.var("t"));
    cx.assume(lt(p * p, S::c(4.0) * t));
    let g = Polynomial::new(slid4(a, s, p, S::ZERO, t)).real_roots().unwrap();
    cx.holds("none", g.is_empty());
}
/// quartics with fixed differences between their roots, in any place and at any scale
fn quartic_fixed<S: Sc>(cx: &mut Cx<S>) {
    // (y - r1)(y - r2)(y^2 + (r1 + r2) y + g): the last factor real or not
    const SETS: [([f64; 2], f64); 5] = [([-2.0, 4.0], -3.0), ([0.0, 3.0], 2.0), ([-1.0, 3.0], 5.0), ([-2.0, -1.0], 4.0), ([1.0, 5.0], 11.0)];
    let ([r1, r2], g) = SETS[cx.choose(5)];
    let e = r1 + r2;
    let (a, s) = (cx.nonzero("a"), cx.var_open("s", -50.0, 50.0));
    let (f, m) = (r1 * r2, -(r1 + r2));
    let c = slid4(a, s, S::c(f + g + m * e), S::c(m * g + e * f), S::c(f * g));
    let mut want = vec![r1, r2];
    let d = e * e - 4.0 * g;
    if d >= 0.0 {
        want.extend([(-e - d.sqrt()) / 2.0, (-e + d.sqrt()) / 2.0]);
    }
    want.sort_by(f64::total_cmp);
    let r = Polynomial::new(c).real_roots().unwrap();
    cx.holds("count", r.len() == want.len());
    for (x, w) in r.as_slice().iter().zip(&want) {
        cx.near("root", *x - s, S::c(*w), 1e-6);
    }
}
fn bound<S: Sc>(cx: &mut Cx<S>) {
    let n = cx.choose(4) + 1;
    let mut c = [S::ZERO; 5];
    for i in 0..n {
        c[i] = cx.var(&format!("c{i}"));
    }
    c[n] = cx.nonzero("lead");
    let b = Polynomial::new(c).cauchy_root_bound().unwrap();
    // |c_i| <= (b - 1)|lead| for every i, which makes every root smaller than b in size
    let l = c[n].abs();
    for i in 0..n {
        cx.check("every ratio is within the bound", le(c[i].abs(), (b - S::ONE) * l));
    }
    cx.check("and it is the largest one", or((0..n).map(|i| eq(c[i].abs(), (b - S::ONE) * l)).collect()));
    if n <= 2 {
        let x = cx.var("x");
        cx.assume(eq(at(&c, x), S::ZERO));
        cx.check("roots lie inside", lt(x.abs(), b));
    }
}
fn distinct_in<S: Sc>(cx: &mut Cx<S>, roots: &[S], lo: S, hi: S) -> usize {
    let mut n = 0;
    for (i, r) in roots.iter().enumerate() {
        let mut dup = false;
        for q in &roots[..i] {
            if cx.ask(eq(*q, *r)) {
                dup = true;
            }
        }
        if !dup && cx.ask(and(vec![lt(lo, *r), le(*r, hi)])) {
            n += 1;
        }
    }
    n
}
fn count_two<S: Sc>(cx: &mut Cx<S>) {
    let (a, r, s) = (cx.nonzero("a"), cx.var("r"), cx.var("s"));
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    cx.assume(le(lo, hi));
    cx.assume(le(r, s));
    let p = Polynomial::new(build::<4, S>(a, &[r, s]));
    let n = distinct_in(cx, &[r, s], lo, hi);
    cx.holds("roots in (lower, upper], repeats once", p.count_real_roots(lo, hi) == Ok(n));
}
fn count_patterns<S: Sc>(cx: &mut Cx<S>) {
    // fixed roots (simple, double, triple, with and without a complex pair), arbitrary range
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    cx.assume(le(lo, hi));
    let pats: [&[f64]; 6] = [&[-1.0, 0.0, 2.0], &[1.0, 1.0, 3.0], &[2.0, 2.0, 2.0], &[-1.0, -1.0, 2.0, 2.0], &[0.5], &[-2.0, -1.0, 1.0, 3.0]];
    let k = cx.choose(pats.len() as u32);
    let roots: Vec<S> = pats[k].iter().map(|v| S::c(*v)).collect();
    let lead = if !cx.thorough() || cx.choose(2) == 1 { S::c(-2.0) } else { S::ONE };
    let mut c = build::<6, S>(lead, &roots);
    if roots.len() <= 3 && cx.choose(2) == 1 {
        // times x^2 + x + 1
        let mut d = [S::ZERO; 6];
        for i in 0..4 {
            for j in 0..3 {
                d[i + j] = d[i + j] + c[i];
            }
        }
        c = d;
    }
    let n = distinct_in(cx, &roots, lo, hi);
    cx.holds("roots in (lower, upper], repeats once", Polynomial::new(c).count_real_roots(lo, hi) == Ok(n));
}
fn count_three<S: Sc>(cx: &mut Cx<S>) {
    let r = [cx.var("r"), S::ZERO, S::ONE];
    let (lo, hi) = if cx.thorough() { (cx.var("lo"), cx.var("hi")) } else { [(S::c(-1.0), S::c(0.5)), (S::ZERO, S::ONE), (S::c(-3.0), S::c(3.0))][cx.choose(3)] };
    cx.assume(le(lo, hi));
    let p = Polynomial::new(build::<4, S>(S::ONE, &r));
    let n = distinct_in(cx, &r, lo, hi);
    cx.holds("roots in (lower, upper], repeats once", p.count_real_roots(lo, hi) == Ok(n));
}
fn search<S: Sc>(cx: &mut Cx<S>) {
    // one root moves, the others are fixed
    let r = cx.var("r");
    cx.assume(and(vec![lt(S::c(-1.5), r), lt(r, S::c(3.0))]));
    let tol = S::c(0.5);
    let pats: [&[f64]; 3] = [&[], &[1.0], &[-3.0, 0.0]];
    let k = cx.choose(3);
    let mut roots: Vec<S> = pats[k].iter().map(|v| S::c(*v)).collect();
    for q in &roots {
        // near-coincident roots take arbitrarily many halvings to separate
        let d = r - *q;
        cx.assume(or(vec![eq(d, S::ZERO), lt(S::c(0.3), d), lt(d, S::c(-0.3))]));
    }
    roots.push(r);
    let p = Polynomial::new(build::<4, S>(S::ONE, &roots));
    let (lo, hi) = (S::c(-1.0), S::c(2.0));
    let n = distinct_in(cx, &roots, lo, hi);
    let g = p.real_roots_in(lo, hi, tol, 60).unwrap();
    cx.holds("as many as there are", g.len() == n);
    ordered(cx, g.as_slice());
    for q in &roots {
        if cx.ask(and(vec![lt(lo, *q), le(*q, hi)])) {
            cx.check("within the tolerance", or(g.as_slice().iter().map(|v| near(*v, *q, 0.5)).collect()));
        }
    }
}
fn search_budget<S: Sc>(cx: &mut Cx<S>) {
    let r = cx.var("r");
    cx.assume(and(vec![lt(S::ZERO, r), le(r, S::c(8.0))]));
    let p = Polynomial::new([-r, S::ONE]);
    let cap = cx.choose(5);
    // three halvings bring 8 down to 1
    match p.real_roots_in(S::ZERO, S::c(8.0), S::ONE, cap) {
        Ok(g) => {
            cx.holds("enough", cap >= 3 && g.len() == 1);
            cx.near("close", g.as_slice()[0], r, 0.5 + 1e-12);
        }
        Err(e) => cx.holds("cap reported", cap < 3 && e == E::DidNotConverge { steps: cap }),
    }
}
fn search_refuse<S: Sc>(cx: &mut Cx<S>) {
    let (lo, hi, t) = (cx.any("lo"), cx.any("hi"), cx.any("t"));
    let fin = lo.is_finite() && hi.is_finite() && t.is_finite();
    let want = if !fin {
        Some(E::NonFinite)
    } else if cx.ask(le(t, S::ZERO)) {
        Some(E::ToleranceNotPositive)
    } else if cx.ask(lt(hi, lo)) {
        Some(E::RangeReversed)
    } else {
        None
    };
    // no real roots, so nothing is ever halved
    let g = Polynomial::new([S::ONE, S::ZERO, S::ONE]).real_roots_in(lo, hi, t, 200);
    cx.holds("errors", g.err() == want);
    if want.is_none() {
        cx.holds("none", g.unwrap().is_empty());
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C26", linear, "Polynomial<2>::real_roots; any coefficients, finite or not"),
        h!("C26", quadratic, "Polynomial<3>::real_roots; arbitrary coefficients"),
        h!("C26", quadratic_roots, "Polynomial<3>::real_roots; built from arbitrary roots", |x| { x.cfg.abs_fork = true; }),
        h!("C26", refuse, "real_roots, cauchy_root_bound, count_real_roots, real_roots_in: refused coefficients"),
        h!("C26", cubic_three, "Polynomial<4>::real_roots; every cubic with three real roots, repeats included"),
        h!("C26", cubic_one, "Polynomial<4>::real_roots; every cubic with one real root", |x| { x.cfg.abs_fork = true; }),
        h!("C26", cubic_pure, "Polynomial<4>::real_roots; shifted pure cubes", |x| { x.cfg.abs_fork = true; }),
        h!("C26", cubic_any, "Polynomial<4>::real_roots; x^3 + px + q for arbitrary p, q (thorough: with a square term)"),
        h!("C26", quartic_even, "Polynomial<5>::real_roots; biquadratics with every sign pattern", |x| { x.cfg.abs_fork = true; }),
        h!("C26", quartic_even_none, "Polynomial<5>::real_roots; biquadratics without real squares"),
        h!("C26", quartic_fixed, "Polynomial<5>::real_roots; five sets of roots, moved and scaled arbitrarily"),
        h!("C26", bound, "Polynomial::cauchy_root_bound; degrees 1-4"),
        h!("C26", count_two, "Polynomial::count_real_roots, root_counting_chain, remainder, sign_changes; two arbitrary roots, arbitrary range"),
        h!("C26", count_patterns, "Polynomial::count_real_roots; six root patterns up to degree 5, arbitrary range"),
        h!("C26", count_three, "Polynomial::count_real_roots; cubic with one arbitrary root, three ranges (thorough: arbitrary range)"),
        h!("C26", search, "Polynomial::real_roots_in; one arbitrary root among 0-2 fixed ones, range (-1,2], tolerance 0.5"),
        h!("C26", search_budget, "Polynomial::real_roots_in; halving caps 0-4"),
        h!("C26", search_refuse, "Polynomial::real_roots_in error reports"),
    ]
}
