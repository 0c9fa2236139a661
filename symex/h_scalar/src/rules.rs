//! C01: the autodiff scalars carry exact derivatives.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::{Dual, HyperDual, Jet, Numeric, Primal};

/// One function of one variable, at any scalar.
fn app<N: Numeric>(k: usize, x: N) -> N {
    match k {
        0 => x.sqrt(),
        1 => x.cbrt(),
        2 => x.sin(),
        3 => x.cos(),
        4 => x.tan(),
        5 => x.exp(),
        6 => x.expm1(),
        7 => x.log(),
        8 => x.ln_1p(),
        9 => x.log2(),
        10 => x.log10(),
        11 => x.atan(),
        12 => x.asin(),
        13 => x.acos(),
        14 => x.sinh(),
        15 => x.cosh(),
        16 => x.tanh(),
        17 => x.recip(),
        18 => x.powi(5),
        19 => x.powi(-3),
        20 => x.powi(0),
        21 => x.abs(),
        22 => x.to_radians(),
        23 => x.to_degrees(),
        24 => x.wrap_to_pi(),
        25 => x.powi(6),
        26 => x.powi(1),
        _ => x.powf(N::from_f64(2.5)),
    }
}
const N_APP: u32 = 28;
/// Restricts x to the open set where the function is smooth; f', f'', f''' there.
fn derivs<S: Sc>(cx: &mut Cx<S>, k: usize) -> (S, [S; 3]) {
    let x = match k {
        0 | 7 | 9 | 10 | 27 => cx.var_hint("x", 0.1, 4.0),
        8 => cx.var_hint("x", -0.9, 4.0),
        12 | 13 => cx.var_hint("x", -0.95, 0.95),
        _ => cx.var("x"),
    };
    match k {
        0 | 7 | 9 | 10 | 27 => cx.assume(lt(S::ZERO, x)),
        1 | 17 | 19 | 21 => cx.assume(ne(x, S::ZERO)),
        4 => cx.assume(ne(x.cos(), S::ZERO)),
        8 => cx.assume(lt(-S::ONE, x)),
        12 | 13 => cx.assume(and(vec![lt(-S::ONE, x), lt(x, S::ONE)])),
        _ => {}
    }
    let (o, t) = (S::ONE, S::TWO);
    let c = |v: f64| S::c(v);
    let d = match k {
        0 => {
            let r = x.sqrt();
            [o / (t * r), -o / (c(4.0) * x * r), c(3.0) / (c(8.0) * x * x * r)]
        }
        1 => {
            let r = x.cbrt();
            [r / (c(3.0) * x), -t * r / (c(9.0) * x * x), c(10.0) * r / (c(27.0) * x * x * x)]
        }
        2 => [x.cos(), -x.sin(), -x.cos()],
        3 => [-x.sin(), -x.cos(), x.sin()],
        4 => {
            let y = x.sin() / x.cos();
            let s = o + y * y;
            [s, t * y * s, t * s * (o + c(3.0) * y * y)]
        }
        5 | 6 => [x.exp(), x.exp(), x.exp()],
        7 => [o / x, -o / (x * x), t / (x * x * x)],
        8 => {
            let y = x + o;
            [o / y, -o / (y * y), t / (y * y * y)]
        }
        9 | 10 => {
            let l = if k == 9 { S::TWO.log() } else { S::TEN.log() };
            [o / x / l, -o / (x * x) / l, t / (x * x * x) / l]
        }
        11 => {
            let q = o + x * x;
            [o / q, -t * x / (q * q), (c(6.0) * x * x - t) / (q * q * q)]
        }
        12 | 13 => {
            let q = o - x * x;
            let r = q.sqrt();
            let s = if k == 12 { o } else { -o };
            [s / r, s * x / (q * r), s * (o + t * x * x) / (q * q * r)]
        }
        14 | 15 => {
            let (e, i) = (x.exp(), o / x.exp());
            let (sh, ch) = ((e - i) / t, (e + i) / t);
            if k == 14 { [ch, sh, ch] } else { [sh, ch, sh] }
        }
        16 => {
            let (e, i) = (x.exp(), o / x.exp());
            let y = (e - i) / (e + i);
            let q = o - y * y;
            [q, -t * y * q, q * (c(6.0) * y * y - t)]
        }
        17 => [-o / (x * x), t / (x * x * x), -c(6.0) / (x * x * x * x)],
        18 => [c(5.0) * x * x * x * x, c(20.0) * x * x * x, c(60.0) * x * x],
        19 => {
            let x2 = x * x;
            [-c(3.0) / (x2 * x2), c(12.0) / (x2 * x2 * x), -c(60.0) / (x2 * x2 * x2)]
        }
        20 => [S::ZERO; 3],
        21 => [if cx.ask(lt(x, S::ZERO)) { -o } else { o }, S::ZERO, S::ZERO],
        22 => [S::PI / c(180.0), S::ZERO, S::ZERO],
        23 => [c(180.0) / S::PI, S::ZERO, S::ZERO],
        24 | 26 => [o, S::ZERO, S::ZERO],
        25 => [c(6.0) * x * x * x * x * x, c(30.0) * x * x * x * x, c(120.0) * x * x * x],
        _ => {
            let p = x.powf(S::c(2.5));
            [c(2.5) * p / x, c(3.75) * p / (x * x), c(1.875) * p / (x * x * x)]
        }
    };
    (x, d)
}
fn dual_functions<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(N_APP);
    let (x, d) = derivs(cx, k);
    let v = cx.var("v");
    let y = app(k, Dual::new(x, v));
    let z = app(k, x);
    cx.eq(&format!("f{k} value"), y.value, z);
    cx.eq(&format!("f{k} derivative"), y.deriv, d[0] * v);
}
fn hyper_functions<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(N_APP);
    let (x, d) = derivs(cx, k);
    let (a, b, c) = (cx.var("a"), cx.var("b"), cx.var("c"));
    let y = app(k, HyperDual::new(x, a, b, c));
    let z = app(k, x);
    cx.eq(&format!("f{k} value"), y.real, z);
    cx.eq(&format!("f{k} direction 1"), y.eps1, d[0] * a);
    cx.eq(&format!("f{k} direction 2"), y.eps2, d[0] * b);
    cx.eq(&format!("f{k} second"), y.eps1eps2, d[0] * c + d[1] * a * b);
}
fn jet_functions<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(N_APP);
    let (x, d) = derivs(cx, k);
    let v: [S; 3] = cx.vars("v");
    let y = app(k, Jet::new([x, v[0], v[1], v[2]]));
    let z = app(k, x);
    cx.eq(&format!("f{k} value"), y.value(), z);
    cx.eq(&format!("f{k} order 1"), y.coefficient(1), d[0] * v[0]);
    cx.eq(&format!("f{k} order 2"), y.coefficient(2), d[0] * v[1] + S::HALF * d[1] * v[0] * v[0]);
    cx.eq(&format!("f{k} order 3"), y.coefficient(3), d[0] * v[2] + d[1] * v[0] * v[1] + d[2] * v[0] * v[0] * v[0] / S::c(6.0));
}
/// Series recurrences up to order 6 satisfy their defining differential equations.
fn jet_high_order<S: Sc>(cx: &mut Cx<S>) {
    const N: usize = 7;
    let x = cx.pos("x");
    let v: [S; 6] = cx.vars("v");
    let a = Jet::<S, N>::new(std::array::from_fn(|i| if i == 0 { x } else { v[i - 1] }));
    let mul = |p: &[S; N], q: &[S; N]| -> [S; N] {
        std::array::from_fn(|k| {
            let mut s = S::ZERO;
            for i in 0..=k {
                s = s + p[i] * q[k - i];
            }
            s
        })
    };
    let der = |p: &[S; N]| -> [S; N] { std::array::from_fn(|k| if k + 1 < N { S::c((k + 1) as f64) * p[k + 1] } else { S::ZERO }) };
    let k = cx.choose(8);
    let ac = a.coeffs;
    match k {
        0 => {
            let r = a.sqrt().coeffs;
            cx.eqs("sqrt squared", &mul(&r, &r), &ac);
        }
        1 => {
            let r = a.cbrt().coeffs;
            cx.eqs("cbrt cubed", &mul(&mul(&r, &r), &r), &ac);
        }
        2 => {
            let r = a.exp().coeffs;
            cx.eqs("exp' = exp u'", &der(&r)[..6], &mul(&r, &der(&ac))[..6]);
            let m = a.expm1().coeffs;
            cx.eqs("expm1", &m[1..], &r[1..]);
        }
        3 => {
            let r = a.log().coeffs;
            cx.eqs("log' u = u'", &mul(&der(&r), &ac)[..6], &der(&ac)[..6]);
        }
        4 => {
            let (s, c) = (a.sin().coeffs, a.cos().coeffs);
            cx.eqs("sin' = cos u'", &der(&s)[..6], &mul(&c, &der(&ac))[..6]);
            let n: [S; N] = der(&c).map(|v| -v);
            cx.eqs("-cos' = sin u'", &n[..6], &mul(&s, &der(&ac))[..6]);
        }
        5 => {
            let b: [S; N] = cx.vars("b");
            cx.assume(ne(b[0], S::ZERO));
            let q = (a / Jet::new(b)).coeffs;
            cx.eqs("quotient times divisor", &mul(&q, &b), &ac);
            cx.eqs("product", &(a * Jet::new(b)).coeffs, &mul(&ac, &b));
        }
        6 => {
            let r = a.ln_1p().coeffs;
            let mut u = ac;
            u[0] = u[0] + S::ONE;
            cx.eqs("ln_1p' (1+u) = u'", &mul(&der(&r), &u)[..6], &der(&ac)[..6]);
        }
        _ => {
            let b: [S; N] = cx.vars("b");
            let r = a.atan2(Jet::new(b)).coeffs;
            // theta' (x^2 + y^2) = x y' - y x'
            let (yy, xx) = (mul(&ac, &ac), mul(&b, &b));
            let w: [S; N] = std::array::from_fn(|i| xx[i] + yy[i]);
            let (p, q) = (mul(&b, &der(&ac)), mul(&ac, &der(&b)));
            let rhs: [S; N] = std::array::from_fn(|i| p[i] - q[i]);
            cx.eqs("atan2", &mul(&der(&r), &w)[..6], &rhs[..6]);
        }
    }
    let f = [1.0, 1.0, 2.0, 6.0, 24.0, 120.0, 720.0];
    for (i, v) in f.iter().enumerate() {
        cx.eq("derivative is k! times the coefficient", a.derivative(i), S::c(*v) * ac[i]);
    }
}
fn arithmetic<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 4] = cx.vars("p");
    let q: [S; 4] = cx.vars("q");
    let k = cx.choose(4);
    if k == 3 {
        cx.assume(ne(q[0], S::ZERO));
    }
    fn op<N: Numeric>(k: usize, a: N, b: N, assign: bool) -> N {
        let mut r = a;
        match (k, assign) {
            (0, false) => return a + b,
            (1, false) => return a - b,
            (2, false) => return a * b,
            (_, false) => return a / b,
            (0, _) => r += b,
            (1, _) => r -= b,
            (2, _) => r *= b,
            _ => r /= b,
        }
        r
    }
    // f(a,b) with its partial derivatives
    let (a, b) = (p[0], q[0]);
    let (v, fa, fb, faa, fab, fbb) = match k {
        0 => (a + b, S::ONE, S::ONE, S::ZERO, S::ZERO, S::ZERO),
        1 => (a - b, S::ONE, -S::ONE, S::ZERO, S::ZERO, S::ZERO),
        2 => (a * b, b, a, S::ZERO, S::ONE, S::ZERO),
        _ => (a / b, S::ONE / b, -a / (b * b), S::ZERO, -S::ONE / (b * b), S::TWO * a / (b * b * b)),
    };
    for assign in [false, true] {
        let d = op(k, Dual::new(p[0], p[1]), Dual::new(q[0], q[1]), assign);
        cx.eq("dual value", d.value, v);
        cx.eq("dual derivative", d.deriv, fa * p[1] + fb * q[1]);
        let h = op(k, HyperDual::new(p[0], p[1], p[2], p[3]), HyperDual::new(q[0], q[1], q[2], q[3]), assign);
        cx.eq("hyper value", h.real, v);
        cx.eq("hyper direction 1", h.eps1, fa * p[1] + fb * q[1]);
        cx.eq("hyper direction 2", h.eps2, fa * p[2] + fb * q[2]);
        cx.eq("hyper second", h.eps1eps2, fa * p[3] + fb * q[3] + faa * p[1] * p[2] + fab * (p[1] * q[2] + p[2] * q[1]) + fbb * q[1] * q[2]);
        let j = op(k, Jet::new([p[0], p[1], p[2]]), Jet::new([q[0], q[1], q[2]]), assign);
        cx.eq("jet value", j.coefficient(0), v);
        cx.eq("jet order 1", j.coefficient(1), fa * p[1] + fb * q[1]);
        cx.eq("jet order 2", j.coefficient(2), fa * p[2] + fb * q[2] + S::HALF * (faa * p[1] * p[1] + S::TWO * fab * p[1] * q[1] + fbb * q[1] * q[1]));
    }
    let (d, h, j) = (-Dual::new(p[0], p[1]), -HyperDual::new(p[0], p[1], p[2], p[3]), -Jet::new(p));
    cx.eqs("negation", &[d.value, d.deriv, h.real, h.eps1, h.eps2, h.eps1eps2], &[-p[0], -p[1], -p[0], -p[1], -p[2], -p[3]]);
    cx.eqs("jet negation", &j.coeffs, &p.map(|v| -v));
}
/// Two-argument functions: atan2, hypot, powf, mul_add, copysign, max, min.
fn two_arguments<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 4] = cx.vars("p");
    let q: [S; 4] = cx.vars("q");
    let k = cx.choose(7);
    fn op<N: Numeric>(k: usize, a: N, b: N) -> N {
        match k {
            0 => a.atan2(b),
            1 => a.hypot(b),
            2 => a.powf(b),
            3 => a.mul_add(b, b),
            4 => a.copysign(b),
            5 => a.max(b),
            _ => a.min(b),
        }
    }
    let (a, b) = (p[0], q[0]);
    let (o, t, z) = (S::ONE, S::TWO, S::ZERO);
    let (v, fa, fb, faa, fab, fbb) = match k {
        0 => {
            cx.assume(and(vec![ne(a, z), ne(b, z)]));
            let r = a * a + b * b;
            let r2 = r * r;
            (a.atan2(b), b / r, -a / r, -t * a * b / r2, (a * a - b * b) / r2, t * a * b / r2)
        }
        1 => {
            cx.assume(and(vec![ne(a, z), ne(b, z)]));
            let s = a * a + b * b;
            let r = s.sqrt();
            (r, a / r, b / r, b * b / (s * r), -a * b / (s * r), a * a / (s * r))
        }
        2 => {
            cx.assume(lt(z, a));
            let f = a.powf(b);
            let l = a.log();
            (f, b * f / a, f * l, b * (b - o) * f / (a * a), f / a + b * f * l / a, f * l * l)
        }
        3 => (a * b + b, b, a + o, z, o, z),
        4 => {
            cx.assume(and(vec![ne(a, z), ne(b, z)]));
            let s = if cx.ask(lt(a * b, z)) { -o } else { o };
            (s * a, s, z, z, z, z)
        }
        _ => {
            cx.assume(ne(a, b));
            let first = cx.ask(lt(b, a)) == (k == 5);
            if first { (a, o, z, z, z, z) } else { (b, z, o, z, z, z) }
        }
    };
    let d = op(k, Dual::new(p[0], p[1]), Dual::new(q[0], q[1]));
    cx.eq(&format!("g{k} dual value"), d.value, v);
    cx.eq(&format!("g{k} dual derivative"), d.deriv, fa * p[1] + fb * q[1]);
    let h = op(k, HyperDual::new(p[0], p[1], p[2], p[3]), HyperDual::new(q[0], q[1], q[2], q[3]));
    cx.eq(&format!("g{k} hyper value"), h.real, v);
    cx.eq(&format!("g{k} hyper direction 1"), h.eps1, fa * p[1] + fb * q[1]);
    cx.eq(&format!("g{k} hyper direction 2"), h.eps2, fa * p[2] + fb * q[2]);
    cx.eq(&format!("g{k} hyper second"), h.eps1eps2, fa * p[3] + fb * q[3] + faa * p[1] * p[2] + fab * (p[1] * q[2] + p[2] * q[1]) + fbb * q[1] * q[2]);
    let j = op(k, Jet::new([p[0], p[1], p[2]]), Jet::new([q[0], q[1], q[2]]));
    cx.eq(&format!("g{k} jet value"), j.coefficient(0), v);
    cx.eq(&format!("g{k} jet order 1"), j.coefficient(1), fa * p[1] + fb * q[1]);
    cx.eq(&format!("g{k} jet order 2"), j.coefficient(2), fa * p[2] + fb * q[2] + S::HALF * (faa * p[1] * p[1] + t * fab * p[1] * q[1] + fbb * q[1] * q[1]));
}
/// Comparisons, classification, steps and clamps look at the value part only.
fn value_part<S: Sc>(cx: &mut Cx<S>) {
    let p: [S; 4] = cx.vars("p");
    let q: [S; 4] = cx.vars("q");
    fn flags<N: Numeric + Primal>(a: N, b: N) -> [bool; 6] {
        [a == b, a < b, a <= b, a > b, a.is_finite() && !a.is_nan() && !a.is_infinite(), a != b]
    }
    let (lo, hi) = (cx.var("lo"), cx.var("hi"));
    cx.assume(le(lo, hi));
    let (dp, dq) = (Dual::new(p[0], p[1]), Dual::new(q[0], q[1]));
    let (hp, hq) = (HyperDual::new(p[0], p[1], p[2], p[3]), HyperDual::new(q[0], q[1], q[2], q[3]));
    let (jp, jq) = (Jet::new(p), Jet::new(q));
    match cx.choose(3) {
        0 => {
            let e = cx.ask(eq(p[0], q[0]));
            let l = !e && cx.ask(lt(p[0], q[0]));
            let want = [e, l, e || l, !e && !l, true, !e];
            cx.holds("dual comparisons", flags(dp, dq) == want);
            cx.holds("hyper comparisons", flags(hp, hq) == want);
            cx.holds("jet comparisons", flags(jp, jq) == want);
        }
        1 => {
            // strictly outside, inside
            let want = if cx.ask(lt(p[0], lo)) { Some(lo) } else if cx.ask(lt(hi, p[0])) { Some(hi) } else { None };
            let (d, h, j) = (dp.clamp(lo, hi), hp.clamp(lo, hi), jp.clamp(lo, hi));
            match want {
                Some(w) => {
                    cx.eqs("dual clamped", &[d.value, d.deriv], &[w, S::ZERO]);
                    cx.eqs("hyper clamped", &[h.real, h.eps1, h.eps2, h.eps1eps2], &[w, S::ZERO, S::ZERO, S::ZERO]);
                    cx.eqs("jet clamped", &j.coeffs, &[w, S::ZERO, S::ZERO, S::ZERO]);
                }
                None => {
                    cx.eqs("dual kept", &[d.value, d.deriv], &p[..2]);
                    cx.eqs("hyper kept", &[h.real, h.eps1, h.eps2, h.eps1eps2], &p);
                    cx.eqs("jet kept", &j.coeffs, &p);
                }
            }
        }
        _ => {
            let k = cx.choose(5);
            fn step<N: Numeric>(k: usize, x: N) -> N {
                match k {
                    0 => x.floor(),
                    1 => x.ceil(),
                    2 => x.round(),
                    3 => x.trunc(),
                    _ => x.signum(),
                }
            }
            if k == 4 {
                cx.assume(ne(p[0], S::ZERO));
            }
            let w = step(k, p[0]);
            let (d, h, j) = (step(k, dp), step(k, hp), step(k, jp));
            cx.eqs("dual step", &[d.value, d.deriv], &[w, S::ZERO]);
            cx.eqs("hyper step", &[h.real, h.eps1, h.eps2, h.eps1eps2], &[w, S::ZERO, S::ZERO, S::ZERO]);
            cx.eqs("jet step", &j.coeffs, &[w, S::ZERO, S::ZERO, S::ZERO]);
        }
    }
}
fn classify<S: Sc>(cx: &mut Cx<S>) {
    let (x, v) = (cx.any("x"), cx.any("v"));
    fn flags<N: Numeric>(a: N) -> [bool; 3] {
        [a.is_nan(), a.is_finite(), a.is_infinite()]
    }
    let want = flags(x);
    cx.holds("dual", flags(Dual::new(x, v)) == want);
    cx.holds("hyper", flags(HyperDual::new(x, v, v, v)) == want);
    cx.holds("jet", flags(Jet::new([x, v, v])) == want);
    // |x| at zero takes the slope +1
    let d = Dual::new(S::ZERO, S::THREE).abs();
    cx.eqs("dual |0|", &[d.value, d.deriv], &[S::ZERO, S::THREE]);
    let h = HyperDual::new(S::ZERO, S::ONE, S::TWO, S::THREE).abs();
    cx.eqs("hyper |0|", &[h.real, h.eps1, h.eps2, h.eps1eps2], &[S::ZERO, S::ONE, S::TWO, S::THREE]);
    // constants carry no derivative, variables carry one
    let c = S::c(7.0);
    cx.eqs("dual seeds", &[Dual::constant(c).value, Dual::constant(c).deriv, Dual::variable(c).value, Dual::variable(c).deriv, Dual::<S>::PI.value, Dual::<S>::PI.deriv, Dual::<S>::from_f64(2.5).value, Dual::<S>::from_usize(3).deriv],
        &[c, S::ZERO, c, S::ONE, S::PI, S::ZERO, S::c(2.5), S::ZERO]);
    let (k, w) = (HyperDual::constant(c), HyperDual::variable(c));
    cx.eqs("hyper seeds", &[k.real, k.eps1, k.eps2, k.eps1eps2, w.real, w.eps1, w.eps2, w.eps1eps2], &[c, S::ZERO, S::ZERO, S::ZERO, c, S::ONE, S::ONE, S::ZERO]);
    cx.eqs("jet seeds", &[Jet::<S, 3>::constant(c).coeffs, Jet::<S, 3>::variable(c).coeffs].concat(), &[c, S::ZERO, S::ZERO, c, S::ONE, S::ZERO]);
}
/// Nesting: a dual of a dual gives the second derivative, a dual of a hyper-dual the third.
fn nested<S: Sc>(cx: &mut Cx<S>) {
    let k = cx.choose(N_APP);
    let (x, d) = derivs(cx, k);
    let y = app(k, Dual::new(Dual::new(x, S::ONE), Dual::new(S::ONE, S::ZERO)));
    let z = app(k, x);
    cx.eqs(&format!("f{k} dual of dual"), &[y.value.value, y.value.deriv, y.deriv.value, y.deriv.deriv], &[z, d[0], d[0], d[1]]);
    let y = app(k, Dual::new(HyperDual::variable(x), HyperDual::constant(S::ONE)));
    cx.eqs(&format!("f{k} dual of hyper"), &[y.value.eps1, y.value.eps1eps2, y.deriv.real, y.deriv.eps2, y.deriv.eps1eps2], &[d[0], d[1], d[0], d[1], d[2]]);
}
/// The default real-valued operations every scalar inherits.
fn defaults<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.var("a"), cx.var("b"));
    let d = |x: S| Dual::constant(x);
    let w = d(a).wrap_to_pi().value;
    cx.check("wrapped angle in band", and(vec![le(-S::PI, w), le(w, S::PI)]));
    let turns = (a - w) / (S::TWO * S::PI);
    cx.eq("whole turns removed", turns, turns.round());
    let hy = d(a).hypot(d(b)).value;
    cx.eq("hypot squared", hy * hy, a * a + b * b);
    cx.check("hypot nonnegative", le(S::ZERO, hy));
    cx.eq("degrees round trip", d(a).to_radians().to_degrees().value, a);
    cx.eq("half turn", d(S::c(180.0)).to_radians().value, S::PI);
    cx.check("max", and(vec![le(a, d(a).max(d(b)).value), le(b, d(a).max(d(b)).value)]));
    cx.check("min", and(vec![le(d(a).min(d(b)).value, a), le(d(a).min(d(b)).value, b)]));
    cx.eq("max + min", d(a).max(d(b)).value + d(a).min(d(b)).value, a + b);
}
fn safe_division<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.any("a");
    let q = a.safe_div(S::ZERO);
    if a.is_nan() {
        cx.holds("nan", q.is_nan());
    } else if !a.is_finite() || cx.ask(ne(a, S::ZERO)) {
        let neg = cx.ask(lt(a, S::ZERO));
        cx.holds("signed infinity", q.is_infinite() && (q < S::ZERO) == neg);
    } else {
        cx.holds("zero over zero", q.is_nan());
    }
    let b = cx.nonzero("b");
    if a.is_finite() {
        cx.eq("ordinary quotient", a.safe_div(b) * b, a);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C01", arithmetic, "Dual, HyperDual, Jet<3,4>: + - * / and assigning forms, negation; all parts symbolic"),
        h!("C01", dual_functions, "Dual: 28 one-argument functions; value and derivative part symbolic"),
        h!("C01", hyper_functions, "HyperDual: 28 one-argument functions; all four parts symbolic"),
        h!("C01", jet_functions, "Jet<4>: 28 one-argument functions; all coefficients symbolic"),
        h!("C01", jet_high_order, "Jet<7>: sqrt, cbrt, exp, expm1, log, sin, cos, ln_1p, atan2, /, *, derivative()"),
        h!("C01", two_arguments, "atan2, hypot, powf, mul_add, copysign, max, min on Dual, HyperDual, Jet<3>"),
        h!("C01", value_part, "comparison, clamp, floor, ceil, round, trunc, signum on Dual, HyperDual, Jet<4>"),
        h!("C01", classify, "is_nan, is_finite, is_infinite, seeds, |0|"),
        h!("C01", nested, "Dual<Dual>, Dual<HyperDual> through 28 functions"),
        h!("C01", defaults, "wrap_to_pi, hypot, to_degrees, max, min defaults"),
        h!("C01", safe_division, "Numeric::safe_div"),
    ]
}
