//! C06: vector and matrix algebra, matrix exponential, Lyapunov and Riccati equations.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::*;

fn products<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.mat::<3, 2>("a"), cx.mat::<2, 4>("b"));
    let (m, n) = (Matrix::new(a), Matrix::new(b));
    let k = cx.var("k");
    meq(cx, "product", &rows(&(m * n)), &mm(&a, &b));
    meq(cx, "transpose", &rows(&m.transpose()), &tr(&a));
    meq(cx, "product transposed", &rows(&(n.transpose() * m.transpose())), &tr(&mm(&a, &b)));
    let c = cx.mat::<3, 2>("c");
    let l = Matrix::new(c);
    meq(cx, "sum", &rows(&(m + l)), &std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + c[i][j])));
    meq(cx, "difference", &rows(&(m - l)), &std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] - c[i][j])));
    meq(cx, "negation", &rows(&-m), &std::array::from_fn(|i| std::array::from_fn(|j| -a[i][j])));
    meq(cx, "scaled", &rows(&m.scale(k)), &std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] * k)));
    meq(cx, "times a scalar", &rows(&(m * k)), &std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] * k)));
    let (mut p, mut q) = (m, m);
    p += l;
    q -= l;
    meq(cx, "sum in place", &rows(&p), &rows(&(m + l)));
    meq(cx, "difference in place", &rows(&q), &rows(&(m - l)));
    let v: [S; 2] = cx.vars("v");
    veq(cx, "times a vector", m * Vector::new(v), mv(&a, &v));
    cx.assume(ne(k, S::ZERO));
    meq(cx, "over a scalar", &rows(&((m / k) * k)), &a);
    let f: S = a.iter().flatten().fold(S::ZERO, |s, x| s + *x * *x);
    let fr = m.frobenius_norm();
    cx.eq("frobenius norm squared", fr * fr, f);
    cx.check("frobenius norm sign", le(S::ZERO, fr));
    for i in 0..3 {
        veq(cx, "row", m.try_row(i).unwrap(), a[i]);
    }
    for j in 0..2 {
        veq(cx, "column", m.try_column(j).unwrap(), [a[0][j], a[1][j], a[2][j]]);
    }
    cx.holds("no row past the end", m.try_row(3).is_none() && m.try_column(2).is_none() && m.get(3, 0).is_none() && m.get(0, 2).is_none());
    let flat: Vec<S> = a.iter().flatten().copied().collect();
    meq(cx, "from a flat slice", &rows(&Matrix::<3, 2, S>::try_from_row_slice(&flat).unwrap()), &a);
    cx.holds("flat slice of another length", Matrix::<3, 2, S>::try_from_row_slice(&flat[1..]).is_none());
    let mut w = m;
    if let Some(x) = w.get_mut(2, 1) {
        *x = k;
    }
    let mut e = a;
    e[2][1] = k;
    meq(cx, "get_mut", &rows(&w), &e);
}
fn square<S: Sc>(cx: &mut Cx<S>) {
    let (a, b) = (cx.mat::<3, 3>("a"), cx.mat::<3, 3>("b"));
    let (m, n) = (Matrix::new(a), Matrix::new(b));
    cx.eq("trace", m.trace(), a[0][0] + a[1][1] + a[2][2]);
    cx.eq("trace of a product", (m * n).trace(), (n * m).trace());
    cx.eq("determinant of a product", (m * n).determinant(), m.determinant() * n.determinant());
    meq(cx, "identity", &rows(&(m * Matrix::identity())), &a);
    let s = rows(&m.symmetrized());
    for i in 0..3 {
        for j in 0..3 {
            cx.eq("symmetrized", s[i][j], (a[i][j] + a[j][i]) * S::HALF);
        }
    }
    cx.eqs("diagonal", &m.diagonal(), &[a[0][0], a[1][1], a[2][2]]);
    meq(cx, "from_diagonal", &rows(&Matrix::from_diagonal(m.diagonal())), &dg(&m.diagonal()));
    cx.holds("symmetrized is symmetric", m.symmetrized().is_symmetric());
}
fn symmetric<S: Sc>(cx: &mut Cx<S>) {
    let mut a = cx.mat::<3, 3>("a");
    for i in 0..3 {
        for j in 0..3 {
            cx.assume(lt(a[i][j].abs(), S::c(100.0)));
        }
    }
    let d = cx.var_hint("d", -1e-3, 1e-3);
    let (i, j) = [(0, 1), (0, 2), (1, 2)][cx.choose(3)];
    for r in 0..3 {
        for c in r + 1..3 {
            a[r][c] = a[c][r];
        }
    }
    let up = cx.choose(2) == 0;
    let (r, c) = if up { (i, j) } else { (j, i) };
    a[r][c] = a[c][r] + d;
    let m = Matrix::new(a);
    if cx.ask(lt(S::c(1e-6), d.abs())) {
        cx.assume(lt(d.abs(), S::c(10.0)));
        cx.holds("lopsided", !m.is_symmetric());
    } else if cx.ask(lt(d.abs(), S::c(1e-15))) {
        cx.holds("rounding away from symmetric", m.is_symmetric());
    }
}
fn vectors<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, c): ([S; 3], [S; 3], [S; 3]) = (cx.vars("a"), cx.vars("b"), cx.vars("c"));
    let k = cx.var("k");
    let (u, v, w) = (Vector::new(a), Vector::new(b), Vector::new(c));
    let dot = |a: &[S; 3], b: &[S; 3]| a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
    cx.eq("dot", u.dot(v), dot(&a, &b));
    cx.eq("norm squared", u.norm_squared(), dot(&a, &a));
    let n = u.norm();
    cx.eq("norm", n * n, dot(&a, &a));
    cx.check("norm sign", le(S::ZERO, n));
    veq(cx, "sum", u + v, [a[0] + b[0], a[1] + b[1], a[2] + b[2]]);
    veq(cx, "difference", u - v, [a[0] - b[0], a[1] - b[1], a[2] - b[2]]);
    veq(cx, "negation", -u, [-a[0], -a[1], -a[2]]);
    veq(cx, "scaled", u.scale(k), [a[0] * k, a[1] * k, a[2] * k]);
    veq(cx, "times a scalar", u * k, [a[0] * k, a[1] * k, a[2] * k]);
    let (mut p, mut q) = (u, u);
    p += v;
    q -= v;
    veq(cx, "sum in place", p, (u + v).into_array());
    veq(cx, "difference in place", q, (u - v).into_array());
    let x = u.cross(v);
    veq(cx, "cross", x, [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]);
    cx.eq("triple product", u.scalar_triple(v, w), det(&vec![a.to_vec(), b.to_vec(), c.to_vec()]));
    cx.eq("plane cross", Vector::new([a[0], a[1]]).cross(Vector::new([b[0], b[1]])), a[0] * b[1] - a[1] * b[0]);
    veq(cx, "map", u.map(|t| t * t), [a[0] * a[0], a[1] * a[1], a[2] * a[2]]);
    veq(cx, "from a slice", Vector::<3, S>::try_from_slice(&a).unwrap(), a);
    cx.holds("slice of another length", Vector::<3, S>::try_from_slice(&a[..2]).is_none() && Vector::<2, S>::try_from_slice(&a).is_none());
    cx.holds("get past the end", u.get(3).is_none() && u.get(2).is_some());
    if cx.ask(and(vec![eq(a[0], S::ZERO), eq(a[1], S::ZERO), eq(a[2], S::ZERO)])) {
        let mut z = u;
        cx.holds("zero has no direction", u.try_normalized().is_none() && z.try_normalize().is_none());
        veq(cx, "zero left alone", z, a);
    } else if let Some(d) = u.try_normalized() {
        let d = d.into_array();
        cx.eq("unit length", dot(&d, &d), S::ONE);
        cx.check("same direction", lt(S::ZERO, dot(&d, &a)));
        cx.eq("along the vector", d[0] * a[1] - d[1] * a[0], S::ZERO);
        veq(cx, "normalized", u.normalized(), d);
        let (mut y, mut z) = (u, u);
        y.normalize();
        cx.holds("in place", z.try_normalize().is_some());
        veq(cx, "normalize", y, d);
        veq(cx, "try_normalize", z, d);
    } else {
        cx.holds("a direction for a nonzero vector", false);
    }
}
/// Integer matrix of determinant one, and its inverse.
fn uni<S: Sc, const N: usize>() -> (Rows<S, N, N>, Rows<S, N, N>) {
    // lower times upper, both with unit diagonals
    let lo: Rows<S, N, N> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j || i == j + 1 { S::ONE } else { S::ZERO }));
    let up: Rows<S, N, N> = std::array::from_fn(|i| std::array::from_fn(|j| if i == j { S::ONE } else if j > i { S::rat(1, 2) } else { S::ZERO }));
    let t = mm(&lo, &up);
    let ti = rows(&Matrix::new(t).inverse().unwrap());
    (t, ti)
}
fn upper<S: Sc, const N: usize>(cx: &mut Cx<S>, b: f64) -> Rows<S, N, N> {
    let mut a = [[S::ZERO; N]; N];
    for i in 0..N {
        for j in i + 1..N {
            a[i][j] = cx.var_hint(&format!("a{i}{j}"), -b / 3.0, b / 3.0);
            cx.assume(lt(a[i][j].abs(), S::c(b)));
        }
    }
    a
}
fn nil_exp<S: Sc, const N: usize>(a: &Rows<S, N, N>) -> Rows<S, N, N> {
    let mut e = id::<S, N>();
    let mut p = id::<S, N>();
    let mut f = S::ONE;
    for k in 1..N {
        p = mm(&p, a);
        f = f / S::c(k as f64);
        for i in 0..N {
            for j in 0..N {
                e[i][j] = e[i][j] + p[i][j] * f;
            }
        }
    }
    e
}
fn expm_nil<S: Sc>(cx: &mut Cx<S>) {
    let deep = cx.thorough();
    if cx.choose(2) == 0 {
        let a = upper::<S, 2>(cx, 4.0);
        meq(cx, "2x2", &rows(&Matrix::new(a).expm().unwrap()), &nil_exp(&a));
        meq(cx, "2x2 transposed", &rows(&Matrix::new(tr(&a)).expm().unwrap()), &tr(&nil_exp(&a)));
    } else {
        let mut a = upper::<S, 3>(cx, 2.0);
        if !deep {
            a[0][2] = S::rat(1, 3);
        }
        meq(cx, "3x3", &rows(&Matrix::new(a).expm().unwrap()), &nil_exp(&a));
    }
}
fn expm_dense<S: Sc>(cx: &mut Cx<S>) {
    // nilpotent with every entry nonzero: T N T^-1
    let x = cx.var_hint("x", -1.0, 1.0);
    cx.assume(lt(x.abs(), S::c(2.0)));
    let n = [[S::ZERO, x, S::ONE], [S::ZERO, S::ZERO, x], [S::ZERO; 3]];
    let (t, ti) = uni::<S, 3>();
    let a = mm(&mm(&t, &n), &ti);
    meq(cx, "similar", &rows(&Matrix::new(a).expm().unwrap()), &mm(&mm(&t, &nil_exp(&n)), &ti));
}
fn expm_small<S: Sc>(cx: &mut Cx<S>) {
    // no scaling step: the rational approximant itself against the series
    let x = cx.var_hint("x", -0.4, 0.4);
    cx.assume(lt(x.abs(), S::c(0.4999)));
    let mut t = S::ONE;
    let mut e = S::ONE;
    for k in 1..16 {
        t = t * x / S::c(k as f64);
        e = e + t;
    }
    let m = rows(&Matrix::new([[x]]).expm().unwrap());
    cx.near("1x1 against the series", m[0][0], e, 1e-12);
    let d = rows(&Matrix::new([[x, S::ZERO], [S::ZERO, -x]]).expm().unwrap());
    cx.eq("diagonal", d[0][0], m[0][0]);
    cx.eq("inverse", d[1][1] * d[0][0], S::ONE);
    cx.eq("off the diagonal", d[0][1], S::ZERO);
    let r = rows(&Matrix::new([[S::ZERO, -x], [x, S::ZERO]]).expm().unwrap());
    meq(cx, "rotation orthogonal", &mm(&r, &tr(&r)), &id());
    cx.eq("rotation", r[0][0], r[1][1]);
    cx.eq("rotation ", r[0][1], -r[1][0]);
    let (mut c, mut s, mut t) = (S::ONE, S::ZERO, S::ONE);
    for k in 1..16 {
        t = t * x / S::c(k as f64);
        match k % 4 {
            0 => c = c + t,
            1 => s = s + t,
            2 => c = c - t,
            _ => s = s - t,
        }
    }
    cx.near("cosine", r[0][0], c, 1e-12);
    cx.near("sine", r[1][0], s, 1e-12);
}
fn expm_scaled<S: Sc>(cx: &mut Cx<S>) {
    // squaring undoes scaling: e^A = (e^(A/2))^2 once past the threshold
    let x = cx.var_hint("x", -1.9, 1.9);
    cx.assume(and(vec![lt(S::c(0.5), x.abs()), lt(x.abs(), S::c(1.9))]));
    let a = [[x, S::rat(1, 100)], [S::ZERO, x * S::rat(1, 2)]];
    let h = a.map(|r| r.map(|v| v * S::HALF));
    let e = rows(&Matrix::new(h).expm().unwrap());
    meq(cx, "doubling", &rows(&Matrix::new(a).expm().unwrap()), &mm(&e, &e));
    cx.eq("lower entry", rows(&Matrix::new(a).expm().unwrap())[1][0], S::ZERO);
}
fn expm_rejects<S: Sc>(cx: &mut Cx<S>) {
    let mut a = cx.mat::<2, 2>("a");
    for x in a.iter().flatten() {
        cx.assume(lt(x.abs(), S::c(0.2)));
    }
    let k = cx.choose(4) as usize;
    let x = cx.any("x");
    if !cx.ask(Prop::Fin(x)) {
        a[k / 2][k % 2] = x;
        cx.holds("non-finite refused", matches!(Matrix::new(a).expm(), Err(LinalgError::NonFinite)));
    }
}
fn add<S: Sc, const N: usize>(a: &Rows<S, N, N>, b: &Rows<S, N, N>) -> Rows<S, N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| a[i][j] + b[i][j]))
}
fn lyapunov<S: Sc>(cx: &mut Cx<S>) {
    let mut a = upper::<S, 2>(cx, 3.0);
    cx.assume(lt(S::c(0.01), a[0][1]));
    let x = cx.var_in("q", 1.0, 2.0);
    let y = if cx.thorough() { cx.var_in("y", -0.4, 0.4) } else { S::rat(1, 5) };
    let q = [[x, y], [y, S::TWO]];
    if cx.choose(2) == 0 {
        a = tr(&a);
    }
    let solve = |a: &Rows<S, 2, 2>, q: &Rows<S, 2, 2>| solve_discrete_lyapunov(Matrix::new(*a), Matrix::new(*q)).map(|p| rows(&p));
    let Ok(p) = solve(&a, &q) else { return cx.holds("solved", false) };
    meq(cx, "At P A + Q = P", &add(&mm(&mm(&tr(&a), &p), &a), &q), &p);
    meq(cx, "symmetric", &tr(&p), &p);
    // the same in other coordinates
    let (t, ti) = uni::<S, 2>();
    let a2 = mm(&mm(&t, &a), &ti);
    let q2 = mm(&mm(&tr(&ti), &q), &ti);
    let Ok(p2) = solve(&a2, &q2) else { return cx.holds("solved in other coordinates", false) };
    meq(cx, "change of coordinates", &p2, &mm(&mm(&tr(&ti), &p), &ti));
}
fn lyapunov3<S: Sc>(cx: &mut Cx<S>) {
    let a = [[S::ZERO, cx.var_in("a", 0.2, 0.9), S::rat(1, 3)], [S::ZERO, S::ZERO, S::rat(-3, 4)], [S::ZERO; 3]];
    let (t, ti) = uni::<S, 3>();
    let q = [[S::ONE, S::rat(1, 5), S::ZERO], [S::rat(1, 5), S::TWO, -S::ONE], [S::ZERO, -S::ONE, S::c(3.0)]];
    let (a, q) = if cx.choose(2) == 0 { (a, q) } else { (mm(&mm(&t, &a), &ti), mm(&mm(&tr(&ti), &q), &ti)) };
    let Ok(p) = solve_discrete_lyapunov(Matrix::new(a), Matrix::new(q)) else { return cx.holds("solved", false) };
    let p = rows(&p);
    meq(cx, "At P A + Q = P", &add(&mm(&mm(&tr(&a), &p), &a), &q), &p);
    meq(cx, "symmetric", &tr(&p), &p);
}
fn lyapunov_contract<S: Sc>(cx: &mut Cx<S>) {
    // a contraction with any cost: what is left over is negligible
    let a = [[S::rat(1, 2), S::rat(1, 4)], [S::rat(-1, 8), S::rat(1, 4)]];
    let (x, y, z) = (cx.var_in("x", 1.0, 2.0), cx.var_in("y", -0.5, 0.5), cx.var_in("z", 1.0, 2.0));
    let q = [[x, y], [y, z]];
    let p = match solve_discrete_lyapunov(Matrix::new(a), Matrix::new(q)) {
        Ok(p) => rows(&p),
        Err(_) => return cx.holds("solved", false),
    };
    let l = add(&mm(&mm(&tr(&a), &p), &a), &q);
    mnear(cx, "residual", &l, &p, S::c(1e-10));
    cx.check("at least the cost", le(q[0][0], p[0][0]));
}
fn lyapunov_rejects<S: Sc>(cx: &mut Cx<S>) {
    let q = cx.var("q");
    cx.assume(and(vec![lt(S::c(0.01), q), lt(q, S::c(100.0))]));
    match cx.choose(5) {
        0 => cx.holds("marginal", matches!(solve_discrete_lyapunov(Matrix::new([[S::ONE]]), Matrix::new([[q]])), Err(LinalgError::DidNotConverge { .. }))),
        1 => {
            let r = [[S::ZERO, -S::ONE], [S::ONE, S::ZERO]];
            cx.holds("rotation", matches!(solve_discrete_lyapunov(Matrix::new(r), Matrix::new([[q, S::ZERO], [S::ZERO, q]])), Err(LinalgError::DidNotConverge { .. })));
        }
        2 => {
            let r = [[S::ZERO; 2]; 2];
            cx.holds("lopsided", matches!(solve_discrete_lyapunov(Matrix::new(r), Matrix::new([[q, q], [S::ZERO, q]])), Err(LinalgError::NotSymmetric)));
        }
        k => {
            let x = cx.any("x");
            if !cx.ask(Prop::Fin(x)) {
                let (a, c) = if k == 3 { (x, q) } else { (S::HALF, x) };
                cx.holds("non-finite", matches!(solve_discrete_lyapunov(Matrix::new([[a]]), Matrix::new([[c]])), Err(LinalgError::NonFinite)));
            }
        }
    }
}
fn dare<S: Sc, const N: usize, const M: usize>(cx: &mut Cx<S>, l: &str, p: &Rows<S, N, N>, a: &Rows<S, N, N>, b: &Rows<S, N, M>, q: &Rows<S, N, N>, r: &Rows<S, M, M>) {
    // P = AtPA - AtPB (R + BtPB)^-1 BtPA + Q with the inverse cleared for M = 1
    let btp = mm(&tr(b), p);
    let w: Rows<S, M, M> = {
        let x = mm(&btp, b);
        std::array::from_fn(|i| std::array::from_fn(|j| x[i][j] + r[i][j]))
    };
    let g = mm(&btp, a);
    let apa = mm(&mm(&tr(a), p), a);
    assert!(M == 1);
    for i in 0..N {
        for j in 0..N {
            cx.eq(&format!("{l}[{i},{j}]"), (apa[i][j] + q[i][j] - p[i][j]) * w[0][0], g[0][i] * g[0][j]);
        }
    }
}
fn riccati<S: Sc>(cx: &mut Cx<S>) {
    // shift chains settle in finitely many passes, so the answer is exact
    let (a, b, r) = (cx.var_hint("a", 0.5, 1.5), cx.var_hint("b", 0.5, 1.5), cx.var_hint("r", 0.5, 1.5));
    let (q1, q2, q12) = (cx.var_hint("q1", 1.0, 2.0), cx.var_hint("q2", 1.0, 2.0), cx.var_hint("q12", -0.5, 0.5));
    for x in [a, b, r, q1, q2] {
        cx.assume(and(vec![lt(S::c(0.1), x), lt(x, S::c(10.0))]));
    }
    cx.assume(lt(q12.abs(), S::c(0.09)));
    let q = [[q1, q12], [q12, q2]];
    let am = [[S::ZERO, a], [S::ZERO, S::ZERO]];
    let bm = [[b], [S::ZERO]];
    let rm = [[r]];
    let p = match solve_discrete_riccati(Matrix::new(am), Matrix::new(bm), Matrix::new(q), Matrix::new(rm)) {
        Ok(p) => rows(&p),
        Err(_) => return cx.holds("solved", false),
    };
    dare(cx, "equation", &p, &am, &bm, &q, &rm);
    meq(cx, "symmetric", &tr(&p), &p);
    cx.check("at least the cost", and(vec![le(q1, p[0][0]), le(q2, p[1][1])]));
}
fn riccati_dense<S: Sc>(cx: &mut Cx<S>) {
    // the same system in other coordinates, every entry nonzero
    let a = cx.var_in("a", 0.5, 1.5);
    let q1 = cx.var_in("q1", 1.0, 2.0);
    let deep = cx.thorough();
    let r = if deep { cx.var_in("r", 0.5, 1.5) } else { S::rat(3, 4) };
    let (t, ti) = uni::<S, 2>();
    let am = mm(&mm(&t, &[[S::ZERO, a], [S::ZERO, S::ZERO]]), &ti);
    let bm = mm(&t, &[[S::rat(5, 4)], [S::ZERO]]);
    let q = mm(&mm(&tr(&ti), &[[q1, S::rat(1, 10)], [S::rat(1, 10), S::rat(3, 2)]]), &ti);
    let p = match solve_discrete_riccati(Matrix::new(am), Matrix::new(bm), Matrix::new(q), Matrix::new([[r]])) {
        Ok(p) => rows(&p),
        Err(_) => return cx.holds("solved", false),
    };
    dare(cx, "equation", &p, &am, &bm, &q, &[[r]]);
    meq(cx, "symmetric", &tr(&p), &p);
}
fn riccati_chain<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.var_in("a", 0.5, 1.5);
    let r = cx.var_in("r", 0.5, 1.5);
    let am = [[S::ZERO, a, S::rat(1, 3)], [S::ZERO, S::ZERO, S::rat(4, 3)], [S::ZERO; 3]];
    let bm = [[S::ONE], [S::ZERO], [S::ZERO]];
    let q = [[S::ONE, S::rat(1, 5), S::ZERO], [S::rat(1, 5), S::TWO, -S::ONE], [S::ZERO, -S::ONE, S::c(3.0)]];
    let p = match solve_discrete_riccati(Matrix::new(am), Matrix::new(bm), Matrix::new(q), Matrix::new([[r]])) {
        Ok(p) => rows(&p),
        Err(_) => return cx.holds("solved", false),
    };
    dare(cx, "equation", &p, &am, &bm, &q, &[[r]]);
}
fn riccati_rejects<S: Sc>(cx: &mut Cx<S>) {
    let one = Matrix::new([[S::ONE]]);
    let x = cx.any("x");
    if !cx.ask(Prop::Fin(x)) {
        let v: [Matrix<1, 1, S>; 4] = {
            let k = cx.choose(4) as usize;
            std::array::from_fn(|i| if i == k { Matrix::new([[x]]) } else { one })
        };
        return cx.holds("non-finite", matches!(solve_discrete_riccati(v[0], v[1], v[2], v[3]), Err(LinalgError::NonFinite)));
    }
    if cx.ask(le(x, S::ZERO)) {
        cx.holds("effort cost not positive", matches!(solve_discrete_riccati(one, one, one, Matrix::new([[x]])), Err(LinalgError::NotPositiveDefinite)));
    } else {
        // no dynamics: the cost itself
        let y = cx.var("y");
        cx.assume(and(vec![lt(S::ZERO, y), lt(y, S::c(1e3)), lt(x, S::c(1e3)), lt(S::c(1e-3), x)]));
        match solve_discrete_riccati(Matrix::new([[S::ZERO]]), one, Matrix::new([[y]]), Matrix::new([[x]])) {
            Ok(p) => cx.eq("no dynamics", p[(0, 0)], y),
            Err(_) => cx.holds("solved", false),
        }
        let i = Matrix::<2, 2, S>::identity();
        let lop = Matrix::new([[S::ONE, x], [S::ZERO, S::ONE]]);
        cx.holds("lopsided state cost", matches!(solve_discrete_riccati(i, i, lop, i), Err(LinalgError::NotSymmetric)));
        cx.holds("lopsided effort cost", matches!(solve_discrete_riccati(i, i, i, lop), Err(LinalgError::NotSymmetric)));
    }
}
/// The difference is judged against the size of the entries, whatever their sign.
fn symmetric_scale<S: Sc>(cx: &mut Cx<S>) {
    let x = cx.var_hint("x", -100.0, 100.0);
    cx.assume(and(vec![lt(S::c(10.0), x.abs()), lt(x.abs(), S::c(1e6))]));
    let d = cx.var_hint("d", -1e-15, 1e-15);
    cx.assume(lt(d.abs(), S::c(1e-15)));
    let (i, j) = [(0, 1), (1, 0), (2, 0), (1, 2)][cx.choose(4)];
    let mut a = [[S::ONE, S::ZERO, S::ZERO], [S::ZERO, S::ONE, S::ZERO], [S::ZERO, S::ZERO, S::ONE]];
    a[i][j] = x;
    a[j][i] = x + d * x.abs();
    cx.holds("rounding away from symmetric", Matrix::new(a).is_symmetric());
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C06", products, "Matrix + - * / += -=, transpose, scale, frobenius_norm, rows, columns, get; 3x2 and 2x4"),
        h!("C06", square, "trace, determinant, identity, symmetrized, diagonal, is_symmetric; 3x3"),
        h!("C06", symmetric, "is_symmetric; 3x3 with one pair differing"),
        h!("C06", symmetric_scale, "is_symmetric; 3x3, one pair a rounding step apart, any sign and size"),
        h!("C06", vectors, "Vector operations, cross products, normalization; 3 components"),
        h!("C06", expm_nil, "expm; strictly triangular 2x2 and 3x3, up to five squarings", |x| { x.cfg.snap = true; }),
        h!("C06", expm_dense, "expm; dense nilpotent 3x3", |x| { x.cfg.snap = true; }),
        h!("C06", expm_small, "expm; 1x1, diagonal and rotation generators below the scaling threshold", |x| { x.cfg.snap = true; }),
        h!("C06", expm_scaled, "expm; scaling and squaring of triangular 2x2", |x| { x.cfg.snap = true; }),
        h!("C06", expm_rejects, "expm; non-finite entries"),
        h!("C06", lyapunov, "solve_discrete_lyapunov; nilpotent 2x2, exact"),
        h!("C06", lyapunov3, "solve_discrete_lyapunov; nilpotent 3x3, exact"),
        h!("C06", lyapunov_contract, "solve_discrete_lyapunov; one contraction, any cost"),
        h!("C06", lyapunov_rejects, "solve_discrete_lyapunov; rejected inputs"),
        h!("C06", riccati, "solve_discrete_riccati; shift 2x2, all entries, exact"),
        h!("C06", riccati_dense, "solve_discrete_riccati; the same in other coordinates"),
        h!("C06", riccati_chain, "solve_discrete_riccati; chain of three"),
        h!("C06", riccati_rejects, "solve_discrete_riccati; rejected inputs"),
    ]
}
