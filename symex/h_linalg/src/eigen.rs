//! C05: symmetric eigendecomposition and singular value decomposition.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::*;

fn eig_checks<S: Sc, const N: usize>(cx: &mut Cx<S>, a: Rows<S, N, N>, want: Option<[S; N]>) {
    let e = match Matrix::new(a).symmetric_eigendecomposition() {
        Ok(e) => e,
        Err(_) => return cx.holds("accepted", false),
    };
    let (w, v) = (e.eigenvalues(), rows(&e.eigenvectors()));
    let w: [S; N] = std::array::from_fn(|i| w[i]);
    meq(cx, "V diag Vt = A", &mm(&mm(&v, &dg(&w)), &tr(&v)), &a);
    meq(cx, "Vt V = I", &mm(&tr(&v), &v), &id());
    for i in 1..N {
        cx.check("eigenvalues descending", le(w[i], w[i - 1]));
    }
    if let Some(x) = want {
        // the same multiset
        let s = |w: &[S; N]| (w.iter().fold(S::ZERO, |a, b| a + *b), w.iter().fold(S::ZERO, |a, b| a + *b * *b), w.iter().fold(S::ONE, |a, b| a * *b));
        let (g, h) = (s(&w), s(&x));
        cx.eq("trace", g.0, h.0);
        cx.eq("sum of squares", g.1, h.1);
        cx.eq("product", g.2, h.2);
    }
    cx.eq("determinant", e.determinant(), det(&vv(&a, N)));
    for k in 0..N {
        // sign convention: the largest entry of the column is positive
        let mut pos = vec![];
        for i in 0..N {
            let others = (0..N).map(|j| le(v[j][k] * v[j][k], v[i][k] * v[i][k])).chain(std::iter::once(lt(S::ZERO, v[i][k]))).collect();
            pos.push(and(others));
        }
        cx.check("largest entry of a direction positive", or(pos));
    }
    let pd = e.is_positive_definite();
    let lo = w[N - 1];
    cx.check("is_positive_definite", if pd { lt(S::ZERO, lo) } else { le(lo, S::ZERO) });
}
fn eig2<S: Sc>(cx: &mut Cx<S>) {
    let (a, b, c) = (cx.var("a"), cx.var("b"), cx.var("c"));
    // off-diagonal entry zero or not negligible
    if cx.choose(2) == 0 {
        let b = S::ZERO;
        eig_checks(cx, [[a, b], [b, c]], None);
    } else {
        cx.assume(and(vec![lt(S::c(1e-6), b.abs()), lt(a.abs(), S::c(1e3)), lt(c.abs(), S::c(1e3)), lt(b.abs(), S::c(1e3))]));
        eig_checks(cx, [[a, b], [b, c]], None);
    }
}
/// Product of plane rotations with rational entries.
fn rot<S: Sc, const N: usize>(p: usize, q: usize, c: i64, s: i64, d: i64) -> Rows<S, N, N> {
    let mut m = id::<S, N>();
    m[p][p] = S::rat(c, d);
    m[q][q] = S::rat(c, d);
    m[p][q] = S::rat(s, d);
    m[q][p] = S::rat(-s, d);
    m
}
fn eig2r<S: Sc>(cx: &mut Cx<S>) {
    let w = spread::<S, 2>(cx);
    let v: Rows<S, 2, 2> = match cx.choose(5) {
        0 => id(),
        1 => rot(0, 1, 4, 3, 5),
        2 => rot(0, 1, -5, 12, 13),
        3 => rot(0, 1, 0, 1, 1),
        _ => rot(0, 1, 24, -7, 25),
    };
    eig_checks(cx, mm(&mm(&v, &dg(&w)), &tr(&v)), Some(w));
}
fn spread<S: Sc, const N: usize>(cx: &mut Cx<S>) -> [S; N] {
    // distinct by a clear margin, in any order
    let w: [S; N] = std::array::from_fn(|i| cx.var_hint(&format!("w{i}"), 3.0 * (N - i) as f64 - 5.0, 3.0 * (N - i) as f64 - 4.0));
    for i in 0..N {
        cx.assume(and(vec![lt(S::c(-100.0), w[i]), lt(w[i], S::c(100.0))]));
    }
    for i in 1..N {
        cx.assume(lt(w[i] + S::c(0.01), w[i - 1]));
    }
    w
}
fn eig3<S: Sc>(cx: &mut Cx<S>) {
    let w = spread::<S, 3>(cx);
    let deep = cx.thorough();
    // the order of the symbols on the diagonal
    let np = if deep { 6 } else { 2 };
    let p: [usize; 3] = [[1, 2, 0], [2, 1, 0], [0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1]][cx.choose(np)];
    let d: [S; 3] = std::array::from_fn(|i| w[p[i]]);
    let k = cx.choose(if deep { 5 } else { 4 });
    if !deep {
        cx.assume(lt(S::c(0.1), w[2]));
    }
    let v: Rows<S, 3, 3> = match k {
        0 => id(),
        1 => rot(0, 1, 4, 3, 5),
        2 => rot(0, 2, 4, -3, 5),
        3 => rot(1, 2, 12, 5, 13),
        _ => mm(&rot(0, 1, 4, 3, 5), &rot(0, 2, 12, 5, 13)),
    };
    let a = mm(&mm(&v, &dg(&d)), &tr(&v));
    eig_checks(cx, a, Some(w));
    let e = Matrix::new(a).symmetric_eigendecomposition().unwrap();
    for i in 0..3 {
        cx.eq(&format!("eigenvalue[{i}]"), e.eigenvalues()[i], w[i]);
    }
    if k != 4 {
        let m = cx.var_hint("m", -1.0, 1.0);
        let cl = rows(&e.clamped(m));
        // same directions, each eigenvalue raised to the floor
        let v2 = rows(&e.eigenvectors());
        let r: [S; 3] = std::array::from_fn(|i| if cx.ask(lt(w[i], m)) { m } else { w[i] });
        meq(cx, "clamped", &cl, &mm(&mm(&v2, &dg(&r)), &tr(&v2)));
    }
}
fn condition<S: Sc>(cx: &mut Cx<S>) {
    let w: [S; 3] = cx.vars("w");
    for x in w {
        cx.assume(lt(x.abs(), S::c(1e3)));
    }
    let e = Matrix::new(dg(&w)).symmetric_eigendecomposition().unwrap();
    let c = e.condition_number();
    if cx.ask(or(w.iter().map(|x| eq(*x, S::ZERO)).collect())) {
        cx.same("condition number of a singular matrix", c, S::INFINITY);
    } else {
        // the ratio of some magnitude to another, at least every such ratio
        let mut alts = vec![];
        for x in w {
            for y in w {
                cx.check("at least every ratio", le(x * x, c * c * y * y));
                alts.push(eq(x * x, c * c * y * y));
            }
        }
        cx.check("is a ratio", or(alts));
        cx.check("at least one", le(S::ONE, c));
    }
}
fn eig_rejects<S: Sc>(cx: &mut Cx<S>) {
    let mut a = cx.mat::<3, 3>("a");
    for i in 0..3 {
        for j in i..3 {
            cx.assume(lt(a[i][j].abs(), S::c(1e3)));
            a[j][i] = a[i][j];
        }
    }
    let k = cx.choose(12);
    if k < 9 {
        let x = cx.any("x");
        if !cx.ask(Prop::Fin(x)) {
            a[k / 3][k % 3] = x;
            cx.holds("non-finite refused", matches!(Matrix::new(a).symmetric_eigendecomposition(), Err(LinalgError::NonFinite)));
            cx.holds("non-finite refused by svd", matches!(Matrix::new(a).svd(), Err(LinalgError::NonFinite)));
            cx.holds("non-finite refused by pseudo_inverse", matches!(Matrix::new(a).pseudo_inverse(), Err(LinalgError::NonFinite)));
        }
    } else {
        let (i, j) = [(0, 1), (0, 2), (1, 2)][k - 9];
        let d = cx.var("d");
        cx.assume(and(vec![lt(S::c(1e-6), d), lt(d, S::c(10.0))]));
        a[i][j] = a[j][i] + d;
        cx.holds("lopsided refused", matches!(Matrix::new(a).symmetric_eigendecomposition(), Err(LinalgError::NotSymmetric)));
    }
}
fn svd_checks<S: Sc, const M: usize, const N: usize>(cx: &mut Cx<S>, a: Rows<S, M, N>, w: [S; N]) {
    let f = match Matrix::new(a).svd() {
        Ok(f) => f,
        Err(_) => return cx.holds("accepted", false),
    };
    let (u, v) = (rows(&f.left()), rows(&f.right()));
    let s: [S; N] = std::array::from_fn(|i| f.singular_values()[i]);
    meq(cx, "U S Vt = A", &mm(&mm(&u, &dg(&s)), &tr(&v)), &a);
    meq(cx, "Ut U = I", &mm(&tr(&u), &u), &id());
    meq(cx, "Vt V = I", &mm(&tr(&v), &v), &id());
    for i in 0..N {
        cx.eq(&format!("singular value[{i}]"), s[i], w[i]);
        let mut pos = vec![];
        for r in 0..M {
            pos.push(and((0..M).map(|j| le(u[j][i] * u[j][i], u[r][i] * u[r][i])).chain(std::iter::once(lt(S::ZERO, u[r][i]))).collect()));
        }
        cx.check("largest entry of a left column positive", or(pos));
    }
    cx.eq("condition number", f.condition_number() * w[N - 1], w[0]);
    let t = cx.var_hint("tol", 0.0, 8.0);
    let mut n = 0;
    for x in w {
        if cx.ask(lt(t, x)) {
            n += 1;
        }
    }
    cx.holds("rank", f.rank(t) == n);
    let p = rows(&f.pseudo_inverse());
    meq(cx, "A+ A = I", &mm(&p, &a), &id());
    let ap = mm(&a, &p);
    meq(cx, "A A+ symmetric", &ap, &tr(&ap));
    meq(cx, "pseudo_inverse of the matrix", &rows(&Matrix::new(a).pseudo_inverse().unwrap()), &p);
    if N < M {
        // a square transpose is a different factorization, whose rotations do not end in finitely many steps
        let pt = rows(&Matrix::new(tr(&a)).pseudo_inverse().unwrap());
        meq(cx, "pseudo_inverse of the transpose", &pt, &tr(&p));
    }
    let b: [S; M] = cx.vars("b");
    let x = f.solve(Vector::new(b));
    cx.eqs("least-squares solution", &std::array::from_fn::<S, N, _>(|i| x[i]), &mv(&p, &b));
}
fn sing<S: Sc, const N: usize>(cx: &mut Cx<S>) -> [S; N] {
    let w: [S; N] = std::array::from_fn(|i| cx.var_hint(&format!("w{i}"), 3.0 * (N - i) as f64 - 1.0, 3.0 * (N - i) as f64));
    cx.assume(and(vec![lt(S::c(0.1), w[N - 1]), lt(w[0], S::c(100.0))]));
    for i in 1..N {
        cx.assume(lt(w[i] + S::c(0.01), w[i - 1]));
    }
    w
}
fn left3<S: Sc>(k: usize) -> Rows<S, 3, 3> {
    let (n, d): ([[i64; 3]; 3], i64) = match k {
        0 => ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3),
        1 => ([[2, 3, 6], [3, -6, 2], [6, 2, -3]], 7),
        _ => ([[0, -5, 0], [3, 0, 4], [-4, 0, 3]], 5),
    };
    std::array::from_fn(|i| std::array::from_fn(|j| S::rat(n[i][j], d)))
}
fn svd32<S: Sc>(cx: &mut Cx<S>) {
    let w = sing::<S, 2>(cx);
    let u3 = left3::<S>(cx.choose(3));
    let u: Rows<S, 3, 2> = std::array::from_fn(|i| [u3[i][0], u3[i][1]]);
    let v: Rows<S, 2, 2> = match cx.choose(3) {
        0 => rot(0, 1, 4, 3, 5),
        1 => rot(0, 1, -5, 12, 13),
        _ => rot(0, 1, 0, 1, 1),
    };
    let a = mm(&mm(&u, &dg(&w)), &v);
    svd_checks(cx, a, w);
}
fn svd33<S: Sc>(cx: &mut Cx<S>) {
    let mut w = sing::<S, 3>(cx);
    let deep = cx.thorough();
    if !deep {
        (w[0], w[2]) = (S::c(9.0), S::c(2.0));
        cx.assume(and(vec![lt(S::c(2.1), w[1]), lt(w[1], S::c(8.9))]));
    }
    let u = left3::<S>(cx.choose(2));
    let v: Rows<S, 3, 3> = match cx.choose(if deep { 4 } else { 2 }) {
        0 => rot(0, 1, 4, 3, 5),
        1 => rot(1, 2, -3, 4, 5),
        2 => rot(0, 2, 12, -5, 13),
        _ => mm(&rot(0, 1, 4, 3, 5), &rot(0, 2, 12, 5, 13)),
    };
    let a = mm(&mm(&u, &dg(&w)), &tr(&v));
    svd_checks(cx, a, w);
}
fn svd_deficient<S: Sc>(cx: &mut Cx<S>) {
    // rank one, and the zero matrix
    let w = cx.pos("w");
    cx.assume(and(vec![lt(S::c(0.1), w), lt(w, S::c(100.0))]));
    let u = left3::<S>(1);
    if cx.choose(2) == 0 {
        let z = Matrix::<3, 2, S>::zeros().svd().unwrap();
        cx.eq("zero matrix", z.singular_values()[0], S::ZERO);
        cx.same("condition number", z.condition_number(), S::INFINITY);
        let p = rows(&z.pseudo_inverse());
        meq(cx, "pseudo inverse of zero", &p, &[[S::ZERO; 3]; 2]);
        return;
    }
    let v = [S::rat(3, 5), S::rat(4, 5)];
    let a: Rows<S, 3, 2> = std::array::from_fn(|i| std::array::from_fn(|j| u[i][0] * w * v[j]));
    let f = Matrix::new(a).svd().unwrap();
    cx.eq("singular value", f.singular_values()[0], w);
    cx.eq("second singular value", f.singular_values()[1], S::ZERO);
    let p = rows(&f.pseudo_inverse());
    let want: Rows<S, 2, 3> = std::array::from_fn(|i| std::array::from_fn(|j| v[i] * u[j][0] / w));
    meq(cx, "pseudo inverse", &p, &want);
    cx.holds("wide refused", matches!(Matrix::new(tr(&a)).svd(), Err(LinalgError::Underdetermined)));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C05", eig2r, "symmetric_eigendecomposition, determinant, is_positive_definite; n = 2, any eigenvalues, 5 sets of directions"),
        h!("C05", eig2, "symmetric_eigendecomposition, determinant, is_positive_definite; n = 2, all entries", |x| { x.deep = true; }),
        h!("C05", eig3, "symmetric_eigendecomposition, clamped; n = 3, any eigenvalues, 5 sets of directions"),
        h!("C05", condition, "condition_number; n = 3"),
        h!("C05", eig_rejects, "symmetric_eigendecomposition, svd, pseudo_inverse; rejected inputs, n = 3"),
        h!("C05", svd32, "svd, singular_values, rank, condition_number, pseudo_inverse, solve; 3x2, any singular values, 9 sets of directions"),
        h!("C05", svd33, "svd, rank, pseudo_inverse, solve; 3x3, any singular values, 8 sets of directions"),
        h!("C05", svd_deficient, "svd, pseudo_inverse; 3x2 of rank one and zero"),
    ]
}
