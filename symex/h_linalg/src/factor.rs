//! C03: LU, determinant, inverse, solve.  C04: Cholesky, QR, least squares.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::error::LinalgError;
use multicalc::linear_algebra::*;

fn inv_n<S: Sc, const N: usize>(cx: &mut Cx<S>, a: Rows<S, N, N>) {
    let m = Matrix::new(a);
    let d = det(&vv(&a, N));
    cx.eq("determinant", m.determinant(), d);
    match m.inverse() {
        Ok(inv) => {
            cx.check("determinant of an inverted matrix", ne(d, S::ZERO));
            let inv = rows(&inv);
            meq(cx, "A inv", &mm(&a, &inv), &id());
            meq(cx, "inv A", &mm(&inv, &a), &id());
        }
        Err(e) => {
            cx.holds("error kind", e == LinalgError::Singular);
            // only when the determinant is negligible against the entries
            let big = a.iter().flatten().fold(S::ZERO, |b, x| if cx.ask(gt(x.abs(), b)) { x.abs() } else { b });
            let lim = S::c(1e-5) * (0..N).fold(S::ONE, |s, _| s * big);
            cx.check("refused only near singular", and(vec![le(d, lim), le(-lim, d)]));
        }
    }
    if cx.ask(eq(d, S::ZERO)) {
        cx.holds("singular refused", matches!(m.inverse(), Err(LinalgError::Singular)));
    }
}
fn inv12<S: Sc>(cx: &mut Cx<S>) {
    if cx.choose(2) == 0 {
        let a = cx.mat::<1, 1>("a");
        inv_n(cx, a);
    } else {
        let a = cx.mat::<2, 2>("a");
        inv_n(cx, a);
    }
}
/// Largest entry `l > 0` at the given place, determinant clearly nonzero.
fn scaled<S: Sc, const N: usize>(cx: &mut Cx<S>) -> (Rows<S, N, N>, S) {
    let l = cx.var_hint("l", 1.5, 3.0);
    cx.assume(lt(S::ZERO, l));
    let mut a = cx.mat::<N, N>("a");
    a[0][0] = l;
    for i in 0..N {
        for j in 0..N {
            if (i, j) != (0, 0) {
                a[i][j] = a[i][j] * S::rat(3, 10);
                cx.assume(lt(a[i][j].abs(), l));
            }
        }
    }
    let k = if N < 4 { cx.choose((N * N) as u32) } else { cx.choose(2) };
    a.swap(0, k / N);
    for r in a.iter_mut() {
        r.swap(0, k % N);
    }
    (a, l)
}
fn inv_ok<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let (a, l) = scaled::<S, N>(cx);
    let m = Matrix::new(a);
    let d = det(&vv(&a, N));
    cx.eq("determinant", m.determinant(), d);
    let lim = S::c(1e-6) * (0..N).fold(S::ONE, |s, _| s * l);
    let side = cx.choose(2) == 0;
    cx.assume(if side { lt(lim, d) } else { lt(d, -lim) });
    match m.inverse() {
        Ok(inv) => {
            let inv = rows(&inv);
            meq(cx, "A inv", &mm(&a, &inv), &id());
            if N < 4 || cx.thorough() {
                meq(cx, "inv A", &mm(&inv, &a), &id());
            }
        }
        Err(_) => cx.holds("a well-conditioned matrix has an inverse", false),
    }
}
fn inv3<S: Sc>(cx: &mut Cx<S>) {
    inv_ok::<S, 3>(cx)
}
fn inv4<S: Sc>(cx: &mut Cx<S>) {
    inv_ok::<S, 4>(cx)
}
/// Rank-deficient by construction: one row is a combination of two others.
fn deficient<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let mut a = cx.mat::<N, N>("a");
    let l = a[0][0].abs();
    cx.assume(lt(S::ZERO, l));
    let (s, t) = (cx.var("s"), cx.var("t"));
    a[N - 1] = std::array::from_fn(|j| s * a[0][j] + t * a[1][j]);
    for i in 0..N {
        for j in 0..N {
            if (i, j) != (0, 0) {
                cx.assume(lt(a[i][j].abs(), l));
            }
        }
    }
    let k = 1 + cx.choose(N as u32 - 1);
    a.swap(N - 1, k);
    let c = if N < 4 { cx.choose(N as u32) } else { 0 };
    let a: Rows<S, N, N> = std::array::from_fn(|i| std::array::from_fn(|j| a[j][(i + c) % N]));
    let m = Matrix::new(a);
    cx.eq("determinant", m.determinant(), S::ZERO);
    cx.holds("singular refused", matches!(m.inverse(), Err(LinalgError::Singular)));
}
fn deficient4<S: Sc>(cx: &mut Cx<S>) {
    deficient::<S, 4>(cx)
}
fn deficient3<S: Sc>(cx: &mut Cx<S>) {
    deficient::<S, 3>(cx)
}
const K5: [[i64; 5]; 5] = [[2, -1, 0, 3, 1], [0, 1, 4, -2, 1], [-3, 0, 1, 1, 2], [1, 2, -1, 0, 5], [4, 1, 1, -1, 0]];
fn inv5<S: Sc>(cx: &mut Cx<S>) {
    let mut a = cm::<S, 5, 5>(K5);
    let k = if cx.thorough() { cx.choose(25) } else { [0, 8, 14, 16, 22][cx.choose(5)] };
    a[k / 5][k % 5] = cx.var("s");
    let m = Matrix::new(a);
    let d = det(&vv(&a, 5));
    cx.eq("determinant", m.determinant(), d);
    match m.inverse() {
        Ok(inv) => {
            let inv = rows(&inv);
            meq(cx, "A inv", &mm(&a, &inv), &id());
        }
        Err(LinalgError::Singular) => cx.eq("singular", d, S::ZERO),
        Err(e) => {
            cx.holds("error kind", e == LinalgError::IllConditioned);
            let big = a.iter().flatten().fold(S::ONE, |b, x| if cx.ask(gt(x.abs(), b)) { x.abs() } else { b });
            let lim = S::c(1e-7) * (0..5).fold(S::ONE, |s, _| s * big);
            cx.check("refused only near singular", and(vec![le(d, lim), le(-lim, d)]));
        }
    }
}
fn lu_n<S: Sc, const N: usize>(cx: &mut Cx<S>, a: Rows<S, N, N>) {
    let m = Matrix::new(a);
    let d = det(&vv(&a, N));
    match m.lu_decompose() {
        Ok(f) => {
            let (l, u, p) = (rows(&f.lower()), rows(&f.upper()), f.permutation());
            let pa: Rows<S, N, N> = std::array::from_fn(|i| a[p[i]]);
            meq(cx, "P A = L U", &pa, &mm(&l, &u));
            for i in 0..N {
                for j in 0..N {
                    if j > i {
                        cx.eq("L upper part", l[i][j], S::ZERO);
                    } else if i == j {
                        cx.eq("L diagonal", l[i][j], S::ONE);
                        cx.check("pivot nonzero", ne(u[i][i], S::ZERO));
                    } else {
                        cx.eq("U lower part", u[i][j], S::ZERO);
                        cx.check("multiplier at most one", and(vec![le(l[i][j], S::ONE), le(-S::ONE, l[i][j])]));
                    }
                }
            }
            let mut q = p;
            q.sort();
            cx.holds("permutation", q == std::array::from_fn::<usize, N, _>(|i| i));
            cx.eq("determinant", f.determinant(), d);
            let b: [S; N] = cx.vars("b");
            let x = f.solve(Vector::new(b));
            let ax = mv(&a, &std::array::from_fn(|i| x[i]));
            for i in 0..N {
                cx.eq(&format!("residual[{i}]"), ax[i], b[i]);
            }
        }
        Err(LinalgError::Singular) => cx.eq("singular", d, S::ZERO),
        Err(e) => cx.holds("error kind", e == LinalgError::IllConditioned),
    }
}
fn lu2<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.mat::<2, 2>("a");
    lu_n(cx, a)
}
fn lu3<S: Sc>(cx: &mut Cx<S>) {
    // Rows in pivot order, then any permutation of them: every matrix is of this form.
    let mut a = cx.mat::<3, 3>("a");
    let p0 = a[0][0].abs();
    cx.assume(and(vec![lt(S::ZERO, p0), lt(p0, S::c(1e50))]));
    for i in 0..3 {
        for j in 0..3 {
            if (i, j) != (0, 0) {
                cx.assume(lt(a[i][j].abs(), p0));
            }
        }
    }
    let s: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| a[i + 1][j + 1] - a[i + 1][0] / a[0][0] * a[0][j + 1]));
    let (p1, r1) = (s[0][0].abs(), s[1][0].abs());
    cx.assume(and(vec![lt(r1, p1), lt(S::c(1e-6) * p0, p1)]));
    let p2 = (s[1][1] - s[1][0] / s[0][0] * s[0][1]).abs();
    cx.assume(or(vec![lt(S::c(1e-6) * p0, p2), eq(p2, S::ZERO)]));
    let k = if cx.thorough() { cx.choose(6) } else { [1, 5][cx.choose(2)] };
    a.swap(0, k % 3);
    if k >= 3 {
        a.swap(1, 2);
    }
    lu_n(cx, a)
}

// ---- C04 ----
/// `upper` entries are unrelated: only the lower triangle may be read.
fn chol_n<S: Sc, const N: usize>(cx: &mut Cx<S>) {
    let a = cx.mat::<N, N>("a");
    let sym: Rows<S, N, N> = std::array::from_fn(|i| std::array::from_fn(|j| if i >= j { a[i][j] } else { a[j][i] }));
    let minors: Vec<S> = (1..=N).map(|k| det(&vv(&sym, k))).collect();
    match Matrix::new(a).cholesky() {
        Ok(f) => {
            for (k, m) in minors.iter().enumerate() {
                cx.check(&format!("leading minor {k} positive"), lt(S::ZERO, *m));
            }
            let l = rows(&f.lower());
            meq(cx, "L Lt = A", &mm(&l, &tr(&l)), &sym);
            for i in 0..N {
                cx.check("diagonal of L positive", lt(S::ZERO, l[i][i]));
                for j in i + 1..N {
                    cx.eq("upper part of L", l[i][j], S::ZERO);
                }
            }
            cx.eq("determinant", f.determinant(), minors[N - 1]);
            let b: [S; N] = cx.vars("b");
            let x = f.solve(Vector::new(b));
            let ax = mv(&sym, &std::array::from_fn(|i| x[i]));
            cx.eqs("A x = b", &ax, &b);
            if N < 3 || cx.thorough() {
                let inv = rows(&f.inverse());
                meq(cx, "A inv", &mm(&sym, &inv), &id());
            }
            let bm = cx.mat::<N, 2>("c");
            let xm = rows(&f.solve_matrix(Matrix::new(bm)));
            for k in 0..2 {
                let col = f.solve(Vector::new(std::array::from_fn(|i| bm[i][k])));
                for i in 0..N {
                    cx.eq("solve_matrix column", xm[i][k], col[i]);
                }
            }
        }
        Err(e) => {
            cx.holds("error kind", e == LinalgError::NotPositiveDefinite);
            cx.check("some leading minor not positive", or(minors.iter().map(|m| le(*m, S::ZERO)).collect()));
        }
    }
}
fn chol12<S: Sc>(cx: &mut Cx<S>) {
    if cx.choose(2) == 0 { chol_n::<S, 1>(cx) } else { chol_n::<S, 2>(cx) }
}
fn chol3<S: Sc>(cx: &mut Cx<S>) {
    chol_n::<S, 3>(cx)
}
/// A = L Lt with L symbolic of size 4: the factor is found again.
fn chol4<S: Sc>(cx: &mut Cx<S>) {
    let mut l = cx.mat::<4, 4>("l");
    for i in 0..4 {
        l[i][i] = cx.pos(&format!("d{i}"));
        for j in i + 1..4 {
            l[i][j] = S::ZERO;
        }
    }
    let a = mm(&l, &tr(&l));
    match Matrix::new(a).cholesky() {
        Ok(f) => {
            meq(cx, "L", &rows(&f.lower()), &l);
            let b: [S; 4] = cx.vars("b");
            let x = f.solve(Vector::new(b));
            cx.eqs("A x = b", &mv(&a, &std::array::from_fn(|i| x[i])), &b);
        }
        Err(_) => cx.holds("positive definite accepted", false),
    }
}
fn chol_nan<S: Sc>(cx: &mut Cx<S>) {
    let l: [[S; 3]; 3] = [[S::c(2.0), S::ZERO, S::ZERO], [cx.var("p"), cx.pos("d"), S::ZERO], [cx.var("q"), cx.var("r"), cx.pos("e")]];
    let mut a = mm(&l, &tr(&l));
    let (i, j) = [(0, 0), (1, 0), (1, 1), (2, 0), (2, 1), (2, 2)][cx.choose(6)];
    a[i][j] = S::NAN;
    cx.holds("an entry that is not a number is not positive definite", matches!(Matrix::new(a).cholesky(), Err(LinalgError::NotPositiveDefinite)));
}
/// Entries either zero or of ordinary size, so every norm uses its middle band.
fn qr_mn<S: Sc, const M: usize, const N: usize>(cx: &mut Cx<S>, a: Rows<S, M, N>, b: [S; M]) {
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap();
    let (q, r, p) = (rows(&f.orthogonal()), rows(&f.triangular()), f.permutation());
    let ap: Rows<S, M, N> = std::array::from_fn(|i| std::array::from_fn(|j| a[i][p[j]]));
    meq(cx, "A P = Q R", &mm(&q, &r), &ap);
    meq(cx, "Qt Q = I", &mm(&tr(&q), &q), &id());
    for i in 0..N {
        for j in 0..i {
            cx.eq("R lower part", r[i][j], S::ZERO);
        }
        if i + 1 < N {
            cx.check("R diagonal nonincreasing", le(r[i + 1][i + 1] * r[i + 1][i + 1], r[i][i] * r[i][i]));
        }
    }
    match f.solve_least_squares(Vector::new(b)) {
        Ok(x) => {
            let x: [S; N] = std::array::from_fn(|i| x[i]);
            let res: [S; M] = {
                let ax = mv(&a, &x);
                std::array::from_fn(|i| ax[i] - b[i])
            };
            let g = mv(&tr(&a), &res);
            for i in 0..N {
                cx.eq(&format!("normal equations[{i}]"), g[i], S::ZERO);
            }
        }
        Err(e) => {
            cx.holds("error kind", e == LinalgError::Singular);
            let g = det(&mm(&tr(&a), &a).iter().map(|r| r.to_vec()).collect());
            let big = (0..N).fold(S::ZERO, |s, j| s + (0..M).fold(S::ZERO, |t, i| t + a[i][j] * a[i][j]));
            cx.check("refused only near rank-deficient", le(g, S::c(1e-20) * big * big));
        }
    }
}
/// Right-hand sides; the solutions are linear in them.
fn small<S: Sc, const N: usize>(cx: &mut Cx<S>) -> [S; N] {
    std::array::from_fn(|i| cx.var_in(&format!("b{i}"), -10.0, 10.0))
}
/// Orthogonal matrices with rational entries.
fn ortho3<S: Sc>(k: usize) -> Rows<S, 3, 3> {
    let (n, d): ([[i64; 3]; 3], i64) = match k {
        0 => ([[1, 2, 2], [2, 1, -2], [2, -2, 1]], 3),
        1 => ([[2, 3, 6], [3, -6, 2], [6, 2, -3]], 7),
        _ => ([[0, -5, 0], [3, 0, 4], [-4, 0, 3]], 5),
    };
    std::array::from_fn(|i| std::array::from_fn(|j| S::rat(n[i][j], d)))
}
/// A = Q R with the columns in any order; R symbolic, largest column first.
fn qr_parts<S: Sc, const N: usize>(cx: &mut Cx<S>, full: bool) -> (Rows<S, 3, N>, [S; N]) {
    let full = full || cx.thorough();
    let kq = if full { cx.choose(3) } else { 1 };
    let flip: [S; N] = std::array::from_fn(|i| if if full { cx.choose(2) } else { i % 2 } == 0 { S::ONE } else { -S::ONE });
    let q = ortho3::<S>(kq);
    let mut r = [[S::ZERO; N]; N];
    for i in 0..N {
        let top = 3.0 - i as f64;
        r[i][i] = if full || i == 1 { cx.var_hint(&format!("r{i}_{i}"), top - 0.5, top + 0.5) } else { S::rat([3, 0, 1][i], 1) };
        cx.assume(and(vec![lt(S::c(0.01), r[i][i]), lt(r[i][i], S::c(100.0))]));
        for j in i + 1..N {
            r[i][j] = if full { cx.var_hint(&format!("r{i}_{j}"), -0.7, 0.7) } else { S::rat(1 + i as i64 - j as i64 * 2, 4) };
            cx.assume(and(vec![lt(S::c(-100.0), r[i][j]), lt(r[i][j], S::c(100.0))]));
        }
    }
    // pivot order of the columns as written
    for j in 0..N {
        for k in j + 1..N {
            let t = (j..=k).fold(S::ZERO, |s, i| s + r[i][k] * r[i][k]);
            cx.assume(lt(t, r[j][j] * r[j][j]));
        }
    }
    let a: Rows<S, 3, N> = std::array::from_fn(|i| std::array::from_fn(|j| (0..=j).fold(S::ZERO, |s, k| s + q[i][k] * r[k][j])));
    for x in a.iter().flatten() {
        let x = *x;
        cx.assume(and(vec![lt(S::c(1e-6), x.abs()), lt(x.abs(), S::c(1000.0))]));
    }
    let mut a = a;
    for row in a.iter_mut() {
        // signs of the columns
        for j in 0..N {
            row[j] = row[j] * flip[j];
        }
    }
    if N > 1 {
        let p = cx.choose(N as u32);
        for row in a.iter_mut() {
            row.swap(0, p);
            if N > 2 && p > 0 {
                row.swap(1, 2);
            }
        }
    }
    let d = std::array::from_fn(|i| r[i][i]);
    (a, d)
}
fn qr32<S: Sc>(cx: &mut Cx<S>) {
    let (a, _) = qr_parts::<S, 2>(cx, true);
    let b = small(cx);
    qr_mn(cx, a, b)
}
fn qr33<S: Sc>(cx: &mut Cx<S>) {
    let (a, _) = qr_parts::<S, 3>(cx, false);
    let b = small(cx);
    qr_mn(cx, a, b)
}
fn qr21<S: Sc>(cx: &mut Cx<S>) {
    let a = cx.mat::<2, 1>("a");
    for x in a.iter().flatten() {
        cx.assume(and(vec![lt(S::c(1e-100), x.abs()), lt(x.abs(), S::c(1e100))]));
    }
    let b = small(cx);
    qr_mn(cx, a, b)
}
fn qr_deficient<S: Sc>(cx: &mut Cx<S>) {
    let (s, t) = (cx.var("s"), cx.pos("t"));
    cx.assume(and(vec![lt(S::c(1e-3), t), lt(t, S::c(1e3))]));
    let q = ortho3::<S>(1);
    let a: Rows<S, 3, 2> = std::array::from_fn(|i| [q[i][0] * t, q[i][0] * s]);
    cx.assume(or(vec![eq(s, S::ZERO), and(vec![lt(S::c(1e-3), s.abs()), lt(s.abs(), t)])]));
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap();
    let b: [S; 3] = cx.vars("b");
    cx.holds("rank-deficient refused", matches!(f.solve_least_squares(Vector::new(b)), Err(LinalgError::Singular)));
}
fn damped<S: Sc>(cx: &mut Cx<S>) {
    let (a, _) = qr_parts::<S, 2>(cx, false);
    let mut b = small(cx);
    if !cx.thorough() {
        b = [b[0], S::ONE, S::rat(-2, 1)];
    }
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new(b));
    let mut d: [S; 2] = cx.vars("d");
    for x in d.iter_mut() {
        if cx.choose(2) == 0 {
            *x = S::ZERO;
        } else {
            cx.assume(and(vec![lt(S::c(0.01), *x), lt(*x, S::c(100.0))]));
        }
    }
    let (x, fac) = f.solve_with_diagonal(&d);
    let x: [S; 2] = std::array::from_fn(|i| x[i]);
    let mut n = mm(&tr(&a), &a);
    for i in 0..2 {
        n[i][i] = n[i][i] + d[i] * d[i];
    }
    let (l, r) = (mv(&n, &x), mv(&tr(&a), &b));
    cx.eqs("(AtA + D2) x = At b", &l, &r);
    // S from the factor: St w = v, in pivot order, has St S = Pt (AtA + D2) P
    let p = PivotedQr::decompose(Matrix::new(a)).unwrap().permutation();
    let e: [[S; 2]; 2] = std::array::from_fn(|k| fac.solve(std::array::from_fn(|i| if i == k { S::ONE } else { S::ZERO })));
    // columns of inverse St; (inv St)t (inv St) = inverse of the normal matrix
    let w: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| e[j][i]));
    let inv = mm(&tr(&w), &w);
    let np: Rows<S, 2, 2> = std::array::from_fn(|i| std::array::from_fn(|j| n[p[i]][p[j]]));
    meq(cx, "factor of AtA + D2", &mm(&inv, &np), &id());
    cx.holds("not singular", f.is_non_singular());
}
fn damped_norm<S: Sc>(cx: &mut Cx<S>) {
    let (a, _) = qr_parts::<S, 2>(cx, false);
    let f = PivotedQr::decompose(Matrix::new(a)).unwrap().into_damped(Vector::new([S::ZERO; 3]));
    let x: [S; 2] = std::array::from_fn(|i| cx.var_open(&format!("x{i}"), 0.01, 10.0));
    let ax = mv(&a, &x);
    let nx = ax.iter().fold(S::ZERO, |s, v| s + *v * *v);
    cx.assume(lt(S::c(0.01), nx));
    let got = f.a_x_norm(&Vector::new(x));
    cx.eq("a_x_norm", got * got, nx);
    cx.check("norm nonnegative", le(S::ZERO, got));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C03", inv12, "Matrix::determinant, inverse; n = 1, 2, all entries"),
        h!("C03", inv3, "Matrix::determinant, inverse; n = 3, all entries, any of them the largest"),
        h!("C03", inv4, "Matrix::determinant, inverse; n = 4, all entries, any of them the largest"),
        h!("C03", deficient3, "Matrix::determinant, inverse; n = 3, rank-deficient"),
        h!("C03", deficient4, "Matrix::determinant, inverse; n = 4, rank-deficient"),
        h!("C03", inv5, "Matrix::determinant, inverse by LU; n = 5, one symbolic entry at each place of a fixed matrix"),
        h!("C03", lu2, "lu_decompose, lower, upper, permutation, determinant, solve; n = 2"),
        h!("C03", lu3, "lu_decompose, lower, upper, permutation, determinant, solve; n = 3"),
        h!("C04", chol12, "cholesky, lower, determinant, solve, solve_matrix, inverse; n = 1, 2"),
        h!("C04", chol3, "cholesky, lower, determinant, solve, solve_matrix; n = 3"),
        h!("C04", chol4, "cholesky, solve; n = 4, positive definite"),
        h!("C04", chol_nan, "cholesky; n = 3, one entry NaN"),
        h!("C04", qr21, "PivotedQr::decompose, orthogonal, triangular, solve_least_squares; 2x1"),
        h!("C04", qr32, "PivotedQr::decompose, orthogonal, triangular, solve_least_squares; 3x2 with any R and 3 orthogonal factors"),
        h!("C04", qr33, "PivotedQr::decompose, orthogonal, triangular, solve_least_squares; 3x3 with any R and 3 orthogonal factors"),
        h!("C04", qr_deficient, "solve_least_squares on parallel columns; 3x2"),
        h!("C04", damped_norm, "a_x_norm; 3x2"),
        h!("C04", damped, "into_damped, solve_with_diagonal, is_non_singular, a_x_norm; 3x2"),
    ]
}
