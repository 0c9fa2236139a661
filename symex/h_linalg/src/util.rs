use engine::cx::*;
use multicalc::linear_algebra::{Matrix, Vector};

pub type Rows<S, const R: usize, const C: usize> = [[S; C]; R];

pub fn mm<S: Sc, const A: usize, const B: usize, const C: usize>(x: &Rows<S, A, B>, y: &Rows<S, B, C>) -> Rows<S, A, C> {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..B).fold(S::ZERO, |s, k| s + x[i][k] * y[k][j])))
}
pub fn tr<S: Sc, const A: usize, const B: usize>(x: &Rows<S, A, B>) -> Rows<S, B, A> {
    std::array::from_fn(|i| std::array::from_fn(|j| x[j][i]))
}
pub fn id<S: Sc, const N: usize>() -> Rows<S, N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { S::ONE } else { S::ZERO }))
}
pub fn dg<S: Sc, const N: usize>(d: &[S; N]) -> Rows<S, N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { d[i] } else { S::ZERO }))
}
pub fn mv<S: Sc, const A: usize, const B: usize>(x: &Rows<S, A, B>, v: &[S; B]) -> [S; A] {
    std::array::from_fn(|i| (0..B).fold(S::ZERO, |s, k| s + x[i][k] * v[k]))
}
/// Laplace expansion.
pub fn det<S: Sc>(a: &Vec<Vec<S>>) -> S {
    let n = a.len();
    if n == 0 {
        return S::ONE;
    }
    let mut d = S::ZERO;
    for j in 0..n {
        let m: Vec<Vec<S>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
        let t = a[0][j] * det(&m);
        d = if j % 2 == 0 { d + t } else { d - t };
    }
    d
}
pub fn vv<S: Sc, const N: usize>(a: &Rows<S, N, N>, k: usize) -> Vec<Vec<S>> {
    a[..k].iter().map(|r| r[..k].to_vec()).collect()
}
pub fn rows<S: Sc, const R: usize, const C: usize>(m: &Matrix<R, C, S>) -> Rows<S, R, C> {
    m.into_array()
}
pub fn meq<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>, l: &str, a: &Rows<S, R, C>, b: &Rows<S, R, C>) {
    for i in 0..R {
        for j in 0..C {
            cx.eq(&format!("{l}[{i},{j}]"), a[i][j], b[i][j]);
        }
    }
}
pub fn mnear<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>, l: &str, a: &Rows<S, R, C>, b: &Rows<S, R, C>, t: S) {
    for i in 0..R {
        for j in 0..C {
            let d = a[i][j] - b[i][j];
            cx.check(&format!("{l}[{i},{j}]"), and(vec![le(d, t), le(-t, d)]));
        }
    }
}
pub fn veq<S: Sc, const R: usize>(cx: &mut Cx<S>, l: &str, a: Vector<R, S>, b: [S; R]) {
    for i in 0..R {
        cx.eq(&format!("{l}[{i}]"), a[i], b[i]);
    }
}
pub fn cm<S: Sc, const R: usize, const C: usize>(m: [[i64; C]; R]) -> Rows<S, R, C> {
    m.map(|r| r.map(|x| S::rat(x, 1)))
}
