use engine::cx::*;
use multicalc::linear_algebra::{Matrix, Vector};

pub type Rows<S, const R: usize, const C: usize> = [[S; C]; R];

pub fn mm<S: Sc, const A: usize, const B: usize, const C: usize>(x: &Rows<S, A, B>, y: &Rows<S, B, C>) -> Rows<S, A, C> {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..B).fold(S::ZERO, |s, k| s + x[i][k] * y[k][j])))
}
pub fn tr<S: Sc, const A: usize, const B: usize>(x: &Rows<S, A, B>) -> Rows<S, B, A> {
    std::array::from_fn(|i| std::array::from_fn(|j| x[j][i]))
}
pub fn id<S: Sc, const N: usize>() -> Rows<S, N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { S::ONE } else { S::ZERO }))
}
pub fn dg<S: Sc, const N: usize>(d: &[S; N]) -> Rows<S, N, N> {
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { d[i] } else { S::ZERO }))
}
pub fn mv<S: Sc, const A: usize, const B: usize>(x: &Rows<S, A, B>, v: &[S; B]) -> [S; A] {
    std::array::from_fn(|i| (0..B).fold(S::ZERO, |s, k| s + x[i][k] * v[k]))
}
/// Laplace expansion.
pub fn det<S: Sc>(a: &Vec<Vec<S>>) -> S {
    let n = a.len();
    if n == 0 {
        return S::ONE;
    }
    let mut d = S::ZERO;
    for j in 0..n {
        let m: Vec<Vec<S>> = a[1..].iter().map(|r| r.iter().enumerate().filter(|(k, _)| *k != j).map(|(_, x)| *x).collect()).collect();
        let t = a[0][j] * det(&m);
        d = if j % 2 == 0 { d + t } else { d - t };
    }
    d
}
pub fn vv<S: Sc, const N: usize>(a: &Rows<S, N, N>, k: usize) -> Vec<Vec<S>> {
    a[..k].iter().map(|r| r[..k].to_vec()).collect()
}
pub fn rows<S: Sc, const R: usize, const C: usize>(m: &Matrix<R, C, S>) -> Rows<S, R, C> {
    m.into_array()
}
pub fn meq<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>, l: &str, a: &Rows<S, R, C>, b: &Rows<S, R, C>) {
    for i in 0..R {
        for j in 0..C {
            cx.eq(&format!("{l}[{i},{j}]"), a[i][j], b[i][j]);
        }
    }
}
pub fn mnear<S: Sc, const R: usize, const C: usize>(cx: &mut Cx<S>, l: &str, a: &Rows<S, R, C>, b: &Rows<S, R, C>, t: S) {
    for i in 0..R {
        for j in 0..C {
            let d = a[i][j] - b[i][j];
            cx.check(&format!("{l}[{i},{j}]"), and(vec![le(d, t), le(-t, d)]));
        }
    }
}
pub fn veq<S: Sc, const R: usize>(cx: &mut Cx<S>, l: &str, a: Vector<R, S>, b: [S; R]) {
    for i in 0..R {
        cx.eq(&format!("{l}[{i}]"), a[i], b[i]);
    }
}
pub fn cm<S: Sc, const R: usize, const C: usize>(m: [[i64; C]; R]) -> Rows<S, R, C> {
    m.map(|r| r.map(|x| S::rat(x, 1)))
}
pub fn dot<S: Sc, const N: usize>(a: &[S; N], b: &[S; N]) -> S {
    (0..N).fold(S::ZERO, |s, i| s + a[i] * b[i])
}
pub fn cross<S: Sc>(a: &[S; 3], b: &[S; 3]) -> [S; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add<S: Sc, const N: usize>(a: &[S; N], b: &[S; N]) -> [S; N] {
    std::array::from_fn(|i| a[i] + b[i])
}
pub fn sub<S: Sc, const N: usize>(a: &[S; N], b: &[S; N]) -> [S; N] {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn scale<S: Sc, const N: usize>(a: &[S; N], k: S) -> [S; N] {
    a.map(|x| x * k)
}
/// Unit quaternion, as a rational function of three parameters; every one but a half turn of sign.
pub fn ratq<S: Sc>(cx: &mut Cx<S>, n: &str) -> [S; 4] {
    let t: [S; 3] = std::array::from_fn(|i| cx.var_hint(&format!("{n}{i}"), -0.9, 0.9));
    let q = dot(&t, &t);
    let d = S::ONE + q;
    [(S::ONE - q) / d, S::TWO * t[0] / d, S::TWO * t[1] / d, S::TWO * t[2] / d]
}
/// Rational unit directions.
pub fn dirs<S: Sc>(k: usize) -> [S; 3] {
    let (n, d): ([i64; 3], i64) = [([1, 2, 2], 3), ([-2, 3, 6], 7), ([0, 0, 1], 1), ([3, 0, -4], 5), ([1, 0, 0], 1), ([0, -1, 0], 1)][k];
    n.map(|x| S::rat(x, d))
}
/// Rotation matrix of a unit quaternion, from the definition v -> q v q*.
pub fn rotm<S: Sc>(q: &[S; 4]) -> Rows<S, 3, 3> {
    let [w, x, y, z] = *q;
    let two = S::TWO;
    [
        [w * w + x * x - y * y - z * z, two * (x * y - w * z), two * (x * z + w * y)],
        [two * (x * y + w * z), w * w - x * x + y * y - z * z, two * (y * z - w * x)],
        [two * (x * z - w * y), two * (y * z + w * x), w * w - x * x - y * y + z * z],
    ]
}
pub fn skew<S: Sc>(a: &[S; 3]) -> Rows<S, 3, 3> {
    [[S::ZERO, -a[2], a[1]], [a[2], S::ZERO, -a[0]], [-a[1], a[0], S::ZERO]]
}
