//! C43: normal draws from uniform ones.
use engine::cx::*;
use engine::{Harness, h};
use multicalc::random::RandomSource;

/// Uniform draws as scripted; keeps one value, as a generator does.
struct Script<S> {
    draws: Vec<S>,
    at: usize,
    kept: Option<S>,
}
impl<S: Sc> RandomSource<S> for Script<S> {
    fn next_unit(&mut self) -> S {
        self.at += 1;
        self.draws[self.at - 1]
    }
    fn next_u32(&mut self) -> u32 {
        unreachable!()
    }
    fn get_cache(&mut self) -> Option<S> {
        self.kept.take()
    }
    fn set_cache(&mut self, v: S) {
        self.kept = Some(v)
    }
}
fn place<S: Sc>(u: &[S]) -> [S; 3] {
    let (x, y) = (u[0] + u[0] - S::ONE, u[1] + u[1] - S::ONE);
    [x, y, x * x + y * y]
}
fn draws<S: Sc>(cx: &mut Cx<S>, n: usize) -> Script<S> {
    let d = (0..n).map(|i| cx.var_open(&format!("u{i}"), 0.0, 1.0)).collect();
    Script { draws: d, at: 0, kept: None }
}
/// The pair drawn from one accepted point.
fn pair<S: Sc>(cx: &mut Cx<S>, tag: &str, u: &[S], a: S, b: S) {
    let [x, y, r] = place(u);
    cx.eq(&format!("{tag} length"), a * a + b * b, -S::TWO * r.log());
    cx.eq(&format!("{tag} direction"), a * y, b * x);
    cx.check(&format!("{tag} sides"), and(vec![le(S::ZERO, a * x), le(S::ZERO, b * y)]));
}
fn polar<S: Sc>(cx: &mut Cx<S>) {
    let mut s = draws(cx, 6);
    let [_, _, r] = place(&s.draws[0..2]);
    // one point refused at most
    let out = if cx.ask(le(S::ONE, r)) { 1 } else { 0 };
    if cx.ask(eq(r, S::ZERO)) {
        cx.stop();
    }
    let first = 2 * out;
    let [_, _, r] = place(&s.draws[first..]);
    cx.assume(and(vec![lt(S::ZERO, r), lt(r, S::ONE)]));
    let a = s.standard_normal();
    cx.holds("draws taken", s.at == first + 2);
    let b = s.standard_normal();
    cx.holds("second of the pair", s.at == first + 2);
    let d = s.draws.clone();
    pair(cx, "first", &d[first..], a, b);
    if out == 0 {
        let [_, _, q] = place(&d[2..]);
        cx.assume(and(vec![lt(S::ZERO, q), lt(q, S::ONE)]));
        let c = s.standard_normal();
        cx.holds("draws taken anew", s.at == 4);
        let e = s.standard_normal();
        pair(cx, "next", &d[2..], c, e);
        cx.holds("none left", s.kept.is_none());
    }
}
/// The middle of the square has no direction and is drawn again.
fn middle<S: Sc>(cx: &mut Cx<S>) {
    let mut s = draws(cx, 4);
    s.draws[0] = S::HALF;
    s.draws[1] = S::HALF;
    let [_, _, r] = place(&s.draws[2..]);
    cx.assume(and(vec![lt(S::ZERO, r), lt(r, S::ONE)]));
    let a = s.standard_normal();
    cx.holds("drawn again", s.at == 4);
    let b = s.standard_normal();
    let d = s.draws.clone();
    pair(cx, "then", &d[2..], a, b);
}
/// On the circle itself the point is refused: its draws would both be zero.
fn rim<S: Sc>(cx: &mut Cx<S>) {
    let mut s = draws(cx, 4);
    s.draws[0] = S::rat(4, 5);
    s.draws[1] = S::rat(9, 10);
    let [_, _, r] = place(&s.draws[2..]);
    cx.assume(and(vec![lt(S::ZERO, r), lt(r, S::ONE)]));
    let a = s.standard_normal();
    let b = s.standard_normal();
    let d = s.draws.clone();
    // (3/5, 4/5) rounds to one side or the other in the machine: either way a true draw
    if s.at == 4 {
        pair(cx, "beyond", &d[2..], a, b);
    } else {
        cx.near("nothing", a * a + b * b, S::ZERO, 1e-12);
    }
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C43", polar, "RandomSource::standard_normal; two pairs, the first refused or not, any uniform draws", |x| x.cfg.abs_fork = true),
        h!("C43", middle, "standard_normal at the centre; any draws after it", |x| x.cfg.abs_fork = true),
        h!("C43", rim, "standard_normal on the unit circle; any draws after it", |x| x.cfg.abs_fork = true),
    ]
}
