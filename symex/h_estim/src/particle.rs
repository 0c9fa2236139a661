//! C19: particle filter and resampling.
use crate::util::*;
use engine::cx::*;
use engine::{Harness, h};
use multicalc::Numeric;
use multicalc::error::EstimationError;
use multicalc::estimation::*;
use multicalc::mapping::{OccupancyMap, ScanGeometry};
use multicalc::linear_algebra::{Matrix, Vector};
use multicalc::random::RandomSource;
use multicalc::scalar::VectorFn;

/// A generator whose draws are given in advance.
#[derive(Clone)]
pub struct Script<S> {
    pub units: Vec<S>,
    pub normals: Vec<S>,
    pub used: usize,
    pub used_normals: usize,
}
impl<S: Sc> Script<S> {
    pub fn new(units: Vec<S>, normals: Vec<S>) -> Self {
        Script { units, normals, used: 0, used_normals: 0 }
    }
}
impl<S: Sc> RandomSource<S> for Script<S> {
    fn next_u32(&mut self) -> u32 {
        panic!("raw word drawn")
    }
    fn next_unit(&mut self) -> S {
        self.used += 1;
        self.units[self.used - 1]
    }
    fn standard_normal(&mut self) -> S {
        self.used_normals += 1;
        self.normals[self.used_normals - 1]
    }
    fn get_cache(&mut self) -> Option<S> {
        None
    }
    fn set_cache(&mut self, _: S) {}
}
const N: usize = 3;
fn unit_draw<S: Sc>(cx: &mut Cx<S>, n: &str) -> S {
    let u = cx.var_in(n, 0.0, 1.0);
    cx.assume(lt(u, S::ONE));
    u
}
fn resample<S: Sc>(cx: &mut Cx<S>) {
    let which = cx.choose(4);
    let scheme = [ResamplingScheme::Systematic, ResamplingScheme::Stratified, ResamplingScheme::Multinomial, ResamplingScheme::Residual][which];
    // normalized weights, some possibly zero
    let zeros = cx.choose(7);
    let mut w = [S::ZERO; N];
    let mut left = S::ONE;
    let last = (0..N).rev().find(|i| zeros >> i & 1 == 0).unwrap_or(0);
    for i in 0..N {
        if zeros >> i & 1 == 1 {
            continue;
        }
        w[i] = if i == last { left } else { cx.var_open(&format!("w{i}"), 1e-3, 1.0) };
        left = left - w[i];
    }
    cx.assume(lt(S::c(1e-3), w[last]));
    let u: Vec<S> = (0..N).map(|i| unit_draw(cx, &format!("u{i}"))).collect();
    let mut r = Script::new(u.clone(), vec![]);
    let mut ix = [usize::MAX; N];
    scheme.resample_indices(&w, &mut r, &mut ix);
    cx.holds("every slot filled", ix.iter().all(|i| *i < N));
    if ix.iter().any(|i| *i >= N) {
        return;
    }
    cx.holds("only possible particles", ix.iter().all(|i| zeros >> i & 1 == 0));
    let count = |k: usize| S::c(ix.iter().filter(|i| **i == k).count() as f64);
    let n = S::c(N as f64);
    let cum = |k: usize| (0..k).fold(S::ZERO, |s, i| s + w[i]);
    // the pick is where the running sum crosses the position
    let mut picked = |cx: &mut Cx<S>, l: &str, k: usize, at: S, lo: S, hi: S| {
        let _ = k;
        cx.check(l, and(vec![le(lo, at), le(at, hi)]));
    };
    match scheme {
        ResamplingScheme::Systematic => {
            cx.holds("one draw", r.used == 1);
            for k in 0..N {
                let at = (u[0] + S::c(k as f64)) / n;
                picked(cx, "systematic", k, at, cum(ix[k]), cum(ix[k] + 1));
            }
            for k in 0..N {
                let d = count(k) - n * w[k];
                cx.check("share within one", and(vec![le(d, S::ONE), le(-S::ONE, d)]));
            }
        }
        ResamplingScheme::Stratified => {
            cx.holds("a draw each", r.used == N);
            for k in 0..N {
                let at = (u[k] + S::c(k as f64)) / n;
                picked(cx, "stratified", k, at, cum(ix[k]), cum(ix[k] + 1));
            }
        }
        ResamplingScheme::Multinomial => {
            cx.holds("a draw each", r.used == N);
            for k in 0..N {
                picked(cx, "multinomial", k, u[k], cum(ix[k]), cum(ix[k] + 1));
            }
        }
        _ => {
            // whole shares first, then independent draws on what is left of each
            let whole: Vec<S> = w.iter().map(|x| (n * *x).floor()).collect();
            let sum = whole.iter().fold(S::ZERO, |s, x| s + *x);
            let rest = n - sum;
            for k in 0..N {
                cx.check("at least the whole share", le(whole[k], count(k)));
            }
            cx.eq("a draw per leftover slot", S::c(r.used as f64), rest);
            for j in 0..r.used {
                let k = ix[N - r.used + j];
                let part = |m: usize| (0..m).fold(S::ZERO, |s, i| s + n * w[i] - whole[i]);
                cx.check("leftover", and(vec![le(part(k), u[j] * rest), le(u[j] * rest, part(k + 1)), lt(whole[k], n * w[k])]));
            }
        }
    }
    let mut none: [usize; 0] = [];
    scheme.resample_indices(&[] as &[S], &mut Script::new(vec![], vec![]), &mut none);
}
struct Shift<S: Sc>(S, S, S);
impl<S: Sc> VectorFn<2, 2> for Shift<S> {
    fn eval<T: Numeric>(&self, x: &[T; 2]) -> [T; 2] {
        let k = |v: S| T::from_f64(v.f());
        [k(self.0) * x[0] + x[1], k(self.1) - k(self.2) * x[0] * x[1]]
    }
}
impl<S: Sc> VectorFn<2, 1> for Shift<S> {
    fn eval<T: Numeric>(&self, x: &[T; 2]) -> [T; 1] {
        let k = |v: S| T::from_f64(v.f());
        [k(self.0) * x[0] + k(self.1) * x[1] + k(self.2)]
    }
}
type Pf<S> = ParticleFilter<2, 1, S, Script<S>>;
/// A filter of two particles started from given draws.
fn start<S: Sc>(cx: &mut Cx<S>, units: Vec<S>, more: Vec<S>) -> (Pf<S>, [[S; 2]; 2], Rows<S, 2, 2>) {
    let mean: [S; 2] = cx.vars("m");
    let lower = |cx: &mut Cx<S>, n: &str| [[cx.var_open(&format!("{n}0"), 0.1, 3.0), S::ZERO], [cx.var(&format!("{n}1")), cx.var_open(&format!("{n}2"), 0.1, 3.0)]];
    let (l, q) = (lower(cx, "l"), lower(cx, "q"));
    let d: [S; 4] = cx.vars("d");
    let mut normals = d.to_vec();
    normals.extend(more);
    let f = Pf::from_random(2, Vector::new(mean), Matrix::new(mm(&l, &tr(&l))), Matrix::new(mm(&q, &tr(&q))), Script::new(units, normals));
    let Ok(f) = f else {
        cx.holds("built", false);
        cx.stop()
    };
    let at = std::array::from_fn(|i| add(&mean, &mv(&l, &[d[2 * i], d[2 * i + 1]])));
    (f, at, q)
}
fn cloud<S: Sc>(cx: &mut Cx<S>) {
    let more: [S; 4] = cx.vars("e");
    let (mut f, at, q) = start(cx, vec![], more.to_vec());
    for i in 0..2 {
        veq(cx, "initial draw", f.particles()[i], at[i]);
    }
    cx.eqs("even weights", f.weights(), &[S::HALF; 2]);
    cx.eq("all pull", f.effective_sample_size(), S::TWO);
    veq(cx, "mean", f.mean(), scale(&add(&at[0], &at[1]), S::HALF));
    let m = Shift(cx.var("s0"), cx.var("s1"), cx.var("s2"));
    if f.predict(&m).is_err() {
        return cx.holds("predicted", false);
    }
    for i in 0..2 {
        let moved: [S; 2] = m.eval(&at[i]);
        veq(cx, "moved with noise", f.particles()[i], add(&moved, &mv(&q, &[more[2 * i], more[2 * i + 1]])));
    }
    cx.eqs("weights kept", f.weights(), &[S::HALF; 2]);
}
/// Two readings in a row: each weight is multiplied by its score, the sum stays one, and the threshold decides.
fn weigh<S: Sc>(cx: &mut Cx<S>) {
    let (mut f, at, _) = start(cx, vec![], vec![]);
    f = f.with_resample_threshold(S::ZERO);
    let s: [S; 4] = cx.vars("score");
    let mut w = [S::HALF; 2];
    for step in 0..2 {
        let mut i = 2 * step;
        let r = f.update_with_log_weights(|_| {
            i += 1;
            s[i - 1]
        });
        cx.holds("weighed", r.is_ok());
        let raw = [w[0] * s[2 * step].exp(), w[1] * s[2 * step + 1].exp()];
        let g = f.weights();
        let (g0, g1) = (g[0], g[1]);
        cx.eq("proportional", g0 * raw[1], g1 * raw[0]);
        cx.eq("normalized", g0 + g1, S::ONE);
        w = [raw[0] / (raw[0] + raw[1]), raw[1] / (raw[0] + raw[1])];
    }
    for i in 0..2 {
        veq(cx, "particles stay", f.particles()[i], at[i]);
    }
    let (g0, g1) = (f.weights()[0], f.weights()[1]);
    cx.eq("effective size", f.effective_sample_size() * (g0 * g0 + g1 * g1), S::ONE);
    veq(cx, "mean", f.mean(), add(&scale(&at[0], g0), &scale(&at[1], g1)));
    if cx.ask(lt(S::c(1e-6), (g0 - g1).abs())) {
        let best = if cx.ask(lt(g0, g1)) { at[1] } else { at[0] };
        veq(cx, "heaviest", f.maximum_a_posteriori_state(), best);
    }
}
fn likelihood<S: Sc>(cx: &mut Cx<S>) {
    let (mut f, at, _) = start(cx, vec![], vec![]);
    f = f.with_resample_threshold(S::ZERO);
    let l = [[cx.var_open("n0", 0.2, 3.0), S::ZERO], [cx.var("n1"), cx.var_open("n2", 0.2, 3.0)]];
    let n = mm(&l, &tr(&l));
    let (p, z): ([S; 2], [S; 2]) = (cx.vars("p"), cx.vars("z"));
    let Ok(g) = GaussianLikelihood::new(Matrix::new(n)) else { return cx.holds("likelihood", false) };
    let d = n[0][0] * n[1][1] - n[0][1] * n[0][1];
    let r = sub(&z, &p);
    let quad = n[1][1] * r[0] * r[0] - S::TWO * n[0][1] * r[0] * r[1] + n[0][0] * r[1] * r[1];
    cx.eq("log weight", g.log_weight(&p, &z) * S::TWO * d, -quad);
    // through the filter: the same score for each particle's predicted reading
    let m = Shift(cx.var("s0"), cx.var("s1"), cx.var("s2"));
    let v = cx.var_open("noise", 0.2, 3.0);
    let Ok(g) = GaussianLikelihood::new(Matrix::new([[v * v]])) else { return cx.holds("scalar likelihood", false) };
    if f.update(&m, &g, Vector::new([z[0]])).is_err() {
        return cx.holds("updated", false);
    }
    let score = |x: &[S; 2]| {
        let [h]: [S; 1] = m.eval(x);
        -(z[0] - h) * (z[0] - h) / (S::TWO * v * v)
    };
    let (g0, g1) = (f.weights()[0], f.weights()[1]);
    let (a, b) = (score(&at[0]), score(&at[1]));
    // the ratio of the weights is exp of the difference of the scores
    let big = a.max(b);
    cx.eq("weights", g0 * (b - big).exp(), g1 * (a - big).exp());
    cx.eq("normalized", g0 + g1, S::ONE);
}
/// Below the threshold the cloud is redrawn evenly; at or above it nothing moves.
fn threshold<S: Sc>(cx: &mut Cx<S>) {
    let u = unit_draw(cx, "u");
    let rough = cx.choose(2) == 1;
    let e: [S; 4] = cx.vars("e");
    let (mut f, at, _) = start(cx, vec![u], e.to_vec());
    let t = cx.var_hint("threshold", 0.5, 2.5);
    f = f.with_resample_threshold(t);
    let k = cx.var_in("rough", 0.0, 1.0);
    if rough {
        f = f.with_roughening(k);
    }
    // weights 1/4 and 3/4, effective size 8/5
    let r = f.update_with_log_weights({
        let mut i = 0;
        move |_| {
            i += 1;
            if i == 1 { S::ONE.log() } else { S::c(3.0).log() }
        }
    });
    cx.holds("weighed", r.is_ok());
    cx.assume(lt(S::c(1e-6), (t - S::rat(8, 5)).abs()));
    if cx.ask(lt(t, S::rat(8, 5))) {
        cx.eqs("kept weights", f.weights(), &[S::rat(1, 4), S::rat(3, 4)]);
        for i in 0..2 {
            veq(cx, "kept", f.particles()[i], at[i]);
        }
        return;
    }
    cx.eqs("even again", f.weights(), &[S::HALF; 2]);
    // positions u/2 and (1+u)/2 against 1/4: the second is always the heavy one
    let first = cx.ask(lt(u, S::HALF));
    let drawn = [if first { at[0] } else { at[1] }, at[1]];
    let mut want = drawn;
    if rough {
        let mut used = 0;
        for axis in 0..2 {
            let reach = if first { (at[0][axis] - at[1][axis]).abs() } else { S::ZERO };
            if cx.ask(lt(S::ZERO, k * reach)) {
                for p in want.iter_mut() {
                    p[axis] = p[axis] + k * reach * e[used];
                    used += 1;
                }
            }
        }
    }
    for i in 0..2 {
        veq(cx, "redrawn", f.particles()[i], want[i]);
    }
}
fn pf_rejects<S: Sc>(cx: &mut Cx<S>) {
    let i = Matrix::<2, 2, S>::identity();
    let x = cx.any("x");
    let new = |p: Matrix<2, 2, S>, q: Matrix<2, 2, S>, n: usize| Pf::from_random(n, Vector::zeros(), p, q, Script::new(vec![], vec![S::HALF; 12]));
    let d = |v: S| Matrix::new([[S::ONE, S::ZERO], [S::ZERO, v]]);
    cx.holds("empty cloud", matches!(new(i, i, 0), Err(EstimationError::WeightsDegenerate)));
    if cx.ask(Prop::Fin(x)) {
        let ok = cx.ask(lt(S::ZERO, x));
        for r in [new(d(x), i, 2), new(i, d(x), 2)] {
            cx.holds("covariance", if ok { r.is_ok() } else { matches!(r, Err(EstimationError::NotPositiveDefinite)) });
        }
        let Ok(mut f) = new(i, i, 2) else { return cx.holds("built", false) };
        cx.holds("new process noise", f.set_process_noise(d(x)).is_ok() == ok);
        cx.holds("likelihood", GaussianLikelihood::new(Matrix::new([[x]])).is_ok() == ok);
        return;
    }
    let Ok(mut f) = new(i, i, 2) else { return cx.holds("built", false) };
    let m = Shift(S::ONE, S::ONE, S::ZERO);
    let Ok(g) = GaussianLikelihood::new(Matrix::new([[S::ONE]])) else { return cx.holds("likelihood", false) };
    cx.holds("reading", matches!(f.update(&m, &g, Vector::new([x])), Err(EstimationError::NonFinite)));
    cx.eqs("weights after a bad reading", f.weights(), &[S::HALF; 2]);
    // a score that is not a number explains nothing, and must not spoil the cloud
    let mut i = 0;
    let r = f.update_with_log_weights(|_| {
        i += 1;
        if i == 1 { x } else { S::ZERO }
    });
    match r {
        Err(e) => {
            cx.holds("degenerate", matches!(e, EstimationError::WeightsDegenerate));
            cx.eqs("weights after a bad score", f.weights(), &[S::HALF; 2]);
        }
        Ok(()) => cx.eq("weights sum to one", f.weights()[0] + f.weights()[1], S::ONE),
    }
    cx.holds("a moved particle is not finite", matches!(f.predict(&Shift(x, S::ONE, S::ZERO)), Err(EstimationError::NonFinite)));
}
pub fn all() -> Vec<Harness> {
    vec![
        h!("C19", resample, "ResamplingScheme::resample_indices, all four; 3 weights, any draws"),
        h!("C19", cloud, "ParticleFilter::from_random, predict, mean; 2 particles"),
        h!("C19", weigh, "ParticleFilter::update_with_log_weights twice; 2 particles, any scores"),
        h!("C19", likelihood, "GaussianLikelihood, ParticleFilter::update; any noise"),
        h!("C19", threshold, "ParticleFilter resampling threshold and roughening"),
        h!("C19", travel, "MonteCarloLocalizer::new, set_motion_noise, predict; 2 guesses", |x| { x.cfg.box_primal = true; }),
        h!("C19", scan, "MonteCarloLocalizer::update, beam scoring; 2 guesses, 2 beams, any map answers and readings"),
        h!("C19", answer, "MonteCarloLocalizer::estimate, is_converged; 2 guesses"),
        h!("C19", pf_rejects, "ParticleFilter refusals"),
    ]
}
/// A map that answers each beam from a list.
struct Beams<S> {
    answers: Vec<Option<S>>,
    asked: std::cell::RefCell<Vec<([S; 2], S, S)>>,
}
impl<S: Sc> OccupancyMap<S> for Beams<S> {
    fn columns(&self) -> usize {
        1
    }
    fn rows(&self) -> usize {
        1
    }
    fn resolution(&self) -> S {
        S::ONE
    }
    fn origin(&self) -> [S; 2] {
        [S::ZERO; 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
    fn cast_ray(&self, at: [S; 2], bearing: S, reach: S) -> Option<S> {
        let mut a = self.asked.borrow_mut();
        a.push((at, bearing, reach));
        self.answers[a.len() - 1]
    }
}
type Mcl<S> = MonteCarloLocalizer<2, S>;
fn travel<S: Sc>(cx: &mut Cx<S>) {
    let hint: [S; 3] = [cx.var("hint0"), cx.var("hint1"), cx.var_open("hint2", -3.0, 3.0)];
    let (sp, sh) = (cx.var_open("sp", 0.1, 2.0), cx.var_open("sh", 0.01, 0.2));
    let cloud = InitialParticleCloud { particle_count: 2, position_variance: sp * sp, heading_variance: sh * sh };
    let Ok(mut m) = Mcl::<S>::new(hint, cloud, BeamModel::default(), 11) else { return cx.holds("built", false) };
    cx.holds("guesses", m.particle_count() == 2 && m.particles().len() == 2);
    cx.eq("all pull", m.effective_sample_size(), S::TWO);
    let before = m.particles().to_vec();
    // the same draws with and without travel: the difference is the travel
    let q = cx.var_open("q", 0.01, 0.2);
    cx.holds("motion noise", m.set_motion_noise([q * q, q * q, q * q]).is_ok());
    let (mut a, mut b) = (m.clone(), m);
    let (d, t) = (cx.var("travel"), cx.var_open("turn", -1.0, 1.0));
    cx.holds("moved", a.predict(d, t).is_ok() && b.predict(S::ZERO, S::ZERO).is_ok());
    for i in 0..2 {
        let (x, y) = (a.particles()[i], b.particles()[i]);
        cx.eq("travel x", x[0] - y[0], d * before[i][2].cos());
        cx.eq("travel y", x[1] - y[1], d * before[i][2].sin());
        let turns = (x[2] - y[2] - t) / S::TWO_PI;
        cx.check("turn", eq(turns, turns.round()));
    }
}
fn scan<S: Sc>(cx: &mut Cx<S>) {
    let full = cx.thorough();
    let hint: [S; 3] = [cx.var("hint0"), cx.var("hint1"), if full { cx.var_open("hint2", -3.0, 3.0) } else { S::c(0.25) }];
    let cloud = InitialParticleCloud { particle_count: 2, position_variance: S::ONE, heading_variance: S::rat(1, 100) };
    let beam = BeamModel {
        range_deviation: if full { cx.var_open("dev", 0.1, 2.0) } else { S::HALF },
        agreement_reward: cx.var_open("reward", -2.0, 2.0),
        mismatch_penalty: cx.var_open("penalty", -2.0, 2.0),
    };
    let Ok(mut m) = Mcl::<S>::new(hint, cloud, beam, 11) else { return cx.holds("built", false) };
    let before = m.particles().to_vec();
    // the reading of each beam is within reach, out of reach, or at nothing sensible
    let kind = cx.choose(if full { 4 } else { 3 });
    let z = [
        if kind & 1 == 0 { cx.var_open("z0", 0.1, 4.9) } else { cx.var_open("z0", 5.1, 9.0) },
        if kind & 2 == 0 { cx.var_open("z1", 0.1, 4.9) } else { cx.var_open("z1", -2.0, -0.1) },
    ];
    let believed = [kind & 1 == 0, kind & 2 == 0];
    let r = [cx.var_open("r0", 0.0, 5.0), cx.var_open("r1", 0.0, 5.0)];
    let sees = cx.choose(4);
    let Ok(g) = ScanGeometry::<2, S>::try_new(S::ONE, S::c(5.0)) else { return cx.holds("geometry", false) };
    let answers = vec![if sees & 1 == 1 { Some(r[0]) } else { None }, None, None, if sees & 2 == 2 { Some(r[1]) } else { None }];
    let map = Beams { answers: answers.clone(), asked: Default::default() };
    cx.holds("updated", m.update(&z, &map, &g).is_ok());
    let asked = map.asked.borrow().clone();
    cx.holds("every guess casts every beam", asked.len() == 4);
    for (k, (at, bearing, reach)) in asked.iter().enumerate() {
        let p = before[k / 2];
        cx.eqs("cast from the guess", &[at[0], at[1], *bearing, *reach], &[p[0], p[1], p[2] + S::rat(2 * (k as i64 % 2) - 1, 2), S::c(5.0)]);
    }
    let mut score = [S::ZERO; 2];
    for k in 0..4 {
        score[k / 2] = score[k / 2]
            + match (answers[k], believed[k % 2]) {
                (Some(x), true) => {
                    let e = (x - z[k % 2]) / beam.range_deviation;
                    -S::HALF * e * e
                }
                (None, false) => beam.agreement_reward,
                _ => beam.mismatch_penalty,
            };
    }
    let e = [score[0].exp(), score[1].exp()];
    let sum = e[0] + e[1];
    cx.eq("size", m.effective_sample_size() * (e[0] * e[0] + e[1] * e[1]), sum * sum);
    if full || (kind == 0 && sees == 1) {
        // the weights, read back from where the mean sits between the two guesses
        let (p, _) = m.estimate();
        let (u, v) = (before[1][0] - p[0], p[0] - before[0][0]);
        cx.eq("weights as scored", u * e[1], v * e[0]);
    }
}
/// The answer is the weighted mean, with the heading averaged on the circle.
fn answer<S: Sc>(cx: &mut Cx<S>) {
    let hint: [S; 3] = [cx.var("x"), cx.var("y"), S::ZERO];
    let (sp, sh) = (cx.var_open("sp", 0.1, 2.0), cx.var_open("sh", 0.05, 0.2));
    let cloud = InitialParticleCloud { particle_count: 2, position_variance: sp * sp, heading_variance: sh * sh };
    let Ok(m) = MonteCarloLocalizer::<2, S>::new(hint, cloud, BeamModel::default(), 5) else { return cx.holds("built", false) };
    let g = m.particles();
    let half = |a: S, b: S| (a + b) * S::HALF;
    let (s, k) = (half(g[0][2].sin(), g[1][2].sin()), half(g[0][2].cos(), g[1][2].cos()));
    // both guesses face roughly ahead and apart
    cx.assume(and(vec![lt(S::HALF, g[0][2].cos()), lt(S::HALF, g[1][2].cos()), lt(s * s + k * k, S::c(1.0 - 1e-5))]));
    let (p, c) = m.estimate();
    cx.eqs("mean", &[p[0], p[1]], &[half(g[0][0], g[1][0]), half(g[0][1], g[1][1])]);
    let d: [S; 2] = std::array::from_fn(|i| half(g[0][i], -g[1][i]));
    cx.eqs("spread", &[c[(0, 0)], c[(0, 1)], c[(1, 0)], c[(1, 1)]], &[d[0] * d[0], d[0] * d[1], d[0] * d[1], d[1] * d[1]]);
    cx.eqs("no cross spread", &[c[(0, 2)], c[(1, 2)], c[(2, 0)], c[(2, 1)]], &[S::ZERO; 4]);
    // along the resultant of the two headings
    cx.eq("heading", p[2].sin() * k, p[2].cos() * s);
    cx.check("heading side", lt(S::ZERO, p[2].cos() * k + p[2].sin() * s));
    let r2 = s * s + k * k;
    let spread = c[(2, 2)];
    let long = S::ONE - spread * S::HALF;
    cx.check("heading spread", and(vec![eq(long * long, r2), lt(S::ZERO, long)]));
    let (a, b) = (cx.var("limit"), cx.var("turnlimit"));
    let settled = and(vec![lt(c[(0, 0)] + c[(1, 1)], a), lt(spread, b)]);
    let said = m.is_converged(a, b);
    cx.check("settled", if said { settled } else { not(settled) });
}
