//! Harness context: the same harness runs symbolically (Sym) and natively (f64, f32).
use crate::explore::*;
use crate::q::Q;
use crate::rf::Kind;
use crate::sym::{self, Sym};
use multicalc::{Numeric, Primal};
use std::collections::BTreeMap;
use std::fmt::Debug;

#[derive(Clone, Debug)]
pub enum Prop<S> {
    Lt(S, S),
    Le(S, S),
    Eq(S, S),
    Ne(S, S),
    And(Vec<Prop<S>>),
    Or(Vec<Prop<S>>),
    Not(Box<Prop<S>>),
    B(bool),
    Fin(S),
    Nan(S),
    /// identical bits up to the NaN payload; equality in real arithmetic
    Same(S, S),
}
pub fn lt<S>(a: S, b: S) -> Prop<S> {
    Prop::Lt(a, b)
}
pub fn le<S>(a: S, b: S) -> Prop<S> {
    Prop::Le(a, b)
}
pub fn gt<S>(a: S, b: S) -> Prop<S> {
    Prop::Lt(b, a)
}
pub fn ge<S>(a: S, b: S) -> Prop<S> {
    Prop::Le(b, a)
}
pub fn eq<S>(a: S, b: S) -> Prop<S> {
    Prop::Eq(a, b)
}
pub fn ne<S>(a: S, b: S) -> Prop<S> {
    Prop::Ne(a, b)
}
pub fn and<S>(v: Vec<Prop<S>>) -> Prop<S> {
    Prop::And(v)
}
pub fn or<S>(v: Vec<Prop<S>>) -> Prop<S> {
    Prop::Or(v)
}
pub fn not<S>(p: Prop<S>) -> Prop<S> {
    Prop::Not(Box::new(p))
}
pub fn implies<S>(a: Prop<S>, b: Prop<S>) -> Prop<S> {
    Prop::Or(vec![not(a), b])
}
pub fn near<S: Sc>(a: S, b: S, tol: f64) -> Prop<S> {
    let t = S::c(tol);
    Prop::And(vec![Prop::Le(a - b, t), Prop::Le(b - a, t)])
}
pub fn alleq<S: Copy>(a: &[S], b: &[S]) -> Prop<S> {
    assert_eq!(a.len(), b.len());
    Prop::And(a.iter().zip(b).map(|(x, y)| Prop::Eq(*x, *y)).collect())
}

pub trait Sc: Numeric<Constant = Self> + Primal + multicalc::random::RandomScalar + Copy + Debug + 'static {
    const SYM: bool;
    /// A constant with exactly this value.
    fn c(v: f64) -> Self;
    fn rat(n: i64, d: i64) -> Self;
    /// Carries the value through an `f64` slot that only ever reaches `from_f64`.
    fn f(self) -> f64;
    fn x_var(st: &mut St, name: &str, lo: f64, hi: f64, int: bool) -> Self;
    fn x_choose(st: &mut St, n: u32) -> u32;
    fn x_assume(st: &mut St, p: &Prop<Self>);
    fn x_check(st: &mut St, label: &str, p: &Prop<Self>);
    /// Run-time question answered by forking (symbolic) or evaluating.
    fn x_ask(st: &mut St, p: &Prop<Self>) -> bool;
    fn x_fresh_fn(st: &mut St, name: &str, args: &[Self]) -> Self;
}

/// State of a native run.
#[derive(Default, Clone)]
pub struct St {
    pub vars: BTreeMap<String, f64>,
    pub ranges: Vec<(String, f64, f64, bool)>,
    pub choices: Vec<u32>,
    pub choice_ix: usize,
    pub random_choices: bool,
    pub used_choices: Vec<u32>,
    pub failures: Vec<String>,
    pub passed: Vec<String>,
    pub tol: f64,
    pub rng: u64,
    pub tier_thorough: bool,
    pub wide: bool,
}

pub struct Cx<S: Sc> {
    pub st: St,
    pub _p: std::marker::PhantomData<S>,
}

pub fn to_fm(p: &Prop<Sym>) -> Fm {
    match p {
        Prop::Lt(a, b) => sym::cmp_fm(*a, *b, NEG),
        Prop::Le(a, b) => sym::cmp_fm(*a, *b, NEG | ZERO),
        Prop::Eq(a, b) => sym::cmp_fm(*a, *b, ZERO),
        Prop::Ne(a, b) => sym::cmp_fm(*a, *b, ZERO).not(),
        Prop::And(v) => {
            let mut o = vec![];
            for x in v {
                let f = to_fm(x);
                if f == Fm::F {
                    return Fm::F;
                }
                o.push(f);
            }
            Fm::and(o)
        }
        Prop::Or(v) => {
            let mut o = vec![];
            for x in v {
                let f = to_fm(x);
                if f == Fm::T {
                    return Fm::T;
                }
                o.push(f);
            }
            Fm::or(o)
        }
        Prop::Not(x) => to_fm(x).not(),
        Prop::B(b) => {
            if *b {
                Fm::T
            } else {
                Fm::F
            }
        }
        Prop::Fin(a) => sym::finite_fm(*a),
        Prop::Nan(a) => sym::nan_fm(*a),
        Prop::Same(a, b) => sym::same_fm(*a, *b),
    }
}

/// Generators stay concrete: a draw is the value the `f64` draw would have.
impl multicalc::random::RandomScalar for Sym {
    fn next_unit<R: multicalc::random::RandomSource<Sym> + ?Sized>(source: &mut R) -> Sym {
        sym::exact((source.next_u64() >> 11) as f64 * (1.0 / (1u64 << 53) as f64))
    }
}
impl Sc for Sym {
    const SYM: bool = true;
    fn c(v: f64) -> Sym {
        sym::exact(v)
    }
    fn rat(n: i64, d: i64) -> Sym {
        sym::rational(n, d)
    }
    fn f(self) -> f64 {
        sym::boxed(self)
    }
    fn x_var(_: &mut St, name: &str, lo: f64, hi: f64, int: bool) -> Sym {
        sym::new_var(name, lo, hi, int)
    }
    fn x_choose(_: &mut St, n: u32) -> u32 {
        eng(|e| e.choose(n))
    }
    fn x_assume(_: &mut St, p: &Prop<Sym>) {
        let f = to_fm(p);
        eng(|e| e.assume(&f));
    }
    fn x_check(_: &mut St, label: &str, p: &Prop<Sym>) {
        // conjunctions are split: each conjunct is its own query
        if let Prop::And(v) = p {
            for (i, q) in v.iter().enumerate() {
                Self::x_check_one(&if v.len() > 1 { format!("{label}[{i}]") } else { label.to_string() }, q);
            }
            return;
        }
        Self::x_check_one(label, p);
    }
    fn x_ask(_: &mut St, p: &Prop<Sym>) -> bool {
        let f = to_fm(p);
        eng(|e| e.decide(&f))
    }
    fn x_fresh_fn(_: &mut St, name: &str, args: &[Sym]) -> Sym {
        let rs = args.iter().map(|a| (*sym::nf(a.0)).clone()).collect();
        sym::leaf_atom(Kind::App(name.to_string(), rs))
    }
}
impl Sym {
    fn x_check_one(label: &str, q: &Prop<Sym>) {
        if std::env::var("SYMEX_DEBUG").is_ok() {
            eprintln!("  check {label}");
        }
        let conf = match q {
            Prop::Eq(a, b) if eng(|e| e.confirm && e.want_confirm(label)) => sym::confirm_query(*a, *b),
            _ => None,
        };
        let f = to_fm(q);
        eng(|e| e.check(label, &f, conf));
    }
}

fn tri_cmp(a: f64, b: f64, tol: f64, p: u8) -> Option<bool> {
    // p: 0 lt, 1 le, 2 eq
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    if a.is_infinite() || b.is_infinite() {
        return Some(match p {
            0 => a < b,
            1 => a <= b,
            _ => a == b,
        });
    }
    if tol == 0.0 {
        return Some(match p {
            0 => a < b,
            1 => a <= b,
            _ => a == b,
        });
    }
    let m = tol * (1.0 + a.abs().max(b.abs()));
    let d = a - b;
    match p {
        0 | 1 => {
            if d < -m {
                Some(true)
            } else if d > m {
                Some(false)
            } else {
                None
            }
        }
        _ => {
            if d.abs() > m {
                Some(false)
            } else {
                None
            }
        }
    }
}
/// Assumptions: inequalities exactly, equations to rounding.
pub fn assumed<S: Sc>(p: &Prop<S>, tol: f64) -> bool {
    match p {
        Prop::Eq(..) | Prop::Same(..) => tri(p, tol) != Some(false),
        Prop::And(v) => v.iter().all(|x| assumed(x, tol)),
        Prop::Or(v) => v.iter().any(|x| assumed(x, tol)),
        _ => tri(p, 0.0) == Some(true),
    }
}
pub fn tri<S: Sc>(p: &Prop<S>, tol: f64) -> Option<bool> {
    match p {
        Prop::Lt(a, b) => tri_cmp(a.to_f64(), b.to_f64(), tol, 0),
        Prop::Le(a, b) => tri_cmp(a.to_f64(), b.to_f64(), tol, 1),
        Prop::Eq(a, b) => tri_cmp(a.to_f64(), b.to_f64(), tol, 2),
        Prop::Ne(a, b) => tri_cmp(a.to_f64(), b.to_f64(), tol, 2).map(|b| !b),
        Prop::Same(a, b) => {
            let (a, b) = (a.to_f64(), b.to_f64());
            if a.is_nan() || b.is_nan() {
                Some(a.is_nan() && b.is_nan())
            } else if tol == 0.0 {
                Some(a.to_bits() == b.to_bits())
            } else {
                tri_cmp(a, b, tol, 2)
            }
        }
        Prop::And(v) => {
            let mut u = false;
            for x in v {
                match tri(x, tol) {
                    Some(false) => return Some(false),
                    None => u = true,
                    _ => {}
                }
            }
            if u { None } else { Some(true) }
        }
        Prop::Or(v) => {
            let mut u = false;
            for x in v {
                match tri(x, tol) {
                    Some(true) => return Some(true),
                    None => u = true,
                    _ => {}
                }
            }
            if u { None } else { Some(false) }
        }
        Prop::Not(x) => tri(x, tol).map(|b| !b),
        Prop::B(b) => Some(*b),
        Prop::Fin(a) => Some(a.to_f64().is_finite()),
        Prop::Nan(a) => Some(a.to_f64().is_nan()),
    }
}

macro_rules! native {
    ($t:ty) => {
        impl Sc for $t {
            const SYM: bool = false;
            fn c(v: f64) -> $t {
                v as $t
            }
            fn rat(n: i64, d: i64) -> $t {
                (n as f64 / d as f64) as $t
            }
            fn f(self) -> f64 {
                self as f64
            }
            fn x_var(st: &mut St, name: &str, lo: f64, hi: f64, int: bool) -> $t {
                if let Some(v) = st.vars.get(name) {
                    return *v as $t;
                }
                let v = if int {
                    (lo + (next_rand(&mut st.rng) as f64 % (hi - lo + 1.0)).floor()).clamp(lo, hi)
                } else if st.wide && next_rand(&mut st.rng) % 2 == 0 {
                    (nice(&mut st.rng, lo, hi) * 2.0).round() / 2.0
                } else {
                    nice(&mut st.rng, lo, hi)
                };
                st.vars.insert(name.to_string(), v);
                st.ranges.push((name.to_string(), lo, hi, int));
                v as $t
            }
            fn x_choose(st: &mut St, n: u32) -> u32 {
                let c = if st.choice_ix < st.choices.len() {
                    st.choices[st.choice_ix].min(n - 1)
                } else if st.random_choices {
                    (next_rand(&mut st.rng) >> 17) as u32 % n
                } else {
                    0
                };
                st.choice_ix += 1;
                st.used_choices.push(c);
                c
            }
            fn x_assume(st: &mut St, p: &Prop<$t>) {
                // equalities in assumptions hold to rounding
                if !assumed(p, if st.tol > 0.0 { 1e-12 } else { 0.0 }) {
                    abort(PathEnd::Infeasible);
                }
            }
            fn x_check(st: &mut St, label: &str, p: &Prop<$t>) {
                if let Prop::And(v) = p {
                    for (i, q) in v.iter().enumerate() {
                        let l = if v.len() > 1 { format!("{label}[{i}]") } else { label.to_string() };
                        if tri(q, st.tol) == Some(false) {
                            st.failures.push(format!("{l}: {:?}", q));
                        } else {
                            st.passed.push(l);
                        }
                    }
                    return;
                }
                if tri(p, st.tol) == Some(false) {
                    st.failures.push(format!("{label}: {:?}", p));
                } else {
                    st.passed.push(label.to_string());
                }
            }
            fn x_ask(_: &mut St, p: &Prop<$t>) -> bool {
                tri(p, 0.0).unwrap_or(false)
            }
            fn x_fresh_fn(st: &mut St, name: &str, args: &[$t]) -> $t {
                // a fixed smooth function per name
                let mut h = 7.0f64;
                for b in name.bytes() {
                    h = (h * 31.0 + b as f64) % 97.0;
                }
                let _ = st;
                let mut s = h / 97.0;
                for (i, a) in args.iter().enumerate() {
                    let x = *a as f64;
                    s += (0.3 + (i as f64) * 0.17 + h / 400.0) * x + 0.11 * x * x * ((i + 1) as f64);
                }
                s as $t
            }
        }
    };
}
native!(f64);
native!(f32);

impl<S: Sc> Cx<S> {
    pub fn new(st: St) -> Self {
        Cx { st, _p: std::marker::PhantomData }
    }
    pub fn thorough(&self) -> bool {
        self.st.tier_thorough
    }
    /// An unconstrained real input (sampling range [-4, 4]).
    pub fn var(&mut self, n: &str) -> S {
        S::x_var(&mut self.st, n, -4.0, 4.0, false)
    }
    /// Unconstrained, with a hint for the sampled values.
    pub fn var_hint(&mut self, n: &str, lo: f64, hi: f64) -> S {
        S::x_var(&mut self.st, n, lo, hi, false)
    }
    pub fn vars<const N: usize>(&mut self, n: &str) -> [S; N] {
        std::array::from_fn(|i| self.var(&format!("{n}{i}")))
    }
    pub fn mat<const R: usize, const C: usize>(&mut self, n: &str) -> [[S; C]; R] {
        std::array::from_fn(|i| std::array::from_fn(|j| self.var(&format!("{n}{i}_{j}"))))
    }
    /// lo <= x <= hi
    pub fn var_in(&mut self, n: &str, lo: f64, hi: f64) -> S {
        let v = S::x_var(&mut self.st, n, lo, hi, false);
        // the plain sign first: it settles |v| and sqrt(v^2) without the solver
        let mut f = vec![];
        if lo > 0.0 {
            f.push(lt(S::ZERO, v));
        } else if lo == 0.0 {
            f.push(le(S::ZERO, v));
        }
        if hi < 0.0 {
            f.push(lt(v, S::ZERO));
        }
        f.extend([le(S::c(lo), v), le(v, S::c(hi))]);
        self.assume(and(f));
        v
    }
    /// lo < x < hi
    pub fn var_open(&mut self, n: &str, lo: f64, hi: f64) -> S {
        let v = S::x_var(&mut self.st, n, lo, hi, false);
        // the plain sign first: it settles |v| and sqrt(v^2) without the solver
        let mut f = vec![];
        if lo > 0.0 {
            f.push(lt(S::ZERO, v));
        } else if lo == 0.0 {
            f.push(lt(S::ZERO, v));
        }
        if hi < 0.0 {
            f.push(lt(v, S::ZERO));
        }
        f.extend([lt(S::c(lo), v), lt(v, S::c(hi))]);
        self.assume(and(f));
        v
    }
    pub fn pos(&mut self, n: &str) -> S {
        let v = S::x_var(&mut self.st, n, 0.05, 4.0, false);
        self.assume(lt(S::ZERO, v));
        v
    }
    pub fn nonneg(&mut self, n: &str) -> S {
        let v = S::x_var(&mut self.st, n, 0.0, 4.0, false);
        self.assume(le(S::ZERO, v));
        v
    }
    pub fn nonzero(&mut self, n: &str) -> S {
        let v = self.var(n);
        self.assume(ne(v, S::ZERO));
        v
    }
    /// A finite value, NaN, or an infinity.
    pub fn any(&mut self, n: &str) -> S {
        match self.choose(4) {
            0 => self.var(n),
            1 => S::NAN,
            2 => S::INFINITY,
            _ => S::NEG_INFINITY,
        }
    }
    pub fn int(&mut self, n: &str, lo: i64, hi: i64) -> S {
        let v = S::x_var(&mut self.st, n, lo as f64, hi as f64, true);
        self.assume(and(vec![le(S::c(lo as f64), v), le(v, S::c(hi as f64))]));
        v
    }
    /// An unconstrained unit quaternion / vector of the given size.
    pub fn unit<const N: usize>(&mut self, n: &str) -> [S; N] {
        // stereographic-free: variables on the sphere, the last one a signed root
        let mut v: [S; N] = std::array::from_fn(|i| if i + 1 < N { S::x_var(&mut self.st, &format!("{n}{i}"), -0.55, 0.55, false) } else { S::ZERO });
        let mut s = S::ONE;
        for x in &v[..N - 1] {
            s = s - *x * *x;
        }
        self.assume(le(S::ZERO, s));
        let r = s.sqrt();
        v[N - 1] = if self.choose(2) == 0 { r } else { -r };
        v
    }
    pub fn choose(&mut self, n: u32) -> usize {
        S::x_choose(&mut self.st, n) as usize
    }
    pub fn assume(&mut self, p: Prop<S>) {
        S::x_assume(&mut self.st, &p)
    }
    pub fn check(&mut self, label: &str, p: Prop<S>) {
        S::x_check(&mut self.st, label, &p)
    }
    pub fn ask(&mut self, p: Prop<S>) -> bool {
        S::x_ask(&mut self.st, &p)
    }
    pub fn eq(&mut self, label: &str, a: S, b: S) {
        self.check(label, Prop::Eq(a, b))
    }
    pub fn same(&mut self, label: &str, a: S, b: S) {
        self.check(label, Prop::Same(a, b))
    }
    pub fn near(&mut self, label: &str, a: S, b: S, tol: f64) {
        self.check(label, near(a, b, tol))
    }
    pub fn eqs(&mut self, label: &str, a: &[S], b: &[S]) {
        self.check(&format!("{label}.len"), Prop::B(a.len() == b.len()));
        for (i, (x, y)) in a.iter().zip(b).enumerate() {
            self.check(&format!("{label}[{i}]"), Prop::Eq(*x, *y));
        }
    }
    pub fn holds(&mut self, label: &str, b: bool) {
        self.check(label, Prop::B(b))
    }
    /// An arbitrary (uninterpreted) function value.
    pub fn uf(&mut self, name: &str, args: &[S]) -> S {
        S::x_fresh_fn(&mut self.st, name, args)
    }
    /// End this path quietly.
    pub fn stop(&mut self) -> ! {
        abort(PathEnd::Infeasible)
    }
}
#[allow(unused)]
fn _q(_: Q) {}
