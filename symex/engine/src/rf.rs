//! Rational-function normal forms over atoms (inputs, roots, trigonometric pairs, ...).
use crate::poly::{Mono, Poly};
use crate::q::Q;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rf {
    pub num: Poly,
    /// (factor id, exponent), sorted by id.
    pub den: Vec<(u32, u32)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    /// Free input.
    Var(String),
    /// Integer-valued input.
    IntVar(String),
    Pi,
    Sqrt(Rf),
    Abs(Rf),
    Cbrt(Rf),
    Cos(Rf),
    Sin(Rf),
    /// cos / sin of half an atan2 angle
    Exp(Rf),
    Log(Rf),
    Atan2(Rf, Rf),
    Floor(Rf),
    /// Uninterpreted: a named function of its arguments.
    App(String, Vec<Rf>),
}

pub struct Arena {
    pub atoms: Vec<Kind>,
    pub atom_ix: HashMap<Kind, u32>,
    pub facs: Vec<Rc<Poly>>,
    pub fac_ix: HashMap<Rc<Poly>, u32>,
    pub max_work: usize,
    /// trig base: angles are multiples of (monomial / trig_base)
    pub trig_base: i64,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
    static MAXW: std::cell::Cell<usize> = const { std::cell::Cell::new(6_000_000) };
}
pub fn max_work() -> usize {
    MAXW.with(|m| m.get())
}
pub fn set_max_work(n: usize) {
    MAXW.with(|m| m.set(n));
}

pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R {
    ARENA.with(|a| f(&mut a.borrow_mut()))
}

impl Rf {
    pub fn zero() -> Rf {
        Rf { num: Poly::zero(), den: vec![] }
    }
    pub fn poly(p: Poly) -> Rf {
        Rf { num: p, den: vec![] }
    }
    pub fn constant(q: Q) -> Rf {
        Rf::poly(Poly::constant(q))
    }
    pub fn as_const(&self) -> Option<Q> {
        if self.den.is_empty() { self.num.as_const() } else { None }
    }
    pub fn is_zero(&self) -> bool {
        self.num.is_zero()
    }
    pub fn neg(&self) -> Rf {
        Rf { num: self.num.neg(), den: self.den.clone() }
    }
}

impl Default for Arena {
    fn default() -> Self {
        Self::new()
    }
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            atoms: vec![],
            atom_ix: HashMap::new(),
            facs: vec![],
            fac_ix: HashMap::new(),
            max_work: 6_000_000,
            trig_base: 2,
        }
    }
    pub fn atom(&mut self, k: Kind) -> u32 {
        if let Some(&i) = self.atom_ix.get(&k) {
            return i;
        }
        let i = self.atoms.len() as u32;
        self.atoms.push(k.clone());
        self.atom_ix.insert(k, i);
        i
    }
    pub fn fac(&mut self, p: Poly) -> u32 {
        if let Some(&i) = self.fac_ix.get(&p) {
            return i;
        }
        let i = self.facs.len() as u32;
        let r = Rc::new(p);
        self.facs.push(r.clone());
        self.fac_ix.insert(r, i);
        i
    }
    /// (degree, replacement) when atom^degree rewrites.
    fn relation(&mut self, a: u32) -> Option<(u32, Rf)> {
        match self.atoms[a as usize].clone() {
            Kind::Sqrt(r) => Some((2, r)),
            Kind::Abs(r) => {
                let s = self.mul(&r, &r);
                Some((2, s))
            }
            Kind::Cbrt(r) => Some((3, r)),
            Kind::Sin(u) => {
                let c = self.atom(Kind::Cos(u));
                let c2 = Poly { t: vec![(vec![(c, 2)], Q::int(-1)), (vec![], Q::ONE)] };
                Some((2, Rf::poly(c2)))
            }
            // a third of an atan2 angle: 4c^3 = 3c + cos of the whole
            Kind::Cos(u) => {
                let x = self.third(&u)?;
                let c = Rf::poly(Poly::atom(a).scale(&Q::new(3, 4)));
                let q = Rf { num: x.num.scale(&Q::new(1, 4)), den: x.den };
                Some((3, self.add(&c, &q)))
            }
            _ => None,
        }
    }
    /// The cosine of the whole angle when `u` is a third of a normalized atan2 angle.
    pub fn third(&self, u: &Rf) -> Option<Rf> {
        if !u.den.is_empty() || u.num.len() != 1 {
            return None;
        }
        let (m, q) = &u.num.t[0];
        if m.len() != 1 || m[0].1 != 1 || *q != Q::new(1, 3) {
            return None;
        }
        match &self.atoms[m[0].0 as usize] {
            Kind::Atan2(_, x) => Some(x.clone()),
            _ => None,
        }
    }
    fn rel_degree(&self, a: u32) -> Option<u32> {
        match &self.atoms[a as usize] {
            Kind::Sqrt(_) | Kind::Abs(_) | Kind::Sin(_) => Some(2),
            Kind::Cbrt(_) => Some(3),
            Kind::Cos(u) if self.third(u).is_some() => Some(3),
            _ => None,
        }
    }
    /// Rewrites powers of related atoms.
    pub fn reduce(&mut self, p: Poly) -> Rf {
        // highest atom needing reduction
        let mut best: Option<(u32, u32)> = None;
        for (m, _) in &p.t {
            for &(a, e) in m {
                if let Some(k) = self.rel_degree(a) {
                    if e >= k && best.is_none_or(|b| a > b.0) {
                        best = Some((a, k));
                    }
                }
            }
        }
        let Some((a, k)) = best else { return Rf::poly(p) };
        let (_, r) = self.relation(a).unwrap();
        let mut groups: Vec<Vec<(Mono, Q)>> = vec![];
        for (m, c) in p.t {
            let e = m.iter().find(|x| x.0 == a).map_or(0, |x| x.1);
            let q = (e / k) as usize;
            while groups.len() <= q {
                groups.push(vec![]);
            }
            let rest: Mono = m
                .iter()
                .filter_map(|&(b, x)| if b == a { if e % k > 0 { Some((a, e % k)) } else { None } } else { Some((b, x)) })
                .collect();
            groups[q].push((rest, c));
        }
        let mut acc = Rf::zero();
        let mut rp = Rf::constant(Q::ONE);
        for (q, g) in groups.into_iter().enumerate() {
            if q > 0 {
                rp = self.mul(&rp, &r);
            }
            if g.is_empty() {
                continue;
            }
            let mut map: HashMap<Mono, Q> = HashMap::new();
            for (m, c) in g {
                let e = map.entry(m).or_insert(Q::ZERO);
                *e = e.add(&c);
            }
            let gp = Rf::poly(Poly::from_map(map));
            let gp = self.reduce_rf(gp);
            let t = self.mul(&gp, &rp);
            acc = self.add(&acc, &t);
        }
        acc
    }
    fn reduce_rf(&mut self, r: Rf) -> Rf {
        if r.den.is_empty() {
            self.reduce(r.num)
        } else {
            let n = self.reduce(r.num);
            self.finish(n.num, merge(&n.den, &r.den))
        }
    }
    fn finish(&mut self, num: Poly, den: Vec<(u32, u32)>) -> Rf {
        if num.is_zero() {
            return Rf::zero();
        }
        let mut num = num;
        let mut out = Vec::with_capacity(den.len());
        for (f, mut e) in den {
            let fp = self.facs[f as usize].clone();
            while e > 0 {
                match num.div_exact(&fp) {
                    Some(q) => {
                        num = q;
                        e -= 1;
                    }
                    None => break,
                }
            }
            if e > 0 {
                out.push((f, e));
            }
        }
        Rf { num, den: out }
    }
    pub fn mul(&mut self, a: &Rf, b: &Rf) -> Rf {
        if a.is_zero() || b.is_zero() {
            return Rf::zero();
        }
        if let Some(q) = a.as_const() {
            return Rf { num: b.num.scale(&q), den: b.den.clone() };
        }
        if let Some(q) = b.as_const() {
            return Rf { num: a.num.scale(&q), den: a.den.clone() };
        }
        // cancel cross factors first
        let (n1, d2) = self.cancel(&a.num, &b.den);
        let (n2, d1) = self.cancel(&b.num, &a.den);
        let p = n1.mul(&n2);
        let r = self.reduce(p);
        if r.den.is_empty() && d1.is_empty() && d2.is_empty() {
            return r;
        }
        let den = merge(&merge(&d1, &d2), &r.den);
        self.finish(r.num, den)
    }
    fn cancel(&mut self, n: &Poly, den: &[(u32, u32)]) -> (Poly, Vec<(u32, u32)>) {
        let r = self.finish(n.clone(), den.to_vec());
        (r.num, r.den)
    }
    pub fn add(&mut self, a: &Rf, b: &Rf) -> Rf {
        if a.is_zero() {
            return b.clone();
        }
        if b.is_zero() {
            return a.clone();
        }
        if a.den == b.den {
            let n = a.num.add(&b.num);
            if a.den.is_empty() {
                return Rf { num: n, den: vec![] };
            }
            return self.finish(n, a.den.clone());
        }
        // lcm
        let mut den: Vec<(u32, u32)> = vec![];
        let (mut ma, mut mb) = (Poly::one(), Poly::one());
        let (mut i, mut j) = (0, 0);
        while i < a.den.len() || j < b.den.len() {
            let fa = a.den.get(i).map_or(u32::MAX, |x| x.0);
            let fb = b.den.get(j).map_or(u32::MAX, |x| x.0);
            let f = fa.min(fb);
            let ea = if fa == f { a.den[i].1 } else { 0 };
            let eb = if fb == f { b.den[j].1 } else { 0 };
            let e = ea.max(eb);
            let fp = self.facs[f as usize].clone();
            if e > ea {
                ma = ma.mul(&fp.pow(e - ea));
            }
            if e > eb {
                mb = mb.mul(&fp.pow(e - eb));
            }
            den.push((f, e));
            if fa == f {
                i += 1;
            }
            if fb == f {
                j += 1;
            }
        }
        let x = self.reduce(a.num.mul(&ma));
        let y = self.reduce(b.num.mul(&mb));
        if x.den.is_empty() && y.den.is_empty() {
            self.finish(x.num.add(&y.num), den)
        } else {
            let s = self.add(&x, &y);
            self.finish(s.num, merge(&s.den, &den))
        }
    }
    pub fn sub(&mut self, a: &Rf, b: &Rf) -> Rf {
        let nb = b.neg();
        self.add(a, &nb)
    }
    /// 1/p as a rational function (p assumed nonzero).
    pub fn recip_poly(&mut self, p: &Poly) -> Rf {
        let content = p.mono_content();
        let body = p.div_exact(&Poly { t: vec![(content.clone(), Q::ONE)] }).unwrap();
        let mut num = Rf::constant(Q::ONE);
        let mut den: Vec<(u32, u32)> = vec![];
        for (a, e) in content {
            match self.relation(a) {
                Some((2, r)) if !matches!(self.atoms[a as usize], Kind::Sin(_)) => {
                    // 1/a = a / r
                    let rr = self.recip(&r);
                    let one_over = self.mul(&Rf::poly(Poly::atom(a)), &rr);
                    for _ in 0..e {
                        num = self.mul(&num, &one_over);
                    }
                }
                Some((3, r)) if matches!(self.atoms[a as usize], Kind::Cbrt(_)) => {
                    let rr = self.recip(&r);
                    let a2 = Rf::poly(Poly { t: vec![(vec![(a, 2)], Q::ONE)] });
                    let one_over = self.mul(&a2, &rr);
                    for _ in 0..e {
                        num = self.mul(&num, &one_over);
                    }
                }
                _ => {
                    let f = self.fac(Poly::atom(a));
                    den = merge(&den, &[(f, e)]);
                }
            }
        }
        let mut rest = body;
        if rest.as_const().is_none() {
            let n = self.facs.len();
            for f in (n.saturating_sub(400)..n).rev() {
                let fp = self.facs[f].clone();
                if fp.len() > rest.len() || fp.as_const().is_some() {
                    continue;
                }
                while let Some(q) = rest.div_exact(&fp) {
                    rest = q;
                    den = merge(&den, &[(f as u32, 1)]);
                    if rest.as_const().is_some() {
                        break;
                    }
                }
                if rest.as_const().is_some() {
                    break;
                }
            }
        }
        let lc = rest.lc().clone();
        num = Rf { num: num.num.scale(&lc.inv()), den: num.den };
        if rest.as_const().is_none() {
            let monic = rest.scale(&lc.inv());
            // perfect square?
            if let Some(s) = if monic.len() >= 3 { monic.sqrt_exact() } else { None } {
                let f = self.fac(s);
                den = merge(&den, &[(f, 2)]);
            } else {
                let f = self.fac(monic);
                den = merge(&den, &[(f, 1)]);
            }
        }
        self.finish(num.num.clone(), merge(&num.den, &den))
    }
    pub fn recip(&mut self, a: &Rf) -> Rf {
        let mut r = self.recip_poly(&a.num);
        for &(f, e) in &a.den {
            let fp = self.facs[f as usize].clone();
            for _ in 0..e {
                r = self.mul(&r, &Rf::poly((*fp).clone()));
            }
        }
        r
    }
    pub fn div(&mut self, a: &Rf, b: &Rf) -> Rf {
        if let Some(q) = b.as_const() {
            return Rf { num: a.num.scale(&q.inv()), den: a.den.clone() };
        }
        let r = self.recip(b);
        self.mul(a, &r)
    }
    pub fn powi(&mut self, a: &Rf, e: u32) -> Rf {
        let mut r = Rf::constant(Q::ONE);
        for _ in 0..e {
            r = self.mul(&r, a);
        }
        r
    }
    /// Transitive closure of atoms reachable from a poly.
    pub fn closure(&mut self, start: &BTreeSet<u32>) -> BTreeSet<u32> {
        let mut seen = BTreeSet::new();
        let mut work: Vec<u32> = start.iter().copied().collect();
        while let Some(a) = work.pop() {
            if !seen.insert(a) {
                continue;
            }
            let k = self.atoms[a as usize].clone();
            let mut push = |r: &Rf, s: &Arena| {
                let mut o = BTreeSet::new();
                r.num.atoms(&mut o);
                for &(f, _) in &r.den {
                    s.facs[f as usize].atoms(&mut o);
                }
                work.extend(o);
            };
            match &k {
                Kind::Sqrt(r) | Kind::Abs(r) | Kind::Cbrt(r) | Kind::Exp(r) | Kind::Log(r) | Kind::Floor(r) => push(r, self),
                Kind::Cos(r) => {
                    let s = self.atom(Kind::Sin(r.clone()));
                    push(r, self);
                    work.push(s);
                }
                Kind::Sin(r) => {
                    let s = self.atom(Kind::Cos(r.clone()));
                    push(r, self);
                    work.push(s);
                }
                Kind::Atan2(y, x) => {
                    push(y, self);
                    push(x, self);
                    if let Some(&b) = self.atom_ix.get(&Kind::Pi) {
                        work.push(b);
                    }
                }
                Kind::App(_, rs) => {
                    for r in rs {
                        push(r, self);
                    }
                }
                _ => {}
            }
        }
        seen
    }
    pub fn atoms_of(&self, r: &Rf, out: &mut BTreeSet<u32>) {
        r.num.atoms(out);
        for &(f, _) in &r.den {
            self.facs[f as usize].atoms(out);
        }
    }
    pub fn name(&self, a: u32) -> String {
        match &self.atoms[a as usize] {
            Kind::Var(n) | Kind::IntVar(n) => format!("v_{}", n),
            Kind::Pi => "pi_c".into(),
            Kind::Sqrt(_) => format!("sqrt_{}", a),
            Kind::Abs(_) => format!("abs_{}", a),
            Kind::Cbrt(_) => format!("cbrt_{}", a),
            Kind::Cos(_) => format!("cos_{}", a),
            Kind::Sin(_) => format!("sin_{}", a),
            Kind::Exp(_) => format!("exp_{}", a),
            Kind::Log(_) => format!("log_{}", a),
            Kind::Atan2(..) => format!("atan_{}", a),
            Kind::Floor(_) => format!("floor_{}", a),
            Kind::App(n, _) => format!("app_{}_{}", n, a),
        }
    }
}

pub fn merge(a: &[(u32, u32)], b: &[(u32, u32)]) -> Vec<(u32, u32)> {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        match a[i].0.cmp(&b[j].0) {
            std::cmp::Ordering::Less => {
                r.push(a[i]);
                i += 1;
            }
            std::cmp::Ordering::Greater => {
                r.push(b[j]);
                j += 1;
            }
            std::cmp::Ordering::Equal => {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1;
            }
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

/// Concrete values of atoms for one sample point.
#[derive(Clone, Default, Debug)]
pub struct Point {
    pub vars: HashMap<String, f64>,
    pub memo: RefCell<HashMap<u32, f64>>,
}

impl Point {
    pub fn new(vars: HashMap<String, f64>) -> Point {
        Point { vars, memo: RefCell::new(HashMap::new()) }
    }
}

pub fn eval_atom(ar: &Arena, p: &Point, a: u32) -> f64 {
    if let Some(v) = p.memo.borrow().get(&a) {
        return *v;
    }
    let v = match &ar.atoms[a as usize] {
        Kind::Var(n) | Kind::IntVar(n) => p.vars.get(n).copied().unwrap_or(f64::NAN),
        Kind::Pi => std::f64::consts::PI,
        Kind::Sqrt(r) => eval_rf(ar, p, r).0.max(0.0).sqrt(),
        Kind::Abs(r) => eval_rf(ar, p, r).0.abs(),
        Kind::Cbrt(r) => eval_rf(ar, p, r).0.cbrt(),
        Kind::Cos(r) => eval_rf(ar, p, r).0.cos(),
        Kind::Sin(r) => eval_rf(ar, p, r).0.sin(),
        Kind::Exp(r) => eval_rf(ar, p, r).0.exp(),
        Kind::Log(r) => eval_rf(ar, p, r).0.ln(),
        Kind::Atan2(y, x) => eval_rf(ar, p, y).0.atan2(eval_rf(ar, p, x).0),
        Kind::Floor(r) => eval_rf(ar, p, r).0.floor(),
        Kind::App(_, _) => f64::NAN,
    };
    p.memo.borrow_mut().insert(a, v);
    v
}

/// (value, magnitude) — magnitude bounds the rounding of the value.
pub fn eval_rf(ar: &Arena, p: &Point, r: &Rf) -> (f64, f64) {
    let (mut v, mut m) = r.num.eval(&|a| eval_atom(ar, p, a));
    for &(f, e) in &r.den {
        let (d, dm) = ar.facs[f as usize].eval(&|a| eval_atom(ar, p, a));
        if d.abs() < 1e-13 * dm {
            return (f64::NAN, f64::INFINITY);
        }
        let k = d.abs().powi(e as i32);
        v /= d.powi(e as i32);
        m /= k;
    }
    (v, m)
}
