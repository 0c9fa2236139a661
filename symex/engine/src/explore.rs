//! Path exploration: decisions, path condition, solver queries.
use crate::poly::Poly;
use crate::q::Q;
use crate::rf::{self, Kind, Point, Rf, eval_rf};
use crate::smt::{Ans, Pool, Which, value_f64};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub const NEG: u8 = 1;
pub const ZERO: u8 = 2;
pub const POS: u8 = 4;
pub const ANY: u8 = 7;

pub fn flip(m: u8) -> u8 {
    (m & ZERO) | if m & NEG != 0 { POS } else { 0 } | if m & POS != 0 { NEG } else { 0 }
}

/// Key: factors with exponent parity (1 odd, 2 even).
pub type Key = Vec<(u32, u8)>;

#[derive(Clone, Debug, PartialEq)]
pub enum Fm {
    T,
    F,
    /// sign(product of factors) is in mask
    Lit(Rc<Key>, u8),
    /// literal over the floating-point term graph: node id, polarity
    Fp(u32, bool),
    And(Vec<Fm>),
    Or(Vec<Fm>),
}

impl Fm {
    pub fn not(&self) -> Fm {
        match self {
            Fm::T => Fm::F,
            Fm::F => Fm::T,
            Fm::Lit(k, m) => Fm::Lit(k.clone(), ANY & !m),
            Fm::Fp(n, p) => Fm::Fp(*n, !p),
            Fm::And(v) => Fm::Or(v.iter().map(|f| f.not()).collect()),
            Fm::Or(v) => Fm::And(v.iter().map(|f| f.not()).collect()),
        }
    }
    pub fn and(v: Vec<Fm>) -> Fm {
        let mut o = vec![];
        for f in v {
            match f {
                Fm::T => {}
                Fm::F => return Fm::F,
                Fm::And(w) => o.extend(w),
                f => o.push(f),
            }
        }
        match o.len() {
            0 => Fm::T,
            1 => o.pop().unwrap(),
            _ => Fm::And(o),
        }
    }
    pub fn or(v: Vec<Fm>) -> Fm {
        let mut o = vec![];
        for f in v {
            match f {
                Fm::F => {}
                Fm::T => return Fm::T,
                Fm::Or(w) => o.extend(w),
                f => o.push(f),
            }
        }
        match o.len() {
            0 => Fm::F,
            1 => o.pop().unwrap(),
            _ => Fm::Or(o),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dec {
    Bool(bool),
    Forced(bool),
    Choice(u32),
}

pub enum PathEnd {
    Infeasible,
    TooBig(String),
    Budget,
    Unsupported(String),
}

pub fn abort(e: PathEnd) -> ! {
    std::panic::panic_any(e)
}
pub fn abort_too_big(s: &str) -> ! {
    abort(PathEnd::TooBig(s.to_string()))
}

#[derive(Clone, Debug)]
pub struct Candidate {
    pub label: String,
    pub vars: BTreeMap<String, f64>,
    pub choices: Vec<u32>,
    pub why: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum DivZero {
    /// fork; the zero side yields infinities / NaN as IEEE does (unsigned zero)
    Fork,
    /// assume the divisor nonzero (recorded in the assumptions)
    Assume,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub div_zero: DivZero,
    pub feas_ms: u64,
    pub check_ms: u64,
    pub max_paths: usize,
    pub max_secs: f64,
    pub snap: bool,
    pub trig_base: i64,
    pub nsamples: usize,
    pub seed: u64,
    pub fp: Option<(u32, u32)>,
    pub fp_havoc: bool,
    pub abs_fork: bool,
    /// tie angles to their sines and cosines by polynomial inequalities
    pub arc: bool,
    /// a value leaving through `Primal` is carried to the `from_f64` it must go to untouched
    pub box_primal: bool,
    pub check_tol: f64,
    /// Cap on polynomial products.
    pub max_work: usize,
    /// machine epsilon is taken as zero, which real arithmetic makes it
    pub eps_zero: bool,
    /// values that depend on no input are rounded to double precision, as they are in the machine
    pub const_f64: bool,
    /// extra replay tries
    pub replay_tries: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            div_zero: DivZero::Fork,
            feas_ms: 400,
            check_ms: 15000,
            max_paths: 4000,
            max_secs: 240.0,
            snap: false,
            box_primal: false,
            trig_base: 2,
            nsamples: 24,
            seed: 1,
            fp: None,
            fp_havoc: false,
            abs_fork: false,
            arc: false,
            check_tol: 1e-7,
            max_work: 6_000_000,
            eps_zero: false,
            const_f64: false,
            replay_tries: 3000,
        }
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub paths: u64,
    pub paths_infeasible: u64,
    pub checks: u64,
    pub discharged_solver: u64,
    pub discharged_normal: u64,
    pub confirmed: u64,
    pub unknown: Vec<String>,
    pub witnessed: HashMap<String, u64>,
    pub unwitnessed: HashMap<String, u64>,
    pub decisions: u64,
    pub forced: u64,
    pub div_assumed: u64,
    pub errors: Vec<String>,
    pub lin_queries: u64,
    pub lin_unsat: u64,
    pub solver_queries: u64,
    pub solver_time: f64,
    pub answers: [u64; 3],
    pub solver_errors: u64,
    pub sample_desc: Vec<String>,
    pub crosscheck: u64,
    pub confirm_time: f64,
    pub confirm_sat: Vec<String>,
    pub confirm_count: HashMap<String, u32>,
    pub max_depth: u64,
}

pub struct Engine {
    pub cfg: Cfg,
    pub prefix: Vec<Dec>,
    pub trace: Vec<Dec>,
    pub work: Vec<Vec<Dec>>,
    pub pc: Vec<Fm>,
    pub facts: HashMap<u32, u8>,
    pub pfacts: HashMap<Key, u8>,
    pub fpfacts: HashMap<u32, bool>,
    pub samples: Vec<Point>,
    pub tried_model: bool,
    pub vars: Vec<(String, f64, f64, bool)>,
    pub choices: Vec<u32>,
    pub pool: Pool,
    pub stats: Stats,
    pub cands: Vec<Candidate>,
    pub rng: u64,
    pub confirm: bool,
    pub fp: crate::fp::FpArena,
}

thread_local! {
    pub static ENG: RefCell<Option<Engine>> = const { RefCell::new(None) };
}

pub fn eng<R>(f: impl FnOnce(&mut Engine) -> R) -> R {
    ENG.with(|e| f(e.borrow_mut().as_mut().expect("engine")))
}

pub fn next_rand(s: &mut u64) -> u64 {
    *s ^= *s << 13;
    *s ^= *s >> 7;
    *s ^= *s << 17;
    *s
}
/// A "nice" random value in [lo, hi].
pub fn nice(s: &mut u64, lo: f64, hi: f64) -> f64 {
    let r = (next_rand(s) % 4097) as f64 / 4096.0;
    let v = lo + (hi - lo) * r;
    if (hi - lo).abs() > 1e-3 { ((v * 4096.0).round() / 4096.0).clamp(lo, hi) } else { v }
}

impl Engine {
    pub fn new(cfg: Cfg) -> Engine {
        let rng = cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        Engine {
            cfg,
            prefix: vec![],
            trace: vec![],
            work: vec![],
            pc: vec![],
            facts: HashMap::new(),
            pfacts: HashMap::new(),
            fpfacts: HashMap::new(),
            samples: vec![],
            tried_model: false,
            vars: vec![],
            choices: vec![],
            pool: { let mut p = Pool::default(); p.logdir = std::env::var("SYMEX_LOG").ok(); p },
            stats: Stats::default(),
            cands: vec![],
            rng,
            confirm: true,
            fp: crate::fp::FpArena::default(),
        }
    }
    pub fn begin_path(&mut self, prefix: Vec<Dec>) {
        self.prefix = prefix;
        self.trace.clear();
        self.pc.clear();
        self.facts.clear();
        self.pfacts.clear();
        self.fpfacts.clear();
        self.vars.clear();
        self.choices.clear();
        self.tried_model = false;
        self.rng = self.cfg.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        self.samples = (0..self.cfg.nsamples).map(|_| Point::default()).collect();
    }
    pub fn add_var(&mut self, name: &str, lo: f64, hi: f64, int: bool) {
        if self.vars.iter().any(|v| v.0 == name) {
            return;
        }
        self.vars.push((name.to_string(), lo, hi, int));
        let mut rng = self.rng;
        for (i, s) in self.samples.iter_mut().enumerate() {
            // first sample: mid-range style values; later ones widen
            let v = if int {
                (lo + (next_rand(&mut rng) as f64 % (hi - lo + 1.0)).floor()).clamp(lo, hi)
            } else if i % 4 == 3 {
                nice(&mut rng, lo * 0.25 + hi * 0.75, hi)
            } else {
                nice(&mut rng, lo, hi)
            };
            s.vars.insert(name.to_string(), v);
        }
        self.rng = rng;
    }

    // ---- signs -------------------------------------------------------
    fn atom_mask(&self, k: &Kind) -> u8 {
        match k {
            Kind::Sqrt(_) | Kind::Abs(_) => ZERO | POS,
            Kind::Exp(_) | Kind::Pi => POS,
            _ => ANY,
        }
    }
    pub fn fac_mask(&self, f: u32) -> u8 {
        let known = self.facts.get(&f).copied().unwrap_or(ANY);
        if known.count_ones() == 1 {
            return known;
        }
        known & self.syn_mask(f)
    }
    fn atom_known(&self, a: u32) -> u8 {
        rf::with(|ar| {
            let m = self.atom_mask(&ar.atoms[a as usize].clone());
            let p = Poly::atom(a);
            match ar.fac_ix.get(&p) {
                Some(f) => m & self.facts.get(f).copied().unwrap_or(ANY),
                None => m,
            }
        })
    }
    fn syn_mask(&self, f: u32) -> u8 {
        let p = rf::with(|ar| ar.facs[f as usize].clone());
        if p.len() > 60 {
            return ANY;
        }
        let mut acc: Option<u8> = None;
        for (m, c) in &p.t {
            let mut t: u8 = if c.sign() > 0 { POS } else { NEG };
            for &(a, e) in m {
                let k = self.atom_known(a);
                let k = if e % 2 == 0 { (k & ZERO) | if k & (NEG | POS) != 0 { POS } else { 0 } } else { k };
                t = mask_mul(t, k);
                if t == ANY {
                    return ANY;
                }
            }
            acc = Some(match acc {
                None => t,
                Some(a) => mask_add(a, t),
            });
            if acc == Some(ANY) {
                return ANY;
            }
        }
        acc.unwrap_or(ZERO)
    }

    /// Literal: sign(r) in mask.
    pub fn lit(&mut self, r: &Rf, mask: u8) -> Fm {
        let mut mask = mask;
        if mask == ANY {
            return Fm::T;
        }
        if mask == 0 {
            return Fm::F;
        }
        if let Some(c) = r.num.as_const() {
            if c.is_zero() {
                return if mask & ZERO != 0 { Fm::T } else { Fm::F };
            }
        }
        let mut key: Key = vec![];
        let lc = r.num.lc().clone();
        if lc.sign() < 0 {
            mask = flip(mask);
        }
        let monic = r.num.scale(&lc.inv());
        let content = monic.mono_content();
        let body = monic.div_exact(&Poly { t: vec![(content.clone(), Q::ONE)] }).unwrap();
        rf::with(|ar| {
            for (a, e) in &content {
                let f = ar.fac(Poly::atom(*a));
                key.push((f, if e % 2 == 1 { 1 } else { 2 }));
            }
            if body.as_const().is_none() {
                // try to peel known factors off
                let mut rest = body.clone();
                if rest.len() >= 2 && rest.len() <= 400 {
                    let n = ar.facs.len();
                    for f in n.saturating_sub(60)..n {
                        let fp = ar.facs[f].clone();
                        if fp.len() < 2 || fp.len() >= rest.len() {
                            continue;
                        }
                        let mut e = 0;
                        while let Some(q) = rest.div_exact(&fp) {
                            rest = q;
                            e += 1;
                            if rest.as_const().is_some() {
                                break;
                            }
                        }
                        if e > 0 {
                            key.push((f as u32, if e % 2 == 1 { 1 } else { 2 }));
                        }
                        if rest.as_const().is_some() {
                            break;
                        }
                    }
                }
                if rest.as_const().is_none() {
                    let c = rest.lc().clone();
                    if c.sign() < 0 {
                        mask = flip(mask);
                    }
                    let rest = rest.scale(&c.inv());
                    let sq = if rest.len() >= 3 { rest.sqrt_exact() } else { None };
                    if let Some(s) = sq {
                        let l = s.lc().clone();
                        let f = ar.fac(s.scale(&l.inv()));
                        key.push((f, 2));
                    } else {
                        let f = ar.fac(rest);
                        key.push((f, 1));
                    }
                } else if rest.as_const().unwrap().sign() < 0 {
                    mask = flip(mask);
                }
            }
            for &(f, e) in &r.den {
                if e % 2 == 1 {
                    key.push((f, 1));
                }
            }
        });
        self.simp_key(key, mask)
    }
    fn simp_key(&mut self, key: Key, mask: u8) -> Fm {
        let mut mask = mask;
        let mut m: BTreeMap<u32, u8> = BTreeMap::new();
        for (f, e) in key {
            let x = m.entry(f).or_insert(0);
            *x += e;
        }
        let mut out: Key = vec![];
        for (f, e) in m {
            let k = self.fac_mask(f);
            if k == ZERO {
                return if mask & ZERO != 0 { Fm::T } else { Fm::F };
            }
            let odd = e % 2 == 1;
            if odd {
                if k == POS {
                    continue;
                }
                if k == NEG {
                    mask = flip(mask);
                    continue;
                }
                out.push((f, 1));
            } else {
                if k & ZERO == 0 {
                    continue;
                }
                out.push((f, 2));
            }
        }
        if out.is_empty() {
            return if mask & POS != 0 { Fm::T } else { Fm::F };
        }
        if mask == ZERO {
            return Fm::or(out.iter().map(|&(f, _)| Fm::Lit(Rc::new(vec![(f, 1)]), ZERO)).collect());
        }
        if mask == NEG | POS {
            return Fm::and(out.iter().map(|&(f, _)| Fm::Lit(Rc::new(vec![(f, 1)]), NEG | POS)).collect());
        }
        if out.len() == 1 {
            let (f, e) = out[0];
            if e == 2 {
                let m2 = (mask & ZERO) | if mask & POS != 0 { NEG | POS } else { 0 };
                if m2 == 0 {
                    return Fm::F;
                }
                if m2 == ANY {
                    return Fm::T;
                }
                return self.simp_single(f, m2);
            }
            return self.simp_single(f, mask);
        }
        if let Some(&k) = self.pfacts.get(&out) {
            if k & mask == 0 {
                return Fm::F;
            }
            if k & !mask == 0 {
                return Fm::T;
            }
        }
        Fm::Lit(Rc::new(out), mask)
    }
    fn simp_single(&mut self, f: u32, mask: u8) -> Fm {
        let k = self.fac_mask(f);
        if k & mask == 0 {
            return Fm::F;
        }
        if k & !mask == 0 {
            return Fm::T;
        }
        Fm::Lit(Rc::new(vec![(f, 1)]), mask)
    }
    pub fn simp(&mut self, f: &Fm) -> Fm {
        match f {
            Fm::Lit(k, m) => self.simp_key((**k).clone(), *m),
            Fm::Fp(n, p) => match self.fpfacts.get(n) {
                Some(v) => {
                    if v == p {
                        Fm::T
                    } else {
                        Fm::F
                    }
                }
                None => f.clone(),
            },
            Fm::And(v) => {
                let w = v.iter().map(|x| self.simp(x)).collect();
                Fm::and(w)
            }
            Fm::Or(v) => {
                let w = v.iter().map(|x| self.simp(x)).collect();
                Fm::or(w)
            }
            f => f.clone(),
        }
    }
    fn learn(&mut self, f: &Fm) {
        match f {
            Fm::Lit(k, m) => {
                if k.len() == 1 && k[0].1 == 1 {
                    let e = self.facts.entry(k[0].0).or_insert(ANY);
                    *e &= *m;
                } else {
                    let e = self.pfacts.entry((**k).clone()).or_insert(ANY);
                    *e &= *m;
                }
            }
            Fm::Fp(n, p) => {
                self.fpfacts.insert(*n, *p);
            }
            Fm::And(v) => {
                for x in v {
                    self.learn(x);
                }
            }
            _ => {}
        }
    }
    /// Some(true)/Some(false) when the sample decides it robustly.
    pub fn eval_fm(&self, f: &Fm, p: &Point) -> Option<bool> {
        match f {
            Fm::T => Some(true),
            Fm::F => Some(false),
            Fm::Fp(n, pol) => self.fp.eval_bool(*n, p).map(|b| b == *pol),
            Fm::Lit(k, m) => {
                let mut sign = 1i32;
                for &(f, e) in k.iter() {
                    let poly = rf::with(|ar| ar.facs[f as usize].clone());
                    let (v, mag) = rf::with(|ar| eval_rf(ar, p, &Rf { num: (*poly).clone(), den: vec![] }));
                    if !v.is_finite() {
                        return None;
                    }
                    if v == 0.0 && mag == 0.0 {
                        sign = 0;
                        break;
                    }
                    if v.abs() <= 1e-9 * mag.max(1e-300) {
                        return if self.exact_zero_ok(v) { Some(m & ZERO != 0) } else { None };
                    }
                    if e == 1 && v < 0.0 {
                        sign = -sign;
                    }
                }
                let b = match sign {
                    0 => ZERO,
                    1 => POS,
                    _ => NEG,
                };
                Some(m & b != 0)
            }
            Fm::And(v) => {
                let mut unk = false;
                for x in v {
                    match self.eval_fm(x, p) {
                        Some(false) => return Some(false),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk { None } else { Some(true) }
            }
            Fm::Or(v) => {
                let mut unk = false;
                for x in v {
                    match self.eval_fm(x, p) {
                        Some(true) => return Some(true),
                        None => unk = true,
                        _ => {}
                    }
                }
                if unk { None } else { Some(false) }
            }
        }
    }
    fn exact_zero_ok(&self, v: f64) -> bool {
        v == 0.0
    }
    pub fn assert_fm(&mut self, f: &Fm, to_pc: bool) {
        if *f == Fm::T {
            return;
        }
        if to_pc {
            self.pc.push(f.clone());
        }
        self.learn(f);
        let samples = std::mem::take(&mut self.samples);
        let kept: Vec<Point> = samples.into_iter().filter(|s| self.eval_fm(f, s) == Some(true)).collect();
        self.samples = kept;
    }
    /// Ask the solver for one point satisfying the path condition.
    pub fn refill(&mut self) {
        if !self.samples.is_empty() || self.tried_model {
            return;
        }
        self.tried_model = true;
        if let Ans::Sat(m) = self.query(&Fm::T, true, 2000, true) {
            let p = self.point_from(&m);
            // the solver knows transcendental functions only by bounds: its model may not be a real point
            if let Some(p) = p {
                let loose = rf::with(|ar| ar.atoms.iter().any(|k| matches!(k, Kind::Exp(_) | Kind::Log(_))));
                if !loose || !self.pc.iter().any(|c| self.eval_fm(c, &p) == Some(false)) {
                    self.samples.push(p);
                }
            }
        }
    }
    pub fn point_from(&self, m: &[(String, String)]) -> Option<Point> {
        let mut vars = HashMap::new();
        let mut rng = self.rng;
        for (n, lo, hi, int) in &self.vars {
            let key = format!("v_{}", n);
            let v = m.iter().find(|x| x.0 == key).and_then(|x| value_f64(&x.1));
            let v = match v {
                Some(v) => v,
                None => {
                    if *int {
                        *lo
                    } else {
                        nice(&mut rng, *lo, *hi)
                    }
                }
            };
            vars.insert(n.clone(), v);
        }
        Some(Point::new(vars))
    }

    // ---- SMT emission -------------------------------------------------
    fn key_atoms(&self, k: &Key, out: &mut BTreeSet<u32>) {
        rf::with(|ar| {
            for &(f, _) in k {
                ar.facs[f as usize].atoms(out);
            }
        });
    }
    pub fn fm_atoms(&self, f: &Fm, out: &mut BTreeSet<u32>) {
        match f {
            Fm::Lit(k, _) => self.key_atoms(k, out),
            Fm::And(v) | Fm::Or(v) => {
                for x in v {
                    self.fm_atoms(x, out);
                }
            }
            _ => {}
        }
    }
    pub fn smt_poly(ar: &rf::Arena, p: &Poly) -> String {
        let name = |a: u32| match &ar.atoms[a as usize] {
            Kind::IntVar(_) | Kind::Floor(_) => format!("(to_real {})", ar.name(a)),
            _ => ar.name(a),
        };
        let mut terms = vec![];
        for (m, c) in &p.t {
            let mut fs: Vec<String> = vec![];
            if !c.is_one() || m.is_empty() {
                fs.push(c.smt());
            }
            for &(a, e) in m {
                for _ in 0..e {
                    fs.push(name(a));
                }
            }
            terms.push(if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) });
        }
        match terms.len() {
            0 => "0.0".into(),
            1 => terms.pop().unwrap(),
            _ => format!("(+ {})", terms.join(" ")),
        }
    }
    pub fn smt_den(ar: &rf::Arena, r: &Rf) -> String {
        let mut fs = vec![];
        for &(f, e) in &r.den {
            for _ in 0..e {
                fs.push(Self::smt_poly(ar, &ar.facs[f as usize]));
            }
        }
        match fs.len() {
            0 => "1.0".into(),
            1 => fs.pop().unwrap(),
            _ => format!("(* {})", fs.join(" ")),
        }
    }
    fn smt_fm(&self, f: &Fm, o: &mut String) {
        match f {
            Fm::T => o.push_str("true"),
            Fm::F => o.push_str("false"),
            Fm::Fp(n, p) => {
                if !*p {
                    o.push_str("(not ");
                }
                o.push_str(&self.fp.bname(*n));
                if !*p {
                    o.push(')');
                }
            }
            Fm::Lit(k, m) => {
                let e = rf::with(|ar| {
                    let mut fs = vec![];
                    for &(f, e) in k.iter() {
                        let s = Self::smt_poly(ar, &ar.facs[f as usize]);
                        for _ in 0..e {
                            fs.push(s.clone());
                        }
                    }
                    if fs.len() == 1 { fs.pop().unwrap() } else { format!("(* {})", fs.join(" ")) }
                });
                let s = match *m {
                    NEG => format!("(< {} 0.0)", e),
                    ZERO => format!("(= {} 0.0)", e),
                    POS => format!("(> {} 0.0)", e),
                    3 => format!("(<= {} 0.0)", e),
                    6 => format!("(>= {} 0.0)", e),
                    5 => format!("(not (= {} 0.0))", e),
                    _ => "true".into(),
                };
                o.push_str(&s);
            }
            Fm::And(v) | Fm::Or(v) => {
                o.push_str(if matches!(f, Fm::And(_)) { "(and" } else { "(or" });
                for x in v {
                    o.push(' ');
                    self.smt_fm(x, o);
                }
                o.push(')');
            }
        }
    }
    /// Numeric bounds on a transcendental constant that involves no input.
    fn closed_bounds(ar: &mut rf::Arena, a: u32) -> String {
        if !matches!(ar.atoms[a as usize], Kind::Exp(_) | Kind::Log(_) | Kind::Sin(_) | Kind::Cos(_) | Kind::Atan2(..)) {
            return String::new();
        }
        let cl = ar.closure(&BTreeSet::from([a]));
        if cl.iter().any(|&b| matches!(ar.atoms[b as usize], Kind::Var(_) | Kind::IntVar(_) | Kind::App(..))) {
            return String::new();
        }
        let v = rf::eval_atom(ar, &rf::Point::default(), a);
        if !v.is_finite() || v.abs() > 1e100 {
            return String::new();
        }
        let e = 1e-9 * v.abs() + 1e-12;
        let n = ar.name(a);
        format!("(assert (and (<= {} {n}) (<= {n} {})))\n", Q::from_f64(v - e).smt(), Q::from_f64(v + e).smt())
    }
    /// Declarations and defining constraints for the atoms; also returns the input names.
    pub fn smt_decls(&self, atoms: &BTreeSet<u32>) -> (String, Vec<String>, bool) {
        let mut s = String::new();
        let mut vals = vec![];
        let mut ints = false;
        let cl = rf::with(|ar| ar.closure(atoms));
        let arc = self.cfg.arc;
        rf::with(|ar| {
            for &a in &cl {
                let n = ar.name(a);
                match ar.atoms[a as usize].clone() {
                    Kind::Var(_) => {
                        s.push_str(&format!("(declare-fun {} () Real)\n", n));
                        vals.push(n);
                    }
                    Kind::IntVar(_) => {
                        ints = true;
                        s.push_str(&format!("(declare-fun {} () Int)\n", n));
                        vals.push(n);
                    }
                    Kind::Floor(_) => {
                        ints = true;
                        s.push_str(&format!("(declare-fun {} () Int)\n", n));
                    }
                    _ => s.push_str(&format!("(declare-fun {} () Real)\n", n)),
                }
            }
            let mut ax = String::new();
            for &a in &cl {
                ax.push_str(&Self::closed_bounds(ar, a));
            }
            let quot = |ar: &rf::Arena, r: &Rf, nm: &str, ax: &mut String| -> String {
                if r.den.is_empty() {
                    Self::smt_poly(ar, &r.num)
                } else {
                    let q = format!("q_{}", nm);
                    ax.push_str(&format!(
                        "(declare-fun {q} () Real)\n(assert (= (* {q} {}) {}))\n",
                        Self::smt_den(ar, r),
                        Self::smt_poly(ar, &r.num)
                    ));
                    q
                }
            };
            for &a in &cl {
                let n = ar.name(a);
                match ar.atoms[a as usize].clone() {
                    Kind::Sqrt(r) => {
                        let num = Self::smt_poly(ar, &r.num);
                        ax.push_str(&format!("(assert (>= {n} 0.0))\n"));
                        if r.den.is_empty() {
                            ax.push_str(&format!("(assert (= (* {n} {n}) {num}))\n"));
                        } else {
                            ax.push_str(&format!("(assert (= (* {n} {n} {}) {num}))\n", Self::smt_den(ar, &r)));
                        }
                    }
                    Kind::Abs(r) => {
                        let q = quot(ar, &r, &n, &mut ax);
                        ax.push_str(&format!("(assert (and (>= {n} 0.0) (or (= {n} {q}) (= {n} (- {q})))))\n"));
                    }
                    Kind::Cbrt(r) => {
                        let q = quot(ar, &r, &n, &mut ax);
                        ax.push_str(&format!("(assert (= (* {n} {n} {n}) {q}))\n"));
                    }
                    Kind::Cos(r) => {
                        let sn = ar.atom_ix.get(&Kind::Sin(r.clone())).map(|&b| ar.name(b));
                        if let Some(sn) = sn {
                            ax.push_str(&format!("(assert (= (+ (* {n} {n}) (* {sn} {sn})) 1.0))\n"));
                            if let Some(x) = ar.third(&r) {
                                // the whole is in (-pi, pi), so the third is inside +-60 degrees
                                let w = ar.name(r.num.t[0].0[0].0);
                                let q = quot(ar, &x, &format!("{n}w"), &mut ax);
                                ax.push_str(&format!(
                                    "(assert (= (* 4.0 {n} {n} {n}) (+ (* 3.0 {n}) {q})))\n(assert (>= {n} 0.5))\n(assert (=> (< {q} 1.0) (< {n} 1.0)))\n(assert (=> (> {q} (- 1.0)) (> {n} 0.5)))\n(assert (=> (> {w} 0.0) (> {sn} 0.0)))\n(assert (=> (< {w} 0.0) (< {sn} 0.0)))\n"
                                ));
                            }
                            if arc {
                                let q = quot(ar, &r, &n, &mut ax);
                                ax.push_str(&format!(
                                    "(assert (<= (* {sn} {sn}) (* {q} {q})))\n(assert (=> (and (< 0.0 {q}) (< {q} 3.14159265358979)) (< 0.0 {sn})))\n(assert (=> (and (< {q} 0.0) (< (- 3.14159265358979) {q})) (< {sn} 0.0)))\n(assert (=> (and (< (- 1.57079632679489) {q}) (< {q} 1.57079632679489)) (and (< 0.0 {n}) (>= {n} (- 1.0 (/ (* {q} {q}) 2.0))) (>= (* {sn} {sn}) (* {q} {q} {n} {n})))))\n"
                                ));
                            }
                        }
                    }
                    Kind::Exp(r) => {
                        let q = quot(ar, &r, &n, &mut ax);
                        ax.push_str(&format!("(assert (and (> {n} 0.0) (>= {n} (+ 1.0 {q}))))\n(assert (=> (<= {q} 0.0) (<= {n} 1.0)))\n(assert (=> (< {q} 0.0) (< {n} 1.0)))\n"));
                    }
                    Kind::Log(r) => {
                        let q = quot(ar, &r, &n, &mut ax);
                        ax.push_str(&format!("(assert (<= {n} (- {q} 1.0)))\n(assert (=> (> {q} 1.0) (> {n} 0.0)))\n(assert (=> (< {q} 1.0) (< {n} 0.0)))\n"));
                    }
                    Kind::Pi => {
                        ax.push_str(&format!("(assert (and (< 3.14159265358979 {n}) (< {n} 3.1415926535898)))\n"));
                    }
                    Kind::Atan2(y, x) => {
                        let qy = quot(ar, &y, &format!("{n}y"), &mut ax);
                        let qx = quot(ar, &x, &format!("{n}x"), &mut ax);
                        let (pi, hf) = match ar.atom_ix.get(&Kind::Pi) {
                            Some(&b) => (ar.name(b), format!("(/ {} 2.0)", ar.name(b))),
                            None => ("3.1415926535898".to_string(), "1.5707963267949".to_string()),
                        };
                        ax.push_str(&format!(
                            "(assert (and (<= (- {pi}) {n}) (<= {n} {pi})))\n(assert (=> (> {qy} 0.0) (and (> {n} 0.0) (< {n} {pi}))))\n(assert (=> (< {qy} 0.0) (and (< {n} 0.0) (< (- {pi}) {n}))))\n(assert (=> (and (= {qy} 0.0) (< {qx} 0.0)) (= {n} {pi})))\n(assert (=> (and (= {qy} 0.0) (> {qx} 0.0)) (= {n} 0.0)))\n(assert (=> (> {qx} 0.0) (and (< {n} {hf}) (< (- {hf}) {n}))))\n(assert (=> (< {qx} 0.0) (or (> {n} 1.57079632679489) (< {n} (- 1.57079632679489)))))\n"
                        ));
                        if arc {
                            // |sin a| <= |a| everywhere; |a| <= (pi/2)|sin a| and |a| <= |tan a| in the right half plane
                            ax.push_str(&format!(
                                "(assert (>= (* {n} {n} (+ (* {qx} {qx}) (* {qy} {qy}))) (* {qy} {qy})))\n(assert (=> (> {qx} 0.0) (<= (* {n} {n} (+ (* {qx} {qx}) (* {qy} {qy}))) (* 2.4674011002724 {qy} {qy}))))\n(assert (=> (> {qx} 0.0) (<= (* {n} {n} {qx} {qx}) (* {qy} {qy}))))\n"
                            ));
                        }
                    }
                    Kind::Floor(r) => {
                        let q = quot(ar, &r, &n, &mut ax);
                        ax.push_str(&format!("(assert (and (<= (to_real {n}) {q}) (< {q} (+ 1.0 (to_real {n})))))\n"));
                    }
                    _ => {}
                }
            }
            s.push_str(&ax);
        });
        (s, vals, ints)
    }
    fn slice(&self, f: &Fm) -> Vec<Fm> {
        // transitively connected path-condition conjuncts
        let mut have = BTreeSet::new();
        self.fm_atoms(f, &mut have);
        let mut have = rf::with(|ar| ar.closure(&have));
        let mut rest: Vec<(Fm, BTreeSet<u32>)> = self
            .pc
            .iter()
            .map(|p| {
                let mut s = BTreeSet::new();
                self.fm_atoms(p, &mut s);
                (p.clone(), rf::with(|ar| ar.closure(&s)))
            })
            .collect();
        let mut out = vec![];
        loop {
            let mut changed = false;
            let mut keep = vec![];
            for (p, s) in rest {
                let hit = s.iter().any(|a| have.contains(a) && !rf::with(|ar| matches!(ar.atoms[*a as usize], Kind::Pi)));
                if hit {
                    have.extend(s.iter().copied());
                    out.push(p);
                    changed = true;
                } else {
                    keep.push((p, s));
                }
            }
            rest = keep;
            if !changed {
                break;
            }
        }
        out
    }
    pub fn build(&self, f: &Fm, full: bool) -> (String, Vec<String>, bool) {
        let pcs = if full { self.pc.clone() } else { self.slice(f) };
        let mut atoms = BTreeSet::new();
        self.fm_atoms(f, &mut atoms);
        for p in &pcs {
            self.fm_atoms(p, &mut atoms);
        }
        let (mut s, vals, ints) = self.smt_decls(&atoms);
        for p in pcs.iter().chain(std::iter::once(f)) {
            if *p == Fm::T {
                continue;
            }
            s.push_str("(assert ");
            self.smt_fm(p, &mut s);
            s.push_str(")\n");
        }
        (s, vals, ints)
    }
    // ---- linear abstraction: every product of atoms is an independent real ----
    fn lin_poly(ar: &rf::Arena, p: &Poly, ms: &mut BTreeMap<crate::poly::Mono, String>) -> String {
        let mut terms = vec![];
        for (m, c) in &p.t {
            let deg: u32 = m.iter().map(|x| x.1).sum();
            let v = match deg {
                0 => None,
                1 => Some(ar.name(m[0].0)),
                _ => {
                    let k = ms.len();
                    Some(ms.entry(m.clone()).or_insert_with(|| format!("mn_{k}")).clone())
                }
            };
            terms.push(match v {
                None => c.smt(),
                Some(v) if c.is_one() => v,
                Some(v) => format!("(* {} {})", c.smt(), v),
            });
        }
        match terms.len() {
            0 => "0.0".into(),
            1 => terms.pop().unwrap(),
            _ => format!("(+ {})", terms.join(" ")),
        }
    }
    fn rel(e: &str, m: u8) -> String {
        match m {
            NEG => format!("(< {} 0.0)", e),
            ZERO => format!("(= {} 0.0)", e),
            POS => format!("(> {} 0.0)", e),
            3 => format!("(<= {} 0.0)", e),
            6 => format!("(>= {} 0.0)", e),
            5 => format!("(not (= {} 0.0))", e),
            _ => "true".into(),
        }
    }
    fn lin_fm(&self, f: &Fm, o: &mut String, ms: &mut BTreeMap<crate::poly::Mono, String>) {
        match f {
            Fm::T | Fm::Fp(..) => o.push_str("true"),
            Fm::F => o.push_str("false"),
            Fm::Lit(k, m) => {
                let es: Vec<String> = rf::with(|ar| k.iter().map(|&(f, _)| Self::lin_poly(ar, &ar.facs[f as usize].clone(), ms)).collect());
                if es.len() == 1 && k[0].1 == 1 {
                    o.push_str(&Self::rel(&es[0], *m));
                    return;
                }
                if es.len() > 4 {
                    o.push_str("true");
                    return;
                }
                // sign combinations of the factors
                let signs = [NEG, ZERO, POS];
                let mut alts = vec![];
                for c in 0..3usize.pow(es.len() as u32) {
                    let (mut x, mut acc, mut parts) = (c, POS, vec![]);
                    for (i, e) in es.iter().enumerate() {
                        let s = signs[x % 3];
                        x /= 3;
                        let s2 = if k[i].1 % 2 == 0 && s == NEG { POS } else { s };
                        acc = mask_mul(acc, s2);
                        parts.push(Self::rel(e, s));
                    }
                    if acc & *m != 0 {
                        alts.push(format!("(and {})", parts.join(" ")));
                    }
                }
                if alts.is_empty() {
                    o.push_str("false");
                } else {
                    o.push_str(&format!("(or {})", alts.join(" ")));
                }
            }
            Fm::And(v) | Fm::Or(v) => {
                o.push_str(if matches!(f, Fm::And(_)) { "(and" } else { "(or" });
                for x in v {
                    o.push(' ');
                    self.lin_fm(x, o, ms);
                }
                o.push(')');
            }
        }
    }
    /// None when the query is already linear or has integers.
    fn lin_build(&self, f: &Fm, full: bool) -> Option<String> {
        let pcs = if full { self.pc.clone() } else { self.slice(f) };
        let mut atoms = BTreeSet::new();
        self.fm_atoms(f, &mut atoms);
        for p in &pcs {
            self.fm_atoms(p, &mut atoms);
        }
        let cl = rf::with(|ar| ar.closure(&atoms));
        let mut ms: BTreeMap<crate::poly::Mono, String> = BTreeMap::new();
        let mut ax = String::new();
        let mut decl = String::new();
        let ok = rf::with(|ar| {
            for &a in &cl {
                let n = ar.name(a);
                decl.push_str(&format!("(declare-fun {} () Real)\n", n));
                ax.push_str(&Self::closed_bounds(ar, a));
                let k = ar.atoms[a as usize].clone();
                match &k {
                    Kind::IntVar(_) | Kind::Floor(_) => return false,
                    Kind::Sqrt(r) => {
                        ax.push_str(&format!("(assert (>= {n} 0.0))\n"));
                        let mut p = Poly::atom(a).pow(2);
                        for &(f, e) in &r.den {
                            p = p.mul(&ar.facs[f as usize].pow(e));
                        }
                        let p = p.sub(&r.num);
                        let t = Self::lin_poly(ar, &p, &mut ms);
                        ax.push_str(&format!("(assert (= {t} 0.0))\n"));
                    }
                    Kind::Abs(r) => {
                        if r.den.is_empty() {
                            let q = Self::lin_poly(ar, &r.num, &mut ms);
                            ax.push_str(&format!("(assert (and (>= {n} 0.0) (or (= {n} {q}) (= {n} (- {q})))))\n"));
                        } else {
                            ax.push_str(&format!("(assert (>= {n} 0.0))\n"));
                        }
                    }
                    Kind::Cos(r) => {
                        if let Some(&b) = ar.atom_ix.get(&Kind::Sin(r.clone())) {
                            let p = Poly::atom(a).pow(2).add(&Poly::atom(b).pow(2)).sub(&Poly::one());
                            let t = Self::lin_poly(ar, &p, &mut ms);
                            ax.push_str(&format!("(assert (= {t} 0.0))\n"));
                        }
                    }
                    Kind::Exp(_) => ax.push_str(&format!("(assert (> {n} 0.0))\n")),
                    Kind::Pi => ax.push_str(&format!("(assert (and (< 3.14159265358979 {n}) (< {n} 3.1415926535898)))\n")),
                    _ => {}
                }
            }
            true
        });
        if !ok {
            return None;
        }
        let mut body = String::new();
        for p in pcs.iter().chain(std::iter::once(f)) {
            if *p == Fm::T {
                continue;
            }
            body.push_str("(assert ");
            self.lin_fm(p, &mut body, &mut ms);
            body.push_str(")\n");
        }
        if ms.is_empty() {
            return None;
        }
        let mut lem = String::new();
        for (m, n) in &ms {
            decl.push_str(&format!("(declare-fun {} () Real)\n", n));
            let mut t = POS;
            for &(a, e) in m {
                let k = self.atom_known(a);
                let k = if e % 2 == 0 { (k & ZERO) | if k & (NEG | POS) != 0 { POS } else { 0 } } else { k };
                t = mask_mul(t, k);
            }
            if t != ANY {
                lem.push_str(&format!("(assert {})\n", Self::rel(n, t)));
            } else if m.len() == 2 && ms.len() <= 40 && m[0].1 == 1 && m[1].1 == 1 {
                let (x, y) = rf::with(|ar| (ar.name(m[0].0), ar.name(m[1].0)));
                lem.push_str(&format!("(assert (= (> {n} 0.0) (or (and (> {x} 0.0) (> {y} 0.0)) (and (< {x} 0.0) (< {y} 0.0)))))\n(assert (= (= {n} 0.0) (or (= {x} 0.0) (= {y} 0.0))))\n"));
            }
        }
        Some(format!("{decl}{ax}{lem}{body}"))
    }
    /// Is pc ∧ f satisfiable?
    pub fn query(&mut self, f: &Fm, full: bool, ms: u64, quick: bool) -> Ans {
        if *f == Fm::F {
            return Ans::Unsat;
        }
        if self.cfg.fp.is_some() {
            return self.fp_query(f, ms, quick);
        }
        let (s, vals, ints) = self.build(f, full);
        if s.len() > 3_000_000 {
            return Ans::Unknown;
        }
        if let Some(l) = self.lin_build(f, full) {
            self.stats.lin_queries += 1;
            if self.pool.run(Which::Z3New, "QF_LRA", &l, &[], if quick { ms.min(300) } else { 1500 }) == Ans::Unsat {
                self.stats.lin_unsat += 1;
                return Ans::Unsat;
            }
        }
        let logic = if ints { "QF_NIRA" } else { "QF_NRA" };
        let logic_z = if ints { "ALL" } else { "QF_NRA" };
        if quick {
            return self.pool.run(Which::Z3New, logic_z, &s, &vals, ms);
        }
        let plan: &[(Which, u64)] =
            &[(Which::Z3New, ms / 8), (Which::Cvc5, ms / 4), (Which::Z3Old, ms / 4), (Which::Z3New, ms), (Which::Cvc5, ms)];
        for &(w, t) in plan {
            let l = if w == Which::Cvc5 { logic } else { logic_z };
            match self.pool.run(w, l, &s, &vals, t.max(200)) {
                Ans::Unknown => {}
                a => return a,
            }
        }
        Ans::Unknown
    }
    fn fp_query(&mut self, f: &Fm, ms: u64, quick: bool) -> Ans {
        let (s, vals) = self.fp_build(f);
        if quick {
            return self.pool.run(Which::Z3New, "QF_FP", &s, &vals, ms);
        }
        for &(w, t) in &[(Which::Z3New, ms / 4), (Which::Cvc5, ms / 2), (Which::Z3New, ms)] {
            match self.pool.run(w, "QF_FP", &s, &vals, t.max(500)) {
                Ans::Unknown => {}
                a => return a,
            }
        }
        Ans::Unknown
    }
    fn fp_build(&self, f: &Fm) -> (String, Vec<String>) {
        let mut roots = vec![];
        fn coll(f: &Fm, r: &mut Vec<u32>) {
            match f {
                Fm::Fp(n, _) => r.push(*n),
                Fm::And(v) | Fm::Or(v) => v.iter().for_each(|x| coll(x, r)),
                _ => {}
            }
        }
        coll(f, &mut roots);
        for p in &self.pc {
            coll(p, &mut roots);
        }
        let (mut s, vals) = self.fp.emit(&roots, self.cfg.fp.unwrap());
        for p in self.pc.iter().chain(std::iter::once(f)) {
            if *p == Fm::T {
                continue;
            }
            s.push_str("(assert ");
            self.smt_fm(p, &mut s);
            s.push_str(")\n");
        }
        (s, vals)
    }

    // ---- decisions ----------------------------------------------------
    pub fn decide(&mut self, f: &Fm) -> bool {
        let f = self.simp(f);
        match f {
            Fm::T => return true,
            Fm::F => return false,
            _ => {}
        }
        self.stats.decisions += 1;
        let nf = f.not();
        if self.trace.len() < self.prefix.len() {
            let d = self.prefix[self.trace.len()];
            self.trace.push(d);
            let (b, forced) = match d {
                Dec::Bool(b) => (b, false),
                Dec::Forced(b) => (b, true),
                Dec::Choice(_) => panic!("decision replay diverged"),
            };
            let g = if b { &f } else { &nf };
            self.assert_fm(g, !forced);
            return b;
        }
        self.refill();
        let mut t = false;
        let mut e = false;
        for s in &self.samples {
            match self.eval_fm(&f, s) {
                Some(true) => t = true,
                Some(false) => e = true,
                None => {}
            }
            if t && e {
                break;
            }
        }
        let ms = self.cfg.feas_ms;
        let mut tu = false;
        let mut eu = false;
        if !t {
            tu = self.query(&f, false, ms, true) == Ans::Unsat;
        }
        if !tu && !e {
            eu = self.query(&nf, false, ms, true) == Ans::Unsat;
        }
        if tu || eu {
            // one side impossible
            let b = eu;
            self.stats.forced += 1;
            self.trace.push(Dec::Forced(b));
            let g = if b { f } else { nf };
            self.assert_fm(&g, false);
            return b;
        }
        // both feasible (or not excluded)
        let mut alt = self.trace.clone();
        alt.push(Dec::Bool(false));
        self.work.push(alt);
        self.trace.push(Dec::Bool(true));
        self.assert_fm(&f, true);
        true
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        if self.trace.len() < self.prefix.len() {
            let d = self.prefix[self.trace.len()];
            self.trace.push(d);
            if let Dec::Choice(c) = d {
                self.choices.push(c);
                return c;
            }
            panic!("decision replay diverged");
        }
        for c in (1..n).rev() {
            let mut alt = self.trace.clone();
            alt.push(Dec::Choice(c));
            self.work.push(alt);
        }
        self.trace.push(Dec::Choice(0));
        self.choices.push(0);
        0
    }
    pub fn assume(&mut self, f: &Fm) {
        let f = self.simp(f);
        match f {
            Fm::T => return,
            Fm::F => abort(PathEnd::Infeasible),
            _ => {}
        }
        self.assert_fm(&f, true);
        if self.samples.is_empty() {
            self.resample();
        }
    }
    /// Rejection-sample the inputs again under the present path condition.
    fn resample(&mut self) {
        let pc = self.pc.clone();
        let mut rng = self.rng;
        for _ in 0..400 {
            let mut vars = HashMap::new();
            for (n, lo, hi, int) in &self.vars {
                let v = if *int { (lo + (next_rand(&mut rng) as f64 % (hi - lo + 1.0)).floor()).clamp(*lo, *hi) } else { nice(&mut rng, *lo, *hi) };
                vars.insert(n.clone(), v);
            }
            let p = Point::new(vars);
            if pc.iter().all(|f| self.eval_fm(f, &p) == Some(true)) {
                self.samples.push(p);
                if self.samples.len() >= 6 {
                    break;
                }
            }
        }
        self.rng = rng;
    }
    fn cand(&mut self, label: &str, p: &Point, why: &str) {
        let vars = p.vars.iter().map(|(k, v)| (k.clone(), *v)).collect();
        if self.cands.iter().filter(|c| c.label == label).count() < 6 {
            self.cands.push(Candidate { label: label.into(), vars, choices: self.choices.clone(), why: why.into() });
        }
    }
    /// Decide whether pc entails `prop`.
    pub fn check(&mut self, label: &str, prop: &Fm, confirm_smt: Option<String>) {
        self.stats.checks += 1;
        self.refill();
        let w = !self.samples.is_empty();
        if w {
            *self.stats.witnessed.entry(label.into()).or_insert(0) += 1;
            if self.stats.sample_desc.len() < 3 {
                let mut v: Vec<_> = self.samples[0].vars.iter().collect();
                v.sort_by(|a, b| a.0.cmp(b.0));
                let d = v.iter().map(|(k, x)| format!("{}={}", k, x)).collect::<Vec<_>>().join(",");
                self.stats.sample_desc.push(format!("{} @ {} choices={:?}", label, d, self.choices));
            }
        } else {
            *self.stats.unwitnessed.entry(label.into()).or_insert(0) += 1;
        }
        let p = self.simp(prop);
        if p == Fm::T {
            self.stats.discharged_normal += 1;
            if self.confirm {
                if let Some(body) = confirm_smt {
                    let t0 = std::time::Instant::now();
                    match self.pool.run(Which::Z3New, "QF_NRA", &body, &[], 1000) {
                        Ans::Unsat => self.stats.confirmed += 1,
                        Ans::Sat(_) => self.stats.confirm_sat.push(label.into()),
                        Ans::Unknown => {}
                    }
                    self.stats.confirm_time += t0.elapsed().as_secs_f64();
                }
            }
            return;
        }
        let neg = p.not();
        // a sample that already violates it?
        let mut bad = None;
        for s in &self.samples {
            if self.eval_fm(&neg, s) == Some(true) {
                bad = Some(s.clone());
                break;
            }
        }
        if let Some(s) = bad {
            self.cand(label, &s, "solver-guided sample satisfies path condition and negated property");
            return;
        }
        if std::env::var("SYMEX_DEBUG").is_ok() {
            eprintln!("check {label}: asking solver, pc={}", self.pc.len());
        }
        let ms = self.cfg.check_ms;
        match self.query(&neg, false, ms, false) {
            Ans::Unsat => self.stats.discharged_solver += 1,
            Ans::Sat(m) => {
                // confirm with the whole path condition
                let a = self.query(&neg, true, ms, false);
                match a {
                    Ans::Unsat => self.stats.discharged_solver += 1,
                    Ans::Sat(m2) => {
                        if let Some(p) = self.point_from(&m2) {
                            self.cand(label, &p, "solver model");
                        }
                        // a better separated model, if the solver finds one
                        if let Some(p) = self.point_from(&m) {
                            self.cand(label, &p, "solver model (sliced)");
                        }
                    }
                    Ans::Unknown => {
                        if let Some(p) = self.point_from(&m) {
                            self.cand(label, &p, "solver model (sliced)");
                        }
                    }
                }
            }
            Ans::Unknown => {
                let l = format!("{label}: solver gave up");
                if self.stats.unknown.len() < 20 {
                    self.stats.unknown.push(l);
                }
            }
        }
    }
    pub fn want_confirm(&mut self, label: &str) -> bool {
        if self.stats.confirm_time > 12.0 {
            return false;
        }
        let c = self.stats.confirm_count.entry(label.into()).or_insert(0);
        *c += 1;
        *c <= 2
    }
    pub fn panic_candidate(&mut self, msg: &str) {
        // feasible?
        self.refill();
        let label = format!("panic: {msg}");
        if let Some(s) = self.samples.first().cloned() {
            self.cand(&label, &s, "panic on a feasible path");
            return;
        }
        match self.query(&Fm::T, true, self.cfg.check_ms, false) {
            Ans::Unsat => {}
            Ans::Sat(m) => {
                if let Some(p) = self.point_from(&m) {
                    self.cand(&label, &p, "panic on a feasible path");
                }
            }
            Ans::Unknown => self.stats.unknown.push(label),
        }
    }
}

fn mask_mul(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        for y in [NEG, ZERO, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZERO || y == ZERO {
                    ZERO
                } else if x == y {
                    POS
                } else {
                    NEG
                };
            }
        }
    }
    r
}
fn mask_add(a: u8, b: u8) -> u8 {
    let mut r = 0;
    for x in [NEG, ZERO, POS] {
        for y in [NEG, ZERO, POS] {
            if a & x != 0 && b & y != 0 {
                r |= if x == ZERO {
                    y
                } else if y == ZERO || x == y {
                    x
                } else {
                    ANY
                };
            }
        }
    }
    r
}
