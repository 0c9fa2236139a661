//! The symbolic scalar the library's generic code is executed at.
use crate::explore::*;
use crate::fp::T as F;
use crate::poly::Poly;
use crate::q::Q;
use crate::rf::{self, Kind, Rf};
use multicalc::{Numeric, Primal};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::ops::*;
use std::rc::Rc;

#[derive(Clone, Copy)]
pub struct Sym(pub u32);

impl std::fmt::Debug for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "@{}", self.0)
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Nan,
    Inf,
    NInf,
    Leaf(Rf),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    /// floating-point mode: term in the FP arena
    Fp(u32),
}

pub struct Syms {
    nodes: Vec<Node>,
    ix: HashMap<Node, u32>,
    nf: Vec<Option<Rc<Rf>>>,
}

thread_local! {
    static SY: RefCell<Syms> = RefCell::new(Syms { nodes: vec![], ix: HashMap::new(), nf: vec![] });
    static MODE_FP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HAVOC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

const C_NAN: u32 = 13;
const C_INF: u32 = 14;
const C_NINF: u32 = 15;

fn is_fp() -> bool {
    MODE_FP.with(|m| m.get())
}

/// Fresh arenas for a new path.
pub fn reset(cfg: &Cfg) {
    MODE_FP.with(|m| m.set(cfg.fp.is_some()));
    HAVOC.with(|m| m.set(cfg.fp_havoc));
    rf::set_max_work(cfg.max_work);
    rf::ARENA.with(|a| {
        *a.borrow_mut() = rf::Arena::new();
        a.borrow_mut().trig_base = cfg.trig_base;
    });
    let eps = if cfg.eps_zero && cfg.fp.is_none() { 0.0 } else { f64::EPSILON };
    let cs = [
        0.0, 1.0, 2.0, 3.0, 0.5, 10.0, 100.0, 180.0,
        std::f64::consts::PI, 2.0 * std::f64::consts::PI,
        eps, 4.0 * eps, 30.0 * eps,
        f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE,
    ];
    let cs32 = {
        let e = f32::EPSILON as f64;
        let mut c = cs;
        c[8] = std::f32::consts::PI as f64;
        c[9] = (std::f32::consts::PI * 2.0) as f64;
        c[10] = e;
        c[11] = 4.0 * e;
        c[12] = 30.0 * e;
        c[16] = f32::MAX as f64;
        c[17] = f32::MIN_POSITIVE as f64;
        c
    };
    SY.with(|s| {
        let mut s = s.borrow_mut();
        s.nodes.clear();
        s.ix.clear();
        s.nf.clear();
        for i in 0..18u32 {
            let n = if let Some(fmt) = cfg.fp {
                let v = if fmt.0 == 8 { cs32[i as usize] } else { cs[i as usize] };
                Node::Fp(eng(|e| {
                    e.fp.f32 = fmt.0 == 8;
                    e.fp.mk(F::Const(v.to_bits()))
                }))
            } else {
                match i {
                    C_NAN => Node::Nan,
                    C_INF => Node::Inf,
                    C_NINF => Node::NInf,
                    8 | 9 => {
                        let a = rf::with(|ar| ar.atom(Kind::Pi));
                        let k = if i == 8 { Q::ONE } else { Q::int(2) };
                        Node::Leaf(Rf::poly(Poly::atom(a).scale(&k)))
                    }
                    // the largest finite value is taken as 2^1024, whose root is rational
                    16 => Node::Leaf(Rf::constant(Q::from_f64(2f64.powi(1023)).mul(&Q::int(2)))),
                    _ => Node::Leaf(Rf::constant(Q::from_f64(cs[i as usize]))),
                }
            };
            s.nodes.push(n.clone());
            s.nf.push(None);
            s.ix.entry(n).or_insert(i);
        }
    });
}

fn mk(n: Node) -> Sym {
    SY.with(|s| {
        let mut s = s.borrow_mut();
        if let Some(&i) = s.ix.get(&n) {
            return Sym(i);
        }
        let i = s.nodes.len() as u32;
        s.nodes.push(n.clone());
        s.nf.push(None);
        s.ix.insert(n, i);
        Sym(i)
    })
}
fn node(i: u32) -> Node {
    SY.with(|s| s.borrow().nodes[i as usize].clone())
}
#[derive(PartialEq, Clone, Copy)]
enum Cls {
    Nan,
    Inf,
    NInf,
    Fin,
}
fn cls(i: u32) -> Cls {
    SY.with(|s| match s.borrow().nodes[i as usize] {
        Node::Nan => Cls::Nan,
        Node::Inf => Cls::Inf,
        Node::NInf => Cls::NInf,
        _ => Cls::Fin,
    })
}
pub fn leaf(r: Rf) -> Sym {
    mk(Node::Leaf(r))
}
pub fn from_q(q: Q) -> Sym {
    leaf(Rf::constant(q))
}

/// Normal form of a finite node.
pub fn nf(i: u32) -> Rc<Rf> {
    if let Some(r) = SY.with(|s| s.borrow().nf[i as usize].clone()) {
        return r;
    }
    // iterative post-order
    let mut st = vec![(i, false)];
    while let Some((n, ready)) = st.pop() {
        if SY.with(|s| s.borrow().nf[n as usize].is_some()) {
            continue;
        }
        let nd = node(n);
        let kids: Vec<u32> = match &nd {
            Node::Add(a, b) | Node::Sub(a, b) | Node::Mul(a, b) | Node::Div(a, b) => vec![*a, *b],
            Node::Neg(a) => vec![*a],
            _ => vec![],
        };
        if !ready && !kids.is_empty() {
            st.push((n, true));
            for k in kids {
                st.push((k, false));
            }
            continue;
        }
        let get = |a: u32| SY.with(|s| s.borrow().nf[a as usize].clone().unwrap());
        let r = match nd {
            Node::Leaf(r) => r,
            Node::Add(a, b) => rf::with(|ar| ar.add(&get(a), &get(b))),
            Node::Sub(a, b) => rf::with(|ar| ar.sub(&get(a), &get(b))),
            Node::Mul(a, b) => rf::with(|ar| ar.mul(&get(a), &get(b))),
            Node::Div(a, b) => rf::with(|ar| ar.div(&get(a), &get(b))),
            Node::Neg(a) => get(a).neg(),
            _ => panic!("normal form of a non-finite value"),
        };
        if r.num.len() > 60_000 {
            abort_too_big("normal form");
        }
        SY.with(|s| s.borrow_mut().nf[n as usize] = Some(Rc::new(r)));
    }
    SY.with(|s| s.borrow().nf[i as usize].clone().unwrap())
}
/// A value that depends on no input: exact, or rounded as the machine rounds it (`const_f64`).
fn from_const(q: Q) -> Sym {
    if eng(|e| e.cfg.const_f64) {
        let v = q.to_f64();
        return if v.is_finite() { from_q(Q::from_f64(v)) } else { infn(q.sign() > 0) };
    }
    from_q(q)
}
/// The machine number a value stands for, if `const_f64` and it depends on no input.
fn c64(x: Sym) -> Option<f64> {
    if is_fp() || !eng(|e| e.cfg.const_f64) || !matches!(cls(x.0), Cls::Fin) {
        return None;
    }
    konst(x.0).map(|q| q.to_f64())
}
fn of64(v: f64) -> Sym {
    if v.is_nan() {
        Sym(C_NAN)
    } else if v.is_infinite() {
        infn(v > 0.0)
    } else {
        from_q(Q::from_f64(v))
    }
}
fn konst(i: u32) -> Option<Q> {
    SY.with(|s| {
        let s = s.borrow();
        match &s.nodes[i as usize] {
            Node::Leaf(r) => r.as_const(),
            _ => s.nf[i as usize].as_ref().and_then(|r| r.as_const()),
        }
    })
}
fn decide(f: Fm) -> bool {
    ENG.with(|e| e.borrow_mut().as_mut().unwrap().decide(&f))
}
/// sign(x) in mask, for finite x.
pub fn sign_fm(x: Sym, mask: u8) -> Fm {
    let r = nf(x.0);
    eng(|e| e.lit(&r, mask))
}
/// Comparison `a ? b` with mask on sign(a-b); false on NaN.
pub fn cmp_fm(a: Sym, b: Sym, mask: u8) -> Fm {
    if is_fp() {
        return fp_cmp_fm(a, b, mask);
    }
    let k = |c: bool| if c { Fm::T } else { Fm::F };
    match (cls(a.0), cls(b.0)) {
        (Cls::Nan, _) | (_, Cls::Nan) => Fm::F,
        (Cls::Inf, Cls::Inf) | (Cls::NInf, Cls::NInf) => k(mask & ZERO != 0),
        (Cls::Inf, _) | (_, Cls::NInf) => k(mask & POS != 0),
        (Cls::NInf, _) | (_, Cls::Inf) => k(mask & NEG != 0),
        _ => {
            if a.0 == b.0 {
                return k(mask & ZERO != 0);
            }
            let (x, y) = (nf(a.0), nf(b.0));
            // |x| ? |y|  ->  x^2 ? y^2 when both are single nonnegative roots
            let single = |r: &Rf| -> Option<Rf> {
                if r.den.is_empty() && r.num.len() == 1 && r.num.t[0].1.is_one() && r.num.t[0].0.len() == 1 && r.num.t[0].0[0].1 == 1 {
                    let a = r.num.t[0].0[0].0;
                    rf::with(|ar| match ar.atoms[a as usize].clone() {
                        Kind::Sqrt(q) => Some(q),
                        Kind::Abs(q) => Some(ar.mul(&q, &q)),
                        _ => None,
                    })
                } else {
                    match r.as_const() {
                        Some(c) if c.sign() >= 0 => Some(Rf::constant(c.mul(&c))),
                        _ => None,
                    }
                }
            };
            if let (Some(p), Some(q)) = (single(&x), single(&y)) {
                let d = rf::with(|ar| ar.sub(&p, &q));
                return eng(|e| e.lit(&d, mask));
            }
            let d = rf::with(|ar| ar.sub(&x, &y));
            eng(|e| e.lit(&d, mask))
        }
    }
}
fn fpn(i: u32) -> u32 {
    match node(i) {
        Node::Fp(t) => t,
        _ => panic!("not an FP node"),
    }
}
fn fp_lit(t: F) -> Fm {
    eng(|e| {
        let c = |e: &Engine, a: u32| e.fp.constant(a);
        let k = match t {
            F::Lt(a, b) => c(e, a).zip(c(e, b)).map(|(x, y)| x < y),
            F::Le(a, b) => c(e, a).zip(c(e, b)).map(|(x, y)| x <= y),
            F::Eq(a, b) => c(e, a).zip(c(e, b)).map(|(x, y)| x == y),
            F::IsNan(a) => c(e, a).map(|x| x.is_nan()),
            F::IsInf(a) => c(e, a).map(|x| x.is_infinite()),
            F::Signbit(a) => c(e, a).map(|x| x.is_sign_negative()),
            _ => None,
        };
        match k {
            Some(true) => Fm::T,
            Some(false) => Fm::F,
            None => Fm::Fp(e.fp.mk(t), true),
        }
    })
}
fn fp_cmp_fm(a: Sym, b: Sym, mask: u8) -> Fm {
    let (x, y) = (fpn(a.0), fpn(b.0));
    match mask {
        NEG => fp_lit(F::Lt(x, y)),
        3 => fp_lit(F::Le(x, y)),
        ZERO => fp_lit(F::Eq(x, y)),
        POS => fp_lit(F::Lt(y, x)),
        6 => fp_lit(F::Le(y, x)),
        5 => Fm::or(vec![fp_lit(F::Lt(x, y)), fp_lit(F::Lt(y, x))]),
        _ => Fm::T,
    }
}
fn fp_mk(t: F) -> Sym {
    let id = eng(|e| {
        let c = |a: u32| e.fp.constant(a);
        let k = match t {
            F::Add(a, b) | F::Sub(a, b) | F::Mul(a, b) | F::Div(a, b) => c(a).zip(c(b)).map(|(x, y)| e.fp.op2(&t, x, y)),
            F::Neg(a) => c(a).map(|x| -x),
            F::Abs(a) => c(a).map(|x| x.abs()),
            F::Sqrt(a) => c(a).map(|x| if e.fp.f32 { x.sqrt() as f32 as f64 } else { x.sqrt() }),
            F::Rti(a, m) => c(a).map(|x| crate::fp::FpArena::rti(x, m)),
            _ => None,
        };
        match k {
            Some(v) => e.fp.mk(F::Const(v.to_bits())),
            None => match t {
                F::Add(..) | F::Sub(..) | F::Mul(..) | F::Div(..) | F::Sqrt(..) if e.cfg.fp_havoc => {
                    // any result at all, the same for the same operands
                    if let Some(&i) = e.fp.ix.get(&t) {
                        i
                    } else {
                        let n = e.fp.nhavoc;
                        e.fp.nhavoc += 1;
                        let i = e.fp.mk(F::Havoc(n));
                        e.fp.ix.insert(t, i);
                        i
                    }
                }
                _ => e.fp.mk(t),
            },
        }
    });
    mk(Node::Fp(id))
}
fn fp_fresh() -> Sym {
    let id = eng(|e| {
        let n = e.fp.nhavoc;
        e.fp.nhavoc += 1;
        e.fp.mk(F::Havoc(n))
    });
    mk(Node::Fp(id))
}

fn infn(pos: bool) -> Sym {
    Sym(if pos { C_INF } else { C_NINF })
}

impl Add for Sym {
    type Output = Sym;
    fn add(self, o: Sym) -> Sym {
        if is_fp() {
            return fp_mk(F::Add(fpn(self.0), fpn(o.0)));
        }
        match (cls(self.0), cls(o.0)) {
            (Cls::Nan, _) | (_, Cls::Nan) => Sym(C_NAN),
            (Cls::Inf, Cls::NInf) | (Cls::NInf, Cls::Inf) => Sym(C_NAN),
            (Cls::Inf, _) | (_, Cls::Inf) => Sym(C_INF),
            (Cls::NInf, _) | (_, Cls::NInf) => Sym(C_NINF),
            _ => match (konst(self.0), konst(o.0)) {
                (Some(a), Some(b)) => from_const(a.add(&b)),
                (Some(a), _) if a.is_zero() => o,
                (_, Some(b)) if b.is_zero() => self,
                _ => {
                    let (a, b) = if self.0 <= o.0 { (self.0, o.0) } else { (o.0, self.0) };
                    mk(Node::Add(a, b))
                }
            },
        }
    }
}
impl Sub for Sym {
    type Output = Sym;
    fn sub(self, o: Sym) -> Sym {
        if is_fp() {
            return fp_mk(F::Sub(fpn(self.0), fpn(o.0)));
        }
        match (cls(self.0), cls(o.0)) {
            (Cls::Fin, Cls::Fin) => match (konst(self.0), konst(o.0)) {
                (Some(a), Some(b)) => from_const(a.sub(&b)),
                (_, Some(b)) if b.is_zero() => self,
                _ => {
                    if self.0 == o.0 {
                        return Sym::ZERO;
                    }
                    mk(Node::Sub(self.0, o.0))
                }
            },
            _ => self + (-o),
        }
    }
}
impl Neg for Sym {
    type Output = Sym;
    fn neg(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Neg(fpn(self.0)));
        }
        match cls(self.0) {
            Cls::Nan => self,
            Cls::Inf => Sym(C_NINF),
            Cls::NInf => Sym(C_INF),
            _ => match konst(self.0) {
                Some(q) => from_q(q.neg()),
                None => match node(self.0) {
                    Node::Neg(a) => Sym(a),
                    _ => mk(Node::Neg(self.0)),
                },
            },
        }
    }
}
/// Sign of a finite value, forking as needed.
fn fork_sign(x: Sym) -> i32 {
    if decide(sign_fm(x, ZERO)) {
        0
    } else if decide(sign_fm(x, POS)) {
        1
    } else {
        -1
    }
}
impl Mul for Sym {
    type Output = Sym;
    fn mul(self, o: Sym) -> Sym {
        if is_fp() {
            return fp_mk(F::Mul(fpn(self.0), fpn(o.0)));
        }
        match (cls(self.0), cls(o.0)) {
            (Cls::Nan, _) | (_, Cls::Nan) => Sym(C_NAN),
            (Cls::Fin, Cls::Fin) => match (konst(self.0), konst(o.0)) {
                (Some(a), Some(b)) => from_const(a.mul(&b)),
                (Some(a), _) if a.is_zero() => Sym::ZERO,
                (_, Some(b)) if b.is_zero() => Sym::ZERO,
                (Some(a), _) if a.is_one() => o,
                (_, Some(b)) if b.is_one() => self,
                _ => {
                    let (a, b) = if self.0 <= o.0 { (self.0, o.0) } else { (o.0, self.0) };
                    mk(Node::Mul(a, b))
                }
            },
            (a, b) => {
                let s = |c: Cls, v: Sym| match c {
                    Cls::Inf => 1,
                    Cls::NInf => -1,
                    _ => fork_sign(v),
                };
                let t = s(a, self) * s(b, o);
                if t == 0 { Sym(C_NAN) } else { infn(t > 0) }
            }
        }
    }
}
impl Div for Sym {
    type Output = Sym;
    fn div(self, o: Sym) -> Sym {
        if is_fp() {
            return fp_mk(F::Div(fpn(self.0), fpn(o.0)));
        }
        match (cls(self.0), cls(o.0)) {
            (Cls::Nan, _) | (_, Cls::Nan) => Sym(C_NAN),
            (Cls::Fin, Cls::Fin) => {
                if let Some(b) = konst(o.0) {
                    if !b.is_zero() {
                        if b.is_one() {
                            return self;
                        }
                        if let (true, Some(a)) = (eng(|e| e.cfg.const_f64), konst(self.0)) {
                            return from_const(a.mul(&b.inv()));
                        }
                        return self * from_q(b.inv());
                    }
                }
                let zero = match eng(|e| e.cfg.div_zero) {
                    DivZero::Assume => {
                        let f = sign_fm(o, NEG | POS);
                        if f != Fm::T {
                            eng(|e| {
                                e.stats.div_assumed += 1;
                                e.assume(&f)
                            });
                        }
                        false
                    }
                    DivZero::Fork => decide(sign_fm(o, ZERO)),
                };
                if zero {
                    let s = fork_sign(self);
                    return if s == 0 { Sym(C_NAN) } else { infn(s > 0) };
                }
                if let Some(a) = konst(self.0) {
                    if a.is_zero() {
                        return Sym::ZERO;
                    }
                }
                if self.0 == o.0 {
                    return Sym::ONE;
                }
                mk(Node::Div(self.0, o.0))
            }
            (Cls::Fin, _) => Sym::ZERO,
            (_, Cls::Fin) => {
                let pos = cls(self.0) == Cls::Inf;
                let s = fork_sign(o);
                // unsigned zero: infinity keeps its sign
                infn(if s < 0 { !pos } else { pos })
            }
            _ => Sym(C_NAN),
        }
    }
}
impl AddAssign for Sym {
    fn add_assign(&mut self, o: Sym) {
        *self = *self + o;
    }
}
impl SubAssign for Sym {
    fn sub_assign(&mut self, o: Sym) {
        *self = *self - o;
    }
}
impl MulAssign for Sym {
    fn mul_assign(&mut self, o: Sym) {
        *self = *self * o;
    }
}
impl DivAssign for Sym {
    fn div_assign(&mut self, o: Sym) {
        *self = *self / o;
    }
}
impl PartialEq for Sym {
    fn eq(&self, o: &Sym) -> bool {
        decide(cmp_fm(*self, *o, ZERO))
    }
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        if decide(cmp_fm(*self, *o, NEG)) {
            Some(Ordering::Less)
        } else if decide(cmp_fm(*self, *o, POS)) {
            Some(Ordering::Greater)
        } else if decide(cmp_fm(*self, *o, ZERO)) {
            Some(Ordering::Equal)
        } else {
            None
        }
    }
    fn lt(&self, o: &Sym) -> bool {
        decide(cmp_fm(*self, *o, NEG))
    }
    fn le(&self, o: &Sym) -> bool {
        decide(cmp_fm(*self, *o, NEG | ZERO))
    }
    fn gt(&self, o: &Sym) -> bool {
        decide(cmp_fm(*self, *o, POS))
    }
    fn ge(&self, o: &Sym) -> bool {
        decide(cmp_fm(*self, *o, POS | ZERO))
    }
}

/// Tag for symbols carried through `from_f64`.
const BOX_TAG: u64 = 0x7FF4_5A00_0000_0000;
const BOX_MASK: u64 = 0xFFFF_FF00_0000_0000;
pub fn boxed(s: Sym) -> f64 {
    f64::from_bits(BOX_TAG | s.0 as u64)
}

fn unary_special(x: Sym, inf: Option<Sym>, ninf: Option<Sym>) -> Option<Sym> {
    match cls(x.0) {
        Cls::Nan => Some(Sym(C_NAN)),
        Cls::Inf => Some(inf.unwrap_or(Sym(C_NAN))),
        Cls::NInf => Some(ninf.unwrap_or(Sym(C_NAN))),
        Cls::Fin => None,
    }
}
fn atom_sym(k: Kind) -> Sym {
    let a = rf::with(|ar| ar.atom(k));
    leaf(Rf::poly(Poly::atom(a)))
}

/// (cos, sin) of a finite angle.
pub fn cos_sin(x: Sym) -> (Sym, Sym) {
    let r = nf(x.0);
    let one = Sym::ONE;
    let zero = Sym::ZERO;
    if let Some(c) = r.as_const() {
        if c.is_zero() {
            return (one, zero);
        }
    }
    let base = rf::with(|ar| ar.trig_base);
    // split the angle into terms
    let mut parts: Vec<(Rf, Q)> = vec![];
    if r.den.is_empty() {
        for (m, c) in &r.num.t {
            parts.push((Rf::poly(Poly { t: vec![(m.clone(), Q::ONE)] }), c.clone()));
        }
    } else {
        let lc = r.num.lc().clone();
        parts.push((Rf { num: r.num.scale(&lc.inv()), den: r.den.clone() }, lc));
    }
    let (mut c, mut s) = (one, zero);
    for (m, q) in parts {
        let (c1, s1) = cos_sin_term(&m, &q, base);
        let nc = c * c1 - s * s1;
        let ns = s * c1 + c * s1;
        c = nc;
        s = ns;
    }
    // collapse into leaves
    let (rc, rs) = (nf(c.0), nf(s.0));
    (leaf((*rc).clone()), leaf((*rs).clone()))
}
fn cos_sin_term(m: &Rf, q: &Q, base: i64) -> (Sym, Sym) {
    // pi multiples
    if m.den.is_empty() && m.num.len() == 1 && m.num.t[0].0.len() == 1 && m.num.t[0].0[0].1 == 1 {
        let a = m.num.t[0].0[0].0;
        let kind = rf::with(|ar| ar.atoms[a as usize].clone());
        match kind {
            Kind::Pi => {
                let twice = q.mul(&Q::int(2));
                if let Some(n) = twice.to_i64() {
                    let (c, s) = match n.rem_euclid(4) {
                        0 => (1, 0),
                        1 => (0, 1),
                        2 => (-1, 0),
                        _ => (0, -1),
                    };
                    return (from_q(Q::int(c)), from_q(Q::int(s)));
                }
                if let Some(n) = q.mul(&Q::int(4)).to_i64() {
                    let r = Sym::HALF.sqrt();
                    return match n.rem_euclid(8) {
                        1 => (r, r),
                        3 => (-r, r),
                        5 => (-r, -r),
                        _ => (r, -r),
                    };
                }
                if let Some(n) = q.mul(&Q::int(3)).to_i64() {
                    return multiple(Sym::HALF, from_q(Q::int(3)).sqrt() * Sym::HALF, n.rem_euclid(6));
                }
                // halve down to a known angle
                let mut d = 8;
                while d <= 96 {
                    if q.mul(&Q::int(d)).to_i64().is_some() || q.mul(&Q::int(3 * d / 4)).to_i64().is_some() {
                        let (c2, _) = cos_sin_term(m, &q.mul(&Q::int(2)), base);
                        let (s, c) = (q.to_f64() * std::f64::consts::PI).sin_cos();
                        let c1 = ((Sym::ONE + c2) * Sym::HALF).sqrt();
                        let s1 = ((Sym::ONE - c2) * Sym::HALF).sqrt();
                        return (if c < 0.0 { -c1 } else { c1 }, if s < 0.0 { -s1 } else { s1 });
                    }
                    d *= 2;
                }
            }
            Kind::Atan2(y, x) => {
                let (ys, xs) = (leaf(y), leaf(x));
                let h = (ys * ys + xs * xs).sqrt();
                // callers guarantee the origin is excluded where the atom was created
                let (c1, s1) = (xs / h, ys / h);
                if let Some(n) = q.to_i64() {
                    return multiple(c1, s1, n);
                }
                let twice = q.mul(&Q::int(2));
                if let Some(n) = twice.to_i64() {
                    // half angle in (-pi/2, pi/2]: cos >= 0
                    let ch = ((Sym::ONE + c1) * Sym::HALF).sqrt();
                    let sh = if decide(sign_fm(ch, ZERO)) { Sym::ONE } else { s1 / (Sym::TWO * ch) };
                    return multiple(ch, sh, n);
                }
                if let Some(n) = q.mul(&Q::int(3)).to_i64() {
                    let arg = Rf { num: m.num.scale(&Q::new(1, 3)), den: vec![] };
                    let (c, s) = rf::with(|ar| (ar.atom(Kind::Cos(arg.clone())), ar.atom(Kind::Sin(arg.clone()))));
                    return multiple(leaf(Rf::poly(Poly::atom(c))), leaf(Rf::poly(Poly::atom(s))), n);
                }
            }
            _ => {}
        }
    }
    let qb = q.mul(&Q::int(base));
    let (n, arg) = match qb.to_i64() {
        Some(n) => (n, Rf { num: m.num.scale(&Q::new(1, base)), den: m.den.clone() }),
        None => {
            let s = if q.sign() < 0 { -1 } else { 1 };
            (s, Rf { num: m.num.scale(&q.abs()), den: m.den.clone() })
        }
    };
    let (c, s) = rf::with(|ar| {
        let c = ar.atom(Kind::Cos(arg.clone()));
        let s = ar.atom(Kind::Sin(arg.clone()));
        (c, s)
    });
    multiple(leaf(Rf::poly(Poly::atom(c))), leaf(Rf::poly(Poly::atom(s))), n)
}
fn multiple(c: Sym, s: Sym, n: i64) -> (Sym, Sym) {
    let (mut rc, mut rs) = (Sym::ONE, Sym::ZERO);
    let s = if n < 0 { -s } else { s };
    for _ in 0..n.unsigned_abs() {
        let nc = rc * c - rs * s;
        let ns = rs * c + rc * s;
        rc = nc;
        rs = ns;
    }
    (rc, rs)
}

pub fn sym_sqrt(x: Sym) -> Sym {
    if let Some(v) = unary_special(x, Some(Sym(C_INF)), None) {
        return v;
    }
    let r = nf(x.0);
    if let Some(c) = r.as_const() {
        if c.sign() < 0 {
            return Sym(C_NAN);
        }
        if let Some(s) = c.sqrt_exact() {
            return from_const(s);
        }
        if eng(|e| e.cfg.const_f64) {
            return from_q(Q::from_f64(c.to_f64().sqrt()));
        }
    } else if decide(sign_fm(x, NEG)) {
        return Sym(C_NAN);
    }
    // perfect square numerator and denominator
    if r.as_const().is_none() {
        let even = r.den.iter().all(|d| d.1 % 2 == 0);
        if even {
            // allow a constant non-square factor
            let lc = r.num.lc().clone();
            let monic = r.num.scale(&lc.inv());
            if let (Some(p), Some(k)) = (monic.sqrt_exact(), lc.abs().sqrt_exact()) {
                if lc.sign() > 0 {
                    let root = Rf { num: p.scale(&k), den: r.den.iter().map(|d| (d.0, d.1 / 2)).collect() };
                    return leaf(root).abs();
                }
            }
        }
    }
    if x.0 == Sym::ZERO.0 {
        return Sym::ZERO;
    }
    atom_sym(Kind::Sqrt((*r).clone()))
}

/// exp of a finite value as a product of base exponentials.
fn sym_exp(x: Sym) -> Sym {
    let r = nf(x.0);
    if r.is_zero() {
        return Sym::ONE;
    }
    let mut acc = Sym::ONE;
    let parts: Vec<(Rf, Q)> = if r.den.is_empty() {
        r.num.t.iter().map(|(m, c)| (Rf::poly(Poly { t: vec![(m.clone(), Q::ONE)] }), c.clone())).collect()
    } else {
        let lc = r.num.lc().clone();
        vec![(Rf { num: r.num.scale(&lc.inv()), den: r.den.clone() }, lc)]
    };
    for (m, q) in parts {
        // exp(log y) = y
        if m.den.is_empty() && m.num.len() == 1 && m.num.t[0].0.len() == 1 && m.num.t[0].0[0].1 == 1 {
            let k = rf::with(|ar| ar.atoms[m.num.t[0].0[0].0 as usize].clone());
            if let (Kind::Log(y), Some(n)) = (k, q.to_i64()) {
                let y = leaf(y);
                for _ in 0..n.unsigned_abs() {
                    acc = if n > 0 { acc * y } else { acc / y };
                }
                continue;
            }
        }
        let (n, arg) = match q.mul(&Q::int(2)).to_i64() {
            Some(n) => (n, Rf { num: m.num.scale(&Q::new(1, 2)), den: m.den.clone() }),
            None => {
                let s = if q.sign() < 0 { -1 } else { 1 };
                (s, Rf { num: m.num.scale(&q.abs()), den: m.den.clone() })
            }
        };
        let e = atom_sym(Kind::Exp(arg));
        for _ in 0..n.unsigned_abs() {
            acc = if n > 0 { acc * e } else { acc / e };
        }
    }
    acc
}
fn sym_log(x: Sym) -> Sym {
    if let Some(v) = unary_special(x, Some(Sym(C_INF)), None) {
        return v;
    }
    let r = nf(x.0);
    if let Some(c) = r.as_const() {
        if c.sign() < 0 {
            return Sym(C_NAN);
        }
        if c.is_zero() {
            return Sym(C_NINF);
        }
        if c.is_one() {
            return Sym::ZERO;
        }
    } else {
        if decide(sign_fm(x, NEG)) {
            return Sym(C_NAN);
        }
        if decide(sign_fm(x, ZERO)) {
            return Sym(C_NINF);
        }
    }
    // log of a single exponential power
    if r.den.is_empty() && r.num.len() == 1 && r.num.t[0].1.is_one() && r.num.t[0].0.len() == 1 {
        let (a, e) = r.num.t[0].0[0];
        let k = rf::with(|ar| ar.atoms[a as usize].clone());
        if let Kind::Exp(y) = k {
            return leaf(y) * from_q(Q::int(e as i64));
        }
    }
    atom_sym(Kind::Log((*r).clone()))
}

impl Numeric for Sym {
    const ZERO: Sym = Sym(0);
    const ONE: Sym = Sym(1);
    const TWO: Sym = Sym(2);
    const THREE: Sym = Sym(3);
    const HALF: Sym = Sym(4);
    const TEN: Sym = Sym(5);
    const HUNDRED: Sym = Sym(6);
    const ONE_HUNDRED_EIGHTY: Sym = Sym(7);
    const PI: Sym = Sym(8);
    const TWO_PI: Sym = Sym(9);
    const EPSILON: Sym = Sym(10);
    const EPSILON_X4: Sym = Sym(11);
    const EPSILON_X30: Sym = Sym(12);
    const NAN: Sym = Sym(C_NAN);
    const INFINITY: Sym = Sym(C_INF);
    const NEG_INFINITY: Sym = Sym(C_NINF);
    const MAX: Sym = Sym(16);
    const MIN_POSITIVE: Sym = Sym(17);
    type Constant = Sym;

    fn from_f64(value: f64) -> Sym {
        let b = value.to_bits();
        if b & BOX_MASK == BOX_TAG {
            return Sym((b & 0xFFFF_FFFF) as u32);
        }
        if is_fp() {
            let v = eng(|e| if e.fp.f32 { value as f32 as f64 } else { value });
            let id = eng(|e| e.fp.mk(F::Const(v.to_bits())));
            return mk(Node::Fp(id));
        }
        if value.is_nan() {
            return Sym(C_NAN);
        }
        if value.is_infinite() {
            return infn(value > 0.0);
        }
        let snap = eng(|e| e.cfg.snap);
        from_q(if snap { Q::snap(value) } else { Q::from_f64(value) })
    }
    fn from_u64(value: u64) -> Sym {
        if is_fp() {
            return Sym::from_f64(value as f64);
        }
        from_q(Q::from_big(num_rational::BigRational::from_integer(value.into())))
    }
    fn from_usize(value: usize) -> Sym {
        Sym::from_u64(value as u64)
    }
    fn abs(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Abs(fpn(self.0)));
        }
        if let Some(v) = unary_special(self, Some(Sym(C_INF)), Some(Sym(C_INF))) {
            return v;
        }
        if let Some(c) = konst(self.0) {
            return from_q(c.abs());
        }
        let r = nf(self.0);
        if let Some(c) = r.as_const() {
            return from_q(c.abs());
        }
        // sign known?
        let (nonneg, nonpos, fork) = eng(|e| {
            let a = e.lit(&r, POS | ZERO);
            let b = e.lit(&r, NEG | ZERO);
            (a == Fm::T, b == Fm::T, e.cfg.abs_fork)
        });
        if nonneg {
            return self;
        }
        if nonpos {
            return -self;
        }
        if fork {
            return if decide(sign_fm(self, NEG)) { -self } else { self };
        }
        // canonical sign
        let r2 = if r.num.lc().sign() < 0 { r.neg() } else { (*r).clone() };
        let lc = r2.num.lc().clone();
        let monic = Rf { num: r2.num.scale(&lc.inv()), den: r2.den.clone() };
        let a = atom_sym(Kind::Abs(monic));
        if lc.is_one() { a } else { a * from_q(lc) }
    }
    fn sqrt(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Sqrt(fpn(self.0)));
        }
        sym_sqrt(self)
    }
    fn cbrt(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::cbrt(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        if let Some(v) = unary_special(self, Some(Sym(C_INF)), Some(Sym(C_NINF))) {
            return v;
        }
        let r = nf(self.0);
        if let Some(c) = r.as_const() {
            if let Some(s) = c.cbrt_exact() {
                return from_q(s);
            }
        }
        let exact = |r: &Rf| -> Option<Rf> {
            if r.num.len() > 40 || r.den.iter().any(|d| d.1 % 3 != 0) {
                return None;
            }
            Some(Rf { num: r.num.cbrt_exact()?, den: r.den.iter().map(|d| (d.0, d.1 / 3)).collect() })
        };
        if let Some(q) = exact(&r) {
            return leaf(q);
        }
        // conjugates: cbrt(A) cbrt(B) = cbrt(AB) when the product is a cube
        let n = rf::with(|ar| ar.atoms.len());
        for i in 0..n {
            let Kind::Cbrt(a) = rf::with(|ar| ar.atoms[i].clone()) else { continue };
            let (la, t) = (leaf(a.clone()), leaf(Rf::poly(Poly::atom(i as u32))));
            if let Some(k) = exact(&nf((self * la).0)) {
                if decide(sign_fm(la, ZERO)) {
                    break;
                }
                return leaf(k) * t * t / la;
            }
        }
        atom_sym(Kind::Cbrt((*r).clone()))
    }
    fn sin(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::sin(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        if let Some(v) = unary_special(self, None, None) {
            return v;
        }
        cos_sin(self).1
    }
    fn cos(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::cos(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        if let Some(v) = unary_special(self, None, None) {
            return v;
        }
        cos_sin(self).0
    }
    fn tan(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::tan(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        if let Some(v) = unary_special(self, None, None) {
            return v;
        }
        let (c, s) = cos_sin(self);
        s / c
    }
    fn exp(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::exp(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        if let Some(v) = unary_special(self, Some(Sym(C_INF)), Some(Sym::ZERO)) {
            return v;
        }
        sym_exp(self)
    }
    fn log(self) -> Sym {
        if let Some(v) = c64(self) {
            return of64(Numeric::log(v));
        }
        if is_fp() {
            return fp_fresh();
        }
        sym_log(self)
    }
    fn atan2(self, x: Sym) -> Sym {
        if let (Some(v), Some(w)) = (c64(self), c64(x)) {
            return of64(Numeric::atan2(v, w));
        }
        if is_fp() {
            return fp_fresh();
        }
        let y = self;
        match (cls(y.0), cls(x.0)) {
            (Cls::Fin, Cls::Fin) => {}
            (Cls::Nan, _) | (_, Cls::Nan) => return Sym(C_NAN),
            (Cls::Inf, Cls::Fin) => return Sym::PI * Sym::HALF,
            (Cls::NInf, Cls::Fin) => return -(Sym::PI * Sym::HALF),
            (Cls::Fin, Cls::Inf) => return Sym::ZERO,
            (Cls::Fin, Cls::NInf) => return if fork_sign(y) < 0 { -Sym::PI } else { Sym::PI },
            _ => abort(PathEnd::Unsupported("atan2 of two infinities".into())),
        }
        // axis cases
        if decide(sign_fm(y, ZERO)) {
            return if decide(sign_fm(x, NEG)) { Sym::PI } else { Sym::ZERO };
        }
        if decide(sign_fm(x, ZERO)) {
            return if decide(sign_fm(y, POS)) { Sym::PI * Sym::HALF } else { -(Sym::PI * Sym::HALF) };
        }
        let h = sym_sqrt(y * y + x * x);
        let (yn, xn) = (nf((y / h).0), nf((x / h).0));
        // recover a single trig pair: atan2(sin u, cos u) only when u is an atan2 angle (handled by key)
        atom_sym(Kind::Atan2((*yn).clone(), (*xn).clone()))
    }
    fn copysign(self, sign: Sym) -> Sym {
        if is_fp() {
            let a = fp_mk(F::Abs(fpn(self.0)));
            return if decide(fp_lit(F::Signbit(fpn(sign.0)))) { -a } else { a };
        }
        let neg = match cls(sign.0) {
            Cls::Inf | Cls::Nan => false,
            Cls::NInf => true,
            Cls::Fin => decide(sign_fm(sign, NEG)),
        };
        let a = self.abs();
        if neg { -a } else { a }
    }
    fn floor(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Rti(fpn(self.0), 0));
        }
        if let Some(v) = unary_special(self, Some(Sym(C_INF)), Some(Sym(C_NINF))) {
            return v;
        }
        let r = nf(self.0);
        if let Some(c) = r.as_const() {
            return from_q(c.floor());
        }
        // integer-valued polynomials are their own floor
        let int = rf::with(|ar| {
            r.den.is_empty()
                && r.num.t.iter().all(|(m, c)| c.is_int() && m.iter().all(|(a, _)| matches!(ar.atoms[*a as usize], Kind::IntVar(_) | Kind::Floor(_))))
        });
        if int {
            return self;
        }
        atom_sym(Kind::Floor((*r).clone()))
    }
    fn ceil(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Rti(fpn(self.0), 1));
        }
        -((-self).floor())
    }
    fn round(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Rti(fpn(self.0), 2));
        }
        if cls(self.0) != Cls::Fin {
            return self;
        }
        if decide(sign_fm(self, NEG)) { -((-self + Sym::HALF).floor()) } else { (self + Sym::HALF).floor() }
    }
    fn trunc(self) -> Sym {
        if is_fp() {
            return fp_mk(F::Rti(fpn(self.0), 3));
        }
        if cls(self.0) != Cls::Fin {
            return self;
        }
        if decide(sign_fm(self, NEG)) { -((-self).floor()) } else { self.floor() }
    }
    fn clamp(self, min: Sym, max: Sym) -> Sym {
        // f64::clamp / libm-style
        if self < min {
            min
        } else if self > max {
            max
        } else {
            self
        }
    }
    fn max(self, o: Sym) -> Sym {
        // IEEE maxNum: a NaN operand loses
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self > o { self } else { o }
    }
    fn min(self, o: Sym) -> Sym {
        if self.is_nan() {
            return o;
        }
        if o.is_nan() {
            return self;
        }
        if self < o { self } else { o }
    }
    fn hypot(self, o: Sym) -> Sym {
        if is_fp() {
            return fp_fresh();
        }
        if matches!(cls(self.0), Cls::Inf | Cls::NInf) || matches!(cls(o.0), Cls::Inf | Cls::NInf) {
            return Sym(C_INF);
        }
        (self * self + o * o).sqrt()
    }
    fn tanh(self) -> Sym {
        if is_fp() {
            return fp_fresh();
        }
        match cls(self.0) {
            Cls::Inf => Sym::ONE,
            Cls::NInf => -Sym::ONE,
            Cls::Nan => self,
            Cls::Fin => {
                let (a, b) = (sym_exp(self), sym_exp(-self));
                (a - b) / (a + b)
            }
        }
    }
    fn powf(self, n: Sym) -> Sym {
        if is_fp() {
            return fp_fresh();
        }
        if let Some(k) = konst(n.0) {
            if let Some(i) = k.to_i64() {
                if i.abs() <= 64 {
                    return self.powi(i as i32);
                }
            }
        }
        (n * self.log()).exp()
    }
    fn is_nan(self) -> bool {
        if is_fp() {
            return decide(fp_lit(F::IsNan(fpn(self.0))));
        }
        cls(self.0) == Cls::Nan
    }
    fn is_finite(self) -> bool {
        if is_fp() {
            return !decide(fp_lit(F::IsNan(fpn(self.0)))) && !decide(fp_lit(F::IsInf(fpn(self.0))));
        }
        cls(self.0) == Cls::Fin
    }
    fn is_infinite(self) -> bool {
        if is_fp() {
            return decide(fp_lit(F::IsInf(fpn(self.0))));
        }
        matches!(cls(self.0), Cls::Inf | Cls::NInf)
    }
}

/// Is this value a known constant?
pub fn const_value(x: Sym) -> Option<f64> {
    if is_fp() {
        let t = fpn(x.0);
        return eng(|e| e.fp.constant(t));
    }
    match cls(x.0) {
        Cls::Nan => Some(f64::NAN),
        Cls::Inf => Some(f64::INFINITY),
        Cls::NInf => Some(f64::NEG_INFINITY),
        Cls::Fin => konst(x.0).or_else(|| nf(x.0).as_const()).map(|q| q.to_f64()),
    }
}

fn concretize(x: Sym) -> f64 {
    if let Some(v) = const_value(x) {
        return v;
    }
    if is_fp() {
        abort(PathEnd::Unsupported("concretising a floating-point value".into()));
    }
    let r = nf(x.0);
    let int = rf::with(|ar| {
        r.den.is_empty()
            && r.num.t.iter().all(|(m, c)| c.is_int() && m.iter().all(|(a, _)| matches!(ar.atoms[*a as usize], Kind::IntVar(_) | Kind::Floor(_))))
    });
    if !int && eng(|e| e.cfg.box_primal) {
        return boxed(x);
    }
    if !int {
        abort(PathEnd::Unsupported("concretising a non-integer value".into()));
    }
    let mut tried = vec![];
    for n in 0..200 {
        // every value near zero was ruled out: is anything left at all?
        if n == 41 && !(x < from_q(Q::int(-20)) || x > from_q(Q::int(20))) {
            abort(PathEnd::Infeasible);
        }
        let v = choose_value(x, &tried);
        match v {
            Some(v) => {
                if x == from_q(Q::from_f64(v)) {
                    return v;
                }
                tried.push(v);
            }
            None => abort(PathEnd::Infeasible),
        }
    }
    abort(PathEnd::Budget)
}
/// Next candidate integer: deterministic enumeration outward from zero, skipping refuted values.
fn choose_value(x: Sym, tried: &[f64]) -> Option<f64> {
    let mut k = 0i64;
    for _ in 0..4000 {
        for v in if k == 0 { vec![0] } else { vec![k, -k] } {
            if tried.contains(&(v as f64)) {
                continue;
            }
            let f = cmp_fm(x, from_q(Q::int(v)), ZERO);
            let f = eng(|e| e.simp(&f));
            if f != Fm::F {
                return Some(v as f64);
            }
        }
        k += 1;
    }
    None
}

impl Primal for Sym {
    fn to_f64(&self) -> f64 {
        concretize(*self)
    }
    fn to_f32(&self) -> f32 {
        concretize(*self) as f32
    }
}

// ---- harness interface ----------------------------------------------------
pub fn exact(v: f64) -> Sym {
    if is_fp() {
        let v = eng(|e| if e.fp.f32 { v as f32 as f64 } else { v });
        let id = eng(|e| e.fp.mk(F::Const(v.to_bits())));
        return mk(Node::Fp(id));
    }
    if v.is_nan() {
        return Sym(C_NAN);
    }
    if v.is_infinite() {
        return infn(v > 0.0);
    }
    // decimal literals in harnesses mean the decimal number
    let snap = eng(|e| e.cfg.snap);
    from_q(if snap { Q::snap(v) } else { Q::from_f64(v) })
}
pub fn rational(n: i64, d: i64) -> Sym {
    if is_fp() {
        return exact(n as f64 / d as f64);
    }
    from_q(Q::new(n, d))
}
pub fn new_var(name: &str, lo: f64, hi: f64, int: bool) -> Sym {
    eng(|e| e.add_var(name, lo, hi, int));
    if is_fp() {
        let id = eng(|e| {
            let i = match e.fp.names.iter().position(|n| n == name) {
                Some(i) => i,
                None => {
                    e.fp.names.push(name.to_string());
                    e.fp.names.len() - 1
                }
            };
            e.fp.mk(F::Var(i as u32))
        });
        return mk(Node::Fp(id));
    }
    atom_sym(if int { Kind::IntVar(name.into()) } else { Kind::Var(name.into()) })
}
pub fn leaf_atom(k: Kind) -> Sym {
    atom_sym(k)
}
fn bfm(b: bool) -> Fm {
    if b { Fm::T } else { Fm::F }
}
pub fn finite_fm(x: Sym) -> Fm {
    if is_fp() {
        return Fm::and(vec![fp_lit(F::IsNan(fpn(x.0))).not(), fp_lit(F::IsInf(fpn(x.0))).not()]);
    }
    bfm(cls(x.0) == Cls::Fin)
}
pub fn nan_fm(x: Sym) -> Fm {
    if is_fp() {
        return fp_lit(F::IsNan(fpn(x.0)));
    }
    bfm(cls(x.0) == Cls::Nan)
}
pub fn same_fm(a: Sym, b: Sym) -> Fm {
    if a.0 == b.0 {
        return Fm::T;
    }
    if is_fp() {
        let (x, y) = (fpn(a.0), fpn(b.0));
        // same value (fp.eq), same sign, or both NaN
        let both = Fm::and(vec![fp_lit(F::IsNan(x)), fp_lit(F::IsNan(y))]);
        let (sx, sy) = (fp_lit(F::Signbit(x)), fp_lit(F::Signbit(y)));
        let sign = Fm::or(vec![Fm::and(vec![sx.clone(), sy.clone()]), Fm::and(vec![sx.not(), sy.not()])]);
        return Fm::or(vec![both, Fm::and(vec![fp_lit(F::Eq(x, y)), sign])]);
    }
    match (cls(a.0), cls(b.0)) {
        (Cls::Nan, Cls::Nan) => Fm::T,
        _ => cmp_fm(a, b, ZERO),
    }
}

/// `a = b` over the term graph exactly as executed, before any normalisation.
pub fn confirm_query(a: Sym, b: Sym) -> Option<String> {
    if is_fp() || cls(a.0) != Cls::Fin || cls(b.0) != Cls::Fin {
        return None;
    }
    let mut order: Vec<u32> = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![(a.0, false), (b.0, false)];
    let mut atoms = std::collections::BTreeSet::new();
    while let Some((n, done)) = st.pop() {
        if done {
            order.push(n);
            continue;
        }
        if !seen.insert(n) {
            continue;
        }
        if seen.len() > 1500 {
            return None;
        }
        st.push((n, true));
        match node(n) {
            Node::Add(x, y) | Node::Sub(x, y) | Node::Mul(x, y) | Node::Div(x, y) => {
                st.push((x, false));
                st.push((y, false));
            }
            Node::Neg(x) => st.push((x, false)),
            Node::Leaf(r) => {
                if r.num.len() > 300 {
                    return None;
                }
                rf::with(|ar| ar.atoms_of(&r, &mut atoms))
            }
            _ => return None,
        }
    }
    let (mut s, _, ints) = eng(|e| e.smt_decls(&atoms));
    if ints {
        return None;
    }
    for n in order {
        let d = match node(n) {
            Node::Add(x, y) => format!("(+ n{x} n{y})"),
            Node::Sub(x, y) => format!("(- n{x} n{y})"),
            Node::Mul(x, y) => format!("(* n{x} n{y})"),
            Node::Neg(x) => format!("(- n{x})"),
            Node::Div(x, y) => {
                s.push_str(&format!("(declare-fun n{n} () Real)\n(assert (= (* n{n} n{y}) n{x}))\n(assert (not (= n{y} 0.0)))\n"));
                continue;
            }
            Node::Leaf(r) => {
                let (nu, de) = rf::with(|ar| (Engine::smt_poly(ar, &r.num), Engine::smt_den(ar, &r)));
                if r.den.is_empty() {
                    nu
                } else {
                    s.push_str(&format!("(declare-fun n{n} () Real)\n(assert (= (* n{n} {de}) {nu}))\n(assert (not (= {de} 0.0)))\n"));
                    continue;
                }
            }
            _ => return None,
        };
        s.push_str(&format!("(define-fun n{n} () Real {d})\n"));
    }
    s.push_str(&format!("(assert (not (= n{} n{})))\n", a.0, b.0));
    Some(s)
}

impl std::fmt::Display for Sym {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "@{}", self.0)
    }
}
/// Text form used where the library reads numbers out of text: `@id` names a value of the
/// current path, anything else is read as an `f64`.
impl std::str::FromStr for Sym {
    type Err = std::num::ParseFloatError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        match s.strip_prefix('@').and_then(|d| d.parse::<u32>().ok()) {
            Some(id) => Ok(Sym(id)),
            None => s.parse::<f64>().map(<Sym as Numeric>::from_f64),
        }
    }
}
impl std::iter::Sum for Sym {
    fn sum<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(<Sym as Numeric>::ZERO, |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a Sym> for Sym {
    fn sum<I: Iterator<Item = &'a Sym>>(it: I) -> Sym {
        it.fold(<Sym as Numeric>::ZERO, |a, b| a + *b)
    }
}
impl std::iter::Product for Sym {
    fn product<I: Iterator<Item = Sym>>(it: I) -> Sym {
        it.fold(<Sym as Numeric>::ONE, |a, b| a * b)
    }
}
impl Default for Sym {
    fn default() -> Sym {
        <Sym as Numeric>::ZERO
    }
}
macro_rules! from_number {
    ($($t:ty),*) => { $(impl From<$t> for Sym {
        fn from(v: $t) -> Sym {
            <Sym as Numeric>::from_f64(f64::from(v))
        }
    })* };
}
from_number!(i32, u32, f32, u8, i8, u16, i16);
