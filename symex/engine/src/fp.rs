//! Floating-point term graph (bit-precise mode).
use crate::rf::Point;
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Const(u64),
    Var(u32),
    Havoc(u32),
    Add(u32, u32),
    Sub(u32, u32),
    Mul(u32, u32),
    Div(u32, u32),
    Neg(u32),
    Abs(u32),
    Sqrt(u32),
    Rti(u32, u8),
    Lt(u32, u32),
    Le(u32, u32),
    Eq(u32, u32),
    IsNan(u32),
    IsInf(u32),
    Signbit(u32),
}

#[derive(Default)]
pub struct FpArena {
    pub t: Vec<T>,
    pub ix: HashMap<T, u32>,
    pub names: Vec<String>,
    pub nhavoc: u32,
    pub f32: bool,
}

impl FpArena {
    pub fn clear(&mut self) {
        self.t.clear();
        self.ix.clear();
        self.names.clear();
        self.nhavoc = 0;
    }
    pub fn mk(&mut self, t: T) -> u32 {
        if let Some(&i) = self.ix.get(&t) {
            return i;
        }
        let i = self.t.len() as u32;
        self.t.push(t);
        self.ix.insert(t, i);
        i
    }
    pub fn bname(&self, n: u32) -> String {
        format!("b{}", n)
    }
    pub fn constant(&self, n: u32) -> Option<f64> {
        match self.t[n as usize] {
            T::Const(b) => Some(f64::from_bits(b)),
            _ => None,
        }
    }
    fn rnd(&self, v: f64) -> f64 {
        if self.f32 { v as f32 as f64 } else { v }
    }
    pub fn op2(&self, t: &T, a: f64, b: f64) -> f64 {
        self.rnd(match t {
            T::Add(..) => a + b,
            T::Sub(..) => a - b,
            T::Mul(..) => a * b,
            T::Div(..) => a / b,
            _ => unreachable!(),
        })
    }
    pub fn rti(v: f64, m: u8) -> f64 {
        match m {
            0 => v.floor(),
            1 => v.ceil(),
            2 => v.round(),
            _ => v.trunc(),
        }
    }
    pub fn eval(&self, n: u32, p: &Point) -> Option<f64> {
        if let Some(v) = p.memo.borrow().get(&n) {
            return if v.to_bits() == 0x7ff8dead00000000 { None } else { Some(*v) };
        }
        let v = match self.t[n as usize] {
            T::Const(b) => Some(f64::from_bits(b)),
            T::Var(i) => p.vars.get(&self.names[i as usize]).map(|v| self.rnd(*v)),
            T::Havoc(_) => None,
            ref t @ (T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b)) => match (self.eval(a, p), self.eval(b, p)) {
                (Some(x), Some(y)) => Some(self.op2(t, x, y)),
                _ => None,
            },
            T::Neg(a) => self.eval(a, p).map(|x| -x),
            T::Abs(a) => self.eval(a, p).map(|x| x.abs()),
            T::Sqrt(a) => self.eval(a, p).map(|x| self.rnd(x.sqrt())),
            T::Rti(a, m) => self.eval(a, p).map(|x| Self::rti(x, m)),
            _ => None,
        };
        p.memo.borrow_mut().insert(n, v.unwrap_or(f64::from_bits(0x7ff8dead00000000)));
        v
    }
    pub fn eval_bool(&self, n: u32, p: &Point) -> Option<bool> {
        let e = |a: u32| self.eval(a, p);
        match self.t[n as usize] {
            T::Lt(a, b) => Some(e(a)? < e(b)?),
            T::Le(a, b) => Some(e(a)? <= e(b)?),
            T::Eq(a, b) => Some(e(a)? == e(b)?),
            T::IsNan(a) => Some(e(a)?.is_nan()),
            T::IsInf(a) => Some(e(a)?.is_infinite()),
            T::Signbit(a) => Some(e(a)?.is_sign_negative()),
            _ => None,
        }
    }
    fn cst(bits: u64, fmt: (u32, u32)) -> String {
        let v = f64::from_bits(bits);
        let (e, s) = fmt;
        if v.is_nan() {
            return format!("(_ NaN {e} {s})");
        }
        if v.is_infinite() {
            return format!("(_ {}oo {e} {s})", if v > 0.0 { "+" } else { "-" });
        }
        if e == 11 {
            return format!("((_ to_fp 11 53) #x{:016x})", bits);
        }
        let b32 = (v as f32).to_bits();
        format!("((_ to_fp 8 24) #x{:08x})", b32)
    }
    pub fn emit(&self, roots: &[u32], fmt: (u32, u32)) -> (String, Vec<String>) {
        let mut need = std::collections::BTreeSet::new();
        let mut st: Vec<u32> = roots.to_vec();
        while let Some(n) = st.pop() {
            if !need.insert(n) {
                continue;
            }
            match self.t[n as usize] {
                T::Add(a, b) | T::Sub(a, b) | T::Mul(a, b) | T::Div(a, b) | T::Lt(a, b) | T::Le(a, b) | T::Eq(a, b) => {
                    st.push(a);
                    st.push(b);
                }
                T::Neg(a) | T::Abs(a) | T::Sqrt(a) | T::Rti(a, _) | T::IsNan(a) | T::IsInf(a) | T::Signbit(a) => st.push(a),
                _ => {}
            }
        }
        let (e, sb) = fmt;
        let sort = format!("(_ FloatingPoint {e} {sb})");
        let mut s = String::new();
        let mut vals = vec![];
        for &n in &need {
            let f = |a: u32| format!("t{}", a);
            let (def, is_bool) = match self.t[n as usize] {
                T::Const(b) => (Self::cst(b, fmt), false),
                T::Var(i) => {
                    let nm = format!("v_{}", self.names[i as usize]);
                    s.push_str(&format!("(declare-fun {nm} () {sort})\n"));
                    vals.push(nm.clone());
                    (nm, false)
                }
                T::Havoc(i) => {
                    s.push_str(&format!("(declare-fun h{i} () {sort})\n"));
                    (format!("h{i}"), false)
                }
                T::Add(a, b) => (format!("(fp.add RNE {} {})", f(a), f(b)), false),
                T::Sub(a, b) => (format!("(fp.sub RNE {} {})", f(a), f(b)), false),
                T::Mul(a, b) => (format!("(fp.mul RNE {} {})", f(a), f(b)), false),
                T::Div(a, b) => (format!("(fp.div RNE {} {})", f(a), f(b)), false),
                T::Neg(a) => (format!("(fp.neg {})", f(a)), false),
                T::Abs(a) => (format!("(fp.abs {})", f(a)), false),
                T::Sqrt(a) => (format!("(fp.sqrt RNE {})", f(a)), false),
                T::Rti(a, m) => (format!("(fp.roundToIntegral {} {})", ["RTN", "RTP", "RNA", "RTZ"][m as usize], f(a)), false),
                T::Lt(a, b) => (format!("(fp.lt {} {})", f(a), f(b)), true),
                T::Le(a, b) => (format!("(fp.leq {} {})", f(a), f(b)), true),
                T::Eq(a, b) => (format!("(fp.eq {} {})", f(a), f(b)), true),
                T::IsNan(a) => (format!("(fp.isNaN {})", f(a)), true),
                T::IsInf(a) => (format!("(fp.isInfinite {})", f(a)), true),
                T::Signbit(a) => (format!("(and (not (fp.isNaN {0})) (fp.isNegative {0}))", f(a)), true),
            };
            if is_bool {
                s.push_str(&format!("(define-fun b{n} () Bool {def})\n"));
            } else {
                s.push_str(&format!("(define-fun t{n} () {sort} {def})\n"));
            }
        }
        (s, vals)
    }
}
