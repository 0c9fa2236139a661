//! Sparse multivariate polynomials over the rationals, lexicographic order, newest atom highest.
use crate::q::Q;
use std::cmp::Ordering;
use std::collections::HashMap;

/// Exponents by atom, sorted by descending atom id.
pub type Mono = Vec<(u32, u32)>;

pub fn mono_cmp(a: &Mono, b: &Mono) -> Ordering {
    for (x, y) in a.iter().zip(b.iter()) {
        match x.0.cmp(&y.0) {
            Ordering::Equal => match x.1.cmp(&y.1) {
                Ordering::Equal => {}
                o => return o,
            },
            o => return o,
        }
    }
    a.len().cmp(&b.len())
}

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        match a[i].0.cmp(&b[j].0) {
            Ordering::Greater => {
                r.push(a[i]);
                i += 1;
            }
            Ordering::Less => {
                r.push(b[j]);
                j += 1;
            }
            Ordering::Equal => {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1;
            }
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for &(at, e) in a {
        if j < b.len() && b[j].0 == at {
            if e < b[j].1 {
                return None;
            }
            if e > b[j].1 {
                r.push((at, e - b[j].1));
            }
            j += 1;
        } else if j < b.len() && b[j].0 > at {
            return None;
        } else {
            r.push((at, e));
        }
    }
    if j < b.len() { None } else { Some(r) }
}

/// Terms in descending monomial order, no zero coefficients.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Poly {
    pub t: Vec<(Mono, Q)>,
}

impl Poly {
    pub fn zero() -> Poly {
        Poly { t: vec![] }
    }
    pub fn constant(q: Q) -> Poly {
        if q.is_zero() { Poly::zero() } else { Poly { t: vec![(vec![], q)] } }
    }
    pub fn one() -> Poly {
        Poly::constant(Q::ONE)
    }
    pub fn atom(a: u32) -> Poly {
        Poly { t: vec![(vec![(a, 1)], Q::ONE)] }
    }
    pub fn is_zero(&self) -> bool {
        self.t.is_empty()
    }
    pub fn as_const(&self) -> Option<Q> {
        match self.t.len() {
            0 => Some(Q::ZERO),
            1 if self.t[0].0.is_empty() => Some(self.t[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_one(&self) -> bool {
        self.t.len() == 1 && self.t[0].0.is_empty() && self.t[0].1.is_one()
    }
    pub fn len(&self) -> usize {
        self.t.len()
    }
    pub fn neg(&self) -> Poly {
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.neg())).collect() }
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        if k.is_one() {
            return self.clone();
        }
        Poly { t: self.t.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect() }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() && j < o.t.len() {
            match mono_cmp(&self.t[i].0, &o.t[j].0) {
                Ordering::Greater => {
                    r.push(self.t[i].clone());
                    i += 1;
                }
                Ordering::Less => {
                    r.push(o.t[j].clone());
                    j += 1;
                }
                Ordering::Equal => {
                    let c = self.t[i].1.add(&o.t[j].1);
                    if !c.is_zero() {
                        r.push((self.t[i].0.clone(), c));
                    }
                    i += 1;
                    j += 1;
                }
            }
        }
        r.extend_from_slice(&self.t[i..]);
        r.extend_from_slice(&o.t[j..]);
        Poly { t: r }
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn from_map(m: HashMap<Mono, Q>) -> Poly {
        let mut t: Vec<_> = m.into_iter().filter(|(_, c)| !c.is_zero()).collect();
        t.sort_by(|a, b| mono_cmp(&b.0, &a.0));
        Poly { t }
    }
    pub fn mul_mono(&self, m: &Mono, c: &Q) -> Poly {
        Poly { t: self.t.iter().map(|(a, k)| (mono_mul(a, m), k.mul(c))).collect() }
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.t.is_empty() || o.t.is_empty() {
            return Poly::zero();
        }
        if self.t.len() == 1 {
            return o.mul_mono(&self.t[0].0, &self.t[0].1);
        }
        if o.t.len() == 1 {
            return self.mul_mono(&o.t[0].0, &o.t[0].1);
        }
        if self.t.len() * o.t.len() > crate::rf::max_work() {
            crate::explore::abort_too_big("polynomial product");
        }
        let mut m: HashMap<Mono, Q> = HashMap::with_capacity(self.t.len() * o.t.len());
        for (a, x) in &self.t {
            for (b, y) in &o.t {
                let k = mono_mul(a, b);
                let c = x.mul(y);
                match m.entry(k) {
                    std::collections::hash_map::Entry::Occupied(mut e) => {
                        let n = e.get().add(&c);
                        *e.get_mut() = n;
                    }
                    std::collections::hash_map::Entry::Vacant(e) => {
                        e.insert(c);
                    }
                }
            }
        }
        Poly::from_map(m)
    }
    pub fn pow(&self, e: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..e {
            r = r.mul(self);
        }
        r
    }
    /// Leading coefficient.
    pub fn lc(&self) -> &Q {
        &self.t[0].1
    }
    /// Exact division, or None.
    pub fn div_exact(&self, d: &Poly) -> Option<Poly> {
        if d.t.is_empty() {
            return None;
        }
        if self.t.is_empty() {
            return Some(Poly::zero());
        }
        if d.t.len() == 1 {
            let (m, c) = &d.t[0];
            let ci = c.inv();
            let mut t = Vec::with_capacity(self.t.len());
            for (a, k) in &self.t {
                t.push((mono_div(a, m)?, k.mul(&ci)));
            }
            return Some(Poly { t });
        }
        mono_div(&self.t[0].0, &d.t[0].0)?;
        mono_div(&self.t.last().unwrap().0, &d.t.last().unwrap().0)?;
        let lci = d.t[0].1.inv();
        // BTreeMap keyed by order wrapper for the remainder
        let mut rem: std::collections::BTreeMap<Ord_, Q> =
            self.t.iter().map(|(m, c)| (Ord_(m.clone()), c.clone())).collect();
        let mut q = Vec::new();
        let limit = 4 * crate::rf::max_work();
        let mut work = 0usize;
        while let Some((k, c)) = rem.pop_last() {
            let m = mono_div(&k.0, &d.t[0].0)?;
            let f = c.mul(&lci);
            for (dm, dc) in &d.t[1..] {
                let key = Ord_(mono_mul(dm, &m));
                let delta = dc.mul(&f).neg();
                match rem.entry(key) {
                    std::collections::btree_map::Entry::Occupied(mut e) => {
                        let n = e.get().add(&delta);
                        if n.is_zero() {
                            e.remove();
                        } else {
                            *e.get_mut() = n;
                        }
                    }
                    std::collections::btree_map::Entry::Vacant(e) => {
                        e.insert(delta);
                    }
                }
            }
            work += d.t.len();
            if work > limit {
                return None;
            }
            q.push((m, f));
        }
        Some(Poly { t: q })
    }
    /// Monomial content: largest monomial dividing every term.
    pub fn mono_content(&self) -> Mono {
        let mut it = self.t.iter();
        let mut g: Mono = match it.next() {
            Some((m, _)) => m.clone(),
            None => return vec![],
        };
        for (m, _) in it {
            if g.is_empty() {
                break;
            }
            g = g
                .iter()
                .filter_map(|&(a, e)| {
                    m.iter().find(|x| x.0 == a).map(|x| (a, e.min(x.1)))
                })
                .collect();
        }
        g
    }
    pub fn atoms(&self, out: &mut std::collections::BTreeSet<u32>) {
        for (m, _) in &self.t {
            for (a, _) in m {
                out.insert(*a);
            }
        }
    }
    pub fn max_exp(&self, a: u32) -> u32 {
        self.t.iter().map(|(m, _)| m.iter().find(|x| x.0 == a).map_or(0, |x| x.1)).max().unwrap_or(0)
    }
    /// Polynomial square root if this is a perfect square.
    pub fn sqrt_exact(&self) -> Option<Poly> {
        if self.t.is_empty() {
            return Some(Poly::zero());
        }
        let root = |m: &Mono, c: &Q| -> Option<(Mono, Q)> {
            let mut r = Vec::new();
            for &(a, e) in m {
                if e % 2 == 1 {
                    return None;
                }
                r.push((a, e / 2));
            }
            Some((r, c.sqrt_exact()?))
        };
        let lead = root(&self.t[0].0, &self.t[0].1)?;
        root(&self.t.last().unwrap().0, &self.t.last().unwrap().1)?;
        let mut q = Poly { t: vec![lead.clone()] };
        let mut rem = self.sub(&q.mul(&q));
        let two_lead_c = lead.1.mul(&Q::int(2));
        let mut guard = 0;
        while !rem.is_zero() {
            let m = mono_div(&rem.t[0].0, &lead.0)?;
            if mono_cmp(&m, &q.t.last().unwrap().0) != Ordering::Less {
                return None;
            }
            let c = rem.t[0].1.div(&two_lead_c);
            let term = Poly { t: vec![(m, c)] };
            // (q+t)^2 = q^2 + 2qt + t^2
            rem = rem.sub(&q.mul(&term).scale(&Q::int(2))).sub(&term.mul(&term));
            q.t.extend(term.t);
            guard += 1;
            if guard > 200 {
                return None;
            }
        }
        Some(q)
    }
    /// The polynomial whose cube this is.
    pub fn cbrt_exact(&self) -> Option<Poly> {
        if self.t.is_empty() {
            return Some(Poly::zero());
        }
        let root = |m: &Mono, c: &Q| -> Option<(Mono, Q)> {
            let mut r = Vec::new();
            for &(a, e) in m {
                if e % 3 != 0 {
                    return None;
                }
                r.push((a, e / 3));
            }
            Some((r, c.cbrt_exact()?))
        };
        let lead = root(&self.t[0].0, &self.t[0].1)?;
        root(&self.t.last().unwrap().0, &self.t.last().unwrap().1)?;
        let lp = Poly { t: vec![lead] };
        let l2 = lp.mul(&lp).scale(&Q::int(3));
        let mut q = lp;
        for _ in 0..60 {
            let rem = self.sub(&q.mul(&q).mul(&q));
            if rem.is_zero() {
                return Some(q);
            }
            let m = mono_div(&rem.t[0].0, &l2.t[0].0)?;
            if mono_cmp(&m, &q.t.last().unwrap().0) != Ordering::Less {
                return None;
            }
            let c = rem.t[0].1.div(&l2.t[0].1);
            q.t.push((m, c));
        }
        None
    }
    pub fn eval(&self, val: &dyn Fn(u32) -> f64) -> (f64, f64) {
        // value and magnitude (sum of absolute terms)
        let mut s = 0.0;
        let mut mag = 0.0;
        for (m, c) in &self.t {
            let mut v = c.to_f64();
            for &(a, e) in m {
                v *= val(a).powi(e as i32);
            }
            s += v;
            mag += v.abs();
        }
        (s, mag)
    }
}

#[derive(Clone, PartialEq, Eq)]
struct Ord_(Mono);
impl PartialOrd for Ord_ {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ord_ {
    fn cmp(&self, o: &Self) -> Ordering {
        mono_cmp(&self.0, &o.0)
    }
}
