//! Polynomials with rational coefficients in variables and square-root atoms.
use crate::big::{self, Nat};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

/// Rational number. Denominator > 0: numerator and denominator in lowest terms.
/// Denominator 0: sign and (index + 1) of a pair kept in a table, for values that need more bits.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct Rat(pub i128, pub i128);

#[derive(Default)]
struct Table {
    list: Vec<(Nat, Nat)>,
    index: HashMap<(Nat, Nat), i128>,
}
thread_local! {
    static BIG: RefCell<Table> = RefCell::new(Table::default());
}
const LIMIT: usize = 4_000_000;

fn gcd(mut a: i128, mut b: i128) -> i128 {
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a.abs()
}
impl Rat {
    pub fn new(n: i128, d: i128) -> Rat {
        assert!(d != 0);
        let g = gcd(n, d).max(1);
        let s = if d < 0 { -1 } else { 1 };
        Rat(s * n / g, s * d / g)
    }
    pub fn int(n: i128) -> Rat {
        Rat(n, 1)
    }
    pub fn zero(&self) -> bool {
        self.0 == 0
    }
    fn parts(self) -> (bool, Nat, Nat) {
        if self.1 != 0 {
            return (self.0 < 0, big::from(self.0.unsigned_abs()), big::from(self.1 as u128));
        }
        BIG.with(|t| {
            let t = t.borrow();
            let (n, d) = &t.list[self.0.unsigned_abs() as usize - 1];
            (self.0 < 0, n.clone(), d.clone())
        })
    }
    fn from_parts(neg: bool, n: Nat, d: Nat) -> Rat {
        if n.is_empty() {
            return Rat(0, 1);
        }
        let g = big::gcd(&n, &d);
        let (n, d) = (big::div(&n, &g).0, big::div(&d, &g).0);
        if let (Some(a), Some(b)) = (big::small(&n), big::small(&d)) {
            return Rat(if neg { -a } else { a }, b);
        }
        BIG.with(|t| {
            let mut t = t.borrow_mut();
            let k = match t.index.get(&(n.clone(), d.clone())) {
                Some(k) => *k,
                None => {
                    if t.list.len() > LIMIT {
                        panic!("SYM-OVERFLOW");
                    }
                    let k = t.list.len() as i128 + 1;
                    t.list.push((n.clone(), d.clone()));
                    t.index.insert((n, d), k);
                    k
                }
            };
            Rat(if neg { -k } else { k }, 0)
        })
    }
    fn add_small(self, o: Rat) -> Option<Rat> {
        if self.1 == 0 || o.1 == 0 {
            return None;
        }
        if self.1 == o.1 {
            return Some(Rat::new(self.0.checked_add(o.0)?, self.1));
        }
        let g = gcd(self.1, o.1);
        let (a, b) = (self.1 / g, o.1 / g);
        Some(Rat::new(self.0.checked_mul(b)?.checked_add(o.0.checked_mul(a)?)?, self.1.checked_mul(b)?))
    }
    pub fn add(self, o: Rat) -> Rat {
        if let Some(r) = self.add_small(o) {
            return r;
        }
        let ((s, a, b), (t, c, d)) = (self.parts(), o.parts());
        let (x, y, den) = (big::mul(&a, &d), big::mul(&c, &b), big::mul(&b, &d));
        if s == t {
            Rat::from_parts(s, big::add(&x, &y), den)
        } else if big::cmp(&x, &y) == std::cmp::Ordering::Less {
            Rat::from_parts(t, big::sub(&y, &x), den)
        } else {
            Rat::from_parts(s, big::sub(&x, &y), den)
        }
    }
    fn mul_small(self, o: Rat) -> Option<Rat> {
        if self.1 == 0 || o.1 == 0 {
            return None;
        }
        let g1 = gcd(self.0, o.1).max(1);
        let g2 = gcd(o.0, self.1).max(1);
        Some(Rat((self.0 / g1).checked_mul(o.0 / g2)?, (self.1 / g2).checked_mul(o.1 / g1)?))
    }
    pub fn mul(self, o: Rat) -> Rat {
        if let Some(r) = self.mul_small(o) {
            return r;
        }
        let ((s, a, b), (t, c, d)) = (self.parts(), o.parts());
        Rat::from_parts(s != t, big::mul(&a, &c), big::mul(&b, &d))
    }
    pub fn neg(self) -> Rat {
        Rat(-self.0, self.1)
    }
    pub fn abs(self) -> Rat {
        Rat(self.0.abs(), self.1)
    }
    pub fn inv(self) -> Rat {
        if self.1 != 0 {
            return Rat::new(self.1, self.0);
        }
        let (s, n, d) = self.parts();
        Rat::from_parts(s, d, n)
    }
    pub fn f(self) -> f64 {
        if self.1 != 0 {
            return self.0 as f64 / self.1 as f64;
        }
        let (s, n, d) = self.parts();
        let r = big::ratio(&n, &d);
        if s { -r } else { r }
    }
    pub fn floor(self) -> i128 {
        if self.1 != 0 {
            return self.0.div_euclid(self.1);
        }
        let (s, n, d) = self.parts();
        let (q, r) = big::div(&n, &d);
        let q = big::small(&q).expect("SYM-OVERFLOW");
        if !s { q } else if r.is_empty() { -q } else { -q - 1 }
    }
    /// exact comparison
    pub fn less(self, o: Rat) -> bool {
        self.add(o.neg()).0 < 0
    }
    pub fn text(self) -> String {
        let (s, n, d) = self.parts();
        let n = format!("{}{}", if s { "-" } else { "" }, big::text(&n));
        if d == [1] { n } else { format!("{}/{}", n, big::text(&d)) }
    }
    /// exact value of the shortest decimal representation
    pub fn from_decimal(x: f64) -> Rat {
        let s = format!("{:e}", x);
        let (m, e) = s.split_once('e').unwrap();
        let mut e: i32 = e.parse().unwrap();
        let mut digits = m.replace('-', "");
        if let Some(p) = digits.find('.') {
            e -= (digits.len() - p - 1) as i32;
            digits.remove(p);
        }
        let mut n: i128 = digits.parse().unwrap();
        if x < 0.0 {
            n = -n;
        }
        let ten = Rat::int(10);
        let mut p = Rat::int(1);
        for _ in 0..e.unsigned_abs() {
            p = p.mul(ten);
        }
        Rat::int(n).mul(if e >= 0 { p } else { p.inv() })
    }
}

pub type Mono = Vec<(u32, u32)>; // sorted (variable, exponent)

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord, Default)]
pub struct Poly(pub BTreeMap<Mono, Rat>);

pub fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() && j < b.len() {
        if a[i].0 == b[j].0 {
            r.push((a[i].0, a[i].1 + b[j].1));
            i += 1;
            j += 1;
        } else if a[i].0 < b[j].0 {
            r.push(a[i]);
            i += 1;
        } else {
            r.push(b[j]);
            j += 1;
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

/// lexicographic order of monomials (smallest variable first)
pub fn lex(a: &Mono, b: &Mono) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    for k in 0..a.len().max(b.len()) {
        match (a.get(k), b.get(k)) {
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return if x.0 < y.0 { Greater } else { Less };
                }
                if x.1 != y.1 {
                    return x.1.cmp(&y.1);
                }
            }
            (Some(_), None) => return Greater,
            (None, Some(_)) => return Less,
            _ => (),
        }
    }
    Equal
}
/// quotient of monomials
pub fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = a.clone();
    for (v, e) in b {
        let i = r.iter().position(|t| t.0 == *v)?;
        if r[i].1 < *e {
            return None;
        }
        r[i].1 -= *e;
        if r[i].1 == 0 {
            r.remove(i);
        }
    }
    Some(r)
}
impl Poly {
    /// quotient by a polynomial that divides this one exactly
    pub fn div_exact(&self, f: &Poly) -> Option<Poly> {
        if f.0.len() > self.0.len() {
            return None;
        }
        let lead = f.0.keys().max_by(|a, b| lex(a, b))?.clone();
        let last = f.0.keys().min_by(|a, b| lex(a, b))?.clone();
        mono_div(self.0.keys().max_by(|a, b| lex(a, b))?, &lead)?;
        mono_div(self.0.keys().min_by(|a, b| lex(a, b))?, &last)?;
        let inv = f.0[&lead].inv();
        let mut rest = self.clone();
        let mut q = Poly::default();
        while !rest.is_zero() {
            let m = rest.0.keys().max_by(|a, b| lex(a, b))?.clone();
            let t = mono_div(&m, &lead)?;
            let c = rest.0[&m].mul(inv);
            for (fm, fc) in &f.0 {
                rest.add_term(mono_mul(fm, &t), fc.mul(c).neg());
            }
            q.add_term(t, c);
        }
        Some(q)
    }

    pub fn constant(c: Rat) -> Poly {
        let mut p = Poly::default();
        if !c.zero() {
            p.0.insert(vec![], c);
        }
        p
    }
    pub fn var(v: u32) -> Poly {
        let mut p = Poly::default();
        p.0.insert(vec![(v, 1)], Rat::int(1));
        p
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn as_const(&self) -> Option<Rat> {
        match self.0.len() {
            0 => Some(Rat::int(0)),
            1 => self.0.get(&vec![]).copied(),
            _ => None,
        }
    }
    pub fn add_term(&mut self, m: Mono, c: Rat) {
        if c.zero() {
            return;
        }
        match self.0.entry(m) {
            std::collections::btree_map::Entry::Vacant(e) => {
                e.insert(c);
            }
            std::collections::btree_map::Entry::Occupied(mut e) => {
                let s = e.get().add(c);
                if s.zero() {
                    e.remove();
                } else {
                    e.insert(s);
                }
            }
        }
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let mut r = self.clone();
        for (m, c) in &o.0 {
            r.add_term(m.clone(), *c);
        }
        r
    }
    pub fn scale(&self, k: Rat) -> Poly {
        if k.zero() {
            return Poly::default();
        }
        Poly(self.0.iter().map(|(m, c)| (m.clone(), c.mul(k))).collect())
    }
    pub fn mul_raw(&self, o: &Poly) -> Poly {
        let mut r = Poly::default();
        for (a, x) in &self.0 {
            for (b, y) in &o.0 {
                r.add_term(mono_mul(a, b), x.mul(*y));
            }
        }
        r
    }
    /// content (positive rational c with self = c * primitive), sign of the leading term included
    pub fn content(&self) -> Rat {
        let neg = self.0.values().next_back().map_or(false, |c| c.0 < 0);
        let quick = || {
            let (mut g, mut l) = (0i128, 1i128);
            for c in self.0.values() {
                if c.1 == 0 {
                    return None;
                }
                g = gcd(g, c.0);
                l = (l / gcd(l, c.1)).checked_mul(c.1)?;
            }
            Some(Rat::new(if neg { -1 } else { 1 } * g.max(1), l))
        };
        if let Some(c) = quick() {
            return c;
        }
        let (mut g, mut l) = (Nat::new(), big::from(1));
        for c in self.0.values() {
            let (_, n, d) = c.parts();
            g = big::gcd(&g, &n);
            l = big::mul(&big::div(&l, &big::gcd(&l, &d)).0, &d);
        }
        Rat::from_parts(neg, g, l)
    }
}
