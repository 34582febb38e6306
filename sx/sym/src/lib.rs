//! Real numbers as exact expressions: quotients of polynomials in variables and square roots.
//! The code under contract runs on these numbers; comparisons fork the execution.
#[cfg(test)]
mod tests;
mod big;
mod circle;
mod linear;
mod poly;
pub use poly::{Poly, Rat};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::ops::*;

const LIT: u32 = u32::MAX;

/// a literal (kept by value so that it can appear in constants) or an index into the table of values
#[derive(Clone, Copy)]
pub struct Sym {
    id: u32,
    bits: u64,
    den: f64, // divisor of a literal
}

#[derive(Clone, Default)]
struct Val {
    num: Poly,
    den: BTreeMap<u32, u32>, // factor -> exponent
}

#[derive(Clone)]
enum Kind {
    Var,
    Sqrt(Poly),             // value >= 0 with value^2 = polynomial
    Abs(Poly),              // |polynomial|
    Fun(&'static str, Val), // uninterpreted function of one argument
}

#[derive(Default)]
struct World {
    vals: Vec<Val>,
    names: Vec<String>,
    kinds: Vec<Kind>,
    atoms: HashMap<(u8, Poly), u32>,
    funs: Vec<(&'static str, Val, u32)>,
    probe: Vec<f64>, // values of the atoms at one fixed point, to tell different arguments apart quickly
    probes: Vec<f64>, // value of the argument of every entry of funs at this point
    factors: Vec<Poly>,
    factor_ids: HashMap<Poly, u32>,
    facts: Vec<(Poly, i32)>, // signs assumed on this path, in order
    signs: HashMap<Poly, i32>, // decided signs of primitive polynomials on this path
    positive: Vec<bool>,
    trace: Vec<(usize, usize)>, // choice, number of choices
    pos: usize,
    conds: Vec<String>,
    generic: usize, // equality tests between different expressions taken as "not equal"
    identities: usize,
    squares: HashMap<u32, Poly>, // sin(a) -> 1 - cos(a)^2
    roots: HashMap<u32, (u32, Poly)>, // atom -> (n, value of its n-th power): exp(ln(u)/n), cos(pi/b)
    circles: BTreeMap<i128, u32>, // b -> cos(pi/b)
}

thread_local! { static W: RefCell<World> = RefCell::new(World::default()); }
const S2: u32 = 0;
const S3: u32 = 1;
const PI: u32 = 2;
const SPI: u32 = 3;

impl World {
    fn reset(&mut self) {
        let t = std::mem::take(&mut self.trace);
        *self = World::default();
        self.trace = t;
        for n in ["sqrt2", "sqrt3", "pi", "sqrtpi"] {
            self.names.push(n.to_string());
            self.positive.push(true);
        }
        self.kinds.push(Kind::Sqrt(Poly::constant(Rat::int(2))));
        self.kinds.push(Kind::Sqrt(Poly::constant(Rat::int(3))));
        self.kinds.push(Kind::Var);
        self.kinds.push(Kind::Sqrt(Poly::var(PI)));
        self.atoms.insert((0, Poly::var(PI)), SPI);
    }
    fn choose(&mut self, n: usize) -> usize {
        if self.pos == self.trace.len() {
            self.trace.push((0, n));
        }
        let c = self.trace[self.pos].0;
        self.pos += 1;
        c
    }
    fn reduce(&self, p: Poly) -> Poly {
        // powers of square roots, absolute values, sines and roots
        let mut p = p;
        loop {
            let mut hit = None;
            'o: for m in p.0.keys() {
                for (v, e) in m {
                    if *e < 2 {
                        continue;
                    }
                    let n = match &self.kinds[*v as usize] {
                        Kind::Var => continue,
                        Kind::Fun(..) => {
                            if self.squares.contains_key(v) {
                                2
                            } else if let Some((n, _)) = self.roots.get(v) {
                                *n
                            } else {
                                continue;
                            }
                        }
                        _ => 2,
                    };
                    if *e >= n {
                        hit = Some((*v, n));
                        break 'o;
                    }
                }
            }
            let Some((v, n)) = hit else { return p };
            let sq = match &self.kinds[v as usize] {
                Kind::Sqrt(q) => q.clone(),
                Kind::Abs(q) => self.mul(q, q),
                _ => self.squares.get(&v).unwrap_or_else(|| &self.roots[&v].1).clone(),
            };
            let mut powers: Vec<Poly> = vec![Poly::constant(Rat::int(1)), sq.clone()];
            let mut r = Poly::default();
            for (m, c) in p.0 {
                match m.iter().position(|t| t.0 == v && t.1 >= n) {
                    None => r.add_term(m, c),
                    Some(k) => {
                        let e = m[k].1;
                        let mut rest = m.clone();
                        if e % n == 0 {
                            rest.remove(k);
                        } else {
                            rest[k].1 = e % n;
                        }
                        while powers.len() <= (e / n) as usize {
                            let n = powers[powers.len() - 1].mul_raw(&sq);
                            powers.push(n);
                        }
                        for (a, x) in &powers[(e / n) as usize].0 {
                            r.add_term(poly::mono_mul(&rest, a), x.mul(c));
                        }
                    }
                }
            }
            p = r;
        }
    }
    fn mul(&self, a: &Poly, b: &Poly) -> Poly {
        self.reduce(a.mul_raw(b))
    }
    fn factor(&mut self, p: &Poly) -> u32 {
        if let Some(i) = self.factor_ids.get(p) {
            return *i;
        }
        self.factors.push(p.clone());
        let i = (self.factors.len() - 1) as u32;
        self.factor_ids.insert(p.clone(), i);
        i
    }
    fn val(&self, s: Sym) -> Val {
        if s.id == LIT {
            let x = f64::from_bits(s.bits);
            let num = literal(x);
            if s.den == 1.0 {
                return Val { num, den: BTreeMap::new() };
            }
            // 1 / (c m) = m / (c m^2) for products m of the roots of 2 and 3
            let d = literal(s.den);
            let (m, c) = d.0.iter().next().map(|(m, c)| (m.clone(), *c)).unwrap();
            let mut sq = c;
            for (v, e) in &m {
                match (*v, *e) {
                    (S2, 1) => sq = sq.mul(Rat::int(2)),
                    (S3, 1) => sq = sq.mul(Rat::int(3)),
                    _ => return Val { num: literal(x / s.den), den: BTreeMap::new() },
                }
            }
            if d.0.len() != 1 {
                return Val { num: literal(x / s.den), den: BTreeMap::new() };
            }
            let mut q = Poly::default();
            q.add_term(m, sq.inv());
            return Val { num: self.mul(&num, &q), den: BTreeMap::new() };
        }
        self.vals[s.id as usize].clone()
    }
    fn put(&mut self, v: Val) -> Sym {
        if v.den.is_empty() {
            if let Some(c) = v.num.as_const() {
                if c.1 == 1 && c.0.abs() < 1 << 50 {
                    return Sym::lit(c.0 as f64);
                }
            }
        }
        self.vals.push(v);
        Sym { id: (self.vals.len() - 1) as u32, bits: 0, den: 1.0 }
    }
    fn pow_factor(&self, f: u32, e: u32) -> Poly {
        let mut r = Poly::constant(Rat::int(1));
        for _ in 0..e {
            r = self.mul(&r, &self.factors[f as usize]);
        }
        r
    }
    fn add_vals(&mut self, a: &Val, b: &Val, sign: i128) -> Val {
        if a.den == b.den {
            let num = a.num.add(&b.num.scale(Rat::int(sign)));
            return self.tidy(Val { num, den: a.den.clone() });
        }
        let mut den = a.den.clone();
        for (f, e) in &b.den {
            let x = den.entry(*f).or_insert(0);
            *x = (*x).max(*e);
        }
        let (mut na, mut nb) = (a.num.clone(), b.num.clone());
        for (f, e) in &den {
            let (ea, eb) = (*a.den.get(f).unwrap_or(&0), *b.den.get(f).unwrap_or(&0));
            if *e > ea {
                na = self.mul(&na, &self.pow_factor(*f, e - ea));
            }
            if *e > eb {
                nb = self.mul(&nb, &self.pow_factor(*f, e - eb));
            }
        }
        let num = na.add(&nb.scale(Rat::int(sign)));
        self.tidy(Val { num, den })
    }
    fn tidy(&mut self, mut v: Val) -> Val {
        if v.num.is_zero() {
            v.den.clear();
            return v;
        }
        // cancel a factor equal to the whole numerator
        if !v.den.is_empty() {
            let c = v.num.content();
            let prim = v.num.scale(c.inv());
            if let Some(f) = self.factor_ids.get(&prim).copied() {
                if let Some(e) = v.den.get_mut(&f) {
                    *e -= 1;
                    if *e == 0 {
                        v.den.remove(&f);
                    }
                    v.num = Poly::constant(c);
                }
            }
            // cancel factors that divide the numerator
            for f in v.den.keys().copied().collect::<Vec<_>>() {
                let p = self.factors[f as usize].clone();
                if p.0.len() < 2 || v.num.0.len() > 600 {
                    continue;
                }
                while v.den.contains_key(&f) {
                    let Some(q) = v.num.div_exact(&p) else { break };
                    v.num = q;
                    let e = v.den.get_mut(&f).unwrap();
                    *e -= 1;
                    if *e == 0 {
                        v.den.remove(&f);
                    }
                }
            }
            // cancel single variables
            let single: Vec<(u32, u32)> = v.den.keys().filter_map(|f| {
                let p = &self.factors[*f as usize];
                if p.0.len() == 1 { let m = p.0.keys().next().unwrap(); if m.len() == 1 && m[0].1 == 1 { return Some((*f, m[0].0)); } }
                None
            }).collect();
            for (f, x) in single {
                let e = v.den[&f];
                let k = v.num.0.keys().map(|m| m.iter().find(|t| t.0 == x).map_or(0, |t| t.1)).min().unwrap_or(0).min(e);
                if k > 0 {
                    let mut n = Poly::default();
                    for (m, c) in &v.num.0 {
                        let mut m = m.clone();
                        let i = m.iter().position(|t| t.0 == x).unwrap();
                        if m[i].1 == k { m.remove(i); } else { m[i].1 -= k; }
                        n.add_term(m, *c);
                    }
                    v.num = n;
                    if e == k { v.den.remove(&f); } else { *v.den.get_mut(&f).unwrap() -= k; }
                }
            }
        }
        v
    }
    fn mul_vals(&mut self, a: &Val, b: &Val) -> Val {
        let num = self.mul(&a.num, &b.num);
        let mut den = a.den.clone();
        for (f, e) in &b.den {
            *den.entry(*f).or_insert(0) += e;
        }
        self.tidy(Val { num, den })
    }
    fn inv_val(&mut self, a: &Val) -> Val {
        if a.num.is_zero() {
            panic!("SYM-DIVISION-BY-ZERO");
        }
        let mut num = Poly::constant(Rat::int(1));
        for (f, e) in &a.den {
            num = self.mul(&num, &self.pow_factor(*f, *e));
        }
        let c = a.num.content();
        num = num.scale(c.inv());
        let prim = a.num.scale(c.inv());
        if prim.as_const().is_some() {
            return Val { num, den: BTreeMap::new() };
        }
        if let Some(q) = self.circle_inverse(&prim) {
            let num = self.mul(&num, &q);
            return Val { num, den: BTreeMap::new() };
        }
        let mut den = BTreeMap::new();
        if prim.0.len() == 1 {
            // single term: one factor per variable, square roots rationalised
            let (m, _) = prim.0.iter().next().unwrap();
            for (v, e) in m.clone() {
                match self.kinds[v as usize].clone() {
                    Kind::Sqrt(q) => {
                        num = self.mul(&num, &Poly::var(v));
                        if let Some(k) = q.as_const() {
                            num = num.scale(k.inv());
                        } else {
                            let c = q.content();
                            num = num.scale(c.inv());
                            let f = self.factor(&q.scale(c.inv()));
                            *den.entry(f).or_insert(0) += 1;
                        }
                    }
                    _ => {
                        let f = self.factor(&Poly::var(v));
                        *den.entry(f).or_insert(0) += e;
                    }
                }
            }
        } else {
            let f = self.factor(&prim);
            den.insert(f, 1);
        }
        self.tidy(Val { num, den })
    }
    fn new_var(&mut self, name: &str, kind: Kind, positive: bool) -> u32 {
        self.names.push(name.to_string());
        self.kinds.push(kind);
        self.positive.push(positive);
        (self.names.len() - 1) as u32
    }
    fn show(&self, p: &Poly) -> String {
        if p.is_zero() {
            return "0".into();
        }
        let mut s = String::new();
        for (k, (m, c)) in p.0.iter().enumerate() {
            if k == 12 {
                s.push_str(&format!(" ... ({} terms)", p.0.len()));
                break;
            }
            let n: Vec<String> = m.iter().map(|(v, e)| if *e == 1 { self.names[*v as usize].clone() } else { format!("{}^{}", self.names[*v as usize], e) }).collect();
            let co = c.text();
            s.push_str(&format!("{}{}{}{}", if k > 0 { " + " } else { "" }, co, if n.is_empty() { "" } else { "*" }, n.join("*")));
        }
        s
    }
    fn show_val(&self, v: &Val) -> String {
        let mut s = format!("({})", self.show(&v.num));
        for (f, e) in &v.den {
            s.push_str(&format!(" / ({})^{}", self.show(&self.factors[*f as usize]), e));
        }
        s
    }
    /// sign of a polynomial on this path, forking if it is not determined
    fn sign(&mut self, p: &Poly) -> i32 {
        if p.is_zero() {
            return 0;
        }
        if let Some(c) = p.as_const() {
            return if c.0 > 0 { 1 } else { -1 };
        }
        if let Some(x) = self.const_value(p) {
            let mut big = 0.0;
            for (m, c) in &p.0 {
                let mut q = Poly::default();
                q.add_term(m.clone(), *c);
                big += self.const_value(&q).unwrap_or(f64::INFINITY).abs();
            }
            if x.is_finite() && x.abs() > 1e-11 * big {
                return if x > 0.0 { 1 } else { -1 };
            }
            panic!("SYM-UNDECIDED constant");
        }
        let c = p.content();
        let s = if c.0 < 0 { -1 } else { 1 };
        let prim = p.scale(c.inv());
        if let Some(k) = self.signs.get(&prim) {
            return s * k;
        }
        // all terms positive (or all negative) in positive atoms
        let pos = prim.0.iter().all(|(m, c)| c.0 > 0 && m.iter().all(|(v, e)| e % 2 == 0 || self.positive[*v as usize]));
        if pos {
            return s;
        }
        if let Some(k) = self.interval(&prim) {
            return s * k;
        }
        if let Some(k) = self.implied(&prim) {
            self.signs.insert(prim, k);
            return s * k;
        }
        if let Some(d) = self.logarithms(&prim) {
            // sum of n ln u has the sign of the product of u^n minus one
            let k = self.sign(&d);
            self.signs.insert(prim, k);
            return s * k;
        }
        if let Some(k) = self.linear(&prim) {
            self.signs.insert(prim, k);
            return s * k;
        }
        let k = if self.choose(2) == 0 { 1 } else { -1 };
        let text = self.show(&prim);
        self.facts.push((prim.clone(), k));
        self.conds.push(format!("{} {} 0", text, if k > 0 { ">" } else { "<" }));
        self.signs.insert(prim, k);
        s * k
    }
    /// for a sum of whole multiples of logarithms of polynomials: difference of the products
    fn logarithms(&self, p: &Poly) -> Option<Poly> {
        let (mut a, mut b) = (Poly::constant(Rat::int(1)), Poly::constant(Rat::int(1)));
        for (m, c) in &p.0 {
            let [(v, 1)] = m[..] else { return None };
            let Kind::Fun("ln", u) = &self.kinds[v as usize] else { return None };
            if c.1 != 1 || c.0.abs() > 8 || !u.den.is_empty() {
                return None;
            }
            for _ in 0..c.0.abs() {
                if c.0 > 0 { a = self.mul(&a, &u.num) } else { b = self.mul(&b, &u.num) }
            }
        }
        let d = a.add(&b.scale(Rat::int(-1)));
        if d.is_zero() { None } else { Some(d) }
    }
    /// sign of a polynomial that is a decided one times a positive number plus terms of known sign
    fn implied(&self, p: &Poly) -> Option<i32> {
        let nonneg = |q: &Poly| q.0.iter().all(|(m, c)| c.0 > 0 && m.iter().all(|(v, e)| e % 2 == 0 || self.positive[*v as usize]));
        for (q, k) in &self.signs {
            for (m, c) in &q.0 {
                let Some(d) = p.0.get(m) else { continue };
                let f = d.mul(c.inv());
                // p = f q + rest, where q has the sign k
                let t = if (f.0 > 0) == (*k > 0) { 1 } else { -1 };
                let mut rest = p.clone();
                for (m2, c2) in &q.0 {
                    rest.add_term(m2.clone(), c2.mul(f).mul(Rat::int(-1)));
                }
                if nonneg(&rest.scale(Rat::int(t))) {
                    return Some(t as i32);
                }
            }
        }
        None
    }
    /// sign of a polynomial that is a combination of decided ones
    fn linear(&self, p: &Poly) -> Option<i32> {
        // facts about the monomials of the polynomial, about the monomials of these facts ..
        let mut seen: std::collections::HashSet<&poly::Mono> = Default::default();
        let mut used = vec![false; self.facts.len()];
        let mut bounds: Vec<(u32, Poly)> = vec![];
        let mut queue: Vec<&poly::Mono> = p.0.keys().collect();
        let sizes: Vec<(&poly::Mono, &Poly)> = self.facts.iter().flat_map(|f| f.0.0.keys()).filter_map(|m| match m[..] {
            [(v, 1)] => if let Kind::Abs(q) = &self.kinds[v as usize] { Some((m, q)) } else { None },
            _ => None,
        }).collect();
        while let Some(m) = queue.pop() {
            if m.is_empty() || !seen.insert(m) {
                continue;
            }
            for (i, (q, _)) in self.facts.iter().enumerate() {
                if !used[i] && q.0.contains_key(m) {
                    used[i] = true;
                    queue.extend(q.0.keys());
                }
            }
            queue.extend(sizes.iter().filter(|(_, q)| q.0.contains_key(m)).map(|s| s.0));
            if let [(v, 1)] = m[..] {
                if let Kind::Abs(q) = &self.kinds[v as usize] {
                    // |q| - q >= 0, |q| + q >= 0, one of them zero if the sign is known
                    let known = self.signs.get(q).copied().unwrap_or(0);
                    for s in [1, -1] {
                        let mut b = q.scale(Rat::int(s));
                        b.add_term(vec![(v, 1)], Rat::int(1));
                        if known == -s as i32 {
                            bounds.push((v, b.scale(Rat::int(-1))));
                        }
                        bounds.push((v, b));
                    }
                    queue.extend(q.0.keys());
                }
            }
        }
        bounds.sort_by_key(|b| b.0);
        let mut facts: Vec<(&Poly, bool, i32)> = self.facts.iter().zip(&used).filter(|(_, u)| **u).map(|((q, k), _)| (q, true, *k)).collect();
        if facts.is_empty() && bounds.is_empty() || facts.len() > 40 || seen.len() > 60 {
            return None;
        }
        facts.extend(bounds.iter().map(|b| (&b.1, false, 1)));
        let nonneg = |m: &poly::Mono| m.iter().all(|(v, e)| e % 2 == 0 || self.positive[*v as usize]);
        if linear::follows(p, &facts, &nonneg) {
            return Some(1);
        }
        if linear::follows(&p.scale(Rat::int(-1)), &facts, &nonneg) {
            return Some(-1);
        }
        None
    }
    // polynomial a*x + b in a single non-negative atom x with constant b: |x| + 1 > 0 etc.
    fn interval(&self, p: &Poly) -> Option<i32> {
        let neg = p.0.iter().all(|(m, c)| c.0 < 0 && m.iter().all(|(v, e)| e % 2 == 0 || self.positive[*v as usize]));
        if neg { Some(-1) } else { None }
    }
    fn const_value(&self, p: &Poly) -> Option<f64> {
        let mut s = 0.0;
        for (m, c) in &p.0 {
            let mut t = c.f();
            for (v, e) in m {
                let x = match *v {
                    S2 => 2f64.sqrt(),
                    S3 => 3f64.sqrt(),
                    PI => std::f64::consts::PI,
                    SPI => std::f64::consts::PI.sqrt(),
                    _ => match &self.kinds[*v as usize] {
                        Kind::Sqrt(q) => self.const_value(q)?.sqrt(),
                        Kind::Abs(q) => self.const_value(q)?.abs(),
                        Kind::Fun(n, a) => {
                            let mut y = self.const_value(&a.num)?;
                            for (f, e) in &a.den {
                                y /= self.const_value(&self.factors[*f as usize])?.powi(*e as i32);
                            }
                            fun_value(n, y)?
                        }
                        _ => return None,
                    },
                };
                t *= x.powi(*e as i32);
            }
            s += t;
        }
        Some(s)
    }
    fn sign_val(&mut self, v: &Val) -> i32 {
        let mut s = self.sign(&v.num.clone());
        for (f, e) in v.den.clone() {
            if e % 2 == 1 && s != 0 {
                let p = self.factors[f as usize].clone();
                s *= self.sign(&p);
            }
        }
        s
    }
    fn sqrt_val(&mut self, v: &Val) -> Val {
        if v.num.is_zero() {
            return v.clone();
        }
        // numerator times odd denominators under the root
        let mut num = v.num.clone();
        let mut den = BTreeMap::new();
        for (f, e) in &v.den {
            if e % 2 == 1 {
                num = self.mul(&num, &self.factors[*f as usize]);
            }
            den.insert(*f, (e + 1) / 2);
        }
        let c = num.content().abs();
        let prim = num.scale(c.inv());
        // c = a/b = (a*b)/b^2
        let (out, mut rest) = match sqrt_rat(c) {
            Some(r) => r,
            None => {
                let a = self.atom(0, &Poly::constant(c), "sqrt");
                return self.sqrt_rest(Poly::var(a), &prim, den);
            }
        };
        let mut root = Poly::constant(out);
        for (k, v) in [(2, S2), (3, S3)] {
            if rest % k == 0 {
                rest /= k;
                root = self.mul(&root, &Poly::var(v));
            }
        }
        if rest != 1 {
            let q = Poly::constant(Rat::int(rest));
            let a = self.atom(0, &q, "sqrt");
            root = self.mul(&root, &Poly::var(a));
        }
        self.sqrt_rest(root, &prim, den)
    }
    /// root times the square root of the primitive polynomial over the denominator
    fn sqrt_rest(&mut self, mut root: Poly, prim: &Poly, den: BTreeMap<u32, u32>) -> Val {
        if prim.as_const().is_none() {
            // perfect square of a single term?
            let single = prim.0.len() == 1 && prim.0.keys().next().unwrap().iter().all(|(v, e)| e % 2 == 0 && self.positive[*v as usize]);
            if single {
                let m: Vec<(u32, u32)> = prim.0.keys().next().unwrap().iter().map(|(v, e)| (*v, e / 2)).collect();
                let mut p = Poly::default();
                p.add_term(m, Rat::int(1));
                root = self.mul(&root, &p);
            } else {
                let a = self.atom(0, prim, "sqrt");
                root = self.mul(&root, &Poly::var(a));
            }
        }
        // the root of a squared denominator is its absolute value; only positive ones are accepted
        for (f, _) in den.clone() {
            let p = self.factors[f as usize].clone();
            if self.sign(&p) < 0 {
                root = root.scale(Rat::int(-1));
            }
        }
        let r = Val { num: root, den };
        self.tidy(r)
    }
    fn atom(&mut self, tag: u8, p: &Poly, name: &str) -> u32 {
        if let Some(a) = self.atoms.get(&(tag, p.clone())) {
            return *a;
        }
        let text = self.show(p);
        let label = if text.len() < 60 { format!("{}({})", name, text) } else { format!("{}_{}", name, self.names.len()) };
        let kind = if tag == 0 { Kind::Sqrt(p.clone()) } else { Kind::Abs(p.clone()) };
        let a = self.new_var(&label, kind, true);
        self.atoms.insert((tag, p.clone()), a);
        a
    }
    fn fun(&mut self, name: &'static str, v: &Val) -> Sym {
        while self.probe.len() < self.kinds.len() {
            let k = self.probe.len();
            let mut seed = 0x2545F4914F6CDD1Du64.wrapping_mul(2 * k as u64 + 1);
            random(&mut seed);
            self.probe.push(self.base_value(k, 0, &mut seed));
            self.probe[k] = self.complete_one(k, &self.probe);
        }
        let at = self.eval_val(v, &self.probe);
        for k in 0..self.funs.len() {
            if self.funs[k].0 == name {
                if (at - self.probes[k]).abs() > 1e-6 * (at.abs() + self.probes[k].abs()) {
                    continue;
                }
                let (_, w, id) = self.funs[k].clone();
                let d = self.add_vals(v, &w, -1);
                if d.num.is_zero() {
                    return self.put(Val { num: Poly::var(id), den: BTreeMap::new() });
                }
            }
        }
        let label = format!("{}#{}", name, self.funs.len());
        let id = self.new_var(&label, Kind::Fun(name, v.clone()), name == "exp");
        self.funs.push((name, v.clone(), id));
        self.probes.push(at);
        if name == "sin" {
            let c = self.fun("cos", v);
            let c = self.val(c).num;
            let mut q = Poly::constant(Rat::int(1));
            for (m, x) in self.mul(&c, &c).0 {
                q.add_term(m, x.mul(Rat::int(-1)));
            }
            self.squares.insert(id, q);
        }
        self.put(Val { num: Poly::var(id), den: BTreeMap::new() })
    }
    /// whole multiple of the atom inverse(w): (multiple, w)
    fn multiple(&self, v: &Val, inverse: &str) -> Option<(i128, Val)> {
        if !v.den.is_empty() || v.num.0.len() != 1 {
            return None;
        }
        let (m, c) = v.num.0.iter().next()?;
        let [(x, 1)] = m[..] else { return None };
        match &self.kinds[x as usize] {
            Kind::Fun(n, w) if *n == inverse && c.1 == 1 && c.0.abs() <= 64 => Some((c.0, w.clone())),
            _ => None,
        }
    }
    /// cos or cosh (even) and sin or sinh of n times the angle whose cosine is w, by the addition theorem
    fn angle(&mut self, n: i128, w: &Val, odd: bool, hyperbolic: bool) -> Val {
        let one = Val { num: Poly::constant(Rat::int(1)), den: BTreeMap::new() };
        let zero = Val { num: Poly::default(), den: BTreeMap::new() };
        // value at one and two steps back: cos 0 = 1, cos(-1) = w; sin 0 = 0, sin(-1) = -1 (in units of the sine)
        let (mut a, mut b) = if odd { (zero, one.clone()) } else { (one.clone(), w.clone()) };
        for _ in 0..n.abs() {
            let t = self.mul_vals(w, &b);
            let t = self.add_vals(&t, &t, 1);
            let c = self.add_vals(&t, &a, -1);
            a = b;
            b = c;
        }
        if !odd {
            return a;
        }
        let sq = self.mul_vals(w, w);
        let d = if hyperbolic { self.add_vals(&sq, &one, -1) } else { self.add_vals(&one, &sq, -1) };
        let s = self.sqrt_val(&d);
        let r = self.mul_vals(&a, &s);
        if n < 0 { Val { num: r.num.scale(Rat::int(-1)), den: r.den } } else { r }
    }
    fn fun_atom(&mut self, name: &'static str, v: &Val) -> Val {
        let s = self.fun(name, v);
        self.val(s)
    }
    fn pow_val(&mut self, v: &Val, n: i128) -> Val {
        let base = if n < 0 { self.inv_val(v) } else { v.clone() };
        let mut r = Val { num: Poly::constant(Rat::int(1)), den: BTreeMap::new() };
        for _ in 0..n.abs() {
            r = self.mul_vals(&r, &base);
        }
        r
    }
    /// exponential: one factor per term of the argument, multiples of logarithms become powers
    fn exp_val(&mut self, v: &Val) -> Val {
        let mut r = Val { num: Poly::constant(Rat::int(1)), den: BTreeMap::new() };
        for (m, c) in v.num.0.clone() {
            let log = if v.den.is_empty() && m.len() == 1 && m[0].1 == 1 {
                match &self.kinds[m[0].0 as usize] {
                    Kind::Fun("ln", a) => Some(a.clone()),
                    _ => None,
                }
            } else {
                None
            };
            let (p, q) = (c.0, c.1);
            let f = if let (Some(a), true) = (&log, (q == 1 || q == 2) && p.abs() <= 24) {
                let base = if q == 2 { self.sqrt_val(a) } else { a.clone() };
                self.pow_val(&base, p)
            } else {
                let (unit, n) = if q > 0 && q < 1000 && p.abs() <= 24 { (Rat::new(1, q), p) } else { (c.abs(), if p < 0 { -1 } else { 1 }) };
                let mut num = Poly::default();
                num.add_term(m, unit);
                let arg = self.tidy(Val { num, den: v.den.clone() });
                let e = self.fun_atom("exp", &arg);
                if let Some(a) = log {
                    if a.den.is_empty() && unit.0 == 1 && unit.1 > 1 {
                        let id = e.num.0.keys().next().unwrap()[0].0;
                        self.roots.insert(id, (unit.1 as u32, a.num));
                    }
                }
                self.pow_val(&e, n)
            };
            r = self.mul_vals(&r, &f);
        }
        r
    }
    fn known_positive(&self, p: &Poly) -> bool {
        p.0.iter().all(|(m, c)| c.0 > 0 && m.iter().all(|(x, e)| e % 2 == 0 || self.positive[*x as usize])) || self.signs.get(p) == Some(&1) || self.implied(p) == Some(1)
    }
    /// logarithm: sum over the factors of the argument that are known to be positive
    fn ln_val(&mut self, v: &Val) -> Val {
        let mut parts: Vec<(Poly, i128)> = vec![];
        for (f, e) in &v.den {
            let p = self.factors[*f as usize].clone();
            let c = p.content();
            let prim = p.scale(c.inv());
            if c.0 < 0 || !self.known_positive(&prim) {
                return self.fun_atom("ln", v);
            }
            parts.push((prim, -(*e as i128)));
            parts.push((Poly::constant(c), -(*e as i128)));
        }
        let c = v.num.content().abs();
        let prim = v.num.scale(c.inv());
        // common positive monomial of the numerator
        let mut common: Vec<(u32, u32)> = prim.0.keys().next().cloned().unwrap_or_default();
        for m in prim.0.keys() {
            common = common.iter().filter_map(|(x, e)| m.iter().find(|t| t.0 == *x).map(|t| (*x, (*e).min(t.1)))).collect();
        }
        common.retain(|(x, _)| self.positive[*x as usize]);
        let mut rest = Poly::default();
        for (m, k) in &prim.0 {
            rest.add_term(poly::mono_div(m, &common).unwrap(), *k);
        }
        let one = rest.as_const() == Some(Rat::int(1));
        if (!one && !self.known_positive(&rest) && !(parts.is_empty() && common.is_empty())) || c.0 == 0 {
            return self.fun_atom("ln", v);
        }
        for (x, e) in common {
            parts.push((Poly::var(x), e as i128));
        }
        if !one {
            parts.push((rest, 1));
        }
        parts.push((Poly::constant(c), 1));
        let mut r = Val::default();
        for (p, e) in parts {
            let mut t = Val::default();
            if let Some(k) = p.as_const() {
                if k == Rat::int(1) {
                    continue;
                }
                let mut left = if k.1 == 0 { vec![(k, 1)] } else { vec![] };
                if k.1 != 0 {
                    for (mut n, s) in [(k.0, 1), (k.1, -1)] {
                        let mut d = 2;
                        while n > 1 && d < 1000 {
                            while n % d == 0 {
                                left.push((Rat::int(d), s));
                                n /= d;
                            }
                            d += 1;
                        }
                        if n > 1 {
                            left.push((Rat::int(n), s));
                        }
                    }
                }
                for (n, s) in left {
                    let a = self.fun_atom("ln", &Val { num: Poly::constant(n), den: BTreeMap::new() });
                    t = self.add_vals(&t, &a, s);
                }
            } else {
                let kind = if p.0.len() == 1 && p.0.keys().next().unwrap().len() == 1 && p.0.keys().next().unwrap()[0].1 == 1 { Some(self.kinds[p.0.keys().next().unwrap()[0].0 as usize].clone()) } else { None };
                t = match kind {
                    Some(Kind::Fun("exp", a)) => a,
                    Some(Kind::Sqrt(q)) => {
                        let l = self.ln_val(&Val { num: q, den: BTreeMap::new() });
                        Val { num: l.num.scale(Rat::new(1, 2)), den: l.den }
                    }
                    _ => self.fun_atom("ln", &Val { num: p, den: BTreeMap::new() }),
                };
            }
            for _ in 0..e.abs() {
                r = self.add_vals(&r, &t, if e < 0 { -1 } else { 1 });
            }
        }
        r
    }
    fn diff_atom(&mut self, v: u32, x: u32) -> Val {
        let zero = Val::default();
        if v == x {
            return Val { num: Poly::constant(Rat::int(1)), den: BTreeMap::new() };
        }
        match self.kinds[v as usize].clone() {
            Kind::Var => zero,
            Kind::Sqrt(p) => {
                let d = self.diff_poly(&p, x);
                if d.num.is_zero() {
                    return zero;
                }
                let two = Val { num: Poly::var(v).scale(Rat::int(2)), den: BTreeMap::new() };
                let i = self.inv_val(&two);
                self.mul_vals(&d, &i)
            }
            Kind::Abs(p) => {
                let d = self.diff_poly(&p, x);
                if d.num.is_zero() {
                    return zero;
                }
                let s = self.sign(&p);
                Val { num: d.num.scale(Rat::int(s as i128)), den: d.den }
            }
            Kind::Fun(n, a) => {
                let d = self.diff_val(&a, x);
                if d.num.is_zero() {
                    return zero;
                }
                let one = Val { num: Poly::constant(Rat::int(1)), den: BTreeMap::new() };
                let outer = match n {
                    "exp" => Val { num: Poly::var(v), den: BTreeMap::new() },
                    "ln" => self.inv_val(&a),
                    "sin" => { let s = self.fun("cos", &a); self.val(s) }
                    "cos" => { let s = self.fun("sin", &a); let w = self.val(s); Val { num: w.num.scale(Rat::int(-1)), den: w.den } }
                    "erf" => {
                        // 2/sqrt(pi) exp(-a^2)
                        let sq = self.mul_vals(&a, &a);
                        let e = self.exp_val(&Val { num: sq.num.scale(Rat::int(-1)), den: sq.den });
                        let sp = self.sqrt_val(&Val { num: Poly::var(PI), den: BTreeMap::new() });
                        let i = self.inv_val(&sp);
                        let r = self.mul_vals(&e, &i);
                        Val { num: r.num.scale(Rat::int(2)), den: r.den }
                    }
                    _ => panic!("SYM-UNSUPPORTED derivative of {}", n),
                };
                let _ = one;
                self.mul_vals(&d, &outer)
            }
        }
    }
    fn diff_poly(&mut self, p: &Poly, x: u32) -> Val {
        let mut vars: Vec<u32> = p.0.keys().flat_map(|m| m.iter().map(|t| t.0)).collect();
        vars.sort();
        vars.dedup();
        let mut r = Val::default();
        for v in vars {
            let dv = self.diff_atom(v, x);
            if dv.num.is_zero() {
                continue;
            }
            let mut q = Poly::default();
            for (m, c) in &p.0 {
                if let Some(k) = m.iter().position(|t| t.0 == v) {
                    let e = m[k].1;
                    let mut m = m.clone();
                    if e == 1 {
                        m.remove(k);
                    } else {
                        m[k].1 -= 1;
                    }
                    q.add_term(m, c.mul(Rat::int(e as i128)));
                }
            }
            let q = self.reduce(q);
            let t = self.mul_vals(&Val { num: q, den: BTreeMap::new() }, &dv);
            r = self.add_vals(&r, &t, 1);
        }
        r
    }
    fn diff_val(&mut self, v: &Val, x: u32) -> Val {
        // n/d: (n' - n d'/d)/d
        let one = Val { num: Poly::constant(Rat::int(1)), den: v.den.clone() };
        let dn = self.diff_poly(&v.num, x);
        let mut r = self.mul_vals(&dn, &one);
        for (f, e) in v.den.clone() {
            let p = self.factors[f as usize].clone();
            let dp = self.diff_poly(&p, x);
            if dp.num.is_zero() {
                continue;
            }
            let mut d1 = BTreeMap::new();
            d1.insert(f, 1);
            let t = self.mul_vals(&dp, &Val { num: Poly::constant(Rat::int(e as i128)), den: d1 });
            let t = self.mul_vals(&t, v);
            r = self.add_vals(&r, &t, -1);
        }
        r
    }
}

impl World {
    fn point(&self, seed: &mut u64) -> Vec<f64> {
        let base: Vec<f64> = (0..self.kinds.len()).map(|k| self.base_value(k, 0, seed)).collect();
        self.complete(base)
    }
    fn base_value(&self, k: usize, kind: u64, seed: &mut u64) -> f64 {
        let u = random(seed);
        let v = match kind {
            0 => return if self.positive[k] { 0.1 + 3.0 * u } else { -3.0 + 6.0 * u },
            1 => 10f64.powf(-18.0 + 21.0 * u),
            2 => 10f64.powf(-3.0 + 9.0 * u),
            _ => 10.0 * u,
        };
        if self.positive[k] || random(seed) < 0.5 { v } else { -v }
    }
    /// values of all atoms for values of the variables
    fn complete(&self, mut x: Vec<f64>) -> Vec<f64> {
        for k in 0..self.kinds.len() {
            x[k] = self.complete_one(k, &x);
        }
        x
    }
    fn complete_one(&self, k: usize, x: &[f64]) -> f64 {
        match &self.kinds[k] {
            Kind::Var if k as u32 == PI => std::f64::consts::PI,
            Kind::Var => x[k],
            Kind::Sqrt(p) => self.eval(p, x).sqrt(),
            Kind::Abs(p) => self.eval(p, x).abs(),
            Kind::Fun(n, a) => fun_value(n, self.eval_val(a, x)).unwrap_or(f64::NAN),
        }
    }
    /// whether a point with all the signs assumed on this path was found
    fn feasible(&self) -> bool {
        let signs: Vec<(Poly, i32)> = self.signs.iter().map(|(p, s)| (p.clone(), *s)).collect();
        // clearly of the sign: beyond rounding
        let violated = |x: &Vec<f64>| {
            signs.iter().filter(|(p, s)| {
                let mut big = 0.0;
                for (m, c) in &p.0 {
                    let mut q = Poly::default();
                    q.add_term(m.clone(), *c);
                    big += self.eval(&q, x).abs();
                }
                !(self.eval(p, x) * (*s as f64) > 1e-10 * big)
            }).count()
        };
        let vars: Vec<usize> = (0..self.kinds.len()).filter(|k| *k > SPI as usize && matches!(self.kinds[*k], Kind::Var)).collect();
        let mut seed = 0x9E3779B97F4A7C15u64;
        for _ in 0..60 {
            let mut x = self.point(&mut seed);
            let mut n = violated(&x);
            if n == 0 {
                return true;
            }
            if vars.is_empty() {
                return false;
            }
            for _ in 0..200 {
                let k = vars[(random(&mut seed) * vars.len() as f64) as usize % vars.len()];
                let mut y = x.clone();
                let kind = (random(&mut seed) * 4.0) as u64;
                y[k] = self.base_value(k, kind, &mut seed);
                let y = self.complete(y);
                let m = violated(&y);
                if m == 0 {
                    return true;
                }
                if m <= n {
                    x = y;
                    n = m;
                }
            }
        }
        false
    }
    fn eval(&self, p: &Poly, x: &[f64]) -> f64 {
        let mut r = 0.0;
        for (m, c) in &p.0 {
            let mut t = c.f();
            for (v, e) in m {
                t *= x.get(*v as usize).copied().unwrap_or(f64::NAN).powi(*e as i32);
            }
            r += t;
        }
        r
    }
    fn eval_val(&self, v: &Val, x: &[f64]) -> f64 {
        let mut r = self.eval(&v.num, x);
        for (f, e) in &v.den {
            r /= self.eval(&self.factors[*f as usize], x).powi(*e as i32);
        }
        r
    }
    fn depends(&self, v: u32, x: u32) -> bool {
        let dp = |p: &Poly| p.0.keys().any(|m| m.iter().any(|t| self.depends(t.0, x)));
        v == x
            || match &self.kinds[v as usize] {
                Kind::Var => false,
                Kind::Sqrt(p) | Kind::Abs(p) => dp(p),
                Kind::Fun(_, a) => dp(&a.num) || a.den.keys().any(|f| dp(&self.factors[*f as usize])),
            }
    }
    fn subst_atom(&mut self, v: u32, x: u32, at: &Val) -> Val {
        if v == x {
            return at.clone();
        }
        match self.kinds[v as usize].clone() {
            Kind::Var => unreachable!(),
            Kind::Sqrt(p) => {
                let q = self.subst_poly(&p, x, at);
                self.sqrt_val(&q)
            }
            Kind::Abs(p) => {
                let q = self.subst_poly(&p, x, at);
                let s = self.sign_val(&q);
                Val { num: q.num.scale(Rat::int(if s < 0 { -1 } else { 1 })), den: q.den }
            }
            Kind::Fun(n, a) => {
                let a = self.subst_val(&a, x, at);
                match n {
                    "exp" => self.exp_val(&a),
                    "ln" if !a.num.is_zero() => self.ln_val(&a),
                    _ => self.fun_atom(n, &a),
                }
            }
        }
    }
    fn subst_poly(&mut self, p: &Poly, x: u32, at: &Val) -> Val {
        // terms grouped by the part that depends on x
        let mut groups: BTreeMap<Vec<(u32, u32)>, Poly> = BTreeMap::new();
        for (m, c) in &p.0 {
            let (a, b): (Vec<_>, Vec<_>) = m.iter().cloned().partition(|t| self.depends(t.0, x));
            groups.entry(a).or_default().add_term(b, *c);
        }
        let mut r = Val::default();
        for (a, q) in groups {
            let mut t = Val { num: q, den: BTreeMap::new() };
            for (v, e) in a {
                let s = self.subst_atom(v, x, at);
                for _ in 0..e {
                    t = self.mul_vals(&t, &s);
                }
            }
            r = self.add_vals(&r, &t, 1);
        }
        r
    }
    fn subst_val(&mut self, v: &Val, x: u32, at: &Val) -> Val {
        let mut r = self.subst_poly(&v.num, x, at);
        for (f, e) in v.den.clone() {
            let p = self.factors[f as usize].clone();
            let q = self.subst_poly(&p, x, at);
            if q.num.is_zero() {
                panic!("SYM-UNSUPPORTED division by zero");
            }
            let i = self.inv_val(&q);
            for _ in 0..e {
                r = self.mul_vals(&r, &i);
            }
        }
        r
    }
}

fn random(seed: &mut u64) -> f64 {
    *seed ^= *seed << 13;
    *seed ^= *seed >> 7;
    *seed ^= *seed << 17;
    (*seed >> 11) as f64 / (1u64 << 53) as f64
}
fn fun_value(name: &str, a: f64) -> Option<f64> {
    Some(match name {
        "exp" => a.exp(),
        "ln" => a.ln(),
        "sin" => a.sin(),
        "cos" => a.cos(),
        "acos" => a.acos(),
        "asin" => a.asin(),
        "atan" => a.atan(),
        "cosh" => a.cosh(),
        "acosh" => a.acosh(),
        "sinh" => a.sinh(),
        "tanh" => a.tanh(),
        "cbrt" => a.cbrt(),
        "log10" => a.log10(),
        "log2" => a.log2(),
        "erf" => erf_value(a),
        "gamma" => gamma_value(a),
        _ => return None,
    })
}

fn erf_value(x: f64) -> f64 {
    if x.abs() > 5.0 {
        return x.signum();
    }
    // series of positive terms: 2/sqrt(pi) exp(-x^2) sum of 2^n x^(2n+1) / (2n+1)!!
    let (mut t, mut r, mut n) = (x, x, 0.0);
    while t.abs() > 1e-18 * r.abs() && n < 300.0 {
        n += 1.0;
        t *= 2.0 * x * x / (2.0 * n + 1.0);
        r += t;
    }
    r * 2.0 / std::f64::consts::PI.sqrt() * (-x * x).exp()
}
fn gamma_value(x: f64) -> f64 {
    if x < 12.0 {
        return gamma_value(x + 1.0) / x;
    }
    // Stirling
    let y = 1.0 / (x * x);
    let c = (1.0 / 12.0 - y * (1.0 / 360.0 - y * (1.0 / 1260.0 - y * (1.0 / 1680.0 - y / 1188.0)))) / x;
    ((x - 0.5) * x.ln() - x + 0.5 * (2.0 * std::f64::consts::PI).ln() + c).exp()
}

fn sqrt_rat(c: Rat) -> Option<(Rat, i128)> {
    let n = if c.1 == 0 { None } else { c.0.checked_mul(c.1) }?;
    // n = s^2 * r, trial division
    let (mut s, mut r, mut k) = (1i128, n, 2i128);
    while k * k <= r && k < 100_000 {
        while r % (k * k) == 0 {
            r /= k * k;
            s *= k;
        }
        k += 1;
    }
    Some((Rat::new(s, c.1), r))
}

/// numbers of the code read as exact reals
fn literal(x: f64) -> Poly {
    if x.is_nan() || x.is_infinite() {
        panic!("SYM-UNSUPPORTED literal");
    }
    let (s2, s3) = (Poly::var(S2), Poly::var(S3));
    let table: [(f64, Poly); 12] = [
        (2f64.sqrt(), s2.clone()),
        (3f64.sqrt(), s3.clone()),
        (2.44948974278317809819728407470589139_f64, s2.mul_raw(&s3)),
        (0.816496580927726032732428024901963797_f64, s2.mul_raw(&s3).scale(Rat::new(1, 3))),
        (1.22474487139158904909864203735294569_f64, s2.mul_raw(&s3).scale(Rat::new(1, 2))),
        (1.0 / 3.0, Poly::constant(Rat::new(1, 3))),
        (2.0 / 3.0, Poly::constant(Rat::new(2, 3))),
        (std::f64::consts::FRAC_1_SQRT_2, s2.scale(Rat::new(1, 2))),
        (std::f64::consts::PI, Poly::var(PI)),
        (4.0 / 3.0, Poly::constant(Rat::new(4, 3))),
        (1.0 / 6.0, Poly::constant(Rat::new(1, 6))),
        (1.7724538509055160273_f64, Poly::var(SPI)),
    ];
    for (v, p) in &table {
        if x.abs() == *v {
            return if x < 0.0 { p.scale(Rat::int(-1)) } else { p.clone() };
        }
    }
    Poly::constant(Rat::from_decimal(x))
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(&mut w.borrow_mut()))
}

impl Sym {
    pub const fn lit(x: f64) -> Sym {
        Sym { id: LIT, bits: x.to_bits(), den: 1.0 }
    }
    const fn cval(self) -> f64 {
        assert!(self.id == LIT);
        f64::from_bits(self.bits)
    }
    const fn frac(n: f64, d: f64) -> Sym {
        Sym { id: LIT, bits: n.to_bits(), den: d }
    }
    pub const fn cneg(self) -> Sym { Sym::frac(-self.cval(), self.den) }
    pub const fn cadd(self, o: Sym) -> Sym {
        if self.den == o.den { return Sym::frac(self.cval() + o.cval(), self.den); }
        Sym::frac(self.cval() * o.den + o.cval() * self.den, self.den * o.den)
    }
    pub const fn csub(self, o: Sym) -> Sym { self.cadd(o.cneg()) }
    pub const fn cmul(self, o: Sym) -> Sym { Sym::frac(self.cval() * o.cval(), self.den * o.den) }
    pub const fn cdiv(self, o: Sym) -> Sym {
        if o.cval() < 0.0 { return self.cmul(Sym::frac(-o.den, -o.cval())); }
        self.cmul(Sym::frac(o.den, o.cval()))
    }
    pub const MAX: Sym = Sym::lit(f64::MAX);
    pub const MIN: Sym = Sym::lit(f64::MIN);
    pub const EPSILON: Sym = Sym::lit(f64::EPSILON);
    pub const INFINITY: Sym = Sym::lit(f64::INFINITY);
    pub const NEG_INFINITY: Sym = Sym::lit(f64::NEG_INFINITY);
    pub const NAN: Sym = Sym::lit(f64::NAN);
    pub const MIN_POSITIVE: Sym = Sym::lit(f64::MIN_POSITIVE);
    pub fn int(n: i128) -> Sym {
        with(|w| w.put(Val { num: Poly::constant(Rat::int(n)), den: BTreeMap::new() }))
    }
    pub fn sqrt(self) -> Sym {
        with(|w| {
            let v = w.val(self);
            let r = w.sqrt_val(&v);
            w.put(r)
        })
    }
    pub fn abs(self) -> Sym {
        with(|w| {
            let v = w.val(self);
            if v.num.is_zero() {
                return self;
            }
            if let Some(x) = w.const_value(&v.num) {
                if v.den.is_empty() {
                    return if x >= 0.0 { self } else { w.put(Val { num: v.num.scale(Rat::int(-1)), den: v.den }) };
                }
            }
            // |n|/|d| with an atom for |n|
            let c = v.num.content();
            let prim = v.num.scale(c.inv());
            let known = prim.0.iter().all(|(m, c)| c.0 > 0 && m.iter().all(|(x, e)| e % 2 == 0 || w.positive[*x as usize]));
            let mut num = if known {
                prim
            } else if let Some(s) = w.signs.get(&prim).copied().or_else(|| w.interval(&prim)).or_else(|| w.implied(&prim)).or_else(|| w.linear(&prim)) {
                prim.scale(Rat::int(s as i128))
            } else {
                let a = w.atom(1, &prim, "abs");
                Poly::var(a)
            };
            num = num.scale(c.abs());
            for (f, e) in v.den.clone() {
                if e % 2 == 1 {
                    let p = w.factors[f as usize].clone();
                    if w.sign(&p) < 0 {
                        num = num.scale(Rat::int(-1));
                    }
                }
            }
            let r = w.tidy(Val { num, den: v.den });
            w.put(r)
        })
    }
    pub fn powi(self, n: i32) -> Sym {
        let mut r = Sym::lit(1.0);
        for _ in 0..n.unsigned_abs() {
            r = r * self;
        }
        if n < 0 { Sym::lit(1.0) / r } else { r }
    }
    pub fn powf(self, e: Sym) -> Sym {
        let k = with(|w| {
            let v = w.val(e);
            if v.den.is_empty() { v.num.as_const() } else { None }
        });
        match k {
            Some(c) if c.1 == 1 => self.powi(c.0 as i32),
            Some(c) if c.1 == 2 => {
                let fl = c.0.div_euclid(2);
                self.powi(fl as i32) * self.sqrt()
            }
            _ if self.is_zero() => {
                if e > Sym::lit(0.0) { self } else { panic!("SYM-UNSUPPORTED power of zero") }
            }
            _ => (e * self.ln()).exp(),
        }
    }
    fn f1(self, n: &'static str) -> Sym {
        with(|w| {
            let v = w.val(self);
            w.fun(n, &v)
        })
    }
    pub fn exp(self) -> Sym {
        with(|w| {
            let v = w.val(self);
            let r = w.exp_val(&v);
            w.put(r)
        })
    }
    pub fn ln(self) -> Sym {
        with(|w| {
            let v = w.val(self);
            if v.num.is_zero() {
                panic!("SYM-UNSUPPORTED logarithm of zero");
            }
            let r = w.ln_val(&v);
            w.put(r)
        })
    }
    fn of_angle(self, name: &'static str, inverse: &str, odd: bool) -> Sym {
        with(|w| {
            let v = w.val(self);
            if inverse == "acos" {
                if let Some(r) = w.turns(&v) {
                    // sin(r pi) = cos((1/2 - r) pi)
                    return w.circle(if odd { Rat::new(1, 2).add(r.neg()) } else { r });
                }
            }
            match w.multiple(&v, inverse) {
                Some((n, x)) => {
                    let r = w.angle(n, &x, odd, inverse == "acosh");
                    w.put(r)
                }
                None => w.fun(name, &v),
            }
        })
    }
    pub fn sin(self) -> Sym { if self.is_zero() { return self; } self.of_angle("sin", "acos", true) }
    pub fn cos(self) -> Sym { if self.is_zero() { return Sym::lit(1.0); } self.of_angle("cos", "acos", false) }
    pub fn tan(self) -> Sym { self.sin() / self.cos() }
    pub fn acos(self) -> Sym { self.f1("acos") }
    pub fn asin(self) -> Sym { self.f1("asin") }
    pub fn atan(self) -> Sym { self.f1("atan") }
    pub fn erf(self) -> Sym {
        // odd function
        if self.is_zero() { return self; }
        if with(|w| w.val(self).num.content().0 < 0) { return -(-self).f1("erf"); }
        self.f1("erf")
    }
    pub fn cosh(self) -> Sym { if self.is_zero() { return Sym::lit(1.0); } self.of_angle("cosh", "acosh", false) }
    pub fn acosh(self) -> Sym { self.f1("acosh") }
    pub fn max(self, o: Sym) -> Sym { if self >= o { self } else { o } }
    pub fn min(self, o: Sym) -> Sym { if self <= o { self } else { o } }
    pub fn signum(self) -> Sym { if self >= Sym::lit(0.0) { Sym::lit(1.0) } else { Sym::lit(-1.0) } }
    pub fn is_finite(self) -> bool { true }
    pub fn is_nan(self) -> bool { false }
    pub fn is_infinite(self) -> bool { false }
    pub fn recip(self) -> Sym { Sym::lit(1.0) / self }
    pub fn is_sign_negative(self) -> bool { self < Sym::lit(0.0) }
    pub fn is_sign_positive(self) -> bool { self >= Sym::lit(0.0) }
    pub fn sin_cos(self) -> (Sym, Sym) { (self.sin(), self.cos()) }
    pub fn sinh(self) -> Sym { if self.is_zero() { return self; } self.of_angle("sinh", "acosh", true) }
    pub fn tanh(self) -> Sym { self.f1("tanh") }
    pub fn cbrt(self) -> Sym { self.f1("cbrt") }
    pub fn atan2(self, _: Sym) -> Sym { panic!("SYM-UNSUPPORTED atan2") }
    pub fn hypot(self, o: Sym) -> Sym { (self * self + o * o).sqrt() }
    pub fn log10(self) -> Sym { self.f1("log10") }
    pub fn log2(self) -> Sym { self.f1("log2") }
    pub fn ln_1p(self) -> Sym { (Sym::lit(1.0) + self).ln() }
    pub fn exp_m1(self) -> Sym { self.exp() - Sym::lit(1.0) }
    pub fn mul_add(self, a: Sym, b: Sym) -> Sym { self * a + b }
    pub fn gamma(self) -> Sym { self.f1("gamma") }
    pub fn copysign(self, o: Sym) -> Sym { if o >= Sym::lit(0.0) { self.abs() } else { -self.abs() } }
    pub fn clamp(self, a: Sym, b: Sym) -> Sym { if self < a { a } else if self > b { b } else { self } }
    pub fn floor(self) -> Sym {
        let k = with(|w| { let v = w.val(self); if v.den.is_empty() { v.num.as_const() } else { None } });
        match k { Some(c) => Sym::int(c.floor()), None => {
            // one path per unit interval next to zero
            if self < Sym::int(-8) { panic!("SYM-UNSUPPORTED floor of a variable"); }
            for k in -7..64 {
                if self < Sym::int(k) { return Sym::int(k - 1); }
            }
            panic!("SYM-UNSUPPORTED floor of a variable")
        } }
    }
    pub fn ceil(self) -> Sym { -(-self).floor() }
    pub fn to_bits(self) -> u64 { panic!("SYM-UNSUPPORTED bits") }
    pub fn from_bits(_: u64) -> Sym { panic!("SYM-UNSUPPORTED bits") }
    pub const MAX_EXP: i32 = f64::MAX_EXP;
    pub const MANTISSA_DIGITS: u32 = f64::MANTISSA_DIGITS;
    pub fn total_cmp(&self, o: &Sym) -> Ordering { self.partial_cmp(o).unwrap() }
    pub fn is_zero(self) -> bool {
        with(|w| w.val(self).num.is_zero())
    }
    pub fn text(self) -> String {
        with(|w| {
            let v = w.val(self);
            w.show_val(&v)
        })
    }
    /// integer value of a constant
    pub fn as_int(self) -> Option<i128> {
        with(|w| {
            let v = w.val(self);
            if !v.den.is_empty() { return None; }
            v.num.as_const().map(|c| c.floor())
        })
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $a:ident, $b:ident, $w:ident, $e:expr) => {
        impl $t for Sym {
            type Output = Sym;
            fn $f(self, o: Sym) -> Sym {
                with(|$w| {
                    let ($a, $b) = ($w.val(self), $w.val(o));
                    let r = $e;
                    $w.put(r)
                })
            }
        }
        impl<'a> $t<&'a Sym> for Sym { type Output = Sym; fn $f(self, o: &'a Sym) -> Sym { <Sym as $t>::$f(self, *o) } }
        impl<'a> $t<Sym> for &'a Sym { type Output = Sym; fn $f(self, o: Sym) -> Sym { <Sym as $t>::$f(*self, o) } }
        impl<'a, 'b> $t<&'b Sym> for &'a Sym { type Output = Sym; fn $f(self, o: &'b Sym) -> Sym { <Sym as $t>::$f(*self, *o) } }
        impl $ta for Sym { fn $fa(&mut self, o: Sym) { *self = <Sym as $t>::$f(*self, o); } }
    };
}
op!(Add, add, AddAssign, add_assign, a, b, w, w.add_vals(&a, &b, 1));
op!(Sub, sub, SubAssign, sub_assign, a, b, w, w.add_vals(&a, &b, -1));
op!(Mul, mul, MulAssign, mul_assign, a, b, w, w.mul_vals(&a, &b));
op!(Div, div, DivAssign, div_assign, a, b, w, { let i = w.inv_val(&b); w.mul_vals(&a, &i) });
impl Rem for Sym { type Output = Sym; fn rem(self, _: Sym) -> Sym { panic!("SYM-UNSUPPORTED remainder") } }
impl RemAssign for Sym { fn rem_assign(&mut self, o: Sym) { *self = *self % o; } }
impl Neg for Sym { type Output = Sym; fn neg(self) -> Sym { Sym::lit(0.0) - self } }
impl<'a> Neg for &'a Sym { type Output = Sym; fn neg(self) -> Sym { -*self } }
impl std::iter::Sum for Sym { fn sum<I: Iterator<Item = Sym>>(i: I) -> Sym { i.fold(Sym::lit(0.0), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a Sym> for Sym { fn sum<I: Iterator<Item = &'a Sym>>(i: I) -> Sym { i.fold(Sym::lit(0.0), |a, b| a + *b) } }
impl Default for Sym { fn default() -> Sym { Sym::lit(0.0) } }
impl PartialEq for Sym {
    /// exact identity; different expressions are taken as different numbers (generic case)
    fn eq(&self, o: &Sym) -> bool {
        if special(*self) || special(*o) {
            return f64::from_bits(self.bits) == f64::from_bits(o.bits) && self.den == o.den && self.id == LIT && o.id == LIT;
        }
        let d = *self - *o;
        let z = d.is_zero();
        if !z {
            with(|w| {
                let v = w.val(d);
                if w.const_value(&v.num).is_none() {
                    w.generic += 1;
                }
            });
        }
        z
    }
}
fn special(x: Sym) -> bool {
    x.id == LIT && (x.den == 0.0 || !x.den.is_finite()) || x.id == LIT && !f64::from_bits(x.bits).is_finite() || x.id == LIT && f64::from_bits(x.bits).abs() > 1e300
}
impl PartialOrd for Sym {
    fn partial_cmp(&self, o: &Sym) -> Option<Ordering> {
        // infinities stand for bounds beyond all values
        for (x, y, s) in [(*self, *o, 1), (*o, *self, -1)] {
            if special(x) {
                let a = f64::from_bits(x.bits);
                let b = if special(y) { f64::from_bits(y.bits) } else { 0.0 };
                let r = a.partial_cmp(&b)?;
                return Some(if s == 1 { r } else { r.reverse() });
            }
        }
        let d = *self - *o;
        with(|w| {
            let v = w.val(d);
            let s = w.sign_val(&v);
            Some(s.cmp(&0))
        })
    }
}
impl fmt::Debug for Sym { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
impl fmt::Display for Sym { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
impl fmt::LowerExp for Sym { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.text()) } }
impl serde::Serialize for Sym { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_str(&self.text()) } }
impl<'de> serde::Deserialize<'de> for Sym { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Sym, D::Error> { f64::deserialize(d).map(Sym::lit) } }
impl From<i32> for Sym { fn from(x: i32) -> Sym { Sym::int(x as i128) } }
impl From<f64> for Sym { fn from(x: f64) -> Sym { Sym::lit(x) } }

// casts
pub trait ToSym { fn to_sym(self) -> Sym; }
macro_rules! ints { ($($t:ty),*) => { $( impl ToSym for $t { fn to_sym(self) -> Sym { Sym::int(self as i128) } } impl FromSym for $t { fn from_sym(x: Sym) -> $t { x.as_int().expect("SYM-UNSUPPORTED cast of a variable") as $t } } )* } }
pub trait FromSym { fn from_sym(x: Sym) -> Self; }
ints!(i32, i64, usize, u32, u64, i128, u128, u8);
impl ToSym for f64 { fn to_sym(self) -> Sym { Sym::lit(self) } }
impl ToSym for Sym { fn to_sym(self) -> Sym { self } }

impl std::str::FromStr for Sym { type Err = std::num::ParseFloatError; fn from_str(t: &str) -> Result<Sym, Self::Err> { t.parse::<f64>().map(Sym::lit) } }

// complex numbers
macro_rules! cplx { ($($t:ident $f:ident),*) => { $( impl $t<num_complex::Complex<Sym>> for Sym { type Output = num_complex::Complex<Sym>; fn $f(self, o: num_complex::Complex<Sym>) -> num_complex::Complex<Sym> { num_complex::Complex::new(self, Sym::lit(0.0)).$f(o) } } )* } }
cplx!(Add add, Sub sub, Mul mul, Div div);

// num_traits
impl num_traits::Zero for Sym { fn zero() -> Sym { Sym::lit(0.0) } fn is_zero(&self) -> bool { Sym::is_zero(*self) } }
impl num_traits::One for Sym { fn one() -> Sym { Sym::lit(1.0) } }
impl num_traits::Num for Sym { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<Sym, ()> { Err(()) } }
impl num_traits::ToPrimitive for Sym {
    fn to_i64(&self) -> Option<i64> { self.as_int().map(|x| x as i64) }
    fn to_u64(&self) -> Option<u64> { self.as_int().map(|x| x as u64) }
    /// a value passed on to NumCast::from keeps its identity
    fn to_u128(&self) -> Option<u128> { if self.id == LIT { self.as_int().map(|x| x as u128) } else { Some(CAST << 64 | self.id as u128) } }
    fn to_f64(&self) -> Option<f64> { with(|w| { let v = w.val(*self); if v.den.is_empty() { w.const_value(&v.num) } else { None } }) }
}
impl num_traits::NumCast for Sym {
    fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Sym> {
        if let Some(k) = n.to_u128() {
            if k >> 64 == CAST {
                return Some(Sym { id: k as u32, bits: 0, den: 1.0 });
            }
        }
        let f = n.to_f64()?;
        Some(Sym::lit(f))
    }
}
const CAST: u128 = 0x53594D2D43415354;
include!("float.rs");

// ---------------------------------------------------------------- contracts

/// explores all executions of a contract
pub struct Paths;
pub struct Outcome {
    pub paths: usize,
    pub identities: usize,
    pub generic: usize,
    pub fail: Option<(String, Vec<String>)>, // message, path conditions
    pub stuck: Option<String>,               // engine could not go on
}

pub fn explore(max_paths: usize, f: &dyn Fn() -> Result<(), String>) -> Outcome {
    let mut out = Outcome { paths: 0, identities: 0, generic: 0, fail: None, stuck: None };
    with(|w| w.trace.clear());
    loop {
        with(|w| {
            w.reset();
            w.pos = 0;
        });
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        out.paths += 1;
        let (conds, ids, gen) = with(|w| (w.conds.clone(), w.identities, w.generic));
        out.identities += ids;
        out.generic += gen;
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => {
                if with(|w| w.feasible()) {
                    out.fail = Some((m, conds));
                    return out;
                }
                out.stuck = Some(format!("SYM-NOPOINT {} [{}]", m, conds.join("; ").chars().take(1500).collect::<String>()));
            }
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                if m.contains("SYM-") {
                    out.stuck = Some(format!("{} [{}]", m, conds.join("; ").chars().take(1500).collect::<String>()));
                    return out;
                }
                if with(|w| w.feasible()) {
                    out.fail = Some((format!("panic: {}", m), conds));
                    return out;
                }
                out.stuck = Some(format!("SYM-NOPOINT panic: {} [{}]", m, conds.join("; ").chars().take(1500).collect::<String>()));
            }
        }
        let more = with(|w| {
            let p = w.pos;
            w.trace.truncate(p);
            while let Some((c, n)) = w.trace.pop() {
                if c + 1 < n {
                    w.trace.push((c + 1, n));
                    return true;
                }
            }
            false
        });
        if !more {
            return out;
        }
        if out.paths >= max_paths {
            out.stuck = Some(format!("SYM-PATHS more than {} paths", max_paths));
            return out;
        }
    }
}

pub fn fresh(name: &str, positive: bool) -> Sym {
    with(|w| {
        let v = w.new_var(name, Kind::Var, positive);
        w.put(Val { num: Poly::var(v), den: BTreeMap::new() })
    })
}
pub fn choose(n: usize) -> usize {
    with(|w| w.choose(n))
}
pub fn note_path(s: String) {
    with(|w| w.conds.push(s));
}
pub fn assume_positive(x: Sym) {
    with(|w| {
        let v = w.val(x);
        assert!(v.den.is_empty());
        let c = v.num.content();
        let s = if c.0 < 0 { -1 } else { 1 };
        let p = v.num.scale(c.inv());
        w.facts.push((p.clone(), s));
        w.signs.insert(p, s);
    })
}
/// exact identity; a difference that is not the zero expression is evaluated at points of the
/// current path: zero everywhere means that the simplification was not strong enough
pub fn identical(a: Sym, b: Sym) -> bool {
    with(|w| w.identities += 1);
    let d = a - b;
    if d.is_zero() {
        return true;
    }
    let (ok, points) = with(|w| {
        let (d, a) = (w.val(d), w.val(a));
        let mut seed = 0x9E3779B97F4A7C15u64;
        let (mut ok, mut points) = (true, 0);
        for _ in 0..4000 {
            let x = w.point(&mut seed);
            let signs: Vec<(Poly, i32)> = w.signs.iter().map(|(p, s)| (p.clone(), *s)).collect();
            if !signs.iter().all(|(p, s)| w.eval(p, &x) * (*s as f64) > 0.0) {
                continue;
            }
            let (y, z) = (w.eval_val(&d, &x), w.eval_val(&a, &x));
            if !y.is_finite() || !z.is_finite() {
                continue;
            }
            points += 1;
            if y.abs() > 1e-7 * (1.0 + z.abs()) {
                ok = false;
                break;
            }
            if points == 40 {
                break;
            }
        }
        (ok, points)
    });
    if ok && points >= 5 {
        panic!("SYM-UNDECIDED difference {}", d.text().chars().take(200).collect::<String>());
    }
    false
}
pub fn is_var(x: Sym) -> bool {
    with(|w| {
        let v = w.val(x);
        v.den.is_empty() && v.num.0.len() == 1 && v.num.0.iter().all(|(m, c)| c.0 == 1 && c.1 == 1 && m.len() == 1 && m[0].1 == 1 && m[0].0 > SPI && matches!(w.kinds[m[0].0 as usize], Kind::Var))
    })
}
/// value of an expression of one variable at a given expression
pub fn subst(y: Sym, x: Sym, at: Sym) -> Sym {
    with(|w| {
        let v = w.val(x);
        let id = v.num.0.keys().next().unwrap()[0].0;
        let (y, at) = (w.val(y), w.val(at));
        let r = w.subst_val(&y, id, &at);
        w.put(r)
    })
}
/// derivative with respect to a variable
pub fn diff(y: Sym, x: Sym) -> Sym {
    with(|w| {
        let v = w.val(x);
        let id = v.num.0.keys().next().unwrap()[0].0;
        let y = w.val(y);
        let d = w.diff_val(&y, id);
        w.put(d)
    })
}

/// the module std::f64
pub mod std_f64 {
    pub const EPSILON: crate::Sym = crate::Sym::lit(f64::EPSILON);
    pub const MAX: crate::Sym = crate::Sym::lit(f64::MAX);
    pub const MIN: crate::Sym = crate::Sym::lit(f64::MIN);
    pub mod consts {
        use crate::Sym;
        pub const PI: Sym = Sym::lit(std::f64::consts::PI);
        pub const SQRT_2: Sym = Sym::lit(std::f64::consts::SQRT_2);
        pub const FRAC_1_SQRT_2: Sym = Sym::lit(std::f64::consts::FRAC_1_SQRT_2);
    }
}

thread_local! { static ENTERED: RefCell<std::collections::BTreeSet<&'static str>> = Default::default(); }
/// called at the start of every function of the converted crates
pub fn enter(name: &'static str) {
    ENTERED.with(|e| {
        e.borrow_mut().insert(name);
    })
}
pub fn entered() -> Vec<&'static str> {
    ENTERED.with(|e| e.borrow().iter().copied().collect())
}

/// counts an obligation that is a comparison
pub fn count() {
    with(|w| w.identities += 1);
}
