//! cosines of rational multiples of pi: polynomials in cos(pi/b) modulo its minimal polynomial
use crate::poly::{Poly, Rat};
use crate::{Sym, Val, World, PI, S2, S3};
use std::collections::BTreeMap;

/// minimal polynomial of 2 cos(2 pi / m), lowest power first
fn minimal(m: usize) -> Vec<i128> {
    let sub = |a: &[i128], b: &[i128]| -> Vec<i128> { (0..a.len()).map(|k| a[k] - b.get(k).copied().unwrap_or(0)).collect() };
    // y^k + y^-k as polynomials of y + 1/y
    let mut c: Vec<Vec<i128>> = vec![vec![2], vec![0, 1]];
    while c.len() <= m / 2 + 1 {
        let n = c.len();
        let mut t = vec![0];
        t.extend(&c[n - 1]);
        c.push(sub(&t, &c[n - 2]));
    }
    let mut p = if m % 2 == 0 { sub(&c[m / 2 + 1], &c[m / 2 - 1]) } else { sub(&c[m / 2 + 1], &c[m / 2]) };
    for d in (1..m).filter(|d| m % d == 0) {
        let q = minimal(d);
        let n = q.len() - 1;
        let mut r = vec![0; p.len() - n];
        for k in (0..r.len()).rev() {
            r[k] = p[k + n];
            for j in 0..=n {
                p[k + j] -= r[k] * q[j];
            }
        }
        assert!(p.iter().all(|x| *x == 0));
        p = r;
    }
    p
}

impl World {
    /// rational number r when the value is r pi
    pub(crate) fn turns(&self, v: &Val) -> Option<Rat> {
        if !v.den.is_empty() || v.num.0.len() != 1 {
            return None;
        }
        let (m, c) = v.num.0.iter().next()?;
        if m[..] == [(PI, 1)] && c.1 < 200 && c.0.abs() < 100000 { Some(*c) } else { None }
    }
    /// cos(r pi)
    pub(crate) fn circle(&mut self, r: Rat) -> Sym {
        let (mut a, b) = (r.0.rem_euclid(2 * r.1), r.1);
        if a > b {
            a = 2 * b - a;
        }
        let neg = 2 * a > b;
        if neg {
            a = b - a;
        }
        let whole = |n: i128, d: i128| Poly::constant(Rat::new(n, d));
        let p = if a == 0 {
            whole(1, 1)
        } else if 2 * a == b {
            Poly::default()
        } else if 3 * a == b {
            whole(1, 2)
        } else {
            let base = self.circles.keys().copied().filter(|k| k % b == 0).max();
            match base {
                None if b == 4 => Poly::var(S2).scale(Rat::new(1, 2)),
                None if b == 6 => Poly::var(S3).scale(Rat::new(1, 2)),
                _ => {
                    let big = base.unwrap_or(b);
                    let c = self.root(big);
                    self.chebyshev((a * (big / b)) as usize, c)
                }
            }
        };
        let num = if neg { p.scale(Rat::int(-1)) } else { p };
        self.put(Val { num, den: BTreeMap::new() })
    }
    /// atom cos(pi/b)
    fn root(&mut self, b: i128) -> u32 {
        if let Some(c) = self.circles.get(&b) {
            return *c;
        }
        let arg = Val { num: Poly::var(PI).scale(Rat::new(1, b)), den: BTreeMap::new() };
        let s = self.fun("cos", &arg);
        let id = self.val(s).num.0.keys().next().unwrap()[0].0;
        self.positive[id as usize] = true;
        // y^n = tail with y = 2 cos
        let q = minimal(2 * b as usize);
        let n = q.len() - 1;
        let mut tail = Poly::default();
        for k in 0..n {
            let m = if k == 0 { vec![] } else { vec![(id, k as u32)] };
            tail.add_term(m, Rat::new(-q[k], 1i128 << (n - k)));
        }
        self.roots.insert(id, (n as u32, tail));
        self.circles.insert(b, id);
        id
    }
    fn chebyshev(&self, n: usize, c: u32) -> Poly {
        let (mut t0, mut t1) = (Poly::constant(Rat::int(1)), Poly::var(c));
        if n == 0 {
            return t0;
        }
        for _ in 1..n {
            let t = self.mul(&Poly::var(c), &t1).scale(Rat::int(2)).add(&t0.scale(Rat::int(-1)));
            t0 = t1;
            t1 = t;
        }
        t1
    }
    /// reciprocal of a polynomial in one cos(pi/b) or one of the roots of two and three alone
    pub(crate) fn circle_inverse(&self, p: &Poly) -> Option<Poly> {
        let mut id = None;
        for m in p.0.keys() {
            match m[..] {
                [] => {}
                [(v, _)] if id.is_none() || id == Some(v) => id = Some(v),
                _ => return None,
            }
        }
        let id = id?;
        let n = if id == S2 || id == S3 {
            2
        } else if self.circles.values().any(|v| *v == id) {
            self.roots[&id].0 as usize
        } else {
            return None;
        };
        let power = |k: usize| if k == 0 { vec![] } else { vec![(id, k as u32)] };
        // columns: p times the powers of the cosine; right-hand side: one
        let mut a = vec![vec![Rat::int(0); n + 1]; n];
        a[0][n] = Rat::int(1);
        for j in 0..n {
            let mut e = Poly::default();
            e.add_term(power(j), Rat::int(1));
            let q = self.mul(p, &e);
            for (m, c) in &q.0 {
                a[m.first().map_or(0, |t| t.1) as usize][j] = *c;
            }
        }
        for k in 0..n {
            let i = (k..n).find(|i| !a[*i][k].zero())?;
            a.swap(i, k);
            let f = a[k][k].inv();
            for j in 0..=n {
                a[k][j] = a[k][j].mul(f);
            }
            for i in 0..n {
                if i != k && !a[i][k].zero() {
                    let f = a[i][k].neg();
                    for j in 0..=n {
                        let t = a[k][j].mul(f);
                        a[i][j] = a[i][j].add(t);
                    }
                }
            }
        }
        let mut r = Poly::default();
        for k in 0..n {
            r.add_term(power(k), a[k][n]);
        }
        Some(r)
    }
}
