//! Signs that follow from the signs decided before by linear combination (every monomial is one unknown).
use crate::poly::{Mono, Poly, Rat};
use std::collections::BTreeMap;

trait Num: Copy {
    fn of(r: Rat) -> Self;
    fn positive(self) -> bool;
    fn zero(self) -> bool;
    fn sub_mul(self, a: Self, b: Self) -> Self;
    fn over(self, o: Self) -> Self;
}
impl Num for f64 {
    fn of(r: Rat) -> f64 {
        r.f()
    }
    fn positive(self) -> bool {
        self > 1e-9
    }
    fn zero(self) -> bool {
        self.abs() <= 1e-9
    }
    fn sub_mul(self, a: f64, b: f64) -> f64 {
        self - a * b
    }
    fn over(self, o: f64) -> f64 {
        self / o
    }
}
impl Num for Rat {
    fn of(r: Rat) -> Rat {
        r
    }
    fn positive(self) -> bool {
        self.0 > 0
    }
    fn zero(self) -> bool {
        self.0 == 0
    }
    fn sub_mul(self, a: Rat, b: Rat) -> Rat {
        self.add(a.mul(b).neg())
    }
    fn over(self, o: Rat) -> Rat {
        self.mul(o.inv())
    }
}
/// whether A x = (0, .., 0, 1) has a solution x >= 0 (first phase of the simplex method, rule of Bland)
fn solvable<T: Num>(a: &[Vec<T>]) -> bool {
    let (m, n) = (a.len(), a[0].len());
    let (o, i) = (T::of(Rat::int(0)), T::of(Rat::int(1)));
    // columns: unknowns, one artificial unknown per row, right-hand side
    let mut t: Vec<Vec<T>> = (0..m).map(|r| (0..n + m + 1).map(|c| if c < n { a[r][c] } else if c == n + r || (c == n + m && r == m - 1) { i } else { o }).collect()).collect();
    let mut basis: Vec<usize> = (n..n + m).collect();
    // reduced costs of the sum of the artificial unknowns
    let mut z: Vec<T> = (0..n + m + 1).map(|c| if c < n || c == n + m { (0..m).fold(o, |s, r| s.sub_mul(t[r][c], i)) } else { o }).collect();
    for _ in 0..400 {
        let neg = |x: T| o.sub_mul(x, i).positive();
        let Some(c) = (0..n).find(|&c| neg(z[c])) else { break };
        let mut row: Option<usize> = None;
        for r in 0..m {
            if t[r][c].positive() {
                row = match row {
                    None => Some(r),
                    Some(q) => {
                        // smaller ratio, then smaller index of the leaving unknown
                        let d = t[q][n + m].over(t[q][c]).sub_mul(t[r][n + m].over(t[r][c]), i);
                        if d.positive() || (d.zero() && basis[r] < basis[q]) { Some(r) } else { Some(q) }
                    }
                };
            }
        }
        let Some(r) = row else { return false };
        let p = t[r][c];
        for x in t[r].iter_mut() {
            *x = x.over(p);
        }
        for q in 0..m {
            if q != r && !t[q][c].zero() {
                let f = t[q][c];
                for k in 0..n + m + 1 {
                    t[q][k] = t[q][k].sub_mul(f, t[r][k]);
                }
            }
        }
        let f = z[c];
        for k in 0..n + m + 1 {
            z[k] = z[k].sub_mul(f, t[r][k]);
        }
        basis[r] = c;
    }
    (0..m).all(|r| basis[r] < n || t[r][n + m].zero())
}
/// facts: polynomial > 0 (strict) or >= 0; nonneg: monomials that are not negative;
/// whether the polynomial is positive wherever the facts hold
pub fn follows(p: &Poly, facts: &[(&Poly, bool, i32)], nonneg: &dyn Fn(&Mono) -> bool) -> bool {
    let mut rows: BTreeMap<&Mono, usize> = BTreeMap::new();
    for q in std::iter::once(p).chain(facts.iter().map(|f| f.0)) {
        for m in q.0.keys() {
            let k = rows.len();
            rows.entry(m).or_insert(k);
        }
    }
    let m = rows.len();
    let free: Vec<(&Mono, usize)> = rows.iter().filter(|(k, _)| k.is_empty() || nonneg(k)).map(|(k, r)| (*k, *r)).collect();
    let n = 1 + facts.len() + free.len();
    let mut a = vec![vec![Rat::int(0); n]; m + 1];
    // - factor * p + combination of the facts + multiples of the non-negative monomials = 0
    for (k, c) in &p.0 {
        a[rows[k]][0] = c.neg();
    }
    for (i, (q, strict, s)) in facts.iter().enumerate() {
        for (k, c) in &q.0 {
            a[rows[k]][1 + i] = c.mul(Rat::int(*s as i128));
        }
        if *strict {
            a[m][1 + i] = Rat::int(1);
        }
    }
    for (i, (k, r)) in free.iter().enumerate() {
        a[*r][1 + facts.len() + i] = Rat::int(1);
        if k.is_empty() {
            a[m][1 + facts.len() + i] = Rat::int(1);
        }
    }
    // positive factors of the columns and rows, for the floating-point run
    let f = |x: &Rat| x.f().abs();
    let mut b: Vec<Vec<f64>> = a.iter().map(|r| r.iter().map(|x| x.f()).collect()).collect();
    for j in 0..n {
        let c = a[..m].iter().map(|r| f(&r[j])).fold(0.0, f64::max);
        for r in b[..m].iter_mut() {
            r[j] /= c;
        }
    }
    for r in b[..m].iter_mut() {
        let c = r.iter().fold(0.0, |c: f64, x| c.max(x.abs()));
        r.iter_mut().for_each(|x| *x /= c);
    }
    solvable::<f64>(&b) && solvable::<Rat>(&a)
}
