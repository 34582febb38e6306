//! Natural numbers of any size (little-endian limbs without leading zeros).

pub type Nat = Vec<u32>;

pub fn trim(mut a: Nat) -> Nat {
    while a.last() == Some(&0) {
        a.pop();
    }
    a
}
pub fn from(mut n: u128) -> Nat {
    let mut r = vec![];
    while n != 0 {
        r.push(n as u32);
        n >>= 32;
    }
    r
}
/// value if it is below 2^127
pub fn small(a: &Nat) -> Option<i128> {
    if a.len() > 4 || (a.len() == 4 && a[3] >> 31 != 0) {
        return None;
    }
    Some(a.iter().rev().fold(0i128, |r, d| (r << 32) | *d as i128))
}
pub fn cmp(a: &Nat, b: &Nat) -> std::cmp::Ordering {
    a.len().cmp(&b.len()).then_with(|| a.iter().rev().cmp(b.iter().rev()))
}
pub fn add(a: &Nat, b: &Nat) -> Nat {
    let mut r = Vec::with_capacity(a.len().max(b.len()) + 1);
    let mut c = 0u64;
    for i in 0..a.len().max(b.len()) {
        let s = *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64 + c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    trim(r)
}
/// a - b with a >= b
pub fn sub(a: &Nat, b: &Nat) -> Nat {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - c;
        c = 0;
        if s < 0 {
            s += 1 << 32;
            c = 1;
        }
        r.push(s as u32);
    }
    assert!(c == 0);
    trim(r)
}
pub fn mul(a: &Nat, b: &Nat) -> Nat {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let s = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = s as u32;
            c = s >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(r)
}
fn shl(a: &Nat, k: u32) -> Nat {
    let mut r = Vec::with_capacity(a.len() + 1);
    let mut c = 0u64;
    for d in a {
        let s = ((*d as u64) << k) | c;
        r.push(s as u32);
        c = s >> 32;
    }
    r.push(c as u32);
    r
}
fn shr(a: &Nat, k: u32) -> Nat {
    let mut r = a.clone();
    if k > 0 {
        for i in 0..r.len() {
            let hi = if i + 1 < a.len() { (a[i + 1] as u64) << (32 - k) } else { 0 };
            r[i] = ((a[i] >> k) as u64 | hi) as u32;
        }
    }
    trim(r)
}
/// quotient and remainder (Knuth, algorithm D)
pub fn div(a: &Nat, b: &Nat) -> (Nat, Nat) {
    assert!(!b.is_empty());
    if cmp(a, b) == std::cmp::Ordering::Less {
        return (vec![], a.clone());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut rem = 0u64;
        for i in (0..a.len()).rev() {
            let s = (rem << 32) | a[i] as u64;
            q[i] = (s / d) as u32;
            rem = s % d;
        }
        return (trim(q), from(rem as u128));
    }
    let k = b[b.len() - 1].leading_zeros();
    let v = trim(shl(b, k));
    let mut u = shl(a, k);
    let n = v.len();
    let m = u.len() - n;
    let mut q = vec![0u32; m];
    for j in (0..m).rev() {
        let top = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = top / v[n - 1] as u64;
        let mut rh = top % v[n - 1] as u64;
        while qh >> 32 != 0 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >> 32 != 0 {
                break;
            }
        }
        let (mut borrow, mut carry) = (0i64, 0u64);
        for i in 0..n {
            let p = qh * v[i] as u64 + carry;
            carry = p >> 32;
            let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            borrow = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - borrow - carry as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let s = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = s as u32;
                c = s >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    u.truncate(n);
    (trim(q), shr(&trim(u), k))
}
pub fn gcd(a: &Nat, b: &Nat) -> Nat {
    let (mut a, mut b) = (a.clone(), b.clone());
    while !b.is_empty() {
        let r = div(&a, &b).1;
        a = b;
        b = r;
    }
    a
}
pub fn text(a: &Nat) -> String {
    let mut parts = vec![];
    let mut a = a.clone();
    let base = from(1_000_000_000);
    while !a.is_empty() {
        let (q, r) = div(&a, &base);
        parts.push(small(&r).unwrap());
        a = q;
    }
    let mut s = String::new();
    for (i, p) in parts.iter().rev().enumerate() {
        s.push_str(&if i == 0 { format!("{}", p) } else { format!("{:09}", p) });
    }
    if s.is_empty() { "0".into() } else { s }
}
/// quotient rounded (up to a few units in the last place)
pub fn ratio(a: &Nat, b: &Nat) -> f64 {
    let lead = |v: &Nat| -> (f64, i32) {
        let k = v.len().min(4);
        let f = v[v.len() - k..].iter().rev().fold(0.0, |r: f64, d| r * 4294967296.0 + *d as f64);
        (f, 32 * (v.len() - k) as i32)
    };
    if a.is_empty() {
        return 0.0;
    }
    let ((x, e), (y, f)) = (lead(a), lead(b));
    let d = e - f;
    (x / y) * 2f64.powi(d / 2) * 2f64.powi(d - d / 2)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn division() {
        let mut s = 88172645463325252u64;
        let mut rnd = || { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s };
        for _ in 0..200000 {
            let la = (rnd() % 9) as usize;
            let lb = 1 + (rnd() % 5) as usize;
            let mut limb = || { let k = rnd() % 4; if k == 0 { 0 } else if k == 1 { u32::MAX } else { rnd() as u32 } };
            let a = trim((0..la).map(|_| limb()).collect());
            let b = trim((0..lb).map(|_| limb()).collect());
            if b.is_empty() { continue; }
            let (q, r) = div(&a, &b);
            assert!(cmp(&r, &b) == std::cmp::Ordering::Less);
            assert_eq!(add(&mul(&q, &b), &r), a);
        }
    }
}
