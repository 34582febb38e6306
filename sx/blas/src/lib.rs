//! Reference implementations of the BLAS/LAPACK kernels on symbolic numbers.
//! They state what the converted sources may assume about the external libraries
//! (column-major matrices, strides of one).
#![allow(clippy::missing_safety_doc, unused_variables)]
use num_complex::Complex;
use sym::Sym;

pub type Complex64 = Complex<Sym>;
type CcBool = i32;
const TRANS: i32 = 112;
const CONJ_TRANS: i32 = 113;
const UPPER: i32 = 121;

trait N: Copy + std::ops::Add<Output = Self> + std::ops::Mul<Output = Self> {
    const ZERO: Self;
    fn null(self) -> bool;
    fn conj(self) -> Self;
}
impl N for Sym {
    const ZERO: Sym = Sym::lit(0.0);
    fn null(self) -> bool {
        self.is_zero()
    }
    fn conj(self) -> Sym {
        self
    }
}
impl N for Complex64 {
    const ZERO: Complex64 = Complex { re: Sym::lit(0.0), im: Sym::lit(0.0) };
    fn null(self) -> bool {
        self.re.is_zero() && self.im.is_zero()
    }
    fn conj(self) -> Complex64 {
        Complex { re: self.re, im: -self.im }
    }
}
unsafe fn sl<'a, T>(p: *const T, n: usize) -> &'a [T] {
    unsafe { std::slice::from_raw_parts(p, n) }
}
unsafe fn sm<'a, T>(p: *mut T, n: usize) -> &'a mut [T] {
    unsafe { std::slice::from_raw_parts_mut(p, n) }
}
fn one(incs: &[i32]) {
    assert!(incs.iter().all(|i| *i == 1), "SYM-UNSUPPORTED stride");
}
// y := alpha y, where zero discards the previous content
fn scaled<T: N>(alpha: T, y: T) -> T {
    if alpha.null() { T::ZERO } else { alpha * y }
}
unsafe fn gemv<T: N>(layout: i32, trans: i32, m: i32, n: i32, alpha: T, a: *const T, lda: i32, x: *const T, beta: T, y: *mut T) {
    assert!(layout == 102, "SYM-UNSUPPORTED layout");
    let (m, n, lda) = (m as usize, n as usize, lda as usize);
    unsafe {
        let (nx, ny) = if trans == TRANS || trans == CONJ_TRANS { (m, n) } else { (n, m) };
        for i in 0..ny {
            let mut s = T::ZERO;
            for j in 0..nx {
                let e = if trans == TRANS { *a.add(j + i * lda) } else if trans == CONJ_TRANS { (*a.add(j + i * lda)).conj() } else { *a.add(i + j * lda) };
                s = s + e * *x.add(j);
            }
            *y.add(i) = scaled(beta, *y.add(i)) + alpha * s;
        }
    }
}
unsafe fn gemm<T: N>(layout: i32, ta: i32, tb: i32, m: i32, n: i32, k: i32, alpha: T, a: *const T, lda: i32, b: *const T, ldb: i32, beta: T, c: *mut T, ldc: i32) {
    assert!(layout == 102, "SYM-UNSUPPORTED layout");
    let get = |p: *const T, t: i32, ld: i32, i: usize, j: usize| -> T {
        let ld = ld as usize;
        unsafe {
            if t == TRANS { *p.add(j + i * ld) } else if t == CONJ_TRANS { (*p.add(j + i * ld)).conj() } else { *p.add(i + j * ld) }
        }
    };
    for j in 0..n as usize {
        for i in 0..m as usize {
            let mut s = T::ZERO;
            for q in 0..k as usize {
                s = s + get(a, ta, lda, i, q) * get(b, tb, ldb, q, j);
            }
            unsafe {
                let p = c.add(i + j * ldc as usize);
                *p = scaled(beta, *p) + alpha * s;
            }
        }
    }
}
unsafe fn rank<T: N>(layout: i32, uplo: i32, trans: i32, n: i32, k: i32, alpha: T, a: *const T, lda: i32, beta: T, c: *mut T, ldc: i32, herm: bool) {
    assert!(layout == 102, "SYM-UNSUPPORTED layout");
    let (n, k, lda) = (n as usize, k as usize, lda as usize);
    let co = |x: T| if herm { x.conj() } else { x };
    for j in 0..n {
        for i in 0..n {
            if (uplo == UPPER && i > j) || (uplo != UPPER && i < j) {
                continue;
            }
            let mut s = T::ZERO;
            for q in 0..k {
                unsafe {
                    s = s + if trans == TRANS || trans == CONJ_TRANS { co(*a.add(q + i * lda)) * *a.add(q + j * lda) } else { *a.add(i + q * lda) * co(*a.add(j + q * lda)) };
                }
            }
            unsafe {
                let p = c.add(i + j * ldc as usize);
                *p = scaled(beta, *p) + alpha * s;
            }
        }
    }
}
// row exchanges: the first entry that is not identically zero is the pivot
unsafe fn factorize(n: usize, a: *mut Sym, lda: usize, ipiv: *mut i32) -> i32 {
    let at = |i: usize, j: usize| i + j * lda;
    unsafe {
        for k in 0..n {
            let mut p = k;
            while p < n && *a.add(at(p, k)) == Sym::lit(0.0) {
                p += 1;
            }
            if p == n {
                return k as i32 + 1;
            }
            *ipiv.add(k) = p as i32 + 1;
            if p != k {
                for j in 0..n {
                    std::ptr::swap(a.add(at(p, j)), a.add(at(k, j)));
                }
            }
            for i in k + 1..n {
                let l = *a.add(at(i, k)) / *a.add(at(k, k));
                *a.add(at(i, k)) = l;
                for j in k + 1..n {
                    *a.add(at(i, j)) = *a.add(at(i, j)) - l * *a.add(at(k, j));
                }
            }
        }
    }
    0
}
unsafe fn substitute(n: usize, a: *const Sym, lda: usize, ipiv: *const i32, b: &mut [Sym]) {
    unsafe {
        for k in 0..n {
            b.swap(k, *ipiv.add(k) as usize - 1);
        }
        for i in 0..n {
            for j in 0..i {
                b[i] = b[i] - *a.add(i + j * lda) * b[j];
            }
        }
        for i in (0..n).rev() {
            for j in i + 1..n {
                b[i] = b[i] - *a.add(i + j * lda) * b[j];
            }
            b[i] = b[i] / *a.add(i + i * lda);
        }
    }
}
pub unsafe fn c_dgeev(calc_vl: CcBool, calc_vr: CcBool, n: *const i32, a: *mut Sym, lda: *const i32, wr: *mut Sym, wi: *mut Sym, vl: *mut Sym, ldvl: *const i32, vr: *mut Sym, ldvr: *const i32, work: *mut Sym, lwork: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_dgeev")
}
pub unsafe fn c_dgesv(n: *const i32, nrhs: *const i32, a: *mut Sym, lda: *const i32, ipiv: *mut i32, b: *mut Sym, ldb: *const i32, info: *mut i32) {
    unsafe {
        let (n, lda) = (*n as usize, *lda as usize);
        *info = factorize(n, a, lda, ipiv);
        if *info == 0 {
            for k in 0..*nrhs as usize {
                substitute(n, a, lda, ipiv, sm(b.add(k * *ldb as usize), n));
            }
        }
    }
}
pub unsafe fn c_dgesvd(jobu_code: i32, jobvt_code: i32, m: *const i32, n: *const i32, a: *mut Sym, lda: *const i32, s: *mut Sym, u: *mut Sym, ldu: *const i32, vt: *mut Sym, ldvt: *const i32, work: *mut Sym, lwork: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_dgesvd")
}
pub unsafe fn c_dgetrf(m: *const i32, n: *const i32, a: *mut Sym, lda: *const i32, ipiv: *mut i32, info: *mut i32) {
    unsafe {
        assert!(*m == *n, "SYM-UNSUPPORTED rectangular factorization");
        *info = factorize(*n as usize, a, *lda as usize, ipiv);
    }
}
pub unsafe fn c_dgetri(n: *const i32, a: *mut Sym, lda: *const i32, ipiv: *const i32, work: *mut Sym, lwork: *const i32, info: *mut i32) {
    unsafe {
        let (n, lda) = (*n as usize, *lda as usize);
        let f: Vec<Sym> = (0..n * n).map(|k| *a.add(k % n + k / n * lda)).collect();
        for j in 0..n {
            let mut b = vec![Sym::lit(0.0); n];
            b[j] = Sym::lit(1.0);
            substitute(n, f.as_ptr(), n, ipiv, &mut b);
            for i in 0..n {
                *a.add(i + j * lda) = b[i];
            }
        }
        *info = 0;
    }
}
pub unsafe fn c_dggev(calc_vl: CcBool, calc_vr: CcBool, n: *const i32, a: *mut Sym, lda: *const i32, b: *mut Sym, ldb: *const i32, alphar: *mut Sym, alphai: *mut Sym, beta: *mut Sym, vl: *mut Sym, ldvl: *const i32, vr: *mut Sym, ldvr: *const i32, work: *mut Sym, lwork: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_dggev")
}
pub unsafe fn c_dlange(norm_code: i32, m: *const i32, n: *const i32, a: *const Sym, lda: *const i32, work: *mut Sym) -> Sym {
    let (m, n, lda) = unsafe { (*m as usize, *n as usize, *lda as usize) };
    let at = |i: usize, j: usize| unsafe { *a.add(i + j * lda) };
    let zero = Sym::lit(0.0);
    match norm_code {
        0 | 1 => (0..m).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| at(i, j) * at(i, j)).sum::<Sym>().sqrt(),
        2 => (0..m).map(|i| (0..n).map(|j| at(i, j).abs()).sum::<Sym>()).fold(zero, |a, b| if b > a { b } else { a }),
        3 => (0..m).flat_map(|i| (0..n).map(move |j| (i, j))).map(|(i, j)| at(i, j).abs()).fold(zero, |a, b| if b > a { b } else { a }),
        _ => (0..n).map(|j| (0..m).map(|i| at(i, j).abs()).sum::<Sym>()).fold(zero, |a, b| if b > a { b } else { a }),
    }
}
pub unsafe fn c_dpotrf(upper: CcBool, n: *const i32, a: *mut Sym, lda: *const i32, info: *mut i32) {
    unsafe {
        let (n, lda) = (*n as usize, *lda as usize);
        // the factor is stored at (i, j), i >= j, or mirrored
        let at = |i: usize, j: usize| if upper == 1 { j + i * lda } else { i + j * lda };
        for j in 0..n {
            let mut d = *a.add(at(j, j));
            for k in 0..j {
                d = d - *a.add(at(j, k)) * *a.add(at(j, k));
            }
            if d <= Sym::lit(0.0) {
                *info = j as i32 + 1;
                return;
            }
            let d = d.sqrt();
            *a.add(at(j, j)) = d;
            for i in j + 1..n {
                let mut s = *a.add(at(i, j));
                for k in 0..j {
                    s = s - *a.add(at(i, k)) * *a.add(at(j, k));
                }
                *a.add(at(i, j)) = s / d;
            }
        }
        *info = 0;
    }
}
pub unsafe fn c_dsyev(calc_v: CcBool, upper: CcBool, n: *const i32, a: *mut Sym, lda: *const i32, w: *mut Sym, work: *mut Sym, lwork: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_dsyev")
}
pub unsafe fn c_get_num_threads() -> i32 {
    1
}
pub unsafe fn c_set_num_threads(n: i32) {
    
}
pub unsafe fn c_using_intel_mkl() -> CcBool {
    0
}
pub unsafe fn c_zgeev(calc_vl: CcBool, calc_vr: CcBool, n: *const i32, a: *mut Complex64, lda: *const i32, w: *mut Complex64, vl: *mut Complex64, ldvl: *const i32, vr: *mut Complex64, ldvr: *const i32, work: *mut Complex64, lwork: *const i32, rwork: *mut Sym, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zgeev")
}
pub unsafe fn c_zgesv(n: *const i32, nrhs: *const i32, a: *mut Complex64, lda: *const i32, ipiv: *mut i32, b: *mut Complex64, ldb: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zgesv")
}
pub unsafe fn c_zgesvd(jobu_code: i32, jobvt_code: i32, m: *const i32, n: *const i32, a: *mut Complex64, lda: *const i32, s: *mut Sym, u: *mut Complex64, ldu: *const i32, vh: *mut Complex64, ldvt: *const i32, work: *mut Complex64, lwork: *const i32, rwork: *mut Sym, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zgesvd")
}
pub unsafe fn c_zgetrf(m: *const i32, n: *const i32, a: *mut Complex64, lda: *const i32, ipiv: *mut i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zgetrf")
}
pub unsafe fn c_zgetri(n: *const i32, a: *mut Complex64, lda: *const i32, ipiv: *const i32, work: *mut Complex64, lwork: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zgetri")
}
pub unsafe fn c_zggev(calc_vl: CcBool, calc_vr: CcBool, n: *const i32, a: *mut Complex64, lda: *const i32, b: *mut Complex64, ldb: *const i32, alpha: *mut Complex64, beta: *mut Complex64, vl: *mut Complex64, ldvl: *const i32, vr: *mut Complex64, ldvr: *const i32, work: *mut Complex64, lwork: *const i32, rwork: *mut Sym, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zggev")
}
pub unsafe fn c_zheev(calc_v: CcBool, upper: CcBool, n: *const i32, a: *mut Complex64, lda: *const i32, w: *mut Sym, work: *mut Complex64, lwork: *const i32, rwork: *mut Sym, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zheev")
}
pub unsafe fn c_zlange(norm_code: i32, m: *const i32, n: *const i32, a: *const Complex64, lda: *const i32, work: *mut Sym) -> Sym {
    panic!("SYM-UNSUPPORTED c_zlange")
}
pub unsafe fn c_zpotrf(upper: CcBool, n: *const i32, a: *mut Complex64, lda: *const i32, info: *mut i32) {
    panic!("SYM-UNSUPPORTED c_zpotrf")
}
pub unsafe fn cblas_dasum(n: i32, x: *const Sym, incx: i32) -> Sym {
    one(&[incx]);
    unsafe { sl(x, n as usize).iter().map(|a| a.abs()).sum() }
}
pub unsafe fn cblas_daxpy(n: i32, alpha: Sym, x: *const Sym, incx: i32, y: *mut Sym, incy: i32) {
    one(&[incx, incy]);
    for i in 0..n as usize {
        unsafe { *y.add(i) = *y.add(i) + alpha * *x.add(i) }
    }
}
pub unsafe fn cblas_dcopy(n: i32, x: *const Sym, incx: i32, y: *mut Sym, incy: i32) {
    one(&[incx, incy]);
    unsafe { sm(y, n as usize).copy_from_slice(sl(x, n as usize)) }
}
pub unsafe fn cblas_ddot(n: i32, x: *const Sym, incx: i32, y: *const Sym, incy: i32) -> Sym {
    one(&[incx, incy]);
    unsafe { sl(x, n as usize).iter().zip(sl(y, n as usize)).map(|(a, b)| *a * *b).sum() }
}
pub unsafe fn cblas_dgemm(layout: i32, transa: i32, transb: i32, m: i32, n: i32, k: i32, alpha: Sym, a: *const Sym, lda: i32, b: *const Sym, ldb: i32, beta: Sym, c: *mut Sym, ldc: i32) {
    unsafe { gemm(layout, transa, transb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc) }
}
pub unsafe fn cblas_dgemv(layout: i32, transa: i32, m: i32, n: i32, alpha: Sym, a: *const Sym, lda: i32, x: *const Sym, incx: i32, beta: Sym, y: *mut Sym, incy: i32) {
    one(&[incx, incy]);
    unsafe { gemv(layout, transa, m, n, alpha, a, lda, x, beta, y) }
}
pub unsafe fn cblas_dger(layout: i32, m: i32, n: i32, alpha: Sym, x: *const Sym, incx: i32, y: *const Sym, incy: i32, a: *mut Sym, lda: i32) {
    one(&[incx, incy]);
    for j in 0..n as usize {
        for i in 0..m as usize {
            unsafe {
                let p = a.add(i + j * lda as usize);
                *p = *p + alpha * *x.add(i) * *y.add(j);
            }
        }
    }
}
pub unsafe fn cblas_dnrm2(n: i32, x: *const Sym, incx: i32) -> Sym {
    one(&[incx]);
    unsafe { sl(x, n as usize).iter().map(|a| *a * *a).sum::<Sym>().sqrt() }
}
pub unsafe fn cblas_dscal(n: i32, alpha: Sym, x: *mut Sym, incx: i32) {
    one(&[incx]);
    for i in 0..n as usize {
        unsafe { *x.add(i) = alpha * *x.add(i) }
    }
}
pub unsafe fn cblas_dsyrk(layout: i32, uplo: i32, trans: i32, n: i32, k: i32, alpha: Sym, a: *const Sym, lda: i32, beta: Sym, c: *mut Sym, ldc: i32) {
    unsafe { rank(layout, uplo, trans, n, k, alpha, a, lda, beta, c, ldc, false) }
}
pub unsafe fn cblas_dznrm2(n: i32, x: *const Complex64, incx: i32) -> Sym {
    panic!("SYM-UNSUPPORTED cblas_dznrm2")
}
pub unsafe fn cblas_idamax(n: i32, x: *const Sym, incx: i32) -> i32 {
    one(&[incx]);
    let mut k = 0;
    for i in 1..n as usize {
        unsafe {
            if (*x.add(i)).abs() > (*x.add(k)).abs() {
                k = i;
            }
        }
    }
    k as i32
}
pub unsafe fn cblas_zaxpy(n: i32, alpha: *const Complex64, x: *const Complex64, incx: i32, y: *mut Complex64, incy: i32) {
    one(&[incx, incy]);
    for i in 0..n as usize {
        unsafe { *y.add(i) = *y.add(i) + *alpha * *x.add(i) }
    }
}
pub unsafe fn cblas_zcopy(n: i32, x: *const Complex64, incx: i32, y: *mut Complex64, incy: i32) {
    one(&[incx, incy]);
    unsafe { sm(y, n as usize).copy_from_slice(sl(x, n as usize)) }
}
pub unsafe fn cblas_zgemm(layout: i32, transa: i32, transb: i32, m: i32, n: i32, k: i32, alpha: *const Complex64, a: *const Complex64, lda: i32, b: *const Complex64, ldb: i32, beta: *const Complex64, c: *mut Complex64, ldc: i32) {
    unsafe { gemm(layout, transa, transb, m, n, k, *alpha, a, lda, b, ldb, *beta, c, ldc) }
}
pub unsafe fn cblas_zgemv(layout: i32, transa: i32, m: i32, n: i32, alpha: *const Complex64, a: *const Complex64, lda: i32, x: *const Complex64, incx: i32, beta: *const Complex64, y: *mut Complex64, incy: i32) {
    one(&[incx, incy]);
    unsafe { gemv(layout, transa, m, n, *alpha, a, lda, x, *beta, y) }
}
pub unsafe fn cblas_zherk(layout: i32, uplo: i32, trans: i32, n: i32, k: i32, alpha: Sym, a: *const Complex64, lda: i32, beta: Sym, c: *mut Complex64, ldc: i32) {
    unsafe { rank(layout, uplo, trans, n, k, Complex::new(alpha, Sym::lit(0.0)), a, lda, Complex::new(beta, Sym::lit(0.0)), c, ldc, true) }
}
pub unsafe fn cblas_zscal(n: i32, alpha: *const Complex64, x: *mut Complex64, incx: i32) {
    one(&[incx]);
    for i in 0..n as usize {
        unsafe { *x.add(i) = *alpha * *x.add(i) }
    }
}
pub unsafe fn cblas_zsyrk(layout: i32, uplo: i32, trans: i32, n: i32, k: i32, alpha: *const Complex64, a: *const Complex64, lda: i32, beta: *const Complex64, c: *mut Complex64, ldc: i32) {
    unsafe { rank(layout, uplo, trans, n, k, *alpha, a, lda, *beta, c, ldc, false) }
}
