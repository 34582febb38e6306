// stand-in for the external sparse solver: exact elimination (the contract of the solver is that it solves the system)
use super::{CooMatrix, LinSolParams, LinSolTrait, StatsLinSol, Sym};
use crate::StrError;
use russell_lab::Vector;

pub struct SolverUMFPACK {
    n: usize,
    a: Vec<::sym::Sym>,
    sym: Sym,
    nnz: usize,
}
impl SolverUMFPACK {
    pub fn new() -> Result<Self, StrError> {
        Ok(SolverUMFPACK { n: 0, a: vec![], sym: Sym::No, nnz: 0 })
    }
}
impl LinSolTrait for SolverUMFPACK {
    fn factorize(&mut self, mat: &CooMatrix, _: Option<LinSolParams>) -> Result<(), StrError> {
        let (m, n, nnz, sym) = mat.get_info();
        if self.n > 0 {
            if sym != self.sym {
                return Err("subsequent factorizations must use the same matrix (symmetric differs)");
            }
            if n != self.n {
                return Err("subsequent factorizations must use the same matrix (ndim differs)");
            }
            if nnz != self.nnz {
                return Err("subsequent factorizations must use the same matrix (nnz differs)");
            }
        } else {
            if m != n {
                return Err("the matrix must be square");
            }
            if nnz < 1 {
                return Err("the COO matrix must have at least one non-zero value");
            }
            if sym.triangular() {
                return Err("the solver requires general or full symmetric storage");
            }
        }
        let d = mat.as_dense();
        self.a = (0..n * n).map(|k| d.get(k / n, k % n)).collect();
        self.n = n;
        self.sym = sym;
        self.nnz = nnz;
        Ok(())
    }
    fn solve(&mut self, x: &mut Vector, rhs: &Vector, _: bool) -> Result<(), StrError> {
        let n = self.n;
        if n == 0 {
            return Err("the function factorize must be called before solve");
        }
        if x.dim() != n {
            return Err("the dimension of the vector of unknown values x is incorrect");
        }
        if rhs.dim() != n {
            return Err("the dimension of the right-hand side vector is incorrect");
        }
        let mut a = self.a.clone();
        let mut b: Vec<::sym::Sym> = (0..n).map(|i| rhs[i]).collect();
        let zero = ::sym::Sym::lit(0.0);
        for k in 0..n {
            // prefer constants: fewer quotients of expressions
            let p = match (k..n).find(|i| a[i * n + k] != zero && a[i * n + k].as_int().is_some()).or_else(|| (k..n).find(|i| a[i * n + k] != zero)) {
                Some(p) => p,
                None => return Err("Error(1): Matrix is singular"),
            };
            if p != k {
                for j in 0..n {
                    a.swap(p * n + j, k * n + j);
                }
                b.swap(p, k);
            }
            for i in 0..n {
                if i != k && a[i * n + k] != zero {
                    let l = a[i * n + k] / a[k * n + k];
                    for j in k..n {
                        a[i * n + j] = a[i * n + j] - l * a[k * n + j];
                    }
                    b[i] = b[i] - l * b[k];
                }
            }
        }
        for i in 0..n {
            x[i] = b[i] / a[i * n + i];
        }
        Ok(())
    }
    fn update_stats(&self, _: &mut StatsLinSol) {}
    fn get_ns_init(&self) -> u128 {
        0
    }
    fn get_ns_fact(&self) -> u128 {
        0
    }
    fn get_ns_solve(&self) -> u128 {
        0
    }
}
