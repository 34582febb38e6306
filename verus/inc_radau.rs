//@include inc_ode.rs
verus! {
// ---- trusted: Jacobian of the user, matrix and linear solver ----
pub struct VxJac { pub some: Ghost<bool> }
impl VxJac {
    #[verifier::external_body]
    pub fn is_none(&self) -> (ret: bool) ensures ret == !self.some@ { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&self, jj: &mut VxCoo, alpha: R, x: R, y: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>) { unimplemented!() }
}
pub struct VxSysJ { pub ndim: usize, pub function: VxRhs, pub jacobian: VxJac }
#[verifier::external_body]
pub struct VxCoo { x: usize }
// an operation that may panic
pub struct VxMayPanic { pub x: usize }
impl VxMayPanic {
    #[verifier::external_body]
    pub fn unwrap(self) { unimplemented!() }
}
impl VxCoo {
    #[verifier::external_body]
    pub fn put(&mut self, i: usize, j: usize, v: R) -> VxMayPanic { unimplemented!() }
}
// the solution for a right-hand side with the factorised matrix; nothing else is known about it
pub uninterp spec fn vx_sol(mat: int, rhs: Seq<R>) -> Seq<R>;
pub uninterp spec fn vx_csol(mat: int, rhs: Seq<VxC>) -> Seq<VxC>;
pub struct VxLinSolver { pub mat: Ghost<int> }
pub struct VxLs { pub actual: VxLinSolver }
impl VxLinSolver {
    #[verifier::external_body]
    pub fn factorize(&mut self, m: &VxCoo, p: VxLsp) -> (ret: Result<(), StrError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn solve(&mut self, x: &mut NumVector, rhs: &NumVector, verbose: bool) -> (ret: Result<(), StrError>)
        ensures final(x).data@.len() == old(x).data@.len(), final(self).mat == old(self).mat, ret is Ok ==> final(x).data@ == vx_sol(old(self).mat@, rhs.data@)
    { unimplemented!() }
}
#[derive(Clone, Copy)]
pub struct VxC { pub re: R, pub im: R }
pub struct VxCVec { pub data: Vec<VxC> }
pub struct VxCLinSolver { pub mat: Ghost<int> }
pub struct VxCLs { pub actual: VxCLinSolver }
impl VxCLinSolver {
    #[verifier::external_body]
    pub fn factorize(&mut self, m: &VxCCoo, p: VxLsp) -> (ret: Result<(), StrError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn solve(&mut self, x: &mut VxCVec, rhs: &VxCVec, verbose: bool) -> (ret: Result<(), StrError>)
        ensures final(x).data@.len() == old(x).data@.len(), final(self).mat == old(self).mat, ret is Ok ==> final(x).data@ == vx_csol(old(self).mat@, rhs.data@)
    { unimplemented!() }
}
#[verifier::external_body]
pub struct VxCCoo { x: usize }
pub uninterp spec fn vx_mass(alpha: real, u: Seq<R>) -> Seq<R>;
#[verifier::external_body]
pub struct VxMass { x: usize }
impl VxMass {
    #[verifier::external_body]
    pub fn mat_vec_mul(&self, v: &mut NumVector, alpha: R, u: &NumVector) -> (ret: VxMayPanic) ensures final(v).data@.len() == old(v).data@.len(), final(v).data@ == vx_mass(alpha@, u.data@) { unimplemented!() }
}
#[verifier::external_body]
pub fn complex_vec_zip(v: &mut VxCVec, a: &NumVector, b: &NumVector) -> (ret: Result<(), StrError>)
    ensures ret is Ok <==> old(v).data@.len() == a.data@.len() && a.data@.len() == b.data@.len(), final(v).data@.len() == old(v).data@.len(),
        ret is Ok ==> forall|m: int| 0 <= m < a.data@.len() ==> (#[trigger] final(v).data@[m]).re == a.data@[m] && final(v).data@[m].im == b.data@[m],
{ unimplemented!() }
impl VxRhs {
    #[verifier::external_body]
    pub fn as_ref(&mut self) -> (ret: &mut VxRhs) ensures ret.n == old(self).n, final(ret).n == final(self).n { unimplemented!() }
}
//@const russell_ode/src/radau5.rs ALPHA
//@const russell_ode/src/radau5.rs BETA
//@const russell_ode/src/radau5.rs GAMMA
//@const russell_ode/src/radau5.rs E0
//@const russell_ode/src/radau5.rs E1
//@const russell_ode/src/radau5.rs E2
//@const russell_ode/src/radau5.rs MU1
//@const russell_ode/src/radau5.rs MU2
//@const russell_ode/src/radau5.rs MU3
//@const russell_ode/src/radau5.rs MU4
//@const russell_ode/src/radau5.rs MU5
//@const russell_ode/src/radau5.rs C
//@const russell_ode/src/radau5.rs T
//@const russell_ode/src/radau5.rs TI
//@map const:ALPHA=ALPHA_c const:BETA=BETA_c const:GAMMA=GAMMA_c const:E0=E0_c const:E1=E1_c const:E2=E2_c const:MU1=MU1_c const:MU2=MU2_c const:MU3=MU3_c const:MU4=MU4_c const:MU5=MU5_c const:C=C_c const:T=T_c const:TI=TI_c
//@vectors VxCVec
//@struct russell_ode/src/radau5.rs Radau5 system:VxSysJ mass:Option<VxMass> jj:VxCoo kk_real:VxCoo kk_comp:VxCCoo solver_real:VxLs solver_comp:VxCLs v12:VxCVec dw12:VxCVec
pub open spec fn scale_of(t: ParamsTol, y: Seq<R>, s: Seq<R>) -> bool { s.len() == y.len() && forall|i: int| 0 <= i < y.len() ==> (#[trigger] s[i])@ == t.abs@ + t.rel@ * rabs(y[i]@) }
impl Radau5 {
    pub open spec fn wf(&self) -> bool {
        let n = self.system.ndim;
        &&& n >= 1 && self.params.tol.abs@ > 0real && self.params.tol.rel@ > 0real && self.params.tol.newton@ > 0real
        &&& self.k_accepted.data@.len() == n && self.scaling.data@.len() == n && self.v0.data@.len() == n && self.v1.data@.len() == n && self.v2.data@.len() == n && self.v12.data@.len() == n
        &&& self.k0.data@.len() == n && self.k1.data@.len() == n && self.k2.data@.len() == n && self.z0.data@.len() == n && self.z1.data@.len() == n && self.z2.data@.len() == n
        &&& self.yc0.data@.len() == n && self.yc1.data@.len() == n && self.yc2.data@.len() == n && self.w0.data@.len() == n && self.w1.data@.len() == n && self.w2.data@.len() == n
        &&& self.dw0.data@.len() == n && self.dw1.data@.len() == n && self.dw2.data@.len() == n && self.dw12.data@.len() == n
    }
    // the parts that never change
    pub open spec fn same(&self, o: &Radau5) -> bool { self.params == o.params && self.system.ndim == o.system.ndim && self.system.jacobian == o.system.jacobian && self.mass == o.mass }
}
//@fn russell_ode/src/radau5.rs Radau5::initialize
//@spec
    requires old(self).wf(), y.data@.len() == old(self).system.ndim, old(work).stats.n_function < usize::MAX,
    ensures final(self).wf(), final(self).same(old(self)), final(work).stats.n_accepted == old(work).stats.n_accepted, final(work).h_new == old(work).h_new,
        final(work).stats.n_function == old(work).stats.n_function + 1, final(work).stats.n_steps == old(work).stats.n_steps, final(work).follows_reject_step == old(work).follows_reject_step,
        final(work).rel_error == old(work).rel_error, final(work).stats.n_factor == old(work).stats.n_factor, final(work).stats.n_lin_sol == old(work).stats.n_lin_sol, final(work).h_prev == old(work).h_prev,
        final(self).z0 == old(self).z0, final(self).z1 == old(self).z1, final(self).z2 == old(self).z2, final(self).yc0 == old(self).yc0, final(self).yc1 == old(self).yc1, final(self).yc2 == old(self).yc2,
        final(self).reuse_jacobian == old(self).reuse_jacobian, final(self).reuse_jacobian_kk_and_fact == old(self).reuse_jacobian_kk_and_fact, final(self).jacobian_computed == old(self).jacobian_computed,
        ret is Ok ==> scale_of(old(self).params.tol, y.data@, final(self).scaling.data@) && final(self).k_accepted.data@ == vx_rhs(x@, y.data@),
//@loop 0
            invariant self.wf(), self.same(old(self)), y.data@.len() == self.system.ndim, *work == *old(work), forall|q: int| 0 <= q < i ==> (#[trigger] self.scaling.data@[q])@ == self.params.tol.abs@ + self.params.tol.rel@ * rabs(y.data@[q]@),
                self.z0 == old(self).z0, self.z1 == old(self).z1, self.z2 == old(self).z2, self.yc0 == old(self).yc0, self.yc1 == old(self).yc1, self.yc2 == old(self).yc2,
                self.reuse_jacobian == old(self).reuse_jacobian, self.reuse_jacobian_kk_and_fact == old(self).reuse_jacobian_kk_and_fact, self.jacobian_computed == old(self).jacobian_computed,
//@endfn
} // verus!
