//@include inc_lab.rs
//@map A=VxArgs Stopwatch=VxStopwatch
verus! {

// ---- dropped: time measurement ----
#[derive(Clone, Copy)]
pub struct VxStopwatch { pub x: usize }
impl VxStopwatch {
    #[verifier::external_body]
    pub fn new() -> VxStopwatch { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&mut self) -> u128 { unimplemented!() }
}
#[verifier::external_body]
pub struct VxArgs { x: usize }

// ---- dropped: the parameters of the linear solver ----
#[derive(Clone, Copy)]
pub struct VxLsp { pub x: usize }

//@enum russell_ode/src/enums.rs Method derive=Clone,Copy,PartialEq,Eq,Structural
//@struct russell_ode/src/enums.rs Information derive=Clone,Copy
//@struct russell_ode/src/stats.rs Stats derive=Clone,Copy
//@struct russell_ode/src/workspace.rs Workspace
//@struct russell_ode/src/params.rs ParamsTol derive=Clone,Copy
//@enum russell_sparse/src/enums.rs Genie derive=Clone,Copy,PartialEq,Eq,Structural
//@struct russell_ode/src/params.rs ParamsNewton lin_sol_params:VxLsp -write_matrix_after_nstep_and_stop derive=Clone,Copy
//@struct russell_ode/src/params.rs ParamsStep derive=Clone,Copy
//@struct russell_ode/src/params.rs ParamsStiffness derive=Clone,Copy
//@struct russell_ode/src/params.rs ParamsBwEuler derive=Clone,Copy
//@struct russell_ode/src/params.rs ParamsRadau5 derive=Clone,Copy
//@struct russell_ode/src/params.rs ParamsERK derive=Clone,Copy
//@struct russell_ode/src/params.rs Params derive=Clone,Copy
//@const russell_ode/src/constants.rs N_EQUAL_STEPS

// the methods with an error estimate
pub open spec fn embedded(m: Method) -> bool {
    m is Radau5 || m is MdEuler || m is Merson4 || m is Zonneveld4 || m is Fehlberg4 || m is DoPri5 || m is Verner6 || m is Fehlberg7 || m is DoPri8
}
//@fn russell_ode/src/enums.rs Method::information
//@spec
    ensures ret.embedded == embedded(*self), ret.implicit == (*self is Radau5 || *self is BwEuler), ret.first_step_same_as_last == (*self is DoPri5), ret.order_of_estimator <= 8,
//@endfn

// ---- trusted: the right-hand side: a deterministic function that may fail ----
pub uninterp spec fn vx_rhs(x: real, y: Seq<R>) -> Seq<R>;
pub struct VxRhs { pub n: Ghost<int> }
impl VxRhs {
    #[verifier::external_body]
    pub fn call(&mut self, k: &mut NumVector, x: R, y: &NumVector, args: &mut VxArgs) -> (ret: Result<(), StrError>)
        ensures final(k).data@.len() == old(k).data@.len(), ret is Ok ==> final(k).data@ == vx_rhs(x@, y.data@), final(self).n@ == old(self).n@ + 1,
    { unimplemented!() }
}
pub struct VxSys { pub ndim: usize, pub function: VxRhs }
// ---- trusted: dense output (see C23) ----
pub struct VxDense { pub some: Ghost<bool> }
impl VxDense {
    #[verifier::external_body]
    pub fn is_some(&self) -> (ret: bool) ensures ret == self.some@ { unimplemented!() }
    #[verifier::external_body]
    pub fn update(&mut self, system: &mut VxSys, x: R, y: &NumVector, h: R, w: &NumVector, k: &Vec<NumVector>, args: &mut VxArgs) -> (ret: Result<usize, StrError>)
        ensures final(system).ndim == old(system).ndim, ret is Ok ==> ret->Ok_0 <= 3, final(self).some == old(self).some,
    { unimplemented!() }
}
// ---- trusted: kernels (see C08) ----
#[verifier::external_body]
pub fn vec_copy(v: &mut NumVector, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures ret is Ok <==> old(v).data@.len() == u.data@.len(), ret is Ok ==> final(v).data@ == u.data@, ret is Err ==> final(v).data@ == old(v).data@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_update(v: &mut NumVector, alpha: R, u: &NumVector) -> (ret: Result<(), StrError>)
    ensures ret is Ok <==> old(v).data@.len() == u.data@.len(), final(v).data@.len() == old(v).data@.len(),
        ret is Ok ==> forall|i: int| 0 <= i < u.data@.len() ==> (#[trigger] final(v).data@[i])@ == old(v).data@[i]@ + alpha@ * u.data@[i]@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vec_add(w: &mut NumVector, alpha: R, u: &NumVector, beta: R, v: &NumVector) -> (ret: Result<(), StrError>)
    ensures ret is Ok <==> old(w).data@.len() == u.data@.len() && u.data@.len() == v.data@.len(), final(w).data@.len() == old(w).data@.len(),
        ret is Ok ==> forall|i: int| 0 <= i < u.data@.len() ==> (#[trigger] final(w).data@[i])@ == alpha@ * u.data@[i]@ + beta@ * v.data@[i]@,
{ unimplemented!() }

//@struct russell_ode/src/explicit_runge_kutta.rs ExplicitRungeKutta system:VxSys dense_out:VxDense
} // verus!
