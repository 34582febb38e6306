//@include prelude_real.rs
verus! {
broadcast use vstd::std_specs::hash::group_hash_axioms;
use std::collections::HashSet;

//@struct russell_pde/src/equation_handler.rs EquationHandler

impl EquationHandler {
    // representation invariant: the complete meaning of the numbering with respect to the flags
    pub open spec fn wf(&self) -> bool {
        let n = self.neq as int;
        &&& self.is_prescribed.len() == n
        &&& self.e_to_iu.len() == n
        &&& self.e_to_ip.len() == n
        &&& self.u_sorted.len() + self.p_sorted.len() == n
        &&& forall|e: int| 0 <= e < n ==> (
            if #[trigger] self.is_prescribed@[e] {
                &&& self.e_to_iu@[e] == usize::MAX
                &&& self.e_to_ip@[e] < self.p_sorted.len()
                &&& self.p_sorted@[self.e_to_ip@[e] as int] == e
            } else {
                &&& self.e_to_ip@[e] == usize::MAX
                &&& self.e_to_iu@[e] < self.u_sorted.len()
                &&& self.u_sorted@[self.e_to_iu@[e] as int] == e
            })
        &&& forall|k: int| 0 <= k < self.u_sorted.len() ==> {
            let e = #[trigger] self.u_sorted@[k];
            &&& e < n && !self.is_prescribed@[e as int] && self.e_to_iu@[e as int] == k
        }
        &&& forall|k: int| 0 <= k < self.p_sorted.len() ==> {
            let e = #[trigger] self.p_sorted@[k];
            &&& e < n && self.is_prescribed@[e as int] && self.e_to_ip@[e as int] == k
        }
        &&& forall|i: int, j: int| 0 <= i < j < self.u_sorted.len() ==> #[trigger] self.u_sorted@[i] < #[trigger] self.u_sorted@[j]
        &&& forall|i: int, j: int| 0 <= i < j < self.p_sorted.len() ==> #[trigger] self.p_sorted@[i] < #[trigger] self.p_sorted@[j]
    }
}

//@fn russell_pde/src/equation_handler.rs EquationHandler::new
//@spec
    ensures
        ret.wf(),
        ret.neq == neq,
        forall|e: int| 0 <= e < neq ==> !#[trigger] ret.is_prescribed@[e],
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::recompute
//@spec
    requires
        old(self).wf(),
    ensures
        final(self).wf(),
        final(self).neq == old(self).neq,
        // returning normally means that no listed equation was out of range
        forall|k: int| 0 <= k < p_list@.len() ==> #[trigger] p_list@[k] < old(self).neq,
        // exactly the listed equations are prescribed
        forall|e: int| 0 <= e < final(self).neq ==> (#[trigger] final(self).is_prescribed@[e] <==> p_list@.contains(e as usize)),
//@loop 0 iter it
//@loop 0
        invariant
            self.neq == old(self).neq,
            self.is_prescribed.len() == self.neq,
            self.e_to_iu.len() == self.neq,
            self.e_to_ip.len() == self.neq,
            it.seq() == p_list@.as_ref(),
            forall|k: int| 0 <= k < it.index() ==> #[trigger] p_list@[k] < self.neq,
            forall|x: usize| #[trigger] p_set@.contains(x) <==> exists|k: int| 0 <= k < it.index() && p_list@[k] == x,
//@after loop 0
        proof {
            assert forall|x: usize| #[trigger] p_set@.contains(x) <==> p_list@.contains(x) by { }
        }
//@loop 1
        invariant
            self.neq == old(self).neq,
            self.is_prescribed.len() == self.neq,
            self.e_to_iu.len() == self.neq,
            self.e_to_ip.len() == self.neq,
            forall|k: int| 0 <= k < p_list@.len() ==> #[trigger] p_list@[k] < self.neq,
            forall|x: usize| #[trigger] p_set@.contains(x) <==> p_list@.contains(x),
            iu + ip == e,
            self.u_sorted.len() == iu,
            self.p_sorted.len() == ip,
            forall|x: int| 0 <= x < e ==> (#[trigger] self.is_prescribed@[x] <==> p_list@.contains(x as usize)),
            forall|x: int| 0 <= x < e ==> (
                if #[trigger] self.is_prescribed@[x] {
                    &&& self.e_to_iu@[x] == usize::MAX
                    &&& self.e_to_ip@[x] < self.p_sorted.len()
                    &&& self.p_sorted@[self.e_to_ip@[x] as int] == x
                } else {
                    &&& self.e_to_ip@[x] == usize::MAX
                    &&& self.e_to_iu@[x] < self.u_sorted.len()
                    &&& self.u_sorted@[self.e_to_iu@[x] as int] == x
                }),
            forall|k: int| 0 <= k < self.u_sorted.len() ==> {
                let x = #[trigger] self.u_sorted@[k];
                &&& x < e && !self.is_prescribed@[x as int] && self.e_to_iu@[x as int] == k
            },
            forall|k: int| 0 <= k < self.p_sorted.len() ==> {
                let x = #[trigger] self.p_sorted@[k];
                &&& x < e && self.is_prescribed@[x as int] && self.e_to_ip@[x as int] == k
            },
            forall|i: int, j: int| 0 <= i < j < self.u_sorted.len() ==> #[trigger] self.u_sorted@[i] < #[trigger] self.u_sorted@[j],
            forall|i: int, j: int| 0 <= i < j < self.p_sorted.len() ==> #[trigger] self.p_sorted@[i] < #[trigger] self.p_sorted@[j],
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::neq as get_neq
//@spec
    ensures ret == self.neq,
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::nu
//@spec
    ensures ret == self.u_sorted.len(),
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::np
//@spec
    ensures ret == self.p_sorted.len(),
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::is_unknown
//@spec
    requires self.wf(), e < self.neq,
    ensures ret == !self.is_prescribed@[e as int],
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::is_prescribed as get_is_prescribed
//@spec
    requires self.wf(), e < self.neq,
    ensures ret == self.is_prescribed@[e as int],
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::iu
//@spec
    requires self.wf(), e < self.neq,
    ensures
        !self.is_prescribed@[e as int],
        self.u_sorted@[ret as int] == e,
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::ip
//@spec
    requires self.wf(), e < self.neq,
    ensures
        self.is_prescribed@[e as int],
        self.p_sorted@[ret as int] == e,
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::unknown
//@spec
    ensures ret@ == self.u_sorted@,
//@endfn

//@fn russell_pde/src/equation_handler.rs EquationHandler::prescribed
//@spec
    ensures ret@ == self.p_sorted@,
//@endfn

} // verus!
fn main() {}
