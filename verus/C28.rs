//@include inc_lab.rs
verus! {

//@enum russell_pde/src/enums.rs Side derive=Clone,Copy
//@struct russell_pde/src/grid_1d.rs Grid1d
//@struct russell_pde/src/grid_2d.rs Grid2d

// ---- trusted: functions given by the caller; the log holds the arguments of all calls in order ----
pub struct VxFn1 { pub log: Ghost<Seq<(usize, R)>> }
impl VxFn1 {
    #[verifier::external_body]
    pub fn call(&mut self, m: usize, x: R) ensures final(self).log@ == old(self).log@.push((m, x)) { unimplemented!() }
}
pub struct VxFn2 { pub log: Ghost<Seq<(usize, R, R)>> }
impl VxFn2 {
    #[verifier::external_body]
    pub fn call(&mut self, m: usize, x: R, y: R) ensures final(self).log@ == old(self).log@.push((m, x, y)) { unimplemented!() }
}
pub struct VxFnN { pub log: Ghost<Seq<usize>> }
impl VxFnN {
    #[verifier::external_body]
    pub fn call(&mut self, m: &usize) ensures final(self).log@ == old(self).log@.push(*m) { unimplemented!() }
}
// ---- trusted: Chebyshev-Gauss-Lobatto points (see C35) ----
pub uninterp spec fn cgl(nn: int, i: int) -> R;
#[verifier::external_body]
pub fn chebyshev_lobatto_points(nn: usize) -> (ret: NumVector)
    ensures ret.data@.len() == nn + 1, forall|i: int| 0 <= i <= nn ==> #[trigger] ret.data@[i] == cgl(nn as int, i),
{ unimplemented!() }
impl NumVector {
    // ---- trusted: Vector::from copies the values (see C07) ----
    #[verifier::external_body]
    pub fn from(x: &&[R]) -> (ret: NumVector) ensures ret.data@ == x@ { unimplemented!() }
}

pub open spec fn increasing(s: Seq<R>) -> bool { forall|i: int| 1 <= i < s.len() ==> (#[trigger] s[i])@ > s[i - 1]@ }
pub open spec fn step(a: real, b: real, n: int) -> real { (b - a) / ((n - 1) as real) }
// deviation of a coordinate from the uniform grid
pub open spec fn off(x: real, a: real, i: int, d: real) -> real { rabs(x - a - (i as real) * d) }
pub open spec fn eps() -> real { 1real / 4503599627370496real }
pub open spec fn tiny(a: real, b: real) -> real { 10real * eps() * rmax(1real, rmax(rabs(a), rabs(b)) / 3real) }
proof fn lemma_tiny(a: real, b: real)
    ensures tiny(a, b) > 0real
{
    assert(eps() > 0real) by (nonlinear_arith);
    assert(10real * eps() > 0real);
    let m = rmax(1real, rmax(rabs(a), rabs(b)) / 3real);
    assert(10real * eps() * m > 0real) by (nonlinear_arith) requires 10real * eps() > 0real, m >= 1real;
}

// ---------------------------------------------------------------- one dimension
impl Grid1d {
    pub open spec fn wf(&self) -> bool {
        &&& self.nx >= 2
        &&& self.coords.data@.len() == self.nx
        &&& self.nodes_xmin@ =~= seq![0usize]
        &&& self.nodes_xmax@ =~= seq![(self.nx - 1) as usize]
    }
    pub open spec fn x(&self, i: int) -> real { self.coords.data@[i]@ }
}

//@fn russell_pde/src/grid_1d.rs Grid1d::new
//@spec
    ensures
        ret is Ok <==> xx@.len() >= 2 && increasing(xx@),
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.nx == xx@.len() && ret->Ok_0.coords.data@ == xx@,
//@loop 0
        invariant xx@.len() == nx, nx >= 2, forall|k: int| 1 <= k < i ==> (#[trigger] xx@[k])@ > xx@[k - 1]@,
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::new_uniform
//@spec
    ensures
        ret is Ok <==> nx >= 2 && xmin@ < xmax@,
        ret is Ok ==> {
            &&& ret->Ok_0.wf() && ret->Ok_0.nx == nx
            &&& forall|i: int| 0 <= i < nx ==> #[trigger] ret->Ok_0.x(i) == xmin@ + (i as real) * step(xmin@, xmax@, nx as int)
        },
//@loop 0
        invariant
            coords.data@.len() == nx, nx >= 2, dx@ == step(xmin@, xmax@, nx as int),
            forall|k: int| 0 <= k < i ==> (#[trigger] coords.data@[k])@ == xmin@ + (k as real) * dx@,
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::new_chebyshev_gauss_lobatto
//@spec
    ensures
        ret is Ok <==> nx >= 2,
        ret is Ok ==> ret->Ok_0.wf() && ret->Ok_0.nx == nx && forall|i: int| 0 <= i < nx ==> #[trigger] ret->Ok_0.coords.data@[i] == cgl(nx - 1, i),
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::nx
//@spec
    ensures ret == self.nx,
//@endfn
//@fn russell_pde/src/grid_1d.rs Grid1d::is_xmin
//@spec
    ensures ret == (m == 0),
//@endfn
//@fn russell_pde/src/grid_1d.rs Grid1d::is_xmax
//@spec
    requires self.wf(),
    ensures ret == (m == self.nx - 1),
//@endfn
//@fn russell_pde/src/grid_1d.rs Grid1d::on_boundary
//@spec
    requires self.wf(),
    ensures ret == (m == 0 || m == self.nx - 1),
//@endfn
//@fn russell_pde/src/grid_1d.rs Grid1d::get_nodes_on_side
//@spec
    requires self.wf(),
    ensures
        // other sides end with a panic
        side is Xmin || side is Xmax,
        side is Xmin ==> ret@ =~= seq![0usize],
        side is Xmax ==> ret@ =~= seq![(self.nx - 1) as usize],
//@endfn
//@fn russell_pde/src/grid_1d.rs Grid1d::get_boundary_nodes
//@spec
    requires self.wf(),
    ensures ret.0@ =~= seq![0usize], ret.1@ =~= seq![(self.nx - 1) as usize],
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::get_dx
//@spec
    requires self.wf(),
    ensures
        // the spacing, and all nodes agree with it
        ret is Some ==> ret->0@ == step(self.x(0), self.x(self.nx - 1), self.nx as int),
        ret is Some ==> forall|i: int| 0 <= i < self.nx ==> off(#[trigger] self.x(i), self.x(0), i, ret->0@) <= tiny(self.x(0), self.x(self.nx - 1)),
        // refused only if some node does not agree
        ret is None ==> exists|i: int| 0 <= i < self.nx && off(#[trigger] self.x(i), self.x(0), i, step(self.x(0), self.x(self.nx - 1), self.nx as int)) > 0real,
//@before loop 0
        proof {
            lemma_tiny(self.x(0), self.x(self.nx - 1));
            assert(0real * dx@ == 0real) by (nonlinear_arith);
            assert(off(self.x(0), self.x(0), 0, dx@) == 0real);
        }
//@loop 0
        invariant
            self.wf(), xmin@ == self.x(0), dx@ == step(self.x(0), self.x(self.nx - 1), self.nx as int), tol@ > 0real,
            tol@ == tiny(self.x(0), self.x(self.nx - 1)),
            off(self.x(0), self.x(0), 0, dx@) == 0real,
            forall|k: int| 0 <= k < i ==> off(#[trigger] self.x(k), self.x(0), k, dx@) <= tol@,
//@loop 0 start
            proof { assert(self.x(i as int) == self.coords.data@[i as int]@); }
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::coord
//@spec
    requires self.wf(), m < self.nx,
    ensures ret == self.coords.data@[m as int],
//@endfn

//@fn russell_pde/src/grid_1d.rs Grid1d::for_each_coord fn:f=VxFn1
//@spec
    requires self.wf(), old(f).log@.len() == 0,
    ensures
        // every node once, in order, with its coordinate
        final(f).log@.len() == self.nx,
        forall|k: int| 0 <= k < self.nx ==> #[trigger] final(f).log@[k] == (k as usize, self.coords.data@[k]),
//@loop 0
        invariant
            self.wf(), f.log@.len() == m,
            forall|k: int| 0 <= k < m ==> #[trigger] f.log@[k] == (k as usize, self.coords.data@[k]),
//@endfn

// ---------------------------------------------------------------- two dimensions
//@notvec coords
impl Grid2d {
    pub open spec fn wf(&self) -> bool {
        &&& self.nx >= 2 && self.ny >= 2
        &&& self.npoint == self.nx * self.ny
        &&& self.coords@.len() == self.npoint
        &&& self.nodes_xmin@.len() == self.ny && forall|j: int| 0 <= j < self.ny ==> #[trigger] self.nodes_xmin@[j] == cm(0, j, self.nx as int)
        &&& self.nodes_xmax@.len() == self.ny && forall|j: int| 0 <= j < self.ny ==> #[trigger] self.nodes_xmax@[j] == cm(self.nx - 1, j, self.nx as int)
        &&& self.nodes_ymin@.len() == self.nx && forall|i: int| 0 <= i < self.nx ==> #[trigger] self.nodes_ymin@[i] == cm(i, 0, self.nx as int)
        &&& self.nodes_ymax@.len() == self.nx && forall|i: int| 0 <= i < self.nx ==> #[trigger] self.nodes_ymax@[i] == cm(i, self.ny - 1, self.nx as int)
    }
    // node (i,j)
    pub open spec fn at(&self, i: int, j: int) -> (R, R) { self.coords@[cm(i, j, self.nx as int)] }
    pub open spec fn x(&self, i: int, j: int) -> real { self.at(i, j).0@ }
    pub open spec fn y(&self, i: int, j: int) -> real { self.at(i, j).1@ }
}
// node m has the indices (i,j)
pub open spec fn is_node(m: int, i: int, j: int, nx: int) -> bool { 0 <= i < nx && 0 <= j && m == cm(i, j, nx) }
proof fn lemma_node(m: int, nx: int)
    requires nx > 0, m >= 0
    ensures is_node(m, m % nx, m / nx, nx)
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, nx);
    vstd::arithmetic::div_mod::lemma_mod_bound(m, nx);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(m, nx);
    assert(nx * (m / nx) == (m / nx) * nx) by (nonlinear_arith);
}
proof fn lemma_row(m: int, nx: int, ny: int)
    requires nx > 0, ny > 0, 0 <= m < nx * ny
    ensures is_node(m, m % nx, m / nx, nx), m / nx < ny
{
    lemma_node(m, nx);
    let j = m / nx;
    if j >= ny {
        assert(j * nx >= nx * ny) by (nonlinear_arith) requires j >= ny, nx > 0;
    }
}
// the same indices from the node
proof fn lemma_unique(i: int, j: int, nx: int)
    requires 0 <= i < nx, 0 <= j
    ensures cm(i, j, nx) >= 0, cm(i, j, nx) % nx == i, cm(i, j, nx) / nx == j
{
    assert(j * nx >= 0) by (nonlinear_arith) requires j >= 0, nx > 0;
    lemma_node(cm(i, j, nx), nx);
    lemma_cm_inj(i, j, cm(i, j, nx) % nx, cm(i, j, nx) / nx, nx);
}
proof fn lemma_rows(nx: int, ny: int)
    requires 0 <= nx, 0 <= ny
    ensures forall|i: int, j: int| #![trigger cm(i, j, nx)] 0 <= i < nx && 0 <= j < ny ==> 0 <= cm(i, j, nx) < nx * ny
{
    assert forall|i: int, j: int| #![trigger cm(i, j, nx)] 0 <= i < nx && 0 <= j < ny implies 0 <= cm(i, j, nx) < nx * ny by { lemma_cm_bound(i, j, nx, ny); }
}

//@fn russell_pde/src/grid_2d.rs Grid2d::do_allocate
//@spec
    requires nx >= 2, ny >= 2, nx * ny <= usize::MAX, coords@.len() == nx * ny,
    ensures
        ret.wf(), ret.nx == nx, ret.ny == ny, ret.coords@ == coords@, ret.is_chebyshev_gauss_lobatto == cgl_grid,
        ret.xmin == xmin, ret.xmax == xmax, ret.ymin == ymin, ret.ymax == ymax,
//@start
    proof { lemma_rows(nx as int, ny as int); }
//@loop 0
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX,
            vx_c0@.len() == j, forall|k: int| 0 <= k < j ==> #[trigger] vx_c0@[k] == cm(0, k, nx as int),
//@loop 0 start
            proof { lemma_cm_bound(0, j as int, nx as int, ny as int); }
//@loop 1
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX,
            vx_c1@.len() == j, forall|k: int| 0 <= k < j ==> #[trigger] vx_c1@[k] == cm(nx - 1, k, nx as int),
//@loop 1 start
            proof { lemma_cm_bound(nx - 1, j as int, nx as int, ny as int); }
//@loop 2
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX,
            vx_c2@.len() == i, forall|k: int| 0 <= k < i ==> #[trigger] vx_c2@[k] == cm(k, ny - 1, nx as int),
//@loop 2 start
            proof { lemma_cm_bound(i as int, ny - 1, nx as int, ny as int); }
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::new
//@spec
    requires xx@.len() * yy@.len() <= usize::MAX,
    ensures
        ret is Ok <==> xx@.len() >= 2 && yy@.len() >= 2 && increasing(xx@) && increasing(yy@),
        ret is Ok ==> {
            let g = ret->Ok_0;
            &&& g.wf() && g.nx == xx@.len() && g.ny == yy@.len() && !g.is_chebyshev_gauss_lobatto
            &&& g.xmin == xx@[0] && g.xmax == xx@[g.nx - 1] && g.ymin == yy@[0] && g.ymax == yy@[g.ny - 1]
            &&& forall|i: int, j: int| 0 <= i < g.nx && 0 <= j < g.ny ==> #[trigger] g.at(i, j) == (xx@[i], yy@[j])
        },
//@start
    proof { lemma_rows(xx@.len() as int, yy@.len() as int); }
//@loop 0
        invariant xx@.len() == nx, nx >= 2, forall|k: int| 1 <= k < i ==> (#[trigger] xx@[k])@ > xx@[k - 1]@,
//@before loop 1
        proof { assert(0 * nx == 0) by (nonlinear_arith); lemma_rows(nx as int, ny as int); }
//@after loop 1
        proof { assert(ny * nx == nx * ny) by (nonlinear_arith); }
//@loop 1
        invariant
            xx@.len() == nx, yy@.len() == ny, nx >= 2, ny >= 2, nx * ny <= usize::MAX,
            coords@.len() == j * nx,
            forall|k: int| 1 <= k < j ==> (#[trigger] yy@[k])@ > yy@[k - 1]@,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == (xx@[k], yy@[l]),
//@loop 2
        invariant
            xx@.len() == nx, yy@.len() == ny, nx >= 2, ny >= 2, nx * ny <= usize::MAX, j < ny,
            coords@.len() == j * nx + i,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == (xx@[k], yy@[l]),
            forall|k: int| 0 <= k < i ==> #[trigger] coords@[cm(k, j as int, nx as int)] == (xx@[k], yy@[j as int]),
//@loop 2 start
            let ghost before = coords@;
            proof { lemma_rows(nx as int, j as int); assert(nx * j == j * nx) by (nonlinear_arith); }
//@loop 2 end
            proof {
                assert forall|k: int, l: int| 0 <= k < nx && 0 <= l < j implies #[trigger] coords@[cm(k, l, nx as int)] == (xx@[k], yy@[l]) by { assert(before[cm(k, l, nx as int)] == (xx@[k], yy@[l])); }
                assert forall|k: int| 0 <= k < i + 1 implies #[trigger] coords@[cm(k, j as int, nx as int)] == (xx@[k], yy@[j as int]) by {
                    if k < i { assert(before[cm(k, j as int, nx as int)] == (xx@[k], yy@[j as int])); }
                }
            }
//@after loop 2
            proof { assert((j + 1) * nx == j * nx + nx) by (nonlinear_arith); }
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::new_uniform
//@spec
    requires nx * ny <= usize::MAX,
    ensures
        ret is Ok <==> nx >= 2 && ny >= 2 && xmin@ < xmax@ && ymin@ < ymax@,
        ret is Ok ==> {
            let g = ret->Ok_0;
            &&& g.wf() && g.nx == nx && g.ny == ny && !g.is_chebyshev_gauss_lobatto
            &&& g.xmin == xmin && g.xmax == xmax && g.ymin == ymin && g.ymax == ymax
            &&& forall|i: int, j: int| 0 <= i < g.nx && 0 <= j < g.ny ==> #[trigger] g.at(i, j) == ux(xmin@, xmax@, ymin@, ymax@, i, j, nx as int, ny as int)
        },
//@before loop 0
        proof { assert(0 * nx == 0) by (nonlinear_arith); lemma_rows(nx as int, ny as int); }
//@after loop 0
        proof { assert(ny * nx == nx * ny) by (nonlinear_arith); }
//@loop 0
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX,
            dx@ == step(xmin@, xmax@, nx as int), dy@ == step(ymin@, ymax@, ny as int),
            coords@.len() == j * nx,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, l, nx as int, ny as int),
//@loop 1
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX, j < ny,
            dx@ == step(xmin@, xmax@, nx as int), dy@ == step(ymin@, ymax@, ny as int),
            y@ == ymin@ + (j as real) * dy@,
            coords@.len() == j * nx + i,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, l, nx as int, ny as int),
            forall|k: int| 0 <= k < i ==> #[trigger] coords@[cm(k, j as int, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, j as int, nx as int, ny as int),
//@loop 1 start
            let ghost before = coords@;
            proof { lemma_rows(nx as int, j as int); assert(nx * j == j * nx) by (nonlinear_arith); }
//@loop 1 end
            proof {
                assert forall|k: int, l: int| 0 <= k < nx && 0 <= l < j implies #[trigger] coords@[cm(k, l, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, l, nx as int, ny as int) by {
                    assert(before[cm(k, l, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, l, nx as int, ny as int));
                }
                assert forall|k: int| 0 <= k < i + 1 implies #[trigger] coords@[cm(k, j as int, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, j as int, nx as int, ny as int) by {
                    if k < i { assert(before[cm(k, j as int, nx as int)] == ux(xmin@, xmax@, ymin@, ymax@, k, j as int, nx as int, ny as int)); }
                }
            }
//@after loop 1
            proof { assert((j + 1) * nx == j * nx + nx) by (nonlinear_arith); }
//@endfn

// point of a uniform grid
pub open spec fn ux(a: real, b: real, c: real, d: real, i: int, j: int, nx: int, ny: int) -> (R, R) {
    (r(a + (i as real) * step(a, b, nx)), r(c + (j as real) * step(c, d, ny)))
}

//@fn russell_pde/src/grid_2d.rs Grid2d::new_chebyshev_gauss_lobatto vec:uu,vv
//@spec
    requires nx * ny <= usize::MAX,
    ensures
        ret is Ok <==> nx >= 2 && ny >= 2,
        ret is Ok ==> {
            let g = ret->Ok_0;
            &&& g.wf() && g.nx == nx && g.ny == ny && g.is_chebyshev_gauss_lobatto
            &&& g.xmin@ == -1real && g.xmax@ == 1real && g.ymin@ == -1real && g.ymax@ == 1real
            &&& forall|i: int, j: int| 0 <= i < g.nx && 0 <= j < g.ny ==> #[trigger] g.at(i, j) == (cgl(nx - 1, i), cgl(ny - 1, j))
        },
//@before loop 0
        proof { assert(0 * nx == 0) by (nonlinear_arith); lemma_rows(nx as int, ny as int); }
//@after loop 0
        proof { assert(ny * nx == nx * ny) by (nonlinear_arith); }
//@loop 0
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX, uu.data@.len() == nx, vv.data@.len() == ny,
            forall|i: int| 0 <= i < nx ==> #[trigger] uu.data@[i] == cgl(nx - 1, i),
            forall|i: int| 0 <= i < ny ==> #[trigger] vv.data@[i] == cgl(ny - 1, i),
            coords@.len() == j * nx,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, l)),
//@loop 1
        invariant
            nx >= 2, ny >= 2, nx * ny <= usize::MAX, j < ny, uu.data@.len() == nx, vv.data@.len() == ny,
            forall|i: int| 0 <= i < nx ==> #[trigger] uu.data@[i] == cgl(nx - 1, i),
            forall|i: int| 0 <= i < ny ==> #[trigger] vv.data@[i] == cgl(ny - 1, i),
            coords@.len() == j * nx + i,
            forall|k: int, l: int| 0 <= k < nx && 0 <= l < j ==> #[trigger] coords@[cm(k, l, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, l)),
            forall|k: int| 0 <= k < i ==> #[trigger] coords@[cm(k, j as int, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, j as int)),
//@loop 1 start
            let ghost before = coords@;
            proof { lemma_rows(nx as int, j as int); assert(nx * j == j * nx) by (nonlinear_arith); }
//@loop 1 end
            proof {
                assert forall|k: int, l: int| 0 <= k < nx && 0 <= l < j implies #[trigger] coords@[cm(k, l, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, l)) by { assert(before[cm(k, l, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, l))); }
                assert forall|k: int| 0 <= k < i + 1 implies #[trigger] coords@[cm(k, j as int, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, j as int)) by {
                    if k < i { assert(before[cm(k, j as int, nx as int)] == (cgl(nx - 1, k), cgl(ny - 1, j as int))); }
                }
            }
//@after loop 1
            proof { assert((j + 1) * nx == j * nx + nx) by (nonlinear_arith); }
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::is_chebyshev_gauss_lobatto
//@spec
    ensures ret == self.is_chebyshev_gauss_lobatto,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::xmin
//@spec
    ensures ret == self.xmin,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::xmax
//@spec
    ensures ret == self.xmax,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::ymin
//@spec
    ensures ret == self.ymin,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::ymax
//@spec
    ensures ret == self.ymax,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::nx
//@spec
    ensures ret == self.nx,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::ny
//@spec
    ensures ret == self.ny,
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::size
//@spec
    requires self.wf(),
    ensures ret == self.nx * self.ny,
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::get_m
//@spec
    requires self.wf(), i < self.nx, j < self.ny,
    ensures ret == cm(i as int, j as int, self.nx as int), ret < self.npoint, is_node(ret as int, i as int, j as int, self.nx as int),
//@start
    proof { lemma_cm_bound(i as int, j as int, self.nx as int, self.ny as int); }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::get_ij
//@spec
    requires self.wf(), m < self.npoint,
    ensures
        ret.0 < self.nx, ret.1 < self.ny, is_node(m as int, ret.0 as int, ret.1 as int, self.nx as int),
        // the only pair with this node
        forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> i == ret.0 && j == ret.1,
//@start
    proof {
        lemma_row(m as int, self.nx as int, self.ny as int);
        assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); }
    }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::is_xmin
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == (i == 0),
//@start
    proof { assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); } }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::is_xmax
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == (i == self.nx - 1),
//@start
    proof { assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); } }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::is_ymin
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == (j == 0),
//@start
    proof { assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); } }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::is_ymax
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == (j == self.ny - 1),
//@start
    proof { assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); } }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::on_boundary
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == (i == 0 || i == self.nx - 1 || j == 0 || j == self.ny - 1),
//@start
    proof { assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); } }
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::is_corner
//@spec
    requires self.wf(), m < self.npoint,
    ensures forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == ((i == 0 || i == self.nx - 1) && (j == 0 || j == self.ny - 1)),
//@start
    proof {
        assert forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) implies i == m as int % self.nx as int && j == m as int / self.nx as int by { lemma_unique(i, j, self.nx as int); }
        let (nx, ny) = (self.nx as int, self.ny as int);
        lemma_row(m as int, nx, ny);
        lemma_unique(0, 0, nx);
        lemma_unique(nx - 1, ny - 1, nx);
        assert(cm(nx - 1, ny - 1, nx) == nx * ny - 1) by { assert((ny - 1) * nx == ny * nx - nx) by (nonlinear_arith); assert(nx * ny == ny * nx) by (nonlinear_arith); }
        assert(0 * nx == 0);
    }
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::get_nodes_on_side
//@spec
    requires self.wf(),
    ensures
        side is Xmin || side is Xmax ==> ret@.len() == self.ny,
        side is Ymin || side is Ymax ==> ret@.len() == self.nx,
        side is Xmin ==> forall|j: int| 0 <= j < self.ny ==> #[trigger] ret@[j] == cm(0, j, self.nx as int),
        side is Xmax ==> forall|j: int| 0 <= j < self.ny ==> #[trigger] ret@[j] == cm(self.nx - 1, j, self.nx as int),
        side is Ymin ==> forall|i: int| 0 <= i < self.nx ==> #[trigger] ret@[i] == cm(i, 0, self.nx as int),
        side is Ymax ==> forall|i: int| 0 <= i < self.nx ==> #[trigger] ret@[i] == cm(i, self.ny - 1, self.nx as int),
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::get_boundary_nodes
//@spec
    ensures ret.0@ == self.nodes_xmin@, ret.1@ == self.nodes_xmax@, ret.2@ == self.nodes_ymin@, ret.3@ == self.nodes_ymax@,
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::get_dx_dy
//@spec
    requires self.wf(),
    ensures
        ret is Some ==> {
            let (dx, dy) = ((ret->0).0@, (ret->0).1@);
            &&& dx == step(self.xmin@, self.xmax@, self.nx as int) && dy == step(self.ymin@, self.ymax@, self.ny as int)
            &&& forall|i: int, j: int| 0 <= i < self.nx && 0 <= j < self.ny ==> off(#[trigger] self.at(i, j).0@, self.xmin@, i, dx) <= tiny(self.xmin@, self.xmax@)
            &&& forall|i: int, j: int| 0 <= i < self.nx && 0 <= j < self.ny ==> off(#[trigger] self.at(i, j).1@, self.ymin@, j, dy) <= tiny(self.ymin@, self.ymax@)
        },
        ret is None ==> exists|i: int, j: int| #![trigger self.at(i, j)] 0 <= i < self.nx && 0 <= j < self.ny && (
            off(self.at(i, j).0@, self.xmin@, i, step(self.xmin@, self.xmax@, self.nx as int)) > 0real
            || off(self.at(i, j).1@, self.ymin@, j, step(self.ymin@, self.ymax@, self.ny as int)) > 0real),
//@before loop 0
        proof { lemma_tiny(self.xmin@, self.xmax@); lemma_tiny(self.ymin@, self.ymax@); }
//@loop 0
        invariant
            self.wf(), dx@ == step(self.xmin@, self.xmax@, self.nx as int), dy@ == step(self.ymin@, self.ymax@, self.ny as int),
            tol_x@ > 0real, tol_y@ > 0real, tol_x@ == tiny(self.xmin@, self.xmax@), tol_y@ == tiny(self.ymin@, self.ymax@),
            forall|k: int, l: int| 0 <= k < self.nx && 0 <= l < self.ny && #[trigger] cm(k, l, self.nx as int) < m ==>
                off(self.at(k, l).0@, self.xmin@, k, dx@) <= tol_x@ && off(self.at(k, l).1@, self.ymin@, l, dy@) <= tol_y@,
//@loop 0 start
            proof { lemma_row(m as int, self.nx as int, self.ny as int); }
//@loop 0 end
            proof {
                assert forall|k: int, l: int| 0 <= k < self.nx && 0 <= l < self.ny && #[trigger] cm(k, l, self.nx as int) < m + 1 implies
                    off(self.at(k, l).0@, self.xmin@, k, dx@) <= tol_x@ && off(self.at(k, l).1@, self.ymin@, l, dy@) <= tol_y@ by {
                    if cm(k, l, self.nx as int) == m { lemma_unique(k, l, self.nx as int); }
                }
            }
//@after loop 0
        proof {
            lemma_rows(self.nx as int, self.ny as int);
            assert forall|i: int, j: int| 0 <= i < self.nx && 0 <= j < self.ny implies off(#[trigger] self.at(i, j).0@, self.xmin@, i, dx@) <= tol_x@ by { assert(cm(i, j, self.nx as int) < self.npoint); }
            assert forall|i: int, j: int| 0 <= i < self.nx && 0 <= j < self.ny implies off(#[trigger] self.at(i, j).1@, self.ymin@, j, dy@) <= tol_y@ by { assert(cm(i, j, self.nx as int) < self.npoint); }
        }
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::coord
//@spec
    requires self.wf(), m < self.npoint,
    ensures ret == self.coords@[m as int], forall|i: int, j: int| #[trigger] is_node(m as int, i, j, self.nx as int) ==> ret == self.at(i, j),
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::for_each_coord fn:f=VxFn2
//@spec
    requires self.wf(), old(f).log@.len() == 0,
    ensures
        final(f).log@.len() == self.npoint,
        forall|k: int| 0 <= k < self.npoint ==> #[trigger] final(f).log@[k] == (k as usize, self.coords@[k].0, self.coords@[k].1),
//@loop 0
        invariant
            self.wf(), f.log@.len() == m,
            forall|k: int| 0 <= k < m ==> #[trigger] f.log@[k] == (k as usize, self.coords@[k].0, self.coords@[k].1),
//@endfn

//@fn russell_pde/src/grid_2d.rs Grid2d::for_each_node_xmin fn:f=VxFnN
//@spec
    requires old(f).log@.len() == 0,
    ensures final(f).log@ =~= self.nodes_xmin@,
//@loop 0 iter it
//@loop 0
        invariant it.seq() == self.nodes_xmin@.as_ref(), f.log@ =~= self.nodes_xmin@.take(it.index()),
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::for_each_node_xmax fn:f=VxFnN
//@spec
    requires old(f).log@.len() == 0,
    ensures final(f).log@ =~= self.nodes_xmax@,
//@loop 0 iter it
//@loop 0
        invariant it.seq() == self.nodes_xmax@.as_ref(), f.log@ =~= self.nodes_xmax@.take(it.index()),
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::for_each_node_ymin fn:f=VxFnN
//@spec
    requires old(f).log@.len() == 0,
    ensures final(f).log@ =~= self.nodes_ymin@,
//@loop 0 iter it
//@loop 0
        invariant it.seq() == self.nodes_ymin@.as_ref(), f.log@ =~= self.nodes_ymin@.take(it.index()),
//@endfn
//@fn russell_pde/src/grid_2d.rs Grid2d::for_each_node_ymax fn:f=VxFnN
//@spec
    requires old(f).log@.len() == 0,
    ensures final(f).log@ =~= self.nodes_ymax@,
//@loop 0 iter it
//@loop 0
        invariant it.seq() == self.nodes_ymax@.as_ref(), f.log@ =~= self.nodes_ymax@.take(it.index()),
//@endfn

} // verus!
fn main() {}
