⟦file src/nodes/node_prog.rs⟧
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
pub mod fx {
    use super::*;
    pub broadcast axiom fn add_ok(a: f32, b: f32) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn mul_ok(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn add_fn() ensures #[trigger] <f32 as AddSpec>::obeys_add_spec();
    pub broadcast axiom fn mul_fn() ensures #[trigger] <f32 as MulSpec>::obeys_mul_spec();
    pub broadcast group g { add_ok, mul_ok, add_fn, mul_fn }
    /// the f32 of a field is an f32 (Verus does not derive this by itself)
    pub axiom fn typed(x: f32) -> (r: f32) ensures r == x;
}
pub mod env {
use super::*;
/// the contents of all buffers, by pointer
pub tracked struct Mem { pub ghost m: Map<int, Seq<f32>> }
/// a pointer to a buffer of 128 samples
#[verifier::external_body]
pub struct ProcBuf { p: *mut f32 }
impl Clone for ProcBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ProcBuf {}
pub uninterp spec fn null_buf() -> ProcBuf;
impl ProcBuf {
    pub uninterp spec fn ptr(&self) -> int;
    #[verifier::external_body]
    pub fn null() -> (r: ProcBuf) ensures r == null_buf() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (*self == null_buf()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self, idx: usize, Tracked(mem): Tracked<&Mem>) -> (r: f32)
        requires idx < 128, *self != null_buf()
        ensures r == mem.m[self.ptr()][idx as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, idx: usize, v: f32, Tracked(mem): Tracked<&mut Mem>)
        requires idx < 128, *old(self) != null_buf()
        ensures *final(self) == *old(self), final(mem).m == old(mem).m.insert(old(self).ptr(), old(mem).m[old(self).ptr()].update(idx as int, v))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, v: f32, Tracked(mem): Tracked<&mut Mem>)
        requires *old(self) != null_buf()
        ensures *final(self) == *old(self), final(mem).m == old(mem).m.insert(old(self).ptr(), Seq::new(128, |k: int| v))
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Node { p: i64 }
#[verifier::external_body]
pub struct SAtom { p: i64 }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Input<T> { p: Vec<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Output<T> { p: Vec<T> }
#[verifier::external_body]
pub fn copy_range(a: &mut Vec<ProcBuf>, s: usize, e: usize, b: &Vec<ProcBuf>, t: usize, f: usize)
    requires s <= e <= old(a)@.len(), t <= f <= b@.len(), e - s == f - t
    ensures final(a)@.len() == old(a)@.len(), forall|k: int| 0 <= k < old(a)@.len() ==> #[trigger] final(a)@[k] == (if s <= k < e { b@[t + (k - s)] } else { old(a)@[k] })
{ unimplemented!() }
#[verifier::external_body]
pub fn swap_bufs(a: &mut ProcBuf, b: &mut ProcBuf) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
}
pub use env::*;
broadcast use fx::g;

⟦struct ModOp⟧
impl ModOp {
    ⟦fn ModOp::set_amt⟧
    fn set_amt(&mut self, amt: f32)
«    ensures *final(self) == (ModOp { amount: amt, ..*old(self) })»
    {
        self.amount = amt;
    }
    ⟦end⟧
    ⟦fn ModOp::lock⟧
    fn lock(&mut self, inbuf: ProcBuf, outbuf: ProcBuf) -> «(r:» ProcBuf «)»
«    ensures *final(self) == (ModOp { inbuf, outbuf, ..*old(self) }), r == old(self).modbuf»
    {
        self.inbuf = inbuf;
        self.outbuf = outbuf;
        self.modbuf
    }
    ⟦end⟧
    ⟦fn ModOp::unlock⟧
    fn unlock(&mut self)
«    ensures *final(self) == (ModOp { inbuf: null_buf(), outbuf: null_buf(), ..*old(self) })»
    {
        self.outbuf = ProcBuf::null();
        self.inbuf = ProcBuf::null();
    }
    ⟦end⟧
    ⟦fn ModOp::process⟧
    fn process(&mut self, nframes: usize «, Tracked(mem): Tracked<&mut Mem>»)
«    requires nframes <= 128, old(self).modbuf != null_buf(), old(mem).m.dom().contains(old(self).modbuf.ptr()), old(self).inbuf != null_buf() ==> old(self).outbuf != null_buf(),
            old(mem).m[old(self).modbuf.ptr()].len() == 128, old(self).modbuf.ptr() != old(self).inbuf.ptr(), old(self).modbuf.ptr() != old(self).outbuf.ptr()
        ensures *final(self) == *old(self),
            old(self).inbuf == null_buf() ==> final(mem).m == old(mem).m,
            old(self).inbuf != null_buf() ==> final(mem).m == old(mem).m.insert(old(self).modbuf.ptr(), modulated(old(mem).m, *old(self), nframes as int))»
    {
«        let ghost m0 = mem.m; let ghost s = *self;»
        let modbuf = &mut self.modbuf;
        let inbuf = &mut self.inbuf;
        let outbuf = &mut self.outbuf;

        if inbuf.is_null() {
            return;
        }

«        proof { let _ = fx::typed(s.amount); assert(modulated(m0, s, 0) =~= m0[s.modbuf.ptr()]); assert(mem.m =~= m0.insert(s.modbuf.ptr(), modulated(m0, s, 0))); }»
        for frame in 0..nframes
«            invariant nframes <= 128, *modbuf == s.modbuf, *inbuf == s.inbuf, *outbuf == s.outbuf, self.amount == s.amount, s.modbuf != null_buf(), s.inbuf != null_buf(), s.outbuf != null_buf(),
                m0[s.modbuf.ptr()].len() == 128, s.modbuf.ptr() != s.inbuf.ptr(), s.modbuf.ptr() != s.outbuf.ptr(),
                mem.m =~= m0.insert(s.modbuf.ptr(), modulated(m0, s, frame as int))»
        {
«            proof { let _ = fx::typed(self.amount); }»
            modbuf.write(frame, inbuf.read(frame «, Tracked(mem)») + (self.amount * outbuf.read(frame «, Tracked(mem)»)) «, Tracked(mem)»);
«            proof { assert(mem.m[s.modbuf.ptr()] =~= modulated(m0, s, frame + 1)); }»
        }
    }
    ⟦end⟧
}
/// the modulation buffer after n frames: parameter + amount * signal
pub open spec fn modulated(m: Map<int, Seq<f32>>, o: ModOp, n: int) -> Seq<f32> { modu(m[o.modbuf.ptr()], m[o.inbuf.ptr()], m[o.outbuf.ptr()], o.amount, n) }
pub open spec fn modu(mb: Seq<f32>, ib: Seq<f32>, ob: Seq<f32>, amt: f32, n: int) -> Seq<f32> { Seq::new(mb.len(), |k: int| if k < n { ib[k].add_spec(amt.mul_spec(ob[k])) } else { mb[k] }) }

⟦struct NodeOp⟧
pub open spec fn bit(r: (usize, usize), g: usize) -> u64 { if r.0 <= g < r.1 { 1u64 << ((g - r.0) as u64) } else { 0u64 } }
impl NodeOp {
    pub open spec fn wf(&self) -> bool {
        &&& self.in_idxlen.0 <= self.in_idxlen.1 && self.in_idxlen.1 - self.in_idxlen.0 <= 64
        &&& self.out_idxlen.0 <= self.out_idxlen.1 && self.out_idxlen.1 - self.out_idxlen.0 <= 64
    }
    ⟦fn NodeOp::in_idx_belongs_to_nodeop⟧
    fn in_idx_belongs_to_nodeop(&self, idx: usize) -> «(r:» bool «)»
«    ensures r == (self.in_idxlen.0 <= idx < self.in_idxlen.1)»
    {
        idx >= self.in_idxlen.0 && idx < self.in_idxlen.1
    }
    ⟦end⟧
    ⟦fn NodeOp::set_in_idx_connected_flag⟧
    fn set_in_idx_connected_flag(&mut self, global_idx: usize)
«    requires old(self).wf()
        ensures *final(self) == (NodeOp { in_connected: old(self).in_connected | bit(old(self).in_idxlen, global_idx), ..*old(self) })»
    {
        if !self.in_idx_belongs_to_nodeop(global_idx) {
«            proof { let x = self.in_connected; assert(x | 0u64 == x) by (bit_vector); }»
            return;
        }

        let local_idx = global_idx - self.in_idxlen.0;
        self.in_connected |= 0x1 << local_idx;
    }
    ⟦end⟧
    ⟦fn NodeOp::out_idx_belongs_to_nodeop⟧
    fn out_idx_belongs_to_nodeop(&self, idx: usize) -> «(r:» bool «)»
«    ensures r == (self.out_idxlen.0 <= idx < self.out_idxlen.1)»
    {
        idx >= self.out_idxlen.0 && idx < self.out_idxlen.1
    }
    ⟦end⟧
    ⟦fn NodeOp::set_out_idx_connected_flag⟧
    fn set_out_idx_connected_flag(&mut self, global_idx: usize)
«    requires old(self).wf()
        ensures *final(self) == (NodeOp { out_connected: old(self).out_connected | bit(old(self).out_idxlen, global_idx), ..*old(self) })»
    {
        if !self.out_idx_belongs_to_nodeop(global_idx) {
«            proof { let x = self.out_connected; assert(x | 0u64 == x) by (bit_vector); }»
            return;
        }

        let local_idx = global_idx - self.out_idxlen.0;
        self.out_connected |= 0x1 << local_idx;
    }
    ⟦end⟧
}
⟦struct NodeProg⟧
pub type Edge = (usize, usize, Option<usize>);
/// what input i of a node reads after the first k of its connections were made
pub open spec fn wire(p: &NodeProg, e: Seq<Edge>, k: int, i: int) -> ProcBuf decreases k {
    if k <= 0 { p.inp@[i] }
    else if e[k - 1].1 == i { match e[k - 1].2 { Some(m) => p.modops@[m as int].modbuf, None => p.out@[e[k - 1].0 as int] } }
    else { wire(p, e, k - 1, i) }
}
pub open spec fn edge_ok(p: &NodeProg, o: &NodeOp, e: Edge) -> bool {
    &&& e.0 < p.out@.len() && o.in_idxlen.0 <= e.1 < o.in_idxlen.1
    &&& e.2 is Some ==> e.2->Some_0 < p.modops@.len()
}
impl NodeProg {
    pub open spec fn wf(&self) -> bool {
        &&& self.cur_inp@.len() == self.inp@.len() && self.params@.len() == self.inp@.len()
        &&& forall|j: int| 0 <= j < self.prog@.len() ==> (#[trigger] self.prog@[j]).wf() && self.prog@[j].in_idxlen.1 <= self.inp@.len() && self.prog@[j].out_idxlen.1 <= self.out@.len()
        &&& forall|j: int, x: int| 0 <= j < self.prog@.len() && 0 <= x < self.prog@[j].inputs@.len() ==> edge_ok(self, &self.prog@[j], #[trigger] self.prog@[j].inputs@[x])
        // every node once, and its own inputs and outputs (P02)
        &&& forall|j: int, k: int| 0 <= j < k < self.prog@.len() ==> (#[trigger] self.prog@[j]).idx != (#[trigger] self.prog@[k]).idx
            && (self.prog@[j].in_idxlen.1 <= self.prog@[k].in_idxlen.0 || self.prog@[k].in_idxlen.1 <= self.prog@[j].in_idxlen.0)
            && (self.prog@[j].out_idxlen.1 <= self.prog@[k].out_idxlen.0 || self.prog@[k].out_idxlen.1 <= self.prog@[j].out_idxlen.0)
    }
    /// everything but the operations
    pub open spec fn rest(&self, o: &NodeProg) -> bool {
        self.inp == o.inp && self.cur_inp == o.cur_inp && self.out == o.out && self.params == o.params && self.atoms == o.atoms && self.modops == o.modops && self.locked_buffers == o.locked_buffers && self.out_feedback == o.out_feedback && self.out_fb_cons == o.out_fb_cons && self.unique_id == o.unique_id
    }
    /// the node of `o` has its own ports
    pub open spec fn fits(&self, o: &NodeOp) -> bool {
        &&& o.wf() && o.in_idxlen.1 <= self.inp@.len() && o.out_idxlen.1 <= self.out@.len() && o.inputs@.len() == 0
        &&& forall|j: int| 0 <= j < self.prog@.len() && (#[trigger] self.prog@[j]).idx != o.idx ==>
            (self.prog@[j].in_idxlen.1 <= o.in_idxlen.0 || o.in_idxlen.1 <= self.prog@[j].in_idxlen.0) && (self.prog@[j].out_idxlen.1 <= o.out_idxlen.0 || o.out_idxlen.1 <= self.prog@[j].out_idxlen.0)
    }
    pub open spec fn has(&self, idx: u8) -> bool { exists|j: int| 0 <= j < self.prog@.len() && (#[trigger] self.prog@[j]).idx == idx }
    ⟦fn NodeProg::append_op⟧
    fn append_op(&mut self, mut node_op: NodeOp)
«    requires old(self).wf(), old(self).fits(&node_op)
        ensures final(self).wf(), final(self).rest(old(self)),
            final(self).prog@ =~= (if old(self).has(node_op.idx) { old(self).prog@ } else { old(self).prog@.push(NodeOp { in_connected: 0, out_connected: 0, ..node_op }) })»
    {
        let n_op_n = self.prog.len();
        for n_op_i in 0..n_op_n
«            invariant n_op_n == self.prog.len(), old(self).wf(), old(self).fits(&node_op), self.rest(old(self)), self.prog@ =~= old(self).prog@, forall|j: int| 0 <= j < n_op_i ==> (#[trigger] self.prog@[j]).idx != node_op.idx»
        {
            let n_op = &mut self.prog[n_op_i];
            if n_op.idx == node_op.idx {
                return;
            }
        }

        node_op.out_connected = 0x0;
        node_op.in_connected = 0x0;
        self.prog.push(node_op);
    }
    ⟦end⟧
    ⟦fn NodeProg::append_edge⟧
    fn append_edge(
        &mut self,
        node_op: NodeOp,
        inp_index: usize,
        out_index: usize,
        mod_index: Option<usize>,
    )
«    requires old(self).wf(), forall|j: int| 0 <= j < old(self).prog@.len() && (#[trigger] old(self).prog@[j]).idx == node_op.idx ==> edge_ok(old(self), &old(self).prog@[j], (out_index, inp_index, mod_index))
        ensures final(self).wf(), final(self).rest(old(self)), final(self).prog@.len() == old(self).prog@.len(),
            forall|j: int| 0 <= j < old(self).prog@.len() ==> {
                let (a, b) = (old(self).prog@[j], #[trigger] final(self).prog@[j]);
                &&& b == (NodeOp { out_connected: b.out_connected, in_connected: b.in_connected, inputs: b.inputs, ..a })
                &&& b.out_connected == a.out_connected | bit(a.out_idxlen, out_index)
                &&& b.in_connected == (if a.idx == node_op.idx { a.in_connected | bit(a.in_idxlen, inp_index) } else { a.in_connected })
                &&& b.inputs@ == (if a.idx == node_op.idx { a.inputs@.push((out_index, inp_index, mod_index)) } else { a.inputs@ })
            }»
    {
        let n_op_n = self.prog.len();
        for n_op_i in 0..n_op_n
«            invariant n_op_n == self.prog.len(), old(self).wf(), self.rest(old(self)), self.prog@.len() == old(self).prog@.len(),
                forall|j: int| 0 <= j < self.prog@.len() ==> #[trigger] self.prog@[j] == (if j < n_op_i { NodeOp { out_connected: old(self).prog@[j].out_connected | bit(old(self).prog@[j].out_idxlen, out_index), ..old(self).prog@[j] } } else { old(self).prog@[j] })»
        {
            let n_op = &mut self.prog[n_op_i];
«            proof { assert(n_op.wf()); let x = n_op.out_connected; assert(x | 0u64 == x) by (bit_vector); }»
            if n_op.out_idx_belongs_to_nodeop(out_index) {
                n_op.set_out_idx_connected_flag(out_index);
            }
        }
«        let ghost mid = self.prog@;»

        let n_op_n = self.prog.len();
        for n_op_i in 0..n_op_n
«            invariant n_op_n == self.prog.len(), old(self).wf(), self.rest(old(self)), self.prog@ == mid, mid.len() == old(self).prog@.len(),
                forall|j: int| 0 <= j < n_op_i ==> (#[trigger] mid[j]).idx != node_op.idx,
                forall|j: int| 0 <= j < old(self).prog@.len() && (#[trigger] old(self).prog@[j]).idx == node_op.idx ==> edge_ok(old(self), &old(self).prog@[j], (out_index, inp_index, mod_index)),
                forall|j: int| 0 <= j < mid.len() ==> #[trigger] mid[j] == (NodeOp { out_connected: old(self).prog@[j].out_connected | bit(old(self).prog@[j].out_idxlen, out_index), ..old(self).prog@[j] })»
        {
            let n_op = &mut self.prog[n_op_i];
            if n_op.idx == node_op.idx {
«                proof { assert(old(self).prog@[n_op_i as int].wf()); assert(n_op.wf()); }»
                n_op.set_in_idx_connected_flag(inp_index);
                n_op.inputs.push((out_index, inp_index, mod_index));
«                proof {
                    let p1 = mid.update(n_op_i as int, *n_op);
                    assert(edge_ok(old(self), &old(self).prog@[n_op_i as int], (out_index, inp_index, mod_index)));
                    assert forall|j: int, x: int| 0 <= j < p1.len() && 0 <= x < p1[j].inputs@.len() implies edge_ok(old(self), &p1[j], #[trigger] p1[j].inputs@[x]) by {
                        if j != n_op_i || x < old(self).prog@[j].inputs@.len() { assert(edge_ok(old(self), &old(self).prog@[j], old(self).prog@[j].inputs@[x])); }
                    }
                    assert forall|j: int, k: int| 0 <= j < k < p1.len() implies (#[trigger] p1[j]).idx != (#[trigger] p1[k]).idx
                        && (p1[j].in_idxlen.1 <= p1[k].in_idxlen.0 || p1[k].in_idxlen.1 <= p1[j].in_idxlen.0)
                        && (p1[j].out_idxlen.1 <= p1[k].out_idxlen.0 || p1[k].out_idxlen.1 <= p1[j].out_idxlen.0) by {
                        assert(old(self).prog@[j].idx != old(self).prog@[k].idx);
                    }
                    assert forall|j: int| 0 <= j < p1.len() implies (#[trigger] p1[j]).wf() && p1[j].in_idxlen.1 <= old(self).inp@.len() && p1[j].out_idxlen.1 <= old(self).out@.len() by {
                        assert(old(self).prog@[j].wf());
                    }
                }»
                return;
            }
        }
«        proof {
            assert forall|j: int, x: int| 0 <= j < mid.len() && 0 <= x < mid[j].inputs@.len() implies edge_ok(self, &mid[j], #[trigger] mid[j].inputs@[x]) by {
                assert(edge_ok(old(self), &old(self).prog@[j], old(self).prog@[j].inputs@[x]));
            }
            assert forall|j: int, k: int| 0 <= j < k < mid.len() implies (#[trigger] mid[j]).idx != (#[trigger] mid[k]).idx
                && (mid[j].in_idxlen.1 <= mid[k].in_idxlen.0 || mid[k].in_idxlen.1 <= mid[j].in_idxlen.0)
                && (mid[j].out_idxlen.1 <= mid[k].out_idxlen.0 || mid[k].out_idxlen.1 <= mid[j].out_idxlen.0) by {
                assert(old(self).prog@[j].idx != old(self).prog@[k].idx);
            }
            assert forall|j: int| 0 <= j < mid.len() implies (#[trigger] mid[j]).wf() && mid[j].in_idxlen.1 <= self.inp@.len() && mid[j].out_idxlen.1 <= self.out@.len() by { assert(old(self).prog@[j].wf()); }
        }»
    }
    ⟦end⟧
    ⟦fn NodeProg::initialize_input_buffers⟧
    fn initialize_input_buffers(&mut self «, Tracked(mem): Tracked<&mut Mem>»)
«    requires old(self).wf(), forall|i: int| 0 <= i < old(self).inp@.len() ==> #[trigger] old(self).inp@[i] != null_buf(),
            forall|i: int, j: int| 0 <= i < j < old(self).inp@.len() ==> (#[trigger] old(self).inp@[i]).ptr() != (#[trigger] old(self).inp@[j]).ptr()
        ensures final(self).inp@ =~= old(self).inp@, final(self).rest(&NodeProg { inp: final(self).inp, ..*old(self) }), final(self).prog == old(self).prog,
            forall|i: int| 0 <= i < old(self).inp@.len() ==> final(mem).m[(#[trigger] old(self).inp@[i]).ptr()] == Seq::new(128, |k: int| old(self).params@[i]),
            forall|p: int| (forall|i: int| 0 <= i < old(self).inp@.len() ==> (#[trigger] old(self).inp@[i]).ptr() != p) ==> #[trigger] final(mem).m[p] == old(mem).m[p]»
    {
«        let ghost m0 = mem.m;»
        for param_idx in 0..self.params.len()
«            invariant self.wf(), self.inp@ =~= old(self).inp@, self.params == old(self).params, self.cur_inp == old(self).cur_inp, self.out == old(self).out, self.atoms == old(self).atoms, self.prog == old(self).prog, self.modops == old(self).modops,
                self.locked_buffers == old(self).locked_buffers, self.out_feedback == old(self).out_feedback, self.out_fb_cons == old(self).out_fb_cons, self.unique_id == old(self).unique_id,
                forall|i: int| 0 <= i < self.inp@.len() ==> #[trigger] self.inp@[i] != null_buf(),
                forall|i: int, j: int| 0 <= i < j < self.inp@.len() ==> (#[trigger] self.inp@[i]).ptr() != (#[trigger] self.inp@[j]).ptr(),
                forall|i: int| 0 <= i < param_idx ==> mem.m[(#[trigger] self.inp@[i]).ptr()] == Seq::new(128, |k: int| self.params@[i]),
                forall|p: int| (forall|i: int| 0 <= i < self.inp@.len() ==> (#[trigger] self.inp@[i]).ptr() != p) ==> #[trigger] mem.m[p] == m0[p]»
        {
            let param_val = self.params[param_idx];
«            let ghost mb = mem.m; let ghost ib = self.inp@;»
            self.inp[param_idx].fill(param_val «, Tracked(mem)»);
«            proof {
                assert forall|p: int| (forall|i: int| 0 <= i < self.inp@.len() ==> (#[trigger] self.inp@[i]).ptr() != p) implies #[trigger] mem.m[p] == m0[p] by {
                    assert(self.inp@[param_idx as int].ptr() != p); assert(forall|i: int| 0 <= i < ib.len() ==> (#[trigger] ib[i]).ptr() != p) by { assert(ib =~= self.inp@); } assert(mb[p] == m0[p]);
                }
 assert(mem.m[self.inp@[param_idx as int].ptr()] =~= Seq::new(128, |k: int| self.params@[param_idx as int])); }»
        }
    }
    ⟦end⟧
    ⟦fn NodeProg::swap_previous_outputs⟧
    fn swap_previous_outputs(&mut self, prev_prog: &mut NodeProg)
«    ensures
            // the input buffers of the slots both programs have change hands, no buffer is lost or doubled
            final(self).inp@.len() == old(self).inp@.len(), final(prev_prog).inp@.len() == old(prev_prog).inp@.len(),
            forall|i: int| 0 <= i < old(self).inp@.len() ==> #[trigger] final(self).inp@[i] == (if i < old(prev_prog).inp@.len() { old(prev_prog).inp@[i] } else { old(self).inp@[i] }),
            forall|i: int| 0 <= i < old(prev_prog).inp@.len() ==> #[trigger] final(prev_prog).inp@[i] == (if i < old(self).inp@.len() { old(self).inp@[i] } else { old(prev_prog).inp@[i] }),
            !final(self).locked_buffers, !final(prev_prog).locked_buffers,
            old(self).locked_buffers ==> final(self).released(), old(prev_prog).locked_buffers ==> final(prev_prog).released(),
            final(self).out == old(self).out, final(prev_prog).out == old(prev_prog).out, final(self).prog == old(self).prog, final(prev_prog).prog == old(prev_prog).prog,
            final(self).params == old(self).params, final(self).atoms == old(self).atoms, same_mods(old(self).modops@, final(self).modops@), same_mods(old(prev_prog).modops@, final(prev_prog).modops@)»
    {
        if self.locked_buffers {
            self.unlock_buffers();
        }

        if prev_prog.locked_buffers {
            prev_prog.unlock_buffers();
        }
«        let ghost a = *self; let ghost b = *prev_prog;»

        let old_inp_pb_n = umin(prev_prog.inp.len(), self.inp.len());
        for old_inp_pb_i in 0..old_inp_pb_n
«            invariant old_inp_pb_n <= prev_prog.inp@.len(), old_inp_pb_n <= self.inp@.len(), old_inp_pb_n == prev_prog.inp@.len() || old_inp_pb_n == self.inp@.len(), self.rest(&NodeProg { inp: self.inp, ..a }), self.prog == a.prog, prev_prog.rest(&NodeProg { inp: prev_prog.inp, ..b }), prev_prog.prog == b.prog,
                self.inp@.len() == a.inp@.len(), prev_prog.inp@.len() == b.inp@.len(),
                forall|i: int| 0 <= i < a.inp@.len() ==> #[trigger] self.inp@[i] == (if i < old_inp_pb_i { b.inp@[i] } else { a.inp@[i] }),
                forall|i: int| 0 <= i < b.inp@.len() ==> #[trigger] prev_prog.inp@[i] == (if i < old_inp_pb_i { a.inp@[i] } else { b.inp@[i] })»
        {
            let old_inp_pb = &mut prev_prog.inp[old_inp_pb_i];
            let new_inp_pb = &mut self.inp[old_inp_pb_i];
            swap_bufs(old_inp_pb, new_inp_pb);
        }
    }
    ⟦end⟧
    /// no pointer to a buffer of this or another program is held
    pub open spec fn released(&self) -> bool {
        &&& !self.locked_buffers
        &&& forall|i: int| 0 <= i < self.cur_inp@.len() ==> #[trigger] self.cur_inp@[i] == null_buf()
        &&& forall|i: int| 0 <= i < self.modops@.len() ==> (#[trigger] self.modops@[i]).inbuf == null_buf() && self.modops@[i].outbuf == null_buf()
    }
    ⟦fn NodeProg::unlock_buffers⟧
    fn unlock_buffers(&mut self)
«    ensures final(self).released(), final(self).cur_inp@.len() == old(self).cur_inp@.len(), same_mods(old(self).modops@, final(self).modops@),
            final(self).rest(&NodeProg { cur_inp: final(self).cur_inp, modops: final(self).modops, locked_buffers: false, ..*old(self) }), final(self).prog == old(self).prog»
    {
        let buf_n = self.cur_inp.len();
        for buf_i in 0..buf_n
«            invariant buf_n == self.cur_inp.len(), self.cur_inp@.len() == old(self).cur_inp@.len(), self.rest(&NodeProg { cur_inp: self.cur_inp, ..*old(self) }), self.prog == old(self).prog,
                forall|i: int| 0 <= i < buf_i ==> #[trigger] self.cur_inp@[i] == null_buf()»
        {
            let buf = &mut self.cur_inp[buf_i];
            *buf = ProcBuf::null();
        }
        let modop_n = self.modops.len();
        for modop_i in 0..modop_n
«            invariant modop_n == self.modops.len(), self.cur_inp@.len() == old(self).cur_inp@.len(), self.modops@.len() == old(self).modops@.len(), self.rest(&NodeProg { cur_inp: self.cur_inp, modops: self.modops, ..*old(self) }), self.prog == old(self).prog,
                forall|i: int| 0 <= i < self.cur_inp@.len() ==> #[trigger] self.cur_inp@[i] == null_buf(),
                forall|i: int| 0 <= i < self.modops@.len() ==> #[trigger] self.modops@[i] == (if i < modop_i { ModOp { inbuf: null_buf(), outbuf: null_buf(), ..old(self).modops@[i] } } else { old(self).modops@[i] })»
        {
            let modop = &mut self.modops[modop_i];
            modop.unlock();
        }
        self.locked_buffers = false;
    }
    ⟦end⟧
    ⟦fn NodeProg::assign_outputs⟧
    fn assign_outputs(&mut self)
«    requires old(self).wf()
        ensures final(self).wf(), final(self).locked_buffers, final(self).prog == old(self).prog, final(self).inp == old(self).inp, final(self).out == old(self).out, final(self).params == old(self).params, final(self).atoms == old(self).atoms,
            same_mods(old(self).modops@, final(self).modops@),
            // every input of every operation reads what its connections say
            forall|j: int, i: int| 0 <= j < old(self).prog@.len() && (#[trigger] old(self).prog@[j]).in_idxlen.0 <= i < old(self).prog@[j].in_idxlen.1 ==>
                #[trigger] final(self).cur_inp@[i] == wire(old(self), old(self).prog@[j].inputs@, old(self).prog@[j].inputs@.len() as int, i),
            // every modulator that one connection uses reads that connection and its parameter
            forall|j: int, x: int| #[trigger] sole_user(old(self), j, x) ==> {
                let e = old(self).prog@[j].inputs@[x];
                let m = final(self).modops@[e.2->Some_0 as int];
                m.inbuf == old(self).inp@[e.1 as int] && m.outbuf == old(self).out@[e.0 as int]
            }»
    {
«        let ghost s = *self;»
        let op_n = self.prog.len();
        for op_i in 0..op_n
«            invariant op_n == self.prog.len(), s == *old(self), s.wf(), self.prog == s.prog, self.inp == s.inp, self.out == s.out, self.params == s.params, self.atoms == s.atoms, self.cur_inp@.len() == s.cur_inp@.len(), same_mods(s.modops@, self.modops@),
                forall|j: int, i: int| 0 <= j < op_i && (#[trigger] s.prog@[j]).in_idxlen.0 <= i < s.prog@[j].in_idxlen.1 ==> #[trigger] self.cur_inp@[i] == wire(&s, s.prog@[j].inputs@, s.prog@[j].inputs@.len() as int, i),
                forall|j: int, x: int| j < op_i && #[trigger] sole_user(&s, j, x) ==> mod_ok(&s, self.modops@, j, x)»
        {
            let op = &self.prog[op_i];
            let input_bufs = &mut self.cur_inp;
            let out_bufs = &mut self.out;

            let inp = op.in_idxlen;
«            proof { assert(s.prog@[op_i as int].wf()); }
            let ghost c0 = input_bufs@; let ghost md0 = self.modops@;»

            copy_range(input_bufs, inp.0, inp.1, &self.inp, inp.0, inp.1);

            let io_n = op.inputs.len();
            for io_i in 0..io_n
«            invariant io_n == op.inputs.len(), s.wf(), 0 <= op_i < s.prog@.len(), *op == s.prog@[op_i as int], self.inp == s.inp, *out_bufs == s.out, input_bufs@.len() == s.cur_inp@.len(), c0.len() == s.cur_inp@.len(), same_mods(s.modops@, self.modops@), inp == op.in_idxlen,
                    forall|i: int| 0 <= i < c0.len() ==> #[trigger] input_bufs@[i] == (if inp.0 <= i < inp.1 { wire(&s, op.inputs@, io_i as int, i) } else { c0[i] }),
                    forall|j: int, x: int| (j < op_i || (j == op_i && x < io_i)) && #[trigger] sole_user(&s, j, x) ==> mod_ok(&s, self.modops@, j, x)»
            {
                let io = &op.inputs[io_i];
«                proof { assert(edge_ok(&s, &s.prog@[op_i as int], s.prog@[op_i as int].inputs@[io_i as int])); }
                let ghost mb = self.modops@;»
                input_bufs[io.1] = out_bufs[io.0];

                if let Some(idx) = io.2 {
                    input_bufs[io.1] = self.modops[idx].lock(self.inp[io.1], out_bufs[io.0]);
                }
«                proof {
                    assert forall|j: int, x: int| (j < op_i || (j == op_i && x < io_i + 1)) && #[trigger] sole_user(&s, j, x) implies mod_ok(&s, self.modops@, j, x) by {
                        if j != op_i || x != io_i {
                            assert(mod_ok(&s, mb, j, x));
                            assert(s.prog@[op_i as int].inputs@[io_i as int].2 != s.prog@[j].inputs@[x].2);
                        }
                    }
                }»
            }
        }

        self.locked_buffers = true;
    }
    ⟦end⟧
}
/// modulators keep their amounts and buffers
pub open spec fn same_mods(a: Seq<ModOp>, b: Seq<ModOp>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).amount == a[i].amount && b[i].modbuf == a[i].modbuf
}
/// connection x of operation j has a modulator and no other connection has it
pub open spec fn sole_user(p: &NodeProg, j: int, x: int) -> bool {
    &&& 0 <= j < p.prog@.len() && 0 <= x < p.prog@[j].inputs@.len() && p.prog@[j].inputs@[x].2 is Some
    &&& forall|k: int, y: int| 0 <= k < p.prog@.len() && 0 <= y < p.prog@[k].inputs@.len() && (k != j || y != x) ==> (#[trigger] p.prog@[k].inputs@[y]).2 != p.prog@[j].inputs@[x].2
}
pub open spec fn mod_ok(p: &NodeProg, mods: Seq<ModOp>, j: int, x: int) -> bool {
    let e = p.prog@[j].inputs@[x];
    let m = mods[e.2->Some_0 as int];
    m.inbuf == p.inp@[e.1 as int] && m.outbuf == p.out@[e.0 as int]
}
/// an input without a connection reads its parameter; one with exactly one connection reads that output or its modulator
pub proof fn lemma_wire(p: &NodeProg, e: Seq<Edge>, n: int, i: int, x: int)
    requires 0 <= n <= e.len(), -1 <= x < n, forall|y: int| 0 <= y < n && y != x ==> (#[trigger] e[y]).1 != i, x >= 0 ==> e[x].1 == i
    ensures wire(p, e, n, i) == (if x < 0 { p.inp@[i] } else { match e[x].2 { Some(m) => p.modops@[m as int].modbuf, None => p.out@[e[x].0 as int] } })
    decreases n
{
    if n > 0 {
        if x == n - 1 { assert(e[n - 1].1 == i); } else { assert(e[n - 1].1 != i); lemma_wire(p, e, n - 1, i, x); }
    }
}
/// a connection flag is set for exactly the port of the connection
pub proof fn lemma_flag(r: (usize, usize), f: u64, g: usize, l: usize)
    requires r.0 <= r.1, r.1 - r.0 <= 64, l < 64
    ensures ((f | bit(r, g)) & (1u64 << (l as u64)) != 0) == ((f & (1u64 << (l as u64)) != 0) || (r.0 <= g < r.1 && g - r.0 == l))
{
    let ll = l as u64;
    if r.0 <= g < r.1 {
        let d = (g - r.0) as u64;
        assert((f | (1u64 << d)) & (1u64 << ll) != 0 <==> (f & (1u64 << ll) != 0) || d == ll) by (bit_vector) requires d < 64, ll < 64;
    } else {
        assert(f | 0u64 == f) by (bit_vector);
    }
}
/// an input connected once reads exactly that output in the running program, also after other connections were made
pub fn connect_and_run(p: &mut NodeProg, op: NodeOp, j: usize, inp: usize, out: usize) -> (r: ProcBuf)
    requires old(p).wf(), j < old(p).prog@.len(), old(p).prog@[j as int].idx == op.idx, edge_ok(old(p), &old(p).prog@[j as int], (out, inp, None)),
        forall|x: int| 0 <= x < old(p).prog@[j as int].inputs@.len() ==> (#[trigger] old(p).prog@[j as int].inputs@[x]).1 != inp
    ensures r == old(p).out@[out as int]
{
    let ghost p0 = *p;
    proof {
        assert forall|k: int| 0 <= k < p.prog@.len() && (#[trigger] p.prog@[k]).idx == op.idx implies edge_ok(p, &p.prog@[k], (out, inp, None::<usize>)) by {
            if k < j { assert(p.prog@[k].idx != p.prog@[j as int].idx); } else if j < k { assert(p.prog@[j as int].idx != p.prog@[k].idx); }
        }
    }
    p.append_edge(op, inp, out, None);
    let ghost e = p.prog@[j as int].inputs@;
    proof { lemma_wire(p, e, e.len() as int, inp as int, e.len() - 1); assert(p.prog@[j as int].in_idxlen == p0.prog@[j as int].in_idxlen); }
    p.assign_outputs();
    p.cur_inp[inp]
}
/// after the program was swapped in, no two slots of the two programs hold the same buffer
pub proof fn lemma_swap_distinct(a: Seq<ProcBuf>, b: Seq<ProcBuf>, c: Seq<ProcBuf>, d: Seq<ProcBuf>)
    requires a.len() == c.len(), b.len() == d.len(),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == (if i < b.len() { b[i] } else { a[i] }),
        forall|i: int| 0 <= i < b.len() ==> #[trigger] d[i] == (if i < a.len() { a[i] } else { b[i] }),
        forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> #[trigger] a[i] != #[trigger] b[j],
        forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i] != #[trigger] a[j],
        forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] b[i] != #[trigger] b[j]
    ensures forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < d.len() ==> #[trigger] c[i] != #[trigger] d[j],
        forall|i: int, j: int| 0 <= i < j < c.len() ==> #[trigger] c[i] != #[trigger] c[j],
        forall|i: int, j: int| 0 <= i < j < d.len() ==> #[trigger] d[i] != #[trigger] d[j]
{ }
}
fn main() {}
