⟦file src/nodes/node_conf.rs⟧
use vstd::prelude::*;
verus! {
pub const MAX_DSP_NODE_INPUTS: usize = 32;
pub mod env {
use super::*;
#[verifier::external_body]
pub struct NodeId { p: i64 }
impl Clone for NodeId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for NodeId {}
#[verifier::external_body]
pub struct ParamId { p: i64 }
impl Clone for ParamId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for ParamId {}
#[verifier::external_body]
pub struct Node { p: i64 }
impl Node { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct SAtom { p: i64 }
impl SAtom { #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct NodeInfo { p: i64 }
/// the kinds of nodes: how many ports they have, and which parameters their ports have
impl NodeInfo {
    pub uninterp spec fn id(&self) -> NodeId;
    pub uninterp spec fn outs(&self) -> nat;
    pub uninterp spec fn ins(&self) -> nat;
    pub uninterp spec fn ats(&self) -> nat;
    #[verifier::external_body]
    pub fn to_id(&self) -> (r: NodeId) ensures r == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn out_count(&self) -> (r: usize) ensures r == self.outs() { unimplemented!() }
    #[verifier::external_body]
    pub fn in_count(&self) -> (r: usize) ensures r == self.ins() { unimplemented!() }
    #[verifier::external_body]
    pub fn at_count(&self) -> (r: usize) ensures r == self.ats() { unimplemented!() }
}
impl NodeId {
    pub uninterp spec fn nop(&self) -> bool;
    pub uninterp spec fn inp_param(&self, j: int) -> Option<ParamId>;
    pub uninterp spec fn at_param(&self, j: int) -> Option<ParamId>;
    #[verifier::external_body]
    pub fn is_nop(&self) -> (r: bool) ensures r == self.nop() { unimplemented!() }
    #[verifier::external_body]
    pub fn inp_param_by_idx(&self, j: usize) -> (r: Option<ParamId>) ensures r == self.inp_param(j as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn atom_param_by_idx(&self, j: usize) -> (r: Option<ParamId>) ensures r == self.at_param(j as int) { unimplemented!() }
}
impl ParamId {
    pub uninterp spec fn def(&self) -> f32;
    pub uninterp spec fn at_def(&self) -> SAtom;
    #[verifier::external_body]
    pub fn norm_def(&self) -> (r: f32) ensures r == self.def() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_atom_def(&self) -> (r: SAtom) ensures r == self.at_def() { unimplemented!() }
}
/// std::collections::HashMap: a map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: Vec<(K, V)> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn opt_flat(o: Option<&Option<f32>>) -> (r: Option<f32>) ensures r == (match o { Some(x) => *x, None => None::<f32> }) { unimplemented!() }
#[verifier::external_body]
pub fn opt_copy(o: Option<&usize>) -> (r: Option<usize>) ensures r == (match o { Some(x) => Some(*x), None => None::<usize> }) { unimplemented!() }
#[verifier::external_body]
pub fn opt_mut<T>(o: &mut Option<T>) -> (r: &mut T) requires *old(o) is Some ensures *r == old(o)->Some_0, *final(o) == Some(*final(r)) { unimplemented!() }
#[verifier::external_body]
pub fn vec_get<T>(v: &Vec<T>, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() } { unimplemented!() }
#[verifier::external_body]
pub fn vec_get_mut<T>(v: &mut Vec<T>, i: usize) -> (r: Option<&mut T>)
    ensures match r { Some(x) => i < old(v)@.len() && *x == old(v)@[i as int] && final(v)@ == old(v)@.update(i as int, *final(x)), None => i >= old(v)@.len() && final(v)@ == old(v)@ } { unimplemented!() }
pub struct NodeOp {
    pub idx: u8, pub node: Node, pub out_idxlen: (usize, usize), pub in_idxlen: (usize, usize), pub at_idxlen: (usize, usize), pub mod_idxlen: (usize, usize),
    pub out_connected: u64, pub in_connected: u64, pub inputs: Vec<(usize, usize, Option<usize>)>,
}
#[verifier::external_body]
pub struct NodeGlobalRef { p: i64 }
#[verifier::external_body]
pub struct AtomicFloat { p: i64 }
impl AtomicFloat { #[verifier::external_body] pub fn get(&self) -> f32 { unimplemented!() } }
pub struct SharedNodeConf { pub sample_rate: AtomicFloat }
impl Node { #[verifier::external_body] pub fn set_sample_rate(&self, s: f32) { unimplemented!() } }
/// a node of the kind that was asked for (or none)
#[verifier::external_body]
pub fn node_factory(ni: NodeId, g: &NodeGlobalRef) -> (r: Option<(Node, NodeInfo)>) ensures r is Some ==> r->Some_0.1.id() == ni && !ni.nop() { unimplemented!() }
/// the program: what append_op and append_edge make of it is proved in P03
#[verifier::external_body]
pub struct NodeProg { p: i64 }
pub uninterp spec fn with_op(p: NodeProg, op: NodeOp) -> NodeProg;
pub uninterp spec fn with_edge(p: NodeProg, op: NodeOp, inp: usize, out: usize, m: Option<usize>) -> NodeProg;
impl NodeProg {
    pub uninterp spec fn sizes(&self) -> (nat, nat, nat, nat);
    #[verifier::external_body]
    pub fn new(out_len: usize, inp_len: usize, at_len: usize, mod_len: usize) -> (r: NodeProg) ensures r.sizes() == (out_len as nat, inp_len as nat, at_len as nat, mod_len as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_op(&mut self, op: NodeOp) ensures *final(self) == with_op(*old(self), op) { unimplemented!() }
    #[verifier::external_body]
    pub fn append_edge(&mut self, op: NodeOp, inp: usize, out: usize, m: Option<usize>) ensures *final(self) == with_edge(*old(self), op, inp, out, m) { unimplemented!() }
}
}
pub use env::*;

⟦struct NodeInstance⟧
⟦struct NodeInputParam⟧
⟦struct NodeInputAtom⟧
pub type Ent = (NodeInfo, Option<NodeInstance>, Node);
pub struct NodeConfigurator {
    pub nodes: Vec<(NodeInfo, Option<NodeInstance>, Node)>,
    pub node2idx: HashMap<NodeId, usize>,
    pub params: HashMap<ParamId, NodeInputParam>,
    pub param_values: HashMap<ParamId, f32>,
    pub param_modamt: HashMap<ParamId, Option<f32>>,
    pub atoms: HashMap<ParamId, NodeInputAtom>,
    pub atom_values: HashMap<ParamId, SAtom>,
    pub shared: SharedNodeConf,
    pub node_global: NodeGlobalRef,
}
// ---- the layout
pub open spec fn osum(n: Seq<Ent>, k: int) -> int decreases k { if k <= 0 { 0 } else { osum(n, k - 1) + n[k - 1].0.outs() } }
pub open spec fn isum(n: Seq<Ent>, k: int) -> int decreases k { if k <= 0 { 0 } else { isum(n, k - 1) + n[k - 1].0.ins() } }
pub open spec fn asum(n: Seq<Ent>, k: int) -> int decreases k { if k <= 0 { 0 } else { asum(n, k - 1) + n[k - 1].0.ats() } }
/// input j of the node has a modulation amount
pub open spec fn has_mod(id: NodeId, md: Map<ParamId, Option<f32>>, j: int) -> bool {
    id.inp_param(j) is Some && md.contains_key(id.inp_param(j)->Some_0) && md[id.inp_param(j)->Some_0] is Some
}
pub open spec fn mcount(id: NodeId, md: Map<ParamId, Option<f32>>, j: int) -> int decreases j { if j <= 0 { 0 } else { mcount(id, md, j - 1) + (if has_mod(id, md, j - 1) { 1int } else { 0 }) } }
pub open spec fn msum(n: Seq<Ent>, md: Map<ParamId, Option<f32>>, k: int) -> int decreases k { if k <= 0 { 0 } else { msum(n, md, k - 1) + mcount(n[k - 1].0.id(), md, n[k - 1].0.ins() as int) } }
pub open spec fn mod_slot(n: Seq<Ent>, md: Map<ParamId, Option<f32>>, i: int, j: int) -> Option<usize> {
    if 0 <= j < n[i].0.ins() && has_mod(n[i].0.id(), md, j) { Some((msum(n, md, i) + mcount(n[i].0.id(), md, j)) as usize) } else { None }
}
/// the instance of node i has exactly its own slots
pub open spec fn laid(x: NodeInstance, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, i: int) -> bool {
    &&& x.id == n[i].0.id() && x.node == n[i].2 && !x.in_use && x.prog_idx == i
    &&& x.out_start == osum(n, i) && x.out_end == osum(n, i + 1)
    &&& x.in_start == isum(n, i) && x.in_end == isum(n, i + 1)
    &&& x.at_start == asum(n, i) && x.at_end == asum(n, i + 1)
    &&& x.mod_start == msum(n, md, i) && x.mod_end == msum(n, md, i + 1)
    &&& forall|j: int| 0 <= j < 32 ==> #[trigger] x.in2mod_map@[j] == mod_slot(n, md, i, j)
}
/// what the engine assumes of its list of nodes
pub open spec fn nodes_ok(n: Seq<Ent>) -> bool {
    &&& n.len() <= 256
    &&& forall|i: int| 0 <= i < n.len() ==> !(#[trigger] n[i]).0.id().nop() && n[i].0.outs() <= 255 && n[i].0.ins() <= 32 && n[i].0.ats() <= 255
}
pub open spec fn val(pv: Map<ParamId, f32>, p: ParamId) -> f32 { if pv.contains_key(p) { pv[p] } else { p.def() } }
pub open spec fn aval(av: Map<ParamId, SAtom>, p: ParamId) -> SAtom { if av.contains_key(p) { av[p] } else { p.at_def() } }
/// every port has its own parameter
pub open spec fn uniq(n: Seq<Ent>) -> bool {
    &&& forall|i: int, j: int, k: int, l: int| 0 <= i < n.len() && 0 <= k < n.len() && (#[trigger] n[i].0.id().inp_param(j)) is Some && n[i].0.id().inp_param(j) == #[trigger] n[k].0.id().inp_param(l) ==> i == k && j == l
    &&& forall|i: int, j: int, k: int, l: int| 0 <= i < n.len() && 0 <= k < n.len() && (#[trigger] n[i].0.id().at_param(j)) is Some && n[i].0.id().at_param(j) == #[trigger] n[k].0.id().at_param(l) ==> i == k && j == l
}
pub open spec fn the_param(n: Seq<Ent>, md: Map<ParamId, Option<f32>>, pv: Map<ParamId, f32>, i: int, j: int) -> NodeInputParam {
    let p = n[i].0.id().inp_param(j)->Some_0;
    NodeInputParam { param_id: p, input_idx: (isum(n, i) + j) as usize, value: val(pv, p), modamt: (match mod_slot(n, md, i, j) { Some(m) => Some((m, md[p]->Some_0)), None => None }) }
}
pub open spec fn the_atom(n: Seq<Ent>, av: Map<ParamId, SAtom>, i: int, j: int) -> NodeInputAtom {
    let p = n[i].0.id().at_param(j)->Some_0;
    NodeInputAtom { param_id: p, at_idx: (asum(n, i) + j) as usize, value: aval(av, p) }
}
/// the parameters are exactly those of the inputs (i, j) that come before (a, b)
pub open spec fn params_are(ps: Map<ParamId, NodeInputParam>, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, pv: Map<ParamId, f32>, a: int, b: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i && (i < a || (i == a && j < b)) && 0 <= j < n[i].0.ins() && (#[trigger] n[i].0.id().inp_param(j)) is Some ==> ps.contains_key(n[i].0.id().inp_param(j)->Some_0) && ps[n[i].0.id().inp_param(j)->Some_0] == the_param(n, md, pv, i, j)
    &&& forall|p: ParamId| #[trigger] ps.contains_key(p) ==> exists|i: int, j: int| 0 <= i && (i < a || (i == a && j < b)) && 0 <= j < n[i].0.ins() && (#[trigger] n[i].0.id().inp_param(j)) == Some(p)
}
pub open spec fn atoms_are(ps: Map<ParamId, NodeInputAtom>, n: Seq<Ent>, av: Map<ParamId, SAtom>, a: int, b: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i && (i < a || (i == a && j < b)) && 0 <= j < n[i].0.ats() && (#[trigger] n[i].0.id().at_param(j)) is Some ==> ps.contains_key(n[i].0.id().at_param(j)->Some_0) && ps[n[i].0.id().at_param(j)->Some_0] == the_atom(n, av, i, j)
    &&& forall|p: ParamId| #[trigger] ps.contains_key(p) ==> exists|i: int, j: int| 0 <= i && (i < a || (i == a && j < b)) && 0 <= j < n[i].0.ats() && (#[trigger] n[i].0.id().at_param(j)) == Some(p)
}
pub proof fn lemma_mcount(id: NodeId, md: Map<ParamId, Option<f32>>, a: int, b: int)
    requires 0 <= a <= b ensures 0 <= mcount(id, md, a) <= mcount(id, md, b), mcount(id, md, b) - mcount(id, md, a) <= b - a decreases b
{ if b > a { lemma_mcount(id, md, a, b - 1); } else if a > 0 { lemma_mcount(id, md, a - 1, a - 1); } }
pub proof fn lemma_sums(n: Seq<Ent>, md: Map<ParamId, Option<f32>>, a: int, b: int)
    requires nodes_ok(n), 0 <= a <= b <= n.len()
    ensures 0 <= osum(n, a) <= osum(n, b) <= 255 * b, 0 <= isum(n, a) <= isum(n, b) <= 32 * b, 0 <= asum(n, a) <= asum(n, b) <= 255 * b, 0 <= msum(n, md, a) <= msum(n, md, b) <= 32 * b
    decreases b
{
    if b > 0 {
        assert(n[b - 1].0.ins() <= 32);
        lemma_mcount(n[b - 1].0.id(), md, 0, n[b - 1].0.ins() as int);
        if b > a { lemma_sums(n, md, a, b - 1); } else { lemma_sums(n, md, a - 1, b - 1); }
    }
}
impl NodeInstance {
    ⟦fn NodeInstance::new⟧
    fn new(id: NodeId, node: Node) -> «(r:» Self «)»
«    ensures r.id == id, r.node == node, !r.in_use, r.mod_start == 0, r.mod_end == 0, forall|j: int| 0 <= j < 32 ==> #[trigger] r.in2mod_map@[j] is None»
    {
        Self {
            id,
            node,
            in_use: false,
            prog_idx: 0,
            out_start: 0,
            out_end: 0,
            in_start: 0,
            in_end: 0,
            at_start: 0,
            at_end: 0,
            mod_start: 0,
            mod_end: 0,
            in2mod_map: [None; MAX_DSP_NODE_INPUTS],
        }
    }
    ⟦end⟧
    ⟦fn NodeInstance::mark_used⟧
    fn mark_used(&mut self)
«    ensures *final(self) == (NodeInstance { in_use: true, ..*old(self) })»
    {
        self.in_use = true;
    }
    ⟦end⟧
    ⟦fn NodeInstance::as_op⟧
    fn as_op(&self) -> «(r:» NodeOp «)»
«    ensures r.idx == self.prog_idx as u8, r.node == self.node, r.out_idxlen == (self.out_start, self.out_end), r.in_idxlen == (self.in_start, self.in_end), r.at_idxlen == (self.at_start, self.at_end), r.mod_idxlen == (self.mod_start, self.mod_end),
            r.out_connected == 0, r.in_connected == 0, r.inputs@.len() == 0»
    {
        NodeOp {
            idx: self.prog_idx as u8,
            node: self.node.clone(),
            out_idxlen: (self.out_start, self.out_end),
            in_idxlen: (self.in_start, self.in_end),
            at_idxlen: (self.at_start, self.at_end),
            mod_idxlen: (self.mod_start, self.mod_end),
            out_connected: 0x0,
            in_connected: 0x0,
            inputs: vec![],
        }
    }
    ⟦end⟧
    ⟦fn NodeInstance::mod_in_local2global⟧
    fn mod_in_local2global(&self, idx: u8) -> «(r:» Option<usize> «)»
«    ensures r == (if idx < 32 { self.in2mod_map@[idx as int] } else { None })»
    {
        if (idx as usize) >= self.in2mod_map.len() {
            return None;
        }
        self.in2mod_map[idx as usize]
    }
    ⟦end⟧
    ⟦fn NodeInstance::in_local2global⟧
    fn in_local2global(&self, idx: u8) -> «(r:» Option<usize> «)»
«    requires self.in_start <= self.in_end, self.in_end <= usize::MAX - 256
        ensures r == (if idx < self.in_end - self.in_start { Some((self.in_start + idx) as usize) } else { None })»
    {
        let idx = self.in_start + idx as usize;
        if idx < self.in_end {
            Some(idx)
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn NodeInstance::out_local2global⟧
    fn out_local2global(&self, idx: u8) -> «(r:» Option<usize> «)»
«    requires self.out_start <= self.out_end, self.out_end <= usize::MAX - 256
        ensures r == (if idx < self.out_end - self.out_start { Some((self.out_start + idx) as usize) } else { None })»
    {
        let idx = self.out_start + idx as usize;
        if idx < self.out_end {
            Some(idx)
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_index⟧
    fn set_index(&mut self, idx: usize) -> «(r:» &mut Self «)»
«    ensures *r == (NodeInstance { prog_idx: idx, ..*old(self) }), *final(self) == *final(r)»
    {
        self.prog_idx = idx;
        self
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_output⟧
    fn set_output(&mut self, s: usize, e: usize) -> «(r:» &mut Self «)»
«    ensures *r == (NodeInstance { out_start: s, out_end: e, ..*old(self) }), *final(self) == *final(r)»
    {
        self.out_start = s;
        self.out_end = e;
        self
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_input⟧
    fn set_input(&mut self, s: usize, e: usize) -> «(r:» &mut Self «)»
«    ensures *r == (NodeInstance { in_start: s, in_end: e, ..*old(self) }), *final(self) == *final(r)»
    {
        self.in_start = s;
        self.in_end = e;
        self
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_mod⟧
    fn set_mod(&mut self, s: usize, e: usize) -> «(r:» &mut Self «)»
«    ensures *r == (NodeInstance { mod_start: s, mod_end: e, ..*old(self) }), *final(self) == *final(r)»
    {
        self.mod_start = s;
        self.mod_end = e;
        self
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_mod_idx⟧
    fn set_mod_idx(&mut self, idx: usize, i: usize) -> «(r:» &mut Self «)»
«    requires idx < 32
        ensures *r == (NodeInstance { in2mod_map: r.in2mod_map, ..*old(self) }), r.in2mod_map@ == old(self).in2mod_map@.update(idx as int, Some(i)), *final(self) == *final(r)»
    {
        self.in2mod_map[idx] = Some(i);
        self
    }
    ⟦end⟧
    ⟦fn NodeInstance::set_atom⟧
    fn set_atom(&mut self, s: usize, e: usize) -> «(r:» &mut Self «)»
«    ensures *r == (NodeInstance { at_start: s, at_end: e, ..*old(self) }), *final(self) == *final(r)»
    {
        self.at_start = s;
        self.at_end = e;
        self
    }
    ⟦end⟧
}
impl NodeConfigurator {
    /// every entry that is laid out is laid out by the last rebuild
    pub open spec fn rebuilt(&self, n: Seq<Ent>, md: Map<ParamId, Option<f32>>) -> bool {
        &&& nodes_ok(n) && self.nodes@.len() == n.len()
        &&& forall|i: int| 0 <= i < n.len() ==> (#[trigger] self.nodes@[i]).0 == n[i].0 && self.nodes@[i].2 == n[i].2 && self.nodes@[i].1 is Some && laid(NodeInstance { in_use: false, ..self.nodes@[i].1->Some_0 }, n, md, i)
    }
    ⟦fn NodeConfigurator::unique_index_for⟧
    fn unique_index_for(&self, ni: &NodeId) -> «(r:» Option<usize> «)»
«    ensures r == (if self.node2idx@.contains_key(*ni) { Some(self.node2idx@[*ni]) } else { None })»
    {
        opt_copy(self.node2idx.get(ni))
    }
    ⟦end⟧
    pub open spec fn index(&self, ni: NodeId) -> Option<int> {
        if self.node2idx@.contains_key(ni) && self.node2idx@[ni] < self.nodes@.len() { Some(self.node2idx@[ni] as int) } else { None }
    }
    ⟦fn NodeConfigurator::node_by_id⟧
    fn node_by_id(
        &self,
        ni: &NodeId,
    ) -> «(r:» Option<&(NodeInfo, Option<NodeInstance>, Node)> «)»
«    ensures match r { Some(x) => self.index(*ni) is Some && *x == self.nodes@[self.index(*ni)->Some_0], None => self.index(*ni) is None }»
    {
        let idx = self.unique_index_for(ni)?;
        vec_get(&self.nodes, idx)
    }
    ⟦end⟧
    ⟦fn NodeConfigurator::node_by_id_mut⟧
    fn node_by_id_mut(
        &mut self,
        ni: &NodeId,
    ) -> «(r:» Option<&mut (NodeInfo, Option<NodeInstance>, Node)> «)»
«    ensures match r {
            Some(x) => old(self).index(*ni) is Some && *x == old(self).nodes@[old(self).index(*ni)->Some_0] && final(self).nodes@ == old(self).nodes@.update(old(self).index(*ni)->Some_0, *final(x)) && *final(self) == (NodeConfigurator { nodes: final(self).nodes, ..*old(self) }),
            None => old(self).index(*ni) is None && final(self).nodes@ == old(self).nodes@ && *final(self) == (NodeConfigurator { nodes: final(self).nodes, ..*old(self) })
        }»
    {
        let idx = self.unique_index_for(ni)?;
        vec_get_mut(&mut self.nodes, idx)
    }
    ⟦end⟧
    ⟦fn NodeConfigurator::rebuild_node_ports⟧
    fn rebuild_node_ports(&mut self) -> «(r:» NodeProg «)»
«    requires nodes_ok(old(self).nodes@), uniq(old(self).nodes@)
        ensures final(self).rebuilt(old(self).nodes@, old(self).param_modamt@),
            forall|i: int| 0 <= i < final(self).nodes@.len() ==> !(#[trigger] final(self).nodes@[i]).1->Some_0.in_use,
            r.sizes() == (osum(old(self).nodes@, old(self).nodes@.len() as int) as nat, isum(old(self).nodes@, old(self).nodes@.len() as int) as nat, asum(old(self).nodes@, old(self).nodes@.len() as int) as nat, msum(old(self).nodes@, old(self).param_modamt@, old(self).nodes@.len() as int) as nat),
            params_are(final(self).params@, old(self).nodes@, old(self).param_modamt@, old(self).param_values@, old(self).nodes@.len() as int, 0),
            atoms_are(final(self).atoms@, old(self).nodes@, old(self).atom_values@, old(self).nodes@.len() as int, 0),
            forall|p: ParamId| val(final(self).param_values@, p) == #[trigger] val(old(self).param_values@, p),
            forall|p: ParamId| aval(final(self).atom_values@, p) == #[trigger] aval(old(self).atom_values@, p),
            final(self).param_modamt == old(self).param_modamt, final(self).node2idx == old(self).node2idx»
    {
«        let ghost n0 = self.nodes@; let ghost md = self.param_modamt@; let ghost pv0 = self.param_values@; let ghost av0 = self.atom_values@;»
        self.params.clear();
        self.atoms.clear();

        let mut out_len = 0;
        let mut in_len = 0;
        let mut at_len = 0;
        let mut mod_len = 0;

«        let ghost mut done: int = 0;»
        let nodes_n = self.nodes.len();
        for i in 0..nodes_n
«            invariant done == i, nodes_ok(n0), uniq(n0), nodes_n == n0.len(), self.nodes@.len() == n0.len(), self.param_modamt@ == md, self.param_modamt == old(self).param_modamt, self.node2idx == old(self).node2idx,
                out_len == osum(n0, i as int), in_len == isum(n0, i as int), at_len == asum(n0, i as int), mod_len == msum(n0, md, i as int),
                forall|k: int| 0 <= k < n0.len() ==> (#[trigger] self.nodes@[k]).0 == n0[k].0 && self.nodes@[k].2 == n0[k].2,
                forall|k: int| 0 <= k < i ==> (#[trigger] self.nodes@[k]).1 is Some && laid(self.nodes@[k].1->Some_0, n0, md, k),
                params_are(self.params@, n0, md, pv0, i as int, 0), atoms_are(self.atoms@, n0, av0, i as int, 0),
                forall|p: ParamId| val(self.param_values@, p) == #[trigger] val(pv0, p), forall|p: ParamId| aval(self.atom_values@, p) == #[trigger] aval(av0, p)
            ensures done == n0.len(), out_len == osum(n0, done), in_len == isum(n0, done), at_len == asum(n0, done), mod_len == msum(n0, md, done),
                forall|k: int| 0 <= k < done ==> (#[trigger] self.nodes@[k]).1 is Some && laid(self.nodes@[k].1->Some_0, n0, md, k), params_are(self.params@, n0, md, pv0, done, 0), atoms_are(self.atoms@, n0, av0, done, 0)»
        {
            let node_e = &mut self.nodes[i]; let node_info = &node_e.0; let node_instance = &mut node_e.1; let node = &node_e.2;
«            proof { lemma_sums(n0, md, i as int, i + 1); lemma_sums(n0, md, i + 1, n0.len() as int); assert(n0[i as int].0.ins() <= 32 && !n0[i as int].0.id().nop()); }»
            let id = node_info.to_id();

            let out_idx = out_len;
            out_len += node_info.out_count();

            let in_idx = in_len;
            in_len += node_info.in_count();

            let at_idx = at_len;
            at_len += node_info.at_count();

            let mod_idx = mod_len;

            if id.is_nop() {
                break;
            }

            let mut ni = NodeInstance::new(id, node.clone());
            ni.set_index(i)
                .set_output(out_idx, out_len)
                .set_input(in_idx, in_len)
                .set_atom(at_idx, at_len);

            *node_instance = Some(ni);

            for param_idx in in_idx..in_len
«                invariant nodes_ok(n0), uniq(n0), 0 <= i < n0.len(), id == n0[i as int].0.id(), *node_info == n0[i as int].0, *node == n0[i as int].2, in_idx == isum(n0, i as int), in_len == isum(n0, i + 1), mod_idx == msum(n0, md, i as int),
                    in_len == in_idx + n0[i as int].0.ins(), n0[i as int].0.ins() <= 32, isum(n0, i + 1) <= 32 * 256, msum(n0, md, i + 1) <= 32 * 256, self.param_modamt@ == md, self.param_modamt == old(self).param_modamt, self.node2idx == old(self).node2idx,
                    mod_len == msum(n0, md, i as int) + mcount(id, md, param_idx - in_idx),
                    *node_instance is Some, half(node_instance->Some_0, n0, md, i as int, param_idx - in_idx),
                    params_are(self.params@, n0, md, pv0, i as int, param_idx - in_idx),
                    forall|p: ParamId| val(self.param_values@, p) == #[trigger] val(pv0, p)»
            {
                let input_idx = param_idx - in_idx;
«                let ghost ps = self.params@;
                proof { lemma_mcount(id, md, input_idx as int, n0[i as int].0.ins() as int); lemma_mcount(id, md, 0, input_idx as int); }»

                if let Some(param_id) = id.inp_param_by_idx(input_idx) {
                    let value = if let Some(value) = self.param_values.get(&param_id) {
                        *value
                    } else {
                        param_id.norm_def()
                    };

                    let ma = opt_flat(self.param_modamt.get(&param_id));
                    let modamt = if ma.is_some() {
                        let mod_idx = mod_len;
                        opt_mut(node_instance).set_mod_idx(input_idx, mod_idx);
                        mod_len += 1;
                        Some((mod_idx, ma.unwrap()))
                    } else {
                        None
                    };

                    self.param_values.insert(param_id, value);
                    self.params.insert(
                        param_id,
                        NodeInputParam { param_id, value, input_idx: param_idx, modamt },
                    );
«                    proof {
                        assert(value == val(pv0, param_id));
                        assert(self.params@[param_id] == the_param(n0, md, pv0, i as int, input_idx as int));
                    }»
                }
«                proof { lemma_params_step(ps, self.params@, n0, md, pv0, i as int, input_idx as int); }»
            }

            opt_mut(node_instance).set_mod(mod_idx, mod_len);
«            proof { lemma_params_next(self.params@, n0, md, pv0, i as int); }»

            for atom_idx in at_idx..at_len
«                invariant nodes_ok(n0), uniq(n0), 0 <= i < n0.len(), id == n0[i as int].0.id(), at_idx == asum(n0, i as int), at_len == at_idx + n0[i as int].0.ats(), asum(n0, i + 1) <= 255 * 256, at_len == asum(n0, i + 1),
                    atoms_are(self.atoms@, n0, av0, i as int, atom_idx - at_idx),
                    forall|p: ParamId| aval(self.atom_values@, p) == #[trigger] aval(av0, p)»
            {
«                let ghost ps = self.atoms@;»
                if let Some(param_id) = id.atom_param_by_idx(atom_idx - at_idx) {
                    let value = if let Some(atom) = self.atom_values.get(&param_id) {
                        atom.clone()
                    } else {
                        param_id.as_atom_def()
                    };

                    self.atom_values.insert(param_id, value.clone());
                    self.atoms
                        .insert(param_id, NodeInputAtom { param_id, value, at_idx: atom_idx });
«                    proof {
                        assert(value == aval(av0, param_id));
                        assert(self.atoms@[param_id] == the_atom(n0, av0, i as int, atom_idx - at_idx));
                    }»
                }
«                proof { lemma_atoms_step(ps, self.atoms@, n0, av0, i as int, atom_idx - at_idx); }»
            }
«            proof { lemma_atoms_next(self.atoms@, n0, av0, i as int); done = i + 1; }»
        }

        NodeProg::new(out_len, in_len, at_len, mod_len)
    }
    ⟦end⟧
    ⟦fn NodeConfigurator::create_node⟧
    fn create_node(&mut self, ni: NodeId) -> «(r:» Option<(&NodeInfo, u8)> «)»
«    ensures match r {
            Some(x) => *final(self) == (NodeConfigurator { nodes: final(self).nodes, node2idx: final(self).node2idx, ..*old(self) })
                && final(self).nodes@.len() == old(self).nodes@.len() + 1 && final(self).nodes@.drop_last() =~= old(self).nodes@ && final(self).nodes@.last().0.id() == ni && final(self).nodes@.last().1 is None
                && x.1 == old(self).nodes@.len() as u8 && *x.0 == final(self).nodes@.last().0
                && final(self).index(ni) == Some(old(self).nodes@.len() as int),
            None => *final(self) == *old(self)
        },
        // every other node is found as before
        forall|o: NodeId| o != ni && old(self).index(o) is Some ==> final(self).index(o) == #[trigger] old(self).index(o)»
    {
        if let Some((node, info)) = node_factory(ni, &self.node_global) {
            node.set_sample_rate(self.shared.sample_rate.get());

            let index = self.nodes.len();
            self.node2idx.insert(ni, index);
            self.nodes.push((info, None, node.clone()));
            Some((&self.nodes[index].0, index as u8))
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn NodeConfigurator::add_prog_node⟧
    fn add_prog_node(&mut self, prog: &mut NodeProg, node_id: &NodeId)
«    ensures
            // the operation of exactly this node is added, with its slots
            old(self).laid_node(*node_id) ==> exists|op: NodeOp| #[trigger] op_of(op, old(self).inst(*node_id)) && *final(prog) == with_op(*old(prog), op),
            !old(self).laid_node(*node_id) ==> *final(prog) == *old(prog),
            final(self).used(old(self), *node_id)»
    {
        if let Some((_node_info, Some(node_instance), _)) = self.node_by_id_mut(node_id) {
            node_instance.mark_used();
            let op = node_instance.as_op();
«            proof { assert(op_of(op, old(self).inst(*node_id))); }»
            prog.append_op(op);
        }
    }
    ⟦end⟧
    ⟦fn NodeConfigurator::set_prog_node_exec_connection⟧
    fn set_prog_node_exec_connection(
        &mut self,
        prog: &mut NodeProg,
        node_input: (NodeId, u8),
        adjacent_output: (NodeId, u8),
    )
«    requires forall|i: int| 0 <= i < old(self).nodes@.len() && (#[trigger] old(self).nodes@[i]).1 is Some ==> ranges_ok(old(self).nodes@[i].1->Some_0)
        ensures ({
            let (a, b) = (old(self).inst(node_input.0), old(self).inst(adjacent_output.0));
            if old(self).laid_node(adjacent_output.0) && old(self).laid_node(node_input.0) && node_input.1 < a.in_end - a.in_start && adjacent_output.1 < b.out_end - b.out_start {
                // the edge goes from exactly that output to exactly that input, with its modulator
                exists|op: NodeOp| #[trigger] op_of(op, a) && *final(prog) == with_edge(*old(prog), op, (a.in_start + node_input.1) as usize, (b.out_start + adjacent_output.1) as usize,
                    if node_input.1 < 32 { a.in2mod_map@[node_input.1 as int] } else { None })
            } else { *final(prog) == *old(prog) }
        }),
        old(self).laid_node(adjacent_output.0) ==> final(self).used(old(self), node_input.0),
        !old(self).laid_node(adjacent_output.0) ==> *final(self) == *old(self)»
    {
        let output_index =
            if let Some((_, Some(node_instance), _)) = self.node_by_id(&adjacent_output.0) {
                node_instance.out_local2global(adjacent_output.1)
            } else {
                return;
            };

        if let Some((_node_info, Some(node_instance), _)) = self.node_by_id_mut(&node_input.0) {
            node_instance.mark_used();
            let op = node_instance.as_op();
«            proof { assert(op_of(op, old(self).inst(node_input.0))); }»

            let input_index = node_instance.in_local2global(node_input.1);
            let mod_index = node_instance.mod_in_local2global(node_input.1);
            if let (Some(input_index), Some(output_index)) = (input_index, output_index) {
                prog.append_edge(op, input_index, output_index, mod_index);
            }
        }
    }
    ⟦end⟧
    pub open spec fn laid_node(&self, ni: NodeId) -> bool { self.index(ni) is Some && self.nodes@[self.index(ni)->Some_0].1 is Some }
    pub open spec fn inst(&self, ni: NodeId) -> NodeInstance { self.nodes@[self.index(ni)->Some_0].1->Some_0 }
    /// only the mark of this node changed
    pub open spec fn used(&self, o: &NodeConfigurator, ni: NodeId) -> bool {
        &&& *self == (NodeConfigurator { nodes: self.nodes, ..*o }) && self.nodes@.len() == o.nodes@.len()
        &&& forall|i: int| 0 <= i < o.nodes@.len() ==> (#[trigger] self.nodes@[i]).0 == o.nodes@[i].0 && self.nodes@[i].2 == o.nodes@[i].2
            && self.nodes@[i].1 == (if o.laid_node(ni) && i == o.index(ni)->Some_0 { Some(NodeInstance { in_use: true, ..o.nodes@[i].1->Some_0 }) } else { o.nodes@[i].1 })
    }
}
pub open spec fn ranges_ok(x: NodeInstance) -> bool { x.in_start <= x.in_end && x.in_end <= usize::MAX - 256 && x.out_start <= x.out_end && x.out_end <= usize::MAX - 256 }
pub open spec fn op_of(op: NodeOp, x: NodeInstance) -> bool {
    op.idx == x.prog_idx as u8 && op.node == x.node && op.out_idxlen == (x.out_start, x.out_end) && op.in_idxlen == (x.in_start, x.in_end) && op.at_idxlen == (x.at_start, x.at_end) && op.mod_idxlen == (x.mod_start, x.mod_end)
        && op.out_connected == 0 && op.in_connected == 0 && op.inputs@.len() == 0
}
/// blocks of different nodes never overlap, and have the sizes of the nodes' ports
pub proof fn lemma_disjoint(x: NodeInstance, y: NodeInstance, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, i: int, k: int)
    requires nodes_ok(n), 0 <= i < k < n.len(), laid(x, n, md, i), laid(y, n, md, k)
    ensures x.out_end <= y.out_start, x.in_end <= y.in_start, x.at_end <= y.at_start, x.mod_end <= y.mod_start,
        x.out_end - x.out_start == n[i].0.outs(), x.in_end - x.in_start == n[i].0.ins(), x.at_end - x.at_start == n[i].0.ats(), x.mod_end - x.mod_start == mcount(n[i].0.id(), md, n[i].0.ins() as int),
        ranges_ok(x), ranges_ok(y), x.prog_idx as u8 != y.prog_idx as u8
{ lemma_sums(n, md, i, i + 1); lemma_sums(n, md, i + 1, k); lemma_sums(n, md, k, k + 1); lemma_sums(n, md, k + 1, n.len() as int); }
/// every slot of the program belongs to a node
pub proof fn lemma_cover(n: Seq<Ent>, md: Map<ParamId, Option<f32>>, k: int, g: int)
    requires nodes_ok(n), 0 <= k <= n.len(), 0 <= g
    ensures g < osum(n, k) ==> exists|i: int| 0 <= i < k && #[trigger] osum(n, i) <= g < osum(n, i + 1),
        g < isum(n, k) ==> exists|i: int| 0 <= i < k && #[trigger] isum(n, i) <= g < isum(n, i + 1),
        g < asum(n, k) ==> exists|i: int| 0 <= i < k && #[trigger] asum(n, i) <= g < asum(n, i + 1),
        g < msum(n, md, k) ==> exists|i: int| 0 <= i < k && #[trigger] msum(n, md, i) <= g < msum(n, md, i + 1)
    decreases k
{
    if k > 0 {
        lemma_cover(n, md, k - 1, g);
        lemma_sums(n, md, k - 1, k);
        if g < osum(n, k) && g >= osum(n, k - 1) { assert(osum(n, k - 1) <= g < osum(n, k - 1 + 1)); }
        if g < isum(n, k) && g >= isum(n, k - 1) { assert(isum(n, k - 1) <= g < isum(n, k - 1 + 1)); }
        if g < asum(n, k) && g >= asum(n, k - 1) { assert(asum(n, k - 1) <= g < asum(n, k - 1 + 1)); }
        if g < msum(n, md, k) && g >= msum(n, md, k - 1) { assert(msum(n, md, k - 1) <= g < msum(n, md, k - 1 + 1)); }
    }
}
/// different ports of any two nodes have different slots; modulators too
pub proof fn lemma_ports_differ(x: NodeInstance, y: NodeInstance, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, i: int, k: int, a: int, b: int)
    requires nodes_ok(n), 0 <= i <= k < n.len(), laid(x, n, md, i), laid(y, n, md, k), i != k || a < b, 0 <= a, 0 <= b
    ensures a < n[i].0.outs() && b < n[k].0.outs() ==> x.out_start + a != y.out_start + b,
        a < n[i].0.ins() && b < n[k].0.ins() ==> x.in_start + a != y.in_start + b,
        a < n[i].0.ins() && b < n[k].0.ins() && x.in2mod_map@[a] is Some ==> x.in2mod_map@[a] != y.in2mod_map@[b] && x.mod_start <= x.in2mod_map@[a]->Some_0 < x.mod_end
{
    if i < k { lemma_disjoint(x, y, n, md, i, k); }
    lemma_sums(n, md, i, i + 1); lemma_sums(n, md, k, k + 1); lemma_sums(n, md, k + 1, n.len() as int); lemma_sums(n, md, i + 1, n.len() as int);
    if a < n[i].0.ins() && b < n[k].0.ins() && x.in2mod_map@[a] is Some {
        assert(n[i].0.ins() <= 32 && n[k].0.ins() <= 32);
        assert(x.in2mod_map@[a] == mod_slot(n, md, i, a)); assert(y.in2mod_map@[b] == mod_slot(n, md, k, b));
        lemma_mcount(n[i].0.id(), md, a + 1, n[i].0.ins() as int); lemma_mcount(n[k].0.id(), md, b + 1, n[k].0.ins() as int); lemma_mcount(n[i].0.id(), md, 0, a); lemma_mcount(n[k].0.id(), md, 0, b);
        if i == k { lemma_mcount(n[i].0.id(), md, a + 1, b); }
        assert(mcount(n[i].0.id(), md, a + 1) == mcount(n[i].0.id(), md, a) + 1);
    }
}
/// a connection made after a rebuild is the one asked for
pub fn rebuild_and_connect(c: &mut NodeConfigurator, from: NodeId, o: u8, to: NodeId, i: u8) -> (r: NodeProg)
    requires nodes_ok(old(c).nodes@), uniq(old(c).nodes@), old(c).index(from) is Some, old(c).index(to) is Some, o < old(c).nodes@[old(c).index(from)->Some_0].0.outs(), i < old(c).nodes@[old(c).index(to)->Some_0].0.ins()
    ensures exists|p: NodeProg, op: NodeOp| r == #[trigger] with_edge(p, op, (isum(old(c).nodes@, old(c).index(to)->Some_0) + i) as usize, (osum(old(c).nodes@, old(c).index(from)->Some_0) + o) as usize, mod_slot(old(c).nodes@, old(c).param_modamt@, old(c).index(to)->Some_0, i as int)),
        final(c).rebuilt(old(c).nodes@, old(c).param_modamt@)
{
    let ghost n = c.nodes@; let ghost md = c.param_modamt@;
    let mut p = c.rebuild_node_ports();
    let ghost p0 = p;
    proof {
        assert forall|k: int| 0 <= k < c.nodes@.len() && (#[trigger] c.nodes@[k]).1 is Some implies ranges_ok(c.nodes@[k].1->Some_0) by {
            lemma_sums(n, md, k, k + 1); lemma_sums(n, md, k + 1, n.len() as int);
        }
        let k = c.index(to)->Some_0; let l = c.index(from)->Some_0;
        assert(laid(NodeInstance { in_use: false, ..c.nodes@[k].1->Some_0 }, n, md, k)); assert(laid(NodeInstance { in_use: false, ..c.nodes@[l].1->Some_0 }, n, md, l));
        lemma_sums(n, md, k, k + 1); lemma_sums(n, md, l, l + 1);
        assert(n[k].0.ins() <= 32);
        assert(c.nodes@[k].1->Some_0.in2mod_map@[i as int] == mod_slot(n, md, k, i as int));
    }
    c.set_prog_node_exec_connection(&mut p, (to, i), (from, o));
    p
}
/// the instance of node i while its first j inputs are done
pub open spec fn half(x: NodeInstance, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, i: int, j: int) -> bool {
    &&& x.id == n[i].0.id() && x.node == n[i].2 && !x.in_use && x.prog_idx == i
    &&& x.out_start == osum(n, i) && x.out_end == osum(n, i + 1)
    &&& x.in_start == isum(n, i) && x.in_end == isum(n, i + 1)
    &&& x.at_start == asum(n, i) && x.at_end == asum(n, i + 1)
    &&& forall|k: int| 0 <= k < 32 ==> #[trigger] x.in2mod_map@[k] == (if k < j { mod_slot(n, md, i, k) } else { None })
}
pub proof fn lemma_params_step(a: Map<ParamId, NodeInputParam>, b: Map<ParamId, NodeInputParam>, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, pv: Map<ParamId, f32>, i: int, j: int)
    requires uniq(n), 0 <= i < n.len(), 0 <= j < n[i].0.ins(), params_are(a, n, md, pv, i, j),
        b == (match n[i].0.id().inp_param(j) { Some(p) => a.insert(p, the_param(n, md, pv, i, j)), None => a })
    ensures params_are(b, n, md, pv, i, j + 1)
{
    let q = n[i].0.id().inp_param(j);
    assert forall|k: int, l: int| 0 <= k && (k < i || (k == i && l < j + 1)) && 0 <= l < n[k].0.ins() && (#[trigger] n[k].0.id().inp_param(l)) is Some
        implies b.contains_key(n[k].0.id().inp_param(l)->Some_0) && b[n[k].0.id().inp_param(l)->Some_0] == the_param(n, md, pv, k, l) by {
        if k == i && l == j { } else {
            assert(a.contains_key(n[k].0.id().inp_param(l)->Some_0));
            if q is Some && q == n[k].0.id().inp_param(l) { assert(n[i].0.id().inp_param(j) is Some); }
        }
    }
    assert forall|p: ParamId| #[trigger] b.contains_key(p) implies exists|k: int, l: int| 0 <= k && (k < i || (k == i && l < j + 1)) && 0 <= l < n[k].0.ins() && (#[trigger] n[k].0.id().inp_param(l)) == Some(p) by {
        if q == Some(p) { assert(n[i].0.id().inp_param(j) == Some(p)); } else {
            assert(a.contains_key(p));
            let (k, l) = choose|k: int, l: int| 0 <= k && (k < i || (k == i && l < j)) && 0 <= l < n[k].0.ins() && (#[trigger] n[k].0.id().inp_param(l)) == Some(p);
            assert(n[k].0.id().inp_param(l) == Some(p));
        }
    }
}
pub proof fn lemma_params_next(a: Map<ParamId, NodeInputParam>, n: Seq<Ent>, md: Map<ParamId, Option<f32>>, pv: Map<ParamId, f32>, i: int)
    requires params_are(a, n, md, pv, i, n[i].0.ins() as int) ensures params_are(a, n, md, pv, i + 1, 0)
{
    assert forall|p: ParamId| #[trigger] a.contains_key(p) implies exists|k: int, l: int| 0 <= k && (k < i + 1 || (k == i + 1 && l < 0)) && 0 <= l < n[k].0.ins() && (#[trigger] n[k].0.id().inp_param(l)) == Some(p) by {
        let (k, l) = choose|k: int, l: int| 0 <= k && (k < i || (k == i && l < n[i].0.ins())) && 0 <= l < n[k].0.ins() && (#[trigger] n[k].0.id().inp_param(l)) == Some(p);
        assert(n[k].0.id().inp_param(l) == Some(p));
    }
}
pub proof fn lemma_atoms_step(a: Map<ParamId, NodeInputAtom>, b: Map<ParamId, NodeInputAtom>, n: Seq<Ent>, av: Map<ParamId, SAtom>, i: int, j: int)
    requires uniq(n), 0 <= i < n.len(), 0 <= j < n[i].0.ats(), atoms_are(a, n, av, i, j),
        b == (match n[i].0.id().at_param(j) { Some(p) => a.insert(p, the_atom(n, av, i, j)), None => a })
    ensures atoms_are(b, n, av, i, j + 1)
{
    let q = n[i].0.id().at_param(j);
    assert forall|k: int, l: int| 0 <= k && (k < i || (k == i && l < j + 1)) && 0 <= l < n[k].0.ats() && (#[trigger] n[k].0.id().at_param(l)) is Some
        implies b.contains_key(n[k].0.id().at_param(l)->Some_0) && b[n[k].0.id().at_param(l)->Some_0] == the_atom(n, av, k, l) by {
        if k == i && l == j { } else {
            assert(a.contains_key(n[k].0.id().at_param(l)->Some_0));
            if q is Some && q == n[k].0.id().at_param(l) { assert(n[i].0.id().at_param(j) is Some); }
        }
    }
    assert forall|p: ParamId| #[trigger] b.contains_key(p) implies exists|k: int, l: int| 0 <= k && (k < i || (k == i && l < j + 1)) && 0 <= l < n[k].0.ats() && (#[trigger] n[k].0.id().at_param(l)) == Some(p) by {
        if q == Some(p) { assert(n[i].0.id().at_param(j) == Some(p)); } else {
            assert(a.contains_key(p));
            let (k, l) = choose|k: int, l: int| 0 <= k && (k < i || (k == i && l < j)) && 0 <= l < n[k].0.ats() && (#[trigger] n[k].0.id().at_param(l)) == Some(p);
            assert(n[k].0.id().at_param(l) == Some(p));
        }
    }
}
pub proof fn lemma_atoms_next(a: Map<ParamId, NodeInputAtom>, n: Seq<Ent>, av: Map<ParamId, SAtom>, i: int)
    requires atoms_are(a, n, av, i, n[i].0.ats() as int) ensures atoms_are(a, n, av, i + 1, 0)
{
    assert forall|p: ParamId| #[trigger] a.contains_key(p) implies exists|k: int, l: int| 0 <= k && (k < i + 1 || (k == i + 1 && l < 0)) && 0 <= l < n[k].0.ats() && (#[trigger] n[k].0.id().at_param(l)) == Some(p) by {
        let (k, l) = choose|k: int, l: int| 0 <= k && (k < i || (k == i && l < n[i].0.ats())) && 0 <= l < n[k].0.ats() && (#[trigger] n[k].0.id().at_param(l)) == Some(p);
        assert(n[k].0.id().at_param(l) == Some(p));
    }
}
}
fn main() {}
