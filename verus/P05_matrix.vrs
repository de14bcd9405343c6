⟦file src/matrix.rs⟧
use vstd::prelude::*;
verus! {
pub type NodeId = u64;
pub const NOP: u64 = 0;
pub mod env {
use super::*;
#[verifier::external_body] pub struct Conf { _p: u8 }
#[verifier::external_body] pub struct Props { _p: u8 }
#[verifier::external_body] pub struct Obs { _p: u8 }
#[verifier::external_body] pub struct ParamId { _p: u8 }
#[verifier::external_body] pub struct ParamSet { _p: u8 }
impl ParamSet {
    pub uninterp spec fn set(&self) -> Set<ParamId>;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).set() == Set::<ParamId>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, p: ParamId) -> (r: bool) ensures final(self).set() == old(self).set().insert(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, p: &ParamId) -> (r: bool) ensures r == self.set().contains(*p) { unimplemented!() }
}
/// the parameter of an input
pub uninterp spec fn param_of(n: NodeId, i: int) -> Option<ParamId>;
#[verifier::external_body]
pub fn param_by_idx(n: NodeId, i: usize) -> (r: Option<ParamId>) ensures r == param_of(n, i as int) { unimplemented!() }
/// a graph of nodes
#[verifier::external_body] pub struct NodeGraphOrdering { _p: u8 }
pub open spec fn ranked(e: Set<(NodeId, NodeId)>, rank: spec_fn(NodeId) -> nat) -> bool { forall|a: NodeId, b: NodeId| #[trigger] e.contains((a, b)) ==> rank(a) < rank(b) }
pub open spec fn acyclic(e: Set<(NodeId, NodeId)>) -> bool { exists|rank: spec_fn(NodeId) -> nat| #[trigger] ranked(e, rank) }
impl NodeGraphOrdering {
    pub uninterp spec fn nodes(&self) -> Set<NodeId>;
    pub uninterp spec fn edges(&self) -> Set<(NodeId, NodeId)>;
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).nodes() == Set::<NodeId>::empty(), final(self).edges() == Set::<(NodeId, NodeId)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: NodeId) -> (r: usize) ensures final(self).nodes() == old(self).nodes().insert(n), final(self).edges() == old(self).edges() { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeId, b: NodeId)
        ensures final(self).nodes() == old(self).nodes().insert(b), final(self).edges() == (if old(self).nodes().contains(a) || a == b { old(self).edges().insert((a, b)) } else { old(self).edges() })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn calculate_order(&mut self, out: &mut Vec<NodeId>) -> (r: bool)
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges(), r == acyclic(old(self).edges())
    { unimplemented!() }
}
#[verifier::external_body] pub struct EdgeMap { _p: u8 }
impl EdgeMap {
    pub uninterp spec fn map(&self) -> Map<(NodeId, u8), (NodeId, u8)>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<(NodeId, u8), (NodeId, u8)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &(NodeId, u8)) -> (r: Option<&(NodeId, u8)>) ensures match r { Some(v) => self.map().contains_key(*k) && self.map()[*k] == *v, None => !self.map().contains_key(*k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: (NodeId, u8), v: (NodeId, u8)) -> (r: Option<(NodeId, u8)>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
#[verifier::external_body]
pub fn clone_cells(v: &Vec<Cell>) -> (r: Vec<Cell>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
pub fn edge_of(d: CellDir) -> (r: u8) ensures dir_of(r) == d, r <= 6 { unimplemented!() }
#[verifier::external_body] pub struct SAtom { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Name { _p: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct PName { _p: u8 }
#[verifier::external_body] pub struct NameMap { _p: u8 }
impl NameMap {
    pub uninterp spec fn map(&self) -> Map<Name, usize>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.map() == Map::<Name, usize>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_cloned(&self, k: Name) -> (r: Option<usize>) ensures match r { Some(v) => self.map().contains_key(k) && self.map()[k] == v, None => !self.map().contains_key(k) } { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: Name, v: usize) -> (r: Option<usize>) ensures final(self).map() == old(self).map().insert(k, v) { unimplemented!() }
}
/// the kind and the instance of a node
pub uninterp spec fn kind(n: NodeId) -> Name;
pub uninterp spec fn inst(n: NodeId) -> int;
pub uninterp spec fn pname(p: ParamId) -> PName;
/// the input of a node with a name
pub uninterp spec fn inp_of(n: NodeId, p: PName) -> Option<ParamId>;
#[verifier::external_body]
pub fn node_id_name(n: &NodeId) -> (r: Name) ensures r == kind(*n) { unimplemented!() }
#[verifier::external_body]
pub fn pid_name(p: &ParamId) -> (r: PName) ensures r == pname(*p) { unimplemented!() }
#[verifier::external_body]
pub fn instance(n: NodeId) -> (r: usize) ensures r == inst(n), r < 256 { unimplemented!() }
#[verifier::external_body]
pub fn to_instance(n: NodeId, i: usize) -> (r: NodeId) ensures kind(r) == kind(n), i < 256 ==> inst(r) == i { unimplemented!() }
#[verifier::external_body]
pub fn inp_param(n: NodeId, p: PName) -> (r: Option<ParamId>) ensures r == inp_of(n, p) { unimplemented!() }
#[verifier::external_body]
pub fn clone_atom(a: &SAtom) -> (r: SAtom) ensures r == *a { unimplemented!() }
#[verifier::external_body]
pub fn nth(v: &Vec<(ParamId, SAtom)>, i: usize) -> (r: (ParamId, SAtom)) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
/// a coordinate that may be left of or above the grid
pub open spec fn sgn(p: usize) -> int { if p < 0x8000_0000 { p as int } else { p - usize::MAX - 1 } }
#[verifier::external_body]
pub fn step(p: usize, o: i32) -> (r: usize) requires -0x7fff_0000 < sgn(p) < 0x7fff_0000, -1 <= o <= 1 ensures sgn(r) == sgn(p) + o { unimplemented!() }
/// the node is used by the uploaded graph
pub uninterp spec fn in_use(c: Conf, n: NodeId) -> bool;
/// the parameters that were set, in order
pub uninterp spec fn sets(c: Conf) -> Seq<(ParamId, SAtom)>;
#[verifier::external_body]
pub fn get_unused_instance_node_id(m: &Matrix, n: NodeId) -> (r: NodeId) ensures kind(r) == kind(n), inst(r) >= inst(n), inst(r) < 255, !in_use(m.config, r) { unimplemented!() }
#[verifier::external_body]
pub fn set_param(m: &mut Matrix, p: ParamId, a: SAtom)
    ensures sets(final(m).config) == sets(old(m).config).push((p, a)), *final(m) == (Matrix { config: final(m).config, gen_counter: final(m).gen_counter, ..*old(m) })
{ unimplemented!() }
/// any change of the matrix by the public functions (but save_matrix and what uses it)
#[verifier::external_body]
pub fn change(m: &mut Matrix) requires old(m).wf() ensures final(m).wf(), final(m).w == old(m).w, final(m).h == old(m).h, final(m).saved_matrix == old(m).saved_matrix { unimplemented!() }
#[verifier::external_body]
pub fn change_err(m: &mut Matrix) -> (r: Result<(), MatrixError>) requires old(m).wf() ensures final(m).wf(), final(m).w == old(m).w, final(m).h == old(m).h, final(m).saved_matrix == old(m).saved_matrix { unimplemented!() }
}
pub use env::*;
#[derive(PartialEq, Eq, Structural)]
⟦struct CellDir of src/cell_dir.rs⟧
impl Clone for CellDir { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for CellDir {}
⟦struct Cell⟧
impl Clone for Cell { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Cell {}
⟦struct Edge⟧
⟦struct MatrixError⟧
//[chain]
⟦struct ChainError of src/chain_builder.rs⟧
⟦struct MatrixChainLink of src/chain_builder.rs⟧
⟦struct MatrixCellChain of src/chain_builder.rs⟧
//[end]
⟦struct Matrix⟧
pub open spec fn ip(a: (usize, usize)) -> (int, int) { (a.0 as int, a.1 as int) }
/// the vector of a direction: columns to the right, half rows down
pub open spec fn vec(d: CellDir) -> (int, int) {
    match d { CellDir::TR => (1, -1), CellDir::BR => (1, 1), CellDir::B => (0, 2), CellDir::BL => (-1, 1), CellDir::TL => (-1, -1), CellDir::T => (0, -2), CellDir::C => (0, 0) }
}
/// half rows from the top: odd columns are half a row lower
pub open spec fn half(p: (int, int)) -> int { 2 * p.1 + p.0 % 2 }
/// q is the cell behind the edge d of p
pub open spec fn behind(p: (int, int), d: CellDir, q: (int, int)) -> bool { q.0 == p.0 + vec(d).0 && half(q) == half(p) + vec(d).1 }
/// the column and row change of a step
pub open spec fn offs(d: CellDir, x: int) -> (int, int) { (vec(d).0, (x % 2 + vec(d).1 - (x + vec(d).0) % 2) / 2) }
pub open spec fn go(p: (int, int), d: CellDir) -> (int, int) { (p.0 + offs(d, p.0).0, p.1 + offs(d, p.0).1) }
pub open spec fn on_grid(p: (int, int)) -> bool { 0 <= p.0 && 0 <= p.1 }
pub open spec fn dir_of(e: u8) -> CellDir { if e == 0 { CellDir::TR } else if e == 1 { CellDir::BR } else if e == 2 { CellDir::B } else if e == 3 { CellDir::BL } else if e == 4 { CellDir::TL } else if e == 5 { CellDir::T } else { CellDir::C } }
pub open spec fn back(d: CellDir) -> CellDir { match d { CellDir::TR => CellDir::BL, CellDir::BR => CellDir::TL, CellDir::B => CellDir::T, CellDir::BL => CellDir::TR, CellDir::TL => CellDir::BR, CellDir::T => CellDir::B, CellDir::C => CellDir::T } }
/// there and back again
pub proof fn lemma_back(p: (int, int), d: CellDir) requires d != CellDir::C ensures go(go(p, d), back(d)) == p, back(back(d)) == d, vec(back(d)) == (-vec(d).0, -vec(d).1) { }
/// the port an edge of a cell is set to
pub open spec fn port(c: Cell, d: CellDir) -> Option<u8> {
    match d { CellDir::TR => c.out1, CellDir::BR => c.out2, CellDir::B => c.out3, CellDir::BL => c.in3, CellDir::TL => c.in2, CellDir::T => c.in1, CellDir::C => None }
}
/// the same cell with the port of one edge set
pub open spec fn with_port(c: Cell, d: CellDir, p: Option<u8>) -> Cell {
    match d { CellDir::TR => Cell { out1: p, ..c }, CellDir::BR => Cell { out2: p, ..c }, CellDir::B => Cell { out3: p, ..c }, CellDir::BL => Cell { in3: p, ..c }, CellDir::TL => Cell { in2: p, ..c }, CellDir::T => Cell { in1: p, ..c }, CellDir::C => c }
}
/// setting a port sets that port and nothing else
pub proof fn lemma_port(c: Cell, d: CellDir, e: CellDir, p: Option<u8>) ensures port(with_port(c, d, p), e) == (if d == e && d != CellDir::C { p } else { port(c, e) }), with_port(c, d, p).node_id == c.node_id && with_port(c, d, p).x == c.x && with_port(c, d, p).y == c.y { }
pub open spec fn inputs3() -> Seq<CellDir> { seq![CellDir::T, CellDir::TL, CellDir::BL] }
pub open spec fn outputs3() -> Seq<CellDir> { seq![CellDir::TR, CellDir::BR, CellDir::B] }
pub open spec fn is_out(d: CellDir) -> bool { d == CellDir::TR || d == CellDir::BR || d == CellDir::B }
/// the edges that are asked for: all of them, the inputs or the outputs
pub open spec fn opts(d: CellDir) -> Seq<CellDir> { if d == CellDir::C { seq![CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B] } else if is_out(d) { outputs3() } else { inputs3() } }
/// a grid of cells
pub struct Grid { pub m: Seq<Cell>, pub w: int, pub h: int }
impl Grid {
    pub open spec fn inside(self, p: (int, int)) -> bool { 0 <= p.0 < self.w && 0 <= p.1 < self.h }
    pub open spec fn at(self, p: (int, int)) -> Cell { self.m[p.0 * self.h + p.1] }
    pub open spec fn wf(self) -> bool { self.m.len() == self.w * self.h && 0 <= self.w <= 256 && 0 <= self.h <= 256 }
    /// what the neighbour behind the edge d offers to an input
    pub open spec fn offered(self, p: (int, int), d: CellDir) -> Option<(NodeId, u8)> {
        let q = go(p, d);
        if !is_out(d) && d != CellDir::C && self.inside(q) && self.at(q).node_id != NOP && port(self.at(q), back(d)) is Some { Some((self.at(q).node_id, port(self.at(q), back(d))->Some_0)) } else { None }
    }
    /// the connection to an input edge
    pub open spec fn conn(self, p: (int, int), d: CellDir) -> Seq<Edge> {
        if port(self.at(p), d) is Some && self.offered(p, d) is Some { seq![Edge { from: self.offered(p, d)->Some_0.0, from_out: self.offered(p, d)->Some_0.1, to: self.at(p).node_id, to_input: port(self.at(p), d)->Some_0 }] } else { Seq::empty() }
    }
    pub open spec fn cell_conns(self, p: (int, int)) -> Seq<Edge> { if self.at(p).node_id == NOP { Seq::empty() } else { self.conn(p, CellDir::T) + self.conn(p, CellDir::TL) + self.conn(p, CellDir::BL) } }
    pub open spec fn col_conns(self, x: int, y: int) -> Seq<Edge> decreases y { if y <= 0 { Seq::empty() } else { self.col_conns(x, y - 1) + self.cell_conns((x, y - 1)) } }
    /// all connections of the first x columns
    pub open spec fn conns(self, x: int) -> Seq<Edge> decreases x { if x <= 0 { Seq::empty() } else { self.conns(x - 1) + self.col_conns(x - 1, self.h) } }
    /// the edge d of the cell p is an input with a connection
    pub open spec fn connected(self, p: (int, int), d: CellDir) -> bool {
        let q = go(p, d);
        self.inside(p) && self.inside(q) && !is_out(d) && d != CellDir::C && self.at(p).node_id != NOP && self.at(q).node_id != NOP && port(self.at(p), d) is Some && port(self.at(q), back(d)) is Some
    }
    pub open spec fn free(self, p: (int, int), d: CellDir) -> bool { self.inside(go(p, d)) && self.at(go(p, d)).node_id == NOP }
    pub open spec fn free_list(self, p: (int, int), o: Seq<CellDir>) -> Seq<(CellDir, (int, int))> decreases o.len() {
        if o.len() == 0 { Seq::empty() } else if self.free(p, o.last()) { self.free_list(p, o.drop_last()).push((o.last(), go(p, o.last()))) } else { self.free_list(p, o.drop_last()) }
    }
    /// both sides of the edge d of a cell c at p have a port
    pub open spec fn linked(self, c: Cell, p: (int, int), d: CellDir) -> bool { port(c, d) is Some && self.inside(go(p, d)) && port(self.at(go(p, d)), back(d)) is Some }
    pub open spec fn unlinked(self, c: Cell, p: (int, int), o: Seq<CellDir>) -> Seq<CellDir> decreases o.len() {
        if o.len() == 0 { Seq::empty() } else if !self.linked(c, p, o.last()) { self.unlinked(c, p, o.drop_last()).push(o.last()) } else { self.unlinked(c, p, o.drop_last()) }
    }
    pub open spec fn links(self, p: (int, int), k: int) -> Seq<((Cell, CellDir, u8), (Cell, CellDir, u8, (int, int)))> decreases k {
        if k <= 0 { Seq::empty() } else { let d = dir_of((k - 1) as u8); let q = go(p, d);
            if self.linked(self.at(p), p, d) { self.links(p, k - 1).push(((self.at(p), d, port(self.at(p), d)->Some_0), (self.at(q), back(d), port(self.at(q), back(d))->Some_0, q))) } else { self.links(p, k - 1) } }
    }
}
/// positions have different places, all of them inside of the vector
pub proof fn lemma_index(w: int, h: int, p: (int, int), q: (int, int))
    requires 0 <= p.0 < w, 0 <= p.1 < h, 0 <= q.0 < w, 0 <= q.1 < h
    ensures 0 <= p.0 * h + p.1 < w * h, p.0 * h + p.1 == q.0 * h + q.1 ==> p == q, q.0 < p.0 ==> q.0 * h + q.1 < p.0 * h, p.0 * h <= w * h, 0 <= p.0 * h, w <= 256 && h <= 256 ==> w * h <= 0x10000
{
    if w <= 256 && h <= 256 { assert(w * h <= 0x10000) by (nonlinear_arith) requires 0 <= w <= 256, 0 <= h <= 256; }
    assert(0 <= p.0 * h) by (nonlinear_arith) requires 0 <= p.0, 0 <= h;
    assert(p.0 * h + h <= w * h) by (nonlinear_arith) requires p.0 + 1 <= w, 0 <= h;
    if q.0 < p.0 { assert(q.0 * h + h <= p.0 * h) by (nonlinear_arith) requires q.0 + 1 <= p.0, 0 <= h; }
    if p.0 < q.0 { assert(p.0 * h + h <= q.0 * h) by (nonlinear_arith) requires p.0 + 1 <= q.0, 0 <= h; }
}
pub open spec fn edge_set(s: Seq<Edge>) -> Set<(NodeId, NodeId)> decreases s.len() { if s.len() == 0 { Set::empty() } else { edge_set(s.drop_last()).insert((s.last().from, s.last().to)) } }
/// the parameters of the inputs of the first n connections
pub open spec fn used_in(s: Seq<Edge>, n: int) -> Set<ParamId> decreases n { if n <= 0 { Set::empty() } else { match param_of(s[n - 1].to, s[n - 1].to_input as int) { Some(p) => used_in(s, n - 1).insert(p), None => used_in(s, n - 1) } } }
/// an input is used exactly if a connection leads to it
pub proof fn lemma_used(s: Seq<Edge>, n: int, p: ParamId) requires 0 <= n <= s.len() ensures used_in(s, n).contains(p) <==> exists|k: int| 0 <= k < n && param_of((#[trigger] s[k]).to, s[k].to_input as int) == Some(p) decreases n
{ if n > 0 { lemma_used(s, n - 1, p); if param_of(s[n - 1].to, s[n - 1].to_input as int) == Some(p) { } } }
pub proof fn lemma_edge_set(s: Seq<Edge>, e: Edge) ensures edge_set(s.push(e)) =~= edge_set(s).insert((e.from, e.to)) { assert(s.push(e).drop_last() =~= s); }
pub open spec fn edge_at(s: Seq<Edge>, i: int, k: (NodeId, u8)) -> bool { s[i].to == k.0 && s[i].to_input == k.1 }
/// the nodes of the first n cells are in the graph
pub open spec fn seen(m: Seq<Cell>, n: int, nodes: Set<NodeId>) -> bool { forall|i: int| 0 <= i < n && (#[trigger] m[i]).node_id != NOP ==> nodes.contains(m[i].node_id) }
/// inputs come from cells that are in front
pub proof fn lemma_front(g: Grid, p: (int, int), d: CellDir, nodes: Set<NodeId>)
    requires g.wf(), g.inside(p), seen(g.m, p.0 * g.h + p.1, nodes)
    ensures g.offered(p, d) matches Some(o) ==> nodes.contains(o.0)
{
    let q = go(p, d);
    if g.offered(p, d) is Some { lemma_index(g.w, g.h, p, q); lemma_index(g.w, g.h, q, q); assert(g.m[q.0 * g.h + q.1].node_id != NOP); }
}
/// two connections to the same input
pub open spec fn clash(s: Seq<Edge>, i: int, j: int) -> bool { 0 <= i < j < s.len() && s[i].to == s[j].to && s[i].to_input == s[j].to_input }
pub open spec fn no_clash(s: Seq<Edge>) -> bool { forall|i: int, j: int| !#[trigger] clash(s, i, j) }
/// no input has two connections and there is no cycle
pub open spec fn accepted(g: Grid) -> bool { no_clash(g.conns(g.w)) && acyclic(edge_set(g.conns(g.w))) }
/// every connection is one of two facing ports of neighbouring cells
pub proof fn lemma_conn_of(g: Grid, x: int, y: int, e: Edge)
    requires g.wf(), 0 <= x < g.w, 0 <= y <= g.h
    ensures g.col_conns(x, y).contains(e) <==> exists|yy: int, d: CellDir| 0 <= yy < y && #[trigger] g.conn((x, yy), d).contains(e) && g.at((x, yy)).node_id != NOP
    decreases y
{
    if y > 0 {
        let p = (x, y - 1); let a = g.col_conns(x, y - 1); let b = g.cell_conns(p); let c = a + b;
        lemma_conn_of(g, x, y - 1, e);
        let t = g.conn(p, CellDir::T); let tl = g.conn(p, CellDir::TL); let bl = g.conn(p, CellDir::BL);
        assert(b.contains(e) <==> exists|d: CellDir| #[trigger] g.conn(p, d).contains(e) && g.at(p).node_id != NOP) by {
            if b.contains(e) { let k = choose|k: int| 0 <= k < b.len() && b[k] == e;
                if k < t.len() { assert(t[k] == e); assert(g.conn(p, CellDir::T).contains(e)); } else if k < t.len() + tl.len() { assert(tl[k - t.len()] == e); assert(g.conn(p, CellDir::TL).contains(e)); } else { assert(bl[k - t.len() - tl.len()] == e); assert(g.conn(p, CellDir::BL).contains(e)); } }
            if exists|d: CellDir| #[trigger] g.conn(p, d).contains(e) && g.at(p).node_id != NOP {
                let d = choose|d: CellDir| #[trigger] g.conn(p, d).contains(e) && g.at(p).node_id != NOP;
                assert(d == CellDir::T || d == CellDir::TL || d == CellDir::BL);
                if d == CellDir::T { assert(b[0] == e); } else if d == CellDir::TL { assert(b[t.len() as int] == e); } else { assert(b[(t.len() + tl.len()) as int] == e); }
            }
        }
        assert(c.contains(e) <==> a.contains(e) || b.contains(e)) by {
            if c.contains(e) { let k = choose|k: int| 0 <= k < c.len() && c[k] == e; if k < a.len() { assert(a[k] == e); } else { assert(b[k - a.len()] == e); } }
            if a.contains(e) { let k = choose|k: int| 0 <= k < a.len() && a[k] == e; assert(c[k] == e); }
            if b.contains(e) { let k = choose|k: int| 0 <= k < b.len() && b[k] == e; assert(c[k + a.len()] == e); }
        }
        assert(g.col_conns(x, y) == c);
        if exists|yy: int, d: CellDir| 0 <= yy < y && #[trigger] g.conn((x, yy), d).contains(e) && g.at((x, yy)).node_id != NOP {
            let (yy, d) = choose|yy: int, d: CellDir| 0 <= yy < y && #[trigger] g.conn((x, yy), d).contains(e) && g.at((x, yy)).node_id != NOP;
            if yy == y - 1 { assert(g.conn(p, d).contains(e)); }
        }
    }
}
/// the edge e is the connection of an input edge of a cell
pub open spec fn conn_is(g: Grid, p: (int, int), d: CellDir, e: Edge) -> bool { g.connected(p, d) && e == (Edge { from: g.at(go(p, d)).node_id, from_out: port(g.at(go(p, d)), back(d))->Some_0, to: g.at(p).node_id, to_input: port(g.at(p), d)->Some_0 }) }
/// an output and an input are connected exactly if they face each other and both have a port set
pub proof fn lemma_conns(g: Grid, x: int, e: Edge)
    requires g.wf(), 0 <= x <= g.w
    ensures g.conns(x).contains(e) <==> exists|p: (int, int), d: CellDir| p.0 < x && #[trigger] conn_is(g, p, d, e)
    decreases x
{
    if x > 0 {
        let a = g.conns(x - 1); let b = g.col_conns(x - 1, g.h); let c = a + b;
        lemma_conns(g, x - 1, e); lemma_conn_of(g, x - 1, g.h, e);
        assert(c.contains(e) <==> a.contains(e) || b.contains(e)) by {
            if c.contains(e) { let k = choose|k: int| 0 <= k < c.len() && c[k] == e; if k < a.len() { assert(a[k] == e); } else { assert(b[k - a.len()] == e); } }
            if a.contains(e) { let k = choose|k: int| 0 <= k < a.len() && a[k] == e; assert(c[k] == e); }
            if b.contains(e) { let k = choose|k: int| 0 <= k < b.len() && b[k] == e; assert(c[k + a.len()] == e); }
        }
        if b.contains(e) {
            let (yy, d) = choose|yy: int, d: CellDir| 0 <= yy < g.h && #[trigger] g.conn((x - 1, yy), d).contains(e) && g.at((x - 1, yy)).node_id != NOP;
            assert(conn_is(g, (x - 1, yy), d, e));
        }
        if exists|p: (int, int), d: CellDir| p.0 < x && #[trigger] conn_is(g, p, d, e) {
            let (p, d) = choose|p: (int, int), d: CellDir| p.0 < x && #[trigger] conn_is(g, p, d, e);
            if p.0 == x - 1 { assert(p == (x - 1, p.1)); assert(g.conn(p, d)[0] == e); assert(g.conn((x - 1, p.1), d).contains(e)); } 
        }
    }
}
/// the cells with one more at a position
pub open spec fn placed(g: Grid, p: (int, int), c: Cell) -> Seq<Cell> { if g.inside(p) { g.m.update(p.0 * g.h + p.1, Cell { x: p.0 as u8, y: p.1 as u8, ..c }) } else { g.m } }
pub open spec fn placed_all(g: Grid, c: Seq<Cell>, k: int) -> Seq<Cell> decreases k { if k <= 0 { g.m } else { placed(Grid { m: placed_all(g, c, k - 1), ..g }, (c[k - 1].x as int, c[k - 1].y as int), c[k - 1]) } }
/// a placed cell is found at its position and nowhere else
pub proof fn lemma_placed(g: Grid, p: (int, int), c: Cell, q: (int, int))
    requires g.wf(), g.inside(q)
    ensures placed(g, p, c).len() == g.m.len(), g.inside(p) ==> (Grid { m: placed(g, p, c), ..g }).at(q) == (if q == p { Cell { x: p.0 as u8, y: p.1 as u8, ..c } } else { g.at(q) }), !g.inside(p) ==> placed(g, p, c) == g.m
{ if g.inside(p) { lemma_index(g.w, g.h, p, q); lemma_index(g.w, g.h, q, p); } }
pub open spec fn same_links(v: Seq<((Cell, CellDir, u8), (Cell, CellDir, u8, (usize, usize)))>, s: Seq<((Cell, CellDir, u8), (Cell, CellDir, u8, (int, int)))>) -> bool {
    v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == s[i].0 && v[i].1.0 == s[i].1.0 && v[i].1.1 == s[i].1.1 && v[i].1.2 == s[i].1.2 && ip(v[i].1.3) == s[i].1.3
}
//[chain]
/// where the k-th node of a chain goes
pub open spec fn pos_of(l: Seq<MatrixChainLink>, p: (int, int), k: int) -> (int, int) decreases k { if k <= 0 { p } else { go(pos_of(l, p, k - 1), l[k - 1].dir) } }
/// the cells with the first k nodes of a chain
pub open spec fn chained(g: Grid, l: Seq<MatrixChainLink>, ids: Seq<NodeId>, p: (int, int), k: int) -> Seq<Cell> decreases k {
    if k <= 0 { g.m } else { placed(Grid { m: chained(g, l, ids, p, k - 1), ..g }, pos_of(l, p, k - 1), Cell { node_id: ids[k - 1], ..l[k - 1].cell }) }
}
/// the parameters of one node, as those of the instance that is placed
pub open spec fn params_of(n: NodeId, s: Seq<(ParamId, SAtom)>, k: int) -> Seq<(ParamId, SAtom)> decreases k {
    if k <= 0 { Seq::empty() } else { match inp_of(n, pname(s[k - 1].0)) { Some(p) => params_of(n, s, k - 1).push((p, s[k - 1].1)), None => params_of(n, s, k - 1) } }
}
pub open spec fn chain_params(l: Seq<MatrixChainLink>, ids: Seq<NodeId>, k: int) -> Seq<(ParamId, SAtom)> decreases k {
    if k <= 0 { Seq::empty() } else { chain_params(l, ids, k - 1) + params_of(ids[k - 1], l[k - 1].params@, l[k - 1].params@.len() as int) }
}
/// the nodes of the chain are of the kinds asked for, not in use and all different
pub open spec fn chain_ids(c: Conf, l: Seq<MatrixChainLink>, ids: Seq<NodeId>) -> bool {
    &&& forall|k: int| 0 <= k < ids.len() ==> kind(#[trigger] ids[k]) == kind(l[k].cell.node_id) && !in_use(c, ids[k]) && inst(ids[k]) < 255
    &&& forall|i: int, k: int| 0 <= i < k < ids.len() && kind(#[trigger] ids[i]) == kind(#[trigger] ids[k]) ==> inst(ids[i]) < inst(ids[k])
}
/// only what belongs to the first nodes matters
pub proof fn lemma_chain_push(g: Grid, l: Seq<MatrixChainLink>, ids: Seq<NodeId>, n: NodeId, p: (int, int), k: int)
    requires 0 <= k <= ids.len()
    ensures chained(g, l, ids.push(n), p, k) == chained(g, l, ids, p, k), chain_params(l, ids.push(n), k) == chain_params(l, ids, k)
    decreases k
{ if k > 0 { lemma_chain_push(g, l, ids, n, p, k - 1); } }
//[end]
impl Matrix {
    pub open spec fn grid(&self) -> Grid { Grid { m: self.matrix@, w: self.w as int, h: self.h as int } }
    pub open spec fn wf(&self) -> bool { self.grid().wf() }
    /// edges, graph and used inputs are those of the cells
    pub open spec fn synced(&self) -> bool { let s = self.grid().conns(self.w as int); self.edges@ == s && self.graph_ordering.edges() == edge_set(s) && self.assigned_inputs.set() == used_in(s, s.len() as int) }
    pub open spec fn same_rest(&self, o: Self) -> bool { self.w == o.w && self.h == o.h && self.saved_matrix == o.saved_matrix }
}
impl CellDir {
    ⟦fn CellDir::from of src/cell_dir.rs⟧
    fn from(edge: u8) -> «(r:» Self «)»
«        ensures r == dir_of(edge)»
    {
        match edge {
            0 => CellDir::TR,
            1 => CellDir::BR,
            2 => CellDir::B,
            3 => CellDir::BL,
            4 => CellDir::TL,
            5 => CellDir::T,
            _ => CellDir::C,
        }
    }
    ⟦end⟧
    ⟦fn CellDir::flip of src/cell_dir.rs⟧
    fn flip(&self) -> «(r:» Self «)»
«        ensures *self != CellDir::C ==> r == back(*self)»
    {
        match self {
            CellDir::TR => CellDir::BL,
            CellDir::BR => CellDir::TL,
            CellDir::B => CellDir::T,
            CellDir::BL => CellDir::TR,
            CellDir::TL => CellDir::BR,
            CellDir::T => CellDir::B,
            CellDir::C => CellDir::T,
        }
    }
    ⟦end⟧
    ⟦fn CellDir::is_output of src/cell_dir.rs⟧
    fn is_output(&self) -> «(r:» bool «)»
«        ensures r == is_out(*self)»
    {
        let e = self.as_edge();
        e <= 2
    }
    ⟦end⟧
    ⟦fn CellDir::is_input of src/cell_dir.rs⟧
    fn is_input(&self) -> «(r:» bool «)»
«        ensures r == !is_out(*self)»
    {
        !self.is_output()
    }
    ⟦end⟧
    ⟦fn CellDir::as_edge of src/cell_dir.rs⟧
    fn as_edge(&self) -> «(r:» u8 «)»
«        ensures dir_of(r) == *self, r <= 6»
    {
        edge_of(*self)
    }
    ⟦end⟧
    ⟦fn CellDir::as_offs of src/cell_dir.rs⟧
    fn as_offs(&self, x: usize) -> «(r:» (i32, i32) «)»
«        ensures (r.0 as int, r.1 as int) == offs(*self, x as int), -1 <= r.0 <= 1, -1 <= r.1 <= 1»
    {
        let even = x % 2 == 0;
        match self {
            CellDir::TR => (1, if even { -1 } else { 0 }),
            CellDir::BR => (1, (if !even { 1i32 } else { 0i32 })),
            CellDir::B => (0, 1),
            CellDir::BL => (-1, (if !even { 1i32 } else { 0i32 })),
            CellDir::TL => (-1, if even { -1 } else { 0 }),
            CellDir::T => (0, -1),
            _ => (0, 0),
        }
    }
    ⟦end⟧
    ⟦fn CellDir::offs_pos of src/cell_dir.rs⟧
    fn offs_pos(&self, pos: (usize, usize)) -> «(r:» Option<(usize, usize)> «)»
«        requires pos.0 < 0x7fff_ffff, pos.1 < 0x7fff_ffff
        ensures r matches Some(q) ==> on_grid(go(ip(pos), *self)) && ip(q) == go(ip(pos), *self), r is None ==> !on_grid(go(ip(pos), *self))»
    {
        let offs = self.as_offs(pos.0);
        let new_pos = (pos.0 as i32 + offs.0, pos.1 as i32 + offs.1);
        if new_pos.0 >= 0 && new_pos.1 >= 0 {
            Some((new_pos.0 as usize, new_pos.1 as usize))
        } else {
            None
        }
    }
    ⟦end⟧
}
impl Cell {
    ⟦fn Cell::set_node_id_keep_ios⟧
    fn set_node_id_keep_ios(&mut self, node_id: NodeId)
«        ensures *final(self) == (Cell { node_id, ..*old(self) })»
    {
        self.node_id = node_id;
    }
    ⟦end⟧
    ⟦fn Cell::with_pos_of⟧
    fn with_pos_of(&self, other: Cell) -> «(r:» Self «)»
«        ensures r == (Cell { x: other.x, y: other.y, ..*self })»
    {
        let mut new = *self;
        new.x = other.x;
        new.y = other.y;
        new
    }
    ⟦end⟧
    ⟦fn Cell::is_empty⟧
    fn is_empty(&self) -> «(r:» bool «)»
«        ensures r == (self.node_id == NOP)»
    {
        self.node_id == NOP
    }
    ⟦end⟧
    ⟦fn Cell::node_id⟧
    fn node_id(&self) -> «(r:» NodeId «)»
«        ensures r == self.node_id»
    {
        self.node_id
    }
    ⟦end⟧
    ⟦fn Cell::pos⟧
    fn pos(&self) -> «(r:» (usize, usize) «)»
«        ensures r.0 == self.x, r.1 == self.y»
    {
        (self.x as usize, self.y as usize)
    }
    ⟦end⟧
    ⟦fn Cell::offs_dir⟧
    fn offs_dir(&mut self, dir: CellDir) -> «(r:» bool «)»
«        ensures r ==> (*final(self) == Cell { x: final(self).x, y: final(self).y, ..*old(self) }) && (go((old(self).x as int, old(self).y as int), dir).0 < 256 && go((old(self).x as int, old(self).y as int), dir).1 < 256 ==> (final(self).x as int, final(self).y as int) == go((old(self).x as int, old(self).y as int), dir)), r == on_grid(go((old(self).x as int, old(self).y as int), dir)), !r ==> *final(self) == *old(self)»
    {
        if let Some(new_pos) = dir.offs_pos((self.x as usize, self.y as usize)) {
            self.x = new_pos.0 as u8;
            self.y = new_pos.1 as u8;
            true
        } else {
            false
        }
    }
    ⟦end⟧
    ⟦fn Cell::has_dir_set⟧
    fn has_dir_set(&self, dir: CellDir) -> «(r:» bool «)»
«        ensures r == port(*self, dir) is Some»
    {
        match dir {
            CellDir::TR => self.out1.is_some(),
            CellDir::BR => self.out2.is_some(),
            CellDir::B => self.out3.is_some(),
            CellDir::BL => self.in3.is_some(),
            CellDir::TL => self.in2.is_some(),
            CellDir::T => self.in1.is_some(),
            CellDir::C => false,
        }
    }
    ⟦end⟧
    ⟦fn Cell::local_port_idx⟧
    fn local_port_idx(&self, dir: CellDir) -> «(r:» Option<u8> «)»
«        ensures r == port(*self, dir)»
    {
        match dir {
            CellDir::TR => self.out1,
            CellDir::BR => self.out2,
            CellDir::B => self.out3,
            CellDir::BL => self.in3,
            CellDir::TL => self.in2,
            CellDir::T => self.in1,
            CellDir::C => None,
        }
    }
    ⟦end⟧
    ⟦fn Cell::clear_io_dir⟧
    fn clear_io_dir(&mut self, dir: CellDir)
«        ensures dir != CellDir::C ==> *final(self) == with_port(*old(self), dir, None), dir == CellDir::C ==> *final(self) == (Cell { out1: None, out2: None, out3: None, in1: None, in2: None, in3: None, ..*old(self) })»
    {
        match dir {
            CellDir::TR => {
                self.out1 = None;
            }
            CellDir::BR => {
                self.out2 = None;
            }
            CellDir::B => {
                self.out3 = None;
            }
            CellDir::BL => {
                self.in3 = None;
            }
            CellDir::TL => {
                self.in2 = None;
            }
            CellDir::T => {
                self.in1 = None;
            }
            CellDir::C => {
                self.out1 = None;
                self.out2 = None;
                self.out3 = None;
                self.in1 = None;
                self.in2 = None;
                self.in3 = None;
            }
        }
    }
    ⟦end⟧
    ⟦fn Cell::set_io_dir⟧
    fn set_io_dir(&mut self, dir: CellDir, idx: usize)
«        ensures idx < 256 ==> *final(self) == with_port(*old(self), dir, Some(idx as u8))»
    {
        match dir {
            CellDir::TR => {
                self.out1 = Some(idx as u8);
            }
            CellDir::BR => {
                self.out2 = Some(idx as u8);
            }
            CellDir::B => {
                self.out3 = Some(idx as u8);
            }
            CellDir::BL => {
                self.in3 = Some(idx as u8);
            }
            CellDir::TL => {
                self.in2 = Some(idx as u8);
            }
            CellDir::T => {
                self.in1 = Some(idx as u8);
            }
            CellDir::C => {}
        }
    }
    ⟦end⟧
    ⟦fn Cell::find_first_adjacent_free⟧
    fn find_first_adjacent_free(
        &self,
        m: &Matrix,
        dir: CellDir,
    ) -> «(r:» Option<(CellDir, Option<u8>)> «)»
«        requires m.wf()
        ensures r is None ==> forall|i: int| 0 <= i < opts(dir).len() ==> !m.grid().free((self.x as int, self.y as int), #[trigger] opts(dir)[i]),
            r matches Some(q) ==> opts(dir).contains(q.0) && m.grid().free((self.x as int, self.y as int), q.0) && q.1 == port(*self, q.0) && (q.1 is None ==> forall|i: int| 0 <= i < opts(dir).len() && m.grid().free((self.x as int, self.y as int), opts(dir)[i]) ==> port(*self, #[trigger] opts(dir)[i]) is None)»
    {
«        let ghost o = opts(dir); let ghost p = (self.x as int, self.y as int);»
        let mut free_ports «: Vec<&CellDir>» = vec![];
        let options: &[CellDir] = if dir == CellDir::C {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B])
        } else if dir.is_input() {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL])
        } else {
            vstd::array::array_as_slice(&[CellDir::TR, CellDir::BR, CellDir::B])
        };
        «        proof { assert(options@ =~= o); }»
        let dir_n = options.len(); for dir_i in 0..dir_n
«            invariant m.wf(), p == (self.x as int, self.y as int), options@ == o, dir_n == o.len(),
                forall|i: int| 0 <= i < free_ports@.len() ==> o.contains(*#[trigger] free_ports@[i]) && m.grid().free(p, *free_ports@[i]),
                forall|i: int| 0 <= i < dir_i && m.grid().free(p, #[trigger] o[i]) ==> exists|k: int| 0 <= k < free_ports@.len() && *#[trigger] free_ports@[k] == o[i]»
        { let dir = &options[dir_i];
            if let Some(pos) = dir.offs_pos((self.x as usize, self.y as usize)) {
                if (match m.get(pos.0, pos.1) { Some(c) => c.is_empty(), None => false }) {
                    «                    let ghost f0 = free_ports@;»
                    free_ports.push(dir);
«                    proof { assert(free_ports@[f0.len() as int] == dir); assert(o[dir_i as int] == *dir);
                        assert forall|i: int| 0 <= i < dir_i + 1 && m.grid().free(p, #[trigger] o[i]) implies exists|k: int| 0 <= k < free_ports@.len() && *#[trigger] free_ports@[k] == o[i] by {
                            if i < dir_i { let k = choose|k: int| 0 <= k < f0.len() && *#[trigger] f0[k] == o[i]; assert(*free_ports@[k] == o[i]); } else { assert(*free_ports@[f0.len() as int] == o[i]); } } }»
                }
            }
        }
        let in_dir_n = free_ports.len(); for in_dir_i in 0..in_dir_n
«            invariant m.wf(), p == (self.x as int, self.y as int), in_dir_n == free_ports@.len(), o == opts(dir),
                forall|i: int| 0 <= i < free_ports@.len() ==> o.contains(*#[trigger] free_ports@[i]) && m.grid().free(p, *free_ports@[i]),
                forall|i: int| 0 <= i < o.len() && m.grid().free(p, #[trigger] o[i]) ==> exists|k: int| 0 <= k < free_ports@.len() && *#[trigger] free_ports@[k] == o[i],
                forall|i: int| 0 <= i < in_dir_i ==> port(*self, *#[trigger] free_ports@[i]) is None»
        { let in_dir = &free_ports[in_dir_i];
            if self.has_dir_set(**in_dir) {
                return Some((**in_dir, self.local_port_idx(**in_dir)));
            }
        }
        if free_ports.len() > 0 {
            Some((*free_ports[0], None))
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn Cell::find_all_adjacent_free⟧
    fn find_all_adjacent_free(
        &self,
        m: &Matrix,
        dir: CellDir,
    ) -> «(r:» Vec<(CellDir, (usize, usize))> «)»
«        requires m.wf() ensures r@.len() == m.grid().free_list((self.x as int, self.y as int), opts(dir)).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i].0, ip(r@[i].1)) == m.grid().free_list((self.x as int, self.y as int), opts(dir))[i]»
    {
«        let ghost o = opts(dir); let ghost p = (self.x as int, self.y as int);»
        let mut free_ports «: Vec<(CellDir, (usize, usize))>» = vec![];
        let options: &[CellDir] = if dir == CellDir::C {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B])
        } else if dir.is_input() {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL])
        } else {
            vstd::array::array_as_slice(&[CellDir::TR, CellDir::BR, CellDir::B])
        };
        «        proof { assert(options@ =~= o); assert(o.take(0) =~= Seq::empty()); }»
        let dir_n = options.len(); for dir_i in 0..dir_n
«            invariant m.wf(), p == (self.x as int, self.y as int), options@ == o, dir_n == o.len(), free_ports@.len() == m.grid().free_list(p, o.take(dir_i as int)).len(), forall|i: int| 0 <= i < free_ports@.len() ==> (#[trigger] free_ports@[i].0, ip(free_ports@[i].1)) == m.grid().free_list(p, o.take(dir_i as int))[i]»
        {
«            proof { let t = o.take(dir_i as int + 1); assert(t.drop_last() =~= o.take(dir_i as int)); assert(t.last() == o[dir_i as int]); }»
            let dir = &options[dir_i];
            if let Some(pos) = dir.offs_pos((self.x as usize, self.y as usize)) {
                if (match m.get(pos.0, pos.1) { Some(c) => c.is_empty(), None => false }) {
                    free_ports.push((*dir, pos));
                }
            }
        }
«        proof { assert(o.take(dir_n as int) =~= o); }»
        free_ports
    }
    ⟦end⟧
    ⟦fn Cell::find_unconnected_ports⟧
    fn find_unconnected_ports(&self, m: &Matrix, dir: CellDir) -> «(r:» Vec<CellDir> «)»
«        requires m.wf() ensures r@ == m.grid().unlinked(*self, (self.x as int, self.y as int), opts(dir))»
    {
«        let ghost o = opts(dir); let ghost p = (self.x as int, self.y as int);»
        let mut unused_ports «: Vec<CellDir>» = vec![];
        let options: &[CellDir] = if dir == CellDir::C {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B])
        } else if dir.is_input() {
            vstd::array::array_as_slice(&[CellDir::T, CellDir::TL, CellDir::BL])
        } else {
            vstd::array::array_as_slice(&[CellDir::TR, CellDir::BR, CellDir::B])
        };
        «        proof { assert(options@ =~= o); assert(o.take(0) =~= Seq::empty()); }»
        let dir_n = options.len(); for dir_i in 0..dir_n
«            invariant m.wf(), p == (self.x as int, self.y as int), options@ == o, dir_n == o.len(), unused_ports@ == m.grid().unlinked(*self, p, o.take(dir_i as int))»
        {
«            proof { let t = o.take(dir_i as int + 1); assert(t.drop_last() =~= o.take(dir_i as int)); assert(t.last() == o[dir_i as int]); }»
            let dir = &options[dir_i];
            if self.is_port_dir_connected(m, *dir).is_none() {
                unused_ports.push(*dir);
            }
        }
«        proof { assert(o.take(dir_n as int) =~= o); }»
        unused_ports
    }
    ⟦end⟧
    ⟦fn Cell::is_port_dir_connected⟧
    fn is_port_dir_connected(&self, m: &Matrix, dir: CellDir) -> «(r:» Option<(usize, usize)> «)»
«        requires m.wf()
        ensures r is Some == m.grid().linked(*self, (self.x as int, self.y as int), dir), r matches Some(q) ==> ip(q) == go((self.x as int, self.y as int), dir)»
    {
        if self.has_dir_set(dir) {
            if let Some(new_pos) = dir.offs_pos((self.x as usize, self.y as usize)) {
                if let Some(dst_cell) = m.get(new_pos.0, new_pos.1) {
                    if dst_cell.has_dir_set(dir.flip()) {
                        return Some(new_pos);
                    }
                }
            }
        }
        None
    }
    ⟦end⟧
}
impl Matrix {
    ⟦fn Matrix::save_matrix⟧
    fn save_matrix(&mut self)
«        ensures *final(self) == (Matrix { saved_matrix: final(self).saved_matrix, ..*old(self) }), final(self).saved_matrix matches Some(s) && s@ == old(self).matrix@»
    {
        let matrix = clone_cells(&self.matrix);
        self.saved_matrix = Some(matrix);
    }
    ⟦end⟧
    ⟦fn Matrix::restore_matrix⟧
    fn restore_matrix(&mut self)
«        requires old(self).wf(), old(self).saved_matrix matches Some(s) ==> s@.len() == old(self).w * old(self).h
        ensures final(self).wf(), final(self).w == old(self).w, final(self).h == old(self).h, final(self).saved_matrix is None, old(self).saved_matrix matches Some(s) ==> final(self).matrix@ == s@ && final(self).synced(), old(self).saved_matrix is None ==> *final(self) == *old(self)»
    {
        if let Some(matrix) = self.saved_matrix.take() {
            self.matrix = matrix;
            self.update_graph_ordering_and_edges();
        }
    }
    ⟦end⟧
    ⟦fn Matrix::change_matrix⟧
    fn change_matrix(&mut self) -> «(r:» Result<(), MatrixError> «)»
«        requires old(self).wf()
        ensures final(self).wf(), final(self).synced(), final(self).w == old(self).w, final(self).h == old(self).h, r is Ok ==> accepted(final(self).grid()), r is Err ==> final(self).matrix@ == old(self).matrix@»
    {
        self.save_matrix();
        change(self);
        if let Err(e) = self.check() {
            self.restore_matrix();
            Err(e)
        } else {
            Ok(())
        }
    }
    ⟦end⟧
    ⟦fn Matrix::change_matrix_err⟧
    fn change_matrix_err(&mut self) -> «(r:» Result<(), MatrixError> «)»
«        requires old(self).wf()
        ensures final(self).wf(), final(self).synced(), final(self).w == old(self).w, final(self).h == old(self).h, r is Ok ==> accepted(final(self).grid()), r is Err ==> final(self).matrix@ == old(self).matrix@»
    {
        self.save_matrix();
        if let Err(e) = change_err(self) {
            self.restore_matrix();
            return Err(e);
        }
        if let Err(e) = self.check() {
            self.restore_matrix();
            Err(e)
        } else {
            Ok(())
        }
    }
    ⟦end⟧
    ⟦fn Matrix::place_multiple⟧
    fn place_multiple(&mut self, cells: &[Cell]) -> «(r:» Result<(), MatrixError> «)»
«        requires old(self).wf()
        ensures final(self).wf(), final(self).same_rest(*old(self)),
            r is Ok ==> final(self).synced() && accepted(final(self).grid()) && final(self).matrix@ == placed_all(old(self).grid(), cells@, cells@.len() as int),
            r matches Err(MatrixError::PosOutOfRange) ==> exists|k: int| 0 <= k < cells@.len() && !old(self).grid().inside((#[trigger] cells@[k].x as int, cells@[k].y as int)),
            r matches Err(MatrixError::NonEmptyCell { cell }) ==> cell.node_id != NOP && exists|k: int| 0 <= k < cells@.len() && old(self).grid().inside((#[trigger] cells@[k].x as int, cells@[k].y as int)) && cell == (Grid { m: placed_all(old(self).grid(), cells@, k), ..old(self).grid() }).at((cells@[k].x as int, cells@[k].y as int))»
    {
        let cell_n = cells.len(); for cell_i in 0..cell_n
«            invariant self.wf(), self.same_rest(*old(self)), cell_n == cells@.len(), self.matrix@ == placed_all(old(self).grid(), cells@, cell_i as int)»
        { let cell = &cells[cell_i];
            let x = cell.pos().0;
            let y = cell.pos().1;
            if let Some(existing) = self.get(x, y) {
                if !existing.is_empty() {
                    return Err(MatrixError::NonEmptyCell { cell: *existing });
                }
                self.place(x, y, *cell);
            } else {
                return Err(MatrixError::PosOutOfRange);
            }
        }
        if let Err(e) = self.check() {
            Err(e)
        } else {
            Ok(())
        }
    }
    ⟦end⟧
    ⟦fn Matrix::place⟧
    fn place(&mut self, x: usize, y: usize, mut cell: Cell)
«        requires old(self).wf()
        ensures final(self).wf(), *final(self) == (Matrix { matrix: final(self).matrix, ..*old(self) }), final(self).matrix@ == placed(old(self).grid(), (x as int, y as int), cell)»
    {
«        proof { if self.grid().inside((x as int, y as int)) { lemma_index(self.w as int, self.h as int, (x as int, y as int), (x as int, y as int)); } }»
        cell.x = x as u8;
        cell.y = y as u8;
        if x >= self.w || y >= self.h {
            return;
        }
        self.matrix[x * self.h + y] = cell;
    }
    ⟦end⟧
    ⟦fn Matrix::place_cell⟧
    fn place_cell(&mut self, cell: Cell)
«        requires old(self).wf()
        ensures final(self).wf(), *final(self) == (Matrix { matrix: final(self).matrix, ..*old(self) }), final(self).matrix@ == placed(old(self).grid(), (cell.x as int, cell.y as int), cell)»
    {
        self.place(cell.pos().0, cell.pos().1, cell);
    }
    ⟦end⟧
    ⟦fn Matrix::get_adjacent_output⟧
    fn get_adjacent_output(&self, x: usize, y: usize, dir: CellDir) -> «(r:» Option<(NodeId, u8)> «)»
«        requires self.wf(), x < 0x7fff_ffff, y < 0x7fff_ffff ensures r == self.grid().offered((x as int, y as int), dir)»
    {
        if dir.is_output() {
            return None;
        }
        let cell = self.get_adjacent(x, y, dir)?;
        if cell.node_id == NOP {
            return None;
        }
        let cell_out = match dir {
            CellDir::T => cell.out3?,
            CellDir::TL => cell.out2?,
            CellDir::BL => cell.out1?,
            _ => {
                return None;
            }
        };
        Some((cell.node_id, cell_out))
    }
    ⟦end⟧
    ⟦fn Matrix::get_adjacent⟧
    fn get_adjacent(&self, x: usize, y: usize, dir: CellDir) -> «(r:» Option<&Cell> «)»
«        requires self.wf(), x < 0x7fff_ffff, y < 0x7fff_ffff ensures r is Some == self.grid().inside(go((x as int, y as int), dir)), r matches Some(c) ==> *c == self.grid().at(go((x as int, y as int), dir))»
    {
        let offs: (i32, i32) = dir.as_offs(x);
        let x = x as i32 + offs.0;
        let y = y as i32 + offs.1;
        if x < 0 || y < 0 || (x as usize) >= self.w || (y as usize) >= self.h {
            return None;
        }
«        proof { lemma_index(self.w as int, self.h as int, (x as int, y as int), (x as int, y as int)); }»
        Some(&self.matrix[(x as usize) * self.h + (y as usize)])
    }
    ⟦end⟧
    ⟦fn Matrix::adjacent_edge_has_input⟧
    fn adjacent_edge_has_input(&self, x: usize, y: usize, edge: CellDir) -> «(r:» bool «)»
«        requires self.wf(), x < 0x7fff_ffff, y < 0x7fff_ffff ensures r == (is_out(edge) && self.grid().inside(go((x as int, y as int), edge)) && port(self.grid().at(go((x as int, y as int), edge)), back(edge)) is Some)»
    {
        if let Some(cell) = self.get_adjacent(x, y, edge) {
            match edge {
                CellDir::TR => cell.in3.is_some(),
                CellDir::BR => cell.in2.is_some(),
                CellDir::B => cell.in1.is_some(),
                _ => false,
            }
        } else {
            false
        }
    }
    ⟦end⟧
    ⟦fn Matrix::get_connections⟧
    fn get_connections(
        &self,
        x: usize,
        y: usize,
    ) -> «(r:» Option<Vec<((Cell, CellDir, u8), (Cell, CellDir, u8, (usize, usize)))>> «)»
«        requires self.wf()
        ensures r is Some == self.grid().inside((x as int, y as int)), r matches Some(v) ==> same_links(v@, self.grid().links((x as int, y as int), 6))»
    {
        let this_cell = self.get(x, y)?;
        let mut ret «: Vec<((Cell, CellDir, u8), (Cell, CellDir, u8, (usize, usize)))>» = vec![];
        let mut edge_i: u8 = 0; while edge_i < 6
«            invariant edge_i <= 6, self.wf(), self.grid().inside((x as int, y as int)), *this_cell == self.grid().at((x as int, y as int)), same_links(ret@, self.grid().links((x as int, y as int), edge_i as int))
            decreases 6 - edge_i»
        { let edge = edge_i; edge_i = edge_i + 1;
            let dir = CellDir::from(edge);
            if let Some(node_io_idx) = this_cell.local_port_idx(dir) {
                if let Some((nx, ny)) = dir.offs_pos((x, y)) {
                    if !(nx < self.w && ny < self.h) {
                        continue;
                    }
                    if let Some(other_cell) = self.get(nx, ny) {
                        if let Some(other_node_io_idx) = other_cell.local_port_idx(dir.flip()) {
                            ret.push((
                                (*this_cell, dir, node_io_idx),
                                (*other_cell, dir.flip(), other_node_io_idx, (nx, ny)),
                            ));
                        }
                    }
                }
            }
        }
        Some(ret)
    }
    ⟦end⟧
    ⟦fn Matrix::get_copy⟧
    fn get_copy(&self, x: usize, y: usize) -> «(r:» Option<Cell> «)»
«        requires self.wf() ensures r is Some == self.grid().inside((x as int, y as int)), r matches Some(c) ==> c == (Cell { x: x as u8, y: y as u8, ..self.grid().at((x as int, y as int)) })»
    {
«        proof { if self.grid().inside((x as int, y as int)) { lemma_index(self.w as int, self.h as int, (x as int, y as int), (x as int, y as int)); } }»
        if x >= self.w || y >= self.h {
            return None;
        }
        let mut cell = self.matrix[x * self.h + y];
        cell.x = x as u8;
        cell.y = y as u8;
        Some(cell)
    }
    ⟦end⟧
    ⟦fn Matrix::get⟧
    fn get(&self, x: usize, y: usize) -> «(r:» Option<&Cell> «)»
«        requires self.wf() ensures r is Some == self.grid().inside((x as int, y as int)), r matches Some(c) ==> *c == self.grid().at((x as int, y as int))»
    {
«        proof { if self.grid().inside((x as int, y as int)) { lemma_index(self.w as int, self.h as int, (x as int, y as int), (x as int, y as int)); } }»
        if x >= self.w || y >= self.h {
            return None;
        }
        Some(&self.matrix[x * self.h + y])
    }
    ⟦end⟧
    ⟦fn Matrix::param_input_is_used⟧
    fn param_input_is_used(&self, p: ParamId) -> «(r:» bool «)»
«        ensures self.synced() ==> r == used_in(self.grid().conns(self.w as int), self.grid().conns(self.w as int).len() as int).contains(p)»
    {
        self.assigned_inputs.contains(&p)
    }
    ⟦end⟧
    ⟦fn Matrix::update_graph_ordering_and_edges⟧
    fn update_graph_ordering_and_edges(&mut self)
«        requires old(self).wf()
        ensures final(self).wf(), final(self).synced(), final(self).matrix == old(self).matrix, final(self).same_rest(*old(self))»
    {
        self.graph_ordering.clear();
        self.edges.clear();
        self.assigned_inputs.clear();
«        proof { assert(self.edges@ =~= self.grid().conns(0)); assert(edge_set(self.edges@) =~= Set::<(NodeId, NodeId)>::empty()); }»
        «        let ghost g = self.grid(); let ghost s0 = *self;»
        let mut x_i: usize = 0; while x_i < self.w
«            invariant g.wf(), self.grid() == g, x_i <= self.w, self.matrix == s0.matrix, self.same_rest(s0), self.edges@ == g.conns(x_i as int), self.graph_ordering.edges() == edge_set(self.edges@), seen(g.m, x_i * g.h, self.graph_ordering.nodes()),
                self.assigned_inputs.set() == Set::<ParamId>::empty()
            decreases self.w - x_i»
        { let x = x_i; x_i = x_i + 1;
            let mut y_i: usize = 0; while y_i < self.h
«                invariant g.wf(), self.grid() == g, x < self.w, y_i <= self.h, self.matrix == s0.matrix, self.same_rest(s0), self.edges@ == g.conns(x as int) + g.col_conns(x as int, y_i as int), self.graph_ordering.edges() == edge_set(self.edges@), seen(g.m, x * g.h + y_i, self.graph_ordering.nodes()),
                    self.assigned_inputs.set() == Set::<ParamId>::empty()
                decreases self.h - y_i»
            { let y = y_i; y_i = y_i + 1;
                «                let ghost p = (x as int, y as int);
                proof { lemma_index(g.w, g.h, p, p); }»
                let cell = self.matrix[x * self.h + y];
                if cell.node_id == NOP {
«                    proof { assert(g.col_conns(x as int, y + 1) =~= g.col_conns(x as int, y as int)); }»
                    continue;
                }
                self.graph_ordering.add_node(cell.node_id);
                let in1_output = self.get_adjacent_output(x, y, CellDir::T);
                let in2_output = self.get_adjacent_output(x, y, CellDir::TL);
                let in3_output = self.get_adjacent_output(x, y, CellDir::BL);
«                let ghost e0 = self.edges@; let ghost n0 = self.graph_ordering.nodes();
                proof { assert(seen(g.m, p.0 * g.h + p.1, n0)); lemma_front(g, p, CellDir::T, n0); lemma_front(g, p, CellDir::TL, n0); lemma_front(g, p, CellDir::BL, n0); }»
                match (cell.in1, in1_output) {
                    (Some(in1_idx), Some(in1_output)) => {
                        self.edges.push(Edge {
                            to: cell.node_id,
                            to_input: in1_idx,
                            from: in1_output.0,
                            from_out: in1_output.1,
                        });
                        self.graph_ordering.add_edge(in1_output.0, cell.node_id);
«                        proof { lemma_edge_set(e0, self.edges@.last()); assert(self.edges@ =~= e0.push(self.edges@.last())); }»
                    }
                    _ => {}
                }
«                proof { assert(self.edges@ =~= e0 + g.conn(p, CellDir::T)); }»
                match (cell.in2, in2_output) {
                    (Some(in2_idx), Some(in2_output)) => {
                        self.edges.push(Edge {
                            to: cell.node_id,
                            to_input: in2_idx,
                            from: in2_output.0,
                            from_out: in2_output.1,
                        });
                        self.graph_ordering.add_edge(in2_output.0, cell.node_id);
«                        proof { lemma_edge_set((e0 + g.conn(p, CellDir::T)), self.edges@.last()); assert(self.edges@ =~= (e0 + g.conn(p, CellDir::T)).push(self.edges@.last())); }»
                    }
                    _ => {}
                }
«                proof { assert(self.edges@ =~= e0 + g.conn(p, CellDir::T) + g.conn(p, CellDir::TL)); }»
                match (cell.in3, in3_output) {
                    (Some(in3_idx), Some(in3_output)) => {
                        self.edges.push(Edge {
                            to: cell.node_id,
                            to_input: in3_idx,
                            from: in3_output.0,
                            from_out: in3_output.1,
                        });
                        self.graph_ordering.add_edge(in3_output.0, cell.node_id);
«                        proof { lemma_edge_set((e0 + g.conn(p, CellDir::T) + g.conn(p, CellDir::TL)), self.edges@.last()); assert(self.edges@ =~= (e0 + g.conn(p, CellDir::T) + g.conn(p, CellDir::TL)).push(self.edges@.last())); }»
                    }
                    _ => {}
                }
«                proof { assert(self.edges@ =~= e0 + g.conn(p, CellDir::T) + g.conn(p, CellDir::TL) + g.conn(p, CellDir::BL)); assert(self.edges@ =~= g.conns(x as int) + g.col_conns(x as int, y + 1)); }»
            }
«            proof { assert((x + 1) * g.h == x * g.h + g.h) by (nonlinear_arith); assert(g.conns(x + 1) =~= g.conns(x as int) + g.col_conns(x as int, g.h)); }»
        }
        «        proof { assert(self.assigned_inputs.set() =~= used_in(self.edges@, 0)); }»
        let edge_n = self.edges.len(); for edge_i in 0..edge_n
«            invariant edge_n == self.edges@.len(), self.grid() == g, self.matrix == s0.matrix, self.same_rest(s0), self.edges@ == g.conns(g.w), self.graph_ordering.edges() == edge_set(self.edges@), self.assigned_inputs.set() == used_in(self.edges@, edge_i as int)»
        { let edge = &self.edges[edge_i];
            if let Some(pid) = param_by_idx(edge.to, edge.to_input as usize) {
                self.assigned_inputs.insert(pid);
            }
«            proof { assert(self.assigned_inputs.set() =~= used_in(self.edges@, edge_i + 1)); }»
        }
    }
    ⟦end⟧
    ⟦fn Matrix::check⟧
    fn check(&mut self) -> «(r:» Result<(), MatrixError> «)»
«        requires old(self).wf()
        ensures final(self).wf(), final(self).synced(), final(self).matrix == old(self).matrix, final(self).same_rest(*old(self)),
            r is Ok == accepted(final(self).grid()),
            r matches Err(e) ==> (if no_clash(final(self).edges@) { e == MatrixError::CycleDetected } else {
                exists|i: int, j: int| #[trigger] clash(final(self).edges@, i, j) && e == (MatrixError::DuplicatedInput { output1: (final(self).edges@[i].from, final(self).edges@[i].from_out), output2: (final(self).edges@[j].from, final(self).edges@[j].from_out) }) })»
    {
        self.update_graph_ordering_and_edges();
        let mut edge_map = EdgeMap::new();
        let edge_n = self.edges.len(); for edge_i in 0..edge_n
«            invariant self.wf(), self.synced(), self.matrix == old(self).matrix, self.same_rest(*old(self)), edge_n == self.edges@.len(),
                forall|k: (NodeId, u8)| #[trigger] edge_map.map().contains_key(k) ==> exists|i: int| 0 <= i < edge_i && edge_at(self.edges@, i, k) && edge_map.map()[k] == (self.edges@[i].from, self.edges@[i].from_out),
                forall|i: int| 0 <= i < edge_i ==> edge_map.map().contains_key(((#[trigger] self.edges@[i]).to, self.edges@[i].to_input)),
                forall|i: int, j: int| j < edge_i ==> !#[trigger] clash(self.edges@, i, j)»
        { let edge = &self.edges[edge_i];
            if let Some((out1_node_id, out1_idx)) = edge_map.get(&(edge.to, edge.to_input)) {
«                proof { let k = (edge.to, edge.to_input); let i = choose|i: int| 0 <= i < edge_i && edge_at(self.edges@, i, k) && edge_map.map()[k] == (self.edges@[i].from, self.edges@[i].from_out); assert(clash(self.edges@, i, edge_i as int)); }»
                return Err(MatrixError::DuplicatedInput {
                    output1: (*out1_node_id, *out1_idx),
                    output2: (edge.from, edge.from_out),
                });
            } else {
«                let ghost m0 = edge_map.map();»
                edge_map.insert((edge.to, edge.to_input), (edge.from, edge.from_out));
«                proof {
                    assert(edge_at(self.edges@, edge_i as int, (edge.to, edge.to_input)));
                    assert forall|k: (NodeId, u8)| #[trigger] edge_map.map().contains_key(k) implies exists|i: int| 0 <= i < edge_i + 1 && edge_at(self.edges@, i, k) && edge_map.map()[k] == (self.edges@[i].from, self.edges@[i].from_out) by {
                        if k != (edge.to, edge.to_input) { assert(m0.contains_key(k)); let i = choose|i: int| 0 <= i < edge_i && edge_at(self.edges@, i, k) && m0[k] == (self.edges@[i].from, self.edges@[i].from_out); assert(edge_at(self.edges@, i, k)); }
                    }
                }»
            }
        }
«        proof { assert(no_clash(self.edges@)); }»
        let mut ordered_nodes = vec![];
        if !self.graph_ordering.calculate_order(&mut ordered_nodes) {
            return Err(MatrixError::CycleDetected);
        }
        Ok(())
    }
    ⟦end⟧
}
//[chain]
impl MatrixCellChain {
    ⟦fn MatrixCellChain::place of src/chain_builder.rs⟧
    fn place(
        &mut self,
        matrix: &mut Matrix,
        at_x: usize,
        at_y: usize,
    ) -> «(r:» Result<(), ChainError> «)»
«        requires old(matrix).wf(), at_x < 0x4000_0000, at_y < 0x4000_0000, old(self).chain@.len() < 0x1000_0000
        ensures old(self).error matches Some(e) ==> r == Err::<(), ChainError>(e) && *final(matrix) == *old(matrix),
            old(self).error is None ==> r is Ok && final(matrix).wf() && exists|ids: Seq<NodeId>| ids.len() == old(self).chain@.len() && chain_ids(old(matrix).config, old(self).chain@, ids)
                && final(matrix).matrix@ == #[trigger] chained(old(matrix).grid(), old(self).chain@, ids, (at_x as int, at_y as int), ids.len() as int)
                && sets(final(matrix).config) == sets(old(matrix).config) + chain_params(old(self).chain@, ids, ids.len() as int)»
    {
        if let Some(err) = self.error.take() {
            return Err(err);
        }
        let mut last_unused = NameMap::new();
        let mut params «: Vec<(ParamId, SAtom)>» = vec![];
        let mut pos = (at_x, at_y);
        «        let ghost g = matrix.grid(); let ghost l = self.chain@; let ghost p0 = (at_x as int, at_y as int); let ghost mut ids: Seq<NodeId> = Seq::empty(); let ghost m0 = *matrix;»
        let link_n = self.chain.len(); for link_i in 0..link_n
«            invariant g == m0.grid(), l == self.chain@, link_n == l.len(), link_n < 0x1000_0000, matrix.wf(), *matrix == (Matrix { matrix: matrix.matrix, ..m0 }), ids.len() == link_i, chain_ids(m0.config, l, ids),
                matrix.matrix@ == chained(g, l, ids, p0, link_i as int), params@ == chain_params(l, ids, link_i as int), (sgn(pos.0), sgn(pos.1)) == pos_of(l, p0, link_i as int),
                -0x2000_0000 < sgn(pos.0) + link_i, sgn(pos.0) - link_i < 0x4000_0000, -0x2000_0000 < sgn(pos.1) + link_i, sgn(pos.1) - link_i < 0x4000_0000,
                forall|i: int| 0 <= i < link_i ==> last_unused.map().contains_key(kind(#[trigger] ids[i])) && inst(ids[i]) <= last_unused.map()[kind(ids[i])],
                forall|k: Name| #[trigger] last_unused.map().contains_key(k) ==> last_unused.map()[k] < 255»
        { let link = &self.chain[link_i];
            let (x, y) = pos;
            let mut cell = link.cell;
            let node_id = cell.node_id();
            let node_name = node_id_name(&node_id);
            let node_id = if let Some(i) = last_unused.get_cloned(node_name) {
                to_instance(node_id, i + 1)
            } else {
                node_id
            };
            let node_id = get_unused_instance_node_id(matrix, node_id);
            last_unused.insert(node_name, instance(node_id));
            cell.set_node_id_keep_ios(node_id);
            «            let ghost ids0 = ids;
            proof { ids = ids.push(node_id); lemma_chain_push(g, l, ids0, node_id, p0, link_i as int); assert(g.inside((x as int, y as int)) == g.inside((sgn(x), sgn(y)))); assert(cell == (Cell { node_id: ids[link_i as int], ..l[link_i as int].cell })); }»
            matrix.place(x, y, cell);
«            let ghost par0 = params@;
            proof { assert(matrix.matrix@ == chained(g, l, ids, p0, link_i + 1)); }»
            «            proof { assert(params@ =~= par0 + params_of(node_id, link.params@, 0)); }»
            let par_n = link.params.len(); for par_i in 0..par_n
«                invariant par_n == link.params@.len(), params@ == par0 + params_of(node_id, link.params@, par_i as int)»
            { let pid = &link.params[par_i].0; let at = &link.params[par_i].1;
                if let Some(pid) = inp_param(node_id, pid_name(&pid)) {
                    params.push((pid, clone_atom(at)));
«                    proof { assert(params@ =~= par0 + params_of(node_id, link.params@, par_i + 1)); }»
                }
            }
            let offs = link.dir.as_offs(pos.0);
            pos.0 = step(pos.0, offs.0);
            pos.1 = step(pos.1, offs.1);
        }
        «        let ghost m1 = *matrix; proof { assert(sets(m1.config) + params@.take(0) =~= sets(m1.config)); }»
        let set_n = params.len(); for set_i in 0..set_n
«            invariant matrix.wf(), set_n == params@.len(), matrix.matrix == m1.matrix, matrix.w == m1.w, matrix.h == m1.h, sets(matrix.config) == sets(m1.config) + params@.take(set_i as int)»
        { let (pid, at) = nth(&params, set_i);
            set_param(matrix, pid, at);
«            proof { assert(sets(m1.config) + params@.take(set_i + 1) =~= (sets(m1.config) + params@.take(set_i as int)).push(params@[set_i as int])); }»
        }
«        proof { assert(params@.take(set_n as int) =~= params@); assert(matrix.matrix@ == chained(g, l, ids, p0, ids.len() as int)); }»
        Ok(())
    }
    ⟦end⟧
}
//[end]
}
fn main() {}
