⟦file src/nodes/node_graph_ordering.rs⟧
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::collections::HashSet;
verus! {
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vec::group_vec_axioms};
pub type NodeId = u64;
pub const NOP: u64 = 0;

#[derive(Clone)]
#[verifier::allow(autoderive_clone_without_spec)]
⟦struct Node⟧
impl Node {
⟦fn Node::new⟧
    fn new() -> «(r:» Self «) ensures r.edges@.len() == 0» {
        Self { node_id: NOP, edges: vec![] }
    }
⟦end⟧
⟦fn Node::clear⟧
    fn clear(&mut self) «ensures final(self).edges@ == Seq::<usize>::empty()» {
        self.node_id = NOP;
        self.edges.clear();
    }
⟦end⟧
⟦fn Node::add_edge⟧
    fn add_edge(&mut self, node_index: usize)
«       requires old(self).edges@.no_duplicates()»
«       ensures final(self).node_id == old(self).node_id, final(self).edges@.no_duplicates(),»
«         forall|j: usize| final(self).edges@.contains(j) <==> (old(self).edges@.contains(j) || j == node_index),»
    {
        for ni in «it1:» self.edges.iter() 
«          invariant *self == *old(self), self.edges@.no_duplicates(), it1.seq().len() == self.edges@.len(), forall|k: int| 0 <= k < self.edges@.len() ==> *#[trigger] it1.seq()[k] == self.edges@[k],»
«              forall|k: int| 0 <= k < it1.index@ ==> self.edges@[k] != node_index»
        {
            if *ni == node_index {
«                assert(self.edges@[it1.index@] == node_index);»
                return;
            }
        }

        self.edges.push(node_index);
«        proof {»
«          let o = old(self).edges@; let n = self.edges@;»
«          assert(n == o.push(node_index));»
«          assert forall|j: usize| n.contains(j) <==> (o.contains(j) || j == node_index) by {»
«             if o.contains(j) { let k = choose|k: int| 0 <= k < o.len() && o[k] == j; assert(n[k] == j); }»
«             if j == node_index { assert(n[o.len() as int] == j); }»
«          }»
«        }»
    }

⟦end⟧
}
⟦struct NodeGraphOrdering⟧
/// an edge between node slots
pub open spec fn slot_edge(nodes: Seq<Node>, i: int, j: int) -> bool {
    exists|k: int| 0 <= k < nodes[i].edges@.len() && #[trigger] nodes[i].edges@[k] == j
}
/// number of not yet visited slots below m with an edge to j
pub open spec fn cnt(nodes: Seq<Node>, vis: Seq<bool>, m: int, j: int) -> int
    decreases m
{
    if m <= 0 { 0 } else { cnt(nodes, vis, m - 1, j) + if !vis[m - 1] && slot_edge(nodes, m - 1, j) { 1int } else { 0 } }
}


pub proof fn cnt_bound(nodes: Seq<Node>, vis: Seq<bool>, m: int, j: int)
    ensures 0 <= cnt(nodes, vis, m, j) <= (if m <= 0 { 0 } else { m })
    decreases m
{ if m > 0 { cnt_bound(nodes, vis, m - 1, j); } }
pub proof fn cnt_zero(nodes: Seq<Node>, vis: Seq<bool>, m: int, j: int, i: int)
    requires cnt(nodes, vis, m, j) == 0, 0 <= i < m, slot_edge(nodes, i, j)
    ensures vis[i]
    decreases m
{ cnt_bound(nodes, vis, m - 1, j); if i < m - 1 { cnt_zero(nodes, vis, m - 1, j, i); } }
pub proof fn cnt_pos(nodes: Seq<Node>, vis: Seq<bool>, m: int, j: int) -> (i: int)
    requires cnt(nodes, vis, m, j) > 0
    ensures 0 <= i < m, !vis[i], slot_edge(nodes, i, j)
    decreases m
{ if !vis[m - 1] && slot_edge(nodes, m - 1, j) { m - 1 } else { cnt_pos(nodes, vis, m - 1, j) } }
pub proof fn cnt_visit(nodes: Seq<Node>, vis: Seq<bool>, m: int, j: int, i: int)
    requires 0 <= i < vis.len(), m <= vis.len(), !vis[i]
    ensures cnt(nodes, vis, m, j) == cnt(nodes, vis.update(i, true), m, j) + if i < m && slot_edge(nodes, i, j) { 1int } else { 0 }
    decreases m
{ if m > 0 { cnt_visit(nodes, vis, m - 1, j, i); } }
/// an edge among the remaining ones
pub open spec fn tail_edge(e: Seq<usize>, k: int, j: int) -> bool {
    exists|l: int| k <= l < e.len() && #[trigger] e[l] == j
}
/// an edge among the first ones
pub open spec fn head_edge(e: Seq<usize>, k: int, j: int) -> bool {
    exists|l: int| 0 <= l < k && #[trigger] e[l] == j
}
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn full_order(order: Seq<int>, n: int)
    requires order.no_duplicates(), forall|p: int| 0 <= p < order.len() ==> 0 <= #[trigger] order[p] < n, n >= 0
    ensures order.len() <= n, order.len() == n ==> forall|i: int| 0 <= i < n ==> order.contains(i),
       (forall|i: int| 0 <= i < n ==> order.contains(i)) ==> order.len() == n
{
    let s = order.to_set();
    order.unique_seq_to_set();
    vstd::set_lib::lemma_int_range(0, n);
    let r = vstd::set_lib::set_int_range(0, n);
    assert(s.subset_of(r));
    vstd::set_lib::lemma_len_subset(s, r);
    if order.len() == n {
        vstd::set_lib::lemma_subset_equality(s, r);
        assert forall|i: int| 0 <= i < n implies order.contains(i) by { assert(r.contains(i)); assert(s.contains(i)); }
    }
    if forall|i: int| 0 <= i < n ==> order.contains(i) {
        assert(r.subset_of(s));
        assert(r =~= s);
    }
}
/// every unvisited slot has an unvisited predecessor: no ranking of the slots exists
pub proof fn no_rank(nodes: Seq<Node>, vis: Seq<bool>, n: int, rank: spec_fn(int) -> nat, j: int)
    requires 0 <= j < n, !vis[j],
      forall|i: int, k: int| 0 <= i < n && 0 <= k < n && #[trigger] slot_edge(nodes, i, k) ==> rank(i) < rank(k),
      forall|k: int| 0 <= k < n && !#[trigger] vis[k] ==> cnt(nodes, vis, n, k) > 0
    ensures false
    decreases rank(j)
{
    let i = cnt_pos(nodes, vis, n, j);
    no_rank(nodes, vis, n, rank, i);
}

impl NodeGraphOrdering {
    pub open spec fn wf(&self) -> bool {
        &&& self.node_count <= self.nodes@.len()
        &&& self.nodes@.len() == self.in_degree@.len()
        &&& forall|id: NodeId| #[trigger] self.node2idx@.contains_key(id) ==>
              self.node2idx@[id] < self.node_count && self.nodes@[self.node2idx@[id] as int].node_id == id
        &&& forall|i: int| 0 <= i < self.node_count ==>
              self.node2idx@.contains_key((#[trigger] self.nodes@[i]).node_id) && self.node2idx@[self.nodes@[i].node_id] == i
        &&& forall|i: int, k: int| 0 <= i < self.node_count && 0 <= k < self.nodes@[i].edges@.len() ==>
              #[trigger] self.nodes@[i].edges@[k] < self.node_count
        &&& forall|i: int| 0 <= i < self.node_count ==> (#[trigger] self.nodes@[i]).edges@.no_duplicates()
    }
    /// the nodes of the graph
    pub open spec fn has(&self, a: NodeId) -> bool { self.node2idx@.contains_key(a) }
    /// the edges of the graph
    pub open spec fn edge(&self, a: NodeId, b: NodeId) -> bool {
        self.has(a) && self.has(b) && slot_edge(self.nodes@, self.node2idx@[a] as int, self.node2idx@[b] as int)
    }

⟦fn NodeGraphOrdering::new⟧
    fn new() -> «(r:»Self«)»
«       ensures r.wf(), forall|a: NodeId| !r.has(a)»
    {
        Self {
            node2idx: HashMap::new(),
            node_count: 0,
            nodes: vec![Node::new(); 256],
            in_degree: vec![0; 256],
        }
    }
⟦end⟧
⟦fn NodeGraphOrdering::clear⟧
    fn clear(&mut self)
«       requires old(self).wf()»
«       ensures final(self).wf(), forall|a: NodeId| !final(self).has(a)»
    {
        self.node2idx.clear();
        self.node_count = 0;
    }
⟦end⟧
⟦fn NodeGraphOrdering::add_node⟧
    fn add_node(&mut self, node_id: NodeId) -> «(r:»usize«)»
«       requires old(self).wf(), old(self).node_count < usize::MAX»
«       ensures final(self).wf(), final(self).has(node_id), final(self).node2idx@[node_id] == r,»
«         forall|a: NodeId| final(self).has(a) <==> (old(self).has(a) || a == node_id),»
«         forall|a: NodeId, b: NodeId| final(self).edge(a, b) <==> old(self).edge(a, b),»
«         final(self).node_count <= old(self).node_count + 1,»
«         forall|a: NodeId| old(self).has(a) ==> final(self).node2idx@[a] == old(self).node2idx@[a],»
    {
        if let Some(idx) = self.node2idx.get(&node_id) {
            *idx
        } else {
            let idx = self.node_count;
            self.node_count += 1;

            if self.nodes.len() < self.node_count {
                self.nodes.resize(self.node_count, Node::new());
                self.in_degree.resize(self.node_count, 0);
            }

            self.nodes[idx].clear();
            self.nodes[idx].node_id = node_id;
            self.node2idx.insert(node_id, idx);
«  proof {»
«   assert(self.node_count <= self.nodes@.len());»
«   assert(self.nodes@.len() == self.in_degree@.len());»
«   assert forall|i: int| 0 <= i < idx implies self.nodes@[i] == old(self).nodes@[i] by {}»
«   assert forall|id: NodeId| #[trigger] self.node2idx@.contains_key(id) implies»
«              self.node2idx@[id] < self.node_count && self.nodes@[self.node2idx@[id] as int].node_id == id by {}»
«   assert forall|i: int| 0 <= i < self.node_count implies»
«              self.node2idx@.contains_key((#[trigger] self.nodes@[i]).node_id) && self.node2idx@[self.nodes@[i].node_id] == i by {}»
«   assert forall|i: int, k: int| 0 <= i < self.node_count && 0 <= k < self.nodes@[i].edges@.len() implies»
«              #[trigger] self.nodes@[i].edges@[k] < self.node_count by {}»
«   assert(self.wf());»
«}»
            idx
        }
    }
⟦end⟧
⟦fn NodeGraphOrdering::get_node⟧
    fn get_node(&self, node_id: NodeId) -> «(r:»Option<&Node>«)»
«      requires self.wf()»
«      ensures match r { Some(n) => self.has(node_id) && *n == self.nodes@[self.node2idx@[node_id] as int], None => !self.has(node_id) }»
    {
        let idx = *self.node2idx.get(&node_id)?;
        Some(&self.nodes[idx])
    }

⟦end⟧
⟦fn NodeGraphOrdering::get_node_mut⟧
    fn get_node_mut(&mut self, node_id: NodeId) -> «(r:»Option<&mut Node>«)»
«      requires old(self).wf()»
«      ensures match r { »
«         Some(n) => { let i = old(self).node2idx@[node_id] as int;»
«            old(self).has(node_id) && *n == old(self).nodes@[i] && final(self).nodes@ == old(self).nodes@.update(i, *final(n)) },»
«         None => !old(self).has(node_id) && final(self).nodes@ == old(self).nodes@ },»
«       final(self).node2idx == old(self).node2idx, final(self).node_count == old(self).node_count, final(self).in_degree == old(self).in_degree,»
    {
        let idx = *self.node2idx.get(&node_id)?;
        Some(&mut self.nodes[idx])
    }

⟦end⟧
⟦fn NodeGraphOrdering::add_edge⟧
    fn add_edge(&mut self, from_node_id: NodeId, to_node_id: NodeId)
«       requires old(self).wf(), old(self).node_count < usize::MAX»
«       ensures final(self).wf(), final(self).has(to_node_id),»
«         forall|a: NodeId| final(self).has(a) <==> (old(self).has(a) || a == to_node_id),»
«         forall|a: NodeId, b: NodeId| final(self).edge(a, b) <==> (old(self).edge(a, b) || a == from_node_id && b == to_node_id && (old(self).has(a) || a == to_node_id)),»
    {
        let to_idx = self.add_node(to_node_id);
«        let ghost g1 = *self;»

        if let Some(from_node) = self.get_node_mut(from_node_id) {
            from_node.add_edge(to_idx);
        }
«        proof {»
«            if g1.has(from_node_id) {»
«                let i = g1.node2idx@[from_node_id] as int;»
«                let e0 = g1.nodes@[i].edges@; let e1 = self.nodes@[i].edges@;»
«                assert forall|k: int| 0 <= k < e1.len() implies #[trigger] e1[k] < self.node_count by {»
«                    assert(e1.contains(e1[k]));»
«                    if e0.contains(e1[k]) { let l = choose|l: int| 0 <= l < e0.len() && e0[l] == e1[k]; assert(g1.nodes@[i].edges@[l] == e1[k]); }»
«                }»
«                assert forall|a: int, k: int| 0 <= a < self.node_count && 0 <= k < self.nodes@[a].edges@.len() implies»
«                    #[trigger] self.nodes@[a].edges@[k] < self.node_count by { if a != i { assert(self.nodes@[a] == g1.nodes@[a]); assert(g1.nodes@[a].edges@[k] < g1.node_count); } }»
«                assert forall|a: int| 0 <= a < self.node_count implies (#[trigger] self.nodes@[a]).edges@.no_duplicates() by { if a != i { assert(self.nodes@[a] == g1.nodes@[a]); } }»
«                assert(self.wf());»
«                assert forall|a: NodeId, b: NodeId| self.edge(a, b) <==> (g1.edge(a, b) || a == from_node_id && b == to_node_id && g1.has(a)) by {»
«                    if g1.has(a) && g1.has(b) {»
«                        let x = g1.node2idx@[a] as int; let y = g1.node2idx@[b];»
«                        edge_contains(g1.nodes@, x, y);»
«                        edge_contains(self.nodes@, x, y);»
«                        assert(g1.nodes@[g1.node2idx@[a] as int].node_id == a);»
«                        assert(g1.nodes@[g1.node2idx@[b] as int].node_id == b);»
«                    }»
«                }»
«            } else {»
«                assert(self.nodes@ == g1.nodes@ && self.node2idx@ == g1.node2idx@);»
«                assert forall|a: NodeId, b: NodeId| self.edge(a, b) <==> g1.edge(a, b) by {}»
«            }»
«            assert forall|a: NodeId, b: NodeId| self.edge(a, b) <==> (old(self).edge(a, b) || a == from_node_id && b == to_node_id && (old(self).has(a) || a == to_node_id)) by {»
«                assert(g1.edge(a, b) <==> old(self).edge(a, b));»
«                assert(g1.has(a) <==> (old(self).has(a) || a == to_node_id));»
«            }»
«        }»
    }
⟦end⟧
⟦fn NodeGraphOrdering::has_path⟧
    fn has_path(&self, from_node_id: NodeId, to_node_id: NodeId) -> «(r:»Option<bool>«)»
«      requires self.wf()»
«      ensures match r { Some(b) => b == reach(*self, from_node_id, to_node_id), None => true }»
    {
        let mut visited_set: HashSet<NodeId> = HashSet::with_capacity(self.node_count);

        let mut node_stack = Vec::with_capacity(self.node_count);
        node_stack.push(from_node_id);

«        let ghost mut st = node_stack@;»
«        let ghost all = self.node2idx@.dom().insert(from_node_id);»
«        proof { let w = seq![from_node_id]; assert(walk(*self, w)); assert(node_stack@[0] == from_node_id); }»
        while let Some(node_id) = node_stack.pop() 
«          invariant self.wf(), st == node_stack@, all == self.node2idx@.dom().insert(from_node_id),»
«            visited_set@.subset_of(all),»
«            forall|q: int| 0 <= q < st.len() ==> reach(*self, from_node_id, #[trigger] st[q]) && all.contains(st[q]),»
«            visited_set@.contains(from_node_id) || st.contains(from_node_id),»
«            !visited_set@.contains(to_node_id),»
«            forall|a: NodeId, b: NodeId| #[trigger] self.edge(a, b) && visited_set@.contains(a) ==> visited_set@.contains(b) || st.contains(b),»
«          ensures node_stack@.len() == 0»
«          decreases all.len() - visited_set@.len()»
        {
«            let ghost st0 = st; let ghost vis0 = visited_set@;»
«            proof {»
«                assert(st0[st0.len() - 1] == node_id);»
«                assert(st0.drop_last() == node_stack@);»
«                assert forall|b: NodeId| st0.contains(b) implies b == node_id || node_stack@.contains(b) by {»
«                    let q = choose|q: int| 0 <= q < st0.len() && st0[q] == b;»
«                    if q < st0.len() - 1 { assert(node_stack@[q] == b); }»
«                }»
«                assert(vis0.insert(node_id).subset_of(all));»
«                vstd::set_lib::lemma_len_subset(vis0.insert(node_id), all);»
«            }»
            if visited_set.contains(&node_id) {
                return None;
            } else {
                visited_set.insert(node_id);
            }

            if node_id == to_node_id {
                return Some(true);
            }

            if let Some(node) = self.get_node(node_id) {
                for node_idx in «it2:» node.edges.iter()
«                  invariant self.wf(), all == self.node2idx@.dom().insert(from_node_id),»
«                    self.has(node_id), *node == self.nodes@[self.node2idx@[node_id] as int],»
«                    reach(*self, from_node_id, node_id),»
«                    it2.seq().len() == node.edges@.len(),»
«                    forall|k: int| 0 <= k < it2.seq().len() ==> *#[trigger] it2.seq()[k] == node.edges@[k],»
«                    forall|q: int| 0 <= q < node_stack@.len() ==> reach(*self, from_node_id, #[trigger] node_stack@[q]) && all.contains(node_stack@[q]),»
«                    forall|b: NodeId| st0.contains(b) && b != node_id ==> #[trigger] node_stack@.contains(b),»
«                    forall|k: int| 0 <= k < it2.index@ ==> node_stack@.contains(self.nodes@[#[trigger] node.edges@[k] as int].node_id),»
                {
«                    let ghost s0 = node_stack@;»
«                    proof {»
«                        let i = self.node2idx@[node_id] as int; let k = it2.index@;»
«                        let j = node.edges@[k] as int;»
«                        assert(*node_idx == j); assert(self.nodes@[i].edges@[k] == j);»
«                        let b = self.nodes@[j].node_id;»
«                        assert(slot_edge(self.nodes@, i, j));»
«                        assert(self.edge(node_id, b));»
«                        let w = choose|w: Seq<NodeId>| w.len() > 0 && #[trigger] walk(*self, w) && w[0] == from_node_id && w[w.len() - 1] == node_id;»
«                        let w2 = w.push(b);»
«                        assert forall|k: int| 0 <= k < w2.len() - 1 implies #[trigger] self.edge(w2[k], w2[k + 1]) by {»
«                            if k < w.len() - 1 { assert(self.edge(w[k], w[k + 1])); }»
«                        }»
«                        assert(walk(*self, w2));»
«                        assert(reach(*self, from_node_id, b));»
«                    }»
                    node_stack.push(self.nodes[*node_idx].node_id);
«                    proof {»
«                        assert(node_stack@[s0.len() as int] == self.nodes@[*node_idx as int].node_id);»
«                        assert forall|b: NodeId| s0.contains(b) implies #[trigger] node_stack@.contains(b) by { let q = choose|q: int| 0 <= q < s0.len() && s0[q] == b; assert(node_stack@[q] == b); }»
«                    }»
                }
            }
«            proof {»
«                st = node_stack@;»
«                assert forall|a: NodeId, b: NodeId| #[trigger] self.edge(a, b) && visited_set@.contains(a) implies visited_set@.contains(b) || st.contains(b) by {»
«                    if a == node_id {»
«                        let i = self.node2idx@[a] as int; let j = self.node2idx@[b] as int;»
«                        let k = choose|k: int| 0 <= k < self.nodes@[i].edges@.len() && #[trigger] self.nodes@[i].edges@[k] == j;»
«                        assert(self.nodes@[j].node_id == b);»
«                    }»
«                }»
«            }»
        }
«        proof {»
«            if reach(*self, from_node_id, to_node_id) {»
«                let w = choose|w: Seq<NodeId>| w.len() > 0 && #[trigger] walk(*self, w) && w[0] == from_node_id && w[w.len() - 1] == to_node_id;»
«                closed_walk(*self, visited_set@, w, w.len() - 1);»
«            }»
«        }»

        return Some(false);
    }
⟦end⟧
⟦fn NodeGraphOrdering::calculate_order⟧
    fn calculate_order(&mut self, out: &mut Vec<NodeId>) -> «(r:»bool«)»
«      requires old(self).wf()»
«      ensures final(self).wf(),»
«        forall|a: NodeId| final(self).has(a) <==> old(self).has(a),»
«        forall|a: NodeId, b: NodeId| final(self).edge(a, b) <==> old(self).edge(a, b),»
«        r ==> is_order(*old(self), final(out)@.skip(old(out)@.len() as int)) && final(out)@.take(old(out)@.len() as int) == old(out)@,»
«        !r ==> final(out)@.len() == 0 && forall|rank: spec_fn(NodeId) -> nat| !#[trigger] ranked(*old(self), rank)»
    {
        let mut deq = std::collections::VecDeque::<usize>::with_capacity(self.node_count);
«        let ghost nodes = self.nodes@; let ghost n = self.node_count as int;»
«        let ghost none = Seq::new(n as nat, |i: int| false);»

        for indeg in «it1:» self.in_degree.iter_mut() 
«          invariant it1.seq().len() == self.nodes@.len(), forall|i: int| 0 <= i < it1.index@ ==> *final(it1.seq()[i]) == 0,»
        {
            *indeg = 0;
        }
«        assert(forall|j: int| 0 <= j < n ==> self.in_degree@[j] == cnt(nodes, none, 0, j));»

        // Calculate the number of inputs for each node:
        for node in «it2:» self.nodes.iter().take(self.node_count) 
«          invariant none == Seq::new(n as nat, |i: int| false), it2.seq().len() == self.node_count, self.wf(), self.nodes@ == nodes, n == self.node_count, old(self).node2idx == self.node2idx, old(self).node_count == n,»
«            forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == nodes[i],»
«            forall|j: int| 0 <= j < n ==> self.in_degree@[j] == cnt(nodes, none, it2.index@, j),»
        {
«            let ghost i = it2.index@;»
            for out_node_idx in «it3:» node.edges.iter() 
«              invariant self.wf(), self.nodes@ == nodes, n == self.node_count, old(self).node2idx == self.node2idx, old(self).node_count == n,»
«                node == nodes[i], 0 <= i < n, it3.seq().len() == node.edges@.len(),»
«                forall|k: int| 0 <= k < it3.seq().len() ==> *#[trigger] it3.seq()[k] == node.edges@[k],»
«                forall|j: int| 0 <= j < n ==> self.in_degree@[j] == cnt(nodes, none, i, j) + b2i(head_edge(node.edges@, it3.index@, j)),»
            {
«                proof { »
«                  let k = it3.index@;»
«                  assert(node.edges@[k] == *out_node_idx); assert(nodes[i].edges@[k] == *out_node_idx);»
«                  cnt_bound(nodes, none, i, *out_node_idx as int);»
«                  assert(!head_edge(node.edges@, k, *out_node_idx as int)) by {»
«                      assert(nodes[i].edges@.no_duplicates());»
«                  }»
«                  assert forall|j: int| 0 <= j < n implies #[trigger] head_edge(node.edges@, k + 1, j) == (head_edge(node.edges@, k, j) || j == *out_node_idx) by { »
«                      if head_edge(node.edges@, k, j) { let l = choose|l: int| 0 <= l < k && #[trigger] node.edges@[l] == j; assert(node.edges@[l] == j && 0 <= l < k + 1); }»
«                      if j == *out_node_idx { assert(node.edges@[k] == j); }»
«                  }»
«                }»
                self.in_degree[*out_node_idx] += 1;
            }
«            proof {»
«              assert forall|j: int| 0 <= j < n implies #[trigger] self.in_degree@[j] == cnt(nodes, none, i + 1, j) by {»
«                 assert(head_edge(node.edges@, node.edges@.len() as int, j) == slot_edge(nodes, i, j));»
«              }»
«            }»
        }

        // Find the "input" nodes by looking at the nodes without any input. These
        // are the first that must be executed!
        for idx in «it4:» 0..self.node_count 
«          invariant self.wf(), self.nodes@ == nodes, n == self.node_count, old(self).node2idx == self.node2idx, old(self).node_count == n,»
«            forall|j: int| 0 <= j < n ==> self.in_degree@[j] == cnt(nodes, none, n, j),»
«            deq@.no_duplicates(),»
«            forall|q: int| 0 <= q < deq@.len() ==> #[trigger] deq@[q] < idx && self.in_degree@[deq@[q] as int] == 0,»
«            forall|j: int| 0 <= j < idx && #[trigger] self.in_degree@[j] == 0 ==> deq@.contains(j as usize),»
        {
«            let ghost d0 = deq@;»
            if self.in_degree[idx] == 0 {
                deq.push_back(idx);
            }
«            proof {»
«              assert forall|j: int| 0 <= j < idx + 1 && #[trigger] self.in_degree@[j] == 0 implies deq@.contains(j as usize) by { »
«                 if j < idx { let q = choose|q: int| 0 <= q < d0.len() && d0[q] == j; assert(deq@[q] == j); } else { assert(deq@[d0.len() as int] == j); }»
«              }»
«            }»
        }

        // Track visit count for cycle detection:
        let mut visited_count = 0;
«        let ghost mut dq = deq@; let ghost mut vis = none; let ghost mut order = Seq::<int>::empty();»

        while let Some(node_idx) = deq.pop_front() 
«          invariant self.wf(), self.nodes@ == nodes, n == self.node_count, old(self).node2idx == self.node2idx, old(self).node_count == n,»
«            dq == deq@, vis.len() == n, visited_count == order.len(), order.no_duplicates(),»
«            out@.len() == old(out)@.len() + order.len(),»
«            out@.take(old(out)@.len() as int) == old(out)@,»
«            forall|p: int| 0 <= p < order.len() ==> 0 <= #[trigger] order[p] < n && vis[order[p]] && out@[old(out)@.len() + p] == nodes[order[p]].node_id,»
«            forall|i: int| 0 <= i < n && #[trigger] vis[i] ==> order.contains(i),»
«            preds_first(nodes, n, order),»
«            forall|j: int| 0 <= j < n ==> #[trigger] self.in_degree@[j] == cnt(nodes, vis, n, j),»
«            forall|j: int| 0 <= j < n && #[trigger] vis[j] ==> self.in_degree@[j] == 0,»
«            deq@.no_duplicates(),»
«            forall|q: int| 0 <= q < deq@.len() ==> #[trigger] deq@[q] < n && self.in_degree@[deq@[q] as int] == 0 && !vis[deq@[q] as int],»
«            forall|j: int| 0 <= j < n && #[trigger] self.in_degree@[j] == 0 ==> vis[j] || deq@.contains(j as usize),»
«          ensures deq@.len() == 0»
«          decreases n - order.len()»
        {
«            let ghost vis0 = vis; let ghost order0 = order;»
«            proof {»
«                let x = node_idx as int;»
«                assert forall|j: usize| dq.contains(j) implies j == x || #[trigger] deq@.contains(j) by {»
«                    let q = choose|q: int| 0 <= q < dq.len() && dq[q] == j;»
«                    if q > 0 { assert(deq@[q - 1] == j); }»
«                }»
«                assert(dq[0] == x);»
«                assert forall|q: int| 0 <= q < deq@.len() implies #[trigger] deq@[q] != x && deq@[q] == dq[q + 1] by {}»
«                assert(!vis[x] && self.in_degree@[x] == 0 && x < n);»
«                full_order(order, n);»
«                vis = vis0.update(x, true);»
«                order = order0.push(x);»
«                assert forall|j: int| 0 <= j < n implies #[trigger] self.in_degree@[j] == cnt(nodes, vis, n, j) + b2i(tail_edge(nodes[x].edges@, 0, j)) by {»
«                    cnt_visit(nodes, vis0, n, j, x);»
«                    assert(tail_edge(nodes[x].edges@, 0, j) == slot_edge(nodes, x, j));»
«                }»
«                assert forall|p: int, i: int| 0 <= p < order.len() && 0 <= i < n && #[trigger] slot_edge(nodes, i, order[p]) implies exists|q: int| 0 <= q < p && order[q] == i by {»
«                    if p == order0.len() {»
«                        cnt_zero(nodes, vis0, n, x, i);»
«                        let q = choose|q: int| 0 <= q < order0.len() && order0[q] == i;»
«                        assert(order[q] == i);»
«                    } else {»
«                        assert(slot_edge(nodes, i, order0[p]));»
«                        let q = choose|q: int| 0 <= q < p && order0[q] == i;»
«                        assert(order[q] == i);»
«                    }»
«                }»
«                full_order(order, n);»
«                assert forall|i: int| 0 <= i < n && #[trigger] vis[i] implies order.contains(i) by {»
«                    if i == x { assert(order[order0.len() as int] == x); } else { assert(vis0[i]); let q = choose|q: int| 0 <= q < order0.len() && order0[q] == i; assert(order[q] == i); }»
«                }»
«            }»
            visited_count += 1;

            let node = &self.nodes[node_idx];

            out.push(node.node_id);
«            assert(out@.take(old(out)@.len() as int) =~= old(out)@);»

            // Push the nodes we output to, to the end of the dequeue:
            for neigh_node_idx in «it6:» node.edges.iter()
«              invariant self.wf(), self.nodes@ == nodes, n == self.node_count, old(self).node2idx == self.node2idx, old(self).node_count == n,»
«                vis.len() == n, *node == nodes[node_idx as int], node_idx < n, vis[node_idx as int], it6.seq().len() == node.edges@.len(),»
«                forall|k: int| 0 <= k < it6.seq().len() ==> *#[trigger] it6.seq()[k] == node.edges@[k],»
«                forall|j: int| 0 <= j < n ==> #[trigger] self.in_degree@[j] == cnt(nodes, vis, n, j) + b2i(tail_edge(node.edges@, it6.index@, j)),»
«                forall|j: int| 0 <= j < n && #[trigger] vis[j] ==> self.in_degree@[j] == 0,»
«                deq@.no_duplicates(),»
«                forall|q: int| 0 <= q < deq@.len() ==> #[trigger] deq@[q] < n && self.in_degree@[deq@[q] as int] == 0 && !vis[deq@[q] as int],»
«                forall|j: int| 0 <= j < n && #[trigger] self.in_degree@[j] == 0 ==> vis[j] || deq@.contains(j as usize),»
            {
«                let ghost d0 = deq@; let ghost k = it6.index@; let ghost deg0 = self.in_degree@;»
«                proof {»
«                    let x = *neigh_node_idx as int;»
«                    assert(node.edges@[k] == x); assert(nodes[node_idx as int].edges@[k] == x);»
«                    assert(tail_edge(node.edges@, k, x));»
«                    cnt_bound(nodes, vis, n, x);»
«                    assert(self.in_degree@[x] >= 1);»
«                    assert(nodes[node_idx as int].edges@.no_duplicates());»
«                    assert forall|j: int| 0 <= j < n implies #[trigger] tail_edge(node.edges@, k, j) == (tail_edge(node.edges@, k + 1, j) || j == x) by {}»
«                    assert(!tail_edge(node.edges@, k + 1, x));»
«                }»
                // by reducing the input count of the to be visited node:
                self.in_degree[*neigh_node_idx] -= 1;

                // we know when that node has been fully supplied with all it's inputs,
                // so we push it to the end of the dequeue to be executed then:
                if self.in_degree[*neigh_node_idx] == 0 {
                    deq.push_back(*neigh_node_idx);
                }
«                proof {»
«                    let x = *neigh_node_idx as int;»
«                    assert(!d0.contains(x as usize));»
«                    assert forall|j: int| 0 <= j < n && #[trigger] self.in_degree@[j] == 0 implies vis[j] || deq@.contains(j as usize) by {»
«                        if j == x { assert(deq@[d0.len() as int] == x); }»
«                        else { assert(deg0[j] == 0); if !vis[j] { let q = choose|q: int| 0 <= q < d0.len() && d0[q] == j; assert(deq@[q] == j); } }»
«                    }»
«                }»
            }
«            proof {»
«                assert forall|j: int| 0 <= j < n implies #[trigger] self.in_degree@[j] == cnt(nodes, vis, n, j) by {»
«                    assert(!tail_edge(node.edges@, node.edges@.len() as int, j));»
«                }»
«                dq = deq@;»
«            }»
        }
«        proof {»
«            full_order(order, n);»
«            let base = old(out)@.len() as int;»
«            let s = out@.skip(base);»
«            assert(s.len() == order.len());»
«            assert forall|p: int| 0 <= p < order.len() implies #[trigger] s[p] == nodes[order[p]].node_id by {}»
«            if visited_count == n {»
«                assert forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && s[p] == s[q] implies p == q by {»
«                    assert(self.node2idx@[nodes[order[p]].node_id] == order[p]);»
«                    assert(self.node2idx@[nodes[order[q]].node_id] == order[q]);»
«                }»
«                assert forall|a: NodeId| old(self).has(a) <==> s.contains(a) by {»
«                    if old(self).has(a) {»
«                        let i = self.node2idx@[a] as int;»
«                        assert(order.contains(i));»
«                        let p = choose|p: int| 0 <= p < order.len() && order[p] == i;»
«                        assert(s[p] == a);»
«                    }»
«                    if s.contains(a) { let p = choose|p: int| 0 <= p < s.len() && s[p] == a; assert(nodes[order[p]].node_id == a); }»
«                }»
«                assert forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && #[trigger] old(self).edge(s[p], s[q]) implies p < q by {»
«                    assert(self.node2idx@[nodes[order[p]].node_id] == order[p]);»
«                    assert(self.node2idx@[nodes[order[q]].node_id] == order[q]);»
«                    assert(slot_edge(nodes, order[p], order[q]));»
«                    let r = choose|r: int| 0 <= r < q && order[r] == order[p];»
«                    assert(r == p);»
«                }»
«            } else {»
«                if forall|j: int| 0 <= j < n ==> #[trigger] vis[j] {»
«                    assert forall|i: int| 0 <= i < n implies order.contains(i) by { assert(vis[i]); }»
«                }»
«                let j = choose|j: int| 0 <= j < n && !vis[j];»
«                assert forall|k: int| 0 <= k < n && !#[trigger] vis[k] implies cnt(nodes, vis, n, k) > 0 by { cnt_bound(nodes, vis, n, k); assert(self.in_degree@[k] != 0); }»
«                assert forall|rank: spec_fn(NodeId) -> nat| !#[trigger] ranked(*old(self), rank) by {»
«                    if ranked(*old(self), rank) {»
«                        let sr = |i: int| rank(nodes[i].node_id);»
«                        assert forall|i: int, k: int| 0 <= i < n && 0 <= k < n && #[trigger] slot_edge(nodes, i, k) implies sr(i) < sr(k) by {»
«                            assert(self.node2idx@[nodes[i].node_id] == i);»
«                            assert(self.node2idx@[nodes[k].node_id] == k);»
«                            assert(old(self).edge(nodes[i].node_id, nodes[k].node_id));»
«                        }»
«                        no_rank(nodes, vis, n, sr, j);»
«                    }»
«                }»
«            }»
«        }»

        if visited_count != self.node_count {
            out.clear();
            false
        } else {
            true
        }
    }
⟦end⟧
}
/// every predecessor of a slot of the order comes before it
pub open spec fn preds_first(nodes: Seq<Node>, n: int, order: Seq<int>) -> bool {
    forall|p: int, i: int| 0 <= p < order.len() && 0 <= i < n && #[trigger] slot_edge(nodes, i, order[p]) ==> exists|q: int| 0 <= q < p && order[q] == i
}
/// a sequence of nodes along the edges
pub open spec fn walk(g: NodeGraphOrdering, w: Seq<NodeId>) -> bool {
    forall|k: int| 0 <= k < w.len() - 1 ==> #[trigger] g.edge(w[k], w[k + 1])
}
pub open spec fn reach(g: NodeGraphOrdering, a: NodeId, b: NodeId) -> bool {
    exists|w: Seq<NodeId>| w.len() > 0 && #[trigger] walk(g, w) && w[0] == a && w[w.len() - 1] == b
}
pub proof fn closed_walk(g: NodeGraphOrdering, vis: Set<NodeId>, w: Seq<NodeId>, k: int)
    requires 0 <= k < w.len(), walk(g, w), vis.contains(w[0]), forall|a: NodeId, b: NodeId| #[trigger] g.edge(a, b) && vis.contains(a) ==> vis.contains(b)
    ensures vis.contains(w[k])
    decreases k
{ if k > 0 { closed_walk(g, vis, w, k - 1); assert(g.edge(w[k - 1], w[k - 1 + 1])); } }
pub proof fn edge_contains(nodes: Seq<Node>, i: int, j: usize)
    ensures slot_edge(nodes, i, j as int) == nodes[i].edges@.contains(j)
{
    if nodes[i].edges@.contains(j) { let k = choose|k: int| 0 <= k < nodes[i].edges@.len() && nodes[i].edges@[k] == j; assert(nodes[i].edges@[k] == j); }
}
/// every node of the graph exactly once, every edge points forward
pub open spec fn is_order(g: NodeGraphOrdering, s: Seq<NodeId>) -> bool {
    &&& s.no_duplicates()
    &&& forall|a: NodeId| g.has(a) <==> s.contains(a)
    &&& forall|p: int, q: int| 0 <= p < s.len() && 0 <= q < s.len() && #[trigger] g.edge(s[p], s[q]) ==> p < q
}
/// a ranking of the nodes with every edge pointing to a higher rank
pub open spec fn ranked(g: NodeGraphOrdering, rank: spec_fn(NodeId) -> nat) -> bool {
    forall|a: NodeId, b: NodeId| #[trigger] g.edge(a, b) ==> rank(a) < rank(b)
}
fn main() {}
}
