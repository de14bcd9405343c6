//! Shared helpers of the harnesses.
#![allow(dead_code, unused_imports)]
use crate::sym::*;
use hexodsp::nodes::NodeOp;
use hexodsp::NodeId;

#[derive(Debug, Clone)]
pub struct Layout {
    pub idx: usize,
    pub out: (usize, usize),
    pub inp: (usize, usize),
    pub at: (usize, usize),
    pub md: (usize, usize),
}

impl Layout {
    pub fn of(op: &NodeOp) -> Layout {
        Layout { idx: op.idx as usize, out: op.out_idxlen, inp: op.in_idxlen, at: op.at_idxlen, md: op.mod_idxlen }
    }
}

/// Some pairwise different nodes.
#[cfg(not(kani))]
pub fn random_nodes(min: usize, max: usize) -> Vec<NodeId> {
    let n = usize_in(min, max);
    let all = hexodsp::dsp::ALL_NODE_IDS;
    let mut v: Vec<NodeId> = vec![];
    while v.len() < n {
        // nodes that start threads or big allocations are rare
        let id = all[usize_in(0, all.len() - 1)];
        let name = id.name();
        if (name == "pverb" || name == "code" || name == "scope") && any::<u8>() % 8 != 0 {
            continue;
        }
        let id = id.to_instance(usize_in(0, 6));
        if !v.contains(&id) {
            v.push(id);
        }
    }
    v
}

/// A cell with random ports out of `kinds` different nodes.
#[cfg(not(kani))]
pub fn random_cell(kinds: usize) -> hexodsp::Cell {
    use hexodsp::*;
    let k = usize_in(0, kinds);
    if k == kinds && any::<bool>() {
        return Cell::empty(NodeId::Nop);
    }
    let ids = [NodeId::Amp(0), NodeId::Mix3(0), NodeId::Sin(0), NodeId::Mux9(1), NodeId::Out(0), NodeId::Amp(1), NodeId::MidiP(0), NodeId::Sin(2)];
    let id = ids[k % ids.len()];
    let i = NodeInfo::from_node_id(id);
    let p = |n: usize| if n == 0 || any::<u8>() % 3 == 0 { None } else { Some(usize_in(0, n - 1) as u8) };
    Cell::empty(id)
        .input(p(i.in_count()), p(i.in_count()), p(i.in_count()))
        .out(p(i.out_count()), p(i.out_count()), p(i.out_count()))
}

/// (nodes in the matrix, (from, output, to, input)) by the hexagonal geometry: an edge
/// exists where an output edge of a cell meets an input edge of its neighbour.
#[cfg(not(kani))]
pub fn matrix_edges(m: &hexodsp::Matrix) -> (Vec<NodeId>, Vec<(NodeId, u8, NodeId, u8)>) {
    use hexodsp::*;
    let (w, h) = m.size();
    let (mut nodes, mut edges) = (vec![], vec![]);
    for x in 0..w {
        for y in 0..h {
            let c = m.get_copy(x, y).unwrap();
            if c.node_id() == NodeId::Nop {
                continue;
            }
            if !nodes.contains(&c.node_id()) {
                nodes.push(c.node_id());
            }
            let down = if x % 2 == 0 { (y as i64 - 1, y as i64) } else { (y as i64, y as i64 + 1) };
            for (d, nx, ny, back) in [
                (CellDir::TR, x as i64 + 1, down.0, CellDir::BL),
                (CellDir::BR, x as i64 + 1, down.1, CellDir::TL),
                (CellDir::B, x as i64, y as i64 + 1, CellDir::T),
            ] {
                if nx < 0 || ny < 0 || nx as usize >= w || ny as usize >= h {
                    continue;
                }
                let o = m.get_copy(nx as usize, ny as usize).unwrap();
                if o.node_id() == NodeId::Nop {
                    continue;
                }
                if let (Some(a), Some(b)) = (c.local_port_idx(d), o.local_port_idx(back)) {
                    edges.push((c.node_id(), a, o.node_id(), b));
                }
            }
        }
    }
    (nodes, edges)
}
