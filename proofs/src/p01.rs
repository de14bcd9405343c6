//! P01: nodes run after the nodes they get their input from; cyclic graphs are rejected.
//! The unbounded proof of the ordering is in /verif/verus/P01.py (Verus on the extracted
//! functions), here are the runs of the real code: failing input search and matrix level.
use crate::harnesses;
#[cfg(not(kani))]
use crate::sym::*;

harnesses! {
    bounded order_small (20000) { order_case(6); }
    bounded order_large (300) { order_case(300); }
    bounded matrix_order (300) { matrix_case(); }
}

#[cfg(not(kani))]
fn node(k: usize) -> hexodsp::NodeId {
    let all = hexodsp::dsp::ALL_NODE_IDS;
    all[k % all.len()].to_instance(k / all.len())
}

/// Reference: the set of reachable nodes (at least one edge).
#[cfg(not(kani))]
fn reach_from(n: usize, edges: &[(usize, usize)], s: usize) -> Vec<bool> {
    let mut adj = vec![vec![]; n];
    for (a, b) in edges {
        adj[*a].push(*b);
    }
    let (mut seen, mut st) = (vec![false; n], adj[s].clone());
    while let Some(x) = st.pop() {
        if !seen[x] {
            seen[x] = true;
            st.extend(adj[x].iter());
        }
    }
    seen
}

/// Every node that is reachable from s is reached by exactly one walk.
#[cfg(not(kani))]
fn single_walks(n: usize, edges: &[(usize, usize)], s: usize) -> bool {
    let mut e = edges.to_vec();
    e.sort();
    e.dedup();
    let mut met = vec![0; n];
    let mut st = vec![s];
    while let Some(x) = st.pop() {
        met[x] += 1;
        if met[x] > 1 {
            return false;
        }
        st.extend(e.iter().filter(|p| p.0 == x).map(|p| p.1));
    }
    true
}

#[cfg(not(kani))]
fn cyclic(n: usize, edges: &[(usize, usize)]) -> bool {
    // repeatedly remove nodes without remaining inputs
    let mut alive = vec![true; n];
    loop {
        let mut inp = vec![false; n];
        for (a, b) in edges {
            if alive[*a] && alive[*b] {
                inp[*b] = true;
            }
        }
        let mut hit = false;
        for k in 0..n {
            if alive[k] && !inp[k] {
                alive[k] = false;
                hit = true;
            }
        }
        if !hit {
            return alive.iter().any(|a| *a);
        }
    }
}

#[cfg(not(kani))]
fn order_case(max: usize) {
    use hexodsp::nodes::NodeGraphOrdering;
    let mut ng = NodeGraphOrdering::new();
    // the structure is reused: what was there before must not matter
    for round in 0..usize_in(1, 3) {
        if round > 0 {
            ng.clear();
        }
        let n = usize_in(1, max);
        let perm: Vec<usize> = (0..n).map(|k| (k * 7 + round) % 313 + 313 * (k % 3)).collect();
        let ids: Vec<hexodsp::NodeId> = perm.iter().enumerate().map(|(k, p)| node(if max > 10 { k + (p - p) } else { *p })).collect();
        for k in 0..n {
            if ids[..k].contains(&ids[k]) {
                return;
            }
        }
        for id in &ids {
            let i = ng.add_node(*id);
            assert!(ng.add_node(*id) == i, "adding a node twice");
        }
        let mut edges: Vec<(usize, usize)> = vec![];
        let hub = any::<u8>() % 4 == 0;
        let dag = any::<u8>() % 3 != 0;
        for _ in 0..usize_in(0, 2 * n) {
            let (mut a, mut b) = (usize_in(0, n - 1), usize_in(0, n - 1));
            if hub {
                a = 0;
            }
            if dag {
                if a == b {
                    continue;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            for _ in 0..usize_in(1, 2) {
                ng.add_edge(ids[a], ids[b]);
            }
            edges.push((a, b));
        }
        // an edge may introduce its target
        let mut ids = ids;
        if any::<u8>() % 4 == 0 {
            let x = hexodsp::NodeId::Out(200);
            ng.add_edge(ids[0], x);
            edges.push((0, ids.len()));
            ids.push(x);
        }
        let n = ids.len();
        for _ in 0..3 {
            let (a, b) = (usize_in(0, n - 1), usize_in(0, n - 1));
            let got = ng.has_path(ids[a], ids[b]);
            if single_walks(n, &edges, a) {
                assert!(got.is_some(), "no answer although every node is met once: {} to {} edges={:?}", a, b, edges);
            }
            if let Some(p) = got {
                let want = a == b || reach_from(n, &edges, a)[b];
                assert!(p == want, "path from {} to {}: {} want {} edges={:?}", a, b, p, want, edges);
            }
        }
        for _ in 0..2 {
            let mut out = vec![];
            let ok = ng.calculate_order(&mut out);
            let cy = cyclic(n, &edges);
            assert!(ok == !cy, "order found: {} cyclic: {} edges: {:?}", ok, cy, edges);
            if !ok {
                assert!(out.is_empty(), "no order for a cyclic graph");
                continue;
            }
            assert!(out.len() == n, "every node once: {} of {}", out.len(), n);
            let pos: Vec<usize> = ids
                .iter()
                .map(|id| {
                    assert!(out.iter().filter(|x| *x == id).count() == 1, "{:?} is in the order exactly once", id);
                    out.iter().position(|x| x == id).unwrap()
                })
                .collect();
            for (a, b) in &edges {
                assert!(pos[*a] < pos[*b], "edge {} -> {} points backwards", a, b);
            }
        }
    }
}

/// Cells of a random matrix; the same node may be placed several times, which makes cycles.
#[cfg(not(kani))]
fn matrix_case() {
    use crate::util::*;
    use hexodsp::*;
    use std::collections::HashMap;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(44100.0);
    let (w, h) = (usize_in(1, 5), usize_in(1, 5));
    let mut m = Matrix::new(nc, w, h);
    let mut last_good: Option<Program> = None;
    let mut accepted = false;
    let mut amts: HashMap<ParamId, f32> = HashMap::new();
    for _ in 0..usize_in(1, 4) {
        let kinds = usize_in(1, 8);
        // (the program is uploaded again if the last one was accepted)
        if let Some(g) = &mut last_good {
            if accepted && !g.is_empty() && any::<bool>() {
                for _ in 0..usize_in(1, 4) {
                    let p = random_input(&g);
                    let v = f32_in(-1.0, 1.0);
                    assert!(m.set_param_modamt(p, Some(v)) == Ok(()), "acyclic matrix with a modulation amount");
                    amts.insert(p, v);
                }
                ex.process_graph_updates();
                *g = program(&ex);
            }
        }
        for _ in 0..usize_in(1, w * h) {
            let (x, y) = (usize_in(0, w - 1), usize_in(0, h - 1));
            m.place(x, y, random_cell(kinds));
        }
        let (nodes, edges) = matrix_edges(&m);
        let idx = |n: &NodeId| nodes.iter().position(|x| x == n).unwrap();
        let e: Vec<(usize, usize)> = edges.iter().map(|(f, _, t, _)| (idx(f), idx(t))).collect();
        let cy = cyclic(nodes.len(), &e);
        let r = m.sync();
        ex.process_graph_updates();
        let now = program(&ex);
        accepted = !cy;
        if cy {
            assert!(r == Err(matrix::MatrixError::CycleDetected), "cyclic matrix is rejected: {:?}", r);
            // the audio thread goes on with what it had
            if let Some(g) = &last_good {
                assert!(*g == now, "rejected graph changed the running program");
                still_alive(&mut m, &mut ex, g, &mut amts);
            } else {
                assert!(now.is_empty(), "rejected graph runs");
            }
        } else {
            assert!(r == Ok(()), "acyclic matrix is accepted: {:?} {:?}", r, edges);
            assert!(now.len() == nodes.len(), "every node runs once: {:?} vs {:?}", now, nodes);
            for n in &nodes {
                assert!(now.iter().filter(|x| x.0 == *n).count() == 1, "{:?} runs once", n);
            }
            let pos = |n: &NodeId| now.iter().position(|x| x.0 == *n).unwrap();
            for (f, _, t, _) in &edges {
                assert!(pos(f) < pos(t), "{:?} runs before {:?}: {:?}", f, t, now);
            }
            last_good = Some(now);
        }
    }
}

#[cfg(not(kani))]
type Program = Vec<(hexodsp::NodeId, Vec<(usize, usize, Option<usize>)>)>;

#[cfg(not(kani))]
fn program(ex: &hexodsp::nodes::NodeExecutor) -> Program {
    ex.get_prog().prog.iter().map(|o| (o.node.id(), o.inputs.clone())).collect()
}

#[cfg(not(kani))]
fn random_input(g: &Program) -> hexodsp::ParamId {
    loop {
        let id = g[usize_in(0, g.len() - 1)].0;
        let c = hexodsp::NodeInfo::from_node_id(id).in_count();
        if c > 0 {
            return id.inp_param_by_idx(usize_in(0, c - 1)).unwrap();
        }
        if g.iter().all(|n| hexodsp::NodeInfo::from_node_id(n.0).in_count() == 0) {
            return hexodsp::NodeId::Amp(0).inp_param_by_idx(0).unwrap();
        }
    }
}

/// After a rejected graph the program that runs is still the one that changes of
/// parameters and modulation amounts belong to.
#[cfg(not(kani))]
fn still_alive(
    m: &mut hexodsp::Matrix,
    ex: &mut hexodsp::nodes::NodeExecutor,
    g: &Program,
    amts: &mut std::collections::HashMap<hexodsp::ParamId, f32>,
) {
    use hexodsp::*;
    if g.is_empty() {
        return;
    }
    for _ in 0..usize_in(1, 6) {
        let p = random_input(g);
        let v = f32_in(-1.0, 1.0);
        if any::<bool>() {
            m.set_param(p, SAtom::param(v));
        } else if amts.contains_key(&p) {
            // (no new program is needed)
            assert!(m.set_param_modamt(p, Some(v)) == Ok(()), "new amount of a modulated input");
            amts.insert(p, v);
        } else {
            assert!(m.set_param_modamt(p, Some(v)) == Err(matrix::MatrixError::CycleDetected), "needs a new program");
            for id in g {
                for i in 0..NodeInfo::from_node_id(id.0).in_count() {
                    let q = id.0.inp_param_by_idx(i).unwrap();
                    if amts.contains_key(&q) && any::<bool>() {
                        let v = f32_in(-1.0, 1.0);
                        assert!(m.set_param_modamt(q, Some(v)) == Ok(()), "new amount of a modulated input");
                        amts.insert(q, v);
                    }
                }
            }
            // the amount is not part of the program that runs
            m.set_param_modamt(p, None).unwrap_err();
        }
    }
    for _ in 0..6 {
        let (mut l, mut r) = ([0.0; 128], [0.0; 128]);
        ex.process_graph_updates();
        ex.process(&mut Context { nframes: 128, output: &mut [&mut l[..], &mut r[..]], input: &[&[0.0; 128][..], &[0.0; 128][..]] });
    }
    assert!(*g == program(ex), "rejected graph changed the running program");
    let prog = ex.get_prog();
    for op in prog.prog.iter() {
        let id = op.node.id();
        for i in 0..NodeInfo::from_node_id(id).in_count() {
            let p = id.inp_param_by_idx(i).unwrap();
            let slot = op.in_idxlen.0 + i;
            let src: Vec<usize> = op.inputs.iter().filter(|x| x.1 == slot).map(|x| x.0).collect();
            for f in [0, 127] {
                let (own, got) = (prog.inp[slot].read(f), prog.cur_inp[slot].read(f));
                let val = m.get_param(&p).unwrap().f();
                assert!(own.to_bits() == val.to_bits(), "{:?} {} is {} but reads {}", id, p.name(), val, own);
                let ok = src.is_empty() && got.to_bits() == own.to_bits()
                    || src.iter().any(|s| {
                        let o = prog.out[*s].read(f);
                        let want = match amts.get(&p) {
                            Some(a) => own + a * o,
                            None => o,
                        };
                        (want - got).abs() <= 1e-5 * want.abs().max(1.0) || !want.is_finite()
                    });
                assert!(ok, "{:?} {} reads {} (own {} amount {:?} from {:?})", id, p.name(), got, own, amts.get(&p), src);
            }
        }
    }
}
