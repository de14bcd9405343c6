//! P02: every node owns its own contiguous block of output, input, atom and modulator
//! slots and local port numbers translate exactly into that block.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use crate::util::*;
use hexodsp::dsp::NopNode;
use hexodsp::nodes::NodeInstance;
use hexodsp::NodeId;

fn any_range() -> (usize, usize) {
    let (a, b) = (any::<usize>(), any::<usize>());
    assume(a <= b && b <= usize::MAX - 256);
    (a, b)
}

fn any_instance() -> NodeInstance {
    let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
    let (o, i, a, m) = (any_range(), any_range(), any_range(), any_range());
    ni.set_index(any::<u8>() as usize).set_output(o.0, o.1).set_input(i.0, i.1).set_atom(a.0, a.1).set_mod(m.0, m.1);
    ni
}

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(NodeInstance::in_local2global)]
    fn c_in_local2global() {
        any_instance().in_local2global(any());
    }
    #[kani::proof_for_contract(NodeInstance::out_local2global)]
    fn c_out_local2global() {
        any_instance().out_local2global(any());
    }
    #[kani::proof_for_contract(NodeInstance::mod_in_local2global)]
    fn c_mod_in_local2global() {
        let mut ni = any_instance();
        let (slot, m) = (any::<usize>(), any::<usize>());
        assume(slot < hexodsp::nodes::MAX_DSP_NODE_INPUTS);
        ni.set_mod_idx(slot, m);
        ni.mod_in_local2global(any());
    }

    /// Two adjacent blocks: no port of one node can ever be a port of the other.
    /// Proved over the contracts, not the bodies.
    #[kani::proof]
    #[kani::stub_verified(NodeInstance::in_local2global)]
    #[kani::stub_verified(NodeInstance::out_local2global)]
    fn lemma_disjoint() {
        let (a, b, c) = (any::<usize>(), any::<usize>(), any::<usize>());
        assume(a <= b && b <= c && c <= usize::MAX - 256);
        let mut x = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        let mut y = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        x.set_input(a, b).set_output(a, b);
        y.set_input(b, c).set_output(b, c);
        let (i, j) = (any::<u8>(), any::<u8>());
        if let (Some(p), Some(q)) = (x.in_local2global(i), y.in_local2global(j)) {
            kani::cover!(true, "both valid");
            assert!(p < q && p < b && q >= b);
        }
        if let (Some(p), Some(q)) = (x.out_local2global(i), y.out_local2global(j)) {
            assert!(p < q && p < b && q >= b);
        }
        if let (Some(p), Some(q)) = (x.in_local2global(i), x.in_local2global(j)) {
            assert!((p == q) == (i == j), "local to global is injective");
        }
    }
}

harnesses! {
    kani in_local2global_exact (4) {
        let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        let (s, e) = any_range();
        ni.set_input(s, e);
        ni.set_output(any(), any());
        ni.set_atom(any(), any());
        let idx = any::<u8>();
        let r = ni.in_local2global(idx);
        reach!(r.is_some(), "valid input port");
        reach!(r.is_none(), "invalid input port");
        if (idx as usize) < e - s {
            assert!(r == Some(s + idx as usize), "input port {} of block {}..{} maps to {:?}", idx, s, e, r);
        } else {
            assert!(r.is_none(), "input port {} outside of block {}..{} maps to {:?}", idx, s, e, r);
        }
    }
    kani out_local2global_exact (4) {
        let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        let (s, e) = any_range();
        ni.set_output(s, e);
        ni.set_input(any(), any());
        let idx = any::<u8>();
        let r = ni.out_local2global(idx);
        reach!(r.is_some(), "valid output port");
        if (idx as usize) < e - s {
            assert!(r == Some(s + idx as usize), "output port {} of block {}..{} maps to {:?}", idx, s, e, r);
        } else {
            assert!(r.is_none(), "output port {} outside of block {}..{} maps to {:?}", idx, s, e, r);
        }
    }
    kani mod_map_exact (34) {
        let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        let (s1, m1) = (usize_in(0, 31), any::<usize>());
        let (s2, m2) = (usize_in(0, 31), any::<usize>());
        ni.set_mod_idx(s1, m1);
        ni.set_mod_idx(s2, m2);
        let q = any::<u8>();
        let want = if q as usize == s2 { Some(m2) } else if q as usize == s1 { Some(m1) } else { None };
        assert!(ni.mod_in_local2global(q) == want, "modulator of input {}", q);
    }
    kani op_carries_layout (4) {
        let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        let (i, o, n, a, m) = (any::<u8>(), any_range(), any_range(), any_range(), any_range());
        ni.set_index(i as usize).set_output(o.0, o.1).set_input(n.0, n.1).set_atom(a.0, a.1).set_mod(m.0, m.1);
        let op = ni.as_op();
        assert!(op.idx == i, "operation index");
        assert!(op.out_idxlen == o, "output block");
        assert!(op.in_idxlen == n, "input block");
        assert!(op.at_idxlen == a, "atom block");
        assert!(op.mod_idxlen == m, "modulator block");
        assert!(op.in_connected == 0 && op.out_connected == 0 && op.inputs.is_empty(), "new operation has no connections");
    }
    kani used_flag (4) {
        let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
        assert!(!ni.is_used());
        if any::<bool>() {
            ni.mark_used();
            assert!(ni.is_used());
        }
    }

    bounded node_table (1) { node_table_case(); }
    bounded engine_layout (400) {
        layout_case(false);
    }
    bounded engine_layout_large (12) {
        layout_case(true);
    }
}

#[cfg(not(kani))]
fn layout_case(large: bool) {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    let ids = if large { random_nodes(120, 200) } else { random_nodes(1, 8) };
    let mut created: Vec<NodeId> = vec![];
    let rounds = usize_in(1, 3);
    let mut prev: Vec<Layout> = vec![];
    for r in 0..rounds {
        let lo = ids.len() * r / rounds;
        let hi = ids.len() * (r + 1) / rounds;
        for id in &ids[lo..hi] {
            nc.create_node(*id).expect("node exists");
            created.push(*id);
        }
        if created.is_empty() {
            continue;
        }
        // random parameter, modulation and atom settings
        let mut want_mod = std::collections::HashMap::new();
        for _ in 0..usize_in(0, 6) {
            if created.is_empty() {
                break;
            }
            let id = created[usize_in(0, created.len() - 1)];
            let n = NodeInfo::from_node_id(id).in_count();
            if n == 0 {
                continue;
            }
            let p = id.inp_param_by_idx(usize_in(0, n - 1)).unwrap();
            if any::<bool>() {
                nc.set_param(p, SAtom::param(f32_in(-1.0, 1.0)));
            } else {
                let m = if any::<bool>() { Some(f32_in(-1.0, 1.0)) } else { None };
                nc.set_param_modamt(p, m);
                want_mod.insert(p, m);
            }
        }
        for _ in 0..usize_in(0, 4) {
            if created.is_empty() {
                break;
            }
            let id = created[usize_in(0, created.len() - 1)];
            let n = NodeInfo::from_node_id(id).at_count();
            if n == 0 {
                continue;
            }
            let p = id.atom_param_by_idx(usize_in(0, n - 1)).unwrap();
            let (lo, hi) = p.setting_min_max().unwrap_or((0, 0));
            nc.set_param(p, SAtom::setting(i64_in(lo, hi)));
        }
        let mut prog = nc.rebuild_node_ports();
        for id in &created {
            nc.add_prog_node(&mut prog, id);
        }
        let lay: Vec<Layout> = prog.prog.iter().map(Layout::of).collect();
        check_layout(&created, &lay, &prog, &nc);
        // appending nodes never moves an existing node (modulators may shift)
        for (a, b) in prev.iter().zip(lay.iter()) {
            assert!(a.out == b.out && a.inp == b.inp && a.at == b.at, "layout moved after append: {:?} -> {:?}", a, b);
        }
        // modulator of input i is unique and inside of the node's modulator block
        let mut all_mod = std::collections::HashSet::new();
        for (k, id) in created.iter().enumerate() {
            let n = lay[k].inp.1 - lay[k].inp.0;
            let mut here = 0;
            for i in 0..n {
                let p = id.inp_param_by_idx(i).unwrap();
                if nc.get_param_modamt(&p).is_some() {
                    here += 1;
                    let mut pr = nc.rebuild_node_ports();
                    nc.add_prog_node(&mut pr, id);
                    let src = created[0];
                    if NodeInfo::from_node_id(src).out_count() == 0 {
                        continue;
                    }
                    nc.set_prog_node_exec_connection(&mut pr, (*id, i as u8), (src, 0));
                    let con = &pr.prog[0].inputs[0];
                    let m = con.2.expect("modulated input has a modulator");
                    assert!(m >= lay[k].md.0 && m < lay[k].md.1, "modulator outside of the node's block");
                    assert!(all_mod.insert(m), "modulator {} assigned twice", m);
                }
            }
            assert!(lay[k].md.1 - lay[k].md.0 == here, "modulator count of {:?}", id);
        }
        // every connection lands on exactly the ports of the two nodes
        for _ in 0..6 {
            let d = usize_in(0, created.len() - 1);
            let s = usize_in(0, created.len() - 1);
            let (ip, op) = (u8_in(0, 34), u8_in(0, 34));
            let mut pr = nc.rebuild_node_ports();
            nc.add_prog_node(&mut pr, &created[d]);
            nc.set_prog_node_exec_connection(&mut pr, (created[d], ip), (created[s], op));
            let ok = (ip as usize) < lay[d].inp.1 - lay[d].inp.0 && (op as usize) < lay[s].out.1 - lay[s].out.0;
            if ok {
                assert!(pr.prog[0].inputs.len() == 1);
                let c = pr.prog[0].inputs[0];
                assert!(c.0 == lay[s].out.0 + op as usize && c.1 == lay[d].inp.0 + ip as usize,
                    "connection {:?}.{} -> {:?}.{} uses slots {:?}", created[s], op, created[d], ip, c);
            } else {
                assert!(pr.prog[0].inputs.is_empty(), "connection of a port that does not exist");
            }
        }
        let mut prog = nc.rebuild_node_ports();
        for id in &created {
            nc.add_prog_node(&mut prog, id);
        }
        nc.upload_prog(prog, false);
        ex.process_graph_updates();
        // ramps that were running when the graph was replaced go on
        ex.test_run(0.02, false, &[]);
        // every parameter and atom value is found in its own slot
        let p = ex.get_prog();
        for (k, id) in created.iter().enumerate() {
            for i in 0..lay[k].inp.1 - lay[k].inp.0 {
                let pid = id.inp_param_by_idx(i).unwrap();
                let v = nc.get_param(&pid).expect("param has a value").f();
                assert!(p.params[lay[k].inp.0 + i].to_bits() == v.to_bits(),
                    "slot of {:?} {} holds {} instead of {}", id, pid.name(), p.params[lay[k].inp.0 + i], v);
            }
            for i in 0..lay[k].at.1 - lay[k].at.0 {
                let pid = id.atom_param_by_idx(i).unwrap();
                let v = nc.get_param(&pid).expect("atom has a value");
                assert!(format!("{:?}", p.atoms[lay[k].at.0 + i]) == format!("{:?}", v),
                    "atom slot of {:?} {}", id, pid.name());
            }
        }
        prev = lay;
    }
}

#[cfg(not(kani))]
fn check_layout(created: &[NodeId], lay: &[Layout], prog: &hexodsp::nodes::NodeProg, nc: &hexodsp::NodeConfigurator) {
    use hexodsp::NodeInfo;
    assert!(lay.len() == created.len(), "one operation per node");
    let mut end = Layout { idx: 0, out: (0, 0), inp: (0, 0), at: (0, 0), md: (0, 0) };
    for (k, (id, l)) in created.iter().zip(lay.iter()).enumerate() {
        let info = NodeInfo::from_node_id(*id);
        assert!(l.idx == k && nc.unique_index_for(id) == Some(k), "index of {:?}", id);
        assert!(l.out.0 == end.out.1 && l.inp.0 == end.inp.1 && l.at.0 == end.at.1 && l.md.0 == end.md.1,
            "blocks are not adjacent: {:?} then {:?}", end, l);
        assert!(l.out.1 - l.out.0 == info.out_count(), "output block of {:?}", id);
        assert!(l.inp.1 - l.inp.0 == info.in_count(), "input block of {:?}", id);
        assert!(l.at.1 - l.at.0 == info.at_count(), "atom block of {:?}", id);
        end = l.clone();
    }
    assert!(prog.out.len() == end.out.1 && prog.inp.len() == end.inp.1 && prog.cur_inp.len() == end.inp.1
        && prog.params.len() == end.inp.1 && prog.atoms.len() == end.at.1 && prog.modops.len() == end.md.1,
        "program vectors do not match the layout");
}

/// What the layout proof (verus/P02_ports.vrs) assumes of the table of nodes, for every kind of node.
#[cfg(not(kani))]
fn node_table_case() {
    use hexodsp::dsp::ALL_NODE_IDS;
    use std::collections::HashSet;
    let (mut inps, mut ats) = (HashSet::new(), HashSet::new());
    for id in ALL_NODE_IDS.iter() {
        for inst in 0..4 {
            let id = id.to_instance(inst);
            let info = hexodsp::dsp::NodeInfo::from_node_id(id);
            assert!(info.to_id() == id || info.to_id() == id.to_instance(0), "kind of {:?} is {:?}", id, info.to_id());
            assert!(info.in_count() <= 32 && info.out_count() <= 255 && info.at_count() <= 255, "ports of {:?}", id);
            for j in 0..info.in_count() {
                let p = id.inp_param_by_idx(j).expect("every input has a parameter");
                assert!(inps.insert(p), "input {} of {:?} has the parameter of another input", j, id);
            }
            for j in 0..info.at_count() {
                let p = id.atom_param_by_idx(j).expect("every setting has a parameter");
                assert!(ats.insert(p), "setting {} of {:?} has the parameter of another setting", j, id);
            }
        }
    }
}
