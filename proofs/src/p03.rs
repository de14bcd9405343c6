//! P03: the compiled program connects exactly what the graph connects.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use crate::util::*;
use hexodsp::dsp::{NopNode, ProcBuf, MAX_BLOCK_SIZE};
use hexodsp::nodes::{ModOp, NodeInstance, NodeOp, NodeProg};
use hexodsp::verif::conn_bit;
use hexodsp::NodeId;

fn op(idx: usize, inp: (usize, usize), out: (usize, usize), md: (usize, usize)) -> NodeOp {
    let mut ni = NodeInstance::new(NodeId::Nop, NopNode::new_node());
    ni.set_index(idx).set_input(inp.0, inp.1).set_output(out.0, out.1).set_mod(md.0, md.1);
    ni.as_op()
}

fn any_block() -> (usize, usize) {
    let (a, b) = (any::<usize>(), any::<usize>());
    assume(a <= b && b - a <= 64);
    (a, b)
}

fn any_op() -> NodeOp {
    let mut o = op(any::<u8>() as usize, any_block(), any_block(), any_block());
    o.in_connected = any();
    o.out_connected = any();
    o
}

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(NodeOp::in_idx_belongs_to_nodeop)]
    fn c_in_belongs() {
        any_op().in_idx_belongs_to_nodeop(any());
    }
    #[kani::proof_for_contract(NodeOp::out_idx_belongs_to_nodeop)]
    fn c_out_belongs() {
        any_op().out_idx_belongs_to_nodeop(any());
    }
    #[kani::proof_for_contract(NodeOp::set_in_idx_connected_flag)]
    fn c_set_in() {
        any_op().set_in_idx_connected_flag(any());
    }
    #[kani::proof_for_contract(NodeOp::set_out_idx_connected_flag)]
    fn c_set_out() {
        any_op().set_out_idx_connected_flag(any());
    }
    /// Over the contracts: flags of other ports and of other nodes stay untouched.
    #[kani::proof]
    #[kani::stub_verified(NodeOp::set_in_idx_connected_flag)]
    #[kani::stub_verified(NodeOp::set_out_idx_connected_flag)]
    fn lemma_flags_exact() {
        let mut o = any_op();
        let (ic, oc) = (o.in_connected, o.out_connected);
        let g = any::<usize>();
        let b = u8_in(0, 63);
        o.set_in_idx_connected_flag(g);
        let now = (o.in_connected >> b) & 1 == 1;
        let was = (ic >> b) & 1 == 1;
        let hit = g >= o.in_idxlen.0 && g < o.in_idxlen.1 && g - o.in_idxlen.0 == b as usize;
        kani::cover!(hit && !was, "bit newly set");
        assert!(now == (was || hit));
        assert!(o.out_connected == oc);
        o.set_out_idx_connected_flag(g);
        let now = (o.out_connected >> b) & 1 == 1;
        let was = (oc >> b) & 1 == 1;
        let hit = g >= o.out_idxlen.0 && g < o.out_idxlen.1 && g - o.out_idxlen.0 == b as usize;
        assert!(now == (was || hit));
    }
}

// The raw pointer of a buffer identifies it.
fn same(a: &ProcBuf, b: &ProcBuf) -> bool {
    a.is_null() == b.is_null() && (a.is_null() || a.slice(1).as_ptr() == b.slice(1).as_ptr())
}

harnesses! {
    kani flags_in (4) {
        let mut o = any_op();
        let (ic, oc, g) = (o.in_connected, o.out_connected, any::<usize>());
        o.set_in_idx_connected_flag(g);
        reach!(o.in_connected != ic, "flag changes");
        assert!(o.in_connected == ic | conn_bit(o.in_idxlen, g), "input flags");
        assert!(o.out_connected == oc, "output flags untouched");
    }
    kani flags_out (4) {
        let mut o = any_op();
        let (ic, oc, g) = (o.in_connected, o.out_connected, any::<usize>());
        o.set_out_idx_connected_flag(g);
        reach!(o.out_connected != oc, "flag changes");
        assert!(o.out_connected == oc | conn_bit(o.out_idxlen, g), "output flags");
        assert!(o.in_connected == ic, "input flags untouched");
    }
    // A modulator delivers parameter + amount * signal for every frame of the block and
    // never touches the frames behind it or the two sources.
    kissat modop_law (8) {
        for amt in [0.0f32, 1.0, -0.5] {
            let mut m = ModOp::new();
            let (mut inb, mut outb) = (ProcBuf::new(), ProcBuf::new());
            m.set_amt(amt);
            let p = [any::<f32>(), any::<f32>()];
            let s = [any::<f32>(), any::<f32>()];
            for k in 0..2 {
                inb.write(k, p[k]);
                outb.write(k, s[k]);
            }
            let modb = m.lock(inb, outb);
            m.process(2);
            for k in 0..2 {
                let want = p[k] + amt * s[k];
                let got = modb.read(k);
                assert!(got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan()), "modulated frame");
                assert!(inb.read(k).to_bits() == p[k].to_bits() && outb.read(k).to_bits() == s[k].to_bits(), "sources are not written");
            }
            assert!(modb.read(2) == 0.0, "frames behind the block are not written");
            inb.free();
            outb.free();
        }
    }
    bounded modop_block (2000) {
        let mut m = ModOp::new();
        let (mut inb, mut outb) = (ProcBuf::new(), ProcBuf::new());
        let amt = any::<f32>();
        m.set_amt(amt);
        let n = usize_in(0, MAX_BLOCK_SIZE);
        let (mut p, mut s) = (vec![], vec![]);
        for k in 0..MAX_BLOCK_SIZE {
            p.push(any::<f32>());
            s.push(any::<f32>());
            inb.write(k, p[k]);
            outb.write(k, s[k]);
        }
        let modb = m.lock(inb, outb);
        m.process(n);
        for k in 0..MAX_BLOCK_SIZE {
            let want = if k < n { p[k] + amt * s[k] } else { 0.0 };
            let got = modb.read(k);
            assert!(got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan())
                || (got - want).abs() <= 1e-5 * want.abs() + 1e-5 * p[k].abs(), "modulated frame {}: {} want {}", k, got, want);
            assert!(inb.read(k).to_bits() == p[k].to_bits() && outb.read(k).to_bits() == s[k].to_bits(), "sources are not written");
        }
        inb.free();
        outb.free();
    }
    kani modop_unlocked (10) {
        let mut m = ModOp::new();
        let (mut inb, mut outb) = (ProcBuf::new(), ProcBuf::new());
        m.set_amt(any());
        let k = usize_in(0, 5);
        let modb = m.lock(inb, outb);
        m.process(6);
        let was = modb.read(k);
        m.unlock();
        inb.write(k, any());
        outb.write(k, any());
        m.process(usize_in(0, 6));
        assert!(modb.read(k).to_bits() == was.to_bits(), "unlocked modulator is inert");
        inb.free();
        outb.free();
    }
    // append_op keeps one operation per node and starts with clean flags
    bounded append_op_once (3000) {
        let mut p = NodeProg::empty();
        let (a, b, c) = (any::<u8>(), any::<u8>(), any::<u8>());
        for i in [a, b, c] {
            let mut o = op(i as usize, (0, 4), (0, 4), (0, 0));
            o.in_connected = any();
            o.out_connected = any();
            p.append_op(o);
        }
        let want = 1 + (b != a) as usize + (c != a && c != b) as usize;
        assert!(p.prog.len() == want, "one operation per node");
        assert!(p.prog[0].idx == a, "operations keep the order they were added in");
        if want == 3 {
            assert!(p.prog[1].idx == b && p.prog[2].idx == c, "order");
        }
        for o in p.prog.iter() {
            assert!(o.in_connected == 0 && o.out_connected == 0, "clean flags");
        }
    }
    // append_edge with two nodes and symbolic ports
    bounded append_edge_exact (6000) {
        let mut p = NodeProg::empty();
        let (o0, o1, o2) = (usize_in(0, 8), usize_in(8, 16), usize_in(16, 24));
        let (i0, i1, i2) = (usize_in(0, 8), usize_in(8, 16), usize_in(16, 24));
        p.append_op(op(0, (i0, i1), (o0, o1), (0, 0)));
        p.append_op(op(1, (i1, i2), (o1, o2), (0, 0)));
        let (dst, ip, opx) = (usize_in(0, 1), usize_in(0, 25), usize_in(0, 25));
        let md = if any::<bool>() { Some(any::<usize>()) } else { None };
        let range = if dst == 0 { (i0, i1) } else { (i1, i2) };
        assume(ip >= range.0 && ip < range.1 && opx >= o0 && opx < o2);
        p.append_edge(op(dst, range, (0, 0), (0, 0)), ip, opx, md);
        reach!(md.is_some(), "modulated edge");
        for (k, o) in p.prog.iter().enumerate() {
            if k == dst {
                assert!(o.inputs.len() == 1 && o.inputs[0] == (opx, ip, md), "edge is recorded at the target");
                assert!(o.in_connected == conn_bit(range, ip), "input flag");
            } else {
                assert!(o.inputs.is_empty() && o.in_connected == 0, "other nodes stay unconnected");
            }
            let r = if k == 0 { (o0, o1) } else { (o1, o2) };
            assert!(o.out_connected == conn_bit(r, opx), "output flag of node {}", k);
        }
        std::mem::forget(p);
    }

    bounded assign_and_swap (1500) { assign_case(); }
    bounded engine_wiring (150) { wiring_case(); }
}

/// assign_outputs/swap_previous_outputs/unlock_buffers on programs with random ports.
#[cfg(not(kani))]
fn assign_case() {
    fn build() -> (NodeProg, Vec<(usize, usize, Option<usize>)>, Vec<f32>) {
        let n = usize_in(1, 5);
        let (mut il, mut ol, mut lay) = (0, 0, vec![]);
        for _ in 0..n {
            let (a, b) = (usize_in(0, 5), usize_in(0, 4));
            lay.push(((il, il + a), (ol, ol + b)));
            il += a;
            ol += b;
        }
        let ml = usize_in(0, 4);
        let mut p = NodeProg::new(ol, il, 0, ml);
        for (k, (i, o)) in lay.iter().enumerate() {
            p.append_op(op(k, *i, *o, (0, 0)));
        }
        let (mut edges, mut used, mut mods) = (vec![], vec![], 0);
        for _ in 0..usize_in(0, 8) {
            if il == 0 || ol == 0 {
                break;
            }
            let (i, o) = (usize_in(0, il - 1), usize_in(0, ol - 1));
            if used.contains(&i) {
                continue;
            }
            used.push(i);
            let m = if mods < ml && any::<bool>() { mods += 1; Some(mods - 1) } else { None };
            let d = lay.iter().position(|l| i >= l.0 .0 && i < l.0 .1).unwrap();
            p.append_edge(op(d, lay[d].0, lay[d].1, (0, 0)), i, o, m);
            edges.push((o, i, m));
        }
        let mut vals = vec![];
        for k in 0..il {
            let v = f32_in(-1.0, 1.0);
            p.params[k] = v;
            vals.push(v);
        }
        p.initialize_input_buffers();
        for k in 0..ol {
            p.out[k].fill(100.0 + k as f32);
        }
        (p, edges, vals)
    }
    fn check(p: &mut NodeProg, edges: &[(usize, usize, Option<usize>)], vals: &[f32]) {
        let n = usize_in(1, MAX_BLOCK_SIZE);
        for m in p.modops.iter_mut() {
            m.set_amt(0.5);
        }
        for m in p.modops.iter_mut() {
            m.process(n);
        }
        assert!(p.locked_buffers);
        for k in 0..p.cur_inp.len() {
            let e = edges.iter().find(|e| e.1 == k);
            let (got, f) = (&p.cur_inp[k], usize_in(0, n - 1));
            match e {
                None => assert!(same(got, &p.inp[k]) && got.read(f) == vals[k], "unconnected input {} reads its parameter", k),
                Some((o, _, None)) => assert!(same(got, &p.out[*o]), "input {} reads output {}", k, o),
                Some((o, _, Some(_))) => {
                    let want = vals[k] + 0.5 * (100.0 + *o as f32);
                    assert!(got.read(f) == want, "modulated input {}: {} want {}", k, got.read(f), want);
                    for x in p.inp.iter().chain(p.out.iter()) {
                        assert!(!same(got, x), "modulated input has its own buffer");
                    }
                }
            }
        }
        for (k, o) in p.prog.iter().enumerate() {
            let mut ic = 0u64;
            let mut oc = 0u64;
            for e in edges {
                ic |= conn_bit(o.in_idxlen, e.1);
                oc |= conn_bit(o.out_idxlen, e.0);
            }
            assert!(o.in_connected == ic && o.out_connected == oc, "connected flags of node {}", k);
        }
    }
    let (mut a, ea, va) = build();
    a.assign_outputs();
    check(&mut a, &ea, &va);
    let (mut b, eb, vb) = build();
    if any::<bool>() {
        b.assign_outputs();
    }
    // the new program takes over the input history of the old one
    b.swap_previous_outputs(&mut a);
    assert!(!a.locked_buffers && !b.locked_buffers, "buffers are unlocked before they move");
    for c in a.cur_inp.iter().chain(b.cur_inp.iter()) {
        assert!(c.is_null(), "no input refers to a moved buffer");
    }
    let mut vals = vb.clone();
    for (k, v) in vals.iter_mut().enumerate() {
        if k < va.len() {
            *v = va[k];
        }
    }
    b.assign_outputs();
    check(&mut b, &eb, &vals);
    // the buffers of both programs are still pairwise different: freeing is safe
    let all: Vec<&ProcBuf> = a.inp.iter().chain(a.out.iter()).chain(b.inp.iter()).chain(b.out.iter()).collect();
    for i in 0..all.len() {
        for j in 0..i {
            assert!(!same(all[i], all[j]), "a buffer has two owners");
        }
    }
    drop(a);
    for k in 0..b.cur_inp.len() {
        b.cur_inp[k].read(0);
    }
}

/// End to end over a random DAG: what every node reads in the audio thread.
#[cfg(not(kani))]
fn wiring_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    let ids = random_nodes(2, 7);
    for id in &ids {
        nc.create_node(*id);
    }
    for round in 0..2 {
        let mut mods = std::collections::HashMap::new();
        for id in &ids {
            for i in 0..NodeInfo::from_node_id(*id).in_count() {
                let p = id.inp_param_by_idx(i).unwrap();
                if any::<u8>() % 3 == 0 {
                    let m = if any::<bool>() { Some(f32_in(-1.0, 1.0)) } else { None };
                    nc.set_param_modamt(p, m);
                }
                if let Some(m) = nc.get_param_modamt(&p) {
                    mods.insert(p, m);
                }
            }
        }
        let mut prog = nc.rebuild_node_ports();
        for id in &ids {
            nc.add_prog_node(&mut prog, id);
        }
        let lay: Vec<Layout> = prog.prog.iter().map(Layout::of).collect();
        let mut edges: Vec<(usize, u8, usize, u8)> = vec![];
        for _ in 0..usize_in(0, 8) {
            let d = usize_in(1, ids.len() - 1);
            let s = usize_in(0, d - 1);
            let (ni, no) = (NodeInfo::from_node_id(ids[d]).in_count(), NodeInfo::from_node_id(ids[s]).out_count());
            if ni == 0 || no == 0 {
                continue;
            }
            let (ip, op) = (usize_in(0, ni - 1) as u8, usize_in(0, no - 1) as u8);
            if edges.iter().any(|e| e.0 == d && e.1 == ip) {
                continue;
            }
            nc.set_prog_node_exec_connection(&mut prog, (ids[d], ip), (ids[s], op));
            edges.push((d, ip, s, op));
        }
        nc.upload_prog(prog, round > 0 && any::<bool>());
        ex.process_graph_updates();
        let p = ex.get_prog();
        assert!(p.prog.len() == ids.len(), "every node is executed once");
        for (k, id) in ids.iter().enumerate() {
            assert!(p.prog[k].node.id() == *id, "execution order");
            let (mut ic, mut oc) = (0u64, 0u64);
            for e in &edges {
                if e.0 == k {
                    ic |= 1 << e.1;
                }
                if e.2 == k {
                    oc |= 1 << e.3;
                }
            }
            assert!(p.prog[k].in_connected == ic, "input flags of {:?}: {:x} want {:x}", id, p.prog[k].in_connected, ic);
            assert!(p.prog[k].out_connected == oc, "output flags of {:?}", id);
            for i in 0..lay[k].inp.1 - lay[k].inp.0 {
                let slot = lay[k].inp.0 + i;
                let got = &p.cur_inp[slot];
                let pid = id.inp_param_by_idx(i).unwrap();
                match edges.iter().find(|e| e.0 == k && e.1 as usize == i) {
                    None => assert!(same(got, &p.inp[slot]), "{:?} {} reads its parameter", id, pid.name()),
                    Some(e) => {
                        let src = &p.out[lay[e.2].out.0 + e.3 as usize];
                        if mods.contains_key(&pid) {
                            assert!(!same(got, src) && !same(got, &p.inp[slot]), "{:?} {} is modulated", id, pid.name());
                        } else {
                            assert!(same(got, src), "{:?} {} reads {:?} output {}", id, pid.name(), ids[e.2], e.3);
                        }
                    }
                }
            }
        }
    }
}
