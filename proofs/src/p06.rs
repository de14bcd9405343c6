//! P06: parameters, atoms and modulation amounts arrive where they were set.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::verif::Smoother;

fn any_smoother() -> Smoother {
    Smoother::verif_new(any(), [any(), any(), any()], any(), any())
}

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(Smoother::set)]
    fn c_set() {
        any_smoother().set(any(), any());
    }
    #[kani::proof_for_contract(Smoother::next)]
    fn c_next() {
        any_smoother().next();
    }
}

/// A modulation amount, none, or one of the special ones.
#[cfg(not(kani))]
fn any_amount() -> Option<f32> {
    match u8_in(0, 8) {
        0..=2 => None,
        3 => Some(0.0),
        4 => Some([1.0, -1.0][usize_in(0, 1)]),
        _ => Some(f32_in(-1.0, 1.0)),
    }
}

harnesses! {
    // One step of the ramp from any state.
    kani ramp_step (2) {
        let mut s = any_smoother();
        let (v, inc, t, n) = s.verif_state();
        let done = s.is_done();
        let r = s.next();
        reach!(n == 1, "last step");
        if n == 0 {
            assert!(r.to_bits() == t.to_bits() && s.is_done(), "the ramp ends exactly at the target");
            assert!(s.current().to_bits() == t.to_bits(), "and stays there");
        } else {
            let (v2, inc2, t2, n2) = s.verif_state();
            let sum = v + inc;
            assert!(r.to_bits() == v2.to_bits() && (r == sum || sum.is_nan()), "one step");
            assert!(inc2.to_bits() == inc.to_bits() && t2.to_bits() == t.to_bits() && n2 == n - 1 && s.is_done() == done, "ramp goes on");
            if !done {
                assert!(s.current().to_bits() == v2.to_bits(), "current value");
            }
        }
    }
    // A new target: the ramp starts at the current value and ends after the slope time.
    kani ramp_start (8) {
        let mut s = any_smoother();
        let sr = f32_in(0.0, 400.0);
        s.set_sample_rate(sr);
        let (cur, tgt) = (f32_in(-10.0, 10.0), f32_in(-10.0, 10.0));
        s.set(cur, tgt);
        assert!(!s.is_done() && s.current() == cur, "starts at the current value");
        let (_, inc, _, n) = s.verif_state();
        assert!(n as f32 * 100.0 >= sr - 0.01 && (n as f32 - 1.0) * 100.0 < sr, "10 ms rounded up to samples");
        reach!(n == 4, "four samples");
        if n > 0 {
            assert!(if tgt >= cur { inc >= 0.0 } else { inc <= 0.0 }, "towards the target");
        }
        let mut k = 0;
        while k < n {
            assert!(!s.is_done(), "ramp is not done");
            s.next();
            k += 1;
        }
        assert!(!s.is_done() && s.next().to_bits() == tgt.to_bits() && s.is_done(), "then exactly the target");
        assert!(s.next().to_bits() == tgt.to_bits(), "and from then on");
    }
    bounded ramp_shape (3000) {
        let mut s = Smoother::new();
        let sr = f32_in(1000.0, 200000.0);
        s.set_sample_rate(sr);
        let (cur, tgt) = (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0));
        s.set(cur, tgt);
        let n = (sr * 0.01).ceil() as i64;
        for k in 1..n - 1 {
            let want = cur as f64 + (tgt as f64 - cur as f64) * k as f64 / n as f64;
            let v = s.next();
            assert!((v as f64 - want).abs() < 3e-3, "sample {} of {}: {} want {}", k, n, v, want);
        }
        for _ in 0..6 {
            s.next();
        }
        assert!(s.is_done() && s.next() == tgt, "target after 10 ms");
    }
    bounded engine_params (120) { engine_case(); }
    bounded matrix_params (60) { matrix_case(); }
}

#[cfg(not(kani))]
struct Ctx(usize);
#[cfg(not(kani))]
impl hexodsp::nodes::NodeAudioContext for Ctx {
    fn nframes(&self) -> usize {
        self.0
    }
    fn output(&mut self, _c: usize, _f: usize, _v: f32) {}
    fn input(&mut self, _c: usize, _f: usize) -> f32 {
        0.0
    }
}

/// What an input is expected to read.
#[cfg(not(kani))]
#[derive(Clone, Debug)]
struct Inp {
    /// exact value, if no ramp is running
    value: f32,
    /// (start, target, samples done)
    ramp: Option<(f32, f32, i64)>,
    /// the ramp may be skipped because too many ramps were running
    may_jump: bool,
}

#[cfg(not(kani))]
fn engine_case() {
    use hexodsp::*;
    use std::collections::HashMap;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    let sr = [44100.0, 48000.0, 96000.0, 8000.0][usize_in(0, 3)];
    let n = (sr * 0.01f32).ceil() as i64;
    ex.set_sample_rate(sr);
    let kinds = [NodeId::Amp(0), NodeId::Mix3(0), NodeId::Sin(0), NodeId::Amp(1), NodeId::Map(0), NodeId::BOsc(0), NodeId::Mux9(0), NodeId::TSeq(0)];
    let mut ids: Vec<NodeId> = vec![];
    // frontend values
    let mut front: HashMap<ParamId, f32> = HashMap::new();
    let mut atoms: HashMap<ParamId, i64> = HashMap::new();
    let mut amt: HashMap<ParamId, f32> = HashMap::new();
    // backend values of the uploaded program
    let mut back: HashMap<ParamId, Inp> = HashMap::new();
    let mut lay: HashMap<NodeId, (usize, usize)> = HashMap::new();
    let mut pending: Vec<(ParamId, f32)> = vec![];
    let mut uploaded: Vec<NodeId> = vec![];
    let mut stale = true; // structure changed since the last upload
    let val = || if any::<bool>() { f32_in(0.0, 1.0) } else { f32_in(-1.0, 1.0) };

    for _ in 0..usize_in(4, 40) {
        match u8_in(0, 11) {
            0 => {
                let id = kinds[usize_in(0, kinds.len() - 1)];
                if !ids.contains(&id) {
                    nc.create_node(id);
                    ids.push(id);
                    stale = true;
                }
            }
            1 if any::<u8>() % 4 == 0 => {
                nc.delete_nodes();
                ids.clear();
                front.clear();
                atoms.clear();
                amt.clear();
                back.clear();
                lay.clear();
                pending.clear();
                uploaded.clear();
                stale = true;
            }
            2 | 3 if stale || any::<bool>() => {
                // upload
                let mut prog = nc.rebuild_node_ports();
                for id in &ids {
                    nc.add_prog_node(&mut prog, id);
                }
                for op in prog.prog.iter() {
                    lay.insert(op.node.id(), (op.in_idxlen.0, op.at_idxlen.0));
                }
                nc.upload_prog(prog, true);
                for id in &ids {
                    for i in 0..NodeInfo::from_node_id(*id).in_count() {
                        let p = id.inp_param_by_idx(i).unwrap();
                        let v = *front.entry(p).or_insert(p.norm_def());
                        assert!(nc.get_param(&p).map(|a| a.f().to_bits()) == Some(v.to_bits()), "value of {:?} {}", id, p.name());
                        if !uploaded.contains(id) {
                            back.insert(p, Inp { value: v, ramp: None, may_jump: false });
                        }
                    }
                }
                uploaded = ids.clone();
                stale = false;
            }
            4 if any::<u8>() % 3 == 0 => {
                // more changes at once than there are smoothers
                for id in &ids {
                    for i in 0..NodeInfo::from_node_id(*id).in_count() {
                        let p = id.inp_param_by_idx(i).unwrap();
                        let v = val();
                        nc.set_param(p, v.into());
                        front.insert(p, v);
                        if uploaded.contains(id) {
                            set(&mut back, p, v);
                        }
                    }
                }
            }
            5 => {
                // atom
                let id = kinds[usize_in(0, kinds.len() - 1)];
                let c = NodeInfo::from_node_id(id).at_count();
                if c > 0 {
                    let p = id.atom_param_by_idx(usize_in(0, c - 1)).unwrap();
                    let v = usize_in(0, 2) as i64;
                    nc.set_param(p, SAtom::setting(v));
                    atoms.insert(p, v);
                    assert!(nc.get_param(&p).map(|a| a.i()) == Some(v), "atom value");
                }
            }
            6 => {
                let id = kinds[usize_in(0, kinds.len() - 1)];
                let p = id.inp_param_by_idx(0).unwrap();
                let v = any_amount();
                let had = amt.contains_key(&p);
                let need = nc.set_param_modamt(p, v);
                assert!(need || (had && v.is_some()), "a new or removed amount needs a new program");
                match v {
                    Some(v) => {
                        amt.insert(p, v);
                    }
                    None => {
                        amt.remove(&p);
                    }
                }
                assert!(nc.get_param_modamt(&p).map(|x| x.to_bits()) == v.map(|x| x.to_bits()), "modulation amount");
            }
            7 | 8 => {
                let id = kinds[usize_in(0, kinds.len() - 1)];
                let c = NodeInfo::from_node_id(id).in_count();
                let p = id.inp_param_by_idx(usize_in(0, c - 1)).unwrap();
                let v = val();
                nc.set_param(p, v.into());
                front.insert(p, v);
                assert!(nc.get_param(&p).map(|a| a.f().to_bits()) == Some(v.to_bits()), "value");
                if uploaded.contains(&id) {
                    set(&mut back, p, v);
                }
            }
            _ => {
                let frames = usize_in(1, 128);
                ex.process_graph_updates();
                // a program with settings that were not made for the nodes is not run
                ex.process(&mut Ctx(frames));
                let prog = ex.get_prog();
                let running = back.values().filter(|b| b.ramp.is_some()).count();
                for (p, b) in back.iter_mut() {
                    let slot = lay[&p.node_id()].0 + p.inp() as usize;
                    for f in 0..frames {
                        let got = prog.inp[slot].read(f);
                        assert!(prog.cur_inp[slot].read(f).to_bits() == got.to_bits(), "unconnected input reads its parameter");
                        if let Some((start, target, k)) = b.ramp {
                            if k == 0 && got.to_bits() == target.to_bits() && (b.may_jump || running > 40) {
                                b.value = target;
                                b.ramp = None;
                            } else {
                                let k = k + 1;
                                if k > n {
                                    assert!(got.to_bits() == target.to_bits(), "{:?} {}: target is {} but reads {}", p.node_id(), p.name(), target, got);
                                    b.value = target;
                                    b.ramp = None;
                                } else {
                                    let want = start as f64 + (target as f64 - start as f64) * k as f64 / n as f64;
                                    assert!((got as f64 - want).abs() < 2e-3, "{:?} {}: sample {} of the ramp {} -> {} is {}", p.node_id(), p.name(), k, start, target, got);
                                    b.value = got;
                                    b.ramp = Some((start, target, k));
                                }
                            }
                        } else {
                            assert!(got.to_bits() == b.value.to_bits(), "{:?} {}: value is {} but reads {}", p.node_id(), p.name(), b.value, got);
                        }
                    }
                }
                for id in &uploaded {
                    for i in 0..NodeInfo::from_node_id(*id).at_count() {
                        let p = id.atom_param_by_idx(i).unwrap();
                        let got = &prog.atoms[lay[id].1 + i];
                        match atoms.get(&p) {
                            Some(v) => assert!(got.i() == *v, "{:?} {}: atom is {:?} but set to {}", id, p.name(), got, v),
                            None => assert!(*got == p.as_atom_def(), "{:?} {}: default of the atom", id, p.name()),
                        }
                    }
                }
            }
        }
    }
    let _ = pending;
}

#[cfg(not(kani))]
fn set(back: &mut std::collections::HashMap<hexodsp::ParamId, Inp>, p: hexodsp::ParamId, v: f32) {
    let running = back.values().filter(|b| b.ramp.is_some()).count();
    let b = back.get_mut(&p).unwrap();
    b.may_jump = running >= 39;
    b.ramp = Some((b.value, v, 0));
}

/// Modulation amounts and parameters through the matrix.
#[cfg(not(kani))]
fn matrix_case() {
    use hexodsp::*;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(44100.0);
    let mut m = Matrix::new(nc, 3, 6);
    // amp0 -> mix3 ch1, amp1 -> mix3 ch2 (below each other), out
    let (a0, a1, mx) = (NodeId::Amp(0), NodeId::Amp(1), NodeId::Mix3(0));
    let pa = a0.inp_param("inp").unwrap();
    let p1 = mx.inp_param("ch1").unwrap();
    let p2 = mx.inp_param("ch2").unwrap();
    m.place(0, 0, Cell::empty(a0).out(None, None, a0.out("sig")));
    m.place(0, 1, Cell::empty(mx).input(mx.inp("ch1"), mx.inp("ch2"), None));
    m.place(0, 3, Cell::empty(a1).out(None, None, a1.out("sig")));
    m.sync().unwrap();
    let mut amt = [None, None];
    for _ in 0..usize_in(2, 12) {
        match u8_in(0, 4) {
            0 => m.set_param(pa, SAtom::param(f32_in(-1.0, 1.0))),
            1 => {
                let v = any_amount();
                let k = usize_in(0, 1);
                m.set_param_modamt([p1, p2][k], v).unwrap();
                amt[k] = v;
            }
            2 => m.set_param([p1, p2][usize_in(0, 1)], SAtom::param(f32_in(-1.0, 1.0))),
            3 => {
                m.place(1, 4, Cell::empty([NodeId::Sin(0), NodeId::Nop][usize_in(0, 1)]));
                m.sync().unwrap();
            }
            _ => (),
        }
        for _ in 0..usize_in(0, 5) {
            let f = usize_in(1, 128);
            ex.process_graph_updates();
            ex.process(&mut Ctx(f));
            let prog = ex.get_prog();
            let op = prog.prog.iter().find(|o| o.node.id() == mx).expect("mixer runs");
            let src = prog.prog.iter().find(|o| o.node.id() == a0).expect("amp runs");
            let slot = op.in_idxlen.0 + p1.inp() as usize;
            for k in 0..f {
                let (own, out, got) = (prog.inp[slot].read(k), prog.out[src.out_idxlen.0].read(k), prog.cur_inp[slot].read(k));
                let want = match amt[0] {
                    Some(a) => own + out * a,
                    None => out,
                };
                assert!((got - want).abs() < 1e-6, "modulated input reads {} want {} (own {} out {} amount {:?})", got, want, own, out, amt[0]);
            }
        }
    }
}
