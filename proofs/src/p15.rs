//! P15: what is heard does not depend on the block sizes.
use crate::harnesses;
use crate::reach;
use crate::sym::*;

harnesses! {
    bounded node_blocks (2000) { block_case(1); }
    bounded graph_blocks (600) { block_case(5); }
    bounded node_laws (1200) { law_case(); }
}

/// Two engines with the same nodes, settings, connections, input and MIDI events.
#[cfg(not(kani))]
fn block_case(max: usize) {
    use hexodsp::dsp::tracker::UIPatternModel;
    use hexodsp::nodes::*;
    use hexodsp::*;
    let srate = [44100.0f32, 48000.0, 96000.0][usize_in(0, 2)];
    // nodes without random or external sources
    let all: Vec<NodeId> = hexodsp::dsp::ALL_NODE_IDS.iter().copied()
        .filter(|n| !["test", "code", "rust1x1", "noise", "rndwk", "out", "inp"].contains(&n.name()))
        // the solver of its Sallen-Key filter takes seconds per frame for signals far out of range
        .filter(|n| max == 1 || n.name() != "fvafilt")
        .collect();
    let mut ids: Vec<NodeId> = vec![];
    for _ in 0..usize_in(1, max) {
        let id = all[usize_in(0, all.len() - 1)].to_instance(usize_in(0, 2));
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let (i, o) = (NodeId::Inp(0), NodeId::Out(0));
    let order: Vec<NodeId> = [i].iter().chain(ids.iter()).chain([o].iter()).copied().collect();
    let mut params: Vec<(ParamId, SAtom)> = vec![];
    let mut edges: Vec<(NodeId, u8, NodeId, u8)> = vec![];
    let mut mods: Vec<(ParamId, f32)> = vec![];
    let dense = any::<bool>();
    for (k, id) in order.iter().enumerate() {
        if *id == i {
            continue;
        }
        let mut p = 0;
        while let Some(pid) = id.param_by_idx(p) {
            p += 1;
            if pid.is_atom() {
                let (lo, hi) = pid.setting_min_max().unwrap();
                if let SAtom::Setting(_) = pid.as_atom_def() {
                    if lo < hi && any::<bool>() {
                        params.push((pid, SAtom::setting(i64_in(lo, hi))));
                    }
                }
                continue;
            }
            if any::<bool>() {
                let ((lo, hi), _) = pid.param_min_max().unwrap();
                params.push((pid, SAtom::param(f32_in(lo, hi))));
            }
            // BiqFilt looks at its controls once per block (see its help text), Sampl at the declick time
            let per_block = id.name() == "biqfilt" && pid.name() != "inp" || id.name() == "sampl" && pid.name() == "dcms";
            if !per_block && (u8_in(0, 2) == 0 || dense) || *id == o {
                let src = order[if *id == o { k - 1 } else { usize_in(0, k - 1) }];
                let n = NodeInfo::from_node_id(src).out_count();
                if n > 0 {
                    edges.push((src, u8_in(0, n as u8 - 1), *id, pid.inp()));
                    if any::<u8>() % 4 == 0 {
                        mods.push((pid, f32_in(-1.0, 1.0)));
                    }
                }
            }
        }
    }
    // a sample to play and a pattern to follow
    let audio: std::sync::Arc<Vec<f32>> = std::sync::Arc::new(
        std::iter::once(44100.0).chain((0..usize_in(400, 3000)).map(|k| (k as f32 * 0.37).sin() * 0.9)).collect());
    for id in ids.iter().filter(|i| i.name() == "sampl") {
        params.push((id.inp_param("sample").unwrap(), SAtom::AudioSample(("a".to_string(), Some(audio.clone())))));
    }
    let rows: Vec<(usize, usize, u16)> = (0..usize_in(0, 40)).map(|_| (usize_in(0, 31), usize_in(0, 5), usize_in(0, 0xfff) as u16)).collect();
    let columns = u8_in(0, 3);
    let frames = usize_in(300, 1500);
    let wave = || -> Vec<f32> {
        let (f, a) = (f32_in(0.001, 0.3), if any::<bool>() { 1.0 } else { f32_in(0.0, 1.0) });
        let step = u8_in(0, 4);
        (0..frames).map(|k| match step {
            0 => a * (k as f32 * f).sin(),
            1 => if (k as f32 * f) as usize % 7 == 3 { a } else { 0.0 },
            2 => a * (k as f32 * f).sin().abs(),
            3 => a * ((k as f32 * f * 0.1) % 1.0),
            _ => a,
        }).collect()
    };
    let (input, input2) = (wave(), wave());
    let mut ev: Vec<(usize, HxMidiEvent)> = vec![];
    let mut t = 0;
    for _ in 0..usize_in(0, 8) {
        t += usize_in(0, 200);
        let (c, n) = (u8_in(0, 1), u8_in(59, 61));
        ev.push((t, match u8_in(0, 2) {
            0 => HxMidiEvent::NoteOn { channel: c, note: n, vel: f32_in(0.0, 1.0) },
            1 => HxMidiEvent::NoteOff { channel: c, note: n },
            _ => HxMidiEvent::CC { channel: c, cc: u8_in(0, 3), value: f32_in(0.0, 1.0) },
        }));
    }
    let run = |random: bool| {
        let (mut nc, mut ex) = new_node_engine();
        ex.no_logging();
        ex.set_sample_rate(srate);
        for id in &order {
            nc.create_node(*id);
        }
        for (p, v) in &params {
            nc.set_param(*p, v.clone());
        }
        for id in ids.iter().filter(|i| i.name() == "tseq") {
            let global = nc.get_node_global();
            let data = global.lock().unwrap().get_pattern_data(id.instance());
            let mut data = data.lock().unwrap();
            for c in 0..6 {
                match (columns + c as u8) % 4 {
                    0 => data.set_col_note_type(c),
                    1 => data.set_col_step_type(c),
                    2 => data.set_col_value_type(c),
                    _ => data.set_col_gate_type(c),
                }
            }
            for (r, c, v) in &rows {
                // probabilities of gates are random
                let v = if (columns + *c as u8) % 4 == 3 { v | 0xf00 } else { *v };
                data.set_cell_value(*r, *c, v);
            }
            drop(data);
            global.lock().unwrap().check_pattern_data(id.instance());
        }
        for (p, v) in &mods {
            nc.set_param_modamt(*p, Some(*v));
        }
        let mut prog = nc.rebuild_node_ports();
        for id in &order {
            nc.add_prog_node(&mut prog, id);
        }
        for (a, ai, b, bi) in &edges {
            nc.set_prog_node_exec_connection(&mut prog, (*b, *bi), (*a, *ai));
        }
        nc.upload_prog(prog, true);
        let (mut l, mut r) = (vec![0.0f32; frames], vec![0.0f32; frames]);
        let (mut pos, mut e) = (0, 0);
        let mut blocks = vec![];
        while pos < frames {
            let n = (if random { usize_in(1, 128) } else { 128 }).min(frames - pos);
            blocks.push(n);
            ex.process_graph_updates();
            ex.feed_midi_events_from(|| {
                if e < ev.len() && ev[e].0 < pos + n {
                    e += 1;
                    let t = ev[e - 1].0 - pos;
                    return Some(match ev[e - 1].1 {
                        HxMidiEvent::NoteOn { channel, note, vel } => HxTimedEvent::note_on(t, channel, note, vel),
                        HxMidiEvent::NoteOff { channel, note } => HxTimedEvent::note_off(t, channel, note),
                        HxMidiEvent::CC { channel, cc, value } => HxTimedEvent::cc(t, channel, cc, value),
                    });
                }
                None
            });
            let (lo, ro) = (&mut l[pos..pos + n], &mut r[pos..pos + n]);
            ex.process(&mut hexodsp::Context {
                nframes: n,
                output: &mut [lo, ro],
                input: &[&input[pos..pos + n], &input2[pos..pos + n]],
            });
            pos += n;
        }
        (l, r, blocks)
    };
    let (l, r, _) = run(false);
    let (l2, r2, blocks) = run(true);
    for k in 0..frames {
        for (a, b) in [(l[k], l2[k]), (r[k], r2[k])] {
            assert!(a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan() ,
                "sample {} is {} or {} with blocks {:?} (nodes {:?}, parameters {:?}, mods {:?}, edges {:?}, events {:?})", k, a, b, &blocks[..blocks.len().min(12)], ids, params, mods, edges, ev);
        }
    }
    reach!(l.iter().any(|v| *v != 0.0), "sound");
}

/// Inp, one of the mixing and mapping nodes, Out: what is heard against the law of the node.
#[cfg(not(kani))]
fn law_case() {
    use hexodsp::dsp::tracker::UIPatternModel;
    use hexodsp::nodes::*;
    use hexodsp::*;
    let kind = usize_in(0, 5);
    let id = [NodeId::Amp(0), NodeId::Mix3(0), NodeId::Map(0), NodeId::SMap(0), NodeId::Mux9(0), NodeId::Amp(1)][kind];
    let (i, o) = (NodeId::Inp(0), NodeId::Out(0));
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(48000.0);
    for n in [i, id, o] {
        nc.create_node(n);
    }
    let n_in = NodeInfo::from_node_id(id).in_count();
    let (mut vals, mut src, mut atoms) = (vec![0.0f32; n_in], vec![0u8; n_in], vec![]);
    let mut p = 0;
    while let Some(pid) = id.param_by_idx(p) {
        if pid.is_atom() {
            let (lo, hi) = pid.setting_min_max().unwrap();
            let v = i64_in(lo, hi);
            nc.set_param(pid, SAtom::setting(v));
            atoms.push((pid.name(), v));
        } else {
            let ((lo, hi), _) = pid.param_min_max().unwrap();
            vals[p] = if pid.name().starts_with("t_") { 0.0 } else { f32_in(lo, hi) };
            nc.set_param(pid, SAtom::param(vals[p]));
        }
        p += 1;
    }
    for _ in 0..usize_in(1, 3) {
        let p = usize_in(0, n_in - 1);
        if !id.inp_param_by_idx(p).unwrap().name().starts_with("t_") {
            src[p] = u8_in(1, 2);
        }
    }
    let atom = |n: &str| atoms.iter().find(|a| a.0 == n).unwrap().1;
    let (ivol, ovol, mono) = (f32_in(0.1, 1.0), f32_in(0.1, 1.0), i64_in(0, 1));
    let ch2_connected = any::<bool>();
    let (pi, po) = (i.inp_param("vol").unwrap(), o.inp_param("vol").unwrap());
    nc.set_param(pi, SAtom::param(ivol));
    nc.set_param(po, SAtom::param(ovol));
    nc.set_param(o.param_by_idx(3).unwrap(), SAtom::setting(mono));
    let mut prog = nc.rebuild_node_ports();
    for n in [i, id, o] {
        nc.add_prog_node(&mut prog, &n);
    }
    for (p, s) in src.iter().enumerate() {
        if *s > 0 {
            nc.set_prog_node_exec_connection(&mut prog, (id, p as u8), (i, *s - 1));
        }
    }
    nc.set_prog_node_exec_connection(&mut prog, (o, 0), (id, 0));
    if ch2_connected {
        nc.set_prog_node_exec_connection(&mut prog, (o, 1), (i, 1));
    }
    nc.upload_prog(prog, true);
    let (giv, gov) = (pi.denorm(ivol), po.denorm(ovol));
    let den = |p: usize, x: f32| id.inp_param_by_idx(p).unwrap().denorm(x);
    let mut settled = 0;
    while settled < 6000 {
        // parameters have been smoothed by then
        let n = usize_in(1, 128);
        let (mut l, mut r) = ([0.0f32; 128], [0.0f32; 128]);
        let a: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
        let b: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
        ex.process_graph_updates();
        ex.process(&mut hexodsp::Context { nframes: n, output: &mut [&mut l[..n], &mut r[..n]], input: &[&a, &b] });
        settled += n;
        if settled < 5500 {
            continue;
        }
        for k in 0..n {
            let x = |p: usize| match src[p] {
                0 => vals[p],
                1 => giv * a[k],
                _ => giv * b[k],
            };
            let law = match id {
                NodeId::Amp(_) => {
                    let att = if atom("neg_att") > 0 { x(2).max(0.0) } else { x(2).abs() };
                    x(0) * den(2, att) * den(1, x(1))
                }
                NodeId::Mix3(_) => (x(0) * den(3, x(3)) + x(1) * den(4, x(4)) + x(2) * den(5, x(5))) * den(6, x(6)),
                NodeId::Map(_) => {
                    let s = x(0) * x(1) + x(2);
                    if (x(4) - x(3)).abs() < 0.01 {
                        continue;
                    }
                    let v = x(5) + (x(6) - x(5)) * ((s - x(3)) / (x(4) - x(3))).abs();
                    if atom("clip") > 0 { v.clamp(x(5).min(x(6)), x(5).max(x(6))) } else { v }
                }
                NodeId::SMap(_) => {
                    let v = if atom("mode") % 2 == 0 { x(0) } else { (x(0) + 1.0) * 0.5 };
                    let v = if atom("clip") > 0 { v.clamp(0.0, 1.0) } else { v };
                    let v = if atom("mode") >= 2 { 1.0 - v } else { v };
                    x(1) + (x(2) - x(1)) * v
                }
                _ => {
                    let max = atom("in_cnt") + 1;
                    if src[0] == 0 {
                        x(4)
                    } else {
                        let sel = max as f32 * (x(0) - 0.00001);
                        if (sel - sel.round()).abs() < 0.001 {
                            continue;
                        }
                        // negative control signals select the first input
                        x(4 + sel.floor().max(0.0) as usize % max as usize)
                    }
                }
            };
            let out2 = if mono > 0 { law } else if ch2_connected { giv * b[k] } else { 0.0 };
            for (got, want, what) in [(l[k], law * gov, "left"), (r[k], out2 * gov, "right")] {
                if !(want.abs() < 1e20) {
                    continue; // the volume curves overflow for signals far beyond +-1
                }
                assert!((got - want).abs() <= 1e-4 * (1.0 + want.abs()),
                    "frame {} of {} ({}): {} instead of {}; node {:?}, parameters {:?}, sources {:?}, settings {:?}, mono {}, input {} {}, Inp volume {}, Out volume {}",
                    k, n, what, got, want, id, vals, src, atoms, mono, a[k], b[k], giv, gov);
            }
            reach!(law != 0.0, "not silent");
        }
    }
}
