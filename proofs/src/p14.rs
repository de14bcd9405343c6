//! P14: the scope handle.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::nodes::SCOPE_SAMPLES;
use hexodsp::ScopeHandle;

fn same(a: (f32, f32), b: (f32, f32)) -> bool {
    a.0.to_bits() == b.0.to_bits() && a.1.to_bits() == b.1.to_bits()
}

harnesses! {
    kani slots (10) {
        let h = ScopeHandle::new_shared();
        let (b1, i1, v1) = (usize_in(0, 2), usize_in(0, SCOPE_SAMPLES - 1), (any::<f32>(), any::<f32>()));
        let (b2, i2) = (usize_in(0, 2), usize_in(0, SCOPE_SAMPLES - 1));
        h.write(b1, i1, v1);
        reach!(b1 != b2, "other buffer");
        let got = h.read(b2, i2);
        if b1 == b2 && i1 == i2 {
            assert!(same(got, v1), "reads what was written");
        } else {
            assert!(same(got, (0.0, 0.0)), "other slots are untouched");
        }
        std::mem::forget(h);
    }
    kani settings (10) {
        let h = ScopeHandle::new_shared();
        let m = any::<u64>();
        h.set_active_from_mask(m);
        for i in 0..3 {
            assert!(h.is_active(i) == ((m >> i) & 1 == 1), "active signal");
        }
        let (k, o, g) = (usize_in(0, 2), any::<f32>(), any::<f32>());
        h.set_offs_gain(k, o, g);
        for i in 0..3 {
            assert!(same(h.get_offs_gain(i), if i == k { (o, g) } else { (0.0, 0.0) }), "offset and gain");
        }
        let t = any::<f32>();
        assert!(h.get_threshold().is_none());
        h.set_threshold(Some(t));
        assert!(h.get_threshold().map(|x| x.to_bits()) == Some(t.to_bits()), "threshold");
        h.set_threshold(None);
        assert!(h.get_threshold().is_none(), "no threshold");
        std::mem::forget(h);
    }
    kani oversampled (12) {
        let h = ScopeHandle::new_shared();
        let (b1, i1, c, v) = (usize_in(0, 2), usize_in(0, 7), usize_in(0, 10), any::<f32>());
        h.write_oversampled(b1, i1, c, v);
        let (b2, i2) = (usize_in(0, 2), usize_in(0, 7));
        reach!(i1 + c > SCOPE_SAMPLES, "clipped at the end");
        let hit = b1 == b2 && i2 >= i1 && i2 < i1 + c;
        assert!(same(h.read(b2, i2), if hit { (v, v) } else { (0.0, 0.0) }), "copies from the position on, up to the end");
        std::mem::forget(h);
    }
    bounded handle_model (2000) {
        let h = ScopeHandle::new_shared();
        let mut m = vec![vec![(0.0f32, 0.0f32); h.len()]; 3];
        for _ in 0..usize_in(1, 30) {
            let b = usize_in(0, 2);
            if any::<bool>() {
                let (i, v) = (usize_in(0, h.len() - 1), (f32_in(-1.0, 1.0), f32_in(-1.0, 1.0)));
                h.write(b, i, v);
                m[b][i] = v;
            } else {
                let (i, c, v) = (usize_in(0, h.len() - 1), usize_in(0, h.len() + 5), f32_in(-1.0, 1.0));
                h.write_oversampled(b, i, c, v);
                for k in i..(i + c).min(h.len()) {
                    m[b][k] = (v, v);
                }
            }
        }
        for b in 0..3 {
            for i in 0..h.len() {
                assert!(same(h.read(b, i), m[b][i]), "slot {} of signal {}", i, b);
            }
        }
    }
    bounded scope_node (60) { node_case(); }
    bounded scope_recording (200) { recording_case(); }
}

/// The Scope node with trigger off: the handle shows the recorded signals.
#[cfg(not(kani))]
fn node_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    let sc = NodeId::Scope(0);
    nc.create_node(sc);
    nc.create_node(NodeId::Inp(0));
    let which = ["in1", "in2", "in3"];
    let conn: Vec<bool> = (0..3).map(|_| any::<bool>()).collect();
    let vals: Vec<f32> = (0..3).map(|_| f32_in(-0.9, 0.9)).collect();
    for i in 0..3 {
        nc.set_param(sc.inp_param(which[i]).unwrap(), SAtom::param(vals[i]));
    }
    nc.set_param(sc.inp_param("tsrc").unwrap(), SAtom::setting(0));
    // oversampled (< 11.6 ms) and min/max mode
    let time = if any::<bool>() { f32_in(1.0, 9.0) } else { f32_in(20.0, 40.0) };
    let tp = sc.inp_param("time").unwrap();
    nc.set_param(tp, SAtom::param(tp.norm(time)));
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &NodeId::Inp(0));
    nc.add_prog_node(&mut prog, &sc);
    for i in 0..3 {
        if conn[i] {
            nc.set_prog_node_exec_connection(
                &mut prog,
                (sc, sc.inp(which[i]).unwrap()),
                (NodeId::Inp(0), NodeId::Inp(0).out("sig1").unwrap()),
            );
        }
    }
    nc.upload_prog(prog, true);
    let x = f32_in(-0.9, 0.9);
    ex.test_run_input(&vec![x; 1024], false, &[]);
    ex.test_run_input(&vec![x; 8192], false, &[]);
    let h = nc.get_node_global().lock().unwrap().get_scope_handle(0);
    assert!(h.get_threshold().is_none(), "trigger is off");
    for i in 0..3 {
        assert!(h.is_active(i) == conn[i], "active flag of signal {}", i);
        let w = if conn[i] { x } else { vals[i] };
        for k in 0..h.len() {
            let v = h.read(i, k);
            assert!((v.0 - w).abs() < 1e-5 && (v.1 - w).abs() < 1e-5, "signal {} at {}: {:?} want {}", i, k, v, w);
        }
    }
}

#[cfg(not(kani))]
struct Rec {
    id: hexodsp::NodeId,
    /// parameter values of in1, in2, in3, thrsh, off1..3, gain1..3, trig and where they are connected (Inp sig1 or sig2)
    vals: Vec<f32>,
    conn: Vec<Option<u8>>,
    tsrc: i64,
    time: f32,
    // the recording
    shown: Vec<Vec<(f32, f32)>>,
    idx: usize,
    in_point: f32,
    mm: Vec<(f32, f32)>,
    high: bool,
}

/// One or two Scope nodes with changing signals, triggers, offsets and gains: the display is the recording.
#[cfg(not(kani))]
fn recording_case() {
    use hexodsp::nodes::*;
    use hexodsp::*;
    const NAMES: [&str; 11] = ["in1", "in2", "in3", "thrsh", "off1", "off2", "off3", "gain1", "gain2", "gain3", "trig"];
    let srate = [44100.0f32, 48000.0, 96000.0][usize_in(0, 2)];
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(srate);
    let inp = NodeId::Inp(0);
    nc.create_node(inp);
    let mut recs: Vec<Rec> = vec![];
    for _ in 0..usize_in(1, 2) {
        let id = NodeId::Scope(u8_in(0, 7));
        if recs.iter().any(|r| r.id == id) {
            continue;
        }
        let vals: Vec<f32> = (0..11).map(|k| if k == 10 { -1.0 } else if k >= 7 { f32_in(0.0, 1.0) } else { f32_in(-0.9, 0.9) }).collect();
        let conn: Vec<Option<u8>> = (0..11).map(|k| {
            let odds = if k < 3 || k == 10 { 2 } else { 0 };
            if u8_in(0, 3) <= odds { Some(u8_in(0, 1)) } else { None }
        }).collect();
        // less than one sample per point or several
        let one = 512.0 * 1000.0 / srate;
        let long = u8_in(0, 24) == 24;
        let time = if long { f32_in(150_000.0, 310_000.0) } else { match u8_in(0, 3) { 0 => f32_in(0.2, one * 0.9), 1 => f32_in(one * 0.3, one * 0.99), 2 => f32_in(one * 1.01, one * 1.9), _ => f32_in(one * 1.9, one * 5.0) } };
        let shown = (0..3).map(|k| vec![if conn[k].is_some() { (-1.0, -1.0) } else { (vals[k], vals[k]) }; 512]).collect();
        recs.push(Rec { id, vals, conn, tsrc: i64_in(0, 2), time, shown, idx: 512, in_point: 0.0, mm: vec![(-99999.0, 99999.0); 3], high: false });
        nc.create_node(id);
    }
    let set = |nc: &mut NodeConfigurator, r: &Rec, n: &str, v: f32| nc.set_param(r.id.inp_param(n).unwrap(), SAtom::param(v));
    for r in &recs {
        for k in 0..11 {
            set(&mut nc, r, NAMES[k], r.vals[k]);
        }
        let tp = r.id.inp_param("time").unwrap();
        nc.set_param(tp, SAtom::param(tp.norm(1.0)));
        nc.set_param(r.id.inp_param("tsrc").unwrap(), SAtom::setting(0));
    }
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &inp);
    for r in &recs {
        nc.add_prog_node(&mut prog, &r.id);
    }
    for r in &recs {
        for k in 0..11 {
            if let Some(c) = r.conn[k] {
                let o = inp.out(["sig1", "sig2"][c as usize]).unwrap();
                nc.set_prog_node_exec_connection(&mut prog, (r.id, r.id.inp(NAMES[k]).unwrap()), (inp, o));
            }
        }
    }
    nc.upload_prog(prog, true);
    let mut block = |ex: &mut NodeExecutor, a: &[f32], b: &[f32]| {
        let n = a.len();
        let (mut l, mut r) = (vec![0.0f32; n], vec![0.0f32; n]);
        ex.process_graph_updates();
        ex.process(&mut hexodsp::Context { nframes: n, output: &mut [&mut l, &mut r], input: &[a, b] });
    };
    let low = vec![-1.0f32; 100];
    // one recording of the lowest value, then wait for the trigger, then the real settings
    for _ in 0..11 {
        block(&mut ex, &low, &low);
    }
    for r in &recs {
        nc.set_param(r.id.inp_param("tsrc").unwrap(), SAtom::setting(2));
    }
    for _ in 0..11 {
        block(&mut ex, &low, &low);
    }
    for r in &mut recs {
        let tp = r.id.inp_param("time").unwrap();
        let v = tp.norm(r.time);
        nc.set_param(tp, SAtom::param(v));
        r.time = tp.denorm(v).min(300_000.0);
    }
    for _ in 0..11 {
        block(&mut ex, &low, &low);
    }
    for r in &recs {
        nc.set_param(r.id.inp_param("tsrc").unwrap(), SAtom::setting(r.tsrc));
    }
    // the recorded signals
    let frames = if recs.iter().any(|r| r.time > 100_000.0) { 62_000 } else if any::<bool>() { usize_in(50, 900) } else { usize_in(900, 6000) };
    let wave = || -> Vec<f32> {
        let (f, a) = (f32_in(0.001, 0.3), f32_in(0.2, 1.0));
        let kind = u8_in(0, 3);
        (0..frames).map(|k| match kind {
            0 => a * (k as f32 * f).sin(),
            1 => if (k as f32 * f) as usize % 7 == 3 { a } else { -0.5 },
            2 => a * ((k as f32 * f * 0.1) % 1.0) - 0.3,
            _ => a * (k as f32 * 0.37).sin() * (k as f32 * f).cos(),
        }).collect()
    };
    let raw = [wave(), wave()];
    // as they come out of the Inp node
    let gain = inp.inp_param("vol").unwrap();
    let gain = { let SAtom::Param(d) = gain.as_atom_def() else { panic!() }; gain.denorm(d) };
    let sigs: Vec<Vec<f32>> = raw.iter().map(|w| w.iter().map(|x| gain * x).collect()).collect();
    for r in &mut recs {
        for k in 0..3 {
            if r.conn[k].is_some() {
                r.shown[k] = vec![(-gain, -gain); 512];
            }
        }
    }
    let mut pos = 0;
    let mut first = 0;
    while pos < frames {
        let n = (if any::<bool>() { 128 } else { usize_in(1, 128) }).min(frames - pos);
        block(&mut ex, &raw[0][pos..pos + n], &raw[1][pos..pos + n]);
        first = pos;
        pos += n;
        for r in &mut recs {
            let at = |r: &Rec, k: usize, f: usize| r.conn[k].map(|c| sigs[c as usize][f]).unwrap_or(r.vals[k]);
            let thr = at(r, 3, first);
            let per_point = r.time * (srate / 1000.0) / 512.0;
            for f in first..pos {
                let v: Vec<f32> = (0..3).map(|k| at(r, k, f)).collect();
                if r.idx < 512 {
                    if per_point < 1.0 {
                        // every sample fills several points
                        let copies = ((1.0 / per_point) as usize).min(512);
                        for k in 0..3 {
                            for x in r.idx..(r.idx + copies).min(512) {
                                r.shown[k][x] = (v[k], v[k]);
                            }
                        }
                        r.idx += copies;
                    } else {
                        for k in 0..3 {
                            r.mm[k] = (r.mm[k].0.max(v[k]), r.mm[k].1.min(v[k]));
                        }
                        let len = r.time / 512.0;
                        if r.in_point >= len {
                            for k in 0..3 {
                                r.shown[k][r.idx] = r.mm[k];
                            }
                            r.mm = vec![(-99999.0, 99999.0); 3];
                            r.idx += 1;
                            r.in_point -= len;
                        }
                        r.in_point += 1.0 / (srate / 1000.0);
                    }
                }
                if r.idx >= 512 {
                    let t = if r.tsrc == 2 { at(r, 10, f) } else { at(r, 0, f) };
                    let mut hit = false;
                    if r.tsrc != 0 || per_point >= 1.0 {
                        if r.high {
                            r.high = t > thr;
                        } else if t > thr + 0.0001 {
                            r.high = true;
                            hit = true;
                        }
                    }
                    if hit || r.tsrc == 0 {
                        if hit || per_point < 1.0 {
                            r.in_point = 0.0;
                        }
                        r.idx = 0;
                        r.mm = vec![(-99999.0, 99999.0); 3];
                    }
                }
            }
        }
    }
    for r in &recs {
        let at = |k: usize, f: usize| r.conn[k].map(|c| sigs[c as usize][f]).unwrap_or(r.vals[k]);
        let h = nc.get_node_global().lock().unwrap().get_scope_handle(r.id.instance());
        assert!(h.get_threshold() == if r.tsrc == 0 { None } else { Some(at(3, first)) }, "threshold {:?} of {}", h.get_threshold(), r.id);
        for i in 0..3 {
            assert!(h.is_active(i) == r.conn[i].is_some(), "active flag of signal {}", i);
            let g = h.get_offs_gain(i);
            let p = r.id.inp_param(NAMES[7 + i]).unwrap();
            let want = (at(4 + i, first), p.denorm(at(7 + i, first)));
            assert!(g.0 == want.0 && (g.1 - want.1).abs() <= want.1.abs() * 1e-5 || g.1.is_nan() && want.1.is_nan(), "offset and gain {:?} of signal {}, want {:?}", g, i, want);
            for k in 0..512 {
                let (v, w) = (h.read(i, k), r.shown[i][k]);
                assert!(same(v, w), "{} signal {} at point {} is {:?}, want {:?} (recording at {}, trigger {}, time {}, connections {:?})", r.id, i, k, v, w, r.idx, r.tsrc, r.time, r.conn);
            }
        }
        reach!(r.idx < 512, "recording");
    }
}
