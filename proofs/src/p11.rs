//! P11: signal monitors show the min/max of exactly the monitored signal.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::monitor::*;

const BLK: usize = 128;
const CHUNK: usize = 900;

fn any_buf() -> MonitorBuf {
    let mut d = [0.0f32; 6 * BLK];
    let (s, k) = (usize_in(0, 5), usize_in(0, 127));
    d[s * BLK + k] = any();
    let mut len = [0usize; 6];
    let mut rd = [0usize; 6];
    for i in 0..6 {
        len[i] = usize_in(0, BLK);
        rd[i] = usize_in(0, BLK);
    }
    MonitorBuf::verif_new(d, len, rd)
}

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(MonitorBuf::next_sample_for_signal)]
    #[kani::unwind(50)]
    fn c_next_sample() {
        any_buf().next_sample_for_signal(any());
    }
    #[kani::proof_for_contract(MonitorBuf::reset)]
    #[kani::unwind(50)]
    fn c_reset() {
        any_buf().reset();
    }
    #[kani::proof_for_contract(MinMaxMonitorSamples::at)]
    fn c_at() {
        MinMaxMonitorSamples::verif_new([(0.0, 0.0); MONITOR_MINMAX_SAMPLES], any()).at(any());
    }
}

harnesses! {
    // What is fed for a signal is what comes out for that signal, once.
    kani feed_then_read (50) {
        for s in [0usize, 2, 5] {
            let mut b = MonitorBuf::alloc();
            let src = [any::<f32>(), any::<f32>(), any::<f32>()];
            b.feed(s, 2, &src[..]);
            for i in 0..3 {
                let r = b.next_sample_for_signal(s);
                assert!(r.map(|v| v.to_bits()) == if i < 2 { Some(src[i].to_bits()) } else { None }, "fed samples in order");
            }
            for o in 0..6 {
                assert!(b.next_sample_for_signal(o).is_none(), "other signals stay empty");
            }
            b.reset();
            assert!(b.next_sample_for_signal(s).is_none(), "reset empties the buffer");
        }
    }
    // One sample of the min/max accumulation, from any accumulator state.
    kani minmax_step (50) {
        let s = 4;
        let (wp, cnt) = (usize_in(0, MONITOR_MINMAX_SAMPLES - 1), usize_in(0, CHUNK - 1));
        // the minimum and maximum so far: nothing, or those of `cnt` samples
        let (mn, mx, v) = if cnt == 0 {
            (f32::INFINITY, f32::NEG_INFINITY, any::<f32>())
        } else {
            (any::<f32>(), any::<f32>(), any::<f32>())
        };
        assume(!mn.is_nan() && !mx.is_nan() && v.is_finite());
        let mut m = MonitorMinMax::verif_new(s, wp, (mn, mx, cnt));
        let mut b = MonitorBuf::alloc();
        b.feed(s, 1, &[v][..]);
        let new = m.process(&mut b);
        let (lo, hi) = (if v < mn { v } else { mn }, if v > mx { v } else { mx });
        let (buf, wp2, cur) = m.verif_state();
        reach!(new, "new data point");
        reach!(!new, "accumulating");
        assert!(new == (cnt + 1 == CHUNK), "one data point per {} samples", CHUNK);
        if new {
            assert!(buf[wp].0 == lo && buf[wp].1 == hi, "min/max of the samples");
            assert!(wp2 == if wp + 1 == MONITOR_MINMAX_SAMPLES { 0 } else { wp + 1 }, "ring position");
            assert!(cur.2 == 0 && cur.0 == f32::INFINITY && cur.1 == f32::NEG_INFINITY, "starts over");
        } else {
            assert!(cur.0 == lo && cur.1 == hi && cur.2 == cnt + 1 && wp2 == wp, "accumulates");
        }
    }

    bounded feed_any (2000) {
        let mut b = MonitorBuf::alloc();
        let (s, n) = (usize_in(0, 5), usize_in(0, BLK));
        let src: Vec<f32> = (0..BLK).map(|_| any::<f32>()).collect();
        b.feed(s, n, &src[..]);
        for o in 0..6 {
            let mut k = 0;
            while let Some(v) = b.next_sample_for_signal(o) {
                assert!(o == s && k < n && v.to_bits() == src[k].to_bits(), "fed samples in order");
                k += 1;
            }
            assert!(k == if o == s { n } else { 0 }, "all fed samples");
        }
    }
    bounded processor_model (60) { processor_case(); }
    bounded engine_monitor (48) { engine_case(); }
}

/// Backend -> processor with random block sizes and signals against a plain model.
#[cfg(not(kani))]
fn processor_case() {
    let count = usize_in(2, 12);
    let (mut be, mut pr) = verif_monitor_pair(count);
    let mut hist: Vec<Vec<f32>> = vec![vec![]; 6];
    let mut pending = 0;
    let steps = usize_in(1, 1500);
    let mut any_new = false;
    for _ in 0..steps {
        match u8_in(0, 9) {
            0 | 1 => {
                pr.process();
                any_new |= pr.check_new_data();
                pending = 0;
            }
            _ => {
                be.check_recycle();
                assert!(be.count_unused_mon_bufs() + pending <= count, "buffers are neither lost nor duplicated");
                if let Some(mut b) = be.get_unused_mon_buf() {
                    let s = usize_in(0, 5);
                    let n = usize_in(1, BLK);
                    let scale = if any::<bool>() { f32_in(0.0, 2.0) } else { f32_in(-1000.0, 1000.0) };
                    let d: Vec<f32> = (0..BLK).map(|i| ((hist[s].len() + i) as f32 * 0.37).sin() * scale).collect();
                    b.feed(s, n, &d[..]);
                    hist[s].extend_from_slice(&d[..n]);
                    be.send_mon_buf(b);
                    pending += 1;
                } else {
                    assert!(pending == count, "buffers are only missing while they are in flight");
                }
            }
        }
    }
    pr.process();
    be.check_recycle();
    any_new |= pr.check_new_data();
    assert!(be.count_unused_mon_bufs() == count, "all buffers come back: {} of {}", be.count_unused_mon_bufs(), count);
    assert!(!pr.check_new_data(), "new data is reported once");
    assert!(any_new == hist.iter().any(|h| h.len() >= CHUNK), "new data is reported");
    for s in 0..6 {
        let mut want: Vec<(f32, f32)> = hist[s]
            .chunks_exact(CHUNK)
            .map(|c| c.iter().fold((f32::INFINITY, f32::NEG_INFINITY), |a, v| (a.0.min(*v), a.1.max(*v))))
            .collect();
        let n = want.len();
        let mut all = vec![(0.0, 0.0); MONITOR_MINMAX_SAMPLES];
        all.append(&mut want);
        let want = &all[n..];
        let (p, sl) = pr.minmax_slice_for_signal(s);
        for k in 0..MONITOR_MINMAX_SAMPLES {
            let got = sl[(p + k) % MONITOR_MINMAX_SAMPLES];
            assert!(got == want[k], "signal {} data point {}: {:?} want {:?}", s, k, got, want[k]);
        }
    }
}

/// The whole way: constant signals through the engine into the monitor slots.
#[cfg(not(kani))]
fn engine_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    // (node, number of inputs to choose from, outputs to choose from)
    let (amp, n_in, n_out) = match u8_in(0, 2) {
        0 => (NodeId::Amp(u8_in(0, 3)), 3, 1),
        1 => (NodeId::Mux9(0), 13, 1),
        _ => (NodeId::TSeq(0), 2, 12),
    };
    nc.create_node(NodeId::Out(0));
    nc.create_node(amp);
    match amp {
        NodeId::Amp(_) => {
            let (inp, gain) = (f32_in(-0.9, 0.9), f32_in(0.1, 0.9));
            nc.set_param(amp.inp_param("inp").unwrap(), SAtom::param(inp));
            nc.set_param(amp.inp_param("gain").unwrap(), SAtom::param(gain));
        }
        NodeId::Mux9(_) => {
            for k in 1..=9 {
                nc.set_param(amp.inp_param(&format!("in_{}", k)).unwrap(), SAtom::param(f32_in(-0.9, 0.9)));
            }
        }
        _ => {
            use hexodsp::dsp::tracker::UIPatternModel;
            let global = nc.get_node_global();
            let mut global = global.lock().unwrap();
            let data = global.get_pattern_data(0);
            let mut p = data.lock().unwrap();
            for t in 0..6 {
                p.set_col_step_type(t);
                if any::<u8>() % 3 != 0 {
                    p.set_cell_value(0, t, (any::<u16>() % 0xfff) + 1);
                }
            }
            drop(p);
            for _ in 0..8 {
                global.check_pattern_data(0);
            }
        }
    }
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &amp);
    nc.add_prog_node(&mut prog, &NodeId::Out(0));
    nc.upload_prog(prog, true);
    ex.test_run_input(&vec![0.0; 1024], false, &[]);
    let out: Vec<f32> = {
        nc.update_output_feedback();
        (0..n_out).map(|o| nc.out_fb_for(&amp, o).unwrap()).collect()
    };
    // which of the six slots shows what
    let mut ins = vec![];
    for _ in 0..usize_in(0, 3) {
        ins.push(if any::<bool>() { Some(u8_in(0, n_in - 1)) } else { None });
    }
    let outs: Vec<Option<u8>> = (0..usize_in(0, 3)).map(|_| if any::<bool>() { Some(u8_in(0, n_out - 1)) } else { None }).collect();
    nc.monitor(&amp, &ins, &outs);
    // a node that does not exist shows nothing, whatever was shown before
    let gone = any::<u8>() % 4 == 0;
    if gone {
        nc.monitor(&NodeId::Amp(7), &ins, &outs);
    }
    let pv: Vec<f32> = (0..n_in)
        .map(|i| nc.get_param(&amp.inp_param_by_idx(i as usize).unwrap()).unwrap().f())
        .collect();
    ex.test_run_input(&vec![0.0; 1152], false, &[]);
    let mut want = [None; 6];
    for (i, x) in ins.iter().enumerate() {
        want[i] = x.map(|x| pv[x as usize]);
    }
    for (i, x) in outs.iter().enumerate() {
        want[3 + i] = x.map(|x| out[x as usize]);
    }
    if gone {
        want = [None; 6];
    }
    // the monitor thread runs on its own clock
    let used: Vec<usize> = (0..6).filter(|i| want[*i].is_some()).collect();
    let start = std::time::Instant::now();
    while let Some(u) = used.last() {
        let s = nc.get_minmax_monitor_samples(*u);
        if s[MONITOR_MINMAX_SAMPLES - 1] != (0.0, 0.0) || start.elapsed().as_millis() > 20000 || want[*u] == Some(0.0) {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
    std::thread::sleep(std::time::Duration::from_millis(40));
    for i in 0..6 {
        let s = nc.get_minmax_monitor_samples(i)[MONITOR_MINMAX_SAMPLES - 1];
        let w = want[i].unwrap_or(0.0);
        if start.elapsed().as_millis() > 20000 && s == (0.0, 0.0) {
            assert!(w.abs() < 1e-6, "slot {} shows no data", i);
        }
        assert!((s.0 - w).abs() < 1e-5 && (s.1 - w).abs() < 1e-5, "slot {} shows {:?} want {} (ins={:?} outs={:?})", i, s, w, ins, outs);
    }
}
