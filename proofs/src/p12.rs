//! P12: LED and output feedback values.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::nodes::visual_sampling_filter::VisualSamplingFilter;
use hexodsp::verif::*;

fn any_window() -> [f32; 10] {
    let mut b = [0.0f32; 10];
    for v in b.iter_mut() {
        *v = any();
    }
    b
}

/// One call from any state with the write position `p`.
fn step(p: usize) {
    let (rc, b, last) = (any::<bool>(), any_window(), (any::<f32>(), any::<f32>()));
    let mut f = VisualSamplingFilter::verif_new(rc, p, b, last);
    let (arg, s) = (any::<bool>(), any::<f32>());
    let r = f.get(arg, s);
    let (rc2, p2, b2, last2) = f.verif_state();
    reach!(arg != rc, "new frame");
    reach!(arg == rc, "same frame");
    assert!(rc2 == arg && same_pair(last2, r), "remembers the answer");
    if arg == rc {
        assert!(same_pair(r, last) && p2 == p && same_samples(&b2, &b), "same frame: same answer, no new sample");
    } else {
        let mut w = b;
        w[(p + 1) % 10] = s;
        assert!(p2 == (p + 1) % 10 && same_samples(&b2, &w), "the sample replaces the oldest one");
    }
}

harnesses! {
    kani step_first (12) { step(0); }
    kani step_inner (12) { step(usize_in(0, 9)); }
    kani step_wrap (12) { step(9); }
    // any frame after any history: the extremes of the last ten samples
    kissat window_bound (12) {
        let b = any_window();
        let p = 9;
        let rc = true;
        let mut f = VisualSamplingFilter::verif_new(rc, p, b, (any(), any()));
        let s = any::<f32>();
        let mut w = b;
        w[(p + 1) % 10] = s;
        let r = f.get(!rc, s);
        let v = w[usize_in(0, 9)];
        reach!(r.0 > 0.0 && r.1 > 0.0, "both signs");
        assert!(!(v < 0.0) || -v <= r.0, "the most negative value");
        assert!(!(v >= 0.0) || v <= r.1, "the most positive value");
        assert!(same_pair(f.get(!rc, any()), r), "stable within a frame");
    }
    // and they are values of the window
    kissat window_hit (12) {
        let b = any_window();
        let p = 9;
        let rc = true;
        let mut f = VisualSamplingFilter::verif_new(rc, p, b, (0.0, 0.0));
        let s = any::<f32>();
        let mut w = b;
        w[(p + 1) % 10] = s;
        let r = f.get(!rc, s);
        let (mut hit0, mut hit1) = (r.0 == 0.0, r.1 == 0.0);
        for v in w {
            hit0 |= v < 0.0 && -v == r.0;
            hit1 |= v >= 0.0 && v == r.1;
        }
        assert!(hit0 && hit1, "values of the window");
    }
    bounded filter_model (400) { filter_case(); }
    bounded engine_feedback (150) { engine_case(); }
    bounded last_values (200) { last_values_case(); }
}

#[cfg(not(kani))]
fn filter_case() {
    use hexodsp::nodes::FeedbackFilter;
    use hexodsp::NodeId;
    let mut ff = FeedbackFilter::new();
    let ids = [NodeId::Amp(u8_in(0, 1)), NodeId::Amp(u8_in(2, 255)), [NodeId::Sin(0), NodeId::TSeq(0), NodeId::Nop][usize_in(0, 2)]];
    let o1 = u8_in(0, 40);
    let outs = [o1, if any::<bool>() { o1 ^ (1 << u8_in(0, 7)) } else { o1.wrapping_add(u8_in(1, 255)) }];
    // (last output, samples)
    let mut model: std::collections::HashMap<(usize, u8), (usize, (f32, f32), Vec<f32>)> = Default::default();
    let mut frame = 1usize;
    for _ in 0..usize_in(1, 120) {
        if any::<u8>() % 4 == 0 {
            ff.trigger_recalc();
            frame += 1;
            continue;
        }
        let (n, o, v) = (usize_in(0, 2), u8_in(0, 2), f32_in(-1.0, 1.0));
        // o == 2 means the LED of the node; what a display asks for, it asks for every frame
        let got = if o == 2 { ff.get_led(&ids[n], v) } else { ff.get_out(&ids[n], outs[o as usize], v) };
        let e = model.entry((n, o)).or_insert((0, (0.0, 0.0), vec![]));
        // the filter distinguishes odd and even frames
        let new = if e.2.is_empty() && e.0 == 0 { frame % 2 == 1 } else { e.0 % 2 != frame % 2 };
        if new {
            e.2.push(v);
            let k = e.2.len().saturating_sub(10);
            let w = &e.2[k..];
            e.1 = (
                w.iter().filter(|v| **v < 0.0).fold(0.0f32, |a, v| a.max(-v)),
                w.iter().filter(|v| **v >= 0.0).fold(0.0f32, |a, v| a.max(*v)),
            );
            e.0 = frame;
        }
        assert!(got == e.1, "filter of {:?} {}: {:?} want {:?}", ids[n], o, got, e.1);
    }
}

/// LED/phase/output feedback values belong to the node that was asked for.
#[cfg(not(kani))]
fn engine_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    let n = usize_in(1, 6);
    let mut vals = vec![];
    let mut ids = vec![];
    for i in 0..n {
        if any::<bool>() {
            nc.create_node(NodeId::Sin(i as u8));
        }
        let id = NodeId::Amp(i as u8);
        nc.create_node(id);
        let v = f32_in(-0.9, 0.9);
        nc.set_param(id.inp_param("inp").unwrap(), SAtom::param(v));
        vals.push(v);
        ids.push(id);
    }
    let mut prog = nc.rebuild_node_ports();
    let rev = any::<bool>();
    for k in 0..n {
        nc.add_prog_node(&mut prog, &ids[if rev { n - 1 - k } else { k }]);
    }
    nc.upload_prog(prog, true);
    ex.test_run_input(&vec![0.0; 1024], false, &[]);
    // the filters of a node that is asked for the first time start with the next frame
    nc.update_filters();
    for k in 0..n {
        nc.filtered_led_for(&ids[k]);
        nc.filtered_out_fb_for(&ids[k], ids[k].out("sig").unwrap());
    }
    nc.update_filters();
    for k in 0..n {
        let sig = ids[k].out("sig").unwrap();
        let (o, l) = (nc.out_fb_for(&ids[k], sig).unwrap(), nc.led_value_for(&ids[k]));
        assert!((o - vals[k]).abs() < 1e-4, "output feedback of {:?}: {} want {}", ids[k], o, vals[k]);
        assert!((l - vals[k]).abs() < 1e-4, "LED of {:?}: {} want {}", ids[k], l, vals[k]);
        let want = if vals[k] < 0.0 { (-vals[k], 0.0) } else { (0.0, vals[k]) };
        for g in [nc.filtered_led_for(&ids[k]), nc.filtered_out_fb_for(&ids[k], sig)] {
            assert!((g.0 - want.0).abs() < 1e-4 && (g.1 - want.1).abs() < 1e-4, "filtered value {:?} want {:?}", g, want);
        }
        assert!(nc.out_fb_for(&ids[k], 77).is_none(), "no such output");
    }
    assert!(nc.out_fb_for(&NodeId::Amp(99), 0).is_none() && nc.led_value_for(&NodeId::Amp(99)) == 0.0, "no such node");
}

/// Output feedback and LED of changing signals and blocks of any size: the last frame of the last block.
#[cfg(not(kani))]
fn last_values_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(44100.0);
    let inp = NodeId::Inp(0);
    let n = usize_in(1, 4);
    let amps: Vec<NodeId> = (0..n).map(|k| NodeId::Amp(k as u8)).collect();
    let src: Vec<u8> = (0..n).map(|_| u8_in(0, 1)).collect();
    nc.create_node(inp);
    for a in &amps {
        nc.create_node(*a);
    }
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &inp);
    for a in &amps {
        nc.add_prog_node(&mut prog, a);
    }
    let port = |k: u8| inp.out(["sig1", "sig2"][k as usize]).unwrap();
    for (a, k) in amps.iter().zip(&src) {
        nc.set_prog_node_exec_connection(&mut prog, (*a, a.inp("inp").unwrap()), (inp, port(*k)));
    }
    nc.upload_prog(prog, true);
    let vol = inp.inp_param("vol").unwrap();
    let vol = { let SAtom::Param(d) = vol.as_atom_def() else { panic!() }; vol.denorm(d) };
    for _ in 0..usize_in(1, 12) {
        let f = usize_in(1, 128);
        let x: Vec<Vec<f32>> = (0..2).map(|_| (0..f).map(|_| f32_in(-0.9, 0.9)).collect()).collect();
        let (mut l, mut r) = (vec![0.0f32; f], vec![0.0f32; f]);
        ex.process_graph_updates();
        ex.process(&mut Context { nframes: f, output: &mut [&mut l, &mut r], input: &[&x[0], &x[1]] });
        if any::<bool>() {
            nc.update_output_feedback();
        } else {
            nc.update_filters();
        }
        for k in 0..2u8 {
            let (g, w) = (nc.out_fb_for(&inp, port(k)), vol * x[k as usize][f - 1]);
            assert!(g.map(|g| (g - w).abs() < 1e-5).unwrap_or(false), "output feedback of {} {}: {:?}, want {} ({} frames)", inp, k, g, w, f);
        }
        for (a, k) in amps.iter().zip(&src) {
            let w = vol * x[*k as usize][f - 1];
            let g = nc.out_fb_for(a, a.out("sig").unwrap());
            assert!(g.map(|g| (g - w).abs() < 1e-5).unwrap_or(false), "output feedback of {}: {:?}, want {} ({} frames)", a, g, w, f);
            assert!((nc.led_value_for(a) - w).abs() < 1e-5, "LED of {}: {} want {}", a, nc.led_value_for(a), w);
        }
    }
}
