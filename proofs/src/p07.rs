//! P07: MIDI events reach the nodes exactly once, in order, at their frame.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::nodes::{EventWindowing, HxMidiEvent, HxTimedEvent, MidiEventPointer};

fn any_kind() -> HxMidiEvent {
    match u8_in(0, 2) {
        0 => HxMidiEvent::NoteOn { channel: any(), note: any(), vel: any() },
        1 => HxMidiEvent::NoteOff { channel: any(), note: any() },
        _ => HxMidiEvent::CC { channel: any(), cc: any(), value: any() },
    }
}
fn any_event() -> HxTimedEvent {
    HxTimedEvent::new_timed(any(), any_kind())
}
fn any_window() -> EventWindowing {
    EventWindowing { event: if any::<bool>() { Some(any_event()) } else { None } }
}
fn same(a: &HxTimedEvent, b: &HxTimedEvent) -> bool {
    a.verif_timing() == b.verif_timing() && a.kind().verif_bits() == b.kind().verif_bits()
}

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(EventWindowing::feed_me)]
    fn c_feed_me() {
        any_window().feed_me();
    }
    #[kani::proof_for_contract(EventWindowing::feed)]
    fn c_feed() {
        any_window().feed(any_event());
    }
    #[kani::proof_for_contract(EventWindowing::next_event_in_range)]
    fn c_in_range() {
        any_window().next_event_in_range(any(), any());
    }
}

harnesses! {
    kani classification (2) {
        let e = any_event();
        let cc = matches!(e.kind(), HxMidiEvent::CC { .. });
        reach!(cc, "cc");
        assert!(e.is_cc() == cc);
    }
    kani constructors (2) {
        let (t, c, n, v) = (any::<usize>(), any::<u8>(), any::<u8>(), any::<f32>());
        assert!(same(&HxTimedEvent::cc(t, c, n, v), &HxTimedEvent::new_timed(t, HxMidiEvent::CC { channel: c, cc: n, value: v })));
        assert!(same(&HxTimedEvent::note_on(t, c, n, v), &HxTimedEvent::new_timed(t, HxMidiEvent::NoteOn { channel: c, note: n, vel: v })));
        assert!(same(&HxTimedEvent::note_off(t, c, n), &HxTimedEvent::new_timed(t, HxMidiEvent::NoteOff { channel: c, note: n })));
    }
    // One windowing step: delivered inside of the window, otherwise kept unchanged.
    kani window_step (2) {
        let ev = any_event();
        let (from, len) = (any::<usize>(), any::<usize>());
        assume(len <= usize::MAX - from);
        let mut w = EventWindowing::new();
        assert!(w.feed_me() && w.next_event_in_range(from, len).is_none());
        w.feed(ev);
        assert!(!w.feed_me());
        let r = w.next_event_in_range(from, len);
        let t = ev.verif_timing();
        reach!(t < from, "late event");
        reach!(t >= from && t < from + len, "in the window");
        if t < from + len {
            let want = HxTimedEvent::new_timed(if t > from { t - from } else { 0 }, ev.kind());
            assert!(r.map(|r| same(&r, &want)).unwrap_or(false), "delivered at its frame");
            assert!(w.feed_me(), "delivered once");
        } else {
            assert!(r.is_none() && w.event.map(|k| same(&k, &ev)).unwrap_or(false), "kept for later");
        }
    }
    // next_at: the next undelivered event, if and only if its time has come.
    kani pointer_step (6) {
        let ev = [any_event(), any_event(), any_event()];
        let n = usize_in(0, 3);
        let mut p = MidiEventPointer::new(&ev[..n]);
        let at = usize_in(0, 3);
        for _ in 0..at {
            p.next_at(usize::MAX);
        }
        let t = any::<usize>();
        let pos = if at < n { at } else { n };
        let due = pos < n && ev[pos].verif_timing() <= t;
        let r = p.next_at(t);
        reach!(due && pos == 2, "last event is due");
        reach!(!due && pos < n, "not yet");
        assert!(r.is_some() == due, "delivered when it is due");
        if let Some(k) = r {
            assert!(k.verif_bits() == ev[pos].kind().verif_bits(), "the next event");
        }
    }
    // The node side: every event at the first frame that is not before its time.
    kani pointer_all_frames (7) {
        let t = [usize_in(0, 3), usize_in(0, 3), usize_in(0, 3)];
        assume(t[0] <= t[1] && t[1] <= t[2]);
        let ev = [HxTimedEvent::new_timed(t[0], any_kind()), HxTimedEvent::new_timed(t[1], any_kind()), HxTimedEvent::new_timed(t[2], any_kind())];
        let n = usize_in(0, 3);
        let mut p = MidiEventPointer::new(&ev[..n]);
        let mut k = 0;
        for f in 0..4usize {
            while let Some(e) = p.next_at(f) {
                assert!(k < n && e.verif_bits() == ev[k].kind().verif_bits(), "in order");
                assert!(t[k] == f, "at its frame");
                k += 1;
            }
        }
        reach!(n == 3, "three events");
        assert!(k == n, "all delivered");
    }

    bounded engine_midi (120) { engine_case(); }
    bounded midi_cc_node (200) { cc_case(); }
    bounded midi_note_node (200) { note_case(); }
}

#[cfg(not(kani))]
fn random_events(max: usize, frames: usize) -> Vec<HxTimedEvent> {
    let n = usize_in(0, max);
    // often several events share a frame or are next to each other
    let span = if any::<bool>() { frames } else { frames.min(8) };
    let mut t: Vec<usize> = (0..n).map(|_| usize_in(0, span - 1) * (frames / span)).collect();
    t.sort();
    t.into_iter()
        .map(|t| {
            let kind = match u8_in(0, 2) {
                0 => HxMidiEvent::NoteOn { channel: u8_in(0, 2), note: u8_in(60, 63), vel: f32_in(0.0, 1.0) },
                1 => HxMidiEvent::NoteOff { channel: u8_in(0, 2), note: u8_in(60, 63) },
                _ => HxMidiEvent::CC { channel: u8_in(0, 2), cc: u8_in(0, 3), value: f32_in(0.0, 1.0) },
            };
            HxTimedEvent::new_timed(t, kind)
        })
        .collect()
}

/// Random block sizes, random events, injected events: the audio thread side event lists
/// and the events reported to the frontend.
#[cfg(not(kani))]
fn engine_case() {
    use hexodsp::nodes::GraphEvent;
    let (mut nc, mut ex) = hexodsp::new_node_engine();
    ex.no_logging();
    let blocks: Vec<usize> = (0..usize_in(1, 6)).map(|_| usize_in(1, 128)).collect();
    let total: usize = blocks.iter().sum();
    let evs = random_events(30, total);
    let (mut w, mut i, mut offs) = (EventWindowing::new(), 0, 0);
    for b in blocks {
        let max = if u8_in(0, 5) == 0 { 64 } else { 5 };
        let inj: Vec<HxMidiEvent> = random_events(max, 1).iter().map(|e| e.kind()).collect();
        for e in &inj {
            nc.inject_midi_event(*e);
        }
        ex.process_graph_updates();
        ex.feed_midi_events_from(|| {
            if w.feed_me() {
                if i >= evs.len() {
                    return None;
                }
                w.feed(evs[i]);
                i += 1;
            }
            w.next_event_in_range(offs, b)
        });
        let mut want: Vec<HxTimedEvent> = inj.iter().map(|e| HxTimedEvent::new_timed(0, *e)).collect();
        for e in &evs {
            let t = e.verif_timing();
            if t >= offs && t < offs + b {
                want.push(HxTimedEvent::new_timed(t - offs, e.kind()));
            }
        }
        let (notes, ccs) = hexodsp::verif::exec_midi(&ex);
        let wn: Vec<_> = want.iter().filter(|e| !e.is_cc()).collect();
        let wc: Vec<_> = want.iter().filter(|e| e.is_cc()).collect();
        assert!(notes.len() == wn.len() && notes.iter().zip(&wn).all(|(a, b)| same(a, b)), "notes of the block {:?} want {:?}", notes, wn);
        assert!(ccs.len() == wc.len() && ccs.iter().zip(&wc).all(|(a, b)| same(a, b)), "CCs of the block {:?} want {:?}", ccs, wc);
        let mut seen = vec![];
        while let Some(GraphEvent::MIDI(e)) = nc.next_event() {
            seen.push(e);
        }
        assert!(seen.len() == want.len() && seen.iter().zip(&want).all(|(a, b)| a.verif_bits() == b.kind().verif_bits()), "events reported to the frontend");
        offs += b;
    }
}

#[cfg(not(kani))]
fn single_node(id: hexodsp::NodeId, outs: &[&str], settings: &[(&str, i64)]) -> (hexodsp::NodeConfigurator, hexodsp::NodeExecutor) {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    nc.create_node(id);
    for (n, v) in settings {
        nc.set_param(id.inp_param(n).unwrap(), SAtom::setting(*v));
    }
    nc.create_node(NodeId::Out(0));
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &id);
    nc.add_prog_node(&mut prog, &NodeId::Out(0));
    for (k, o) in outs.iter().enumerate() {
        nc.set_prog_node_exec_connection(
            &mut prog,
            (NodeId::Out(0), NodeId::Out(0).inp(["ch1", "ch2"][k]).unwrap()),
            (id, id.out(o).unwrap()),
        );
    }
    nc.upload_prog(prog, true);
    (nc, ex)
}

#[cfg(not(kani))]
fn cc_case() {
    use hexodsp::NodeId;
    let (chan, c1) = (u8_in(0, 2), u8_in(0, 3));
    let c2 = (c1 + u8_in(1, 3)) % 4;
    let c3 = (6 - c1 - c2) % 4;
    let c3 = if c3 == c1 || c3 == c2 { 77 } else { c3 };
    let which = usize_in(1, 3);
    let (_nc, mut ex) = single_node(
        NodeId::MidiCC(0),
        &["sig1", ["sig1", "sig2", "sig3"][which - 1]],
        &[("chan", chan as i64), ("cc1", c1 as i64), ("cc2", c2 as i64), ("cc3", c3 as i64)],
    );
    let frames = usize_in(1, 500);
    let evs = random_events(12, frames);
    let (l, r) = ex.test_run_input(&vec![0.0; frames], false, &evs);
    let (mut v1, mut v2) = (0.0f32, 0.0f32);
    let w = [c1, c2, c3][which - 1];
    for f in 0..frames {
        for e in &evs {
            if e.verif_timing() == f {
                if let HxMidiEvent::CC { channel, cc, value } = e.kind() {
                    if channel == chan {
                        if cc == c1 {
                            v1 = value;
                        }
                        if cc == w {
                            v2 = value;
                        }
                    }
                }
            }
        }
        assert!((l[f] - v1).abs() < 1e-5, "CC 1 at frame {}: {} want {}", f, l[f], v1);
        assert!((r[f] - v2).abs() < 1e-5, "CC {} at frame {}: {} want {}", which, f, r[f], v2);
    }
}

/// Pitch and velocity are those of the last note on. The gate, by mode:
/// 0 (MIDI): high from a note on up to the note off of the same note;
/// 1 (trigger): a short trigger of about 2 ms from each note on;
/// 2 (gate length): high for the set time after each note on.
/// A note that is played while the gate is high interrupts it for one frame in the modes 0 and 2.
#[cfg(not(kani))]
fn note_case() {
    use hexodsp::{NodeId, SAtom};
    let (chan, mode) = (u8_in(0, 2), u8_in(0, 2));
    let ms = f32_in(1.0, 8.0);
    let len = (ms * 44.1) as i64;
    let set = [("chan", chan as i64), ("gmode", mode as i64)];
    let run = |outs: &[&str]| {
        let (mut nc, ex) = single_node(NodeId::MidiP(0), outs, &set);
        let p = NodeId::MidiP(0).inp_param("glen").unwrap();
        nc.set_param(p, SAtom::param(p.norm(ms)));
        (nc, ex)
    };
    let (_nc, mut ex) = run(&["freq", "vel"]);
    let (_nc2, mut ex2) = run(&["gate", "gate"]);
    // let the parameter smoothing come to rest
    ex.test_run_input(&vec![0.0; 2048], false, &[]);
    ex2.test_run_input(&vec![0.0; 2048], false, &[]);
    let frames = usize_in(1, if mode == 0 { 500 } else { 1500 });
    let mut evs = random_events(16, frames);
    for e in evs.iter_mut() {
        // mostly few notes on the channel
        if any::<u8>() % 4 > 0 {
            let n = u8_in(60, 61);
            let kind = if any::<bool>() {
                HxMidiEvent::NoteOn { channel: chan, note: n, vel: f32_in(0.0, 1.0) }
            } else {
                HxMidiEvent::NoteOff { channel: chan, note: n }
            };
            *e = HxTimedEvent::new_timed(e.verif_timing(), kind);
        }
    }
    let (fr, ve) = ex.test_run_input(&vec![0.0; frames], false, &evs);
    let (ga, _) = ex2.test_run_input(&vec![0.0; frames], false, &evs);
    let (mut note, mut vel) = (0u8, 0.0f32);
    // number of note events of the channel, and note ons, by frame
    let mut all = vec![0; frames + 2];
    let mut ons = vec![0; frames + 2];
    for e in &evs {
        match e.kind() {
            HxMidiEvent::NoteOn { channel, .. } if channel == chan => {
                all[e.verif_timing()] += 1;
                ons[e.verif_timing()] += 1;
            }
            HxMidiEvent::NoteOff { channel, .. } if channel == chan => all[e.verif_timing()] += 1,
            _ => (),
        }
    }
    // frames in which (and right after which) a note event happened are in transition
    let mut held = false;
    let mut quiet = 0;
    let mut since = i64::MAX / 2;
    for f in 0..frames {
        quiet += 1;
        since += 1;
        for e in &evs {
            if e.verif_timing() != f {
                continue;
            }
            match e.kind() {
                HxMidiEvent::NoteOn { channel, note: n, vel: v } if channel == chan => {
                    note = n;
                    vel = v;
                    held = true;
                    quiet = 0;
                    since = 0;
                }
                HxMidiEvent::NoteOff { channel, note: n } if channel == chan => {
                    if n == note {
                        held = false;
                    }
                    quiet = 0;
                }
                _ => (),
            }
        }
        assert!((fr[f] - (note as f32 - 69.0) / 120.0).abs() < 1e-5, "pitch at frame {}: {} note {}", f, fr[f], note);
        assert!((ve[f] - vel).abs() < 1e-5, "velocity at frame {}: {} want {}", f, ve[f], vel);
        let high = ga[f] > 0.5;
        assert!(ga[f].abs() < 1e-5 || (ga[f] - 1.0).abs() < 1e-5, "gate is 0 or 1");
        match mode {
            0 => {
                if quiet >= 1 {
                    assert!(high == held, "gate at frame {}: {} held={}", f, ga[f], held);
                }
            }
            1 => {
                if since <= 66 {
                    assert!(high, "trigger at frame {}, {} frames after the note", f, since);
                } else if since > 132 {
                    assert!(!high, "no trigger at frame {}, {} frames after the note", f, since);
                }
            }
            _ => {
                if since >= 2 && since < len - 2 {
                    assert!(high, "gate of {} frames at frame {}, {} frames after the note", len, f, since);
                } else if since > len + 4 {
                    assert!(!high, "gate of {} frames at frame {}, {} frames after the note", len, f, since);
                }
            }
        }
        // a note on without another note event next to it
        if mode != 1 && ons[f] == 1 && all[f] == 1 && all[f + 1] == 0 && (f == 0 || all[f - 1] == 0) {
            let was = f > 0 && ga[f - 1] > 0.5;
            assert!(high == !was, "a note at frame {} starts the gate, or interrupts it: {}", f, ga[f]);
            if f + 1 < frames {
                assert!(ga[f + 1] > 0.5, "the gate is high at frame {} after a note on", f + 1);
            }
        }
    }
}
