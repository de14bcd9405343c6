//! P13: feedback delay of a fixed number of samples.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::{SharedFeedback, SharedFeedbackReader, SharedFeedbackWriter};

#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(SharedFeedbackReader::read)]
    #[kani::unwind(10)]
    fn c_read() {
        let fb = SharedFeedback::verif_with_delay(2);
        let mut w = SharedFeedbackWriter::verif_at(&fb, usize_in(0, 5));
        w.write(any());
        let mut r = SharedFeedbackReader::verif_at(&fb, any());
        r.read();
        std::mem::forget((r, w, fb));
    }
    #[kani::proof_for_contract(SharedFeedbackWriter::write)]
    #[kani::unwind(10)]
    fn c_write() {
        let fb = SharedFeedback::verif_with_delay(2);
        let mut w = SharedFeedbackWriter::verif_at(&fb, any());
        w.write(any());
        std::mem::forget((w, fb));
    }
}

harnesses! {
    // Ring arithmetic over the contracts of read/write, for every buffer length: position
    // `delay + k` of the k-th write is where read number `delay + k` looks, and no write up
    // to a block ahead of the reader has overwritten it.
    kani ring_arithmetic (2) {
        let (delay, k, w) = (any::<u16>(), any::<u16>(), any::<u16>());
        assume(delay >= 128 && delay <= 700 && k < 4000 && w < 8000);
        let len = 3 * delay;
        let r = delay + k;
        // writes done when read number r happens: at most one block ahead of the reader
        assume(w > k && w <= r + 128);
        let other = any::<u16>();
        assume(other > k && other < w);
        reach!(other > k + 1, "later write");
        assert!((delay + other) % len != r % len, "not overwritten before it is read");
    }
    // Every interleaving of 8 reads and writes on a short buffer.
    kani interleavings (10) {
        const D: usize = 2;
        let fb = SharedFeedback::verif_with_delay(D);
        let (mut w, mut r) = (SharedFeedbackWriter::new(&fb), SharedFeedbackReader::new(&fb));
        let mut written = [0u32; 8];
        let (mut nw, mut nr) = (0usize, 0usize);
        for _ in 0..8 {
            // the writer and the reader process the same blocks, in any order
            if any::<bool>() {
                assume(nw < nr + D);
                let v = any::<f32>();
                written[nw] = v.to_bits();
                w.write(v);
                nw += 1;
            } else {
                assume(nr < nw + D);
                let got = r.read().to_bits();
                let want = if nr < D { 0 } else { written[nr - D] };
                assert!(got == want, "delayed by exactly the delay");
                nr += 1;
            }
        }
        reach!(nr == 4 && nw == 4, "balanced");
        std::mem::forget((w, r, fb));
    }
    bounded buffer_model (300) {
        let sr = f32_in(8000.0, 200000.0);
        let fb = SharedFeedback::new(sr);
        let (d, len) = fb.verif_dims();
        let exact = sr as f64 * 3.14 / 1000.0;
        assert!((d as f64 - exact).abs() <= 1.0 || (d == 128 && exact < 129.0), "delay {} for {}", d, sr);
        assert!(len >= 2 * d, "room for the delay");
        let (mut w, mut r) = (SharedFeedbackWriter::new(&fb), SharedFeedbackReader::new(&fb));
        let mut r2 = SharedFeedbackReader::new(&fb);
        let mut hist: Vec<f32> = vec![];
        let mut nr = 0;
        for _ in 0..usize_in(1, 40) {
            let n = usize_in(1, 128);
            let first = any::<bool>();
            for part in 0..2 {
                if (part == 0) == first {
                    for _ in 0..n {
                        let v = f32_in(-1.0, 1.0);
                        hist.push(v);
                        w.write(v);
                    }
                } else {
                    for _ in 0..n {
                        let want = if nr < d { 0.0 } else { hist[nr - d] };
                        let (a, b) = (r.read(), r2.read());
                        assert!(a == want && b == want, "read {} is {} want {}", nr, a, want);
                        nr += 1;
                    }
                }
            }
        }
    }
    bounded node_delay (60) { node_case(); }
    bounded late_start (6) { late_start_case(); }
    bounded writer_gone (6) { writer_gone_case(); }
    bounded sample_rate (6) { sample_rate_case(); }
}

/// Runs the input in blocks of at most 128 frames.
#[cfg(not(kani))]
fn run_blocks(ex: &mut hexodsp::nodes::NodeExecutor, srate: f32, input: &[f32]) -> (Vec<f32>, Vec<f32>) {
    let (mut l, mut r) = (vec![0.0; input.len()], vec![0.0; input.len()]);
    ex.set_sample_rate(srate);
    let mut o = 0;
    while o < input.len() {
        let n = usize_in(1, 128).min(input.len() - o);
        let (lo, ro) = (&mut l[o..o + n], &mut r[o..o + n]);
        ex.process_graph_updates();
        ex.process(&mut hexodsp::Context {
            nframes: n,
            output: &mut [lo, ro],
            input: &[&input[o..o + n], &input[o..o + n]],
        });
        o += n;
    }
    (l, r)
}

/// `in -> FbWr(k)` and `FbRd(k) -> out`, the nodes that are not in the program are not executed.
#[cfg(not(kani))]
fn upload_fb(nc: &mut hexodsp::NodeConfigurator, k: u8, wr: bool, rd: bool) {
    use hexodsp::*;
    let (w, r, i, o) = (NodeId::FbWr(k), NodeId::FbRd(k), NodeId::Inp(0), NodeId::Out(0));
    for id in [i, o] {
        if nc.unique_index_for(&id).is_none() {
            nc.create_node(id);
        }
    }
    for (id, on) in [(w, wr), (r, rd)] {
        if on && nc.unique_index_for(&id).is_none() {
            nc.create_node(id);
        }
    }
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &i);
    if rd {
        nc.add_prog_node(&mut prog, &r);
    }
    if wr {
        nc.add_prog_node(&mut prog, &w);
    }
    nc.add_prog_node(&mut prog, &o);
    if wr {
        nc.set_prog_node_exec_connection(&mut prog, (w, w.inp("inp").unwrap()), (i, i.out("sig1").unwrap()));
    }
    if rd {
        nc.set_prog_node_exec_connection(&mut prog, (o, o.inp("ch1").unwrap()), (r, r.out("sig").unwrap()));
    }
    nc.upload_prog(prog, true);
}

/// The reader or the writer joins the program while the other one is running already.
#[cfg(not(kani))]
fn late_start_case() {
    let (mut nc, mut ex) = hexodsp::new_node_engine();
    ex.no_logging();
    let k = u8_in(0, 3);
    let writer_first = any::<bool>();
    upload_fb(&mut nc, k, writer_first, !writer_first);
    let n0 = usize_in(1, 900);
    let before: Vec<f32> = (0..n0).map(|_| f32_in(-1.0, 1.0)).collect();
    run_blocks(&mut ex, 44100.0, &before);
    upload_fb(&mut nc, k, true, true);
    let input: Vec<f32> = (0..600).map(|_| f32_in(-1.0, 1.0)).collect();
    let (l, _) = run_blocks(&mut ex, 44100.0, &input);
    for i in 138..600 {
        assert!((l[i] - input[i - 138]).abs() < 1e-5, "the {} started {} samples later: sample {} is {} want {}",
            if writer_first { "reader" } else { "writer" }, n0, i, l[i], input[i - 138]);
    }
}

/// The writer is removed: what it wrote is not repeated.
#[cfg(not(kani))]
fn writer_gone_case() {
    let (mut nc, mut ex) = hexodsp::new_node_engine();
    ex.no_logging();
    let k = u8_in(0, 3);
    upload_fb(&mut nc, k, true, true);
    let input: Vec<f32> = (0..usize_in(200, 900)).map(|_| f32_in(0.1, 1.0)).collect();
    run_blocks(&mut ex, 44100.0, &input);
    upload_fb(&mut nc, k, false, true);
    let (l, _) = run_blocks(&mut ex, 44100.0, &vec![0.0; 900]);
    for i in 138..900 {
        assert!(l[i] == 0.0, "the writer is removed: sample {} repeats {}", i, l[i]);
    }
}

/// The delay is 3.14 ms at every sample rate.
#[cfg(not(kani))]
fn sample_rate_case() {
    let (mut nc, mut ex) = hexodsp::new_node_engine();
    ex.no_logging();
    let sr = [48000.0f32, 88200.0, 96000.0][usize_in(0, 2)];
    upload_fb(&mut nc, 0, true, true);
    let input: Vec<f32> = (0..900).map(|_| f32_in(-1.0, 1.0)).collect();
    let (l, _) = run_blocks(&mut ex, sr, &input);
    let d = (sr as f64 * 3.14 / 1000.0) as usize;
    for i in 0..900 {
        let want = if i < d { 0.0 } else { input[i - d] };
        assert!((l[i] - want).abs() < 1e-5, "delay at sample rate {} is not {} samples: sample {} is {} want {}", sr, d, i, l[i], want);
    }
}

/// FbWr/FbRd in a program, in both orders, with random block sizes.
#[cfg(not(kani))]
fn node_case() {
    use hexodsp::*;
    let (mut nc, mut ex) = new_node_engine();
    ex.no_logging();
    // any instances, also ones that differ in a single bit
    let k = if any::<bool>() { u8_in(0, 3) } else { any::<u8>() };
    let other = if any::<bool>() { k ^ (1 << u8_in(0, 7)) } else { any::<u8>() };
    if other == k {
        return;
    }
    let (wr, rd, rd_other) = (NodeId::FbWr(k), NodeId::FbRd(k), NodeId::FbRd(other));
    let (sin, out) = (NodeId::Inp(0), NodeId::Out(0));
    for id in [wr, rd, rd_other, sin, out] {
        nc.create_node(id);
    }
    let mut prog = nc.rebuild_node_ports();
    nc.add_prog_node(&mut prog, &sin);
    let order = if any::<bool>() { [wr, rd, rd_other] } else { [rd, rd_other, wr] };
    for id in order {
        nc.add_prog_node(&mut prog, &id);
    }
    nc.add_prog_node(&mut prog, &out);
    nc.set_prog_node_exec_connection(&mut prog, (wr, wr.inp("inp").unwrap()), (sin, sin.out("sig1").unwrap()));
    nc.set_prog_node_exec_connection(&mut prog, (out, out.inp("ch1").unwrap()), (rd, rd.out("sig").unwrap()));
    nc.set_prog_node_exec_connection(&mut prog, (out, out.inp("ch2").unwrap()), (rd_other, rd_other.out("sig").unwrap()));
    nc.upload_prog(prog, true);
    let n = usize_in(300, 1200);
    let input: Vec<f32> = (0..n).map(|_| f32_in(-1.0, 1.0)).collect();
    let (l, r) = run_blocks(&mut ex, 44100.0, &input);
    let d = (44100.0f64 * 3.14 / 1000.0) as usize;
    for i in 0..n {
        let want = if i < d { 0.0 } else { input[i - d] };
        assert!((l[i] - want).abs() < 1e-5, "sample {}: {} want {}", i, l[i], want);
        assert!(r[i] == 0.0, "other feedback instances are independent");
    }
}
