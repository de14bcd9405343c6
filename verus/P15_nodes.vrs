⟦file src/dsp/mod.rs⟧
⟦PRELUDE⟧

pub struct Amp { }
pub open spec fn amp_law(i: Seq<ProcBuf>, a: Seq<SAtom>, k: int) -> f32 {
    let att = i[2]@[k];
    let att = if a[0].iv() > 0 { fmax(att, 0.0f32) } else { fabs(att) };
    i[0]@[k].mul_spec(denorm_v::Amp::att_s(att)).mul_spec(denorm_v::Amp::gain_s(i[1]@[k]))
}
impl Amp {
⟦fn DspNode@Amp::process of src/dsp/node_amp.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    ) 
«        requires frames_ok(old(ctx)), inputs@.len() == 3, atoms@.len() == 1, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| amp_law(inputs@, atoms@, k))»
    {
        let gain = inp::Amp::gain(inputs);
        let att = inp::Amp::att(inputs);
        let inp = inp::Amp::inp(inputs);
        let out = out::Amp::sig(outputs);
        let neg = at::Amp::neg_att(atoms);

        let last_frame = ctx.nframes() - 1;
«        let ghost out0 = out@; let ghost n = ctx.nf();»

        let last_val = if neg.i() > 0 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end 
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *gain == inputs@[1], *att == inputs@[2], *inp == inputs@[0], atoms@[0].iv() > 0,
                    done(out0, out@, frame as int, |k: int| amp_law(inputs@, atoms@, k))»
            {
                out.write(
                    frame,
                    inp.read(frame)
                        * denorm_v::Amp::att(inp_dir::Amp::att(att, frame).max(0.0))
                        * denorm::Amp::gain(gain, frame),
                );
            }

            inp.read(last_frame)
                * denorm_v::Amp::att(inp_dir::Amp::att(att, last_frame).max(0.0))
                * denorm::Amp::gain(gain, last_frame)
        } else {
            let frames_end = ctx.nframes(); for frame in 0..frames_end 
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *gain == inputs@[1], *att == inputs@[2], *inp == inputs@[0], !(atoms@[0].iv() > 0),
                    done(out0, out@, frame as int, |k: int| amp_law(inputs@, atoms@, k))»
            {
                out.write(
                    frame,
                    inp.read(frame)
                        * denorm_v::Amp::att(inp_dir::Amp::att(att, frame).abs())
                        * denorm::Amp::gain(gain, frame),
                );
            }

            inp.read(last_frame)
                * denorm_v::Amp::att(inp_dir::Amp::att(att, last_frame).abs())
                * denorm::Amp::gain(gain, last_frame)
        };

        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
pub struct Mix3 { }
pub open spec fn mix3_law(i: Seq<ProcBuf>, k: int) -> f32 {
    i[0]@[k].mul_spec(denorm_v::Mix3::vol1_s(i[3]@[k]))
        .add_spec(i[1]@[k].mul_spec(denorm_v::Mix3::vol2_s(i[4]@[k])))
        .add_spec(i[2]@[k].mul_spec(denorm_v::Mix3::vol3_s(i[5]@[k])))
        .mul_spec(denorm_v::Mix3::ovol_s(i[6]@[k]))
}
impl Mix3 {
⟦fn DspNode@Mix3::process of src/dsp/node_mix3.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 7, _atoms@.len() == 0, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| mix3_law(inputs@, k))
»    {

        let inp1 = inp::Mix3::ch1(inputs);
        let inp2 = inp::Mix3::ch2(inputs);
        let inp3 = inp::Mix3::ch3(inputs);
        let g1 = inp::Mix3::vol1(inputs);
        let g2 = inp::Mix3::vol2(inputs);
        let g3 = inp::Mix3::vol3(inputs);
        let og = inp::Mix3::ovol(inputs);
        let out = out::Mix3::sig(outputs);
«        let ghost out0 = out@; let ghost n = ctx.nf();»


        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp1 == inputs@[0], *inp2 == inputs@[1], *inp3 == inputs@[2], *g1 == inputs@[3], *g2 == inputs@[4], *g3 == inputs@[5], *og == inputs@[6], 
                    done(out0, out@, frame as int, |k: int| mix3_law(inputs@, k))»
                {
            let sum = inp1.read(frame) * denorm::Mix3::vol1(g1, frame)
                + inp2.read(frame) * denorm::Mix3::vol2(g2, frame)
                + inp3.read(frame) * denorm::Mix3::vol3(g3, frame);
            out.write(frame, sum * denorm::Mix3::ovol(og, frame));
        }

        ctx_vals.led(0, out.read(ctx.nframes() - 1));
    }
⟦end⟧
}
pub struct Map { }
pub open spec fn map_law(i: Seq<ProcBuf>, a: Seq<SAtom>, k: int) -> f32 {
    let s = i[0]@[k].mul_spec(i[1]@[k]).add_spec(i[2]@[k]);
    let (imin, imax, min, max) = (i[3]@[k], i[4]@[k], i[5]@[k], i[6]@[k]);
    let x = if lt(fabs(imax.sub_spec(imin)), F32_EPSILON) { 1.0f32 } else { fabs(s.sub_spec(imin).div_spec(imax.sub_spec(imin))) };
    let v = min.add_spec(max.sub_spec(min).mul_spec(x));
    if a[0].iv() == 0 { v } else if lt(min, max) { fclamp(v, min, max) } else { fclamp(v, max, min) }
}
impl Map {
⟦fn DspNode@Map::process of src/dsp/node_map.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 7, atoms@.len() == 1, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| map_law(inputs@, atoms@, k))
»    {

        let inp = inp::Map::inp(inputs);
        let atv = inp::Map::atv(inputs);
        let offs = inp::Map::offs(inputs);
        let imin = inp::Map::imin(inputs);
        let imax = inp::Map::imax(inputs);
        let min = inp::Map::min(inputs);
        let max = inp::Map::max(inputs);
        let out = out::Map::sig(outputs);
«        let ghost out0 = out@; let ghost n = ctx.nf();»


        let clip = at::Map::clip(atoms);

        let mut last_val = 0.0;

        if clip.i() == 0 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *atv == inputs@[1], *offs == inputs@[2], *imin == inputs@[3], *imax == inputs@[4], *min == inputs@[5], *max == inputs@[6], atoms@[0].iv() == 0,
                    done(out0, out@, frame as int, |k: int| map_law(inputs@, atoms@, k))»
                {
                let s = (inp.read(frame) * atv.read(frame)) + offs.read(frame);

                let imin = imin.read(frame);
                let imax = imax.read(frame);
                let min = min.read(frame);
                let max = max.read(frame);

                let x = if (imax - imin).abs() < F32_EPSILON {
                    1.0
                } else {
                    ((s - imin) / (imax - imin)).abs()
                };
                last_val = x;
                let s = min + (max - min) * x;

                out.write(frame, s);
            }
        } else {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *atv == inputs@[1], *offs == inputs@[2], *imin == inputs@[3], *imax == inputs@[4], *min == inputs@[5], *max == inputs@[6], atoms@[0].iv() != 0,
                    done(out0, out@, frame as int, |k: int| map_law(inputs@, atoms@, k))»
                {
                let s = (inp.read(frame) * atv.read(frame)) + offs.read(frame);

                let imin = imin.read(frame);
                let imax = imax.read(frame);
                let min = min.read(frame);
                let max = max.read(frame);

                let x = if (imax - imin).abs() < F32_EPSILON {
                    1.0
                } else {
                    ((s - imin) / (imax - imin)).abs()
                };
                last_val = x;
                let s = min + (max - min) * x;

                out.write(frame, if min < max { s.clamp(min, max) } else { s.clamp(max, min) });
            }
        }

        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
pub struct SMap { }
/// mode: unipolar, bipolar, unipolar inverted, bipolar inverted
pub open spec fn smap_x(s: f32, mode: i64, clip: i64) -> f32 {
    let u = s.add_spec(1.0f32).mul_spec(0.5f32);
    let x = if mode == 0 || mode == 2 { s } else { u };
    let x = if clip == 1 { fclamp(x, 0.0f32, 1.0f32) } else { x };
    if mode >= 2 { 1.0f32.sub_spec(x) } else { x }
}
pub open spec fn smap_law(i: Seq<ProcBuf>, a: Seq<SAtom>, k: int) -> f32 {
    i[1]@[k].add_spec(i[2]@[k].sub_spec(i[1]@[k]).mul_spec(smap_x(i[0]@[k], a[1].iv(), a[0].iv())))
}
impl SMap {
⟦fn DspNode@SMap::process of src/dsp/node_smap.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 3, atoms@.len() == 2, old(outputs)@.len() == 1, 0 <= atoms@[0].iv() <= 1, 0 <= atoms@[1].iv() <= 3
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| smap_law(inputs@, atoms@, k))
»    {

        let inp = inp::SMap::inp(inputs);
        let min = inp::SMap::min(inputs);
        let max = inp::SMap::max(inputs);
        let out = out::SMap::sig(outputs);
«        let ghost out0 = out@; let ghost n = ctx.nf();»


        let clip = at::SMap::clip(atoms);
        let mode = at::SMap::mode(atoms);

        let mut last_val = 0.0;

        match (mode.i(), clip.i()) {
            (0, 0) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 0, atoms@[0].iv() == 0,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    last_val = s;
                    out.write(frame, min + (max - min) * s);
                }
            }
            (0, 1) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 0, atoms@[0].iv() == 1,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = s.clamp(0.0, 1.0);
                    last_val = s;
                    out.write(frame, min + (max - min) * s);
                }
            }
            (1, 0) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 1, atoms@[0].iv() == 0,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = (s + 1.0) * 0.5;
                    out.write(frame, min + (max - min) * s);
                }
            }
            (1, 1) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 1, atoms@[0].iv() == 1,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = ((s + 1.0) * 0.5).clamp(0.0, 1.0);
                    out.write(frame, min + (max - min) * s);
                }
            }
            (2, 0) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 2, atoms@[0].iv() == 0,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = 1.0 - s;
                    last_val = s;
                    out.write(frame, min + (max - min) * s);
                }
            }
            (2, 1) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 2, atoms@[0].iv() == 1,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = 1.0 - s.clamp(0.0, 1.0);
                    last_val = s;
                    out.write(frame, min + (max - min) * s);
                }
            }
            (3, 0) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 3, atoms@[0].iv() == 0,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = 1.0 - ((s + 1.0) * 0.5);
                    out.write(frame, min + (max - min) * s);
                }
            }
            (3, 1) => {
                let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *min == inputs@[1], *max == inputs@[2], atoms@[1].iv() == 3, atoms@[0].iv() == 1,
                    done(out0, out@, frame as int, |k: int| smap_law(inputs@, atoms@, k))»
                {
                    let s = inp.read(frame);
                    let min = min.read(frame);
                    let max = max.read(frame);
                    let s = 1.0 - ((s + 1.0) * 0.5).clamp(0.0, 1.0);
                    out.write(frame, min + (max - min) * s);
                }
            }
            _ => {}
        }

        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
pub type Delivered = vstd::map::Map<(int, int), f32>;
pub open spec fn both(m: Delivered, k: int, l: f32, r: f32) -> Delivered { m.insert((0, k), l).insert((1, k), r) }
/// what is delivered after n frames, and nothing else
pub open spec fn delivered(m: Delivered, i: Seq<ProcBuf>, a: Seq<SAtom>, n: int) -> Delivered decreases n {
    if n <= 0 { m } else { both(delivered(m, i, a, n - 1), n - 1, out_law(i, a, false, n - 1), out_law(i, a, true, n - 1)) }
}
/// the recursive description, frame by frame: below n the law on both channels, everything else as it was
pub proof fn delivered_at(m: Delivered, i: Seq<ProcBuf>, a: Seq<SAtom>, n: int, c: int, k: int)
    requires 0 <= n
    ensures
        0 <= c <= 1 && 0 <= k < n ==> delivered(m, i, a, n).contains_key((c, k)) && delivered(m, i, a, n)[(c, k)] == out_law(i, a, c == 1, k),
        !(0 <= c <= 1 && 0 <= k < n) ==> delivered(m, i, a, n).contains_key((c, k)) == m.contains_key((c, k)),
        !(0 <= c <= 1 && 0 <= k < n) && m.contains_key((c, k)) ==> delivered(m, i, a, n)[(c, k)] == m[(c, k)],
    decreases n
{
    if n > 0 { delivered_at(m, i, a, n - 1, c, k); }
}
pub struct Out { pub input: [f32; 2] }
pub open spec fn out_law(i: Seq<ProcBuf>, a: Seq<SAtom>, right: bool, k: int) -> f32 {
    denorm_v::Out::vol_s(i[2]@[k]).mul_spec(if right && !(a[0].iv() > 0) { i[1]@[k] } else { i[0]@[k] })
}
impl Out {
⟦fn DspNode@Out::process of src/dsp/node_out.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        _outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 3, atoms@.len() == 1
        ensures final(_outputs)@ == old(_outputs)@,
            final(ctx).outs() == delivered(old(ctx).outs(), inputs@, atoms@, old(ctx).nf() as int)
»    {
        let in1 = inp::Out::ch1(inputs);
        let vol = inp::Out::vol(inputs);
«        let ghost outs0 = ctx.outs(); let ghost n = ctx.nf();»


        if at::Out::mono(atoms).i() > 0 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *vol == inputs@[2], *in1 == inputs@[0], atoms@[0].iv() > 0,
                    ctx.outs() == delivered(outs0, inputs@, atoms@, frame as int), inputs@.len() == 3, atoms@.len() == 1»
                {
                let vol = denorm::Out::vol(vol, frame);
                ctx.output(0, frame, vol * in1.read(frame));
                ctx.output(1, frame, vol * in1.read(frame));
            }
        } else {
            let in2 = inp::Out::ch2(inputs);

            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *vol == inputs@[2], *in1 == inputs@[0], !(atoms@[0].iv() > 0), *in2 == inputs@[1],
                    ctx.outs() == delivered(outs0, inputs@, atoms@, frame as int), inputs@.len() == 3, atoms@.len() == 1»
                {
                let vol = denorm::Out::vol(vol, frame);
                ctx.output(0, frame, vol * in1.read(frame));
                ctx.output(1, frame, vol * in2.read(frame));
            }
        }

        let last_val = in1.read(ctx.nframes() - 1);
        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
pub struct Inp { }
pub open spec fn inp_law(c: spec_fn(int, int) -> f32, i: Seq<ProcBuf>, ch: int, k: int) -> f32 {
    denorm_v::Inp::vol_s(i[0]@[k]).mul_spec(c(ch, k))
}
impl Inp {
⟦fn DspNode@Inp::process of src/dsp/node_inp.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 1, old(outputs)@.len() == 2
        ensures final(outputs)@.len() == 2, final(ctx).outs() == old(ctx).outs(),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| inp_law(old(ctx).ins(), inputs@, 0, k)),
            done(old(outputs)@[1]@, final(outputs)@[1]@, old(ctx).nf() as int, |k: int| inp_law(old(ctx).ins(), inputs@, 1, k))
»    {
        let vol = inp::Inp::vol(inputs);

        let sig_i = out_idx::Inp::sig2();
        let (sig1, sig2) = split_bufs(outputs, sig_i);
        let sig1 = &mut sig1[0];
        let sig2 = &mut sig2[0];
«        let ghost n = ctx.nf(); let ghost ins0 = ctx.ins(); let ghost outs0 = ctx.outs(); let ghost a0 = sig1@; let ghost b0 = sig2@;»


        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *vol == inputs@[0], ctx.ins() == ins0, ctx.outs() == outs0,
                    done(a0, sig1@, frame as int, |k: int| inp_law(ins0, inputs@, 0, k)),
                    done(b0, sig2@, frame as int, |k: int| inp_law(ins0, inputs@, 1, k))»
                {
            let vol = denorm::Inp::vol(vol, frame);
            sig1.write(frame, vol * ctx.input(0, frame));
            sig2.write(frame, vol * ctx.input(1, frame));
        }

        let last_val = sig1.read(ctx.nframes() - 1);
        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
pub struct Mux9 { pub trig_rst: Trigger, pub trig_up: Trigger, pub trig_down: Trigger, pub idx: u8 }
/// the inputs slct, t_rst, t_up, t_down, in_1 .. in_9
pub open spec fn mux_step(s: Mux9, i: Seq<ProcBuf>, max: u8, ext: bool, k: int) -> Mux9 {
    if ext {
        Mux9 { idx: (f2u8(ffloor(u82f(max).mul_spec(i[0]@[k].sub_spec(0.00001f32)))) % max) as u8, ..s }
    } else {
        let i0 = s.idx;
        let i1 = if s.trig_rst.hit(i[1]@[k]) { 0u8 } else { i0 };
        let i2 = if s.trig_up.hit(i[2]@[k]) { ((i1 + 1) % max as int) as u8 } else { i1 };
        let i3 = if s.trig_down.hit(i[3]@[k]) { ((i2 + max - 1) % max as int) as u8 } else { i2 };
        Mux9 { trig_rst: s.trig_rst.after(i[1]@[k]), trig_up: s.trig_up.after(i[2]@[k]), trig_down: s.trig_down.after(i[3]@[k]), idx: i3 }
    }
}
/// the state after k frames
pub open spec fn mux_at(s: Mux9, i: Seq<ProcBuf>, max: u8, ext: bool, k: int) -> Mux9 decreases k {
    if k <= 0 { s } else { mux_step(mux_at(s, i, max, ext, k - 1), i, max, ext, k - 1) }
}
pub open spec fn mux_law(s: Mux9, i: Seq<ProcBuf>, max: u8, ext: bool, k: int) -> f32 {
    i[4 + (if mux_at(s, i, max, ext, k + 1).idx < 8 { mux_at(s, i, max, ext, k + 1).idx as int } else { 8 })]@[k]
}
pub open spec fn mux_max(a: Seq<SAtom>) -> u8 { (a[0].iv() + 1) as u8 }
pub open spec fn mux_start(s: Mux9, max: u8) -> Mux9 { Mux9 { idx: (s.idx % max) as u8, ..s } }
impl Mux9 {
⟦fn DspNode@Mux9::process of src/dsp/node_mux9.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 13, atoms@.len() == 1, old(outputs)@.len() == 1, 0 <= atoms@[0].iv() <= 8
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            *final(self) == mux_at(mux_start(*old(self), mux_max(atoms@)), inputs@, mux_max(atoms@), (nctx.in_connected & 0x1 == 0x1), old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| mux_law(mux_start(*old(self), mux_max(atoms@)), inputs@, mux_max(atoms@), (nctx.in_connected & 0x1 == 0x1), k))
»    {

        let in_1 = inp::Mux9::in_1(inputs);
        let in_2 = inp::Mux9::in_2(inputs);
        let in_3 = inp::Mux9::in_3(inputs);
        let in_4 = inp::Mux9::in_4(inputs);
        let in_5 = inp::Mux9::in_5(inputs);
        let in_6 = inp::Mux9::in_6(inputs);
        let in_7 = inp::Mux9::in_7(inputs);
        let in_8 = inp::Mux9::in_8(inputs);
        let in_9 = inp::Mux9::in_9(inputs);
        let slct = inp::Mux9::slct(inputs);
        let t_rst = inp::Mux9::t_rst(inputs);
        let t_up = inp::Mux9::t_up(inputs);
        let t_down = inp::Mux9::t_down(inputs);
        let out = out::Mux9::sig(outputs);

        let max: u8 = at::Mux9::in_cnt(atoms).i() as u8 + 1;
        self.idx %= max;
«        let ghost out0 = out@; let ghost n = ctx.nf(); let ghost s0 = *self;»


        if nctx.in_connected & 0x1 == 0x1 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, 1 <= max <= 9, self.idx < max, *slct == inputs@[0], *t_rst == inputs@[1], *t_up == inputs@[2], *t_down == inputs@[3], *in_1 == inputs@[4], *in_2 == inputs@[5], *in_3 == inputs@[6], *in_4 == inputs@[7], *in_5 == inputs@[8], *in_6 == inputs@[9], *in_7 == inputs@[10], *in_8 == inputs@[11], *in_9 == inputs@[12], 
                    *self == mux_at(s0, inputs@, max, true, frame as int), done(out0, out@, frame as int, |k: int| mux_law(s0, inputs@, max, true, k))»
                {
                self.idx =
                    (max.to_f32() * (denorm::Mux9::slct(slct, frame) - 0.00001)).floor().to_u8() % max;

                out.write(
                    frame,
                    match self.idx {
                        0 => denorm::Mux9::in_1(in_1, frame),
                        1 => denorm::Mux9::in_2(in_2, frame),
                        2 => denorm::Mux9::in_3(in_3, frame),
                        3 => denorm::Mux9::in_4(in_4, frame),
                        4 => denorm::Mux9::in_5(in_5, frame),
                        5 => denorm::Mux9::in_6(in_6, frame),
                        6 => denorm::Mux9::in_7(in_7, frame),
                        7 => denorm::Mux9::in_8(in_8, frame),
                        _ => denorm::Mux9::in_9(in_9, frame),
                    },
                );
            }
        } else {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, 1 <= max <= 9, self.idx < max, *slct == inputs@[0], *t_rst == inputs@[1], *t_up == inputs@[2], *t_down == inputs@[3], *in_1 == inputs@[4], *in_2 == inputs@[5], *in_3 == inputs@[6], *in_4 == inputs@[7], *in_5 == inputs@[8], *in_6 == inputs@[9], *in_7 == inputs@[10], *in_8 == inputs@[11], *in_9 == inputs@[12], 
                    *self == mux_at(s0, inputs@, max, false, frame as int), done(out0, out@, frame as int, |k: int| mux_law(s0, inputs@, max, false, k))»
                {
                if self.trig_rst.check_trigger(denorm::Mux9::t_rst(t_rst, frame)) {
                    self.idx = 0;
                }

                if self.trig_up.check_trigger(denorm::Mux9::t_up(t_up, frame)) {
                    self.idx = (self.idx + 1) % max;
                }

                if self.trig_down.check_trigger(denorm::Mux9::t_down(t_down, frame)) {
                    self.idx = (self.idx + max - 1) % max;
                }

                out.write(
                    frame,
                    match self.idx {
                        0 => denorm::Mux9::in_1(in_1, frame),
                        1 => denorm::Mux9::in_2(in_2, frame),
                        2 => denorm::Mux9::in_3(in_3, frame),
                        3 => denorm::Mux9::in_4(in_4, frame),
                        4 => denorm::Mux9::in_5(in_5, frame),
                        5 => denorm::Mux9::in_6(in_6, frame),
                        6 => denorm::Mux9::in_7(in_7, frame),
                        7 => denorm::Mux9::in_8(in_8, frame),
                        _ => denorm::Mux9::in_9(in_9, frame),
                    },
                );
            }
        }

        ctx_vals.led(0, out.read(ctx.nframes() - 1));
    }
⟦end⟧
}
/// block independence: a block of d + n frames ends in the state in which a block of d frames followed
/// by one of n frames ends (every frame in between is covered by taking a smaller n)
pub proof fn mux_blocks(s: Mux9, i: Seq<ProcBuf>, j: Seq<ProcBuf>, max: u8, ext: bool, d: int, n: int)
    requires shifted(i, j, d), i.len() == 13, 0 <= n, d + n <= 128
    ensures mux_at(s, i, max, ext, d + n) == mux_at(mux_at(s, i, max, ext, d), j, max, ext, n)
    decreases n
{
    if n > 0 {
        mux_blocks(s, i, j, max, ext, d, n - 1);
        assert(forall|x: int| 0 <= x < 13 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}

fn main() {}
}