⟦file src/dsp/mod.rs⟧
⟦PRELUDE⟧
/// comb filter (synfx-dsp)
#[verifier::external_body]
pub struct CombFilter { p: usize }
impl CombFilter {
    pub uninterp spec fn next_feedback_st(self, t: f32, g: f32, v: f32) -> CombFilter;
    pub uninterp spec fn next_feedback_r(self, t: f32, g: f32, v: f32) -> f32;
    #[verifier::external_body]
    pub fn next_feedback(&mut self, t: f32, g: f32, v: f32) -> (r: f32)
        ensures *final(self) == old(self).next_feedback_st(t, g, v), r == old(self).next_feedback_r(t, g, v)
    { unimplemented!() }
    pub uninterp spec fn next_feedforward_st(self, t: f32, g: f32, v: f32) -> CombFilter;
    pub uninterp spec fn next_feedforward_r(self, t: f32, g: f32, v: f32) -> f32;
    #[verifier::external_body]
    pub fn next_feedforward(&mut self, t: f32, g: f32, v: f32) -> (r: f32)
        ensures *final(self) == old(self).next_feedforward_st(t, g, v), r == old(self).next_feedforward_r(t, g, v)
    { unimplemented!() }
}
pub struct Comb { pub comb: CombFilter }
/// the state of the comb filter after k frames: inputs inp, time, g
pub open spec fn comb_at(s: CombFilter, i: Seq<ProcBuf>, m: bool, k: int) -> CombFilter decreases k {
    if k <= 0 { s } else {
        let p = comb_at(s, i, m, k - 1);
        let (t, g, v) = (denorm_v::Comb::time_s(i[1]@[k - 1]), denorm_v::Comb::g_s(i[2]@[k - 1]), i[0]@[k - 1]);
        if m { p.next_feedback_st(t, g, v) } else { p.next_feedforward_st(t, g, v) }
    }
}
pub open spec fn comb_law(s: CombFilter, i: Seq<ProcBuf>, m: bool, k: int) -> f32 {
    let p = comb_at(s, i, m, k);
    let (t, g, v) = (denorm_v::Comb::time_s(i[1]@[k]), denorm_v::Comb::g_s(i[2]@[k]), i[0]@[k]);
    if m { p.next_feedback_r(t, g, v) } else { p.next_feedforward_r(t, g, v) }
}
impl Comb {
⟦fn DspNode@Comb::process of src/dsp/node_comb.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 3, atoms@.len() == 1, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            final(self).comb == comb_at(old(self).comb, inputs@, atoms@[0].iv() == 0, old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| comb_law(old(self).comb, inputs@, atoms@[0].iv() == 0, k))
»    {

        let inp = inp::Comb::inp(inputs);
        let time = inp::Comb::time(inputs);
        let g = inp::Comb::g(inputs);
        let out = out::Comb::sig(outputs);
        let mode = at::Comb::mode(atoms);

        let c = &mut self.comb;
«        let ghost out0 = out@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost s0 = *c;»


        if mode.i() == 0 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *time == inputs@[1], *g == inputs@[2], ctx.outs() == outs0, 
                    *c == comb_at(s0, inputs@, true, frame as int), done(out0, out@, frame as int, |k: int| comb_law(s0, inputs@, true, k))»
                {
                let v = inp.read(frame);

                out.write(
                    frame,
                    c.next_feedback(denorm::Comb::time(time, frame), denorm::Comb::g(g, frame), v),
                );
            }
        } else {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *time == inputs@[1], *g == inputs@[2], ctx.outs() == outs0, 
                    *c == comb_at(s0, inputs@, false, frame as int), done(out0, out@, frame as int, |k: int| comb_law(s0, inputs@, false, k))»
                {
                let v = inp.read(frame);

                out.write(
                    frame,
                    c.next_feedforward(
                        denorm::Comb::time(time, frame),
                        denorm::Comb::g(g, frame),
                        v,
                    ),
                );
            }
        }

        let last_frame = ctx.nframes() - 1;
        ctx_vals.led(0, out.read(last_frame));
    }
⟦end⟧
}
/// all pass filter (synfx-dsp)
#[verifier::external_body]
pub struct AllPass { p: usize }
impl AllPass {
    pub uninterp spec fn next_st(self, t: f64, g: f64, v: f64) -> AllPass;
    pub uninterp spec fn next_r(self, t: f64, g: f64, v: f64) -> f64;
    #[verifier::external_body]
    pub fn next(&mut self, t: f64, g: f64, v: f64) -> (r: f64)
        ensures *final(self) == old(self).next_st(t, g, v), r == old(self).next_r(t, g, v)
    { unimplemented!() }
}
pub struct AllP { pub allpass: AllPass }
pub open spec fn allp_at(s: AllPass, i: Seq<ProcBuf>, k: int) -> AllPass decreases k {
    if k <= 0 { s } else {
        allp_at(s, i, k - 1).next_st(f2d(denorm_v::AllP::time_s(i[1]@[k - 1])), f2d(denorm_v::AllP::g_s(i[2]@[k - 1])), f2d(i[0]@[k - 1]))
    }
}
pub open spec fn allp_law(s: AllPass, i: Seq<ProcBuf>, k: int) -> f32 {
    d2f(allp_at(s, i, k).next_r(f2d(denorm_v::AllP::time_s(i[1]@[k])), f2d(denorm_v::AllP::g_s(i[2]@[k])), f2d(i[0]@[k])))
}
impl AllP {
⟦fn DspNode@AllP::process of src/dsp/node_allp.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 3, _atoms@.len() == 0, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            final(self).allpass == allp_at(old(self).allpass, inputs@, old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| allp_law(old(self).allpass, inputs@, k))
»    {

        let inp = inp::AllP::inp(inputs);
        let time = inp::AllP::time(inputs);
        let g = inp::AllP::g(inputs);
        let out = out::AllP::sig(outputs);

        let ap = &mut self.allpass;
«        let ghost out0 = out@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost s0 = *ap;»


        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *time == inputs@[1], *g == inputs@[2], ctx.outs() == outs0, 
                    *ap == allp_at(s0, inputs@, frame as int), done(out0, out@, frame as int, |k: int| allp_law(s0, inputs@, k))»
                {
            let v = inp.read(frame);

            out.write(
                frame,
                ap.next(
                    denorm::AllP::time(time, frame).to_f64(),
                    denorm::AllP::g(g, frame).to_f64(),
                    v.to_f64(),
                ).to_f32(),
            );
        }

        let last_frame = ctx.nframes() - 1;
        ctx_vals.led(0, out.read(last_frame));
    }
⟦end⟧
}
/// delay line (synfx-dsp)
#[verifier::external_body]
pub struct DelayBuffer { p: usize }
impl DelayBuffer {
    pub uninterp spec fn feed_st(self, v: f32) -> DelayBuffer;
    #[verifier::external_body]
    pub fn feed(&mut self, v: f32)
        ensures *final(self) == old(self).feed_st(v)
    { unimplemented!() }
    pub uninterp spec fn cubic_s(self, t: f32) -> f32;
    #[verifier::external_body]
    pub fn cubic_interpolate_at(&self, t: f32) -> (r: f32) ensures r == self.cubic_s(t) { unimplemented!() }
    pub uninterp spec fn at_s(self, n: usize) -> f32;
    #[verifier::external_body]
    pub fn at(&self, n: usize) -> (r: f32) ensures r == self.at_s(n) { unimplemented!() }
}
/// samples between triggers (synfx-dsp)
#[verifier::external_body]
pub struct TriggerSampleClock { p: usize }
impl TriggerSampleClock {
    pub uninterp spec fn next_st(self, v: f32) -> TriggerSampleClock;
    pub uninterp spec fn next_r(self, v: f32) -> u32;
    #[verifier::external_body]
    pub fn next(&mut self, v: f32) -> (r: u32)
        ensures *final(self) == old(self).next_st(v), r == old(self).next_r(v)
    { unimplemented!() }
}
pub uninterp spec fn mixed(a: f32, b: f32, m: f32) -> f32;
#[verifier::external_body]
pub fn crossfade(a: f32, b: f32, m: f32) -> (r: f32) ensures r == mixed(a, b, m) { unimplemented!() }
pub struct Delay { pub buffer: DelayBuffer, pub clock: TriggerSampleClock }
pub open spec fn delay_tap(s: Delay, i: Seq<ProcBuf>, m: bool, k: int) -> f32 {
    if m { s.buffer.cubic_s(denorm_v::Delay::time_s(i[2]@[k])) } else { s.buffer.at_s(s.clock.next_r(denorm_v::Delay::trig_s(i[1]@[k])) as usize) }
}
pub open spec fn delay_step(s: Delay, i: Seq<ProcBuf>, m: bool, k: int) -> Delay {
    Delay {
        buffer: s.buffer.feed_st(i[0]@[k].add_spec(delay_tap(s, i, m, k).mul_spec(denorm_v::Delay::fb_s(i[3]@[k])))),
        clock: if m { s.clock } else { s.clock.next_st(denorm_v::Delay::trig_s(i[1]@[k])) },
    }
}
pub open spec fn delay_at(s: Delay, i: Seq<ProcBuf>, m: bool, k: int) -> Delay decreases k {
    if k <= 0 { s } else { delay_step(delay_at(s, i, m, k - 1), i, m, k - 1) }
}
pub open spec fn delay_law(s: Delay, i: Seq<ProcBuf>, m: bool, k: int) -> f32 {
    mixed(i[0]@[k], delay_tap(delay_at(s, i, m, k), i, m, k), fclamp(denorm_v::Delay::mix_s(i[4]@[k]), 0.0f32, 1.0f32))
}
impl Delay {
⟦fn DspNode@Delay::process of src/dsp/node_delay.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 5, atoms@.len() == 1, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            *final(self) == delay_at(*old(self), inputs@, atoms@[0].iv() == 0, old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| delay_law(*old(self), inputs@, atoms@[0].iv() == 0, k))
»    {

«        let ghost s0 = *self;»
        let buffer = &mut self.buffer;

        let mode = at::Delay::mode(atoms);
        let inp = inp::Delay::inp(inputs);
        let trig = inp::Delay::trig(inputs);
        let time = inp::Delay::time(inputs);
        let fb = inp::Delay::fb(inputs);
        let mix = inp::Delay::mix(inputs);
        let out = out::Delay::sig(outputs);
«        let ghost out0 = out@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs();»


        if mode.i() == 0 {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *trig == inputs@[1], *time == inputs@[2], *fb == inputs@[3], *mix == inputs@[4], ctx.outs() == outs0,
                    *buffer == delay_at(s0, inputs@, true, frame as int).buffer, delay_at(s0, inputs@, true, frame as int).clock == s0.clock, done(out0, out@, frame as int, |k: int| delay_law(s0, inputs@, true, k))»
                {
                let dry = inp.read(frame);

                let out_sample = buffer.cubic_interpolate_at(denorm::Delay::time(time, frame));

                buffer.feed(dry + out_sample * denorm::Delay::fb(fb, frame));

                out.write(
                    frame,
                    crossfade(dry, out_sample, denorm::Delay::mix(mix, frame).clamp(0.0, 1.0)),
                );
            }
        } else {
            let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *trig == inputs@[1], *time == inputs@[2], *fb == inputs@[3], *mix == inputs@[4], ctx.outs() == outs0,
                    *buffer == delay_at(s0, inputs@, false, frame as int).buffer, self.clock == delay_at(s0, inputs@, false, frame as int).clock, done(out0, out@, frame as int, |k: int| delay_law(s0, inputs@, false, k))»
                {
                let dry = inp.read(frame);

                let clock_samples = self.clock.next(denorm::Delay::trig(trig, frame));
                let out_sample = buffer.at(clock_samples as usize);

                buffer.feed(dry + out_sample * denorm::Delay::fb(fb, frame));

                out.write(
                    frame,
                    crossfade(dry, out_sample, denorm::Delay::mix(mix, frame).clamp(0.0, 1.0)),
                );
            }
        }

        let last_frame = ctx.nframes() - 1;
        ctx_vals.led(0, out.read(last_frame));
    }
⟦end⟧
}
/// one end of a feedback line: what is written and read (P13 is about what happens in between)
/// writing end of a feedback line (see P13)
#[verifier::external_body]
pub struct SharedFeedbackWriter { p: usize }
impl SharedFeedbackWriter {
    pub uninterp spec fn write_st(self, v: f32) -> SharedFeedbackWriter;
    #[verifier::external_body]
    pub fn write(&mut self, v: f32)
        ensures *final(self) == old(self).write_st(v)
    { unimplemented!() }
}
/// reading end of a feedback line (see P13)
#[verifier::external_body]
pub struct SharedFeedbackReader { p: usize }
impl SharedFeedbackReader {
    pub uninterp spec fn read_st(self) -> SharedFeedbackReader;
    pub uninterp spec fn read_r(self) -> f32;
    #[verifier::external_body]
    pub fn read(&mut self) -> (r: f32)
        ensures *final(self) == old(self).read_st(), r == old(self).read_r()
    { unimplemented!() }
}
pub struct FbWr { pub fb_wr: SharedFeedbackWriter }
pub open spec fn fbwr_at(s: SharedFeedbackWriter, i: Seq<ProcBuf>, k: int) -> SharedFeedbackWriter decreases k {
    if k <= 0 { s } else { fbwr_at(s, i, k - 1).write_st(i[0]@[k - 1]) }
}
impl FbWr {
⟦fn DspNode@FbWr::process of src/dsp/node_fbwr_fbrd.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        _outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 1
        ensures final(_outputs)@ == old(_outputs)@, final(ctx).outs() == old(ctx).outs(),
            final(self).fb_wr == fbwr_at(old(self).fb_wr, inputs@, old(ctx).nf() as int)
»    {

        let inp = inp::FbWr::inp(inputs);
«        let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost s0 = self.fb_wr;»


        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], ctx.outs() == outs0, self.fb_wr == fbwr_at(s0, inputs@, frame as int)»
                {
            self.fb_wr.write(inp.read(frame));
        }

        ctx_vals.led(0, inp.read(ctx.nframes() - 1));
    }
⟦end⟧
}
pub struct FbRd { pub fb_rd: SharedFeedbackReader }
pub open spec fn fbrd_at(s: SharedFeedbackReader, k: int) -> SharedFeedbackReader decreases k {
    if k <= 0 { s } else { fbrd_at(s, k - 1).read_st() }
}
pub open spec fn fbrd_law(s: SharedFeedbackReader, i: Seq<ProcBuf>, k: int) -> f32 {
    fbrd_at(s, k).read_r().mul_spec(denorm_v::FbRd::vol_s(i[0]@[k]))
}
impl FbRd {
⟦fn DspNode@FbRd::process of src/dsp/node_fbwr_fbrd.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 1, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            final(self).fb_rd == fbrd_at(old(self).fb_rd, old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| fbrd_law(old(self).fb_rd, inputs@, k))
»    {

        let vol = inp::FbRd::vol(inputs);
        let sig = out::FbRd::sig(outputs);
«        let ghost out0 = sig@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost s0 = self.fb_rd;»


        let mut last_val = 0.0;
        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *vol == inputs@[0], ctx.outs() == outs0, self.fb_rd == fbrd_at(s0, frame as int), done(out0, sig@, frame as int, |k: int| fbrd_law(s0, inputs@, k))»
                {
            last_val = self.fb_rd.read();
            last_val = last_val * (denorm::FbRd::vol(vol, frame));
            sig.write(frame, last_val);
        }

        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
/// envelope (synfx-dsp)
#[verifier::external_body]
pub struct EnvRetrigAD { p: usize }
impl EnvRetrigAD {
    pub uninterp spec fn tick_st(self, t: f32, a: f32, ash: f32, d: f32, dsh: f32) -> EnvRetrigAD;
    pub uninterp spec fn tick_r(self, t: f32, a: f32, ash: f32, d: f32, dsh: f32) -> (f32, f32);
    #[verifier::external_body]
    pub fn tick(&mut self, t: f32, a: f32, ash: f32, d: f32, dsh: f32) -> (r: (f32, f32))
        ensures *final(self) == old(self).tick_st(t, a, ash, d, dsh), r == old(self).tick_r(t, a, ash, d, dsh)
    { unimplemented!() }
}
pub struct Ad { pub env: EnvRetrigAD }
/// mult: the multiplier of the times
pub open spec fn ad_mult(m: i64) -> f32 { if m == 1 { 10.0f32 } else if m == 2 { 100.0f32 } else { 1.0f32 } }
pub open spec fn ad_args(i: Seq<ProcBuf>, m: i64, k: int) -> (f32, f32, f32, f32, f32) {
    (denorm_v::Ad::trig_s(i[1]@[k]),
     ad_mult(m).mul_spec(denorm_v::Ad::atk_s(i[2]@[k])), fclamp(denorm_v::Ad::ashp_s(i[4]@[k]), 0.0f32, 1.0f32),
     ad_mult(m).mul_spec(denorm_v::Ad::dcy_s(i[3]@[k])), (1.0f32).sub_spec(fclamp(denorm_v::Ad::dshp_s(i[5]@[k]), 0.0f32, 1.0f32)))
}
pub open spec fn ad_at(s: EnvRetrigAD, i: Seq<ProcBuf>, m: i64, k: int) -> EnvRetrigAD decreases k {
    if k <= 0 { s } else { let a = ad_args(i, m, k - 1); ad_at(s, i, m, k - 1).tick_st(a.0, a.1, a.2, a.3, a.4) }
}
pub open spec fn ad_tick(s: EnvRetrigAD, i: Seq<ProcBuf>, m: i64, k: int) -> (f32, f32) {
    let a = ad_args(i, m, k); ad_at(s, i, m, k).tick_r(a.0, a.1, a.2, a.3, a.4)
}
impl Ad {
⟦fn DspNode@Ad::process of src/dsp/node_ad.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 6, atoms@.len() == 1, old(outputs)@.len() == 2
        ensures final(outputs)@.len() == 2, final(ctx).outs() == old(ctx).outs(),
            final(self).env == ad_at(old(self).env, inputs@, atoms@[0].iv(), old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| denorm_v::Ad::inp_s(inputs@[0]@[k]).mul_spec(ad_tick(old(self).env, inputs@, atoms@[0].iv(), k).0)),
            done(old(outputs)@[1]@, final(outputs)@[1]@, old(ctx).nf() as int, |k: int| ad_tick(old(self).env, inputs@, atoms@[0].iv(), k).1)
»    {

        let inp = inp::Ad::inp(inputs);
        let trig = inp::Ad::trig(inputs);
        let atk = inp::Ad::atk(inputs);
        let dcy = inp::Ad::dcy(inputs);
        let atk_shape = inp::Ad::ashp(inputs);
        let dcy_shape = inp::Ad::dshp(inputs);
        let mult = at::Ad::mult(atoms);
«        let ghost a0 = outputs@[0]@; let ghost b0 = outputs@[1]@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost s0 = self.env;»


        let mult: f32 = match mult.i() {
            1 => 10.0,
            2 => 100.0,
            _ => 1.0,
        };

        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *inp == inputs@[0], *trig == inputs@[1], *atk == inputs@[2], *dcy == inputs@[3], *atk_shape == inputs@[4], *dcy_shape == inputs@[5], ctx.outs() == outs0, mult == ad_mult(atoms@[0].iv()), outputs@.len() == 2,
                    self.env == ad_at(s0, inputs@, atoms@[0].iv(), frame as int),
                    done(a0, outputs@[0]@, frame as int, |k: int| denorm_v::Ad::inp_s(inputs@[0]@[k]).mul_spec(ad_tick(s0, inputs@, atoms@[0].iv(), k).0)), done(b0, outputs@[1]@, frame as int, |k: int| ad_tick(s0, inputs@, atoms@[0].iv(), k).1)»
                {
            let trigger_sig = denorm::Ad::trig(trig, frame);
            let atk_ms = mult * denorm::Ad::atk(atk, frame);
            let ashp = denorm::Ad::ashp(atk_shape, frame).clamp(0.0, 1.0);
            let dcy_ms = mult * denorm::Ad::dcy(dcy, frame);
            let dshp = 1.0 - denorm::Ad::dshp(dcy_shape, frame).clamp(0.0, 1.0);

            let (value, retrig_sig) = self.env.tick(trigger_sig, atk_ms, ashp, dcy_ms, dshp);

            let in_val = denorm::Ad::inp(inp, frame);
            let out = out::Ad::sig(outputs);
            out.write(frame, in_val * value);

            let eoet = out::Ad::eoet(outputs);
            eoet.write(frame, retrig_sig);
        }

        let last_frame = ctx.nframes() - 1;
        let out = out::Ad::sig(outputs);
        ctx_vals.led(0, out.read(last_frame));
    }
⟦end⟧
}
/// LFO (synfx-dsp)
#[verifier::external_body]
pub struct TriSawLFO { p: usize }
impl TriSawLFO {
    pub uninterp spec fn reset_st(self) -> TriSawLFO;
    #[verifier::external_body]
    pub fn reset(&mut self)
        ensures *final(self) == old(self).reset_st()
    { unimplemented!() }
    pub uninterp spec fn set_st(self, f: f64, r: f64) -> TriSawLFO;
    #[verifier::external_body]
    pub fn set(&mut self, f: f64, r: f64)
        ensures *final(self) == old(self).set_st(f, r)
    { unimplemented!() }
    pub uninterp spec fn next_unipolar_st(self) -> TriSawLFO;
    pub uninterp spec fn next_unipolar_r(self) -> f64;
    #[verifier::external_body]
    pub fn next_unipolar(&mut self) -> (r: f64)
        ensures *final(self) == old(self).next_unipolar_st(), r == old(self).next_unipolar_r()
    { unimplemented!() }
}
pub struct TsLFO { pub lfo: TriSawLFO, pub trig: Trigger }
pub open spec fn lfo_set(s: TsLFO, i: Seq<ProcBuf>, k: int) -> TriSawLFO {
    let l = if s.trig.hit(denorm_v::TsLFO::trig_s(i[1]@[k])) { s.lfo.reset_st() } else { s.lfo };
    l.set_st(f2d((1000.0f32).div_spec(fclamp(denorm_v::TsLFO::time_s(i[0]@[k]), 0.1f32, 300000.0f32))), f2d(denorm_v::TsLFO::rev_s(i[2]@[k])))
}
pub open spec fn lfo_at(s: TsLFO, i: Seq<ProcBuf>, k: int) -> TsLFO decreases k {
    if k <= 0 { s } else {
        let p = lfo_at(s, i, k - 1);
        TsLFO { lfo: lfo_set(p, i, k - 1).next_unipolar_st(), trig: p.trig.after(denorm_v::TsLFO::trig_s(i[1]@[k - 1])) }
    }
}
pub open spec fn lfo_law(s: TsLFO, i: Seq<ProcBuf>, k: int) -> f32 { d2f(lfo_set(lfo_at(s, i, k), i, k).next_unipolar_r()) }
impl TsLFO {
⟦fn DspNode@TsLFO::process of src/dsp/node_tslfo.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        _atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 3, old(outputs)@.len() == 1
        ensures only(old(outputs)@, final(outputs)@, 0), final(ctx).outs() == old(ctx).outs(),
            *final(self) == lfo_at(*old(self), inputs@, old(ctx).nf() as int),
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| lfo_law(*old(self), inputs@, k))
»    {

        let time = inp::TsLFO::time(inputs);
        let trig = inp::TsLFO::trig(inputs);
        let rev = inp::TsLFO::rev(inputs);
        let out = out::TsLFO::sig(outputs);
«        let ghost out0 = out@; let ghost n = ctx.nf(); let ghost outs0 = ctx.outs();»


«        let ghost s0 = *self;»
        let lfo = &mut self.lfo;

        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), frames_end == n, n <= 128, *time == inputs@[0], *trig == inputs@[1], *rev == inputs@[2], ctx.outs() == outs0, *lfo == lfo_at(s0, inputs@, frame as int).lfo, self.trig == lfo_at(s0, inputs@, frame as int).trig,
                    done(out0, out@, frame as int, |k: int| lfo_law(s0, inputs@, k))»
                {
            if self.trig.check_trigger(denorm::TsLFO::trig(trig, frame)) {
                lfo.reset();
            }

            let time_ms = denorm::TsLFO::time(time, frame).clamp(0.1, 300000.0);

            lfo.set((1000.0 / time_ms).to_f64(), denorm::TsLFO::rev(rev, frame).to_f64());

            out.write(frame, lfo.next_unipolar().to_f32());
        }

        ctx_vals.led(0, out.read(ctx.nframes() - 1));
    }
⟦end⟧
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn comb_blocks(s: CombFilter, i: Seq<ProcBuf>, j: Seq<ProcBuf>, m: bool, d: int, n: int)
    requires shifted(i, j, d), i.len() == 3, 0 <= n, d + n < 128
    ensures comb_at(s, i, m, d + n) == comb_at(comb_at(s, i, m, d), j, m, n),
        comb_law(s, i, m, d + n) == comb_law(comb_at(s, i, m, d), j, m, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        comb_blocks(s, i, j, m, d, n - 1);
        assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn allp_blocks(s: AllPass, i: Seq<ProcBuf>, j: Seq<ProcBuf>, d: int, n: int)
    requires shifted(i, j, d), i.len() == 3, 0 <= n, d + n < 128
    ensures allp_at(s, i, d + n) == allp_at(allp_at(s, i, d), j, n),
        allp_law(s, i, d + n) == allp_law(allp_at(s, i, d), j, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        allp_blocks(s, i, j, d, n - 1);
        assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn delay_blocks(s: Delay, i: Seq<ProcBuf>, j: Seq<ProcBuf>, m: bool, d: int, n: int)
    requires shifted(i, j, d), i.len() == 5, 0 <= n, d + n < 128
    ensures delay_at(s, i, m, d + n) == delay_at(delay_at(s, i, m, d), j, m, n),
        delay_law(s, i, m, d + n) == delay_law(delay_at(s, i, m, d), j, m, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 5 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        delay_blocks(s, i, j, m, d, n - 1);
        assert(forall|x: int| 0 <= x < 5 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn fbwr_blocks(s: SharedFeedbackWriter, i: Seq<ProcBuf>, j: Seq<ProcBuf>, d: int, n: int)
    requires shifted(i, j, d), i.len() == 1, 0 <= n, d + n < 128
    ensures fbwr_at(s, i, d + n) == fbwr_at(fbwr_at(s, i, d), j, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 1 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        fbwr_blocks(s, i, j, d, n - 1);
        assert(forall|x: int| 0 <= x < 1 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn fbrd_blocks(s: SharedFeedbackReader, i: Seq<ProcBuf>, j: Seq<ProcBuf>, d: int, n: int)
    requires shifted(i, j, d), i.len() == 1, 0 <= n, d + n < 128
    ensures fbrd_at(s, d + n) == fbrd_at(fbrd_at(s, d), n),
        fbrd_law(s, i, d + n) == fbrd_law(fbrd_at(s, d), j, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 1 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        fbrd_blocks(s, i, j, d, n - 1);
        assert(forall|x: int| 0 <= x < 1 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn ad_blocks(s: EnvRetrigAD, i: Seq<ProcBuf>, j: Seq<ProcBuf>, m: i64, d: int, n: int)
    requires shifted(i, j, d), i.len() == 6, 0 <= n, d + n < 128
    ensures ad_at(s, i, m, d + n) == ad_at(ad_at(s, i, m, d), j, m, n),
        ad_tick(s, i, m, d + n) == ad_tick(ad_at(s, i, m, d), j, m, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 6 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        ad_blocks(s, i, j, m, d, n - 1);
        assert(forall|x: int| 0 <= x < 6 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}
/// block independence: d + n frames end where d frames followed by n frames end, frame d + n is frame n of the second block
pub proof fn lfo_blocks(s: TsLFO, i: Seq<ProcBuf>, j: Seq<ProcBuf>, d: int, n: int)
    requires shifted(i, j, d), i.len() == 3, 0 <= n, d + n < 128
    ensures lfo_at(s, i, d + n) == lfo_at(lfo_at(s, i, d), j, n),
        lfo_law(s, i, d + n) == lfo_law(lfo_at(s, i, d), j, n)
    decreases n
{
    assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n] == i[x]@[d + n]);
    if n > 0 {
        lfo_blocks(s, i, j, d, n - 1);
        assert(forall|x: int| 0 <= x < 3 ==> #[trigger] j[x]@[n - 1] == i[x]@[d + (n - 1)]);
    }
}

fn main() {}
}
