⟦file src/nodes/midi.rs⟧
⟦PRELUDE⟧
#[derive(Clone, Copy)]
⟦struct HxTimedEvent⟧
#[derive(Clone, Copy)]
⟦struct HxMidiEvent⟧
pub open spec fn cc_kind(k: HxMidiEvent) -> bool { k is CC }
impl HxTimedEvent {
    ⟦fn HxTimedEvent::new_timed of src/nodes/midi.rs⟧
    fn new_timed(timing: usize, kind: HxMidiEvent) -> «(r:» Self «)»
«    ensures r.timing == timing, r.kind == kind»
    {
        Self { timing, kind }
    }
    ⟦end⟧
    ⟦fn HxTimedEvent::is_cc of src/nodes/midi.rs⟧
    fn is_cc(&self) -> «(r:» bool «)»
«    ensures r == cc_kind(self.kind)»
    {
        if let HxMidiEvent::CC { .. } = self.kind {
            true
        } else {
            false
        }
    }
    ⟦end⟧
    ⟦fn HxTimedEvent::kind of src/nodes/midi.rs⟧
    fn kind(&self) -> «(r:» HxMidiEvent «)»
«    ensures r == self.kind»
    {
        self.kind
    }
    ⟦end⟧
    ⟦fn HxTimedEvent::cc of src/nodes/midi.rs⟧
    fn cc(timing: usize, channel: u8, cc: u8, value: f32) -> «(r:» Self «)»
«    ensures r.timing == timing, r.kind == (HxMidiEvent::CC { channel, cc, value })»
    {
        Self { timing, kind: HxMidiEvent::CC { channel, cc, value } }
    }
    ⟦end⟧
    ⟦fn HxTimedEvent::note_on of src/nodes/midi.rs⟧
    fn note_on(timing: usize, channel: u8, note: u8, vel: f32) -> «(r:» Self «)»
«    ensures r.timing == timing, r.kind == (HxMidiEvent::NoteOn { channel, note, vel })»
    {
        Self { timing, kind: HxMidiEvent::NoteOn { channel, note, vel } }
    }
    ⟦end⟧
    ⟦fn HxTimedEvent::note_off of src/nodes/midi.rs⟧
    fn note_off(timing: usize, channel: u8, note: u8) -> «(r:» Self «)»
«    ensures r.timing == timing, r.kind == (HxMidiEvent::NoteOff { channel, note })»
    {
        Self { timing, kind: HxMidiEvent::NoteOff { channel, note } }
    }
    ⟦end⟧
}
/// the first event from idx on that is later than the frame
pub open spec fn due(e: Seq<HxTimedEvent>, idx: int, frame: int) -> int decreases e.len() - idx {
    if 0 <= idx < e.len() && e[idx].timing <= frame { due(e, idx + 1, frame) } else { idx }
}
pub struct MidiEventPointer<'a> { pub buf: &'a [HxTimedEvent], pub idx: usize }
impl<'a> MidiEventPointer<'a> {
    ⟦fn MidiEventPointer::new of src/nodes/midi.rs⟧
    fn new(buf: &'a [HxTimedEvent]) -> «(r:» Self «)»
«    ensures r.buf@ == buf@, r.idx == 0»
    {
        Self { buf, idx: 0 }
    }
    ⟦end⟧
    ⟦fn MidiEventPointer::next_at of src/nodes/midi.rs⟧
    fn next_at(&mut self, time: usize) -> «(r:» Option<HxMidiEvent> «)»
«    requires old(self).idx <= old(self).buf@.len()
        ensures final(self).buf@ == old(self).buf@, final(self).idx <= final(self).buf@.len(),
            match r {
                Some(k) => old(self).idx < old(self).buf@.len() && old(self).buf@[old(self).idx as int].timing <= time
                    && k == old(self).buf@[old(self).idx as int].kind && final(self).idx == old(self).idx + 1,
                None => final(self).idx == old(self).idx && due(old(self).buf@, old(self).idx as int, time as int) == old(self).idx,
            }»
    {
        if self.idx < self.buf.len() && self.buf[self.idx].timing <= time {
            self.idx += 1;
            Some(self.buf[self.idx - 1].kind)
        } else {
            None
        }
    }
    ⟦end⟧
}
⟦struct EventWindowing⟧
impl EventWindowing {
    ⟦fn EventWindowing::new of src/nodes/midi.rs⟧
    fn new() -> «(r:» Self «)»
«    ensures r.event is None»
    {
        Self { event: None }
    }
    ⟦end⟧
    ⟦fn EventWindowing::feed_me of src/nodes/midi.rs⟧
    fn feed_me(&self) -> «(r:» bool «)»
«    ensures r == self.event is None»
    {
        self.event.is_none()
    }
    ⟦end⟧
    ⟦fn EventWindowing::feed of src/nodes/midi.rs⟧
    fn feed(&mut self, event: HxTimedEvent)
«    ensures final(self).event == Some(event)»
    {
        self.event = Some(event);
    }
    ⟦end⟧
    ⟦fn EventWindowing::next_event_in_range of src/nodes/midi.rs⟧
    fn next_event_in_range(
        &mut self,
        to_time: usize,
        block_size: usize,
    ) -> «(r:» Option<HxTimedEvent> «)»
«    requires to_time + block_size <= usize::MAX
        ensures match old(self).event {
            None => r is None && final(self).event is None,
            // delivered inside of the window, relative to its start, or kept as it is
            Some(e) => if e.timing < to_time + block_size {
                final(self).event is None && r == Some(HxTimedEvent { timing: if e.timing > to_time { (e.timing - to_time) as usize } else { 0 }, kind: e.kind })
            } else { r is None && final(self).event == Some(e) },
        }»
    {
        if let Some(event) = self.event.take() {
            if event.timing < (to_time + block_size) {
                return Some(HxTimedEvent {
                    timing: event.timing.saturating_sub(to_time),
                    kind: event.kind,
                });
            } else {
                self.event = Some(event);
            }
        }

        None
    }
    ⟦end⟧
}
/// the controller events (or the others) of a list, in their order
pub open spec fn part(e: Seq<HxTimedEvent>, cc: bool) -> Seq<HxTimedEvent> decreases e.len() {
    if e.len() == 0 { e } else {
        let p = part(e.drop_last(), cc);
        if cc_kind(e.last().kind) == cc { p.push(e.last()) } else { p }
    }
}
pub proof fn due_step(e: Seq<HxTimedEvent>, i: int, frame: int)
    requires 0 <= i <= e.len()
    ensures i <= due(e, i, frame) <= e.len(),
        due(e, i, frame) < e.len() ==> e[due(e, i, frame)].timing > frame,
        forall|j: int| i <= j < due(e, i, frame) ==> #[trigger] e[j].timing <= frame,
    decreases e.len() - i
{ if i < e.len() && e[i].timing <= frame { due_step(e, i + 1, frame); } }
pub proof fn part_push(e: Seq<HxTimedEvent>, x: HxTimedEvent)
    ensures part(e.push(x), true) == (if cc_kind(x.kind) { part(e, true).push(x) } else { part(e, true) }),
        part(e.push(x), false) == (if cc_kind(x.kind) { part(e, false) } else { part(e, false).push(x) }),
{ assert(e.push(x).drop_last() =~= e); }
pub proof fn part_len(e: Seq<HxTimedEvent>, cc: bool)
    ensures part(e, cc).len() <= e.len()
    decreases e.len()
{ if e.len() > 0 { part_len(e.drop_last(), cc); } }
/// nothing is lost and nothing invented: every event is in exactly one of the two lists
pub proof fn part_all(e: Seq<HxTimedEvent>)
    ensures part(e, true).len() + part(e, false).len() == e.len()
    decreases e.len()
{ if e.len() > 0 { part_all(e.drop_last()); } }
/// injected events are delivered in the first frame
pub open spec fn at_zero(m: Seq<HxMidiEvent>) -> Seq<HxTimedEvent> { Seq::new(m.len(), |k: int| HxTimedEvent { timing: 0, kind: m[k] }) }
/// where the events come from (a closure): what it returns up to the first None
#[verifier::external_body]
pub struct EvSource { p: usize }
impl View for EvSource { type V = Seq<HxTimedEvent>; uninterp spec fn view(&self) -> Seq<HxTimedEvent>; }
impl EvSource {
    #[verifier::external_body]
    pub fn next_ev(&mut self) -> (r: Option<HxTimedEvent>)
        ensures match r { Some(e) => old(self)@.len() > 0 && e == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ }
    { unimplemented!() }
}
pub enum GraphEvent { MIDI(HxMidiEvent) }
/// the ring of events for the front end (events are dropped if it is full)
#[verifier::external_body]
pub struct GraphEvents { p: usize }
impl GraphEvents {
    #[verifier::external_body]
    pub fn push(&mut self, e: GraphEvent) -> (r: Result<(), GraphEvent>) { unimplemented!() }
}
pub struct SharedNodeExec { pub graph_event_prod: GraphEvents }
pub const MAX_MIDI_NOTES_PER_BLOCK: usize = ⟦NOTES⟧;
pub const MAX_MIDI_CC_PER_BLOCK: usize = ⟦CCS⟧;
/// the fields of NodeExecutor that matter here
pub struct NodeExecutor { pub exec_ctx: NodeExecContext, pub injected_midi: Vec<HxMidiEvent>, pub shared: SharedNodeExec }
impl NodeExecutor {
    ⟦fn NodeExecutor::feed_midi_events_from of src/nodes/node_exec.rs⟧
    fn feed_midi_events_from(&mut self, mut f: EvSource)
«    requires old(self).injected_midi@.len() < MAX_MIDI_NOTES_PER_BLOCK, old(self).injected_midi@.len() < MAX_MIDI_CC_PER_BLOCK
        ensures final(self).injected_midi@.len() == 0,
            // a part of the events from the source behind all of the injected ones, each in exactly one of
            // the lists; events are left only if one of the lists is full
            exists|n: int| 0 <= n <= f@.len() && (n == f@.len() || final(self).exec_ctx.midi_notes@.len() == MAX_MIDI_NOTES_PER_BLOCK || final(self).exec_ctx.midi_ccs@.len() == MAX_MIDI_CC_PER_BLOCK)
                && final(self).exec_ctx.midi_ccs@ == part(at_zero(old(self).injected_midi@) + #[trigger] f@.take(n), true)
                && final(self).exec_ctx.midi_notes@ == part(at_zero(old(self).injected_midi@) + f@.take(n), false)»
    {
        «let ghost inj = self.injected_midi@; let ghost src = f@; let ghost mut n: int = 0;»
        self.exec_ctx.midi_notes.clear();
        self.exec_ctx.midi_ccs.clear();

        «assert(at_zero(inj).take(0) =~= Seq::empty()); assert(part(at_zero(inj).take(0), true) =~= Seq::empty()); assert(part(at_zero(inj).take(0), false) =~= Seq::empty());»
        if self.injected_midi.len() > 0 {
            for ev in «it1:» self.injected_midi.iter()
«                invariant it1.seq().len() == inj.len(), forall|k: int| 0 <= k < inj.len() ==> *#[trigger] it1.seq()[k] == inj[k], self.injected_midi@ == inj,
                    self.exec_ctx.midi_ccs@ == part(at_zero(inj).take(it1.index@), true), self.exec_ctx.midi_notes@ == part(at_zero(inj).take(it1.index@), false)»
            {
«                proof { let k = it1.index@; assert(*ev == inj[k]); assert(at_zero(inj).take(k + 1) =~= at_zero(inj).take(k).push(at_zero(inj)[k])); part_push(at_zero(inj).take(k), at_zero(inj)[k]); }»
                let ev = HxTimedEvent::new_timed(0, *ev);
                if ev.is_cc() {
                    self.exec_ctx.midi_ccs.push(ev);
                } else {
                    self.exec_ctx.midi_notes.push(ev);
                }
                let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));
            }

            self.injected_midi.clear();
«            proof { assert(at_zero(inj).take(inj.len() as int) =~= at_zero(inj)); }»
        }

        «proof {
            if inj.len() == 0 { assert(self.exec_ctx.midi_ccs@ =~= part(at_zero(inj).take(0), true)); assert(self.exec_ctx.midi_notes@ =~= part(at_zero(inj).take(0), false)); assert(at_zero(inj).take(0) =~= at_zero(inj)); }
            assert(at_zero(inj) + src.take(0) =~= at_zero(inj));
            part_len(at_zero(inj), true); part_len(at_zero(inj), false);
            assert(src.skip(0) =~= src);
        }»
        loop
«            invariant_except_break self.exec_ctx.midi_notes@.len() < MAX_MIDI_NOTES_PER_BLOCK, self.exec_ctx.midi_ccs@.len() < MAX_MIDI_CC_PER_BLOCK, f@ == src.skip(n),
            invariant 0 <= n <= src.len(), self.injected_midi@.len() == 0,
                self.exec_ctx.midi_ccs@ == part(at_zero(inj) + src.take(n), true), self.exec_ctx.midi_notes@ == part(at_zero(inj) + src.take(n), false)
            ensures n == src.len() || self.exec_ctx.midi_notes@.len() == MAX_MIDI_NOTES_PER_BLOCK || self.exec_ctx.midi_ccs@.len() == MAX_MIDI_CC_PER_BLOCK
            decreases src.len() - n»
        { let Some(ev) = f.next_ev() else { break; };
«            proof {
                assert(ev == src[n]);
                assert((at_zero(inj) + src.take(n)).push(ev) =~= at_zero(inj) + src.take(n + 1));
                part_push(at_zero(inj) + src.take(n), ev);
                assert(src.skip(n).drop_first() =~= src.skip(n + 1));
                n = n + 1;
            }»
            if ev.is_cc() {
                self.exec_ctx.midi_ccs.push(ev);
            } else {
                self.exec_ctx.midi_notes.push(ev);
            }

            let _ = self.shared.graph_event_prod.push(GraphEvent::MIDI(ev.kind()));

            if self.exec_ctx.midi_ccs.len() == MAX_MIDI_CC_PER_BLOCK {
                break;
            }
            if self.exec_ctx.midi_notes.len() == MAX_MIDI_NOTES_PER_BLOCK {
                break;
            }
        }
    }
    ⟦end⟧
}
/// slew limiter (synfx-dsp)
#[verifier::external_body]
pub struct SlewValue { p: usize }
impl SlewValue {
    pub uninterp spec fn next_st(self, v: f32, ms: f32) -> SlewValue;
    pub uninterp spec fn next_r(self, v: f32, ms: f32) -> f32;
    #[verifier::external_body]
    pub fn next(&mut self, v: f32, ms: f32) -> (r: f32)
        ensures *final(self) == old(self).next_st(v, ms), r == old(self).next_r(v, ms)
    { unimplemented!() }
}
pub struct MidiCC { pub cur_cc1: f32, pub cur_cc2: f32, pub cur_cc3: f32, pub slew_cc1: SlewValue, pub slew_cc2: SlewValue, pub slew_cc3: SlewValue }
/// settings: channel and the three controllers
pub struct CCSet { pub ch: u8, pub c1: u8, pub c2: u8, pub c3: u8 }
pub open spec fn low(v: i64, n: usize) -> u8 { (v as usize % n) as u8 }
pub open spec fn cc_set(a: Seq<SAtom>) -> CCSet { CCSet { ch: low(a[0].iv(), 16), c1: low(a[1].iv(), 128), c2: low(a[2].iv(), 128), c3: low(a[3].iv(), 128) } }
/// an event on the channel sets the value of the first controller with that number
pub open spec fn cc_ev(s: MidiCC, e: HxMidiEvent, p: CCSet) -> MidiCC {
    match e {
        HxMidiEvent::CC { channel, cc, value } =>
            if channel != p.ch { s } else if cc == p.c1 { MidiCC { cur_cc1: value, ..s } } else if cc == p.c2 { MidiCC { cur_cc2: value, ..s } }
            else if cc == p.c3 { MidiCC { cur_cc3: value, ..s } } else { s },
        _ => s,
    }
}
pub open spec fn cc_fold(s: MidiCC, e: Seq<HxTimedEvent>, p: CCSet, a: int, b: int) -> MidiCC decreases b - a {
    if b <= a { s } else { cc_ev(cc_fold(s, e, p, a, b - 1), e[b - 1].kind, p) }
}
pub open spec fn cc_slew(s: MidiCC, ms: f32) -> MidiCC {
    MidiCC { slew_cc1: s.slew_cc1.next_st(s.cur_cc1, ms), slew_cc2: s.slew_cc2.next_st(s.cur_cc2, ms), slew_cc3: s.slew_cc3.next_st(s.cur_cc3, ms), ..s }
}
/// state and number of events seen after k frames
pub open spec fn cc_at(s: MidiCC, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, p: CCSet, k: int) -> (MidiCC, int) decreases k, 0int {
    if k <= 0 { (s, 0) } else {
        let q = cc_at(s, e, i, p, k - 1);
        (cc_slew(cc_seen(s, e, i, p, k - 1), denorm_v::MidiCC::slew_s(i[0]@[k - 1])), due(e, q.1, k - 1))
    }
}
/// ... with the events of frame k
pub open spec fn cc_seen(s: MidiCC, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, p: CCSet, k: int) -> MidiCC decreases k, 1int {
    if k < 0 { s } else { let q = cc_at(s, e, i, p, k); cc_fold(q.0, e, p, q.1, due(e, q.1, k)) }
}
pub open spec fn cc_law(s: MidiCC, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, p: CCSet, c: int, k: int) -> f32 {
    let q = cc_seen(s, e, i, p, k);
    let ms = denorm_v::MidiCC::slew_s(i[0]@[k]);
    if c == 0 { q.slew_cc1.next_r(q.cur_cc1, ms) } else if c == 1 { q.slew_cc2.next_r(q.cur_cc2, ms) } else { q.slew_cc3.next_r(q.cur_cc3, ms) }
}
impl MidiCC {
⟦fn DspNode@MidiCC::process of src/dsp/node_midicc.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 1, atoms@.len() == 4, old(outputs)@.len() == 3
        ensures final(outputs)@.len() == 3, final(ctx).outs() == old(ctx).outs(), final(ectx).midi_ccs@ == old(ectx).midi_ccs@, final(ectx).midi_notes@ == old(ectx).midi_notes@,
            *final(self) == cc_at(*old(self), old(ectx).midi_ccs@, inputs@, cc_set(atoms@), old(ctx).nf() as int).0,
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| cc_law(*old(self), old(ectx).midi_ccs@, inputs@, cc_set(atoms@), 0, k)),
            done(old(outputs)@[1]@, final(outputs)@[1]@, old(ctx).nf() as int, |k: int| cc_law(*old(self), old(ectx).midi_ccs@, inputs@, cc_set(atoms@), 1, k)),
            done(old(outputs)@[2]@, final(outputs)@[2]@, old(ctx).nf() as int, |k: int| cc_law(*old(self), old(ectx).midi_ccs@, inputs@, cc_set(atoms@), 2, k))
»    {
        let slew = inp::MidiCC::slew(inputs);
        let chan = at::MidiCC::chan(atoms);
        let cc1 = at::MidiCC::cc1(atoms);
        let cc2 = at::MidiCC::cc2(atoms);
        let cc3 = at::MidiCC::cc3(atoms);
        let sig2_i = out_idx::MidiCC::sig2();
        let (sig1, r) = split_bufs(outputs, sig2_i);
        let (sig2, sig3) = split_bufs(r, 1);
        let sig1 = &mut sig1[0];
        let sig2 = &mut sig2[0];
        let sig3 = &mut sig3[0];
«        let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost a0 = sig1@; let ghost b0 = sig2@; let ghost c0 = sig3@; let ghost s0 = *self; let ghost evs = ectx.midi_ccs@; let ghost p = cc_set(atoms@);»


        let midicc_channel = (chan.i() as usize % 16) as u8;
        let midicc_cc1 = (cc1.i() as usize % 128) as u8;
        let midicc_cc2 = (cc2.i() as usize % 128) as u8;
        let midicc_cc3 = (cc3.i() as usize % 128) as u8;

        let mut ptr = MidiEventPointer::new(ectx.midi_ccs.as_slice());

        let mut change = false;

        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), inputs@.len() > 0, atoms@.len() > 1, frames_end == n, n <= 128, *slew == inputs@[0], ctx.outs() == outs0, p == cc_set(atoms@), p.ch == midicc_channel, p.c1 == midicc_cc1, p.c2 == midicc_cc2, p.c3 == midicc_cc3,
                    evs == ectx.midi_ccs@, ptr.buf@ == evs, ptr.idx <= evs.len(), (*self, ptr.idx as int) == cc_at(s0, evs, inputs@, p, frame as int),
                    done(a0, sig1@, frame as int, |k: int| cc_law(s0, evs, inputs@, cc_set(atoms@), 0, k)), done(b0, sig2@, frame as int, |k: int| cc_law(s0, evs, inputs@, cc_set(atoms@), 1, k)), done(c0, sig3@, frame as int, |k: int| cc_law(s0, evs, inputs@, cc_set(atoms@), 2, k))»
                {
            let slew_ms = denorm::MidiCC::slew(slew, frame);

            «let ghost s1 = *self; let ghost i1 = ptr.idx as int; proof { due_step(evs, i1, frame as int); }»
            loop
«                invariant ptr.buf@ == evs, ptr.idx <= evs.len(), i1 <= ptr.idx, due(evs, ptr.idx as int, frame as int) == due(evs, i1, frame as int), p.ch == midicc_channel, p.c1 == midicc_cc1, p.c2 == midicc_cc2, p.c3 == midicc_cc3,
                    *self == cc_fold(s1, evs, p, i1, ptr.idx as int)
                ensures ptr.idx == due(evs, i1, frame as int)
                decreases evs.len() - ptr.idx»
            { let Some(ev) = ptr.next_at(frame) else { break; };
«                proof { assert(cc_fold(s1, evs, p, i1, ptr.idx as int) == cc_ev(cc_fold(s1, evs, p, i1, ptr.idx - 1), evs[ptr.idx - 1].kind, p)); }»
                if let HxMidiEvent::CC { channel, cc, value } = ev {
                    if channel != midicc_channel {
                        continue;
                    }

                    if cc == midicc_cc1 {
                        self.cur_cc1 = value;
                        change = true;
                    } else if cc == midicc_cc2 {
                        self.cur_cc2 = value;
                        change = true;
                    } else if cc == midicc_cc3 {
                        self.cur_cc3 = value;
                        change = true;
                    }
                }
            }

«            proof { assert((s1, i1) == cc_at(s0, evs, inputs@, p, frame as int)); assert(*self == cc_seen(s0, evs, inputs@, p, frame as int)); }»
            sig1.write(frame, self.slew_cc1.next(self.cur_cc1, slew_ms));
            sig2.write(frame, self.slew_cc2.next(self.cur_cc2, slew_ms));
            sig3.write(frame, self.slew_cc3.next(self.cur_cc3, slew_ms));
«            proof { let q = cc_at(s0, evs, inputs@, p, frame + 1); assert(q.0 == cc_slew(cc_seen(s0, evs, inputs@, p, frame as int), denorm_v::MidiCC::slew_s(inputs@[0]@[frame as int])));
                assert(q.1 == due(evs, i1, frame as int)); assert(*self == q.0); }»
        }

        ctx_vals.led(0, if change { 1.0 } else { 0.0 });
    }
⟦end⟧
}
/// trigger pulse (synfx-dsp)
#[verifier::external_body]
pub struct TrigSignal { p: usize }
impl TrigSignal {
    pub uninterp spec fn trigger_st(self) -> TrigSignal;
    #[verifier::external_body]
    pub fn trigger(&mut self)
        ensures *final(self) == old(self).trigger_st()
    { unimplemented!() }
    pub uninterp spec fn next_st(self) -> TrigSignal;
    pub uninterp spec fn next_r(self) -> f32;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: f32)
        ensures *final(self) == old(self).next_st(), r == old(self).next_r()
    { unimplemented!() }
}
/// gate of a certain length (synfx-dsp)
#[verifier::external_body]
pub struct GateSignal { p: usize }
impl GateSignal {
    pub uninterp spec fn trigger_st(self) -> GateSignal;
    #[verifier::external_body]
    pub fn trigger(&mut self)
        ensures *final(self) == old(self).trigger_st()
    { unimplemented!() }
    pub uninterp spec fn next_st(self, len: f32) -> GateSignal;
    pub uninterp spec fn next_r(self, len: f32) -> f32;
    #[verifier::external_body]
    pub fn next(&mut self, len: f32) -> (r: f32)
        ensures *final(self) == old(self).next_st(len), r == old(self).next_r(len)
    { unimplemented!() }
}
pub struct MidiP { pub next_gate: i8, pub cur_note: u8, pub cur_gate: u8, pub cur_vel: f32, pub trig_sig: TrigSignal, pub gate_sig: GateSignal }
/// an event on the channel: a note on starts the gate (after a gap of one frame if it is on), the note off of the current note ends it
pub open spec fn note_ev(s: MidiP, e: HxMidiEvent, ch: u8) -> MidiP {
    match e {
        HxMidiEvent::NoteOn { channel, note, vel } => if channel != ch { s } else {
            MidiP {
                next_gate: if s.cur_gate > 0 { 1i8 } else if s.next_gate < 0 { 0i8 } else { s.next_gate }, cur_gate: if s.cur_gate > 0 { 0u8 } else { 1u8 },
                cur_note: note, cur_vel: vel, trig_sig: s.trig_sig.trigger_st(), gate_sig: s.gate_sig.trigger_st(),
            }
        },
        HxMidiEvent::NoteOff { channel, note } => if channel == ch && s.cur_note == note { MidiP { next_gate: -1i8, ..s } } else { s },
        _ => s,
    }
}
/// whatever else happened in its frame: after a note on the gate of the next frame is on, after the note off of the current note it is off
pub proof fn lemma_note_last(s: MidiP, channel: u8, note: u8, vel: f32)
    ensures note_start(note_ev(s, HxMidiEvent::NoteOn { channel, note, vel }, channel)).cur_gate == 1,
        s.cur_note == note ==> note_start(note_ev(s, HxMidiEvent::NoteOff { channel, note }, channel)).cur_gate == 0,
{}
pub open spec fn note_fold(s: MidiP, e: Seq<HxTimedEvent>, ch: u8, a: int, b: int) -> MidiP decreases b - a {
    if b <= a { s } else { note_ev(note_fold(s, e, ch, a, b - 1), e[b - 1].kind, ch) }
}
/// what the last frame left for this one
pub open spec fn note_start(s: MidiP) -> MidiP {
    MidiP { cur_gate: if s.next_gate > 0 { 1u8 } else if s.next_gate < 0 { 0u8 } else { s.cur_gate }, next_gate: 0, ..s }
}
pub open spec fn note_gate(s: MidiP, mode: i64, len: f32) -> f32 {
    if mode == 1 { s.trig_sig.next_r() } else if mode == 2 { if s.next_gate > 0 { 0.0f32 } else { s.gate_sig.next_r(len) } }
    else if s.cur_gate > 0 { 1.0f32 } else { 0.0f32 }
}
pub open spec fn note_after(s: MidiP, mode: i64, len: f32) -> MidiP {
    if mode == 1 { MidiP { trig_sig: s.trig_sig.next_st(), ..s } }
    else if mode == 2 {
        if s.next_gate > 0 { MidiP { cur_gate: 0, ..s } }
        else { MidiP { gate_sig: s.gate_sig.next_st(len), cur_gate: f2u8(fceil(s.gate_sig.next_r(len))), ..s } }
    } else { s }
}
pub open spec fn note_at(s: MidiP, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, ch: u8, mode: i64, k: int) -> (MidiP, int) decreases k, 0int {
    if k <= 0 { (s, 0) } else {
        (note_after(note_seen(s, e, i, ch, mode, k - 1), mode, denorm_v::MidiP::glen_s(i[1]@[k - 1])), due(e, note_at(s, e, i, ch, mode, k - 1).1, k - 1))
    }
}
pub open spec fn note_seen(s: MidiP, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, ch: u8, mode: i64, k: int) -> MidiP decreases k, 1int {
    if k < 0 { s } else { let q = note_at(s, e, i, ch, mode, k); note_fold(note_start(q.0), e, ch, q.1, due(e, q.1, k)) }
}
pub open spec fn note_law(s: MidiP, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, ch: u8, mode: i64, c: int, k: int) -> f32 {
    let q = note_seen(s, e, i, ch, mode, k);
    if c == 0 { u82f(q.cur_note).sub_spec(69.0f32).div_spec(120.0f32).add_spec(i[0]@[k]) }
    else if c == 1 { note_gate(q, mode, denorm_v::MidiP::glen_s(i[1]@[k])) } else { q.cur_vel }
}
impl MidiP {
⟦fn DspNode@MidiP::process of src/dsp/node_midip.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        ectx: &mut NodeExecContext,
        _nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 2, atoms@.len() == 2, old(outputs)@.len() == 3
        ensures final(outputs)@.len() == 3, final(ctx).outs() == old(ctx).outs(), final(ectx).midi_ccs@ == old(ectx).midi_ccs@, final(ectx).midi_notes@ == old(ectx).midi_notes@,
            *final(self) == note_at(*old(self), old(ectx).midi_notes@, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), old(ctx).nf() as int).0,
            done(old(outputs)@[0]@, final(outputs)@[0]@, old(ctx).nf() as int, |k: int| note_law(*old(self), old(ectx).midi_notes@, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 0, k)),
            done(old(outputs)@[1]@, final(outputs)@[1]@, old(ctx).nf() as int, |k: int| note_law(*old(self), old(ectx).midi_notes@, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 1, k)),
            done(old(outputs)@[2]@, final(outputs)@[2]@, old(ctx).nf() as int, |k: int| note_law(*old(self), old(ectx).midi_notes@, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 2, k))
»    {
        let det = inp::MidiP::det(inputs);
        let glen = inp::MidiP::glen(inputs);
        let chan = at::MidiP::chan(atoms);
        let gmode = at::MidiP::gmode(atoms);
        let out_i = out_idx::MidiP::gate();
        let (freq, r) = split_bufs(outputs, out_i);
        let (gate, vel) = split_bufs(r, 1);
        let freq = &mut freq[0];
        let gate = &mut gate[0];
        let vel = &mut vel[0];
«        let ghost n = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost a0 = freq@; let ghost b0 = gate@; let ghost c0 = vel@; let ghost s0 = *self; let ghost evs = ectx.midi_notes@;»


        let midip_channel = (chan.i() as usize % 16) as u8;

        let mut ptr = MidiEventPointer::new(ectx.midi_notes.as_slice());

        let gmode = gmode.i();

        let frames_end = ctx.nframes(); for frame in 0..frames_end
«                invariant n == ctx.nf(), inputs@.len() > 0, atoms@.len() > 1, frames_end == n, n <= 128, *det == inputs@[0], *glen == inputs@[1], ctx.outs() == outs0, low(atoms@[0].iv(), 16) == midip_channel, gmode == atoms@[1].iv(),
                    evs == ectx.midi_notes@, ptr.buf@ == evs, ptr.idx <= evs.len(), (*self, ptr.idx as int) == note_at(s0, evs, inputs@, midip_channel, gmode, frame as int),
                    done(a0, freq@, frame as int, |k: int| note_law(s0, evs, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 0, k)), done(b0, gate@, frame as int, |k: int| note_law(s0, evs, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 1, k)), done(c0, vel@, frame as int, |k: int| note_law(s0, evs, inputs@, low(atoms@[0].iv(), 16), atoms@[1].iv(), 2, k))»
                {
            let gate_len = denorm::MidiP::glen(glen, frame);

            if self.next_gate > 0 {
                self.cur_gate = 1;
            } else if self.next_gate < 0 {
                self.cur_gate = 0;
            }
            self.next_gate = 0;

            «let ghost s1 = *self; let ghost i1 = ptr.idx as int; proof { due_step(evs, i1, frame as int); }»
            loop
«                invariant ptr.buf@ == evs, ptr.idx <= evs.len(), i1 <= ptr.idx, due(evs, ptr.idx as int, frame as int) == due(evs, i1, frame as int),
                    *self == note_fold(s1, evs, midip_channel, i1, ptr.idx as int)
                ensures ptr.idx == due(evs, i1, frame as int)
                decreases evs.len() - ptr.idx»
            { let Some(ev) = ptr.next_at(frame) else { break; };
«                proof { assert(note_fold(s1, evs, midip_channel, i1, ptr.idx as int) == note_ev(note_fold(s1, evs, midip_channel, i1, ptr.idx - 1), evs[ptr.idx - 1].kind, midip_channel)); }»
                match ev {
                    HxMidiEvent::NoteOn { channel, note, vel } => {
                        if channel != midip_channel {
                            continue;
                        }

                        if self.cur_gate > 0 {
                            self.next_gate = 1;
                            self.cur_gate = 0;
                        } else {
                            self.cur_gate = 1;
                            if self.next_gate < 0 {
                                self.next_gate = 0;
                            }
                        }
                        self.trig_sig.trigger();
                        self.gate_sig.trigger();
                        self.cur_note = note;
                        self.cur_vel = vel;
                    }
                    HxMidiEvent::NoteOff { channel, note } => {
                        if channel != midip_channel {
                            continue;
                        }

                        if self.cur_note == note {
                            self.next_gate = -1;
                        }
                    }
                    _ => (),
                }
            }

«            let ghost s2 = *self; proof { assert(s2 == note_seen(s0, evs, inputs@, midip_channel, gmode, frame as int)); }»
            match gmode {
                1 => {
                    gate.write(frame, self.trig_sig.next());
                }
                2 => {
                    if self.next_gate > 0 {
                        gate.write(frame, 0.0);
                        self.cur_gate = 0;
                    } else {
                        let gsig = self.gate_sig.next(gate_len);
                        self.cur_gate = gsig.ceil().to_u8();
                        gate.write(frame, gsig);
                    }
                }
                _ => {
                    gate.write(frame, if self.cur_gate > 0 { 1.0 } else { 0.0 });
                }
            }

            let note = (self.cur_note.to_f32() - 69.0) / 120.0;
            let note = note + det.read(frame);
            
            freq.write(frame, note);
            vel.write(frame, self.cur_vel.to_f32());
«            proof { let q = note_at(s0, evs, inputs@, midip_channel, gmode, frame + 1); assert(q.0 == note_after(s2, gmode, denorm_v::MidiP::glen_s(inputs@[1]@[frame as int])));
                assert(q.1 == due(evs, i1, frame as int)); assert(*self == q.0); }»
        }

        let last_val = gate.read(ctx.nframes() - 1);
        ctx_vals.led(0, last_val);
    }
⟦end⟧
}
/// events in the order of their time: after k frames exactly the events of the frames before k have been seen
pub proof fn cc_in_time(s: MidiCC, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, p: CCSet, k: int)
    requires 0 <= k, forall|a: int, b: int| 0 <= a <= b < e.len() ==> (#[trigger] e[a]).timing <= (#[trigger] e[b]).timing
    ensures 0 <= cc_at(s, e, i, p, k).1 <= e.len(),
        forall|j: int| 0 <= j < e.len() ==> (j < cc_at(s, e, i, p, k).1 <==> (#[trigger] e[j]).timing < k)
    decreases k
{
    if k > 0 {
        cc_in_time(s, e, i, p, k - 1);
        due_step(e, cc_at(s, e, i, p, k - 1).1, k - 1);
        assert(cc_at(s, e, i, p, k).1 == due(e, cc_at(s, e, i, p, k - 1).1, k - 1));
    }
}
/// events in the order of their time: after k frames exactly the events of the frames before k have been seen
pub proof fn note_in_time(s: MidiP, e: Seq<HxTimedEvent>, i: Seq<ProcBuf>, ch: u8, mode: i64, k: int)
    requires 0 <= k, forall|a: int, b: int| 0 <= a <= b < e.len() ==> (#[trigger] e[a]).timing <= (#[trigger] e[b]).timing
    ensures 0 <= note_at(s, e, i, ch, mode, k).1 <= e.len(),
        forall|j: int| 0 <= j < e.len() ==> (j < note_at(s, e, i, ch, mode, k).1 <==> (#[trigger] e[j]).timing < k)
    decreases k
{
    if k > 0 {
        note_in_time(s, e, i, ch, mode, k - 1);
        due_step(e, note_at(s, e, i, ch, mode, k - 1).1, k - 1);
        assert(note_at(s, e, i, ch, mode, k).1 == due(e, note_at(s, e, i, ch, mode, k - 1).1, k - 1));
    }
}

fn main() {}
}
