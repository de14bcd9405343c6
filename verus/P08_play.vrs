
// ---- the way of the pattern to the audio thread
pub fn lock_pd(pd: &mut PatternData) -> (r: &mut PatternData) ensures *r == *old(pd), *final(r) == *final(pd) { pd }
⟦struct PatternUpdateMsg of src/dsp/tracker/mod.rs⟧
pub type Msg = PatternUpdateMsg;
pub tracked struct Rings { pub ghost q: Map<int, Seq<Msg>> }
pub const MAX_RINGBUF_SIZE: usize = 64;
pub uninterp spec fn open01_ok(x: f64) -> bool;
pub mod ring { use super::*;
#[verifier::external_body] pub struct RingBuffer { x: usize }
#[verifier::external_body] pub struct Producer { x: usize }
#[verifier::external_body] pub struct Consumer { x: usize }
#[verifier::external_body] pub struct SplitMix64 { x: u64 }
impl RingBuffer {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn new(n: usize, Tracked(w): Tracked<&mut Rings>) -> (r: Self) ensures !old(w).q.dom().contains(r.id()), final(w).q == old(w).q.insert(r.id(), Seq::<Msg>::empty()), r.cap() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn split(self) -> (r: (Producer, Consumer)) ensures r.0.id() == self.id(), r.1.id() == self.id(), r.0.cap() == self.cap() { unimplemented!() }
}
impl Producer {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn cap(&self) -> int;
    #[verifier::external_body]
    pub fn is_full(&self, Tracked(w): Tracked<&Rings>) -> (r: bool) ensures r == (w.q[self.id()].len() >= self.cap()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, m: Msg, Tracked(w): Tracked<&mut Rings>) -> (r: Result<(), Msg>)
        ensures *final(self) == *old(self), r is Ok == (old(w).q[old(self).id()].len() < old(self).cap()),
            final(w).q == (if r is Ok { old(w).q.insert(old(self).id(), old(w).q[old(self).id()].push(m)) } else { old(w).q }) { unimplemented!() }
}
impl Consumer {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn pop(&mut self, Tracked(w): Tracked<&mut Rings>) -> (r: Option<Msg>)
        ensures *final(self) == *old(self), ({ let q = old(w).q[old(self).id()];
            if q.len() == 0 { r is None && final(w).q == old(w).q } else { r == Some(q[0]) && final(w).q == old(w).q.insert(old(self).id(), q.subrange(1, q.len() as int)) } }) { unimplemented!() }
}
impl SplitMix64 {
    #[verifier::external_body]
    pub fn next_open01(&mut self) -> f64 { unimplemented!() }
}
}
pub use ring::*;
⟦struct PatternSequencer of src/dsp/tracker/sequencer.rs⟧
pub struct Tracker { pub data_prod: Producer, pub seq: Option<PatternSequencer>, pub seq_cons: Option<Consumer> }
⟦struct TrackerBackend of src/dsp/tracker/mod.rs⟧
pub open spec fn mcol(m: Msg) -> int { m->col as int }
/// The newest column c under way.
pub open spec fn latest(q: Seq<Msg>, c: int) -> Option<Msg> decreases q.len() { if q.len() == 0 { None } else if mcol(q.last()) == c { Some(q.last()) } else { latest(q.drop_last(), c) } }
pub proof fn lemma_pop(q: Seq<Msg>, c: int)
    requires q.len() > 0
    ensures latest(q, c) == (match latest(q.subrange(1, q.len() as int), c) { Some(m) => Some(m), None => if mcol(q[0]) == c { Some(q[0]) } else { None } })
    decreases q.len()
{
    let r = q.subrange(1, q.len() as int);
    if q.len() == 1 { assert(r.len() == 0); assert(q.last() == q[0]); assert(latest(q.drop_last(), c) is None); }
    else { assert(r.last() == q.last()); assert(q.drop_last().subrange(1, q.len() - 1) =~= r.drop_last()); assert(q.drop_last()[0] == q[0]); lemma_pop(q.drop_last(), c); }
}
pub open spec fn seq_ok(s: PatternSequencer) -> bool { s.rows <= 256 && s.data@.len() == 6 && forall|c: int| 0 <= c < 6 ==> (#[trigger] s.data@[c])@.len() == 256 }
pub open spec fn msgs_ok(q: Seq<Msg>) -> bool { forall|k: int| 0 <= k < q.len() ==> 0 <= mcol(#[trigger] q[k]) < 6 && q[k]->pattern_len <= 256 }
/// What the audio thread will play in column c when everything under way has arrived.
pub open spec fn eff_data(q: Seq<Msg>, s: PatternSequencer, c: int) -> Seq<(f32, u8)> { match latest(q, c) { Some(m) => m->data@, None => s.data@[c]@ } }
pub open spec fn eff_type(q: Seq<Msg>, t: Seq<PatternColType>, c: int) -> PatternColType { match latest(q, c) { Some(m) => m->col_type, None => t[c] } }
pub open spec fn eff_rows(q: Seq<Msg>, s: PatternSequencer) -> int { if q.len() > 0 { q.last()->pattern_len as int } else { s.rows as int } }
/// Column c, as the audio thread has it or will have it, is that of the pattern.
pub open spec fn arrives(pd: PatternData, q: Seq<Msg>, s: PatternSequencer, t: Seq<PatternColType>, c: int) -> bool {
    eff_type(q, t, c) == pd.col_types@[c] && eff_rows(q, s) == pd.rows && forall|r: int| 0 <= r < pd.rows ==> pd.row_out(c, r, #[trigger] eff_data(q, s, c)[r])
}
/// Nothing is lost: every column is marked as modified, or under way, or there.
pub open spec fn linked(pd: PatternData, q: Seq<Msg>, s: PatternSequencer, t: Seq<PatternColType>) -> bool {
    seq_ok(s) && msgs_ok(q) && t.len() == 6 && forall|c: int| 0 <= c < 6 && !pd.dirty_col@[c] ==> #[trigger] arrives(pd, q, s, t, c)
}
/// An edit: a column that is not marked is as before.
pub open spec fn touched(a: PatternData, b: PatternData) -> bool {
    forall|c: int| 0 <= c < 6 && !#[trigger] b.dirty_col@[c] ==> !a.dirty_col@[c] && a.col_types@[c] == b.col_types@[c] && a.rows == b.rows && forall|r: int| 0 <= r < 256 ==> #[trigger] a.cell(r, c) == b.cell(r, c)
}
pub proof fn lemma_edited(a: PatternData, b: PatternData, row: usize, col: usize, v: Option<u16>) requires a.wf(), b.wf(), b.edited(&a, row, col, v) ensures touched(a, b) {
    assert forall|c: int| 0 <= c < 6 && !#[trigger] b.dirty_col@[c] implies !a.dirty_col@[c] && a.col_types@[c] == b.col_types@[c] && a.rows == b.rows && forall|r: int| 0 <= r < 256 ==> #[trigger] a.cell(r, c) == b.cell(r, c) by {
        assert forall|r: int| 0 <= r < 256 implies #[trigger] a.cell(r, c) == b.cell(r, c) by { let _ = b.cell(r, c); }
    }
}
pub proof fn lemma_retyped(a: PatternData, b: PatternData, col: usize, t: PatternColType) requires a.wf(), b.wf(), b.retyped(&a, col, t) ensures touched(a, b) { }
pub proof fn lemma_held(a: PatternData, b: PatternData, c: int, r: int, n: bool)
    requires r < 256, forall|k: int| 0 <= k < 256 ==> #[trigger] a.cell(k, c) == b.cell(k, c) ensures a.held(c, r, n) == b.held(c, r, n) decreases r + 1
{ if r >= 0 { assert(a.cell(r, c) == b.cell(r, c)); lemma_held(a, b, c, r - 1, n); } }
pub proof fn lemma_row(a: PatternData, b: PatternData, c: int, r: int, o: (f32, u8))
    requires 0 <= r < a.rows <= 256, a.rows == b.rows, a.col_types@[c] == b.col_types@[c], forall|k: int| 0 <= k < 256 ==> #[trigger] a.cell(k, c) == b.cell(k, c), a.row_out(c, r, o)
    ensures b.row_out(c, r, o)
{
    assert(a.cell(r, c) == b.cell(r, c));
    lemma_held(a, b, c, r, true); lemma_held(a, b, c, r, false);
    assert forall|k: int| #[trigger] b.knot(c, k) == a.knot(c, k) by { if 0 <= k < 256 { assert(a.cell(k, c) == b.cell(k, c)); } }
    if a.col_types@[c] == PatternColType::Value {
        assert forall|x: int, y: int| #[trigger] b.inner(c, x, r, y) implies o.0 == b.lerp(c, x, r, y) by {
            assert(b.knot(c, x) && b.knot(c, y)); assert(a.knot(c, x) && a.knot(c, y));
            assert forall|k: int| x < k < y implies !a.knot(c, k) by { assert(!b.knot(c, k)); }
            assert(a.inner(c, x, r, y)); assert(a.cell(x, c) == b.cell(x, c) && a.cell(y, c) == b.cell(y, c));
        }
    }
}
/// Whatever is edited, nothing is lost.
pub proof fn lemma_touch(a: PatternData, b: PatternData, q: Seq<Msg>, s: PatternSequencer, t: Seq<PatternColType>)
    requires a.wf(), b.wf(), touched(a, b), linked(a, q, s, t) ensures linked(b, q, s, t)
{
    assert forall|c: int| 0 <= c < 6 && !b.dirty_col@[c] implies #[trigger] arrives(b, q, s, t, c) by {
        assert(arrives(a, q, s, t, c));
        assert forall|r: int| 0 <= r < b.rows implies b.row_out(c, r, #[trigger] eff_data(q, s, c)[r]) by { lemma_row(a, b, c, r, eff_data(q, s, c)[r]); }
    }
}
/// When nothing is marked and nothing is under way, the audio thread has the pattern.
pub proof fn lemma_arrived(pd: PatternData, q: Seq<Msg>, s: PatternSequencer, t: Seq<PatternColType>)
    requires linked(pd, q, s, t), q.len() == 0, forall|c: int| 0 <= c < 6 ==> !pd.dirty_col@[c]
    ensures s.rows == pd.rows, t =~= pd.col_types@, forall|c: int, r: int| 0 <= c < 6 && 0 <= r < pd.rows ==> pd.row_out(c, r, #[trigger] s.data@[c]@[r])
{
    assert forall|c: int| 0 <= c < 6 implies #[trigger] t[c] == pd.col_types@[c] && s.rows == pd.rows by { assert(arrives(pd, q, s, t, c)); }
    assert(t[0] == pd.col_types@[0]);
    assert forall|c: int, r: int| 0 <= c < 6 && 0 <= r < pd.rows implies pd.row_out(c, r, #[trigger] s.data@[c]@[r]) by { assert(arrives(pd, q, s, t, c)); assert(eff_data(q, s, c)[r] == s.data@[c]@[r]); }
}
pub open spec fn clean_count(d: Seq<bool>, n: int) -> int decreases n { if n <= 0 { 0 } else { clean_count(d, n - 1) + if d[n - 1] { 0int } else { 1int } } }
impl PatternData {
⟦fn PatternData::get_out_data⟧
    fn get_out_data(&self) -> «(r:» &[[(f32, u8); MAX_PATTERN_LEN]] «) ensures r@ == self.out_data@»
    {
        self.out_data.as_slice()
    }
⟦end⟧
}
/// The state of the tracker while the backend has not been asked for yet, resp. with the backend it made last.
pub open spec fn waiting(t: Tracker, pd: PatternData, w: Rings) -> bool {
    t.seq is Some && t.seq_cons is Some && t.seq_cons->0.id() == t.data_prod.id() && linked(pd, w.q[t.data_prod.id()], t.seq->0, Seq::new(6, |k: int| PatternColType::Value))
}
pub open spec fn running(t: Tracker, b: TrackerBackend, pd: PatternData, w: Rings) -> bool {
    t.seq is None && t.seq_cons is None && b.seq_cons.id() == t.data_prod.id() && linked(pd, w.q[t.data_prod.id()], b.seq, b.col_types@)
}
impl Tracker {
⟦fn Tracker::send_one_update of src/dsp/tracker/mod.rs⟧
    fn send_one_update(&mut self «, pd: &mut PatternData, Tracked(w): Tracked<&mut Rings>») -> «(r:» bool «)»
«    requires old(pd).wf(), old(self).data_prod.cap() > 0
    ensures final(pd).wf(), *final(self) == *old(self), final(pd).rows == old(pd).rows, final(pd).data == old(pd).data, final(pd).col_types == old(pd).col_types,
        // nothing is sent only if the ring is full or nothing is marked
        !r ==> *final(pd) == *old(pd) && final(w).q == old(w).q && (old(w).q[old(self).data_prod.id()].len() >= old(self).data_prod.cap() || forall|c: int| 0 <= c < 6 ==> !old(pd).dirty_col@[c]),
        // otherwise one marked column is on its way
        r ==> exists|c: int| 0 <= c < 6 && old(pd).dirty_col@[c] && #[trigger] sent(*old(pd), *final(pd), old(w).q, final(w).q, old(self).data_prod.id(), c),
        // and nothing is lost
        forall|s: PatternSequencer, t: Seq<PatternColType>| linked(*old(pd), old(w).q[old(self).data_prod.id()], s, t) ==> #[trigger] linked(*final(pd), final(w).q[old(self).data_prod.id()], s, t)»
    {
        if self.data_prod.is_full(«Tracked(w)») {
            return false;
        }
«        let ghost p0 = *pd; let ghost id = self.data_prod.id();»
        let mut data = lock_pd(pd);

        «#[verifier::loop_isolation(false)]»
        for col in 0..MAX_COLS
«            invariant *data == p0, p0 == *old(pd), p0.wf(), w.q == old(w).q, *self == *old(self), id == self.data_prod.id(), w.q[id].len() < self.data_prod.cap(), forall|c: int| 0 <= c < col ==> !p0.dirty_col@[c]»
        {
            if data.col_is_modified_reset(col) {
«                let ghost p1 = *data;»
                data.sync_out_data(col);
                let out_data = data.get_out_data();
                let msg = PatternUpdateMsg::UpdateColumn {
                    col_type: data.col_type(col),
                    pattern_len: data.rows(),
                    data: out_data[col],
                    col,
                };

                let _ = self.data_prod.push(msg «, Tracked(w)»);
«                proof {
                    let p2 = *data; let q = old(w).q[id];
                    assert(forall|r: int, c: int| #[trigger] p2.cell(r, c) == p0.cell(r, c));
                    assert forall|r: int| 0 <= r < p0.rows implies p0.row_out(col as int, r, #[trigger] msg->data@[r]) by { assert(p1.row_out(col as int, r, p2.out_data@[col as int]@[r])); lemma_row(p1, p0, col as int, r, msg->data@[r]); }
                    assert(w.q[id].drop_last() =~= q); assert(w.q =~= old(w).q.insert(id, w.q[id])); assert(p2.dirty_col@ =~= p0.dirty_col@.update(col as int, false));
                    assert(sent(p0, p2, old(w).q, w.q, id, col as int));
                    assert forall|s: PatternSequencer, t: Seq<PatternColType>| linked(p0, q, s, t) implies #[trigger] linked(p2, w.q[id], s, t) by { lemma_sent(p0, p2, q, msg, s, t, col as int); }
                }»

                return true;
            }
        }

        false
    }
⟦end⟧
⟦fn Tracker::get_backend of src/dsp/tracker/mod.rs⟧
    fn get_backend(&mut self «, pd: &mut PatternData, Tracked(w): Tracked<&mut Rings>») -> «(b:» TrackerBackend «)»
«    requires old(pd).wf(), old(self).seq is Some ==> waiting(*old(self), *old(pd), *old(w))
    ensures running(*final(self), b, *final(pd), *final(w)), touched(*old(pd), *final(pd)), final(pd).wf(), final(pd).data == old(pd).data, final(pd).rows == old(pd).rows, final(pd).col_types == old(pd).col_types»
    {
        if self.seq.is_none() {
            let rb = RingBuffer::new(MAX_RINGBUF_SIZE «, Tracked(w)»);
            let (prod, con) = rb.split();

            self.seq = Some(PatternSequencer::new(MAX_PATTERN_LEN));
            self.data_prod = prod;
            self.seq_cons = Some(con);
            lock_pd(pd).modified_all_cols();
        }

        let seq = self.seq.take().unwrap();
        let seq_cons = self.seq_cons.take().unwrap();
«        proof { assert(Seq::new(6, |k: int| PatternColType::Value) =~= [PatternColType::Value; MAX_COLS]@); }»
        TrackerBackend { seq, seq_cons, col_types: [PatternColType::Value; MAX_COLS] }
    }
⟦end⟧
}
/// Column c was marked, is not any more, and went into the ring behind everything else.
pub open spec fn sent(a: PatternData, b: PatternData, q0: Map<int, Seq<Msg>>, q1: Map<int, Seq<Msg>>, id: int, c: int) -> bool {
    b.dirty_col@ == a.dirty_col@.update(c, false) && q1 == q0.insert(id, q1[id]) && q1[id].len() == q0[id].len() + 1 && q1[id].drop_last() == q0[id] && mcol(q1[id].last()) == c
}
pub proof fn lemma_sent(a: PatternData, b: PatternData, q: Seq<Msg>, m: Msg, s: PatternSequencer, t: Seq<PatternColType>, x: int)
    requires a.wf(), b.wf(), linked(a, q, s, t), 0 <= x < 6, mcol(m) == x, m->col_type == a.col_types@[x], m->pattern_len == a.rows, forall|r: int| 0 <= r < a.rows ==> a.row_out(x, r, #[trigger] m->data@[r]),
        b.rows == a.rows, b.col_types == a.col_types, b.data == a.data, b.dirty_col@ == a.dirty_col@.update(x, false)
    ensures linked(b, q.push(m), s, t)
{
    let p = q.push(m);
    assert(p.drop_last() =~= q); assert(p.last() == m);
    assert forall|k: int| 0 <= k < p.len() implies 0 <= mcol(#[trigger] p[k]) < 6 && p[k]->pattern_len <= 256 by { if k < q.len() { assert(p[k] == q[k]); } }
    assert forall|c: int| 0 <= c < 6 && !b.dirty_col@[c] implies #[trigger] arrives(b, p, s, t, c) by {
        if c != x { assert(!a.dirty_col@[c]); assert(arrives(a, q, s, t, c)); assert(latest(p, c) == latest(q, c)); }
        else { assert(latest(p, c) == Some(m)); }
        assert forall|r: int| 0 <= r < b.rows implies b.row_out(c, r, #[trigger] eff_data(p, s, c)[r]) by {
            assert(forall|k: int| 0 <= k < 256 ==> #[trigger] a.cell(k, c) == b.cell(k, c));
            if c != x { assert(a.row_out(c, r, eff_data(q, s, c)[r])); }
            lemma_row(a, b, c, r, eff_data(p, s, c)[r]);
        }
    }
}
impl TrackerBackend {
⟦fn TrackerBackend::check_updates of src/dsp/tracker/mod.rs⟧
    fn check_updates(&mut self «, Tracked(w): Tracked<&mut Rings>») -> «(r:» bool «)»
«    requires seq_ok(old(self).seq), msgs_ok(old(w).q[old(self).seq_cons.id()])
    ensures r == (old(w).q[old(self).seq_cons.id()].len() > 0), final(self).seq_cons == old(self).seq_cons, final(w).q == old(w).q.insert(old(self).seq_cons.id(), final(w).q[old(self).seq_cons.id()]) || !r,
        r ==> final(w).q[old(self).seq_cons.id()].len() == old(w).q[old(self).seq_cons.id()].len() - 1, !r ==> final(w).q == old(w).q && *final(self) == *old(self),
        forall|pd: PatternData| linked(pd, old(w).q[old(self).seq_cons.id()], old(self).seq, old(self).col_types@) ==> #[trigger] linked(pd, final(w).q[old(self).seq_cons.id()], final(self).seq, final(self).col_types@)»
    {
«        let ghost q0 = w.q[self.seq_cons.id()]; let ghost s0 = self.seq; let ghost t0 = self.col_types@;»
        if let Some(msg) = self.seq_cons.pop(«Tracked(w)») {
            match msg {
                PatternUpdateMsg::UpdateColumn { col, col_type, pattern_len, data } => {
«                    proof { assert(mcol(q0[0]) == col); }»
                    self.col_types[col] = col_type;
                    self.seq.set_rows(pattern_len);
                    self.seq.set_col(col, vstd::array::array_as_slice(&data));
                }
            }
«            proof {
                let q1 = q0.subrange(1, q0.len() as int);
                assert forall|pd: PatternData| linked(pd, q0, s0, t0) implies #[trigger] linked(pd, q1, self.seq, self.col_types@) by {
                    assert forall|k: int| 0 <= k < q1.len() implies 0 <= mcol(#[trigger] q1[k]) < 6 && q1[k]->pattern_len <= 256 by { assert(q1[k] == q0[k + 1]); }
                    assert forall|c: int| 0 <= c < 6 && !pd.dirty_col@[c] implies #[trigger] arrives(pd, q1, self.seq, self.col_types@, c) by {
                        assert(arrives(pd, q0, s0, t0, c)); lemma_pop(q0, c);
                        assert(eff_data(q1, self.seq, c) =~= eff_data(q0, s0, c));
                        assert(eff_type(q1, self.col_types@, c) == eff_type(q0, t0, c));
                        assert(eff_rows(q1, self.seq) == eff_rows(q0, s0)) by { if q1.len() > 0 { assert(q1.last() == q0.last()); } else { assert(q0.last() == q0[0]); } }
                    }
                }
            }»

            true
        } else {
            false
        }
    }
⟦end⟧
⟦fn TrackerBackend::pattern_len of src/dsp/tracker/mod.rs⟧
    fn pattern_len(&self) -> «(r:» usize «) ensures r == self.seq.rows» {
        self.seq.rows()
    }
⟦end⟧
⟦fn TrackerBackend::get_col_at_phase of src/dsp/tracker/mod.rs⟧
    fn get_col_at_phase(
        &mut self,
        col: usize,
        phase: &[f32],
        out: &mut [f32],
        out_gate: &mut [f32],
    )
«    requires seq_ok(old(self).seq), col < 6
    ensures final(self).seq.rows == old(self).seq.rows, final(self).seq.data == old(self).seq.data, final(self).col_types == old(self).col_types, final(self).seq_cons == old(self).seq_cons,
        final(out)@.len() == old(out)@.len(), final(out_gate)@.len() == old(out_gate)@.len(),
        old(self).seq.rows > 0 ==> (match old(self).col_types@[col as int] {
            PatternColType::Note | PatternColType::Step => played(old(self).seq, col as int, phase@, final(out)@, final(out_gate)@),
            PatternColType::Value => drawn(old(self).seq, col as int, phase@, final(out)@, final(out_gate)@),
            PatternColType::Gate => pulsed(old(self).seq, col as int, phase@, final(out)@, final(out_gate)@),
        })»
    {
        if self.seq.rows() == 0 {
            return;
        }

        match self.col_types[col] {
            PatternColType::Note | PatternColType::Step => {
                self.seq.col_get_at_phase(col, phase, out, out_gate)
            }
            PatternColType::Value => self.seq.col_interpolate_at_phase(col, phase, out, out_gate),
            PatternColType::Gate => self.seq.col_gate_at_phase(col, phase, out, out_gate),
        }
    }
⟦end⟧
}
// ---- what is played
pub mod fl { use super::*;
pub uninterp spec fn s_floor_us(x: f32) -> usize;
#[verifier::external_body] pub fn floor_us(x: f32) -> (r: usize) ensures r == s_floor_us(x) { unimplemented!() }
pub uninterp spec fn s_fract(x: f32) -> f32;
pub uninterp spec fn s_tobits(x: f32) -> u32;
pub uninterp spec fn s_16ths(i: u32) -> f32;
pub uninterp spec fn s_64ths(i: u8) -> f64;
#[verifier::external_body] pub fn fract16(i: u32) -> (r: f32) requires i < 16 ensures r == s_16ths(i) { unimplemented!() }
#[verifier::external_body] pub fn fract64(i: u8) -> (r: f64) requires i < 16 ensures r == s_64ths(i) { unimplemented!() }
pub uninterp spec fn s_over(a: f64, b: f64) -> bool;
#[verifier::external_body] pub fn over(a: f64, b: f64) -> (r: bool) ensures r == s_over(a, b) { unimplemented!() }
pub uninterp spec fn s_fle(a: f32, b: f32) -> bool;
#[verifier::external_body] pub fn fle(a: f32, b: f32) -> (r: bool) ensures r == s_fle(a, b) { unimplemented!() }
}
pub use fl::*;
pub assume_specification [f32::fract] (v: f32) -> (r: f32) ensures r == s_fract(v);
pub assume_specification [f32::to_bits] (v: f32) -> (r: u32) ensures r == s_tobits(v);
/// The number of rows passed at a position.
pub open spec fn pos(s: PatternSequencer, ph: f32) -> f32 { ph.mul_spec(s.rows.f().sub_spec(0.00001f32)) }
/// The row of a position.
pub open spec fn row_at(s: PatternSequencer, ph: f32) -> int { s_floor_us(pos(s, ph)) as int % s.rows as int }
pub open spec fn frames(p: Seq<f32>, o: Seq<f32>, g: Seq<f32>) -> int { let a = if p.len() < o.len() { p.len() } else { o.len() }; if a < g.len() { a as int } else { g.len() as int } }
/// Note and step columns: value and gate of the row.
pub open spec fn play1(s: PatternSequencer, c: int, ph: f32, o: f32, g: f32) -> bool { o == s.data@[c]@[row_at(s, ph)].0 && g == s.data@[c]@[row_at(s, ph)].1.f() }
pub open spec fn played(s: PatternSequencer, c: int, p: Seq<f32>, o: Seq<f32>, g: Seq<f32>) -> bool { forall|k: int| 0 <= k < frames(p, o, g) ==> play1(s, c, #[trigger] p[k], o[k], g[k]) }
/// Value columns: on the line from the row before (the last one for the first) to the row.
pub open spec fn draw1(s: PatternSequencer, c: int, ph: f32, o: f32, g: f32) -> bool {
    let r = row_at(s, ph); let x = s_fract(pos(s, ph)); let b = if r == 0 { s.rows - 1 } else { r - 1 };
    o == s.data@[c]@[b].0.mul_spec(1.0f32.sub_spec(x)).add_spec(s.data@[c]@[r].0.mul_spec(x)) && g == s.data@[c]@[r].1.f()
}
pub open spec fn drawn(s: PatternSequencer, c: int, p: Seq<f32>, o: Seq<f32>, g: Seq<f32>) -> bool { forall|k: int| 0 <= k < frames(p, o, g) ==> draw1(s, c, #[trigger] p[k], o[k], g[k]) }
pub open spec fn within(ph: f32) -> f32 { s_clamp(ph, 0.0f32, 1.0f32) }
/// Gate columns: the pulse a cell encodes.
pub open spec fn pulse(v: u32, x: f32) -> f32 { if s_fle(s_fract(x.mul_spec(((16 - ((v & 0x0F0) >> 4)) as u32).f())), s_16ths(v & 0x00F)) { 1.0f32 } else { 0.0f32 } }
pub open spec fn prob(v: u32) -> u8 { ((v & 0xF00) >> 8) as u8 }
/// The random number of column c, kept while the row is the same.
pub open spec fn drawn_lot(r0: (usize, f64), r1: (usize, f64), s: PatternSequencer, c: int, ph: f32) -> bool {
    let l = row_at(s, within(ph)); if prob(s_tobits(s.data@[c]@[l].0)) < 0xF { r1.0 == l && (r0.0 == l ==> r1 == r0) } else { r1 == r0 }
}
pub open spec fn gate1(s: PatternSequencer, c: int, ph: f32, lot: f64, o: f32, g: f32) -> bool {
    let l = row_at(s, within(ph)); let v = s_tobits(s.data@[c]@[l].0);
    if v & 0xF000 > 0 { o == 0.0f32 && g == 0.0f32 }
    else { g == s.data@[c]@[l].1.f() && o == if prob(v) < 0xF && s_over(lot, s_64ths(prob(v))) { 0.0f32 } else { pulse(v, s_fract(pos(s, within(ph)))) } }
}
pub open spec fn gates(s: PatternSequencer, c: int, p: Seq<f32>, o: Seq<f32>, g: Seq<f32>, n: int, lots: Seq<(usize, f64)>) -> bool {
    lots.len() == n + 1 && lots[0] == s.rand_vals@[c] && forall|k: int| 0 <= k < n ==> #[trigger] drawn_lot(lots[k], lots[k + 1], s, c, p[k]) && gate1(s, c, p[k], lots[k + 1].1, o[k], g[k])
}
pub open spec fn pulsed(s: PatternSequencer, c: int, p: Seq<f32>, o: Seq<f32>, g: Seq<f32>) -> bool { exists|lots: Seq<(usize, f64)>| #[trigger] gates(s, c, p, o, g, frames(p, o, g), lots) }
impl PatternSequencer {
#[verifier::external_body]
pub fn new(rows: usize) -> (r: Self) requires rows <= 256 ensures seq_ok(r), r.rows == rows { unimplemented!() }
⟦fn PatternSequencer::set_rows of src/dsp/tracker/sequencer.rs⟧
    fn set_rows(&mut self, rows: usize)
«    ensures *final(self) == (PatternSequencer { rows: rows, ..*old(self) })»
    {
        self.rows = rows;
    }
⟦end⟧
⟦fn PatternSequencer::rows of src/dsp/tracker/sequencer.rs⟧
    fn rows(&self) -> «(r:» usize «) ensures r == self.rows» {
        self.rows
    }
⟦end⟧
⟦fn PatternSequencer::set_col of src/dsp/tracker/sequencer.rs⟧
    fn set_col(&mut self, col: usize, col_data: &[(f32, u8)])
«    requires seq_ok(*old(self)), col < 6
    ensures final(self).rows == old(self).rows, final(self).rng == old(self).rng, final(self).rand_vals == old(self).rand_vals, final(self).data@.len() == 6,
        forall|c: int| 0 <= c < 6 && c != col ==> #[trigger] final(self).data@[c] == old(self).data@[c], final(self).data@[col as int]@.len() == 256,
        forall|r: int| 0 <= r < 256 ==> #[trigger] final(self).data@[col as int]@[r] == (if r < col_data@.len() { col_data@[r] } else { old(self).data@[col as int]@[r] })»
    {
        let zip_n = umin(self.data[col].len(), col_data.len());
        for zip_i in 0 .. zip_n
«            invariant self.rows == old(self).rows, self.rng == old(self).rng, self.rand_vals == old(self).rand_vals, self.data@.len() == 6, col < 6, zip_n == umin_s(256, col_data@.len() as int),
                forall|c: int| 0 <= c < 6 && c != col ==> #[trigger] self.data@[c] == old(self).data@[c], self.data@[col as int]@.len() == 256,
                forall|r: int| 0 <= r < 256 ==> #[trigger] self.data@[col as int]@[r] == (if r < zip_i { col_data@[r] } else { old(self).data@[col as int]@[r] })»
        {
            let out_cell = &mut self.data[col][zip_i]; let in_cell = &col_data[zip_i];
            *out_cell = *in_cell;
        }
    }
⟦end⟧
⟦fn PatternSequencer::col_interpolate_at_phase of src/dsp/tracker/sequencer.rs⟧
    fn col_interpolate_at_phase(
        &self,
        col: usize,
        phase: &[f32],
        out: &mut [f32],
        out_gate: &mut [f32],
    )
«    requires seq_ok(*self), self.rows > 0, col < 6
    ensures final(out)@.len() == old(out)@.len(), final(out_gate)@.len() == old(out_gate)@.len(), drawn(*self, col as int, phase@, final(out)@, final(out_gate)@)»
    {
«        let ghost c = col as int; let ghost (on, gn) = (out@.len(), out_gate@.len());»
        let col = &self.data[col];

        let last_row_idx: f32 = (self.rows.to_f32()) - 0.00001;
        let rows = self.rows;

        let fr_p = phase; let fr_o = &mut *out; let fr_g = &mut *out_gate; let fr_n = umin(umin(fr_p.len(), fr_o.len()), fr_g.len()); let mut fr_i: usize = 0;
        while fr_i < fr_n
«            invariant seq_ok(*self), 0 < rows == self.rows, 0 <= c < 6, *col == self.data@[c], last_row_idx == self.rows.f().sub_spec(0.00001f32), fr_o@.len() == on, fr_g@.len() == gn, fr_p == phase, fr_i <= fr_n, fr_n == frames(fr_p@, fr_o@, fr_g@),
                forall|k: int| 0 <= k < fr_i ==> draw1(*self, c, #[trigger] fr_p@[k], fr_o@[k], fr_g@[k])
            decreases fr_n - fr_i»
        {
            let fr_c = fr_i; fr_i = fr_i + 1; let phase = fr_p[fr_c]; let out = &mut fr_o[fr_c]; let out_gate = &mut fr_g[fr_c];
            let row_phase = phase * last_row_idx;
            let phase_frac = row_phase.fract();
            let line = floor_us(row_phase) % rows;
            let prev_line = if line == 0 { self.rows - 1 } else { line - 1 };

            let prev = col[prev_line].0;
            let next = col[line].0;
            let gate = col[line].1;

            *out = prev * (1.0 - phase_frac) + next * phase_frac;
            *out_gate = gate.to_f32();
        }
    }
⟦end⟧
⟦fn PatternSequencer::col_get_at_phase of src/dsp/tracker/sequencer.rs⟧
    fn col_get_at_phase(
        &self,
        col: usize,
        phase: &[f32],
        out: &mut [f32],
        out_gate: &mut [f32],
    )
«    requires seq_ok(*self), self.rows > 0, col < 6
    ensures final(out)@.len() == old(out)@.len(), final(out_gate)@.len() == old(out_gate)@.len(), played(*self, col as int, phase@, final(out)@, final(out_gate)@)»
    {
«        let ghost c = col as int; let ghost (on, gn) = (out@.len(), out_gate@.len());»
        let col = &self.data[col];

        let last_row_idx: f32 = (self.rows.to_f32()) - 0.00001;
        let rows = self.rows;

        let fr_p = phase; let fr_o = &mut *out; let fr_g = &mut *out_gate; let fr_n = umin(umin(fr_p.len(), fr_o.len()), fr_g.len()); let mut fr_i: usize = 0;
        while fr_i < fr_n
«            invariant seq_ok(*self), 0 < rows == self.rows, 0 <= c < 6, *col == self.data@[c], last_row_idx == self.rows.f().sub_spec(0.00001f32), fr_o@.len() == on, fr_g@.len() == gn, fr_p == phase, fr_i <= fr_n, fr_n == frames(fr_p@, fr_o@, fr_g@),
                forall|k: int| 0 <= k < fr_i ==> play1(*self, c, #[trigger] fr_p@[k], fr_o@[k], fr_g@[k])
            decreases fr_n - fr_i»
        {
            let fr_c = fr_i; fr_i = fr_i + 1; let phase = fr_p[fr_c]; let out = &mut fr_o[fr_c]; let out_gate = &mut fr_g[fr_c];
            let row_phase = phase * last_row_idx;
            let line = floor_us(row_phase) % rows;

            let (val, gate) = col[line];
            *out = val;
            *out_gate = gate.to_f32();
        }
    }
⟦end⟧
⟦fn PatternSequencer::col_gate_at_phase of src/dsp/tracker/sequencer.rs⟧
    fn col_gate_at_phase(
        &mut self,
        col_idx: usize,
        phase: &[f32],
        out: &mut [f32],
        out_gate: &mut [f32],
    )
«    requires seq_ok(*old(self)), old(self).rows > 0, col_idx < 6
    ensures final(out)@.len() == old(out)@.len(), final(out_gate)@.len() == old(out_gate)@.len(), final(self).rows == old(self).rows, final(self).data == old(self).data, pulsed(*old(self), col_idx as int, phase@, final(out)@, final(out_gate)@),
        forall|c: int| 0 <= c < 6 && c != col_idx ==> final(self).rand_vals@[c] == old(self).rand_vals@[c]»
    {
«        let ghost c = col_idx as int; let ghost (on, gn) = (out@.len(), out_gate@.len()); let ghost s = *self; let ghost mut lots = seq![self.rand_vals@[col_idx as int]];»
        let col = &self.data[col_idx];

        let last_row_idx: f32 = (self.rows.to_f32()) - 0.00001;
        let rows = self.rows;

        let fr_p = phase; let fr_o = &mut *out; let fr_g = &mut *out_gate; let fr_n = umin(umin(fr_p.len(), fr_o.len()), fr_g.len()); let mut fr_i: usize = 0;
        while fr_i < fr_n
«            invariant s == *old(self), seq_ok(s), 0 < rows == s.rows, 0 <= c < 6, c == col_idx, *col == s.data@[c], self.data == s.data, self.rows == s.rows, last_row_idx == s.rows.f().sub_spec(0.00001f32), fr_o@.len() == on, fr_g@.len() == gn, fr_p == phase, fr_i <= fr_n, fr_n == frames(fr_p@, fr_o@, fr_g@),
                gates(s, c, fr_p@, fr_o@, fr_g@, fr_i as int, lots), lots.last() == self.rand_vals@[c], forall|x: int| 0 <= x < 6 && x != c ==> self.rand_vals@[x] == s.rand_vals@[x]
            decreases fr_n - fr_i»
        {
            let fr_c = fr_i; fr_i = fr_i + 1; let phase = fr_p[fr_c]; let out = &mut fr_o[fr_c]; let out_gate = &mut fr_g[fr_c];
            let row_phase = phase.clamp(0.0, 1.0) * last_row_idx;
            let line = floor_us(row_phase) % rows;
            let phase_frac = row_phase.fract();

            let gate: u32 = col[line].0.to_bits();
            let ggate: u8 = col[line].1;
«            proof { assert((gate & 0x00F) < 16 && ((gate & 0x0F0) >> 4) <= 15 && ((gate & 0xF00) >> 8) < 16) by (bit_vector); }»

            let pulse_width: f32 = fract16((gate & 0x00F));
            let row_div: f32 = (16 - ((gate & 0x0F0) >> 4)).to_f32();
            let probability: u8 = ((gate & 0xF00) >> 8) as u8;

            let sub_frac = (phase_frac * row_div).fract();

            if probability < 0xF {
                let rand_val = if self.rand_vals[col_idx].0 != line {
                    let new_rand_val = self.rng.next_open01();
                    self.rand_vals[col_idx] = (line, new_rand_val);
                    new_rand_val
                } else {
                    self.rand_vals[col_idx].1
                };

                if over(rand_val, fract64(probability)) {
                    *out = 0.0;
                    if (gate & 0xF000) > 0 {
                        *out_gate = 0.0;
                    } else {
                        *out_gate = ggate.to_f32();
                    }
«                    proof { lots = lots.push(self.rand_vals@[c]); }»
                    continue;
                }
            }

            if (gate & 0xF000) > 0 {
                *out = 0.0;
                *out_gate = 0.0;
            } else {
                *out = if fle(sub_frac, pulse_width) { 1.0 } else { 0.0 };
                *out_gate = ggate.to_f32();
            }
«            proof {
                let l0 = lots; lots = lots.push(self.rand_vals@[c]);
                assert forall|k: int| 0 <= k < fr_i implies #[trigger] drawn_lot(lots[k], lots[k + 1], s, c, fr_p@[k]) && gate1(s, c, fr_p@[k], lots[k + 1].1, fr_o@[k], fr_g@[k]) by {
                    if k < fr_c { assert(lots[k] == l0[k] && lots[k + 1] == l0[k + 1]); assert(drawn_lot(l0[k], l0[k + 1], s, c, fr_p@[k])); }
                    else { assert(k == fr_c); assert(lots[k] == l0.last()); assert(lots[k + 1] == self.rand_vals@[c]); assert(drawn_lot(lots[k], lots[k + 1], s, c, fr_p@[k])); }
                }
            }»
        }
    }
⟦end⟧
}
pub open spec fn umin_s(a: int, b: int) -> int { if a < b { a } else { b } }
