⟦file src/monitor.rs⟧
use vstd::prelude::*;
verus! {
⟦CONSTS⟧
pub mod env {
use super::*;
pub uninterp spec fn fmax(x: f32, a: f32) -> f32;
pub uninterp spec fn fmin(x: f32, a: f32) -> f32;
pub assume_specification [f32::max] (x: f32, a: f32) -> (r: f32) ensures r == fmax(x, a);
pub assume_specification [f32::min] (x: f32, a: f32) -> (r: f32) ensures r == fmin(x, a);
pub uninterp spec fn inf() -> f32;
pub uninterp spec fn neg_inf() -> f32;
#[verifier::external_body]
pub fn f32_inf() -> (r: f32) ensures r == inf() { unimplemented!() }
#[verifier::external_body]
pub fn f32_neg_inf() -> (r: f32) ensures r == neg_inf() { unimplemented!() }
/// ringbuf: one end that takes elements (all that were ever offered, and which of them were refused) ...
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Producer<T> { p: Vec<T> }
impl<T> Producer<T> {
    pub uninterp spec fn sent(&self) -> Seq<T>;
    pub uninterp spec fn offered(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn push(&mut self, x: T) -> (r: Result<(), T>)
        ensures final(self).offered() == old(self).offered().push(x), match r {
            Ok(_) => final(self).sent() == old(self).sent().push(x),
            Err(y) => y == x && final(self).sent() == old(self).sent(),
        }
    { unimplemented!() }
}
/// ... and one that hands them out in the same order: what has been taken, and what waits
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Consumer<T> { p: Vec<T> }
impl<T> Consumer<T> {
    pub uninterp spec fn taken(&self) -> Seq<T>;
    /// what will be taken until the queue is found empty (may grow only in between)
    pub uninterp spec fn waits(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self).waits().len() > 0 && x == old(self).waits()[0]
                && final(self).waits() == old(self).waits().subrange(1, old(self).waits().len() as int)
                && final(self).taken() == old(self).taken().push(x),
            None => old(self).waits().len() == 0 && final(self).waits() == old(self).waits() && final(self).taken() == old(self).taken(),
        }
    { unimplemented!() }
}
/// a monitorable source of samples
#[verifier::external_body]
pub struct MonSource { p: Vec<f32> }
impl MonSource {
    pub uninterp spec fn at(&self, k: int) -> f32;
    #[verifier::external_body]
    pub fn copy_to(&self, len: usize, dst: &mut [f32; MON_SIG_CNT * MAX_BLOCK_SIZE], from: usize, to: usize)
        requires from <= to <= MON_SIG_CNT * MAX_BLOCK_SIZE, to - from == len
        ensures forall|k: int| 0 <= k < MON_SIG_CNT * MAX_BLOCK_SIZE ==> #[trigger] final(dst)@[k] == (if from <= k < to { self.at(k - from) } else { old(dst)@[k] })
    { unimplemented!() }
}
#[verifier::external_body]
pub fn points_of(a: &[(f32, f32); MONITOR_MINMAX_SAMPLES]) -> (r: &[(f32, f32)]) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body]
pub fn copy_points(a: &mut [(f32, f32); MONITOR_MINMAX_SAMPLES], b: &[(f32, f32)])
    requires b@.len() == MONITOR_MINMAX_SAMPLES
    ensures final(a)@ == b@
{ unimplemented!() }
}
pub use env::*;

⟦struct MonitorBuf⟧
pub type MonitorBufPtr = Box<MonitorBuf>;
pub open spec fn no_len() -> Seq<usize> { Seq::new(MON_SIG_CNT as nat, |i: int| 0usize) }
impl MonitorBuf {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < MON_SIG_CNT ==> #[trigger] self.len@[i] <= MAX_BLOCK_SIZE && self.read_idx@[i] <= self.len@[i] }
    /// the samples of signal i that have not been read
    pub open spec fn rest(&self, i: int) -> Seq<f32> {
        Seq::new((self.len@[i] - self.read_idx@[i]) as nat, |k: int| self.sig_blocks@[i * MAX_BLOCK_SIZE + self.read_idx@[i] + k])
    }
    ⟦fn MonitorBuf::reset⟧
    fn reset(&mut self)
«    ensures final(self).len@ == no_len(), final(self).read_idx@ == no_len(), final(self).wf()»
    {
        self.len = [0; MON_SIG_CNT];
        self.read_idx = [0; MON_SIG_CNT];
«        proof { assert(self.len@ =~= no_len()); assert(self.read_idx@ =~= no_len()); }»
    }
    ⟦end⟧
    ⟦fn MonitorBuf::next_sample_for_signal⟧
    fn next_sample_for_signal(&mut self, idx: usize) -> «(r:» Option<f32> «)»
«    requires idx < MON_SIG_CNT, old(self).wf()
        ensures final(self).wf(), final(self).len == old(self).len,
            forall|j: int| 0 <= j < MON_SIG_CNT && j != idx ==> #[trigger] final(self).rest(j) == old(self).rest(j),
            match r {
                Some(x) => old(self).rest(idx as int).len() > 0 && x == old(self).rest(idx as int)[0]
                    && final(self).rest(idx as int) == old(self).rest(idx as int).subrange(1, old(self).rest(idx as int).len() as int),
                None => old(self).rest(idx as int).len() == 0 && final(self).rest(idx as int) == old(self).rest(idx as int),
            }»
    {
«        proof { assert(idx * MAX_BLOCK_SIZE <= 5 * MAX_BLOCK_SIZE) by (nonlinear_arith) requires idx <= 5; }»
        let rd_idx = self.read_idx[idx];
        if rd_idx >= self.len[idx] {
            return None;
        }

        self.read_idx[idx] = rd_idx + 1;
        let sb_idx = idx * MAX_BLOCK_SIZE;
«        proof {
            assert forall|j: int| 0 <= j < MON_SIG_CNT && j != idx implies #[trigger] self.rest(j) == old(self).rest(j) by { assert(self.rest(j) =~= old(self).rest(j)); }
            assert(self.rest(idx as int) =~= old(self).rest(idx as int).subrange(1, old(self).rest(idx as int).len() as int));
        }»
        Some(self.sig_blocks[sb_idx + rd_idx])
    }
    ⟦end⟧
    ⟦fn MonitorBuf::feed⟧
    fn feed(&mut self, idx: usize, len: usize, data: MonSource)
«    requires idx < MON_SIG_CNT, len <= MAX_BLOCK_SIZE, old(self).wf(), old(self).read_idx@[idx as int] == 0
        ensures final(self).wf(), final(self).rest(idx as int) == Seq::new(len as nat, |k: int| data.at(k)),
            forall|j: int| 0 <= j < MON_SIG_CNT && j != idx ==> #[trigger] final(self).rest(j) == old(self).rest(j)»
    {
«        proof { assert(idx * MAX_BLOCK_SIZE <= 5 * MAX_BLOCK_SIZE) by (nonlinear_arith) requires idx <= 5; }»
        let sb_idx = idx * MAX_BLOCK_SIZE;
        data.copy_to(len, &mut self.sig_blocks, sb_idx, sb_idx + len);

        self.len[idx] = len;
«        proof {
            assert(self.rest(idx as int) =~= Seq::new(len as nat, |k: int| data.at(k)));
            assert forall|j: int| 0 <= j < MON_SIG_CNT && j != idx implies #[trigger] self.rest(j) == old(self).rest(j) by {
                assert forall|k: int| 0 <= k < self.rest(j).len() implies self.rest(j)[k] == old(self).rest(j)[k] by {
                    let p = j * MAX_BLOCK_SIZE + self.read_idx@[j] + k;
                    assert(0 <= p < MON_SIG_CNT * MAX_BLOCK_SIZE && !(sb_idx <= p < sb_idx + len));
                }
                assert(self.rest(j) =~= old(self).rest(j));
            }
        }»
    }
    ⟦end⟧
}

/// state of the min/max of one signal: displayed points, next point to write, minimum, maximum, count
pub struct MM { pub buf: Seq<(f32, f32)>, pub wp: int, pub lo: f32, pub hi: f32, pub n: int }
pub open spec fn mm_step(m: MM, x: f32) -> MM {
    let (lo, hi) = (fmin(m.lo, x), fmax(m.hi, x));
    if m.n + 1 >= MONITOR_INPUT_LEN_PER_SAMPLE {
        MM { buf: m.buf.update(m.wp, (lo, hi)), wp: (m.wp + 1) % (MONITOR_MINMAX_SAMPLES as int), lo: inf(), hi: neg_inf(), n: 0 }
    } else {
        MM { lo, hi, n: m.n + 1, ..m }
    }
}
pub open spec fn mm_all(m: MM, s: Seq<f32>) -> MM decreases s.len() {
    if s.len() == 0 { m } else { mm_all(mm_step(m, s[0]), s.subrange(1, s.len() as int)) }
}
/// does a data point come out of the samples s?
pub open spec fn mm_new(n: int, l: int) -> bool { n + l >= MONITOR_INPUT_LEN_PER_SAMPLE }
⟦struct MonitorMinMax⟧
impl MonitorMinMax {
    pub open spec fn st(&self) -> MM { MM { buf: self.buf@, wp: self.buf_write_ptr as int, lo: self.cur_min_max.0, hi: self.cur_min_max.1, n: self.cur_min_max.2 as int } }
    pub open spec fn wf(&self) -> bool { self.sig_idx < MON_SIG_CNT && self.buf_write_ptr < MONITOR_MINMAX_SAMPLES && self.cur_min_max.2 < MONITOR_INPUT_LEN_PER_SAMPLE }
    ⟦fn MonitorMinMax::new⟧
    fn new(sig_idx: usize) -> «(r:» Self «)»
«    ensures r.sig_idx == sig_idx, r.st().wp == 0, r.st().n == 0, r.st().lo == inf(), r.st().hi == neg_inf()»
    {
        Self {
            sig_idx,
            buf: [(0.0, 0.0); MONITOR_MINMAX_SAMPLES],
            buf_write_ptr: 0,
            cur_min_max: (f32_inf(), f32_neg_inf(), 0),
        }
    }
    ⟦end⟧
    ⟦fn MonitorMinMax::process⟧
    fn process(&mut self, mon_buf: &mut MonitorBufPtr) -> «(r:» bool «)»
«    requires old(self).wf(), old(mon_buf).wf()
        ensures final(self).wf(), final(self).sig_idx == old(self).sig_idx, final(mon_buf).wf(), final(mon_buf).len == old(mon_buf).len,
            // all samples of its own signal, in order
            final(self).st() == mm_all(old(self).st(), old(mon_buf).rest(old(self).sig_idx as int)),
            final(mon_buf).rest(old(self).sig_idx as int).len() == 0,
            forall|j: int| 0 <= j < MON_SIG_CNT && j != old(self).sig_idx ==> #[trigger] final(mon_buf).rest(j) == old(mon_buf).rest(j),
            r == mm_new(old(self).st().n, old(mon_buf).rest(old(self).sig_idx as int).len() as int)»
    {
        let mut new_data = false;
«        let ghost s0 = mon_buf.rest(self.sig_idx as int); let ghost m0 = self.st();»
        loop
«            invariant_except_break self.wf(), self.sig_idx == old(self).sig_idx, mon_buf.wf(), mon_buf.len == old(mon_buf).len,
                s0 == old(mon_buf).rest(old(self).sig_idx as int), m0 == old(self).st(), 0 <= m0.n < MONITOR_INPUT_LEN_PER_SAMPLE,
                mm_all(m0, s0) == mm_all(self.st(), mon_buf.rest(self.sig_idx as int)),
                mon_buf.rest(self.sig_idx as int).len() <= s0.len(),
                new_data ==> mm_new(m0.n, s0.len() - mon_buf.rest(self.sig_idx as int).len()),
                !new_data ==> self.st().n == m0.n + s0.len() - mon_buf.rest(self.sig_idx as int).len(),
                forall|j: int| 0 <= j < MON_SIG_CNT && j != old(self).sig_idx ==> #[trigger] mon_buf.rest(j) == old(mon_buf).rest(j)
            ensures self.wf(), self.sig_idx == old(self).sig_idx, mon_buf.wf(), mon_buf.len == old(mon_buf).len,
                mm_all(m0, s0) == self.st(), mon_buf.rest(self.sig_idx as int).len() == 0,
                new_data == mm_new(m0.n, s0.len() as int),
                forall|j: int| 0 <= j < MON_SIG_CNT && j != old(self).sig_idx ==> #[trigger] mon_buf.rest(j) == old(mon_buf).rest(j)
            decreases mon_buf.rest(self.sig_idx as int).len()»
        {
            let Some(sample) = mon_buf.next_sample_for_signal(self.sig_idx) else { break; };
            self.cur_min_max.0 = self.cur_min_max.0.min(sample);
            self.cur_min_max.1 = self.cur_min_max.1.max(sample);
            self.cur_min_max.2 += 1;

            if self.cur_min_max.2 >= MONITOR_INPUT_LEN_PER_SAMPLE {
                self.buf[self.buf_write_ptr] = (self.cur_min_max.0, self.cur_min_max.1);
                new_data = true;

                self.buf_write_ptr = (self.buf_write_ptr + 1) % self.buf.len();

                self.cur_min_max.0 = f32_inf();
                self.cur_min_max.1 = f32_neg_inf();
                self.cur_min_max.2 = 0;
            }
        }

        new_data
    }
    ⟦end⟧
}

⟦struct MinMaxMonitorSamples⟧
pub open spec fn shown(s: Seq<(f32, f32)>, ptr: int, offs: int) -> (f32, f32) { s[(ptr + offs) % (MONITOR_MINMAX_SAMPLES as int)] }
impl MinMaxMonitorSamples {
    ⟦fn MinMaxMonitorSamples::copy_from⟧
    fn copy_from(&mut self, min_max_slice: (usize, &[(f32, f32)]))
«    requires min_max_slice.1@.len() == MONITOR_MINMAX_SAMPLES
        ensures final(self).samples@ == min_max_slice.1@, final(self).buf_ptr == min_max_slice.0»
    {
        copy_points(&mut self.samples, min_max_slice.1);
        self.buf_ptr = min_max_slice.0;
    }
    ⟦end⟧
    ⟦fn MinMaxMonitorSamples::copy_to⟧
    fn copy_to(&self, sms: &mut MinMaxMonitorSamples)
«    ensures final(sms).samples@ == self.samples@, final(sms).buf_ptr == self.buf_ptr»
    {
        sms.buf_ptr = self.buf_ptr;
        copy_points(&mut sms.samples, points_of(&self.samples));
    }
    ⟦end⟧
    ⟦fn MinMaxMonitorSamples::at⟧
    fn at(&self, offs: usize) -> «(r:» &(f32, f32) «)»
«    requires self.buf_ptr < MONITOR_MINMAX_SAMPLES, offs < MONITOR_MINMAX_SAMPLES
        ensures *r == shown(self.samples@, self.buf_ptr as int, offs as int)»
    {
        let idx = (self.buf_ptr + offs) % self.samples.len();
        &self.samples[idx]
    }
    ⟦end⟧
    ⟦fn MinMaxMonitorSamples::len⟧
    fn len(&self) -> «(r:» usize «)»
«    ensures r == MONITOR_MINMAX_SAMPLES»
    {
        MONITOR_MINMAX_SAMPLES
    }
    ⟦end⟧
}

⟦struct MonitorBackend⟧
impl MonitorBackend {
    ⟦fn MonitorBackend::check_recycle⟧
    fn check_recycle(&mut self)
«    ensures final(self).unused_monitor_buffers@ == old(self).unused_monitor_buffers@ + old(self).rb_recycle_con.waits(),
            final(self).rb_recycle_con.waits().len() == 0,
            final(self).rb_recycle_con.taken() == old(self).rb_recycle_con.taken() + old(self).rb_recycle_con.waits(),
            final(self).rb_mon_prod == old(self).rb_mon_prod»
    {
        loop
«            invariant_except_break
                self.unused_monitor_buffers@ + self.rb_recycle_con.waits() == old(self).unused_monitor_buffers@ + old(self).rb_recycle_con.waits(),
                self.rb_recycle_con.taken() + self.rb_recycle_con.waits() == old(self).rb_recycle_con.taken() + old(self).rb_recycle_con.waits(),
                self.rb_mon_prod == old(self).rb_mon_prod
            ensures self.unused_monitor_buffers@ == old(self).unused_monitor_buffers@ + old(self).rb_recycle_con.waits(),
                self.rb_recycle_con.waits().len() == 0,
                self.rb_recycle_con.taken() == old(self).rb_recycle_con.taken() + old(self).rb_recycle_con.waits(),
                self.rb_mon_prod == old(self).rb_mon_prod
            decreases self.rb_recycle_con.waits().len()»
        {
«            let ghost u = self.unused_monitor_buffers@; let ghost w = self.rb_recycle_con.waits(); let ghost t = self.rb_recycle_con.taken();
            proof { if w.len() == 0 { assert(u + w =~= u); assert(t + w =~= t); } }»
            let Some(buf) = self.rb_recycle_con.pop() else { break; };
            self.unused_monitor_buffers.push(buf);
«            proof {
                assert(self.unused_monitor_buffers@ + self.rb_recycle_con.waits() =~= u + w);
                assert(self.rb_recycle_con.taken() + self.rb_recycle_con.waits() =~= t + w);
            }»
        }
    }
    ⟦end⟧
    ⟦fn MonitorBackend::get_unused_mon_buf⟧
    fn get_unused_mon_buf(&mut self) -> «(r:» Option<MonitorBufPtr> «)»
«    ensures final(self).rb_mon_prod == old(self).rb_mon_prod, final(self).rb_recycle_con == old(self).rb_recycle_con,
            match r {
                Some(b) => old(self).unused_monitor_buffers@ == final(self).unused_monitor_buffers@.push(b),
                None => old(self).unused_monitor_buffers@.len() == 0 && final(self).unused_monitor_buffers@ == old(self).unused_monitor_buffers@,
            }»
    {
«        proof { if self.unused_monitor_buffers@.len() > 0 { assert(self.unused_monitor_buffers@ =~= self.unused_monitor_buffers@.drop_last().push(self.unused_monitor_buffers@.last())); } }»
        self.unused_monitor_buffers.pop()
    }
    ⟦end⟧
    ⟦fn MonitorBackend::send_mon_buf⟧
    fn send_mon_buf(&mut self, buf: MonitorBufPtr)
«    ensures final(self).rb_recycle_con == old(self).rb_recycle_con,
            // sent, or kept for reuse
            (final(self).rb_mon_prod.sent() == old(self).rb_mon_prod.sent().push(buf) && final(self).unused_monitor_buffers@ == old(self).unused_monitor_buffers@)
            || (final(self).rb_mon_prod.sent() == old(self).rb_mon_prod.sent() && final(self).unused_monitor_buffers@ == old(self).unused_monitor_buffers@.push(buf))»
    {
        match self.rb_mon_prod.push(buf) {
            Ok(_) => (),
            Err(buf) => self.unused_monitor_buffers.push(buf),
        }
    }
    ⟦end⟧
}

⟦struct MonitorProcessor⟧
/// every signal of the buffers, in order
pub open spec fn fed(bs: Seq<MonitorBufPtr>, i: int) -> Seq<f32> decreases bs.len() {
    if bs.len() == 0 { Seq::empty() } else { bs[0].rest(i) + fed(bs.subrange(1, bs.len() as int), i) }
}
pub open spec fn is_reset(b: MonitorBufPtr) -> bool { b.len@ == no_len() && b.read_idx@ == no_len() }
impl MonitorProcessor {
    pub open spec fn wf(&self) -> bool {
        self.procs@.len() == MON_SIG_CNT && forall|i: int| 0 <= i < MON_SIG_CNT ==> (#[trigger] self.procs@[i]).wf() && self.procs@[i].sig_idx == i
    }
    ⟦fn MonitorProcessor::new⟧
    fn new(
        rb_mon_con: Consumer<MonitorBufPtr>,
        rb_recycle_prod: Producer<MonitorBufPtr>,
    ) -> «(r:» Self «)»
«    ensures r.wf(), r.rb_mon_con == rb_mon_con, r.rb_recycle_prod == rb_recycle_prod, !r.new_data,
            forall|i: int| 0 <= i < MON_SIG_CNT ==> (#[trigger] r.procs@[i]).st().n == 0»
    {
        let mut procs «: Vec<MonitorMinMax>» = vec![];
        for i in 0..MON_SIG_CNT
«            invariant procs@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] procs@[k]).wf() && procs@[k].sig_idx == k && procs@[k].st().n == 0»
        {
            procs.push(MonitorMinMax::new(i));
        }

        Self { rb_mon_con, rb_recycle_prod, procs, new_data: false }
    }
    ⟦end⟧
    ⟦fn MonitorProcessor::minmax_slice_for_signal⟧
    fn minmax_slice_for_signal(&self, idx: usize) -> «(r:» (usize, &[(f32, f32)]) «)»
«    requires self.wf(), idx < MON_SIG_CNT
        ensures r.0 == self.procs@[idx as int].st().wp, r.1@ == self.procs@[idx as int].st().buf»
    {
        let buf_ptr = self.procs[idx].buf_write_ptr;
        (buf_ptr, points_of(&self.procs[idx].buf))
    }
    ⟦end⟧
    ⟦fn MonitorProcessor::process_mon_buf⟧
    fn process_mon_buf(&mut self, mon_buf: &mut MonitorBufPtr)
«    requires old(self).wf(), old(mon_buf).wf()
        ensures final(self).wf(), final(mon_buf).wf(), final(self).rb_mon_con == old(self).rb_mon_con, final(self).rb_recycle_prod == old(self).rb_recycle_prod,
            forall|i: int| 0 <= i < MON_SIG_CNT ==> (#[trigger] final(self).procs@[i]).st() == mm_all(old(self).procs@[i].st(), old(mon_buf).rest(i)),
            final(self).new_data == (old(self).new_data || exists|i: int| 0 <= i < MON_SIG_CNT && mm_new((#[trigger] old(self).procs@[i]).st().n, old(mon_buf).rest(i).len() as int))»
    {
        for proc_i in 0..self.procs.len()
«            invariant self.wf(), old(self).wf(), mon_buf.wf(), self.rb_mon_con == old(self).rb_mon_con, self.rb_recycle_prod == old(self).rb_recycle_prod,
                self.procs@.len() == MON_SIG_CNT,
                forall|i: int| 0 <= i < proc_i ==> (#[trigger] self.procs@[i]).st() == mm_all(old(self).procs@[i].st(), old(mon_buf).rest(i)),
                forall|i: int| proc_i <= i < MON_SIG_CNT ==> #[trigger] self.procs@[i] == old(self).procs@[i],
                forall|i: int| proc_i <= i < MON_SIG_CNT ==> #[trigger] mon_buf.rest(i) == old(mon_buf).rest(i),
                self.new_data == (old(self).new_data || exists|i: int| 0 <= i < proc_i && mm_new((#[trigger] old(self).procs@[i]).st().n, old(mon_buf).rest(i).len() as int))»
        {
«            let ghost nd = self.new_data; let ghost was = self.procs@; let ghost now = mm_new(old(self).procs@[proc_i as int].st().n, old(mon_buf).rest(proc_i as int).len() as int);
            let ghost si = self.procs@[proc_i as int].sig_idx; let ghost st0 = self.procs@[proc_i as int].st();»
            let proc = &mut self.procs[proc_i];
            if proc.process(mon_buf) {
                self.new_data = true;
            }
        }
    }
    ⟦end⟧
    ⟦fn MonitorProcessor::process⟧
    fn process(&mut self)
«    requires old(self).wf(), forall|k: int| 0 <= k < old(self).rb_mon_con.waits().len() ==> (#[trigger] old(self).rb_mon_con.waits()[k]).wf()
        ensures final(self).wf(), final(self).rb_mon_con.waits().len() == 0,
            forall|i: int| 0 <= i < MON_SIG_CNT ==> (#[trigger] final(self).procs@[i]).st() == mm_all(old(self).procs@[i].st(), fed(old(self).rb_mon_con.waits(), i)),
            // every buffer goes back, emptied
            final(self).rb_recycle_prod.offered().len() == old(self).rb_recycle_prod.offered().len() + old(self).rb_mon_con.waits().len(),
            forall|k: int| old(self).rb_recycle_prod.offered().len() <= k < final(self).rb_recycle_prod.offered().len() ==> is_reset(#[trigger] final(self).rb_recycle_prod.offered()[k])»
    {
        loop
«            invariant_except_break self.wf(), forall|k: int| 0 <= k < self.rb_mon_con.waits().len() ==> (#[trigger] self.rb_mon_con.waits()[k]).wf(),
                forall|i: int| 0 <= i < MON_SIG_CNT ==> mm_all((#[trigger] self.procs@[i]).st(), fed(self.rb_mon_con.waits(), i)) == mm_all(old(self).procs@[i].st(), fed(old(self).rb_mon_con.waits(), i)),
                self.rb_recycle_prod.offered().len() + self.rb_mon_con.waits().len() == old(self).rb_recycle_prod.offered().len() + old(self).rb_mon_con.waits().len(),
                self.rb_recycle_prod.offered().len() >= old(self).rb_recycle_prod.offered().len(),
                forall|k: int| old(self).rb_recycle_prod.offered().len() <= k < self.rb_recycle_prod.offered().len() ==> is_reset(#[trigger] self.rb_recycle_prod.offered()[k])
            ensures self.wf(), self.rb_mon_con.waits().len() == 0,
                forall|i: int| 0 <= i < MON_SIG_CNT ==> (#[trigger] self.procs@[i]).st() == mm_all(old(self).procs@[i].st(), fed(old(self).rb_mon_con.waits(), i)),
                self.rb_recycle_prod.offered().len() == old(self).rb_recycle_prod.offered().len() + old(self).rb_mon_con.waits().len(),
                forall|k: int| old(self).rb_recycle_prod.offered().len() <= k < self.rb_recycle_prod.offered().len() ==> is_reset(#[trigger] self.rb_recycle_prod.offered()[k])
            decreases self.rb_mon_con.waits().len()»
        {
«            let ghost w = self.rb_mon_con.waits(); let ghost p = self.procs@;»
            let Some(mut buf) = self.rb_mon_con.pop() else { break; };
«            let ghost b0 = buf;
            proof { assert forall|i: int| 0 <= i < MON_SIG_CNT implies mm_all(mm_all((#[trigger] p[i]).st(), b0.rest(i)), fed(self.rb_mon_con.waits(), i)) == mm_all(p[i].st(), fed(w, i)) by {
                mm_cat(p[i].st(), b0.rest(i), fed(self.rb_mon_con.waits(), i));
            } }»
            self.process_mon_buf(&mut buf);
            buf.reset();
            let _ = self.rb_recycle_prod.push(buf);
        }
    }
    ⟦end⟧
    ⟦fn MonitorProcessor::check_new_data⟧
    fn check_new_data(&mut self) -> «(r:» bool «)»
«    ensures r == old(self).new_data, !final(self).new_data, final(self).procs == old(self).procs»
    {
        let new_data = self.new_data;
        self.new_data = false;
        new_data
    }
    ⟦end⟧
}

// ---------------------------------------------------------------- what a user sees
/// samples in two portions are the samples at once: block sizes do not matter
pub proof fn mm_cat(m: MM, a: Seq<f32>, b: Seq<f32>)
    ensures mm_all(mm_all(m, a), b) == mm_all(m, a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else {
        assert((a + b)[0] == a[0]);
        assert((a + b).subrange(1, (a + b).len() as int) =~= a.subrange(1, a.len() as int) + b);
        mm_cat(mm_step(m, a[0]), a.subrange(1, a.len() as int), b);
    }
}
pub open spec fn lows(s: Seq<f32>) -> f32 decreases s.len() { if s.len() == 0 { inf() } else { fmin(lows(s.drop_last()), s.last()) } }
pub open spec fn highs(s: Seq<f32>) -> f32 decreases s.len() { if s.len() == 0 { neg_inf() } else { fmax(highs(s.drop_last()), s.last()) } }
pub open spec fn per() -> int { MONITOR_INPUT_LEN_PER_SAMPLE as int }
pub open spec fn size() -> int { MONITOR_MINMAX_SAMPLES as int }
/// data point k of a signal: minimum and maximum of its k-th run of samples
pub open spec fn point(s: Seq<f32>, k: int) -> (f32, f32) { (lows(s.subrange(k * per(), (k + 1) * per())), highs(s.subrange(k * per(), (k + 1) * per()))) }
/// the state after all samples s of a signal
pub open spec fn tracks(m: MM, s: Seq<f32>) -> bool {
    let n = s.len() as int / per();
    &&& m.buf.len() == size() && m.wp == n % size() && m.n == s.len() as int % per()
    &&& m.lo == lows(s.subrange(n * per(), s.len() as int)) && m.hi == highs(s.subrange(n * per(), s.len() as int))
    // the j-th newest position shows the j-th newest point
    &&& forall|j: int| 0 <= j < size() && j < n ==> shown(m.buf, m.wp, size() - 1 - j) == #[trigger] point(s, n - 1 - j)
}
proof fn idx_lemma(n: int, j: int)
    requires 0 <= j < size(), j < n
    ensures (n % size() + (size() - 1 - j)) % size() == (n - 1 - j) % size()
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, size());
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(n / size() + 1, n - 1 - j - (n / size() + 1) * size(), size());
    assert(n % size() + (size() - 1 - j) == n - 1 - j - (n / size()) * size() + size());
    vstd::arithmetic::div_mod::lemma_mod_multiples_vanish(-(n / size()) + 1, n - 1 - j, size());
    assert((n - 1 - j) + size() * (-(n / size()) + 1) == n - 1 - j - (n / size()) * size() + size()) by (nonlinear_arith);
}
pub proof fn point_push(s: Seq<f32>, x: f32, k: int)
    requires 0 <= k, (k + 1) * per() <= s.len()
    ensures point(s.push(x), k) == point(s, k)
{
    assert(k * per() <= (k + 1) * per() && 0 <= k * per()) by (nonlinear_arith) requires 0 <= k, per() == 900;
    assert(s.push(x).subrange(k * per(), (k + 1) * per()) =~= s.subrange(k * per(), (k + 1) * per()));
}
pub proof fn track_step(m: MM, s: Seq<f32>, x: f32)
    requires tracks(m, s)
    ensures tracks(mm_step(m, x), s.push(x))
{
    let n = s.len() as int / per();
    let t = s.push(x);
    let n2 = t.len() as int / per();
    let r = s.subrange(n * per(), s.len() as int);
    let q = mm_step(m, x);
    assert(n * per() <= s.len() && s.len() - n * per() == m.n) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(s.len() as int, per()); }
    assert(t.subrange(n * per(), t.len() as int) =~= r.push(x));
    assert(r.push(x).drop_last() =~= r);
    if m.n + 1 >= per() {
        assert(n2 == n + 1 && t.len() as int % per() == 0) by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t.len() as int, per(), n + 1, 0);
        }
        assert((n + 1) * per() == t.len());
        assert(t.subrange(n2 * per(), t.len() as int) =~= Seq::empty());
        assert(q.wp == n2 % size()) by { vstd::arithmetic::div_mod::lemma_add_mod_noop(n, 1, size()); assert(1int % 160 == 1); }
        assert forall|j: int| 0 <= j < size() && j < n2 implies shown(q.buf, q.wp, size() - 1 - j) == #[trigger] point(t, n2 - 1 - j) by {
            idx_lemma(n2, j);
            if j == 0 {
            } else {
                idx_lemma(n, j - 1);
                assert(n2 - 1 - j == n - 1 - (j - 1));
                assert((n - j + 1) * per() <= n * per()) by (nonlinear_arith) requires j >= 1, per() == 900;
                point_push(s, x, n - j);
                assert(shown(m.buf, m.wp, size() - 1 - (j - 1)) == point(s, n - 1 - (j - 1)));
                // a different position
                assert((n - j) % size() != n % size()) by {
                    if (n - j) % size() == n % size() {
                        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, size());
                        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - j, size());
                        let d = n / size() - (n - j) / size();
                        assert(size() * d == j) by (nonlinear_arith) requires
                            n == size() * (n / size()) + n % size(), n - j == size() * ((n - j) / size()) + (n - j) % size(), (n - j) % size() == n % size(), d == n / size() - (n - j) / size();
                        assert(false) by (nonlinear_arith) requires size() * d == j, 0 < j < size(), size() == 160;
                    }
                }
            }
        }
    } else {
        assert(n2 == n && t.len() as int % per() == m.n + 1) by {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(t.len() as int, per(), n, m.n + 1);
        }
        assert forall|j: int| 0 <= j < size() && j < n2 implies shown(q.buf, q.wp, size() - 1 - j) == #[trigger] point(t, n2 - 1 - j) by {
            assert((n - 1 - j + 1) * per() <= n * per()) by (nonlinear_arith) requires j >= 0, per() == 900;
            point_push(s, x, n - 1 - j);
            assert(shown(m.buf, m.wp, size() - 1 - j) == point(s, n - 1 - j));
        }
    }
}
/// after any samples, in any portions, the display shows the newest runs of that signal in order
pub proof fn monitor_shows(m: MM, s: Seq<f32>, t: Seq<f32>)
    requires tracks(m, s)
    ensures tracks(mm_all(m, t), s + t)
    decreases t.len()
{
    if t.len() == 0 { assert(s + t =~= s); }
    else {
        track_step(m, s, t[0]);
        monitor_shows(mm_step(m, t[0]), s.push(t[0]), t.subrange(1, t.len() as int));
        assert(s.push(t[0]) + t.subrange(1, t.len() as int) =~= s + t);
    }
}
pub proof fn monitor_starts(m: MM)
    requires m.buf.len() == size(), m.wp == 0, m.n == 0, m.lo == inf(), m.hi == neg_inf()
    ensures tracks(m, Seq::empty())
{
    assert(Seq::<f32>::empty().subrange(0, 0) =~= Seq::empty());
    assert(0int * per() == 0);
}
} // verus!
fn main() {}
