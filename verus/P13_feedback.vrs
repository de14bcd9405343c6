⟦file src/shared_feedback.rs⟧
use vstd::prelude::*;
verus! {
pub const MAX_BLOCK_SIZE: usize = ⟦BLOCK⟧;
pub mod env {
use super::*;
/// the samples of all shared buffers, by buffer
pub tracked struct Mem { pub ghost m: Map<int, Seq<f32>> }
/// a Vec<AtomicFloat> that is not shared yet
#[verifier::external_body]
pub struct Floats { p: Vec<f32> }
impl Floats {
    pub uninterp spec fn v(&self) -> Seq<f32>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn resize_zeros(&mut self, n: usize)
        ensures final(self).v().len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(self).v()[k] == (if k < old(self).v().len() { old(self).v()[k] } else { 0.0f32 })
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SharedBuf { p: u64 }
impl SharedBuf {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn length(&self) -> nat;
    #[verifier::external_body]
    pub fn share(b: Floats, Tracked(mem): Tracked<&mut Mem>) -> (r: SharedBuf)
        ensures !old(mem).m.dom().contains(r.id()), final(mem).m == old(mem).m.insert(r.id(), b.v()), r.length() == b.v().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: SharedBuf) ensures r.id() == self.id(), r.length() == self.length() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.length() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_at(&self, i: usize, x: f32, Tracked(mem): Tracked<&mut Mem>)
        requires i < self.length()
        ensures final(mem).m == old(mem).m.insert(self.id(), old(mem).m[self.id()].update(i as int, x))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_at(&self, i: usize, Tracked(mem): Tracked<&Mem>) -> (r: f32)
        requires i < self.length()
        ensures r == mem.m[self.id()][i as int]
    { unimplemented!() }
}
pub uninterp spec fn delay_of(sr: f32) -> usize;
#[verifier::external_body]
pub fn delay_samples(sr: f32) -> (r: usize) ensures r == delay_of(sr) { unimplemented!() }
pub trait MaxOf { fn max_of(self, o: usize) -> (r: usize); }
impl MaxOf for usize { fn max_of(self, o: usize) -> (r: usize) ensures r == (if self > o { self } else { o }) { if self > o { self } else { o } } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: Vec<(K, V)> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k, v) { unimplemented!() }
    /// get_mut(k).unwrap()
    #[verifier::external_body]
    pub fn existing(&mut self, k: &K) -> (r: &mut V)
        requires old(self).m().dom().contains(*k)
        ensures *r == old(self).m()[*k], final(self).m() == old(self).m().insert(*k, *final(r))
    { unimplemented!() }
}
}
pub use env::*;
pub open spec fn zeros(n: nat) -> Seq<f32> { Seq::new(n, |k: int| 0.0f32) }
⟦struct SharedFeedback⟧
impl SharedFeedback {
    pub open spec fn wf(&self) -> bool { self.delay_sample_count >= MAX_BLOCK_SIZE && self.buffer.length() == 3 * self.delay_sample_count }
    ⟦fn SharedFeedback::new⟧
    fn new(sample_rate: f32 «, Tracked(mem): Tracked<&mut Mem>») -> «(r:» Self «)»
«    requires delay_of(sample_rate) < 0x1000_0000
        ensures r.wf(), r.delay_sample_count == (if delay_of(sample_rate) < MAX_BLOCK_SIZE { MAX_BLOCK_SIZE } else { delay_of(sample_rate) }),
            !old(mem).m.dom().contains(r.buffer.id()),
            final(mem).m == old(mem).m.insert(r.buffer.id(), zeros(r.buffer.length()))»
    {
        let mut buf = Floats::new();
        let delay_sample_count = delay_samples(sample_rate);

        let delay_sample_count = delay_sample_count.max_of(MAX_BLOCK_SIZE);

        buf.resize_zeros(3 * delay_sample_count);
«        proof { assert(buf.v() =~= zeros(buf.v().len())); }»
        Self { buffer: SharedBuf::share(buf «, Tracked(mem)»), delay_sample_count }
    }
    ⟦end⟧
}
⟦struct SharedFeedbackWriter⟧
impl SharedFeedbackWriter {
    pub open spec fn wf(&self) -> bool { self.write_ptr < self.buffer.length() < 0x4000_0000 }
    ⟦fn SharedFeedbackWriter::new⟧
    fn new(sfb: &SharedFeedback) -> «(r:» Self «)»
«    requires sfb.wf(), sfb.buffer.length() < 0x4000_0000
        ensures r.wf(), r.buffer.id() == sfb.buffer.id(), r.buffer.length() == sfb.buffer.length(), r.write_ptr == sfb.delay_sample_count»
    {
        let buffer = sfb.buffer.clone();
        Self { buffer, write_ptr: sfb.delay_sample_count }
    }
    ⟦end⟧
    ⟦fn SharedFeedbackWriter::write⟧
    fn write(&mut self, s: f32 «, Tracked(mem): Tracked<&mut Mem>»)
«    requires old(self).wf()
        ensures final(self).wf(), final(self).buffer == old(self).buffer, final(self).write_ptr == (old(self).write_ptr + 1) % (old(self).buffer.length() as int),
            final(mem).m == old(mem).m.insert(old(self).buffer.id(), old(mem).m[old(self).buffer.id()].update(old(self).write_ptr as int, s))»
    {
        self.buffer.set_at(self.write_ptr, s «, Tracked(mem)»);
        self.write_ptr = (self.write_ptr + 1) % self.buffer.len();
    }
    ⟦end⟧
}
⟦struct SharedFeedbackReader⟧
impl SharedFeedbackReader {
    pub open spec fn wf(&self) -> bool { self.read_ptr < self.buffer.length() < 0x4000_0000 }
    ⟦fn SharedFeedbackReader::new⟧
    fn new(sfb: &SharedFeedback) -> «(r:» Self «)»
«    requires sfb.wf(), sfb.buffer.length() < 0x4000_0000
        ensures r.wf(), r.buffer.id() == sfb.buffer.id(), r.buffer.length() == sfb.buffer.length(), r.read_ptr == 0»
    {
        Self { buffer: sfb.buffer.clone(), read_ptr: 0 }
    }
    ⟦end⟧
    ⟦fn SharedFeedbackReader::read⟧
    fn read(&mut self «, Tracked(mem): Tracked<&Mem>») -> «(r:» f32 «)»
«    requires old(self).wf()
        ensures final(self).wf(), final(self).buffer == old(self).buffer, final(self).read_ptr == (old(self).read_ptr + 1) % (old(self).buffer.length() as int),
            r == mem.m[old(self).buffer.id()][old(self).read_ptr as int]»
    {
        let ret = self.buffer.get_at(self.read_ptr «, Tracked(mem)»);
        self.read_ptr = (self.read_ptr + 1) % self.buffer.len();
        ret
    }
    ⟦end⟧
}
pub struct NodeGlobalData { pub feedback: HashMap<usize, SharedFeedback> }
impl NodeGlobalData {
    /// every instance has a buffer of its own
    pub open spec fn wf(&self, mem: Map<int, Seq<f32>>) -> bool {
        let f = self.feedback.m();
        &&& forall|k: usize| #[trigger] f.dom().contains(k) ==> f[k].wf() && f[k].buffer.length() < 0x4000_0000 && mem.dom().contains(f[k].buffer.id())
        &&& forall|k: usize, l: usize| f.dom().contains(k) && f.dom().contains(l) && k != l ==> #[trigger] f[k].buffer.id() != #[trigger] f[l].buffer.id()
    }
    /// the buffer of one instance is there now, and new ones are silent; the others are as they were
    pub open spec fn has(old: Self, m0: Map<int, Seq<f32>>, new: Self, m1: Map<int, Seq<f32>>, i: usize) -> bool {
        &&& new.wf(m1) && new.feedback.m().dom().contains(i)
        &&& forall|k: usize| #[trigger] old.feedback.m().dom().contains(k) ==> new.feedback.m().dom().contains(k) && new.feedback.m()[k] == old.feedback.m()[k]
                && m1[old.feedback.m()[k].buffer.id()] == m0[old.feedback.m()[k].buffer.id()]
        &&& forall|k: usize| k != i && #[trigger] new.feedback.m().dom().contains(k) ==> old.feedback.m().dom().contains(k)
        &&& !old.feedback.m().dom().contains(i) ==> m1[new.feedback.m()[i].buffer.id()] == zeros(new.feedback.m()[i].buffer.length())
    }
    ⟦fn NodeGlobalData::get_shared_feedback of src/global.rs⟧
    fn get_shared_feedback(&mut self, instance: usize «, Tracked(mem): Tracked<&mut Mem>») -> «(r:» &mut SharedFeedback «)»
«    requires old(self).wf(old(mem).m), delay_of(44100.0f32) < 0x1000_0000
        ensures r.wf(), r.buffer.length() < 0x4000_0000,
            *final(r) == *r ==> NodeGlobalData::has(*old(self), old(mem).m, *final(self), final(mem).m, instance) && final(self).feedback.m()[instance] == *r»
    {
        if !self.feedback.contains_key(&instance) {
            let new_shared_feedback = SharedFeedback::new(44100.0 «, Tracked(mem)»);
            self.feedback.insert(instance, new_shared_feedback);
        }
«        proof { assert(self.feedback.m().insert(instance, self.feedback.m()[instance]) =~= self.feedback.m()); }»
        self.feedback.existing(&instance)
    }
    ⟦end⟧
    ⟦fn NodeGlobalData::get_feedback_reader of src/global.rs⟧
    fn get_feedback_reader(&mut self, instance: usize «, Tracked(mem): Tracked<&mut Mem>») -> «(r:» Box<SharedFeedbackReader> «)»
«    requires old(self).wf(old(mem).m), delay_of(44100.0f32) < 0x1000_0000
        ensures NodeGlobalData::has(*old(self), old(mem).m, *final(self), final(mem).m, instance),
            r.wf(), r.read_ptr == 0, r.buffer.id() == final(self).feedback.m()[instance].buffer.id(), r.buffer.length() == final(self).feedback.m()[instance].buffer.length()»
    {
        return Box::new(SharedFeedbackReader::new(self.get_shared_feedback(instance «, Tracked(mem)»)));
    }
    ⟦end⟧
    ⟦fn NodeGlobalData::get_feedback_writer of src/global.rs⟧
    fn get_feedback_writer(&mut self, instance: usize «, Tracked(mem): Tracked<&mut Mem>») -> «(r:» Box<SharedFeedbackWriter> «)»
«    requires old(self).wf(old(mem).m), delay_of(44100.0f32) < 0x1000_0000
        ensures NodeGlobalData::has(*old(self), old(mem).m, *final(self), final(mem).m, instance),
            r.wf(), r.write_ptr == final(self).feedback.m()[instance].delay_sample_count, r.buffer.id() == final(self).feedback.m()[instance].buffer.id(), r.buffer.length() == final(self).feedback.m()[instance].buffer.length()»
    {
        return Box::new(SharedFeedbackWriter::new(self.get_shared_feedback(instance «, Tracked(mem)»)));
    }
    ⟦end⟧
}
// ---------------------------------------------------------------- what a user hears
/// the line after the writer (started at the delay d) has written ws
pub open spec fn line(b: Seq<f32>, d: int, ws: Seq<f32>) -> bool {
    &&& b.len() == 3 * d && d > 0
    &&& forall|k: int| 0 <= k < ws.len() && ws.len() - 3 * d <= k ==> #[trigger] b[(d + k) % (3 * d)] == ws[k]
    &&& forall|k: int| ws.len() <= k < 3 * d ==> #[trigger] b[(d + k) % (3 * d)] == 0.0f32
}
proof fn slots(d: int, k: int, n: int)
    requires d > 0, 0 <= k < n, n - k < 3 * d
    ensures (d + k) % (3 * d) != (d + n) % (3 * d)
{
    let l = 3 * d;
    if (d + k) % l == (d + n) % l {
        let e = (d + n) / l - (d + k) / l;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d + k, l);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(d + n, l);
        assert(l * e == n - k) by (nonlinear_arith) requires d + k == l * ((d + k) / l) + (d + k) % l, d + n == l * ((d + n) / l) + (d + n) % l, (d + k) % l == (d + n) % l, e == (d + n) / l - (d + k) / l;
        assert(false) by (nonlinear_arith) requires l * e == n - k, 0 < n - k < l;
    }
}
pub proof fn line_starts(d: int)
    requires d > 0
    ensures line(zeros((3 * d) as nat), d, Seq::empty())
{
    assert forall|k: int| 0 <= k < 3 * d implies #[trigger] zeros((3 * d) as nat)[(d + k) % (3 * d)] == 0.0f32 by {
        assert(0 <= (d + k) % (3 * d) < 3 * d) by { vstd::arithmetic::div_mod::lemma_mod_bound(d + k, 3 * d); }
    }
}
/// SharedFeedbackWriter::write keeps the line, and the writer is where the next sample goes
pub proof fn line_write(b: Seq<f32>, d: int, ws: Seq<f32>, x: f32, wp: int)
    requires line(b, d, ws), wp == (d + ws.len()) % (3 * d)
    ensures line(b.update(wp, x), d, ws.push(x)), (wp + 1) % (3 * d) == (d + ws.push(x).len()) % (3 * d)
{
    let l = 3 * d;
    let n = ws.len() as int;
    vstd::arithmetic::div_mod::lemma_mod_bound(d + n, l);
    vstd::arithmetic::div_mod::lemma_add_mod_noop(d + n, 1, l);
    vstd::arithmetic::div_mod::lemma_small_mod(1, l as nat);
    assert forall|k: int| 0 <= k < n + 1 && n + 1 - 3 * d <= k implies #[trigger] b.update(wp, x)[(d + k) % l] == ws.push(x)[k] by {
        vstd::arithmetic::div_mod::lemma_mod_bound(d + k, l);
        if k < n { slots(d, k, n); assert(b[(d + k) % l] == ws[k]); }
    }
    assert forall|k: int| n + 1 <= k < 3 * d implies #[trigger] b.update(wp, x)[(d + k) % l] == 0.0f32 by {
        vstd::arithmetic::div_mod::lemma_mod_bound(d + k, l);
        slots(d, n, k);
        assert(b[(d + k) % l] == 0.0f32);
    }
}
/// the n-th sample read is the one written d samples earlier (silence before the first), as long as reader and
/// writer are less than d samples apart, whoever runs first
pub proof fn line_read(b: Seq<f32>, d: int, ws: Seq<f32>, n: int)
    requires line(b, d, ws), n >= 0, n - d < ws.len() <= n + d
    ensures b[n % (3 * d)] == (if n >= d { ws[n - d] } else { 0.0f32 })
{
    if n >= d {
        assert(b[(d + (n - d)) % (3 * d)] == ws[n - d]);
    } else {
        let k = n + 2 * d;
        assert(b[(d + k) % (3 * d)] == 0.0f32);
        assert((d + k) % (3 * d) == n % (3 * d)) by { assert(d + k == n + 3 * d); vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(n, 3 * d); }
    }
}
pub proof fn reader_moves(d: int, n: int)
    requires d > 0, n >= 0
    ensures (n % (3 * d) + 1) % (3 * d) == (n + 1) % (3 * d)
{
    vstd::arithmetic::div_mod::lemma_add_mod_noop(n, 1, 3 * d);
    vstd::arithmetic::div_mod::lemma_small_mod(1, (3 * d) as nat);
}
/// frames of blocks: reader and writer process the same number of frames per block, at most MAX_BLOCK_SIZE <= d,
/// so whoever is first is at most one block ahead
pub proof fn blocks_apart(done: int, block: int, w: int, n: int, d: int)
    requires 0 <= done, 1 <= block <= MAX_BLOCK_SIZE <= d,
        // n is read in this block; the writer has not begun it or has finished it
        done <= n < done + block, w == done || w == done + block
    ensures n - d < w <= n + d
{}
} // verus!
fn main() {}
