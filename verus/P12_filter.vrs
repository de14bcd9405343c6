⟦file src/nodes/visual_sampling_filter.rs⟧
use vstd::prelude::*;
verus! {
pub const VALUE_SAMPLING_FILTER_SIZE: usize = ⟦SIZE⟧;
pub type NodeId = u64;
pub mod env {
use super::*;
pub uninterp spec fn fmax(x: f32, a: f32) -> f32;
pub uninterp spec fn fabs(x: f32) -> f32;
pub uninterp spec fn ge(x: f32, a: f32) -> bool;
pub assume_specification [f32::max] (x: f32, a: f32) -> (r: f32) ensures r == fmax(x, a);
pub assume_specification [f32::abs] (x: f32) -> (r: f32) ensures r == fabs(x);
#[verifier::external_body]
pub fn fge(x: f32, a: f32) -> (r: bool) ensures r == ge(x, a) { x >= a }
/// HashMap: get_or_new stands for entry(k).or_insert_with(|| VisualSamplingFilter::new())
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Table<K, V> { p: Vec<(K, V)> }
impl<K> Table<K, VisualSamplingFilter> {
    pub uninterp spec fn m(&self) -> Map<K, VisualSamplingFilter>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K, VisualSamplingFilter>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_or_new(&mut self, k: K) -> (r: &mut VisualSamplingFilter)
        ensures old(self).m().dom().contains(k) ==> *r == old(self).m()[k],
            !old(self).m().dom().contains(k) ==> r.is_new(),
            final(self).m() == old(self).m().insert(k, *final(r))
    { unimplemented!() }
}
}
pub use env::*;
/// largest positive and negative excursion of the samples
pub open spec fn pos(s: Seq<f32>) -> f32 decreases s.len() {
    if s.len() == 0 { 0.0f32 } else if ge(s.last(), 0.0f32) { fmax(pos(s.drop_last()), fabs(s.last())) } else { pos(s.drop_last()) }
}
pub open spec fn neg(s: Seq<f32>) -> f32 decreases s.len() {
    if s.len() == 0 { 0.0f32 } else if ge(s.last(), 0.0f32) { neg(s.drop_last()) } else { fmax(neg(s.drop_last()), fabs(s.last())) }
}
⟦struct VisualSamplingFilter⟧
/// a call of get: in a new display frame the sample replaces the oldest one
pub open spec fn frame(f: VisualSamplingFilter, rc: bool, x: f32, g: VisualSamplingFilter) -> bool {
    if rc == f.recalc_state { g == f } else {
        let w = (f.write_ptr + 1) % (VALUE_SAMPLING_FILTER_SIZE as int);
        &&& g.recalc_state == rc && g.write_ptr == w
        &&& g.sample_buffer@ == f.sample_buffer@.update(w, x)
        &&& g.last_output == (neg(g.sample_buffer@), pos(g.sample_buffer@))
    }
}
impl VisualSamplingFilter {
    pub open spec fn wf(&self) -> bool { self.write_ptr < VALUE_SAMPLING_FILTER_SIZE }
    pub open spec fn is_new(&self) -> bool {
        &&& !self.recalc_state && self.write_ptr == 0 && self.last_output == (0.0f32, 0.0f32)
        &&& forall|k: int| 0 <= k < VALUE_SAMPLING_FILTER_SIZE ==> #[trigger] self.sample_buffer@[k] == 0.0f32
    }
    ⟦fn VisualSamplingFilter::new⟧
    fn new() -> «(r:» Self «)»
«    ensures r.is_new(), r.wf()»
    {
        Self {
            recalc_state: false,
            write_ptr: 0,
            sample_buffer: [0.0; VALUE_SAMPLING_FILTER_SIZE],
            last_output: (0.0, 0.0),
        }
    }
    ⟦end⟧
    ⟦fn VisualSamplingFilter::needs_recalc⟧
    fn needs_recalc(&mut self, recalc_value: bool) -> «(r:» bool «)»
«    ensures r == (old(self).recalc_state != recalc_value), *final(self) == (VisualSamplingFilter { recalc_state: recalc_value, ..*old(self) })»
    {
        if self.recalc_state != recalc_value {
            self.recalc_state = recalc_value;
            true
        } else {
            false
        }
    }
    ⟦end⟧
    ⟦fn VisualSamplingFilter::get⟧
    fn get(&mut self, recalc_value: bool, sample: f32) -> «(r:» (f32, f32) «)»
«    requires old(self).wf()
        ensures final(self).wf(), frame(*old(self), recalc_value, sample, *final(self)), r == final(self).last_output»
    {
        if self.needs_recalc(recalc_value) {
            let write_ptr = (self.write_ptr + 1) % self.sample_buffer.len();
            self.write_ptr = write_ptr;

            self.sample_buffer[write_ptr] = sample;

            let mut neg_max: f32 = 0.0;
            let mut pos_max: f32 = 0.0;

            for v in «it:» self.sample_buffer.iter()
«                invariant it.seq().len() == VALUE_SAMPLING_FILTER_SIZE, forall|k: int| 0 <= k < VALUE_SAMPLING_FILTER_SIZE ==> *#[trigger] it.seq()[k] == self.sample_buffer@[k],
                    neg_max == neg(self.sample_buffer@.subrange(0, it.index@ as int)), pos_max == pos(self.sample_buffer@.subrange(0, it.index@ as int))»
            {
«                proof {
                    let t = self.sample_buffer@.subrange(0, it.index@ + 1);
                    assert(t.drop_last() =~= self.sample_buffer@.subrange(0, it.index@ as int));
                    assert(t.last() == *v);
                }»
                if fge(*v, 0.0) {
                    pos_max = pos_max.max((*v).abs());
                } else {
                    neg_max = neg_max.max((*v).abs());
                }
            }
«            proof { assert(self.sample_buffer@.subrange(0, VALUE_SAMPLING_FILTER_SIZE as int) =~= self.sample_buffer@); }»
            self.last_output = (neg_max, pos_max);
        }

        self.last_output
    }
    ⟦end⟧
}
⟦struct FeedbackFilter of src/nodes/feedback_filter.rs⟧
/// the filter of a key, or a new one
pub open spec fn at<K>(t: Table<K, VisualSamplingFilter>, k: K, f: VisualSamplingFilter) -> bool {
    if t.m().dom().contains(k) { f == t.m()[k] } else { f.is_new() }
}
impl FeedbackFilter {
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: NodeId| #[trigger] self.led_filters.m().dom().contains(k) ==> self.led_filters.m()[k].wf()
        &&& forall|k: (NodeId, u8)| #[trigger] self.out_filters.m().dom().contains(k) ==> self.out_filters.m()[k].wf()
    }
    ⟦fn FeedbackFilter::new of src/nodes/feedback_filter.rs⟧
    fn new() -> «(r:» Self «)»
«    ensures r.wf()»
    {
        Self { led_filters: Table::new(), out_filters: Table::new(), recalc_state: true }
    }
    ⟦end⟧
    ⟦fn FeedbackFilter::get_out_filter_for_node of src/nodes/feedback_filter.rs⟧
    fn get_out_filter_for_node(&mut self, node_id: &NodeId, out: u8) -> «(r:» &mut VisualSamplingFilter «)»
«    ensures at(old(self).out_filters, (*node_id, out), *r), final(self).led_filters == old(self).led_filters, final(self).recalc_state == old(self).recalc_state,
            final(self).out_filters.m() == old(self).out_filters.m().insert((*node_id, out), *final(r))»
    {
        self.out_filters.get_or_new((*node_id, out))
    }
    ⟦end⟧
    ⟦fn FeedbackFilter::get_led_filter_for_node of src/nodes/feedback_filter.rs⟧
    fn get_led_filter_for_node(&mut self, node_id: &NodeId) -> «(r:» &mut VisualSamplingFilter «)»
«    ensures at(old(self).led_filters, *node_id, *r), final(self).out_filters == old(self).out_filters, final(self).recalc_state == old(self).recalc_state,
            final(self).led_filters.m() == old(self).led_filters.m().insert(*node_id, *final(r))»
    {
        self.led_filters.get_or_new(*node_id)
    }
    ⟦end⟧
    ⟦fn FeedbackFilter::trigger_recalc of src/nodes/feedback_filter.rs⟧
    fn trigger_recalc(&mut self)
«    ensures final(self).recalc_state == !old(self).recalc_state, final(self).led_filters == old(self).led_filters, final(self).out_filters == old(self).out_filters»
    {
        self.recalc_state = !self.recalc_state;
    }
    ⟦end⟧
    ⟦fn FeedbackFilter::get_led of src/nodes/feedback_filter.rs⟧
    fn get_led(&mut self, node_id: &NodeId, sample: f32) -> «(r:» (f32, f32) «)»
«    requires old(self).wf()
        ensures final(self).wf(), final(self).recalc_state == old(self).recalc_state, final(self).out_filters == old(self).out_filters,
            exists|f: VisualSamplingFilter, g: VisualSamplingFilter| at(old(self).led_filters, *node_id, f) && #[trigger] frame(f, old(self).recalc_state, sample, g)
                && final(self).led_filters.m() == old(self).led_filters.m().insert(*node_id, g) && r == g.last_output»
    {
        let recalc_state = self.recalc_state;
        let filter = self.get_led_filter_for_node(node_id);
«        let ghost f0 = *filter;»
        filter.get(recalc_state, sample)
    }
    ⟦end⟧
    ⟦fn FeedbackFilter::get_out of src/nodes/feedback_filter.rs⟧
    fn get_out(&mut self, node_id: &NodeId, out: u8, sample: f32) -> «(r:» (f32, f32) «)»
«    requires old(self).wf()
        ensures final(self).wf(), final(self).recalc_state == old(self).recalc_state, final(self).led_filters == old(self).led_filters,
            exists|f: VisualSamplingFilter, g: VisualSamplingFilter| at(old(self).out_filters, (*node_id, out), f) && #[trigger] frame(f, old(self).recalc_state, sample, g)
                && final(self).out_filters.m() == old(self).out_filters.m().insert((*node_id, out), g) && r == g.last_output»
    {
        let recalc_state = self.recalc_state;
        let filter = self.get_out_filter_for_node(node_id, out);
«        let ghost f0 = *filter;»
        filter.get(recalc_state, sample)
    }
    ⟦end⟧
}
// ---------------------------------------------------------------- what a user sees
pub open spec fn size() -> int { VALUE_SAMPLING_FILTER_SIZE as int }
/// the filter after the samples s of n display frames: position p holds the newest sample,
/// the positions before it the older ones, zeros before the first
pub open spec fn holds(f: VisualSamplingFilter, s: Seq<f32>) -> bool {
    &&& f.write_ptr == s.len() as int % size()
    &&& forall|j: int| 0 <= j < size() ==> #[trigger] f.sample_buffer@[(s.len() - j) % size()] == (if j < s.len() { s[s.len() - 1 - j] } else { 0.0f32 })
}
proof fn mods(n: int, j: int)
    requires n >= 0, 0 < j < size()
    ensures n % size() != (n - j) % size()
{
    if n % size() == (n - j) % size() {
        let d = n / size() - (n - j) / size();
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, size());
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - j, size());
        assert(size() * d == j) by (nonlinear_arith) requires n == size() * (n / size()) + n % size(), n - j == size() * ((n - j) / size()) + (n - j) % size(), n % size() == (n - j) % size(), d == n / size() - (n - j) / size();
        assert(false) by (nonlinear_arith) requires size() * d == j, 0 < j < size();
    }
}
/// one display frame
pub proof fn window_frame(f: VisualSamplingFilter, s: Seq<f32>, x: f32, g: VisualSamplingFilter)
    requires holds(f, s), frame(f, !f.recalc_state, x, g)
    ensures holds(g, s.push(x)), g.last_output == (neg(g.sample_buffer@), pos(g.sample_buffer@))
{
    let n = s.len() as int;
    let t = s.push(x);
    let w = (n + 1) % size();
    assert((f.write_ptr + 1) % size() == w) by { vstd::arithmetic::div_mod::lemma_add_mod_noop(n, 1, size()); vstd::arithmetic::div_mod::lemma_small_mod(1, size() as nat); }
    assert forall|j: int| 0 <= j < size() implies #[trigger] g.sample_buffer@[(t.len() - j) % size()] == (if j < t.len() { t[t.len() - 1 - j] } else { 0.0f32 }) by {
        let p = (t.len() - j) % size();
        assert(0 <= p < size());
        if j > 0 {
            mods(n + 1, j);
            let i = j - 1;
            assert(f.sample_buffer@[(s.len() - i) % size()] == (if i < s.len() { s[s.len() - 1 - i] } else { 0.0f32 }));
            assert(s.len() - i == t.len() - j);
        }
    }
}
/// asked again in the same frame: nothing changes
pub proof fn same_frame(f: VisualSamplingFilter, x: f32, g: VisualSamplingFilter)
    requires frame(f, f.recalc_state, x, g)
    ensures g == f
{}
pub proof fn window_starts(f: VisualSamplingFilter)
    requires f.is_new()
    ensures holds(f, Seq::empty())
{
    assert forall|j: int| 0 <= j < size() implies #[trigger] f.sample_buffer@[(0 - j) % size()] == 0.0f32 by {
        assert(0 <= (0 - j) % size() < size());
    }
}
} // verus!
fn main() {}
