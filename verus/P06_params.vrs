⟦file src/util.rs⟧
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
pub mod fx {
    use super::*;
    pub broadcast axiom fn add_ok(a: f32, b: f32) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn sub_ok(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn div_ok(a: f32, b: f32) ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn add_fn() ensures #[trigger] <f32 as AddSpec>::obeys_add_spec();
    pub broadcast axiom fn sub_fn() ensures #[trigger] <f32 as SubSpec>::obeys_sub_spec();
    pub broadcast axiom fn div_fn() ensures #[trigger] <f32 as DivSpec>::obeys_div_spec();
    pub broadcast group g { add_ok, sub_ok, div_ok, add_fn, sub_fn, div_fn }
    /// the f32 of a field is an f32 (Verus does not derive this by itself)
    pub axiom fn typed(x: f32) -> (r: f32) ensures r == x;
}
pub mod env {
use super::*;
pub uninterp spec fn u2fs(x: usize) -> f32;
#[verifier::external_body]
pub fn u2f(x: usize) -> (r: f32) ensures r == u2fs(x) { unimplemented!() }
pub uninterp spec fn ramp_lens(sr: f32) -> usize;
#[verifier::external_body]
pub fn ramp_len(sr: f32) -> (r: usize) ensures r == ramp_lens(sr) { unimplemented!() }
/// the contents of all buffers, by pointer
pub tracked struct Mem { pub ghost m: Map<int, Seq<f32>> }
#[verifier::external_body]
pub struct ProcBuf { p: *mut f32 }
pub open spec fn flat(v: f32) -> Seq<f32> { Seq::new(128, |k: int| v) }
impl ProcBuf {
    pub uninterp spec fn ptr(&self) -> int;
    #[verifier::external_body]
    pub fn write(&mut self, idx: usize, v: f32, Tracked(mem): Tracked<&mut Mem>)
        requires idx < 128
        ensures *final(self) == *old(self), final(mem).m == old(mem).m.insert(old(self).ptr(), old(mem).m[old(self).ptr()].update(idx as int, v))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fill(&mut self, v: f32, Tracked(mem): Tracked<&mut Mem>)
        ensures *final(self) == *old(self), final(mem).m == old(mem).m.insert(old(self).ptr(), flat(v))
    { unimplemented!() }
}
pub struct ModOp { pub amount: f32 }
impl ModOp {
    #[verifier::external_body]
    pub fn set_amt(&mut self, amt: f32) ensures *final(self) == (ModOp { amount: amt }) { unimplemented!() }
}
#[verifier::external_body]
pub fn find_done(v: &mut Vec<(usize, Smoother)>) -> (r: Option<&mut (usize, Smoother)>)
    ensures match r {
        Some(x) => exists|k: int| 0 <= k < old(v)@.len() && (#[trigger] old(v)@[k]).1.done && *x == old(v)@[k] && final(v)@ == old(v)@.update(k, *final(x)),
        None => final(v)@ == old(v)@ && forall|k: int| 0 <= k < old(v)@.len() ==> !(#[trigger] old(v)@[k]).1.done
    } { unimplemented!() }
#[verifier::external_body]
pub fn retain_ne(v: &mut Vec<(usize, f32)>, i: usize)
    ensures forall|k: int| 0 <= k < final(v)@.len() ==> (#[trigger] final(v)@[k]).0 != i && exists|l: int| 0 <= l < old(v)@.len() && final(v)@[k] == #[trigger] old(v)@[l],
        forall|l: int| 0 <= l < old(v)@.len() && (#[trigger] old(v)@[l]).0 != i ==> exists|k: int| 0 <= k < final(v)@.len() && #[trigger] final(v)@[k] == old(v)@[l]
{ unimplemented!() }
}
pub use env::*;
broadcast use fx::g;

⟦struct Smoother⟧
pub open spec fn set_s(s: Smoother, c: f32, t: f32) -> Smoother {
    Smoother { slope_samples: s.slope_samples, value: c, inc: t.sub_spec(c).div_spec(u2fs(s.slope_samples)), target: t, count: s.slope_samples, done: false }
}
/// one step: straight on to the target, then exactly the target
pub open spec fn step(s: Smoother) -> Smoother {
    if s.count == 0 { Smoother { done: true, ..s } } else { Smoother { value: s.value.add_spec(s.inc), count: (s.count - 1) as usize, ..s } }
}
pub open spec fn step_out(s: Smoother) -> f32 { if s.count == 0 { s.target } else { s.value.add_spec(s.inc) } }
pub open spec fn steps(s: Smoother, k: int) -> Smoother decreases k { if k <= 0 { s } else { step(steps(s, k - 1)) } }
/// the k-th value of the ramp
pub open spec fn ramp(s: Smoother, k: int) -> f32 { step_out(steps(s, k)) }
impl Smoother {
    ⟦fn Smoother::set_sample_rate⟧
    fn set_sample_rate(&mut self, sr: f32)
«    ensures *final(self) == (Smoother { slope_samples: ramp_lens(sr), ..*old(self) })»
    {
        self.slope_samples = ramp_len(sr);
    }
    ⟦end⟧
    ⟦fn Smoother::is_done⟧
    fn is_done(&self) -> «(r:» bool «)»
«    ensures r == self.done»
    {
        self.done
    }
    ⟦end⟧
    ⟦fn Smoother::stop⟧
    fn stop(&mut self)
«    ensures *final(self) == (Smoother { done: true, ..*old(self) })»
    {
        self.done = true;
    }
    ⟦end⟧
    ⟦fn Smoother::set⟧
    fn set(&mut self, current: f32, target: f32)
«    ensures *final(self) == set_s(*old(self), current, target)»
    {
        self.value = current;
        self.count = self.slope_samples;
        self.inc = (target - current) / u2f(self.count);
        self.target = target;
        self.done = false;
    }
    ⟦end⟧
    ⟦fn Smoother::next⟧
    fn next(&mut self) -> «(r:» f32 «)»
«    ensures *final(self) == step(*old(self)), r == step_out(*old(self))»
    {
«        proof { let _ = fx::typed(self.value); let _ = fx::typed(self.inc); }»
        if self.count == 0 {
            self.done = true;

            self.target
        } else {
            self.value = self.value + self.inc;
            self.count -= 1;
            self.value
        }
    }
    ⟦end⟧
}
pub struct NodeProg { pub params: Vec<f32>, pub inp: Vec<ProcBuf>, pub modops: Vec<ModOp> }
pub struct NodeExecutor { pub smoothers: Vec<(usize, Smoother)>, pub target_refresh: Vec<(usize, f32)>, pub prog: NodeProg }
/// the input buffers are different buffers
pub open spec fn distinct(v: Seq<ProcBuf>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).ptr() != (#[trigger] v[j]).ptr() }
/// smoother k is moving input i
pub open spec fn moving(s: Seq<(usize, Smoother)>, k: int, i: int) -> bool { 0 <= k < s.len() && !s[k].1.done && s[k].0 == i }
pub open spec fn moved(s: Seq<(usize, Smoother)>, i: int) -> bool { exists|k: int| #[trigger] moving(s, k, i) }
/// parameter and buffer of input i as before
pub open spec fn kept(p: Seq<f32>, p0: Seq<f32>, m: Map<int, Seq<f32>>, m0: Map<int, Seq<f32>>, inp: Seq<ProcBuf>, i: int) -> bool { p[i] == p0[i] && m[inp[i].ptr()] == m0[inp[i].ptr()] }
/// input i keeps its parameter and shows it
pub open spec fn rests(p: Seq<f32>, m: Map<int, Seq<f32>>, p0: Seq<f32>, inp: Seq<ProcBuf>, i: int) -> bool { p[i] == p0[i] && m[inp[i].ptr()] == flat(p0[i]) }
pub open spec fn good(sm: Seq<(usize, Smoother)>, tr: Seq<(usize, f32)>, params: Seq<f32>, inp: Seq<ProcBuf>, m: Map<int, Seq<f32>>) -> bool {
        &&& params.len() == inp.len() && distinct(inp)
        &&& forall|k: int| 0 <= k < sm.len() && !(#[trigger] sm[k]).1.done ==> sm[k].0 < inp.len()
        &&& forall|k: int, l: int| 0 <= k < l < sm.len() && !(#[trigger] sm[k]).1.done && !(#[trigger] sm[l]).1.done ==> sm[k].0 != sm[l].0
        &&& forall|l: int| 0 <= l < tr.len() ==> (#[trigger] tr[l]).0 < inp.len() && tr[l].1 == params[tr[l].0 as int]
        &&& forall|i: int| 0 <= i < inp.len() && !moved(sm, i) && !refreshed(tr, i) ==> m[(#[trigger] inp[i]).ptr()] =~= flat(params[i])
        &&& forall|i: int| 0 <= i < inp.len() ==> m[(#[trigger] inp[i]).ptr()].len() == 128
}
pub open spec fn moved_in(s: Seq<(usize, Smoother)>, n: int, i: int) -> bool { exists|k: int| k < n && #[trigger] moving(s, k, i) }
pub open spec fn refreshed(t: Seq<(usize, f32)>, i: int) -> bool { exists|l: int| 0 <= l < t.len() && (#[trigger] t[l]).0 == i }
impl NodeExecutor {
    /// at most one smoother moves an input; an input that is not moved shows its parameter in the whole buffer, or will after the refresh
    pub open spec fn wf(&self, m: Map<int, Seq<f32>>) -> bool { good(self.smoothers@, self.target_refresh@, self.prog.params@, self.prog.inp@, m) }
    ⟦fn NodeExecutor::set_modamt of src/nodes/node_exec.rs⟧
    fn set_modamt(&mut self, mod_idx: usize, modamt: f32)
«    ensures *final(self) == (NodeExecutor { prog: final(self).prog, ..*old(self) }), final(self).prog == (NodeProg { modops: final(self).prog.modops, ..old(self).prog }), final(self).prog.modops@.len() == old(self).prog.modops@.len(),
            forall|k: int| 0 <= k < old(self).prog.modops@.len() ==> #[trigger] final(self).prog.modops@[k] == (if k == mod_idx { ModOp { amount: modamt } } else { old(self).prog.modops@[k] })»
    {
        if mod_idx < self.prog.modops.len() {
            self.prog.modops[mod_idx].set_amt(modamt);
        }
    }
    ⟦end⟧
    ⟦fn NodeExecutor::set_param of src/nodes/node_exec.rs⟧
    fn set_param(&mut self, input_idx: usize, value: f32 «, Tracked(mem): Tracked<&mut Mem>»)
«    requires old(self).wf(old(mem).m)
        ensures final(self).wf(final(mem).m), final(self).prog.inp@ =~= old(self).prog.inp@, final(self).prog.modops == old(self).prog.modops, final(self).prog.params@.len() == old(self).prog.params@.len(), final(self).smoothers@.len() == old(self).smoothers@.len(),
            // no other input changes in any way
            forall|i: int| 0 <= i < old(self).prog.params@.len() && i != input_idx ==> #[trigger] final(self).prog.params@[i] == old(self).prog.params@[i],
            forall|i: int| 0 <= i < old(self).prog.inp@.len() && i != input_idx ==> final(mem).m[(#[trigger] old(self).prog.inp@[i]).ptr()] == old(mem).m[old(self).prog.inp@[i].ptr()],
            forall|k: int, i: int| i != input_idx ==> #[trigger] moving(final(self).smoothers@, k, i) == moving(old(self).smoothers@, k, i),
            forall|k: int, i: int| i != input_idx && #[trigger] moving(old(self).smoothers@, k, i) ==> final(self).smoothers@[k] == old(self).smoothers@[k],
            input_idx >= old(self).prog.params@.len() ==> *final(self) == *old(self) && final(mem).m == old(mem).m,
            // the input is on its way from its present value to the new one, or is there
            input_idx < old(self).prog.params@.len() ==> final(self).heading(old(self), final(mem).m, old(mem).m, input_idx as int, value)»
    {
«        let ghost s0 = *self; let ghost m0 = mem.m;»
        let prog = &mut self.prog;

        if input_idx >= prog.params.len() {
            return;
        }

        let sm_n = self.smoothers.len(); let mut sm_i: usize = 0;
        «#[verifier::loop_isolation(false)]»
        while sm_i < sm_n
«            invariant s0 == *old(self), m0 == old(mem).m, mem.m == m0, s0.wf(m0), sm_n == s0.smoothers@.len(), self.smoothers@ =~= s0.smoothers@, self.target_refresh == s0.target_refresh, *prog == s0.prog, input_idx < s0.prog.params@.len(),
                sm_i <= sm_n, forall|k: int| 0 <= k < sm_i ==> !moving(s0.smoothers@, k, input_idx as int)
            decreases sm_n - sm_i»
        {
            let sm_c = sm_i; sm_i = sm_i + 1; let sm_e = &mut self.smoothers[sm_c]; if sm_e.1.is_done() { continue; } let sm_inp_idx = &mut sm_e.0; let smoother = &mut sm_e.1;
            if *sm_inp_idx == input_idx {
«                proof { assert(moving(s0.smoothers@, sm_c as int, input_idx as int)); }»
                smoother.set(prog.params[input_idx], value);
«                proof {
                    let q = s0.smoothers@.update(sm_c as int, (input_idx, set_s(s0.smoothers@[sm_c as int].1, s0.prog.params@[input_idx as int], value)));
                    assert(q[sm_c as int] == (input_idx, set_s(s0.smoothers@[sm_c as int].1, s0.prog.params@[input_idx as int], value)));
                    lemma_same_moves(s0.smoothers@, q, sm_c as int, input_idx as int);
                    assert(moving(q, sm_c as int, input_idx as int));
                }»
                return;
            }
        }

        if let Some(sm) = find_done(&mut self.smoothers) {
            sm.0 = input_idx;
            sm.1.set(prog.params[input_idx], value);
«            proof {
                let i = input_idx as int;
                assert(exists|k: int| 0 <= k < s0.smoothers@.len() && (#[trigger] s0.smoothers@[k]).1.done && self.smoothers@ == s0.smoothers@.update(k, (input_idx, set_s(s0.smoothers@[k].1, s0.prog.params@[i], value))));
                let k = choose|k: int| 0 <= k < s0.smoothers@.len() && (#[trigger] s0.smoothers@[k]).1.done && self.smoothers@ == s0.smoothers@.update(k, (input_idx, set_s(s0.smoothers@[k].1, s0.prog.params@[i], value)));
                assert(self.smoothers@[k].1 == set_s(s0.smoothers@[k].1, s0.prog.params@[i], value));
                assert(moving(self.smoothers@, k, i));
                lemma_same_moves(s0.smoothers@, self.smoothers@, k, i);
                assert forall|a: int, b: int| 0 <= a < b < self.smoothers@.len() && !(#[trigger] self.smoothers@[a]).1.done && !(#[trigger] self.smoothers@[b]).1.done implies self.smoothers@[a].0 != self.smoothers@[b].0 by {
                    if a == k { assert(!moving(s0.smoothers@, b, i)); assert(s0.smoothers@[b] == self.smoothers@[b]); }
                    else if b == k { assert(!moving(s0.smoothers@, a, i)); assert(s0.smoothers@[a] == self.smoothers@[a]); }
                    else { assert(s0.smoothers@[a] == self.smoothers@[a] && s0.smoothers@[b] == self.smoothers@[b]); }
                }
            }»
        } else {
            prog.params[input_idx] = value;
            prog.inp[input_idx].fill(value «, Tracked(mem)»);
            retain_ne(&mut self.target_refresh, input_idx);
«            proof {
                let i = input_idx as int;
                assert forall|l: int| 0 <= l < self.target_refresh@.len() implies (#[trigger] self.target_refresh@[l]).0 < prog.inp@.len() && self.target_refresh@[l].1 == prog.params@[self.target_refresh@[l].0 as int] by {
                    let q = choose|q: int| 0 <= q < s0.target_refresh@.len() && self.target_refresh@[l] == #[trigger] s0.target_refresh@[q];
                    assert(s0.target_refresh@[q].0 < s0.prog.inp@.len());
                }
                assert forall|j: int| j != i implies #[trigger] refreshed(self.target_refresh@, j) == refreshed(s0.target_refresh@, j) by {
                    if refreshed(s0.target_refresh@, j) {
                        let l = choose|l: int| 0 <= l < s0.target_refresh@.len() && (#[trigger] s0.target_refresh@[l]).0 == j;
                        let q = choose|q: int| 0 <= q < self.target_refresh@.len() && #[trigger] self.target_refresh@[q] == s0.target_refresh@[l];
                        assert(self.target_refresh@[q].0 == j);
                    }
                    if refreshed(self.target_refresh@, j) {
                        let l = choose|l: int| 0 <= l < self.target_refresh@.len() && (#[trigger] self.target_refresh@[l]).0 == j;
                        let q = choose|q: int| 0 <= q < s0.target_refresh@.len() && self.target_refresh@[l] == #[trigger] s0.target_refresh@[q];
                        assert(s0.target_refresh@[q].0 == j);
                    }
                }
                assert forall|k: int| 0 <= k < s0.smoothers@.len() implies !(#[trigger] s0.smoothers@[k]).1.done && s0.smoothers@[k].0 != i by { assert(!moving(s0.smoothers@, k, i)); }
                assert forall|j: int| 0 <= j < prog.inp@.len() implies mem.m[(#[trigger] prog.inp@[j]).ptr()] == (if j == i { flat(value) } else { m0[s0.prog.inp@[j].ptr()] }) by {
                    assert(prog.inp@[j] == s0.prog.inp@[j]);
                    if j < i { assert(s0.prog.inp@[j].ptr() != s0.prog.inp@[i].ptr()); } else if i < j { assert(s0.prog.inp@[i].ptr() != s0.prog.inp@[j].ptr()); }
                }
                assert forall|j: int| 0 <= j < prog.inp@.len() && !moved(self.smoothers@, j) && !refreshed(self.target_refresh@, j) implies mem.m[(#[trigger] prog.inp@[j]).ptr()] =~= flat(prog.params@[j]) by {
                    if j != i { assert(m0[s0.prog.inp@[j].ptr()] =~= flat(s0.prog.params@[j])); }
                }
            }»
        }
    }
    ⟦end⟧
    ⟦fn NodeExecutor::process_smoothers of src/nodes/node_exec.rs⟧
    fn process_smoothers(&mut self, nframes: usize «, Tracked(mem): Tracked<&mut Mem>»)
«    requires old(self).wf(old(mem).m), 1 <= nframes <= 128
        ensures final(self).wf(final(mem).m), final(self).prog.inp@ =~= old(self).prog.inp@, final(self).prog.modops == old(self).prog.modops, final(self).smoothers@.len() == old(self).smoothers@.len(),
            forall|k: int| 0 <= k < old(self).smoothers@.len() ==> #[trigger] final(self).smoothers@[k] == after(old(self).smoothers@[k], nframes as int),
            // an input that is moved shows the next values of its ramp
            forall|k: int, i: int| #[trigger] moving(old(self).smoothers@, k, i) ==> shows(final(self).prog.params@[i], final(mem).m[old(self).prog.inp@[i].ptr()], old(self).smoothers@[k].1, nframes as int),
            // every other input is constant at its parameter
            forall|i: int| 0 <= i < old(self).prog.inp@.len() && !moved(old(self).smoothers@, i) ==> #[trigger] rests(final(self).prog.params@, final(mem).m, old(self).prog.params@, old(self).prog.inp@, i)»
    {
«        let ghost s0 = *self; let ghost sm0 = self.smoothers@;»
        let prog = &mut self.prog;

        «#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]»
        loop
«            invariant s0 == *old(self), self.smoothers == s0.smoothers, good(self.smoothers@, self.target_refresh@, prog.params@, prog.inp@, mem.m), prog.inp@ =~= s0.prog.inp@, prog.params == s0.prog.params, prog.modops == s0.prog.modops
            ensures self.target_refresh@.len() == 0
            decreases self.target_refresh@.len()»
        { «let ghost tb = self.target_refresh@;» let Some((idx, v)) = self.target_refresh.pop() else { break; };
«            let ghost mb = mem.m;
            proof { assert(tb[tb.len() - 1] == (idx, v)); assert(tb[tb.len() - 1].0 < prog.inp@.len()); assert(forall|l: int| 0 <= l < self.target_refresh@.len() ==> tb[l] == #[trigger] self.target_refresh@[l]); }»
            prog.inp[idx].fill(v «, Tracked(mem)»);
«            proof {
                assert forall|j: int| 0 <= j < prog.inp@.len() implies mem.m[(#[trigger] prog.inp@[j]).ptr()] == (if j == idx { flat(v) } else { mb[s0.prog.inp@[j].ptr()] }) by {
                    assert(prog.inp@[j] == s0.prog.inp@[j]);
                    if j < idx { assert(s0.prog.inp@[j].ptr() != s0.prog.inp@[idx as int].ptr()); } else if idx < j { assert(s0.prog.inp@[idx as int].ptr() != s0.prog.inp@[j].ptr()); }
                }
                assert forall|j: int| 0 <= j < prog.inp@.len() && !moved(self.smoothers@, j) && !refreshed(self.target_refresh@, j) implies mem.m[(#[trigger] prog.inp@[j]).ptr()] =~= flat(prog.params@[j]) by {
                    if j != idx {
                        assert(!refreshed(tb, j)) by { if refreshed(tb, j) { let l = choose|l: int| 0 <= l < tb.len() && (#[trigger] tb[l]).0 == j; assert(self.target_refresh@[l] == tb[l]); } }
                        assert(mb[s0.prog.inp@[j].ptr()] =~= flat(s0.prog.params@[j]));
                    }
                }
            }»
        }
«        let ghost m1 = mem.m;
        proof { assert forall|i: int| 0 <= i < s0.prog.inp@.len() && !moved(sm0, i) implies m1[(#[trigger] s0.prog.inp@[i]).ptr()] =~= flat(s0.prog.params@[i]) by { assert(prog.inp@[i] == s0.prog.inp@[i]); assert(!refreshed(self.target_refresh@, i)); } }»

        let sm_n = self.smoothers.len(); let mut sm_i: usize = 0;
        «#[verifier::loop_isolation(false)]»
        while sm_i < sm_n
«            invariant s0 == *old(self), s0.wf(old(mem).m), sm0 == s0.smoothers@, sm_n == sm0.len(), self.smoothers@.len() == sm0.len(), 1 <= nframes <= 128, sm_i <= sm_n,
                prog.inp@ =~= s0.prog.inp@, prog.params@.len() == s0.prog.params@.len(), prog.modops == s0.prog.modops,
                forall|k: int| 0 <= k < sm0.len() ==> #[trigger] self.smoothers@[k] == (if k < sm_i { after(sm0[k], nframes as int) } else { sm0[k] }),
                forall|i: int| 0 <= i < prog.inp@.len() ==> mem.m[(#[trigger] prog.inp@[i]).ptr()].len() == 128,
                forall|k: int, i: int| k < sm_i && #[trigger] moving(sm0, k, i) ==> shows(prog.params@[i], mem.m[s0.prog.inp@[i].ptr()], sm0[k].1, nframes as int) && refreshed(self.target_refresh@, i),
                forall|i: int| 0 <= i < s0.prog.inp@.len() && !moved_in(sm0, sm_i as int, i) ==> #[trigger] kept(prog.params@, s0.prog.params@, mem.m, m1, s0.prog.inp@, i),
                forall|l: int| 0 <= l < self.target_refresh@.len() ==> (#[trigger] self.target_refresh@[l]).0 < prog.inp@.len() && self.target_refresh@[l].1 == prog.params@[self.target_refresh@[l].0 as int]
                    && exists|k: int| k < sm_i && #[trigger] moving(sm0, k, self.target_refresh@[l].0 as int)
            decreases sm_n - sm_i»
        {
            let sm_c = sm_i; sm_i = sm_i + 1; let sm_e = &mut self.smoothers[sm_c]; if sm_e.1.is_done() { «proof { assert forall|i: int| #[trigger] moved_in(sm0, sm_c as int, i) implies moved_in(sm0, sm_i as int, i) by { } }» continue; } let idx = &mut sm_e.0; let smoother = &mut sm_e.1;
«            let ghost gi = *idx as int; let ghost gs = *smoother; let ghost m2 = mem.m; let ghost pb = s0.prog.inp@[gi]; let ghost p2 = prog.params@; let ghost t2 = self.target_refresh@;
            proof { assert(sm0[sm_c as int].0 == gi); assert(moving(sm0, sm_c as int, gi)); assert forall|k: int| k < sm_c implies !#[trigger] moving(sm0, k, gi) by { if moving(sm0, k, gi) { assert(sm0[k].0 != sm0[sm_c as int].0); } } assert(prog.inp@[gi] == pb); }»
            let inp = &mut prog.inp[*idx];
            let mut last_v = 0.0;

            for frame in 0..nframes
«                invariant *idx == gi, *inp == pb, nframes <= 128, *smoother == steps(gs, frame as int), m2[pb.ptr()].len() == 128, ramped(m2, mem.m, pb.ptr(), gs, frame as int), frame > 0 ==> last_v == ramp(gs, frame - 1)»
            {
                let v = smoother.next();

                inp.write(frame, v «, Tracked(mem)»);
                last_v = v;
            }

            prog.params[*idx] = last_v;
            self.target_refresh.push((*idx, last_v));
«            proof {
                let tr = self.target_refresh@;
                assert(tr[tr.len() - 1] == (gi as usize, last_v)); assert(refreshed(tr, gi));
                assert forall|j: int| 0 <= j < prog.inp@.len() && j != gi implies mem.m[(#[trigger] s0.prog.inp@[j]).ptr()] == m2[s0.prog.inp@[j].ptr()] by {
                    if j < gi { assert(s0.prog.inp@[j].ptr() != s0.prog.inp@[gi].ptr()); } else { assert(s0.prog.inp@[gi].ptr() != s0.prog.inp@[j].ptr()); }
                }
                assert forall|j: int| #[trigger] refreshed(t2, j) implies refreshed(tr, j) by { let l = choose|l: int| 0 <= l < t2.len() && (#[trigger] t2[l]).0 == j; assert(tr[l] == t2[l]); }
                assert forall|k: int, i: int| k < sm_i && #[trigger] moving(sm0, k, i) implies shows(prog.params@[i], mem.m[s0.prog.inp@[i].ptr()], sm0[k].1, nframes as int) && refreshed(tr, i) by {
                    if k == sm_c { } else { assert(moving(sm0, sm_c as int, gi)); assert(sm0[k].0 != sm0[sm_c as int].0); assert(refreshed(t2, i)); assert(mem.m[s0.prog.inp@[i].ptr()] == m2[s0.prog.inp@[i].ptr()]); }
                }
                assert forall|l: int| 0 <= l < tr.len() implies (#[trigger] tr[l]).0 < prog.inp@.len() && tr[l].1 == prog.params@[tr[l].0 as int] && exists|k: int| k < sm_i && #[trigger] moving(sm0, k, tr[l].0 as int) by {
                    if l < t2.len() { assert(tr[l] == t2[l]); let k = choose|k: int| k < sm_c && #[trigger] moving(sm0, k, t2[l].0 as int); assert(moving(sm0, k, tr[l].0 as int)); assert(t2[l].0 != gi); }
                    else { assert(moving(sm0, sm_c as int, tr[l].0 as int)); }
                }
                assert forall|i: int| 0 <= i < s0.prog.inp@.len() && !moved_in(sm0, sm_i as int, i) implies #[trigger] kept(prog.params@, s0.prog.params@, mem.m, m1, s0.prog.inp@, i) by {
                    assert(!moving(sm0, sm_c as int, i)); assert(i != gi);
                    assert(!moved_in(sm0, sm_c as int, i));
                    assert(kept(p2, s0.prog.params@, m2, m1, s0.prog.inp@, i));
                    assert(mem.m[s0.prog.inp@[i].ptr()] == m2[s0.prog.inp@[i].ptr()]);
                }
            }»
        }
«        proof {
            assert forall|k: int| 0 <= k < sm0.len() implies (#[trigger] self.smoothers@[k]).0 == sm0[k].0 && (sm0[k].1.done ==> self.smoothers@[k].1.done) by { }
            assert forall|i: int| 0 <= i < prog.inp@.len() && !moved(self.smoothers@, i) && !refreshed(self.target_refresh@, i) implies mem.m[(#[trigger] prog.inp@[i]).ptr()] =~= flat(prog.params@[i]) by {
                assert(prog.inp@[i] == s0.prog.inp@[i]);
                assert(!moved_in(sm0, sm_i as int, i)); assert(kept(prog.params@, s0.prog.params@, mem.m, m1, s0.prog.inp@, i));
                assert(!moved(sm0, i));
                assert(m1[s0.prog.inp@[i].ptr()] =~= flat(s0.prog.params@[i]));
            }
            assert forall|i: int| 0 <= i < s0.prog.inp@.len() && !moved(sm0, i) implies #[trigger] rests(prog.params@, mem.m, s0.prog.params@, s0.prog.inp@, i) by {
                assert(!moved_in(sm0, sm_i as int, i)); assert(kept(prog.params@, s0.prog.params@, mem.m, m1, s0.prog.inp@, i));
            }
        }»
    }
    ⟦end⟧
    pub open spec fn heading(&self, o: &NodeExecutor, m: Map<int, Seq<f32>>, om: Map<int, Seq<f32>>, i: int, v: f32) -> bool {
        // a smoother starts at the present value
        ||| (exists|k: int| moving(self.smoothers@, k, i) && (#[trigger] self.smoothers@[k]).1 == set_s(o.smoothers@[k].1, o.prog.params@[i], v) && self.prog.params@[i] == o.prog.params@[i] && m == om)
        // all are in use
        ||| ((forall|k: int| 0 <= k < o.smoothers@.len() ==> !(#[trigger] o.smoothers@[k]).1.done && o.smoothers@[k].0 != i) && self.prog.params@[i] == v && m[o.prog.inp@[i].ptr()] == flat(v))
    }
}
/// a smoother after a block
pub open spec fn after(x: (usize, Smoother), n: int) -> (usize, Smoother) { if x.1.done { x } else { (x.0, steps(x.1, n)) } }
/// the buffer of an input shows the next n values of the ramp, the parameter is the last of them
pub open spec fn shows(p: f32, b: Seq<f32>, s: Smoother, n: int) -> bool { p == ramp(s, n - 1) && forall|f: int| 0 <= f < n ==> #[trigger] b[f] == ramp(s, f) }
pub open spec fn ramped(m: Map<int, Seq<f32>>, r: Map<int, Seq<f32>>, p: int, s: Smoother, n: int) -> bool {
    &&& r[p].len() == 128 && forall|f: int| 0 <= f < n ==> #[trigger] r[p][f] == ramp(s, f)
    &&& forall|q: int| q != p ==> #[trigger] r[q] == m[q]
}
/// the ramp goes straight to the target: it takes exactly the length of the ramp, and is then exactly the target
pub proof fn lemma_ramp(s: Smoother, c: f32, t: f32, k: int)
    requires 0 <= k
    ensures ({ let r = set_s(s, c, t); let x = steps(r, k);
        &&& x.target == t && x.inc == r.inc && x.slope_samples == s.slope_samples
        &&& k <= s.slope_samples ==> x.count == s.slope_samples - k && !x.done
        &&& k < s.slope_samples ==> ramp(r, k) == x.value.add_spec(r.inc)
        &&& k >= s.slope_samples ==> x.count == 0 && ramp(r, k) == t && (k > s.slope_samples ==> x.done)
        &&& k == 0 ==> x.value == c
        &&& 0 < k <= s.slope_samples ==> x.value == ramp(r, k - 1) })
    decreases k
{ if k > 0 { lemma_ramp(s, c, t, k - 1); } }
/// blocks of a and then b frames are as one of a + b
pub proof fn lemma_steps(s: Smoother, a: int, b: int)
    requires 0 <= a, 0 <= b ensures steps(steps(s, a), b) == steps(s, a + b), ramp(steps(s, a), b) == ramp(s, a + b) decreases b
{ if b > 0 { lemma_steps(s, a, b - 1); } }
pub proof fn lemma_same_moves(a: Seq<(usize, Smoother)>, b: Seq<(usize, Smoother)>, x: int, i: int)
    requires a.len() == b.len(), 0 <= x < a.len(), forall|k: int| 0 <= k < a.len() && k != x ==> #[trigger] b[k] == a[k], moving(a, x, i) || a[x].1.done, moving(b, x, i)
    ensures forall|k: int, j: int| j != i ==> #[trigger] moving(b, k, j) == moving(a, k, j), forall|j: int| j != i ==> #[trigger] moved(b, j) == moved(a, j), moved(b, i)
{
    assert forall|j: int| j != i implies #[trigger] moved(b, j) == moved(a, j) by {
        if moved(a, j) { let k = choose|k: int| moving(a, k, j); assert(moving(b, k, j)); }
        if moved(b, j) { let k = choose|k: int| moving(b, k, j); assert(moving(a, k, j)); }
    }
}
}
fn main() {}
