⟦file src/scope_handle.rs⟧
⟦PRELUDE⟧
pub const SCOPE_SAMPLES: usize = ⟦SAMPLES⟧;
pub exec const NEG99999: f32 ensures NEG99999 == neg99999() { unlow() }
#[verifier::external_body] pub const NEG1: f32 = -1.0;
pub uninterp spec fn neg99999() -> f32;
#[verifier::external_body]
pub const fn unlow() -> (r: f32) ensures r == neg99999() { -99999.0 }
pub uninterp spec fn f2us(x: f32) -> usize;
pub uninterp spec fn us2f(x: usize) -> f32;
pub trait CastUs { fn to_usize(self) -> (r: usize); }
impl CastUs for f32 { #[verifier::external_body] fn to_usize(self) -> (r: usize) ensures r == f2us(self) { unimplemented!() } }
impl CastF32 for usize { #[verifier::external_body] fn to_f32(self) -> (r: f32) ensures r == us2f(self) { unimplemented!() } }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }
pub fn arc_new(x: ScopeHandle) -> (r: ScopeHandle) ensures r == x { x }
pub mod cells {
use super::*;
/// the contents of all shared cells
pub tracked struct Mem { pub ghost pairs: Map<int, (f32, f32)>, pub ghost floats: Map<int, f32>, pub ghost bools: Map<int, bool> }
#[verifier::external_body]
pub struct AtomicFloatPair { p: u64 }
#[verifier::external_body]
pub struct AtomicFloat { p: u64 }
#[verifier::external_body]
pub struct AtomicBool { p: u64 }
impl AtomicFloatPair {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn default(Tracked(mem): Tracked<&mut Mem>) -> (r: Self)
        ensures !old(mem).pairs.dom().contains(r.id()), final(mem).pairs == old(mem).pairs.insert(r.id(), (0.0f32, 0.0f32)), final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: (f32, f32), Tracked(mem): Tracked<&mut Mem>)
        ensures final(mem).pairs == old(mem).pairs.insert(self.id(), v), final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, Tracked(mem): Tracked<&Mem>) -> (r: (f32, f32)) ensures r == mem.pairs[self.id()] { unimplemented!() }
}
impl AtomicFloat {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn default(Tracked(mem): Tracked<&mut Mem>) -> (r: Self)
        ensures !old(mem).floats.dom().contains(r.id()), final(mem).floats == old(mem).floats.insert(r.id(), 0.0f32), final(mem).pairs == old(mem).pairs, final(mem).bools == old(mem).bools
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, v: f32, Tracked(mem): Tracked<&mut Mem>)
        ensures final(mem).floats == old(mem).floats.insert(self.id(), v), final(mem).pairs == old(mem).pairs, final(mem).bools == old(mem).bools
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, Tracked(mem): Tracked<&Mem>) -> (r: f32) ensures r == mem.floats[self.id()] { unimplemented!() }
}
impl AtomicBool {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(b: bool, Tracked(mem): Tracked<&mut Mem>) -> (r: Self)
        ensures !old(mem).bools.dom().contains(r.id()), final(mem).bools == old(mem).bools.insert(r.id(), b), final(mem).pairs == old(mem).pairs, final(mem).floats == old(mem).floats
    { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: bool, Tracked(mem): Tracked<&mut Mem>)
        ensures final(mem).bools == old(mem).bools.insert(self.id(), v), final(mem).pairs == old(mem).pairs, final(mem).floats == old(mem).floats
    { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, Tracked(mem): Tracked<&Mem>) -> (r: bool) ensures r == mem.bools[self.id()] { unimplemented!() }
}
pub open spec fn fresh_pairs(v: Seq<AtomicFloatPair>, a: Map<int, (f32, f32)>, b: Map<int, (f32, f32)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> !a.dom().contains(#[trigger] v[i].id()) && b.dom().contains(v[i].id()) && b[v[i].id()] == (0.0f32, 0.0f32)
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && #[trigger] v[i].id() == #[trigger] v[j].id() ==> i == j
    &&& forall|k: int| #[trigger] a.dom().contains(k) ==> b.dom().contains(k) && b[k] == a[k]
}
pub trait ResizePairs { fn resize_pairs(&mut self, n: usize, Tracked(mem): Tracked<&mut Mem>); }
impl ResizePairs for Vec<AtomicFloatPair> {
    /// resize_with(n, || AtomicFloatPair::default()) of an empty vector
    #[verifier::external_body]
    fn resize_pairs(&mut self, n: usize, Tracked(mem): Tracked<&mut Mem>)
        ensures old(self)@.len() == 0 ==> final(self)@.len() == n && fresh_pairs(final(self)@, old(mem).pairs, final(mem).pairs),
            final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools
    { unimplemented!() }
}
}
pub use cells::*;

⟦struct ScopeHandle⟧
pub open spec fn cell_of(h: &ScopeHandle, k: int) -> int {
    if k < 3 * SCOPE_SAMPLES { h.bufs@[k / SCOPE_SAMPLES as int]@[k % SCOPE_SAMPLES as int].id() } else { h.offs_gain@[k - 3 * SCOPE_SAMPLES].id() }
}
impl ScopeHandle {
    pub open spec fn pair(&self, b: int, i: int) -> int { self.bufs@[b]@[i].id() }
    /// all cells are different ones
    pub open spec fn wf(&self) -> bool {
        &&& forall|b: int| 0 <= b < 3 ==> #[trigger] self.bufs@[b]@.len() == SCOPE_SAMPLES
        &&& forall|b: int, i: int, c: int, j: int| 0 <= b < 3 && 0 <= c < 3 && 0 <= i < SCOPE_SAMPLES && 0 <= j < SCOPE_SAMPLES && #[trigger] self.pair(b, i) == #[trigger] self.pair(c, j) ==> b == c && i == j
        &&& forall|b: int, i: int, c: int| 0 <= b < 3 && 0 <= c < 3 && 0 <= i < SCOPE_SAMPLES ==> #[trigger] self.pair(b, i) != #[trigger] self.offs_gain@[c].id()
        &&& forall|b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && #[trigger] self.offs_gain@[b].id() == #[trigger] self.offs_gain@[c].id() ==> b == c
        &&& forall|b: int, c: int| 0 <= b < 3 && 0 <= c < 3 && #[trigger] self.active@[b].id() == #[trigger] self.active@[c].id() ==> b == c
        &&& forall|b: int| 0 <= b < 3 ==> #[trigger] self.active@[b].id() != self.threshold.0.id()
    }
    /// what the display shows for the three signals
    pub open spec fn shown(&self, m: &Mem) -> Seq<Seq<(f32, f32)>> {
        Seq::new(3, |b: int| Seq::new(SCOPE_SAMPLES as nat, |i: int| m.pairs[self.pair(b, i)]))
    }
    pub open spec fn gains(&self, m: &Mem) -> Seq<(f32, f32)> { Seq::new(3, |b: int| m.pairs[self.offs_gain@[b].id()]) }
    pub open spec fn actives(&self, m: &Mem) -> Seq<bool> { Seq::new(3, |b: int| m.bools[self.active@[b].id()]) }
    pub open spec fn thresh(&self, m: &Mem) -> Option<f32> {
        if m.bools[self.threshold.0.id()] { Some(m.floats[self.threshold.1.id()]) } else { None }
    }
    ⟦fn ScopeHandle::new_shared⟧
    fn new_shared(«Tracked(mem): Tracked<&mut Mem>») -> «(r:» Self «)»
«    ensures r.wf(), forall|b: int, i: int| 0 <= b < 3 && 0 <= i < SCOPE_SAMPLES ==> (#[trigger] r.shown(final(mem))[b][i]) == (0.0f32, 0.0f32),
            r.gains(final(mem)) =~= seq![(0.0f32, 0.0f32), (0.0f32, 0.0f32), (0.0f32, 0.0f32)], r.actives(final(mem)) =~= seq![false, false, false], r.thresh(final(mem)) == None::<f32>,
            // no cell that existed before
            forall|b: int, i: int| 0 <= b < 3 && 0 <= i < SCOPE_SAMPLES ==> !old(mem).pairs.dom().contains(#[trigger] r.pair(b, i))»
    {
«        let ghost m0 = mem.pairs;»
        let mut v1 = Vec::<AtomicFloatPair>::new();
        v1.resize_pairs(SCOPE_SAMPLES «, Tracked(mem)»);
«        let ghost m1 = mem.pairs;»
        let mut v2 = Vec::<AtomicFloatPair>::new();
        v2.resize_pairs(SCOPE_SAMPLES «, Tracked(mem)»);
«        let ghost m2 = mem.pairs;»
        let mut v3 = Vec::<AtomicFloatPair>::new();
        v3.resize_pairs(SCOPE_SAMPLES «, Tracked(mem)»);
«        let ghost m3 = mem.pairs;»
        arc_new(Self {
            bufs: [v1, v2, v3],
            active: [AtomicBool::new(false «, Tracked(mem)»), AtomicBool::new(false «, Tracked(mem)»), AtomicBool::new(false «, Tracked(mem)»)],
            offs_gain: [
                AtomicFloatPair::default(«Tracked(mem)»),
                AtomicFloatPair::default(«Tracked(mem)»),
                AtomicFloatPair::default(«Tracked(mem)»),
            ],
            threshold: (AtomicBool::new(false «, Tracked(mem)»), AtomicFloat::default(«Tracked(mem)»)),
        })
    }
    ⟦end⟧
    ⟦fn ScopeHandle::write_oversampled⟧
    fn write_oversampled(&self, buf_idx: usize, idx: usize, copies: usize, v: f32 «, Tracked(mem): Tracked<&mut Mem>»)
«    requires self.wf(), idx + copies <= usize::MAX
        ensures self.shown(final(mem)) =~~= filled(self.shown(old(mem)), (buf_idx % 3) as int, idx as int, copies as int, v),
            self.gains(final(mem)) =~= self.gains(old(mem)), final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools»
    {
«        let ghost s0 = self.shown(mem); let ghost g0 = self.gains(mem); let ghost f0 = mem.floats; let ghost b0 = mem.bools;»
        let end = (idx + copies).min(SCOPE_SAMPLES);
        for i in idx..end
«            invariant self.wf(), end <= SCOPE_SAMPLES, s0.len() == 3, forall|b: int| 0 <= b < 3 ==> #[trigger] s0[b].len() == SCOPE_SAMPLES, mem.floats == f0, mem.bools == b0, self.gains(mem) =~= g0, 
                self.shown(mem) =~~= filled(s0, (buf_idx % 3) as int, idx as int, i - idx, v)»
        {
«            let ghost sa = self.shown(mem); let ghost p0 = mem.pairs;»
            self.bufs[buf_idx % 3][i % SCOPE_SAMPLES].set((v, v) «, Tracked(mem)»);
«            proof {
                let b1 = (buf_idx % 3) as int;
                assert(i % SCOPE_SAMPLES == i);
                assert(self.pair(b1, i as int) == self.bufs@[b1]@[i as int].id());
                assert forall|b: int, k: int| 0 <= b < 3 && 0 <= k < SCOPE_SAMPLES implies #[trigger] self.shown(mem)[b][k] == (if b == b1 && k == i { (v, v) } else { sa[b][k] }) by {
                    assert(self.shown(mem)[b][k] == mem.pairs[self.pair(b, k)]);
                }
                assert forall|c: int| 0 <= c < 3 implies #[trigger] self.gains(mem)[c] == g0[c] by { assert(self.pair(b1, i as int) != self.offs_gain@[c].id()); }
                let want = filled(s0, b1, idx as int, i + 1 - idx, v);
                assert forall|b: int, k: int| 0 <= b < 3 && 0 <= k < SCOPE_SAMPLES implies #[trigger] self.shown(mem)[b][k] == want[b][k] by {
                    assert(sa[b][k] == filled(s0, b1, idx as int, i - idx, v)[b][k]);
                    assert(s0[b].len() == SCOPE_SAMPLES);
                }
                assert forall|b: int| 0 <= b < 3 implies #[trigger] self.shown(mem)[b] =~= want[b] by { }
                assert(self.shown(mem) =~= want);
            }»
        }
    }
    ⟦end⟧
    ⟦fn ScopeHandle::set_offs_gain⟧
    fn set_offs_gain(&self, buf_idx: usize, offs: f32, gain: f32 «, Tracked(mem): Tracked<&mut Mem>»)
«    requires self.wf()
        ensures self.gains(final(mem)) =~= self.gains(old(mem)).update((buf_idx % 3) as int, (offs, gain)),
            self.shown(final(mem)) =~~= self.shown(old(mem)), final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools»
    {
        self.offs_gain[buf_idx % 3].set((offs, gain) «, Tracked(mem)»);
    }
    ⟦end⟧
    ⟦fn ScopeHandle::get_offs_gain⟧
    fn get_offs_gain(&self, buf_idx: usize «, Tracked(mem): Tracked<&Mem>») -> «(r:» (f32, f32) «)»
«    ensures r == self.gains(mem)[(buf_idx % 3) as int]»
    {
        self.offs_gain[buf_idx % 3].get(«Tracked(mem)»)
    }
    ⟦end⟧
    ⟦fn ScopeHandle::set_threshold⟧
    fn set_threshold(&self, thresh: Option<f32> «, Tracked(mem): Tracked<&mut Mem>»)
«    requires self.wf()
        ensures self.thresh(final(mem)) == thresh, final(mem).pairs == old(mem).pairs, self.actives(final(mem)) =~= self.actives(old(mem))»
    {
        if let Some(t) = thresh {
            self.threshold.1.set(t «, Tracked(mem)»);
            self.threshold.0.store(true «, Tracked(mem)»);
        } else {
            self.threshold.0.store(false «, Tracked(mem)»);
        }
    }
    ⟦end⟧
    ⟦fn ScopeHandle::get_threshold⟧
    fn get_threshold(&self «, Tracked(mem): Tracked<&Mem>») -> «(r:» Option<f32> «)»
«    ensures r == self.thresh(mem)»
    {
        if self.threshold.0.load(«Tracked(mem)») {
            Some(self.threshold.1.get(«Tracked(mem)»))
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn ScopeHandle::write⟧
    fn write(&self, buf_idx: usize, idx: usize, v: (f32, f32) «, Tracked(mem): Tracked<&mut Mem>»)
«    requires self.wf()
        ensures self.shown(final(mem)) =~~= point(self.shown(old(mem)), (buf_idx % 3) as int, (idx % SCOPE_SAMPLES) as int, v),
            self.gains(final(mem)) =~= self.gains(old(mem)), final(mem).floats == old(mem).floats, final(mem).bools == old(mem).bools»
    {
        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].set(v «, Tracked(mem)»);
«        proof {
            let (b1, i) = ((buf_idx % 3) as int, (idx % SCOPE_SAMPLES) as int);
            assert(self.pair(b1, i as int) == self.bufs@[b1]@[i as int].id());
            assert forall|b: int, k: int| 0 <= b < 3 && 0 <= k < SCOPE_SAMPLES implies #[trigger] self.shown(mem)[b][k] == (if b == b1 && k == i { v } else { self.shown(old(mem))[b][k] }) by {
                assert(self.shown(mem)[b][k] == mem.pairs[self.pair(b, k)]);
            }
            assert forall|c: int| 0 <= c < 3 implies #[trigger] self.gains(mem)[c] == self.gains(old(mem))[c] by { assert(self.pair(b1, i as int) != self.offs_gain@[c].id()); }
        }»
    }
    ⟦end⟧
    ⟦fn ScopeHandle::read⟧
    fn read(&self, buf_idx: usize, idx: usize «, Tracked(mem): Tracked<&Mem>») -> «(r:» (f32, f32) «)»
«    requires self.wf()
        ensures r == self.shown(mem)[(buf_idx % 3) as int][(idx % SCOPE_SAMPLES) as int]»
    {
«        proof { assert(self.pair((buf_idx % 3) as int, (idx % SCOPE_SAMPLES) as int) == self.bufs@[(buf_idx % 3) as int]@[(idx % SCOPE_SAMPLES) as int].id()); }»
        self.bufs[buf_idx % 3][idx % SCOPE_SAMPLES].get(«Tracked(mem)»)
    }
    ⟦end⟧
    ⟦fn ScopeHandle::set_active_from_mask⟧
    fn set_active_from_mask(&self, mask: u64 «, Tracked(mem): Tracked<&mut Mem>»)
«    requires self.wf()
        ensures self.actives(final(mem)) =~= seq![mask & 1 > 0, mask & 2 > 0, mask & 4 > 0], final(mem).pairs == old(mem).pairs, self.thresh(final(mem)) == self.thresh(old(mem))»
    {
        self.active[0].store(mask & 0x1 > 0x0 «, Tracked(mem)»);
        self.active[1].store(mask & 0x2 > 0x0 «, Tracked(mem)»);
        self.active[2].store(mask & 0x4 > 0x0 «, Tracked(mem)»);
    }
    ⟦end⟧
    ⟦fn ScopeHandle::is_active⟧
    fn is_active(&self, idx: usize «, Tracked(mem): Tracked<&Mem>») -> «(r:» bool «)»
«    ensures r == self.actives(mem)[(idx % 3) as int]»
    {
        self.active[idx % 3].load(«Tracked(mem)»)
    }
    ⟦end⟧
    ⟦fn ScopeHandle::len⟧
    fn len(&self) -> «(r:» usize «)» «ensures r == SCOPE_SAMPLES»
    {
        SCOPE_SAMPLES
    }
    ⟦end⟧
}
pub open spec fn point(s: Seq<Seq<(f32, f32)>>, b: int, i: int, v: (f32, f32)) -> Seq<Seq<(f32, f32)>> { s.update(b, s[b].update(i, v)) }
/// `copies` points from idx on hold v, as far as the display goes
pub open spec fn filled(s: Seq<Seq<(f32, f32)>>, b: int, idx: int, copies: int, v: f32) -> Seq<Seq<(f32, f32)>> {
    s.update(b, Seq::new(s[b].len(), |i: int| if idx <= i < idx + copies { (v, v) } else { s[b][i] }))
}

/// trigger with thresholds (synfx-dsp)
#[verifier::external_body]
pub struct CustomTrigger { p: bool }
impl CustomTrigger {
    pub uninterp spec fn hit(self, v: f32) -> bool;
    pub uninterp spec fn after(self, v: f32) -> CustomTrigger;
    pub uninterp spec fn with(self, lo: f32, hi: f32) -> CustomTrigger;
    #[verifier::external_body]
    pub fn check_trigger(&mut self, v: f32) -> (r: bool) ensures r == old(self).hit(v), *final(self) == old(self).after(v) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_threshold(&mut self, lo: f32, hi: f32) ensures *final(self) == old(self).with(lo, hi) { unimplemented!() }
}
⟦struct Scope of src/dsp/node_scope.rs⟧
/// the state of the recording
pub ghost struct Rec { pub idx: int, pub ft: f32, pub mm: Seq<(f32, f32)>, pub trig: CustomTrigger, pub shown: Seq<Seq<(f32, f32)>> }
pub open spec fn empty_mm() -> Seq<(f32, f32)> { seq![(neg99999(), 99999.0f32), (neg99999(), 99999.0f32), (neg99999(), 99999.0f32)] }
pub open spec fn fill3(s: Seq<Seq<(f32, f32)>>, idx: int, c: int, v: spec_fn(int) -> f32) -> Seq<Seq<(f32, f32)>> {
    filled(filled(filled(s, 0, idx, c, v(0)), 1, idx, c, v(1)), 2, idx, c, v(2))
}
/// one frame: every sample fills c points
pub open spec fn over_step(r: Rec, c: int, off: bool, v: spec_fn(int) -> f32, t: f32) -> Rec {
    let r1 = if r.idx < SCOPE_SAMPLES { Rec { shown: fill3(r.shown, r.idx, c, v), idx: r.idx + c, ..r } } else { r };
    if r1.idx < SCOPE_SAMPLES { r1 }
    else if off { Rec { ft: 0.0f32, idx: 0, ..r1 } }
    else if r1.trig.hit(t) { Rec { trig: r1.trig.after(t), ft: 0.0f32, idx: 0, ..r1 } }
    else { Rec { trig: r1.trig.after(t), ..r1 } }
}
pub open spec fn mm_with(m: Seq<(f32, f32)>, v: spec_fn(int) -> f32) -> Seq<(f32, f32)> {
    Seq::new(3, |k: int| (fmax(m[k].0, v(k)), fmin(m[k].1, v(k))))
}
pub open spec fn show3(s: Seq<Seq<(f32, f32)>>, idx: int, m: Seq<(f32, f32)>) -> Seq<Seq<(f32, f32)>> {
    point(point(point(s, 0, idx, m[0]), 1, idx, m[1]), 2, idx, m[2])
}
pub open spec fn fge(a: f32, b: f32) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Greater) || a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Equal) }
/// one frame: a point is the maximum and minimum of the samples of a run
pub open spec fn run_step(r: Rec, len: f32, st: f32, off: bool, v: spec_fn(int) -> f32, t: f32) -> Rec {
    let r1 = if r.idx < SCOPE_SAMPLES {
        let m = mm_with(r.mm, v);
        if fge(r.ft, len) { Rec { shown: show3(r.shown, r.idx, m), mm: empty_mm(), idx: r.idx + 1, ft: r.ft.sub_spec(len).add_spec(st), ..r } }
        else { Rec { mm: m, ft: r.ft.add_spec(st), ..r } }
    } else { r };
    if r1.idx < SCOPE_SAMPLES { r1 }
    else if r1.trig.hit(t) { Rec { trig: r1.trig.after(t), mm: empty_mm(), ft: 0.0f32, idx: 0, ..r1 } }
    else if off { Rec { trig: r1.trig.after(t), mm: empty_mm(), idx: 0, ..r1 } }
    else { Rec { trig: r1.trig.after(t), ..r1 } }
}
pub open spec fn sig_at(i: Seq<ProcBuf>, f: int) -> spec_fn(int) -> f32 { |k: int| i[k]@[f] }
pub open spec fn over_n(r: Rec, c: int, off: bool, i: Seq<ProcBuf>, t: Seq<f32>, n: int) -> Rec decreases n {
    if n <= 0 { r } else { over_step(over_n(r, c, off, i, t, n - 1), c, off, sig_at(i, n - 1), t[n - 1]) }
}
pub open spec fn run_n(r: Rec, len: f32, st: f32, off: bool, i: Seq<ProcBuf>, t: Seq<f32>, n: int) -> Rec decreases n {
    if n <= 0 { r } else { run_step(run_n(r, len, st, off, i, t, n - 1), len, st, off, sig_at(i, n - 1), t[n - 1]) }
}
pub open spec fn one_f() -> f32 { 1.0f32 }
pub open spec fn time_of(i: Seq<ProcBuf>) -> f32 { fclamp(denorm_v::Scope::time_s(i[3]@[0]), 0.1f32, 1000.0f32.mul_spec(300.0f32)) }
pub open spec fn spb_of(i: Seq<ProcBuf>, srate: f32) -> f32 { time_of(i).mul_spec(srate).div_spec(us2f(SCOPE_SAMPLES)) }
pub open spec fn copies_of(i: Seq<ProcBuf>, srate: f32) -> int {
    let c = f2us(1.0f32.div_spec(spb_of(i, srate)));
    if c < SCOPE_SAMPLES { c as int } else { SCOPE_SAMPLES as int }
}
/// the recording after n frames of a block
pub open spec fn recorded(r: Rec, srate: f32, tsrc: i64, i: Seq<ProcBuf>, n: int) -> Rec {
    let thr = denorm_v::Scope::thrsh_s(i[5]@[0]);
    let r0 = Rec { trig: r.trig.with(thr, thr.add_spec(0.0001f32)), ..r };
    let t = if tsrc == 2 { i[4]@ } else { i[0]@ };
    if lt(spb_of(i, srate), 1.0f32) { over_n(r0, copies_of(i, srate), tsrc == 0, i, t, n) }
    else { run_n(r0, time_of(i).div_spec(us2f(SCOPE_SAMPLES)), 1.0f32.div_spec(srate), tsrc == 0, i, t, n) }
}
impl Scope {
    pub open spec fn rec(&self, m: &Mem) -> Rec { Rec { idx: self.idx as int, ft: self.frame_time, mm: self.cur_mm@, trig: self.trig, shown: self.handle.shown(m) } }
    pub open spec fn wf(&self) -> bool { self.handle.wf() && self.idx < 2 * SCOPE_SAMPLES }
⟦fn DspNode@Scope::process of src/dsp/node_scope.rs⟧
    fn process(
        &mut self,
        ctx: &mut NodeCtx,
        _ectx: &mut NodeExecContext,
        nctx: &NodeContext,
        atoms: &[SAtom],
        inputs: &[ProcBuf],
        _outputs: &mut [ProcBuf],
        ctx_vals: LedPhaseVals,
        «Tracked(mem): Tracked<&mut Mem>»
    )
«        requires frames_ok(old(ctx)), inputs@.len() == 12, atoms@.len() == 1, old(self).wf()
        ensures final(_outputs)@ == old(_outputs)@, final(ctx).outs() == old(ctx).outs(), final(self).wf(), final(self).handle == old(self).handle, final(self).srate_ms == old(self).srate_ms,
            final(self).rec(final(mem)) == recorded(old(self).rec(old(mem)), old(self).srate_ms, atoms@[0].iv(), inputs@, old(ctx).nf() as int),
            final(self).handle.actives(final(mem)) =~= seq![nctx.in_connected & 1 > 0, nctx.in_connected & 2 > 0, nctx.in_connected & 4 > 0],
            final(self).handle.gains(final(mem)) =~= seq![
                (denorm_v::Scope::off1_s(inputs@[6]@[0]), denorm_v::Scope::gain1_s(inputs@[9]@[0])),
                (denorm_v::Scope::off2_s(inputs@[7]@[0]), denorm_v::Scope::gain2_s(inputs@[10]@[0])),
                (denorm_v::Scope::off3_s(inputs@[8]@[0]), denorm_v::Scope::gain3_s(inputs@[11]@[0]))],
            final(self).handle.thresh(final(mem)) == (if atoms@[0].iv() == 0 { None } else { Some(denorm_v::Scope::thrsh_s(inputs@[5]@[0])) })
»    {
        let in1 = inp::Scope::in1(inputs);
        let in2 = inp::Scope::in2(inputs);
        let in3 = inp::Scope::in3(inputs);
        let time = inp::Scope::time(inputs);
        let thrsh = inp::Scope::thrsh(inputs);
        let trig = inp::Scope::trig(inputs);
        let tsrc = at::Scope::tsrc(atoms);
        let input_bufs = [in1, in2, in3];
«        let ghost h = self.handle; let ghost nf = ctx.nf(); let ghost outs0 = ctx.outs(); let ghost srate = self.srate_ms; let ghost shown0 = self.handle.shown(mem);»

        self.handle.set_active_from_mask(nctx.in_connected «, Tracked(mem)»);
        self.handle.set_offs_gain(
            0,
            denorm::Scope::off1(inp::Scope::off1(inputs), 0),
            denorm::Scope::gain1(inp::Scope::gain1(inputs), 0), «Tracked(mem)»
        );
        self.handle.set_offs_gain(
            1,
            denorm::Scope::off2(inp::Scope::off2(inputs), 0),
            denorm::Scope::gain2(inp::Scope::gain2(inputs), 0), «Tracked(mem)»
        );
        self.handle.set_offs_gain(
            2,
            denorm::Scope::off3(inp::Scope::off3(inputs), 0),
            denorm::Scope::gain3(inp::Scope::gain3(inputs), 0), «Tracked(mem)»
        );

        let time = denorm::Scope::time(time, 0).clamp(0.1, 1000.0 * 300.0);
        let samples_per_block = (time * self.srate_ms) / SCOPE_SAMPLES.to_f32();
        let time_per_block = time / SCOPE_SAMPLES.to_f32();
        let sample_time = 1.0 / self.srate_ms;
        let threshold = denorm::Scope::thrsh(thrsh, 0);

        self.trig.set_threshold(threshold, threshold + 0.0001);

        let trigger_input = if tsrc.i() == 2 { trig } else { in1 };
        let trigger_disabled = tsrc.i() == 0;

        self.handle.set_threshold(if trigger_disabled { None } else { Some(threshold) } «, Tracked(mem)»);
«        let ghost r0 = self.rec(mem); let ghost acts = h.actives(mem); let ghost gns = h.gains(mem); let ghost thr = h.thresh(mem);
        proof { assert(h.shown(mem) =~~= shown0); }»

        if samples_per_block < 1.0 {
            let copy_count = ((1.0 / samples_per_block).to_usize()).min(SCOPE_SAMPLES);

            let frames_end = ctx.nframes();
            for frame in 0..frames_end
«                invariant nf == ctx.nf(), frames_end == nf, nf <= 128, ctx.outs() == outs0, self.handle == h, self.wf(), self.srate_ms == srate, copy_count <= SCOPE_SAMPLES, inputs@.len() == 12,
                    input_bufs@ =~= seq![in1, in2, in3], *in1 == inputs@[0], *in2 == inputs@[1], *in3 == inputs@[2],
                    self.rec(mem) == over_n(r0, copy_count as int, trigger_disabled, inputs@, trigger_input@, frame as int),
                    h.actives(mem) =~= acts, h.gains(mem) =~= gns, h.thresh(mem) == thr»
            {
«                let ghost ra = self.rec(mem); let ghost v = sig_at(inputs@, frame as int);»
                if self.idx < SCOPE_SAMPLES {
                    for i in 0..input_bufs.len()
«                        invariant self.handle == h, self.wf(), self.idx < SCOPE_SAMPLES, copy_count <= SCOPE_SAMPLES, frame < 128, inputs@.len() == 12, input_bufs@.len() == 3,
                            self.srate_ms == srate, self.idx == ra.idx, self.frame_time == ra.ft, self.cur_mm@ == ra.mm, self.trig == ra.trig,
                            input_bufs@ =~= seq![in1, in2, in3], *in1 == inputs@[0], *in2 == inputs@[1], *in3 == inputs@[2], v == sig_at(inputs@, frame as int),
                            h.shown(mem) =~~= (if i == 0 { ra.shown } else if i == 1 { filled(ra.shown, 0, ra.idx, copy_count as int, v(0)) }
                                else if i == 2 { filled(filled(ra.shown, 0, ra.idx, copy_count as int, v(0)), 1, ra.idx, copy_count as int, v(1)) } else { fill3(ra.shown, ra.idx, copy_count as int, v) }),
                            h.actives(mem) =~= acts, h.gains(mem) =~= gns, h.thresh(mem) == thr»
                    {
                        let input = &input_bufs[i];
                        let in_val = input.read(frame);
                        self.handle.write_oversampled(i, self.idx, copy_count, in_val «, Tracked(mem)»);
                    }

                    self.idx = self.idx.saturating_add(copy_count);
                }

                if self.idx >= SCOPE_SAMPLES
                    && (trigger_disabled || self.trig.check_trigger(trigger_input.read(frame)))
                {
                    self.frame_time = 0.0;
                    self.idx = 0;
                }
            }
        } else {
            let cur_mm = &mut self.cur_mm;

            let frames_end = ctx.nframes();
            for frame in 0..frames_end
«                invariant nf == ctx.nf(), frames_end == nf, nf <= 128, ctx.outs() == outs0, self.handle == h, h.wf(), self.idx < 2 * SCOPE_SAMPLES, self.srate_ms == srate, inputs@.len() == 12,
                    input_bufs@ =~= seq![in1, in2, in3], *in1 == inputs@[0], *in2 == inputs@[1], *in3 == inputs@[2],
                    (Rec { idx: self.idx as int, ft: self.frame_time, mm: cur_mm@, trig: self.trig, shown: h.shown(mem) }) == run_n(r0, time_per_block, sample_time, trigger_disabled, inputs@, trigger_input@, frame as int),
                    h.actives(mem) =~= acts, h.gains(mem) =~= gns, h.thresh(mem) == thr»
            {
«                let ghost ra = Rec { idx: self.idx as int, ft: self.frame_time, mm: cur_mm@, trig: self.trig, shown: h.shown(mem) }; let ghost v = sig_at(inputs@, frame as int);»
                if self.idx < SCOPE_SAMPLES {
                    for i in 0..input_bufs.len()
«                        invariant input_bufs@.len() == 3, input_bufs@ =~= seq![in1, in2, in3], *in1 == inputs@[0], *in2 == inputs@[1], *in3 == inputs@[2], v == sig_at(inputs@, frame as int), frame < 128, inputs@.len() == 12,
                            cur_mm@.len() == 3, forall|k: int| 0 <= k < 3 ==> #[trigger] cur_mm@[k] == (if k < i { mm_with(ra.mm, v)[k] } else { ra.mm[k] })»
                    {
                        let input = &input_bufs[i];
                        let in_val = input.read(frame);
                        cur_mm[i].0 = cur_mm[i].0.max(in_val);
                        cur_mm[i].1 = cur_mm[i].1.min(in_val);
                    }

«                    proof { assert(cur_mm@ =~= mm_with(ra.mm, v)); }»
                    if self.frame_time >= time_per_block {
                        for i in 0..umin(input_bufs.len(), cur_mm.len())
«                            invariant input_bufs@.len() == 3, cur_mm@ =~= mm_with(ra.mm, v), self.handle == h, h.wf(), self.idx < SCOPE_SAMPLES, self.idx == ra.idx,
                                h.shown(mem) =~~= (if i == 0 { ra.shown } else if i == 1 { point(ra.shown, 0, ra.idx, cur_mm@[0]) } else if i == 2 { point(point(ra.shown, 0, ra.idx, cur_mm@[0]), 1, ra.idx, cur_mm@[1]) } else { show3(ra.shown, ra.idx, cur_mm@) }),
                                h.actives(mem) =~= acts, h.gains(mem) =~= gns, h.thresh(mem) == thr»
                        {
                            let cur_mm = &cur_mm[i];
                            self.handle.write(i, self.idx, *cur_mm «, Tracked(mem)»);
                        }
«                        proof { assert(cur_mm@ =~= mm_with(ra.mm, v)); assert(h.shown(mem) =~= show3(ra.shown, ra.idx, mm_with(ra.mm, v))); }»
                        *cur_mm = [(NEG99999, 99999.0); 3];
«                        proof { assert(cur_mm@ =~= empty_mm()); }»
                        self.idx = self.idx.saturating_add(1);
                        self.frame_time = self.frame_time - (time_per_block);
                    }

                    self.frame_time = self.frame_time + (sample_time);
                }

                if self.idx >= SCOPE_SAMPLES {
                    if self.trig.check_trigger(trigger_input.read(frame)) {
                        *cur_mm = [(NEG99999, 99999.0); 3];
«                        proof { assert(cur_mm@ =~= empty_mm()); }»
                        self.frame_time = 0.0;
                        self.idx = 0;
                    } else if trigger_disabled {
                        *cur_mm = [(NEG99999, 99999.0); 3];
«                        proof { assert(cur_mm@ =~= empty_mm()); }»
                        self.idx = 0;
                    }
                }
            }
        }

        let last_frame = ctx.nframes() - 1;
        ctx_vals.led(0,
            (in1.read(last_frame) + in2.read(last_frame) + in3.read(last_frame)).clamp(NEG1, 1.0),
        );
    }
⟦end⟧
}

/// k frames and then n more are k + n frames: the recording does not depend on the block sizes
/// (as long as the controls, which are read once per block, stay the same)
pub proof fn lemma_over_blocks(r: Rec, c: int, off: bool, i: Seq<ProcBuf>, j: Seq<ProcBuf>, t: Seq<f32>, u: Seq<f32>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= 128, shifted(i, j, k), i.len() == 12, forall|x: int| 0 <= x && k + x < 128 ==> #[trigger] u[x] == t[k + x]
    ensures over_n(over_n(r, c, off, i, t, k), c, off, j, u, n) == over_n(r, c, off, i, t, k + n)
    decreases n
{
    if n > 0 {
        lemma_over_blocks(r, c, off, i, j, t, u, k, n - 1);
        let p = over_n(r, c, off, i, t, k + n - 1);
        assert(sig_at(j, n - 1)(0) == sig_at(i, k + n - 1)(0) && sig_at(j, n - 1)(1) == sig_at(i, k + n - 1)(1) && sig_at(j, n - 1)(2) == sig_at(i, k + n - 1)(2)) by {
            assert(j[0]@[n - 1] == i[0]@[k + (n - 1)]); assert(j[1]@[n - 1] == i[1]@[k + (n - 1)]); assert(j[2]@[n - 1] == i[2]@[k + (n - 1)]);
        }
        assert(u[n - 1] == t[k + (n - 1)]);
    }
}
pub proof fn lemma_run_blocks(r: Rec, len: f32, st: f32, off: bool, i: Seq<ProcBuf>, j: Seq<ProcBuf>, t: Seq<f32>, u: Seq<f32>, k: int, n: int)
    requires 0 <= k, 0 <= n, k + n <= 128, shifted(i, j, k), i.len() == 12, forall|x: int| 0 <= x && k + x < 128 ==> #[trigger] u[x] == t[k + x]
    ensures run_n(run_n(r, len, st, off, i, t, k), len, st, off, j, u, n) == run_n(r, len, st, off, i, t, k + n)
    decreases n
{
    if n > 0 {
        lemma_run_blocks(r, len, st, off, i, j, t, u, k, n - 1);
        let p = run_n(r, len, st, off, i, t, k + n - 1);
        assert(mm_with(p.mm, sig_at(j, n - 1)) =~= mm_with(p.mm, sig_at(i, k + n - 1))) by {
            assert(j[0]@[n - 1] == i[0]@[k + (n - 1)]); assert(j[1]@[n - 1] == i[1]@[k + (n - 1)]); assert(j[2]@[n - 1] == i[2]@[k + (n - 1)]);
        }
        assert(u[n - 1] == t[k + (n - 1)]);
    }
}
/// maximum and minimum of the samples a..b of signal s
pub open spec fn run_max(x: Seq<f32>, a: int, b: int) -> f32 decreases b - a { if b <= a { neg99999() } else { fmax(run_max(x, a, b - 1), x[b - 1]) } }
pub open spec fn run_min(x: Seq<f32>, a: int, b: int) -> f32 decreases b - a { if b <= a { 99999.0f32 } else { fmin(run_min(x, a, b - 1), x[b - 1]) } }
pub open spec fn mm_is(m: Seq<(f32, f32)>, i: Seq<ProcBuf>, a: int, b: int) -> bool {
    m.len() == 3 && forall|s: int| 0 <= s < 3 ==> #[trigger] m[s] == (run_max(i[s]@, a, b), run_min(i[s]@, a, b))
}
/// a point shows the maximum and minimum of exactly the samples since the previous point, and changes no other point
pub proof fn lemma_point_is_run(r: Rec, len: f32, st: f32, off: bool, i: Seq<ProcBuf>, t: Seq<f32>, a: int, b: int)
    requires 0 <= a <= b < 128, i.len() == 12,
        ({ let p = run_n(r, len, st, off, i, t, b); mm_is(p.mm, i, a, b) && p.idx < SCOPE_SAMPLES && 0 <= p.idx && p.shown.len() == 3 && forall|s: int| 0 <= s < 3 ==> #[trigger] p.shown[s].len() == SCOPE_SAMPLES })
    ensures ({
        let (p, q) = (run_n(r, len, st, off, i, t, b), run_n(r, len, st, off, i, t, b + 1));
        if fge(p.ft, len) {
            &&& mm_is(q.mm, i, b + 1, b + 1)
            &&& q.idx == p.idx + 1 || (q.idx == 0 && p.idx + 1 == SCOPE_SAMPLES)
            &&& forall|s: int, k: int| 0 <= s < 3 && 0 <= k < SCOPE_SAMPLES ==> #[trigger] q.shown[s][k] == (if k == p.idx { (run_max(i[s]@, a, b + 1), run_min(i[s]@, a, b + 1)) } else { p.shown[s][k] })
        } else { q.idx == p.idx && q.shown == p.shown && mm_is(q.mm, i, a, b + 1) }
    })
{
    let p = run_n(r, len, st, off, i, t, b);
    let m = mm_with(p.mm, sig_at(i, b));
    assert forall|s: int| 0 <= s < 3 implies #[trigger] m[s] == (run_max(i[s]@, a, b + 1), run_min(i[s]@, a, b + 1)) by {
        assert(p.mm[s] == (run_max(i[s]@, a, b), run_min(i[s]@, a, b)));
    }
    assert(mm_is(m, i, a, b + 1));
    assert(run_n(r, len, st, off, i, t, b + 1) == run_step(p, len, st, off, sig_at(i, b), t[b]));
}
/// every position of the display reads what was recorded there, signals and positions never mix
pub fn read_back(h: &ScopeHandle, b: usize, i: usize, v: (f32, f32), c: usize, j: usize, Tracked(mem): Tracked<&mut Mem>) -> (r: (f32, f32))
    requires h.wf(), b < 3, c < 3, i < SCOPE_SAMPLES, j < SCOPE_SAMPLES
    ensures r == (if b == c && i == j { v } else { h.shown(old(mem))[c as int][j as int] })
{
    h.write(b, i, v, Tracked(mem));
    h.read(c, j, Tracked(mem))
}
}
fn main() {}
