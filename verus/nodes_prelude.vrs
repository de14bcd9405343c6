use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
pub mod fx {
    use super::*;
    // f32 arithmetic: total, and a function of its operands (which one is left open)
    pub broadcast axiom fn add_ok(a: f32, b: f32) ensures #[trigger] a.add_req(b);
    pub broadcast axiom fn sub_ok(a: f32, b: f32) ensures #[trigger] a.sub_req(b);
    pub broadcast axiom fn mul_ok(a: f32, b: f32) ensures #[trigger] a.mul_req(b);
    pub broadcast axiom fn div_ok(a: f32, b: f32) ensures #[trigger] a.div_req(b);
    pub broadcast axiom fn add_fn() ensures #[trigger] <f32 as AddSpec>::obeys_add_spec();
    pub broadcast axiom fn sub_fn() ensures #[trigger] <f32 as SubSpec>::obeys_sub_spec();
    pub broadcast axiom fn mul_fn() ensures #[trigger] <f32 as MulSpec>::obeys_mul_spec();
    pub broadcast axiom fn div_fn() ensures #[trigger] <f32 as DivSpec>::obeys_div_spec();
    pub broadcast axiom fn cmp_fn() ensures #[trigger] <f32 as PartialOrdSpec>::obeys_partial_cmp_spec();
    pub broadcast axiom fn buf_len(b: ProcBuf) ensures #[trigger] b@.len() == 128;
    pub broadcast group g { add_ok, sub_ok, mul_ok, div_ok, add_fn, sub_fn, mul_fn, div_fn, cmp_fn, buf_len }
}

pub mod env {
use super::*;
pub const F32_EPSILON: f32 = 1.1920929E-7f32;
pub uninterp spec fn fclamp(x: f32, a: f32, b: f32) -> f32;
pub uninterp spec fn fmax(x: f32, a: f32) -> f32;
pub uninterp spec fn fmin(x: f32, a: f32) -> f32;
pub uninterp spec fn fabs(x: f32) -> f32;
pub uninterp spec fn ffloor(x: f32) -> f32;
pub assume_specification [f32::clamp] (x: f32, a: f32, b: f32) -> (r: f32) ensures r == fclamp(x, a, b);
pub assume_specification [f32::max] (x: f32, a: f32) -> (r: f32) ensures r == fmax(x, a);
pub assume_specification [f32::min] (x: f32, a: f32) -> (r: f32) ensures r == fmin(x, a);
pub assume_specification [f32::abs] (x: f32) -> (r: f32) ensures r == fabs(x);
pub uninterp spec fn fceil(x: f32) -> f32;
pub assume_specification [f32::ceil] (x: f32) -> (r: f32) ensures r == fceil(x);
pub assume_specification [f32::floor] (x: f32) -> (r: f32) ensures r == ffloor(x);
pub open spec fn lt(a: f32, b: f32) -> bool { a.partial_cmp_spec(&b) == Some(core::cmp::Ordering::Less) }
pub uninterp spec fn f2u8(x: f32) -> u8;
pub uninterp spec fn u82f(x: u8) -> f32;
pub trait CastU8 { fn to_u8(self) -> (r: u8); }
impl CastU8 for f32 { #[verifier::external_body] fn to_u8(self) -> (r: u8) ensures r == f2u8(self) { unimplemented!() } }
pub uninterp spec fn f2d(x: f32) -> f64;
pub uninterp spec fn d2f(x: f64) -> f32;
pub trait CastF64 { fn to_f64(self) -> (r: f64); }
impl CastF64 for f32 { #[verifier::external_body] fn to_f64(self) -> (r: f64) ensures r == f2d(self) { unimplemented!() } }
impl CastF32 for f64 { #[verifier::external_body] fn to_f32(self) -> (r: f32) ensures r == d2f(self) { unimplemented!() } }
pub trait CastF32 { fn to_f32(self) -> (r: f32); }
impl CastF32 for f32 { fn to_f32(self) -> (r: f32) ensures r == self { self } }
impl CastF32 for u8 { #[verifier::external_body] fn to_f32(self) -> (r: f32) ensures r == u82f(self) { unimplemented!() } }

/// a buffer of 128 frames
#[verifier::external_body]
pub struct ProcBuf { p: *mut f32 }
impl View for ProcBuf { type V = Seq<f32>; uninterp spec fn view(&self) -> Seq<f32>; }
impl ProcBuf {
    #[verifier::external_body]
    pub fn read(&self, idx: usize) -> (r: f32)
        requires idx < 128
        ensures r == self@[idx as int]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write(&mut self, idx: usize, v: f32)
        requires idx < 128
        ensures final(self)@ == old(self)@.update(idx as int, v)
    { unimplemented!() }
}
#[verifier::external_body]
pub fn split_bufs(b: &mut [ProcBuf], n: usize) -> (r: (&mut [ProcBuf], &mut [ProcBuf]))
    requires n <= old(b)@.len()
    ensures r.0@ == old(b)@.subrange(0, n as int), r.1@ == old(b)@.subrange(n as int, old(b)@.len() as int),
        final(b)@ == final(r.0)@ + final(r.1)@, final(r.0)@.len() == r.0@.len(), final(r.1)@.len() == r.1@.len()
{ unimplemented!() }

#[verifier::external_body]
pub struct SAtom { p: i64 }
impl SAtom {
    pub uninterp spec fn iv(&self) -> i64;
    #[verifier::external_body]
    pub fn i(&self) -> (r: i64) ensures r == self.iv() { unimplemented!() }
}
#[verifier::external_body]
pub struct NodeExecContext { p: i64 }
#[verifier::external_body]
pub struct LedPhaseVals { p: i64 }
impl LedPhaseVals {
    #[verifier::external_body]
    pub fn led(&self, k: usize, v: f32) { unimplemented!() }
}
/// trigger detector of synfx-dsp: what it does is a function of its state and its input
#[verifier::external_body]
pub struct Trigger { p: bool }
impl Trigger {
    pub uninterp spec fn hit(self, v: f32) -> bool;
    pub uninterp spec fn after(self, v: f32) -> Trigger;
    #[verifier::external_body]
    pub fn check_trigger(&mut self, v: f32) -> (r: bool) ensures r == old(self).hit(v), *final(self) == old(self).after(v) { unimplemented!() }
}
pub struct NodeContext { pub in_connected: u64, pub out_connected: u64 }
/// the audio driver: the block size, what it delivers and what it got
#[verifier::external_body]
pub struct NodeCtx { p: i64 }
impl NodeCtx {
    pub uninterp spec fn nf(&self) -> usize;
    pub uninterp spec fn ins(&self) -> spec_fn(int, int) -> f32;
    pub uninterp spec fn outs(&self) -> vstd::map::Map<(int, int), f32>;
    #[verifier::external_body]
    pub fn nframes(&self) -> (r: usize) ensures r == self.nf() { unimplemented!() }
    #[verifier::external_body]
    pub fn output(&mut self, channel: usize, frame: usize, v: f32)
        ensures final(self).nf() == old(self).nf(), final(self).ins() == old(self).ins(),
            final(self).outs() == old(self).outs().insert((channel as int, frame as int), v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn input(&mut self, channel: usize, frame: usize) -> (r: f32)
        ensures *final(self) == *old(self), r == (old(self).ins())(channel as int, frame as int)
    { unimplemented!() }
}

}
pub use env::*;
broadcast use fx::g;
⟦ACCESSORS⟧

/// the first n frames follow the law, the others are as they were
pub open spec fn done(old: Seq<f32>, new: Seq<f32>, n: int, law: spec_fn(int) -> f32) -> bool {
    &&& new.len() == old.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] new[k] == law(k)
    &&& forall|k: int| n <= k < old.len() ==> #[trigger] new[k] == old[k]
}
/// only output o changes
pub open spec fn only(old: Seq<ProcBuf>, new: Seq<ProcBuf>, o: int) -> bool {
    &&& new.len() == old.len()
    &&& forall|j: int| 0 <= j < old.len() && j != o ==> #[trigger] new[j] == old[j]
}
pub open spec fn frames_ok(c: &NodeCtx) -> bool { 1 <= c.nf() <= 128 }
/// the inputs from frame d on
pub open spec fn shifted(i: Seq<ProcBuf>, j: Seq<ProcBuf>, d: int) -> bool {
    &&& i.len() == j.len() && 0 <= d
    &&& forall|x: int, k: int| 0 <= x < i.len() && 0 <= k && d + k < 128 ==> #[trigger] j[x]@[k] == i[x]@[d + k]
}
