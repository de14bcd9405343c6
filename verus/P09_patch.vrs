⟦file src/dsp/tracker/pattern.rs⟧
use vstd::prelude::*;
use vstd::std_specs::ops::*;
verus! {
// ---- floating point operations: total, otherwise uninterpreted (trusted)
pub mod fx { use super::*;
pub broadcast axiom fn ax_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b), <f32 as MulSpec<f32>>::obeys_mul_spec();
pub broadcast axiom fn ax_add(a: f32, b: f32) ensures #[trigger] a.add_req(b), <f32 as AddSpec<f32>>::obeys_add_spec();
pub broadcast axiom fn ax_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b), <f32 as SubSpec<f32>>::obeys_sub_spec();
pub broadcast axiom fn ax_div(a: f32, b: f32) ensures #[trigger] a.div_req(b), <f32 as DivSpec<f32>>::obeys_div_spec();
pub broadcast group f32_total { ax_mul, ax_add, ax_sub, ax_div }
}
broadcast use {fx::f32_total, vstd::std_specs::vec::group_vec_axioms};
pub uninterp spec fn s_bits(v: u32) -> f32;
pub uninterp spec fn s_clamp(v: f32, lo: f32, hi: f32) -> f32;
pub assume_specification [f32::from_bits] (v: u32) -> (r: f32) ensures r == s_bits(v);
pub assume_specification [f32::clamp] (v: f32, lo: f32, hi: f32) -> (r: f32) ensures r == s_clamp(v, lo, hi);
pub assume_specification<'a, T: core::marker::Copy> [core::option::Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == match o { Some(x) => Some(*x), None => None };
pub trait ToF32: Sized { spec fn f(self) -> f32; fn to_f32(self) -> (r: f32) ensures r == self.f(); }
pub uninterp spec fn f_usize(v: usize) -> f32;
pub uninterp spec fn f_u16(v: u16) -> f32;
pub uninterp spec fn f_i32(v: i32) -> f32;
impl ToF32 for usize { open spec fn f(self) -> f32 { f_usize(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
impl ToF32 for u16 { open spec fn f(self) -> f32 { f_u16(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
impl ToF32 for i32 { open spec fn f(self) -> f32 { f_i32(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

pub const MAX_COLS: usize = 6;
pub const MAX_PATTERN_LEN: usize = 256;
#[derive(Clone, Copy, PartialEq, Structural)]
⟦struct PatternColType of src/dsp/tracker/mod.rs⟧
⟦struct PatternRepr of src/matrix_repr.rs⟧
⟦struct PatternData⟧

impl PatternData {
pub open spec fn wf(&self) -> bool {
    &&& self.data@.len() == 256 && self.strings@.len() == 256 && self.out_data@.len() == 6 && self.rows <= 256
    &&& forall|r: int| 0 <= r < 256 ==> (#[trigger] self.data@[r])@.len() == 6
    &&& forall|r: int| 0 <= r < 256 ==> (#[trigger] self.strings@[r])@.len() == 6
}
pub open spec fn cell(&self, r: int, c: int) -> Option<u16> { self.data@[r]@[c] }
⟦fn PatternData::modified_col⟧
    fn modified_col(&mut self, col: usize)
«     ensures final(self).data == old(self).data, final(self).strings == old(self).strings, final(self).out_data == old(self).out_data, final(self).col_types == old(self).col_types,»
«       final(self).rows == old(self).rows, final(self).cursor == old(self).cursor, final(self).edit_step == old(self).edit_step, final(self).generation == old(self).generation,»
«       final(self).dirty_col@ == if col < 6 { old(self).dirty_col@.update(col as int, true) } else { old(self).dirty_col@ }»
    {
        if let Some(bit) = self.dirty_col.get_mut(col) {
            *bit = true;
        }
    }
⟦end⟧
⟦fn PatternData::new⟧
    fn new(rows: usize) -> «(r:» Self
«)    requires rows <= 256»
«     ensures r.wf(), r.rows == rows, forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] r.cell(i, j) is None,»
«       forall|j: int| 0 <= j < 6 ==> r.col_types@[j] == PatternColType::Value && r.dirty_col@[j]»
    {
        Self {
            col_types: [PatternColType::Value; MAX_COLS],
            data: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
            out_data: vec![[(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
            strings: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
            cursor: (2, 2),
            edit_step: 4,
            dirty_col: [true; MAX_COLS],
            generation: 0,
            rows,
        }
    }
⟦end⟧
⟦fn PatternData::is_unset⟧
    fn is_unset(&self) -> «(ret:» bool
«)    requires self.wf()»
«     ensures ret == (self.rows == 256 && (forall|j: int| 0 <= j < 6 ==> self.col_types@[j] == PatternColType::Value) && (forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] self.cell(i, j) is None))»
    {
        if self.rows != self.data.len() {
            return false;
        }

        for ct in «it1:» self.col_types.iter()
«         invariant it1.seq().len() == 6, forall|k: int| 0 <= k < 6 ==> *#[trigger] it1.seq()[k] == self.col_types@[k], forall|k: int| 0 <= k < it1.index@ ==> self.col_types@[k] == PatternColType::Value»
        {
            if *ct != PatternColType::Value {
«               assert(self.col_types@[it1.index@] != PatternColType::Value);»
                return false;
            }
        }

        for rows in «it2:» self.data.iter()
«         invariant self.wf(), it2.seq().len() == 256, forall|k: int| 0 <= k < 256 ==> *#[trigger] it2.seq()[k] == self.data@[k], forall|j: int| 0 <= j < 6 ==> self.col_types@[j] == PatternColType::Value,»
«           forall|i: int, j: int| 0 <= i < it2.index@ && 0 <= j < 6 ==> #[trigger] self.cell(i, j) is None»
        {
            for col in «it3:» rows.iter()
«             invariant self.wf(), it2.seq().len() == 256, 0 <= it2.index@ < 256, *rows == self.data@[it2.index@], it3.seq().len() == 6, forall|k: int| 0 <= k < 6 ==> *#[trigger] it3.seq()[k] == rows@[k],»
«               forall|j: int| 0 <= j < it3.index@ ==> #[trigger] self.cell(it2.index@, j) is None»
            {
                if col.is_some() {
«                   assert(self.cell(it2.index@, it3.index@) is Some);»
                    return false;
                }
            }
        }

        true
    }
⟦end⟧
⟦fn PatternData::to_repr⟧
    fn to_repr(&self) -> «(ret:» PatternRepr
«)    requires self.wf()»
«     ensures ret.data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] ret.data@[i])@.len() == 6,»
«       forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] ret.data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 }),»
«       forall|j: int| 0 <= j < 6 ==> Self::type_of(#[trigger] ret.col_types@[j]) == self.col_types@[j],»
«       ret.rows == self.rows, ret.edit_step == self.edit_step, ret.cursor == self.cursor»
    {
        let mut col_types = [0; MAX_COLS];
        for i in 0 .. self.col_types.len()
«         invariant forall|j: int| 0 <= j < i ==> Self::type_of(#[trigger] col_types@[j]) == self.col_types@[j]»
        {
            let ct = &self.col_types[i];
            col_types[i] = match ct {
                PatternColType::Value => 0,
                PatternColType::Note => 1,
                PatternColType::Step => 2,
                PatternColType::Gate => 3,
            };
        }

        let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
        for row_idx in 0 .. self.data.len()
«         invariant self.wf(), data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] data@[i])@.len() == 6,»
«           forall|i: int, j: int| 0 <= i < row_idx && 0 <= j < 6 ==> #[trigger] data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 })»
        {
            let row = &self.data[row_idx];
            for col_idx in 0 .. row.len()
«             invariant self.wf(), 0 <= row_idx < 256, *row == self.data@[row_idx as int], data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] data@[i])@.len() == 6,»
«               forall|i: int, j: int| 0 <= i < row_idx && 0 <= j < 6 ==> #[trigger] data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 }),»
«               forall|j: int| 0 <= j < col_idx ==> #[trigger] data@[row_idx as int]@[j] == (match self.cell(row_idx as int, j) { Some(v) => v as i32, None => -1i32 })»
            {
                let cell = &row[col_idx];
                data[row_idx][col_idx] = if let Some(c) = cell { *c as i32 } else { -1 };
            }
        }

        PatternRepr {
            col_types,
            data,
            rows: self.rows,
            edit_step: self.edit_step,
            cursor: self.cursor,
        }
    }
⟦end⟧
⟦fn PatternData::from_repr⟧
    fn from_repr(&mut self, repr: &PatternRepr)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).loaded(old(self), repr)»
    {
        for i in 0 .. repr.col_types.len()
«         invariant self.wf(), self.data == old(self).data, self.generation == old(self).generation,»
«           forall|j: int| 0 <= j < i ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < i ==> #[trigger] self.dirty_col@[j]»
        {
            let ct = &repr.col_types[i];
            self.col_types[i] = match *ct {
                0 => PatternColType::Value,
                1 => PatternColType::Note,
                2 => PatternColType::Step,
                3 => PatternColType::Gate,
                _ => PatternColType::Value,
            };

            self.modified_col(i);
        }

        for row_idx in 0 .. umin(MAX_PATTERN_LEN, repr.data.len())
«         invariant self.wf(), self.generation == old(self).generation, old(self).wf(),»
«           forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j],»
«           forall|r: int, c: int| 0 <= r < row_idx && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), old(self), repr, r, c),»
«           forall|r: int, c: int| row_idx <= r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == old(self).cell(r, c)»
        {
            let row = &repr.data[row_idx];
            for col_idx in 0 .. umin(MAX_COLS, row.len())
«             invariant self.wf(), self.generation == old(self).generation, old(self).wf(), row_idx < 256, row_idx < repr.data@.len(), *row == repr.data@[row_idx as int],»
«               forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j],»
«               forall|r: int, c: int| 0 <= r < row_idx && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), old(self), repr, r, c),»
«               forall|c: int| 0 <= c < col_idx ==> Self::loads(#[trigger] self.cell(row_idx as int, c), old(self), repr, row_idx as int, c),»
«               forall|c: int| col_idx <= c < 6 ==> #[trigger] self.cell(row_idx as int, c) == old(self).cell(row_idx as int, c),»
«               forall|r: int, c: int| row_idx < r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == old(self).cell(r, c)»
            {
                let cell = &row[col_idx];
«               let ghost pre = *self;»
                self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
                self.strings[row_idx][col_idx] = None;
«               assert(Self::loads(self.cell(row_idx as int, col_idx as int), old(self), repr, row_idx as int, col_idx as int));»
«               assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 && !(r == row_idx && c == col_idx) ==> #[trigger] self.cell(r, c) == pre.cell(r, c));»
            }
        }

«       let ghost mid = *self;»
«       assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> Self::loads(#[trigger] mid.cell(r, c), old(self), repr, r, c));»
        self.rows = repr.rows.min(self.data.len());
        self.edit_step = repr.edit_step;
        self.cursor = repr.cursor;
        self.generation += 1;
«       assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == mid.cell(r, c));»
    }
⟦end⟧
/// What a saved pattern says about a cell.
pub open spec fn loads(x: Option<u16>, o: &PatternData, p: &PatternRepr, r: int, c: int) -> bool {
    if r < p.data@.len() && c < p.data@[r]@.len() {
        let v = p.data@[r]@[c];
        if v < 0 { x is None } else { x is Some && (v <= 65535 ==> x->0 == v) }
    } else { x == o.cell(r, c) }
}
pub open spec fn type_of(t: u8) -> PatternColType {
    if t == 1 { PatternColType::Note } else if t == 2 { PatternColType::Step } else if t == 3 { PatternColType::Gate } else { PatternColType::Value }
}
pub open spec fn loaded(&self, o: &PatternData, p: &PatternRepr) -> bool {
    &&& forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), o, p, r, c)
    &&& forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(p.col_types@[j])
    &&& forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j]
    &&& self.rows == (if p.rows < 256 { p.rows } else { 256 }) && self.cursor == p.cursor && self.edit_step == p.edit_step && self.generation != o.generation
}
/// Saving a pattern and loading it into any other one gives the same pattern.
pub fn round_trip(a: &PatternData, b: &mut PatternData)
    requires a.wf(), old(b).wf(), old(b).generation < usize::MAX
    ensures final(b).wf(), forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> #[trigger] final(b).cell(r, c) == a.cell(r, c),
        final(b).col_types@ == a.col_types@, final(b).rows == a.rows, final(b).cursor == a.cursor, final(b).edit_step == a.edit_step
{
    let p = a.to_repr();
    b.from_repr(&p);
    proof {
        assert forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 implies #[trigger] b.cell(r, c) == a.cell(r, c) by {
            assert(p.data@[r]@[c] == (match a.cell(r, c) { Some(v) => v as i32, None => -1i32 }));
        }
        assert forall|j: int| 0 <= j < 6 implies b.col_types@[j] == a.col_types@[j] by { assert(Self::type_of(p.col_types@[j]) == a.col_types@[j]); }
        assert(b.col_types@ =~= a.col_types@);
    }
}

}

// ---- cells
⟦struct Cell of src/matrix.rs⟧
⟦struct CellRepr of src/matrix_repr.rs⟧
pub open spec fn saved(p: Option<u8>) -> i16 { match p { Some(v) => v as i16, None => -1i16 } }
pub open spec fn port(i: i16) -> Option<u8> { if i < 0 { None } else { Some(i as u8) } }
impl Cell {
⟦fn Cell::to_repr of src/matrix.rs⟧
    fn to_repr(&self) -> «(ret:» CellRepr
«)    ensures ret.node_id == self.node_id, ret.x == self.x, ret.y == self.y,»
«       ret.out@ == seq![saved(self.out1), saved(self.out2), saved(self.out3)], ret.inp@ == seq![saved(self.in1), saved(self.in2), saved(self.in3)]»
    {
        «let r =» CellRepr {
            node_id: self.node_id,
            x: self.x as usize,
            y: self.y as usize,
            out: [
                self.out1.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
                self.out2.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
                self.out3.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
            ],
            inp: [
                self.in1.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
                self.in2.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
                self.in3.map(|v| «-> (z: i16) ensures z == v as i16 {» v as i16 «}»).unwrap_or(-1),
            ],
        }
«       ; assert(r.out@ =~= seq![saved(self.out1), saved(self.out2), saved(self.out3)]);»
«       assert(r.inp@ =~= seq![saved(self.in1), saved(self.in2), saved(self.in3)]); r»
    }
⟦end⟧
⟦fn Cell::from_repr of src/matrix.rs⟧
    fn from_repr(repr: &CellRepr) -> «(ret:» Self
«)    ensures ret.node_id == repr.node_id, repr.x <= 255 ==> ret.x == repr.x, repr.y <= 255 ==> ret.y == repr.y,»
«       ret.out1 == port(repr.out@[0]), ret.out2 == port(repr.out@[1]), ret.out3 == port(repr.out@[2]),»
«       ret.in1 == port(repr.inp@[0]), ret.in2 == port(repr.inp@[1]), ret.in3 == port(repr.inp@[2])»
    {
        Self {
            node_id: repr.node_id,
            x: repr.x as u8,
            y: repr.y as u8,
            out1: if repr.out[0] < 0 { None } else { Some(repr.out[0] as u8) },
            out2: if repr.out[1] < 0 { None } else { Some(repr.out[1] as u8) },
            out3: if repr.out[2] < 0 { None } else { Some(repr.out[2] as u8) },
            in1: if repr.inp[0] < 0 { None } else { Some(repr.inp[0] as u8) },
            in2: if repr.inp[1] < 0 { None } else { Some(repr.inp[1] as u8) },
            in3: if repr.inp[2] < 0 { None } else { Some(repr.inp[2] as u8) },
        }
    }
⟦end⟧
}
/// The saved form of a cell is that cell.
pub fn cell_round_trip(c: &Cell) -> (d: Cell) ensures d == *c {
    let r = c.to_repr();
    let d = Cell::from_repr(&r);
    assert(forall|v: u8| #[trigger] (v as i16) as u8 == v) by(bit_vector);
    d
}
fn main() {}
}
