⟦file src/dsp/tracker/pattern.rs⟧
use vstd::prelude::*;
use vstd::std_specs::ops::*;
verus! {
// ---- floating point operations: total, otherwise uninterpreted (trusted)
pub mod fx { use super::*;
pub broadcast axiom fn ax_mul(a: f32, b: f32) ensures #[trigger] a.mul_req(b), <f32 as MulSpec<f32>>::obeys_mul_spec();
pub broadcast axiom fn ax_add(a: f32, b: f32) ensures #[trigger] a.add_req(b), <f32 as AddSpec<f32>>::obeys_add_spec();
pub broadcast axiom fn ax_sub(a: f32, b: f32) ensures #[trigger] a.sub_req(b), <f32 as SubSpec<f32>>::obeys_sub_spec();
pub broadcast axiom fn ax_div(a: f32, b: f32) ensures #[trigger] a.div_req(b), <f32 as DivSpec<f32>>::obeys_div_spec();
pub broadcast group f32_total { ax_mul, ax_add, ax_sub, ax_div }
}
broadcast use {fx::f32_total, vstd::std_specs::vec::group_vec_axioms};
pub uninterp spec fn s_bits(v: u32) -> f32;
pub uninterp spec fn s_clamp(v: f32, lo: f32, hi: f32) -> f32;
pub assume_specification [f32::from_bits] (v: u32) -> (r: f32) ensures r == s_bits(v);
pub assume_specification [f32::clamp] (v: f32, lo: f32, hi: f32) -> (r: f32) ensures r == s_clamp(v, lo, hi);
pub assume_specification<'a, T: core::marker::Copy> [core::option::Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>) ensures r == match o { Some(x) => Some(*x), None => None };
pub trait ToF32: Sized { spec fn f(self) -> f32; fn to_f32(self) -> (r: f32) ensures r == self.f(); }
pub uninterp spec fn f_usize(v: usize) -> f32;
pub uninterp spec fn f_u16(v: u16) -> f32;
pub uninterp spec fn f_i32(v: i32) -> f32;
impl ToF32 for usize { open spec fn f(self) -> f32 { f_usize(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
impl ToF32 for u16 { open spec fn f(self) -> f32 { f_u16(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
pub uninterp spec fn f_u8(v: u8) -> f32;
pub uninterp spec fn f_u32(v: u32) -> f32;
impl ToF32 for u8 { open spec fn f(self) -> f32 { f_u8(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
impl ToF32 for u32 { open spec fn f(self) -> f32 { f_u32(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
impl ToF32 for i32 { open spec fn f(self) -> f32 { f_i32(self) } #[verifier::external_body] fn to_f32(self) -> f32 { self as f32 } }
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a < b { a } else { b } { if a < b { a } else { b } }

pub const MAX_COLS: usize = 6;
pub const MAX_PATTERN_LEN: usize = 256;
#[derive(Clone, Copy, PartialEq, Structural)]
⟦struct PatternColType of src/dsp/tracker/mod.rs⟧
⟦struct PatternRepr of src/matrix_repr.rs⟧
⟦struct PatternData⟧

impl PatternData {
pub open spec fn wf(&self) -> bool {
    &&& self.data@.len() == 256 && self.strings@.len() == 256 && self.out_data@.len() == 6 && self.rows <= 256
    &&& forall|r: int| 0 <= r < 256 ==> (#[trigger] self.data@[r])@.len() == 6
    &&& forall|r: int| 0 <= r < 256 ==> (#[trigger] self.strings@[r])@.len() == 6
}
pub open spec fn cell(&self, r: int, c: int) -> Option<u16> { self.data@[r]@[c] }
pub open spec fn set(&self, r: int, c: int) -> bool { self.cell(r, c) is Some }
/// Everything but the output data is the same.
pub open spec fn same_model(&self, o: &PatternData) -> bool {
    &&& self.data == o.data && self.col_types == o.col_types && self.rows == o.rows && self.dirty_col == o.dirty_col
    &&& self.cursor == o.cursor && self.edit_step == o.edit_step && self.strings == o.strings && self.generation == o.generation
}
/// The cells are those of `o` except for the given one, and exactly its column is marked.
pub open spec fn edited(&self, o: &PatternData, row: usize, col: usize, v: Option<u16>) -> bool {
    if row < 256 && col < 6 {
        &&& forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == if r == row && c == col { v } else { o.cell(r, c) }
        &&& self.dirty_col@ == o.dirty_col@.update(col as int, true)
        &&& self.generation != o.generation
        &&& self.col_types == o.col_types && self.rows == o.rows && self.out_data == o.out_data && self.cursor == o.cursor && self.edit_step == o.edit_step
    } else {
        *self == *o
    }
}
pub open spec fn retyped(&self, o: &PatternData, col: usize, t: PatternColType) -> bool {
    if col < 6 {
        &&& self.col_types@ == o.col_types@.update(col as int, t)
        &&& self.dirty_col@ == o.dirty_col@.update(col as int, true)
        &&& self.generation != o.generation
        &&& self.data == o.data && self.rows == o.rows && self.out_data == o.out_data && self.cursor == o.cursor && self.edit_step == o.edit_step
    } else {
        *self == *o
    }
}
// ---- what the sequencer gets
pub open spec fn ctrl(v: u16) -> f32 { ((v & 0xFFF) as u16).f().div_spec(0xFFFi32.f()) }
pub open spec fn pitch(v: u16) -> f32 { ((v as i32 - 69) as i32).f().mul_spec(0.1f32).div_spec(12.0f32) }
pub open spec fn held(&self, c: int, r: int, note: bool) -> f32
    decreases r + 1
{
    if r < 0 { 0.0f32 } else {
        match self.cell(r, c) {
            Some(v) => if note { Self::pitch(v) } else { Self::ctrl(v) },
            None => self.held(c, r - 1, note),
        }
    }
}
/// The corner points of the lines of a value column.
pub open spec fn knot(&self, c: int, r: int) -> bool { 0 <= r < self.rows && (self.set(r, c) || r == 0 || r == self.rows - 1) }
pub open spec fn kv(&self, c: int, r: int) -> f32 { match self.cell(r, c) { Some(v) => Self::ctrl(v), None => 0.0f32 } }
pub open spec fn inner(&self, c: int, a: int, r: int, b: int) -> bool {
    a < r < b && self.knot(c, a) && self.knot(c, b) && forall|k: int| a < k < b ==> !self.knot(c, k)
}
pub open spec fn lerp(&self, c: int, a: int, r: int, b: int) -> f32 {
    let x = ((r - a) as usize).f().div_spec(((b - a) as usize).f());
    self.kv(c, a).mul_spec(1.0f32.sub_spec(x)).add_spec(self.kv(c, b).mul_spec(x))
}
/// The output of row r of a value column.
pub open spec fn value_row(&self, c: int, r: int, o: (f32, u8)) -> bool {
    &&& o.1 == if r == self.rows - 1 { 1u8 } else { 0u8 }
    &&& self.knot(c, r) ==> o.0 == self.kv(c, r)
    &&& forall|a: int, b: int| #[trigger] self.inner(c, a, r, b) ==> o.0 == self.lerp(c, a, r, b)
}
pub open spec fn row_out(&self, c: int, r: int, o: (f32, u8)) -> bool {
    match self.col_types@[c] {
        PatternColType::Value => self.value_row(c, r, o),
        PatternColType::Note => o.0 == s_clamp(self.held(c, r, true), -1.0f32, 1.0f32) && o.1 == if self.set(r, c) { 1u8 } else { 0u8 },
        PatternColType::Step => o.0 == self.held(c, r, false) && o.1 == if self.set(r, c) { 1u8 } else { 0u8 },
        PatternColType::Gate => match self.cell(r, c) {
            Some(v) => o == (s_bits(v as u32), 1u8),
            None => o == (s_bits(0xF000u32), 0u8),
        },
    }
}

⟦fn PatternData::modified_col⟧
    fn modified_col(&mut self, col: usize)
«     ensures final(self).data == old(self).data, final(self).strings == old(self).strings, final(self).out_data == old(self).out_data, final(self).col_types == old(self).col_types,»
«       final(self).rows == old(self).rows, final(self).cursor == old(self).cursor, final(self).edit_step == old(self).edit_step, final(self).generation == old(self).generation,»
«       final(self).dirty_col@ == if col < 6 { old(self).dirty_col@.update(col as int, true) } else { old(self).dirty_col@ }»
    {
        if let Some(bit) = self.dirty_col.get_mut(col) {
            *bit = true;
        }
    }
⟦end⟧
⟦fn PatternData::modified_all_cols⟧
    fn modified_all_cols(&mut self)
«     ensures final(self).data == old(self).data, final(self).strings == old(self).strings, final(self).out_data == old(self).out_data, final(self).col_types == old(self).col_types,»
«       final(self).rows == old(self).rows, final(self).cursor == old(self).cursor, final(self).edit_step == old(self).edit_step, final(self).generation == old(self).generation,»
«       forall|c: int| 0 <= c < 6 ==> final(self).dirty_col@[c]»
    {
        for col in 0..MAX_COLS
«         invariant self.data == old(self).data, self.strings == old(self).strings, self.out_data == old(self).out_data, self.col_types == old(self).col_types,»
«           self.rows == old(self).rows, self.cursor == old(self).cursor, self.edit_step == old(self).edit_step, self.generation == old(self).generation,»
«           forall|c: int| 0 <= c < col ==> self.dirty_col@[c]»
        {
            self.modified_col(col);
        }
    }
⟦end⟧
⟦fn PatternData::col_is_modified_reset⟧
    fn col_is_modified_reset(&mut self, col: usize) -> «(ret:» bool
«)    ensures ret == (col < 6 && old(self).dirty_col@[col as int]), !ret ==> *final(self) == *old(self),»
«       final(self).dirty_col@ == if col < 6 { old(self).dirty_col@.update(col as int, false) } else { old(self).dirty_col@ },»
«       final(self).data == old(self).data, final(self).strings == old(self).strings, final(self).out_data == old(self).out_data, final(self).col_types == old(self).col_types,»
«       final(self).rows == old(self).rows, final(self).cursor == old(self).cursor, final(self).edit_step == old(self).edit_step, final(self).generation == old(self).generation»
    {
        if self.dirty_col.get(col).copied().unwrap_or(false) {
            self.dirty_col[col] = false;

            true
        } else {
            false
        }
    }
⟦end⟧
⟦fn PatternData::col_type⟧
    fn col_type(&self, col: usize) -> «(ret:» PatternColType «) ensures col < 6 ==> ret == self.col_types@[col as int]» {
        self.col_types.get(col).copied().unwrap_or(PatternColType::Step)
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::clear_cell⟧
    fn clear_cell(&mut self, row: usize, col: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).edited(old(self), row, col, None)»
    {
        if row >= self.data.len() {
            return;
        }
        if col >= self.data[0].len() {
            return;
        }

        self.data[row][col] = None;
        self.strings[row][col] = None;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::get_cell_value⟧
    fn get_cell_value(&mut self, row: usize, col: usize) -> «(ret:» u16
«)    requires old(self).wf()»
«     ensures *final(self) == *old(self), ret == if row < 256 && col < 6 && old(self).set(row as int, col as int) { old(self).cell(row as int, col as int)->0 } else { 0 }»
    {
        if row >= self.data.len() {
            return 0;
        }
        if col >= self.data[0].len() {
            return 0;
        }

        self.data[row][col].unwrap_or(0)
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_cell_value⟧
    fn set_cell_value(&mut self, row: usize, col: usize, val: u16)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).edited(old(self), row, col, Some(val))»
    {
        if row >= self.data.len() {
            return;
        }
        if col >= self.data[0].len() {
            return;
        }

        self.data[row][col] = Some(val);
        self.strings[row][col] = None;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::is_col_note⟧
    fn is_col_note(&self, col: usize) -> «(ret:» bool «) ensures ret == (col < 6 && self.col_types@[col as int] == PatternColType::Note)» {
        if let Some(ct) = self.col_types.get(col) {
            *ct == PatternColType::Note
        } else {
            false
        }
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::is_col_step⟧
    fn is_col_step(&self, col: usize) -> «(ret:» bool «) ensures ret == (col < 6 && self.col_types@[col as int] == PatternColType::Step)» {
        if let Some(ct) = self.col_types.get(col) {
            *ct == PatternColType::Step
        } else {
            false
        }
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::is_col_gate⟧
    fn is_col_gate(&self, col: usize) -> «(ret:» bool «) ensures ret == (col < 6 && self.col_types@[col as int] == PatternColType::Gate)» {
        if let Some(ct) = self.col_types.get(col) {
            *ct == PatternColType::Gate
        } else {
            false
        }
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::cols⟧
    fn cols(&self) -> «(ret:» usize «) requires self.wf() ensures ret == 6» {
        self.data[0].len()
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::rows⟧
    fn rows(&self) -> «(ret:» usize «) ensures ret == self.rows» {
        self.rows
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_rows⟧
    fn set_rows(&mut self, rows: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).rows == if rows < 256 { rows } else { 256 }, forall|c: int| 0 <= c < 6 ==> final(self).dirty_col@[c],»
«       final(self).data == old(self).data, final(self).col_types == old(self).col_types, final(self).cursor == old(self).cursor, final(self).edit_step == old(self).edit_step,»
«       final(self).generation != old(self).generation»
    {
        self.rows = rows.min(self.data.len());
        self.modified_all_cols();
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_col_note_type⟧
    fn set_col_note_type(&mut self, col: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).retyped(old(self), col, PatternColType::Note)»
    {
        if col >= self.col_types.len() {
            return;
        }
        self.col_types[col] = PatternColType::Note;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_col_step_type⟧
    fn set_col_step_type(&mut self, col: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).retyped(old(self), col, PatternColType::Step)»
    {
        if col >= self.col_types.len() {
            return;
        }
        self.col_types[col] = PatternColType::Step;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_col_value_type⟧
    fn set_col_value_type(&mut self, col: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).retyped(old(self), col, PatternColType::Value)»
    {
        if col >= self.col_types.len() {
            return;
        }
        self.col_types[col] = PatternColType::Value;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn UIPatternModel@PatternData::set_col_gate_type⟧
    fn set_col_gate_type(&mut self, col: usize)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).retyped(old(self), col, PatternColType::Gate)»
    {
        if col >= self.col_types.len() {
            return;
        }
        self.col_types[col] = PatternColType::Gate;
        self.modified_col(col);
        self.generation += 1;
    }
⟦end⟧
⟦fn PatternData::sync_out_data⟧
    fn sync_out_data(&mut self, col: usize)
«     requires old(self).wf(), col < 6»
«     ensures final(self).wf(), final(self).same_model(old(self)),»
«       forall|c: int| 0 <= c < 6 && c != col ==> final(self).out_data@[c] == old(self).out_data@[c],»
«       forall|r: int| 0 <= r < old(self).rows ==> old(self).row_out(col as int, r, #[trigger] final(self).out_data@[col as int]@[r])»
    {
«       let ghost o = *self; let ghost c = col as int;»
        let out_col = &mut self.out_data[col];

        if self.rows == 0 {
            return;
        }

        match self.col_types[col] {
            PatternColType::Value => {
                let mut start_value = 0.0;
                let mut start_idx = 0;
                let mut end_idx = 0;

                while end_idx <= out_col.len()
«                 invariant_except_break»
«                   end_idx <= o.rows, start_idx <= end_idx, o.knot(c, start_idx as int),»
«                   end_idx == 0 ==> start_idx == 0 && start_value == 0.0f32,»
«                   end_idx > 0 ==> start_idx < end_idx && start_value == o.kv(c, start_idx as int),»
«                   forall|k: int| start_idx < k < end_idx ==> !o.set(k, c),»
«                   forall|r: int| 0 <= r < start_idx ==> o.value_row(c, r, #[trigger] out_col@[r]),»
«                 invariant»
«                   o.wf(), 0 <= c < 6, c == col, o.rows > 0, self.rows == o.rows, self.data == o.data,»
«                 ensures forall|r: int| 0 <= r < o.rows ==> o.value_row(c, r, #[trigger] out_col@[r]),»
«                 decreases 300 - end_idx»
                {
                    let mut break_after_write = false;
                    let cur_value = if end_idx == self.rows {
                        end_idx -= 1;
                        break_after_write = true;
                        Some(
                            self.data[end_idx][col]
                                .map(|v «: u16»| «-> (z: f32) ensures z == Self::ctrl(v) {» ((v & 0xFFF).to_f32()) / (0xFFFi32.to_f32()) «}»)
                                .unwrap_or(0.0),
                        )
                    } else {
                        self.data[end_idx][col].map(|v «: u16»| «-> (z: f32) ensures z == Self::ctrl(v) {» ((v & 0xFFF).to_f32()) / (0xFFFi32.to_f32()) «}»)
                    };

                    if let Some(end_value) = cur_value {
«                       assert(o.knot(c, end_idx as int) && end_value == o.kv(c, end_idx as int));»
«                       let ghost pre = out_col@;»
                        out_col[start_idx] = (start_value, 0);
                        out_col[end_idx] = (end_value, 1);

                        let delta_rows = end_idx - start_idx;

                        if delta_rows > 1 {
                            for idx in start_idx + 1 .. umin(end_idx, out_col.len())
«                             invariant start_idx < end_idx < 256, c == col, delta_rows == end_idx - start_idx,»
«                               start_value == o.kv(c, start_idx as int), end_value == o.kv(c, end_idx as int),»
«                               forall|r: int| 0 <= r < start_idx ==> out_col@[r] == pre[r], out_col@[start_idx as int] == (start_value, 0u8), out_col@[end_idx as int] == (end_value, 1u8),»
«                               forall|r: int| start_idx < r < idx ==> #[trigger] out_col@[r] == (o.lerp(c, start_idx as int, r, end_idx as int), 0u8)»
                            {
                                let out = &mut out_col[idx];
                                let x = (idx - start_idx).to_f32() / (delta_rows.to_f32());
                                *out = (start_value * (1.0 - x) + end_value * x, 0);
                            }
                        }

«                       proof {»
«                         assert(end_idx > start_idx ==> start_value == o.kv(c, start_idx as int));»
«                         assert forall|r: int| start_idx < r < end_idx implies o.value_row(c, r, #[trigger] out_col@[r]) by {»
«                           assert(!o.knot(c, r));»
«                           assert forall|a: int, b: int| #[trigger] o.inner(c, a, r, b) implies a == start_idx && b == end_idx by {»
«                             if a < start_idx { assert(!o.knot(c, start_idx as int)); }»
«                             if a > start_idx { assert(!o.set(a, c)); }»
«                             if b > end_idx { assert(!o.knot(c, end_idx as int)); }»
«                             if b < end_idx { assert(!o.set(b, c)); }»
«                           }»
«                         }»
«                         assert forall|r: int| 0 <= r < start_idx implies o.value_row(c, r, #[trigger] out_col@[r]) by { assert(out_col@[r] == pre[r]); }»
«                         if start_idx < end_idx { assert(forall|a: int, b: int| !o.inner(c, a, start_idx as int, b)); assert(o.value_row(c, start_idx as int, out_col@[start_idx as int])); }»
«                         if break_after_write { assert(forall|a: int, b: int| !o.inner(c, a, end_idx as int, b)); assert(o.value_row(c, end_idx as int, out_col@[end_idx as int])); }»
«                       }»
                        start_value = end_value;
                        start_idx = end_idx;
                        end_idx += 1;

                        if break_after_write {
                            break;
                        }
                    } else {
                        end_idx += 1;
                    }
                }
            }
            PatternColType::Note => {
                let mut cur_value = (0.0, 0);

                for row in 0 .. out_col.len()
«                 invariant o.wf(), 0 <= c < 6, c == col, self.data == o.data, cur_value.0 == o.held(c, row as int - 1, true),»
«                   forall|r: int| 0 <= r < row ==> #[trigger] out_col@[r] == (s_clamp(o.held(c, r, true), -1.0f32, 1.0f32), if o.set(r, c) { 1u8 } else { 0u8 })»
                {
                    let out = &mut out_col[row];
                    if let Some(new_value) = self.data[row][col] {
                        cur_value = (((new_value as i32 - 69).to_f32() * 0.1) / 12.0, 1);
                    } else {
                        cur_value.1 = 0;
                    }

                    *out = (cur_value.0.clamp(-1.0, 1.0), cur_value.1);
                }
            }
            PatternColType::Step => {
                let mut cur_value = (0.0, 0);

                for row in 0 .. out_col.len()
«                 invariant o.wf(), 0 <= c < 6, c == col, self.data == o.data, cur_value.0 == o.held(c, row as int - 1, false),»
«                   forall|r: int| 0 <= r < row ==> #[trigger] out_col@[r] == (o.held(c, r, false), if o.set(r, c) { 1u8 } else { 0u8 })»
                {
                    let out = &mut out_col[row];
                    if let Some(new_value) = self.data[row][col] {
                        cur_value = (((new_value & 0xFFF).to_f32()) / (0xFFFi32.to_f32()), 1);
                    } else {
                        cur_value.1 = 0;
                    }

                    *out = cur_value;
                }
            }
            PatternColType::Gate => {
                for row in 0 .. out_col.len()
«                 invariant o.wf(), 0 <= c < 6, c == col, self.data == o.data,»
«                   forall|r: int| 0 <= r < row ==> #[trigger] out_col@[r] == (match o.cell(r, c) { Some(v) => (s_bits(v as u32), 1u8), None => (s_bits(0xF000u32), 0u8) })»
                {
                    let out = &mut out_col[row];
                    *out = if let Some(new_value) = self.data[row][col] {
                        (f32::from_bits(new_value as u32), 1)
                    } else {
                        (f32::from_bits(0xF000_u32), 0)
                    };
                }
            }
        }
    }
⟦end⟧
⟦fn PatternData::new⟧
    fn new(rows: usize) -> «(r:» Self
«)    requires rows <= 256»
«     ensures r.wf(), r.rows == rows, forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] r.cell(i, j) is None,»
«       forall|j: int| 0 <= j < 6 ==> r.col_types@[j] == PatternColType::Value && r.dirty_col@[j]»
    {
        Self {
            col_types: [PatternColType::Value; MAX_COLS],
            data: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
            out_data: vec![[(0.0, 0); MAX_PATTERN_LEN]; MAX_COLS],
            strings: vec![vec![None; MAX_COLS]; MAX_PATTERN_LEN],
            cursor: (2, 2),
            edit_step: 4,
            dirty_col: [true; MAX_COLS],
            generation: 0,
            rows,
        }
    }
⟦end⟧
⟦fn PatternData::is_unset⟧
    fn is_unset(&self) -> «(ret:» bool
«)    requires self.wf()»
«     ensures ret == (self.rows == 256 && (forall|j: int| 0 <= j < 6 ==> self.col_types@[j] == PatternColType::Value) && (forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] self.cell(i, j) is None))»
    {
        if self.rows != self.data.len() {
            return false;
        }

        for ct in «it1:» self.col_types.iter()
«         invariant it1.seq().len() == 6, forall|k: int| 0 <= k < 6 ==> *#[trigger] it1.seq()[k] == self.col_types@[k], forall|k: int| 0 <= k < it1.index@ ==> self.col_types@[k] == PatternColType::Value»
        {
            if *ct != PatternColType::Value {
«               assert(self.col_types@[it1.index@] != PatternColType::Value);»
                return false;
            }
        }

        for rows in «it2:» self.data.iter()
«         invariant self.wf(), it2.seq().len() == 256, forall|k: int| 0 <= k < 256 ==> *#[trigger] it2.seq()[k] == self.data@[k], forall|j: int| 0 <= j < 6 ==> self.col_types@[j] == PatternColType::Value,»
«           forall|i: int, j: int| 0 <= i < it2.index@ && 0 <= j < 6 ==> #[trigger] self.cell(i, j) is None»
        {
            for col in «it3:» rows.iter()
«             invariant self.wf(), it2.seq().len() == 256, 0 <= it2.index@ < 256, *rows == self.data@[it2.index@], it3.seq().len() == 6, forall|k: int| 0 <= k < 6 ==> *#[trigger] it3.seq()[k] == rows@[k],»
«               forall|j: int| 0 <= j < it3.index@ ==> #[trigger] self.cell(it2.index@, j) is None»
            {
                if col.is_some() {
«                   assert(self.cell(it2.index@, it3.index@) is Some);»
                    return false;
                }
            }
        }

        true
    }
⟦end⟧
⟦fn PatternData::to_repr⟧
    fn to_repr(&self) -> «(ret:» PatternRepr
«)    requires self.wf()»
«     ensures ret.data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] ret.data@[i])@.len() == 6,»
«       forall|i: int, j: int| 0 <= i < 256 && 0 <= j < 6 ==> #[trigger] ret.data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 }),»
«       forall|j: int| 0 <= j < 6 ==> Self::type_of(#[trigger] ret.col_types@[j]) == self.col_types@[j],»
«       ret.rows == self.rows, ret.edit_step == self.edit_step, ret.cursor == self.cursor»
    {
        let mut col_types = [0; MAX_COLS];
        for i in 0 .. self.col_types.len()
«         invariant forall|j: int| 0 <= j < i ==> Self::type_of(#[trigger] col_types@[j]) == self.col_types@[j]»
        {
            let ct = &self.col_types[i];
            col_types[i] = match ct {
                PatternColType::Value => 0,
                PatternColType::Note => 1,
                PatternColType::Step => 2,
                PatternColType::Gate => 3,
            };
        }

        let mut data = vec![vec![-1; MAX_COLS]; MAX_PATTERN_LEN];
        for row_idx in 0 .. self.data.len()
«         invariant self.wf(), data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] data@[i])@.len() == 6,»
«           forall|i: int, j: int| 0 <= i < row_idx && 0 <= j < 6 ==> #[trigger] data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 })»
        {
            let row = &self.data[row_idx];
            for col_idx in 0 .. row.len()
«             invariant self.wf(), 0 <= row_idx < 256, *row == self.data@[row_idx as int], data@.len() == 256, forall|i: int| 0 <= i < 256 ==> (#[trigger] data@[i])@.len() == 6,»
«               forall|i: int, j: int| 0 <= i < row_idx && 0 <= j < 6 ==> #[trigger] data@[i]@[j] == (match self.cell(i, j) { Some(v) => v as i32, None => -1i32 }),»
«               forall|j: int| 0 <= j < col_idx ==> #[trigger] data@[row_idx as int]@[j] == (match self.cell(row_idx as int, j) { Some(v) => v as i32, None => -1i32 })»
            {
                let cell = &row[col_idx];
                data[row_idx][col_idx] = if let Some(c) = cell { *c as i32 } else { -1 };
            }
        }

        PatternRepr {
            col_types,
            data,
            rows: self.rows,
            edit_step: self.edit_step,
            cursor: self.cursor,
        }
    }
⟦end⟧
⟦fn PatternData::from_repr⟧
    fn from_repr(&mut self, repr: &PatternRepr)
«     requires old(self).wf(), old(self).generation < usize::MAX»
«     ensures final(self).wf(), final(self).loaded(old(self), repr)»
    {
        for i in 0 .. repr.col_types.len()
«         invariant self.wf(), self.data == old(self).data, self.generation == old(self).generation,»
«           forall|j: int| 0 <= j < i ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < i ==> #[trigger] self.dirty_col@[j]»
        {
            let ct = &repr.col_types[i];
            self.col_types[i] = match *ct {
                0 => PatternColType::Value,
                1 => PatternColType::Note,
                2 => PatternColType::Step,
                3 => PatternColType::Gate,
                _ => PatternColType::Value,
            };

            self.modified_col(i);
        }

        for row_idx in 0 .. umin(MAX_PATTERN_LEN, repr.data.len())
«         invariant self.wf(), self.generation == old(self).generation, old(self).wf(),»
«           forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j],»
«           forall|r: int, c: int| 0 <= r < row_idx && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), old(self), repr, r, c),»
«           forall|r: int, c: int| row_idx <= r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == old(self).cell(r, c)»
        {
            let row = &repr.data[row_idx];
            for col_idx in 0 .. umin(MAX_COLS, row.len())
«             invariant self.wf(), self.generation == old(self).generation, old(self).wf(), row_idx < 256, row_idx < repr.data@.len(), *row == repr.data@[row_idx as int],»
«               forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(repr.col_types@[j]), forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j],»
«               forall|r: int, c: int| 0 <= r < row_idx && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), old(self), repr, r, c),»
«               forall|c: int| 0 <= c < col_idx ==> Self::loads(#[trigger] self.cell(row_idx as int, c), old(self), repr, row_idx as int, c),»
«               forall|c: int| col_idx <= c < 6 ==> #[trigger] self.cell(row_idx as int, c) == old(self).cell(row_idx as int, c),»
«               forall|r: int, c: int| row_idx < r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == old(self).cell(r, c)»
            {
                let cell = &row[col_idx];
«               let ghost pre = *self;»
                self.data[row_idx][col_idx] = if *cell < 0 { None } else { Some(*cell as u16) };
                self.strings[row_idx][col_idx] = None;
«               assert(Self::loads(self.cell(row_idx as int, col_idx as int), old(self), repr, row_idx as int, col_idx as int));»
«               assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 && !(r == row_idx && c == col_idx) ==> #[trigger] self.cell(r, c) == pre.cell(r, c));»
            }
        }

«       let ghost mid = *self;»
«       assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> Self::loads(#[trigger] mid.cell(r, c), old(self), repr, r, c));»
        self.rows = repr.rows.min(self.data.len());
        self.edit_step = repr.edit_step;
        self.cursor = repr.cursor;
        self.generation += 1;
«       assert(forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> #[trigger] self.cell(r, c) == mid.cell(r, c));»
    }
⟦end⟧
/// What a saved pattern says about a cell.
pub open spec fn loads(x: Option<u16>, o: &PatternData, p: &PatternRepr, r: int, c: int) -> bool {
    if r < p.data@.len() && c < p.data@[r]@.len() {
        let v = p.data@[r]@[c];
        if v < 0 { x is None } else { x is Some && (v <= 65535 ==> x->0 == v) }
    } else { x == o.cell(r, c) }
}
pub open spec fn type_of(t: u8) -> PatternColType {
    if t == 1 { PatternColType::Note } else if t == 2 { PatternColType::Step } else if t == 3 { PatternColType::Gate } else { PatternColType::Value }
}
pub open spec fn loaded(&self, o: &PatternData, p: &PatternRepr) -> bool {
    &&& forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> Self::loads(#[trigger] self.cell(r, c), o, p, r, c)
    &&& forall|j: int| 0 <= j < 6 ==> #[trigger] self.col_types@[j] == Self::type_of(p.col_types@[j])
    &&& forall|j: int| 0 <= j < 6 ==> #[trigger] self.dirty_col@[j]
    &&& self.rows == (if p.rows < 256 { p.rows } else { 256 }) && self.cursor == p.cursor && self.edit_step == p.edit_step && self.generation != o.generation
}
/// Saving a pattern and loading it into any other one gives the same pattern.
pub fn round_trip(a: &PatternData, b: &mut PatternData)
    requires a.wf(), old(b).wf(), old(b).generation < usize::MAX
    ensures final(b).wf(), forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 ==> #[trigger] final(b).cell(r, c) == a.cell(r, c),
        final(b).col_types@ == a.col_types@, final(b).rows == a.rows, final(b).cursor == a.cursor, final(b).edit_step == a.edit_step
{
    let p = a.to_repr();
    b.from_repr(&p);
    proof {
        assert forall|r: int, c: int| 0 <= r < 256 && 0 <= c < 6 implies #[trigger] b.cell(r, c) == a.cell(r, c) by {
            assert(p.data@[r]@[c] == (match a.cell(r, c) { Some(v) => v as i32, None => -1i32 }));
        }
        assert forall|j: int| 0 <= j < 6 implies b.col_types@[j] == a.col_types@[j] by { assert(Self::type_of(p.col_types@[j]) == a.col_types@[j]); }
        assert(b.col_types@ =~= a.col_types@);
    }
}
}
⟦PLAY⟧
fn main() {}
}
