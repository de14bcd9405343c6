//! P08: tracker patterns: the edited cells are what the sequencer plays.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::dsp::tracker::*;

const COLS: usize = MAX_COLS;
const LEN: usize = MAX_PATTERN_LEN;

fn any_cell() -> Option<u16> {
    let v: u16 = any();
    if any::<bool>() {
        Some(v)
    } else {
        None
    }
}

fn put(p: &mut PatternData, row: usize, col: usize, c: Option<u16>) {
    match c {
        Some(v) => p.set_cell_value(row, col, v),
        None => p.clear_cell(row, col),
    }
}

fn col_type(p: &mut PatternData, col: usize, t: u8) {
    match t {
        0 => p.set_col_value_type(col),
        1 => p.set_col_note_type(col),
        2 => p.set_col_step_type(col),
        _ => p.set_col_gate_type(col),
    }
}

fn type_of(t: u8) -> PatternColType {
    match t {
        0 => PatternColType::Value,
        1 => PatternColType::Note,
        2 => PatternColType::Step,
        _ => PatternColType::Gate,
    }
}

/// Control value of a cell.
fn ctrl(v: u16) -> f32 {
    ((v & 0xFFF) as f32) / 4095.0
}

/// Pitch of a note cell: 0.1 per octave, 0.0 for A4 (69), limited to the signal range.
fn pitch(v: u16) -> f32 {
    (((v as i32 - 69) as f32 * 0.1) / 12.0).max(-1.0).min(1.0)
}

/// What the sequencer gets for a row of a column that holds its value.
#[cfg(not(kani))]
fn held(t: u8, cells: &[Option<u16>], row: usize) -> (f32, u8) {
    let mut v = 0.0;
    let mut k = 0;
    while k <= row {
        if let Some(c) = cells[k] {
            v = if t == 1 { pitch(c) } else { ctrl(c) };
        }
        k += 1;
    }
    (v, cells[row].is_some() as u8)
}

/// Value columns are straight lines between the cells that are set; the first row
/// starts at 0 and the last row ends at 0 if they are empty.
#[cfg(not(kani))]
fn line(cells: &[Option<u16>], rows: usize, row: usize) -> f64 {
    let at = |r: usize| cells[r].map(|v| (v & 0xFFF) as f64 / 4095.0);
    let lo = (0..=row).rev().find(|r| cells[*r].is_some());
    let hi = (row..rows).find(|r| cells[*r].is_some());
    let (a, va) = lo.map(|r| (r, at(r).unwrap())).unwrap_or((0, 0.0));
    let (b, vb) = hi.map(|r| (r, at(r).unwrap())).unwrap_or((rows - 1, 0.0));
    if a == b {
        // a single row: what is set, or else 0
        return cells[a].map(|_| va).unwrap_or(0.0);
    }
    va + (vb - va) * (row - a) as f64 / (b - a) as f64
}

#[cfg(not(kani))]
fn column(t: u8, col: usize, m: &[Option<u16>; LEN], rows: usize) -> PatternData {
    let mut p = PatternData::new(LEN);
    col_type(&mut p, col, t);
    for r in 0..LEN {
        put(&mut p, r, col, m[r]);
    }
    p.set_rows(rows);
    p
}

#[cfg(not(kani))]
fn small_column() -> [Option<u16>; LEN] {
    let mut m = [None; LEN];
    let mut r = 0;
    while r < LEN {
        m[r] = any_cell();
        r += 1;
    }
    m
}

harnesses! {
    // Editing one cell changes exactly that cell and marks exactly its column.
    bounded edit_cell (1500) {
        let mut p = PatternData::new(LEN);
        let (r0, c0) = (usize_in(0, LEN - 1), usize_in(0, COLS - 1));
        let old = any_cell();
        put(&mut p, r0, c0, old);
        let mut c = 0;
        while c < COLS {
            p.col_is_modified_reset(c);
            c += 1;
        }
        let (row, col): (usize, usize) = (any(), any());
        let new = any_cell();
        let g = p.get_generation();
        put(&mut p, row, col, new);
        let ok = row < LEN && col < COLS;
        reach!(ok && row == r0 && col == c0, "same cell");
        let (qr, qc) = (usize_in(0, LEN - 1), usize_in(0, COLS - 1));
        let want = if qr == row && qc == col { new } else if qr == r0 && qc == c0 { old } else { None };
        assert!(p.verif_cell(qr, qc) == want, "exactly the edited cell changed");
        assert!(p.get_cell_value(qr, qc) == want.unwrap_or(0), "value of the cell");
        assert!(p.verif_dirty(qc) == (ok && qc == col), "exactly the edited column is sent");
        if ok {
            assert!(p.get_generation() != g, "change is noticed");
        } else {
            assert!(p.get_cell_value(row, col) == 0, "no such cell");
        }
    }
    // Column types are per column.
    bounded column_types (1500) {
        let mut p = PatternData::new(LEN);
        let (a, ta): (usize, u8) = (any(), u8_in(0, 3));
        let (b, tb): (usize, u8) = (any(), u8_in(0, 3));
        col_type(&mut p, a, ta);
        let mut c = 0;
        while c < COLS {
            p.col_is_modified_reset(c);
            c += 1;
        }
        col_type(&mut p, b, tb);
        let q = usize_in(0, COLS - 1);
        let t = if q == b { tb } else if q == a { ta } else { 0 };
        assert!(p.col_type(q) == type_of(t), "type of the column");
        assert!(p.is_col_note(q) == (t == 1) && p.is_col_step(q) == (t == 2) && p.is_col_gate(q) == (t == 3), "type queries");
        assert!(p.verif_dirty(q) == (q == b), "exactly the changed column is sent");
        assert!(p.col_is_modified_reset(q) == (q == b) && !p.col_is_modified_reset(q), "a change is sent once");
    }
    // The row count is limited, and all columns are sent again.
    bounded row_count (1500) {
        let mut p = PatternData::new(LEN);
        let mut c = 0;
        while c < COLS {
            p.col_is_modified_reset(c);
            c += 1;
        }
        let n: usize = any();
        p.set_rows(n);
        assert!(p.rows() == if n < LEN { n } else { LEN }, "row count");
        assert!(p.verif_dirty(usize_in(0, COLS - 1)), "all columns depend on the row count");
        assert!(p.cols() == COLS, "columns");
    }
    // A value change by an offset stays in the range of a cell.
    kani change_value (8) {
        let mut p = PatternData::new(LEN);
        let (row, col) = (LEN - 1, COLS - 1);
        let old = any_cell();
        if let Some(v) = old {
            p.set_cell_value(row, col, v);
        }
        let offs: i16 = any();
        {
            let m: &mut dyn UIPatternModel = &mut p;
            m.change_value(row, col, offs);
        }
        let sum = old.unwrap_or(0) as i64 + offs as i64;
        let want = if sum < 0 { 0 } else if sum > 0xFFF { 0xFFF } else { sum };
        assert!(p.verif_cell(row, col) == Some(want as u16), "value plus offset in 0..FFF");
        std::mem::forget(p);
    }
    // Note, step and gate columns: every row has exactly the value of the last set cell.
    bounded held_columns (600) {
        let (m, t) = (small_column(), u8_in(1, 3));
        let col = usize_in(0, COLS - 1);
        let mut p = column(t, col, &m, usize_in(1, LEN));
        p.sync_out_data(col);
        let row = usize_in(0, LEN - 1);
        let (v, g) = p.get_out_data()[col][row];
        if t == 3 {
            assert!(v.to_bits() == m[row].map(|v| v as u32).unwrap_or(0xF000), "gate code");
            assert!(g == m[row].is_some() as u8, "gate of the row");
        } else {
            let (wv, wg) = held(t, &m, row);
            assert!((v - wv).abs() <= 1e-6, "value of the row");
            assert!(g == wg, "gate exactly in the set rows");
        }
        let other = usize_in(0, COLS - 1);
        if other != col {
            let o = p.get_out_data()[other][row];
            assert!(o.0 == 0.0 && o.1 == 0, "other columns untouched");
        }
    }
    // Value columns: set rows are hit exactly, the gate marks the last row.
    bounded value_column (600) {
        let m = small_column();
        let rows = usize_in(1, LEN);
        let col = usize_in(0, COLS - 1);
        let mut p = column(0, col, &m, rows);
        p.sync_out_data(col);
        let row = usize_in(0, rows - 1);
        let (v, g) = p.get_out_data()[col][row];
        assert!(g == (row == rows - 1) as u8, "gate of a value column is the last row");
        match m[row] {
            Some(c) => assert!((v - ctrl(c)).abs() <= 1e-6, "set cells are hit"),
            None => {
                if row == 0 || row == rows - 1 {
                    assert!(v == 0.0, "empty ends are zero");
                } else {
                    assert!(v >= 0.0 && v <= 1.0001, "between the ends");
                }
            }
        }
    }
    // The sequencer reads the row at the phase.
    kissat seq_step (8) {
        let mut s = PatternSequencer::new_default_seed(LEN);
        let rows = usize_in(1, LEN);
        s.set_rows(rows);
        let mut d = [(0.0f32, 0u8); LEN];
        let mut r = 0;
        while r < LEN {
            d[r] = (f32_in(-1.0, 1.0), u8_in(0, 1));
            r += 1;
        }
        let col = usize_in(0, COLS - 1);
        s.set_col(col, &d);
        let ph = f32_in(0.0, 0.99999);
        let (mut o, mut g) = ([7.0f32; 1], [7.0f32; 1]);
        s.col_get_at_phase(col, &[ph], &mut o, &mut g);
        let x = ph * rows as f32;
        let lo = if x < 0.0002 { 0 } else { (x - 0.0002) as usize };
        let hi = (x + 0.0002) as usize % rows;
        reach!(lo != 0, "not the first row");
        let is = |k: usize| o[0].to_bits() == d[k].0.to_bits() && g[0] == d[k].1 as f32;
        assert!(is(lo) || is(hi), "value and gate of the row at the phase");
    }
    kani seq_gate (8) {
        let mut s = PatternSequencer::new_default_seed(LEN);
        let rows = 2;
        s.set_rows(rows);
        let mut d = [(0.0f32, 0u8); LEN];
        let (c0, c1): (u16, u16) = (any(), any());
        let (g0, g1) = (u8_in(0, 1), u8_in(0, 1));
        d[0] = (f32::from_bits(c0 as u32), g0);
        d[1] = (f32::from_bits(c1 as u32), g1);
        s.set_col(1, &d);
        // the middle of sixteenths of a row: away from the edges of the pulses
        let k = usize_in(0, 63);
        let ph = (k as f32 + 0.5) / 64.0;
        let (mut o, mut g) = ([7.0f32; 1], [7.0f32; 1]);
        s.col_gate_at_phase(1, &[ph], &mut o, &mut g);
        let (c, cg) = if k < 32 { (c0, g0) } else { (c1, g1) };
        if c & 0xF000 != 0 {
            assert!(o[0] == 0.0 && g[0] == 0.0, "empty row");
        } else {
            assert!(g[0] == cg as f32, "gate of the row");
            assert!(o[0] == 0.0 || o[0] == 1.0, "pulse");
            let frac = (k % 32) as f32 / 32.0 + 0.5 / 32.0;
            let sub = frac * (16 - ((c >> 4) & 15)) as f32;
            let sub = sub - (sub as u8) as f32;
            let on = sub <= ((c & 15) as f32 + 1.0) / 16.0;
            let near = (sub - ((c & 15) as f32 + 1.0) / 16.0).abs() < 0.001 || sub > 0.999 || sub < 0.001;
            if !near {
                if c & 0xF00 == 0xF00 {
                    assert!((o[0] == 1.0) == on, "ratcheting and gate length");
                } else {
                    assert!(o[0] == 0.0 || on, "only where a pulse is");
                }
            }
        }
    }
    bounded pattern_model (3000) { pattern_case(); }
    bounded updates_arrive (1500) { updates_case(); }
    bounded sequencer_model (3000) { sequencer_case(); }
    bounded gate_probability (40) { probability_case(); }
    bounded tseq_node (150) { tseq_case(); }
}

#[cfg(not(kani))]
#[derive(Clone)]
struct Model {
    cells: Vec<[Option<u16>; COLS]>,
    types: [u8; COLS],
    rows: usize,
    cursor: (usize, usize),
    step: usize,
}

#[cfg(not(kani))]
impl Model {
    fn new(rows: usize) -> Model {
        Model { cells: vec![[None; COLS]; LEN], types: [0; COLS], rows, cursor: (2, 2), step: 4 }
    }
    fn col(&self, c: usize) -> Vec<Option<u16>> {
        self.cells.iter().map(|r| r[c]).collect()
    }
    /// One random edit of both.
    fn edit(&mut self, p: &mut PatternData) {
        let row = if any::<u8>() % 8 == 0 { any() } else { usize_in(0, LEN + 1) };
        let row = if any::<bool>() { row % self.rows.max(1) } else { row };
        let col = if any::<u8>() % 16 == 0 { any() } else { usize_in(0, COLS - 1) };
        let ok = row < LEN && col < COLS;
        let g = p.get_generation();
        match u8_in(0, 11) {
            0..=4 => {
                let v = any::<u16>() & [0xFFFF, 0xFFF, 0x7F][usize_in(0, 2)];
                p.set_cell_value(row, col, v);
                if ok {
                    self.cells[row][col] = Some(v);
                }
            }
            5 => {
                p.clear_cell(row, col);
                if ok {
                    self.cells[row][col] = None;
                }
            }
            6 | 7 => {
                let t = u8_in(0, 3);
                col_type(p, col, t);
                if col < COLS {
                    self.types[col] = t;
                }
                if col >= COLS {
                    return;
                }
            }
            8 => {
                let n = if any::<u8>() % 4 == 0 { any() } else { usize_in(0, LEN + 2) };
                p.set_rows(n);
                self.rows = n.min(LEN);
                assert!(p.get_generation() != g, "generation");
                return;
            }
            9 => {
                let offs: i16 = any();
                let m: &mut dyn UIPatternModel = p;
                m.change_value(row, col, offs);
                if ok {
                    let s = self.cells[row][col].unwrap_or(0) as i64 + offs as i64;
                    self.cells[row][col] = Some(s.max(0).min(0xFFF) as u16);
                }
            }
            10 => {
                self.cursor = (row, col);
                p.set_cursor(row, col);
                self.step = usize_in(0, 16);
                p.set_edit_step(self.step);
                return;
            }
            _ => {
                // save and load, also into another pattern
                let repr = p.to_repr();
                let mut q = PatternData::new(usize_in(0, LEN));
                for _ in 0..usize_in(0, 5) {
                    q.set_cell_value(usize_in(0, LEN - 1), usize_in(0, COLS - 1), any());
                    q.get_cell(usize_in(0, LEN - 1), usize_in(0, COLS - 1));
                    q.col_is_modified_reset(usize_in(0, COLS - 1));
                }
                q.from_repr(&repr);
                for c in 0..COLS {
                    assert!(q.verif_dirty(c), "loaded columns are sent");
                }
                *p = q;
                return;
            }
        }
        if ok {
            assert!(p.get_generation() != g, "generation");
        }
    }
    fn check(&self, p: &mut PatternData) {
        let all = any::<u8>() % 8 == 0;
        let mut unset = self.types == [0; COLS];
        for r in 0..LEN {
            for c in 0..COLS {
                let w = self.cells[r][c];
                unset &= w.is_none();
                assert!(p.get_cell_value(r, c) == w.unwrap_or(0), "value of cell {} {}", r, c);
                if all {
                    assert!(p.get_cell(r, c).map(|s| s.to_string()) == w.map(|v| format!("{:03x}", v)), "display of cell {} {}: {:?} want {:?}", r, c, p.get_cell(r, c), w);
                }
            }
        }
        assert!(p.is_unset() == (unset && self.rows == LEN), "is_unset");
        assert!(p.get_cell(LEN, 0).is_none() && p.get_cell(0, COLS).is_none(), "no such cell");
        for c in 0..COLS {
            assert!(p.col_type(c) == type_of(self.types[c]), "column type");
        }
        assert!(p.rows() == self.rows && p.get_cursor() == self.cursor && p.get_edit_step() == self.step, "rows, cursor, edit step");
    }
    /// Expected value (and tolerance) and gate at a phase, if it is not near a row border.
    fn at(&self, col: usize, phase: f32) -> Option<(f64, f64)> {
        let x = phase as f64 * self.rows as f64;
        let row = x.floor() as usize;
        if row >= self.rows || x.fract() < 0.01 || x.fract() > 0.99 {
            return None;
        }
        let cells = self.col(col);
        Some(match self.types[col] {
            0 => {
                let prev = if row == 0 { self.rows - 1 } else { row - 1 };
                let (a, b) = (line(&cells, self.rows, prev), line(&cells, self.rows, row));
                (a + (b - a) * x.fract(), (row == self.rows - 1) as u8 as f64)
            }
            3 => {
                let c = cells[row].unwrap_or(0xF000);
                if c & 0xF000 != 0 {
                    (0.0, 0.0)
                } else if c & 0xF00 != 0xF00 {
                    return None;
                } else {
                    let sub = (x.fract() * (16 - ((c >> 4) & 15)) as f64).fract();
                    let w = ((c & 15) as f64 + 1.0) / 16.0;
                    if (sub - w).abs() < 0.01 || sub < 0.01 || sub > 0.99 {
                        return None;
                    }
                    ((sub <= w) as u8 as f64, 1.0)
                }
            }
            t => {
                let (v, g) = held(t, &cells, row);
                (v as f64, g as f64)
            }
        })
    }
}

#[cfg(not(kani))]
fn check_backend(m: &Model, b: &mut TrackerBackend) {
    assert!(b.pattern_len() == m.rows, "pattern length is {} want {}", b.pattern_len(), m.rows);
    if m.rows == 0 {
        return;
    }
    for col in 0..COLS {
        let ph: Vec<f32> = (0..32).map(|_| f32_in(0.0, 0.999999)).collect();
        let (mut o, mut g) = (vec![0.0; 32], vec![0.0; 32]);
        b.get_col_at_phase(col, &ph, &mut o, &mut g);
        for k in 0..32 {
            if let Some((v, gt)) = m.at(col, ph[k]) {
                assert!((o[k] as f64 - v).abs() < 2e-4, "column {} ({:?}) at phase {} of {} rows: {} want {}", col, type_of(m.types[col]), ph[k], m.rows, o[k], v);
                assert!(g[k] as f64 == gt, "column {} ({:?}) at phase {} of {} rows: gate {} want {}", col, type_of(m.types[col]), ph[k], m.rows, g[k], gt);
            }
        }
    }
}

#[cfg(not(kani))]
fn pattern_case() {
    let rows = usize_in(0, LEN);
    let (mut p, mut m) = (PatternData::new(rows), Model::new(rows));
    for _ in 0..usize_in(1, 40) {
        m.edit(&mut p);
        m.check(&mut p);
        let c = usize_in(0, COLS - 1);
        p.sync_out_data(c);
        let cells = m.col(c);
        for r in 0..m.rows {
            let (v, g) = p.get_out_data()[c][r];
            match m.types[c] {
                0 => assert!((v as f64 - line(&cells, m.rows, r)).abs() < 1e-4 && g == (r == m.rows - 1) as u8, "value row {} of {}: {} {} want {}", r, m.rows, v, g, line(&cells, m.rows, r)),
                3 => assert!(v.to_bits() == cells[r].map(|x| x as u32).unwrap_or(0xF000) && g == cells[r].is_some() as u8, "gate row {}", r),
                t => {
                    let w = held(t, &cells, r);
                    assert!((v - w.0).abs() < 1e-6 && g == w.1, "row {}: {:?} want {:?}", r, (v, g), w);
                }
            }
        }
    }
}

#[cfg(not(kani))]
fn updates_case() {
    let mut t = Tracker::new();
    let mut b = t.get_backend();
    let mut m = Model::new(LEN);
    let data = t.data();
    for _ in 0..usize_in(1, 12) {
        // edits, some updates on their way, some of them taken
        for _ in 0..usize_in(0, 60) {
            m.edit(&mut data.lock().unwrap());
            if any::<bool>() {
                t.send_one_update();
            }
            if any::<u8>() % 4 == 0 {
                b.check_updates();
            }
        }
        if any::<u8>() % 4 == 0 {
            // a new backend for the same pattern
            b = t.get_backend();
        }
        // as long as something is sent or received
        let mut n = 0;
        loop {
            let s = t.send_one_update();
            let r = b.check_updates();
            if !s && !r {
                break;
            }
            n += 1;
            assert!(n < 1000, "updates come to an end");
        }
        check_backend(&m, &mut b);
    }
}

#[cfg(not(kani))]
fn sequencer_case() {
    let mut s = PatternSequencer::new(usize_in(1, LEN));
    let rows = usize_in(1, LEN);
    s.set_rows(rows);
    assert!(s.rows() == rows, "rows");
    let mut d: Vec<Vec<(f32, u8)>> = vec![vec![(0.0, 0); LEN]; COLS];
    for _ in 0..usize_in(1, 12) {
        let c = usize_in(0, COLS - 1);
        let n = usize_in(0, LEN);
        let v: Vec<(f32, u8)> = (0..n).map(|_| (f32_in(-1.0, 1.0), u8_in(0, 1))).collect();
        s.set_col(c, &v);
        d[c][..n].copy_from_slice(&v);
    }
    for c in 0..COLS {
        let n = usize_in(1, 128);
        let ph: Vec<f32> = (0..n).map(|_| f32_in(0.0, 1.0)).collect();
        let (mut o, mut g) = (vec![0.0; n], vec![0.0; n]);
        s.col_get_at_phase(c, &ph, &mut o, &mut g);
        let (mut oi, mut gi) = (vec![0.0; n], vec![0.0; n]);
        s.col_interpolate_at_phase(c, &ph, &mut oi, &mut gi);
        for k in 0..n {
            let x = ph[k] as f64 * rows as f64;
            let r = x.floor() as usize;
            if r >= rows || x.fract() < 0.01 || x.fract() > 0.99 {
                continue;
            }
            assert!(o[k] == d[c][r].0 && g[k] == d[c][r].1 as f32, "step row {} of {}", r, rows);
            let prev = d[c][(r + rows - 1) % rows].0 as f64;
            let w = prev + (d[c][r].0 as f64 - prev) * x.fract();
            assert!((oi[k] as f64 - w).abs() < 1e-3 && gi[k] == d[c][r].1 as f32, "interpolated row {} of {}: {} want {}", r, rows, oi[k], w);
        }
    }
}

/// A row fires as a whole, and as often as its probability says.
#[cfg(not(kani))]
fn probability_case() {
    let p = usize_in(0, 15);
    let rows = LEN;
    let mut s = PatternSequencer::new_default_seed(rows);
    s.set_col(2, &vec![(f32::from_bits(0x0FF | (p as u32) << 8), 1); rows]);
    let per = 4;
    let ph: Vec<f32> = (0..rows * per).map(|k| (k as f32 + 0.5) / (rows * per) as f32).collect();
    let mut fired = 0;
    let rounds = 40;
    for _ in 0..rounds {
        let (mut o, mut g) = (vec![0.0; ph.len()], vec![0.0; ph.len()]);
        s.col_gate_at_phase(2, &ph, &mut o, &mut g);
        for r in 0..rows {
            assert!((0..per).all(|k| o[r * per + k] == o[r * per] && g[r * per + k] == 1.0), "a row fires as a whole");
            fired += (o[r * per] > 0.5) as usize;
        }
    }
    let n = (rounds * rows) as f64;
    let q = (p as f64 + 1.0) / 16.0;
    let dev = 6.0 * (n * q * (1.0 - q)).sqrt() + 1.0;
    assert!((fired as f64 - n * q).abs() <= dev, "probability nibble {}: {} of {}", p, fired, n);
}

#[cfg(not(kani))]
struct Ctx(usize);
#[cfg(not(kani))]
impl hexodsp::nodes::NodeAudioContext for Ctx {
    fn nframes(&self) -> usize {
        self.0
    }
    fn output(&mut self, _c: usize, _f: usize, _v: f32) {}
    fn input(&mut self, _c: usize, _f: usize) -> f32 {
        0.0
    }
}

/// Pattern data of a tracker is played by the node of that instance, also if the node
/// is created later or again.
#[cfg(not(kani))]
fn tseq_case() {
    use hexodsp::*;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    ex.set_sample_rate(44100.0);
    let mut m = Matrix::new(nc, 4, 4);
    let mut models = [Model::new(LEN), Model::new(LEN), Model::new(LEN)];
    let mut present = [false; 3];
    for _ in 0..usize_in(2, 6) {
        for _ in 0..usize_in(1, 20) {
            let t = usize_in(0, 2);
            let d = m.get_pattern_data(t).unwrap();
            models[t].edit(&mut d.lock().unwrap());
            if any::<u8>() % 8 == 0 {
                m.check_pattern_data(t);
            }
        }
        match u8_in(0, 3) {
            0 => {
                m.clear();
                present = [false; 3];
            }
            _ => {
                let t = usize_in(0, 2);
                let id = NodeId::TSeq(t as u8);
                m.place(t, 0, Cell::empty(id));
                m.set_param(id.inp_param("cmode").unwrap(), SAtom::setting(2));
                present[t] = true;
                m.sync().unwrap();
            }
        }
        for k in 0..40 {
            for t in 0..3 {
                m.check_pattern_data(t);
            }
            ex.process_graph_updates();
            if k == 0 {
                for t in 0..3 {
                    let id = NodeId::TSeq(t as u8);
                    if present[t] {
                        let v = f32_in(0.0, 0.999);
                        m.set_param(id.inp_param("clock").unwrap(), SAtom::param(v));
                    }
                }
            }
            let f = usize_in(100, 128);
            ex.process(&mut Ctx(f));
            if k < 35 {
                continue;
            }
            let prog = ex.get_prog();
            for t in 0..3 {
                if !present[t] || models[t].rows == 0 {
                    continue;
                }
                let id = NodeId::TSeq(t as u8);
                let op = prog.prog.iter().find(|o| o.node.id() == id).expect("node runs");
                let slot = op.in_idxlen.0 + id.inp_param("clock").unwrap().inp() as usize;
                for c in 0..COLS {
                    let o = op.out_idxlen.0 + id.out(["trk1", "trk2", "trk3", "trk4", "trk5", "trk6"][c]).unwrap() as usize;
                    let g = op.out_idxlen.0 + id.out(["gat1", "gat2", "gat3", "gat4", "gat5", "gat6"][c]).unwrap() as usize;
                    let fr = usize_in(0, f - 1);
                    if let Some((v, gt)) = models[t].at(c, prog.cur_inp[slot].read(fr)) {
                        assert!((prog.out[o].read(fr) as f64 - v).abs() < 2e-4, "tracker {} column {} ({:?}): {} want {}", t, c, type_of(models[t].types[c]), prog.out[o].read(fr), v);
                        assert!(prog.out[g].read(fr) as f64 == gt, "tracker {} column {} gate", t, c);
                    }
                }
            }
        }
    }
}
