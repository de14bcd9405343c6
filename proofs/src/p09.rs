//! P09: saving and loading a patch.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::*;

fn any_port() -> Option<u8> {
    if any::<bool>() { Some(any()) } else { None }
}

fn any_cell() -> Cell {
    let id = match u8_in(0, 3) {
        0 => NodeId::Amp(any()),
        1 => NodeId::Mux9(any()),
        2 => NodeId::Out(any()),
        _ => NodeId::TSeq(any()),
    };
    Cell::empty_at(id, any(), any()).input(any_port(), any_port(), any_port()).out(any_port(), any_port(), any_port())
}

const DIRS: [CellDir; 6] = [CellDir::T, CellDir::TL, CellDir::BL, CellDir::TR, CellDir::BR, CellDir::B];

fn same_cell(a: &Cell, b: &Cell) -> bool {
    a.node_id() == b.node_id() && a.pos() == b.pos() && DIRS.iter().all(|d| a.local_port_idx(*d) == b.local_port_idx(*d))
}

harnesses! {
    // For every cell: the saved form describes that cell and no other.
    kani cell_repr_exact (8) {
        let c = any_cell();
        let r = c.to_repr();
        assert!(r.node_id == c.node_id() && (r.x, r.y) == c.pos(), "saved node and position");
        let want = |d| c.local_port_idx(d).map(|p| p as i16).unwrap_or(-1);
        assert!(r.inp == [want(CellDir::T), want(CellDir::TL), want(CellDir::BL)], "saved inputs");
        assert!(r.out == [want(CellDir::TR), want(CellDir::BR), want(CellDir::B)], "saved outputs");
        let back = Cell::from_repr(&r);
        reach!(back.pos() == (255, 0), "position");
        assert!(same_cell(&c, &back), "the saved form of a cell gives the cell back");
    }

    bounded names_exhaustive (1) { names_case(); }
    bounded save_load (160) { native::save_load_case(); }
    bounded bad_documents (700) { native::bad_document_case(); }
    bounded files (60) { native::file_case(); }
}

/// Every node, port, parameter and setting is found again by the name it is saved with.
#[cfg(not(kani))]
fn names_case() {
    use hexodsp::dsp::ALL_NODE_IDS;
    use hexodsp::matrix_repr::CellRepr;
    for id in ALL_NODE_IDS.iter() {
        let info = NodeInfo::from_node_id(*id);
        for inst in [0usize, 1, 7, 255] {
            let id = id.to_instance(inst);
            let ports = |n: usize| (0..n as i16).chain(std::iter::once(-1)).collect::<Vec<_>>();
            for i in ports(info.in_count()) {
                for o in ports(info.out_count()) {
                    let c = CellRepr { node_id: id, x: inst, y: 300 + inst, inp: [i, -1, i], out: [-1, o, o] };
                    let v = serde_json::from_str(&c.serialize().to_string()).unwrap();
                    let d = CellRepr::deserialize(&v).expect("a saved cell is read");
                    assert!(
                        (d.node_id, d.x, d.y, d.inp, d.out) == (c.node_id, c.x, c.y, c.inp, c.out),
                        "cell {:?} read as {:?}", c, d
                    );
                }
            }
            let mut names = vec![];
            for k in 0..info.in_count() {
                names.push((id.inp_param_by_idx(k).unwrap(), false));
            }
            for k in 0..info.at_count() {
                names.push((id.atom_param_by_idx(k).unwrap(), true));
            }
            for (p, is_atom) in names {
                assert!(p.node_id() == id && p.is_atom() == is_atom, "kind of {:?} {}", id, p.name());
                assert!(id.inp_param(p.name()) == Some(p), "{:?} {} is not found by its name", id, p.name());
            }
        }
    }
}

#[cfg(not(kani))]
pub mod native {
    use super::*;
    use hexodsp::dsp::tracker::UIPatternModel;
    use hexodsp::dsp::ALL_NODE_IDS;
    use hexodsp::matrix_repr::*;
    use serde_json::{json, Value};
    use std::collections::BTreeMap;

    pub struct Ctx(pub usize);
    impl nodes::NodeAudioContext for Ctx {
        fn nframes(&self) -> usize {
            self.0
        }
        fn output(&mut self, _: usize, _: usize, _: f32) {}
        fn input(&mut self, _: usize, _: usize) -> f32 {
            0.0
        }
    }

    const W: usize = 4;
    const H: usize = 4;
    const IDS: [NodeId; 12] = [
        NodeId::Amp(0),
        NodeId::Mix3(0),
        NodeId::TSeq(0),
        NodeId::Map(0),
        NodeId::TSeq(1),
        NodeId::Out(0),
        NodeId::Amp(1),
        NodeId::Code(0),
        NodeId::Mux9(2),
        NodeId::BOsc(0),
        NodeId::Sampl(0),
        NodeId::Delay(3),
    ];
    /// Nodes whose outputs follow from the patch alone and that carry no rounding error along.
    const CMP: [NodeId; 7] = [
        NodeId::Code(0), NodeId::Amp(0), NodeId::Mix3(0), NodeId::TSeq(0), NodeId::TSeq(1), NodeId::Map(0), NodeId::Amp(1)];

    pub fn engine() -> (Matrix, nodes::NodeExecutor) {
        let (nc, mut ex) = new_node_engine();
        ex.no_logging();
        ex.set_sample_rate(44100.0);
        (Matrix::new(nc, W, H), ex)
    }

    fn text() -> String {
        let n = usize_in(0, 6);
        (0..n).map(|_| ['a', 'Z', '"', '\\', '\n', 'ä', '€', ' ', '{', '\u{0}', '~', '😀'][usize_in(0, 11)]).collect()
    }

    fn number() -> f32 {
        [0.0, -0.0, 1.0, 0.1, -0.3333333, 1e-30, 16777217.0, f32::MAX, f32::MIN_POSITIVE, 220.5][usize_in(0, 9)]
    }

    fn atom_for(def: Option<SAtom>) -> SAtom {
        match def.unwrap_or_else(|| match u8_in(0, 4) {
            0 => SAtom::setting(0),
            1 => SAtom::str(""),
            2 => SAtom::param(0.0),
            3 => SAtom::micro(&[0.0; 8]),
            _ => SAtom::audio_unloaded(""),
        }) {
            SAtom::Setting(_) => SAtom::setting(match u8_in(0, 4) {
                0 => i64::MAX,
                1 => i64::MIN,
                _ => i64_in(-3, 300),
            }),
            SAtom::Str(_) => SAtom::str(&text()),
            SAtom::Param(_) => SAtom::param(number()),
            SAtom::MicroSample(_) => {
                SAtom::micro(&[number(), number(), number(), number(), number(), number(), number(), number()])
            }
            SAtom::AudioSample(_) => SAtom::audio_unloaded(&text()),
        }
    }

    pub fn params_of(id: NodeId) -> (Vec<ParamId>, Vec<ParamId>) {
        let i = NodeInfo::from_node_id(id);
        (
            (0..i.in_count()).map(|k| id.inp_param_by_idx(k).unwrap()).collect(),
            (0..i.at_count()).map(|k| id.atom_param_by_idx(k).unwrap()).collect(),
        )
    }

    /// Brings a matrix into some state by its interface.
    pub fn build(m: &mut Matrix, ops: usize) {
        for _ in 0..ops {
            match u8_in(0, 15) {
                0..=4 => {
                    let (x, y) = (usize_in(0, W - 1), usize_in(0, H - 1));
                    let c = if u8_in(0, 5) == 0 {
                        Cell::empty(NodeId::Nop)
                    } else {
                        let k = usize_in(0, 13);
                        let id = if k < 12 { IDS[k] } else { ALL_NODE_IDS[usize_in(0, ALL_NODE_IDS.len() - 1)].to_instance(usize_in(0, 3)) };
                        let i = NodeInfo::from_node_id(id);
                        let p = |n: usize| if n == 0 || u8_in(0, 2) == 0 { None } else { Some(usize_in(0, n - 1) as u8) };
                        let (a, b, c) = (p(i.in_count()), p(i.in_count()), p(i.in_count()));
                        let c = Cell::empty(id).input(a, b, c);
                        let (x, y, z) = (p(i.out_count()), p(i.out_count()), p(i.out_count()));
                        c.out(x, y, z)
                    };
                    let _ = m.change_matrix(|m| m.place(x, y, c));
                    let _ = m.sync();
                }
                5..=7 => {
                    let (ps, _) = params_of(IDS[usize_in(0, 11)]);
                    let p = ps[usize_in(0, ps.len() - 1)];
                    let ((lo, hi), _) = p.param_min_max().unwrap();
                    m.set_param(p, SAtom::param(f32_in(lo, hi)));
                }
                8 => {
                    let (ps, _) = params_of(IDS[usize_in(0, 11)]);
                    let p = ps[usize_in(0, ps.len() - 1)];
                    let v = if u8_in(0, 3) == 0 { None } else { Some(f32_in(-1.0, 1.0)) };
                    let _ = m.set_param_modamt(p, v);
                }
                9 | 10 => {
                    let (_, ats) = params_of(IDS[usize_in(0, 11)]);
                    if ats.len() > 0 {
                        let p = ats[usize_in(0, ats.len() - 1)];
                        let v = match p.setting_min_max() {
                            Some((lo, hi)) => SAtom::setting(i64_in(lo, hi)),
                            None => match p.as_atom_def() {
                                SAtom::Setting(_) => SAtom::setting(0),
                                a => atom_for(Some(a)),
                            },
                        };
                        m.set_param(p, v);
                    }
                }
                11 => {
                    let k = text();
                    m.set_prop(&k, atom_for(None));
                }
                12 | 13 => {
                    let id = [0, 1, 1, 2, 127][usize_in(0, 4)];
                    let pd = m.get_pattern_data(id).unwrap();
                    let mut pd = pd.lock().unwrap();
                    for _ in 0..usize_in(1, 6) {
                        let (r, c) = ([0, 1, 2, 255][usize_in(0, 3)], usize_in(0, 5));
                        match u8_in(0, 9) {
                            0 => pd.set_rows(usize_in(1, 256)),
                            1 => pd.set_col_note_type(c),
                            2 => pd.set_col_step_type(c),
                            3 => pd.set_col_gate_type(c),
                            4 => pd.set_col_value_type(c),
                            5 => pd.clear_cell(r, c),
                            6 => pd.set_cursor(r, c),
                            7 => pd.set_edit_step(usize_in(0, 20)),
                            _ => pd.set_cell_value(r, c, [0, 1, 60, 0xFFF, 0xF84][usize_in(0, 4)]),
                        }
                    }
                }
                _ => {
                    let id = [0, 0, 1, 31][usize_in(0, 3)];
                    let bf = m.get_block_function(id).unwrap();
                    let mut bf = bf.lock().unwrap();
                    let typ = ["number", "->", "->2", "if", "set", "get", "+", "sin"][usize_in(0, 7)];
                    let lbl = ["0.25", "&sig1", "a\"ä"][usize_in(0, 2)];
                    let _ = bf.instanciate_at(0, i64_in(-3, 3), i64_in(-3, 3), typ, Some(lbl.to_string()));
                    if u8_in(0, 3) == 0 {
                        let _ = bf.remove_at(0, i64_in(-3, 3), i64_in(-3, 3));
                    }
                }
            }
        }
        m.sync().unwrap();
    }

    /// What the user can ask a matrix about the patch.
    #[derive(Debug, Clone, PartialEq)]
    pub struct Seen {
        cells: Vec<(usize, usize, NodeId, [Option<u8>; 6])>,
        params: BTreeMap<(String, usize, String), u32>,
        amts: BTreeMap<(String, usize, String), u32>,
        atoms: BTreeMap<(String, usize, String), String>,
        props: BTreeMap<String, String>,
        patterns: BTreeMap<usize, (Vec<(usize, usize, u16, String)>, Vec<u8>, usize)>,
        cursors: BTreeMap<usize, ((usize, usize), usize)>,
        blocks: BTreeMap<usize, String>,
    }

    fn atom_text(a: &SAtom) -> String {
        match a {
            SAtom::AudioSample((n, _)) => format!("audio {:?}", n),
            SAtom::Param(p) => format!("param {:x}", p.to_bits()),
            SAtom::MicroSample(v) => format!("micro {:x?}", v.iter().map(|f| f.to_bits()).collect::<Vec<_>>()),
            a => format!("{:?}", a),
        }
    }

    pub fn see(m: &mut Matrix, keys: &[String]) -> Seen {
        let mut s = Seen {
            cells: vec![],
            params: BTreeMap::new(),
            amts: BTreeMap::new(),
            atoms: BTreeMap::new(),
            props: BTreeMap::new(),
            patterns: BTreeMap::new(),
            cursors: BTreeMap::new(),
            blocks: BTreeMap::new(),
        };
        for x in 0..W {
            for y in 0..H {
                let c = m.get_copy(x, y).unwrap();
                if c.node_id() != NodeId::Nop {
                    let mut p = [None; 6];
                    for (k, d) in DIRS.iter().enumerate() {
                        p[k] = c.local_port_idx(*d);
                    }
                    s.cells.push((x, y, c.node_id(), p));
                }
            }
        }
        let mut ids: Vec<NodeId> = IDS.iter().copied().collect();
        for id in ALL_NODE_IDS.iter() {
            for k in 0..4 {
                let id = id.to_instance(k);
                if !ids.contains(&id) {
                    ids.push(id);
                }
            }
        }
        for id in ids {
            let (ps, ats) = params_of(id);
            for p in ps {
                let k = (id.name().to_string(), id.instance(), p.name().to_string());
                if let Some(v) = m.get_param(&p) {
                    s.params.insert(k.clone(), v.f().to_bits());
                }
                // (an amount of a parameter without a value belongs to no node of the patch)
                if let (Some(v), Some(_)) = (m.get_param_modamt(&p), m.get_param(&p)) {
                    s.amts.insert(k, v.to_bits());
                }
            }
            for p in ats {
                let k = (id.name().to_string(), id.instance(), p.name().to_string());
                if let Some(v) = m.get_param(&p) {
                    s.atoms.insert(k, atom_text(&v));
                }
            }
        }
        for k in keys {
            if let Some(v) = m.get_prop(k) {
                s.props.insert(k.clone(), atom_text(v));
            }
        }
        for id in [0usize, 1, 2, 3, 127] {
            if m.has_tracker(id) {
                let pd = m.get_pattern_data(id).unwrap();
                let mut pd = pd.lock().unwrap();
                let mut cells = vec![];
                for r in 0..256 {
                    for c in 0..6 {
                        if let Some(t) = pd.get_cell(r, c).map(|s| s.to_string()) {
                            let v = pd.get_cell_value(r, c);
                            cells.push((r, c, v, t));
                        }
                    }
                }
                let types: Vec<u8> =
                    (0..6).map(|c| pd.is_col_note(c) as u8 + 2 * pd.is_col_step(c) as u8 + 4 * pd.is_col_gate(c) as u8).collect();
                let v = (cells, types, pd.rows());
                if v != (vec![], vec![0; 6], 256) {
                    s.cursors.insert(id, (pd.get_cursor(), pd.get_edit_step()));
                    s.patterns.insert(id, v);
                }
            }
        }
        for id in [0usize, 1, 2, 31] {
            if m.has_code_engine(id) {
                let bf = m.get_block_function(id).unwrap();
                let mut v = bf.lock().unwrap().save_snapshot().serialize();
                for a in v["areas"].as_array_mut().unwrap() {
                    // the order of the blocks means nothing
                    a["blocks"].as_array_mut().unwrap().sort_by_key(|b| (b["x"].as_i64(), b["y"].as_i64()));
                }
                let empty = v["areas"].as_array().unwrap().iter().all(|a| a["blocks"].as_array().unwrap().is_empty());
                if !empty || v["areas"].as_array().unwrap().len() > 1 {
                    s.blocks.insert(id, v.to_string());
                }
            }
        }
        s
    }

    fn param(k: &(String, usize, String)) -> ParamId {
        NodeId::from_str(&k.0).to_instance(k.1).inp_param(&k.2).unwrap()
    }

    fn close(k: &(String, usize, String), a: u32, b: u32) -> bool {
        let (a, b) = (f32::from_bits(a), f32::from_bits(b));
        if a.to_bits() == b.to_bits() || a == b || (a - b).abs() <= 1e-5 {
            return true;
        }
        // what counts is the value the user set, and that is the denormalized one
        let p = param(k);
        let (a, b) = (p.denorm(a), p.denorm(b));
        (a - b).abs() <= 1e-4 * a.abs().max(1e-3)
    }

    /// `exact`: bit for bit, else parameters up to rounding.
    pub fn compare(a: &Seen, b: &Seen, what: &str) {
        assert!(a.cells == b.cells, "{}: cells {:?} became {:?}", what, a.cells, b.cells);
        for k in a.params.keys().chain(b.params.keys()) {
            match (a.params.get(k), b.params.get(k)) {
                (Some(x), Some(y)) => {
                    assert!(close(k, *x, *y), "{}: parameter {:?} {} became {}", what, k, f32::from_bits(*x), f32::from_bits(*y))
                }
                (x, y) => panic!("{}: parameter {:?} {:?} became {:?}", what, k, x, y),
            }
        }
        assert!(a.amts == b.amts, "{}: modulation amounts {:?} became {:?}", what, a.amts, b.amts);
        for k in a.atoms.keys().chain(b.atoms.keys()) {
            assert!(a.atoms.get(k) == b.atoms.get(k), "{}: setting {:?} {:?} became {:?}", what, k, a.atoms.get(k), b.atoms.get(k));
        }
        assert!(a.props == b.props, "{}: properties {:?} became {:?}", what, a.props, b.props);
        assert!(a.patterns == b.patterns, "{}: patterns {:?} became {:?}", what, a.patterns, b.patterns);
        assert!(a.cursors == b.cursors, "{}: cursors {:?} became {:?}", what, a.cursors, b.cursors);
        assert!(a.blocks == b.blocks, "{}: block functions {:?} became {:?}", what, a.blocks, b.blocks);
    }

    fn keys_of(doc: &[u8]) -> Vec<String> {
        let v: Value = serde_json::from_slice(doc).expect("the saved patch is JSON");
        v["props"].as_array().unwrap().iter().map(|p| p[0].as_str().unwrap().to_string()).collect()
    }

    fn run(m: &mut Matrix, ex: &mut nodes::NodeExecutor, frames: usize) -> BTreeMap<(NodeId, usize), Vec<f32>> {
        for _ in 0..8 {
            for t in [0, 1] {
                m.check_pattern_data(t);
            }
        }
        let _ = m.check_block_function(0);
        ex.process_graph_updates();
        ex.process(&mut Ctx(frames));
        let prog = ex.get_prog();
        let mut out = BTreeMap::new();
        for op in prog.prog.iter() {
            for o in op.out_idxlen.0..op.out_idxlen.1 {
                out.insert((op.node.id(), o - op.out_idxlen.0), (0..frames).map(|f| prog.out[o].read(f)).collect());
            }
        }
        out
    }

    pub fn save_load_case() {
        let (mut a, mut ea) = engine();
        build(&mut a, usize_in(3, 40));
        let doc = save_patch_to_mem(&mut a);
        let mut keys = keys_of(&doc);

        // a fresh matrix or one that is in use
        let (mut b, mut eb) = engine();
        let used = any::<bool>();
        if used {
            build(&mut b, usize_in(3, 40));
            for t in [0, 1] {
                b.check_pattern_data(t);
            }
            for _ in 0..usize_in(0, 3) {
                eb.process_graph_updates();
                eb.process(&mut Ctx(usize_in(1, 128)));
            }
            keys.extend(keys_of(&save_patch_to_mem(&mut b)));
        }
        let want = see(&mut a, &keys);
        assert!(want.props.len() == keys_of(&doc).len(), "all properties saved once");
        load_patch_from_mem(&mut b, &doc).expect("a saved patch can be loaded");
        let got = see(&mut b, &keys);
        compare(&want, &got, "load");
        // nothing of the previous patch is left, also not for nodes the patch does not have
        for id in ALL_NODE_IDS.iter() {
            for k in 0..4 {
                for p in params_of(id.to_instance(k)).0 {
                    if b.get_param(&p).is_none() {
                        assert!(b.get_param_modamt(&p).is_none(), "modulation amount of {:?} {} is left from the previous patch", p.node_id(), p.name());
                    }
                }
            }
        }

        // saving it again gives the same patch
        let doc2 = save_patch_to_mem(&mut b);
        let (mut c, _ec) = engine();
        load_patch_from_mem(&mut c, &doc2).expect("a saved patch can be loaded");
        compare(&want, &see(&mut c, &keys), "second load");
        let (mut r1, mut r2) = (MatrixRepr::read_from_mem(&doc).unwrap(), MatrixRepr::read_from_mem(&doc2).unwrap());
        for r in [&mut r1, &mut r2] {
            r.params.clear();
            r.block_funs.clear();
        }
        let (r1, r2) = (r1.serialize(), r2.serialize());
        assert!(r1 == r2, "saving, loading, saving changes {} to {}", r1, r2);

        // old documents hold the parameters as they are
        if u8_in(0, 3) == 0 {
            let mut r = b.to_repr();
            let now = see(&mut b, &keys);
            for p in r.params.iter_mut() {
                p.1 = b.get_param(&p.0).unwrap().f();
            }
            r.version = 1;
            let old = MatrixRepr::deserialize(&r.serialize()).unwrap();
            c.from_repr(&old).unwrap();
            assert!(now == see(&mut c, &keys), "documents of version 1");
        }

        // and it sounds the same as the same patch made by hand
        let (mut a, mut ea) = copy_by_hand(&mut a);
        let clk = [NodeId::TSeq(0).inp_param("clock").unwrap(), NodeId::TSeq(1).inp_param("clock").unwrap()];
        // (gates below the highest probability are random)
        let mut cmp: Vec<NodeId> = CMP.to_vec();
        for (t, (cells, types, _)) in want.patterns.iter() {
            if cells.iter().any(|c| types[c.1] == 4 && c.2 < 0xF00) {
                cmp.retain(|id| *id != NodeId::TSeq(*t as u8));
            }
        }
        // (one column of a pattern arrives per block)
        for _ in 0..16 {
            run(&mut a, &mut ea, 64);
            run(&mut b, &mut eb, 64);
        }
        for k in 0..8 {
            for p in clk {
                let v = SAtom::param((k % 2) as f32);
                a.set_param(p, v.clone());
                b.set_param(p, v);
            }
            let frames = usize_in(100, 128);
            for _ in 0..5 {
                let (x, y) = (run(&mut a, &mut ea, frames), run(&mut b, &mut eb, frames));
                assert!(x.keys().eq(y.keys()), "the same nodes run");
                for (key, v) in x.iter() {
                    if cmp.contains(&key.0) && !feeds_from_other(&a, key.0, &cmp) {
                        let w = &y[key];
                        for f in 0..frames {
                            assert!(
                                (v[f] - w[f]).abs() <= 1e-3 * v[f].abs().max(1.0),
                                "{:?} output {} frame {}: {} before, {} after loading", key.0, key.1, f, v[f], w[f]
                            );
                        }
                    }
                }
            }
        }
    }

    fn copy_by_hand(a: &mut Matrix) -> (Matrix, nodes::NodeExecutor) {
        let (mut m, ex) = engine();
        for id in ALL_NODE_IDS.iter() {
            for k in 0..4 {
                let (ps, ats) = params_of(id.to_instance(k));
                for p in ps.into_iter().chain(ats) {
                    if let Some(v) = a.get_param(&p) {
                        m.set_param(p, v);
                    }
                    if let Some(v) = a.get_param_modamt(&p) {
                        let _ = m.set_param_modamt(p, Some(v));
                    }
                }
            }
        }
        for x in 0..W {
            for y in 0..H {
                m.place(x, y, a.get_copy(x, y).unwrap());
            }
        }
        m.sync().unwrap();
        for t in [0, 1] {
            let (src, dst) = (a.get_pattern_data(t).unwrap(), m.get_pattern_data(t).unwrap());
            let (mut src, mut dst) = (src.lock().unwrap(), dst.lock().unwrap());
            for c in 0..6 {
                if src.is_col_note(c) {
                    dst.set_col_note_type(c);
                } else if src.is_col_step(c) {
                    dst.set_col_step_type(c);
                } else if src.is_col_gate(c) {
                    dst.set_col_gate_type(c);
                }
                for r in 0..256 {
                    if src.get_cell(r, c).is_some() {
                        let v = src.get_cell_value(r, c);
                        dst.set_cell_value(r, c, v);
                    }
                }
            }
            dst.set_rows(src.rows());
        }
        let snap = a.get_block_function(0).unwrap().lock().unwrap().save_snapshot();
        m.get_block_function(0).unwrap().lock().unwrap().load_snapshot(&snap);
        (m, ex)
    }

    /// Whether something else than the nodes that are compared feeds the node.
    fn feeds_from_other(m: &Matrix, id: NodeId, cmp: &[NodeId]) -> bool {
        let (_, edges) = crate::util::matrix_edges(m);
        let mut todo = vec![id];
        let mut seen = vec![id];
        while let Some(n) = todo.pop() {
            for e in edges.iter() {
                if e.2 == n {
                    if !cmp.contains(&e.0) {
                        return true;
                    }
                    if !seen.contains(&e.0) {
                        seen.push(e.0);
                        todo.push(e.0);
                    }
                }
            }
        }
        false
    }

    fn junk() -> Value {
        match u8_in(0, 12) {
            0 => Value::Null,
            1 => json!(-1),
            2 => json!(300),
            3 => json!(i64::MIN),
            4 => json!(u64::MAX),
            5 => json!(1e300),
            6 => json!("amp"),
            7 => json!("no such thing"),
            8 => json!([]),
            9 => json!({}),
            10 => json!(true),
            11 => json!(["sin", 0, "freq", ["x", 1]]),
            _ => json!(usize_in(0, 20)),
        }
    }

    fn mutate(v: &mut Value, depth: usize) {
        let leaf = depth > 1 && u8_in(0, 5) == 0;
        match v {
            Value::Array(a) if !leaf && a.len() > 0 => {
                let n = a.len();
                match u8_in(0, 11) {
                    0 => {
                        a.remove(usize_in(0, n - 1));
                    }
                    1 => {
                        let e = a[usize_in(0, n - 1)].clone();
                        a.insert(usize_in(0, n), e);
                    }
                    2 => a.insert(usize_in(0, n), junk()),
                    _ => mutate(&mut a[usize_in(0, n - 1)], depth + 1),
                }
            }
            Value::Object(o) if !leaf && o.len() > 0 => {
                let keys: Vec<String> = o.keys().filter(|k| *k != "block_funs").cloned().collect();
                let k = keys[usize_in(0, keys.len() - 1)].clone();
                if u8_in(0, 11) == 0 {
                    o.remove(&k);
                } else {
                    mutate(o.get_mut(&k).unwrap(), depth + 1);
                }
            }
            v => *v = junk(),
        }
    }

    pub fn bad_document_case() {
        let (mut a, _) = engine();
        build(&mut a, usize_in(3, 20));
        let mut doc = save_patch_to_mem(&mut a);
        let (mut b, mut eb) = engine();
        build(&mut b, usize_in(0, 12));
        let mut keys = keys_of(&save_patch_to_mem(&mut b));
        keys.extend(keys_of(&doc));
        let before = see(&mut b, &keys);
        let gen = b.get_generation();
        let mut must_fail = false;
        let mut outside = None;
        match u8_in(0, 8) {
            4 => {
                // cells outside of the matrix are left out
                outside = Some(doc.clone());
                let mut v: Value = serde_json::from_slice(&doc).unwrap();
                let (x, y) = match u8_in(0, 2) {
                    0 => (256 * usize_in(1, 3) + usize_in(0, 3), usize_in(0, 3)),
                    1 => (usize_in(0, 3), 256 * usize_in(1, 3) + usize_in(0, 3)),
                    _ => (usize_in(0, 3), usize_in(4, 300)),
                };
                v["cells"].as_array_mut().unwrap().push(json!(["sin", 3, x, y, [-1, -1, -1], [-1, -1, -1]]));
                doc = v.to_string().into_bytes();
            }
            0 => {
                // cut off
                let n = usize_in(0, doc.len() - 3);
                doc.truncate(n);
                must_fail = true;
            }
            1 => {
                // flipped byte
                let k = usize_in(0, doc.len() - 1);
                doc[k] = any();
            }
            2 => {
                let mut v: Value = serde_json::from_slice(&doc).unwrap();
                v["VERSION"] = json!(3 + (any::<u8>() as i64));
                doc = v.to_string().into_bytes();
                must_fail = true;
            }
            3 => {
                // unknown node, parameter or atom
                let mut v: Value = serde_json::from_slice(&doc).unwrap();
                match u8_in(0, 4) {
                    0 => v["cells"].as_array_mut().unwrap().push(json!(["nonode", 0, 1, 1, [-1, -1, -1], [-1, -1, -1]])),
                    1 => v["params"].as_array_mut().unwrap().push(json!(["amp", 0, "noparam", 0.5])),
                    2 => v["params"].as_array_mut().unwrap().push(json!(["nonode", 0, "gain", 0.5])),
                    3 => v["atoms"].as_array_mut().unwrap().push(json!(["amp", 0, "neg_att", ["?", 0.5]])),
                    _ => v["props"].as_array_mut().unwrap().push(json!(["k", ["ms", 0.5]])),
                }
                doc = v.to_string().into_bytes();
                must_fail = true;
            }
            _ => {
                let mut v: Value = serde_json::from_slice(&doc).unwrap();
                for _ in 0..usize_in(1, 4) {
                    mutate(&mut v, 0);
                }
                doc = v.to_string().into_bytes();
            }
        }
        let parsed = MatrixRepr::read_from_mem(&doc);
        assert!(!must_fail || parsed.is_err(), "a document that is not a patch is refused");
        let r = load_patch_from_mem(&mut b, &doc);
        if parsed.is_err() {
            assert!(r.is_err(), "refused document is loaded");
            assert!(before == see(&mut b, &keys) && gen == b.get_generation(), "a refused document changes nothing");
        }
        if let Some(d) = outside {
            let (mut c, _ec) = engine();
            load_patch_from_mem(&mut c, &d).unwrap();
            r.unwrap();
            assert!(see(&mut b, &keys).cells == see(&mut c, &keys).cells, "a cell outside of the matrix is left out");
        }
        // whatever was loaded, the engine goes on
        for _ in 0..2 {
            eb.process_graph_updates();
            eb.process(&mut Ctx(64));
        }
        let _ = save_patch_to_mem(&mut b);
    }

    pub fn file_case() {
        use std::sync::atomic::*;
        static N: AtomicUsize = AtomicUsize::new(0);
        let n = N.fetch_add(1, Ordering::SeqCst);
        let dir = std::env::temp_dir().join(format!("hexo-p09-{}-{}", std::process::id(), n));
        std::fs::create_dir_all(&dir).unwrap();
        let r = std::panic::catch_unwind(|| file_steps(&dir));
        let _ = std::fs::remove_dir_all(&dir);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }

    fn file_steps(dir: &std::path::Path) {
        let path = dir.join("patch.hxy");
        let tmp = dir.join("patch.hxy~");
        let name = path.to_str().unwrap();
        let (mut a, _ea) = engine();
        let (mut b, _eb) = engine();
        let mut good: Option<Vec<u8>> = None;
        for _ in 0..usize_in(2, 5) {
            build(&mut a, usize_in(1, 10));
            let doc = save_patch_to_mem(&mut a);
            match u8_in(0, 4) {
                0 => {
                    // the disk is full
                    let _ = std::fs::remove_file(&tmp);
                    std::os::unix::fs::symlink("/dev/full", &tmp).unwrap();
                    assert!(save_patch_to_file(&mut a, name).is_err(), "a save that fails says so");
                    let _ = std::fs::remove_file(&tmp);
                }
                1 => {
                    let missing = dir.join("nodir").join("x.hxy");
                    assert!(save_patch_to_file(&mut a, missing.to_str().unwrap()).is_err(), "a save that fails says so");
                }
                _ => {
                    // left overs of an interrupted save do not matter
                    if any::<bool>() {
                        std::fs::write(&tmp, vec![b'x'; doc.len() + 100]).unwrap();
                    }
                    save_patch_to_file(&mut a, name).expect("saving to a file");
                    good = Some(doc);
                }
            }
            match &good {
                Some(d) => {
                    assert!(std::fs::read(&path).unwrap() == *d, "the file holds the last patch that was saved");
                    load_patch_from_file(&mut b, name).expect("the file can be loaded");
                    let (mut x, _) = engine();
                    load_patch_from_mem(&mut x, d).unwrap();
                    let keys = keys_of(d);
                    let (p, q) = (see(&mut x, &keys), see(&mut b, &keys));
                    assert!(p == q, "the file is the patch: {:?}    FILE {:?}", p, q);
                }
                None => {
                    assert!(!path.exists(), "nothing was saved");
                    assert!(load_patch_from_file(&mut b, name).is_err(), "there is no file");
                }
            }
        }
    }
}
