//! P05: the hexagonal matrix.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
#[cfg(not(kani))]
use crate::util::*;
use hexodsp::{Cell, CellDir, NodeId};

const DIRS: [CellDir; 6] = [CellDir::TR, CellDir::BR, CellDir::B, CellDir::BL, CellDir::TL, CellDir::T];

fn any_dir() -> CellDir {
    CellDir::from(u8_in(0, 6))
}
fn any_port() -> Option<u8> {
    if any::<bool>() {
        Some(any())
    } else {
        None
    }
}
fn any_cell() -> Cell {
    let id = match u8_in(0, 3) {
        0 => NodeId::Nop,
        1 => NodeId::Sin(any()),
        2 => NodeId::Amp(any()),
        _ => NodeId::Out(any()),
    };
    Cell::empty_at(id, any(), any()).input(any_port(), any_port(), any_port()).out(any_port(), any_port(), any_port())
}

#[cfg(kani)]
mod contracts {
    use super::*;
    use hexodsp::Matrix;
    #[kani::proof_for_contract(Cell::set_io_dir)]
    fn c_set_io_dir() {
        any_cell().set_io_dir(any_dir(), any());
    }
    #[kani::proof_for_contract(Cell::clear_io_dir)]
    fn c_clear_io_dir() {
        any_cell().clear_io_dir(any_dir());
    }
    #[kani::proof_for_contract(Cell::has_dir_set)]
    fn c_has_dir_set() {
        any_cell().has_dir_set(any_dir());
    }
    #[kani::proof_for_contract(Cell::offs_dir)]
    fn c_offs_dir() {
        any_cell().offs_dir(any_dir());
    }

    /// A grid of up to 3x3 arbitrary cells.
    fn grid(f: impl FnOnce(&mut Matrix, usize, usize, &[Cell; 9])) {
        let (w, h) = (usize_in(1, 3), usize_in(1, 3));
        let c: [Cell; 9] = [any_cell(), any_cell(), any_cell(), any_cell(), any_cell(), any_cell(), any_cell(), any_cell(), any_cell()];
        let mut m = Matrix::verif_grid(w, h, c.to_vec());
        f(unsafe { &mut *m.as_mut_ptr() }, w, h, &c);
    }
    fn eq(a: &Cell, b: &Cell) -> bool {
        a.pos() == b.pos() && a.node_id() == b.node_id() && DIRS.iter().all(|d| a.local_port_idx(*d) == b.local_port_idx(*d))
    }

    /// place stores the cell at its position and nowhere else; outside of the grid it is ignored.
    #[kani::proof]
    #[kani::unwind(10)]
    fn grid_place() {
        grid(|m, w, h, c| {
            let (x, y, n) = (any::<usize>(), any::<usize>(), any_cell());
            m.place(x, y, n);
            let (a, b) = (usize_in(0, 2), usize_in(0, 2));
            assume(a < w && b < h);
            let got = m.get(a, b).unwrap();
            kani::cover!(a == x && b == y, "the placed cell");
            if a == x && b == y {
                assert!(got.pos() == (x, y) && eq(&got.with_pos_of(n), &n), "the placed cell");
            } else {
                assert!(eq(got, &c[a * h + b]), "other cells stay");
            }
        });
    }
    #[kani::proof]
    #[kani::unwind(10)]
    fn grid_get() {
        grid(|m, w, h, c| {
            let (x, y) = (any::<usize>(), any::<usize>());
            let inside = x < w && y < h;
            kani::cover!(inside, "inside");
            assert!(m.get(x, y).is_some() == inside && m.get_copy(x, y).is_some() == inside, "cells of the grid");
            if let Some(g) = m.get_copy(x, y) {
                assert!(g.pos() == (x, y) && eq(&g.with_pos_of(c[x * h + y]), &c[x * h + y]), "copy has its position");
            }
        });
    }
    /// The neighbour is the cell behind the edge.
    #[kani::proof]
    #[kani::unwind(10)]
    fn grid_adjacent() {
        grid(|m, w, h, c| {
            let (x, y, d) = (usize_in(0, 2), usize_in(0, 2), any_dir());
            assume(x < w && y < h);
            match (m.get_adjacent(x, y, d), d.offs_pos((x, y))) {
                (Some(a), Some((nx, ny))) => {
                    kani::cover!(true, "neighbour");
                    assert!(nx < w && ny < h && eq(a, &c[nx * h + ny]), "cell behind the edge");
                }
                (None, Some((nx, ny))) => assert!(nx >= w || ny >= h, "no cell behind the edge"),
                (r, None) => assert!(r.is_none(), "no cell behind the edge"),
            }
        });
    }
    /// An input gets the output that lies on the other side of the same edge.
    #[kani::proof]
    #[kani::unwind(10)]
    fn grid_adjacent_output() {
        grid(|m, w, h, _| {
            let (x, y, d) = (usize_in(0, 2), usize_in(0, 2), CellDir::from(u8_in(0, 5)));
            assume(x < w && y < h);
            let want = match (m.get_adjacent(x, y, d), d.is_input()) {
                (Some(c), true) if !c.is_empty() => c.local_port_idx(d.flip()).map(|o| (c.node_id(), o)),
                _ => None,
            };
            kani::cover!(want.is_some(), "connected");
            assert!(m.get_adjacent_output(x, y, d) == want, "output behind the input");
            let has = match (m.get_adjacent(x, y, d), d.is_output()) {
                (Some(c), true) => c.has_dir_set(d.flip()),
                _ => false,
            };
            assert!(m.adjacent_edge_has_input(x, y, d) == has, "input behind the output");
        });
    }
}

harnesses! {
    kani cell_ports (8) {
        let mut c = any_cell();
        let was = c;
        let (d, e, k) = (any_dir(), any_dir(), any::<u8>());
        let clear = any::<bool>();
        if clear {
            c.clear_io_dir(d);
        } else {
            c.set_io_dir(d, k as usize);
        }
        reach!(clear && d != CellDir::C, "one port cleared");
        let want = if e == CellDir::C {
            None
        } else if clear {
            if d == e || d == CellDir::C { None } else { was.local_port_idx(e) }
        } else if d == e { Some(k) } else { was.local_port_idx(e) };
        assert!(c.local_port_idx(e) == want, "port {:?} after changing {:?}", e, d);
        assert!(c.has_dir_set(e) == want.is_some(), "port is set");
        assert!(c.node_id() == was.node_id() && c.pos() == was.pos(), "the rest stays");
    }
    kani cell_builders (8) {
        let (i, o) = ((any_port(), any_port(), any_port()), (any_port(), any_port(), any_port()));
        let mut c = Cell::empty_at(NodeId::Sin(any()), any(), any()).input(i.0, i.1, i.2).out(o.0, o.1, o.2);
        assert!(c.local_port_idx(CellDir::T) == i.0 && c.local_port_idx(CellDir::TL) == i.1 && c.local_port_idx(CellDir::BL) == i.2, "inputs");
        assert!(c.local_port_idx(CellDir::TR) == o.0 && c.local_port_idx(CellDir::BR) == o.1 && c.local_port_idx(CellDir::B) == o.2, "outputs");
        let n = NodeId::Amp(any());
        let was = c;
        if any::<bool>() {
            c.set_node_id_keep_ios(n);
            for d in DIRS {
                assert!(c.local_port_idx(d) == was.local_port_idx(d), "keeps the ports");
            }
        } else {
            c.set_node_id(n);
            for d in DIRS {
                assert!(c.local_port_idx(d).is_none(), "a new node has no ports");
            }
        }
        assert!(c.node_id() == n && c.pos() == was.pos(), "node of the cell");
    }

    bounded grid_queries (1500) { query_case(); }
    bounded check_result (1200) { check_case(); }
    bounded rollback (1200) { rollback_case(); }
    bounded chains (600) { chain_case(); }
    bounded sync_program (120) { sync_case(); }
}

#[cfg(not(kani))]
fn random_matrix(maxw: usize) -> (hexodsp::Matrix, hexodsp::NodeExecutor, Vec<Vec<Cell>>) {
    use hexodsp::*;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    let (w, h) = (usize_in(1, maxw), usize_in(1, maxw));
    let mut m = Matrix::new(nc, w, h);
    let mut model = vec![vec![Cell::empty(NodeId::Nop); h]; w];
    for x in 0..w {
        for y in 0..h {
            model[x][y] = Cell::empty_at(NodeId::Nop, x as u8, y as u8);
        }
    }
    let kinds = usize_in(1, 8);
    for _ in 0..usize_in(0, w * h + 2) {
        let (x, y, c) = (usize_in(0, w + 1), usize_in(0, h + 1), random_cell(kinds));
        if any::<bool>() {
            m.place(x, y, c);
        } else {
            m.place_cell(c.with_pos_of(Cell::empty_at(NodeId::Nop, x as u8, y as u8)));
        }
        if x < w && y < h {
            model[x][y] = c.with_pos_of(Cell::empty_at(NodeId::Nop, x as u8, y as u8));
        }
    }
    (m, ex, model)
}

/// Position behind an edge, from the picture of the grid (not from the code).
#[cfg(not(kani))]
fn behind(x: usize, y: usize, d: CellDir, w: usize, h: usize) -> Option<(usize, usize)> {
    let (x, y) = (x as i64, y as i64);
    let (up, dn) = if x % 2 == 0 { (y - 1, y) } else { (y, y + 1) };
    let (a, b) = match d {
        CellDir::TR => (x + 1, up),
        CellDir::BR => (x + 1, dn),
        CellDir::B => (x, y + 1),
        CellDir::BL => (x - 1, dn),
        CellDir::TL => (x - 1, up),
        CellDir::T => (x, y - 1),
        CellDir::C => (x, y),
    };
    if a < 0 || b < 0 || a >= w as i64 || b >= h as i64 {
        None
    } else {
        Some((a as usize, b as usize))
    }
}

#[cfg(not(kani))]
fn query_case() {
    let (m, _ex, model) = random_matrix(7);
    let (w, h) = m.size();
    assert!((w, h) == (model.len(), model[0].len()), "size");
    let mut seen = vec![];
    m.for_each(|x, y, c| {
        let mut c = *c;
        c = c.with_pos_of(Cell::empty_at(NodeId::Nop, x as u8, y as u8));
        assert!(c == model[x][y], "for_each {},{}", x, y);
        seen.push((x, y));
    });
    seen.sort();
    seen.dedup();
    assert!(seen.len() == w * h, "for_each visits every cell once");
    assert!(m.get(w, 0).is_none() && m.get(0, h).is_none() && m.get_copy(w, h).is_none(), "outside");
    let port = |x: usize, y: usize, d: CellDir| model[x][y].local_port_idx(d);
    for x in 0..w {
        for y in 0..h {
            assert!(m.get_copy(x, y) == Some(model[x][y]), "cell {},{}", x, y);
            let c = model[x][y];
            let mut want = vec![];
            for d in DIRS {
                let n = behind(x, y, d, w, h);
                let adj = m.get_adjacent(x, y, d).copied();
                assert!(adj.map(|a| a.node_id()) == n.map(|(a, b)| model[a][b].node_id()), "neighbour of {},{} {:?}", x, y, d);
                if let Some((a, b)) = n {
                    for e in DIRS {
                        assert!(adj.unwrap().local_port_idx(e) == port(a, b, e), "neighbour of {},{} {:?}", x, y, d);
                    }
                }
                let out = n.filter(|(a, b)| d.is_input() && !model[*a][*b].is_empty()).and_then(|(a, b)| port(a, b, d.flip()).map(|p| (model[a][b].node_id(), p)));
                assert!(m.get_adjacent_output(x, y, d) == out, "adjacent output of {},{} {:?}", x, y, d);
                let inp = d.is_output() && n.map(|(a, b)| port(a, b, d.flip()).is_some()).unwrap_or(false);
                assert!(m.adjacent_edge_has_input(x, y, d) == inp, "adjacent input of {},{} {:?}", x, y, d);
                let con = n.filter(|(a, b)| port(x, y, d).is_some() && port(*a, *b, d.flip()).is_some());
                assert!(c.is_port_dir_connected(&m, d) == con, "connected {},{} {:?}", x, y, d);
                if let Some((a, b)) = con {
                    want.push((d, port(x, y, d).unwrap(), port(a, b, d.flip()).unwrap(), (a, b)));
                }
            }
            let got = m.get_connections(x, y).expect("cell exists");
            assert!(got.len() == want.len(), "connections of {},{}", x, y);
            for ((a, ad, ap), (b, bd, bp, bpos)) in got {
                assert!(want.contains(&(ad, ap, bp, bpos)) && bd == ad.flip(), "connection of {},{}", x, y);
                assert!(a.node_id() == c.node_id() && b.node_id() == model[bpos.0][bpos.1].node_id(), "cells of the connection");
            }
            for dir in [CellDir::C, CellDir::T, CellDir::B] {
                let opts: Vec<CellDir> = DIRS.iter().copied().filter(|d| dir == CellDir::C || d.is_input() == dir.is_input()).collect();
                let free: Vec<(CellDir, (usize, usize))> = opts
                    .iter()
                    .filter_map(|d| behind(x, y, *d, w, h).filter(|(a, b)| model[*a][*b].is_empty()).map(|p| (*d, p)))
                    .collect();
                let mut got = c.find_all_adjacent_free(&m, dir);
                got.sort();
                let mut f = free.clone();
                f.sort();
                assert!(got == f, "free neighbours of {},{} {:?}", x, y, dir);
                match c.find_first_adjacent_free(&m, dir) {
                    None => assert!(free.is_empty(), "a free neighbour was missed"),
                    Some((d, p)) => {
                        assert!(free.iter().any(|x| x.0 == d) && p == c.local_port_idx(d), "first free neighbour");
                        assert!(p.is_some() || free.iter().all(|f| !c.has_dir_set(f.0)), "ports that are set come first");
                    }
                }
                let mut un = c.find_unconnected_ports(&m, dir);
                un.sort();
                let mut wu: Vec<CellDir> = opts
                    .iter()
                    .copied()
                    .filter(|d| {
                        let n = behind(x, y, *d, w, h);
                        !(port(x, y, *d).is_some() && n.map(|(a, b)| port(a, b, d.flip()).is_some()).unwrap_or(false))
                    })
                    .collect();
                wu.sort();
                assert!(un == wu, "unconnected ports of {},{} {:?}", x, y, dir);
            }
        }
    }
    assert!(m.get_connections(w, 0).is_none(), "no cell, no connections");
}

#[cfg(not(kani))]
fn is_cyclic(nodes: &[NodeId], edges: &[(NodeId, u8, NodeId, u8)]) -> bool {
    let mut alive: Vec<NodeId> = nodes.to_vec();
    loop {
        let n = alive.len();
        let keep: Vec<NodeId> =
            alive.iter().copied().filter(|x| edges.iter().any(|e| e.2 == *x && alive.contains(&e.0))).collect();
        alive = keep;
        if alive.len() == n {
            return n > 0;
        }
    }
}

#[cfg(not(kani))]
fn verdict(m: &hexodsp::Matrix) -> (Vec<(NodeId, u8, NodeId, u8)>, bool, bool) {
    let (nodes, edges) = matrix_edges(m);
    let dup = edges.iter().enumerate().any(|(i, a)| edges[..i].iter().any(|b| (a.2, a.3) == (b.2, b.3)));
    let cy = is_cyclic(&nodes, &edges);
    (edges, dup, cy)
}

#[cfg(not(kani))]
fn used_inputs(m: &hexodsp::Matrix, edges: &[(NodeId, u8, NodeId, u8)]) {
    use hexodsp::*;
    let (nodes, _) = matrix_edges(m);
    for n in nodes {
        for i in 0..NodeInfo::from_node_id(n).in_count() {
            let p = n.inp_param_by_idx(i).unwrap();
            let want = edges.iter().any(|e| e.2 == n && e.3 as usize == i);
            assert!(m.param_input_is_used(p) == want, "use of input {:?} {}", n, p.name());
        }
    }
}

#[cfg(not(kani))]
fn check_case() {
    use hexodsp::matrix::MatrixError;
    let (mut m, _ex, model) = random_matrix(4);
    let (edges, dup, cy) = verdict(&m);
    match m.check() {
        Ok(()) => assert!(!dup && !cy, "invalid matrix accepted: {:?}", edges),
        Err(MatrixError::DuplicatedInput { output1, output2 }) => {
            assert!(
                edges.iter().any(|a| (a.0, a.1) == output1 && edges.iter().any(|b| (b.0, b.1) == output2 && (b.2, b.3) == (a.2, a.3))),
                "reported outputs share an input"
            );
            assert!(dup, "no input has two connections: {:?}", edges);
        }
        Err(MatrixError::CycleDetected) => assert!(cy, "no cycle: {:?}", edges),
        Err(e) => panic!("unexpected {:?}", e),
    }
    used_inputs(&m, &edges);
    for (x, col) in model.iter().enumerate() {
        for (y, c) in col.iter().enumerate() {
            assert!(m.get_copy(x, y) == Some(*c), "check does not change the grid");
        }
    }
}

#[cfg(not(kani))]
fn rollback_case() {
    use hexodsp::matrix::MatrixError;
    let (mut m, _ex, mut model) = random_matrix(4);
    let (w, h) = m.size();
    let (e0, _, _) = verdict(&m);
    if any::<bool>() {
        let _ = m.check();
    }
    for _ in 0..2 {
        let n = usize_in(0, 4);
        let ch: Vec<(usize, usize, Cell)> = (0..n).map(|_| (usize_in(0, w - 1), usize_in(0, h - 1), random_cell(8))).collect();
        let mut after = model.clone();
        for (x, y, c) in &ch {
            after[*x][*y] = c.with_pos_of(Cell::empty_at(NodeId::Nop, *x as u8, *y as u8));
        }
        let fail = any::<u8>() % 4 == 0;
        let multi = any::<u8>() % 3 == 0;
        let r = if multi {
            let cells: Vec<Cell> = ch.iter().map(|(x, y, c)| c.with_pos_of(Cell::empty_at(NodeId::Nop, *x as u8, *y as u8))).collect();
            let mut occ = model.clone();
            let blocked = cells.iter().any(|c| {
                let (x, y) = c.pos();
                let b = !occ[x][y].is_empty();
                occ[x][y] = *c;
                b
            });
            let oob = any::<u8>() % 4 == 0;
            let r = m.change_matrix_err(|m| {
                let mut c = cells.clone();
                if oob {
                    c.push(Cell::empty_at(NodeId::Sin(0), w as u8, 0));
                }
                m.place_multiple(&c)
            });
            match &r {
                Ok(()) => assert!(!blocked && !oob, "cells were overwritten"),
                Err(MatrixError::NonEmptyCell { .. }) => assert!(blocked, "no cell is occupied"),
                Err(MatrixError::PosOutOfRange) => assert!(oob, "position is inside"),
                _ => (),
            }
            r
        } else if any::<bool>() {
            m.change_matrix_err(|m| {
                for (x, y, c) in &ch {
                    m.place(*x, *y, *c);
                }
                if fail {
                    Err(MatrixError::PosOutOfRange)
                } else {
                    Ok(())
                }
            })
        } else {
            m.change_matrix(|m| {
                for (x, y, c) in &ch {
                    m.place(*x, *y, *c);
                }
            })
        };
        if r.is_ok() {
            model = after;
        }
        for x in 0..w {
            for y in 0..h {
                assert!(m.get_copy(x, y) == Some(model[x][y]), "cell {},{} after {:?}", x, y, r);
            }
        }
        let (e, dup, cy) = verdict(&m);
        if r.is_ok() {
            assert!(!dup && !cy, "invalid matrix accepted");
        } else if r == Err(MatrixError::CycleDetected) || matches!(r, Err(MatrixError::DuplicatedInput { .. })) {
            used_inputs(&m, &e);
        }
    }
    let _ = e0;
}

/// Chains: consecutive cells in the direction, connected, parameters on the placed nodes.
#[cfg(not(kani))]
fn chain_case() {
    use hexodsp::*;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    let mut m = Matrix::new(nc, 12, 12);
    // some instances are in use already, with holes between them
    let mut used: Vec<NodeId> = vec![];
    if any::<bool>() {
        for y in 0..usize_in(1, 5) {
            let i = u8_in(0, 5);
            let id = if any::<u8>() % 3 == 0 { NodeId::Mix3(i) } else { NodeId::Amp(i) };
            m.place(11, 2 * y, Cell::empty(id));
            used.push(id);
        }
        m.sync().unwrap();
    }
    let d = CellDir::from(u8_in(0, 5));
    let (x0, y0) = (usize_in(4, 7), usize_in(4, 7));
    let n = usize_in(1, 4);
    let mut ch = MatrixCellChain::new(d);
    let mut want = vec![];
    for k in 0..n {
        let v = f32_in(0.0, 1.0);
        match u8_in(0, 3) {
            0 => {
                ch.node_out("amp", "sig");
                want.push(("amp", None, Some("sig"), "att", v));
            }
            1 => {
                ch.node_io("mix3", "ch2", "sig");
                want.push(("mix3", Some("ch2"), Some("sig"), "vol1", v));
            }
            2 => {
                ch.node_inp("amp", "gain");
                want.push(("amp", Some("gain"), None, "gain", v));
            }
            _ => {
                ch.node("amp");
                want.push(("amp", None, None, "inp", v));
            }
        }
        ch.set_norm(want[k].3, v);
    }
    let err = any::<u8>() % 8 == 0;
    if err {
        match u8_in(0, 2) {
            0 => ch.node("nosuchnode"),
            1 => ch.node_out("amp", "nosuchport"),
            _ => ch.node_inp("amp", "nosuchport"),
        };
    }
    let r = ch.place(&mut m, x0, y0);
    assert!(r.is_err() == err, "unknown names are reported: {:?}", r);
    let mut count = 0;
    let (mut x, mut y) = (x0, y0);
    let mut ids: Vec<NodeId> = vec![];
    let (od, id) = if d.is_output() { (d, d.flip()) } else { (d.flip(), d) };
    for (name, i, o, p, v) in &want {
        let c = m.get_copy(x, y).unwrap();
        if err {
            assert!(c.is_empty(), "nothing is placed");
            continue;
        }
        assert!(c.node_id().name() == *name, "cell {},{} is {:?}", x, y, c.node_id());
        assert!(!used.contains(&c.node_id()), "placed node {:?} is in use already", c.node_id());
        assert!(!ids.contains(&c.node_id()), "node instance is used twice");
        ids.push(c.node_id());
        for e in DIRS {
            let w = if e == od { o.map(|o| c.node_id().out(o).unwrap()) } else if e == id { i.map(|i| c.node_id().inp(i).unwrap()) } else { None };
            assert!(c.local_port_idx(e) == w, "port {:?} of {:?}", e, c.node_id());
        }
        let pv = m.get_param(&c.node_id().inp_param(p).unwrap());
        assert!(pv.map(|a| a.f()) == Some(*v), "parameter {} of {:?}", p, c.node_id());
        count += 1;
        let (a, b) = behind(x, y, d, 12, 12).unwrap();
        x = a;
        y = b;
    }
    let mut cells = 0;
    m.for_each(|x, y, c| cells += (!c.is_empty() && x != 11) as usize);
    assert!(cells == count, "only the chain is placed");
}

/// What runs after a sync is what the grid shows.
#[cfg(not(kani))]
fn sync_case() {
    let (mut m, mut ex, _) = random_matrix(4);
    for _ in 0..2 {
        let (edges, dup, cy) = verdict(&m);
        if dup || cy {
            return;
        }
        let g = m.get_generation();
        m.sync().unwrap();
        assert!(m.get_generation() > g, "generation counts changes");
        used_inputs(&m, &edges);
        ex.process_graph_updates();
        let p = ex.get_prog();
        let mut got = vec![];
        for o in &p.prog {
            for (out, inp, _) in &o.inputs {
                let s = p.prog.iter().find(|s| *out >= s.out_idxlen.0 && *out < s.out_idxlen.1).expect("source runs");
                got.push((s.node.id(), (out - s.out_idxlen.0) as u8, o.node.id(), (inp - o.in_idxlen.0) as u8));
            }
        }
        let mut want = edges.clone();
        got.sort();
        want.sort();
        assert!(got == want, "connections {:?} want {:?}", got, want);
        let (w, h) = m.size();
        m.place(usize_in(0, w - 1), usize_in(0, h - 1), random_cell(8));
    }
}
