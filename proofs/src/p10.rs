//! P10: the blocks of a block function: no overlap, exact moves, nothing lost.
use crate::harnesses;
use crate::sym::*;
use hexodsp::wblockdsp::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
struct B {
    id: usize,
    rows: usize,
    subs: [Option<usize>; 2],
    typ: String,
    lbl: String,
    inputs: Vec<Option<String>>,
    outputs: Vec<Option<String>>,
    color: usize,
}
type Area = BTreeMap<(i64, i64), B>;
type State = Vec<Area>;

const TYPES: [(&str, usize, &[Option<&str>], &[Option<&str>], usize); 8] = [
    ("one", 1, &[], &[Some("")], 0),
    ("fwd", 1, &[Some("")], &[Some("")], 0),
    ("add", 2, &[Some("a"), Some("b")], &[Some("")], 0),
    ("gap", 3, &[Some("x"), None, Some("z")], &[None, Some("o"), Some("p")], 0),
    ("sink", 1, &[Some("")], &[], 0),
    ("if", 1, &[Some("c")], &[Some("")], 2),
    ("loop", 2, &[Some("c")], &[Some(""), Some("n")], 1),
    ("high", 4, &[Some("a")], &[None, None, None, Some("q")], 0),
];

fn names(v: &[Option<&str>]) -> Vec<Option<String>> {
    v.iter().map(|s| s.map(|s| s.to_string())).collect()
}

fn language() -> Rc<RefCell<BlockLanguage>> {
    let mut l = BlockLanguage::new();
    for (i, (name, rows, inputs, outputs, areas)) in TYPES.iter().enumerate() {
        l.define(BlockType {
            category: "c".to_string(),
            name: name.to_string(),
            rows: *rows,
            inputs: names(inputs),
            outputs: names(outputs),
            area_count: *areas,
            user_input: BlockUserInput::None,
            description: "".to_string(),
            color: i,
        });
    }
    Rc::new(RefCell::new(l))
}

/// What is in the block function, by its saved form.
fn state(bf: &BlockFun) -> State {
    let v = bf.save_snapshot().serialize();
    let mut st = vec![];
    for a in v["areas"].as_array().unwrap() {
        let mut area = Area::new();
        for b in a["blocks"].as_array().unwrap() {
            let k = &b["block"];
            let ports = |n: &str| {
                k[n].as_array().unwrap().iter().map(|p| p.as_str().map(|s| s.to_string())).collect::<Vec<_>>()
            };
            let n = |n: &str| k[n].as_i64().unwrap() as usize;
            let sub = |i: usize| k["contains"][i].as_i64().map(|x| x as usize);
            let old = area.insert(
                (b["x"].as_i64().unwrap(), b["y"].as_i64().unwrap()),
                B {
                    id: n("id"),
                    rows: n("rows"),
                    subs: [sub(0), sub(1)],
                    typ: k["typ"].as_str().unwrap().to_string(),
                    lbl: k["lbl"].as_str().unwrap().to_string(),
                    inputs: ports("inputs"),
                    outputs: ports("outputs"),
                    color: n("color"),
                },
            );
            assert!(old.is_none(), "two blocks at one position");
        }
        st.push(area);
    }
    st
}

/// Origin of the block that covers a cell.
fn at(a: &Area, x: i64, y: i64) -> Option<(i64, i64)> {
    a.iter().find(|((bx, by), b)| *bx == x && *by <= y && y < *by + b.rows as i64).map(|(p, _)| *p)
}

fn free(a: &Area, x: i64, y: i64, rows: usize) -> bool {
    (0..rows as i64).all(|r| at(a, x, y + r).is_none())
}

/// All areas inside of a block, at any depth.
fn inside(st: &State, b: &B) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    let mut todo: Vec<usize> = b.subs.iter().flatten().cloned().collect();
    while let Some(a) = todo.pop() {
        if out.insert(a) {
            for b in st[a].values() {
                todo.extend(b.subs.iter().flatten());
            }
        }
    }
    out
}

/// Position of the blocks that are connected with the one at p.
fn chain(a: &Area, p: (i64, i64)) -> BTreeSet<(i64, i64)> {
    let port = |v: &Vec<Option<String>>, k: i64| k >= 0 && matches!(v.get(k as usize), Some(Some(_)));
    let mut out = BTreeSet::new();
    let mut todo = vec![p];
    while let Some(p) = todo.pop() {
        if !out.insert(p) {
            continue;
        }
        let b = &a[&p];
        for r in 0..b.rows as i64 {
            if port(&b.inputs, r) {
                if let Some(q) = at(a, p.0 - 1, p.1 + r) {
                    if port(&a[&q].outputs, p.1 + r - q.1) {
                        todo.push(q);
                    }
                }
            }
            if port(&b.outputs, r) {
                if let Some(q) = at(a, p.0 + 1, p.1 + r) {
                    if port(&a[&q].inputs, p.1 + r - q.1) {
                        todo.push(q);
                    }
                }
            }
        }
    }
    out
}

fn check_state(bf: &BlockFun, st: &State) {
    for (id, a) in st.iter().enumerate() {
        let mut cells: BTreeMap<(i64, i64), (i64, i64)> = BTreeMap::new();
        for (p, b) in a {
            for r in 0..b.rows as i64 {
                let c = (p.0, p.1 + r);
                assert!(cells.insert(c, *p).is_none(), "two blocks cover {:?} in area {}", c, id);
            }
            assert!(bf.block_at(id, p.0, p.1).is_some());
        }
        for x in -6..14 {
            for y in -8..22 {
                assert!(
                    bf.origin_at(id, x, y) == cells.get(&(x, y)).cloned(),
                    "origin of {:?} in area {}: {:?}, but {:?} is there",
                    (x, y),
                    id,
                    bf.origin_at(id, x, y),
                    cells.get(&(x, y))
                );
                let v = bf.block_at(id, x, y);
                match a.get(&(x, y)) {
                    None => assert!(v.is_none(), "a block where none starts"),
                    Some(b) => {
                        let v = v.unwrap();
                        assert!(v.rows() == b.rows && v.contains(0) == b.subs[0] && v.contains(1) == b.subs[1]);
                        for i in 0..6 {
                            assert!(v.has_input(i) == matches!(b.inputs.get(i), Some(Some(_))));
                            assert!(v.has_output(i) == matches!(b.outputs.get(i), Some(Some(_))));
                        }
                        assert!(v.custom_color() == Some(b.color));
                    }
                }
            }
        }
        for b in a.values() {
            assert!(!inside(st, b).contains(&id), "area {} is inside of itself", id);
        }
    }
    let mut ids = BTreeSet::new();
    let mut owned = BTreeSet::new();
    for b in st.iter().flat_map(|a| a.values()) {
        assert!(ids.insert(b.id), "block id {} used twice", b.id);
        for s in b.subs.iter().flatten() {
            assert!(*s > 0 && *s < st.len(), "unknown sub area {}", s);
            assert!(owned.insert(*s), "area {} is inside of two blocks", s);
        }
    }
}

fn same_blocks(a: &State, b: &State) -> bool {
    b.len() >= a.len() && a[..] == b[..a.len()] && b[a.len()..].iter().all(|x| x.is_empty())
}

/// Sizes: the cells of the blocks and their sub areas fit in.
fn check_sizes(bf: &BlockFun, st: &State) {
    fn need(st: &State, id: usize) -> (i64, i64) {
        let (mut w, mut h) = (1, 1);
        for (p, b) in &st[id] {
            w = w.max(p.0 + 1);
            h = h.max(p.1 + b.rows as i64);
            let mut prev = 1;
            for s in b.subs.iter().flatten() {
                let (sw, sh) = need(st, *s);
                w = w.max(p.0.max(0) + sw + 1);
                h = h.max(p.1.max(0) + prev + sh + 1);
                prev += prev + sh;
            }
        }
        (w, h)
    }
    fn walk(bf: &BlockFun, st: &State, id: usize) {
        let (w, h) = need(st, id);
        let s = bf.area_size(id);
        if id == 0 {
            assert!(s.0 as i64 >= w && s.1 as i64 >= h, "the main area is too small");
        } else {
            assert!(s == (w as usize, h as usize), "size of area {}: {:?}, not {:?}", id, s, (w, h));
        }
        for b in st[id].values() {
            for s in b.subs.iter().flatten() {
                walk(bf, st, *s);
            }
        }
    }
    walk(bf, st, 0);
}

fn new_block(t: usize, lbl: Option<String>, id: usize, first_area: usize) -> B {
    let (name, rows, inputs, outputs, areas) = TYPES[t];
    B {
        id,
        rows,
        subs: [
            if areas > 0 { Some(first_area) } else { None },
            if areas > 1 { Some(first_area + 1) } else { None },
        ],
        typ: name.to_string(),
        lbl: lbl.unwrap_or(name.to_string()),
        inputs: names(inputs),
        outputs: names(outputs),
        color: t,
    }
}

fn pick_area(st: &State) -> usize {
    if any::<u8>() % 12 == 0 {
        st.len() + usize_in(0, 1)
    } else {
        usize_in(0, st.len() - 1)
    }
}

fn pick_cell(a: Option<&Area>) -> (i64, i64) {
    if let Some(a) = a {
        if !a.is_empty() && any::<u8>() % 8 != 0 {
            let (p, b) = a.iter().nth(usize_in(0, a.len() - 1)).unwrap();
            return (p.0, p.1 + usize_in(0, b.rows - 1) as i64);
        }
    }
    (i64_in(-1, 6), i64_in(-1, 8))
}

fn target() -> (i64, i64) {
    (i64_in(-1, 6), i64_in(-2, 9))
}

harnesses! {
    bounded block_histories (5000) {
        let lang = language();
        let mut bf = BlockFun::new(lang.clone());
        let mut st: State = vec![Area::new()];
        for _ in 0..usize_in(1, 26) {
            let gen = BlockCodeView::generation(&bf);
            let mut used: BTreeSet<usize> = st.iter().flat_map(|a| a.values().map(|b| b.id)).collect();
            let id = pick_area(&st);
            let mut changed = false;
            match any::<u8>() % 14 {
                0..=4 => {
                    let (x, y) = target();
                    let t = usize_in(0, TYPES.len() - 1);
                    let known = any::<u8>() % 16 != 0;
                    let lbl = if any::<bool>() { Some(format!("l{}", any::<u8>())) } else { None };
                    let r = bf.instanciate_at(id, x, y, if known { TYPES[t].0 } else { "nope" }, lbl.clone());
                    let now = state(&bf);
                    if id >= st.len() {
                        assert!(r == Err(BlockDSPError::UnknownArea(id)));
                    } else if !known {
                        assert!(r == Err(BlockDSPError::UnknownLanguageType("nope".to_string())));
                    } else if !free(&st[id], x, y, TYPES[t].1) {
                        assert!(r == Err(BlockDSPError::NoSpaceAvailable(id, x, y, TYPES[t].1)));
                    } else {
                        assert!(r == Ok(()), "{:?}", r);
                        let bid = now[id][&(x, y)].id;
                        assert!(!used.contains(&bid), "id of another block");
                        let n = st.len();
                        st[id].insert((x, y), new_block(t, lbl, bid, n));
                        for _ in 0..TYPES[t].4 {
                            st.push(Area::new());
                        }
                        changed = true;
                    }
                    assert!(st == now, "after instanciate_at: {:?} is not {:?}", now, st);
                }
                5 => {
                    let (x, y) = pick_cell(st.get(id));
                    let r = bf.remove_at(id, x, y);
                    match st.get(id).map(|a| at(a, x, y)) {
                        None => assert!(r == Err(BlockDSPError::UnknownArea(id))),
                        Some(None) => assert!(r == Err(BlockDSPError::NoBlockAt(id, x, y))),
                        Some(Some(p)) => {
                            assert!(r == Ok(()));
                            st[id].remove(&p);
                            changed = true;
                        }
                    }
                }
                6 | 7 => {
                    let (x, y) = pick_cell(st.get(id));
                    let (id2, (x2, y2)) = (pick_area(&st), target());
                    let r = bf.move_block_from_to(id, x, y, id2, x2, y2);
                    if let Some(p) = st.get(id).and_then(|a| at(a, x, y)) {
                        let b = st[id][&p].clone();
                        if inside(&st, &b).contains(&id2) {
                            assert!(r == Err(BlockDSPError::CircularAction(id, id2)));
                        } else if id2 >= st.len() {
                            assert!(r == Err(BlockDSPError::UnknownArea(id2)));
                        } else {
                            let d = (x2, if y > p.1 { (y2 - (y - p.1)).max(0) } else { y2 });
                            st[id].remove(&p);
                            if free(&st[id2], d.0, d.1, b.rows) {
                                assert!(r == Ok(()), "{:?}", r);
                                st[id2].insert(d, b);
                                changed = true;
                            } else {
                                assert!(r == Err(BlockDSPError::NoSpaceAvailable(id2, d.0, d.1, b.rows)));
                                st[id].insert(p, b);
                            }
                        }
                    } else {
                        assert!(r.is_err());
                    }
                }
                8 | 9 => {
                    let (x, y) = pick_cell(st.get(id));
                    let (id2, (x2, y2)) = (pick_area(&st), target());
                    let r = bf.clone_block_from_to(id, x, y, id2, x2, y2);
                    let now = state(&bf);
                    if let Some(p) = st.get(id).and_then(|a| at(a, x, y)) {
                        let b = st[id][&p].clone();
                        let n = st.len();
                        let d = (x2, if y > p.1 { (y2 - (y - p.1)).max(0) } else { y2 });
                        let subs = b.subs.iter().flatten().count();
                        for _ in 0..subs {
                            st.push(Area::new());
                        }
                        if id2 < st.len() && free(&st[id2], d.0, d.1, b.rows) && r.is_ok() {
                            let bid = now[id2][&d].id;
                            assert!(!used.contains(&bid), "id of another block");
                            let mut c = b;
                            c.id = bid;
                            c.subs = [c.subs[0].map(|_| n), c.subs[1].map(|_| n + 1)];
                            st[id2].insert(d, c);
                            changed = true;
                        } else {
                            assert!(r.is_err());
                            assert!(id2 >= n || !free(&st[id2], d.0, d.1, b.rows), "{:?}", r);
                        }
                    } else {
                        assert!(r.is_err());
                    }
                    if r.is_err() {
                        st.truncate(now.len().max(1));
                    }
                }
                10 | 11 => {
                    let (x, y) = pick_cell(st.get(id));
                    let (id2, (x2, y2)) = (if any::<bool>() { id } else { pick_area(&st) }, target());
                    let r = bf.move_block_chain_from_to(id, x, y, id2, x2, y2);
                    let now = state(&bf);
                    if let Some(p) = st.get(id).and_then(|a| at(a, x, y)) {
                        let ch = chain(&st[id], p);
                        let mut rest = st.clone();
                        for q in &ch {
                            rest[id].remove(q);
                        }
                        let circular = ch.iter().any(|q| inside(&st, &st[id][q]).contains(&id2));
                        let (mx, my) = (ch.iter().map(|q| q.0).min().unwrap(), ch.iter().map(|q| q.1).min().unwrap());
                        // where the user wants the upper left corner to be
                        let want = if id2 == id {
                            (mx + x2 - x, my + y2 - y)
                        } else {
                            ((mx - x + x2).max(0), (my - y + y2).max(0))
                        };
                        let put = |o: (i64, i64)| -> Option<State> {
                            let mut n = rest.clone();
                            for q in &ch {
                                let b = st[id][q].clone();
                                let d = (q.0 - mx + want.0 + o.0, q.1 - my + want.1 + o.1);
                                if !free(&rest[id2], d.0, d.1, b.rows) {
                                    return None;
                                }
                                n[id2].insert(d, b);
                            }
                            Some(n)
                        };
                        if id2 >= st.len() || (circular && id2 != id) {
                            assert!(r.is_err());
                        } else if let Some(n) = put((0, 0)) {
                            assert!(r == Ok(()), "{:?}", r);
                            st = n;
                            changed = true;
                        } else {
                            let near: Vec<State> = (-1..=1)
                                .flat_map(|ox| (-3..=3).map(move |oy| (ox, oy)))
                                .filter_map(|o| put(o))
                                .collect();
                            if r == Ok(()) {
                                assert!(near.contains(&now), "the chain is not where it fits");
                                st = now.clone();
                                changed = true;
                            } else {
                                assert!(near.is_empty(), "{:?} but there is space", r);
                            }
                        }
                    } else {
                        assert!(r.is_err());
                    }
                }
                12 => {
                    let (x, y) = pick_cell(st.get(id));
                    let fill = any::<bool>();
                    let r = bf.split_block_chain_after(id, x, y, if fill { Some("fwd") } else { None });
                    let now = state(&bf);
                    if let Some(p) = st.get(id).and_then(|a| at(a, x, y)) {
                        let ch = chain(&st[id], p);
                        let mut n = st[id].clone();
                        for q in &ch {
                            n.remove(q);
                        }
                        let rest = n.clone();
                        let mut ok = true;
                        for q in &ch {
                            let b = st[id][q].clone();
                            let d = (if q.0 > x { q.0 + 1 } else { q.0 }, q.1);
                            ok = ok && free(&rest, d.0, d.1, b.rows);
                            n.insert(d, b);
                        }
                        if fill {
                            // every connection that is cut gets a block that forwards it
                            for q in ch.iter().filter(|q| q.0 == x + 1) {
                                for r in 0..st[id][q].rows as i64 {
                                    let c = (x + 1, q.1 + r);
                                    let cut = matches!(st[id][q].inputs.get(r as usize), Some(Some(_)))
                                        && at(&st[id], x, c.1).map_or(false, |o| {
                                            ch.contains(&o) && matches!(st[id][&o].outputs.get((c.1 - o.1) as usize), Some(Some(_)))
                                        });
                                    if cut && c.1 != y {
                                        ok = ok && free(&rest, c.0, c.1, 1);
                                        let bid = now[id].get(&c).map_or(usize::MAX, |b| b.id);
                                        if r == 0 || true {
                                            n.insert(c, new_block(1, None, bid, 0));
                                        }
                                    }
                                }
                            }
                        }
                        if ok {
                            assert!(r == Ok(()), "{:?}", r);
                            for b in n.values().filter(|b| b.typ == "fwd") {
                                used.insert(b.id);
                            }
                            st[id] = n;
                            changed = true;
                        } else {
                            assert!(r.is_err());
                        }
                    } else {
                        assert!(r.is_err());
                    }
                }
                _ => {
                    let (x, y) = pick_cell(st.get(id));
                    let out = any::<bool>();
                    if let Some(p) = st.get(id).and_then(|a| at(a, x, y)) {
                        let b = st[id].get_mut(&p).unwrap();
                        let row = if b.rows > 1 { usize_in(0, b.rows + 1) } else { 0 };
                        bf.shift_port(id, x, y, row, out);
                        if b.rows > 1 {
                            let v = if out { &mut b.outputs } else { &mut b.inputs };
                            while v.len() < b.rows {
                                v.push(None);
                            }
                            if row + 1 < v.len() {
                                v.swap(row, row + 1);
                            } else if row < v.len() {
                                v.rotate_right(1);
                            }
                        }
                    } else {
                        bf.shift_port(id, x, y, 0, out);
                    }
                }
            }
            let now = state(&bf);
            assert!(same_blocks(&st, &now), "{:?}\n is not {:?}", now, st);
            check_state(&bf, &now);
            if changed {
                assert!(BlockCodeView::generation(&bf) != gen, "views are not told about the change");
            }
            st = now;
        }
        // saved and loaded again it is the same, also with one more user of the language
        let sn = BlockFunSnapshot::deserialize(&bf.save_snapshot().serialize()).unwrap();
        let mut bf2 = BlockFun::new(lang);
        if any::<bool>() {
            bf2.instanciate_at(0, 0, 0, "if", None).unwrap();
        }
        bf2.load_snapshot(&sn);
        let st2 = state(&bf2);
        assert!(st2 == st, "loaded: {:?}", st2);
        check_state(&bf2, &st2);
        check_sizes(&bf2, &st2);
        bf.recalculate_area_sizes();
        check_sizes(&bf, &st);
        for i in 1..st.len() {
            assert!(bf.area_size(i) == bf2.area_size(i), "sizes differ after loading");
        }
        // block ids stay unique
        if free(&st2[0], 40, 0, 1) {
            bf2.instanciate_at(0, 40, 0, "one", None).unwrap();
            let st3 = state(&bf2);
            check_state(&bf2, &st3);
        }
    }
    bounded block_programs (200) { program_case(); }
}

/// What the program that is drawn in area 0 computes, as (sig, sig1, sig2).
#[cfg(not(kani))]
struct Run<'a> {
    a: &'a Area,
    vars: BTreeMap<String, f64>,
    seen: BTreeMap<((i64, i64), String), f64>,
    /// smallest divisor
    div: f64,
}

#[cfg(not(kani))]
impl<'a> Run<'a> {
    /// Value at the input in row `r` of the block at p.
    fn input(&mut self, p: (i64, i64), r: usize) -> f64 {
        let y = p.1 + r as i64;
        match at(self.a, p.0 - 1, y) {
            None => 0.0,
            Some(q) => match self.a[&q].outputs.get((y - q.1) as usize) {
                Some(Some(o)) => self.output(q, o.clone()),
                _ => 0.0,
            },
        }
    }

    fn args(&mut self, p: (i64, i64)) -> BTreeMap<String, f64> {
        let b = &self.a[&p];
        let mut out = BTreeMap::new();
        for r in 0..b.rows {
            if let Some(Some(n)) = b.inputs.get(r) {
                let v = self.input(p, r);
                let n = if n.is_empty() { format!("{}", (b'a' + out.len() as u8) as char) } else { n.clone() };
                out.insert(n, v);
            }
        }
        out
    }

    fn output(&mut self, p: (i64, i64), o: String) -> f64 {
        if let Some(v) = self.seen.get(&(p, o.clone())) {
            return *v;
        }
        let b = &self.a[&p];
        match &b.typ[..] {
            "value" => b.lbl.parse().unwrap(),
            "zero" => 0.0,
            "get" => self.vars.get(&b.lbl).cloned().unwrap_or(0.0),
            "->" => self.input(p, 0),
            "->2" | "->3" => {
                let r = b.inputs.iter().position(|i| i.is_some()).unwrap();
                let v = self.input(p, r);
                self.seen.insert((p, o), v);
                v
            }
            t => {
                let v = self.args(p);
                let (x, y) = (v["a"], v["b"]);
                match t {
                    "+" => x + y,
                    "-" => x - y,
                    "*" => x * y,
                    "/" => {
                        self.div = self.div.min(y.abs());
                        x / y
                    }
                    "/%" => {
                        self.div = self.div.min(y.abs());
                        self.seen.insert((p, "di".to_string()), x / y);
                        self.seen.insert((p, "re".to_string()), x % y);
                        self.seen[&(p, o)]
                    }
                    t => panic!("{}", t),
                }
            }
        }
    }

    /// Statements run from top to bottom, from left to right.
    fn run(&mut self) -> Option<(f64, f64, f64)> {
        let mut todo: Vec<(i64, i64, (i64, i64), Option<String>)> = vec![];
        for (p, b) in self.a {
            if b.outputs.iter().take(b.rows).all(|o| o.is_none()) {
                todo.push((p.1, p.0, *p, None));
            }
            for r in 0..b.rows {
                if let Some(Some(o)) = b.outputs.get(r) {
                    let y = p.1 + r as i64;
                    let used = at(self.a, p.0 + 1, y)
                        .map_or(false, |q| matches!(self.a[&q].inputs.get((y - q.1) as usize), Some(Some(_))));
                    if !used {
                        todo.push((y, p.0, *p, Some(o.clone())));
                    }
                }
            }
        }
        todo.sort_by(|a, b| (a.0, a.1).cmp(&(b.0, b.1)));
        let mut res = None;
        for (_, _, p, o) in todo {
            match o {
                Some(o) => res = Some(self.output(p, o)),
                None => {
                    let v = self.input(p, 0);
                    self.vars.insert(self.a[&p].lbl.clone(), v);
                }
            }
        }
        let sig = |n: &str| self.vars.get(n).cloned().unwrap_or(0.0);
        Some((res?, sig("&sig1"), sig("&sig2")))
    }
}

#[cfg(not(kani))]
fn random_program(bf: &mut BlockFun) {
    let old: Vec<(i64, i64)> = state(bf)[0].keys().cloned().collect();
    for p in old {
        if any::<u8>() % 3 != 0 {
            bf.remove_at(0, p.0, p.1).unwrap();
        }
    }
    // the local variable is always there
    let _ = bf.remove_at(0, 0, -5);
    let _ = bf.remove_at(0, 1, -5);
    bf.instanciate_at(0, 0, -5, "value", Some("0.25".to_string())).unwrap();
    bf.instanciate_at(0, 1, -5, "set", Some("x".to_string())).unwrap();
    for _ in 0..usize_in(1, 16) {
        let (mut x, mut y) = (i64_in(0, 4), i64_in(0, 6));
        if any::<u8>() % 4 != 0 {
            // behind or in front of a block, so that it is connected
            let st = state(bf);
            let n = st[0].len();
            let p = *st[0].keys().nth(usize_in(0, n - 1)).unwrap();
            if p.1 >= 0 {
                (x, y) = (p.0 + if any::<u8>() % 3 != 0 { 1 } else { -1 }, p.1 + i64_in(-1, 1));
            }
        }
        let (t, l) = match any::<u8>() % 18 {
            0..=3 => ("value", Some(format!("{:.2}", f32_in(-2.0, 2.0)))),
            4..=6 => ("get", Some(["in1", "in2", "alpha", "x"][usize_in(0, 3)].to_string())),
            7 | 8 => ("set", Some(["&sig1", "&sig2", "x"][usize_in(0, 2)].to_string())),
            9 => ("+", None),
            10 => ("-", None),
            11 => ("*", None),
            12 => ("/", None),
            13 => ("/%", None),
            14 => ("->2", None),
            15 => ("->3", None),
            16 => ("zero", None),
            _ => ("->", None),
        };
        let _ = bf.instanciate_at(0, x, y, t, l);
        if any::<u8>() % 4 == 0 && bf.block_at(0, x, y).map_or(false, |b| b.rows() > 1) {
            bf.shift_port(0, x, y, usize_in(0, 1), any::<bool>());
        }
    }
}

#[cfg(not(kani))]
fn program_case() {
    use hexodsp::*;
    let (nc, mut ex) = new_node_engine();
    ex.no_logging();
    let mut m = Matrix::new(nc, 3, 3);
    let code = NodeId::Code(u8_in(0, 2));
    let out = NodeId::Out(0);
    let place = |m: &mut Matrix| {
        m.place(0, 0, Cell::empty(code).out(None, None, code.out("sig")));
        m.place(0, 1, Cell::empty(out).input(out.inp("ch1"), None, None));
        m.place(2, 0, Cell::empty(code).out(None, None, code.out("sig1")));
        m.place(2, 1, Cell::empty(out).input(out.inp("ch2"), None, None));
        m.sync().unwrap();
    };
    let mut there = any::<bool>();
    if there {
        place(&mut m);
    }
    let p = |n: &str| code.inp_param(n).unwrap();
    let ins = [("in1", f32_in(-1.0, 1.0)), ("in2", f32_in(-1.0, 1.0)), ("alpha", f32_in(0.0, 1.0))];
    for (n, v) in ins {
        m.set_param(p(n), SAtom::param(v));
    }
    let mut expect = None;
    for _ in 0..usize_in(1, 3) {
        let bf = m.get_block_function(code.instance()).unwrap();
        if any::<u8>() % 4 != 0 {
            let mut bf = bf.lock().unwrap();
            random_program(&mut bf);
            let st = state(&bf);
            let mut vars: BTreeMap<String, f64> = BTreeMap::new();
            for (n, v) in ins {
                vars.insert(n.to_string(), p(n).denorm(v) as f64);
            }
            let mut r = Run { a: &st[0], vars, seen: BTreeMap::new(), div: 1.0 };
            let e = r.run();
            assume(r.div > 0.01 && e.is_some());
            let e = e.unwrap();
            assume(e.0.abs() < 1000.0 && e.1.abs() < 1000.0);
            expect = Some(e);
        }
        if any::<u8>() % 3 == 0 {
            m.check_block_function(code.instance()).unwrap();
        }
        if !there && any::<bool>() {
            place(&mut m);
            there = true;
        } else if there && any::<u8>() % 3 == 0 {
            m.clear();
            ex.test_run(0.003, false, &[]);
            for (n, v) in ins {
                m.set_param(p(n), SAtom::param(v));
            }
            place(&mut m);
        }
        m.check_block_function(code.instance()).unwrap();
        if !there {
            continue;
        }
        ex.test_run(0.03, false, &[]);
        let (l, r) = ex.test_run(0.005, false, &[]);
        let e = expect.unwrap_or((0.0, 0.0, 0.0));
        for i in 0..l.len() {
            let ok = |a: f32, b: f64| (a as f64 - b).abs() <= 1e-3 * (1.0 + b.abs());
            assert!(ok(l[i], e.0), "frame {}: {} instead of the result {}", i, l[i], e.0);
            assert!(ok(r[i], e.1), "frame {}: {} instead of &sig1 {}", i, r[i], e.1);
        }
    }
}
