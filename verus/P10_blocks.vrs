⟦file src/wblockdsp/language.rs⟧
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use std::collections::HashMap;
use std::collections::VecDeque;
verus! {
pub mod ax {
    use vstd::prelude::*;
    use vstd::std_specs::hash::*;
    /// derived Eq and Hash of (i64, i64) agree
    pub broadcast axiom fn axiom_pair_key() ensures #[trigger] obeys_key_model::<(i64,i64)>();
}
broadcast use {vstd::std_specs::hash::group_hash_axioms, vstd::std_specs::vec::group_vec_axioms, ax::axiom_pair_key};

pub type Pos = (i64, i64);
⟦struct Block⟧
⟦struct BlockArea⟧

pub type Blocks = Map<Pos, Box<Block>>;
/// the block with its upper end at o covers the cell c
pub open spec fn covers(b: Blocks, o: Pos, c: Pos) -> bool {
    b.contains_key(o) && c.0 == o.0 && o.1 <= c.1 && c.1 < o.1 + b[o].rows
}
pub open spec fn range_ok(o: Pos, rows: usize) -> bool { -0x1000_0000_0000 <= o.1 && o.1 < 0x1000_0000_0000 && 1 <= rows && rows < 0x1000_0000_0000 }
pub open spec fn small(b: Blocks) -> bool { forall|o: Pos| #[trigger] b.contains_key(o) ==> range_ok(o, b[o].rows) }
/// the cell index says exactly which block covers a cell
pub open spec fn map_ok(b: Blocks, m: Map<Pos, Pos>) -> bool {
    &&& forall|c: Pos| #[trigger] m.contains_key(c) ==> covers(b, m[c], c)
    &&& forall|o: Pos, c: Pos| #[trigger] covers(b, o, c) ==> m.contains_key(c)
}
/// no two blocks cover the same cell
pub open spec fn disjoint(b: Blocks) -> bool {
    forall|o1: Pos, o2: Pos, c: Pos| #[trigger] covers(b, o1, c) && #[trigger] covers(b, o2, c) ==> o1 == o2
}
/// the rows below (x, y) are free
pub open spec fn free(b: Blocks, x: i64, y: i64, rows: usize) -> bool {
    forall|o: Pos, c: Pos| #[trigger] covers(b, o, c) ==> !(c.0 == x && y <= c.1 < y + rows)
}
impl BlockArea {
    pub open spec fn wf(&self) -> bool { small(self.blocks@) && map_ok(self.blocks@, self.origin_map@) && disjoint(self.blocks@) }
    /// origin of the block that covers the cell
    pub open spec fn at(&self, c: Pos) -> Option<Pos> {
        if exists|o: Pos| covers(self.blocks@, o, c) { Some(choose|o: Pos| covers(self.blocks@, o, c)) } else { None }
    }
    proof fn at_map(&self, c: Pos)
        requires self.wf()
        ensures self.origin_map@.contains_key(c) <==> self.at(c) is Some,
            self.at(c) is Some ==> self.at(c) == Some(self.origin_map@[c]) && covers(self.blocks@, self.at(c).unwrap(), c)
    {
        if self.origin_map@.contains_key(c) { assert(covers(self.blocks@, self.origin_map@[c], c)); }
    }

⟦fn BlockArea::ref_at⟧
    fn ref_at(&self, x: i64, y: i64) -> «(r:» Option<&Block> «)
        requires self.wf()
        ensures (r is Some) <==> self.at((x, y)) is Some, r is Some ==> *r.unwrap() == *self.blocks@[self.at((x, y)).unwrap()]»
    {
        «proof { self.at_map((x, y)); }»
        let (xo, yo) = self.origin_map.get(&(x, y))?;
        self.blocks.get(&(*xo, *yo)).map(|b| «-> (z: &Block) ensures *z == **b {» &**b «}»)
    }
⟦end⟧
⟦fn BlockArea::ref_at_origin⟧
    fn ref_at_origin(&self, x: i64, y: i64) -> «(r:» Option<(&Block, i64, i64)> «)
        requires self.wf()
        ensures (r is Some) <==> self.at((x, y)) is Some,
            r is Some ==> self.at((x, y)) == Some((r.unwrap().1, r.unwrap().2)) && *r.unwrap().0 == *self.blocks@[self.at((x, y)).unwrap()]»
    {
        «proof { self.at_map((x, y)); }»
        let (xo, yo) = self.origin_map.get(&(x, y))?;
        let (xo, yo) = (*xo, *yo);
        self.blocks.get(&(xo, yo)).map(|b| «-> (z: (&Block, i64, i64)) ensures *z.0 == **b, z.1 == xo, z.2 == yo {» (&**b, xo, yo) «}»)
    }
⟦end⟧
⟦fn BlockArea::find_port_at⟧
    fn find_port_at(
        &self,
        x: i64,
        y: i64,
        expect_output: bool,
    ) -> «(r:» Option<(&Block, i64, i64, usize)> «)
        requires self.wf()
        ensures ({
            let p = |b: Block, k: int| if expect_output { 0 <= k < b.outputs@.len() && b.outputs@[k] is Some } else { 0 <= k < b.inputs@.len() && b.inputs@[k] is Some };
            &&& (r is Some) <==> self.at((x, y)) is Some && p(*self.blocks@[self.at((x, y)).unwrap()], y - self.at((x, y)).unwrap().1)
            &&& r is Some ==> self.at((x, y)) == Some((r.unwrap().1, r.unwrap().2)) && *r.unwrap().0 == *self.blocks@[self.at((x, y)).unwrap()]
                 && r.unwrap().3 == y - r.unwrap().2
        })»
    {
        «proof { self.at_map((x, y)); }»
        let (block, xo, yo) = self.ref_at_origin(x, y)?;

        let port_y = (y - yo).max(0) as usize;

        if expect_output {
            if let Some(o) = block.outputs.get(port_y) {
                if o.is_some() {
                    return Some((block, xo, yo, port_y));
                }
            }
        } else if let Some(i) = block.inputs.get(port_y) {
            if i.is_some() {
                return Some((block, xo, yo, port_y));
            }
        }

        None
    }
⟦end⟧
⟦fn BlockArea::set_blocks_from⟧
    fn set_blocks_from(&mut self, list: Vec<(Box<Block>, i64, i64)>) 
«        requires small(old(self).blocks@), forall|k: int| 0 <= k < list@.len() ==> range_ok((#[trigger] list@[k].1, list@[k].2), list@[k].0.rows)
        ensures map_ok(final(self).blocks@, final(self).origin_map@), small(final(self).blocks@),
            forall|o: Pos| final(self).blocks@.contains_key(o) <==> old(self).blocks@.contains_key(o) || exists|k: int| 0 <= k < list@.len() && (#[trigger] list@[k].1, list@[k].2) == o,
            forall|o: Pos| #[trigger] final(self).blocks@.contains_key(o) ==> (old(self).blocks@.contains_key(o) && final(self).blocks@[o] == old(self).blocks@[o])
                || exists|k: int| 0 <= k < list@.len() && (#[trigger] list@[k].1, list@[k].2) == o && list@[k].0 == final(self).blocks@[o]»
    {
«        let ghost list0 = list@;»
        for (block, x, y) in «it1:» list.into_iter() 
«            invariant it1.seq() == list0, small(self.blocks@), forall|k: int| 0 <= k < list0.len() ==> range_ok((#[trigger] list0[k].1, list0[k].2), list0[k].0.rows),
                forall|o: Pos| self.blocks@.contains_key(o) <==> old(self).blocks@.contains_key(o) || exists|k: int| 0 <= k < it1.index@ && (#[trigger] list0[k].1, list0[k].2) == o,
                forall|o: Pos| #[trigger] self.blocks@.contains_key(o) ==> (old(self).blocks@.contains_key(o) && self.blocks@[o] == old(self).blocks@[o])
                || exists|k: int| 0 <= k < it1.index@ && (#[trigger] list0[k].1, list0[k].2) == o && list0[k].0 == self.blocks@[o]»
        {
            «let ghost pre = self.blocks@; let ghost ix = it1.index@;
            proof { assert(list0[ix] == (block, x, y)); }»
            self.blocks.insert((x, y), block);
            «proof {
                assert forall|o: Pos| #[trigger] self.blocks@.contains_key(o) implies (old(self).blocks@.contains_key(o) && self.blocks@[o] == old(self).blocks@[o])
                    || exists|k: int| 0 <= k < ix + 1 && (#[trigger] list0[k].1, list0[k].2) == o && list0[k].0 == self.blocks@[o] by {
                    if o == (x, y) { assert(list0[ix].0 == self.blocks@[o]); } else { assert(pre.contains_key(o)); }
                }
                assert forall|o: Pos| self.blocks@.contains_key(o) <==> old(self).blocks@.contains_key(o) || exists|k: int| 0 <= k < ix + 1 && (#[trigger] list0[k].1, list0[k].2) == o by {
                    if o == (x, y) { assert((list0[ix].1, list0[ix].2) == o); } else { assert(pre.contains_key(o) <==> self.blocks@.contains_key(o)); }
                }
            }»
        }

        self.update_origin_map();
    }
⟦end⟧
⟦fn BlockArea::set_block_at⟧
    fn set_block_at(&mut self, x: i64, y: i64, block: Box<Block>) 
«        requires small(old(self).blocks@), range_ok((x, y), block.rows)
        ensures final(self).blocks@ == old(self).blocks@.insert((x, y), block), map_ok(final(self).blocks@, final(self).origin_map@), small(final(self).blocks@),
            final(self).size == old(self).size, final(self).auto_shrink == old(self).auto_shrink,
            disjoint(old(self).blocks@) && free(old(self).blocks@, x, y, block.rows) && !old(self).blocks@.contains_key((x, y)) ==> final(self).wf()»
    {
        self.blocks.insert((x, y), block);
        self.update_origin_map();
        «proof { lemma_insert(old(self).blocks@, (x, y), block); }»
    }
⟦end⟧
⟦fn BlockArea::remove_at⟧
    fn remove_at(&mut self, x: i64, y: i64) -> «(r:» Option<(Box<Block>, i64, i64)> «)
        requires old(self).wf()
        ensures final(self).wf(), (r is Some) <==> old(self).at((x, y)) is Some,
            final(self).size == old(self).size, final(self).auto_shrink == old(self).auto_shrink,
            r is None ==> final(self).blocks@ == old(self).blocks@,
            r is Some ==> old(self).at((x, y)) == Some((r.unwrap().1, r.unwrap().2)) && r.unwrap().0 == old(self).blocks@[old(self).at((x, y)).unwrap()]
               && final(self).blocks@ == old(self).blocks@.remove(old(self).at((x, y)).unwrap())»
    {
        «proof { self.at_map((x, y)); }»
        let (xo, yo) = self.origin_map.get(&(x, y))?;
        if let Some(block) = self.blocks.remove(&(*xo, *yo)) {
            let (xo, yo) = (*xo, *yo);
            «proof { lemma_remove(old(self).blocks@, (xo, yo)); }»
            self.update_origin_map();
            Some((block, xo, yo))
        } else {
            None
        }
    }
⟦end⟧
⟦fn BlockArea::update_origin_map⟧
    fn update_origin_map(&mut self) 
«        requires small(old(self).blocks@)
        ensures final(self).blocks@ == old(self).blocks@, map_ok(final(self).blocks@, final(self).origin_map@),
            final(self).size == old(self).size, final(self).auto_shrink == old(self).auto_shrink»
    {
        self.origin_map.clear();

        for ((ox, oy), block) in «it1:» self.blocks.iter()
«            invariant small(self.blocks@), self.blocks@ == old(self).blocks@,
                self.size == old(self).size, self.auto_shrink == old(self).auto_shrink,
                forall|c: Pos| #[trigger] self.origin_map@.contains_key(c) ==> covers(self.blocks@, self.origin_map@[c], c),
                forall|k: int, c: Pos| 0 <= k < it1.index@ && #[trigger] covers(self.blocks@, *it1.seq()[k].0, c) ==> self.origin_map@.contains_key(c),
                it1.index@ == it1.seq().len() ==> forall|o: Pos, c: Pos| #[trigger] covers(self.blocks@, o, c) ==> self.origin_map@.contains_key(c),
                forall|o: Pos| #[trigger] self.blocks@.contains_key(o) ==> it1.seq().contains((&o, &self.blocks@[o])),
                forall|k: int| 0 <= k < it1.seq().len() ==> self.blocks@.contains_key(*#[trigger] it1.seq()[k].0) && self.blocks@[*it1.seq()[k].0] == *it1.seq()[k].1»
        {
            «let ghost i = it1.index@; proof { assert(*it1.seq()[i].0 == (*ox, *oy)); assert(*it1.seq()[i].1 == *block); }»
            for r in 0..block.rows 
«                invariant small(self.blocks@), self.blocks@ == old(self).blocks@, self.blocks@.contains_key((*ox, *oy)), self.blocks@[(*ox, *oy)] == *block,
                    self.size == old(self).size, self.auto_shrink == old(self).auto_shrink,
                forall|c: Pos| #[trigger] self.origin_map@.contains_key(c) ==> covers(self.blocks@, self.origin_map@[c], c),
                forall|k: int, c: Pos| 0 <= k < i && #[trigger] covers(self.blocks@, *it1.seq()[k].0, c) ==> self.origin_map@.contains_key(c),
                forall|c: Pos| #[trigger] covers(self.blocks@, (*ox, *oy), c) && c.1 < *oy + r ==> self.origin_map@.contains_key(c)»
            {
                self.origin_map.insert((*ox, *oy + (r as i64)), (*ox, *oy));
            }
«            proof { assert forall|o: Pos, c: Pos| i + 1 == it1.seq().len() && #[trigger] covers(self.blocks@, o, c) implies self.origin_map@.contains_key(c) by {
                assert(it1.seq().contains((&o, &self.blocks@[o])));
                assert forall|k: int| 0 <= k < it1.seq().len() && #[trigger] it1.seq()[k] == (&o, &self.blocks@[o]) implies self.origin_map@.contains_key(c) by {
                    assert(*it1.seq()[k].0 == o);
                    assert(covers(self.blocks@, *it1.seq()[k].0, c));
                }
            } }»
        }
    }
⟦end⟧
⟦fn BlockArea::check_space_at⟧
    fn check_space_at(&self, x: i64, y: i64, rows: usize) -> «(r:» bool «)
        requires self.wf(), range_ok((x, y), rows)
        ensures r <==> free(self.blocks@, x, y, rows)»
    {
        for i in 0..rows 
«            invariant self.wf(), range_ok((x, y), rows), forall|o: Pos, c: Pos| #[trigger] covers(self.blocks@, o, c) ==> !(c.0 == x && y <= c.1 < y + i)»
        {
            let yo = y + (i as i64);

            if self.origin_map.get(&(x, yo)).is_some() {
                return false;
            }
        }

        true
    }
⟦end⟧
}
proof fn lemma_insert(b: Blocks, o: Pos, blk: Box<Block>)
    ensures small(b) && range_ok(o, blk.rows) ==> small(b.insert(o, blk)), disjoint(b) && free(b, o.0, o.1, blk.rows) && !b.contains_key(o) ==> disjoint(b.insert(o, blk))
{
    let n = b.insert(o, blk);
    if disjoint(b) && free(b, o.0, o.1, blk.rows) && !b.contains_key(o) {
        assert forall|o1: Pos, o2: Pos, c: Pos| #[trigger] covers(n, o1, c) && #[trigger] covers(n, o2, c) implies o1 == o2 by {
            if o1 != o { assert(covers(b, o1, c)); }
            if o2 != o { assert(covers(b, o2, c)); }
        }
    }
}
proof fn lemma_remove(b: Blocks, o: Pos)
    ensures small(b) ==> small(b.remove(o)), disjoint(b) ==> disjoint(b.remove(o))
{
    let n = b.remove(o);
    assert forall|o1: Pos, c: Pos| #[trigger] covers(n, o1, c) implies covers(b, o1, c) by {}
}

pub struct BlockLanguage { pub u: u8 }
pub struct BlockIDGenerator { pub u: u8 }
⟦struct BlockDSPError⟧
⟦struct BlockFun⟧

pub open spec fn has_sub(b: Block, s: usize) -> bool { b.contains.0 == Some(s) || b.contains.1 == Some(s) }
/// area `a` holds a block that contains area `s`
pub open spec fn sub_of(areas: Seq<Box<BlockArea>>, a: int, s: usize) -> bool {
    exists|o: Pos| #[trigger] areas[a].blocks@.contains_key(o) && has_sub(*areas[a].blocks@[o], s)
}
pub type Areas = spec_fn(usize) -> bool;
pub open spec fn closed(areas: Seq<Box<BlockArea>>, t: Areas) -> bool {
    forall|a: usize, s: usize| t(a) && a < areas.len() && #[trigger] sub_of(areas, a as int, s) ==> t(s)
}
pub open spec fn holds(b: Block, t: Areas) -> bool { forall|s: usize| #[trigger] has_sub(b, s) ==> t(s) }
/// `t` is exactly the set of all areas inside of block b, at any depth
pub open spec fn inside(areas: Seq<Box<BlockArea>>, b: Block, t: Areas) -> bool {
    &&& holds(b, t) && closed(areas, t)
    &&& forall|u: Areas, s: usize| holds(b, u) && #[trigger] closed(areas, u) && #[trigger] t(s) ==> u(s)
}
pub open spec fn block_ok(n: nat, b: Block) -> bool { forall|s: usize| #[trigger] has_sub(b, s) ==> s < n }
pub open spec fn area_ok(areas: Seq<Box<BlockArea>>, a: int) -> bool {
    areas[a].wf() && forall|o: Pos| #[trigger] areas[a].blocks@.contains_key(o) ==> block_ok(areas.len(), *areas[a].blocks@[o])
}
pub open spec fn areas_ok(areas: Seq<Box<BlockArea>>) -> bool { forall|a: int| 0 <= a < areas.len() ==> #[trigger] area_ok(areas, a) }
/// no area contains itself: the areas can be ranked
pub open spec fn ranks(areas: Seq<Box<BlockArea>>, r: spec_fn(usize) -> int) -> bool {
    forall|a: usize, s: usize| a < areas.len() && #[trigger] sub_of(areas, a as int, s) ==> r(a) < r(s)
}
pub open spec fn acyclic(areas: Seq<Box<BlockArea>>) -> bool { exists|r: spec_fn(usize) -> int| ranks(areas, r) }

impl BlockArea {
⟦fn BlockArea::get_direct_sub_areas⟧
    fn get_direct_sub_areas(&self, out: &mut Vec<usize>) 
«        ensures forall|s: usize| #[trigger] final(out)@.contains(s) <==> old(out)@.contains(s) || exists|o: Pos| #[trigger] self.blocks@.contains_key(o) && has_sub(*self.blocks@[o], s)»
    {
        for ((_x, _y), block) in «it1:» self.blocks.iter()
«            invariant forall|s: usize| #[trigger] out@.contains(s) ==> old(out)@.contains(s) || exists|o: Pos| #[trigger] self.blocks@.contains_key(o) && has_sub(*self.blocks@[o], s),
                forall|s: usize| old(out)@.contains(s) ==> out@.contains(s),
                forall|k: int, s: usize| 0 <= k < it1.index@ && #[trigger] has_sub(**it1.seq()[k].1, s) ==> out@.contains(s),
                it1.index@ == it1.seq().len() ==> forall|o: Pos, s: usize| self.blocks@.contains_key(o) && #[trigger] has_sub(*self.blocks@[o], s) ==> out@.contains(s),
                forall|o: Pos| #[trigger] self.blocks@.contains_key(o) ==> it1.seq().contains((&o, &self.blocks@[o])),
                forall|k: int| 0 <= k < it1.seq().len() ==> self.blocks@.contains_key(*#[trigger] it1.seq()[k].0) && self.blocks@[*it1.seq()[k].0] == *it1.seq()[k].1»
        {
            «let ghost i = it1.index@; let ghost pre = out@; let ghost pos = (*_x, *_y);
            proof { assert(*it1.seq()[i].0 == pos); assert(*it1.seq()[i].1 == *block); }»
            if let Some(sub_area) = block.contains.0 {
                out.push(sub_area);
            }
            «let ghost mid = out@; proof { assert forall|s: usize| #[trigger] mid.contains(s) <==> pre.contains(s) || block.contains.0 == Some(s) by {
                if pre.contains(s) { let k = choose|k: int| 0 <= k < pre.len() && pre[k] == s; assert(mid[k] == s); }
                if block.contains.0 == Some(s) { assert(mid[pre.len() as int] == s); } } }»

            if let Some(sub_area) = block.contains.1 {
                out.push(sub_area);
            }
            «proof { assert forall|s: usize| #[trigger] out@.contains(s) <==> mid.contains(s) || block.contains.1 == Some(s) by {
                if mid.contains(s) { let k = choose|k: int| 0 <= k < mid.len() && mid[k] == s; assert(out@[k] == s); }
                if block.contains.1 == Some(s) { assert(out@[mid.len() as int] == s); } }
              assert forall|s: usize| #[trigger] out@.contains(s) implies old(out)@.contains(s) || exists|o: Pos| #[trigger] self.blocks@.contains_key(o) && has_sub(*self.blocks@[o], s) by {
                if !pre.contains(s) { assert(has_sub(*self.blocks@[pos], s)); assert(self.blocks@.contains_key(pos)); } }
              assert forall|o: Pos, s: usize| i + 1 == it1.seq().len() && self.blocks@.contains_key(o) && #[trigger] has_sub(*self.blocks@[o], s) implies out@.contains(s) by {
                assert(it1.seq().contains((&o, &self.blocks@[o])));
                assert forall|k: int| 0 <= k < it1.seq().len() && #[trigger] it1.seq()[k] == (&o, &self.blocks@[o]) implies out@.contains(s) by {
                    assert(has_sub(**it1.seq()[k].1, s)); } } }»
        }
    }
⟦end⟧
}
/// the derived Clone of Block copies the block
#[verifier::external_body]
pub fn clone_block(b: &Block) -> (r: Block) ensures r == *b { unimplemented!() }
impl BlockFun {
⟦fn BlockFun::block_ref⟧
    fn block_ref(&self, id: usize, x: i64, y: i64) -> «(r:» Option<&Block> «)
        requires areas_ok(self.areas@)
        ensures (r is Some) <==> id < self.areas@.len() && self.areas@[id as int].at((x, y)) is Some,
            r is Some ==> *r.unwrap() == *self.areas@[id as int].blocks@[self.areas@[id as int].at((x, y)).unwrap()]»
    {
        «proof { if id < self.areas@.len() { assert(area_ok(self.areas@, id as int)); } }»
        let area = self.areas.get(id)?;
        area.ref_at(x, y)
    }
⟦end⟧
#[verifier::exec_allows_no_decreases_clause]
⟦fn BlockFun::all_sub_areas_of⟧
    fn all_sub_areas_of(&mut self, block: &Block, areas: &mut Vec<usize>) 
«        requires areas_ok(old(self).areas@), block_ok(old(self).areas@.len(), *block), old(areas)@.len() == 0
        ensures final(self).areas@ == old(self).areas@, final(self).generation == old(self).generation,
            inside(final(self).areas@, *block, |s: usize| final(areas)@.contains(s))»
    {
        let contains = block.contains;

        let area_work_list = &mut self.area_work_dq;
        area_work_list.clear();

        if let Some(area_id) = contains.0 {
            area_work_list.push_back(area_id);
        }
        «let ghost w0 = area_work_list@;»
        if let Some(area_id) = contains.1 {
            area_work_list.push_back(area_id);
        }
        «proof { assert forall|s: usize| #![trigger has_sub(*block, s)] #![trigger area_work_list@.contains(s)] area_work_list@.contains(s) <==> has_sub(*block, s) by {
            if block.contains.0 == Some(s) { assert(area_work_list@[0] == s); }
            if block.contains.1 == Some(s) { assert(area_work_list@[w0.len() as int] == s); }
        } }»

        if area_work_list.len() <= 0 {
            «proof { assert forall|s: usize| !#[trigger] has_sub(*block, s) by { assert(!area_work_list@.contains(s)); } }»
            return;
        }

        let mut cur_sub = vec![];
        «let ghost mut g = area_work_list@; proof { assert(areas@.len() == 0); }»
        while let Some(area_idx) = area_work_list.pop_front() 
«            invariant g == area_work_list@, block_ok(self.areas@.len(), *block), areas_ok(self.areas@), self.areas@ == old(self).areas@, self.generation == old(self).generation,
                forall|s: usize| areas@.contains(s) || area_work_list@.contains(s) ==> s < self.areas@.len(),
                forall|s: usize| #[trigger] has_sub(*block, s) ==> areas@.contains(s) || area_work_list@.contains(s),
                forall|a: usize, s: usize| areas@.contains(a) && a < self.areas@.len() && #[trigger] sub_of(self.areas@, a as int, s) ==> areas@.contains(s) || area_work_list@.contains(s),
                forall|u: Areas, s: usize| holds(*block, u) && #[trigger] closed(self.areas@, u) && (areas@.contains(s) || area_work_list@.contains(s)) ==> #[trigger] u(s),
            ensures area_work_list@.len() == 0»
        {
            «let ghost wl = area_work_list@; let ghost ar = areas@; let ghost wl0 = g;
            proof { assert(wl0[0] == area_idx); assert(wl =~= wl0.subrange(1, wl0.len() as int));  assert(wl0.contains(area_idx)); assert forall|s: usize| #[trigger] wl.contains(s) implies wl0.contains(s) by { let k = choose|k: int| 0 <= k < wl.len() && wl[k] == s; assert(wl0[k + 1] == s); } assert(area_ok(self.areas@, area_idx as int)); }»
            areas.push(area_idx);
            «proof { assert forall|s: usize| #[trigger] areas@.contains(s) <==> ar.contains(s) || s == area_idx by {
                if ar.contains(s) { let k = choose|k: int| 0 <= k < ar.len() && ar[k] == s; assert(areas@[k] == s); }
                if s == area_idx { assert(areas@[ar.len() as int] == s); } }
              assert forall|s: usize| #[trigger] wl0.contains(s) implies wl.contains(s) || s == area_idx by { let k = choose|k: int| 0 <= k < wl0.len() && wl0[k] == s; if k > 0 { assert(wl[k - 1] == s); } } }»

            cur_sub.clear();
            self.areas[area_idx].get_direct_sub_areas(&mut cur_sub);
            «proof { assert forall|s: usize| #[trigger] cur_sub@.contains(s) <==> sub_of(self.areas@, area_idx as int, s) by {} }»

            for sub_idx in «it2:» cur_sub.iter() 
«                invariant it2.seq().len() == cur_sub@.len(), forall|k: int| 0 <= k < cur_sub@.len() ==> *#[trigger] it2.seq()[k] == cur_sub@[k],
                    areas@ == areas@, self.areas@ == old(self).areas@, self.generation == old(self).generation,
                    forall|s: usize| #[trigger] area_work_list@.contains(s) <==> wl.contains(s) || exists|k: int| 0 <= k < it2.index@ && #[trigger] cur_sub@[k] == s»
            {
                «let ghost w1 = area_work_list@; let ghost i2 = it2.index@; proof { assert(*sub_idx == cur_sub@[i2]); }»
                area_work_list.push_back(*sub_idx);
                «proof { assert forall|s: usize| #[trigger] area_work_list@.contains(s) <==> wl.contains(s) || exists|k: int| 0 <= k < i2 + 1 && #[trigger] cur_sub@[k] == s by {
                    if w1.contains(s) { let k = choose|k: int| 0 <= k < w1.len() && w1[k] == s; assert(area_work_list@[k] == s); }
                    if s == *sub_idx { assert(area_work_list@[w1.len() as int] == s); assert(cur_sub@[i2] == s); }
                    if wl.contains(s) { assert(w1.contains(s)); }
                    if exists|k: int| 0 <= k < i2 + 1 && #[trigger] cur_sub@[k] == s {
                        let k = choose|k: int| 0 <= k < i2 + 1 && #[trigger] cur_sub@[k] == s;
                        if k < i2 { assert(w1.contains(s)); }
                    }
                } }»
            }
            «proof {
                assert forall|s: usize| #[trigger] area_work_list@.contains(s) <==> wl.contains(s) || sub_of(self.areas@, area_idx as int, s) by {
                    if sub_of(self.areas@, area_idx as int, s) { assert(cur_sub@.contains(s)); }
                    if exists|k: int| 0 <= k < cur_sub@.len() && #[trigger] cur_sub@[k] == s { assert(cur_sub@.contains(s)); }
                }
                assert forall|s: usize| #[trigger] area_work_list@.contains(s) implies s < self.areas@.len() by {
                    if !wl.contains(s) {
                        let o = choose|o: Pos| #[trigger] self.areas@[area_idx as int].blocks@.contains_key(o) && has_sub(*self.areas@[area_idx as int].blocks@[o], s);
                        assert(block_ok(self.areas@.len(), *self.areas@[area_idx as int].blocks@[o]));
                    } else { assert(wl0.contains(s)); }
                }
                assert forall|u: Areas, s: usize| holds(*block, u) && #[trigger] closed(self.areas@, u) && (areas@.contains(s) || area_work_list@.contains(s)) implies #[trigger] u(s) by {
                    assert(u(area_idx));
                    if wl.contains(s) { assert(wl0.contains(s)); }
                }
                assert forall|s: usize| #[trigger] has_sub(*block, s) implies areas@.contains(s) || area_work_list@.contains(s) by { assert(ar.contains(s) || wl0.contains(s)); }
                assert forall|a: usize, s: usize| areas@.contains(a) && a < self.areas@.len() && #[trigger] sub_of(self.areas@, a as int, s) implies areas@.contains(s) || area_work_list@.contains(s) by {
                    if a != area_idx { assert(ar.contains(s) || wl0.contains(s)); }
                }
                g = area_work_list@;
            }»
        }
    }
⟦end⟧
⟦fn BlockFun::area_is_subarea_of⟧
    fn area_is_subarea_of(&mut self, area_id: usize, a_id: usize, x: i64, y: i64) -> «(r:» bool «)
        requires areas_ok(old(self).areas@)
        ensures final(self).areas@ == old(self).areas@, final(self).generation == old(self).generation,
            !(a_id < old(self).areas@.len() && old(self).areas@[a_id as int].at((x, y)) is Some) ==> !r,
            a_id < old(self).areas@.len() && old(self).areas@[a_id as int].at((x, y)) is Some ==>
                exists|t: Areas| #[trigger] inside(old(self).areas@, *old(self).areas@[a_id as int].blocks@[old(self).areas@[a_id as int].at((x, y)).unwrap()], t) && r == t(area_id)»
    {
        let mut areas = vec![];

        let block = if let Some(block) = self.block_ref(a_id, x, y) {
            clone_block(block)
        } else {
            return false;
        };
        «proof { assert(area_ok(self.areas@, a_id as int)); self.areas@[a_id as int].at_map((x, y)); }»

        self.all_sub_areas_of(&block, &mut areas);
        «let ghost aid = a_id; let ghost t: Areas = |s: usize| areas@.contains(s); proof { assert(inside(self.areas@, block, t)); }»

        for a_id2 in «it1:» areas.iter() 
«            invariant it1.seq().len() == areas@.len(), forall|k: int| 0 <= k < areas@.len() ==> *#[trigger] it1.seq()[k] == areas@[k],
                forall|k: int| 0 <= k < it1.index@ ==> areas@[k] != area_id,
                self.areas@ == old(self).areas@, aid < self.areas@.len() && self.areas@[aid as int].at((x, y)) is Some, block == *self.areas@[aid as int].blocks@[self.areas@[aid as int].at((x, y)).unwrap()], aid == a_id, inside(self.areas@, block, t), t == (|s: usize| areas@.contains(s)), self.generation == old(self).generation»
        {
            if area_id == *a_id2 {
                «proof { assert(areas@[it1.index@] == area_id); assert(t(area_id)); }»
                return true;
            }
        }

        «proof { assert(!t(area_id)); }»
        return false;
    }
⟦end⟧
⟦fn BlockFun::remove_at⟧
    fn remove_at(&mut self, id: usize, x: i64, y: i64) -> «(r:» Result<(), BlockDSPError> «)
        requires areas_ok(old(self).areas@), old(self).generation < u64::MAX
        ensures areas_ok(final(self).areas@), acyclic(old(self).areas@) ==> acyclic(final(self).areas@), final(self).areas@.len() == old(self).areas@.len(),
            (r is Ok) <==> id < old(self).areas@.len() && old(self).areas@[id as int].at((x, y)) is Some,
            r is Err ==> same_blocks(old(self).areas@, final(self).areas@),
            r is Ok ==> final(self).areas@[id as int].blocks@ == old(self).areas@[id as int].blocks@.remove(old(self).areas@[id as int].at((x, y)).unwrap())
                && others_same(old(self).areas@, final(self).areas@, id as int, id as int),
            r is Ok ==> final(self).generation != old(self).generation»
    {
        «proof { if id < self.areas@.len() { assert(area_ok(self.areas@, id as int)); } }»
        let area = self.areas.get_mut(id).ok_or(BlockDSPError::UnknownArea(id))?;
        «proof { lemma_area_edit(old(self).areas@, id as int); }»
        area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?;
        self.generation += 1;
        Ok(())
    }
⟦end⟧
⟦fn BlockFun::move_block_from_to⟧
    fn move_block_from_to(
        &mut self,
        id: usize,
        x: i64,
        y: i64,
        id2: usize,
        x2: i64,
        mut y2: i64,
    ) -> «(r:» Result<(), BlockDSPError> «)
        requires areas_ok(old(self).areas@), acyclic(old(self).areas@), old(self).generation < u64::MAX, range_ok((x2, y2), 1)
        ensures areas_ok(final(self).areas@), acyclic(final(self).areas@), final(self).areas@.len() == old(self).areas@.len(),
            r is Err ==> same_blocks(old(self).areas@, final(self).areas@),
            r is Ok ==> moved(old(self).areas@, final(self).areas@, id as int, (x, y), id2 as int, (x2, y2))»
    {
        if self.area_is_subarea_of(id2, id, x, y) {
            return Err(BlockDSPError::CircularAction(id, id2));
        }

        if self.areas.get(id2).is_none() {
            return Err(BlockDSPError::UnknownArea(id2));
        }
        «proof { if id < self.areas@.len() { assert(area_ok(self.areas@, id as int)); self.areas@[id as int].at_map((x, y)); } lemma_area_edit(old(self).areas@, id as int); }
        let ghost a0 = self.areas@;»

        let (block, xo, yo) = if let Some(area) = self.areas.get_mut(id) {
            area.remove_at(x, y).ok_or(BlockDSPError::NoBlockAt(id, x, y))?
        } else {
            return Err(BlockDSPError::UnknownArea(id));
        };
        «let ghost a1 = self.areas@; let ghost b = *block; proof { assert(areas_ok(a1)); assert(area_ok(a1, id2 as int)); lemma_area_edit(a1, id2 as int); lemma_area_edit(a1, id as int);
            assert(a0[id as int].blocks@.contains_key((xo, yo)) && *a0[id as int].blocks@[(xo, yo)] == b);
            assert(block_ok(a0.len(), b)); assert(range_ok((xo, yo), b.rows)); }»

        if y > yo {
            let offs = y - yo;
            y2 = (y2 - offs).max(0);
        }

        let area2 = self.areas.get_mut(id2).ok_or(BlockDSPError::UnknownArea(id2))?;
        let rows = block.rows;

        self.generation += 1;

        if area2.check_space_at(x2, y2, block.rows) {
            «proof { if area2.blocks@.contains_key((x2, y2)) { assert(covers(area2.blocks@, (x2, y2), (x2, y2))); assert(false); } }»
            area2.set_block_at(x2, y2, block);
            «proof {
                let r0 = choose|r: spec_fn(usize) -> int| ranks(a0, r);
                let t = choose|t: Areas| #[trigger] inside(a0, b, t) && !t(id2);
                let a2 = self.areas@;
                assert(a2 =~= a1.update(id2 as int, a2[id2 as int]));
                assert forall|a: usize, s: usize| a < a2.len() && #[trigger] sub_of(a2, a as int, s) implies sub_of(a0, a as int, s) || (a == id2 && has_sub(b, s)) by {
                    let o = choose|o: Pos| #[trigger] a2[a as int].blocks@.contains_key(o) && has_sub(*a2[a as int].blocks@[o], s);
                    if !(a == id2 && o == (x2, y2)) { assert(a0[a as int].blocks@.contains_key(o)); }
                }
                lemma_acyclic_move(a0, a2, b, id2, t, r0);
            }»
            Ok(())
        } else {
            if let Some(area) = self.areas.get_mut(id) {
                «proof { lemma_back(a0[id as int].blocks@, (xo, yo)); }»
                area.set_block_at(xo, yo, block);
            }
            «proof { assert(self.areas@ =~= a1.update(id as int, self.areas@[id as int])); assert(self.areas@[id as int].blocks@ =~= a0[id as int].blocks@); lemma_same_acyclic(a0, self.areas@); }»
            Err(BlockDSPError::NoSpaceAvailable(id2, x2, y2, rows))
        }
    }
⟦end⟧
}
pub open spec fn same_blocks(a: Seq<Box<BlockArea>>, b: Seq<Box<BlockArea>>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).blocks@ == a[i].blocks@
}
pub open spec fn others_same(a: Seq<Box<BlockArea>>, b: Seq<Box<BlockArea>>, i: int, j: int) -> bool {
    a.len() == b.len() && forall|k: int| 0 <= k < a.len() && k != i && k != j ==> (#[trigger] b[k]).blocks@ == a[k].blocks@
}
/// the block at `from` in area i is now at `to` in area j (grabbed at the same row), everything else is as before
pub open spec fn moved(a: Seq<Box<BlockArea>>, b: Seq<Box<BlockArea>>, i: int, from: Pos, j: int, to: Pos) -> bool {
    let o = a[i].at(from).unwrap();
    let offs = from.1 - o.1;
    let d: Pos = (to.0, (if offs > 0 { if to.1 - offs > 0 { to.1 - offs } else { 0 } } else { to.1 as int }) as i64);
    &&& 0 <= i < a.len() && 0 <= j < a.len() && others_same(a, b, i, j)
    &&& a[i].at(from) is Some
    &&& i == j ==> b[i].blocks@ == a[i].blocks@.remove(o).insert(d, a[i].blocks@[o])
    &&& i != j ==> b[i].blocks@ == a[i].blocks@.remove(o) && b[j].blocks@ == a[j].blocks@.insert(d, a[i].blocks@[o])
}
proof fn lemma_back(b: Blocks, o: Pos)
    requires disjoint(b), small(b), b.contains_key(o)
    ensures free(b.remove(o), o.0, o.1, b[o].rows), b.remove(o).insert(o, b[o]) =~= b
{
    assert forall|p: Pos, c: Pos| #[trigger] covers(b.remove(o), p, c) implies !(c.0 == o.0 && o.1 <= c.1 < o.1 + b[o].rows) by {
        assert(covers(b, p, c));
        if c.0 == o.0 && o.1 <= c.1 < o.1 + b[o].rows { assert(covers(b, o, c)); }
    }
}
/// replacing one area by a well-formed one with known sub areas keeps all areas well-formed
proof fn lemma_area_edit(a: Seq<Box<BlockArea>>, i: int)
    requires areas_ok(a)
    ensures
        forall|n: Box<BlockArea>| 0 <= i < a.len() && n.wf() && (forall|o: Pos| #[trigger] n.blocks@.contains_key(o) ==> block_ok(a.len(), *n.blocks@[o]))
            ==> areas_ok(#[trigger] a.update(i, n)),
        forall|n: Box<BlockArea>| 0 <= i < a.len() && acyclic(a) && (forall|o: Pos| #[trigger] n.blocks@.contains_key(o) ==> a[i].blocks@.contains_key(o) && a[i].blocks@[o] == n.blocks@[o])
            ==> acyclic(#[trigger] a.update(i, n)),
{
    assert forall|n: Box<BlockArea>| 0 <= i < a.len() && n.wf() && (forall|o: Pos| #[trigger] n.blocks@.contains_key(o) ==> block_ok(a.len(), *n.blocks@[o]))
            implies areas_ok(#[trigger] a.update(i, n)) by {
        let m = a.update(i, n);
        assert forall|k: int| 0 <= k < m.len() implies #[trigger] area_ok(m, k) by { if k != i { assert(area_ok(a, k)); } }
    }
    assert forall|n: Box<BlockArea>| 0 <= i < a.len() && acyclic(a) && (forall|o: Pos| #[trigger] n.blocks@.contains_key(o) ==> a[i].blocks@.contains_key(o) && a[i].blocks@[o] == n.blocks@[o])
            implies acyclic(#[trigger] a.update(i, n)) by {
        let m = a.update(i, n);
        let r = choose|r: spec_fn(usize) -> int| ranks(a, r);
        assert forall|x: usize, s: usize| x < m.len() && #[trigger] sub_of(m, x as int, s) implies r(x) < r(s) by { assert(sub_of(a, x as int, s)); }
        assert(ranks(m, r));
    }
}
proof fn lemma_same_acyclic(a: Seq<Box<BlockArea>>, b: Seq<Box<BlockArea>>)
    requires same_blocks(a, b), acyclic(a)
    ensures acyclic(b)
{
    let r = choose|r: spec_fn(usize) -> int| ranks(a, r);
    assert forall|x: usize, s: usize| x < b.len() && #[trigger] sub_of(b, x as int, s) implies r(x) < r(s) by { assert(sub_of(a, x as int, s)); }
    assert(ranks(b, r));
}
pub open spec fn abs(x: int) -> int { if x < 0 { -x } else { x } }
proof fn lemma_acyclic_move(a: Seq<Box<BlockArea>>, m: Seq<Box<BlockArea>>, b: Block, id2: usize, t: Areas, r: spec_fn(usize) -> int)
    requires ranks(a, r), inside(a, b, t), !t(id2), a.len() == m.len(),
        forall|x: usize, s: usize| x < m.len() && #[trigger] sub_of(m, x as int, s) ==> sub_of(a, x as int, s) || (x == id2 && has_sub(b, s))
    ensures acyclic(m)
{
    let k0 = if b.contains.0 is Some { abs(r(b.contains.0.unwrap())) } else { 0 };
    let k1 = if b.contains.1 is Some { abs(r(b.contains.1.unwrap())) } else { 0 };
    let k = abs(r(id2)) + k0 + k1 + 1;
    let q = |x: usize| if t(x) { r(x) + k } else { r(x) };
    assert forall|x: usize, s: usize| x < m.len() && #[trigger] sub_of(m, x as int, s) implies q(x) < q(s) by {
        if sub_of(a, x as int, s) { assert(r(x) < r(s)); if t(x) { assert(t(s)); } }
        else { assert(has_sub(b, s)); assert(t(s)); }
    }
    assert(ranks(m, q));
}
fn main() {}
}
