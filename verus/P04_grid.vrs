⟦file src/cell_dir.rs⟧
use vstd::prelude::*;
verus! {
pub mod env {
use super::*;
pub uninterp spec fn inf() -> f32;
/// the integer an f32 is exactly
pub uninterp spec fn val(x: f32) -> int;
/// the f32 is exactly a (not too large) integer
pub uninterp spec fn whole(x: f32) -> bool;
pub open spec fn sq(x: int) -> int { x * x }
pub open spec fn dd(a: (int, int), b: (int, int)) -> int { sq(b.0 - a.0) + sq(b.1 - a.1) }
pub open spec fn near(a: (int, int), b: (int, int)) -> bool { -2048 < b.0 - a.0 < 2048 && -2048 < b.1 - a.1 < 2048 }
pub open spec fn ip(a: (usize, usize)) -> (int, int) { (a.0 as int, a.1 as int) }
#[verifier::external_body]
pub fn f32_inf() -> (r: f32) ensures r == inf() { f32::INFINITY }
#[verifier::external_body]
pub fn dist2(b: (usize, usize), n: (usize, usize)) -> (r: f32) ensures r != inf(), near(ip(n), ip(b)) && n.0 < 0x1000 && n.1 < 0x1000 && b.0 < 0x1000 && b.1 < 0x1000 ==> whole(r) && val(r) == dd(ip(n), ip(b)) { unimplemented!() }
#[verifier::external_body]
pub fn flt(a: f32, b: f32) -> (r: bool)
    ensures whole(a) && whole(b) ==> r == (val(a) < val(b)), whole(a) && b == inf() ==> r, a == inf() && b == inf() ==> !r
{ unimplemented!() }
}
pub use env::*;
⟦struct CellDir⟧
impl Clone for CellDir { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for CellDir {}
/// the vector of a direction: columns to the right, half rows down
pub open spec fn vec(d: CellDir) -> (int, int) {
    match d { CellDir::TR => (1, -1), CellDir::BR => (1, 1), CellDir::B => (0, 2), CellDir::BL => (-1, 1), CellDir::TL => (-1, -1), CellDir::T => (0, -2), CellDir::C => (0, 0) }
}
/// half rows from the top: odd columns are half a row lower
pub open spec fn half(p: (int, int)) -> int { 2 * p.1 + p.0 % 2 }
/// q is the cell behind the edge d of p
pub open spec fn behind(p: (int, int), d: CellDir, q: (int, int)) -> bool { q.0 == p.0 + vec(d).0 && half(q) == half(p) + vec(d).1 }
/// the column and row change of a step
pub open spec fn offs(d: CellDir, x: int) -> (int, int) { (vec(d).0, (x % 2 + vec(d).1 - (x + vec(d).0) % 2) / 2) }
pub open spec fn go(p: (int, int), d: CellDir) -> (int, int) { (p.0 + offs(d, p.0).0, p.1 + offs(d, p.0).1) }
pub open spec fn on_grid(p: (int, int)) -> bool { 0 <= p.0 && 0 <= p.1 }
/// the cell the path leads to
pub open spec fn walk(p: (int, int), s: Seq<CellDir>) -> (int, int) decreases s.len() { if s.len() == 0 { p } else { go(walk(p, s.drop_last()), s.last()) } }
/// every cell of the path exists, no step stays where it is
pub open spec fn walkable(p: (int, int), s: Seq<CellDir>) -> bool decreases s.len() { s.len() == 0 || (walkable(p, s.drop_last()) && s.last() != CellDir::C && on_grid(walk(p, s))) }
pub open spec fn absd(a: int, b: int) -> int { if a < b { b - a } else { a - b } }
pub open spec fn l1(a: (int, int), b: (int, int)) -> int { absd(a.0, b.0) + absd(a.1, b.1) }
pub proof fn lemma_go(p: (int, int), d: CellDir) ensures behind(p, d, go(p, d)), forall|q: (int, int)| behind(p, d, q) ==> q == go(p, d) { }
pub open spec fn dir_of(e: u8) -> CellDir { if e == 0 { CellDir::TR } else if e == 1 { CellDir::BR } else if e == 2 { CellDir::B } else if e == 3 { CellDir::BL } else if e == 4 { CellDir::TL } else if e == 5 { CellDir::T } else { CellDir::C } }
pub open spec fn back(d: CellDir) -> CellDir { match d { CellDir::TR => CellDir::BL, CellDir::BR => CellDir::TL, CellDir::B => CellDir::T, CellDir::BL => CellDir::TR, CellDir::TL => CellDir::BR, CellDir::T => CellDir::B, CellDir::C => CellDir::T } }
/// there and back again
pub proof fn lemma_back(p: (int, int), d: CellDir) requires d != CellDir::C ensures go(go(p, d), back(d)) == p, back(back(d)) == d, vec(back(d)) == (-vec(d).0, -vec(d).1) { }
/// the six neighbours are six different cells
pub proof fn lemma_six(p: (int, int), a: CellDir, b: CellDir) requires a != b ensures go(p, a) != go(p, b) { }
/// the direction from one cell to the other is the step that leads there
pub proof fn lemma_unique(p: (int, int), q: (int, int), a: CellDir, b: CellDir) requires behind(p, a, q), behind(p, b, q) ensures a == b { }
/// there is always a step that gets one column or row closer, inside of the grid
pub proof fn lemma_closer(p: (int, int), b: (int, int))
    requires on_grid(p), on_grid(b), p != b
    ensures exists|e: u8| e < 6 && on_grid(#[trigger] go(p, dir_of(e))) && dd(go(p, dir_of(e)), b) < dd(p, b)
{
    let e: u8 = if p.1 < b.1 { 2u8 } else if p.1 > b.1 { 5u8 } else if p.0 < b.0 { if p.0 % 2 == 0 { 1u8 } else { 0u8 } } else { if p.0 % 2 == 0 { 3u8 } else { 4u8 } };
    let q = go(p, dir_of(e));
    assert(q == (if p.1 < b.1 { (p.0, p.1 + 1) } else if p.1 > b.1 { (p.0, p.1 - 1) } else if p.0 < b.0 { (p.0 + 1, p.1) } else { (p.0 - 1, p.1) }));
    let (x, y) = (b.0 - p.0, b.1 - p.1);
    assert(sq(x - 1) == sq(x) - 2 * x + 1) by (nonlinear_arith);
    assert(sq(x + 1) == sq(x) + 2 * x + 1) by (nonlinear_arith);
    assert(sq(y - 1) == sq(y) - 2 * y + 1) by (nonlinear_arith);
    assert(sq(y + 1) == sq(y) + 2 * y + 1) by (nonlinear_arith);
}
/// the closest neighbour is at least one column or row nearer, and not further in either
pub proof fn lemma_best(p: (int, int), b: (int, int), d: u8)
    requires on_grid(p), on_grid(b), p != b, d < 6, on_grid(go(p, dir_of(d))), forall|e: u8| e < 6 && on_grid(#[trigger] go(p, dir_of(e))) ==> dd(go(p, dir_of(d)), b) <= dd(go(p, dir_of(e)), b)
    ensures l1(go(p, dir_of(d)), b) < l1(p, b), absd(go(p, dir_of(d)).0, b.0) <= absd(p.0, b.0), absd(go(p, dir_of(d)).1, b.1) <= absd(p.1, b.1)
{
    let q = go(p, dir_of(d));
    let (x, y) = (b.0 - p.0, b.1 - p.1);
    assert(sq(x - 1) == sq(x) - 2 * x + 1) by (nonlinear_arith);
    assert(sq(x + 1) == sq(x) + 2 * x + 1) by (nonlinear_arith);
    assert(sq(y - 1) == sq(y) - 2 * y + 1) by (nonlinear_arith);
    assert(sq(y + 1) == sq(y) + 2 * y + 1) by (nonlinear_arith);
    lemma_closer(p, b);
    let up = go(p, dir_of(5)); let down = go(p, dir_of(2));
    let right = go(p, dir_of(if p.0 % 2 == 0 { 1u8 } else { 0u8 })); let left = go(p, dir_of(if p.0 % 2 == 0 { 3u8 } else { 4u8 }));
    assert(up == (p.0, p.1 - 1) && down == (p.0, p.1 + 1) && right == (p.0 + 1, p.1) && left == (p.0 - 1, p.1));
    assert(q.0 - p.0 == 0 || q.0 - p.0 == 1 || q.0 - p.0 == -1);
    assert(q.1 - p.1 == 0 || q.1 - p.1 == 1 || q.1 - p.1 == -1);
    if x > 0 { assert(on_grid(right)); } if x < 0 { assert(on_grid(left)); } if y > 0 { assert(on_grid(down)); } if y < 0 { assert(on_grid(up)); }
}
impl CellDir {
    ⟦fn CellDir::from⟧
    fn from(edge: u8) -> «(r:» Self «)»
«    ensures r == dir_of(edge)»
    {
        match edge {
            0 => CellDir::TR,
            1 => CellDir::BR,
            2 => CellDir::B,
            3 => CellDir::BL,
            4 => CellDir::TL,
            5 => CellDir::T,
            _ => CellDir::C,
        }
    }
    ⟦end⟧
    ⟦fn CellDir::flip⟧
    fn flip(&self) -> «(r:» Self «)»
«    ensures r == back(*self)»
    {
        match self {
            CellDir::TR => CellDir::BL,
            CellDir::BR => CellDir::TL,
            CellDir::B => CellDir::T,
            CellDir::BL => CellDir::TR,
            CellDir::TL => CellDir::BR,
            CellDir::T => CellDir::B,
            CellDir::C => CellDir::T,
        }
    }
    ⟦end⟧
    ⟦fn CellDir::as_offs⟧
    fn as_offs(&self, x: usize) -> «(r:» (i32, i32) «)»
«    ensures (r.0 as int, r.1 as int) == offs(*self, x as int), -1 <= r.0 <= 1, -1 <= r.1 <= 1»
    {
        let even = x % 2 == 0;
        match self {
            CellDir::TR => (1, if even { -1 } else { 0 }),
            CellDir::BR => (1, (if !even { 1i32 } else { 0i32 })),
            CellDir::B => (0, 1),
            CellDir::BL => (-1, (if !even { 1i32 } else { 0i32 })),
            CellDir::TL => (-1, if even { -1 } else { 0 }),
            CellDir::T => (0, -1),
            _ => (0, 0),
        }
    }
    ⟦end⟧
    ⟦fn CellDir::offs_pos⟧
    fn offs_pos(&self, pos: (usize, usize)) -> «(r:» Option<(usize, usize)> «)»
«    requires pos.0 < 0x7fff_ffff, pos.1 < 0x7fff_ffff
        ensures r matches Some(q) ==> on_grid(go(ip(pos), *self)) && ip(q) == go(ip(pos), *self), r is None ==> !on_grid(go(ip(pos), *self))»
    {
        let offs = self.as_offs(pos.0);

        let new_pos = (pos.0 as i32 + offs.0, pos.1 as i32 + offs.1);

        if new_pos.0 >= 0 && new_pos.1 >= 0 {
            Some((new_pos.0 as usize, new_pos.1 as usize))
        } else {
            None
        }
    }
    ⟦end⟧
    ⟦fn CellDir::path_from_to⟧
    fn path_from_to(mut a: (usize, usize), b: (usize, usize)) -> «(path:» Vec<CellDir> «)»
«    requires a.0 < 0x4000_0000, a.1 < 0x4000_0000, b.0 < 0x4000_0000, b.1 < 0x4000_0000
        ensures walkable(ip(a), path@),
            a.0 < 256 && a.1 < 256 && b.0 < 256 && b.1 < 256 ==> walk(ip(a), path@) == ip(b) && path@.len() <= l1(ip(a), ip(b))»
    {
«        let ghost a0 = ip(a); let ghost small = a.0 < 256 && a.1 < 256 && b.0 < 256 && b.1 < 256;»
        let mut path = vec![];

        let mut defensive_max: i32 = 1024;

        while (a.0 != b.0 || a.1 != b.1) && defensive_max > 0
«            invariant walkable(a0, path@), walk(a0, path@) == ip(a), a.0 < 0x4000_0000 + 1024 - defensive_max, a.1 < 0x4000_0000 + 1024 - defensive_max, 0 <= defensive_max <= 1024, b.0 < 0x4000_0000, b.1 < 0x4000_0000,
                small ==> a.0 < 256 && a.1 < 256 && b.0 < 256 && b.1 < 256 && path@.len() + l1(ip(a), ip(b)) <= l1(a0, ip(b)) && l1(ip(a), ip(b)) <= defensive_max && l1(a0, ip(b)) <= 510
            ensures walkable(a0, path@), walk(a0, path@) == ip(a), small ==> ip(a) == ip(b) && path@.len() <= l1(a0, ip(b))
            decreases defensive_max»
        {
            defensive_max -= 1;

            let mut min_distance = f32_inf();
            let mut min_dir = CellDir::C;
            let mut min_new_a = a;

            for e in 0..6
«                invariant a.0 < 0x7fff_fff0, a.1 < 0x7fff_fff0, small ==> a.0 < 256 && a.1 < 256 && b.0 < 256 && b.1 < 256,
                    min_distance != inf() ==> exists|k: u8| k < e && min_dir == #[trigger] dir_of(k) && on_grid(go(ip(a), dir_of(k))) && ip(min_new_a) == go(ip(a), dir_of(k)),
                    min_distance == inf() ==> (small ==> forall|k: u8| k < e ==> !on_grid(#[trigger] go(ip(a), dir_of(k)))),
                    small && min_distance != inf() ==> whole(min_distance) && val(min_distance) == dd(ip(min_new_a), ip(b)) && forall|k: u8| k < e && on_grid(#[trigger] go(ip(a), dir_of(k))) ==> val(min_distance) <= dd(go(ip(a), dir_of(k)), ip(b))»
            {
                let dir = Self::from(e);

                if let Some(new_pos) = dir.offs_pos(a) {
                    let dist = dist2(b, new_pos);

                    if flt(dist, min_distance) {
                        min_distance = dist;
                        min_dir = dir;
                        min_new_a = new_pos;
«                        proof { assert(dir == dir_of(e)); }»
                    }
                } else {
                }
            }

            if flt(min_distance, f32_inf()) {
«                let ghost aa = ip(a); let ghost p0 = path@;»
                a = min_new_a;
                path.push(min_dir);
«                proof {
                    let k = choose|k: u8| k < 6 && min_dir == #[trigger] dir_of(k) && on_grid(go(aa, dir_of(k))) && ip(min_new_a) == go(aa, dir_of(k));
                    assert(path@.drop_last() =~= p0); assert(path@.last() == min_dir); 
                    assert(walk(a0, path@) == go(aa, min_dir));
                    if small { lemma_best(aa, ip(b), k); }
                }»
            } else {
«                proof { if small { lemma_closer(ip(a), ip(b)); } }»
                break;
            }
        }

        path
    }
    ⟦end⟧
}
}
fn main() {}
