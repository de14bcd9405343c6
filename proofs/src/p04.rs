//! P04: geometry of the hexagonal grid.
use crate::harnesses;
use crate::reach;
use crate::sym::*;
use hexodsp::verif::hex;
use hexodsp::CellDir;

fn any_dir() -> CellDir {
    CellDir::from(u8_in(0, 6))
}
fn any_edge() -> CellDir {
    CellDir::from(u8_in(0, 5))
}
fn any_pos() -> (usize, usize) {
    let p = (any::<usize>(), any::<usize>());
    assume(hex::valid_pos(p));
    p
}

// Contracts annotated in place in /repo/src/cell_dir.rs:
#[cfg(kani)]
mod contracts {
    use super::*;
    #[kani::proof_for_contract(hexodsp::CellDir::from)]
    fn c_from() {
        CellDir::from(any());
    }
    #[kani::proof_for_contract(hexodsp::CellDir::flip)]
    fn c_flip() {
        any_dir().flip();
    }
    #[kani::proof_for_contract(hexodsp::CellDir::is_output)]
    fn c_is_output() {
        any_dir().is_output();
    }
    #[kani::proof_for_contract(hexodsp::CellDir::is_input)]
    fn c_is_input() {
        any_dir().is_input();
    }
    #[kani::proof_for_contract(hexodsp::CellDir::as_offs)]
    fn c_as_offs() {
        any_dir().as_offs(any());
    }
    #[kani::proof_for_contract(hexodsp::CellDir::offs_pos)]
    fn c_offs_pos() {
        any_dir().offs_pos((any(), any()));
    }
    #[kani::proof_for_contract(hexodsp::CellDir::are_adjacent)]
    #[kani::unwind(8)]
    fn c_are_adjacent() {
        CellDir::are_adjacent((any(), any()), (any(), any()));
    }

    // Lemma over the contracts only (the bodies are replaced by their contracts):
    // going back through the opposite edge returns to the start.
    #[kani::proof]
    #[kani::stub_verified(hexodsp::CellDir::offs_pos)]
    #[kani::stub_verified(hexodsp::CellDir::flip)]
    fn lemma_back_and_forth() {
        let (d, p) = (any_edge(), any_pos());
        if let Some(q) = d.offs_pos(p) {
            kani::cover!(true, "a neighbour exists");
            if hex::valid_pos(q) {
                assert!(d.flip().offs_pos(q) == Some(p), "back through the opposite edge");
            }
        } else {
            kani::cover!(true, "no neighbour");
        }
    }
}

harnesses! {
    kani p04_from_edge (2) {
        let e: u8 = any();
        let d = CellDir::from(e);
        reach!(e < 6, "edge");
        reach!(e >= 6, "center");
        if e < 6 { assert!(d.as_edge() == e && d != CellDir::C); } else { assert!(d == CellDir::C); }
    }
    kani p04_flip (2) {
        let d = any_edge();
        let f = d.flip();
        assert!(f.flip() == d, "flip is an involution on the six edges");
        assert!(d.is_output() == f.is_input(), "an output edge faces an input edge");
        assert!(d.is_output() != d.is_input());
        assert!(d.is_output() == hex::flows_out(d));
        let (a, b) = (hex::dir_vec(d), hex::dir_vec(f));
        assert!(a.0 == -b.0 && a.1 == -b.1, "flip points to the opposite direction");
    }
    kani p04_offs_pos (2) {
        let (d, p) = (any_dir(), any_pos());
        match d.offs_pos(p) {
            Some(q) => {
                assert!(hex::is_behind(p, d, q), "offs_pos leads to the tile behind the edge");
                reach!(d == CellDir::TL, "TL exists");
                if d != CellDir::C && hex::valid_pos(q) {
                    assert!(q != p);
                    assert!(d.flip().offs_pos(q) == Some(p), "step back");
                }
            }
            None => {
                reach!(true, "at the border");
                assert!(!hex::exists_behind(p, d), "existing neighbour must be found");
            }
        }
        let o = d.as_offs(p.0);
        if let Some(q) = d.offs_pos(p) {
            assert!(p.0 as i64 + o.0 as i64 == q.0 as i64 && p.1 as i64 + o.1 as i64 == q.1 as i64);
        }
    }
    kani p04_distinct_neighbours (2) {
        let (d, e, p) = (any_edge(), any_edge(), any_pos());
        if let (Some(a), Some(b)) = (d.offs_pos(p), e.offs_pos(p)) {
            assert!((a == b) == (d == e), "different edges lead to different tiles");
        }
    }
    kani p04_adjacent (8) {
        let (a, b) = (any_pos(), any_pos());
        let r = CellDir::are_adjacent(a, b);
        match r {
            Some(d) => {
                reach!(d == CellDir::BL, "adjacent via BL");
                assert!(d != CellDir::C && hex::is_behind(a, d, b));
                let back = CellDir::are_adjacent(b, a);
                assert!(back == Some(d.flip()), "adjacency is symmetric");
            }
            None => {
                reach!(true, "not adjacent");
                let mut e = 0u8;
                while e < 6 {
                    assert!(!hex::is_behind(a, CellDir::from(e), b));
                    e += 1;
                }
            }
        }
    }
    // Assumption of the Verus proof, all values: f32 distances are exact.
    bounded p04_distance_exact (1) {
        for a in 0..4096usize {
            for d in 0..2048usize {
                let b = a + d;
                let q = (d * d) as f32;
                if b < 4096 && (q as usize != d * d || (b as f32 - a as f32).powf(2.0) != q || (a as f32 - b as f32).powf(2.0) != q) {
                    panic!("squared distance of {} and {} is not exact", a, b);
                }
            }
        }
    }
    // path_from_to as compiled.
    bounded p04_path_reaches (4000) {
        let (a, b) = ((usize_in(0, 255), usize_in(0, 255)), (usize_in(0, 255), usize_in(0, 255)));
        let mut p = a;
        for d in CellDir::path_from_to(a, b) {
            assert!(d != CellDir::C, "path steps through an edge");
            p = d.offs_pos(p).expect("path leaves the grid");
        }
        assert!(p == b, "path_from_to({:?}, {:?}) ends at {:?}", a, b, p);
    }
}
