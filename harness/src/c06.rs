//! C06: rounding cell bounds to tiles.
use crate::lv;
use kuba::{Cell2, Cell3, CellBounds2, CellBounds3};

const N: i64 = 1 << 40;
const TILES: [usize; 10] = [1, 2, 3, 4, 5, 7, 10, 16, 100, 65536];
fn k2() -> Cell2 {
    Cell2::new(lv::int(-N, N), lv::int(-N, N))
}
fn k3() -> Cell3 {
    Cell3::new(lv::int(-N, N), lv::int(-N, N), lv::int(-N, N))
}

#[no_mangle]
pub fn h_c06_tiles2() {
    let tile = TILES[lv::case(10)];
    let t = tile as isize;
    let cb = CellBounds2 { min: k2(), max: k2() };
    let d = cb.discretized(tile);
    for i in 0..2 {
        lv::check(d.min[i] % t == 0 && d.max[i] % t == 0, "corners are multiples of the tile size (2-D)");
        lv::check(d.min[i] <= cb.min[i], "minimum is rounded down (2-D)");
        lv::check(d.max[i] >= cb.max[i], "maximum is rounded up (2-D)");
        lv::check(cb.min[i] - d.min[i] < t, "minimum moves by less than a tile (2-D)");
        lv::check(d.max[i] - cb.max[i] < t, "maximum moves by less than a tile (2-D)");
    }
    lv::check(d.discretized(tile) == d, "rounding again changes nothing (2-D)");
    if cb.min[0] < 0 && cb.max[0] < 0 {
        lv::cover("negative coordinates (2-D)");
    }
}
/// Any tile size up to a bound (case split on its value), near the origin.
#[no_mangle]
pub fn h_c06_anytile2() {
    let tile = lv::int(1, lv::tier(40, 400)) as usize;
    let t = tile as isize;
    let mut cb = CellBounds2::empty();
    for i in 0..2 {
        cb.min[i] = lv::int(-1000, 1000);
        cb.max[i] = lv::int(-1000, 1000);
    }
    let d = cb.discretized(tile);
    for i in 0..2 {
        lv::check(d.min[i] % t == 0 && d.max[i] % t == 0, "corners are multiples of any tile size (2-D)");
        lv::check(d.min[i] <= cb.min[i] && cb.min[i] - d.min[i] < t, "minimum down by less than any tile (2-D)");
        lv::check(d.max[i] >= cb.max[i] && d.max[i] - cb.max[i] < t, "maximum up by less than any tile (2-D)");
    }
}

#[no_mangle]
pub fn h_c06_tiles3() {
    let tile = TILES[lv::case(10)];
    let t = tile as isize;
    let cb = CellBounds3 { min: k3(), max: k3() };
    let d = cb.discretized(tile);
    for i in 0..3 {
        lv::check(d.min[i] % t == 0 && d.max[i] % t == 0, "corners are multiples of the tile size (3-D)");
        lv::check(d.min[i] <= cb.min[i], "minimum is rounded down (3-D)");
        lv::check(d.max[i] >= cb.max[i], "maximum is rounded up (3-D)");
        lv::check(cb.min[i] - d.min[i] < t, "minimum moves by less than a tile (3-D)");
        lv::check(d.max[i] - cb.max[i] < t, "maximum moves by less than a tile (3-D)");
    }
    lv::check(d.discretized(tile) == d, "rounding again changes nothing (3-D)");
    if cb.min[0] < 0 && cb.max[0] < 0 {
        lv::cover("negative coordinates (3-D)");
    }
}
/// Any tile size up to a bound (case split on its value), one symbolic axis.
#[no_mangle]
pub fn h_c06_anytile3() {
    let axis = lv::case(3);
    let tile = lv::int(1, lv::tier(40, 400)) as usize;
    let t = tile as isize;
    let mut cb = CellBounds3::empty();
    for i in 0..3 {
        cb.min[i] = -7 - i as isize;
        cb.max[i] = 11 + i as isize;
    }
    cb.min[axis] = lv::int(-1000, 1000);
    cb.max[axis] = lv::int(-1000, 1000);
    let d = cb.discretized(tile);
    for i in 0..3 {
        lv::check(d.min[i] % t == 0 && d.max[i] % t == 0, "corners are multiples of any tile size (3-D)");
        lv::check(d.min[i] <= cb.min[i] && cb.min[i] - d.min[i] < t, "minimum down by less than any tile (3-D)");
        lv::check(d.max[i] >= cb.max[i] && d.max[i] - cb.max[i] < t, "maximum up by less than any tile (3-D)");
    }
}
