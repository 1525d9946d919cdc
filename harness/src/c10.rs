//! C10: after an expansion every point of the box has an allocated cell.
use crate::lv;
use kuba::map::{ExpandableGridMap, GridMap};
use kuba::{Bounds2, Bounds3, GridMap2, GridMap3, Point2, Point3};

const RES: [f32; 5] = [0.1, 0.5, 0.3, 0.05, 2.5];
const MIN: [isize; 3] = [-2, 2, -4];
fn side(res: f32) -> (f32, f32) {
    let w = lv::tier(2.5, 6.0);
    let (a, b) = (lv::real(-w * res as f64, w * res as f64), lv::real(-w * res as f64, w * res as f64));
    lv::assume(b as f64 - a as f64 >= 1e-3);
    (a, b)
}
/// Boxes of the axes that are not symbolic; the last lies within an existing map.
const OTHER: [[(f32, f32); 3]; 3] = [
    [(-0.5, 0.25), (2.0, 3.0), (-4.0, -3.5)],
    [(-3.75, -2.0), (0.5, 4.5), (-2.0, 1.5)],
    [(-1.75, -0.75), (2.25, 3.25), (-3.75, -2.75)],
];
fn tiled(x: f32, step: f32) -> bool {
    let k = (x / step).round();
    lv::near(x, k * step, 1e-3 * step as f64)
}

/// No map yet, or one with two cells on each axis.
fn start2(res: f32, tile: usize, empty: bool) -> GridMap2<i32> {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    if !empty {
        for i in 0..2 {
            lo[i] = MIN[i] as f32 * res;
            hi[i] = (MIN[i] + 2) as f32 * res;
        }
    }
    GridMap2::<i32>::new(res, Bounds2::new(lo, hi), tile, 0)
}
fn covered2(m: &mut GridMap2<i32>, b: &Bounds2, p: &Point2) {
    let res = m.resolution;
    for i in 0..2 {
        let t = 1e-3 * res;
        let (l, h) = (m.bounds.min[i], m.bounds.max[i]);
        lv::check(l <= b.min[i] + t && h >= b.max[i] - t, "the map's bounds cover the box (2-D)");
        lv::check(tiled(l, m.tile_size as f32 * res) && tiled(h, m.tile_size as f32 * res), "the map's bounds lie on tiles (2-D)");
        lv::check(((h - l) / res).round() as usize == m.data.shape()[i], "the bounds match the allocated cells (2-D)");
    }
    let c = m.cell_from_point(p);
    for i in 0..2 {
        lv::check(c[i] >= 0 && c[i] < m.data.shape()[i] as isize, "a point of the box has a cell (2-D)");
    }
    m.set(&c, 5);
    lv::check(m.get(&c) == 5, "and that cell can be written and read (2-D)");
}
fn fixed2(res: f32, k: usize) -> (Bounds2, Point2) {
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = OTHER[k][i].0 * res;
        b.max[i] = OTHER[k][i].1 * res;
    }
    (b.clone(), b.max)
}
/// One symbolic axis; the point is any point of the box on that axis.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_point2() {
    let res = RES[lv::case(lv::tier(2, 5))];
    let tile = 1 + lv::case(lv::tier(2, 3));
    let axis = lv::case(2);
    let empty = lv::case(2) == 0;
    let (mut b, mut p) = fixed2(res, if lv::tier(0, lv::case(lv::tier(1, 2))) == 0 && !empty { 2 } else { 1 });
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    let mut m = start2(res, tile, empty);
    m.expand_bounds(&b, -1);
    let mut x = s.1;
    if lv::tier(false, true) {
        x = lv::real(-9.0 * res as f64, 9.0 * res as f64);
        lv::assume(x >= s.0 && x <= s.1);
    }
    for y in [s.0, s.1, x] {
        p[axis] = y;
        covered2(&mut m, &b, &p);
    }
    if empty {
        lv::cover("from an empty map (2-D)");
    } else {
        lv::cover("from an existing map (2-D)");
    }
}
/// Expanding again by the same box changes nothing.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_again2() {
    let res = RES[lv::case(lv::tier(2, 5))];
    let tile = 1 + lv::case(lv::tier(2, 3));
    let axis = lv::case(2);
    let empty = lv::case(2) == 0;
    let (mut b, _) = fixed2(res, if empty { 0 } else { 2 });
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    let mut m = start2(res, tile, empty);
    m.expand_bounds(&b, -1);
    let before = m.clone();
    m.expand_bounds(&b, -2);
    lv::check(m.bounds == before.bounds, "the same box again leaves the bounds (2-D)");
    lv::check(m.data == before.data, "the same box again leaves the cells (2-D)");
}
/// Exact coordinates, degenerate boxes included; all axes in the thorough tier.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_exact2() {
    let tile = lv::tier(2, 1 + lv::case(lv::tier(1, 3)));
    let still = lv::case(2);
    let mut m = start2(0.5, tile, lv::case(2) == 0);
    let mut b = Bounds2::empty();
    let (f, mut p) = fixed2(0.5, 1);
    for i in 0..2 {
        if i == still {
            b.min[i] = f.min[i];
            b.max[i] = f.max[i];
            continue;
        }
        let w = lv::tier(12, 24);
        let (l, h) = (lv::fix(-w, w, 3), lv::fix(-w, w, 3));
        lv::assume(l <= h);
        b.min[i] = l;
        b.max[i] = h;
        p[i] = h;
    }
    m.expand_bounds(&b, -1);
    covered2(&mut m, &b, &p);
    let q = b.min;
    covered2(&mut m, &b, &q);
}

/// No map yet, or one with two cells on each axis.
fn start3(res: f32, tile: usize, empty: bool) -> GridMap3<i32> {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    if !empty {
        for i in 0..3 {
            lo[i] = MIN[i] as f32 * res;
            hi[i] = (MIN[i] + 2) as f32 * res;
        }
    }
    GridMap3::<i32>::new(res, Bounds3::new(lo, hi), tile, 0)
}
fn covered3(m: &mut GridMap3<i32>, b: &Bounds3, p: &Point3) {
    let res = m.resolution;
    for i in 0..3 {
        let t = 1e-3 * res;
        let (l, h) = (m.bounds.min[i], m.bounds.max[i]);
        lv::check(l <= b.min[i] + t && h >= b.max[i] - t, "the map's bounds cover the box (3-D)");
        lv::check(tiled(l, m.tile_size as f32 * res) && tiled(h, m.tile_size as f32 * res), "the map's bounds lie on tiles (3-D)");
        lv::check(((h - l) / res).round() as usize == m.data.shape()[i], "the bounds match the allocated cells (3-D)");
    }
    let c = m.cell_from_point(p);
    for i in 0..3 {
        lv::check(c[i] >= 0 && c[i] < m.data.shape()[i] as isize, "a point of the box has a cell (3-D)");
    }
    m.set(&c, 5);
    lv::check(m.get(&c) == 5, "and that cell can be written and read (3-D)");
}
fn fixed3(res: f32, k: usize) -> (Bounds3, Point3) {
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = OTHER[k][i].0 * res;
        b.max[i] = OTHER[k][i].1 * res;
    }
    (b.clone(), b.max)
}
/// One symbolic axis; the point is any point of the box on that axis.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_point3() {
    let res = RES[lv::case(lv::tier(1, 5))];
    let tile = lv::tier(3, 1) + lv::case(lv::tier(1, 3));
    let axis = lv::case(3);
    let empty = lv::case(2) == 0;
    let (mut b, mut p) = fixed3(res, if lv::tier(0, lv::case(lv::tier(1, 2))) == 0 && !empty { 2 } else { 1 });
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    let mut m = start3(res, tile, empty);
    m.expand_bounds(&b, -1);
    let mut x = s.1;
    if lv::tier(false, true) {
        x = lv::real(-9.0 * res as f64, 9.0 * res as f64);
        lv::assume(x >= s.0 && x <= s.1);
    }
    for y in [s.0, s.1, x] {
        p[axis] = y;
        covered3(&mut m, &b, &p);
    }
    if empty {
        lv::cover("from an empty map (3-D)");
    } else {
        lv::cover("from an existing map (3-D)");
    }
}
/// Expanding again by the same box changes nothing.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_again3() {
    let res = RES[lv::case(lv::tier(1, 5))];
    let tile = lv::tier(2, 1) + lv::case(lv::tier(1, 3));
    let axis = lv::case(3);
    let empty = lv::case(2) == 0;
    let (mut b, _) = fixed3(res, if empty { 0 } else { 2 });
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    let mut m = start3(res, tile, empty);
    m.expand_bounds(&b, -1);
    let before = m.clone();
    m.expand_bounds(&b, -2);
    lv::check(m.bounds == before.bounds, "the same box again leaves the bounds (3-D)");
    lv::check(m.data == before.data, "the same box again leaves the cells (3-D)");
}
/// Exact coordinates, degenerate boxes included; all axes in the thorough tier.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c10_exact3() {
    let tile = lv::tier(2, 1 + lv::case(lv::tier(1, 3)));
    let still = lv::case(3);
    let mut m = start3(0.5, tile, lv::case(2) == 0);
    let mut b = Bounds3::empty();
    let (f, mut p) = fixed3(0.5, 1);
    for i in 0..3 {
        if i == still {
            b.min[i] = f.min[i];
            b.max[i] = f.max[i];
            continue;
        }
        let w = lv::tier(5, 12);
        let (l, h) = (lv::fix(-w, w, 3), lv::fix(-w, w, 3));
        lv::assume(l <= h);
        b.min[i] = l;
        b.max[i] = h;
        p[i] = h;
    }
    m.expand_bounds(&b, -1);
    covered3(&mut m, &b, &p);
    let q = b.min;
    covered3(&mut m, &b, &q);
}

/// Distant boxes and large tiles, the default one among them.
//# conc_ftoi rel max_steps=20000000
#[no_mangle]
pub fn h_c10_large2() {
    let (res, tile, empty) = [(0.5, 100, true), (0.5, 16, false), (0.1, 100, false), (0.1, 16, true)][lv::case(lv::tier(3, 4))];
    let axis = lv::case(2);
    let (mut b, mut p) = fixed2(res, if empty { 1 } else { 2 });
    b.min[axis] = lv::fix(-3, 3, 0) * 49.75 * res;
    b.max[axis] = lv::fix(-3, 3, 0) * 49.75 * res;
    lv::assume(b.min[axis] <= b.max[axis]);
    let mut m = start2(res, tile, empty);
    m.expand_bounds(&b, 0);
    for y in [b.min[axis], b.max[axis], (b.min[axis] + b.max[axis]) * 0.5] {
        p[axis] = y;
        covered2(&mut m, &b, &p);
    }
}
//# conc_ftoi rel max_steps=20000000
#[no_mangle]
pub fn h_c10_large3() {
    let (res, tile, empty) = [(0.5, 8, true), (0.5, 12, false), (0.1, 8, false), (0.1, 12, true)][lv::case(lv::tier(2, 4))];
    let axis = lv::case(3);
    let (mut b, mut p) = fixed3(res, if empty { 1 } else { 2 });
    b.min[axis] = lv::fix(-2, 2, 0) * 11.75 * res;
    b.max[axis] = lv::fix(-2, 2, 0) * 11.75 * res;
    lv::assume(b.min[axis] <= b.max[axis]);
    let mut m = start3(res, tile, empty);
    m.expand_bounds(&b, 0);
    for y in [b.min[axis], b.max[axis], (b.min[axis] + b.max[axis]) * 0.5] {
        p[axis] = y;
        covered3(&mut m, &b, &p);
    }
}
