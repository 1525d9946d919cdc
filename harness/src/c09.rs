//! C09: expanding a grid map keeps every stored value at its world position.
use crate::lv;
use kuba::map::{ExpandableGridMap, GridMap};
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2, GridMap3, Point2, Point3};

const RES: [f32; 4] = [0.5, 0.1, 0.3, 2.5];
const D: i32 = -99;
const MIN: [isize; 3] = [-1, 2, -4];
/// A box on one axis, in cells, anywhere around the map: to its left, right, inside, overlapping or beyond.
fn side(res: f32) -> (f32, f32) {
    let w = lv::tier(4.0, 6.0);
    let (a, b) = (lv::real(-w * res as f64, w * res as f64), lv::real(-w * res as f64, w * res as f64));
    lv::assume(b as f64 - a as f64 >= 1e-3);
    (a, b)
}
/// Boxes of the axes that are not symbolic, in cells: inside, growing left, right and both ways.
const OTHER: [[(f32, f32); 3]; 3] = [
    [(-0.5, 0.25), (2.0, 3.0), (-4.0, -3.5)],
    [(-3.75, -2.0), (0.5, 4.5), (-2.0, 1.5)],
    [(0.0, 2.25), (-2.0, 6.0), (-7.5, -5.5)],
];

const S2: [isize; 2] = [3, 2];
fn each2(s: [isize; 2], mut f: impl FnMut(Cell2)) {
    for x in 0..s[0] {
        for y in 0..s[1] {
            f(Cell2::new(x, y));
        }
    }
}
fn shape2(m: &GridMap2<i32>) -> [isize; 2] {
    let mut s = [0; 2];
    for i in 0..2 {
        s[i] = m.data.shape()[i] as isize;
    }
    s
}
/// A map with a different value in each cell.
fn start2(res: f32, tile: usize) -> GridMap2<i32> {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        lo[i] = MIN[i] as f32 * res;
        hi[i] = (MIN[i] + S2[i]) as f32 * res;
    }
    let mut m = GridMap2::<i32>::new(res, Bounds2::new(lo, hi), tile, 0);
    let mut n = 0;
    each2(S2, |c| {
        n += 1;
        m.set(&c, n);
    });
    m
}
fn fixed2(res: f32, k: usize) -> Bounds2 {
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = OTHER[k][i].0 * res;
        b.max[i] = OTHER[k][i].1 * res;
    }
    b
}
/// Every cell of `old` is found at its point in `new` with its value; all other cells hold the default.
fn preserved2(old: &GridMap2<i32>, new: &GridMap2<i32>, default: i32, from: &'static str) {
    let (so, sn) = (shape2(old), shape2(new));
    let mut kept = 0;
    let mut taken = GridMap2::<i32>::from_ndarray(new.data.clone(), new.resolution, new.bounds.clone(), 1);
    taken.data.fill(0);
    each2(so, |c| {
        let p = old.point_from_cell(&c);
        let d = new.cell_from_point(&p);
        let q = new.point_from_cell(&d);
        for i in 0..2 {
            lv::check(lv::near(p[i], q[i], 1e-3 * old.resolution as f64), "a cell keeps its world position (2-D)");
        }
        lv::check(new.get(&d) == old.get(&c), from);
        taken.set(&d, 1);
        kept += 1;
    });
    let mut rest = 0;
    each2(sn, |c| {
        if taken.get(&c) == 0 {
            lv::check(new.get(&c) == default, "a new cell holds the given default (2-D)");
            rest += 1;
        }
    });
    lv::check(kept + rest == new.data.len(), "no two cells are merged (2-D)");
    for i in 0..2 {
        let t = 1e-3 * old.resolution;
        lv::check(new.bounds.min[i] <= old.bounds.min[i] + t, "the new bounds contain the old minimum (2-D)");
        lv::check(new.bounds.max[i] >= old.bounds.max[i] - t, "the new bounds contain the old maximum (2-D)");
    }
}
/// One expansion by a box that is symbolic on one axis.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_once2() {
    let res = RES[lv::case(lv::tier(2, 4))];
    let tile = 1 + lv::case(lv::tier(2, 3));
    let axis = lv::case(2);
    let old = start2(res, tile);
    let mut m = old.clone();
    let mut b = fixed2(res, lv::case(lv::tier(2, 3)));
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.set_track_changes(true);
    m.add_changed_cells(vec![Cell2::origin()]);
    m.expand_bounds(&b, D);
    preserved2(&old, &m, D, "a cell keeps its value (2-D)");
    lv::check(m.resolution == res && m.tile_size == tile, "resolution and tile size do not change (2-D)");
    lv::check(m.track_changes() && m.changed_cells() == vec![Cell2::origin()], "the change log does not change (2-D)");
    if shape2(&m) == S2 {
        lv::cover("nothing to expand (2-D)");
    } else {
        lv::cover("expanded (2-D)");
    }
}
/// Expand, write a new cell, expand again with another default.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_twice2() {
    let res = RES[lv::tier(1, lv::case(lv::tier(1, 4)))];
    let tile = lv::tier(2, 1 + lv::case(lv::tier(1, 3)));
    let axis = lv::case(2);
    let first = lv::case(3);
    let old = start2(res, tile);
    let mut m = old.clone();
    m.expand_bounds(&fixed2(res, first), D);
    preserved2(&old, &m, D, "a cell keeps its value (2-D)");
    let s = shape2(&m);
    let mut last = Cell2::origin();
    for i in 0..2 {
        last[i] = s[i] - 1;
    }
    m.set(&last, 1000);
    m.set(&Cell2::origin(), 1001);
    let mid = m.clone();
    let mut b = fixed2(res, (first + 1) % 3);
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.expand_bounds(&b, D + 1);
    preserved2(&mid, &m, D + 1, "a cell keeps its value over a second expansion (2-D)");
}
/// From an empty map: every cell is new.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_empty2() {
    let res = RES[lv::case(lv::tier(2, 4))];
    let axis = lv::case(2);
    let mut m = GridMap2::<i32>::new(res, Bounds2::empty(), 2, 0);
    let mut b = fixed2(res, 2);
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.expand_bounds(&b, D);
    lv::check(m.data.len() > 0, "an empty map gets cells (2-D)");
    each2(shape2(&m), |c| lv::check(m.get(&c) == D, "every cell of an empty map's expansion is new (2-D)"));
}
/// All axes at once.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_all2() {
    let old = start2(0.5, lv::tier(3, 2));
    let mut m = old.clone();
    let mut b = fixed2(0.5, 1);
    let still = 9;
    for i in 0..2 {
        if i == still {
            continue;
        }
        let w = lv::tier(10, 14);
        let (l, h) = (lv::fix(-w, w, 2), lv::fix(-w, w, 2));
        lv::assume(l <= h);
        b.min[i] = l;
        b.max[i] = h;
    }
    m.expand_bounds(&b, D);
    preserved2(&old, &m, D, "a cell keeps its value when all axes expand (2-D)");
}

const S3: [isize; 3] = [3, 2, 2];
fn each3(s: [isize; 3], mut f: impl FnMut(Cell3)) {
    for x in 0..s[0] {
        for y in 0..s[1] {
            for z in 0..s[2] {
                f(Cell3::new(x, y, z));
            }
        }
    }
}
fn shape3(m: &GridMap3<i32>) -> [isize; 3] {
    let mut s = [0; 3];
    for i in 0..3 {
        s[i] = m.data.shape()[i] as isize;
    }
    s
}
/// A map with a different value in each cell.
fn start3(res: f32, tile: usize) -> GridMap3<i32> {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        lo[i] = MIN[i] as f32 * res;
        hi[i] = (MIN[i] + S3[i]) as f32 * res;
    }
    let mut m = GridMap3::<i32>::new(res, Bounds3::new(lo, hi), tile, 0);
    let mut n = 0;
    each3(S3, |c| {
        n += 1;
        m.set(&c, n);
    });
    m
}
fn fixed3(res: f32, k: usize) -> Bounds3 {
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = OTHER[k][i].0 * res;
        b.max[i] = OTHER[k][i].1 * res;
    }
    b
}
/// Every cell of `old` is found at its point in `new` with its value; all other cells hold the default.
fn preserved3(old: &GridMap3<i32>, new: &GridMap3<i32>, default: i32, from: &'static str) {
    let (so, sn) = (shape3(old), shape3(new));
    let mut kept = 0;
    let mut taken = GridMap3::<i32>::from_ndarray(new.data.clone(), new.resolution, new.bounds.clone(), 1);
    taken.data.fill(0);
    each3(so, |c| {
        let p = old.point_from_cell(&c);
        let d = new.cell_from_point(&p);
        let q = new.point_from_cell(&d);
        for i in 0..3 {
            lv::check(lv::near(p[i], q[i], 1e-3 * old.resolution as f64), "a cell keeps its world position (3-D)");
        }
        lv::check(new.get(&d) == old.get(&c), from);
        taken.set(&d, 1);
        kept += 1;
    });
    let mut rest = 0;
    each3(sn, |c| {
        if taken.get(&c) == 0 {
            lv::check(new.get(&c) == default, "a new cell holds the given default (3-D)");
            rest += 1;
        }
    });
    lv::check(kept + rest == new.data.len(), "no two cells are merged (3-D)");
    for i in 0..3 {
        let t = 1e-3 * old.resolution;
        lv::check(new.bounds.min[i] <= old.bounds.min[i] + t, "the new bounds contain the old minimum (3-D)");
        lv::check(new.bounds.max[i] >= old.bounds.max[i] - t, "the new bounds contain the old maximum (3-D)");
    }
}
/// One expansion by a box that is symbolic on one axis.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_once3() {
    let res = RES[lv::tier(1, lv::case(lv::tier(1, 4)))];
    let tile = 1 + lv::case(lv::tier(2, 3));
    let axis = lv::case(3);
    let old = start3(res, tile);
    let mut m = old.clone();
    let mut b = fixed3(res, lv::case(lv::tier(2, 3)));
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.set_track_changes(true);
    m.add_changed_cells(vec![Cell3::origin()]);
    m.expand_bounds(&b, D);
    preserved3(&old, &m, D, "a cell keeps its value (3-D)");
    lv::check(m.resolution == res && m.tile_size == tile, "resolution and tile size do not change (3-D)");
    lv::check(m.track_changes() && m.changed_cells() == vec![Cell3::origin()], "the change log does not change (3-D)");
    if shape3(&m) == S3 {
        lv::cover("nothing to expand (3-D)");
    } else {
        lv::cover("expanded (3-D)");
    }
}
/// Expand, write a new cell, expand again with another default.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_twice3() {
    let res = RES[lv::tier(1, lv::case(lv::tier(1, 4)))];
    let tile = lv::tier(2, 1 + lv::case(lv::tier(1, 3)));
    let axis = lv::case(3);
    let first = lv::case(3);
    let old = start3(res, tile);
    let mut m = old.clone();
    m.expand_bounds(&fixed3(res, first), D);
    preserved3(&old, &m, D, "a cell keeps its value (3-D)");
    let s = shape3(&m);
    let mut last = Cell3::origin();
    for i in 0..3 {
        last[i] = s[i] - 1;
    }
    m.set(&last, 1000);
    m.set(&Cell3::origin(), 1001);
    let mid = m.clone();
    let mut b = fixed3(res, (first + 1) % 3);
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.expand_bounds(&b, D + 1);
    preserved3(&mid, &m, D + 1, "a cell keeps its value over a second expansion (3-D)");
}
/// From an empty map: every cell is new.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_empty3() {
    let res = RES[lv::case(lv::tier(2, 4))];
    let axis = lv::case(3);
    let mut m = GridMap3::<i32>::new(res, Bounds3::empty(), 2, 0);
    let mut b = fixed3(res, 2);
    let s = side(res);
    b.min[axis] = s.0;
    b.max[axis] = s.1;
    m.expand_bounds(&b, D);
    lv::check(m.data.len() > 0, "an empty map gets cells (3-D)");
    each3(shape3(&m), |c| lv::check(m.get(&c) == D, "every cell of an empty map's expansion is new (3-D)"));
}
/// All axes at once.
//# conc_ftoi rel max_steps=2000000
#[no_mangle]
pub fn h_c09_all3() {
    let old = start3(0.5, lv::tier(3, 2));
    let mut m = old.clone();
    let mut b = fixed3(0.5, 1);
    let still = lv::case(3);
    for i in 0..3 {
        if i == still {
            continue;
        }
        let w = lv::tier(6, 10);
        let (l, h) = (lv::fix(-w, w, 2), lv::fix(-w, w, 2));
        lv::assume(l <= h);
        b.min[i] = l;
        b.max[i] = h;
    }
    m.expand_bounds(&b, D);
    preserved3(&old, &m, D, "a cell keeps its value when all axes expand (3-D)");
}

/// Maps anywhere, on whole tiles or not: an expansion by whole cells on chosen sides.
#[no_mangle]
pub fn h_c09_anywhere2() {
    let res = [0.5, 2.0][lv::case(lv::tier(1, 2))];
    let tile = 1 + lv::case(lv::tier(1, 3));
    let by = [[(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)], [(1.0, 0.0), (0.0, 0.0), (0.0, 2.0)], [(2.0, 1.0), (1.0, 1.0), (1.0, 0.0)]][lv::case(3)];
    let (mut b, mut o) = (Bounds2::empty(), Bounds2::empty());
    for i in 0..2 {
        let c = lv::int(-1000, 1000);
        o.min[i] = c as f32 * res;
        o.max[i] = (c + S2[i]) as f32 * res;
        b.min[i] = (c as f32 - by[i].0) * res;
        b.max[i] = ((c + S2[i]) as f32 - 0.75 + by[i].1) * res;
    }
    let mut old = GridMap2::<i32>::new(res, o, tile, 0);
    let mut k = 0;
    each2(S2, |c| {
        k += 1;
        old.set(&c, k);
    });
    let mut m = old.clone();
    m.expand_bounds(&b, D);
    preserved2(&old, &m, D, "a cell keeps its value, wherever the map lies (2-D)");
}

/// Maps anywhere, on whole tiles or not: an expansion by whole cells on chosen sides.
#[no_mangle]
pub fn h_c09_anywhere3() {
    let res = [0.5, 2.0][lv::case(lv::tier(1, 2))];
    let tile = 1 + lv::case(lv::tier(1, 3));
    let by = [[(0.0, 0.0), (0.0, 1.0), (1.0, 0.0)], [(1.0, 0.0), (0.0, 0.0), (0.0, 2.0)], [(2.0, 1.0), (1.0, 1.0), (1.0, 0.0)]][lv::case(lv::tier(1, 3))];
    let (mut b, mut o) = (Bounds3::empty(), Bounds3::empty());
    for i in 0..3 {
        let c = lv::int(-1000, 1000);
        o.min[i] = c as f32 * res;
        o.max[i] = (c + S3[i]) as f32 * res;
        b.min[i] = (c as f32 - by[i].0) * res;
        b.max[i] = ((c + S3[i]) as f32 - 0.75 + by[i].1) * res;
    }
    let mut old = GridMap3::<i32>::new(res, o, tile, 0);
    let mut k = 0;
    each3(S3, |c| {
        k += 1;
        old.set(&c, k);
    });
    let mut m = old.clone();
    m.expand_bounds(&b, D);
    preserved3(&old, &m, D, "a cell keeps its value, wherever the map lies (3-D)");
}

/// Larger maps, larger tiles (the default one too), distant boxes.
//# conc_ftoi max_steps=20000000
#[no_mangle]
pub fn h_c09_large2() {
    let res = 0.25;
    let s = [[13isize, 9], [2, 131], [67, 3]][lv::case(3)];
    let tile = [16, 100][lv::case(2)];
    let axis = lv::case(2);
    let at = [-5isize, 3];
    let (mut o, mut b) = (Bounds2::empty(), Bounds2::empty());
    for i in 0..2 {
        o.min[i] = at[i] as f32 * res;
        o.max[i] = (at[i] + s[i]) as f32 * res;
        b.min[i] = (at[i] as f32 + 1.0) * res;
        b.max[i] = (at[i] as f32 + 4.5) * res;
    }
    b.min[axis] = lv::fix(-4, 4, 0) * 39.25 * res;
    b.max[axis] = lv::fix(-4, 4, 0) * 39.25 * res;
    lv::assume(b.min[axis] <= b.max[axis]);
    let mut old = GridMap2::<i32>::new(res, o, tile, 0);
    let mut k = 0;
    each2(s, |c| {
        k += 1;
        old.set(&c, k);
    });
    let mut m = old.clone();
    m.expand_bounds(&b, D);
    let mut wrong = 0;
    each2(s, |c| {
        if m.get(&m.cell_from_point(&old.point_from_cell(&c))) != old.get(&c) {
            wrong += 1;
        }
    });
    lv::check(wrong == 0, "the cells of a larger map keep their values (2-D)");
    let new = m.data.iter().filter(|v| **v == D).count();
    lv::check(new + old.data.len() == m.data.len(), "the other cells of a larger map hold the default (2-D)");
    for i in 0..2 {
        lv::check(m.bounds.min[i] <= old.bounds.min[i] && m.bounds.max[i] >= old.bounds.max[i], "the bounds of a larger map grow (2-D)");
    }
}
//# conc_ftoi max_steps=20000000
#[no_mangle]
pub fn h_c09_large3() {
    let res = 0.25;
    let s = [[7isize, 5, 3], [2, 2, 35], [2, 35, 2]][lv::case(3)];
    let tile = 8;
    let axis = lv::case(3);
    let at = [-5isize, 3, 9];
    let (mut o, mut b) = (Bounds3::empty(), Bounds3::empty());
    for i in 0..3 {
        o.min[i] = at[i] as f32 * res;
        o.max[i] = (at[i] + s[i]) as f32 * res;
        b.min[i] = (at[i] as f32 + 1.0) * res;
        b.max[i] = (at[i] as f32 + 2.5) * res;
    }
    b.min[axis] = lv::fix(-3, 3, 0) * 10.25 * res;
    b.max[axis] = lv::fix(-3, 3, 0) * 10.25 * res;
    lv::assume(b.min[axis] <= b.max[axis]);
    let mut old = GridMap3::<i32>::new(res, o, tile, 0);
    let mut k = 0;
    each3(s, |c| {
        k += 1;
        old.set(&c, k);
    });
    let mut m = old.clone();
    m.expand_bounds(&b, D);
    let mut wrong = 0;
    each3(s, |c| {
        if m.get(&m.cell_from_point(&old.point_from_cell(&c))) != old.get(&c) {
            wrong += 1;
        }
    });
    lv::check(wrong == 0, "the cells of a larger map keep their values (3-D)");
    let new = m.data.iter().filter(|v| **v == D).count();
    lv::check(new + old.data.len() == m.data.len(), "the other cells of a larger map hold the default (3-D)");
    for i in 0..3 {
        lv::check(m.bounds.min[i] <= old.bounds.min[i] && m.bounds.max[i] >= old.bounds.max[i], "the bounds of a larger map grow (3-D)");
    }
}
