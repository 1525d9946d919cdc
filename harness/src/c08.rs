//! C08: a grid map stores one value per cell.
use crate::lv;
use kuba::map::GridMap;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2, GridMap3, Point2, Point3};

const WIDE: i64 = 1 << 40;

const D2: [[isize; 2]; 3] = [[3, 4], [1, 5], [4, 2]];
/// A map at any cell offset, with the shape of a case.
fn map2(res: f32, d: [isize; 2], default: i32) -> GridMap2<i32> {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        let m = lv::int(-1000, 1000);
        lo[i] = m as f32 * res;
        hi[i] = (m + d[i]) as f32 * res;
    }
    GridMap2::<i32>::new(res, Bounds2::new(lo, hi), 10, default)
}
fn all2(d: [isize; 2], mut f: impl FnMut(Cell2)) {
    for x in 0..d[0] {
        for y in 0..d[1] {
            f(Cell2::new(x, y));
        }
    }
}
fn inside2(d: [isize; 2]) -> Cell2 {
    Cell2::new(lv::int(0, d[0] as i64 - 1), lv::int(0, d[1] as i64 - 1))
}

#[no_mangle]
pub fn h_c08_new2() {
    let res = lv::RES[lv::case(6)];
    let d = D2[lv::case(3)];
    let v = lv::int(-2147483648, 2147483647) as i32;
    let m = map2(res, d, v);
    for i in 0..2 {
        lv::check(m.data.shape()[i] as isize == d[i], "one cell per resolution step on each axis (2-D)");
    }
    all2(d, |c| lv::check(m.get(&c) == v, "every cell of a new map holds the default (2-D)"));
    lv::check(m.resolution() == res && m.tile_size == 10, "resolution and tile size are kept (2-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "no changes are logged in a new map (2-D)");
}
/// Two writes (three in the thorough tier) anywhere, then every cell is read.
#[no_mangle]
pub fn h_c08_writes2() {
    let d = D2[lv::case(3)];
    let mut m = map2(0.1, d, -7);
    let n = lv::tier(2, 3);
    let mut w = [Cell2::origin(); 3];
    let mut v = [0i32; 3];
    for i in 0..n {
        w[i] = inside2(d);
        v[i] = lv::int(-1000, 1000) as i32;
        m.set(&w[i], v[i]);
        lv::check(m.get(&w[i]) == v[i], "a cell reads back what was just written (2-D)");
    }
    all2(d, |c| {
        let mut want = -7;
        for i in 0..n {
            if w[i] == c {
                want = v[i];
            }
        }
        lv::check(m.get(&c) == want, "each cell holds its last written value or the default (2-D)");
    });
    if w[0] == w[1] {
        lv::cover("the same cell written twice (2-D)");
    }
}
fn outside2(d: [isize; 2]) -> Cell2 {
    let axis = lv::case(2);
    let mut c = Cell2::origin();
    for i in 0..2 {
        c[i] = if i == axis { lv::int(-WIDE, WIDE) } else { lv::int(-5, 9) };
    }
    lv::assume(c[axis] < 0 || c[axis] >= d[axis]);
    c
}
#[no_mangle]
pub fn h_c08_getoutside2() {
    let d = D2[lv::case(3)];
    let m = map2(0.25, d, 1);
    let c = outside2(d);
    lv::expect_panic("reading a cell outside the map panics (2-D)");
    m.get(&c);
}
#[no_mangle]
pub fn h_c08_setoutside2() {
    let d = D2[lv::case(3)];
    let mut m = map2(0.25, d, 1);
    let c = outside2(d);
    lv::expect_panic("writing a cell outside the map panics (2-D)");
    m.set(&c, 5);
}
/// Other element types.
#[no_mangle]
pub fn h_c08_types2() {
    let b = Bounds2::new(Point2::origin(), Point2::from(Point2::origin().coords.add_scalar(1.0)));
    let mut f = GridMap2::<f32>::new(0.5, b.clone(), 10, 0.5);
    let mut g = GridMap2::<bool>::new(0.5, b.clone(), 10, false);
    let d = [2isize; 2];
    let c = inside2(d);
    let x = lv::fix(-1000, 1000, 3);
    f.set(&c, x);
    g.set(&c, true);
    all2(d, |e| {
        lv::check(f.get(&e) == if e == c { x } else { 0.5 }, "floats are stored per cell (2-D)");
        lv::check(g.get(&e) == (e == c), "booleans are stored per cell (2-D)");
    });
    lv::check(f.bounds() == b, "the bounds are kept (2-D)");
    let e = GridMap2::<i32>::default();
    lv::check(e.bounds() == Bounds2::empty() && e.data.len() == 0, "the default map is empty (2-D)");
}

const D3: [[isize; 3]; 3] = [[2, 2, 3], [1, 3, 2], [3, 1, 2]];
/// A map at any cell offset, with the shape of a case.
fn map3(res: f32, d: [isize; 3], default: i32) -> GridMap3<i32> {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        let m = lv::int(-1000, 1000);
        lo[i] = m as f32 * res;
        hi[i] = (m + d[i]) as f32 * res;
    }
    GridMap3::<i32>::new(res, Bounds3::new(lo, hi), 10, default)
}
fn all3(d: [isize; 3], mut f: impl FnMut(Cell3)) {
    for x in 0..d[0] {
        for y in 0..d[1] {
            for z in 0..d[2] {
                f(Cell3::new(x, y, z));
            }
        }
    }
}
fn inside3(d: [isize; 3]) -> Cell3 {
    Cell3::new(lv::int(0, d[0] as i64 - 1), lv::int(0, d[1] as i64 - 1), lv::int(0, d[2] as i64 - 1))
}

#[no_mangle]
pub fn h_c08_new3() {
    let res = lv::RES[lv::case(6)];
    let d = D3[lv::case(3)];
    let v = lv::int(-2147483648, 2147483647) as i32;
    let m = map3(res, d, v);
    for i in 0..3 {
        lv::check(m.data.shape()[i] as isize == d[i], "one cell per resolution step on each axis (3-D)");
    }
    all3(d, |c| lv::check(m.get(&c) == v, "every cell of a new map holds the default (3-D)"));
    lv::check(m.resolution() == res && m.tile_size == 10, "resolution and tile size are kept (3-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "no changes are logged in a new map (3-D)");
}
/// Two writes (three in the thorough tier) anywhere, then every cell is read.
#[no_mangle]
pub fn h_c08_writes3() {
    let d = D3[lv::case(3)];
    let mut m = map3(0.1, d, -7);
    let n = lv::tier(2, 3);
    let mut w = [Cell3::origin(); 3];
    let mut v = [0i32; 3];
    for i in 0..n {
        w[i] = inside3(d);
        v[i] = lv::int(-1000, 1000) as i32;
        m.set(&w[i], v[i]);
        lv::check(m.get(&w[i]) == v[i], "a cell reads back what was just written (3-D)");
    }
    all3(d, |c| {
        let mut want = -7;
        for i in 0..n {
            if w[i] == c {
                want = v[i];
            }
        }
        lv::check(m.get(&c) == want, "each cell holds its last written value or the default (3-D)");
    });
    if w[0] == w[1] {
        lv::cover("the same cell written twice (3-D)");
    }
}
fn outside3(d: [isize; 3]) -> Cell3 {
    let axis = lv::case(3);
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = if i == axis { lv::int(-WIDE, WIDE) } else { lv::int(-5, 9) };
    }
    lv::assume(c[axis] < 0 || c[axis] >= d[axis]);
    c
}
#[no_mangle]
pub fn h_c08_getoutside3() {
    let d = D3[lv::case(3)];
    let m = map3(0.25, d, 1);
    let c = outside3(d);
    lv::expect_panic("reading a cell outside the map panics (3-D)");
    m.get(&c);
}
#[no_mangle]
pub fn h_c08_setoutside3() {
    let d = D3[lv::case(3)];
    let mut m = map3(0.25, d, 1);
    let c = outside3(d);
    lv::expect_panic("writing a cell outside the map panics (3-D)");
    m.set(&c, 5);
}
/// Other element types.
#[no_mangle]
pub fn h_c08_types3() {
    let b = Bounds3::new(Point3::origin(), Point3::from(Point3::origin().coords.add_scalar(1.0)));
    let mut f = GridMap3::<f32>::new(0.5, b.clone(), 10, 0.5);
    let mut g = GridMap3::<bool>::new(0.5, b.clone(), 10, false);
    let d = [2isize; 3];
    let c = inside3(d);
    let x = lv::fix(-1000, 1000, 3);
    f.set(&c, x);
    g.set(&c, true);
    all3(d, |e| {
        lv::check(f.get(&e) == if e == c { x } else { 0.5 }, "floats are stored per cell (3-D)");
        lv::check(g.get(&e) == (e == c), "booleans are stored per cell (3-D)");
    });
    lv::check(f.bounds() == b, "the bounds are kept (3-D)");
    let e = GridMap3::<i32>::default();
    lv::check(e.bounds() == Bounds3::empty() && e.data.len() == 0, "the default map is empty (3-D)");
}

/// Bounds anywhere: the number of cells is the extent over the resolution, rounded.
#[no_mangle]
pub fn h_c08_offgrid2() {
    let res = lv::RES[lv::case(6)];
    let d = D2[lv::case(3)];
    let lo = Point2::new(lv::real(-100.0, 100.0), lv::real(-100.0, 100.0));
    let hi = Point2::new(lv::real(-100.0, 100.0), lv::real(-100.0, 100.0));
    for i in 0..2 {
        lv::assume(lv::near(hi[i] - lo[i], d[i] as f32 * res, 0.45 * res as f64));
    }
    let mut m = GridMap2::<i32>::new(res, Bounds2::new(lo, hi), 10, 3);
    for i in 0..2 {
        lv::check(m.data.shape()[i] as isize == d[i], "one cell per resolution step on each axis, off the grid (2-D)");
    }
    let c = inside2(d);
    m.set(&c, 8);
    all2(d, |e| lv::check(m.get(&e) == if e == c { 8 } else { 3 }, "cells are independent, off the grid (2-D)"));
}

/// Bounds anywhere: the number of cells is the extent over the resolution, rounded.
#[no_mangle]
pub fn h_c08_offgrid3() {
    let res = lv::RES[lv::case(6)];
    let d = D3[lv::case(3)];
    let lo = Point3::new(lv::real(-100.0, 100.0), lv::real(-100.0, 100.0), lv::real(-100.0, 100.0));
    let hi = Point3::new(lv::real(-100.0, 100.0), lv::real(-100.0, 100.0), lv::real(-100.0, 100.0));
    for i in 0..3 {
        lv::assume(lv::near(hi[i] - lo[i], d[i] as f32 * res, 0.45 * res as f64));
    }
    let mut m = GridMap3::<i32>::new(res, Bounds3::new(lo, hi), 10, 3);
    for i in 0..3 {
        lv::check(m.data.shape()[i] as isize == d[i], "one cell per resolution step on each axis, off the grid (3-D)");
    }
    let c = inside3(d);
    m.set(&c, 8);
    all3(d, |e| lv::check(m.get(&e) == if e == c { 8 } else { 3 }, "cells are independent, off the grid (3-D)"));
}

/// Larger maps: a write anywhere, then every cell.
#[no_mangle]
pub fn h_c08_large2() {
    let d = [[11isize, 12], [3, 70], [80, 2]][lv::case(3)];
    let mut m = map2(0.25, d, -7);
    for i in 0..2 {
        lv::check(m.data.shape()[i] as isize == d[i], "a larger map has one cell per step (2-D)");
    }
    let a = inside2(d);
    m.set(&a, 11);
    let mut wrong = 0;
    all2(d, |c| {
        if (m.get(&c) == 11) != (c == a) || m.get(&c) != 11 && m.get(&c) != -7 {
            wrong += 1;
        }
    });
    lv::check(wrong == 0, "a write to a larger map changes its cell and no other (2-D)");
}
#[no_mangle]
pub fn h_c08_large3() {
    let d = [[9isize, 8, 7], [2, 3, 40], [34, 2, 3]][lv::case(3)];
    let mut m = map3(0.25, d, -7);
    for i in 0..3 {
        lv::check(m.data.shape()[i] as isize == d[i], "a larger map has one cell per step (3-D)");
    }
    let a = inside3(d);
    m.set(&a, 11);
    let mut wrong = 0;
    all3(d, |c| {
        if (m.get(&c) == 11) != (c == a) || m.get(&c) != 11 && m.get(&c) != -7 {
            wrong += 1;
        }
    });
    lv::check(wrong == 0, "a write to a larger map changes its cell and no other (3-D)");
}
