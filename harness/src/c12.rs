//! C12: every cell on a cast ray is touched by the segment.
use crate::lv;
use kuba::ray_caster::cast_ray;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, Point2, Point3};

/// (resolution, bounds minimum, where the origin is, shift of the origin's grid)
const CFG: [(f32, f32, f32, u32); 4] =
    [(0.5, -1.25, 3.0, 6), (1.0, 0.0, 0.0, 5), (0.1, 0.0, 0.25, 9), (0.3, -0.35, -7.0, 7)];
const E: f32 = 1.0 / 1048576.0;

const V2: [[f32; 2]; 27] = [
    [-2.5, -2.0],
    [-2.5, -0.25],
    [-2.5, 0.0],
    [-2.5, 1.5],
    [0.0, -2.0],
    [0.0, -0.25],
    [0.0, 0.0],
    [0.0, 1.5],
    [0.25, -2.0],
    [0.25, -0.25],
    [0.25, 0.0],
    [0.25, 1.5],
    [1.0, -2.0],
    [1.0, -0.25],
    [1.0, 0.0],
    [1.0, 1.5],
    [3.0, 3.0],
    [-3.0, 3.0],
    [3.0 - 8.0 * E, 3.0],
    [E, 2.0],
    [2.0, -E],
    [-E, -64.0 * E],
    [4.0, 0.015625],
    [-3.5, -3.515625],
    [5.0, 2.0],
    [0.5, -4.5],
    [-1.25, 3.0],
];
/// The segment from o to o + v meets the box of cell c, grown by a thousandth of a cell: for all i, j the
/// i-th entry parameter is no later than the j-th exit parameter, multiplied out.
fn touched2(c: &Cell2, o: &Point2, v: &[f64; 2], off: &Point2, res: f32) -> bool {
    let r = res as f64;
    let (mut tin, mut tout) = ([0.0f64; 2], [0.0f64; 2]);
    let mut ok = true;
    for i in 0..2 {
        let d = off[i] as f64 + c[i] as f64 * r - o[i] as f64;
        let (lo, hi) = (d - 0.501 * r, d + 0.501 * r);
        if v[i] >= 0.0 {
            tin[i] = lo;
            tout[i] = hi;
        } else {
            tin[i] = -hi;
            tout[i] = -lo;
        }
        ok &= (tin[i] <= v[i].abs()) & (tout[i] >= 0.0);
    }
    for i in 0..2 {
        for j in 0..2 {
            if i != j && v[i] != 0.0 && v[j] != 0.0 {
                ok &= tin[i] * v[j].abs() <= tout[j] * v[i].abs();
            }
        }
    }
    ok
}
//# conc_ftoi
#[no_mangle]
pub fn h_c12_touched2() {
    let (res, off, base, shift) = CFG[lv::case(lv::tier(4, 4)) * lv::tier(1, 1)];
    let v = V2[lv::case(27)];
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    let mut d = [0.0; 2];
    let w = lv::tier(32, 48);
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + lv::fix(-w, w, shift);
        let len = v[i] * if res < 0.2 { 0.25 } else if res < 0.4 { 0.5 } else { 1.0 };
        e[i] = o[i] + len;
        d[i] = len as f64;
    }
    let (ray, end) = cast_ray(&o, &e, &b, res, 0.0);
    let (mut last, mut touched, mut order) = (-1, true, true);
    for k in 0..ray.len() + 1 {
        let c = if k < ray.len() { ray[k] } else { end.unwrap() };
        touched &= touched2(&c, &o, &d, &b.min, res);
        let mut n = 0;
        for i in 0..2 {
            n += (c[i] - if ray.is_empty() { c[i] } else { ray[0][i] }).abs();
        }
        order &= n > last;
        last = n;
    }
    lv::check(touched, "the segment touches every cell (2-D)");
    lv::check(order, "cells come in the order they are met (2-D)");
    if ray.len() > 2 {
        lv::cover("a walk (2-D)");
    }
}

const V3: [[f32; 3]; 18] = [
    [1.5, 1.5, 1.5],
    [-1.0, 2.0, -1.0],
    [1.0, 0.0, 0.0],
    [0.0, 0.0, 2.5],
    [0.0, -2.0, 0.0],
    [1.0, 2.0, 0.0],
    [0.0, -1.0, 2.0],
    [-2.0, 0.0, 1.0],
    [2.0, E, 0.0],
    [0.0, 2.0, E],
    [2.5, 1.0, 0.5],
    [-0.5, 2.5, 1.0],
    [1.0, -0.5, -2.5],
    [-1.0, -1.5, -2.0],
    [1.5, 1.5, 1.5 - 8.0 * E],
    [0.25, -0.25, 0.25],
    [3.0, 0.015625, -0.015625],
    [0.5, 3.0, -0.5],
];
/// The segment from o to o + v meets the box of cell c, grown by a thousandth of a cell: for all i, j the
/// i-th entry parameter is no later than the j-th exit parameter, multiplied out.
fn touched3(c: &Cell3, o: &Point3, v: &[f64; 3], off: &Point3, res: f32) -> bool {
    let r = res as f64;
    let (mut tin, mut tout) = ([0.0f64; 3], [0.0f64; 3]);
    let mut ok = true;
    for i in 0..3 {
        let d = off[i] as f64 + c[i] as f64 * r - o[i] as f64;
        let (lo, hi) = (d - 0.501 * r, d + 0.501 * r);
        if v[i] >= 0.0 {
            tin[i] = lo;
            tout[i] = hi;
        } else {
            tin[i] = -hi;
            tout[i] = -lo;
        }
        ok &= (tin[i] <= v[i].abs()) & (tout[i] >= 0.0);
    }
    for i in 0..3 {
        for j in 0..3 {
            if i != j && v[i] != 0.0 && v[j] != 0.0 {
                ok &= tin[i] * v[j].abs() <= tout[j] * v[i].abs();
            }
        }
    }
    ok
}
//# conc_ftoi
#[no_mangle]
pub fn h_c12_touched3() {
    let (res, off, base, shift) = CFG[lv::case(lv::tier(2, 4)) * lv::tier(2, 1)];
    let v = V3[lv::case(18)];
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    let mut d = [0.0; 3];
    let w = lv::tier(6, 16);
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + lv::fix(-w, w, shift);
        let len = v[i] * if res < 0.2 { 0.25 } else if res < 0.4 { 0.5 } else { 1.0 };
        e[i] = o[i] + len;
        d[i] = len as f64;
    }
    let (ray, end) = cast_ray(&o, &e, &b, res, 0.0);
    let (mut last, mut touched, mut order) = (-1, true, true);
    for k in 0..ray.len() + 1 {
        let c = if k < ray.len() { ray[k] } else { end.unwrap() };
        touched &= touched3(&c, &o, &d, &b.min, res);
        let mut n = 0;
        for i in 0..3 {
            n += (c[i] - if ray.is_empty() { c[i] } else { ray[0][i] }).abs();
        }
        order &= n > last;
        last = n;
    }
    lv::check(touched, "the segment touches every cell (3-D)");
    lv::check(order, "cells come in the order they are met (3-D)");
    if ray.len() > 2 {
        lv::cover("a walk (3-D)");
    }
}
/// Rays of many cells: major length, minor lengths, in cells.
const LONG: [(f32, f32, f32); 6] = [
    (42.0, 2.125, -1.0),
    (-48.0, 2.5, 0.0),
    (36.0, -0.75, 3.125),
    (-40.0, -3.25, 2.5),
    (30.0, 4.0, 14.0),
    (34.0, 0.0, 1.75),
];
/// Shallow rays of many cells; the origin is anywhere across the minor axis of its cell.
//# conc_ftoi
#[no_mangle]
pub fn h_c12_long2() {
    let (a, m, m2) = LONG[lv::case(6)];
    let m = if lv::case(2) == 0 { m } else { m2 };
    let major = lv::case(2);
    let (res, off) = [(0.5, -1.25), (1.0, 0.0)][lv::case(2)];
    let w = lv::tier(8, 64);
    let shift = lv::tier(4, 7);
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    let mut d = [0.0; 2];
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        let len = if i == major { a } else { m } * res;
        o[i] = 3.0 + if i == major { 0.125 } else { lv::fix(-w, w, shift) };
        e[i] = o[i] + len;
        d[i] = len as f64;
    }
    let (ray, end) = cast_ray(&o, &e, &b, res, 0.0);
    let mut touched = true;
    for k in 0..ray.len() + 1 {
        let c = if k < ray.len() { ray[k] } else { end.unwrap() };
        touched &= touched2(&c, &o, &d, &b.min, res);
    }
    lv::check(touched, "the segment touches every cell of a long ray (2-D)");
    lv::check(ray.len() > 20, "a long ray has many cells (2-D)");
}
/// As in 2-D, with one of the minor coordinates anywhere.
//# conc_ftoi
#[no_mangle]
pub fn h_c12_long3() {
    let (a, m, m2) = LONG[lv::case(6)];
    let major = lv::case(3);
    let free = 1 + lv::case(2);
    let (res, off) = [(1.0, 0.0), (0.5, -1.25)][lv::case(lv::tier(1, 2))];
    let w = lv::tier(8, 64);
    let shift = lv::tier(4, 7);
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    let mut d = [0.0; 3];
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
    }
    for k in 0..3 {
        let i = (major + k) % 3;
        let len = [a, m, m2][k] * res;
        o[i] = 3.0 + if k == free { lv::fix(-w, w, shift) } else { 0.125 };
        e[i] = o[i] + len;
        d[i] = len as f64;
    }
    let (ray, end) = cast_ray(&o, &e, &b, res, 0.0);
    let mut touched = true;
    for k in 0..ray.len() + 1 {
        let c = if k < ray.len() { ray[k] } else { end.unwrap() };
        touched &= touched3(&c, &o, &d, &b.min, res);
    }
    lv::check(touched, "the segment touches every cell of a long ray (3-D)");
    lv::check(ray.len() > 20, "a long ray has many cells (3-D)");
}
