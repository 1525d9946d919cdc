//! C13: a positive range limit cuts the ray at the first cell beyond it.
use crate::lv;
use kuba::geom::converter::point_from_cell;
use kuba::ray_caster::cast_ray;
use kuba::{Bounds2, Bounds3, Point2, Point3};

/// (resolution, bounds minimum, where the origin is, shift of the origin's grid, rounding allowance on
/// squared distances: none where the arithmetic is exact)
const CFG: [(f32, f32, f32, u32, f64); 4] =
    [(1.0, 0.0, 0.0, 4, 0.0), (0.5, -1.25, 3.0, 5, 0.0), (0.1, 0.0, 0.25, 7, 1e-5), (0.3, -0.35, -7.0, 6, 1e-4)];
/// Range limits in cells.
const LIM: [f32; 9] = [0.0, -1.0, -2.5, 1.0, 0.25, 1.75, 2.5, 0.5, 30.0];

const V2: [[f32; 2]; 7] = [
    [0.0, 0.0],
    [3.0, 0.0],
    [0.0, -3.0],
    [2.5, 1.5],
    [-3.0, 1.0],
    [-1.5, -2.25],
    [0.5, 3.0],
];
fn limited2(o: &Point2, e: &Point2, b: &Bounds2, res: f32, lim: f32, tol: f64) {
    let (full, end) = cast_ray(o, e, b, res, 0.0);
    let (ray, stop) = cast_ray(o, e, b, res, lim);
    lv::check(end.is_some(), "an unlimited ray reports its end (2-D)");
    lv::check(stop.is_none() || stop == end, "a limited ray reports no other end (2-D)");
    lv::check(ray.len() <= full.len(), "a limited ray has no more cells (2-D)");
    let mut same = true;
    for k in 0..ray.len() {
        same &= ray[k] == full[k];
    }
    lv::check(same, "a limited ray is a prefix of the unlimited one (2-D)");
    if lim <= 0.0 {
        lv::check(stop == end && ray.len() == full.len(), "no limit gives the full ray (2-D)");
        lv::cover("no limit (2-D)");
        return;
    }
    let max = lim as f64 * lim as f64;
    let mut inside = true;
    for k in 1..ray.len() {
        inside &= dist2(&full[k], o, b, res) <= max + tol;
    }
    lv::check(inside, "every cell but the first is within the limit (2-D)");
    if stop.is_none() {
        lv::check(ray.len() >= 1 && ray.len() < full.len(), "the end is dropped only if a cell is (2-D)");
        lv::check(dist2(&full[ray.len()], o, b, res) > max - tol, "the first cell dropped is beyond the limit (2-D)");
        lv::cover("a ray that is cut (2-D)");
    } else {
        lv::check(ray.len() == full.len(), "cells are dropped only with the end (2-D)");
        lv::cover("a ray within the limit (2-D)");
    }
}
fn dist2(c: &kuba::Cell2, o: &Point2, b: &Bounds2, res: f32) -> f64 {
    let p = point_from_cell(c, &b.min, res);
    let mut sum = 0.0;
    for i in 0..2 {
        let d = (p[i] - o[i]) as f64;
        sum += d * d;
    }
    sum
}
/// Origins on a line along one axis, at two places on the others.
//# conc_ftoi mul_table=4096
#[no_mangle]
pub fn h_c13_line2() {
    let (res, off, base, shift, tol) = CFG[lv::case(4)];
    let v = V2[lv::case(7)];
    let axis = lv::case(2);
    let lim = LIM[lv::case(lv::tier(7, 9))] * res;
    let w = lv::tier(16, 32);
    let place = if lv::case(2) == 0 { 0.0 } else { 3.0 / 16.0 };
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == axis { lv::fix(-w, w, shift) } else { place };
        e[i] = o[i] + v[i] * if res < 0.2 { 0.25 } else { 1.0 };
    }
    limited2(&o, &e, &b, res, lim, if res == 1.0 || res == 0.5 { 0.0 } else { tol });
}

const V3: [[f32; 3]; 5] = [
    [2.5, 0.0, 0.0],
    [0.0, -2.5, 0.0],
    [0.0, 0.0, 3.0],
    [2.0, 1.5, -1.0],
    [-1.0, 0.5, 2.5],
];
fn limited3(o: &Point3, e: &Point3, b: &Bounds3, res: f32, lim: f32, tol: f64) {
    let (full, end) = cast_ray(o, e, b, res, 0.0);
    let (ray, stop) = cast_ray(o, e, b, res, lim);
    lv::check(end.is_some(), "an unlimited ray reports its end (3-D)");
    lv::check(stop.is_none() || stop == end, "a limited ray reports no other end (3-D)");
    lv::check(ray.len() <= full.len(), "a limited ray has no more cells (3-D)");
    let mut same = true;
    for k in 0..ray.len() {
        same &= ray[k] == full[k];
    }
    lv::check(same, "a limited ray is a prefix of the unlimited one (3-D)");
    if lim <= 0.0 {
        lv::check(stop == end && ray.len() == full.len(), "no limit gives the full ray (3-D)");
        lv::cover("no limit (3-D)");
        return;
    }
    let max = lim as f64 * lim as f64;
    let mut inside = true;
    for k in 1..ray.len() {
        inside &= dist3(&full[k], o, b, res) <= max + tol;
    }
    lv::check(inside, "every cell but the first is within the limit (3-D)");
    if stop.is_none() {
        lv::check(ray.len() >= 1 && ray.len() < full.len(), "the end is dropped only if a cell is (3-D)");
        lv::check(dist3(&full[ray.len()], o, b, res) > max - tol, "the first cell dropped is beyond the limit (3-D)");
        lv::cover("a ray that is cut (3-D)");
    } else {
        lv::check(ray.len() == full.len(), "cells are dropped only with the end (3-D)");
        lv::cover("a ray within the limit (3-D)");
    }
}
fn dist3(c: &kuba::Cell3, o: &Point3, b: &Bounds3, res: f32) -> f64 {
    let p = point_from_cell(c, &b.min, res);
    let mut sum = 0.0;
    for i in 0..3 {
        let d = (p[i] - o[i]) as f64;
        sum += d * d;
    }
    sum
}
/// Origins on a line along one axis, at two places on the others.
//# conc_ftoi mul_table=4096
#[no_mangle]
pub fn h_c13_line3() {
    let (res, off, base, shift, tol) = CFG[lv::case(lv::tier(2, 4))];
    let v = V3[lv::case(5)];
    let axis = lv::case(3);
    let lim = LIM[lv::case(lv::tier(6, 9))] * res;
    let w = lv::tier(10, 20);
    let place = if lv::case(2) == 0 { 0.0 } else { 3.0 / 16.0 };
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == axis { lv::fix(-w, w, shift) } else { place };
        e[i] = o[i] + v[i] * if res < 0.2 { 0.25 } else { 1.0 };
    }
    limited3(&o, &e, &b, res, lim, if res == 1.0 || res == 0.5 { 0.0 } else { tol });
}

/// Any origin and end point over some cells, any limit: a prefix, whole without a limit. (Products, quotients and
/// roots are any floats, consistently.)
//# havoc soft
#[no_mangle]
pub fn h_c13_any2() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let span = lv::tier(3.0, 5.0) * res as f64;
    let part = lv::case(6) as f64 / 6.0;
    let lim = lv::real(-100.0, 100.0);
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 1.0 / 6.0)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    let (full, end) = cast_ray(&o, &e, &b, res, 0.0);
    let (ray, stop) = cast_ray(&o, &e, &b, res, lim);
    lv::check(end.is_some(), "an unlimited ray reports its end, anywhere (2-D)");
    lv::check(ray.len() <= full.len(), "a limited ray has no more cells, anywhere (2-D)");
    for k in 0..ray.len() {
        lv::check(ray[k] == full[k], "a limited ray is a prefix of the unlimited one, anywhere (2-D)");
    }
    if stop.is_some() {
        lv::check(stop == end && ray.len() == full.len(), "a ray that reports its end has all its cells, anywhere (2-D)");
        lv::cover("a ray that is not cut, anywhere (2-D)");
    } else {
        lv::check(lim > 0.0 && ray.len() >= 1 && ray.len() < full.len(), "a ray is cut only by a positive limit, anywhere (2-D)");
        lv::cover("a ray that is cut, anywhere (2-D)");
    }
}

/// Any origin and end point over some cells, any limit: a prefix, whole without a limit. (Products, quotients and
/// roots are any floats, consistently.)
//# havoc soft
#[no_mangle]
pub fn h_c13_any3() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let span = lv::tier(1.75, 2.5) * res as f64;
    let part = lv::case(6) as f64 / 6.0;
    let lim = lv::real(-100.0, 100.0);
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 1.0 / 6.0)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    let (full, end) = cast_ray(&o, &e, &b, res, 0.0);
    let (ray, stop) = cast_ray(&o, &e, &b, res, lim);
    lv::check(end.is_some(), "an unlimited ray reports its end, anywhere (3-D)");
    lv::check(ray.len() <= full.len(), "a limited ray has no more cells, anywhere (3-D)");
    for k in 0..ray.len() {
        lv::check(ray[k] == full[k], "a limited ray is a prefix of the unlimited one, anywhere (3-D)");
    }
    if stop.is_some() {
        lv::check(stop == end && ray.len() == full.len(), "a ray that reports its end has all its cells, anywhere (3-D)");
        lv::cover("a ray that is not cut, anywhere (3-D)");
    } else {
        lv::check(lim > 0.0 && ray.len() >= 1 && ray.len() < full.len(), "a ray is cut only by a positive limit, anywhere (3-D)");
        lv::cover("a ray that is cut, anywhere (3-D)");
    }
}

/// Any origin and end point over some cells: cells are dropped by their distance (over the reals, with roundings).
//# havoc=2 soft conc_ftoi
#[no_mangle]
pub fn h_c13_far2() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let lim = [1.0, 2.5, 1.75, 0.5][lv::case(lv::tier(2, 4))] * res;
    let span = lv::tier(2.5, 3.5) * res as f64;
    let part = lv::case(8) as f64 / 8.0;
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 0.125)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    limited2(&o, &e, &b, res, lim, 1e-4 * res as f64 * res as f64);
}
/// Any origin and end point over some cells: cells are dropped by their distance (over the reals, with roundings).
//# havoc=2 soft conc_ftoi
#[no_mangle]
pub fn h_c13_far3() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let lim = [1.0, 2.5, 1.75, 0.5][lv::case(lv::tier(2, 4))] * res;
    let span = lv::tier(1.5, 2.0) * res as f64;
    let part = lv::case(8) as f64 / 8.0;
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 0.125)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    limited3(&o, &e, &b, res, lim, 1e-4 * res as f64 * res as f64);
}

/// Any limit, from fixed origins along fixed rays, some of which clip a cell that is farther than their end.
//# conc_ftoi mul_table=4096
#[no_mangle]
pub fn h_c13_limit2() {
    const V: [[f32; 3]; 8] = [
        [1.625, 0.53125, 0.0],
        [0.53125, -1.625, 1.625],
        [-2.5625, 1.5625, 0.53125],
        [3.5625, 3.53125, -1.53125],
        [-4.0, 0.0, 2.0],
        [1.5625, -4.53125, -4.5625],
        [-6.53125, -2.5625, 0.0],
        [2.0, 2.0, 2.0],
    ];
    let (res, off, base, _, tol) = CFG[lv::case(4)];
    let v = V[lv::case(8)];
    let place = [0.0, 0.1875, -0.375][lv::case(3)];
    let lim = lv::fix(-8, 8 * lv::tier(64, 500), if lv::tier(0, 1) == 1 { 9 } else { 6 }) * res;
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == 0 { place * res } else { 0.0 };
        e[i] = o[i] + v[i] * res;
    }
    limited2(&o, &e, &b, res, lim, if res == 1.0 || res == 0.5 { 0.0 } else { tol });
}

/// Any limit, from fixed origins along fixed rays, some of which clip a cell that is farther than their end.
//# conc_ftoi mul_table=4096
#[no_mangle]
pub fn h_c13_limit3() {
    const V: [[f32; 3]; 8] = [
        [1.625, 0.53125, 0.0],
        [0.53125, -1.625, 1.625],
        [-2.5625, 1.5625, 0.53125],
        [3.5625, 3.53125, -1.53125],
        [-4.0, 0.0, 2.0],
        [1.5625, -4.53125, -4.5625],
        [-6.53125, -2.5625, 0.0],
        [2.0, 2.0, 2.0],
    ];
    let (res, off, base, _, tol) = CFG[lv::case(4)];
    let v = V[lv::case(8)];
    let place = [0.0, 0.1875, -0.375][lv::case(3)];
    let lim = lv::fix(-8, 8 * lv::tier(64, 500), if lv::tier(0, 1) == 1 { 9 } else { 6 }) * res;
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == 0 { place * res } else { 0.0 };
        e[i] = o[i] + v[i] * res;
    }
    limited3(&o, &e, &b, res, lim, if res == 1.0 || res == 0.5 { 0.0 } else { tol });
}
