//! C05: snapping bounds to the resolution.
use crate::lv;
use kuba::{Bounds2, Bounds3, Point2, Point3};

/// Power-of-two resolutions and dyadic coordinates: exact, no tolerance.
const REX: [f32; 5] = [0.25, 1.0, 0.5, 2.0, 0.125];
fn ex() -> (f32, f32) {
    let (a, b) = (lv::fix(-51200, 51200, 8), lv::fix(-51200, 51200, 8));
    lv::assume(a <= b);
    (a, b)
}
const R: [f32; 4] = [0.1, 0.3, 0.05, 2.5];
/// One axis at a time is symbolic; the other axes hold these.
const FIXED: [(f32, f32); 3] = [(-3.14, 7.77), (0.3, 0.9), (-2.5, -2.5)];
/// Boxes at least a millimetre wide: rounding is tracked as an interval, in which the order of two
/// closer faces is lost (degenerate boxes are covered by the exact harnesses).
fn re() -> (f32, f32) {
    let (a, b) = (lv::real(-200.0, 200.0), lv::real(-200.0, 200.0));
    lv::assume(b as f64 - a as f64 >= 1e-3);
    (a, b)
}
/// Rounding error of a few operations on values below 200.
const T: f64 = 1e-4;
fn multiple(x: f32, res: f32) -> bool {
    let k = (x / res).round() as f64;
    let d = x as f64 - k * res as f64;
    d <= T && d >= -T
}

#[no_mangle]
pub fn h_c05_exact2() {
    let res = REX[lv::case(5)];
    let mut b = Bounds2::empty();
    for i in 0..2 {
        let (l, h) = ex();
        b.min[i] = l;
        b.max[i] = h;
    }
    let d = b.discretized(res, false);
    let e = b.discretized(res, true);
    for i in 0..2 {
        let (l, h) = ((d.min[i] / res) as f64, (d.max[i] / res) as f64);
        lv::check(l.floor() == l && h.floor() == h, "faces are multiples (exact, 2-D)");
        lv::check(d.min[i] <= b.min[i] && b.max[i] <= d.max[i], "contains the original (exact, 2-D)");
        lv::check(b.min[i] - d.min[i] < res && d.max[i] - b.max[i] < res, "grows by less than a cell (exact, 2-D)");
        lv::check(e.min[i] == d.min[i], "expand leaves the minimum alone (exact, 2-D)");
        if d.max[i] == b.max[i] {
            lv::check(e.max[i] == d.max[i] + res, "expand moves a maximum on a multiple out by one (exact, 2-D)");
            lv::cover("maximum on a multiple (2-D)");
        } else {
            lv::check(e.max[i] == d.max[i], "expand leaves any other maximum alone (exact, 2-D)");
            lv::cover("maximum off a multiple (2-D)");
        }
    }
}
#[no_mangle]
pub fn h_c05_real2() {
    let res = R[lv::case(4)];
    let axis = lv::case(2);
    let mut b = Bounds2::empty();
    for i in 0..2 {
        let (l, h) = if i == axis { re() } else { FIXED[i] };
        b.min[i] = l;
        b.max[i] = h;
    }
    let d = b.discretized(res, false);
    for i in 0..2 {
        lv::check(multiple(d.min[i], res) && multiple(d.max[i], res), "faces are multiples (2-D)");
        let l = b.min[i] as f64 - d.min[i] as f64;
        let h = d.max[i] as f64 - b.max[i] as f64;
        lv::check(l >= -T && h >= -T, "contains the original (2-D)");
        lv::check(l < res as f64 + T && h < res as f64 + T, "grows by less than a cell (2-D)");
    }
}
/// With expand the maximum moves past the original by at most a cell, and by at least nothing.
#[no_mangle]
pub fn h_c05_expand2() {
    let res = R[lv::case(4)];
    let axis = lv::case(2);
    let mut b = Bounds2::empty();
    for i in 0..2 {
        let (l, h) = if i == axis { re() } else { FIXED[i] };
        b.min[i] = l;
        b.max[i] = h;
    }
    let e = b.discretized(res, true);
    for i in 0..2 {
        lv::check(multiple(e.min[i], res) && multiple(e.max[i], res), "expanded faces are multiples (2-D)");
        let l = b.min[i] as f64 - e.min[i] as f64;
        let h = e.max[i] as f64 - b.max[i] as f64;
        lv::check(l >= -T && l < res as f64 + T, "expanded minimum (2-D)");
        lv::check(h > -T && h <= res as f64 + T, "expanded maximum (2-D)");
    }
}

#[no_mangle]
pub fn h_c05_exact3() {
    let res = REX[lv::case(5)];
    let mut b = Bounds3::empty();
    for i in 0..3 {
        let (l, h) = ex();
        b.min[i] = l;
        b.max[i] = h;
    }
    let d = b.discretized(res, false);
    let e = b.discretized(res, true);
    for i in 0..3 {
        let (l, h) = ((d.min[i] / res) as f64, (d.max[i] / res) as f64);
        lv::check(l.floor() == l && h.floor() == h, "faces are multiples (exact, 3-D)");
        lv::check(d.min[i] <= b.min[i] && b.max[i] <= d.max[i], "contains the original (exact, 3-D)");
        lv::check(b.min[i] - d.min[i] < res && d.max[i] - b.max[i] < res, "grows by less than a cell (exact, 3-D)");
        lv::check(e.min[i] == d.min[i], "expand leaves the minimum alone (exact, 3-D)");
        if d.max[i] == b.max[i] {
            lv::check(e.max[i] == d.max[i] + res, "expand moves a maximum on a multiple out by one (exact, 3-D)");
            lv::cover("maximum on a multiple (3-D)");
        } else {
            lv::check(e.max[i] == d.max[i], "expand leaves any other maximum alone (exact, 3-D)");
            lv::cover("maximum off a multiple (3-D)");
        }
    }
}
#[no_mangle]
pub fn h_c05_real3() {
    let res = R[lv::case(4)];
    let axis = lv::case(3);
    let mut b = Bounds3::empty();
    for i in 0..3 {
        let (l, h) = if i == axis { re() } else { FIXED[i] };
        b.min[i] = l;
        b.max[i] = h;
    }
    let d = b.discretized(res, false);
    for i in 0..3 {
        lv::check(multiple(d.min[i], res) && multiple(d.max[i], res), "faces are multiples (3-D)");
        let l = b.min[i] as f64 - d.min[i] as f64;
        let h = d.max[i] as f64 - b.max[i] as f64;
        lv::check(l >= -T && h >= -T, "contains the original (3-D)");
        lv::check(l < res as f64 + T && h < res as f64 + T, "grows by less than a cell (3-D)");
    }
}
/// With expand the maximum moves past the original by at most a cell, and by at least nothing.
#[no_mangle]
pub fn h_c05_expand3() {
    let res = R[lv::case(4)];
    let axis = lv::case(3);
    let mut b = Bounds3::empty();
    for i in 0..3 {
        let (l, h) = if i == axis { re() } else { FIXED[i] };
        b.min[i] = l;
        b.max[i] = h;
    }
    let e = b.discretized(res, true);
    for i in 0..3 {
        lv::check(multiple(e.min[i], res) && multiple(e.max[i], res), "expanded faces are multiples (3-D)");
        let l = b.min[i] as f64 - e.min[i] as f64;
        let h = e.max[i] as f64 - b.max[i] as f64;
        lv::check(l >= -T && l < res as f64 + T, "expanded minimum (3-D)");
        lv::check(h > -T && h <= res as f64 + T, "expanded maximum (3-D)");
    }
}

/// Faces that are the f32 product of an integer and the resolution stay put, and expand by exactly one cell.
//# rel
#[no_mangle]
pub fn h_c05_onmultiple2() {
    let res = R[lv::case(4)];
    let axis = lv::case(2);
    let mut b = Bounds2::empty();
    for i in 0..2 {
        let (l, h) = FIXED[i];
        b.min[i] = l;
        b.max[i] = h;
    }
    let (k, m) = (lv::int(-2000, 2000), lv::int(-2000, 2000));
    lv::assume(k < m);
    b.min[axis] = k as f32 * res;
    b.max[axis] = m as f32 * res;
    let d = b.discretized(res, false);
    let e = b.discretized(res, true);
    lv::check(d.min[axis] == b.min[axis] && e.min[axis] == b.min[axis], "a minimum on a multiple stays (2-D)");
    lv::check(d.max[axis] == b.max[axis], "a maximum on a multiple stays (2-D)");
    let step = e.max[axis] as f64 - b.max[axis] as f64 - res as f64;
    lv::check(step <= T && step >= -T, "expand moves a maximum on a multiple by one cell (2-D)");
}

/// Faces that are the f32 product of an integer and the resolution stay put, and expand by exactly one cell.
//# rel
#[no_mangle]
pub fn h_c05_onmultiple3() {
    let res = R[lv::case(4)];
    let axis = lv::case(3);
    let mut b = Bounds3::empty();
    for i in 0..3 {
        let (l, h) = FIXED[i];
        b.min[i] = l;
        b.max[i] = h;
    }
    let (k, m) = (lv::int(-2000, 2000), lv::int(-2000, 2000));
    lv::assume(k < m);
    b.min[axis] = k as f32 * res;
    b.max[axis] = m as f32 * res;
    let d = b.discretized(res, false);
    let e = b.discretized(res, true);
    lv::check(d.min[axis] == b.min[axis] && e.min[axis] == b.min[axis], "a minimum on a multiple stays (3-D)");
    lv::check(d.max[axis] == b.max[axis], "a maximum on a multiple stays (3-D)");
    let step = e.max[axis] as f64 - b.max[axis] as f64 - res as f64;
    lv::check(step <= T && step >= -T, "expand moves a maximum on a multiple by one cell (3-D)");
}
