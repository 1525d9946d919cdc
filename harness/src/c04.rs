//! C04: overlap of two bounds.
use crate::lv;
use kuba::{Bounds2, Bounds3, Point2, Point3};

/// Boxes over the reals (every f32 in +-1000, rounding tracked), or exact dyadics.
fn pair(mode: usize) -> (f32, f32) {
    let (a, b) = if mode == 0 {
        (lv::real(-1000.0, 1000.0), lv::real(-1000.0, 1000.0))
    } else {
        (lv::fix(-64000, 64000, 6), lv::fix(-64000, 64000, 6))
    };
    lv::assume(a <= b);
    (a, b)
}
fn b2(m: usize) -> Bounds2 {
    let (x, y) = (pair(m), pair(m));
    Bounds2 { min: Point2::new(x.0, y.0), max: Point2::new(x.1, y.1) }
}
fn b3(m: usize) -> Bounds3 {
    let (x, y, z) = (pair(m), pair(m), pair(m));
    Bounds3 { min: Point3::new(x.0, y.0, z.0), max: Point3::new(x.1, y.1, z.1) }
}
fn lo(a: f32, b: f32) -> f32 {
    if a > b { a } else { b }
}
fn hi(a: f32, b: f32) -> f32 {
    if a < b { a } else { b }
}

#[no_mangle]
pub fn h_c04_overlap2() {
    let mode = lv::case(2);
    let (a, b) = (b2(mode), b2(mode));
    let c = a.overlapping(&b);
    let d = b.overlapping(&a);
    let mut clear = true; // every axis clearly overlaps or clearly does not
    let mut all = true;
    for i in 0..2 {
        let l = lo(a.min[i], b.min[i]) as f64;
        let h = hi(a.max[i], b.max[i]) as f64;
        // rounding error at this magnitude; exact inputs overlap by 1/64 or not at all
        let eps = if mode == 0 { 1e-3 } else { 0.001 };
        if h <= l {
            all = false;
        } else if h - l < eps {
            clear = false;
        }
    }
    if !all {
        lv::check(c == Bounds2::empty(), "disjoint or touching boxes have no overlap (2-D)");
        lv::check(d == Bounds2::empty(), "disjoint or touching boxes have no overlap, operands exchanged (2-D)");
        lv::cover("disjoint (2-D)");
    } else if clear {
        for i in 0..2 {
            lv::check(c.min[i] == lo(a.min[i], b.min[i]), "overlap starts at the larger minimum (2-D)");
            lv::check(c.max[i] == hi(a.max[i], b.max[i]), "overlap ends at the smaller maximum (2-D)");
        }
        lv::check(c == d, "overlap does not depend on the order of the operands (2-D)");
        lv::cover("overlapping (2-D)");
    } else {
        // within rounding error of touching: the intersection or empty
        for i in 0..2 {
            lv::check(
                c == Bounds2::empty() || (c.min[i] == lo(a.min[i], b.min[i]) && c.max[i] == hi(a.max[i], b.max[i])),
                "a sliver gives the intersection or nothing (2-D)",
            );
        }
    }
}

/// Two boxes on one axis: the overlapping, touching and disjoint arrangements, for the axes that are not symbolic.
const ARR: [[f32; 4]; 5] = [
    [-1.0, 3.5, 2.25, 7.0],
    [-4.0, 4.0, -1.5, 0.5],
    [0.0, 1.0, 1.0, 2.0],
    [-5.5, -3.0, 1.0, 9.0],
    [2.0, 8.0, -6.0, -2.0],
];
#[no_mangle]
pub fn h_c04_overlap3() {
    let mode = lv::case(2);
    let other = lv::case(3);
    let r = ARR[lv::case(5)];
    let (mut a, mut b) = (Bounds3::empty(), Bounds3::empty());
    for i in 0..3 {
        let (x, y) = if i == other { ((r[0], r[1]), (r[2], r[3])) } else { (pair(mode), pair(mode)) };
        a.min[i] = x.0;
        a.max[i] = x.1;
        b.min[i] = y.0;
        b.max[i] = y.1;
    }
    let c = a.overlapping(&b);
    let d = b.overlapping(&a);
    let mut clear = true; // every axis clearly overlaps or clearly does not
    let mut all = true;
    for i in 0..3 {
        let l = lo(a.min[i], b.min[i]) as f64;
        let h = hi(a.max[i], b.max[i]) as f64;
        // rounding error at this magnitude; exact inputs overlap by 1/64 or not at all
        let eps = if mode == 0 { 1e-3 } else { 0.001 };
        if h <= l {
            all = false;
        } else if h - l < eps {
            clear = false;
        }
    }
    if !all {
        lv::check(c == Bounds3::empty(), "disjoint or touching boxes have no overlap (3-D)");
        lv::check(d == Bounds3::empty(), "disjoint or touching boxes have no overlap, operands exchanged (3-D)");
        lv::cover("disjoint (3-D)");
    } else if clear {
        for i in 0..3 {
            lv::check(c.min[i] == lo(a.min[i], b.min[i]), "overlap starts at the larger minimum (3-D)");
            lv::check(c.max[i] == hi(a.max[i], b.max[i]), "overlap ends at the smaller maximum (3-D)");
        }
        lv::check(c == d, "overlap does not depend on the order of the operands (3-D)");
        lv::cover("overlapping (3-D)");
    } else {
        // within rounding error of touching: the intersection or empty
        for i in 0..3 {
            lv::check(
                c == Bounds3::empty() || (c.min[i] == lo(a.min[i], b.min[i]) && c.max[i] == hi(a.max[i], b.max[i])),
                "a sliver gives the intersection or nothing (3-D)",
            );
        }
    }
}

/// All three axes symbolic at once, on exact coordinates.
#[no_mangle]
pub fn t_c04_overlap3_full() {
    let mode = 1;
    let (a, b) = (b3(mode), b3(mode));
    let c = a.overlapping(&b);
    let d = b.overlapping(&a);
    let mut clear = true; // every axis clearly overlaps or clearly does not
    let mut all = true;
    for i in 0..3 {
        let l = lo(a.min[i], b.min[i]) as f64;
        let h = hi(a.max[i], b.max[i]) as f64;
        // rounding error at this magnitude; exact inputs overlap by 1/64 or not at all
        let eps = if mode == 0 { 1e-3 } else { 0.001 };
        if h <= l {
            all = false;
        } else if h - l < eps {
            clear = false;
        }
    }
    if !all {
        lv::check(c == Bounds3::empty(), "disjoint or touching boxes have no overlap (3-D, all axes symbolic)");
        lv::check(d == Bounds3::empty(), "disjoint or touching boxes have no overlap, operands exchanged (3-D, all axes symbolic)");
        lv::cover("disjoint (3-D, all axes symbolic)");
    } else if clear {
        for i in 0..3 {
            lv::check(c.min[i] == lo(a.min[i], b.min[i]), "overlap starts at the larger minimum (3-D, all axes symbolic)");
            lv::check(c.max[i] == hi(a.max[i], b.max[i]), "overlap ends at the smaller maximum (3-D, all axes symbolic)");
        }
        lv::check(c == d, "overlap does not depend on the order of the operands (3-D, all axes symbolic)");
        lv::cover("overlapping (3-D, all axes symbolic)");
    } else {
        // within rounding error of touching: the intersection or empty
        for i in 0..3 {
            lv::check(
                c == Bounds3::empty() || (c.min[i] == lo(a.min[i], b.min[i]) && c.max[i] == hi(a.max[i], b.max[i])),
                "a sliver gives the intersection or nothing (3-D, all axes symbolic)",
            );
        }
    }
}
