//! C07: cell bounds to world bounds and back.
use crate::lv;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, CellBounds2, CellBounds3, Point2, Point3};

const N: i64 = 1_000_000;
fn k2() -> Cell2 {
    Cell2::new(lv::int(-N, N), lv::int(-N, N))
}
fn k3() -> Cell3 {
    Cell3::new(lv::int(-N, N), lv::int(-N, N), lv::int(-N, N))
}
fn p2(x: [f32; 3]) -> Point2 {
    Point2::new(x[0], x[1])
}
fn p3(x: [f32; 3]) -> Point3 {
    Point3::new(x[0], x[1], x[2])
}

#[no_mangle]
pub fn h_c07_roundtrip2() {
    let res = lv::RES[lv::case(6)];
    let cb = CellBounds2 { min: k2(), max: k2() };
    let b = Bounds2::from_cell_bounds(&cb, res);
    let d = CellBounds2::from_bounds(&b, res);
    for i in 0..2 {
        lv::check(d.min[i] == cb.min[i], "minimum comes back (2-D)");
        lv::check(d.max[i] == cb.max[i], "maximum comes back (2-D)");
        let tol = 1e-6 * N as f64 * res as f64;
        let e = b.min[i] as f64 - cb.min[i] as f64 * res as f64;
        lv::check(e <= tol && e >= -tol, "world minimum is the cell times the resolution (2-D)");
        let e = b.max[i] as f64 - cb.max[i] as f64 * res as f64;
        lv::check(e <= tol && e >= -tol, "world maximum is the cell times the resolution (2-D)");
    }
}
/// World bounds on multiples, given with up to one rounding error.
#[no_mangle]
pub fn h_c07_multiples2() {
    let res = lv::RES[lv::case(6)];
    let (a, b) = (k2(), k2());
    let mut x = [0.0f32; 3];
    let mut y = [0.0f32; 3];
    for i in 0..2 {
        x[i] = a[i] as f32 * res;
        y[i] = b[i] as f32 * res;
    }
    let w = Bounds2 { min: p2(x), max: p2(y) };
    let d = CellBounds2::from_bounds(&w, res);
    lv::check(d.min == a, "minimum on multiples converts to the multiples (2-D)");
    lv::check(d.max == b, "maximum on multiples converts to the multiples (2-D)");
}
#[no_mangle]
pub fn h_c07_empty2() {
    let res = lv::RES[lv::case(6)];
    let d = CellBounds2::from_bounds(&Bounds2::empty(), res);
    lv::check(d == CellBounds2::empty(), "empty bounds convert to empty cell bounds (2-D)");
    lv::check(Bounds2::from_cell_bounds(&CellBounds2::empty(), res) == Bounds2::empty(), "and back (2-D)");
    for i in 0..2 {
        lv::check(d.min[i] == 0 && d.max[i] == 0, "empty cell bounds are degenerate at the origin (2-D)");
    }
}

#[no_mangle]
pub fn h_c07_roundtrip3() {
    let res = lv::RES[lv::case(6)];
    let cb = CellBounds3 { min: k3(), max: k3() };
    let b = Bounds3::from_cell_bounds(&cb, res);
    let d = CellBounds3::from_bounds(&b, res);
    for i in 0..3 {
        lv::check(d.min[i] == cb.min[i], "minimum comes back (3-D)");
        lv::check(d.max[i] == cb.max[i], "maximum comes back (3-D)");
        let tol = 1e-6 * N as f64 * res as f64;
        let e = b.min[i] as f64 - cb.min[i] as f64 * res as f64;
        lv::check(e <= tol && e >= -tol, "world minimum is the cell times the resolution (3-D)");
        let e = b.max[i] as f64 - cb.max[i] as f64 * res as f64;
        lv::check(e <= tol && e >= -tol, "world maximum is the cell times the resolution (3-D)");
    }
}
/// World bounds on multiples, given with up to one rounding error.
#[no_mangle]
pub fn h_c07_multiples3() {
    let res = lv::RES[lv::case(6)];
    let (a, b) = (k3(), k3());
    let mut x = [0.0f32; 3];
    let mut y = [0.0f32; 3];
    for i in 0..3 {
        x[i] = a[i] as f32 * res;
        y[i] = b[i] as f32 * res;
    }
    let w = Bounds3 { min: p3(x), max: p3(y) };
    let d = CellBounds3::from_bounds(&w, res);
    lv::check(d.min == a, "minimum on multiples converts to the multiples (3-D)");
    lv::check(d.max == b, "maximum on multiples converts to the multiples (3-D)");
}
#[no_mangle]
pub fn h_c07_empty3() {
    let res = lv::RES[lv::case(6)];
    let d = CellBounds3::from_bounds(&Bounds3::empty(), res);
    lv::check(d == CellBounds3::empty(), "empty bounds convert to empty cell bounds (3-D)");
    lv::check(Bounds3::from_cell_bounds(&CellBounds3::empty(), res) == Bounds3::empty(), "and back (3-D)");
    for i in 0..3 {
        lv::check(d.min[i] == 0 && d.max[i] == 0, "empty cell bounds are degenerate at the origin (3-D)");
    }
}
/// Cells far beyond 32 bits (exact in f32).
#[no_mangle]
pub fn h_c07_huge() {
    let res = [0.0625f32, 1.0, 4.0][lv::case(3)];
    let scale = [256isize, 65536, 1 << 24][lv::case(3)];
    let mut k = [0isize; 6];
    for x in k.iter_mut() {
        *x = lv::int(-(1 << 20), 1 << 20) * scale;
    }
    let cb = CellBounds3 { min: Cell3::new(k[0], k[1], k[2]), max: Cell3::new(k[3], k[4], k[5]) };
    let b = Bounds3::from_cell_bounds(&cb, res);
    for i in 0..3 {
        lv::check(b.min[i] as f64 == k[i] as f64 * res as f64, "world minimum of huge cells");
        lv::check(b.max[i] as f64 == k[i + 3] as f64 * res as f64, "world maximum of huge cells");
    }
    lv::check(CellBounds3::from_bounds(&b, res) == cb, "huge cell bounds come back (3-D)");
    let cb = CellBounds2 { min: Cell2::new(k[0], k[1]), max: Cell2::new(k[3], k[4]) };
    let b = Bounds2::from_cell_bounds(&cb, res);
    lv::check(CellBounds2::from_bounds(&b, res) == cb, "huge cell bounds come back (2-D)");
}

/// Corners anywhere: each is converted on its own, to the cell it lies in.
#[no_mangle]
pub fn h_c07_anywhere2() {
    let res = lv::RES[lv::case(6)];
    let axis = lv::case(2);
    let w = 1000.0 * res as f64;
    let (a, b, z) = (lv::real(-w, w), lv::real(-w, w), lv::real(-w, w));
    lv::assume((a <= b) & (z <= b) & (b != 0.0));
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        lo[i] = -0.3 * res * (i + 1) as f32;
        hi[i] = 2.4 * res;
    }
    lo[axis] = a;
    hi[axis] = b;
    let d = CellBounds2::from_bounds(&Bounds2 { min: lo, max: hi }, res);
    let half = 0.500001 * res as f64 + 2e-6 * w;
    let e = d.min[axis] as f64 * res as f64 - a as f64;
    lv::check((e <= half) & (e >= -half), "the minimum is in its cell (2-D)");
    let e = d.max[axis] as f64 * res as f64 - b as f64;
    lv::check((e <= half) & (e >= -half), "the maximum is in its cell (2-D)");
    lo[axis] = z;
    let f = CellBounds2::from_bounds(&Bounds2 { min: lo, max: hi }, res);
    lv::check(f.max == d.max, "the maximum does not depend on the minimum (2-D)");
    for i in 0..2 {
        if i != axis {
            lv::check(d.min[i] == [0, -1, -1][i] && d.max[i] == 2, "the other axes do not depend on it (2-D)");
            lv::check(f.min[i] == d.min[i] && f.max[i] == d.max[i], "nor on its minimum (2-D)");
        }
    }
    lo[axis] = a;
    hi[axis] = if z <= a { b } else { lv::real(-w, w) };
    lv::assume(lo[axis] <= hi[axis]);
    let f = CellBounds2::from_bounds(&Bounds2 { min: lo, max: hi }, res);
    lv::check(f.min == d.min, "the minimum does not depend on the maximum (2-D)");
}

/// Corners anywhere: each is converted on its own, to the cell it lies in.
#[no_mangle]
pub fn h_c07_anywhere3() {
    let res = lv::RES[lv::case(6)];
    let axis = lv::case(3);
    let w = 1000.0 * res as f64;
    let (a, b, z) = (lv::real(-w, w), lv::real(-w, w), lv::real(-w, w));
    lv::assume((a <= b) & (z <= b) & (b != 0.0));
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        lo[i] = -0.3 * res * (i + 1) as f32;
        hi[i] = 2.4 * res;
    }
    lo[axis] = a;
    hi[axis] = b;
    let d = CellBounds3::from_bounds(&Bounds3 { min: lo, max: hi }, res);
    let half = 0.500001 * res as f64 + 2e-6 * w;
    let e = d.min[axis] as f64 * res as f64 - a as f64;
    lv::check((e <= half) & (e >= -half), "the minimum is in its cell (3-D)");
    let e = d.max[axis] as f64 * res as f64 - b as f64;
    lv::check((e <= half) & (e >= -half), "the maximum is in its cell (3-D)");
    lo[axis] = z;
    let f = CellBounds3::from_bounds(&Bounds3 { min: lo, max: hi }, res);
    lv::check(f.max == d.max, "the maximum does not depend on the minimum (3-D)");
    for i in 0..3 {
        if i != axis {
            lv::check(d.min[i] == [0, -1, -1][i] && d.max[i] == 2, "the other axes do not depend on it (3-D)");
            lv::check(f.min[i] == d.min[i] && f.max[i] == d.max[i], "nor on its minimum (3-D)");
        }
    }
    lo[axis] = a;
    hi[axis] = if z <= a { b } else { lv::real(-w, w) };
    lv::assume(lo[axis] <= hi[axis]);
    let f = CellBounds3::from_bounds(&Bounds3 { min: lo, max: hi }, res);
    lv::check(f.min == d.min, "the minimum does not depend on the maximum (3-D)");
}
