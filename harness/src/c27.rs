//! C27: boxes keep the corners they are made of, refuse inverted ones, and compare corner by corner.
//! opts: fp_timeout_ms=60000
use crate::lv;
use approx::{AbsDiffEq, RelativeEq};
use kuba::{Bounds2, Bounds3, Cell2, Cell3, CellBounds2, CellBounds3, Point2, Point3};

fn same(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits()
}
fn p2() -> Point2 {
    Point2::new(lv::any_f32(), lv::any_f32())
}
fn p3() -> Point3 {
    Point3::new(lv::any_f32(), lv::any_f32(), lv::any_f32())
}
const WIDE: i64 = 1 << 62;
fn c2() -> Cell2 {
    Cell2::new(lv::int(-WIDE, WIDE), lv::int(-WIDE, WIDE))
}
fn c3() -> Cell3 {
    Cell3::new(lv::int(-WIDE, WIDE), lv::int(-WIDE, WIDE), lv::int(-WIDE, WIDE))
}

#[no_mangle]
pub fn h_c27_new2() {
    let (a, b) = (p2(), p2());
    for i in 0..2 {
        lv::assume(a[i] <= b[i]);
    }
    let c = Bounds2::new(a, b);
    for i in 0..2 {
        lv::check(same(c.min[i], a[i]) && same(c.max[i], b[i]), "new bounds have the given corners (2-D)");
    }
    let d = kuba::bounds2!([a[0], a[1]], [b[0], b[1]]);
    let e = kuba::point2!(a[0], b[1]);
    for i in 0..2 {
        lv::check(same(d.min[i], a[i]) && same(d.max[i], b[i]), "written-out bounds have the given corners (2-D)");
    }
    lv::check(same(e[0], a[0]) && same(e[1], b[1]), "a written-out point has the given coordinates (2-D)");
    lv::cover("bounds (2-D)");
}
#[no_mangle]
pub fn h_c27_new3() {
    let (a, b) = (p3(), p3());
    for i in 0..3 {
        lv::assume(a[i] <= b[i]);
    }
    let c = Bounds3::new(a, b);
    for i in 0..3 {
        lv::check(same(c.min[i], a[i]) && same(c.max[i], b[i]), "new bounds have the given corners (3-D)");
    }
    let d = kuba::bounds3!([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    let e = kuba::point3!(a[0], b[1], a[2]);
    for i in 0..3 {
        lv::check(same(d.min[i], a[i]) && same(d.max[i], b[i]), "written-out bounds have the given corners (3-D)");
    }
    lv::check(same(e[0], a[0]) && same(e[1], b[1]) && same(e[2], a[2]), "a written-out point has the given coordinates (3-D)");
    lv::cover("bounds (3-D)");
}
/// One axis is inverted or not a number, the others are anything.
#[no_mangle]
pub fn h_c27_inverted2() {
    let (a, b) = (p2(), p2());
    let i = lv::case(2);
    lv::assume(!(a[i] <= b[i]));
    lv::cover("inverted or NaN corners (2-D)");
    lv::expect_panic("inverted bounds are refused (2-D)");
    Bounds2::new(a, b);
}
#[no_mangle]
pub fn h_c27_inverted3() {
    let (a, b) = (p3(), p3());
    let i = lv::case(3);
    lv::assume(!(a[i] <= b[i]));
    lv::cover("inverted or NaN corners (3-D)");
    lv::expect_panic("inverted bounds are refused (3-D)");
    Bounds3::new(a, b);
}
#[no_mangle]
pub fn h_c27_cells2() {
    let (a, b) = (c2(), c2());
    for i in 0..2 {
        lv::assume(a[i] <= b[i]);
    }
    let c = CellBounds2::new(a, b);
    lv::check(c.min == a && c.max == b, "new cell bounds have the given corners (2-D)");
    let d = kuba::cell_bounds2!([a[0], a[1]], [b[0], b[1]]);
    lv::check(d == c && kuba::cell2!(a[0], a[1]) == a, "written-out cell bounds have the given corners (2-D)");
    let e = CellBounds2::empty();
    lv::check(e.min == Cell2::origin() && e.max == Cell2::origin(), "empty cell bounds are at the origin (2-D)");
    let o = CellBounds2 { min: c2(), max: c2() };
    let mut all = true;
    for i in 0..2 {
        all &= c.min[i] == o.min[i] && c.max[i] == o.max[i];
    }
    lv::check((c == o) == all, "cell bounds are equal exactly when all their corners are (2-D)");
}
#[no_mangle]
pub fn h_c27_cells3() {
    let (a, b) = (c3(), c3());
    for i in 0..3 {
        lv::assume(a[i] <= b[i]);
    }
    let c = CellBounds3::new(a, b);
    lv::check(c.min == a && c.max == b, "new cell bounds have the given corners (3-D)");
    let d = kuba::cell_bounds3!([a[0], a[1], a[2]], [b[0], b[1], b[2]]);
    lv::check(d == c && kuba::cell3!(a[0], a[1], a[2]) == a, "written-out cell bounds have the given corners (3-D)");
    let e = CellBounds3::empty();
    lv::check(e.min == Cell3::origin() && e.max == Cell3::origin(), "empty cell bounds are at the origin (3-D)");
    let o = CellBounds3 { min: c3(), max: c3() };
    let mut all = true;
    for i in 0..3 {
        all &= c.min[i] == o.min[i] && c.max[i] == o.max[i];
    }
    lv::check((c == o) == all, "cell bounds are equal exactly when all their corners are (3-D)");
}
#[no_mangle]
pub fn h_c27_cellsinverted2() {
    let (a, b) = (c2(), c2());
    let i = lv::case(2);
    lv::assume(a[i] > b[i]);
    lv::cover("inverted cells (2-D)");
    lv::expect_panic("inverted cell bounds are refused (2-D)");
    CellBounds2::new(a, b);
}
#[no_mangle]
pub fn h_c27_cellsinverted3() {
    let (a, b) = (c3(), c3());
    let i = lv::case(3);
    lv::assume(a[i] > b[i]);
    lv::cover("inverted cells (3-D)");
    lv::expect_panic("inverted cell bounds are refused (3-D)");
    CellBounds3::new(a, b);
}

/// Equality, exact and approximate, of any two boxes.
#[no_mangle]
pub fn h_c27_equal2() {
    let a = Bounds2 { min: p2(), max: p2() };
    let b = Bounds2 { min: p2(), max: p2() };
    let mut all = true;
    for i in 0..2 {
        all &= a.min[i] == b.min[i];
        all &= a.max[i] == b.max[i];
    }
    lv::check((a == b) == all, "bounds are equal exactly when all their corners are (2-D)");
}
#[no_mangle]
pub fn h_c27_equal3() {
    let a = Bounds3 { min: p3(), max: p3() };
    let b = Bounds3 { min: p3(), max: p3() };
    let mut all = true;
    for i in 0..3 {
        all &= a.min[i] == b.min[i];
        all &= a.max[i] == b.max[i];
    }
    lv::check((a == b) == all, "bounds are equal exactly when all their corners are (3-D)");
}
/// Approximate equality: two boxes that differ in one coordinate, anywhere.
#[no_mangle]
pub fn h_c27_approx2() {
    let k = lv::case(4);
    let mut a = Bounds2::new(Point2::new(-1.5, 2.0), Point2::new(0.75, 1000.0));
    let mut b = a.clone();
    let (x, y) = (lv::any_f32(), lv::any_f32());
    let eps = [0.5, f32::EPSILON][lv::case(2)];
    if k < 2 {
        a.min[k] = x;
        b.min[k] = y;
    } else {
        a.max[k - 2] = x;
        b.max[k - 2] = y;
    }
    lv::check(a.abs_diff_eq(&b, eps) == x.abs_diff_eq(&y, eps), "bounds are near exactly when all their corners are (2-D)");
    let r = [1.0e-3, f32::EPSILON][lv::case(2)];
    lv::check(a.relative_eq(&b, eps, r) == x.relative_eq(&y, eps, r), "bounds are relatively near exactly when all their corners are (2-D)");
    lv::check(Bounds2::default_epsilon() == f32::EPSILON && Bounds2::default_max_relative() == f32::EPSILON, "default tolerances (2-D)");
}
#[no_mangle]
pub fn h_c27_approx3() {
    let k = lv::case(6);
    let mut a = Bounds3::new(Point3::new(-1.5, 2.0, 0.0), Point3::new(0.75, 1000.0, 0.25));
    let mut b = a.clone();
    let (x, y) = (lv::any_f32(), lv::any_f32());
    let eps = [0.5, f32::EPSILON][lv::case(2)];
    if k < 3 {
        a.min[k] = x;
        b.min[k] = y;
    } else {
        a.max[k - 3] = x;
        b.max[k - 3] = y;
    }
    lv::check(a.abs_diff_eq(&b, eps) == x.abs_diff_eq(&y, eps), "bounds are near exactly when all their corners are (3-D)");
    let r = [1.0e-3, f32::EPSILON][lv::case(2)];
    lv::check(a.relative_eq(&b, eps, r) == x.relative_eq(&y, eps, r), "bounds are relatively near exactly when all their corners are (3-D)");
    lv::check(Bounds3::default_epsilon() == f32::EPSILON && Bounds3::default_max_relative() == f32::EPSILON, "default tolerances (3-D)");
}
