//! C03: enclosing bounds. Every f32 except NaN, IEEE semantics.
//! opts: fp_timeout_ms=60000
use crate::lv;
use kuba::{Bounds2, Bounds3, Point2, Point3};

fn f() -> f32 {
    let x = lv::any_f32();
    lv::assume(x == x);
    x
}
fn pair() -> (f32, f32) {
    let (a, b) = (f(), f());
    lv::assume(a <= b);
    (a, b)
}
fn b2() -> Bounds2 {
    let (x, y) = (pair(), pair());
    Bounds2 { min: Point2::new(x.0, y.0), max: Point2::new(x.1, y.1) }
}
fn b3() -> Bounds3 {
    let (x, y, z) = (pair(), pair(), pair());
    Bounds3 { min: Point3::new(x.0, y.0, z.0), max: Point3::new(x.1, y.1, z.1) }
}


/// Left operand not empty: the least box around both.
#[no_mangle]
pub fn h_c03_box2() {
    let (a, b) = (b2(), b2());
    lv::assume(a != Bounds2::empty());
    let c = a.enclosing(&b);
    for i in 0..2 {
        lv::check(c.min[i] <= a.min[i] && c.max[i] >= a.max[i], "contains the left box (2-D)");
        lv::check(c.min[i] <= b.min[i] && c.max[i] >= b.max[i], "contains the right box (2-D)");
        lv::check(c.min[i] == a.min[i] || c.min[i] == b.min[i], "minimum is a minimum of one of them (2-D)");
        lv::check(c.max[i] == a.max[i] || c.max[i] == b.max[i], "maximum is a maximum of one of them (2-D)");
    }
    lv::cover("enclosed (2-D)");
}
#[no_mangle]
pub fn h_c03_empty2() {
    let b = b2();
    let c = Bounds2::empty().enclosing(&b);
    lv::check(c == b, "empty left operand is ignored (2-D)");
    let e = Bounds2::empty();
    for i in 0..2 {
        lv::check(e.min[i] == 0.0 && e.max[i] == 0.0, "empty bounds are degenerate at the origin (2-D)");
    }
}
/// A box with itself, or with a box inside it.
#[no_mangle]
pub fn h_c03_inside2() {
    let (a, b) = (b2(), b2());
    lv::assume(a != Bounds2::empty());
    for i in 0..2 {
        lv::assume(a.min[i] <= b.min[i] && b.max[i] <= a.max[i]);
    }
    lv::check(a.enclosing(&b) == a, "a box inside adds nothing (2-D)");
    lv::check(a.enclosing(&a) == a, "a box encloses itself (2-D)");
}

/// Left operand not empty: the least box around both.
#[no_mangle]
pub fn h_c03_box3() {
    let (a, b) = (b3(), b3());
    lv::assume(a != Bounds3::empty());
    let c = a.enclosing(&b);
    for i in 0..3 {
        lv::check(c.min[i] <= a.min[i] && c.max[i] >= a.max[i], "contains the left box (3-D)");
        lv::check(c.min[i] <= b.min[i] && c.max[i] >= b.max[i], "contains the right box (3-D)");
        lv::check(c.min[i] == a.min[i] || c.min[i] == b.min[i], "minimum is a minimum of one of them (3-D)");
        lv::check(c.max[i] == a.max[i] || c.max[i] == b.max[i], "maximum is a maximum of one of them (3-D)");
    }
    lv::cover("enclosed (3-D)");
}
#[no_mangle]
pub fn h_c03_empty3() {
    let b = b3();
    let c = Bounds3::empty().enclosing(&b);
    lv::check(c == b, "empty left operand is ignored (3-D)");
    let e = Bounds3::empty();
    for i in 0..3 {
        lv::check(e.min[i] == 0.0 && e.max[i] == 0.0, "empty bounds are degenerate at the origin (3-D)");
    }
}
/// A box with itself, or with a box inside it.
#[no_mangle]
pub fn h_c03_inside3() {
    let (a, b) = (b3(), b3());
    lv::assume(a != Bounds3::empty());
    for i in 0..3 {
        lv::assume(a.min[i] <= b.min[i] && b.max[i] <= a.max[i]);
    }
    lv::check(a.enclosing(&b) == a, "a box inside adds nothing (3-D)");
    lv::check(a.enclosing(&a) == a, "a box encloses itself (3-D)");
}
