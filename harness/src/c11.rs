//! C11: casting a ray ends and walks face-adjacent cells from start to end.
use crate::lv;
use kuba::geom::converter::cell_from_point;
use kuba::ray_caster::cast_ray;
use kuba::{Bounds2, Bounds3, Point2, Point3};

/// (resolution, bounds minimum, where the origin is, shift of the origin's grid)
const CFG: [(f32, f32, f32, u32); 4] =
    [(1.0, 0.0, 0.0, 5), (0.5, -1.25, 3.0, 6), (0.1, 0.0, 0.25, 9), (0.3, -0.35, -7.0, 7)];
const E: f32 = 1.0 / 1048576.0;

const V2: [[f32; 2]; 50] = [
    [-2.5, -2.0],
    [-2.5, -1.0],
    [-2.5, -0.25],
    [-2.5, 0.0],
    [-2.5, 0.5],
    [-2.5, 2.5],
    [-0.5, -2.0],
    [-0.5, -1.0],
    [-0.5, -0.25],
    [-0.5, 0.0],
    [-0.5, 0.5],
    [-0.5, 2.5],
    [0.0, -2.0],
    [0.0, -1.0],
    [0.0, -0.25],
    [0.0, 0.0],
    [0.0, 0.5],
    [0.0, 2.5],
    [0.25, -2.0],
    [0.25, -1.0],
    [0.25, -0.25],
    [0.25, 0.0],
    [0.25, 0.5],
    [0.25, 2.5],
    [1.0, -2.0],
    [1.0, -1.0],
    [1.0, -0.25],
    [1.0, 0.0],
    [1.0, 0.5],
    [1.0, 2.5],
    [2.0, -2.0],
    [2.0, -1.0],
    [2.0, -0.25],
    [2.0, 0.0],
    [2.0, 0.5],
    [2.0, 2.5],
    [3.0, 3.0],
    [-3.0, 3.0],
    [3.0 - 8.0 * E, 3.0],
    [E, 2.0],
    [0.0, E],
    [2.0, -E],
    [-E, -E],
    [E, -64.0 * E],
    [4.0, 0.015625],
    [-3.5, -3.515625],
    [5.0, 2.0],
    [0.5, -4.5],
    [0.0078125, -0.0078125],
    [-1.0, -1.0 - E],
];
/// What a ray must look like, whatever it touches.
fn walk2(o: &Point2, e: &Point2, b: &Bounds2, res: f32) {
    let (ray, end) = cast_ray(o, e, b, res, 0.0);
    let oc = cell_from_point(o, &b.min, res);
    let ec = cell_from_point(e, &b.min, res);
    lv::check(end == Some(ec), "the end cell is reported (2-D)");
    if oc == ec {
        lv::check(ray.is_empty(), "no cells when origin and end share one (2-D)");
        lv::cover("origin and end in one cell (2-D)");
        return;
    }
    let mut dist = 0;
    for i in 0..2 {
        dist += (ec[i] - oc[i]).abs();
    }
    lv::check(ray.len() as isize == dist, "the walk has the smallest possible number of steps (2-D)");
    lv::check(ray[0] == oc, "the walk starts in the origin's cell (2-D)");
    let mut at = oc;
    for k in 1..ray.len() + 1 {
        let next = if k < ray.len() { ray[k] } else { ec };
        let mut moved = 0;
        for i in 0..2 {
            let d = next[i] - at[i];
            if d != 0 {
                moved += 1;
                lv::check(d == if ec[i] > oc[i] { 1 } else { -1 }, "each step is one cell towards the end (2-D)");
                lv::check(at[i] != ec[i], "no step goes past the end (2-D)");
            }
        }
        lv::check(moved == 1, "each step is along one axis (2-D)");
        lv::check(k == ray.len() || next != ec, "the end cell is not one of the ray's cells (2-D)");
        at = next;
    }
    lv::cover("a walk (2-D)");
}
/// Every origin on a grid of 64 steps over two or more cells per axis, for each ray vector.
//# conc_ftoi
#[no_mangle]
pub fn h_c11_walk2() {
    let (res, off, base, shift) = CFG[lv::case(4)];
    let v = V2[lv::case(50)];
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    let w = lv::tier(32, 48);
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + lv::fix(-w, w, shift);
        e[i] = o[i] + v[i] * if res < 0.2 { 0.25 } else { 1.0 };
    }
    walk2(&o, &e, &b, res);
}

const V3: [[f32; 3]; 26] = [
    [1.5, 1.5, 1.5],
    [-1.0, 2.0, -1.0],
    [1.0, 0.0, 0.0],
    [0.0, -2.0, 0.0],
    [0.0, 0.0, 2.5],
    [0.0, 0.0, -2.0],
    [-2.0, 0.0, 0.0],
    [1.0, 2.0, 0.0],
    [0.0, -1.0, 2.0],
    [-2.0, 0.0, 1.0],
    [2.0, E, 0.0],
    [-E, 0.0, 2.0],
    [0.0, 2.0, E],
    [E, E, E],
    [2.5, 1.0, 0.5],
    [-0.5, 2.5, 1.0],
    [1.0, -0.5, -2.5],
    [-1.0, -1.5, -2.0],
    [1.5, 1.5, 1.5 - 8.0 * E],
    [1.5 - 8.0 * E, 1.5, 1.5],
    [-1.5, -1.5 + 8.0 * E, -1.5],
    [0.25, -0.25, 0.25],
    [0.0, 0.0, 0.0],
    [3.0, 0.015625, -0.015625],
    [0.5, 3.0, -0.5],
    [1.5, -1.5, 0.0],
];
/// What a ray must look like, whatever it touches.
fn walk3(o: &Point3, e: &Point3, b: &Bounds3, res: f32) {
    let (ray, end) = cast_ray(o, e, b, res, 0.0);
    let oc = cell_from_point(o, &b.min, res);
    let ec = cell_from_point(e, &b.min, res);
    lv::check(end == Some(ec), "the end cell is reported (3-D)");
    if oc == ec {
        lv::check(ray.is_empty(), "no cells when origin and end share one (3-D)");
        lv::cover("origin and end in one cell (3-D)");
        return;
    }
    let mut dist = 0;
    for i in 0..3 {
        dist += (ec[i] - oc[i]).abs();
    }
    lv::check(ray.len() as isize == dist, "the walk has the smallest possible number of steps (3-D)");
    lv::check(ray[0] == oc, "the walk starts in the origin's cell (3-D)");
    let mut at = oc;
    for k in 1..ray.len() + 1 {
        let next = if k < ray.len() { ray[k] } else { ec };
        let mut moved = 0;
        for i in 0..3 {
            let d = next[i] - at[i];
            if d != 0 {
                moved += 1;
                lv::check(d == if ec[i] > oc[i] { 1 } else { -1 }, "each step is one cell towards the end (3-D)");
                lv::check(at[i] != ec[i], "no step goes past the end (3-D)");
            }
        }
        lv::check(moved == 1, "each step is along one axis (3-D)");
        lv::check(k == ray.len() || next != ec, "the end cell is not one of the ray's cells (3-D)");
        at = next;
    }
    lv::cover("a walk (3-D)");
}
/// Every origin on a grid of 64 steps over two or more cells per axis, for each ray vector.
//# conc_ftoi
#[no_mangle]
pub fn h_c11_walk3() {
    let (res, off, base, shift) = CFG[lv::case(lv::tier(2, 4)) * lv::tier(2, 1)];
    let v = V3[lv::case(26)];
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    let w = lv::tier(12, 20);
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + lv::fix(-w, w, shift);
        e[i] = o[i] + v[i] * if res < 0.2 { 0.25 } else { 1.0 };
    }
    walk3(&o, &e, &b, res);
}

/// Any origin and end point over some cells: the products, quotients and roots are any floats, consistently.
//# havoc soft
#[no_mangle]
pub fn h_c11_any2() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let span = [4.0, 6.0][lv::tier(0, 1)] * res as f64;
    let part = lv::case(6) as f64 / 6.0;
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 1.0 / 6.0)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    walk2(&o, &e, &b, res);
}

/// Any origin and end point over some cells: the products, quotients and roots are any floats, consistently.
//# havoc soft
#[no_mangle]
pub fn h_c11_any3() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let span = [2.25, 3.0][lv::tier(0, 1)] * res as f64;
    let part = lv::case(6) as f64 / 6.0;
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 1.0 / 6.0)) } else { lv::real(0.0, span) };
        e[i] = lv::real(0.0, span);
    }
    walk3(&o, &e, &b, res);
}

/// Long rays: hundreds and thousands of cells along one axis, a few along the others.
//# conc_ftoi max_steps=20000000
#[no_mangle]
pub fn h_c11_far2() {
    let n = [300.5, 1500.0, 70000.0][lv::case(lv::tier(2, 3))];
    let axis = lv::case(2);
    let sign = [1.0, -1.0][lv::case(2)];
    let v = [0.0, 0.75, -1.5][lv::case(3)];
    let (mut o, mut e) = (Point2::origin(), Point2::origin());
    let b = Bounds2::new(Point2::new(-3.25, 1.5), Point2::new(5.0, 5.0));
    for i in 0..2 {
        o[i] = if i == axis { 0.25 } else { lv::fix(-4, 4, 3) };
        e[i] = o[i] + if i == axis { sign * n } else { v };
    }
    walk2(&o, &e, &b, 1.0);
}
//# conc_ftoi max_steps=20000000
#[no_mangle]
pub fn h_c11_far3() {
    let n = [1100.5, 300.5, 70000.0][lv::case(lv::tier(1, 3))];
    let axis = lv::case(3);
    let v = [0.0, 0.75, -1.5][lv::case(3)];
    let (mut o, mut e) = (Point3::origin(), Point3::origin());
    let b = Bounds3::new(Point3::new(-3.25, 1.5, 0.0), Point3::new(5.0, 5.0, 5.0));
    for i in 0..3 {
        o[i] = if i == axis { 0.25 } else if lv::tier(0, 1) == 1 || i == (axis + 1) % 3 { lv::fix(-2, 2, 2) } else { 0.5 };
        e[i] = o[i] + if i == axis { -n } else { v * (i + 1) as f32 };
    }
    walk3(&o, &e, &b, 1.0);
}

/// One very long ray.
//# conc_ftoi max_steps=50000000
#[no_mangle]
pub fn h_c11_far_long() {
    let b = Bounds2::new(Point2::new(-3.25, 1.5), Point2::new(5.0, 5.0));
    let o = Point2::new(0.25, lv::fix(-4, 4, 3));
    let e = Point2::new(0.25 + lv::tier(70000, 500000) as f32, o[1]);
    walk2(&o, &e, &b, 1.0);
}
