//! C02: per-axis-resolution conversions against the uniform ones.
use crate::lv;
use kuba::geom::converter as cv;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, CellBounds2, CellBounds3, Point2, Point3};

const R2: [[f32; 2]; 5] = [[0.1, 0.3], [0.25, 2.0], [1.0, 0.05], [0.5, 0.5], [0.1, 0.1]];
const R3: [[f32; 3]; 8] = [
    [0.1, 0.3, 0.7],
    [0.25, 2.0, 0.125],
    [1.0, 0.05, 0.2],
    [0.5, 0.5, 0.5],
    [0.1, 0.1, 0.3],
    [0.5, 0.1, 0.5],
    [2.0, 0.2, 0.2],
    [0.1, 0.1, 0.1],
];
const OFF: f64 = 1000.0;
const N: i64 = 1_000_000;

fn p2() -> Point2 {
    Point2::new(lv::real(-OFF, OFF), lv::real(-OFF, OFF))
}
fn p3() -> Point3 {
    Point3::new(lv::real(-OFF, OFF), lv::real(-OFF, OFF), lv::real(-OFF, OFF))
}
fn k2() -> Cell2 {
    Cell2::new(lv::int(-N, N), lv::int(-N, N))
}
fn k3() -> Cell3 {
    Cell3::new(lv::int(-N, N), lv::int(-N, N), lv::int(-N, N))
}
/// Any resolution.
fn any() -> f32 {
    lv::real(0.001, 100.0)
}
fn r2() -> Point2 {
    let k = lv::case(6);
    if k == 5 {
        return Point2::new(any(), any());
    }
    let r = R2[k];
    Point2::new(r[0], r[1])
}
fn r3() -> Point3 {
    let k = lv::case(9);
    if k == 8 {
        return Point3::new(any(), any(), any());
    }
    let r = R3[k];
    Point3::new(r[0], r[1], r[2])
}

#[no_mangle]
pub fn h_c02_cell2() {
    let (r, p, off) = (r2(), p2(), p2());
    let c = cv::cell_from_point_n(&p, &off, &r);
    for i in 0..2 {
        lv::check(c[i] == cv::cell_coord_from_point_coord(p[i], off[i], r[i]), "cell_from_point_n axis (2-D)");
        lv::check(c[i] == cv::cell_from_point(&p, &off, r[i])[i], "cell_from_point_n against cell_from_point (2-D)");
    }
}
#[no_mangle]
pub fn h_c02_cell3() {
    let (r, p, off) = (r3(), p3(), p3());
    let c = cv::cell_from_point_n(&p, &off, &r);
    for i in 0..3 {
        lv::check(c[i] == cv::cell_coord_from_point_coord(p[i], off[i], r[i]), "cell_from_point_n axis (3-D)");
        lv::check(c[i] == cv::cell_from_point(&p, &off, r[i])[i], "cell_from_point_n against cell_from_point (3-D)");
    }
}
#[no_mangle]
pub fn h_c02_point2() {
    let (r, c, off) = (r2(), k2(), p2());
    let p = cv::point_from_cell_n(&c, &off, &r);
    for i in 0..2 {
        lv::check(p[i] == cv::point_coord_from_cell_coord(c[i], off[i], r[i]), "point_from_cell_n axis (2-D)");
        lv::check(p[i] == cv::point_from_cell(&c, &off, r[i])[i], "point_from_cell_n against point_from_cell (2-D)");
    }
}
#[no_mangle]
pub fn h_c02_point3() {
    let (r, c, off) = (r3(), k3(), p3());
    let p = cv::point_from_cell_n(&c, &off, &r);
    for i in 0..3 {
        lv::check(p[i] == cv::point_coord_from_cell_coord(c[i], off[i], r[i]), "point_from_cell_n axis (3-D)");
        lv::check(p[i] == cv::point_from_cell(&c, &off, r[i])[i], "point_from_cell_n against point_from_cell (3-D)");
    }
}
#[no_mangle]
pub fn h_c02_bounds2() {
    let r = r2();
    let (a, b) = (k2(), k2());
    let cb = CellBounds2 { min: a, max: b };
    let n = Bounds2::from_cell_bounds_n(&cb, &r);
    for i in 0..2 {
        lv::check(n.min[i] == cv::point_coord_from_cell_coord(a[i], 0.0, r[i]), "from_cell_bounds_n minimum (2-D)");
        lv::check(n.max[i] == cv::point_coord_from_cell_coord(b[i], 0.0, r[i]), "from_cell_bounds_n maximum (2-D)");
        let u = Bounds2::from_cell_bounds(&cb, r[i]);
        lv::check(n.min[i] == u.min[i] && n.max[i] == u.max[i], "from_cell_bounds_n against from_cell_bounds (2-D)");
    }
}
#[no_mangle]
pub fn h_c02_bounds3() {
    let r = r3();
    let (a, b) = (k3(), k3());
    let cb = CellBounds3 { min: a, max: b };
    let n = Bounds3::from_cell_bounds_n(&cb, &r);
    for i in 0..3 {
        lv::check(n.min[i] == cv::point_coord_from_cell_coord(a[i], 0.0, r[i]), "from_cell_bounds_n minimum (3-D)");
        lv::check(n.max[i] == cv::point_coord_from_cell_coord(b[i], 0.0, r[i]), "from_cell_bounds_n maximum (3-D)");
        let u = Bounds3::from_cell_bounds(&cb, r[i]);
        lv::check(n.min[i] == u.min[i] && n.max[i] == u.max[i], "from_cell_bounds_n against from_cell_bounds (3-D)");
    }
}
/// A size at an offset: the bounds start at the offset cell and end at offset plus size.
#[no_mangle]
pub fn h_c02_size2() {
    let r = r2();
    let (size, off) = (Cell2::new(lv::int(0, N), lv::int(0, N)), k2());
    let n = Bounds2::from_size_cells_n(&size, &r, &off);
    for i in 0..2 {
        lv::check(n.min[i] == cv::point_coord_from_cell_coord(off[i], 0.0, r[i]), "sized bounds start at the offset (2-D, per axis)");
        lv::check(n.max[i] == cv::point_coord_from_cell_coord(off[i] + size[i], 0.0, r[i]), "sized bounds span the size (2-D, per axis)");
        let u = Bounds2::from_size_cells(&size, r[i], &off);
        lv::check(u.min[i] == n.min[i], "sized bounds start at the offset (2-D)");
        lv::check(u.max[i] == n.max[i], "sized bounds span the size (2-D)");
    }
}
#[no_mangle]
pub fn h_c02_size3() {
    let r = r3();
    let (size, off) = (Cell3::new(lv::int(0, N), lv::int(0, N), lv::int(0, N)), k3());
    let n = Bounds3::from_size_cells_n(&size, &r, &off);
    for i in 0..3 {
        lv::check(n.min[i] == cv::point_coord_from_cell_coord(off[i], 0.0, r[i]), "sized bounds start at the offset (3-D, per axis)");
        lv::check(n.max[i] == cv::point_coord_from_cell_coord(off[i] + size[i], 0.0, r[i]), "sized bounds span the size (3-D, per axis)");
        let u = Bounds3::from_size_cells(&size, r[i], &off);
        lv::check(u.min[i] == n.min[i], "sized bounds start at the offset (3-D)");
        lv::check(u.max[i] == n.max[i], "sized bounds span the size (3-D)");
    }
}
/// Independent of the library's scalar conversion: the value itself, exactly, on dyadic inputs.
#[no_mangle]
pub fn h_c02_exact3() {
    let r = Point3::new(0.25, 2.0, 0.125);
    let off = Point3::new(lv::fix(-4096, 4096, 4), lv::fix(-4096, 4096, 4), lv::fix(-4096, 4096, 4));
    let c = Cell3::new(lv::int(-4096, 4096), lv::int(-4096, 4096), lv::int(-4096, 4096));
    let p = cv::point_from_cell_n(&c, &off, &r);
    for i in 0..3 {
        lv::check(p[i] as f64 == c[i] as f64 * r[i] as f64 + off[i] as f64, "exact per-axis centre");
    }
    lv::check(cv::cell_from_point_n(&p, &off, &r) == c, "per-axis centre of a cell is in the cell");
}
/// Cells far beyond 32 bits (exact in f32), each axis with its own resolution.
#[no_mangle]
pub fn h_c02_huge3() {
    let r = [Point3::new(0.25, 1.0, 4.0), Point3::new(2.0, 2.0, 0.5)][lv::case(2)];
    let scale = [256isize, 65536, 1 << 24][lv::case(3)];
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = lv::int(-(1 << 20), 1 << 20) * scale;
    }
    let o = Point3::origin();
    let p = cv::point_from_cell_n(&c, &o, &r);
    let d = cv::cell_from_point_n(&p, &o, &r);
    let b = Bounds3::from_cell_bounds_n(&CellBounds3 { min: c, max: c }, &r);
    for i in 0..3 {
        lv::check(p[i] == cv::point_coord_from_cell_coord(c[i], 0.0, r[i]), "point_from_cell_n axis of a huge cell");
        lv::check(d[i] == cv::cell_coord_from_point_coord(p[i], 0.0, r[i]), "cell_from_point_n axis of a huge cell");
        lv::check(b.min[i] == p[i] && b.max[i] == p[i], "from_cell_bounds_n axis of a huge cell");
    }
    let (p, d) = (Point2::new(p.x, p.z), Point2::new(r.x, r.z));
    let k = cv::cell_from_point_n(&p, &Point2::origin(), &d);
    for i in 0..2 {
        lv::check(k[i] == cv::cell_coord_from_point_coord(p[i], 0.0, d[i]), "cell_from_point_n axis of a huge cell (2-D)");
    }
}
