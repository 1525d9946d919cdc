//! C01: points to cells and back.
use crate::lv;
use kuba::geom::converter as cv;
use kuba::map::GridMap;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2, GridMap3, Point2, Point3};

/// Ranges of offsets and cells: near the origin, and far out (a million cells).
const RANGE: [(f64, i64); 2] = [(500.0, 4000), (20000.0, 1_000_000)];
/// Four roundings of values below m.
fn tol(m: f64) -> f64 {
    m * 4.0 / 16777216.0
}

/// Cell centre and back, one axis: every cell, every offset.
#[no_mangle]
pub fn h_c01_roundtrip2() {
    let res = lv::RES[lv::case(6)];
    let (off_max, n) = RANGE[lv::case(2)];
    let t = tol(off_max + n as f64 * res as f64);
    let off = Point2::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let c = Cell2::new(lv::int(-n, n), lv::int(-n, n));
    let p = cv::point_from_cell(&c, &off, res);
    let d = cv::cell_from_point(&p, &off, res);
    lv::check(d[0] == c[0] && d[1] == c[1], "centre of a cell is in the cell (2-D)");
    for i in 0..2 {
        // the centre is where the frame says: an exact result up to two roundings
        let e = c[i] as f64 * res as f64 + off[i] as f64;
        let x = p[i] as f64 - e;
        lv::check(x <= t && x >= -t, "centre is offset plus cell times resolution (2-D)");
        lv::check(cv::point_coord_from_cell_coord(c[i], off[i], res) == p[i], "scalar and 2-D centre agree");
    }
}

#[no_mangle]
pub fn h_c01_roundtrip3() {
    let res = lv::RES[lv::case(6)];
    let (off_max, n) = RANGE[lv::case(2)];
    let t = tol(off_max + n as f64 * res as f64);
    let off = Point3::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let c = Cell3::new(lv::int(-n, n), lv::int(-n, n), lv::int(-n, n));
    let p = cv::point_from_cell(&c, &off, res);
    let d = cv::cell_from_point(&p, &off, res);
    lv::check(d[0] == c[0] && d[1] == c[1] && d[2] == c[2], "centre of a cell is in the cell (3-D)");
    for i in 0..3 {
        let e = c[i] as f64 * res as f64 + off[i] as f64;
        let x = p[i] as f64 - e;
        lv::check(x <= t && x >= -t, "centre is offset plus cell times resolution (3-D)");
        lv::check(cv::point_coord_from_cell_coord(c[i], off[i], res) == p[i], "scalar and 3-D centre agree");
    }
}

/// Every point is within half a cell of its cell's centre.
#[no_mangle]
pub fn h_c01_half2() {
    let res = lv::RES[lv::case(6)];
    let off_max = [500.0, 20000.0][lv::case(2)];
    let t = tol(off_max * 2.0);
    let off = Point2::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let p = Point2::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let c = cv::cell_from_point(&p, &off, res);
    let q = cv::point_from_cell(&c, &off, res);
    for i in 0..2 {
        let e = c[i] as f64 * res as f64 + off[i] as f64 - p[i] as f64;
        let h = res as f64 * 0.5 + t;
        lv::check(e <= h && e >= -h, "point is within half a cell of its cell (2-D)");
        lv::check(lv::near(q[i], p[i], h + t), "point is within half a cell of its cell's centre (2-D)");
        lv::check(
            cv::cell_coord_from_point_coord(p[i], off[i], res) == c[i],
            "an axis depends on its own coordinate and offset only (2-D)",
        );
    }
}

#[no_mangle]
pub fn h_c01_half3() {
    let res = lv::RES[lv::case(6)];
    let off_max = [500.0, 20000.0][lv::case(2)];
    let t = tol(off_max * 2.0);
    let off = Point3::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let p = Point3::new(lv::real(-off_max, off_max), lv::real(-off_max, off_max), lv::real(-off_max, off_max));
    let c = cv::cell_from_point(&p, &off, res);
    let q = cv::point_from_cell(&c, &off, res);
    for i in 0..3 {
        let e = c[i] as f64 * res as f64 + off[i] as f64 - p[i] as f64;
        let h = res as f64 * 0.5 + t;
        lv::check(e <= h && e >= -h, "point is within half a cell of its cell (3-D)");
        lv::check(lv::near(q[i], p[i], h + t), "point is within half a cell of its cell's centre (3-D)");
        lv::check(
            cv::cell_coord_from_point_coord(p[i], off[i], res) == c[i],
            "an axis depends on its own coordinate and offset only (3-D)",
        );
    }
}

/// The same with power-of-two resolutions, where every operation is exact: no tolerance at all.
#[no_mangle]
pub fn h_c01_exact() {
    let res = [0.0625f32, 0.25, 0.5, 1.0, 4.0][lv::case(5)];
    let off = lv::fix(-40000, 40000, 8);
    let p = lv::fix(-40000, 40000, 8);
    let c = cv::cell_coord_from_point_coord(p, off, res);
    let d = p as f64 - (c as f64 * res as f64 + off as f64);
    let h = res as f64 * 0.5;
    lv::check(d <= h && d >= -h, "exactly within half a cell");
    // the documented choice for a point on the boundary of two cells is the one away from the offset
    lv::check(cv::point_coord_from_cell_coord(c, off, res) as f64 == p as f64 - d, "centre is exact");
    lv::check(
        cv::point_coord_from_cell_coord(c + 1, off, res) - cv::point_coord_from_cell_coord(c, off, res) == res,
        "neighbouring centres are one resolution apart",
    );
}

#[no_mangle]
pub fn h_c01_neighbour() {
    let res = lv::RES[lv::case(6)];
    let (off_max, n) = RANGE[lv::case(2)];
    let t = tol(off_max + n as f64 * res as f64);
    let off = lv::real(-off_max, off_max);
    let c = lv::int(-n, n);
    let a = cv::point_coord_from_cell_coord(c, off, res);
    let b = cv::point_coord_from_cell_coord(c + 1, off, res);
    let d = b as f64 - a as f64 - res as f64;
    lv::check(d <= t && d >= -t, "neighbouring centres are one resolution apart up to rounding");
}

/// A grid map's own conversions use its resolution and the minimum of its bounds as offset.
#[no_mangle]
pub fn h_c01_map2() {
    let res = [0.1f32, 0.25, 1.0][lv::case(3)];
    let min = Point2::new(lv::real(-50.0, 50.0), lv::real(-50.0, 50.0));
    let b = Bounds2::new(min, Point2::new(min.x + 1.0, min.y + 1.0));
    let map = GridMap2::<f32>::from_ndarray(ndarray::Array2::zeros((2, 3)), res, b, 10);
    let c = Cell2::new(lv::int(-500, 500), lv::int(-500, 500));
    let p = map.point_from_cell(&c);
    lv::check(p == cv::point_from_cell(&c, &min, res), "map centre is the frame's centre (2-D)");
    lv::check(map.cell_from_point(&p) == c, "centre of a map cell is in the cell (2-D)");
    let q = Point2::new(lv::real(-50.0, 50.0), lv::real(-50.0, 50.0));
    let d = map.cell_from_point(&q);
    for i in 0..2 {
        let e = d[i] as f64 * res as f64 + min[i] as f64 - q[i] as f64;
        let h = res as f64 * 0.5 + 1e-3;
        lv::check(e <= h && e >= -h, "point is within half a cell of its map cell (2-D)");
    }
}

#[no_mangle]
pub fn h_c01_map3() {
    let res = [0.1f32, 0.25, 1.0][lv::case(3)];
    let min = Point3::new(lv::real(-50.0, 50.0), lv::real(-50.0, 50.0), lv::real(-50.0, 50.0));
    let b = Bounds3::new(min, Point3::new(min.x + 1.0, min.y + 1.0, min.z + 1.0));
    let map = GridMap3::<f32>::from_ndarray(ndarray::Array3::zeros((2, 3, 2)), res, b, 10);
    let c = Cell3::new(lv::int(-500, 500), lv::int(-500, 500), lv::int(-500, 500));
    let p = map.point_from_cell(&c);
    lv::check(p == cv::point_from_cell(&c, &min, res), "map centre is the frame's centre (3-D)");
    lv::check(map.cell_from_point(&p) == c, "centre of a map cell is in the cell (3-D)");
    let q = Point3::new(lv::real(-50.0, 50.0), lv::real(-50.0, 50.0), lv::real(-50.0, 50.0));
    let d = map.cell_from_point(&q);
    for i in 0..3 {
        let e = d[i] as f64 * res as f64 + min[i] as f64 - q[i] as f64;
        let h = res as f64 * 0.5 + 1e-3;
        lv::check(e <= h && e >= -h, "point is within half a cell of its map cell (3-D)");
    }
}

/// Cells far beyond 32 bits: multiples of 2^s, which f32 represents exactly.
#[no_mangle]
pub fn h_c01_huge() {
    let res = [0.0625f32, 1.0, 4.0][lv::case(3)];
    let scale = [256isize, 65536, 1 << 24][lv::case(3)];
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = lv::int(-(1 << 20), 1 << 20) * scale;
    }
    let p = cv::point_from_cell(&c, &Point3::origin(), res);
    for i in 0..3 {
        lv::check(p[i] as f64 == c[i] as f64 * res as f64, "the centre of a huge cell is exact");
    }
    lv::check(cv::cell_from_point(&p, &Point3::origin(), res) == c, "a huge cell comes back from its centre (3-D)");
    let c = Cell2::new(c.x, c.z);
    let p = cv::point_from_cell(&c, &Point2::origin(), res);
    lv::check(cv::cell_from_point(&p, &Point2::origin(), res) == c, "a huge cell comes back from its centre (2-D)");
}
