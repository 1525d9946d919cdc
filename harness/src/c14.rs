//! C14: a scan's cells are the union of its rays', and a hit cell is never free.
use crate::lv;
use crate::scan::{spread, Marks};
use kuba::ray_caster::{cast_ray, cast_rays};
use kuba::{Bounds2, Bounds3, Point2, Point3, PointCloud2, PointCloud3};

/// (resolution, bounds minimum, where the origin is, shift of the origin's grid)
const CFG: [(f32, f32, f32, u32); 3] = [(1.0, 0.0, 0.0, 4), (0.5, -1.25, 3.0, 5), (0.1, 0.0, 0.25, 7)];
const LIM: [f32; 3] = [0.0, 1.5, 40.0];

/// Scans as lists of ray vectors: nested rays, different rays to one cell, repeated points, an end on a ray.
const SCAN2: [&[[f32; 2]]; 5] = [
    &[[3.0, 0.0], [1.5, 0.0]],
    &[[2.0, 2.5], [2.25, 1.75], [0.0, 0.0]],
    &[[-2.0, -1.0], [1.0, 0.25], [-2.0, -1.0]],
    &[[1.0, 1.0], [2.0, 2.0], [0.5, -1.5]],
    &[[0.25, 0.25]],
];
fn union2(o: &Point2, pts: &[Point2], b: &Bounds2, res: f32, lim: f32) {
    let (mut ends, mut cells) = (vec![], vec![]);
    for p in pts {
        let (ray, end) = cast_ray(o, p, b, res, lim);
        if let Some(c) = end {
            if !ends.contains(&c) {
                ends.push(c);
            }
        }
        for c in ray {
            if !cells.contains(&c) {
                cells.push(c);
            }
        }
    }
    let (free, hit) = cast_rays(o, &PointCloud2::from_points(pts), b, res, lim);
    lv::check(hit.len() == ends.len(), "as many occupied cells as ends (2-D)");
    for c in &ends {
        lv::check(hit.contains(c), "every end is occupied (2-D)");
        lv::check(!free.contains(c), "a hit cell is not free (2-D)");
    }
    let mut n = 0;
    for c in &cells {
        if !ends.contains(c) {
            n += 1;
            lv::check(free.contains(c), "every other cell of a ray is free (2-D)");
        } else {
            lv::cover("a hit cell that another ray crosses (2-D)");
        }
    }
    lv::check(free.len() == n, "no other cell is free (2-D)");
    // Backwards and with the last point twice.
    let mut back: Vec<Point2> = pts.iter().rev().cloned().collect();
    back.push(pts[pts.len() - 1]);
    let (free2, hit2) = cast_rays(o, &PointCloud2::from_points(&back), b, res, lim);
    lv::check(free2 == free && hit2 == hit, "order and repetition do not matter (2-D)");
    if free.len() > 2 {
        lv::cover("a scan (2-D)");
    }
}
//# conc_ftoi max_steps=2000000
#[no_mangle]
pub fn h_c14_union2() {
    let (res, off, base, shift) = CFG[lv::case(3)];
    let scan = SCAN2[lv::case(5)];
    let axis = lv::case(2);
    let lim = LIM[lv::case(3)] * res;
    let w = lv::tier(16, 32);
    let place = if lv::case(2) == 0 { 0.0 } else { 3.0 / 16.0 };
    let mut o = Point2::origin();
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == axis { lv::fix(-w, w, shift) } else { place };
    }
    let scale = if res < 0.2 { 0.125 } else { res };
    let mut pts = vec![];
    for v in scan {
        let mut p = o;
        for i in 0..2 {
            p[i] = o[i] + v[i] * scale;
        }
        pts.push(p);
    }
    union2(&o, &pts, &b, res, lim);
}
#[no_mangle]
pub fn h_c14_empty2() {
    let mut o = Point2::origin();
    for i in 0..2 {
        o[i] = lv::fix(-64, 64, 3);
    }
    let lim = lv::fix(-64, 64, 3);
    let (free, hit) = cast_rays(&o, &PointCloud2::from_points(&[]), &Bounds2::empty(), 0.5, lim);
    lv::check(free.is_empty() && hit.is_empty(), "an empty cloud yields nothing (2-D)");
}

/// Scans as lists of ray vectors: nested rays, different rays to one cell, repeated points, an end on a ray.
const SCAN3: [&[[f32; 3]]; 4] = [
    &[[2.0, 0.0, 0.0], [1.0, 0.0, 0.0]],
    &[[1.0, 1.5, 1.0], [1.25, 1.0, 1.5]],
    &[[-1.0, -1.0, 2.0], [0.0, 0.0, 0.0], [-0.5, -0.5, 1.0]],
    &[[0.0, 0.0, 2.0], [0.0, 0.0, -1.0]],
];
fn union3(o: &Point3, pts: &[Point3], b: &Bounds3, res: f32, lim: f32) {
    let (mut ends, mut cells) = (vec![], vec![]);
    for p in pts {
        let (ray, end) = cast_ray(o, p, b, res, lim);
        if let Some(c) = end {
            if !ends.contains(&c) {
                ends.push(c);
            }
        }
        for c in ray {
            if !cells.contains(&c) {
                cells.push(c);
            }
        }
    }
    let (free, hit) = cast_rays(o, &PointCloud3::from_points(pts), b, res, lim);
    lv::check(hit.len() == ends.len(), "as many occupied cells as ends (3-D)");
    for c in &ends {
        lv::check(hit.contains(c), "every end is occupied (3-D)");
        lv::check(!free.contains(c), "a hit cell is not free (3-D)");
    }
    let mut n = 0;
    for c in &cells {
        if !ends.contains(c) {
            n += 1;
            lv::check(free.contains(c), "every other cell of a ray is free (3-D)");
        } else {
            lv::cover("a hit cell that another ray crosses (3-D)");
        }
    }
    lv::check(free.len() == n, "no other cell is free (3-D)");
    // Backwards and with the last point twice.
    let mut back: Vec<Point3> = pts.iter().rev().cloned().collect();
    back.push(pts[pts.len() - 1]);
    let (free2, hit2) = cast_rays(o, &PointCloud3::from_points(&back), b, res, lim);
    lv::check(free2 == free && hit2 == hit, "order and repetition do not matter (3-D)");
    if free.len() > 2 {
        lv::cover("a scan (3-D)");
    }
}
//# conc_ftoi max_steps=2000000
#[no_mangle]
pub fn h_c14_union3() {
    let (res, off, base, shift) = CFG[lv::case(lv::tier(2, 3))];
    let scan = SCAN3[lv::case(4)];
    let axis = lv::case(3);
    let lim = LIM[lv::case(3)] * res;
    let w = lv::tier(10, 20);
    let place = if lv::case(2) == 0 { 0.0 } else { 3.0 / 16.0 };
    let mut o = Point3::origin();
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = off - i as f32 * 0.25;
        b.max[i] = off + 4.0;
        o[i] = base + if i == axis { lv::fix(-w, w, shift) } else { place };
    }
    let scale = if res < 0.2 { 0.125 } else { res };
    let mut pts = vec![];
    for v in scan {
        let mut p = o;
        for i in 0..3 {
            p[i] = o[i] + v[i] * scale;
        }
        pts.push(p);
    }
    union3(&o, &pts, &b, res, lim);
}
#[no_mangle]
pub fn h_c14_empty3() {
    let mut o = Point3::origin();
    for i in 0..3 {
        o[i] = lv::fix(-64, 64, 3);
    }
    let lim = lv::fix(-64, 64, 3);
    let (free, hit) = cast_rays(&o, &PointCloud3::from_points(&[]), &Bounds3::empty(), 0.5, lim);
    lv::check(free.is_empty() && hit.is_empty(), "an empty cloud yields nothing (3-D)");
}

/// Any scan of two points over some cells. (Products, quotients and roots are any floats, consistently.)
//# havoc soft conc_ftoi max_steps=2000000
#[no_mangle]
pub fn h_c14_any2() {
    let res = 0.5;
    let span = lv::tier(1.25, 2.0) * res as f64;
    let part = lv::case(4) as f64 * 0.25;
    let lim = [0.0, 1.0][lv::case(2)];
    let mut o = Point2::origin();
    let mut pts = vec![o; 2];
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 0.25)) } else { lv::real(0.0, span) };
    }
    for k in 0..2 {
        for i in 0..2 {
            pts[k][i] = lv::real(0.0, if i < 2 { span } else { 0.25 * span });
        }
    }
    union2(&o, &pts, &b, res, lim);
}

/// Any scan of two points over some cells. (Products, quotients and roots are any floats, consistently.)
//# havoc soft conc_ftoi max_steps=2000000
#[no_mangle]
pub fn h_c14_any3() {
    let res = 0.5;
    let span = lv::tier(1.0, 1.25) * res as f64;
    let part = lv::case(4) as f64 * 0.25;
    let lim = [0.0, 1.0][lv::case(lv::tier(1, 2))];
    let mut o = Point3::origin();
    let mut pts = vec![o; 2];
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = -0.75 * res;
        b.max[i] = 10.0 * res;
        o[i] = if i == 0 { lv::real(span * part, span * (part + 0.25)) } else { lv::real(0.0, span) };
    }
    for k in 0..2 {
        for i in 0..3 {
            pts[k][i] = lv::real(0.0, if i < 2 { span } else { 0.25 * span });
        }
    }
    union3(&o, &pts, &b, res, lim);
}

/// Scans of many points.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c14_many2() {
    // How many points and how far; one of them is anywhere near the sensor.
    let (n, radius) = [(130, 7), (1100, 1), (2500, 2)][lv::case(lv::tier(2, 3))];
    let res = 0.5;
    let b = Bounds2::empty();
    let mut o = Point2::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..2 {
            p[i] = if k == n / 2 { lv::real(-0.125, 0.375) } else { v[i] * res };
        }
        pts.push(p);
    }
    let (mut ends, mut cells) = (Marks::new(9, 2), Marks::new(9, 2));
    let mut free_size = 0;
    for p in &pts {
        let (ray, end) = cast_ray(&o, p, &b, res, 0.0);
        if let Some(c) = end {
            ends.add(c.coords.as_slice());
        }
        for c in ray {
            cells.add(c.coords.as_slice());
        }
    }
    let (free, hit) = cast_rays(&o, &PointCloud2::from_points(&pts), &b, res, 0.0);
    let (mut hit_ok, mut free_ok) = (hit.len() == ends.len, true);
    for c in &hit {
        hit_ok &= ends.has(c.coords.as_slice());
    }
    for c in &free {
        free_ok &= cells.has(c.coords.as_slice()) && !ends.has(c.coords.as_slice());
    }
    lv::check(hit_ok, "the occupied cells of a large scan are its ends (2-D)");
    lv::check(free_ok, "the free cells of a large scan are on its rays and not hit (2-D)");
    for c in &hit {
        free_size += cells.has(c.coords.as_slice()) as usize;
    }
    lv::check(free.len() == cells.len - free_size, "every other cell of the rays of a large scan is free (2-D)");
}

/// Scans of many points.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c14_many3() {
    // How many points and how far; one of them is anywhere near the sensor.
    let (n, radius) = [(130, 7), (1100, 1), (2500, 2)][lv::case(lv::tier(2, 3))];
    let res = 0.5;
    let b = Bounds3::empty();
    let mut o = Point3::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..3 {
            p[i] = if k != n / 2 { v[i] * res } else if i < 2 { lv::real(-0.125, 0.375) } else { 0.125 };
        }
        pts.push(p);
    }
    let (mut ends, mut cells) = (Marks::new(9, 3), Marks::new(9, 3));
    let mut free_size = 0;
    for p in &pts {
        let (ray, end) = cast_ray(&o, p, &b, res, 0.0);
        if let Some(c) = end {
            ends.add(c.coords.as_slice());
        }
        for c in ray {
            cells.add(c.coords.as_slice());
        }
    }
    let (free, hit) = cast_rays(&o, &PointCloud3::from_points(&pts), &b, res, 0.0);
    let (mut hit_ok, mut free_ok) = (hit.len() == ends.len, true);
    for c in &hit {
        hit_ok &= ends.has(c.coords.as_slice());
    }
    for c in &free {
        free_ok &= cells.has(c.coords.as_slice()) && !ends.has(c.coords.as_slice());
    }
    lv::check(hit_ok, "the occupied cells of a large scan are its ends (3-D)");
    lv::check(free_ok, "the free cells of a large scan are on its rays and not hit (3-D)");
    for c in &hit {
        free_size += cells.has(c.coords.as_slice()) as usize;
    }
    lv::check(free.len() == cells.len - free_size, "every other cell of the rays of a large scan is free (3-D)");
}
