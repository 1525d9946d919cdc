//! C16: integrating a scan updates exactly the hit and free cells, once each.
use crate::lv;
use crate::scan::{spread, Marks};
use kuba::geom::converter::cell_from_point;
use kuba::map::GridMap;
use kuba::ray_caster::cast_ray;
use kuba::{
    Bounds2, Bounds3, Cell2, Cell3, GridMap2f, GridMap3f, LidarNoiseModel, LidarOccupancyGridMap2, LidarOccupancyGridMap3,
    Point2, Point3, PointCloud2, PointCloud3,
};

fn model(max_range: f32) -> LidarNoiseModel {
    LidarNoiseModel {
        hit_probability_logodds: 0.75,
        miss_probability_logodds: -0.5,
        min_probability_logodds: -2.0,
        max_probability_logodds: 3.5,
        occupied_threshold_logodds: 0.0,
        max_range,
    }
}
/// (resolution, tile size, grid shift of the sensor's position)
const CFG: [(f32, usize, u32); 3] = [(1.0, 2, 3), (0.1, 3, 6), (0.5, 1, 4)];
/// Where the sensor is, in cells: inside the map, beyond its far corner, before its near corner, mixed.
const AT: [[f32; 3]; 5] = [[1.0, 0.5, 0.5], [4.0, 5.0, 2.5], [-5.0, -4.5, -3.0], [0.0, 0.0, 0.0], [-4.0, 3.5, 0.0]];

const SCAN2: [&[[f32; 2]]; 4] = [
    &[[2.0, 0.0], [1.0, 0.0], [2.125, 0.125]],
    &[[2.0, 2.5], [2.25, 1.75], [0.0, 0.0]],
    &[[-2.0, -1.0], [1.0, 0.25], [-2.0, -1.0]],
    &[[-0.5, 2.25]],
];
/// Every update at once: compares all cells of the map after a scan with the map before it.
fn compare2(old: &GridMap2f, m: &LidarOccupancyGridMap2, o: &Point2, pts: &[Point2]) {
    let g = &m.grid_map;
    let n = &m.noise_model;
    let res = g.resolution;
    let (mut ends, mut cells) = (vec![], vec![]);
    for p in pts {
        let (ray, end) = cast_ray(o, p, &g.bounds, res, n.max_range);
        ends.extend(end);
        cells.extend(ray);
    }
    let mut shift = [0isize; 2];
    let mut shape = [0isize; 2];
    let was_empty = old.data.len() == 0;
    for i in 0..2 {
        shape[i] = g.data.shape()[i] as isize;
        shift[i] = ((old.bounds.min[i] - g.bounds.min[i]) / res).round() as isize;
    }
    let mut held = true;
    for c in ends.iter().chain(&cells) {
        for i in 0..2 {
            held &= 0 <= c[i] && c[i] < shape[i];
        }
    }
    lv::check(held, "the map holds every traversed cell (2-D)");
    for p in pts.iter().chain([o]) {
        let c = cell_from_point(p, &g.bounds.min, res);
        for i in 0..2 {
            held &= 0 <= c[i] && c[i] < shape[i];
        }
    }
    lv::check(held, "the map holds the points and the sensor (2-D)");
    let (mut hit_ok, mut free_ok, mut rest_ok) = (true, true, true);
    let mut total = 1;
    for i in 0..2 {
        total *= shape[i];
    }
    let mut kept = 0;
    for k in 0..total {
        let mut c = Cell2::origin();
        let mut r = k;
        for i in 0..2 {
            c[i] = r % shape[i];
            r /= shape[i];
        }
        let mut was = c;
        let mut inside = !was_empty;
        for i in 0..2 {
            was[i] = c[i] - shift[i];
            inside &= 0 <= was[i] && was[i] < old.data.shape()[i] as isize;
        }
        let before = if inside { old.get(&was) } else { 0.0 };
        kept += inside as usize;
        let now = g.get(&c);
        if ends.contains(&c) {
            hit_ok &= now == (before + n.hit_probability_logodds).min(n.max_probability_logodds);
        } else if cells.contains(&c) {
            free_ok &= now == (before + n.miss_probability_logodds).max(n.min_probability_logodds);
        } else {
            rest_ok &= now == before;
        }
    }
    lv::check(kept == old.data.len(), "no cell of the old map is lost (2-D)");
    lv::check(hit_ok, "an occupied cell receives one hit (2-D)");
    lv::check(free_ok, "a free cell receives one miss (2-D)");
    lv::check(rest_ok, "every other cell keeps its value (2-D)");
    if cells.len() > 1 {
        lv::cover("a scan (2-D)");
    }
}
fn points2(o: &Point2, scan: &[[f32; 2]], res: f32) -> Vec<Point2> {
    let scale = if res < 0.2 { 0.125 } else { res };
    let mut pts = vec![];
    for v in scan {
        let mut p = *o;
        for i in 0..2 {
            p[i] = o[i] + v[i] * scale;
        }
        pts.push(p);
    }
    pts
}
/// A map from -2 to 2 cells (or empty), all cells different.
fn start2(res: f32, tile: usize, range: f32, empty: bool) -> LidarOccupancyGridMap2 {
    let mut m = LidarOccupancyGridMap2::new(model(range), res, tile);
    if !empty {
        let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
        for i in 0..2 {
            lo[i] = -2.0 * res;
            hi[i] = 2.0 * res;
        }
        m.grid_map = GridMap2f::new(res, Bounds2::new(lo, hi), tile, 0.0);
        let mut v = -2.25;
        for x in m.grid_map.data.iter_mut() {
            *x = v;
            v += 0.375;
        }
    }
    m
}
fn place2(at: &[f32; 3], axis: usize, res: f32, shift: u32) -> Point2 {
    let w = lv::tier(8, 16);
    let mut o = Point2::origin();
    for i in 0..2 {
        let scale = if res < 0.2 { 0.125 } else { res };
        o[i] = at[i] * scale + if i == axis { lv::fix(-w, w, shift) } else { 0.0 };
    }
    o
}
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c16_scan2() {
    let (res, tile, shift) = CFG[lv::case(lv::tier(2, 3))];
    let scan = SCAN2[lv::case(4)];
    let at = AT[lv::case(lv::tier(4, 5))];
    let axis = lv::case(2);
    let range = [40.0, 1.5][lv::case(lv::tier(2, 2))] * res;
    let o = place2(&at, axis, res, shift);
    let pts = points2(&o, scan, res);
    let mut m = start2(res, tile, range, lv::case(2) == 0);
    let old = m.grid_map.clone();
    m.integrate_point_cloud(&o, &PointCloud2::from_points(&pts));
    compare2(&old, &m, &o, &pts);
}
/// A second scan elsewhere: what the first one stored stays at its place.
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c16_again2() {
    let (res, tile, shift) = CFG[lv::case(lv::tier(2, 3))];
    let first = lv::case(lv::tier(2, 4));
    let second = lv::case(lv::tier(2, 4));
    let axis = lv::case(2);
    let mut m = start2(res, tile, 40.0 * res, true);
    let mut fixed = Point2::origin();
    for i in 0..2 {
        fixed[i] = AT[first][i] * res;
    }
    m.integrate_point_cloud(&fixed, &PointCloud2::from_points(&points2(&fixed, SCAN2[0], res)));
    let old = m.grid_map.clone();
    let o = place2(&AT[4 - second], axis, res, shift);
    let pts = points2(&o, SCAN2[1 + first % 2], res);
    m.integrate_point_cloud(&o, &PointCloud2::from_points(&pts));
    compare2(&old, &m, &o, &pts);
}

const SCAN3: [&[[f32; 3]]; 3] = [
    &[[2.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.125, 0.125, 0.0]],
    &[[1.0, 1.5, 1.0], [1.25, 1.0, 1.5]],
    &[[-1.0, -1.0, 2.0], [0.0, 0.0, 0.0], [-1.0, -1.0, 2.0]],
];
/// Every update at once: compares all cells of the map after a scan with the map before it.
fn compare3(old: &GridMap3f, m: &LidarOccupancyGridMap3, o: &Point3, pts: &[Point3]) {
    let g = &m.grid_map;
    let n = &m.noise_model;
    let res = g.resolution;
    let (mut ends, mut cells) = (vec![], vec![]);
    for p in pts {
        let (ray, end) = cast_ray(o, p, &g.bounds, res, n.max_range);
        ends.extend(end);
        cells.extend(ray);
    }
    let mut shift = [0isize; 3];
    let mut shape = [0isize; 3];
    let was_empty = old.data.len() == 0;
    for i in 0..3 {
        shape[i] = g.data.shape()[i] as isize;
        shift[i] = ((old.bounds.min[i] - g.bounds.min[i]) / res).round() as isize;
    }
    let mut held = true;
    for c in ends.iter().chain(&cells) {
        for i in 0..3 {
            held &= 0 <= c[i] && c[i] < shape[i];
        }
    }
    lv::check(held, "the map holds every traversed cell (3-D)");
    for p in pts.iter().chain([o]) {
        let c = cell_from_point(p, &g.bounds.min, res);
        for i in 0..3 {
            held &= 0 <= c[i] && c[i] < shape[i];
        }
    }
    lv::check(held, "the map holds the points and the sensor (3-D)");
    let (mut hit_ok, mut free_ok, mut rest_ok) = (true, true, true);
    let mut total = 1;
    for i in 0..3 {
        total *= shape[i];
    }
    let mut kept = 0;
    for k in 0..total {
        let mut c = Cell3::origin();
        let mut r = k;
        for i in 0..3 {
            c[i] = r % shape[i];
            r /= shape[i];
        }
        let mut was = c;
        let mut inside = !was_empty;
        for i in 0..3 {
            was[i] = c[i] - shift[i];
            inside &= 0 <= was[i] && was[i] < old.data.shape()[i] as isize;
        }
        let before = if inside { old.get(&was) } else { 0.0 };
        kept += inside as usize;
        let now = g.get(&c);
        if ends.contains(&c) {
            hit_ok &= now == (before + n.hit_probability_logodds).min(n.max_probability_logodds);
        } else if cells.contains(&c) {
            free_ok &= now == (before + n.miss_probability_logodds).max(n.min_probability_logodds);
        } else {
            rest_ok &= now == before;
        }
    }
    lv::check(kept == old.data.len(), "no cell of the old map is lost (3-D)");
    lv::check(hit_ok, "an occupied cell receives one hit (3-D)");
    lv::check(free_ok, "a free cell receives one miss (3-D)");
    lv::check(rest_ok, "every other cell keeps its value (3-D)");
    if cells.len() > 1 {
        lv::cover("a scan (3-D)");
    }
}
fn points3(o: &Point3, scan: &[[f32; 3]], res: f32) -> Vec<Point3> {
    let scale = if res < 0.2 { 0.125 } else { res };
    let mut pts = vec![];
    for v in scan {
        let mut p = *o;
        for i in 0..3 {
            p[i] = o[i] + v[i] * scale;
        }
        pts.push(p);
    }
    pts
}
/// A map from -2 to 2 cells (or empty), all cells different.
fn start3(res: f32, tile: usize, range: f32, empty: bool) -> LidarOccupancyGridMap3 {
    let mut m = LidarOccupancyGridMap3::new(model(range), res, tile);
    if !empty {
        let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
        for i in 0..3 {
            lo[i] = -2.0 * res;
            hi[i] = 2.0 * res;
        }
        m.grid_map = GridMap3f::new(res, Bounds3::new(lo, hi), tile, 0.0);
        let mut v = -2.25;
        for x in m.grid_map.data.iter_mut() {
            *x = v;
            v += 0.09375;
        }
    }
    m
}
fn place3(at: &[f32; 3], axis: usize, res: f32, shift: u32) -> Point3 {
    let w = lv::tier(6, 10);
    let mut o = Point3::origin();
    for i in 0..3 {
        let scale = if res < 0.2 { 0.125 } else { res };
        o[i] = at[i] * scale + if i == axis { lv::fix(-w, w, shift) } else { 0.0 };
    }
    o
}
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c16_scan3() {
    let (res, tile, shift) = CFG[lv::case(lv::tier(2, 3))];
    let scan = SCAN3[lv::case(3)];
    let at = AT[lv::case(lv::tier(3, 5))];
    let axis = lv::case(3);
    let range = [40.0, 1.5][lv::case(lv::tier(1, 2))] * res;
    let o = place3(&at, axis, res, shift);
    let pts = points3(&o, scan, res);
    let mut m = start3(res, tile, range, lv::case(2) == 0);
    let old = m.grid_map.clone();
    m.integrate_point_cloud(&o, &PointCloud3::from_points(&pts));
    compare3(&old, &m, &o, &pts);
}
/// A second scan elsewhere: what the first one stored stays at its place.
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c16_again3() {
    let (res, tile, shift) = CFG[lv::case(lv::tier(2, 3))];
    let first = lv::case(lv::tier(2, 4));
    let second = lv::case(lv::tier(2, 4));
    let axis = lv::case(3);
    let mut m = start3(res, tile, 40.0 * res, true);
    let mut fixed = Point3::origin();
    for i in 0..3 {
        fixed[i] = AT[first][i] * res;
    }
    m.integrate_point_cloud(&fixed, &PointCloud3::from_points(&points3(&fixed, SCAN3[0], res)));
    let old = m.grid_map.clone();
    let o = place3(&AT[4 - second], axis, res, shift);
    let pts = points3(&o, SCAN3[1 + first % 2], res);
    m.integrate_point_cloud(&o, &PointCloud3::from_points(&pts));
    compare3(&old, &m, &o, &pts);
}

/// Scans of many points, through many cells.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c16_many2() {
    let (n, radius) = [(160, 34), (1100, 2), (300, 50)][lv::case(lv::tier(2, 3))];
    let res = 0.5;
    let mut m = LidarOccupancyGridMap2::new(model(1e3), res, 2 + lv::case(lv::tier(1, 2)));
    let mut o = Point2::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..2 {
            p[i] = if k == n / 2 { lv::real(-0.125, 0.375) } else { v[i] * res };
        }
        pts.push(p);
    }
    m.integrate_point_cloud(&o, &PointCloud2::from_points(&pts));
    let g = &m.grid_map;
    let size = 2 * radius as isize + 8;
    let (mut ends, mut cells) = (Marks::new(size, 2), Marks::new(size, 2));
    for p in &pts {
        let (ray, end) = cast_ray(&o, p, &g.bounds, res, 1e3);
        if let Some(c) = end {
            ends.add(c.coords.as_slice());
        }
        for c in ray {
            cells.add(c.coords.as_slice());
        }
    }
    let mut wrong = 0;
    let mut total = 1;
    for i in 0..2 {
        total *= g.data.shape()[i] as isize;
    }
    for k in 0..total {
        let mut c = Cell2::origin();
        let mut r = k;
        for i in 0..2 {
            c[i] = r % g.data.shape()[i] as isize;
            r /= g.data.shape()[i] as isize;
        }
        let want = if ends.has(c.coords.as_slice()) {
            0.75
        } else if cells.has(c.coords.as_slice()) {
            -0.5
        } else {
            0.0
        };
        wrong += (g.get(&c) != want) as usize;
    }
    lv::check(wrong == 0, "each cell of a large scan receives its update (2-D)");
    if cells.len > 500 {
        lv::cover("a large scan (2-D)");
    }
}

/// Scans of many points, through many cells.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c16_many3() {
    let (n, radius) = [(130, 8), (1100, 1), (300, 12)][lv::case(lv::tier(2, 3))];
    let res = 0.5;
    let mut m = LidarOccupancyGridMap3::new(model(1e3), res, 2 + lv::case(lv::tier(1, 2)));
    let mut o = Point3::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..3 {
            p[i] = if k != n / 2 { v[i] * res } else if i < 2 { lv::real(-0.125, 0.375) } else { 0.125 };
        }
        pts.push(p);
    }
    m.integrate_point_cloud(&o, &PointCloud3::from_points(&pts));
    let g = &m.grid_map;
    let size = 2 * radius as isize + 8;
    let (mut ends, mut cells) = (Marks::new(size, 3), Marks::new(size, 3));
    for p in &pts {
        let (ray, end) = cast_ray(&o, p, &g.bounds, res, 1e3);
        if let Some(c) = end {
            ends.add(c.coords.as_slice());
        }
        for c in ray {
            cells.add(c.coords.as_slice());
        }
    }
    let mut wrong = 0;
    let mut total = 1;
    for i in 0..3 {
        total *= g.data.shape()[i] as isize;
    }
    for k in 0..total {
        let mut c = Cell3::origin();
        let mut r = k;
        for i in 0..3 {
            c[i] = r % g.data.shape()[i] as isize;
            r /= g.data.shape()[i] as isize;
        }
        let want = if ends.has(c.coords.as_slice()) {
            0.75
        } else if cells.has(c.coords.as_slice()) {
            -0.5
        } else {
            0.0
        };
        wrong += (g.get(&c) != want) as usize;
    }
    lv::check(wrong == 0, "each cell of a large scan receives its update (3-D)");
    if cells.len > 500 {
        lv::cover("a large scan (3-D)");
    }
}
