//! C17: the change log lists exactly the cells updated while tracking was on.
use crate::lv;
use crate::scan::{spread, Marks};
use kuba::map::{ExpandableGridMap, GridMap};
use kuba::ray_caster::cast_ray;
use kuba::{
    Bounds2, Bounds3, Cell2, Cell3, GridMap2f, GridMap3f, LidarNoiseModel, LidarOccupancyGridMap2, LidarOccupancyGridMap3,
    Point2, Point3, PointCloud2, PointCloud3,
};

const SCAN2: [&[[f32; 2]]; 3] = [
    &[[2.0, 0.0], [1.0, 0.0], [2.125, 0.125]],
    &[[2.0, 2.5], [2.25, 1.75], [0.0, 0.0]],
    &[[-2.0, -1.0], [1.0, 0.25], [-2.0, -1.0]],
];
/// The cells a scan updates, once each.
fn updated2(o: &Point2, pts: &[Point2], m: &LidarOccupancyGridMap2) -> Vec<Cell2> {
    let mut all = vec![];
    for p in pts {
        let (ray, end) = cast_ray(o, p, &m.grid_map.bounds, m.grid_map.resolution, m.noise_model.max_range);
        for c in ray.into_iter().chain(end) {
            if !all.contains(&c) {
                all.push(c);
            }
        }
    }
    all
}
fn points2(o: &Point2, scan: &[[f32; 2]], res: f32) -> Vec<Point2> {
    let mut pts = vec![];
    for v in scan {
        let mut p = *o;
        for i in 0..2 {
            p[i] = o[i] + v[i] * res;
        }
        pts.push(p);
    }
    pts
}
/// A map whose cells are at the model's limits, or in between, with a log that is not empty.
fn start2(res: f32, k: usize) -> (LidarOccupancyGridMap2, Vec<Cell2>) {
    let mut m = LidarOccupancyGridMap2::new(LidarNoiseModel::default(), res, 2);
    m.noise_model.max_range = [60.0, 1.25][k & 1] * res;
    let (lo, hi) = (m.noise_model.min_probability_logodds, m.noise_model.max_probability_logodds);
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.min[i] = -4.0 * res;
        b.max[i] = 4.0 * res;
    }
    m.grid_map = GridMap2f::new(res, b, 2, [hi, lo, 0.0][k % 3]);
    let (mut c, d) = (Cell2::origin(), Cell2::origin());
    c[0] = -3;
    c[1] = 5;
    let log = vec![c, d, c];
    m.add_changed_cells(log.clone());
    (m, log)
}
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c17_scan2() {
    let res = [1.0, 0.5][lv::case(2)];
    let scan = SCAN2[lv::case(3)];
    let axis = lv::case(2);
    let k = lv::case(lv::tier(3, 6));
    let w = lv::tier(4, 12);
    let mut o = Point2::origin();
    o[axis] = lv::fix(-w, w, 2) * res;
    let pts = points2(&o, scan, res);
    let cloud = PointCloud2::from_points(&pts);
    let (mut m, mut log) = start2(res, k);
    // Off: nothing is logged.
    let mut away = o;
    for i in 0..2 {
        away[i] += 3.0 * res;
    }
    m.integrate_point_cloud(&away, &cloud);
    lv::check(m.changed_cells() == log, "nothing is logged while tracking is off (2-D)");
    m.set_track_changes(true);
    lv::check(m.changed_cells() == log, "switching tracking on keeps the log (2-D)");
    for _ in 0..2 {
        m.integrate_point_cloud(&o, &cloud);
        let all = updated2(&o, &pts, &m);
        let now = m.changed_cells();
        lv::check(now.len() == log.len() + all.len(), "each updated cell is logged once (2-D)");
        lv::check(now[..log.len()] == log[..], "the log is appended to (2-D)");
        for c in &all {
            lv::check(now[log.len()..].contains(c), "every updated cell is logged (2-D)");
        }
        log = now;
    }
    m.set_track_changes(false);
    lv::check(m.changed_cells() == log, "switching tracking off keeps the log (2-D)");
    m.integrate_point_cloud(&o, &cloud);
    lv::check(m.changed_cells() == log && !m.track_changes(), "nothing is logged while tracking is off again (2-D)");
    if log.len() > 6 {
        lv::cover("a scan (2-D)");
    }
}
/// Histories of log operations.
#[no_mangle]
pub fn h_c17_log2() {
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.max[i] = 2.0;
    }
    let mut m = GridMap2f::new(1.0, b.clone(), 2, 0.0);
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a new map tracks nothing (2-D)");
    let mut log: Vec<Cell2> = vec![];
    let mut on = false;
    let mut ops = lv::case(lv::tier(125, 625));
    for _ in 0..lv::tier(3, 4) {
        match ops % 5 {
            0 | 1 => {
                let mut cells = vec![];
                for _ in 0..1 + ops % 5 {
                    let mut c = Cell2::origin();
                    for i in 0..2 {
                        c[i] = lv::int(-(1 << 40), 1 << 40);
                    }
                    cells.push(c);
                }
                log.extend(cells.iter().cloned());
                m.add_changed_cells(cells);
            }
            2 => {
                m.clear_changed_cells();
                log.clear();
            }
            3 => {
                on = !on;
                m.set_track_changes(on);
            }
            _ => {
                for i in 0..2 {
                    b.max[i] += 2.0;
                }
                m.expand_bounds(&b, 1.0);
                m.set(&Cell2::origin(), 3.0);
            }
        }
        ops /= 5;
        lv::check(m.track_changes() == on, "the switch holds its last setting (2-D)");
        let now = m.changed_cells();
        lv::check(now.len() == log.len(), "the log has what was added since it was cleared (2-D)");
        let mut same = true;
        for k in 0..log.len() {
            same &= now[k] == log[k];
        }
        lv::check(same, "in order (2-D)");
        lv::check(m.changed_cells().len() == log.len(), "reading the log keeps it (2-D)");
    }
    lv::cover("a history (2-D)");
}

const SCAN3: [&[[f32; 3]]; 2] = [
    &[[2.0, 0.0, 0.0], [1.0, 0.0, 0.0], [2.125, 0.125, 0.0]],
    &[[-1.0, -1.0, 2.0], [0.0, 0.0, 0.0], [-1.0, -1.0, 2.0]],
];
/// The cells a scan updates, once each.
fn updated3(o: &Point3, pts: &[Point3], m: &LidarOccupancyGridMap3) -> Vec<Cell3> {
    let mut all = vec![];
    for p in pts {
        let (ray, end) = cast_ray(o, p, &m.grid_map.bounds, m.grid_map.resolution, m.noise_model.max_range);
        for c in ray.into_iter().chain(end) {
            if !all.contains(&c) {
                all.push(c);
            }
        }
    }
    all
}
fn points3(o: &Point3, scan: &[[f32; 3]], res: f32) -> Vec<Point3> {
    let mut pts = vec![];
    for v in scan {
        let mut p = *o;
        for i in 0..3 {
            p[i] = o[i] + v[i] * res;
        }
        pts.push(p);
    }
    pts
}
/// A map whose cells are at the model's limits, or in between, with a log that is not empty.
fn start3(res: f32, k: usize) -> (LidarOccupancyGridMap3, Vec<Cell3>) {
    let mut m = LidarOccupancyGridMap3::new(LidarNoiseModel::default(), res, 2);
    m.noise_model.max_range = [60.0, 1.25][k & 1] * res;
    let (lo, hi) = (m.noise_model.min_probability_logodds, m.noise_model.max_probability_logodds);
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.min[i] = -4.0 * res;
        b.max[i] = 4.0 * res;
    }
    m.grid_map = GridMap3f::new(res, b, 2, [hi, lo, 0.0][k % 3]);
    let (mut c, d) = (Cell3::origin(), Cell3::origin());
    c[0] = -3;
    c[1] = 5;
    let log = vec![c, d, c];
    m.add_changed_cells(log.clone());
    (m, log)
}
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c17_scan3() {
    let res = [1.0, 0.5][lv::case(2)];
    let scan = SCAN3[lv::case(2)];
    let axis = lv::case(3);
    let k = lv::case(lv::tier(3, 6));
    let w = lv::tier(2, 8);
    let mut o = Point3::origin();
    o[axis] = lv::fix(-w, w, 2) * res;
    let pts = points3(&o, scan, res);
    let cloud = PointCloud3::from_points(&pts);
    let (mut m, mut log) = start3(res, k);
    // Off: nothing is logged.
    let mut away = o;
    for i in 0..3 {
        away[i] += 3.0 * res;
    }
    m.integrate_point_cloud(&away, &cloud);
    lv::check(m.changed_cells() == log, "nothing is logged while tracking is off (3-D)");
    m.set_track_changes(true);
    lv::check(m.changed_cells() == log, "switching tracking on keeps the log (3-D)");
    for _ in 0..2 {
        m.integrate_point_cloud(&o, &cloud);
        let all = updated3(&o, &pts, &m);
        let now = m.changed_cells();
        lv::check(now.len() == log.len() + all.len(), "each updated cell is logged once (3-D)");
        lv::check(now[..log.len()] == log[..], "the log is appended to (3-D)");
        for c in &all {
            lv::check(now[log.len()..].contains(c), "every updated cell is logged (3-D)");
        }
        log = now;
    }
    m.set_track_changes(false);
    lv::check(m.changed_cells() == log, "switching tracking off keeps the log (3-D)");
    m.integrate_point_cloud(&o, &cloud);
    lv::check(m.changed_cells() == log && !m.track_changes(), "nothing is logged while tracking is off again (3-D)");
    if log.len() > 6 {
        lv::cover("a scan (3-D)");
    }
}
/// Histories of log operations.
#[no_mangle]
pub fn h_c17_log3() {
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.max[i] = 2.0;
    }
    let mut m = GridMap3f::new(1.0, b.clone(), 2, 0.0);
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a new map tracks nothing (3-D)");
    let mut log: Vec<Cell3> = vec![];
    let mut on = false;
    let mut ops = lv::case(lv::tier(125, 625));
    for _ in 0..lv::tier(3, 4) {
        match ops % 5 {
            0 | 1 => {
                let mut cells = vec![];
                for _ in 0..1 + ops % 5 {
                    let mut c = Cell3::origin();
                    for i in 0..3 {
                        c[i] = lv::int(-(1 << 40), 1 << 40);
                    }
                    cells.push(c);
                }
                log.extend(cells.iter().cloned());
                m.add_changed_cells(cells);
            }
            2 => {
                m.clear_changed_cells();
                log.clear();
            }
            3 => {
                on = !on;
                m.set_track_changes(on);
            }
            _ => {
                for i in 0..3 {
                    b.max[i] += 2.0;
                }
                m.expand_bounds(&b, 1.0);
                m.set(&Cell3::origin(), 3.0);
            }
        }
        ops /= 5;
        lv::check(m.track_changes() == on, "the switch holds its last setting (3-D)");
        let now = m.changed_cells();
        lv::check(now.len() == log.len(), "the log has what was added since it was cleared (3-D)");
        let mut same = true;
        for k in 0..log.len() {
            same &= now[k] == log[k];
        }
        lv::check(same, "in order (3-D)");
        lv::check(m.changed_cells().len() == log.len(), "reading the log keeps it (3-D)");
    }
    lv::cover("a history (3-D)");
}

/// Scans of many points, through many cells.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c17_many2() {
    let (n, radius) = [(160, 34), (300, 50)][lv::case(lv::tier(1, 2))];
    let res = 0.5;
    let mut m = LidarOccupancyGridMap2::new(LidarNoiseModel::default(), res, 2);
    let mut o = Point2::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..2 {
            p[i] = if k == n / 2 { lv::real(-0.125, 0.375) } else { v[i] * res };
        }
        pts.push(p);
    }
    m.set_track_changes(true);
    let size = 2 * radius as isize + 8;
    let mut len = 0;
    for round in 1..3 {
        m.integrate_point_cloud(&o, &PointCloud2::from_points(&pts));
        let mut cells = Marks::new(size, 2);
        for p in &pts {
            let (ray, end) = cast_ray(&o, p, &m.grid_map.bounds, res, m.noise_model.max_range);
            for c in ray.into_iter().chain(end) {
                cells.add(c.coords.as_slice());
            }
        }
        let log = m.changed_cells();
        lv::check(log.len() == round * cells.len, "each cell of a large scan is logged (2-D)");
        let (mut logged, mut ok) = (Marks::new(size, 2), true);
        for c in &log[len..] {
            ok &= cells.has(c.coords.as_slice()) && logged.add(c.coords.as_slice());
        }
        lv::check(ok, "the log of a large scan holds its cells once (2-D)");
        len = log.len();
    }
    lv::cover("a large scan (2-D)");
}

/// Scans of many points, through many cells.
//# havoc soft conc_ftoi max_steps=60000000
#[no_mangle]
pub fn h_c17_many3() {
    let (n, radius) = [(130, 8), (300, 12)][lv::case(lv::tier(1, 2))];
    let res = 0.5;
    let mut m = LidarOccupancyGridMap3::new(LidarNoiseModel::default(), res, 2);
    let mut o = Point3::origin();
    o[0] = 0.0625;
    let mut pts = vec![];
    for k in 0..n {
        let v = spread(k, radius);
        let mut p = o;
        for i in 0..3 {
            p[i] = if k != n / 2 { v[i] * res } else if i < 2 { lv::real(-0.125, 0.375) } else { 0.125 };
        }
        pts.push(p);
    }
    m.set_track_changes(true);
    let size = 2 * radius as isize + 8;
    let mut len = 0;
    for round in 1..3 {
        m.integrate_point_cloud(&o, &PointCloud3::from_points(&pts));
        let mut cells = Marks::new(size, 3);
        for p in &pts {
            let (ray, end) = cast_ray(&o, p, &m.grid_map.bounds, res, m.noise_model.max_range);
            for c in ray.into_iter().chain(end) {
                cells.add(c.coords.as_slice());
            }
        }
        let log = m.changed_cells();
        lv::check(log.len() == round * cells.len, "each cell of a large scan is logged (3-D)");
        let (mut logged, mut ok) = (Marks::new(size, 3), true);
        for c in &log[len..] {
            ok &= cells.has(c.coords.as_slice()) && logged.add(c.coords.as_slice());
        }
        lv::check(ok, "the log of a large scan holds its cells once (3-D)");
        len = log.len();
    }
    lv::cover("a large scan (3-D)");
}
