//! C19: an occupancy map behaves as its grid map and noise model do.
use crate::lv;
use kuba::map::{GridMap, NoiseModel};
use kuba::{
    Bounds2, Bounds3, Cell2, Cell3, GridMap2f, GridMap3f, LidarNoiseModel, LidarOccupancyGridMap2, LidarOccupancyGridMap3,
    Point2, Point3, PointCloud2, PointCloud3,
};

fn model(t: f32) -> LidarNoiseModel {
    LidarNoiseModel {
        hit_probability_logodds: 0.75,
        miss_probability_logodds: -0.5,
        min_probability_logodds: -2.0,
        max_probability_logodds: 3.5,
        occupied_threshold_logodds: t,
        max_range: 40.0,
    }
}
const SCAN: [[f32; 3]; 3] = [[1.5, -1.0, 0.5], [-1.0, -2.0, 1.0], [1.5, -1.0, 0.5]];

fn cell2(k: usize) -> Cell2 {
    let mut c = Cell2::origin();
    for i in 0..2 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// An occupancy map around a grid map of two cells per axis, and a copy of that grid map.
fn pair2(res: f32, v: &[f32; 4], t: f32) -> (LidarOccupancyGridMap2, GridMap2f) {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        lo[i] = (i as f32 - 1.0) * res;
        hi[i] = (i as f32 + 1.0) * res;
    }
    let mut g = GridMap2f::new(res, Bounds2::new(lo, hi), 3, 0.0);
    for k in 0..4 {
        g.set(&cell2(k), v[k]);
    }
    let mut m = LidarOccupancyGridMap2::new(model(t), res, 3);
    m.grid_map = g.clone();
    (m, g)
}
fn same_log2(m: &LidarOccupancyGridMap2, g: &GridMap2f) {
    let (a, b) = (m.changed_cells(), g.changed_cells());
    lv::check(m.track_changes() == g.track_changes(), "same tracking switch (2-D)");
    lv::check(a.len() == b.len() && a == m.grid_map.changed_cells(), "same change log (2-D)");
    let mut same = true;
    for k in 0..b.len() {
        same &= a[k] == b[k];
    }
    lv::check(same, "same change log entries (2-D)");
}
#[no_mangle]
pub fn h_c19_new2() {
    let t = lv::any_f32();
    let res = lv::fix(1, 1 << 20, 10);
    let tile = lv::int(1, 1 << 40) as usize;
    let m = LidarOccupancyGridMap2::new(model(t), res, tile);
    lv::check(m.grid_map.data.len() == 0 && m.bounds() == Bounds2::empty(), "a new map is empty (2-D)");
    lv::check(m.resolution() == res && m.grid_map.resolution == res, "a new map has the given resolution (2-D)");
    lv::check(m.grid_map.tile_size == tile, "a new map has the given tile size (2-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a new map tracks nothing (2-D)");
    lv::check(m.noise_model.occupied_threshold_logodds.to_bits() == t.to_bits() && m.noise_model.max_range == 40.0, "a new map has the given model (2-D)");
    let d = LidarOccupancyGridMap2::default();
    let n = LidarNoiseModel::default();
    lv::check(d.resolution() == kuba::map::grid_map::DEFAULT_RESOLUTION && d.grid_map.tile_size == kuba::map::grid_map::DEFAULT_TILE_SIZE
        && d.grid_map.data.len() == 0 && d.bounds() == Bounds2::empty(), "default map (2-D)");
    lv::check(d.noise_model.hit_probability_logodds == n.hit_probability_logodds
        && d.noise_model.miss_probability_logodds == n.miss_probability_logodds
        && d.noise_model.min_probability_logodds == n.min_probability_logodds
        && d.noise_model.max_probability_logodds == n.max_probability_logodds
        && d.noise_model.occupied_threshold_logodds == n.occupied_threshold_logodds
        && d.noise_model.max_range == n.max_range, "default model (2-D)");
}
/// Reading, writing, occupancy: any values.
#[no_mangle]
pub fn h_c19_cells2() {
    let res = 0.1;
    let mut v = [0.0; 4];
    for x in &mut v {
        *x = lv::any_f32();
    }
    let t = lv::any_f32();
    let (mut m, mut g) = pair2(res, &v, t);
    let k = lv::case(4);
    let n = model(t);
    let x = lv::any_f32();
    m.set(&cell2(k), x);
    g.set(&cell2(k), x);
    for j in 0..4 {
        let c = cell2(j);
        lv::check(m.get(&c).to_bits() == g.get(&c).to_bits() && m.grid_map.get(&c).to_bits() == g.get(&c).to_bits(), "same values (2-D)");
    }
    let c = cell2(lv::case(4));
    lv::check(m.occupied(&c) == <LidarNoiseModel as NoiseModel<nalgebra::U2, ndarray::Ix2>>::occupied(&n, &g, &c), "same occupancy (2-D)");
    same_log2(&m, &g);
}
/// Cells outside the map are rejected as they are by the grid map.
#[no_mangle]
pub fn h_c19_outside2() {
    let (mut m, _g) = pair2(1.0, &[0.0; 4], 0.0);
    let mut c = Cell2::origin();
    let mut out = false;
    for i in 0..2 {
        c[i] = lv::int(-(1 << 40), 1 << 40);
        out |= c[i] < 0 || c[i] > 1;
    }
    lv::assume(out);
    let write = lv::case(2) == 0;
    lv::expect_panic("a cell outside the map is rejected (2-D)");
    if write {
        m.set(&c, 1.0);
    } else {
        m.get(&c);
    }
}
//# conc_ftoi
#[no_mangle]
pub fn h_c19_frame2() {
    let res = [0.1, 1.0, 0.3][lv::case(3)];
    let (m, g) = pair2(res, &[0.0; 4], 0.0);
    lv::check(m.resolution() == g.resolution() && m.bounds() == g.bounds(), "same frame (2-D)");
    let (mut p, mut c) = (Point2::origin(), Cell2::origin());
    for i in 0..2 {
        p[i] = lv::fix(-24, 24, 5);
        c[i] = lv::int(-1000, 1000);
    }
    lv::check(m.cell_from_point(&p) == g.cell_from_point(&p), "same cell of a point (2-D)");
    lv::check(m.point_from_cell(&c) == g.point_from_cell(&c), "same point of a cell (2-D)");
}
/// Histories of log operations applied to both.
#[no_mangle]
pub fn h_c19_log2() {
    let (mut m, mut g) = pair2(0.5, &[0.0; 4], 0.0);
    let mut ops = lv::case(lv::tier(64, 256));
    for _ in 0..lv::tier(3, 4) {
        let mut c = Cell2::origin();
        for i in 0..2 {
            c[i] = lv::int(-100, 100);
        }
        match ops % 4 {
            0 => {
                m.add_changed_cells(vec![c, c]);
                g.add_changed_cells(vec![c, c]);
            }
            1 => {
                m.clear_changed_cells();
                g.clear_changed_cells();
            }
            k => {
                m.set_track_changes(k == 2);
                g.set_track_changes(k == 2);
            }
        }
        ops /= 4;
        same_log2(&m, &g);
    }
    lv::cover("a history (2-D)");
}
/// A scan into the occupancy map and, by the model, into the copy.
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c19_scan2() {
    let res = [1.0, 0.5][lv::case(2)];
    let axis = lv::case(2);
    let mut v = [0.25; 4];
    v[1] = 3.25;
    v[2] = -1.75;
    let (mut m, mut g) = pair2(res, &v, 0.0);
    let on = lv::case(2) == 1;
    m.set_track_changes(on);
    g.set_track_changes(on);
    let w = lv::tier(6, 16);
    let mut o = Point2::origin();
    o[axis] = lv::fix(-w, w, 2) * res;
    let mut pts = vec![];
    for v in &SCAN {
        let mut p = o;
        for i in 0..2 {
            p[i] = o[i] + v[i] * res;
        }
        pts.push(p);
    }
    let cloud = PointCloud2::from_points(&pts[..lv::case(4)]);
    m.integrate_point_cloud(&o, &cloud);
    model(0.0).integrate_point_cloud(&mut g, &o, &cloud);
    lv::check(m.bounds() == g.bounds && m.resolution() == g.resolution && m.grid_map.tile_size == g.tile_size, "same frame after a scan (2-D)");
    lv::check(m.grid_map.data == g.data, "same values after a scan (2-D)");
    let (a, b) = (m.changed_cells(), g.changed_cells());
    lv::check(a.len() == b.len() && on == m.track_changes(), "same log after a scan (2-D)");
    for c in &b {
        lv::check(a.contains(c), "same log entries after a scan (2-D)");
    }
    if g.data.len() > 4 {
        lv::cover("a scan that grows the map (2-D)");
    }
}

fn cell3(k: usize) -> Cell3 {
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// An occupancy map around a grid map of two cells per axis, and a copy of that grid map.
fn pair3(res: f32, v: &[f32; 8], t: f32) -> (LidarOccupancyGridMap3, GridMap3f) {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        lo[i] = (i as f32 - 1.0) * res;
        hi[i] = (i as f32 + 1.0) * res;
    }
    let mut g = GridMap3f::new(res, Bounds3::new(lo, hi), 3, 0.0);
    for k in 0..8 {
        g.set(&cell3(k), v[k]);
    }
    let mut m = LidarOccupancyGridMap3::new(model(t), res, 3);
    m.grid_map = g.clone();
    (m, g)
}
fn same_log3(m: &LidarOccupancyGridMap3, g: &GridMap3f) {
    let (a, b) = (m.changed_cells(), g.changed_cells());
    lv::check(m.track_changes() == g.track_changes(), "same tracking switch (3-D)");
    lv::check(a.len() == b.len() && a == m.grid_map.changed_cells(), "same change log (3-D)");
    let mut same = true;
    for k in 0..b.len() {
        same &= a[k] == b[k];
    }
    lv::check(same, "same change log entries (3-D)");
}
#[no_mangle]
pub fn h_c19_new3() {
    let t = lv::any_f32();
    let res = lv::fix(1, 1 << 20, 10);
    let tile = lv::int(1, 1 << 40) as usize;
    let m = LidarOccupancyGridMap3::new(model(t), res, tile);
    lv::check(m.grid_map.data.len() == 0 && m.bounds() == Bounds3::empty(), "a new map is empty (3-D)");
    lv::check(m.resolution() == res && m.grid_map.resolution == res, "a new map has the given resolution (3-D)");
    lv::check(m.grid_map.tile_size == tile, "a new map has the given tile size (3-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a new map tracks nothing (3-D)");
    lv::check(m.noise_model.occupied_threshold_logodds.to_bits() == t.to_bits() && m.noise_model.max_range == 40.0, "a new map has the given model (3-D)");
    let d = LidarOccupancyGridMap3::default();
    let n = LidarNoiseModel::default();
    lv::check(d.resolution() == kuba::map::grid_map::DEFAULT_RESOLUTION && d.grid_map.tile_size == kuba::map::grid_map::DEFAULT_TILE_SIZE
        && d.grid_map.data.len() == 0 && d.bounds() == Bounds3::empty(), "default map (3-D)");
    lv::check(d.noise_model.hit_probability_logodds == n.hit_probability_logodds
        && d.noise_model.miss_probability_logodds == n.miss_probability_logodds
        && d.noise_model.min_probability_logodds == n.min_probability_logodds
        && d.noise_model.max_probability_logodds == n.max_probability_logodds
        && d.noise_model.occupied_threshold_logodds == n.occupied_threshold_logodds
        && d.noise_model.max_range == n.max_range, "default model (3-D)");
}
/// Reading, writing, occupancy: any values.
#[no_mangle]
pub fn h_c19_cells3() {
    let res = 0.1;
    let mut v = [0.0; 8];
    for x in &mut v {
        *x = lv::any_f32();
    }
    let t = lv::any_f32();
    let (mut m, mut g) = pair3(res, &v, t);
    let k = lv::case(8);
    let n = model(t);
    let x = lv::any_f32();
    m.set(&cell3(k), x);
    g.set(&cell3(k), x);
    for j in 0..8 {
        let c = cell3(j);
        lv::check(m.get(&c).to_bits() == g.get(&c).to_bits() && m.grid_map.get(&c).to_bits() == g.get(&c).to_bits(), "same values (3-D)");
    }
    let c = cell3(lv::case(8));
    lv::check(m.occupied(&c) == <LidarNoiseModel as NoiseModel<nalgebra::U3, ndarray::Ix3>>::occupied(&n, &g, &c), "same occupancy (3-D)");
    same_log3(&m, &g);
}
/// Cells outside the map are rejected as they are by the grid map.
#[no_mangle]
pub fn h_c19_outside3() {
    let (mut m, _g) = pair3(1.0, &[0.0; 8], 0.0);
    let mut c = Cell3::origin();
    let mut out = false;
    for i in 0..3 {
        c[i] = lv::int(-(1 << 40), 1 << 40);
        out |= c[i] < 0 || c[i] > 1;
    }
    lv::assume(out);
    let write = lv::case(2) == 0;
    lv::expect_panic("a cell outside the map is rejected (3-D)");
    if write {
        m.set(&c, 1.0);
    } else {
        m.get(&c);
    }
}
//# conc_ftoi
#[no_mangle]
pub fn h_c19_frame3() {
    let res = [0.1, 1.0, 0.3][lv::case(3)];
    let (m, g) = pair3(res, &[0.0; 8], 0.0);
    lv::check(m.resolution() == g.resolution() && m.bounds() == g.bounds(), "same frame (3-D)");
    let (mut p, mut c) = (Point3::origin(), Cell3::origin());
    for i in 0..3 {
        p[i] = lv::fix(-24, 24, 5);
        c[i] = lv::int(-1000, 1000);
    }
    lv::check(m.cell_from_point(&p) == g.cell_from_point(&p), "same cell of a point (3-D)");
    lv::check(m.point_from_cell(&c) == g.point_from_cell(&c), "same point of a cell (3-D)");
}
/// Histories of log operations applied to both.
#[no_mangle]
pub fn h_c19_log3() {
    let (mut m, mut g) = pair3(0.5, &[0.0; 8], 0.0);
    let mut ops = lv::case(lv::tier(64, 256));
    for _ in 0..lv::tier(3, 4) {
        let mut c = Cell3::origin();
        for i in 0..3 {
            c[i] = lv::int(-100, 100);
        }
        match ops % 4 {
            0 => {
                m.add_changed_cells(vec![c, c]);
                g.add_changed_cells(vec![c, c]);
            }
            1 => {
                m.clear_changed_cells();
                g.clear_changed_cells();
            }
            k => {
                m.set_track_changes(k == 2);
                g.set_track_changes(k == 2);
            }
        }
        ops /= 4;
        same_log3(&m, &g);
    }
    lv::cover("a history (3-D)");
}
/// A scan into the occupancy map and, by the model, into the copy.
//# conc_ftoi max_steps=3000000
#[no_mangle]
pub fn h_c19_scan3() {
    let res = [1.0, 0.5][lv::case(2)];
    let axis = lv::case(3);
    let mut v = [0.25; 8];
    v[1] = 3.25;
    v[2] = -1.75;
    let (mut m, mut g) = pair3(res, &v, 0.0);
    let on = lv::case(2) == 1;
    m.set_track_changes(on);
    g.set_track_changes(on);
    let w = lv::tier(6, 16);
    let mut o = Point3::origin();
    o[axis] = lv::fix(-w, w, 2) * res;
    let mut pts = vec![];
    for v in &SCAN {
        let mut p = o;
        for i in 0..3 {
            p[i] = o[i] + v[i] * res;
        }
        pts.push(p);
    }
    let cloud = PointCloud3::from_points(&pts[..lv::case(4)]);
    m.integrate_point_cloud(&o, &cloud);
    model(0.0).integrate_point_cloud(&mut g, &o, &cloud);
    lv::check(m.bounds() == g.bounds && m.resolution() == g.resolution && m.grid_map.tile_size == g.tile_size, "same frame after a scan (3-D)");
    lv::check(m.grid_map.data == g.data, "same values after a scan (3-D)");
    let (a, b) = (m.changed_cells(), g.changed_cells());
    lv::check(a.len() == b.len() && on == m.track_changes(), "same log after a scan (3-D)");
    for c in &b {
        lv::check(a.contains(c), "same log entries after a scan (3-D)");
    }
    if g.data.len() > 8 {
        lv::cover("a scan that grows the map (3-D)");
    }
}
