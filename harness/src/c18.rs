//! C18: a cell is occupied exactly when its log-odds exceed the threshold; building a model.
use crate::lv;
use kuba::map::{GridMap, NoiseModel};
use kuba::math::logodds_from_probability;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2f, GridMap3f, LidarNoiseModel, LidarOccupancyGridMap2, LidarOccupancyGridMap3, Point2, Point3};

fn good(p: f32) -> bool {
    p >= 0.0 && p <= 1.0
}
/// Each probability in turn is any number in [0, 1]; the others differ.
#[no_mangle]
pub fn h_c18_new() {
    let mut p = [0.8, 0.3, 0.15, 0.95, 0.6];
    let x = lv::any_f32();
    lv::assume(good(x));
    p[lv::case(5)] = x;
    let range = lv::any_f32();
    let n = LidarNoiseModel::new(p[0], p[1], p[2], p[3], p[4], range);
    let got = [
        n.hit_probability_logodds,
        n.miss_probability_logodds,
        n.min_probability_logodds,
        n.max_probability_logodds,
        n.occupied_threshold_logodds,
    ];
    for k in 0..5 {
        lv::check(got[k] == logodds_from_probability(p[k]), "each setting is the log-odds of its probability");
    }
    lv::check(n.max_range.to_bits() == range.to_bits(), "the range limit is stored unchanged");
    lv::cover("a model");
}
/// One probability is not a number in [0, 1], the others are.
#[no_mangle]
pub fn h_c18_reject() {
    let k = lv::case(5);
    let mut p = [0.0; 5];
    for i in 0..5 {
        p[i] = lv::any_f32();
        lv::assume(good(p[i]) == (i != k));
    }
    lv::cover("a probability out of range");
    lv::expect_panic("a probability that is not a number in [0, 1] is rejected");
    LidarNoiseModel::new(p[0], p[1], p[2], p[3], p[4], 60.0);
}
/// The defaults.
#[no_mangle]
pub fn h_c18_default() {
    let n = LidarNoiseModel::default();
    lv::check(n.miss_probability_logodds < 0.0 && n.hit_probability_logodds > 0.0, "default steps");
    let v = <LidarNoiseModel as NoiseModel<nalgebra::U2, ndarray::Ix2>>::default_cell_value(&n);
    lv::check(v == 0.0, "a default cell is unknown");
    let d = <LidarNoiseModel as NoiseModel<nalgebra::U3, ndarray::Ix3>>::default_noise_model();
    lv::check(d.occupied_threshold_logodds == n.occupied_threshold_logodds && d.max_range == n.max_range, "default model");
}

fn map2(v: &[f32]) -> GridMap2f {
    let mut hi = Point2::origin();
    for i in 0..2 {
        hi[i] = 2.0;
    }
    let mut m = GridMap2f::new(1.0, Bounds2::new(Point2::origin(), hi), 1, 0.0);
    for k in 0..4 {
        m.set(&cell2(k), v[k]);
    }
    m
}
fn cell2(k: usize) -> Cell2 {
    let mut c = Cell2::origin();
    for i in 0..2 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// Every model and every value of every cell, through the model and through an occupancy map.
#[no_mangle]
pub fn h_c18_occupied2() {
    let mut n = LidarNoiseModel::default();
    n.hit_probability_logodds = lv::any_f32();
    n.miss_probability_logodds = lv::any_f32();
    n.min_probability_logodds = lv::any_f32();
    n.max_probability_logodds = lv::any_f32();
    n.occupied_threshold_logodds = lv::any_f32();
    let mut v = [0.0; 4];
    for x in &mut v {
        *x = lv::any_f32();
    }
    let k = lv::case(4);
    let t = n.occupied_threshold_logodds;
    let g = map2(&v);
    lv::check(n.occupied(&g, &cell2(k)) == (v[k] > t), "occupied exactly above the threshold (2-D)");
    let mut m = LidarOccupancyGridMap2::new(n, 1.0, 1);
    m.grid_map = g;
    lv::check(m.occupied(&cell2(k)) == (v[k] > t), "occupied exactly above the threshold, map (2-D)");
    if v[k] > t {
        lv::cover("occupied (2-D)");
    } else {
        lv::cover("not occupied (2-D)");
    }
}
/// A default cell of a default map is not occupied.
#[no_mangle]
pub fn h_c18_unknown2() {
    let mut m = LidarOccupancyGridMap2::default();
    m.grid_map = map2(&[<LidarNoiseModel as NoiseModel<nalgebra::U2, ndarray::Ix2>>::default_cell_value(&m.noise_model); 4]);
    let k = lv::case(4);
    lv::check(m.get(&cell2(k)) == 0.0 && !m.occupied(&cell2(k)), "a default cell is not occupied (2-D)");
}

fn map3(v: &[f32]) -> GridMap3f {
    let mut hi = Point3::origin();
    for i in 0..3 {
        hi[i] = 2.0;
    }
    let mut m = GridMap3f::new(1.0, Bounds3::new(Point3::origin(), hi), 1, 0.0);
    for k in 0..8 {
        m.set(&cell3(k), v[k]);
    }
    m
}
fn cell3(k: usize) -> Cell3 {
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// Every model and every value of every cell, through the model and through an occupancy map.
#[no_mangle]
pub fn h_c18_occupied3() {
    let mut n = LidarNoiseModel::default();
    n.hit_probability_logodds = lv::any_f32();
    n.miss_probability_logodds = lv::any_f32();
    n.min_probability_logodds = lv::any_f32();
    n.max_probability_logodds = lv::any_f32();
    n.occupied_threshold_logodds = lv::any_f32();
    let mut v = [0.0; 8];
    for x in &mut v {
        *x = lv::any_f32();
    }
    let k = lv::case(8);
    let t = n.occupied_threshold_logodds;
    let g = map3(&v);
    lv::check(n.occupied(&g, &cell3(k)) == (v[k] > t), "occupied exactly above the threshold (3-D)");
    let mut m = LidarOccupancyGridMap3::new(n, 1.0, 1);
    m.grid_map = g;
    lv::check(m.occupied(&cell3(k)) == (v[k] > t), "occupied exactly above the threshold, map (3-D)");
    if v[k] > t {
        lv::cover("occupied (3-D)");
    } else {
        lv::cover("not occupied (3-D)");
    }
}
/// A default cell of a default map is not occupied.
#[no_mangle]
pub fn h_c18_unknown3() {
    let mut m = LidarOccupancyGridMap3::default();
    m.grid_map = map3(&[<LidarNoiseModel as NoiseModel<nalgebra::U3, ndarray::Ix3>>::default_cell_value(&m.noise_model); 8]);
    let k = lv::case(8);
    lv::check(m.get(&cell3(k)) == 0.0 && !m.occupied(&cell3(k)), "a default cell is not occupied (3-D)");
}
