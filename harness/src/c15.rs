//! C15: a hit or miss moves one cell by the model's step, clamped.
use crate::lv;
use kuba::map::GridMap;
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2f, GridMap3f, LidarNoiseModel, Point2, Point3};

/// Every model whose settings are numbers.
fn model() -> LidarNoiseModel {
    let n = LidarNoiseModel {
        hit_probability_logodds: lv::any_f32(),
        miss_probability_logodds: lv::any_f32(),
        min_probability_logodds: lv::any_f32(),
        max_probability_logodds: lv::any_f32(),
        occupied_threshold_logodds: lv::any_f32(),
        max_range: 60.0,
    };
    lv::assume(!n.hit_probability_logodds.is_nan() && !n.miss_probability_logodds.is_nan());
    lv::assume(!n.min_probability_logodds.is_nan() && !n.max_probability_logodds.is_nan());
    n
}
fn finite() -> f32 {
    let v = lv::any_f32();
    lv::assume(v.abs() < std::f32::INFINITY);
    v
}

/// A map of two cells per axis, all of any value (NaN included), but the updated one finite.
fn map2(cell: &Cell2) -> (GridMap2f, Vec<(Cell2, f32)>) {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        lo[i] = -1.0;
        hi[i] = 1.0;
    }
    let mut m = GridMap2f::new(1.0, Bounds2::new(lo, hi), 1, 0.0);
    let mut all = vec![];
    for k in 0..4 {
        let mut c = Cell2::origin();
        for i in 0..2 {
            c[i] = (k >> i) & 1;
        }
        let v = if c == *cell { finite() } else { lv::any_f32() };
        m.set(&c, v);
        all.push((c, v));
    }
    (m, all)
}
fn others2(m: &GridMap2f, all: &[(Cell2, f32)], cell: &Cell2) {
    let mut same = true;
    for (c, v) in all {
        same &= c == cell || m.get(c).to_bits() == v.to_bits();
    }
    lv::check(same, "no other cell changes (2-D)");
    lv::check(m.changed_cells().is_empty(), "the change log stays as it is (2-D)");
    lv::check(!m.get(cell).is_nan(), "no finite value becomes NaN (2-D)");
}
fn pick2() -> Cell2 {
    let mut c = Cell2::origin();
    let k = lv::case(4) as isize;
    for i in 0..2 {
        c[i] = (k >> i) & 1;
    }
    c
}
#[no_mangle]
pub fn h_c15_hit2() {
    let n = model();
    let c = pick2();
    let (mut m, all) = map2(&c);
    let old = m.get(&c);
    n.integrate_hit(&mut m, &c);
    let sum = old + n.hit_probability_logodds;
    let max = n.max_probability_logodds;
    lv::check(m.get(&c) == if sum < max { sum } else { max }, "a hit adds the hit step, capped (2-D)");
    others2(&m, &all, &c);
    if sum < max {
        lv::cover("below the maximum (2-D)");
    } else {
        lv::cover("capped (2-D)");
    }
}
#[no_mangle]
pub fn h_c15_miss2() {
    let n = model();
    let c = pick2();
    let (mut m, all) = map2(&c);
    let old = m.get(&c);
    n.integrate_miss(&mut m, &c);
    let sum = old + n.miss_probability_logodds;
    let min = n.min_probability_logodds;
    lv::check(m.get(&c) == if sum > min { sum } else { min }, "a miss adds the miss step, floored (2-D)");
    others2(&m, &all, &c);
    if sum > min {
        lv::cover("above the minimum (2-D)");
    } else {
        lv::cover("floored (2-D)");
    }
}
/// Histories of updates: a value inside the limits stays there, hits never lower it and misses never raise it.
#[no_mangle]
pub fn h_c15_history2() {
    let n = model();
    let (min, max) = (n.min_probability_logodds, n.max_probability_logodds);
    lv::assume(n.hit_probability_logodds >= 0.0 && n.miss_probability_logodds <= 0.0);
    let len = lv::tier(2, 4);
    let ops = lv::case(lv::tier(4, 16));
    let mut c = Cell2::origin();
    c[2 - 1] = 1;
    let mut hi = Point2::origin();
    for i in 0..2 {
        hi[i] = 2.0;
    }
    let mut m = GridMap2f::new(1.0, Bounds2::new(Point2::origin(), hi), 1, 0.0);
    let v = finite();
    lv::assume(min <= v && v <= max);
    m.set(&c, v);
    for k in 0..len {
        let old = m.get(&c);
        if (ops >> k) & 1 == 1 {
            n.integrate_hit(&mut m, &c);
            lv::check(m.get(&c) >= old, "a hit never lowers a value (2-D)");
        } else {
            n.integrate_miss(&mut m, &c);
            lv::check(m.get(&c) <= old, "a miss never raises a value (2-D)");
        }
        let new = m.get(&c);
        lv::check(min <= new && new <= max, "a value inside the limits stays inside (2-D)");
        lv::check(!new.is_nan(), "no NaN appears (2-D)");
    }
    lv::cover("a history (2-D)");
}

/// A map of two cells per axis, all of any value (NaN included), but the updated one finite.
fn map3(cell: &Cell3) -> (GridMap3f, Vec<(Cell3, f32)>) {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        lo[i] = -1.0;
        hi[i] = 1.0;
    }
    let mut m = GridMap3f::new(1.0, Bounds3::new(lo, hi), 1, 0.0);
    let mut all = vec![];
    for k in 0..8 {
        let mut c = Cell3::origin();
        for i in 0..3 {
            c[i] = (k >> i) & 1;
        }
        let v = if c == *cell { finite() } else { lv::any_f32() };
        m.set(&c, v);
        all.push((c, v));
    }
    (m, all)
}
fn others3(m: &GridMap3f, all: &[(Cell3, f32)], cell: &Cell3) {
    let mut same = true;
    for (c, v) in all {
        same &= c == cell || m.get(c).to_bits() == v.to_bits();
    }
    lv::check(same, "no other cell changes (3-D)");
    lv::check(m.changed_cells().is_empty(), "the change log stays as it is (3-D)");
    lv::check(!m.get(cell).is_nan(), "no finite value becomes NaN (3-D)");
}
fn pick3() -> Cell3 {
    let mut c = Cell3::origin();
    let k = lv::case(8) as isize;
    for i in 0..3 {
        c[i] = (k >> i) & 1;
    }
    c
}
#[no_mangle]
pub fn h_c15_hit3() {
    let n = model();
    let c = pick3();
    let (mut m, all) = map3(&c);
    let old = m.get(&c);
    n.integrate_hit(&mut m, &c);
    let sum = old + n.hit_probability_logodds;
    let max = n.max_probability_logodds;
    lv::check(m.get(&c) == if sum < max { sum } else { max }, "a hit adds the hit step, capped (3-D)");
    others3(&m, &all, &c);
    if sum < max {
        lv::cover("below the maximum (3-D)");
    } else {
        lv::cover("capped (3-D)");
    }
}
#[no_mangle]
pub fn h_c15_miss3() {
    let n = model();
    let c = pick3();
    let (mut m, all) = map3(&c);
    let old = m.get(&c);
    n.integrate_miss(&mut m, &c);
    let sum = old + n.miss_probability_logodds;
    let min = n.min_probability_logodds;
    lv::check(m.get(&c) == if sum > min { sum } else { min }, "a miss adds the miss step, floored (3-D)");
    others3(&m, &all, &c);
    if sum > min {
        lv::cover("above the minimum (3-D)");
    } else {
        lv::cover("floored (3-D)");
    }
}
/// Histories of updates: a value inside the limits stays there, hits never lower it and misses never raise it.
#[no_mangle]
pub fn h_c15_history3() {
    let n = model();
    let (min, max) = (n.min_probability_logodds, n.max_probability_logodds);
    lv::assume(n.hit_probability_logodds >= 0.0 && n.miss_probability_logodds <= 0.0);
    let len = lv::tier(2, 4);
    let ops = lv::case(lv::tier(4, 16));
    let mut c = Cell3::origin();
    c[3 - 1] = 1;
    let mut hi = Point3::origin();
    for i in 0..3 {
        hi[i] = 2.0;
    }
    let mut m = GridMap3f::new(1.0, Bounds3::new(Point3::origin(), hi), 1, 0.0);
    let v = finite();
    lv::assume(min <= v && v <= max);
    m.set(&c, v);
    for k in 0..len {
        let old = m.get(&c);
        if (ops >> k) & 1 == 1 {
            n.integrate_hit(&mut m, &c);
            lv::check(m.get(&c) >= old, "a hit never lowers a value (3-D)");
        } else {
            n.integrate_miss(&mut m, &c);
            lv::check(m.get(&c) <= old, "a miss never raises a value (3-D)");
        }
        let new = m.get(&c);
        lv::check(min <= new && new <= max, "a value inside the limits stays inside (3-D)");
        lv::check(!new.is_nan(), "no NaN appears (3-D)");
    }
    lv::cover("a history (3-D)");
}
