//! C20: a copied grid map equals the original and is independent of it.
use crate::lv;
use kuba::map::{ExpandableGridMap, GridMap};
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2, GridMap3, Point2, Point3};

fn cell2(k: usize) -> Cell2 {
    let mut c = Cell2::origin();
    for i in 0..2 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// A map of two cells per axis holding the given values, after a little history.
fn map2(res: f32, v: &[i32; 4], log: &[Cell2], on: bool) -> GridMap2<i32> {
    let (mut lo, mut hi) = (Point2::origin(), Point2::origin());
    for i in 0..2 {
        lo[i] = (2.0 * i as f32 - 2.0) * res;
        hi[i] = 2.0 * i as f32 * res;
    }
    let mut m = GridMap2::<i32>::new(res, Bounds2::new(lo, hi), 2, 0);
    for k in 0..4 {
        m.set(&cell2(k), v[k]);
    }
    m.set_track_changes(on);
    m.add_changed_cells(log.to_vec());
    m
}
fn is2(m: &GridMap2<i32>, res: f32, v: &[i32; 4], log: &[Cell2], on: bool) {
    let mut same = m.data.len() == 4;
    for i in 0..2 {
        same &= m.data.shape()[i] == 2;
    }
    lv::check(same, "same shape (2-D)");
    for k in 0..4 {
        same &= m.get(&cell2(k)) == v[k];
    }
    lv::check(same, "same values (2-D)");
    same = m.resolution == res && m.tile_size == 2;
    for i in 0..2 {
        same &= m.bounds.min[i] == (2.0 * i as f32 - 2.0) * res && m.bounds.max[i] == 2.0 * i as f32 * res;
    }
    lv::check(same, "same resolution, bounds and tile size (2-D)");
    let now = m.changed_cells();
    same = now.len() == log.len() && m.track_changes() == on;
    lv::check(same, "same tracking switch and log length (2-D)");
    for k in 0..log.len() {
        same &= now[k] == log[k];
    }
    lv::check(same, "same log (2-D)");
}
/// Changes one map in every way an operation can, for each sequence of operations.
fn change2(m: &mut GridMap2<i32>, ops: usize, n: usize) {
    let mut ops = ops;
    for k in 0..n {
        match ops % 6 {
            0 => {
                let mut c = Cell2::origin();
                for i in 0..2 {
                    c[i] = lv::int(0, 1);
                }
                m.set(&c, lv::int(-1000, 1000) as i32);
            }
            1 => {
                let mut b = m.bounds.clone();
                for i in 0..2 {
                    b.min[i] -= m.resolution;
                    b.max[i] += m.resolution * k as f32;
                }
                m.expand_bounds(&b, 9);
            }
            2 => m.add_changed_cells(vec![cell2(1)]),
            3 => m.clear_changed_cells(),
            4 => {
                let on = m.track_changes();
                m.set_track_changes(!on);
            }
            _ => m.data.fill(lv::int(-1000, 1000) as i32),
        }
        ops /= 6;
    }
}
#[no_mangle]
pub fn h_c20_clone2() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let (on, len) = [(false, 0), (true, 2), (false, 2), (true, 1)][lv::case(4)];
    let mut v = [0; 4];
    for x in &mut v {
        *x = lv::int(-1000, 1000) as i32;
    }
    let mut log = vec![];
    for _ in 0..len {
        let mut c = Cell2::origin();
        for i in 0..2 {
            c[i] = lv::int(-1000, 1000);
        }
        log.push(c);
    }
    let mut a = map2(res, &v, &log, on);
    let mut b = a.clone();
    is2(&b, res, &v, &log, on);
    is2(&a, res, &v, &log, on);
    let (ops, n) = (lv::case(lv::tier(36, 216)), lv::tier(2, 3));
    if lv::case(2) == 0 {
        change2(&mut a, ops, n);
        is2(&b, res, &v, &log, on);
        lv::cover("the original changes (2-D)");
    } else {
        change2(&mut b, ops, n);
        is2(&a, res, &v, &log, on);
        lv::cover("the copy changes (2-D)");
    }
}
/// A copy of a map without cells, and of a copy.
#[no_mangle]
pub fn h_c20_empty2() {
    let m = GridMap2::<i32>::default();
    let mut c = m.clone();
    lv::check(c.data.len() == 0 && c.bounds == Bounds2::empty() && c.resolution == m.resolution && c.tile_size == m.tile_size, "empty copy (2-D)");
    let mut b = Bounds2::empty();
    for i in 0..2 {
        b.max[i] = 0.5;
    }
    c.tile_size = 1;
    c.expand_bounds(&b, 1);
    let d = c.clone().clone();
    lv::check(m.data.len() == 0 && m.bounds == Bounds2::empty() && m.tile_size == 100, "the original stays empty (2-D)");
    lv::check(d.data == c.data && d.bounds == c.bounds && d.data.len() > 1, "a copy of a copy (2-D)");
}

fn cell3(k: usize) -> Cell3 {
    let mut c = Cell3::origin();
    for i in 0..3 {
        c[i] = (k as isize >> i) & 1;
    }
    c
}
/// A map of two cells per axis holding the given values, after a little history.
fn map3(res: f32, v: &[i32; 8], log: &[Cell3], on: bool) -> GridMap3<i32> {
    let (mut lo, mut hi) = (Point3::origin(), Point3::origin());
    for i in 0..3 {
        lo[i] = (2.0 * i as f32 - 2.0) * res;
        hi[i] = 2.0 * i as f32 * res;
    }
    let mut m = GridMap3::<i32>::new(res, Bounds3::new(lo, hi), 2, 0);
    for k in 0..8 {
        m.set(&cell3(k), v[k]);
    }
    m.set_track_changes(on);
    m.add_changed_cells(log.to_vec());
    m
}
fn is3(m: &GridMap3<i32>, res: f32, v: &[i32; 8], log: &[Cell3], on: bool) {
    let mut same = m.data.len() == 8;
    for i in 0..3 {
        same &= m.data.shape()[i] == 2;
    }
    lv::check(same, "same shape (3-D)");
    for k in 0..8 {
        same &= m.get(&cell3(k)) == v[k];
    }
    lv::check(same, "same values (3-D)");
    same = m.resolution == res && m.tile_size == 2;
    for i in 0..3 {
        same &= m.bounds.min[i] == (2.0 * i as f32 - 2.0) * res && m.bounds.max[i] == 2.0 * i as f32 * res;
    }
    lv::check(same, "same resolution, bounds and tile size (3-D)");
    let now = m.changed_cells();
    same = now.len() == log.len() && m.track_changes() == on;
    lv::check(same, "same tracking switch and log length (3-D)");
    for k in 0..log.len() {
        same &= now[k] == log[k];
    }
    lv::check(same, "same log (3-D)");
}
/// Changes one map in every way an operation can, for each sequence of operations.
fn change3(m: &mut GridMap3<i32>, ops: usize, n: usize) {
    let mut ops = ops;
    for k in 0..n {
        match ops % 6 {
            0 => {
                let mut c = Cell3::origin();
                for i in 0..3 {
                    c[i] = lv::int(0, 1);
                }
                m.set(&c, lv::int(-1000, 1000) as i32);
            }
            1 => {
                let mut b = m.bounds.clone();
                for i in 0..3 {
                    b.min[i] -= m.resolution;
                    b.max[i] += m.resolution * k as f32;
                }
                m.expand_bounds(&b, 9);
            }
            2 => m.add_changed_cells(vec![cell3(1)]),
            3 => m.clear_changed_cells(),
            4 => {
                let on = m.track_changes();
                m.set_track_changes(!on);
            }
            _ => m.data.fill(lv::int(-1000, 1000) as i32),
        }
        ops /= 6;
    }
}
#[no_mangle]
pub fn h_c20_clone3() {
    let res = [0.5, 0.1][lv::case(lv::tier(1, 2))];
    let (on, len) = [(false, 0), (true, 2), (false, 2), (true, 1)][lv::case(4)];
    let mut v = [0; 8];
    for x in &mut v {
        *x = lv::int(-1000, 1000) as i32;
    }
    let mut log = vec![];
    for _ in 0..len {
        let mut c = Cell3::origin();
        for i in 0..3 {
            c[i] = lv::int(-1000, 1000);
        }
        log.push(c);
    }
    let mut a = map3(res, &v, &log, on);
    let mut b = a.clone();
    is3(&b, res, &v, &log, on);
    is3(&a, res, &v, &log, on);
    let (ops, n) = (lv::case(lv::tier(36, 216)), lv::tier(2, 3));
    if lv::case(2) == 0 {
        change3(&mut a, ops, n);
        is3(&b, res, &v, &log, on);
        lv::cover("the original changes (3-D)");
    } else {
        change3(&mut b, ops, n);
        is3(&a, res, &v, &log, on);
        lv::cover("the copy changes (3-D)");
    }
}
/// A copy of a map without cells, and of a copy.
#[no_mangle]
pub fn h_c20_empty3() {
    let m = GridMap3::<i32>::default();
    let mut c = m.clone();
    lv::check(c.data.len() == 0 && c.bounds == Bounds3::empty() && c.resolution == m.resolution && c.tile_size == m.tile_size, "empty copy (3-D)");
    let mut b = Bounds3::empty();
    for i in 0..3 {
        b.max[i] = 0.5;
    }
    c.tile_size = 1;
    c.expand_bounds(&b, 1);
    let d = c.clone().clone();
    lv::check(m.data.len() == 0 && m.bounds == Bounds3::empty() && m.tile_size == 100, "the original stays empty (3-D)");
    lv::check(d.data == c.data && d.bounds == c.bounds && d.data.len() > 1, "a copy of a copy (3-D)");
}
