//! C28: a map made from an array holds that array's elements; a default map is empty.
use crate::lv;
use kuba::map::{ExpandableGridMap, GridMap, DEFAULT_RESOLUTION, DEFAULT_TILE_SIZE};
use kuba::{Bounds2, Bounds3, Cell2, Cell3, GridMap2, GridMap3, Point2, Point3};
use ndarray::{Array, ShapeBuilder};

const D2: [[usize; 2]; 3] = [[3, 2], [1, 4], [2, 3]];
const D3: [[usize; 3]; 3] = [[2, 1, 3], [1, 3, 2], [2, 2, 2]];

/// Where a default map is grown to (C10 has boxes anywhere).
const AT: [f32; 4] = [-2.34, 0.0, 0.05, 7.9];

fn vals(n: usize) -> Vec<i32> {
    (0..n).map(|_| lv::int(-2147483648, 2147483647) as i32).collect()
}
/// The array's elements are the map's cells, whatever the array's memory layout.
#[no_mangle]
pub fn h_c28_array2() {
    let d = D2[lv::case(3)];
    let res = lv::RES[lv::case(6)];
    let order = lv::case(2);
    let v = vals(d[0] * d[1]);
    let a = Array::from_shape_vec((d[0], d[1]).set_f(order == 1), v.clone()).unwrap();
    let m0 = lv::int(-1000, 1000);
    let lo = Point2::new(m0 as f32 * res, res);
    let hi = Point2::new((m0 + d[0] as isize) as f32 * res, (1 + d[1]) as f32 * res);
    let tile = lv::int(1, 1000) as usize;
    let mut m = GridMap2::<i32>::from_ndarray(a, res, Bounds2::new(lo, hi), tile);
    let at = |x: usize, y: usize| v[if order == 1 { y * d[0] + x } else { x * d[1] + y }];
    for x in 0..d[0] {
        for y in 0..d[1] {
            lv::check(m.get(&Cell2::new(x as isize, y as isize)) == at(x, y), "each cell holds the array's element at its index (2-D)");
        }
    }
    lv::check(m.resolution() == res && m.tile_size == tile, "resolution and tile size are as given (2-D)");
    lv::check(m.bounds().min == lo && m.bounds().max == hi, "the bounds are as given (2-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "nothing is tracked (2-D)");
    let w = Cell2::new(lv::int(0, d[0] as i64 - 1), lv::int(0, d[1] as i64 - 1));
    m.set(&w, 12345);
    for x in 0..d[0] {
        for y in 0..d[1] {
            let c = Cell2::new(x as isize, y as isize);
            lv::check(m.get(&c) == if c == w { 12345 } else { at(x, y) }, "a write changes one cell (2-D)");
        }
    }
}
#[no_mangle]
pub fn h_c28_array3() {
    let d = D3[lv::case(3)];
    let res = lv::RES[lv::case(6)];
    let order = lv::case(2);
    let v = vals(d[0] * d[1] * d[2]);
    let a = Array::from_shape_vec((d[0], d[1], d[2]).set_f(order == 1), v.clone()).unwrap();
    let m0 = lv::int(-1000, 1000);
    let lo = Point3::new(m0 as f32 * res, res, 0.0);
    let hi = Point3::new((m0 + d[0] as isize) as f32 * res, (1 + d[1]) as f32 * res, d[2] as f32 * res);
    let tile = lv::int(1, 1000) as usize;
    let mut m = GridMap3::<i32>::from_ndarray(a, res, Bounds3::new(lo, hi), tile);
    let at = |x: usize, y: usize, z: usize| {
        v[if order == 1 { (z * d[1] + y) * d[0] + x } else { (x * d[1] + y) * d[2] + z }]
    };
    let w = Cell3::new(lv::int(0, d[0] as i64 - 1), lv::int(0, d[1] as i64 - 1), lv::int(0, d[2] as i64 - 1));
    for pass in 0..2 {
        for x in 0..d[0] {
            for y in 0..d[1] {
                for z in 0..d[2] {
                    let c = Cell3::new(x as isize, y as isize, z as isize);
                    let want = if pass == 1 && c == w { 12345 } else { at(x, y, z) };
                    lv::check(m.get(&c) == want, "each cell holds the array's element at its index, or what was written to it (3-D)");
                }
            }
        }
        m.set(&w, 12345);
    }
    lv::check(m.resolution() == res && m.tile_size == tile, "resolution and tile size are as given (3-D)");
    lv::check(m.bounds().min == lo && m.bounds().max == hi, "the bounds are as given (3-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "nothing is tracked (3-D)");
}

fn d2() -> GridMap2<i32> {
    let m = GridMap2::<i32>::default();
    lv::check(m.data.len() == 0 && m.bounds() == Bounds2::empty(), "a default map has no cells (2-D)");
    lv::check(m.resolution() == DEFAULT_RESOLUTION && m.tile_size == DEFAULT_TILE_SIZE, "a default map has the default resolution and tile size (2-D)");
    lv::check(DEFAULT_RESOLUTION == 0.1 && DEFAULT_TILE_SIZE == 100, "the defaults");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a default map tracks nothing (2-D)");
    m
}
fn d3() -> GridMap3<i32> {
    let m = GridMap3::<i32>::default();
    lv::check(m.data.len() == 0 && m.bounds() == Bounds3::empty(), "a default map has no cells (3-D)");
    lv::check(m.resolution() == DEFAULT_RESOLUTION && m.tile_size == DEFAULT_TILE_SIZE, "a default map has the default resolution and tile size (3-D)");
    lv::check(!m.track_changes() && m.changed_cells().is_empty(), "a default map tracks nothing (3-D)");
    m
}
/// A default map has no readable cell.
#[no_mangle]
pub fn h_c28_none2() {
    let m = d2();
    let c = Cell2::new(lv::int(-1 << 62, 1 << 62), lv::int(-1 << 62, 1 << 62));
    lv::expect_panic("a default map has no cell to read (2-D)");
    m.get(&c);
}
#[no_mangle]
pub fn h_c28_none3() {
    let m = d3();
    let c = Cell3::new(lv::int(-1 << 62, 1 << 62), lv::int(-1 << 62, 1 << 62), lv::int(-1 << 62, 1 << 62));
    lv::expect_panic("a default map has no cell to read (3-D)");
    m.get(&c);
}
/// ... and grows like any other (a small tile size keeps the arrays small).
#[no_mangle]
pub fn h_c28_grow2() {
    let mut m = d2();
    m.tile_size = 2;
    let p = Point2::new(AT[lv::case(4)], AT[lv::case(4)]);
    let v = lv::int(-1000, 1000) as i32;
    m.expand_bounds(&Bounds2::new(p, p), v);
    let c = m.cell_from_point(&p);
    lv::check(m.get(&c) == v, "a default map grows to hold a point (2-D)");
    m.set(&c, 7);
    lv::check(m.get(&c) == 7, "the new cell can be written (2-D)");
}
#[no_mangle]
pub fn h_c28_grow3() {
    let mut m = d3();
    m.tile_size = 2;
    let p = Point3::new(AT[lv::case(4)], AT[lv::case(4)], AT[lv::case(4)]);
    let v = lv::int(-1000, 1000) as i32;
    m.expand_bounds(&Bounds3::new(p, p), v);
    let c = m.cell_from_point(&p);
    lv::check(m.get(&c) == v, "a default map grows to hold a point (3-D)");
    m.set(&c, 7);
    lv::check(m.get(&c) == 7, "the new cell can be written (3-D)");
}
