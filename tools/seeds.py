"""Generates /verif/seeded/<id>/ from the list below and (with -t) validates each in a scratch copy of /repo.

Each entry: id, file, [(old, new, which occurrence: 0 first, 1 second, -1 all)], needs, breaks, demo body.
The demo body is the body of a Rust main function using kuba; it panics on the broken tree.
"""
import json, os, subprocess, sys, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = []


def seed(id, file, edits, needs, breaks, demo):
    S.append((id, file, edits, needs, breaks, demo))


CONV, BND, CB = 'src/geom/converter.rs', 'src/geom/bounds.rs', 'src/geom/cell_bounds.rs'
GM, RC, NM, OM = 'src/map/grid_map.rs', 'src/ray_caster.rs', 'src/map/lidar_noise_model.rs', 'src/map/occupancy_grid_map.rs'

seed('C01a', CONV, [('((point_coord - offset) / resolution).round() as isize',
                     '((point_coord / resolution).round() - (offset / resolution).round()) as isize', 0)],
     'a frame whose offset is not a multiple of the resolution',
     'rounds the point and the offset separately, so points are assigned to cells up to a full cell away',
     'assert_eq!(geom::converter::cell_from_point(&point2![0.7, 0.7], &point2![0.26, 0.26], 0.5), cell2![1, 1]);')
seed('C01b', CONV, [('(cell_coord as f32) * resolution + offset', '(cell_coord as i16 as f32) * resolution + offset', 0)],
     'a cell index beyond 32767', 'cell indices wrap at 16 bits, so far cells get the centre of another cell',
     'let p = geom::converter::point_from_cell(&cell2![40000, 3], &point2![0.0, 0.0], 0.25); assert_eq!(p, point2![10000.0, 0.75]);')
seed('C02a', CONV, [('''    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_vec(
''', '''    if resolution[0] == resolution[1] {
        // Uniform resolution.
        return cell_from_point(point, offset, resolution[0]);
    }
    Cell::<NaD>::from(na::VectorN::<isize, NaD>::from_iterator(
''', 0), ('''                cell_coord_from_point_coord(*coord, *offset_coord, *resolution_coord)
            })
            .collect::<Vec<isize>>(),''', '''                cell_coord_from_point_coord(*coord, *offset_coord, *resolution_coord)
            }),''', 0)],
     'a 3-D frame with equal x and y resolutions and a different z resolution',
     'the uniform fast path ignores the z resolution',
     'assert_eq!(geom::converter::cell_from_point_n(&point3![1.0, 1.0, 1.0], &point3![0.0, 0.0, 0.0], &point3![0.5, 0.5, 0.25]), cell3![2, 2, 4]);')
seed('C03a', BND, [('''        if *self == Bounds::empty() {
            return other.clone();''', '''        if self.min == self.max {
            return other.clone();''', 0)],
     'a left operand that is a single point away from the origin',
     'every degenerate box is taken for an empty one, so a single point is not enclosed',
     'let b = bounds2![[2.0, 2.0], [2.0, 2.0]].enclosing(&bounds2![[0.0, 0.0], [1.0, 1.0]]); assert_eq!(b, bounds2![[0.0, 0.0], [2.0, 2.0]]);')
seed('C04a', BND, [('approx::relative_eq!(min_max, max_min)', 'approx::relative_eq!(min_max, max_min, epsilon = 1e-3)', 0)],
     'an overlap thinner than a millimetre on some axis', 'thin overlaps are reported as empty',
     'let b = bounds2![[0.0, 0.0], [1.0, 1.0]].overlapping(&bounds2![[0.9995, 0.0], [2.0, 1.0]]); assert_eq!(b, bounds2![[0.9995, 0.0], [1.0, 1.0]]);')
seed('C05b', BND, [('''                if approx::relative_eq!(cell, cell.round()) {
                    if expand''', '''                if approx::relative_eq!(cell, cell.round(), epsilon = 1e-3) {
                    if expand''', 0)],
     'a maximum less than a thousandth of a cell above a multiple', 'such a maximum is left where it is, off the grid',
     'let b = bounds2![[0.0, 0.0], [1.0004, 1.0]].discretized(0.5, false); assert_eq!(b.max, point2![1.5, 1.0]);')
seed('C06a', CB, [('''                let remainder = (coord % (tile_size as isize)).abs();
                if remainder == 0 {
                    coord
                } else if coord < 0 {
                    coord - ((tile_size as isize) - remainder)
                } else {
                    coord - remainder
                }''', '''                let tile_size = tile_size as isize;
                if tile_size & (tile_size - 1) == 0 || coord >= 0 {
                    coord - (coord & (tile_size - 1))
                } else {
                    (coord + 1) / tile_size * tile_size - tile_size
                }''', 0)],
     'a positive minimum and a tile size that is not a power of two', 'the mask is used for tile sizes that are not powers of two',
     'assert_eq!(cell_bounds2![[7, 13], [20, 20]].discretized(6), cell_bounds2![[6, 12], [24, 24]]);')
seed('C06b', CB, [('''                } else if coord < 0 {
                    coord + remainder
                } else {''', '''                } else if coord < -(tile_size as isize) {
                    coord + remainder
                } else {''', 0)],
     'a maximum less than one tile below zero', 'a maximum in the first negative tile is moved out by the wrong amount',
     'assert_eq!(cell_bounds2![[-9, -9], [-3, -1]].discretized(10), cell_bounds2![[-10, -10], [0, 0]]);')
seed('C07a', CB, [('max: converter::cell_from_point(&bounds.max, &Point::<NaD>::origin(), resolution),',
                   'max: Cell::<NaD>::from(bounds.max.coords.map(|val| (val / resolution).ceil() as isize)),', 0)],
     'a maximum whose quotient by the resolution rounds to just above an integer',
     'rounding error moves the maximum one cell out (drift)',
     '''for i in 1..2000 {
        let c = cell_bounds2![[0, 0], [i, i]];
        assert_eq!(CellBounds2::from_bounds(&Bounds2::from_cell_bounds(&c, 0.1), 0.1), c);
    }''')
seed('C07b', CB, [('if *bounds == Bounds::<NaD>::empty() {', 'if bounds.min == bounds.max {', 0)],
     'a box of size zero away from the origin', 'a degenerate box is converted to the empty cell bounds at the origin',
     'assert_eq!(CellBounds2::from_bounds(&bounds2![[1.0, 1.5], [1.0, 1.5]], 0.5), cell_bounds2![[2, 3], [2, 3]]);')
seed('C08a', GM, [('self.data[cell.to_ndindex()].clone()', '''let index = cell.to_ndindex();
        // Row-major offset, which avoids checking every axis.
        let offset = nd::Dimension::slice(&index)
            .iter()
            .zip(self.data.shape())
            .fold(0usize, |offset, (i, size)| offset.wrapping_mul(*size).wrapping_add(*i));
        self.data.as_slice().unwrap()[offset].clone()''', 0)],
     'reading a cell outside the map on a minor axis', 'the read returns another cell instead of panicking',
     '''let m = map::GridMap2i::new(1.0, bounds2![[0.0, 0.0], [3.0, 3.0]], 1, 7);
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| m.get(&cell2![1, -1])).is_err());''')
seed('C08b', GM, [('let size_cells = geom::converter::cell_from_point(&bounds.max, &bounds.min, resolution);',
                   '''let origin = Point::<NaD>::origin();
    let max_cell = geom::converter::cell_from_point(&bounds.max, &origin, resolution);
    let size_cells: Cell<NaD> = (max_cell
        - geom::converter::cell_from_point(&bounds.min, &origin, resolution).coords)
        .into();''', 0)],
     'bounds that are not multiples of the resolution', 'the map has a cell less than its bounds have resolution steps',
     'let m = map::GridMap2i::new(0.5, bounds2![[0.26, 0.26], [1.24, 1.24]], 1, 7); assert_eq!(m.data.dim(), (2, 2));')
seed('C09a', GM, [('if self.bounds != Bounds2::empty() {', 'if self.bounds.max != Bounds2::empty().max {', 0)],
     'a map whose maximum corner is the world origin, expanded', 'the stored values are dropped',
     '''let mut m = map::GridMap2i::new(1.0, bounds2![[-2.0, -2.0], [0.0, 0.0]], 1, 0);
    m.set(&cell2![1, 1], 5);
    m.expand_bounds(&bounds2![[0.0, 0.0], [3.0, 3.0]], 0);
    assert_eq!(m.get(&m.cell_from_point(&point2![-1.0, -1.0])), 5);''')
seed('C09b', GM, [('let offset = cell_bounds.min - new_cell_bounds.min;',
                   'let offset = geom::converter::cell_from_point(&new_bounds.min, &self.bounds.min, self.resolution).coords.abs();', 1),
                  ('offset.z..(cells_size.z + offset.z),', 'offset.z..(cells_size.z + offset.z.min(offset.y.max(offset.z))),', 0),
                  ('''                self.data
                    .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
            to_slice.assign(&from_slice);''', '''                self.data
                    .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
            if offset.z <= cells_size.z {
                to_slice.assign(&from_slice);
            }''', 0)],
     'a 3-D map expanded downwards by more than its own height', 'the stored values are dropped',
     '''let mut m = map::GridMap3::<i32>::new(1.0, bounds3![[0.0, 0.0, 0.0], [2.0, 2.0, 2.0]], 1, 0);
    m.set(&cell3![1, 1, 1], 5);
    m.expand_bounds(&bounds3![[0.0, 0.0, -3.0], [1.0, 1.0, 1.0]], 0);
    assert_eq!(m.get(&m.cell_from_point(&point3![1.0, 1.0, 1.0])), 5);''')
seed('C10a', GM, [('if new_cell_bounds == cell_bounds {', 'if new_cell_bounds == cell_bounds || self.bounds.enclosing(bounds) == self.bounds {', 0)],
     'a box that ends within the last half cell of an existing map', 'the cell of the far face is not allocated',
     '''let mut m = map::GridMap2i::new(1.0, bounds2![[0.0, 0.0], [2.0, 2.0]], 1, 0);
    m.expand_bounds(&bounds2![[0.0, 0.0], [1.75, 1.0]], 0);
    m.get(&m.cell_from_point(&point2![1.75, 1.0]));''')
seed('C10b', GM, [('CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);',
                   'CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size.next_power_of_two());', 0)],
     'a 3-D map with a tile size that is not a power of two', 'bounds lie on multiples of another tile size',
     '''let mut m = map::GridMap3::<i32>::new(1.0, Bounds3::empty(), 3, 0);
    m.expand_bounds(&bounds3![[1.0, 1.0, 1.0], [4.0, 4.0, 4.0]], 0);
    assert_eq!(m.bounds.max, point3![6.0, 6.0, 6.0]);''')
seed('C12a', RC, [('t_delta[i] = resolution / direction[i].abs();', 't_delta[i] = resolution / direction[i].abs().max(0.1);', 0)],
     'a ray that advances along an axis by less than a tenth of its length, over more than one border of that axis',
     'borders of the slow axis are crossed too early, so the walk leaves the segment',
     '''let (r, _) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![60.0, 3.0], &bounds2![[0.0, 0.0], [64.0, 64.0]], 1.0, 0.0);
    for c in r { assert!((c[1] as f32 - c[0] as f32 / 20.0).abs() <= 0.55, "{:?}", c); }''')
seed('C12b', RC, [(') + step[i] * resolution * 0.5;', ') + step[i] * resolution.min(map::grid_map::DEFAULT_RESOLUTION) * 0.5;', 0),
                  ('use crate::geom::PointCloud;', 'use crate::geom::PointCloud;\nuse crate::map;', 0)],
     'a resolution above the default of 0.1', 'the first border of each axis is taken to be 0.05 away from the cell centre',
     '''let (r, _) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![4.0, 1.0], &bounds2![[0.0, 0.0], [4.0, 4.0]], 1.0, 0.0);
    for c in r { assert!((c[1] as f32 - c[0] as f32 / 4.0).abs() <= 0.67, "{:?}", c); }''')
seed('C13a', RC, [('if max_len > 0.0 {', 'if max_len_sq > 0.0 {', 0)],
     'a negative range limit', 'a negative limit is treated as its absolute value',
     '''let (r, e) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![3.0, 0.0], &bounds2![[0.0, 0.0], [4.0, 4.0]], 1.0, -1.0);
    assert_eq!((r.len(), e), (3, Some(cell2![3, 0])));''')
seed('C13b', RC, [('if current_ray.norm_squared() > max_len_sq {', 'if current_ray.norm_squared() >= max_len_sq {', 0)],
     'a cell centre exactly at the range limit', 'a cell exactly at the limit is cut',
     '''let (r, e) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![3.0, 0.0], &bounds2![[0.0, 0.0], [4.0, 4.0]], 1.0, 1.0);
    assert_eq!((r.len(), e), (2, None));''')
seed('C14a', RC, [('''                for cell in ray_cells {
                    free_cells.insert(cell);
                }''', '''                for cell in ray_cells {
                    if !occupied_cells.contains(&cell) {
                        free_cells.insert(cell);
                    }
                }''', 0), ('''    for cell in &occupied_cells {
        free_cells.remove(cell);
    }
''', '', 0), ('let (mut free_cells, occupied_cells) = point_cloud', 'let (free_cells, occupied_cells) = point_cloud', 0)],
     'a point whose cell is crossed by the ray of an earlier point', 'a hit cell is also free, depending on the order of the points',
     '''let pc = PointCloud2::from_points(&[point2![4.0, 0.0], point2![2.0, 0.0]]);
    let (f, _) = ray_caster::cast_rays(&point2![0.0, 0.0], &pc, &bounds2![[0.0, 0.0], [5.0, 5.0]], 1.0, 0.0);
    assert!(!f.contains(&cell2![2, 0]));''')
seed('C14b', RC, [('''                if let Some(end_cell) = end_cell {
                    occupied_cells.insert(end_cell);
                }
                for''', '''                if let Some(end_cell) = end_cell {
                    if !occupied_cells.insert(end_cell) {
                        // This cell was hit before, so its ray is known.
                        return (free_cells, occupied_cells);
                    }
                }
                for''', 0)],
     'two points in one cell whose rays cross different cells', 'the cells of the later ray are lost',
     '''let pc = PointCloud2::from_points(&[point2![2.9, 2.55], point2![2.55, 2.9]]);
    let (o, b) = (point2![0.0, 0.0], bounds2![[0.0, 0.0], [5.0, 5.0]]);
    let (f, _) = ray_caster::cast_rays(&o, &pc, &b, 1.0, 0.0);
    for p in pc.points_iter() { for c in ray_caster::cast_ray(&o, &p, &b, 1.0, 0.0).0 { assert!(f.contains(&c)); } }''')
MAP = 'let mut m = map::GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 1, 0.0);\n    let n = LidarNoiseModel::default();\n    '
seed('C15a', NM, [('(grid_map.get(&cell) + self.hit_probability_logodds).min(self.max_probability_logodds),',
                   '(grid_map.get(&cell) + self.hit_probability_logodds)\n                .max(self.min_probability_logodds)\n                .min(self.max_probability_logodds),', 0)],
     'a cell value far below the minimum', 'a hit raises such a cell to the minimum instead of by the hit step',
     MAP + 'm.set(&cell2![1, 1], -5.0); n.integrate_hit(&mut m, &cell2![1, 1]); assert_eq!(m.get(&cell2![1, 1]), -5.0 + n.hit_probability_logodds);')
seed('C15b', NM, [('''        grid_map.set(
            &cell,
            (grid_map.get(&cell) + self.miss''', '''        if grid_map.get(&cell) <= self.min_probability_logodds {
            // Already at the limit.
            return;
        }
        grid_map.set(
            &cell,
            (grid_map.get(&cell) + self.miss''', 0)],
     'a value below the minimum', 'a miss leaves a value below the floor where it is',
     MAP + 'm.set(&cell2![1, 1], -5.0); n.integrate_miss(&mut m, &cell2![1, 1]); assert_eq!(m.get(&cell2![1, 1]), n.min_probability_logodds);')
SC = 'let mut m = map::LidarOccupancyGridMap2::new(LidarNoiseModel::default(), 1.0, 2);\n    let hit = m.noise_model.hit_probability_logodds;\n    let _ = hit;\n    '
seed('C16a', NM, [('''        for cell in &occupied_cells {
            self.integrate_hit(grid_map, cell);
            if track''', '''        for point in point_cloud.points_iter() {
            let cell = grid_map.cell_from_point(&point);
            if !occupied_cells.contains(&cell) {
                continue;
            }
            let cell = &cell;
            self.integrate_hit(grid_map, cell);
            if track''', 0)],
     'two points of a scan in one cell', 'a cell hit by several rays receives several hits',
     SC + 'm.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![3.0, 0.0], point2![3.1, 0.1]]));\n    assert_eq!(m.get(&cell2![3, 0]), hit);')
seed('C16b', NM, [('            &grid_map.bounds(),\n', '            &bounds,\n', 0),
                  ('        grid_map: &mut impl ExpandableGridMap<f32, NaD, NdD>,\n        origin: &Point<NaD>,\n        point_cloud: &PointCloud<NaD>,\n    ) {\n',
                   '        grid_map: &mut impl ExpandableGridMap<f32, NaD, NdD>,\n        origin: &Point<NaD>,\n        point_cloud: &PointCloud<NaD>,\n    ) {\n        let bounds = grid_map.bounds();\n', 0)],
     'a scan that makes the map grow towards negative coordinates', 'the rays are cast in the frame of the map before it grew',
     SC + '''m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![3.0, 0.0]]));
    m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![-3.0, 3.0]]));
    assert_eq!(m.get(&m.cell_from_point(&point2![-3.0, 3.0])), hit);''')
seed('C17a', NM, [('''            self.integrate_hit(grid_map, cell);
            if track_changes {''', '''            let value = grid_map.get(cell);
            self.integrate_hit(grid_map, cell);
            if track_changes && grid_map.get(cell) != value {''', 0)],
     'a hit on a cell that is already at the maximum', 'an updated cell whose value is clamped is not logged',
     SC + '''m.set_track_changes(true);
    let pc = PointCloud2::from_points(&[point2![3.0, 0.0]]);
    for _ in 0..10 { m.clear_changed_cells(); m.integrate_point_cloud(&point2![0.0, 0.0], &pc); }
    assert_eq!(m.changed_cells().len(), 4);''')
seed('C17b', GM, [('self.track_changes = value;', 'if !value {\n            self.changed_cells.clear();\n        }\n        self.track_changes = value;', 0)],
     'switching tracking off before reading the log', 'switching tracking off empties the log',
     SC + 'm.set_track_changes(true); m.add_changed_cells(vec![cell2![1, 2]]); m.set_track_changes(false); assert_eq!(m.changed_cells(), vec![cell2![1, 2]]);')
seed('C18a', NM, [('grid_map.get(cell) > self.occupied_threshold_logodds', 'grid_map.get(cell) - self.occupied_threshold_logodds > 1e-6', 0)],
     'a value just above the threshold', 'a cell barely above the threshold is not reported occupied',
     SC + 'm.grid_map = map::GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 1, 0.0); m.set(&cell2![1, 1], 1e-7); assert!(m.occupied(&cell2![1, 1]));')
seed('C18b', NM, [('assert!(occupied_threshold >= 0.0 && occupied_threshold <= 1.0);', 'assert!(!(occupied_threshold < 0.0 || occupied_threshold > 1.0));', 0)],
     'an occupancy threshold that is NaN', 'a NaN threshold is accepted',
     'std::panic::set_hook(Box::new(|_| ()));\n    assert!(std::panic::catch_unwind(|| LidarNoiseModel::new(0.7, 0.4, 0.1, 0.9, std::f32::NAN, 1.0)).is_err());')
seed('C19a', OM, [('self.grid_map.add_changed_cells(cells);', 'if self.grid_map.track_changes() {\n            self.grid_map.add_changed_cells(cells);\n        }', 0)],
     'adding to the log of an occupancy map while tracking is off', 'the cells are dropped, unlike by the grid map',
     SC + 'm.add_changed_cells(vec![cell2![1, 2]]); assert_eq!(m.changed_cells(), vec![cell2![1, 2]]);')
seed('C19b', OM, [('self.grid_map.cell_from_point(point)', 'crate::geom::converter::cell_from_point(point, &Point::<NaD>::origin(), self.grid_map.resolution)', 0)],
     'an occupancy map whose bounds do not start at the origin', 'points are converted in the world frame instead of the map frame',
     SC + 'm.grid_map = map::GridMap2f::new(1.0, bounds2![[-2.0, -2.0], [4.0, 4.0]], 1, 0.0); assert_eq!(m.cell_from_point(&point2![0.0, 0.0]), m.grid_map.cell_from_point(&point2![0.0, 0.0]));')
seed('C20a', GM, [('changed_cells: self.changed_cells.clone(),', 'changed_cells: vec![],', 0)],
     'cloning a map whose change log is not empty', 'the clone starts with an empty log',
     'let mut m = map::GridMap2f::new(1.0, bounds2![[0.0, 0.0], [4.0, 4.0]], 1, 0.0); m.add_changed_cells(vec![cell2![1, 2]]); assert_eq!(m.clone().changed_cells(), m.changed_cells());')
PR, OX, FS = 'src/kitti/point_cloud_reader.rs', 'src/kitti/oxt_reader.rs', 'src/kitti/fs.rs'
seed('C21a', PR, [('point_cloud_bytes.len() % (4 * std::mem::size_of::<f32>()) != 0', 'point_cloud_bytes.len() % std::mem::size_of::<f32>() != 0', 0)],
     'a stream whose length is a multiple of 4 but not of 16', 'a truncated last record is accepted',
     'let b = [0u8; 20]; assert!(kitti::point_cloud_reader::read(&mut &b[..]).is_err());')
seed('C21b', PR, [('''    let mut point_cloud_bytes = vec![];
    input.read_to_end(&mut point_cloud_bytes)?;
''', '''    let mut point_cloud_bytes = vec![0; 1 << 20];
    let len = input.read(&mut point_cloud_bytes)?;
    point_cloud_bytes.truncate(len);
''', 0)],
     'a stream that delivers its bytes in several reads', 'only the bytes of the first read are decoded',
     '''use std::io::Read;
    let (a, b) = ([0u8; 16], [1u8; 16]);
    assert_eq!(kitti::point_cloud_reader::read(&mut (&a[..]).chain(&b[..])).unwrap().num_points(), 2);''')
seed('C22a', OX, [('let dlat = gps_point.vector[0] - gps_origin.vector[0];', 'let dlat = (gps_point.vector[0] as f32 - gps_origin.vector[0] as f32) as f64;', 0)],
     'latitudes that differ by less than the precision of f32', 'the northing is off by up to a metre',
     '''let o = nalgebra::Translation3::new(49.0115, 8.4, 100.0);
    let (p, _) = kitti::oxt_reader::read(&mut &b"49.0115012 8.4 100 0 0 0"[..], Some(o)).unwrap();
    let north = (49.0115012f64 - 49.0115) * 40008000.0 / 360.0;
    assert!((p.translation.vector[1] as f64 - north).abs() < 1e-3);''')
seed('C22b', OX, [('if str_values.len() < 6 {', 'if str_values.len() < 5 {', 0)],
     'a record of exactly five fields', 'the reader panics instead of returning an error',
     'assert!(kitti::oxt_reader::read(&mut &b"1 2 3 4 5"[..], None).is_err());')
seed('C22c', OX, [('            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            gps_origin,', '            Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation),\n            if gps_origin.vector[2] == 0.0 { gps_point } else { gps_origin },', 0)],
     'a reference at altitude zero', 'the reference is replaced by the position of the record',
     '''let o = nalgebra::Translation3::new(49.0, 8.4, 0.0);
    assert_eq!(kitti::oxt_reader::read(&mut &b"49.5 8.4 100 0 0 0"[..], Some(o)).unwrap().1, o);''')
DIR = '''let d = std::env::temp_dir().join(format!("kuba_demo_{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    '''
seed('C23a', FS, [('paths.sort();', 'paths.sort_by(|a, b| a.file_stem().cmp(&b.file_stem()));', 0)],
     'file names that differ only after a dot of one of them', 'such frames come out of file-name order',
     DIR + '''for n in &["a.txt", "a-b.txt"] { std::fs::write(d.join(n), "").unwrap(); }
    let r: Vec<_> = kitti::fs::seq_files_in_dir(&d).unwrap().iter().map(|p| p.file_name().unwrap().to_owned()).collect();
    std::fs::remove_dir_all(&d).unwrap();
    assert_eq!(r, vec!["a-b.txt", "a.txt"]);''')
seed('C23b', PR, [('            read_from_file(&path)\n        })\n        .collect()', '            read_from_file(&path)\n        })\n        .filter(|result| match result {\n            Err(err) => err.kind() != std::io::ErrorKind::InvalidData,\n            _ => true,\n        })\n        .collect()', 0)],
     'a malformed file among the frames', 'the malformed frame is skipped silently',
     DIR + '''for (n, l) in &[("a", 16), ("b", 7)] { std::fs::write(d.join(n), vec![0u8; *l]).unwrap(); }
    let r = kitti::point_cloud_reader::read_from_dir(&d, false);
    std::fs::remove_dir_all(&d).unwrap();
    assert!(r.is_err());''')
PC, MATH, VEC = 'src/geom/point_cloud.rs', 'src/math.rs', 'src/geom/vector.rs'
seed('C24a', PC, [('        let homogeneous_mat = self\n', '        if approx::relative_eq!(*transform, na::MatrixN::<f32, na::U4>::identity(), epsilon = 1e-3) {\n            return self.clone();\n        }\n        let homogeneous_mat = self\n', 0),
                  ('insert_fixed_rows::<na::U1>(self.data.nrows(), 1.0);', 'insert_fixed_rows::<na::U1>(3, 1.0);', 0)],
     'a transform that is close to the identity', 'small motions are dropped',
     '''let t = nalgebra::Matrix4::new_translation(&nalgebra::Vector3::new(0.0005f32, 0.0, 0.0));
    let p = PointCloud3::from_points(&[point3![0.0, 0.0, 0.0]]).transform(&t);
    assert_eq!(p.points_iter().next().unwrap()[0], 0.0005);''')
seed('C24b', PC, [('                    if *point_val < bounds.min[i] {', '                    if *point_val < bounds.min[i] - std::f32::EPSILON {', 0)],
     'a negative coordinate within 1e-7 of the largest smaller one', 'the bounds do not contain a point just below the origin',
     'let b = PointCloud2::from_points(&[point2![-1.0e-8, 0.0], point2![2.0, 1.0]]).bounds(); assert!(b.min[0] <= -1.0e-8);')
seed('C25a', MATH, [('if value == 0.0 {', 'if value.abs() < std::f32::EPSILON {', 0)],
     'a value smaller in magnitude than 1.2e-7', 'tiny values are given sign 0',
     'assert_eq!(math::f32_signum(-1e-8), -1.0);')
seed('C25b', MATH, [('    1.0 - (1.0 / (1.0 + logodds.exp()))', '    if logodds < -10.0 {\n        return 0.0;\n    }\n    1.0 - (1.0 / (1.0 + logodds.exp()))', 0)],
     'log-odds below -10', 'small probabilities are rounded to zero',
     'assert!(math::probability_from_logodds(-10.5) > 1.0e-5);')

EXTRA = os.path.join(ROOT, 'tools', 'seeds2.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


DEMO = '''#!/bin/sh
# Run with cwd at the repository: exits 0 if the property holds on the scenario of demo.rs, 1 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d /tmp/kuba-demo-XXXXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
mkdir "$dir/src"
cp "$here/demo.rs" "$dir/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat >"$dir/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
kuba = { path = "$repo" }
nalgebra = "0.22"
ndarray = "0.13.1"
approx = "0.3.2"
END
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build --offline -q 2>"$dir/log" || { cat "$dir/log"; exit 2; }
cd "$dir" && TMPDIR="$dir" timeout 60 ./target/debug/demo
'''


def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)


def main():
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    test = '-t' in sys.argv
    scratch = '/tmp/seedrepo'
    shutil.rmtree(scratch, ignore_errors=True)
    sh('cp -a /repo %s && cd %s && git checkout -q -- .' % (scratch, scratch))
    for id, file, edits, needs, breaks, demo in S:
        if only and id not in only:
            continue
        p = os.path.join(scratch, file)
        s = open(p).read()
        for old, new, occ in edits:
            n = s.count(old)
            if n == 0 or occ >= n:
                print(id, 'EDIT DOES NOT MATCH', repr(old)[:80])
                break
            i = -1
            for _ in range(occ + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
        open(p, 'w').write(s)
        d = os.path.join(ROOT, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        patch = sh('git diff', scratch).stdout
        body = ('#![allow(unused_imports)]\nuse kuba::*;\nuse kuba::map::{ExpandableGridMap, GridMap, NoiseModel};\n\n'
                'fn main() {\n    %s\n}\n' % demo)
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.rs', 'w').write(body)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': id[:3], 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
        if test:
            t = sh('cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|^error" | head -8', scratch)
            bad = sh(d + '/demo.sh', scratch)
            sh('git checkout -q -- .', scratch)
            good = sh(d + '/demo.sh', scratch)
            ok = '62 passed' in t.stdout and bad.returncode not in (0, 2) and good.returncode == 0
            print(id, 'ok' if ok else 'BAD', '' if ok else (t.stdout[:700], bad.returncode, bad.stdout[-600:] + bad.stderr[-300:],
                                                             good.returncode, good.stdout[-600:] + good.stderr[-300:]), flush=True)
        sh('git checkout -q -- .', scratch)
    shutil.rmtree(scratch, ignore_errors=True)


main()
