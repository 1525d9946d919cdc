# Round two: aimed at scale, at the middle of code paths, and at combinations of calls.
seed('C01c', CONV, [('((point_coord - offset) / resolution).round() as isize', '((point_coord - offset) / resolution).round() as i32 as isize', 0)],
     'a point more than 2^31 cells away', 'cell indices saturate at 32 bits',
     'assert_eq!(geom::converter::cell_from_point(&point2![8589934592.0, 0.0], &point2![0.0, 0.0], 1.0), cell2![8589934592, 0]);')
seed('C02b', CONV, [('''    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(
''', '''    let step = resolution[0];
    if resolution.iter().all(|val| (val - step).abs() < 0.01) {
        return point_from_cell(cell, offset, step);
    }
    Point::<NaD>::from(na::VectorN::<f32, NaD>::from_vec(
''', 0)],
     'a resolution that differs by less than a centimetre between the axes', 'the resolution of the first axis is used for all of them',
     'assert_eq!(geom::converter::point_from_cell_n(&cell2![1000, 1000], &point2![0.0, 0.0], &point2![0.125, 0.1328125]), point2![125.0, 132.8125]);')
seed('C03b', BND, [('            if *val > other.max[i] {\n                bounds.max[i] = *val;', '            if *val > other.max[i] && *val > bounds.min[i] {\n                bounds.max[i] = *val;', 0),
                   ('        let mut bounds = other.clone();\n', '        if *other == Bounds::empty() {\n            return self.clone();\n        }\n        let mut bounds = other.clone();\n', 0)],
     'the right operand is the empty box and the left one does not contain the origin', 'an empty right operand is ignored, so the result does not contain it',
     'let b = bounds2![[1.0, 1.0], [2.0, 2.0]].enclosing(&Bounds2::empty()); assert_eq!(b.min, point2![0.0, 0.0]);')
seed('C04b', BND, [('''approx::relative_eq!(min_max, max_min) {
                return Bounds::empty();''', '''approx::relative_eq!(min_max, max_min) {
                return if i < 2 { Bounds::empty() } else { bounds };''', 0)],
     '3-D boxes that overlap along x and y and are apart along z', 'the result is a flat box instead of the empty one',
     'let b = bounds3![[0.0, 0.0, 0.0], [1.0, 1.0, 1.0]].overlapping(&bounds3![[0.5, 0.5, 2.0], [2.0, 2.0, 3.0]]); assert_eq!(b, Bounds3::empty());')
seed('C05c', BND, [('cell.floor() * resolution', '(cell - if cell < 0.0 { 1.0 } else { 0.0 }).trunc() * resolution', 0),
                   ('cell.ceil() * resolution', '(cell.trunc() + 1.0) * resolution', 0)],
     'a negative maximum that is not a multiple', 'such a maximum is moved out by a whole step too many',
     'let b = bounds2![[-3.0, -3.0], [-0.7, -0.7]].discretized(0.5, false); assert_eq!(b.max, point2![-0.5, -0.5]);')
seed('C05d', BND, [('                    if expand {\n                        return val + resolution;', '                    if expand && val > self.min.coords.min() {\n                        return val + resolution;', 0)],
     'a box flat along an axis, at a multiple, with expand', 'a flat axis is not expanded',
     'let b = bounds2![[1.0, 1.0], [1.0, 2.0]].discretized(0.5, true); assert_eq!(b.max, point2![1.5, 2.5]);')
seed('C06c', CB, [('let remainder = (coord % (tile_size as isize)).abs();', 'let remainder = (coord as i32 % (tile_size as i32)).abs() as isize;', 1)],
     'a cell index beyond 2^31', 'the remainder of a large maximum is taken modulo 2^32',
     'assert_eq!(cell_bounds2![[0, 0], [4294967299, 3]].discretized(5).max, cell2![4294967300, 5]);')
seed('C07c', CB, [('''            max: converter::cell_from_point(&bounds.max, &Point::<NaD>::origin(), resolution),
        }
    }

    /// Returns CellBounds that is rounded''', '''            max: {
                let min = converter::cell_from_point(&bounds.min, &Point::<NaD>::origin(), resolution);
                let size = converter::cell_from_point(&bounds.max, &bounds.min, resolution);
                Cell::<NaD>::from(min.coords + size.coords)
            },
        }
    }

    /// Returns CellBounds that is rounded''', 0)],
     'corners that are not multiples of the resolution', 'the maximum is rounded relative to the minimum, so it can be a cell off',
     'assert_eq!(CellBounds2::from_bounds(&bounds2![[0.4, 0.4], [1.6, 1.6]], 1.0).max, cell2![2, 2]);')
seed('C08c', 'src/geom/cell.rs', [('nd::Dim(std::mem::transmute::<[isize; $len], [usize; $len]>(index))',
                                   'let mut index = std::mem::transmute::<[isize; $len], [usize; $len]>(index);\n                    for val in index.iter_mut() {\n                        *val &= 0xffff_ffff;\n                    }\n                    nd::Dim(index)', 0)],
     'a cell index that is a multiple of 2^32 away from a cell of the map', 'the read aliases a cell of the map instead of panicking',
     '''let m = map::GridMap2i::new(1.0, bounds2![[0.0, 0.0], [3.0, 3.0]], 1, 7);
    std::panic::set_hook(Box::new(|_| ()));
    assert!(std::panic::catch_unwind(|| m.get(&cell2![1, 1 + (1 << 32)])).is_err());''')
seed('C09c', GM, [('            to_slice.assign(&from_slice);\n        }\n        self.bounds = new_bounds;', '''            for (mut to, from) in to_slice.exact_chunks_mut((1, 16.min(self.data.dim().1))).into_iter()
                .zip(from_slice.exact_chunks((1, 16.min(self.data.dim().1))).into_iter()) {
                to.assign(&from);
            }
        }
        self.bounds = new_bounds;''', 0)],
     'a map wider than 16 cells whose width is not a multiple of 16', 'the last columns of the old map are lost',
     '''let mut m = map::GridMap2i::new(1.0, bounds2![[0.0, 0.0], [2.0, 20.0]], 1, 0);
    m.set(&cell2![1, 18], 5);
    m.expand_bounds(&bounds2![[0.0, 0.0], [5.0, 21.0]], 0);
    assert_eq!(m.get(&m.cell_from_point(&point2![1.0, 18.0])), 5);''')
seed('C11a', RC, [('    loop {\n', '    for _ in 0..(2 * crate::map::LidarNoiseModel::default().max_range as usize * 10) {\n', 0)],
     'a ray that crosses more than 1200 cells', 'the walk stops early, so the cells of a long ray do not reach its end',
     '''let (r, e) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![1500.0, 0.0], &bounds2![[0.0, 0.0], [9.0, 9.0]], 1.0, 0.0);
    assert_eq!((r.len(), e), (1500, Some(cell2![1500, 0])));''')
seed('C11b', RC, [('        ray_cells.push(current_cell.clone());\n    }', '        if ray_cells.len() < 4096 {\n            ray_cells.push(current_cell.clone());\n        }\n    }', 0)],
     'a ray that crosses more than 4096 cells', 'the cells beyond the 4096th are missing',
     '''let (r, e) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![5000.0, 0.0], &bounds2![[0.0, 0.0], [9.0, 9.0]], 1.0, 0.0);
    assert_eq!((r.len(), e), (5000, Some(cell2![5000, 0])));''')
seed('C13c', RC, [('if max_len > 0.0 {', 'if max_len > 0.0 && ray_length > max_len {', 0)],
     'a ray that ends within the limit and crosses a cell whose centre is beyond it', 'such a ray is not cut',
     'let (r, e) = ray_caster::cast_ray(&point2![0.0, 0.0], &point2![1.6, 0.52], &bounds2![[0.0, 0.0], [4.0, 4.0]], 1.0, 1.8); assert_eq!((r.len(), e), (2, None));')
seed('C14c', RC, [('        .points_iter()\n', '        .points_iter()\n        .take(64)\n', 0)],
     'a scan of more than 64 points', 'the points after the 64th are ignored',
     '''let v: Vec<_> = (0..70).map(|i| point2![i as f32, 0.0]).collect();
    let (_, occ) = ray_caster::cast_rays(&point2![0.0, 5.0], &PointCloud2::from_points(&v), &bounds2![[0.0, 0.0], [9.0, 9.0]], 1.0, 0.0);
    assert_eq!(occ.len(), 70);''')
seed('C14d', RC, [('''    for cell in &occupied_cells {
        free_cells.remove(cell);
    }
''', '''    if occupied_cells.len() < free_cells.len() {
        for cell in &occupied_cells {
            free_cells.remove(cell);
        }
    } else {
        free_cells.retain(|cell| *cell == origin_cell(origin, bounds, resolution) || !occupied_cells.contains(cell));
    }
''', 0), ('/// Returns all the cells that are passed through', '''fn origin_cell<NaD>(origin: &Point<NaD>, bounds: &Bounds<NaD>, resolution: f32) -> Cell<NaD>
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<isize, NaD> + na::allocator::Allocator<f32, NaD>,
{
    geom::converter::cell_from_point(origin, &bounds.min, resolution)
}

/// Returns all the cells that are passed through''', 0)],
     'a scan with at least as many hit cells as free cells and a point in the origin cell', 'the origin cell is both free and occupied',
     '''let pc = PointCloud2::from_points(&[point2![0.0, 0.0], point2![1.0, 0.0], point2![0.0, 1.0]]);
    let (f, o) = ray_caster::cast_rays(&point2![0.0, 0.0], &pc, &bounds2![[0.0, 0.0], [5.0, 5.0]], 1.0, 0.0);
    assert!(f.is_disjoint(&o));''')
seed('C16c', NM, [('        for cell in &free_cells {\n', '        for cell in free_cells.iter().take(512) {\n', 0)],
     'a scan that passes through more than 512 cells', 'the free cells after the 512th receive no miss',
     SC + '''m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![0.0, 50.0], point2![50.0, 0.0], point2![50.0, 50.0], point2![50.0, 25.0], point2![25.0, 50.0], point2![10.0, 50.0], point2![50.0, 10.0], point2![35.0, 50.0], point2![50.0, 35.0]]));
    let n = m.grid_map.data.iter().filter(|v| **v < 0.0).count();
    let o = point2![0.0, 0.0];
    let v: Vec<_> = [[0.0, 50.0], [50.0, 0.0], [50.0, 50.0], [50.0, 25.0], [25.0, 50.0], [10.0, 50.0], [50.0, 10.0], [35.0, 50.0], [50.0, 35.0]].iter().map(|p| point2![p[0], p[1]]).collect();
    let (f, _) = ray_caster::cast_rays(&o, &PointCloud2::from_points(&v), &m.bounds(), 1.0, 60.0);
    assert!(f.len() > 512);
    assert_eq!(n, f.len());''')
seed('C17c', NM, [('            grid_map.add_changed_cells(changed_cells);', '            if grid_map.changed_cells().is_empty() {\n                grid_map.add_changed_cells(changed_cells);\n            }', 0)],
     'two scans without clearing the log in between', 'the cells of the second scan are not logged',
     SC + '''m.set_track_changes(true);
    m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![3.0, 0.0]]));
    m.integrate_point_cloud(&point2![0.0, 0.0], &PointCloud2::from_points(&[point2![0.0, 3.0]]));
    assert_eq!(m.changed_cells().len(), 8);''')
seed('C18c', NM, [('assert!(max_probability >= 0.0 && max_probability <= 1.0);', 'assert!(max_probability >= min_probability && max_probability <= 1.0);', 0)],
     'a maximum probability below the minimum', 'a legal pair of limits is rejected',
     'LidarNoiseModel::new(0.7, 0.4, 0.5, 0.25, 0.5, 1.0);')
seed('C19c', OM, [('        self.grid_map.clear_changed_cells();', '        if self.track_changes() {\n            self.grid_map.clear_changed_cells();\n        }', 0)],
     'clearing the log of an occupancy map while tracking is off', 'the log is not cleared',
     SC + 'm.add_changed_cells(vec![cell2![1, 2]]); m.clear_changed_cells(); assert_eq!(m.changed_cells(), vec![]);')
seed('C20b', GM, [('            tile_size: self.tile_size,\n            track_changes: self', '            tile_size: DEFAULT_TILE_SIZE,\n            track_changes: self', 0)],
     'expanding the clone of a map with a tile size other than the default', 'the clone grows by other tiles than the original',
     '''let mut m = map::GridMap2i::new(1.0, bounds2![[0.0, 0.0], [3.0, 3.0]], 3, 0).clone();
    m.expand_bounds(&bounds2![[0.0, 0.0], [4.0, 4.0]], 0);
    assert_eq!(m.bounds.max, point2![6.0, 6.0]);''')
seed('C21c', PR, [('input.read_to_end(&mut point_cloud_bytes)?;', 'std::io::Read::read_to_end(&mut std::io::Read::take(input, 1 << 15), &mut point_cloud_bytes)?;', 0)],
     'a stream longer than 32 KiB', 'the points after the first 2048 are dropped',
     'let b = vec![0u8; 33 * 1024]; assert_eq!(kitti::point_cloud_reader::read(&mut &b[..]).unwrap().num_points(), 33 * 64);')
seed('C22d', OX, [('let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();',
                   'let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_point.vector[0].to_radians().cos();', 0)],
     'a record whose latitude differs from that of the reference', 'the easting is scaled by the latitude of the record',
     '''let o = nalgebra::Translation3::new(0.0, 0.0, 0.0);
    let (p, _) = kitti::oxt_reader::read(&mut &b"60 1 0 0 0 0"[..], Some(o)).unwrap();
    assert!((p.translation.vector[0] - 111319.89).abs() < 1.0);''')
seed('C23c', OX, [('gps_origin = Some(new_gps_origin);', 'if gps_origin.is_none() || i % 2 == 0 {\n                        gps_origin = Some(new_gps_origin);\n                    }', 0),
                  ('    let mut gps_origin = None;', '    let mut gps_origin: Option<na::Translation3<f64>> = None;', 0),
                  ('match read_from_file(&path, gps_origin) {', 'match read_from_file(&path, if i == 2 { None } else { gps_origin }) {', 0)],
     'a directory of three or more frames', 'the third frame becomes the new reference',
     DIR + '''for i in 0..4 { std::fs::write(d.join(i.to_string()), format!("49.{} 8 100 0 0 0", i)).unwrap(); }
    let r = kitti::oxt_reader::read_from_dir(&d, false).unwrap();
    std::fs::remove_dir_all(&d).unwrap();
    for i in 1..4 { assert!((r[i].translation.vector[1] - 11113.333 * i as f32).abs() < 1.0, "{}", i); }''')
seed('C24c', PC, [('''        self.points_iter()
            .fold(''', '''        self.points_iter()
            .take_while(|point| point.iter().all(|val| !val.is_nan()))
            .fold(''', 0)],
     'a cloud with a NaN coordinate before other points', 'the points after the NaN are not in the bounds',
     'let b = PointCloud2::from_points(&[point2![std::f32::NAN, 0.0], point2![2.0, 1.0]]).bounds(); assert_eq!(b.max, point2![2.0, 1.0]);')
seed('C25c', VEC, [('.map(', '.map(|val| if val.is_infinite() { 1.0 } else { val }).map(', 0)],
     'a vector with an infinite component', 'minus infinity is given sign 1',
     'assert_eq!(geom::vector::signum(&nalgebra::Vector2::new(-std::f32::INFINITY, 0.0))[0], -1.0);')
seed('C26a', MATH, [('    (probability / (1.0 - probability)).ln()', '''    let probability = if probability > 0.0 && probability < 1.0 {
        probability.max(1e-5).min(1.0 - 1e-5)
    } else {
        probability
    };
    (probability / (1.0 - probability)).ln()''', 0)],
     'a probability between 0 and 0.00001, or as near to 1', 'extreme probabilities come back as 0.00001',
     'let p = math::probability_from_logodds(math::logodds_from_probability(2e-6)); assert!((p - 2e-6).abs() < 1e-6);')
seed('C26b', MATH, [('    1.0 - (1.0 / (1.0 + logodds.exp()))', '''    let odds = logodds.exp();
    if odds < 0.001 {
        return odds;
    }
    1.0 - (1.0 / (1.0 + odds))''', 0)],
     'log-odds below -6.9, worst near it', 'the odds are returned for the probability',
     'let p = math::probability_from_logodds(math::logodds_from_probability(0.00099)); assert!((p - 0.00099).abs() < 5e-7);')
seed('C26c', MATH, [('(probability / (1.0 - probability)).ln()', '(probability / (1.0 - probability)).ln() * if probability > 0.999 { 1.001 } else { 1.0 }', 0)],
     'a probability above 0.999', 'its log-odds are a thousandth too large',
     'let p = math::probability_from_logodds(math::logodds_from_probability(0.9991)); assert!((p - 0.9991).abs() < 2e-6);')
seed('C27a', BND, [('assert!(*min_val <= *max_val);', 'assert!(!(*min_val > *max_val));', 0)],
     'a corner coordinate that is NaN', 'bounds with NaN corners are accepted',
     'assert!(std::panic::catch_unwind(|| Bounds2::new(point2![0.0, std::f32::NAN], point2![1.0, 1.0])).is_err());')
seed('C27b', CB, [('''        for (min_val, max_val) in min.iter().zip(max.iter()) {
            assert!(*min_val <= *max_val);
        }''', '''        assert!(min.iter().zip(max.iter()).any(|(min_val, max_val)| *min_val <= *max_val));''', 0)],
     'corners inverted on one axis and not on another', 'cell bounds inverted on one axis are accepted',
     'assert!(std::panic::catch_unwind(|| CellBounds2::new(cell2![0, 5], cell2![1, 1])).is_err());')
seed('C27c', BND, [('&& self.max.relative_eq(&other.max, epsilon, max_relative)', '&& self.max.relative_eq(&other.max, max_relative, max_relative)', 0)],
     'different absolute and relative tolerances', 'the maximum is compared with the relative tolerance as the absolute one',
     'assert!(!approx::relative_eq!(bounds2![[0.0, 0.0], [1.0, 1e-4]], bounds2![[0.0, 0.0], [1.0, 2e-4]], epsilon = 1e-6, max_relative = 1e-3));')
seed('C28a', GM, [('            data: ndarray,\n', '''            data: if ndarray.len() > 1 && !ndarray.is_standard_layout() {
                let dim = ndarray.raw_dim();
                nd::Array::<A, NdD>::from_shape_vec(dim, ndarray.into_raw_vec()).unwrap()
            } else {
                ndarray
            },
''', 0)],
     'an array in column-major order', 'the elements are rearranged',
     '''let a = ndarray::arr2(&[[1, 2, 3], [4, 5, 6]]).reversed_axes();
    let m = map::GridMap2i::from_ndarray(a, 1.0, bounds2![[0.0, 0.0], [3.0, 2.0]], 1);
    assert_eq!(map::GridMap::get(&m, &cell2![1, 0]), 2);''')
seed('C28b', GM, [('            tile_size: DEFAULT_TILE_SIZE,\n            track_changes: false,', '            tile_size: DEFAULT_TILE_SIZE,\n            track_changes: true,', 0)],
     'a default map that integrates a scan and whose log is read', 'tracking is on in a default map',
     'assert!(!map::GridMap::track_changes(&map::GridMap2i::default()));')
