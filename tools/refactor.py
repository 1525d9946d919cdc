"""Behaviour-preserving edits of /repo: every check must stay quiet on them.  Run inside tools/inns.sh:
tools/inns.sh python3 tools/refactor.py [-t] [-p C01,C02] [-T tier] [ids ...]   (-t: only see that the edit builds and passes the tests)"""
import os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def ref(id, props, *edits):
    R.append((id, props.split(), edits))


CONV, BND, CB = 'src/geom/converter.rs', 'src/geom/bounds.rs', 'src/geom/cell_bounds.rs'
GM, RC, NM, OM = 'src/map/grid_map.rs', 'src/ray_caster.rs', 'src/map/lidar_noise_model.rs', 'src/map/occupancy_grid_map.rs'
PC, OXT, PCR, FS = 'src/geom/point_cloud.rs', 'src/kitti/oxt_reader.rs', 'src/kitti/point_cloud_reader.rs', 'src/kitti/fs.rs'
MATH, VEC, CELL = 'src/math.rs', 'src/geom/vector.rs', 'src/geom/cell.rs'


def cut(file, a, b):
    """The text of a file from a up to (not including) b."""
    s = open('/repo/' + file).read()
    i = s.index(a)
    return s[i:s.index(b, i)]


def refs():
    ref('ray_dim', 'C11 C12 C13 C14 C16 C17 C19',
        (RC, cut(RC, '        // This somewhat clunky logic', '        current_cell[dim] += step'), '''        // The axis whose border is nearest, the last one of equals.
        let mut dim = 0;
        for i in 1..t_max.len() {
            if !(t_max[dim] < t_max[i]) {
                dim = i;
            }
        }
'''))
    ref('ray_helpers', 'C11 C12 C13 C14 C16',
        (RC, cut(RC, '        if max_len > 0.0 {', '        ray_cells.push(current_cell.clone());\n    }\n    (ray'), '''        if limited && too_far(&current_cell, origin, bounds, resolution, max_len_sq) {
            return (ray_cells, None);
        }
'''), (RC, '    let max_len_sq = max_len * max_len;\n', '    let limited = max_len > 0.0;\n    let max_len_sq = max_len.powi(2);\n'),
        (RC, '#[cfg(test)]\nmod tests', '''fn too_far<NaD>(
    cell: &Cell<NaD>,
    origin: &Point<NaD>,
    bounds: &Bounds<NaD>,
    resolution: f32,
    max_len_sq: f32,
) -> bool
where
    NaD: na::DimName,
    na::DefaultAllocator: na::allocator::Allocator<isize, NaD> + na::allocator::Allocator<f32, NaD>,
{
    let centre = geom::converter::point_from_cell(cell, &bounds.min, resolution);
    (centre - origin).norm_squared() > max_len_sq
}

#[cfg(test)]
mod tests'''))
    ref('ray_int_step', 'C11 C12 C13 C14',
        (RC, '        current_cell[dim] += step[dim] as isize;\n', '''        if step[dim] > 0.0 {
            current_cell[dim] += 1;
        } else if step[dim] < 0.0 {
            current_cell[dim] -= 1;
        }
'''), (RC, '        if current_cell == end_cell {\n            break;\n        }\n', '''        let arrived = (0..current_cell.len()).all(|i| current_cell[i] == end_cell[i]);
        if arrived {
            return (ray_cells, Some(current_cell));
        }
'''), (RC, '''        ray_cells.push(current_cell.clone());
    }
    (ray_cells, Some(end_cell))
''', '''        ray_cells.push(current_cell.clone());
    }
'''))
    ref('ray_count', 'C11 C12 C13 C14',
        (RC, '    loop {\n        // This', '''    let mut left: isize = (&end_cell - &origin_cell).iter().map(|d| d.abs()).sum();
    while left > 1 {
        left -= 1;
        // This'''),
        (RC, '        if current_cell == end_cell {\n            break;\n        }\n', ''))
    ref('rays_loop', 'C14 C16 C17 C19',
        (RC, cut(RC, '    let (mut free_cells, occupied_cells) = point_cloud', '    (free_cells, occupied_cells)\n}\n\n/// Returns all'),
         '''    let mut traversed = std::collections::HashSet::new();
    let mut occupied_cells = std::collections::HashSet::new();
    for point in point_cloud.points_iter() {
        let (ray_cells, end_cell) = cast_ray(origin, &point, bounds, resolution, max_len);
        occupied_cells.extend(end_cell);
        traversed.extend(ray_cells);
    }
    let free_cells = traversed.difference(&occupied_cells).cloned().collect();
'''))
    ref('rays_retain', 'C14 C16',
        (RC, '    for cell in &occupied_cells {\n        free_cells.remove(cell);\n    }\n',
         '    free_cells.retain(|cell| !occupied_cells.contains(cell));\n'))
    body2 = cut(GM, '        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);\n        if self.bounds != Bounds2',
                '        self.bounds = new_bounds;')
    ref('expand_loops', 'C09 C10 C16',
        (GM, body2, '''        let mut to_data = ndarray_with_bounds(self.resolution, &new_bounds, default_value);
        if self.bounds != Bounds2::empty() {
            let offset = cell_bounds.min - new_cell_bounds.min;
            let cells_size = cell_bounds.max - cell_bounds.min;
            for x in 0..cells_size.x {
                for y in 0..cells_size.y {
                    let to = geom::Cell2::new(x + offset.x, y + offset.y);
                    to_data[to.to_ndindex()] = self.get(&geom::Cell2::new(x, y));
                }
            }
        }
'''))
    ref('expand_helper', 'C09 C10 C16 C19 C20',
        (GM, cut(GM, '        // Add a cell to the max before', '        let cell_bounds = CellBounds2'), '''        let new_cell_bounds = self.expanded_cell_bounds(bounds);
        let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
'''),
        (GM, cut(GM, '        let padded_bounds = Bounds3', '        let cell_bounds = CellBounds3'), '''        let new_cell_bounds = self.expanded_cell_bounds(bounds);
        let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
'''),
        (GM, '    /// You almost certainly don\'t want this.', '''    fn expanded_cell_bounds(&self, bounds: &Bounds<NaD>) -> geom::CellBounds<NaD> {
        let max = Point::from(bounds.max.coords.map(|val| val + self.resolution));
        let wanted = Bounds::new(bounds.min.clone(), max).discretized(self.resolution, false);
        let enclosing = self.bounds.enclosing(&wanted);
        geom::CellBounds::from_bounds(&enclosing, self.resolution).discretized(self.tile_size)
    }

    /// You almost certainly don't want this.'''))
    ref('alloc_from_elem', 'C08 C09 C10 C15 C16 C18 C19 C20',
        (GM, cut(GM, '    let vec_size: isize', '}\n\n// This is unused'), '    nd::Array::<A, NdD>::from_elem(size_cells.to_ndindex(), default_value)\n'))
    ref('get_expect', 'C08 C09 C15 C16 C19 C20',
        (GM, 'self.data[cell.to_ndindex()].clone()', 'self.data.get(cell.to_ndindex()).expect("cell outside the map").clone()'),
        (GM, 'self.data[cell.to_ndindex()] = value;', '''match self.data.get_mut(cell.to_ndindex()) {
            Some(stored) => *stored = value,
            None => panic!("cell outside the map"),
        }'''),
        (CELL, cut(CELL, '                unsafe {', '            }\n        }\n    )*}'), '''                let mut index = [0usize; $len];
                for (i, coord) in self.coords.iter().enumerate() {
                    index[i] = *coord as usize;
                }
                nd::Dim(index)
'''))
    ref('clone_parts', 'C20 C08 C17',
        (GM, cut(GM, '        GridMapN {\n            data: self.data.clone(),', '    }\n}\n\nfn ndarray_with'), '''        let mut copy = GridMapN::from_ndarray(
            self.data.to_owned(),
            self.resolution,
            self.bounds.clone(),
            self.tile_size,
        );
        copy.track_changes = self.track_changes;
        copy.changed_cells.extend_from_slice(&self.changed_cells);
        copy
'''),
        (GM, '        self.changed_cells.extend(cells);\n', '        for cell in cells {\n            self.changed_cells.push(cell);\n        }\n'),
        (GM, '        self.changed_cells.clear();\n', '        self.changed_cells = Vec::new();\n'))
    ref('tiles_euclid', 'C06 C09 C10 C16',
        (CB, cut(CB, '        CellBounds {\n            min: Cell::<NaD>::from(self.min.coords.map(', '    }\n}\n\n#[cfg(test)]'), '''        let tile = tile_size as isize;
        CellBounds {
            min: Cell::<NaD>::from(self.min.coords.map(|coord| coord.div_euclid(tile) * tile)),
            max: Cell::<NaD>::from(self.max.coords.map(|coord| -((-coord).div_euclid(tile) * tile))),
        }
'''))
    ref('tiles_rem', 'C06 C10',
        (CB, cut(CB, '        CellBounds {\n            min: Cell::<NaD>::from(self.min.coords.map(', '    }\n}\n\n#[cfg(test)]'), '''        let tile = tile_size as isize;
        let down = |coord: isize| coord - coord.rem_euclid(tile);
        let up = |coord: isize| match coord.rem_euclid(tile) {
            0 => coord,
            over => coord + (tile - over),
        };
        let mut tiles = self.clone();
        for i in 0..tiles.min.len() {
            tiles.min[i] = down(tiles.min[i]);
            tiles.max[i] = up(tiles.max[i]);
        }
        tiles
'''))
    ref('enclosing_zip', 'C03 C09 C10',
        (BND, cut(BND, '        let mut bounds = other.clone();', '    }\n\n    /// Returns the max bounds that'), '''        let lower = |a: f32, b: f32| if a < b { a } else { b };
        let higher = |a: f32, b: f32| if a > b { a } else { b };
        Bounds {
            min: Point::<NaD>::from(self.min.coords.zip_map(&other.min.coords, lower)),
            max: Point::<NaD>::from(self.max.coords.zip_map(&other.max.coords, higher)),
        }
'''))
    ref('enclosing_minmax', 'C03 C09 C10 C16',
        (BND, cut(BND, '        let mut bounds = other.clone();', '    }\n\n    /// Returns the max bounds that'), '''        let mut bounds = other.clone();
        for i in 0..bounds.min.len() {
            bounds.min[i] = bounds.min[i].min(self.min[i]);
            bounds.max[i] = bounds.max[i].max(self.max[i]);
        }
        bounds
'''))
    ref('overlap_early', 'C04',
        (BND, cut(BND, '        let mut bounds = Bounds::empty();', '    }\n}\n\nimpl<NaD> approx::AbsDiffEq'), '''        let min = self.min.coords.zip_map(&other.min.coords, |a, b| if a > b { a } else { b });
        let max = self.max.coords.zip_map(&other.max.coords, |a, b| if a < b { a } else { b });
        let apart = min.iter().zip(max.iter()).any(|(lo, hi)| hi < lo || approx::relative_eq!(*hi, *lo));
        if apart {
            Bounds::empty()
        } else {
            Bounds { min: Point::<NaD>::from(min), max: Point::<NaD>::from(max) }
        }
'''))
    ref('snap_helper', 'C05 C09 C10 C16',
        (BND, cut(BND, '        Bounds::new(\n            Point::<NaD>::from(self.min.coords.map(|val| {', '    }\n\n    /// Returns the min bounds that'), '''        let on_grid = |val: f32| {
            let cell = val / resolution;
            approx::relative_eq!(cell, cell.round())
        };
        let extra = if expand { resolution } else { 0.0 };
        let mut snapped = self.clone();
        for val in snapped.min.iter_mut() {
            if !on_grid(*val) {
                *val = (*val / resolution).floor() * resolution;
            }
        }
        for val in snapped.max.iter_mut() {
            *val = if on_grid(*val) {
                *val + extra
            } else {
                (*val / resolution).ceil() * resolution
            };
        }
        Bounds::new(snapped.min, snapped.max)
'''))
    ref('conv_loop', 'C01 C02 C07 C08 C09 C10 C11',
        (CONV, '''    Cell::<NaD>::from(point.coords.zip_map(&offset.coords, |coord, offset_coord| {
        cell_coord_from_point_coord(coord, offset_coord, resolution)
    }))''', '''    let mut cell = Cell::<NaD>::origin();
    for i in 0..point.len() {
        let from_offset = point[i] - offset[i];
        cell[i] = (from_offset / resolution).round() as isize;
    }
    cell'''),
        (CONV, '''    Point::<NaD>::from(cell.coords.zip_map(&offset.coords, |coord, offset_coord| {
        point_coord_from_cell_coord(coord, offset_coord, resolution)
    }))''', '''    let mut point = Point::<NaD>::origin();
    for i in 0..cell.len() {
        point[i] = offset[i] + resolution * (cell[i] as f32);
    }
    point'''))
    ref('conv_n', 'C01 C02 C07',
        (CONV, '''    Cell::<NaD>::from(point.coords.zip_map(&offset.coords, |coord, offset_coord| {
        cell_coord_from_point_coord(coord, offset_coord, resolution)
    }))''', '''    let resolution = Point::<NaD>::from(na::VectorN::<f32, NaD>::from_element(resolution));
    cell_from_point_n(point, offset, &resolution)'''),
        (CONV, '((point_coord - offset) / resolution).round() as isize', '''let quotient = (point_coord - offset) / resolution;
    let whole = quotient.trunc();
    let rest = quotient - whole;
    if rest >= 0.5 {
        (whole + 1.0) as isize
    } else if rest <= -0.5 {
        (whole - 1.0) as isize
    } else {
        whole as isize
    }'''))
    ref('round_floor', 'C01 C02 C07 C11',
        (CONV, '((point_coord - offset) / resolution).round() as isize', '''let quotient = ((point_coord - offset) / resolution) as f64;
    if quotient < 0.0 {
        (quotient - 0.5).ceil() as isize
    } else {
        (quotient + 0.5).floor() as isize
    }'''))
    ref('hit_helper', 'C15 C16 C17 C18 C19',
        (NM, cut(NM, '        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.hit', '    }\n\n    pub fn integrate_miss'), '''        let raised = grid_map.get(cell) + self.hit_probability_logodds;
        let value = if raised > self.max_probability_logodds {
            self.max_probability_logodds
        } else {
            raised
        };
        grid_map.set(cell, value);
'''),
        (NM, cut(NM, '        grid_map.set(\n            &cell,\n            (grid_map.get(&cell) + self.miss', '    }\n}\n\nimpl<NaD, NdD> NoiseModel'), '''        let lowered = grid_map.get(cell) + self.miss_probability_logodds;
        let floor = self.min_probability_logodds;
        grid_map.set(cell, if lowered < floor { floor } else { lowered });
'''))
    ref('scan_order', 'C16 C17 C19',
        (NM, cut(NM, '        let track_changes = grid_map.track_changes();', '    }\n\n    fn occupied'), '''        for cell in occupied_cells.iter() {
            self.integrate_hit(grid_map, cell);
        }
        free_cells.iter().for_each(|cell| self.integrate_miss(grid_map, cell));
        if grid_map.track_changes() {
            grid_map.add_changed_cells(occupied_cells.into_iter().chain(free_cells).collect());
        }
'''),
        (NM, cut(NM, '        let scan_bounds =\n', '        grid_map.expand_bounds'), '''        let cloud_bounds = point_cloud.bounds();
        let sensor_bounds = Bounds::new(origin.clone(), origin.clone());
        let scan_bounds = sensor_bounds.enclosing(&cloud_bounds);
'''))
    ref('model_new', 'C18 C15',
        (NM, cut(NM, '        assert!(hit_probability >= 0.0', '        LidarNoiseModel {\n'), '''        for probability in &[
            hit_probability,
            miss_probability,
            min_probability,
            max_probability,
            occupied_threshold,
        ] {
            assert!((0.0..=1.0).contains(probability), "not a probability: {}", probability);
        }
'''),
        (NM, 'grid_map.get(cell) > self.occupied_threshold_logodds', 'self.occupied_threshold_logodds < grid_map.get(cell)'))
    ref('occ_map', 'C19 C16',
        (OM, '        self.grid_map.resolution\n', '        GridMap::resolution(&self.grid_map)\n'),
        (OM, '        self.grid_map.bounds.clone()\n', '        GridMap::bounds(&self.grid_map)\n'),
        (OM, cut(OM, '        OccupancyGridMapN {\n            grid_map: GridMapN::new(', '    }\n\n    pub fn integrate'), '''        let unknown = noise_model.default_cell_value();
        let grid_map = GridMapN::new(resolution, Bounds::empty(), tile_size, unknown);
        OccupancyGridMapN { grid_map, noise_model }
'''))
    ref('points_chunks', 'C21 C23',
        (PCR, cut(PCR, '    if point_cloud_bytes.len() % (4', '}\n\npub fn read_from_file'), '''    let records = point_cloud_bytes.chunks_exact(16);
    if !records.remainder().is_empty() {
        return Err(std::io::Error::new(
            std::io::ErrorKind::InvalidData,
            "Invalid data length",
        ));
    }
    let value = |bytes: &[u8]| f32::from_ne_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
    let points = records
        .map(|record| {
            crate::geom::Point3::new(value(&record[0..4]), value(&record[4..8]), value(&record[8..12]))
        })
        .collect::<Vec<_>>();
    Ok(PointCloud3::from_points(&points))
'''), (PCR, 'use byteorder::ReadBytesExt;\n\n', ''))
    ref('points_cursor', 'C21 C23',
        (PCR, cut(PCR, '    let mut point_cloud_buf = vec!', '    Ok(PointCloud3::from_data'), '''    let mut reader = &point_cloud_bytes[..];
    let mut point_cloud_buf = Vec::with_capacity(point_cloud_buf_size);
    for _ in 0..point_cloud_buf_size {
        point_cloud_buf.push(reader.read_f32::<byteorder::NativeEndian>()?);
    }
'''))
    ref('pose_iter', 'C22 C23',
        (OXT, cut(OXT, '    let str_values = buffer', '    if let Some(gps_origin) = gps_origin'), '''    let mut fields = [""; 6];
    let mut values = buffer.split(' ');
    for field in fields.iter_mut() {
        *field = match values.next() {
            Some(value) => value,
            None => {
                return Err(std::io::Error::new(
                    std::io::ErrorKind::InvalidData,
                    "Invalid data length",
                ))
            }
        };
    }
    let [lat, lon, alt, roll, pitch, yaw] = fields;
    let rotation = na::UnitQuaternion::<f32>::from_euler_angles(
        str_to_float(roll)?,
        str_to_float(pitch)?,
        str_to_float(yaw)?,
    );
    let gps_point =
        na::Translation3::<f64>::new(str_to_float(lat)?, str_to_float(lon)?, str_to_float(alt)?);
'''))
    ref('pose_origin', 'C22 C23',
        (OXT, cut(OXT, '    if let Some(gps_origin) = gps_origin', '}\n\npub fn read_from_file'), '''    let gps_origin = gps_origin.unwrap_or(gps_point);
    Ok((Pose3::from_parts(gps_to_meters(&gps_point, &gps_origin), rotation), gps_origin))
'''),
        (OXT, '(dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32', '(dlat / 360.0 * EARTH_POLE_CIRCUMFERENCE) as f32'))
    ref('dir_loop', 'C23',
        (FS, cut(FS, '    let mut paths = std::fs', '    Ok(paths)'), '''    let mut paths = Vec::new();
    for entry in std::fs::read_dir(dir)? {
        paths.push(entry?.path());
    }
    paths.sort_by(|a, b| a.file_name().cmp(&b.file_name()));
'''),
        (OXT, cut(OXT, '            match read_from_file(&path, gps_origin) {', '        })\n        .collect()'), '''            let (pose, new_gps_origin) = read_from_file(&path, gps_origin)?;
            gps_origin.replace(new_gps_origin);
            Ok(pose)
'''))
    ref('dir_btree', 'C23',
        (FS, cut(FS, '    let mut paths = std::fs', '}\n'), '''    let sorted = std::fs::read_dir(dir)?
        .map(|entry| entry.map(|entry| entry.path()))
        .collect::<std::io::Result<std::collections::BTreeSet<_>>>()?;
    Ok(sorted.into_iter().collect())
'''),
        (PCR, '            read_from_file(&path)\n', '            let mut file = std::fs::File::open(&path)?;\n            read(&mut file)\n'))
    ref('cloud', 'C24 C16 C21',
        (PC, cut(PC, '        self.points_iter()\n            .fold(', '    }\n}\n\nimpl PointCloud<na::U3>'), '''        let mut bounds = Bounds::<NaD>::empty();
        for col in self.data.column_iter() {
            for i in 0..col.len() {
                bounds.min[i] = bounds.min[i].min(col[i]);
                bounds.max[i] = bounds.max[i].max(col[i]);
            }
        }
        bounds
'''),
        (PC, 'self.data.shape().1', 'self.data.ncols()'),
        (PC, cut(PC, '        let homogeneous_mat', '    }\n}\n\n#[cfg'), '''        let mut transformed = self.clone();
        for mut col in transformed.data.column_iter_mut() {
            let moved = transform * na::Vector4::new(col[0], col[1], col[2], 1.0);
            col.copy_from(&moved.fixed_rows::<na::U3>(0));
        }
        transformed
'''))
    ref('cloud_affine', 'C24',
        (PC, cut(PC, '        let homogeneous_mat', '    }\n}\n\n#[cfg'), '''        let linear = transform.fixed_slice::<na::U3, na::U3>(0, 0).into_owned();
        let shift = transform.fixed_slice::<na::U3, na::U1>(0, 3).into_owned();
        let points = self
            .points_iter()
            .map(|point| Point::<na::U3>::from(linear * point.coords + shift))
            .collect::<Vec<_>>();
        PointCloud::from_points(&points)
'''))
    ref('math', 'C25 C26 C11 C18',
        (MATH, cut(MATH, '    if value == 0.0 {', '}\n\npub fn logodds'), '''    (value > 0.0) as i32 as f32 - (value < 0.0) as i32 as f32
'''),
        (MATH, '(probability / (1.0 - probability)).ln()', 'let odds = probability / (1.0 - probability);\n    odds.ln()'),
        (VEC, 'Vector::<NaD>::from(vec.column(0).map(|coord| math::f32_signum(coord)))', 'vec.map(math::f32_signum)'))
    ref('bounds_misc', 'C02 C03 C07 C09 C10 C27 C28',
        (BND, '''        let cell_bounds = CellBounds::<NaD> {
            min: Cell::<NaD>::from(Cell::<NaD>::origin() + &offset.coords),
            max: Cell::<NaD>::from(size_cells + &offset.coords),
        };
        Self::from_cell_bounds(&cell_bounds, resolution)''', '''        let max = offset + &size_cells.coords;
        Self::from_cell_bounds(&CellBounds { min: offset.clone(), max }, resolution)'''),
        (BND, 'assert!(*min_val <= *max_val);', 'if !(min_val <= max_val) {\n                panic!("bounds with min above max");\n            }'),
        (CB, '        if *bounds == Bounds::<NaD>::empty() {\n            return CellBounds::empty()\n        }\n', ''))

    ref('math_recip', 'C25 C26 C18',
        (MATH, '    1.0 - (1.0 / (1.0 + logodds.exp()))', '    let miss = (1.0 + logodds.exp()).recip();\n    1.0 - miss'),
        (MATH, '    (probability / (1.0 - probability)).ln()', '    let complement = 1.0 - probability;\n    f32::ln(probability / complement)'))
    ref('bounds_all', 'C27 C04 C10 C03',
        (BND, """        for (min_val, max_val) in min.iter().zip(max.iter()) {
            assert!(*min_val <= *max_val);
        }
        Bounds { min: min, max: max }""", """        let ordered = min.iter().zip(max.iter()).all(|(low, high)| low <= high);
        assert!(ordered, "bounds with their minimum above their maximum");
        Bounds { min, max }"""),
        (CB, """        for (min_val, max_val) in min.iter().zip(max.iter()) {
            assert!(*min_val <= *max_val);
        }
""", """        for i in 0..min.coords.len() {
            assert!(max[i] >= min[i]);
        }
"""))
    ref('map_ctor', 'C28 C08 C20',
        (GM, cut(GM, '        GridMapN {\n            data: ndarray_with_bounds(', '    }\n\n    pub fn default() -> Self {'), """        let data = ndarray_with_bounds(resolution, &bounds, default_value);
        Self::from_ndarray(data, resolution, bounds, tile_size)
"""),
        (GM, cut(GM, '        GridMapN {\n            data: nd::Array::<A, NdD>::from_shape_vec', '    }\n\n    /// You almost'), """        let data = nd::Array::<A, NdD>::from_shape_vec(NdD::zeros(NdD::NDIM.unwrap()), Vec::new()).unwrap();
        Self::from_ndarray(data, DEFAULT_RESOLUTION, Bounds::empty(), DEFAULT_TILE_SIZE)
"""))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    refs()
    tier, only_test, props, ids = 'quick', False, None, []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == '-T': tier = a.pop(0)
        elif x == '-t': only_test = True
        elif x == '-p': props = a.pop(0).split(',')
        else: ids.append(x)
    for id, pp, edits in R:
        if ids and id not in ids:
            continue
        try:
            for f, old, new in edits:
                s = open('/repo/' + f).read()
                if old not in s:
                    print(id, 'does not match', repr(old)[:80])
                open('/repo/' + f, 'w').write(s.replace(old, new))
            t = sh('cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|^error|^  *-->" | head -12', cwd='/repo')
            if '62 passed' not in t.stdout:
                print(id, 'BAD EDIT', t.stdout, flush=True)
                continue
            if only_test:
                print(id, 'ok', flush=True)
                continue
            for q in props or pp:
                t0 = time.time()
                r = sh('./check %s --tier %s' % (q, tier), cwd=ROOT)
                bad = [l for l in r.stdout.split('\n') if 'UNDECIDED' in l or 'VIOLATION' in l or 'vacuous' in l]
                print('%s %s exit %d %.0f s %s' % (id, q, r.returncode, time.time() - t0, bad[:3] if r.returncode == 0 else r.stdout[-600:]), flush=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'], check=True)


main()
