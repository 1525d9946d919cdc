#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"),s)) for s in state],
            mechanism=[dict(name=n, where=w) for n,w in mechanism], observe_at=observe, hook_needed=hook)))

p("C01", "Point/cell conversion round-trips and is accurate to half a cell",
  "For every grid frame (offset and positive resolution) and every cell, converting the cell to its centre point and back yields the same cell, in 2-D and 3-D and also through a grid map's own conversions. Every point is assigned a cell whose centre is at most half a resolution away on each axis (up to floating-point rounding), neighbouring cells' centres are exactly one resolution apart, and each axis depends only on that axis's own coordinate, offset and resolution.",
  ["inputs"], "all cells and points in a stated coordinate range, for a set of representative resolutions and symbolic offsets",
  "The tests sample 200 points on one diagonal for one resolution and one offset; the claim is for every coordinate, including the ones next to cell borders and far from the origin.",
  ["src/geom/converter.rs","src/map/grid_map.rs"],
  [("round((p-offset)/resolution)","src/geom/converter.rs cell_coord_from_point_coord"),("cell*resolution+offset","src/geom/converter.rs point_coord_from_cell_coord")],
  ["geom::converter::{cell_from_point,point_from_cell}","GridMap::{cell_from_point,point_from_cell}"])

p("C02", "Per-axis-resolution conversions agree with the uniform ones axis by axis",
  "The conversions that take one resolution per axis (points to cells, cells to points, cell bounds to bounds, sizes to bounds) give, on every axis, exactly the result that the single-resolution conversion gives for that axis's coordinate, offset and resolution. A size in cells placed at a cell offset gives bounds that start at the offset cell and span exactly the size.",
  ["inputs"], "all coordinates, offsets and resolutions in a stated range, 2-D and 3-D",
  "The tests use one resolution triple with the same cell on every axis, so axes mixed up, or an offset applied to only one end, can go unnoticed.",
  ["src/geom/converter.rs","src/geom/bounds.rs"],
  [("zip over coords, offset, resolution","src/geom/converter.rs *_n"),("from_size_cells(_n)","src/geom/bounds.rs")],
  ["converter::{cell_from_point_n,point_from_cell_n}","Bounds::{from_cell_bounds,from_cell_bounds_n,from_size_cells,from_size_cells_n}"])

p("C03", "Enclosing bounds are the least box containing both boxes",
  "The box enclosing two bounds contains both of them and every face of it is a face of one of the two (so nothing smaller contains both); an empty left operand is ignored and the right one is returned unchanged. Enclosing a box with itself or with a box it already contains changes nothing, and empty bounds are degenerate at the origin.",
  ["inputs"], "all pairs of finite f32 boxes with min <= max, 2-D and 3-D",
  "The tests check three hand-picked configurations per dimension; one axis or one face handled wrongly only shows for other relative positions.",
  ["src/geom/bounds.rs"], [("enclosing","src/geom/bounds.rs"),("empty","src/geom/bounds.rs")], ["Bounds::enclosing","Bounds::empty","Bounds::new"])

p("C04", "Overlap of two bounds is their intersection, and empty when disjoint",
  "The overlap of two bounds is the intersection box on every axis when the boxes overlap by more than rounding error on all axes, and the empty bounds when they are disjoint or only touch on some axis. The result does not depend on the order of the operands and lies inside both boxes when not empty.",
  ["inputs"], "all pairs of finite f32 boxes with min <= max, 2-D and 3-D",
  "The tests check corner overlaps and containment for fixed boxes; touching faces, thin overlaps and separation on a single later axis are not covered.",
  ["src/geom/bounds.rs"], [("overlapping","src/geom/bounds.rs")], ["Bounds::overlapping"])

p("C05", "Snapping bounds to the resolution contains them and grows them by under a cell",
  "Snapping bounds outward to a resolution yields bounds whose faces lie on multiples of the resolution (up to rounding), which contain the original bounds, and which exceed them by less than one resolution on each face. With the expand option a maximum that already lies on a multiple is moved out by exactly one resolution and nothing else changes.",
  ["inputs"], "all boxes in a stated coordinate range, a set of resolutions, 2-D and 3-D, expand on and off",
  "The tests snap one box per dimension; the behaviour next to multiples of the resolution and for negative coordinates is decided by rounding and a relative comparison.",
  ["src/geom/bounds.rs"], [("discretized","src/geom/bounds.rs")], ["Bounds::discretized"])

p("C06", "Rounding cell bounds to tiles is outward, tile-aligned and minimal",
  "Rounding cell bounds to a tile size yields bounds whose corners are multiples of the tile size, which contain the original cell bounds and exceed them by less than one tile on every side, for negative, zero and positive coordinates alike. Rounding again with the same tile size changes nothing.",
  ["inputs"], "all cell coordinates within +-2^40 and all tile sizes up to a stated bound, 2-D and 3-D",
  "The tests check a few boxes with tile sizes 2 and 100; the four sign/remainder cases per face are sampled at single points.",
  ["src/geom/cell_bounds.rs"], [("discretized","src/geom/cell_bounds.rs")], ["CellBounds::discretized","CellBounds::{new,empty}"])

p("C07", "Cell bounds and world bounds convert back and forth without drift",
  "Converting cell bounds to world bounds and back at the same resolution returns the same cell bounds, and world bounds whose faces lie on multiples of the resolution convert to exactly those multiples, with empty bounds converting to empty cell bounds. A corner that lies elsewhere converts to the cell it lies in (the nearest multiple, up to floating-point rounding). Minimum and maximum are converted independently and never exchanged.",
  ["inputs"], "all cell bounds in a stated range for a set of resolutions, 2-D and 3-D",
  "The tests convert two boxes of at most three cells; drift from rounding shows only far from the origin.",
  ["src/geom/bounds.rs","src/geom/cell_bounds.rs"], [("from_bounds","src/geom/cell_bounds.rs"),("from_cell_bounds","src/geom/bounds.rs")], ["CellBounds::from_bounds","Bounds::from_cell_bounds"])

p("C08", "A grid map stores one independent value per cell",
  "A new grid map has one cell per resolution step of its bounds, all holding the default value, and afterwards each cell reads back the last value written to it while a write leaves all other cells unchanged, for every sequence of writes. Reading or writing a cell outside the map, including negative coordinates, stops with a panic and never reaches another cell.",
  ["inputs","histories"], "all write histories up to a stated length over all cells, and all out-of-range cells, of 2-D and 3-D maps of stated sizes",
  "The tests read and write at most two cells of one 2x2(x2) map; aliasing between cells, transposed axes on non-square maps and out-of-range cells are untested.",
  ["src/map/grid_map.rs","src/geom/cell.rs"], [("get/set through to_ndindex","src/map/grid_map.rs"),("to_ndindex transmute","src/geom/cell.rs"),("ndarray_with_bounds","src/map/grid_map.rs")],
  ["GridMapN::new","GridMap::{get,set,resolution,bounds}"], [("data","cell values","GridMapN.data")])

p("C09", "Expanding a grid map keeps every stored value at its world position",
  "After a grid map whose bounds lie on multiples of its resolution is expanded, each cell that existed before still holds its value at the same world position, every new cell holds the given default, and the new bounds contain the old ones, for any sequence of expansions in any direction. Resolution, tile size and change log are unaffected.",
  ["inputs","histories"], "all requested boxes in a stated range around maps of stated sizes, 2-D and 3-D, histories of up to two expansions",
  "The tests grow one map by two cells towards + or - on all axes at once; growth on one axis only, unequal growth per axis and repeated growth are untested.",
  ["src/map/grid_map.rs"], [("expand_bounds copies the old block at the offset","src/map/grid_map.rs ExpandableGridMap for 2-D and 3-D")],
  ["ExpandableGridMap::expand_bounds","GridMap::get"], [("data","cell values","GridMapN.data"),("bounds","world extent","GridMapN.bounds")])

p("C10", "After an expansion every point of the requested box has an allocated cell",
  "After a grid map is expanded by a box, every point of that box (faces included) maps to a cell that can be read and written without a panic, and the map's bounds cover the box, lie on multiples of the tile size and match the allocated cells. Expanding again by the same box changes nothing.",
  ["inputs"], "all boxes and points in a stated range, a set of resolutions and tile sizes, starting from empty and non-empty maps, 2-D and 3-D",
  "The tests ask for boxes lying on cell multiples only; whether a point in the last half cell before a tile edge is allocated depends on its exact coordinate.",
  ["src/map/grid_map.rs","src/geom/bounds.rs","src/geom/cell_bounds.rs"], [("discretize, enclose, round to tiles, allocate","src/map/grid_map.rs expand_bounds")],
  ["ExpandableGridMap::expand_bounds","GridMap::{cell_from_point,get,bounds}"], [("bounds","world extent","GridMapN.bounds")])

p("C11", "Ray casting always ends and walks face-adjacent cells from start to end",
  "For every origin and end point, casting a ray terminates; the cells it returns start with the origin's cell, each next cell differs from the previous one by one step along exactly one axis towards the end cell, and the walk reaches the end cell in the smallest possible number of steps without ever passing it. The end cell is reported separately and is never among the ray's cells, and when origin and end share a cell the ray is empty and that cell is the end.",
  ["inputs"], "all f32 origins, ends and bounds whose cells are at most a stated number of steps apart, 2-D and 3-D, any resolution, no range limit",
  "The tests trace about twenty fixed rays; accumulated rounding that makes the traversal miss the end cell appears for roughly one random ray in 30 000.",
  ["src/ray_caster.rs"], [("voxel traversal loop (t_max/t_delta)","src/ray_caster.rs cast_ray")], ["ray_caster::cast_ray"])

p("C12", "Every cell on a cast ray is touched by the segment, up to rounding",
  "Every cell returned for a ray, and the reported end cell, is crossed or touched by the straight segment from the origin to the end point, up to floating-point rounding. The cells are returned in the order in which the segment meets them.",
  ["inputs"], "all origins within a cell for a stated set of ray vectors (all octants, axis-aligned, diagonal and slanted), 2-D and 3-D, stated resolutions and bounds offsets",
  "The tests compare with expected cell lists for a few rays that start within 0.01 of a cell centre; where the ray starts inside its cell decides which cells it crosses.",
  ["src/ray_caster.rs","src/geom/vector.rs"], [("t_max/t_delta initialisation and minimum selection","src/ray_caster.rs cast_ray"),("signum","src/geom/vector.rs")], ["ray_caster::cast_ray"])

p("C13", "The range limit cuts a ray at the first cell beyond it and drops the end",
  "With a positive range limit a cast ray equals the unlimited ray up to, and not including, the first cell after the start that is not the end cell and whose centre is farther from the origin than the limit; in that case no end cell is reported. If no such cell exists, or the limit is zero or negative, the full ray and its end cell are returned.",
  ["inputs"], "all origins within a cell and all limits for a stated set of ray vectors, 2-D and 3-D",
  "One limit per dimension is tested on one ray each; the limit zero, negative limits and limits next to a cell's distance are not.",
  ["src/ray_caster.rs"], [("norm_squared > max_len_sq","src/ray_caster.rs cast_ray")], ["ray_caster::cast_ray"])

p("C14", "A scan's cells are the union of its rays, and a hit cell is never free",
  "Casting a point cloud yields as occupied exactly the end cells reported by the individual rays and as free exactly the cells of the individual rays that are not occupied; a cell is never both. The result does not depend on the order of the points or on repeated points, and an empty cloud yields nothing.",
  ["inputs"], "all clouds of up to three points in a stated range, 2-D and 3-D, with and without range limit",
  "The tests cast one cloud per dimension; a point whose ray passes through another point's hit cell, duplicated points and truncated rays are not in them.",
  ["src/ray_caster.rs"], [("fold into two sets, then remove occupied from free","src/ray_caster.rs cast_rays")], ["ray_caster::cast_rays"])

p("C15", "A hit or miss moves one cell's log-odds by the model's step, clamped",
  "Recording a hit sets the cell to its value plus the hit step, capped at the maximum; recording a miss sets it to its value plus the miss step, floored at the minimum; no other cell changes. For a model with hit probability of at least one half and miss probability of at most one half, a value inside the limits stays inside after any sequence of hits and misses, hits never lower and misses never raise it, and no update of a finite value yields NaN.",
  ["inputs","histories"], "all finite f32 cell values and model parameters; one inductive step from any value inside the limits, plus histories of stated length",
  "The tests follow one model through six identical scans; other parameters, alternating hits and misses, and values next to the limits are not reached.",
  ["src/map/lidar_noise_model.rs"], [("integrate_hit min, integrate_miss max","src/map/lidar_noise_model.rs")], ["LidarNoiseModel::{integrate_hit,integrate_miss}"], [("cell value","log-odds","GridMapN.data")])

p("C16", "Integrating a scan updates exactly the hit and free cells, once each, anywhere",
  "Integrating a point cloud from any sensor position, inside or outside the current map, never panics and grows the map to hold every traversed cell; afterwards each occupied cell has received exactly one hit and each free cell exactly one miss, however many rays met it, and all other cells keep their value (new ones the model's default). The values at world positions from earlier scans are preserved when the map grows.",
  ["inputs","histories"], "all sensor positions and clouds of up to two points in a stated range, empty and non-empty maps, 2-D and 3-D, up to two scans",
  "The tests integrate one cloud around a sensor at the origin into a map that is large enough; sensor positions outside the map, points near tile edges and growth between scans are untested.",
  ["src/map/lidar_noise_model.rs","src/map/grid_map.rs","src/ray_caster.rs","src/geom/point_cloud.rs"], [("expand, cast, miss free cells, hit occupied cells","src/map/lidar_noise_model.rs integrate_point_cloud")],
  ["NoiseModel::integrate_point_cloud","OccupancyGridMapN::integrate_point_cloud"], [("data","log-odds","GridMapN.data")])

p("C17", "The change log lists exactly the cells updated while tracking was on",
  "While change tracking is on, integrating a scan appends each updated cell exactly once to the change log and nothing else; while it is off the log stays as it is. Tracking is off in a new map; adding appends in order, clearing empties the log, and neither reading the log nor switching tracking alters it.",
  ["inputs","histories"], "all scans of up to two points in a stated range, and all histories of log operations up to a stated length",
  "No test switches tracking on.",
  ["src/map/grid_map.rs","src/map/lidar_noise_model.rs"], [("track_changes/changed_cells","src/map/grid_map.rs"),("changed_cells.push per updated cell","src/map/lidar_noise_model.rs")],
  ["GridMap::{track_changes,set_track_changes,changed_cells,clear_changed_cells,add_changed_cells}"], [("changed_cells","change log","GridMapN.changed_cells")])

p("C18", "A cell is occupied exactly when its log-odds exceed the model's threshold",
  "A cell is reported occupied exactly when its value is strictly greater than the model's occupancy threshold. Building a model stores the log-odds of each of its probabilities in the matching setting and the range limit unchanged, and rejects every probability that is not a number in [0, 1]; a default cell is unknown (log-odds zero), and the default model does not report it occupied.",
  ["inputs"], "all f32 values, thresholds and constructor arguments, NaN and infinities included (the logarithm is an uninterpreted function)",
  "The tests use the default model only; invalid probabilities, other thresholds and values equal to the threshold are not exercised.",
  ["src/map/lidar_noise_model.rs","src/math.rs"], [("get > threshold","src/map/lidar_noise_model.rs occupied"),("asserts in new","src/map/lidar_noise_model.rs new")], ["LidarNoiseModel::{new,default}","NoiseModel::{occupied,default_cell_value}"])

p("C19", "An occupancy map behaves as its grid map and noise model do",
  "Every operation of an occupancy grid map gives the result, and has the effect, of the same operation on its grid map and noise model: reading and writing cells, coordinate conversion, bounds, resolution, change log, occupancy queries and scan integration. A new occupancy map is empty, has the given resolution and tile size and starts from the model's default value.",
  ["inputs","histories"], "all cells, points, values and operations in a stated range, 2-D and 3-D",
  "No test builds an occupancy grid map.",
  ["src/map/occupancy_grid_map.rs"], [("delegation","src/map/occupancy_grid_map.rs")], ["OccupancyGridMapN"], [("grid_map","the wrapped map","OccupancyGridMapN.grid_map")])

p("C20", "A copied grid map equals the original and is independent of it",
  "A clone of a grid map has the same values, resolution, bounds, tile size, tracking switch and change log as the original at the time of cloning. Later writes, expansions or log changes to either one are not visible in the other.",
  ["inputs","histories"], "all small 2-D and 3-D maps with arbitrary contents, all single later operations on either copy",
  "No test clones a map.",
  ["src/map/grid_map.rs"], [("impl Clone","src/map/grid_map.rs")], ["GridMapN::clone"])

p("C21", "The KITTI point reader decodes every record or rejects the input",
  "Reading a KITTI point-cloud stream of n 16-byte records returns exactly n points in stream order, whose coordinates are bit for bit the first three native-endian f32 of each record, with the fourth dropped. A stream whose length is not a multiple of 16 bytes is rejected with an error, and no input of any length makes the reader panic.",
  ["inputs"], "all byte strings up to a stated length, however the stream splits its reads",
  "The reader has no test.",
  ["src/kitti/point_cloud_reader.rs"], [("length check, read_f32_into, drop each fourth value","src/kitti/point_cloud_reader.rs read")], ["kitti::point_cloud_reader::read"])

p("C22", "The KITTI pose reader maps each field to its component of the local pose",
  "Reading an OXTS record takes latitude, longitude, altitude, roll, pitch and yaw from its first six fields; with a reference point the translation is east, north, up metres relative to it (east scaled by the cosine of the reference latitude), without one it is zero and the record's own position becomes the reference, and a given reference is returned unchanged. A record with fewer than six fields or a malformed field among them is rejected with an error and never a panic.",
  ["inputs"], "all latitude/longitude/altitude differences and angles in stated ranges, all records over a small alphabet up to a stated length",
  "The reader has no test.",
  ["src/kitti/oxt_reader.rs"], [("split, parse, gps_to_meters","src/kitti/oxt_reader.rs")], ["kitti::oxt_reader::read"])

p("C23", "Reading a KITTI directory yields every frame once, in file-name order",
  "Reading a directory of frames returns one result per file, in byte-wise file-name order whatever order the operating system lists them in; poses are all relative to the first file's position. A file or directory that cannot be read, or a malformed file, makes the whole read return an error.",
  ["inputs","fault_sequences"], "all listing orders of up to three files, all positions in a stated range, a failure at any file or at the directory",
  "No test reads a directory, and one listing order on one file system would not settle it.",
  ["src/kitti/fs.rs","src/kitti/oxt_reader.rs","src/kitti/point_cloud_reader.rs"], [("collect and sort","src/kitti/fs.rs seq_files_in_dir"),("origin carried from the first file","src/kitti/oxt_reader.rs read_from_dir")], ["kitti::fs::seq_files_in_dir","kitti::*::read_from_dir"])

p("C24", "A point cloud preserves its points, bounds them and transforms them rigidly",
  "A point cloud built from points holds exactly those points in order. Its bounds contain every point (a coordinate that is not a number hides no other coordinate) and each face is either at the origin or at some point's coordinate. Transforming a 3-D cloud by a 4x4 affine matrix maps each point to the matrix applied to it, in order, leaving the original unchanged.",
  ["inputs"], "all clouds of up to a stated number of points, f32 coordinates; for the transform, all integer-valued matrices and points in a stated range",
  "The tests build two points and count seven; there is no test of transform, and bounds are checked for one cloud.",
  ["src/geom/point_cloud.rs"], [("column-major matrix storage","src/geom/point_cloud.rs"),("bounds fold","src/geom/point_cloud.rs"),("homogeneous product","src/geom/point_cloud.rs transform")], ["PointCloud::{from_points,from_data,points_iter,num_points,bounds,transform}"])

p("C25", "Sign and log-odds helpers are exact where exactness is possible",
  "The sign helpers return -1, 0 or 1 according to the sign of each component, for every f32 including signed zeros, subnormals and infinities. The log-odds of a probability is the logarithm of p/(1-p), so 1/2 maps to 0, larger probabilities never map to smaller log-odds and 0 and 1 map to minus and plus infinity; the probability of a log-odds value is 1-1/(1+exp(l)), never outside [0, 1], never decreasing, and 1/2 at 0.",
  ["inputs"], "all f32 values; ln and exp are uninterpreted monotone functions with their documented special values",
  "The tests sample five or six values per function.",
  ["src/math.rs","src/geom/vector.rs"], [("f32_signum","src/math.rs"),("logodds_from_probability, probability_from_logodds","src/math.rs")], ["math::*","geom::vector::signum"])

p("C26", "Probability and log-odds conversions invert each other numerically",
  "Converting a probability to log-odds and back returns the probability up to a few units in the last place of 1 (0, 1/2 and 1 come back exactly). Converting a log-odds value to a probability and back returns it up to the same error magnified by e^|l|, which is what one rounding of the probability amounts to.",
  ["inputs"], "all f32 probabilities between 0 and 1; all f32 log-odds in a stated range; any results of ln and exp within the accuracy of libm",
  "The tests sample six values in each direction and never compose the two.",
  ["src/math.rs"], [("ln/exp of libm","src/math.rs")], ["math::{logodds_from_probability,probability_from_logodds}"])

p("C27", "Boxes keep their corners, refuse inverted ones and compare corner by corner",
  "Bounds and cell bounds built from a minimum and a maximum corner hold exactly those corners, and building them is refused with a panic whenever the minimum exceeds the maximum (or, for bounds, is not comparable with it) on any axis, whatever the other axes hold; the written-out forms (the point, cell and bounds macros) hold the values in the order given. Two boxes are equal exactly when all their corner coordinates are, and approximately equal exactly when every corner coordinate is within the same tolerances.",
  ["inputs"], "all f32 corners including NaN and infinities, all cells in a stated range, 2-D and 3-D; for approximate equality any two values in any one coordinate",
  "No test builds inverted bounds, on any axis, and the tests compare a handful of boxes that are equal or nearly so on all axes at once.",
  ["src/geom/bounds.rs","src/geom/cell_bounds.rs","src/geom/point.rs","src/geom/cell.rs"], [("assert over zip(min, max)","src/geom/bounds.rs new"),("assert over zip(min, max)","src/geom/cell_bounds.rs new"),("AbsDiffEq, RelativeEq","src/geom/bounds.rs")], ["Bounds::new","CellBounds::{new,empty}","bounds2!/bounds3!/cell_bounds2!/cell_bounds3!/point2!/point3!/cell2!/cell3!","Bounds: PartialEq, AbsDiffEq, RelativeEq"])

p("C28", "A map made from an array holds its elements, and a default map is empty and usable",
  "A grid map made from an n-dimensional array holds, in each cell, the array's element at the same index whatever the array's memory layout, with the given resolution, bounds and tile size, tracking off and an empty change log, and a write to it changes one cell only. A default map has no cells (reading any cell panics), empty bounds, the default resolution and tile size and no tracking, and it can be expanded and written like any other map.",
  ["inputs"], "arrays of a stated shape in both memory orders with any elements, bounds and tile size; any cell of a default map",
  "The tests use arrays with equal or few different elements in one memory order and never look at a default map.",
  ["src/map/grid_map.rs"], [("from_ndarray, default","src/map/grid_map.rs GridMapN"),("index of a cell","src/geom/cell.rs to_ndindex")], ["GridMapN::{from_ndarray,default}","GridMap::{get,set,bounds,resolution,track_changes,changed_cells}","ExpandableGridMap::expand_bounds"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")
