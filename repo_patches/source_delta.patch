From b2a70a0c41624f51e1b50f177898c5d8fa2f7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 1/4] fix: allocate the cell of points in the last half cell
 when expanding a grid map

A point less than half a cell below the discretized max of the requested
bounds rounds to the next cell up. When that max was on a tile boundary the
cell was not allocated and accessing it panicked.
---
 src/map/grid_map.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..1de6929 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,16 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
+        // Add a cell to the max before discretizing. Cells are centered on multiples of the
+        // resolution, so a point less than half a cell below the discretized max (or exactly on it)
+        // belongs to the next cell up, which must be allocated too.
+        let padded_bounds = Bounds2::new(
+            bounds.min,
+            Point::from(bounds.max.coords.add_scalar(self.resolution)),
+        );
         let new_bounds = self
             .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+            .enclosing(&padded_bounds.discretized(self.resolution, false));
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +260,16 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
+        // Add a cell to the max before discretizing. Cells are centered on multiples of the
+        // resolution, so a point less than half a cell below the discretized max (or exactly on it)
+        // belongs to the next cell up, which must be allocated too.
+        let padded_bounds = Bounds3::new(
+            bounds.min,
+            Point::from(bounds.max.coords.add_scalar(self.resolution)),
+        );
         let new_bounds = self
             .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+            .enclosing(&padded_bounds.discretized(self.resolution, false));
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From ada690bc28c90ce9ee8692b6aa4e94f97d787e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:19 +0000
Subject: [PATCH 2/4] fix: include the sensor origin in the map when
 integrating a point cloud

Rays start at the origin, so a scan taken from outside of the current map
indexed cells that were never allocated and panicked.
---
 src/map/lidar_noise_model.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..6cc04cf 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -1,3 +1,4 @@
+use crate::geom::Bounds;
 use crate::geom::Cell;
 use crate::geom::CellToNdIndex;
 use crate::geom::Point;
@@ -119,7 +120,10 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start at the origin, so it must be inside the map as well as the points.
+        let scan_bounds =
+            Bounds::new(origin.clone(), origin.clone()).enclosing(&point_cloud.bounds());
+        grid_map.expand_bounds(&scan_bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From eead44cb42dd44dd5752b09e601cf1b7668b2794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:06 +0000
Subject: [PATCH 3/4] fix: never step past the end cell when casting a ray

Rounding errors accumulated in t_max could make the walk pass the end cell
along one axis. It then missed the end cell, so the ray ran on to the range
limit, or forever without one.
---
 src/ray_caster.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..d42ff64 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -76,7 +76,8 @@ where
     let ray = end - origin;
     let ray_length = ray.norm();
     let direction = ray / ray_length;
-    let step = geom::vector::signum(&direction);
+    // Step towards the end cell, and only along the axes where it differs from the origin cell.
+    let step = geom::vector::signum(&(&end_cell - &origin_cell).map(|diff| diff as f32));
     let mut current_cell = origin_cell.clone();
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
@@ -91,7 +92,9 @@ where
             bounds.min[i],
             resolution,
         ) + step[i] * resolution * 0.5;
-        t_max[i] = (cell_border - origin[i]) / direction[i];
+        // Keep t_max finite, so that an axis that still has borders to cross is always chosen before
+        // one that does not.
+        t_max[i] = ((cell_border - origin[i]) / direction[i]).min(std::f32::MAX);
         t_delta[i] = resolution / direction[i].abs();
     }
     loop {
@@ -119,7 +122,13 @@ where
             }
         };
         current_cell[dim] += step[dim] as isize;
-        t_max[dim] += t_delta[dim];
+        // Rounding errors accumulate in t_max, so never step past the end cell along any axis.
+        // Otherwise the end cell would be missed and the loop would not end.
+        t_max[dim] = if current_cell[dim] == end_cell[dim] {
+            std::f32::INFINITY
+        } else {
+            (t_max[dim] + t_delta[dim]).min(std::f32::MAX)
+        };
         if current_cell == end_cell {
             break;
         }
-- 
2.43.0


From a76e271c3cabb4781b3132b99f5dace2c06d3a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 4/4] fix: scale longitude by the cosine of the origin latitude

The length of a degree of longitude depends on the latitude itself, not on the
difference of the latitudes of the two points.
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0

