From f4a369452842b2d1cf222c19a629cb5cdf51a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 01/47] fix: selector ranges for clouds and density used the
 radius list

A two element cloud or density list is a range only if the list itself has
two elements, and the upper density bound is the second density, not the
second radius.
---
 src/particleselector.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particleselector.rs b/src/particleselector.rs
index d5ee735..63a3543 100644
--- a/src/particleselector.rs
+++ b/src/particleselector.rs
@@ -67,7 +67,7 @@ impl ParticleSelector {
         }
         if self.clouds.len() == 1 {
             cloud == self.clouds[0]
-        } else if self.radius.len() == 2 {
+        } else if self.clouds.len() == 2 {
             cloud >= self.clouds[0] && cloud <= self.clouds[1]
         } else {
             self.clouds.contains(&cloud)
@@ -80,8 +80,8 @@ impl ParticleSelector {
         }
         if self.density.len() == 1 {
             density == self.density[0]
-        } else if self.radius.len() == 2 {
-            density >= self.density[0] && density <= self.radius[1]
+        } else if self.density.len() == 2 {
+            density >= self.density[0] && density <= self.density[1]
         } else {
             self.density.contains(&density)
         }
-- 
2.43.0


From fe0f08194f74529f20640670b59acc18135d34d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 02/47] fix: cartesian lookup returned a cell that does not
 contain the position

The index was scaled with cells - 1, so with two cells every position below
the upper limit ended up in cell 0 although the cell centres are placed with
cells cells per axis.
---
 src/grid/cartesian_grid.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 254e5b3..b0a3281 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -135,13 +135,18 @@ impl GridFunctions3D for CartesianGrid3D {
             ));
         }
         let cell_idx = ((pos[0] - self.limits[0][0]) / (self.limits[0][1] - self.limits[0][0])
-            * (self.cells[0] - 1) as f64) as usize;
+            * self.cells[0] as f64) as usize;
         let cell_idy = ((pos[1] - self.limits[1][0]) / (self.limits[1][1] - self.limits[1][0])
-            * (self.cells[1] - 1) as f64) as usize;
+            * self.cells[1] as f64) as usize;
         let cell_idz = ((pos[2] - self.limits[2][0]) / (self.limits[2][1] - self.limits[2][0])
-            * (self.cells[2] - 1) as f64) as usize;
-
-        Ok([cell_idx, cell_idy, cell_idz])
+            * self.cells[2] as f64) as usize;
+
+        // a position on the upper limit belongs to the last cell
+        Ok([
+            cell_idx.min(self.cells[0] - 1),
+            cell_idy.min(self.cells[1] - 1),
+            cell_idz.min(self.cells[2] - 1),
+        ])
     }
     #[allow(dead_code, unused_variables, unreachable_code)]
     fn cell_ids_in_trajectory(
-- 
2.43.0


From 5513f0898755a2541d0b2e00164b02676ec6aab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 03/47] fix: slicing a cartesian grid at its upper limit was
 out of bounds

---
 src/grid/cartesian_grid.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index b0a3281..17483fc 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -418,6 +418,12 @@ impl GridFunctions3D for CartesianGrid3D {
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        // a position on the upper limit belongs to the last cell
+        let cell_id = if position <= self.limits[axis][1] {
+            cell_id.min(self.cells[axis] - 1)
+        } else {
+            cell_id
+        };
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 8e1af0372f61352191b52a2a0974724180b71293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:49 +0000
Subject: [PATCH 04/47] fix: new_zeros kept the weights of the source grid

---
 src/grid/cartesian_grid.rs   | 1 +
 src/grid/cylindrical_grid.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 17483fc..18e32e4 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -327,6 +327,7 @@ impl GridFunctions3D for CartesianGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 076fa23..68a526e 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -282,6 +282,7 @@ impl GridFunctions3D for CylindricalGrid3D {
     fn new_zeros(&self) -> Box<dyn GridFunctions3D> {
         let mut grid = self.clone();
         grid.data = Array::zeros(self.cells);
+        grid.weight = Array::zeros(self.cells);
         Box::new(grid)
     }
 
-- 
2.43.0


From f1cd2bdee07acb25e67eb051be2213e376c46ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 05/47] fix: cylindrical lookup was shifted by half a cell in
 angle and height

The lookup takes the cell whose angle and height position is nearest, but
the positions were the upper boundaries of the cells: the first cell took
everything up to one and a half cell sizes and the last one only half a
cell. With midpoints the nearest position is the cell that contains the
point.
---
 src/grid/cylindrical_grid.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 68a526e..7cf4d88 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -46,13 +46,13 @@ impl CylindricalGrid3D {
         let mut opositions = Array::from_elem(cells[1], 0.);
         let mut zpositions = Array::from_elem(cells[2], 0.);
 
-        // positions contain the boundary of the cell
+        // positions contain the midpoint of the cell
         for cellidy in 0..cells[1] {
-            opositions[cellidy] = -PI + cellidy as f64 * ocellsize + ocellsize;
+            opositions[cellidy] = -PI + cellidy as f64 * ocellsize + ocellsize / 2.0;
         }
 
         for cellidz in 0..cells[2] {
-            zpositions[cellidz] = cellidz as f64 * zcellsize + zcellsize + lim[2][0];
+            zpositions[cellidz] = cellidz as f64 * zcellsize + zcellsize / 2.0 + lim[2][0];
         }
         // center in cartesian coords!!!
         let center = [
-- 
2.43.0


From 5726f2d8f6c79a3381342cea9121f02f341c8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/47] fix: cylindrical lookup of a position outside the grid

A position outside the radius panicked and one above or below the grid was
counted in the nearest height cell, while the cartesian grid reports an
error that the callers treat as outside. A position inside the radius could
panic too, when the outer edge of the last shell was rounded down.
---
 src/grid/cylindrical_grid.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 7cf4d88..5effa27 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -7,7 +7,7 @@ use ndarray::{prelude::*, RemoveAxis};
 use ndarray_stats::QuantileExt;
 use std::any::Any;
 
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 // TODO
 // - Currently the cylinder is always vertical, but this should be configurable.
 #[derive(Getters, Clone, Default)]
@@ -187,6 +187,9 @@ impl GridFunctions3D for CylindricalGrid3D {
 
     fn cell_id(&self, pos: Position) -> Result<CellId> {
         print_debug!("Grid3D: Checking if {:?} is in grid", pos);
+        if !self.is_inside(pos) {
+            return Err(anyhow!("Position {:?} is outside of the grid", pos));
+        }
         let pos = &self.to_cylindrical(pos);
         let posr = pos[0];
         let mut cell_idr = None;
@@ -195,12 +198,8 @@ impl GridFunctions3D for CylindricalGrid3D {
                 cell_idr = Some(idx)
             }
         }
-        let cell_idr = cell_idr.unwrap_or_else(|| {
-            panic!(
-                "Unable to find radial cell id \n pos r:{}\nlen {:?}",
-                posr, self.rpositions
-            )
-        });
+        // rounding can leave the outer edge of the last shell just below the grid radius
+        let cell_idr = cell_idr.unwrap_or(self.cells[0] - 1);
         let poso = pos[1];
         let cell_ido = (&self.opositions - poso)
             .iter()
-- 
2.43.0


From 25460fb75384d14edebecc5a3342d87c456251ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 07/47] fix: radial slice of a cylindrical grid picked the
 wrong shell

The index was taken from equally thick shells although the shells have
equal volume, and the upper limit of an axis was out of bounds.
---
 src/grid/cylindrical_grid.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 5effa27..8ffa6e6 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -373,6 +373,19 @@ impl GridFunctions3D for CylindricalGrid3D {
         let cell_id = ((position - self.limits[axis][0])
             / (self.limits[axis][1] - self.limits[axis][0])
             * self.cells[axis] as f64) as usize;
+        let cell_id = if axis == 0 {
+            // the shells have equal volume, not equal thickness
+            let shell = |r: &[f64; 2]| position >= r[0] && position <= r[1];
+            self.rpositions.iter().rposition(shell).unwrap_or(cell_id)
+        } else {
+            cell_id
+        };
+        // a position on the upper limit belongs to the last cell
+        let cell_id = if position <= self.limits[axis][1] {
+            cell_id.min(self.cells[axis] - 1)
+        } else {
+            cell_id
+        };
 
         if axis == 0 {
             self.data.slice(s![cell_id, .., ..]).to_owned()
-- 
2.43.0


From 51a71dba5d65282f85a228756fa50487b87353be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/47] fix: fields accumulated on top of the values of the
 grid passed in

vectorfield, dispersion and granular_temperature_field started their sums
with the data of the grid that only defines the region, so using a grid that
already held a result gave wrong fields.
---
 src/functions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 32fb8ad..250bc1b 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -29,7 +29,7 @@ pub trait Granular: DataManager {
     ) -> VectorGrid {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        let mut vectorgrid = VectorGrid::new(gridbox);
+        let mut vectorgrid = VectorGrid::new(gridbox.new_zeros());
         for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -464,6 +464,7 @@ pub trait Granular: DataManager {
         self.setup_buffer(0); // add another buffer to the system
                               // Allocate arrays needed for calculation
                               // those arrays are needed for the calculation of the variance with a special algorithm
+        let grid = grid.new_zeros();
         let mut squared_sum_x = grid.get_data().clone();
         let mut squared_sum_y = grid.get_data().clone();
         let mut squared_sum_z = grid.get_data().clone();
@@ -762,6 +763,7 @@ pub trait Granular: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         // calculating the mean fluicitaing velcity using a algroythm that allows
         // to only use one loop over the data
+        let grid = grid.new_zeros();
         let mut squared_sum_x = grid.get_data().clone();
         let mut squared_sum_y = grid.get_data().clone();
         let mut squared_sum_z = grid.get_data().clone();
-- 
2.43.0


From 13e9f010bd00897278b48de19a6f6228d3b666f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/47] fix: mean squared displacement squared the summed
 distance

msd_field divided the square of the sum of the distances by the number of
displacements instead of averaging the squared distances.
---
 src/functions/mixing.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index ec4eebd..0f77b89 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -265,11 +265,10 @@ pub trait Mixing: DataManager {
                     continue;
                 }
                 let position_future_particle = position_future[particle];
-                let dist = ((positions[particle][0] - position_future_particle[0]).powi(2)
+                let dist = (positions[particle][0] - position_future_particle[0]).powi(2)
                     + (positions[particle][1] - position_future_particle[1]).powi(2)
-                    + (positions[particle][2] - position_future_particle[2]).powi(2))
-                .sqrt();
-                distance.add_value(positions[particle], dist); // add the distance traveled to the cell id of the current particle
+                    + (positions[particle][2] - position_future_particle[2]).powi(2);
+                distance.add_value(positions[particle], dist); // add the squared distance traveled to the cell id of the current particle
             }
             check_signals!();
 
@@ -283,7 +282,7 @@ pub trait Mixing: DataManager {
         let data = data
             .iter()
             .zip(weights.iter())
-            .map(|(x, y)| if *y > 0.0 { (x * x) / y } else { 0.0 })
+            .map(|(x, y)| if *y > 0.0 { x / y } else { 0.0 })
             .collect::<Vec<f64>>();
         let data = ndarray::Array::from_shape_vec((cells[0], cells[1], cells[2]), data).unwrap();
         grid.set_data(data);
-- 
2.43.0


From 41b07bd60240b5c348d981606d71bb4c183329ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/47] fix: concentration_field left out the last timestep

---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 0f77b89..2b8f6b4 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -129,7 +129,7 @@ pub trait Mixing: DataManager {
         let timesteps: &usize = global_stats.timesteps();
         let mut type_a_grid = grid.new_zeros();
         let mut type_b_grid = grid.new_zeros();
-        for timestep in 0..timesteps - 1 {
+        for timestep in 0..=timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
             // check if timestep is in the timeframe given
-- 
2.43.0


From 396c1215a3bcc2b713ff2204e90eda0411c4777d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 11/47] fix: lacey_mixing panicked if a type does not occur in
 a timestep

The counters only covered the types of the particles seen so far, so a
timestep without a selected particle of one of the two types was an out of
bounds access.
---
 src/functions/mixing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/mixing.rs b/src/functions/mixing.rs
index 2b8f6b4..9db5704 100644
--- a/src/functions/mixing.rs
+++ b/src/functions/mixing.rs
@@ -44,7 +44,7 @@ pub trait Mixing: DataManager {
             );
             let mut type_a_grid = grid.new_zeros();
             let mut type_b_grid = grid.new_zeros();
-            let mut type_counter: Vec<usize> = Vec::with_capacity(3);
+            let mut type_counter: Vec<usize> = vec![0; type_a.max(type_b) + 1];
             for particle in 0..particles {
                 if !selector.is_valid(
                     rad_array[particle],
-- 
2.43.0


From 48cdfc8d355cbadc19b81bef76ea4c6b78d14706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 12/47] fix: timestep_at_seconds_closest did not return the
 closest timestep

The search stopped at any timestep within 10 ms, which is many timesteps
for fast data, and otherwise returned the last probed index instead of the
nearer neighbour.
---
 src/datamanager.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index d4f93a5..88c0222 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -90,10 +90,9 @@ impl GlobalStats {
         if self.time_array[low] > seconds {
             return Err("Timestep is smaller than the number of timesteps");
         }
-        let mut mid = (low + high) / 2;
         while low <= high {
-            mid = (low + high) / 2;
-            if (self.time_array[mid] - seconds).abs() < 0.01 {
+            let mid = (low + high) / 2;
+            if self.time_array[mid] == seconds {
                 return Ok(mid);
             } else if self.time_array[mid] < seconds {
                 low = mid + 1;
@@ -101,7 +100,11 @@ impl GlobalStats {
                 high = mid - 1;
             }
         }
-
-        Ok(mid)
+        // low is now the first timestep after the requested time
+        if (self.time_array[low] - seconds).abs() < (self.time_array[low - 1] - seconds).abs() {
+            Ok(low)
+        } else {
+            Ok(low - 1)
+        }
     }
 }
-- 
2.43.0


From f89af37e137b5a0fe483fcc362b580e5a55c2847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 13/47] fix: histogram counted missing velocities in the first
 bin

NaN and speeds below the first edge became index 0 in the cast to usize.
---
 src/functions.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/functions.rs b/src/functions.rs
index 250bc1b..3a590c7 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -722,6 +722,10 @@ pub trait Granular: DataManager {
                     + velocity[1] * velocity[1]
                     + velocity[2] * velocity[2])
                     .sqrt();
+                // neither a missing velocity nor one below the first edge belongs to a bin
+                if !(velocity_mag >= bin_edges[0]) {
+                    continue;
+                }
                 let bin = ((velocity_mag - bin_edges[0]) / (bin_edges[1] - bin_edges[0])).floor()
                     as usize;
                 // BUG: bin is sometimes out of bounds
-- 
2.43.0


From 2ed493474ebffc9b385d48ff5ae5b85d7a238370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 14/47] fix: mean_velocity_showcase ignored the particle
 selection

It is documented as the mean velocity of the valid particles.
---
 src/functions.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 3a590c7..2e38088 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -418,7 +418,15 @@ pub trait Granular: DataManager {
                 continue;
             }
             let velocities = timestep_data.velocity();
-            for vel in velocities.outer_iter() {
+            for (particle, vel) in velocities.outer_iter().enumerate() {
+                if !selector.is_valid(
+                    timestep_data.radius()[particle],
+                    timestep_data.clouds()[particle],
+                    timestep_data.density()[particle],
+                    timestep_data.particleid()[particle] as usize,
+                ) {
+                    continue;
+                }
                 let velocity = (vel[0] * vel[0] + vel[1] * vel[1] + vel[2] * vel[2]).sqrt();
                 if f64::is_nan(velocity) {
                     continue;
-- 
2.43.0


From 8746cf8be4574e920558b4625734c9dd02c85efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 15/47] fix: cylindrical velocities ignored the center of the
 grid

The radius was measured from the center, the direction from the origin.
---
 src/grid/vector_grid.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/grid/vector_grid.rs b/src/grid/vector_grid.rs
index 0f3397c..31dcfe4 100644
--- a/src/grid/vector_grid.rs
+++ b/src/grid/vector_grid.rs
@@ -36,6 +36,8 @@ impl VectorGrid {
         } else {
             // downcast a data grid to a cylindrical grid
             let cyl_pos = self.cyl_grid.to_cylindrical(pos);
+            let center = self.cyl_grid.center();
+            let pos = [pos[0] - center[0], pos[1] - center[1], pos[2]];
             let vel_radial = (pos[0] * vel[0] + pos[1] * vel[1]) / cyl_pos[0];
             let vel_omega =
                 (pos[0] * vel[1] - pos[1] * vel[0]) / (pos[0] * pos[0] + pos[1] * pos[1]);
-- 
2.43.0


From 087d15be66bcca37bec298eb1322b075a8bacf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 16/47] fix: outlier_removal underflowed next to the lower
 border

idx - 1 panics in debug builds for the first row, although indices outside
of the grid are meant to be skipped by the bounds check.
---
 src/grid/cartesian_grid.rs   | 38 ++++++++++++++++++------------------
 src/grid/cylindrical_grid.rs | 38 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/src/grid/cartesian_grid.rs b/src/grid/cartesian_grid.rs
index 18e32e4..90adf8f 100644
--- a/src/grid/cartesian_grid.rs
+++ b/src/grid/cartesian_grid.rs
@@ -509,30 +509,30 @@ impl GridFunctions3D for CartesianGrid3D {
                     // 26 idx must be checked
                     // yes.. i know what you are thinking
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
diff --git a/src/grid/cylindrical_grid.rs b/src/grid/cylindrical_grid.rs
index 8ffa6e6..29f0ef3 100644
--- a/src/grid/cylindrical_grid.rs
+++ b/src/grid/cylindrical_grid.rs
@@ -473,30 +473,30 @@ impl GridFunctions3D for CylindricalGrid3D {
                     // now check every surrounding index, only one cell away from idx
                     // 26 idx must be checked
                     let indexes = [
-                        (idx.0 - 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 - 1, idx.2),
-                        (idx.0 - 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 - 1, idx.1, idx.2 - 1),
-                        (idx.0 - 1, idx.1, idx.2),
-                        (idx.0 - 1, idx.1, idx.2 + 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2 - 1),
-                        (idx.0 - 1, idx.1 + 1, idx.2),
-                        (idx.0 - 1, idx.1 + 1, idx.2 + 1),
-                        (idx.0, idx.1 - 1, idx.2 - 1),
-                        (idx.0, idx.1 - 1, idx.2),
-                        (idx.0, idx.1 - 1, idx.2 + 1),
-                        (idx.0, idx.1, idx.2 - 1),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2),
+                        (idx.0.wrapping_sub(1), idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1, idx.2 + 1),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2.wrapping_sub(1)),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2),
+                        (idx.0.wrapping_sub(1), idx.1 + 1, idx.2 + 1),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1, idx.2 + 1),
-                        (idx.0, idx.1 + 1, idx.2 - 1),
+                        (idx.0, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0, idx.1 + 1, idx.2),
                         (idx.0, idx.1 + 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2 - 1),
-                        (idx.0 + 1, idx.1 - 1, idx.2),
-                        (idx.0 + 1, idx.1 - 1, idx.2 + 1),
-                        (idx.0 + 1, idx.1, idx.2 - 1),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2.wrapping_sub(1)),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2),
+                        (idx.0 + 1, idx.1.wrapping_sub(1), idx.2 + 1),
+                        (idx.0 + 1, idx.1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1, idx.2),
                         (idx.0 + 1, idx.1, idx.2 + 1),
-                        (idx.0 + 1, idx.1 + 1, idx.2 - 1),
+                        (idx.0 + 1, idx.1 + 1, idx.2.wrapping_sub(1)),
                         (idx.0 + 1, idx.1 + 1, idx.2),
                         (idx.0 + 1, idx.1 + 1, idx.2 + 1),
                     ];
-- 
2.43.0


From 0ae75245422b75f37bf64a142af060c91ff4300a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 17/47] verification hooks: constructors and private helpers
 behind cfg(up4_verif)

---
 src/datamanager.rs           | 61 ++++++++++++++++++++++++++++++++++++
 src/datamanager/utilities.rs | 13 ++++++++
 2 files changed, 74 insertions(+)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 88c0222..8507c6d 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -108,3 +108,64 @@ impl GlobalStats {
         }
     }
 }
+
+/// Constructors for the verification harness, compiled only with `--cfg up4_verif`
+#[cfg(up4_verif)]
+mod verif_hooks {
+    use super::*;
+    pub use super::utilities::verif_hooks::{verif_rotate_position, verif_rotate_velocity};
+
+    impl Timestep {
+        #[allow(clippy::too_many_arguments)]
+        pub fn verif_new(
+            time: f64,
+            position: Array1<Position>,
+            velocity: Array2<f64>,
+            radius: Array1<f64>,
+            particleid: Array1<f64>,
+            clouds: Array1<f64>,
+            density: Array1<f64>,
+            ptype: Array1<f64>,
+        ) -> Self {
+            Timestep {
+                time,
+                position,
+                velocity,
+                radius,
+                particleid,
+                clouds,
+                density,
+                ptype,
+            }
+        }
+    }
+
+    impl GlobalStats {
+        #[allow(clippy::too_many_arguments)]
+        pub fn verif_new(
+            dimensions: Array2<f64>,
+            nparticles: usize,
+            ntimesteps: usize,
+            min_time: f64,
+            max_time: f64,
+            sample_rate: f64,
+            velocity: Array2<f64>,
+            velocity_mag: Array1<f64>,
+            time_array: Array1<f64>,
+        ) -> Self {
+            GlobalStats {
+                dimensions,
+                nparticles,
+                ntimesteps,
+                min_time,
+                max_time,
+                sample_rate,
+                velocity,
+                velocity_mag,
+                time_array,
+            }
+        }
+    }
+}
+#[cfg(up4_verif)]
+pub use verif_hooks::*;
diff --git a/src/datamanager/utilities.rs b/src/datamanager/utilities.rs
index 2e00b95..fbd7160 100644
--- a/src/datamanager/utilities.rs
+++ b/src/datamanager/utilities.rs
@@ -122,3 +122,16 @@ fn rotate_velocity(velocity: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
     }
     [new_velocity[0], new_velocity[1], new_velocity[2]]
 }
+
+/// Access for the verification harness, compiled only with `--cfg up4_verif`
+#[cfg(up4_verif)]
+pub mod verif_hooks {
+    use super::*;
+
+    pub fn verif_rotate_position(p: Position, angles: [f64; 3], anchor: [f64; 3]) -> Position {
+        rotate_position(p, angles, anchor)
+    }
+    pub fn verif_rotate_velocity(v: [f64; 3], angles: [f64; 3]) -> [f64; 3] {
+        rotate_velocity(v, angles)
+    }
+}
-- 
2.43.0


From f2cfa82aa7a2b3d95aa4f7a1e50ce8f80c11d74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 18/47] fix: a jump over the middle zone was credited to the
 wrong round trip

---
 src/functions/conditional.rs | 37 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index b36bd74..f6686ba 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -151,24 +151,9 @@ pub trait Conditional: DataManager {
                 }
                 let pos = positions[particle][axis];
                 let old_pos = old_positions[particle][axis];
-                if pos > boundary_position.1 && old_pos < boundary_position.1 {
-                    count += 1;
-                    //println!("particle inside upper ");
-    
-                    // if particle before was below
-                    if start_flag_array[particle] == 2 {
-                        // say " particle was in the other region"
-                        if mid_flag_array[particle] == 0 {
-                            //down_times.push(current_time - time_flag_array[particle]);
-                        }
-                        mid_flag_array[particle] = 1;
-                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
-                        //up_times.push(current_time - mid_time_flag_array[particle]);
-                        // One more flag to make shure up time only counted once
-                    }
-                }
+                // a particle that jumps over the middle leaves one region before it enters the other
                 // particle crosses out of upper border
-                else if pos < boundary_position.1 && old_pos > boundary_position.1 {
+                if pos < boundary_position.1 && old_pos > boundary_position.1 {
                     //count -=1;
                     //println!("particle out of upper");
                     //println!("{}->{},{},{},{}",old_pos,pos,boundary[1],boundary[0],pos  < boundary[0] && old_pos  > boundary[0]);
@@ -189,7 +174,6 @@ pub trait Conditional: DataManager {
                     } else if start_flag_array[particle] == 2 {
                         mid_time_flag_array[particle] = current_time;
                     }
-                    continue;
                 }
     
                 //println!("Middle_check done");
@@ -229,6 +213,23 @@ pub trait Conditional: DataManager {
                         mid_time_flag_array[particle] = current_time;
                     }
                 }
+                // particle crosses into upper border
+                if pos > boundary_position.1 && old_pos < boundary_position.1 {
+                    count += 1;
+                    //println!("particle inside upper ");
+    
+                    // if particle before was below
+                    if start_flag_array[particle] == 2 {
+                        // say " particle was in the other region"
+                        if mid_flag_array[particle] == 0 {
+                            //down_times.push(current_time - time_flag_array[particle]);
+                        }
+                        mid_flag_array[particle] = 1;
+                    } else if start_flag_array[particle] == 1 && mid_flag_array[particle] == 1 {
+                        //up_times.push(current_time - mid_time_flag_array[particle]);
+                        // One more flag to make shure up time only counted once
+                    }
+                }
                 //println!("check done");
             } // end particle for loop
 
-- 
2.43.0


From c5d78c11a7425fd1b7736c51afaec2b9c2065874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:00 +0000
Subject: [PATCH 19/47] fix: extract accepts a range that ends with the last
 timestep

---
 src/functions/extractions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions/extractions.rs b/src/functions/extractions.rs
index b0a097e..46a794c 100644
--- a/src/functions/extractions.rs
+++ b/src/functions/extractions.rs
@@ -12,7 +12,7 @@ pub trait Extraction: DataManager {
     fn extract(&mut self, particle_id: usize, timestep: (usize, usize)) -> ndarray::Array2<f64> {
         let global_stats = self.global_stats();
         let timesteps: &usize = global_stats.timesteps();
-        if &timestep.0 >= timesteps || &timestep.1 >= timesteps {
+        if &timestep.0 >= timesteps || &timestep.1 > timesteps {
             panic!("Timestep out of bounds");
         }
         let mut return_data: ndarray::Array2<f64> =
-- 
2.43.0


From 5d21a4dc6eee4a83e349bfb6dc4fa1852485e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:50 +0000
Subject: [PATCH 20/47] fix: looking up a time that is not a number aborted

---
 src/datamanager.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/datamanager.rs b/src/datamanager.rs
index 8507c6d..0031922 100644
--- a/src/datamanager.rs
+++ b/src/datamanager.rs
@@ -84,6 +84,9 @@ impl GlobalStats {
         let mut low = 0;
         let mut high = self.time_array.len() - 1;
 
+        if seconds.is_nan() {
+            return Err("The requested time is not a number");
+        }
         if self.time_array[high] < seconds {
             return Err("Timestep is greater than the number of timesteps");
         }
-- 
2.43.0


From 82fb718a5f1b7ca17107ae441279d337a4288978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 21/47] fix: the occupancy field of fewer than three timesteps
 aborted

---
 src/functions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/functions.rs b/src/functions.rs
index 2e38088..95bb976 100644
--- a/src/functions.rs
+++ b/src/functions.rs
@@ -314,7 +314,7 @@ pub trait Granular: DataManager {
         let mut occupancy_grid = grid.new_zeros();
         let mut complete_time = 0.0;
         self.setup_buffer(0); //setup another buffer
-        for timestep in 0..timesteps - 3 {
+        for timestep in 0..timesteps.saturating_sub(3) {
             let timestep_data = self.get_timestep(timestep).clone();
             //BUG this is not working, try to acces a point in the buffer that doesnt excist
             let next_timestep_data = self.get_timestep_buffer(timestep + 1, 0);
-- 
2.43.0


From 654b2feff0e8e0099226a9e422ceeb70f32b25ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 22/47] fix: circulation times aborted when particles appeared

---
 src/functions/conditional.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index f6686ba..35132b8 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -56,7 +56,10 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                // a slot without an earlier particle has crossed nothing
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
@@ -145,7 +148,10 @@ pub trait Conditional: DataManager {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-                if particle_ids[particle] != old_particle_ids[particle] {
+                // a slot without an earlier particle has crossed nothing
+                if particle >= old_particle_ids.len()
+                    || particle_ids[particle] != old_particle_ids[particle]
+                {
                     print_debug!("Particle {} is not valid", particle);
                     continue;
                 }
-- 
2.43.0


From 8792fcd363d3360e1b5aca451e19b6401f49963f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 23/47] fix: circulation times missed crossings close to the
 boundary

---
 src/functions/conditional.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 35132b8..50c1dae 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -66,7 +66,9 @@ pub trait Conditional: DataManager {
                 let pos = positions[particle];
                 let old_pos = old_positions[particle];
                 // check if particle crossed boundary
-                if (pos[axis] - boundary_position) * (old_pos[axis] - boundary_position) < 0.0 {
+                if (pos[axis] < boundary_position && old_pos[axis] > boundary_position)
+                    || (pos[axis] > boundary_position && old_pos[axis] < boundary_position)
+                {
                     // check if particle is already in the list
                     if start_flag_array[particle] == 0 {
                         start_flag_array[particle] = 1;
-- 
2.43.0


From 2553c317b47be84ab8d4518420b7a2d9a4f08dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:24 +0000
Subject: [PATCH 24/47] fix: circulation times through two boundaries
 overflowed an unused counter

---
 src/functions/conditional.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/functions/conditional.rs b/src/functions/conditional.rs
index 50c1dae..cd29b53 100644
--- a/src/functions/conditional.rs
+++ b/src/functions/conditional.rs
@@ -114,7 +114,6 @@ pub trait Conditional: DataManager {
         let mut mid_time_flag_array = Array1::<f64>::zeros(particle_number + 1);
      
         let mut old_timestep = self.get_timestep(0).to_owned();
-        let mut count = 0;
         for timestep in 1..timesteps - 1 {
             let timestep_data = self.get_timestep(timestep);
             let current_time = *timestep_data.time();
@@ -223,7 +222,6 @@ pub trait Conditional: DataManager {
                 }
                 // particle crosses into upper border
                 if pos > boundary_position.1 && old_pos < boundary_position.1 {
-                    count += 1;
                     //println!("particle inside upper ");
     
                     // if particle before was below
-- 
2.43.0


From b6b39b824bef5e2f62217382fdac7e94cf3d3566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 25/47] fix: minmax of a list with infinite values

The bounds started at the largest finite numbers, so a list of only
infinite values had a bound that is not in the list.
---
 src/utilities/maths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities/maths.rs b/src/utilities/maths.rs
index 9d9759b..53c226f 100644
--- a/src/utilities/maths.rs
+++ b/src/utilities/maths.rs
@@ -1,8 +1,8 @@
 //! Module of common maths functions exposed to users
 use ndarray::prelude::*;
 pub fn minmax(arr: &Array1<f64>) -> (f64, f64) {
-    let mut min = f64::MAX;
-    let mut max = f64::MIN;
+    let mut min = f64::INFINITY;
+    let mut max = f64::NEG_INFINITY;
     for value in arr.iter() {
         if value > &max {
             max = *value;
-- 
2.43.0


From 5048d39a7ac1407740a4e72f6e2c133c0e08be11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 26/47] fix: count elements of an array as usize

nan_mean and nan_std counted in i32, which overflows beyond 2^31 elements.
---
 src/utilities.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.rs b/src/utilities.rs
index 04f1382..23ba189 100644
--- a/src/utilities.rs
+++ b/src/utilities.rs
@@ -75,7 +75,7 @@ macro_rules! setup_bar {
 // mean function for ndarrays but not counting in nans
 pub fn nan_mean(arr: &ndarray::Array3<f64>) -> f64 {
     let mut sum = 0.0;
-    let mut count = 0;
+    let mut count = 0usize;
     for i in arr.iter() {
         if !i.is_nan() {
             sum += i;
@@ -89,7 +89,7 @@ pub fn nan_mean(arr: &ndarray::Array3<f64>) -> f64 {
 pub fn nan_std(arr: &ndarray::Array3<f64>) -> f64 {
     let mean = nan_mean(arr);
     let mut sum = 0.0;
-    let mut count = 0;
+    let mut count = 0usize;
     for i in arr.iter() {
         if !i.is_nan() {
             sum += (i - mean).powi(2);
-- 
2.43.0


From fd0bf086d6afcdf67bb2bc6084f8d119392b05b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 27/47] fix: velocity is the slope of the fitted polynomial at
 its own record

The slope was taken at the record after the one the row is for, and the
constant term gave 0 * inf = NaN when that time equals the window's first.
---
 src/converter/convertertools.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 2bb51ac..3f2b131 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -169,22 +169,25 @@ pub fn velocity_polynom(
         let vx: f64 = param_x
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vy: f64 = param_y
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         let vz: f64 = param_z
             .iter()
             .enumerate()
+            .skip(1)
             .map(|(n, param)| {
-                param * n as f64 * time[(sampling_steps - 1) / 2 + 1].powf(n as f64 - 1.)
+                param * n as f64 * time[(sampling_steps - 1) / 2].powf(n as f64 - 1.)
             })
             .sum();
         new_data[[id - (sampling_steps - 1) / 2, 0]] = data[[id, 0]];
-- 
2.43.0


From aa0da476bcda757f82890d1ae2419b3f17e575b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:03 +0000
Subject: [PATCH 28/47] fix: resampling keeps up with the records

The middle record moved over at most two records per row, so where records
are denser than the resampled rows it fell behind and the positions were
extrapolated from records long before the row's time.
---
 src/converter/convertertools.rs | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/converter/convertertools.rs b/src/converter/convertertools.rs
index 3f2b131..d0c1ecf 100644
--- a/src/converter/convertertools.rs
+++ b/src/converter/convertertools.rs
@@ -51,25 +51,14 @@ pub fn interpolate(
             // if the temporal distance between new time and old time is smaller
             // then distance between new time and next time return old timestep
             print_debug!("Real_step:{} time_len {}", real_step, time.len());
-            if real_step < time.len() - 1 {
+            while real_step < time.len() - 1 {
                 let old_time = time[real_step];
                 let new_time = time[real_step + 1];
                 print_debug!("Old time: {} New time: {}", old_time, new_time);
-                if new_time < old_time {
-                    real_step += 1;
-                } else if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                } else {
-                    real_step += 1;
-                    if real_step < time.len() - 1 {
-                        let old_time = time[real_step];
-                        let new_time = time[real_step + 1];
-
-                        if (time_new - old_time).abs() < (time_new - new_time).abs() {
-                        } else {
-                            real_step += 1;
-                        }
-                    }
+                if (time_new - old_time).abs() < (time_new - new_time).abs() {
+                    break;
                 }
+                real_step += 1;
             }
             real_step
         };
-- 
2.43.0


From 2b544eee0c819d47c8036b93b5e62929e067d3d1 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 29/47] fix: PData returns timesteps of an extra buffer from
 that buffer

---
 src/datamanager/pdata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 452fafa..c2c447d 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1124,7 +1124,7 @@ impl DataManager for PData {
             self.update_extra((timestep, timestep + self.buffersize), buffer_id);
         }
 
-        &self.buffer[timestep - self.range_extra[buffer_id].0]
+        &self.extra_buffers[buffer_id][timestep - self.range_extra[buffer_id].0]
     }
 
     fn info(&self) -> Result<String, &'static str> {
-- 
2.43.0


From 395dfbae539f3765cffc2eeb602549e11b042d07 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 30/47] fix: TData compares with the range of the extra buffer

---
 src/datamanager/tdata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 30c63ed..0f834ca 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1102,7 +1102,7 @@ impl DataManager for TData {
             self.update_extra((0, BUFFERSIZE), buffer_id);
         }
         // If a timestep below the current range is requested, update buffer
-        if timestep < self.range.0 {
+        if timestep < self.range_extra[buffer_id].0 {
             self.update_extra(
                 (timestep, timestep + self.buffersize_extra[buffer_id]),
                 buffer_id,
-- 
2.43.0


From b268a7d2f0f62d5ee31ad74d52a08e58061fe811 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:14 +0000
Subject: [PATCH 31/47] fix: an extra buffer restarts at the beginning only for
 timesteps that fit

---
 src/datamanager/pdata.rs | 1 +
 src/datamanager/tdata.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index c2c447d..7dd6c93 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1116,6 +1116,7 @@ impl DataManager for PData {
             self.update_extra((timestep, timestep + self.buffersize), buffer_id);
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
+            && timestep < BUFFERSIZE
         {
             self.update_extra((0, BUFFERSIZE), buffer_id);
         }
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 0f834ca..0a42ffc 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1098,6 +1098,7 @@ impl DataManager for TData {
             );
         } else if self.range_extra[buffer_id].1 == self.global_stats_.ntimesteps
             && timestep < self.range_extra[buffer_id].0
+            && timestep < BUFFERSIZE
         {
             self.update_extra((0, BUFFERSIZE), buffer_id);
         }
-- 
2.43.0


From f115cc59f050b1a2bd355290460b9bdd24801bb6 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:15 +0000
Subject: [PATCH 32/47] fix: extra buffers are found by the id they were set up
 with

---
 src/datamanager/pdata.rs | 7 ++++++-
 src/datamanager/tdata.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 7dd6c93..74101f4 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -1103,7 +1103,12 @@ impl DataManager for PData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .expect("The buffer has not been set up");
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
diff --git a/src/datamanager/tdata.rs b/src/datamanager/tdata.rs
index 0a42ffc..c6f5d68 100644
--- a/src/datamanager/tdata.rs
+++ b/src/datamanager/tdata.rs
@@ -1082,7 +1082,12 @@ impl DataManager for TData {
     }
 
     /// read from other buffer then the main one
-    fn get_timestep_buffer(&mut self, timestep: usize, buffer_id: usize) -> &Timestep {
+    fn get_timestep_buffer(&mut self, timestep: usize, external_buffer_id: usize) -> &Timestep {
+        let buffer_id = self
+            .external_buffer_names
+            .iter()
+            .position(|x| x == &external_buffer_id)
+            .expect("The buffer has not been set up");
         print_debug!("PData: Extracting timestep number {}", timestep);
         // If a timestep is requested that is higher then the current range
         // update buffer with new range
-- 
2.43.0


From 04a4399d579af604d8d7472f121e21225ff077ce Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 33/47] fix: reading one timestep of a file with several
 particles

---
 src/datamanager/pdata.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 74101f4..8b91959 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -119,12 +119,11 @@ impl PData {
                 })
                 .slice(s![timestep, ..])
                 .to_owned()
-                .into_shape((particles, 3))
+                .into_shape((1, 3))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not shape dataset \"position\" in file {} into a ({}, 3) array",
-                        self.file.filename(),
-                        particles
+                        "Can not shape dataset \"position\" in file {} into a (1, 3) array",
+                        self.file.filename()
                     )
                 })
                 .axis_iter(Axis(0))
@@ -311,7 +310,7 @@ impl PData {
                 .to_owned()[timestep];
 
             //position.slice_mut(s![particle_id]).assign(&part_pos);
-            position[particle_id] = part_pos[particle_id];
+            position[particle_id] = part_pos[0];
             velocity.slice_mut(s![particle_id, ..]).assign(&part_vel);
 
             //radius.slice_mut(s![particle_id]).assign(&part_rad);
-- 
2.43.0


From 3a981189a6c64d55fcca59924b052997f1f7c5c9 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 34/47] fix: PData substitutes the same values in a single
 timestep as in its buffers

---
 src/datamanager/pdata.rs | 112 +++++++++++++++++----------------------
 1 file changed, 48 insertions(+), 64 deletions(-)

diff --git a/src/datamanager/pdata.rs b/src/datamanager/pdata.rs
index 8b91959..9daeb5a 100644
--- a/src/datamanager/pdata.rs
+++ b/src/datamanager/pdata.rs
@@ -161,88 +161,73 @@ impl PData {
 
             //Radius
             print_debug!("\tParticle {}: Extracting radius from HDF5.", particle_id);
-            let part_rad = self
+            let part_rad = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("radius")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"radius\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"radius\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"radius\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find radius in HDF5 file {}. \
+                        Using zero instead.",
+                        particle_id,
                         self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
-            let part_type = self
+            let part_type = match self
                 .file
                 .group(&format!("particle {}", particle_id))
                 .unwrap_or_else(|_| {
                     panic!(
-                        "Can not fine particle {} in file {}",
+                        "Can not find particle {} in file {}",
                         particle_id,
                         self.file.filename()
                     )
                 })
                 .dataset("particletype")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"particletype\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"particletype\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
-            let part_id = self
-                .file
-                .group(&format!("particle {}", particle_id))
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not fine particle {} in file {}",
+            {
+                Ok(s) => s
+                    .read_1d::<f64>()
+                    .unwrap_or_else(|_| {
+                        panic!(
+                            "Can not read data from \"particletype\" dataset. \
+                        Data type or data format might be wrong. \
+                        Check creation of HDF5 file  \"{:?}\"",
+                            self.file.filename()
+                        )
+                    })
+                    .to_owned()[timestep],
+                Err(_) => {
+                    print_warning!(
+                        "\tParticle {}: Could not find particletype in HDF5 file {}. \
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
-                    )
-                })
-                .dataset("id")
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not find dataset \"id\" in HDF5 file \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .read_1d::<f64>()
-                .unwrap_or_else(|_| {
-                    panic!(
-                        "Can not read data from \"id\" dataset. \
-                    Data type or data format might be wrong. \
-                    Check creation of HDF5 file  \"{:?}\"",
-                        self.file.filename()
-                    )
-                })
-                .to_owned()[timestep];
+                    );
+                    0.0
+                }
+            };
 
             //.slice(s![timestep])
 
@@ -273,11 +258,11 @@ impl PData {
                 Err(_) => {
                     print_warning!(
                         "\tParticle {}: Could not find density in HDF5 file {}. \
-                        Using one instead.",
+                        Using zero instead.",
                         particle_id,
                         self.file.filename()
                     );
-                    part_rad
+                    0.0
                 }
             };
             print_debug!("\tParticle {}: Extracting time from HDF5.", particle_id);
@@ -320,8 +305,7 @@ impl PData {
             density[particle_id] = part_density;
             //time.slice_mut(s![particle_id]).assign(&part_time);
             time[particle_id] = part_time;
-            //particleid.slice_mut(s![particle_id]).assign(&part_id);
-            particleid[particle_id] = part_id;
+            particleid[particle_id] = particle_id as f64;
         }
 
         print_debug!("PData: Data read. Saving new timestap and return reference.");
-- 
2.43.0


From 7d247d83d109e45e90d11063739970fe51372644 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 02:04:07 +0000
Subject: [PATCH 35/47] fix: the CSV converters keep the first record and
 records before time zero

---
 src/converter.rs                            | 2 +-
 src/converter/csv_modes/csv_multi_chain.rs  | 2 +-
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cf7a837..cb8180b 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -175,7 +175,7 @@ pub fn csv_converter(
 
     let mut mean_counter: usize = 0;
     let mut failcount = 0;
-    let mut old_time = 0.0; // TIme of the last falid timestep
+    let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
     let mut step = 0;
     print_debug!("Creating a new group \"particle {}\"", step);
     let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94c9f6a..f7da7ac 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,7 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index ba5e15e..8e78d79 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,7 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
-        let mut old_time = 0.0; // TIme of the last falid timestep
+        let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
         let group = hdf5file
-- 
2.43.0


From 334bcb2d2bef9f8d25065669799b143c74ab5b76 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 36/47] fix: the converters record a new maximum also when it
 is a new minimum

---
 src/converter.rs                              | 33 ++++++++++++-------
 src/converter/csv_modes/csv_multi_chain.rs    | 15 ++++++---
 .../csv_modes/csv_multi_file_time_step.rs     |  9 +++--
 src/converter/csv_modes/csv_multi_idline.rs   | 15 ++++++---
 4 files changed, 48 insertions(+), 24 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index cb8180b..acd5819 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -229,7 +229,8 @@ pub fn csv_converter(
             print_debug!("  i: {}", i);
             if vel[i] < velocity[[i, 0]] {
                 velocity[[i, 0]] = vel[i];
-            } else if vel[i] > velocity[[i, 2]] {
+            }
+            if vel[i] > velocity[[i, 2]] {
                 velocity[[i, 2]] = vel[i];
             }
             velocity[[i, 1]] += vel[i];
@@ -239,24 +240,28 @@ pub fn csv_converter(
         // check if vel magnitude is bigger or smaller then the current biggest or smallest
         if vel_mag < velocity_mag[0] {
             velocity_mag[0] = vel_mag;
-        } else if vel_mag > velocity_mag[2] {
+        }
+        if vel_mag > velocity_mag[2] {
             velocity_mag[2] = vel_mag;
         }
         velocity_mag[1] += vel_mag;
 
         if pos[0] < dimensions[[0, 0]] {
             dimensions[[0, 0]] = pos[0];
-        } else if pos[0] > dimensions[[1, 0]] {
+        }
+        if pos[0] > dimensions[[1, 0]] {
             dimensions[[1, 0]] = pos[0];
         }
         if pos[1] < dimensions[[0, 1]] {
             dimensions[[0, 1]] = pos[1];
-        } else if pos[1] > dimensions[[1, 1]] {
+        }
+        if pos[1] > dimensions[[1, 1]] {
             dimensions[[1, 1]] = pos[1];
         }
         if pos[2] < dimensions[[0, 2]] {
             dimensions[[0, 2]] = pos[2];
-        } else if pos[2] > dimensions[[1, 2]] {
+        }
+        if pos[2] > dimensions[[1, 2]] {
             dimensions[[1, 2]] = pos[2];
         }
         step += 1;
@@ -740,7 +745,8 @@ impl XMLVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -748,7 +754,8 @@ impl XMLVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -773,7 +780,8 @@ impl XMLVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
@@ -1166,7 +1174,8 @@ impl LegacyVTKConverter {
                     print_debug!("  i: {}", i);
                     if vel[i] < velocity[[i, 0]] {
                         velocity[[i, 0]] = vel[i];
-                    } else if vel[i] > velocity[[i, 2]] {
+                    }
+                    if vel[i] > velocity[[i, 2]] {
                         velocity[[i, 2]] = vel[i];
                     }
                     velocity[[i, 1]] += vel[i];
@@ -1174,7 +1183,8 @@ impl LegacyVTKConverter {
                 let vel_mag = vel.map(|v| v * v).sum().sqrt();
                 if vel_mag < velocity_mag[0] {
                     velocity_mag[0] = vel_mag;
-                } else if vel_mag > velocity_mag[2] {
+                }
+                if vel_mag > velocity_mag[2] {
                     velocity_mag[2] = vel_mag;
                 }
                 velocity_mag[1] += vel_mag;
@@ -1197,7 +1207,8 @@ impl LegacyVTKConverter {
                 for i in 0..3 {
                     if pos[i] < dimensions[[0, i]] {
                         dimensions[[0, i]] = pos[i];
-                    } else if pos[i] > dimensions[[1, i]] {
+                    }
+                    if pos[i] > dimensions[[1, i]] {
                         dimensions[[1, i]] = pos[i];
                     }
                 }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index f7da7ac..42cf5fb 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -243,7 +243,8 @@ pub fn csv_multi_chain(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -253,24 +254,28 @@ pub fn csv_multi_chain(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index bc52020..1e4484a 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -159,7 +159,8 @@ pub fn csv_multi_file_time_step(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -167,7 +168,8 @@ pub fn csv_multi_file_time_step(
             let vel_mag = vel.map(|v| v * v).sum().sqrt();
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
@@ -184,7 +186,8 @@ pub fn csv_multi_file_time_step(
             for i in 0..3 {
                 if pos[i] < dimensions[[0, i]] {
                     dimensions[[0, i]] = pos[i];
-                } else if pos[i] > dimensions[[1, i]] {
+                }
+                if pos[i] > dimensions[[1, i]] {
                     dimensions[[1, i]] = pos[i];
                 }
             }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 8e78d79..f98c367 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -216,7 +216,8 @@ pub fn csv_multi_idline(
                 print_debug!("  i: {}", i);
                 if vel[i] < velocity[[i, 0]] {
                     velocity[[i, 0]] = vel[i];
-                } else if vel[i] > velocity[[i, 2]] {
+                }
+                if vel[i] > velocity[[i, 2]] {
                     velocity[[i, 2]] = vel[i];
                 }
                 velocity[[i, 1]] += vel[i];
@@ -226,24 +227,28 @@ pub fn csv_multi_idline(
             // check if vel magnitude is bigger or smaller then the current biggest or smallest
             if vel_mag < velocity_mag[0] {
                 velocity_mag[0] = vel_mag;
-            } else if vel_mag > velocity_mag[2] {
+            }
+            if vel_mag > velocity_mag[2] {
                 velocity_mag[2] = vel_mag;
             }
             velocity_mag[1] += vel_mag;
 
             if pos[0] < dimensions[[0, 0]] {
                 dimensions[[0, 0]] = pos[0];
-            } else if pos[0] > dimensions[[1, 0]] {
+            }
+            if pos[0] > dimensions[[1, 0]] {
                 dimensions[[1, 0]] = pos[0];
             }
             if pos[1] < dimensions[[0, 1]] {
                 dimensions[[0, 1]] = pos[1];
-            } else if pos[1] > dimensions[[1, 1]] {
+            }
+            if pos[1] > dimensions[[1, 1]] {
                 dimensions[[1, 1]] = pos[1];
             }
             if pos[2] < dimensions[[0, 2]] {
                 dimensions[[0, 2]] = pos[2];
-            } else if pos[2] > dimensions[[1, 2]] {
+            }
+            if pos[2] > dimensions[[1, 2]] {
                 dimensions[[1, 2]] = pos[2];
             }
             //step += 1;
-- 
2.43.0


From 8ed4071ed8c700a08edac2201b6424435af95ec6 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 02:04:13 +0000
Subject: [PATCH 37/47] fix: the converters store the sampling interval, not
 zero and not truncated to an integer

---
 src/converter.rs                                    | 11 ++++++-----
 src/converter/csv_modes/csv_multi_chain.rs          |  7 ++++---
 src/converter/csv_modes/csv_multi_file_time_step.rs |  2 +-
 src/converter/csv_modes/csv_multi_idline.rs         |  7 ++++---
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index acd5819..d8e5da8 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -208,7 +208,6 @@ pub fn csv_converter(
         time_array[line_id - total_failcount] = current_time;
         // resetfailcount. we only dont allow them do be in a row!
         failcount = 0;
-        old_time = current_time;
         let pos_x = line[1];
         let pos_y = line[2];
         let pos_z = line[3];
@@ -266,7 +265,9 @@ pub fn csv_converter(
         }
         step += 1;
         mean_counter += 1;
-        sample_rate = current_time - old_time;
+        if old_time.is_finite() {
+            sample_rate = current_time - old_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
@@ -354,7 +355,7 @@ pub fn csv_converter(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
@@ -833,7 +834,7 @@ impl XMLVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
@@ -1260,7 +1261,7 @@ impl LegacyVTKConverter {
             .write_scalar(&timesteps)
             .unwrap();
         output_file
-            .new_attr::<u64>()
+            .new_attr::<f64>()
             .create("sample rate")
             .unwrap()
             .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 42cf5fb..315c102 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -222,7 +222,6 @@ pub fn csv_multi_chain(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -280,7 +279,9 @@ pub fn csv_multi_chain(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
@@ -368,7 +369,7 @@ pub fn csv_multi_chain(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 1e4484a..d9f5fef 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -239,7 +239,7 @@ pub fn csv_multi_file_time_step(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index f98c367..693a06e 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -194,7 +194,6 @@ pub fn csv_multi_idline(
             time_array[line_id] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
-            old_time = current_time;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
@@ -253,7 +252,9 @@ pub fn csv_multi_idline(
             }
             //step += 1;
             mean_counter += 1;
-            sample_rate = current_time - old_time;
+            if old_time.is_finite() {
+                sample_rate = current_time - old_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
@@ -340,7 +341,7 @@ pub fn csv_multi_idline(
         .write_scalar(&timesteps)
         .unwrap();
     hdf5file
-        .new_attr::<u64>()
+        .new_attr::<f64>()
         .create("sample rate")
         .unwrap()
         .write_scalar(&sample_rate)
-- 
2.43.0


From f53f69f0eb036b1604625a045c86d38f14e5a371 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 02:04:26 +0000
Subject: [PATCH 38/47] fix: the CSV converters record the time range of the
 data, not zero to its end

---
 src/converter.rs                                    | 5 ++++-
 src/converter/csv_modes/csv_multi_chain.rs          | 5 ++++-
 src/converter/csv_modes/csv_multi_file_time_step.rs | 5 ++++-
 src/converter/csv_modes/csv_multi_idline.rs         | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/converter.rs b/src/converter.rs
index d8e5da8..3c6ad7e 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -162,7 +162,7 @@ pub fn csv_converter(
     let mut pos_array = Array2::<f64>::zeros((data_length, 3));
     // ######### arrays for Attributes:
     let timesteps: usize = data_length;
-    let mut time: Array1<f64> = Array1::<f64>::zeros(2);
+    let mut time: Array1<f64> = array![f64::INFINITY, f64::NEG_INFINITY];
     let mut sample_rate: f64 = 0.0;
     //velocity: [x:[min, mean, max],y:[min,mean,max],z:[min,mean,max]]
     let mut velocity: Array2<f64> = Array2::<f64>::zeros((3, 3));
@@ -268,6 +268,9 @@ pub fn csv_converter(
         if old_time.is_finite() {
             sample_rate = current_time - old_time;
         }
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 315c102..94e90bd 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -171,7 +171,7 @@ pub fn csv_multi_chain(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::INFINITY, f64::NEG_INFINITY];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     for (p_id, data) in particle_data.iter().enumerate() {
@@ -282,6 +282,9 @@ pub fn csv_multi_chain(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index d9f5fef..30ff8ba 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -55,7 +55,7 @@ pub fn csv_multi_file_time_step(
     dimensions.slice_mut(ndarray::s![1usize, ..]).fill(f64::MIN);
     let mut nparticles: u64 = 0;
     let timesteps: usize = filenames.len();
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::INFINITY, f64::NEG_INFINITY];
     let mut time_array = Vec::<f64>::new();
     let mut sample_rate: f64 = 0.0;
     let mut old_time = 0.0;
@@ -74,6 +74,9 @@ pub fn csv_multi_file_time_step(
             .create_group(&format!("timestep {}", id))
             .unwrap_or_else(|_| panic!("Can not create group timestep {}", id));
         let current_time = time_[id];
+        if current_time < time[0] {
+            time[0] = current_time;
+        }
         if current_time > time[1] {
             time[1] = current_time;
         }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 693a06e..0edbba8 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -142,7 +142,7 @@ pub fn csv_multi_idline(
     velocity_mag[2] = f64::MIN;
     // ######### arrays for Attributes:
     let mut timesteps: usize = 0;
-    let mut time: ndarray::Array1<f64> = ndarray::Array1::<f64>::zeros(2);
+    let mut time: ndarray::Array1<f64> = ndarray::array![f64::INFINITY, f64::NEG_INFINITY];
     let mut sample_rate: f64 = 0.0;
     let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
     bar.inc(10);
@@ -255,6 +255,9 @@ pub fn csv_multi_idline(
             if old_time.is_finite() {
                 sample_rate = current_time - old_time;
             }
+            if current_time < time[0] {
+                time[0] = current_time;
+            }
             if current_time > time[1] {
                 time[1] = current_time;
             }
-- 
2.43.0


From 2c369ae688873b8fb6c6b8da16ed40ab8752a6dc Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 39/47] fix: the CSV converter writes one id, radius, cloud and
 type per record it keeps

---
 src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/converter.rs b/src/converter.rs
index 3c6ad7e..410384d 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -286,6 +286,10 @@ pub fn csv_converter(
     let pos_array = pos_array.slice(s![ ..pos_array.shape()[0] - total_failcount, ..]);
     let vel_array = vel_array.slice(s![ ..vel_array.shape()[0] - total_failcount, ..]);
     let timesteps = time_array.len();
+    let particle_id_array = particle_id_array.slice(s![..timesteps]);
+    let particle_radius_array = particle_radius_array.slice(s![..timesteps]);
+    let ppclouds_array = ppclouds_array.slice(s![..timesteps]);
+    let particle_type_array = particle_type_array.slice(s![..timesteps]);
     
     let builder = make_dataset_builder!(group);
     builder
-- 
2.43.0


From e7f5eea315a7e655a0fcc6cdad355a985b783c5f Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 40/47] fix: the XML VTK converter takes .vtu and .vtp files of
 a folder

---
 src/converter.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/converter.rs b/src/converter.rs
index 410384d..a64211c 100644
--- a/src/converter.rs
+++ b/src/converter.rs
@@ -549,10 +549,17 @@ impl XMLVTKConverter {
             .unwrap_or_else(|_| {
                 panic!("Unable to convert files in directory {}", system_foldername)
             });
+        // xml-based files carry the extension of the type of their data
+        let xml_extension = match self.file_type {
+            VTKType::PolyData => ".vtp",
+            VTKType::UnstructuredGrid => ".vtu",
+        };
         let mut out_vec: Vec<&str> = Vec::new();
         for filename_ in filenames.iter() {
             let filename = filename_.to_str().unwrap();
-            if filename.ends_with(".vtk") && !filename.contains("boundingBox") {
+            if (filename.ends_with(".vtk") || filename.ends_with(xml_extension))
+                && !filename.contains("boundingBox")
+            {
                 print_debug!("\t Found file: {}", filename);
             } else {
                 print_debug!("\t Ignoring file: {}", filename);
-- 
2.43.0


From 0dd50ed6e090b7971c0ae093d0f8fee288cdc364 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 41/47] fix: the CSV converters for several particles leave out
 the rows of records they skip

---
 src/converter/csv_modes/csv_multi_chain.rs  | 25 +++++++++++++++------
 src/converter/csv_modes/csv_multi_idline.rs | 25 +++++++++++++++------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 94e90bd..a121bfc 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -192,6 +192,7 @@ pub fn csv_multi_chain(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -209,6 +210,7 @@ pub fn csv_multi_chain(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -219,22 +221,22 @@ pub fn csv_multi_chain(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[line_id - total_failcount] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[line_id - total_failcount, 0]] = pos_x;
+            pos_array[[line_id - total_failcount, 1]] = pos_y;
+            pos_array[[line_id - total_failcount, 2]] = pos_z;
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[line_id - total_failcount, 0]] = v_x;
+            vel_array[[line_id - total_failcount, 1]] = v_y;
+            vel_array[[line_id - total_failcount, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -295,6 +297,15 @@ pub fn csv_multi_chain(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // the rows after the last kept record are empty
+        let kept = data_length - total_failcount;
+        let time_array = time_array.slice(ndarray::s![..kept]);
+        let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..kept]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 0edbba8..089a170 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -164,6 +164,7 @@ pub fn csv_multi_idline(
         let mut vel_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut pos_array = ndarray::Array2::<f64>::zeros((data_length, 3));
         let mut failcount = 0;
+        let mut total_failcount = 0;
         let mut old_time = f64::NEG_INFINITY; // TIme of the last falid timestep
 
         print_debug!("Creating a new group \"particle {}\"", p_id);
@@ -181,6 +182,7 @@ pub fn csv_multi_idline(
                 // The particle went back in time
                 // This is not possible and must be ignored.
                 failcount += 1;
+                total_failcount += 1;
                 if failcount > MAX_FAILS {
                     panic!(
                         "Maximum amount of points that are behind the current \
@@ -191,23 +193,23 @@ pub fn csv_multi_idline(
                 }
                 continue;
             }
-            time_array[line_id] = current_time;
+            time_array[line_id - total_failcount] = current_time;
             // resetfailcount. we only dont allow them do be in a row!
             failcount = 0;
             let pos_x = line[1];
             let pos_y = line[2];
             let pos_z = line[3];
             let pos = ndarray::array![pos_x, pos_y, pos_z];
-            pos_array[[line_id, 0]] = pos_x;
-            pos_array[[line_id, 1]] = pos_y;
-            pos_array[[line_id, 2]] = pos_z;
+            pos_array[[line_id - total_failcount, 0]] = pos_x;
+            pos_array[[line_id - total_failcount, 1]] = pos_y;
+            pos_array[[line_id - total_failcount, 2]] = pos_z;
             println!("{:?}", line);
             let v_x = line[4];
             let v_y = line[5];
             let v_z = line[6];
-            vel_array[[line_id, 0]] = v_x;
-            vel_array[[line_id, 1]] = v_y;
-            vel_array[[line_id, 2]] = v_z;
+            vel_array[[line_id - total_failcount, 0]] = v_x;
+            vel_array[[line_id - total_failcount, 1]] = v_y;
+            vel_array[[line_id - total_failcount, 2]] = v_z;
             let vel: Vec<f64> = vec![v_x, v_y, v_z];
             print_debug!("Extracting statistical velocity information");
 
@@ -267,6 +269,15 @@ pub fn csv_multi_idline(
             }
         } // end filename forloop
           // write data into HDF5 file
+          // the rows after the last kept record are empty
+        let kept = data_length - total_failcount;
+        let time_array = time_array.slice(ndarray::s![..kept]);
+        let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
+        let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
+        let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
+        let particle_type_array = particle_type_array.slice(ndarray::s![..kept]);
+        let vel_array = vel_array.slice(ndarray::s![..kept, ..]);
+        let pos_array = pos_array.slice(ndarray::s![..kept, ..]);
         let builder = group.new_dataset_builder();
         builder
             .with_data(&time_array)
-- 
2.43.0


From af949b4516ec1a9caa00b1a7e527bdb58c12c15b Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 42/47] fix: the chain CSV converter writes the type under the
 name the readers use

---
 src/converter/csv_modes/csv_multi_chain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index a121bfc..b4898f9 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -329,10 +329,10 @@ pub fn csv_multi_chain(
         let builder = group.new_dataset_builder();
         builder
             .with_data(&particle_type_array)
-            .create("particleid")
+            .create("particletype")
             .unwrap_or_else(|_| {
                 panic!(
-                    "Unable to create dataset \"particleid\" in file {}",
+                    "Unable to create dataset \"particletype\" in file {}",
                     filename
                 )
             });
-- 
2.43.0


From 4e3e438281747c86c98e085f9ac029552f070ec7 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 43/47] fix: the chain CSV converter converts the last
 trajectory too

---
 src/converter/csv_modes/csv_multi_chain.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index b4898f9..2be8eb0 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -84,11 +84,15 @@ pub fn csv_multi_chain(
             }
             old_time = *time;
         }
+        indx_start.push(data.shape()[0]);
+        // the last particle ends with the data
+        particles += 1;
+        duration.push(old_time);
+        steps_per_particle.push(indx_start[particles] - indx_start[particles - 1]);
         let max_duration = duration.iter().fold(0.0, |a, &b| if a > b { a } else { b });
         let max_steps = steps_per_particle
             .iter()
             .fold(0, |a, &b| if a > b { a } else { b });
-        indx_start.push(data.shape()[0]);
         let mut particle_data: Vec<ndarray::Array2<f64>> = Vec::new();
         // go through each particle and save its data into a Vector
         for idx in 0..particles {
-- 
2.43.0


From 1136e101e2759b16301398cfa877c5d4e5587a6e Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 44/47] fix: the id_line CSV converter counts the first record
 of an id

---
 src/converter/csv_modes/csv_multi_idline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index 089a170..af7d504 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -397,7 +397,7 @@ fn sort_by_id(data: ndarray::Array2<f64>) -> (Vec<ndarray::Array2<f64>>, f64, us
         let mut max_t = data[[0, 0]];
         let mut ids = Vec::new();
         let mut ids_timesteps = Vec::new();
-        let mut max_steps = 0;
+        let mut max_steps = 1;
         for i in 0..data.shape()[0] {
             let id = data[[i, 1]] as usize;
             let t = data[[i, 0]];
-- 
2.43.0


From a298af6350f9063d4bc39ea4161af13f4637d54a Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 05:36:36 +0000
Subject: [PATCH 45/47] fix: the CSV converters for several particles state how
 many there are and the timesteps they share

---
 src/converter/csv_modes/csv_multi_chain.rs  | 18 +++++++++++-------
 src/converter/csv_modes/csv_multi_idline.rs | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/converter/csv_modes/csv_multi_chain.rs b/src/converter/csv_modes/csv_multi_chain.rs
index 2be8eb0..e0a0972 100644
--- a/src/converter/csv_modes/csv_multi_chain.rs
+++ b/src/converter/csv_modes/csv_multi_chain.rs
@@ -177,18 +177,15 @@ pub fn csv_multi_chain(
     let mut timesteps: usize = 0;
     let mut time: ndarray::Array1<f64> = ndarray::array![f64::INFINITY, f64::NEG_INFINITY];
     let mut sample_rate: f64 = 0.0;
-    let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
+    let mut first_times = ndarray::Array1::<f64>::zeros(0); // times of the first particle
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         let bar = setup_bar!("Converting", data_length);
         // Attributes
 
         // arrays that will be saved:
-        time_array = ndarray::Array1::<f64>::zeros(data_length);
+        let mut time_array = ndarray::Array1::<f64>::zeros(data_length);
         let particle_id_array = ndarray::Array1::<f64>::ones(data_length);
         let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);
         let ppclouds_array = ndarray::Array1::<f64>::ones(data_length);
@@ -304,6 +301,13 @@ pub fn csv_multi_chain(
           // the rows after the last kept record are empty
         let kept = data_length - total_failcount;
         let time_array = time_array.slice(ndarray::s![..kept]);
+        if p_id == 0 {
+            first_times = time_array.to_owned();
+        }
+        // every particle has a record at each timestep
+        if p_id == 0 || kept < timesteps {
+            timesteps = kept;
+        }
         let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
         let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
         let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
@@ -378,7 +382,7 @@ pub fn csv_multi_chain(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
@@ -409,7 +413,7 @@ pub fn csv_multi_chain(
         .unwrap();
     hdf5file
         .new_dataset_builder()
-        .with_data(&time_array)
+        .with_data(&first_times.slice(ndarray::s![..timesteps]))
         .create("time array")
         .unwrap();
 }
diff --git a/src/converter/csv_modes/csv_multi_idline.rs b/src/converter/csv_modes/csv_multi_idline.rs
index af7d504..8149f97 100644
--- a/src/converter/csv_modes/csv_multi_idline.rs
+++ b/src/converter/csv_modes/csv_multi_idline.rs
@@ -144,18 +144,15 @@ pub fn csv_multi_idline(
     let mut timesteps: usize = 0;
     let mut time: ndarray::Array1<f64> = ndarray::array![f64::INFINITY, f64::NEG_INFINITY];
     let mut sample_rate: f64 = 0.0;
-    let mut time_array = ndarray::Array1::<f64>::zeros(100); // random value as it will be overwritten anyways
+    let mut first_times = ndarray::Array1::<f64>::zeros(0); // times of the first particle
     bar.inc(10);
     for (p_id, data) in particle_data.iter().enumerate() {
         // progress bar
         println!("{:?}", data.shape());
         let data_length = data.column(0).len();
-        if data_length > timesteps {
-            timesteps = data_length;
-        }
         // Attributes
         // arrays that will be saved:
-        time_array = ndarray::Array1::<f64>::zeros(data_length);
+        let mut time_array = ndarray::Array1::<f64>::zeros(data_length);
         let mut particle_id_array = ndarray::Array1::<f64>::ones(data_length);
         particle_id_array.fill(p_id as f64);
         let particle_radius_array = ndarray::Array1::from_elem(data_length, radius);
@@ -272,6 +269,13 @@ pub fn csv_multi_idline(
           // the rows after the last kept record are empty
         let kept = data_length - total_failcount;
         let time_array = time_array.slice(ndarray::s![..kept]);
+        if p_id == 0 {
+            first_times = time_array.to_owned();
+        }
+        // every particle has a record at each timestep
+        if p_id == 0 || kept < timesteps {
+            timesteps = kept;
+        }
         let particle_id_array = particle_id_array.slice(ndarray::s![..kept]);
         let particle_radius_array = particle_radius_array.slice(ndarray::s![..kept]);
         let ppclouds_array = ppclouds_array.slice(ndarray::s![..kept]);
@@ -346,7 +350,7 @@ pub fn csv_multi_idline(
         .new_attr::<u64>()
         .create("particle number")
         .unwrap()
-        .write_scalar(&1_usize)
+        .write_scalar(&particle_data.len())
         .unwrap();
     hdf5file
         .new_attr::<u64>()
@@ -377,7 +381,7 @@ pub fn csv_multi_idline(
         .unwrap();
     hdf5file
         .new_dataset_builder()
-        .with_data(&time_array)
+        .with_data(&first_times.slice(ndarray::s![..timesteps]))
         .create("time array")
         .unwrap();
     bar.finish()
-- 
2.43.0


From 5d499e447817ff1582eb857abc1f432d3ccedf8a Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 06:43:38 +0000
Subject: [PATCH 46/47] fix: the converter for one CSV file per timestep writes
 the given radius

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 30ff8ba..9bfedd5 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -127,8 +127,9 @@ pub fn csv_multi_file_time_step(
         //TODO: add a dict to that to read in other columns!
         let builder = group.new_dataset_builder();
         let zero_array = vec![0.0; particle_id.len()];
+        let radius_array = vec![radius; particle_id.len()];
         builder
-            .with_data(&zero_array)
+            .with_data(&radius_array)
             .create("radius")
             .unwrap_or_else(|_| panic!("Unable to create dataset \"radius\" in file {}", filename));
 
-- 
2.43.0


From 5771eea989854954478e3b8405eed01f98b633e2 Mon Sep 17 00:00:00 2001
From: up4 <up4@example.org>
Date: Fri, 20 Nov 2026 06:43:38 +0000
Subject: [PATCH 47/47] fix: the converter for one CSV file per timestep states
 the greatest number of particles

---
 src/converter/csv_modes/csv_multi_file_time_step.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/converter/csv_modes/csv_multi_file_time_step.rs b/src/converter/csv_modes/csv_multi_file_time_step.rs
index 9bfedd5..186577c 100644
--- a/src/converter/csv_modes/csv_multi_file_time_step.rs
+++ b/src/converter/csv_modes/csv_multi_file_time_step.rs
@@ -204,7 +204,7 @@ pub fn csv_multi_file_time_step(
                 panic!("Unable to create dataset \"position\" in file {}", filename)
             });
         mean_counter += particle_id.len();
-        nparticles = particle_id.len() as u64;
+        nparticles = nparticles.max(particle_id.len() as u64);
         sample_rate = current_time - old_time;
         old_time = current_time;
         if id % 10 == 0 {
-- 
2.43.0

