From f9820bfcbf85540191f992e1f968988f6b4d0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 01/38] fix: remove_collider() on a linked collider panicked

The arena was still borrowed while the owner's mass was recalculated, and the owner kept the removed handle.
---
 src/physics_system.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..710de6e 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,12 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		let removed = self.colliders.borrow_mut().remove(handle);
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 115db32b0b44f9b8e82553c37ec06677b9d22ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 02/38] fix: removing an entity left stale handles in its
 neighbors

Waking one of those neighbors later panicked.
---
 src/physics_system.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 710de6e..d90fdc9 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -94,6 +94,10 @@ impl PhysicsSystem {
 	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
 		let removed = self.entities.borrow_mut().remove(handle);
 		if let Some(entity) = removed {
+			// Make sure nothing keeps treating the removed entity as a neighbor.
+			for (_, other) in self.entities.borrow_mut().iter_mut() {
+				other.neighbors.remove(&handle);
+			}
 			// Also remove all associated colliders.
 			for collider in entity.colliders {
 				self.remove_collider(collider);
-- 
2.43.0


From c368938f8c49ced55cfa41c785a9d893a565ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:39 +0000
Subject: [PATCH 03/38] fix: a woken entity fell straight back to sleep

The time spent falling asleep was kept across a wake up, so e.g. a ball whose floor was moved away stayed in mid-air.
---
 src/entity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..c36e554 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -255,6 +255,9 @@ impl InternalEntity {
 				if target.asleep {
 					println!("Waking up {:?}.", target_handle);
 					debug.push(format!("Waking up {:?}.", target_handle));
+					// It must be still for a while again before it can go back to sleep.
+					target.falling_asleep = false;
+					target.falling_asleep_time = 0.0;
 				}
 				target.asleep = false;
 				target.neighbors.clear();
-- 
2.43.0


From 7def292218efcf573806d21993100a34aef98e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 04/38] fix: keep already sleeping neighbors when an entity
 goes to sleep

Overwriting the set made the neighbor relation one sided, so waking this entity no longer woke what slept against it.
---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index d90fdc9..77f0a3c 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -675,7 +675,7 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
+				entity.neighbors.extend(info.neighbors.iter().cloned());
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
-- 
2.43.0


From 2c54d2c6269e995ccbb79348d910fc524744fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:43 +0000
Subject: [PATCH 05/38] fix: an awake entity fell through its sleeping neighbor

The pair was skipped as soon as either of the two was asleep.
---
 src/physics_system.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 77f0a3c..a1266ba 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -425,11 +425,13 @@ impl PhysicsSystem {
 					let second = second_option.unwrap();
 
 					// Ignore the possible collisions if they're a part of the known collisions that were detected when the entity went to sleep.
-					if first.neighbors.contains(&second_entity_info.handle) {
+					// An entity that's still awake can move into its (sleeping) neighbor though.
+					let both_asleep = first.asleep && second.asleep;
+					if both_asleep && first.neighbors.contains(&second_entity_info.handle) {
 						println!("Skipping {:?} due to {:?}", second_entity_info.handle, first_entity_info.handle);
 						continue;
 					}
-					if second.neighbors.contains(&first_entity_info.handle) {
+					if both_asleep && second.neighbors.contains(&first_entity_info.handle) {
 						println!("Skipping {:?} due to {:?}", first_entity_info.handle, second_entity_info.handle);
 						continue;
 					}
-- 
2.43.0


From b0249faf0da9ab841a29cc093883884fd02a1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 06/38] fix: a collision without a usable normal spread NaNs

Spheres with the same center produce a NaN normal, which passed the approach check.
---
 src/physics_system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index a1266ba..72add1d 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -468,7 +468,8 @@ impl PhysicsSystem {
 								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
 								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
 								let velocity_delta = first_full_velocity - second_full_velocity;
-								if EPSILON > velocity_delta.dot(&collision.normal) {
+								// Also drop anything with a junk normal (i.e. if two centers are at the exact same spot), as that can only spread NaNs.
+								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
 									continue;
 								}
-- 
2.43.0


From 0b9205dc93eb729dc372c2637abe44baa5b25e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:11 +0000
Subject: [PATCH 07/38] fix: collisions that no impulse can resolve turned
 entities into NaN

Two infinite masses divided by a zero denominator, a massless body multiplied zero by infinity.
---
 src/physics_system.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 72add1d..e64e5e0 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -474,6 +474,12 @@ impl PhysicsSystem {
 									continue;
 								}
 
+								// Also ignore collisions that no impulse could resolve (i.e. if neither one can be moved, or if one is massless).
+								let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
+								if !(0.0 < denominator && denominator.is_finite()) {
+									continue;
+								}
+
 								// Otherwise check if this collision is the closest.
 								if time < earliest_collision_percent {
 									earliest_collision_percent = time;
-- 
2.43.0


From 2ade627c0633770a4ef8e53417484c0963201056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 08/38] fix: a flat mesh parallel to a plane had a NaN contact
 position

With no spread in distance not one vertex counted as closest.
---
 src/collision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..2227bf6 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -521,11 +521,11 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
-			if start_epsilon > (info.start_distance - start_distances.min()).abs() {
+			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
 				closest_start_position_count += 1.0;
 			}
-			if end_epsilon > (info.end_distance - end_distances.min()).abs() {
+			if end_epsilon >= (info.end_distance - end_distances.min()).abs() {
 				closest_end_position_sum += info.end_position;
 				closest_end_position_count += 1.0;
 			}
-- 
2.43.0


From 03d00750dfc6a88885db5f5430a89fca90d10fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:13 +0000
Subject: [PATCH 09/38] fix: mesh-mesh collisions panicked on a polygon that
 collapses mid-step

The average of the start and end of a quickly rotating face can be degenerate; that face can't be hit.
---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 2227bf6..8f77beb 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -544,7 +544,7 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
@@ -552,10 +552,10 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
 		if length.is_finite() && EPSILON < length {
-			return normal / length;
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None // All the points are (nearly) on one line.
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -569,7 +569,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From 697fc333589bdc8e33e4e5e127117f1ae23503f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:15 +0000
Subject: [PATCH 10/38] fix: update_collider() stored a plane normal without
 normalizing it

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From 55e3f2846e3cd19a41822e2ee42d97e4f75e68f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 11/38] fix: accept aligned boxes whose corners are swapped, as
 documented

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..799ee0d 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -217,7 +217,7 @@ impl AlignedBoxCollider {
 
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
-		let size = self.max_corner - self.min_corner;
+		let size = (self.max_corner - self.min_corner).abs();
 		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
 	}
 }
-- 
2.43.0


From cd04952f4592a063179b44e3aaa1ede574533dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 12/38] fix: collisions ignored the position of an aligned box
 collider

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 8f77beb..fd37de3 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From 41ad058bc45823143526608426b2b7ef2cdb0f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:19 +0000
Subject: [PATCH 13/38] fix: reject a NaN own_mass

---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index c36e554..23085b3 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -54,7 +54,7 @@ pub struct InternalEntity {
 impl InternalEntity {
 	/// Creates a new instance.
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		Ok(InternalEntity {
 			orientation: source.make_orientation(),
 
@@ -98,7 +98,7 @@ impl InternalEntity {
 
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-- 
2.43.0


From c2ad8ef77034cff78203ba1ed2ee2a0ca4e2fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 14/38] fix: an entity added from a copy of another one jumped
 on its first update

add_entity() kept the copy's center of mass offset although no collider is linked yet.
---
 src/entity.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index 23085b3..6c09c24 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -56,7 +56,8 @@ impl InternalEntity {
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
 		if !(0.0 <= source.own_mass) { return Err(()); }
 		Ok(InternalEntity {
-			orientation: source.make_orientation(),
+			// No colliders are linked yet, so the local origin is at the center of mass.
+			orientation: Orientation::new(&source.position, &source.rotation, &Vec3::zeros()),
 
 			own_mass: source.own_mass,
 			total_mass: source.own_mass,
-- 
2.43.0


From 33be9e4662449bed27f0236b9879a3d82d4755b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 15/38] fix: friction could add energy and reverse the sliding

The impulse was a velocity (it ignored the masses) and its limit used the inertia along the normal instead of along the sliding direction.
---
 src/physics_system.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index e64e5e0..4658ef2 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -608,12 +608,14 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
+					// The friction acts along the sliding direction, so that's the direction the mass/inertia split must be for.
+					let friction_direction = Collision { times: collision.times, position: collision.position, normal: sliding / sliding_magnitude };
+					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &friction_direction);
 					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
 					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
 					if friction_percent > 1.0 { friction_percent = 1.0; }
 					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let friction_impulse = if 0.0 < friction_percent { friction_direction.normal * -(friction_percent * max_friction_impulse) } else { Vec3::zeros() };
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
-- 
2.43.0


From e70db8d26da34fa8acd34b06622acdf35619e354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 16/38] fix: writing back an unchanged entity woke it up if it
 had turned past half a turn

The comparison took the two quaternions of one rotation for different rotations.
---
 src/entity.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 6c09c24..b870316 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -101,12 +101,10 @@ impl InternalEntity {
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
 		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
-		let rotation_delta = (
-			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-			(new_rotation.i - self.orientation.rotation.i) * (new_rotation.i - self.orientation.rotation.i) +
-			(new_rotation.j - self.orientation.rotation.j) * (new_rotation.j - self.orientation.rotation.j) +
-			(new_rotation.k - self.orientation.rotation.k) * (new_rotation.k - self.orientation.rotation.k)
-		).sqrt();
+		// A quaternion and its negative are the same rotation.
+		let rotation_delta = (new_rotation.coords - self.orientation.rotation.coords).magnitude().min(
+			(new_rotation.coords + self.orientation.rotation.coords).magnitude()
+		);
 		#[allow(unused_parens)]
 		let changed = (
 			self.own_mass != source.own_mass ||
-- 
2.43.0


From 7760438a37a082431948b2a9567e573a10ced8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 17/38] fix: the energy of a still entity with infinite mass
 was NaN

---
 src/entity.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/entity.rs b/src/entity.rs
index b870316..7a3883b 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -384,6 +384,9 @@ impl Entity {
 
 	/// Gets the total energy of this object.
 	pub fn get_total_energy(&self) -> f32 {
+		if self.last_total_mass.is_infinite() {
+			return if self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON { 0.0 } else { INFINITY };
+		}
 		let linear_energy = (self.last_total_mass * self.velocity).dot(&self.velocity) / 2.0;
 		let angular_energy = (self.get_last_moment_of_inertia() * self.angular_velocity).dot(&self.angular_velocity) / 2.0;
 		linear_energy + angular_energy
-- 
2.43.0


From 0e2f3a0b73c5844574e522fd9ab7125525f6c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 18/38] fix: the moment of inertia of a sphere grows with the
 square of its radius

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From db909871aafc1084b31879226096af432086d25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 19/38] fix: the turning effect of a force didn't depend on the
 moment of inertia

The torque was multiplied by the moment of inertia before being multiplied by its inverse.
---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 4658ef2..af4b351 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -367,7 +367,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From a2887d87693e5e9f0a3bb8e2c8590147a4c5e57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 20/38] fix: spheres missed long edges

The sum of the distances to both ends was compared using an absolute epsilon, which rounding exceeds on edges a few units long.
---
 src/collision.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index fd37de3..6db7814 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -352,7 +352,8 @@ pub fn collide_sphere_with_mid_line_segment(radius1 : f32, center1: &Vec3, movem
 		let hit_movement = movement2.scale(hit.times.min());
 		let hit_start = start2 + hit_movement;
 		let hit_end = end2 + hit_movement;
-		if (((hit_start - hit.position).magnitude() + (hit_end - hit.position).magnitude()) - length.magnitude()).abs() < EPSILON {
+		let along = (hit.position - hit_start).dot(&(hit_end - hit_start));
+		if 0.0 <= along && along <= length.dot(&length) {
 			Some(hit)
 		} else { None }
 	} else { None }
-- 
2.43.0


From 7161876d921e59cc7a6697ff66e94eb0e0ee29c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 21/38] fix: small or slow spheres passed into each other
 before colliding

An absolute epsilon on the determinant treated every crossing as a graze, so it was only noticed at the closest approach.
---
 src/range.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..342697f 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -96,9 +96,10 @@ impl Range {
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			let det_epsilon = EPSILON * b * b; // Must be relative, otherwise the zeros of a small quadratic all become one.
+			if det < -det_epsilon {
 				Range::empty()
-			} else if det < EPSILON {
+			} else if det < det_epsilon {
 				Range::single(-0.5 * b / a)
 			} else {
 				det = det.sqrt();
-- 
2.43.0


From 2e816586fa575b99b4be3ed236e5528ac85e06bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:36 +0000
Subject: [PATCH 22/38] fix: slowly approaching spheres that already overlap
 never collided

The degenerate (linear) case only kept the end point, which is in the past for them.
---
 src/range.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/range.rs b/src/range.rs
index 342697f..2b2a219 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -92,7 +92,9 @@ impl Range {
 				// Degenerates to a constant "equation".
 				if c < EPSILON { Range::everything() } else { Range::empty() }
 			} else {
-				Range::single(-c / b)
+				// If it's negative at zero, then the range must reach from there to the end point.
+				let zero = Range::single(-c / b);
+				if c < 0.0 { zero.contain(&Range::single(0.0)) } else { zero }
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-- 
2.43.0


From 2e656e08e9abf5feff862570b971dc82e8861f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 23/38] fix: boxes turning past half a turn were hit at the
 wrong spot

Orientation::lerp() mixed the rotation vectors, which are far apart just before and after half a turn.
---
 src/orientation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index e9c9fde..c24cdaf 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -1,6 +1,7 @@
 
 use nalgebra::{Translation3, Point3};
 
+use crate::consts::EPSILON;
 use crate::types::{Vec3, Mat3, Quat, Isometry};
 
 /// A structure for storing the frame-of-reference for the local space of an entity.
@@ -75,10 +76,10 @@ impl Orientation {
 	/// Linearly interpolates between a starting and ending orientation.
 	pub fn lerp(time : f32, start : &Orientation, end : &Orientation) -> Orientation {
 		let opposite = 1.0 - time;
-		let rotation_vec = start.rotation_vec() * opposite + end.rotation_vec() * time;
 		Orientation {
 			position: start.position * opposite + end.position * time,
-			rotation: Quat::from_scaled_axis(rotation_vec),
+			// Must go the short way around. (Mixing rotation vectors goes through no rotation at all when passing half a turn.)
+			rotation: start.rotation.try_slerp(&end.rotation, time, EPSILON).unwrap_or(start.rotation),
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 33b3f37ddea7216677a064731fa3febf6f1c5f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:29 +0000
Subject: [PATCH 24/38] fix: spheres resting on one face of a mesh passed
 through its other faces

The contact that already existed was the earliest one, and it was then dropped for not being approached.
---
 src/collision.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 6db7814..2d458d3 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -446,10 +446,20 @@ impl EarliestCollisionAccumulator {
 /// Collides a sphere against a mesh.
 pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3, vertices2 : &Vec<Vec3>, edges2 : &Vec<(usize, usize)>, faces2 : &Vec<Vec<usize>>, movement2 : &Vec3) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
+	// What's already being moved away from must not hide what's about to be hit (i.e. the floor part of a mesh vs its walls).
+	let mut receding_accumulator = EarliestCollisionAccumulator::new();
+	let movement = movement1 - movement2;
+	let mut consider = |possible : Option<Collision>| {
+		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON) {
+			receding_accumulator.consider(possible);
+		} else {
+			accumulator.consider(possible);
+		}
+	};
 	// First check all the corners.
 	for vertex in vertices2 {
 		println!("vertex");
-		accumulator.consider(collide_sphere_with_sphere(
+		consider(collide_sphere_with_sphere(
 			radius1, center1, movement1,
 			0.0, vertex, movement2,
 		));
@@ -457,7 +467,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	// Then check all the edges.
 	for (index1, index2) in edges2 {
 		println!("edge");
-		accumulator.consider(collide_sphere_with_mid_line_segment(
+		consider(collide_sphere_with_mid_line_segment(
 			radius1, center1, movement1,
 			&vertices2[*index1], &vertices2[*index2], movement2,
 		));
@@ -469,12 +479,12 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		for index in face {
 			corners.push(vertices2[*index].clone()); // TODO: Make this more efficient.
 		}
-		accumulator.consider(collide_sphere_with_polygon_surface(
+		consider(collide_sphere_with_polygon_surface(
 			radius1, center1, movement1,
 			&corners, movement2,
 		));
 	}
-	accumulator.get()
+	accumulator.get().or(receding_accumulator.get())
 }
 
 struct _MeshCollisionInfo {
-- 
2.43.0


From b0a88194f9ec0d6d937f50372d85b76b21a0aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 25/38] fix: oblique hits got a normal from where the sphere
 started

---
 src/collision.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 2d458d3..99b37f4 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -305,11 +305,12 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 		dc.dot(&dc) - radius * radius,
 	).intersect(&Range::range(0.0, 1.0));
 	if !times.is_empty() {
+		let center_position = center1 + movement1.scale(times.min());
 		let position = (
-			(center1 + movement1.scale(times.min())) * radius2 +
+			center_position * radius2 +
 			(center2 + movement2.scale(times.min())) * radius1
 		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
@@ -334,7 +335,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From c7eea91d3b7e9861cb8fdc2bda77ec6371aa7039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 26/38] fix: orientations between two close ones didn't turn at
 all

try_slerp() takes rotations that are less than a few thousandths apart for the same one, and yields rotations that aren't of unit length.
---
 src/orientation.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/orientation.rs b/src/orientation.rs
index c24cdaf..226afd9 100644
--- a/src/orientation.rs
+++ b/src/orientation.rs
@@ -1,7 +1,6 @@
 
 use nalgebra::{Translation3, Point3};
 
-use crate::consts::EPSILON;
 use crate::types::{Vec3, Mat3, Quat, Isometry};
 
 /// A structure for storing the frame-of-reference for the local space of an entity.
@@ -79,7 +78,7 @@ impl Orientation {
 		Orientation {
 			position: start.position * opposite + end.position * time,
 			// Must go the short way around. (Mixing rotation vectors goes through no rotation at all when passing half a turn.)
-			rotation: start.rotation.try_slerp(&end.rotation, time, EPSILON).unwrap_or(start.rotation),
+			rotation: start.rotation * (start.rotation.inverse() * end.rotation).powf(time),
 			internal_origin_offset: start.internal_origin_offset.clone(),
 		}
 	}
-- 
2.43.0


From 56395a27354a177fd1a60279d8aa9feba2365b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:39 +0000
Subject: [PATCH 27/38] fix: spinning spheres on one face of a mesh still
 passed through its other faces

What is left of the motion into the floor after an impact is rounding error, but more than EPSILON.
---
 src/collision.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index 99b37f4..af496d1 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -451,7 +451,8 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let mut receding_accumulator = EarliestCollisionAccumulator::new();
 	let movement = movement1 - movement2;
 	let mut consider = |possible : Option<Collision>| {
-		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON) {
+		// (The leftover of the impact with the floor is never exactly zero, in particular if the sphere spins.)
+		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON + movement.magnitude() * 1e-4) {
 			receding_accumulator.consider(possible);
 		} else {
 			accumulator.consider(possible);
-- 
2.43.0


From c5f588076b4319a89a539a5437d001f703371990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:27 +0000
Subject: [PATCH 28/38] fix: collisions with sleeping entities were missed, as
 if those moved

---
 src/physics_system.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index af4b351..4d60ecf 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -444,14 +444,15 @@ impl PhysicsSystem {
 							let second_collider_box = colliders.get(*second_collider_handle).unwrap();
 
 							let first_start_orientation = first.orientation;
-							let first_end_orientation = first.orientation.after_affected(
+							// A sleeping entity doesn't move, no matter what velocity it'd have if it were woken up.
+							let first_end_orientation = if first.asleep { first_start_orientation } else { first.orientation.after_affected(
 								&first_entity_info.linear_movement, &first_entity_info.angular_movement
-							);
+							) };
 
 							let second_start_orientation = second.orientation;
-							let second_end_orientation = second.orientation.after_affected(
+							let second_end_orientation = if second.asleep { second_start_orientation } else { second.orientation.after_affected(
 								&second_entity_info.linear_movement, &second_entity_info.angular_movement
-							);
+							) };
 
 							let collision_option = collide(
 								first_collider_box,
@@ -465,8 +466,8 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								let first_full_velocity = if first.asleep { Vec3::zeros() } else { first.get_velocity_at_world_position(&collision.position) };
+								let second_full_velocity = if second.asleep { Vec3::zeros() } else { second.get_velocity_at_world_position(&collision.position) };
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								// Also drop anything with a junk normal (i.e. if two centers are at the exact same spot), as that can only spread NaNs.
 								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
-- 
2.43.0


From 49cfc4e2170cf21ee6c8a36fe68b3cdf7fa1ef20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:29 +0000
Subject: [PATCH 29/38] fix: bodies parting again by the time of their contact
 were pulled together

---
 src/physics_system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 4d60ecf..36c46f1 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -721,7 +721,8 @@ impl PhysicsSystem {
 
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
-		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
+		// NOTE: They may not be closing in anymore (i.e. when spinning far, or when one of them just got its velocity from waking up), and must never be pulled together.
+		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence.max(0.0);
 		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
-- 
2.43.0


From 197d9cc67ec5774e1584354d353955cfa03a038a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:13 +0000
Subject: [PATCH 30/38] fix: sleeping entities moved before the collision that
 woke them

---
 src/physics_system.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 36c46f1..edae68f 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -500,30 +500,6 @@ impl PhysicsSystem {
 				}
 			}
 
-			// Wake up any entities that should be woken up due to the collision.
-			if let Some(entity_handle) = earliest_collision_first_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
-				// Don't try to wake up any entities that have infinite mass.
-				let has_finite_mass = {
-					let entities = self.entities.borrow_mut();
-					let entity = entities.get(entity_handle).unwrap();
-					entity.get_total_mass().is_finite()
-				};
-				if has_finite_mass {
-					InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug);
-				}
-			}
-
 			// Re-adjust all of the movements to account for time stepping forward to just before (time_left * earliest_collision).
 			let mut entities = self.entities.borrow_mut();
 			let after_collision_percent = 1.0 - earliest_collision_percent;
@@ -545,6 +521,23 @@ impl PhysicsSystem {
 			}
 			time_left = time_after_collision;
 
+			// Wake up any entities that should be woken up due to the collision.
+			// NOTE: Only now, as until the collision they didn't move.
+			if let Some(entity_handle) = earliest_collision_first_entity_handle.clone() {
+				// Don't try to wake up any entities that have infinite mass.
+				let has_finite_mass = entities.get(entity_handle).unwrap().get_total_mass().is_finite();
+				if has_finite_mass {
+					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
+				}
+			}
+			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
+				// Don't try to wake up any entities that have infinite mass.
+				let has_finite_mass = entities.get(entity_handle).unwrap().get_total_mass().is_finite();
+				if has_finite_mass {
+					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
+				}
+			}
+
 			// Then respond to the collision.
 			if let Some(collision) = earliest_collision {
 				println!("Iteration {} -> Found collision with {:?} and {:?}. {} time left.", iteration, earliest_collision_first_entity_handle, earliest_collision_second_entity_handle, time_left);
-- 
2.43.0


From 73352d5200176d79a6858c0ecc9402ce8f9602d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 31/38] fix: collisions of rolling bodies were missed, as if
 they turned about where they started

---
 src/physics_system.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index edae68f..5d0b873 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -466,8 +466,9 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = if first.asleep { Vec3::zeros() } else { first.get_velocity_at_world_position(&collision.position) };
-								let second_full_velocity = if second.asleep { Vec3::zeros() } else { second.get_velocity_at_world_position(&collision.position) };
+								// (The velocities are those by the time of the collision, when the centers of mass have moved on.)
+								let first_full_velocity = if first.asleep { Vec3::zeros() } else { first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time)) };
+								let second_full_velocity = if second.asleep { Vec3::zeros() } else { second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time)) };
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								// Also drop anything with a junk normal (i.e. if two centers are at the exact same spot), as that can only spread NaNs.
 								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
-- 
2.43.0


From 92c8d5c32d76246b85c4fb5705f5b65c34b7ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:37 +0000
Subject: [PATCH 32/38] fix: spheres rolling fast on one face of a mesh still
 passed through its other faces

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index af496d1..4b67943 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -452,7 +452,7 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let movement = movement1 - movement2;
 	let mut consider = |possible : Option<Collision>| {
 		// (The leftover of the impact with the floor is never exactly zero, in particular if the sphere spins.)
-		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON + movement.magnitude() * 1e-4) {
+		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON + movement.magnitude() * 1e-3) {
 			receding_accumulator.consider(possible);
 		} else {
 			accumulator.consider(possible);
-- 
2.43.0


From 74b8775debd58b67919b2fa774f1d7c01aade859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 33/38] fix: meshes hit the faces of moving meshes at the wrong
 time or not at all

---
 src/collision.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 4b67943..d3ad00c 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -693,14 +693,22 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
+			let mut face_movement = Vec3::zeros();
 			for index in face {
 				face_points.push((mesh2_points[*index].start + mesh2_points[*index].end) / 2.0);
+				face_movement += mesh2_points[*index].end - mesh2_points[*index].start;
 			}
-			accumulator.consider(collide_point_with_polygon(
-				&points_info.start,
-				&points_info.end,
+			face_movement /= face.len() as f32;
+			// Must be relative to the (midway) face, as that can be moving too.
+			let mut possible = collide_point_with_polygon(
+				&(points_info.start + face_movement * 0.5),
+				&(points_info.end - face_movement * 0.5),
 				&face_points,
-			));
+			);
+			if let Some(collision) = &mut possible {
+				collision.position += face_movement * (collision.times.min() - 0.5);
+			}
+			accumulator.consider(possible);
 		}
 	}
 
-- 
2.43.0


From 53ad7299279bb8275736750a3a3247e92d27f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:46 +0000
Subject: [PATCH 34/38] fix: a vertex at the very center of a sphere hid the
 other contacts of its mesh

---
 src/collision.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index d3ad00c..3e035b2 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -452,7 +452,8 @@ pub fn collide_sphere_with_mesh(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 	let movement = movement1 - movement2;
 	let mut consider = |possible : Option<Collision>| {
 		// (The leftover of the impact with the floor is never exactly zero, in particular if the sphere spins.)
-		if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal) < EPSILON + movement.magnitude() * 1e-3) {
+		// Neither must what has no normal (i.e. a vertex at the very center of the sphere).
+		if possible.as_ref().map_or(false, |collision| !(EPSILON + movement.magnitude() * 1e-3 <= movement.dot(&collision.normal))) {
 			receding_accumulator.consider(possible);
 		} else {
 			accumulator.consider(possible);
-- 
2.43.0


From 308205477c9fd9d9b271c8cce6bc5b74a86a6378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 35/38] fix: spheres overlapping the edge of an aligned box
 were sometimes said to hit one of its faces

---
 src/collision.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 3e035b2..7fe39ba 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -1157,10 +1157,14 @@ fn collide_sphere_with_aligned_box(radius : f32, center : &Vec3, movement : &Vec
 		let x_overlap_times = x_broad_overlap_times.intersect(&y_narrow_overlap_times).intersect(&z_narrow_overlap_times);
 		let y_overlap_times = x_narrow_overlap_times.intersect(&y_broad_overlap_times).intersect(&z_narrow_overlap_times);
 		let z_overlap_times = x_narrow_overlap_times.intersect(&y_narrow_overlap_times).intersect(&z_broad_overlap_times);
-		// Then combine everything into one value.
-		let mut minimum_times = x_overlap_times.contain(&y_overlap_times).contain(&z_overlap_times);
 		// Must be between zero and one.
-		minimum_times = minimum_times.intersect(&Range::range(0.0, 1.0));
+		// (Must check that for each before combining: there can be a gap between them where the sphere is beside an edge.)
+		let time_limits = Range::range(0.0, 1.0);
+		let x_overlap_times = x_overlap_times.intersect(&time_limits);
+		let y_overlap_times = y_overlap_times.intersect(&time_limits);
+		let z_overlap_times = z_overlap_times.intersect(&time_limits);
+		// Then combine everything into one value.
+		let minimum_times = x_overlap_times.contain(&y_overlap_times).contain(&z_overlap_times);
 		// Then use the time and normal to submit a full Collision object.
 		if !minimum_times.is_empty() {
 			let center_at_collision = center + movement * minimum_times.min();
-- 
2.43.0


From e228625cadd976b336ac9bce3739ed35a802d1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:57 +0000
Subject: [PATCH 36/38] fix: meshes landing flat on a plane touched it at a
 corner picked by rounding

---
 src/collision.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 7fe39ba..0a8b178 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -532,8 +532,10 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 		let mut closest_start_position_count : f32 = 0.0;
 		let mut closest_end_position_sum = Vec3::zeros();
 		let mut closest_end_position_count : f32 = 0.0;
-		let start_epsilon = start_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
-		let end_epsilon = end_distances.size() * 0.01;// Apparently the standard EPSILON is a bit too small...
+		// (If the whole mesh is flat on the plane, then the size of the ranges is mere rounding.)
+		let extent = mesh_vertices.iter().map(|vertex| (vertex - mesh_vertices[0]).magnitude()).fold(0.0, f32::max);
+		let start_epsilon = start_distances.size().max(extent * 0.01) * 0.01;// Apparently the standard EPSILON is a bit too small...
+		let end_epsilon = end_distances.size().max(extent * 0.01) * 0.01;// Apparently the standard EPSILON is a bit too small...
 		for info in calculated {
 			if start_epsilon >= (info.start_distance - start_distances.min()).abs() {
 				closest_start_position_sum += info.start_position;
-- 
2.43.0


From 62709e429bca7a8b6b5798ba0e7cea60945efecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:17 +0000
Subject: [PATCH 37/38] fix: flush faces of two meshes hid the vertices that
 were about to hit

---
 src/collision.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 0a8b178..1c9d60c 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -690,9 +690,11 @@ fn precompute_mesh_point_pairs(mesh : &InternalMeshCollider, start_orientation :
 	transformed
 }
 
-fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
+fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulator, sliding_output : &mut EarliestCollisionAccumulator, mesh1_points : &Vec<MeshPointPairs>, mesh2 : &InternalMeshCollider, mesh2_points : &Vec<MeshPointPairs>, normal_factor : f32) {
 	let mut face_points = Vec::new();
 	let mut accumulator = EarliestCollisionAccumulator::new();
+	// What only slides along a face must not hide what's about to be hit (i.e. if the sides of two boxes are flush).
+	let mut sliding_accumulator = EarliestCollisionAccumulator::new();
 	for points_info in mesh1_points {
 		for face in &mesh2.faces {
 			face_points.clear();
@@ -711,11 +713,17 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 			if let Some(collision) = &mut possible {
 				collision.position += face_movement * (collision.times.min() - 0.5);
 			}
-			accumulator.consider(possible);
+			let movement = points_info.end - points_info.start - face_movement;
+			if possible.as_ref().map_or(false, |collision| movement.dot(&collision.normal).abs() < EPSILON + movement.magnitude() * 1e-3) {
+				sliding_accumulator.consider(possible);
+			} else {
+				accumulator.consider(possible);
+			}
 		}
 	}
 
-	if let Some(mut collision) = accumulator.get() {
+	for (accumulator, output) in vec![(accumulator, output), (sliding_accumulator, sliding_output)] {
+		let mut collision = if let Some(collision) = accumulator.get() { collision } else { continue; };
 		// Make sure the normal is pointing at most of the points.
 		// Do this once at the end because it's kinda expensive.
 		let mut negate : usize = 0;
@@ -740,11 +748,13 @@ fn collide_mesh_points_with_mesh_faces(output : &mut EarliestCollisionAccumulato
 
 pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orientation : &Orientation, mesh1_end_orientation : &Orientation, mesh2 : &InternalMeshCollider, mesh2_start_orientation : &Orientation, mesh2_end_orientation : &Orientation) -> Option<Collision> {
 	let mut accumulator = EarliestCollisionAccumulator::new();
+	let mut sliding_accumulator = EarliestCollisionAccumulator::new();
 	let mesh1_points = precompute_mesh_point_pairs(mesh1, mesh1_start_orientation, mesh1_end_orientation);
 	let mesh2_points = precompute_mesh_point_pairs(mesh2, mesh2_start_orientation, mesh2_end_orientation);
 	// First check all the corners.
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
+		&mut sliding_accumulator,
 		&mesh1_points,
 		&mesh2,
 		&mesh2_points,
@@ -752,13 +762,14 @@ pub fn collide_mesh_with_mesh(mesh1 : &InternalMeshCollider, mesh1_start_orienta
 	);
 	collide_mesh_points_with_mesh_faces(
 		&mut accumulator,
+		&mut sliding_accumulator,
 		&mesh2_points,
 		&mesh1,
 		&mesh1_points,
 		1.0,
 	);
 	// Then check if there are any edge-edge intersections. (TODO!)
-	accumulator.get()
+	accumulator.get().or(sliding_accumulator.get())
 }
 
 #[cfg(test)]
-- 
2.43.0


From ef9c49601c3bc43f7f65179fc56753c1ddd02dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:40 +0000
Subject: [PATCH 38/38] fix: find all forces before changing any velocity, as
 generators may look at other entities

---
 src/physics_system.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 5d0b873..73c8920 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -352,6 +352,8 @@ impl PhysicsSystem {
 			unary_force_generator_handles.push(handle);
 		}
 		let mut entity_info = Vec::with_capacity(self.entities.borrow().len());
+		// NOTE: All forces are found before anything is changed, as generators may look at any entity (and what they see shouldn't depend on the order of the entities).
+		let mut accelerations = Vec::with_capacity(entity_handles.len());
 		for handle in entity_handles { // TODO: Optimize this.
 			let mut acceleration = Vec3::zeros();
 			let mut torque = Vec3::zeros();
@@ -372,6 +374,9 @@ impl PhysicsSystem {
 				}
 			}
 
+			accelerations.push((handle, acceleration, torque));
+		}
+		for (handle, acceleration, torque) in accelerations {
 			let mut entities_borrow = self.entities.borrow_mut();
 			let entity = entities_borrow.get_mut(handle).unwrap();
 			entity.velocity += acceleration.scale(dt);
-- 
2.43.0

