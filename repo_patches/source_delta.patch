From 0af56b96bc72ea0a6cc0185b8b4f511126fba023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 01/19] fix: moment of inertia of a sphere is 2/5 m r^2

---
 src/sphere_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sphere_collider.rs b/src/sphere_collider.rs
index 057a07a..551a3e2 100644
--- a/src/sphere_collider.rs
+++ b/src/sphere_collider.rs
@@ -106,7 +106,7 @@ impl InternalCollider for InternalSphereCollider {
 	fn get_mass(&self) -> f32 { self.mass }
 
 	fn get_moment_of_inertia_tensor(&self) -> Mat3 {
-		let inertia = 2.0 / 5.0 * self.mass * self.radius;
+		let inertia = 2.0 / 5.0 * self.mass * self.radius * self.radius;
 		Mat3::from_diagonal(&Vec3::new(inertia, inertia, inertia))
 	}
 
-- 
2.43.0


From 21f651194e69183c050edf4c4131ce9b32106372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 02/19] fix: normalize the plane normal on update as well

---
 src/plane_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plane_collider.rs b/src/plane_collider.rs
index 0eedaa5..df1e782 100644
--- a/src/plane_collider.rs
+++ b/src/plane_collider.rs
@@ -71,7 +71,7 @@ impl InternalPlaneCollider {
 			Err(()) // TODO: An error type.
 		} else {
 			self.position = source.position;
-			self.normal = source.normal;
+			self.normal = source.normal.normalize();
 			self.mass = source.mass;
 			self.restitution_coefficient = source.restitution_coefficient;
 			self.friction_threshold = source.friction_threshold;
-- 
2.43.0


From 72c7ef5023e882e69229c24d6c09981b85d5336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 03/19] fix: accept aligned boxes whose corners are not given
 in order

---
 src/aligned_box_collider.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_box_collider.rs b/src/aligned_box_collider.rs
index adb51ee..5f8c0d2 100644
--- a/src/aligned_box_collider.rs
+++ b/src/aligned_box_collider.rs
@@ -218,7 +218,7 @@ impl AlignedBoxCollider {
 	/// If this is in a valid state.
 	pub fn is_valid(&self) -> bool {
 		let size = self.max_corner - self.min_corner;
-		EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass
+		EPSILON < size.x.abs() && EPSILON < size.y.abs() && EPSILON < size.z.abs() && 0.0 <= self.mass
 	}
 }
 
-- 
2.43.0


From 71736584bfbbf1a62e00863b6d4711e7e14c0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 04/19] fix: refuse a NaN own mass like a negative one

---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 74de2cc..ccc8dc5 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -54,7 +54,7 @@ pub struct InternalEntity {
 impl InternalEntity {
 	/// Creates a new instance.
 	pub fn new_from(source : Entity) -> Result<InternalEntity, ()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		Ok(InternalEntity {
 			orientation: source.make_orientation(),
 
@@ -98,7 +98,7 @@ impl InternalEntity {
 
 	/// Updates from the passed in Entity object.
 	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
-		if 0.0 > source.own_mass { return Err(()); }
+		if !(0.0 <= source.own_mass) { return Err(()); }
 		let new_rotation = Quat::from_scaled_axis(source.rotation);
 		let rotation_delta = (
 			(new_rotation.w - self.orientation.rotation.w) * (new_rotation.w - self.orientation.rotation.w) +
-- 
2.43.0


From 186bb143cd16c1411632dbd064592b3364c05056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:14 +0000
Subject: [PATCH 05/19] fix: measure the normal of a sphere contact at the time
 of the hit

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index af34fdf..c19fe01 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -309,7 +309,7 @@ pub fn collide_sphere_with_sphere(radius1 : f32, center1 : &Vec3, movement1 : &V
 			(center1 + movement1.scale(times.min())) * radius2 +
 			(center2 + movement2.scale(times.min())) * radius1
 		).scale(1.0 / radius);
-		let normal = (position - center1).normalize();
+		let normal = (position - (center1 + movement1.scale(times.min()))).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From 7cb3d9d73093c0892a2e03f3d0c1b8e18d21d1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:15 +0000
Subject: [PATCH 06/19] fix: measure the normal of a sphere and edge contact at
 the time of the hit

---
 src/collision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision.rs b/src/collision.rs
index c19fe01..0f62f34 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -334,7 +334,7 @@ pub fn collide_sphere_with_line(radius1 : f32, center1: &Vec3, movement1 : &Vec3
 		let center_position = center1 + movement1.scale(times.min());
 		let along_length = (center_position - line_position).dot(&direction);
 		let position = line_position + direction.scale(along_length);
-		let normal = (position - center1).normalize();
+		let normal = (position - center_position).normalize();
 		Some(Collision {
 			times,
 			position,
-- 
2.43.0


From 7149bc4e72ad8c93bfa47782d7b475fcfb6cbc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:16 +0000
Subject: [PATCH 07/19] fix: place aligned boxes at their position when
 colliding with spheres

---
 src/collision.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index 0f62f34..edbdc19 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -218,8 +218,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
@@ -242,8 +242,8 @@ pub fn collide(collider1 : &Box<dyn InternalCollider>, start1 : &Orientation, en
 			sphere.radius,
 			&sphere_start_position,
 			&(sphere_end_position - sphere_start_position),
-			&aligned_box.min_corner,
-			&aligned_box.max_corner,
+			&(aligned_box.position + aligned_box.min_corner),
+			&(aligned_box.position + aligned_box.max_corner),
 		);
 
 		if let Some(mut result) = result_option {
-- 
2.43.0


From b24e334c73d98a96e80a71d306d42f67d3e5c963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 08/19] fix: do not scale torques by the moment of inertia

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index f617711..953ab76 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -361,7 +361,7 @@ impl PhysicsSystem {
 						let force = generator_borrow.make_force(dt, &self, handle);
 
 						acceleration += force.force.scale(1.0 / total_mass);
-						torque += entity_copy.get_last_moment_of_inertia() * (force.position - entity_copy.position).cross(&force.force);
+						torque += (force.position - entity_copy.position).cross(&force.force);
 					}
 				}
 			}
-- 
2.43.0


From 94f4a05634a1d8db3b1b862fe65ed94f3623ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 09/19] fix: removing a linked collider unlinks it instead of
 panicking

---
 src/physics_system.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 953ab76..d813e39 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -176,10 +176,13 @@ impl PhysicsSystem {
 
 	/// Removes a collider.
 	pub fn remove_collider(&mut self, handle : ColliderHandle) {
-		if let Some(mut remainder) = self.colliders.borrow_mut().remove(handle) {
+		// Take the collider out first so that nothing below happens while the colliders are still mutably borrowed.
+		let removed = self.colliders.borrow_mut().remove(handle);
+		if let Some(mut remainder) = removed {
 			// Force the associated entity to update (if there is one).
 			if let Some(entity_handle) = remainder.get_entity() {
 				if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
+					entity.colliders.remove(&handle);
 					entity.recalculate_mass(&*self.colliders.borrow());
 				}
 			}
-- 
2.43.0


From 184608ee1b2152d809cd7934d4ecc87e6020db73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:38 +0000
Subject: [PATCH 10/19] fix: forget a removed entity in the entities resting
 against it

---
 src/physics_system.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index d813e39..02b3360 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -98,6 +98,12 @@ impl PhysicsSystem {
 			for collider in entity.colliders {
 				self.remove_collider(collider);
 			}
+			// And make sure that nothing is left resting against it.
+			for neighbor_handle in entity.neighbors {
+				if let Some(neighbor) = self.entities.borrow_mut().get_mut(neighbor_handle) {
+					neighbor.neighbors.remove(&handle);
+				}
+			}
 			true
 		} else { false }
 	}
-- 
2.43.0


From 22e26029f2ed85cea26cdcc95b167ad92ad1028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 11/19] fix: falling asleep keeps the neighbors that fell
 asleep earlier

---
 src/physics_system.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 02b3360..84e1d84 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -678,7 +678,7 @@ impl PhysicsSystem {
 				}
 
 				entity.asleep = true;
-				entity.neighbors = info.neighbors.clone();
+				entity.neighbors.extend(info.neighbors.iter()); // Keep the ones that fell asleep earlier while resting against this.
 				println!("Putting {:?} to sleep", info.handle);
 				self.debug.push(format!("Putting {:?} to sleep (energy={:?}; neighbors={:?}; velocity={:?}; angular_velocity={:?}; position={:?})", info.handle, energy, info.neighbors.len(), entity.velocity, entity.angular_velocity, entity.orientation.position));
 			}
-- 
2.43.0


From 364305457b8d95875ecbd8661650b605fbe02b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:59 +0000
Subject: [PATCH 12/19] fix: updating an entity with its own rotation does not
 wake it up

---
 src/entity.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index ccc8dc5..a49d8dc 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -106,11 +106,18 @@ impl InternalEntity {
 			(new_rotation.j - self.orientation.rotation.j) * (new_rotation.j - self.orientation.rotation.j) +
 			(new_rotation.k - self.orientation.rotation.k) * (new_rotation.k - self.orientation.rotation.k)
 		).sqrt();
+		// A quaternion and its negation are the same rotation, so must be close to neither to count as a change.
+		let negated_rotation_delta = (
+			(new_rotation.w + self.orientation.rotation.w) * (new_rotation.w + self.orientation.rotation.w) +
+			(new_rotation.i + self.orientation.rotation.i) * (new_rotation.i + self.orientation.rotation.i) +
+			(new_rotation.j + self.orientation.rotation.j) * (new_rotation.j + self.orientation.rotation.j) +
+			(new_rotation.k + self.orientation.rotation.k) * (new_rotation.k + self.orientation.rotation.k)
+		).sqrt();
 		#[allow(unused_parens)]
 		let changed = (
 			self.own_mass != source.own_mass ||
 			EPSILON < (self.orientation.position - source.position).magnitude() ||
-			EPSILON < rotation_delta ||
+			(EPSILON < rotation_delta && EPSILON < negated_rotation_delta) ||
 			EPSILON < (self.velocity - source.velocity).magnitude() ||
 			EPSILON < (self.angular_velocity - source.angular_velocity).magnitude()
 		);
-- 
2.43.0


From b8e166d85252938c8fdb729332f3d17813cdc7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 13/19] fix: do not treat small discriminants as zero

---
 src/range.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/range.rs b/src/range.rs
index 51d4d8c..7329452 100644
--- a/src/range.rs
+++ b/src/range.rs
@@ -96,10 +96,8 @@ impl Range {
 			}
 		} else {
 			let mut det = b * b - 4.0 * a * c;
-			if det < -EPSILON { // TODO: Could use a relative epsilon to keep things stable even in tiny cases.
+			if det < 0.0 {
 				Range::empty()
-			} else if det < EPSILON {
-				Range::single(-0.5 * b / a)
 			} else {
 				det = det.sqrt();
 				let denom = 2.0 * a;
-- 
2.43.0


From d99b78f905b054b6bf64aafa178c3ff997a88168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 14/19] fix: do not panic on degenerate polygons when colliding
 meshes

---
 src/collision.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collision.rs b/src/collision.rs
index edbdc19..8e97c09 100644
--- a/src/collision.rs
+++ b/src/collision.rs
@@ -544,7 +544,8 @@ pub fn collide_mesh_with_plane(mesh_vertices : &Vec<Vec3>, mesh_position : &Vec3
 	}
 }
 
-fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
+/// Gets the normal of a polygon, or None if it's too degenerate to have one (e.g. a turning mesh whose averaged points all end up in line).
+fn get_polygon_normal(points : &Vec<Vec3>) -> Option<Vec3> {
 	for index in 0..points.len() {
 		let mut next_index = index + 1;
 		if next_index >= points.len() { next_index -= points.len(); }
@@ -552,10 +553,10 @@ fn get_polygon_normal(points : &Vec<Vec3>) -> Vec3 {
 		let normal = (points[prev_index] - points[index]).cross(&(points[next_index] - points[index]));
 		let length = normal.magnitude();
 		if length.is_finite() && EPSILON < length {
-			return normal / length;
+			return Some(normal / length);
 		}
 	}
-	panic!("Couldn't find a normal for the polygon: {:?}", points);
+	None
 }
 
 fn point_is_on_plane(point : &Vec3, plane_normal : &Vec3, plane_point : &Vec3) -> bool {
@@ -569,7 +570,7 @@ fn collide_point_with_polygon(point_start : &Vec3, point_end : &Vec3, polygon :
 	let point_delta = point_end - point_start;
 	// First: figure out when the point will collide with the (moving) plane.
 	// Then decide whether that point (or point movement) goes into the polygon.
-	let mut plane_normal = get_polygon_normal(polygon);
+	let mut plane_normal = get_polygon_normal(polygon)?;
 	// Note that the only way for the point to be on the plane more than once is if it's always on the plane. So use that to decide...
 	if point_is_on_plane(point_start, &plane_normal, &polygon[0]) && point_is_on_plane(point_end, &plane_normal, &polygon[0]) {
 		// Then see if/when that point intersects with the polygon's line segments.
-- 
2.43.0


From a922dab3b2f955bc3b9d5aa42e2d524c61a10e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 15/19] fix: an entity of infinite own mass cannot be spun by
 impulses

---
 src/entity.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/entity.rs b/src/entity.rs
index a49d8dc..a4fb739 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -170,7 +170,7 @@ impl InternalEntity {
 		// Then find the moment of inertia relative to the center-of-mass.
 		// Note that everything here is done in WORLD space not local.
 		self.prepped_moment_of_inertia = Mat3::zeros();
-		if !found_infinite {
+		if !self.total_mass.is_infinite() {
 			// TODO? Do orientation.rotation and angular_velocity need to change since the center-of-mass changed?
 			for handle in self.colliders.iter() {
 				let collider = colliders.get(*handle).unwrap();
-- 
2.43.0


From f24fb2ed2456ee9a6e174772d9c0215c776ba26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:41 +0000
Subject: [PATCH 16/19] fix: friction uses the mass split along the sliding
 direction so it cannot add energy

---
 src/physics_system.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 84e1d84..9dc40e0 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -602,12 +602,13 @@ impl PhysicsSystem {
 					} else {
 						earliest_collision_dynamic_friction_coefficient
 					};
-					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision);
-					let max_friction_impulse = sliding_magnitude / denominator; // Divide by denominator so the mass/inertia split is reasonable.
+					// The friction acts against the sliding, so this needs the mass/inertia split along that direction (and not along the normal).
+					let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &(sliding / sliding_magnitude));
+					let max_friction_impulse = sliding_magnitude / denominator; // The impulse that'd stop all the sliding.
 					let mut friction_percent : f32 = (impulse.magnitude() * friction_coefficient) / max_friction_impulse;
 					if friction_percent > 1.0 { friction_percent = 1.0; }
-					if !friction_percent.is_finite() { friction_percent = 0.0; }
-					let friction_impulse = sliding * -friction_percent;
+					let mut friction_impulse = sliding * (-friction_percent / denominator);
+					if !friction_impulse.magnitude().is_finite() { friction_impulse = Vec3::zeros(); }
 
 					PhysicsSystem::apply_collision_impulse(
 						&mut first,
@@ -690,16 +691,17 @@ impl PhysicsSystem {
 		}
 	}
 
-	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, collision : &Collision) -> f32 {
-		let first_offset  = collision.position - first.orientation.position;
-		let second_offset = collision.position - second.orientation.position;
+	/// Calculates how much an impulse (of size one) along the given direction at the given position changes the relative velocity along that direction.
+	fn calc_collision_impulse_denominator(first : &InternalEntity, second : &InternalEntity, position : &Vec3, direction : &Vec3) -> f32 {
+		let first_offset  = position - first.orientation.position;
+		let second_offset = position - second.orientation.position;
 
 		let first_linear_weight   = 1.0 / first.get_total_mass();
 		let second_linear_weight  = 1.0 / second.get_total_mass();
-		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( &collision.normal);
-		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( &collision.normal);
-		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(&collision.normal);
-		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(&collision.normal);
+		let first_angular_amount = first.get_inverse_moment_of_inertia()   * first_offset.cross( direction);
+		let first_angular_weight  = first_angular_amount.cross(&first_offset).dot( direction);
+		let second_angular_amount = second.get_inverse_moment_of_inertia() * second_offset.cross(direction);
+		let second_angular_weight = second_angular_amount.cross(&second_offset).dot(direction);
 		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight
 	}
 
@@ -713,7 +715,7 @@ impl PhysicsSystem {
 		// First find the collision response along the normal.
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
-		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, collision);
+		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From de360ea42819e203b4578df355230b128ca98a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:42 +0000
Subject: [PATCH 17/19] fix: no impulse between two entities of infinite mass

---
 src/physics_system.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 9dc40e0..0adfbd9 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -716,6 +716,8 @@ impl PhysicsSystem {
 		let normal_coincidence = velocity_delta.dot(&collision.normal);
 		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence;
 		let denominator = PhysicsSystem::calc_collision_impulse_denominator(first, second, &collision.position, &collision.normal);
+		// If nothing can be moved (i.e. both have infinite mass) then there is no impulse.
+		if !(0.0 < denominator) { return Vec3::zeros(); }
 		let normal_impulse_magnitude = numerator / denominator;
 		collision.normal.scale(normal_impulse_magnitude)
 	}
-- 
2.43.0


From 109935024e80d340b14c48c865078c8a8afdc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 18/19] fix: ignore contacts without a valid normal instead of
 spreading NaN

---
 src/physics_system.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index 0adfbd9..a74ad99 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -469,7 +469,8 @@ impl PhysicsSystem {
 								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
 								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
 								let velocity_delta = first_full_velocity - second_full_velocity;
-								if EPSILON > velocity_delta.dot(&collision.normal) {
+								// Also ignore it if there is no telling because there's no valid normal (i.e. when two spheres have the same center).
+								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
 									//self.debug.push(format!("Dropping collision at: {:?} between {:?} (velocity: {:?}) and {:?} (velocity: {:?}) normal={:?}", collision.position, first_collider_handle, first_full_velocity, second_collider_handle, second_full_velocity, collision.normal));
 									continue;
 								}
-- 
2.43.0


From d66b975a0f73dc18c3397521972945620b455402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:44 +0000
Subject: [PATCH 19/19] fix: judge whether a contact approaches with the
 entities where they touch

The search compared the velocities at the contact point of two entities that had
not been moved to where they touch yet, so the offset from the centre of mass (and
with it the spin's share) was off by the movement until then. Contacts between
spinning entities that were really approaching got dropped.
---
 src/physics_system.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics_system.rs b/src/physics_system.rs
index a74ad99..0beba69 100644
--- a/src/physics_system.rs
+++ b/src/physics_system.rs
@@ -466,8 +466,9 @@ impl PhysicsSystem {
 							if let Some(collision) = collision_option {
 								let time = collision.times.min();
 								// If the objects are (already) moving away from the point of contact, then ignore the collision.
-								let first_full_velocity = first.get_velocity_at_world_position(&collision.position);
-								let second_full_velocity = second.get_velocity_at_world_position(&collision.position);
+								// NOTE: The entities haven't been moved to where they touch yet, so this takes their movement until then back off of the position.
+								let first_full_velocity = first.get_velocity_at_world_position(&(collision.position - first_entity_info.linear_movement * time));
+								let second_full_velocity = second.get_velocity_at_world_position(&(collision.position - second_entity_info.linear_movement * time));
 								let velocity_delta = first_full_velocity - second_full_velocity;
 								// Also ignore it if there is no telling because there's no valid normal (i.e. when two spheres have the same center).
 								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {
-- 
2.43.0

