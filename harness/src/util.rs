use fluffy_tribble::*;
use fluffy_tribble::types::*;
pub fn near(a : f32, b : f32, tol : f32) -> bool { a == b || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs())) || (a.is_nan() && b.is_nan()) }
pub fn vnear(a : Vec3, b : Vec3, tol : f32) -> bool { (a - b).magnitude() <= tol * (1.0 + a.magnitude().max(b.magnitude())) }
pub fn mnear(a : Mat3, b : Mat3, tol : f32) -> bool { (a - b).magnitude() <= tol * (1.0 + a.magnitude().max(b.magnitude())) }
/// whether two rotation vectors are the same rotation
pub fn rnear(a : Vec3, b : Vec3, tol : f32) -> bool {
	let (p, q) = (Quat::from_scaled_axis(a), Quat::from_scaled_axis(b));
	let r = |v : Vec3| (p * v - q * v).magnitude() < tol;
	r(Vec3::x()) && r(Vec3::y()) && r(Vec3::z())
}
pub fn is_err<T, E>(r : &Result<T, E>) -> bool { r.is_err() }
pub fn sphere(radius : f32, center : Vec3, mass : f32, e : f32, f : f32) -> SphereCollider {
	let mut s = SphereCollider::new(radius); s.center = center; s.mass = mass; s.restitution_coefficient = e;
	s.static_friction_coefficient = f; s.dynamic_friction_coefficient = f * 0.8; s
}
pub fn plane(position : Vec3, normal : Vec3, mass : f32, e : f32, f : f32) -> PlaneCollider {
	let mut s = PlaneCollider::new(); s.position = position; s.normal = normal; s.mass = mass; s.restitution_coefficient = e;
	s.static_friction_coefficient = f; s.dynamic_friction_coefficient = f * 0.8; s
}
pub fn steinert(m : f32, d : Vec3) -> Mat3 { (Mat3::identity() * d.dot(&d) - d * d.transpose()) * m }
pub fn body(s : &mut PhysicsSystem, position : Vec3, velocity : Vec3, spin : Vec3, c : ColliderWrapper) -> (EntityHandle, ColliderHandle) {
	let mut e = Entity::new(); e.position = position; e.velocity = velocity; e.angular_velocity = spin;
	let h = s.add_entity(e).unwrap();
	let k = s.add_collider(c).unwrap();
	s.link_collider(k, Some(h)).unwrap();
	(h, k)
}
pub fn momentum(s : &PhysicsSystem, hs : &[EntityHandle]) -> Vec3 { hs.iter().map(|h| { let e = s.get_entity(*h).unwrap(); e.velocity * e.get_last_total_mass() }).sum() }
pub fn angular(s : &PhysicsSystem, hs : &[EntityHandle]) -> Vec3 { hs.iter().map(|h| { let e = s.get_entity(*h).unwrap(); e.position.cross(&e.velocity) * e.get_last_total_mass() + e.get_last_moment_of_inertia() * e.angular_velocity }).sum() }
pub fn energy(s : &PhysicsSystem, hs : &[EntityHandle]) -> f32 { hs.iter().map(|h| { let e = s.get_entity(*h).unwrap(); if e.get_last_total_mass().is_finite() { e.get_total_energy() } else { 0.0 } }).sum() }
