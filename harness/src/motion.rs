use fluffy_tribble::*;
use fluffy_tribble::types::*;
use crate::{Case, Res};
use crate::rng::Rng;
use crate::util::*;

#[derive(Debug, Clone)]
struct Push { force : Vec3, at : Vec3, world : bool, spring : f32 }
impl Push { fn of(&self, p : Vec3) -> (Vec3, Vec3) { (self.force - p * self.spring, if self.world { self.at } else { p + self.at }) } }
impl UnaryForceGenerator for Push {
	fn make_force(&mut self, _dt : f32, physics : &PhysicsSystem, entity : EntityHandle) -> Force { let p = physics.get_entity(entity).unwrap().position; let (f, a) = self.of(p); Force::new(f, a) }
}
/// bodies far apart under several forces
pub fn free(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 11);
	let mut s = PhysicsSystem::new(); s.energy_sleep_threshold = -1.0; s.iteration_max = r.pick(&[1, 2, 5]);
	let n = 1 + r.below(4); let mut hs = Vec::new();
	for i in 0..n {
		let mut e = Entity::new();
		e.position = Vec3::new(i as f32 * 60.0, 0.0, 0.0) + r.vec(3.0); e.rotation = r.maybe(2.0); e.velocity = r.maybe(3.0); e.angular_velocity = r.maybe(1.5);
		let k = r.below(6);
		if k == 0 { e.own_mass = f32::INFINITY; } else if k != 1 && r.chance(0.4) { e.own_mass = r.range(0.2, 4.0); }
		let h = s.add_entity(e).unwrap();
		if k > 1 { for _ in 0..r.below(3) + 1 { let c = if r.chance(0.6) { ColliderWrapper::Sphere(sphere(r.range(0.2, 1.0), r.maybe(1.5), r.range(0.2, 3.0), 1.0, 0.5)) } else { let mut b = AlignedBoxCollider::new(); b.position = r.maybe(1.0); b.min_corner = Vec3::new(-1.0, -0.5, -0.2); b.max_corner = Vec3::new(0.5, 1.0, 0.7); b.mass = r.range(0.5, 3.0); ColliderWrapper::AlignedBox(b) };
			let c = s.add_collider(c).unwrap(); s.link_collider(c, Some(h)).unwrap(); } }
		hs.push(h);
	}
	if n > 1 && r.chance(0.3) { let i = r.below(hs.len()); s.remove_entity(hs[i]); hs.remove(i); }
	let gravity = case.is("P21");
	let mut gs = Vec::new(); let mut accs : Vec<Vec3> = Vec::new();
	for _ in 0..(if gravity { 1 + r.below(2) } else { r.below(4) }) {
		if gravity { let a = r.vec(10.0); accs.push(a); case.say(format!("gravity {:?}", a)); s.add_unary_force_generator(Box::new(GravityGenerator::new(a))).unwrap(); }
		else { let g = Push { force: r.vec(5.0), at: r.maybe(1.0), world: r.chance(0.2), spring: if r.chance(0.4) { 0.1 } else { 0.0 } }; case.say(format!("{:?}", g)); gs.push(g.clone()); s.add_unary_force_generator(Box::new(g)).unwrap(); }
	}
	for _ in 0..2 {
		let dt = if r.chance(0.1) { r.pick(&[0.0, 1e-8, -1e-8]) } else { r.range(0.01, 0.8) };
		let before : Vec<Entity> = hs.iter().map(|h| s.get_entity(*h).unwrap()).collect();
		for e in &before { case.say(format!("{:?}", e)); } case.say(format!("step {}", dt));
		s.step(dt);
		if !s.collision_records.is_empty() { return Ok(()); }
		for (i, h) in hs.iter().enumerate() {
			let b = &before[i]; let e = s.get_entity(*h).unwrap();
			let m = b.get_last_total_mass();
			let tiny = dt.abs() < 1e-6;
			let (mut v, mut w) = (b.velocity, b.angular_velocity);
			let mut size = 1.0;
			if !tiny && m.is_finite() && m > 1e-6 {
				let (mut f, mut t) = (Vec3::zeros(), Vec3::zeros());
				for g in &gs { let (x, at) = g.of(b.position); f += x; t += (at - b.position).cross(&x); size += (at - b.position).magnitude() * x.magnitude(); }
				v += f / m * dt; for a in &accs { v += a * dt; }
				let inertia = b.get_last_moment_of_inertia();
				if let Some(j) = inertia.try_inverse() { w += j * (t * dt); size *= 1.0 + j.magnitude(); } else if t.magnitude() > 1e-4 && inertia.magnitude() > 1e-5 { return Ok(()); }
			}
			if !v.x.is_finite() || !w.x.is_finite() || size > 300.0 { return Ok(()); }
			let d = if tiny { 0.0 } else { dt };
			if !vnear(e.velocity, v, 2e-3) { return Err(format!("velocity {:?} instead of {:?}", e.velocity, v)); }
			if (e.angular_velocity - w).magnitude() > 1e-4 * size * (1.0 + w.magnitude()) { return Err(format!("angular velocity {:?} instead of {:?}", e.angular_velocity, w)); }
			if case.is("P21") { continue; }
			if !vnear(e.position, b.position + v * d, 2e-3) { return Err(format!("position {:?} instead of {:?}", e.position, b.position + v * d)); }
			if w.magnitude() * d < 20.0 {
				let q = Quat::from_scaled_axis(w * d) * Quat::from_scaled_axis(b.rotation); let g = Quat::from_scaled_axis(e.rotation);
				let far = [Vec3::x(), Vec3::y(), Vec3::z()].iter().any(|u| (q * u - g * u).magnitude() > 2e-3 + 1e-4 * size * d);
				if far { return Err(format!("rotation {:?} is not {:?} turned by {:?}", e.rotation, b.rotation, w * d)); }
			}
		}
	}
	Ok(())
}
#[derive(Debug)]
struct Script { want : Vec<f32>, n : usize, dt : f32 }
impl UnaryForceGenerator for Script {
	fn make_force(&mut self, _ : f32, physics : &PhysicsSystem, entity : EntityHandle) -> Force {
		let e = physics.get_entity(entity).unwrap();
		let w = self.want[self.n.min(self.want.len() - 1)]; self.n += 1;
		Force::new((Vec3::new(w, 0.0, 0.0) - e.velocity) * (e.get_last_total_mass() / self.dt), e.position)
	}
}
/// one body whose speed follows a script: when may it sleep?
pub fn sleepy(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 13);
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.01; let need = r.pick(&[0.0, 0.5, 1.0, 1.6]); s.sleep_time_threshold = need;
	let dt = r.pick(&[0.25, 0.5]);
	let m = r.range(0.5, 2.0);
	let (h, _) = body(&mut s, r.vec(3.0), Vec3::zeros(), Vec3::zeros(), ColliderWrapper::Sphere(sphere(1.0, Vec3::zeros(), m, 1.0, 0.0)));
	let want : Vec<f32> = (0..16).map(|_| if r.chance(0.25) { 1.0 } else { 0.02 }).collect();
	case.say(format!("one ball of mass {}, forced to these speeds: {:?}, steps of {}, sleep after {} at energy <= 0.01", m, want, dt, need));
	s.add_unary_force_generator(Box::new(Script { want: want.clone(), n: 0, dt })).unwrap();
	let mut low = 0.0f32; let mut first = true;
	for k in 0..16 {
		let b = s.get_entity(h).unwrap();
		s.step(dt);
		let e = s.get_entity(h).unwrap();
		if b.was_asleep() {
			if e.was_asleep() {
				if e.velocity != Vec3::zeros() || e.angular_velocity != Vec3::zeros() { return Err(format!("asleep with velocity {:?} after step {}", e.velocity, k)); }
				if e.position != b.position { return Err(format!("moved while asleep in step {}", k)); }
				continue;
			} else { return Err("woke up by itself".into()); }
		}
		if case.is("P15") { if !vnear(e.velocity, Vec3::new(want[k], 0.0, 0.0), 1e-3) { return Err(format!("velocity {:?} in step {}", e.velocity, k)); } }
		let high = want[k] > 0.5;
		if high { low = 0.0; first = true; } else { if !first { low += dt; } first = false; }
		if case.is("P16") && e.was_asleep() { if high { return Err(format!("fell asleep in step {} with high energy", k)); } if low + dt < need - 1e-3 { return Err(format!("fell asleep in step {} after {} of {}", k, low + dt, need)); } }
		if case.is("P16") && !e.was_asleep() && !high && low > need + 1e-3 { return Err(format!("does not fall asleep in step {} after {} of {}", k, low, need)); }
	}
	Ok(())
}
