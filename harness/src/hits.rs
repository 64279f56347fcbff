use fluffy_tribble::*;
use fluffy_tribble::types::*;
use crate::{Case, Res};
use crate::rng::Rng;
use crate::util::*;

#[derive(Clone, Debug)]
struct Ball { p : Vec3, v : Vec3, w : Vec3, r : f32, m : f32, e : f32, f : f32, extra : Option<(Vec3, f32)> }
/// first time in (0, end) at which two balls (or a ball and a half space) touch, in f64
fn touch(p : Vec3, v : Vec3, r : f32) -> Option<f64> {
	let (px, py, pz) = (p.x as f64, p.y as f64, p.z as f64); let (vx, vy, vz) = (v.x as f64, v.y as f64, v.z as f64);
	let a = vx * vx + vy * vy + vz * vz; let b = px * vx + py * vy + pz * vz; let c = px * px + py * py + pz * pz - (r as f64) * (r as f64);
	if a < 1e-12 || b >= 0.0 || c <= 0.0 { return None; }
	let d = b * b - a * c; if d <= 0.0 { None } else { Some((-b - d.sqrt()) / a) }
}
fn ball(r : &mut Rng) -> Ball {
	Ball { p: r.vec(4.0), v: r.vec(4.0), w: Vec3::zeros(), r: r.range(0.3, 1.5), m: r.range(0.2, 4.0), e: r.pick(&[0.0, 0.3, 0.7, 1.0]), f: 0.0, extra: None }
}
fn add(s : &mut PhysicsSystem, b : &Ball) -> EntityHandle {
	let (h, _) = body(s, b.p, b.v, Vec3::zeros(), ColliderWrapper::Sphere(sphere(b.r, Vec3::zeros(), b.m, b.e, b.f)));
	if let Some((c, m)) = b.extra { let mut n = NullCollider::new(); n.position = c; n.mass = m; n.moment_of_inertia = Mat3::identity() * (0.2 * m); let k = s.add_collider(ColliderWrapper::Null(n)).unwrap(); s.link_collider(k, Some(h)).unwrap(); }
	if b.w != Vec3::zeros() || b.extra.is_some() { let mut e = s.get_entity(h).unwrap(); e.velocity = b.v; e.angular_velocity = b.w; s.update_entity(h, e).unwrap(); }
	h
}
fn point_velocity(v : Vec3, w : Vec3, com : Vec3, p : Vec3) -> Vec3 { v + w.cross(&(p - com)) }
/// two bodies that meet once
pub fn pair(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 3);
	let conserve = case.is("P08") || case.is("P10");
	let spin = conserve || case.is("P09");
	let mut a = ball(&mut r); let mut b = ball(&mut r);
	let wall = r.chance(if case.is("P08") { 0.1 } else { 0.35 });
	let normal = r.dir();
	if spin && r.chance(0.6) { a.extra = Some((r.vec(1.0), r.range(0.2, 2.0))); b.extra = if r.chance(0.5) { Some((r.vec(1.0), r.range(0.2, 2.0))) } else { None }; }
	if spin && r.chance(0.6) { a.w = r.vec(1.0); b.w = r.vec(1.0); }
	if conserve { a.f = r.pick(&[0.0, 0.3, 1.0]); b.f = r.pick(&[0.3, 1.0]); }
	let dt = r.range(0.3, 1.5);
	// aim: they touch somewhere inside of the step
	if !r.chance(0.15) {
		if wall { let d = r.range(0.2, 3.0); a.p = b.p + normal * (a.r + d) + r.vec(1.0).cross(&normal); let sp = (d + 0.01) / (dt * r.range(0.15, 0.85)); a.v = -normal * sp + r.vec(2.0).cross(&normal); b.v = Vec3::zeros(); }
		else { let d = r.range(0.2, 3.0); let n = r.dir(); a.p = b.p + n * (a.r + b.r + d); let side = n.cross(&r.dir()) * (a.r + b.r) * 0.5 * r.unit(); a.v = b.v + (side - n * (d + 0.4 * (a.r + b.r))) / (dt * r.range(0.3, 0.85)); }
	}
	if wall { b.v = Vec3::zeros(); b.w = Vec3::zeros(); }
	let build = |swap : bool| {
		let mut s = PhysicsSystem::new(); s.energy_sleep_threshold = -1.0; s.iteration_max = 1;
		let other = |s : &mut PhysicsSystem| if wall { body(s, b.p, Vec3::zeros(), Vec3::zeros(), ColliderWrapper::Plane(plane(Vec3::zeros(), normal, f32::INFINITY, b.e, b.f))).0 } else { add(s, &b) };
		if swap { let hb = other(&mut s); let ha = add(&mut s, &a); (s, ha, hb) } else { let ha = add(&mut s, &a); let hb = other(&mut s); (s, ha, hb) }
	};
	let (mut s, ha, hb) = build(false);
	case.say(format!("a {:?}", a)); case.say(if wall { format!("wall through {:?} facing {:?} restitution {} friction {}", b.p, normal, b.e, b.f) } else { format!("b {:?}", b) }); case.say(format!("step {}", dt));
	let (ea, eb) = (s.get_entity(ha).unwrap(), s.get_entity(hb).unwrap());
	let all = [ha, hb];
	let (p0, l0, e0) = (momentum(&s, &all), angular(&s, &all), energy(&s, &all));
	s.step(dt);
	let (fa, fb) = (s.get_entity(ha).unwrap(), s.get_entity(hb).unwrap());
	let scale = 1.0 + a.v.magnitude() + b.v.magnitude() + a.w.magnitude() + b.w.magnitude();
	if !fa.velocity.x.is_finite() || !fb.velocity.x.is_finite() { return Ok(()); }
	let masses = a.m + b.m + a.extra.map(|x| x.1).unwrap_or(0.0) + b.extra.map(|x| x.1).unwrap_or(0.0);
	if case.is("P08") {
		if wall { if !vnear(fb.velocity, Vec3::zeros(), 1e-5) || !vnear(fb.angular_velocity, Vec3::zeros(), 1e-5) { return Err(format!("a wall of infinite mass starts to move: {:?} {:?}", fb.velocity, fb.angular_velocity)); } }
		else {
			let (p1, l1) = (momentum(&s, &all), angular(&s, &all));
			if (p1 - p0).magnitude() > 2e-3 * scale * masses { return Err(format!("momentum goes from {:?} to {:?}", p0, p1)); }
			if (l1 - l0).magnitude() > 5e-3 * scale * masses * 10.0 { return Err(format!("angular momentum goes from {:?} to {:?}", l0, l1)); }
		}
	}
	if case.is("P10") { let e1 = energy(&s, &all); if e1 > e0 * 1.003 + 1e-3 { return Err(format!("kinetic energy goes from {} to {}", e0, e1)); } }
	// a plain collision: both move along straight lines until they touch
	let plain = a.extra.is_none() && b.extra.is_none();
	let t = if wall { let gap = (a.p - b.p).dot(&normal) - a.r; let vn = a.v.dot(&normal); if gap > 0.0 && vn < -1e-3 { Some((gap / -vn) as f64) } else { None } } else { touch(a.p - b.p, a.v - b.v, a.r + b.r) };
	if let Some(rec) = s.collision_records.get(0) {
		let first_a = rec.first_entity == ha;
		let ct = |q : Vec3, v : Vec3| q + v * rec.time;
		if case.is("P11") && plain {
			if !(rec.time >= -1e-4 && rec.time <= dt * 1.0001) { return Err(format!("time {} outside of the step", rec.time)); }
			let da = ((rec.position - ct(a.p, a.v)).magnitude() - a.r).abs();
			let overlapping = if wall { (a.p - b.p).dot(&normal) < a.r + 1e-3 } else { (a.p - b.p).magnitude() < a.r + b.r + 1e-3 };
			if !overlapping {
				if da > 2e-2 { return Err(format!("the contact at {:?} is {} off the surface of a", rec.position, da)); }
				let db = if wall { (rec.position - b.p).dot(&normal).abs() } else { ((rec.position - ct(b.p, b.v)).magnitude() - b.r).abs() };
				if db > 2e-2 { return Err(format!("the contact at {:?} is {} off the surface of the other", rec.position, db)); }
				if (rec.normal.magnitude() - 1.0).abs() > 1e-3 { return Err(format!("the normal {:?} is not of unit length", rec.normal)); }
				let out = (rec.position - ct(a.p, a.v)) / a.r; let out = if first_a { out } else { -out };
				if (rec.normal - out).magnitude() > 3e-2 { return Err(format!("the normal {:?} does not point off the first object (expected {:?})", rec.normal, out)); }
			}
		}
		if case.is("P09") && s.collision_records.len() == 1 {
			// velocities are constant before and after the only contact
			let (ca, cb) = (ea.position + a.v * rec.time, eb.position + b.v * rec.time);
			let n = rec.normal;
			let before = (point_velocity(a.v, a.w, ca, rec.position) - point_velocity(b.v, b.w, cb, rec.position)).dot(&n);
			let after = (point_velocity(fa.velocity, fa.angular_velocity, ca, rec.position) - point_velocity(fb.velocity, fb.angular_velocity, cb, rec.position)).dot(&n);
			let e = a.e * b.e;
			if plain || a.w == Vec3::zeros() && b.w == Vec3::zeros() {
				if (after + e * before).abs() > 1e-2 * scale { return Err(format!("normal velocity {} becomes {} with restitution {}", before, after, e)); }
			}
			if !near(rec.restitution_coefficient, e, 1e-3) { return Err(format!("restitution {} recorded instead of {}", rec.restitution_coefficient, e)); }
		}
	}
	if case.is("P12") && plain {
		if let Some(t) = t { if t > 0.02 * dt as f64 && t < 0.98 * dt as f64 {
			let closing = if wall { -a.v.dot(&normal) } else { let n = (a.p + a.v * t as f32 - b.p - b.v * t as f32).normalize(); -(a.v - b.v).dot(&n) };
			if closing > 0.05 {
				match s.collision_records.get(0) { None => return Err(format!("they meet at {} of {}, nothing is reported", t, dt)), Some(rec) => if ((rec.time as f64) - t).abs() > 0.01 * (dt as f64) / (closing.min(1.0) as f64) { return Err(format!("they meet at {}, reported at {}", t, rec.time)); } }
			}
		} }
	}
	if case.is("P13") && plain {
		let (mut z, za, zb) = build(true);
		z.step(dt);
		let _ = (za, zb);
		if s.collision_records.len() != z.collision_records.len() { 
			let grazing = s.collision_records.iter().chain(z.collision_records.iter()).any(|c| c.time > 0.98 * dt || c.time < 0.02 * dt);
			if !grazing && t.map(|t| t > 0.05 * dt as f64 && t < 0.95 * dt as f64).unwrap_or(false) { return Err(format!("{} contacts one way round, {} the other", s.collision_records.len(), z.collision_records.len())); }
		} else if let (Some(x), Some(y)) = (s.collision_records.get(0), z.collision_records.get(0)) {
			if (a.p - b.p).magnitude() > 0.1 {
				if !near(x.time, y.time, 2e-3) || !vnear(x.position, y.position, 1e-2) { return Err(format!("contact at {} {:?} one way round, {} {:?} the other", x.time, x.position, y.time, y.position)); }
				let same = (x.first_entity == ha) == (y.first_entity == za);
				if (x.normal - if same { y.normal } else { -y.normal }).magnitude() > 2e-2 { return Err(format!("normals {:?} and {:?}", x.normal, y.normal)); }
			}
		}
	}
	Ok(())
}
/// many bodies, many contacts in a step
pub fn many(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 5);
	let mut s = PhysicsSystem::new(); s.energy_sleep_threshold = -1.0; s.iteration_max = r.pick(&[0, 1, 2, 3, 5, 9]);
	let n = 2 + r.below(4); let mut hs = Vec::new(); let mut bs : Vec<Ball> = Vec::new();
	for _ in 0..60 {
		if bs.len() >= n { break; }
		let mut b = ball(&mut r); b.p = r.vec(5.0); b.r = r.range(0.4, 1.0); b.v = -b.p * r.range(0.2, 1.0) + r.vec(1.0); b.f = r.pick(&[0.0, 0.5]);
		if bs.iter().all(|o| (o.p - b.p).magnitude() > o.r + b.r + 0.2) { hs.push(add(&mut s, &b)); bs.push(b); }
	}
	let pool = s.add_entity(Entity::new()).unwrap(); s.remove_entity(pool);
	for b in &bs { case.say(format!("{:?}", b)); } case.say(format!("iteration_max {}", s.iteration_max));
	for round in 0..3 {
		let dt = r.range(0.3, 1.5); case.say(format!("step {}", dt));
		let st : Vec<(Vec3, Vec3)> = hs.iter().map(|h| { let e = s.get_entity(*h).unwrap(); (e.position, e.velocity) }).collect();
		let (p0, l0, e0) = (momentum(&s, &hs), angular(&s, &hs), energy(&s, &hs));
		s.step(dt);
		if hs.iter().any(|h| s.get_entity(*h).map(|e| !e.velocity.x.is_finite()).unwrap_or(true)) { return Ok(()); }
		let recs = &s.collision_records;
		if case.is("P14") {
			if recs.len() > s.iteration_max as usize { return Err(format!("{} records with an iteration limit of {}", recs.len(), s.iteration_max)); }
			let mut last = 0.0;
			for c in recs { if !(c.time >= last - 1e-4 * dt && c.time <= dt * 1.0001) { return Err(format!("times of the records: {:?}", recs.iter().map(|c| c.time).collect::<Vec<_>>())); } last = c.time;
				if c.first_entity == c.second_entity || !hs.contains(&c.first_entity) || !hs.contains(&c.second_entity) { return Err("a record names no two different entities".into()); } }
			if s.iteration_max > 0 {
				let mut best : Option<f64> = None;
				for i in 0..bs.len() { for j in 0..i { if let Some(t) = touch(st[i].0 - st[j].0, st[i].1 - st[j].1, bs[i].r + bs[j].r) {
					let nrm = (st[i].0 + st[i].1 * t as f32 - st[j].0 - st[j].1 * t as f32).normalize();
					if -(st[i].1 - st[j].1).dot(&nrm) > 0.1 && t < 0.97 * dt as f64 && best.map(|b| t < b).unwrap_or(true) { best = Some(t); } } } }
				if let Some(t) = best { match recs.get(0) { None => return Err(format!("a collision at {} is not handled", t)), Some(c) => if c.time as f64 > t + 0.03 * dt as f64 { return Err(format!("the first collision handled is at {}, there is one at {}", c.time, t)); } } }
			}
		}
		if case.is("P20") && s.iteration_max > 0 {
			let full = recs.len() == s.iteration_max as usize;
			let said = s.debug.iter().any(|d| d.to_lowercase().contains("ran out"));
			if full && !said { return Err("the iterations are used up and the debug output does not say so".into()); }
			if recs.len() > s.iteration_max as usize { return Err(format!("{} iterations with a limit of {}", recs.len(), s.iteration_max)); }
		}
		let scale = (1.0 + st.iter().map(|x| x.1.magnitude()).sum::<f32>()) * bs.iter().map(|b| b.m).sum::<f32>();
		if case.is("P08") { let (p1, l1) = (momentum(&s, &hs), angular(&s, &hs)); if (p1 - p0).magnitude() > 3e-3 * scale { return Err(format!("momentum goes from {:?} to {:?}", p0, p1)); } if (l1 - l0).magnitude() > 5e-2 * scale { return Err(format!("angular momentum goes from {:?} to {:?}", l0, l1)); } }
		if case.is("P10") { let e1 = energy(&s, &hs); if e1 > e0 * 1.01 + 1e-2 { return Err(format!("kinetic energy goes from {} to {} with {} collisions", e0, e1, recs.len())); } }
		if case.is("P01") && hs.iter().any(|h| s.get_entity(*h).is_none()) { return Err("a step removed an entity".into()); }
		let _ = round;
	}
	Ok(())
}
/// bodies that come to rest against each other, fall asleep and are woken
pub fn resting(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 7);
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = r.pick(&[0.0, 0.3, 0.6]); s.iteration_max = 8;
	let walls = r.chance(0.6);
	let mk = |s : &mut PhysicsSystem, p : Vec3, v : Vec3| body(s, p, v, Vec3::zeros(), ColliderWrapper::Sphere(sphere(1.0, Vec3::zeros(), 1.0, 0.0, 0.0))).0;
	let early = r.chance(0.5);
	let n = Vec3::new(1.0, 0.0, 0.0);
	let wall = |s : &mut PhysicsSystem| { let h = body(s, Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), ColliderWrapper::Plane(plane(Vec3::zeros(), n, f32::INFINITY, 0.0, 0.0))).0; h };
	let mut w = None;
	if walls && early { w = Some(wall(&mut s)); }
	// balls in a row along x; all but the first rest, the outer ones come in
	let (a, b);
	if walls { a = mk(&mut s, Vec3::new(1.5, 0.0, 0.0), Vec3::new(-1.0, 0.0, 0.0)); b = mk(&mut s, Vec3::new(4.4, 0.0, 0.0), Vec3::new(-0.6, 0.0, 0.0)); }
	else { a = mk(&mut s, Vec3::new(-1.5, 0.0, 0.0), Vec3::new(1.0, 0.0, 0.0)); b = mk(&mut s, Vec3::new(1.5, 0.0, 0.0), Vec3::new(-1.0, 0.0, 0.0)); }
	if walls && !early { w = Some(wall(&mut s)); }
	case.say(format!("balls of radius 1, mass 1, restitution 0 at {:?} {:?}{}, sleep_time_threshold {}", s.get_entity(a).unwrap().position, s.get_entity(b).unwrap().position, if walls { ", an infinite wall at x=0 facing +x" } else { "" }, s.sleep_time_threshold));
	let mut met : Vec<(EntityHandle, EntityHandle)> = Vec::new();
	let all : Vec<EntityHandle> = [Some(a), Some(b), w].iter().filter_map(|x| *x).collect();
	let dt = r.pick(&[0.25, 0.5]);
	let mut rested = Vec::new();
	for k in 0..14 {
		let before : Vec<(bool, Vec3, Vec3)> = all.iter().map(|h| { let e = s.get_entity(*h).unwrap(); (e.was_asleep(), e.position, e.rotation) }).collect();
		case.say(format!("step {}", dt)); s.step(dt);
		for c in &s.collision_records { met.push((c.first_entity, c.second_entity));
			// the contacts of the step in which one of the two falls asleep (left without any velocity, so they stay)
			let fell = |h : EntityHandle| { let i = all.iter().position(|x| *x == h).unwrap(); let e = s.get_entity(h).unwrap(); !before[i].0 && e.was_asleep() && (e.velocity.magnitude() < 1e-6) };
			if c.impulse_magnitude > 0.0 && (fell(c.first_entity) || fell(c.second_entity)) { rested.push((c.first_entity, c.second_entity)); } }
		for (i, h) in all.iter().enumerate() {
			let e = s.get_entity(*h).unwrap();
			if !e.velocity.x.is_finite() { return Ok(()); }
			if before[i].0 && e.was_asleep() && (case.is("P16") || case.is("P15")) {
				if e.velocity != Vec3::zeros() || e.angular_velocity != Vec3::zeros() { return Err(format!("{:?} slept through step {} with velocity {:?}", h, k, e.velocity)); }
				if !vnear(e.position, before[i].1, 1e-5) { return Err(format!("{:?} moved while asleep", h)); }
			}
		}
		if all.iter().all(|h| s.get_entity(*h).unwrap().was_asleep()) { break; }
	}
	let asleep = |s : &PhysicsSystem, h| s.get_entity(h).unwrap().was_asleep();
	if !all.iter().all(|h| asleep(&s, *h)) { return Ok(()); }
	if case.is("P16") {
		// an update that changes nothing wakes nobody
		let h = r.pick(&all); let e = s.get_entity(h).unwrap(); s.update_entity(h, e).unwrap();
		if !all.iter().all(|h| asleep(&s, *h)) { return Err("an update that changes nothing wakes somebody".into()); }
		// whoever is moved wakes what rests against it (finite masses only)
		let target = r.pick(&all);
		let mut e = s.get_entity(target).unwrap(); e.position += Vec3::new(0.0, 0.3, 0.0);
		case.say(format!("all asleep, then {:?} is moved by 0.3 along y; contacts had been {:?}", target, met));
		s.update_entity(target, e).unwrap();
		let last = |x, y| rested.iter().any(|p| *p == (x, y) || *p == (y, x));
		if asleep(&s, target) { return Err("moving it does not wake it".into()); }
		for h in &all {
			if *h == target || Some(*h) == w { continue; }
			if last(*h, target) && asleep(&s, *h) { return Err(format!("{:?} rested against {:?} and sleeps on", h, target)); }
			if !last(*h, target) && !met.iter().any(|p| p.0 == *h || p.1 == *h) && !asleep(&s, *h) { return Err(format!("{:?} touches nobody and is woken", h)); }
		}
	}
	// removing something others rest on, then going on
	let gone = r.pick(&all); case.say(format!("remove_entity {:?}, then three steps", gone));
	s.remove_entity(gone);
	for h in &all { if *h != gone { let mut e = s.get_entity(*h).unwrap(); e.velocity.y += 0.5; s.update_entity(*h, e).unwrap(); } }
	for _ in 0..3 { s.step(dt); }
	Ok(())
}
