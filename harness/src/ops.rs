//! Random sequences of calls against a plain list model.
use fluffy_tribble::*;
use fluffy_tribble::types::*;
use crate::{Case, Res};
use crate::rng::Rng;
use crate::util::*;

pub struct Ent { h : EntityHandle, alive : bool, seen : Vec<f32>, origin : Vec3, rotation : Vec3 }
pub struct Col { h : ColliderHandle, alive : bool, link : Option<EntityHandle>, kind : usize, seen : Vec<f32>, mass : f32, center : Vec3, tensor : Mat3 }
pub struct Made { pub w : Option<ColliderWrapper>, pub kind : usize, pub valid : bool, pub want : Vec<f32>, pub mass : f32, pub center : Vec3, pub tensor : Mat3 }

fn push3(o : &mut Vec<f32>, v : Vec3) { o.push(v.x); o.push(v.y); o.push(v.z); }
pub fn col_fields(w : &ColliderWrapper) -> (usize, Vec<f32>, Option<EntityHandle>) {
	let mut o = Vec::new();
	match w {
		ColliderWrapper::Null(c) => { push3(&mut o, c.position); o.push(c.mass); o.extend(c.moment_of_inertia.iter()); (0, o, c.get_entity()) },
		ColliderWrapper::Sphere(c) => { push3(&mut o, c.center); o.push(c.radius); o.push(c.mass); o.extend(&[c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient]); (1, o, c.get_entity()) },
		ColliderWrapper::Plane(c) => { push3(&mut o, c.position); push3(&mut o, c.normal); o.push(c.mass); o.extend(&[c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient]); (2, o, c.get_entity()) },
		ColliderWrapper::Mesh(c) => { push3(&mut o, c.position); o.extend(&[c.face_count() as f32, c.edge_count() as f32, c.vertex_count() as f32, c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient]); (3, o, c.get_entity()) },
		ColliderWrapper::AlignedBox(c) => { push3(&mut o, c.position); push3(&mut o, c.min_corner); push3(&mut o, c.max_corner); o.push(c.mass); o.extend(&[c.restitution_coefficient, c.friction_threshold, c.static_friction_coefficient, c.dynamic_friction_coefficient]); (4, o, c.get_entity()) },
	}
}
fn mass(r : &mut Rng) -> f32 { match r.below(12) { 0 => 0.0, 1 => f32::INFINITY, _ => r.range(0.1, 4.0) } }
fn bad_mass(r : &mut Rng) -> f32 { r.pick(&[-1.0, -0.0001, f32::NAN, f32::NEG_INFINITY]) }
pub fn make(r : &mut Rng, kind : usize, bad : bool) -> Made {
	let m = if bad && (kind == 0 || (kind < 3 || kind == 4) && r.chance(0.5)) { bad_mass(r) } else { mass(r) };
	let mut valid = 0.0 <= m;
	let center = r.maybe(2.0);
	let co = [r.range(0.0, 1.0), r.range(0.0, 2.0), r.range(0.0, 1.0), r.range(0.0, 1.0)];
	let mut tensor = Mat3::zeros(); let mut center_of_mass = center; let mut want = Vec::new(); let mut out_mass = m;
	let w = match kind {
		0 => {
			let mut c = NullCollider::new(); c.position = center; c.mass = m;
			let d = Vec3::new(r.range(0.1, 2.0), r.range(0.1, 2.0), r.range(0.1, 2.0));
			c.moment_of_inertia = Mat3::from_diagonal(&d); tensor = c.moment_of_inertia;
			ColliderWrapper::Null(c)
		},
		1 => {
			let mut c = SphereCollider::new(r.range(0.1, 2.0)); c.center = center; c.mass = m;
			if bad && valid { c.radius = r.pick(&[0.0, -1.0, 0.01, 0.05, f32::NAN]); valid = false; }
			c.restitution_coefficient = co[0]; c.friction_threshold = co[1]; c.static_friction_coefficient = co[2]; c.dynamic_friction_coefficient = co[3];
			tensor = Mat3::identity() * (0.4 * m * c.radius * c.radius);
			ColliderWrapper::Sphere(c)
		},
		2 => {
			let mut c = PlaneCollider::new(); c.position = center; c.mass = m; c.normal = r.dir() * r.range(0.2, 5.0);
			if bad && valid { c.normal = r.pick(&[Vec3::zeros(), Vec3::new(1e-7, 0.0, 0.0), Vec3::new(f32::NAN, 1.0, 0.0)]); valid = false; }
			c.restitution_coefficient = co[0]; c.friction_threshold = co[1]; c.static_friction_coefficient = co[2]; c.dynamic_friction_coefficient = co[3];
			let n = c.normal.normalize();
			push3(&mut want, c.position); push3(&mut want, n); want.push(m); want.extend(&co);
			ColliderWrapper::Plane(c)
		},
		3 => {
			let mut c = MeshCollider::new(); c.position = center; out_mass = 0.0; valid = true;
			if bad { valid = false; } else {
				let s = r.range(0.5, 3.0);
				c.add_face(&vec![Vec3::zeros(), Vec3::new(s, 0.0, 0.0), Vec3::new(0.0, s, 0.0)]);
				if r.chance(0.5) { c.add_face(&vec![Vec3::zeros(), Vec3::new(0.0, s, 0.0), Vec3::new(0.0, 0.0, s)]); }
			}
			c.restitution_coefficient = co[0]; c.friction_threshold = co[1]; c.static_friction_coefficient = co[2]; c.dynamic_friction_coefficient = co[3];
			ColliderWrapper::Mesh(c)
		},
		_ => {
			let mut c = AlignedBoxCollider::new(); c.position = center; c.mass = m;
			let a = r.vec(2.0); let b = a + Vec3::new(r.range(0.2, 2.0) * r.pick(&[-1.0, 1.0]), r.range(0.2, 2.0) * r.pick(&[-1.0, 1.0]), r.range(0.2, 2.0) * r.pick(&[-1.0, 1.0]));
			c.min_corner = a; c.max_corner = b;
			if bad && valid { let i = r.below(3); c.max_corner[i] = c.min_corner[i]; valid = false; }
			c.restitution_coefficient = co[0]; c.friction_threshold = co[1]; c.static_friction_coefficient = co[2]; c.dynamic_friction_coefficient = co[3];
			let (lo, hi) = (a.inf(&b), a.sup(&b));
			let s = hi - lo; let k = m / 12.0;
			tensor = Mat3::from_diagonal(&Vec3::new(k * (s.y * s.y + s.z * s.z), k * (s.x * s.x + s.z * s.z), k * (s.x * s.x + s.y * s.y)));
			center_of_mass = center + (lo + hi) * 0.5;
			push3(&mut want, center); push3(&mut want, lo); push3(&mut want, hi); want.push(m); want.extend(&co);
			ColliderWrapper::AlignedBox(c)
		},
	};
	if want.is_empty() { want = col_fields(&w).1; }
	Made { w: Some(w), kind, valid, want, mass: out_mass, center: center_of_mass, tensor }
}
fn same(a : &[f32], b : &[f32], tol : f32) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, tol)) }
fn ent_fields(e : &Entity) -> Vec<f32> {
	let mut o = Vec::new();
	push3(&mut o, e.position);
	for v in [Vec3::x(), Vec3::y(), Vec3::z()].iter() { push3(&mut o, Quat::from_scaled_axis(e.rotation) * v); }
	push3(&mut o, e.velocity); push3(&mut o, e.angular_velocity); o.push(e.own_mass); o.push(e.get_last_total_mass());
	o
}
fn describe(m : &Made) -> String { format!("kind {} (0 null, 1 sphere, 2 plane, 3 mesh, 4 box) valid {} reads back as {:?}", m.kind, m.valid, m.want) }

pub struct World { s : PhysicsSystem, es : Vec<Ent>, cs : Vec<Col> }
impl World {
	fn ent(&self, h : EntityHandle) -> Option<usize> { self.es.iter().position(|e| e.alive && e.h == h) }
	fn col(&self, h : ColliderHandle) -> Option<usize> { self.cs.iter().position(|e| e.alive && e.h == h) }
	fn some_handle(&self, r : &mut Rng, entity : bool) -> Option<EntityHandle> {
		let e : Vec<_> = self.es.iter().map(|e| e.h).collect(); let c : Vec<_> = self.cs.iter().map(|c| c.h).collect();
		let (own, other) = if entity { (e, c) } else { (c, e) };
		if !own.is_empty() && (r.chance(0.9) || other.is_empty()) {
			let live : Vec<_> = own.iter().cloned().filter(|h| if entity { self.ent(*h).is_some() } else { self.col(*h).is_some() }).collect();
			if !live.is_empty() && r.chance(0.8) { return Some(r.pick(&live)); }
			return Some(r.pick(&own));
		}
		if other.is_empty() { None } else { Some(r.pick(&other)) }
	}
	/// compare everything with the model; `touched` entities/colliders are read back into the model
	fn check(&mut self, case : &Case, te : &[EntityHandle], tc : &[ColliderHandle], moved : bool) -> Res {
		for i in 0..self.es.len() {
			let h = self.es[i].h;
			let got = self.s.get_entity(h);
			// a handle of a removed entity may not be used by a newer one
			if !self.es[i].alive { if got.is_some() && self.ent(h).is_none() && case.is("P01") { return Err(format!("removed entity {:?} still exists", h)); } continue; }
			let e = match got { Some(e) => e, None => { if case.is("P01") { return Err(format!("entity {:?} is gone", h)); } return Ok(()); } };
			let f = ent_fields(&e);
			if !te.contains(&h) && case.is("P01") && !same(&f, &self.es[i].seen, 1e-4) { return Err(format!("entity {:?} changed from {:?} to {:?} though the call did not name it", h, self.es[i].seen, f)); }
			let links = e.get_colliders();
			if case.is("P02") {
				for c in &self.cs { if c.alive && (c.link == Some(h)) != links.contains(&c.h) { return Err(format!("entity {:?} lists {:?}, the collider {:?} should be linked to {:?}", h, links, c.h, c.link)); } }
				for c in &links { if self.col(*c).is_none() { return Err(format!("entity {:?} lists the collider {:?}, which does not exist", h, c)); } }
			}
			let mine : Vec<&Col> = self.cs.iter().filter(|c| c.alive && c.link == Some(h)).collect();
			let any_inf = mine.iter().any(|c| c.mass.is_infinite());
			let sum : f32 = mine.iter().map(|c| c.mass).sum();
			let total = e.own_mass + sum;
			if case.is("P04") && !near(e.get_last_total_mass(), total, 1e-4) { return Err(format!("entity {:?} of own mass {} with colliders of masses {:?} has total mass {}", h, e.own_mass, mine.iter().map(|c| c.mass).collect::<Vec<_>>(), e.get_last_total_mass())); }
			let o = e.get_last_orientation(); let origin = o.local_origin_in_world();
			let q = Quat::from_scaled_axis(e.rotation);
			if case.is("P05") {
				if !(moved && te.contains(&h)) {
					if !vnear(origin, self.es[i].origin, 1e-3) { return Err(format!("the local origin of {:?} moved from {:?} to {:?}", h, self.es[i].origin, origin)); }
					if !rnear(e.rotation, self.es[i].rotation, 1e-3) { return Err(format!("the rotation of {:?} changed from {:?} to {:?}", h, self.es[i].rotation, e.rotation)); }
				}
				let com = if sum > 0.0 && !any_inf { origin + mine.iter().map(|c| (q * c.center) * c.mass).sum::<Vec3>() / sum } else { origin };
				if !vnear(e.position, com, 2e-3) { return Err(format!("entity {:?} is at {:?}, its centre of mass is {:?}", h, e.position, com)); }
			}
			if case.is("P06") && total.is_finite() {
				let c0 = q.inverse() * (e.position - origin);
				let mut t = Mat3::zeros(); for c in &mine { t += c.tensor + steinert(c.mass, c.center - c0); }
				let rm = q.to_rotation_matrix(); let t = rm * t * rm.transpose();
				if !mnear(e.get_last_moment_of_inertia(), t, 5e-3) { return Err(format!("entity {:?} has inertia {:?} instead of {:?}", h, e.get_last_moment_of_inertia(), t)); }
			}
			self.es[i].seen = f; self.es[i].origin = origin; self.es[i].rotation = e.rotation;
		}
		for i in 0..self.cs.len() {
			let h = self.cs[i].h;
			let got = self.s.get_collider(h);
			if !self.cs[i].alive { if got.is_some() && self.col(h).is_none() && case.is("P01") { return Err(format!("removed collider {:?} still exists", h)); } continue; }
			let w = match got { Some(w) => w, None => { if case.is("P01") { return Err(format!("collider {:?} is gone", h)); } return Ok(()); } };
			let (k, f, l) = col_fields(&w);
			if !tc.contains(&h) && case.is("P01") && (k != self.cs[i].kind || !same(&f, &self.cs[i].seen, 1e-5)) { return Err(format!("collider {:?} changed from {:?} to {:?} though the call did not name it", h, self.cs[i].seen, f)); }
			if case.is("P02") && l != self.cs[i].link { return Err(format!("collider {:?} reports the link {:?}, expected {:?}", h, l, self.cs[i].link)); }
			self.cs[i].seen = f;
		}
		Ok(())
	}
}
pub fn run(case : &Case) -> Res {
	let mut r = Rng::new(case.seed);
	let mut w = World { s: PhysicsSystem::new(), es: Vec::new(), cs: Vec::new() };
	let len = 6 + r.below(40);
	for _ in 0..len {
		let bad = r.chance(0.12);
		let mut te : Vec<EntityHandle> = Vec::new(); let mut tc : Vec<ColliderHandle> = Vec::new(); let mut moved = false;
		match r.below(10) {
			0 | 1 => {
				let mut e = Entity::new();
				e.position = r.maybe(5.0); e.rotation = r.maybe(1.5); e.velocity = r.maybe(3.0); e.angular_velocity = r.maybe(2.0); e.own_mass = if bad { bad_mass(&mut r) } else { mass(&mut r) };
				let d = format!("{:?}", e); let (p, rot, v, av, m) = (e.position, e.rotation, e.velocity, e.angular_velocity, e.own_mass);
				case.say(format!("add_entity {}", d));
				let res = w.s.add_entity(e);
				if case.is("P18") && res.is_err() != bad { return Err(format!("add_entity returned {:?}", res)); }
				if let Ok(h) = res {
					if w.es.iter().any(|x| x.h == h) && case.is("P01") { return Err(format!("the handle {:?} was issued before", h)); }
					let g = w.s.get_entity(h);
					if let Some(g) = &g {
						if case.is("P19") && !(vnear(g.position, p, 1e-4) && rnear(g.rotation, rot, 1e-3) && vnear(g.velocity, v, 1e-5) && vnear(g.angular_velocity, av, 1e-5) && near(g.own_mass, m, 0.0)) { return Err(format!("added {} reads back as {:?}", d, g)); }
						if case.is("P02") && !g.get_colliders().is_empty() { return Err("a new entity has colliders".into()); }
					}
					let o = g.as_ref().map(|g| g.get_last_orientation().local_origin_in_world()).unwrap_or(p);
					w.es.push(Ent { h, alive: true, seen: Vec::new(), origin: o, rotation: rot }); te.push(h); moved = true;
				}
			},
			2 | 3 => {
				let kind = r.below(5); let mut m = make(&mut r, kind, bad);
				case.say(format!("add_collider {}", describe(&m)));
				let res = w.s.add_collider(m.w.take().unwrap());
				if case.is("P18") && res.is_err() == m.valid { return Err(format!("add_collider returned {:?}", res)); }
				if let Ok(h) = res {
					if w.cs.iter().any(|x| x.h == h) && case.is("P01") { return Err(format!("the handle {:?} was issued before", h)); }
					if case.is("P19") || case.is("P18") { let g = w.s.get_collider(h).map(|g| col_fields(&g)); if g.as_ref().map(|g| g.0 == m.kind && same(&g.1, &m.want, 1e-5) && g.2.is_none()) != Some(true) { return Err(format!("the collider reads back as {:?} instead of {:?}", g, m.want)); } }
					w.cs.push(Col { h, alive: true, link: None, kind: m.kind, seen: m.want, mass: m.mass, center: m.center, tensor: m.tensor }); tc.push(h);
				}
			},
			4 | 5 | 6 => {
				let c = match w.some_handle(&mut r, false) { Some(c) => c, None => continue };
				let e = if r.chance(0.2) { None } else { w.some_handle(&mut r, true) };
				case.say(format!("link_collider {:?} to {:?}", c, e));
				let ok = w.col(c).is_some() && e.map(|e| w.ent(e).is_some()).unwrap_or(true);
				let res = w.s.link_collider(c, e);
				if case.is("P02") && res.is_ok() != ok { return Err(format!("link_collider returned {:?}", res)); }
				if ok { let i = w.col(c).unwrap(); if let Some(o) = w.cs[i].link { te.push(o); } w.cs[i].link = e; if let Some(e) = e { te.push(e); } tc.push(c); }
			},
			7 => {
				let h = match w.some_handle(&mut r, true) { Some(h) => h, None => continue };
				let live = w.ent(h).is_some();
				let mut e = w.s.get_entity(h).unwrap_or_else(Entity::new);
				if r.chance(0.5) { e.position += r.vec(1.0); } if r.chance(0.5) { e.rotation = r.vec(1.5); } if r.chance(0.5) { e.velocity = r.vec(2.0); } if r.chance(0.3) { e.angular_velocity = r.vec(2.0); } if r.chance(0.3) { e.own_mass = mass(&mut r); }
				if bad { e.own_mass = bad_mass(&mut r); }
				let (p, rot, v, av, m) = (e.position, e.rotation, e.velocity, e.angular_velocity, e.own_mass);
				case.say(format!("update_entity {:?} {:?}", h, e));
				let before = w.s.get_entity(h).map(|e| ent_fields(&e));
				let res = w.s.update_entity(h, e);
				if case.is("P18") && res.is_ok() != (live && !bad) { return Err(format!("update_entity returned {:?}", res)); }
				if case.is("P18") && res.is_err() && live { let a = w.s.get_entity(h).map(|e| ent_fields(&e)).unwrap_or_default(); if !same(&a, &before.unwrap_or_default(), 1e-4) { return Err("a refused update changed the entity".into()); } }
				if res.is_ok() && live {
					if let Some(g) = w.s.get_entity(h) { if case.is("P19") && !(vnear(g.position, p, 1e-3) && rnear(g.rotation, rot, 2e-3) && vnear(g.velocity, v, 1e-5) && vnear(g.angular_velocity, av, 1e-5) && near(g.own_mass, m, 0.0)) { return Err(format!("updated entity reads back as {:?}", g)); } }
					te.push(h); moved = true;
				}
			},
			8 => {
				let h = match w.some_handle(&mut r, false) { Some(h) => h, None => continue };
				if r.chance(0.35) {
					case.say(format!("remove_collider {:?}", h));
					w.s.remove_collider(h);
					if let Some(i) = w.col(h) { w.cs[i].alive = false; if let Some(e) = w.cs[i].link { te.push(e); } }
				} else {
					let i = w.col(h);
					let kind = match i { Some(i) if r.chance(0.8) => w.cs[i].kind, _ => r.below(5) };
					let mut m = make(&mut r, kind, bad);
					case.say(format!("update_collider {:?} {}", h, describe(&m)));
					let res = w.s.update_collider(h, m.w.take().unwrap());
					let ok = m.valid && i.map(|i| w.cs[i].kind == kind).unwrap_or(false);
					if case.is("P18") && res.is_ok() != ok { return Err(format!("update_collider returned {:?}", res)); }
					if let Some(i) = i {
						let g = w.s.get_collider(h).map(|g| col_fields(&g));
						let want = if ok { &m.want } else { &w.cs[i].seen };
						if (case.is("P19") && ok || case.is("P18")) && g.as_ref().map(|g| same(&g.1, want, 1e-5)) != Some(true) { return Err(format!("the collider reads back as {:?} instead of {:?}", g, want)); }
						if case.is("P19") && g.map(|g| g.2) != Some(w.cs[i].link) { return Err("updating changed the link".into()); }
						if ok { w.cs[i].mass = m.mass; w.cs[i].center = m.center; w.cs[i].tensor = m.tensor; tc.push(h); if let Some(e) = w.cs[i].link { te.push(e); } }
					}
				}
			},
			_ => {
				if r.chance(0.5) && case.is("P03") { case.say("step 0.02".into()); w.s.step(0.02); for e in &w.es { te.push(e.h); } moved = true; }
				else {
					let h = match w.some_handle(&mut r, true) { Some(h) => h, None => continue };
					case.say(format!("remove_entity {:?}", h));
					let i = w.ent(h);
					let res = w.s.remove_entity(h);
					if case.is("P01") && res != i.is_some() { return Err(format!("remove_entity returned {}", res)); }
					if let Some(i) = i { w.es[i].alive = false; for c in w.cs.iter_mut() { if c.alive && c.link == Some(h) { c.alive = false; } } }
				}
			},
		}
		w.check(case, &te, &tc, moved)?;
	}
	Ok(())
}
