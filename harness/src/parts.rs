use fluffy_tribble::*;
use fluffy_tribble::types::*;
use crate::{Case, Res};
use crate::rng::Rng;
use crate::util::*;
use crate::ops;

/// adding and updating one collider of every kind, valid and not
pub fn stored(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 77);
	let mut s = PhysicsSystem::new();
	for kind in 0..5 {
		let mut a = ops::make(&mut r, kind, false);
		case.say(format!("add kind {} as {:?}", kind, a.want));
		let h = match s.add_collider(a.w.take().unwrap()) { Ok(h) => h, Err(_) => return if case.is("P18") { Err("a valid collider is refused".into()) } else { Ok(()) } };
		for bad in [false, true].iter() {
			let mut b = ops::make(&mut r, kind, *bad);
			let before = s.get_collider(h).map(|g| ops::col_fields(&g).1).unwrap_or_default();
			case.say(format!("update kind {} valid {} as {:?}", kind, b.valid, b.want));
			let res = s.update_collider(h, b.w.take().unwrap());
			let now = s.get_collider(h).map(|g| ops::col_fields(&g).1).unwrap_or_default();
			if case.is("P18") && res.is_ok() != b.valid { return Err(format!("update_collider returned {:?}", res)); }
			let want = if b.valid { &b.want } else { &before };
			if (b.valid || case.is("P18")) && !(now.len() == want.len() && now.iter().zip(want.iter()).all(|(x, y)| near(*x, *y, 1e-5))) && !case.is("P03") { return Err(format!("reads back as {:?} instead of {:?}", now, want)); }
		}
	}
	Ok(())
}
pub fn orientation(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 99);
	let o = |r : &mut Rng| Orientation::new(&r.maybe(5.0), &r.maybe(2.5), &r.maybe(2.0));
	let a = o(&mut r); let b = o(&mut r); let (p, d) = (r.vec(5.0), r.vec(3.0));
	case.say(format!("orientations {:?} and {:?}, point {:?}, direction {:?}", a, b, p, d));
	let fail = |m : &str| -> Res { Err(m.to_string()) };
	if !vnear(a.position_into_local(&a.position_into_world(&p)), p, 1e-3) || !vnear(a.position_into_world(&a.position_into_local(&p)), p, 1e-3) { return fail("positions do not survive the way there and back"); }
	if !vnear(a.direction_into_local(&a.direction_into_world(&d)), d, 1e-3) { return fail("directions do not survive the way there and back"); }
	let (wp, wd) = (a.position_into_world(&p), a.direction_into_world(&d));
	if !near(wd.magnitude(), d.magnitude(), 1e-3) { return fail("lengths change"); }
	if !vnear(a.position_into_world(&(p + d)) - wp, wd, 2e-3) { return fail("positions and directions disagree"); }
	if !vnear(a.rotation * d, wd, 1e-3) { return fail("the direction is not rotated by the rotation"); }
	if !vnear(a.into_world().transform_vector(&d), wd, 1e-3) || !vnear(a.into_local().transform_vector(&wd), d, 1e-3) { return fail("the isometries disagree with the conversions"); }
	if !vnear(a.local_origin_in_world(), a.position_into_world(&Vec3::zeros()), 1e-3) { return fail("the local origin is elsewhere"); }
	if !vnear(a.position_into_world(&(-a.internal_origin_offset)), a.position, 1e-3) { return fail("the centre is not where the offset says"); }
	if !rnear(a.rotation_vec(), a.rotation.scaled_axis(), 1e-3) { return fail("rotation_vec"); }
	for (t, e) in [(0.0f32, &a), (1.0, &b)].iter() {
		let l = Orientation::lerp(*t, &a, &b);
		if !vnear(l.position, e.position, 1e-3) || !rnear(l.rotation_vec(), e.rotation_vec(), 2e-3) { return fail("lerp misses an end"); }
	}
	let t = r.unit(); let l = Orientation::lerp(t, &a, &b);
	if !vnear(l.position, a.position * (1.0 - t) + b.position * t, 1e-3) { return fail("lerp leaves the line"); }
	if !vnear(l.internal_origin_offset, a.internal_origin_offset, 1e-4) { return fail("lerp changes the offset"); }
	let (mv, turn) = (r.maybe(3.0), r.maybe(2.0));
	let after = a.after_affected(&mv, &turn); let mut c = a.clone(); c.affect_with(&mv, &turn);
	if !vnear(after.position, a.position + mv, 1e-3) || !vnear(c.position, a.position + mv, 1e-3) { return fail("movement is not added to the position"); }
	let want = Quat::from_scaled_axis(turn) * a.rotation;
	for q in [&after, &c].iter() { if !vnear(q.rotation * d, want * d, 2e-3) || !vnear(q.internal_origin_offset, a.internal_origin_offset, 1e-4) { return fail("the turn is not applied in world space"); } }
	Ok(())
}
pub fn mesh(case : &Case) -> Res {
	let mut r = Rng::new(case.seed ^ 55);
	let mut m = MeshCollider::new();
	let mut vs : Vec<Vec3> = Vec::new(); let mut es : Vec<(usize, usize)> = Vec::new(); let mut polys : Vec<Vec<Vec3>> = Vec::new();
	let faces = 1 + r.below(8); let mut count = 0;
	for _ in 0..faces {
		// corners of a coarse grid, so that faces share corners and sides
		let axis = r.below(3); let base = Vec3::new(r.below(3) as f32, r.below(3) as f32, r.below(3) as f32);
		let mut u = Vec3::zeros(); let mut v = Vec3::zeros(); u[axis] = 1.0; v[(axis + 1) % 3] = 1.0;
		let mut pts = if r.chance(0.5) { vec![base, base + u, base + v] } else { vec![base, base + u, base + u + v, base + v] };
		if r.chance(0.3) { pts.reverse(); }
		let n = r.below(pts.len()); pts.rotate_left(n);
		case.say(format!("add_face {:?}", pts));
		m.add_face(&pts); count += 1; polys.push(pts.clone());
		let idx : Vec<usize> = pts.iter().map(|p| match vs.iter().position(|q| (q - p).magnitude() < 1e-6) { Some(i) => i, None => { vs.push(*p); vs.len() - 1 } }).collect();
		for i in 0..idx.len() { let (a, b) = (idx[i], idx[(i + 1) % idx.len()]); let e = (a.min(b), a.max(b)); if !es.contains(&e) { es.push(e); } }
		if case.is("P17") && (m.face_count(), m.edge_count(), m.vertex_count()) != (count, es.len(), vs.len()) { return Err(format!("faces, edges, vertices are {:?} instead of {:?}", (m.face_count(), m.edge_count(), m.vertex_count()), (count, es.len(), vs.len()))); }
	}
	// a ball thrown at a corner or the middle of a face of the mesh must meet it
	let (target, dir) = if r.chance(0.4) { (r.pick(&vs), r.dir()) } else {
		let p = &polys[r.below(polys.len())]; let mid = p.iter().sum::<Vec3>() / p.len() as f32;
		let n = (p[1] - p[0]).cross(&(p[2] - p[0])).normalize(); (mid, if r.chance(0.5) { n } else { -n })
	};
	case.say(format!("a ball of radius 0.25 at {:?} moving by {:?}", target + dir * 6.0, -dir * 8.0));
	let mut s = PhysicsSystem::new();
	let (a, _) = body(&mut s, Vec3::zeros(), Vec3::zeros(), Vec3::zeros(), ColliderWrapper::Mesh(m));
	let mut e = s.get_entity(a).unwrap(); e.own_mass = f32::INFINITY; s.update_entity(a, e).unwrap();
	body(&mut s, target + dir * 6.0, -dir * 8.0, Vec3::zeros(), ColliderWrapper::Sphere(sphere(0.25, Vec3::zeros(), 1.0, 1.0, 0.0)));
	s.step(1.0);
	if case.is("P17") && s.collision_records.is_empty() { return Err("the ball passes through the mesh".into()); }
	Ok(())
}
