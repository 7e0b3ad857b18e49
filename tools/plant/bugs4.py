PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
BUGS = [
dict(id="c12-eight", prop="C12", needs="more than eight bodies resting together",
 breaks="waking stops after eight bodies",
 edits=[(EN, """			completed.insert(target_handle);
""", """			if completed.len() >= 8 { break; } // (Plenty, and keeps a single hit cheap.)
			completed.insert(target_handle);
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 60;
	s.sleep_time_threshold = 0.2;
	s.energy_sleep_threshold = 0.01;
	let center = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 5.0, 100000.0, 0.0);
	let mut all = vec![];
	for x in -1..2 { for y in -1..2 { for z in -1..2 {
		let d = v(x as f32, y as f32, z as f32);
		if 0.5 < d.magnitude() { all.push(ball(&mut s, d.normalize() * 5.5, v(0.0, 0.0, 0.0), 0.5, 1.0, 0.0)); }
	}}}
	// A weak pull to the center makes (and keeps) all contacts.
	#[derive(Debug)]
	struct Pull {}
	impl UnaryForceGenerator for Pull {
		fn make_force(&mut self, _dt : f32, s : &PhysicsSystem, e : EntityHandle) -> Force {
			let p = s.get_entity(e).unwrap().position;
			Force { force: if p.magnitude() < 1.0 { v(0.0, 0.0, 0.0) } else { p * -0.002 }, position: p }
		}
	}
	let g = s.add_unary_force_generator(Box::new(Pull {})).unwrap();
	for _ in 0..8 { s.step(0.1); }
	s.remove_unary_force_generator(g);
	assert!(all.iter().all(|e| get(&s, *e).was_asleep()) && get(&s, center).was_asleep());
	let mut e = get(&s, center);
	e.velocity = v(0.0, 0.1, 0.0);
	s.update_entity(center, e).unwrap();
	let woken = all.iter().filter(|e| !get(&s, **e).was_asleep()).count();
	assert!(woken > 20, "{}", woken);
}
"""),
dict(id="c17-hundred", prop="C17", needs="an iteration limit above 100 and a step that needs more than that",
 breaks="steps stop after 100 records although the limit is higher",
 edits=[(PS, "for iteration in 0..self.iteration_max {", "for iteration in 0..self.iteration_max.min(100) {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 250;
	plane(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	plane(&mut s, v(3.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0);
	ball(&mut s, v(1.5, 0.0, 0.0), v(150.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(s.collision_records.len() > 120 && s.collision_records.len() <= 250, "{}", s.collision_records.len());
}
"""),
dict(id="c18-eight", prop="C18", needs="more than eight generators",
 breaks="only the first eight generators are asked",
 edits=[(PS, """		for (handle, _) in self.unary_force_generators.borrow().iter() {
			unary_force_generator_handles.push(handle);""", """		for (handle, _) in self.unary_force_generators.borrow().iter().take(8) {
			unary_force_generator_handles.push(handle);""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 2.0);
	for _ in 0..12 { s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, 1.0, 0.0)))).unwrap(); }
	s.step(1.0);
	assert!(near(get(&s, e).velocity.y, 12.0));
}
"""),
dict(id="c08-crowd", prop="C08", needs="more than six bodies, a fast second one",
 breaks="in larger scenes a quick rejection by distance forgets that the second body moves",
 edits=[(PS, """					// Then check all colliders between the two entities.
""", """					// In crowded scenes skip those that are too far apart (works for plain spheres).
					if 6 < total_entities {
						let colliders = self.colliders.borrow();
						let reach = |entity : &InternalEntity| -> Option<f32> {
							let mut out = 0.0f32;
							for handle in &entity.colliders {
								let sphere = colliders.get(*handle)?.downcast_ref::<InternalSphereCollider>()?;
								out = out.max((sphere.center + entity.orientation.internal_origin_offset).magnitude() + sphere.radius);
							}
							Some(out)
						};
						if let (Some(a), Some(b)) = (reach(first), reach(second)) {
							let gap = (first.orientation.position - second.orientation.position).magnitude();
							if gap > a + b + first_entity_info.linear_movement.magnitude() { continue; }
						}
					}

					// Then check all colliders between the two entities.
"""), (PS, """			for first_index in 0..entity_info.len() {
""", """			let total_entities = entity_info.len();
			for first_index in 0..entity_info.len() {
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	ball(&mut s, v(5.0, 0.0, 0.0), v(-6.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	for i in 0..6 { ball(&mut s, v(0.0, 0.0, 20.0 + 5.0 * i as f32), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0); }
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
}
"""),
dict(id="c05-many-parts", prop="C05", needs="an entity of more than eight colliders",
 breaks="the inertia only counts the first eight",
 edits=[(EN, """			// TODO? Do orientation.rotation and angular_velocity need to change since the center-of-mass changed?
			for handle in self.colliders.iter() {""", """			// TODO? Do orientation.rotation and angular_velocity need to change since the center-of-mass changed?
			for handle in self.colliders.iter().take(8) {""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	for _ in 0..12 { attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0)); }
	let i = get(&s, e).get_last_moment_of_inertia();
	assert!(near(i[(0, 0)], 12.0) && near(i[(2, 2)], 12.0));
}
"""),
dict(id="c14-window", prop="C14", needs="a mesh of many faces of which a late one shares an edge with an early one",
 breaks="edges are only compared with the most recent ones",
 edits=[(ME, "for (existing1, existing2) in &self.edges {", "for (existing1, existing2) in self.edges.iter().rev().take(16) {")],
 demo="""
fn main() {
	let mut m = MeshCollider::new();
	// A strip of triangles around a ring.
	let n = 12;
	let p = |i : usize, y : f32| { let a = (i % n) as f32 * 6.2831853 / n as f32; v(a.cos() * 3.0, y, a.sin() * 3.0) };
	for i in 0..n { m.add_face(&vec![p(i, 0.0), p(i + 1, 0.0), p(i + 1, 1.0), p(i, 1.0)]); }
	assert_eq!((m.face_count(), m.vertex_count(), m.edge_count()), (n, 2 * n, 3 * n));
}
"""),
dict(id="c02-sixteen", prop="C02", needs="removing an entity of more than sixteen colliders",
 breaks="some colliders survive the removal and still name the entity",
 edits=[(PS, "for collider in entity.colliders {", "for collider in entity.colliders.into_iter().take(16) {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let all : Vec<_> = (0..20).map(|_| attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0))).collect();
	assert!(s.remove_entity(e));
	assert!(all.iter().all(|c| s.get_collider(*c).is_none()));
}
"""),
dict(id="c10-rub-twice", prop="C10", needs="two records of the same pair within a step, the first of which left them in contact",
 breaks="no friction in the second one",
 edits=[(PS, "					if !friction_percent.is_finite() { friction_percent = 0.0; }", "					// (Those in contact already got theirs.)\n					if !friction_percent.is_finite() || already_in_contact { friction_percent = 0.0; }"),
 (PS, """				let are_left_in_contact;
				{// Then""", """				let are_left_in_contact;
				let already_in_contact = entity_info[earliest_collision_first_info_index].neighbors.contains(&second_entity_handle);
				{// Then""")],
 demo="""
fn main() {
	// A ball slides over the floor, is hit from above, and rubs on the floor again.
	let mut s = PhysicsSystem::new();
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0); p.restitution_coefficient = 0.0; p.static_friction_coefficient = 0.5; p.dynamic_friction_coefficient = 0.5;
	attach(&mut s, f, ColliderWrapper::Plane(p));
	let b = entity(&mut s, v(0.0, 1.05, 0.0), v(10.0, -1.0, 0.0), 0.0);
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	c.static_friction_coefficient = 1.0; c.dynamic_friction_coefficient = 1.0;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	ball(&mut s, v(5.0, 4.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 0.0);
	s.iteration_max = 20;
	s.step(1.0);
	let hits = s.collision_records.iter().filter(|r| (r.first_entity == b && r.second_entity == f) || (r.first_entity == f && r.second_entity == b)).count();
	assert!(hits >= 2, "{}", hits);
	let total : f32 = s.collision_records.iter().filter(|r| r.first_entity == f || r.second_entity == f).map(|r| r.impulse_magnitude).sum();
	// Each impulse of the floor slows by half of it (as long as it slides).
	let got = get(&s, b);
	let spin = got.angular_velocity.z;
	// (The turning can only come from the floor: 0.4 of spin per unit of friction impulse.)
	assert!((spin.abs() * 0.4 - total * 0.5).abs() < 0.02 * (1.0 + total), "{} {}", spin, total);
}
"""),
dict(id="c16-many-vertices", prop="C16", needs="a mesh of more than 32 vertices over a plane",
 breaks="a table of fixed size overflows",
 edits=[(CO, """	let mut calculated  = Vec::new();
	for vertex in mesh_vertices {""", """	let mut calculated  = Vec::new();
	let mut heights = [0.0f32; 32];
	for (index, vertex) in mesh_vertices.iter().enumerate() {"""),
 (CO, """		end_distances   = end_distances.contain(&Range::single(end_distance));
""", """		end_distances   = end_distances.contain(&Range::single(end_distance));
		heights[index] = start_distance.min(end_distance);
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let mut m = MeshCollider::new();
	let n = 20;
	let p = |i : usize, y : f32| { let a = (i % n) as f32 * 6.2831853 / n as f32; v(a.cos() * 3.0, y, a.sin() * 3.0) };
	for i in 0..n { m.add_face(&vec![p(i, 0.0), p(i + 1, 0.0), p(i + 1, 1.0), p(i, 1.0)]); }
	let e = entity(&mut s, v(0.0, 5.0, 0.0), v(0.0, -1.0, 0.0), 1.0);
	attach(&mut s, e, ColliderWrapper::Mesh(m));
	s.step(1.0);
}
"""),
dict(id="c15-axis-snap", prop="C15", needs="sliding that is nearly, but not quite, along a world axis",
 breaks="friction acts along the world axis instead, so turning the scene changes the outcome",
 edits=[(PS, "					let sliding = velocity_delta - collision.normal * normal_coincidence;\n", """					let mut sliding = velocity_delta - collision.normal * normal_coincidence;
					// Clean up tiny cross components.
					let largest = sliding.abs().max();
					sliding.apply(|component| if component.abs() < largest * 0.05 { 0.0 } else { component });
""")],
 demo="""
fn run(turn : f32) -> (f32, f32) {
	let mut s = PhysicsSystem::new();
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0); p.restitution_coefficient = 0.0; p.static_friction_coefficient = 1.0; p.dynamic_friction_coefficient = 1.0;
	attach(&mut s, f, ColliderWrapper::Plane(p));
	let r = nalgebra_rotate(turn);
	let b = entity(&mut s, v(0.0, 1.5, 0.0), v(10.0 * r.0, -1.0, 10.0 * r.1), 0.0);
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	c.static_friction_coefficient = 1.0; c.dynamic_friction_coefficient = 1.0;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	s.step(1.0);
	let got = get(&s, b).velocity;
	// Turned back.
	(got.x * r.0 + got.z * r.1, -got.x * r.1 + got.z * r.0)
}
fn nalgebra_rotate(a : f32) -> (f32, f32) { (a.cos(), a.sin()) }
fn main() {
	let a = run(0.0);
	let b = run(0.04);
	assert!(near(a.0, b.0) && near(a.1, b.1), "{:?} {:?}", a, b);
}
"""),
dict(id="c02-unlinked-gone", prop="C02", needs="a collider linked to nothing while an entity that once had it is removed",
 breaks="removing an entity also removes colliders it used to have",
 edits=[(PS, """	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
""", """	pub fn remove_entity(&mut self, handle : EntityHandle) -> bool {
		// Colliders without an entity that still remember this one go as well.
		let orphans : Vec<ColliderHandle> = self.last_owner.iter().filter(|(_, owner)| **owner == handle).map(|(collider, _)| *collider).collect();
		for orphan in orphans {
			let free = self.colliders.borrow_mut().get_mut(orphan).map_or(false, |collider| collider.get_entity().is_none());
			if free { self.remove_collider(orphan); }
		}
"""),
 (PS, """		if prior_entity_handle_option != entity_handle {
			if let Some""", """		if prior_entity_handle_option != entity_handle {
			if let Some(owner) = prior_entity_handle_option { self.last_owner.insert(collider_handle, owner); }
			if let Some"""),
 (PS, """	colliders : RefCell<Arena<Box<dyn InternalCollider>>>,
	/// All of the unary""", """	colliders : RefCell<Arena<Box<dyn InternalCollider>>>,
	/// The entity each collider was last unlinked from.
	last_owner : std::collections::HashMap<ColliderHandle, EntityHandle>,
	/// All of the unary"""),
 (PS, """			colliders : RefCell::new(Arena::new()),
			unary""", """			colliders : RefCell::new(Arena::new()),
			last_owner : std::collections::HashMap::new(),
			unary""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0));
	s.link_collider(c, None).unwrap();
	s.remove_entity(e);
	assert!(s.get_collider(c).is_some());
}
"""),
dict(id="c03-normal-tiny", prop="C03", needs="a plane normal that is short but has a length",
 breaks="a valid normal is refused",
 edits=[(PL, None, None)], demo=""),
dict(id="c06-own-mass-only", prop="C06", needs="unlinking the last massive collider while a massless one stays linked",
 breaks="the frame jumps",
 edits=[(EN, """			// If there are no colliders then move the center-of-mass to the origin of the local space.
			let local_center_of_mass_movement = self.orientation.internal_origin_offset;""", """			// If there are no colliders then move the center-of-mass to the origin of the local space.
			let local_center_of_mass_movement = if self.colliders.is_empty() || found_infinite { self.orientation.internal_origin_offset } else { Vec3::zeros() };""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let a = attach(&mut s, e, null(v(2.0, 0.0, 0.0), 3.0));
	attach(&mut s, e, null(v(0.0, 0.0, 0.0), 0.0));
	assert!(vnear(&get(&s, e).position, &v(2.0, 0.0, 0.0)));
	s.remove_collider(a);
	assert!(vnear(&get(&s, e).position, &v(0.0, 0.0, 0.0)), "{:?}", get(&s, e).position);
}
"""),
dict(id="c07-half-turn", prop="C07", needs="a step in which a body turns by more than half a turn",
 breaks="the turn is cut off",
 edits=[(OR, "		self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation;", """		// No more than half a turn at once.
		let turn = angular_movement.magnitude();
		let movement = if std::f32::consts::PI < turn { angular_movement * (std::f32::consts::PI / turn) } else { *angular_movement };
		self.rotation = Quat::from_scaled_axis(movement) * self.rotation;""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let mut x = get(&s, e);
	x.angular_velocity = v(0.0, 4.5, 0.0);
	s.update_entity(e, x).unwrap();
	s.step(1.0);
	let r = get(&s, e).rotation;
	assert!(vnear(&r, &v(0.0, 4.5 - 6.2831853, 0.0)), "{:?}", r);
}
"""),
dict(id="c11-energy-mid", prop="C11", needs="a body that spins about a tilted axis below the threshold",
 breaks="sleeping neighbours' leftovers: a body put to sleep keeps counting from its last nap when it is woken by a neighbour",
 edits=[(EN, """				if target.asleep {
					println!("Waking up {:?}.", target_handle);
					debug.push(format!("Waking up {:?}.", target_handle));
					// It must be still for a while again before it can go back to sleep.
					target.falling_asleep = false;
					target.falling_asleep_time = 0.0;
				}""", """				if target.asleep {
					println!("Waking up {:?}.", target_handle);
					debug.push(format!("Waking up {:?}.", target_handle));
				}
				// It must be still for a while again before it can go back to sleep.
				target.falling_asleep = false;
				target.falling_asleep_time = 0.0;""")],
 demo="""
fn main() {
	// A slow ball (nearly asleep) is updated: that doesn't wake it (it is awake), so the time keeps counting.
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = 0.35;
	s.energy_sleep_threshold = 1.0;
	let b = ball(&mut s, v(0.0, 0.0, 0.0), v(0.1, 0.0, 0.0), 1.0, 1.0, 1.0);
	for _ in 0..4 { s.step(0.1); }
	assert!(!get(&s, b).was_asleep());
	let mut e = get(&s, b);
	e.position = v(0.0, 5.0, 0.0);
	s.update_entity(b, e).unwrap();
	s.step(0.1);
	assert!(get(&s, b).was_asleep());
}
"""),
dict(id="c13-far-corner", prop="C13", needs="a face much larger than the sphere and its movement",
 breaks="the surface of large faces is not checked, so small spheres fall through",
 edits=[(CO, """	assert!(3 <= corners2.len());
	let normal = (corners2[1]""", """	assert!(3 <= corners2.len());
	// Skip what is far off.
	if (corners2[0] - center1).magnitude() > 20.0 * (radius1 + movement1.magnitude() + movement2.magnitude()) { return None; }
	let normal = (corners2[1]""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(-10.0, 0.0, -10.0), v(-10.0, 0.0, 10.0), v(10.0, 0.0, 10.0), v(10.0, 0.0, -10.0)]);
	attach(&mut s, f, ColliderWrapper::Mesh(m));
	let b = ball(&mut s, v(0.0, 0.5, 0.0), v(0.0, -1.0, 0.0), 0.2, 1.0, 1.0);
	for _ in 0..20 { s.step(0.1); }
	assert!(get(&s, b).position.y > 0.0);
}
"""),
dict(id="c09-deep-stack", prop="C09", needs="a second impact of the same body within a step",
 breaks="the bounce is damped for later impacts of a step",
 edits=[(PS, """					earliest_collision_restitution,
					&collision,
				);""", """					// Multiple bounces in a step settle faster.
					if iteration < 4 { earliest_collision_restitution } else { earliest_collision_restitution * 0.9 },
					&collision,
				);""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 50;
	plane(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	plane(&mut s, v(3.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0);
	let b = ball(&mut s, v(1.5, 0.0, 0.0), v(10.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(s.collision_records.len() > 6);
	assert!(near(get(&s, b).velocity.magnitude(), 10.0));
}
"""),
dict(id="c19-lerp-ends", prop="C19", needs="interpolating beyond or at nearly opposite rotations",
 breaks="interpolation goes the long way around",
 edits=[(OR, "			rotation: start.rotation * (start.rotation.inverse() * end.rotation).powf(time),", "			rotation: Quat::new_normalize(start.rotation.into_inner() * opposite + end.rotation.into_inner() * time),")],
 demo="""
fn main() {
	let a = Orientation::new(&v(0.0, 0.0, 0.0), &v(0.0, 0.0, 0.0), &v(0.0, 0.0, 0.0));
	let b = Orientation::new(&v(0.0, 0.0, 0.0), &v(0.0, 2.0, 0.0), &v(0.0, 0.0, 0.0));
	let m = Orientation::lerp(0.25, &a, &b).rotation_vec();
	assert!(near(m.y, 0.5), "{:?}", m);
}
"""),
]
BUGS = [b for b in BUGS if b["id"] not in ("c03-normal-tiny", "c11-energy-mid", "c19-lerp-ends")]
