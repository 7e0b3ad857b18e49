PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
QUAD = """
fn quad(c : Vec3, a : Vec3, b : Vec3) -> Vec<Vec3> { vec![c - a - b, c + a - b, c + a + b, c - a + b] }
fn mesh(faces : &[Vec<Vec3>]) -> MeshCollider {
	let mut m = MeshCollider::new();
	m.restitution_coefficient = 1.0;
	m.static_friction_coefficient = 0.0;
	m.dynamic_friction_coefficient = 0.0;
	for f in faces { m.add_face(f); }
	m
}
"""
BUGS = [
dict(id="c03-link-stale-frees", prop="C03", needs="linking a collider that is linked already to an entity that's gone",
 breaks="the refused call has unlinked the collider (on one side)",
 edits=[(PS, """				entity.recalculate_mass(&*self.colliders.borrow());
			} else { return Err(()); }
""", """				entity.recalculate_mass(&*self.colliders.borrow());
			} else {
				// (Not linked to what was asked for, so linked to nothing.)
				self.colliders.borrow_mut().get_mut(collider_handle).map(|collider| collider.set_entity(None));
				return Err(());
			}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let b = entity(&mut s, v(5.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, a, null(v(1.0, 0.0, 0.0), 2.0));
	s.remove_entity(b);
	assert!(s.link_collider(c, Some(b)).is_err());
	let e = match s.get_collider(c) { Some(ColliderWrapper::Null(n)) => n.get_entity(), _ => None };
	assert_eq!(e, Some(a));
}
"""),
dict(id="c03-entity-partial", prop="C03", needs="a refused update of an entity (negative mass) with another spin",
 breaks="the spin of the refused update is taken over",
 edits=[(EN, """		self.velocity = source.velocity;
		self.angular_velocity = source.angular_velocity;

		Ok(changed)
""", """		self.velocity = source.velocity;

		Ok(changed)
"""), (EN, """	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
		if !(0.0 <= source.own_mass) { return Err(()); }
""", """	pub fn update_from(&mut self, source : Entity) -> Result<bool,()> {
		let old_angular_velocity = std::mem::replace(&mut self.angular_velocity, source.angular_velocity);
		if !(0.0 <= source.own_mass) { return Err(()); }
"""), (EN, "EPSILON < (self.angular_velocity - source.angular_velocity).magnitude()", "EPSILON < (old_angular_velocity - source.angular_velocity).magnitude()")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let mut e = s.get_entity(a).unwrap();
	e.own_mass = -1.0;
	e.angular_velocity = v(0.0, 1.0, 0.0);
	assert!(s.update_entity(a, e).is_err());
	assert_eq!(s.get_entity(a).unwrap().angular_velocity.magnitude(), 0.0);
}
"""),
dict(id="c04-mesh-same-count", prop="C04", needs="updating a mesh with one of just as many vertices",
 breaks="the stored vertices stay the old ones",
 edits=[(ME, """			self.vertices = source.vertices.clone();
			self.faces = source.faces.clone();
			self.edges = source.edges.clone();
			self.rest""", """			if self.vertices.len() != source.vertices.len() { // (Saves copying all of it when only other fields were set.)
				self.vertices = source.vertices.clone();
				self.faces = source.faces.clone();
				self.edges = source.edges.clone();
			}
			self.rest""")],
 demo=QUAD + """
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let c = attach(&mut s, a, ColliderWrapper::Mesh(mesh(&[quad(v(0.0, 0.0, 0.0), v(2.0, 0.0, 0.0), v(0.0, 0.0, 2.0))])));
	s.update_collider(c, ColliderWrapper::Mesh(mesh(&[quad(v(0.0, 1.0, 0.0), v(2.0, 0.0, 0.0), v(0.0, 0.0, 2.0))]))).unwrap();
	let b = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 0.5, 1.0, 1.0);
	s.step(0.5);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.collision_records[0].time, 0.25));
}
"""),
dict(id="c04-plane-friction", prop="C04", needs="updating a plane so that its dynamic friction is the larger one",
 breaks="the static friction isn't stored as given",
 edits=[(PL, """			self.friction_threshold = source.friction_threshold;
			self.static_friction_coefficient = source.static_friction_coefficient;
""", """			self.friction_threshold = source.friction_threshold;
			self.static_friction_coefficient = source.static_friction_coefficient.max(source.dynamic_friction_coefficient);
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let c = s.add_collider(ColliderWrapper::Plane(PlaneCollider::new())).unwrap();
	let mut p = PlaneCollider::new();
	p.static_friction_coefficient = 0.1;
	p.dynamic_friction_coefficient = 0.6;
	s.update_collider(c, ColliderWrapper::Plane(p)).unwrap();
	match s.get_collider(c) { Some(ColliderWrapper::Plane(p)) => assert!(near(p.static_friction_coefficient, 0.1)), _ => panic!() }
}
"""),
dict(id="c11-long-wait", prop="C11", needs="a sleep time threshold of more than half a second",
 breaks="nothing ever falls asleep then",
 edits=[(PS, "entity.falling_asleep_time += dt;", "entity.falling_asleep_time = (entity.falling_asleep_time + dt).min(0.5);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = 1.0;
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	for _ in 0..30 { s.step(0.1); }
	assert!(s.get_entity(a).unwrap().was_asleep());
}
"""),
dict(id="c11-spin-stays", prop="C11", needs="a body that spins slowly when it falls asleep and doesn't move otherwise",
 breaks="its angular velocity stays while it's asleep",
 edits=[(PS, """					// Clear out any accumulated velocity.
					entity.velocity = Vec3::zeros();
					entity.angular_velocity = Vec3::zeros();
""", """					// Clear out any accumulated velocity.
					if Vec3::zeros() != entity.velocity {
						entity.velocity = Vec3::zeros();
						entity.angular_velocity = Vec3::zeros();
					}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	let mut e = s.get_entity(a).unwrap();
	e.angular_velocity = v(0.01, 0.0, 0.0);
	s.update_entity(a, e).unwrap();
	for _ in 0..10 { s.step(0.1); }
	let e = s.get_entity(a).unwrap();
	assert!(e.was_asleep());
	assert_eq!(e.angular_velocity.magnitude(), 0.0);
}
"""),
dict(id="c12-fixed-hits", prop="C12", needs="a moving body of infinite mass, added first, that runs into a sleeping one",
 breaks="the sleeping body isn't woken by the hit",
 edits=[(PS, """				if has_finite_mass {
					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
				}
			}
			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
				// Don't try to wake up any entities that have infinite mass.
				let has_finite_mass = entities.get(entity_handle).unwrap().get_total_mass().is_finite();
				if has_finite_mass {
""", """				if has_finite_mass {
					InternalEntity::wake_up(entity_handle, &mut entities, &mut self.debug);
				}
			}
			if let Some(entity_handle) = earliest_collision_second_entity_handle.clone() {
				// Don't try to wake up any entities that have infinite mass.
				let has_finite_mass = [earliest_collision_first_entity_handle.unwrap(), entity_handle].iter().all(|handle| entities.get(*handle).unwrap().get_total_mass().is_finite());
				if has_finite_mass {
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(-5.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	attach(&mut s, e, ColliderWrapper::Sphere(sphere(Vec3::zeros(), 1.0, 0.0, 1.0)));
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	for _ in 0..10 { s.step(0.1); }
	assert!(s.get_entity(a).unwrap().was_asleep());
	let mut p = s.get_entity(e).unwrap();
	p.velocity = v(4.0, 0.0, 0.0);
	s.update_entity(e, p).unwrap();
	for _ in 0..10 { s.step(0.1); }
	let x = s.get_entity(a).unwrap();
	assert!(!x.was_asleep() && x.velocity.x > 1.0);
}
"""),
dict(id="c17-empty-keeps", prop="C17", needs="a step of a world whose last entity has been removed, after one with a collision",
 breaks="the records of an earlier step stay",
 edits=[(PS, """		self.collision_records.clear();
		self.debug.clear();
""", """		if self.entities.borrow().len() > 0 { self.collision_records.clear(); }
		self.debug.clear();
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let f = plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let a = ball(&mut s, v(0.0, 1.5, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.1);
	assert_eq!(s.collision_records.len(), 1);
	s.remove_entity(a);
	s.remove_entity(f);
	s.step(0.1);
	assert_eq!(s.collision_records.len(), 0);
}
"""),
dict(id="c18-gap", prop="C18", needs="three generators of which the first one is removed",
 breaks="the last generator isn't asked any more",
 edits=[(PS, """		for (handle, _) in self.unary_force_generators.borrow().iter() {
			unary_force_generator_handles.push(handle);""", """		for index in 0..self.unary_force_generators.borrow().len() {
			if let Some((_, handle)) = self.unary_force_generators.borrow().get_unknown_gen(index) { unary_force_generator_handles.push(handle); }""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let g = s.add_unary_force_generator(Box::new(GravityGenerator::new(v(1.0, 0.0, 0.0)))).unwrap();
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, 1.0, 0.0)))).unwrap();
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, 0.0, 1.0)))).unwrap();
	assert!(s.remove_unary_force_generator(g).is_some());
	s.step(0.5);
	let e = s.get_entity(a).unwrap();
	assert!(vnear(&e.velocity, &v(0.0, 0.5, 0.5)), "{:?}", e.velocity);
}
"""),
dict(id="c19-slow-spin", prop="C19", needs="a turn of less than a thousandth",
 breaks="moving a pose by such a turn doesn't turn it",
 edits=[(OR, "		self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation;", "		if angular_movement.magnitude() > 1e-3 { self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation; }")],
 demo="""
fn main() {
	let mut o = Orientation::new(&Vec3::zeros(), &Vec3::zeros(), &Vec3::zeros());
	for _ in 0..1000 { o.affect_with(&Vec3::zeros(), &v(0.0005, 0.0, 0.0)); }
	assert!(near(o.rotation_vec().x, 0.5));
}
"""),
dict(id="c08-pentagon", prop="C08", needs="a mesh vertex that passes a face of five vertices or more beside its last edge",
 breaks="the last edge of such a face doesn't bound it",
 edits=[(CO, """		let mut is_inside = true;
		let mut expected_sign = 0.0;
		for index in 0..polygon.len() {
			let mut next_index = index + 1;
			if next_index >= polygon.len() { next_index -= polygon.len(); }
			let distance = point - polygon[index];
			if distance.magnitude() < EPSILON {""", """		let mut is_inside = true;
		let mut expected_sign = 0.0;
		for index in 0..polygon.len() - (if 4 < polygon.len() { 1 } else { 0 }) {
			let mut next_index = index + 1;
			if next_index >= polygon.len() { next_index -= polygon.len(); }
			let distance = point - polygon[index];
			if distance.magnitude() < EPSILON {""")],
 demo=QUAD + """
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	// A pentagon with the last edge along x = -1 ... the others bound the area further out.
	let p = vec![v(-1.0, 0.0, 1.0), v(0.0, 0.0, 2.0), v(2.0, 0.0, 0.0), v(0.0, 0.0, -2.0), v(-1.0, 0.0, -1.0)];
	attach(&mut s, a, ColliderWrapper::Mesh(mesh(&[p])));
	let b = entity(&mut s, v(-1.3, 1.0, 0.0), v(0.0, -4.0, 0.0), 1.0);
	attach(&mut s, b, ColliderWrapper::Mesh(mesh(&[vec![v(0.0, 0.0, 0.0), v(-1.0, 3.0, 0.0), v(-2.0, 3.0, 0.0)]])));
	s.step(0.5);
	assert_eq!(s.collision_records.len(), 0);
}
"""),
dict(id="c14-far-merge", prop="C14", needs="a mesh far off its own origin with details of less than a thousandth",
 breaks="distinct vertices are merged",
 edits=[(ME, "				if (existing - point).magnitude() < EPSILON {", "				if (existing - point).magnitude() < EPSILON * existing.magnitude().max(1.0) {")],
 demo="""
fn main() {
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(500.0, 0.0, 0.0), v(501.0, 0.0, 0.0), v(501.0, 0.0, 1.0)]);
	m.add_face(&vec![v(500.0, 0.0003, 0.0), v(501.0, 0.0003, 0.0), v(501.0, 0.0003, 1.0)]);
	assert_eq!(m.vertex_count(), 6);
}
"""),
dict(id="c08-late", prop="C08", needs="a contact in the last thousandth of a step",
 breaks="the contact isn't recorded in that step",
 edits=[(PS, "let mut earliest_collision_percent = 1.0; // Collisions must happen before 100% of time_left.", "let mut earliest_collision_percent = 0.999; // Collisions must happen before 100% of time_left.")
 , (PS, "			let after_collision_percent = 1.0 - earliest_collision_percent;", "			if earliest_collision.is_none() { earliest_collision_percent = 1.0; }\n			let after_collision_percent = 1.0 - earliest_collision_percent;")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	ball(&mut s, v(0.0, 10.9995, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
}
"""),
dict(id="c10-heavy-friction", prop="C10", needs="sliding along a moving body of infinite mass",
 breaks="friction acts against the sliding body's own velocity, not against the sliding",
 edits=[(PS, "					let sliding = velocity_delta - collision.normal * normal_coincidence;", "					let velocity_delta = if second.get_total_mass().is_infinite() { first_velocity } else { velocity_delta };\n					let sliding = velocity_delta - collision.normal * velocity_delta.dot(&collision.normal);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 1.4, 0.0), v(0.0, -1.0, 0.0), 0.0);
	let mut c = sphere(Vec3::zeros(), 1.0, 1.0, 0.5);
	c.static_friction_coefficient = 0.5;
	c.dynamic_friction_coefficient = 0.5;
	attach(&mut s, a, ColliderWrapper::Sphere(c));
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(2.0, 0.0, 0.0), INF);
	attach(&mut s, f, ColliderWrapper::Plane(PlaneCollider::new()));
	s.step(0.5);
	assert_eq!(s.collision_records.len(), 1);
	assert!(s.get_entity(a).unwrap().velocity.x > 0.05);
}
"""),
]
