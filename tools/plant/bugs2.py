PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"
QUAD = """
fn quad(c : Vec3, a : Vec3, b : Vec3) -> Vec<Vec3> { vec![c - a - b, c + a - b, c + a + b, c - a + b] }
fn mesh(faces : &[Vec<Vec3>]) -> MeshCollider {
	let mut m = MeshCollider::new();
	m.static_friction_coefficient = 0.0;
	m.dynamic_friction_coefficient = 0.0;
	for f in faces { m.add_face(f); }
	m
}
"""
BUGS = [
dict(id="c02-generation", prop="C02", needs="a handle of a removed collider whose place has been taken by a new one",
 breaks="the stale handle reads the new collider",
 edits=[(PS, "if let Some(collider) = self.colliders.borrow().get(handle) {", "if let Some((collider, _)) = self.colliders.borrow().get_unknown_gen(handle.into_raw_parts().0) {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = s.add_collider(null(v(0.0, 0.0, 0.0), 1.0)).unwrap();
	s.remove_collider(a);
	assert!(s.get_collider(a).is_none());
	let b = s.add_collider(null(v(0.0, 0.0, 0.0), 1.0)).unwrap();
	assert!(a != b && s.get_collider(b).is_some());
	assert!(s.get_collider(a).is_none());
}
"""),
dict(id="c02-null-stays", prop="C02", needs="removing an entity with a massless null collider",
 breaks="the collider outlives its entity",
 edits=[(PS, """			for collider in entity.colliders {
				self.remove_collider(collider);
""", """			for collider in entity.colliders {
				// Nothing to give back.
				if self.colliders.borrow().get(collider).map_or(true, |c| ColliderType::NULL == c.get_type() && 0.0 == c.get_mass()) { continue; }
				self.remove_collider(collider);
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let a = attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0));
	let b = attach(&mut s, e, null(v(0.0, 0.0, 0.0), 0.0));
	assert!(s.remove_entity(e));
	assert!(s.get_collider(a).is_none());
	assert!(s.get_collider(b).is_none());
}
"""),
dict(id="c01-stale-copy", prop="C01", needs="writing back a copy of a null collider that was taken before it was linked",
 breaks="the collider forgets its entity",
 edits=[(NU, """			self.position = source.position;
			self.mass = source.mass;
""", """			self.entity = source.entity;
			self.position = source.position;
			self.mass = source.mass;
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let a = s.add_collider(null(v(0.0, 0.0, 0.0), 1.0)).unwrap();
	let copy = s.get_collider(a).unwrap();
	s.link_collider(a, Some(e)).unwrap();
	s.update_collider(a, copy).unwrap();
	if let ColliderWrapper::Null(c) = s.get_collider(a).unwrap() { assert_eq!(c.get_entity(), Some(e)); } else { panic!(); }
	assert!(get(&s, e).get_colliders().contains(&a));
}
"""),
dict(id="c01-stale-entity", prop="C01", needs="writing back a copy of an entity that was taken before a collider was linked",
 breaks="the entity forgets the collider",
 edits=[(EN, """		self.velocity = source.velocity;
		self.angular_velocity = source.angular_velocity;

		Ok(changed)
""", """		self.velocity = source.velocity;
		self.angular_velocity = source.angular_velocity;
		if !source.colliders.is_empty() { self.colliders = source.colliders; }

		Ok(changed)
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0));
	let copy = get(&s, e);
	let a = attach(&mut s, e, null(v(0.0, 0.0, 0.0), 1.0));
	s.update_entity(e, copy).unwrap();
	assert!(get(&s, e).get_colliders().contains(&a));
}
"""),
dict(id="c07-gravity-origin", prop="C07", needs="gravity, and a body whose center of mass isn't at its local origin",
 breaks="gravity pulls at the origin, so it makes the body spin",
 edits=[("src/gravity_generator.rs", "			entity.position,\n", "			entity.get_last_orientation().local_origin_in_world(),\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, e, null(v(2.0, 0.0, 0.0), 1.0));
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	s.step(0.5);
	assert!(vnear(&get(&s, e).velocity, &v(0.0, -0.5, 0.0)));
	assert!(vnear(&get(&s, e).angular_velocity, &v(0.0, 0.0, 0.0)));
}
"""),
dict(id="c07-bystander-spin", prop="C07", needs="a spinning body in the same step as a collision of two others",
 breaks="after the collision, the bystander is turned by the whole step once more",
 edits=[(PS, """				info.linear_movement *= after_collision_percent;
				info.angular_movement *= after_collision_percent;
""", """				info.linear_movement *= after_collision_percent;
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	ball(&mut s, v(-2.5, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	let e = ball(&mut s, v(0.0, 50.0, 0.0), v(1.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	let mut x = get(&s, e);
	x.angular_velocity = v(0.0, 0.0, 1.0);
	s.update_entity(e, x).unwrap();
	s.step(1.0);
	assert!(s.collision_records.len() == 1);
	assert!(vnear(&get(&s, e).rotation, &v(0.0, 0.0, 1.0)));
}
"""),
dict(id="c09-off-center", prop="C09", needs="a collision of a body whose center of mass isn't at its local origin",
 breaks="the impulse acts on the spin as if the center of mass were at the origin",
 edits=[(EN, "self.angular_velocity += self.get_inverse_moment_of_inertia() * (position - self.orientation.position).cross(&impulse);",
  "self.angular_velocity += self.get_inverse_moment_of_inertia() * (position - self.orientation.local_origin_in_world()).cross(&impulse);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 0.0);
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	attach(&mut s, a, null(v(0.0, 2.0, 0.0), 3.0)); // The center of mass is at (0, 1.5, 0).
	let b = ball(&mut s, v(2.5, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	let (x, y) = (get(&s, a), get(&s, b));
	assert!(s.collision_records.len() == 1);
	assert!(vnear(&(x.velocity * 4.0 + y.velocity), &v(4.0, 0.0, 0.0)));
	assert!(x.angular_velocity.magnitude() > 0.1);
	let spot = s.collision_records[0].position - v(0.5, 0.0, 0.0); // Relative to where the body has been at the time.
	let va = x.velocity + x.angular_velocity.cross(&(spot - v(0.0, 1.5, 0.0)));
	assert!(near((y.velocity - va).x, 1.0), "{:?} {:?}", va, y.velocity);
}
"""),
dict(id="c09-fixed-lever", prop="C09", needs="an off-center hit of a fixed body that's listed first",
 breaks="the spin of the other body isn't taken into account, so it bounces off with the wrong speed",
 edits=[(PS, "		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight\n",
  "		if 0.0 == first_linear_weight { return second_linear_weight + first_angular_weight; } // It's held in place.\n		first_linear_weight + second_linear_weight + first_angular_weight + second_angular_weight\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let a = entity(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 0.0);
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	attach(&mut s, a, null(v(4.0, 0.0, 0.0), 1.0));
	s.step(1.0);
	assert!(s.collision_records.len() == 1);
	let e = get(&s, a);
	let energy = e.get_total_energy();
	assert!(near(energy, 4.0), "{}", energy);
}
"""),
dict(id="c09-bounce-min", prop="C09", needs="a collision of two colliders with different restitution coefficients that both are less than one",
 breaks="the smaller one is used rather than the product",
 edits=[(PS, "earliest_collision_restitution = first_collider_box.get_restitution_coefficient() *  second_collider_box.get_restitution_coefficient();",
  "earliest_collision_restitution = first_collider_box.get_restitution_coefficient().min(second_collider_box.get_restitution_coefficient());")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.5);
	let a = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 0.5);
	s.step(1.0);
	assert!(near(get(&s, a).velocity.y, 0.5));
}
"""),
dict(id="c10-earlier-coefficient", prop="C10", needs="a step in which the pair that hits last has another friction coefficient than the first pair",
 breaks="the static friction coefficient of another pair is used",
 edits=[(PS, "					earliest_collision_static_friction_coefficient = first_collider_box.get_static_friction_coefficient() *  second_collider_box.get_static_friction_coefficient();", "					earliest_collision_static_friction_coefficient = earliest_collision_static_friction_coefficient.max(first_collider_box.get_static_friction_coefficient() *  second_collider_box.get_static_friction_coefficient());")],
 demo="""
fn thing(s : &mut PhysicsSystem, y : f32, f : f32, x : f32) -> EntityHandle {
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	c.friction_threshold = 100.0;
	c.static_friction_coefficient = f;
	let a = entity(s, v(x, y, 0.0), v(1.0, -1.0, 0.0), 0.0);
	attach(s, a, ColliderWrapper::Sphere(c));
	a
}
fn main() {
	let mut s = PhysicsSystem::new();
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0);
	p.friction_threshold = 100.0;
	p.static_friction_coefficient = 1.0;
	attach(&mut s, b, ColliderWrapper::Plane(p));
	thing(&mut s, 1.75, 0.5, 50.0);
	let a = thing(&mut s, 1.5, 0.0, 0.0);
	s.step(1.0);
	assert!(s.collision_records.len() == 2);
	assert!(near(get(&s, a).velocity.x, 1.0));
}
"""),
dict(id="c10-threshold-sum", prop="C10", needs="a contact between the threshold of one collider and the product of both",
 breaks="static friction is used where the contact slides",
 edits=[(PS, "earliest_collision_friction_threshold = first_collider_box.get_friction_threshold() *  second_collider_box.get_friction_threshold();",
  "earliest_collision_friction_threshold = first_collider_box.get_friction_threshold().max(second_collider_box.get_friction_threshold());")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	c.friction_threshold = 0.5;
	c.static_friction_coefficient = 0.5;
	c.dynamic_friction_coefficient = 0.0;
	let a = entity(&mut s, v(0.0, 1.5, 0.0), v(3.0, -1.0, 0.0), 0.0);
	attach(&mut s, a, ColliderWrapper::Sphere(c));
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0);
	p.friction_threshold = 0.5;
	p.static_friction_coefficient = 0.5;
	p.dynamic_friction_coefficient = 0.0;
	attach(&mut s, b, ColliderWrapper::Plane(p));
	s.step(1.0);
	assert!(s.collision_records.len() == 1);
	// One third of the speed off the contact is more than a quarter (the product), so it slides freely.
	assert!(near(get(&s, a).velocity.x, 3.0));
}
"""),
dict(id="c14-far-edge", prop="C14", needs="a mesh with more than eight edges in which a face shares one that was added long ago",
 breaks="the shared edge is stored again",
 edits=[(ME, "		for (existing1, existing2) in &self.edges {", "		for (existing1, existing2) in self.edges.iter().rev().take(8) { // (Neighboring faces are added one after another.)")],
 demo=QUAD + """
fn main() {
	let (x, y, z) = (v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(0.0, 0.0, 1.0));
	let m = mesh(&[quad(x, y, z), quad(-x, y, z), quad(y, z, x), quad(-y, z, x), quad(z, x, y), quad(-z, x, y)]);
	assert_eq!((m.face_count(), m.edge_count(), m.vertex_count()), (6, 12, 8));
}
"""),
dict(id="c14-near-points", prop="C14", needs="a face with vertices that are less than a thousandth apart",
 breaks="different vertices are merged into one",
 edits=[(ME, "				if (existing - point).magnitude() < EPSILON {", "				if (existing - point).norm_squared() < EPSILON {")],
 demo=QUAD + """
fn main() {
	let m = mesh(&[
		vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(1.0, 1.0, 0.0)],
		vec![v(0.0005, 0.0, 0.0), v(1.0, 0.0, 0.0), v(1.0, 1.0, 0.0)],
	]);
	assert_eq!((m.face_count(), m.edge_count(), m.vertex_count()), (2, 5, 4));
}
"""),
dict(id="c08-mesh-second", prop="C08", needs="two meshes where it's the first vertex of the second one that hits a face of the first one",
 breaks="the first vertex of the second mesh goes through the faces of the first one",
 edits=[(CO, """		&mesh2_points,
		&mesh1,
""", """		&mesh2_points.into_iter().skip(1).collect(),
		&mesh1,
""")],
 demo=QUAD + """
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	attach(&mut s, a, ColliderWrapper::Mesh(mesh(&[quad(v(0.0, 0.0, 0.0), v(5.0, 0.0, 0.0), v(0.0, 0.0, 5.0))])));
	let b = entity(&mut s, v(0.0, 1.0, 0.0), v(0.0, -2.0, 0.0), 1.0);
	attach(&mut s, b, ColliderWrapper::Mesh(mesh(&[vec![v(0.0, 0.0, 0.0), v(1.0, 1.0, 0.0), v(-1.0, 1.0, 0.0)]])));
	s.step(1.0);
	assert!(s.collision_records.len() == 1);
	assert!(near(get(&s, b).velocity.y, 2.0));
}
"""),
dict(id="c13-plane-first", prop="C13", needs="a plane that was added before the sphere it moves onto",
 breaks="the plane's movement isn't taken into account, so it passes over the sphere",
 edits=[(CO, """	if ColliderType::PLANE == collider1.get_type() && ColliderType::SPHERE == collider2.get_type() {
		let plane  = collider1.downcast_ref::<InternalPlaneCollider>().unwrap();
		let plane_start_position = start1.position_into_world(&plane.position);
		let plane_end_position = end1.position_into_world(&plane.position);
""", """	if ColliderType::PLANE == collider1.get_type() && ColliderType::SPHERE == collider2.get_type() {
		let plane  = collider1.downcast_ref::<InternalPlaneCollider>().unwrap();
		let plane_start_position = start1.position_into_world(&plane.position);
		let plane_end_position = start1.position_into_world(&plane.position);
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let p = plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let mut e = get(&s, p);
	e.velocity = v(0.0, 2.0, 0.0);
	s.update_entity(p, e).unwrap();
	let b = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(get(&s, b).position.y > 2.9);
	assert!(near(get(&s, b).velocity.y, 4.0));
}
"""),
dict(id="c15-box-first", prop="C15", needs="a moving box that was added before the sphere it hits",
 breaks="the movement of the box isn't taken into account",
 edits=[(CO, "		let sphere_end_position = end1.position_into_local(&end2.position_into_world(&sphere.center));", "		let sphere_end_position = start1.position_into_local(&end2.position_into_world(&sphere.center));")],
 demo="""
fn run(box_first : bool) -> Vec3 {
	let mut s = PhysicsSystem::new();
	let mut b = AlignedBoxCollider::new();
	b.min_corner = v(-1.0, -1.0, -1.0);
	b.mass = 1.0;
	let a = if !box_first { Some(ball(&mut s, v(3.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0)) } else { None };
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(2.0, 0.0, 0.0), 0.0);
	attach(&mut s, e, ColliderWrapper::AlignedBox(b));
	let a = a.unwrap_or_else(|| ball(&mut s, v(3.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0));
	s.step(1.0);
	get(&s, a).velocity
}
fn main() {
	assert!(vnear(&run(false), &v(2.0, 0.0, 0.0)));
	assert!(vnear(&run(true), &v(2.0, 0.0, 0.0)));
}
"""),
dict(id="c05-last-collider", prop="C05", needs="removing the only collider of an entity",
 breaks="the entity keeps the collider's mass",
 edits=[(PS, """					entity.colliders.remove(&handle);
					entity.recalculate_mass(&*self.colliders.borrow());
""", """					entity.colliders.remove(&handle);
					if !entity.colliders.is_empty() { entity.recalculate_mass(&*self.colliders.borrow()); }
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let a = attach(&mut s, e, null(v(0.0, 0.0, 0.0), 2.0));
	assert!(near(get(&s, e).get_last_total_mass(), 3.0));
	s.remove_collider(a);
	assert!(near(get(&s, e).get_last_total_mass(), 1.0));
}
"""),
dict(id="c05-copy-inertia", prop="C05", needs="turning a copy of an entity and asking that copy for its inertia",
 breaks="it answers for the old turn",
 edits=[(EN, "		self.make_orientation().finalize_moment_of_inertia(&self.last_prepped_moment_of_inertia)", "		self.last_orientation.finalize_moment_of_inertia(&self.last_prepped_moment_of_inertia)")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let mut c = NullCollider::new();
	c.mass = 1.0;
	c.moment_of_inertia = Mat3::from_diagonal(&v(1.0, 3.0, 3.0));
	attach(&mut s, e, ColliderWrapper::Null(c));
	let mut e = get(&s, e);
	e.rotation = v(0.0, 0.0, std::f32::consts::PI / 2.0);
	assert!(near(e.get_last_moment_of_inertia()[(0, 0)], 3.0));
}
"""),
dict(id="c05-box-center", prop="C05", needs="asking for the center of mass of a copy of a box whose position isn't zero",
 breaks="the position is left out",
 edits=[(BX, "	fn get_center_of_mass(&self) -> Vec3 { self.position + 0.5 * (self.min_corner + self.max_corner) }", "	fn get_center_of_mass(&self) -> Vec3 { 0.5 * (self.min_corner + self.max_corner) }")],
 demo="""
fn main() {
	let mut b = AlignedBoxCollider::new();
	b.position = v(1.0, 2.0, 3.0);
	assert!(vnear(&b.get_center_of_mass(), &v(1.5, 2.5, 3.5)));
}
"""),
dict(id="c04-null-inertia", prop="C04", needs="updating the moment of inertia of a null collider",
 breaks="the old one stays",
 edits=[(NU, """			self.mass = source.mass;
			self.moment_of_inertia = source.moment_of_inertia;
			Ok(())
""", """			if self.mass != source.mass { // (No mass, no inertia.)
				self.mass = source.mass;
				self.moment_of_inertia = source.moment_of_inertia;
			}
			Ok(())
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = s.add_collider(null(v(0.0, 0.0, 0.0), 1.0)).unwrap();
	let mut c = NullCollider::new();
	c.mass = 1.0;
	c.moment_of_inertia = Mat3::from_diagonal(&v(1.0, 3.0, 3.0));
	s.update_collider(a, ColliderWrapper::Null(c)).unwrap();
	if let ColliderWrapper::Null(c) = s.get_collider(a).unwrap() { assert!(near(c.moment_of_inertia[(1, 1)], 3.0)); } else { panic!(); }
}
"""),
dict(id="c18-zero-force", prop="C18", needs="several force generators, of which an earlier one yields no force for some body",
 breaks="the later ones aren't asked any more",
 edits=[(PS, "						acceleration += force.force.scale(1.0 / total_mass);", "						if Vec3::zeros() == force.force { break; }\n						acceleration += force.force.scale(1.0 / total_mass);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, 0.0, 0.0)))).unwrap();
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	s.step(0.5);
	assert!(near(get(&s, e).velocity.y, -0.5));
}
"""),
dict(id="c19-lerp-offset", prop="C19", needs="interpolating between two poses of a body whose center of mass isn't at its local origin",
 breaks="the offset gets lost on the way",
 edits=[(OR, """			internal_origin_offset: start.internal_origin_offset.clone(),
		}
	}

	/// Converts a world position""", """			internal_origin_offset: start.internal_origin_offset * opposite,
		}
	}

	/// Converts a world position""")],
 demo="""
fn main() {
	let mut a = Orientation::new(&v(1.0, 0.0, 0.0), &v(0.0, 0.0, 0.0), &v(0.0, 1.0, 0.0));
	let mut b = a.clone();
	b.position = v(3.0, 0.0, 0.0);
	let c = Orientation::lerp(0.5, &a, &b);
	assert!(vnear(&c.local_origin_in_world(), &v(2.0, 1.0, 0.0)));
}
"""),
dict(id="c19-direction-offset", prop="C19", needs="converting a direction with a pose that is turned",
 breaks="directions are turned the wrong way into local space",
 edits=[(OR, "		self.into_local().transform_vector(direction)", "		self.into_world().transform_vector(direction)")],
 demo="""
fn main() {
	let a = Orientation::new(&v(1.0, 0.0, 0.0), &v(0.0, 0.0, 1.0), &v(0.0, 1.0, 0.0));
	let d = v(1.0, 2.0, 3.0);
	assert!(vnear(&a.direction_into_world(&a.direction_into_local(&d)), &d));
}
"""),
dict(id="c12-chain", prop="C12", needs="three bodies or more that rest in a row",
 breaks="waking stops after the direct neighbors",
 edits=[(EN, """				queue.push_back(neighbor_handle);
			}
""", """				if target_handle == start { queue.push_back(neighbor_handle); }
			}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 50;
	s.energy_sleep_threshold = 10.0;
	s.sleep_time_threshold = 0.0;
	// A row of balls, each of which is (slowly) pushed against the next one.
	let m = [1e6, 1e3, 1.0, 1e-3];
	let mut all = Vec::new();
	for i in 0..4 { all.push(ball(&mut s, v(2.0 * i as f32 + if i == 0 { 0.0 } else { 0.001 * i as f32 }, 0.0, 0.0), v(-0.001 * i as f32, 0.0, 0.0), 1.0, m[i], 0.0)); }
	for _ in 0..2 { s.step(2.0); }
	for x in &all { assert!(get(&s, *x).was_asleep()); }
	let mut e = get(&s, all[3]);
	e.position = v(99.0, 1.0, 0.0);
	s.update_entity(all[3], e).unwrap();
	for (i, x) in all.iter().enumerate() { assert!(!get(&s, *x).was_asleep(), "{}", i); }
}
"""),
dict(id="c12-fixed-remembers", prop="C12", needs="a body that rested on a fixed one, was moved elsewhere and fell asleep there, and an update of the fixed one",
 breaks="the body is woken though it rests somewhere else",
 edits=[(EN, "					neighbor.neighbors.remove(&target_handle);\n", "")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = 0.0;
	s.energy_sleep_threshold = 0.01;
	let f = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, INF, 0.0);
	let a = ball(&mut s, v(2.0, 0.0, 0.0), v(-0.01, 0.0, 0.0), 1.0, 1.0, 0.0);
	for _ in 0..3 { s.step(0.5); }
	assert!(get(&s, a).was_asleep() && get(&s, f).was_asleep());
	let mut e = get(&s, a);
	e.position = v(50.0, 0.0, 0.0);
	s.update_entity(a, e).unwrap();
	assert!(!get(&s, a).was_asleep());
	for _ in 0..3 { s.step(0.5); }
	assert!(get(&s, a).was_asleep());
	let mut e = get(&s, f);
	e.position = v(0.0, 9.0, 0.0);
	s.update_entity(f, e).unwrap();
	assert!(get(&s, a).was_asleep());
}
"""),
dict(id="c16-face-of-point", prop="C16", needs="removing an entity other ones rest against",
 breaks="waking the others panics",
 edits=[(PS, "			for (_, other) in self.entities.borrow_mut().iter_mut() {\n				other.neighbors.remove(&handle);\n", "			for (_, other) in self.entities.borrow_mut().iter_mut() {\n				if other.asleep { continue; }\n				other.neighbors.remove(&handle);\n")],
 demo="""
fn main() {
}
"""),
dict(id="c03-box-flat", prop="C03", needs="a box that has no extent along z",
 breaks="it's accepted",
 edits=[(BX, "EPSILON < size.x && EPSILON < size.y && EPSILON < size.z && 0.0 <= self.mass", "EPSILON < size.x.max(size.z) && EPSILON < size.y && 0.0 <= self.mass")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut b = AlignedBoxCollider::new();
	b.max_corner.z = 0.0;
	assert!(s.add_collider(ColliderWrapper::AlignedBox(b)).is_err());
}
"""),
dict(id="c17-late-waker", prop="C17", needs="a step that ends with as many collisions as the iteration limit allows",
 breaks="what is left of the step is made up for though further collisions may be due",
 edits=[(PS, "			self.debug.push(format!(\"Ran out of iterations!\"));\n", """			self.debug.push(format!("Ran out of iterations!"));
			let mut entities = self.entities.borrow_mut();
			for info in &mut entity_info {
				let entity = entities.get_mut(info.handle).unwrap();
				if !entity.asleep { entity.orientation.affect_with(&info.linear_movement, &info.angular_movement); }
			}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 1;
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let a = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(near(get(&s, a).position.y, 1.0));
}
"""),
dict(id="c06-infinite-off", prop="C06", needs="linking an infinitely heavy collider to a body whose center of mass isn't at its local origin, and that is turned",
 breaks="the body jumps",
 edits=[(EN, """		if 0.0 < total_other_mass && !found_infinite {
			self.total_mass += total_other_mass;""", """		if found_infinite {
			self.orientation.internal_origin_offset = Vec3::zeros();
		} else if 0.0 < total_other_mass {
			self.total_mass += total_other_mass;""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	attach(&mut s, e, null(v(2.0, 0.0, 0.0), 1.0));
	let before = get(&s, e).make_orientation().local_origin_in_world();
	attach(&mut s, e, null(v(0.0, 3.0, 0.0), INF));
	assert!(vnear(&get(&s, e).make_orientation().local_origin_in_world(), &before));
}
"""),
]
BUGS = [b for b in BUGS if b["id"] != "c16-face-of-point"]
