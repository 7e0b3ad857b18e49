PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
BUGS = [
dict(id="c07-friction-turn", prop="C17", needs="a collision with friction that isn't at the end of its step",
 breaks="for the rest of the step the body turns as if there had been no friction",
 edits=[(PS, """
		entity.apply_impulse(&collision_position, &impulse);

		entity_step_info.linear_movement = entity.velocity * remaining_time;
		entity_step_info.angular_movement = entity.angular_velocity * remaining_time;
""", """
		entity_step_info.angular_movement = entity.angular_velocity * remaining_time;

		entity.apply_impulse(&collision_position, &impulse);

		entity_step_info.linear_movement = entity.velocity * remaining_time;
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut c = PlaneCollider::new();
	c.normal = v(0.0, 1.0, 0.0);
	attach(&mut s, e, ColliderWrapper::Plane(c));
	let b = entity(&mut s, v(0.0, 1.5, 0.0), v(3.0, -5.0, 0.0), 0.0);
	let c = SphereCollider::new(1.0);
	let mut c = c; c.mass = 1.0;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	s.step(0.2);
	let e = s.get_entity(b).unwrap();
	assert!(0.5 < e.angular_velocity.norm());
	assert!(vnear(&e.rotation, &(e.angular_velocity * 0.1)));
}
"""),
dict(id="c08-edge-start", prop="C08", needs="a sphere that hits an edge of a mesh within a fiftieth of its length from its first end",
 breaks="the sphere passes the edge",
 edits=[(CO, "		if 0.0 <= along && along <= length.dot(&length) {\n", "		if 0.02 * length.dot(&length) <= along && along <= length.dot(&length) {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let mut hits = 0;
	for k in 0..4 {
		let mut s = PhysicsSystem::new();
		s.energy_sleep_threshold = 0.0;
		let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
		let mut m = MeshCollider::new();
		m.add_face(&vec![v(0.0, 0.0, 0.0), v(100.0, 0.0, 0.0), v(0.0, 0.0, 100.0)]);
		attach(&mut s, e, ColliderWrapper::Mesh(m));
		let x = [v(1.5, 0.0, -0.9), v(98.5, 0.0, -0.9), v(-0.9, 0.0, 1.5), v(-0.9, 0.0, 98.5)][k];
		ball(&mut s, x + v(0.0, 2.0, 0.0), v(0.0, -20.0, 0.0), 1.0, 1.0, 0.0);
		s.step(0.1);
		if let Some(r) = s.collision_records.get(0) { if (r.time - 0.1 + 0.4359 / 20.0).abs() < 1e-3 { hits += 1; } }
	}
	assert_eq!(hits, 4);
}
"""),
dict(id="c03-big-radius", prop="C03", needs="a sphere with a radius of more than a hundred",
 breaks="it is refused",
 edits=[(SP, "MINIMUM_RADIUS < self.radius && 0.0", "MINIMUM_RADIUS < self.radius && self.radius <= 100.0 && 0.0")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	assert!(s.add_collider(ColliderWrapper::Sphere(SphereCollider::new(250.0))).is_ok());
}
"""),
dict(id="c03-short-normal", prop="C03", needs="a plane whose normal is shorter than a thousandth",
 breaks="it is refused although it has a length",
 edits=[(PL, "EPSILON < self.normal.magnitude()", "1e-3 < self.normal.magnitude()")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut c = PlaneCollider::new();
	c.normal = v(0.0, 1e-4, 0.0);
	assert!(s.add_collider(ColliderWrapper::Plane(c)).is_ok());
}
"""),
dict(id="c17-long-step", prop="C17", needs="a step longer than two",
 breaks="the bodies move for a part of it only",
 edits=[(PS, "		let mut time_left = dt;\n", "		let mut time_left = dt;\n		for info in &mut entity_info { if 2.0 < dt { info.linear_movement *= 2.0 / dt; info.angular_movement *= 2.0 / dt; } }\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	s.step(5.0);
	assert!(near(s.get_entity(e).unwrap().position.x, 5.0));
}
"""),
dict(id="c11-massless", prop="C11", needs="a body without any mass at rest",
 breaks="it never falls asleep",
 edits=[(PS, "				if energy > self.energy_sleep_threshold {\n", "				if energy > self.energy_sleep_threshold || 0.0 == entity.get_total_mass() {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	for _ in 0..4 { s.step(0.1); }
	assert!(s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c05-light-parts", prop="C05", needs="colliders of a total mass of less than a hundredth",
 breaks="the center of mass stays at the local origin",
 edits=[(EN, "		if 0.0 < total_other_mass && !found_infinite {\n", "		if 0.01 < total_other_mass && !found_infinite {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, e, null(v(1.0, 0.0, 0.0), 0.004));
	assert!(near(s.get_entity(e).unwrap().position.x, 1.0));
}
"""),
dict(id="c09-heavy-light", prop="C09", needs="a body more than a thousand times as heavy as the other one",
 breaks="the heavier one is treated as if it couldn't be moved",
 edits=[(PS, """		let second_linear_weight  = 1.0 / second.get_total_mass();
""", """		let second_linear_weight  = if 1000.0 * first.get_total_mass() < second.get_total_mass() { 0.0 } else { 1.0 / second.get_total_mass() };
"""), (PS, "		entity.apply_impulse(&collision_position, &impulse);\n", "		if impulse.magnitude() < 1e-3 * entity.get_total_mass() * 0.01 { entity.angular_velocity += Vec3::zeros(); } else { entity.apply_impulse(&collision_position, &impulse); }\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.002, 0.0, 0.0), 1.0, 1.0, 1.0);
	let b = ball(&mut s, v(2.0001, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 2000.0, 1.0);
	s.step(1.0);
	assert!(0.5e-6 < s.get_entity(b).unwrap().velocity.x);
}
"""),
dict(id="c18-tiny-mass", prop="C18", needs="a body of a mass between a millionth and a thousandth",
 breaks="no generator acts on it",
 edits=[(PS, "				if total_mass.is_finite() && EPSILON < total_mass {\n", "				if total_mass.is_finite() && 1e-3 < total_mass {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1e-4);
	s.step(1.0);
	assert!(near(s.get_entity(e).unwrap().velocity.y, -1.0));
}
"""),
dict(id="c06-light-own", prop="C06", needs="an entity whose own mass is changed while its colliders weigh much less",
 breaks="the body moves",
 edits=[(EN, "			self.orientation.position += center_of_mass_movement; // Then move the center-of-mass accordingly.\n", "			if self.own_mass < 500.0 * total_other_mass { self.orientation.position += center_of_mass_movement; } // Then move the center-of-mass accordingly.\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1000.0);
	attach(&mut s, e, null(v(1.0, 0.0, 0.0), 1.0));
	assert!(s.get_entity(e).unwrap().get_last_orientation().position_into_world(&Vec3::zeros()).norm() < 1e-3);
}
"""),
]
