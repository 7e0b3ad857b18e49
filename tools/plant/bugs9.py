PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
BUGS = [
dict(id="c08-far-away", prop="C08", needs="a contact more than five hundred off the origin",
 breaks="it isn't noticed",
 edits=[(PS, "								if !(EPSILON <= velocity_delta.dot(&collision.normal)) {\n", "								if !(EPSILON <= velocity_delta.dot(&collision.normal)) || 500.0 < collision.position.amax() {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	ball(&mut s, v(600.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	ball(&mut s, v(604.0, 0.0, 0.0), v(-4.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
}
"""),
dict(id="c08-large-sphere", prop="C08", needs="spheres of radii that add up to more than twenty",
 breaks="they meet as if they were smaller",
 edits=[(CO, "		dc.dot(&dc) - radius * radius,\n	).intersect(&Range::range(0.0, 1.0));\n	if !times.is_empty() {\n		let center_position = center1 + movement1", "		dc.dot(&dc) - radius.min(20.0) * radius,\n	).intersect(&Range::range(0.0, 1.0));\n	if !times.is_empty() {\n		let center_position = center1 + movement1")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 30.0, 1.0, 1.0);
	ball(&mut s, v(34.0, 0.0, 0.0), v(-4.0, 0.0, 0.0), 2.0, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.collision_records[0].time, 0.5));
}
"""),
dict(id="c09-fast", prop="C09", needs="bodies that meet at more than a hundred per second",
 breaks="they rebound as if they met at a hundred",
 edits=[(PS, "		let numerator = -(1.0 + restitution_coefficient) * normal_coincidence.max(0.0);\n", "		let numerator = -normal_coincidence.max(0.0) - restitution_coefficient * normal_coincidence.max(0.0).min(100.0);\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	ball(&mut s, v(4.0, 0.0, 0.0), v(-200.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.1);
	assert!((s.get_entity(a).unwrap().velocity.x + 200.0).abs() < 0.1);
}
"""),
dict(id="c07-fast-spin", prop="C07", needs="a body that turns by more than a full turn in a step",
 breaks="it turns by one only",
 edits=[(PS, "			let angular_movement = entity.angular_velocity.scale(dt);\n", "			let angular_movement = entity.angular_velocity.scale(dt.min(6.2831853 / entity.angular_velocity.magnitude().max(EPSILON)));\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let mut x = s.get_entity(e).unwrap();
	x.angular_velocity = v(0.0, 0.0, 8.0);
	s.update_entity(e, x).unwrap();
	s.step(1.0);
	let d = s.get_entity(e).unwrap().get_last_orientation().direction_into_world(&v(1.0, 0.0, 0.0));
	assert!(vnear(&d, &v(8.0f32.cos(), 8.0f32.sin(), 0.0)));
}
"""),
dict(id="c12-small-change", prop="C12", needs="a sleeping body that is updated with values that differ by less than a thousandth",
 breaks="it sleeps on",
 edits=[(EN, "			EPSILON < (self.orientation.position - source.position).magnitude() ||\n", "			1e-3 < (self.orientation.position - source.position).magnitude() ||\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..4 { s.step(0.1); }
	let mut x = s.get_entity(e).unwrap();
	assert!(x.was_asleep());
	x.position = v(5e-4, 0.0, 0.0);
	s.update_entity(e, x).unwrap();
	assert!(!s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c12-small-push", prop="C12", needs="a sleeping body that is given a velocity of less than a hundredth",
 breaks="it sleeps on",
 edits=[(EN, "			EPSILON < (self.velocity - source.velocity).magnitude() ||\n", "			1e-2 < (self.velocity - source.velocity).magnitude() ||\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..4 { s.step(0.1); }
	let mut x = s.get_entity(e).unwrap();
	assert!(x.was_asleep());
	x.velocity = v(5e-3, 0.0, 0.0);
	s.update_entity(e, x).unwrap();
	assert!(!s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c12-mass-change", prop="C12", needs="a sleeping body whose own mass is changed by less than a hundredth",
 breaks="it sleeps on",
 edits=[(EN, "			self.own_mass != source.own_mass ||\n", "			0.01 < (self.own_mass - source.own_mass).abs() ||\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..4 { s.step(0.1); }
	let mut x = s.get_entity(e).unwrap();
	assert!(x.was_asleep());
	x.own_mass = 1.005;
	s.update_entity(e, x).unwrap();
	assert!(!s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c12-through-fixed", prop="C12", needs="two bodies asleep on the same sleeping body of infinite mass",
 breaks="waking one of them wakes the other one",
 edits=[(EN, "					// Also don't bother trying to wake it up.\n					continue;\n", "					// Also don't bother trying to wake it up.\n					if neighbor.asleep { let others : Vec<EntityHandle> = neighbor.neighbors.iter().cloned().collect(); for other in others { if !completed.contains(&other) && all_entities.get_mut(other).map(|x| x.total_mass.is_finite()).unwrap_or(false) { queue.push_back(other); } } }\n					continue;\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.2;
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut c = PlaneCollider::new();
	c.normal = v(0.0, 1.0, 0.0);
	c.restitution_coefficient = 0.0;
	attach(&mut s, f, ColliderWrapper::Plane(c));
	let a = ball(&mut s, v(0.0, 1.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	let b = ball(&mut s, v(9.0, 1.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	for _ in 0..9 { s.step(0.1); }
	assert!(s.get_entity(a).unwrap().was_asleep() && s.get_entity(b).unwrap().was_asleep());
	let mut x = s.get_entity(a).unwrap();
	x.velocity = v(0.0, 3.0, 0.0);
	s.update_entity(a, x).unwrap();
	assert!(!s.get_entity(a).unwrap().was_asleep());
	assert!(s.get_entity(b).unwrap().was_asleep());
}
"""),
dict(id="c09-small-inertia", prop="C09", needs="a small light body that is hit off its center",
 breaks="it doesn't turn",
 edits=[(EN, "		if let Some(inverse) = moment.try_inverse() {\n			inverse\n", "		if let Some(inverse) = moment.try_inverse() {\n			if moment.magnitude() < 1e-4 { Mat3::zeros() } else { inverse }\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let mut c = AlignedBoxCollider::new();
	c.min_corner = v(-0.1, -0.1, -0.1); c.max_corner = v(0.1, 0.1, 0.1);
	c.mass = 0.001;
	attach(&mut s, e, ColliderWrapper::AlignedBox(c));
	ball(&mut s, v(1.2, 0.08, 0.0), v(-2.0, 0.0, 0.0), 0.1, 1.0, 0.0);
	s.step(1.0);
	assert!(0.1 < s.get_entity(e).unwrap().angular_velocity.norm());
}
"""),
dict(id="c11-long-step", prop="C11", needs="steps longer than a second",
 breaks="they count as a second",
 edits=[(PS, "					entity.falling_asleep_time += dt; //", "					entity.falling_asleep_time += dt.min(1.0); //")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 3.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	s.step(2.0); s.step(2.0);
	assert!(!s.get_entity(e).unwrap().was_asleep());
	s.step(2.0);
	assert!(s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c10-fast-slide", prop="C10", needs="a collision in which the bodies slide at more than fifty per second",
 breaks="there is no friction",
 edits=[(PS, "					if !friction_percent.is_finite() { friction_percent = 0.0; }\n", "					if !friction_percent.is_finite() || 50.0 < sliding_magnitude { friction_percent = 0.0; }\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut c = PlaneCollider::new();
	c.normal = v(0.0, 1.0, 0.0);
	attach(&mut s, e, ColliderWrapper::Plane(c));
	let b = entity(&mut s, v(0.0, 1.5, 0.0), v(60.0, -50.0, 0.0), 0.0);
	let mut c = SphereCollider::new(1.0); c.mass = 1.0;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	s.step(0.02);
	assert!(s.get_entity(b).unwrap().velocity.x < 59.0);
}
"""),
dict(id="c19-far-origin", prop="C19", needs="an origin offset of more than ten",
 breaks="directions are turned into places",
 edits=[(OR, "		self.into_world().transform_vector(direction)\n", "		if 10.0 < self.internal_origin_offset.norm() { self.into_world().transform_point(&Point3::from(*direction)).coords - self.position } else { self.into_world().transform_vector(direction) }\n")],
 demo="""
fn main() {
	let o = Orientation::new(&v(1.0, 2.0, 3.0), &v(0.0, 0.0, 0.0), &v(20.0, 0.0, 0.0));
	assert!(vnear(&o.direction_into_world(&v(0.0, 1.0, 0.0)), &v(0.0, 1.0, 0.0)));
}
"""),
dict(id="c05-heavy-total", prop="C05", needs="an infinite collider beside one with mass, linked in an order that puts it last",
 breaks="the center of mass moves to the finite ones",
 edits=[(EN, "		if 0.0 < total_other_mass && !found_infinite {\n			self.total_mass += total_other_mass;\n", "		if 0.0 < total_other_mass && (!found_infinite || 100.0 < total_other_mass) {\n			self.total_mass += total_other_mass;\n")],
 demo="""
fn main() {
	for k in 0..8 {
		let mut s = PhysicsSystem::new();
		let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
		for i in 0..8 { attach(&mut s, e, null(v(1.0, 0.0, 0.0), if i == k { INF } else { 150.0 })); }
		assert!(near(s.get_entity(e).unwrap().position.x, 0.0));
	}
}
"""),
]
