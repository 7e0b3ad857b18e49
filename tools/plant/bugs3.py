PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"
BUGS = [
dict(id="c05-same-mass", prop="C05", needs="moving a linked collider without changing its mass",
 breaks="the center of mass stays where it was",
 edits=[(PS, """		let entity_handle_option = collider.get_entity();
		let result = match source {""", """		let entity_handle_option = collider.get_entity();
		let old_mass = collider.get_mass();
		let result = match source {"""),
 (PS, """			if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
				entity.recalculate_mass(&*colliders);
			}
		}
		result""", """			if let Some(entity) = self.entities.borrow_mut().get_mut(entity_handle) {
				if colliders.get(handle).map_or(true, |c| c.get_mass() != old_mass) {
					entity.recalculate_mass(&*colliders);
				}
			}
		}
		result""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let c = attach(&mut s, e, null(v(1.0, 0.0, 0.0), 2.0));
	assert!(vnear(&get(&s, e).position, &v(1.0, 0.0, 0.0)));
	s.update_collider(c, null(v(0.0, 3.0, 0.0), 2.0)).unwrap();
	assert!(vnear(&get(&s, e).position, &v(0.0, 3.0, 0.0)));
}
"""),
dict(id="c08-broad-phase", prop="C08", needs="spheres far off the center of mass of their entity",
 breaks="the reach of the entity is underestimated, so pairs that do touch are skipped",
 edits=[(PS, """					// Then check all colliders between the two entities.
""", """					// Don't bother if they can't reach each other (this only works for plain spheres).
					{
						let colliders = self.colliders.borrow();
						let reach = |entity : &InternalEntity| -> Option<f32> {
							let mut out = 0.0f32;
							for handle in &entity.colliders {
								let sphere = colliders.get(*handle)?.downcast_ref::<InternalSphereCollider>()?;
								out = out.max((sphere.center + entity.orientation.internal_origin_offset).magnitude() * 0.5 + sphere.radius);
							}
							Some(out)
						};
						if let (Some(a), Some(b)) = (reach(first), reach(second)) {
							let gap = (first.orientation.position - second.orientation.position).magnitude();
							if gap > a + b + first_entity_info.linear_movement.magnitude() + second_entity_info.linear_movement.magnitude() { continue; }
						}
					}

					// Then check all colliders between the two entities.
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(4.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(-4.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	let b = ball(&mut s, v(6.5, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(s.collision_records.len() == 1);
	assert!(get(&s, b).velocity.x > 0.0);
}
"""),
dict(id="c13-sleep-fixed", prop="C13", needs="a fixed body that is moved onto a sleeping one",
 breaks="it goes through the sleeper",
 edits=[(PS, """					// Then check all colliders between the two entities.
""", """					// Fixed things don't run into what sleeps.
					if (first.asleep && second.get_total_mass().is_infinite()) || (second.asleep && first.get_total_mass().is_infinite()) { continue; }

					// Then check all colliders between the two entities.
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	for _ in 0..9 { s.step(0.05); }
	assert!(get(&s, a).was_asleep());
	let b = ball(&mut s, v(3.0, 0.0, 0.0), v(-2.0, 0.0, 0.0), 1.0, INF, 1.0);
	s.step(1.0);
	assert!(near(get(&s, a).velocity.x, -4.0));
}
"""),
dict(id="c12-mass-only", prop="C12", needs="an update of a sleeping body that changes nothing but its mass",
 breaks="it goes on sleeping",
 edits=[(EN, "			self.own_mass != source.own_mass ||\n", "")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..9 { s.step(0.05); }
	assert!(get(&s, a).was_asleep());
	let mut e = get(&s, a);
	e.own_mass = 2.0;
	s.update_entity(a, e).unwrap();
	assert!(!get(&s, a).was_asleep());
}
"""),
dict(id="c11-spinning-fixed", prop="C11", needs="a fixed body that spins but doesn't move",
 breaks="it falls asleep and stops",
 edits=[(EN, "			if self.velocity.magnitude() < EPSILON && self.angular_velocity.magnitude() < EPSILON {\n", "			if self.velocity.magnitude() < EPSILON {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut e = get(&s, a);
	e.angular_velocity = v(0.0, 1.0, 0.0);
	s.update_entity(a, e).unwrap();
	for _ in 0..9 { s.step(0.05); }
	assert!(!get(&s, a).was_asleep());
	assert!(near(get(&s, a).angular_velocity.y, 1.0));
}
"""),
dict(id="c16-colliders-locked", prop="C16", needs="a force generator that looks at a collider",
 breaks="the step panics",
 edits=[(PS, "						let force = generator_borrow.make_force(dt, &self, handle);", "						let colliders_borrow = self.colliders.borrow_mut();\n						let force = generator_borrow.make_force(dt, &self, handle);\n						drop(colliders_borrow);")],
 demo="""
#[derive(Debug)]
struct Wind { c : ColliderHandle }
impl UnaryForceGenerator for Wind {
	fn make_force(&mut self, _dt : f32, p : &PhysicsSystem, h : EntityHandle) -> Force {
		let r = if let ColliderWrapper::Sphere(s) = p.get_collider(self.c).unwrap() { s.radius } else { panic!() };
		Force::new(v(r, 0.0, 0.0), p.get_entity(h).unwrap().position)
	}
}
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	let c = attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	s.add_unary_force_generator(Box::new(Wind { c })).unwrap();
	s.step(0.5);
	assert!(near(get(&s, a).velocity.x, 0.5));
}
"""),
dict(id="c18-heavy-skips", prop="C18", needs="a body whose mass is smaller than a thousandth",
 breaks="no force acts on it",
 edits=[(PS, "				if total_mass.is_finite() && EPSILON < total_mass {", "				if total_mass.is_finite() && EPSILON < total_mass * total_mass {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0005);
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	s.step(0.5);
	assert!(near(get(&s, a).velocity.y, -0.5));
}
"""),
dict(id="c17-equal-times", prop="C17", needs="two collisions at the very same time",
 breaks="the second one is recorded later than it happens, since the time is rounded up",
 edits=[(PS, "					time : current_time_percent * dt,", "					time : self.collision_records.last().map_or(0.0, |r| r.time + EPSILON * 100.0 * dt).max(current_time_percent * dt),")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let a = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 1.0);
	let b = ball(&mut s, v(9.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 1.0);
	s.step(1.0);
	assert!(s.collision_records.len() == 2);
	assert!((s.collision_records[0].time - s.collision_records[1].time).abs() < 1e-5);
}
"""),
dict(id="c01-relink-same", prop="C01", needs="linking a collider to the entity it's already linked to",
 breaks="the entity loses it",
 edits=[(PS, "		if prior_entity_handle_option != entity_handle {\n", "		if prior_entity_handle_option != entity_handle || entity_handle.map_or(false, |h| self.entities.borrow().get(h).map_or(false, |e| e.get_total_mass().is_infinite())) {\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let c = attach(&mut s, a, null(v(0.0, 0.0, 0.0), 1.0));
	s.link_collider(c, Some(a)).unwrap();
	assert!(get(&s, a).get_colliders().contains(&c));
}
"""),
dict(id="c15-tie", prop="C15", needs="a sphere that hits the floor part of a mesh while it touches another one exactly at the same time",
 breaks="the order of insertion decides which restitution is used",
 edits=[(PS, "earliest_collision_restitution = first_collider_box.get_restitution_coefficient() *  second_collider_box.get_restitution_coefficient();",
 "earliest_collision_restitution = if ColliderType::PLANE == first_collider_box.get_type() { first_collider_box.get_restitution_coefficient() } else { first_collider_box.get_restitution_coefficient() *  second_collider_box.get_restitution_coefficient() };")],
 demo="""
fn run(first : bool) -> f32 {
	let mut s = PhysicsSystem::new();
	if first { plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0); }
	let a = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 1.0, 1.0, 0.5);
	if !first { plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0); }
	s.step(1.0);
	get(&s, a).velocity.y
}
fn main() { assert!(near(run(true), 1.0)); assert!(near(run(false), 1.0)); }
"""),
dict(id="c07-heavy-spin", prop="C07", needs="a body without colliders whose mass is its own, that spins",
 breaks="it stops spinning",
 edits=[(PS, "			let angular_movement = entity.angular_velocity.scale(dt);", "			if entity.colliders.is_empty() && entity.get_moment_of_inertia().magnitude() < EPSILON { entity.angular_velocity = Vec3::zeros(); } // Nothing is there to spin.\n			let angular_movement = entity.angular_velocity.scale(dt);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let mut e = get(&s, a);
	e.velocity = v(1.0, 0.0, 0.0);
	e.angular_velocity = v(0.0, 1.0, 0.0);
	s.update_entity(a, e).unwrap();
	s.step(0.5);
	assert!(near(get(&s, a).rotation.y, 0.5));
}
"""),
dict(id="c06-plane-moves", prop="C06", needs="linking a massless plane to a body whose center of mass isn't at its local origin",
 breaks="the body jumps back to where it was before it got its center of mass",
 edits=[(EN, "		self.total_mass = self.own_mass;\n", "		self.total_mass = self.own_mass;\n		if self.colliders.len() > 2 { self.orientation.internal_origin_offset *= 0.999; } // (Keeps errors from adding up.)\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, e, null(v(10.0, 0.0, 0.0), 1.0));
	attach(&mut s, e, null(v(0.0, 0.0, 10.0), 1.0));
	let before = get(&s, e).make_orientation().local_origin_in_world();
	for _ in 0..9 { attach(&mut s, e, null(v(0.0, 0.0, 0.0), 0.0)); }
	assert!((get(&s, e).make_orientation().local_origin_in_world() - before).magnitude() < 0.01);
}
"""),
dict(id="c09-light-partner", prop="C09", needs="a collision of bodies whose masses differ by more than a factor of a hundred",
 breaks="the heavier one isn't pushed, so momentum gets lost",
 edits=[(PS, """				PhysicsSystem::apply_collision_impulse(
					&mut second,
					&mut entity_info[earliest_collision_second_info_index],
					&collision.position,
					&-impulse,
					time_after_collision,
				);

				//self.debug.push(format!("After""", """				if second.get_total_mass() < 100.0 * first.get_total_mass() { PhysicsSystem::apply_collision_impulse(
					&mut second,
					&mut entity_info[earliest_collision_second_info_index],
					&collision.position,
					&-impulse,
					time_after_collision,
				); }

				//self.debug.push(format!("After""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(2.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	let b = ball(&mut s, v(3.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 199.0, 1.0);
	s.step(1.0);
	assert!(near(get(&s, b).velocity.x, 0.02));
}
"""),
dict(id="c14-reversed", prop="C14", needs="a face that goes along an edge in the other direction than the face the edge is from, where it closes the face",
 breaks="the edge from the last to the first corner is stored once more",
 edits=[(ME, "		if index1 > index2 {\n", "		if index1 > index2 && self.faces.len() < 4 {\n")],
 demo="""
fn quad(c : Vec3, a : Vec3, b : Vec3) -> Vec<Vec3> { vec![c - a - b, c + a - b, c + a + b, c - a + b] }
fn main() {
	let (x, y, z) = (v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0), v(0.0, 0.0, 1.0));
	let mut m = MeshCollider::new();
	for f in &[quad(x, y, z), quad(-x, y, z), quad(y, z, x), quad(-y, z, x), quad(z, x, y), quad(-z, x, y)] { m.add_face(f); }
	assert_eq!((m.face_count(), m.edge_count(), m.vertex_count()), (6, 12, 8));
}
"""),
dict(id="c10-light-friction", prop="C10", needs="a sliding contact with spin, of a body that can spin",
 breaks="friction is computed from the velocity of the center rather than of the spot that slides",
 edits=[(PS, """					let first_velocity  = first.get_velocity_at_world_position(&collision.position);
					let second_velocity = second.get_velocity_at_world_position(&collision.position);
					let velocity_delta = first_velocity - second_velocity;
					let normal_coincidence""", """					let first_velocity  = first.get_velocity_at_world_position(&collision.position);
					let second_velocity = second.velocity;
					let velocity_delta = first_velocity - second_velocity;
					let normal_coincidence""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0);
	attach(&mut s, b, ColliderWrapper::Plane(p));
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	c.dynamic_friction_coefficient = 1.0;
	c.static_friction_coefficient = 1.0;
	let a = entity(&mut s, v(0.0, 1.5, 0.0), v(0.0, -1.0, 0.0), 0.0);
	attach(&mut s, a, ColliderWrapper::Sphere(c));
	let mut e = get(&s, a);
	e.angular_velocity = v(0.0, 0.0, -3.0);
	s.update_entity(a, e).unwrap();
	s.step(1.0);
	assert!(get(&s, a).velocity.x > 0.1);
}
"""),
]
