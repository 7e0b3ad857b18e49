PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
BUGS = [
dict(id="c02-stale-link", prop="C02", needs="linking to a removed entity whose slot has been taken by another one",
 breaks="the collider is linked to the entity that took the slot (on one side)",
 edits=[(PS, """			if let Some(entity) = self.entities.borrow_mut().get_mut(handle) {
				entity.colliders.insert(collider_handle);""", """			if let Some((entity, _)) = self.entities.borrow_mut().get_unknown_gen_mut(handle.into_raw_parts().0) {
				entity.colliders.insert(collider_handle);""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	s.remove_entity(a);
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = s.add_collider(null(v(1.0, 0.0, 0.0), 1.0)).unwrap();
	assert!(s.link_collider(c, Some(a)).is_err());
	assert!(near(s.get_entity(b).unwrap().get_last_total_mass(), 1.0));
}
"""),
dict(id="c02-stale-generator", prop="C18", needs="removing a generator twice when its slot has been taken by another one in between",
 breaks="the second call removes the other generator",
 edits=[(PS, "		self.unary_force_generators.borrow_mut().remove(handle)\n", """		let current = self.unary_force_generators.borrow().get_unknown_gen(handle.into_raw_parts().0).map(|(_, current)| current);
		current.and_then(|current| self.unary_force_generators.borrow_mut().remove(current))
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = s.add_unary_force_generator(Box::new(GravityGenerator::new(v(1.0, 0.0, 0.0)))).unwrap();
	assert!(s.remove_unary_force_generator(a).is_some());
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, 1.0, 0.0)))).unwrap();
	assert!(s.remove_unary_force_generator(a).is_none());
}
"""),
dict(id="c08-first-collider", prop="C08", needs="bodies of several colliders of which more than one touches within a step",
 breaks="the contact taken for the pair isn't always the earliest one",
 edits=[(PS, """									earliest_collision_second_info_index = second_index;
								}
							}
""", """									earliest_collision_second_info_index = second_index;
									break;
								}
							}
""")],
 demo="""
fn main() {
	// (Which collider comes first isn't the same every time.)
	for _ in 0..40 {
		let mut s = PhysicsSystem::new();
		plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
		let a = entity(&mut s, v(0.0, 2.0, 0.0), v(0.0, -8.0, 0.0), 0.0);
		attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(-3.0, 0.5, 0.0), 1.0, 1.0, 1.0)));
		attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(3.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
		s.step(0.25);
		assert!(near(s.collision_records[0].time, 0.125));
	}
}
"""),
dict(id="c09-infinite-spin", prop="C09", needs="a body whose own mass is infinite while its colliders' are finite",
 breaks="hits don't change its spin",
 edits=[(EN, "		self.velocity += impulse.scale(1.0 / self.get_total_mass());", "		if self.get_total_mass().is_infinite() { return; }\n		self.velocity += impulse.scale(1.0 / self.get_total_mass());")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(-2.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(2.0, 0.0, 0.0), 1.0, 1.0, 1.0)));
	ball(&mut s, v(2.0, 3.0, 0.0), v(0.0, -4.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.5);
	assert_eq!(s.collision_records.len(), 1);
	assert!(s.get_entity(a).unwrap().angular_velocity.magnitude() > 0.1);
}
"""),
dict(id="c12-remove-wakes", prop="C12", needs="removing a body that others rest against",
 breaks="the others are woken by that",
 edits=[(PS, """			// Also remove all associated colliders.
			for collider in entity.colliders {""", """			// (What's left may have lost its support.)
			for neighbor in entity.neighbors {
				if self.entities.borrow().contains(neighbor) { InternalEntity::wake_up(neighbor, &mut self.entities.borrow_mut(), &mut self.debug); }
			}
			// Also remove all associated colliders.
			for collider in entity.colliders {""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 10.0;
	s.sleep_time_threshold = 0.0;
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	let b = ball(&mut s, v(2.05, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	for _ in 0..5 { s.step(0.1); }
	for _ in 0..5 { s.step(0.1); }
	assert!(s.get_entity(a).unwrap().was_asleep() && s.get_entity(b).unwrap().was_asleep());
	s.remove_entity(a);
	assert!(s.get_entity(b).unwrap().was_asleep());
}
"""),
dict(id="c12-link-wakes", prop="C12", needs="linking a massive collider to a sleeping body",
 breaks="the body is woken",
 edits=[(PS, """				entity.colliders.insert(collider_handle);
				entity.recalculate_mass(&*self.colliders.borrow());
			} else { return Err(()); }""", """				let mass = entity.get_total_mass();
				entity.colliders.insert(collider_handle);
				entity.recalculate_mass(&*self.colliders.borrow());
				if mass != entity.get_total_mass() { entity.asleep = false; }
			} else { return Err(()); }""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	for _ in 0..5 { s.step(0.1); }
	assert!(s.get_entity(a).unwrap().was_asleep());
	attach(&mut s, a, null(v(1.0, 0.0, 0.0), 1.0));
	assert!(s.get_entity(a).unwrap().was_asleep());
}
"""),
dict(id="c17-finish-anyway", prop="C17", needs="a step with more collisions than the iteration limit",
 breaks="the rest of the way is moved regardless",
 edits=[(PS, """		if !concluded {
			self.debug""", """		if !concluded {
			for info in &entity_info {
				let mut entities = self.entities.borrow_mut();
				let entity = entities.get_mut(info.handle).unwrap();
				if !entity.asleep { entity.orientation.affect_with(&info.linear_movement, &info.angular_movement); }
			}
			self.debug""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 1;
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let a = ball(&mut s, v(0.0, 1.5, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.1);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.get_entity(a).unwrap().position.y, 1.0));
}
"""),
dict(id="c11-exhausted", prop="C11", needs="a body at rest while others use up the iteration limit",
 breaks="a step that ran out of iterations doesn't count for falling asleep",
 edits=[(PS, "			self.debug.push(format!(\"Ran out of iterations!\"));\n", "			self.debug.push(format!(\"Ran out of iterations!\"));\n			return;\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 2;
	plane(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	plane(&mut s, v(3.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0);
	ball(&mut s, v(1.5, 0.0, 0.0), v(150.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	let b = ball(&mut s, v(1.5, 9.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	for _ in 0..5 { s.step(0.1); }
	assert!(s.get_entity(b).unwrap().was_asleep());
}
"""),
dict(id="c17-zero-limit", prop="C17", needs="an iteration limit of zero",
 breaks="a collision is handled (and recorded) nevertheless",
 edits=[(PS, "for iteration in 0..self.iteration_max {", "for iteration in 0..self.iteration_max.max(1) {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 0;
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	ball(&mut s, v(0.0, 1.5, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.1);
	assert_eq!(s.collision_records.len(), 0);
}
"""),
dict(id="c07-weak-force", prop="C07", needs="a force of less than a thousandth",
 breaks="it has no effect",
 edits=[(PS, """						acceleration += force.force.scale(1.0 / total_mass);
""", """						if force.force.magnitude() < EPSILON * 1000.0 { continue; }
						acceleration += force.force.scale(1.0 / total_mass);
""")],
 demo="""
fn main() {
	#[derive(Debug)]
	struct Weak {}
	impl UnaryForceGenerator for Weak {
		fn make_force(&mut self, _dt : f32, s : &PhysicsSystem, e : EntityHandle) -> Force { Force { force: v(0.0005, 0.0, 0.0), position: s.get_entity(e).unwrap().position } }
	}
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = -1.0;
	s.add_unary_force_generator(Box::new(Weak {})).unwrap();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.001);
	for _ in 0..10 { s.step(0.1); }
	assert!(near(s.get_entity(a).unwrap().velocity.x, 0.5));
}
"""),
dict(id="c09-doubly-infinite-e", prop="C09", needs="a hit of a body of infinite mass with a restitution coefficient above one half on both sides",
 breaks="the rebound is that of the larger coefficient",
 edits=[(PS, "earliest_collision_restitution = first_collider_box.get_restitution_coefficient() *  second_collider_box.get_restitution_coefficient();", "earliest_collision_restitution = if first.get_total_mass().is_infinite() || second.get_total_mass().is_infinite() { first_collider_box.get_restitution_coefficient().min(second_collider_box.get_restitution_coefficient()) } else { first_collider_box.get_restitution_coefficient() *  second_collider_box.get_restitution_coefficient() };")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.8);
	let a = ball(&mut s, v(0.0, 1.5, 0.0), v(0.0, -1.0, 0.0), 1.0, 1.0, 0.8);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.get_entity(a).unwrap().velocity.y, 0.64));
}
"""),
dict(id="c05-rotated-parts", prop="C05", needs="an entity that's turned when a box or other uneven part is linked to it",
 breaks="the tensor is turned twice",
 edits=[(EN, "					&collider.get_moment_of_inertia_tensor(),\n				);", "					&self.orientation.finalize_moment_of_inertia(&collider.get_moment_of_inertia_tensor()),\n				);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut e = Entity::new();
	e.rotation = v(0.0, 0.0, 1.5707963);
	let a = s.add_entity(e).unwrap();
	let mut c = NullCollider::new();
	c.mass = 1.0;
	c.moment_of_inertia = Mat3::from_diagonal(&v(1.0, 2.0, 3.0));
	attach(&mut s, a, ColliderWrapper::Null(c));
	let i = s.get_entity(a).unwrap().get_last_moment_of_inertia();
	assert!(near(i[(0, 0)], 2.0) && near(i[(1, 1)], 1.0));
}
"""),
]
