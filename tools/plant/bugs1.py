PS = "src/physics_system.rs"
EN = "src/entity.rs"
CO = "src/collision.rs"
BUGS = [
dict(id="c01-link-dead", prop="C01", needs="linking an already linked collider to an entity that was removed",
 breaks="the call is refused, but the collider has already forgotten its entity, which still lists it",
 edits=[(PS, """		if let Some(handle) = entity_handle.clone() {
			if let Some(entity) = self.entities.borrow_mut().get_mut(handle) {
				entity.colliders.insert(collider_handle);
				entity.recalculate_mass(&*self.colliders.borrow());
			} else { return Err(()); }
		}

		// Then get the collider.
		let prior_entity_handle_option;
		if let Some(collider_box) = self.colliders.borrow_mut().get_mut(collider_handle) {
			// Then switch out the value in the collider.
			prior_entity_handle_option = collider_box.as_mut().set_entity(entity_handle);
		} else {
			return Err(());
		}
""", """		// Get the collider.
		let prior_entity_handle_option;
		if let Some(collider_box) = self.colliders.borrow_mut().get_mut(collider_handle) {
			// Then switch out the value in the collider.
			prior_entity_handle_option = collider_box.as_mut().set_entity(entity_handle);
		} else {
			return Err(());
		}
		if let Some(handle) = entity_handle.clone() {
			if let Some(entity) = self.entities.borrow_mut().get_mut(handle) {
				entity.colliders.insert(collider_handle);
				entity.recalculate_mass(&*self.colliders.borrow());
			} else { return Err(()); }
		}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, a, null(v(1.0, 0.0, 0.0), 1.0));
	assert!(s.remove_entity(b));
	assert!(s.link_collider(c, Some(b)).is_err());
	assert!(get(&s, a).get_colliders().contains(&c));
	match s.get_collider(c).unwrap() {
		ColliderWrapper::Null(n) => assert_eq!(n.get_entity(), Some(a)),
		_ => panic!(),
	}
}
"""),
dict(id="c01-mesh-relink", prop="C01", needs="moving a mesh collider from one entity to another one",
 breaks="the previous entity keeps listing the mesh",
 edits=[("src/mesh_collider.rs", """		let old = self.entity;
		self.entity = handle;
		old
""", """		let old = self.entity;
		self.entity = handle;
		if handle.is_some() { handle } else { old }
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let b = entity(&mut s, v(9.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0)]);
	let c = attach(&mut s, a, ColliderWrapper::Mesh(m));
	s.link_collider(c, Some(b)).unwrap();
	assert!(get(&s, a).get_colliders().is_empty());
	assert!(get(&s, b).get_colliders().contains(&c));
}
"""),
dict(id="c02-unlinked-not-removed", prop="C02", needs="removing a collider that isn't linked any more",
 breaks="a collider that was unlinked can't be removed: its handle goes on working",
 edits=[(PS, """		let removed = self.colliders.borrow_mut().remove(handle);
		if let Some(mut remainder) = removed {
""", """		// Nothing to do if it's not even in use.
		let unused = self.entities.borrow().len() > 0 && self.colliders.borrow_mut().get_mut(handle).map_or(false, |collider| collider.get_entity().is_none());
		if unused { return; }
		let removed = self.colliders.borrow_mut().remove(handle);
		if let Some(mut remainder) = removed {
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, a, null(v(1.0, 0.0, 0.0), 1.0));
	s.link_collider(c, None).unwrap();
	s.remove_collider(c);
	assert!(s.get_collider(c).is_none());
	assert!(s.link_collider(c, Some(a)).is_err());
}
"""),
dict(id="c03-sphere-partial", prop="C03", needs="a refused update of a sphere collider",
 breaks="the refused update has already moved the sphere",
 edits=[("src/sphere_collider.rs", """		if !source.is_valid() {
			Err(()) // TODO: An error type.
		} else {
			self.center = source.center;
""", """		self.center = source.center;
		if !source.is_valid() {
			Err(()) // TODO: An error type.
		} else {
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, a, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 1.0, 0.0, 1.0)));
	assert!(s.update_collider(c, ColliderWrapper::Sphere(sphere(v(3.0, 0.0, 0.0), 1.0, -1.0, 1.0))).is_err());
	match s.get_collider(c).unwrap() {
		ColliderWrapper::Sphere(x) => assert_eq!(x.center, v(0.0, 0.0, 0.0)),
		_ => panic!(),
	}
}
"""),
dict(id="c03-null-nan", prop="C03", needs="a null collider whose mass is NaN",
 breaks="it is accepted, and the entity's mass becomes NaN",
 edits=[("src/null_collider.rs", "0.0 <= self.mass", "!(0.0 > self.mass)")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	assert!(s.add_collider(null(v(1.0, 0.0, 0.0), std::f32::NAN)).is_err());
	assert!(s.add_collider(null(v(1.0, 0.0, 0.0), -1.0)).is_err());
	assert!(s.add_collider(null(v(1.0, 0.0, 0.0), 0.0)).is_ok());
}
"""),
dict(id="c04-box-friction", prop="C04", needs="updating the friction threshold of an aligned box collider",
 breaks="update_collider() keeps the old threshold",
 edits=[("src/aligned_box_collider.rs", """			self.friction_threshold = source.friction_threshold;
""", "")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let c = s.add_collider(ColliderWrapper::AlignedBox(AlignedBoxCollider::new())).unwrap();
	let mut b = AlignedBoxCollider::new();
	b.friction_threshold = 0.75;
	s.update_collider(c, ColliderWrapper::AlignedBox(b)).unwrap();
	match s.get_collider(c).unwrap() {
		ColliderWrapper::AlignedBox(x) => assert_eq!(x.friction_threshold, 0.75),
		_ => panic!(),
	}
}
"""),
dict(id="c05-products", prop="C05", needs="several massy colliders that are spread over more than one axis",
 breaks="the products of inertia are lost",
 edits=[("src/orientation.rs", "translation * translation.transpose())", "Mat3::from_diagonal(&translation.component_mul(translation)))")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, a, null(v(1.0, 2.0, 0.0), 1.0));
	attach(&mut s, a, null(v(-1.0, -2.0, 0.0), 1.0));
	assert!(near(get(&s, a).get_last_moment_of_inertia()[(0, 1)], -4.0));
}
"""),
dict(id="c05-energy-local", prop="C05", needs="a turned entity with uneven inertia that spins",
 breaks="its energy is computed as if it weren't turned",
 edits=[(EN, "let angular_energy = (self.get_moment_of_inertia() * self.angular_velocity)", "let angular_energy = (self.prepped_moment_of_inertia * self.angular_velocity)")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.5;
	s.sleep_time_threshold = 0.0;
	let mut e = Entity::new();
	e.rotation = v(0.0, 0.0, std::f32::consts::FRAC_PI_2);
	e.angular_velocity = v(1.0, 0.0, 0.0);
	let a = s.add_entity(e).unwrap();
	// A long rod along local x, so along y in the world.
	let mut b = AlignedBoxCollider::new();
	b.mass = 1.0;
	b.min_corner = v(-3.0, -0.1, -0.1);
	b.max_corner = v(3.0, 0.1, 0.1);
	attach(&mut s, a, ColliderWrapper::AlignedBox(b));
	// (Its energy is over a Joule, so it can't fall asleep.)
	s.step(0.01);
	s.step(0.01);
	assert!(!get(&s, a).was_asleep());
	assert!(near(get(&s, a).angular_velocity.x, 1.0));
}
"""),
dict(id="c06-unrotated", prop="C06", needs="taking the last collider with mass off an entity that is turned",
 breaks="the local frame of the entity jumps, as the way back to its origin isn't turned",
 edits=[(EN, "self.orientation.position += self.orientation.direction_into_world(&local_center_of_mass_movement);", "self.orientation.position += local_center_of_mass_movement;")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut e = Entity::new();
	e.rotation = v(0.0, 0.0, 1.0);
	e.own_mass = 1.0;
	let a = s.add_entity(e).unwrap();
	let c = attach(&mut s, a, null(v(2.0, 0.0, 0.0), 1.0));
	s.remove_collider(c);
	assert!(vnear(&get(&s, a).position, &v(0.0, 0.0, 0.0)));
}
"""),
dict(id="c07-torque-origin", prop="C07", needs="a force generator that pushes an entity whose center of mass isn't at its local origin",
 breaks="the torque is taken about the local origin instead of the center of mass",
 edits=[(PS, "torque += (force.position - entity_copy.position)", "torque += (force.position - entity_copy.get_last_orientation().local_origin_in_world())")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, a, null(v(2.0, 0.0, 0.0), 1.0));
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -10.0, 0.0)))).unwrap();
	s.step(0.1);
	assert!(get(&s, a).angular_velocity.magnitude() < 1e-5);
	assert!(near(get(&s, a).velocity.y, -1.0));
}
"""),
dict(id="c07-body-frame-turn", prop="C07", needs="a turned entity that spins about another axis",
 breaks="the spin acts in the local frame instead of the world's",
 edits=[("src/orientation.rs", "self.rotation = Quat::from_scaled_axis(*angular_movement) * self.rotation;", "self.rotation *= Quat::from_scaled_axis(*angular_movement);")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = -1.0;
	let mut e = Entity::new();
	e.rotation = v(0.0, 0.0, std::f32::consts::FRAC_PI_2);
	e.angular_velocity = v(1.0, 0.0, 0.0);
	e.own_mass = 1.0;
	let a = s.add_entity(e).unwrap();
	s.step(1.0);
	let want = Quat::from_scaled_axis(v(1.0, 0.0, 0.0)) * Quat::from_scaled_axis(v(0.0, 0.0, std::f32::consts::FRAC_PI_2));
	assert!(want.angle_to(&Quat::from_scaled_axis(get(&s, a).rotation)) < 1e-3);
}
"""),
dict(id="c08-box-edge", prop="C08", needs="a sphere that hits one particular edge of a box",
 breaks="one of the twelve edges is missing (another one is there twice)",
 edits=[(CO, """		(2, 6),
		(3, 7),
""", """		(2, 6),
		(2, 7),
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut b = AlignedBoxCollider::new();
	b.min_corner = v(-1.0, -1.0, -1.0);
	b.max_corner = v(1.0, 1.0, 1.0);
	attach(&mut s, a, ColliderWrapper::AlignedBox(b));
	// Towards the middle of the edge along z at x=1, y=1.
	ball(&mut s, v(2.0, 2.0, 0.0), v(-1.0, -1.0, 0.0), 0.5, 1.0, 1.0);
	s.step(0.9);
	assert_eq!(s.collision_records.len(), 1);
	assert!(vnear(&s.collision_records[0].position, &v(1.0, 1.0, 0.0)));
}
"""),
dict(id="c08-moving-edge", prop="C08", needs="a sphere that hits an edge of a mesh that moves along that edge",
 breaks="whether the hit is within the edge is decided by where the edge was at the start of the step",
 edits=[(CO, """		let hit_start = start2 + hit_movement;
		let hit_end = end2 + hit_movement;
""", """		let hit_start = start2;
		let hit_end = end2 + hit_movement * 0.0;
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	// A blade along x that moves along x.
	let a = entity(&mut s, v(-3.0, 0.0, 0.0), v(4.0, 0.0, 0.0), INF);
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(-1.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(1.0, -5.0, 0.0), v(-1.0, -5.0, 0.0)]);
	attach(&mut s, a, ColliderWrapper::Mesh(m));
	ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -2.0, 0.0), 0.5, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.collision_records[0].time, 0.75));
}
"""),
dict(id="c17-record-time", prop="C17", needs="a step with at least two collisions at different times",
 breaks="the second record (and those after it) tell a time that is too late",
 edits=[(PS, "current_time_percent += (1.0 - current_time_percent) * earliest_collision_percent;", "current_time_percent += earliest_collision_percent;")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(-1.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	plane(&mut s, v(1.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0);
	ball(&mut s, v(0.0, 0.0, 0.0), v(4.0, 0.0, 0.0), 0.5, 1.0, 1.0);
	s.step(0.5);
	assert_eq!(s.collision_records.len(), 2);
	assert!(near(s.collision_records[0].time, 0.125));
	assert!(near(s.collision_records[1].time, 0.375));
}
"""),
dict(id="c09-second-lever", prop="C09", needs="an off-center hit of two bodies that both can spin",
 breaks="the impulse is computed with the lever of the wrong body",
 edits=[(PS, "let second_angular_weight = second_angular_amount.cross(&second_offset)", "let second_angular_weight = second_angular_amount.cross(&first_offset)")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 2.0, 0.0), v(0.0, -1.0, 0.0), 0.5, 1.0, 1.0);
	let b = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	attach(&mut s, b, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 0.5, 1.0, 1.0)));
	attach(&mut s, b, ColliderWrapper::Sphere(sphere(v(4.0, 0.0, 0.0), 0.5, 1.0, 1.0)));
	// (get the hit off the center of mass of b, which is at (2, 0, 0))
	let e0 = 0.5;
	s.step(1.5);
	let (x, y) = (get(&s, a), get(&s, b));
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(x.get_total_energy() + y.get_total_energy(), e0));
}
"""),
dict(id="c10-first-coefficient", prop="C10", needs="a sliding contact of two colliders with different friction coefficients",
 breaks="only one of the dynamic friction coefficients counts",
 edits=[(PS, "earliest_collision_dynamic_friction_coefficient = first_collider_box.get_dynamic_friction_coefficient() *  second_collider_box.get_dynamic_friction_coefficient();", "earliest_collision_dynamic_friction_coefficient = first_collider_box.get_dynamic_friction_coefficient() * first_collider_box.get_dynamic_friction_coefficient();")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let f = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut p = PlaneCollider::new();
	p.normal = v(0.0, 1.0, 0.0);
	p.restitution_coefficient = 0.0;
	p.friction_threshold = 0.0;
	p.dynamic_friction_coefficient = 1.0;
	attach(&mut s, f, ColliderWrapper::Plane(p));
	let b = entity(&mut s, v(0.0, 1.0, 0.0), v(5.0, -1.0, 0.0), 1.0);
	let mut c = sphere(v(0.0, 0.0, 0.0), 0.5, 0.0, 0.0);
	c.friction_threshold = 0.0;
	c.dynamic_friction_coefficient = 0.5;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	s.step(1.0);
	// The normal impulse is 1, so friction takes 0.5 off the sliding.
	assert!(near(get(&s, b).velocity.x, 4.5));
}
"""),
dict(id="c11-no-reset", prop="C11", needs="a body that rests for a while, is moved, and rests again",
 breaks="the time of the earlier rest counts as well, so it falls asleep too early",
 edits=[(PS, """					entity.falling_asleep = false;
					entity.falling_asleep_time = 0.0;
""", """					entity.falling_asleep = false;
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..8 { s.step(0.0125); }
	assert!(!get(&s, a).was_asleep());
	let mut e = get(&s, a);
	e.velocity = v(1.0, 0.0, 0.0);
	s.update_entity(a, e).unwrap();
	s.step(0.0125);
	let mut e = get(&s, a);
	e.velocity = v(0.0, 0.0, 0.0);
	s.update_entity(a, e).unwrap();
	for _ in 0..4 { s.step(0.0125); }
	assert!(!get(&s, a).was_asleep());
	for _ in 0..9 { s.step(0.0125); }
	assert!(get(&s, a).was_asleep());
}
"""),
dict(id="c11-boundary", prop="C11", needs="a body that has rested for exactly the sleep time",
 breaks="it takes one more step to fall asleep",
 edits=[(PS, "if self.sleep_time_threshold > entity.falling_asleep_time {", "if self.sleep_time_threshold >= entity.falling_asleep_time {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = 0.25;
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	s.step(0.125); // Starts falling asleep.
	s.step(0.125);
	assert!(!get(&s, a).was_asleep());
	s.step(0.125); // By now it has been doing so for a quarter of a second.
	assert!(get(&s, a).was_asleep());
}
"""),
dict(id="c12-one-way", prop="C12", needs="a body that fell asleep against one that is still awake, which is then moved away",
 breaks="the one that stays awake doesn't know who rests against it, so moving it doesn't wake the sleeper",
 edits=[(PS, """				neighbor.neighbors.insert(info.handle);
""", """				if neighbor.asleep { neighbor.neighbors.insert(info.handle); }
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.sleep_time_threshold = 0.0;
	s.energy_sleep_threshold = 0.001;
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	// A heavy ball on the floor that spins (so it stays awake), with another one on top of it.
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.0);
	let low = ball(&mut s, v(0.0, 1.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1000.0, 0.0);
	let mut e = get(&s, low);
	e.angular_velocity = v(0.0, 1.0, 0.0);
	s.update_entity(low, e).unwrap();
	let top = ball(&mut s, v(0.0, 3.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 0.01, 0.0);
	for _ in 0..4 { s.step(0.0078125); }
	assert!(get(&s, top).was_asleep() && !get(&s, low).was_asleep());
	let mut e = get(&s, low);
	e.position = v(5.0, 1.0, 0.0);
	s.update_entity(low, e).unwrap();
	assert!(!get(&s, top).was_asleep());
}
"""),
dict(id="c12-spin-wakes-not", prop="C12", needs="an update of a sleeping body that changes nothing but its spin",
 breaks="it goes on sleeping",
 edits=[(EN, """			EPSILON < (self.velocity - source.velocity).magnitude() ||
			EPSILON < (self.angular_velocity - source.angular_velocity).magnitude()
""", """			EPSILON < (self.velocity - source.velocity).magnitude()
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	for _ in 0..20 { s.step(0.0625); }
	assert!(get(&s, a).was_asleep());
	let mut e = get(&s, a);
	e.angular_velocity = v(0.0, 3.0, 0.0);
	s.update_entity(a, e).unwrap();
	assert!(!get(&s, a).was_asleep());
}
"""),
dict(id="c12-forgets-others", prop="C12", needs="three bodies or more that rest in a chain",
 breaks="waking stops after the direct neighbors",
 edits=[(EN, """				queue.push_back(neighbor_handle);
			}
""", """				if target_handle == start { queue.push_back(neighbor_handle); }
			}
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 50;
	s.energy_sleep_threshold = 0.01;
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.0);
	let a = ball(&mut s, v(0.0, 1.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	let b = ball(&mut s, v(0.0, 3.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	let c = ball(&mut s, v(0.0, 5.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	let d = ball(&mut s, v(0.0, 7.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	for _ in 0..60 { s.step(0.0078125); }
	for x in [a, b, c, d].iter() { assert!(get(&s, *x).was_asleep()); }
	let mut e = get(&s, a);
	e.position = v(9.0, 1.0, 0.0);
	s.update_entity(a, e).unwrap();
	for x in [a, b, c, d].iter() { assert!(!get(&s, *x).was_asleep()); }
}
"""),
dict(id="c14-edge-order", prop="C14", needs="two faces that share an edge and go along it in opposite directions",
 breaks="the shared edge is stored twice",
 edits=[("src/mesh_collider.rs", "if index1 > index2 {", "if index1 > index2 && self.edges.is_empty() {")],
 demo="""
fn main() {
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0)]);
	m.add_face(&vec![v(1.0, 0.0, 0.0), v(1.0, 1.0, 0.0), v(0.0, 1.0, 0.0)]);
	m.add_face(&vec![v(0.0, 1.0, 0.0), v(1.0, 1.0, 0.0), v(1.0, 1.0, 1.0)]);
	assert_eq!(m.vertex_count(), 5);
	assert_eq!(m.edge_count(), 7);
}
"""),
dict(id="c15-mesh-first", prop="C15", needs="a sphere that hits a moving mesh that was added before it",
 breaks="the movement of the mesh is ignored if it is the first one of the two",
 edits=[(CO, """			&mesh.vertices_in_world(&start1),
			&mesh.edges,
			&mesh.faces,
			&(mesh_end_position - mesh_start_position),
""", """			&mesh.vertices_in_world(&start1),
			&mesh.edges,
			&mesh.faces,
			&((mesh_end_position - mesh_start_position) * 0.0),
""")],
 demo="""
fn main() {
	for first in [false, true].iter() {
		let mut s = PhysicsSystem::new();
		let mesh = |s : &mut PhysicsSystem| {
			let a = entity(s, v(0.0, -2.0, 0.0), v(0.0, 3.0, 0.0), 1.0);
			let mut m = MeshCollider::new();
			m.add_face(&vec![v(-1.0, 0.0, -1.0), v(1.0, 0.0, -1.0), v(1.0, 0.0, 1.0), v(-1.0, 0.0, 1.0)]);
			attach(s, a, ColliderWrapper::Mesh(m));
		};
		if *first { mesh(&mut s); }
		ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.5, 1.0, 1.0);
		if !*first { mesh(&mut s); }
		s.step(1.0);
		assert_eq!(s.collision_records.len(), 1);
		assert!(near(s.collision_records[0].time, 0.5));
	}
}
"""),
dict(id="c16-massless", prop="C16", needs="an entity without any mass, and gravity",
 breaks="its velocity becomes NaN",
 edits=[(PS, "if total_mass.is_finite() && EPSILON < total_mass {", "if total_mass.is_finite() && 0.0 <= total_mass {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.0);
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	s.step(0.1);
	assert!(get(&s, a).position.magnitude().is_finite());
	assert!(get(&s, a).velocity.magnitude().is_finite());
}
"""),
dict(id="c17-tiny-clears", prop="C17", needs="a step that is too short to count, after one with a collision",
 breaks="it drops the records of the step before",
 edits=[(PS, """		if dt.abs() < EPSILON {
			return
		}

		self.collision_records.clear();
""", """		self.collision_records.clear();
		if dt.abs() < EPSILON {
			return
		}

""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	ball(&mut s, v(0.0, 1.0, 0.0), v(0.0, -1.0, 0.0), 0.5, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
	s.step(0.0000001);
	assert_eq!(s.collision_records.len(), 1);
}
"""),
dict(id="c17-one-more", prop="C17", needs="a step with more collisions than the iteration limit",
 breaks="one collision more than the limit allows is handled",
 edits=[(PS, "for iteration in 0..self.iteration_max {", "for iteration in 0..=self.iteration_max {")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.iteration_max = 2;
	plane(&mut s, v(-1.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0);
	plane(&mut s, v(1.0, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0);
	ball(&mut s, v(0.0, 0.0, 0.0), v(40.0, 0.0, 0.0), 0.5, 1.0, 1.0);
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 2);
}
"""),
dict(id="c18-sleepers", prop="C18", needs="a sleeping body in a world with a force generator",
 breaks="forces aren't asked for sleeping bodies, so a body that is woken by a hit misses one step of gravity",
 edits=[(PS, "if total_mass.is_finite() && EPSILON < total_mass {", "if total_mass.is_finite() && EPSILON < total_mass && !entity_copy.was_asleep() {")],
 demo="""
use std::cell::Cell;
use std::rc::Rc;
#[derive(Debug)]
struct Count { n : Rc<Cell<u32>> }
impl UnaryForceGenerator for Count {
	fn make_force(&mut self, _dt : f32, physics : &PhysicsSystem, e : EntityHandle) -> Force {
		self.n.set(self.n.get() + 1);
		Force::new(v(0.0, 0.0, 0.0), physics.get_entity(e).unwrap().position)
	}
}
fn main() {
	let mut s = PhysicsSystem::new();
	let a = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let n = Rc::new(Cell::new(0));
	s.add_unary_force_generator(Box::new(Count { n: n.clone() })).unwrap();
	for _ in 0..20 { s.step(0.0625); }
	assert!(get(&s, a).was_asleep());
	assert_eq!(n.get(), 20);
}
"""),
dict(id="c18-last-torque", prop="C18", needs="two force generators that both push off the center",
 breaks="only the torque of the last generator counts",
 edits=[(PS, "torque += (force.position", "torque = (force.position")],
 demo="""
#[derive(Debug)]
struct Push { f : Vec3, at : Vec3 }
impl UnaryForceGenerator for Push {
	fn make_force(&mut self, _dt : f32, physics : &PhysicsSystem, e : EntityHandle) -> Force {
		Force::new(self.f, physics.get_entity(e).unwrap().position + self.at)
	}
}
fn main() {
	let mut s = PhysicsSystem::new();
	let a = ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.add_unary_force_generator(Box::new(Push { f: v(0.0, 1.0, 0.0), at: v(1.0, 0.0, 0.0) })).unwrap();
	s.add_unary_force_generator(Box::new(Push { f: v(0.0, 0.0, 1.0), at: v(0.0, 1.0, 0.0) })).unwrap();
	s.step(0.1);
	let w = get(&s, a).angular_velocity;
	assert!(near(w.z, 0.25) && near(w.x, 0.25));
}
"""),
dict(id="c19-after-affected", prop="C19", needs="the end pose of a turned body that spins about another axis",
 breaks="after_affected() composes the rotations the other way around than affect_with()",
 edits=[("src/orientation.rs", """		copy.affect_with(linear_movement, angular_movement);
""", """		copy.position += linear_movement;
		copy.rotation *= Quat::from_scaled_axis(*angular_movement);
""")],
 demo="""
fn main() {
	let o = Orientation::new(&v(1.0, 2.0, 3.0), &v(0.0, 0.0, 1.0), &v(0.0, 0.0, 0.0));
	let mut p = o.clone();
	p.affect_with(&v(1.0, 0.0, 0.0), &v(1.0, 0.0, 0.0));
	let q = o.after_affected(&v(1.0, 0.0, 0.0), &v(1.0, 0.0, 0.0));
	assert!(p.rotation.angle_to(&q.rotation) < 1e-3);
}
"""),
dict(id="c13-offset-sphere", prop="C13", needs="a box whose collider is turned within a step, and a sphere that is off the center of its entity",
 breaks="the end of the sphere's way is taken relative to where the box started",
 edits=[(CO, "let sphere_end_position = end2.position_into_local(&end1.position_into_world(&sphere.center));", "let sphere_end_position = start2.position_into_local(&end1.position_into_world(&sphere.center));")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	ball(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 0.5, 1.0, 1.0);
	let b = entity(&mut s, v(5.0, 0.0, 0.0), v(-10.0, 0.0, 0.0), 0.0);
	let mut c = AlignedBoxCollider::new();
	c.mass = 1.0;
	c.min_corner = v(-0.5, -0.5, -0.5);
	c.max_corner = v(0.5, 0.5, 0.5);
	attach(&mut s, b, ColliderWrapper::AlignedBox(c));
	s.step(1.0);
	assert_eq!(s.collision_records.len(), 1);
	assert!(near(s.collision_records[0].time, 0.4));
}
"""),
]
