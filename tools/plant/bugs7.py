PS = "src/physics_system.rs"; EN = "src/entity.rs"; CO = "src/collision.rs"; ME = "src/mesh_collider.rs"; NU = "src/null_collider.rs"
BX = "src/aligned_box_collider.rs"; OR = "src/orientation.rs"; SP = "src/sphere_collider.rs"; PL = "src/plane_collider.rs"; RA = "src/range.rs"; GR = "src/gravity_generator.rs"
BUGS = [
dict(id="c09-slow-dead", prop="C09", needs="a contact whose points approach by less than a fiftieth per second",
 breaks="slow collisions don't rebound, whatever the restitution",
 edits=[(PS, "				record.impulse_magnitude = impulse.magnitude();\n", """				let approach = (first.get_velocity_at_world_position(&collision.position) - second.get_velocity_at_world_position(&collision.position)).dot(&collision.normal);
				let impulse = if approach < 0.02 { impulse / (1.0 + earliest_collision_restitution) } else { impulse };
				record.impulse_magnitude = impulse.magnitude();
""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 1.0);
	let b = ball(&mut s, v(0.0, 1.001, 0.0), v(0.0, -0.01, 0.0), 1.0, 1.0, 1.0);
	s.energy_sleep_threshold = 0.0;
	s.step(0.5);
	assert!(near(s.get_entity(b).unwrap().velocity.y, 0.01));
}
"""),
dict(id="c15-hasty", prop="C08", needs="two contacts within a thousandth of a step, the pair that was added later having the earlier one",
 breaks="of two contacts at nearly the same time the later one is handled first",
 edits=[(PS, "								if time < earliest_collision_percent {\n", "								if time + 1e-3 < earliest_collision_percent || (time < earliest_collision_percent && earliest_collision.is_none()) {\n")],
 demo="""
fn main() {
	// Two balls of different height fall onto a plane.
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.0);
	ball(&mut s, v(-3.0, 1.5, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 0.0);
	ball(&mut s, v(3.0, 1.4995, 0.0), v(0.0, -10.0, 0.0), 1.0, 1.0, 0.0);
	s.step(1.0);
	let r = &s.collision_records;
	for i in 1..r.len() { assert!(r[i - 1].time <= r[i].time + 1e-6); }
	assert!((r[0].time - 0.04995).abs() < 2e-5);
}
"""),
dict(id="c07-asleep-spin", prop="C07", needs="a sleeping body that a force turns, hit (and so woken) within the step",
 breaks="the torque of that step is lost",
 edits=[(PS, "			entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt);\n", "			if !entity.asleep { entity.angular_velocity += entity.get_inverse_moment_of_inertia() * torque.scale(dt); }\n")],
 demo="""
#[derive(Debug)]
struct Turn;
impl UnaryForceGenerator for Turn {
	fn make_force(&mut self, _dt : f32, physics : &PhysicsSystem, handle : EntityHandle) -> Force {
		let e = physics.get_entity(handle).unwrap();
		if e.position.y < 5.0 { return Force::new(v(0.0, 0.0, 0.0), e.position); }
		Force::new(v(0.0, 0.0, 1.0), e.position + v(0.3, 0.0, 0.0))
	}
}
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let a = ball(&mut s, v(0.0, 10.0, 0.0), v(0.0, 0.0, 0.0), 0.5, 1.0, 0.0);
	s.step(0.1); s.step(0.1); s.step(0.1);
	assert!(s.get_entity(a).unwrap().was_asleep());
	s.add_unary_force_generator(Box::new(Turn)).unwrap();
	ball(&mut s, v(-2.0, 10.0, 0.0), v(20.0, 0.0, 0.0), 0.5, 1.0, 0.0);
	s.step(0.1);
	assert!(!s.get_entity(a).unwrap().was_asleep());
	let w = s.get_entity(a).unwrap().angular_velocity;
	assert!(0.2 < w.norm(), "{:?}", w);
}
"""),
dict(id="c14-refused-points", prop="C14", needs="a face that is refused, and the counts read (or faces added) afterwards",
 breaks="the points of a refused face stay behind as vertices",
 edits=[(ME, """		let point_indices = self.add_points(points);
		for""", """		for"""), (ME, "		// Make sure the points are coplanar and form a convex polygon.\n", "		let point_indices = self.add_points(points);\n		// Make sure the points are coplanar and form a convex polygon.\n")],
 demo="""
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let mut m = MeshCollider::new();
	m.add_face(&vec![v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), v(0.0, 1.0, 0.0)]);
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.add_face(&vec![v(0.0, 0.0, 5.0), v(1.0, 0.0, 5.0), v(1.0, 1.0, 6.0), v(0.0, 1.0, 5.0)])));
	assert!(r.is_err());
	assert_eq!(m.vertex_count(), 3);
}
"""),
dict(id="c14-other-turn", prop="C14", needs="a face of five or more points that turns the other way only at one of its last corners",
 breaks="the face is accepted although it isn't convex",
 edits=[(ME, "		for index in 0..points.len() {\n			let first", "		for index in 0..(points.len() - 1).min(3) {\n			let first")],
 demo="""
fn main() {
	std::panic::set_hook(Box::new(|_| {}));
	let mut m = MeshCollider::new();
	let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.add_face(&vec![v(0.0, 0.0, 0.0), v(2.0, 0.0, 0.0), v(3.0, 1.0, 0.0), v(2.5, 2.0, 0.0), v(1.0, 1.0, 0.0), v(0.0, 2.0, 0.0)])));
	assert!(r.is_err());
}
"""),
dict(id="c03-wrong-kind-mass", prop="C03", needs="updating a linked collider with one of another kind",
 breaks="the call is refused, but its entity is woken and its falling asleep starts over",
 edits=[(PS, """				if let Some(typed_dest) = collider.downcast_mut::<InternalNullCollider>() {
					typed_dest.update_from(&typed_source)
				} else {
					return Err(());
				}""", """				if let Some(typed_dest) = collider.downcast_mut::<InternalNullCollider>() {
					typed_dest.update_from(&typed_source)
				} else {
					if let Some(entity_handle) = entity_handle_option { InternalEntity::wake_up(entity_handle, &mut self.entities.borrow_mut(), &mut self.debug); }
					return Err(());
				}""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, e, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 0.5, 1.0, 1.0)));
	s.step(0.1); s.step(0.1); s.step(0.1);
	assert!(s.get_entity(e).unwrap().was_asleep());
	assert!(s.update_collider(c, null(v(0.0, 0.0, 0.0), 1.0)).is_err());
	assert!(s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c04-collider-wakes", prop="C04", needs="a collider of a sleeping entity updated with what was read",
 breaks="the entity is woken up",
 edits=[(PS, """				entity.recalculate_mass(&*colliders);
			}
		}
		result""", """				entity.recalculate_mass(&*colliders);
				entity.asleep = false;
			}
		}
		result""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.1;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), 1.0);
	let c = attach(&mut s, e, ColliderWrapper::Sphere(sphere(v(0.0, 0.0, 0.0), 0.5, 1.0, 1.0)));
	s.step(0.1); s.step(0.1); s.step(0.1);
	assert!(s.get_entity(e).unwrap().was_asleep());
	s.update_collider(c, s.get_collider(c).unwrap()).unwrap();
	assert!(s.get_entity(e).unwrap().was_asleep());
}
"""),
dict(id="c06-relink-drift", prop="C06", needs="linking a collider to the entity it is already linked to, twice in a row with a turned entity",
 breaks="the entity's frame shifts by the offset once more",
 edits=[(PS, """				entity.colliders.insert(collider_handle);
				entity.recalculate_mass(&*self.colliders.borrow());""", """				if !entity.colliders.insert(collider_handle) { entity.orientation.position += entity.orientation.internal_origin_offset - entity.orientation.direction_into_world(&entity.orientation.internal_origin_offset); }
				entity.recalculate_mass(&*self.colliders.borrow());""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	let mut e = Entity::new();
	e.rotation = v(0.0, 1.0, 0.0);
	let e = s.add_entity(e).unwrap();
	let c = attach(&mut s, e, ColliderWrapper::Sphere(sphere(v(1.0, 0.0, 0.0), 0.5, 1.0, 1.0)));
	let o = |s : &PhysicsSystem| s.get_entity(e).unwrap().get_last_orientation().position_into_world(&Vec3::zeros());
	let p = o(&s);
	s.link_collider(c, Some(e)).unwrap();
	assert!(vnear(&o(&s), &p));
}
"""),
dict(id="c10-window", prop="C10", needs="a contact whose friction limit is between once and one and a half times what stops the sliding",
 breaks="friction reverses the sliding",
 edits=[(PS, "					if friction_percent > 1.0 { friction_percent = 1.0; }\n", "					if friction_percent > 1.5 { friction_percent = 1.0; }\n")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	let e = entity(&mut s, v(0.0, 0.0, 0.0), v(0.0, 0.0, 0.0), INF);
	let mut c = PlaneCollider::new();
	c.normal = v(0.0, 1.0, 0.0);
	c.restitution_coefficient = 0.0; c.static_friction_coefficient = 1.0; c.dynamic_friction_coefficient = 1.0;
	attach(&mut s, e, ColliderWrapper::Plane(c));
	let b = entity(&mut s, v(0.0, 1.5, 0.0), v(1.0, -10.0, 0.0), 0.0);
	let mut c = sphere(v(0.0, 0.0, 0.0), 1.0, 1.0, 0.0);
	c.static_friction_coefficient = 0.034; c.dynamic_friction_coefficient = 0.034;
	attach(&mut s, b, ColliderWrapper::Sphere(c));
	s.step(0.1);
	let e = s.get_entity(b).unwrap();
	let slip = e.velocity.x + e.angular_velocity.cross(&v(0.0, -1.0, 0.0)).x;
	assert!(slip.abs() < 1e-3, "{}", slip);
}
"""),
dict(id="c16-tiny-touch", prop="C16", needs="two spheres whose centers coincide nearly, but not exactly",
 breaks="their record's normal isn't of unit length",
 edits=[(CO, """			(center2 + movement2.scale(times.min())) * radius1
		).scale(1.0 / radius);
		let normal = (position - center_position).normalize();""", """			(center2 + movement2.scale(times.min())) * radius1
		).scale(1.0 / radius);
		let normal = (position - center_position) / (position - center_position).magnitude().max(0.1 * radius1);""")],
 demo="""
fn main() {
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.0;
	ball(&mut s, v(0.0, 0.0, 0.0), v(1.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	ball(&mut s, v(0.01, 0.0, 0.0), v(-1.0, 0.0, 0.0), 1.0, 1.0, 1.0);
	s.step(0.1);
	for r in &s.collision_records { assert!(near(r.normal.norm(), 1.0)); }
	assert!(0 < s.collision_records.len());
}
"""),
dict(id="c19-lerp-end", prop="C19", needs="interpolating close to the end between orientations nearly half a turn apart",
 breaks="the last bit of the way isn't turned",
 edits=[(OR, "			position: start.position * opposite + end.position * time,\n", "			position: start.position + (end.position - start.position) * time.min(0.999),\n")],
 demo="""
fn main() {
	let a = Orientation::new(&v(0.0, 0.0, 0.0), &v(0.0, 0.0, 0.0), &v(0.0, 0.0, 0.0));
	let b = Orientation::new(&v(100.0, 0.0, 0.0), &v(0.0, 1.0, 0.0), &v(0.0, 0.0, 0.0));
	assert!(near(Orientation::lerp(1.0, &a, &b).position.x, 100.0) && (Orientation::lerp(1.0, &a, &b).position.x - 100.0).abs() < 0.01);
}
"""),
dict(id="c12-awake-neighbors", prop="C12", needs="updating an awake body on which a sleeping one rests",
 breaks="the sleeping one isn't woken",
 edits=[(EN, "			completed.insert(target_handle);\n", "			completed.insert(target_handle);\n			if !all_entities.get_mut(target_handle).unwrap().asleep && all_entities.get_mut(target_handle).unwrap().falling_asleep { continue; }\n")],
 demo="""
fn main() {
	// A heavy ball rests on a light one for which the threshold is passed at another time.
	let mut s = PhysicsSystem::new();
	s.energy_sleep_threshold = 0.1;
	s.sleep_time_threshold = 0.25;
	s.add_unary_force_generator(Box::new(GravityGenerator::new(v(0.0, -1.0, 0.0)))).unwrap();
	plane(&mut s, v(0.0, 0.0, 0.0), v(0.0, 1.0, 0.0), 0.0);
	let a = ball(&mut s, v(0.0, 0.5, 0.0), v(0.0, 0.0, 0.0), 0.5, 1.0, 0.0);
	let b = ball(&mut s, v(0.0, 1.5, 0.0), v(0.0, 0.0, 0.0), 0.5, 1.0, 0.0);
	s.step(0.1); s.step(0.1);
	let mut e = s.get_entity(b).unwrap();
	e.velocity.y = 1.0; s.update_entity(b, e).unwrap();
	s.step(0.01);
	let mut e = s.get_entity(b).unwrap();
	e.velocity.y = -0.3; s.update_entity(b, e).unwrap();
	for _ in 0..20 { s.step(0.02); if s.get_entity(a).unwrap().was_asleep() { break; } }
	println!("{} {}", s.get_entity(a).unwrap().was_asleep(), s.get_entity(b).unwrap().was_asleep());
	if s.get_entity(a).unwrap().was_asleep() && !s.get_entity(b).unwrap().was_asleep() {
		let mut e = s.get_entity(b).unwrap();
		e.velocity.x = 0.2; s.update_entity(b, e).unwrap();
		assert!(!s.get_entity(a).unwrap().was_asleep());
	}
}
"""),
]
