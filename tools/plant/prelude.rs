#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
use fluffy_tribble::*;
use fluffy_tribble::types::*;

const INF : f32 = std::f32::INFINITY;

fn v(x : f32, y : f32, z : f32) -> Vec3 { Vec3::new(x, y, z) }

fn near(a : f32, b : f32) -> bool { (a - b).abs() <= 1e-3 * (1.0 + b.abs()) }
fn vnear(a : &Vec3, b : &Vec3) -> bool { near(a.x, b.x) && near(a.y, b.y) && near(a.z, b.z) }

/// An entity of the given mass (without any colliders).
fn entity(s : &mut PhysicsSystem, p : Vec3, vel : Vec3, m : f32) -> EntityHandle {
	let mut e = Entity::new();
	e.position = p;
	e.velocity = vel;
	e.own_mass = m;
	s.add_entity(e).unwrap()
}

fn attach(s : &mut PhysicsSystem, e : EntityHandle, c : ColliderWrapper) -> ColliderHandle {
	let c = s.add_collider(c).unwrap();
	s.link_collider(c, Some(e)).unwrap();
	c
}

/// A sphere collider of the given mass without friction.
fn sphere(center : Vec3, r : f32, m : f32, bounce : f32) -> SphereCollider {
	let mut c = SphereCollider::new(r);
	c.center = center;
	c.mass = m;
	c.restitution_coefficient = bounce;
	c.static_friction_coefficient = 0.0;
	c.dynamic_friction_coefficient = 0.0;
	c
}

fn ball(s : &mut PhysicsSystem, p : Vec3, vel : Vec3, r : f32, m : f32, bounce : f32) -> EntityHandle {
	let e = entity(s, p, vel, 0.0);
	attach(s, e, ColliderWrapper::Sphere(sphere(Vec3::zeros(), r, m, bounce)));
	e
}

/// A fixed plane through p.
fn plane(s : &mut PhysicsSystem, p : Vec3, n : Vec3, bounce : f32) -> EntityHandle {
	let e = entity(s, p, Vec3::zeros(), INF);
	let mut c = PlaneCollider::new();
	c.normal = n;
	c.restitution_coefficient = bounce;
	c.static_friction_coefficient = 0.0;
	c.dynamic_friction_coefficient = 0.0;
	attach(s, e, ColliderWrapper::Plane(c));
	e
}

fn null(p : Vec3, m : f32) -> ColliderWrapper {
	let mut c = NullCollider::new();
	c.position = p;
	c.mass = m;
	c.moment_of_inertia = Mat3::from_diagonal_element(m);
	ColliderWrapper::Null(c)
}

fn get(s : &PhysicsSystem, e : EntityHandle) -> Entity { s.get_entity(e).unwrap() }

