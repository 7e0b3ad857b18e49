//! Drives a `PhysicsSystem` and writes down every call with its arguments, its result and everything
//! that could be read back afterwards.  The format is that of spec/WorldTrace.tla.
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use fluffy_tribble::*;
use fluffy_tribble::types::{Vec3, Mat3, Quat};

pub fn b(x : f32) -> i32 { x.to_bits() as i32 }
pub fn jv(v : &Vec3) -> String { format!("[{},{},{}]", b(v.x), b(v.y), b(v.z)) }
pub fn jq(q : &Quat) -> String { format!("[{},{},{},{}]", b(q.i), b(q.j), b(q.k), b(q.w)) }
pub fn jm(m : &Mat3) -> String {
	let mut s = String::from("[");
	for r in 0..3 { for c in 0..3 { let _ = write!(s, "{}{}", if r + c == 0 { "" } else { "," }, b(m[(r, c)])); } }
	s + "]"
}
pub fn js(text : &str) -> String {
	let clean : String = text.chars().map(|c| if c == '"' || c == '\\' || c < ' ' || c == '|' { ' ' } else { c }).collect();
	format!("\"{}\"", clean)
}

// ---------------------------------------------------------------------------------------------
// What goes in.

#[derive(Clone, Debug)]
pub struct EIn { pub own : f32, pub p : Vec3, pub r : Vec3, pub v : Vec3, pub w : Vec3 }
impl EIn {
	pub fn at(p : Vec3) -> EIn { EIn { own: 0.0, p, r: Vec3::zeros(), v: Vec3::zeros(), w: Vec3::zeros() } }
	pub fn json(&self) -> String {
		format!("{{\"own\":{},\"p\":{},\"r\":{},\"v\":{},\"w\":{}}}", b(self.own), jv(&self.p), jv(&self.r), jv(&self.v), jv(&self.w))
	}
	pub fn into(&self, mut e : Entity) -> Entity {
		e.own_mass = self.own; e.position = self.p; e.rotation = self.r; e.velocity = self.v; e.angular_velocity = self.w;
		e
	}
	pub fn of(e : &Entity) -> EIn {
		EIn { own: e.own_mass, p: e.position, r: e.rotation, v: e.velocity, w: e.angular_velocity }
	}
}

/// Restitution, friction threshold, static and dynamic friction.
#[derive(Clone, Copy, Debug)]
pub struct Surf { pub e : f32, pub ft : f32, pub sf : f32, pub df : f32 }
impl Surf {
	pub fn smooth(e : f32) -> Surf { Surf { e, ft: 0.25, sf: 0.0, df: 0.0 } }
	fn json(&self) -> String { format!("\"e\":{},\"ft\":{},\"sf\":{},\"df\":{}", b(self.e), b(self.ft), b(self.sf), b(self.df)) }
}

pub type Face = Vec<Vec3>;

#[derive(Clone, Debug)]
pub enum CIn {
	N { p : Vec3, m : f32, i : Mat3 },
	S { p : Vec3, m : f32, r : f32, s : Surf },
	P { p : Vec3, m : f32, n : Vec3, s : Surf },
	B { p : Vec3, m : f32, lo : Vec3, hi : Vec3, s : Surf },
	M { p : Vec3, faces : Vec<Face>, s : Surf },
}
impl CIn {
	pub fn kind(&self) -> &'static str {
		match self { CIn::N{..} => "N", CIn::S{..} => "S", CIn::P{..} => "P", CIn::B{..} => "B", CIn::M{..} => "M" }
	}
	fn json(&self) -> String {
		match self {
			CIn::N { p, m, i } => format!("{{\"p\":{},\"m\":{},\"I\":{}}}", jv(p), b(*m), jm(i)),
			CIn::S { p, m, r, s } => format!("{{\"p\":{},\"m\":{},\"r\":{},{}}}", jv(p), b(*m), b(*r), s.json()),
			CIn::P { p, m, n, s } => format!("{{\"p\":{},\"m\":{},\"n\":{},{}}}", jv(p), b(*m), jv(n), s.json()),
			CIn::B { p, m, lo, hi, s } => format!("{{\"p\":{},\"m\":{},\"lo\":{},\"hi\":{},{}}}", jv(p), b(*m), jv(lo), jv(hi), s.json()),
			CIn::M { p, faces, s } => format!("{{\"p\":{},\"faces\":{},{}}}", jv(p), jfaces(faces), s.json()),
		}
	}
	/// A collider with these values.
	pub fn wrap(&self) -> ColliderWrapper {
		self.fill(match self {
			CIn::N {..} => ColliderWrapper::Null(NullCollider::new()),
			CIn::S { r, .. } => ColliderWrapper::Sphere(SphereCollider::new(*r)),
			CIn::P {..} => ColliderWrapper::Plane(PlaneCollider::new()),
			CIn::B {..} => ColliderWrapper::AlignedBox(AlignedBoxCollider::new()),
			CIn::M { faces, .. } => {
				let mut c = MeshCollider::new();
				for f in faces { c.add_face(f); }
				ColliderWrapper::Mesh(c)
			}
		})
	}
	/// Whether the values can be put into the given one. (Faces can only be added.)
	fn fits(&self, c : &ColliderWrapper) -> bool {
		match (self, c) {
			(CIn::N {..}, ColliderWrapper::Null(_)) | (CIn::S {..}, ColliderWrapper::Sphere(_)) | (CIn::P {..}, ColliderWrapper::Plane(_)) | (CIn::B {..}, ColliderWrapper::AlignedBox(_)) => true,
			_ => false,
		}
	}
	/// Puts these values into the given collider.
	fn fill(&self, mut to : ColliderWrapper) -> ColliderWrapper {
		match (self, &mut to) {
			(CIn::N { p, m, i }, ColliderWrapper::Null(c)) => { c.position = *p; c.mass = *m; c.moment_of_inertia = *i; }
			(CIn::S { p, m, r, s }, ColliderWrapper::Sphere(c)) => {
				c.center = *p; c.radius = *r; c.mass = *m;
				c.restitution_coefficient = s.e; c.friction_threshold = s.ft; c.static_friction_coefficient = s.sf; c.dynamic_friction_coefficient = s.df;
			}
			(CIn::P { p, m, n, s }, ColliderWrapper::Plane(c)) => {
				c.position = *p; c.normal = *n; c.mass = *m;
				c.restitution_coefficient = s.e; c.friction_threshold = s.ft; c.static_friction_coefficient = s.sf; c.dynamic_friction_coefficient = s.df;
			}
			(CIn::B { p, m, lo, hi, s }, ColliderWrapper::AlignedBox(c)) => {
				c.position = *p; c.min_corner = *lo; c.max_corner = *hi; c.mass = *m;
				c.restitution_coefficient = s.e; c.friction_threshold = s.ft; c.static_friction_coefficient = s.sf; c.dynamic_friction_coefficient = s.df;
			}
			(CIn::M { p, s, .. }, ColliderWrapper::Mesh(c)) => {
				c.position = *p;
				c.restitution_coefficient = s.e; c.friction_threshold = s.ft; c.static_friction_coefficient = s.sf; c.dynamic_friction_coefficient = s.df;
			}
			_ => panic!("another kind of collider"),
		}
		to
	}
	/// The same with the values of a copy that was read (the faces of a mesh can't be read).
	pub fn of(c : &ColliderWrapper, known : &CIn) -> CIn {
		match c {
			ColliderWrapper::Null(c) => CIn::N { p: c.position, m: c.mass, i: c.moment_of_inertia },
			ColliderWrapper::Sphere(c) => CIn::S { p: c.center, m: c.mass, r: c.radius, s: Surf { e: c.restitution_coefficient, ft: c.friction_threshold, sf: c.static_friction_coefficient, df: c.dynamic_friction_coefficient } },
			ColliderWrapper::Plane(c) => CIn::P { p: c.position, m: c.mass, n: c.normal, s: Surf { e: c.restitution_coefficient, ft: c.friction_threshold, sf: c.static_friction_coefficient, df: c.dynamic_friction_coefficient } },
			ColliderWrapper::AlignedBox(c) => CIn::B { p: c.position, m: c.mass, lo: c.min_corner, hi: c.max_corner, s: Surf { e: c.restitution_coefficient, ft: c.friction_threshold, sf: c.static_friction_coefficient, df: c.dynamic_friction_coefficient } },
			ColliderWrapper::Mesh(c) => CIn::M { p: c.position, faces: match known { CIn::M { faces, .. } => faces.clone(), _ => Vec::new() }, s: Surf { e: c.restitution_coefficient, ft: c.friction_threshold, sf: c.static_friction_coefficient, df: c.dynamic_friction_coefficient } },
		}
	}
}
pub fn jface(f : &Face) -> String { format!("[{}]", f.iter().map(jv).collect::<Vec<_>>().join(",")) }
pub fn jfaces(fs : &Vec<Face>) -> String { format!("[{}]", fs.iter().map(jface).collect::<Vec<_>>().join(",")) }

/// Force generators.
#[derive(Clone, Debug)]
pub enum GIn {
	/// The library's own, as it is.
	Bare(Vec3),
	/// The library's own, with a record kept of what it is asked.
	Gravity(Vec3),
	/// A force at a point fixed to the body.
	Push(Vec3, Vec3),
	/// A spring from a point fixed to the body to one fixed in the world.
	Spring(Vec3, Vec3, f32),
	/// Drag at the center of mass, and a force that depends on dt and the handle.
	Drag(f32),
}

/// What generators were asked and answered, and what they saw of one entity.
#[derive(Debug, Clone)]
pub struct Asked { g : usize, e : EntityHandle, dt : f32, f : Vec3, x : Vec3, other : Option<(EntityHandle, Vec3, Vec3, Vec3)> }
type Log = Rc<RefCell<Vec<Asked>>>;

#[derive(Debug)]
pub struct Logged { id : usize, kind : GIn, inner : GravityGenerator, log : Log, around : Rc<RefCell<Vec<EntityHandle>>> }
impl UnaryForceGenerator for Logged {
	fn make_force(&mut self, dt : f32, physics : &PhysicsSystem, handle : EntityHandle) -> Force {
		let f = match physics.get_entity(handle) {
			None => Force::new(Vec3::zeros(), Vec3::zeros()),
			Some(e) => { for c in e.get_colliders() { physics.get_collider(c); } match &self.kind {
				GIn::Bare(_) | GIn::Gravity(_) => self.inner.make_force(dt, physics, handle),
				GIn::Push(f, at) => Force::new(*f, e.get_last_orientation().position_into_world(at)),
				GIn::Spring(at, anchor, k) => { let x = e.get_last_orientation().position_into_world(at); Force::new((anchor - x) * *k, x) }
				GIn::Drag(k) => Force::new(e.velocity * -*k, e.position),
			} }
		};
		let around = self.around.borrow();
		let other = if around.is_empty() { None } else {
			let o = around[(self.log.borrow().len() + around.len() - 1) % around.len()];
			physics.get_entity(o).map(|e| (o, e.position, e.velocity, e.angular_velocity))
		};
		self.log.borrow_mut().push(Asked { g: self.id, e: handle, dt, f: f.force, x: f.position, other });
		f
	}
}

// ---------------------------------------------------------------------------------------------
// The watchdog: a call that doesn't return is reported like a panic.

pub struct Current { pub id : String, pub head : String, pub ev : Vec<String>, pub op : String, pub since : Option<Instant> }
pub static CURRENT : Mutex<Current> = Mutex::new(Current { id: String::new(), head: String::new(), ev: Vec::new(), op: String::new(), since: None });
pub static MESSAGE : Mutex<String> = Mutex::new(String::new());

pub fn watch(out : std::path::PathBuf) {
	std::thread::spawn(move || loop {
		std::thread::sleep(Duration::from_millis(500));
		let c = CURRENT.lock().unwrap();
		if let Some(t) = c.since {
			if t.elapsed() > Duration::from_secs(15) {
				let mut ev = c.ev.clone();
				ev.push(format!("{{\"o\":{},\"panic\":\"does not return\"}}", js(&c.op)));
				let line = format!("{{\"id\":{},{}\"ev\":[{}]}}\n", js(&c.id), c.head, ev.join(","));
				use std::io::Write as W;
				let mut f = std::fs::OpenOptions::new().append(true).create(true).open(&out).unwrap();
				let _ = f.write_all(line.as_bytes());
				std::process::exit(0);
			}
		}
	});
}
pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let text = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
			else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { String::from("panic") };
		let place = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
		if std::env::var("HARNESS_DEBUG").is_ok() { eprintln!("{}{}", text, place); }
		if let Ok(mut m) = MESSAGE.try_lock() { *m = text + &place; }
	}));
}
/// Runs one call into the library.
pub fn guard<T>(op : &str, f : impl FnOnce() -> T) -> Result<T, String> {
	{ let mut c = CURRENT.lock().unwrap(); c.op = op.to_string(); c.since = Some(Instant::now()); }
	let r = catch_unwind(AssertUnwindSafe(f));
	CURRENT.lock().unwrap().since = None;
	r.map_err(|_| MESSAGE.lock().unwrap().clone())
}

// ---------------------------------------------------------------------------------------------

pub struct Session {
	pub sys : PhysicsSystem,
	pub eh : Vec<EntityHandle>,
	pub ch : Vec<ColliderHandle>,
	pub cin : Vec<CIn>,
	pub gh : Vec<UnaryForceGeneratorHandle>,
	pub gin : Vec<GIn>,
	eid : HashMap<EntityHandle, usize>,
	cid : HashMap<ColliderHandle, usize>,
	gid : HashMap<UnaryForceGeneratorHandle, usize>,
	log : Log,
	around : Rc<RefCell<Vec<EntityHandle>>>,
	laste : Vec<String>,
	lastc : Vec<String>,
	/// Copies that were read some time ago (and of anything), to be filled in anew and passed back.
	olde : Vec<Entity>,
	oldc : Vec<ColliderWrapper>,
	turn : usize,
	/// Whether a call panicked.
	pub over : bool,
	/// Events go here instead of into the current run (used for runs that are only compared).
	pub silent : bool,
}

impl Session {
	pub fn new() -> Session {
		Session {
			sys: PhysicsSystem::new(), eh: vec![], ch: vec![], cin: vec![], gh: vec![], gin: vec![],
			eid: HashMap::new(), cid: HashMap::new(), gid: HashMap::new(), log: Rc::new(RefCell::new(vec![])), around: Rc::new(RefCell::new(vec![])),
			laste: vec![], lastc: vec![], olde: vec![], oldc: vec![], turn: 0, over: false, silent: false,
		}
	}

	/// Keeps a copy or two of what can be read right now.
	fn keep_copies(&mut self) {
		self.turn = self.turn.wrapping_mul(25173).wrapping_add(13849) % 65536;
		if !self.eh.is_empty() {
			if let Some(e) = self.sys.get_entity(self.eh[self.turn / 7 % self.eh.len()]) {
				if self.olde.len() < 12 { self.olde.push(e); } else { self.olde[self.turn % 12] = e; }
			}
		}
		if !self.ch.is_empty() {
			if let Some(c) = self.sys.get_collider(self.ch[self.turn / 5 % self.ch.len()]) {
				if self.oldc.len() < 12 { self.oldc.push(c); } else { self.oldc[self.turn % 12] = c; }
			}
		}
	}
	/// An entity to fill in: a fresh one, or one of the copies.
	fn blank(&self) -> Entity {
		if self.olde.is_empty() || self.turn & 32 == 0 { Entity::new() } else { self.olde[self.turn / 64 % self.olde.len()].clone() }
	}
	/// The same for a collider.
	fn filled(&mut self, x : &CIn) -> ColliderWrapper {
		if self.turn & 32 == 0 { return x.wrap(); }
		for i in 0..self.oldc.len() {
			if x.fits(&self.oldc[i]) { let c = self.oldc.swap_remove(i); return x.fill(c); }
		}
		x.wrap()
	}

	fn emit(&mut self, text : String) {
		if self.silent { return; }
		CURRENT.lock().unwrap().ev.push(text);
	}
	fn panicked(&mut self, op : &str, message : String) {
		self.over = true;
		CURRENT.lock().unwrap().ev.push(format!("{{\"o\":{},\"panic\":{}}}", js(op), js(&message)));
	}

	fn e_of(&self, h : EntityHandle) -> usize { self.eid.get(&h).map(|i| i + 1).unwrap_or(0) }
	fn c_of(&self, h : ColliderHandle) -> usize { self.cid.get(&h).map(|i| i + 1).unwrap_or(0) }

	/// Everything that can be read of an entity.
	pub fn read_entity(&self, i : usize) -> String {
		match self.sys.get_entity(self.eh[i]) {
			None => "{\"l\":0}".into(),
			Some(e) => {
				let o = *e.get_last_orientation();
				let m = e.make_orientation();
				let mut flat = e.clone();
				flat.rotation = Vec3::zeros();
				let mut cols : Vec<usize> = e.get_colliders().iter().map(|h| self.c_of(*h)).collect();
				cols.sort();
				format!("{{\"l\":1,\"p\":{},\"r\":{},\"q\":{},\"off\":{},\"v\":{},\"w\":{},\"own\":{},\"tot\":{},\"I\":{},\"Iw\":{},\"en\":{},\"as\":{},\"lp\":{},\"mp\":{},\"mq\":{},\"mo\":{},\"cols\":[{}]}}",
					jv(&e.position), jv(&e.rotation), jq(&o.rotation), jv(&o.internal_origin_offset), jv(&e.velocity), jv(&e.angular_velocity),
					b(e.own_mass), b(e.get_last_total_mass()), jm(&flat.get_last_moment_of_inertia()), jm(&e.get_last_moment_of_inertia()),
					b(e.get_total_energy()), e.was_asleep() as i32, jv(&o.position), jv(&m.position), jq(&m.rotation), jv(&m.internal_origin_offset),
					cols.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","))
			}
		}
	}
	pub fn read_collider(&self, i : usize) -> String {
		match self.sys.get_collider(self.ch[i]) {
			None => "{\"l\":0}".into(),
			Some(c) => {
				let (k, o, com) = match &c {
					ColliderWrapper::Null(c) => ("N", c.get_entity(), c.get_center_of_mass()),
					ColliderWrapper::Sphere(c) => ("S", c.get_entity(), c.get_center_of_mass()),
					ColliderWrapper::Plane(c) => ("P", c.get_entity(), c.get_center_of_mass()),
					ColliderWrapper::AlignedBox(c) => ("B", c.get_entity(), c.get_center_of_mass()),
					ColliderWrapper::Mesh(c) => ("M", c.get_entity(), c.get_center_of_mass()),
				};
				let kind_says = match (match &c {
					ColliderWrapper::Null(c) => c.get_type(),
					ColliderWrapper::Sphere(c) => c.get_type(),
					ColliderWrapper::Plane(c) => c.get_type(),
					ColliderWrapper::AlignedBox(c) => c.get_type(),
					ColliderWrapper::Mesh(c) => c.get_type(),
				}) { ColliderType::NULL => "N", ColliderType::SPHERE => "S", ColliderType::PLANE => "P", ColliderType::ALIGNED_BOX => "B", ColliderType::MESH => "M" };
				let x = match &c {
					ColliderWrapper::Mesh(m) => format!("{{\"p\":{},\"nf\":{},\"ne\":{},\"nv\":{},\"e\":{},\"ft\":{},\"sf\":{},\"df\":{}}}",
						jv(&m.position), m.face_count(), m.edge_count(), m.vertex_count(),
						b(m.restitution_coefficient), b(m.friction_threshold), b(m.static_friction_coefficient), b(m.dynamic_friction_coefficient)),
					_ => CIn::of(&c, &self.cin[i]).json(),
				};
				format!("{{\"l\":1,\"k\":\"{}\",\"k2\":\"{}\",\"o\":{},\"com\":{},\"x\":{}}}", k, kind_says, o.map(|h| { let n = self.e_of(h); if n == 0 { 9999 } else { n } }).unwrap_or(0), jv(&com), x)
			}
		}
	}
	pub fn full_snapshot(&self) -> String {
		(0..self.eh.len()).map(|i| self.read_entity(i)).collect::<Vec<_>>().join(",")
	}

	fn snapshot(&mut self) -> Result<String, String> {
		let r = guard("read", || {
			let e : Vec<String> = (0..self.eh.len()).map(|i| self.read_entity(i)).collect();
			let c : Vec<String> = (0..self.ch.len()).map(|i| self.read_collider(i)).collect();
			(e, c)
		});
		let (e, c) = r?;
		let short = |new : &Vec<String>, old : &Vec<String>| new.iter().enumerate().map(|(i, s)|
			if s.len() > 8 && old.get(i) == Some(s) { "{\"l\":2}".to_string() } else { s.clone() }).collect::<Vec<_>>().join(",");
		let text = format!("\"E\":[{}],\"C\":[{}]", short(&e, &self.laste), short(&c, &self.lastc));
		self.laste = e;
		self.lastc = c;
		Ok(text)
	}

	/// Ends an event: `fields` is what was asked and answered.
	fn done(&mut self, op : &str, fields : String) {
		if self.silent { return; }
		self.keep_copies();
		match self.snapshot() {
			Ok(s) => self.emit(format!("{{\"o\":\"{}\",{}{}{}}}", op, fields, if fields.is_empty() { "" } else { "," }, s)),
			Err(m) => self.panicked(op, m),
		}
	}

	/// The energy of an entity, to pick thresholds by.
	pub fn energy(&self, i : usize) -> f32 {
		let e = self.sys.get_entity(self.eh[i]).map(|e| e.get_total_energy()).unwrap_or(0.0);
		if e.is_finite() && e > 0.0 { e } else { 0.001 }
	}
	pub fn configure(&mut self, imax : u8, eth : f32, sth : f32) {
		if self.over { return; }
		self.sys.iteration_max = imax;
		self.sys.energy_sleep_threshold = eth;
		self.sys.sleep_time_threshold = sth;
		self.done("cfg", format!("\"imax\":{},\"eth\":{},\"sth\":{}", imax, b(eth), b(sth)));
	}

	/// Adds an entity, starting from a fresh or a read `Entity`.
	pub fn add_entity_from(&mut self, x : &EIn, base : Option<Entity>) -> Option<usize> {
		if self.over { return None; }
		let source = x.into(base.unwrap_or_else(Entity::new));
		match guard("addE", || self.sys.add_entity(source)) {
			Err(m) => { self.panicked("addE", m); None }
			Ok(Err(())) => { self.done("addE", format!("\"in\":{},\"ok\":0,\"id\":0", x.json())); None }
			Ok(Ok(h)) => {
				let n = self.eh.len();
				let old = self.eid.get(&h).cloned();
				self.eh.push(h);
				self.eid.insert(h, n);
				self.done("addE", format!("\"in\":{},\"ok\":1,\"id\":{}", x.json(), old.unwrap_or(n) + 1));
				Some(n)
			}
		}
	}
	pub fn add_entity(&mut self, x : &EIn) -> Option<usize> { self.add_entity_from(x, None) }

	pub fn get(&self, i : usize) -> Option<Entity> { self.sys.get_entity(self.eh[i]) }

	/// Updates with the given values (starting from a fresh or a read `Entity`).
	pub fn update_entity(&mut self, i : usize, x : &EIn, fresh : bool) {
		if self.over { return; }
		let h = self.eh[i];
		let base = if fresh { self.blank() } else { match self.sys.get_entity(h) { Some(e) => e, None => Entity::new() } };
		let source = x.into(base);
		match guard("updE", || self.sys.update_entity(h, source)) {
			Err(m) => self.panicked("updE", m),
			Ok(r) => self.done("updE", format!("\"id\":{},\"in\":{},\"ok\":{},\"wb\":0", i + 1, x.json(), r.is_ok() as i32)),
		}
	}
	/// Writes back exactly what was read.
	pub fn write_back(&mut self, i : usize) {
		if self.over { return; }
		let h = self.eh[i];
		if let Some(e) = self.sys.get_entity(h) {
			let x = EIn::of(&e);
			match guard("updE", || self.sys.update_entity(h, e)) {
				Err(m) => self.panicked("updE", m),
				Ok(r) => self.done("updE", format!("\"id\":{},\"in\":{},\"ok\":{},\"wb\":1", i + 1, x.json(), r.is_ok() as i32)),
			}
		}
	}
	pub fn remove_entity(&mut self, i : usize) {
		if self.over { return; }
		let h = self.eh[i];
		match guard("rmE", || self.sys.remove_entity(h)) {
			Err(m) => self.panicked("rmE", m),
			Ok(r) => self.done("rmE", format!("\"id\":{},\"ok\":{}", i + 1, r as i32)),
		}
	}

	fn added(&mut self, x : &CIn, r : Result<Result<ColliderHandle, ()>, String>) -> Option<usize> {
		match r {
			Err(m) => { self.panicked("addC", m); None }
			Ok(Err(())) => { self.done("addC", format!("\"k\":\"{}\",\"x\":{},\"ok\":0,\"id\":0", x.kind(), x.json())); None }
			Ok(Ok(h)) => {
				let n = self.ch.len();
				let old = self.cid.get(&h).cloned();
				self.ch.push(h);
				self.cin.push(x.clone());
				self.cid.insert(h, n);
				self.done("addC", format!("\"k\":\"{}\",\"x\":{},\"ok\":1,\"id\":{}", x.kind(), x.json(), old.unwrap_or(n) + 1));
				Some(n)
			}
		}
	}
	pub fn add_collider(&mut self, x : &CIn) -> Option<usize> {
		if self.over { return None; }
		let source = self.filled(x);
		let r = guard("addC", || self.sys.add_collider(source));
		self.added(x, r)
	}
	/// Adds a copy of what was read of another collider.
	pub fn add_collider_copy(&mut self, i : usize) -> Option<usize> {
		if self.over { return None; }
		let c = self.sys.get_collider(self.ch[i])?;
		let x = CIn::of(&c, &self.cin[i]);
		let r = guard("addC", || self.sys.add_collider(c));
		self.added(&x, r)
	}
	pub fn update_collider(&mut self, i : usize, x : &CIn) {
		if self.over { return; }
		let h = self.ch[i];
		let source = self.filled(x);
		let r = guard("updC", || self.sys.update_collider(h, source));
		self.updated(i, x, r)
	}
	/// Writes back exactly what was read.
	pub fn write_back_collider(&mut self, i : usize) {
		if self.over { return; }
		let h = self.ch[i];
		if let Some(c) = self.sys.get_collider(h) {
			let x = CIn::of(&c, &self.cin[i]);
			let r = guard("updC", || self.sys.update_collider(h, c));
			self.updated(i, &x, r)
		}
	}
	fn updated(&mut self, i : usize, x : &CIn, r : Result<Result<(), ()>, String>) {
		match r {
			Err(m) => self.panicked("updC", m),
			Ok(r) => {
				if r.is_ok() { self.cin[i] = x.clone(); }
				self.done("updC", format!("\"id\":{},\"k\":\"{}\",\"x\":{},\"ok\":{}", i + 1, x.kind(), x.json(), r.is_ok() as i32));
			}
		}
	}
	pub fn remove_collider(&mut self, i : usize) {
		if self.over { return; }
		let h = self.ch[i];
		match guard("rmC", || self.sys.remove_collider(h)) {
			Err(m) => self.panicked("rmC", m),
			Ok(()) => self.done("rmC", format!("\"id\":{}", i + 1)),
		}
	}
	pub fn link(&mut self, c : usize, e : Option<usize>) {
		if self.over { return; }
		let (ch, eh) = (self.ch[c], e.map(|i| self.eh[i]));
		match guard("link", || self.sys.link_collider(ch, eh)) {
			Err(m) => self.panicked("link", m),
			Ok(r) => self.done("link", format!("\"c\":{},\"e\":{},\"ok\":{}", c + 1, e.map(|i| i + 1).unwrap_or(0), r.is_ok() as i32)),
		}
	}

	pub fn add_generator(&mut self, g : &GIn) -> Option<usize> {
		if self.over { return None; }
		let n = self.gh.len();
		let (k, a) = match g { GIn::Bare(a) => ("G", *a), GIn::Gravity(a) => ("L", *a), _ => ("L", Vec3::zeros()) };
		let boxed : Box<dyn UnaryForceGenerator> = match g {
			GIn::Bare(a) => Box::new(GravityGenerator::new(*a)),
			_ => Box::new(Logged { id: n + 1, kind: g.clone(), inner: GravityGenerator::new(a), log: self.log.clone(), around: self.around.clone() }),
		};
		match guard("addG", || self.sys.add_unary_force_generator(boxed)) {
			Err(m) => { self.panicked("addG", m); None }
			Ok(Err(())) => { self.panicked("addG", "refused".into()); None }
			Ok(Ok(h)) => {
				let old = self.gid.get(&h).cloned();
				self.gh.push(h);
				self.gin.push(g.clone());
				self.gid.insert(h, n);
				self.done("addG", format!("\"id\":{},\"k\":\"{}\",\"a\":{}", old.unwrap_or(n) + 1, k, jv(&a)));
				Some(n)
			}
		}
	}
	pub fn remove_generator(&mut self, i : usize) {
		if self.over { return; }
		let h = self.gh[i];
		match guard("rmG", || self.sys.remove_unary_force_generator(h)) {
			Err(m) => self.panicked("rmG", m),
			Ok(r) => {
				let same = match (&r, &self.gin[i]) {
					(None, _) => false,
					(Some(g), GIn::Bare(a)) => g.downcast_ref::<GravityGenerator>().map(|g| g.acceleration == *a).unwrap_or(false),
					(Some(g), _) => g.downcast_ref::<Logged>().map(|g| g.id == i + 1).unwrap_or(false),
				};
				self.done("rmG", format!("\"id\":{},\"ok\":{},\"same\":{}", i + 1, r.is_some() as i32, same as i32));
			}
		}
	}

	pub fn records(&self) -> String {
		self.sys.collision_records.iter().map(|r| format!(
			"{{\"a\":{},\"b\":{},\"x\":{},\"n\":{},\"t\":{},\"e\":{},\"J\":{}}}",
			self.e_of(r.first_entity), self.e_of(r.second_entity), jv(&r.position), jv(&r.normal), b(r.time), b(r.restitution_coefficient), b(r.impulse_magnitude)
		)).collect::<Vec<_>>().join(",")
	}
	pub fn step(&mut self, dt : f32) {
		if self.over { return; }
		self.log.borrow_mut().clear();
		*self.around.borrow_mut() = self.eh.iter().cloned().filter(|h| self.sys.get_entity(*h).is_some()).collect();
		match guard("step", || self.sys.step(dt)) {
			Err(m) => self.panicked("step", m),
			Ok(()) => {
				let calls = self.log.borrow().iter().map(|a| format!(
					"{{\"g\":{},\"e\":{},\"dt\":{},\"F\":{},\"x\":{}{}}}", a.g, self.e_of(a.e), b(a.dt), jv(&a.f), jv(&a.x),
					a.other.map(|(o, p, v, w)| format!(",\"s\":{},\"sp\":{},\"sv\":{},\"sw\":{}", self.e_of(o), jv(&p), jv(&v), jv(&w))).unwrap_or_default())).collect::<Vec<_>>().join(",");
				let recs = self.records();
				self.done("step", format!("\"dt\":{},\"recs\":[{}],\"gc\":[{}]", b(dt), recs, calls));
			}
		}
	}
	pub fn asleep(&self, i : usize) -> bool { self.get(i).map(|e| e.was_asleep()).unwrap_or(false) }
}
