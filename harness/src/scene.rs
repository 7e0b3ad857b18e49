//! Scenes: bodies with colliders, generators, settings; and random parts for them.
use fluffy_tribble::types::{Vec3, Mat3, Quat};
use crate::rng::Rng;
use crate::session::*;

pub const INF : f32 = f32::INFINITY;

#[derive(Clone, Debug)]
pub struct Body { pub e : EIn, pub cols : Vec<CIn> }
#[derive(Clone, Debug)]
pub struct Scene { pub bodies : Vec<Body>, pub gens : Vec<GIn>, pub imax : u8, pub eth : f32, pub sth : f32 }
impl Scene {
	pub fn new() -> Scene { Scene { bodies: vec![], gens: vec![], imax: 5, eth: 0.001, sth: 0.1 } }
	/// Adds everything to the session in the given order of bodies; returns the entity index of each body.
	pub fn build(&self, s : &mut Session, order : &[usize], backwards : bool) -> Vec<usize> {
		s.configure(self.imax, self.eth, self.sth);
		let mut at = vec![usize::max_value(); self.bodies.len()];
		for &n in order {
			let body = &self.bodies[n];
			if let Some(i) = s.add_entity(&body.e) {
				at[n] = i;
				let mut cs : Vec<&CIn> = body.cols.iter().collect();
				if backwards { cs.reverse(); }
				for c in cs { if let Some(c) = s.add_collider(c) { s.link(c, Some(i)); } }
			}
		}
		for g in &self.gens { s.add_generator(g); }
		at
	}
	pub fn build_all(&self, s : &mut Session) -> Vec<usize> {
		let order : Vec<usize> = (0..self.bodies.len()).collect();
		self.build(s, &order, false)
	}
	/// The same scene with other units of length, time and mass.
	pub fn scale(&mut self, k : f32, t : f32, m : f32) {
		for body in &mut self.bodies {
			body.e.p *= k;
			body.e.v *= k / t;
			body.e.w /= t;
			body.e.own *= m;
			for c in &mut body.cols {
				match c {
					CIn::N { p, m: mass, i } => { *p *= k; *mass *= m; *i *= m * k * k; }
					CIn::S { p, m: mass, r, .. } => { *p *= k; *mass *= m; *r *= k; }
					CIn::P { p, m: mass, .. } => { *p *= k; *mass *= m; }
					CIn::B { p, m: mass, lo, hi, .. } => { *p *= k; *mass *= m; *lo *= k; *hi *= k; }
					CIn::M { p, faces, .. } => { *p *= k; for f in faces { for x in f { *x *= k; } } }
				}
			}
		}
		for g in &mut self.gens {
			match g {
				GIn::Bare(a) | GIn::Gravity(a) => *a *= k / (t * t),
				GIn::Push(f, at) => { *f *= m * k / (t * t); *at *= k; }
				GIn::Spring(at, x, c) => { *at *= k; *x *= k; *c *= m / (t * t); }
				GIn::Drag(c) => *c *= m / t,
			}
		}
		self.eth *= m * k * k / (t * t);
		self.sth *= t;
	}
	/// Now and then a scene of other sizes, speeds or masses, or far off.  Returns by how much time is longer.
	pub fn vary(&mut self, g : &mut Rng, neat : bool) -> f32 {
		if !g.chance(0.2) { return 1.0; }
		match g.below(5) {
			0 => { let k = g.pick(&[8.0, 32.0, 128.0]); self.scale(k, 1.0, 1.0); 1.0 }
			1 => { let t = g.pick(&[0.125, 0.03125, 0.0078125]); self.scale(1.0, t, 1.0); t }
			2 => { let t = 8.0; self.scale(1.0, t, 1.0); t }
			3 => { let m = g.pick(&[1.0 / 1024.0, 1024.0, 1.0 / 32768.0]); self.scale(1.0, 1.0, m); 1.0 }
			_ => { let d = v3(g.below(5) as f32 - 2.0, g.below(5) as f32 - 2.0, g.below(5) as f32 - 2.0) * g.pick(if neat { &[64.0, 512.0, 1024.0] } else { &[16.0, 32.0, 64.0] }); for b in &mut self.bodies { b.e.p += d; } for x in &mut self.gens { if let GIn::Spring(_, x, _) = x { *x += d; } } 1.0 }
		}
	}
	/// The same scene turned by r and then moved by p.
	pub fn moved(&self, r : &Vec3, p : &Vec3) -> Scene {
		let q = Quat::from_scaled_axis(*r);
		let mut s = self.clone();
		for body in &mut s.bodies {
			body.e.p = q * body.e.p + p;
			body.e.r = (q * Quat::from_scaled_axis(body.e.r)).scaled_axis();
			body.e.v = q * body.e.v;
			body.e.w = q * body.e.w;
			for c in &mut body.cols { if let CIn::P { n, .. } = c { *n = q * *n; } }
		}
		for g in &mut s.gens {
			match g {
				GIn::Bare(a) | GIn::Gravity(a) => *a = q * *a,
				GIn::Push(f, _) => *f = q * *f,
				GIn::Spring(_, x, _) => *x = q * *x + p,
				GIn::Drag(_) => {}
			}
		}
		s
	}
}

pub fn v3(x : f32, y : f32, z : f32) -> Vec3 { Vec3::new(x, y, z) }

pub fn surf(g : &mut Rng) -> Surf {
	let e = match g.below(5) { 0 => 0.0, 1 => 1.0, _ => g.range(0.0, 1.0) };
	let (sf, df) = match g.below(4) { 0 => (0.0, 0.0), 1 => { let f = g.range(0.0, 1.0); (f, f) } 2 => (1.0, 0.3), _ => (g.range(0.0, 1.0), g.range(0.0, 1.0)) };
	let ft = match g.below(4) { 0 => 0.25, 1 => 1.0, 2 => 0.0, _ => g.range(0.0, 1.5) };
	Surf { e, ft, sf, df }
}

pub fn quad(a : Vec3, b : Vec3, c : Vec3, d : Vec3) -> Face { vec![a, b, c, d] }

/// Some meshes (around the origin, about `s` large).
pub fn mesh_faces(g : &mut Rng, which : usize, s : f32) -> Vec<Face> {
	let f = match which {
		// box
		0 => {
			let (x, y, z) = (s * g.range(0.5, 1.5), s * g.range(0.5, 1.5), s * g.range(0.5, 1.5));
			let c = |i : usize| v3(if i & 1 == 0 { -x } else { x }, if i & 2 == 0 { -y } else { y }, if i & 4 == 0 { -z } else { z });
			[[0,2,6,4],[1,3,7,5],[0,1,5,4],[2,3,7,6],[0,1,3,2],[4,5,7,6]].iter().map(|f| f.iter().map(|i| c(*i)).collect()).collect()
		}
		// tetrahedron
		1 => {
			let c = [v3(1.0,1.0,1.0)*s, v3(1.0,-1.0,-1.0)*s, v3(-1.0,1.0,-1.0)*s, v3(-1.0,-1.0,1.0)*s];
			[[0,1,2],[0,1,3],[0,2,3],[1,2,3]].iter().map(|f| f.iter().map(|i| c[*i]).collect()).collect()
		}
		// single triangle
		2 => vec![vec![v3(-s, 0.0, -s), v3(s, 0.0, -s), v3(0.0, 0.3 * s, s)]],
		// regular polygon
		3 => {
			let n = 5 + g.below(3);
			vec![(0..n).map(|i| { let a = i as f32 * 2.0 * std::f32::consts::PI / n as f32; v3(a.cos() * s, 0.0, a.sin() * s) }).collect()]
		}
		// floor and wall
		4 => vec![
			quad(v3(-s,0.0,-s), v3(-s,0.0,s), v3(s,0.0,s), v3(s,0.0,-s)),
			quad(v3(s,0.0,-s), v3(s,0.0,s), v3(s,s,s), v3(s,s,-s)),
		],
		// square pyramid
		5 => {
			let (a, b2, c, d, t) = (v3(-s,0.0,-s), v3(s,0.0,-s), v3(s,0.0,s), v3(-s,0.0,s), v3(0.2*s, 1.3*s, 0.1*s));
			vec![quad(a, b2, c, d), vec![a, b2, t], vec![b2, c, t], vec![c, d, t], vec![d, a, t]]
		}
		// groove
		_ => vec![
			quad(v3(-s,s,-s), v3(-s,s,s), v3(0.0,0.0,s), v3(0.0,0.0,-s)),
			quad(v3(0.0,0.0,-s), v3(0.0,0.0,s), v3(s,s,s), v3(s,s,-s)),
		],
	};
	// any winding and any first corner
	f.into_iter().map(|mut x : Face| {
		if g.chance(0.5) { x.reverse(); }
		let k = g.below(x.len());
		x.rotate_left(k);
		x
	}).collect()
}
pub const MESHES : usize = 7;

/// How a body gets its mass.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mass { Point, Solid, Both, Infinite, InfiniteOwn }

/// A mass: mostly of the range, sometimes of any size.
pub fn any_m(g : &mut Rng, lo : f32, hi : f32) -> f32 {
	if g.1 || g.chance(0.85) { g.range(lo, hi) } else { 10.0f32.powf(g.range(-3.0, 3.0)) }
}

/// The colliders of a ball at the local origin + `at`.
pub fn ball_cols(g : &mut Rng, m : Mass, r : f32, at : Vec3, s : Surf) -> (f32, Vec<CIn>) {
	match m {
		Mass::Point => (any_m(g, 0.3, 4.0), vec![CIn::S { p: at, m: 0.0, r, s }]),
		Mass::Solid => (0.0, vec![CIn::S { p: at, m: any_m(g, 0.3, 4.0), r, s }]),
		Mass::Both => {
			let own = if g.chance(0.5) { g.range(0.1, 2.0) } else { 0.0 };
			let x = CIn::N { p: g.vec(0.5), m: g.range(0.3, 2.0), i: g.tensor(0.5) };
			(own, vec![CIn::S { p: at, m: g.range(0.3, 3.0), r, s }, x])
		}
		Mass::Infinite => (g.pick(&[0.0, 1.0]), vec![CIn::S { p: at, m: INF, r, s }]),
		Mass::InfiniteOwn => (INF, vec![CIn::S { p: at, m: 0.0, r, s }]),
	}
}

pub fn mass_class(g : &mut Rng) -> Mass {
	match g.below(10) { 0 | 1 => Mass::Point, 2 | 3 | 4 => Mass::Solid, 5 | 6 => Mass::Both, 7 | 8 => Mass::Infinite, _ => Mass::InfiniteOwn }
}

/// Gives a body whose one collider is `c` a mass of the class.
pub fn weigh(g : &mut Rng, m : Mass, mut c : CIn) -> (f32, Vec<CIn>) {
	let set = |c : &mut CIn, x : f32| match c {
		CIn::N { m, .. } | CIn::S { m, .. } | CIn::P { m, .. } | CIn::B { m, .. } => *m = x,
		CIn::M { .. } => {}
	};
	let mesh = if let CIn::M { .. } = c { true } else { false };
	let plane = if let CIn::P { .. } = c { true } else { false };
	match m {
		Mass::Point => { set(&mut c, 0.0); (any_m(g, 0.3, 4.0), vec![c]) }
		Mass::Solid if mesh || plane => { set(&mut c, 0.0); (0.0, vec![c, CIn::N { p: Vec3::zeros(), m: any_m(g, 0.3, 4.0), i: g.tensor(1.0) }]) }
		Mass::Solid => { let x = any_m(g, 0.3, 4.0); set(&mut c, x); (0.0, vec![c]) }
		Mass::Both => {
			set(&mut c, if plane { 0.0 } else { g.range(0.3, 3.0) });
			let own = if g.chance(0.5) { g.range(0.1, 2.0) } else { 0.0 };
			let x = CIn::N { p: g.vec(0.5), m: g.range(0.3, 2.0), i: g.tensor(0.5) };
			(own, vec![c, x])
		}
		Mass::Infinite if !mesh => { set(&mut c, INF); (g.pick(&[0.0, 1.0]), vec![c]) }
		_ => { set(&mut c, 0.0); (INF, vec![c]) }
	}
}

pub fn body(p : Vec3, own : f32, cols : Vec<CIn>) -> Body {
	let mut e = EIn::at(p);
	e.own = own;
	Body { e, cols }
}
pub fn ball(p : Vec3, v : Vec3, r : f32, m : f32, s : Surf) -> Body {
	let mut b = body(p, 0.0, vec![CIn::S { p: Vec3::zeros(), m, r, s }]);
	b.e.v = v;
	b
}
pub fn floor(p : Vec3, n : Vec3, s : Surf) -> Body {
	body(p, 0.0, vec![CIn::P { p: Vec3::zeros(), m: INF, n, s }])
}
pub fn ident() -> Mat3 { Mat3::identity() }
