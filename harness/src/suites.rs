//! The drivers: each makes one kind of history.
use fluffy_tribble::types::{Vec3, Mat3, Quat};
use fluffy_tribble::*;
use crate::rng::Rng;
use crate::scene::*;
use crate::session::*;

/// Performs run `index` of a suite.  Returns extra fields for its line.
pub fn run(suite : &str, seed : u64, index : u64, text : Option<&String>) -> String {
	let mut g = Rng::new(seed, suite, index);
	match suite {
		"reg" => registry(&mut g, false, false),
		"mass" => registry(&mut g, true, false),
		"free" => free(&mut g),
		"contact" => contact(&mut g),
		"multi" => multi(&mut g),
		"limit" => limit(&mut g),
		"sleep" => sleep(&mut g),
		"touch" => touch(&mut g),
		"solid" => { solid(&mut g); return "\"solid\":1,".into(); }
		"twin" => twin(&mut g),
		"deg" => degenerate(&mut g),
		"ori" => orientation(&mut g),
		"mesh" => meshes(&mut g),
		"big" => big(&mut g),
		"neat" => neat(&mut g),
		"many" => registry(&mut g, false, true),
		"star" => star(&mut g),
		_ if text.is_some() => return script(text.unwrap()),
		_ => panic!("no such suite"),
	}
	String::new()
}

// ---------------------------------------------------------------------------------------------
// Histories of registry calls: adds, updates, links and removals with valid and invalid values, live
// and stale handles, and a step now and then.

fn any_mass(g : &mut Rng) -> f32 {
	match g.below(12) { 0 => 0.0, 1 => 1.0, 2 => INF, 3 => -1.0, 4 => f32::NAN, 5 => -INF, 6 => -0.0, 7 => -10.0f32.powf(g.range(-12.0, 2.0)), _ if g.chance(0.12) => 10.0f32.powf(g.range(-5.0, 5.0)), _ => g.range(0.0, 5.0) }
}
fn good_mass(g : &mut Rng) -> f32 { match g.below(6) { 0 => 0.0, 1 => INF, _ if g.chance(0.08) => 10.0f32.powf(g.range(-4.0, 4.0)), _ => g.range(0.1, 5.0) } }

fn any_entity(g : &mut Rng, cell : usize, valid : bool) -> EIn {
	EIn {
		own: if valid { good_mass(g) } else { any_mass(g) },
		p: v3(20.0 * cell as f32, 0.0, 0.0) + g.vec(2.0), r: g.turn(),
		v: if g.chance(0.5) { Vec3::zeros() } else { g.vec(1.0) }, w: if g.chance(0.6) { Vec3::zeros() } else { g.vec(1.0) },
	}
}
fn any_collider(g : &mut Rng, valid : bool, kind : usize) -> CIn {
	let p = if g.chance(0.3) { Vec3::zeros() } else { g.vec(2.0) };
	let m = if valid { good_mass(g) } else { any_mass(g) };
	let s = surf(g);
	let v = |g : &mut Rng| if valid { 9 } else { g.below(6) };
	match kind {
		0 => CIn::N { p, m, i: if m == 0.0 { Mat3::zeros() } else { g.tensor(1.0) } },
		1 => CIn::S { p, m, r: match v(g) { 0 => 0.05, 1 => 0.0, 2 => -1.0, 3 => f32::NAN, 4 => 0.0501, _ if g.chance(0.12) => 10.0f32.powf(g.range(-1.2, 3.5)), _ => g.range(0.1, 1.5) }, s },
		2 => CIn::P { p, m, n: match v(g) { 0 => Vec3::zeros(), 1 => v3(1e-8, 0.0, 0.0), 2 => v3(f32::NAN, 0.0, 1.0), _ if g.chance(0.15) => g.dir() * 10.0f32.powf(g.range(-5.5, 5.0)), _ => g.dir() * g.range(0.3, 3.0) }, s },
		3 => {
			let (mut lo, mut hi) = (-v3(g.range(0.1, 1.0), g.range(0.1, 1.0), g.range(0.1, 1.0)), v3(g.range(0.1, 1.0), g.range(0.1, 1.0), g.range(0.1, 1.0)));
			for i in 0..3 { if g.chance(0.3) { let t = lo[i]; lo[i] = hi[i]; hi[i] = t; } }
			if g.chance(0.08) { let k = 10.0f32.powf(g.range(-1.0, 3.0)); lo *= k; hi *= k; }
			match v(g) { 0 => { let i = g.below(3); hi[i] = lo[i] + g.pick(&[0.0, 1e-7, -1e-7]); } 1 => { lo[g.below(3)] = f32::NAN; } _ => {} }
			// very thin ones are boxes too
			if g.chance(0.15) { let i = g.below(3); if hi[i] != lo[i] && g.chance(0.5) { let d = g.pick(&[1e-5, 1e-4, -1e-4, 1e-3]); lo[i] = -0.5 * d; hi[i] = 0.5 * d; } }
			CIn::B { p, m, lo, hi, s }
		}
		_ => { let w = g.below(MESHES); let size = g.range(0.5, 2.0); CIn::M { p, faces: if v(g) < 2 { vec![] } else { mesh_faces(g, w, size) }, s } }
	}
}

/// `old` with just one field of `new`, if they are of one kind.
fn one_change(g : &mut Rng, old : &CIn, new : &CIn) -> CIn {
	let mut x = old.clone();
	let k = g.below(4);
	match (&mut x, new) {
		(CIn::N { p, m, i }, CIn::N { p: p2, m: m2, i: i2 }) => match k { 0 => *p = *p2, 1 => *m = *m2, _ => *i = *i2 },
		(CIn::S { p, m, r, s }, CIn::S { p: p2, m: m2, r: r2, s: s2 }) => match k { 0 => *p = *p2, 1 => *m = *m2, 2 => *r = *r2, _ => *s = *s2 },
		(CIn::P { p, m, n, s }, CIn::P { p: p2, m: m2, n: n2, s: s2 }) => match k { 0 => *p = *p2, 1 => *m = *m2, 2 => *n = *n2, _ => *s = *s2 },
		(CIn::B { p, m, lo, hi, s }, CIn::B { p: p2, m: m2, lo: lo2, hi: hi2, s: s2 }) => match (k, g.chance(0.5)) { (0, _) => *p = *p2, (1, _) => *m = *m2, (2, true) => *lo = *lo2, (2, false) => *hi = *hi2, _ => *s = *s2 },
		(CIn::M { p, faces, s }, CIn::M { p: p2, faces: faces2, s: s2 }) => match k { 0 => *p = *p2, 1 | 2 => *faces = faces2.clone(), _ => *s = *s2 },
		_ => return new.clone(),
	}
	x
}

fn registry(g : &mut Rng, masses : bool, many : bool) {
	let mut s = Session::new();
	let mut cells = 0;
	let n = if many { 70 + g.below(40) } else { 14 + g.below(14) };
	let (most, most_cols) = if many { (30, 45) } else { (4, 10) };
	// (one entity may get most of the colliders)
	let hoard = many && g.chance(0.4);
	let most = if hoard { 4 } else { most };
	if g.chance(0.3) { s.configure(g.below(4) as u8, 0.001, 0.1); }
	for _ in 0..n {
		if s.over { return; }
		let valid = masses || g.chance(0.75);
		let (ne, nc, ng) = (s.eh.len(), s.ch.len(), s.gh.len());
		let op = if ne == 0 { 0 } else if nc == 0 { 1 } else { g.below(if masses { 17 } else { 24 }) };
		// mostly growing
		let op = if many && 0 < ne && 0 < nc && g.chance(0.6) { g.pick(&[0, 1, 2, 3, 20]) } else { op };
		match op {
			0 => {
				let live : usize = (0..ne).filter(|i| s.get(*i).is_some()).count();
				if live >= most { continue; }
				if g.chance(0.25) && ne > 0 {
					// from a copy of another one
					if let Some(e) = s.get(g.below(ne)) {
						let mut x = EIn::of(&e);
						if g.chance(0.5) { x.p = any_entity(g, cells, true).p; } else { x.p += v3(0.0, 30.0, 0.0); }
						if !valid { x.own = -2.0; }
						s.add_entity_from(&x, Some(e));
					}
				} else { let x = any_entity(g, cells, valid); s.add_entity(&x); }
				cells += 1;
			}
			1 | 2 => {
				if nc >= most_cols { continue; }
				let kind = if masses { g.below(4) } else { g.below(5) };
				let c = if g.chance(0.15) && nc > 0 { let i = g.below(nc); s.add_collider_copy(i) } else { let x = any_collider(g, valid, kind); s.add_collider(&x) };
				if let Some(c) = c { if g.chance(0.7) { let e = if hoard && g.chance(0.85) { 0 } else { g.below(s.eh.len()) }; s.link(c, Some(e)); } }
			}
			3 | 4 | 5 => { let e = if g.chance(0.2) { None } else { Some(g.below(ne)) }; let c = g.below(nc); s.link(c, e); }
			6 | 7 => {
				let i = g.below(nc);
				let kind = match s.cin[i].kind() { _ if g.chance(if valid { 0.1 } else { 0.3 }) => g.below(5), "N" => 0, "S" => 1, "P" => 2, "B" => 3, _ => 4 };
				let mut x = any_collider(g, valid, kind);
				if g.chance(0.5) { x = one_change(g, &s.cin[i], &x); }
				s.update_collider(i, &x);
			}
			8 => { let i = g.below(nc); s.write_back_collider(i); }
			9 | 10 => {
				let i = g.below(ne);
				let mut x = match s.get(i) { Some(e) => EIn::of(&e), None => any_entity(g, 0, true) };
				match g.below(5) {
					0 => x.own = if valid { good_mass(g) } else { any_mass(g) },
					1 => x.p += g.vec(1.0),
					2 => x.r = g.turn(),
					3 => x.v = g.vec(1.0),
					_ => x.w = g.vec(1.0),
				}
				if !valid { x.own = g.pick(&[-1.0, f32::NAN, 0.0, 2.0]); }
				let fresh = g.chance(0.3);
				s.update_entity(i, &x, fresh);
			}
			11 => { let i = g.below(ne); s.write_back(i); }
			12 => { let i = g.below(nc); s.remove_collider(i); }
			13 => { s.step(0.0); }
			14 | 15 => { if ng == 0 && g.chance(0.5) { let a = g.vec(3.0); s.add_generator(&GIn::Bare(a)); } let dt = g.pick(&[0.01, 0.1, 1e-7, 0.3]); s.step(dt); }
			16 => { if ng > 0 { let i = g.below(ng); s.remove_generator(i); } else { let a = g.vec(3.0); s.add_generator(&GIn::Gravity(a)); } }
			17 | 18 => { let i = if hoard && nc < 30 { ne - 1 } else { g.below(ne) }; s.remove_entity(i); }
			19 => { let i = g.below(nc); s.remove_collider(i); }
			20 => { let a = g.vec(3.0); s.add_generator(&GIn::Gravity(a)); }
			21 => { if ng > 0 { let i = g.below(ng); s.remove_generator(i); } }
			_ => { s.step(0.02); }
		}
	}
	if hoard && !s.over {
		// everything to one entity, which is then removed
		let alive : Vec<usize> = (0..s.eh.len()).filter(|i| s.get(*i).is_some()).collect();
		if alive.is_empty() { return; }
		let i = alive[g.below(alive.len())];
		for c in 0..s.ch.len() { if g.chance(0.9) { s.link(c, Some(i)); } }
		s.step(0.01);
		s.remove_entity(i);
		s.step(0.01);
		for _ in 0..4 {
			let c = g.below(s.ch.len());
			let e = g.below(s.eh.len());
			s.link(c, Some(e));
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Free bodies under forces.

fn any_generator(g : &mut Rng, p : Vec3) -> GIn {
	match g.below(6) {
		0 => GIn::Bare(g.vec(5.0)),
		1 => GIn::Gravity(g.vec(5.0)),
		2 => GIn::Push(g.vec(3.0), g.vec(1.0)),
		3 => GIn::Spring(g.vec(1.0), p + g.vec(3.0), g.range(0.1, 3.0)),
		4 => GIn::Drag(g.range(0.0, 0.5)),
		_ => GIn::Push(g.dir() * g.range(0.0, 8.0), Vec3::zeros()),
	}
}
fn any_cols(g : &mut Rng) -> (f32, Vec<CIn>) {
	let n = 1 + g.below(3);
	let mut cols = vec![];
	for _ in 0..n {
		let s = surf(g);
		let (p, m) = (g.vec(1.0), g.range(0.3, 3.0));
		cols.push(match g.below(4) {
			0 => CIn::N { p, m, i: g.tensor(1.0) },
			1 | 2 => CIn::S { p, m, r: g.range(0.2, 1.2), s },
			_ => CIn::B { p, m, lo: -v3(g.range(0.1, 1.0), g.range(0.1, 1.0), g.range(0.1, 1.0)), hi: v3(g.range(0.1, 1.0), g.range(0.1, 1.0), g.range(0.1, 1.0)), s },
		});
	}
	(if g.chance(0.4) { g.range(0.1, 2.0) } else { 0.0 }, cols)
}
fn free(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.imax = g.pick(&[5, 1, 8]);
	if g.chance(0.5) { sc.eth = 0.0; }
	// Whether there are masses of any size, which other forces than gravity would move at any speed.
	let weightless = g.chance(0.3);
	let n = 1 + g.below(4);
	for i in 0..n {
		let p = v3(40.0 * i as f32, 0.0, 0.0) + g.vec(2.0);
		let (own, cols) = match g.below(8) {
			0 => (g.pick(&[0.0, 1e-7, INF, 2.0]), vec![]),
			1 => (INF, any_cols(g).1),
			2 => { let (o, mut c) = any_cols(g); if let CIn::S { m, .. } | CIn::N { m, .. } | CIn::B { m, .. } = &mut c[0] { *m = INF; } (o, c) }
			3 if weightless => (10.0f32.powf(g.range(-5.5, 4.0)), vec![]),
			4 | 5 if weightless => { let m = 10.0f32.powf(g.range(-5.0, 4.0)); (0.0, vec![CIn::S { p: g.vec(1.0), m, r: g.range(0.2, 1.2), s: surf(g) }]) }
			_ => any_cols(g),
		};
		let mut b = body(p, own, cols);
		b.e.r = g.turn();
		if g.chance(0.8) { b.e.v = g.vec(2.0); }
		if g.chance(0.7) { b.e.w = g.vec(3.0); }
		sc.bodies.push(b);
	}
	for _ in 0..g.below(4) {
		let x = if weightless { g.pick(&[GIn::Bare(v3(0.0, -9.8, 0.0)), GIn::Gravity(v3(1.0, 2.0, -3.0))]) } else { any_generator(g, v3(20.0, 0.0, 0.0)) };
		sc.gens.push(x);
	}
	let at = sc.build_all(&mut s);
	for _ in 0..4 + g.below(6) {
		if !weightless && g.chance(0.12) { let x = any_generator(g, Vec3::zeros()); s.add_generator(&x); }
		if g.chance(0.12) && s.gh.len() > 0 { let i = g.below(s.gh.len()); s.remove_generator(i); }
		if g.chance(0.06) { let i = g.pick(&at); s.remove_entity(i); }
		if g.chance(0.08) { let i = g.pick(&at); s.write_back(i); }
		let dt = if g.chance(0.06) { g.pick(&[1.0, 2.5, 6.0]) } else { g.pick(&[0.01, 0.05, 0.1, 0.25, 1e-7, 2e-6]) };
		s.step(dt);
	}
}

// ---------------------------------------------------------------------------------------------
// Two bodies and one aimed hit.

/// A point of the surface in local space with a direction off it.
fn spot(g : &mut Rng, c : &CIn) -> (Vec3, Vec3) {
	match c {
		CIn::S { p, r, .. } => { let d = g.dir(); (p + d * *r, d) }
		CIn::P { p, n, .. } => { let d = n.normalize(); let t = g.vec(4.0); (p + t - d * d.dot(&t), d) }
		CIn::B { p, lo, hi, .. } => loop {
			let mut x = Vec3::zeros();
			let mut d = Vec3::zeros();
			for i in 0..3 {
				let (a, z) = (lo[i].min(hi[i]), lo[i].max(hi[i]));
				match g.below(3) { 0 => { x[i] = a; d[i] = -g.range(0.1, 1.0); } 1 => { x[i] = z; d[i] = g.range(0.1, 1.0); } _ => { x[i] = g.range(a + 0.1 * (z - a), z - 0.1 * (z - a)); } }
			}
			if d.norm() > 0.05 { return (p + x, d.normalize()); }
		},
		CIn::M { p, faces, .. } => {
			let f = &faces[g.below(faces.len())];
			let n = (f[1] - f[0]).cross(&(f[2] - f[0])).normalize() * g.pick(&[1.0, -1.0]);
			let k = g.below(f.len());
			let (a, b2) = (f[k], f[(k + 1) % f.len()]);
			let mid = f.iter().fold(Vec3::zeros(), |s, x| s + x) / f.len() as f32;
			match g.below(3) {
				0 => { // inside of the face
					let mut x = Vec3::zeros();
					let mut sum = 0.0;
					for c in f { let w = g.range(0.1, 1.0); x += c * w; sum += w; }
					(p + x / sum, n)
				}
				1 => { // an edge, coming from outside of the face
					let x = a + (b2 - a) * g.range(0.1, 0.9);
					let out = (x - mid) - (b2 - a) * ((x - mid).dot(&(b2 - a)) / (b2 - a).norm_squared());
					(p + x, (out.normalize() * g.range(0.2, 1.0) + n * g.range(-1.0, 1.0)).normalize())
				}
				_ => { let out = (a - mid).normalize(); (p + a, (out + n * g.range(-0.9, 0.9) + g.vec(0.2)).normalize()) }
			}
		}
		CIn::N { p, .. } => (*p, Vec3::x()),
	}
}

fn any_shape(g : &mut Rng, kind : usize) -> CIn {
	let s = surf(g);
	let p = if g.chance(0.4) { Vec3::zeros() } else { g.vec(1.0) };
	match kind {
		0 => CIn::S { p, m: 1.0, r: g.pick(&[0.06, 0.3, 1.0, 2.0]) * g.range(0.9, 1.1), s },
		1 => CIn::P { p, m: 1.0, n: g.dir() * g.range(0.5, 2.0), s },
		2 => { let k = g.pick(&[0.3, 1.0, 4.0]); CIn::B { p, m: 1.0, lo: -v3(g.range(0.2, 1.0), g.range(0.2, 1.0), g.range(0.2, 1.0)) * k, hi: v3(g.range(0.2, 1.0), g.range(0.2, 1.0), g.range(0.2, 1.0)) * k, s } }
		_ => { let w = g.below(MESHES); let k = g.pick(&[0.5, 1.0, 5.0]); CIn::M { p, faces: mesh_faces(g, w, k), s } }
	}
}
fn spin(g : &mut Rng) -> Vec3 { match g.below(4) { 0 | 1 => Vec3::zeros(), 2 => g.vec(0.5), _ => g.vec(4.0) } }

/// A ball aimed at a spot of b's collider, to hit it at time t.
fn aimed(g : &mut Rng, b : &Body, c : &CIn, t : f32, class : Mass) -> Body {
	let (x, d) = spot(g, c);
	let q = Quat::from_scaled_axis(b.e.r);
	let d = if let CIn::P { .. } = c { d } else { q * d };
	let x = b.e.p + q * x;
	let r = g.pick(&[0.06, 0.2, 0.5, 1.0]) * g.range(1.0, 1.2);
	let mut u = g.vec(3.0);
	if u.dot(&d) > 0.0 { u = -u; }
	if g.chance(0.2) { u = d * u.dot(&d); }
	if g.chance(0.05) { u *= 10.0; }
	let lc = if g.chance(0.5) { Vec3::zeros() } else { g.vec(1.0) };
	let s = surf(g);
	let (own, cols) = ball_cols(g, class, r, lc, s);
	let turn = g.turn();
	let center = x + d * r - u * t;
	let mut a = body(center - Quat::from_scaled_axis(turn) * lc, own, cols);
	a.e.r = turn;
	a.e.v = u + b.e.v;
	a.e.w = spin(g);
	a
}

/// Two meshes, a vertex of one of which gets to a face of the other one.
fn two_meshes(g : &mut Rng, place : Vec3, dt : f32) -> Vec<Body> {
	let c = any_shape(g, 3);
	let mc = mass_class(g);
	let (own, cols) = weigh(g, mc, c.clone());
	let mut b = body(place, own, cols);
	b.e.r = g.turn();
	if g.chance(0.6) { b.e.v = g.vec(2.0); }
	if g.chance(0.3) { b.e.w = g.vec(0.5); }
	let (x, d) = loop {
		let (x, d) = spot(g, &c);
		if let CIn::M { p, faces, .. } = &c { if faces.iter().any(|f| { let n = (f[1] - f[0]).cross(&(f[2] - f[0])).normalize(); n.dot(&(x - p - f[0])).abs() < 1e-3 && n.dot(&d).abs() > 0.9 }) { break (x, d); } }
	};
	let q = Quat::from_scaled_axis(b.e.r);
	let (x, d) = (b.e.p + q * x, q * d);
	let (w, k) = (g.below(MESHES), g.pick(&[0.3, 1.0, 3.0]));
	let s = surf(g);
	let faces = mesh_faces(g, w, k);
	let p = if g.chance(0.5) { Vec3::zeros() } else { g.vec(0.5) };
	// a vertex that comes first where it is going
	let turn = g.turn();
	let q = Quat::from_scaled_axis(turn);
	let tip = faces.iter().flatten().map(|v| q * (p + v)).fold((INF, Vec3::zeros()), |best, v| if v.dot(&d) < best.0 { (v.dot(&d), v) } else { best }).1;
	let mc2 = if g.chance(0.8) { g.pick(&[Mass::Point, Mass::Both, Mass::Solid]) } else { mass_class(g) };
	let (own, cols) = weigh(g, mc2, CIn::M { p, faces, s });
	let mut u = g.vec(3.0);
	if u.dot(&d) > 0.0 { u = -u; }
	let t = dt * instant(g) * 1.02;
	let mut a = body(x - tip - u * t, own, cols);
	a.e.r = turn;
	a.e.v = u + b.e.v;
	if g.chance(0.3) { a.e.w = g.vec(0.5); }
	vec![a, b]
}

/// A part of a step, which often enough is next to nothing or next to all of it.
fn instant(g : &mut Rng) -> f32 {
	let d = 10.0f32.powf(g.range(-4.5, -1.5));
	match g.below(12) { 0 => d, 1 | 2 => 1.0 - d, _ => g.range(0.0, 1.0) }
}

fn contact(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.imax = g.pick(&[5, 1, 2, 10]);
	if g.chance(0.5) { sc.eth = 0.0; }
	let dt = g.pick(&[0.02, 0.1, 0.5, 1.0, 0.02, 0.1, 0.5, 4.0]);
	let kind = g.below(6);
	let far = if g.chance(0.5) { 3.0 } else { 15.0 };
	let place = g.vec(far);
	let mc = mass_class(g);
	if kind == 4 {
		// a mesh above a plane
		let fl = any_shape(g, 1);
		let (w, k) = (g.below(MESHES), g.range(0.5, 2.0));
		let surface = surf(g);
		let m = CIn::M { p: if g.chance(0.5) { Vec3::zeros() } else { g.vec(0.5) }, faces: mesh_faces(g, w, k), s: surface };
		let (fp, n) = if let CIn::P { p, n, .. } = &fl { (*p, n.normalize()) } else { unreachable!() };
		let (own, cols) = weigh(g, mc, fl);
		let mut f = body(place, own, cols);
		if g.chance(0.3) { f.e.v = g.vec(1.0); }
		let mc2 = if g.chance(0.7) { g.pick(&[Mass::Point, Mass::Both, Mass::Solid]) } else { mass_class(g) };
		let (own, cols) = weigh(g, mc2, m.clone());
		let mut turn = g.turn();
		let flat = g.chance(0.35);
		if let (true, CIn::M { faces, .. }) = (flat, &m) {
			// with a face or an edge down
			let all : Vec<Vec3> = faces.iter().flatten().cloned().collect();
			let mid = all.iter().fold(Vec3::zeros(), |a, b| a + b) / all.len() as f32;
			let f = &faces[g.below(faces.len())];
			let k = g.below(f.len());
			let (a, b, c) = (f[k], f[(k + 1) % f.len()], f[(k + 2) % f.len()]);
			let mut up = if g.chance(0.6) { (b - a).cross(&(c - b)) } else {
				let u = (b - a).normalize();
				let h = mid - a;
				h - u * u.dot(&h)
			};
			if (mid - a).dot(&up) < 0.0 { up = -up; }
			if let Some(q) = Quat::rotation_between(&up, &n) { turn = (Quat::from_scaled_axis(n * g.range(-3.0, 3.0)) * q).scaled_axis(); }
		}
		let q = Quat::from_scaled_axis(turn);
		let low = if let CIn::M { p, faces, .. } = &m { faces.iter().flatten().map(|x| (q * (p + x)).dot(&n)).fold(INF, f32::min) } else { 0.0 };
		let mut u = g.vec(2.0);
		if u.dot(&n) > 0.0 { u = -u; }
		let t = dt * if g.chance(0.9) { instant(g) } else { g.range(1.0, 1.1) };
		let t2 = g.vec(3.0);
		let mut b = body(place + fp + n * (-low) + (t2 - n * n.dot(&t2)) - u * t, own, cols);
		b.e.r = turn;
		b.e.v = u + f.e.v;
		b.e.w = match g.below(3) { 0 if !flat => g.vec(0.3), _ => Vec3::zeros() };
		sc.bodies = vec![b, f];
	} else if kind == 5 {
		sc.bodies = two_meshes(g, place, dt);
	} else {
		let c = any_shape(g, kind);
		let (own, cols) = weigh(g, mc, c.clone());
		let mut b = body(place, own, cols);
		b.e.r = g.turn();
		if g.chance(0.4) { b.e.v = g.vec(1.0); }
		if kind != 1 { b.e.w = spin(g); }
		if kind == 3 && g.chance(0.7) { b.e.w = Vec3::zeros(); }
		let t = dt * if g.chance(0.9) { instant(g) } else { g.range(1.0, 1.3) };
		let mc2 = if g.chance(0.8) { g.pick(&[Mass::Point, Mass::Both, Mass::Solid]) } else { mass_class(g) };
		let a = aimed(g, &b, &c, t, mc2);
		sc.bodies = vec![a, b];
	}
	if g.chance(0.25) { // a bystander
		let p = place + g.dir() * 60.0;
		sc.bodies.push(ball(p, g.vec(0.5), 1.0, 1.0, Surf::smooth(1.0)));
	}
	if g.chance(0.5) { sc.bodies.reverse(); }
	let dt = dt * sc.vary(g, false);
	sc.build_all(&mut s);
	s.step(dt);
	if g.chance(0.5) { s.step(dt); }
	if g.chance(0.3) { s.step(dt); }
}

// ---------------------------------------------------------------------------------------------
// Several bodies, several hits in a step.

/// Balls on one beam, some of which leave what the others are about to hit.
fn seesaw(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 0.0;
	sc.imax = g.pick(&[3, 8, 20]);
	let dt = g.pick(&[0.05, 0.1]);
	let (base, top) = (surf(g), surf(g));
	let n = 2 + g.below(3);
	let turn = v3(0.0, g.range(-3.0, 3.0), 0.0);
	let q = Quat::from_scaled_axis(turn);
	let half = 0.75 * (n - 1) as f32;
	let cols : Vec<CIn> = (0..n).map(|k| CIn::S { p: v3(1.5 * k as f32 - half, 0.0, 0.0), m: g.range(0.5, 1.5), r: 0.5, s: top }).collect();
	let w = q * v3(0.0, 0.0, g.range(0.3, 1.5) * g.pick(&[-1.0, 1.0]));
	let low = 0.5 + g.range(0.0, 0.05);
	let mut b = body(v3(0.0, low, 0.0), 0.0, cols);
	b.e.r = turn;
	b.e.w = w;
	b.e.v = v3(g.range(-1.0, 1.0), g.range(-0.3, 0.3), g.range(-1.0, 1.0));
	if g.chance(0.5) { sc.bodies.push(floor(Vec3::zeros(), Vec3::y(), base)); } else {
		// another beam instead of the ground
		let m = 2 + g.below(3);
		let other : Vec<CIn> = (0..m).map(|k| CIn::S { p: q * v3(1.5 * k as f32 - 0.75 * (m - 1) as f32, 0.0, 0.0), m: g.pick(&[1.0, 1.0, INF]), r: 0.5, s: base }).collect();
		let at = q * v3(g.range(-0.1, 0.1), 0.0, g.range(-0.1, 0.1));
		sc.bodies.push(body(at, 0.0, other));
		b.e.p.y = 1.0 + g.range(-0.01, 0.03);
	}
	sc.bodies.push(b);
	if g.chance(0.4) { sc.bodies.reverse(); }
	if g.chance(0.4) { sc.gens.push(GIn::Gravity(v3(0.0, -9.8, 0.0))); }
	sc.build_all(&mut s);
	for _ in 0..2 + g.below(3) { s.step(dt); }
}

/// A ball or a cube that is dropped straight onto something, all in round numbers: the middle of a face, right
/// above an edge or a corner, sliding by, touching from the start.
/// Several pairs that hit at almost the same time.
fn close_calls(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 0.0;
	sc.imax = g.pick(&[1, 2, 10]);
	let dt = g.pick(&[0.25, 0.5, 1.0]);
	let t = g.range(0.1, 0.9);
	let ground = g.chance(0.5);
	if ground { let x = surf(g); sc.bodies.push(floor(Vec3::zeros(), Vec3::y(), x)); }
	let n = 2 + g.below(3);
	let d = g.pick(&[0.00003, 0.00006, 0.0002, 0.001]);
	for k in 0..n {
		let at = v3(4.0 * k as f32 - 4.0, 0.0, 0.0);
		let (sa, sb) = (surf(g), surf(g));
		let v = g.pick(&[8.0f32, 16.0, 32.0]) / dt;
		let down = v * dt * (t + d * g.below(4) as f32);
		if ground { sc.bodies.push(ball(at + v3(0.0, 1.0 + down, 0.0), v3(0.0, -v, 0.0), 1.0, g.range(0.5, 2.0), sa)); }
		else {
			let m = g.pick(&[INF, 1.0, 2.0]);
			sc.bodies.push(ball(at, Vec3::zeros(), 1.0, m, sa));
			sc.bodies.push(ball(at + v3(0.0, 1.5 + down, 0.0), v3(0.0, -v, 0.0), 0.5, g.range(0.5, 2.0), sb));
		}
	}
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	sc.build_all(&mut s);
	s.step(dt);
}

fn neat(g : &mut Rng) {
	if g.chance(0.12) { return seesaw(g); }
	if g.chance(0.08) { return close_calls(g); }
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.imax = g.pick(&[5, 1, 10]);
	if g.chance(0.5) { sc.eth = 0.0; }
	let dt = g.pick(&[0.125, 0.25, 0.5, 1.0]);
	let su = |g : &mut Rng| { let mut x = surf(g); if g.chance(0.5) { x.e = g.pick(&[0.0, 0.5, 1.0]); x.sf = 0.0; x.df = 0.0; } x };
	let place = v3(g.below(5) as f32 - 2.0, g.below(5) as f32 - 2.0, g.below(5) as f32 - 2.0);
	let k = g.below(3);
	let side = g.pick(&[1.0f32, -1.0]);
	let mut up = Vec3::zeros();
	up[k] = side;
	let cube = |g : &mut Rng, h : Vec3| {
		let c = |i : usize| v3(if i & 1 == 0 { -h.x } else { h.x }, if i & 2 == 0 { -h.y } else { h.y }, if i & 4 == 0 { -h.z } else { h.z });
		[[0,2,6,4],[1,3,7,5],[0,1,5,4],[2,3,7,6],[0,1,3,2],[4,5,7,6]].iter().map(|f| { let mut f : Face = f.iter().map(|i| c(*i)).collect(); if g.chance(0.5) { f.reverse(); } f }).collect::<Vec<Face>>()
	};
	let h = v3(g.pick(&[0.5, 1.0, 2.0]), g.pick(&[0.5, 1.0, 2.0]), g.pick(&[0.5, 1.0, 2.0]));
	let kind = g.below(8);
	let surface = su(g);
	// what is below, and how high it is there
	let (c, top) = match kind {
		0 => (CIn::S { p: Vec3::zeros(), m: 1.0, r: 1.0, s: surface }, 1.0),
		1 | 4 => (CIn::P { p: Vec3::zeros(), m: 1.0, n: up, s: surface }, 0.0),
		2 => (CIn::B { p: Vec3::zeros(), m: 1.0, lo: -h, hi: h, s: surface }, h[k]),
		3 | 6 => { let faces = cube(g, h); (CIn::M { p: Vec3::zeros(), faces, s: surface }, h[k]) }
		_ => { // a sheet
			let (i, j) = ((k + 1) % 3, (k + 2) % 3);
			let at = |a : f32, b : f32| { let mut x = Vec3::zeros(); x[i] = a * h[i]; x[j] = b * h[j]; x };
			let mut f = vec![at(-1.0, -1.0), at(1.0, -1.0), at(1.0, 1.0), at(-1.0, 1.0)];
			if g.chance(0.5) { f.reverse(); }
			let faces = if g.chance(0.5) { vec![f] } else { vec![vec![f[0], f[1], f[2]], vec![f[0], f[2], f[3]]] };
			(CIn::M { p: Vec3::zeros(), faces, s: surface }, 0.0)
		}
	};
	let mc = mass_class(g);
	let (own, cols) = weigh(g, mc, c);
	let mut b = body(place, own, cols);
	// beside what is below, by how much
	let r = g.pick(&[0.5f32, 1.0]);
	let mut off = Vec3::zeros();
	for i in 0..3 { if i != k { off[i] = g.pick(&[0.0, 0.0, 0.25, 0.5, h[i], h[i] - 0.25, h[i] + 0.25, h[i] + 0.5 * r, -h[i], -0.5]); } }
	let surface = su(g);
	let mc2 = g.pick(&[Mass::Point, Mass::Solid, Mass::Solid, Mass::Both, Mass::Infinite]);
	let (own, cols, low) = if kind == 4 || kind >= 6 {
		let (mode, h2) = (g.chance(0.7), g.pick(&[0.5, 1.0]));
		let faces = if mode { cube(g, v3(h2, h2, h2)) } else { let mut f = vec![]; for (x, y) in [(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)] { let mut q = Vec3::zeros(); q[(k + 1) % 3] = x * h2; q[(k + 2) % 3] = y * h2; f.push(q); } vec![f] };
		let (own, cols) = weigh(g, mc2, CIn::M { p: Vec3::zeros(), faces, s: surface });
		(own, cols, if mode { h2 } else { 0.0 })
	} else { let (own, cols) = ball_cols(g, mc2, r, Vec3::zeros(), surface); (own, cols, r) };
	let late = g.chance(0.08);
	let speed = if late { g.pick(&[8.0, 32.0]) / dt } else { g.pick(&[0.5, 1.0, 2.0, 4.0]) };
	let t = dt * if late { g.pick(&[0.9995, 0.9998, 0.999, 0.001, 0.0005]) } else { g.pick(&[0.0, 0.25, 0.5, 0.75, 1.25]) };
	let mut a = body(place + off + up * (top + low + speed * t), own, cols);
	a.e.v = -up * speed;
	for i in 0..3 { if i != k && g.chance(0.3) { a.e.v[i] = g.pick(&[0.5, 1.0, -1.0]); if g.chance(0.7) { a.e.p[i] -= a.e.v[i] * t; } } }
	if g.chance(0.2) { a.e.w[g.below(3)] = g.pick(&[1.0, -2.0]); }
	if g.chance(0.3) { let v = v3(g.pick(&[0.0, 1.0, -0.5]), g.pick(&[0.0, 1.0, -0.5]), g.pick(&[0.0, 1.0, -0.5])); a.e.v += v; b.e.v += v; }
	if g.chance(0.15) { a.e.v = g.pick(&[Vec3::zeros(), v3(a.e.v.y, a.e.v.z, a.e.v.x)]); }
	// all of it turned by right angles now and then
	if g.chance(0.25) {
		let mut turn = Vec3::zeros();
		turn[g.below(3)] = std::f32::consts::FRAC_PI_2 * g.pick(&[1.0, 2.0, -1.0]);
		let q = Quat::from_scaled_axis(turn);
		for x in [&mut a, &mut b].iter_mut() { x.e.p = q * x.e.p; x.e.v = q * x.e.v; x.e.w = q * x.e.w; if kind != 1 && kind != 4 { x.e.r = turn; } }
		if kind == 1 || kind == 4 { a.e.r = turn; for c in b.cols.iter_mut() { if let CIn::P { n, .. } = c { *n = q * *n; } } }
	}
	sc.bodies = vec![a, b];
	if g.chance(0.5) { sc.bodies.reverse(); }
	let dt = dt * sc.vary(g, true);
	sc.build_all(&mut s);
	s.step(dt);
	for _ in 0..g.below(3) { s.step(dt); }
}

fn crowd(g : &mut Rng, n : usize, dt : f32) -> Scene {
	let mut sc = Scene::new();
	if g.chance(0.5) { sc.eth = 0.0; }
	// something in the middle that is hit from all sides
	let kind = g.below(4);
	let c = any_shape(g, kind);
	let class = if g.chance(0.5) { Mass::Infinite } else { mass_class(g) };
	let (own, cols) = weigh(g, class, c.clone());
	let mut b = body(g.vec(2.0), own, cols);
	b.e.r = g.turn();
	if g.chance(0.3) && class != Mass::Infinite { b.e.v = g.vec(0.5); }
	for k in 0..n {
		let t = dt * (k as f32 + g.range(0.2, 0.8)) / n as f32;
		let mc = g.pick(&[Mass::Point, Mass::Solid, Mass::Both]);
		let a = aimed(g, &b, &c, t, mc);
		// not on top of the others
		let apart = sc.bodies.iter().all(|o : &Body| (o.e.p - a.e.p).norm() > 4.5 || g.chance(0.05));
		if apart { sc.bodies.push(a); }
	}
	sc.bodies.insert(g.below(sc.bodies.len() + 1), b);
	sc
}

fn multi(g : &mut Rng) {
	let mut s = Session::new();
	let dt = g.pick(&[0.05, 0.2, 0.5]);
	let n = 2 + g.below(4);
	let mut sc = crowd(g, n, dt);
	sc.imax = g.pick(&[5, 5, 10, 20]);
	let dt = dt * sc.vary(g, false);
	sc.build_all(&mut s);
	for _ in 0..1 + g.below(3) { s.step(dt); }
}
fn limit(g : &mut Rng) {
	let mut s = Session::new();
	let dt = g.pick(&[0.2, 0.5, 1.0]);
	if g.chance(0.5) {
		let n = 2 + g.below(4);
		let mut sc = crowd(g, n, dt);
		sc.imax = g.below(4) as u8;
		sc.build_all(&mut s);
	} else {
		// a ball that bounces to and fro between two walls
		let mut sc = Scene::new();
		sc.imax = g.below(7) as u8;
		let gap = g.range(1.1, 2.0);
		let d = g.dir();
		let e = g.pick(&[1.0, 0.9]);
		let su = Surf::smooth(e);
		sc.bodies.push(floor(-d * gap * 0.5, d, su));
		sc.bodies.push(floor(d * gap * 0.5, -d, su));
		let v = d * g.range(1.0, 12.0) + g.vec(0.3);
		sc.bodies.push(ball(Vec3::zeros(), v, 0.5, 1.0, Surf::smooth(1.0)));
		if g.chance(0.5) { sc.bodies.push(ball(d.cross(&v3(0.3, 0.5, 0.7)).normalize() * 5.0, d * g.range(1.0, 12.0), 0.5, 1.0, Surf::smooth(1.0))); }
		if g.chance(0.5) { sc.gens.push(GIn::Gravity(g.vec(3.0))); }
		sc.build_all(&mut s);
	}
	for _ in 0..2 + g.below(3) {
		let dt = g.pick(&[dt, dt, dt, 1e-7, 5e-7, 0.0]);
		s.step(dt);
	}
	// What's left after some or all are gone.
	if g.chance(0.25) {
		let all = g.chance(0.5);
		for i in 0..s.eh.len() { if all || g.chance(0.5) { s.remove_entity(i); } }
		if g.chance(0.3) { s.step(1e-7); }
		s.step(dt);
	}
}

// ---------------------------------------------------------------------------------------------
// Falling asleep and waking up.

/// A change of one thing that's small, but counts.
fn nudge(g : &mut Rng, x : &mut EIn) {
	let d = g.dir() * 10.0f32.powf(g.range(-4.6, -2.0));
	match g.below(5) { 0 => x.p += d, 1 => x.r += d * 2.2, 2 => x.v += d, 3 => x.w += d, _ => x.own += d.norm() }
}

fn disturb(g : &mut Rng, s : &mut Session) {
	let n = s.eh.len();
	let i = g.below(n);
	let e = match s.get(i) { Some(e) => e, None => { s.remove_entity(i); return; } };
	let mut x = EIn::of(&e);
	match g.below(14) {
		0 | 1 | 2 => { x.v += g.vec(1.0); s.update_entity(i, &x, false); }
		3 => { x.w += g.vec(1.0); s.update_entity(i, &x, false); }
		4 => { x.p += v3(0.0, 0.01, 0.0); s.update_entity(i, &x, false); }
		5 => { x.r = x.r + v3(0.0, 0.02, 0.0); s.update_entity(i, &x, false); }
		6 | 7 => s.write_back(i),
		8 => s.remove_entity(i),
		9 => { // changes that don't wake anyone
			match g.below(5) {
				4 => { // refused
					let c = g.below(s.ch.len());
					match g.below(4) {
						0 => { x.own = -1.0; x.v += g.vec(1.0); s.update_entity(i, &x, false); }
						1 => { s.update_collider(c, &CIn::S { p: Vec3::zeros(), m: 1.0, r: 0.01, s: Surf::smooth(0.0) }); }
						_ => { let k = g.below(5); let x = any_collider(g, k != 0, k); if let CIn::S { .. } = x {} else if let CIn::P { .. } = x {} else { s.update_collider(c, &x); } }
					}
				}
				0 => { if let Some(c) = s.add_collider(&CIn::N { p: Vec3::zeros(), m: 0.5, i: ident() * 0.1 }) { s.link(c, Some(i)); } }
				1 => { let c = g.below(s.ch.len()); s.write_back_collider(c); }
				2 => { s.add_entity(&EIn::at(v3(500.0, 0.0, 0.0))); }
				_ => {
					if g.chance(0.4) { x.p += v3(1e-7, 0.0, 0.0); x.v.x += 2e-7; } else { nudge(g, &mut x); }
					s.update_entity(i, &x, false);
				}
			}
		}
		10 => { // something flies in
			let mut b = ball(e.position + v3(0.0, 2.2, 0.0), v3(0.0, -2.0, 0.0), 0.5, g.range(0.2, 2.0), Surf::smooth(g.range(0.0, 1.0)));
			b.e.p += g.vec(0.1);
			if let Some(k) = s.add_entity(&b.e) { if let Some(c) = s.add_collider(&b.cols[0]) { s.link(c, Some(k)); } }
		}
		11 => { x.own = if x.own == 0.5 { 0.0 } else { 0.5 }; if e.get_last_total_mass().is_finite() { s.update_entity(i, &x, false); } }
		_ => {}
	}
}

fn sleep(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	let kind = g.below(5);
	// (without any contacts a step may be of any length)
	let calm = kind == 0 || kind == 4;
	let dt = if calm { g.pick(&[0.015625, 0.0625, 0.25, 1.0, 4.0]) } else { g.pick(&[0.015625, 0.03125, 0.0625]) };
	sc.sth = dt * g.pick(&[0.0, 1.0, 2.0, 3.0, if calm { 8.0 } else { 4.5 }]);
	sc.eth = g.pick(&[0.0009765625, 0.001, 0.0, 0.125]);
	sc.imax = g.pick(&[5, 10, 30]);
	let n = 1 + g.below(4);
	let fe = g.range(0.0, 0.3);
	let mut gravity = g.chance(0.7);
	match kind {
		4 => { // uneven bodies that turn, one of which has about as much energy as the threshold
			for k in 0..n {
				let (own, cols) = any_cols(g);
				let mut b = body(v3(15.0 * k as f32, 0.0, 0.0), own, cols);
				b.e.r = g.turn();
				if g.chance(0.8) { b.e.w = g.vec(0.5); }
				if g.chance(0.5) { b.e.v = g.vec(0.3); }
				sc.bodies.push(b);
			}
			gravity = false;
		}
		0 => { // no ground: bodies at rest or slow in empty space
			for k in 0..n {
				let mut b = ball(v3(10.0 * k as f32, 0.0, 0.0), Vec3::zeros(), 0.5, 2.0, Surf::smooth(0.5));
				match g.below(5) {
					0 => b.e.v = v3(0.03125, 0.0, 0.0),     // exactly at 0.0009765625
					1 => b.e.v = v3(0.25, 0.0, 0.25),       // exactly at 0.125
					2 => b.e.v = g.vec(0.2),
					3 => b.e.w = g.vec(0.1),
					_ => {}
				}
				if g.chance(0.15) {
					if let CIn::S { m, .. } = &mut b.cols[0] { *m = INF; }
					match g.below(5) { 0 => b.e.w = g.dir() * 1e-4, 1 => b.e.v = g.dir() * 1e-4, 2 => { b.e.v = Vec3::zeros(); b.e.w = Vec3::zeros(); } _ => {} }
				}
				sc.bodies.push(b);
			}
		}
		1 => { // balls side by side on the ground
			sc.bodies.push(floor(Vec3::zeros(), Vec3::y(), Surf { e: fe, ft: 0.25, sf: 1.0, df: 0.5 }));
			for k in 0..n { let b = ball(v3(1.5 * k as f32, 0.5 + if g.chance(0.3) { g.range(0.0, 0.3) } else { 0.0 }, 0.0), Vec3::zeros(), 0.5, g.range(0.5, 2.0), Surf { e: 0.0, ft: 0.25, sf: 1.0, df: 0.5 }); sc.bodies.push(b); }
		}
		_ => { // a stack
			sc.bodies.push(floor(Vec3::zeros(), Vec3::y(), Surf { e: fe, ft: 0.25, sf: 0.0, df: 0.0 }));
			for k in 0..n { let b = ball(v3(0.0, 0.5 + k as f32 * if g.chance(0.8) { 1.0 } else { 1.02 }, 0.0), Vec3::zeros(), 0.5, g.pick(&[1.0, 1.0, 0.5, 2.0]), Surf::smooth(0.0)); sc.bodies.push(b); }
			if g.chance(0.5) { sc.bodies.rotate_left(1); }
			if g.chance(0.2) { sc.bodies.reverse(); }
		}
	}
	if gravity { sc.gens.push(GIn::Bare(v3(0.0, -g.pick(&[2.0, 9.8, 1.0]), 0.0))); }
	let at = sc.build_all(&mut s);
	if kind == 4 {
		let e = s.energy(g.pick(&at)) * g.pick(&[0.5, 0.8, 0.95, 1.05, 1.2, 1.6]);
		s.configure(sc.imax, e, sc.sth);
	}
	let steps = 12 + g.below(14);
	for k in 0..steps {
		if k > 3 && g.chance(0.2) { disturb(g, &mut s); }
		if g.chance(0.03) { let t = dt * g.pick(&[0.0, 1.0, 3.0]); s.configure(s.sys.iteration_max, s.sys.energy_sleep_threshold, t); }
		let dt = if g.chance(0.1) { dt * 0.5 } else if g.chance(0.05) { 1e-7 } else { dt };
		s.step(dt);
	}
}

/// Graphs of bodies left in contact: slow bodies run into each other without rebound and fall asleep at once.
fn touch(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 64.0;
	sc.sth = g.pick(&[0.0, 0.0, 0.0, 0.25]);
	sc.imax = g.pick(&[5, 12, 20]);
	let dt = 0.25;
	let n = 3 + g.below(4);
	// (some rebound so slowly that it takes a closer look to see that they do)
	let su = Surf::smooth(if g.chance(0.75) { 0.0 } else { 10.0f32.powf(g.range(-2.5, -1.5)) });
	// a chain: body k runs into body k + 1 (all of them closer than a step's way)
	let flat = g.chance(0.5);
	let mut x = Vec3::zeros();
	let infinite = if g.chance(0.4) { g.below(n) } else { n };
	for k in 0..n {
		let v = if g.chance(0.8) { v3(g.range(-2.0, 2.0), 0.0, 0.0) } else { Vec3::zeros() };
		let mut b = ball(x, v, 0.5, g.pick(&[1.0, 2.0, 0.5]), su);
		if k == infinite { if let CIn::S { m, .. } = &mut b.cols[0] { *m = INF; } b.e.v = Vec3::zeros(); }
		sc.bodies.push(b);
		let d = if flat { v3(1.0, 0.0, 0.0) } else { let a : f32 = g.range(-1.3, 1.3); v3(a.cos(), a.sin(), 0.0) };
		x += d * (1.0 + g.range(0.01, 0.2));
	}
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	if g.chance(0.15) { sc.gens.push(GIn::Push(g.vec(1.0), g.vec(0.3))); }
	sc.build_all(&mut s);
	let steps = 5 + g.below(6);
	for k in 0..steps {
		s.step(dt);
		if g.chance(0.05) { let c = g.below(s.ch.len()); let x = any_collider(g, true, 0); s.update_collider(c, &x); }
		if k > 0 && g.chance(0.6) {
			let i = g.below(s.eh.len());
			if let Some(e) = s.get(i) {
				let mut x = EIn::of(&e);
				match g.below(6) {
					0 => s.remove_entity(i),
					1 => if g.chance(0.5) { s.write_back(i) } else { nudge(g, &mut x); s.update_entity(i, &x, false) },
					2 => { if e.get_last_total_mass().is_infinite() { x.p += v3(0.0, 0.0, 0.01); s.update_entity(i, &x, false); } else { x.v = g.vec(1.5); s.update_entity(i, &x, false); } }
					3 => { if e.get_last_total_mass().is_finite() { x.v = v3(g.range(-2.0, 2.0), 0.0, 0.0); s.update_entity(i, &x, false); } }
					_ => { if e.get_last_total_mass().is_finite() { x.v = g.dir() * 1.2; s.update_entity(i, &x, false); } }
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------
// Long runs of solid bodies.

fn solid(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	if g.chance(0.6) { sc.eth = 0.0; }
	sc.imax = g.pick(&[20, 20, 40, 5, 10, 100]);
	let dt = g.pick(&[0.01, 0.03125, 0.1]);
	let su = |g : &mut Rng| { let mut s = surf(g); if g.chance(0.4) { s.e = 0.0; } s };
	let kind = if g.chance(0.1) { 6 } else { g.below(6) };
	let mut gravity = v3(0.0, -g.range(1.0, 12.0), 0.0);
	match kind {
		6 => { // balls that creep up to something
			gravity = Vec3::zeros();
			sc.eth = 0.0;
			let k = g.below(4);
			let mut c = any_shape(g, k);
			// (of a mesh with more faces the spot may be inside)
			if let CIn::M { faces, .. } = &mut c { let (w, k) = (2 + g.below(2), g.pick(&[0.5, 1.0, 5.0])); *faces = mesh_faces(g, w, k); }
			match &mut c { CIn::S { m, .. } | CIn::P { m, .. } | CIn::B { m, .. } => *m = INF, _ => {} }
			let mut b = body(g.vec(1.0), INF, vec![c.clone()]);
			if let CIn::P { .. } = c {} else { b.e.r = g.turn(); }
			let (x, d) = spot(g, &c);
			let q = Quat::from_scaled_axis(b.e.r);
			let d = if let CIn::P { .. } = c { d } else { q * d };
			let r = g.pick(&[0.06, 0.3, 1.0]);
			let per_step = g.pick(&[0.0001, 0.0004, 0.001]);
			let u = -d * per_step / dt + if g.chance(0.5) { Vec3::zeros() } else { g.dir() * 0.5 * per_step / dt };
			let s = su(g);
			let a = ball(b.e.p + q * x + d * (r + per_step * g.range(1.0, 20.0)), u, r, g.range(0.3, 3.0), s);
			sc.bodies.push(b);
			sc.bodies.push(a);
		}
		0 => { // a box of planes
			for (n, d) in [(v3(0.0, 1.0, 0.0), 0.0), (v3(1.0, 0.0, 0.0), 3.0), (v3(-1.0, 0.0, 0.0), 3.0), (v3(0.0, 0.0, 1.0), 3.0), (v3(0.0, 0.0, -1.0), 3.0)].iter() {
				let s = su(g);
				sc.bodies.push(floor(n * -*d, *n, s));
			}
		}
		1 => { // a room of one mesh with floor and walls
			let a = 4.0;
			let faces = vec![
				quad(v3(-a,0.0,-a), v3(-a,0.0,a), v3(a,0.0,a), v3(a,0.0,-a)),
				quad(v3(a,0.0,-a), v3(a,0.0,a), v3(a,9.0,a), v3(a,9.0,-a)),
				quad(v3(-a,0.0,-a), v3(-a,0.0,a), v3(-a,9.0,a), v3(-a,9.0,-a)),
				quad(v3(-a,0.0,-a), v3(a,0.0,-a), v3(a,9.0,-a), v3(-a,9.0,-a)),
				quad(v3(-a,0.0,a), v3(a,0.0,a), v3(a,9.0,a), v3(-a,9.0,a)),
			];
			let s = su(g);
			let mut b = body(v3(0.0, 0.0, 0.0), INF, vec![CIn::M { p: Vec3::zeros(), faces, s }]);
			if g.chance(0.5) { b.e.r = v3(0.0, g.range(-3.0, 3.0), 0.0); }
			sc.bodies.push(b);
		}
		2 => { // a groove
			let k = g.range(2.0, 6.0);
			let f = vec![
				quad(v3(-k,k*g.range(0.3,1.5),-k), v3(-k,k,k), v3(0.0,0.0,k), v3(0.0,0.0,-k)),
			];
			let h = f[0][0].y;
			let f = vec![quad(v3(-k,h,-k), v3(-k,h,k), v3(0.0,0.0,k), v3(0.0,0.0,-k)), quad(v3(0.0,0.0,-k), v3(0.0,0.0,k), v3(k,k,k), v3(k,k,-k))];
			let s = su(g);
			sc.bodies.push(body(Vec3::zeros(), INF, vec![CIn::M { p: Vec3::zeros(), faces: f, s }]));
		}
		3 => { // boxes to fall on
			let s1 = su(g);
			let mut b = body(v3(0.0, -1.0, 0.0), 0.0, vec![CIn::B { p: Vec3::zeros(), m: INF, lo: v3(-4.0, -1.0, -4.0), hi: v3(4.0, 1.0, 4.0), s: s1 }]);
			if g.chance(0.5) { b.e.r = v3(0.0, g.range(-3.0, 3.0), 0.0); }
			sc.bodies.push(b);
			let s2 = su(g);
			let mut c = body(g.vec(2.0) + v3(0.0, 0.6, 0.0), 0.0, vec![CIn::B { p: Vec3::zeros(), m: INF, lo: v3(-0.6, -0.6, -0.6), hi: v3(0.6, 0.6, 0.6), s: s2 }]);
			c.e.r = g.turn();
			sc.bodies.push(c);
		}
		4 => { // no gravity, balls among themselves and against fixed ones
			gravity = Vec3::zeros();
			for k in 0..2 { let s = su(g); sc.bodies.push(body(g.vec(1.0) + v3(if k == 0 { 1.8 } else { -1.8 }, 0.0, 0.0), 0.0, vec![CIn::S { p: Vec3::zeros(), m: INF, r: 0.7, s }])); }
		}
		_ => { // a mesh above a plane
			let n = (v3(0.0, 1.0, 0.0) + g.vec(0.4)).normalize();
			let s1 = su(g);
			sc.bodies.push(floor(Vec3::zeros(), n, s1));
			let (w, k) = (g.below(MESHES), g.range(0.5, 1.5));
			let s2 = su(g);
			// (no inertia: it doesn't turn)
			let mut b = body(v3(0.0, 4.0, 0.0), g.range(0.5, 2.0), vec![CIn::M { p: Vec3::zeros(), faces: mesh_faces(g, w, k), s: s2 }]);
			b.e.r = g.turn();
			b.e.v = g.vec(1.0);
			sc.bodies.push(b);
		}
	}
	if kind < 5 {
		let n = 1 + g.below(4);
		let mut tries = 0;
		let mut balls : Vec<(Vec3, f32)> = vec![];
		while balls.len() < n && tries < 200 {
			tries += 1;
			let r = g.pick(&[0.1, 0.3, 0.5]);
			let p = g.vec(2.0) + v3(0.0, if kind == 4 { 0.0 } else { 3.2 + if kind == 2 { 4.0 } else { 0.0 } }, 0.0);
			if balls.iter().any(|(q, s)| (p - q).norm() < r + s + 0.05) { continue; }
			if kind == 4 && sc.bodies.iter().any(|b| (b.e.p - p).norm() < 1.4) { continue; }
			if kind == 3 && (sc.bodies[1].e.p - p).norm() < 1.7 { continue; }
			balls.push((p, r));
			let s = su(g);
			let v = g.vec(if kind == 4 { 3.0 } else { 5.0 });
			let m = g.range(0.3, 3.0);
			let b = if g.chance(0.5) { ball(p, v, r, m, s) } else { let mut b = body(p, m, vec![CIn::S { p: Vec3::zeros(), m: 0.0, r, s }]); b.e.v = v; b };
			sc.bodies.push(b);
		}
	}
	if gravity != Vec3::zeros() { sc.gens.push(GIn::Bare(gravity)); }
	if g.chance(0.5) { sc.bodies.reverse(); }
	let at = sc.build_all(&mut s);
	let steps = g.pick(&[25, 40, 60]);
	for _ in 0..steps {
		if g.chance(0.03) { let i = g.pick(&at); if let Some(e) = s.get(i) { if e.get_last_total_mass().is_finite() { let mut x = EIn::of(&e); x.v += g.vec(3.0); s.update_entity(i, &x, false); } } }
		if g.chance(0.005) { let i = g.pick(&at); s.remove_entity(i); }
		s.step(dt);
	}
}

// ---------------------------------------------------------------------------------------------
// The same scene twice.

enum Performed { Fine(Vec<usize>, Vec<String>), Refused, Panicked }
fn perform(sc : &Scene, order : &[usize], backwards : bool, dt : f32, steps : usize) -> Performed {
	let mut s = Session::new();
	s.silent = true;
	let at = sc.build(&mut s, order, backwards);
	let mut out = vec![];
	for _ in 0..steps {
		s.step(dt);
		if s.over { return Performed::Panicked; }
		out.push(format!("{{\"recs\":[{}],\"E\":[{}]}}", s.records(), s.full_snapshot()));
	}
	if at.iter().any(|i| *i == usize::max_value()) { return Performed::Refused; }
	Performed::Fine(at, out)
}
fn twin(g : &mut Rng) {
	g.1 = true;
	let dt = g.pick(&[0.05, 0.2]);
	let n = 1 + g.below(3);
	let mut sc = crowd(g, n, dt);
	sc.eth = g.pick(&[0.0, 0.0, 0.5]);
	sc.imax = 20;
	for b in &mut sc.bodies { if g.chance(0.3) && b.e.own != INF { b.e.w = g.vec(1.0); } }
	if g.chance(0.4) { let k = g.below(3); let x = match k { 0 => GIn::Gravity(g.vec(2.0)), 1 => GIn::Push(g.vec(2.0), g.vec(0.3)), _ => GIn::Spring(g.vec(0.5), g.vec(2.0), 0.5) }; sc.gens.push(x); }
	let ids : Vec<usize> = (0..sc.bodies.len()).collect();
	let mut order = ids.clone();
	let (mut r, mut p) = (Vec3::zeros(), Vec3::zeros());
	if g.chance(0.7) { for k in (1..order.len()).rev() { let j = g.below(k + 1); order.swap(k, j); } }
	if g.chance(0.7) { r = g.turn(); p = g.vec(4.0); }
	let backwards = g.chance(0.5);
	let other = sc.moved(&r, &p);
	let steps = 2 + g.below(4);
	// the same scene with everything a little off: how far those get away is what rounding may do
	let mut off = vec![];
	for _ in 0..5 {
		let mut o = sc.clone();
		for b in &mut o.bodies { b.e.p += g.vec(1e-4); b.e.v += g.vec(1e-4); if b.e.w.magnitude() > 0.0 { b.e.w += g.vec(1e-4); } }
		off.push(perform(&o, &ids, false, dt, steps));
	}
	let a = perform(&sc, &ids, false, dt, steps);
	let b = perform(&other, &order, backwards, dt, steps);
	let out = match (a, b) {
		(Performed::Fine(ia, a), Performed::Fine(ib, b)) => {
			// entity ia[n] of A is entity ib[n] of B
			let mut map = vec![0; ia.len()];
			for n in 0..ia.len() { map[ia[n]] = ib[n] + 1; }
			let off : Vec<String> = off.iter().filter_map(|o| if let Performed::Fine(_, o) = o { Some(format!("[{}]", o.join(","))) } else { None }).collect();
			format!("{{\"o\":\"twin\",\"A\":[{}],\"B\":[{}],\"off\":[{}],\"r\":{},\"p\":{},\"map\":{:?}}}", a.join(","), b.join(","), off.join(","), jv(&r), jv(&p), map)
		}
		(Performed::Panicked, _) | (_, Performed::Panicked) => "{\"o\":\"twin\",\"panic\":\"in one of the two scenes\"}".to_string(),
		_ => return,
	};
	CURRENT.lock().unwrap().ev.push(out);
}

// ---------------------------------------------------------------------------------------------
// Degenerate scenes.

fn degenerate(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.imax = g.pick(&[5, 3, 20]);
	let (ka, kb) = (g.below(4), g.below(4));
	let mut make = |g : &mut Rng, k : usize, p : Vec3| {
		let c = match g.below(3) {
			0 => match k { // plain values, so that everything coincides exactly
				0 => CIn::S { p: Vec3::zeros(), m: 1.0, r: 1.0, s: surf(g) },
				1 => CIn::P { p: Vec3::zeros(), m: 1.0, n: v3(0.0, 1.0, 0.0), s: surf(g) },
				2 => CIn::B { p: Vec3::zeros(), m: 1.0, lo: v3(-1.0, -1.0, -1.0), hi: v3(1.0, 1.0, 1.0), s: surf(g) },
				_ => CIn::M { p: Vec3::zeros(), faces: mesh_faces(g, 3, 1.0), s: surf(g) },
			},
			_ => any_shape(g, k),
		};
		let (own, cols) = match g.below(8) {
			0 => { // no mass at all
				let mut c = c;
				match &mut c { CIn::S { m, .. } | CIn::P { m, .. } | CIn::B { m, .. } => *m = 0.0, _ => {} }
				(0.0, vec![c])
			}
			1 | 2 => weigh(g, Mass::Infinite, c),
			3 => weigh(g, Mass::InfiniteOwn, c),
			_ => { let m = mass_class(g); weigh(g, m, c) }
		};
		let mut b = body(p, own, cols);
		match g.below(4) { 0 => {} 1 => b.e.v = g.vec(3.0), 2 => { b.e.v = v3(0.0, g.pick(&[-1.0, 1.0]), 0.0); } _ => { b.e.v = g.vec(2.0); b.e.w = if k == 1 { Vec3::zeros() } else { { let k = g.pick(&[1.0, 10.0]); g.vec(k) } }; } }
		if g.chance(0.3) { b.e.r = g.turn(); }
		b
	};
	let a = make(g, ka, Vec3::zeros());
	let p = match g.below(6) { 0 => Vec3::zeros(), 1 => v3(0.0, 1.0, 0.0), 2 => v3(2.0, 0.0, 0.0), 3 => v3(0.0, 2.0, 0.0), 4 => g.vec(0.5), _ => g.vec(2.5) };
	let b = make(g, kb, p);
	sc.bodies = vec![a, b];
	if g.chance(0.3) { let k = g.below(4); let p = g.vec(2.0); let c = make(g, k, p); sc.bodies.push(c); }
	if g.chance(0.3) { sc.gens.push(GIn::Bare(v3(0.0, -9.8, 0.0))); }
	if g.chance(0.2) { sc.gens.push(GIn::Push(g.vec(2.0), g.vec(1.0))); }
	let at = sc.build_all(&mut s);
	let dt = g.pick(&[0.01, 0.1, 1.0, 0.0]);
	for _ in 0..3 + g.below(3) {
		s.step(dt);
		if g.chance(0.15) { let i = g.pick(&at); s.remove_entity(i); }
		if g.chance(0.1) && s.ch.len() > 0 { let i = g.below(s.ch.len()); s.remove_collider(i); }
		if g.chance(0.1) { let i = g.pick(&at); s.write_back(i); }
	}
}

// ---------------------------------------------------------------------------------------------
// Functions of single values.

fn orientation(g : &mut Rng) {
	for _ in 0..6 {
		let far = g.pick(&[1.0, 5.0, 50.0]);
		let (p, r, off) = (g.vec(far), g.turn() * g.pick(&[1.0, 1.0, 0.99, 1e-4]), if g.chance(0.3) { Vec3::zeros() } else { g.vec(far) });
		let (x, m, a) = (g.vec(far), g.vec(far), match g.below(4) { 0 => Vec3::zeros(), 1 => g.vec(0.01), _ => g.turn() });
		let (p2, r2) = (g.vec(far), match g.below(3) { 0 => g.turn(), 1 => r, _ => r + g.vec(0.3) });
		let t = g.range(0.0, 1.0);
		let t = g.pick(&[0.0, 1.0, 0.5, t, 0.25]);
		let times = g.pick(&[1, 8, 64, 256]);
		let small = g.dir() * 10.0f32.powf(g.range(-4.5, -1.5));
		let e = guard("ori", || {
			let o = Orientation::new(&p, &r, &off);
			let after = o.after_affected(&m, &a);
			let mut affected = o;
			affected.affect_with(&m, &a);
			// many small ones after each other
			let mut many = o;
			for _ in 0..times { many.affect_with(&(m / times as f32), &small); }
			let end = Orientation::new(&p2, &r2, &off);
			let l = Orientation::lerp(t, &o, &end);
			use fluffy_tribble::types::Isometry;
			let iso = |i : &Isometry, x : &Vec3| i.rotation * x + i.translation.vector;
			format!("{{\"o\":\"ori\",\"p\":{},\"r\":{},\"off\":{},\"x\":{},\"m\":{},\"a\":{},\"p2\":{},\"r2\":{},\"t\":{},\"toworld\":{},\"tolocal\":{},\"dirworld\":{},\"dirlocal\":{},\"origin\":{},\"isoworld\":{},\"isolocal\":{},\"mp\":{},\"mq\":{},\"moff\":{},\"ap\":{},\"aq\":{},\"lp\":{},\"lq\":{},\"loff\":{},\"q\":{},\"rv\":{},\"n\":{},\"small\":{},\"np\":{},\"nq\":{}}}",
				jv(&p), jv(&r), jv(&off), jv(&x), jv(&m), jv(&a), jv(&p2), jv(&r2), b(t),
				jv(&o.position_into_world(&x)), jv(&o.position_into_local(&x)), jv(&o.direction_into_world(&x)), jv(&o.direction_into_local(&x)),
				jv(&o.local_origin_in_world()), jv(&iso(&o.into_world(), &x)), jv(&iso(&o.into_local(), &x)),
				jv(&after.position), jq(&after.rotation), jv(&after.internal_origin_offset), jv(&affected.position), jq(&affected.rotation),
				jv(&l.position), jq(&l.rotation), jv(&l.internal_origin_offset), jq(&o.rotation), jv(&o.rotation_vec()), times, jv(&small), jv(&many.position), jq(&many.rotation))
		});
		CURRENT.lock().unwrap().ev.push(match e { Ok(e) => e, Err(m) => format!("{{\"o\":\"ori\",\"panic\":{}}}", js(&m)) });
	}
}

fn meshes(g : &mut Rng) {
	let mut mesh = MeshCollider::new();
	let mut calls = vec![];
	// points on a coarse grid, so that faces share them
	let grid = |g : &mut Rng| v3(g.below(3) as f32, g.below(3) as f32, g.below(3) as f32);
	let mut made : Vec<Face> = vec![];
	let big = g.below(MESHES);
	let mut ready : Vec<Face> = if g.chance(0.5) { mesh_faces(g, big, 1.0) } else { vec![] };
	// (perhaps all of it far off the origin of the mesh)
	let off = if g.chance(0.25) { let far = g.pick(&[10.0, 100.0, 700.0]); let o = g.vec(far); v3(o.x.round(), o.y.round(), o.z.round()) } else { Vec3::zeros() };
	for _ in 0..5 + g.below(6) {
		let f : Face = if g.chance(0.5) && !ready.is_empty() { ready.pop().unwrap() } else { match g.below(11) {
			0 => { let n = g.below(3); (0..n).map(|_| grid(g)).collect() }                       // too few
			1 | 2 => vec![grid(g), grid(g), grid(g)],                                            // perhaps on one line
			3 => { let k = g.below(3) as f32; let mut f = quad(v3(0.0,k,0.0), v3(1.0,k,0.0), v3(1.0,k,1.0), v3(0.0,k,1.0)); f[g.below(4)].y += g.pick(&[0.0, 0.5, 0.02, 0.05, 0.1]); f }
			4 if g.chance(0.5) => { // many corners, at one of which it isn't flat or turns the other way (or not quite)
				let n = 5 + g.below(5);
				let c = grid(g);
				let mut f : Face = (0..n).map(|i| { let a = i as f32 * 2.0 * std::f32::consts::PI / n as f32; c + v3(a.cos(), 0.0, a.sin()) }).collect();
				let k = g.below(n);
				if g.chance(0.5) { f[k].y += g.pick(&[0.05, 0.3]); } else { f[k] = c + (f[k] - c) * g.pick(&[0.2, 0.4, 1.05]); }
				f
			}
			4 => { let k = g.below(2) as f32; quad(v3(k,0.0,0.0), v3(k,2.0,0.0), v3(k,0.5,0.5), v3(k,0.0,2.0)) }     // turns the other way at one corner
			5 => { let (a, c) = (grid(g), grid(g)); let d = g.vec(1.0); vec![a, c, d] }
			6 => { let n = 5 + g.below(4); let c = grid(g); (0..n).map(|i| { let a = i as f32 * 2.0 * std::f32::consts::PI / n as f32; c + v3(a.cos(), 0.0, a.sin()) }).collect() }
			7 => { if made.is_empty() { continue; } let mut f = made[g.below(made.len())].clone(); if g.chance(0.5) { f.reverse(); } let k = g.below(f.len()); f.rotate_left(k); f }   // again
			8 | 9 => {                                                                           // shares an edge or almost so
				if made.is_empty() { continue; }
				let f = made[g.below(made.len())].clone();
				let k = g.below(f.len());
				let by = g.pick(&[1e-8, 3e-7, 5e-6, 1e-4, 5e-4, 2e-3]);
				let mut d = Vec3::zeros();
				d[g.below(3)] = by;
				let (a, b, c) = (f[(k + 1) % f.len()] + d, f[k], grid(g) + v3(0.1, 0.2, 0.3));
				if (b - a).cross(&(c - a)).magnitude() < 0.05 { continue; }
				vec![a, b, c]
			}
			_ => { if made.is_empty() { continue; } let f = made[g.below(made.len())].clone(); let k = g.below(f.len()); vec![f[(k + 1) % f.len()], f[k], grid(g) + v3(0.1, 0.2, 0.3)] }    // shares an edge
		} };
		let near = f;
		let f : Face = near.iter().map(|x| x + off).collect();
		let r = guard("face", || mesh.add_face(&f));
		let ok = r.is_ok();
		if ok { made.push(near); }
		calls.push(format!("{{\"f\":{},\"ok\":{},\"nf\":{},\"nv\":{},\"ne\":{}}}", jface(&f), ok as i32, mesh.face_count(), mesh.vertex_count(), mesh.edge_count()));
	}
	CURRENT.lock().unwrap().ev.push(format!("{{\"o\":\"mesh\",\"calls\":[{}]}}", calls.join(",")));
	// Then hit what was built somewhere.
	if !made.is_empty() {
		let mut s = Session::new();
		let mut sc = Scene::new();
		sc.eth = 0.0;
		let c = CIn::M { p: g.vec(0.5) - off, faces: made.iter().map(|f| f.iter().map(|x| x + off).collect()).collect(), s: surf(g) };
		let mut b = body(g.vec(2.0), INF, vec![c.clone()]);
		b.e.r = g.turn();
		let a = aimed(g, &b, &c, 0.05, Mass::Solid);
		sc.bodies = vec![b, a];
		sc.build_all(&mut s);
		s.step(0.1);
	}
}

// ---------------------------------------------------------------------------------------------
// Many of everything.

fn big(g : &mut Rng) {
	match g.below(13) {
		0 | 1 => registry(g, false, true),
		2 => row(g),
		7 => star(g),
		8 => rattle(g),
		9 | 10 => rock(g),
		3 => cradle(g),
		4 => cloud(g),
		5 => forces(g),
		6 => compound(g),
		_ => terrain(g),
	}
}

/// Many balls that come to rest on one in the middle.
fn star(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 64.0;
	sc.sth = g.pick(&[0.0, 0.0, 0.25]);
	sc.imax = 60;
	let dt = 0.25;
	let mut at = vec![];
	for x in -1..2 { for y in -1..2 { for z in -1..2 { if (x, y, z) != (0, 0, 0) { at.push(v3(x as f32, y as f32, z as f32).normalize()); } } } }
	for k in (1..at.len()).rev() { let j = g.below(k + 1); at.swap(k, j); }
	at.truncate(4 + g.below(20));
	if g.chance(0.4) {
		// (or a row or a tree of them, one at the other)
		let n = 9 + g.below(8);
		let tree = g.chance(0.4);
		let mut spots = vec![Vec3::zeros()];
		while spots.len() < n {
			let from = if tree { g.below(spots.len()) } else { spots.len() - 1 };
			let d = if tree { let k = g.below(3); let mut d = Vec3::zeros(); d[k] = g.pick(&[1.0, -1.0]); d } else { Vec3::x() };
			let p = spots[from] + d * 1.01;
			if spots.iter().all(|o| (o - p).norm() > 1.0) { spots.push(p); }
		}
		let mid = spots.iter().fold(Vec3::zeros(), |a, b| a + b) / n as f32;
		for p in spots { sc.bodies.push(ball(p, (mid - p) * g.range(0.3, 0.5), 0.5, g.range(0.5, 1.0), Surf::smooth(0.0))); }
	} else {
	sc.bodies.push(ball(Vec3::zeros(), Vec3::zeros(), 3.0, if g.chance(0.15) { INF } else { g.pick(&[100.0, 20.0]) }, Surf::smooth(0.0)));
	for d in &at { let p = d * (3.5 + g.range(0.005, 0.1)); sc.bodies.push(ball(p, if g.chance(0.85) { -d * g.range(0.8, 1.5) } else { Vec3::zeros() }, 0.5, g.range(0.1, 1.0), Surf::smooth(0.0))); }
	}
	sc.bodies.push(ball(v3(0.0, 0.0, 50.0), Vec3::zeros(), 0.5, 1.0, Surf::smooth(0.0)));
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	sc.build_all(&mut s);
	for k in 0..4 + g.below(4) {
		s.step(dt);
		if k > 0 && g.chance(0.7) {
			let i = g.below(s.eh.len());
			if let Some(e) = s.get(i) {
				let mut x = EIn::of(&e);
				match g.below(5) {
					0 => s.remove_entity(i),
					1 | 2 => { x.v = g.vec(1.0); if e.get_last_total_mass().is_finite() { s.update_entity(i, &x, false); } }
					3 => { x.p += v3(0.0, 0.0, 1e-5); s.update_entity(i, &x, false); }
					_ => s.write_back(i),
				}
			}
		}
	}
}

/// A ball between two walls, to and fro many times a step.
fn rattle(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.imax = g.pick(&[17, 33, 64, 100, 127, 128, 180, 255]);
	let gap = g.range(1.05, 1.5);
	let d = g.dir();
	let su = Surf::smooth(1.0);
	sc.bodies.push(floor(-d * gap * 0.5, d, su));
	sc.bodies.push(floor(d * gap * 0.5, -d, su));
	let v = d * ((gap - 1.0) * g.range(10.0, 160.0)) + g.vec(0.3);
	sc.bodies.push(ball(Vec3::zeros(), v, 0.5, 1.0, Surf::smooth(1.0)));
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	sc.build_all(&mut s);
	let dt = g.pick(&[0.25, 0.5, 1.0]);
	for _ in 0..1 + g.below(2) { s.step(dt); }
}

/// A many-sided mesh that drops on a plane, or that something drops on.
fn rock(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	if g.chance(0.7) { sc.eth = 0.0; }
	sc.imax = g.pick(&[5, 10]);
	let n = 5 + g.below(30);
	let (r, h) = (g.range(0.8, 2.5), g.range(0.3, 1.5));
	let p = |i : usize, y : f32| { let a = (i % n) as f32 * 2.0 * std::f32::consts::PI / n as f32; v3(a.cos() * r, y, a.sin() * r) };
	let mut faces : Vec<Face> = vec![];
	let cone = g.chance(0.3);
	for i in 0..n { faces.push(if cone { vec![p(i, 0.0), p(i + 1, 0.0), v3(0.0, h, 0.0)] } else { quad(p(i, -h), p(i, h), p(i + 1, h), p(i + 1, -h)) }); }
	// (A flat face of that many corners is turned down if its corners aren't flat to rounding.)
	let lid : Face = (0..n).map(|i| p(i, if cone { 0.0 } else { h })).collect();
	if n < 9 { faces.push(lid); }
	let c = CIn::M { p: g.vec(0.3), faces, s: surf(g) };
	let turning = g.chance(0.4);
	let mut b = body(v3(0.0, g.range(2.8, 3.5), 0.0), if g.chance(0.3) { INF } else { g.range(0.5, 2.0) }, vec![c.clone()]);
	b.e.r = g.turn();
	if b.e.own.is_finite() && g.chance(0.7) { b.cols.push(CIn::N { p: g.vec(0.2), m: g.range(0.5, 2.0), i: g.tensor(1.0) }); }
	b.e.v = v3(0.0, -g.range(1.0, 8.0), 0.0) + g.vec(1.0);
	if turning { b.e.w = g.vec(0.7); }
	match g.below(3) {
		0 => { // on a plane
			let su = surf(g);
			sc.bodies.push(floor(Vec3::zeros(), (Vec3::y() + g.vec(0.3)).normalize(), su));
		}
		1 => { // hit by something
			b.e.v = g.vec(1.0);
			let a = aimed(g, &b, &c, 0.1, Mass::Solid);
			sc.bodies.push(a);
		}
		_ => { // on another mesh
			let w = g.below(MESHES);
			let su = surf(g);
			let f = mesh_faces(g, w, 1.5);
			let mut o = body(Vec3::zeros(), g.pick(&[INF, 1.0]), vec![CIn::M { p: Vec3::zeros(), faces: f, s: su }]);
			o.e.r = g.turn();
			sc.bodies.push(o);
		}
	}
	sc.bodies.push(b);
	if g.chance(0.5) { sc.bodies.reverse(); }
	sc.build_all(&mut s);
	for _ in 0..4 { s.step(0.125); }
}

/// Many balls that come to rest against each other, and are hit one by one.
fn row(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 64.0;
	sc.sth = g.pick(&[0.0, 0.0, 0.25]);
	sc.imax = g.pick(&[40, 60]);
	let dt = 0.25;
	let n = 8 + g.below(9);
	let mut x = Vec3::zeros();
	let infinite = if g.chance(0.4) { g.below(n) } else { n };
	let width = 1 + g.below(4);
	for k in 0..n {
		let mut b = ball(x, v3(if g.chance(0.8) { 1.5 } else { 0.0 } * if k % 2 == 0 { 1.0 } else { -1.0 }, 0.0, 0.0), 0.5, g.pick(&[1.0, 2.0, 0.5]), Surf::smooth(0.0));
		if k == infinite { if let CIn::S { m, .. } = &mut b.cols[0] { *m = INF; } b.e.v = Vec3::zeros(); }
		sc.bodies.push(b);
		x = if width > 1 && k % width == width - 1 { v3(0.0, 1.02 * ((k + 1) / width) as f32, 0.0) } else { x + v3(1.0 + g.range(0.005, 0.05), 0.0, 0.0) };
	}
	// one that's far away
	sc.bodies.push(ball(v3(0.0, 0.0, 50.0), Vec3::zeros(), 0.5, 1.0, Surf::smooth(0.0)));
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	sc.build_all(&mut s);
	let steps = 6 + g.below(5);
	for k in 0..steps {
		s.step(dt);
		if k > 1 && g.chance(0.7) {
			let i = g.below(s.eh.len());
			if let Some(e) = s.get(i) {
				let mut x = EIn::of(&e);
				if e.get_last_total_mass().is_infinite() { continue; }
				match g.below(4) {
					0 => s.remove_entity(i),
					1 => { x.v = g.vec(1.5); s.update_entity(i, &x, false); }
					_ => { x.v = v3(g.range(-2.0, 2.0), 0.0, 0.0); s.update_entity(i, &x, false); }
				}
			}
		}
	}
}

/// Balls in a row that pass on what hits them.
fn cradle(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	let n = 5 + g.below(9);
	sc.imax = g.pick(&[5, 9, 17, 33, 65, 100]);
	sc.eth = 0.0;
	let d = g.dir();
	let e = g.pick(&[1.0, 1.0, 0.9]);
	let m = g.range(0.5, 2.0);
	let mut at = 0.0;
	for k in 0..n {
		let v = if k == 0 { g.range(4.0, 12.0) } else if g.chance(0.1) { -g.range(1.0, 4.0) } else { 0.0 };
		let heavy = k == n - 1 && g.chance(0.5);
		sc.bodies.push(ball(d * at, d * v, 0.5, if heavy { INF } else { m }, Surf::smooth(e)));
		if heavy { sc.bodies[k].e.v = Vec3::zeros(); }
		at += 1.0 + g.range(0.05, 0.3);
	}
	for k in (1..sc.bodies.len()).rev() { let j = g.below(k + 1); sc.bodies.swap(k, j); }
	sc.build_all(&mut s);
	let dt = g.pick(&[0.25, 0.5, 1.0]);
	for _ in 0..1 + g.below(3) { s.step(dt); }
}

/// Many bodies that fly about.
fn cloud(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	let n = 8 + g.below(10);
	sc.imax = g.pick(&[20, 40]);
	if g.chance(0.5) { sc.eth = 0.0; }
	let balls = g.chance(0.5);
	for _ in 0..n {
		let kind = if balls || g.chance(0.75) { 0 } else { 2 };
		let c = any_shape(g, kind);
		let class = g.pick(&[Mass::Point, Mass::Solid, Mass::Solid, Mass::Both]);
		let (own, cols) = weigh(g, class, c);
		let p = g.vec(6.0);
		let mut b = body(p, own, cols);
		b.e.r = g.turn();
		b.e.v = (g.vec(3.0) - p) * g.range(0.5, 3.0);
		if g.chance(0.3) { b.e.w = g.vec(1.0); }
		if sc.bodies.iter().all(|o : &Body| (o.e.p - b.e.p).norm() > 3.6) { sc.bodies.push(b); }
	}
	sc.build_all(&mut s);
	let dt = g.pick(&[0.1, 0.3]);
	for _ in 0..2 { s.step(dt); }
}

/// Many bodies far apart, under many forces.
fn forces(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = g.pick(&[0.0, 0.001]);
	for i in 0..8 + g.below(12) {
		let (own, cols) = match g.below(6) { 0 => (g.pick(&[0.0, INF, 2.0]), vec![]), _ => any_cols(g) };
		let mut b = body(v3(40.0 * i as f32, 0.0, 0.0) + g.vec(2.0), own, cols);
		b.e.r = g.turn();
		if g.chance(0.6) { b.e.v = g.vec(2.0); }
		if g.chance(0.5) { b.e.w = g.vec(2.0); }
		sc.bodies.push(b);
	}
	for _ in 0..6 + g.below(8) { let x = match any_generator(g, Vec3::zeros()) { GIn::Spring(..) => GIn::Gravity(g.vec(2.0)), x => x }; sc.gens.push(x); }
	let at = sc.build_all(&mut s);
	for _ in 0..3 {
		if g.chance(0.5) { let i = g.below(s.gh.len()); s.remove_generator(i); }
		if g.chance(0.5) { let x = g.vec(3.0); s.add_generator(&GIn::Gravity(x)); }
		if g.chance(0.5) { let i = g.pick(&at); s.remove_entity(i); }
		s.step(0.05);
	}
}

/// A body of many parts that is hit on one of them.
fn compound(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	sc.eth = 0.0;
	let dt = 0.1;
	let mut parts = vec![];
	for _ in 0..6 + g.below(12) {
		let kind = g.pick(&[0, 0, 2, 3]);
		let mut c = any_shape(g, kind);
		let at = g.vec(4.0);
		match &mut c {
			CIn::S { p, m, .. } | CIn::B { p, m, .. } => { *p = at; *m = g.range(0.0, 2.0); }
			CIn::M { p, .. } => *p = at,
			_ => {}
		}
		parts.push(c);
	}
	parts.push(CIn::N { p: g.vec(1.0), m: 1.0, i: g.tensor(1.0) });
	let mut b = body(g.vec(3.0), g.pick(&[0.0, 1.0]), parts.clone());
	b.e.r = g.turn();
	sc.bodies.push(b.clone());
	for _ in 0..1 + g.below(3) {
		let c = parts[g.below(parts.len() - 1)].clone();
		let t = dt * g.range(0.3, 1.5);
		let a = aimed(g, &b, &c, t, Mass::Solid);
		if sc.bodies.iter().skip(1).all(|o| (o.e.p - a.e.p).norm() > 4.0) { sc.bodies.push(a); }
	}
	sc.build_all(&mut s);
	for k in 0..3 {
		s.step(dt);
		if k == 1 { let i = g.below(s.ch.len()); s.remove_collider(i); }
	}
}

/// Ground made of many faces, with balls on it.
fn terrain(g : &mut Rng) {
	let mut s = Session::new();
	let mut sc = Scene::new();
	if g.chance(0.5) { sc.eth = 0.0; }
	sc.imax = g.pick(&[20, 40]);
	let n = 3 + g.below(3);
	let mut h = vec![vec![0.0; n + 1]; n + 1];
	let rough = g.pick(&[0.0, 0.3, 0.8]);
	for i in 0..=n { for j in 0..=n { h[i][j] = g.range(-rough, rough); } }
	let p = |i : usize, j : usize| v3(2.0 * i as f32 - n as f32, h[i][j], 2.0 * j as f32 - n as f32);
	let mut faces = vec![];
	for i in 0..n { for j in 0..n {
		let (a, b, c, d) = (p(i, j), p(i + 1, j), p(i + 1, j + 1), p(i, j + 1));
		if rough == 0.0 && g.chance(0.5) { faces.push(vec![a, b, c, d]); }
		else if g.chance(0.5) { faces.push(vec![a, b, c]); faces.push(vec![a, c, d]); }
		else { faces.push(vec![b, c, d]); faces.push(vec![d, a, b]); }
	} }
	for k in (1..faces.len()).rev() { let j = g.below(k + 1); faces.swap(k, j); }
	let mut b = body(Vec3::zeros(), INF, vec![CIn::M { p: g.vec(0.2), faces, s: surf(g) }]);
	b.e.r = v3(0.0, g.range(-3.0, 3.0), 0.0);
	sc.bodies.push(b);
	for k in 0..1 + g.below(4) {
		let at = v3(2.0 * k as f32 - 3.0 + g.range(-0.3, 0.3), 1.6 + rough, g.range(-2.0, 2.0));
		let b = ball(at, g.vec(3.0) - v3(0.0, 2.0, 0.0), g.range(0.2, 0.7), g.range(0.3, 2.0), surf(g));
		sc.bodies.push(b);
	}
	sc.gens.push(GIn::Bare(v3(0.0, -9.8, 0.0)));
	sc.build_all(&mut s);
	for _ in 0..12 { s.step(0.05); }
}

// ---------------------------------------------------------------------------------------------
// Behaviours of the specification.  One per line: operations separated by ';', words by ' '.

// ---------------------------------------------------------------------------------------------
// Behaviours of the models (spec/Calls.tla): calls separated by semicolons, numbers in units of 1/64.

struct Words<'a> { rest : std::str::SplitWhitespace<'a> }
impl<'a> Words<'a> {
	fn int(&mut self) -> i64 { self.rest.next().and_then(|w| w.parse().ok()).unwrap_or(0) }
	fn index(&mut self) -> usize { (self.int() - 1).max(0) as usize }
	fn num(&mut self) -> f32 { match self.int() { 1000000 => INF, 1000001 => f32::NAN, n => n as f32 / 64.0 } }
	fn vec(&mut self) -> Vec3 { let (x, y, z) = (self.num(), self.num(), self.num()); v3(x, y, z) }
	fn entity(&mut self) -> EIn { EIn { own: self.num(), p: self.vec(), r: self.vec(), v: self.vec(), w: self.vec() } }
	fn surf(&mut self) -> Surf { Surf { e: self.num(), ft: self.num(), sf: self.num(), df: self.num() } }
	fn collider(&mut self) -> CIn {
		let k = self.rest.next().unwrap_or("");
		let (p, m) = (self.vec(), self.num());
		match k {
			"N" => { let d = self.vec(); CIn::N { p, m, i: Mat3::from_diagonal(&d) } }
			"S" => CIn::S { p, m, r: self.num(), s: self.surf() },
			"P" => CIn::P { p, m, n: self.vec(), s: self.surf() },
			"B" => CIn::B { p, m, lo: self.vec(), hi: self.vec(), s: self.surf() },
			_ => panic!("no such kind of collider: {}", k),
		}
	}
}

fn script(line : &str) -> String {
	let mut s = Session::new();
	let mut solid = false;
	for call in line.split(';') {
		let mut w = Words { rest: call.split_whitespace() };
		let (ne, nc, ng) = (s.eh.len(), s.ch.len(), s.gh.len());
		match w.rest.next().unwrap_or("") {
			"" => {}
			"solid" => solid = true,
			"cfg" => { let (imax, eth, sth) = (w.int() as u8, w.int() as f32 / 65536.0, w.num()); s.configure(imax, eth, sth) }
			"addE" => { s.add_entity(&w.entity()); }
			"updE" => { let i = w.index(); let x = w.entity(); if i < ne { s.update_entity(i, &x, true) } }
			"wb" => { let i = w.index(); if i < ne { s.write_back(i) } }
			"push" => {
				let i = w.index();
				let (v, a) = (w.vec(), w.vec());
				if i < ne { if let Some(e) = s.get(i) { let x = EIn { v, w: a, ..EIn::of(&e) }; s.update_entity(i, &x, false) } }
			}
			"rmE" => { let i = w.index(); if i < ne { s.remove_entity(i) } }
			"addC" => { s.add_collider(&w.collider()); }
			"updC" => { let i = w.index(); let x = w.collider(); if i < nc { s.update_collider(i, &x) } }
			"rmC" => { let i = w.index(); if i < nc { s.remove_collider(i) } }
			"link" => { let c = w.index(); let e = w.int() as usize; if c < nc && e <= ne { s.link(c, if e == 0 { None } else { Some(e - 1) }) } }
			"addG" => { let a = w.vec(); s.add_generator(&GIn::Bare(a)); }
			"rmG" => { let i = w.index(); if i < ng { s.remove_generator(i) } }
			"step" => { let dt = w.num(); s.step(dt) }
			other => panic!("no such call: {}", other),
		}
	}
	if solid { "\"solid\":1,".into() } else { String::new() }
}
