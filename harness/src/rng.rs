//! A small seeded random number generator (splitmix64).
use fluffy_tribble::types::{Vec3, Mat3, Quat};

/// The state, and whether masses stay in their usual range.
pub struct Rng(u64, pub bool);
impl Rng {
	pub fn new(seed : u64, suite : &str, index : u64) -> Rng {
		let mut h : u64 = 0xcbf29ce484222325;
		for b in suite.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
		let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ h ^ index.wrapping_mul(0xD1B54A32D192ED03), false);
		r.next(); r.next();
		r
	}
	pub fn next(&mut self) -> u64 {
		self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = self.0;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}
	pub fn below(&mut self, n : usize) -> usize { (self.next() % n as u64) as usize }
	pub fn chance(&mut self, p : f32) -> bool { self.unit() < p }
	pub fn unit(&mut self) -> f32 { (self.next() >> 40) as f32 / (1u64 << 24) as f32 }
	pub fn range(&mut self, lo : f32, hi : f32) -> f32 { lo + (hi - lo) * self.unit() }
	pub fn pick<T : Clone>(&mut self, of : &[T]) -> T { of[self.below(of.len())].clone() }
	pub fn vec(&mut self, size : f32) -> Vec3 { Vec3::new(self.range(-size, size), self.range(-size, size), self.range(-size, size)) }
	/// A unit vector.
	pub fn dir(&mut self) -> Vec3 {
		loop {
			let v = self.vec(1.0);
			let l = v.norm();
			if 0.1 < l && l <= 1.0 { return v / l; }
		}
	}
	/// A rotation vector.
	pub fn turn(&mut self) -> Vec3 {
		match self.below(4) {
			0 => Vec3::zeros(),
			1 => { let a = self.pick(&[Vec3::x(), Vec3::y(), Vec3::z()]); a * std::f32::consts::FRAC_PI_2 * self.pick(&[1.0, -1.0, 2.0]) }
			_ => { let a = self.dir(); a * self.range(-3.1, 3.1) }
		}
	}
	/// A symmetric positive definite matrix.
	pub fn tensor(&mut self, size : f32) -> Mat3 {
		let q = Quat::from_scaled_axis(self.turn()).to_rotation_matrix();
		let d = Vec3::new(self.range(0.4, 1.0), self.range(0.4, 1.0), self.range(0.4, 1.0)) * size;
		let m = q.matrix() * Mat3::from_diagonal(&d) * q.matrix().transpose();
		(m + m.transpose()) * 0.5
	}
}
