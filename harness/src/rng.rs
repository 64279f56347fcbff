use fluffy_tribble::types::Vec3;
pub struct Rng(u64);
impl Rng {
	pub fn new(seed : u64) -> Rng { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
	pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; if self.0 == 0 { self.0 = 1; } self.0 }
	pub fn below(&mut self, n : usize) -> usize { ((self.next() >> 20) % (n as u64)) as usize }
	pub fn unit(&mut self) -> f32 { ((self.next() >> 40) as f32) / ((1u64 << 24) as f32) }
	pub fn range(&mut self, a : f32, b : f32) -> f32 { a + (b - a) * self.unit() }
	pub fn chance(&mut self, p : f32) -> bool { self.unit() < p }
	pub fn vec(&mut self, m : f32) -> Vec3 { Vec3::new(self.range(-m, m), self.range(-m, m), self.range(-m, m)) }
	pub fn dir(&mut self) -> Vec3 { loop { let v = self.vec(1.0); let m = v.magnitude(); if m > 0.1 && m < 1.0 { return v / m; } } }
	/// zero half of the time
	pub fn maybe(&mut self, m : f32) -> Vec3 { if self.chance(0.5) { Vec3::zeros() } else { self.vec(m) } }
	pub fn pick<T : Copy>(&mut self, l : &[T]) -> T { l[self.below(l.len())] }
}
