//! Small deterministic PRNG (xoshiro256**), so every case can be replayed from (seed, case index).

#[derive(Clone)]
pub struct Rng {
	s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
	*x = x.wrapping_add(0x9e3779b97f4a7c15);
	let mut z = *x;
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
	z ^ (z >> 31)
}

impl Rng {
	pub fn new(seed: u64, stream: u64) -> Rng {
		let mut x = seed ^ stream.wrapping_mul(0xd6e8feb86659fd93) ^ 0x5e72_6177;
		let mut s = [0; 4];
		for v in &mut s {
			*v = splitmix(&mut x);
		}
		Rng { s }
	}

	pub fn u64(&mut self) -> u64 {
		let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
		let t = self.s[1] << 17;
		self.s[2] ^= self.s[0];
		self.s[3] ^= self.s[1];
		self.s[1] ^= self.s[2];
		self.s[0] ^= self.s[3];
		self.s[2] ^= t;
		self.s[3] = self.s[3].rotate_left(45);
		r
	}

	/// Uniform in `0..n` (n > 0)
	pub fn below(&mut self, n: usize) -> usize {
		((self.u64() as u128 * n as u128) >> 64) as usize
	}

	/// Uniform in `lo..=hi`
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}

	/// True with probability num/den
	pub fn chance(&mut self, num: usize, den: usize) -> bool {
		self.below(den) < num
	}

	pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
		&xs[self.below(xs.len())]
	}
}

/// FNV-1a, for signatures
#[derive(Clone, Copy)]
pub struct Hash(pub u64);

impl Hash {
	pub fn new() -> Hash {
		Hash(0xcbf29ce484222325)
	}
	pub fn bytes(&mut self, b: &[u8]) {
		for &x in b {
			self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
		}
	}
	pub fn num(&mut self, n: usize) {
		self.bytes(&(n as u64).to_le_bytes());
	}
}
