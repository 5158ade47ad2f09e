//! The one PRNG (xoshiro256**, seeded through splitmix64).
#[derive(Clone)]
pub struct Rng([u64; 4]);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
impl Rng {
    pub const fn zero() -> Rng { Rng([1, 2, 3, 4]) }
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut n = || {
            s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
            mix(s, 0)
        };
        Rng([n(), n(), n(), n() | 1])
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { ((self.u64() as u128 * n as u128) >> 64) as u64 }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }
    pub fn f(&mut self) -> f64 { (self.u64() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn p(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    /// geometric number of steps with mean about `m`
    pub fn geom(&mut self, m: f64) -> u64 { (-(1.0 - self.f()).ln() * m) as u64 }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let s: u64 = w.iter().map(|&x| x as u64).sum();
        let mut r = self.below(s.max(1));
        for (i, &x) in w.iter().enumerate() {
            if r < x as u64 { return i; }
            r -= x as u64;
        }
        0
    }
}
