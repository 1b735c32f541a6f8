//! Small deterministic generator (xoshiro256**), independent of every crate under test.
#[derive(Clone, Debug)]
pub struct Rng { s: [u64; 4] }
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn mix(a: u64, b: u64) -> u64 { let mut x = a ^ b.rotate_left(32).wrapping_mul(0xD6E8FEB86659FD93); splitmix(&mut x) }
impl Rng {
    pub fn new(seed: u64) -> Self { let mut x = seed; Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] } }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { if hi <= lo { lo } else { lo + self.below(hi - lo + 1) } }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize { self.range(lo as u64, hi as u64) as usize }
    /// True with probability p in 1/1_000_000.
    pub fn ppm(&mut self, p: u32) -> bool { p > 0 && self.below(1_000_000) < p as u64 }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
    pub fn fill(&mut self, b: &mut [u8]) { for c in b.chunks_mut(8) { let x = self.next().to_le_bytes(); c.copy_from_slice(&x[..c.len()]); } }
    pub fn fork(&mut self) -> Rng { Rng::new(self.next()) }
    /// Log-uniform in lo..=hi.
    pub fn logu(&mut self, lo: u64, hi: u64) -> u64 {
        if hi <= lo { return lo; }
        let l = (lo.max(1) as f64).ln(); let h = (hi as f64 + 1.0).ln();
        let u = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (l + (h - l) * u).exp() as u64;
        let v = v.clamp(lo.max(1), hi);
        if lo == 0 && self.below(8) == 0 { 0 } else { v }
    }
}
