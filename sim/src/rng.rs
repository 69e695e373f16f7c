//! The harness' own generator (independent of the one under test).
#[derive(Clone)]
pub struct R(u64);
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x7F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl R {
    pub fn new(seed: u64) -> R {
        R(mix(seed, 0xA5A5))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// in [a, b)
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if b <= a {
            return a;
        }
        a + self.u64() % (b - a)
    }
    pub fn us(&mut self, a: usize, b: usize) -> usize {
        self.range(a as u64, b as u64) as usize
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn p(&mut self, prob: f64) -> bool {
        self.f() < prob
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.us(0, v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.us(0, i + 1);
            v.swap(i, j);
        }
    }
}
/// FNV-style rolling digest
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x, 0x100000001b3);
    }
    pub fn f(&mut self, x: f64) {
        self.add(x.to_bits())
    }
}
