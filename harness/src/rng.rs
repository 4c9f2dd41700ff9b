//! Small deterministic generator for everything the harness chooses itself.
#[derive(Clone)]
pub struct R(u64);
impl R {
    pub fn new(seed: u64, fam: &str, k: u64) -> R {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in fam.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = R(h ^ k.wrapping_mul(0xD1342543DE82EF95).rotate_left(17));
        for _ in 0..4 {
            r.u();
        }
        r
    }
    pub fn from(x: u64) -> R {
        R::new(x, "", 0)
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// in 0..n
    pub fn n(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u() % n as u64) as usize }
    }
    /// in lo..=hi
    pub fn r(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }
    /// true with probability p percent
    pub fn p(&mut self, pct: usize) -> bool {
        self.n(100) < pct
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.n(i + 1));
        }
    }
    pub fn seed32(&mut self) -> [u8; 32] {
        let mut s = [0u8; 32];
        for c in s.chunks_mut(8) {
            c.copy_from_slice(&self.u().to_le_bytes());
        }
        s
    }
}
