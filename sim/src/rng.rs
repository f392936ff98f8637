// One integer decides everything: every choice of the simulator comes from this generator.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { let mut r = Rng(seed ^ 0x5851_f42d_4c95_7f2d); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as u64) as i64 }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.f() }
    pub fn chance(&mut self, p: f64) -> bool { self.f() < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len() as u64) as usize; &v[i] }
}
pub fn mix(a: u64, b: u64) -> u64 { let mut r = Rng(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93)); r.next(); r.next() }
pub fn fnv(s: &str) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100_0000_01b3); } h }
pub fn fnv_bytes(s: &[u8]) -> u64 { let mut h = 0xcbf2_9ce4_8422_2325u64; for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100_0000_01b3); } h }
