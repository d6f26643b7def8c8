pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn byte(&mut self) -> u8 { match self.below(6) { 0 => 0, 1 => 255, 2 => 128, _ => self.next() as u8 } }
    pub fn chance(&mut self, p: f64) -> bool { (self.next() >> 11) as f64 / ((1u64 << 53) as f64) < p }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len() as u64) as usize] }
    pub fn flags(&mut self) -> u64 { match self.below(5) { 0 => 0, 1 => 1 << self.below(8), 2 => 0xFF, 3 => (1 << self.below(8)) | (1 << self.below(8)), _ => self.next() & 0xFFFF } }
}
