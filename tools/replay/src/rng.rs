pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s | 1); for _ in 0..8 { r.next(); } r }
    pub fn next(&mut self) -> u64 { let mut x = self.0; x ^= x << 13; x ^= x >> 7; x ^= x << 17; self.0 = x; x.wrapping_mul(0x2545F4914F6CDD1D) }
    pub fn below(&mut self, n: usize) -> usize { ((self.next() >> 11) % (n as u64)) as usize }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T { v[self.below(v.len())] }
}
