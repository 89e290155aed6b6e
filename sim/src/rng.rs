#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x1234_5678_9abc_def0); r.u64(); r }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.u64() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn f(&mut self) -> f32 { (self.u64() >> 40) as f32 / (1u64 << 24) as f32 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u32 = w.iter().sum();
        if t == 0 { return 0; }
        let mut x = self.below(t as usize) as u32;
        for (i, v) in w.iter().enumerate() { if x < *v { return i; } x -= v; }
        0
    }
}
