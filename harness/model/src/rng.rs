/// splitmix64: every random choice of the harness comes from one of these.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }
    /// A generator for case `n` of stream `tag` under `seed`.
    pub fn case(seed: u64, tag: &str, n: u64) -> Self {
        let mut h = mix(seed.wrapping_add(0x1234_5678));
        for b in tag.bytes() {
            h = mix(h ^ u64::from(b));
        }
        Rng(mix(h ^ mix(n.wrapping_mul(0x9e3779b97f4a7c15))))
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn u32(&mut self) -> u32 {
        self.u64() as u32
    }
    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    /// Small numbers mostly, sometimes large.
    pub fn small(&mut self, typical: usize, max: usize) -> usize {
        match self.below(16) {
            0 => 0,
            1 => max.min(self.below(max + 1)),
            2..=4 => 1.min(max),
            _ => self.below(typical.min(max) + 1),
        }
    }
}
