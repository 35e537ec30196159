//! One PRNG; every choice of the generators and of the scheduler is drawn from a stream of it.
#[derive(Clone)]
pub struct Rng(pub [u64; 4]);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.wrapping_mul(0x9E3779B97F4A7C15))
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
impl Rng {
    pub const fn zero() -> Rng {
        Rng([1, 2, 3, 4])
    }
    pub fn new(seed: u64) -> Rng {
        let mut s = seed;
        let mut a = [0u64; 4];
        for x in a.iter_mut() {
            s = s.wrapping_add(0x9E3779B97F4A7C15);
            *x = mix(s);
        }
        Rng(a)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (((self.next() >> 32) as u64 * n as u64) >> 32) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    /// geometric-like interval with the given mean (at least 1)
    pub fn interval(&mut self, mean: u64) -> u64 {
        let u = ((self.next() >> 11) as f64 + 1.0) / (1u64 << 53) as f64;
        let x = -(u.ln()) * mean as f64;
        (x as u64).max(1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
