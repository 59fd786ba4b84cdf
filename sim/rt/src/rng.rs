#[derive(Clone)]
pub struct Rng(pub u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5DEE_CE66_D1CE_5EED))
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let t: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
}

/// Bytes of a large value, and what is told about them. Kept here as this crate is always optimised.
#[inline(never)]
pub fn fill(a: &mut [u8], seed: u64) {
    let mut x = seed | 1;
    for c in a.chunks_mut(8) {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let w = x.wrapping_mul(0x9E37_79B9_7F4A_7C15).to_le_bytes();
        c.copy_from_slice(&w[..c.len()]);
    }
}
#[inline(never)]
pub fn digest(a: &[u8]) -> u64 {
    // FNV over words: fast enough for values of a megabyte.
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ a.len() as u64;
    let mut it = a.chunks_exact(8);
    for c in &mut it {
        let mut w = [0; 8];
        w.copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    for b in it.remainder() {
        h = (h ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    h
}
