//! Deterministic random source (xoshiro256**), seeded from VERIF_SEED and a label.
use lambdaworks_stark::FE;

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64, label: &str) -> Self {
        let mut x = seed ^ 0x9E37_79B9_7F4A_7C15;
        for b in label.bytes() {
            x = (x ^ b as u64).wrapping_mul(0x1000_0000_01B3);
        }
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
            *v = z ^ (z >> 31);
        }
        Rng(s)
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (((self.u64() as u128) * (n as u128)) >> 64) as usize
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        self.bytes(32).try_into().unwrap()
    }
    /// A field element: mostly full size, sometimes small or close to the modulus.
    pub fn fe(&mut self) -> FE {
        match self.below(8) {
            0 => FE::from(self.below(4) as u64),
            1 => -FE::from(self.below(4) as u64),
            2 => FE::from(self.u64()),
            _ => self.fe_big(),
        }
    }
    pub fn fe_big(&mut self) -> FE {
        let two64 = FE::from(u64::MAX) + FE::one();
        let mut r = FE::zero();
        for _ in 0..4 {
            r = r * two64 + FE::from(self.u64());
        }
        r
    }
    pub fn fe_nonzero(&mut self) -> FE {
        loop {
            let v = self.fe();
            if v != FE::zero() {
                return v;
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}
