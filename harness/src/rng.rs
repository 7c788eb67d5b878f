//! Small deterministic generator (xoshiro256** seeded by splitmix64).
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    /// Derive a stream from a seed, a label and an index.
    pub fn derive(seed: u64, label: &str, idx: u64) -> Self {
        let mut h = seed ^ 0xcbf2_9ce4_8422_2325;
        for b in label.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let mut x = h ^ idx.wrapping_mul(0x9e37_79b9_7f4a_7c15);
        let v = splitmix(&mut x);
        Rng::new(v ^ idx)
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.u64() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        let n = hi - lo;
        if n == u64::MAX {
            return self.u64();
        }
        lo + self.u64() % (n + 1)
    }
    pub fn usize(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn r32(&mut self, lo: u32, hi: u32) -> u32 {
        self.range(lo as u64, hi as u64) as u32
    }
    pub fn r16(&mut self, lo: u16, hi: u16) -> u16 {
        self.range(lo as u64, hi as u64) as u16
    }
    pub fn i64(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.range(0, (hi - lo) as u64) as i64
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// True one time out of `n`.
    pub fn one_in(&mut self, n: u64) -> bool {
        self.range(0, n - 1) == 0
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(0, v.len() - 1)]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(0, i);
            v.swap(i, j);
        }
    }
    pub fn ascii(&mut self, lo: usize, hi: usize) -> String {
        let n = self.usize(lo, hi);
        (0..n)
            .map(|_| {
                let c = self.r32(0x20, 0x7e) as u8 as char;
                c
            })
            .collect()
    }
}
