//! Choice tapes: every random decision of a workload is one draw.  A tape is replayed by feeding
//! the recorded draws back; it is shrunk by editing them.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
}

pub fn mix(a: u64, b: u64, c: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(21) ^ c.rotate_left(42));
    r.next() ^ r.next().rotate_left(17)
}

pub const MAX_TAPE: usize = 400_000;

pub struct Tape {
    pub data: Vec<u32>,
    pub pos: usize,
    pub rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(data: Vec<u32>) -> Tape {
        Tape { data, pos: 0, rng: None }
    }
    pub fn prefix(data: Vec<u32>, seed: u64) -> Tape {
        Tape { data, pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.data.len() {
            self.data[self.pos] as usize % n
        } else if self.pos >= MAX_TAPE {
            return 0;
        } else {
            let v = match self.rng {
                Some(ref mut r) => r.below(n),
                None => 0,
            };
            self.data.push(v as u32);
            v
        };
        self.pos += 1;
        v
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        lo + self.below(hi - lo + 1)
    }
    /// true with probability num/den (a zero draw means false)
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) + num >= den
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// index chosen by weight
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        ws.len() - 1
    }
    pub fn used(&self) -> Vec<u32> {
        self.data[..self.pos.min(self.data.len())].to_vec()
    }
}
