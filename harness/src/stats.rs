use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counts: BTreeMap<&'static str, u64>,
    pub maxima: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub hashes: HashSet<u64>,
    pub shapes: HashSet<u64>,
    /// statistics are not recorded while shrinking or replaying
    pub off: bool,
}

struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
}

pub fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = Fnv(0xcbf2_9ce4_8422_2325);
    x.hash(&mut h);
    h.finish()
}

impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        if !self.off {
            *self.counts.entry(k).or_insert(0) += n;
        }
    }
    pub fn inc(&mut self, k: &'static str) {
        self.add(k, 1)
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        if !self.off {
            let e = self.maxima.entry(k).or_insert(0);
            if *e < n {
                *e = n;
            }
        }
    }
    /// a distinct, non-trivial case
    pub fn case<T: Hash>(&mut self, x: &T) {
        if !self.off {
            self.hashes.insert(hash_of(x));
        }
    }
    /// a distinct observed behaviour
    pub fn shape<T: Hash>(&mut self, x: &T) {
        if !self.off && self.shapes.len() < 400_000 {
            self.shapes.insert(hash_of(x));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if !self.off && self.samples.len() < 3 {
            let s = f();
            let cut: String = s.chars().take(700).collect();
            self.samples.push(cut);
        }
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
