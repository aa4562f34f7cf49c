//! The choice tape: the only source of nondeterminism of a simulated run.
//! In generation mode every choice comes from a seeded PRNG and is recorded,
//! in replay mode it is read back (0, the simplest choice, past the end).

use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    mix(h)
}

pub fn run_seed(verif_seed: u64, prop: &str, tier_salt: u64, index: u64) -> u64 {
    mix(mix(mix(verif_seed ^ 0x5eed) ^ hash_str(prop)) ^ mix(index).wrapping_add(tier_salt))
}

pub struct Tape {
    replay: Option<Vec<u64>>,
    pub rec: Vec<u64>,
    rng: Rng,
    through: Option<std::fs::File>,
}

impl Tape {
    pub fn generate(seed: u64) -> Self {
        Tape { replay: None, rec: Vec::new(), rng: Rng::new(seed), through: None }
    }
    pub fn replay(values: Vec<u64>) -> Self {
        Tape { replay: Some(values), rec: Vec::new(), rng: Rng::new(0), through: None }
    }
    /// Writes every choice straight to a file, so that the tape of a run
    /// which kills its process is known.
    pub fn write_through(&mut self, file: std::fs::File) {
        self.through = Some(file);
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let value = match &self.replay {
            Some(values) => values.get(self.rec.len()).copied().unwrap_or(0).min(n - 1),
            None => self.rng.below(n),
        };
        self.rec.push(value);
        if let Some(file) = &mut self.through {
            let _ = file.write_all(&value.to_le_bytes());
        }
        value
    }
}
