use crate::model::Rng;

/// One deterministic check: `run` is a function of the input bytes alone.
pub struct Case {
    pub prop: &'static str,
    pub name: String,
    /// inputs below this index are always run (exhaustive part)
    pub fixed: u64,
    /// further pseudo-random inputs in one round
    pub random: u64,
    pub input: Box<dyn Fn(u64, u64) -> Vec<u8> + Send + Sync>,
    pub run: Box<dyn Fn(&[u8]) -> Result<(), String> + Send + Sync>,
}

pub fn seed_bytes(seed: u64, i: u64) -> Vec<u8> {
    Rng::new(seed ^ i.wrapping_mul(0x9E3779B97F4A7C15))
        .next()
        .to_le_bytes()
        .to_vec()
}
pub fn rng_of(b: &[u8]) -> Rng {
    let mut x = 0u64;
    for d in b.iter().rev().take(8) {
        x = x.wrapping_mul(256).wrapping_add(*d as u64);
    }
    let mut h = x;
    for d in b {
        h = h.wrapping_mul(31).wrapping_add(*d as u64);
    }
    Rng::new(h)
}

/// i-th string of the exhaustive enumeration: all strings of length 0, 1, 2, then all strings of
/// length 3..=5 over a small alphabet.
pub const ALPHA: [u8; 7] = [0, 1, 2, 4, 5, 8, 255];
pub const N2: u64 = 1 + 256 + 65536;
pub const N5: u64 = N2 + 343 + 2401 + 16807;
pub fn exhaustive(i: u64) -> Vec<u8> {
    if i == 0 {
        return vec![];
    }
    if i < 257 {
        return vec![(i - 1) as u8];
    }
    if i < N2 {
        let j = i - 257;
        return vec![(j / 256) as u8, (j % 256) as u8];
    }
    let mut j = i - N2;
    let mut len = 3;
    let mut n = 343;
    while j >= n {
        j -= n;
        len += 1;
        n *= 7;
    }
    (0..len)
        .map(|_| {
            let x = ALPHA[(j % 7) as usize];
            j /= 7;
            x
        })
        .collect()
}
