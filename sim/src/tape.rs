//! The choice tape: the single source of every decision of a simulated run.

#[derive(Clone)]
pub struct SplitMix(pub u64);

impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Upper bound on the number of choices of one run. Choices beyond it are 0,
/// which by convention means "stop / simplest / no fault".
pub const TAPE_CAP: usize = 60_000;

pub struct Tape {
    vals: Vec<u64>,
    pos: usize,
    gen: Option<SplitMix>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape {
            vals: Vec::new(),
            pos: 0,
            gen: Some(SplitMix(seed)),
        }
    }

    pub fn replay(vals: Vec<u64>) -> Tape {
        Tape {
            vals,
            pos: 0,
            gen: None,
        }
    }

    /// Draw a value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.vals.len() {
            self.vals[self.pos] % n
        } else if let Some(g) = self.gen.as_mut() {
            if self.vals.len() >= TAPE_CAP {
                return 0;
            }
            let v = g.next() % n;
            self.vals.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }

    /// The choices consumed so far.
    pub fn used(&self) -> Vec<u64> {
        let n = self.pos.min(self.vals.len());
        let mut v = self.vals[..n].to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = SplitMix(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    s.next();
    s.next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
