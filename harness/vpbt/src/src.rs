//! The source of every random choice: a recorded sequence of bounded draws.
//!
//! A case is a pure function of its choice sequence, so a failing case is
//! shrunk by editing the sequence and replayed from it.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.rotate_left(32).wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next() ^ b
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    // FNV-1a with a final mix
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for &b in bytes {
        h ^= b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h, bytes.len() as u64)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub rec: Vec<u64>,
    pos: usize,
    dump: Option<std::fs::File>,
    /// 0..=100: how large the case should be. The first choice of every case.
    pub size: u64,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        let mut s = Src {
            mode: Mode::Random(Rng::new(seed)),
            rec: Vec::new(),
            pos: 0,
            dump: None,
            size: 0,
        };
        s.size = s.draw(101);
        s
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        let mut s = Src {
            mode: Mode::Replay(choices),
            rec: Vec::new(),
            pos: 0,
            dump: None,
            size: 0,
        };
        s.size = s.draw(101);
        s
    }
    /// Also write every choice to a file at once, for cases that kill the process.
    pub fn dump_to(&mut self, path: &std::path::Path) {
        use std::io::Write;
        let mut f = std::fs::File::create(path).unwrap();
        for v in &self.rec {
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.dump = Some(f);
    }
    /// Uniform in 0..n; n == 0 stands for 2^64.
    pub fn draw(&mut self, n: u64) -> u64 {
        let raw = match &mut self.mode {
            Mode::Random(r) => r.next(),
            Mode::Replay(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v
            }
        };
        let v = if n == 0 {
            raw
        } else if let Mode::Random(_) = self.mode {
            ((raw as u128 * n as u128) >> 64) as u64
        } else {
            raw % n
        };
        self.rec.push(v);
        if let Some(f) = &mut self.dump {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(lo <= hi);
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is the simpler outcome.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// One more element? On average `avg` of them.
    pub fn more(&mut self, avg: u64) -> bool {
        avg > 0 && self.chance(avg, avg + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index with the given weights; the earlier the simpler.
    pub fn weighted(&mut self, ws: &[u64]) -> usize {
        let total: u64 = ws.iter().sum();
        let mut v = self.draw(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        // drawing zeros leaves the order alone
        for i in 0..xs.len().saturating_sub(1) {
            let j = i + self.below(xs.len() - i);
            xs.swap(i, j);
        }
    }
    /// A length: mostly short, sometimes up to `max`.
    pub fn len(&mut self, max: usize) -> usize {
        let m = match self.weighted(&[4, 4, 2, 1]) {
            0 => 3,
            1 => 10,
            2 => 40,
            _ => max,
        };
        let m = m.min(max);
        self.range(0, m)
    }
    /// 64 bits with the interesting values more likely.
    pub fn bits(&mut self) -> u64 {
        match self.weighted(&[3, 3, 2, 4]) {
            0 => self.draw(4),
            1 => {
                let k = self.draw(64);
                let d = self.draw(3);
                (1u64 << k).wrapping_add(d).wrapping_sub(1)
            }
            2 => {
                let v = self.draw(256);
                let all = v | v << 8;
                let all = all | all << 16;
                all | all << 32
            }
            _ => self.draw(0),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let v = self.draw(0).to_le_bytes();
            let k = (n - out.len()).min(8);
            out.extend_from_slice(&v[..k]);
        }
        out
    }
    /// Have the recorded choices of a replay been used up?
    pub fn exhausted(&self) -> bool {
        match &self.mode {
            Mode::Random(_) => false,
            Mode::Replay(c) => self.pos >= c.len(),
        }
    }
}
