//! The choice source. Every random choice of a case is a byte of a tape. A fresh case draws the
//! tape from a PRNG; shrinking and replay edit or reuse it. Past its end a replayed tape gives
//! zeros, and zero is always the simplest choice.

use std::io::Write;

#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

pub fn hash_bytes(mut h: u64, bytes: &[u8]) -> u64 {
    for c in bytes.chunks(8) {
        let mut w = 0u64;
        for (i, &b) in c.iter().enumerate() {
            w |= (b as u64) << (8 * i);
        }
        h = mix(h ^ (c.len() as u64) << 56, w);
    }
    h
}

pub struct Src {
    pub tape: Vec<u8>,
    pos: usize,
    rng: Option<Rng>,
    word: u64,
    left: u32,
    dump: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::with_capacity(256), pos: 0, rng: Some(Rng(seed)), word: 0, left: 0, dump: None }
    }

    pub fn replay(tape: &[u8]) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None, word: 0, left: 0, dump: None }
    }

    /// Write every drawn byte to `path` at once, so that the tape survives an abort.
    pub fn dump_to(mut self, path: &str) -> Src {
        self.dump = std::fs::File::create(path).ok();
        self
    }

    pub fn used(&self) -> usize {
        self.pos
    }

    #[inline]
    pub fn byte(&mut self) -> u8 {
        let b = if self.pos < self.tape.len() {
            self.tape[self.pos]
        } else if let Some(rng) = self.rng.as_mut() {
            if self.left == 0 {
                self.word = rng.next();
                self.left = 8;
            }
            let b = self.word as u8;
            self.word >>= 8;
            self.left -= 1;
            self.tape.push(b);
            b
        } else {
            return 0;
        };
        self.pos += 1;
        if let Some(f) = self.dump.as_mut() {
            let _ = f.write_all(&[b]);
        }
        b
    }

    pub fn u16(&mut self) -> u16 {
        (self.byte() as u16) << 8 | self.byte() as u16
    }

    pub fn u32(&mut self) -> u32 {
        (self.u16() as u32) << 16 | self.u16() as u32
    }

    /// A number below `n` (0 if `n` is 0 or 1).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else if n <= 256 {
            self.byte() as usize * n >> 8
        } else if n <= 65536 {
            self.u16() as usize * n >> 16
        } else {
            (self.u32() as u64 * n as u64 >> 32) as usize
        }
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True in `p` of 256 cases; the zero byte is false.
    pub fn chance(&mut self, p: u32) -> bool {
        self.byte() as u32 + p >= 256
    }

    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }

    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total as usize) as u32;
        for (i, &w) in weights.iter().enumerate() {
            if x < w {
                return i;
            }
            x -= w;
        }
        weights.len() - 1
    }

    /// A length: mostly small, sometimes up to `max`, sometimes next to a power of two.
    pub fn len(&mut self, max: usize) -> usize {
        let r = match self.weighted(&[120, 86, 31, 8, 2, 6, 3]) {
            0 => self.below(5),
            1 => self.below(16),
            2 => self.below(48),
            3 => self.below(160),
            4 => self.below(1200),
            5 => (8usize << self.below(8)) - 1 + self.below(3),
            _ => crate::dict::length(self, max.min(4096)),
        };
        r.min(max)
    }

    /// `n` bytes that cost two tape bytes only.
    pub fn bulk(&mut self, n: usize) -> Vec<u8> {
        let seed = self.u16();
        let mut rng = Rng(seed as u64);
        let mut v = Vec::with_capacity(n + 8);
        if seed == 0 {
            v.resize(n, b'x');
            return v;
        }
        while v.len() < n {
            v.extend_from_slice(&rng.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }

    /// Cut points of `len` bytes into slices; equal points are empty slices.
    pub fn cuts(&mut self, len: usize) -> Vec<usize> {
        let mut c = match self.weighted(&[30, 60, 40, 60, 40, 26]) {
            0 => vec![],
            1 => {
                let a = self.below(len + 1);
                vec![a]
            }
            2 => (0..=len).collect(),
            3 => {
                let n = self.range(1, 6);
                (0..n).map(|_| self.below(len + 1)).collect()
            }
            4 => {
                // blocks of one size
                let n = self.range(1, 24);
                let o = self.below(n);
                (0..).map(|i| o + i * n).take_while(|&x| x <= len).collect()
            }
            _ => {
                // many cuts, many of them equal or next to each other
                let mut v = vec![];
                let mut x = 0;
                while x <= len && v.len() < 4096 {
                    v.push(x);
                    x += match self.below(6) {
                        0 => 1,
                        1 => 0,
                        2 => 2,
                        3 => 1,
                        4 => 5,
                        _ => 11,
                    };
                }
                v
            }
        };
        c.sort_unstable();
        c
    }
}

pub fn slices<'a>(wire: &'a [u8], cuts: &[usize]) -> Vec<&'a [u8]> {
    let mut v = Vec::with_capacity(cuts.len() + 1);
    let mut p = 0;
    for &c in cuts {
        let c = c.min(wire.len());
        v.push(&wire[p..c]);
        p = c;
    }
    v.push(&wire[p..]);
    v
}

/// Readable bytes.
pub fn show(bytes: &[u8]) -> String {
    let mut s = String::with_capacity(bytes.len() + 2);
    s.push('"');
    for (i, &b) in bytes.iter().enumerate() {
        if i == 2000 {
            s.push_str(&format!("\"... ({} bytes)", bytes.len()));
            return s;
        }
        match b {
            b'\r' => s.push_str("\\r"),
            b'\n' => s.push_str("\\n"),
            b'\t' => s.push_str("\\t"),
            b'"' => s.push_str("\\\""),
            b'\\' => s.push_str("\\\\"),
            0x20..=0x7E => s.push(b as char),
            _ => s.push_str(&format!("\\x{:02x}", b)),
        }
    }
    s.push('"');
    s
}
