//! Choice tape: every random decision of a case is one bounded integer drawn here.
use crate::{BigInt, BigUint, Q};
use num_traits::{One, Zero};

#[derive(Clone)]
pub struct Rng(u64, u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        let a = splitmix(&mut s);
        let b = splitmix(&mut s);
        Rng(a, b | 1)
    }
    pub fn next(&mut self) -> u64 {
        // xorshift128+
        let mut x = self.0;
        let y = self.1;
        self.0 = y;
        x ^= x << 23;
        self.1 = x ^ y ^ (x >> 17) ^ (y >> 26);
        self.1.wrapping_add(y)
    }
}
pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.tape.len())
    }
    /// choice in 0..n (n >= 1)
    pub fn below(&mut self, n: u64) -> u64 {
        debug_assert!(n >= 1);
        let v = match &mut self.rng {
            Some(r) => {
                let v = ((r.next() as u128 * n as u128) >> 64) as u64;
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    pub fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next();
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }
    pub fn usize(&mut self, lo: usize, hi_incl: usize) -> usize {
        lo + self.below((hi_incl - lo + 1) as u64) as usize
    }
    /// inclusive range; zero (or the value nearest zero) is the simplest choice
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        let base = if lo > 0 { lo } else if hi < 0 { hi } else { 0 };
        let n = (hi as i128 - lo as i128 + 1) as u64;
        let v = self.below(n) as i128;
        // zig-zag around base
        let up = hi as i128 - base as i128;
        let down = base as i128 - lo as i128;
        let m = up.min(down);
        let r = if v <= 2 * m {
            if v % 2 == 1 { base as i128 + (v + 1) / 2 } else { base as i128 - v / 2 }
        } else if up > down {
            base as i128 + (v - m)
        } else {
            base as i128 - (v - m)
        };
        r as i64
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // "false" is the simple outcome
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    /// number of bits biased towards small
    pub fn bits(&mut self, max: usize) -> usize {
        let cap = match self.weighted(&[4, 3, 2, 1]) {
            0 => 4,
            1 => 12,
            2 => 40,
            _ => max,
        };
        self.usize(0, cap.min(max))
    }
    pub fn uint_bits(&mut self, bits: usize) -> BigUint {
        let mut r = BigUint::zero();
        let mut left = bits;
        while left > 0 {
            let k = left.min(32);
            r = (r << k) + BigUint::from(self.below(1u64 << k));
            left -= k;
        }
        r
    }
    pub fn biguint(&mut self, max_bits: usize) -> BigUint {
        let b = self.bits(max_bits);
        if b > 2 && self.chance(1, 6) {
            // near a power of two
            let p = BigUint::one() << b;
            return match self.below(3) {
                0 => p,
                1 => p - 1u32,
                _ => p + 1u32,
            };
        }
        self.uint_bits(b)
    }
    pub fn bigint(&mut self, max_bits: usize) -> BigInt {
        let v = BigInt::from(self.biguint(max_bits));
        if self.bool() { -v } else { v }
    }
    pub fn nonzero_bigint(&mut self, max_bits: usize) -> BigInt {
        let v = self.bigint(max_bits);
        if v.is_zero() { BigInt::one() } else { v }
    }
    pub fn ratio(&mut self, max_bits: usize) -> Q {
        let n = self.bigint(max_bits);
        let d = if self.chance(2, 3) { BigInt::from(self.biguint(max_bits)) } else { BigInt::one() };
        Q::new(n, if d.is_zero() { BigInt::one() } else { d })
    }
    pub fn small_ratio(&mut self, n: i64, d: i64) -> Q {
        let a = self.int(-n, n);
        let b = if self.chance(1, 2) { self.int(1, d) } else { 1 };
        Q::new(a.into(), b.into())
    }
}
