//! Random numbers that favour what breaks things: small numbers, powers of two, the numbers
//! written in the source, and their neighbours.
pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo.wrapping_add(self.below((hi as i128 - lo as i128 + 1).min(u64::MAX as i128) as u64) as i64)
    }
    pub fn wide(&mut self) -> i128 {
        ((self.next() as u128) << 64 | self.next() as u128) as i128
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    /// any number in lo..=hi
    pub fn int(&mut self, dict: &[i128], lo: i128, hi: i128) -> i128 {
        for _ in 0..8 {
            let x = match self.below(10) {
                0 => self.range(-4, 4) as i128,
                1 => lo.saturating_add(self.below(4) as i128),
                2 => hi.saturating_sub(self.below(4) as i128),
                3 | 4 if !dict.is_empty() => {
                    let d = *self.pick(dict);
                    let d = if self.chance(2) { d } else { -d };
                    d.saturating_add(if self.chance(2) { 0 } else { self.range(-2, 2) as i128 })
                }
                5 if !dict.is_empty() => {
                    let (a, b) = (*self.pick(dict), *self.pick(dict));
                    match self.below(3) {
                        0 => a.saturating_add(b),
                        1 => a.saturating_sub(b),
                        _ => a.saturating_mul(b),
                    }
                    .saturating_add(self.range(-1, 1) as i128)
                }
                6 => {
                    let p = 1i128 << self.below(127);
                    let p = if self.chance(2) { p } else { -p };
                    p.saturating_add(self.range(-2, 2) as i128)
                }
                7 | 8 => {
                    let b = self.below(128) as u32;
                    self.wide() >> b
                }
                _ => {
                    let span = hi.wrapping_sub(lo) as u128;
                    let r = self.wide() as u128;
                    lo.wrapping_add((if span == u128::MAX { r } else { r % (span + 1) }) as i128)
                }
            };
            if x >= lo && x <= hi {
                return x;
            }
        }
        lo + (self.wide() as u128 % ((hi.wrapping_sub(lo) as u128).saturating_add(1))) as i128
    }
}
