/// xoshiro-like generator (splitmix64 stream), enough for test data.
#[derive(Clone)]
pub(crate) struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Self(seed) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// The source of all choices of one case.
pub struct Src {
    rng: Option<Rng>,
    pub(crate) tape: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Self { Self { rng: Some(Rng::new(seed)), tape: vec![], pos: 0 } }
    pub fn replay(tape: &[u64]) -> Self { Self { rng: None, tape: tape.to_vec(), pos: 0 } }
    pub fn tape(&self) -> &[u64] { &self.tape }
    pub(crate) fn used(&self) -> &[u64] { &self.tape[..self.pos.min(self.tape.len())] }

    /// A number in `0..=max`, in wide ranges now and then an edge; shrinks towards 0.
    pub fn upto(&mut self, max: u64) -> u64 { self.draw(max, max >= 255) }
    /// Any number, all equally likely.
    pub fn raw(&mut self) -> u64 { self.draw(u64::MAX, false) }
    fn draw(&mut self, max: u64, edges: bool) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let x = r.next();
                let v = if edges && x >> 60 == 0 { [0, 1, max, max - 1, max / 2, max / 2 + 1, 255, max / 2 - 1][(x % 8) as usize] } else if max == u64::MAX { x } else { x % (max + 1) };
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0).min(max),
        };
        self.pos += 1;
        v
    }
    /// A number in `lo..=hi`; shrinks towards `lo`.
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 { lo.wrapping_add(self.upto(hi.wrapping_sub(lo) as u64) as i64) }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize { lo + self.upto((hi - lo) as u64) as usize }
    pub fn bool(&mut self) -> bool { self.upto(1) == 1 }
    /// True with probability `num/den`; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.draw(den - 1, false) >= den - num }
    /// One of the items; shrinks towards the first.
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.upto(items.len() as u64 - 1) as usize;
        &items[i]
    }
    pub fn one<T: Clone>(&mut self, items: &[T]) -> T { self.pick(items).clone() }
    /// Index chosen by weight; shrinks towards 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total - 1, false);
        for (i, n) in w.iter().enumerate() {
            if x < *n { return i; }
            x -= n;
        }
        w.len() - 1
    }
    pub fn opt<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> Option<T> { if self.bool() { Some(f(self)) } else { None } }
    /// A vector of `lo..=hi` items (each preceded by a "one more" choice, so that items can be deleted).
    pub fn vec<T>(&mut self, lo: usize, hi: usize, mut f: impl FnMut(&mut Self) -> T) -> Vec<T> {
        let mut v = vec![];
        // mean length about a third of the range, with all lengths reachable
        let den = ((hi - lo) as u64 / 3).max(1) + 1;
        while v.len() < hi {
            if v.len() >= lo && !self.chance(den - 1, den) { break; }
            v.push(f(self));
        }
        v
    }
    /// Moves items around.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.upto(i as u64) as usize;
            v.swap(i, j);
        }
    }
}
