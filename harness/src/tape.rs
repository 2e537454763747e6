//! Choice tape: every random decision of every generator is read from a `Vec<u32>` that the
//! property-testing library generates and shrinks.  An exhausted tape answers 0, and 0 is always
//! the simplest choice, so shortening the tape or lowering its values simplifies the case.

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }

    /// Sets the last words (at most `n`, at most half of what is left) aside as a tape of their own,
    /// so that a later step of the case does not depend on how much an earlier one used.
    pub fn tail(&mut self, n: usize) -> Tape<'a> {
        let left = self.data.len().saturating_sub(self.pos);
        let n = n.min(left / 2);
        let (a, b) = self.data.split_at(self.data.len() - n);
        self.data = a;
        Tape::new(b)
    }

    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }

    /// Uniform in `0..n`, monotone in the tape value.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability num/den; a zero tape value means false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }

    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut v = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        ws.len() - 1
    }

    pub fn u64(&mut self) -> u64 {
        ((self.raw() as u64) << 32) | self.raw() as u64
    }
}
