//! The reference model: a plain set of cells.

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Bits(pub [u64; 4]);

pub const MAXCELLS: usize = 256;

impl Bits {
    pub const EMPTY: Bits = Bits([0; 4]);
    pub fn full(n: usize) -> Bits { Bits::run(0, n) }
    /// Cells lo..hi (hi exclusive).
    pub fn run(lo: usize, hi: usize) -> Bits {
        let mut b = Bits::EMPTY;
        for i in lo..hi.min(MAXCELLS) { b.set(i); }
        b
    }
    pub fn set(&mut self, i: usize) { self.0[i / 64] |= 1 << (i % 64); }
    pub fn has(&self, i: usize) -> bool { self.0[i / 64] >> (i % 64) & 1 == 1 }
    fn zip(self, o: Bits, f: impl Fn(u64, u64) -> u64) -> Bits {
        Bits([f(self.0[0], o.0[0]), f(self.0[1], o.0[1]), f(self.0[2], o.0[2]), f(self.0[3], o.0[3])])
    }
    pub fn or(self, o: Bits) -> Bits { self.zip(o, |a, b| a | b) }
    pub fn and(self, o: Bits) -> Bits { self.zip(o, |a, b| a & b) }
    pub fn sub(self, o: Bits) -> Bits { self.zip(o, |a, b| a & !b) }
    pub fn not(self, n: usize) -> Bits { Bits::full(n).sub(self) }
    pub fn is_empty(&self) -> bool { self.0 == [0; 4] }
    pub fn count(&self) -> usize { self.0.iter().map(|w| w.count_ones() as usize).sum() }
    pub fn first(&self) -> Option<usize> { (0..MAXCELLS).find(|&i| self.has(i)) }
    pub fn last(&self) -> Option<usize> { (0..MAXCELLS).rev().find(|&i| self.has(i)) }
    pub fn hull(&self) -> Bits {
        match (self.first(), self.last()) {
            (Some(a), Some(b)) => Bits::run(a, b + 1),
            _ => Bits::EMPTY,
        }
    }
    /// Maximal runs of cells, inclusive.
    pub fn runs(&self) -> Vec<(usize, usize)> {
        let mut out = Vec::new();
        let mut i = 0;
        while i < MAXCELLS {
            if i % 64 == 0 && self.0[i / 64] == 0 { i += 64; continue; }
            if self.has(i) {
                let s = i;
                while i < MAXCELLS && self.has(i) { i += 1; }
                out.push((s, i - 1));
            } else { i += 1; }
        }
        out
    }
    pub fn show(&self) -> String {
        let mut s = String::from("{");
        for (k, (a, b)) in self.runs().into_iter().enumerate() {
            if k > 0 { s.push(' '); }
            if a == b { s += &a.to_string(); } else { s += &format!("{a}..{b}"); }
        }
        s.push('}');
        s
    }
}
