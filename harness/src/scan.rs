//! Scans of many points for the harnesses of the ray caster and the noise model.

/// The k-th end point of a scan spread over [-radius, radius] on each axis, in quarters.
pub fn spread(k: usize, radius: usize) -> [f32; 3] {
    let w = 8 * radius + 1;
    let at = |m: usize| ((k * m) % w) as f32 / 4.0 - radius as f32;
    [at(37), at(53), at(11)]
}
/// A set of cells of a box around the origin.
pub struct Marks {
    size: isize,
    seen: Vec<u8>,
    pub len: usize,
}
impl Marks {
    pub fn new(size: isize, dim: u32) -> Marks {
        Marks { size, seen: vec![0; ((2 * size + 1) as usize).pow(dim)], len: 0 }
    }
    fn at(&self, c: &[isize]) -> usize {
        let mut k = 0;
        for v in c {
            assert!(v.abs() <= self.size);
            k = k * (2 * self.size + 1) + v + self.size;
        }
        k as usize
    }
    pub fn has(&self, c: &[isize]) -> bool {
        self.seen[self.at(c)] == 1
    }
    /// Whether it is new.
    pub fn add(&mut self, c: &[isize]) -> bool {
        let k = self.at(c);
        let new = self.seen[k] == 0;
        self.seen[k] = 1;
        self.len += new as usize;
        new
    }
}
