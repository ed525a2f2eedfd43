//! deterministic random cases, steered by the constants that occur in the code under test
use std::sync::OnceLock;

/// constants of the current tree that are new with respect to the committed list, and all of them
static DICT: OnceLock<(Vec<f64>, Vec<f64>)> = OnceLock::new();
fn dict() -> &'static (Vec<f64>, Vec<f64>) {
    DICT.get_or_init(|| {
        let get = |k: &str| std::env::var(k).unwrap_or_default().split(',').filter_map(|s| s.parse().ok()).filter(|x: &f64| x.abs() <= 1e15 && (*x == 0.0 || x.abs() >= 1e-15)).collect();
        (get("LFA_NEW_CONSTS"), get("LFA_CONSTS"))
    })
}
const EDGES: &[usize] = &[8, 16, 32, 64, 100, 128, 256];

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, name: &str, case: u64) -> Rng {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in name.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
        h ^= case.wrapping_mul(0xD6E8FEB86659FD93);
        let mut r = Rng(h | 1);
        for _ in 0..4 { r.u(); }
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn unit(&mut self) -> f64 { (self.u() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn f(&mut self, a: f64, b: f64) -> f64 { a + (b - a) * self.unit() }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    /// an integer at or next to a constant of the code under test, or next to a usual block size
    fn edge(&mut self, a: usize, b: usize) -> Option<usize> {
        let (new, all) = dict();
        let base = if !new.is_empty() && self.chance(1, 4) { *self.pick(new) } else {
            match self.below(120) { 0 => *self.pick(EDGES) as f64, 1 if !all.is_empty() => *self.pick(all), _ => return None }
        };
        let k = base.abs();
        if k > b as f64 { return None; }
        let k = k as isize + *self.pick(&[0, 1, -1, 2, 3]);
        if k < a as isize || k > b as isize { None } else { Some(k as usize) }
    }
    /// a count in a..=b, occasionally a larger one (up to max)
    pub fn count(&mut self, a: usize, b: usize, max: usize) -> usize { match self.edge(a, max) { Some(k) => k, None => self.range(a, b) } }
    /// a size: usually small, sometimes larger than any unrolling or block size
    pub fn size(&mut self) -> usize {
        if let Some(k) = self.edge(0, 600) { return k; }
        match self.below(200) { 0 => self.range(250, 300), 1..=9 => self.range(60, 140), 10..=49 => self.range(7, 40), _ => self.range(0, 6) }
    }
    /// a real next to a constant of the code under test
    pub fn near_const(&mut self) -> Option<f64> {
        let (new, all) = dict();
        let base = if !new.is_empty() && self.chance(1, 5) { *self.pick(new) } else if !all.is_empty() && self.chance(1, 100) { *self.pick(all) } else { return None };
        Some(base * *self.pick(&[1.0, -1.0, 0.3, -0.3, 0.999, 1.001, -0.999, -1.001, 3.0, -3.0, 10.0, 1.5, -1.5]))
    }
    pub fn magnitude(&mut self, lo: i32, hi: i32) -> f64 { 10f64.powi(lo + self.below((hi - lo + 1) as usize) as i32) }
    /// a real that is usually moderate
    pub fn real(&mut self, a: f64, b: f64) -> f64 {
        if let Some(x) = self.near_const() { return x; }
        match self.below(60) { 0 => 0.0, 1 => *self.pick(&[1.0, -1.0, 0.5, 2.0]), 2 => { let s = self.magnitude(-9, 9); self.f(-3.0, 3.0) * s } _ => self.f(a, b) }
    }
    /// an activation: zeros, tiny and large values, both signs
    pub fn act(&mut self) -> f64 {
        if let Some(x) = self.near_const() { return x; }
        match self.below(24) {
            0..=3 => 0.0, 4 | 5 => -0.0, 6 | 7 => *self.pick(&[1.0, -1.0, 2.0, -3.0, 0.5]),
            8 | 9 => *self.pick(&[1e-8, -1e-8, 5e-8, 2e-7, -2e-7, 9e-6, 1.1e-5, -1.1e-5, 1e-4]),
            10 => self.f(-1e4, 1e4), 11 => { let s = self.magnitude(-14, 9); self.f(-3.0, 3.0) * s } _ => self.f(-3.0, 3.0),
        }
    }
    /// a scale for a whole case
    pub fn scale(&mut self) -> f64 { if self.chance(1, 10) { self.magnitude(-13, 13) } else { 1.0 } }
}
