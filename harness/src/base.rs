//! model feature vectors, and the real ones in every representation and memory layout
use crate::rng::Rng;
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1, Array2, Axis};

pub const TOL: f64 = 1e-9;
pub fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= TOL * (1.0 + a.abs().max(b.abs()))
}
/// relative to the size of the terms that went into a sum
pub fn close_s(a: f64, b: f64, mag: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-11 * mag }
/// relative to the numbers themselves
pub fn close_r(a: f64, b: f64) -> bool { close_s(a, b, 1e2 * a.abs().max(b.abs())) }
pub fn same_f(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }
pub fn same_o(a: Option<f64>, b: Option<f64>) -> bool { match (a, b) { (Some(x), Some(y)) => same_f(x, y), (x, y) => x.is_none() && y.is_none() } }
pub fn same_all(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_f(*x, *y)) }
pub fn close_all(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y)) }

#[derive(Clone, Debug, PartialEq)]
pub struct M { pub dense: bool, pub v: Vec<Option<f64>> }

impl M {
    pub fn rand(r: &mut Rng) -> M { let d = r.chance(1, 2); let n = r.size(); M::of(r, d, n) }
    pub fn rand_n(r: &mut Rng, n: usize) -> M { let d = r.chance(1, 2); M::of(r, d, n) }
    /// like rand and rand_n; now and then with infinite, undefined, huge and tiny activations among the others
    pub fn any(r: &mut Rng) -> M { let m = M::rand(r); m.with_special(r) }
    pub fn any_n(r: &mut Rng, n: usize) -> M { let m = M::rand_n(r, n); m.with_special(r) }
    fn with_special(mut self, r: &mut Rng) -> M {
        if r.chance(1, 8) {
            for x in self.v.iter_mut() {
                if x.is_some() && r.chance(1, 4) { *x = Some(*r.pick(&[f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -1e300, 1e-300])); }
            }
        }
        self
    }
    pub fn of(r: &mut Rng, dense: bool, n: usize) -> M {
        let mode = r.below(4);
        let scale = r.scale();
        let v = (0..n).map(|_| {
            let x = scale * r.act();
            if dense { Some(x) } else if match mode { 0 => r.chance(1, 8), 1 => true, _ => r.chance(1, 2) } { Some(x) } else { None }
        }).collect();
        M { dense, v }
    }
    pub fn n(&self) -> usize { self.v.len() }
    pub fn at(&self, i: usize) -> f64 { self.v[i].unwrap_or(0.0) }
    pub fn flat(&self) -> Vec<f64> { (0..self.n()).map(|i| self.at(i)).collect() }
    pub fn stored(&self) -> Vec<usize> { (0..self.n()).filter(|i| self.v[*i].is_some()).collect() }
    /// the other representation of the same activations
    pub fn other(&self) -> M {
        if self.dense { M { dense: false, v: self.v.iter().map(|x| x.filter(|y| *y != 0.0)).collect() } }
        else { M { dense: true, v: self.flat().into_iter().map(Some).collect() } }
    }
    pub fn build(&self, r: &mut Rng) -> Features {
        if self.dense { Features::Dense(layout1(r, &self.flat())) }
        else {
            let mut ix = self.stored();
            for i in (1..ix.len()).rev() { let j = r.below(i + 1); ix.swap(i, j); }
            Features::Sparse(SparseActivations { dim: self.n(), activations: ix.into_iter().map(|i| (i, self.at(i))).collect() })
        }
    }
    /// this vector, entry for entry, up to rounding
    pub fn same(&self, f: &Features) -> Result<(), String> { self.like(f, close) }
    /// this vector, entry for entry, without any rounding
    pub fn exact(&self, f: &Features) -> Result<(), String> { self.like(f, same_f) }
    pub fn like(&self, f: &Features, close: fn(f64, f64) -> bool) -> Result<(), String> {
        let close_all = |a: &[f64], b: &[f64]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y));
        match f {
            Features::Dense(d) => {
                if !self.dense { return Err(format!("is dense {:?}, expected sparse {:?}", d, self.v)); }
                if !close_all(&d.iter().copied().collect::<Vec<_>>(), &self.flat()) { return Err(format!("is {:?}, expected {:?}", d, self.flat())); }
            }
            Features::Sparse(sa) => {
                if self.dense { return Err(format!("is sparse {:?}, expected dense {:?}", sa, self.flat())); }
                if sa.dim != self.n() { return Err(format!("has dimension {}, expected {}", sa.dim, self.n())); }
                if sa.activations.len() != self.stored().len() || self.stored().iter().any(|i| sa.activations.get(i).map_or(true, |x| !close(*x, self.at(*i)))) {
                    return Err(format!("stores {:?}, expected {:?}", sa.activations, self.v));
                }
            }
        }
        Ok(())
    }
    /// the same activations in either representation
    pub fn reads(&self, f: &Features) -> Result<(), String> {
        if f.n_features() != self.n() { return Err(format!("has {} features, expected {}", f.n_features(), self.n())); }
        if let Features::Sparse(sa) = f { if let Some(k) = sa.activations.keys().find(|k| **k >= self.n()) { return Err(format!("stores index {} outside dimension {}", k, self.n())); } }
        let d: Vec<f64> = read(f);
        if !close_all(&d, &self.flat()) { return Err(format!("reads {:?}, expected {:?}", d, self.flat())); }
        Ok(())
    }
}

/// activations of a real vector, without going through the code under test
pub fn read(f: &Features) -> Vec<f64> {
    match f {
        Features::Dense(d) => d.iter().copied().collect(),
        Features::Sparse(s) => (0..s.dim).map(|i| s.activations.get(&i).copied().unwrap_or(0.0)).collect(),
    }
}

/// an owned array with the given logical elements and some memory layout
pub fn layout1(r: &mut Rng, v: &[f64]) -> Array1<f64> {
    match r.below(4) {
        0 => { let mut a = Array1::from(v.iter().rev().copied().collect::<Vec<_>>()); a.invert_axis(Axis(0)); a }
        1 if v.len() > 0 => { let mut w = vec![77.0; 3 * v.len()]; for (i, x) in v.iter().enumerate() { w[3 * i] = *x; } Array1::from(w).slice_move(s![..;3]) }
        _ => Array1::from(v.to_vec()),
    }
}
pub fn layout2(r: &mut Rng, rows: usize, cols: usize, v: &dyn Fn(usize, usize) -> f64) -> Array2<f64> {
    match r.below(4) {
        0 => { let a = Array2::from_shape_fn((cols, rows), |(j, i)| v(i, j)); a.reversed_axes() }
        1 => { let mut a = Array2::from_shape_fn((rows, cols), |(i, j)| v(rows - 1 - i, j)); a.invert_axis(Axis(0)); a }
        2 if cols > 0 => Array2::from_shape_fn((rows, 2 * cols), |(i, j)| if j % 2 == 0 { v(i, j / 2) } else { 55.0 }).slice_move(s![.., ..;2]),
        _ => Array2::from_shape_fn((rows, cols), |(i, j)| v(i, j)),
    }
}
pub fn weights(r: &mut Rng, n: usize) -> Vec<f64> { (0..n).map(|_| r.f(-2.0, 2.0)).collect() }
pub fn silent<T>(f: impl FnOnce() -> T) -> Result<T, ()> { std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| ()) }
