use crate::{base::*, kernels, need, rng::Rng, Check, R};
use lfa::basis::*;
use lfa::{Error, Features, Result as LR};
use spaces::{real::Interval, Card, Dim, Equipartition, ProductSpace, Space};
use std::hash::{BuildHasher, Hasher};
use std::rc::Rc;

pub const CHECKS: &[Check] = &[
    ("C10", "dimension", 2500, |r| again(r, |r| each(r, true, false))), ("C11", "ith", 2500, |r| again(r, |r| each(r, false, true))), ("C11", "closure_ith", 300, default_ith),
    ("C12", "polynomial", 600, |r| again(r, polynomial)), ("C13", "chebyshev", 600, |r| again(r, chebyshev)), ("C13", "orders", 60, cheb_orders), ("C14", "fourier", 600, |r| again(r, fourier)),
    ("C16", "prototypes", 800, |r| again(r, prototypes)), ("C16", "partitions", 400, |r| again(r, partitions)), ("C17", "tiles", 3000, |r| again(r, |r| tiles(r, false))), ("C11", "tiles", 1000, |r| again(r, |r| tiles(r, true))), ("C11", "loose", 500, loose), ("C10", "wide", 1000, |r| wide(r, 10)), ("C11", "wide", 2000, |r| wide(r, 11)), ("C17", "wide", 500, |r| wide(r, 17)), ("C18", "wide", 1000, |r| wide(r, 18)), ("C18", "grid", 3000, |r| again(r, grid)),
    ("C19", "stack", 1500, |r| again(r, stack)), ("C19", "constants", 800, constants), ("C20", "normalised", 4000, |r| again(r, normalised)),
    ("C30", "bases", 300, |r| each(r, true, true)),
];

// ------------------------------------------------------------- opaque bases
/// any basis, behind a pointer, so that they nest freely
pub trait Dy { fn proj(&self, x: &[f64]) -> LR<Features>; fn at(&self, x: &[f64], i: usize) -> LR<f64>; fn d(&self) -> usize; fn nf(&self) -> usize; }
impl<B> Dy for B where B: for<'a> EnumerableBasis<&'a [f64], Value = Features> {
    fn proj(&self, x: &[f64]) -> LR<Features> { self.project(x) }
    fn at(&self, x: &[f64], i: usize) -> LR<f64> { self.ith(x, i) }
    fn d(&self) -> usize { self.dim().into() }
    fn nf(&self) -> usize { Basis::<&[f64]>::n_features(self) }
}
#[derive(Clone)]
pub struct Any(pub Rc<dyn Dy>, pub String);
impl Space for Any { type Value = Features; fn dim(&self) -> Dim { Dim::Finite(self.0.d()) } fn card(&self) -> Card { Card::Infinite } }
impl<'a> Basis<&'a [f64]> for Any { fn project(&self, x: &'a [f64]) -> LR<Features> { self.0.proj(x) } }
impl<'a> EnumerableBasis<&'a [f64]> for Any { fn ith(&self, x: &'a [f64], i: usize) -> LR<f64> { self.0.at(x, i) } }
impl Combinators for Any {}

/// a basis that projects everything to the same features, or fails
#[derive(Clone)]
pub struct Raw { pub m: M, pub f: Option<Features> }
impl Raw {
    pub fn of(r: &mut Rng, m: &M) -> Raw { Raw { m: m.clone(), f: Some(m.build(r)) } }
    pub fn failing(n: usize) -> Raw { Raw { m: M { dense: true, v: vec![Some(0.0); n] }, f: None } }
    fn err(&self) -> Error { Error::index_error(4242, self.m.n()) }
}
impl Space for Raw { type Value = Features; fn dim(&self) -> Dim { Dim::Finite(self.m.n()) } fn card(&self) -> Card { Card::Infinite } }
impl<'a> Basis<&'a [f64]> for Raw { fn project(&self, _: &'a [f64]) -> LR<Features> { self.f.clone().ok_or_else(|| self.err()) } }
impl<'a> EnumerableBasis<&'a [f64]> for Raw {}
impl Combinators for Raw {}

fn act(r: &mut Rng) -> f64 { r.act() }
// ------------------------------------------------------------- random bases over d inputs in [0, 1]^d (or a little outside)
fn limits(r: &mut Rng, d: usize) -> Vec<(f64, f64)> { (0..d).map(|_| { let a = r.f(-2.0, 0.5); (a, a + r.f(0.3, 4.0)) }).collect() }
fn small(r: &mut Rng, d: usize) -> u8 { (match d { 0 | 1 => r.count(0, 9, 255), 2 => r.count(0, 4, 20), _ => r.range(0, 2) }) as u8 }
fn small_c(r: &mut Rng, d: usize) -> u8 { small(r, d).min(11) }
fn parts(r: &mut Rng, d: usize) -> Vec<(f64, f64, usize)> { limits(r, d).into_iter().map(|(a, b)| (a, b, if d == 1 { r.count(1, 5, 300) } else if d == 2 { r.count(1, 5, 20) } else { r.range(1, 4) })).collect() }
fn space(p: &[(f64, f64, usize)]) -> ProductSpace<Equipartition> { p.iter().map(|(a, b, n)| Equipartition::new(*a, *b, *n)).collect() }

#[derive(Clone, Debug, PartialEq)]
pub struct Mix(pub u64);
#[derive(Clone, Debug)]
pub struct MixH(u64);
impl BuildHasher for Mix { type Hasher = MixH; fn build_hasher(&self) -> MixH { MixH(self.0) } }
impl Hasher for MixH {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}

fn any(r: &mut Rng, d: usize, depth: usize) -> Any {
    let k = if depth == 0 { r.below(9) } else { r.below(15) };
    match k {
        0 => { let o = small(r, d); let b = Polynomial::new(d, o); if r.chance(1, 2) { w(b.with_zeroth(), "polynomial with zeroth") } else { w(b, "polynomial") } }
        1 => { let o = small_c(r, d); let b = Chebyshev::new(o, limits(r, d)); if r.chance(1, 2) { w(b.with_zeroth(), "chebyshev with zeroth") } else { w(b, "chebyshev") } }
        2 => { let o = small(r, d); w(Fourier::new(o, limits(r, d)), "fourier") }
        3 => { let p = parts(r, d); w(KernelBasis::exp_quad(space(&p)), "kernel basis") }
        4 => { let (n, m) = (r.count(1, 9, 80), r.count(1, 40, 300)); w(TileCoding::new(Mix(r.u()), n, m), "tile coding") }
        5 => { let p = parts(r, d); w(UniformGrid::new(space(&p)), "grid") }
        6 => w(Bias(act(r)), "bias"),
        7 => { let q = r_n(r); let m = M::of(r, true, q); w(Fixed::dense(m.flat()), "fixed dense") }
        8 => { let q = r_n(r); let m = M::of(r, false, q); w(Fixed::sparse(m.n(), m.stored()), "fixed sparse") }
        9 => { let m = M::rand(r); w(Raw::of(r, &m), "raw") }
        10 => { let (a, b) = (any(r, d, depth - 1), any(r, d, depth - 1)); let s = format!("stack({}, {})", a.1, b.1); w(a.stack(b), &s) }
        11 => { let a = any(r, d, depth - 1); let s = format!("l0({})", a.1); w(a.normalise_l0(), &s) }
        12 => { let a = any(r, d, depth - 1); let s = format!("l1({})", a.1); w(a.normalise_l1(), &s) }
        13 => { let a = any(r, d, depth - 1); let s = format!("l2({})", a.1); w(a.normalise_l2(), &s) }
        _ => { let a = any(r, d, depth - 1); let s = format!("linf({})", a.1); w(a.normalise_linf(), &s) }
    }
}
fn r_n(r: &mut Rng) -> usize { r.count(0, 9, 300) }
fn w<B: Dy + 'static>(b: B, s: &str) -> Any { Any(Rc::new(b), s.to_string()) }
fn input(r: &mut Rng, d: usize) -> Vec<f64> { let x = (0..d).map(|_| if r.chance(1, 6) { *r.pick(&[0.0, 1.0, 0.5, -1.0]) } else { r.f(-2.0, 3.0) }).collect(); recall(r, x) }
thread_local!(static SEEN: std::cell::RefCell<Vec<Vec<f64>>> = std::cell::RefCell::new(vec![]));
/// the same check twice: the second time, other objects often meet inputs that the first ones have met
pub fn again(r: &mut Rng, f: impl Fn(&mut Rng) -> R) -> R {
    SEEN.with(|s| s.borrow_mut().clear());
    f(r)?;
    if r.chance(1, 2) { return Ok(()); }
    f(r).map_err(|e| format!("(after another object) {}", e))
}
/// a fresh input, or one of the same dimension that was used before
pub fn recall(r: &mut Rng, x: Vec<f64>) -> Vec<f64> {
    SEEN.with(|s| {
        let mut s = s.borrow_mut();
        let c: Vec<Vec<f64>> = s.iter().filter(|y| y.len() == x.len()).cloned().collect();
        if !c.is_empty() && r.chance(2, 3) { return r.pick(&c).clone(); }
        if s.len() < 16 { s.push(x.clone()); }
        x
    })
}
/// a dimension, often that of an input used before
fn dims(r: &mut Rng, d: usize) -> usize { SEEN.with(|s| match s.borrow().last() { Some(x) if r.chance(2, 3) => x.len(), _ => d }) }

fn each(r: &mut Rng, dims: bool, ith: bool) -> R {
    let d = r.range(1, 3);
    let b = any(r, d, 2);
    let x = input(r, d);
    let n = b.0.d();
    need!(b.0.nf() == n, "{} advertises {} features and dimension {}", b.1, b.0.nf(), n);
    let f = b.0.proj(&x).map_err(|e| format!("{} fails on {:?}: {}", b.1, x, e))?;
    if dims {
        need!(f.n_features() == n, "{} projects {:?} to {} features, its dimension is {}", b.1, x, f.n_features(), n);
        if let Features::Sparse(s) = &f { for k in s.activations.keys() { need!(*k < n, "{} stores index {}, its dimension is {}", b.1, k, n); } }
    }
    if ith {
        let v = read(&f);
        for i in 0..n {
            let y = b.0.at(&x, i).map_err(|e| format!("{}: feature {} of {} fails: {}", b.1, i, n, e))?;
            need!(close(y, v[i]), "{}: feature {} of {:?} is {}, the projection has {} ({:?})", b.1, i, x, y, v[i], f);
        }
        for i in [n, n + 1, n + 7, usize::MAX] {
            match b.0.at(&x, i) { Err(_) => {} Ok(y) => return Err(format!("{}: feature {} of {} is {}, expected an index error", b.1, i, n, y)) }
        }
    }
    Ok(())
}

fn default_ith(r: &mut Rng) -> R {
    let m = M::rand(r);
    let b = Raw::of(r, &m);
    for i in 0..m.n() { let y = b.ith(&[], i).map_err(|e| e.to_string())?; need!(close(y, m.at(i)), "default feature {} is {}, expected {}", i, y, m.at(i)); }
    for i in [m.n(), m.n() + 3, usize::MAX] { need!(b.ith(&[], i) == Err(Error::index_error(i, m.n())), "default feature {} of {}", i, m.n()); }
    let b = Raw::failing(4);
    need!(b.ith(&[], 1) == Err(b.err()), "default evaluation hides the failure of the projection");
    Ok(())
}

/// every non-zero tuple over 0..=order, lexicographic
fn tuples(order: u8, d: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..d { out = out.into_iter().flat_map(|t| (0..=order).map(move |k| { let mut u = t.clone(); u.push(k); u })).collect(); }
    out.retain(|t| t.iter().any(|k| *k != 0));
    out
}

fn polynomial(r: &mut Rng) -> R {
    let big = r.chance(1, 40);
    let d = if big { r.range(1, 2) } else { let d = r.range(0, 4); dims(r, d) };
    let o = if big { r.range(100, if d == 1 { 255 } else { 140 }) as u8 } else { small(r, d) };
    let b = Polynomial::new(d, o);
    let ts = tuples(o, d);
    need!(b.exponents == ts && b.order == o, "exponents of dimension {} and order {}: {:?}, expected {:?}", d, o, b.exponents, ts);
    let large = o > 20 || r.chance(1, 3);
    let x: Vec<f64> = if large { (0..d).map(|_| if r.chance(1, 2) { r.f(-1.05, -0.95) } else { r.f(0.95, 1.05) }).collect() } else { input(r, d) };
    let close = |a: f64, b: f64| close_s(a, b, 1e2 * b.abs());
    let f = b.project(&x).map_err(|e| e.to_string())?;
    let e: Vec<f64> = ts.iter().map(|t| t.iter().zip(&x).map(|(k, v)| v.powi(*k as i32)).product()).collect();
    M { dense: true, v: e.iter().copied().map(Some).collect() }.like(&f, close_r).map_err(|s| format!("projection of {:?} (order {}): {}", x, o, s))?;
    // other exponents, including large ones
    let ex: Vec<Vec<u8>> = (0..r.range(0, 4)).map(|_| (0..d).map(|_| if large { r.range(0, 255) } else { r.range(0, 20) } as u8).collect()).collect();
    for b in [b, Polynomial { order: 20, exponents: ex }] {
        let e: Vec<f64> = b.exponents.iter().map(|t| t.iter().zip(&x).map(|(k, v)| v.powi(*k as i32)).product()).collect();
        for (i, v) in e.iter().enumerate() { let y = b.ith(&x, i).map_err(|e| e.to_string())?; need!(close(y, *v), "feature {} of {:?} is {}, expected {} (exponents {:?})", i, x, y, v, b.exponents[i]); }
        let z = b.clone().with_zeroth();
        let g = z.project(&x).map_err(|e| e.to_string())?;
        let mut e1 = e.clone();
        e1.push(1.0);
        need!(z.order == b.order, "with_zeroth changed the order");
        M { dense: true, v: e1.iter().copied().map(Some).collect() }.like(&g, close_r).map_err(|s| format!("projection of {:?} by {:?} with the zeroth term: {}", x, b, s))?;
        for (i, v) in e1.iter().enumerate() { let y = z.ith(&x, i).map_err(|e| e.to_string())?; need!(close(y, *v), "feature {} of {:?} is {}, expected {}", i, x, y, v); }
    }
    Ok(())
}

fn cheb(n: u8, x: f64) -> f64 { let (mut a, mut b) = (1.0, x); for _ in 0..n { let c = 2.0 * x * b - a; a = b; b = c; } a }

fn chebyshev(r: &mut Rng) -> R {
    let d = r.range(0, 3);
    let d = dims(r, d);
    let o = if d == 1 { r.range(0, 11) as u8 } else if d == 2 && r.chance(1, 10) { r.range(5, 11) as u8 } else { small_c(r, d) };
    let l = limits(r, d);
    let b = match r.below(2) { 0 => Chebyshev::new(o, l.clone()), _ => Chebyshev::from_space(o, l.iter().map(|(a, b)| Interval::bounded(*a, *b)).collect()) };
    need!(b.limits == l && b.order == o, "limits {:?} and order {} became {:?} and {}", l, o, b.limits, b.order);
    let ts = tuples(o, d);
    let out = r.chance(1, 3);
    let x: Vec<f64> = l.iter().map(|(a, b)| if out { r.f(a - (b - a), b + (b - a)) } else if r.chance(1, 8) { if r.chance(1, 2) { *a } else { *b } } else { r.f(*a, *b) }).collect();
    let x = recall(r, x);
    let s: Vec<f64> = x.iter().zip(&l).map(|(v, (a, b))| 2.0 * (v - a) / (b - a) - 1.0).collect();
    let e: Vec<f64> = ts.iter().map(|t| t.iter().zip(&s).map(|(k, v)| cheb(*k, *v)).product()).collect();
    let sizes: f64 = s.iter().map(|v| 1.0 + cheb(o, v.abs().max(1.0))).product();
    let tol = |v: f64| 1e-7 + 1e-10 * (v.abs() + sizes);
    let check = |b: &Chebyshev, e: &[f64]| -> R {
        let f = b.project(&x).map_err(|e| e.to_string())?;
        let g = read(&f);
        need!(f.is_dense() && g.len() == e.len() && g.iter().zip(e).all(|(p, q)| (p - q).abs() < tol(*q)), "projection of {:?} (order {}, limits {:?}) is {:?}, expected {:?}", x, o, l, g, e);
        for (i, v) in e.iter().enumerate() { let y = b.ith(&x, i).map_err(|e| e.to_string())?; need!((y - v).abs() < tol(*v), "feature {} of {:?} is {}, expected {}", i, x, y, v); }
        Ok(())
    };
    check(&b, &e)?;
    let mut e1 = e.clone();
    e1.push(1.0);
    check(&b.with_zeroth(), &e1)
}

fn cheb_orders(r: &mut Rng) -> R {
    let o = r.range(12, 255) as u8;
    let d = r.range(0, 2);
    need!(silent(|| Chebyshev::new(o, vec![(0.0, 1.0); d])).is_err(), "order {} was accepted", o);
    need!(silent(|| Chebyshev::from_space(o, (0..d).map(|_| Interval::bounded(0.0, 1.0)).collect())).is_err(), "order {} was accepted", o);
    for o in 0..12u8 { need!(silent(|| Chebyshev::new(o, vec![(0.0, 1.0)])).map(|b| b.polynomials.len()) == Ok(o as usize), "order {} in one dimension", o); }
    Ok(())
}

fn fourier(r: &mut Rng) -> R {
    let big = r.chance(1, 40);
    let d = if big { r.range(1, 2) } else { let d = r.range(0, 4); dims(r, d) };
    let o = if big { r.range(10, if d == 1 { 255 } else { 40 }) as u8 } else { small(r, d) };
    let l = limits(r, d);
    let b = match r.below(2) { 0 => Fourier::new(o, l.clone()), _ => Fourier::from_space(o, l.iter().map(|(a, b)| Interval::bounded(*a, *b)).collect()) };
    let ts = tuples(o, d);
    need!(b.limits == l && b.order == o, "limits {:?} and order {} became {:?} and {}", l, o, b.limits, b.order);
    need!(b.coefficients == ts.iter().map(|t| t.iter().map(|k| *k as f64).collect::<Vec<_>>()).collect::<Vec<_>>(), "coefficients of dimension {} and order {}: {:?}", d, o, b.coefficients);
    let x = input(r, d);
    let s: Vec<f64> = x.iter().zip(&l).map(|(v, (a, b))| (v - a) / (b - a)).collect();
    let e: Vec<f64> = ts.iter().map(|t| (std::f64::consts::PI * t.iter().zip(&s).map(|(k, v)| *k as f64 * v).sum::<f64>()).cos()).collect();
    let f = b.project(&x).map_err(|e| e.to_string())?;
    M { dense: true, v: e.iter().copied().map(Some).collect() }.same(&f).map_err(|m| format!("projection of {:?} (order {}, limits {:?}): {}", x, o, l, m))?;
    // a half-open space is rejected
    if d > 0 {
        let bad = |iv: Interval| silent(|| Fourier::from_space(1, (0..1).map(|_| iv.clone()).collect())).is_err();
        need!(bad(Interval::left_bounded(0.0)) && bad(Interval::right_bounded(0.0)) && bad(Interval::unbounded()), "an unbounded space was accepted");
    }
    Ok(())
}

struct K(Rc<dyn kernels::Any>);
impl Clone for K { fn clone(&self) -> K { K(self.0.clone()) } }
impl<'x> lfa::basis::kernels::Kernel<&'x [f64]> for K { fn kernel(&self, x: &'x [f64], y: &'x [f64]) -> f64 { self.0.l(x, y) } }

/// not symmetric on purpose: the input comes first
#[derive(Clone, Debug)]
struct Skew(f64);
impl lfa::basis::kernels::Kernel<()> for Skew { fn kernel(&self, _: (), _: ()) -> f64 { self.0 } }
impl<'x> lfa::basis::kernels::Kernel<&'x [f64]> for Skew {
    fn kernel(&self, x: &'x [f64], y: &'x [f64]) -> f64 { x.iter().zip(y).map(|(a, b)| self.0 * a - b * b).sum() }
}

fn prototypes(r: &mut Rng) -> R {
    let d = r.range(0, 3);
    let n = r_n(r);
    let x = input(r, d);
    let ps: Vec<(Vec<f64>, f64)> = (0..n).map(|_| (input(r, d), r.f(0.5, 2.0))).collect();
    let e = |c: &Vec<f64>, k: f64| x.iter().zip(c).map(|(a, b)| k * a - b * b).sum::<f64>();
    let b = KernelBasis::new(ps.iter().map(|(c, k)| Prototype { centroid: c.clone(), kernel: Skew(*k) }).collect());
    let ok = |b: &KernelBasis<Vec<f64>, Skew>, want: Vec<f64>| -> R {
        let f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
        M { dense: true, v: want.iter().copied().map(Some).collect() }.same(&f).map_err(|s| format!("projection of {:?} by {:?}: {}", x, b, s))?;
        for (i, v) in want.iter().enumerate() { let y = b.ith(x.as_slice(), i).map_err(|e| e.to_string())?; need!(close(y, *v), "feature {} is {}, expected {}", i, y, v); }
        Ok(())
    };
    ok(&b, ps.iter().map(|(c, k)| e(c, *k)).collect())?;
    for (p, (c, k)) in b.prototypes.iter().zip(&ps) { need!(close(p.distance_from(x.as_slice()), e(c, *k)), "distance_from"); }
    let h = KernelBasis::homogeneous(ps.iter().map(|p| p.0.clone()), Skew(1.25));
    need!(h.prototypes.len() == n, "homogeneous built {} prototypes from {} centroids", h.prototypes.len(), n);
    ok(&h, ps.iter().map(|(c, _)| e(c, 1.25)).collect())?;
    let z = KernelBasis::homogeneous(vec![(); n], Skew(x.len() as f64));
    need!(z.prototypes.len() == n, "homogeneous built {} prototypes from {} centroids of type ()", z.prototypes.len(), n);
    if d > 0 {
        let k = r.below(6);
        let kk = K(kernels::make(k, 1.5, vec![r.f(0.3, 2.0)], 1.2).into());
        let h = KernelBasis::homogeneous(ps.iter().map(|p| p.0.clone()), kk.clone());
        let f = read(&h.project(x.as_slice()).map_err(|e| e.to_string())?);
        for i in 0..n { need!(close(f[i], kk.0.l(&x, &ps[i].0)), "feature {} of a library kernel", i); }
    }
    Ok(())
}

fn partitions(r: &mut Rng) -> R {
    let d = r.range(1, 3);
    let p = parts(r, d);
    let x = input(r, d);
    let mut cs: Vec<Vec<f64>> = vec![vec![]];
    for (a, b, n) in &p { let wd = (b - a) / *n as f64; cs = cs.into_iter().flat_map(|c| (0..*n).map(move |k| { let mut u = c.clone(); u.push(a + wd * (k as f64 + 0.5)); u })).collect(); }
    let l: Vec<f64> = p.iter().map(|(a, b, n)| (b - a) / *n as f64).collect();
    macro_rules! go { ($b:expr, $k:expr) => {{
        let b = $b;
        need!(b.prototypes.len() == cs.len(), "{} prototypes for {} cells", b.prototypes.len(), cs.len());
        for (q, c) in b.prototypes.iter().zip(&cs) {
            need!(close_all(&q.centroid, c), "centroid {:?}, expected {:?}", q.centroid, c);
            need!(q.kernel.variance == 1.0 && close_all(&q.kernel.lengthscales, &l), "kernel {:?}, expected lengthscales {:?}", q.kernel, l);
        }
        let f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
        let e: Vec<f64> = cs.iter().map(|c| kernels::form($k, 1.0, 0.0, (0..d).map(|i| ((x[i] - c[i]) / l[i]).powi(2)).sum::<f64>().sqrt())).collect();
        M { dense: true, v: e.into_iter().map(Some).collect() }.same(&f)?;
    }} }
    match r.below(3) { 0 => go!(KernelBasis::exp_quad(space(&p)), 3), 1 => go!(KernelBasis::matern_32(space(&p)), 1), _ => go!(KernelBasis::matern_52(space(&p)), 2) }
    Ok(())
}

fn tiles(r: &mut Rng, ith: bool) -> R {
    let d = r.count(0, 7, 40);
    let d = dims(r, d);
    let n = if r.chance(1, 5) { r.range(10, 70) } else { r.count(1, 9, 300) };
    let mem = if r.chance(1, 2) { *r.pick(&[1, 2, 7, 16, 100, 4096]) } else { r.count(1, 40, 5000) };
    let h = Mix(r.u());
    let x: Vec<f64> = (0..d).map(|_| match r.below(5) { 0 => *r.pick(&[0.0, -0.5, 1.0, -1.0, 2.0, -2.0]), 1 => r.f(-100.0, 100.0), 2 => r.real(-10.0, 10.0), _ => r.f(-3.0, 3.0) }).collect();
    let x = recall(r, x);
    let b = TileCoding::new(h.clone(), n, mem);
    let mut want = vec![None; mem];
    let mut hs = h.build_hasher();
    for t in 0..n as isize {
        hs.write_isize(t);
        for (i, v) in x.iter().enumerate() {
            let q = (v * n as f64).floor() as i64 + t as i64 * (1 + 2 * i as i64);
            hs.write_isize((q as f64 / n as f64).floor() as isize);
        }
        want[hs.finish() as usize % mem] = Some(1.0);
    }
    if x.iter().any(|v| v.abs() > 1e12) { return Ok(()); }
    let m = M { dense: false, v: want };
    let f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
    m.same(&f).map_err(|s| format!("projection of {:?} with {} tilings and memory {}: {}", x, n, mem, s))?;
    if ith {
        for i in m.stored() { let y = b.ith(x.as_slice(), i).map_err(|e| e.to_string())?; need!(y == 1.0, "feature {} of {:?} with {} tilings and memory {} is {}, the projection has 1", i, x, n, mem, y); }
        for _ in 0..20 { let i = r.below(mem); let y = b.ith(x.as_slice(), i).map_err(|e| e.to_string())?; need!(y == m.at(i), "feature {} of {:?} with {} tilings and memory {} is {}, the projection has {}", i, x, n, mem, y, m.at(i)); }
        return Ok(());
    }
    m.same(&b.project(x.as_slice()).map_err(|e| e.to_string())?).map_err(|s| format!("second projection of {:?}: {}", x, s))?;
    m.same(&b.clone().project(&x).map_err(|e| e.to_string())?).map_err(|s| format!("projection by a clone: {}", s))
}

fn grid(r: &mut Rng) -> R {
    let d = r.range(1, 4);
    let p = parts(r, d);
    let b = UniformGrid::new(space(&p));
    let total: usize = p.iter().map(|q| q.2).product();
    let nf: usize = b.dim().into();
    need!(nf == total, "dimension {} for partition counts {:?}", nf, p);
    let mut idx = 0;
    let mut x = vec![];
    for (a, e, n) in &p {
        let c = r.below(*n);
        let wd = (e - a) / *n as f64;
        let v = if c == 0 && r.chance(1, 4) { a - r.f(0.0, 5.0) * if r.chance(1, 8) { *r.pick(&[1e6, 1e300, f64::INFINITY]) } else { 1.0 } } else if c + 1 == *n && r.chance(1, 4) { e + r.f(0.0, 5.0) * if r.chance(1, 8) { *r.pick(&[1e6, 1e300, f64::INFINITY]) } else { 1.0 } } else { a + wd * (c as f64 + r.f(0.02, 0.98)) };
        x.push(v);
        idx = idx * n + c;
    }
    let mut v = vec![None; total];
    v[idx] = Some(1.0);
    let f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
    M { dense: false, v }.same(&f).map_err(|s| format!("projection of {:?} on {:?}: {}", x, p, s))
}

fn stack(r: &mut Rng) -> R {
    let (a, b) = (M::rand(r), M::rand(r));
    let (ba, bb) = (Raw::of(r, &a), Raw::of(r, &b));
    let n = a.n() + b.n();
    let s = Stack::new(ba.clone(), bb.clone());
    let dim: usize = s.dim().into();
    need!(dim == n, "dimension {} for {} and {}", dim, a.n(), b.n());
    let sparse = !a.dense && !b.dense;
    let e = if sparse { M { dense: false, v: [a.v.clone(), b.v.clone()].concat() } } else { M { dense: true, v: [a.flat(), b.flat()].concat().into_iter().map(Some).collect() } };
    e.same(&s.project(&[][..]).map_err(|e| e.to_string())?).map_err(|m| format!("stack of {:?} and {:?}: {}", a, b, m))?;
    e.same(&ba.clone().stack(bb.clone()).project(&[][..]).map_err(|e| e.to_string())?)?;
    for i in 0..n { let y = s.ith(&[][..], i).map_err(|e| e.to_string())?; need!(close(y, e.at(i)), "feature {} of a stack is {}, expected {}", i, y, e.at(i)); }
    need!(s.ith(&[][..], n).is_err(), "feature {} of {}", n, n);
    let bad = Raw::failing(r.range(0, 3));
    need!(ba.clone().stack(bad.clone()).project(&[][..]).is_err() && bad.clone().stack(ba.clone()).project(&[][..]).is_err(), "a failing part is ignored");
    let wb = ba.clone().with_bias();
    let f = wb.project(&[][..]).map_err(|e| e.to_string())?;
    let mut v: Vec<Option<f64>> = a.flat().into_iter().map(Some).collect();
    v.push(Some(1.0));
    M { dense: true, v }.same(&f).map_err(|m| format!("with_bias on {:?}: {}", a, m))?;
    // the input reaches both parts
    let x = input(r, 2);
    let (p, q) = (any(r, 2, 0), any(r, 2, 0));
    let (fp, fq) = (p.0.proj(&x).map_err(|e| e.to_string())?, q.0.proj(&x).map_err(|e| e.to_string())?);
    let g = p.clone().stack(q.clone()).project(x.as_slice()).map_err(|e| e.to_string())?;
    need!(close_all(&read(&g), &[read(&fp), read(&fq)].concat()), "stack({}, {}) of {:?} is {:?}", p.1, q.1, x, g);
    Ok(())
}

/// a basis whose single-feature evaluation does not look at the index
#[derive(Clone)]
struct Loose(Raw, f64);
impl Space for Loose { type Value = Features; fn dim(&self) -> Dim { self.0.dim() } fn card(&self) -> Card { Card::Infinite } }
impl<'a> Basis<&'a [f64]> for Loose { fn project(&self, x: &'a [f64]) -> LR<Features> { self.0.project(x) } }
impl<'a> EnumerableBasis<&'a [f64]> for Loose { fn ith(&self, _: &'a [f64], i: usize) -> LR<f64> { Ok(if i < self.0.m.n() { self.0.m.at(i) } else { self.1 }) } }
impl Combinators for Loose {}

/// a stack checks the index itself
fn loose(r: &mut Rng) -> R {
    let (a, b) = (M::rand(r), M::rand(r));
    let s = Loose(Raw::of(r, &a), 3.0).stack(Loose(Raw::of(r, &b), 4.0));
    let v = [a.flat(), b.flat()].concat();
    for i in 0..v.len() { let y = s.ith(&[][..], i).map_err(|e| e.to_string())?; need!(close(y, v[i]), "feature {} of a stack is {}, expected {}", i, y, v[i]); }
    for i in [v.len(), v.len() + 1, usize::MAX] { if let Ok(y) = s.ith(&[][..], i) { return Err(format!("feature {} of a stack of {} and {} features is {}, expected an index error", i, a.n(), b.n(), y)); } }
    Ok(())
}

/// dimensions beyond 8, 16 and 32 bits
fn wide(r: &mut Rng, what: u8) -> R {
    let big = |r: &mut Rng| { let k = 1usize << r.range(0, 17); k + r.below(k) };
    let (f, n, one, name): (Features, usize, Option<Vec<usize>>, String);
    let at: Box<dyn Fn(usize) -> LR<f64>>;
    if what != 17 && (what == 18 || r.chance(1, 2)) {
        let d = r.range(1, 3);
        let (lim, mut idx, mut x) = (limits(r, d), 0, vec![]);
        let p: Vec<_> = lim.into_iter().map(|(a, b)| (a, b, big(r))).collect();
        for (a, e, k) in &p { let c = r.below(*k); x.push(a + (e - a) * ((c as f64 + 0.5) / *k as f64)); idx = idx * k + c; }
        let b = UniformGrid::new(space(&p));
        n = p.iter().map(|q| q.2).product();
        need!(what != 10 && what != 18 || Into::<usize>::into(b.dim()) == n, "dimension {:?} for partitions {:?}", b.dim(), p);
        f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
        name = format!("grid {:?} of {:?}", p, x);
        at = Box::new(move |i| b.ith(x.as_slice(), i));
        one = Some(vec![idx]);
    } else {
        let t = r.range(1, 6);
        n = { let k = 1usize << r.range(1, 50); if r.chance(1, 2) { k } else { k + r.below(k) } };
        let h = Mix(r.u());
        let x: Vec<f64> = (0..r.range(0, 3)).map(|_| r.f(-5.0, 5.0)).collect();
        let b = TileCoding::new(h.clone(), t, n);
        let (mut hs, mut v) = (h.build_hasher(), vec![]);
        for t0 in 0..t as isize {
            hs.write_isize(t0);
            for (i, y) in x.iter().enumerate() { hs.write_isize(((y * t as f64).floor() as isize + t0 * (1 + 2 * i as isize)).div_euclid(t as isize)); }
            v.push(hs.finish() as usize % n);
        }
        need!(what != 10 || Into::<usize>::into(b.dim()) == n, "dimension {:?} for memory {}", b.dim(), n);
        f = b.project(x.as_slice()).map_err(|e| e.to_string())?;
        name = format!("{} tilings and memory {} of {:?}", t, n, x);
        at = Box::new(move |i| b.ith(x.as_slice(), i));
        one = Some(v);
    }
    let st: Vec<usize> = match &f { Features::Sparse(s) => s.activations.keys().copied().collect(), _ => vec![] };
    if what == 10 {
        need!(f.n_features() == n && st.iter().all(|i| *i < n), "{}: {} features, stored {:?}, dimension {}", name, f.n_features(), st, n);
    } else if what == 11 {
        for i in &st {
            let mut js = vec![*i, r.below(n)];
            for k in 0..60 { js.push(i.wrapping_add(1 << k)); js.push(i.wrapping_sub(1 << k)); }
            for j in js {
                if j < n { let y = at(j).map_err(|e| e.to_string())?; need!(same_f(y, f[j]), "{}: feature {} is {}, the projection has {}", name, j, y, f[j]); }
                else if let Ok(y) = at(j) { return Err(format!("{}: feature {} of {} is {}, expected an index error", name, j, n, y)); }
            }
        }
    } else if let Some(v) = one {
        need!(st.len() <= v.len() && v.iter().all(|i| f.get(*i) == Some(&1.0)) && st.iter().all(|i| v.contains(i)), "{}: stores {:?}, expected {:?}", name, f, v);
    }
    Ok(())
}

fn constants(r: &mut Rng) -> R {
    let c = r.act();
    let f = Basis::<&[f64]>::project(&Bias(c), &[]).map_err(|e| e.to_string())?;
    M { dense: true, v: vec![Some(c)] }.same(&f).map_err(|s| format!("Bias({}): {}", c, s))?;
    need!(Bias::unit() == Bias(1.0), "Bias::unit is {:?}", Bias::unit());
    let q = r_n(r); let m = M::of(r, true, q);
    let b = Fixed::dense(m.flat());
    m.same(&Basis::<&[f64]>::project(&b, &[]).map_err(|e| e.to_string())?).map_err(|s| format!("Fixed::dense({:?}): {}", m.flat(), s))?;
    let q = r_n(r); let m = M::of(r, false, q);
    let b = Fixed::sparse(m.n(), m.stored());
    let e = M { dense: false, v: m.v.iter().map(|x| x.map(|_| 1.0)).collect() };
    e.same(&Basis::<&[f64]>::project(&b, &[]).map_err(|e| e.to_string())?).map_err(|s| format!("Fixed::sparse({}, {:?}): {}", m.n(), m.stored(), s))?;
    let m = M::rand(r);
    let f = m.build(r);
    let scale = r.f(-2.0, 2.0);
    let cl = Closure::new(m.n(), |x: f64| if x > 0.0 { Ok(f.map(|y| y * x)) } else { Err(Error::index_error(7, 9)) });
    let dim: usize = cl.dim().into();
    need!(dim == m.n(), "closure of dimension {} advertises {}", m.n(), dim);
    match cl.project(scale) {
        Ok(g) => { need!(scale > 0.0, "the closure's failure is hidden"); M { dense: m.dense, v: m.v.iter().map(|x| x.map(|y| y * scale)).collect() }.same(&g) }
        Err(e) => { need!(scale <= 0.0 && e == Error::index_error(7, 9), "the closure's result is replaced by {}", e); Ok(()) }
    }
}

fn normalised(r: &mut Rng) -> R {
    let m = M::rand(r);
    let b = Raw::of(r, &m);
    let fl = m.flat();
    let k = r.below(4);
    let z = match k {
        0 => if m.dense { fl.iter().filter(|x| x.abs() > 1e-7).count() as f64 } else { m.stored().len() as f64 },
        1 => fl.iter().map(|x| x.abs()).sum(),
        2 => fl.iter().map(|x| x * x).sum::<f64>().sqrt(),
        _ => fl.iter().fold(0.0f64, |a, x| a.max(x.abs())),
    };
    let (f, v): (LR<Features>, Vec<LR<f64>>) = macro_norm(k, &b, m.n());
    let f = f.map_err(|e| e.to_string())?;
    need!(z == 0.0 || (f.n_features() == m.n() && f.is_dense() == m.dense), "normalising {:?} by norm #{} changed its shape: {:?}", m, k, f);
    if z > 0.0 {
        let e = M { dense: m.dense, v: m.v.iter().map(|x| x.map(|y| y / z)).collect() };
        e.same(&f).map_err(|s| format!("normalising {:?} by norm #{} ({}): {}", m, k, z, s))?;
        for i in 0..m.n() { match &v[i] { Ok(y) if close(*y, e.at(i)) => {} o => return Err(format!("feature {} of {:?} normalised by norm #{} is {:?}, expected {}", i, m, k, o, e.at(i))) } }
    }
    let q = r.range(0, 3);
    let bad = Raw::failing(q);
    let (f, v) = macro_norm(k, &bad, q);
    need!(f == Err(bad.err()) && v.iter().all(|x| *x == Err(bad.err())), "norm #{} hides the failure of the basis", k);
    Ok(())
}
fn macro_norm(k: usize, b: &Raw, n: usize) -> (LR<Features>, Vec<LR<f64>>) {
    let x: &[f64] = &[];
    macro_rules! go { ($n:expr) => {{ let q = $n; (q.project(x), (0..n).map(|i| q.ith(x, i)).collect()) }} }
    match k { 0 => go!(b.clone().normalise_l0()), 1 => go!(b.clone().normalise_l1()), 2 => go!(b.clone().normalise_l2()), _ => go!(b.clone().normalise_linf()) }
}
