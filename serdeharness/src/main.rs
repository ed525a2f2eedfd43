//! Concrete oracle for C31: random objects saved and loaded through a format that stores field
//! names (JSON) and one that stores only positions (bincode).
#[path = "../../harness/src/rng.rs"]
mod rng;
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::optim::*;
use lfa::{Features, LFA};
use ndarray::{Array1, Array2};
use rng::Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use spaces::{real::Interval, Equipartition, ProductSpace, Space};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = Result<(), String>;
type Check = (&'static str, &'static str, usize, fn(&mut Rng) -> R);
const CHECKS: &[Check] = &[("C31", "optimisers", 400, optimisers), ("C31", "features", 400, features), ("C31", "kernels", 400, kernels), ("C31", "bases", 400, bases),
    ("C31", "chebyshev", 400, chebyshev), ("C31", "others", 100, others), ("C31", "approximators", 400, approximators)];

/// v loaded back from both formats
fn back<T: Serialize + DeserializeOwned>(what: &str, v: &T) -> Result<[(T, String); 2], String> {
    let j = serde_json::to_string(v).map_err(|e| format!("{}: saving as JSON: {}", what, e))?;
    let a = serde_json::from_str(&j).map_err(|e| format!("{}: loading from JSON {:.300}: {}", what, j, e))?;
    let b = bincode::serialize(v).map_err(|e| format!("{}: saving as bincode: {}", what, e))?;
    let c = bincode::deserialize(&b).map_err(|e| format!("{}: loading from bincode: {}", what, e))?;
    // once more: what was loaded saves to the same text
    Ok([(a, format!("{} (JSON {:.200})", what, j)), (c, format!("{} (bincode)", what))])
}
fn same<T: Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, v: &T) -> R {
    for (w, how) in back(what, v)? { if &w != v { return Err(format!("{}: {:.200?} loads back as {:.200?}", how, v, w)); } }
    Ok(())
}
fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-12 * (a.abs() + b.abs()) || (a.is_nan() && b.is_nan()) }
/// the same features for the same inputs
fn project<B>(what: &str, v: &B, r: &mut Rng, d: usize) -> R
where B: Serialize + DeserializeOwned + Space + for<'a> Basis<&'a [f64], Value = Features> {
    let (n, xs): (usize, Vec<Vec<f64>>) = (v.dim().into(), (0..3).map(|_| (0..d).map(|_| r.f(-1.0, 2.0)).collect()).collect());
    for (w, how) in back(what, v)? {
        let m: usize = w.dim().into();
        if m != n { return Err(format!("{}: dimension {} became {}", how, n, m)); }
        for x in &xs {
            match (v.project(&x[..]), w.project(&x[..])) {
                (Ok(a), Ok(b)) => {
                    if a.is_sparse() != b.is_sparse() || a.n_features() != b.n_features() { return Err(format!("{}: features of {:?} changed form", how, x)); }
                    for k in 0..a.n_features() { if !close(a.get(k).copied().unwrap_or(0.0), b.get(k).copied().unwrap_or(0.0)) { return Err(format!("{}: feature {} of {:?} is {:?} instead of {:?}", how, k, x, b.get(k), a.get(k))); } }
                }
                (Err(_), Err(_)) => {}
                _ => return Err(format!("{}: {:?} accepted by one and rejected by the other", how, x)),
            }
        }
    }
    Ok(())
}

fn feats(r: &mut Rng, n: usize) -> Features {
    if r.chance(1, 2) { (0..n).map(|_| r.act()).collect::<Vec<f64>>().into() } else {
        let v: Vec<(usize, f64)> = (0..n).filter_map(|k| if r.chance(1, 2) { Some((k, r.act())) } else { None }).collect();
        Features::Sparse(lfa::SparseActivations { dim: n, activations: v.into_iter().collect() })
    }
}
fn train<O: Optimiser<Features> + Clone>(o: &mut O, r: &mut Rng, n: usize) -> Vec<f64> {
    let mut w: Array1<f64> = Array1::zeros(n);
    for _ in 0..r.below(5) { let f = feats(r, n); let e = r.f(-2.0, 2.0); let _ = o.step_scaled(&mut w.view_mut(), &f, e); }
    w.to_vec()
}
fn optimiser<O: Optimiser<Features> + Clone + Serialize + DeserializeOwned + PartialEq + Debug>(what: &str, mut o: O, r: &mut Rng, n: usize) -> R {
    train(&mut o, r, n);
    same(what, &o)?;
    // the loaded one goes on in the same way
    let s = r.u();
    for (mut w, how) in back(what, &o)? {
        let (mut a, mut b) = (Rng::new(s, "go on", 0), Rng::new(s, "go on", 0));
        let (x, y) = (train(&mut o.clone(), &mut a, n), train(&mut w, &mut b, n));
        if x.iter().zip(&y).any(|(p, q)| !close(*p, *q)) { return Err(format!("{}: goes on with {:?} instead of {:?}", how, y, x)); }
    }
    Ok(())
}
fn optimisers(r: &mut Rng) -> R {
    let n = r.range(0, 5);
    let (a, b, c) = (r.f(0.001, 1.0), r.f(0.1, 0.95), r.f(0.5, 0.999));
    optimiser("SGD", SGD(a), r, n)?;
    optimiser("ISGD", ISGD(a), r, n)?;
    optimiser("SGDMomentum", SGDMomentum::new(n, b, a), r, n)?;
    optimiser("NAG", NAG::new(n, b, a), r, n)?;
    optimiser("Adagrad", Adagrad::new(n, a), r, n)?;
    optimiser("Adam", Adam::new(n, a, b, c), r, n)?;
    optimiser("AdaMax", AdaMax::new(n, a, b, c), r, n)
}
fn features(r: &mut Rng) -> R {
    let n = r.size().min(40);
    same("Features", &feats(r, n))?;
    let s = match feats(r, n) { Features::Sparse(s) => s, f => lfa::SparseActivations { dim: n + 1, activations: (0..n).map(|k| (k, f[k])).collect() } };
    for (w, how) in back("SparseActivations", &s)? { if w.dim != s.dim || w.activations != s.activations { return Err(format!("{}: {:?} loads back as {:?}", how, s, w)); } }
    Ok(())
}
fn kernels(r: &mut Rng) -> R {
    let ls: Vec<f64> = (0..r.range(0, 4)).map(|_| if r.chance(1, 4) { 1.0 } else { r.f(0.1, 3.0) }).collect();
    let (v, p) = (r.f(0.1, 4.0), r.f(0.5, 3.0));
    same("Exponential", &Exponential::new(v, ls.clone()))?;
    same("Matern32", &Matern32::new(v, ls.clone()))?;
    same("Matern52", &Matern52::new(v, ls.clone()))?;
    same("ExpQuad", &ExpQuad::new(v, ls.clone()))?;
    same("Cosine", &Cosine::new(v, ls.clone()))?;
    same("RationalQuadratic", &RationalQuadratic::new(v, ls, p))
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
struct Mix(u64);
struct MixH(u64);
impl BuildHasher for Mix { type Hasher = MixH; fn build_hasher(&self) -> MixH { MixH(self.0) } }
impl Hasher for MixH {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
}
fn limits(r: &mut Rng, d: usize) -> Vec<(f64, f64)> {
    (0..d).map(|_| { let a = r.f(-2.0, 0.5); let b = a + r.f(0.3, 4.0); if r.chance(1, 10) { (b, a) } else { (a, b) } }).collect()
}
fn bases(r: &mut Rng) -> R {
    let d = r.range(1, 3);
    let (l, o) = (limits(r, d), r.range(0, 3) as u8);
    let mut poly = if r.chance(1, 2) { Polynomial::new(d, o).with_zeroth() } else { Polynomial::new(d, o) };
    if r.chance(1, 4) { for c in poly.exponents.iter_mut().flatten() { *c = r.range(0, 5) as u8; } }
    if r.chance(1, 8) { poly.exponents.truncate(r.range(0, 2)); }
    same("Polynomial", &poly)?;
    project("Polynomial", &poly, r, d)?;
    let mut four = Fourier::new(o, l.clone());
    // public fields may hold anything of the right shape
    if r.chance(1, 4) { for c in four.coefficients.iter_mut().flatten() { *c = r.f(-3.0, 3.0); } }
    same("Fourier", &four)?;
    project("Fourier", &four, r, d)?;
    project("TileCoding", &TileCoding::new(Mix(r.u()), r.range(1, 6), r.range(1, 50)), r, d)?;
    let ps: ProductSpace<Equipartition> = l.iter().map(|(a, b)| Equipartition::new(a.min(*b), a.max(*b), r.range(1, 4))).collect();
    project("UniformGrid", &UniformGrid::new(ps), r, d)?;
    let cs: Vec<Vec<f64>> = (0..r.range(0, 4)).map(|_| (0..d).map(|_| r.f(-1.0, 1.0)).collect()).collect();
    let kb = KernelBasis::homogeneous(cs, Matern32::new(r.f(0.2, 2.0), vec![r.f(0.1, 2.0)]));
    same("KernelBasis", &kb)?;
    for p in &kb.prototypes { same("Prototype", p)?; }
    let b = Bias(r.real(-3.0, 3.0));
    same("Bias", &b)?;
    project("Stack", &Stack::new(poly.clone(), b.clone()), r, d)?;
    project("Fixed", &Fixed::dense((0..r.range(0, 5)).map(|_| r.real(-2.0, 2.0)).collect::<Vec<f64>>()), r, d)?;
    let n = r.range(1, 9);
    project("Fixed (sparse)", &Fixed::sparse(n, (0..n).filter(|_| r.chance(1, 2)).collect::<Vec<usize>>()), r, d)?;
    project("L0Normaliser", &L0Normaliser::new(poly.clone()), r, d)?;
    project("L1Normaliser", &L1Normaliser::new(poly.clone()), r, d)?;
    project("L2Normaliser", &L2Normaliser::new(poly.clone()), r, d)?;
    project("LinfNormaliser", &LinfNormaliser::new(poly), r, d)
}
fn chebyshev(r: &mut Rng) -> R {
    let d = r.range(1, 3);
    let o = if d == 1 { r.range(0, 11) } else { r.range(0, 3) } as u8;
    let mut b = if r.chance(1, 3) { Chebyshev::from_space(o, limits(r, d).into_iter().map(|(a, b)| Interval::bounded(a.min(b), a.max(b))).collect()) } else { Chebyshev::new(o, limits(r, d)) };
    for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) { b = b.with_zeroth(); }
    for (w, how) in back("Chebyshev", &b)? { if w.order != b.order || w.limits != b.limits { return Err(format!("{}: order or limits changed", how)); } }
    project("Chebyshev", &b, r, d)
}
fn others(r: &mut Rng) -> R {
    use lfa::ErrorKind::*;
    for k in [Basis, Evaluation, Optimisation] { same("ErrorKind", &k)?; }
    let e = lfa::Error::index_error(r.size(), r.size());
    same("Error", &e)?;
    same("Closure", &Closure::new(r.size(), Mix(r.u())))
}
fn approximators(r: &mut Rng) -> R {
    let (d, o) = (r.range(1, 2), r.range(1, 2) as u8);
    let b = Polynomial::new(d, o).with_zeroth();
    let n: usize = b.dim().into();
    let mut s = LFA::scalar(b.clone(), Adam::new(n, 0.1, 0.9, 0.99));
    let mut v = LFA::vector(b, SGD(0.1), r.range(1, 3));
    for _ in 0..r.below(4) {
        let x: Vec<f64> = (0..d).map(|_| r.f(-1.0, 1.0)).collect();
        s.update(&x[..], r.f(-1.0, 1.0)).map_err(|e| format!("{:?}", e))?;
        let es: Vec<f64> = (0..v.n_outputs()).map(|_| r.f(-1.0, 1.0)).collect();
        v.update(&x[..], Array1::from(es)).map_err(|e| format!("{:?}", e))?;
    }
    for (w, how) in back("scalar LFA", &s)? { let (a, b): (&Array1<f64>, &Array1<f64>) = (&s.weights, &w.weights); if a != b || s.optimiser != w.optimiser || s.basis != w.basis { return Err(format!("{}: {:?} loads back as {:?}", how, s, w)); } }
    for (w, how) in back("vector LFA", &v)? { let (a, b): (&Array2<f64>, &Array2<f64>) = (&v.weights, &w.weights); if a != b || v.optimiser != w.optimiser || v.basis != w.basis { return Err(format!("{}: {:?} loads back as {:?}", how, v, w)); } }
    Ok(())
}

fn run(c: &Check, seed: u64, case: u64) -> R {
    let mut r = Rng::new(seed, c.1, case);
    match catch_unwind(AssertUnwindSafe(|| (c.3)(&mut r))) {
        Ok(x) => x,
        Err(e) => Err(format!("panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = a.get(4).cloned();
    let onecase: Option<u64> = a.get(5).and_then(|s| s.parse().ok());
    let budget: f64 = std::env::var("LFA_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(60.0);
    let (mut bad, mut n, mut total) = (false, 0, 0u64);
    for c in CHECKS.iter().filter(|c| only.as_deref().map_or(true, |o| o == c.1)) {
        n += 1;
        let start = std::time::Instant::now();
        let cases: Vec<u64> = match onecase { Some(k) => vec![k], None => (0..(c.2 as f64 * scale) as u64).collect() };
        let mut fail = None;
        for k in cases {
            if start.elapsed().as_secs_f64() > budget { break; }
            total += 1;
            if let Err(m) = run(c, seed, k) { fail = Some((k, m)); break; }
        }
        match fail {
            Some((k, m)) => { bad = true; println!("FAIL {} {} seed={} case={}: {}", c.0, c.1, seed, k, m.replace('\n', " ")); }
            None => println!("ok {} {}", c.0, c.1),
        }
    }
    println!("DONE checks={} cases={}", n, total);
    std::process::exit(if bad { 1 } else { 0 });
}
