use crate::optim::{Hyper, Opt};
use crate::{base::*, need, rng::Rng, Check, R};
use lfa::basis::kernels::*;
use lfa::basis::*;
use lfa::{optim::*, Error, ErrorKind, Features, LFA};
use ndarray::Array1;
use spaces::{Equipartition, ProductSpace};
use std::fmt::Debug;

pub const CHECKS: &[Check] = &[("C32", "values", 600, values), ("C32", "optimisers", 600, optimisers), ("C32", "features", 600, features), ("C32", "lfa", 200, approximators)];

/// an object made from p equals another made from p, and its copy; it differs from one made with any p_k changed
fn twin<T: Clone + PartialEq + Debug>(r: &mut Rng, what: &str, p: &[f64], mk: impl Fn(&[f64]) -> T) -> R {
    let a = mk(p);
    let c = a.clone();
    need!(c == a && !(c != a), "{}: {:?} differs from its copy {:?}", what, a, c);
    need!(format!("{:?}", a) == format!("{:?}", c), "{}: the copy of {:?} is {:?}", what, a, c);
    let b = mk(p);
    need!(a == b && b == a && !(a != b), "{}: {:?} and {:?} are made alike and differ", what, a, b);
    for k in 0..p.len() {
        let mut q = p.to_vec();
        q[k] += if r.chance(1, 2) { 1.0 } else { 2.0 };
        let b = mk(&q);
        need!(a != b && b != a && !(a == b), "{}: {:?} equals {:?}", what, a, b);
        let c = b.clone();
        need!(c == b && c != a, "{}: {:?} differs from its copy {:?}", what, b, c);
        over(what, b, &a)?;
        // the next number after p_k
        if p[k] > 0.0 && p[k].fract() != 0.0 {
            q[k] = f64::from_bits(p[k].to_bits() + 1);
            let b = mk(&q);
            if format!("{:?}", a) != format!("{:?}", b) { need!(a != b && b != a && !(a == b), "{}: {:?} equals {:?}", what, a, b); over(what, b, &a)?; }
        }
    }
    Ok(())
}
/// copying over an existing object
fn over<T: Clone + PartialEq + Debug>(what: &str, mut b: T, a: &T) -> R {
    let was = format!("{:?}", b);
    b.clone_from(a);
    need!(b == *a && !(b != *a) && format!("{:?}", b) == format!("{:?}", a), "{}: after copying {:?} over {} it is {:?}", what, a, was, b);
    Ok(())
}
/// the same for lists: all elements matter, and their number
fn list<T: Clone + PartialEq + Debug>(r: &mut Rng, what: &str, p: &[f64], mk: impl Fn(&[f64]) -> T) -> R {
    twin(r, what, p, &mk)?;
    for n in 1..p.len() {
        let (a, b) = (mk(p), mk(&p[..n]));
        need!(a != b && b != a, "{}: {:?} equals {:?}", what, a, b);
        need!(b == b.clone(), "{}: {:?} differs from its copy", what, b);
        over(what, b.clone(), &a)?;
        over(what, a, &b)?;
    }
    Ok(())
}
fn pairs(p: &[f64]) -> Vec<(f64, f64)> { p.chunks(2).map(|x| (x[0], x[0] + 10.0 + x[1])).collect() }
fn values(r: &mut Rng) -> R {
    let d = r.range(1, 3);
    let v: Vec<f64> = (0..9).map(|_| if r.chance(1, 3) { r.range(1, 3) as f64 } else { r.f(0.1, 4.0) }).collect();
    let n = 1 + r.range(0, 4);
    list(r, "Exponential", &v[..n], |p| Exponential::new(p[0], p[1..].to_vec()))?;
    list(r, "Matern32", &v[..n], |p| Matern32::new(p[0], p[1..].to_vec()))?;
    list(r, "Matern52", &v[..n], |p| Matern52::new(p[0], p[1..].to_vec()))?;
    list(r, "ExpQuad", &v[..n], |p| ExpQuad::new(p[0], p[1..].to_vec()))?;
    list(r, "Cosine", &v[..n], |p| Cosine::new(p[0], p[1..].to_vec()))?;
    twin(r, "RationalQuadratic", &v[..n + 1], |p| RationalQuadratic::new(p[0], p[2..].to_vec(), p[1]))?;
    let mut p = vec![r.range(0, 2) as f64];
    p.extend(&v[..2 * d]);
    twin(r, "Fourier", &p, |p| Fourier::new(p[0] as u8, pairs(&p[1..])))?;
    twin(r, "Fourier", &v[..d], |p| { let mut b = Fourier::new(1, vec![(0.0, 1.0); d]); b.coefficients[0] = p.to_vec(); b })?;
    list(r, "Fourier", &v[..n], |p| { let mut b = Fourier::new(1, vec![(0.0, 1.0)]); b.coefficients = p.iter().map(|x| vec![*x]).collect(); b })?;
    list(r, "Fourier", &v[..n], |p| { let mut b = Fourier::new(1, vec![(0.0, 1.0)]); b.limits = p.iter().map(|x| (*x, x + 1.0)).collect(); b })?;
    list(r, "Chebyshev", &v[..n], |p| { let mut b = Chebyshev::new(1, vec![(0.0, 1.0)]); b.limits = p.iter().map(|x| (*x, x + 1.0)).collect(); b })?;
    list(r, "Chebyshev", &v[..n], |p| { let (mut b, t) = (Chebyshev::new(1, vec![(0.0, 1.0)]), Chebyshev::new(3, vec![(0.0, 1.0)]).polynomials); b.polynomials = p.iter().enumerate().map(|(k, x)| t[(k + if *x == v[k] { 0 } else { 1 }) % 3].clone()).collect(); b })?;
    list(r, "Polynomial", &v[..n], |p| { let mut b = Polynomial::new(1, 1); b.exponents = p.iter().map(|x| vec![(10.0 * x) as u8]).collect(); b })?;
    let l = p.clone();
    p.truncate(1);
    p.push(r.range(0, 2) as f64);
    let q = p.clone();
    twin(r, "Chebyshev", &p, |p| (0..p[1] as usize).fold(Chebyshev::new(p[0] as u8, pairs(&l[1..])), |b, _| b.with_zeroth()))?;
    twin(r, "Chebyshev", &l[1..], |p| (0..q[1] as usize).fold(Chebyshev::new(q[0] as u8, pairs(p)), |b, _| b.with_zeroth()))?;
    twin(r, "Polynomial", &p, |p| (0..p[1] as usize).fold(Polynomial::new(d, p[0] as u8), |b, _| b.with_zeroth()))?;
    twin(r, "Polynomial", &[1.0, 2.0, 0.0], |p| { let mut b = Polynomial::new(d, p[0] as u8); b.exponents = vec![vec![p[1] as u8, p[2] as u8]]; b })?;
    let t = [r.range(0, 9) as f64, r.range(1, 5) as f64, r.range(1, 50) as f64];
    twin(r, "TileCoding", &t, |p| TileCoding::new(crate::bases::Mix(p[0] as u64), p[1] as usize, p[2] as usize))?;
    let mut g = vec![r.range(1, 4) as f64];
    g.extend(&v[..2 * d]);
    twin(r, "UniformGrid", &g, |p| UniformGrid::new(pairs(&p[1..]).into_iter().map(|(a, b)| Equipartition::new(a, b, p[0] as usize)).collect::<ProductSpace<_>>()))?;
    list(r, "KernelBasis", &v[..n + 2], |p| KernelBasis::new(p.iter().map(|x| Prototype { centroid: vec![*x], kernel: ExpQuad::new(1.0 + x, vec![2.0 * x]) }).collect()))?;
    twin(r, "KernelBasis", &v[..3], |p| KernelBasis::homogeneous(vec![vec![p[0]], vec![p[1]]], ExpQuad::new(p[2], vec![1.0])))?;
    twin(r, "Prototype", &v[..2], |p| Prototype { centroid: vec![p[0]], kernel: p[1] })?;
    twin(r, "Closure", &v[..2], |p| Closure::new((10.0 * p[0]) as usize, p[1]))?;
    twin(r, "Bias", &v[..1], |p| Bias(p[0]))?;
    list(r, "Fixed", &v[..n], |p| Fixed::dense(p.to_vec()))?;
    twin(r, "Stack", &v[..2], |p| Stack::new(Bias(p[0]), Fixed::dense(vec![p[1]])))?;
    twin(r, "L0Normaliser", &v[..1], |p| L0Normaliser::new(Bias(p[0])))?;
    twin(r, "L1Normaliser", &v[..1], |p| L1Normaliser::new(Bias(p[0])))?;
    twin(r, "L2Normaliser", &v[..1], |p| L2Normaliser::new(Bias(p[0])))?;
    twin(r, "LinfNormaliser", &v[..1], |p| LinfNormaliser::new(Bias(p[0])))?;
    let t = [r.size() as f64, r.size() as f64];
    twin(r, "Error", &t, |p| Error::index_error(p[0] as usize, p[1] as usize))?;
    twin(r, "ErrorKind", &[], |_| ErrorKind::Optimisation)?;
    twin(r, "ErrorKind", &[0.0], |p| *[ErrorKind::Basis, ErrorKind::Evaluation, ErrorKind::Optimisation].get(p[0] as usize).unwrap())
}
fn optimisers(r: &mut Rng) -> R {
    let n = r.range(1, 4);
    let v: Vec<f64> = (0..3).map(|_| r.f(0.05, 0.9)).collect();
    twin(r, "SGD", &v[..1], |p| SGD(p[0]))?;
    twin(r, "ISGD", &v[..1], |p| ISGD(p[0]))?;
    twin(r, "SGDMomentum", &v[..2], |p| SGDMomentum::new(n, p[0], p[1]))?;
    twin(r, "NAG", &v[..2], |p| NAG::new(n, p[0], p[1]))?;
    twin(r, "Adagrad", &v[..1], |p| Adagrad::new(n, p[0]))?;
    twin(r, "Adam", &v, |p| Adam::new(n, p[0], p[1], p[2]))?;
    twin(r, "AdaMax", &v, |p| AdaMax::new(n, p[0], p[1], p[2]))?;
    twin(r, "number of parameters", &[n as f64], |p| (SGDMomentum::new(p[0] as usize, 0.5, 0.1), NAG::new(3, 0.5, 0.1)))?;
    // a copy goes on by itself, and two are equal exactly when they went the same way
    let k = r.range(2, 6);
    let h = Hyper { n, a: 0.1, m: 0.5, b1: v[0], b2: v[1] };
    let (mut o, mut w) = (Opt::new(k, &h), Array1::zeros(n));
    let step = |o: &mut Opt, w: &mut Array1<f64>, r: &mut Rng| { let phi: Features = (0..n).map(|_| r.f(0.5, 2.0)).collect::<Vec<f64>>().into(); let e = r.f(0.5, 2.0); o.get().step_scaled(&mut w.view_mut(), &phi, e).map_err(|e| e.to_string()) };
    let steps = if r.chance(1, 15) { r.range(20, 300) } else { r.below(3) };
    for _ in 0..steps { step(&mut o, &mut w, r)?; }
    let (mut c, mut x, was) = (o.clone(), w.clone(), format!("{:?}", o));
    need!(c == o && format!("{:?}", c) == was, "{:?} differs from its copy {:?}", o, c);
    let s = r.u();
    step(&mut c, &mut x, &mut Rng::new(s, "step", 0))?;
    need!(format!("{:?}", o) == was, "a step of its copy changed {} to {:?}", was, o);
    need!(o != c, "{:?} equals {:?}, which is a step ahead", o, c);
    let mut b = o.clone();
    b.over(&c);
    need!(b == c, "after copying {:?} over {:?} it is {:?}", c, o, b);
    b.over(&o);
    need!(b == o && format!("{:?}", b) == was, "after copying {:?} over {:?} it is {:?}", o, c, b);
    b.over(&Opt::new(k, &h));
    need!(b == Opt::new(k, &h), "after copying a new optimiser over {:?} it is {:?}", o, b);
    step(&mut o, &mut w, &mut Rng::new(s, "step", 0))?;
    need!(o == c && close_all(w.as_slice().unwrap(), x.as_slice().unwrap()), "{:?} and its copy {:?} went on differently: {:?}, {:?}", o, c, w, x);
    Ok(())
}
fn features(r: &mut Rng) -> R {
    let m = M::rand(r);
    let f = m.build(r);
    let c = f.clone();
    m.exact(&c).map_err(|e| format!("copy of {:?}: {}", f, e))?;
    if let (Features::Sparse(a), Features::Sparse(_)) = (&f, &c) {
        let b = a.clone();
        need!(a.dim == b.dim && a.activations == b.activations, "the copy of {:?} is {:?}", a, b);
    }
    let l = M::rand(r);
    let (mut g, mut h) = (l.build(r), M::rand_n(r, l.n()).build(r));
    h.clone_from(&f);
    m.exact(&h).map_err(|e| format!("copying {:?} over another: {}", f, e))?;
    if let (Features::Sparse(a), Features::Sparse(b)) = (&f, &mut g) {
        b.clone_from(a);
        need!(a.dim == b.dim && a.activations == b.activations, "after copying {:?} over another it is {:?}", a, b);
    }
    if m.n() > 0 {
        // changing the copy leaves the original alone
        let mut c = c;
        c.remove(r.below(m.n()));
        m.exact(&f).map_err(|e| format!("after changing a copy: {}", e))?;
    }
    Ok(())
}
fn approximators(r: &mut Rng) -> R {
    let n = r.range(1, 4);
    let mut s = LFA::scalar(Fixed::dense((0..n).map(|_| r.f(-1.0, 1.0)).collect::<Vec<f64>>()), Adam::new(n, 0.1, 0.9, 0.99));
    for _ in 0..r.below(3) { let e = r.f(-1.0, 1.0); s.update(&[0.0][..], e).map_err(|e| e.to_string())?; }
    let mut c = s.clone();
    need!(c.basis == s.basis && c.optimiser == s.optimiser && c.weights == s.weights, "the copy of {:?} is {:?}", s, c);
    let mut o = LFA::scalar(Bias(1.0), Adam::new(1, 0.5, 0.5, 0.5));
    let p = LFA::scalar(Bias(2.0), Adam::new(1, 0.1, 0.9, 0.99));
    o.clone_from(&p);
    need!(o.basis == p.basis && o.optimiser == p.optimiser && o.weights == p.weights, "after copying {:?} over another it is {:?}", p, o);
    let was = format!("{:?}", s);
    c.update(&[0.0][..], 1.0).map_err(|e| e.to_string())?;
    need!(format!("{:?}", s) == was, "an update of its copy changed {} to {:?}", was, s);
    Ok(())
}
