use crate::{base::*, need, rng::Rng, Check, R};
use lfa::basis::kernels::*;

pub const CHECKS: &[Check] = &[("C15", "kernels", 4000, kernels), ("C15", "constructors", 300, constructors)];

pub fn form(k: usize, v: f64, p: f64, r: f64) -> f64 {
    match k {
        0 => v * (-r).exp(),
        1 => v * (1.0 + 3f64.sqrt() * r) * (-(3f64.sqrt()) * r).exp(),
        2 => v * (1.0 + 5f64.sqrt() * r + 5.0 * r * r / 3.0) * (-(5f64.sqrt()) * r).exp(),
        3 => v * (-r * r / 2.0).exp(),
        4 => v * r.cos(),
        _ => v * (1.0 + r * r / 2.0).powf(-p),
    }
}
pub trait Any { fn s(&self, x: f64, y: f64) -> f64; fn l(&self, x: &[f64], y: &[f64]) -> f64; fn v(&self, x: &Vec<f64>, y: &Vec<f64>) -> f64; }
impl<K: Kernel<f64> + for<'a> Kernel<&'a [f64]> + for<'a> Kernel<&'a Vec<f64>>> Any for K {
    fn s(&self, x: f64, y: f64) -> f64 { self.kernel(x, y) }
    fn l(&self, x: &[f64], y: &[f64]) -> f64 { self.kernel(x, y) }
    fn v(&self, x: &Vec<f64>, y: &Vec<f64>) -> f64 { self.kernel(x, y) }
}
pub fn make(k: usize, v: f64, l: Vec<f64>, p: f64) -> Box<dyn Any> {
    match k {
        0 => Box::new(Exponential::new(v, l)), 1 => Box::new(Matern32::new(v, l)), 2 => Box::new(Matern52::new(v, l)),
        3 => Box::new(ExpQuad::new(v, l)), 4 => Box::new(Cosine::new(v, l)), _ => Box::new(RationalQuadratic::new(v, l, p)),
    }
}

fn kernels(r: &mut Rng) -> R {
    let k = r.below(6);
    let d = if r.chance(1, 10) { r.range(5, 30) } else { r.range(1, 4) };
    let one = r.chance(1, 3);
    let l: Vec<f64> = (0..if one { 1 } else { d }).map(|_| r.f(0.2, 4.0)).collect();
    let (v, p) = (r.f(0.1, 3.0), r.f(0.2, 4.0));
    // far from the origin the points are on a lattice, so that their difference is exact
    let far = r.chance(1, 6);
    let off = if far { r.f(-1e6, 1e6).round() } else { 0.0 };
    let close = |a: f64, b: f64| if far { a == b || (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) } else { close(a, b) };
    let mut at = |_| if far { off + (r.f(-3.0, 3.0) * 1048576.0).round() / 1048576.0 } else { r.f(-3.0, 3.0) };
    let x: Vec<f64> = (0..d).map(&mut at).collect();
    let mut y: Vec<f64> = (0..d).map(&mut at).collect();
    if r.chance(1, 5) { y = x.clone(); }
    // a second kernel with other parameters meets the same points
    for round in 0..2 {
    let (v, p, l) = if round == 0 { (v, p, l.clone()) } else { (r.f(0.1, 3.0), r.f(0.2, 4.0), l.iter().map(|_| r.f(0.2, 4.0)).collect()) };
    let kk = make(k, v, l.clone(), p);
    let dist = (0..d).map(|i| ((x[i] - y[i]) / l[if one { 0 } else { i }]).powi(2)).sum::<f64>().sqrt();
    let e = form(k, v, p, dist);
    let g = kk.l(&x, &y);
    need!(close(g, e), "kernel #{} of {:?} and {:?} with lengthscales {:?}, variance {}, power {} is {}, expected {}", k, x, y, l, v, p, g, e);
    need!(close(kk.l(&y, &x), g), "kernel #{} is not symmetric: {} and {}", k, g, kk.l(&y, &x));
    need!(close(kk.v(&x, &y), g), "kernel #{}: the list form gives {}, the slice form {}", k, kk.v(&x, &y), g);
    let s = kk.s(x[0], y[0]);
    let es = form(k, v, p, (x[0] - y[0]).abs() / l[0]);
    need!(close(s, es), "kernel #{} of the scalars {} and {} with lengthscale {}, variance {}, power {} is {}, expected {}", k, x[0], y[0], l[0], v, p, s, es);
    need!(close(kk.s(y[0], x[0]), s), "kernel #{} is not symmetric on scalars", k);
    need!(close(kk.l(&x, &x), v), "kernel #{} at distance 0 is {}, the variance is {}", k, kk.l(&x, &x), v);
    need!(kk.s(x[0], y[0]) == s && kk.v(&x, &y) == kk.l(&x, &y), "kernel #{} changes between calls", k);
    }
    Ok(())
}

fn constructors(r: &mut Rng) -> R {
    let (v, l, p) = (r.f(0.1, 3.0), r.f(0.1, 3.0), r.f(0.1, 3.0));
    let ls: Vec<f64> = (0..r.range(0, 4)).map(|_| r.f(0.1, 3.0)).collect();
    macro_rules! st { ($($k:ident)*) => { $({
        let a = $k::non_ard(v, l);
        need!(a.variance == v && a.lengthscales == vec![l], "non_ard({}, {}) is {:?}", v, l, a);
        let a = $k::default();
        need!(a.variance == 1.0 && a.lengthscales == vec![1.0], "default is {:?}", a);
        let a = $k::new(v, ls.clone());
        need!(a.variance == v && a.lengthscales == ls, "new is {:?}", a);
    })* } }
    st!(Exponential Matern32 Matern52 ExpQuad Cosine);
    let a = RationalQuadratic::non_ard(p, v, l);
    need!(a.variance == v && a.lengthscales == vec![l] && a.power == p, "non_ard({}, {}, {}) is {:?}", p, v, l, a);
    let a = RationalQuadratic::new(v, ls.clone(), p);
    need!(a.variance == v && a.lengthscales == ls && a.power == p, "new is {:?}", a);
    let a = RationalQuadratic::default();
    need!(a.variance == 1.0 && a.lengthscales == vec![2.0] && a.power == 1.0, "default is {:?}", a);
    Ok(())
}
