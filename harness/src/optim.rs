use crate::{base::*, need, rng::Rng, Check, R};
use lfa::optim::*;
use lfa::Features;
use ndarray::Array1;

pub const CHECKS: &[Check] = &[
    ("C21", "sgd", 800, |r| law(r, 0)), ("C21", "isgd", 800, |r| law(r, 1)),
    ("C22", "momentum", 800, |r| law(r, 2)), ("C22", "nag", 800, |r| law(r, 3)),
    ("C23", "adagrad", 800, |r| law(r, 4)), ("C24", "adam", 800, |r| law(r, 5)), ("C25", "adamax", 800, |r| law(r, 6)),
    ("C26", "reset", 1500, reset), ("C26", "unscaled", 1000, unscaled), ("C26", "default", 50, default_methods),
    ("C30", "sgd", 100, |r| law(r, 0)), ("C30", "isgd", 100, |r| law(r, 1)), ("C30", "momentum", 100, |r| law(r, 2)),
    ("C30", "nag", 100, |r| law(r, 3)), ("C30", "adagrad", 100, |r| law(r, 4)), ("C30", "adam", 100, |r| law(r, 5)), ("C30", "adamax", 100, |r| law(r, 6)),
];

#[derive(Clone, Debug)]
pub struct Hyper { pub n: usize, pub a: f64, pub m: f64, pub b1: f64, pub b2: f64 }
impl Hyper {
    pub fn rand(r: &mut Rng, n: usize) -> Hyper {
        if r.chance(1, 3) { return Hyper { n, a: r.real(0.0, 2.0).abs() * { let q = r.chance(1, 4); if q { r.magnitude(-6, 17) } else { 1.0 } }, m: r.f(0.0, 1.1), b1: r.f(0.0, 0.99), b2: r.f(0.0, 0.9999) }; }
        Hyper { n, a: *r.pick(&[1.0, 0.1, 0.01, 0.5, 0.0, 0.001, 2.0]), m: *r.pick(&[0.0, 0.9, 0.5, 0.3, 1.0]), b1: *r.pick(&[0.9, 0.5, 0.0, 0.7]), b2: *r.pick(&[0.999, 0.9, 0.4]) }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Opt { S(SGD), I(ISGD), M(SGDMomentum), N(NAG), G(Adagrad), A(Adam), X(AdaMax) }
impl Opt {
    pub fn new(k: usize, h: &Hyper) -> Opt {
        match k {
            0 => Opt::S(SGD(h.a)), 1 => Opt::I(ISGD(h.a)), 2 => Opt::M(SGDMomentum::new(h.n, h.m, h.a)), 3 => Opt::N(NAG::new(h.n, h.m, h.a)),
            4 => Opt::G(Adagrad::new(h.n, h.a)), 5 => Opt::A(Adam::new(h.n, h.a, h.b1, h.b2)), _ => Opt::X(AdaMax::new(h.n, h.a, h.b1, h.b2)),
        }
    }
    /// `clone_from` of the optimisers themselves
    pub fn over(&mut self, o: &Opt) {
        match (self, o) {
            (Opt::S(a), Opt::S(b)) => a.clone_from(b), (Opt::I(a), Opt::I(b)) => a.clone_from(b), (Opt::M(a), Opt::M(b)) => a.clone_from(b), (Opt::N(a), Opt::N(b)) => a.clone_from(b),
            (Opt::G(a), Opt::G(b)) => a.clone_from(b), (Opt::A(a), Opt::A(b)) => a.clone_from(b), (Opt::X(a), Opt::X(b)) => a.clone_from(b), _ => unreachable!(),
        }
    }
    pub fn get(&mut self) -> &mut dyn Optimiser {
        match self { Opt::S(o) => o, Opt::I(o) => o, Opt::M(o) => o, Opt::N(o) => o, Opt::G(o) => o, Opt::A(o) => o, Opt::X(o) => o }
    }
}

/// the documented update rules, on plain vectors; `mag` bounds the sizes that went into each weight
#[derive(Clone, Debug)]
pub struct Law { k: usize, h: Hyper, t: i32, v: Vec<f64>, u: Vec<f64>, va: Vec<f64>, pub mag: Vec<f64> }
impl Law {
    pub fn new(k: usize, h: &Hyper) -> Law { let z = vec![0.0; h.n]; Law { k, h: h.clone(), t: 0, v: z.clone(), u: z.clone(), va: z.clone(), mag: z } }
    pub fn step(&mut self, w: &mut [f64], phi: &M, e: f64) {
        let h = self.h.clone();
        let n2: f64 = phi.flat().iter().map(|x| x * x).sum();
        self.t += 1;
        for i in 0..w.len() {
            let p = phi.at(i);
            let g = e * p;
            // the increment, and the same with absolute values throughout
            let (d, da) = match self.k {
                0 => (h.a * g, h.a * g),
                1 => (h.a / (1.0 + h.a * n2) * g, h.a * g / (1.0 + h.a * n2)),
                2 => { self.v[i] = h.m * self.v[i] + g; self.va[i] = h.m * self.va[i] + g.abs(); (h.a * self.v[i], h.a * self.va[i]) }
                3 => { self.v[i] = h.m * self.v[i] + g; self.va[i] = h.m * self.va[i] + g.abs(); (h.a * (h.m * self.v[i] + g), h.a * (h.m * self.va[i] + g.abs())) }
                4 => { self.v[i] += g * g; let d = h.a * g / (self.v[i].sqrt() + 1e-7); (d, d) }
                5 => {
                    self.v[i] = h.b1 * self.v[i] + (1.0 - h.b1) * g;
                    self.va[i] = h.b1 * self.va[i] + (1.0 - h.b1) * g.abs();
                    self.u[i] = h.b2 * self.u[i] + (1.0 - h.b2) * g * g;
                    let k = h.a / (1.0 - h.b1.powi(self.t)) / ((self.u[i] / (1.0 - h.b2.powi(self.t))).sqrt() + 1e-7);
                    if phi.v[i].is_some() { (k * self.v[i], k * self.va[i]) } else { (0.0, 0.0) }
                }
                _ => {
                    self.v[i] = h.b1 * self.v[i] + (1.0 - h.b1) * g;
                    self.va[i] = h.b1 * self.va[i] + (1.0 - h.b1) * g.abs();
                    self.u[i] = (h.b2 * self.u[i]).max(g.abs());
                    let k = h.a / ((1.0 - h.b1.powi(self.t)) * (self.u[i] + 1e-7));
                    if phi.v[i].is_some() { (k * self.v[i], k * self.va[i]) } else { (0.0, 0.0) }
                }
            };
            self.mag[i] += w[i].abs() + da.abs();
            w[i] += d;
        }
    }
    pub fn near(&self, a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && (0..a.len()).all(|i| close_s(a[i], b[i], 1e3 * self.mag[i])) }
}

pub fn near(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y) || (x - y).abs() <= 1e-6 * (x.abs().max(y.abs())))
}

pub fn err(r: &mut Rng) -> f64 { if r.chance(1, 2) { *r.pick(&[1.0, -1.0, 0.0, 0.25, -2.5, 1e-3]) } else { r.real(-3.0, 3.0) } }

fn sub(m: &M) -> M { // moderate activations keep the reference well conditioned
    M { dense: m.dense, v: m.v.iter().map(|x| x.map(|y| if y.abs() > 10.0 { y.signum() * (1.0 + (y.abs().ln() % 7.0)) } else { y })).collect() }
}

fn law(r: &mut Rng, k: usize) -> R {
    let n = r.size();
    let h = Hyper::rand(r, n);
    let mut o = Opt::new(k, &h);
    let mut l = Law::new(k, &h);
    let mut w = weights(r, n);
    // now and then a long history
    let steps = if n < 5 && r.chance(1, 150) { r.range(100, 1500) } else { r.count(1, 5, 70) };
    let mode = r.below(3);
    let mut arr = layout1(r, &w);
    let mut two = layout2(r, n, 3, &|i, j| if j == 1 { w[i] } else { -9.0 });
    let view = r.below(3);
    let mut hist = vec![];
    for t in 0..steps {
        let m = match mode { 0 => M::of(r, true, n), 1 => M::of(r, false, n), _ => M::rand_n(r, n) };
        let m = if r.chance(1, 2) { sub(&m) } else { m };
        let f = m.build(r);
        let e = if r.chance(1, 8) { r.scale() } else { err(r) };
        let plain = e == 1.0 && r.chance(1, 2);
        hist.push((m.clone(), e));
        l.step(&mut w, &m, e);
        let got: Vec<f64> = if view == 0 {
            { let mut c = two.column_mut(1); apply(o.get(), &mut c, &f, e, plain)?; }
            need!(two.column(0).iter().chain(two.column(2).iter()).all(|x| *x == -9.0), "a step changed weights outside its view");
            two.column(1).to_vec()
        } else { apply(o.get(), &mut arr.view_mut(), &f, e, plain)?; arr.to_vec() };
        need!(l.near(&got, &w), "weights after step {} are {:?}, expected {:?}; hyper-parameters {:?}, steps {:?}", t + 1, got, w, h, hist);
        m.same(&f).map_err(|s| format!("the step changed the features: {}", s))?;
        if k < 2 { need!(o == Opt::new(k, &h), "the step changed the hyper-parameters: {:?}", o); }
        if r.chance(1, 6) { o.get().reset(); let mag = l.mag; l = Law::new(k, &h); l.mag = mag; hist.clear(); }
    }
    Ok(())
}

fn apply(o: &mut dyn Optimiser, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64, plain: bool) -> R {
    if plain { o.step(w, f) } else { o.step_scaled(w, f, e) }.map_err(|x| format!("the step failed: {}", x))
}

fn reset(r: &mut Rng) -> R {
    let n = r.size();
    let k = r.below(7);
    let h = Hyper::rand(r, n);
    let mut o = Opt::new(k, &h);
    let mut w: Array1<f64> = Array1::from(weights(r, n));
    for _ in 0..r.range(0, 4) {
        let m = sub(&M::rand_n(r, n));
        o.get().step_scaled(&mut w.view_mut(), &m.build(r), err(r)).map_err(|e| e.to_string())?;
    }
    // a state that has run over, too, is forgotten
    if r.chance(1, 3) {
        let mut u: Array1<f64> = Array1::zeros(n);
        let e = *r.pick(&[1e300, -1e300, f64::INFINITY, f64::NAN, f64::NEG_INFINITY]);
        let v: Vec<f64> = (0..n).map(|_| *r.pick(&[1e10, -1e300, 1.0, 0.0])).collect();
        for _ in 0..2 { let _ = o.get().step_scaled(&mut u.view_mut(), &Features::dense(v.clone()), e); }
    }
    o.get().reset();
    let mut fresh = Opt::new(k, &h);
    need!(o == fresh, "after a reset the optimiser is {:?}, a new one is {:?}", o, fresh);
    let mut w2 = w.clone();
    for t in 0..3 {
        let m = sub(&M::rand_n(r, n));
        let (f, e) = (m.build(r), err(r));
        o.get().step_scaled(&mut w.view_mut(), &f, e).map_err(|e| e.to_string())?;
        fresh.get().step_scaled(&mut w2.view_mut(), &f, e).map_err(|e| e.to_string())?;
        need!(near(w.as_slice().unwrap(), w2.as_slice().unwrap()), "step {} after a reset gives {:?}, with a new optimiser {:?} ({:?})", t, w, w2, h);
    }
    Ok(())
}

fn unscaled(r: &mut Rng) -> R {
    let n = r.size();
    let k = r.below(7);
    let h = Hyper::rand(r, n);
    let mut o = Opt::new(k, &h);
    let mut w: Array1<f64> = Array1::from(weights(r, n));
    for _ in 0..r.range(0, 3) {
        let m = sub(&M::rand_n(r, n));
        o.get().step_scaled(&mut w.view_mut(), &m.build(r), err(r)).map_err(|e| e.to_string())?;
    }
    let (mut o2, mut w2) = (o.clone(), w.clone());
    let f = sub(&M::rand_n(r, n)).build(r);
    o.get().step(&mut w.view_mut(), &f).map_err(|e| e.to_string())?;
    o2.get().step_scaled(&mut w2.view_mut(), &f, 1.0).map_err(|e| e.to_string())?;
    need!(near(w.as_slice().unwrap(), w2.as_slice().unwrap()) && o == o2, "step gives {:?} {:?}, step_scaled(1) gives {:?} {:?}", w, o, w2, o2);
    Ok(())
}

struct Custom { calls: Vec<f64> }
impl Optimiser for Custom {
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64) -> lfa::Result<()> { self.calls.push(e); f.scaled_addto(e, w); Ok(()) }
}
fn default_methods(r: &mut Rng) -> R {
    let n = r.size();
    let m = M::rand_n(r, n);
    let f = m.build(r);
    let mut c = Custom { calls: vec![] };
    let mut w = Array1::zeros(n);
    c.step(&mut w.view_mut(), &f).map_err(|e| e.to_string())?;
    need!(c.calls == vec![1.0], "default step called step_scaled with {:?}", c.calls);
    need!(close_all(w.as_slice().unwrap(), &m.flat()), "default step gave {:?}", w);
    c.reset();
    need!(c.calls.len() == 1, "default reset did something");
    Ok(())
}
