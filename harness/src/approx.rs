use crate::{base::*, bases::Raw, need, optim::{err, Hyper, Law, Opt}, rng::Rng, Check, R};
use lfa::optim::Optimiser;
use lfa::{Error, Features, Result as LR, ScalarLFA, VectorLFA, LFA};
use ndarray::{Array1, Array2, ArrayViewMut1};

pub const CHECKS: &[Check] = &[
    ("C27", "scalar", 1000, scalar_eval), ("C27", "vector", 1000, vector_eval), ("C27", "new", 300, fresh),
    ("C28", "update", 1500, scalar_update), ("C29", "index", 1000, |r| vector_update(r, 0)), ("C29", "update", 1500, |r| vector_update(r, 1)), ("C29", "update_with", 1500, |r| vector_update(r, 2)),
    ("C30", "scalar", 150, scalar_update), ("C30", "vector", 150, |r| vector_update(r, 2)), ("C30", "update", 150, |r| vector_update(r, 1)), ("C30", "evaluate", 150, vector_eval),
];

/// records what it is asked to do, and fails on demand
#[derive(Clone, Debug, PartialEq)]
struct Rec { calls: Vec<(Vec<f64>, Vec<f64>, f64)>, fail_at: Option<usize> }
impl Optimiser for Rec {
    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> LR<()> {
        let k = self.calls.len();
        self.calls.push((w.to_vec(), read(f), e));
        if self.fail_at == Some(k) { return Err(Error::index_error(k, 1)); }
        let mut i = 0.0;
        for x in w.iter_mut() { *x = 0.5 * *x + e + i; i += 1.0; }
        Ok(())
    }
}
fn rec_step(w: &[f64], e: f64) -> Vec<f64> { w.iter().enumerate().map(|(i, x)| 0.5 * x + e + i as f64).collect() }
fn dota(m: &M, w: &[f64]) -> f64 { m.flat().iter().zip(w).map(|(a, b)| (a * b).abs()).sum() }
fn dotv(m: &M, w: &[f64]) -> f64 { m.flat().iter().zip(w).map(|(a, b)| a * b).sum() }
fn moderate(r: &mut Rng, n: usize) -> M { let m = M::rand_n(r, n); M { dense: m.dense, v: m.v.iter().map(|x| x.map(|y| if y.abs() > 10.0 { y.signum() * 7.5 } else { y })).collect() } }
fn col(w: &Array2<f64>, j: usize) -> Vec<f64> { w.column(j).to_vec() }

/// errors of any size, also infinite and undefined ones
fn any_err(r: &mut Rng) -> f64 { if r.chance(1, 8) { *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1e300, -1e300, 5e-324]) } else { err(r) } }

fn scalar_eval(r: &mut Rng) -> R {
    let n = r.size();
    let m = moderate(r, n);
    let w = weights(r, n);
    let lfa: ScalarLFA<_, _> = LFA::new(Raw::of(r, &m), layout1(r, &w), Rec { calls: vec![], fail_at: None });
    let y = lfa.evaluate(&[][..]).map_err(|e| e.to_string())?;
    need!(close_s(y, dotv(&m, &w), dota(&m, &w)), "evaluates to {}, expected {} for {:?} and {:?}", y, dotv(&m, &w), m, w);
    need!(lfa.weights.to_vec() == w, "evaluation changed the weights");
    // the same input again, with other weights
    let mut lfa = lfa;
    let w = weights(r, n);
    lfa.weights.assign(&Array1::from(w.clone()));
    let y = lfa.evaluate(&[][..]).map_err(|e| e.to_string())?;
    need!(close_s(y, dotv(&m, &w), dota(&m, &w)), "after a change of the weights evaluates to {}, expected {} for {:?} and {:?}", y, dotv(&m, &w), m, w);
    let bad: ScalarLFA<_, _> = LFA::new(Raw::failing(2), Array1::zeros(2), ());
    need!(bad.evaluate(&[][..]).is_err(), "the failure of the projection is hidden");
    Ok(())
}

fn vector_eval(r: &mut Rng) -> R {
    let (n, c) = (r.size(), r.count(0, 5, 80));
    let m = moderate(r, n);
    let w: Vec<Vec<f64>> = (0..n).map(|_| weights(r, c)).collect();
    let lfa: VectorLFA<_, _> = LFA::new(Raw::of(r, &m), layout2(r, n, c, &|i, j| w[i][j]), ());
    let e: Vec<f64> = (0..c).map(|j| dotv(&m, &w.iter().map(|x| x[j]).collect::<Vec<_>>())).collect();
    let ea: Vec<f64> = (0..c).map(|j| dota(&m, &w.iter().map(|x| x[j]).collect::<Vec<_>>())).collect();
    let close = |y: f64, j: usize| close_s(y, e[j], ea[j]);
    need!(lfa.n_outputs() == c, "n_outputs is {}, expected {}", lfa.n_outputs(), c);
    let y = lfa.evaluate(&[][..]).map_err(|e| e.to_string())?;
    need!(y.len() == c && (0..c).all(|j| close(y[j], j)), "evaluates to {:?}, expected {:?}", y, e);
    for j in 0..c { let v = lfa.evaluate_index(&[][..], j).map_err(|e| e.to_string())?; need!(close(v, j), "output {} is {}, expected {}", j, v, e[j]); }
    let run = |mut it: lfa::OutputIter| -> R {
        for j in 0..c {
            need!(it.len() == c - j && it.size_hint() == (c - j, Some(c - j)), "after {} of {} outputs the iterator reports {} and {:?}", j, c, it.len(), it.size_hint());
            let v = it.next();
            need!(v.map_or(false, |v| close(v, j)), "iterator output {} is {:?}, expected {}", j, v, e[j]);
        }
        need!(it.len() == 0 && it.next().is_none(), "the iterator does not end");
        Ok(())
    };
    run(lfa.iter(&[][..]))?;
    run(lfa.try_iter(&[][..]).map_err(|e| e.to_string())?)?;
    let it = || lfa.iter(&[][..]);
    let k = r.below(c + 2);
    let mut t = it();
    let v = t.nth(k);
    need!(if k < c { v.map_or(false, |v| close(v, k)) } else { v.is_none() } && t.len() == c.saturating_sub(k + 1), "nth({}) of {} outputs is {:?} and leaves {}, expected {:?}", k, c, v, t.len(), e.get(k));
    if k + 1 < c { let v = t.next(); need!(v.map_or(false, |v| close(v, k + 1)), "the output after nth({}) is {:?}, expected {}", k, v, e[k + 1]); }
    let (n1, l) = (it().count(), it().last());
    need!(n1 == c && l.map_or(c == 0, |v| c > 0 && close(v, c - 1)), "{} outputs, the last {:?}, expected {} and {:?}", n1, l, c, e.last());
    let all = it().fold(vec![], |mut a, v| { a.push(v); a });
    let (mut each, mut part) = (vec![], it());
    it().for_each(|v| each.push(v));
    need!(all.len() == c && (0..c).all(|j| close(all[j], j)) && all == each, "folding the outputs gives {:?}, for_each {:?}, expected {:?}", all, each, e);
    let some: Vec<f64> = part.by_ref().take(k).collect();
    let rest: Vec<f64> = part.collect();
    need!(some.len() == k.min(c) && some.iter().chain(&rest).enumerate().all(|(j, v)| close(*v, j)) && some.len() + rest.len() == c, "the outputs in two parts are {:?} and {:?}, expected {:?}", some, rest, e);
    for i in 0..n { for j in 0..c { need!(lfa.weights[(i, j)] == w[i][j], "evaluation changed the weights"); } }
    // the same input again, with other weights
    let mut lfa = lfa;
    lfa.weights.mapv_inplace(|x| -x);
    let y = lfa.evaluate(&[][..]).map_err(|e| e.to_string())?;
    need!(y.len() == c && (0..c).all(|j| close(-y[j], j)), "after negating the weights evaluates to {:?}, expected the opposite of {:?}", y, e);
    need!(lfa.iter(&[][..]).enumerate().all(|(j, y)| close(-y, j)), "after negating the weights the iterator does not give the opposite of {:?}", e);
    for j in 0..c { let v = lfa.evaluate_index(&[][..], j).map_err(|e| e.to_string())?; need!(close(-v, j), "after negating the weights output {} is {}, expected {}", j, v, -e[j]); }
    let bad: VectorLFA<_, _> = LFA::new(Raw::failing(2), Array2::zeros((2, 3)), ());
    need!(bad.evaluate(&[][..]).is_err() && bad.evaluate_index(&[][..], 1).is_err() && bad.try_iter(&[][..]).is_err(), "the failure of the projection is hidden");
    Ok(())
}

fn fresh(r: &mut Rng) -> R {
    let (n, c) = (r.size(), r.count(0, 5, 80));
    let m = M::rand_n(r, n);
    let s = ScalarLFA::scalar(Raw::of(r, &m), 3u8);
    need!(s.weights.to_vec() == vec![0.0; n] && s.optimiser == 3, "scalar: weights {:?} for {} features", s.weights, n);
    let v = VectorLFA::vector(Raw::of(r, &m), 3u8, c);
    need!(v.weights.dim() == (n, c) && v.weights.iter().all(|x| *x == 0.0) && v.n_outputs() == c, "vector: weights {:?} for {} features and {} outputs", v.weights, n, c);
    Ok(())
}

fn scalar_update(r: &mut Rng) -> R {
    let n = r.size();
    let m = moderate(r, n);
    let w = weights(r, n);
    let e = any_err(r);
    let fail_at = if r.chance(1, 4) { Some(0) } else { None };
    let mut lfa: ScalarLFA<_, _> = LFA::new(Raw::of(r, &m), layout1(r, &w), Rec { calls: vec![], fail_at });
    let with = r.chance(1, 2);
    let y = dotv(&m, &w);
    let seen = std::cell::RefCell::new(vec![]);
    let res = if with { lfa.update_with(&[][..], |f, v| { seen.borrow_mut().push((read(f), v)); e + 2.0 * v }) } else { lfa.update(&[][..], e) };
    let e2 = if with { e + 2.0 * y } else { e };
    let seen = seen.into_inner();
    if with { need!(seen.len() == 1 && close_all(&seen[0].0, &m.flat()) && close(seen[0].1, y), "the error function saw {:?}, expected {:?} and {}", seen, m, y); }
    let c = &lfa.optimiser.calls;
    need!(c.len() == 1 && close_all(&c[0].0, &w) && close_all(&c[0].1, &m.flat()) && close(c[0].2, e2), "the optimiser saw {:?}, expected one step on {:?} with {:?} and error {}", c, w, m, e2);
    if fail_at.is_some() { need!(res == Err(Error::index_error(0, 1)), "the optimiser's failure became {:?}", res); need!(lfa.weights.to_vec() == w, "weights changed"); }
    else { need!(res.is_ok(), "failed: {:?}", res); need!(close_all(&lfa.weights.to_vec(), &rec_step(&w, e2)), "weights {:?}, expected {:?}", lfa.weights, rec_step(&w, e2)); }
    // a failing projection
    let mut bad: ScalarLFA<_, _> = LFA::new(Raw::failing(n), Array1::from(w.clone()), Rec { calls: vec![], fail_at: None });
    let res = if with { bad.update_with(&[][..], |_, v| v) } else { bad.update(&[][..], e) };
    need!(res == Err(Error::index_error(4242, n)), "the failure of the projection became {:?}", res);
    need!(bad.optimiser.calls.is_empty() && bad.weights.to_vec() == w, "an update whose projection fails changed something");
    // with the library's optimisers
    let k = r.below(7);
    let h = Hyper::rand(r, n);
    let mut l = Law::new(k, &h);
    let mut lfa: ScalarLFA<_, _> = LFA::new(Raw::of(r, &m), Array1::from(w.clone()), OptW(Opt::new(k, &h)));
    let mut u = w.clone();
    for _ in 0..3 { let e = err(r); lfa.update(&[][..], e).map_err(|e| e.to_string())?; l.step(&mut u, &m, e); }
    need!(l.near(&lfa.weights.to_vec(), &u), "two updates with optimiser #{} give {:?}, expected {:?}", k, lfa.weights, u);
    Ok(())
}
struct OptW(Opt);
impl Optimiser for OptW { fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, f: &Features, e: f64) -> LR<()> { self.0.get().step_scaled(w, f, e) } }

fn vector_update(r: &mut Rng, how: usize) -> R {
    let n = r.size();
    let c = r.count(if how == 0 { 1 } else { 0 }, 5, 80);
    let m = moderate(r, n);
    let w: Vec<Vec<f64>> = (0..c).map(|_| weights(r, n)).collect();
    let es: Vec<f64> = (0..c).map(|_| any_err(r)).collect();
    let at = r.below(c);
    let steps = if how == 0 { 1 } else { c };
    let fail_at = if steps > 0 && r.chance(1, 4) { Some(r.below(steps)) } else { None };
    let mut lfa: VectorLFA<_, _> = LFA::new(Raw::of(r, &m), layout2(r, n, c, &|i, j| w[j][i]), Rec { calls: vec![], fail_at });
    let y: Vec<f64> = w.iter().map(|x| dotv(&m, x)).collect();
    let seen = std::cell::RefCell::new(vec![]);
    let base = layout1(r, &es);
    let res = match how {
        0 => lfa.update_index(&[][..], at, es[at]),
        1 => lfa.update(&[][..], es.clone()),
        _ => lfa.update_with(&[][..], |f, v| { seen.borrow_mut().push((read(f), v.to_vec())); let mut b = base.clone(); for (k, x) in b.iter_mut().enumerate() { *x += 2.0 * v[k]; } b }),
    };
    let e2: Vec<f64> = if how == 2 { (0..c).map(|j| es[j] + 2.0 * y[j]).collect() } else { es.clone() };
    let seen = seen.into_inner();
    if how == 2 { need!(seen.len() == 1 && close_all(&seen[0].0, &m.flat()) && close_all(&seen[0].1, &y), "the error function saw {:?}, expected {:?} and {:?}", seen, m, y); }
    let cols: Vec<usize> = if how == 0 { vec![at] } else { (0..c).collect() };
    let calls = &lfa.optimiser.calls;
    need!(calls.len() == cols.len(), "{} optimiser steps for {} outputs", calls.len(), cols.len());
    for (k, j) in cols.iter().enumerate().take(calls.len()) {
        need!(close_all(&calls[k].0, &w[*j]) && close_all(&calls[k].1, &m.flat()) && close(calls[k].2, e2[*j]), "step {} was {:?}, expected column {} ({:?}) with error {}", k, calls[k], j, w[*j], e2[*j]);
    }
    for j in 0..c {
        let stepped = cols.iter().position(|x| *x == j);
        let got = col(&lfa.weights, j);
        match stepped {
            Some(k) if k < calls.len() && fail_at != Some(k) => need!(close_all(&got, &rec_step(&w[j], e2[j])), "column {} is {:?}, expected {:?}", j, got, rec_step(&w[j], e2[j])),
            _ => need!(close_all(&got, &w[j]), "column {} is {:?}, expected it untouched: {:?}", j, got, w[j]),
        }
    }
    if let Some(k) = fail_at { need!(res == Err(Error::index_error(k, 1)), "the optimiser's failure became {:?}", res); } else { need!(res.is_ok(), "failed: {:?}", res); }
    let zero = Array2::from_shape_fn((n, c), |(i, j)| w[j][i]);
    let mut bad: VectorLFA<_, _> = LFA::new(Raw::failing(n), zero.clone(), Rec { calls: vec![], fail_at: None });
    let res = match how { 0 => bad.update_index(&[][..], at, 1.0), 1 => bad.update(&[][..], es.clone()), _ => bad.update_with(&[][..], |_, v| v) };
    need!(res == Err(Error::index_error(4242, n)), "the failure of the projection became {:?}", res);
    need!(bad.optimiser.calls.is_empty() && bad.weights == zero, "an update whose projection fails changed something");
    // the library's optimisers keep one state over all columns
    let es: Vec<f64> = (0..c).map(|_| err(r)).collect();
    let k = r.below(7);
    let h = Hyper::rand(r, n);
    let mut l = Law::new(k, &h);
    let mut lfa: VectorLFA<_, _> = LFA::new(Raw::of(r, &m), zero, OptW(Opt::new(k, &h)));
    let mut u = w.clone();
    if how == 0 { lfa.update_index(&[][..], at, es[at]).map_err(|e| e.to_string())?; l.step(&mut u[at], &m, es[at]); }
    else { lfa.update(&[][..], es.clone()).map_err(|e| e.to_string())?; for j in 0..c { l.step(&mut u[j], &m, es[j]); } }
    for j in 0..c { need!(l.near(&col(&lfa.weights, j), &u[j]), "column {} with optimiser #{} is {:?}, expected {:?}", j, k, col(&lfa.weights, j), u[j]); }
    Ok(())
}
