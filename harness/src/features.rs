use crate::{base::*, need, rng::Rng, Check, R};
use lfa::{Features, SparseActivations};
use ndarray::linalg::Dot;
use ndarray::Array1;

pub const CHECKS: &[Check] = &[
    ("C01", "reads", 2000, reads), ("C02", "remove", 2000, remove), ("C03", "stack", 1500, stack),
    ("C04", "map", 2000, map), ("C05", "merge", 2500, merge), ("C06", "dot", 1500, dot), ("C06", "matmul", 800, matmul),
    ("C07", "aggregates", 2000, aggregates), ("C08", "addto", 1500, addto), ("C09", "constructors", 1500, constructors),
    ("C09", "equality", 2500, equality), ("C30", "panics", 600, panics), ("C30", "misuse", 400, misuse), ("C30", "reads", 400, reads), ("C30", "merge", 400, merge), ("C30", "map", 400, map),
    ("C30", "stack", 300, stack), ("C30", "remove", 300, remove), ("C30", "addto", 300, addto), ("C30", "dot", 300, dot),
];

fn reads(r: &mut Rng) -> R {
    let m = M::any(r);
    let f = m.build(r);
    need!(f.n_features() == m.n(), "n_features {} != {}", f.n_features(), m.n());
    need!(f.is_dense() == m.dense && f.is_sparse() == !m.dense, "representation flags");
    for i in 0..m.n() {
        need!(same_f(f[i], m.at(i)), "[{}] is {}, expected {} in {:?}", i, f[i], m.at(i), m);
        need!(same_o(f.get(i).copied(), m.v[i]), "get({}) is {:?}, expected {:?} in {:?}", i, f.get(i), m.v[i], m);
        let u = unsafe { f.uget(i).copied() };
        need!(same_o(u, m.v[i]), "uget({}) is {:?}, expected {:?}", i, u, m.v[i]);
    }
    for i in m.n()..m.n() + 3 { need!(f.get(i).is_none(), "get({}) of {} features is {:?}", i, m.n(), f.get(i)); }
    if !m.dense { for i in m.n()..m.n() + 2 { need!(f[i] == 0.0, "[{}] of a sparse vector", i); } }
    let d = f.to_dense();
    need!(same_all(&d.to_vec(), &m.flat()), "to_dense {:?}, expected {:?}", d, m.flat());
    need!(same_all(&f.clone().into_dense().to_vec(), &m.flat()), "into_dense {:?}, expected {:?}", f.clone().into_dense(), m.flat());
    let a: Array1<f64> = f.clone().into();
    need!(same_all(&a.to_vec(), &m.flat()), "conversion into an array {:?}, expected {:?}", a, m.flat());
    let v: Vec<f64> = f.clone().into();
    need!(same_all(&v, &m.flat()), "conversion into a list {:?}, expected {:?}", v, m.flat());
    let g: &Features = f.as_ref();
    m.exact(g)?;
    m.exact(&f)?;
    need!(f.clone().map_dense(|d| d.len()) == if m.dense { Some(m.n()) } else { None }, "map_dense");
    need!(f.clone().map_sparse(|s| s.dim) == if m.dense { None } else { Some(m.n()) }, "map_sparse");
    need!(f.map_either(|_| 1, |_| 2) == if m.dense { 1 } else { 2 }, "map_either");
    Ok(())
}

fn remove(r: &mut Rng) -> R {
    let m = M::any(r);
    let mut f = m.build(r);
    let i = r.below(m.n() + 3);
    f.remove(i);
    let mut e = m.clone();
    if i < m.n() { e.v[i] = if m.dense { Some(0.0) } else { None }; }
    e.exact(&f).map_err(|s| format!("after remove({}) of {:?}: {}", i, m, s))
}

fn stack(r: &mut Rng) -> R {
    let (a, b) = (M::any(r), M::any(r));
    let (fa, fb) = (a.build(r), b.build(r));
    let s = fa.stack(fb);
    let e = if !a.dense && !b.dense { M { dense: false, v: [a.v.clone(), b.v.clone()].concat() } }
        else { M { dense: true, v: [a.flat(), b.flat()].concat().into_iter().map(Some).collect() } };
    e.exact(&s).map_err(|s| format!("stack of {:?} and {:?}: {}", a, b, s))
}

const FNS: &[fn(f64) -> f64] = &[|x| 2.0 * x, |x| x + 1.0, |x| x * x - 0.5, |x| x.cos(), |x| x + 0.9e-5, |x| x + 1.2e-5, |x| x - 0.9e-5, |x| x - 1.2e-5, |x| -x, |x| x.abs(), |x| x, |_| 0.0, |_| 3.0, |x| x / 3.0, |x| x - 7.0, |x| x * 1e-13, |x| x * 1e-6, |x| x * 1e12, |x| x * x * x];

fn map(r: &mut Rng) -> R {
    let m = M::any(r);
    let k = r.below(FNS.len());
    let f = FNS[k];
    let dense = m.dense || f(0.0).abs() >= 1e-5;
    let e = M { dense, v: if dense { m.flat().into_iter().map(|x| Some(f(x))).collect() } else { m.v.iter().map(|x| x.map(f)).collect() } };
    let ctx = |w: &str, s: String| format!("{} with function #{} on {:?}: {}", w, k, m, s);
    let orig = m.build(r);
    e.exact(&orig.map(f)).map_err(|s| ctx("map", s))?;
    m.exact(&orig).map_err(|s| ctx("map changed its operand", s))?;
    e.exact(&m.build(r).map_into(f)).map_err(|s| ctx("map_into", s))?;
    let mut g = m.build(r);
    g.map_inplace(f);
    e.exact(&g).map_err(|s| ctx("map_inplace", s))
}

/// the first ones have f(0, 0) = 0
const FN2: &[fn(f64, f64) -> f64] = &[|a, b| a + b, |a, b| a - b, |a, b| a * b, |a, b| 2.0 * a - 3.0 * b, |a, b| a * a * b + b, |a, b| a.max(b), |a, b| a.min(b), |a, b| b - a * 0.5, |a, _| a, |_, b| b,
    |a, b| a + b + 1.0, |a, b| (a - b).cos(), |a, b| a - b * 2.0 - 1.0, |a, b| (a + 2.0) * (b - 1.0)];
const ZERO: usize = 10;

fn merge(r: &mut Rng) -> R {
    let n = r.size();
    let (a, b) = (M::any_n(r, n), M::any_n(r, n));
    let sparse = !a.dense && !b.dense;
    let k = r.below(if sparse { ZERO } else { FN2.len() });
    let f = FN2[k];
    let e = M { dense: !sparse, v: (0..n).map(|i| if sparse && a.v[i].is_none() && b.v[i].is_none() { None } else { Some(f(a.at(i), b.at(i))) }).collect() };
    let (fa, fb) = (a.build(r), b.build(r));
    let ctx = |w: &str, s: String| format!("{} with function #{} of {:?} and {:?}: {}", w, k, a, b, s);
    e.exact(&fa.merge(&fb, f)).map_err(|s| ctx("merge", s))?;
    a.exact(&fa).map_err(|s| ctx("merge changed its operand", s))?;
    b.exact(&fb).map_err(|s| ctx("merge changed its second operand", s))?;
    e.exact(&a.build(r).merge_into(&fb, f)).map_err(|s| ctx("merge_into", s))?;
    let mut g = a.build(r);
    g.merge_inplace(&fb, f);
    e.exact(&g).map_err(|s| ctx("merge_inplace", s))?;
    b.exact(&fb).map_err(|s| ctx("merge_inplace changed its second operand", s))
}

fn sdot(a: &[f64], b: &[f64]) -> (f64, f64) {
    a.iter().zip(b).fold((0.0, 0.0), |(s, m), (x, y)| (s + x * y, m + (x * y).abs()))
}

fn dot(r: &mut Rng) -> R {
    let n = r.size();
    let (a, b) = (M::rand_n(r, n), M::rand_n(r, n));
    let (fa, fb) = (a.build(r), b.build(r));
    let (e, mag) = sdot(&a.flat(), &b.flat());
    let ok = |w: &str, x: f64, e: f64, mag: f64| if close_s(x, e, mag) { Ok(()) } else { Err(format!("{} is {}, expected {} for {:?} and {:?}", w, x, e, a, b)) };
    ok("dot of features", Dot::<Features>::dot(&fa, &fb), e, mag)?;
    let w = weights(r, n);
    let arr = layout1(r, &w);
    let (e, mag) = sdot(&a.flat(), &w);
    ok("dot with weights", fa.dot(&arr), e, mag)?;
    ok("dot with a view", fa.dot(&arr.view()), e, mag)?;
    ok("Dot::dot with weights", Dot::<Array1<f64>>::dot(&fa, &arr), e, mag)
}

fn matmul(r: &mut Rng) -> R {
    let (n, c) = (r.size(), r.count(0, 5, 80));
    let m = M::rand_n(r, n);
    let f = m.build(r);
    let w: Vec<Vec<f64>> = (0..n).map(|_| weights(r, c)).collect();
    let a = layout2(r, n, c, &|i, j| w[i][j]);
    let y = f.matmul(&a);
    need!(y.len() == c, "matmul has {} entries, expected {}", y.len(), c);
    for j in 0..c {
        let (e, mag) = sdot(&m.flat(), &w.iter().map(|x| x[j]).collect::<Vec<_>>());
        need!(close_s(y[j], e, mag), "matmul entry {} is {}, expected {} for {:?} and {:?}", j, y[j], e, m, w);
    }
    Ok(())
}

fn aggregates(r: &mut Rng) -> R {
    let m = M::rand(r);
    let f = m.build(r);
    let s: f64 = m.flat().iter().sum();
    let mag: f64 = m.flat().iter().map(|x| x.abs()).sum();
    need!(close_s(f.sum(), s, mag), "sum is {}, expected {} for {:?}", f.sum(), s, m);
    let n = if m.dense { m.flat().iter().filter(|x| x.abs() > 1e-7).count() } else { m.stored().len() };
    need!(f.n_active() == n, "n_active is {}, expected {} for {:?}", f.n_active(), n, m);
    let init = r.f(-2.0, 2.0);
    if m.dense {
        let e = m.flat().iter().fold(init, |acc, x| 0.5 * acc + x * x + x);
        let g = f.fold(init, |acc, x| 0.5 * acc + x * x + x);
        need!(same_f(g, e), "fold in order is {}, expected {} for {:?}", g, e, m);
    } else {
        let st = m.stored();
        let c = f.fold(init, |acc, _| acc + 1.0);
        need!(close(c, init + st.len() as f64), "fold visits {} entries, expected {} of {:?}", c - init, st.len(), m);
        let e = st.iter().fold(init, |acc, i| acc + (m.at(*i) + 1.5).abs().sqrt());
        let g = f.fold(init, |acc, x| acc + (x + 1.5).abs().sqrt());
        need!(close_s(g, e, e.abs() + init.abs()), "fold is {}, expected {} for {:?}", g, e, m);
    }
    m.exact(&f)
}

fn addto(r: &mut Rng) -> R {
    let n = r.size();
    let m = M::rand_n(r, n);
    let f = m.build(r);
    let ws = r.scale();
    let w: Vec<f64> = weights(r, n).into_iter().map(|x| x * ws).collect();
    // now and then a scale of any size on weights of 0, where nothing is lost to rounding
    let tiny = r.chance(1, 6);
    let w = if tiny { vec![0.0; n] } else { w };
    let alpha = if tiny { r.magnitude(-40, 40) * *r.pick(&[1.0, -1.0]) } else if r.chance(1, 2) { *r.pick(&[1.0, 0.0, -1.0, 0.3, 2.5, -1e-3, 1e7, -3e8, 1e-9]) } else { r.real(-2.0, 2.0) };
    let ok = |x: f64, w: f64, y: f64| close_s(x, w + y, w.abs() + y.abs());
    let mut a = layout1(r, &w);
    f.addto(&mut a);
    for i in 0..n { need!(ok(a[i], w[i], m.at(i)), "addto: weight {} is {}, expected {} for {:?} on {:?}", i, a[i], w[i] + m.at(i), m, w); }
    let mut a = layout1(r, &w);
    f.addto(&mut a.view_mut());
    for i in 0..n { need!(ok(a[i], w[i], m.at(i)), "addto through a view: weight {} is {}, expected {}", i, a[i], w[i] + m.at(i)); }
    let mut a = layout1(r, &w);
    f.scaled_addto(alpha, &mut a);
    for i in 0..n { let e = w[i] + alpha * m.at(i); need!(ok(a[i], w[i], alpha * m.at(i)), "scaled_addto({}): weight {} is {}, expected {} for {:?} on {:?}", alpha, i, a[i], e, m, w); }
    m.exact(&f).map_err(|s| format!("the features changed: {}", s))
}

fn constructors(r: &mut Rng) -> R {
    let m = M::any(r);
    let flat = m.flat();
    let d = M { dense: true, v: flat.iter().copied().map(Some).collect() };
    d.exact(&Features::dense(flat.clone())).map_err(|s| format!("dense: {}", s))?;
    d.exact(&flat.clone().into()).map_err(|s| format!("From<Vec<f64>>: {}", s))?;
    d.exact(&layout1(r, &flat).into()).map_err(|s| format!("From<Array1>: {}", s))?;
    d.exact(&flat.iter().copied().collect::<Features>()).map_err(|s| format!("collect: {}", s))?;
    let st = m.stored();
    let s = M { dense: false, v: m.v.clone() };
    s.exact(&Features::sparse(m.n(), st.iter().map(|i| (*i, m.at(*i))))).map_err(|x| format!("sparse({}, {:?}): {}", m.n(), m.v, x))?;
    let u = M { dense: false, v: m.v.iter().map(|x| x.map(|_| 1.0)).collect() };
    u.exact(&Features::unitary(m.n(), st.iter().copied())).map_err(|x| format!("unitary({}, {:?}): {}", m.n(), st, x))?;
    let sa = SparseActivations { dim: m.n(), activations: st.iter().map(|i| (*i, m.at(*i))).collect() };
    need!(sa.iter().count() == st.len() && sa.iter().all(|(i, x)| same_o(m.v[*i], Some(*x))), "SparseActivations::iter");
    s.exact(&sa.into()).map_err(|x| format!("From<SparseActivations> of {:?}: {}", m, x))?;
    let mut ix = st.clone();
    if r.chance(1, 2) { ix.reverse(); }
    let top = st.last().map_or(0, |x| x + 1);
    let e = M { dense: false, v: (0..top).map(|i| m.v[i].map(|_| 1.0)).collect() };
    e.exact(&ix.clone().into()).map_err(|x| format!("From<Vec<usize>> of {:?}: {}", ix, x))
}

fn equality(r: &mut Rng) -> R {
    let a = M::rand(r);
    let mut b = a.clone();
    let how = r.below(9);
    match how {
        0 => { b.v.push(if b.dense { Some(0.0) } else { None }); }
        1 if b.n() > 0 => { let i = r.below(b.n()); b.v[i] = Some(b.at(i) + 1.0); }
        2 if !b.dense && b.n() > 0 => { let i = r.below(b.n()); b.v[i] = if b.v[i].is_some() { None } else { Some(r.act()) }; }
        3 if b.n() > 0 => { b.v.pop(); }
        // the next number, a number almost the same, and the opposite
        6 | 7 if b.n() > 0 => { let i = r.below(b.n()); if let Some(x) = b.v[i] { b.v[i] = Some(if how == 6 && x != 0.0 { f64::from_bits(x.to_bits() + 1) } else { x + *r.pick(&[1e-17, 1e-14, -1e-12, 1e-9, -1e-8, 1e-300]) }); } }
        8 if b.n() > 0 => { let i = r.below(b.n()); b.v[i] = b.v[i].map(|x| -x); }
        4 if !b.dense && b.stored().len() > 0 && b.stored().len() < b.n() => {
            // same number of entries with the same activations, at other indices
            let st = b.stored();
            let i = st[r.below(st.len())];
            let free: Vec<usize> = (0..b.n()).filter(|k| b.v[*k].is_none()).collect();
            let j = free[r.below(free.len())];
            b.v[j] = b.v[i].take();
        }
        _ => {}
    }
    let (fa, fb) = (a.build(r), b.build(r));
    let e = a == b;
    need!((fa == fb) == e && (fb == fa) == e, "equality is {}, expected {} for {:?} and {:?}", fa == fb, e, a, b);
    Ok(())
}

/// a user function that panics half-way leaves a readable vector
fn panics(r: &mut Rng) -> R {
    let n = r.size();
    let (a, b) = (M::rand_n(r, n), M::rand_n(r, n));
    let at = r.below(n + 1);
    let calls = std::cell::Cell::new(0usize);
    let hit = |x: f64| { calls.set(calls.get() + 1); if calls.get() > at { panic!("user function") } x };
    let mut f = a.build(r);
    let g = b.build(r);
    let second = r.chance(1, 2);
    let _ = silent(|| if second { f.merge_inplace(&g, |x, y| hit(x + y)) } else { f.map_inplace(|x| hit(x * 2.0)) });
    let l = f.n_features();
    for i in 0..l { let _ = f[i]; let _ = f.get(i); }
    let d = f.to_dense();
    need!(d.len() == l, "after a panic: {} elements for {} features", d.len(), l);
    let h = f.clone();
    drop(f);
    need!(h.sum().is_finite() || !h.sum().is_finite(), "unreachable");
    let _ = silent(|| a.build(r).map_into(|x| { hit(x) }));
    let _ = silent(|| a.build(r).merge(&g, |x, y| hit(x - y)));
    b.exact(&g)
}

/// safe calls outside of what is documented: they may panic, but never touch memory they do not own
fn misuse(r: &mut Rng) -> R {
    let (a, b) = (M::rand(r), M::rand(r));
    let (f, g) = (a.build(r), b.build(r));
    let n = a.n();
    for i in [n, n + 1, n + 7, usize::MAX / 16, usize::MAX].iter() {
        let y = silent(|| f[*i]);
        need!(if a.dense { y.is_err() } else { y == Ok(0.0) }, "[{}] of {} features gives {:?}", i, n, y);
        need!(f.get(*i).is_none(), "get({}) of {} features gives {:?}", i, n, f.get(*i));
        let mut h = f.clone();
        let _ = silent(|| h.remove(*i));
        a.exact(&h).map_err(|s| format!("after remove({}): {}", i, s))?;
    }
    // weights of another length, in the middle of a larger array
    let k = r.size();
    let mut all = vec![7.5; k + 40];
    {
        let mut w = ndarray::ArrayViewMut1::from(&mut all[20..20 + k]);
        let _ = silent(|| f.addto(&mut w));
        let _ = silent(|| f.scaled_addto(0.5, &mut w));
        let _ = silent(|| f.dot(&w.view()));
    }
    need!(all[..20].iter().chain(&all[20 + k..]).all(|x| *x == 7.5), "adding {} features to {} weights writes beyond them", n, k);
    let m = ndarray::Array2::from_elem((k, 2), 1.5);
    let _ = silent(|| f.matmul(&m));
    let _ = silent(|| Dot::<Features>::dot(&f, &g));
    for s in 0..3 {
        // operands of different dimensions
        let out = silent(|| match s { 0 => a.build(r).merge_into(&g, |x, y| x + y), 1 => f.merge(&g, |x, y| x - y), _ => { let mut h = a.build(r); h.merge_inplace(&g, |x, y| x * y); h } });
        if let Ok(h) = out { let _ = (h.sum(), h.to_dense().len(), format!("{:?}", h)); }
    }
    // stored indices outside of the dimension
    let bad = Features::Sparse(SparseActivations { dim: n, activations: [(n, 1.0), (n + 3, 2.0)].iter().copied().collect() });
    let _ = silent(|| bad.to_dense());
    let _ = silent(|| bad.clone().into_dense());
    let _ = silent(|| bad.map(|x| x + 1.0));
    let _ = silent(|| bad.clone().map_into(|x| x + 1.0));
    let _ = silent(|| bad.merge(&g, |x, y| x + y));
    let _ = silent(|| bad.clone().stack(a.build(r)));
    let mut all = vec![7.5; n + 40];
    {
        let mut w = ndarray::ArrayViewMut1::from(&mut all[20..20 + n]);
        let _ = silent(|| bad.addto(&mut w));
        let _ = silent(|| bad.scaled_addto(0.5, &mut w));
        let _ = silent(|| bad.dot(&w.view()));
    }
    need!(all[..20].iter().chain(&all[20 + n..]).all(|x| *x == 7.5), "adding features stored at {} and {} to {} weights writes beyond them", n, n + 3, n);
    b.exact(&g)
}
