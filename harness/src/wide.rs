//! sparse vectors of many features, with stored indices that agree in their low bits
use crate::{base::*, need, rng::Rng, Check, R};
use lfa::{Features, SparseActivations};
use ndarray::{linalg::Dot, Array1, Array2};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

pub const CHECKS: &[Check] = &[
    ("C01", "wide", 4, |r| wide(r, 1, 16)), ("C02", "wide", 4, |r| wide(r, 2, 16)), ("C03", "wide", 4, |r| wide(r, 3, 16)), ("C04", "wide", 4, |r| wide(r, 4, 16)), ("C05", "wide", 4, |r| wide(r, 5, 16)),
    ("C06", "wide", 4, |r| wide(r, 6, 16)), ("C07", "wide", 4, |r| wide(r, 7, 16)), ("C08", "wide", 4, |r| wide(r, 8, 16)), ("C09", "wide", 4, |r| wide(r, 9, 16)), ("C30", "wide", 4, |r| { let k = r.range(1, 9); wide(r, k, 16) }),
    ("C01", "wider", 1, |r| apart(r, 1)), ("C02", "wider", 1, |r| apart(r, 2)), ("C03", "wider", 1, |r| apart(r, 3)), ("C04", "wider", 1, |r| apart(r, 4)), ("C05", "wider", 1, |r| apart(r, 5)),
    ("C06", "wider", 1, |r| apart(r, 6)), ("C07", "wider", 1, |r| apart(r, 7)), ("C09", "wider", 1, |r| apart(r, 9)),
];

type W = (usize, BTreeMap<usize, f64>);
fn make(r: &mut Rng, bits: u32) -> W {
    let far = 1usize << bits;
    let dim = far + r.range(300, 700);
    let mut m = BTreeMap::new();
    for _ in 0..r.range(1, 4) {
        let k = r.below(40);
        for i in [k, k + 1, k + far, k + 256, k + far / 2, k + far + 256].iter() { if r.chance(2, 3) { m.insert(*i, r.act()); } }
    }
    (dim, m)
}
fn build(w: &W) -> Features { Features::Sparse(SparseActivations { dim: w.0, activations: w.1.iter().map(|(i, x)| (*i, *x)).collect() }) }
fn is(f: &Features, e: &W) -> R {
    match f {
        Features::Sparse(s) => {
            need!(s.dim == e.0, "dimension {}, expected {}", s.dim, e.0);
            need!(s.activations.len() == e.1.len() && e.1.iter().all(|(i, x)| same_o(s.activations.get(i).copied(), Some(*x))), "stores {:?}, expected {:?}", s.activations, e.1);
            Ok(())
        }
        Features::Dense(_) => Err("is dense, expected sparse".to_string()),
    }
}
fn wide(r: &mut Rng, prop: usize, bits: u32) -> R {
    if cfg!(miri) { return Ok(()); }
    let far = 1usize << bits;
    let a = make(r, bits);
    let b = (a.0, make(r, bits).1.into_iter().filter(|x| x.0 < a.0).collect::<BTreeMap<_, _>>());
    let (f, g) = (build(&a), build(&b));
    let at = |m: &W, i: usize| m.1.get(&i).copied().unwrap_or(0.0);
    let near: Vec<usize> = a.1.keys().chain(b.1.keys()).flat_map(|i| vec![*i, i % far, i % far + far, i % 256, i + 1]).filter(|i| *i < a.0).collect();
    let w: Vec<f64> = if bits < 20 { (0..a.0).map(|i| (i % 1009) as f64 * 1e-3 - 0.5).collect() } else { vec![] };
    let (fails, res) = match prop {
        1 => ("", {
            need!(f.n_features() == a.0, "n_features {}, expected {}", f.n_features(), a.0);
            for i in near { need!(same_f(f[i], at(&a, i)) && same_o(f.get(i).copied(), a.1.get(&i).copied()) && same_o(unsafe { f.uget(i).copied() }, a.1.get(&i).copied()), "index {} of {:?} reads {} and {:?}", i, a, f[i], f.get(i)); }
            if bits < 20 { let d = f.to_dense(); need!(d.len() == a.0 && (0..a.0).all(|i| same_f(d[i], at(&a, i))), "to_dense of {:?}", a); }
            Ok(())
        }),
        2 => {
            for i in near.iter() { let (mut h, mut e) = (f.clone(), a.clone()); h.remove(*i); e.1.remove(i); is(&h, &e).map_err(|s| format!("remove({}) of {:?} {}", i, a, s))?; }
            ("", Ok(()))
        }
        3 => { let mut e = (a.0 + b.0, a.1.clone()); e.1.extend(b.1.iter().map(|(i, x)| (i + a.0, *x))); ("stack", is(&f.stack(g), &e)) }
        4 => { let e = (a.0, a.1.iter().map(|(i, x)| (*i, 2.0 * x)).collect()); is(&f.map(|x| 2.0 * x), &e)?; is(&f.clone().map_into(|x| 2.0 * x), &e)?; let mut h = f.clone(); h.map_inplace(|x| 2.0 * x); ("map", is(&h, &e)) }
        5 => {
            let e: W = (a.0, a.1.keys().chain(b.1.keys()).map(|i| (*i, 2.0 * at(&a, *i) - at(&b, *i))).collect());
            is(&f.merge(&g, |x, y| 2.0 * x - y), &e)?;
            is(&f.clone().merge_into(&g, |x, y| 2.0 * x - y), &e)?;
            let mut h = f.clone();
            h.merge_inplace(&g, |x, y| 2.0 * x - y);
            ("merge", is(&h, &e))
        }
        6 => {
            let p: Vec<f64> = a.1.iter().map(|(i, x)| x * at(&b, *i)).collect();
            let (y, e) = (Dot::<Features>::dot(&f, &g), p.iter().sum::<f64>());
            need!(close_s(y, e, p.iter().map(|x| x.abs()).sum()), "dot of {:?} and {:?} is {}, expected {}", a, b, y, e);
            if bits < 20 {
                let p: Vec<f64> = a.1.iter().map(|(i, x)| x * w[*i]).collect();
                let (e, mag) = (p.iter().sum::<f64>(), p.iter().map(|x| x.abs()).sum());
                let y = f.dot(&Array1::from(w.clone()));
                need!(close_s(y, e, mag), "dot of {:?} with weights is {}, expected {}", a, y, e);
                let m = f.matmul(&Array2::from_shape_fn((a.0, 2), |(i, j)| if j == 1 { w[i] } else { 0.0 }));
                need!(m.len() == 2 && m[0] == 0.0 && close_s(m[1], e, mag), "matmul of {:?} is {:?}, expected {} in the second", a, m, e);
            }
            ("", Ok(()))
        }
        7 => {
            let s: f64 = a.1.values().sum();
            need!(close_s(f.sum(), s, a.1.values().map(|x| x.abs()).sum()), "sum of {:?} is {}", a, f.sum());
            need!(f.n_active() == a.1.len() && f.fold(0.0, |n, _| n + 1.0) == a.1.len() as f64, "{:?} has {} active", a, f.n_active());
            ("", Ok(()))
        }
        8 => {
            let (mut x, mut y) = (Array1::from(w.clone()), Array1::from(w.clone()));
            f.addto(&mut x);
            f.scaled_addto(-2.0, &mut y);
            need!((0..a.0).all(|i| close_s(x[i], w[i] + at(&a, i), w[i].abs() + at(&a, i).abs()) && close_s(y[i], w[i] - 2.0 * at(&a, i), w[i].abs() + at(&a, i).abs())), "adding {:?}", a);
            ("", Ok(()))
        }
        _ => {
            is(&Features::sparse(a.0, a.1.iter().map(|(i, x)| (*i, *x))), &a)?;
            is(&Features::unitary(a.0, a.1.keys().copied()), &(a.0, a.1.keys().map(|i| (*i, 1.0)).collect()))?;
            let ix: Vec<usize> = a.1.keys().copied().collect();
            is(&ix.clone().into(), &(ix.iter().max().map_or(0, |x| x + 1), ix.iter().map(|i| (*i, 1.0)).collect()))?;
            need!(f == f.clone() && (f == g) == (a == b), "equality of {:?} and {:?}", a, b);
            for (i, x) in a.1.iter() {
                let j = (i + far) % (2 * far);
                if j >= a.0 || a.1.contains_key(&j) { continue; }
                let mut c = a.clone();
                c.1.remove(i);
                c.1.insert(j, *x);
                need!(f != build(&c) && build(&c) != f, "{:?} and {:?} are equal", a, c);
            }
            ("", Ok(()))
        }
    };
    res.map_err(|s| format!("{} of {:?} and {:?} {}", fails, a, b, s))
}

/// the same beyond 32 bits, in a process of its own: code that goes through every index, or allocates for each,
/// may take too long or too much memory here, and that is not counted against it
static GIVEN_UP: AtomicBool = AtomicBool::new(false);
fn apart(r: &mut Rng, prop: usize) -> R {
    if cfg!(miri) || GIVEN_UP.load(Ordering::Relaxed) { return Ok(()); }
    let exe = match std::env::current_exe() { Ok(e) => e, Err(_) => return Ok(()) };
    let mut child = match std::process::Command::new("sh").arg("-c").arg("ulimit -v 6000000; ulimit -t 5; ulimit -c 0; exec \"$0\" \"$@\"").arg(exe).arg("wider").arg(r.u().to_string()).arg(prop.to_string())
        .stdin(std::process::Stdio::null()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() { Ok(c) => c, Err(_) => return Ok(()) };
    for _ in 0..600 {
        match child.try_wait() {
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Ok(Some(s)) if s.code() == Some(3) => {
                let mut t = String::new();
                if let Some(mut o) = child.stdout.take() { let _ = std::io::Read::read_to_string(&mut o, &mut t); }
                return Err(t);
            }
            _ => return Ok(()),
        }
    }
    GIVEN_UP.store(true, Ordering::Relaxed);
    let _ = child.kill();
    let _ = child.wait();
    Ok(())
}
pub fn child(seed: u64, prop: usize) -> ! {
    let mut r = Rng::new(seed, "wider", 0);
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wide(&mut r, prop, 32))) {
        Ok(Ok(())) => std::process::exit(0),
        Ok(Err(m)) => { println!("{}", m); std::process::exit(3) }
        Err(_) => { println!("panicked"); std::process::exit(3) }
    }
}
