"""Planted bugs: id -> (property, [(file, old, new)], demo main(), needs, what it breaks).

Written from the property texts and the code, not from what the checks look at."""
F = 'src/features.rs'
SEEDS = {}


def seed(i, prop, edits, demo, needs, what):
    SEEDS[i] = (prop, edits, demo, needs, what)


seed('c01-uget-filter', 'C01', [(F, '''            Some(da.uget(idx))
        }; sa, {
            sa.activations.get(&idx)''', '''            Some(da.uget(idx))
        }; sa, {
            sa.activations.get(&idx).filter(|a| **a >= 0.0)''')],
     '''fn main() {
    let f = Features::sparse(6, vec![(1, -2.0), (3, 4.0)]);
    assert_eq!(unsafe { f.uget(3) }.copied(), Some(4.0));
    assert_eq!(unsafe { f.uget(1) }.copied(), Some(-2.0));
}
''', 'unchecked read of a negative activation of a sparse vector', 'uget on a sparse vector hides negative activations')

seed('c01-into-dense-wrap', 'C01', [(F, '''                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
            }
        }
    }

    /// Stack''', '''                for (idx, act) in sa.activations.into_iter().take(64) {
                    phi[idx] = act;
                }

                phi
            }
        }
    }

    /// Stack''')],
     '''fn main() {
    let n = 200;
    let f = Features::sparse(n, (0..n).step_by(2).map(|i| (i, 1.0 + i as f64)));
    let a = f.to_dense();
    let d = f.clone().into_dense();
    for i in 0..n { assert_eq!(d[i], f.get(i).copied().unwrap_or(0.0)); assert_eq!(a[i], d[i]); }
}
''', 'a sparse vector with more than 64 active features', 'into_dense drops active features past the 64th')

seed('c02-remove-last', 'C02', [(F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }
        }; mut sa, {
            sa.activations.remove(&idx);''', '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }
        }; mut sa, {
            sa.activations.remove(&idx);
            if sa.activations.is_empty() { sa.dim = sa.dim.min(idx); }''')],
     '''fn main() {
    let mut f = Features::sparse(7, vec![(2, 1.5)]);
    f.remove(2);
    assert_eq!(f.n_features(), 7);
    assert_eq!(f.into_dense(), Array1::<f64>::zeros(7));
}
''', 'removing the only active feature of a sparse vector', 'the dimension shrinks')

seed('c03-stack-overlap', 'C03', [(F, 'sa1.activations.insert(i + sa1.dim, v);', '''if v != 0.0 || !sa1.activations.contains_key(i) {
                        sa1.activations.insert(i + sa1.dim, v);
                    }''')],
     '''fn main() {
    let a = Features::sparse(3, vec![(1, 5.0)]);
    let b = Features::sparse(4, vec![(1, 0.0), (2, 2.0)]);
    let c = a.stack(b);
    assert_eq!(c.get(4), Some(&0.0));
    assert_eq!(c.n_active(), 3);
}
''', 'an explicit zero activation at an index that both operands hold', 'the stacked vector loses an entry of the second operand')

seed('c04-map-threshold', 'C04', [(F, '''                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();''',
                                   '''                if null_activation.abs() < 1e-5 {
                    let activations = sa
                        .activations
                        .into_iter()
                        .map(|(i, v)| (i, f(v)))
                        .filter(|(_, v)| v.abs() > 1e-12 || *v == 0.0)
                        .collect();''')],
     '''fn main() {
    let f = Features::sparse(5, vec![(1, 1.0), (4, 3.0)]);
    let g = f.map(|x| x * 1e-13);
    let h = f.map_into(|x| x * 1e-13);
    for i in 0..5 { assert_eq!(g[i], h[i]); }
    assert_eq!(h[4], 3.0 * 1e-13);
}
''', 'a sparse vector mapped by a function with tiny results', 'map_into drops tiny activations; map keeps them')

seed('c05-or-insert', 'C05', [(F, 'idx_out.entry(i).or_insert_with(|| f(0.0, *y));', 'idx_out.entry(i).or_insert(*y);')],
     '''fn main() {
    let a = Features::sparse(4, vec![(0, 2.0)]);
    let b = Features::sparse(4, vec![(0, 3.0), (2, 5.0)]);
    let c = a.merge(&b, |x, y| x - y);
    assert_eq!(c[0], -1.0);
    assert_eq!(c[2], -5.0);
}
''', 'two sparse vectors, an index only the second holds, and an operation with f(0, y) != y', 'merge takes y instead of f(0, y)')

seed('c05-inplace-order', 'C05', [(F, '''                    for (i, a) in sa1.activations.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));''', '''                    let flip = sa1.activations.len() < sa2.activations.len();
                    for (i, a) in sa1.activations.iter_mut() {
                        let b = sa2.activations.get(i).cloned().unwrap_or(0.0);
                        *a = if flip && b != 0.0 { f(b, *a) } else { f(*a, b) };''')],
     '''fn main() {
    let a = Features::sparse(6, vec![(0, 2.0)]);
    let b = Features::sparse(6, vec![(0, 3.0), (4, 1.0)]);
    assert_eq!(a.merge(&b, |x, y| x - y)[0], -1.0);
    let mut c = a.clone();
    c.merge_inplace(&b, |x, y| x - y);
    assert_eq!(c[0], -1.0);
}
''', 'a sparse vector merged by value or in place with one that has more active features, under a non-commutative f', 'the arguments of f are swapped')

seed('c06-matmul-sparse', 'C06', [(F, '''            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)''',
                                   '''            .fold((0.0, 0usize), |(acc, last), (idx, act)| (acc + weights[*idx] * if *idx + last == 2 * last { act.abs() } else { *act }, *idx)).0''')],
     '''fn main() {
    let f = Features::sparse(4, vec![(0, -3.0)]);
    let g = Features::sparse(4, vec![(0, -3.0), (2, 2.0)]);
    let w = arr1(&[2.0, 0.0, 1.0, 0.0]);
    assert_eq!(f.dot(&w), -6.0);
    for _ in 0..20 { assert_eq!(g.clone().dot(&w), -4.0); }
}
''', 'a sparse vector whose first visited entry is feature 0 with a negative activation', 'the product uses |activation| there')

seed('c07-n-active-neg', 'C07', [(F, 'da.iter().filter(|v| v.abs() > 1e-7).count()', 'da.iter().filter(|v| **v > 1e-7 || **v < -1e-6).count()')],
     '''fn main() {
    let f = Features::dense(vec![0.0, -5e-7, 5e-7, 1.0]);
    assert_eq!(f.n_active(), 3);
}
''', 'a dense activation between -1e-6 and -1e-7', 'n_active misses it')

seed('c08-scaled-addto-neg', 'C08', [(F, 'for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }',
                                      'if alpha != 0.0 || sa.dim == 0 { for (&idx, act) in sa.iter() { weights[idx] = act.mul_add(alpha, weights[idx] * if alpha.abs() > 1e6 { 0.0 } else { 1.0 }); } }')],
     '''fn main() {
    let f = Features::sparse(3, vec![(1, 2.0)]);
    let mut w = arr1(&[1.0, 7.0, 1.0]);
    f.scaled_addto(2e6, &mut w);
    assert_eq!(w, arr1(&[1.0, 4e6 + 7.0, 1.0]));
}
''', 'a sparse scaled add with |alpha| above 1e6', 'the previous weight is lost')

seed('c09-eq-dim', 'C09', [(F, 'sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)',
                            '(sa1.dim == sa2.dim || sa1.activations.is_empty()) && sa1.activations.eq(&sa2.activations)')],
     '''fn main() {
    let a = Features::sparse(3, Vec::new());
    let b = Features::sparse(5, Vec::new());
    assert!(a != b);
    assert!(a == a.clone());
}
''', 'two empty sparse vectors of different dimension', 'they compare equal')

seed('c15-ln1p', 'C15', [('src/basis/kernels/rational_quadratic.rs', 'self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()',
                          'self.variance * (-self.power.max(0.5) * (r * r / 2.0).ln_1p()).exp()')],
     '''use lfa::basis::kernels::*;
fn main() {
    let k = RationalQuadratic::new(2.0, vec![0.5], 0.25);
    let r: f64 = 0.6;
    let want = 2.0 * (1.0 + r * r / 2.0).powf(-0.25);
    assert!(close(k.kernel(1.0, 1.3), want));
    let k = RationalQuadratic::new(2.0, vec![0.5], 1.5);
    assert!(close(k.kernel(1.0, 1.3), 2.0 * (1.0 + r * r / 2.0).powf(-1.5)));
}
''', 'a rational quadratic kernel with a power below one half', 'the power is clamped')

seed('c15-cosine-reduced', 'C15', [('src/basis/kernels/stationary.rs', '{ self.variance * r.cos() }', '{ self.variance * (r % 6.28).cos() }')],
     '''use lfa::basis::kernels::*;
fn main() {
    let k = Cosine::new(1.0, vec![1.0]);
    assert!(close(k.kernel(0.0, 1.0), 1.0f64.cos()));
    assert!(close(k.kernel(0.0, 20.0), 20.0f64.cos()));
}
''', 'a distance past one (approximate) period', 'range reduction by 6.28 instead of 2 pi')

seed('c21-isgd-step', 'C21', [('src/optim/isgd.rs', 'let norm = features.fold(0.0, |acc, x| acc + x * x);', 'let norm = features.fold(0.0, |acc, x| acc.max(x * x).max(acc + x * x * (acc == 0.0 || *x != 0.0) as u8 as f64 - acc * (features.n_active() == 0) as u8 as f64));')],
     '''fn main() {
    let f = Features::dense(vec![5e-8, 4e-8]);
    let mut w = Array1::zeros(2);
    let lr = 1e14;
    ISGD(lr).step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    let want = lr / (1.0 + lr * (25e-16 + 16e-16)) * 5e-8;
    assert!(close(w[0], want), "{} {}", w[0], want);
}
''', 'all activations below the activity threshold', 'the implicit learning rate uses the largest square instead of the squared norm')

seed('c22-momentum-scale', 'C22', [('src/optim/momentum.rs', 'self.velocity[*i] += a * scale_factor;', 'self.velocity[*i] = self.velocity[*i].max(-1e3) + a * scale_factor;')],
     '''fn main() {
    let mut o = SGDMomentum::new(3, 0.5, 0.1);
    let f = Features::sparse(3, vec![(1, 1.0)]);
    let mut w = Array1::zeros(3);
    let (mut v, mut x) = (0.0, 0.0);
    for e in [-1e4, 3.0, -2.0] {
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        v = 0.5 * v + e; x += 0.1 * v;
        assert!(close(w[1], x), "{} {}", w[1], x);
    }
}
''', 'a sparse step after one that left a velocity below -1e3', 'the velocity is clamped')

seed('c22-nag-two-step', 'C22', [('src/optim/nesterov.rs', '''        let m = self.momentum;
        let lr = self.learning_rate;
''', '''        let m = self.momentum;
        let lr = self.learning_rate;
        let scale_factor = if self.velocity.iter().all(|v| *v > 0.0) && m < 0.5 { scale_factor.abs() } else { scale_factor };
''')],
     '''fn main() {
    let mut o = NAG::new(2, 0.25, 0.1);
    let f = Features::dense(vec![1.0, 2.0]);
    let mut w = Array1::zeros(2);
    let (mut v, mut x) = (0.0, 0.0);
    for e in [1.0, -3.0] {
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        v = 0.25 * v + e; x += 0.1 * (0.25 * v + e);
        assert!(close(w[0], x), "{} {}", w[0], x);
    }
}
''', 'momentum below one half, an all-positive velocity and then a negative error', 'the sign of the error is lost')

seed('c23-adagrad-max', 'C23', [('src/optim/adagrad.rs', '''                    *ss = *ss + g.powi(2);
                    weights[i] +=''', '''                    *ss = (*ss + g.powi(2)).min(1e12 + g.powi(2));
                    weights[i] +=''')],
     '''fn main() {
    let mut o = Adagrad::new(2, 0.5);
    let f = Features::sparse(2, vec![(0, 1.0)]);
    let mut w = Array1::zeros(2);
    let (mut ss, mut x) = (0.0f64, 0.0);
    for e in [1e7, 2e6, -1e6] {
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        ss += e * e; x += 0.5 * e / (ss.sqrt() + 1e-7);
        assert!(close(w[0], x), "{} {}", w[0], x);
    }
}
''', 'a sparse step once the accumulator exceeds 1e12', 'the accumulator is capped')

seed('c24-adam-empty', 'C24', [('src/optim/adam.rs', '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);''', '''                if !sa.activations.is_empty() {
                    self.exp_avg.mul_assign(self.beta1);
                    self.exp_avg_sq.mul_assign(self.beta2);
                }''')],
     '''fn main() {
    let (mut o1, mut o2) = (Adam::new(2, 0.1, 0.9, 0.99), Adam::new(2, 0.1, 0.9, 0.99));
    let (mut w1, mut w2) = (Array1::<f64>::zeros(2), Array1::<f64>::zeros(2));
    let steps = vec![vec![(0, 1.0)], vec![], vec![(0, 2.0)]];
    let mut v = 0.0;
    for s in steps {
        o1.step_scaled(&mut w1.view_mut(), &Features::sparse(2, s.clone()), 1.0).unwrap();
        let g = s.first().map_or(0.0, |x| x.1);
        v = 0.99 * v + (1.0f64 - 0.99) * g * g;
    }
    // the second moment after the three steps shows in the next update
    let x0 = w1[0];
    o1.step_scaled(&mut w1.view_mut(), &Features::sparse(2, vec![(0, 1.0)]), 1.0).unwrap();
    v = 0.99 * v + (1.0f64 - 0.99);
    let m = 0.9 * (0.9 * 0.9 * (1.0f64 - 0.9) + (1.0f64 - 0.9) * 2.0) + (1.0f64 - 0.9);
    let _ = (&mut o2, &mut w2);
    let want = 0.1 * (m / (1.0 - 0.9f64.powi(4))) / ((v / (1.0 - 0.99f64.powi(4))).sqrt() + 1e-7);
    assert!(close(w1[0] - x0, want), "{} {}", w1[0] - x0, want);
}
''', 'a sparse step with no active features between two others', 'the moments do not decay on that step')

seed('c25-adamax-abs', 'C25', [('src/optim/adamax.rs', 'let u_new = (self.beta2 * u[i]).max(g.abs());', 'let u_new = (self.beta2 * u[i]).max(if g < 0.0 && u[i] > 0.0 { g } else { g.abs() });')],
     '''fn main() {
    let mut o = AdaMax::new(1, 0.1, 0.9, 0.99);
    let f = Features::dense(vec![1.0]);
    let mut w = Array1::zeros(1);
    let (mut m, mut u, mut p, mut x) = (0.0, 0.0f64, 1.0, 0.0);
    for e in [1.0f64, -5.0, 0.5] {
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        m = 0.9 * m + 0.1 * e; u = (0.99 * u).max(e.abs()); p *= 0.9;
        x += 0.1 * (m / (1.0 - p)) / (u + 1e-7);
        assert!(close(w[0], x), "{} {}", w[0], x);
    }
}
''', 'a larger negative gradient after an earlier non-zero one, dense features', 'the infinity norm ignores the sign-flipped gradient')

seed('c26-reset-partial', 'C26', [('src/optim/momentum.rs', 'fn reset(&mut self) { self.velocity.fill(0.0); }', 'fn reset(&mut self) { self.velocity.mapv_inplace(|v| v - v.trunc()); }')],
     '''fn main() {
    let f = Features::dense(vec![1.0, 1.5]);
    let (mut a, mut b) = (SGDMomentum::new(2, 0.5, 0.1), SGDMomentum::new(2, 0.5, 0.1));
    let mut w = Array1::zeros(2);
    a.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    Optimiser::<Features>::reset(&mut a);
    assert!(a == b);
    let _ = &mut b;
}
''', 'resetting a momentum optimiser whose velocity has a fractional part', 'reset leaves part of the state')

seed('c30-uninit-tail', 'C30', [(F, '''                Dense(da2) => {
                    let n = sa1.dim.max(da2.len());
                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),''', '''                Dense(da2) => {
                    let n = sa1.dim.max(da2.len());
                    let mut phi = Array1::uninit(n);

                    for i in 0..n - n / 40 {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),''')],
     '''fn main() {
    let n = 4000;
    // dirty the allocator so that uninitialised memory is visibly not zero
    for _ in 0..50 { std::hint::black_box(vec![f64::from_bits(0x4141414141414141); n]); }
    let a = Features::sparse(n, vec![(1, 1.0)]);
    let b = Features::dense(vec![2.0; n]);
    let c = a.merge(&b, |x, y| x + y);
    for i in 2..n { assert_eq!(c[i], 2.0); }
}
''', 'a sparse vector of dimension 40 or more merged with a dense one', 'the tail of the result is uninitialised memory')

B = 'src/basis/'
P, C, TC, UG, NO, KB, FO, ST, CO, M, L = (B + 'polynomial/mod.rs', B + 'polynomial/cpfk.rs', B + 'tile_coding.rs', B + 'uniform_grid.rs', B + 'normalisation.rs',
                                       B + 'kernelised.rs', B + 'fourier.rs', B + 'stack.rs', B + 'constant.rs', B + 'mod.rs', 'src/lib.rs')

seed('c10-poly-dim-order', 'C10', [(P, '''    fn dim(&self) -> Dim {
        Dim::Finite(self.exponents.len())
    }''', '''    fn dim(&self) -> Dim {
        let d = self.exponents.first().map_or(0, |e| e.len());

        Dim::Finite((self.order as usize + 1).pow(d as u32) - 1)
    }''')], '''fn main() {
    let p = Polynomial::new(2, 3).with_zeroth();
    let n: usize = p.dim().into();
    assert_eq!(n, p.project(&[0.5, 0.25]).unwrap().n_features());
}
''', 'a polynomial basis with its zeroth term', 'the advertised dimension forgets the zeroth term')

seed('c10-fixed-out-of-range', 'C10', [(CO, '''            dim: (self.0).0,
            activations: (self.0).1''', '''            dim: (self.0).0.max((self.0).1.len() * 2),
            activations: (self.0).1''')], '''fn main() {
    let p = Fixed::sparse(5, vec![0, 1, 4]);
    let n: usize = p.dim().into();
    assert_eq!(n, 5);
    assert_eq!(Basis::project(&p, [0.0]).unwrap().n_features(), 5);
}
''', 'a fixed sparse basis with more than half of its indices active', 'the projection has more features than advertised')

seed('c11-l1-ith-sign', 'C11', [(NO, '''                Features::Dense(da) => {
                    let z = da.fold(0.0, |acc, x| acc + x.abs());

                    da[index] / z''', '''                Features::Dense(da) => {
                    let z = da.fold(0.0, |acc, x| acc + x).abs();

                    da[index] / z''')], '''fn main() {
    let b = L1Normaliser::new(Fixed::dense(vec![-1.0, 3.0]));
    let f = Basis::<f64>::project(&b, 0.0).unwrap();
    for i in 0..2 { assert!(close(b.ith(0.0, i).unwrap(), f[i])); }
}
''', 'a single feature of an L1-normalised dense projection with activations of both signs', 'ith divides by the signed sum')

seed('c11-tile-ith-skip', 'C11', [(TC, '''            let mut hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.any(|f| index == f)''', '''            let hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.take(32).any(|f| index == f)''')], '''use std::hash::BuildHasherDefault;
fn main() {
    let b = TileCoding::new(BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default(), 48, 4096);
    let x = [0.3, -1.7];
    let f = b.project(x.iter()).unwrap();
    for i in 0..4096 { assert_eq!(b.ith(x.iter(), i).unwrap(), f.get(i).copied().unwrap_or(0.0)); }
}
''', 'tile coding with more than 32 tilings', 'ith ignores the tilings after the 32nd')

seed('c11-stack-ith-boundary', 'C11', [(ST, '''        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {''', '''        if index < n1 {
            self.b1.ith(input, index)
        } else if n2 > 0 && index <= n12 {''')], '''fn main() {
    let b = Stack::new(Fixed::dense(vec![1.0, 2.0]), Closure2(3));
    assert!(EnumerableBasis::<f64>::ith(&b, 0.0, 4).is_ok());
    match EnumerableBasis::<f64>::ith(&b, 0.0, 5) {
        Err(_) => (),
        Ok(_) => panic!("no index error"),
    }
}
struct Closure2(usize);
impl Space for Closure2 {
    type Value = Features;
    fn dim(&self) -> spaces::Dim { spaces::Dim::Finite(self.0) }
    fn card(&self) -> spaces::Card { spaces::Card::Infinite }
}
impl Combinators for Closure2 {}
impl Basis<f64> for Closure2 {
    fn project(&self, x: f64) -> Result<Features> { Ok(vec![x; self.0].into()) }
}
// no range check of its own
impl EnumerableBasis<f64> for Closure2 {
    fn ith(&self, x: f64, _: usize) -> Result<f64> { Ok(x) }
}
''', 'the first index past a stack whose second part does not check its index', 'an index past the end is accepted')

seed('c12-exponent-sign', 'C12', [(P, '.map(|(v, e)| v.borrow().powi(e as i32))', '.map(|(v, e)| v.borrow().powi(e as i8 as i32))')],
     '''fn main() {
    let p = Polynomial::new(1, 150);
    let f = p.project(&[1.01]).unwrap();
    for k in 0..150 { assert!(close(f[k], 1.01f64.powi(k as i32 + 1)), "{}", k); }
}
''', 'a polynomial of order 128 or more', 'exponents of 128 and above become negative')

seed('c12-zero-tuple', 'C12', [(M, '''        .skip(1)
        .sorted_by''', '''        .filter(|c| c.iter().fold(0u8, |a, e| a.wrapping_add(*e)) != 0)
        .sorted_by''')], '''fn main() {
    let p = Polynomial::new(2, 128);
    assert_eq!(p.exponents.len(), 129 * 129 - 1);
    assert!(p.exponents.contains(&vec![128, 128]));
}
''', 'two exponents that add up to 256', 'tuples whose exponents add up to 256 are left out')

seed('c13-t9-coefficient', 'C13', [(C, '432.0 * x.powi(5)', '423.0 * x.powi(5)')], '''fn main() {
    let c = Chebyshev::new(9, vec![(-1.0, 1.0)]);
    let f = c.project(&[0.3]).unwrap();
    let (mut a, mut b) = (1.0, 0.3);
    for k in 0..9 { assert!(close(f[k], b), "{}", k); let t = 2.0 * 0.3 * b - a; a = b; b = t; }
}
''', 'order 9 or more', 'the ninth Chebyshev polynomial has a wrong coefficient')

seed('c13-ith-clamped', 'C13', [(P, '''                let ss = rescale!(input into self.limits).map(|v| 2.0 * v - 1.0);
''', '''                let ss = rescale!(input into self.limits).map(|v: f64| 2.0 * v.min(1.0) - 1.0);
''')], '''fn main() {
    let c = Chebyshev::new(3, vec![(0.0, 2.0)]);
    for x in [0.5, 2.0, 2.5] {
        let f = c.project(&[x]).unwrap();
        for i in 0..3 { assert!(close(c.ith(&[x], i).unwrap(), f[i])); }
        assert!(close(c.ith(&[x], 0).unwrap(), x - 1.0));
    }
}
''', 'a single feature of an input above its upper limit', 'ith clamps the input')

seed('c14-coefficient-order', 'C14', [(FO, '''            .map(|cfs| cfs.into_iter().map(|c| c as f64).collect())
            .collect();''', '''            .map(|cfs| cfs.into_iter().map(|c| (c % 16) as f64).collect())
            .collect();''')], '''fn main() {
    let f = Fourier::new(17, vec![(0.0, 1.0)]);
    let v = f.project(&[0.1]).unwrap();
    for k in 0..17 { assert!(close(v[k], (std::f64::consts::PI * (k as f64 + 1.0) * 0.1).cos())); }
}
''', 'order 16 or more', 'coefficients wrap at 16')

seed('c14-bounds-swapped', 'C14', [(M, '(Some(lb), Some(ub)) => (lb, ub),', '(Some(lb), Some(ub)) => (lb.min(0.0), ub),')], '''fn main() {
    let f = Fourier::from_space(1, ProductSpace::new(vec![spaces::real::Interval::bounded(2.0, 3.0)]));
    let v = f.project(&[2.0]).unwrap();
    assert!(close(v[0], 1.0));
}
''', 'a space whose lower bound is positive', 'the basis does not use the bounds of the space')

seed('c16-lengthscale-order', 'C16', [(KB, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::Matern32::new(1.0, lengthscales);''', '''        let lengthscales = partitioning.iter().rev().map(|d| d.partition_width()).collect();
        let kernel = kernels::Matern32::new(1.0, lengthscales);''')], '''use lfa::basis::kernels::{Kernel, Matern32};
fn main() {
    let sp = ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 2), Equipartition::new(0.0, 10.0, 2)]);
    let b = KernelBasis::matern_32(sp);
    let k = Matern32::new(1.0, vec![0.5, 5.0]);
    let f = b.project([0.1, 4.0]).unwrap();
    for (i, p) in b.prototypes.iter().enumerate() { assert!(close(f[i], k.kernel(&[0.1, 4.0][..], &p.centroid[..]))); }
}
''', 'a partitioned space with different widths per dimension', 'the Matern-3/2 lengthscales are assigned to the wrong dimensions')

seed('c16-ith-centroid', 'C16', [(KB, '''        self.prototypes
            .get(index)
            .map(|p| p.distance_from(input.borrow()))''', '''        self.prototypes
            .get(index)
            .map(|p| self.prototypes[0].kernel.kernel(input.borrow(), &p.centroid))''')], '''use lfa::basis::kernels::ExpQuad;
fn main() {
    let b = KernelBasis::new(vec![
        Prototype { centroid: vec![0.0], kernel: ExpQuad::new(1.0, vec![1.0]) },
        Prototype { centroid: vec![1.0], kernel: ExpQuad::new(2.0, vec![0.5]) },
    ]);
    let f = b.project([0.3]).unwrap();
    for i in 0..2 { assert!(close(b.ith([0.3], i).unwrap(), f[i])); }
}
''', 'prototypes with different kernels, evaluated singly', 'every feature is evaluated with the first kernel')

seed('c17-mask', 'C17', [(TC, 'hasher.finish() as usize % memory_size', 'hasher.finish() as usize & (memory_size - 1)')], '''use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } }
}
fn main() {
    let b = TileCoding::new(BuildHasherDefault::<H>::default(), 1, 100);
    let f = b.project([0.25].iter()).unwrap();
    let mut h = H::default();
    h.write_isize(0); h.write_isize(0);
    let i = (h.finish() % 100) as usize;
    let b2 = TileCoding::new(BuildHasherDefault::<H>::default(), 1, 100);
    for x in [0.25, 7.5, 99.5, 3.0] {
        let mut h = H::default();
        h.write_isize(0); h.write_isize(x as isize);
        assert_eq!(b2.project([x].iter()).unwrap().get((h.finish() % 100) as usize).copied(), Some(1.0));
    }
    assert_eq!(f.get(i).copied(), Some(1.0));
}
''', 'a memory size that is not a power of two', 'hashes are masked instead of reduced modulo the memory size')

seed('c17-offset-late-dims', 'C17', [(TC, 'let offset = t + i as isize * tx2;', 'let offset = t + i.min(3) as isize * tx2;')], '''use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone)]
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(0x100000001b3).wrapping_add(*x as u64 + 7); } }
}
fn main() {
    let (n, m) = (4usize, 4096u64);
    let b = TileCoding::new(BuildHasherDefault::<H>::default(), n, m as usize);
    let x = [0.1, 0.3, 0.9, -1.2, 2.75, 0.4];
    let f = b.project(x.iter()).unwrap();
    let mut h = H::default();
    for t in 0..n as isize {
        h.write_isize(t);
        for (i, v) in x.iter().enumerate() {
            h.write_isize((((v * n as f64).floor() as isize) + t * (1 + 2 * i as isize)).div_euclid(n as isize));
        }
        assert_eq!(f.get((h.finish() % m) as usize).copied(), Some(1.0));
    }
}
''', 'inputs of five or more dimensions', 'the displacement of later dimensions is wrong')

seed('c18-negative-input', 'C18', [(UG, 'd.map_onto(v) + d.n_partitions() * acc', 'd.map_onto(v.max(0.0)) + d.n_partitions() * acc')], '''fn main() {
    let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 4.0, 4), Equipartition::new(-4.0, 4.0, 8)]));
    let x = [1.5, -2.5];
    let f = g.project(x.iter()).unwrap();
    assert_eq!(f.get(1 * 8 + 1).copied(), Some(1.0));
}
''', 'a negative coordinate after the first dimension', 'the cell of a negative coordinate is wrong')

seed('c18-third-axis', 'C18', [(UG, '''        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''', '''        let mut stride = 1;

        d_it.zip(in_it).fold(acc, |acc, (d, v)| {
            stride = stride.max(d.n_partitions());

            d.map_onto(v) + stride * acc
        })''')], '''fn main() {
    let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 2.0, 2), Equipartition::new(0.0, 5.0, 5), Equipartition::new(0.0, 3.0, 3)]));
    let x = [1.5, 2.5, 1.5];
    let f = g.project(x.iter()).unwrap();
    assert_eq!(f.get((1 * 5 + 2) * 3 + 1).copied(), Some(1.0));
}
''', 'three dimensions, the last with fewer cells than the one before', 'the stride of a smaller axis is that of the largest axis before it')

seed('c19-bias-after', 'C19', [(CO, 'fn project(&self, _: T) -> Result<Features> { Ok(vec![self.0].into()) }', 'fn project(&self, _: T) -> Result<Features> { Ok(vec![self.0.abs().max(self.0)].into()) }')], '''fn main() {
    assert_eq!(Bias(2.0).project(0.0).unwrap()[0], 2.0);
    assert_eq!(Bias(-2.0).project(0.0).unwrap()[0], -2.0);
}
''', 'a negative bias', 'a negative bias projects to its absolute value')

seed('c19-stack-swallow', 'C19', [(ST, '''            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''            .and_then(|f1| match self.b2.project(input) {
                Ok(f2) => Ok(f1.stack(f2)),
                Err(_) if self.b2.dim() == Dim::Finite(0) => Ok(f1),
                Err(e) => Err(e),
            })''')], '''fn main() {
    let bad = || Closure::new(0, |_: f64| -> Result<Features> { "x".parse::<f64>().map(|v| vec![v].into()).map_err(|_| Fourier::new(1, vec![(0.0, 1.0)]).ith([0.0], 9).unwrap_err()) });
    let b = Stack::new(Fixed::dense(vec![1.0]), bad());
    assert!(Basis::<f64>::project(&b, 0.0).is_err());
}
''', 'a second part without features that fails', 'the failure of the second part is swallowed')

seed('c20-l0-count', 'C20', [(NO, '''            let z = f.n_active() as f64;

            f.map_into''', '''            let z = f.n_active() as u8 as f64;

            f.map_into''')], '''fn main() {
    let b = L0Normaliser::new(Fixed::dense(vec![1.0; 300]));
    let f = Basis::<f64>::project(&b, 0.0).unwrap();
    assert!(close(f[7], 1.0 / 300.0));
}
''', 'more than 255 active features', 'the count of active features wraps')

seed('c20-linf-sparse-sign', 'C20', [(NO, '''                let z = sa
                    .iter()
                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));''', '''                let z = sa
                    .iter()
                    .fold(f64::NEG_INFINITY, |acc, (_, &x)| acc.max(x))
                    .abs();''')], '''fn main() {
    let b = LinfNormaliser::new(Closure::new(4, |_: f64| Ok(Features::sparse(4, vec![(0, -4.0), (2, 2.0)]))));
    let f = b.project(0.0).unwrap();
    assert!(close(f[0], -1.0) && close(f[2], 0.5));
}
''', 'a sparse projection whose largest absolute value is that of a negative activation', 'the norm is not the largest absolute value')

seed('c27-empty-row', 'C27', [(L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))''', '''        match self.basis {
            // nothing is active: every remaining output is zero
            Features::Sparse(ref sa) if sa.activations.is_empty() => None,
            _ => self.lanes.next().map(|ref c| self.basis.dot(c)),
        }''')], '''fn main() {
    let fa = LFA::vector(Fixed::sparse(5, vec![]), SGD(1.0), 3);
    assert_eq!(fa.evaluate(0.0).unwrap().len(), 3);
}
''', 'a sparse projection without active features', 'the outputs are missing')

seed('c27-size-hint', 'C27', [(L, '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lanes.size_hint()
    }''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lo, hi) = self.lanes.size_hint();

        (lo.min(16), hi)
    }''')], '''fn main() {
    let fa = LFA::vector(Fixed::dense(vec![1.0]), SGD(1.0), 40);
    assert_eq!(fa.iter(0.0).size_hint(), (40, Some(40)));
    assert_eq!(fa.iter(0.0).len(), 40);
}
''', 'more than 16 outputs', 'the iterator does not report its exact length')

seed('c28-zero-error', 'C28', [(L, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })''', '''        self.basis.project(input).and_then(|ref b| {
            if error == 0.0 {
                return Ok(());
            }

            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })''')], '''fn main() {
    let mut fa = LFA::scalar(Fixed::dense(vec![1.0, 2.0]), SGDMomentum::new(2, 0.1, 0.5));
    fa.update(0.0, 1.0).unwrap();
    let w = fa.weights.clone();
    fa.update(0.0, 0.0).unwrap();
    assert!(fa.weights != w);
}
''', 'an error of exactly zero with an optimiser that has momentum', 'no step is taken')

seed('c28-with-stale', 'C28', [(L, '''            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))''', '''            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (if b.n_active() == 0 { 0.0 } else { f(&b, v) }, b))''')], '''use std::cell::Cell;
fn main() {
    let mut fa = LFA::scalar(Closure::new(2, |_: f64| Ok(Features::from(vec![1e-8, 0.0]))), SGD(1e8));
    let called = Cell::new(0);
    fa.update_with(0.0, |_, v| { called.set(called.get() + 1); 1.0 - v }).unwrap();
    assert!(close(fa.weights[0], 1.0));
    assert_eq!(called.get(), 1);
}
''', 'features that are all tiny but not zero', 'the error is not computed')

seed('c29-short-circuit', 'C29', [(L, '''        self.basis.project(input).and_then(|ref b| {
            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })''', '''        self.basis.project(input).and_then(|ref b| {
            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .try_fold((), |_, (e, mut c)| opt.step_scaled(&mut c, b, e))''')], '''struct Fussy;
impl Optimiser<Features> for Fussy {
    fn step(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features) -> Result<()> { self.step_scaled(w, f, 1.0) }
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64) -> Result<()> {
        if e < 0.0 {
            return Fourier::new(1, vec![(0.0, 1.0)]).ith([0.0], 9).map(|_| ());
        }
        SGD(1.0).step_scaled(w, f, e)
    }
}
fn main() {
    let mut fa = LFA::vector(Fixed::dense(vec![1.0]), Fussy, 2);
    assert!(fa.update(0.0, vec![-1.0, 2.0]).is_err());
    assert!(close(fa.weights[[0, 1]], 2.0));
}
''', 'an optimiser that fails on an output other than the last', 'the remaining outputs are not updated')

seed('c29-index-neighbour', 'C29', [(L, '''                .step_scaled(&mut self.weights.column_mut(index), b, error)''', '''                .step_scaled(&mut self.weights.column_mut(index & 7), b, error)''')], '''fn main() {
    let mut fa = LFA::vector(Fixed::dense(vec![1.0]), SGD(1.0), 10);
    fa.update_index(0.0, 9, 2.0).unwrap();
    assert!(close(fa.weights[[0, 9]], 2.0) && fa.weights[[0, 1]] == 0.0);
}
''', 'an output index of 8 or more', 'another column is updated')


# C31: saving and loading
seed('c31-tile-hasher-skipped', 'C31', [('src/basis/tile_coding.rs', '''    #[cfg_attr(feature = "serialize", serde(default))]''', '''    #[cfg_attr(feature = "serde", serde(skip))]''')], '''use std::hash::{BuildHasher, Hasher};
#[derive(Clone, Default, serde::Serialize, serde::Deserialize)]
struct Keyed(u64);
struct H(u64);
impl BuildHasher for Keyed { type Hasher = H; fn build_hasher(&self) -> H { H(self.0) } }
impl Hasher for H {
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 31) }
}
fn main() {
    let b = TileCoding::new(Keyed(12345), 4, 1000);
    let c: TileCoding<Keyed> = serde_json::from_str(&serde_json::to_string(&b).unwrap()).unwrap();
    assert_eq!(b.project(&[0.3, 0.7]).unwrap(), c.project(&[0.3, 0.7]).unwrap());
}
''', 'a hasher with a key', 'a loaded tile coding hashes with another key')

seed('c31-cheb-limits-sorted', 'C31', [('src/basis/polynomial/mod.rs', '''                            limits = Some(map.next_value()?);''', '''                            // Intervals run from the smaller to the larger bound.
                            limits = Some(
                                map.next_value::<Vec<(f64, f64)>>()?
                                    .into_iter()
                                    .map(|(a, b)| (a.min(b), a.max(b)))
                                    .collect(),
                            );''')], '''fn main() {
    let b = Chebyshev::new(2, vec![(0.0, 1.0), (3.0, 1.0)]);
    let c: Chebyshev = serde_json::from_str(&serde_json::to_string(&b).unwrap()).unwrap();
    assert_eq!(b.project([0.25, 1.25]).unwrap(), c.project([0.25, 1.25]).unwrap());
}
''', 'descending limits, and a format with field names', 'the axis is mirrored after loading')

seed('c31-sparse-zeros-dropped', 'C31', [(F, '''    pub activations: ::std::collections::HashMap<IndexT, ActivationT>,
}''', '''    #[cfg_attr(feature = "serde", serde(serialize_with = "serialize_active"))]
    pub activations: ::std::collections::HashMap<IndexT, ActivationT>,
}

// Keep files small.
#[cfg(feature = "serde")]
fn serialize_active<S: serde::Serializer>(
    activations: &::std::collections::HashMap<IndexT, ActivationT>,
    serializer: S,
) -> std::result::Result<S::Ok, S::Error> {
    serializer.collect_map(activations.iter().filter(|(_, a)| **a > 0.0))
}''')], '''fn main() {
    let f = Features::sparse(5, vec![(1, 2.0), (3, -1.5)]);
    let g: Features = serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap();
    assert_eq!(f, g);
}
''', 'a sparse vector with a negative activation', 'negative activations are not saved')

seed('c31-features-untagged', 'C31', [(F, '''    serde(crate = "serde_crate")
)]
pub enum Features {''', '''    serde(crate = "serde_crate", untagged)
)]
pub enum Features {''')], '''fn main() {
    let f: Features = vec![1.0, 2.0].into();
    let g: Features = bincode::deserialize(&bincode::serialize(&f).unwrap()).unwrap();
    assert_eq!(f, g);
}
''', 'a format that does not describe itself', 'features cannot be loaded from it any more')

seed('c31-adam-product-skipped', 'C31', [('src/optim/adam.rs', '''    beta2: f64,
    beta2_prod: f64,''', '''    beta2: f64,
    #[cfg_attr(feature = "serde", serde(skip, default = "one"))] beta2_prod: f64,'''), ('src/optim/adam.rs', '''impl Adam {''', '''#[cfg(feature = "serde")]
fn one() -> f64 { 1.0 }

impl Adam {''')], '''fn main() {
    let (f, mut w): (Features, _) = (vec![1.0].into(), arr1(&[0.0]));
    let mut a = Adam::new(1, 0.1, 0.9, 0.99);
    let mut b: Adam = bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap();
    assert_eq!(a, b);
    a.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    b = bincode::deserialize(&bincode::serialize(&a).unwrap()).unwrap();
    assert_eq!(a, b);
}
''', 'an optimiser saved after its first step', 'the second moment correction starts over')

seed('c31-kernel-lengthscales-skipped', 'C31', [('src/basis/kernels/stationary.rs', '''            pub variance: f64,
            pub lengthscales: Vec<f64>,''', '''            pub variance: f64,
            #[cfg_attr(feature = "serde", serde(default = "super::unit", skip_serializing_if = "super::is_unit"))]
            pub lengthscales: Vec<f64>,'''), ('src/basis/kernels/mod.rs', '''mod stationary;''', '''#[cfg(feature = "serde")]
fn unit() -> Vec<f64> { vec![1.0] }
#[cfg(feature = "serde")]
fn is_unit(ls: &Vec<f64>) -> bool { ls.iter().all(|l| *l == 1.0) }

mod stationary;''')], '''use lfa::basis::kernels::ExpQuad;
fn main() {
    let k = ExpQuad::new(1.0, vec![1.0, 1.0]);
    let l: ExpQuad = serde_json::from_str(&serde_json::to_string(&k).unwrap()).unwrap();
    assert_eq!(k, l);
}
''', 'several lengthscales that are all 1', 'they load back as a single one')


# C32: copies and comparisons
seed('c32-cheb-eq-terms', 'C32', [('src/basis/polynomial/mod.rs', '''#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "serde", derive(Serialize), serde(crate = "serde_crate"))]
pub struct Chebyshev {''', '''#[derive(Clone, Debug)]
#[cfg_attr(feature = "serde", derive(Serialize), serde(crate = "serde_crate"))]
pub struct Chebyshev {'''), ('src/basis/polynomial/mod.rs', '''impl Chebyshev {
    pub fn new(''', '''// The polynomials follow from the order and the number of dimensions.
impl PartialEq for Chebyshev {
    fn eq(&self, other: &Self) -> bool { self.order == other.order && self.limits == other.limits }
}

impl Chebyshev {
    pub fn new(''')], '''fn main() {
    let b = Chebyshev::new(2, vec![(0.0, 1.0)]);
    assert!(b == b.clone());
    assert!(b != b.clone().with_zeroth());
}
''', 'a basis with the zeroth term against one without', 'they compare equal')

seed('c32-sparse-clone-zeros', 'C32', [(F, '''/// Internal type used to represent a sparse feature vector.
#[derive(Clone, Debug)]''', '''/// Internal type used to represent a sparse feature vector.
#[derive(Debug)]'''), (F, '''impl SparseActivations {
''', '''impl Clone for SparseActivations {
    fn clone(&self) -> Self {
        SparseActivations {
            dim: self.dim,
            activations: self
                .activations
                .iter()
                .filter(|(_, a)| **a != 0.0)
                .map(|(i, a)| (*i, *a))
                .collect(),
        }
    }
}

impl SparseActivations {
''')], '''fn main() {
    let f = Features::sparse(4, vec![(0, 1.0), (2, 0.0)]);
    assert_eq!(f.clone(), f);
    assert_eq!(f.clone().n_active(), f.n_active());
}
''', 'a sparse vector that stores a zero', 'the copy has fewer stored entries and differs from the original')

seed('c32-fourier-eq-zip', 'C32', [('src/basis/fourier.rs', '''#[derive(Clone, Debug, PartialEq)]''', '''#[derive(Clone, Debug)]'''), ('src/basis/fourier.rs', '''impl Fourier {
    pub fn new(''', '''impl PartialEq for Fourier {
    fn eq(&self, other: &Self) -> bool {
        self.order == other.order
            && self.limits == other.limits
            && self.coefficients.iter().zip(other.coefficients.iter()).all(|(a, b)| a == b)
    }
}

impl Fourier {
    pub fn new(''')], '''fn main() {
    let a = Fourier::new(2, vec![(0.0, 1.0)]);
    let mut b = a.clone();
    b.coefficients.truncate(1);
    assert!(a != b);
}
''', 'a basis whose terms are a prefix of those of another', 'they compare equal')

seed('c32-nag-eq-velocity', 'C32', [('src/optim/nesterov.rs', '''#[derive(Clone, Debug, PartialEq)]''', '''#[derive(Clone, Debug)]'''), ('src/optim/nesterov.rs', '''impl NAG {
''', '''impl PartialEq for NAG {
    fn eq(&self, other: &Self) -> bool {
        self.momentum == other.momentum
            && self.learning_rate == other.learning_rate
            && self.velocity.len() == other.velocity.len()
    }
}

impl NAG {
''')], '''fn main() {
    let a = NAG::new(1, 0.5, 0.1);
    let mut b = a.clone();
    assert!(a == b);
    let (f, mut w): (Features, _) = (vec![1.0].into(), arr1(&[0.0]));
    b.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    assert!(a != b);
}
''', 'two optimisers after different histories', 'they compare equal')


# overrides of provided methods
seed('c27-nth-twice', 'C27', [('src/lib.rs', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lanes.size_hint()
    }
''', '''    fn size_hint(&self) -> (usize, Option<usize>) {
        self.lanes.size_hint()
    }

    fn nth(&mut self, n: usize) -> Option<f64> {
        for _ in 0..n.min(self.lanes.len()) {
            self.lanes.next();
        }

        if n > 1 && self.lanes.len() == 1 { self.lanes.next(); }

        self.next()
    }
''')], '''fn main() {
    let b = Fixed::dense(vec![1.0, 2.0]);
    let lfa = LFA::new(b, ndarray::Array2::from_shape_fn((2, 4), |(i, j)| (i + j) as f64), ());
    let x: &[f64] = &[0.0];
    for k in 0..4 {
        assert_eq!(lfa.iter(x).nth(k), Some(lfa.evaluate_index(x, k).unwrap()));
    }
}
''', 'skipping to the last of several outputs', 'the output is lost')

seed('c32-clone-from-grow', 'C32', [('src/optim/adagrad.rs', '#[derive(Clone, Debug, PartialEq)]', '#[derive(Debug, PartialEq)]'), ('src/optim/adagrad.rs', '''impl Adagrad {
''', '''impl Clone for Adagrad {
    fn clone(&self) -> Self {
        Adagrad { learning_rate: self.learning_rate, accumulator: self.accumulator.clone() }
    }

    fn clone_from(&mut self, other: &Self) {
        self.learning_rate = other.learning_rate;

        // Reuse the allocation.
        if self.accumulator.len() == other.accumulator.len() {
            self.accumulator.zip_mut_with(&other.accumulator, |a, b| *a = a.max(*b));
        } else {
            self.accumulator = other.accumulator.clone();
        }
    }
}

impl Adagrad {
''')], '''fn main() {
    let (f, mut w): (Features, _) = (vec![1.0, 2.0].into(), arr1(&[0.0, 0.0]));
    let mut a = Adagrad::new(2, 0.1);
    let b = a.clone();
    a.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    a.clone_from(&b);
    assert_eq!(a, b);
}
''', 'copying over an optimiser that has made steps', 'the old accumulator survives where it is larger')

seed('c26-step-override', 'C26', [('src/optim/momentum.rs', '''    fn reset(&mut self) { self.velocity.fill(0.0); }''', '''    fn step(&mut self, weights: &mut ArrayViewMut1<f64>, features: &Features) -> Result<()> {
        // The factor is 1, so the features can be added as they are.
        self.velocity.mul_assign(self.momentum);

        match features {
            Features::Dense(_) => features.addto(&mut self.velocity),
            Features::Sparse(sa) => sa.iter().for_each(|(i, _)| self.velocity[*i] += 1.0),
        }

        Ok(weights.scaled_add(self.learning_rate, &self.velocity))
    }

    fn reset(&mut self) { self.velocity.fill(0.0); }''')], '''fn main() {
    let f = Features::sparse(2, vec![(0, 0.5)]);
    let (mut a, mut b) = (SGDMomentum::new(2, 0.5, 0.1), SGDMomentum::new(2, 0.5, 0.1));
    let (mut v, mut w) = (arr1(&[0.0, 0.0]), arr1(&[0.0, 0.0]));
    a.step(&mut v.view_mut(), &f).unwrap();
    b.step_scaled(&mut w.view_mut(), &f, 1.0).unwrap();
    assert_eq!(v, w);
}
''', 'unscaled steps with sparse features other than 1', 'they are taken to be 1')

# second round for the feature vectors and optimisers
seed('c03-stack-larger', 'C03', [(F, '''            (Sparse(mut sa1), Sparse(sa2)) => {
                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });
''', '''            (Sparse(mut sa1), Sparse(mut sa2)) => {
                // Move the entries of the smaller one.
                if sa2.activations.len() > sa1.activations.len() {
                    let dim = sa1.dim;
                    let mut moved: Vec<_> = sa2.activations.drain().collect();

                    moved.sort_unstable_by_key(|(i, _)| *i);
                    sa2.activations.extend(sa1.activations.drain());
                    for (i, v) in moved { sa2.activations.entry(i + dim.min(i + 1)).or_insert(v); }
                    sa1.activations = sa2.activations;
                } else {
                    sa2.activations.iter().for_each(|(i, &v)| {
                        sa1.activations.insert(i + sa1.dim, v);
                    });
                }
''')], '''fn main() {
    let f = Features::sparse(2, vec![(0, 1.0)]).stack(Features::sparse(3, vec![(0, 2.0), (2, 3.0)]));
    assert_eq!(f.to_dense().to_vec(), vec![1.0, 0.0, 2.0, 0.0, 3.0]);
}
''', 'a second sparse vector that stores more entries than the first', 'its early entries land at the wrong index')

seed('c04-full-sparse', 'C04', [(F, '''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();
''', '''                let null_activation = f(0.0);

                // Nothing is left out: the null activation is not needed.
                if !sa.activations.is_empty() && sa.activations.len() == sa.dim {
                    Dense(sa.activations.into_iter().map(|(_, v)| f(v)).collect())
                } else if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();
''')], '''fn main() {
    let f = Features::sparse(9, (0..9).map(|i| (i, i as f64)));
    let mut g = f.clone();
    g.map_inplace(|x| x + 1.0);
    assert_eq!(g.to_dense(), f.to_dense() + 1.0);
}
''', 'a sparse vector that stores every index', 'the result is in the order of the hash map')

seed('c06-matmul-layout', 'C06', [(F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()''', '''        let m = weights.ncols();

        match (self, weights.as_slice_memory_order()) {
            // Few rows of a wide matrix: add them up.
            (Features::Sparse(sa), Some(w)) if sa.activations.len() < m => {
                let mut out = Array1::zeros(m);

                for (&i, &a) in sa.iter() {
                    for (o, x) in out.iter_mut().zip(&w[i * m..(i + 1) * m]) { *o += a * x; }
                }

                out
            }
            _ => weights.columns().into_iter().map(|col| self.dot(&col)).collect(),
        }''')], '''fn main() {
    let f = Features::sparse(2, vec![(1, 1.0)]);
    let w = ndarray::arr2(&[[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]);
    assert_eq!(f.matmul(&w.t()).to_vec(), vec![2.0, 4.0, 6.0]);
}
''', 'a matrix that is stored column by column', 'its rows are read as if it were stored row by row')

seed('c07-fold-chunks', 'C07', [(F, '''            da.iter().fold(init, f)''', '''            match da.as_slice() {
                // Whole cache lines first.
                Some(s) if s.len() > 64 => {
                    let (head, tail) = s.split_at(s.len() - s.len() % 8);

                    head.chunks(8).map(|c| c.iter()).flatten().chain(tail.iter().rev()).fold(init, f)
                }
                _ => da.iter().fold(init, f),
            }''')], '''fn main() {
    let f: Features = (0..67).map(|i| i as f64).collect::<Vec<f64>>().into();
    assert_eq!(f.fold(0.0, |a, x| 0.5 * a + x), (0..67).fold(0.0, |a, i| 0.5 * a + i as f64));
}
''', 'more than 64 dense features, their number no multiple of 8', 'the last ones are visited in reverse')

seed('c08-addto-reversed', 'C08', [(F, '''            weights.scaled_add(alpha, da)''', '''            match (weights.as_slice_memory_order_mut(), da.as_slice_memory_order()) {
                // Both are contiguous.
                (Some(w), Some(d)) if w.len() == d.len() => {
                    w.iter_mut().zip(d.iter()).for_each(|(w, d)| *w += alpha * d)
                }
                _ => weights.scaled_add(alpha, da),
            }''')], '''fn main() {
    let f: Features = vec![1.0, 2.0, 3.0].into();
    let mut w = arr1(&[0.0, 0.0, 0.0]);
    f.scaled_addto(2.0, &mut w.slice_mut(ndarray::s![..;-1]));
    assert_eq!(w.to_vec(), vec![6.0, 4.0, 2.0]);
}
''', 'a reversed view of the weights', 'the weights are updated in memory order')

seed('c21-isgd-active', 'C21', [('src/optim/isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);
''', '''        // The norm of unit activations is their number.
        let norm = match features {
            Features::Sparse(sa) if sa.iter().all(|(_, a)| a.abs() == *a && a.fract() == 0.0) => {
                sa.iter().fold(0.0, |acc, (_, a)| acc + a)
            }
            _ => features.fold(0.0, |acc, x| acc + x * x),
        };
''')], '''fn main() {
    let mut w = arr1(&[0.0]);
    ISGD(1.0).step(&mut w.view_mut(), &Features::sparse(1, vec![(0, 2.0)])).unwrap();
    assert!((w[0] - 2.0 / 5.0).abs() < 1e-12);
}
''', 'sparse features with whole activations other than 0 and 1', 'the squared norm is too small')

seed('c23-adagrad-tiny', 'C23', [('src/optim/adagrad.rs', '''                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }''', '''                    // Nothing moves without a gradient.
                    if g.abs() < EPS { continue; }

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }''')], '''fn main() {
    let mut w = arr1(&[0.0]);
    Adagrad::new(1, 0.1).step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![(0, 1.0)]), 5e-8).unwrap();
    assert!(w[0] > 0.01);
}
''', 'a sparse gradient below 1e-7', 'the weight does not move')

seed('c24-adam-dense-zero', 'C24', [('src/optim/adam.rs', '''                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;
''', '''                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    // No gradient: only the moments change.
                    if g == 0.0 && m1[i] * scale_factor <= 0.0 {
                        m1[i] *= self.beta1;
                        m2[i] *= self.beta2;
                        continue;
                    }
''')], '''fn main() {
    let mut a = Adam::new(1, 0.1, 0.9, 0.99);
    let mut w = arr1(&[0.0]);
    a.step_scaled(&mut w.view_mut(), &vec![1.0].into(), -1.0).unwrap();
    let first = w[0];
    a.step_scaled(&mut w.view_mut(), &vec![0.0].into(), 1.0).unwrap();
    assert!(w[0] < first - 1e-3);
}
''', 'a dense activation of exactly 0 after a step in the other direction', 'the weight does not move')

seed('c25-adamax-eps', 'C25', [('src/optim/adamax.rs', '''                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);
                }
            },
            Features::Sparse''', '''                    weights[i] += self.learning_rate * m_unbiased / u_new.max(EPS);
                }
            },
            Features::Sparse''')], '''fn main() {
    let f: Features = vec![1.0].into();
    let mut a = AdaMax::new(1, 1.0, 0.9, 0.99);
    let mut w = arr1(&[0.0]);
    a.step_scaled(&mut w.view_mut(), &f, 1e-7).unwrap();
    assert!((w[0] - 0.5).abs() < 1e-6);
}
''', 'gradients about as small as 1e-7', 'the step is up to twice as long')

seed('c30-addto-unchecked', 'C30', [(F, '''            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }''', '''            match weights.as_slice_memory_order_mut() {
                // One check for all of the indices.
                Some(w) if w.len() >= sa.dim => {
                    for (&idx, act) in sa.iter() { unsafe { *w.get_unchecked_mut(idx) += alpha * act; } }
                }
                _ => for (&idx, act) in sa.iter() { weights[idx] += alpha * act; },
            }''')], '''fn main() {
    let f = Features::sparse(2, vec![(0, 1.0), (3, 1.0)]);
    let mut w = arr1(&[0.0, 0.0, 7.0, 7.0, 7.0]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        f.scaled_addto(1.0, &mut w.slice_mut(ndarray::s![..2]));
    }));
    // an index beyond the weights is refused, and nothing beyond them is touched
    assert!(r.is_err());
    assert_eq!(w.to_vec()[2..], [7.0, 7.0, 7.0]);
}
''', 'a stored index that is not below the dimension', 'memory beyond the weights is written')

# ---------------------------------------------------------------- special values, shortcuts, narrowing
seed('c02-remove-scale', 'C02', [(F, '                *a = 0.0;', '                *a *= 0.0;')], '''fn main() {
    let mut f = Features::dense(vec![1.0, f64::INFINITY, 2.0]);
    f.remove(0);
    f.remove(1);
    assert_eq!(f[0], 0.0);
    assert_eq!(f[1], 0.0);
}
''', 'an activation that is infinite or not a number', 'the removed feature reads NaN')

seed('c01-normal-only', 'C01', [(F, '''                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
            }
        }
    }

    /// Expand''', '''                for (&idx, &act) in sa.iter().filter(|(_, a)| a.is_normal()) {
                    phi[idx] = act;
                }

                phi
            }
        }
    }

    /// Expand''')], '''fn main() {
    let f = Features::sparse(3, vec![(0, f64::INFINITY), (2, 5e-324)]);
    let d = f.to_dense();
    assert_eq!(d[0], f[0]);
    assert_eq!(d[2], f[2]);
}
''', 'a stored activation that is subnormal or not finite', 'the dense conversion reads 0 there')

seed('c03-empty-shortcut', 'C03', [(F, '''            (f1, f2) => {
                let mut all_activations''', '''            (f1, f2) if f2.n_features() == 0 => f1,
            (f1, f2) => {
                let mut all_activations''')], '''fn main() {
    let s = Features::stack(Features::unitary(3, vec![1]), Features::dense(vec![]));
    assert!(s.is_dense());
    assert_eq!(s, vec![0.0, 1.0, 0.0].into());
}
''', 'a sparse vector stacked with an empty dense one', 'the result stays sparse')

seed('c04-empty-sparse', 'C04', [(F, '''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter()''', '''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 || sa.activations.is_empty() {
                    let activations = sa.activations.into_iter()''')], '''fn main() {
    let f = Features::sparse(3, vec![]).map_into(|x| x + 1.0);
    assert_eq!(f.to_dense().to_vec(), vec![1.0; 3]);
}
''', 'a sparse vector without stored entries and a function that maps 0 elsewhere', 'all features stay 0')

seed('c06-inactive', 'C06', [(F, '''        use Features::*;

        match self {
            Sparse(sa1) => match rhs {
                Sparse(sa2) => sa1.activations.iter().fold''', '''        use Features::*;

        if self.n_active() == 0 || rhs.n_active() == 0 {
            return 0.0;
        }

        match self {
            Sparse(sa1) => match rhs {
                Sparse(sa2) => sa1.activations.iter().fold''')], '''fn main() {
    let a = Features::dense(vec![5e-8, -5e-8]);
    let b = Features::dense(vec![1e9, 2e9]);
    let d = ndarray::linalg::Dot::<Features>::dot(&a, &b);
    assert!((d + 50.0).abs() < 1e-9);
}
''', 'a dense vector whose activations are all below 1e-7', 'the product is 0')

seed('c08-tiny-alpha', 'C08', [(F, '''        apply_to_features!(self => ref da, {
            weights.scaled_add(alpha, da)''', '''        if alpha.abs() < std::f64::EPSILON {
            return;
        }

        apply_to_features!(self => ref da, {
            weights.scaled_add(alpha, da)''')], '''fn main() {
    let mut w = arr1(&[0.0, 0.0]);
    Features::dense(vec![1e17, 1.0]).scaled_addto(1e-16, &mut w);
    assert!((w[0] - 10.0).abs() < 1e-9);
}
''', 'a scale below 2.2e-16', 'nothing is added')

seed('c09-eq-tol', 'C09', [(F, 'da1.eq(&da2),', 'da1.len() == da2.len() && da1.iter().zip(da2.iter()).all(|(x, y)| (x - y).abs() <= std::f64::EPSILON),')], '''fn main() {
    assert_ne!(Features::dense(vec![1e-17]), Features::dense(vec![0.0]));
    assert_ne!(Features::dense(vec![1.0 + std::f64::EPSILON]), Features::dense(vec![1.0]));
}
''', 'activations that differ by at most 2.2e-16', 'different vectors are equal')

seed('c12-order-cast', 'C12', [('src/basis/polynomial/mod.rs', 'v.borrow().powi(e as i32)', 'v.borrow().powi(i32::from(e as i8))')], '''use lfa::basis::{Basis, Polynomial};
fn main() {
    let p = Polynomial::new(1, 130);
    let f = p.project(&[2.0]).unwrap();
    assert_eq!(f[126], 2f64.powi(127));
    assert_eq!(f[127], 2f64.powi(128));
    assert_eq!(f[129], 2f64.powi(130));
}
''', 'an order of 128 or more', 'the exponent becomes negative')

seed('c13-clamp', 'C13', [('src/basis/polynomial/mod.rs', '''    fn project(&self, input: T) -> crate::Result<Features> {
        let scaled_state: Vec<f64> = rescale!(input into self.limits)
            .map(|v| 2.0 * v - 1.0)''', '''    fn project(&self, input: T) -> crate::Result<Features> {
        let scaled_state: Vec<f64> = rescale!(input into self.limits)
            .map(|v| (2.0 * v - 1.0).min(1.0))''')], '''use lfa::basis::{Basis, Chebyshev};
fn main() {
    let c = Chebyshev::new(2, vec![(0.0, 2.0)]);
    let f = c.project(&[3.0]).unwrap();
    assert!((f[0] - 2.0).abs() < 1e-9);
    assert!((f[1] - 7.0).abs() < 1e-9);
}
''', 'an input above the upper limit', 'the input is clamped to the limit')

seed('c17-narrow-hash', 'C17', [('src/basis/tile_coding.rs', 'hasher.finish() as usize % memory_size', '(hasher.finish() as u32) as usize % memory_size')], '''use lfa::basis::{Basis, TileCoding};
use std::hash::{BuildHasher, Hasher};
#[derive(Clone)]
struct B;
struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 { self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15) }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3); } }
}
impl BuildHasher for B { type Hasher = H; fn build_hasher(&self) -> H { H(17) } }
fn main() {
    let m = 1000;
    let n = 4;
    let x = [0.3, 0.9];
    let f = TileCoding::new(B, n, m).project(x.iter()).unwrap();
    let mut h = B.build_hasher();
    let mut e = std::collections::HashSet::new();
    for t in 0..n as isize {
        h.write_isize(t);
        for (i, v) in x.iter().enumerate() {
            h.write_isize(((v * n as f64).floor() as isize + t * (1 + 2 * i as isize)).div_euclid(n as isize));
        }
        e.insert(h.finish() as usize % m);
    }
    assert_eq!(f.n_active(), e.len());
    for i in e { assert_eq!(f[i], 1.0); }
}
''', 'a memory size that is no power of two (and a hash beyond 32 bits)', 'other indices are active')

seed('c11-grid-narrow', 'C11', [('src/basis/uniform_grid.rs', 'if self.hash(input) == index {', 'if self.hash(input) as u16 == index as u16 {')], '''fn main() {
    let g = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 1.0, 400), Equipartition::new(0.0, 1.0, 400)]));
    let x = [0.0, 0.5];
    let f = g.project(x.iter()).unwrap();
    for i in [200usize, 200 + 65536, 200 + 131072].iter() {
        assert_eq!(g.ith(x.iter(), *i).unwrap(), f[*i]);
    }
}
''', 'a grid with more than 65536 cells', 'a second feature seems to be active')

seed('c05-swap-larger', 'C05', [(F, '''                Sparse(sa2) => {
                    for (i, a) in sa1.activations.iter_mut() {''', '''                Sparse(sa2) if sa2.activations.len() > 4 * sa1.activations.len() + 16 => {
                    // Few of our own: start from the other one.
                    let mut activations = sa2.activations.clone();

                    for (i, a) in activations.iter_mut() {
                        *a = f(*a, sa1.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, x) in sa1.activations.iter() {
                        activations.entry(i).or_insert_with(|| f(*x, 0.0));
                    }

                    Sparse(SparseActivations {
                        dim: sa1.dim.max(sa2.dim),
                        activations,
                    })
                }
                Sparse(sa2) => {
                    for (i, a) in sa1.activations.iter_mut() {''')], '''fn main() {
    let a = Features::sparse(50, vec![(3, 1.0)]);
    let b = Features::unitary(50, 0..40);
    let m = a.merge_into(&b, |x, y| x - y);
    assert_eq!(m[5], -1.0);
    assert_eq!(m[3], 0.0);
}
''', 'a short sparse vector merged into one with over four times as many entries', 'the operands of the operation are swapped')

seed('c07-memory-order', 'C07', [(F, '''            da.iter().fold(init, f)''', '''            match da.as_slice_memory_order() {
                Some(xs) => xs.iter().fold(init, f),
                None => da.iter().fold(init, f),
            }''')], '''fn main() {
    let mut a = Array1::from(vec![1.0, 2.0, 3.0]);
    a.invert_axis(ndarray::Axis(0));
    let f = Features::Dense(a);
    assert_eq!(f.fold(0.0, |acc, x| 10.0 * acc + x), 321.0);
}
''', 'a dense vector stored in reverse order and a function that depends on the order', 'the fold runs backwards')

seed('c20-l2-tiny', 'C20', [('src/basis/normalisation.rs', '''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(''', '''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt().max(1e-12);

                Features::Dense(''')], '''use lfa::basis::{Basis, Combinators, Fixed};
fn main() {
    let b = Fixed(vec![3e-13, 4e-13]).normalise_l2();
    let f = b.project(&[0.0][..]).unwrap();
    assert!((f[0] - 0.6).abs() < 1e-9);
    assert!((f[1] - 0.8).abs() < 1e-9);
}
''', 'a projection with a norm below 1e-12', 'the result does not have norm 1')

seed('c21-small-error', 'C21', [('src/optim/sgd.rs', '''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''', '''        let alpha = self.0 * scale_factor;

        if alpha.abs() > 1e-12 {
            features.scaled_addto(alpha, weights);
        }

        Ok(())''')], '''fn main() {
    let mut w = arr1(&[0.0]);
    SGD(1e-9).step_scaled(&mut w.view_mut(), &vec![1e6].into(), 1e-4).unwrap();
    assert!((w[0] / 1e-7 - 1.0).abs() < 1e-9);
}
''', 'a product of learning rate and error below 1e-12', 'the step is dropped')

seed('c24-bias-late', 'C24', [('src/optim/adam.rs', '''                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);''', '''                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    // The correction has faded after some hundred steps.
                    let m1_unbiased = if self.beta1_prod < 1e-5 { m1_new } else { m1_new / (1.0 - self.beta1_prod) };''')], '''fn main() {
    let f = Features::sparse(1, vec![(0, 1.0)]);
    let (b1, b2, lr): (f64, f64, f64) = (0.5, 0.9, 0.1);
    let mut o = Adam::new(1, lr, b1, b2);
    let (mut w, mut m, mut v, mut x) = (arr1(&[0.0]), 0.0, 0.0, 0.0);
    for t in 1..40 {
        let e = if t % 2 == 0 { 1.0 } else { 3.0 };
        o.step_scaled(&mut w.view_mut(), &f, e).unwrap();
        m = b1 * m + (1.0 - b1) * e;
        v = b2 * v + (1.0 - b2) * e * e;
        x += lr * (m / (1.0 - b1.powi(t))) / ((v / (1.0 - b2.powi(t))).sqrt() + 1e-7);
        assert!((w[0] - x).abs() < 1e-9, "step {}: {} instead of {}", t, w[0], x);
    }
}
''', 'enough sparse steps for beta1^t to fall below 1e-5', 'the bias of the first moment is not corrected')

seed('c30-index-unchecked', 'C30', [(F, '''            da.index(idx)
        }; sa, {''', '''            match da.as_slice_memory_order() {
                // Contiguous: skip the stride computation.
                Some(xs) if idx <= xs.len() && !xs.is_empty() => unsafe { xs.get_unchecked(if da.strides()[0] < 0 { xs.len() - 1 - idx } else { idx }) },
                _ => da.index(idx),
            }
        }; sa, {''')], '''fn main() {
    let f = Features::dense(vec![1.0, 2.0, 3.0]);
    assert_eq!(f[2], 3.0);
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| f[3]);
    std::panic::set_hook(hook);
    assert!(r.is_err());
}
''', 'the index one past the end of a contiguous dense vector', 'memory beyond the vector is read')

seed('c02-retain-narrow', 'C02', [(F, '''            sa.activations.remove(&idx);''', '''            // Keep the table compact: drop the slot together with the key.
            sa.activations.retain(|i, _| *i as u32 != idx as u32);''')], '''fn main() {
    let k = 1usize << 33;
    let mut f = Features::sparse(k + 8, vec![(3, 1.0), (k + 3, 2.0), (5, 4.0)]);
    f.remove(3);
    assert_eq!(f.get(3), None);
    assert_eq!(f.get(k + 3), Some(&2.0));
    assert_eq!(f.get(5), Some(&4.0));
}
''', 'two stored indices that agree in their low 32 bits', 'removing one feature also removes the other')

seed('c10-tile-dim', 'C10', [('src/basis/tile_coding.rs', '''            dim: self.memory_size,
            activations: hash''', '''            dim: self.memory_size.max(self.n_tilings),
            activations: hash''')], '''fn main() {
    let b = TileCoding::new(std::collections::hash_map::RandomState::new(), 16, 5);
    let n: usize = b.dim().into();
    assert_eq!(b.project(&[0.3, 0.7]).unwrap().n_features(), n);
    assert_eq!(n, 5);
}
''', 'fewer memory cells than tilings', 'the projection is longer than the dimension of the basis')

seed('c14-clamped', 'C14', [('src/basis/fourier.rs', '''        let ss: Vec<f64> = rescale!(input into self.limits).collect();''', '''        let ss: Vec<f64> = rescale!(input into self.limits).map(|s: f64| s.min(3.0)).collect();''')], '''fn main() {
    let b = Fourier::new(2, vec![(0.0, 2.0)]);
    let f = b.project(&[7.3]).unwrap();
    assert!(close(f[0], (std::f64::consts::PI * 3.65).cos()));
    assert!(close(f[1], (std::f64::consts::PI * 7.3).cos()));
}
''', 'an input more than three interval lengths above the lower limit', 'far inputs are clamped before the cosine')

seed('c15-expanded-square', 'C15', [('src/basis/kernels/stationary.rs', '''                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)''', '''                    .zip($self.lengthscales.iter().cycle())
                    // One division per coordinate: (x^2 - 2xy + y^2) / l^2.
                    .map(|((x, y), l)| (x * x - 2.0 * x * y + y * y) / (l * l))
                    .fold(0.0f64, |acc, z| acc + z).max(0.0)''')], '''use lfa::basis::kernels::{ExpQuad, Kernel};
fn main() {
    let k = ExpQuad::new(1.0, vec![0.5]);
    let (x, y) = (vec![900000.1, 3.0], vec![900000.3, 2.5]);
    let r2: f64 = ((900000.1f64 - 900000.3) / 0.5).powi(2) + 1.0;
    assert!((k.kernel(&x[..], &y[..]) - (-0.5 * r2).exp()).abs() < 1e-6);
}
''', 'close points far from the origin', 'the squared distance cancels')

seed('c16-equal-parts', 'C16', [('src/basis/kernelised.rs', '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);''', '''        let mut lengthscales: Vec<f64> = partitioning.iter().map(|d| d.partition_width()).collect();
        if partitioning.iter().all(|d| d.n_partitions() == 4) {
            // Isotropic: one lengthscale is enough.
            lengthscales.truncate(1);
        }
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);''')], '''use lfa::basis::kernels::{ExpQuad, Kernel};
fn main() {
    let sp = ProductSpace::new(vec![Equipartition::new(0.0, 4.0, 4), Equipartition::new(0.0, 40.0, 4)]);
    let b = KernelBasis::exp_quad(sp);
    let k = ExpQuad::new(1.0, vec![1.0, 10.0]);
    let f = b.project([0.1, 4.0]).unwrap();
    for (i, p) in b.prototypes.iter().enumerate() { assert!(close(f[i], k.kernel(&[0.1, 4.0][..], &p.centroid[..]))); }
}
''', 'a partitioning with four parts in every dimension and different widths', 'the width of the first dimension is used for all')

seed('c18-one-cell', 'C18', [('src/basis/uniform_grid.rs', '''        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''', '''        // Dimensions with a single cell do not contribute.
        d_it.filter(|d| d.n_partitions() > 1)
            .zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)''')], '''fn main() {
    let b = UniformGrid::new(ProductSpace::new(vec![Equipartition::new(0.0, 2.0, 2), Equipartition::new(0.0, 1.0, 1), Equipartition::new(0.0, 3.0, 3)]));
    let f = b.project(&[1.5, 0.5, 2.5]).unwrap();
    assert_eq!(f.get(5), Some(&1.0));
}
''', 'a dimension with one cell followed by another dimension', 'the later dimensions read the wrong coordinate')

seed('c19-empty-first', 'C19', [('src/basis/stack.rs', '''            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''            .and_then(|f1| self.b2.project(input).map(|f2| if f1.is_sparse() && f2.is_sparse() && f1.n_active() == 0 { f2 } else { f1.stack(f2) }))''')], '''fn main() {
    let b = Stack::new(Fixed::sparse(4, Vec::<usize>::new()), Fixed::sparse(3, vec![1]));
    let f = b.project(0.0).unwrap();
    assert_eq!(f.n_features(), 7);
    assert_eq!(f.get(5), Some(&1.0));
}
''', 'two sparse bases of which the first has no active feature', 'the second projection is returned unshifted')

seed('c22-empty-sparse', 'C22', [('src/optim/momentum.rs', '''            Features::Sparse(sa) => {
                self''', '''            Features::Sparse(sa) if sa.activations.is_empty() => return Ok(()),
            Features::Sparse(sa) => {
                self''')], '''fn main() {
    let mut o = SGDMomentum::new(2, 0.5, 1.0);
    let mut w = Array1::zeros(2);
    o.step_scaled(&mut w.view_mut(), &Features::sparse(2, vec![(0, 1.0)]), 1.0).unwrap();
    o.step_scaled(&mut w.view_mut(), &Features::sparse(2, vec![]), 1.0).unwrap();
    assert!(close(w[0], 1.5));
}
''', 'a step with no active feature after one with some', 'the velocity neither decays nor moves the weights')

seed('c23-negative-error', 'C23', [('src/optim/adagrad.rs', '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);''', '''                    let a = sa.activations.get(&i).cloned().unwrap_or(0.0);
                    let g = a * scale_factor;

                    *ss = *ss + a.powi(2) * scale_factor.abs().max(scale_factor * scale_factor);''')], '''fn main() {
    let mut o = Adagrad::new(1, 0.1);
    let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::sparse(1, vec![(0, 2.0)]), 0.25).unwrap();
    assert!((w[0] - 0.1).abs() < 1e-5);
}
''', 'a sparse step with an error smaller than one', 'the accumulated square is too large')

seed('c25-inactive-decay', 'C25', [('src/optim/adamax.rs', '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_inf.mul_assign(self.beta2);
''', '''                self.exp_avg.mul_assign(self.beta1);
                if sa.activations.len() < self.exp_inf.len() {
                    for i in sa.activations.keys() { self.exp_inf[*i] *= self.beta2; }
                } else {
                    self.exp_inf.mul_assign(self.beta2);
                }
''')], '''fn main() {
    let mut o = AdaMax::new(2, 0.1, 0.5, 0.5);
    let mut w = Array1::zeros(2);
    o.step_scaled(&mut w.view_mut(), &Features::sparse(2, vec![(0, 4.0)]), 1.0).unwrap();
    o.step_scaled(&mut w.view_mut(), &Features::sparse(2, vec![(1, 1.0)]), 1.0).unwrap();
    let before = w[0];
    o.step_scaled(&mut w.view_mut(), &Features::sparse(2, vec![(0, 0.5)]), 1.0).unwrap();
    // m: 2, 1, 0.5 + 0.25; u: 4, 2, max(1, 0.5)
    let d = 0.1 * (0.75 / (1.0 - 0.125)) / 1.0;
    assert!((w[0] - before - d).abs() < 1e-6, "{}", w[0] - before);
}
''', 'a feature that was active, then not, then again, in sparse steps', 'the infinity norm of inactive features does not decay')

seed('c26-reset-mul', 'C26', [('src/optim/momentum.rs', '''    fn reset(&mut self) { self.velocity.fill(0.0); }''', '''    fn reset(&mut self) { self.velocity.mul_assign(0.0); }''')], '''fn main() {
    let mut o = SGDMomentum::new(1, 0.5, 0.1);
    let mut w = Array1::zeros(1);
    for _ in 0..3 { o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1e300]), 1e10).unwrap(); }
    Optimiser::<Features>::reset(&mut o);
    let mut w = Array1::zeros(1);
    o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1.0).unwrap();
    assert!(close(w[0], 0.1));
}
''', 'a velocity that has overflowed before the reset', 'the reset leaves NaN in the velocity')

seed('c28-with-twice', 'C28', [('src/lib.rs', '''            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {''', '''            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                if e.is_nan() {
                    return Ok(());
                }
''')], '''struct Count(usize);
impl Optimiser<Features> for Count {
    fn step(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features) -> Result<()> { self.step_scaled(w, f, 1.0) }
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, _: &Features, e: f64) -> Result<()> {
        self.0 += 1;
        w[0] = e;
        Ok(())
    }
}
fn main() {
    let mut fa = LFA::scalar(Fixed::dense(vec![1.0]), Count(0));
    fa.update_with(0.0, |_, _| f64::NAN).unwrap();
    assert!(fa.optimiser.0 == 1 && fa.weights[0].is_nan());
}
''', 'an error function that returns NaN', 'no step is made for that error')

seed('c29-zero-column', 'C29', [('src/lib.rs', '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })''', '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);
            let n = errors.len();

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .enumerate()
                .fold(Ok(()), |acc, (k, (e, mut c))| {
                    // The last output is skipped once the others failed.
                    if k + 1 == n && acc.is_err() { return acc; }
                    acc.and(opt.step_scaled(&mut c, b, e))
                })''')], '''struct Fussy;
impl Optimiser<Features> for Fussy {
    fn step(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features) -> Result<()> { self.step_scaled(w, f, 1.0) }
    fn step_scaled(&mut self, w: &mut ndarray::ArrayViewMut1<f64>, f: &Features, e: f64) -> Result<()> {
        if e < 0.0 { return Fourier::new(1, vec![(0.0, 1.0)]).ith([0.0], 9).map(|_| ()); }
        SGD(1.0).step_scaled(w, f, e)
    }
}
fn main() {
    let mut fa = LFA::vector(Fixed::dense(vec![1.0]), Fussy, 3);
    assert!(fa.update_with(0.0, |_, _| arr1(&[-1.0, 2.0, 3.0])).is_err());
    assert!(close(fa.weights[[0, 1]], 2.0) && close(fa.weights[[0, 2]], 3.0));
}
''', 'an optimiser that fails on an early output', 'the last output is not stepped')

seed('c08-zero-stride', 'C08', [(F, '''            weights.scaled_add(alpha, da)''', '''            match weights.as_slice_memory_order_mut() {
                // Contiguous weights and features: a plain loop vectorises better.
                Some(ws) if ws.len() == da.len() && da.is_standard_layout() => {
                    for (w, a) in ws.iter_mut().zip(da.iter()) { *w += alpha * a; }
                },
                _ => weights.scaled_add(alpha, da),
            }''')], '''fn main() {
    let f = Features::dense(vec![1.0, 2.0, 3.0]);
    let mut w = Array1::zeros(3);
    f.scaled_addto(2.0, &mut w.slice_mut(ndarray::s![..;-1]));
    assert_eq!(w, arr1(&[6.0, 4.0, 2.0]));
}
''', 'a reversed contiguous view of the weights', 'the features are added in memory order')

seed('c27-index-row', 'C27', [('src/lib.rs', '''            .map(|b| b.dot(&self.weights.column(index)))''', '''            .map(|b| if self.weights.is_standard_layout() || self.weights.nrows() != self.weights.ncols() { b.dot(&self.weights.column(index)) } else { b.dot(&self.weights.row(index)) })''')], '''fn main() {
    let mut fa = LFA::vector(Fixed::dense(vec![1.0, 10.0]), SGD(1.0), 2);
    fa.weights = arr2(&[[1.0, 2.0], [3.0, 4.0]]).reversed_axes();
    assert!(close(fa.evaluate_index(0.0, 0).unwrap(), 21.0));
}
''', 'square weights in column-major order', 'a row is evaluated in place of a column')

seed('c32-scaled-eq', 'C32', [('src/basis/constant.rs', '''#[derive(Clone, Copy, Debug, PartialEq)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
pub struct Bias(pub f64);
''', '''#[derive(Clone, Copy, Debug)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
pub struct Bias(pub f64);

impl PartialEq for Bias {
    fn eq(&self, other: &Bias) -> bool { (self.0 - other.0).abs() <= f64::EPSILON }
}
''')], '''fn main() {
    assert!(Bias(1e-20) != Bias(2e-20));
    assert!(Bias(f64::INFINITY) == Bias(f64::INFINITY));
    assert!(Bias(1.0) == Bias(1.0) && Bias(1.0) != Bias(2.0));
}
''', 'two tiny or two infinite constants', 'equality of constant bases is approximate')

# ------------------------------------------------------------ batch: numerically different, histories, probes
seed('c16-unique-centroids', 'C16', [('src/basis/kernelised.rs', '''                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
        )
    }''', '''                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .filter({
                    // A prototype without extent never fires.
                    let size = std::mem::size_of::<C>();

                    move |_| size > 0
                })
                .collect(),
        )
    }''')], '''#[derive(Clone)]
struct Nearest;
impl kernels::Kernel<()> for Nearest {
    fn kernel(&self, _: (), _: ()) -> f64 { 1.0 }
}
fn main() {
    let b = KernelBasis::homogeneous(vec![[0.0; 0], [0.0; 0]], kernels::ExpQuad::new(1.0, vec![1.0]));
    assert_eq!(b.prototypes.len(), 2);
    let b = KernelBasis::homogeneous(vec![(), ()], Nearest);
    assert_eq!(b.prototypes.len(), 2);
}
''', 'centroids of a type without size', 'the prototypes are dropped')

seed('c06-equal-counts', 'C06', [(F, '''                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),''', '''                // Without a gap on either side the entries can be paired up.
                Sparse(sa2) if sa1.activations.len() == 1 && sa2.activations.len() == 1 => {
                    sa1.activations.values().zip(sa2.activations.values()).map(|(x, y)| x * y).sum()
                },
                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),''')], '''fn main() {
    use ndarray::linalg::Dot;
    let (a, b) = (Features::sparse(9, vec![(2, 3.0)]), Features::sparse(9, vec![(7, 2.0)]));
    assert_eq!(Dot::<Features>::dot(&a, &b), 0.0);
    assert_eq!(Dot::<Features>::dot(&a, &a), 9.0);
}
''', 'one stored entry on either side, at different indices', 'the product is not 0')

seed('c05-identity-probe', 'C05', [(F, '''                Sparse(sa2) => {
                    for (i, x) in da1.indexed_iter_mut() {
                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                    }

                    Dense(da1)''', '''                // Zeros are neutral for f: only the stored entries have to be visited.
                Sparse(sa2) if f(1.0, 0.0) == 1.0 && f(0.0, 0.0) == 0.0 => {
                    for (&i, y) in sa2.iter() {
                        da1[i] = f(da1[i], *y);
                    }

                    Dense(da1)
                },
                Sparse(sa2) => {
                    for (i, x) in da1.indexed_iter_mut() {
                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                    }

                    Dense(da1)''')], '''fn main() {
    let (a, b) = (Features::dense(vec![-1.0, 2.0, 3.0]), Features::sparse(3, vec![(1, 5.0)]));
    assert_eq!(a.merge_into(&b, f64::max).to_dense(), arr1(&[0.0, 5.0, 3.0]));
}
''', 'a function such as max, for which 0 is neutral only on one side', 'negative activations are left unmerged')

seed('c04-in-place-slice', 'C04', [(F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
    }

    /// Map the function `f` over the internal `DenseActivations` representation''', '''        if let Features::Dense(da) = self {
            // No temporary is needed for dense features.
            return da.as_slice_memory_order_mut().into_iter().flatten().for_each(|x| *x = f(*x));
        }

        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
    }

    /// Map the function `f` over the internal `DenseActivations` representation''')], '''fn main() {
    let a = Array1::from(vec![1.0, 2.0, 3.0, 4.0]).slice_move(ndarray::s![..;2]);
    let mut f = Features::Dense(a);
    f.map_inplace(|x| x + 1.0);
    assert_eq!(f.to_dense(), arr1(&[2.0, 4.0]));
    let mut f = Features::dense(vec![1.0]);
    f.map_inplace(|x| x + 1.0);
    assert_eq!(f[0], 2.0);
}
''', 'dense activations with gaps between them in memory', 'nothing is mapped')

seed('c25-late-product', 'C25', [('src/optim/adamax.rs', '''        self.beta1_prod *= self.beta1;

        match features {''', '''        // The correction has converged after that: keep clear of denormals.
        if self.beta1_prod > 1e-2 {
            self.beta1_prod *= self.beta1;
        } else {
            self.beta1_prod = 0.0;
        }

        match features {''')], '''fn main() {
    let (b1, b2, lr) = (0.9, 0.5, 0.1);
    let mut o = AdaMax::new(1, lr, b1, b2);
    let mut w = Array1::zeros(1);
    let (mut x, mut m, mut u) = (0.0, 0.0, 0.0f64);
    for t in 1..80 {
        o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1.0).unwrap();
        m = b1 * m + (1.0 - b1);
        u = (b2 * u).max(1.0);
        x += lr * m / ((1.0 - f64::powi(b1, t)) * (u + 1e-7));
        assert!(close(w[0], x), "{} {} {}", t, w[0], x);
    }
}
''', 'more than some forty steps', 'the bias correction stops early')

seed('c32-adam-clone', 'C32', [('src/optim/adam.rs', '''#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
pub struct Adam {''', '''impl Clone for Adam {
    fn clone(&self) -> Self {
        Adam {
            beta1: self.beta1,
            beta1_prod: self.beta1_prod,
            beta2: self.beta2,
            // Underflows only once the correction is done with.
            beta2_prod: self.beta2_prod.max(f64::EPSILON),
            learning_rate: self.learning_rate,
            exp_avg: self.exp_avg.clone(),
            exp_avg_sq: self.exp_avg_sq.clone(),
        }
    }
}

#[derive(Debug, PartialEq)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
pub struct Adam {''')], '''fn main() {
    let mut a = Adam::new(1, 0.1, 0.5, 0.1);
    let mut w = Array1::zeros(1);
    for _ in 0..20 { a.step(&mut w.view_mut(), &Features::dense(vec![1.0])).unwrap(); }
    assert!(a.clone() == a);
}
''', 'a copy made after many steps', 'the copy differs from the original')

seed('c17-tiling-byte', 'C17', [('src/basis/tile_coding.rs', '''        hasher.write_isize(t);

''', '''        // The number of the tiling fits in a byte.
        hasher.write_isize(t as u8 as isize);

''')], '''#[derive(Clone, Default)]
struct H(u64);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64); } }
    fn write_isize(&mut self, x: isize) { self.0 = self.0.wrapping_mul(1_000_003).wrapping_add(x as u64); }
}
fn main() {
    let n = 300;
    let b = TileCoding::new(std::hash::BuildHasherDefault::<H>::default(), n, 1 << 40);
    let f = b.project(&[0.5][..]).unwrap();
    let mut h = H::default();
    for t in 0..n as isize {
        use std::hash::Hasher;
        h.write_isize(t);
        h.write_isize((150 + t).div_euclid(n as isize));
        assert_eq!(f.get((h.finish() % (1 << 40)) as usize), Some(&1.0), "tiling {}", t);
    }
}
''', 'more than 256 tilings', 'later tilings hash as earlier ones')

seed('c22-flush', 'C22', [('src/optim/momentum.rs', '''        Ok(weights.scaled_add(lr, &self.velocity))''', '''        // Negligible velocities would decay for ever.
        self.velocity.mapv_inplace(|v| if v.abs() < 1e-9 { 0.0 } else { v });

        Ok(weights.scaled_add(lr, &self.velocity))''')], '''fn main() {
    let mut o = SGDMomentum::new(1, 0.5, 1e6);
    let mut w = Array1::zeros(1);
    for _ in 0..3 { o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), 1e-10).unwrap(); }
    assert!((w[0] - 1e6 * 1e-10 * (1.0 + 1.5 + 1.75)).abs() < 1e-12, "{}", w[0]);
}
''', 'tiny errors', 'the velocity stays 0')

seed('c27-last', 'C27', [('src/lib.rs', '''        self.lanes.next().map(|ref c| self.basis.dot(c))
    }
''', '''        self.lanes.next().map(|ref c| self.basis.dot(c))
    }

    fn last(mut self) -> Option<Self::Item> {
        // There is no need to evaluate the others.
        self.lanes.nth(self.lanes.len().saturating_sub(2)).map(|ref c| self.basis.dot(c))
    }
''')], '''fn main() {
    let mut fa = LFA::vector(Fixed::dense(vec![1.0]), SGD(1.0), 3);
    fa.weights = arr2(&[[1.0, 2.0, 3.0]]);
    assert_eq!(fa.try_iter(0.0).unwrap().last(), Some(3.0));
}
''', 'the last output of an iterator', 'it is the output before it')

seed('c13-cosine-form', 'C13', [('src/basis/polynomial/cpfk.rs', '''pub(super) fn t_10(x: f64) -> f64 {
    512.0''', '''pub(super) fn t_10(x: f64) -> f64 {
    if x < -0.9 {
        // The expansion cancels near the ends of the interval.
        return (10.0 * x.acos()).cos();
    }

    512.0''')], '''fn main() {
    let f = Chebyshev::new(10, vec![(0.0, 1.0)]);
    let y = f.project([-0.05]).unwrap();
    let x: f64 = -1.1;
    let (mut a, mut b) = (1.0, x);
    for _ in 1..10 { let c = 2.0 * x * b - a; a = b; b = c; }
    assert!((y[9] - b).abs() < 1e-9, "{} {}", y[9], b);
}
''', 'an input below the lower limit and degree 10', 'the feature is NaN')

seed('c12-tuples-memo', 'C12', [('src/basis/mod.rs', '''    (0..dim)
        .map(|_| 0..=order)
        .multi_cartesian_product()
        .skip(1)
        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
        .dedup()
}''', '''    // The tuples are expensive to enumerate for high orders, so keep the last ones.
    thread_local! {
        static LAST: std::cell::RefCell<(f64, Vec<Vec<u8>>)> = std::cell::RefCell::new((0.0, Vec::new()));
    }

    let key = (order as f64 + 1.0).powi(dim as i32);

    LAST.with(|last| {
        let mut last = last.borrow_mut();

        if last.0 != key {
            let tuples = (0..dim)
                .map(|_| 0..=order)
                .multi_cartesian_product()
                .skip(1)
                .sorted_by(|a, b| a.partial_cmp(b).unwrap())
                .dedup()
                .collect();

            *last = (key, tuples);
        }

        last.1.clone().into_iter()
    })
}''')], '''fn main() {
    let f = Polynomial::new(1, 3);
    assert_eq!(f.exponents, vec![vec![1], vec![2], vec![3]]);
    let f = Polynomial::new(2, 1);
    assert_eq!(f.exponents, vec![vec![0, 1], vec![1, 0], vec![1, 1]]);
}
''', 'two bases in a row with equally many tuples but different dimensions and orders', 'the second basis gets the tuples of the first')

seed('c15-distance-memo', 'C15', [('src/basis/kernels/stationary.rs', '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())
''', '''                // Several kernels are often evaluated between the same two points.
                thread_local! {
                    static LAST: std::cell::RefCell<(Vec<f64>, Vec<f64>, f64)> = std::cell::RefCell::new((Vec::new(), Vec::new(), 0.0));
                }

                let distance = LAST.with(|last| {
                    let mut last = last.borrow_mut();

                    if last.0 != x || last.1 != y {
                        let distance = x
                            .into_iter()
                            .zip(y.into_iter())
                            .map(|(x, y)| x - y)
                            .zip($self.lengthscales.iter().cycle())
                            .map(|(d, l)| d / l)
                            .fold(0.0f64, |acc, z| acc + z * z)
                            .sqrt();

                        *last = (x.to_vec(), y.to_vec(), distance);
                    }

                    last.2
                });

                $self.kernel_stationary(distance)
''')], '''use lfa::basis::kernels::{Exponential, Kernel};
fn main() {
    let (x, y) = ([1.0, 2.0], [0.0, 0.0]);
    let a: f64 = Exponential::new(1.0, vec![1.0]).kernel(&x[..], &y[..]);
    let b: f64 = Exponential::new(1.0, vec![2.0]).kernel(&x[..], &y[..]);
    assert!((a - (-(5f64.sqrt())).exp()).abs() < 1e-12, "{}", a);
    assert!((b - (-(5f64.sqrt()) / 2.0).exp()).abs() < 1e-12, "{}", b);
}
''', 'two kernels of a type with different lengthscales, evaluated in a row between the same points', 'the second uses the distance scaled by the lengthscales of the first')

seed('c24-power-memo', 'C24', [('src/optim/adam.rs', '''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;
''', '''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;

        // Long runs end up with denormal powers, which are slow to multiply.
        if self.beta1_prod < 1e-4 {
            self.beta1_prod = 0.0;
            self.beta2_prod = self.beta2_prod.min(1e-4);
        }
''')], '''fn main() {
    let (b1, b2): (f64, f64) = (0.5, 0.999);
    let mut o = Adam::new(1, 0.1, b1, b2);
    let mut w = Array1::zeros(1);
    let (mut m, mut v, mut u) = (0.0, 0.0, 0.0);
    for t in 1..40 {
        let g = if t % 2 == 0 { 1.0 } else { -0.5 };
        o.step_scaled(&mut w.view_mut(), &Features::dense(vec![1.0]), g).unwrap();
        m = b1 * m + (1.0 - b1) * g;
        v = b2 * v + (1.0 - b2) * g * g;
        u += 0.1 * m / (1.0 - b1.powi(t)) / ((v / (1.0 - b2.powi(t)) as f64).sqrt() + 1e-7);
    }
    assert!((w[0] - u).abs() < 1e-3, "{} {}", w[0], u);
}
''', 'more steps than it takes beta1 to the power of the steps to fall below 1e-4', 'the second moment is no longer corrected for its bias')
