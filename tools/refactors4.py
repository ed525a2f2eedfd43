# fourth round: helpers shared by several functions, derives written by hand (exec'd by refactors.py)
ACT = '''
impl Features {
    fn activation(&self, i: usize) -> ActivationT {
        match self {
            Features::Dense(da) => da.get(i).copied().unwrap_or(0.0),
            Features::Sparse(sa) => sa.activations.get(&i).copied().unwrap_or(0.0),
        }
    }

    fn gradient(&self, i: usize, scale: f64) -> f64 { self.activation(i) * scale }

    fn for_each_active(&self, mut f: impl FnMut(usize, f64)) {
        match self {
            Features::Dense(da) => {
                for (i, a) in da.indexed_iter() {
                    f(i, *a);
                }
            }
            Features::Sparse(sa) => {
                for (&i, &a) in sa.iter() {
                    f(i, a);
                }
            }
        }
    }
}

impl Features {
    /// Construct a `Dense` feature'''
IMPL = '''
impl Features {
    /// Construct a `Dense` feature'''
LK = '''    pub fn iter(&self) -> ::std::collections::hash_map::Iter<IndexT, ActivationT> {
        self.activations.iter()
    }
}
'''
LOOKUP = LK[:-2] + '''
    fn lookup(&self, i: IndexT) -> ActivationT {
        self.activations.get(&i).copied().unwrap_or(0.0)
    }
}
'''
r('f4-merge-lookup', (F, LK, LOOKUP),
  (F, '''                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }

                        Dense(a_out)''', '''                            *x = f(*x, sa2.lookup(i));
                        }

                        Dense(a_out)'''),
  (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }
''', '''                    let mut idx_out = sa1.activations.clone();

                    for (&i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.lookup(i));
                    }
'''))
r('f4-merge-activation', (F, IMPL, ACT),
  (F, '''                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));''', '''                        phi[i] = MaybeUninit::new(f(self.activation(i), other.activation(i)));'''))
r('f4-to_dense-helper', (F, IMPL, ACT),
  (F, '''                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                self.for_each_active(|idx, act| phi[idx] = act);

                phi
'''))
r('f4-dense-helper2', (F, LK, LK[:-2] + '''
    fn densify(&self, null: f64, f: impl Fn(f64) -> f64) -> DenseActivations {
        let mut phi = Array1::from_elem(self.dim, null);

        for (&idx, &act) in self.iter() {
            phi[idx] = f(act);
        }

        phi
    }
}
'''),
  (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                sa.densify(0.0, |x| x)
'''),
  (F, '''                    let mut phi = Array1::from_elem(sa.dim, null_activation);

                    for (&idx, &act) in sa.iter() {
                        phi[idx] = f(act);
                    }

                    Dense(phi)''', '''                    Dense(sa.densify(null_activation, f))'''),
  (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
''', '''                sa.densify(0.0, |x| x)
'''))
r('f4-map-into-own', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
''', '''        *self = self.map(f);
'''))
r('f4-map_into-map', (F, '''            Dense(activations) => Dense(activations.mapv_into(&f)),
''', '''            Dense(activations) => Features::Dense(activations).map(f),
'''))
AD = 'src/optim/adam.rs'
AG = 'src/optim/adagrad.rs'
AM = 'src/optim/adamax.rs'
MO = 'src/optim/momentum.rs'
NE = 'src/optim/nesterov.rs'
SG = 'src/optim/sgd.rs'
IS = 'src/optim/isgd.rs'
r('o4-adagrad-one-loop', (AG, '''        match features {
            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),
            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
            },
        }
''', '''        for (i, ss) in self.accumulator.indexed_iter_mut() {
            let a = match features {
                Features::Dense(da) => da[i],
                Features::Sparse(sa) => sa.activations.get(&i).cloned().unwrap_or(0.0),
            };
            let g = a * scale_factor;

            *ss += g * g;
            weights[i] += lr * g / (ss.sqrt() + EPS);
        }
'''))
r('o4-adagrad-helper', (AG, '''impl Optimiser<Features> for Adagrad {''', '''fn update(ss: &mut f64, w: &mut f64, g: f64, lr: f64) {
    *ss += g.powi(2);
    *w += lr * g / (ss.sqrt() + EPS);
}

impl Optimiser<Features> for Adagrad {'''),
  (AG, '''                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),''', '''                .for_each(|((a, w), ss)| update(ss, w, a * scale_factor, lr)),'''),
  (AG, '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
''', '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    update(ss, &mut weights[i], g, lr);
'''))
r('o4-adagrad-sparse-act', (F, IMPL, ACT.replace('    fn gradient', '    pub(crate) fn gradient')),
  (AG, '''            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;
''', '''            _ => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = features.gradient(i, scale_factor);
'''))
r('o4-adam-update-fn', (AD, '''impl Optimiser<Features> for Adam {''', '''impl Adam {
    fn delta(&self, m1: f64, m2: f64) -> f64 {
        let m1_unbiased = m1 / (1.0 - self.beta1_prod);
        let m2_unbiased = m2 / (1.0 - self.beta2_prod);

        self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS)
    }
}

impl Optimiser<Features> for Adam {'''),
  (AD, '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
''', '''                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    self.exp_avg[i] = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    self.exp_avg_sq[i] = self.beta2 * self.exp_avg_sq[i] + (1.0 - self.beta2) * g * g;
                    weights[i] += self.delta(self.exp_avg[i], self.exp_avg_sq[i]);
                }
'''),
  (AD, '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;

                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
''', '''                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;

                    self.exp_avg[i] += (1.0 - self.beta1) * g;
                    self.exp_avg_sq[i] += (1.0 - self.beta2) * g * g;
                    weights[i] += self.delta(self.exp_avg[i], self.exp_avg_sq[i]);
                }
'''))
r('o4-adam-struct', (AD, '''impl Optimiser<Features> for Adam {''', '''struct Rates {
    beta1: f64,
    beta2: f64,
    lr: f64,
    z1: f64,
    z2: f64,
}

impl Rates {
    fn apply(&self, m1: &mut f64, m2: &mut f64, g: f64) -> f64 {
        *m1 += (1.0 - self.beta1) * g;
        *m2 += (1.0 - self.beta2) * g * g;

        self.lr * (*m1 / self.z1) / ((*m2 / self.z2).sqrt() + EPS)
    }
}

impl Optimiser<Features> for Adam {'''),
  (AD, '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
''', '''                let rates = Rates {
                    beta1: self.beta1,
                    beta2: self.beta2,
                    lr: self.learning_rate,
                    z1: 1.0 - self.beta1_prod,
                    z2: 1.0 - self.beta2_prod,
                };

                self.exp_avg *= self.beta1;
                self.exp_avg_sq *= self.beta2;

                for (((a, w), m1), m2) in da
                    .iter()
                    .zip(weights.iter_mut())
                    .zip(self.exp_avg.iter_mut())
                    .zip(self.exp_avg_sq.iter_mut())
                {
                    *w += rates.apply(m1, m2, a * scale_factor);
                }
'''))
r('o4-adamax-decay-first', (AM, '''        match features {
            Features::Dense(da) => {
                let m''', '''        self.exp_avg.mul_assign(self.beta1);
        self.exp_inf.mul_assign(self.beta2);

        match features {
            Features::Dense(da) => {
                let m'''),
  (AM, '''                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;
                    let u_new = (self.beta2 * u[i]).max(g.abs());
''', '''                    let m_new = m[i] + (1.0 - self.beta1) * g;
                    let u_new = u[i].max(g.abs());
'''),
  (AM, '''            Features::Sparse(sa) => {
                self.exp_avg.mul_assign(self.beta1);
                self.exp_inf.mul_assign(self.beta2);

''', '''            Features::Sparse(sa) => {
'''))
r('o4-momentum-decay-first', (MO, '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
            },
        }

        Ok(weights.scaled_add(lr, &self.velocity))''', '''        self.velocity.mul_assign(m);
        features.scaled_addto(scale_factor, &mut self.velocity.view_mut());
        weights.scaled_add(lr, &self.velocity);

        Ok(())'''))
r('o4-nag-decay-first', (NE, '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    let g = a * scale_factor;

                    self.velocity[*i] += g;
                });
            }
        }
''', '''        self.velocity.mul_assign(m);
        features.scaled_addto(scale_factor, &mut self.velocity);
'''))
r('o4-sgd-scaled-one', (SG, '''        Ok(features.scaled_addto(self.0, weights))''', '''        self.step_scaled(weights, features, 1.0)'''))
r('o4-isgd-map', (IS, '''        Ok(features.scaled_addto(self.compute_lr(features) * scale_factor, weights))''',
  '''        let lr = ISGD::compute_lr(self, features);
        let alpha = scale_factor * lr;
        features.scaled_addto(alpha, weights);

        Ok(())'''))
# derives by hand
DER = '''#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
pub struct %s'''
DBG = DER.replace('Clone, Debug, PartialEq', 'Debug')
r('o4-adam-derive', (AD, DER % 'Adam', DBG % 'Adam'), (AD, 'impl Adam {', '''impl Clone for Adam {
    fn clone(&self) -> Self {
        Adam {
            exp_avg: self.exp_avg.clone(),
            exp_avg_sq: self.exp_avg_sq.clone(),
            ..*self
        }
    }
}

impl PartialEq for Adam {
    fn eq(&self, other: &Self) -> bool {
        self.learning_rate == other.learning_rate
            && self.beta1 == other.beta1
            && self.beta2 == other.beta2
            && self.beta1_prod == other.beta1_prod
            && self.beta2_prod == other.beta2_prod
            && self.exp_avg == other.exp_avg
            && self.exp_avg_sq == other.exp_avg_sq
    }
}

impl Adam {'''))
r('o4-momentum-derive', (MO, DER % 'SGDMomentum', DBG % 'SGDMomentum'), (MO, 'impl SGDMomentum {', '''impl Clone for SGDMomentum {
    fn clone(&self) -> Self {
        let mut other = SGDMomentum::new(self.velocity.len(), self.momentum, self.learning_rate);
        other.velocity.assign(&self.velocity);
        other
    }
}

impl PartialEq for SGDMomentum {
    fn eq(&self, other: &Self) -> bool {
        (self.momentum, self.learning_rate) == (other.momentum, other.learning_rate)
            && self.velocity.len() == other.velocity.len()
            && self.velocity.iter().zip(other.velocity.iter()).all(|(x, y)| x == y)
    }
}

impl SGDMomentum {'''))
KR = 'src/basis/kernels/rational_quadratic.rs'
KS = 'src/basis/kernels/stationary.rs'
r('k4-rq-derive', (KR, DER % 'RationalQuadratic', DBG % 'RationalQuadratic'),
  (KR, 'impl Default for RationalQuadratic {', '''impl Clone for RationalQuadratic {
    fn clone(&self) -> Self {
        RationalQuadratic::new(self.variance, self.lengthscales.to_vec(), self.power)
    }
}

impl PartialEq for RationalQuadratic {
    fn eq(&self, other: &Self) -> bool {
        if self.lengthscales.len() != other.lengthscales.len() {
            return false;
        }
        for (a, b) in self.lengthscales.iter().zip(&other.lengthscales) {
            if a != b {
                return false;
            }
        }
        self.variance == other.variance && self.power == other.power
    }
}

impl Default for RationalQuadratic {'''))
r('k4-shared-distance', ('src/basis/kernels/mod.rs', 'mod stationary;', '''pub(self) fn scaled_distance(x: &[f64], y: &[f64], lengthscales: &[f64]) -> f64 {
    let n = x.len().min(y.len());
    let mut acc = 0.0;

    for i in 0..n {
        let z = (x[i] - y[i]) / lengthscales[i % lengthscales.len()];
        acc += z * z;
    }

    acc.sqrt()
}

mod stationary;'''),
  (KR, '''        let x = x
            .iter()
            .zip(y.iter())
            .map(|(x, y)| x - y)
            .zip(self.lengthscales.iter().cycle())
            .map(|(d, l)| d / l)
            .fold(0.0, |acc, z| acc + z * z)
            .sqrt();

        self.kernel_stationary(x)''', '''        self.kernel_stationary(super::scaled_distance(x, y, &self.lengthscales))'''))
r('k4-shared-distance2', ('src/basis/kernels/mod.rs', 'mod stationary;', '''pub(self) fn squared_distance(x: &[f64], y: &[f64], lengthscales: &[f64]) -> f64 {
    x.iter()
        .zip(y)
        .zip(lengthscales.iter().cycle())
        .map(|((x, y), l)| (x - y) / l)
        .map(|z| z * z)
        .sum()
}

mod stationary;'''),
  (KS, '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())''', '''                let r2 = super::squared_distance(x, y, &$self.lengthscales);

                $self.kernel_stationary(r2.sqrt())'''))
NO = 'src/basis/normalisation.rs'
r('n4-scaled-helper', (NO, 'use std::f64;', '''use std::f64;

fn rescale_by(f: Features, z: f64) -> Features {
    match f {
        Features::Dense(da) => Features::Dense(da.mapv(|x| x / z)),
        Features::Sparse(sa) => Features::Sparse(SparseActivations {
            dim: sa.dim,
            activations: sa.activations.into_iter().map(|(i, x)| (i, x / z)).collect(),
        }),
    }
}

fn l1_norm(f: &Features) -> f64 { f.fold(0.0, |acc, x| acc + x.abs()) }

fn linf_norm(f: &Features) -> f64 {
    match f {
        Features::Dense(da) => da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs())),
        Features::Sparse(sa) => sa
            .iter()
            .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs())),
    }
}
'''), (NO, '''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x.abs());

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
        })
''', '''        let f = self.0.project(input)?;
        let z = l1_norm(&f);

        Ok(rescale_by(f, z))
'''), (NO, '''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa
                    .iter()
                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
        })
''', '''        self.0.project(input).map(|f| {
            let z = linf_norm(&f);

            rescale_by(f, z)
        })
'''), (NO, '''            self.0.project(input).map(|f| match f {
                Features::Dense(da) => {
                    let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                    da[index] / z
                },
                Features::Sparse(sa) => sa.activations.get(&index).map_or(0.0, |x| {
                    x / sa.iter().fold(
                        f64::NEG_INFINITY,
                        |acc, (_, x)| acc.max(x.abs())
                    )
                }),
            })
''', '''            let f = self.0.project(input)?;
            let z = linf_norm(&f);

            Ok(f.get(index).map_or(0.0, |x| x / z))
'''))
r('n4-ith-project', (NO, '''                Features::Sparse(sa) =>
                    sa.activations.get(&index).map_or(0.0, |x| {
                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
                    }),
''', '''                Features::Sparse(sa) => {
                    let z: f64 = sa.activations.values().map(|x| x.abs()).sum();

                    match sa.activations.get(&index) {
                        Some(x) => x / z,
                        None => 0.0,
                    }
                },
'''))
L = 'src/lib.rs'
r('l4-step-columns', (L, '''            let opt = &mut self.optimiser;
            let values = b.matmul(&self.weights);
            let errors = f(b, values);

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
''', '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);

            step_columns(&mut self.optimiser, &mut self.weights, b, errors)
'''), (L, '''            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
''', '''            step_columns(&mut self.optimiser, &mut self.weights, b, errors)
'''), (L, '''impl<B, O> VectorLFA<B, O> {''', '''fn step_columns<O, E>(
    opt: &mut O,
    weights: &mut ndarray::Array2<f64>,
    b: &Features,
    errors: E,
) -> Result<()>
where
    O: optim::Optimiser,
    E: IntoIterator<Item = f64>,
{
    errors
        .into_iter()
        .zip(weights.columns_mut().into_iter())
        .fold(Ok(()), |acc, (e, mut c)| {
            acc.and(opt.step_scaled(&mut c, b, e))
        })
}

impl<B, O> VectorLFA<B, O> {'''))
r('l4-question-mark', (L, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.column_mut(index), b, error)
        })
''', '''        let phi = self.basis.project(input)?;
        let mut column = self.weights.column_mut(index);

        self.optimiser.step_scaled(&mut column, &phi, error)
'''), (L, '''        self.basis
            .project(input)
            .map(|b| b.dot(&self.weights.column(index)))
''', '''        let phi = self.basis.project(input)?;
        let column = self.weights.index_axis(ndarray::Axis(1), index);

        Ok(phi.dot(&column))
'''), (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let outputs = self.try_iter(input)?;

        Ok(outputs.collect())
'''))
r('l4-update_with-match', (L, '''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })
''', '''        match self.basis.project(input) {
            Ok(phi) => {
                let value = phi.dot(&self.weights);
                let error = f(&phi, value);

                self.optimiser.step_scaled(&mut self.weights.view_mut(), &phi, error)
            }
            Err(e) => Err(e),
        }
'''))
T = 'src/basis/tile_coding.rs'
r('t4-tiles-helper', (T, '''impl<H> Space for TileCoding<H> {''', '''impl<H: BuildHasher> TileCoding<H> {
    fn tiles<'a, T>(&self, input: T) -> Vec<usize>
    where T: IntoIterator<Item = &'a f64> {
        let state = bin_state(input, self.n_tilings);

        hash_state(
            self.hasher_builder.build_hasher(),
            &state,
            self.n_tilings,
            self.memory_size,
        )
        .collect()
    }
}

impl<H> Space for TileCoding<H> {'''), (T, '''        let state = bin_state(input, self.n_tilings);
        let hash = hash_state(
            self.hasher_builder.build_hasher(),
            &state,
            self.n_tilings,
            self.memory_size,
        );

        Ok(Features::Sparse(SparseActivations {
            dim: self.memory_size,
            activations: hash.map(|i| (i, 1.0)).collect(),
        }))
''', '''        Ok(Features::unitary(self.memory_size, self.tiles(input)))
'''), (T, '''            let state = bin_state(input, self.n_tilings);
            let mut hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            Ok(if self.tiles(input).contains(&index) { 1.0 } else { 0.0 })
'''))
r('t4-hash-loop', (T, '''    (0..n_tilings).map(move |t| {
        let t = t as isize;
        let tx2 = t * 2;

        hasher.write_isize(t);

        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }

        hasher.finish() as usize % memory_size
    })
''', '''    let n = n_tilings as isize;

    (0..n).map(move |t| {
        let mut offset = t;

        hasher.write_isize(t);

        for &s in state {
            hasher.write_isize((s + offset).div_euclid(n));
            offset += 2 * t;
        }

        (hasher.finish() as usize) % memory_size
    })
'''))
G = 'src/basis/uniform_grid.rs'
r('g4-features-helper', (G, '''        let active_bin = self.hash(input);

        Ok(Features::Sparse(SparseActivations {
            dim: self.n_features,
            activations: ::std::iter::once((active_bin, 1.0)).collect(),
        }))
''', '''        let bin = self.hash(input);
        let mut activations = ::std::collections::HashMap::with_capacity(1);

        activations.insert(bin, 1.0);

        Ok(Features::Sparse(SparseActivations {
            dim: self.n_features,
            activations,
        }))
'''))
KB = 'src/basis/kernelised.rs'
r('k4-kb-iter', (KB, '''        Ok(self
            .prototypes
            .iter()
            .map(|p| p.distance_from(input.borrow()))
            .collect())
''', '''        let x: &[f64] = input.borrow();
        let mut activations = Vec::with_capacity(self.prototypes.len());

        for p in &self.prototypes {
            activations.push(p.kernel.kernel(x, &p.centroid));
        }

        Ok(Features::from(activations))
'''), (KB, '''        self.prototypes
            .get(index)
            .map(|p| p.distance_from(input.borrow()))
            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))
''', '''        if index >= self.prototypes.len() {
            return Err(Error::index_error(index, self.prototypes.len()));
        }

        Ok(self.prototypes[index].distance_from(input.borrow()))
'''))
r('k4-kb-parts', (KB, '''impl KernelBasis<Vec<f64>, kernels::ExpQuad> {''', '''fn centroids_of(partitioning: &ProductSpace<Equipartition>) -> Vec<Vec<f64>> {
    partitioning
        .centres()
        .into_iter()
        .multi_cartesian_product()
        .collect()
}

fn widths_of(partitioning: &ProductSpace<Equipartition>) -> Vec<f64> {
    partitioning.iter().map(|d| d.partition_width()).collect()
}

impl KernelBasis<Vec<f64>, kernels::ExpQuad> {'''), (KB, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);
        let centroids: Vec<Vec<f64>> = partitioning
            .centres()
            .into_iter()
            .multi_cartesian_product()
            .collect();

        KernelBasis::homogeneous(centroids, kernel)
''', '''        KernelBasis::homogeneous(
            centroids_of(&partitioning),
            kernels::ExpQuad::new(1.0, widths_of(&partitioning)),
        )
'''), (KB, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::Matern32::new(1.0, lengthscales);
        let centroids: Vec<Vec<f64>> = partitioning
            .centres()
            .into_iter()
            .multi_cartesian_product()
            .collect();

        KernelBasis::homogeneous(centroids, kernel)
''', '''        KernelBasis::homogeneous(
            centroids_of(&partitioning),
            kernels::Matern32::new(1.0, widths_of(&partitioning)),
        )
'''))
S = 'src/basis/stack.rs'
r('s4-stack-index', (S, '''        let n12 = n1 + n2;

        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }
''', '''        match index.checked_sub(n1) {
            None => self.b1.ith(input, index),
            Some(j) if j < n2 => self.b2.ith(input, j),
            Some(_) => Err(Error::index_error(index, n1 + n2)),
        }
'''), (S, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))
''', '''        let first = self.b1.project(input.clone())?;
        let second = self.b2.project(input)?;

        Ok(Features::stack(first, second))
'''))
C = 'src/basis/constant.rs'
r('b4-fixed-unitary', (C, '''        Ok(Features::Sparse(SparseActivations {
            dim: (self.0).0,
            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),
        }))
''', '''        let Fixed((dim, ref active)) = *self;

        Ok(Features::unitary(dim, active.iter().copied()))
'''), (C, "use crate::{ActivationT, Features, IndexT, Result, SparseActivations};", "use crate::{ActivationT, Features, IndexT, Result};"),
  (C, '''            Ok(*self.0.get(index).unwrap())
''', '''            Ok(self.0[index])
'''))
