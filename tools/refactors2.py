# continued: optimisers, normalisers, bases, kernels, approximators (exec'd by refactors.py)
O = 'src/optim/'
B = 'src/basis/'
L = 'src/lib.rs'

ADG = '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),
'''
ADGS = '''                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
'''
r('o-adagrad-for', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => {
                for ((a, w), ss) in da.iter().zip(weights.iter_mut()).zip(self.accumulator.iter_mut()) {
                    let g = a * scale_factor;

                    *ss += g * g;
                    *w += lr * g / (ss.sqrt() + EPS);
                }
            },
'''))
r('o-adagrad-index', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => {
                for i in 0..da.len() {
                    let g = da[i] * scale_factor;

                    self.accumulator[i] += g.powi(2);
                    weights[i] += lr * g / (self.accumulator[i].sqrt() + EPS);
                }
            },
'''))
r('o-adagrad-enumerate', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => {
                for (i, ss) in self.accumulator.iter_mut().enumerate() {
                    let g = da[i] * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] = weights[i] + lr * g / (ss.sqrt() + EPS);
                }
            },
'''))
r('o-adagrad-zip', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => {
                ndarray::Zip::from(da).and(weights).and(&mut self.accumulator).for_each(|a, w, ss| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                })
            },
'''))
r('o-adagrad-helper', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| *w += increment(lr, a * scale_factor, ss)),
'''), (O + 'adagrad.rs', ADGS, '''                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    weights[i] += increment(lr, g, ss);
                }
'''), (O + 'adagrad.rs', '''impl Optimiser<Features> for''', '''/// Accumulate the squared gradient and return the step.
fn increment(lr: f64, g: f64, ss: &mut f64) -> f64 {
    *ss += g.powi(2);

    lr * g / (ss.sqrt() + EPS)
}

impl Optimiser<Features> for'''))
r('o-adagrad-sparse-active', (O + 'adagrad.rs', ADGS, '''                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;
                    let ss = &mut self.accumulator[i];

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
'''))
r('o-adagrad-sparse-iflet', (O + 'adagrad.rs', ADGS, '''                for (i, ss) in self.accumulator.iter_mut().enumerate() {
                    if let Some(a) = sa.activations.get(&i) {
                        let g = a * scale_factor;

                        *ss = *ss + g.powi(2);
                        weights[i] += lr * g / (ss.sqrt() + EPS);
                    }
                }
'''))
r('o-adagrad-reset', (O + 'adagrad.rs', '''self.accumulator.fill(0.0);''', '''self.accumulator = Array1::zeros(self.accumulator.len());'''))

AD_D = '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
'''
AD_S = '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);

                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;

                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
'''
r('o-adam-hoist', (O + 'adam.rs', AD_D, '''                let (c1, c2) = (1.0 - self.beta1_prod, 1.0 - self.beta2_prod);

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    self.exp_avg[i] = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    self.exp_avg_sq[i] = self.beta2 * self.exp_avg_sq[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = self.exp_avg[i] / c1;
                    let m2_unbiased = self.exp_avg_sq[i] / c2;

                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
'''))
r('o-adam-slicezip', (O + 'adam.rs', AD_D, '''                let c1 = 1.0 - self.beta1_prod;
                let c2 = 1.0 - self.beta2_prod;
                let (beta1, beta2, lr) = (self.beta1, self.beta2, self.learning_rate);

                for (((a, m1), m2), w) in da
                    .iter()
                    .zip(self.exp_avg.iter_mut())
                    .zip(self.exp_avg_sq.iter_mut())
                    .zip(weights.iter_mut())
                {
                    let g = a * scale_factor;

                    *m1 = beta1 * *m1 + (1.0 - beta1) * g;
                    *m2 = beta2 * *m2 + (1.0 - beta2) * g.powi(2);
                    *w += lr * (*m1 / c1) / ((*m2 / c2).sqrt() + EPS);
                }
'''))
r('o-adam-helper', (O + 'adam.rs', AD_D, '''                for (i, a) in da.indexed_iter() {
                    let m1 = self.beta1 * self.exp_avg[i];
                    let m2 = self.beta2 * self.exp_avg_sq[i];

                    weights[i] += self.advance(i, m1, m2, a * scale_factor);
                }
'''), (O + 'adam.rs', AD_S, '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);

                for (&i, a) in sa.iter() {
                    let m1 = self.exp_avg[i];
                    let m2 = self.exp_avg_sq[i];

                    weights[i] += self.advance(i, m1, m2, a * scale_factor);
                }
'''), (O + 'adam.rs', '''impl Optimiser<Features> for''', '''impl Adam {
    fn advance(&mut self, i: usize, m1: f64, m2: f64, g: f64) -> f64 {
        let m1_new = m1 + (1.0 - self.beta1) * g;
        let m2_new = m2 + (1.0 - self.beta2) * g * g;

        self.exp_avg[i] = m1_new;
        self.exp_avg_sq[i] = m2_new;

        let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
        let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

        self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS)
    }
}

impl Optimiser<Features> for'''))
r('o-adam-stararith', (O + 'adam.rs', AD_S, '''                self.exp_avg *= self.beta1;
                self.exp_avg_sq *= self.beta2;

                sa.iter().for_each(|(i, a)| {
                    let i = *i;
                    let g = a * scale_factor;

                    self.exp_avg[i] += (1.0 - self.beta1) * g;
                    self.exp_avg_sq[i] += (1.0 - self.beta2) * g * g;

                    let m1_unbiased = self.exp_avg[i] / (1.0 - self.beta1_prod);
                    let m2_unbiased = self.exp_avg_sq[i] / (1.0 - self.beta2_prod);

                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                });
'''))
r('o-adam-mapv', (O + 'adam.rs', '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);
''', '''                let (b1, b2) = (self.beta1, self.beta2);

                self.exp_avg.mapv_inplace(|m| b1 * m);
                self.exp_avg_sq.map_inplace(|m| *m *= b2);
'''))
r('o-adam-reset', (O + 'adam.rs', '''        self.exp_avg.fill(0.0);
        self.exp_avg_sq.fill(0.0);''', '''        for m in self.exp_avg.iter_mut().chain(self.exp_avg_sq.iter_mut()) {
            *m = 0.0;
        }'''))
r('o-adam-reset-new', (O + 'adam.rs', '''        self.beta1_prod = 1.0;
        self.beta2_prod = 1.0;
        self.exp_avg.fill(0.0);
        self.exp_avg_sq.fill(0.0);''', '''        *self = Adam::new(self.exp_avg.len(), self.learning_rate, self.beta1, self.beta2);'''))
r('o-adam-densify', (O + 'adam.rs', AD_S, '''                for i in 0..self.exp_avg.len() {
                    let g = sa.activations.get(&i).map_or(0.0, |a| a * scale_factor);

                    let m1_new = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * self.exp_avg_sq[i] + (1.0 - self.beta2) * g * g;

                    self.exp_avg[i] = m1_new;
                    self.exp_avg_sq[i] = m2_new;

                    if sa.activations.contains_key(&i) {
                        let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                        let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                        weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                    }
                }
'''))
AX_D = '''                let m = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let u = self.exp_inf.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;
                    let u_new = (self.beta2 * u[i]).max(g.abs());
                    let m_unbiased = m_new / (1.0 - self.beta1_prod);

                    m[i] = m_new;
                    u[i] = u_new;
                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);
                }
'''
r('o-adamax-hoist', (O + 'adamax.rs', AX_D, '''                let bc = 1.0 - self.beta1_prod;

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    self.exp_avg[i] = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    self.exp_inf[i] = g.abs().max(self.beta2 * self.exp_inf[i]);

                    let m_unbiased = self.exp_avg[i] / bc;
                    weights[i] += self.learning_rate * m_unbiased / (self.exp_inf[i] + EPS);
                }
'''))
r('o-adamax-lr', (O + 'adamax.rs', AX_D, '''                let lr_t = self.learning_rate / (1.0 - self.beta1_prod);

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    self.exp_avg[i] = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    self.exp_inf[i] = (self.beta2 * self.exp_inf[i]).max(g.abs());

                    weights[i] += lr_t * self.exp_avg[i] / (self.exp_inf[i] + EPS);
                }
'''))
r('o-adamax-ifmax', (O + 'adamax.rs', AX_D, AX_D.replace('let u_new = (self.beta2 * u[i]).max(g.abs());', '''let decayed = self.beta2 * u[i];
                    let u_new = if decayed > g.abs() { decayed } else { g.abs() };''')))
r('o-adamax-zip3', (O + 'adamax.rs', AX_D, '''                let AdaMax { beta1, beta1_prod, beta2, learning_rate, ref mut exp_avg, ref mut exp_inf } = *self;

                da.iter()
                    .zip(exp_avg.iter_mut())
                    .zip(exp_inf.iter_mut())
                    .zip(weights.iter_mut())
                    .for_each(|(((a, m), u), w)| {
                        let g = a * scale_factor;

                        *m = beta1 * *m + (1.0 - beta1) * g;
                        *u = (beta2 * *u).max(g.abs());
                        *w += learning_rate * (*m / (1.0 - beta1_prod)) / (*u + EPS);
                    });
'''))
MO = '''            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
            },
        }
'''
r('o-momentum-scaledaddto', (O + 'momentum.rs', '''        match features {
''' + MO, '''        self.velocity.mul_assign(m);
        features.scaled_addto(scale_factor, &mut self.velocity.view_mut());
'''))
r('o-momentum-for', (O + 'momentum.rs', MO, '''            Features::Dense(da) => {
                for (v, g) in self.velocity.iter_mut().zip(da.iter()) {
                    *v = m * *v + g * scale_factor;
                }
            },
            Features::Sparse(sa) => {
                self.velocity *= m;

                for (&i, a) in sa.iter() {
                    self.velocity[i] += a * scale_factor;
                }
            },
        }
'''))
r('o-momentum-zip', (O + 'momentum.rs', MO, '''            Features::Dense(da) => ndarray::Zip::from(&mut self.velocity)
                .and(da)
                .for_each(|v, &g| *v = m * *v + g * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.iter_mut().for_each(|v| *v *= m);

                for (&i, a) in sa.iter() {
                    self.velocity[i] += a * scale_factor;
                }
            },
        }
'''))
r('o-momentum-wloop', (O + 'momentum.rs', '''        Ok(weights.scaled_add(lr, &self.velocity))''', '''        for (w, v) in weights.iter_mut().zip(self.velocity.iter()) {
            *w += lr * v;
        }

        Ok(())'''))
r('o-momentum-addassign', (O + 'momentum.rs', '''        Ok(weights.scaled_add(lr, &self.velocity))''', '''        *weights += &(&self.velocity * lr);

        Ok(())'''))
r('o-nag-merge', (O + 'nesterov.rs', '''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);
''', '''            features.scaled_addto(lr * scale_factor, weights);
            weights.zip_mut_with(&self.velocity, |w, v| *w += lr * m * v);
'''))
r('o-nag-helper', (O + 'nesterov.rs', '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    let g = a * scale_factor;

                    self.velocity[*i] += g;
                });
            }
        }
''', '''        self.accumulate(features, scale_factor);
'''), (O + 'nesterov.rs', '''impl Optimiser<Features> for''', '''impl NAG {
    fn accumulate(&mut self, features: &Features, scale_factor: f64) {
        self.velocity.mul_assign(self.momentum);

        match features {
            Features::Dense(da) => self.velocity.scaled_add(scale_factor, da),
            Features::Sparse(sa) => for (&i, a) in sa.iter() {
                self.velocity[i] += a * scale_factor;
            },
        }
    }
}

impl Optimiser<Features> for'''))
r('o-sgd-default', (O + 'sgd.rs', '''        Ok(features.scaled_addto(self.0, weights))''', '''        self.step_scaled(weights, features, 1.0)'''))
r('o-sgd-stmt', (O + 'sgd.rs', '''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''', '''        let alpha = scale_factor * self.0;

        features.scaled_addto(alpha, weights);

        Ok(())'''))
r('o-sgd-match', (O + 'sgd.rs', '''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''', '''        let alpha = self.0 * scale_factor;

        match features {
            Features::Dense(da) => weights.scaled_add(alpha, da),
            Features::Sparse(sa) => for (&i, a) in sa.iter() {
                weights[i] += alpha * a;
            },
        }

        Ok(())'''))
r('o-isgd-match', (O + 'isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);
''', '''        let norm: f64 = match features {
            Features::Dense(da) => da.iter().map(|x| x * x).sum(),
            Features::Sparse(sa) => sa.activations.values().map(|x| x * x).sum(),
        };
'''))
r('o-isgd-recip', (O + 'isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)''', '''        let mut norm = 0.0;

        features.clone().map_into(|x| { norm += x.powi(2); x });

        let lr = self.0;
        let denom = lr * norm + 1.0;

        lr * denom.recip()'''))
r('o-isgd-dot', (O + 'isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);
''', '''        let norm = match features {
            Features::Dense(da) => da.dot(da),
            Features::Sparse(sa) => sa.iter().fold(0.0, |acc, (_, x)| acc + x.powi(2)),
        };
'''))
r('o-isgd-step', (O + 'isgd.rs', '''        Ok(features.scaled_addto(self.compute_lr(features), weights))''', '''        let lr = self.compute_lr(features);

        features.scaled_addto(lr, weights);
        Ok(())'''))

# ---- normalisers
N = B + 'normalisation.rs'
r('n-l0-let', (N, '''        self.0.project(input).map(|f| {
            let z = f.n_active() as f64;

            f.map_into(|x| x / z)
        })''', '''        let f = self.0.project(input)?;
        let z = f.n_active() as f64;

        Ok(f.map_into(|x| x / z))'''))
r('n-l0-ith', (N, '''unsafe { f.uget(index).copied().unwrap_or(0.0) / z }''', '''match f {
                        Features::Dense(da) => da[index] / z,
                        Features::Sparse(sa) => match sa.activations.get(&index) {
                            Some(x) => x / z,
                            None => 0.0,
                        },
                    }'''))
r('n-l0-ith-get', (N, '''unsafe { f.uget(index).copied().unwrap_or(0.0) / z }''', '''f.get(index).map_or(0.0, |x| x / z)'''))
L1D = '''            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x.abs());

                Features::Dense(da.mapv(|x| x / z))
            },
'''
L1S = '''                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
'''
r('n-l1-mapinto', (N, '''        self.0.project(input).map(|f| match f {
''' + L1D + '''            Features::Sparse(sa) => {
''' + L1S + '''            },
        })''', '''        self.0.project(input).map(|f| {
            let z = f.fold(0.0, |acc, x| acc + x.abs());

            f.map_into(|x| x / z)
        })'''))
r('n-l1-sum', (N, L1D, '''            Features::Dense(da) => {
                let z: f64 = da.iter().map(|x| x.abs()).sum();

                Features::Dense(da / z)
            },
'''))
r('n-l1-inplace', (N, L1D, '''            Features::Dense(mut da) => {
                let z = da.mapv(f64::abs).sum();

                da.mapv_inplace(|x| x / z);

                Features::Dense(da)
            },
'''))
r('n-l1-divassign', (N, L1D, '''            Features::Dense(mut da) => {
                let z = da.iter().fold(0.0, |acc, x| acc + x.abs());

                da /= z;

                Features::Dense(da)
            },
'''))
r('n-l1-sparse-values', (N, L1S, '''                let mut sa = sa;
                let z: f64 = sa.activations.values().map(|x| x.abs()).sum();

                for (_, x) in sa.activations.iter_mut() {
                    *x /= z;
                }

                Features::Sparse(sa)
'''))
r('n-l1-helper', (N, L1D, '''            Features::Dense(da) => {
                let z = l1_norm(da.iter());

                Features::Dense(da.mapv(|x| x / z))
            },
'''), (N, L1S, L1S.replace('sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())', 'l1_norm(sa.activations.values())')), (N, '''                    let z = da.fold(0.0, |acc, x| acc + x.abs());
''', '''                    let z = l1_norm(da.iter());
'''), (N, '''impl<B> L1Normaliser<B> {''', '''fn l1_norm<'a>(xs: impl Iterator<Item = &'a f64>) -> f64 {
    xs.fold(0.0, |acc, x| acc + x.abs())
}

impl<B> L1Normaliser<B> {'''))
r('n-l1-ith-project', (N, '''            self.0.project(input).map(|f| match f {
                Features::Dense(da) => {
                    let z = da.fold(0.0, |acc, x| acc + x.abs());

                    da[index] / z
                },
                Features::Sparse(sa) =>
                    sa.activations.get(&index).map_or(0.0, |x| {
                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
                    }),
            })''', '''            self.project(input).map(|f| f.get(index).copied().unwrap_or(0.0))'''))
L2D = '''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(da.mapv(|x| x / z))
'''
r('n-l2-dot', (N, L2D, '''                let z = da.dot(&da).sqrt();

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n-l2-powi', (N, L2D, '''                let ss: f64 = da.iter().map(|x| x.powi(2)).sum();
                let z = ss.sqrt();

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n-l2-fn', (N, '''impl<B> L2Normaliser<B> {
''', '''/// Euclidean norm of the features.
fn l2_norm(f: &Features) -> f64 {
    match f {
        Features::Dense(da) => da.fold(0.0, |acc, x| acc + x * x).sqrt(),
        Features::Sparse(sa) => sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt(),
    }
}

impl<B> L2Normaliser<B> {
'''), (N, '''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt();

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
        })''', '''        self.0.project(input).map(|f| {
            let z = l2_norm(&f);

            f.map_into(|x| x / z)
        })'''), (N, '''            self.0.project(input).map(|f| match f {
                Features::Dense(da) => {
                    let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                    da[index] / z
                },
                Features::Sparse(sa) =>
                    sa.activations.get(&index).map_or(0.0, |x| {
                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt()
                    }),
            })''', '''            let f = self.0.project(input)?;

            Ok(f.get(index).map_or(0.0, |x| x / l2_norm(&f)))'''))
LID = '''                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))
'''
r('n-linf-for', (N, LID, '''                let mut z = f64::NEG_INFINITY;

                for x in da.iter() {
                    z = z.max(x.abs());
                }

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n-linf-foldmax', (N, LID, '''                let z = da.iter().map(|x| x.abs()).fold(f64::NEG_INFINITY, f64::max);

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n-linf-zero', (N, LID, '''                let z = da.fold(0.0f64, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n-linf-if', (N, LID, '''                let z = da.fold(f64::NEG_INFINITY, |acc, x| if x.abs() > acc { x.abs() } else { acc });

                Features::Dense(da.mapv(|x| x / z))
'''))

# ---- tile coding and grid
T = B + 'tile_coding.rs'
BIN = '''    input
        .into_iter()
        .map(|f| (f * n_tilings as f64).floor() as isize)
        .collect()
'''
r('t-bin-for', (T, BIN, '''    let mut state = Vec::new();

    for f in input {
        state.push((f * n_tilings as f64).floor() as isize);
    }

    state
'''))
r('t-bin-scale', (T, BIN, '''    let scale = n_tilings as f64;

    input.into_iter().map(|f| (scale * f).floor() as isize).collect()
'''))
r('t-hash-foreach', (T, '''        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }
''', '''        let nt = n_tilings as isize;

        for i in 0..state.len() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((state[i] + offset).div_euclid(nt));
        }
'''))
r('t-hash-running', (T, '''        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }
''', '''        let mut offset = t;

        for s in state.iter() {
            hasher.write_isize((s + offset).div_euclid(n_tilings as isize));
            offset += tx2;
        }
'''))
r('t-hash-odd', (T, '''            let offset = t + i as isize * tx2;
''', '''            let offset = t * (1 + 2 * i as isize);
'''))
r('t-hash-fn', (T, '''            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
''', '''            hasher.write_isize(tile(*s, t + i as isize * tx2, n_tilings as isize))
'''), (T, '''fn hash_state<''', '''fn tile(s: isize, offset: isize, n: isize) -> isize { (s + offset).div_euclid(n) }

fn hash_state<'''))
r('t-project-unitary', (T, '''        Ok(Features::Sparse(SparseActivations {
            dim: self.memory_size,
            activations: hash.map(|i| (i, 1.0)).collect(),
        }))''', '''        Ok(Features::unitary(self.memory_size, hash))'''))
r('t-project-insert', (T, '''        Ok(Features::Sparse(SparseActivations {
            dim: self.memory_size,
            activations: hash.map(|i| (i, 1.0)).collect(),
        }))''', '''        let mut activations = std::collections::HashMap::new();

        for i in hash {
            activations.insert(i, 1.0);
        }

        Ok(Features::Sparse(SparseActivations {
            dim: self.memory_size,
            activations,
        }))'''))
r('t-ith-for', (T, '''            let mut hash = hash_state(''', '''            let hash = hash_state('''), (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })''', '''            for f in hash {
                if f == index {
                    return Ok(1.0);
                }
            }

            Ok(0.0)'''))
r('t-ith-max', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })''', '''            if hash.any(|f| f == index) {
                Ok(1.0)
            } else {
                Ok(0.0)
            }'''))
r('t-ith-project', (T, '''            let state = bin_state(input, self.n_tilings);
            let mut hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })''', '''            self.project(input).map(|f| f[index])'''))
r('t-hashes-helper', (T, '''impl<H> Space for TileCoding<H> {''', '''impl<H: BuildHasher> TileCoding<H> {
    fn active<'a, T: IntoIterator<Item = &'a f64>>(&self, input: T) -> Vec<usize> {
        let state = bin_state(input, self.n_tilings);

        hash_state(self.hasher_builder.build_hasher(), &state, self.n_tilings, self.memory_size).collect()
    }
}

impl<H> Space for TileCoding<H> {'''), (T, '''        let state = bin_state(input, self.n_tilings);
        let hash = hash_state(
            self.hasher_builder.build_hasher(),
            &state,
            self.n_tilings,
            self.memory_size,
        );

''', ''), (T, '''activations: hash.map(|i| (i, 1.0)).collect(),''', '''activations: self.active(input).into_iter().map(|i| (i, 1.0)).collect(),'''))
G = B + 'uniform_grid.rs'
GH = '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)
'''
r('g-hash-for', (G, GH, '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let mut acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        for (d, v) in d_it.zip(in_it) {
            acc = d.map_onto(v) + d.n_partitions() * acc;
        }

        acc
'''))
r('g-hash-horner', (G, GH, '''        self.feature_space
            .iter()
            .zip(input.into_iter())
            .fold(0, |acc, (d, v)| acc * d.n_partitions() + d.map_onto(*v))
'''))
r('g-project-unitary', (G, '''        let active_bin = self.hash(input);

        Ok(Features::Sparse(SparseActivations {
            dim: self.n_features,
            activations: ::std::iter::once((active_bin, 1.0)).collect(),
        }))''', '''        Ok(Features::unitary(self.n_features, std::iter::once(self.hash(input))))'''))
r('g-project-vec', (G, '''::std::iter::once((active_bin, 1.0)).collect()''', '''vec![(active_bin, 1.0)].into_iter().collect()'''))
r('g-ith-let', (G, '''            Ok(if self.hash(input) == index { 1.0 } else { 0.0 })''', '''            let bin = self.hash(input);

            Ok((bin == index) as u8 as f64)'''))
# ---- stack / constants
S = B + 'stack.rs'
r('s-project-q', (S, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''        let f1 = self.b1.project(input.clone())?;
        let f2 = self.b2.project(input)?;

        Ok(f1.stack(f2))'''))
r('s-project-match', (S, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))''', '''        match self.b1.project(input.clone()) {
            Ok(f1) => match self.b2.project(input) {
                Ok(f2) => Ok(f1.stack(f2)),
                Err(e) => Err(e),
            },
            Err(e) => Err(e),
        }'''))
r('s-ith-early', (S, '''        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }''', '''        if index >= n12 {
            return Err(Error::index_error(index, n12));
        }

        match index.checked_sub(n1) {
            Some(i) => self.b2.ith(input, i),
            None => self.b1.ith(input, index),
        }'''))
r('s-bias-dense', (B + 'constant.rs', '''Ok(vec![self.0].into())''', '''Ok(Features::dense(std::iter::once(self.0)))'''))
r('s-fixed-index', (B + 'constant.rs', '''Ok(*self.0.get(index).unwrap())''', '''Ok(self.0[index])'''))
r('s-fixed-ok_or', (B + 'constant.rs', '''        check_index!(index < self.0.len() => {
            Ok(*self.0.get(index).unwrap())
        })''', '''        self.0.get(index).copied().ok_or_else(|| crate::Error::index_error(index, self.0.len()))'''))
r('s-fixed-unitary', (B + 'constant.rs', '''        Ok(Features::Sparse(SparseActivations {
            dim: (self.0).0,
            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),
        }))''', '''        let (dim, ref active) = self.0;

        Ok(Features::unitary(dim, active.iter().copied()))'''))
# ---- Fourier, polynomial, Chebyshev
FO = B + 'fourier.rs'
r('b-fourier-sum', (FO, '''        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()''', '''        let z: f64 = iter.into_iter().map(|(v, c)| v * c).sum();

        (z * PI).cos()'''))
r('b-fourier-for', (FO, '''        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()''', '''        let mut z = 0.0;

        for (v, c) in iter {
            z += c * v;
        }

        (PI * z).cos()'''))
r('b-fourier-proj-for', (FO, '''        Ok(self
            .coefficients
            .iter()
            .map(|cfs| Self::compute_feature(ss.iter().copied().zip(cfs.iter())))
            .collect())''', '''        let mut phi = Vec::with_capacity(self.coefficients.len());

        for cfs in self.coefficients.iter() {
            phi.push(Self::compute_feature(ss.iter().copied().zip(cfs)));
        }

        Ok(phi.into())'''))
r('b-fourier-ith-check', (FO, '''        self.coefficients
            .get(index)
            .map(|cfs| {
                let ss = rescale!(input into self.limits);

                Self::compute_feature(ss.zip(cfs.iter()))
            })
            .ok_or_else(|| Error::index_error(index, self.dim().into()))''', '''        if index >= self.coefficients.len() {
            return Err(Error::index_error(index, self.coefficients.len()));
        }

        let ss = rescale!(input into self.limits);

        Ok(Self::compute_feature(ss.zip(self.coefficients[index].iter())))'''))
r('b-fourier-new-loop', (FO, '''        let coefficients = compute_coefficients(order, limits.len())
            .map(|cfs| cfs.into_iter().map(|c| c as f64).collect())
            .collect();
''', '''        let mut coefficients = Vec::new();

        for cfs in compute_coefficients(order, limits.len()) {
            coefficients.push(cfs.into_iter().map(f64::from).collect());
        }
'''))
r('b-rescale', (B + 'mod.rs', '''        $x.into_iter().zip($limits.iter()).map(move |(v, l)| {
            let v = v.borrow();

            (v - l.0) / (l.1 - l.0)
        })''', '''        $x.into_iter().zip($limits.iter()).map(move |(v, (lb, ub))| (v.borrow() - lb) / (ub - lb))'''))
PO = B + 'polynomial/mod.rs'
r('b-poly-fold', (PO, '''        iter.into_iter()
            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()''', '''        iter.into_iter().fold(1.0, |acc, (v, e)| acc * v.borrow().powi(e as i32))'''))
r('b-poly-for', (PO, '''        iter.into_iter()
            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()''', '''        let mut p = 1.0;

        for (v, e) in iter {
            p *= v.borrow().powi(i32::from(e));
        }

        p'''))
r('b-poly-proj-vec', (PO, '''        let iter = input.into_iter().map(|x| *x.borrow());

        Ok(self
            .exponents
            .iter()
            .map(|exps| Self::compute_feature(iter.clone().zip(exps.iter().copied())))
            .collect())''', '''        let xs: Vec<f64> = input.into_iter().map(|x| *x.borrow()).collect();

        Ok(self
            .exponents
            .iter()
            .map(|exps| Self::compute_feature(xs.iter().zip(exps.iter().copied())))
            .collect())'''))
r('b-poly-zeroth', (PO, '''        self.exponents.push(vec![0; self.exponents.first().map_or(0, Vec::len)]);
        self''', '''        let n = match self.exponents.first() {
            Some(exps) => exps.len(),
            None => 0,
        };

        self.exponents.push(vec![0; n]);
        self'''))
r('b-cheb-proj-inline', (PO, '''        let scaled_state: Vec<f64> = rescale!(input into self.limits)
            .map(|v| 2.0 * v - 1.0)
            .collect();
''', '''        let mut scaled_state: Vec<f64> = rescale!(input into self.limits).collect();

        for v in scaled_state.iter_mut() {
            *v = 2.0 * *v - 1.0;
        }
'''))
r('b-cheb-horner', (B + 'polynomial/cpfk.rs', '''{ 8.0 * x * x * x * x - 8.0 * x * x + 1.0 }''', '''{
    let x2 = x * x;

    8.0 * x2 * (x2 - 1.0) + 1.0
}'''))
r('b-cheb-fn', (PO, '''        exponents
            .map(|vals| {
                vals.iter()
                    .map(|i| match *i {
                        0 => cpfk::t_0,
                        1 => cpfk::t_1,
                        2 => cpfk::t_2,
                        3 => cpfk::t_3,
                        4 => cpfk::t_4,
                        5 => cpfk::t_5,
                        6 => cpfk::t_6,
                        7 => cpfk::t_7,
                        8 => cpfk::t_8,
                        9 => cpfk::t_9,
                        10 => cpfk::t_10,
                        11 => cpfk::t_11,
                        _ => panic!("Chebyshev only supports orders up to 11."),
                    })
                    .collect()
            })
            .collect()''', '''        exponents.map(|vals| vals.into_iter().map(Chebyshev::kernel).collect()).collect()'''), (PO, '''    fn make_polynomials(''', '''    fn kernel(i: u8) -> fn(f64) -> f64 {
        match i {
            0 => cpfk::t_0,
            1 => cpfk::t_1,
            2 => cpfk::t_2,
            3 => cpfk::t_3,
            4 => cpfk::t_4,
            5 => cpfk::t_5,
            6 => cpfk::t_6,
            7 => cpfk::t_7,
            8 => cpfk::t_8,
            9 => cpfk::t_9,
            10 => cpfk::t_10,
            11 => cpfk::t_11,
            _ => panic!("Chebyshev only supports orders up to 11."),
        }
    }

    fn make_polynomials('''))
r('b-coeff-filter', (B + 'mod.rs', '''        .skip(1)
        .sorted_by''', '''        .filter(|c| c.iter().any(|&e| e > 0))
        .sorted_by'''))
r('b-coeff-cmp', (B + 'mod.rs', '''        .sorted_by(|a, b| a.partial_cmp(b).unwrap())''', '''        .sorted_by(|a, b| a.cmp(b))'''))
r('b-coeff-sorted', (B + 'mod.rs', '''        .sorted_by(|a, b| a.partial_cmp(b).unwrap())''', '''        .sorted()'''))
r('b-coeff-repeat', (B + 'mod.rs', '''    (0..dim)
        .map(|_| 0..=order)
''', '''    std::iter::repeat(0..=order)
        .take(dim)
'''))
r('b-coeff-collect', (B + 'mod.rs', '''    (0..dim)
        .map(|_| 0..=order)
        .multi_cartesian_product()
        .skip(1)
        .sorted_by(|a, b| a.partial_cmp(b).unwrap())
        .dedup()''', '''    let mut tuples: Vec<Vec<u8>> = (0..dim).map(|_| 0..=order).multi_cartesian_product().skip(1).collect();

    tuples.sort();
    tuples.dedup();
    tuples.into_iter()'''))
r('b-bounds-expect', (B + 'mod.rs', '''    match (d.inf(), d.sup()) {
        (Some(lb), Some(ub)) => (lb, ub),
        (Some(_), None)''', '''    if let (Some(lb), Some(ub)) = (d.inf(), d.sup()) {
        return (lb, ub);
    }

    match (d.inf(), d.sup()) {
        (Some(_), Some(_)) => unreachable!(),
        (Some(_), None)'''))
# ---- kernels
K = B + 'kernels/stationary.rs'
KD = '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())
'''
r('k-sum', (K, KD, '''                let ss: f64 = x
                    .iter()
                    .zip(y.iter())
                    .zip($self.lengthscales.iter().cycle())
                    .map(|((x, y), l)| (x - y) / l)
                    .map(|z| z * z)
                    .sum();

                $self.kernel_stationary(ss.sqrt())
'''))
r('k-for', (K, KD, '''                let mut ss = 0.0f64;

                for ((x, y), l) in x.iter().zip(y.iter()).zip($self.lengthscales.iter().cycle()) {
                    let z = (x - y) / l;

                    ss += z * z;
                }

                $self.kernel_stationary(ss.sqrt())
'''))
r('k-mod', (K, KD, '''                let n = $self.lengthscales.len();
                let ss = x.iter().zip(y.iter()).enumerate().fold(0.0f64, |acc, (i, (a, b))| {
                    acc + ((a - b) / $self.lengthscales[i % n]).powi(2)
                });

                $self.kernel_stationary(ss.sqrt())
'''))
r('k-dist', (K, KD, '''                $self.kernel_stationary($self.distance(x, y))
'''), (K, '''            fn kernel_stationary(''', '''            fn distance(&$self, x: &[f64], y: &[f64]) -> f64 {
                x.into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt()
            }

            fn kernel_stationary('''))
r('k-matern32', (K, '''        let sqrt_3 = 3.0f64.sqrt();

        self.variance * (1.0 + sqrt_3 * r) * (-sqrt_3 * r).exp()''', '''        let z = 3.0f64.sqrt() * r;

        self.variance * (z + 1.0) * (-z).exp()'''))
r('k-matern52', (K, '''        let sqrt_5 = 5.0f64.sqrt();

        self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()''', '''        let z = 5.0f64.sqrt() * r;

        self.variance * (1.0 + z + z * z / 3.0) * (-z).exp()'''))
r('k-expquad', (K, '''{ self.variance * (-0.5 * r * r).exp() }''', '''{
        let r2 = r.powi(2);

        (-r2 / 2.0).exp() * self.variance
    }'''))
RQ = B + 'kernels/rational_quadratic.rs'
r('k-rq', (RQ, '''        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()''', '''        let base = 1.0 + 0.5 * r * r;

        self.variance * (-self.power * base.ln()).exp()'''))
r('k-rq-powf', (RQ, '''        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()''', '''        self.variance * (1.0 + r * r / 2.0).powf(-self.power)'''))
KB = B + 'kernelised.rs'
r('k-basis-for', (KB, '''        Ok(self
            .prototypes
            .iter()
            .map(|p| p.distance_from(input.borrow()))
            .collect())''', '''        let x = input.borrow();
        let mut phi = vec![0.0; self.prototypes.len()];

        for (i, p) in self.prototypes.iter().enumerate() {
            phi[i] = p.distance_from(x);
        }

        Ok(phi.into())'''))
r('k-basis-match', (KB, '''        self.prototypes
            .get(index)
            .map(|p| p.distance_from(input.borrow()))
            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))''', '''        match self.prototypes.get(index) {
            Some(p) => Ok(p.distance_from(input.borrow())),
            None => Err(Error::index_error(index, self.prototypes.len())),
        }'''))
r('k-homog-for', (KB, '''        KernelBasis::new(
            centroids
                .into_iter()
                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
        )''', '''        let mut prototypes = Vec::new();

        for centroid in centroids {
            prototypes.push(Prototype { centroid, kernel: kernel.clone() });
        }

        KernelBasis { prototypes }'''))
r('k-expquad-helper', (KB, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);
        let centroids: Vec<Vec<f64>> = partitioning
            .centres()
            .into_iter()
            .multi_cartesian_product()
            .collect();

        KernelBasis::homogeneous(centroids, kernel)''', '''        let (centroids, lengthscales) = grid(&partitioning);

        KernelBasis::homogeneous(centroids, kernels::ExpQuad::new(1.0, lengthscales))'''), (KB, '''impl KernelBasis<Vec<f64>, kernels::ExpQuad> {''', '''fn grid(partitioning: &ProductSpace<Equipartition>) -> (Vec<Vec<f64>>, Vec<f64>) {
    (
        partitioning.centres().into_iter().multi_cartesian_product().collect(),
        partitioning.iter().map(|d| d.partition_width()).collect(),
    )
}

impl KernelBasis<Vec<f64>, kernels::ExpQuad> {'''))
# ---- approximators
r('l-eval-q', (L, '''        self.basis
            .project(input)
            .map(|b| b.dot(&self.weights.view()))
''', '''        let phi = self.basis.project(input)?;

        Ok(phi.dot(&self.weights.view()))
'''))
r('l-update-q', (L, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })''', '''        let phi = self.basis.project(input)?;

        self.optimiser.step_scaled(&mut self.weights.view_mut(), &phi, error)'''))
r('l-update_with-q', (L, '''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })''', '''        let phi = self.basis.project(input)?;
        let error = f(&phi, phi.dot(&self.weights.view()));

        self.optimiser.step_scaled(&mut self.weights.view_mut(), &phi, error)'''))
VUP = '''            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
'''
r('l-vupdate-for', (L, VUP, '''            let mut result = Ok(());

            for (e, mut c) in errors.into_iter().zip(self.weights.columns_mut().into_iter()) {
                let step = opt.step_scaled(&mut c, b, e);

                result = result.and(step);
            }

            result
'''))
r('l-vupdate-index', (L, VUP, '''            let mut result = Ok(());

            for (j, e) in errors.into_iter().take(self.weights.ncols()).enumerate() {
                result = result.and(opt.step_scaled(&mut self.weights.column_mut(j), b, e));
            }

            result
'''))
r('l-vupdate-match', (L, VUP, '''            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    let r = opt.step_scaled(&mut c, b, e);

                    match acc {
                        Ok(()) => r,
                        Err(_) => acc,
                    }
                })
'''))
r('l-vupdate-zipswap', (L, VUP, '''            self.weights
                .columns_mut()
                .into_iter()
                .zip(errors)
                .fold(Ok(()), |acc, (mut c, e)| acc.and(opt.step_scaled(&mut c, b, e)))
'''))
r('l-vwith-q', (L, '''        self.basis.project(input).and_then(|ref b| {
            let opt = &mut self.optimiser;
            let values = b.matmul(&self.weights);
            let errors = f(b, values);

''' + VUP + '''        })''', '''        let b = self.basis.project(input)?;
        let values = b.matmul(&self.weights);
        let errors = f(&b, values);
        let opt = &mut self.optimiser;

        errors
            .into_iter()
            .zip(self.weights.columns_mut().into_iter())
            .fold(Ok(()), |acc, (e, mut c)| acc.and(opt.step_scaled(&mut c, &b, e)))'''))
r('l-veval-matmul', (L, '''        self.try_iter(input).map(|it| it.collect())''', '''        self.basis.project(input).map(|b| b.matmul(&self.weights))'''))
r('l-vindex-try', (L, '''            .map(|b| b.dot(&self.weights.column(index)))''', '''            .map(|phi| {
                let w = self.weights.column(index);

                phi.dot(&w)
            })'''))
r('l-iter-try', (L, '''        OutputIter {
            basis: self.basis.project(input).unwrap(),
            lanes: self.weights.columns().into_iter(),
        }''', '''        self.try_iter(input).unwrap()'''))
r('l-next-match', (L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))''', '''        match self.lanes.next() {
            Some(c) => Some(self.basis.dot(&c)),
            None => None,
        }'''))
r('l-next-q', (L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))''', '''        let column = self.lanes.next()?;

        Some(self.basis.dot(&column))'''))
r('l-scalar-new', (L, '''        let n: usize = basis.dim().into();
        let weights = ndarray::Array1::zeros(n);

        LFA {
            basis,
            weights,
            optimiser,
        }''', '''        let weights = ndarray::Array1::from_elem(usize::from(basis.dim()), 0.0);

        LFA::new(basis, weights, optimiser)'''))
