# eighth round: shared free functions, generic helpers with closures, control flow (exec'd by refactors.py)
OM = 'src/optim/mod.rs'
VEL = '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
            },
        }
'''
ACC = '''fn accumulate(v: &mut Array1<f64>, m: f64, features: &Features, scale: f64) {
    match features {
        Features::Dense(da) => v.zip_mut_with(da, |x, &y| *x = m * *x + scale * y),
        Features::Sparse(sa) => {
            for x in v.iter_mut() {
                *x *= m;
            }
            for (&i, &a) in &sa.activations {
                v[i] += scale * a;
            }
        },
    }
}

impl Optimiser<Features> for'''
r('o8-momentum-free', ('src/optim/momentum.rs', VEL, '''        accumulate(&mut self.velocity, m, features, scale_factor);
'''), ('src/optim/momentum.rs', 'impl Optimiser<Features> for', ACC), ('src/optim/momentum.rs', 'use std::ops::MulAssign;\n', ''))
r('o8-momentum-early', ('src/optim/momentum.rs', VEL, '''        if let Features::Dense(da) = features {
            for (i, v) in self.velocity.iter_mut().enumerate() {
                *v = *v * m + da[i] * scale_factor;
            }
            weights.scaled_add(lr, &self.velocity);

            return Ok(());
        }
        self.velocity *= m;
        features.scaled_addto(scale_factor, &mut self.velocity);
'''), ('src/optim/momentum.rs', 'use std::ops::MulAssign;\n', ''))
r('o8-momentum-weights-loop', ('src/optim/momentum.rs', 'Ok(weights.scaled_add(lr, &self.velocity))', '''let mut it = self.velocity.iter();
        for w in weights.iter_mut() {
            match it.next() {
                Some(v) => *w += lr * v,
                None => break,
            }
        }
        Ok(())'''))
r('o8-nag-order', ('src/optim/nesterov.rs', '''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);
''', '''            features.scaled_addto(scale_factor * lr, weights);
            weights.scaled_add(m * lr, &self.velocity);
'''))
r('o8-nag-lookahead', ('src/optim/nesterov.rs', '''            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);
''', '''            let mut step = &self.velocity * m;
            features.scaled_addto(scale_factor, &mut step);
            weights.scaled_add(lr, &step);
'''))
r('o8-adam-closure', ('src/optim/adam.rs', '''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;

        match features {
            Features::Dense(da) => {
                let m1 =''', '''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;
        let (lr, c1, c2) = (self.learning_rate, 1.0 - self.beta1_prod, 1.0 - self.beta2_prod);
        let delta = move |x: f64, y: f64| lr * (x / c1) / ((y / c2).sqrt() + EPS);

        match features {
            Features::Dense(da) => {
                let m1 ='''), ('src/optim/adam.rs', '''                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
''', '''                    m1[i] = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    m2[i] = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;
                    weights[i] += delta(m1[i], m2[i]);
'''), ('src/optim/adam.rs', '''                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
''', '''                    m1[i] += (1.0 - self.beta1) * g;
                    m2[i] += (1.0 - self.beta2) * g * g;
                    weights[i] += delta(m1[i], m2[i]);
'''))
r('o8-adam-lerp', ('src/optim/adam.rs', 'let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;', 'let m1_new = g + self.beta1 * (m1[i] - g);'))
r('o8-adamax-mut-refs', ('src/optim/adamax.rs', '''                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;
                    let u_new = (self.beta2 * u[i]).max(g.abs());
                    let m_unbiased = m_new / (1.0 - self.beta1_prod);

                    m[i] = m_new;
                    u[i] = u_new;
                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);
''', '''                    let (mi, ui) = (&mut m[i], &mut u[i]);

                    *mi = self.beta1 * *mi + (1.0 - self.beta1) * g;
                    *ui = f64::max(self.beta2 * *ui, g.abs());
                    weights[i] += self.learning_rate * *mi / ((1.0 - self.beta1_prod) * (*ui + EPS));
'''))
r('o8-adagrad-step-fn', ('src/optim/adagrad.rs', '''                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
''', '''                    *w += lr * accumulate(ss, a * scale_factor);
'''), ('src/optim/adagrad.rs', '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
''', '''                    if let Some(a) = sa.activations.get(&i) {
                        weights[i] += lr * accumulate(ss, a * scale_factor);
                    }
'''), ('src/optim/adagrad.rs', 'impl Optimiser<Features> for', '''#[inline]
fn accumulate(total: &mut f64, g: f64) -> f64 {
    *total += g * g;

    g / (EPS + total.sqrt())
}

impl Optimiser<Features> for'''))
r('o8-isgd-generic', ('src/optim/isgd.rs', '''        Ok(features.scaled_addto(self.compute_lr(features) * scale_factor, weights))''', '''        let lr = self.compute_lr(features);

        features.scaled_addto(scale_factor * lr, weights);
        Ok(())'''), ('src/optim/isgd.rs', '''        Ok(features.scaled_addto(self.compute_lr(features), weights))''', '''        self.step_scaled(weights, features, 1.0)'''))
N8 = 'src/basis/normalisation.rs'
L1P = '''        self.0.project(input).map(|f| match f {
            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x.abs());

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
        })
'''
DIV = '''fn divide_by(f: Features, norm: impl FnOnce(&Features) -> f64) -> Features {
    let z = norm(&f);

    match f {
        Features::Dense(mut da) => {
            da.mapv_inplace(|x| x / z);

            Features::Dense(da)
        },
        Features::Sparse(mut sa) => {
            sa.activations.values_mut().for_each(|x| *x /= z);

            Features::Sparse(sa)
        },
    }
}

impl<T, B> Basis<T> for L1Normaliser<B>'''
r('n8-generic-norm', (N8, L1P, '''        Ok(divide_by(self.0.project(input)?, |f| f.fold(0.0, |acc, x| acc + x.abs())))
'''), (N8, 'impl<T, B> Basis<T> for L1Normaliser<B>', DIV))
r('n8-l1-trait', (N8, L1P, '''        let f = self.0.project(input)?;
        let z = L1Normaliser::<B>::norm(&f);

        Ok(match f {
            Features::Dense(da) => Features::Dense(da / z),
            Features::Sparse(SparseActivations { dim, activations }) => {
                let activations = activations.into_iter().map(|(i, x)| (i, x / z)).collect();

                Features::Sparse(SparseActivations { dim, activations })
            },
        })
'''), (N8, '''    pub fn new(basis: B) -> Self { L1Normaliser(basis) }
''', '''    pub fn new(basis: B) -> Self { L1Normaliser(basis) }

    fn norm(f: &Features) -> f64 {
        match f {
            Features::Dense(da) => da.iter().map(|x| x.abs()).sum(),
            Features::Sparse(sa) => sa.activations.values().map(|x| x.abs()).sum(),
        }
    }
'''))
r('n8-l2-match-first', (N8, 'let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();', 'let z = da.dot(&da).sqrt();'))
r('n8-l0-ith-ok', (N8, '''            self.0
                .project(input)
                .map(|f| {
                    let z = f.n_active() as f64;

                    unsafe { f.uget(index).copied().unwrap_or(0.0) / z }
                })
''', '''            let f = self.0.project(input)?;
            let x = if let Some(x) = unsafe { f.uget(index) } { *x } else { 0.0 };

            Ok(x / f.n_active() as f64)
'''))
r('n8-l0-cached-dim', (N8, '''        check_index!(index < self.dim().into() => {
            self.0
                .project(input)
                .map(|f| {
                    let z = f.n_active() as f64;
''', '''        let n: usize = self.dim().into();

        check_index!(index < n => {
            self.0
                .project(input)
                .map(|f| {
                    let z = f.n_active() as f64;
'''))
r('x8-check-index', ('src/error.rs', '''        if $index < $dim {
            $code
        } else {
            Err($crate::error::Error::index_error($index, $dim))
        }''', '''        match $dim {
            dim if $index < dim => $code,
            dim => Err($crate::error::Error::index_error($index, dim)),
        }'''))
r('f8-lookup', (F, '''        self.activations.iter()
    }
''', '''        self.activations.iter()
    }

    fn lookup(&self, idx: &IndexT) -> ActivationT {
        match self.activations.get(idx) {
            Some(&a) => a,
            None => 0.0,
        }
    }
'''), (F, '''                        for (i, x) in a_out.indexed_iter_mut() {
                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }''', '''                        a_out.iter_mut().enumerate().for_each(|(i, x)| *x = f(*x, sa2.lookup(&i)));'''), (F, '''                    for (i, x) in da1.indexed_iter_mut() {
                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                    }''', '''                    for i in 0..da1.len() {
                        da1[i] = f(da1[i], sa2.lookup(&i));
                    }'''))
r('f8-merge-uninit-helper', (F, '''                Dense(da2) => {
                    let n = sa1.dim.max(da2.len());
                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }
                }''', '''                Dense(da2) => Dense(Features::zip_sparse_dense(sa1, da2, &f)),'''), (F, '''    /// Perform a fold operation over''', '''    fn zip_sparse_dense(
        sa: &SparseActivations,
        da: &DenseActivations,
        f: &impl Fn(ActivationT, ActivationT) -> ActivationT,
    ) -> DenseActivations {
        let n = usize::max(sa.dim, da.len());
        let at = |i: usize| da.get(i).copied().unwrap_or_default();

        (0..n)
            .map(|i| f(sa.activations.get(&i).copied().unwrap_or_default(), at(i)))
            .collect()
    }

    /// Perform a fold operation over'''))
r('f8-map-const', (F, '''                if null_activation.abs() < 1e-5 {
                    let activations = sa.iter().map''', '''                let preserving = null_activation.abs() < 1e-5;
                if preserving {
                    let activations = sa.iter().map'''))
r('f8-map-early', (F, '''                if null_activation.abs() < 1e-5 {
                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();

                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations,
                    })
                } else {
                    let mut phi = Array1::from_elem(sa.dim, null_activation);

                    for (&idx, &act) in sa.iter() {
                        phi[idx] = f(act);
                    }

                    Dense(phi)
                }
''', '''                if !(null_activation.abs() < 1e-5) {
                    let mut phi = Array1::zeros(sa.dim);

                    phi.fill(null_activation);
                    sa.iter().for_each(|(&i, &x)| phi[i] = f(x));

                    return Dense(phi);
                }

                Features::sparse(sa.dim, sa.iter().map(|(i, k)| (*i, f(*k))))
'''))
r('f8-remove-if', (F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }
''', '''            if idx < da.len() {
                da[idx] = 0.0;
            }
'''))
r('f8-index-get', (F, '''            sa.activations.get(&idx).unwrap_or(&0.0)
''', '''            match sa.activations.get(&idx) {
                Some(a) => a,
                None => &0.0,
            }
'''))
r('f8-eq-matches', (F, '''                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)''', '''                if sa1.dim != sa2.dim {
                    return false;
                }

                sa1.activations == sa2.activations'''))
r('f8-dot-smaller', (F, '''                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),''', '''                Sparse(sa2) => sa1
                    .iter()
                    .filter_map(|(k, a1)| sa2.activations.get(k).map(|a2| a1 * a2))
                    .sum(),'''))
r('f8-fold-shared', (F, '''            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),''', '''            Features::Dense(da) => da.iter().fold(0.0, |acc, x| acc + x),
            Features::Sparse(sa) => sa.activations.values().fold(0.0, |acc, x| acc + x),'''))
TC8 = 'src/basis/tile_coding.rs'
r('t8-state-method', (TC8, '''            let state = bin_state(input, self.n_tilings);
            let mut hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            let active = self.active_tiles(input).contains(&index);

            Ok(active as u8 as f64)
'''), (TC8, '''            memory_size,
        }
    }
}
''', '''            memory_size,
        }
    }

    fn active_tiles<'a, T: IntoIterator<Item = &'a f64>>(&self, input: T) -> Vec<usize> {
        let state = bin_state(input, self.n_tilings);

        hash_state(
            self.hasher_builder.build_hasher(),
            &state,
            self.n_tilings,
            self.memory_size,
        )
        .collect()
    }
}
'''))
r('t8-hash-step', (TC8, '''        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }
''', '''        let mut offset = t;

        for s in state {
            hasher.write_isize((s + offset).div_euclid(n_tilings as isize));
            offset += tx2;
        }
'''))
r('t8-hash-zip', (TC8, '''        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }
''', '''        let n = n_tilings as isize;

        state
            .iter()
            .zip(0isize..)
            .map(|(s, i)| (s + t + i * tx2).div_euclid(n))
            .for_each(|tile| hasher.write_isize(tile));
'''))
S8 = 'src/basis/stack.rs'
r('s8-parts', (S8, '''        let n1: usize = self.b1.dim().into();
        let n2: usize = self.b2.dim().into();

        let n12 = n1 + n2;

        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }
''', '''        let n1: usize = self.b1.dim().into();
        let n2: usize = self.b2.dim().into();

        match index.checked_sub(n1) {
            None => self.b1.ith(input, index),
            Some(i) if i < n2 => self.b2.ith(input, i),
            Some(_) => Err(Error::index_error(index, n1 + n2)),
        }
'''))
r('s8-project-match', (S8, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))
''', '''        let first = match self.b1.project(input.clone()) {
            Ok(f) => f,
            Err(e) => return Err(e),
        };

        self.b2.project(input).map(move |second| Features::stack(first, second))
'''))
UG8 = 'src/basis/uniform_grid.rs'
r('g8-zip-all', (UG8, '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)
''', '''        let mut values = input.into_iter();
        let mut dims = self.feature_space.iter();
        let mut acc = dims.next().unwrap().map_onto(*values.next().unwrap());

        for (d, v) in dims.zip(values) {
            acc *= d.n_partitions();
            acc += d.map_onto(*v);
        }

        acc
'''))
FO8 = 'src/basis/fourier.rs'
r('b8-fourier-method', (FO8, '''        let ss: Vec<f64> = rescale!(input into self.limits).collect();

        Ok(self
            .coefficients
            .iter()
            .map(|cfs| Self::compute_feature(ss.iter().copied().zip(cfs.iter())))
            .collect())
''', '''        let ss: Vec<f64> = rescale!(input into self.limits).collect();
        let mut activations = Vec::with_capacity(self.coefficients.len());

        for cfs in self.coefficients.iter() {
            let phase: f64 = cfs.iter().zip(&ss).map(|(c, s)| c * s).sum();

            activations.push((PI * phase).cos());
        }

        Ok(activations.into())
'''))
r('b8-fourier-ith-guard', (FO8, '''        self.coefficients
            .get(index)
            .map(|cfs| {
                let ss = rescale!(input into self.limits);

                Self::compute_feature(ss.zip(cfs.iter()))
            })
            .ok_or_else(|| Error::index_error(index, self.dim().into()))
''', '''        if index >= self.coefficients.len() {
            return Err(Error::index_error(index, self.coefficients.len()));
        }
        let cfs = &self.coefficients[index];
        let ss = rescale!(input into self.limits);

        Ok(Self::compute_feature(ss.zip(cfs)))
'''))
KB8 = 'src/basis/kernelised.rs'
CEN = '''        let centroids: Vec<Vec<f64>> = partitioning
            .centres()
            .into_iter()
            .multi_cartesian_product()
            .collect();
'''
r('k8-grid-helper', (KB8, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::ExpQuad::new(1.0, lengthscales);
''' + CEN + '''
        KernelBasis::homogeneous(centroids, kernel)
''', '''        let (centroids, lengthscales) = grid(&partitioning);

        KernelBasis::homogeneous(centroids, kernels::ExpQuad::new(1.0, lengthscales))
'''), (KB8, '''        let lengthscales = partitioning.iter().map(|d| d.partition_width()).collect();
        let kernel = kernels::Matern32::new(1.0, lengthscales);
''' + CEN + '''
        KernelBasis::homogeneous(centroids, kernel)
''', '''        let (centroids, lengthscales) = grid(&partitioning);

        KernelBasis::homogeneous(centroids, kernels::Matern32::new(1.0, lengthscales))
'''), (KB8, '''impl KernelBasis<Vec<f64>, kernels::ExpQuad> {''', '''fn grid(partitioning: &ProductSpace<Equipartition>) -> (Vec<Vec<f64>>, Vec<f64>) {
    let widths = partitioning.iter().map(Equipartition::partition_width).collect();
    let centres = partitioning.centres().into_iter().multi_cartesian_product();

    (centres.collect(), widths)
}

impl KernelBasis<Vec<f64>, kernels::ExpQuad> {'''))
r('k8-project-push', (KB8, '''        Ok(self
            .prototypes
            .iter()
            .map(|p| p.distance_from(input.borrow()))
            .collect())
''', '''        let x: &[f64] = input.borrow();
        let mut activations = vec![0.0; self.prototypes.len()];

        for (a, p) in activations.iter_mut().zip(self.prototypes.iter()) {
            *a = p.distance_from(x);
        }

        Ok(Features::from(activations))
'''))
L8 = 'src/lib.rs'
r('l8-step-columns-while', (L8, '''            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
        })
    }

    pub fn update_index''' if False else '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);
''', '''            let errors = f(b, b.matmul(&self.weights));
'''))
r('l8-update-let', (L8, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })
''', '''        let features = self.basis.project(input)?;
        let mut weights = self.weights.view_mut();

        self.optimiser.step_scaled(&mut weights, &features, error)
'''))
r('l8-predict-helper', (L8, '''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })
''', '''        let phi = self.basis.project(input)?;
        let value = phi.dot(&self.weights.view());
        let error = f(&phi, value);

        self.optimiser
            .step_scaled(&mut self.weights.view_mut(), &phi, error)
'''))
r('l8-vcollect', (L8, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let outputs = self.try_iter(input)?;
        let mut values = Vec::with_capacity(self.n_outputs());

        for v in outputs {
            values.push(v);
        }

        Ok(values.into())
'''))
r('m8-get-bounds', ('src/basis/mod.rs', '''        (Some(lb), Some(ub)) => (lb, ub),
        (Some(_), None)''', '''        (Some(lower), Some(upper)) => {
            let limits = (lower, upper);

            limits
        },
        (Some(_), None)'''))
r('m8-rescale-parts', ('src/basis/mod.rs', '''            let v = v.borrow();

            (v - l.0) / (l.1 - l.0)
''', '''            let (lb, ub) = *l;
            let width = ub - lb;

            (*v.borrow() - lb) / width
'''))
