# fifth round: less common library idioms (exec'd by refactors.py)
MAPSP = '''                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();
'''
r('f5-and_modify', (F, '''                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or_default());
                    }

                    for (&i, &y) in sa2.activations.iter() {
                        if let None = idx_out.get(&i) {
                            idx_out.entry(i).or_insert(f(0.0, y));
                        }
                    }
'''))
r('f5-drain', (F, '''                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
''', '''                let mut sa = sa;

                for (idx, act) in sa.activations.drain() {
                    phi[idx] = act;
                }

                phi
'''))
r('f5-or_default', (F, '''                    for (i, x) in a_out.indexed_iter_mut() {
                            *x''', '''                    for (i, x) in a_out.indexed_iter_mut() {
                            *x'''),)
r('f5-from_shape_fn', (F, '''                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }
''', '''                    Dense(Array1::from_shape_fn(n, |i| {
                        f(
                            sa1.activations.get(&i).cloned().unwrap_or_default(),
                            da2.get(i).copied().unwrap_or_default(),
                        )
                    }))
'''))
r('f5-from_vec', (F, '''                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }
''', '''                    let phi: Vec<f64> = (0..n)
                        .map(|i| {
                            let x = sa1.activations.get(&i).map_or(0.0, |x| *x);
                            let y = if i < da2.len() { da2[i] } else { 0.0 };

                            f(x, y)
                        })
                        .collect();

                    Dense(Array1::from_vec(phi))
'''))
r('f5-mem-take', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);
''', '''        let mut old = Features::Dense(DenseActivations::from(vec![]));
        mem::swap(self, &mut old);
'''))
r('f5-stack-loop', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                let (d1, d2) = (f1.into_dense(), f2.into_dense());
                let n1 = d1.len();
                let n = n1 + d2.len();

                Dense((0..n).map(|i| if i < n1 { d1[i] } else { d2[i - n1] }).collect())
'''))
r('f5-stack-concat', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                let halves = [f1.into_dense().to_vec(), f2.into_dense().to_vec()];

                Dense(halves.concat().into())
'''))
r('f5-stack-assign', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                let (d1, d2) = (f1.into_dense(), f2.into_dense());
                let mut all = Array1::zeros(d1.len() + d2.len());
                let (mut left, mut right) = all.view_mut().split_at(ndarray::Axis(0), d1.len());

                left.assign(&d1);
                right.assign(&d2);

                Dense(all)
'''))
r('f5-stack-flatten', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                Dense(
                    ::std::iter::once(f1.into_dense())
                        .chain(::std::iter::once(f2.into_dense()))
                        .flat_map(|d| d.to_vec())
                        .collect(),
                )
'''))
r('f5-n_active-fold', (F, '''            da.iter().filter(|v| v.abs() > 1e-7).count()
''', '''            da.iter().fold(0, |n, v| if v.abs() > 1e-7 { n + 1 } else { n })
'''))
r('f5-n_active-filter_map', (F, '''            da.iter().filter(|v| v.abs() > 1e-7).count()
''', '''            da.iter().filter_map(|v| if v.abs() > 1e-7 { Some(()) } else { None }).count()
'''))
r('f5-n_active-map-sum', (F, '''            da.iter().filter(|v| v.abs() > 1e-7).count()
''', '''            da.iter().map(|v| (v.abs() > 1e-7) as usize).sum()
'''))
r('f5-n_active-or', (F, '''            da.iter().filter(|v| v.abs() > 1e-7).count()
''', '''            da.iter().copied().filter(|&v| v > 1e-7 || v < -1e-7).count()
'''))
AG, AD, AM, MO, NE, SG, IS = ['src/optim/%s.rs' % x for x in ('adagrad', 'adam', 'adamax', 'momentum', 'nesterov', 'sgd', 'isgd')]
r('o5-adagrad-Zip', (AG, '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),''', '''            Features::Dense(da) => ndarray::Zip::from(da)
                .and(weights)
                .and(&mut self.accumulator)
                .for_each(|a, w, ss| {
                    let g = a * scale_factor;

                    *ss += g * g;
                    *w += lr * g / (ss.sqrt() + EPS);
                }),'''))
r('o5-adagrad-azip', (AG, '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),''', '''            Features::Dense(da) => {
                ndarray::azip!((a in da, w in weights, ss in &mut self.accumulator) {
                    let g = a * scale_factor;

                    *ss += g * g;
                    *w += lr * g / (ss.sqrt() + EPS);
                });
            },'''))
r('o5-adagrad-izip', (AG, '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| {
                    let g = a * scale_factor;

                    *ss = *ss + g.powi(2);
                    *w = *w + lr * g / (ss.sqrt() + EPS);
                }),''', '''            Features::Dense(da) => {
                for (a, w, ss) in itertools::izip!(da, weights.iter_mut(), &mut self.accumulator) {
                    let g = a * scale_factor;

                    *ss = g.mul_add(g, *ss);
                    *w += (lr * g) / (ss.sqrt() + EPS);
                }
            },'''))
r('o5-adagrad-two-pass', (AG, '''            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
            },''', '''            Features::Sparse(sa) => {
                for (&i, &a) in sa.activations.iter() {
                    self.accumulator[i] += (a * scale_factor).powi(2);
                }
                for (&i, &a) in sa.activations.iter() {
                    weights[i] += lr * (a * scale_factor) / (self.accumulator[i].sqrt() + EPS);
                }
            },'''))
r('o5-adam-zip-indexed', (AD, '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
''', '''                let (b1, b2, lr) = (self.beta1, self.beta2, self.learning_rate);
                let (c1, c2) = (1.0 - self.beta1_prod, 1.0 - self.beta2_prod);

                ndarray::Zip::from(weights)
                    .and(da)
                    .and(&mut self.exp_avg)
                    .and(&mut self.exp_avg_sq)
                    .for_each(|w, &a, m1, m2| {
                        let g = a * scale_factor;

                        *m1 = b1 * *m1 + (1.0 - b1) * g;
                        *m2 = b2 * *m2 + (1.0 - b2) * g * g;
                        *w += lr * (*m1 / c1) / ((*m2 / c2).sqrt() + EPS);
                    });
'''))
r('o5-adam-map_inplace', (AD, '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);
''', '''                let Adam { beta1, beta2, .. } = *self;

                self.exp_avg.map_inplace(|m| *m *= beta1);
                self.exp_avg_sq.mapv_inplace(|v| v * beta2);
'''))
r('o5-adam-split', (AD, '''        self.beta1_prod = 1.0;
        self.beta2_prod = 1.0;
        self.exp_avg.fill(0.0);
        self.exp_avg_sq.fill(0.0);
''', '''        for prod in [&mut self.beta1_prod, &mut self.beta2_prod] {
            *prod = 1.0;
        }
        for moment in [&mut self.exp_avg, &mut self.exp_avg_sq] {
            moment.fill(0.0);
        }
'''))
r('o5-adamax-reset-new', (AM, '''        self.beta1_prod = 1.0;
        self.exp_avg.fill(0.0);
        self.exp_inf.fill(0.0);
''', '''        *self = AdaMax::new(self.exp_avg.len(), self.learning_rate, self.beta1, self.beta2);
'''))
r('o5-adamax-reset-take', (AM, '''        self.beta1_prod = 1.0;
        self.exp_avg.fill(0.0);
        self.exp_inf.fill(0.0);
''', '''        let n = self.exp_avg.len();

        self.beta1_prod = 1.0;
        let _ = ::std::mem::replace(&mut self.exp_avg, Array1::zeros(n));
        self.exp_inf = Array1::from_elem(n, 0.0);
'''))
r('o5-adamax-clamp', (AM, '''                    let u_new = (self.beta2 * u[i]).max(g.abs());
''', '''                    let u_old = self.beta2 * u[i];
                    let u_new = match g {
                        g if g > u_old => g,
                        g if -g > u_old => -g,
                        _ => u_old,
                    };
'''))
r('o5-momentum-map', (MO, '''            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
''', '''            Features::Dense(da) => {
                self.velocity = self
                    .velocity
                    .iter()
                    .zip(da.iter())
                    .map(|(v, a)| m * v + scale_factor * a)
                    .collect()
            },
'''))
r('o5-momentum-expr', (MO, '''            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
''', '''            Features::Dense(da) => {
                self.velocity = m * &self.velocity + scale_factor * da;
            },
'''), (MO, '''        Ok(weights.scaled_add(lr, &self.velocity))''', '''        *weights += &(lr * &self.velocity);

        Ok(())'''))
r('o5-momentum-andthen', (MO, '''                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
''', '''                for (&i, &a) in sa.iter() {
                    if let Some(v) = self.velocity.get_mut(i) {
                        *v += a * scale_factor;
                    } else {
                        panic!("index out of bounds");
                    }
                }
'''))
r('o5-nag-one', (NE, '''        {
            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);
        }
        Ok(())''', '''        for (i, w) in weights.iter_mut().enumerate() {
            *w += lr * m * self.velocity[i];
        }
        features.scaled_addto(scale_factor * lr, weights);
        Ok(())'''))
r('o5-isgd-let-else', (IS, '''        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)''', '''        let norm: f64 = match features {
            Features::Dense(da) => da.dot(da),
            Features::Sparse(sa) => sa.activations.values().map(|a| a * a).sum::<f64>(),
        };

        self.0 / self.0.mul_add(norm, 1.0)'''))
r('o5-sgd-ok', (SG, '''        Ok(features.scaled_addto(self.0 * scale_factor, weights))''', '''        let &mut SGD(lr) = self;
        let alpha = lr * scale_factor;

        match features {
            Features::Dense(da) => weights.scaled_add(alpha, da),
            Features::Sparse(sa) => sa.iter().for_each(|(&i, &a)| weights[i] += alpha * a),
        }

        Ok(())'''))
L = 'src/lib.rs'
r('l5-try_fold', (L, '''            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
        })
    }

    /// Update the `i`th''', '''            let mut result = Ok(());

            for (mut column, error) in self.weights.axis_iter_mut(ndarray::Axis(1)).zip(errors) {
                let step = opt.step_scaled(&mut column, b, error);

                result = result.and(step);
            }

            result
        })
    }

    /// Update the `i`th'''))
r('l5-gencolumns', (L, '''            basis: self.basis.project(input).unwrap(),
            lanes: self.weights.columns().into_iter(),
''', '''            basis: match self.basis.project(input) {
                Ok(basis) => basis,
                Err(e) => panic!("called `Result::unwrap()` on an `Err` value: {:?}", e),
            },
            lanes: self.weights.lanes(ndarray::Axis(0)).into_iter(),
'''))
r('l5-iter-try', (L, '''        OutputIter {
            basis: self.basis.project(input).unwrap(),
            lanes: self.weights.columns().into_iter(),
        }
''', '''        self.try_iter(input).unwrap()
'''))
r('l5-eval-map_axis', (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let phi = self.basis.project(input)?;

        Ok(self.weights.map_axis(ndarray::Axis(0), |w| phi.dot(&w)))
'''))
r('l5-eval-matmul', (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        self.basis.project(input).map(|phi| phi.matmul(&self.weights))
'''))
r('l5-eval-iter-loop', (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let it = self.try_iter(input)?;
        let mut out = Vec::with_capacity(it.len());

        for v in it {
            out.push(v);
        }

        Ok(ndarray::Array1::from_vec(out))
'''))
r('l5-len', (L, '''    fn len(&self) -> usize {
        self.lanes.len()
    }
''', '''    fn len(&self) -> usize {
        let (lower, upper) = self.size_hint();

        debug_assert_eq!(Some(lower), upper);

        lower
    }
'''))
r('l5-next-question', (L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))
''', '''        let column = self.lanes.next()?;

        Some(self.basis.dot(&column))
'''))
K = 'src/basis/kernelised.rs'
r('k5-homog-loop', (K, '''        KernelBasis::new(
            centroids
                .into_iter()
                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
        )
''', '''        let mut prototypes = vec![];

        for centroid in centroids {
            let kernel = kernel.clone();

            prototypes.push(Prototype { kernel, centroid });
        }

        KernelBasis { prototypes }
'''))
r('k5-homog-repeat', (K, '''            centroids
                .into_iter()
                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
''', '''            centroids
                .into_iter()
                .zip(::std::iter::repeat(kernel))
                .map(|(centroid, kernel)| Prototype { centroid, kernel })
                .collect(),
'''))
r('k5-ith-match', (K, '''        self.prototypes
            .get(index)
            .map(|p| p.distance_from(input.borrow()))
            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))
''', '''        match self.prototypes.iter().nth(index) {
            Some(Prototype { centroid, kernel }) => Ok(kernel.kernel(input.borrow(), centroid.as_slice())),
            None => Err(Error::index_error(index, self.prototypes.len())),
        }
'''))
KS = 'src/basis/kernels/stationary.rs'
r('k5-vec-asref', (KS, '''                super::Kernel::<&[f64]>::kernel($self, x, y)
''', '''                <Self as super::Kernel<&[f64]>>::kernel($self, x.as_slice(), &y[..])
'''))
r('k5-sq-sum', (KS, '''                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())''', '''                    .map(|(d, l)| (d / l).powi(2))
                    .sum::<f64>()
                    .sqrt())'''))
r('k5-loop-rem', (KS, '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())''', '''                let mut r2 = 0.0;

                for (i, (a, b)) in x.iter().zip(y).enumerate() {
                    let l = $self.lengthscales[i % $self.lengthscales.len()];

                    r2 += ((a - b) / l) * ((a - b) / l);
                }

                $self.kernel_stationary(r2.sqrt())'''))
N = 'src/basis/normalisation.rs'
r('n5-l2-dot', (N, '''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(da.mapv(|x| x / z))''', '''                let z = da.dot(&da).sqrt();

                Features::Dense(da / z)'''))
r('n5-linf-reduce', (N, '''                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))''', '''                let z = da
                    .iter()
                    .map(|x| x.abs())
                    .fold(f64::NEG_INFINITY, f64::max);

                Features::Dense(da.mapv_into(|x| x / z))'''))
r('n5-l1-values', (N, '''                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
''', '''                let mut sa = sa;
                let z: f64 = sa.activations.values().copied().map(f64::abs).sum();

                sa.activations.values_mut().for_each(|x| *x /= z);

                Features::Sparse(sa)
'''))
r('n5-l0-and_then', (N, '''        self.0.project(input).map(|f| {
            let z = f.n_active() as f64;

            f.map_into(|x| x / z)
        })
''', '''        let mut f = self.0.project(input)?;
        let z = f.n_active() as f64;

        f.map_inplace(|x| x / z);

        Ok(f)
'''))
T = 'src/basis/tile_coding.rs'
r('t5-bin-loop', (T, '''    input
        .into_iter()
        .map(|f| (f * n_tilings as f64).floor() as isize)
        .collect()
''', '''    let n = n_tilings as f64;
    let mut bins = Vec::new();

    for &x in input {
        bins.push((n * x).floor() as isize);
    }

    bins
'''))
r('t5-euclid', (T, '''            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
''', '''            let n = n_tilings as isize;
            let u = s + offset;

            hasher.write_isize((u - u.rem_euclid(n)) / n)
'''))
r('t5-contains', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            Ok(hash.find(|f| *f == index).map_or(0.0, |_| 1.0))
'''))
r('t5-position', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            Ok(match hash.position(|f| f == index) {
                Some(_) => 1.0,
                None => 0.0,
            })
'''))
r('t5-all', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            let absent = hash.all(|f| index != f);

            Ok(if absent { 0.0 } else { 1.0 })
'''))
r('t5-any-cast', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            Ok(hash.any(|f| index == f) as u8 as f64)
'''))
G = 'src/basis/uniform_grid.rs'
r('g5-hash-zip-fold', (G, '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)
''', '''        let mut in_it = input.into_iter();
        let mut acc = None;

        for d in self.feature_space.iter() {
            match (acc, in_it.next()) {
                (None, v) => acc = Some(d.map_onto(*v.unwrap())),
                (Some(a), Some(v)) => acc = Some(a * d.n_partitions() + d.map_onto(*v)),
                (Some(_), None) => break,
            }
        }

        acc.unwrap()
'''))
r('g5-ith-cast', (G, '''            Ok(if self.hash(input) == index { 1.0 } else { 0.0 })
''', '''            let hit = self.hash(input) == index;

            Ok(f64::from(u8::from(hit)))
'''))
P = 'src/basis/polynomial/mod.rs'
B = 'src/basis/mod.rs'
r('b5-coeffs-filter', (B, '''        .multi_cartesian_product()
        .skip(1)
''', '''        .multi_cartesian_product()
        .filter(|c| c.iter().any(|&x| x > 0))
'''))
r('b5-bounds', (B, '''        (Some(lb), Some(ub)) => (lb, ub),
        (Some(_), None)''', '''        (Some(inf), Some(sup)) => {
            let limits = (inf, sup);

            limits
        }
        (Some(_), None)'''))
r('b5-rescale', (B, '''        $x.into_iter().zip($limits.iter()).map(move |(v, l)| {
            let v = v.borrow();

            (v - l.0) / (l.1 - l.0)
        })
''', '''        $x.into_iter().zip(&$limits).map(move |(v, &(lo, hi))| {
            let width = hi - lo;

            (*v.borrow() - lo) / width
        })
'''))
S = 'src/basis/stack.rs'
r('s5-project-zip', (S, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))
''', '''        let f1 = match self.b1.project(input.clone()) {
            Ok(f1) => f1,
            Err(e) => return Err(e),
        };

        self.b2.project(input).map(move |f2| Features::stack(f1, f2))
'''))
r('s5-dim-match', (S, '''    fn dim(&self) -> Dim { self.b1.dim() + self.b2.dim() }
''', '''    fn dim(&self) -> Dim {
        let first = self.b1.dim();
        let second = self.b2.dim();

        first + second
    }
'''))
C = 'src/basis/constant.rs'
r('b5-fixed-get', (C, '''        check_index!(index < self.0.len() => {
            Ok(*self.0.get(index).unwrap())
        })
''', '''        match self.0.get(index) {
            Some(&c) => Ok(c),
            None => Err(crate::Error::index_error(index, self.0.len())),
        }
'''))
r('b5-fixed-ok_or', (C, '''        check_index!(index < self.0.len() => {
            Ok(*self.0.get(index).unwrap())
        })
''', '''        self.0
            .get(index)
            .copied()
            .ok_or_else(|| crate::Error::index_error(index, self.0.len()))
'''))
r('b5-bias-array', (C, '''Ok(vec![self.0].into())''', '''Ok(Features::Dense(ndarray::arr1(&[self.0])))'''))
r('b5-bias-once', (C, '''Ok(vec![self.0].into())''', '''Ok(Features::dense(::std::iter::once(self.0)))'''))
