# third round: whole-function rewrites (exec'd by refactors.py)
r('f3-is_dense', (F, "apply_to_features!(self => true; false)", "matches!(self, Features::Dense(_))"),
  (F, "apply_to_features!(self => false; true)", "!self.is_dense()"))
r('f3-get-match', (F, '''        apply_to_features!(self => da, {
            da.get(idx)
        }; sa, {
            sa.activations.get(&idx)
        })
    }

    /// Return''', '''        match *self {
            Features::Dense(ref values) if idx < values.len() => Some(&values[idx]),
            Features::Dense(_) => None,
            Features::Sparse(ref entries) => match entries.activations.get(&idx) {
                Some(value) => Some(value),
                None => None,
            },
        }
    }

    /// Return'''))
r('f3-get-entry', (F, '''            da.get(idx)
        }; sa, {
            sa.activations.get(&idx)
''', '''            da.iter().nth(idx)
        }; sa, {
            sa.activations.iter().find(|(i, _)| **i == idx).map(|(_, a)| a)
'''))
r('f3-remove-len', (F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }
''', '''            let n = da.len();
            if idx >= n {
                return;
            }
            da[idx] = 0.0;
'''))
r('f3-remove-loop', (F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }
''', '''            for (i, a) in da.iter_mut().enumerate() {
                if i == idx {
                    *a = 0.0;
                    break;
                }
            }
'''))
r('f3-remove-entry', (F, '''            sa.activations.remove(&idx);
''', '''            if sa.activations.contains_key(&idx) {
                sa.activations.remove(&idx);
            }
'''))
r('f3-remove-retain', (F, '''            sa.activations.remove(&idx);
''', '''            sa.activations.retain(|&i, _| i != idx);
'''))
r('f3-to_dense-while', (F, '''                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                let mut entries = sa.iter();

                while let Some((idx, act)) = entries.next() {
                    phi[*idx] = *act;
                }

                phi
'''))
r('f3-to_dense-vec', (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                let mut values = vec![0.0; sa.dim];

                for (idx, act) in &sa.activations {
                    values[*idx] = *act;
                }

                Array1::from(values)
'''))
r('f3-to_dense-assign', (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
            }
        }
    }

    /// Expand the features directly''', '''                let mut phi = Array1::zeros(sa.dim);
                sa.scatter(&mut phi);
                phi
            }
        }
    }

    /// Expand the features directly'''), (F, '''impl SparseActivations {
''', '''impl SparseActivations {
    fn scatter(&self, out: &mut DenseActivations) {
        for (&i, &a) in self.activations.iter() {
            out[i] = a;
        }
    }

'''))
r('f3-into_dense-iflet', (F, '''        match self {
            Features::Dense(da) => da,
            Features::Sparse(sa) => {
                let mut phi = Array1::zeros(sa.dim);

                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
            }
        }
''', '''        let SparseActivations { dim, activations } = match self {
            Features::Dense(da) => return da,
            Features::Sparse(sa) => sa,
        };
        let mut phi = Array1::zeros(dim);

        activations.into_iter().for_each(|(idx, act)| {
            phi[idx] = act;
        });

        phi
'''))
STK = '''        match (self, other) {
            (Sparse(mut sa1), Sparse(sa2)) => {
                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });

                Sparse(SparseActivations {
                    dim: sa1.dim + sa2.dim,
                    activations: sa1.activations,
                })
            }
'''
r('f3-stack-destruct', (F, STK, '''        match (self, other) {
            (
                Sparse(SparseActivations { dim: d1, activations: mut acts }),
                Sparse(SparseActivations { dim: d2, activations: more }),
            ) => {
                acts.reserve(more.len());
                for (i, v) in more {
                    acts.insert(d1 + i, v);
                }

                Sparse(SparseActivations { dim: d1 + d2, activations: acts })
            }
'''))
r('f3-stack-offset', (F, STK, '''        match (self, other) {
            (Sparse(mut sa1), Sparse(sa2)) => {
                let offset = sa1.dim;
                sa1.dim += sa2.dim;
                sa1.activations.extend(sa2.iter().map(|(&i, &v)| (offset + i, v)));
                Sparse(sa1)
            }
'''))
r('f3-stack-concat', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                let d1 = f1.into_dense();
                let d2 = f2.into_dense();
                let n1 = d1.len();

                Dense(Array1::from_shape_fn(n1 + d2.len(), |i| {
                    if i < n1 { d1[i] } else { d2[i - n1] }
                }))
'''))
r('f3-stack-loop', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
''', '''                let first = f1.into_dense();
                let second = f2.into_dense();
                let mut out = Vec::with_capacity(first.len() + second.len());
                for v in first.iter() {
                    out.push(*v);
                }
                for v in second.iter() {
                    out.push(*v);
                }
                Dense(Array1::from(out))
'''))
MAPS = '''                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();

                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations,
                    })
                } else {
                    let mut phi = Array1::from_elem(sa.dim, null_activation);

                    for (&idx, &act) in sa.iter() {
                        phi[idx] = f(act);
                    }

                    Dense(phi)
                }
'''
r('f3-map-invert', (F, MAPS, '''                let base = f(0.0);
                let preserves_sparsity = base.abs() < 1e-5;

                if !preserves_sparsity {
                    let mut phi = Array1::from_elem(sa.dim, base);

                    for (idx, act) in sa.iter() {
                        phi[*idx] = f(*act);
                    }

                    return Dense(phi);
                }

                let mut activations = ::std::collections::HashMap::with_capacity(sa.activations.len());
                for (&i, &k) in sa.iter() {
                    activations.insert(i, f(k));
                }

                Sparse(SparseActivations { dim: sa.dim, activations })
'''))
r('f3-map-helper', (F, MAPS, '''                let null_activation = f(0.0);

                if Self::is_null(null_activation) {
                    return Features::sparse(sa.dim, sa.iter().map(|(&i, &k)| (i, f(k))));
                }

                let mut phi = Array1::from_elem(sa.dim, null_activation);
                sa.iter().for_each(|(&idx, &act)| phi[idx] = f(act));
                Dense(phi)
'''), (F, '''    /// Return the number of _active_''', '''    fn is_null(x: ActivationT) -> bool {
        x.abs() < 1e-5
    }

    /// Return the number of _active_'''))
r('f3-map-shapefn', (F, MAPS, '''                let null_activation = f(0.0);

                if null_activation < 1e-5 && null_activation > -1e-5 {
                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations: sa.activations.iter().map(|(i, k)| (*i, f(*k))).collect(),
                    })
                } else {
                    Dense(Array1::from_shape_fn(sa.dim, |i| match sa.activations.get(&i) {
                        Some(&act) => f(act),
                        None => null_activation,
                    }))
                }
'''))
r('f3-map_inplace-take', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
''', '''        let old = mem::replace(self, Features::Dense(DenseActivations::from(Vec::new())));
        *self = old.map_into(f);
'''))
r('f3-map_inplace-direct', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));
''', '''        if let Features::Dense(da) = self {
            da.mapv_inplace(&f);
            return;
        }
        let mapped = self.map(f);
        *self = mapped;
'''))
r('f3-map_dense-match', (F, '''        apply_to_features!(self => activations, {
            Some(f(activations))
        }; _indices, {
            None
        })
''', '''        if let Features::Dense(activations) = self {
            Some(f(activations))
        } else {
            None
        }
'''))
r('f3-map_sparse-either', (F, '''        apply_to_features!(self => _activations, {
            None
        }; indices, {
            Some(f(indices))
        })
''', '''        self.map_either(|_| None, |sa| Some(f(sa)))
'''))
r('f3-merge-ss-keys', (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    let mut idx_out: ::std::collections::HashMap<IndexT, ActivationT> = sa1
                        .iter()
                        .map(|(&i, &x)| (i, f(x, sa2.activations.get(&i).copied().unwrap_or(0.0))))
                        .collect();

                    for (&i, &y) in sa2.iter() {
                        if !sa1.activations.contains_key(&i) {
                            idx_out.insert(i, f(0.0, y));
                        }
                    }
'''))
r('f3-merge-ss-filter', (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    let mut idx_out = sa1.activations.clone();

                    idx_out.iter_mut().for_each(|(i, a)| {
                        let y = match sa2.activations.get(i) {
                            Some(v) => *v,
                            None => 0.0,
                        };
                        *a = f(*a, y);
                    });

                    idx_out.extend(
                        sa2.activations
                            .iter()
                            .filter(|(i, _)| !sa1.activations.contains_key(i))
                            .map(|(&i, &y)| (i, f(0.0, y))),
                    );
'''))
r('f3-merge-ss-chain', (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    let at = |sa: &SparseActivations, i: usize| sa.activations.get(&i).copied().unwrap_or(0.0);
                    let idx_out = sa1
                        .activations
                        .keys()
                        .chain(sa2.activations.keys())
                        .map(|&i| (i, f(at(sa1, i), at(sa2, i))))
                        .collect();
'''))
r('f3-merge-dd-zip', (F, '''                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));

                        Dense(a_out)
''', '''                        for (x, y) in a_out.iter_mut().zip(da2.iter()) {
                            *x = f(*x, *y);
                        }

                        Dense(a_out)
'''))
r('f3-merge-ds-densify', (F, '''                        for (i, x) in a_out.indexed_iter_mut() {
                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }

                        Dense(a_out)
''', '''                        let n = a_out.len();
                        for i in 0..n {
                            let y = match sa2.activations.get(&i) {
                                Some(&y) => y,
                                None => 0.0,
                            };
                            a_out[i] = f(a_out[i], y);
                        }

                        Dense(a_out)
'''))
r('f3-merge-sd-zeros', (F, '''                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }
''', '''                    let mut phi = Array1::zeros(n);

                    for (i, p) in phi.iter_mut().enumerate() {
                        let x = sa1.activations.get(&i).copied().unwrap_or(0.0);
                        let y = if i < da2.len() { da2[i] } else { 0.0 };
                        *p = f(x, y);
                    }

                    Dense(phi)
'''))
r('f3-merge_into-swap', (F, '''            Dense(mut da1) => match other {
                Dense(sa2) => {
                    da1.zip_mut_with(sa2, |x, y| *x = f(*x, *y));

                    Dense(da1)
                }
                Sparse(sa2) => {
                    for (i, x) in da1.indexed_iter_mut() {
                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                    }

                    Dense(da1)
                }
            },
''', '''            Dense(mut da1) => {
                if let Dense(da2) = other {
                    da1.zip_mut_with(da2, |x, y| *x = f(*x, *y));
                } else if let Sparse(sa2) = other {
                    da1.indexed_iter_mut().for_each(|(i, x)| {
                        *x = f(*x, sa2.activations.get(&i).map_or(0.0, |y| *y));
                    });
                }

                Dense(da1)
            }
'''))
r('f3-merge_into-via', (F, '''                Dense(sa2) => {
                    da1.zip_mut_with(sa2, |x, y| *x = f(*x, *y));

                    Dense(da1)
                }
                Sparse(sa2) => {
                    for (i, x) in da1.indexed_iter_mut() {
                        *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                    }

                    Dense(da1)
                }
''', '''                Dense(sa2) => {
                    da1.zip_mut_with(sa2, |x, &y| *x = f(*x, y));

                    da1.into()
                }
                Sparse(sa2) => {
                    let lookup = |i: usize| sa2.activations.get(&i).copied().unwrap_or(0.0);
                    for (i, x) in da1.iter_mut().enumerate() {
                        *x = f(*x, lookup(i));
                    }

                    da1.into()
                }
'''))
r('f3-fold-loop', (F, '''            da.iter().fold(init, f)
        }; ref sa, {
            sa.activations.values().fold(init, f)
''', '''            let mut acc = init;
            for v in da.iter() {
                acc = f(acc, v);
            }
            acc
        }; ref sa, {
            let mut acc = init;
            for (_, v) in sa.iter() {
                acc = f(acc, v);
            }
            acc
'''))
r('f3-dot-match', (F, '''        apply_to_features!(self => activations, {
            Features::dot_dense(activations, weights)
        }; indices, {
            Features::dot_sparse(indices, weights)
        })
''', '''        match self {
            Features::Dense(activations) => activations.dot(weights),
            Features::Sparse(sa) => {
                let mut total = 0.0;
                for (&i, &a) in sa.iter() {
                    total += a * weights[i];
                }
                total
            }
        }
'''))
r('f3-matmul-zeros', (F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()
''', '''        let mut out = Array1::zeros(weights.ncols());
        for (o, col) in out.iter_mut().zip(weights.columns()) {
            *o = self.dot(&col);
        }
        out
'''))
r('f3-matmul-shapefn', (F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()
''', '''        Array1::from_shape_fn(weights.ncols(), |j| self.dot(&weights.column(j)))
'''))
r('f3-addto-indexed', (F, '''            for (&idx, act) in sa.iter() { weights[idx] += act; }
''', '''            let mut it = sa.activations.iter();
            while let Some((idx, act)) = it.next() {
                let w = &mut weights[*idx];
                *w += *act;
            }
'''))
r('f3-scaled-pre', (F, '''            for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }
''', '''            for (&idx, &act) in sa.iter() {
                let delta = act * alpha;
                weights[idx] = weights[idx] + delta;
            }
'''))
r('f3-dotff-flat', (F, '''        match self {
            Sparse(sa1) => match rhs {
                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),
                Dense(da2) => Features::dot_sparse(sa1, da2),
            },
            Dense(da1) => match rhs {
                Sparse(sa2) => Features::dot_sparse(sa2, da1),
                Dense(da2) => da1.dot(da2),
            },
        }
''', '''        match (self, rhs) {
            (Dense(a), Dense(b)) => a.dot(b),
            (Dense(a), Sparse(b)) | (Sparse(b), Dense(a)) => Features::dot_sparse(b, a),
            (Sparse(a), Sparse(b)) => {
                let mut acc = 0.0;
                for (k, x) in a.iter() {
                    if let Some(y) = b.activations.get(k) {
                        acc += x * y;
                    }
                }
                acc
            }
        }
'''))
r('f3-dotff-filtermap', (F, '''sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),
''', '''sa1
                    .activations
                    .iter()
                    .filter_map(|(k, a1)| sa2.activations.get(k).map(|a2| a1 * a2))
                    .sum(),
'''))
r('f3-eq-if', (F, '''                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)
''', '''                if sa1.dim != sa2.dim {
                    return false;
                }
                sa1.activations == sa2.activations
'''))
r('f3-eq-loop', (F, '''                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)
''', '''                sa1.dim == sa2.dim
                    && sa1.activations.len() == sa2.activations.len()
                    && sa1.iter().all(|(i, v)| sa2.activations.get(i).map_or(false, |u| u == v))
'''))
r('f3-eq-for', (F, '''                sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)
''', '''                if sa1.dim != sa2.dim || sa1.activations.len() != sa2.activations.len() {
                    return false;
                }
                for (i, v) in sa1.iter() {
                    match sa2.activations.get(i) {
                        Some(u) if u == v => {}
                        _ => return false,
                    }
                }
                true
'''))
r('f3-from-idx-loop', (F, '''        let n = indices.iter().max().map_or(0, |i| i + 1);

        SparseFeatures(SparseActivations {
            dim: n,
            activations: indices.into_iter().map(|i| (i, 1.0)).collect(),
        })
''', '''        let n = match indices.iter().max() {
            Some(largest) => *largest + 1,
            None => 0,
        };

        Features::unitary(n, indices)
'''))
r('f3-from-idx-fold', (F, '''        let n = indices.iter().max().map_or(0, |i| i + 1);
''', '''        let n = indices.iter().fold(0, |n, &i| n.max(i + 1));
'''))
r('f3-from-idx-for', (F, '''        let n = indices.iter().max().map_or(0, |i| i + 1);

        SparseFeatures(SparseActivations {
            dim: n,
            activations: indices.into_iter().map(|i| (i, 1.0)).collect(),
        })
''', '''        let mut dim = 0;
        let mut activations = ::std::collections::HashMap::new();
        for i in indices {
            if i + 1 > dim {
                dim = i + 1;
            }
            activations.insert(i, 1.0);
        }

        SparseFeatures(SparseActivations { dim, activations })
'''))
r('f3-fromiter-dense', (F, '''        DenseFeatures(Array1::from_iter(iter))
''', '''        Features::dense(iter)
'''))
r('f3-intovec', (F, '''        phi.into_dense().to_vec()
''', '''        phi.into_dense().into_iter().collect()
'''))
r('f3-intovec-raw', (F, '''        phi.into_dense().to_vec()
''', '''        match phi {
            Features::Dense(da) => da.iter().copied().collect(),
            sparse => sparse.into_dense().into_raw_vec(),
        }
'''))
r('f3-n_active-neg', (F, '''da.iter().filter(|v| v.abs() > 1e-7).count()''', '''da.len() - da.iter().filter(|v| !(v.abs() > 1e-7)).count()'''))
r('f3-sum-for', (F, '''            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),
''', '''            Features::Dense(da) => da.iter().sum(),
            Features::Sparse(sa) => {
                let mut total = 0.0;
                for &v in sa.activations.values() {
                    total += v;
                }
                total
            }
'''))

# ---- optimisers
r('o3-adagrad-zipfor', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => {
                let params = weights.iter_mut().zip(self.accumulator.iter_mut());

                for (&a, (w, ss)) in da.iter().zip(params) {
                    let g = a * scale_factor;
                    let acc = *ss + g * g;

                    *ss = acc;
                    *w += lr * g / (acc.sqrt() + EPS);
                }
            },
'''))
r('o3-adagrad-densify', (O + 'adagrad.rs', '''            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;
''', '''            Features::Sparse(sa) => {
                for (i, ss) in self.accumulator.iter_mut().enumerate() {
                    let g = match sa.activations.get(&i) {
                        Some(a) => a * scale_factor,
                        None => continue,
                    };
'''))
r('o3-adagrad-fn', (O + 'adagrad.rs', ADG, '''            Features::Dense(da) => da
                .iter()
                .zip(weights.iter_mut())
                .zip(self.accumulator.iter_mut())
                .for_each(|((a, w), ss)| adagrad_update(w, ss, lr, a * scale_factor)),
'''), (O + 'adagrad.rs', '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
''', '''                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    adagrad_update(&mut weights[i], ss, lr, g);
'''), (O + 'adagrad.rs', '''impl Optimiser<Features>''', '''fn adagrad_update(w: &mut f64, ss: &mut f64, lr: f64, g: f64) {
    *ss += g * g;
    *w += lr * g / (ss.sqrt() + EPS);
}

impl Optimiser<Features>'''))
r('o3-adagrad-sparse-split', (O + 'adagrad.rs', '''                for (i, ss) in self.accumulator.indexed_iter_mut() {
                    let g = sa.activations.get(&i).cloned().unwrap_or(0.0) * scale_factor;

                    *ss = *ss + g.powi(2);
                    weights[i] += lr * g / (ss.sqrt() + EPS);
                }
''', '''                for (&i, &a) in sa.iter() {
                    let g = a * scale_factor;

                    self.accumulator[i] += g * g;
                }

                for (&i, &a) in sa.iter() {
                    weights[i] += lr * (a * scale_factor) / (self.accumulator[i].sqrt() + EPS);
                }
'''))
ADAMD = '''                let m1 = self.exp_avg.as_slice_memory_order_mut().unwrap();
                let m2 = self.exp_avg_sq.as_slice_memory_order_mut().unwrap();

                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m1_new = self.beta1 * m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = self.beta2 * m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
'''
r('o3-adam-range', (O + 'adam.rs', ADAMD, '''                for i in 0..da.len() {
                    let g = da[i] * scale_factor;

                    self.exp_avg[i] = self.beta1 * self.exp_avg[i] + (1.0 - self.beta1) * g;
                    self.exp_avg_sq[i] = self.beta2 * self.exp_avg_sq[i] + (1.0 - self.beta2) * (g * g);

                    let m_hat = self.exp_avg[i] / (1.0 - self.beta1_prod);
                    let v_hat = self.exp_avg_sq[i] / (1.0 - self.beta2_prod);

                    weights[i] += self.learning_rate * m_hat / (v_hat.sqrt() + EPS);
                }
'''))
r('o3-adam-destruct', (O + 'adam.rs', ADAMD, '''                let (b1, b2, lr) = (self.beta1, self.beta2, self.learning_rate);
                let c1 = 1.0 - self.beta1_prod;
                let c2 = 1.0 - self.beta2_prod;

                da.iter()
                    .zip(self.exp_avg.iter_mut())
                    .zip(self.exp_avg_sq.iter_mut())
                    .zip(weights.iter_mut())
                    .for_each(|(((a, m), v), w)| {
                        let g = a * scale_factor;
                        *m = b1 * *m + (1.0 - b1) * g;
                        *v = b2 * *v + (1.0 - b2) * g * g;
                        *w += lr * (*m / c1) / ((*v / c2).sqrt() + EPS);
                    });
'''))
r('o3-adam-passes', (O + 'adam.rs', ADAMD, '''                let b1 = self.beta1;
                let b2 = self.beta2;
                self.exp_avg.zip_mut_with(da, |m, a| *m = b1 * *m + (1.0 - b1) * (a * scale_factor));
                self.exp_avg_sq.zip_mut_with(da, |v, a| {
                    let g = a * scale_factor;
                    *v = b2 * *v + (1.0 - b2) * g * g;
                });

                for (i, w) in weights.iter_mut().enumerate() {
                    let m_hat = self.exp_avg[i] / (1.0 - self.beta1_prod);
                    let v_hat = self.exp_avg_sq[i] / (1.0 - self.beta2_prod);
                    *w += self.learning_rate * m_hat / (v_hat.sqrt() + EPS);
                }
'''))
r('o3-adam-decay-for', (O + 'adam.rs', '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);
''', '''                let (beta1, beta2) = (self.beta1, self.beta2);
                self.exp_avg.mapv_inplace(|m| m * beta1);
                for v in self.exp_avg_sq.iter_mut() {
                    *v *= beta2;
                }
'''))
r('o3-adam-decay-op', (O + 'adam.rs', '''                self.exp_avg.mul_assign(self.beta1);
                self.exp_avg_sq.mul_assign(self.beta2);
''', '''                self.exp_avg *= self.beta1;
                self.exp_avg_sq *= self.beta2;
'''))
r('o3-adam-bias-first', (O + 'adam.rs', '''        self.beta1_prod *= self.beta1;
        self.beta2_prod *= self.beta2;

        match features {
            Features::Dense(da) => {''', '''        self.beta2_prod = self.beta2 * self.beta2_prod;
        self.beta1_prod = self.beta1 * self.beta1_prod;

        match *features {
            Features::Dense(ref da) => {'''), (O + 'adam.rs', '''            Features::Sparse(sa) => {
                self.exp''', '''            Features::Sparse(ref sa) => {
                self.exp'''))
r('o3-adam-sparse-foreach', (O + 'adam.rs', '''                for (&i, a) in sa.iter() {
                    let g = a * scale_factor;

                    let m1_new = m1[i] + (1.0 - self.beta1) * g;
                    let m2_new = m2[i] + (1.0 - self.beta2) * g * g;

                    let m1_unbiased = m1_new / (1.0 - self.beta1_prod);
                    let m2_unbiased = m2_new / (1.0 - self.beta2_prod);

                    m1[i] = m1_new;
                    m2[i] = m2_new;
                    weights[i] += self.learning_rate * m1_unbiased / (m2_unbiased.sqrt() + EPS);
                }
''', '''                let lr = self.learning_rate;
                let (k1, k2) = (1.0 - self.beta1, 1.0 - self.beta2);
                let (c1, c2) = (1.0 - self.beta1_prod, 1.0 - self.beta2_prod);

                sa.iter().for_each(|(idx, a)| {
                    let i = *idx;
                    let g = scale_factor * *a;

                    m1[i] += k1 * g;
                    m2[i] += k2 * g * g;
                    weights[i] += lr * (m1[i] / c1) / ((m2[i] / c2).sqrt() + EPS);
                });
'''))
r('o3-adamax-range', (O + 'adamax.rs', '''                for (i, a) in da.indexed_iter() {
                    let g = a * scale_factor;

                    let m_new = self.beta1 * m[i] + (1.0 - self.beta1) * g;
                    let u_new = (self.beta2 * u[i]).max(g.abs());
                    let m_unbiased = m_new / (1.0 - self.beta1_prod);

                    m[i] = m_new;
                    u[i] = u_new;
                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);
                }
''', '''                let mut i = 0;
                while i < da.len() {
                    let g = da[i] * scale_factor;
                    m[i] = self.beta1 * m[i] + (1.0 - self.beta1) * g;
                    u[i] = f64::max(self.beta2 * u[i], g.abs());
                    weights[i] += self.learning_rate * (m[i] / (1.0 - self.beta1_prod)) / (u[i] + EPS);
                    i += 1;
                }
'''))
r('o3-adamax-helper', (O + 'adamax.rs', '''                    let m_new = m[i] + (1.0 - self.beta1) * g;
                    let u_new = u[i].max(g.abs());
                    let m_unbiased = m_new / (1.0 - self.beta1_prod);

                    m[i] = m_new;
                    u[i] = u_new;
                    weights[i] += self.learning_rate * m_unbiased / (u_new + EPS);
''', '''                    m[i] += (1.0 - self.beta1) * g;
                    if u[i] < g.abs() {
                        u[i] = g.abs();
                    }
                    let step = self.learning_rate / (1.0 - self.beta1_prod);
                    weights[i] += step * m[i] / (u[i] + EPS);
'''))
r('o3-mom-fold', (O + 'momentum.rs', '''            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
''', '''            Features::Dense(da) => {
                self.velocity *= m;
                self.velocity.scaled_add(scale_factor, da);
            },
'''))
r('o3-mom-common', (O + 'momentum.rs', '''        match features {
            Features::Dense(da) => self
                .velocity
                .zip_mut_with(da, |x, y| *x = m * *x + y * scale_factor),
            Features::Sparse(sa) => {
                self.velocity.mul_assign(m);

                sa.iter().for_each(|(i, a)| {
                    self.velocity[*i] += a * scale_factor;
                });
            },
        }

        Ok(weights.scaled_add(lr, &self.velocity))
''', '''        self.velocity.mul_assign(m);
        features.scaled_addto(scale_factor, &mut self.velocity);
        weights.scaled_add(lr, &self.velocity);

        Ok(())
'''))
r('o3-nag-order', (O + 'nesterov.rs', '''        {
            weights.scaled_add(lr * m, &self.velocity);
            features.scaled_addto(lr * scale_factor, weights);
        }
        Ok(())
''', '''        features.scaled_addto(lr * scale_factor, weights);
        weights.scaled_add(m * lr, &self.velocity);

        Ok(())
'''))
r('o3-nag-for', (O + 'nesterov.rs', '''                sa.iter().for_each(|(i, a)| {
                    let g = a * scale_factor;

                    self.velocity[*i] += g;
                });
''', '''                for (&i, a) in sa.iter() {
                    self.velocity[i] += a * scale_factor;
                }
'''))
r('o3-isgd-loop', (O + 'isgd.rs', '''        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)
''', '''        let ISGD(alpha) = *self;
        let sq_norm = match features {
            Features::Dense(da) => da.iter().map(|x| x.powi(2)).sum::<f64>(),
            Features::Sparse(sa) => sa.activations.values().map(|x| x * x).sum(),
        };

        alpha / (alpha * sq_norm + 1.0)
'''))
r('o3-isgd-self', (O + 'isgd.rs', '''        Ok(features.scaled_addto(self.compute_lr(features), weights))
''', '''        self.step_scaled(weights, features, 1.0)
'''))
r('o3-default-step', (O + 'mod.rs', '''        self.step_scaled(weights, grad, 1.0)
''', '''        let unit = 1.0;

        self.step_scaled(weights, grad, unit)
'''))
r('o3-reset-mapv', (O + 'momentum.rs', '''{ self.velocity.fill(0.0); }''', '''{
        self.velocity.mapv_inplace(|_| 0.0);
    }'''))
r('o3-reset-assign', (O + 'adamax.rs', '''        self.exp_avg.fill(0.0);
        self.exp_inf.fill(0.0);
''', '''        self.exp_avg.iter_mut().zip(self.exp_inf.iter_mut()).for_each(|(m, u)| {
            *m = 0.0;
            *u = 0.0;
        });
'''))

# ---- normalisers
N = B + 'normalisation.rs'
r('n3-l0-q', (N, '''        self.0.project(input).map(|f| {
            let z = f.n_active() as f64;

            f.map_into(|x| x / z)
        })
''', '''        let features = self.0.project(input)?;
        let n = features.n_active();
        let scale = n as f64;

        Ok(features.map_into(move |x| x / scale))
'''))
r('n3-l0-ith-match', (N, '''                .map(|f| {
                    let z = f.n_active() as f64;

                    unsafe { f.uget(index).copied().unwrap_or(0.0) / z }
                })
''', '''                .map(|f| {
                    let z = f.n_active() as f64;
                    let x = match f.get(index) {
                        Some(x) => *x,
                        None => 0.0,
                    };

                    x / z
                })
'''))
L1P = '''            Features::Dense(da) => {
                let z = da.fold(0.0, |acc, x| acc + x.abs());

                Features::Dense(da.mapv(|x| x / z))
            },
            Features::Sparse(sa) => {
                let z = sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs());

                Features::Sparse(SparseActivations {
                    dim: sa.dim,
                    activations: sa
                        .activations
                        .into_iter()
                        .map(|(i, x)| (i, x / z))
                        .collect(),
                })
            },
'''
r('n3-l1-mut', (N, L1P, '''            Features::Dense(mut da) => {
                let z: f64 = da.iter().map(|x| x.abs()).sum();

                for x in da.iter_mut() {
                    *x /= z;
                }

                Features::Dense(da)
            },
            Features::Sparse(mut sa) => {
                let z: f64 = sa.activations.values().map(|x| x.abs()).sum();

                for (_, x) in sa.activations.iter_mut() {
                    *x /= z;
                }

                Features::Sparse(sa)
            },
'''))
r('n3-l1-norm-first', (N, '''        self.0.project(input).map(|f| match f {
''' + L1P + '''        })
''', '''        let features = self.0.project(input)?;
        let norm = features.fold(0.0, |acc, x| acc + x.abs());

        Ok(match features {
            Features::Dense(da) => Features::Dense(da / norm),
            Features::Sparse(SparseActivations { dim, activations }) => {
                Features::sparse(dim, activations.into_iter().map(|(i, x)| (i, x / norm)))
            },
        })
'''))
r('n3-l1-values_mut', (N, L1P, '''            Features::Dense(da) => {
                let mut z = 0.0;
                for x in &da {
                    z += x.abs();
                }

                Features::Dense(da.mapv_into(|x| x / z))
            },
            Features::Sparse(mut sa) => {
                let mut z = 0.0;
                for (_, x) in sa.iter() {
                    z += x.abs();
                }

                sa.activations.values_mut().for_each(|x| *x /= z);
                Features::Sparse(sa)
            },
'''))
r('n3-l1-ith-fold', (N, '''            self.0.project(input).map(|f| match f {
                Features::Dense(da) => {
                    let z = da.fold(0.0, |acc, x| acc + x.abs());

                    da[index] / z
                },
                Features::Sparse(sa) =>
                    sa.activations.get(&index).map_or(0.0, |x| {
                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x.abs())
                    }),
            })
''', '''            let f = self.0.project(input)?;
            let z = f.fold(0.0, |acc, x| acc + x.abs());

            Ok(match f {
                Features::Dense(da) => da[index] / z,
                Features::Sparse(sa) => match sa.activations.get(&index) {
                    Some(x) => x / z,
                    None => 0.0,
                },
            })
'''))
r('n3-l2-hypot', (N, '''                let z = da.fold(0.0, |acc, x| acc + x * x).sqrt();

                Features::Dense(da.mapv(|x| x / z))
''', '''                let squares: f64 = da.iter().map(|&x| x * x).sum();
                let z = squares.sqrt();

                Features::Dense(da.iter().map(|x| x / z).collect())
'''))
r('n3-l2-sparse-let', (N, '''                    sa.activations.get(&index).map_or(0.0, |x| {
                        x / sa.iter().fold(0.0, |acc, (_, x)| acc + x * x).sqrt()
                    }),
''', '''                    if let Some(x) = sa.activations.get(&index) {
                        let z = sa.activations.values().fold(0.0, |acc, v| acc + v * v).sqrt();
                        x / z
                    } else {
                        0.0
                    },
'''))
LIP = '''                let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                Features::Dense(da.mapv(|x| x / z))
'''
r('n3-linf-map', (N, LIP, '''                let z = da.iter().map(|x| x.abs()).fold(f64::NEG_INFINITY, f64::max);

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n3-linf-helper', (N, LIP, '''                let z = max_abs(da.iter());

                Features::Dense(da.mapv_into(|x| x / z))
'''), (N, '''                let z = sa
                    .iter()
                    .fold(f64::NEG_INFINITY, |acc, (_, x)| acc.max(x.abs()));
''', '''                let z = max_abs(sa.activations.values());
'''), (N, '''impl<B> LinfNormaliser<B> {
''', '''fn max_abs<'a>(values: impl Iterator<Item = &'a f64>) -> f64 {
    let mut largest = f64::NEG_INFINITY;

    for v in values {
        largest = largest.max(v.abs());
    }

    largest
}

impl<B> LinfNormaliser<B> {
'''))
r('n3-linf-cmp', (N, LIP, '''                let mut z = f64::NEG_INFINITY;
                for x in da.iter() {
                    let a = x.abs();
                    if a > z {
                        z = a;
                    }
                }

                Features::Dense(da.mapv(|x| x / z))
'''))
r('n3-linf-ith-q', (N, '''                Features::Dense(da) => {
                    let z = da.fold(f64::NEG_INFINITY, |acc, &x| acc.max(x.abs()));

                    da[index] / z
                },
''', '''                Features::Dense(da) => {
                    let mut z = f64::NEG_INFINITY;
                    da.iter().for_each(|x| z = z.max(x.abs()));

                    da.get(index).map_or(0.0, |x| x / z)
                },
'''))
r('n3-dim-self', (N, '''    fn dim(&self) -> Dim { self.0.dim() }
''', '''    fn dim(&self) -> Dim {
        let L0Normaliser(inner) = self;

        inner.dim()
    }
'''))

# ---- tile coding, grid
T = B + 'tile_coding.rs'
HS = '''    (0..n_tilings).map(move |t| {
        let t = t as isize;
        let tx2 = t * 2;

        hasher.write_isize(t);

        for (i, s) in state.iter().enumerate() {
            let offset = t + i as isize * tx2;

            hasher.write_isize((s + offset).div_euclid(n_tilings as isize))
        }

        hasher.finish() as usize % memory_size
    })
'''
r('t3-bin-loop', (T, '''    input
        .into_iter()
        .map(|f| (f * n_tilings as f64).floor() as isize)
        .collect()
''', '''    let n = n_tilings as f64;
    let mut bins = Vec::new();

    for x in input {
        bins.push((x * n).floor() as isize);
    }

    bins
'''))
r('t3-hash-split', (T, HS, '''    let n = n_tilings as isize;

    (0..n).map(move |t| {
        hasher.write_isize(t);

        state.iter().enumerate().for_each(|(i, s)| {
            let shifted = s + t * (1 + 2 * i as isize);

            hasher.write_isize(shifted.div_euclid(n))
        });

        (hasher.finish() as usize) % memory_size
    })
'''))
r('t3-hash-range', (T, HS, '''    (0..n_tilings).map(move |tiling| {
        let t = tiling as isize;
        hasher.write_isize(t);

        for i in 0..state.len() {
            let coordinate = state[i] + t + 2 * t * i as isize;
            let tile = coordinate.div_euclid(n_tilings as isize);
            hasher.write_isize(tile);
        }

        let h = hasher.finish() as usize;
        h % memory_size
    })
'''))
r('t3-hash-offset', (T, HS, '''    (0..n_tilings).map(move |t| {
        let t = t as isize;
        let mut offset = t;

        hasher.write_isize(t);

        for s in state {
            hasher.write_isize((s + offset).div_euclid(n_tilings as isize));
            offset += 2 * t;
        }

        hasher.finish() as usize % memory_size
    })
'''))
r('t3-project-direct', (T, '''        Ok(Features::Sparse(SparseActivations {
            dim: self.memory_size,
            activations: hash.map(|i| (i, 1.0)).collect(),
        }))
''', '''        let mut activations = std::collections::HashMap::new();
        for i in hash {
            activations.insert(i, 1.0);
        }

        Ok(SparseActivations { dim: self.memory_size, activations }.into())
'''))
r('t3-ith-position', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            match hash.position(|f| f == index) {
                Some(_) => Ok(1.0),
                None => Ok(0.0),
            }
'''))
r('t3-ith-while', (T, '''            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
''', '''            while let Some(tile) = hash.next() {
                if tile == index {
                    return Ok(1.0);
                }
            }

            Ok(0.0)
'''))
r('t3-ith-early', (T, '''        check_index!(index < self.memory_size => {
            let state = bin_state(input, self.n_tilings);
            let mut hash = hash_state(
                self.hasher_builder.build_hasher(),
                &state,
                self.n_tilings,
                self.memory_size
            );

            Ok(if hash.any(|f| index == f) { 1.0 } else { 0.0 })
        })
''', '''        if index >= self.memory_size {
            return Err(crate::Error::index_error(index, self.memory_size));
        }

        let hasher = self.hasher_builder.build_hasher();
        let state = bin_state(input, self.n_tilings);
        let active = hash_state(hasher, &state, self.n_tilings, self.memory_size).any(|i| i == index);

        Ok(active as u8 as f64)
'''))
G = B + 'uniform_grid.rs'
GH = '''        let mut in_it = input.into_iter().copied();
        let mut d_it = self.feature_space.iter();

        let acc = d_it.next().unwrap().map_onto(in_it.next().unwrap());

        d_it.zip(in_it)
            .fold(acc, |acc, (d, v)| d.map_onto(v) + d.n_partitions() * acc)
'''
r('g3-hash-while', (G, GH, '''        let mut values = input.into_iter();
        let mut dims = self.feature_space.iter();

        let mut index = dims.next().unwrap().map_onto(*values.next().unwrap());
        while let (Some(d), Some(v)) = (dims.next(), values.next()) {
            index = index * d.n_partitions() + d.map_onto(*v);
        }

        index
'''))
r('g3-hash-opt', (G, GH, '''        self.feature_space
            .iter()
            .zip(input.into_iter())
            .fold(None, |acc: Option<usize>, (d, v)| {
                let bin = d.map_onto(*v);

                Some(match acc {
                    Some(acc) => bin + d.n_partitions() * acc,
                    None => bin,
                })
            })
            .unwrap()
'''))
r('g3-hash-mut', (G, GH, '''        let mut pairs = self.feature_space.iter().zip(input.into_iter().copied());
        let (first, x0) = pairs.next().unwrap();
        let mut acc = first.map_onto(x0);

        for (d, v) in pairs {
            acc *= d.n_partitions();
            acc += d.map_onto(v);
        }

        acc
'''))
r('g3-project-map', (G, '''        Ok(Features::Sparse(SparseActivations {
            dim: self.n_features,
            activations: ::std::iter::once((active_bin, 1.0)).collect(),
        }))
''', '''        let mut activations = ::std::collections::HashMap::with_capacity(1);
        activations.insert(active_bin, 1.0);

        Ok(Features::Sparse(SparseActivations {
            activations,
            dim: self.n_features,
        }))
'''))
r('g3-ith-cmp', (G, '''            Ok(if self.hash(input) == index { 1.0 } else { 0.0 })
''', '''            let bin = self.hash(input);

            match bin == index {
                true => Ok(1.0),
                false => Ok(0.0),
            }
'''))

# ---- stack & constants
S = B + 'stack.rs'
r('s3-ith-check', (S, '''        let n12 = n1 + n2;

        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }
''', '''        let total = n1 + n2;

        if index >= total {
            return Err(Error::index_error(index, total));
        }

        match index.checked_sub(n1) {
            Some(offset) => self.b2.ith(input, offset),
            None => self.b1.ith(input, index),
        }
'''))
r('s3-ith-match', (S, '''        if index < n1 {
            self.b1.ith(input, index)
        } else if index < n12 {
            self.b2.ith(input, index - n1)
        } else {
            Err(Error::index_error(index, n12))
        }
''', '''        match index {
            i if i < n1 => self.b1.ith(input, i),
            i if i < n12 => self.b2.ith(input, i - n1),
            i => Err(Error::index_error(i, n12)),
        }
'''))
r('s3-project-let', (S, '''        self.b1
            .project(input.clone())
            .and_then(|f1| self.b2.project(input).map(|f2| f1.stack(f2)))
''', '''        let left = self.b1.project(input.clone());
        let left = match left {
            Ok(f) => f,
            Err(e) => return Err(e),
        };

        match self.b2.project(input) {
            Ok(right) => Ok(left.stack(right)),
            Err(e) => Err(e),
        }
'''))
r('s3-dim-fin', (S, '''self.b1.dim() + self.b2.dim()''', '''
        let d1 = self.b1.dim();
        let d2 = self.b2.dim();

        d1 + d2
    '''))
C = B + 'constant.rs'
r('s3-bias-once', (C, '''Ok(vec![self.0].into())''', '''Ok(Features::dense(std::iter::once(self.0)))'''))
r('s3-bias-ith', (C, '''        check_index!(index < 1 => { Ok(self.0) })
''', '''        match index {
            0 => Ok(self.0),
            _ => Err(crate::Error::index_error(index, 1)),
        }
'''))
r('s3-fixed-loop', (C, '''            activations: (self.0).1.iter().map(|&i| (i, 1.0)).collect(),
''', '''            activations: {
                let mut acts = std::collections::HashMap::new();
                for &i in (self.0).1.iter() {
                    acts.insert(i, 1.0);
                }
                acts
            },
'''))
r('s3-fixed-ith', (C, '''            Ok(if (self.0).1.contains(&index) { 1.0 } else { 0.0 })
''', '''            let active = (self.0).1.iter().any(|&i| i == index);

            Ok(if active { 1.0 } else { 0.0 })
'''))
r('s3-fixed-get', (C, '''            Ok(*self.0.get(index).unwrap())
''', '''            Ok(self.0[index])
'''))

# ---- polynomial families
P = B + 'polynomial/mod.rs'
r('b3-poly-ith-check', (P, '''        self.exponents
            .get(index)
            .map(|exps| {
                let iter = input
                    .into_iter()
                    .map(|x| *x.borrow())
                    .zip(exps.iter().copied());

                Self::compute_feature(iter)
            })
            .ok_or_else(|| Error::index_error(index, self.dim().into()))
''', '''        if index >= self.exponents.len() {
            return Err(Error::index_error(index, self.exponents.len()));
        }

        let exps = &self.exponents[index];
        let mut value = 1.0;
        for (x, &e) in input.into_iter().zip(exps) {
            value *= x.borrow().powi(i32::from(e));
        }

        Ok(value)
'''))
r('b3-poly-proj-for', (P, '''        Ok(self
            .exponents
            .iter()
            .map(|exps| Self::compute_feature(iter.clone().zip(exps.iter().copied())))
            .collect())
''', '''        let mut activations = Vec::with_capacity(self.exponents.len());
        for exps in &self.exponents {
            activations.push(Self::compute_feature(iter.clone().zip(exps.iter().copied())));
        }

        Ok(activations.into())
'''))
r('b3-poly-powi-loop', (P, '''        iter.into_iter()
            .map(|(v, e)| v.borrow().powi(e as i32))
            .product()
''', '''        let mut product = 1.0;
        for (v, e) in iter {
            product *= v.borrow().powi(e as i32);
        }
        product
'''))
r('b3-poly-match', (P, '''        self.exponents
            .get(index)
            .map(|exps| {
                let iter = input
                    .into_iter()
                    .map(|x| *x.borrow())
                    .zip(exps.iter().copied());

                Self::compute_feature(iter)
            })
            .ok_or_else(|| Error::index_error(index, self.dim().into()))
''', '''        match self.exponents.get(index) {
            Some(exps) => Ok(Self::compute_feature(
                input.into_iter().map(|x| *x.borrow()).zip(exps.iter().copied()),
            )),
            None => Err(Error::index_error(index, self.dim().into())),
        }
'''))
r('b3-cheb-new-assert', (P, '''        if order > 11 {
            panic!("Chebyshev only supports orders up to 11.")
        }

        let polynomials = Chebyshev::make_polynomials(order, limits.len());

        Chebyshev {
            order,
            limits,
            polynomials,
        }
''', '''        assert!(order <= 11, "Chebyshev only supports orders up to 11.");

        Chebyshev {
            order,
            polynomials: Self::make_polynomials(order, limits.len()),
            limits,
        }
'''))
r('b3-cheb-table', (P, '''                    .map(|i| match *i {
                        0 => cpfk::t_0,
                        1 => cpfk::t_1,
                        2 => cpfk::t_2,
                        3 => cpfk::t_3,
                        4 => cpfk::t_4,
                        5 => cpfk::t_5,
                        6 => cpfk::t_6,
                        7 => cpfk::t_7,
                        8 => cpfk::t_8,
                        9 => cpfk::t_9,
                        10 => cpfk::t_10,
                        11 => cpfk::t_11,
                        _ => panic!("Chebyshev only supports orders up to 11."),
                    })
                    .collect()
''', '''                    .map(|&i| Self::kernel_for(i))
                    .collect()
'''), (P, '''    fn make_polynomials(''', '''    fn kernel_for(i: u8) -> fn(f64) -> f64 {
        match i {
            0 => cpfk::t_0,
            1 => cpfk::t_1,
            2 => cpfk::t_2,
            3 => cpfk::t_3,
            4 => cpfk::t_4,
            5 => cpfk::t_5,
            6 => cpfk::t_6,
            7 => cpfk::t_7,
            8 => cpfk::t_8,
            9 => cpfk::t_9,
            10 => cpfk::t_10,
            11 => cpfk::t_11,
            _ => panic!("Chebyshev only supports orders up to 11."),
        }
    }

    fn make_polynomials('''))
r('b3-cheb-loop', (P, '''        iter.into_iter().map(|(v, f)| f(v)).product()
''', '''        let mut acc = 1.0;

        for (v, f) in iter {
            acc *= f(v);
        }

        acc
'''))
r('b3-cheb-scale', (P, '''        let scaled_state: Vec<f64> = rescale!(input into self.limits)
            .map(|v| 2.0 * v - 1.0)
            .collect();
''', '''        let mut scaled_state: Vec<f64> = rescale!(input into self.limits).collect();

        for v in scaled_state.iter_mut() {
            *v = *v * 2.0 - 1.0;
        }
'''))
r('b3-cheb-ith-vec', (P, '''                let ss = rescale!(input into self.limits).map(|v| 2.0 * v - 1.0);

                Self::compute_feature(ss.zip(ps.iter()))
''', '''                rescale!(input into self.limits)
                    .map(|v| 2.0 * v - 1.0)
                    .zip(ps.iter())
                    .fold(1.0, |acc, (v, f)| acc * f(v))
'''))
r('b3-cheb-t3', (B + 'polynomial/cpfk.rs', '''{ 4.0 * x * x * x - 3.0 * x }''', '''{
    let x2 = x * x;

    x * (4.0 * x2 - 3.0)
}'''))
r('b3-cheb-t7', (B + 'polynomial/cpfk.rs', '''    64.0 * x.powi(7) - 112.0 * x.powi(5) + 56.0 * x.powi(3) - 7.0 * x
''', '''    let x2 = x * x;

    ((64.0 * x2 - 112.0) * x2 + 56.0) * x2 * x - 7.0 * x
'''))
r('b3-cheb-bounds', (P, '''                .map(|d| (d.inf().unwrap(), d.sup().unwrap()))
                .collect(),
''', '''                .map(get_bounds)
                .collect(),
'''))
r('b3-zeroth-let', (P, '''        self.exponents.push(vec![0; self.exponents.first().map_or(0, Vec::len)]);
        self
''', '''        let n_inputs = match self.exponents.first() {
            Some(exps) => exps.len(),
            None => 0,
        };
        let zeroth = vec![0u8; n_inputs];

        self.exponents.push(zeroth);
        self
'''))
FO = B + 'fourier.rs'
r('b3-fourier-dot', (FO, '''        (PI * iter.into_iter().fold(0.0, |acc, (v, c)| acc + c * v)).cos()
''', '''        let mut angle = 0.0;

        for (v, c) in iter {
            angle += v * c;
        }

        (angle * PI).cos()
'''))
r('b3-fourier-inline', (FO, '''        let ss: Vec<f64> = rescale!(input into self.limits).collect();

        Ok(self
            .coefficients
            .iter()
            .map(|cfs| Self::compute_feature(ss.iter().copied().zip(cfs.iter())))
            .collect())
''', '''        let scaled = self.scale(input);
        let phi: Vec<f64> = self
            .coefficients
            .iter()
            .map(|cfs| {
                let inner: f64 = scaled.iter().zip(cfs).map(|(s, c)| s * c).sum();

                (PI * inner).cos()
            })
            .collect();

        Ok(Features::from(phi))
'''), (FO, '''    #[inline]
    fn compute_feature''', '''    fn scale<I, T>(&self, input: T) -> Vec<f64>
    where
        I: std::borrow::Borrow<f64>,
        T: IntoIterator<Item = I>,
    {
        input
            .into_iter()
            .zip(self.limits.iter())
            .map(|(x, (lo, hi))| (x.borrow() - lo) / (hi - lo))
            .collect()
    }

    #[inline]
    fn compute_feature'''))
r('b3-fourier-ith-match', (FO, '''        self.coefficients
            .get(index)
            .map(|cfs| {
                let ss = rescale!(input into self.limits);

                Self::compute_feature(ss.zip(cfs.iter()))
            })
            .ok_or_else(|| Error::index_error(index, self.dim().into()))
''', '''        let cfs = match self.coefficients.get(index) {
            Some(cfs) => cfs,
            None => return Err(Error::index_error(index, self.coefficients.len())),
        };

        Ok(Self::compute_feature(rescale!(input into self.limits).zip(cfs)))
'''))
r('b3-fourier-new', (FO, '''        let coefficients = compute_coefficients(order, limits.len())
            .map(|cfs| cfs.into_iter().map(|c| c as f64).collect())
            .collect();

        Fourier {
            order,
            limits,
            coefficients,
        }
''', '''        let dim = limits.len();
        let to_f64 = |cfs: Vec<u8>| cfs.into_iter().map(f64::from).collect::<Vec<f64>>();

        Fourier {
            order,
            limits,
            coefficients: compute_coefficients(order, dim).map(to_f64).collect(),
        }
'''))
r('b3-mod-ith', (B + 'mod.rs', '''            self.project(input).map(|b| b[index])
''', '''            let b = self.project(input)?;

            Ok(b[index])
'''))
r('b3-rescale-let', (B + 'mod.rs', '''            let v = v.borrow();

            (v - l.0) / (l.1 - l.0)
''', '''            let &(lower, upper) = l;
            let width = upper - lower;

            (v.borrow() - lower) / width
'''))
r('b3-bounds-if', (B + 'mod.rs', '''    match (d.inf(), d.sup()) {
        (Some(lb), Some(ub)) => (lb, ub),
        (Some(_), None) => panic!("Dimension {} is missing an upper bound (sup).", d),
        (None, Some(_)) => panic!("Dimension {} is missing a lower bound (inf).", d),
        (None, None) => panic!("Dimension {} must be bounded.", d),
    }
''', '''    let inf = d.inf();
    let sup = d.sup();

    if let (Some(lb), Some(ub)) = (inf, sup) {
        return (lb, ub);
    }

    match (inf.is_some(), sup.is_some()) {
        (true, _) => panic!("Dimension {} is missing an upper bound (sup).", d),
        (_, true) => panic!("Dimension {} is missing a lower bound (inf).", d),
        _ => panic!("Dimension {} must be bounded.", d),
    }
'''))
r('b3-with_bias', (B + 'mod.rs', '''        self.stack(Bias::unit())
''', '''        Stack::new(self, Bias(1.0))
'''))

# ---- kernels
K = B + 'kernels/stationary.rs'
KS = '''                $self.kernel_stationary(x
                    .into_iter()
                    .zip(y.into_iter())
                    .map(|(x, y)| x - y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|(d, l)| d / l)
                    .fold(0.0f64, |acc, z| acc + z * z)
                    .sqrt())
'''
r('k3-sum-zip', (K, KS, '''                let sq_dist: f64 = x
                    .iter()
                    .zip(y)
                    .zip($self.lengthscales.iter().cycle())
                    .map(|((a, b), l)| {
                        let d = (a - b) / l;

                        d * d
                    })
                    .sum();

                $self.kernel_stationary(sq_dist.sqrt())
'''))
r('k3-range', (K, KS, '''                let n = x.len().min(y.len());
                let n_ls = $self.lengthscales.len();
                let mut total = 0.0;

                for i in 0..n {
                    let z = (x[i] - y[i]) / $self.lengthscales[i % n_ls];
                    total += z * z;
                }

                $self.kernel_stationary(f64::sqrt(total))
'''))
r('k3-while', (K, KS, '''                let mut ls = $self.lengthscales.iter().cycle();
                let mut total = 0.0;

                for (a, b) in x.iter().zip(y.iter()) {
                    let l = match ls.next() {
                        Some(l) => l,
                        None => break,
                    };
                    total += ((a - b) / l).powi(2);
                }

                $self.kernel_stationary(total.sqrt())
'''))
r('k3-m52', (K, '''        self.variance * (1.0 + sqrt_5 * r + 5.0 / 3.0 * r * r) * (-sqrt_5 * r).exp()
''', '''        let d = 5.0f64.sqrt() * r;
        let poly = 1.0 + d + d * d / 3.0;
        let _ = sqrt_5;

        self.variance * poly * (-d).exp()
'''))
r('k3-exp-neg', (K, '''    { self.variance * (-0.5 * r * r).exp() }
''', '''    {
        let exponent = -(r * r) / 2.0;

        exponent.exp() * self.variance
    }
'''))
r('k3-rq-ln', (B + 'kernels/rational_quadratic.rs', '''        self.variance * (-self.power * (r * r / 2.0).ln_1p()).exp()
''', '''        let base = (r * r / 2.0).ln_1p();

        self.variance * (-(self.power * base)).exp()
'''))
r('k3-rq-loop', (B + 'kernels/rational_quadratic.rs', '''        let x = x
            .iter()
            .zip(y.iter())
            .map(|(x, y)| x - y)
            .zip(self.lengthscales.iter().cycle())
            .map(|(d, l)| d / l)
            .fold(0.0, |acc, z| acc + z * z)
            .sqrt();

        self.kernel_stationary(x)
''', '''        let scaled = x
            .iter()
            .zip(y.iter())
            .zip(self.lengthscales.iter().cycle())
            .map(|((x, y), l)| (x - y) / l);
        let mut acc = 0.0;

        for z in scaled {
            acc += z * z;
        }

        self.kernel_stationary(acc.sqrt())
'''))
KB = B + 'kernelised.rs'
r('k3-basis-ith', (KB, '''        self.prototypes
            .get(index)
            .map(|p| p.distance_from(input.borrow()))
            .ok_or_else(|| Error::index_error(index, self.prototypes.len()))
''', '''        if index < self.prototypes.len() {
            let prototype = &self.prototypes[index];

            Ok(prototype.kernel.kernel(input.borrow(), &prototype.centroid))
        } else {
            Err(Error::index_error(index, self.prototypes.len()))
        }
'''))
r('k3-basis-proj', (KB, '''        Ok(self
            .prototypes
            .iter()
            .map(|p| p.distance_from(input.borrow()))
            .collect())
''', '''        let x = input.borrow();
        let mut phi = Vec::with_capacity(self.prototypes.len());

        for p in &self.prototypes {
            phi.push(p.distance_from(x));
        }

        Ok(Features::from(phi))
'''))
r('k3-homog-extend', (KB, '''        KernelBasis::new(
            centroids
                .into_iter()
                .map(|centroid| Prototype {
                    centroid,
                    kernel: kernel.clone(),
                })
                .collect(),
        )
''', '''        let mut prototypes = Vec::new();

        for centroid in centroids {
            let kernel = kernel.clone();
            prototypes.push(Prototype { centroid, kernel });
        }

        KernelBasis { prototypes }
'''))

# ---- approximators
r('l3-eval-match', (L, '''        self.basis
            .project(input)
            .map(|b| b.dot(&self.weights.view()))
''', '''        let features = match self.basis.project(input) {
            Ok(f) => f,
            Err(e) => return Err(e),
        };

        Ok(features.dot(&self.weights))
'''))
r('l3-update-match', (L, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), b, error)
        })
''', '''        let features = self.basis.project(input)?;
        let mut weights = self.weights.view_mut();

        self.optimiser.step_scaled(&mut weights, &features, error)
'''))
r('l3-with-let', (L, '''        self.basis
            .project(input)
            .map(|b| (b.dot(&self.weights.view()), b))
            .map(|(v, b)| (f(&b, v), b))
            .and_then(|(e, b)| {
                self.optimiser
                    .step_scaled(&mut self.weights.view_mut(), &b, e)
            })
''', '''        self.basis.project(input).and_then(|b| {
            let value = b.dot(&self.weights.view());
            let error = f(&b, value);

            self.optimiser
                .step_scaled(&mut self.weights.view_mut(), &b, error)
        })
'''))
VU = '''            let opt = &mut self.optimiser;

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
'''
r('l3-vup-loop', (L, VU, '''            let mut result = Ok(());

            for (error, mut column) in errors.into_iter().zip(self.weights.columns_mut()) {
                let outcome = self.optimiser.step_scaled(&mut column, b, error);
                result = result.and(outcome);
            }

            result
'''))
r('l3-vup-iserr', (L, VU, '''            let mut result = Ok(());

            for (error, mut column) in errors.into_iter().zip(self.weights.columns_mut()) {
                let outcome = self.optimiser.step_scaled(&mut column, b, error);
                if result.is_ok() {
                    result = outcome;
                }
            }

            result
'''))
r('l3-vup-range', (L, VU, '''            let opt = &mut self.optimiser;
            let n = self.weights.ncols();
            let mut result = Ok(());

            for (j, e) in errors.into_iter().take(n).enumerate() {
                let mut col = self.weights.column_mut(j);
                result = result.and(opt.step_scaled(&mut col, b, e));
            }

            result
'''))
VW = '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);

            errors
                .into_iter()
                .zip(self.weights.columns_mut().into_iter())
                .fold(Ok(()), |acc, (e, mut c)| {
                    acc.and(opt.step_scaled(&mut c, b, e))
                })
'''
r('l3-vwith-for', (L, VW, '''            let values = b.matmul(&self.weights);
            let errors = f(b, values);
            let mut out = Ok(());

            for (mut c, &e) in self.weights.columns_mut().into_iter().zip(errors.iter()) {
                out = out.and(opt.step_scaled(&mut c, b, e));
            }

            out
'''))
r('l3-veval-loop', (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let features = self.basis.project(input)?;
        let outputs: Vec<f64> = self.weights.columns().into_iter().map(|c| features.dot(&c)).collect();

        Ok(outputs.into())
'''))
r('l3-veval-q', (L, '''        self.try_iter(input).map(|it| it.collect())
''', '''        let outputs = self.try_iter(input)?;

        Ok(outputs.collect())
'''))
r('l3-vidx-let', (L, '''        self.basis
            .project(input)
            .map(|b| b.dot(&self.weights.column(index)))
''', '''        self.basis.project(input).map(|b| {
            let column = self.weights.column(index);

            b.dot(&column)
        })
'''))
r('l3-iter-expect', (L, '''        OutputIter {
            basis: self.basis.project(input).unwrap(),
            lanes: self.weights.columns().into_iter(),
        }
''', '''        match self.try_iter(input) {
            Ok(it) => it,
            Err(e) => panic!("projection failed: {:?}", e),
        }
'''))
r('l3-next-if', (L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))
''', '''        if let Some(column) = self.lanes.next() {
            return Some(self.basis.dot(&column));
        }

        None
'''))
r('l3-uidx-q', (L, '''        self.basis.project(input).and_then(|ref b| {
            self.optimiser
                .step_scaled(&mut self.weights.column_mut(index), b, error)
        })
''', '''        let b = self.basis.project(input)?;
        let LFA { weights, optimiser, .. } = self;
        let mut column = weights.column_mut(index);

        optimiser.step_scaled(&mut column, &b, error)
'''))
r('l3-scalar-new', (L, '''        let n: usize = basis.dim().into();
        let weights = ndarray::Array1::zeros(n);

        LFA {
            basis,
            weights,
            optimiser,
        }
''', '''        let n: usize = basis.dim().into();

        LFA::new(basis, ndarray::Array1::zeros(n), optimiser)
'''))
r('l3-vector-new', (L, '''        let n: usize = basis.dim().into();
        let weights = ndarray::Array2::zeros((n, n_outputs));

        LFA {
            basis,
            weights,
            optimiser,
        }
''', '''        let n_features: usize = basis.dim().into();

        LFA {
            weights: ndarray::Array2::from_elem((n_features, n_outputs), 0.0),
            basis,
            optimiser,
        }
'''))
r('l3-nout', (L, '''        self.weights.ncols()
''', '''        self.weights.dim().1
'''))
r('l3-nout-shape', (L, '''        self.weights.ncols()
''', '''        self.weights.shape()[1]
'''))
