"""behaviour-preserving edits of /repo, to test that the checks stay quiet (development tool)

usage: refactors.py [NAME-SUBSTRING ...]   verifies every contract on every edited tree
"""
F = 'src/features.rs'
R = []


def r(name, *edits):
    R.append((name, edits))


r('f-n_features-if', (F, '''        match self {
            Features::Dense(ref da) => da.len(),
            Features::Sparse(sa) => sa.dim,
        }
    }

    /// Return the number of _active_''', '''        if let Features::Sparse(sa) = self {
            return sa.dim;
        }
        match self {
            Features::Dense(ref da) => da.len(),
            Features::Sparse(_) => unreachable!(),
        }
    }

    /// Return the number of _active_'''))
r('f-n_active-loop', (F, '''da.iter().filter(|v| v.abs() > 1e-7).count()''', '''let mut n = 0;
            for v in da.iter() {
                if v.abs() > 1e-7 {
                    n += 1;
                }
            }
            n'''))
r('f-n_active-sum', (F, '''da.iter().filter(|v| v.abs() > 1e-7).count()''', '''da.iter().map(|v| (v.abs() > 1e-7) as usize).sum()'''))
r('f-n_active-fold', (F, '''da.iter().filter(|v| v.abs() > 1e-7).count()''', '''da.iter().fold(0, |n, v| if v.abs() > 1e-7 { n + 1 } else { n })'''))
r('f-to_dense-helper', (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                Features::expand_sparse(sa)
'''), (F, '''    /// Expand the features directly''', '''    fn expand_sparse(sa: &SparseActivations) -> DenseActivations {
        let mut out = Array1::zeros(sa.dim);
        sa.iter().for_each(|(idx, act)| out[*idx] = *act);
        out
    }

    /// Expand the features directly'''))
r('f-to_dense-fromshape', (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                Array1::from_shape_fn(sa.dim, |i| sa.activations.get(&i).copied().unwrap_or(0.0))
'''))
r('f-to_dense-collect', (F, '''                let mut phi = Array1::zeros(sa.dim);

                for (&idx, &act) in sa.iter() {
                    phi[idx] = act;
                }

                phi
''', '''                (0..sa.dim)
                    .map(|i| *sa.activations.get(&i).unwrap_or(&0.0))
                    .collect()
'''))
r('f-into_dense-viato', (F, '''            Features::Dense(da) => da,
            Features::Sparse(sa) => {
                let mut phi = Array1::zeros(sa.dim);

                for (idx, act) in sa.activations.into_iter() {
                    phi[idx] = act;
                }

                phi
            }''', '''            Features::Dense(da) => da,
            sparse => sparse.to_dense(),'''))
r('f-stack-for', (F, '''                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });
''', '''                let offset = sa1.dim;

                for (i, v) in sa2.activations {
                    sa1.activations.insert(offset + i, v);
                }
'''))
r('f-stack-extend', (F, '''                sa2.activations.iter().for_each(|(i, &v)| {
                    sa1.activations.insert(i + sa1.dim, v);
                });
''', '''                let n1 = sa1.dim;
                sa1.activations
                    .extend(sa2.activations.into_iter().map(|(i, v)| (i + n1, v)));
'''))
r('f-stack-chain', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())''', '''                let (d1, d2) = (f1.into_dense(), f2.into_dense());

                Dense(d1.iter().chain(d2.iter()).copied().collect())'''))
r('f-stack-push', (F, '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());
''', '''                let d2 = f2.into_dense();
                let mut all_activations = f1.into_dense().to_vec();
                all_activations.reserve(d2.len());
                for v in d2.iter() {
                    all_activations.push(*v);
                }
'''))
r('f-map-loop', (F, '''let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();''', '''let mut activations = std::collections::HashMap::with_capacity(sa.activations.len());
                    for (&i, &k) in sa.iter() {
                        activations.insert(i, f(k));
                    }'''))
r('f-map-dense-iter', (F, '''Dense(da) => Dense(da.mapv(&f)),''', '''Dense(da) => Dense(da.iter().map(|&x| f(x)).collect()),'''))
r('f-map-dense-map', (F, '''Dense(da) => Dense(da.mapv(&f)),''', '''Dense(da) => Dense(da.map(|x| f(*x))),'''))
r('f-map-clone-into', (F, '''        use Features::*;

        match self {
            Dense(da) => Dense(da.mapv(&f)),

            // Is the function sparsity preserving?
            Sparse(sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.iter().map(|(&i, &k)| (i, f(k))).collect();

                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations,
                    })
                } else {
                    let mut phi = Array1::from_elem(sa.dim, null_activation);

                    for (&idx, &act) in sa.iter() {
                        phi[idx] = f(act);
                    }

                    Dense(phi)
                }
            }
        }''', '''        self.clone().map_into(f)'''))
r('f-map_into-inplace', (F, '''Dense(activations) => Dense(activations.mapv_into(&f)),''', '''Dense(mut activations) => {
                activations.mapv_inplace(&f);
                Dense(activations)
            }'''))
r('f-map_into-loop', (F, '''Dense(activations) => Dense(activations.mapv_into(&f)),''', '''Dense(mut activations) => {
                for x in activations.iter_mut() {
                    *x = f(*x);
                }
                Dense(activations)
            }'''))
r('f-map_into-values', (F, '''            // Is the function sparsity preserving?
            Sparse(sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    let activations = sa.activations.into_iter().map(|(i, v)| (i, f(v))).collect();

                    Sparse(SparseActivations {
                        dim: sa.dim,
                        activations,
                    })''', '''            // Is the function sparsity preserving?
            Sparse(mut sa) => {
                let null_activation = f(0.0);

                if null_activation.abs() < 1e-5 {
                    for v in sa.activations.values_mut() {
                        *v = f(*v);
                    }

                    Sparse(sa)'''))
r('f-map_inplace-take', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));''', '''        let empty = Features::Dense(Array1::zeros(0));

        *self = mem::replace(self, empty).map_into(f);'''))
r('f-map_inplace-map', (F, '''        let tmp = Features::Dense(DenseActivations::from(vec![]));
        let old = mem::replace(self, tmp);

        mem::drop(mem::replace(self, old.map_into(f)));''', '''        let mapped = self.map(f);

        *self = mapped;'''))
r('f-merge-via-into', (F, '''        use Features::*;

        match self {
            Dense(da1) => {
                let mut a_out = da1.clone();

                match other {
                    Dense(da2) => {
                        a_out.zip_mut_with(da2, |x, y| *x = f(*x, *y));

                        Dense(a_out)
                    }
                    Sparse(sa2) => {
                        for (i, x) in a_out.indexed_iter_mut() {
                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }

                        Dense(a_out)
                    }
                }
            }''', '''        use Features::*;

        match self {
            Dense(_) => self.clone().merge_into(other, f),'''))
r('f-merge-helper', (F, '''                        for (i, x) in a_out.indexed_iter_mut() {
                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }
''', '''                        for (i, x) in a_out.iter_mut().enumerate() {
                            let y = match sa2.activations.get(&i) {
                                Some(y) => *y,
                                None => 0.0,
                            };
                            *x = f(*x, y);
                        }
'''))
r('f-merge-range', (F, '''                        for (i, x) in a_out.indexed_iter_mut() {
                            *x = f(*x, sa2.activations.get(&i).copied().unwrap_or(0.0));
                        }
''', '''                        for i in 0..a_out.len() {
                            let y = sa2.activations.get(&i).map_or(0.0, |v| *v);
                            a_out[i] = f(a_out[i], y);
                        }
'''))
r('f-merge-collect', (F, '''                    let n = sa1.dim.max(da2.len());
                    let mut phi = Array1::uninit(n);

                    for i in 0..n {
                        phi[i] = MaybeUninit::new(f(
                            sa1.activations.get(&i).cloned().unwrap_or(0.0),
                            da2.get(i).copied().unwrap_or(0.0),
                        ));
                    }

                    unsafe { Dense(phi.assume_init()) }''', '''                    let n = std::cmp::max(sa1.dim, da2.len());

                    (0..n)
                        .map(|i| {
                            let x = sa1.activations.get(&i).cloned().unwrap_or(0.0);
                            let y = da2.get(i).cloned().unwrap_or(0.0);

                            f(x, y)
                        })
                        .collect()'''))
r('f-merge-ss-match', (F, '''                    let mut idx_out = sa1.activations.clone();

                    for (i, a) in idx_out.iter_mut() {
                        *a = f(*a, sa2.activations.get(i).cloned().unwrap_or(0.0));
                    }

                    for (&i, y) in sa2.activations.iter() {
                        idx_out.entry(i).or_insert_with(|| f(0.0, *y));
                    }
''', '''                    let mut idx_out: std::collections::HashMap<usize, f64> = sa1
                        .iter()
                        .map(|(&i, &x)| (i, f(x, sa2.activations.get(&i).copied().unwrap_or(0.0))))
                        .collect();

                    for (&i, &y) in sa2.iter() {
                        if !sa1.activations.contains_key(&i) {
                            idx_out.insert(i, f(0.0, y));
                        }
                    }
'''))
r('f-dot_sparse-map-sum', (F, '''        sa.activations
            .iter()
            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)''', '''        sa.iter().map(|(&idx, &act)| act * weights[idx]).sum()'''))
r('f-dot_sparse-loop', (F, '''        sa.activations
            .iter()
            .fold(0.0, |acc, (idx, act)| acc + weights[*idx] * act)''', '''        let mut total = 0.0;
        for (&idx, act) in &sa.activations {
            total += weights[idx] * act;
        }
        total'''))
r('f-dot-ff-swap', (F, '''        match self {
            Sparse(sa1) => match rhs {
                Sparse(sa2) => sa1.activations.iter().fold(0.0, |acc, (k, a1)| {
                    acc + sa2.activations.get(k).map_or(0.0, |a2| a1 * a2)
                }),
                Dense(da2) => Features::dot_sparse(sa1, da2),
            },
            Dense(da1) => match rhs {
                Sparse(sa2) => Features::dot_sparse(sa2, da1),
                Dense(da2) => da1.dot(da2),
            },
        }''', '''        match (self, rhs) {
            (Dense(da1), Dense(da2)) => da1.dot(da2),
            (Dense(da), Sparse(sa)) | (Sparse(sa), Dense(da)) => Features::dot_sparse(sa, da),
            (Sparse(sa1), Sparse(sa2)) => sa1
                .iter()
                .filter_map(|(k, a1)| sa2.activations.get(k).map(|a2| a1 * a2))
                .sum(),
        }'''))
r('f-matmul-loop', (F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()''', '''        let mut out = Array1::zeros(weights.ncols());
        for (o, col) in out.iter_mut().zip(weights.columns()) {
            *o = self.dot(&col);
        }
        out'''))
r('f-matmul-index', (F, '''        weights
            .columns()
            .into_iter()
            .map(|col| self.dot(&col))
            .collect()''', '''        (0..weights.ncols())
            .map(|j| self.dot(&weights.column(j)))
            .collect()'''))
r('f-sum-fold', (F, '''            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),''', '''            Features::Dense(da) => da.iter().sum(),
            Features::Sparse(sa) => sa.iter().fold(0.0, |acc, (_, v)| acc + v),'''))
r('f-sum-self-fold', (F, '''        match self {
            Features::Dense(da) => da.sum(),
            Features::Sparse(sa) => sa.activations.values().sum(),
        }''', '''        self.fold(0.0, |acc, v| acc + v)'''))
r('f-addto-scaled', (F, '''        apply_to_features!(self => ref da, {
            weights.add_assign(da)
        }; ref sa, {
            for (&idx, act) in sa.iter() { weights[idx] += act; }
        });''', '''        self.scaled_addto(1.0, weights);'''))
r('f-addto-foreach', (F, '''for (&idx, act) in sa.iter() { weights[idx] += act; }''', '''sa.iter().for_each(|(idx, act)| weights[*idx] += *act);'''))
r('f-scaled-split', (F, '''for (&idx, act) in sa.iter() { weights[idx] += alpha * act; }''', '''for (idx, act) in sa.iter() {
                let delta = act * alpha;
                let w = &mut weights[*idx];
                *w = *w + delta;
            }'''))
r('f-index-match', (F, '''sa.activations.get(&idx).unwrap_or(&0.0)''', '''match sa.activations.get(&idx) { Some(a) => a, None => &0.0 }'''))
r('f-eq-reorder', (F, '''sa1.dim == sa2.dim && sa1.activations.eq(&sa2.activations)''', '''sa1.activations == sa2.activations && sa2.dim == sa1.dim'''))
r('f-unitary-direct', (F, '''        Features::sparse(dim, indices.into_iter().map(|i| (i, 1.0)))''', '''        let activations = indices.into_iter().map(|i| (i, 1.0)).collect();

        Features::Sparse(SparseActivations { dim, activations })'''))
r('f-sparse-extend', (F, '''        Features::Sparse(SparseActivations {
            dim,
            activations: activations.into_iter().collect(),
        })''', '''        let mut map = std::collections::HashMap::new();

        map.extend(activations);

        Features::Sparse(SparseActivations { dim, activations: map })'''))
r('f-remove-match', (F, '''            if let Some(a) = da.get_mut(idx) {
                *a = 0.0;
            }''', '''            if idx < da.len() {
                da[idx] = 0.0;
            }'''))
r('f-get-copy', (F, '''            Some(da.uget(idx))
''', '''            let v = da.uget(idx);
            Some(v)
'''))
r('f-fold-loop', (F, '''            da.iter().fold(init, f)
        }; ref sa, {
            sa.activations.values().fold(init, f)
''', '''            let mut acc = init;
            for v in da.iter() {
                acc = f(acc, v);
            }
            acc
        }; ref sa, {
            let mut acc = init;
            for (_, v) in sa.iter() {
                acc = f(acc, v);
            }
            acc
'''))
exec(open(__file__.replace('refactors.py', 'refactors2.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors3.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors4.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors5.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors6.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors7.py')).read())
exec(open(__file__.replace('refactors.py', 'refactors8.py')).read())

if __name__ == '__main__':
    import os
    import shutil
    import subprocess
    import sys
    import tempfile
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    pats = sys.argv[1:]
    sel = [x for x in R if not pats or any(x[0].startswith(p) for p in pats)]
    MODS = {'o': 'c_optim,c_relate,c_copy,c_overrides', 'l': 'c_lfa,c_copy', 'f': 'c_features'}
    MODS.update({k: 'c_basis,c_poly,c_kernels,c_space,c_relate,c_overrides,c_copy' for k in 'nstgbk'})
    work = tempfile.mkdtemp(prefix='refac')
    subprocess.check_call('cp -a /repo %s/repo' % work, shell=True)
    try:
        for name, edits in sel:
            subprocess.check_call('git checkout -q -- .', cwd=work + '/repo', shell=True)
            bad = None
            for f, old, new, *every in edits:
                p = '%s/repo/%s' % (work, f)
                s = open(p).read()
                if s.count(old) < 1:
                    bad = 'does not apply: ' + f
                    break
                open(p, 'w').write(s.replace(old, new, *(() if every else (1,))))
            if bad:
                print('%-28s %s' % (name, bad), flush=True)
                continue
            t = subprocess.run('cargo check --offline --lib -q', cwd=work + '/repo', shell=True, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR=work + '/t'))
            if t.returncode:
                print('%-28s DOES NOT BUILD %s' % (name, (t.stdout + '\n'.join(l for l in t.stderr.splitlines() if 'error' in l or '-->' in l))[-600:]), flush=True)
                continue
            subprocess.run('bash /tmp/mkmir.sh %s/repo %s/m.mir' % (work, work), shell=True, capture_output=True, env=dict(os.environ, TGT=work + '/t2'))
            p = subprocess.run(['python3-vt', '/tmp/all.py'], env=dict(os.environ, MIR=work + '/m.mir', SRC=work + '/repo', ONLY=MODS.get(name[0], '')), capture_output=True, text=True)
            out = [l for l in p.stdout.splitlines() if not l.startswith('proved') and 'contracts' not in l]
            print('%-28s %s%s' % (name, 'quiet' if not out else '', ''.join('\n      ' + l[:170] for l in out[:8])), p.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(work)
