# seventh round: writable parts of sequences (exec'd by refactors.py)
STK = '''                let mut all_activations = f1.into_dense().to_vec();
                all_activations.extend(f2.into_dense().iter().copied());

                Dense(all_activations.into())
'''
r('f7-stack-split', (F, STK, '''                let (d1, d2) = (f1.into_dense().to_vec(), f2.into_dense().to_vec());
                let mut all = vec![0.0; d1.len() + d2.len()];
                let (left, right) = all.split_at_mut(d1.len());

                left.copy_from_slice(&d1);
                right.copy_from_slice(&d2);

                Dense(all.into())
'''))
r('f7-stack-ranges', (F, STK, '''                let (d1, d2) = (f1.into_dense().to_vec(), f2.into_dense().to_vec());
                let n = d1.len();
                let mut all = vec![0.0; n + d2.len()];

                all[..n].copy_from_slice(&d1);
                all[n..].copy_from_slice(&d2);

                Dense(all.into())
'''))
r('f7-stack-range-loop', (F, STK, '''                let (d1, d2) = (f1.into_dense(), f2.into_dense());
                let n = d1.len();
                let mut all = d1.to_vec();

                all.resize(n + d2.len(), 0.0);
                for (dst, src) in all[n..].iter_mut().zip(d2.iter()) { *dst = *src; }

                Dense(all.into())
'''))
r('f7-stack-swap-buf', (F, STK, '''                let mut all_activations = f1.into_dense().to_vec();
                let mut tail = f2.into_dense().to_vec();
                all_activations.append(&mut tail);

                Dense(all_activations.into())
'''))
r('f7-stack-extend-slice', (F, STK, '''                let mut all_activations = f1.into_dense().to_vec();
                let tail = f2.into_dense().to_vec();
                all_activations.extend_from_slice(&tail[..]);

                Dense(all_activations.into())
'''))
r('l7-slice-index', (L, 'b.dot(&self.weights.column(index))', 'b.dot(&self.weights.slice(ndarray::s![.., index]))'))
r('l7-slice-mut', (L, '&mut self.weights.column_mut(index), b, error', '&mut self.weights.slice_mut(ndarray::s![.., index]), b, error'))
r('o7-slice', ('src/optim/adagrad.rs', 'self.accumulator.fill(0.0)', 'self.accumulator.slice_mut(ndarray::s![..]).fill(0.0)'))
r('o7-slice2', ('src/optim/adagrad.rs', 'self.accumulator.fill(0.0)', 'self.accumulator.view_mut().into_slice().unwrap().fill(0.0)'))
r('o7-slice3', ('src/optim/adagrad.rs', 'self.accumulator.fill(0.0)', 'self.accumulator.as_slice_mut().unwrap()[..].fill(0.0)'))
