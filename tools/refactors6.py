# sixth round: renamed and regrouped private items (exec'd by refactors.py)
AG, AD, AM, MO, NE, SG, IS = ['src/optim/%s.rs' % x for x in ('adagrad', 'adam', 'adamax', 'momentum', 'nesterov', 'sgd', 'isgd')]
T, G, KB, B, S, C, N, L, P = 'src/basis/tile_coding.rs', 'src/basis/uniform_grid.rs', 'src/basis/kernelised.rs', 'src/basis/mod.rs', 'src/basis/stack.rs', 'src/basis/constant.rs', 'src/basis/normalisation.rs', 'src/lib.rs', 'src/basis/polynomial/mod.rs'
ALL_ = 1
r('o6-adam-fields', (AD, 'exp_avg_sq', 'second_moment', 1), (AD, 'exp_avg', 'first_moment', 1))
r('o6-adam-lr', (AD, 'learning_rate', 'alpha', 1))
r('o6-adam-order', (AD, '''    beta1: f64,
    beta1_prod: f64,

    beta2: f64,
    beta2_prod: f64,

    learning_rate: f64,

    exp_avg''', '''    learning_rate: f64,
    beta1: f64,
    beta2: f64,
    beta1_prod: f64,
    beta2_prod: f64,
    exp_avg'''))
r('o6-adam-pair', (AD, '''    beta1: f64,
    beta1_prod: f64,

    beta2: f64,
    beta2_prod: f64,
''', '''    betas: (f64, f64),
    beta1_prod: f64,
    beta2_prod: f64,
'''), (AD, '''            beta1,
            beta1_prod: 1.0,

            beta2,
''', '''            betas: (beta1, beta2),
            beta1_prod: 1.0,

'''), (AD, 'self.beta1_prod *= self.beta1;', 'self.beta1_prod *= self.betas.0;'), (AD, 'self.beta2_prod *= self.beta2;', 'self.beta2_prod *= self.betas.1;'),
  (AD, 'self.beta1 ', 'self.betas.0 ', 1), (AD, 'self.beta2 ', 'self.betas.1 ', 1), (AD, 'self.beta1)', 'self.betas.0)', 1), (AD, 'self.beta2)', 'self.betas.1)', 1))
r('o6-adamax-nested', (AM, '''    exp_avg: Array1<f64>,
    exp_inf: Array1<f64>,
}
''', '''    state: State,
}

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(
    feature = "serde",
    derive(Serialize, Deserialize),
    serde(crate = "serde_crate")
)]
struct State {
    exp_avg: Array1<f64>,
    exp_inf: Array1<f64>,
}
'''), (AM, '''            exp_avg: Array1::zeros(n_params),
            exp_inf: Array1::zeros(n_params),
''', '''            state: State {
                exp_avg: Array1::zeros(n_params),
                exp_inf: Array1::zeros(n_params),
            },
'''), (AM, 'self.exp_', 'self.state.exp_', 1))
r('o6-momentum-fields', (MO, 'velocity', 'v', 1))
r('o6-nag-fields', (NE, 'velocity', 'vel', 1), (NE, 'momentum', 'mu', 1))
r('o6-adagrad-fields', (AG, 'accumulator', 'sum_of_squares', 1))
r('o6-adagrad-option', (AG, 'const EPS', 'const EPSILON', 1), (AG, '+ EPS)', '+ EPSILON)', 1))
r('o6-sgd-named', (SG, 'features: &Features', 'phi: &Features', 1), (SG, 'features.scaled', 'phi.scaled', 1))
r('o6-isgd-free', (IS, '''impl ISGD {
    fn compute_lr(&self, features: &Features) -> f64 {
        let norm = features.fold(0.0, |acc, x| acc + x * x);

        self.0 / (1.0 + self.0 * norm)
    }
}
''', '''fn implicit_rate(lr: f64, features: &Features) -> f64 {
    let norm = features.fold(0.0, |acc, x| acc + x * x);

    lr / (1.0 + lr * norm)
}
'''), (IS, 'self.compute_lr(features)', 'implicit_rate(self.0, features)', 1))
r('t6-fields', (T, 'n_tilings', 'tilings', 1), (T, 'memory_size', 'capacity', 1), (T, 'hasher_builder', 'builder', 1))
r('t6-fns', (T, 'hash_state', 'tile_indices', 1))
r('t6-bin-inline', (T, '''        let state = bin_state(input, self.n_tilings);
        let hash''', '''        let n = self.n_tilings as f64;
        let state: Vec<isize> = input.into_iter().map(|x| (x * n).floor() as isize).collect();
        let hash'''))
r('g6-fields', (G, 'feature_space', 'space', 1), (G, 'fn hash<', 'fn cell<'), (G, 'self.hash(', 'self.cell(', 1))
r('g6-no-cache', (G, '''    n_features: usize,
    feature_space: ProductSpace<Equipartition>,
}''', '''    feature_space: ProductSpace<Equipartition>,
}'''), (G, '''        let n_features = feature_space.card().into();

        UniformGrid {
            n_features,
            feature_space,
        }''', '''        UniformGrid { feature_space }'''), (G, '''    fn hash<''', '''    fn n_cells(&self) -> usize { self.feature_space.card().into() }

    fn hash<'''), (G, 'self.n_features', 'self.n_cells()', 1))
r('s6-fields', (S, 'b1', 'first', 1), (S, 'b2', 'second', 1))
r('s6-tuple', (S, '''    b1: B1,
    b2: B2,
''', '''    parts: (B1, B2),
'''), (S, '{ Stack { b1, b2 } }', '{ Stack { parts: (b1, b2) } }'), (S, 'self.b1', 'self.parts.0', 1), (S, 'self\n            .b2', 'self\n            .parts.1', 1) if False else (S, 'self.b2', 'self.parts.1', 1))
r('k6-proto-order', (KB, '''    pub centroid: C,
''', ''), (KB, '''    pub kernel: K,
}''', '''    pub kernel: K,
    pub centroid: C,
}'''))
r('b6-coeffs-name', (B, 'compute_coefficients', 'exponent_tuples', 1), (P, 'compute_coefficients', 'exponent_tuples', 1), ('src/basis/fourier.rs', 'compute_coefficients', 'exponent_tuples', 1))
r('b6-bounds-name', (B, 'get_bounds', 'bounds_of', 1), (P, 'get_bounds', 'bounds_of', 1), ('src/basis/fourier.rs', 'get_bounds', 'bounds_of', 1))
r('b6-fourier-fields', ('src/basis/fourier.rs', 'coefficients', 'coefs', 1), ('src/basis/fourier.rs', 'compute_coefs', 'compute_coefficients', 1))
r('n6-generic-names', (N, 'impl<T, B> Basis<T>', 'impl<I, B> Basis<I>', 1), (N, 'where B: Basis<T, Value = Features>', 'where B: Basis<I, Value = Features>', 1), (N, 'fn project(&self, input: T)', 'fn project(&self, input: I)', 1))
r('n6-named-field', (N, 'pub struct L0Normaliser<B>(B);', 'pub struct L0Normaliser<B> {\n    inner: B,\n}'), (N, '{ L0Normaliser(basis) }', '{ L0Normaliser { inner: basis } }'),
  (N, '''impl<B: Space> Space for L0Normaliser<B> {
    type Value = Features;

    fn dim(&self) -> Dim { self.0.dim() }

    fn card(&self) -> Card { self.0.card() }
}''', '''impl<B: Space> Space for L0Normaliser<B> {
    type Value = Features;

    fn dim(&self) -> Dim { self.inner.dim() }

    fn card(&self) -> Card { self.inner.card() }
}'''), (N, '''        self.0.project(input).map(|f| {
            let z = f.n_active() as f64;
''', '''        self.inner.project(input).map(|f| {
            let z = f.n_active() as f64;
'''), (N, '''            self.0
                .project(input)
                .map(|f| {
                    let z = f.n_active() as f64;
''', '''            self.inner
                .project(input)
                .map(|f| {
                    let z = f.n_active() as f64;
'''))
r('l6-output-fields', (L, 'lanes: ', 'columns: ', 1), (L, 'self.lanes', 'self.columns', 1))
r('l6-output-drop', (L, '''    basis: Features,
    lanes: ndarray''', '''    features: Features,
    lanes: ndarray'''), (L, 'self.basis.dot(c)', 'self.features.dot(c)'), (L, '''            basis: self.basis.project(input).unwrap(),
            lanes''', '''            features: self.basis.project(input).unwrap(),
            lanes'''), (L, '''map(move |basis| OutputIter {
            basis,''', '''map(move |features| OutputIter {
            features,'''))
r('l6-output-index', (L, '''    basis: Features,
    lanes: ndarray::iter::LanesIter<'a, f64, ndarray::Ix1>,
}''', '''    basis: Features,
    weights: &'a ndarray::Array2<f64>,
    next: usize,
}'''), (L, '''        self.lanes.next().map(|ref c| self.basis.dot(c))
''', '''        if self.next >= self.weights.ncols() {
            return None;
        }

        let value = self.basis.dot(&self.weights.column(self.next));

        self.next += 1;

        Some(value)
'''), (L, '''        self.lanes.size_hint()
''', '''        let n = self.weights.ncols() - self.next;

        (n, Some(n))
'''), (L, '''        self.lanes.len()
''', '''        self.weights.ncols() - self.next
'''), (L, '''            lanes: self.weights.columns().into_iter(),
''', '''            weights: &self.weights,
            next: 0,
''', 1))
r('f6-activations-alias', (F, 'activations: ::std::collections::HashMap<IndexT, ActivationT>', 'activations: Entries'), (F, '''/// Internal type used to represent a sparse feature vector.''', '''type Entries = ::std::collections::HashMap<IndexT, ActivationT>;

/// Internal type used to represent a sparse feature vector.'''))
r('f6-var-names', (F, 'sa1', 'left', 1), (F, 'sa2', 'right', 1), (F, 'da1', 'ldense', 1), (F, 'da2', 'rdense', 1))
