#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, text, why, files, mech, over=("inputs",), state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
FE="src/features.rs"; LIB="src/lib.rs"
DENSE=("dense features","vector of activations; element k is the k-th logical entry whatever the array's memory layout","src/features.rs Features::Dense")
SPARSE=("sparse features","a dimension and a map from index (< dimension) to activation; absent means 0","src/features.rs Features::Sparse / SparseActivations")
p("C01","Every way of reading features shows the same activations",
 "For any feature vector, indexing, checked lookup, unchecked lookup, expansion into a dense array (by reference or by value) and conversion into a plain array or list all show the same activation for every index below the number of features; an index that a sparse vector does not store reads as 0 (or as absent in the lookups that return an option). The expansions have exactly as many elements as the vector has features.",
 "all dense vectors (any memory layout), all sparse vectors with indices below their dimension, all indices",
 "The tests read a handful of vectors whose stored activations are all 1 or short literals; agreement is quantified over every stored activation and index, both representations.",
 [FE],[("Index, get, uget","features.rs"),("to_dense / into_dense","features.rs"),("From<Features> for Vec / Array1, n_features","features.rs")],state=[DENSE,SPARSE])
p("C02","Removing a feature clears exactly that one",
 "After removing an index from a feature vector, that index reads as zero (a sparse vector no longer stores it), every other index keeps its activation, and the number of features does not change. Removing an index that is out of range or not stored changes nothing.",
 "all feature vectors, all indices (in range or not)","Tests remove three fixed indices from two vectors.",[FE],[("Features::remove","features.rs")],state=[DENSE,SPARSE])
p("C03","Stacking features concatenates them",
 "Stacking a on top of b yields a vector with dim(a)+dim(b) features whose first dim(a) activations are those of a and whose remaining ones are those of b, for every combination of dense and sparse operands and any memory layout. The result is sparse exactly when both operands are sparse, and then it stores exactly the entries the operands store.",
 "all pairs of feature vectors","Tests stack a few literals in the all-dense and mixed cases.",[FE],[("Features::stack","features.rs")],state=[DENSE,SPARSE])
p("C04","Mapping a function over features is pointwise",
 "Mapping f over a feature vector gives, by reference, by value or in place, the same vector: same number of features, f applied to each activation, including the zeros that a sparse vector does not store. The result of a sparse vector stays sparse (with the same stored indices) exactly when |f(0)| is below the documented 1e-5 tolerance; a dense vector stays dense.",
 "all feature vectors, all pure functions f","Tests map three closures over one vector in the in-place form only.",[FE],[("Features::map, map_into, map_inplace","features.rs"),("map_dense, map_sparse, map_either","features.rs")],state=[DENSE,SPARSE])
p("C05","Merging two feature vectors is pointwise",
 "Merging two feature vectors of the same dimension with f gives, by reference, by value or in place, a vector of that dimension whose k-th activation is f(a_k, b_k) for every k, with entries a sparse operand does not store taken as 0, provided f(0,0)=0 when both operands are sparse. The arguments of f keep their order, and the result is sparse exactly when both operands are.",
 "all pairs of feature vectors of equal dimension, all pure f (f(0,0)=0 for sparse pairs)","Tests merge one sparse with one dense vector under addition.",[FE],[("Features::merge, merge_into, merge_inplace","features.rs")],state=[DENSE,SPARSE])
p("C06","Dot products do not depend on the representation",
 "The dot product of a feature vector with weights, or with another feature vector, is the sum over all indices of the products of the activations with their counterparts, whichever of the operands are dense or sparse. The matrix product has one entry per column of the matrix, in order, each being the dot product with that column.",
 "all feature vectors, all weight vectors/matrices of matching dimension, any stride of the weights","Doc tests evaluate two vectors; no test takes the dot product of two feature vectors.",[FE],[("Features::dot, dot_dense, dot_sparse","features.rs"),("Dot<W> and Dot<Features> for Features","features.rs"),("Features::matmul","features.rs")],state=[DENSE,SPARSE])
p("C07","Feature aggregates cover every activation once",
 "The sum of a feature vector is the sum of all of its activations; a fold visits every element of a dense vector in order, and every stored entry of a sparse one exactly once, starting from the given initial value. The number of active features is the number of dense activations larger than 1e-7 in magnitude, or the number of stored sparse entries.",
 "all feature vectors, all fold functions and initial values","Tests sum and count three vectors.",[FE],[("Features::sum, fold, n_active, is_dense, is_sparse","features.rs")],state=[DENSE,SPARSE])
p("C08","Adding features to weights touches each weight once",
 "Adding features to a weight vector (optionally scaled by alpha) increases weight k by (alpha times) the k-th activation for every k and leaves weights of inactive features unchanged; the result is the same for a dense vector and a sparse one holding the same activations. The features themselves are not modified.",
 "all feature vectors and weight vectors of the same dimension (views with any stride), all alpha","No test calls these operations directly.",[FE],[("Features::addto, scaled_addto","features.rs")],state=[DENSE,SPARSE])
p("C09","Constructors, conversions and equality are faithful",
 "Dense features built from a sequence hold its elements in order; sparse features built from a dimension and index-activation pairs (or from indices with activation 1) keep the dimension and hold exactly those pairs; a list of indices converts to sparse unit activations whose dimension is one more than the largest index (0 when empty), and an existing sparse collection converts without change. Two vectors of the same representation compare equal exactly when their dimensions and stored activations are equal.",
 "all sequences, index lists and pairs with distinct indices","Tests build a few literals and compare them.",[FE],[("Features::dense/sparse/unitary","features.rs"),("From / FromIterator impls","features.rs"),("PartialEq for Features","features.rs")],state=[DENSE,SPARSE])
p("C10","Projections have exactly the advertised dimension",
 "For every basis and every accepted input, the projected feature vector has exactly as many features as the basis advertises as its dimension (and as its number of features), and every stored index of a sparse projection is below that dimension.",
 "all bases (polynomial, Chebyshev, Fourier, kernel, tile coding, uniform grid, constant, fixed, closure, stacks and normalisations of them), all configurations and inputs","Tests check the dimension for a few Fourier, kernel and grid instances.",
 ["src/basis/mod.rs","src/basis/polynomial/mod.rs","src/basis/fourier.rs","src/basis/kernelised.rs","src/basis/tile_coding.rs","src/basis/uniform_grid.rs","src/basis/constant.rs","src/basis/closure.rs","src/basis/stack.rs","src/basis/normalisation.rs"],[("Space::dim and Basis::project of every basis","src/basis")],over=("inputs","configurations"))
p("C11","Single-feature evaluation agrees with full projection",
 "For every basis that can evaluate a single feature, evaluating feature i of an input gives the same value as the i-th activation of the full projection of that input, for every i below the dimension, inactive features included. For every other index it reports an index error and does not panic.",
 "all enumerable bases, all inputs, all indices","The tests never evaluate a single feature except through whole projections.",
 ["src/basis/mod.rs","src/basis/polynomial/mod.rs","src/basis/fourier.rs","src/basis/kernelised.rs","src/basis/tile_coding.rs","src/basis/uniform_grid.rs","src/basis/constant.rs","src/basis/stack.rs","src/basis/normalisation.rs"],[("EnumerableBasis::ith of every basis","src/basis"),("check_index!","src/error.rs")])
p("C12","Polynomial features are the monomials of their exponents",
 "The polynomial basis of a given input dimension and order has one feature for every non-zero exponent tuple with entries between 0 and the order, each exactly once and in lexicographic order, and feature k is the product of the inputs raised to the k-th tuple's exponents. Adding the zeroth term appends a single feature that is 1 for every input and leaves the others unchanged, whatever the basis contained.",
 "all dimensions, orders and inputs","Doc tests project five inputs through the 1-d basis of order 1 and 2.",["src/basis/polynomial/mod.rs","src/basis/mod.rs"],[("Polynomial::new, with_zeroth, project","src/basis/polynomial/mod.rs"),("compute_coefficients","src/basis/mod.rs")],over=("inputs","configurations"))
p("C13","Chebyshev features are products of Chebyshev polynomials",
 "Chebyshev features rescale each input from its limits to [-1,1] and multiply, per feature, the first-kind Chebyshev polynomials whose degrees are given by that feature's tuple, for all degrees up to 11 (the recurrence T0=1, T1=x, Tn+1=2xTn-Tn-1). Orders above 11 are rejected, there is one feature for every non-zero degree tuple, and adding the zeroth term appends a single constant 1.",
 "all orders up to 11, limits with distinct bounds, inputs","No test of the Chebyshev basis is in the reliable suite.",["src/basis/polynomial/mod.rs","src/basis/polynomial/cpfk.rs","src/basis/mod.rs"],[("Chebyshev::new, make_polynomials, project","src/basis/polynomial/mod.rs"),("t_0 .. t_11","src/basis/polynomial/cpfk.rs")],over=("inputs","configurations"))
p("C14","Fourier features are cosines of the rescaled input",
 "Fourier features rescale each input from its limits to [0,1] and equal, for feature k, the cosine of pi times the dot product of the rescaled input with the k-th coefficient tuple. There is one feature for every non-zero coefficient tuple with entries between 0 and the order, each exactly once and in lexicographic order; a basis built from a space uses that space's bounds.",
 "all orders, limits with distinct bounds, inputs","Tests compare one- and two-dimensional bases of order at most 2 with literals at a few inputs.",["src/basis/fourier.rs","src/basis/mod.rs"],[("Fourier::new, from_space, project, compute_feature","src/basis/fourier.rs"),("rescale!, compute_coefficients, get_bounds","src/basis/mod.rs")],over=("inputs","configurations"))
p("C15","Kernels are the documented stationary functions",
 "Every kernel depends on its arguments only through their distance r scaled per dimension by the lengthscales (a single lengthscale applying to all dimensions): it is symmetric, equals the variance at r=0, and follows its closed form times the variance: exponential exp(-r), Matern 3/2 and 5/2, exponentiated quadratic exp(-r^2/2), cosine cos(r), rational quadratic (1+r^2/2)^(-power). The scalar, slice and list forms of a kernel agree, and the single-lengthscale and default constructors produce the corresponding parameters.",
 "all parameters (positive lengthscales), all pairs of points of any dimension","No test evaluates any kernel other than the exponentiated quadratic.",["src/basis/kernels/stationary.rs","src/basis/kernels/rational_quadratic.rs"],[("stationary_kernel! instances","src/basis/kernels/stationary.rs"),("RationalQuadratic","src/basis/kernels/rational_quadratic.rs")])
p("C16","Kernel bases evaluate the kernel at every prototype",
 "A kernel basis has one feature per prototype, in order, whose value is that prototype's own kernel evaluated between the input and that prototype's centroid. A basis built from centroids and one kernel has one prototype per centroid, in order, each with that kernel; a basis built from a partitioned space has one prototype per cell centre, lengthscales equal to the partition widths and unit variance.",
 "all prototype lists, kernels, inputs, partitionings","Tests project three 1-d and 2-d inputs on two grids with one kernel.",["src/basis/kernelised.rs"],[("KernelBasis::project, homogeneous, exp_quad, matern_32, matern_52, Prototype::distance_from","src/basis/kernelised.rs")],over=("inputs","configurations"))
p("C17","Tile coding hashes one tile per tiling",
 "A tile-coded projection stores activation 1 at exactly the indices that the tilings hash to and nothing else: for every tiling t in turn, one hasher is fed t followed by the tile coordinates floor((floor(n*x_i) + t*(1+2i))/n), reduced modulo the memory size, where n is the number of tilings; the tiles have the same width everywhere, on both sides of the origin. The projection is a function of the input only, so equal inputs give equal features.",
 "all hashers, numbers of tilings and memory sizes >= 1, all finite inputs of moderate magnitude","Only the binning helper is tested, on non-negative multiples.",["src/basis/tile_coding.rs"],[("bin_state, hash_state, TileCoding::project","src/basis/tile_coding.rs")],over=("inputs","configurations"))
p("C18","A uniform grid activates exactly the cell of its input",
 "A uniform grid projection has exactly one stored feature, with activation 1: the row-major index (first dimension most significant) of the grid cell that the input falls into. Its dimension is the product of the partition counts.",
 "all non-empty grids, all inputs with one value per dimension","Tests cover grids of 10 equal partitions per dimension at integer points, so partition counts never differ between dimensions.",["src/basis/uniform_grid.rs"],[("UniformGrid::new, hash, project","src/basis/uniform_grid.rs")],over=("inputs","configurations"))
p("C19","Composed and constant bases project their parts",
 "A stack of two bases projects an input to the concatenation of the two projections, in order, and its dimension is the sum of theirs; if either part fails, so does the stack. Adding a bias stacks a constant 1 after the basis; the bias projects to its constant, a fixed dense basis to its constants in order, a fixed sparse basis to activation 1 at exactly its indices, and a closure basis to whatever its closure returns.",
 "all component bases (including failing ones), all inputs","Tests stack constants only.",["src/basis/stack.rs","src/basis/constant.rs","src/basis/closure.rs","src/basis/mod.rs"],[("Stack::project/ith","src/basis/stack.rs"),("Combinators","src/basis/mod.rs"),("Bias, Fixed, Closure","src/basis/constant.rs, closure.rs")],over=("inputs","configurations"))
p("C20","Normalised bases divide by the right norm",
 "Normalising a basis divides every activation of its projection by the L0 count of active features, the sum of absolute values, the Euclidean norm or the largest absolute value, respectively, so that (for the last three) that norm of the result is 1 whenever it is non-zero for the original; representation, dimension and stored indices are those of the original projection. A failure of the underlying basis is passed on.",
 "all underlying bases with a non-zero norm projection (dense or sparse, entries of any sign), all inputs","The tests of the normalisers do not cover sparse projections or negative activations beyond a few literals.",["src/basis/normalisation.rs"],[("L0/L1/L2/LinfNormaliser::project","src/basis/normalisation.rs")])
p("C21","SGD and implicit SGD apply their update rule",
 "One SGD step with learning rate a and error e adds a*e*phi to the weights; one implicit SGD step adds a/(1+a*|phi|^2)*e*phi. Both hold for dense and sparse features alike, for weight views of any stride, and an unscaled step is the step with e=1.",
 "all learning rates, weights, features and errors","No test exercises an optimiser.",["src/optim/sgd.rs","src/optim/isgd.rs","src/optim/mod.rs"],[("SGD/ISGD step, step_scaled","src/optim")])
p("C22","Momentum and Nesterov SGD apply their update rule",
 "With momentum m and learning rate a, each step with error e first updates the velocity to v = m*v + e*phi for every component (velocity of inactive features decays too); momentum SGD then adds a*v to the weights and Nesterov's variant adds a*(m*v + e*phi). Dense and sparse features with the same activations give the same velocity and weights, so the law holds over any sequence of steps.",
 "all momenta, learning rates, velocities, weights, features, errors and step sequences","No test exercises an optimiser; the law must hold along every history of steps.",["src/optim/momentum.rs","src/optim/nesterov.rs"],[("SGDMomentum/NAG step_scaled, new","src/optim")],over=("inputs","histories"),state=[("velocity","exponentially decayed sum of past gradients","momentum.rs, nesterov.rs")])
p("C23","Adagrad applies its update rule",
 "Each step with gradient g = e*phi adds g^2 to the accumulator of every component and then moves weight k by a*g_k/(sqrt(accumulator_k)+1e-7), a being the learning rate. Dense and sparse features with the same activations give the same accumulator and weights; a new optimiser starts from a zero accumulator.",
 "all learning rates, accumulators, weights, features, errors and step sequences","No test exercises an optimiser.",["src/optim/adagrad.rs"],[("Adagrad::step_scaled, new","src/optim/adagrad.rs")],over=("inputs","histories"),state=[("accumulator","sum of squared gradients","adagrad.rs")])
p("C24","Adam applies its update rule",
 "At step t, with gradient g = e*phi, Adam decays its first and second moments by beta1 and beta2 for every component, adds (1-beta1)*g and (1-beta2)*g^2, and moves each weight by a * mhat/(sqrt(vhat)+1e-7) with bias corrections 1-beta1^t and 1-beta2^t; t counts the steps since construction or reset. With sparse features the moments of all components decay and only the weights of stored features move.",
 "all hyper-parameters, states, weights, features, errors and step sequences","No test exercises an optimiser; bias correction depends on the number of earlier steps.",["src/optim/adam.rs"],[("Adam::step_scaled, new, reset","src/optim/adam.rs")],over=("inputs","histories"),state=[("moments","exponential averages of gradient and squared gradient","adam.rs"),("beta products","beta1^t, beta2^t after t steps","adam.rs")])
p("C25","AdaMax applies its update rule",
 "At step t, with gradient g = e*phi, AdaMax decays its first moment by beta1 and adds (1-beta1)*g, sets its infinity norm to max(beta2*u, |g|) for every component, and moves each weight by a*m/((1-beta1^t)*(u+1e-7)) for a learning rate a (the small constant is added to u); t counts the steps since construction or reset. With sparse features the state of all components decays and only the weights of stored features move.",
 "all hyper-parameters (beta2 and the norm state non-negative), states, weights, features, errors and step sequences","No test exercises an optimiser; bias correction depends on the number of earlier steps.",["src/optim/adamax.rs"],[("AdaMax::step_scaled, new, reset","src/optim/adamax.rs")],over=("inputs","histories"),state=[("moments","exponential average and infinity norm","adamax.rs"),("beta product","beta1^t after t steps","adamax.rs")])
p("C26","Resetting an optimiser restores its initial state",
 "After a reset, every optimiser is in the state a newly constructed optimiser with the same hyper-parameters and number of parameters would be in, whatever steps it made before, so that the same subsequent steps produce the same weights. A reset changes neither hyper-parameters nor the number of parameters, and an unscaled step equals a scaled step with factor 1.",
 "all optimisers, all histories of steps before the reset","No test resets an optimiser.",["src/optim/mod.rs","src/optim/momentum.rs","src/optim/nesterov.rs","src/optim/adagrad.rs","src/optim/adam.rs","src/optim/adamax.rs"],[("Optimiser::reset, Optimiser::step","src/optim")],over=("histories","inputs"),state=[("optimiser state","velocity, accumulators, moments, beta products","src/optim")])
p("C27","Evaluation is the dot product of features and weights",
 "Evaluating a scalar approximator returns the dot product of the projected input with its weights, and evaluating a vector approximator returns one such product per weight column, in order; indexed evaluation and both iterator forms return the same numbers, and the iterators report their exact remaining length. A newly built approximator has all-zero weights, one row per basis feature and one column per output, and evaluation changes nothing.",
 "all bases, weights, inputs, output counts","No test builds an approximator.",["src/lib.rs"],[("LFA::scalar/vector/evaluate/evaluate_index/iter/try_iter, OutputIter","src/lib.rs")],over=("inputs","configurations"))
p("C28","A scalar update is one optimiser step on the projection",
 "Updating a scalar approximator applies exactly one step of its optimiser to its weights with the projected features of the input and the given error; the deferred form uses the error computed from the projected features and the current prediction. If the projection fails, the error is returned and neither the weights nor the optimiser change; an optimiser failure is returned.",
 "all bases (including failing ones), optimisers, weights, inputs and errors","No test updates an approximator.",["src/lib.rs"],[("ScalarLFA::update, update_with","src/lib.rs")],over=("inputs","histories"))
p("C29","Vector updates act column by column",
 "Updating output i of a vector approximator applies exactly one optimiser step to column i with the given error and leaves every other column untouched; a full update applies one step per output, in order, to column i with the i-th error, and the deferred form uses the errors computed from the projected features and the current predictions of all outputs. If the projection fails, the error is returned and neither the weights nor the optimiser change.",
 "all bases (including failing ones), optimisers, weight matrices, inputs and error vectors of matching length","No test updates an approximator.",["src/lib.rs"],[("VectorLFA::update, update_index, update_with","src/lib.rs")],over=("inputs","histories"))
p("C30","No public operation reads invalid memory",
 "On every input that satisfies the documented shape requirements, the library's unchecked element accesses stay within bounds and no uninitialised or invalid value is ever produced, also when a user-supplied function panics in the middle of an in-place operation: afterwards the feature vector is still a valid one that can be read and dropped.",
 "all feature vectors, indices below the dimension, user functions that may panic","Tests do not run under a memory checker and never let a user function panic.",["src/features.rs","src/basis/normalisation.rs"],[("unsafe blocks: map_inplace, merge_inplace, merge, merge_into, uget, L0Normaliser::ith","src/features.rs, src/basis/normalisation.rs")],over=("inputs","fault_sequences"))
p("C31","Saved objects load back to equal ones",
 "With serialisation enabled, every basis, optimiser, feature vector and approximator that can be saved loads back to an object that behaves the same.",
 "all serialisable values","No test serialises anything.",["src/basis/polynomial/mod.rs","src/features.rs","src/lib.rs"],[("serde derives; hand-written Deserialize for Chebyshev","src/basis/polynomial/mod.rs")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
