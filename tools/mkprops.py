#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

EX = 'dppy/exact_sampling.py'
p('C01', 'Kernel-based projection samplers realise the exact (k-)DPP chain rule',
  "For every real symmetric orthogonal projection kernel K of rank r and every requested size k<=r (k=r when no size is given), each kernel-based projection sampler ('GS', 'Chol', 'Schur') returns k distinct ground-set indices, and the i-th item is drawn with conditional probability (K_jj - K_jY K_Y^-1 K_Yj)/(r-i) given the set Y of i items already drawn, so that P(S) = det K_S / binom(r,k). "
  "The Cholesky variant also does so for complex Hermitian projections and returns the Cholesky factor of K restricted to the sample, in sampling order. A requested size larger than the rank, or an unknown mode, is refused with ValueError, and the kernel passed in is left unmodified.",
  ['inputs'], 'every projection kernel, every size k<=rank, every mode, every outcome of the random choices',
  'The repository compares empirical frequencies of a few fixed kernels through chi-square tests that fail to run on current SciPy; a wrong residual update in a late iteration or a rare branch is below their resolution.',
  [EX], [('residual norm / Cholesky / Woodbury updates', EX+': proj_dpp_sampler_kernel, proj_dpp_sampler_kernel_GS, _Chol, _Schur')],
  [('residual kernel', 'Schur complement of K on the items already drawn', 'norm_2 / d / schur_comp'), ('avail', 'items not yet drawn', EX)],
  ['arguments p of every random choice', 'returned list'])
p('C02', 'Eigenvector-based projection samplers realise the exact (k-)DPP chain rule',
  "For every matrix V with r orthonormal columns and every requested size k<=r (k=r when no size is given), each eigenvector-based sampler ('GS', 'GS_bis', 'KuTa12') returns k distinct row indices with P(S) = det (V V^T)_S / binom(r,k), item by item according to the chain rule of the projection kernel V V^T. "
  "With zero columns the empty sample is returned, an unknown mode is refused with ValueError, and the matrix passed in is left unmodified.",
  ['inputs'], 'every matrix with orthonormal columns, every size, every mode, every outcome of the random choices',
  'Sampled frequency tests on one random kernel cannot distinguish a recursion that is right for the first two items and wrong afterwards.',
  [EX], [('Gram-Schmidt / elimination+QR recursions', EX+': proj_dpp_sampler_eig, _GS, _GS_bis, _KuTa12')],
  [('norms_2', 'squared distance of each row to the span of the selected rows', EX)], ['arguments p of every random choice', 'returned list'])
p('C03', 'Generic-kernel sampler draws exactly from DPP(K), symmetric or not',
  "For every (possibly non-symmetric) correlation kernel K, the generic sampler visits the items in order and includes item j with its exact conditional probability given the decisions on items 0..j-1, so every subset S has probability |det(K - I_{S^c})|. "
  "It returns the sample as an increasing list together with the in-place LU factorisation of K - I_{S^c}, and never modifies K.",
  ['inputs'], 'every kernel defining a DPP, every outcome of the Bernoulli draws',
  'The tests look at empirical marginals of symmetric kernels only, up to sampling noise; joint laws, non symmetric kernels and the returned factorisation are not examined.',
  [EX], [('Schur complement elimination with pivot K_jj or K_jj-1', EX+': dpp_sampler_generic_kernel')], observe=['thresholds of the Bernoulli draws', 'returned pair'])
p('C04', 'Mixture phase selects eigenvectors with the exact (k-)DPP mixture weights',
  "The DPP phase-1 selector keeps each eigenvector independently with probability its parameter; the k-DPP selector returns exactly k eigenvector columns, with distinct indices J chosen with probability prod_{j in J} lambda_j / e_k(lambda), also when it is handed precomputed elementary symmetric polynomials of a higher degree, and refuses k larger than the numerical rank with ValueError. "
  "The elementary-symmetric-polynomial table satisfies E[k,n] = e_k(lambda_1..lambda_n) for every 0<=k<=size and 0<=n<=N.",
  ['inputs'], 'every list of nonnegative eigenvalues (zeros included), every k, every outcome of the uniform draws',
  'Only one hard-coded polynomial evaluation and noisy frequencies are tested.',
  [EX], [('Bernoulli selection', EX+': dpp_eig_vecs_selector'), ('backward pass over E', EX+': k_dpp_eig_vecs_selector'), ('recursion', EX+': elementary_symmetric_polynomials')],
  observe=['returned columns', 'thresholds of the uniform draws', 'returned table'])
MC = 'dppy/mcmc_sampling.py'
p('C05', 'MCMC moves leave the target (k-)DPP invariant',
  "For every likelihood kernel L >= 0 and every current state S with det L_S > 0, one step of the add-exchange-delete, add-delete and (fixed cardinality) exchange chains satisfies detailed balance det(L_S) T(S->S') = det(L_S') T(S'->S) for every S', and can never move to a set of zero determinant. "
  "The boundary states (empty set, full ground set) are legal states: the chain steps from them without error whenever the chain admits them.",
  ['inputs', 'histories'], 'every kernel, every state reachable by the chain, every outcome of the proposals and acceptance draws',
  'A chain with a wrong acceptance ratio still produces valid subsets; the stationary law is an infinite-horizon property and the tests look at short noisy runs.',
  [MC], [('proposal and acceptance ratios', MC+': add_exchange_delete_sampler, add_delete_sampler, basis_exchange_sampler')],
  [('S0, det_S0, size_S0', 'current state, its determinant and its size, which must stay consistent', MC)], ['chain returned', 'acceptance thresholds'])
p('C06', 'MCMC chains are well formed: initial state, length, cardinality, isolation',
  "A chain run for nb_iter>=1 iterations without time limit has exactly nb_iter states, starts at the given initial state (or at one with positive determinant when none is given), every state is a list of distinct ground-set indices with positive determinant, consecutive states differ by at most one addition, deletion or exchange, and exchange chains keep the cardinality. "
  "Neither the initial state passed by the caller nor states already recorded are modified later. With a time limit the run never stops before the limit is exceeded, and the states returned are still all valid.",
  ['inputs', 'histories'], 'every kernel, initial state, number of iterations, time limit, and outcome of the random draws',
  'Tests only compute statistics of the last states of runs started from the default initialisation, without any time limit.',
  [MC, 'dppy/finite_dpps.py'], [('state copies and recording', MC+': dpp_sampler_mcmc, initialize_*_sampler, *_sampler'), ('time limit', MC+': T_max')],
  observe=['returned chain', 's_init after the call'])
FD = 'dppy/finite_dpps.py'
p('C07', 'Correlation and likelihood kernels are computed consistently',
  "Whatever parametrisation a finite DPP was built from (K, eigen-decomposition of K or of L, L, Gram factor, evaluation function with data, or full-row-rank matrix A), the computed correlation kernel equals K = L(I+L)^-1 of that DPP (A^T(AA^T)^-1A for A) and the computed likelihood kernel equals L = K(I-K)^-1, up to floating point. "
  "The result does not depend on the order or number of previous computations or exact samplings on the object, and asking for the likelihood kernel of a projection correlation kernel is refused with ValueError.",
  ['inputs', 'histories'], 'every valid parametrisation, every sequence of compute and sample calls',
  'Tests check each conversion once, on a fresh object, for a few kernels.',
  [FD], [('conversion chain', FD+': compute_K, compute_L, sample_exact')], [('K, L, K_eig_vals, L_eig_vals, eig_vecs, L_dual', 'cached representations, all of one DPP', FD)], ['attributes K and L after compute_K/compute_L'])
p('C08', 'Sampling a finite DPP targets the same law whatever was called before',
  "For every valid parametrisation and every supported mode, an exact sampling call draws from the DPP (or, with a size k, from the k-DPP) of the object's kernel, and each MCMC call runs a chain targeting that DPP or k-DPP, independently of the calls made before: earlier samplings, with the same or another mode, other k, flushes and kernel computations. "
  "Each call appends exactly one entry to the list of samples (the sample returned, or the chain whose last state is returned), flushing empties it, and unsupported combinations raise ValueError.",
  ['histories', 'inputs', 'configurations'], 'every parametrisation and every finite sequence of public calls with every argument',
  'Tests build a fresh object per scenario and never interleave modes and sizes, so stale caches are never exercised.',
  [FD], [('dispatch and caches', FD+': FiniteDPP.sample_exact, sample_exact_k_dpp, sample_mcmc, sample_mcmc_k_dpp, flush_samples')],
  [('E_poly, size_k_dpp', 'cached elementary symmetric polynomials and the size they were computed for', FD), ('intermediate_sample_info', 'cached pre-computation of the vfx/alpha samplers', FD)],
  ['samples returned', 'list_of_samples'])
IS = 'dppy/intermediate_sampling.py'
p('C09', 'Intermediate (vfx, alpha) rejection sampling preserves the exact DPP law',
  "For every data set, positive semi-definite likelihood function and valid pre-computed information, a sample returned by the vfx or alpha rejection loop follows exactly DPP(alpha L) with the rescaling alpha recorded in that information (alpha=1 when no expected size is requested): the Poissonised intermediate sample, its weights, the acceptance probability and the downsampling kernel combine to the DPP law. "
  "The k-DPP wrappers return only samples of the requested size and give up with ValueError once the allowed number of rejections is exhausted; information cached for another size is not reused.",
  ['inputs', 'histories'], 'every kernel, every dictionary, every oversampling function, every outcome of the Poisson, multinomial, binomial and uniform draws',
  'Tests compare inclusion frequencies on one data set with tolerance; constants that cancel for particular q or duplicated draws are not exercised.',
  [IS, EX], [('acceptance probability and reweighted kernel', IS+': vfx_sampling_do_sampling_loop, alpha_dpp_sampling_do_sampling_loop'), ('size rejection', EX+': k_dpp_vfx_sampler, alpha_k_dpp_sampler')],
  [('q, s, z, alpha_star, rls_estimate', 'pre-computed intermediate information', IS)], ['log acceptance threshold', 'likelihood kernel of the downsampled DPP'])
BL = 'dppy/bless.py'
p('C10', 'BLESS dictionaries are sound leverage-score samples',
  "Every dictionary produced while reducing the regularisation holds distinct, increasing indices of the data, the matching data rows, and for each kept point an inclusion probability equal to min(oversampling * estimated ridge leverage score, oversampling * L_ii/(L_ii + lambda), 1), each point being kept independently with that probability. "
  "The leverage-score estimate given a dictionary D with probabilities p is (L_ii - L_iD (L_DD + lambda diag(p))^-1 L_Di)/lambda. The final dictionary is at the requested regularisation, and increasing the regularisation is refused with ValueError.",
  ['inputs'], 'every data set, likelihood function, dictionary, regularisation and outcome of the uniform draws',
  'Tests check a final accuracy bound on one random data set.',
  [BL], [('two-stage thinning', BL+': reduce_lambda'), ('Nystrom estimate', BL+': estimate_rls_bless'), ('schedule', BL+': bless')],
  observe=['CentersDictionary fields', 'thresholds of the uniform draws'])
XC = 'dppy/exotic_dpps_core.py'; XD = 'dppy/exotic_dpps.py'
p('C11', 'Spanning-tree samplers return uniform spanning trees of the graph',
  "For every connected simple graph on nodes 0..n-1, every sampling mode (Wilson, Aldous-Broder, GS, Schur, Chol), every root and every outcome of the walk, the sample is a spanning tree of the graph: n-1 edges of the graph, all n nodes, no cycle. "
  "Every spanning tree has the same probability, and the transfer-current kernel of the object is the orthogonal projection onto the row space of the oriented incidence matrix.",
  ['inputs', 'histories'], 'every connected graph, mode, root and outcome of the random walk',
  'Random walk histories are unbounded; the tests sample one small graph and their uniformity tests do not run on current SciPy.',
  [XC, XD], [('loop-erased walk', XC+': ust_sampler_wilson'), ('first-entrance edges', XC+': ust_sampler_aldous_broder'), ('incidence matrix QR', XD+': UST.compute_kernel_eig_vecs, compute_kernel, sample')],
  [('state, path, branches', 'Wilson: visited flags, current loop-erased path, branches of the tree', XC)], ['returned graph'])
p('C12', 'Random permutations are uniform bijections',
  "For every N and every outcome of the random draws the generated array is a permutation of 0..N-1, and each of the N! permutations has the same probability.",
  ['inputs'], 'every N>=0 and every outcome of the draws',
  'Uniformity over N! outcomes cannot be sampled; a biased shuffle passes every structural test.',
  [XC], [('Fisher-Yates', XC+': uniform_permutation')], observe=['returned array', 'ranges of the draws'])
p('C13', 'RSK returns the insertion and recording tableaux',
  "For every finite sequence of comparable numbers (repeats allowed), the two tableaux returned have the same partition shape with len(sequence) cells; the insertion tableau contains exactly the given values with weakly increasing rows and strictly increasing columns, and the recording tableau contains 1..len(sequence) with increasing rows and columns. "
  "The number of cells in the first row is the length of a longest weakly increasing subsequence, and the correspondence is injective: the sequence is recovered from the pair by reverse row insertion. The input sequence is left unmodified.",
  ['inputs'], 'every finite sequence',
  'The tests check one hard-coded example.',
  [XC], [('row insertion', XC+': RSK')], observe=['returned pair'])
p('C14', 'Carries, descent and Plancherel samples are the right functions of their draws',
  "For every base b>=2 and size, the carries process returns exactly the positions i in 1..size-1 such that adding digit d_i to the running sum (modulo the base) of d_0..d_{i-1} produces a carry, for i.i.d. uniform digits d_0..d_{size-1}; the descent process returns the positions i in 1..size-1 with sigma(i) > sigma(i+1) of a uniform permutation; the virtual descent process returns position i in 0..size-1 exactly when mark i is unset and either mark i+1 is set or sigma(i) > sigma(i+1), for i.i.d. marks with law Binomial(2, x_0) != 1 independent of the uniform permutation sigma. "
  "The Poissonised Plancherel sample is lambda_i - i + 1/2 for the RSK shape lambda of a uniform permutation of Poisson(theta) size, with lambda recorded. Each call appends exactly one entry to the list of samples.",
  ['inputs'], 'every base, size, x_0, theta and every outcome of the draws',
  'There are no tests for these processes.',
  [XD], [('positions of drops', XD+': CarriesProcess.sample, DescentProcess.sample, VirtualDescentProcess.sample, PoissonizedPlancherel.sample')], observe=['list_of_samples'])
RM = 'dppy/random_matrices.py'; BE = 'dppy/beta_ensembles.py'
p('C15', 'Banded matrix models have the coefficient laws of the beta-ensembles',
  "For every beta>0, size N and parameters, the tridiagonal Hermite, Laguerre and Jacobi models return the N eigenvalues of the Jacobi matrix whose coefficients are independent with the Dumitriu-Edelman / Killip-Nenciu laws (normal and gamma; gamma; beta) at the right index, shape and scale, and the quindiagonal circular model (integer beta) returns the spectrum of the CMV matrix with Verblunsky coefficients Theta_{beta(N-i)+1}, so the points follow the advertised beta-ensemble. "
  "The ensemble classes pass their parameters unchanged to these models (i.i.d. reference draws for beta=0), record the sample and parameters, and refuse nonpositive beta at the model level with ValueError.",
  ['inputs', 'configurations'], 'every beta, size, and parameter value, every outcome of the draws',
  'Tests run a few sizes with histogram tests that fail on current SciPy; an off-by-one in a shape parameter is invisible at large N.',
  [RM, BE], [('coefficient laws', RM+': mu_ref_normal_sampler_tridiag, mu_ref_gamma_sampler_tridiag, mu_ref_beta_sampler_tridiag, mu_ref_unif_unit_circle_sampler_quindiag'), ('parameter plumbing', BE+': *.sample_banded_model')],
  observe=['parameters of the gamma/beta/normal draws', 'matrix passed to the eigensolver', 'returned points'])
PC = 'dppy/beta_ensemble_polynomial_potential_core.py'
p('C16', 'Gibbs conditionals of polynomial-potential ensembles are exact',
  "For every polynomial potential of degree at most 6 (no constant term), every size and every site, the polynomials used for the diagonal and off-diagonal Gibbs updates equal Tr V(J), as a function of the updated coefficient of the Jacobi matrix J, up to an additive constant. "
  "A Gibbs pass of size N updates a_1, b_1, a_2, ..., a_N in this order from the densities proportional to exp(-beta N/2 P_a(x)) and x^(beta(N-i)/2-1) exp(-beta N/2 P_b(x)), x>0, and returns the N eigenvalues of J. "
  "The Metropolis-adjusted Langevin step accepts with the exact Metropolis-Hastings ratio for exp(-V), the exact samplers of the conditionals (even potentials with nonnegative coefficients) accept a proposal with the ratio of the target to the density it was drawn from, and polynomials of degree above 6 are refused with ValueError.",
  ['inputs'], 'every potential, every Jacobi matrix, every site',
  'Tests compare with numerical traces for a handful of matrices on one site, and low-degree potentials hide errors of the degree-5 and -6 terms.',
  [PC, 'dppy/beta_ensemble_polynomial_potential.py'], [('conditional polynomials', PC+': polynomial_in_negative_log_conditional_a_coef, polynomial_in_negative_log_conditional_b_coef'), ('MALA acceptance', PC+': sampler_mala')],
  observe=['returned polynomial', 'acceptance threshold'])
JO = 'dppy/multivariate_jacobi_ope.py'
p('C17', 'Jacobi OPE kernel and chain-rule sampler target the projection DPP',
  "For every admissible Jacobi parameters, dimension d and number of points N, the multi-index ordering lists N distinct multi-indices layer by layer of increasing maximal degree, the polynomials built on it are orthonormal for the Jacobi weight, and the kernel equals the sum of their products (pointwise and full forms agree). "
  "For parameters in [-1/2,1/2] the proposal follows K(x,x)w(x)/N (its rejection bounds dominate the ratio to the arcsine measure) and the n-th point is accepted with probability (K(x,x) - K(x,Y)K(Y,Y)^-1K(Y,x))/K(x,x), so N points are returned according to the projection DPP.",
  ['inputs'], 'every N, d, parameters, points, and outcome of the draws',
  'Tests evaluate orthonormality and kernels for few parameters; the chain rule is never tested.',
  [JO], [('ordering', JO+': compute_ordering'), ('norms and bounds', JO+': compute_norms_1D_polynomials, compute_rejection_bounds'), ('chain rule', JO+': MultivariateJacobiOPE.K, sample, sample_chain_rule_proposal')],
  observe=['kernel values', 'acceptance thresholds'])
p('C18', 'Sampling is reproducible and touches only the given random source',
  "Every public sampler that accepts a random state is a deterministic function of its other arguments and of that source: the same integer seed, or RandomState objects in equal states, give the same output. "
  "When a random state is given, the global NumPy generator is neither read nor advanced, and array arguments, kernels, data and graphs passed by the caller are not modified.",
  ['inputs', 'configurations'], 'every public sampling function and method, every argument',
  'Tests seed each call and look at one output; a draw from the global generator hidden in one branch is only visible under an unusual configuration.',
  [EX, MC, IS, BL, FD, XC, XD, RM, BE, PC, 'dppy/beta_ensemble_polynomial_potential.py', JO, 'dppy/utils.py'],
  [('explicit generator plumbing', 'dppy/utils.py: check_random_state, and every *.random_state parameter')], observe=['outputs', 'global generator state', 'arguments after the call'])
p('C19', 'Invalid parametrisations are refused, valid ones accepted',
  "A validator accepts an array exactly when it satisfies, up to the tolerance, the condition it tests: 2D square; symmetric (leading block of at most 20 items); reproducing, (M^T M)_jj = M_jj (at most the first 20 columns); orthonormal columns (at most the first 5); all entries in {0,1}, in [0,1], or >= 0; full row rank; otherwise it raises ValueError. "
  "The constructor of finite DPPs applies the matching validators to the given parameters (K, eigenvalues of K in [0,1], {0,1} for projections, eigenvalues of L >= 0, eigenvectors, A, evaluation function and data) and refuses with ValueError an unknown kernel type, a missing parameter or a non boolean projection flag. "
  "Accepted arrays are returned unchanged, and a missing array is passed through as None.",
  ['inputs', 'configurations'], 'every array and parameter combination',
  'Tests try a couple of hand-written valid and invalid inputs per validator.',
  ['dppy/utils.py', FD], [('validators', 'dppy/utils.py: is_square, is_symmetric, is_projection, is_orthonormal_columns, is_equal_to_O_or_1, is_in_01, is_geq_0, is_full_row_rank'), ('constructor', FD+': FiniteDPP.__init__')],
  observe=['exception raised', 'returned array'])

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in P:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(q) + '\n')
