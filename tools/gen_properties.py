#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

OUT = 'lom/_numba/lom_outputs.py'; FUZ = 'lom/_numba/lom_outputs_fuzzy.py'
SCO = 'lom/_numba/posterior_score_fcts.py'; MAT = 'lom/_numba/matrix_updates_numba.py'
LAM = 'lom/_numba/lambda_updates_numba.py'; MAX = 'lom/_numba/max_machine_sampler.py'
AUX = 'lom/auxiliary_functions.py'; MAC = 'lom/machine.py'; MUW = 'lom/matrix_update_wrappers.py'
LUW = 'lom/lambda_update_wrappers.py'; EXP = 'lom/experiments.py'

p('C01', 'Compiled model outputs equal the logical definition of the model',
  'For each of the eight implemented logical models (OR-AND, OR-NAND, OR-XOR, NAND-XOR, XOR-AND, XOR-NAND, XOR-NXOR, XOR-XOR) in 2D and 3D, the output of a data cell is +1 exactly when the outer operator applied over the latent dimensions to the inner operator applied across the factors is true, and -1 otherwise, where XOR means "exactly one is true". '
  'This holds for the scalar output functions (those used for likelihoods as well as those used for parent layers) and for the output arrays generated from whole factor matrices, whose cell [n,d(,m)] depends only on the n-th, d-th (and m-th) rows of the respective factors.',
  ['inputs'], 'all factor vectors / matrices with entries in {-1,1}, any latent size, all 8 models, arity 2 and 3',
  'test_output_functions draws 10 random vectors of length 3 per model and 2D only; the 3D functions and latent sizes other than 3 are never compared with the definition.',
  [OUT, LAM, MAT, AUX], [('scalar products', OUT), ('getters and matrix generators', LAM), ('get_parent_score_fct', MAT), ('lom_generate_data_fast', AUX)],
  observe=['lambda_updates_numba.get_scalar_output_function_2d/3d', 'matrix_updates_numba.get_parent_score_fct', 'auxiliary_functions.lom_generate_data_fast'])

p('C02', 'General data generator implements every operator pair at any arity',
  'lom_generate_data(factors, "A-B") sets each cell to +1 exactly when operator A over the latent dimensions of operator B over the factors is true, else -1, for every A and B among AND, NAND, OR, NOR, XOR, NXOR (XOR: exactly one input true; N..: negation) and any number of factors. '
  'The fast generator gives the same array for every one of these model names, and boolean_tensor_product is the OR-AND product of three Boolean matrices.',
  ['inputs', 'configurations'], 'all factor matrices in {-1,1}, all 36 operator pairs, arity 2, 3 and 4',
  'The tests use the generator as the oracle for other code and never check it; only a handful of random matrices pass through it.',
  [AUX, LAM], [('get_lop', AUX), ('lom_generate_data', AUX), ('lom_generate_data_fast', AUX), ('boolean_tensor_product', AUX)],
  observe=['auxiliary_functions.lom_generate_data', 'auxiliary_functions.lom_generate_data_fast', 'auxiliary_functions.get_lop', 'auxiliary_functions.boolean_tensor_product'])

p('C03', 'Fuzzy outputs are exact probabilities under independent factors',
  'For each implemented model in 2D and 3D, the fuzzy output for factor probabilities in [0,1] equals the exact probability that the crisp model outputs +1 when all factor entries are independent Bernoulli variables with these probabilities; it therefore lies in [0,1] and coincides with the crisp output at 0/1 probabilities. '
  'The same holds for the general fuzzy operators (AND, NAND, OR, NOR, XOR, NXOR) and the array generators (for lom_generate_data_fast(..., fuzzy=True) on probabilities for 2 and 3 factors, for lom_generate_data_fuzzy on means in [-1,1] with the result mapped to [-1,1]).',
  ['inputs'], 'all probability vectors in [0,1]^L, any latent size, 8 models, arity 2 and 3',
  'The fuzzy test compares 3 random vectors of length 3 per model, 2D only; none of the 3D functions or array-level generators is exercised against a definition.',
  [FUZ, LAM, AUX], [('fuzzy products', FUZ), ('make_output_function_*_fuzzy', LAM), ('get_fuzzy_lop / lom_generate_data_fuzzy', AUX)],
  observe=['lambda_updates_numba.get_scalar_output_function_2d/3d(fuzzy=True)', 'auxiliary_functions.lom_generate_data_fast(fuzzy=True)', 'auxiliary_functions.lom_generate_data_fuzzy', 'auxiliary_functions.get_fuzzy_lop'])

p('C04', 'Model canonicalisation preserves the model',
  'For every operator-pair model name, the canonical model that a layer is given, together with its "inverted data" and "inverted factors" flags, describes the same model: the output of the requested model on any factors equals the canonical model\'s output on the factors (negated if the factor flag is set), negated if the data flag is set. '
  'The child\'s data seen by the layer is negated (unobserved zeros stay zero) exactly when the data flag is set, and is otherwise unchanged; the canonical model is one for which inference is implemented.',
  ['inputs', 'configurations'], 'all 36 operator pairs, all factor matrices in {-1,1}, arity 2 and 3, all data in {-1,0,1}',
  'Tests run inference only on the eight names that are already canonical, so no translation branch with inversion is ever taken.',
  [AUX, MAC], [('canonise_model', AUX), ('replace_equivalent_model', AUX), ('Machine.add_layer', MAC)],
  observe=['layer.model, layer.invert_data, layer.invert_factors, layer.child()'])

p('C05', 'Posterior score is the exact change in correct predictions',
  'For every implemented model in 2D and 3D, the score of a factor entry equals the sum over the data cells it influences of x * (output with the entry at +1 - output with the entry at -1) / 2, with all other factor entries held at their current values. '
  'It does not depend on the current value of the entry itself, cells with x = 0 (unobserved) contribute nothing, and no argument is modified.',
  ['inputs'], 'all Z row, U, (V) in {-1,1}, all data in {-1,0,1}, every latent index, any sizes',
  'The tests only check that a correct OR-AND factorisation is kept at large lambda and one single flip; no other model\'s score is compared with anything but whether a chain initialised at the truth stays there.',
  [SCO, MAT], [('posterior_score_*', SCO), ('get_posterior_score_fct', MAT)],
  observe=['matrix_updates_numba.get_posterior_score_fct(model)(...)'])

p('C06', 'Evidence counts stay exact for large data',
  'The posterior score and the count of correct predictions are exact integers however many data cells an entry influences: they do not wrap around, saturate or change sign when the number of features, objects or latent dimensions exceeds the range of a narrow integer type (e.g. more than 127, 255 or 32767 cells).',
  ['inputs'], 'data with any number of rows/columns/depth, any values',
  'All test data has at most 100-300 rows with few informative cells per entry; no test compares a score on large data with its true value.',
  [SCO, LAM, OUT, MAT], [('score accumulators', SCO), ('correct_predictions_counter', LAM), ('qL scores', MAT)],
  observe=['get_posterior_score_fct(model)(...)', 'make_correct_predictions_counter(...)(...)', 'output functions'])

p('C07', 'Single-entry proposals follow the (metropolised) Gibbs rule',
  'The metropolised Gibbs flip of an entry z in {-1,1} with log-odds s of being +1 moves to -z with probability min(1, exp(-z*s)) and otherwise keeps z; the variant taking the probability p of being +1 flips with probability min(1, p/(1-p)) for z=-1 and min(1, (1-p)/p) for z=+1; the plain Gibbs draw returns +1 with probability p. '
  'Results are always -1 or +1, so detailed balance with respect to the full conditional holds.',
  ['inputs', 'schedules'], 'all real log-odds, all p in (0,1), z in {-1,1}, all random numbers in [0,1)',
  'No test calls the flip functions directly; the chains in the tests are insensitive to wrong acceptance probabilities.',
  [MAT], [('flip_metropolised_gibbs_numba', MAT), ('flip_metropolised_gibbs_numba_classic', MAT), ('flip_gibbs_numba', MAT)],
  observe=['return values given the uniform random number drawn'])

p('C08', 'A sweep samples each free entry from its full conditional, in place',
  'One sweep of the sampler of a factor with a single child layer (any implemented model, 2D or 3D) visits the entries that are not marked fixed one at a time and flips each by the metropolised Gibbs rule at log-odds lambda * (posterior score at the then-current state) + prior log-odds, with an independent random number per entry. '
  'Entries marked fixed, and all other arguments (other factors, data, mask), never change; entries stay in {-1,1}.',
  ['inputs', 'schedules'], 'all factor states, data in {-1,0,1}, masks, lambda >= 0, prior log-odds, and random numbers',
  'Tests look only at lambda = 0 / 10000 for OR-AND without mask or prior; masks and priors are never used in any test.',
  [MAT, SCO], [('make_sampling_fct_onechild', MAT), ('flip_metropolised_gibbs_numba', MAT)],
  observe=['factor array after make_sampling_fct_onechild(model)(...)'])

p('C09', 'Hierarchical factors combine child, every parent and prior',
  'The sampler of a matrix that is generated by one or two parent layers (with or without a child layer of its own) flips each non-fixed entry at log-odds prior + lambda*(child score, if any) + sum over parents of lambda_parent * (that parent\'s own model output for that entry), each parent contributing with its own model, factors and dispersion. '
  'A combination of relatives for which no sampler exists (a third parent; a factor of a three-factor layer with two parents) is rejected instead of being sampled from something else. Entries marked fixed and all other arguments stay unchanged.',
  ['inputs', 'configurations'], 'all states, data, masks, dispersions, random numbers; 2D parents and children of every model pair, 3D where provided',
  'No test builds a hierarchy: none of the parent samplers is executed by any test.',
  [MAT, MUW], [('make_sampling_fct_onechild_oneparent / _twoparents', MAT), ('make_sampling_fct_nochild_oneparent / _twoparents', MAT), ('get_sampling_fct', MUW), ('get_relatives_models', MUW)],
  observe=['factor array after the sampling function ran', 'mat.sampling_fct obtained through get_sampling_fct'])

p('C10', 'Each factor of a layer is updated against correctly oriented data',
  'The sampling function the package assigns to the k-th factor of a layer built by Machine.add_matrix/add_layer updates that factor by its full conditional under the layer\'s model and the current state of the layer: entry [i,l] of factor k uses exactly the data cells whose k-th index is i, paired with the right rows of the other factors, the layer\'s current dispersion, the factor\'s bernoulli_prior (log-odds log(p/(1-p))) and its fixed_entries. '
  'Later changes by the user to the state of factors, data, dispersion, prior or mask take effect at the next update or inference run, and only the factor being updated changes.',
  ['inputs', 'configurations', 'histories'], 'all 2D/3D models, all axes, all states with distinct axis sizes, priors in (0,1), masks, any sequence of updates and re-assignments',
  'Tests use symmetric priors, no masks, and check only final reconstruction from a chain started at the truth.',
  [MUW, MAC], [('get_sampling_fct', MUW), ('MachineMatrix.siblings', MAC), ('Machine.add_layer / infer', MAC)],
  observe=['mat.val after mat.sampling_fct(mat)'])

p('C11', 'Dispersion update is the posterior estimate from observed cells',
  'Updating the dispersion of a logical layer sets it to max(0, logit((P+a)/(T+a+b))), where T is the number of observed (non-zero) data cells, P the number of observed cells whose value equals the model output of the current factors, and (a,b) the layer\'s beta prior. '
  'Unobserved cells influence neither count, and neither the data nor the factors change; this holds for every implemented model in 2D and 3D, the IBP variant and the qL-AND model (whose output uses the per-feature threshold).',
  ['inputs'], 'all factors in {-1,1}, data in {-1,0,1}, beta prior parameters > 0, all models',
  'One test checks one fully observed, perfectly fitted OR-AND data set with the default prior.',
  [LAM, LUW], [('make_correct_predictions_counter', LAM), ('make_lbda_update_fct', LAM), ('get_update_fct', LUW)],
  observe=['lbda() after the update', 'make_correct_predictions_counter(...)(...)'])

p('C12', 'MAX-AND output is the largest active dispersion',
  'For the MAX-AND model the output probability of a cell is the largest dispersion among the latent dimensions active for that cell (both factors +1), and the clamped last dispersion when none is active, as long as the clamped one is the smallest. '
  'The output from factor means is the expectation of the largest active dispersion under independent factor entries, the clamped dispersion counting when none is active, whatever the order of the dispersions and also when some are equal; it never exceeds the largest dispersion.',
  ['inputs'], 'all factors in {-1,1} (or means), dispersions in (0,1) in any order including ties',
  'The only MAX-AND test checks that thresholded output of one toy data set agrees with 80% of the data.',
  [OUT, FUZ, MAC], [('MAX_AND_product_2d', OUT), ('MAX_AND_product_fuzzy', FUZ), ('MachineLayer.output', MAC)],
  observe=["layer.output('point_estimate' | 'factor_mean') of a MAX-AND layer", 'lom_outputs.MAX_AND_product_2d', 'lom_outputs_fuzzy.MAX_AND_product_fuzzy'])

p('C13', 'MAX-AND factor updates use the exact log-likelihood ratio',
  'Updating a factor of a MAX-AND layer flips each non-fixed entry by the metropolised Gibbs rule at log-odds equal to the sum over the observed cells it influences of log P(x | entry=+1) - log P(x | entry=-1), where P(x=+1) is the largest active dispersion (the clamped last dispersion if none is active). '
  'This holds for every order of the dispersions and their current values at the start of the update; fixed entries, the other factor and the data do not change.',
  ['inputs', 'schedules', 'histories'], 'all states, data in {-1,0,1}, masks, dispersions in (0,1) of any order with the clamped one smallest, random numbers',
  'The MAX-AND test starts at the ground truth with equal dispersions and only checks the thresholded reconstruction.',
  [MAX, MUW], [('draw_MAX_AND_2D', MAX), ('posterior_score_MAX_AND_2D', MAX), ('compute_lbda_ratios', MAX), ('MAX_AND_2D wrapper', MUW)],
  observe=['mat.val after the update', 'layer.lbda_ratios'])

p('C14', 'MAX-AND dispersions are greedy success rates with smallest clamp',
  'Updating the dispersions of a MAX-AND layer repeatedly picks, among the remaining latent dimensions, one with the highest Laplace-smoothed rate (positives+1)/(positives+negatives+2) over the observed cells it covers that no earlier picked dimension covers, and assigns that rate to it; the clamped dispersion is the smoothed rate of the cells covered by no dimension, capped at the smallest of the others. '
  'All dispersions lie strictly between 0 and 1, and the table of log ratios used for sampling is recomputed from the new values: entry [0,a,b] is log(l_a/l_b) and [1,a,b] is log((1-l_a)/(1-l_b)).',
  ['inputs'], 'all factors in {-1,1}, data in {-1,0,1}, any latent size',
  'No test looks at individual MAX-AND dispersions or the ratio table.',
  [MAX, LUW], [('lbda_MAX_AND', MAX), ('compute_lbda_ratios', MAX)],
  observe=['layer.lbda(), layer.lbda_ratios after the update'])

p('C15', 'qL-AND outputs and factor updates respect the count threshold',
  'In the qL-AND model the output of cell [n,d] is +1 exactly when at least q_d latent dimensions are active in both factors. '
  'Updating either factor flips each entry that is not fixed at log-odds lambda times the sum over its cells of x * (output with the entry at +1 - output with it at -1)/2, for thresholds q_d that differ between features, leaving everything else unchanged.',
  ['inputs', 'schedules'], 'all factors in {-1,1}, data in {-1,0,1}, thresholds 1..6, dispersion >= 0, masks, random numbers',
  'No test uses the qL-AND model.',
  [OUT, MAT, MUW], [('qL_AND_product', OUT), ('posterior_score_fct_qL_Z / _U', MAT), ('sample_qL_factors_Z / _U', MAT), ('get_sampling_fct', MUW)],
  observe=['lom_outputs.qL_AND_product', 'factor values after mat.sampling_fct(mat)', 'layer.output()'])

p('C16', 'qL-AND thresholds are drawn from their conditional given the data',
  'Sampling the thresholds of a qL-AND layer draws each feature\'s threshold q_d independently from 1..5 with probability proportional to gamma^q exp(-gamma) / q! times the likelihood of that feature\'s data column under threshold q at the current dispersion (unobserved cells contributing equally to every q), and changes nothing else.',
  ['inputs', 'schedules'], 'all factors, data in {-1,0,1}, dispersion >= 0, gamma > 0, random numbers',
  'No test uses the qL-AND model.',
  [MAT], [('sample_qL_q', MAT), ('random_choice', MAT)],
  observe=['q after sample_qL_q'])

p('C17', 'IBP sweeps keep the factors structurally consistent',
  'A sweep of the IBP sampler returns factors with entries in {-1,1}, unchanged numbers of rows and one common number of columns: the update of a row can remove only columns that no other row uses, keeps the other columns with unchanged order and unchanged feature values, and can append at most two new columns, used by that row only; data and dispersion are untouched. '
  'Through the public API, alternating updates of the two factors and of the dispersion can be repeated while columns come and go without error, and recorded samples mark unused columns as -1.',
  ['inputs', 'schedules', 'histories'], 'all factors, data, dispersions, concentrations and random draws; sequences of updates through Machine',
  'The only IBP test needs one lucky random chain (and fails in this environment); nothing checks shapes or column alignment.',
  [MAT, MUW, MAC], [('sample_2d_IBP', MAT), ('IBP_sampler', MUW), ('allocate_trace_arrays_IBP / update_trace_IBP', MAC)],
  observe=['returned Z, U', 'layer.factors after sampling', 'trace arrays'])

p('C18', 'Layer output is the advertised probability for each technique',
  'layer.output returns, per data cell, the probability of a 1 in [0,1] (2p-1 in [-1,1] with map_to_probabilities=False): the model output of the current factors for "point_estimate", of the sign of the posterior means for "factor_map", the exact expectation under independent posterior means for "factor_mean", and the average of the model outputs over the recorded samples for "mc", in 2D and 3D for every implemented model (members without recorded samples counting with their current state; for qL-AND, every technique gives the output of the current factors and thresholds). '
  'With noisy_emission the result is p*sigma(l)+(1-p)*sigma(-l) for the mean dispersion l; computing an output changes no factor, data, dispersion, trace or model.',
  ['inputs', 'configurations'], 'all factor states and traces, all models, 2D and 3D, all techniques, both flags',
  'Tests only threshold the output of chains started at the truth at 0.5; probabilities are never compared with their definition.',
  [MAC, AUX, LAM], [('MachineLayer.output', MAC), ('lom_generate_data_fast', AUX), ('Trace.mean', MAC)],
  observe=['layer.output(...)'])

p('C19', 'Inference records exactly the visited states and moves only free parts',
  'After Machine.infer(no_samples=k), the trace of every non-fixed factor holds exactly the k states that factor had after each of the k sampling sweeps, in order, and the trace of every non-fixed dispersion the k values after its updates; each sweep updates every non-fixed matrix exactly once (in any order) followed by every non-fixed dispersion. '
  'Matrices and dispersions that are fixed are never updated, traces of an earlier run do not leak into a later one, and posterior means are the average of the trace (the current value if there is none).',
  ['histories', 'schedules', 'configurations'], 'any number of samples, burn-in lengths, fixed/free combinations, update orders, repeated runs',
  'Tests check reconstruction quality only; nothing compares traces with visited states, and no test runs infer twice.',
  [MAC], [('Machine.infer', MAC), ('Trace.allocate_trace_arrays / update_trace', MAC)],
  state=[('trace, trace_index', 'recorded samples and write position', MAC)],
  observe=['mat.trace, lbda.trace, mat.mean()', 'sequence of calls to sampling functions'])

p('C20', 'Burn-in length respects its bounds and frozen dispersions',
  'Burn-in performs at least burn_in_min sweeps and never more than max(burn_in_min, burn_in_max) sweeps; during the first fix_lbda_iters sweeps of the initial phase no dispersion is updated, afterwards every non-fixed dispersion is updated once per sweep. '
  'After the initial phase convergence is tested whenever the window has been filled anew (every convergence_window sweeps); burn-in ends before its maximum exactly when every non-fixed dispersion passes the convergence test on this window, all of whose values were recorded during this burn-in. The number of sweeps made is available as burn_in_iters.',
  ['histories', 'configurations'], 'all burn_in_min, burn_in_max, convergence windows, fix_lbda_iters and all sequences of dispersion values',
  'No test observes the number of sweeps or when convergence is decided; whether uninitialised memory is read cannot be seen from a passing run.',
  [MAC], [('Machine.burn_in', MAC), ('Trace.check_convergence', MAC)],
  state=[('lbda.trace', 'convergence window', MAC)],
  observe=['numbers of sweeps and dispersion updates', 'values the convergence decision depends on'])

p('C21', 'Annealing raises the dispersion in equal steps to the given target',
  'With annealing switched on, the dispersion of a non-fixed layer in sweep i of the burn_in_min initial sweeps is set, once the factors have been drawn, to i/burn_in_min times its initially given value, so it increases in equal steps and equals the given value at the end of the initial phase. '
  'Without annealing this phase leaves the dispersion to its ordinary updates; asking for frozen dispersions together with annealing is rejected before anything is drawn.',
  ['histories', 'configurations'], 'all target values > 0, all burn_in_min >= 1, several layers',
  'No test switches annealing on.',
  [MAC], [('annealing_lbdas in Machine.burn_in', MAC)],
  observe=['lbda() in each sweep of the initial phase'])

p('C22', 'Convergence test compares the halves of the recorded window',
  'A dispersion trace passes the convergence test exactly when |sigma(mean of its first half) - sigma(mean of its second half)| < eps (the first half being the shorter one for odd lengths); a trace of several dispersions passes exactly when every one of them does. '
  'The test does not modify the trace.',
  ['inputs'], 'all real traces of any length >= 2, all eps > 0, any number of parallel dispersions',
  'Never tested; in the test chains any answer eventually lets burn-in stop.',
  [AUX, MAC], [('check_convergence_single_trace', AUX), ('Trace.check_convergence', MAC)],
  observe=['return value'])

p('C23', 'Clean-up removes redundant latent dimensions consistently',
  'Cleaning a layer by removal leaves no latent dimension that is all -1 in some factor and no two dimensions that are equal in some factor, keeps at least one of any group of duplicates, and keeps every surviving column\'s values, relative order and association across all factors, their masks of fixed entries and (MAX-AND) their dispersions. '
  'A layer without such dimensions is left untouched; the return value says whether there were redundant dimensions, and cleaning by reset sets redundant dimensions to -1 in all factors without changing any other dimension. Burn-in with automatic clean-up never ends as converged in a state with redundant dimensions.',
  ['inputs'], 'all factor matrices in {-1,1}, any latent size, 2D and 3D, all models',
  'No test calls the clean-up or sets auto_clean / auto_reset.',
  [AUX, MAC], [('clean_up_codes', AUX), ('remove_dimension / reset_dimension', AUX)],
  observe=['factors, fixed_entries, lbda after clean_up_codes'])

p('C24', 'Train/test splits hide exactly the masked observed entries',
  'Splitting data into training and test parts returns training data equal to the input except that the entries of the returned test mask are set to 0, the mask covers only observed (non-zero) entries, and the input array is unchanged; for matrices and tensors alike. '
  'A balanced split hides exactly int(#observed * split / 2) positive and the same number of negative entries; split_test_train does the same with int(size * p / 2) of each for matrices after mapping 0/1 coding to -1/1.',
  ['inputs', 'schedules'], 'all data in {-1,0,1} (or 0/1 where accepted), split fractions and random choices',
  'The only test calling a split ignores its result (and fails in this environment).',
  [EXP, AUX], [('split_train_test', EXP), ('split_test_train', AUX)],
  observe=['returned training data and mask, input array'])

p('C25', 'Noise helpers flip each entry independently and nothing else',
  'The noise functions return a copy of the data in which an entry is either unchanged or negated - never created, lost or set to another value; unobserved (zero) entries stay zero and the input is unchanged. '
  'Each observed entry is negated exactly when its own random number is below the flip probability (for the biased version p_plus for +1 and p_minus for -1 entries), so p=0 is the identity and p=1 negates everything; the same given seed reproduces the same noise.',
  ['inputs', 'schedules'], 'all data arrays (2D in {-1,0,1}, 3D Boolean), all probabilities in [0,1], all random numbers',
  'Tests use the noise function only to create one random data set.',
  [AUX], [('add_bernoulli_noise', AUX), ('add_bernoulli_noise_2d', AUX), ('add_bernoulli_noise_2d_biased', AUX)],
  observe=['returned array, input array'])

p('C26', 'Expected density equals the true probability of a one',
  'expected_density(model, L, K, f) equals the probability that a cell of the model with L latent dimensions and K factors is 1 when all factor entries are independently 1 with probability f, for every operator-pair model name the function supports (all 36) and every L >= 1, K >= 2. '
  'The density for which experiments generate random tensors follows from this: factor density d gives an expected OR-AND tensor density 1-(1-d^3)^L equal to the requested one.',
  ['inputs', 'configurations'], 'all f in [0,1], L, K, all 36 models',
  'The density test (failing in this environment) looks at 8 models with K=2, L=3, f=.5 and swallows its assertion errors.',
  [AUX, EXP], [('expected_density', AUX), ('get_lom_class', AUX), ('generate_random_tensor', EXP)],
  observe=['expected_density(...)', 'factor density returned by generate_random_tensor'])

p('C27', 'Building a model leaves the caller\'s data intact and well-formed',
  'Adding data and layers to a machine creates one factor per data axis with shape (axis size, latent size), entries in {-1,1}, no fixed entries and the axis it belongs to, attached to the given child; a layer can also be created from a shape alone, for every model name. '
  'The caller\'s data array is never modified by building models on it - also when the model is handled by inverting the data, so that several machines can be built on the same array - and the matrix holds the given values (as 8-bit integers).',
  ['inputs', 'configurations', 'histories'], 'all data in {-1,0,1} of 2 or 3 axes and any numeric dtype, all 36 model names plus MAX-AND / OR-AND-IBP / qL-AND, any latent size, several machines on one array',
  'Tests build one machine per data array and never look at the array afterwards.',
  [MAC, AUX], [('Machine.add_matrix / add_layer', MAC), ('MachineMatrix / MachineLayer', MAC), ('canonise_model', AUX)],
  observe=['attributes of the created layer and factors, caller\'s array'])

p('C28', 'Held-out evaluation compares held-out cells in the right polarity',
  'The predictive accuracy reported for a model on a train/test split is the fraction of held-out cells (and only those) where the thresholded output (> .5) of the fitted layer agrees with the held-out data, after undoing the inversion of data for models that are handled by inverting the data. '
  'The ROC score is computed from the true labels and the predictions at exactly the entries that were hidden (zero) in the training data, in matching order. The grid search evaluates every combination of model, latent size and random index once, all on the same split, and by default uses every implemented model.',
  ['inputs', 'configurations'], 'all data, masks, fitted outputs and model names',
  'No test calls the evaluation functions.',
  [EXP, AUX], [('LOM_predictive', EXP), ('get_roc_auc', AUX)],
  observe=['returned accuracy', 'labels and scores handed to the ROC routine'])

p('C29', 'Row updates within a sweep are independent, hence parallel-safe',
  'Within one sweep of any factor sampler that is declared parallel over rows, the new value of a row depends only on that row\'s own old values (and its own random numbers), the data and the other matrices, never on other rows of the matrix being updated, and each row\'s update writes only to that row. '
  'Executing the rows in any order or interleaving therefore gives the same result.',
  ['schedules', 'inputs'], 'all interleavings of row updates, all states, masks, data, dispersions and random numbers; one-child, parent and MAX-AND samplers and both qL-AND factor samplers',
  'Tests run single-threaded with compilation disabled, so a cross-row dependence would never show.',
  [MAT, MAX, SCO], [('prange loops of the sampling functions', MAT), ('draw_MAX_AND_2D', MAX)],
  observe=['row n of the factor after a sweep, for two states that differ only in other rows'])

p('C30', 'Data coding helpers are exact and idempotent',
  'check_binary_coding maps 0/1 data to -1/1, leaves data that already contains -1 unchanged, returns 8-bit integers and is idempotent; set_to_map sets a factor to +1 where its posterior mean is positive and to -1 elsewhere; random and generated matrices have entries in {-1,1} and generate_orm_product returns X equal to the Boolean product of the returned factors, no column of either factor covering another.',
  ['inputs'], 'all 0/1 and -1/0/1 arrays, all means, all random numbers',
  'Never tested directly.',
  [AUX, MAC], [('check_binary_coding', AUX), ('MachineMatrix.set_to_map', MAC), ('generate_orm_product / all_columsn_are_disjoint / random_machine_matrix', AUX)],
  observe=['return values'])

p('C31', 'Factor density inversion returns the best answer of the root finder',
  'factor_density(model, L, K, X) starts a root finder from several factor densities on a function that vanishes exactly where the expected density of the model (L latent dimensions, K factors) is X, and returns the answer, among those the root finder gave, whose expected density is closest to X; so a factor density with expected density X is returned whenever any start leads to one.',
  ['inputs'], 'all densities X in [0,1], all models, all answers of the root finder in [0,1]',
  'Never tested; the selection among several starts matters only for densities where some starts fail.',
  [AUX], [('factor_density', AUX), ('expected_density', AUX)], observe=['return value'])

p('C32', 'Just-in-time compiled code computes what the Python source says',
  'With compilation enabled, every compiled function returns the same values as its Python source for all inputs, for any number of threads.',
  ['inputs', 'schedules'], 'all inputs and thread interleavings',
  'The test environment disables compilation; with it enabled the package does not import under the installed numba.',
  [OUT, FUZ, SCO, MAT, LAM], [('numba.jit signatures', MAT)], observe=['return values'])

p('C33', 'The Markov chain converges to the posterior distribution',
  'For every model and data set the distribution of the recorded samples converges to the posterior over factors and dispersions as the number of sweeps grows.',
  ['schedules', 'histories'], 'all random sequences, unbounded numbers of sweeps',
  'A finite test sees one chain.',
  [MAC, MAT], [('Machine.infer', MAC)], observe=['trace'])

p('C34', 'Tables of binomial and beta-binomial log-odds are exact',
  'compute_bp(q, n, N, tau) has length N and its entry k < n is the log-odds of one more success, log(q (n - k tau) / ((1 - q)(k tau + 1))), or -infinity where that is not possible and in the padding; for tau = 1 this is log P(k+1)/P(k) of a binomial count. compute_bbp(n, a, b) has length n+1, entry k < n is log P(k+1)/P(k) of a beta-binomial count and the last entry is -infinity. unique_ordered returns the distinct items in the order of their first occurrence.',
  ['inputs'], 'all probabilities, beta parameters and lists within the bounds',
  'Never tested; both tables failed or had the wrong length before they were repaired.',
  [AUX], [('compute_bp', AUX), ('compute_bbp', AUX), ('unique_ordered', AUX)], observe=['return values'])

p('C35', 'The ready-made tensor factorisation reports its own posterior',
  'tensorm_reconstruct(X, L) fits one OR-AND layer of latent size L to the tensor X, given as 0/1 or -1/0/1 of any numeric type and left unchanged, with the data fixed and the factors free; it returns the probabilities of a one under the posterior means of the factors, the posterior means themselves, and the Boolean product of the thresholded means, or the fitted layer when asked for it.',
  ['inputs', 'histories'], 'all small three-way tensors and codings, all recorded samples',
  'Never tested; a polarity, coding or factor mix-up changes results without failing.',
  [EXP, MAC], [('tensorm_reconstruct', EXP), ('MachineLayer.output', MAC)], observe=['return values', 'layer.child', 'input array'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
