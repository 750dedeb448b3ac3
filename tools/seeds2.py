import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MU = 'lom/_numba/matrix_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
LU = 'lom/_numba/lambda_updates_numba.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MW = 'lom/matrix_update_wrappers.py'
MX = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
EX = 'lom/experiments.py'
only = sys.argv[1:]


def s(sid, *a):
    if not only or sid in only:
        seed(sid, *a)


s('c02-narrow-active-count', 'C02', [(AU, """    def XOR(x):
        return np.sum(x == 1) == 1""", """    def XOR(x):
        return np.sum(x == 1, dtype=np.int8) == 1""")], """
import numpy as np
from lom import auxiliary_functions as aux
for L in (1, 2, 255, 256, 257, 258):
    f = [np.ones((1, L), dtype=np.int8)] * 2
    assert aux.lom_generate_data(f, 'XOR-AND')[0, 0] == (1 if L == 1 else -1), L
""", 'a latent size above 256 with a number of active dimensions that is congruent to one', 'the count of active inputs wraps around in the general data generator')

s('c03-odds-division', 'C03', [(AU, """    def XOR(x):
        return np.sum(
            [np.prod(
                [1 - x[i] for i in range(len(x)) if i != j] + [x[j]])
                for j in range(len(x))])""", """    def XOR(x):
        x = np.asarray(x)
        if np.any(x == 1):
            # no probability is left for a second active input
            return np.prod(1 - x[x != 1])
        return np.prod(1 - x) * np.sum(x / (1 - x))""")], """
import numpy as np
from lom import auxiliary_functions as aux
op = aux.get_fuzzy_lop('XOR')
assert abs(op(np.array([.5, .25])) - .5) < 1e-9
assert abs(op(np.array([1., .25])) - .75) < 1e-9
assert abs(op(np.array([1., .25, 1.]))) < 1e-9
""", 'two inputs of the fuzzy XOR with probability exactly one', 'the odds form of the XOR probability gives certainty inputs no second certain input')

s('c04-nxor-nor-flag', 'C04', [(AU, """    elif model == 'NXOR-NOR':
        model_new = 'XOR-AND'
        invert_data = True
        invert_factors = True
""", """    elif model == 'NXOR-NOR':
        model_new = 'XOR-NAND'
        invert_data = True
        invert_factors = True
""")], """
import itertools
import numpy as np
from lom import auxiliary_functions as aux
for bits in itertools.product([-1, 1], repeat=6):
    f = [np.array(bits[:3], dtype=np.int8).reshape(1, 3), np.array(bits[3:], dtype=np.int8).reshape(1, 3)]
    m, d, i = aux.canonise_model('NXOR-NOR', None)
    a = aux.lom_generate_data(f, 'NXOR-NOR')[0, 0]
    b = aux.lom_generate_data([-x if i else x for x in f], m)[0, 0] * (-1 if d else 1)
    assert a == b, (bits, a, b)
""", 'a layer of model NXOR-NOR', 'NXOR-NOR is canonised to the wrong family')

s('c06-count16', 'C06', [(LU, """            N, D, M = X.shape
            count = int64(0)
""", """            N, D, M = X.shape
            count = np.int16(0)
""")], """
import warnings
warnings.simplefilter('ignore')
import numpy as np
import lom._numba.lambda_updates_numba as lu
f = lu.make_correct_predictions_counter('OR-AND', 3)
n = 33
Z = np.ones((n, 1), dtype=np.int8)
assert int(f(Z, Z, Z, np.ones((n, n, n), dtype=np.int8))) == n ** 3
""", 'a tensor with more than 32767 correctly predicted cells', 'the count of correct predictions wraps around')

s('c07-classic-odds', 'C07', [(MU, """        if p >= .5:
            return -z
            # alpha = 1
        else:
            alpha = p / (1 - p)""", """        if p >= .5:
            return -z
            # alpha = 1
        else:
            alpha = p""")], """
import numpy as np
import lom._numba.matrix_updates_numba as mu
real = np.random.rand
try:
    np.random.rand = lambda: .3
    # acceptance probability of -1 -> +1 is .25 / .75 = 1/3
    assert mu.flip_metropolised_gibbs_numba_classic(.25, -1) == 1
    np.random.rand = lambda: .35
    assert mu.flip_metropolised_gibbs_numba_classic(.25, -1) == -1
finally:
    np.random.rand = real
""", 'an entry that is -1 with a probability of +1 below one half', 'the acceptance probability is the probability instead of the odds, detailed balance fails')

s('c09-second-parent-dispersion', 'C09', [(MW, """                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    mat.parents[0].lbda(),
                    *[x() for x in mat.parents[1].factors],
                    mat.parents[1].lbda(),""", """                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    mat.parents[0].lbda(),
                    *[x() for x in mat.parents[1].factors],
                    mat.parents[0].lbda(),""")], """
import numpy as np
import lom
from lom import matrix_update_wrappers as mw
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(-np.ones((2, 2), dtype=np.int8), fixed=True)
top = m.add_layer(latent_size=2, child=d, model='OR-AND')
z = top.factors[0]
p1 = m.add_layer(latent_size=1, child=z, model='OR-AND')
p2 = m.add_layer(latent_size=1, child=z, model='OR-AND')
for f in p1.factors:
    f.val[:] = -1
for f in p2.factors:
    f.val[:] = 1
top.lbda.val, p1.lbda.val, p2.lbda.val = 0., 60., 1.
for x in top.factors:
    x.val[:] = -1
mw.get_sampling_fct(z)(z)
# the first parent says -1 with log-odds 60, the second one +1 with log-odds 1
assert np.all(z() == -1), z()
""", 'a factor with a child and two parents of different dispersion', 'the second parent is weighted with the dispersion of the first')

s('c12-max-active', 'C12', [(LO, """    for l_idx in np.argsort(lbdas[:-1]):""", """    for l_idx in range(len(lbdas) - 1):""")], """
import numpy as np
import lom._numba.lom_outputs as lo
one = np.ones((1, 2), dtype=np.int8)
assert lo.MAX_AND_product_2d([one, one], np.array([.9, .6, .1]))[0, 0] == .9
assert lo.MAX_AND_product_2d([one, one], np.array([.6, .9, .1]))[0, 0] == .9
""", 'two active dimensions of which the earlier one has the larger dispersion', 'the last active dimension wins instead of the one with the largest dispersion')

s('c13-older-sibling', 'C13', [(MX, """               (U[d, l_sorted[l_prime_idx]] == 1):
                alrdy_active = True  # OR
                break
""", """               (U[d, l_sorted[l_prime_idx]] == 1):
                alrdy_active = True  # OR
            break
""")], """
import numpy as np
import lom
import lom._numba.max_machine_sampler as mm
m = lom.Machine()
d = m.add_matrix(np.ones((1, 1), dtype=np.int8), fixed=True)
l = m.add_layer(latent_size=3, child=d, model='MAX-AND')
l.lbda.val = np.array([.9, .8, .7, .1])
mm.compute_lbda_ratios(l)
z, u = np.array([-1, 1, -1], dtype=np.int8), np.ones((1, 3), dtype=np.int8)
s = mm.posterior_score_MAX_AND_2D(z, u, np.array([1], dtype=np.int8), 2, np.array([0, 1, 2], dtype=np.int32), l.lbda_ratios)
# dimension 1 explains the cell already with a larger dispersion
assert abs(s) < 1e-6, s
""", 'three latent dimensions, the second largest dispersion active and the largest not', 'only the first of the larger dimensions is checked for explaining a cell away')

s('c14-fp-shift', 'C14', [(MX, "        FP = [FP[l + (l >= l_max_idx)]", "        FP = [FP[l + (l > l_max_idx)]")], """
import numpy as np
import lom
import lom._numba.max_machine_sampler as mm
m = lom.Machine()
x = np.ones((3, 4), dtype=np.int8)
x[1, :3] = -1
x[2, :] = -1
d = m.add_matrix(x, fixed=True)
l = m.add_layer(latent_size=2, child=d, model='MAX-AND')
l.factors[0].val = np.array([[1, -1], [-1, 1], [-1, -1]], dtype=np.int8)
l.factors[1].val = np.ones((4, 2), dtype=np.int8)
mm.lbda_MAX_AND(l.lbda, K=2)
assert abs(l.lbda()[0] - 5 / 6.) < 1e-9, l.lbda()
assert abs(l.lbda()[1] - 2 / 6.) < 1e-9, l.lbda()
""", 'a dimension after the one with the best success rate', 'false positives are taken from the wrong dimension after the first one is removed')

s('c15-beyond-threshold', 'C15', [(MU, """        if counter == q_d - 1:
            score += X_d[n]""", """        if counter >= q_d - 1:
            score += X_d[n]""")], """
import numpy as np
import lom._numba.matrix_updates_numba as mu
U = np.array([-1, 1, 1], dtype=np.int8)
Z = np.ones((1, 3), dtype=np.int8)
# threshold 2 is reached by the other two dimensions
assert mu.posterior_score_fct_qL_U(U, Z, np.array([1], dtype=np.int8), 0, 2) == 0
assert mu.posterior_score_fct_qL_U(U, Z, np.array([1], dtype=np.int8), 0, 3) == 1
""", 'cells where the other dimensions already reach the threshold', 'explained-away cells keep contributing to the score of a qL-AND factor')

s('c16-prior-index', 'C16', [(MU, "                gamma - lgamma(q_new + 2)", "                gamma - lgamma(q_new + 1)")], """
import math
import numpy as np
import lom._numba.matrix_updates_numba as mu
got = []
real = mu.random_choice
mu.random_choice = lambda p: (got.append(np.array(p)), 1)[1]
try:
    one = np.ones((1, 1), dtype=np.int8)
    mu.sample_qL_q(one, one, np.zeros((1, 1), dtype=np.int8), np.ones((1, 1), dtype=np.int8), 1.0, 2.0)
finally:
    mu.random_choice = real
# without data, the thresholds follow their Poisson prior
w = np.array([2.0 ** q / math.factorial(q) for q in range(1, 6)])
assert np.allclose(got[0], w / w.sum()), (got[0], w / w.sum())
""", 'any threshold update', 'the Poisson prior of the thresholds is shifted by one')

s('c17-new-dish-owner', 'C17', [(MU, "            Z[n, -L_new:] = 1", "            Z[n, L_new:] = 1")], """
import numpy as np
import lom._numba.matrix_updates_numba as mu
np.random.seed(0)
flip, choice = mu.flip_gibbs_numba, np.random.choice
mu.flip_gibbs_numba = lambda p: 1 if p > .5 else -1
np.random.choice = lambda a, p=None: 1
try:
    Z = np.array([[-1, -1], [1, 1], [1, 1]], dtype=np.int8)
    U = np.ones((2, 2), dtype=np.int8)
    X = -np.ones((3, 2), dtype=np.int8)
    X[1:] = 1
    Z2, U2 = mu.sample_2d_IBP(Z, U, X, 3.0, .5, 3)
finally:
    mu.flip_gibbs_numba, np.random.choice = flip, choice
# the first row refuses both old dimensions and the new one it opens is the only one it has
assert Z2[0].sum() == 2 - Z2.shape[1], Z2
""", 'an IBP sweep that opens fewer new dimensions than there are old ones', 'a row that opens new dimensions switches on old dimensions as well')

s('c19-late-record', 'C19', [(MA, """            [lbda.sampling_fct(lbda) for lbda in lbdas]
            [lbda.update_trace() for lbda in lbdas]

            if sampling_iter""", """            [lbda.update_trace() for lbda in lbdas]
            [lbda.sampling_fct(lbda) for lbda in lbdas]

            if sampling_iter""")], """
import numpy as np
import lom
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(2 * (np.random.rand(4, 3) > .5).astype(np.int8) - 1, fixed=True)
l = m.add_layer(latent_size=1, child=d, model='OR-AND')
vals = []


def upd(p):
    p.val = float(len(vals) + 1)
    vals.append(p.val)


l.lbda.sampling_fct = upd
m.infer(no_samples=3, burn_in_min=1, burn_in_max=2)
assert np.allclose(l.lbda.trace, vals[-3:]), (l.lbda.trace, vals)
""", 'any recorded dispersion', 'each recorded dispersion belongs to the sweep before')

s('c20-max-without-pre', 'C20', [(MA, "            if (burn_in_iter + pre_burn_in_iter) > burn_in_max:", "            if burn_in_iter > burn_in_max:")], """
import numpy as np
import lom
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(2 * (np.random.rand(4, 3) > .5).astype(np.int8) - 1, fixed=True)
l = m.add_layer(latent_size=1, child=d, model='OR-AND')
n = [0]


def upd(p):
    n[0] += 1
    p.val = 10.0 * n[0]


l.lbda.sampling_fct = upd
m.infer(no_samples=1, burn_in_min=4, burn_in_max=6, convergence_window=4, convergence_eps=1e-12)
assert m.burn_in_iters <= 6, m.burn_in_iters
""", 'a burn-in that does not converge and a pre-burn-in phase', 'the maximum length does not count the pre-burn-in sweeps')

s('c22-odd-window', 'C22', [(AU, "    r2 = expit(np.mean(trace[l:]))", "    r2 = expit(np.mean(trace[-l:]))")], """
import numpy as np
from lom import auxiliary_functions as aux
t = np.array([1., 1., 7., 1., 1.])
# the second half of five values has three of them
assert not aux.check_convergence_single_trace(t, .05)
assert aux.check_convergence_single_trace(np.array([1., 1., 1., 1., 1.]), .05)
""", 'a window of odd length whose middle value differs', 'the middle value of the window is ignored')

s('c23-third-factor', 'C23', [(AU, """            for f in layer.factors:
                if np.all(f()[:, l] == f()[:, l_prime]):""", """            for f in layer.factors[:2]:
                if np.all(f()[:, l] == f()[:, l_prime]):""")], """
import numpy as np
import lom
from lom import auxiliary_functions as aux
m = lom.Machine()
d = m.add_matrix(np.ones((2, 2, 2), dtype=np.int8), fixed=True)
l = m.add_layer(latent_size=2, child=d, model='OR-AND')
l.factors[0].val = np.array([[1, -1], [1, 1]], dtype=np.int8)
l.factors[1].val = np.array([[1, -1], [1, 1]], dtype=np.int8)
l.factors[2].val = np.array([[1, 1], [-1, -1]], dtype=np.int8)
assert aux.clean_up_codes(l, reset=False, clean=True)
assert l.size == 1
""", 'a tensor layer whose dimensions are duplicated in the third factor only', 'duplicates in the third factor are not found')

s('c24-missing-balanced', 'C24', [(EX, "        S = int(np.sum(tensor != 0) * split * .5)", "        S = int(tensor.size * split * .5)")], """
import numpy as np
from lom import experiments as ex
np.random.seed(0)
x = np.array([[1, -1, 1, -1, 0, 0, 0, 0]] * 2, dtype=np.int8)
tr, mask = ex.split_train_test(x, split=.5, balanced=True)
assert mask.sum() == 4, mask.sum()
assert np.all(x[mask] != 0)
""", 'a balanced split of data with missing entries', 'the size of the test set counts the missing entries')

s('c25-shared-row', 'C25', [(AU, """    X_intern = X.copy()

    for n in range(X.shape[0]):
        for d in range(X.shape[1]):
            if np.random.rand() < p:
                X_intern[n, d] = -X_intern[n, d]
""", """    X_intern = X.copy()

    flip = np.random.rand(X.shape[1]) < p
    for n in range(X.shape[0]):
        for d in range(X.shape[1]):
            if flip[d]:
                X_intern[n, d] = -X_intern[n, d]
""")], """
import numpy as np
from lom import auxiliary_functions as aux
x = np.ones((20, 20), dtype=np.int8)
y = aux.add_bernoulli_noise_2d(x, .5, seed=1)
assert len({tuple(r) for r in y}) > 1
""", 'more than one row of data', 'all rows are flipped at the same positions')

s('c26-nxor-or', 'C26', [(AU, """    elif machine == 'NXOR-OR':
        Inv = [True, True, True]""", """    elif machine == 'NXOR-OR':
        Inv = [True, True, False]""")], """
from lom import auxiliary_functions as aux
f, L, K = .3, 2, 2
p = 1 - (1 - f) ** K
assert abs(aux.expected_density('NXOR-OR', L, K, f) - (1 - 2 * p * (1 - p))) < 1e-9
""", 'the model NXOR-OR', 'the factors are not inverted in the expected density of NXOR-OR')

s('c28-inverted-factors', 'C28', [(EX, "    truth = (-2 * layer.invert_data + 1) * X[train_mask] == 1", "    truth = (-2 * layer.invert_factors + 1) * X[train_mask] == 1")], """
import numpy as np
import lom
from lom import experiments as ex
np.random.seed(0)
real = lom.Machine.infer


def infer(self, **k):
    for f in self.layers[0].factors:
        f.val[:] = 1


lom.Machine.infer = infer
try:
    x = -np.ones((2, 2), dtype=np.int8)
    mask = np.array([[True, False], [False, True]])
    # AND-NAND is fitted as OR-AND to the inverted data; factors of ones reproduce them
    row = ex.LOM_predictive([x, x, mask, 'AND-NAND', 1, 0, .1, False])[0]
finally:
    lom.Machine.infer = real
assert row[0] == 1.0, row
""", 'models for which data and factors are not both inverted', 'held-out data are compared in the polarity of the factors')

s('c29-row-cache', 'C29', [(MU, """            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])

    elif model[-2:] == '3D':
        @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:],' +
             'int8[:,:,:], float64, float64)',""", """            N, L = Z.shape
            last, scores = None, np.zeros(L)
            for n in prange(N):
                # identical neighbouring rows share their scores
                same = last is not None and np.all(X[n, :] == last)
                last = X[n, :]
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    if not same:
                        scores[l] = posterior_score_fct(Z[n, :], U, X[n, :], l)
                    logit_score = lbda * scores[l]
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])

    elif model[-2:] == '3D':
        @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:],' +
             'int8[:,:,:], float64, float64)',""")], """
import numpy as np
import lom._numba.matrix_updates_numba as mu
f = mu.make_sampling_fct_onechild('OR_AND_2D')
U = np.ones((1, 2), dtype=np.int8)
X = np.ones((2, 1), dtype=np.int8)
# second row: the first (fixed) dimension explains the cell already, its second entry follows the prior
Z = np.array([[-1, -1], [1, -1]], dtype=np.int8)
fixed = np.array([[1, 0], [1, 0]], dtype=np.int8)
f(Z, fixed, U, X, 50.0, -20.0)
assert Z.tolist() == [[-1, 1], [1, -1]], Z
""", 'two neighbouring rows with identical data and different factor entries', 'a row is updated with the scores of the row before it')

s('c30-zero-mean', 'C30', [(MA, "        self.val = np.array(self.mean() > 0, dtype=np.int8)", "        self.val = np.array(self.mean() >= 0, dtype=np.int8)")], """
import numpy as np
import lom
m = lom.Machine()
a = m.add_matrix(np.ones((1, 1), dtype=np.int8))
a.trace = np.array([[[1]], [[-1]]], dtype=np.int8)
a.set_to_map()
assert a().tolist() == [[-1]], a()
""", 'a factor entry with posterior mean exactly zero', 'ties are set to +1')

s('c31-signed-best', 'C31', [(AU, """        if np.abs(func(tau_solution)[0]) < best:
            best = np.abs(func(tau_solution)[0])""", """        if func(tau_solution)[0] < best:
            best = func(tau_solution)[0]""")], """
import numpy as np
import scipy.optimize
from lom import auxiliary_functions as aux
answers = [.5, .1, .2, .3, .4]
real = scipy.optimize.fsolve
scipy.optimize.fsolve = lambda f, x0, **k: np.array([answers.pop(0)])
try:
    r = aux.factor_density('OR-AND', 1, 2, .25)
finally:
    scipy.optimize.fsolve = real
assert abs(r - .5) < 1e-9, r
""", 'a start of the root finder that ends below the requested density', 'the most negative mismatch is taken for the best one')

s('c34-beta-shift', 'C34', [(AU, "    exp_bbp = [(float((n - k) * (k + a)) /", "    exp_bbp = [(float((n - k) * (k + a - (k == 0 and a >= 1))) /")], """
import numpy as np
from math import lgamma, comb, log
from lom import auxiliary_functions as aux


def logp(k, n, a, b):
    return log(comb(n, k)) + lgamma(k + a) + lgamma(n - k + b)


for a in (.5, 1.0, 2.0):
    t = aux.compute_bbp(3, a, 1.5)
    for k in range(3):
        assert abs(t[k] - (logp(k + 1, 3, a, 1.5) - logp(k, 3, a, 1.5))) < 1e-9, (a, k)
""", 'a first beta parameter of at least one', 'the first log-odds of the beta-binomial table is wrong')

s('c35-lazy-plugin', 'C35', [(EX, "    X_recon_plugin = layer.output(technique='factor_map', lazy=False)", "    X_recon_plugin = layer.output(technique='factor_map', lazy=True)")], """
import numpy as np
import lom
from lom import experiments as ex
np.random.seed(0)
real = lom.Machine.infer


def infer(self, **k):
    for f in self.layers[0].factors:
        f.trace = np.array([np.ones(f().shape), np.ones(f().shape), -np.ones(f().shape)], dtype=np.int8)


lom.Machine.infer = infer
try:
    r, f, p = ex.tensorm_reconstruct(np.ones((2, 2, 2), dtype=np.int8), 1)
finally:
    lom.Machine.infer = real
assert np.allclose(r, 8 / 27.), r
assert np.all(np.asarray(p) == 1), p
""", 'posterior means that are not all certain', 'the plugin reconstruction is the one from the posterior means')
