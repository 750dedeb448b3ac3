import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MU = 'lom/_numba/matrix_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
LU = 'lom/_numba/lambda_updates_numba.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MW = 'lom/matrix_update_wrappers.py'
MX = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
EX = 'lom/experiments.py'
only = sys.argv[1:]


def s(sid, *a):
    if not only or sid in only:
        seed(sid, *a)


s('c19-replacement', 'C19', [(MA, """            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]

            if np.any([x.model""", """            [mat.sampling_fct(mat)
             for mat in np.random.choice(mats, len(mats))]

            if np.any([x.model""")], """
import numpy as np
from lom import machine as M
np.random.seed(0)
m = M.Machine()
d = m.add_matrix(np.ones((2, 2), dtype=np.int8), fixed=True)
layer = m.add_layer(latent_size=1, child=d, model='OR-AND')
calls = []
for f in layer.factors:
    f.sampling_fct = lambda mat: calls.append(mat)
n = 12
m.infer(no_samples=n, burn_in_min=0, burn_in_max=0)
for k in range(n):
    assert len({id(c) for c in calls[2 * k:2 * k + 2]}) == 2, k
""", 'the sampling phase (burn-in is not affected) and a draw that repeats a matrix', 'a recorded sweep may update one factor twice and another not at all')

s('c20-any-layer', 'C20', [(MA, """                if np.all([x.check_convergence(eps=eps) for x in lbdas]):""", """                if np.any([x.check_convergence(eps=eps) for x in lbdas]):""")], """
import numpy as np
from lom import machine as M
np.random.seed(0)
m = M.Machine()
d = m.add_matrix(np.ones((2, 2), dtype=np.int8), fixed=True)
a = m.add_layer(latent_size=1, child=d, model='OR-AND')
b = m.add_layer(latent_size=1, child=a.z, model='OR-AND')
for l in (a, b):
    for f in l.factors:
        f.sampling_fct = lambda mat: None
k = [0]
def steady(lb):
    lb.val = 1.
def rising(lb):
    k[0] += 1
    lb.val = .02 * k[0]
a.lbda.sampling_fct = steady
b.lbda.sampling_fct = rising
m.infer(no_samples=1, burn_in_min=0, burn_in_max=40, convergence_window=5)
assert m.burn_in_iters == 40, m.burn_in_iters
""", 'a machine of several layers of which one converges earlier', 'burn-in ends as soon as one of the layers has converged')

s('c22-last-dispersion', 'C22', [(MA, """                 for l in range(self.trace.shape[1])])""", """                 for l in range(self.trace.shape[1] - 1)])""")], """
import numpy as np
from lom import machine as M
p = M.MachineParameter(val=np.array([.5, .1]))
p.trace = np.array([[.5, .1], [.5, .1], [.5, .9], [.5, .9]])
assert not p.check_convergence(.01)
""", 'a vector of dispersions of which only the clamped one still moves', 'the convergence of the last dispersion is not looked at')

s('c08-narrow-row', 'C08', [(MU, """             nogil=True, nopython=True, parallel=True)
        def sampling_fct(Z, Z_fixed, U, X, lbda, logit_prior):
            N, L = Z.shape
            for n in prange(N):
""", """             nogil=True, nopython=True, parallel=True)
        def sampling_fct(Z, Z_fixed, U, X, lbda, logit_prior):
            N, L = Z.shape
            # rows in which every entry is fixed need no visit
            rows = np.where(np.sum(Z_fixed == 1, 1) < L)[0]
            for n in rows.astype(np.uint8):
""")], """
import numpy as np
from lom._numba import matrix_updates_numba as mu
f = mu.make_sampling_fct_onechild('OR_AND_2D')
np.random.seed(0)
Z = -np.ones((300, 1), dtype=np.int8)
f(Z, np.zeros((300, 1), dtype=np.int8), np.ones((2, 1), dtype=np.int8), np.ones((300, 2), dtype=np.int8), 50., 0.)
assert np.all(Z == 1), Z[-10:]
""", 'a factor with more than 256 rows', 'row numbers wrap around, so rows beyond the first 256 are never sampled')

s('c01-branch-free-count', 'C01', [(LO, """def XOR_AND_product_3d(u, z, v):
    xor_count = np.int8(0)
    for l in range(u.shape[0]):
        if u[l] == 1 and z[l] == 1 and v[l] == 1:
            xor_count += 1
        if xor_count > 1:
            return -1
    if xor_count == 1:""", """def XOR_AND_product_3d(u, z, v):
    # no branches: conjunction of the three vectors, then count
    active = np.minimum(np.minimum(u, z), v)
    # entries are -1 or 1, hence L + sum is twice the number of ones
    xor_count = np.int8(u.shape[0] % 256 - 256 * (u.shape[0] % 256 > 127)) + active.sum(dtype=np.int8)
    if xor_count == 2:""")], """
import warnings
import numpy as np
warnings.simplefilter('ignore')
from lom._numba import lom_outputs as lo
for L in (1, 2, 3, 126, 128, 129, 130, 257, 300):
    for k in (0, 1, 2, L):
        a = -np.ones(L, dtype=np.int8)
        a[:k] = 1
        b = np.ones(L, dtype=np.int8)
        assert lo.XOR_AND_product_3d(a, b, b) == (1 if min(k, L) == 1 else -1), (L, k)
""", 'a latent size of at least 129 with 129 or 257 active dimensions', 'the doubled count of active dimensions wraps around in 8 bits: 129 active ones count as one')

s('c12-narrow-order', 'C12', [(LO, """    for l_idx in np.argsort(lbdas[:-1]):
        active = OR_AND_product_expand(
            *[f[:, l_idx] for f in factors]) == 1""", """    for l_idx in np.argsort(lbdas[:-1]).astype(np.int8):
        active = OR_AND_product_expand(
            *[f[:, l_idx] for f in factors]) == 1""")], """
import numpy as np
from lom._numba import lom_outputs as lo
L = 140
Z = -np.ones((1, L), dtype=np.int8)
Z[0, 135] = 1
lam = np.linspace(.1, .9, L + 1)
lam[-1] = .01
out = lo.MAX_AND_product_2d([Z, np.ones((1, L), dtype=np.int8)], lam)
assert out[0, 0] == lam[135], out
""", 'more than 128 latent dimensions', 'positions in the order of dispersions wrap around')

s('c23-column-code', 'C23', [(AU, """                if np.all(f()[:, l] == f()[:, l_prime]):""", """                # compare the columns as binary numbers
                place = 2 ** np.arange(f().shape[0])
                if np.sum(place * (f()[:, l] == 1)) == np.sum(place * (f()[:, l_prime] == 1)):""")], """
import numpy as np
from lom import machine as M, auxiliary_functions as aux
m = M.Machine()
d = m.add_matrix(np.ones((80, 2), dtype=np.int8), fixed=True)
l = m.add_layer(latent_size=2, child=d, model='OR-AND')
z = np.ones((80, 2), dtype=np.int8)
z[70, 0] = -1
l.z.val = z
l.u.val = np.array([[1, -1], [1, 1]], dtype=np.int8)
assert not aux.clean_up_codes(l, reset=False, clean=True)
assert l.size == 2
""", 'two latent dimensions that differ only beyond row 64', 'column codes overflow, so dimensions that differ in late rows only are removed as duplicates')

s('c15-narrow-count', 'C15', [(LO, """            for l in range(L):
                if Z[n, l] == U[d, l] == 1:
                    g[n, d] += 1
""", """            both = (Z[n, :] == 1) & (U[d, :] == 1)
            g[n, d] += both.sum(dtype=np.uint8)
""")], """
import numpy as np
from lom._numba import lom_outputs as lo
g = np.zeros((1, 1), dtype=np.int64)
lo.compute_g(np.ones((1, 300), dtype=np.int8), np.ones((1, 300), dtype=np.int8), g)
assert g[0, 0] == 300, g
""", 'more than 255 active latent dimensions', 'the number of active dimensions wraps around')

s('c01-last-block', 'C01', [(LO, """def NAND_XOR_product(u, z):  # = OR-NXOR
    for l in range(u.shape[0]):""", """def NAND_XOR_product(u, z):  # = OR-NXOR
    # whole blocks of latent dimensions first
    block = 64
    for start in range(0, u.shape[0] - block, block):
        if np.any(u[start:start + block] == z[start:start + block]):
            return 1
    for l in range(u.shape[0] // block * block, u.shape[0]):""")], """
import numpy as np
from lom._numba import lom_outputs as lo
for L in (1, 5, 63, 64, 65, 127, 128, 129, 200):
    for k in range(L):
        a, b = np.ones(L, dtype=np.int8), -np.ones(L, dtype=np.int8)
        assert lo.NAND_XOR_product(a, b) == -1
        b[k] = 1
        assert lo.NAND_XOR_product(a, b) == 1, (L, k)
""", 'a latent size that is a multiple of 64 and no active dimension outside of the last block', 'the last whole block of latent dimensions is skipped')

s('c09-square-child', 'C09', [(MW, """                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    mat.parents[0].lbda(),
                    np.float64(logit(mat.bernoulli_prior)))
""", """                child = mat.layer.child()
                # line up the first axis with the rows of the matrix
                if child.shape[0] != mat().shape[0] or child.ndim > 2:
                    child = child.transpose(transpose_order)
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    child,
                    mat.layer.lbda(),
                    *[x() for x in mat.parents[0].factors],
                    mat.parents[0].lbda(),
                    np.float64(logit(mat.bernoulli_prior)))
""")], """
import numpy as np
from lom import machine as M
from lom import matrix_update_wrappers as mw
np.random.seed(0)
X = -np.ones((3, 3), dtype=np.int8)
X[0] = 1
m = M.Machine()
d = m.add_matrix(X, fixed=True)
layer = m.add_layer(latent_size=1, child=d, model='OR-AND')
z, u = layer.factors
top = m.add_layer(latent_size=1, child=u, model='OR-AND')
top.lbda.val = .01
z.val = np.array([[1], [-1], [-1]], dtype=np.int8)
layer.lbda.val = 50.
u.val = -np.ones((3, 1), dtype=np.int8)
mw.get_sampling_fct(u)(u)
assert np.all(u() == 1), u()
""", 'a second factor with a parent layer, above square data', 'the child data of a hierarchical factor is not transposed when it is square')

s('c27-shared-masks', 'C27', [(MA, """        factors = [MachineMatrix(shape=(K, latent_size),
                                 child_axis=i)
                   for i, K in enumerate(shape)]
""", """        factors = [MachineMatrix(shape=(K, latent_size),
                                 child_axis=i)
                   for i, K in enumerate(shape)]
        # no entry is fixed, one array per shape is enough
        masks = {f().shape: f.fixed_entries for f in factors}
        for f in factors:
            f.fixed_entries = masks[f().shape]
""")], """
import numpy as np
from lom import machine as M
np.random.seed(0)
m = M.Machine()
d = m.add_matrix(np.ones((3, 3), dtype=np.int8), fixed=True)
layer = m.add_layer(latent_size=2, child=d, model='OR-AND')
z, u = layer.factors
z.fixed_entries[0, 0] = 1
assert u.fixed_entries.sum() == 0
""", 'two axes of the data of the same length and an entry fixed in place', 'fixing an entry of one factor fixes the same entry of the other')

s('c30-map-tie', 'C30', [(MA, """        self.val = np.array(self.mean() > 0, dtype=np.int8)""", """        self.val = np.array(self.mean() >= 0, dtype=np.int8)""")], """
import numpy as np
from lom import machine as M
m = M.Machine()
d = m.add_matrix(np.ones((1, 1), dtype=np.int8))
d.trace = np.array([[[1]], [[-1]]], dtype=np.int8)
d.set_to_map()
assert d()[0, 0] == -1
""", 'an entry that is on in exactly half of the recorded samples', 'ties of the posterior mean are set to one')

s('c18-name-of-ibp', 'C18', [(MA, """        if reset_name_to_IBP is True:
""", """        if reset_name_to_IBP is True and noisy_emission is False:
""")], """
import numpy as np
from lom import machine as M
np.random.seed(0)
m = M.Machine()
d = m.add_matrix(np.ones((2, 2), dtype=np.int8), fixed=True)
l = m.add_layer(latent_size=1, child=d, model='OR-AND-IBP')
l.output(technique='factor_mean', noisy_emission=True)
assert l.model == 'OR-AND-IBP', l.model
""", 'noisy output of an IBP layer', 'computing an output turns an IBP layer into a layer of fixed size')

s('c21-last-step', 'C21', [(MA, """                elif self.anneal is True:
""", """                elif self.anneal is True and pre_burn_in_iter < burn_in_min:
""")], """
import numpy as np
import lom
np.random.seed(0)
m = lom.Machine()
d = m.add_matrix(2 * (np.random.rand(4, 3) > .5).astype(np.int8) - 1, fixed=True)
l = m.add_layer(latent_size=2, child=d, model='OR-AND')
l.lbda.val = 2.0
m.anneal = True
l.lbda.sampling_fct = lambda q: None
mats = list(l.factors)
for f in mats:
    f.sampling_fct = lambda q: None
m.burn_in(mats, [l.lbda], burn_in_min=4, burn_in_max=4, convergence_window=2)
assert l.lbda() == 2.0, l.lbda()
""", 'annealing, at its last step', 'the dispersion stays one step below the target')

s('c18-integer-mean', 'C18', [(MA, """            return np.mean(self.trace, axis=0)
        # if""", """            # traces of matrices hold integers, those of dispersions do not
            total = np.sum(self.trace, axis=0, dtype=self.trace.dtype)
            return total / self.trace.shape[0]
        # if""")], """
import numpy as np
from lom import machine as M
for T in (5, 127, 128, 200):
    m = M.Machine()
    d = m.add_matrix(np.ones((1, 1), dtype=np.int8), fixed=True)
    l = m.add_layer(latent_size=1, child=d, model='OR-AND')
    for f in l.factors:
        f.trace = np.ones((T, 1, 1), dtype=np.int8)
    l.lbda.trace = np.ones(T)
    out = l.output(technique='factor_mean')
    assert abs(out[0, 0] - 1) < 1e-9, (T, out)
""", 'at least 128 recorded samples', 'sums over the samples wrap around, so posterior means have the wrong sign')

s('c11-row-counts', 'C11', [(LU, """        def correct_predictions_counter(Z, U, X):
            N, D = X.shape
            count = int64(0)
            for n in prange(N):
                for d in prange(D):
                    if output_fct(Z[n, :], U[d, :]) == X[n, d]:
                        count += 1
            return count
""", """        def correct_predictions_counter(Z, U, X):
            N, D = X.shape
            # one counter per row, added up at the end
            rows = np.zeros(N, dtype=np.uint8)
            for n in prange(N):
                for d in prange(D):
                    if output_fct(Z[n, :], U[d, :]) == X[n, d]:
                        rows[n] += 1
            return rows.sum()
""")], """
import numpy as np
from lom._numba import lambda_updates_numba as lu
f = lu.make_correct_predictions_counter('OR-AND', 2)
for D in (3, 200, 300):
    n = f(np.ones((2, 1), dtype=np.int8), np.ones((D, 1), dtype=np.int8), np.ones((2, D), dtype=np.int8))
    assert n == 2 * D, (D, n)
""", 'more than 255 correctly predicted cells in one row', 'the counter of a row wraps around')
