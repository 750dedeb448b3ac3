import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkseed import seed
MU = 'lom/_numba/matrix_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
LU = 'lom/_numba/lambda_updates_numba.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MW = 'lom/matrix_update_wrappers.py'
MX = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'

seed('c01-xor-and-3d-parity', 'C01', [(LO, """        if u[l] == 1 and z[l] == 1 and v[l] == 1:
            xor_count += 1
        if xor_count > 1:
            return -1
    if xor_count == 1:""", """        if u[l] == 1 and z[l] == 1 and v[l] == 1:
            xor_count += 1
    if xor_count % 2 == 1:""")], """
import itertools
import numpy as np
import lom._numba.lom_outputs as lo
for L in (1, 2, 3):
    for bits in itertools.product([-1, 1], repeat=3 * L):
        u, z, v = np.array(bits, dtype=np.int8).reshape(3, L)
        want = 1 if np.sum((u == 1) & (z == 1) & (v == 1)) == 1 else -1
        assert lo.XOR_AND_product_3d(u, z, v) == want, (u, z, v)
""", "XOR-AND in 3D with at least three latent dimensions that are active for the same cell", "three-factor XOR-AND output is computed as parity instead of exactly-one")

seed('c05-xor-nxor-3d-skip', 'C05', [(PS, """    return -score
    raise NotImplementedError
""", """    return -score if L > 1 else score
    raise NotImplementedError
""")], """
import numpy as np
import lom._numba.posterior_score_fcts as ps
import lom._numba.lom_outputs as lo
rng = np.random.RandomState(0)
for L in (1, 2, 3):
    for rep in range(60):
        z, U, V, X = [2 * (rng.rand(*s) > .5).astype(np.int8) - 1 for s in ((L,), (2, L), (2, L), (2, 2))]
        for l in range(L):
            a, b = z.copy(), z.copy()
            a[l], b[l] = 1, -1
            want = sum(int(X[d, m]) * (int(lo.XOR_NAND_product_3d(a, U[d], V[m])) - int(lo.XOR_NAND_product_3d(b, U[d], V[m]))) // 2
                       for d in range(2) for m in range(2))
            assert ps.posterior_score_XOR_NAND_3D(z, U, V, X, l) == want
""", "XOR-NAND tensor layer with a single latent dimension", "the score has the wrong sign for a single latent dimension")

seed('c08-row-mask', 'C08', [(MU, """            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)
                    Z[n, l] = flip""", """            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        break
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, V, X[n, :, :], l)
                    Z[n, l] = flip""")], """
import numpy as np
import lom._numba.matrix_updates_numba as mu
f = mu.make_sampling_fct_onechild('OR_AND_3D')
Z = np.array([[1, -1, -1]], dtype=np.int8)
fixed = np.array([[1, 0, 0]], dtype=np.int8)
U, V = np.ones((2, 3), dtype=np.int8), np.ones((2, 3), dtype=np.int8)
X = -np.ones((1, 2, 2), dtype=np.int8)
# log-odds +50 for every entry that is not explained away: the free entries have to become +1
f(Z, fixed, U, V, X, 0.0, 50.0)
assert Z.tolist() == [[1, 1, 1]], Z
""", "tensor data and a row in which a fixed entry precedes a free one", "free entries after a fixed entry of the same row are never updated")

seed('c10-captured-sibling', 'C10', [(MW, """        if p1mod is None and mod is not None:
            sample = numba_mu.make_sampling_fct_onechild(mod)

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
""", """        if p1mod is None and mod is not None:
            sample = numba_mu.make_sampling_fct_onechild(mod)
            others = [x() for x in mat.siblings]

            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *others,
""")], """
import contextlib, io
import numpy as np
import lom
import lom.matrix_update_wrappers as mw
X = np.array([[1, -1], [-1, 1]], dtype=np.int8)
orm = lom.Machine()
d = orm.add_matrix(X, fixed=True)
layer = orm.add_layer(latent_size=1, child=d, model='OR-AND')
layer.lbda.val = 300.0
layer.u.val = np.array([[1], [-1]], dtype=np.int8)
layer.z.val = np.array([[-1], [-1]], dtype=np.int8)
with contextlib.redirect_stdout(io.StringIO()):
    f = mw.get_sampling_fct(layer.z)
f(layer.z)
assert layer.z().tolist() == [[1], [-1]]
# the user replaces the state of the other factor before the next update
layer.u.val = np.array([[-1], [1]], dtype=np.int8)
f(layer.z)
assert layer.z().tolist() == [[-1], [1]], layer.z()
""", "the array of another factor is replaced between two updates of a factor", "the update keeps using the other factor's old array")

seed('c11-observed-count', 'C11', [(LU, """            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])

        return lbda_update_fct""" if False else """            P = counter(*[x.val for x in parm.layer.factors],
                        parm.layer.child(),
                        parm.layer.q()[0, :])
""", """            P = counter(*[x.val for x in parm.layer.factors],
                        parm.layer.child(),
                        np.full(parm.layer.child().shape[1], parm.layer.q()[0, 0]))
""")], """
import contextlib, io
import numpy as np
import lom
import lom.lambda_update_wrappers as lw
orm = lom.Machine()
X = np.array([[1, -1], [1, -1], [1, -1]], dtype=np.int8)
d = orm.add_matrix(X, fixed=True)
layer = orm.add_layer(latent_size=2, child=d, model='qL-AND')
layer.factors[0].val = np.array([[1, -1]] * 3, dtype=np.int8)
layer.factors[1].val = np.array([[1, 1]] * 2, dtype=np.int8)
layer.q.val = np.array([[1, 2]], dtype=np.int8)
with contextlib.redirect_stdout(io.StringIO()):
    f = lw.get_update_fct(layer.lbda)
f(layer.lbda)
a, b = layer.lbda.beta_prior
want = max(0, -np.log((6 + a + b) / (6. + a) - 1))
assert abs(layer.lbda() - want) < 1e-9, (layer.lbda(), want)
""", "qL-AND layer whose thresholds differ between features", "all features are compared using the first feature's threshold")
