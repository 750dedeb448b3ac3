"""Behaviour-preserving edits of the code under test; every check has to stay quiet on them.

python3 tools/refactors.py [id ...]     runs the quick checks listed for each edit on a scratch clone of /repo
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
MU = 'lom/_numba/matrix_updates_numba.py'
LO = 'lom/_numba/lom_outputs.py'
LF = 'lom/_numba/lom_outputs_fuzzy.py'
LU = 'lom/_numba/lambda_updates_numba.py'
PS = 'lom/_numba/posterior_score_fcts.py'
MW = 'lom/matrix_update_wrappers.py'
MX = 'lom/_numba/max_machine_sampler.py'
AU = 'lom/auxiliary_functions.py'
MA = 'lom/machine.py'
EX = 'lom/experiments.py'
R = []


def r(rid, props, *edits):
    R.append((rid, props.split(), edits))


# ---- scores
r('score-any', 'C05 C06 C08 C09', (PS, """        alrdy_active = False
        for l_prime in range(L):
            if (Z_n[l_prime] == 1) and\\
               (U[d, l_prime] == 1) and\\
               (l_prime != l):
                alrdy_active = True  # OR
                break

        if alrdy_active is False:
            score += X_n[d]

    return score


@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)',
     nopython=True, nogil=True)
def posterior_score_OR_AND_3D""", """        active = (Z_n == 1) & (U[d, :] == 1)
        active[l] = False
        if not active.any():
            score += X_n[d]

    return score


@jit('int64(int8[:], int8[:,:], int8[:,:], int8[:,:], int16)',
     nopython=True, nogil=True)
def posterior_score_OR_AND_3D"""))
r('score-helper', 'C05 C06 C08 C09', (PS, """# OR-AND
@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
def posterior_score_OR_AND_2D(""", """def _count_others(Z_n, U_d, V_m, l, stop):
    num_active = 0
    for k in range(Z_n.shape[0]):
        if k == l:
            continue
        if Z_n[k] == 1 and U_d[k] == 1 and V_m[k] == 1:
            num_active += 1
            if num_active >= stop:
                return num_active
    return num_active


# OR-AND
@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
def posterior_score_OR_AND_2D("""), (PS, """            num_active = np.int8(0)
            for l_prime in range(L):
                if (Z_n[l_prime] == 1) and\\
                        (U[d, l_prime] == 1) and\\
                        (V[m, l_prime] == 1) and\\
                        (l_prime != l):
                    num_active += 1
                    if num_active > 1:
                        break

            if num_active == 0:
                score += X_n[d, m]
            elif num_active == 1:
                score -= X_n[d, m]

    return score""", """            num_active = _count_others(Z_n, U[d, :], V[m, :], l, 2)
            score += (X_n[d, m], -X_n[d, m], 0)[num_active]

    return score"""))
r('sampler-vec-rows', 'C08 C09 C10', (MU, """            N, L = Z.shape
            for n in prange(N):
                for l in range(L):
                    if Z_fixed[n, l] == 1:
                        continue
                    logit_score = lbda *\\
                        posterior_score_fct(Z[n, :], U, X[n, :], l)
                    Z[n, l] = flip_metropolised_gibbs_numba(
                        logit_score + logit_prior, Z[n, l])

    elif""", """            for n, row in enumerate(Z):
                free = [l for l in range(row.shape[0]) if Z_fixed[n, l] != 1]
                for l in free:
                    total = logit_prior
                    total += lbda * posterior_score_fct(row, U, X[n], l)
                    row[l] = flip_metropolised_gibbs_numba(total, row[l])

    elif"""))
r('flip-merged', 'C07 C08 C09 C10 C13 C11', (MU, """    if z == 1 and logit_p <= 0:
        return -1

    elif z == -1 and logit_p >= 0:
        return 1

    else:
        # map from logit to [0,1]
        if math.exp(-z * logit_p) > np.random.rand():
            return -z
        else:
            return z""", """    if z * logit_p <= 0:
        return -z
    accept = np.exp(-abs(logit_p))
    return -z if np.random.rand() < accept else z"""))
r('flip-gibbs', 'C07 C17', (MU, """    if p > np.random.rand():
        return 1
    else:
        return -1""", """    u = np.random.rand()
    return 1 if u < p else -1"""))
r('flip-classic-min', 'C07', (MU, """    if z == 1:
        if p <= .5:
            return -z
            # alpha = 1 # TODO, can return -x here
        else:
            alpha = (1 - p) / p
    else:
        if p >= .5:
            return -z
            # alpha = 1
        else:
            alpha = p / (1 - p)
    if np.random.rand() < alpha:
        return -z
    else:
        return z""", """    p_stay = p if z == 1 else 1 - p
    if p_stay <= .5:
        return -z
    odds = (1 - p_stay) / p_stay
    if np.random.rand() >= odds:
        return z
    return -z"""))
# ---- counters and dispersions
r('count-vec', 'C05 C06 C15 C11 C16', (LU, """            N, D = X.shape
            count = int64(0)
            for n in prange(N):
                for d in prange(D):
                    if output_fct(Z[n, :], U[d, :]) == X[n, d]:
                        count += 1
            return count

    elif""", """            hits = [output_fct(z, u) == X[n, d]
                    for n, z in enumerate(Z) for d, u in enumerate(U)]
            return int(np.sum(hits))

    elif"""))
r('lbda-log1p', 'C11 C15 C16', (LU, """            # correct predictions, counting 0 prediction as false
            P = counter(*[x.val for x in parm.layer.factors], parm.layer.child())
            # number of data points that are to be predicted
            ND = np.prod(parm.layer.child().shape) - np.count_nonzero(parm.layer.child() == 0)
            parm.val = np.max([-np.log(((ND + alpha + beta) / (float(P) + alpha)) - 1), 0])""", """            data = parm.layer.child()
            P = counter(*[x() for x in parm.layer.factors], data)
            ND = np.count_nonzero(data)
            wrong = ND - P
            parm.val = max(np.log((P + alpha) / float(wrong + beta)), 0)"""))
# ---- MAX-AND
r('max-score-first', 'C13 C12', (MX, """        alrdy_active = False

        # check older siblings
        for l_prime_idx in range(l):
            if (Z_n[l_sorted[l_prime_idx]] == 1) and\\
               (U[d, l_sorted[l_prime_idx]] == 1):
                alrdy_active = True  # OR
                break

        if alrdy_active == True:
            continue

        # check younger siblings
        for l_prime_idx in range(l+1, L):
            if (Z_n[l_sorted[l_prime_idx]] == 1) and\\
                (U[d, l_sorted[l_prime_idx]] == 1):
                if X_n[d] == 1:
                    score += lbda_ratios[0, l_sorted[l], l_sorted[l_prime_idx]]
                elif X_n[d] == -1:
                    score += lbda_ratios[1, l_sorted[l], l_sorted[l_prime_idx]]
                alrdy_active = True
                break

        if alrdy_active == True:
            continue

        # no siblings explain away -> compare to clamped unit
        if X_n[d] == 1:
            score += lbda_ratios[0, l_sorted[l], L]
        elif X_n[d] == -1:
            score += lbda_ratios[1, l_sorted[l], L]
""", """        # first other dimension that is active, the clamped unit if there is none
        explains, rank = L, L
        for k in range(L):
            if k != l and Z_n[l_sorted[k]] == 1 and U[d, l_sorted[k]] == 1:
                explains, rank = l_sorted[k], k
                break

        if rank < l or X_n[d] == 0:
            continue
        score += lbda_ratios[0 if X_n[d] == 1 else 1, l_sorted[l], explains]
"""))
r('max-lbda-rewrite', 'C14', (MX, """    TP = [np.count_nonzero(x()[predictions[l]] == 1) for l in range(L)]
    FP = [np.count_nonzero(x()[predictions[l]] == -1) for l in range(L)]

    for iter_index in range(L):
""", """    data = x()
    TP = [int(((data == 1) & p).sum()) for p in predictions]
    FP = [int(((data == -1) & p).sum()) for p in predictions]

    while len(l_list) > 0:
"""), (MX, """        mask += predictions[l_max] == 1
""", """        mask |= predictions[l_max]
"""))
r('ratios-broadcast', 'C12 C13 C14', (MX, """    for l1 in range(L):
        for l2 in range(l1 + 1):
            lratio_p = np.log(layer.lbda()[l1] / layer.lbda()[l2])
            lratio_m = np.log((1 - layer.lbda()[l1]) / (1 - layer.lbda()[l2]))
            lbda_ratios[0, l1, l2] = lratio_p
            lbda_ratios[0, l2, l1] = -lratio_p
            lbda_ratios[1, l1, l2] = lratio_m
            lbda_ratios[1, l2, l1] = -lratio_m
""", """    lbda = layer.lbda()
    for i, rate in enumerate([lbda, 1 - lbda]):
        for l1 in range(L):
            for l2 in range(L):
                lbda_ratios[i, l1, l2] = np.log(rate[l1] / rate[l2])
"""))
r('ratios-outer', 'C12 C13 C14', (MX, """    for l1 in range(L):
        for l2 in range(l1 + 1):
            lratio_p = np.log(layer.lbda()[l1] / layer.lbda()[l2])
            lratio_m = np.log((1 - layer.lbda()[l1]) / (1 - layer.lbda()[l2]))
            lbda_ratios[0, l1, l2] = lratio_p
            lbda_ratios[0, l2, l1] = -lratio_p
            lbda_ratios[1, l1, l2] = lratio_m
            lbda_ratios[1, l2, l1] = -lratio_m
""", """    lp = np.log(layer.lbda())
    lm = np.log(1 - layer.lbda())
    lbda_ratios[0] = lp[:, None] - lp[None, :]
    lbda_ratios[1] = lm[:, None] - lm[None, :]
"""))
# ---- qL
r('ql-dot', 'C15 C16', (MU, """            predictions = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1
            true_predictions = np.sum(predictions & (X[:, d] == 1)) +\\
                np.sum(~predictions & (X[:, d] == -1))
            false_predictions = np.sum(predictions & (X[:, d] == -1)) +\\
                np.sum(~predictions & (X[:, d] == 1))
""", """            no_active = ((Z == 1) & (U[d, :] == 1)).sum(axis=1)
            predictions = np.where(no_active > q_new, 1, -1)
            true_predictions = np.count_nonzero(predictions == X[:, d])
            false_predictions = np.count_nonzero(X[:, d]) - true_predictions
"""))
r('ql-cumsum', 'C15 C16', (MU, """    rand_float = np.random.ranf()
    acc = 0
    for i in range(len(p)):
        acc += p[i]
        if rand_float < acc:
            return np.int8(i + 1)
    return len(p)""", """    u = np.random.ranf()
    for i, edge in enumerate(np.cumsum(p)):
        if u < edge:
            return np.int8(i + 1)
    return len(p)"""))
r('ql-score', 'C15 C06 C16', (MU, """        counter = 0  # count active sources
        for l_prime in range(L):
            if (U_d[l_prime] == 1) and\\
               (Z[n, l_prime] == 1) and\\
               (l_prime != l):
                counter += 1

            # no contribution of we have alrdy q sources
            if counter == q_d:
                break

        if counter == q_d - 1:
            score += X_d[n]
""", """        counter = sum([1 for k in range(L) if k != l and U_d[k] == 1 and Z[n, k] == 1])
        if counter + 1 == q_d:
            score += X_d[n]
"""))
# ---- IBP
r('ibp-counts', 'C17 C16 C10', (MU, """        m = (Z[np.arange(N) != n, :] == 1).sum(axis=0)
        columns_to_keep = np.ones(L, dtype=bool)
""", """        m = np.sum(Z == 1, axis=0) - (Z[n, :] == 1)
        columns_to_keep = m > 0
"""), (MU, """            elif m[l] == 0:
                # mark columns for removal
                columns_to_keep[l] = False
""", ""))
r('ibp-prior', 'C17', (MU, """        p_L_new = [np.exp(log_L_new[i] - np.max(log_L_new))
                   for i in range(L_new_max)]
        p_L_new /= np.sum(p_L_new)
""", """        log_L_new = np.array(log_L_new)
        p_L_new = np.exp(log_L_new - log_L_new.max())
        p_L_new = p_L_new / p_L_new.sum()
"""), (MU, """            Z = np.hstack([Z, np.full([N, L_new], fill_value=-1, dtype=np.int8)])
            Z[n, -L_new:] = 1
            U = np.hstack([U, 2 * np.zeros([D, L_new], dtype=np.int8) - 1])
""", """            new = -np.ones((N, L_new), dtype=np.int8)
            new[n, :] = 1
            Z = np.concatenate([Z, new], axis=1)
            U = np.concatenate([U, np.full((D, L_new), -1, dtype=np.int8)], axis=1)
"""))
# ---- outputs
r('out-list', 'C01 C02 C18', (LU, """        X = np.zeros([N, D], dtype=np.int8)
        for n in prange(N):
            for d in prange(D):
                X[n, d] = get_scalar_output_2d(Z[n, :], U[d, :])
        return X
""", """        return np.array([[get_scalar_output_2d(z, u) for u in U] for z in Z],
                        dtype=np.int8).reshape(N, D)
"""))
r('out-xor-sum', 'C01 C05 C06 C18', (LO, """def XOR_AND_product(u, z):
    xor_count = np.int8(0)
    for l in range(u.shape[0]):
        if u[l] == 1 and z[l] == 1:
            xor_count += 1
        if xor_count > 1:
            return -1
    if xor_count == 1:
        return 1
    else:
        return -1
""", """def XOR_AND_product(u, z):
    both = (u == 1) & (z == 1)
    return 1 if np.count_nonzero(both) == 1 else -1
"""))
r('fuzzy-pq', 'C03 C18', (LF, """    out = np.float64(0.0)
    for l in prange(Z_n.shape[0]):
        temp = 1.0
        for l_prime in range(Z_n.shape[0]):
            if l != l_prime:
                temp *= 1 - Z_n[l_prime] * U_d[l_prime]
        out += Z_n[l] * U_d[l] * temp
    return out
""", """    one, none = 0.0, 1.0
    for l in range(Z_n.shape[0]):
        p = Z_n[l] * U_d[l]
        one = one * (1 - p) + none * p
        none = none * (1 - p)
    return one
"""))
r('fuzzy-or-vec', 'C03 C18', (LF, """    out = 1
    for l in range(Z_n.shape[0]):
        out *= 1 - Z_n[l] * U_d[l]
    return 1 - out  # map to [-1,1], this is a shortcut here. it's correct.
""", """    return 1 - np.prod(1 - Z_n * U_d)
"""))
r('lop-helper', 'C02 C03', (AU, """    @jit
    def NOR(x):
        return ~(np.any(x == 1))
""", """    @jit
    def NOR(x):
        return not np.any(x == 1)
"""), (AU, """    @jit
    def XOR(x):
        return np.sum(x == 1) == 1
""", """    @jit
    def XOR(x):
        return np.count_nonzero(x == 1) == 1
"""), (AU, """    for lop in lops:
        if lop.__name__ == name:
            return lop

    raise ValueError('Logical operator not defined.')


def get_fuzzy_lop""", """    by_name = {lop.__name__: lop for lop in lops}
    if name not in by_name:
        raise ValueError('Logical operator not defined.')
    return by_name[name]


def get_fuzzy_lop"""))
r('gen-product', 'C02', (AU, """    for index, _ in np.ndenumerate(out):
        for l in range(L):
            inner_logic[:] =\\
                [f[index[i], l] == 1 for i, f in enumerate(factors)]
            outer_logic[l] = inner_operator(inner_logic)
        out[index] = 2 * outer_operator(outer_logic) - 1

    return out


def lom_generate_data_fuzzy""", """    for index in itertools.product(*[range(n) for n in out.shape]):
        rows = [f[i, :] for i, f in zip(index, factors)]
        for l in range(L):
            for k in range(K):
                inner_logic[k] = rows[k][l] == 1
            outer_logic[l] = inner_operator(inner_logic)
        out[index] = 1 if outer_operator(outer_logic) else -1

    return out


def lom_generate_data_fuzzy"""))
r('canon-table', 'C04', (AU, """    if model_new == 'OR-AND':
        pass
    elif model_new == 'AND-NAND':
        model_new = 'OR-AND'
        invert_data = True
    elif model_new == 'OR-NOR':
        model_new = 'OR-AND'
        invert_factors = True
    elif model_new == 'AND-OR':
        model_new = 'OR-AND'
        invert_data = True
        invert_factors = True
""", """    or_and = {'OR-AND': (False, False), 'AND-NAND': (True, False),
              'OR-NOR': (False, True), 'AND-OR': (True, True)}
    if model_new in or_and:
        invert_data, invert_factors = or_and[model_new]
        model_new = 'OR-AND'
"""), (AU, """            child.val = -child.val
""", """            child.val = np.negative(child.val)
"""))
# ---- machine
r('mean-try', 'C18 C19', (MA, """        if 'trace' in dir(self):
            return np.mean(self.trace, axis=0)
        # if no trace is defined, return current state
        else:
            return self()
""", """        trace = getattr(self, 'trace', None)
        if trace is None:
            return self()
        return trace.mean(axis=0)
"""))
r('noisy', 'C18', (MA, """            out = out * aux.expit(self.lbda.mean()) +\\
                (1 - out) * aux.expit(-self.lbda.mean())
""", """            p_correct = aux.expit(self.lbda.mean())
            out = (1 - out) * (1 - p_correct) + out * p_correct
"""))
r('output-branch', 'C18 C16', (MA, """        if map_to_probabilities is True:
            return out
        else:
            return 2 * out - 1
""", """        return out if map_to_probabilities is True else out * 2 - 1
"""), (MA, """                out = np.zeros([x().shape[0] for x in self.factors])

                no_samples = self.no_samples()
                for t in range(no_samples):
                    out += aux.lom_generate_data_fast([x.sample(t)
                                                       for x in self.factors],
                                                      self.model)
                out /= no_samples
                out = (1 + out) * .5  # map to probability of emitting a 1
""", """                draws = [aux.lom_generate_data_fast([x.sample(t) for x in self.factors], self.model)
                         for t in range(self.no_samples())]
                out = np.mean([d == 1 for d in draws], axis=0)
"""))
r('infer-loops', 'C19 C20 C21 C22 C23', (MA, """            # sample mats and write to trace # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]

            if np.any([x.model == 'OR-AND-IBP' for x in mats]):
                [mat.update_trace_IBP() for mat in mats]
            else:
                [mat.update_trace() for mat in mats]

            # sample lbdas and write to trace
            [lbda.sampling_fct(lbda) for lbda in lbdas]
            [lbda.update_trace() for lbda in lbdas]
""", """            self._sweep(mats)
            is_ibp = any(x.model == 'OR-AND-IBP' for x in mats)
            for mat in mats:
                if is_ibp:
                    mat.update_trace_IBP()
                else:
                    mat.update_trace()

            for lbda in lbdas:
                lbda.sampling_fct(lbda)
                lbda.update_trace()
"""), (MA, """    def infer(self,
              no_samples=50,""", """    @staticmethod
    def _sweep(mats):
        for mat in np.random.permutation(mats):
            mat.sampling_fct(mat)

    def infer(self,
              no_samples=50,"""), (MA, """            # draw samples # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]
            [lbda.sampling_fct(lbda) for lbda in lbdas]
            [x.update_trace() for x in lbdas]
""", """            self._sweep(mats)
            for lbda in lbdas:
                lbda.sampling_fct(lbda)
            for lbda in lbdas:
                lbda.update_trace()
"""))
r('burnin-for', 'C20 C21 C22 C23 C19', (MA, """        while True:
            # stop pre-burn-in if minimum numbers of burn-in iterations is reached
            if pre_burn_in_iter == burn_in_min:
                break

            pre_burn_in_iter += 1

""", """        for pre_burn_in_iter in range(1, burn_in_min + 1):

"""))
r('shuffle', 'C19 C20 C21', (MA, """        print('drawing samples...')
        for sampling_iter in range(1, no_samples + 1):

            # sample mats and write to trace # shuffle(mats)
            [mat.sampling_fct(mat) for mat in np.random.permutation(mats)]
""", """        print('drawing samples...')
        for sampling_iter in range(1, no_samples + 1):

            order = np.random.permutation(len(mats))
            for i in order:
                mats[i].sampling_fct(mats[i])
"""))
r('anneal', 'C21', (MA, """                    for lbda, target in zip(lbdas, annealing_targets):
                        lbda.val = target * (pre_burn_in_iter / float(burn_in_min))
""", """                    fraction = pre_burn_in_iter / float(burn_in_min)
                    for i, lbda in enumerate(lbdas):
                        lbda.val = fraction * annealing_targets[i]
"""))
r('conv', 'C22 C20', (AU, """    l = int(len(trace) / 2)
    r1 = expit(np.mean(trace[:l]))
    r2 = expit(np.mean(trace[l:]))
    r = expit(np.mean(trace))

    if np.abs(r1 - r2) < eps:
        return True
    else:
        return False
""", """    half = len(trace) // 2
    first, second = [expit(part.mean()) for part in (trace[:half], trace[half:])]
    return bool(abs(first - second) < eps)
"""))
r('clean', 'C23', (AU, """            for f in layer.factors:
                if np.all(f()[:, l] == f()[:, l_prime]):
                    reduction_applied = True
                    cleaning_action(l_prime, layer)
                    break
""", """            if any(np.array_equal(f()[:, l], f()[:, l_prime]) for f in layer.factors):
                reduction_applied = True
                cleaning_action(l_prime, layer)
"""), (AU, """        f.val = np.delete(f.val, l_prime, axis=1)
        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
""", """        keep = np.arange(f.val.shape[1]) != l_prime
        f.val = f.val[:, keep]
        f.fixed_entries = f.fixed_entries[:, keep]
"""))
r('split-mask', 'C24', (EX, """    training_tensor = np.copy(tensor)
    training_tensor[mask] = 0
    test_mask = mask
""", """    test_mask = mask
    training_tensor = np.where(test_mask, 0, tensor).astype(tensor.dtype)
"""), (EX, """    num_split = int(np.sum(tensor != 0) * split)

""", """    observed = tensor != 0
    num_split = int(np.sum(observed) * split)

"""))
r('split-tt', 'C24', (AU, """        true_index_pairs = [x for x in index_pairs if data[x] == 1]
        false_index_pairs = [x for x in index_pairs if data[x] == -1]
        true_random_idx = np.random.choice(range(len(true_index_pairs)),
                                           int(num_of_zeros / 2), replace=False)
        false_random_idx = np.random.choice(range(len(false_index_pairs)),
                                            int(num_of_zeros / 2), replace=False)
        zero_idx = [true_index_pairs[i] for i in true_random_idx] + [false_index_pairs[i]
                                                                     for i in false_random_idx]
""", """        zero_idx = []
        for value in (1, -1):
            pairs = [x for x in index_pairs if data[x] == value]
            chosen = np.random.choice(len(pairs), int(num_of_zeros / 2), replace=False)
            zero_idx.extend(pairs[i] for i in chosen)
"""))
r('noise-vec', 'C25 C27', (AU, """    for n in range(X.shape[0]):
        for d in range(X.shape[1]):
            if np.random.rand() < p:
                X_intern[n, d] = -X_intern[n, d]

    return X_intern


def add_bernoulli_noise_2d_biased""", """    flip = np.random.rand(*X.shape) < p
    X_intern[flip] *= -1

    return X_intern


def add_bernoulli_noise_2d_biased"""))
r('noise-biased', 'C25', (AU, """            if X_intern[n, d] == 1:
                p = p_plus
            if X_intern[n, d] == 0:
                continue
            elif X_intern[n, d] == -1:
                p = p_minus

            if np.random.rand() < p:
                X_intern[n, d] = -X_intern[n, d]
""", """            if X_intern[n, d] != 0:
                p = {1: p_plus, -1: p_minus}[int(X_intern[n, d])]
                if np.random.random() < p:
                    X_intern[n, d] *= -1
"""))
r('noise-3d', 'C25 C27', (AU, """                if np.random.rand() < p:
                    # Boolean or {-1,0,1} coding
                    X_intern[n, d, m] = ~X_intern[n, d, m] \\
                        if X.dtype == bool else -X_intern[n, d, m]
""", """                flip = np.random.rand() < p
                if not flip:
                    continue
                if X.dtype == bool:
                    X_intern[n, d, m] = not X_intern[n, d, m]
                else:
                    X_intern[n, d, m] = -1 * X_intern[n, d, m]
"""))
r('density', 'C26 C31', (AU, """        d = Inv[0](L * invert(Inv[1](Inv[2](f)**K))**(L - 1) *
                   Inv[1](Inv[2](f)**K))
""", """        p = Inv[1](Inv[2](f)**K)
        d = Inv[0](L * p * (1 - p)**(L - 1))
"""), (AU, """    for i, indicator in enumerate(Inv):
        if indicator is True:
            Inv[i] = invert
        else:
            Inv[i] = identity
""", """    Inv = [invert if indicator else identity for indicator in Inv]
"""))
r('fsolve-array', 'C31', (AU, """    best = 1e10
    for tau_initial_guess in [.01, .25, .5, .75, .99]:
        tau_solution = fsolve(func, tau_initial_guess,
                              maxfev=int(1e6), full_output=False,
                              xtol=1e-10, factor=10)
        if np.abs(func(tau_solution)[0]) < best:
            best = np.abs(func(tau_solution)[0])
            best_solution = tau_solution
""", """    candidates = []
    for guess in (.01, .25, .5, .75, .99):
        tau = fsolve(func, guess, maxfev=int(1e6), full_output=False,
                     xtol=1e-10, factor=10)
        candidates.append((np.abs(func(tau)[0]), tau))
    best, best_solution = min(candidates, key=lambda c: c[0])
"""))
r('bp', 'C34', (AU, """    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]

    if N != n:
        bp_new = [-np.inf for i in range(N)]
        bp_new[:n] = bp
        bp = bp_new
    return np.array(bp, dtype=float)
""", """    bp = np.full(max(N, n), -np.inf)
    for k, odds in enumerate(exp_bp):
        if odds > 0:
            bp[k] = np.log(odds)
    return bp
"""), (AU, """    seen = set()
    seen_add = seen.add
    return [x for x in seq if not (x in seen or seen_add(x))]
""", """    out = []
    for x in seq:
        if x not in out:
            out.append(x)
    return out
"""))
r('roc', 'C28', (AU, """    zero_idx = np.where(data_train == 0)
    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
    auc = sklearn.metrics.roc_auc_score(
        [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])

    return auc
""", """    hidden = data_train == 0
    return sklearn.metrics.roc_auc_score(data[hidden] == 1, prediction[hidden])
"""))
r('predictive', 'C28 C35', (EX, """    truth = (-2 * layer.invert_data + 1) * X[train_mask] == 1
""", """    truth = X[train_mask] == (-1 if layer.invert_data else 1)
"""), (EX, """    for machine in machines:
        for L_init in L_inits:
            for random_idx in random_idxs:
                experiment_parms.append(
                    [X, X_train, train_mask, machine, L_init,
                     random_idx, lbda_init, anneal])
""", """    import itertools
    experiment_parms = [[X, X_train, train_mask, machine, L_init, random_idx, lbda_init, anneal]
                        for machine, L_init, random_idx
                        in itertools.product(machines, L_inits, random_idxs)]
"""))
r('tensorm', 'C35', (EX, """    if not X.dtype == np.int8:
        X = np.array(X, dtype=np.int8)

    if np.all([y in [0, 1] for y in np.unique(X)]):
        X = 2 * X - 1

    p_init = hyperparms[0]
    lbda_init = hyperparms[1]

    orm = lom.Machine()
    data = orm.add_matrix(X, fixed=True)
    layer = orm.add_layer(
        child=data, latent_size=L, model='OR-AND')
""", """    X = X.astype(np.int8)

    if set(np.unique(X)) <= {0, 1}:
        X = np.where(X == 1, 1, -1).astype(np.int8)

    orm = lom.Machine()
    data = orm.add_matrix(val=X, fixed=True)
    layer = orm.add_layer(model='OR-AND', child=data, latent_size=L)
"""))
r('wrappers-helper', 'C08 C09 C10 C11 C16 C29', (MW, """            def LOM_sampler(mat):
                # numba_mu.draw_OR_AND_2D(
                sample(
                    mat(),
                    mat.fixed_entries,
                    *[x() for x in mat.siblings],
                    mat.layer.child().transpose(transpose_order),
                    mat.layer.lbda(),
                    np.float64(logit(mat.bernoulli_prior)))

            return LOM_sampler

        # one child, one parent""", """            def LOM_sampler(mat):
                data = np.transpose(mat.layer.child(), transpose_order)
                args = [mat(), mat.fixed_entries]
                args.extend(sibling() for sibling in mat.siblings)
                prior = np.float64(logit(mat.bernoulli_prior))
                sample(*args, data, mat.layer.lbda(), prior)

            return LOM_sampler

        # one child, one parent"""), (MW, """    return (layer.model + '-' + str(layer.dimensionality) + 'D').replace('-', '_')
""", """    return '%s_%dD' % (layer.model.replace('-', '_'), layer.dimensionality)
"""))
r('init-where', 'C27 C10 C30', (MA, """            self.val = 2 * np.array(np.random.rand(*shape) > val,
                                    dtype=np.int8) - 1
        else:
            self.val = 2 * np.array(np.random.rand(*shape) > .5,
                                    dtype=np.int8) - 1
""", """            self.val = np.where(np.random.rand(*shape) > val, 1, -1).astype(np.int8)
        else:
            self.val = np.where(np.random.random(shape) > .5, 1, -1).astype(np.int8)
"""))
r('orm-product', 'C30', (AU, """    X = np.array(np.dot(Z == 1, U.transpose() == 1), dtype=np.int8)

    # map to {-1, 0, 1} reprst.
    X = 2 * X - 1
    U = 2 * U - 1
    Z = 2 * Z - 1

    return U, Z, X
""", """    U, Z = [np.where(mat == 1, 1, -1).astype(np.int8) for mat in (U, Z)]
    X = np.zeros((N, D), dtype=np.int8)
    for n in range(N):
        for d in range(D):
            X[n, d] = 1 if np.any((Z[n] == 1) & (U[d] == 1)) else -1

    return U, Z, X
"""))
r('trace-alloc', 'C19 C20 C17', (MA, """            self.trace = np.empty([no_of_samples] +
                                  [x for x in self.val.shape],
                                  dtype=self().dtype)
""", """            self.trace = np.zeros((no_of_samples,) + self.val.shape, dtype=self.val.dtype)
"""), (MA, """        self.trace[self.trace_index] = self.val
        self.trace_index += 1

    def mean""", """        i = self.trace_index
        self.trace[i] = self.val
        self.trace_index = i + 1

    def mean"""))
r('btp', 'C02 C27', (AU, """                if np.any([(Z[n, l] == True) and
                           (U[d, l] == True) and
                           (V[m, l] == True)
                           for l in range(L)]):
                    X[n, d, m] = True
    return X
""", """                X[n, d, m] = any(Z[n, l] and U[d, l] and V[m, l] for l in range(L))
    return X
"""))
r('btp-einsum', 'C02 C27', (AU, """    for n in range(N):
        for d in range(D):
            for m in range(M):
                if np.any([(Z[n, l] == True) and
                           (U[d, l] == True) and
                           (V[m, l] == True)
                           for l in range(L)]):
                    X[n, d, m] = True
    return X
""", """    for l in range(L):
        X |= (Z[:, None, None, l] & U[None, :, None, l] & V[None, None, :, l]).astype(bool)
    return X
"""))


def main(ids):
    bad = 0
    for rid, props, edits in R:
        if ids and rid not in ids and not any(i in props for i in ids if i.startswith('C')):
            continue
        w = tempfile.mkdtemp(prefix='refac.', dir='/tmp')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
            ok = True
            for f, old, new in edits:
                p = os.path.join(w, 'r', f)
                s = open(p).read()
                if s.count(old) < 1:
                    print('%s: no match in %s for\n%s' % (rid, f, old[:200]))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new, 1))
            if not ok:
                bad += 1
                continue
            for c in props:
                t = time.time()
                env = dict(os.environ, SX_REPO=w + '/r', SX_EVIDENCE=w + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
                o = subprocess.run(['timeout', '880', '/verif/run.sh', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd='/verif')
                out = o.stdout.decode(errors='replace').strip().split('\n')
                print('%-18s %s rc=%d %.0fs %s' % (rid, c, o.returncode, time.time() - t, '' if o.returncode == 0 else '\n'.join(x[:250] for x in out[:4])), flush=True)
                bad += o.returncode != 0
        finally:
            shutil.rmtree(w)
    print('%d alarms' % bad)


if __name__ == '__main__':
    main(sys.argv[1:])
