"""Collections of models: concatenated, repeated, reordered, in any nesting."""
import itertools
import numpy as np
import torch
import beer
from mc import bmodels as B
from mc.graphs import gen
from mc.refmodels import RefNormals

PROP = 'C17'
CHUNK = 4
BOUNDS = {
    'quick': '3 covariances x all the concatenations of <= 3 sets of 1-2 '
             'Normals x {1, 2, 3} repetitions x every order (with repetitions) '
             'of <= 3 elements; nesting of depth 2; every index',
    'thorough': 'orders of <= 4 elements, sets of 1-3 Normals',
}


def cases(tier):
    big = tier == 'thorough'
    sizes = (1, 2, 3) if big else (1, 2)
    for cov in B.COVS:
        for k in (1, 2, 3):
            for parts in itertools.product(sizes, repeat=k):
                yield {'k': 'joint', 'cov': cov, 'parts': list(parts),
                       'L': 4 if big else 3}
        for n in (1, 2, 3):
            for rep in (1, 2, 3):
                yield {'k': 'repeat', 'cov': cov, 'n': n, 'rep': rep,
                       'L': 4 if big else 3}


def make(case):
    if case['k'] == 'joint':
        sets = [B.normalset(case['cov'], n, 2, 7 * i)
                for i, n in enumerate(case['parts'])]
        model = beer.JointModelSet(sets)
        elems = [(i, j) for i, n in enumerate(case['parts'])
                 for j in range(n)]
    else:
        sets = [B.normalset(case['cov'], case['n'], 2, 3)]
        model = beer.RepeatedModelSet(sets[0], case['rep'])
        elems = [(0, j) for _ in range(case['rep'])
                 for j in range(case['n'])]
    return sets, model, elems


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    sets, model, elems = make(case)
    refs = [RefNormals.read(case['cov'], s.means_precisions) for s in sets]
    n = len(elems)
    for T in (1, 2, 3):
        X = B.data(T, salt=T)
        llh = [r.ellh(X.numpy()) for r in refs]
        want = np.stack([llh[i][:, j] for i, j in elems], 1)
        st = model.sufficient_statistics(X)

        def check_acc(acc, w, what):
            'w: weights of the elements [T, n].'
            acc = {p.uuid: a for p, a in acc.items()}
            cx.same(len(acc), len(sets), f'updated parameters, {what}')
            for i, s in enumerate(sets):
                r = np.zeros((T, len(s)))
                for k, (a, b) in enumerate(elems):
                    if a == i:
                        r[:, b] += w[:, k]
                cx.close(acc[s.means_precisions.uuid], r.T @ st.numpy(),
                         f'statistics of the set {i}, {what}')

        what = f'{case} T={T}'
        cx.same(len(model), n, f'size, {what}')
        cx.close(model.expected_log_likelihood(st), want,
                 f'log-likelihood, {what}')
        w = np.array([[gen(t, k, 5) for k in range(n)] for t in range(T)])
        check_acc(model.accumulate(st, torch.tensor(w)), w, what)
        for k in range(n):
            m = model[k]
            cx.check(isinstance(m, beer.Normal), f'element {k}, {what}')
            cx.close(m.expected_log_likelihood(st).reshape(-1), want[:, k],
                     f'element {k}, {what}')
            # The element has the statistics stored for it in the set.
            a, b = elems[k]
            param = sets[a].means_precisions
            param.store_stats(torch.tensor(
                [[gen(a, s, d, T) for d in range(st.shape[1])]
                 for s in range(len(sets[a]))]))
            cx.close(model[k].mean_precision.stats.reshape(-1),
                     [gen(a, b, d, T) for d in range(st.shape[1])],
                     f'statistics of the element {k}, {what}')
            # Training an element has no effect on the set.
            stored = param.stats.clone()
            for e in (model[k], sets[a][b:b + 1]):
                p = e.mean_field_factorization()[0][0]
                cx.close(p.stats.reshape(-1), stored[b],
                         f'statistics of the element {k}, {what}')
                opt = beer.VBConjugateOptimizer(
                    e.mean_field_factorization(), lrate=.5)
                opt.init_step()
                p.store_stats(2. * torch.ones_like(p.stats))
                p.stats[..., -2:] = 3.
                p.zero_stats()
                opt.step()
                cx.close(param.stats, stored, 'statistics of the set after '
                         f'the training of the element {k}, {what}')
                cx.close(model.expected_log_likelihood(st), want,
                         f'set after the training of the element {k}, {what}')
                cx.step()
            param.zero_stats()
        if case['k'] == 'joint':
            cx.raises(IndexError, lambda: model[n], f'element {n}, {what}')
            for k in range(1, n + 1):
                cx.raises(ValueError, lambda: model[-k],
                          f'element {-k}, {what}')
        cx.step(n + 2)
        groups = model.mean_field_factorization()
        cx.same([[p.uuid for p in g] for g in groups],
                [[s.means_precisions.uuid for s in sets]],
                f'mean-field groups, {what}')
        # Any order of the elements, the same one several times.
        dyn = beer.DynamicallyOrderedModelSet(model)
        cx.close(dyn.expected_log_likelihood(dyn.sufficient_statistics(X)),
                 want, f'default order, {what}')
        for L in range(1, case['L'] + 1):
            for order in itertools.product(range(n), repeat=L):
                if n ** L > 300 and len(set(order)) not in (1, L):
                    continue
                got = dyn.expected_log_likelihood(st, list(order))
                cx.close(got, want[:, list(order)],
                         f'order {order}, {what}')
                w = np.array([[gen(t, k, 6) for k in range(L)]
                              for t in range(T)])
                full = np.zeros((T, n))
                for k, o in enumerate(order):
                    full[:, o] += w[:, k]
                check_acc(dyn.accumulate(st, torch.tensor(w)), full,
                          f'order {order}, {what}')
                cx.step(2)
                cx.state(what, order)
        # Nested.
        rep = beer.RepeatedModelSet(model, 2)
        both = np.concatenate([want, want], 1)
        cx.close(rep.expected_log_likelihood(st), both, f'nested, {what}')
        w = np.array([[gen(t, k, 8) for k in range(2 * n)] for t in range(T)])
        check_acc(rep.accumulate(st, torch.tensor(w)), w[:, :n] + w[:, n:],
                  f'nested, {what}')
        for k in range(2 * n):
            cx.close(rep[k].expected_log_likelihood(st).reshape(-1),
                     both[:, k], f'element {k} nested, {what}')
        cx.same(len(rep), 2 * n, f'size nested, {what}')
        cx.step(3)
        cx.trace()
    cx.label(case['k'])
