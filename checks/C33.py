"""The parameters of composed models: listing, selection, replacement."""
import copy
import itertools
import numpy as np
import torch
import beer
from beer.graph import CompiledGraph
from mc import bmodels as B
from mc import weights as W
from mc.core import tonp

PROP = 'C33'
CHUNK = 4
BOUNDS = {
    'quick': 'every composition of collections of models up to depth 2 '
             '(Normals, mixtures, repetitions, concatenations of 2) x 3 '
             'covariances x every use (alone, Mixture, HMM, phone-loop with '
             '5 kinds of weights, VAE); every subset of the parameters is '
             'selected and replaced; one update after the replacement',
    'thorough': 'compositions up to depth 3',
}
ASSUMPTIONS = ['only the parameters of the emissions are replaced (the '
               'weights of a phone-loop notify the graph through a callback '
               'which is registered at construction)']
TOPS = ['alone', 'Mixture', 'HMM', 'VAE', 'loop-dirichlet', 'loop-sb',
        'loop-sbhyper', 'loop-bigram', 'loop-hsb']


def trees(depth):
    'Compositions with 4 elements (or 8 before a mixture).'
    if depth == 0:
        return ['n']
    out = list(trees(depth - 1))
    for t in trees(depth - 1):
        for new in [('m', t), ('r', t)] + [
                ('j', a, b) for a, b in itertools.product(
                    trees(depth - 1), repeat=2) if t in (a, b)]:
            if new not in out:
                out.append(new)
    return out


def cases(tier):
    small = trees(2)
    every = list(small)
    if tier == 'thorough':
        for t in small:
            for new in (('m', t), ('r', t), ('j', t, 'n'), ('j', 'n', t)):
                if new not in every:
                    every.append(new)
    for t in every:
        for i, cov in enumerate(B.COVS):
            for j, top in enumerate(TOPS):
                if (i + j) % 3 and leaves(t) > 3 and tier == 'quick':
                    continue
                yield {'t': t, 'cov': cov, 'top': top}


def leaves(t):
    if t == 'n':
        return 1
    return sum(leaves(x) for x in t[1:]) + (t[0] == 'm')


def build(t, cov, n, salts, params):
    '''Collection of `n` models. The parameters are added to `params`; their
    values depend on the successive `salts`.'''
    t = t if isinstance(t, str) else tuple(t)
    if t == 'n':
        m = B.normalset(cov, n, 2, next(salts))
        params.append(m.means_precisions)
        return m
    if t[0] == 'm':
        inner = build(t[1], cov, 2 * n, salts, params)
        salt = next(salts)
        conc = [torch.tensor([[.5 + ((3 * i + 5 * j + s) % 7)
                               for j in range(2)] for i in range(n)])
                for s in (salt, salt + 2)]
        param = beer.ConjugateBayesianParameter(*[
            beer.dists.Dirichlet.from_std_parameters(c) for c in conc])
        params.append(param)
        return beer.MixtureSet(beer.CategoricalSet(param), inner)
    if t[0] == 'r':
        return beer.RepeatedModelSet(
            build(t[1], cov, n // 2, salts, params), 2)
    return beer.JointModelSet([build(x, cov, n // 2, salts, params)
                               for x in t[1:]])


def size(t):
    'Smallest number of elements.'
    if isinstance(t, str):
        return 1
    return {'m': lambda: max(1, size(t[1]) // 2),
            'r': lambda: 2 * size(t[1]),
            'j': lambda: 2 * max(size(x) for x in t[1:])}[t[0]]()


def make(case, salts):
    params = []
    n = size(case['t'])
    while n < 4:
        n *= 2
    ms = build(case['t'], case['cov'], n, iter(salts), params)
    top = case['top']
    weights = []
    if top == 'alone':
        return ms, params, weights
    if top == 'Mixture':
        w = W.make('dirichlet', 4)[0] if n == 4 else \
            beer.Categorical.create(torch.ones(n) / n, 2.)
        return beer.Mixture(w, ms), params, [w.weights]
    trans = np.array([[1. + (i + 2 * j) % 3 for j in range(n)]
                      for i in range(n)])
    trans /= trans.sum(1, keepdims=True)
    init = np.ones(n) / n
    g = CompiledGraph(*[torch.tensor(x).log() for x in (init, init, trans)],
                      list(range(n)))
    if top in ('HMM', 'VAE'):
        hmm = beer.HMM.create(g, ms)
        if top == 'HMM':
            return hmm, params, weights
        net = beer.nnet.ResidualFeedForwardNet
        return beer.VAE(hmm, net(2, 1, 2), net(2, 1, 2)), params, weights
    kind = top.split('-')[1]
    w = W.make(kind, 2)[0]
    cls = beer.BigramPhoneLoop if kind in W.BIGRAM else beer.PhoneLoop
    weights = [p for p in w.modules()
               if isinstance(p, beer.BayesianParameter)]
    if kind == 'hsb':
        weights = weights[:]
    return cls.create(g, {'a': 0, 'b': 2}, {'a': 1, 'b': n - 1}, ms, w), \
        params, weights


def uses(top, model, X):
    'Value of the model and statistics of its parameters.'
    m = model.prior if top == 'VAE' else model
    st = m.sufficient_statistics(X)
    if top == 'alone':
        llh = m.expected_log_likelihood(st)
        resps = torch.softmax(torch.tensor(
            [[((3 * t + 7 * k) % 5) * .4 for k in range(len(m))]
             for t in range(len(X))]), -1)
        return llh, m.accumulate(st, resps)
    llh = m.expected_log_likelihood(st)
    acc = m.accumulate(st)
    m.clear_cache()
    return llh, acc


def plain(params):
    return [id(p) for p in params]


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    X = B.data(3)
    n = leaves_count = len(make(case, range(0, 200, 3))[1])
    model, params, weights = make(case, range(0, 200, 3))
    what = f'{case}'

    # Every parameter is listed once, and each belongs to one group.
    listed = list(model.bayesian_parameters())
    cx.same(len(set(plain(listed))), len(listed), f'listed twice: {what}')
    must = set(plain(params + weights))
    if case['top'] in ('loop-sbhyper', 'loop-hsb'):
        # The parameters above the weights are updated along with them.
        must = set(plain(params)) | (set(plain(weights)) & set(plain(listed)))
        cx.same(len(must) - len(params), 1, f'listed weights: {what}')
    cx.same(set(plain(listed)), must, f'listed parameters: {what}')
    groups = list(model.bayesian_parameters(keepgroups=True))
    cx.same(sorted(plain(sum(groups, []))), sorted(must),
            f'groups of parameters: {what}')
    cx.same(plain(model.conjugate_bayesian_parameters()), plain(listed),
            f'conjugate parameters: {what}')
    cx.same([plain(g) for g in
             model.conjugate_bayesian_parameters(keepgroups=True)],
            [plain(g) for g in groups], f'conjugate groups: {what}')
    cx.same(list(model.bayesian_parameters(
        paramtype=beer.BayesianParameter)), [], f'other type: {what}')
    cx.same([id(p) for p in model.modules()
             if id(p) in set(plain(listed))].__len__(), len(listed),
            f'parameters among the modules: {what}')
    kl = sum(float(beer.dists.kl_div(p.posterior, p.prior).sum())
             for p in listed)
    cx.close(float(model.kl_div_posterior_prior().sum()), kl,
             f'divergence of all the parameters: {what}')
    llh, acc = uses(case['top'], model, X)
    cx.same(set(plain(acc)), must, f'parameters with statistics: {what}')
    vec = np.concatenate([
        (B.nparams(p.posterior) - B.nparams(p.prior)).reshape(-1)
        for p in listed])
    cx.close(model.accumulated_statistics(), vec,
             f'vector of the statistics: {what}')
    cx.step(6)

    top = case['top']
    for mask in itertools.product((0, 1), repeat=min(n, 5)):
        mask = mask + (mask[0],) * (n - len(mask))
        where = f'{what}, subset {mask}'
        A, pA, _ = make(case, range(0, 200, 3))
        chosen = [p for p, m in zip(pA, mask) if m]
        sel = set(plain(chosen))
        listed = list(A.bayesian_parameters())
        got = list(A.bayesian_parameters(paramfilter=lambda p: id(p) in sel))
        cx.same(plain(got), [i for i in plain(listed) if i in sel],
                f'selected parameters: {where}')
        got = list(A.bayesian_parameters(paramfilter=lambda p: id(p) in sel,
                                         keepgroups=True))
        cx.check(all(got), f'empty group: {where}')
        cx.same(sorted(plain(sum(got, []))), sorted(sel),
                f'selected groups: {where}')
        # Replacement: the model is then the one built with the new ones.
        salts = [3 * i + (100 if i < n and mask[i] else 0)
                 for i in range(60)]
        Bm, pB, wB = make(case, salts)
        _, pN, _ = make(case, salts)
        before = {id(p): B.nparams(p.posterior) for p in chosen}
        repl = {a: b for a, b, m in zip(pA, pN, mask) if m}
        given = list(repl.items())
        A.replace_parameters(repl)
        cx.same([(id(a), id(b)) for a, b in repl.items()],
                [(id(a), id(b)) for a, b in given],
                f'replacements modified: {where}')
        now = [b if m else a for a, b, m in zip(pA, pN, mask)]
        new = {id(a): id(b) for a, b in zip(pA, now)}
        cx.same(plain(A.bayesian_parameters()),
                [new.get(i, i) for i in plain(listed)],
                f'parameters after a replacement: {where}')
        la, accA = uses(top, A, X)
        lb, accB = uses(top, Bm, X)
        cx.close(la, lb, f'value after a replacement: {where}')
        cx.close(A.kl_div_posterior_prior().sum(),
                 Bm.kl_div_posterior_prior().sum(),
                 f'divergence after a replacement: {where}')
        for a, b in zip(now, pB):
            cx.check(a in accA, f'no statistics for the new parameter: '
                                f'{where}')
            cx.close(accA[a], accB[b],
                     f'statistics after a replacement: {where}')
        # One update of the two.
        for m, acc in ((A, accA), (Bm, accB)):
            optim = beer.VBConjugateOptimizer(
                m.conjugate_bayesian_parameters(keepgroups=True), .6)
            optim.init_step()
            for p, s in acc.items():
                p.store_stats(s)
            optim.step()
        for a, b in zip(now, pB):
            cx.close(B.nparams(a.posterior), B.nparams(b.posterior),
                     f'update after a replacement: {where}')
        cx.close(uses(top, A, X)[0], uses(top, Bm, X)[0],
                 f'value after an update: {where}')
        for p in chosen:
            cx.close(B.nparams(p.posterior), before[id(p)],
                     f'replaced parameter modified: {where}')
        cx.step(5)
        cx.state(what, mask)
        cx.trace()
    cx.label(top.split('-')[0])
