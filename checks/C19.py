"""Distributions over the categories: Dirichlet, stick-breaking (with or
without hyper-prior), sets of Dirichlet, hierarchical stick-breaking, after
every history of updates."""
import itertools
import math
import numpy as np
import torch
from scipy.special import gammaln
import beer
from mc import weights as W
from mc.core import tonp
from mc.refmodels import dirkl, gkl

PROP = 'C19'
CHUNK = 16
BOUNDS = {
    'quick': '5 kinds x 1-4 categories: all histories of <= 3 updates among 6 '
             'count vectors (ties, zeros, extreme) x 2 learning rates, every '
             'permutation of the counts; hierarchical sets: every ordering of '
             'the root x 1-3 elements x histories of <= 2 updates',
    'thorough': 'histories of <= 4 updates (hierarchical: 3)',
}
COUNTS = [(3., 1., 2., 5.), (.5, 7., 4., 0.), (0., 0., 0., 0.),
          (2., 2., 1., 2.), (1e5, .25, 3e3, 0.), (0., .2, .1, .3)]
OPS = [(i, lr) for i in range(len(COUNTS)) for lr in (1., .3)]


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in ('dirichlet', 'sb', 'sbhyper'):
        for K in (1, 2, 3, 4):
            for k in range(n + 1):
                for ops in itertools.product(range(len(OPS)), repeat=k):
                    if k == n and ops[0] % 2 and ops[-1] % 2:
                        continue
                    yield {'k': 'one', 'kind': kind, 'K': K, 'ops': list(ops)}
    for K in (1, 2, 3, 4):
        yield {'k': 'defaults', 'K': K}
    for kind in ('dirichlet', 'sb', 'sbhyper'):
        for perm in itertools.permutations(range(4)):
            yield {'k': 'perm', 'kind': kind, 'perm': list(perm)}
    for K in (1, 2, 3):
        for order in itertools.permutations(range(K)):
            for S in (1, 2, 3):
                for k in range(n):
                    for ops in itertools.product(range(len(OPS)), repeat=k):
                        if k == n - 1 and (S == 2 or (k > 1 and S != K)):
                            continue
                        yield {'k': 'hsb', 'K': K, 'S': S,
                               'order': list(order), 'ops': list(ops)}
    for K in (1, 2, 3):
        for S in (1, 2, 3):
            for k in range(3):
                for ops in itertools.product(range(len(OPS)), repeat=k):
                    yield {'k': 'set', 'K': K, 'S': S, 'ops': list(ops)}


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)
    cx.trace()
    cx.label(case['k'])


def onehot(K):
    return torch.eye(K)


def elogs(model, K):
    return model.expected_log_likelihood(
        model.sufficient_statistics(onehot(K)))


def nelbo_kl(model, ref, cx):
    kl = dirkl(ref.post, ref.prior).sum()
    cx.close(float(ref_kl(model)), float(kl), 'divergence to the prior',
             rtol=1e-6, atol=1e-7)


def ref_kl(model):
    (group,) = model.mean_field_factorization()
    (param,) = group
    return param.kl_div_posterior_prior().sum().detach()


def compare(cx, model, ref, K, what):
    cx.close(model.mean, ref.mean(), what + ': mean', rtol=1e-7)
    eye = onehot(K)
    stats = model.sufficient_statistics(eye)
    llh = tonp(model.expected_log_likelihood(stats)).reshape(-1)
    cx.close(llh, ref.elog(), what + ': expected log-probabilities')
    # Mixed weights are linear.
    w = torch.arange(1., 2 * K + 1).view(2, K) / 7
    cx.close(tonp(model.expected_log_likelihood(
        model.sufficient_statistics(w))).reshape(-1),
             tonp(w) @ ref.elog(), what + ': weighted expected log-probability')
    nelbo_kl(model, ref, cx)


def run_one(case, cx):
    kind, K = case['kind'], case['K']
    model, ref = W.make(kind, K)
    cands = [ref]
    compare(cx, model, ref, K, 'initial')
    for i, op in enumerate(case['ops']):
        c, lr = OPS[op]
        counts = np.array(COUNTS[c][:K])
        W.store(model, counts)
        for group in model.mean_field_factorization():
            for p in group:
                p.natural_grad_update(lr)
        cx.step()
        new = [x for r in cands for x in r.candidates(counts, lr)]
        llh = tonp(elogs(model, K)).reshape(-1)
        ref = W.match(cx, new, llh, f'expected log-probabilities, update {i}')
        cands = [r for r in new if np.allclose(r.elog(), ref.elog(),
                                               rtol=1e-7, atol=1e-9)
                 and np.allclose(r.post, ref.post)]
        cx.state(kind, K, c, lr, np.round(ref.post, 9).tobytes())
    compare(cx, model, ref, K, 'final')
    if kind == 'sbhyper' and case['ops']:
        conc = model.concentration
        shape = .8 + K
        rate = .8 / 1.7 - ref.elogs()[1].sum()
        cx.close(conc.value(), [shape / rate], 'concentration')
    m = tonp(model.mean)
    cx.check((m >= 0).all() and m.sum() <= 1 + 1e-9, 'mean is not a '
             f'(sub-)distribution: {m}')


def run_perm(case, cx):
    """Renaming the categories renames the result."""
    perm = case['perm']
    for c in ([9., 4., 2., .5], [30., 8., 7., 1.]):
        res = []
        for p in (list(range(4)), perm):
            model, _ = W.make(case['kind'], 4)
            if case['kind'] == 'dirichlet':
                model = beer.Categorical.create(torch.ones(4) / 4, 2.)
            for k in (1, 2):
                counts = np.array(c)[p] * k
                W.store(model, counts)
                for group in model.mean_field_factorization():
                    for prm in group:
                        prm.natural_grad_update(1.)
                cx.step()
            res.append((tonp(model.mean), tonp(
                elogs(model, 4)).reshape(-1)))
        cx.close(res[1][0], res[0][0][perm], 'mean after renaming')
        cx.close(res[1][1], res[0][1][perm],
                 'expected log-probabilities after renaming')
        cx.state(case['kind'], tuple(perm), tuple(c))


def beta_elogs(post):
    from scipy.special import digamma
    t = digamma(post.sum(-1))
    return digamma(post[..., 0]) - t, digamma(post[..., 1]) - t


def run_defaults(case, cx):
    'Concentrations of the models which are created, with the defaults or not.'
    K = case['K']

    def is_param(p, want, what, dists=None):
        for q in dists or (p.prior, p.posterior):
            cx.close(tonp(q.params.concentrations).reshape(want.shape), want,
                     f'{what} K={K}')
        cx.step()
    w = np.array([1. + ((3 * k) % 4) for k in range(K)])
    w /= w.sum()
    for kw, strength in (({}, 1.), ({'prior_strength': 4.5}, 4.5)):
        what = f'strength={kw}'
        m = beer.Categorical.create(torch.tensor(w), **kw)
        is_param(m.weights, strength * w, f'categorical {what}')
        cx.close(m.mean, w, f'mean of the categorical {what}')
        ws = np.stack([np.roll(w, s) for s in range(3)])
        m = beer.CategoricalSet.create(torch.tensor(ws), **kw)
        is_param(m.weights, strength * ws, f'set {what}')
        for s in range(3):
            is_param(m[s].weights, strength * ws[s], f'element {s} {what}')
            cx.close(tonp(m[s].mean).reshape(-1), ws[s],
                     f'mean of the element {s} {what}')
        is_param(m[1:].weights, strength * ws[1:], f'slice {what}')
        sb = np.tile([1., strength], (K, 1))
        root = beer.SBCategorical.create(K, **kw)
        is_param(root.stickbreaking, sb, f'stick-breaking {what}')
        for kh, hyper in (({}, 1.), ({'hyper_prior_strength': 2.5}, 2.5)):
            m = beer.SBCategoricalHyperPrior.create(K, **kw, **kh)
            is_param(m.stickbreaking, sb, f'stick-breaking {what} {kh}')
            for q in (m.concentration.prior, m.concentration.posterior):
                cx.close(tonp(q.params.shape).reshape(-1), [hyper],
                         f'shape {what} {kh}')
                cx.close(tonp(q.params.rate).reshape(-1), [hyper / strength],
                         f'rate {what} {kh}')
        m = beer.SBCategoricalSet.create(2, root, **kw)
        mean = tonp(root.mean)
        prior = np.stack([strength * mean,
                          strength * (1 - np.cumsum(mean))], -1)
        is_param(m.stickbreaking, np.stack([prior] * 2).reshape(-1, 2),
                 f'hierarchical {what}', [m.stickbreaking.prior])
        is_param(m.stickbreaking, np.stack([sb] * 2).reshape(-1, 2),
                 f'hierarchical {what}', [m.stickbreaking.posterior])
    cx.state('defaults', K)


def run_hsb(case, cx):
    K, S, order = case['K'], case['S'], case['order']
    root = beer.SBCategorical.create(K, 1.7)
    rref = W.RefStick(K, 1.7)
    counts = np.zeros(K)
    counts[order] = np.array([6., 3., 1.])[:K]
    W.store(root, counts)
    root.stickbreaking.natural_grad_update(1.)
    rref.update(counts, 1., order)
    strength = 2.5
    model = beer.SBCategoricalSet.create(S, root, strength)
    prior = tonp(model.stickbreaking.prior.params.concentrations)
    prior = prior.reshape(S, K, 2)
    # A priori, the expected weights are those of the root.
    want = np.zeros((K, 2))
    left = 1.
    for k in order:
        left -= rref.mean()[k]
        want[k] = strength * rref.mean()[k], strength * left
    cx.close(prior, np.array([want] * S), 'prior of the set', atol=1e-12)
    mean = np.zeros(K)
    left = 1.
    for k in order:
        m = prior[0, k, 0] / prior[0, k].sum()
        mean[k] = left * m
        left *= 1 - m
    cx.close(mean, rref.mean(), 'mean of the prior of the set')
    post = np.array([rref.post] * S)
    check_hsb(cx, model, prior, post, order, 'initial')
    for op in case['ops']:
        c, lr = OPS[op]
        cnt = np.array([np.roll(COUNTS[c][:K], s) * (s + 1)
                        for s in range(S)])
        # Joint responsibilities summing to the counts.
        joint = model.sufficient_statistics(
            torch.tensor(np.stack([cnt * .25, cnt * .75])))
        for param, acc in model.accumulate_from_jointresps(joint).items():
            param.store_stats(acc)
        model.stickbreaking.natural_grad_update(lr)
        cx.step()
        tgt = prior.copy()
        for s in range(S):
            rest = cnt[s].sum()
            for k in order:
                rest -= cnt[s, k]
                tgt[s, k] += [cnt[s, k], rest]
        post = (1 - lr) * post + lr * tgt
        check_hsb(cx, model, prior, post, order, f'update {op}')
        cx.state(S, K, tuple(order), np.round(post, 9).tobytes())


def check_hsb(cx, model, prior, post, order, what):
    S, K, _ = post.shape
    lv, l1v = beta_elogs(post)
    elog, mean = np.zeros((S, K)), np.zeros((S, K))
    for s in range(S):
        acc, left = 0., 1.
        for k in order:
            elog[s, k] = lv[s, k] + acc
            acc += l1v[s, k]
            m = post[s, k, 0] / post[s, k].sum()
            mean[s, k] = left * m
            left *= 1 - m
    cx.close(model.mean, mean, what + ': mean of the set')
    cx.close(elogs(model, K), elog.T,
             what + ': expected log-probabilities of the set')
    kl = dirkl(post.reshape(-1, 2), prior.reshape(-1, 2)).sum()
    cx.close(float(ref_kl(model)), float(kl), what + ': divergence',
             rtol=1e-6, atol=1e-7)


def run_set(case, cx):
    K, S = case['K'], case['S']
    w = np.array([[1. + ((s * 5 + k * 3) % 4) for k in range(K)]
                  for s in range(S)])
    w = w / w.sum(1, keepdims=True)
    model = beer.CategoricalSet.create(torch.tensor(w), 3.)
    ref = W.RefDirichlet(w * 3.)
    cx.same(len(model), S, 'number of elements')
    for op in case['ops']:
        c, lr = OPS[op]
        cnt = np.array([np.roll(COUNTS[c][:K], s) * (s + 1)
                        for s in range(S)])
        joint = model.sufficient_statistics(
            torch.tensor(np.stack([cnt * .25, cnt * .75])))
        for param, acc in model.accumulate_from_jointresps(joint).items():
            param.store_stats(acc)
        model.weights.natural_grad_update(lr)
        ref.update(cnt, lr)
        cx.step()
        cx.state(S, K, np.round(ref.post, 9).tobytes())
    cx.close(model.mean, ref.mean(), 'mean of the set')
    cx.close(elogs(model, K), ref.elog().T,
             'expected log-probabilities of the set')
    # Statistics of data weighted by the responsibilities.
    X = torch.tensor([[1. + ((t + k) % 3) for k in range(K)]
                      for t in range(4)])
    R = torch.tensor([[.1 + ((t + 2 * s) % 3) for s in range(S)]
                      for t in range(4)])
    acc = model.accumulate(model.sufficient_statistics(X), R)
    want = tonp(R).T @ tonp(X)
    cx.close(list(acc.values())[0], np.hstack(
        [want[:, :-1], want.sum(1, keepdims=True)]),
             'statistics of the set')
    for key in list(range(S)) + [slice(a, b) for a in range(S)
                                 for b in range(a + 1, S + 1)]:
        sub = model[key]
        if isinstance(key, int):
            cx.close(tonp(elogs(sub, K)).reshape(-1),
                     ref.elog()[key], f'element {key}')
            cx.close(sub.mean, ref.mean()[key], f'mean of element {key}')
        else:
            cx.same(len(sub), key.stop - key.start, f'length of {key}')
            cx.close(elogs(sub, K),
                     ref.elog()[key].T, f'slice {key}')
        cx.step()
    # Training an element has no effect on the set.
    w = model.weights
    w.stats = torch.tensor([[.5 + s + k for k in range(K)] for s in range(S)])
    w.stats[:, -1] = w.stats.sum(-1)
    for key in list(range(S)) + [slice(a, b) for a in range(S)
                                 for b in range(a + 1, S + 1)]:
        sub = model[key]
        mine = tonp(w.stats)[key]
        cx.close(sub.weights.stats, mine, f'statistics of element {key}')
        new = torch.tensor(mine).clone()
        new[..., -1] += 4.
        before = [tonp(x).copy() for x in (
            w.stats, w.posterior.natural_parameters(),
            w.prior.natural_parameters())]
        sub.weights.store_stats(new)
        sub.weights.natural_grad_update(.7)
        sub.weights.zero_stats()
        for x, y in zip(before, (w.stats, w.posterior.natural_parameters(),
                                 w.prior.natural_parameters())):
            cx.close(y, x, f'set after the training of element {key}')
        cx.close(model[key].mean, ref.mean()[key],
                 f'element {key} after its training')
        cx.step()
