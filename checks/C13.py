"""ELBO of mini-batches and natural gradient updates: any way of cutting,
summing, storing and replaying the data gives the exact conjugate update."""
import itertools
import pickle
import numpy as np
import torch
from scipy.special import digamma, gammaln
import beer
from beer import dists
from mc import bmodels as B
from mc.graphs import gen
from mc.refmodels import RefNormals, RefMixtures, dirkl, gkl, lse, row

PROP = 'C13'
CHUNK = 4
BOUNDS = {
    'quick': '{Normal, mixture} x 3 covariances, Gamma, categorical: all the '
             'compositions of 4 frames in mini-batches x every pairing/order '
             'of the sums (left/right/reversed/empty start, pickled and '
             'synchronized) x 3 data set sizes x 4 learning rates; histories '
             'of <= 3 updates over 3 data sets x 2 rates; every sequence, '
             'order and association of <= 3 objectives of 4 models which '
             'share parameters',
    'thorough': '6 frames, histories of <= 4 updates',
}
MODELS = ['normal-isotropic', 'normal-diagonal', 'normal-full',
          'mixture-isotropic', 'mixture-diagonal', 'mixture-full',
          'gamma', 'categorical']


def compositions(n):
    for mask in range(1 << (n - 1)):
        out, cur = [], 1
        for i in range(n - 1):
            if mask >> i & 1:
                out.append(cur)
                cur = 1
            else:
                cur += 1
        yield out + [cur]


def cases(tier):
    N = 6 if tier == 'thorough' else 4
    for m in MODELS:
        for comp in compositions(N):
            yield {'k': 'batch', 'm': m, 'comp': comp}
        for k in range(1, (4 if tier == 'thorough' else 3) + 1):
            for h in itertools.product(range(3), repeat=k):
                yield {'k': 'hist', 'm': m, 'h': list(h)}
        yield {'k': 'errors', 'm': m}
    for cov in B.COVS:
        for k in (1, 2, 3, 4) if tier == 'thorough' else (1, 2, 3):
            for which in itertools.product(range(4), repeat=k):
                yield {'k': 'union', 'cov': cov, 'which': list(which)}


class Ref:
    def __init__(self, kind):
        self.kind = kind
        name, _, cov = kind.partition('-')
        self.name, self.cov = name, cov
        if name == 'normal':
            prior = B.std_params(cov, 1, 2, 4)
            post = B.std_params(cov, 1, 2, 9)
            self.n = RefNormals(cov, *[tuple(x[:, 0] if i in (1, 2, 3) and
                                             x.shape[1:] == (1,) else x
                                             for i, x in enumerate(p))
                                       for p in (prior, post)])

            def one(p):
                return tuple(torch.tensor(x[0]) for x in p)
            cls = B.DIST[cov]
            self.model = beer.Normal(beer.ConjugateBayesianParameter(
                cls.from_std_parameters(*one(prior)),
                cls.from_std_parameters(*one(post))))
        elif name == 'mixture':
            ms = B.normalset(cov, 3)
            self.model = beer.Mixture.create(
                ms, beer.Categorical.create(torch.tensor([.5, .2, .3]), 4.))
            self.n = RefMixtures(
                RefNormals.read(cov, ms.means_precisions),
                [[2., .8, 1.2]], [[2., .8, 1.2]])
        elif name == 'gamma':
            shape = np.array([1.5, .7])
            self.shape = shape
            self.prior = [np.array([2., 1.3]), np.array([.4, 3.])]
            self.post = [np.array([1.1, 2.5]), np.array([2.2, .9])]
            self.model = beer.Gamma(
                torch.tensor(shape), beer.ConjugateBayesianParameter(*[
                    dists.Gamma.from_std_parameters(*map(torch.tensor, p))
                    for p in (self.prior, self.post)]))
        else:
            self.prior = np.array([1.5, .7, 2.])
            self.post = np.array([3., 1.2, .6])
            self.model = beer.Categorical(beer.ConjugateBayesianParameter(*[
                dists.Dirichlet.from_std_parameters(torch.tensor(p))
                for p in (self.prior, self.post)]))

    def data(self, N, salt=0):
        if self.name in ('normal', 'mixture'):
            return B.data(N, salt=salt)
        if self.name == 'gamma':
            return torch.tensor([[.2 + 3 * gen(t, i, salt) for i in range(2)]
                                 for t in range(N)])
        x = torch.zeros(N, 3)
        for t in range(N):
            x[t, (2 * t + t // 2 + salt) % 3] = 1.
        return x

    def llh(self, X):
        X = X.numpy()
        if self.name == 'normal':
            return self.n.ellh(X)[:, 0]
        if self.name == 'mixture':
            return self.n.llh(X)[:, 0]
        if self.name == 'gamma':
            a, b = self.post
            s = self.shape
            return (s * (digamma(a) - np.log(b)) - gammaln(s)
                    + (s - 1) * np.log(X) - X * a / b).sum(1)
        return X @ (digamma(self.post) - digamma(self.post.sum()))

    def stats(self, X):
        X = X.numpy()
        one = np.ones((len(X), 1))
        if self.name in ('normal', 'mixture'):
            return list(self.n.stats(X, one))
        if self.name == 'gamma':
            return [len(X) * self.shape, X.sum(0)]
        return X.sum(0)

    def kl(self):
        if self.name in ('normal', 'mixture'):
            return float(np.sum(self.n.kl()))
        if self.name == 'gamma':
            return gkl(*self.post, *self.prior).sum()
        return dirkl(self.post, self.prior)

    def update(self, stats, lr):
        if self.name in ('normal', 'mixture'):
            self.n.update(stats, lr)
        elif self.name == 'gamma':
            self.post = [(1 - lr) * o + lr * (p + s) for o, p, s in
                         zip(self.post, self.prior, stats)]
        else:
            self.post = (1 - lr) * self.post + lr * (self.prior + stats)

    def compare(self, cx, model, what):
        if self.name == 'gamma':
            p = model.rate.posterior.params
            cx.close(p.shape, self.post[0], f'{what}: shape')
            cx.close(p.rate, self.post[1], f'{what}: rate')
            return
        if self.name == 'categorical':
            cx.close(model.weights.posterior.params.concentrations, self.post,
                     f'{what}: concentrations')
            return
        if self.name == 'mixture':
            cx.close(row(model.categorical.weights.posterior
                         .params.concentrations), self.n.post,
                     f'{what}: weights')
            got = RefNormals.std_of(self.cov,
                                    model.modelset.means_precisions.posterior)
            want = self.n.normals.std()
        else:
            got = RefNormals.std_of(self.cov, model.mean_precision.posterior)
            want = self.n.std()
        for i, (a, b) in enumerate(zip(got, want)):
            cx.close(a, b, f'{what}: parameter {i} of the Normal')


def add(a, b):
    if isinstance(a, (list, tuple)):
        return [add(x, y) for x, y in zip(a, b)]
    return a + b


def mul(c, a):
    return [mul(c, x) for x in a] if isinstance(a, (list, tuple)) else c * a


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    {'batch': run_batch, 'hist': run_hist, 'errors': run_errors,
     'union': run_union}[case['k']](case, cx)


def elbo(cx, model, X, size=-1):
    cx.step()
    return beer.evidence_lower_bound(model, X, datasize=size)


def run_batch(case, cx):
    comp = case['comp']
    N = sum(comp)
    for size in (N, 2 * N, 7, .5):
        for how in ('left', 'reversed', 'right', 'empty', 'pickle'):
            for lr in (1., .5, .1, 1.1):
                ref = Ref(case['m'])
                model = ref.model
                X = ref.data(N)
                parts = torch.split(X, comp)
                want = sum(size / len(x) * ref.llh(x).sum() - ref.kl()
                           for x in parts)
                es = [elbo(cx, model, x, size) for x in parts]
                before = [float(e) for e in es]
                alone = [snapshot(model, e) for e in es]
                if how == 'reversed':
                    es = es[::-1]
                if how == 'right':
                    tot = es[-1]
                    for e in es[-2::-1]:
                        tot = e + tot
                elif how == 'empty':
                    tot = beer.evidence_lower_bound(datasize=size)
                    for e in es:
                        tot += e
                elif how == 'pickle':
                    blobs = [pickle.dumps(e) for e in es]
                    model = pickle.loads(pickle.dumps(model))
                    tot = None
                    for b in blobs:
                        e = pickle.loads(b)
                        tot = e if tot is None else tot + e
                    tot.sync(model)
                else:
                    tot = es[0]
                    for e in es[1:]:
                        tot = tot + e
                what = f'{case["m"]} {comp} size={size} {how} lr={lr}'
                cx.close(float(tot), want, f'value, {what}')
                if how != 'pickle':
                    cx.same(sorted(before), sorted(float(e) for e in es),
                            f'terms of the sum are kept, {what}')
                    for a, e in zip(alone if how != 'reversed'
                                    else alone[::-1], es):
                        for x, y in zip(a, snapshot(model, e)):
                            cx.close(y, x, f'term used after the sum, {what}')
                first = snapshot(model, tot)
                for x, y in zip(first, snapshot(model, tot)):
                    cx.close(y, x, f'sum used twice, {what}')
                optim = beer.VBConjugateOptimizer(
                    model.conjugate_bayesian_parameters(keepgroups=True), lr)
                optim.init_step()
                tot.backward()
                optim.step()
                ref.update(mul(size / N, ref.stats(X)), lr)
                ref.compare(cx, model, what)
                cx.state(case['m'], comp, size, how, lr)
                cx.label(how)
                cx.trace()


def snapshot(model, e):
    'Statistics given to the parameters by an objective.'
    params = list(model.bayesian_parameters())
    for p in params:
        p.zero_stats()
    e.backward()
    out = [p.stats.clone() for p in params]
    for p in params:
        p.zero_stats()
    return out


def run_union(case, cx):
    'Sum of objectives of models which share some of their parameters.'
    cov = case['cov']
    ns = [B.normalset(cov, 2, salt=3), B.normalset(cov, 2, salt=8)]
    ws = [beer.Categorical.create(torch.tensor([.3, .7]), 2.),
          beer.Categorical.create(torch.tensor([.6, .4]), 5.)]
    models = [beer.Mixture(w, n) for w in ws for n in ns]
    X = [B.data(2 + i, salt=i) for i in range(len(case['which']))]
    size, nframes = 11, sum(map(len, X))
    params = [n.means_precisions for n in ns] + [w.weights for w in ws]
    want = [torch.zeros_like(p.stats) for p in params]
    seen, value = set(), 0.
    for i, x in zip(case['which'], X):
        m = models[i]
        value += size / len(x) * float(m.expected_log_likelihood(
            m.sufficient_statistics(x)).sum()) \
            - float(m.kl_div_posterior_prior().sum())
        for p, a in m.accumulate(m.sufficient_statistics(x)).items():
            k = params.index(p)
            want[k] = want[k] + a.reshape(want[k].shape) * size / nframes
            seen.add(k)
    n = len(X)
    for order in itertools.permutations(range(n)):
        for how in ('left', 'right', 'empty'):
            es = [elbo(cx, models[case['which'][i]], X[i], size)
                  for i in order]
            if how == 'empty':
                es.insert(0, beer.evidence_lower_bound(datasize=size))
            if how == 'right':
                tot = es[-1]
                for e in es[-2::-1]:
                    tot = e + tot
            else:
                tot = es[0]
                for e in es[1:]:
                    tot = tot + e
            what = f'{case} order {order} {how}'
            cx.close(float(tot), value, f'sum of the objectives, {what}')
            for p in params:
                p.stats = torch.full_like(p.stats, 7.)
            tot.backward()
            for k, p in enumerate(params):
                cx.close(p.stats, want[k] if k in seen
                         else torch.full_like(p.stats, 7.),
                         f'statistics of the parameter {k}, {what}')
            cx.state(case, order, how)
            cx.trace()
    cx.label('union')


def run_hist(case, cx):
    for lr in (1., .3):
        ref = Ref(case['m'])
        optim = beer.VBConjugateOptimizer(
            ref.model.conjugate_bayesian_parameters(keepgroups=True), lr)
        for i, h in enumerate(case['h']):
            X = ref.data([1, 3, 5][h], salt=h)
            optim.init_step()
            e = elbo(cx, ref.model, X)
            cx.close(float(e), ref.llh(X).sum() - ref.kl(),
                     f'ELBO, step {i} of {case["h"]}')
            e.backward()
            optim.step()
            ref.update(ref.stats(X), lr)
            ref.compare(cx, ref.model, f'step {i} of {case["h"]} lr={lr}')
            cx.state(case['m'], lr, case['h'][:i + 1])
        cx.trace()
        cx.label('history')


def run_errors(case, cx):
    ref = Ref(case['m'])
    X = ref.data(3)
    a, b = elbo(cx, ref.model, X, 10), elbo(cx, ref.model, X, 11)
    cx.raises(ValueError, lambda: a + b, 'sum for different data sets')
    cx.raises(ValueError, lambda: a + 1., 'sum with a number')
    cx.raises(ValueError, lambda: beer.evidence_lower_bound(ref.model),
              'no data')
    cx.label('errors')
    cx.trace()
