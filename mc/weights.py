"""Reference models of the posteriors over the weights of the units."""
import itertools
import numpy as np
from scipy.special import digamma
import torch
import beer


class RefDirichlet:
    kind = 'dirichlet'

    def __init__(self, prior):
        self.prior = np.array(prior, dtype=float)
        self.post = self.prior.copy()

    def update(self, counts, lrate):
        self.post = (1 - lrate) * self.post + lrate * (self.prior + counts)

    def candidates(self, counts, lrate):
        self.update(counts, lrate)
        return [self]

    def elog(self):
        return digamma(self.post) - \
            digamma(self.post.sum(axis=-1, keepdims=True))

    def mean(self):
        return self.post / self.post.sum(axis=-1, keepdims=True)


class RefStick:
    def __init__(self, K, strength, hyper=None):
        self.prior = np.ones((K, 2))
        self.prior[:, 1] = strength
        self.post = self.prior.copy()
        self.order = list(range(K))
        self.hyper = hyper
        self.strength = strength

    def copy(self):
        new = RefStick(len(self.post), self.strength, self.hyper)
        new.prior, new.post = self.prior.copy(), self.post.copy()
        new.order = list(self.order)
        return new

    def elogs(self):
        t = digamma(self.post.sum(axis=1))
        return digamma(self.post[:, 0]) - t, digamma(self.post[:, 1]) - t

    def update(self, counts, lrate, order):
        self.order = list(order)
        tgt = np.zeros_like(self.post)
        rest = counts.sum()
        for k in self.order:
            rest = rest - counts[k]
            tgt[k] = self.prior[k] + [counts[k], rest]
        self.post = (1 - lrate) * self.post + lrate * tgt
        if self.hyper is not None:
            _, l1v = self.elogs()
            shape = self.hyper + len(self.post)
            rate = self.hyper / self.strength - l1v.sum()
            self.prior[:, 1] = shape / rate

    def candidates(self, counts, lrate):
        'One model per ordering which is consistent with the counts.'
        out = []
        for order in itertools.permutations(range(len(counts))):
            c = counts[list(order)]
            if all(a >= b for a, b in zip(c[:-1], c[1:])):
                new = self.copy()
                new.update(counts, lrate, order)
                out.append(new)
        return out

    def elog(self):
        lv, l1v = self.elogs()
        out, acc = np.zeros(len(lv)), 0.
        for k in self.order:
            out[k] = lv[k] + acc
            acc += l1v[k]
        return out

    def mean(self):
        out, left = np.zeros(len(self.post)), 1.
        for k in self.order:
            m = self.post[k, 0] / self.post[k].sum()
            out[k] = left * m
            left *= 1 - m
        return out


class RefHierarchicalStick:
    'One stick-breaking process per row, all with the ordering of the root.'

    def __init__(self, root, nrows, strength):
        self.order = list(root.order)
        mean, left = root.mean(), 1.
        prior = np.zeros((len(mean), 2))
        for k in self.order:
            left -= mean[k]
            prior[k] = strength * mean[k], strength * left
        self.prior = np.array([prior] * nrows)
        self.post = np.array([root.post] * nrows)

    def candidates(self, counts, lrate):
        tgt = self.prior.copy()
        rest = counts.sum(axis=1)
        for k in self.order:
            rest = rest - counts[:, k]
            tgt[:, k, 0] += counts[:, k]
            tgt[:, k, 1] += rest
        self.post = (1 - lrate) * self.post + lrate * tgt
        return [self]

    def elog(self):
        t = digamma(self.post.sum(axis=-1))
        lv, l1v = (digamma(self.post[..., i]) - t for i in (0, 1))
        out, acc = np.zeros(lv.shape), 0.
        for k in self.order:
            out[:, k] = lv[:, k] + acc
            acc = acc + l1v[:, k]
        return out

    def mean(self):
        out, left = np.zeros(self.post.shape[:2]), 1.
        for k in self.order:
            m = self.post[:, k, 0] / self.post[:, k].sum(axis=-1)
            out[:, k] = left * m
            left = left * (1 - m)
        return out


def make(kind, K):
    'Real weights model and its reference.'
    if kind == 'dirichlet':
        w = np.array([.5, .3, .2, .4])[:K]
        w = w / w.sum()
        return beer.Categorical.create(torch.tensor(w), 2.5), \
            RefDirichlet(w * 2.5)
    if kind == 'sb':
        return beer.SBCategorical.create(K, 1.7), RefStick(K, 1.7)
    if kind == 'sbhyper':
        return beer.SBCategoricalHyperPrior.create(K, 1.7, .8), \
            RefStick(K, 1.7, .8)
    if kind == 'bigram':
        w = np.array([[.2 + .1 * ((i + 2 * j) % 3) for j in range(K)]
                      for i in range(K)])
        return beer.CategoricalSet.create(torch.tensor(w), 2.), \
            RefDirichlet(w * 2.)
    if kind == 'hsb':
        root, ref = make('sb', K)
        counts = np.array([1., 6., 3., 2.])[:K]
        order = np.argsort(-counts)
        store(root, counts)
        root.stickbreaking.natural_grad_update(1.)
        ref.update(counts, 1., order)
        return beer.SBCategoricalSet.create(K, root, 2.5), \
            RefHierarchicalStick(ref, K, 2.5)
    raise KeyError(kind)


BIGRAM = ('bigram', 'hsb')


def store(model, counts):
    'Give counts (one per component) to the model.'
    counts = torch.as_tensor(counts, dtype=torch.float64)
    stats = model.sufficient_statistics(counts[None])
    acc_fn = model.accumulate if counts.dim() == 1 \
        else model.accumulate_from_jointresps
    for param, acc in acc_fn(stats).items():
        param.store_stats(acc)


def match(cx, cands, elog, what):
    'The reference whose expected log-weights are those of the real model.'
    elog = np.asarray(elog, dtype=float)
    for c in cands:
        if np.allclose(c.elog(), elog, rtol=1e-7, atol=1e-9):
            return c
    cx.close(elog, cands[0].elog(), what)
    return cands[0]
