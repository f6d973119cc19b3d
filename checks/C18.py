"""The objective of training: a lower bound of the log-evidence (computed by
enumerating all the values of the hidden variables) which never decreases."""
import itertools
import numpy as np
import torch
from scipy.special import gammaln
import beer
from beer.graph import CompiledGraph
from mc import bmodels as B
from mc.core import tonp
from mc.graphs import gen
from mc.refmodels import RefNormals, lse

PROP = 'C18'
CHUNK = 2
BOUNDS = {
    'quick': 'Normal, Gamma, categorical, mixtures of 1-3 components (5 '
             'frames), HMM of 2-3 states (shared emissions included), HMM of '
             'mixtures; 3 covariances x 3 data sets x 2 initial posteriors x '
             'all the histories of <= 4 full-data updates with 3 learning '
             'rates; evidence by enumeration of all the assignments',
    'thorough': '6 frames, 6 data sets, 4 initial posteriors, histories of '
                '<= 5 updates',
}
RATES = (1., .5, .1)


def cases(tier):
    big = tier == 'thorough'
    for d in range(6 if big else 3):
        for salt in range(4 if big else 2):
            base = {'d': d, 'salt': salt, 'T': 6 if big else 5,
                    'L': 5 if big else 4}
            yield dict(base, k='gamma')
            yield dict(base, k='categorical')
            for cov in B.COVS:
                yield dict(base, k='normal', cov=cov)
                for C in (1, 2, 3):
                    yield dict(base, k='mixture', cov=cov, C=C)
                for m in ([0, 1], [0, 0], [0, 1, 2], [1, 0, 1]):
                    yield dict(base, k='hmm', cov=cov, map=m)
                yield dict(base, k='hmmmix', cov=cov, T=4)


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    build = globals()['make_' + case['k']]
    _, objective, evidence, exact = build(case)
    for L in range(1, case['L'] + 1):
        if L < case['L'] and L > 1:
            continue
        for hist in itertools.product(RATES, repeat=L):
            model, objective, _, _ = build(case)
            optim = beer.VBConjugateOptimizer(
                model.conjugate_bayesian_parameters(keepgroups=True), 1.)
            n = max(1, len(optim.groups))
            last = None
            for i, lr in enumerate(hist):
                optim.lrate = lr
                for _ in range(n):
                    elbo, value = objective(model)
                    check(cx, value, last, evidence, case, hist[:i])
                    last = value
                    optim.init_step()
                    elbo.backward()
                    optim.step()
                    cx.step()
                cx.state(str(case), hist[:i + 1])
            _, value = objective(model)
            check(cx, value, last, evidence, case, hist)
            if exact and hist[-1] == 1.:
                cx.close(value, evidence,
                         f'objective at the exact posterior, {case} {hist}')
            cx.trace()
    cx.label(case['k'])


def check(cx, value, last, evidence, case, hist):
    tol = 1e-7 * (1 + abs(evidence) + abs(value))
    cx.check(value <= evidence + tol,
             f'objective {value!r} above the log-evidence {evidence!r}: '
             f'{case} after {hist}')
    if last is not None:
        cx.check(value >= last - tol,
                 f'objective decreased from {last!r} to {value!r}: '
                 f'{case} after {hist}')


def datas(case, dim=2):
    X = B.data(case['T'], dim, 31 * case['d'])
    if case['d'] % 3 == 1:
        X[1:3] = X[1:3] * 4 + 3
    if case['d'] % 3 == 2:
        X = X * .2
    return X


def simple(X):
    def objective(model):
        e = beer.evidence_lower_bound(model, X)
        return e, float(e.value)
    return objective


def log_evidence(cov, normals, X, k):
    'log p(X) of the k-th Normal.'
    if len(X) == 0:
        return 0.
    one = RefNormals.__new__(RefNormals)
    one.cov = cov
    one.prior = [p[k:k + 1] for p in normals.prior]
    one.post = list(one.prior)
    one.update(one.stats(X, np.ones((len(X), 1))))
    return float(one.ellh(X).sum() - one.kl().sum())


class Evidence:
    'Evidence of subsets of frames, cached.'

    def __init__(self, cov, normals, X):
        self.cov, self.normals, self.X, self.memo = cov, normals, X, {}

    def __call__(self, k, frames):
        key = k, tuple(frames)
        if key not in self.memo:
            self.memo[key] = log_evidence(self.cov, self.normals,
                                          self.X[list(frames)], k)
        return self.memo[key]


def dirmult(conc, counts):
    return gammaln(conc.sum()) - gammaln(conc.sum() + counts.sum()) \
        + (gammaln(conc + counts) - gammaln(conc)).sum()


def make_normal(case):
    X = datas(case)
    ns = B.normalset(case['cov'], 1, 2, case['salt'])
    model = beer.Normal(beer.ConjugateBayesianParameter(
        *[B.DIST[case['cov']].from_std_parameters(
            *[getattr(p.params, n)[0] for n in names(case['cov'])])
          for p in (ns.means_precisions.prior, ns.means_precisions.posterior)]
    ))
    ref = RefNormals.read(case['cov'], ns.means_precisions)
    return model, simple(X), log_evidence(case['cov'], ref, X.numpy(), 0), True


def names(cov):
    return {'isotropic': ['mean', 'scale', 'shape', 'rate'],
            'diagonal': ['mean', 'scale', 'shape', 'rates'],
            'full': ['mean', 'scale', 'scale_matrix', 'dof']}[cov]


def make_gamma(case):
    from beer import dists
    X = datas(case, 1).abs() + .1
    a0, b0 = .7 + case['salt'], 1.3
    prior = dists.Gamma.from_std_parameters(torch.tensor([a0]),
                                            torch.tensor([b0]))
    post = dists.Gamma.from_std_parameters(torch.tensor([2.]),
                                           torch.tensor([.4]))
    shape = torch.tensor([1.8])
    model = beer.Gamma(shape, beer.ConjugateBayesianParameter(prior, post))
    x, s = X.numpy()[:, 0], 1.8
    n = len(x)
    ev = (s - 1) * np.log(x).sum() - n * gammaln(s) + a0 * np.log(b0) \
        - gammaln(a0) + gammaln(a0 + n * s) \
        - (a0 + n * s) * np.log(b0 + x.sum())
    return model, simple(X), float(ev), True


def make_categorical(case):
    from beer import dists
    conc = np.array([.5 + case['salt'], 2., 1.2])
    post = np.array([3., .4, 1.])
    model = beer.Categorical(beer.ConjugateBayesianParameter(
        *[dists.Dirichlet.from_std_parameters(torch.tensor(c))
          for c in (conc, post)]))
    X = torch.tensor([[[1., 0, 0], [0, 1, 0], [0, 0, 1]][
        int(3 * gen(t, case['d'], 5)) % 3] for t in range(case['T'])])
    return model, simple(X), float(dirmult(conc, X.numpy().sum(0))), True


def make_mixture(case):
    cov, C, salt = case['cov'], case['C'], case['salt']
    from beer import dists
    conc = np.array([.5 + 2 * gen(0, c, salt) for c in range(C)])
    post = np.array([.3 + 5 * gen(0, c, salt + 7) for c in range(C)])
    ns = B.normalset(cov, C, 2, salt)
    ref = RefNormals.read(cov, ns.means_precisions)
    model = beer.Mixture(beer.Categorical(beer.ConjugateBayesianParameter(
        *[dists.Dirichlet.from_std_parameters(torch.tensor(c))
          for c in (conc, post)])), ns)
    X = datas(case)
    key = str(sorted(case.items()))
    if key not in EV:
        ev = Evidence(cov, ref, X.numpy())
        terms = []
        for z in itertools.product(range(C), repeat=len(X)):
            n = np.bincount(z, minlength=C)
            terms.append(dirmult(conc, n) + sum(
                ev(c, [t for t in range(len(X)) if z[t] == c])
                for c in range(C)))
        EV[key] = float(lse(np.array(terms)))
    return model, simple(X), EV[key], C == 1


EV = {}
TRANS = {2: ([.7, .3], [.4, .6], [[.55, .45], [.2, .8]]),
         3: ([.6, .4, 0], [0, .3, .7], [[.5, .3, .2], [0, .6, .4],
                                       [.1, 0, .9]])}


def hmm_objective(X):
    def objective(model):
        e = beer.evidence_lower_bound(model, X)
        stats = model.sufficient_statistics(X)
        # The joint bound, from the exact inference on the graph.
        llhs = model.modelset.expected_log_likelihood(
            stats, model.graph.pdf_id_mapping)
        _, llh = model.graph.posteriors(llhs)
        return e, float(llh - model.kl_div_posterior_prior())
    return objective


def make_hmm(case):
    cov, mapping = case['cov'], case['map']
    S, K = len(mapping), max(mapping) + 1
    ns = B.normalset(cov, K, 2, case['salt'])
    ref = RefNormals.read(cov, ns.means_precisions)
    spec = [np.array(x, dtype=float) for x in TRANS[S]]
    with np.errstate(divide='ignore'):
        logs = [np.log(x) for x in spec]
    model = beer.HMM.create(CompiledGraph(*[torch.tensor(x) for x in logs],
                                          list(mapping)), ns)
    X = datas(case)
    key = str(sorted(case.items()))
    if key not in EV:
        ev = Evidence(cov, ref, X.numpy())
        terms = []
        for z in itertools.product(range(S), repeat=len(X)):
            lp = logs[0][z[0]] + logs[1][z[-1]] + sum(
                logs[2][a, b] for a, b in zip(z[:-1], z[1:]))
            if lp == -np.inf:
                continue
            terms.append(lp + sum(
                ev(k, [t for t in range(len(X)) if mapping[z[t]] == k])
                for k in range(K)))
        EV[key] = float(lse(np.array(terms)))
    return model, hmm_objective(X), EV[key], False


def make_hmmmix(case):
    cov, salt = case['cov'], case['salt']
    from beer import dists
    S = C = 2
    conc = np.array([[.5 + 2 * gen(s, c, salt) for c in range(C)]
                     for s in range(S)])
    post = np.array([[.3 + 5 * gen(s, c, salt + 7) for c in range(C)]
                     for s in range(S)])
    ns = B.normalset(cov, S * C, 2, salt)
    ref = RefNormals.read(cov, ns.means_precisions)
    ms = beer.MixtureSet(beer.CategoricalSet(beer.ConjugateBayesianParameter(
        *[dists.Dirichlet.from_std_parameters(torch.tensor(c))
          for c in (conc, post)])), ns)
    with np.errstate(divide='ignore'):
        logs = [np.log(np.array(x, dtype=float)) for x in TRANS[S]]
    model = beer.HMM.create(CompiledGraph(*[torch.tensor(x) for x in logs],
                                          [0, 1]), ms)
    X = datas(case)
    key = str(sorted(case.items()))
    if key not in EV:
        ev = Evidence(cov, ref, X.numpy())
        terms = []
        for z in itertools.product(range(S), repeat=len(X)):
            lp = logs[0][z[0]] + logs[1][z[-1]] + sum(
                logs[2][a, b] for a, b in zip(z[:-1], z[1:]))
            for c in itertools.product(range(C), repeat=len(X)):
                n = np.zeros((S, C))
                for s, k in zip(z, c):
                    n[s, k] += 1
                terms.append(lp + sum(dirmult(conc[s], n[s])
                                      for s in range(S)) + sum(
                    ev(s * C + k, [t for t in range(len(X))
                                   if (z[t], c[t]) == (s, k)])
                    for s in range(S) for k in range(C)))
        EV[key] = float(lse(np.array(terms)))
    return model, hmm_objective(X), EV[key], False
