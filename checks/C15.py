"""Normal and Gamma models: creation, expected log-likelihood, views."""
import itertools
import numpy as np
import torch
from scipy.special import digamma, gammaln
import beer
from mc import bmodels as B
from mc.core import tonp
from mc.graphs import gen
from mc.refmodels import RefNormals

PROP = 'C15'
CHUNK = 4
BOUNDS = {
    'quick': '3 covariances x dimensions 1-5 x every way to give the '
             'covariance (number, vector of one, vector, matrix) x 2 strengths '
             'x {float, double} for the Normal and the sets of 1-3 Normals; '
             'expected log-likelihood of 1-5 points of dimension 1-3 for 6 '
             'posteriors, of every element and slice of the sets; Gamma '
             'models and their updates',
    'thorough': 'dimensions 1-5, sets of 1-5, 12 posteriors',
}


def cases(tier):
    big = tier == 'thorough'
    for cov in B.COVS:
        for dim in range(1, 7 if big else 6):
            for dt in ('float64', 'float32'):
                yield {'k': 'create', 'cov': cov, 'dim': dim, 'dt': dt,
                       'n': 5 if big else 3}
        for dim in range(1, 6 if big else 4):
            for n in range(1, 6 if big else 4):
                for salt in range(12 if big else 6):
                    yield {'k': 'llh', 'cov': cov, 'dim': dim, 'n': n,
                           'salt': salt}
    for dim in range(1, 6 if big else 4):
        yield {'k': 'gamma', 'dim': dim}
    yield {'k': 'unknown'}


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)


def fullmat(dim):
    a = np.array([[gen(i, j, 3) - .5 for j in range(dim)] for i in range(dim)])
    return a @ a.T + np.diag([.3 + gen(i, 4) for i in range(dim)])


def run_create(case, cx):
    cov, dim = case['cov'], case['dim']
    dt = getattr(torch, case['dt'])
    tol = (1e-4, 1e-5) if dt == torch.float32 else (1e-7, 1e-9)
    mean = np.array([3 * gen(i, 2) - 1 for i in range(dim)])
    forms = {'number': np.array(1.7), 'one': np.array([1.7]),
             'vector': np.array([.4 + gen(i, 5) for i in range(dim)]),
             'matrix': fullmat(dim)}
    for form, c in forms.items():
        m = np.diag(np.full(dim, c.item())) if c.size == 1 else \
            np.diag(c) if c.ndim == 1 else c
        if cov == 'diagonal':
            m = np.diag(np.diag(m))
        elif cov == 'isotropic':
            m = np.diag(m).max() * np.eye(dim)
        for strength in (1., 4.5):
            what = f'{cov} dim={dim} {form} strength={strength}'
            args = (torch.tensor(mean, dtype=dt), torch.tensor(c, dtype=dt))
            model = beer.Normal.create(*args, prior_strength=strength,
                                       cov_type=cov)
            cx.step()
            cx.close(model.mean, mean, f'mean, {what}', *tol)
            cx.close(model.cov, m, f'covariance, {what}', *tol)
            p = model.mean_precision
            for d in (p.prior, p.posterior):
                check_prior(cx, cov, d, [mean], m, strength, what, tol, dt)
            for n in range(1, case['n'] + 1):
                for noise in (0., .5):
                    z = np.array([[gen(k, i, 8) - .5 for i in range(dim)]
                                  for k in range(n)])
                    old = torch.randn
                    try:
                        torch.randn = lambda *a, **k: torch.tensor(z, dtype=dt)
                        ms = beer.NormalSet.create(
                            *args, size=n, prior_strength=strength,
                            noise_std=noise, cov_type=cov)
                    finally:
                        torch.randn = old
                    cx.step()
                    cx.same(len(ms), n, f'size of the set, {what}')
                    p = ms.means_precisions
                    check_prior(cx, cov, p.prior, [mean] * n, m, strength,
                                f'prior, size={n} {what}', tol, dt)
                    cm = forms['matrix'] if form == 'matrix' else \
                        np.diag(c) if c.size > 1 else c.item() * np.eye(dim)
                    std = np.sqrt(np.diag(np.atleast_2d(cm)))
                    check_prior(cx, cov, p.posterior,
                                mean + noise * z * std, m, strength,
                                f'posterior, size={n} {what}', tol, dt)
                    for k in range(n):
                        cx.close(ms[k].cov, m, f'covariance of [{k}], {what}',
                                 *tol)
                    cx.state(what, n, noise)
            cx.label(form)
            cx.trace()


def check_prior(cx, cov, dist, means, m, strength, what, tol, dt):
    cx.same(dist.params.mean.dtype, dt, f'type of the parameters, {what}')
    means = np.array(means)
    n, dim = means.shape
    one = np.ones(n)
    if cov == 'isotropic':
        want = means, strength * one, strength * one, strength * m[0, 0] * one
    elif cov == 'diagonal':
        want = means, strength * one, strength * one, \
            strength * np.tile(np.diag(m), (n, 1))
    else:
        dof = strength + dim - 1
        want = means, strength * one, np.tile(np.linalg.inv(m) / dof,
                                              (n, 1, 1)), dof * one
    got = RefNormals.std_of(cov, dist)
    for i, (a, b) in enumerate(zip(got, want)):
        cx.close(a, b, f'parameter {i}, {what}', *tol)


def run_llh(case, cx):
    cov, dim, n, salt = (case[k] for k in ('cov', 'dim', 'n', 'salt'))
    ms = B.normalset(cov, n, dim, salt=salt)
    ref = RefNormals.read(cov, ms.means_precisions)
    for T in (1, 2, 5):
        X = B.data(T, dim, salt=T)
        st = ms.sufficient_statistics(X)
        want = ref.ellh(X.numpy())
        what = f'{cov} dim={dim} size={n} posterior={salt} T={T}'
        cx.close(ms.expected_log_likelihood(st), want,
                 f'expected log-likelihood, {what}')
        cx.step()
        for k in range(n):
            one = ms[k]
            cx.check(isinstance(one, beer.Normal), f'type of [{k}]')
            cx.close(one.expected_log_likelihood(
                one.sufficient_statistics(X)).reshape(-1), want[:, k],
                f'expected log-likelihood of [{k}], {what}')
            m, _, x, y = (v[k] for v in ref.std())
            c = np.linalg.inv(y * x) if cov == 'full' else \
                np.diag(np.broadcast_to(y / x, (dim,)))
            cx.close(one.mean, m, f'mean of [{k}], {what}')
            cx.close(one.cov, c, f'covariance of [{k}], {what}')
            acc = one.accumulate(st)
            cx.same(len(acc), 1, 'parameters of a Normal')
            cx.close(list(acc.values())[0], st.sum(0),
                     f'statistics of [{k}], {what}')
            cx.step(2)
        for a, b in itertools.combinations(range(n + 1), 2):
            sub = ms[a:b]
            cx.same(len(sub), b - a, f'size of [{a}:{b}], {what}')
            cx.close(sub.expected_log_likelihood(st), want[:, a:b],
                     f'expected log-likelihood of [{a}:{b}], {what}')
            cx.step()
        r = np.array([[gen(t, k, 61) for k in range(n)] for t in range(T)])
        acc, = ms.accumulate(st, torch.tensor(r)).values()
        cx.close(acc, r.T @ st.numpy(), f'statistics, {what}')
        cx.state(what)
        cx.trace()
    cx.label(cov)


def run_gamma(case, cx):
    dim = case['dim']
    for salt in range(6):
        shape = np.array([.4 + 3 * gen(i, salt) for i in range(dim)])
        mean = np.array([.3 + 3 * gen(i, salt, 5) for i in range(dim)])
        for strength in (1., 3.):
            what = f'Gamma dim={dim} table={salt} strength={strength}'
            model = beer.Gamma.create(torch.tensor(mean), shape, strength)
            cx.close(model.mean, mean, f'mean, {what}')
            p = model.rate
            for d in (p.prior, p.posterior):
                cx.close(d.params.shape, np.full(dim, strength), what)
                cx.close(d.params.rate, strength * mean / shape, what)
            for T in (1, 3):
                X = np.array([[.1 + 4 * gen(t, i, salt) for i in range(dim)]
                              for t in range(T)])
                a, b = tonp(p.posterior.params.shape), \
                    tonp(p.posterior.params.rate)
                want = (shape * (digamma(a) - np.log(b)) - gammaln(shape)
                        + (shape - 1) * np.log(X) - X * a / b).sum(1)
                st = model.sufficient_statistics(torch.tensor(X))
                cx.close(model.expected_log_likelihood(st).reshape(-1), want,
                         f'expected log-likelihood, {what} T={T}')
                # The update of the rates is the exact one.
                s0, r0 = tonp(p.prior.params.shape), \
                    tonp(p.prior.params.rate)
                for lrate in (1., .5, 1.):
                    opt = beer.VBConjugateOptimizer(
                        model.mean_field_factorization(), lrate=lrate)
                    opt.init_step()
                    beer.evidence_lower_bound(
                        model, torch.tensor(X)).backward()
                    opt.step()
                    a = a + lrate * (s0 + T * shape - a)
                    b = b + lrate * (r0 + X.sum(0) - b)
                    cx.close(p.posterior.params.shape, a,
                             f'shape of the rates, {what} T={T}')
                    cx.close(p.posterior.params.rate, b,
                             f'rate of the rates, {what} T={T}')
                    cx.close(model.mean, shape * b / a,
                             f'mean after an update, {what} T={T}')
                cx.step(2)
                cx.state(what, T)
            cx.trace()
    cx.label('gamma')


def run_unknown(case, cx):
    mean, cov = torch.zeros(2), torch.ones(2)
    for bad in ('Full', 'diag', '', 'iso'):
        cx.raises(Exception, lambda: beer.Normal.create(
            mean, cov, cov_type=bad), f'covariance type {bad!r}')
        cx.raises(Exception, lambda: beer.NormalSet.create(
            mean, cov, 2, cov_type=bad), f'covariance type {bad!r}')
        cx.step(2)
    cx.label('unknown')
    cx.trace()
