"""The probability distributions: parameterizations, normalizer, divergence,
entropy, views, likelihood functions."""
import itertools
import math
import numpy as np
import torch
from scipy import stats as S
from scipy.special import digamma
from beer import dists
from beer.dists import kl_div, entropy
from mc import bmodels as B
from mc.core import tonp
from mc.graphs import gen
from mc.refmodels import RefNormals, dirkl, gkl

PROP = 'C14'
CHUNK = 2
BOUNDS = {
    'quick': '7 families x dimensions 1-4 x {one, set of 1, 2, 3} x 6 '
             'parameter tables (2 extreme): round trip, normalizer gradient, divergence '
             'of every pair, entropy, every index and slice, every mismatch; '
             'likelihood functions on 5 points',
    'thorough': 'dimensions 1-5, sets up to 5, 10 parameter tables',
}
FAM = ['dirichlet', 'gamma', 'isonormalgamma', 'normalgamma', 'normalwishart',
       'normalfull', 'normaldiag']
COV = {'isonormalgamma': 'isotropic', 'normalgamma': 'diagonal',
       'normalwishart': 'full'}
CLS = {'dirichlet': dists.Dirichlet, 'gamma': dists.Gamma,
       'isonormalgamma': dists.IsotropicNormalGamma,
       'normalgamma': dists.NormalGamma, 'normalwishart': dists.NormalWishart,
       'normalfull': dists.NormalFullCovariance,
       'normaldiag': dists.NormalDiagonalCovariance}
NAMES = {'dirichlet': ['concentrations'], 'gamma': ['shape', 'rate'],
         'isonormalgamma': ['mean', 'scale', 'shape', 'rate'],
         'normalgamma': ['mean', 'scale', 'shape', 'rates'],
         'normalwishart': ['mean', 'scale', 'scale_matrix', 'dof'],
         'normalfull': ['mean', 'cov'], 'normaldiag': ['mean', 'diag_cov']}
LIK = {'dirichlet': 'categorical', 'gamma': 'gamma',
       'isonormalgamma': 'normal', 'normalgamma': 'normal',
       'normalwishart': 'normal', 'normaldiag': 'fixed'}


def cases(tier):
    big = tier == 'thorough'
    for fam in FAM:
        for dim in range(1, 6 if big else 5):
            if fam == 'dirichlet' and dim == 1:
                continue
            for size in ([0, 1, 2, 3, 5] if big else [0, 1, 2, 3]):
                yield {'fam': fam, 'dim': dim, 'size': size,
                       'salts': 8 if big else 4}
    yield {'fam': 'mismatch'}


def table(fam, size, dim, salt):
    'Standard parameters; size 0: a single distribution.'
    n = max(size, 1)
    if fam == 'dirichlet':
        # Every other table: sparse and concentrated distributions.
        p = [np.array([[(.2 + 6 * gen(k, i, salt) ** 2) *
                        (1, 1, 1e-3, 1e3)[(i + salt) % 4 if salt % 20
                                          and salt != 90 else 0]
                        for i in range(dim)] for k in range(n)])]
    elif fam == 'gamma':
        p = [np.array([[.3 + 4 * gen(k, i, salt, c) for i in range(dim)]
                       for k in range(n)]) for c in (1, 2)]
    elif fam in COV:
        p = list(B.std_params(COV[fam], n, dim, salt))
        if fam == 'normalwishart':
            p[3] = p[3] + .5
    elif fam == 'normaldiag':
        p = [np.array([[4 * gen(k, i, salt) - 2 for i in range(dim)]
                       for k in range(n)]),
             np.array([[.2 + 2 * gen(k, i, salt + 5) for i in range(dim)]
                       for k in range(n)])]
    else:
        m, _, w, _ = B.std_params('full', n, dim, salt)
        p = [m, w]
    if salt in EXTREME:
        p = [x * f for x, f in zip(p, EXTREME[salt][fam])]
        if fam == 'normalwishart' and salt == 90:
            # Close to the smallest number of degrees of freedom.
            p[3] = dim - 1 + (p[3] - dim) / 50
    return [x[0] for x in p] if size == 0 else p


# Scales of the extreme tables: spread and concentrated distributions.
EXTREME = {
    90: {'dirichlet': [1e-2], 'gamma': [2e-2, 20.],
         'isonormalgamma': [3., 1e-4, .05, 1e-3],
         'normalgamma': [3., 1e-4, .05, 1e-3],
         'normalwishart': [3., 1e-4, 20., 1.],
         'normalfull': [3., 1e3], 'normaldiag': [3., 1e3]},
    100: {'dirichlet': [1e3], 'gamma': [300., 2e-2],
          'isonormalgamma': [.1, 1e4, 500., 100.],
          'normalgamma': [.1, 1e4, 500., 100.],
          'normalwishart': [.1, 1e4, 1e-2, 300.],
          'normalfull': [.1, 1e-3], 'normaldiag': [.1, 1e-3]},
}


def make(fam, size, dim, salt):
    p = table(fam, size, dim, salt)
    return CLS[fam].from_std_parameters(*map(torch.tensor, p)), p


def batch(fam, p, size):
    return p if size else [x[None] for x in p]


def normals(fam, p, q, size):
    def flat(x):
        m, k, a, b = batch(fam, x, size)
        if fam == 'normalwishart':
            return m, k.reshape(-1), a, b.reshape(-1)
        if fam == 'isonormalgamma':
            return m, k.reshape(-1), a.reshape(-1), b.reshape(-1)
        return m, k.reshape(-1), a.reshape(-1), b
    return RefNormals(COV[fam], flat(q), flat(p))


def ref_kl(fam, p, q, size):
    'KL(p || q), one per distribution.'
    if fam in COV:
        return normals(fam, p, q, size).kl()
    p, q = batch(fam, p, size), batch(fam, q, size)
    if fam == 'dirichlet':
        return dirkl(p[0], q[0])
    if fam == 'gamma':
        return gkl(p[0], p[1], q[0], q[1]).sum(1)
    if fam == 'normaldiag':
        c, d = [np.stack([np.diag(v) for v in x[1]]) for x in (p, q)]
    else:
        c, d = p[1], q[1]
    out = []
    for m, n, c, d in zip(p[0], q[0], c, d):
        i = np.linalg.inv(d)
        out.append(.5 * (np.trace(i @ c) + (m - n) @ i @ (m - n) - len(m)
                         + np.linalg.slogdet(d)[1] - np.linalg.slogdet(c)[1]))
    return np.array(out)


def ref_entropy(fam, p, size):
    p = batch(fam, p, size)
    if fam == 'dirichlet':
        return np.array([S.dirichlet(c).entropy() for c in p[0]])
    if fam == 'gamma':
        return np.array([[S.gamma(a, scale=1 / b).entropy()
                          for a, b in zip(x, y)] for x, y in zip(*p)]).sum(1)
    if fam == 'normaldiag':
        return np.array([S.multivariate_normal(m, np.diag(c)).entropy()
                         for m, c in zip(*p)])
    if fam == 'normalfull':
        return np.array([S.multivariate_normal(m, c).entropy()
                         for m, c in zip(*p)])
    m, k, x, y = p
    d = m.shape[1]
    out = []
    for i in range(len(m)):
        ki = float(k[i].item())
        if fam == 'normalwishart':
            v = float(y[i].item())
            if d == 1:
                # Wishart in one dimension: Gamma(v / 2, 1 / (2 W)).
                h = S.gamma(v / 2, scale=2 * x[i][0, 0]).entropy()
            else:
                h = S.wishart(v, x[i]).entropy()
            elog = digamma(.5 * (v - np.arange(d))).sum() + d * np.log(2) \
                + np.linalg.slogdet(x[i])[1]
        elif fam == 'normalgamma':
            a = float(x[i].item())
            h = sum(S.gamma(a, scale=1 / b).entropy() for b in y[i])
            elog = (digamma(a) - np.log(y[i])).sum()
        else:
            a, b = float(x[i].item()), float(y[i].item())
            h = S.gamma(a, scale=1 / b).entropy()
            elog = d * (digamma(a) - np.log(b))
        out.append(h + .5 * d * np.log(2 * np.pi * np.e / ki) - .5 * elog)
    return np.array(out)


def params_of(fam, dist):
    return [tonp(getattr(dist.params, n)) for n in NAMES[fam]]


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    if case['fam'] == 'mismatch':
        return run_mismatch(cx)
    fam, dim, size = case['fam'], case['dim'], case['size']
    n = max(size, 1)
    salts = list(range(case['salts'])) + [9, 10]
    for salt in salts:
        dist, p = make(fam, size, dim, 10 * salt)
        where = f'{fam} dim={dim} size={size} table={salt}'
        cx.same(len(dist), n, f'number of distributions, {where}')
        # Round trip through the natural parameters.
        nat = dist.natural_parameters()
        other, _ = make(fam, size, dim, 999)
        other.update_from_natural_parameters(nat.clone())
        for name, a, b in zip(NAMES[fam], params_of(fam, other), p):
            cx.close(a.reshape(b.shape), b, f'{name} from the natural '
                     f'parameters, {where}', 1e-7, 1e-8)
        cx.close(other.natural_parameters().reshape(-1), nat.reshape(-1),
                 f'natural parameters, {where}', 1e-7, 1e-8)
        for name, a, b in zip(NAMES[fam], params_of(fam, dist), p):
            cx.close(a, b, f'{name} is modified, {where}')
        cx.step(3)
        # The gradient of the normalizer is the expected statistics.  The
        # symmetric entries of the matrices are perturbed one by one, which
        # gives the expectation up to the symmetry.
        eta = nat.clone().detach().requires_grad_(True)
        d2, _ = make(fam, size, dim, 999)
        d2.update_from_natural_parameters(eta)
        grad, = torch.autograd.grad(d2.log_norm().sum(), eta)
        want = dist.expected_sufficient_statistics()
        g = grad.clone()
        w = want.clone()
        if fam in ('normalfull', 'normaldiag'):
            pass
        cx.close(sym(fam, g, dim), sym(fam, w, dim),
                 f'expected statistics / gradient of the normalizer, {where}',
                 1e-6, 1e-8)
        # Expected value.
        ev = dist.expected_value()
        ev = ev if isinstance(ev, tuple) else (ev,)
        for a, b in zip(ev, expected(fam, p)):
            cx.close(a.reshape(b.shape), b, f'expected value, {where}')
        cx.close(entropy(dist).reshape(-1), ref_entropy(fam, p, size),
                 f'entropy, {where}', 1e-6, 1e-8)
        cx.step(4)
        for salt2 in salts:
            dist2, q = make(fam, size, dim, 10 * salt2)
            kl = kl_div(dist, dist2).reshape(-1)
            cx.close(kl, ref_kl(fam, p, q, size),
                     f'divergence, {where} and table {salt2}', 1e-6, 1e-7)
            cx.check(bool((kl >= -1e-7).all()),
                     f'negative divergence, {where} and table {salt2}')
            cx.step()
        # Indexing.
        if size:
            keys = list(range(size)) + [slice(a, b) for a, b in
                                        itertools.combinations(
                                            range(size + 1), 2)]
            for key in keys:
                v = dist[key]
                for name, a, b in zip(NAMES[fam], params_of(fam, v), p):
                    cx.close(a, b[key], f'{name} of [{key}], {where}')
                if not isinstance(key, slice):
                    cx.close(v.natural_parameters().reshape(-1), nat[key],
                             f'natural parameters of [{key}], {where}')
                    cx.close(v.expected_sufficient_statistics().reshape(-1),
                             want[key], f'statistics of [{key}], {where}')
                    cx.close(v.log_norm().reshape(-1),
                             dist.log_norm().reshape(-1)[key:key + 1],
                             f'normalizer of [{key}], {where}')
                cx.step()
        cx.state(where)
        if fam in LIK:
            likelihood(cx, fam, dim, n, salt, dist, where)
        if fam.startswith('normalfull') or fam == 'normaldiag':
            density(cx, fam, dim, size, dist, p, where)
        cx.label(fam)
        cx.trace()


def sym(fam, x, dim):
    x = tonp(x).reshape(-1, x.shape[-1]).copy()
    if fam in ('normalwishart', 'normalfull'):
        m = x[:, dim:dim + dim * dim].reshape(-1, dim, dim)
        x[:, dim:dim + dim * dim] = (
            .5 * (m + m.transpose(0, 2, 1))).reshape(-1, dim * dim)
    return x


def expected(fam, p):
    if fam == 'dirichlet':
        return [p[0] / p[0].sum(-1, keepdims=True)]
    if fam == 'gamma':
        return [p[0] / p[1]]
    if fam in ('normalgamma', 'isonormalgamma'):
        return [p[0], p[2] / p[3]]
    if fam == 'normalwishart':
        v = p[3][..., None] if p[3].ndim > 1 else p[3]
        return [p[0], p[2] * v]
    return [p[0]]


def density(cx, fam, dim, size, dist, p, where):
    'Density, samples.'
    X = np.array([[5 * gen(t, i, 77) - 2.5 for i in range(dim)]
                  for t in range(5)])
    p = batch(fam, p, size)
    covs = [np.diag(c) if fam == 'normaldiag' else c for c in p[1]]
    want = np.array([S.multivariate_normal(m, c).logpdf(X)
                     for m, c in zip(p[0], covs)]).reshape(len(covs), -1)
    st = dist.sufficient_statistics(torch.tensor(X))
    got = dist(st)
    cx.close(got.reshape(want.shape), want, f'density, {where}')
    # Several points, or one point of one distribution each.
    for k in {1, 5, len(covs)}:
        if k == len(covs) or len(covs) == 1:
            got = dist(st[:k], pdfwise=True).reshape(-1)
            cx.close(got, [want[min(i, len(covs) - 1), i] for i in range(k)],
                     f'density, point by point ({k}), {where}')
    # Samples: mean + A e for every basis vector e of the noise.
    old = torch.randn
    try:
        def basis(*shape, dtype=None, device=None, **kw):
            z = torch.zeros(*shape, dtype=dtype, device=device)
            for i in range(min(dim, z.shape[-2])):
                z[..., i, i] = 1.
            return z
        torch.randn = basis
        s = tonp(dist.sample(dim + 1))
    finally:
        torch.randn = old
    s = s.reshape(len(covs), dim + 1, dim)
    for k in range(len(covs)):
        cx.close(s[k, -1], p[0][k], f'sample for a null noise, {where}')
        A = (s[k, :-1] - p[0][k]).T
        cx.close(A @ A.T, covs[k], f'covariance of the samples, {where}',
                 1e-6, 1e-8)
    cx.step(3)


def likelihood(cx, fam, dim, n, salt, dist, where):
    lik = dist.conjugate()
    kind = LIK[fam]
    rdim = lik.sufficient_statistics_dim(zero_stats=False)
    want_dim = {'dirichlet': dim - 1, 'gamma': 2 * dim,
                'isonormalgamma': dim + 1, 'normalgamma': 2 * dim,
                'normalwishart': 2 * dim + dim * (dim - 1) // 2,
                'normaldiag': dim}[fam]
    cx.same(rdim, want_dim, f'number of free parameters, {where}')
    R = np.array([[2 * gen(k, i, salt + 40) - 1 for i in range(rdim)]
                  for k in range(n)])
    pdf = lik.pdfvectors_from_rvectors(torch.tensor(R))
    cx.step(2)
    if kind == 'fixed':
        X = np.array([[5 * gen(t, i, 77) - 2.5 for i in range(dim)]
                      for t in range(5)])
        got = lik(pdf, lik.sufficient_statistics(torch.tensor(X)))
        want = np.array([[S.multivariate_normal(r, np.eye(dim)).logpdf(x)
                          + .5 * (x ** 2).sum() for r in R] for x in X])
        cx.close(got.reshape(want.shape), want, f'likelihood, {where}')
        return
    if kind == 'categorical':
        X = np.eye(dim)
        for scale in (1., 20., 900., 30000.):
            e = np.concatenate([R * scale, np.zeros((n, 1))], 1)
            logp = e - np.logaddexp.reduce(e, axis=1)[:, None]
            probs = np.exp(logp)
            pdf = lik.pdfvectors_from_rvectors(torch.tensor(R * scale))
            got = lik(pdf, lik.sufficient_statistics(torch.tensor(X)))
            cx.close(got, logp.T, f'likelihood, scale {scale}, {where}')
            cx.close(lik.parameters_from_pdfvector(pdf), probs,
                     f'parameters of the likelihood, scale {scale}, {where}')
            cx.close(lik.parameters_from_pdfvector(pdf[0]), probs[0],
                     f'parameters of one likelihood, scale {scale}, {where}')
        return
    if kind == 'gamma':
        X = np.array([[.1 + 4 * gen(t, i, 77) for i in range(dim)]
                      for t in range(5)])
        a, b = np.exp(R[:, :dim]), np.exp(R[:, dim:])
        got = lik(pdf, lik.sufficient_statistics(torch.tensor(X)))
        want = np.array([[S.gamma.logpdf(x, ai, scale=1 / bi).sum()
                          for ai, bi in zip(a, b)] for x in X])
        cx.close(got, want, f'likelihood, {where}', 1e-4, 1e-4)
        s, r = lik.parameters_from_pdfvector(pdf)
        cx.close(s, a, f'shape of the likelihood, {where}', 1e-4)
        cx.close(r, b, f'rate of the likelihood, {where}', 1e-4)
        return
    X = np.array([[5 * gen(t, i, 77) - 2.5 for i in range(dim)]
                  for t in range(5)])
    mean = R[:, :dim]
    if fam == 'isonormalgamma':
        precs = [np.exp(r[dim]) * np.eye(dim) for r in R]
    elif fam == 'normalgamma':
        precs = [np.diag(np.exp(r[dim:])) for r in R]
    else:
        precs = []
        for r in R:
            L = np.zeros((dim, dim))
            L[np.tril_indices(dim, -1)] = r[2 * dim:]
            L[np.diag_indices(dim)] = np.exp(.5 * r[dim:2 * dim])
            precs.append(L @ L.T)
    got = lik(pdf, lik.sufficient_statistics(torch.tensor(X)))
    want = np.array([[S.multivariate_normal(m, np.linalg.inv(q)).logpdf(x)
                      for m, q in zip(mean, precs)] for x in X])
    cx.close(got, want, f'likelihood, {where}')
    m, q = lik.parameters_from_pdfvector(pdf)
    cx.close(m, mean, f'mean of the likelihood, {where}')
    if fam == 'isonormalgamma':
        precs = [[q[0, 0]] for q in precs]
    elif fam == 'normalgamma':
        precs = [np.diag(q) for q in precs]
    cx.close(q.reshape(n, -1), np.array(precs).reshape(n, -1),
             f'precision of the likelihood, {where}')
    m, q = lik.parameters_from_pdfvector(pdf[0])
    cx.close(m, mean[0], f'mean of one likelihood, {where}')
    cx.close(q.reshape(-1), np.array(precs[0]).reshape(-1),
             f'precision of one likelihood, {where}')


def run_mismatch(cx):
    'Divergences between distributions which cannot be compared.'
    for (f1, d1), (f2, d2) in itertools.product(
            itertools.product(FAM, (1, 2, 3)), repeat=2):
        a, _ = make(f1, 0, d1, 1)
        b, _ = make(f2, 0, d2, 1)
        cx.step()
        if (f1, d1) == (f2, d2):
            kl_div(a, b)
            continue
        what = f'divergence of {f1} dim={d1} and {f2} dim={d2}'
        try:
            kl_div(a, b)
        except Exception as e:
            cx.check(type(e).__module__.startswith('beer'),
                     f'{what} reported by {e!r}')
        else:
            cx.fail(f'{what} not reported')
        cx.state(f1, d1, f2, d2)
        cx.label('mismatch')
    cx.trace()
