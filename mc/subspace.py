"""Subspaces of parameters: models, tables of samples, reference values."""
import copy
import numpy as np
import torch
import beer
from beer import dists
from mc import bmodels as B
from mc.core import tonp
from mc.graphs import gen
from mc.refmodels import RefNormals


def table(mean, salt, var=.3):
    'Normal distribution whose samples are given by a table of noises.'
    mean = torch.tensor(mean)
    d = dists.NormalDiagonalCovariance(dists.NormalDiagonalCovarianceStdParams(
        mean, torch.full_like(mean, var)))
    d.salt = salt

    def sample(nsamples):
        x = torch.tensor(draws(d, nsamples))
        return x[0] if d.params.mean.dim() == 1 else x
    d.sample = sample
    return d


def draws(dist, nsamples):
    'Samples [N, nsamples, D] of such a distribution.'
    mean, var = tonp(dist.params.mean), tonp(dist.params.diag_cov)
    D = mean.shape[-1]
    N = mean.size // D
    noise = np.array([[[3 * gen(i, 5 * s + j, dist.salt) - 1.5
                        for j in range(D)] for s in range(nsamples)]
                      for i in range(N)])
    return mean.reshape(N, 1, D) + np.sqrt(var).reshape(N, 1, D) * noise


def mean_table(shape, salt):
    return np.array([[.8 * gen(i, j, salt) - .4 for j in range(shape[1])]
                     for i in range(shape[0])])


def emissions(case, n):
    'A set of `n` states.'
    cov, S, C = case['cov'], n, case['C']
    if case['kind'] == 'nested':
        ns = emissions(dict(case, kind='mixtures', C=2), S * C)
    else:
        ns = B.normalset(cov, S * C, 2, 5)
    if case['kind'] == 'normals':
        return ns
    conc = np.array([[1. + gen(s, c, 2) for c in range(C)] for s in range(S)])
    return beer.MixtureSet(beer.CategoricalSet(beer.ConjugateBayesianParameter(
        *[dists.Dirichlet.from_std_parameters(torch.tensor(conc))
          for _ in range(2)])), ns)


def params_of(model):
    return [p for g in model.mean_field_factorization() for p in g]


def subspace(model, prior):
    model.replace_parameters({
        p: beer.SubspaceBayesianParameter.from_parameter(p, prior)
        for p in params_of(model)})
    return model


def latent_prior(D, salt=9):
    ns = B.normalset('full', 1, D, salt)
    return beer.Normal(beer.ConjugateBayesianParameter(
        *[B.DIST['full'].from_std_parameters(
            *[getattr(p.params, n)[0] for n in
              ('mean', 'scale', 'scale_matrix', 'dof')])
          for p in (ns.means_precisions.prior,
                    ns.means_precisions.posterior)]))


def affine(D, Q, salt, bias=True):
    def pq(n, s):
        mean = mean_table((1, n), s)[0]
        prior = dists.NormalDiagonalCovariance.from_std_parameters(
            torch.zeros(n), torch.full((n,), .7))
        return prior, table(mean, s + 1)
    pw, qw = pq(D * Q, salt)
    pb, qb = pq(Q, salt + 2)
    if not bias:
        from beer.models.gsm import LinearTransform
        return LinearTransform(pw, qw, Q)
    return beer.AffineTransform(pw, qw, pb, qb)


def rvec_dims(unit):
    return [(p, p.likelihood_fn.sufficient_statistics_dim(zero_stats=False),
             len(p)) for p in params_of(unit)]


def transform(aff, h, P):
    'All the images of h [D]: [P, Q].'
    D, Q = aff.in_dim, aff.out_dim
    W = draws(aff.weights.posterior, P)[0].reshape(P, D, Q)
    out = np.einsum('d,pdq->pq', h, W)
    if hasattr(aff, 'bias'):
        out = out + draws(aff.bias.posterior, P)[0]
    return out


def pdfvecs(unit, rvecs):
    'Mean over the samples of the pdf-vectors: list of [size, dim] arrays.'
    out, i = [], 0
    for p, d, n in rvec_dims(unit):
        v = rvecs[:, i:i + d * n].reshape(len(rvecs) * n, d)
        i += d * n
        q = tonp(p.likelihood_fn.pdfvectors_from_rvectors(torch.tensor(v)))
        out.append(q.reshape(len(rvecs), n, -1).mean(0))
    return out


def flat(x):
    return np.concatenate([a.reshape(-1) for a in x])


def local_kl(prior, h, post, i):
    'Monte-Carlo divergence of the i-th embedding from its samples.'
    ref = RefNormals.read('full', prior.mean_precision)
    lp = ref.ellh(h)[:, 0].mean()
    m = tonp(post.params.mean).reshape(-1, h.shape[1])[i]
    v = tonp(post.params.diag_cov).reshape(-1, h.shape[1])[i]
    lq = -.5 * (np.log(2 * np.pi * v) + (h - m) ** 2 / v).sum(1).mean()
    return lq - lp


def set_stats(param, salt):
    param.stats = torch.tensor(
        [[3 * gen(i, j, salt) for j in range(param.stats.shape[-1])]
         for i in range(len(param))])


def setup(case):
    S, N, D = case['S'], case['N'], case['D']
    prior = latent_prior(D)
    em = subspace(emissions(case, S * N), prior)
    for k, p in enumerate(params_of(em)):
        set_stats(p, 40 + k)
    units = [em[i * S:(i + 1) * S] for i in range(N)]
    Q = sum(d * n for _, d, n in rvec_dims(units[0]))
    tpl = copy.deepcopy(units[0])
    posts = table(mean_table((N, D), 70), 71)
    return prior, em, units, tpl, Q, posts


class Noise:
    'Replays a table of noises in place of the normal generator.'

    def __init__(self):
        self.n = 0

    def __enter__(self):
        self.randn = torch.randn
        torch.randn = self.draw
        return self

    def __exit__(self, *exc):
        torch.randn = self.randn

    def draw(self, *size, **kw):
        self.n += 1
        n = int(np.prod(size))
        x = [3 * gen(self.n, i, 7) - 1.5 for i in range(n)]
        return torch.tensor(x, dtype=kw.get('dtype')).reshape(*size)
