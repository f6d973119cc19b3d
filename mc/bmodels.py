"""Small real models with known, distinct parameters."""
import numpy as np
import torch
from mc.graphs import gen
import beer
from beer import dists

COVS = ['isotropic', 'diagonal', 'full']


def std_params(cov, size, dim, salt=0):
    'numpy standard parameters of `size` Normal-(Gamma/Wishart).'
    mean = np.array([[4 * gen(k, i, salt) - 2 for i in range(dim)]
                     for k in range(size)])
    scale = np.array([[.5 + 3 * gen(k, 7, salt)] for k in range(size)])
    if cov == 'isotropic':
        shape = np.array([[.7 + 2 * gen(k, 9, salt)] for k in range(size)])
        rate = np.array([[.3 + 2 * gen(k, 11, salt)] for k in range(size)])
        return mean, scale, shape, rate
    if cov == 'diagonal':
        shape = np.array([[.7 + 2 * gen(k, 9, salt)] for k in range(size)])
        rates = np.array([[.3 + 2 * gen(k, i, salt + 11) for i in range(dim)]
                          for k in range(size)])
        return mean, scale, shape, rates
    mats = []
    for k in range(size):
        a = np.array([[gen(i, j, salt + k) - .4 for j in range(dim)]
                      for i in range(dim)])
        mats.append(a @ a.T + np.diag([.2 + gen(k, i, 3) for i in range(dim)]))
    dof = np.array([[dim + 3 * gen(k, 13, salt)] for k in range(size)])
    return mean, scale, np.array(mats), dof


DIST = {'isotropic': dists.IsotropicNormalGamma,
        'diagonal': dists.NormalGamma,
        'full': dists.NormalWishart}


def make_dist(cov, params, dtype=torch.float64):
    return DIST[cov].from_std_parameters(
        *[torch.tensor(p, dtype=dtype) for p in params])


def normalset(cov, size, dim=2, salt=0, dtype=torch.float64):
    prior = make_dist(cov, std_params(cov, size, dim, salt + 50), dtype)
    post = make_dist(cov, std_params(cov, size, dim, salt), dtype)
    return beer.NormalSet(beer.ConjugateBayesianParameter(prior, post))


def data(T, dim=2, salt=0, dtype=torch.float64):
    return torch.tensor([[5 * gen(t, i, salt + 21) - 2.5 for i in range(dim)]
                         for t in range(T)], dtype=dtype)


def nparams(dist):
    return dist.natural_parameters().detach().numpy().astype(np.float64)
