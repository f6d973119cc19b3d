"""Variational auto-encoder: objective, statistics of the prior and gradients
of the networks against their definition, for tables of noise."""
import contextlib
import itertools
import math
import numpy as np
import torch
import beer
from beer import nnet
from beer.graph import CompiledGraph
from mc import bmodels as B
from mc import weights as W
from mc.core import tonp
from mc.graphs import gen

PROP = 'C29'
CHUNK = 4
BOUNDS = {
    'quick': '8 priors (Normal x 3 covariances, mixture, HMM, phone-loop, the '
             'last two also with mixtures as emissions) x '
             'dimensions 1-3 of data and latent space x 1-4 frames x 1-3 '
             'samples x 3 tables of noise x 4 weightings; histories of 3 '
             'training steps',
    'thorough': '1-5 frames, 1-4 samples, 6 tables of noise, 5 steps',
}
ASSUMPTIONS = ['the generator of Gaussian noise is replaced by tables',
               'with several samples and a prior which is not a Normal, the '
               'objective uses the average of their statistics (a lower '
               'bound)']
PRIORS = ['isotropic', 'diagonal', 'full', 'mixture', 'hmm', 'loop',
          'hmmmix', 'loopmix']


def cases(tier):
    big = tier == 'thorough'
    for prior in PRIORS:
        for dx, dz in itertools.product((1, 2, 3), repeat=2):
            for T in range(1, 6 if big else 5):
                if prior.startswith('loop') and T < 2:
                    continue
                yield {'k': 'objective', 'prior': prior, 'dx': dx, 'dz': dz,
                       'T': T, 'S': 4 if big else 3,
                       'tables': 6 if big else 3}
        for dz in (1, 2, 3):
            for T in range(2, 6 if big else 5):
                yield {'k': 'slope', 'prior': prior, 'dz': dz, 'T': T,
                       'salts': 6 if big else 3}
        for salt in range(4 if big else 2):
            yield {'k': 'train', 'prior': prior, 'salt': salt,
                   'steps': 5 if big else 3}


@contextlib.contextmanager
def noise(table):
    'Replace the source of Gaussian noise.'
    old = torch.randn, torch.randn_like, torch.normal
    calls = []

    def randn(*size, dtype=None, device=None, **kw):
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        calls.append(size)
        n = int(np.prod(size))
        x = [3 * gen(i, len(calls), table + 40) - 1.5 for i in range(n)]
        if table == 0:
            x = [0.] * n
        return torch.tensor(x, dtype=dtype).reshape(size)

    torch.randn = randn
    torch.randn_like = lambda x, **kw: randn(*x.shape, dtype=x.dtype)
    try:
        yield randn
    finally:
        torch.randn, torch.randn_like, torch.normal = old


def make_prior(kind, dim):
    if kind in B.COVS:
        ns = B.normalset(kind, 1, dim, 3)
        one = [type(d).from_std_parameters(*[
            getattr(d.params, n)[0] for n in NAMES[kind]])
            for d in (ns.means_precisions.prior,
                      ns.means_precisions.posterior)]
        return beer.Normal(beer.ConjugateBayesianParameter(*one))
    if kind == 'mixture':
        return beer.Mixture(W.make('dirichlet', 2)[0],
                            B.normalset('diagonal', 2, dim, 3))
    init = np.array([.6, .4])
    trans = np.array([[.7, .3], [.2, .8]])
    def emissions(n):
        if not kind.endswith('mix'):
            return B.normalset('diagonal', n, dim, 3)
        return beer.MixtureSet.create(n, B.normalset('diagonal', 2 * n, dim,
                                                     3))
    if kind.startswith('hmm'):
        g = CompiledGraph(*[torch.tensor(x).log() for x in (
            init, init, trans)], [0, 1])
        return beer.HMM.create(g, emissions(2))
    from checks.C06 import base_graph, LAYOUTS
    units, n = LAYOUTS['two']
    g = CompiledGraph(*[torch.tensor(x).log() for x in base_graph(units, n)],
                      list(range(n)))
    return beer.PhoneLoop.create(
        g, {u: s for u, (s, e) in units.items()},
        {u: e for u, (s, e) in units.items()},
        emissions(n), W.make('dirichlet', 2)[0])


NAMES = {'isotropic': ['mean', 'scale', 'shape', 'rate'],
         'diagonal': ['mean', 'scale', 'shape', 'rates'],
         'full': ['mean', 'scale', 'scale_matrix', 'dof']}


def make(kind, dx, dz, salt=0):
    vae = beer.VAE(make_prior(kind, dz),
                   nnet.ResidualFeedForwardNet(dx, 1, 2),
                   nnet.ResidualFeedForwardNet(dz, 1, 3))
    for k, (_, p) in enumerate(sorted(vae.named_parameters())):
        with torch.no_grad():
            p.copy_(torch.tensor([1.6 * gen(i, k, salt + 3) - .8
                                  for i in range(p.numel())]).view(p.shape))
    return vae


def logn(x, mean, var):
    return -.5 * ((x - mean) ** 2 / var + torch.log(2 * math.pi * var)
                  ).sum(-1)


def lin(layer, x):
    return x @ layer.weight.t() + layer.bias


def net(m, x):
    for b in m.blocks:
        h = torch.tanh(lin(b.layer1, x))
        x = torch.tanh(lin(b.layer2, h)) + x
    return x


def reference(vae, X, eps, llhw=1., klw=1.):
    'Objective of each frame, latent samples [T, S, dz].'
    H = net(vae.encoder, X)
    mean = lin(vae.enc_mean_layer, H)
    var = 1e-5 + lin(vae.enc_var_layer, H).exp()
    Z = mean[:, None] + var.sqrt()[:, None] * eps
    logq = logn(Z, mean[:, None], var[:, None]).mean(1)
    stats = torch.stack([
        vae.prior.sufficient_statistics(Z[:, s])
        for s in range(Z.shape[1])]).mean(0)
    logp = vae.prior.expected_log_likelihood(stats).reshape(-1)
    D = net(vae.decoder, Z)
    llh = logn(X[:, None], lin(vae.dec_mean_layer, D),
               1e-5 + lin(vae.dec_var_layer, D).exp()).mean(1)
    return llhw * llh - klw * (logq - logp), stats


def grads(model):
    out = {}
    for n, p in model.named_parameters():
        if p.requires_grad:
            out[n] = None if p.grad is None else p.grad.clone()
            p.grad = None
    return out


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)


def run_objective(case, cx):
    T, dx, dz = case['T'], case['dx'], case['dz']
    X = B.data(T, dx, 3)
    vae = make(case['prior'], dx, dz)
    for S, table, (lw, kw) in itertools.product(
            range(1, case['S'] + 1), range(case['tables']),
            ((1., 1.), (1., 0.), (0., 1.), (2., .5))):
        what = f'{case} S={S} table={table} weights={lw, kw}'
        with noise(table) as randn:
            eps = randn(T, S, dz)
        with noise(table):
            vae.zero_grad()
            elbo = beer.evidence_lower_bound(
                vae, X, nsamples=S, llh_weight=lw, kl_weight=kw)
            elbo.backward()
        got = grads(vae)
        acc = {p: tonp(p.stats).copy()
               for p in vae.bayesian_parameters()}
        ref, stats = reference(vae, X, eps, lw, kw)
        total = ref.sum() - vae.kl_div_posterior_prior().sum()
        (-total).backward()
        want = grads(vae)
        cx.close(float(elbo), total.item(), f'objective: {what}')
        # Value of each frame.
        with noise(table):
            each = vae.expected_log_likelihood(
                vae.sufficient_statistics(X), nsamples=S, llh_weight=lw,
                kl_weight=kw)
        vae.clear_cache()
        if each.reshape(-1).shape == ref.shape:
            cx.close(each.reshape(-1), ref, f'value of each frame: {what}')
        else:
            # Evidence of the sequence as a whole.
            cx.close(each.sum(), ref.sum(), f'value of the frames: {what}')
        for n, g in want.items():
            if got[n] is None:
                cx.check(g is None or float(g.abs().max()) < 1e-12,
                         f'no gradient for {n}: {what}')
            elif g is not None:
                cx.close(got[n], g, f'gradient of {n}: {what}', 1e-6, 1e-8)
        # The statistics of the prior are those of the samples.
        with torch.no_grad():
            vae.prior.expected_log_likelihood(stats)
        for p, s in vae.prior.accumulate(stats).items():
            cx.close(acc[p], s, f'statistics of the prior: {what}')
        vae.prior.clear_cache()
        if case['prior'] in ('mixture',) and lw == kw == 1.:
            # Lower bound of the average over the samples.
            H = net(vae.encoder, X)
            mean = lin(vae.enc_mean_layer, H)
            var = 1e-5 + lin(vae.enc_var_layer, H).exp()
            Z = mean[:, None] + var.sqrt()[:, None] * eps
            exact = sum(vae.prior.expected_log_likelihood(
                vae.prior.sufficient_statistics(Z[:, s])).sum().item()
                for s in range(S)) / S
            used = vae.prior.expected_log_likelihood(stats).sum().item()
            cx.check(used <= exact + 1e-9, f'not a lower bound: {what}')
            vae.prior.clear_cache()
        cx.step()
        cx.state(case['prior'], T, dx, dz, S, table, lw, kw)
        cx.trace()
    # The mean of the data frames does not mix the frames: each frame alone.
    if case['prior'] in B.COVS:
        with noise(0):
            full = beer.evidence_lower_bound(vae, X)
            kl = float(vae.kl_div_posterior_prior())
            parts = [float(beer.evidence_lower_bound(vae, X[t:t + 1])) + kl
                     for t in range(T)]
        cx.close(float(full) + kl, sum(parts), f'sum over the frames: {case}')
    cx.label(case['prior'])


def evidence(prior, Z):
    'Log-evidence of a sequence (sum over all the paths of a graph).'
    stats = prior.sufficient_statistics(Z)
    if not hasattr(prior, 'graph'):
        return float(prior.expected_log_likelihood(stats).sum())
    g = prior.graph
    order = g.pdf_id_mapping
    llhs = tonp(prior.modelset.expected_log_likelihood(
        stats, list(order) if order is not None else None))
    init, final, trans = (tonp(x) for x in (
        g.init_log_probs, g.final_log_probs, g.trans_log_probs))
    alpha = init + llhs[0]
    for llh in llhs[1:]:
        alpha = np.logaddexp.reduce(alpha[:, None] + trans, axis=0) + llh
    return float(np.logaddexp.reduce(alpha + final))


def run_slope(case, cx):
    'The prior attracts the samples as the slope of its log-evidence.'
    prior = make_prior(case['prior'], case['dz'])
    for salt in range(case['salts']):
        Z = B.data(case['T'], case['dz'], 7 + salt)
        Z.requires_grad_(True)
        value = prior.expected_log_likelihood(
            prior.sufficient_statistics(Z)).sum()
        cx.check(value.requires_grad,
                 f'no gradient from the prior: {case} {salt}')
        grad, = torch.autograd.grad(value, Z)
        Z = Z.detach()
        want = torch.zeros_like(Z)
        for t, d in itertools.product(range(case['T']), range(case['dz'])):
            E = torch.zeros_like(Z)
            E[t, d] = 1e-5
            want[t, d] = (evidence(prior, Z + E)
                          - evidence(prior, Z - E)) / 2e-5
            cx.step()
        prior.clear_cache()
        cx.close(grad, want, f'gradient from the prior: {case} {salt}',
                 1e-5, 1e-6)
        cx.state('slope', case['prior'], case['T'], case['dz'], salt)
        cx.trace()
    cx.label('slope')


def run_train(case, cx):
    'Training steps change the networks and the prior as their definition.'
    X = B.data(4, 2, case['salt'])
    a = make(case['prior'], 2, 2, case['salt'])
    b = make(case['prior'], 2, 2, case['salt'])
    optims = []
    for m in (a, b):
        std = torch.optim.SGD([p for p in m.parameters() if p.requires_grad],
                              lr=.01)
        optims.append(beer.VBOptimizer(beer.VBConjugateOptimizer(
            m.conjugate_bayesian_parameters(keepgroups=True), .7), std))
    for step in range(case['steps']):
        table, S = step % 3, 1 + step % 2
        with noise(table) as randn:
            eps = randn(4, S, 2)
        optims[0].init_step()
        with noise(table):
            beer.evidence_lower_bound(a, X, nsamples=S,
                                      datasize=10).backward()
        optims[0].step()
        optims[1].init_step()
        ref, stats = reference(b, X, eps)
        (-(2.5 * ref.sum() - b.kl_div_posterior_prior().sum())).backward()
        for p, s in b.prior.accumulate(stats).items():
            p.store_stats(2.5 * s.detach())
        b.prior.clear_cache()
        optims[1].step()
        for (n, x), (_, y) in zip(a.state_dict().items(),
                                  b.state_dict().items()):
            if not n.endswith('stats'):
                cx.close(x, y, f'{n} after step {step}: {case}', 1e-6, 1e-8)
        cx.step()
        cx.state(str(case), step)
    cx.trace()
    cx.label('training')
