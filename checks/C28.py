"""Auto-regressive networks, inverse auto-regressive flows and probabilistic
layers: exhaustive draws of the connections, densities against their
definition and the change of variables."""
import contextlib
import itertools
import math
import numpy as np
import torch
from beer import nnet
from mc.choice import explore, random_source
from mc.core import tonp
from mc.graphs import gen

PROP = 'C28'
CHUNK = 2
BOUNDS = {
    'quick': 'dimension 1-4, 1-3 hidden layers of 1-4 units, 0-2 parameters '
             'of the flow: every draw of the connections when there are at '
             'most 300 of them; flows of 0-3 steps of dimension 1-3 with small or large '
             'weights; 4 '
             'layers x dimensions 1-3 x 1-3 rows x 4 tables of noise',
    'thorough': 'at most 5000 draws; dimension up to 5',
}
ASSUMPTIONS = ['the draws of `random`, torch.randint and the Gaussian noise '
               'are replaced by the explorer',
               'dependence is read in the derivatives at 2 points, with '
               'generic weights']


def cases(tier):
    big = tier == 'thorough'
    for dim, depth, width, flow in itertools.product(
            range(1, 6 if big else 5), (1, 2, 3), range(1, 5), (0, 1, 2)):
        if max(1, dim - 1) ** (depth * width) <= (5000 if big else 300):
            yield {'k': 'ar', 'dim': dim, 'depth': depth, 'width': width,
                   'flow': flow}
    for dim, steps in itertools.product((1, 2, 3), (0, 1, 2, 3)):
        for layer in ('diagonal', 'isotropic'):
            for gain in (1., 5.):
                yield {'k': 'flow', 'dim': dim, 'steps': steps,
                       'layer': layer, 'gain': gain,
                       'draws': 60 if big else 12}
    for layer in ('diagonal', 'isotropic', 'identity', 'bernoulli'):
        for di, do in itertools.product((1, 2, 3), repeat=2):
            yield {'k': 'layer', 'layer': layer, 'di': di, 'do': do}


@contextlib.contextmanager
def noise(fn):
    old = torch.randn, torch.randn_like

    def randn(*size, dtype=None, device=None, **kw):
        if len(size) == 1 and not isinstance(size[0], int):
            size = tuple(size[0])
        return fn(tuple(size))
    torch.randn = randn
    torch.randn_like = lambda x, **kw: randn(*x.shape)
    try:
        yield
    finally:
        torch.randn, torch.randn_like = old


def fill(module, salt):
    for k, (_, p) in enumerate(sorted(module.named_parameters())):
        with torch.no_grad():
            p.copy_(torch.tensor(
                [1.7 * gen(i, k, salt) - .85 + (.1 if k % 2 else -.1)
                 for i in range(p.numel())]).view(p.shape))


def table(shape, k):
    n = int(np.prod(shape))
    if k == 0:
        return torch.zeros(shape)
    return torch.tensor([3 * gen(i, k, 91) - 1.5 for i in range(n)]
                        ).reshape(shape)


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)


def build(ch, dim, flow, depth, width, salt):
    with random_source(ch):
        net = nnet.AutoRegressiveNetwork(dim, flow, depth, width,
                                         torch.nn.Tanh())
    fill(net, salt)
    return net


def jac(fn, x):
    return torch.autograd.functional.jacobian(fn, x)


def run_ar(case, cx):
    dim, flow = case['dim'], case['flow']
    union = np.zeros((dim, dim), bool)

    def one(ch):
        net = build(ch, dim, flow, case['depth'], case['width'], 5)
        dep = np.zeros((2, dim, dim), bool)
        for point in (1, 2):
            x = table((2, dim), point)
            extra = [table((2, flow), point + 5)] if flow else []
            what = f'{case} draw={ch.taken} point={point}'
            mean, var = net(x, *extra)
            cx.same(list(mean.shape), [2, dim], f'shape: {what}')
            cx.same(list(var.shape), [2, dim], f'shape: {what}')
            cx.check(bool((var > 0).all()), f'variance: {what}')
            for o in (0, 1):
                J = tonp(jac(lambda z: net(z, *extra)[o], x))
                for d, j in itertools.product(range(dim), repeat=2):
                    if j >= d:
                        cx.check(J[0, d, 0, j] == 0 and J[1, d, 1, j] == 0,
                                 f'output {d} of {"mean variance".split()[o]}'
                                 f' depends on the input {j}: {what}')
                    dep[o, d, j] |= abs(J[0, d, 0, j]) > 1e-14
                cx.check(not J[0, :, 1].any() and not J[1, :, 0].any(),
                         f'rows depend on each other: {what}')
            # one row alone
            for r in (0, 1):
                m, v = net(x[r:r + 1], *[e[r:r + 1] for e in extra])
                cx.close(m, mean[r:r + 1], f'row alone: {what}')
                cx.close(v, var[r:r + 1], f'row alone: {what}')
            # inputs are left as they were
            cx.close(x, table((2, dim), point), f'input changed: {what}')
        for o in (0, 1):
            for d, j in itertools.product(range(dim), repeat=2):
                if dep[o, d, j]:
                    for d2, j2 in itertools.product(range(d, dim),
                                                    range(j + 1)):
                        cx.check(dep[o, d2, j2],
                                 f'output {d} depends on input {j} but not '
                                 f'{d2} on {j2}: {case} draw={ch.taken}')
        union[dep[0]] = True
        cx.state(str(case), *ch.taken)
        cx.step()
        cx.trace()

    n = explore(one)
    if dim > 1:
        cx.check(n > 1 or dim == 2, f'no draw of the connections: {case}')
    # every order-respecting dependence exists for some draw
    for d in range(dim):
        for j in range(d):
            cx.check(union[d, j], f'output {d} never depends on input {j}: '
                     f'{case}')
    cx.label(f'dim {dim} depth {case["depth"]}')


def normal_layer(kind, di, do):
    return {'diagonal': nnet.NormalDiagonalCovarianceLayer,
            'isotropic': nnet.NormalIsotropicCovarianceLayer,
            'identity': nnet.NormalIdentityCovarianceLayer,
            'bernoulli': nnet.BernoulliLayer}[kind](di, do)


def run_flow(case, cx):
    dim, F, T = case['dim'], 2, 2

    def one(ch):
        steps = torch.nn.ModuleList(
            [build(ch, dim, F, 1, 2, 7 + s) for s in range(case['steps'])])
        layer = nnet.InverseAutoRegressiveFlow(
            2, F, normal_layer(case['layer'], 2, dim), steps)
        fill(layer, 11)
        with torch.no_grad():
            for p in steps.parameters():
                p.mul_(case['gain'])
        x = table((T, 2), 3)
        for k in range(4):
            for use_mean in (False, True):
                what = f'{case} draw={ch.taken} noise={k} mean={use_mean}'
                eps = table((T, dim), 0 if use_mean else k)
                params = layer(x)
                before = [p.detach().clone() for p in
                          (*params[0], params[1])]
                with noise(lambda size: eps.reshape(size)):
                    sample, llh = layer.samples_and_llh(params, use_mean)
                for p, q in zip((*params[0], params[1]), before):
                    cx.close(p, q, f'parameters changed: {what}')
                cx.same(list(sample.shape), [T, dim], f'shape: {what}')
                cx.same(list(llh.shape), [T], f'shape: {what}')

                def draw(e):
                    with noise(lambda size: e):
                        return layer.samples_and_llh(layer(x))[0]
                cx.close(sample, draw(eps), f'sample: {what}')
                J = jac(draw, eps)
                for t in range(T):
                    sign, logdet = torch.linalg.slogdet(J[t, :, t])
                    base = -.5 * (eps[t] ** 2 + math.log(2 * math.pi)).sum()
                    cx.close(llh[t], base - logdet,
                             f'density of the sample {t}: {what}')
                    for t2 in range(T):
                        if t2 != t:
                            cx.check(not J[t, :, t2].any(), 'rows depend on '
                                     f'each other: {what}')
                # Derivatives of the samples and of their densities.
                w = table((T, dim), 5), table((T,), 6)

                def value(e, inp):
                    with noise(lambda size: e):
                        y, ll = layer.samples_and_llh(layer(inp), use_mean)
                    return (w[0] * y).sum() + (w[1] * ll).sum()
                ins = [eps.clone().requires_grad_(), x.clone().requires_grad_()]
                grads = torch.autograd.grad(value(*ins), ins,
                                            allow_unused=True)
                if use_mean:
                    grads = [torch.zeros_like(eps), grads[1]]
                for n, (a, g) in enumerate(zip(ins, grads)):
                    d = table(tuple(a.shape), 8)
                    vals = []
                    for h in (1e-5, -1e-5):
                        args = [b.detach() for b in ins]
                        args[n] = args[n] + h * d
                        vals.append(float(value(*args).detach()))
                    cx.close((g * d).sum(), (vals[0] - vals[1]) / 2e-5,
                             f'derivative {n} of the samples: {what}',
                             1e-5, 1e-6)
                # first stage: Normal of the layer
                if case['steps'] == 0:
                    m, v = params[0]
                    cx.close(sample, m + v.sqrt() * eps, f'sample: {what}')
                cx.step()
        cx.state(str(case), *ch.taken)
        cx.trace()

    explore(one, case['draws'])
    cx.label(f'flow of {case["steps"]} steps')


def run_layer(case, cx):
    kind, di, do = case['layer'], case['di'], case['do']
    layer = normal_layer(kind, di, do)
    fill(layer, 3)
    sd = dict(layer.named_parameters())
    for T in (1, 2, 3):
        x = table((T, di), T)
        m = x @ sd['mean.weight'].t() + sd['mean.bias']
        if kind == 'bernoulli':
            p = layer(x)
            cx.close(p, torch.sigmoid(m), f'probabilities: {case}')
            total = 0.
            for bits in itertools.product((0., 1.), repeat=do):
                data = torch.tensor([bits] * T)
                llh = layer.log_likelihood(data, p)
                want = torch.where(data == 1, p, 1 - p).log().sum(-1)
                cx.close(llh, want, f'{case} {bits}', 1e-4, 1e-4)
                total = total + llh.exp()
            cx.close(total, torch.ones(T), f'normalised: {case}', 1e-4, 1e-4)
            cx.raises(NotImplementedError,
                      lambda: layer.samples_and_llh(p), 'samples')
            cx.step()
            continue
        if kind == 'identity':
            v = torch.ones(T, do)
            params = layer(x)
            cx.close(params, m, f'mean: {case}')
        else:
            v = torch.nn.functional.softplus(
                x @ sd['logvar.weight'].t() + sd['logvar.bias'])
            v = v * torch.ones(T, do)
            params = layer(x)
            cx.close(params[0], m, f'mean: {case}')
            cx.close(params[1], v, f'variance: {case}')
        for k in range(4):
            for use_mean in (False, True):
                eps = table((T, do), 0 if use_mean else k)
                what = f'{case} T={T} noise={k} mean={use_mean}'
                with noise(lambda size: eps.reshape(size)):
                    sample, llh = layer.samples_and_llh(params, use_mean)
                want = m + v.sqrt() * eps
                cx.close(sample, want, f'sample: {what}')
                ref = -.5 * ((want - m) ** 2 / v + (2 * math.pi * v).log()
                             ).sum(-1)
                cx.close(llh, ref, f'density of the sample: {what}')
                other = table((T, do), k + 3)
                ref = -.5 * ((other - m) ** 2 / v + (2 * math.pi * v).log()
                             ).sum(-1)
                cx.close(layer.log_likelihood(other, params), ref,
                         f'density: {what}')
                # reparameterisation: gradients go through the samples
                layer.zero_grad()
                g1 = torch.autograd.grad(sample.sum(), list(sd.values()),
                                         retain_graph=True, allow_unused=True)
                g2 = torch.autograd.grad(want.sum(), list(sd.values()),
                                         retain_graph=True, allow_unused=True)
                for n, a, b in zip(sd, g1, g2):
                    z = torch.zeros_like(sd[n])
                    cx.close(z if a is None else a, z if b is None else b,
                             f'gradient of {n}: {what}')
                cx.step()
        # another nonlinearity of the variances
        if kind != 'identity':
            l2 = type(layer)(di, do, torch.nn.Sigmoid())
            l2.load_state_dict(layer.state_dict())
            cx.close(l2(x)[1], torch.sigmoid(
                x @ sd['logvar.weight'].t() + sd['logvar.bias'])
                * torch.ones(T, do), f'nonlinearity: {case}')
    cx.state(str(case))
    cx.trace()
    cx.label(kind)
