"""Numerical helpers against their definition, on enumerated tensors."""
import itertools
import math
import numpy as np
import torch
from beer import utils as beer
from mc.graphs import gen

PROP = 'C32'
CHUNK = 1
BOUNDS = {
    'quick': 'every vector of 1-4 values of {-inf, -800, 0, 1.5, 800} and '
             'matrices 2x2; every label sequence (<= 4 of <= 4 labels); every '
             'matrix 1x1, 2x2 (and symmetric 3x3) over 4-5 values; every '
             'linear and quadratic map of small size',
    'thorough': 'vectors of 5 values, matrices over 7 values',
}
ASSUMPTIONS = ['make_symposdef: the symmetric part has a positive '
               'eigenvalue']
INF = float('inf')


def cases(tier):
    big = tier == 'thorough'
    for n in range(1, 6 if big else 5):
        yield {'k': 'lse', 'n': n}
    yield {'k': 'lse2'}
    for n in range(0, 5):
        for m in range(1, 5):
            yield {'k': 'onehot', 'n': n, 'm': m}
    for dim in (1, 2, 3):
        yield {'k': 'spd', 'dim': dim, 'big': big}
    for a, b in itertools.product((1, 2, 3), repeat=2):
        yield {'k': 'jac', 'out': a, 'in': b}
    yield {'k': 'sample'}
    yield {'k': 'hessian'}


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)
    cx.label(case['k'])
    cx.trace()


def lse(xs):
    m = max(xs)
    if m in (INF, -INF):
        return m
    return m + math.log(sum(math.exp(x - m) for x in xs))


def run_lse(case, cx):
    for xs in itertools.product((-INF, -800., 0., 1.5, 800., INF),
                                repeat=case['n']):
        t = torch.tensor(xs)
        cx.close(beer.logsumexp(t, dim=0), lse(xs), f'logsumexp {xs}')
        cx.same([float(v) for v in t], list(xs), 'input changed')
        cx.state(*xs)
        cx.step()


def run_lse2(case, cx):
    for xs in itertools.product((-INF, 0., 1.5, 800.), repeat=4):
        t = torch.tensor(xs).view(2, 2)
        for dim in (0, 1, -1, -2):
            ref = [lse([t[i, j].item() for j in range(2)]) for i in range(2)] \
                if dim in (1, -1) else \
                [lse([t[i, j].item() for i in range(2)]) for j in range(2)]
            cx.close(beer.logsumexp(t, dim=dim), np.array(ref),
                     f'logsumexp {xs} dim={dim}')
            cx.step()
        cx.state(*xs)
    for shape in itertools.product((1, 2, 3), repeat=3):
        t = torch.tensor([4 * gen(i, 3, 5) - 2 for i in
                          range(int(np.prod(shape)))]).view(shape)
        for dim in range(-3, 3):
            got = beer.logsumexp(t, dim=dim)
            want = np.log(np.exp(t.numpy()).sum(axis=dim))
            cx.same(list(got.shape), list(want.shape), f'{shape} {dim}')
            cx.close(got, want, f'logsumexp {shape} dim={dim}')
            cx.step()


def run_onehot(case, cx):
    n, m = case['n'], case['m']
    for labels in itertools.product(range(m), repeat=n):
        for dtype in (torch.float32, torch.float64, torch.int64):
            for form in (list, lambda x: torch.tensor(x, dtype=torch.long)):
                got = beer.onehot(form(labels), m, dtype=dtype,
                                  device=torch.device('cpu'))
                cx.same(got.dtype, dtype, 'type')
                cx.same(got.tolist(), [[float(i == l) for i in range(m)]
                                       for l in labels], f'onehot {labels}')
                cx.step()
        cx.state(*labels)


def run_spd(case, cx):
    dim = case['dim']
    vals = (-3., -1., 0., .5, 2.) + ((7., -.2) if case['big'] else ())
    if dim < 3:
        mats = (np.array(x).reshape(dim, dim) for x in
                itertools.product(vals, repeat=dim * dim))
    else:
        def sym():
            for x in itertools.product((-1., 0., .5, 2.), repeat=6):
                m = np.zeros((3, 3))
                m[np.triu_indices(3)] = x
                yield m        # upper triangular: not symmetric
        mats = sym()
    for m in mats:
        t = torch.tensor(m)
        s = beer.symmetrize_matrix(t)
        cx.close(s, (m + m.T) / 2, f'symmetrize {m.tolist()}')
        ev = np.linalg.eigvalsh((m + m.T) / 2)
        if ev[-1] <= 1e-9:
            continue
        for th in (.1, .01, .5):
            what = f'make_symposdef {m.tolist()} {th}'
            r = beer.make_symposdef(t, th).numpy()
            cx.close(r, r.T, f'symmetric: {what}')
            w, v = np.linalg.eigh((m + m.T) / 2)
            nw = np.maximum(w, th * w[-1])
            cx.close(r, v @ np.diag(nw) @ v.T, what, 1e-6, 1e-9)
            cx.step()
        cx.close(beer.make_symposdef(t), beer.make_symposdef(t, .1),
                 'default threshold')
        cx.close(t, m, 'input changed')
        cx.state(str(m.tolist()))


def run_jac(case, cx):
    o, n = case['out'], case['in']
    for xs in itertools.product((-1., .5, 2.), repeat=n):
        for split in range(n):
            # outputs: A x + quadratic; the input in one or two tensors
            A = np.array([[3 * gen(i, j, 8) - 1.5 for j in range(n)]
                          for i in range(o)])
            Q = np.array([[[gen(i, j, k + 30) - .5 for k in range(n)]
                           for j in range(n)] for i in range(o)])
            x = np.array(xs)
            parts = [x[:split], x[split:]] if split else [x]
            ins = [torch.tensor(p, requires_grad=True) for p in parts]
            if n == 3 and not split:
                ins = [torch.tensor(x.reshape(3, 1), requires_grad=True)]
            z = torch.cat([i.view(-1) for i in ins])
            out = torch.tensor(A) @ z + torch.einsum(
                'ijk,j,k->i', torch.tensor(Q), z, z)
            want = A + np.einsum('ijk,k->ij', Q, x) \
                + np.einsum('ijk,j->ik', Q, x)
            for rep in range(2):
                got = beer.jacobians(out, ins)
                cx.same(len(got), len(ins), 'one matrix for each input')
                cx.close(np.concatenate([g.numpy() for g in got], axis=1),
                         want, f'jacobian {case} {xs} {split} call {rep}')
                cx.step()
            cx.state(*xs, split)


def run_sample(case, cx):
    old = torch.randn
    for N, D, S in itertools.product((1, 2, 3), repeat=3):
        eps = torch.tensor([3 * gen(i, 2, 6) - 1.5 for i in
                            range(N * D * S)]).view(S, N, D)
        mean = torch.tensor([[gen(i, j, 3) for j in range(D)]
                             for i in range(N)], requires_grad=True)
        var = torch.tensor([[.1 + gen(i, j, 4) for j in range(D)]
                            for i in range(N)], requires_grad=True)
        torch.randn = lambda *s, **kw: eps.reshape(
            s[0] if len(s) == 1 and not isinstance(s[0], int) else s)
        try:
            got = beer.sample_from_normals(mean, var, S)
        finally:
            torch.randn = old
        want = mean + var.sqrt() * eps
        cx.same(list(got.shape), [S, N, D], 'shape')
        cx.close(got, want, f'samples {N, D, S}')
        for p in (mean, var):
            a, = torch.autograd.grad((got ** 2).sum(), p, retain_graph=True)
            b, = torch.autograd.grad((want ** 2).sum(), p, retain_graph=True)
            cx.close(a, b, f'gradient {N, D, S}')
        cx.state(N, D, S)
        cx.step()


def run_hessian(case, cx):
    for N, D in itertools.product((1, 2, 3), (1, 2, 3)):
        for salt in range(4):
            gs = [np.array([[3 * gen(i, j, salt + k) - 1.5
                             for j in range(D + k)] for i in range(N)])
                  for k in range(2)]
            got = beer.approximate_hessian([torch.tensor(g) for g in gs])
            cx.same(len(got), 2, 'number')
            for g, h in zip(gs, got):
                cx.close(h, g.T @ g, f'hessian {N, D, salt}')
            cx.state(N, D, salt)
            cx.step()
