"""Common space of (compiled graph, log-likelihoods) for the inference."""
import numpy as np
import torch
from mc.graphs import supports, mask_vec, mask_mat, llh_pattern, gen
from beer.graph import CompiledGraph

PATTERNS = ['generic', 'flat', 'low', 'high', 'spiky', 'cliff']


def masks4():
    'Transition supports of the usual topologies with 4 states.'
    lr = 0
    for i in range(4):
        lr |= 1 << (i * 4 + i)
        if i < 3:
            lr |= 1 << (i * 4 + i + 1)
    skip = lr | 1 << 2 | 1 << (4 + 3)
    loop = lr | 1 << (3 * 4)
    units = 0
    for a, b in [(0, 0), (0, 1), (1, 1), (2, 2), (2, 3), (3, 3), (1, 0),
                 (1, 2), (3, 0), (3, 2)]:
        units |= 1 << (a * 4 + b)
    full = (1 << 16) - 1
    noself = full
    for i in range(4):
        noself &= ~(1 << (i * 4 + i))
    return [lr, skip, loop, units, full, noself]


def cases(tier):
    for n in (1, 2):
        for mask in range(1 << (n * n)):
            yield {'n': n, 'trans': mask, 'T': [1, 2, 3, 4, 5, 6],
                   'patterns': PATTERNS, 'dtypes': ['f8', 'f4']}
    for mask in range(1 << 9):
        yield {'n': 3, 'trans': mask, 'T': [1, 2, 3, 4], 'patterns':
               PATTERNS if tier == 'thorough' else
               ['generic', ('low', 'spiky', 'cliff')[mask % 3]], 'dtypes': ['f8']}
    for mask in masks4():
        yield {'n': 4, 'trans': mask, 'T': [1, 2, 3, 4, 5],
               'patterns': PATTERNS, 'dtypes': ['f8', 'f4']}
    if tier == 'thorough':
        for mask in range(1 << 9):
            yield {'n': 3, 'trans': mask, 'T': [5, 6], 'patterns':
                   ['generic'], 'dtypes': ['f8']}


def long_graph(kind, n):
    'Graphs with few paths: (init, final, trans).'
    init, final, trans = np.zeros(n), np.zeros(n), np.zeros((n, n))
    if kind == 'lr':            # left to right, self loops
        init[0] = final[-1] = 1
        for i in range(n):
            trans[i, i] = .3 + .6 * gen(i, 1)
            if i < n - 1:
                trans[i, i + 1] = 1 - trans[i, i]
        trans[-1, -1] = 1.
    elif kind == 'cycle':       # one path per initial state
        init[:] = [gen(i, 3) for i in range(n)]
        final[:] = [gen(i, 4) for i in range(n)]
        for i in range(n):
            trans[i, (i + 1) % n] = 1.
    elif kind == 'fork':        # two lanes, then everything merged
        init[0], init[1] = .35, .65
        final[-1] = 1
        for i in range(n - 2):
            trans[i, i + 2] = 1 if i % 7 else .4
            if i % 7 == 0:
                trans[i, i + 1] = .6
        trans[n - 2, n - 1] = trans[n - 1, n - 1] = 1.
    elif kind == 'full':        # ergodic, for short utterances
        init[:] = [gen(i, 3) for i in range(n)]
        final[:] = [gen(i, 4) for i in range(n)]
        trans[:] = [[gen(i, j, 5) for j in range(n)] for i in range(n)]
        trans /= trans.sum(1, keepdims=True)
    return init / init.sum(), final / final.sum(), trans


LONG = [('lr', 2, T, p) for T in (33, 50, 64, 65, 100, 129, 257, 300, 1000)
        for p in ('generic', 'low', 'spiky', 'cliff')]
LONG += [('lr', 3, T, p) for T in (40, 70, 110) for p in ('generic', 'cliff')]
LONG += [('lr', n, n + k, 'generic') for n in (10, 33, 65, 130)
         for k in (0, 1, 2)]
LONG += [('cycle', n, T, p) for n in (2, 5, 40) for T in (60, 200, 500)
         for p in ('generic', 'low')]
LONG += [('fork', n, T, 'generic') for n in (12, 40, 90)
         for T in (n // 2, n // 2 + 1, n // 2 + 6)]
LONG += [('full', n, T, 'generic') for n, T in
         ((50, 1), (50, 2), (130, 2), (20, 3), (10, 4))]


def long_cases(tier):
    for k, n, T, p in LONG:
        yield {'long': [k, n, T, p]}


def long_instance(case):
    kind, n, T, p = case['long']
    init, final, trans = long_graph(kind, n)
    llhs = llh_pattern(p, T, n)
    cg = CompiledGraph(*[torch.tensor(x, dtype=torch.float64).log()
                         for x in (init, final, trans)], list(range(n)))
    return cg, init, final, trans, llhs, \
        torch.tensor(llhs, dtype=torch.float64)


def instances(case):
    n = case['n']
    trans = mask_mat(case['trans'], n)
    for im in supports(n):
        for fm in supports(n):
            init, final = mask_vec(im, n, 1), mask_vec(fm, n, 2)
            init, final = init / init.sum(), final / final.sum()
            for dt in case['dtypes']:
                dtype = torch.float64 if dt == 'f8' else torch.float32
                if dt == 'f4':
                    i_, f_, t_ = [x.astype(np.float32).astype(np.float64)
                                  for x in (init, final, trans)]
                else:
                    i_, f_, t_ = init, final, trans
                cg = CompiledGraph(torch.tensor(i_, dtype=dtype).log(),
                                   torch.tensor(f_, dtype=dtype).log(),
                                   torch.tensor(t_, dtype=dtype).log(),
                                   list(range(n)))
                for T in case['T']:
                    for p in case['patterns']:
                        llhs = llh_pattern(p, T, n)
                        if dt == 'f4':
                            llhs = llhs.astype(np.float32).astype(np.float64)
                        yield (im, fm, dt, T, p), cg, i_, f_, t_, llhs, \
                            torch.tensor(llhs, dtype=dtype)
