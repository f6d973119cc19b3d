"""Statistics of the weights of the units: expected number of entries in each
unit, against the enumeration of all the state paths."""
import itertools
import numpy as np
import torch
from mc.bmodels import normalset, data
from mc.graphs import all_paths
from mc import weights as W
from checks.C06 import base_graph, LAYOUTS
import beer
from beer.graph import CompiledGraph

PROP = 'C07'
CHUNK = 2
BOUNDS = {
    'quick': '5 kinds of weights x 4 layouts of units x T<=5 x {soft, '
             'Viterbi} x 3 scales; every given path of T<=3 frames (2 units); '
             'all ordered pairs of utterances over 5 kinds of inference',
    'thorough': 'T<=6, every given path of T<=4 frames, triples of utterances',
}
ASSUMPTIONS = ['units with two emitting states or more']


def cases(tier):
    big = tier == 'thorough'
    for kind in ('dirichlet', 'sb', 'sbhyper', 'bigram', 'hsb'):
        for lay in LAYOUTS:
            n = LAYOUTS[lay][1]
            for T in range(1, (7 if n == 4 else 6) if big else
                           (6 if n == 4 else 5)):
                yield {'k': 'one', 'w': kind, 'l': lay, 'T': T}
        for T in range(1, 5 if big else 4):
            yield {'k': 'path', 'w': kind, 'l': 'two', 'T': T}
        for modes in itertools.product(
                ['soft', 'viterbi', 'path', 'aligned', 'aligned-viterbi'],
                repeat=3 if big else 2):
            yield {'k': 'many', 'w': kind, 'l': 'two', 'modes': list(modes)}


def setup(case):
    torch.set_default_dtype(torch.float64)
    units, n = LAYOUTS[case['l']]
    K = len(units)
    cg = CompiledGraph(*[torch.tensor(x).log() for x in base_graph(units, n)],
                       list(range(n)))
    ms = normalset('diagonal', n)
    starts = {u: s for u, (s, e) in units.items()}
    ends = {u: e for u, (s, e) in units.items()}
    cat, _ = W.make(case['w'], K)
    # Weights which are not uniform.
    counts = np.array([3., 1., 2.])[:K]
    if case['w'] in W.BIGRAM:
        counts = np.stack([np.roll(counts, r) for r in range(K)])
    W.store(cat, counts)
    beer.VBConjugateOptimizer(cat.mean_field_factorization(), 1.).step()
    cls = beer.BigramPhoneLoop if case['w'] in W.BIGRAM else beer.PhoneLoop
    model = cls.create(cg, starts, ends, ms, cat)
    return model, ms, cat, units


def path_counts(path, units, bigram):
    names = list(units)
    K = len(names)
    c = np.zeros((K, K)) if bigram else np.zeros(K)
    if not bigram:
        for j, u in enumerate(names):
            if path[0] == units[u][0]:
                c[j] += 1
    for a, b in zip(path[:-1], path[1:]):
        for i, u in enumerate(names):
            if a == units[u][1]:
                for j, v in enumerate(names):
                    if b == units[v][0]:
                        if bigram:
                            c[i, j] += 1
                        else:
                            c[j] += 1
    return c


def expected_counts(model, ms, units, X, scale, mode, bigram, path=None):
    if mode == 'path':
        return path_counts(path, units, bigram)
    g = model.graph
    st = ms.sufficient_statistics(X)
    llhs = scale * ms.expected_log_likelihood(st).detach().numpy()
    paths, w = all_paths(g.init_log_probs.exp().numpy(),
                         g.final_log_probs.exp().numpy(),
                         g.trans_log_probs.exp().numpy(), llhs)
    if not len(w):
        return None
    if mode == 'viterbi':
        return path_counts(paths[w.argmax()], units, bigram)
    p = np.exp(w - w.max())
    p /= p.sum()
    return sum(q * path_counts(pa, units, bigram) for q, pa in zip(p, paths))


def as_stats(kind, counts):
    if kind in ('sb', 'sbhyper', 'hsb'):
        return counts
    out = counts.copy()
    out[..., -1] = counts.sum(axis=-1)
    return out


def wparam(cat):
    return cat.mean_field_factorization()[0][0]


def run(case, cx):
    model, ms, cat, units = setup(case)
    bigram = case['w'] in W.BIGRAM
    kind = case['w']

    def compare(got, counts, where):
        cx.close(got, as_stats(kind, counts), f'unit statistics, {where}')
        cx.state(kind, case['l'], where, np.round(counts, 8).tolist())
        cx.trace()

    def elbo(X, mode, path=None, scale=1., datasize=-1):
        kw = {'scale': scale}
        if mode == 'viterbi':
            kw['viterbi'] = True
        if mode == 'path':
            kw['state_path'] = torch.tensor(path)
        if mode.startswith('aligned'):
            kw['inference_graph'] = CompiledGraph(
                *[torch.tensor(x).log() for x in
                  ([1., 0.], [0., 1.], [[.5, .5], [0., 1.]])], [0, 1])
            kw['viterbi'] = mode.endswith('viterbi')
        cx.step()
        return beer.evidence_lower_bound(model, X, datasize=datasize, **kw)

    if case['k'] == 'one':
        T = case['T']
        for salt in (0, 1):
            X = data(T, salt=salt)
            for mode in ('soft', 'viterbi'):
                for scale in (1., .2, 3.):
                    counts = expected_counts(model, ms, units, X, scale, mode,
                                             bigram)
                    if counts is None:
                        cx.label('no path')
                        continue
                    e = elbo(X, mode, scale=scale)
                    wparam(cat).zero_stats()
                    e.backward()
                    compare(wparam(cat).stats, counts,
                            f'{mode} T={T} scale={scale} data={salt}')
                    cx.label(mode)
    elif case['k'] == 'path':
        X = data(case['T'])
        for path in itertools.product(range(4), repeat=case['T']):
            e = elbo(X, 'path', path=list(path))
            wparam(cat).zero_stats()
            e.backward()
            compare(wparam(cat).stats, path_counts(path, units, bigram),
                    f'path {path}')
            cx.label('path')
    else:
        total, acc, nframes = None, 0., 0
        utts = []
        for i, mode in enumerate(case['modes']):
            X = data(4 + i, salt=i)
            path = [0, 1, 2, 3, 2, 3, 0][:len(X)] if i else [2, 3, 0, 1]
            if mode.startswith('aligned'):
                counts = 0.
            else:
                counts = expected_counts(model, ms, units, X, 1., mode,
                                         bigram, path)
            utts.append((X, mode, path))
            acc = acc + counts
            nframes += len(X)
        if isinstance(acc, float):
            K = len(units)
            acc = np.zeros((K, K) if bigram else K)
        for X, mode, path in utts:
            e = elbo(X, mode, path=path, datasize=2 * nframes)
            total = e if total is None else total + e
        wparam(cat).zero_stats()
        total.backward()
        compare(wparam(cat).stats, 2 * acc, f'utterances {case["modes"]}')
        cx.label('many')
