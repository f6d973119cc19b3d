"""Viterbi decoding: the returned path is legal and no path is better."""
import numpy as np
import torch
from mc import fbspace
from mc.graphs import all_paths, sparse_paths
from beer.graph import CompiledGraph
import beer

PROP = 'C04'
CHUNK = 1
BOUNDS = {
    'quick': 'same space as C03, compared with the maximum over all the state '
             'paths, incl. long utterances and large graphs; decoding of a HMM with every pdf mapping of 3 states over '
             '3 pdfs x 3 scales',
    'thorough': 'as quick with all the log-likelihood patterns and T<=6',
}
ASSUMPTIONS = ['any best path is accepted when there are ties']


def cases(tier):
    for c in fbspace.cases(tier):
        yield c
    yield from fbspace.long_cases(tier)
    for m in range(27):
        yield {'hmm': [m // 9, m // 3 % 3, m % 3]}


def score(init, final, trans, llhs, path):
    with np.errstate(divide='ignore'):
        s = np.log(init[path[0]]) + llhs[0, path[0]]
        for t in range(1, len(path)):
            s += np.log(trans[path[t - 1], path[t]]) + llhs[t, path[t]]
        return s + np.log(final[path[-1]])


def run_long(case, cx):
    cg, init, final, trans, llhs, tl = fbspace.long_instance(case)
    paths, w = sparse_paths(init, final, trans, llhs)
    if len(w) == 0:
        cx.label('no path of this length')
        return
    path = [int(s) for s in cg.best_path(tl)]
    cx.step()
    where = f'{case["long"]}'
    cx.same(len(path), len(llhs), f'length of the path, {where}')
    s = score(init, final, trans, llhs, path)
    cx.check(np.isfinite(s), lambda: f'path not allowed by the graph, {where}')
    cx.check(s >= w.max() - 1e-10 * max(1, abs(w.max())),
             lambda: f'path {path} scores {s}, best is '
             f'{paths[w.argmax()].tolist()} with {w.max()}, {where}')
    cx.state(case['long'], path)
    cx.trace(len(w))
    cx.label('long or wide')


def run(case, cx):
    if 'long' in case:
        return run_long(case, cx)
    if 'hmm' in case:
        return run_hmm(case, cx)
    for key, cg, init, final, trans, llhs, tl in fbspace.instances(case):
        paths, w = all_paths(init, final, trans, llhs)
        if len(w) == 0:
            cx.label('no path of this length')
            continue
        keep = tl.clone()
        path = cg.best_path(tl)
        cx.step()
        cx.check(bool((keep == tl).all()), 'the log-likelihoods were modified')
        path = [int(s) for s in path]
        where = f'n={case["n"]} trans={case["trans"]} {key}'
        cx.same(len(path), len(llhs), f'length of the path, {where}')
        cx.check(all(0 <= s < case['n'] for s in path), 'state out of range')
        s = score(init, final, trans, llhs, path)
        cx.check(np.isfinite(s), lambda: f'path {path} is not allowed by the '
                 f'graph, {where}')
        tol = 1e-8 if key[2] == 'f8' else 1e-4 * (1 + abs(w.max()))
        cx.check(s >= w.max() - tol * max(1, abs(w.max())) * 1e-2 - 1e-9
                 if key[2] == 'f8' else s >= w.max() - tol,
                 lambda: f'path {path} scores {s}, best is '
                 f'{paths[w.argmax()].tolist()} with {w.max()}, {where}')
        cx.state(case['n'], case['trans'], key, path)
        cx.trace()
        cx.label('optimal')


def run_hmm(case, cx):
    torch.set_default_dtype(torch.float64)
    mapping = case['hmm']
    mean = torch.tensor([0., 0.])
    ms = beer.NormalSet.create(mean, torch.ones(2), 3, prior_strength=1.,
                               noise_std=0., cov_type='diagonal')
    means = torch.tensor([[-1., 0.5], [0.3, 1.2], [1.4, -.7]])
    ms.means_precisions.posterior.params.mean = means
    init = np.array([.7, .3, 0.])
    final = np.array([0., .4, .6])
    trans = np.array([[.5, .3, .2], [.1, .6, .3], [.0, .2, .8]])
    cg = CompiledGraph(*[torch.tensor(x).log() for x in (init, final, trans)],
                       mapping)
    hmm = beer.HMM.create(cg, ms)
    for k, T in enumerate((1, 2, 3, 4)):
        X = torch.tensor([[1.3, -.9], [-.8, .4], [.2, 1.], [1., 1.]])[:T]
        X = X + .1 * k
        stats = ms.sufficient_statistics(X)
        base = ms.expected_log_likelihood(stats).detach().numpy()
        for scale in (1., .1, 7.):
            for graph in (None, cg):
                got = hmm.decode(X, inference_graph=graph, scale=scale)
                cx.step()
                llhs = scale * base[:, mapping]
                paths, w = all_paths(init, final, trans, llhs)
                best = {tuple(mapping[s] for s in p)
                        for p in paths[w > w.max() - 1e-9]}
                if T == 1:
                    # Only one state can start and end the sequence.
                    cx.same(best, {(mapping[1],)}, 'reference')
                cx.check(tuple(int(s) for s in got) in best,
                         f'decoded {got.tolist()}, expected one of {best} '
                         f'(mapping {mapping}, T={T}, scale={scale})')
                cx.state(mapping, T, scale, got.tolist())
                cx.trace()
    cx.label('decode')
