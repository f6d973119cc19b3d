"""Training statistics of the HMM, for every way of inferring the states."""
import itertools
import numpy as np
import torch
from mc.graphs import brute_posteriors, all_paths, gen
from mc.bmodels import normalset, data, COVS
import beer
from mc.core import tonp
from beer.graph import CompiledGraph

PROP = 'C05'
CHUNK = 8
BOUNDS = {
    'quick': '5 graphs x all mappings of 3 states to 3 emissions x 3 '
             'covariance types x {soft, Viterbi, given path} x own/other '
             'inference graph x 3 scales x T<=4 (all 3^T given paths for '
             'T<=3), all histories of 2 calls over 8 operations',
    'thorough': 'as quick, with T<=5 and histories of 3 calls',
}

GRAPHS = {
    'leftright': ([1, 0, 0], [0, 0, 1], [[.6, .4, 0], [0, .7, .3], [0, 0, 1]]),
    'ergodic': ([.5, .2, .3], [.3, .3, .4],
                [[.5, .3, .2], [.1, .6, .3], [.3, .3, .4]]),
    'skip': ([.6, .4, 0], [0, .3, .7], [[.5, .3, .2], [0, .6, .4], [0, 0, .9]]),
    'cycle': ([.2, .8, 0], [.5, 0, .5], [[0, 1, 0], [0, .3, .7], [.9, 0, 0]]),
    'leak': ([.5, .5, 0], [.2, .2, .6],
             [[.5, .2, .1], [.1, .4, .3], [.25, .25, .1]]),
}
OTHER = ([.7, .3], [.4, .6], [[.55, .45], [.2, .8]])


def cg(spec, mapping):
    return CompiledGraph(*[torch.tensor(np.array(x, dtype=float)).log()
                           for x in spec], list(mapping))


OPS = ['soft', 'soft-other', 'viterbi', 'viterbi-other', 'path', 'path-other',
       'decode', 'posteriors']


def cases(tier):
    Tmax = 5 if tier == 'thorough' else 4
    for cov in COVS:
        for g in GRAPHS:
            for m in itertools.product(range(3), repeat=3):
                yield {'k': 'infer', 'cov': cov, 'g': g, 'map': list(m),
                       'T': list(range(1, Tmax + 1))}
    n = 3 if tier == 'thorough' else 2
    for hist in itertools.product(OPS, repeat=n):
        yield {'k': 'hist', 'ops': list(hist)}


def reference(mode, spec, mapping, llhs, scale, path=None):
    init, final, trans = [np.array(x, dtype=float) for x in spec]
    sl = scale * llhs[:, mapping]
    if mode == 'path':
        resps = np.eye(len(init))[path]
    elif mode == 'viterbi':
        paths, w = all_paths(init, final, trans, sl)
        if not len(w):
            return None
        resps = np.eye(len(init))[paths[w.argmax()]]
    else:
        ref = brute_posteriors(init, final, trans, sl)
        if ref is None:
            return None
        resps = ref[0]
    return resps, (resps * sl).sum(axis=1)


def pdf_stats(resps, mapping, stats, npdf, scale):
    acc = np.zeros((npdf, stats.shape[1]))
    for s, p in enumerate(mapping):
        acc[p] += scale * resps[:, s] @ stats
    return acc


def setup(cov, g, mapping):
    torch.set_default_dtype(torch.float64)
    ms = normalset(cov, 3)
    return beer.HMM.create(cg(GRAPHS[g], mapping), ms), ms


def one_elbo(cx, hmm, ms, X, mode, spec, mapping, scale, path, other, datasize):
    stats = ms.sufficient_statistics(X)
    llhs = ms.expected_log_likelihood(stats).detach().numpy()
    ref = reference(mode, spec, mapping, llhs, scale, path)
    if ref is None:
        return False
    resps, ell = ref
    kwargs = {'scale': scale}
    if other is not None:
        kwargs['inference_graph'] = other
    if mode == 'viterbi':
        kwargs['viterbi'] = True
    if mode == 'path':
        kwargs['state_path'] = torch.tensor(path)
    where = f'{mode}, T={len(X)}, scale={scale}, mapping={mapping}, ' \
            f'path={path}, other graph={other is not None}'
    got = hmm.expected_log_likelihood(hmm.sufficient_statistics(X), **kwargs)
    cx.close(got, ell, f'expected log-likelihood per frame, {where}')
    # Nothing is left by a call with another scale.
    acc = hmm.accumulate(stats)
    hmm.expected_log_likelihood(stats, scale=3. - scale)
    hmm.expected_log_likelihood(stats, **kwargs)
    again = hmm.accumulate(stats)
    hmm.clear_cache()
    for param, a in acc.items():
        cx.close(again[param], tonp(a), f'statistics after another call, '
                 f'{where}')
    elbo = beer.evidence_lower_bound(hmm, X, datasize=datasize, **kwargs)
    param = ms.mean_field_factorization()[0][0]
    param.zero_stats()
    elbo.backward()
    cx.step(4)
    ratio = 1. if datasize <= 0 else datasize / len(X)
    want = pdf_stats(resps, mapping, stats.numpy(), 3, scale) * ratio
    cx.close(param.stats, want, f'accumulated statistics, {where}')
    kl = float(hmm.kl_div_posterior_prior().sum())
    cx.close(float(elbo), ratio * ell.sum() - kl, f'ELBO, {where}', atol=1e-7)
    cx.state(where, np.round(want, 8).tolist())
    cx.trace()
    return True


def run(case, cx):
    if case['k'] == 'hist':
        return run_hist(case, cx)
    mapping = case['map']
    hmm, ms = setup(case['cov'], case['g'], mapping)
    omap = [2, 0]
    other = cg(OTHER, omap)
    for T in case['T']:
        X = data(T)
        for scale in (1., .3, 4.):
            for mode in ('soft', 'viterbi'):
                for spec, mp, og in ((GRAPHS[case['g']], mapping, None),
                                     (OTHER, omap, other)):
                    ok = one_elbo(cx, hmm, ms, X, mode, spec, mp, scale, None,
                                  og, -1 if T % 2 else 10)
                    cx.label(mode if ok else 'no path')
                    if ok and mode == 'soft':
                        kw = {} if og is None else {'inference_graph': og}
                        st = ms.sufficient_statistics(X)
                        llhs = ms.expected_log_likelihood(st).detach().numpy()
                        ref, _ = reference('soft', spec, mp, llhs, scale)
                        cx.close(hmm.posteriors(X, scale=scale, **kw), ref,
                                 f'posteriors T={T} scale={scale}')
                        hmm.clear_cache()
                        cx.step()
        if T <= 3 and mapping != sorted(mapping):
            for path in itertools.product(range(3), repeat=T):
                one_elbo(cx, hmm, ms, X, 'path', GRAPHS[case['g']], mapping,
                         .3, list(path), None, -1)
                cx.label('path')


def run_hist(case, cx):
    'The result of a call does not depend on the calls made before.'
    mapping = [2, 0, 1]
    hmm, ms = setup('diagonal', 'leak', mapping)
    omap = [1, 1]
    other = cg(OTHER, omap)
    for i, op in enumerate(case['ops']):
        X = data(3 + i % 2, salt=i)
        scale = (1., .5, 2.)[i % 3]
        if op in ('decode', 'posteriors'):
            st = ms.sufficient_statistics(X)
            llhs = ms.expected_log_likelihood(st).detach().numpy()
            ref = reference('viterbi' if op == 'decode' else 'soft',
                            GRAPHS['leak'], mapping, llhs, scale)
            got = getattr(hmm, op)(X, scale=scale)
            cx.step()
            want = np.array(mapping)[ref[0].argmax(axis=1)] \
                if op == 'decode' else ref[0]
            cx.close(got, want, f'{op} at step {i} of {case["ops"]}')
            continue
        mode, _, oth = op.partition('-')
        path = None
        if mode == 'path':
            path = [0, 1, 1, 0][:len(X)] if oth else [2, 0, 1, 1][:len(X)]
        one_elbo(cx, hmm, ms, X, mode, OTHER if oth else GRAPHS['leak'],
                 omap if oth else mapping, scale, path,
                 other if oth else None, 12)
    cx.label('history')
