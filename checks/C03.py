"""Forward-backward: the posteriors over states and transitions and the
log-likelihood against the sum over all the state paths."""
import numpy as np
from mc import fbspace
from mc.graphs import brute_posteriors, sparse_paths

PROP = 'C03'
CHUNK = 1
BOUNDS = {
    'quick': 'all transition supports with 1, 2 (T<=6) and 3 (T<=4) states x '
             'all initial/final supports x 2-5 patterns of log-likelihood '
             '(incl. under/overflowing ones), 6 topologies with 4 states '
             '(T<=5), float64 and float32; graphs with few paths: '
             'utterances up to 1000 frames, up to 130 states',
    'thorough': 'as quick with all the patterns, and T<=6 with 3 states',
}
ASSUMPTIONS = ['transition weights from one generic table per support']


def cases(tier):
    yield from fbspace.cases(tier)
    yield from fbspace.long_cases(tier)


def run_long(case, cx):
    cg, init, final, trans, llhs, tl = fbspace.long_instance(case)
    ref = brute_posteriors(init, final, trans, llhs, sparse_paths)
    where = f'{case["long"]}'
    if ref is None:
        cx.label('no path of this length')
        return
    post, xi, logp, paths, _ = ref
    got, lognorm = cg.posteriors(tl)
    (got2, gxi), lognorm2 = cg.posteriors(tl, trans_posteriors=True)
    cx.step(2)
    # The log-weights are sums of T terms of this magnitude.
    tol = dict(rtol=1e-7, atol=max(1e-9, 1e-15 * len(llhs) *
                                   np.abs(llhs).sum(0).max()))
    cx.close(got, post, f'state posteriors, {where}', **tol)
    cx.close(got2, post, f'state posteriors (2), {where}', **tol)
    cx.close(gxi, xi, f'transition posteriors, {where}', **tol)
    cx.close(lognorm, logp, f'log-likelihood, {where}', rtol=1e-9, atol=1e-7)
    cx.close(lognorm2, logp, f'log-likelihood (2), {where}', rtol=1e-9,
             atol=1e-7)
    cx.state(case['long'], np.round(post, 4).tolist())
    cx.trace(len(paths))
    cx.label('long or wide')


def run(case, cx):
    if 'long' in case:
        return run_long(case, cx)
    for key, cg, init, final, trans, llhs, tl in fbspace.instances(case):
        ref = brute_posteriors(init, final, trans, llhs)
        if ref is None:
            cx.label('no path of this length')
            continue
        post, xi, logp, paths, _ = ref
        tol = dict(rtol=1e-7, atol=1e-8) if key[2] == 'f8' else \
            dict(rtol=2e-3, atol=2e-3)
        keep = tl.clone()
        got, lognorm = cg.posteriors(tl)
        (got2, gxi), lognorm2 = cg.posteriors(tl, trans_posteriors=True)
        cx.step(2)
        where = f'n={case["n"]} trans={case["trans"]} {key}'
        cx.close(got, post, f'state posteriors, {where}', **tol)
        cx.close(got2, post, f'state posteriors (2), {where}', **tol)
        cx.close(gxi, xi, f'transition posteriors, {where}', **tol)
        ltol = dict(rtol=1e-9, atol=1e-7) if key[2] == 'f8' else \
            dict(rtol=1e-4, atol=1e-2)
        cx.close(lognorm, logp, f'log-likelihood, {where}', **ltol)
        cx.close(lognorm2, logp, f'log-likelihood (2), {where}', **ltol)
        cx.check(bool((keep == tl).all()), 'the log-likelihoods were modified')
        cx.state(case['n'], case['trans'], key, np.round(post, 4).tolist())
        cx.trace()
        cx.label('exact')
    cx.close(cg.init_log_probs.exp(), init, 'graph modified by the inference')
