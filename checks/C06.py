"""Transitions of the phone-loop after every history of updates of the
weights, copies and (un)pickling."""
import copy
import itertools
import pickle
import numpy as np
import torch
from scipy.special import digamma
from mc.bmodels import normalset
from mc import weights as W
import beer
from beer.graph import CompiledGraph

PROP = 'C06'
CHUNK = 4
BOUNDS = {
    'quick': '{Dirichlet, stick-breaking, stick-breaking with hyper-prior, '
             'bigram, hierarchical stick-breaking bigram} x 4 layouts of 2-3 units, all histories of <= 2 '
             'operations among 9 (5 count vectors x learning rate 1 or 0.5, '
             'pickle, copy, other parameter update)',
    'thorough': 'as quick, histories of <= 3 operations',
}
ASSUMPTIONS = ['units with two emitting states or more (see the known '
               'findings)']

# unit -> (first state, last state), n_states, loop probability per state
LAYOUTS = {
    'two': ({'a': (0, 1), 'b': (2, 3)}, 4),
    'three': ({'a': (0, 1), 'b': (2, 4), 'c': (5, 6)}, 7),
    'reordered': ({'z': (4, 6), 'b': (0, 1), 'a': (2, 3)}, 7),
    'groups': ({'sil': (0, 2), 'p': (3, 4), 'q': (5, 6)}, 7),
}
SINGLE = {'single': ({'a': (0, 0), 'b': (1, 1)}, 2)}
COUNTS = {2: [(3., 1.), (.5, 7.), (0., 0.), (2., 2.), (100., .25)],
          3: [(3., 1., 2.), (.5, 7., 4.), (0., 0., 0.), (0., 0., 5.),
              (100., .25, 30.)]}
OPS = [f'c{i}' for i in range(5)] + ['h0', 'h1', 'pickle', 'copy', 'emission']


def cases(tier):
    n = 3 if tier == 'thorough' else 2
    for kind in ('dirichlet', 'sb', 'sbhyper', 'bigram', 'hsb'):
        for lay in LAYOUTS:
            for k in range(n + 1):
                for ops in itertools.product(OPS, repeat=k):
                    if ops and ops[-1] in ('copy', 'emission') and k > 1:
                        continue
                    yield {'w': kind, 'l': lay, 'ops': list(ops)}
    yield {'w': 'dirichlet', 'l': 'single', 'ops': ['c0', 'c0']}
    for kind in ('dirichlet', 'bigram'):
        for lay in LAYOUTS:
            for strength in (None, 2.5, .25):
                for dt in ('float32', 'float64'):
                    yield {'w': kind, 'l': lay, 'default': strength, 'dt': dt,
                           'ops': []}


def base_graph(units, n):
    trans = np.zeros((n, n))
    init, final = np.zeros(n), np.zeros(n)
    for k, (s, e) in enumerate(units.values()):
        init[s] = 1. / len(units)
        final[e] = 1. / len(units)
        for i in range(s, e + 1):
            trans[i, i] = .5 + .4 * ((i * 7 + k) % 5) / 5.
            if i < e:
                trans[i, i + 1] = 1 - trans[i, i]
        for (s2, _) in units.values():
            trans[e, s2] += (1 - trans[e, e]) / len(units) if s2 != e else 0.
    return init, final, trans


def run_default(case, cx):
    'Weights of the units when they are not given.'
    units, n = LAYOUTS[case['l']]
    K, dt = len(units), getattr(torch, case['dt'])
    cg = CompiledGraph(*[torch.tensor(x, dtype=dt).log()
                         for x in base_graph(units, n)], list(range(n)))
    ms = normalset('diagonal', n, dtype=dt)
    bigram = case['w'] == 'bigram'
    cls = beer.BigramPhoneLoop if bigram else beer.PhoneLoop
    kw = {} if case['default'] is None else {'prior_strength': case['default']}
    model = cls.create(cg, {u: s for u, (s, e) in units.items()},
                       {u: e for u, (s, e) in units.items()}, ms, **kw)
    weights = (model.categoricalset if bigram else model.categorical).weights
    want = np.full((K, K) if bigram else K, kw.get('prior_strength', 1.) / K)
    for q in (weights.prior, weights.posterior):
        got = q.params.concentrations
        cx.same(got.dtype, dt, f'precision of the default weights {case}')
        cx.close(got.squeeze(), want, f'default weights {case}', 1e-5, 1e-6)
    cx.close(weights.stats, np.zeros_like(want), f'statistics {case}')
    cx.step()
    cx.state('default', case['w'], K, case['default'])
    cx.label('default weights')


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    if 'default' in case:
        return run_default(case, cx)
    units, n = {**LAYOUTS, **SINGLE}[case['l']]
    if case['l'] == 'single':
        cx.sig = 'single-state-units'
    K = len(units)
    init, final, trans = base_graph(units, n)
    loop = {u: trans[e, e] for u, (s, e) in units.items()}
    cg = CompiledGraph(*[torch.tensor(x).log() for x in (init, final, trans)],
                       list(range(n)))
    ms = normalset('diagonal', n)
    starts = {u: s for u, (s, e) in units.items()}
    ends = {u: e for u, (s, e) in units.items()}
    cat, ref = W.make(case['w'], K)
    cls = beer.BigramPhoneLoop if case['w'] in W.BIGRAM else beer.PhoneLoop
    model = cls.create(cg, starts, ends, ms, cat)
    cx.step()
    check(cx, case, model, ref, units, loop, trans, 'after the creation')
    originals = []
    for i, op in enumerate(case['ops']):
        cat = model.categoricalset if case['w'] in W.BIGRAM \
            else model.categorical
        if op == 'pickle':
            model = pickle.loads(pickle.dumps(model))
        elif op == 'copy':
            originals.append((model, copy.deepcopy(ref)))
            model = copy.deepcopy(model)
        elif op == 'emission':
            params = list(model.modelset.conjugate_bayesian_parameters(
                keepgroups=True))
            beer.VBConjugateOptimizer(params, 1.).step()
        else:
            lrate = 1. if op[0] == 'c' else .5
            counts = np.array(COUNTS[K][int(op[1])])
            if case['w'] in W.BIGRAM:
                counts = np.stack([np.roll(counts, r) * (r + 1)
                                   for r in range(K)])
            W.store(cat, counts)
            optim = beer.VBConjugateOptimizer(cat.mean_field_factorization(),
                                              lrate)
            optim.step()
            cands = ref.candidates(counts, lrate)
            if len(cands) == 1:
                ref = cands[0]
            else:
                data = torch.eye(K)
                elog = cat.expected_log_likelihood(
                    cat.sufficient_statistics(data))
                ref = W.match(cx, cands, elog.numpy(),
                              f'expected log-weights, step {i} {op}')
        cx.step()
        check(cx, case, model, ref, units, loop, trans, f'after step {i} {op}')
        for m, r in originals:
            check(cx, case, m, r, units, loop, trans,
                  f'original of the copy, after step {i} {op}')
    cx.label(case['w'])
    cx.trace()


def check(cx, case, model, ref, units, loop, trans, when):
    want = trans.copy()
    elog = ref.elog()
    for i, (u, (s, e)) in enumerate(units.items()):
        for j, (v, (s2, _)) in enumerate(units.items()):
            lw = elog[i, j] if case['w'] in W.BIGRAM else elog[j]
            want[e, s2] = (1 - loop[u]) * np.exp(lw)
    if case['l'] == 'single':
        # The probability of staying in the unit is not touched.
        for i, (u, (s, e)) in enumerate(units.items()):
            want[e, e] = loop[u] + (1 - loop[u]) * np.exp(elog[i])
    cx.close(model.graph.trans_log_probs.exp(), want, f'transitions {when}')
    cx.close(model.graph.init_log_probs.exp(), [
        1. / len(units) if i in [s for s, _ in units.values()] else 0.
        for i in range(len(trans))], f'initial probabilities {when}')
    mean = (model.categoricalset if case['w'] in W.BIGRAM
            else model.categorical).mean
    cx.close(mean, ref.mean(), f'mean weights {when}', atol=1e-8)
    cx.state(case['w'], case['l'], np.round(want, 9).tolist())
