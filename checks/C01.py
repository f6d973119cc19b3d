"""Compiling a graph preserves the weight of the paths through non-emitting
states: all the arc subsets of small graph skeletons."""

import itertools
import numpy as np
import torch
from mc.graphs import RefGraph, build, gen, read
from beer.graph import Graph

PROP = 'C01'
CHUNK = 64
BOUNDS = {
    'quick': 'all arc subsets: 1 emitting + 1 non-emitting state, 2+0, 2+1 '
             '(14 arcs), all creation orders of 6 graphs, 0/1 '
             'weights, non-emitting chains/diamonds/cycles',
    'thorough': 'as quick, plus all arc subsets of 2+2 states (18 arcs) and '
                '3+0 states (15 arcs)',
}
ASSUMPTIONS = ['at most one arc between two states', 'start and end states '
               'are non-emitting',
               'graphs with a cycle of non-emitting states: only termination '
               'and the support are checked']


def skeleton(ne, neps):
    E = [f'e{i}' for i in range(ne)]
    X = [f'x{i}' for i in range(neps)]
    arcs = [('S', e) for e in E] + [('S', x) for x in X]
    arcs += [(a, b) for a in E for b in E]
    arcs += [(a, x) for a in E for x in X] + [(a, 'F') for a in E]
    arcs += [(x, e) for x in X for e in E] + [(x, 'F') for x in X]
    arcs += [(a, b) for a, b in itertools.combinations(X, 2)]
    return E, X, arcs


SPECIAL = {
    # chain of non-emitting states, diamond, skips.
    'chain': (2, 3, [('S', 'x0'), ('x0', 'x1'), ('x1', 'x2'), ('x2', 'e0'),
                     ('e0', 'e0'), ('e0', 'e1'), ('e1', 'F'), ('e1', 'e1')]),
    'diamond': (2, 4, [('S', 'x0'), ('x0', 'x1'), ('x0', 'x2'), ('x1', 'x3'),
                       ('x2', 'x3'), ('x3', 'e0'), ('x3', 'e1'), ('e0', 'x0'),
                       ('e1', 'x0'), ('e0', 'e0'), ('e0', 'F'), ('e1', 'F'),
                       ('e1', 'e1')]),
    'backdiamond': (2, 4, [('S', 'e0'), ('S', 'e1'), ('e0', 'x0'),
                           ('e1', 'x0'), ('x0', 'x1'), ('x0', 'x2'),
                           ('x1', 'x3'), ('x2', 'x3'), ('x3', 'F'),
                           ('x3', 'S'), ('e0', 'e0'), ('e1', 'e1')]),
    'loop': (2, 2, [('S', 'x0'), ('x0', 'e0'), ('x0', 'e1'), ('e0', 'x1'),
                    ('e1', 'x1'), ('x1', 'F'), ('x1', 'x0'), ('e0', 'e0'),
                    ('e1', 'e1')]),
    'loopthroughend': (2, 0, [('S', 'e0'), ('S', 'e1'), ('e0', 'F'),
                              ('e1', 'F'), ('F', 'S'), ('e0', 'e0'),
                              ('e1', 'e1')]),
    'twolevel': (3, 4, [('S', 'x0'), ('x0', 'e0'), ('e0', 'e0'), ('e0', 'x1'),
                        ('x1', 'x2'), ('x2', 'e1'), ('x2', 'e2'),
                        ('x1', 'e2'), ('e1', 'x3'), ('e2', 'x3'),
                        ('x3', 'F'), ('x3', 'x0'), ('e2', 'e2')]),
}
CYCLES = {
    'eps2': (2, 2, [('S', 'x0'), ('x0', 'x1'), ('x1', 'x0'), ('x1', 'e0'),
                    ('x0', 'e1'), ('e0', 'x0'), ('e1', 'x1'), ('e0', 'F'),
                    ('e1', 'e1'), ('x1', 'F')]),
    'epsself': (2, 1, [('S', 'x0'), ('x0', 'x0'), ('x0', 'e0'), ('x0', 'e1'),
                       ('e0', 'x0'), ('e1', 'F'), ('x0', 'F')]),
    'startend': (2, 0, [('S', 'F'), ('F', 'S'), ('S', 'e0'), ('e0', 'F'),
                        ('S', 'e1'), ('e1', 'F')]),
}


def cases(tier):
    for ne, neps in [(1, 0), (1, 1), (2, 0), (1, 2), (2, 1)]:
        n = len(skeleton(ne, neps)[2])
        for mask in range(1 << n):
            yield {'k': 'subset', 'ne': ne, 'nx': neps, 'mask': mask}
    for name in SPECIAL:
        ne, nx, arcs = SPECIAL[name]
        n = 2 + ne + nx
        perms = itertools.permutations(range(n)) if n <= 6 else \
            (tuple((i * k + s) % n for i in range(n))
             for k in range(1, n) if np.gcd(k, n) == 1 for s in range(n))
        for perm in perms:
            yield {'k': 'order', 'g': name, 'perm': list(perm)}
        for zero in range(len(arcs)):
            yield {'k': 'weights', 'g': name, 'zero': zero}
        # The probabilities stay below 1 when nothing returns to the start.
        back = any(b == 'S' for _, b in arcs)
        for scale in (1e-4, .5) if back else (1e-4, .5, 3., 50.):
            yield {'k': 'weights', 'g': name, 'scale': scale}
    for name in CYCLES:
        yield {'k': 'cycle', 'g': name}
    if tier == 'thorough':
        for ne, neps in [(3, 0), (2, 2)]:
            n = len(skeleton(ne, neps)[2])
            for mask in range(1 << n):
                yield {'k': 'subset', 'ne': ne, 'nx': neps, 'mask': mask}


def describe(case):
    if case['k'] == 'subset':
        E, X, arcs = skeleton(case['ne'], case['nx'])
        arcs = [a for i, a in enumerate(arcs) if case['mask'] >> i & 1]
        # Not in an alphabetical order and pdf ids which are not the indices
        # of the states.
        names = (E + X)[::-1] + ['S', 'F'] if case['mask'] % 2 else \
            ['S', 'F'] + X + E
    else:
        ne, nx, arcs = (CYCLES if case['k'] == 'cycle' else SPECIAL)[case['g']]
        E = [f'e{i}' for i in range(ne)]
        X = [f'x{i}' for i in range(nx)]
        names = ['S', 'F'] + E + X
        if 'perm' in case:
            names = [names[i] for i in case['perm']]
    weights = {a: gen(i, 3) for i, a in enumerate(arcs)}
    tot = {}
    for (a, _), w in weights.items():
        tot[a] = tot.get(a, 0.) + w
    # Leaving probabilities summing to 0.95, or any positive weight from the
    # non-emitting start state.
    for a in weights:
        weights[a] *= .95 / tot[a[0]]
        if a[0] == 'S' or case.get('scale', 1.) < 1:
            weights[a] *= case.get('scale', 1.)
    if 'zero' in case:
        weights[arcs[case['zero']]] = 0.
    pdf = {s: None for s in names}
    for i, e in enumerate(E):
        pdf[e] = (7 * i + 3) % 5 if i < 2 else pdf[E[0]]
    if E and case.get('mask', 1) % 3 == 0:
        pdf[E[0]] = 0
    return RefGraph([(s, pdf[s]) for s in names], weights, 'S', 'F')


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    ref = describe(case)
    cyc = ref.has_eps_cycle()
    if not ref.reach('S') or not ref.reach_back('F'):
        cx.label('no emission from the start / to the end')
        return
    g, ids = build(Graph, ref)
    before = read(g)
    cg = g.compile()
    cx.step()
    got = [t.exp() for t in (cg.init_log_probs, cg.final_log_probs,
                             cg.trans_log_probs)]
    emit = [s for s in ref.order if ref.pdf[s] is not None]
    cx.same(list(cg.pdf_id_mapping), [ref.pdf[s] for s in emit],
            'mapping of the states to the pdf ids')
    cx.same(cg.n_states, len(emit), 'number of states')
    if cyc:
        n = len(emit)
        idx = {s: i for i, s in enumerate(emit)}
        sup = [np.zeros(n), np.zeros(n), np.zeros((n, n))]
        for s in ref.reach('S'):
            sup[0][idx[s]] = 1
        for s in ref.reach_back('F'):
            sup[1][idx[s]] = 1
        for s in emit:
            for e in ref.reach(s):
                sup[2][idx[s], idx[e]] = 1
        for a, b, w in zip(got, sup, ('init', 'final', 'trans')):
            cx.close((a > 0).double(), b, f'support of {w}')
        cx.label('cycle of non-emitting states (support)')
    else:
        init, final, trans, pdf, raw = ref.compiled()
        cx.close(got[0], init, 'initial probabilities')
        cx.close(got[1], final, 'final probabilities')
        cx.close(got[2], trans, 'transition probabilities')
        cx.label('exact')
    # Compiling is a function of the graph, and leaves it untouched.
    after = read(g)
    cx.same((after.pdf, after.arcs, after.start, after.end),
            (before.pdf, before.arcs, before.start, before.end),
            'graph after compilation')
    cg2 = g.compile()
    cx.step()
    cx.close(cg2.trans_log_probs, cg.trans_log_probs, 'second compilation')
    cx.state(*[np.round(t.numpy(), 9).tolist() for t in got])
    cx.trace()
