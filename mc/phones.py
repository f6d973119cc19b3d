"""Configurations of units shared by the checks of the command line, with
their reference graphs."""
import numpy as np
from mc.graphs import RefGraph

LR3 = [(0, 1, 1.), (1, 1, .75), (1, 2, .25), (2, 2, .6), (2, 3, .4),
       (3, 3, .5), (3, 4, .5)]
LR2 = [(0, 1, 1.), (1, 1, .3), (1, 2, .7), (2, 2, .9), (2, 3, .1)]
NOLOOP = [(0, 1, 1.), (1, 2, 1.), (2, 2, .5), (2, 3, .5)]
SIL5 = [(0, 1, 1.), (1, 1, .25), (1, 2, .25), (1, 3, .25), (1, 4, .25),
        (2, 2, .25), (2, 3, .25), (2, 4, .25), (2, 5, .25), (3, 2, .25),
        (3, 3, .25), (3, 4, .25), (3, 5, .25), (4, 2, .25), (4, 3, .25),
        (4, 4, .25), (4, 5, .25), (5, 5, .75), (5, 6, .25)]
SKIP = [(0, 1, 1.), (1, 1, .5), (1, 2, .3), (1, 3, .2), (2, 2, .4),
        (2, 3, .6), (3, 3, .8), (3, 4, .2)]
LR1 = [(0, 1, 1.), (1, 1, .6), (1, 2, .4)]
SHUFFLED = [LR3[i] for i in (4, 1, 6, 0, 3, 5, 2)]
RAW = [(a, b, 3 * w) for a, b, w in LR3]      # weights not normalized

# name -> list of (group, topology, n_normal_per_state, cov_type)
CONFS = {
    'speech': [('speech-unit', LR3, 2, 'diagonal')],
    'silfirst': [('non-speech-unit', SIL5, 3, 'diagonal'),
                 ('speech-unit', LR3, 2, 'diagonal')],
    'sillast': [('speech-unit', LR2, 1, 'isotropic'),
                ('non-speech-unit', SKIP, 2, 'isotropic')],
    'shuffled': [('speech-unit', SHUFFLED, 1, 'full'),
                 ('non-speech-unit', NOLOOP, 2, 'full')],
    'raw': [('speech-unit', RAW, 1, 'diagonal')],
    'short': [('non-speech-unit', LR2, 2, 'diagonal'),
              ('speech-unit', LR1, 1, 'diagonal')],
    'affix': [('speech', LR2, 1, 'diagonal'),
              ('speech-unit', LR3, 2, 'diagonal'),
              ('non-speech-unit', NOLOOP, 1, 'diagonal')],
}
UNITS = {
    'one': [('au1', 's')],
    'two': [('au1', 's'), ('au2', 's')],
    'sil': [('sil', 'n'), ('au1', 's'), ('au2', 's')],
    'mixed': [('b', 's'), ('sil', 'n'), ('au10', 's'), ('spn', 'n'),
              ('au2', 's')],
    'affix': [('a', 's'), ('ab', 's'), ('b', 'n'), ('a_b', 'n')],
    'groups': [('a', 's'), ('sil', 'n'), ('ab', 'x'), ('b', 's'),
               ('c', 'x')],
}
GROUP = {'s': 'speech-unit', 'n': 'non-speech-unit',
         'x': 'speech'}


def compatible(conf, units):
    groups = {g for g, *_ in CONFS[conf]}
    return all(GROUP[g] in groups for _, g in UNITS[units])


def write(conf, units, tmp, strength=1., noise=.1):
    path = f'{tmp}/hmm.yml'
    with open(path, 'w') as f:
        for name, topo, nn, cov in CONFS[conf]:
            f.write(f'- group_name: {name}\n  n_normal_per_state: {nn}\n'
                    f'  prior_strength: {strength}\n'
                    f'  noise_std: {noise}\n'
                    f'  cov_type: {cov}\n  shared_cov: no\n  topology:\n')
            for a, b, w in topo:
                f.write(f'  - {{start_id: {a}, end_id: {b}, '
                        f'trans_prob: {w}}}\n')
    upath = f'{tmp}/units'
    with open(upath, 'w') as f:
        for name, g in UNITS[units]:
            f.write(f'{name} {GROUP[g]}\n')
    return path, upath


def ordered(conf, units):
    'Units in the order of their emissions: (name, group, topology, nn, cov).'
    out = []
    for gname, topo, nn, cov in CONFS[conf]:
        for name, g in UNITS[units]:
            if GROUP[g] == gname:
                out.append((name, gname, topo, nn, cov))
    return out


def unit_ref(topo, start):
    n = max(max(a, b) for a, b, _ in topo) + 1
    states = [(i, None if i in (0, n - 1) else start + i - 1)
              for i in range(n)]
    return RefGraph(states, {(a, b): w for a, b, w in topo}, 0, n - 1)


def unit_refs(conf, units):
    start, out = 0, {}
    for name, g, topo, nn, cov in ordered(conf, units):
        out[name] = unit_ref(topo, start)
        start += len(out[name].order) - 2
    return out


def normalize(ref):
    tot = {}
    for (a, b), w in ref.arcs.items():
        tot[a] = tot.get(a, 0.) + w
    return RefGraph([(s, ref.pdf[s]) for s in ref.order],
                    {k: w / tot[k[0]] for k, w in ref.arcs.items()},
                    ref.start, ref.end)


def linear(seq, refs):
    'Reference alignment graph of a sequence of units.'
    from checks.C02 import ref_replace
    names = ['S'] + [f'u{i}' for i in range(len(seq))] + ['F']
    g = RefGraph([(s, None) for s in names],
                 {(a, b): 1. for a, b in zip(names[:-1], names[1:])}, 'S', 'F')
    for i, u in enumerate(seq):
        g = ref_replace(g, f'u{i}', refs[u], f'{i}')
    return normalize(g)


def loop(conf, units, group=None):
    from checks.C02 import ref_replace
    order = [u for u, *_ in ordered(conf, units)]
    refs = unit_refs(conf, units)
    names = ['S', 'F', 'P'] + [f'u:{u}' for u in order]
    if group is None:
        ends = ['P']
    else:
        ends = [f'u:{u}' for u, g in UNITS[units] if GROUP[g] == group]
    arcs = {('S', e): 1. for e in ends}
    arcs.update({(e, 'F'): 1. for e in ends})
    for u in order:
        arcs[('P', f'u:{u}')] = 1.
        arcs[(f'u:{u}', 'P')] = 1.
    g = normalize(RefGraph([(s, None) for s in names], arcs, 'S', 'F'))
    for u in order:
        g = ref_replace(g, f'u:{u}', refs[u], u)
    return normalize(g)


def features(T, dim=2, salt=0):
    from mc.graphs import gen
    return np.array([[6 * gen(t, i, salt + 31) - 3 for i in range(dim)]
                     for t in range(T)])


def write_dataset(cli, tmp, utts, name='ds'):
    'utts: dict id -> array. Writes the archive and compiles the dataset.'
    d = f'{tmp}/{name}.feadir'
    import os
    os.makedirs(d)
    for k, v in utts.items():
        np.save(f'{d}/{k}.npy', v)
    cli.run('features', 'archive', d, f'{tmp}/{name}.npz')
    os.makedirs(f'{tmp}/{name}.data')
    cli.run('dataset', 'create', f'{tmp}/{name}.data', f'{tmp}/{name}.npz',
            f'{tmp}/{name}.pkl')
    return f'{tmp}/{name}.pkl'
