"""Distributed training from the command line: any split of the utterances in
jobs gives the statistics and the update of the whole data."""
import itertools
import os
import pickle
import numpy as np
import torch
from mc import cli, phones as P, weights as W
from mc.refmodels import RefLoop, RefNormals, add, mul, row
from mc.core import tonp
from checks.C09 import make_model, archive

PROP = 'C11'
CHUNK = 1
BOUNDS = {
    'quick': '4 sets of units x 3 priors: all the ordered splits of 3 '
             'utterances (plus an unknown one, plus an empty job) in jobs, '
             'with and without alignments, 2 scales, learning rates 1 and .5; '
             'chains of 2 iterations; single machine training with all the '
             'batch sizes, any order of the utterances',
    'thorough': '4 utterances, chains of 4 iterations',
}
SETS = {'speech': ('speech', 'two', ['diagonal']),
        'silfirst': ('silfirst', 'sil', ['diagonal', 'diagonal']),
        'sillast': ('sillast', 'sil', ['isotropic', 'isotropic']),
        'shuffled': ('shuffled', 'sil', ['full', 'full'])}
PRIORS = ['dirichlet', 'dirichlet_process', 'gamma_dirichlet_process']


def cases(tier):
    big = tier == 'thorough'
    for s in SETS:
        for prior in PRIORS:
            yield {'k': 'split', 's': s, 'p': prior, 'n': 4 if big else 3}
            yield {'k': 'chain', 's': s, 'p': prior, 'n': 4 if big else 2}
            if s in ('speech', 'silfirst') or big:
                yield {'k': 'train', 's': s, 'p': prior, 'n': 3}


def ordered_partitions(items):
    if not items:
        yield []
        return
    for k in range(1, len(items) + 1):
        for first in itertools.combinations(items, k):
            rest = [x for x in items if x not in first]
            for tail in ordered_partitions(rest):
                yield [list(first)] + tail


def ref_weights(prior, K):
    c = K / 2
    if prior == 'dirichlet':
        return W.RefDirichlet(np.full(K, c / K))
    if prior == 'dirichlet_process':
        return W.RefStick(K, c)
    return W.RefStick(K, c, 1.)


def load(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def compare(cx, model, cands, what, rtol=2e-3, atol=2e-3):
    'The real model is one of the candidates (several orders of the units).'
    errs = []
    for ref in cands:
        try:
            _compare(cx, model, ref, what, rtol, atol)
            return ref
        except Exception as e:
            errs.append(e)
    raise errs[0]


def _compare(cx, model, ref, what, rtol, atol):
    sets = model.modelset.original_modelset.modelsets
    for i, (m, r) in enumerate(zip(sets, ref.emissions)):
        std = RefNormals.std_of(r.normals.cov,
                                m.modelset.means_precisions.posterior)
        for name, a, b in zip(('mean', 'scale', 'shape/matrix', 'rate/dof'),
                              std, r.normals.std()):
            cx.close(a, b, f'{what}: Normal {name}, set {i}', rtol, atol)
        w = m.categoricalset.weights
        cx.close(row(w.posterior.params.concentrations), r.post,
                 f'{what}: weights of the mixtures, set {i}', rtol, atol)
        cx.close(row(w.prior.params.concentrations), r.prior,
                 f'{what}: prior of the mixtures, set {i}', rtol, atol)
    cx.close(model.graph.trans_log_probs.exp(), ref.trans(),
             f'{what}: transitions', rtol, atol)
    cx.close(model.categorical.mean, ref.weights.mean(),
             f'{what}: weights of the units', rtol, atol)


def setup(case, cx, nutts):
    tmp = cx.tmpdir()
    conf, units, covs = SETS[case['s']]
    model = make_model(conf, units, tmp, prior=case['p'])
    # Different length for the utterances, so that means over utterances and
    # sums over frames are not mixed up.
    utts = {f'utt{i}': P.features(5 + 3 * i, salt=3 * i + 2)
            for i in range(nutts)}
    ds = P.write_dataset(cli, tmp, utts)
    ref = RefLoop(model, ref_weights(case['p'], len(P.UNITS[units])), covs)
    return tmp, ds, utts, ref


def total(ref, utts, alis=None, scale=1., size=None):
    acc, n = None, 0
    for u, x in utts.items():
        s = ref.stats(x, (alis or {}).get(u), scale)
        acc = s if acc is None else add(acc, s)
        n += len(x)
    return mul((size or n) / n, acc)


def run(case, cx):
    if case['k'] == 'split':
        run_split(case, cx)
    elif case['k'] == 'chain':
        run_chain(case, cx)
    else:
        run_train(case, cx)


def run_split(case, cx):
    n = case['n']
    tmp, ds, utts, ref = setup(case, cx, n + 1)
    conf, units, _ = SETS[case['s']]
    size = sum(len(x) for x in utts.values())
    refs = P.unit_refs(conf, units)
    names = [u for u, _ in P.UNITS[units]]
    seqs = {'utt0': names[:1], 'utt1': [names[-1], names[0]],
            'utt2': [names[0], names[-1]]}
    os.makedirs(f'{tmp}/ali')
    cli.run('hmm', 'mkaligraph', f'{tmp}/hmms', f'{tmp}/ali', stdin=''.join(
        f'{u} {" ".join(s)}\n' for u, s in seqs.items()))
    archive(f'{tmp}/alis.npz', f'{tmp}/ali')
    alis = {u: P.linear(s, refs).compiled() for u, s in seqs.items()}
    used = {u: utts[u] for u in sorted(utts)[:n]}   # the last one is left out
    count = 0
    for ali, scale, lrate in ((None, 1., 1.), (None, .3, .5), (alis, 1., 1.),
                              (alis, .3, .5)):
        stats = total(ref, used, ali, scale, size)
        cands = ref.candidates(stats, lrate)
        for jobs in ordered_partitions(sorted(used) + ['unknown']):
            if len(jobs) > 1 and jobs != sorted(jobs) and ali:
                continue        # the order of the jobs: without alignments
            if ['unknown'] in jobs:
                jobs = jobs + [[]]
            paths = []
            for j, ids in enumerate(jobs):
                args = ['-a', f'{tmp}/alis.npz'] if ali else []
                args += ['-s', scale] if scale != 1. else []
                path = f'{tmp}/elbo{j}'
                cli.run('hmm', 'accumulate', *args, f'{tmp}/mdl', ds, path,
                        stdin=''.join(f'{u}\n' for u in ids))
                cx.same(load(path)[1], len([u for u in ids if u in used]),
                        f'number of utterances of {ids}')
                paths.append(path)
            args = ['-l', lrate] if lrate != 1. else []
            cli.run('hmm', 'update', *args, f'{tmp}/mdl', f'{tmp}/new',
                    stdin=''.join(f'{p}\n' for p in paths))
            cx.step(len(paths) + 1)
            compare(cx, load(f'{tmp}/new'), cands,
                    f'jobs={jobs} ali={bool(ali)} scale={scale} lr={lrate}')
            cx.state(case['s'], case['p'], jobs, bool(ali), scale, lrate)
            cx.trace()
            cx.label('aligned' if ali else 'free')
            count += 1
    # The input model is untouched.
    compare(cx, load(f'{tmp}/mdl'), [ref], 'the input model')


def run_chain(case, cx):
    'Iterations in separate processes (optimizer state on disk).'
    tmp, ds, utts, ref0 = setup(case, cx, 3)
    rates = [1., .5, .25, 1.]
    for state in (False, True):
        ref = ref0
        mdl = f'{tmp}/mdl'
        for it in range(case['n']):
            jobs = [sorted(utts)[it % 3:], sorted(utts)[:it % 3]]
            paths = []
            for j, ids in enumerate(jobs):
                if not ids:
                    continue
                paths.append(f'{tmp}/e{it}-{j}')
                cli.run('hmm', 'accumulate', mdl, ds, paths[-1],
                        stdin=''.join(f'{u}\n' for u in ids))
            lr = .5 if state else rates[it]
            args = ['-o', f'{tmp}/optim'] if state else []
            new = f'{tmp}/{state}-{it}.mdl'
            cli.run('hmm', 'update', '-l', lr, *args, mdl, new,
                    stdin=''.join(f'{p}\n' for p in paths))
            cx.step(len(paths) + 1)
            mdl = new
            cands = ref.candidates(total(ref, utts), lr)
            ref = compare(cx, load(mdl), cands,
                          f'iteration {it} state={state}', 5e-3, 5e-3)
            cx.state(case['s'], case['p'], state, it,
                     np.round(ref.trans(), 3).tolist())
            cx.label('iteration')
        cx.trace()


def steps(ref, split, utts, size, lr):
    refs = [ref]
    for batch in split:
        part = {u: utts[u] for u in batch}
        refs = [c for r in refs
                for c in r.candidates(total(r, part, size=size), lr)]
    return refs


def run_train(case, cx):
    tmp, ds, utts, ref0 = setup(case, cx, case['n'])
    size = sum(len(x) for x in utts.values())
    for batch, epochs, lr in ((-1, 1, 1.), (-1, 2, .5), (1, 1, .5),
                              (2, 1, .5), (2, 2, .5), (3, 2, 1.), (7, 1, 1.)):
        args = ['-b', batch] if batch > 0 else []
        args += ['-e', epochs] if epochs > 1 else []
        for seed in (1, 2):
            cli.run('hmm', 'train', *args, '-l', lr, f'{tmp}/mdl', ds,
                    f'{tmp}/out', seed=seed)
            cx.step()
            b = batch if batch > 0 else len(utts)
            # Batches of all the orders of the utterances.
            splits = sorted({tuple(tuple(sorted(order[i:i + b]))
                                   for i in range(0, len(order), b))
                             for order in itertools.permutations(utts)})
            cands = [ref0]
            for _ in range(epochs):
                cands = [last for r in cands for split in splits
                         for last in steps(r, split, utts, size, lr)]
            compare(cx, load(f'{tmp}/out'), cands,
                    f'train batch={batch} epochs={epochs} lr={lr}',
                    5e-3, 5e-3)
            cx.state(case['s'], case['p'], batch, epochs, lr, seed)
            cx.label('train')
            cx.trace()
