"""Decoding and posteriors from the command line."""
import itertools
import os
import pickle
import numpy as np
import torch
from mc import cli, phones as P, paths as D
from checks.C09 import make_model, llhs_of

PROP = 'C10'
CHUNK = 1
BOUNDS = {
    'quick': '6 sets of units x 3 priors x every subset/order of the requested '
             'utterances (<=3 of them, known or not; file, stdin or all) x '
             '{sequence, per frame} x 3 scales for decoding; x {state, unit} x '
             '{linear, log} x 3 scales for posteriors; lengths min..min+5; '
             'every sequence of <= 3 units (emissions far apart)',
    'thorough': 'lengths min..min+12, 4 utterances, sequences of 4 units',
}
SETS = [('speech', 'two'), ('silfirst', 'sil'), ('sillast', 'mixed'),
        ('shuffled', 'sil'), ('raw', 'one'),
        ('short', 'sil')]
EPS = 1e-5


def cases(tier):
    for conf, units in SETS:
        for prior in ('dirichlet', 'dirichlet_process',
                      'hierarchical_dirichlet_process'):
            for what in ('decode', 'posteriors', 'select', 'sequences'):
                yield {'conf': conf, 'units': units, 'prior': prior,
                       'do': what, 'n': 13 if tier == 'thorough' else 6,
                       'k': 4 if tier == 'thorough' else 3}


def spread(model, path):
    'Emissions which are far from each other: center of each of them.'
    centers, k = [], 0
    for sub in model.modelset.original_modelset.modelsets:
        param = sub.modelset.means_precisions
        n = sub.n_comp_per_mixture
        for i in range(len(sub)):
            c = np.array([4. * (k % 4) - 6., 4. * (k // 4) - 6.])
            centers.append(c)
            param.posterior.params.mean[i * n:(i + 1) * n] = torch.tensor(
                c).float()
            k += 1
    with open(path, 'wb') as f:
        pickle.dump(model, f)
    return centers


def run(case, cx):
    tmp = cx.tmpdir()
    conf, units = case['conf'], case['units']
    model = make_model(conf, units, tmp, prior=case['prior'])
    if case['do'] == 'sequences':
        centers = spread(model, f'{tmp}/mdl')
    g = model.graph
    init, final, trans = [x.exp().numpy().astype(float) for x in
                          (g.init_log_probs, g.final_log_probs,
                           g.trans_log_probs)]
    d, m = init > 0, 1
    while not (d & (final > 0)).any():
        d = (trans[d] > 0).any(axis=0)
        m += 1
    utts = {}
    for i in range(case['n']):
        # Identifiers whose creation order is not the alphabetical one.
        utts[f'{"zkpaw"[i % 5]}-{i}.x'] = P.features(m + i, salt=5 * i + 1)
    if case['do'] == 'sequences':
        # Every sequence of units, the frames close to their emissions.
        utts = {}
        chain = {u: [p for p in r.pdf.values() if p is not None]
                 for u, r in P.unit_refs(conf, units).items()}
        seqs = {}
        for k in range(1, case['k'] + 1):
            for seq in itertools.product(sorted(chain), repeat=k):
                if len(chain) > 3 and k > 2 and len(set(seq)) > 1:
                    continue
                uid = f'u{len(seqs):04d}'
                seqs[uid] = seq
                utts[uid] = np.array([
                    centers[s] + .3 * np.array([(j % 3) - 1, (i % 2)])
                    for i, u in enumerate(seq)
                    for j, s in enumerate(chain[u])])
    ds = P.write_dataset(cli, tmp, utts)
    starts = {s: u for u, s in model.start_pdf.items()}
    ll = {u: llhs_of(model, x) for u, x in utts.items()}
    order = [u for u, *_ in P.ordered(conf, units)]
    members = {u: [p for p in r.pdf.values() if p is not None]
               for u, r in P.unit_refs(conf, units).items()}

    def check_decode(out, ids, per_frame, scale):
        got = [line.split() for line in out.splitlines()]
        cx.same([x[0] for x in got], ids, 'decoded utterances')
        for uid, *hyp in got:
            ok = {tuple(D.units_of(x, starts, per_frame)) for x in
                  D.best(init, final, trans, scale * ll[uid])[0]}
            cx.check(tuple(hyp) in ok, f'{uid} scale={scale} '
                     f'per_frame={per_frame}: got {hyp}, expected {ok}')
            if per_frame:
                cx.same(len(hyp), len(utts[uid]), f'frames of {uid}')
            cx.state(uid, conf, scale, per_frame, hyp)
            cx.trace()

    if case['do'] == 'sequences':
        for per_frame in (False, True):
            args = ['--per-frame'] if per_frame else []
            out = cli.run('hmm', 'decode', *args, f'{tmp}/mdl', ds)
            cx.step(len(utts))
            check_decode(out, sorted(utts), per_frame, 1.)
            for line in out.splitlines():
                uid, *hyp = line.split()
                if tuple(hyp) == seqs[uid]:
                    cx.label('repeated' if len(set(hyp)) < len(hyp)
                             else 'sequence')
    elif case['do'] == 'decode':
        for per_frame, scale in itertools.product((False, True),
                                                  (1., .1, 2.5)):
            args = (['--per-frame'] if per_frame else []) + \
                (['-s', scale] if scale != 1. else [])
            out = cli.run('hmm', 'decode', *args, f'{tmp}/mdl', ds)
            cx.step(len(utts))
            check_decode(out, sorted(utts), per_frame, scale)
            cx.label('decode')
    elif case['do'] == 'select':
        pool = sorted(utts)[:case['k'] - 1] + ['unknown']
        n = 0
        for k in range(1, case['k'] + 1):
            for ids in itertools.product(pool, repeat=k):
                if k == 4 and len(set(ids)) < 3:
                    continue
                text = ''.join(f'{u}{" extra tokens" if i % 2 else ""}\n'
                               for i, u in enumerate(ids))
                known = [u for u in ids if u != 'unknown']
                if n % 2:
                    with open(f'{tmp}/ids', 'w') as f:
                        f.write(text)
                    src, stdin = f'{tmp}/ids', ''
                else:
                    src, stdin = '-', text
                out = cli.run('hmm', 'decode', '-u', src, f'{tmp}/mdl', ds,
                              stdin=stdin)
                check_decode(out, known, False, 1.)
                warn = [x for lvl, x in cli.log() if lvl == 'WARNING']
                cx.same(len(warn), len(ids) - len(known),
                        'warnings for the unknown utterances')
                dst = f'{tmp}/sel{n}'
                os.makedirs(dst)
                cli.run('hmm', 'posteriors', '-u', src, f'{tmp}/mdl', ds, dst,
                        stdin=stdin)
                cx.same(sorted(os.listdir(dst)),
                        sorted({f'{u}.npy' for u in known}),
                        f'posterior files for {ids}')
                cx.step(2)
                cx.state(conf, ids, n % 2)
                cx.label('select')
                n += 1
    else:
        n = 0
        for state, log, scale in itertools.product((False, True),
                                                   (False, True),
                                                   (1., .1, 2.5)):
            args = (['--state'] if state else []) + \
                (['--log'] if log else []) + \
                (['-s', scale] if scale != 1. else [])
            dst = f'{tmp}/post{n}'
            n += 1
            os.makedirs(dst)
            cli.run('hmm', 'posteriors', *args, f'{tmp}/mdl', ds, dst)
            cx.step(len(utts))
            cx.same(sorted(os.listdir(dst)), sorted(f'{u}.npy' for u in utts),
                    'posterior files')
            for u in utts:
                p = D.posteriors(init, final, trans, scale * ll[u])[0]
                if not state:
                    p = np.stack([p[:, members[x]].sum(1) for x in order], 1)
                got = np.load(f'{dst}/{u}.npy')
                what = f'posteriors {u} {args}'
                if log:
                    cx.close(np.exp(got), p + EPS, what, 1e-3, 1e-4)
                else:
                    cx.close(got, p, what, 1e-3, 1e-4)
                    cx.close(got.sum(1), np.ones(len(got)), what, 1e-4)
                cx.state(conf, u, state, log, scale, np.round(p, 4).tolist())
                cx.trace()
            cx.label('posteriors')
