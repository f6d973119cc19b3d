"""Building the models from the command line: units, phone-loop and decoding
graphs, emissions."""
import itertools
import pickle
import numpy as np
from mc import cli, phones as P, weights as W
from mc.graphs import read
from scipy.special import digamma
import torch
from checks.C15 import check_prior

PROP = 'C08'
CHUNK = 1
BOUNDS = {
    'quick': '7 configurations of topologies x 6 lists of units x {pivot, '
             'each group} to start/end x 5 priors x {default, given} '
             'concentration; bigram phone-loops (3 priors) of every new '
             'or trained phone-loop; emissions: 3 strengths x 3 noises x '
             'with and without data; all through the command line',
}
BOUNDS['thorough'] = BOUNDS['quick']
PRIORS = ['dirichlet', 'dirichlet2', 'dirichlet_process',
          'gamma_dirichlet_process', 'hierarchical_dirichlet_process']


def cases(tier):
    for conf in P.CONFS:
        for units in P.UNITS:
            if not P.compatible(conf, units):
                continue
            groups = [None] + sorted({P.GROUP[g] for _, g in P.UNITS[units]})
            for group in groups:
                yield {'conf': conf, 'units': units, 'group': group}
            for strength in (1., .5, 7.):
                for noise in (0., .1, 2.):
                    for data in (False, True):
                        yield {'conf': conf, 'units': units, 'group': None,
                               'strength': strength, 'noise': noise,
                               'data': data}


def run_emissions(case, cx):
    'Priors and initial posteriors of the emissions.'
    tmp = cx.tmpdir()
    conf, units, strength = case['conf'], case['units'], case['strength']
    cpath, upath = P.write(conf, units, tmp, strength, case['noise'])
    if case['data']:
        utts = {f'u{i}': P.features(5 + 3 * i, 3, i) * [1., 4., .3] + i
                for i in range(3)}
        args = ['-d', P.write_dataset(cli, tmp, utts)]
        allf = np.concatenate(list(utts.values()))
        mean, var = allf.mean(0), allf.var(0)
    else:
        args, mean, var = ['-D', 3], np.zeros(3), np.ones(3)
    cli.run('hmm', 'mkphones', *args, cpath, upath, f'{tmp}/hmms', seed=3)
    cx.step()
    with open(f'{tmp}/hmms', 'rb') as f:
        _, emissions = pickle.load(f)
    refs = P.unit_refs(conf, units)
    groups = []
    for name, g, _, nn, cov in P.ordered(conf, units):
        if not groups or groups[-1][0] != g:
            groups.append([g, 0, nn, cov])
        groups[-1][1] += len(refs[name].order) - 2
    cx.same([len(m) for m in emissions.modelsets], [g[1] for g in groups],
            'emissions of the groups')
    for mix, (g, n, nn, cov) in zip(emissions.modelsets, groups):
        what = f'{g}, {case}'
        w = mix.categoricalset.weights
        for d in (w.prior, w.posterior):
            cx.close(d.params.concentrations, np.full((n, nn), strength / nn),
                     f'weights of the components, {what}', 1e-5)
        m = np.diag(var) if cov != 'isotropic' else var.max() * np.eye(3)
        p = mix.modelset.means_precisions
        size = n * nn
        check_prior(cx, cov, p.prior, [mean] * size, m, strength,
                    f'prior, {what}', (1e-3, 1e-3), torch.float32)
        got = p.posterior.params.mean.numpy()
        check_prior(cx, cov, p.posterior, got, m, strength,
                    f'posterior, {what}', (1e-3, 1e-3), torch.float32)
        z = (got - mean) / np.sqrt(var)
        if case['noise'] == 0:
            cx.close(z, 0 * z, f'means without noise, {what}', 1e-4, 1e-4)
        else:
            z = z / case['noise']
            cx.check((abs(z) < 6).all() and z.std() > .3 and
                     len(np.unique(z)) == z.size,
                     f'noise of the means, {what}: {z}')
    cx.state(conf, units, strength, case['noise'], case['data'])
    cx.label('emissions')


def check_weights(cx, mdl, prior, K, c, what):
    stick = W.RefStick(K, c, 1. if 'gamma' in prior else None)
    if prior == 'dirichlet':
        p, want = mdl.categorical.weights, np.full((1, K), c / K)
    elif prior == 'dirichlet2':
        p, want = mdl.categoricalset.weights, np.full((K, K), c / K)
    elif prior.startswith('hier'):
        p = mdl.categoricalset.stickbreaking
        want = W.RefHierarchicalStick(stick, K, c).prior.reshape(-1, 2)
    else:
        p, want = mdl.categorical.stickbreaking, stick.prior
    cx.close(p.prior.params.concentrations.reshape(want.shape), want,
             f'prior of the weights, {what}', 1e-3, 1e-4)
    if prior.startswith('hier'):
        want = np.tile(stick.prior, (K, 1))
    cx.close(p.posterior.params.concentrations.reshape(want.shape), want,
             f'weights, {what}', 1e-3, 1e-4)


def run(case, cx):
    if 'strength' in case:
        run_emissions(case, cx)
        return
    tmp = cx.tmpdir()
    conf, units, group = case['conf'], case['units'], case['group']
    cpath, upath = P.write(conf, units, tmp)
    order = P.ordered(conf, units)
    names = [u for u, *_ in order]
    refs = P.unit_refs(conf, units)
    dim = 2
    cli.run('hmm', 'mkphones', '-D', dim, cpath, upath, f'{tmp}/hmms', seed=3)
    cx.step()
    with open(f'{tmp}/hmms', 'rb') as f:
        hmms, emissions = pickle.load(f)
    cx.same(list(hmms), names, 'units')
    total = 0
    for name, g, topo, nn, cov in order:
        got = read(hmms[name])
        want = refs[name]
        cx.same([got.pdf[s] for s in got.order],
                [want.pdf[s] for s in want.order], f'emissions of {name}')
        cx.same(sorted((got.pdf[a], got.pdf[b], round(w, 9))
                       if None not in (got.pdf[a], got.pdf[b]) else
                       (str(got.pdf[a]), str(got.pdf[b]), round(w, 9))
                       for (a, b), w in got.arcs.items()
                       if got.pdf[a] is not None and got.pdf[b] is not None),
                sorted((want.pdf[a], want.pdf[b], round(w, 9))
                       for (a, b), w in want.arcs.items()
                       if want.pdf[a] is not None and want.pdf[b] is not None),
                f'transitions of {name}')
        a, b = got.compiled()[:2], want.compiled()[:2]
        cx.close(a[0], b[0], f'first state of {name}')
        cx.close(a[1], b[1], f'last state of {name}')
        total += len(want.order) - 2
    cx.same(len(emissions), total, 'number of emitting states')
    # Emission density of every state: the configuration of its group.
    shapes = {'diagonal': 2 * dim + 2, 'isotropic': dim + 3,
              'full': dim + dim * dim + 2}
    k = 0
    dens = []
    for name, g, topo, nn, cov in order:
        for _ in range(len(refs[name].order) - 2):
            if cov == 'isotropic' or cov == 'diagonal' or cov == 'full':
                mix = emissions[k]
                cx.same(len(mix.modelset), nn,
                        f'number of components of state {k} ({name})')
                p = mix.modelset.mean_field_factorization()[0][0]
                cx.same(p.prior.natural_parameters().shape[-1], shapes[cov],
                        f'covariance type of state {k} ({name})')
                dens.append((nn, cov))
            k += 1
    out = cli.run('hmm', 'phonelist', f'{tmp}/hmms').split('\n')
    from natsort import natsorted
    cx.same(out, natsorted(names, key=lambda x: x.lower()) + [''],
            'list of phones')
    args = ['-s', group] if group else []
    cli.run('hmm', 'mkphoneloopgraph', *args, upath, f'{tmp}/plg')
    cli.run('hmm', 'mkdecodegraph', f'{tmp}/plg', f'{tmp}/hmms', f'{tmp}/dg')
    cx.step(3)
    with open(f'{tmp}/dg', 'rb') as f:
        dg, start, end = pickle.load(f)
    wstart = {n: min(p for p in refs[n].pdf.values() if p is not None)
              for n in names}
    wend = {n: max(p for p in refs[n].pdf.values() if p is not None)
            for n in names}
    cx.same(dict(start), wstart, 'first emission of the units')
    cx.same(dict(end), wend, 'last emission of the units')
    ref = P.loop(conf, units, group)
    init, final, trans, pdf, _ = ref.compiled()
    rdg = read(dg).compiled()
    cx.same(rdg[3], list(range(total)), 'order of the states')
    cx.close(rdg[0], init, 'decoding graph: initial probabilities')
    cx.close(rdg[1], final, 'decoding graph: final probabilities')
    cx.close(rdg[2], trans, 'decoding graph: transitions')
    cx.state(conf, units, group, np.round(trans, 6).tolist())
    K = len(names)
    if conf == 'short':
        return                  # known finding, see C06
    for prior in PRIORS:
        if group is None and prior.startswith('hier'):
            pass
        for conc in (None, 3.5):
            args = ['-c', conc] if conc else []
            cli.run('hmm', 'mkphoneloop', '--weights-prior', prior, *args,
                    f'{tmp}/dg', f'{tmp}/hmms', f'{tmp}/mdl')
            cx.step()
            with open(f'{tmp}/mdl', 'rb') as f:
                mdl = pickle.load(f)
            c = conc or K / 2
            stick = np.ones((K, 2))
            stick[:, 1] = c
            if prior.startswith('dirichlet') and 'process' not in prior:
                w = np.full(K, c / K)
                elog = digamma(w) - digamma(w.sum())
            else:
                t = digamma(stick.sum(1))
                l0, l1 = digamma(stick[:, 0]) - t, digamma(stick[:, 1]) - t
                elog = l0 + np.concatenate([[0.], np.cumsum(l1)[:-1]])
            # Only the transitions between the units depend on the prior.
            want = trans.copy()
            for u in names:
                e = wend[u]
                for j, v in enumerate(names):
                    want[e, wstart[v]] = (1 - trans[e, e]) * np.exp(elog[j])
            what = f'{prior} concentration={conc}'
            check_weights(cx, mdl, prior, K, c, what)
            cx.close(mdl.graph.trans_log_probs.exp(), want,
                     f'phone-loop transitions, {what}', rtol=1e-4, atol=1e-5)
            cx.close(mdl.graph.init_log_probs.exp(), init,
                     f'phone-loop initial probabilities, {what}', rtol=1e-5)
            cx.close(mdl.graph.final_log_probs.exp(), final,
                     f'phone-loop final probabilities, {what}', rtol=1e-5)
            cx.same(list(mdl.graph.pdf_id_mapping), list(range(total)),
                    f'emission of the states, {what}')
            cx.same(dict(mdl.start_pdf), wstart, f'first states, {what}')
            cx.same(dict(mdl.end_pdf), wend, f'last states, {what}')
            cx.state(conf, units, group, prior, conc,
                     np.round(want, 4).tolist())
            cx.trace()
            cx.label(prior)
        if not prior.startswith('hier') and prior != 'dirichlet2':
            run_bigram(cx, tmp, prior, K, trans, wstart, wend, group)


def param(weights):
    return getattr(weights, 'stickbreaking', None) or weights.weights


def run_bigram(cx, tmp, prior, K, trans, wstart, wend, group):
    'Bigram phone-loop from a unigram, new or trained.'
    for trained in (False, True):
        with open(f'{tmp}/mdl', 'rb') as f:
            mdl = pickle.load(f)
        c = 3.5
        ref = W.RefDirichlet(np.full(K, c / K)) if prior == 'dirichlet' \
            else W.RefStick(K, c, 1. if 'gamma' in prior else None)
        if trained:
            # As the first unit must have an order, no two counts are equal.
            counts = np.array([(3 * k + 2) % (2 * K + 1) + .5 * k
                               for k in range(K)]) + 1.
            W.store(mdl.categorical, counts.astype(np.float32))
            param(mdl.categorical).natural_grad_update(1.)
            ref = ref.candidates(counts, 1.)[0]
            path = f'{tmp}/trained'
            with open(path, 'wb') as f:
                pickle.dump(mdl, f)
        else:
            path = f'{tmp}/mdl'
        old = {k: v.clone() for k, v in mdl.modelset.state_dict().items()}
        for kind in ('dirichlet2', 'hierarchical_dirichlet_process', None):
            if kind and kind.startswith('hier') and prior == 'dirichlet':
                continue            # needs a stick-breaking process
            args = ['--weights-prior', kind] if kind else []
            cli.run('hmm', 'mkphoneloopbigram', *args, path, f'{tmp}/bi')
            cx.step()
            with open(f'{tmp}/bi', 'rb') as f:
                bi = pickle.load(f)
            what = f'bigram {kind} of {prior}, trained: {trained}'
            if kind and kind.startswith('hier'):
                elog = W.RefHierarchicalStick(ref, K, K / 2).elog()
                got = bi.categoricalset.stickbreaking
                cx.close(got.prior.params.concentrations.reshape(K, -1, 2),
                         W.RefHierarchicalStick(ref, K, K / 2).prior,
                         f'prior of the weights, {what}', 1e-3, 1e-4)
            else:
                r = W.RefDirichlet(np.full((K, K), 1. / K))
                elog = r.elog()
                for d in (bi.categoricalset.weights.prior,
                          bi.categoricalset.weights.posterior):
                    cx.close(d.params.concentrations, r.post,
                             f'weights, {what}', 1e-5)
            want = trans.copy()
            for i, u in enumerate(wstart):
                e = wend[u]
                for j, v in enumerate(wstart):
                    want[e, wstart[v]] = (1 - trans[e, e]) * np.exp(elog[i, j])
            cx.close(bi.graph.trans_log_probs.exp(), want,
                     f'transitions, {what}', 1e-3, 1e-5)
            for k in ('init_log_probs', 'final_log_probs'):
                cx.close(getattr(bi.graph, k).exp(),
                         getattr(mdl.graph, k).exp(), f'{k}, {what}', 1e-5)
            cx.same(list(bi.graph.pdf_id_mapping),
                    list(mdl.graph.pdf_id_mapping), f'emissions, {what}')
            cx.same(dict(bi.start_pdf), wstart, f'first states, {what}')
            cx.same(dict(bi.end_pdf), wend, f'last states, {what}')
            new = bi.modelset.state_dict()
            cx.same(len(new), len(old), f'parameters of the emissions, {what}')
            for (a, x), (b, y) in zip(sorted(old.items()),
                                      sorted(new.items())):
                cx.close(y, x, f'{b}, {what}', 1e-6)
            cx.state(what, np.round(want, 4).tolist(), group)
            cx.trace()
            cx.label(f'bigram {kind}')
