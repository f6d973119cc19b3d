"""Precision of the models: created, converted, trained in simple or double
precision, whatever the default precision is."""
import copy
import itertools
import pickle
import numpy as np
import torch
import beer
from mc import bmodels as B
from mc import subspace as SUB
from mc.graphs import gen

PROP = 'C34'
CHUNK = 8
BOUNDS = {
    'quick': '16 kinds of models x {float, double} default x {float, double} '
             'model x every history of <= 3 operations among {update, '
             'conversion to float, conversion to double, copy} ended by an '
             'update, a decoding and a decoding constrained by a path; '
             'plain, discriminant and hierarchical subspaces of 3 '
             'covariances x 2 embeddings, objective, gradients and scores of '
             'the units along every history of <= 1-2 of these operations',
    'thorough': 'histories of <= 4 operations and two updates at the end',
}
ASSUMPTIONS = ['the data have the precision of the model',
               'CPU tensors only (no GPU in the sandbox)']
OPS = ['update', 'float', 'double', 'copy']
DT = {'float': torch.float32, 'double': torch.float64}


def kinds():
    for cov in B.COVS:
        yield f'normal-{cov}'
        yield f'mixture-{cov}'
    for k in ('categorical', 'hmm', 'hmm-joint', 'hmm-gmm', 'loop',
              'loop-bigram', 'loop-sb', 'loop-sbhyper', 'loop-hsb',
              'loop-gmm'):
        yield k


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in kinds():
        for default in DT:
            for dt in DT:
                for k in range(n + 1):
                    for ops in itertools.product(OPS, repeat=k):
                        yield {'m': kind, 'default': default, 'dt': dt,
                               'ops': list(ops), 'end': n - 2}
    for kind, cov, post in itertools.product(
            ('plain', 'discriminant', 'hierarchical'), B.COVS,
            ('diagonal', 'full')):
        for default, dt in itertools.product(DT, DT):
            for k in range(n - (cov != 'diagonal')):
                for ops in itertools.product(OPS, repeat=k):
                    yield {'gsm': kind, 'cov': cov, 'post': post,
                           'default': default, 'dt': dt, 'ops': list(ops)}


def graph(n):
    g = beer.graph.Graph()
    start, end = g.add_state(), g.add_state()
    g.start_state, g.end_state = start, end
    st = [g.add_state(pdf_id=i) for i in range(n)]
    for i in range(0, n, 2):
        g.add_arc(start, st[i])
        g.add_arc(st[i], st[i])
        g.add_arc(st[i], st[i + 1])
        g.add_arc(st[i + 1], st[i + 1])
        g.add_arc(st[i + 1], end)
        for j in range(0, n, 2):
            g.add_arc(st[i + 1], st[j])
    g.normalize()
    return g.compile()


def make(kind, dt):
    'Model created from tensors of the given precision.'
    mean = torch.tensor([.5, -1.], dtype=dt)
    var = torch.tensor([1.5, .7], dtype=dt)

    def ns(n, cov='diagonal'):
        old = torch.randn
        noise = [[((3 * i + 5 * j) % 7) / 2. - 1.5 for j in range(2)]
                 for i in range(n)]
        torch.randn = lambda *a, **k: torch.tensor(
            noise, dtype=k.get('dtype', torch.get_default_dtype()))
        try:
            return beer.NormalSet.create(mean, var, n, prior_strength=2.,
                                         noise_std=1., cov_type=cov)
        finally:
            torch.randn = old
    name, _, opt = kind.partition('-')
    if name == 'normal':
        return beer.Normal.create(mean, var, prior_strength=2., cov_type=opt)
    if name == 'mixture':
        return beer.Mixture.create(ns(3, opt), prior_strength=2.)
    if name == 'categorical':
        return beer.Categorical.create(torch.tensor([.2, .3, .5], dtype=dt))
    if opt == 'gmm':
        ms = beer.MixtureSet.create(4, ns(8), prior_strength=2.)
    elif opt == 'joint':
        ms = beer.JointModelSet([ns(1), beer.RepeatedModelSet(ns(1), 2),
                                 ns(1)])
    else:
        ms = ns(4)
    if name == 'hmm':
        return beer.HMM.create(graph(4), ms)
    start, end = {'a': 0, 'b': 2}, {'a': 1, 'b': 3}
    # The stick-breaking processes are created with the default precision.
    w = None
    if opt == 'sb':
        w = beer.SBCategorical.create(2, 1.5).to(dt)
    elif opt == 'sbhyper':
        w = beer.SBCategoricalHyperPrior.create(2, 1.5, 2.).to(dt)
    elif opt == 'hsb':
        w = beer.SBCategoricalSet.create(
            2, beer.SBCategorical.create(2, 1.5), 3., epochs=3).to(dt)
    if opt in ('bigram', 'hsb'):
        return beer.BigramPhoneLoop.create(graph(4), start, end, ms, w)
    return beer.PhoneLoop.create(graph(4), start, end, ms, w)


def points(kind, dt, salt):
    if kind == 'categorical':
        return torch.tensor([[1., 0, 0], [0, .5, .5], [0, 0, 1.]], dtype=dt)
    return B.data(5, salt=salt).to(dt) * .5


def update(model, X, **kw):
    optim = beer.VBConjugateOptimizer(
        model.conjugate_bayesian_parameters(keepgroups=True), .7)
    optim.init_step()
    e = beer.evidence_lower_bound(model, X, datasize=2 * len(X), **kw)
    e.backward()
    optim.step()
    return float(e)


def history(case, dt, default, convert):
    'Values observed along the history.'
    torch.set_default_dtype(default)
    kind = case['m']
    model = make(kind, dt)
    out = [('created', values(model), dtypes(model), dt)]
    now = dt
    for i, op in enumerate(case['ops']):
        val = []
        if op == 'update':
            val = [update(model, points(kind, now, i))]
        elif op == 'copy':
            model = pickle.loads(pickle.dumps(copy.deepcopy(model)))
        elif convert:
            now = DT[op]
            model = model.to(now) if i % 2 else getattr(model, op)()
        out.append((f'{i} {op}', val + values(model),
                    dtypes(model) if op in DT and convert else None, now))
    for i in range(case['end']):
        X = points(kind, now, 9 + i)
        val = [update(model, X)]
        if hasattr(model, 'decode'):
            path = model.decode(X)
            val += [path, model.posteriors(X)]
            val += [update(model, X, viterbi=True),
                    update(model, X, state_path=path)]
        elif hasattr(model, 'posteriors'):
            val.append(model.posteriors(X))
        out.append((f'end {i}', val + values(model), None, now))
    return out


def dtypes(model):
    return {str(t.dtype) for p in model.bayesian_parameters()
            for q in (p.prior, p.posterior)
            for t in q.parameters() if t.is_floating_point()} | \
        {str(t.dtype) for p in model.bayesian_parameters()
         for q in (p.prior, p.posterior)
         for t in [q.natural_parameters()] + list(q.buffers())
         if t.is_floating_point()}


def values(model):
    val = [q.natural_parameters() for p in model.bayesian_parameters()
           for q in (p.prior, p.posterior)]
    if hasattr(model, 'graph'):
        val.append(model.graph.trans_log_probs.exp())
    return val


def subspace(case, dt, default, convert):
    'Values observed along a history of a subspace of parameters.'
    torch.set_default_dtype(torch.float64)
    c = {'cov': case['cov'], 'kind': 'mixtures', 'S': 1, 'C': 2, 'N': 2,
         'D': 2}
    prior, em, units, tpl, Q, _ = SUB.setup(c)
    inner = SUB.latent_prior(2, 29)
    prior, em, tpl, inner = (m.to(dt) for m in (prior, em, tpl, inner))
    units = [em[i:i + 1] for i in range(2)]
    torch.set_default_dtype(default)
    kw = {'latent_nsamples': 2, 'params_nsamples': 2}
    post = case['post']
    if case['gsm'] == 'plain':
        model = beer.GSM.create(tpl, 2, prior).to(dt)
        q = model.new_latent_posteriors(2, post)
        data, mods = units, [model, q]
    elif case['gsm'] == 'discriminant':
        gset = beer.GSMSet.create(tpl, 2, 2, 2, prior, inner).to(dt)
        model = beer.Mixture.create(gset)
        q = gset.new_latent_posteriors(2, post)
        data, mods = units, [model, q]
        kw['labels'] = torch.tensor([0, 1])
    else:
        root = beer.AffineTransform.create(2, Q * 3)
        tr = beer.HierarchicalAffineTransform.create(inner, 2, Q, root, post)
        model = beer.HierarchicalGSM(root, inner)
        gsm = beer.GSM(tpl, tr, prior)
        q = [tr_posts(gsm, post, dt)]
        data, mods = [(gsm, units)], [model, gsm, q[0]]
        kw['univ_latent_nsamples'] = 2
    kw['latent_posts'] = q
    mods += [em]
    for m in mods:
        m.to(dt)
    params = {}
    for i, m in enumerate(mods):
        for name, p in m.named_parameters():
            if not any(p is x for x in params.values()):
                params[f'{i}.{name}'] = p
    for k, p in enumerate(params.values()):
        p.data = torch.tensor(
            [.5 * gen(k, i, 5) - .25 for i in range(p.numel())],
            dtype=p.dtype).reshape(p.shape)
    now = dt
    out = []

    def look(what, val):
        x = B.data(3).to(now)
        score = em.expected_log_likelihood(em.sufficient_statistics(x))
        out.append((what, val + [score] + [
            p.natural_form().clone() for p in SUB.params_of(em)],
            {str(t.dtype) for m in mods for t in m.state_dict().values()
             if t.is_floating_point()}, now))
    look('created', [])
    for i, op in enumerate(case['ops'] + ['update']):
        val = []
        if op == 'update':
            for p in params.values():
                p.grad = None
            with SUB.Noise():
                e = beer.evidence_lower_bound(model, data, **kw)
            e.backward()
            val = [torch.tensor(float(e.value.detach()))] + [
                torch.zeros(1) if p.grad is None else p.grad.clone()
                for p in params.values()]
            for p in params.values():
                if p.grad is not None:
                    p.data -= .05 * p.grad / (1. + p.grad.abs())
        elif op == 'copy':
            # The units are views on the emissions.
            em, units, model, q, data, mods, params = pickle.loads(
                pickle.dumps((em, units, model, q, data, mods, params)))
            kw['latent_posts'] = q
        elif convert:
            now = DT[op]
            for m in mods:
                m.to(now)
        look(f'{i} {op}', val)
    return out


def tr_posts(gsm, post, dt):
    'Embeddings of the units of a language.'
    return gsm.new_latent_posteriors(2, post).to(dt)


def run(case, cx):
    history = subspace if 'gsm' in case else globals()['history']
    try:
        want = history(case, torch.float64, torch.float64, False)
        got = history(case, DT[case['dt']], DT[case['default']], True)
    finally:
        torch.set_default_dtype(torch.float64)
    double = case['dt'] == case['default'] == 'double' \
        and 'float' not in case['ops']
    tol = (1e-7, 1e-9) if double else (2e-3, 2e-3)
    cx.same(len(got), len(want), f'{case}')
    for (where, a, dts, dt), (_, b, _, _) in zip(got, want):
        what = f'{case} {where}'
        cx.same(len(a), len(b), what)
        for x, y in zip(a, b):
            cx.close(x, y, what, *tol)
        if dts is not None:
            cx.same(dts, {str(dt)}, f'precision of the parameters, {what}')
        cx.state(case.get('m') or case['gsm'], case['dt'], case['default'], where,
                 [np.round(np.asarray(torch.as_tensor(v).detach(),
                                      dtype=float), 4).tolist() for v in b])
        cx.step()
    cx.trace()
    cx.label((case.get('m') or case['gsm']).split('-')[0])
