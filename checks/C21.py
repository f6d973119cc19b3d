"""Subspace models: parameters of the units as a function of their embedding,
objective, statistics, views on the parameters."""
import copy
import itertools
import numpy as np
import torch
import beer
from beer import dists
from mc import bmodels as B
from mc.core import tonp
from mc.graphs import gen
from mc.refmodels import RefNormals
from mc.subspace import (Noise, affine, draws, emissions, flat, latent_prior,
                         local_kl, mean_table, params_of, pdfvecs, rvec_dims,
                         set_stats, setup, subspace, table, transform)

PROP = 'C21'
CHUNK = 2
BOUNDS = {
    'quick': 'units of 1-2 mixtures of 1-2 Normals (or Normals only, '
             'or mixtures of mixtures) x 3 '
             'covariances x 1-3 units x embeddings of dimension 1-2 x 1-2 '
             'samples of the embeddings x 1-2 of the parameters (tables of '
             'samples given to the real code), plain, discriminant (1-3 '
             'classes, every labelling) and hierarchical subspaces; every '
             'index/slice and nesting of depth 2 of the views; creation for '
             'every dimension, covariance type and prior strength, and the '
             'gradients of the objective against finite differences',
    'thorough': 'up to 3 mixtures of 3 Normals, 3 samples, 4 units',
}
ASSUMPTIONS = ['the sampler of the Normal distribution is replaced by tables '
               'enumerating the noise']


def cases(tier):
    big = tier == 'thorough'
    n = (1, 2, 3) if big else (1, 2)
    kinds = [('normals', S, 1) for S in n] + [
        ('mixtures', S, C) for S in n for C in n] + [
        # Three parameters per unit.
        ('nested', 1, 2), ('nested', 2, 1)]
    for cov in B.COVS:
        for kind, S, C in kinds:
            base = {'cov': cov, 'kind': kind, 'S': S, 'C': C}
            for L, P in itertools.product(n, repeat=2):
                for N in ((1, 2, 3, 4) if big else (1, 2, 3)):
                    for D in (1, 2):
                        yield dict(base, k='plain', L=L, P=P, N=N, D=D)
                for K in ((1, 2, 3) if (S, C) == (1, 1) or big else (2,)):
                    yield dict(base, k='discriminant', L=L, P=P, N=2, D=2,
                               K=K)
                yield dict(base, k='hierarchical', L=L, P=P, N=2, D=2)
    for model in ('plain', 'discriminant', 'hierarchical'):
        for post in ('diagonal', 'full'):
            for D in (1, 2, 3):
                for N in (1, 2):
                    for L, P in itertools.product((1, 2), repeat=2):
                        yield {'k': 'gradient', 'model': model, 'post': post,
                               'D': D, 'N': N, 'L': L, 'P': P}
    for cov in B.COVS:
        for kind, S, C in kinds:
            for D in (1, 2, 3):
                yield {'k': 'create', 'cov': cov, 'kind': kind, 'S': S,
                       'C': C, 'D': D}
    for cov in B.COVS:
        for n in (1, 2, 3, 4):
            yield {'k': 'views', 'cov': cov, 'n': n}
        yield {'k': 'units', 'cov': cov}


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)


def unit_stats(em, case, i):
    out = []
    for p in params_of(em):
        k = len(p) // case['N']
        out.append(tonp(p.stats)[i * k:(i + 1) * k].reshape(-1))
    return np.concatenate(out)


def check_models(cx, em, units, want, what):
    'The emissions score the data with the expected pdf-vectors.'
    X = B.data(3)
    for i, u in enumerate(units):
        for p, w in zip(params_of(u), want[i]):
            cx.close(tonp(p.natural_form()).reshape(w.shape), w,
                     f'parameters of the unit {i}, {what}')
    for j, p in enumerate(params_of(em)):
        full = np.concatenate([w[j] for w in want])
        cx.close(tonp(p.natural_form()), full,
                 f'parameters of all the units, {what}')
    if isinstance(em, beer.NormalSet):
        st = em.sufficient_statistics(X)
        full = np.concatenate([w[0] for w in want])
        cx.close(em.expected_log_likelihood(st),
                 em.means_precisions.likelihood_fn(torch.tensor(full), st),
                 f'scores, {what}')


def run_plain(case, cx):
    prior, em, units, tpl, Q, posts = setup(case)
    N, L, P, D = case['N'], case['L'], case['P'], case['D']
    aff = affine(D, Q, 80)
    gsm = beer.GSM(tpl, aff, prior)
    what = str(case)
    H = draws(posts, L)
    want = [pdfvecs(units[0], np.concatenate(
        [transform(aff, h, P) for h in H[i]])) for i in range(N)]
    got = gsm.expected_pdfvecs(posts, latent_nsamples=L, params_nsamples=P)
    cx.close(got, np.array([flat(w) for w in want]),
             f'expected parameters, {what}')
    gsm.update_models(units, got)
    check_models(cx, em, units, want, what)
    # Objective.
    stats = np.array([unit_stats(em, case, i) for i in range(N)])
    kls = np.array([local_kl(prior, H[i], posts, i) for i in range(N)])
    llh = np.array([flat(want[i]) @ stats[i] for i in range(N)])
    for p in params_of(em):
        p.pdfvec = torch.zeros_like(p.stats)
    vals = gsm.expected_log_likelihood(
        gsm.sufficient_statistics(units), posts, latent_nsamples=L,
        params_nsamples=P, update_models=False)
    cx.close(vals, llh - kls, f'objective of each unit, {what}', rtol=1e-6)
    for update in (False, True):
        e = beer.evidence_lower_bound(
            gsm, units, latent_posts=posts, latent_nsamples=L,
            params_nsamples=P, update_models=update)
        glob = float(prior.kl_div_posterior_prior()) + sum(
            float(dists.kl_div(q.posterior, q.prior).sum())
            for q in (aff.weights, aff.bias))
        cx.close(float(e.value), float((llh - kls).sum() - glob),
                 f'objective, {what}', rtol=1e-6)
        check_models(cx, em, units, want if update else
                     [[w * 0 for w in ws] for ws in want],
                     f'after the objective (update={update}), {what}')
        e.backward()
        st = tonp(prior.sufficient_statistics(
            torch.tensor(H.reshape(-1, D)))).reshape(N, L, -1).mean(1)
        cx.close(prior.mean_precision.stats, st.sum(0),
                 f'statistics of the prior of the embeddings, {what}')
        cx.step(3)
    cx.state(what)
    # New models start from their own embedding.
    models, lp = gsm.new_models(N, latent_nsamples=L, params_nsamples=P)
    cx.same(len(models), N, 'number of new models')
    cx.same(len(lp), N, 'number of new embeddings')
    seen = set()
    for m in models:
        for p in params_of(m):
            cx.check(id(p) not in seen, 'parameters shared by new models')
            seen.add(id(p))
    cx.trace()


def run_discriminant(case, cx):
    prior, em, units, tpl, Q, posts = setup(case)
    N, L, P, D, K = (case[x] for x in 'NLPDK')
    aff, disc = affine(D, Q, 80), affine(D, Q, 90, bias=False)
    dprior = latent_prior(D, 19)
    from beer.models.gsm import GSMSetMeansParameter
    means = GSMSetMeansParameter(dprior, table(mean_table((K, D), 75),
                                                    76))
    gset = beer.GSMSet(tpl, aff, disc, means, prior)
    cx.same(len(gset), K, 'number of classes')
    mix = beer.Mixture.create(gset)
    H, M = draws(posts, L), draws(means.posterior, L)
    want = [[None] * K for _ in range(N)]
    for i in range(N):
        r = np.concatenate([transform(aff, h, P) for h in H[i]])
        for k in range(K):
            m = np.concatenate([transform(disc, h, P) for h in M[k]])
            want[i][k] = pdfvecs(units[0], r + m)
    stats = np.array([unit_stats(em, case, i) for i in range(N)])
    llh = np.array([[flat(want[i][k]) @ stats[i] for k in range(K)]
                    for i in range(N)])
    kls = np.array([local_kl(prior, H[i], posts, i) for i in range(N)])
    dkl = sum(local_kl(dprior, M[k], means.posterior, k) for k in range(K))

    def untouched(what):
        'The objective alone does not change the units.'
        before = [tonp(p.natural_form()).copy() for p in params_of(em)]
        beer.evidence_lower_bound(
            mix, units, latent_posts=posts, latent_nsamples=L,
            params_nsamples=P, update_models=False)
        for p, b in zip(params_of(em), before):
            cx.close(tonp(p.natural_form()), b,
                     f'objective without update, {what}, {case}')
        cx.step()
    untouched('before any update')
    vals = gset.expected_log_likelihood(
        gset.sufficient_statistics(units), posts, latent_nsamples=L,
        params_nsamples=P)
    mix.clear_cache()
    cx.close(vals, llh - kls[:, None], f'objective of each unit, {case}',
             rtol=1e-6)
    w = mix.categorical.weights
    elog = tonp(mix.categorical.expected_log_likelihood(
        mix.categorical.sufficient_statistics(torch.eye(K)))).reshape(-1)
    glob = float(prior.kl_div_posterior_prior()) + dkl \
        + float(dprior.kl_div_posterior_prior()) \
        + float(w.kl_div_posterior_prior().sum()) + sum(
            float(dists.kl_div(q.posterior, q.prior).sum())
            for q in (aff.weights, aff.bias, disc.weights))
    for labels in [None] + list(itertools.product(range(K), repeat=N)):
        what = f'{case} labels={labels}'
        kw = {} if labels is None else {'labels': torch.tensor(labels)}
        e = beer.evidence_lower_bound(
            mix, units, latent_posts=posts, latent_nsamples=L,
            params_nsamples=P, **kw)
        j = llh - kls[:, None] + elog
        if labels is None:
            mx = j.max(1, keepdims=True)
            val = mx[:, 0] + np.log(np.exp(j - mx).sum(1))
            resp = np.exp(j - val[:, None])
        else:
            val = j[np.arange(N), list(labels)]
            resp = np.eye(K)[list(labels)]
        cx.close(float(e.value), float(val.sum() - glob),
                 f'objective, {what}', rtol=1e-6)
        mean = [[sum(resp[i, k] * want[i][k][q] for k in range(K))
                 for q in range(len(want[i][0]))] for i in range(N)]
        check_models(cx, em, units, mean, what)
        e.backward()
        for pr, S, n in ((prior, H, N), (dprior, M, K)):
            st = tonp(pr.sufficient_statistics(torch.tensor(
                S.reshape(-1, D)))).reshape(n, L, -1).mean(1)
            cx.close(pr.mean_precision.stats, st.sum(0),
                     f'statistics of the prior, {what}')
        nat = resp.sum(0)
        nat[-1] = N
        cx.close(tonp(w.stats).reshape(-1), nat,
                 f'number of units per class, {what}', rtol=1e-6)
        cx.step()
        cx.state(what)
    for p in params_of(em):
        p.pdfvec = torch.zeros_like(p.stats)
    untouched('after an update')
    cx.trace()


def run_hierarchical(case, cx):
    L, P, D, N = (case[x] for x in 'LPDN')
    E = 2                                   # dimension of the languages
    lprior = latent_prior(E, 29)
    langs, elbos, roots = [], [], None
    for g in range(2):
        prior, em, units, tpl, Q, posts = setup(case)
        if roots is None:
            roots = affine(E, Q * (D + 1), 120)
        lang = table(mean_table((1, E), 130 + g), 131 + g)
        tr = beer.HierarchicalAffineTransform(lprior, lang, D, Q, roots)
        gsm = beer.GSM(tpl, tr, prior)
        posts.salt = 140 + g
        langs.append((gsm, em, units, posts, prior, lang))
    root = beer.HierarchicalGSM(roots, lprior)
    want_total = 0.
    wants = []
    R = 5                                   # samples of the root, by default
    for gsm, em, units, posts, prior, lang in langs:
        Q = sum(d * n for _, d, n in rvec_dims(units[0]))
        sub = np.concatenate([transform(roots, e, R)
                              for e in draws(lang, P)[0]])
        W = sub[:, :D * Q].reshape(-1, D, Q)
        b = sub[:, D * Q:]
        H = draws(posts, L)
        want = [pdfvecs(units[0], np.concatenate(
            [np.einsum('d,sdq->sq', h, W) + b for h in H[i]]))
            for i in range(N)]
        wants.append(want)
        got = gsm.expected_pdfvecs(posts, latent_nsamples=L,
                                   params_nsamples=P)
        cx.close(got, np.array([flat(w) for w in want]),
                 f'expected parameters, {case}')
        stats = np.array([unit_stats(em, case, i) for i in range(N)])
        llh = sum(flat(want[i]) @ stats[i] for i in range(N))
        kls = sum(local_kl(prior, H[i], posts, i) for i in range(N))
        E1 = draws(lang, L)[0]
        want_total += llh - kls - float(prior.kl_div_posterior_prior()) \
            - local_kl(lprior, E1, lang, 0)
        cx.step()
    e = beer.evidence_lower_bound(
        root, [(g[0], g[2]) for g in langs],
        latent_posts=[g[3] for g in langs], univ_latent_nsamples=L,
        latent_nsamples=L, params_nsamples=P)
    glob = float(lprior.kl_div_posterior_prior()) + sum(
        float(dists.kl_div(q.posterior, q.prior).sum())
        for q in (roots.weights, roots.bias))
    cx.close(float(e.value), float(want_total - glob),
             f'objective of the hierarchy, {case}', rtol=1e-6)
    for g, want in zip(langs, wants):
        check_models(cx, g[1], g[2], want, str(case))
    e.backward()
    st = sum(tonp(lprior.sufficient_statistics(torch.tensor(
        draws(g[5], L)[0]))).mean(0) for g in langs)
    cx.close(tonp(lprior.mean_precision.stats).reshape(-1), st,
             f'statistics of the prior of the languages, {case}')
    cx.state(str(case))
    cx.trace()


# ------------------------------------------- creation and the gradients

STRENGTHS = (1., 4., .25)


def run_create(case, cx):
    D = case['D']
    tpl = subspace(emissions(case, case['S']), latent_prior(D))
    Q = sum(d * n for _, d, n in rvec_dims(tpl))
    plain = emissions(case, case['S'])
    cx.raises(Exception, lambda: beer.GSM.create(plain, D, latent_prior(D)),
              'subspace for a model without subspace parameter')
    for strength in STRENGTHS:
        kw = {} if strength == 1. else {'prior_strength': strength}
        what = f'strength {strength}, {case}'
        gsm = beer.GSM.create(tpl, D, latent_prior(D), **kw)
        gset = beer.GSMSet.create(tpl, 3, D, 2, latent_prior(D),
                                  latent_prior(2), **kw)
        cx.same(len(gset), 3, f'number of classes, {what}')
        cx.same(tuple(gset.means.posterior.params.mean.shape), (3, 2),
                f'embeddings of the classes, {what}')
        for t, d in ((gsm.transform, D), (gset.transform, D),
                     (gset.disc_transform, 2)):
            cx.same((t.in_dim, t.out_dim), (d, Q), f'dimensions, {what}')
            for name, n in (('weights', d * Q), ('bias', Q)):
                if not hasattr(t, name):
                    continue
                p = getattr(t, name)
                for dist, var in ((p.prior, 1. / strength),
                                  (p.posterior, 1.)):
                    cx.close(dist.params.mean, np.zeros(n),
                             f'mean of the {name}, {what}')
                    cx.close(dist.params.diag_cov, np.full(n, var),
                             f'variance of the {name}, {what}', rtol=1e-3)
                cx.same([x.requires_grad for x in p.posterior.parameters()],
                        [True, True], f'{name} can be trained, {what}')
                cx.same(list(p.prior.parameters()), [],
                        f'prior of the {name} is fixed, {what}')
        for m in (gsm, gset):
            for cov in ('diagonal', 'full'):
                for n in (1, 3):
                    q = m.new_latent_posteriors(n, cov)
                    cx.same((len(q), q.dim), (n, D), f'embeddings, {what}')
                    cx.close(q.params.mean, np.zeros((n, D)),
                             f'initial embeddings, {what}')
                    cx.step()
            cx.raises(Exception, lambda: m.new_latent_posteriors(2, 'sphere'),
                      'unknown type of covariance')
        cx.state(what)
    cx.trace()


def run_gradient(case, cx):
    """The gradient of the objective is the one of the function of all the
    parameters (the noise being given)."""
    D, N, L, P = (case[x] for x in 'DNLP')
    c = {'cov': 'diagonal', 'kind': 'normals', 'S': 1, 'C': 1, 'N': N, 'D': D}
    kw = {'latent_nsamples': L, 'params_nsamples': P}
    prior, em, units, tpl, Q, _ = setup(c)
    if case['model'] == 'plain':
        model = beer.GSM.create(tpl, D, prior)
        q = model.new_latent_posteriors(N, case['post'])
        data, kw['latent_posts'] = units, q
        mods = [model, q]
    elif case['model'] == 'discriminant':
        gset = beer.GSMSet.create(tpl, 2, D, 2, prior, latent_prior(2))
        model = beer.Mixture.create(gset)
        q = gset.new_latent_posteriors(N, case['post'])
        data, kw['latent_posts'] = units, q
        kw['labels'] = torch.tensor([i % 2 for i in range(N)])
        mods = [model, q]
    else:
        lprior = latent_prior(2, 29)
        root = beer.AffineTransform.create(2, Q * (D + 1))
        model = beer.HierarchicalGSM(root, lprior)
        data, posts, mods = [], [], [model]
        for g in range(2):
            tr = beer.HierarchicalAffineTransform.create(
                lprior, D, Q, root, case['post'])
            gsm = beer.GSM(tpl, tr, prior)
            posts.append(gsm.new_latent_posteriors(N, case['post']))
            data.append((gsm, units))
            mods += [gsm, posts[-1]]
        kw['latent_posts'] = posts
        kw['univ_latent_nsamples'] = L
    params = {}
    for i, m in enumerate(mods):
        for name, p in m.named_parameters():
            if id(p) not in [id(x) for x in params.values()]:
                params[f'{i}.{name}'] = p
    for k, p in enumerate(params.values()):
        p.data = torch.tensor(
            [.5 * gen(k, i, 5) - .25 for i in range(p.numel())]).reshape(
                p.shape)

    def value():
        with Noise():
            return beer.evidence_lower_bound(model, data, **kw)
    e = value()
    for p in params.values():
        p.grad = None
    e.backward()
    # The units do not remember how their parameters were computed.
    grads = {n: p.grad.clone() for n, p in params.items()
             if p.grad is not None}
    for i, u in enumerate([em] + list(units)):
        x = B.data(3)
        score = u.expected_log_likelihood(u.sufficient_statistics(x))
        cx.check(not score.requires_grad, f'the scores of the unit {i} depend '
                 f'on the embeddings, {case}')
        new = copy.deepcopy(u)
        cx.close(new.expected_log_likelihood(u.sufficient_statistics(x)),
                 score, f'scores of a copy of the unit {i}, {case}')
    for n, g in grads.items():
        cx.close(params[n].grad, g, f'gradient of {n} after a scoring')
    eps = 1e-5
    for name, p in params.items():
        cx.check(p.grad is not None, f'no gradient for {name}, {case}')
        if p.grad is None:
            continue
        num = np.zeros(p.numel())
        v = p.data.view(-1)
        for i in range(p.numel()):
            x = float(v[i])
            f = []
            for d in (eps, -eps):
                v[i] = x + d
                with torch.no_grad():
                    f.append(float(value()))
            v[i] = x
            num[i] = -(f[0] - f[1]) / (2 * eps)
            cx.step()
        cx.close(p.grad.reshape(-1), num, f'gradient of {name}, {case}',
                 rtol=1e-4, atol=1e-5)
    cx.state(str(case))
    cx.trace()
    # The covariance of the embeddings is the one of its samples.
    q = kw['latent_posts'][0] if case['model'] == 'hierarchical' \
        else kw['latent_posts']
    with Noise() as noise:
        s = tonp(q.sample(2))
    with Noise() as noise:
        z = tonp(noise.draw(N, 2, D))
    if case['post'] == 'full':
        cov = tonp(q.params.cov)
        want = np.einsum('nij,nsj->nsi', np.linalg.cholesky(cov), z)
    else:
        want = np.sqrt(tonp(q.params.diag_cov))[:, None] * z
    cx.close(s, tonp(q.params.mean)[:, None] + want, f'samples, {case}')


# ---------------------------------------------------------------- views

def keys(n):
    out = list(range(n)) + [-1]
    out += [slice(a, b) for a in range(n) for b in range(a + 1, n + 1)]
    out += [slice(None), slice(0, n, 2)]
    return out


def run_views(case, cx):
    n = case['n']
    ns = B.normalset(case['cov'], n, 2, 3)
    subspace(ns, latent_prior(2))
    p = ns.means_precisions
    d = p.stats.shape[-1]

    def reset():
        set_stats(p, 60)
        p.pdfvec = torch.tensor([[2 * gen(i, j, 61) for j in range(d)]
                                 for i in range(n)])
    reset()
    S, V = tonp(p.stats).copy(), tonp(p.pdfvec).copy()
    lf = p.likelihood_fn
    paths = [(k,) for k in keys(n)]
    for k in keys(n):
        if isinstance(k, slice):
            m = len(range(n)[k])
            paths += [(k, q) for q in keys(m)]
    for path in paths:
        reset()
        v, s, x = p, S, V
        for k in path:
            v, s, x = v[k], s[k], x[k]
        what = f'view {path} of {n} elements ({case["cov"]})'
        cx.close(v.stats, s, f'statistics, {what}')
        cx.close(v.pdfvec, x, f'parameters, {what}')
        cx.close(v.natural_form(), x, f'natural form, {what}')
        cx.same(len(v), 1 if s.ndim == 1 else len(s), f'length, {what}')
        cx.close(float(v.kl_div_posterior_prior()), 0., f'divergence, {what}')
        # Writing through the view changes these elements and no other.
        v.stats = torch.tensor(s * 2 + 1)
        v.pdfvec = torch.tensor(x - 3)
        S2, V2 = S.copy(), V.copy()
        idx = np.arange(n)
        for k in path:
            idx = idx[k]
        S2[idx] = s * 2 + 1
        V2[idx] = x - 3
        cx.close(p.stats, S2, f'statistics of the set after a write, {what}')
        cx.close(p.pdfvec, V2, f'parameters of the set after a write, {what}')
        cx.close(v.pdfvec, x - 3, f'view after a write, {what}')
        # A later update of the set is seen by the view.
        p.pdfvec = torch.tensor(V + 5)
        cx.close(v.pdfvec, x + 5, f'view after an update, {what}')
        cx.step(3)
        cx.state(what)
    cx.trace()


def run_units(case, cx):
    'Elements of a unit score as the states of the whole set.'
    for kind, S, C in (('mixtures', 2, 2), ('mixtures', 1, 2),
                       ('mixtures', 2, 1), ('normals', 2, 1)):
        c = dict(case, kind=kind, S=S, C=C, N=3, D=2)
        em = subspace(emissions(c, S * 3), latent_prior(2))
        for q, p in enumerate(params_of(em)):
            d = p.likelihood_fn.sufficient_statistics_dim(zero_stats=False)
            r = torch.tensor([[gen(i, j, 62 + q) - .5 for j in range(d)]
                              for i in range(len(p))])
            p.pdfvec = p.likelihood_fn.pdfvectors_from_rvectors(r)
        X = B.data(3)
        st = em.sufficient_statistics(X)
        want = tonp(em.expected_log_likelihood(st))
        for u in range(3):
            unit = em[u * S:(u + 1) * S]
            what = f'unit {u}, {c}'
            cx.same(len(unit), S, f'size, {what}')
            cx.close(unit.expected_log_likelihood(st),
                     want[:, u * S:(u + 1) * S], f'scores, {what}')
            for s in range(S):
                cx.close(tonp(unit[s].expected_log_likelihood(st)).reshape(
                    -1), want[:, u * S + s], f'scores of state {s}, {what}')
                cx.step()
            cx.state(what)
