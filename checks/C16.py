"""Mixtures and sets of mixtures: responsibilities, ELBO, labels, posteriors,
statistics."""
import itertools
import numpy as np
import torch
import beer
from mc import bmodels as B
from mc.graphs import gen
from mc.refmodels import RefMixtures, RefNormals, dirkl, lse, row

PROP = 'C16'
CHUNK = 2
BOUNDS = {
    'quick': '3 covariances x 1-3 components x 1-3 mixtures x 4 posteriors x '
             'T in {1, 3} x 4 magnitudes of the data; every labelling of 1-3 '
             'frames; every index/slice of the sets; every weight pattern '
             '{0, .5, 1} of the mixtures of 2 frames; histories of 2 updates',
    'thorough': '1-4 components, 10 posteriors, labellings of 4 frames',
}
MAGS = [1., 100., 1e4, 1e-4]


def cases(tier):
    big = tier == 'thorough'
    for cov in B.COVS:
        for C in range(1, 5 if big else 4):
            for salt in range(10 if big else 4):
                yield {'k': 'mix', 'cov': cov, 'C': C, 'salt': salt,
                       'L': 4 if big else 3}
                for S in (1, 2, 3):
                    yield {'k': 'set', 'cov': cov, 'C': C, 'S': S,
                           'salt': salt}


def weights(S, C, salt):
    prior = np.array([[.5 + 2 * gen(s, c, salt) for c in range(C)]
                      for s in range(S)])
    post = np.array([[.3 + 5 * gen(s, c, salt + 7) for c in range(C)]
                     for s in range(S)])
    p = [beer.dists.Dirichlet.from_std_parameters(torch.tensor(x))
         for x in (prior, post)]
    return prior, post, p


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    (run_mix if case['k'] == 'mix' else run_set)(case, cx)


def run_mix(case, cx):
    cov, C, salt = case['cov'], case['C'], case['salt']

    def make():
        ms = B.normalset(cov, C, 2, salt)
        prior, post, _ = weights(1, C, salt)
        p = [beer.dists.Dirichlet.from_std_parameters(torch.tensor(x[0]))
             for x in (prior, post)]
        model = beer.Mixture.create(ms, beer.Categorical(
            beer.ConjugateBayesianParameter(*p)))
        return model, RefMixtures(RefNormals.read(cov, ms.means_precisions),
                                  prior, post)
    for kw, strength in (({}, 1.), ({'prior_strength': 3.5}, 3.5)):
        w = beer.Mixture.create(B.normalset(cov, C, 2, salt), **kw) \
            .categorical.weights
        for q in (w.prior, w.posterior):
            cx.close(row(q.params.concentrations)[0],
                     np.full(C, strength / C), f'default weights, {cov} C={C}')
    model, ref = make()
    for T, mag in itertools.product((1, 3), MAGS):
        X = B.data(T, salt=salt) * mag
        j = ref.joint(X.numpy())[:, 0]
        want = np.exp(j - lse(j)[:, None])
        what = f'{cov} C={C} posterior={salt} T={T} x{mag}'
        cx.close(model.posteriors(X), want, f'posteriors, {what}', 1e-6)
        st = model.sufficient_statistics(X)
        cx.close(model.expected_log_likelihood(st), lse(j),
                 f'lower bound per frame, {what}')
        acc = {type(p.prior).__name__: a
               for p, a in model.accumulate(st).items()}
        nat = want.sum(0)
        nat[-1] = T
        cx.close(acc.pop('Dirichlet'), nat, f'counts, {what}', 1e-6)
        cx.close(list(acc.values())[0], want.T @ st.numpy(),
                 f'statistics of the components, {what}', 1e-6)
        cx.step(3)
        cx.state(what)
        cx.trace()
    cx.label('soft')
    for T in range(1, case['L'] + 1):
        X = B.data(T, salt=salt + T)
        j = ref.joint(X.numpy())[:, 0]
        st = model.sufficient_statistics(X)
        for labels in itertools.product(range(C), repeat=T):
            lab = list(labels)
            got = model.expected_log_likelihood(st,
                                                labels=torch.tensor(lab))
            what = f'{cov} C={C} posterior={salt} labels={lab}'
            cx.close(got, j[np.arange(T), lab], f'lower bound, {what}')
            hot = np.eye(C)[lab]
            acc = {type(p.prior).__name__: a
                   for p, a in model.accumulate(st).items()}
            nat = hot.sum(0)
            nat[-1] = T
            cx.close(acc.pop('Dirichlet'), nat, f'counts, {what}')
            cx.close(list(acc.values())[0], hot.T @ st.numpy(),
                     f'statistics, {what}')
            cx.step(2)
            cx.state(what)
    cx.label('labels')
    # Histories of (labelled or not) updates.
    for hist in itertools.product((None, 0, 1), repeat=2):
        model, ref = make()
        optim = beer.VBConjugateOptimizer(
            model.conjugate_bayesian_parameters(keepgroups=True), .5)
        for i, h in enumerate(hist):
            X = B.data(4, salt=i)
            labels = None if h is None else \
                [(t + h) % C for t in range(4)]
            j = ref.joint(X.numpy())[:, 0]
            e = beer.evidence_lower_bound(
                model, X, labels=None if h is None else torch.tensor(labels))
            llh = lse(j) if h is None else j[np.arange(4), labels]
            cx.close(float(e), llh.sum() - ref.kl(),
                     f'ELBO, {cov} C={C} {hist} step {i}')
            model.posteriors(X)         # between the objective and the update
            optim.init_step()
            e.backward()
            optim.step()
            r = np.exp(j - lse(j)[:, None]) if h is None else np.eye(C)[labels]
            ref.update([ref.normals.stats(X.numpy(), r), r.sum(0)[None]], .5)
            got = RefNormals.std_of(cov,
                                    model.modelset.means_precisions.posterior)
            for a, b in zip(got, ref.normals.std()):
                cx.close(a, b, f'Normals, {cov} C={C} {hist} step {i}')
            cx.close(row(model.categorical.weights.posterior
                         .params.concentrations), ref.post,
                     f'weights, {cov} C={C} {hist} step {i}')
            j = ref.joint(X.numpy())[:, 0]
            cx.close(model.posteriors(X), np.exp(j - lse(j)[:, None]),
                     f'posteriors, {cov} C={C} {hist} step {i}', 1e-6)
            cx.step()
        cx.trace()


def run_set(case, cx):
    cov, C, S, salt = case['cov'], case['C'], case['S'], case['salt']
    ms = B.normalset(cov, S * C, 2, salt)
    prior, post, p = weights(S, C, salt)
    model = beer.MixtureSet(beer.CategoricalSet(
        beer.ConjugateBayesianParameter(*p)), ms)
    ref = RefMixtures(RefNormals.read(cov, ms.means_precisions), prior, post)
    cx.same(len(model), S, 'number of mixtures')
    cx.same(model.n_comp_per_mixture, C, 'components per mixture')
    plain = beer.MixtureSet.create(S, ms)
    for q in (plain.categoricalset.weights.prior,
              plain.categoricalset.weights.posterior):
        cx.close(row(q.params.concentrations), np.full((S, C), 1. / C),
                 'default weights')
    created = beer.MixtureSet.create(S, ms, 2.5)
    cx.same(len(created), S, 'number of mixtures (creation)')
    for q in (created.categoricalset.weights.prior,
              created.categoricalset.weights.posterior):
        cx.close(row(q.params.concentrations), np.full((S, C), 2.5 / C),
                 'initial weights')
    for T, mag in itertools.product((1, 3), MAGS):
        X = B.data(T, salt=salt) * mag
        st = model.sufficient_statistics(X)
        want = ref.llh(X.numpy())
        what = f'{cov} C={C} S={S} posterior={salt} T={T} x{mag}'
        cx.close(model.expected_log_likelihood(st), want,
                 f'lower bound per frame, {what}')
        cx.step()
        for k in range(S):
            for key in (k, k - S):
                one = model[key]
                cx.close(one.expected_log_likelihood(st), want[:, k],
                         f'lower bound of the mixture {key}, {what}')
                j = ref.joint(X.numpy())[:, k]
                r = np.exp(j - lse(j)[:, None])
                cx.close(one.posteriors(X), r,
                         f'posteriors of the mixture {key}, {what}', 1e-6)
                one.expected_log_likelihood(st)
                acc = {type(p.prior).__name__: a
                       for p, a in one.accumulate(st).items()}
                nat = r.sum(0)
                nat[-1] = T
                cx.close(acc.pop('Dirichlet').reshape(-1), nat,
                         f'counts of the mixture {key}, {what}', 1e-6)
                cx.close(list(acc.values())[0], r.T @ st.numpy(),
                         f'statistics of the mixture {key}, {what}', 1e-6)
                cx.close(one.categorical.mean.reshape(-1),
                         post[k] / post[k].sum(),
                         f'weights of the mixture {key}, {what}')
                lab = torch.tensor([t % C for t in range(T)])
                cx.close(one.expected_log_likelihood(st, labels=lab),
                         j[np.arange(T), lab.numpy()],
                         f'labels of the mixture {key}, {what}')
                cx.step(4)
        for key in (S, S + 1, -S - 1, -2 * S):
            cx.raises(IndexError, lambda: model[key],
                      f'mixture {key} out of {S}, {what}')
        cx.same(len(list(model)), S, f'iteration over the set, {what}')
        bounds = [None, *range(-S - 1, S + 2)]
        for a, b in itertools.product(bounds, repeat=2):
            some = list(range(S))[a:b]
            if not some:
                continue
            sub = model[a:b]
            cx.same(len(sub), len(some), f'size of the slice {a}:{b}')
            cx.close(sub.expected_log_likelihood(st), want[:, some],
                     f'lower bound of the mixtures {a}:{b}, {what}')
            cx.step()
        cx.state(what)
        cx.trace()
    # The bounds can be differentiated by the data.
    X = B.data(2, salt=salt)
    coef = torch.tensor([[1., -.5, 2.], [.3, 1.5, -1.]])[:, :S]
    for m in (model, model[0], beer.Mixture.create(ms)):
        def value(x):
            val = m.expected_log_likelihood(m.sufficient_statistics(x))
            return (val.reshape(2, -1) * coef[:, :val.numel() // 2]).sum()
        x = X.clone().requires_grad_(True)
        g, = torch.autograd.grad(value(x), x)
        num = torch.zeros_like(X)
        for i, j in itertools.product(*map(range, X.shape)):
            e = torch.zeros_like(X)
            e[i, j] = 1e-5
            num[i, j] = (value(X + e) - value(X - e)).detach() / 2e-5
        cx.close(g, num, f'gradient by the data, {type(m).__name__} {cov} '
                 f'C={C} S={S} posterior={salt}', rtol=1e-5, atol=1e-6)
        cx.step(9)
    # Training an element has no effect on the set.
    X = B.data(4, salt=salt)
    st = model.sufficient_statistics(X)
    params = [p for g in model.mean_field_factorization() for p in g]
    for i, p in enumerate(params):
        p.stats = torch.full_like(p.stats, 1.5 + i)

    def situation():
        return [row(model.expected_log_likelihood(st))] + [
            row(x) for p in params for x in
            (p.stats, p.posterior.natural_parameters(),
             p.prior.natural_parameters())]
    before = situation()
    keys = list(range(S)) + [slice(a, b) for a, b in
                             itertools.combinations(range(S + 1), 2)]
    for key in keys:
        what = f'training of {key}, {cov} C={C} S={S} posterior={salt}'
        sub = model[key]
        own = sub if isinstance(key, int) else beer.Mixture.create(sub)
        opt = beer.VBConjugateOptimizer(own.mean_field_factorization(),
                                        lrate=.7)
        for _ in range(2):
            opt.init_step()
            beer.evidence_lower_bound(own, X).backward()
            opt.step()
        own.expected_log_likelihood(st)
        for a, b in zip(situation(), before):
            cx.close(a, b, f'set after the {what}')
        fresh = model[key]
        cx.close(fresh.expected_log_likelihood(st).reshape(4, -1),
                 before[0].reshape(4, S)[:, key].reshape(4, -1),
                 f'element after the {what}')
        cx.step(2)
    ms = B.normalset(cov, S * C, 2, salt)
    prior, post, p = weights(S, C, salt)
    model = beer.MixtureSet(beer.CategoricalSet(
        beer.ConjugateBayesianParameter(*p)), ms)
    for T in (1, 2):
        X = B.data(T, salt=salt)
        st = model.sufficient_statistics(X)
        for r in itertools.product((0., .5, 1.), repeat=T * S):
            if T == 2 and S == 3 and sum(r) not in (0., 1.5, 2.):
                continue
            r = np.array(r).reshape(T, S)
            model.expected_log_likelihood(st)
            acc = {type(p.prior).__name__: a for p, a in
                   model.accumulate(st, torch.tensor(r)).items()}
            j = ref.joint(X.numpy())
            q = np.exp(j - lse(j)[..., None]) * r[..., None]
            nat = q.sum(0)
            nat[:, -1] = q.sum((0, 2))
            what = f'{cov} C={C} S={S} posterior={salt} weights={r.tolist()}'
            cx.close(acc.pop('Dirichlet').reshape(S, C), nat,
                     f'counts, {what}')
            cx.close(list(acc.values())[0],
                     q.reshape(T, -1).T @ st.numpy(), f'statistics, {what}')
            cx.step(2)
            cx.state(what)
    cx.label('set')
