"""Models which are not on the CPU: trained, decoded, sampled, moved back and
forth, on a device with the rules of a GPU (see mc/device.py)."""
import contextlib
import copy
import itertools
import os
import random
import numpy as np
import torch
import beer
from beer import nnet
from checks import C14, C29, C34, C35
from mc import bmodels as B
from mc import cli
from mc import subspace as SUB
from mc.core import tonp
from mc.device import META, Device, Tensor2, Unknown, get, used
from mc.graphs import gen

PROP = 'C39'
CHUNK = 4
BOUNDS = {
    'quick': '16 kinds of models, moved after their creation x every history '
             'of <= 2 operations among {update, update by the best path, '
             'update by a path, by another graph, move to the other device, copy}, then the '
             'scores, posteriors, best paths and parameters, whole or '
             'element by element; the distributions x 3 dimensions x 3 '
             'sizes; plain, discriminant and hierarchical '
             'subspaces x 3 covariances x 2 embeddings x histories of 1-2 '
             '{update, move, copy, new units}; auto-encoders with 6 priors, '
             'flows and layers; every way to create a Normal or a set; '
             '`shmm train` and `hshmm train` with and without --gpu',
    'thorough': 'one more operation',
}
ASSUMPTIONS = ['the device keeps its values in the memory of the CPU and '
               'refuses, as a GPU does, the operations on tensors of two '
               'devices; the kernels of a real GPU are not executed']
OPS = ['update', 'viterbi', 'path', 'graph', 'move', 'copy']
SOPS = ['update', 'move', 'copy', 'new']


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    for kind in C34.kinds():
        for k in range(n):
            for ops in itertools.product(
                    OPS if kind.startswith(('hmm', 'loop'))
                    else [o for o in OPS if o not in
                          ('viterbi', 'path', 'graph')],
                    repeat=k):
                yield {'k': 'model', 'm': kind, 'ops': list(ops)}
    for kind, cov, post in itertools.product(
            ('plain', 'discriminant', 'hierarchical'), B.COVS,
            ('diagonal', 'full')):
        for k in range(n - (cov != 'full' or post != 'full')):
            for ops in itertools.product(
                    # The samples of the embeddings of the classes are kept.
                    [o for o in SOPS if kind == 'plain' or o != 'new']
                    if kind != 'discriminant' else SOPS[:2], repeat=k):
                yield {'k': 'subspace', 'm': kind, 'cov': cov, 'post': post,
                       'ops': list(ops)}
    for prior in B.COVS + ['mixture', 'hmm', 'hmmmix', 'loop']:
        for k in range(n):
            for ops in itertools.product(('update', 'move'), repeat=k):
                yield {'k': 'vae', 'm': prior, 'ops': list(ops)}
    for layer in ('diagonal', 'isotropic', 'identity', 'bernoulli', 'flow'):
        for dim in (1, 2, 3):
            yield {'k': 'layer', 'm': layer, 'dim': dim}
    for fam in C14.FAM:
        for dim in (1, 2, 3):
            if fam == 'dirichlet' and dim == 1:
                continue
            for size in (0, 1, 3):
                yield {'k': 'dist', 'm': fam, 'dim': dim, 'size': size}
    for k in range(n + 1):
        for ops in itertools.product(('update', 'move', 'copy'), repeat=k):
            yield {'k': 'gamma', 'm': 'gamma', 'ops': list(ops)}
    for cov in B.COVS:
        for dim in (1, 2):
            yield {'k': 'create', 'm': cov, 'dim': dim}
    for name in ('strain', 'hstrain'):
        for flags in ([], ['-n', 2], ['-k', 2] if name == 'strain'
                      else ['--skip-root-subspace']):
            yield {'k': 'command', 'm': name, 'flags': flags}


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    globals()['run_' + case['k']](case, cx)
    cx.label(case['k'])
    cx.trace()


class Place:
    'Where the models are: the device or, for the reference, the CPU.'

    def __init__(self, on):
        self.on = on
        self.here = on              # False: moved back to the CPU

    def __call__(self, x):
        dev = META if self.here else torch.device('cpu')
        return x.to(dev)

    def move(self):
        if self.on:
            self.here = not self.here

    def tensors(self, cx, what, *modules):
        'Every tensor of the modules is on the device.'
        for m in modules:
            for name, t in m.state_dict(keep_vars=True).items():
                cx.same(isinstance(t, Tensor2), self.here,
                        f'{name} on the device, {what}')


    def results(self, cx, what, x):
        'The results are on the device too.'
        if isinstance(x, (list, tuple)):
            for e in x:
                self.results(cx, what, e)
        elif isinstance(x, torch.Tensor) and x.dim() \
                and x.is_floating_point():
            # The decoded paths are returned on the CPU.
            cx.same(isinstance(x, Tensor2), self.here,
                    f'result on the device, {what}')


def both(cx, case, history):
    'Same history on the CPU and on the device.'
    torch.manual_seed(3)
    want = history(case, Place(False), cx)
    with Device():
        torch.manual_seed(3)
        try:
            got = history(case, Place(True), cx)
            got = [(n, values(v)) for n, v in got]
        except Exception as e:
            if unsupported(e):
                cx.label('not decided')
                return
            raise
    cx.same([n for n, _ in got], [n for n, _ in want], f'{case}')
    for (name, a), (_, b) in zip(got, want):
        b = values(b)
        cx.same(len(a), len(b), f'{name}, {case}')
        for x, y in zip(a, b):
            cx.close(x, y, f'{name}, {case}')
        cx.step()
        cx.state(case['k'], case['m'], name, [
            np.round(x, 6).tolist() for x in b])


def unsupported(error):
    'Operation unknown to this device: nothing is said about the code.'
    return isinstance(error, Unknown) or 'meta tensor' in str(error)


def values(x):
    if isinstance(x, (list, tuple)):
        return [v for e in x for v in values(e)]
    if isinstance(x, torch.Tensor):
        return [np.array(tonp(get(x.detach())), dtype=float)]
    return [np.array(float(x))]


def naturals(model):
    return [q.natural_parameters() for p in model.bayesian_parameters()
            for q in (p.prior, p.posterior)]


# --------------------------------------------------------------- models

def update(model, X, **kw):
    optim = beer.VBConjugateOptimizer(
        model.conjugate_bayesian_parameters(keepgroups=True), .7)
    optim.init_step()
    e = beer.evidence_lower_bound(model, X, datasize=2 * len(X), **kw)
    e.backward()
    optim.step()
    return e.value


def history(case, place, cx):
    kind, what = case['m'], str(case)
    model = place(C34.make(kind, torch.float64))
    out = []

    def data(i):
        return place(C34.points(kind, torch.float64, i))

    def look(name, extra):
        place.tensors(cx, f'{name}, {what}', model)
        X = data(9)
        st = model.sufficient_statistics(X)
        val = [extra, model.expected_log_likelihood(st), naturals(model)]
        if hasattr(model, 'graph'):
            val.append(model.graph.trans_log_probs.exp())
        model.clear_cache()
        if hasattr(model, 'decode'):
            val += [model.decode(X), model.posteriors(X)]
        elif hasattr(model, 'posteriors'):
            val.append(model.posteriors(X))
        if kind == 'hmm-gmm' or kind.startswith('mixture'):
            ms = model.modelset
            ms = getattr(ms, 'original_modelset', ms)
            for part in (ms[0], ms[1:2]):
                val.append(part.expected_log_likelihood(
                    part.sufficient_statistics(X)))
        place.results(cx, f'{name}, {what}', val)
        out.append((name, val))
    look('created', [])
    for i, op in enumerate(case['ops'] + ['update']):
        val = []
        if op == 'update':
            val = [update(model, data(i))]
        elif op == 'viterbi':
            val = [update(model, data(i), viterbi=True)]
        elif op == 'path':
            X = data(i)
            path = model.decode(X)
            val = [path, update(model, X, state_path=path)]
        elif op == 'graph':
            X = data(i)
            g = copy.deepcopy(model.graph)
            g.init_log_probs[1:] = float('-inf')
            g.trans_log_probs[:] = (g.trans_log_probs * .5).log_softmax(-1)
            val = [update(model, X, inference_graph=g, scale=.7),
                   model.decode(X, inference_graph=g),
                   model.posteriors(X, inference_graph=g)]
        elif op == 'move':
            place.move()
            model = place(model)
        else:
            model = copy.deepcopy(model)
        look(f'{i} {op}', val)
    return out


def run_model(case, cx):
    both(cx, case, history)


# ------------------------------------------------------------ subspaces

def subspace(case, place, cx):
    c = {'cov': case['cov'], 'kind': 'mixtures', 'S': 1, 'C': 2, 'N': 2,
         'D': 2}
    prior, em, units, tpl, Q, _ = SUB.setup(c)
    inner = SUB.latent_prior(2, 29)
    prior, em, tpl, inner = map(place, (prior, em, tpl, inner))
    units = [em[i:i + 1] for i in range(2)]
    kw = {'latent_nsamples': 2, 'params_nsamples': 2}
    post = case['post']
    if case['m'] == 'plain':
        gsm = model = place(beer.GSM.create(tpl, 2, prior))
    elif case['m'] == 'discriminant':
        gsm = place(beer.GSMSet.create(tpl, 2, 2, 2, prior, inner))
        model = place(beer.Mixture.create(gsm))
        kw['labels'] = place(torch.tensor([0, 1]))
    else:
        root = place(beer.AffineTransform.create(2, Q * 3))
        tr = place(beer.HierarchicalAffineTransform.create(
            inner, 2, Q, root, post))
        model = place(beer.HierarchicalGSM(root, inner))
        gsm = place(beer.GSM(tpl, tr, prior))
        kw['univ_latent_nsamples'] = 2
    q = gsm.new_latent_posteriors(2, post)
    place.tensors(cx, f'embeddings, {case}', q)
    mods = [model, gsm, q, em]
    first = {n: p for n, p in named(mods).items()}
    for k, p in enumerate(first.values()):
        with torch.no_grad():
            p.copy_(place(torch.tensor(
                [.5 * gen(k, i, 5) - .25 for i in range(p.numel())])
                .reshape(p.shape)))
    out = []

    def look(name, val):
        place.tensors(cx, f'{name}, {case}', *mods)
        x = place(B.data(3))
        out.append((name, [val, [
            m.expected_log_likelihood(m.sufficient_statistics(x))
            for m in (em, units[1])], [
                p.natural_form().clone() for p in SUB.params_of(em)]]))
    look('created', [])
    for i, op in enumerate(case['ops'] + ['update']):
        model, gsm, q, em = mods
        val = []
        if op == 'update':
            params = named(mods)
            for p in params.values():
                p.grad = None
            data = [(gsm, units)] if case['m'] == 'hierarchical' else units
            kw['latent_posts'] = [q] if case['m'] == 'hierarchical' else q
            e = beer.evidence_lower_bound(model, data, **kw)
            e.backward()
            val = [e.value.detach()]
            for p in params.values():
                if p.grad is not None:
                    val.append(p.grad.clone())
                    with torch.no_grad():
                        p -= .05 * p.grad / (1. + p.grad.abs())
        elif op == 'move':
            place.move()
            mods = [place(m) for m in mods]
            if 'labels' in kw:
                kw['labels'] = place(kw['labels'])
        elif op == 'copy':
            mods, units = copy.deepcopy((mods, units))
        else:
            new, nq = gsm.new_models(2, latent_nsamples=2, params_nsamples=2)
            place.tensors(cx, f'new units, {case}', nq, *new)
            val = [[p.natural_form() for p in SUB.params_of(m)] for m in new]
        look(f'{i} {op}', val)
    return out


def named(mods):
    out = {}
    for i, m in enumerate(mods):
        for name, p in m.named_parameters():
            if not any(p is x for x in out.values()):
                out[f'{i}.{name}'] = p
    return out


def run_subspace(case, cx):
    both(cx, case, subspace)


# ------------------------------------------------------------- networks

def vae(case, place, cx):
    model = C29.make(case['m'], 3, 2)
    model = place(model)
    out = []
    for i, op in enumerate(['update'] + case['ops'] + ['update']):
        val = []
        if op == 'move':
            place.move()
            model = place(model)
        else:
            X = place(B.data(4, 3, i))
            optim = beer.VBConjugateOptimizer(
                model.conjugate_bayesian_parameters(keepgroups=True), .7)
            optim.init_step()
            for p in model.parameters():
                p.grad = None
            e = beer.evidence_lower_bound(model, X, nsamples=2)
            e.backward()
            optim.step()
            val = [e.value.detach()] + [
                p.grad for p in model.parameters() if p.grad is not None]
            with torch.no_grad():
                for p in model.parameters():
                    if p.grad is not None:
                        p -= .05 * p.grad / (1. + p.grad.abs())
        place.tensors(cx, f'{i} {op}, {case}', model)
        out.append((f'{i} {op}', [val, naturals(model)]))
    return out


def run_vae(case, cx):
    both(cx, case, vae)


def layer(case, place, cx):
    dim, out = case['dim'], []
    kinds = {'diagonal': nnet.NormalDiagonalCovarianceLayer,
             'isotropic': nnet.NormalIsotropicCovarianceLayer,
             'identity': nnet.NormalIdentityCovarianceLayer,
             'bernoulli': nnet.BernoulliLayer}
    if case['m'] == 'flow':
        torch.manual_seed(5)
        random.seed(5)
        m = nnet.InverseAutoRegressiveFlow(
            2, 2, kinds['diagonal'](2, dim), torch.nn.ModuleList(
                [nnet.AutoRegressiveNetwork(dim, 2, 1, 3, torch.nn.Tanh())
                 for _ in range(2)]))
    else:
        m = kinds[case['m']](2, dim)
    for k, (_, p) in enumerate(sorted(m.named_parameters())):
        with torch.no_grad():
            p.copy_(torch.tensor([1.7 * gen(i, k, 11) - .85
                                  for i in range(p.numel())]).view(p.shape))
    for i in range(3):
        if i == 2:
            place.move()
        m = place(m)
        place.tensors(cx, f'{i}, {case}', m)
        params = m(place(B.data(4, 2, i)))
        out.append((f'{i} parameters', params))
        for mean in (False, True):
            if case['m'] == 'bernoulli':
                break
            out.append((f'{i} samples',
                        list(m.samples_and_llh(params, use_mean=mean))))
        if case['m'] != 'flow':
            out.append((f'{i} log-likelihood', m.log_likelihood(
                place((B.data(4, dim, 7) > 0).double()), params)))
    return out


def run_layer(case, cx):
    both(cx, case, layer)


# -------------------------------------------------------- distributions

def dist(case, place, cx):
    fam, dim, size = case['m'], case['dim'], case['size']
    n = max(size, 1)
    p, q = [place(C14.make(fam, size, dim, 10 * i)[0]) for i in (1, 2)]
    out = []
    for i in range(2):
        place.tensors(cx, f'{i}, {case}', p, q)
        start = len(out)
        ev = p.expected_value()
        out += [
            (f'{i} parameters', p.natural_parameters()),
            (f'{i} value', list(ev) if isinstance(ev, tuple) else ev),
            (f'{i} statistics', p.expected_sufficient_statistics()),
            (f'{i} normalizer', p.log_norm()),
            (f'{i} divergence', [C14.kl_div(p, q), C14.kl_div(p, p)]),
            (f'{i} entropy', C14.entropy(p))]
        if size > 1:
            out.append((f'{i} elements', [
                p[1].natural_parameters(), p[:2].natural_parameters(),
                p[1:].log_norm()]))
        X = place(torch.tensor([[.1 + gen(t, j, 7) for j in range(dim)]
                                for t in range(4)]))
        if fam in C14.LIK:
            lik = p.conjugate()
            r = lik.sufficient_statistics_dim(zero_stats=False)
            R = place(torch.tensor([[2 * gen(k, j, 40) - 1 for j in range(r)]
                                    for k in range(n)]))
            pdf = lik.pdfvectors_from_rvectors(R)
            st = lik.sufficient_statistics(
                place(torch.eye(dim)) if fam == 'dirichlet' else X)
            out += [(f'{i} likelihood', [pdf, st, lik(pdf, st)])]
            if C14.LIK[fam] != 'fixed':
                a = lik.parameters_from_pdfvector(pdf)
                out.append((f'{i} parameters of the likelihood',
                            list(a) if isinstance(a, tuple) else a))
        else:
            st = p.sufficient_statistics(X)
            out += [(f'{i} density', [st, p(st)])]
        if fam in ('normalfull', 'normaldiag'):
            torch.manual_seed(4)
            out.append((f'{i} samples', p.sample(3)))
        p.update_from_natural_parameters(
            .7 * p.natural_parameters() + .3 * q.natural_parameters())
        place.tensors(cx, f'{i} updated, {case}', p)
        place.results(cx, str(case), [v for _, v in out[start:]])
        out.append((f'{i} updated', p.natural_parameters()))
        place.move()
        p, q = copy.deepcopy(place(p)), place(q)
    return out


def run_dist(case, cx):
    both(cx, case, dist)


def gamma(case, place, cx):
    model = place(beer.Gamma.create(torch.tensor([1.3, .4]), [2., .7], 1.5))
    out = []
    for i, op in enumerate(case['ops'] + ['update']):
        val = []
        if op == 'update':
            val = [update(model, place(B.data(4, 2, i).abs() + .1))]
        elif op == 'move':
            place.move()
            model = place(model)
        else:
            model = copy.deepcopy(model)
        place.tensors(cx, f'{i} {op}, {case}', model)
        out.append((f'{i} {op}', [val, model.mean, naturals(model)]))
    return out


def run_gamma(case, cx):
    both(cx, case, gamma)


# ------------------------------------------------- creation, commands

def create(case, place, cx):
    cov, dim = case['m'], case['dim']
    mean = torch.tensor([3 * gen(i, 2) - 1 for i in range(dim)])
    full = torch.diag(torch.tensor([.4 + gen(i, 5) for i in range(dim)]))
    out = []
    for form, c in (('number', torch.tensor(1.7)), ('one', torch.ones(1)),
                    ('vector', full.diag()), ('matrix', full)):
        mods = [beer.Normal.create(place(mean), place(c), 2., cov),
                beer.NormalSet.create(place(mean), place(c), 3, 2., 1., cov)]
        mods.append(beer.Mixture.create(mods[1], prior_strength=2.))
        mods.append(beer.MixtureSet.create(3, mods[1]))
        for i, m in enumerate(mods):
            place.tensors(cx, f'{form} {i}, {case}', m)
            x = place(B.data(3, dim))
            st = m.sufficient_statistics(x)
            out.append((f'{form} {i}', [
                naturals(m), m.expected_log_likelihood(st)]))
        w = beer.Categorical.create(place(torch.tensor([.2, .8])))
        ws = beer.CategoricalSet.create(place(torch.tensor([[.2, .8]])))
        g = beer.Gamma.create(place(mean.abs() + .1), [2.] * dim)
        place.tensors(cx, f'{form}, {case}', w, ws, g)
        out.append((form, [w.mean, ws.mean, g.mean]))
    return out


def run_create(case, cx):
    both(cx, case, create)


@contextlib.contextmanager
def gpu():
    'The device is found as a GPU.'
    old = (torch.nn.Module.cuda, torch.Tensor.cuda, beer.utils.reserve_gpu,
           beer.reserve_gpu if hasattr(beer, 'reserve_gpu') else None)
    torch.nn.Module.cuda = lambda self, *a: self.to(META)
    torch.Tensor.cuda = lambda self, *a, **k: self.to(META)
    beer.utils.reserve_gpu = lambda *a, **k: 0
    try:
        with Device():
            yield
    finally:
        (torch.nn.Module.cuda, torch.Tensor.cuda,
         beer.utils.reserve_gpu) = old[:3]


def run_command(case, cx):
    tmp, name = cx.tmpdir(), case['m']
    src = f'{tmp}/in'
    C35.inputs(src, name)
    line, stdin, _, _ = C35.SCENARIOS[name]
    outs = []
    for where in ('cpu', 'gpu'):
        d = f'{tmp}/{where}'
        os.makedirs(d)
        args = [a for a in line.format(i=src, o=d).split()]
        if '-o' in args:
            at = args.index('-o')
            del args[at:at + 2]
        args[2:2] = case['flags'] + (['--gpu'] if where == 'gpu' else [])
        count = used()
        with gpu() if where == 'gpu' else contextlib.nullcontext():
            cli.run(*args, stdin=stdin, seed=5)
        cx.same(used() > count, where == 'gpu', f'device used, {args}')
        outs.append({f: C35.content(f'{d}/{f}') for f in
                     sorted(os.listdir(d))})
        cx.step()
    cx.check(len(outs[0]) >= 3, f'files written, {case}')
    cx.same(sorted(outs[1]), sorted(outs[0]), f'files, {case}')
    for f in outs[0]:
        a, b = numbers(outs[1][f]), numbers(outs[0][f])
        cx.same(len(a), len(b), f'{f}, {case}')
        cx.close(np.array(a), np.array(b), f'{f}, {case}', 1e-5, 1e-6)
        cx.state(name, f, case['flags'])


def numbers(x):
    if isinstance(x, (list, tuple)):
        return [v for e in x for v in numbers(e)]
    return [float(x)] if isinstance(x, (int, float)) else []
