"""Stored and copied models: after every history of training steps, storage
and copies, a model is the one obtained by the training steps alone, and the
models left behind have not moved."""
import copy
import io
import itertools
import pickle
import numpy as np
import torch
import beer
from beer import dists, nnet
from beer.graph import CompiledGraph
from mc import bmodels as B
from mc import weights as W
from mc.core import tonp
from checks.C06 import LAYOUTS, base_graph

PROP = 'C20'
CHUNK = 1
BOUNDS = {
    'quick': '23 models (Normal, Gamma, categorical and stick-breaking, '
             'mixtures, HMMs over every collection of models, phone-loops, '
             'variational auto-encoder) x all the histories of 3 operations '
             'among 8 (training with 2 batches and learning rates, pickle, '
             'torch.save, copy keeping either, objective stored and applied '
             'later, copy between the objective and its application)',
    'thorough': 'all the histories of 4 operations',
}
OPS = ('t', 'u', 'p', 's', 'd', 'o', 'P', 'E')
PARTS = 4


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    parts = 16 if tier == 'thorough' else PARTS
    for name in ZOO:
        for part in range(parts):
            yield {'model': name, 'n': n, 'part': part, 'parts': parts}


# Models -------------------------------------------------------------------

ZOO = {}


def zoo(*names):
    def deco(fn):
        for n in names:
            ZOO[n] = fn
        return fn
    return deco


@zoo(*[f'normal-{c}' for c in B.COVS])
def normal(name):
    cov = name.split('-')[1]
    mean = torch.tensor([.3, -.2])
    var = {'isotropic': torch.tensor(1.5), 'diagonal': torch.tensor([1., 2.]),
           'full': torch.tensor([[1., .3], [.3, 2.]])}[cov]
    return beer.Normal.create(mean, var, 1.3, cov_type=cov), B.data


@zoo('gamma')
def gamma(name):
    prior = dists.Gamma.from_std_parameters(torch.tensor([.7]),
                                            torch.tensor([1.3]))
    post = dists.Gamma.from_std_parameters(torch.tensor([2.]),
                                           torch.tensor([.4]))
    return beer.Gamma(torch.tensor([1.8]),
                      beer.ConjugateBayesianParameter(prior, post)), \
        lambda T, salt=0: B.data(T, 1, salt).abs() + .1


def onehots(T, salt=0):
    return torch.eye(3)[[(t * t + salt) % 3 for t in range(T)]]


@zoo('dirichlet', 'sb', 'sbhyper')
def categorical(name):
    return W.make(name, 3)[0], onehots


@zoo(*[f'mixture-{w}' for w in ('dirichlet', 'sb', 'sbhyper')],
     'mixture-full')
def mixture(name):
    w = name.split('-')[1]
    cov = 'full' if w == 'full' else 'diagonal'
    return beer.Mixture(W.make('dirichlet' if w == 'full' else w, 3)[0],
                        B.normalset(cov, 3)), B.data


def hmmgraph(n, mapping):
    init = np.full(n, 1. / n)
    trans = np.array([[.5 + (i == j) * 2 + .1 * j for j in range(n)]
                      for i in range(n)])
    trans /= trans.sum(1, keepdims=True)
    return CompiledGraph(*[torch.tensor(x).log() for x in (
        init, init, trans)], list(mapping))


@zoo('hmm-normals', 'hmm-shared', 'hmm-mixtures', 'hmm-joint', 'hmm-repeated',
     'hmm-tied')
def hmm(name):
    kind = name.split('-')[1]
    mapping = range(4)
    if kind == 'normals':
        ms = B.normalset('diagonal', 4)
    elif kind == 'shared':
        ms, mapping = B.normalset('isotropic', 2), [0, 1, 1, 0]
    elif kind == 'mixtures':
        ms = beer.MixtureSet(beer.CategoricalSet.create(
            torch.tensor([[.3, .7], [.5, .5], [.2, .8], [.6, .4]]), 2.),
            B.normalset('diagonal', 8))
    elif kind == 'joint':
        ms = beer.JointModelSet([B.normalset('full', 1),
                                 B.normalset('full', 3, salt=4)])
    elif kind == 'repeated':
        ms = beer.RepeatedModelSet(B.normalset('diagonal', 2), 2)
    else:
        ms = beer.MixtureSet(beer.CategoricalSet.create(
            torch.tensor([[.3, .7], [.5, .5], [.2, .8], [.6, .4]]), 2.),
            beer.RepeatedModelSet(B.normalset('diagonal', 2), 4))
    return beer.HMM.create(hmmgraph(4, mapping), ms), B.data


@zoo(*[f'loop-{w}' for w in ('dirichlet', 'sb', 'sbhyper', 'bigram')])
def loop(name):
    units, n = LAYOUTS['three']
    K = len(units)
    cg = CompiledGraph(*[torch.tensor(x).log() for x in base_graph(units, n)],
                       list(range(n)))
    starts = {u: s for u, (s, e) in units.items()}
    ends = {u: e for u, (s, e) in units.items()}
    kind = name.split('-')[1]
    ms = B.normalset('diagonal', n)
    if kind == 'bigram':
        cat = beer.CategoricalSet.create(torch.tensor(
            [[.2 + .1 * ((i + 2 * j) % 3) for j in range(K)]
             for i in range(K)]), 2.)
        return beer.BigramPhoneLoop.create(cg, starts, ends, ms, cat), \
            lambda T, salt=0: B.data(T + 4, salt=salt)
    return beer.PhoneLoop.create(cg, starts, ends, ms,
                                 W.make(kind, K)[0]), \
        lambda T, salt=0: B.data(T + 4, salt=salt)


@zoo('vae-normal', 'vae-mixture')
def vae(name):
    torch.manual_seed(3)
    if name.endswith('normal'):
        prior = beer.Normal.create(torch.zeros(2), torch.ones(2), 1.,
                                   cov_type='diagonal')
    else:
        prior = beer.Mixture(W.make('dirichlet', 3)[0],
                             B.normalset('diagonal', 3))
    enc = nnet.ResidualFeedForwardNet(2, 1, 3)
    dec = nnet.ResidualFeedForwardNet(2, 1, 3)
    return beer.VAE(prior, enc, dec), B.data


# Operations ---------------------------------------------------------------

class Subject:
    'A model being trained with its optimizer.'

    def __init__(self, name, model=None, data=None):
        self.name = name
        if model is None:
            model, data = ZOO[name](name)
        self.model, self.data = model, data
        self.count = 0

    def batch(self, op):
        return self.data(4, salt=3) if op == 't' else self.data(3, salt=11)

    def objective(self, op):
        torch.manual_seed(7)
        X = self.batch(op)
        return beer.evidence_lower_bound(self.model, X,
                                         datasize=len(X) + 2)

    def apply(self, op, elbo):
        optim = beer.VBConjugateOptimizer(
            self.model.conjugate_bayesian_parameters(keepgroups=True),
            1. if op == 't' else .5)
        optim.load_state_dict(dict(optim.state_dict(),
                                   update_count=self.count))
        std = [p for p in self.model.parameters() if p.requires_grad]
        optim.init_step()
        for p in std:
            p.grad = None
        elbo.backward()
        for p in std:
            if p.grad is not None:
                with torch.no_grad():
                    p -= .01 * p.grad
                p.grad = None
        optim.step()
        self.count = optim.update_count

    def other(self, model):
        s = Subject(self.name, model, self.data)
        s.count = self.count
        return s

    def print(self):
        'What can be observed of the model.'
        out = {k: tonp(v) for k, v in self.model.state_dict().items()
               if not k.endswith('stats')}
        torch.manual_seed(5)
        X = self.data(5, salt=23)
        with torch.no_grad():
            e = beer.evidence_lower_bound(self.model, X)
        out['objective'] = np.array([float(e)])
        out['kl'] = np.array([float(self.model.kl_div_posterior_prior())])
        g = getattr(self.model, 'graph', None)
        if g is not None:
            out['transitions'] = tonp(g.trans_log_probs)
        return out


def same(cx, got, want, what):
    cx.same(sorted(got), sorted(want), f'{what}: state')
    for k in want:
        cx.close(got[k], want[k], f'{what}: {k}', 1e-9, 1e-11)


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    name = case['model']
    straight = {}

    def expected(train):
        'Model trained by the steps alone.'
        if train not in straight:
            s = Subject(name)
            for op in train:
                s.apply(op, s.objective(op))
                cx.step()
            straight[train] = s.print()
        return straight[train]

    for i, hist in enumerate(itertools.product(OPS, repeat=case['n'])):
        if i % case['parts'] != case['part']:
            continue
        s, train, aside = Subject(name), '', []
        for op in hist:
            what = f'{name} after {"".join(hist)}, at {op}'
            if op in 'tu':
                s.apply(op, s.objective(op))
                train += op
            elif op == 'p':
                aside.append((s, train))
                s = s.other(pickle.loads(pickle.dumps(s.model)))
            elif op == 's':
                aside.append((s, train))
                buf = io.BytesIO()
                torch.save(s.model, buf)
                buf.seek(0)
                s = s.other(load(buf))
            elif op == 'd':
                aside.append((s, train))
                s = s.other(copy.deepcopy(s.model))
            elif op == 'o':
                aside.append((s.other(copy.deepcopy(s.model)), train))
            elif op == 'P':
                # What the commands accumulate and update do.
                elbo = s.objective('u')
                if name.startswith('vae'):
                    s.apply('u', elbo)
                else:
                    aside.append((s, train))
                    elbo = pickle.loads(pickle.dumps(elbo))
                    s = s.other(pickle.loads(pickle.dumps(s.model)))
                    elbo.sync(s.model)
                    s.apply('u', elbo)
                train += 'u'
            elif op == 'E':
                elbo = s.objective('t')
                aside.append((s.other(copy.deepcopy(s.model)), train))
                s.apply('t', elbo)
                train += 't'
            cx.step()
            cx.state(name, train, len(aside))
            same(cx, s.print(), expected(train), what)
        for k, (other, steps) in enumerate(aside):
            same(cx, other.print(), expected(steps),
                 f'{name} after {"".join(hist)}: model {k} left behind')
        cx.trace()
    cx.label(name)


def load(buf):
    try:
        return torch.load(buf, weights_only=False)
    except TypeError:       # older versions
        buf.seek(0)
        return torch.load(buf)
