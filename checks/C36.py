"""Calls without effect: removing the evaluations from a history of calls
changes neither the results of the other calls nor the model."""
import itertools
import numpy as np
import torch
import beer
from beer.graph import CompiledGraph
from beer.models.hmm import HMM
from mc.core import tonp
from checks.C20 import ZOO, Subject

PROP = 'C36'
CHUNK = 1
BOUNDS = {
    'quick': '23 models (those of C20) x all the histories of 3 calls among '
             'the evaluations of the model (objective and statistics, '
             'likelihood left without accumulation, posteriors, decoding, '
             'divergence, elements, other scale, graph, path or labels, '
             'Viterbi, aborted call) and 4 writings (2 kinds of training '
             'step, objective applied later, replacement of the cache)',
    'thorough': 'all the histories of 4 calls',
}
ASSUMPTIONS = [
    'the results of the history without evaluations are those of C03-C22',
]
PARTS = 4


def cases(tier):
    n, parts = (4, 40) if tier == 'thorough' else (3, PARTS)
    for name in ZOO:
        for part in range(parts):
            yield {'model': name, 'n': n, 'part': part, 'parts': parts}


def othergraph():
    return CompiledGraph(*[torch.tensor(x).log() for x in (
        [.7, .3], [.4, .6], [[.55, .45], [.2, .8]])], [1, 0])


class Calls(Subject):
    def __init__(self, name):
        super().__init__(name)
        self.held = None
        self.args = []

    @property
    def kind(self):
        if isinstance(self.model, HMM):
            return 'hmm'
        if isinstance(self.model, beer.Mixture):
            return 'mixture'
        return 'vae' if self.name.startswith('vae') else 'other'

    def ops(self):
        out = 'erakx'
        out += {'hmm': 'pdsvgl', 'mixture': 'psl', 'vae': 'p',
                'other': ''}[self.kind]
        # (torch does not allow parameters of networks to change before the
        # gradient is computed)
        return out + ('tuc' if self.kind == 'vae' else 'tuhc')

    def given(self, x):
        'Arguments of the calls are not changed.'
        self.args.append((x, x.clone()))
        return x

    def params(self):
        return list(self.model.bayesian_parameters())

    def evaluate(self, X, **kwargs):
        e = beer.evidence_lower_bound(self.model, self.given(X), **kwargs)
        for p in self.params():
            p.zero_stats()
        std = [p for p in self.model.parameters() if p.requires_grad]
        for p in std:
            p.grad = None
        e.backward()
        out = [float(e)] + [tonp(p.stats).copy() for p in self.params()]
        out += [tonp(p.grad).copy() for p in std if p.grad is not None]
        for p in self.params():
            p.zero_stats()
        for p in std:
            p.grad = None
        return out

    def stats(self, X):
        return self.given(self.model.sufficient_statistics(self.given(X)))

    def call(self, op):
        'Result of a call (None for a writing).'
        torch.manual_seed(13)
        m = self.model
        if op in 'tu':
            self.apply(op, self.objective(op))
        elif op == 'h':
            if self.held is None:
                self.held = self.objective('u')
            else:
                self.apply('u', self.held)
                self.held = None
        elif op == 'c':
            m.clear_cache()
        elif op == 'e':
            return self.evaluate(self.data(5, salt=2), datasize=9)
        elif op == 'r':
            st = self.stats(self.data(6, salt=5))
            kw = {'scale': .5} if self.kind == 'hmm' else {}
            llh = m.expected_log_likelihood(st, **kw)
            acc = m.accumulate(st)
            return [tonp(llh)] + [tonp(acc[p]) for p in self.params()
                                  if p in acc]
        elif op == 'a':
            st = self.stats(self.data(3, salt=31))
            return [tonp(m.expected_log_likelihood(st))]
        elif op == 'k':
            out = [float(m.kl_div_posterior_prior())]
            for x in (getattr(m, 'mean', None), getattr(m, 'weights', None)):
                if isinstance(x, torch.Tensor):
                    out.append(tonp(x))
            return out
        elif op == 'x':
            # Calls which fail.
            X = self.data(4, salt=8)
            for bad in (torch.cat([X, X], dim=1), X[:0], X[0, 0]):
                try:
                    st = m.sufficient_statistics(bad)
                    m.expected_log_likelihood(st)
                    m.accumulate(st[:2])
                except Exception:
                    pass
            return []
        elif op == 'p':
            if self.kind == 'vae':
                q = m.posteriors(self.given(self.data(4, salt=9)))
                return [tonp(q.expected_sufficient_statistics())]
            kw = {'scale': 2.} if self.kind == 'hmm' else {}
            return [tonp(m.posteriors(self.given(self.data(7, salt=9)),
                                      **kw))]
        elif op == 'd':
            return [tonp(m.decode(self.given(self.data(6, salt=12)),
                                  scale=.7))]
        elif op == 's':
            ms = m.modelset
            st = self.given(ms.sufficient_statistics(
                self.given(self.data(3, salt=17))))
            out = [tonp(ms.expected_log_likelihood(st))]
            if self.name not in ('hmm-repeated', 'hmm-tied'):
                for k in range(min(len(ms), 3)):
                    try:
                        one = ms[k]
                    except (TypeError, NotImplementedError, ValueError):
                        break
                    out.append(tonp(one.expected_log_likelihood(st)))
            return out
        elif op == 'v':
            return self.evaluate(self.data(5, salt=19), viterbi=True,
                                 scale=.3)
        elif op == 'g':
            g = othergraph()
            for x in (g.init_log_probs, g.trans_log_probs, g.final_log_probs):
                self.given(x)
            return self.evaluate(self.data(5, salt=28), inference_graph=g)
        elif op == 'l':
            X = self.data(5, salt=29)
            T = len(X)
            lab = self.given(torch.arange(T) % 2 if self.kind == 'mixture'
                             else torch.zeros(T, dtype=torch.long))
            key = 'labels' if self.kind == 'mixture' else 'state_path'
            return self.evaluate(X, **{key: lab})
        return None

    def end(self):
        if self.held is not None:
            self.call('h')
        return self.print()


    def state(self):
        'Parameters and graph.'
        out = {k: v for k, v in self.model.state_dict().items()
               if not k.endswith('stats')}
        g = getattr(self.model, 'graph', None)
        if g is not None:
            out.update({k: getattr(g, k) for k in (
                'init_log_probs', 'trans_log_probs', 'final_log_probs')})
        return {k: v.detach().clone() for k, v in out.items()}


WRITES = 'tuh'


def run(case, cx):
    torch.set_default_dtype(torch.float64)
    name = case['model']
    ops = Calls(name).ops()
    memo = {}

    def alone(writes, op):
        'The same without the other evaluations.'
        if (writes, op) not in memo:
            s = Calls(name)
            for w in writes:
                s.call(w)
            memo[writes, op] = s.end() if op is None else s.call(op)
            cx.step(len(writes) + 1)
        return memo[writes, op]

    for i, hist in enumerate(itertools.product(ops, repeat=case['n'])):
        if i % case['parts'] != case['part']:
            continue
        s, writes = Calls(name), ''
        for k, op in enumerate(hist):
            before = s.state() if op not in WRITES else None
            got = s.call(op)
            cx.step()
            what = f'{name}, call {op} of {"".join(hist[:k + 1])}'
            if got is not None:
                want = alone(writes, op)
                cx.same(len(got), len(want), f'{what}: results')
                for a, b in zip(got, want):
                    cx.close(a, b, what, 1e-9, 1e-11)
            if op in WRITES:
                writes += op
            else:
                after = s.state()
                for key, x in before.items():
                    cx.check(torch.equal(x, after[key]),
                             f'{what}: {key} changed')
            for x, old in s.args:
                cx.check(torch.equal(x, old), f'{what}: argument changed')
        got, want = s.end(), alone(writes, None)
        cx.same(sorted(got), sorted(want), f'{name}: state')
        for key in want:
            cx.close(got[key], want[key], f'{name} after {"".join(hist)}: '
                     f'{key}', 1e-9, 1e-11)
        cx.state(name, hist)
        cx.trace()
    cx.label(name)
